// P06: lexer states, the state stack, skip, again and ids
#include "lexgen.hpp"

using namespace model;

namespace
{
    template<typename CharT>
    void prop(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT>;
        using SM = lexertl::basic_state_machine<CharT>;
        Src& s = c.src;
        LexOpts o;

        o.max = sizeof(CharT) == 1 ? 0xff : sizeof(CharT) == 2 ? 0xffff :
            0x10ffff;
        o.states = 4;
        o.rules = 8;

        std::vector<cp> alpha;
        Lexer l = gen_lexer(s, o, alpha);
        Rules rules(rule_flags(l.flags));
        SM sm;

        c.desc << describe(l, {});
        fill(l, rules);
        build(l, rules, sm);

        for (int i = 0; i < 8; ++i)
        {
            text in = gen_input(s, l, alpha);

            c.desc << "\ninput " << pbt::show(in);

            Run want = run(l, in);
            auto str = rx::to_input<CharT>(in);

            compare(want, lex_any(sm, str, true), "recursive_match_results");

            if (!l.recursive())
                compare(want, lex_any(sm, str, false), "match_results");

            if (want.toks.size() > 2 && (want.moved || want.stacked) )
                c.nontrivial = true;

            run_labels(c, want);
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P06", "lexers of 1-4 states with random transitions, pushes "
        "(with and without a named return state), pops, * rules, state "
        "lists, skip and again; eight inputs each; non-trivial: the state or "
        "the stack changed and there are at least two tokens");

    m.add("char", 40000, 800000, prop<char>);
    m.add("char32", 15000, 300000, prop<char32_t>);
    m.add("char16", 5000, 100000, prop<char16_t>);
    return m.run(argc, argv);
}
