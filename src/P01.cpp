// P01: maximal munch
#include "model.hpp"
#include <list>

using namespace model;

namespace
{
    // A rule set without anchors, states or lazy operators
    Lexer gen_lexer(Src& s, std::vector<cp>& alpha, cp max, std::size_t n_max)
    {
        Lexer l;

        l.flags.max = max;
        l.flags.wide = max > 0xff;
        alpha = gen_alphabet(s, max);

        rx::GenOpts o;

        o.alphabet = alpha;
        o.posix = max <= 0xff;

        std::size_t n = 1 + s.below(n_max);

        for (std::size_t i = 0; i < n; ++i)
        {
            Rule r;

            r.re = rx::gen(s, o, 3);

            if (rx::nullable(*r.re)) r.re = rx::seq({ r.re,
                rx::chr(s.of(alpha)) });

            if (rx::weight(*r.re) > (max > 0xff ? 20u : 40u) || rx::has_empty_set(*r.re, l.flags))
                throw pbt::Discard();

            r.id = s.chance(12) ? id_skip : static_cast<int>(1 + s.below(5));
            r.uid = s.chance(30) ? static_cast<int>(s.below(4)) : id_npos;
            r.spelling = rx::print(*r.re, s, rx::Style{ true, true }, l.flags);
            l.rules.push_back(r);
        }

        return l;
    }

    template<typename CharT>
    void prop(pbt::Case& c)
    {
        constexpr cp max = sizeof(CharT) == 1 ? 0xff : sizeof(CharT) == 2 ?
            0xffff : 0x10ffff;
        using Rules = lexertl::basic_rules<CharT, CharT>;
        using SM = lexertl::basic_state_machine<CharT>;

        std::vector<cp> alpha;
        Lexer l = gen_lexer(c.src, alpha, max, 5);
        Rules rules(rule_flags(l.flags));
        SM sm;

        text first = gen_input(c.src, l, alpha);

        c.desc << describe(l, first);
        fill(l, rules);
        build(l, rules, sm);

        for (int i = 0; i < 6; ++i)
        {
            text in = i == 0 ? first : gen_input(c.src, l, alpha);

            if (i) c.desc << "\ninput " << pbt::show(in);

            Run want = run(l, in);
            auto str = rx::to_input<CharT>(in);

            compare(want, lex_any(sm, str, false), "lookup");

            if (want.toks.size() > 2 && (want.longest || want.ties))
                c.nontrivial = true;

            if (want.ties) c.label("tie between rules");
            if (want.longest) c.label("several rules matched");
            if (want.unknown) c.label("unmatched character");
            if (want.skipped) c.label("skipped text");
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P01", "rule sets of 1-5 random greedy regexes, six inputs "
        "each; non-trivial: at least two tokens and a position at which "
        "several rules matched");

    m.add("char", 40000, 800000, prop<char>);
    m.add("char32", 20000, 400000, prop<char32_t>);
    return m.run(argc, argv);
}
