// P05: ^ and $
#include "nfa.hpp"

using namespace model;

namespace
{
    template<typename CharT>
    void prop(pbt::Case& c)
    {
        constexpr cp max = sizeof(CharT) == 1 ? 0xff : sizeof(CharT) == 2 ?
            0xffff : 0x10ffff;
        using Rules = lexertl::basic_rules<CharT, CharT>;
        using SM = lexertl::basic_state_machine<CharT>;
        Src& s = c.src;
        Lexer l;

        l.flags.max = max;
        l.flags.wide = max > 0xff;
        l.flags.dot_nl = !s.chance(20);

        std::vector<cp> alpha;

        switch (s.pick({ 50, 20, max > 0xff ? 30u : 0u }))
        {
        case 0: alpha = { 'a', 'b', '\n' }; break;
        case 1: alpha = { 'a', 'b', '\r', '\n', ' ' }; break;
        default: alpha = { 'a', 0x61 + 0x100, 0xa0a, 0x10a, 0xa00, 0xd00,
            0x20a & max, 0x1000a & max, 0x10d0a & max, '\n', '\r', 0xffff };
        }

        rx::GenOpts o;

        o.alphabet = alpha;
        o.posix = false;
        o.rep_max = 3;

        const std::size_t n = 1 + s.below(4);
        auto part = [&](int depth)
        {
            P p = rx::gen(s, o, depth);

            if (rx::nullable(*p)) p = rx::seq({ p, rx::chr(s.of(alpha)) });

            return p;
        };

        for (std::size_t i = 0; i < n; ++i)
        {
            Rule r;

            r.re = part(2);
            r.bol = s.chance(35);
            r.eol = s.chance(35);

            if (s.chance(20))
            {
                // the anchors belong to the outer alternatives
                r.more.push_back({ part(2), false, r.eol });
                r.eol = false;
            }

            r.id = s.chance(10) ? id_skip : static_cast<int>(1 + i);
            spell(r, s, rx::Style{ true, true }, l.flags);
            l.rules.push_back(r);

            for (auto& p : r.pieces())
                if (rx::weight(*p.re) > 12 || rx::has_empty_set(*p.re,
                    l.flags)) throw pbt::Discard();
        }

        if (max == 0xff && nfa::newline_clash(l, 400)) throw pbt::Discard();

        Rules rules(rule_flags(l.flags));
        SM sm;

        c.desc << describe(l, {});
        fill(l, rules);
        build(l, rules, sm);

        for (int i = 0; i < 6; ++i)
        {
            text in = gen_input(s, l, alpha);

            c.desc << "\ninput " << pbt::show(in);

            Run want = run(l, in);
            auto str = rx::to_input<CharT>(in);

            compare(want, lex_any(sm, str, false), "lookup");

            if ((want.bol_used || want.eol_used) && want.toks.size() > 2)
                c.nontrivial = true;

            if (want.bol_used) c.label("^ matched");
            if (want.eol_used) c.label("$ matched");
            if (want.ties) c.label("tie");
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P05", "1-4 rules with ^ and $ in any combination, six "
        "inputs with \\n, \\r\\n and \\r; non-trivial: an anchored rule "
        "matched and there are at least two tokens");

    m.add("char", 40000, 800000, prop<char>);
    m.add("char32", 20000, 400000, prop<char32_t>);
    m.add("char16", 10000, 200000, prop<char16_t>);
    m.assume("rule sets in which a $ competes with a newline that would "
        "complete a token are excluded: lexertl documents that it drops one "
        "of the two");
    return m.run(argc, argv);
}
