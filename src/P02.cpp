// P02: the documented regex syntax denotes what it says, however it is spelled
#include "model.hpp"

using namespace model;

namespace
{
    template<typename RC, typename CharT>
    void prop(pbt::Case& c)
    {
        constexpr cp max = sizeof(CharT) == 1 ? 0xff : sizeof(CharT) == 2 ?
            0xffff : 0x10ffff;
        using Rules = lexertl::basic_rules<RC, CharT>;
        using SM = lexertl::basic_state_machine<CharT>;
        Src& s = c.src;
        Lexer l;

        l.flags.max = max;
        l.flags.wide = max > 0xff;
        l.flags.icase = s.chance(25);
        l.flags.ws = s.chance(30);

        switch (s.below(3))
        {
        case 0: break;
        case 1: l.flags.dot_nl = false; break;
        case 2: l.flags.dot_nl = false; l.flags.dot_crlf = true; break;
        }

        std::vector<cp> alpha = gen_alphabet(s, max);
        rx::GenOpts o;

        o.alphabet = alpha;
        // the classes of 16 bit lexers name characters they cannot hold
        o.posix = max == 0xff || (max > 0xffff && s.chance(5));
        o.opt_s = !l.flags.dot_crlf;
        o.rep_max = 5;

        Rule r;

        r.re = rx::gen(s, o, 4);

        if (rx::nullable(*r.re)) r.re = s.chance(50) ? rx::seq({ r.re,
            rx::chr(s.of(alpha)) }) : rx::seq({ rx::chr(s.of(alpha)), r.re });

        if (rx::weight(*r.re) > (max > 0xff ? 20u : 40u) || rx::has_empty_set(*r.re, l.flags))
            throw pbt::Discard();

        rx::Style st;

        // Rules with fewer bits than the input can only name the rest
        st.raw_ctl = sizeof(RC) == sizeof(CharT);

        // The same expression twice, with different spellings
        rx::u32 spell[2];

        for (auto& sp : spell) sp = rx::print(*r.re, s, st, l.flags);

        std::vector<text> ins;

        l.rules.push_back(r);

        for (int i = 0; i < 6; ++i) ins.push_back(gen_input(s, l, alpha, 40));

        for (int k = 0; k < 2; ++k)
        {
            Rules rules(rule_flags(l.flags));
            SM sm;

            l.rules[0].spelling = spell[k];

            if (k) c.desc << "\n-- other spelling --\n";

            c.desc << describe(l, ins[0]);
            fill(l, rules);
            build(l, rules, sm);

            for (auto& in : ins)
            {
                c.desc << "\ninput " << pbt::show(in);

                Run want = run(l, in);
                auto str = rx::to_input<CharT>(in);

                compare(want, lex_any(sm, str, false), "lookup");

                if (want.unknown && want.toks.size() > 2)
                    for (auto& t : want.toks)
                        if (t.id == 1 && t.second - t.first > 1)
                            c.nontrivial = true;
            }
        }

        if (l.flags.icase) c.label("icase");
        if (l.flags.ws) c.label("skip_ws");
        if (l.flags.dot_crlf) c.label("dot_not_cr_lf");
        if (!l.flags.dot_nl && !l.flags.dot_crlf) c.label("dot matches all");
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P02", "one random regex of the documented syntax in two "
        "random spellings, six inputs; non-trivial: a match of at least two "
        "characters and a rejected character occurred");

    m.add("char", 30000, 600000, prop<char, char>);
    m.add("char32", 15000, 300000, prop<char32_t, char32_t>);
    m.add("char to char32", 8000, 200000, prop<char, char32_t>);
    m.add("char16", 8000, 200000, prop<char16_t, char16_t>);
    return m.run(argc, argv);
}
