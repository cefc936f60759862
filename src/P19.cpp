// P19: rules.reverse()
#include "lexgen.hpp"

using namespace model;

namespace
{
    const std::vector<std::string> names = { "M", "N_1", "o" };

    // The syntax tree of the reversals
    P turn(const P& p)
    {
        P r = std::make_shared<rx::Node>(*p);

        std::reverse(r->s.begin(), r->s.end());

        // operands of {-} and {+} are single characters
        if (r->k != rx::Node::arith)
        {
            for (auto& k : r->kids) k = turn(k);

            if (r->k == rx::Node::seq)
                std::reverse(r->kids.begin(), r->kids.end());
        }

        return r;
    }

    void turn(Rule& r)
    {
        std::vector<Piece> v;

        for (auto& p : r.pieces()) v.push_back({ turn(p.re), p.eol, p.bol });

        std::reverse(v.begin(), v.end());
        r.re = v[0].re;
        r.bol = v[0].bol;
        r.eol = v[0].eol;
        r.more.assign(v.begin() + 1, v.end());
    }

    // A macro as it is after reverse(), everywhere in a tree
    P later(const P& p)
    {
        P r = std::make_shared<rx::Node>(*p);

        for (auto& k : r->kids)
            k = r->k == rx::Node::macro ? turn(k) : later(k);

        return r;
    }

    bool asymmetric(const Lexer& l)
    {
        for (auto& r : l.rules)
        {
            if (r.bol != r.eol) return true;

            for (auto& p : r.pieces())
            {
                if (p.re->k == rx::Node::seq && p.re->kids.size() > 1)
                    return true;
            }
        }

        return false;
    }

    template<typename CharT>
    void prop(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT>;
        using SM = lexertl::basic_state_machine<CharT>;
        using S = std::basic_string<CharT>;
        Src& s = c.src;
        LexOpts o;

        o.max = sizeof(CharT) == 1 ? 0xff : 0x10ffff;
        o.flags = true;

        std::vector<cp> alpha;
        Lexer l = gen_lexer(s, o, alpha);
        rx::GenOpts g;

        g.alphabet = alpha;
        g.posix = o.max == 0xff;
        g.rep_max = 3;
        g.arith = true;
        g.mf = std::make_shared<Flags>(l.flags);

        const rx::Style st{ true, true };

        for (std::size_t i = 0, n = s.below(4); i < n; ++i)
        {
            P p = rx::gen(s, g, 2);

            if (rx::weight(*p) > 10 || rx::has_empty_set(*p, l.flags))
                throw pbt::Discard();

            l.macros.emplace_back(names[i], rx::print(*p, s, st, l.flags));
            g.macros.emplace_back(names[i], p);
        }

        // rules that use the macros: before and after reverse()
        auto with_macro = [&](Rule& r)
        {
            r.re = rx::gen(s, g, 2);

            if (rx::nullable(*r.re)) r.re = rx::seq({ r.re,
                rx::chr(s.of(alpha)) });

            r.id = static_cast<int>(1 + s.below(6));
            r.next = Rule::same;
            r.states = { static_cast<int>(s.below(l.states.size())) };
            r.bol = s.chance(15);
            r.eol = s.chance(15);

            if (rx::weight(*r.re) > 14 || rx::has_empty_set(*r.re, l.flags))
                throw pbt::Discard();

            spell(r, s, st, l.flags);
        };

        for (std::size_t n = s.below(3); n; --n)
        {
            Rule r;

            with_macro(r);
            l.rules.push_back(r);
        }

        Rules rules(rule_flags(l.flags));
        SM sm;

        c.desc << describe(l, {});
        fill(l, rules);

        // what was in the rules is reversed, what is added is not
        Lexer want_l = l;

        for (auto& r : want_l.rules) turn(r);

        Rules twice = rules;

        rules.reverse();

        const std::size_t added = s.below(3);

        for (std::size_t n = 0; n < added; ++n)
        {
            Rule r;

            with_macro(r);
            c.desc << "\nafter reverse(): rule " << rx::show(r.spelling) <<
                " id " << r.id << " in " << r.states[0];
            add_rule(l, r, rules);
            r.re = later(r.re);
            want_l.rules.push_back(r);
        }

        // narrow machines cannot tell $ and a newline in a token apart
        auto clash = [&](const Lexer& x)
        {
            bool eol = false;

            for (auto& r : x.rules) eol = eol || r.any_eol();

            return o.max == 0xff && eol && nfa::newline_clash(x, 400);
        };

        if (clash(l) || clash(want_l)) throw pbt::Discard();

        build(want_l, rules, sm);
        twice.reverse();
        twice.reverse();

        SM sm2;

        build(l, twice, sm2);

        // and rules reversed when they already were, with all the later ones
        Rules again = rules;
        SM sm3;

        again.reverse();

        Lexer again_l = want_l;

        for (auto& r : again_l.rules) turn(r);

        const bool third = !clash(again_l);

        if (third) build(again_l, again, sm3);

        for (int i = 0; i < 4; ++i)
        {
            text in = gen_input(s, want_l, alpha);
            const S str = rx::to_input<CharT>(in);

            c.desc << "\ninput " << pbt::show(in);

            Run want = run(want_l, in);

            compare(want, lex_any(sm, str, true), "reversed");

            if (!l.recursive())
                compare(want, lex_any(sm, str, false),
                    "reversed, match_results");

            text back(in.rbegin(), in.rend());

            c.desc << "\nand " << pbt::show(back);
            compare(run(l, back), lex_any(sm2, rx::to_input<CharT>(back),
                true), "reversed twice");

            if (third)
                compare(run(again_l, back), lex_any(sm3,
                    rx::to_input<CharT>(back), true), "reversed again");

            std::size_t hits = 0;

            for (auto& t : want.toks) hits += t.id > 0;

            if (hits > 1 && asymmetric(l)) c.nontrivial = true;

            run_labels(c, want);
        }

        if (!l.macros.empty()) c.label("macros");
        if (added) c.label("rules added after reverse()");
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P19", "lexers of 1-3 states with anchors, stacks and up to 3 "
        "macros, reversed, extended and reversed again; four inputs each; "
        "non-trivial: a rule is not symmetric and two tokens were matched");

    m.assume("No non-greedy operators.");
    m.add("char", 80000, 1500000, prop<char>);
    m.add("char32", 20000, 400000, prop<char32_t>);
    return m.run(argc, argv);
}
