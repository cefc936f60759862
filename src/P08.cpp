// P08: macros, and charset arithmetic with {-} and {+}
#include "nfa.hpp"

using namespace model;

namespace
{
    const std::vector<std::string> names{ "M", "digit", "A_1", "x-y", "_",
        "Z9" };

    void base(Lexer& l, Src& s, cp max)
    {
        l.flags.max = max;
        l.flags.wide = max > 0xff;
        l.flags.icase = s.chance(15);
        l.flags.dot_nl = !s.chance(30);
        l.flags.ws = s.chance(15);
    }

    template<typename CharT>
    void macros(pbt::Case& c)
    {
        constexpr cp max = sizeof(CharT) == 1 ? 0xff : 0x10ffff;
        using Rules = lexertl::basic_rules<CharT, CharT>;
        using SM = lexertl::basic_state_machine<CharT>;
        Src& s = c.src;
        Lexer l;

        base(l, s, max);

        std::vector<cp> alpha = gen_alphabet(s, max);
        rx::GenOpts o;

        o.alphabet = alpha;
        o.posix = max == 0xff;
        o.rep_max = 3;
        o.arith = true;
        o.mf = std::make_shared<Flags>(l.flags);

        const rx::Style st{ s.chance(20), true };
        const std::size_t nm = 1 + s.below(4);
        auto ok = [&](const P& p)
        {
            if (rx::weight(*p) > (max > 0xff ? 15u : 30u) ||
                rx::has_empty_set(*p, l.flags)) throw pbt::Discard();
        };

        for (std::size_t i = 0; i < nm; ++i)
        {
            P p = s.chance(30) ? rx::gen_set(s, o) : rx::gen(s, o, 2);

            ok(p);
            l.macros.emplace_back(names[i], rx::print(*p, s, st, l.flags));
            o.macros.emplace_back(names[i], p);
        }

        const std::size_t n = 1 + s.below(3);
        bool used = false, nested = false;

        for (auto& m : l.macros)
            for (auto& k : names)
                if (m.second.find(U"{" + rx::u32(k.begin(), k.end()) + U"}")
                    != rx::u32::npos) nested = true;

        for (std::size_t i = 0; i < n; ++i)
        {
            Rule r;

            r.re = rx::gen(s, o, 3);

            if (rx::nullable(*r.re)) r.re = rx::seq({ r.re,
                rx::chr(s.of(alpha)) });

            ok(r.re);
            r.id = static_cast<int>(1 + i);
            spell(r, s, st, l.flags);
            l.rules.push_back(r);

            for (auto& k : names)
                if (r.spelling.find(U"{" + rx::u32(k.begin(), k.end()) + U"}")
                    != rx::u32::npos) used = true;
        }

        Rules rules(rule_flags(l.flags));
        SM sm;

        c.desc << describe(l, {});
        fill(l, rules);
        build(l, rules, sm);

        if (nested) c.label("macro uses a macro");
        if (used) c.label("rule uses a macro");

        for (int i = 0; i < 5; ++i)
        {
            text in = gen_input(s, l, alpha);

            c.desc << "\ninput " << pbt::show(in);

            Run want = run(l, in);

            compare(want, lex_any(sm, rx::to_input<CharT>(in), false),
                "lookup");

            for (auto& t : want.toks)
                if (used && t.id > 0 && t.second > t.first)
                    c.nontrivial = true;
        }
    }

    template<typename CharT>
    void algebra(pbt::Case& c)
    {
        constexpr cp max = sizeof(CharT) == 1 ? 0xff : 0x10ffff;
        using Rules = lexertl::basic_rules<CharT, CharT>;
        using SM = lexertl::basic_state_machine<CharT>;
        Src& s = c.src;
        Lexer l;

        base(l, s, max);

        std::vector<cp> alpha = gen_alphabet(s, max);
        rx::GenOpts o;

        o.alphabet = alpha;
        o.posix = max == 0xff;
        o.mf = std::make_shared<Flags>(l.flags);

        const rx::Style st{ false, true };

        for (std::size_t i = s.below(3); i; --i)
        {
            P p = s.chance(60) ? rx::gen_set(s, o) : rx::mk(rx::Node::dot);

            if (rx::has_empty_set(*p, l.flags)) throw pbt::Discard();

            l.macros.emplace_back(names[i], rx::print(*p, s, st, l.flags));
            o.macros.emplace_back(names[i], p);
        }

        P p = rx::mk(rx::Node::arith);
        const std::size_t n = 2 + s.below(3);

        for (std::size_t i = 0; i < n; ++i)
        {
            if (!o.macros.empty() && s.chance(35))
            {
                auto& m = o.macros[s.below(o.macros.size())];
                P k = rx::mk(rx::Node::macro);

                k->name = m.first;
                k->mf = o.mf;
                k->kids.push_back(m.second);
                p->kids.push_back(k);
            }
            else if (s.chance(20)) p->kids.push_back(rx::mk(rx::Node::dot));
            else p->kids.push_back(rx::gen_set(s, o));

            if (i) p->ops += s.chance(60) ? '-' : '+';
        }

        const bool empty = rx::has_empty_set(*p, l.flags);

        if (empty && rx::eval(*p->kids[0], l.flags).empty())
            throw pbt::Discard();

        Rule r;

        r.re = p;
        spell(r, s, st, l.flags);
        l.rules.push_back(r);

        Rules rules(rule_flags(l.flags));
        SM sm;
        bool threw = false;

        c.desc << describe(l, {});

        try
        {
            fill(l, rules);
        }
        catch (const lexertl::runtime_error&)
        {
            threw = true;
        }

        pbt::check(threw == empty, empty ? "an empty charset is accepted" :
            "the difference is not empty but rejected");

        if (empty)
        {
            c.label("empty difference rejected");
            return;
        }

        build(l, rules, sm);

        const rx::Set set = rx::eval(*p, l.flags);
        std::vector<cp> probe;

        if (max == 0xff) for (cp ch = 0; ch <= max; ++ch) probe.push_back(ch);
        else
        {
            for (auto& q : set.r)
                for (cp ch : { q.first, q.second, q.first - 1, q.second + 1 })
                    if (ch <= max) probe.push_back(ch);

            for (auto& k : p->kids)
                for (auto& q : rx::eval(*k, l.flags).r)
                    for (cp ch : { q.first, q.second, q.first - 1, q.second +
                        1 }) if (ch <= max) probe.push_back(ch);
        }

        std::size_t in = 0, out = 0;

        for (cp ch : probe)
        {
            const std::basic_string<CharT> str(1, static_cast<CharT>(ch));
            Plain<typename std::basic_string<CharT>::const_iterator,
                typename SM::id_type> m(str.begin(), str.end());

            lexertl::lookup(sm, m);
            pbt::check((m.id == 1) == set.has(ch), "character " +
                std::to_string(ch) + (set.has(ch) ? " should" : " should not")
                + " be in " + rx::show(r.spelling));
            ++(set.has(ch) ? in : out);
        }

        if (in && out) c.nontrivial = true;
    }

    // Macros that start with ^ or end with $
    template<typename CharT>
    void anchored(pbt::Case& c)
    {
        constexpr cp max = sizeof(CharT) == 1 ? 0xff : 0x10ffff;
        using Rules = lexertl::basic_rules<CharT, CharT>;
        using SM = lexertl::basic_state_machine<CharT>;
        Src& s = c.src;
        Lexer l;

        l.flags.max = max;
        l.flags.wide = max > 0xff;

        const std::vector<cp> alpha{ 'a', 'b', '\n', '^', '$' };
        rx::GenOpts o;

        o.alphabet = { 'a', 'b' };
        o.posix = o.classes = false;
        o.rep_max = 2;

        const rx::Style st{ false, true };
        auto part = [&](int depth)
        {
            P p = rx::gen(s, o, depth);

            if (rx::nullable(*p)) p = rx::seq({ p, rx::chr(s.of(o.alphabet)) });

            return p;
        };

        // the macro
        std::vector<P> alts;
        const bool bol = s.chance(60), eol = s.chance(60) || !bol;

        for (std::size_t k = 1 + s.below(3); k; --k) alts.push_back(part(1));

        rx::u32 m;

        if (bol) m += U'^';

        for (std::size_t i = 0; i < alts.size(); ++i)
        {
            if (i) m += U'|';

            rx::print(m, *alts[i], s, st, l.flags, 1);
        }

        if (eol) m += U'$';

        l.macros.emplace_back("M", m);

        // its use
        P pre = s.chance(50) ? part(1) : nullptr;
        P post = s.chance(50) ? part(1) : nullptr;
        P left = s.chance(30) ? part(1) : nullptr;
        P right = s.chance(30) ? part(1) : nullptr;
        Rule r;
        rx::u32 sp;

        if (left)
        {
            rx::print(sp, *left, s, st, l.flags, 1);
            sp += U'|';
        }

        if (pre) rx::print(sp, *pre, s, st, l.flags, 1);

        sp += U"{M}";

        if (post) rx::print(sp, *post, s, st, l.flags, 1);

        if (right)
        {
            sp += U'|';
            rx::print(sp, *right, s, st, l.flags, 1);
        }

        std::vector<Piece> ps;

        if (left) ps.push_back({ left });

        for (std::size_t i = 0; i < alts.size(); ++i)
        {
            std::vector<P> v;
            Piece p;

            if (pre) v.push_back(pre);

            if (bol && i == 0)
            {
                if (pre || left) v.push_back(rx::chr('^'));
                else p.bol = true;
            }

            v.push_back(alts[i]);

            if (eol && i + 1 == alts.size())
            {
                if (post || right) v.push_back(rx::chr('$'));
                else p.eol = true;
            }

            if (post) v.push_back(post);

            p.re = v.size() == 1 ? v[0] : rx::seq(v);
            ps.push_back(p);
        }

        if (right) ps.push_back({ right });

        r.re = ps[0].re;
        r.bol = ps[0].bol;
        r.eol = ps[0].eol;
        r.more.assign(ps.begin() + 1, ps.end());
        r.spelling = sp;
        l.rules.push_back(r);

        Rule other;

        other.re = part(1);
        other.id = 2;
        spell(other, s, st, l.flags);
        l.rules.push_back(other);

        if (s.chance(30))
        {
            l.states.push_back("S");
            l.rules[0].next = Rule::go;
            l.rules[0].to = 1;
            l.rules[1].next = Rule::go;
            l.rules[1].star = true;
            l.rules[1].states = { 0, 1 };
        }

        for (auto& q : l.rules)
            for (auto& p : q.pieces())
                if (rx::weight(*p.re) > 15) throw pbt::Discard();

        if (max == 0xff && nfa::newline_clash(l, 400)) throw pbt::Discard();

        Rules rules(rule_flags(l.flags));
        SM sm;

        c.desc << describe(l, {});
        fill(l, rules);
        build(l, rules, sm);

        for (int i = 0; i < 6; ++i)
        {
            text in = gen_input(s, l, alpha);

            c.desc << "\ninput " << pbt::show(in);

            Run want = run(l, in);

            compare(want, lex_any(sm, rx::to_input<CharT>(in), false),
                "lookup");

            if ((want.bol_used || want.eol_used) && (pre || post))
                c.nontrivial = true;
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P08", "1-4 macros that use each other, rules that use them; "
        "charset expressions probed at every character or boundary; macros "
        "with ^ or $ between other parts; non-trivial: a rule with a macro "
        "matched text, a charset expression has members and non-members, an "
        "anchored macro matched next to something else");

    m.add("macros char", 25000, 500000, macros<char>);
    m.add("macros char32", 6000, 100000, macros<char32_t>);
    m.add("algebra char", 15000, 300000, algebra<char>);
    m.add("algebra char32", 4000, 80000, algebra<char32_t>);
    m.add("anchored char", 15000, 300000, anchored<char>);
    m.add("anchored char32", 4000, 80000, anchored<char32_t>);
    return m.run(argc, argv);
}
