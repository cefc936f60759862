// P07: non-greedy operators
#include "model.hpp"

using namespace model;

namespace
{
    rx::Set set_of(const P& p, const Flags& f)
    {
        return rx::eval(*p, f);
    }

    bool subset(const rx::Set& a, const rx::Set& b, cp max)
    {
        for (auto& r : a.r)
            for (cp c = r.first; ; ++c)
            {
                if (c <= max && !b.has(c)) return false;
                if (c == r.second) break;
            }

        return true;
    }

    struct Gen
    {
        Src& s;
        const Flags& f;
        std::vector<cp> alpha;

        P one()
        {
            if (s.chance(60)) return rx::chr(s.of(alpha));

            auto p = rx::mk(rx::Node::set);
            const std::size_t n = 1 + s.below(3);

            for (std::size_t i = 0; i < n; ++i)
            {
                rx::Item it;

                it.lo = it.hi = s.of(alpha);
                p->items.push_back(it);
            }

            return p;
        }

        P str(std::size_t max)
        {
            std::vector<P> v;
            const std::size_t n = 1 + s.below(max);

            for (std::size_t i = 0; i < n; ++i) v.push_back(one());

            return n == 1 ? v[0] : rx::seq(v);
        }

        // all members have the same length
        P fixed(int depth)
        {
            switch (depth ? s.below(3) : 0)
            {
            default: return str(3);
            case 1:
            {
                const std::size_t n = 1 + s.below(3);
                std::vector<P> a;

                for (std::size_t k = 2 + s.below(2); k; --k)
                {
                    std::vector<P> v;

                    for (std::size_t i = 0; i < n; ++i) v.push_back(one());

                    a.push_back(n == 1 ? v[0] : rx::seq(v));
                }

                return rx::alt(a);
            }
            case 2: return rx::seq({ fixed(depth - 1), fixed(depth - 1) });
            }
        }
    };

    void letters(const P& p, std::vector<P>& v)
    {
        if (p->kids.empty()) v.push_back(p);

        for (auto& k : p->kids) letters(k, v);
    }

    // start, then anything non-greedily, then one of the terminators
    void delimited(Gen& g, Rule& r, P& spelled, const P& head, pbt::Case& c)
    {
        Src& s = g.s;
        P a = head;

        if (s.chance(60)) a = rx::seq({ a, g.str(2) });
        else if (s.chance(30))
        {
            // a greedy repeat that is over before the rest starts
            P w = g.one(), sep = g.one();

            for (cp ch : g.alpha)
                if (set_of(w, g.f).has(ch) && set_of(sep, g.f).has(ch))
                    throw pbt::Discard();

            a = rx::seq({ a, rx::rep(w, 1, -1), sep });
        }

        P x;

        switch (s.below(3))
        {
        case 0: x = rx::mk(rx::Node::dot); break;
        case 1: x = rx::range_set({ { s.of(g.alpha), 0 } }, true);
            x->items[0].hi = x->items[0].lo; break;
        default:
        {
            x = rx::mk(rx::Node::set);

            for (cp ch : g.alpha)
            {
                rx::Item it;

                if (!s.chance(70)) continue;

                it.lo = it.hi = ch;
                x->items.push_back(it);
            }

            if (x->items.empty()) throw pbt::Discard();
        }
        }

        std::vector<P> alts, ls;
        const bool inside = s.chance(70);

        for (std::size_t k = inside ? 1 + s.below(3) : 1; k; --k)
            alts.push_back(g.str(3));

        P b = alts.size() == 1 ? alts[0] : rx::alt(alts);

        letters(b, ls);

        const auto xs = set_of(x, g.f);

        if (inside)
        {
            for (auto& l : ls)
                if (!subset(set_of(l, g.f), xs, g.f.max)) throw pbt::Discard();
        }
        else
        {
            for (auto& rg : set_of(ls.front(), g.f).r)
                for (cp ch = rg.first; ch <= rg.second; ++ch)
                    if (xs.has(ch)) throw pbt::Discard();
        }

        const int lo = s.chance(30) ? 1 : 0;
        P loop = rx::rep(x, lo, -1, true);

        if (s.chance(20)) loop = rx::seq({ loop });

        r.shortest = true;
        r.re = rx::seq({ a, rx::rep(x, lo, -1), b });
        spelled = rx::seq({ a, loop, b });

        // see the known finding
        if (g.f.max == 0xff && s.chance(30))
        {
            r.tail = rx::rep(g.one(), 0, -1);
            spelled = rx::seq({ a, loop, b, r.tail });
            c.label("delimited, greedy tail");
        }
        else c.label(inside ? "delimited" : "delimited, disjoint");
    }

    // What a non-greedy repeat at the end of a rule amounts to
    P lazy_end(Gen& g, P& reduced)
    {
        Src& s = g.s;
        P x = g.fixed(1);
        int lo = static_cast<int>(s.below(3)), hi = -1;

        if (s.chance(50)) hi = lo + static_cast<int>(s.below(3));
        if (hi == 0) hi = 1;

        reduced = lo == 0 ? nullptr : lo == 1 ? x : rx::rep(x, lo, lo);
        return rx::rep(x, lo, hi, true);
    }

    void trailing(Gen& g, Rule& r, P& spelled, const P& head, pbt::Case& c)
    {
        Src& s = g.s;
        P red, lz = lazy_end(g, red);
        auto cat = [](P a, P b) { return b ? rx::seq({ a, b }) : a; };

        if (s.chance(50))
        {
            P a = s.chance(50) ? rx::seq({ head, g.fixed(1) }) : head;

            spelled = rx::seq({ a, lz });
            r.re = cat(a, red);
            c.label("trailing");
            return;
        }

        // in the alternatives of a group
        std::vector<P> sp, rd;
        bool empty = false;

        for (std::size_t k = 2 + s.below(2); k; --k)
        {
            P p = g.str(2);

            switch (s.below(3))
            {
            case 0:
                sp.push_back(p);
                rd.push_back(p);
                break;
            case 1:
                lz = lazy_end(g, red);
                sp.push_back(rx::seq({ p, lz }));
                rd.push_back(cat(p, red));
                break;
            default:
                lz = lazy_end(g, red);
                sp.push_back(lz);

                if (red) rd.push_back(red);
                else empty = true;
            }
        }

        spelled = rx::seq({ head, rx::alt(sp) });

        if (rd.empty()) r.re = head;
        else
        {
            P a = rd.size() == 1 ? rd[0] : rx::alt(rd);

            r.re = rx::seq({ head, empty ? rx::rep(a, 0, 1) : a });
        }

        c.label(empty ? "trailing, in a group, empty" : "trailing, in a group");
    }

    template<typename CharT>
    void prop(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT>;
        using SM = lexertl::basic_state_machine<CharT>;
        Src& s = c.src;
        Lexer l;

        l.flags.max = sizeof(CharT) == 1 ? 0xff : 0x10ffff;
        l.flags.wide = sizeof(CharT) > 1;
        l.flags.dot_nl = s.chance(50);

        Gen g{ s, l.flags, { 'a', 'b', '*', '/', '\n' } };

        if (sizeof(CharT) > 1 && s.chance(50))
            g.alpha = { 'a', 0x161, 0x6100, 0x10061, 0xffff, 0x1f600 };

        // Rules are told apart by their first character
        std::vector<cp> heads{ '<', '(', '#', 'x', '\'' };
        const std::size_t n = 1 + s.below(3);

        if (n > 1) l.states.push_back("S");

        for (std::size_t i = 0; i < n; ++i)
        {
            Rule r;
            P sp, head = rx::chr(heads[i]);

            r.id = static_cast<int>(1 + i);

            switch (s.pick({ 55, 30, i ? 25u : 0u }))
            {
            case 0: delimited(g, r, sp, head, c); break;
            case 1: trailing(g, r, sp, head, c); break;
            default:
            {
                rx::GenOpts o;

                o.alphabet = g.alpha;
                o.posix = false;
                o.rep_max = 3;
                r.re = sp = rx::seq({ head, rx::gen(s, o, 2) });
                c.label("with a greedy rule");
            }
            }

            r.bol = s.chance(10);

            if (n > 1)
            {
                r.next = s.chance(50) ? Rule::go : Rule::same;
                r.to = static_cast<int>(s.below(2));
                r.states = { static_cast<int>(i ? s.below(2) : 0) };

                if (s.chance(30))
                {
                    r.star = true;
                    r.states = { 0, 1 };
                }
            }

            if (rx::weight(*r.re) > 20 || rx::has_empty_set(*sp, l.flags))
                throw pbt::Discard();

            Rule t = r;

            t.re = sp;
            spell(t, s, rx::Style{ true, true }, l.flags);
            r.spelling = t.spelling;
            l.rules.push_back(r);
        }

        if (n > 1)
        {
            // every state needs a rule
            Rule r;

            r.re = rx::chr('!');
            r.id = 9;
            r.star = true;
            r.states = { 0, 1 };
            r.next = Rule::go;
            r.to = 1;
            spell(r, s, rx::Style{ true, true }, l.flags);
            l.rules.push_back(r);
        }

        Rules rules(rule_flags(l.flags));
        SM sm;

        c.desc << describe(l, {});
        fill(l, rules);
        build(l, rules, sm);

        auto noise = g.alpha;

        for (std::size_t i = 0; i < n; ++i) noise.push_back(heads[i]);

        for (int i = 0; i < 8; ++i)
        {
            text in = gen_input(s, l, noise);

            c.desc << "\ninput " << pbt::show(in);

            Run want = run(l, in);
            auto str = rx::to_input<CharT>(in);

            compare(want, lex_any(sm, str, false), "lookup");

            for (auto& t : want.toks)
            {
                if (t.id <= 0 || t.id == 9) continue;

                const Rule& r = l.rules[static_cast<std::size_t>(t.id - 1)];

                // a longer match was possible
                if (!r.shortest) continue;

                rx::Bits from;

                from.set(t.first);

                auto e = rx::ends(*r.re, from, l.flags, in);

                for (std::size_t k = t.second + 1; k <= in.size(); ++k)
                    if (e[k])
                    {
                        c.nontrivial = true;
                        c.label("stopped before a longer match");
                    }
            }
        }
    }
}

template<typename CharT>
void expect(const char* re, const std::basic_string<CharT>& in,
    std::size_t len)
{
    lexertl::basic_rules<char, CharT> rules;
    lexertl::basic_state_machine<CharT> sm;

    rules.push(re, 1);
    lexertl::basic_generator<decltype(rules), decltype(sm)>::build(rules, sm);

    lexertl::match_results<typename std::basic_string<CharT>::const_iterator>
        r(in.begin(), in.end());

    lexertl::lookup(sm, r);
    pbt::check(r.id == 1 && static_cast<std::size_t>(r.second - r.first) ==
        len, std::string(re) + " matches " + std::to_string(r.second - r.first)
        + " characters of " + pbt::show(in));
}

int main(int argc, char** argv)
{
    pbt::Main m("P07", "1-3 rules with distinct first characters: delimited "
        "(start, X*? or X+?, terminators whose characters X contains or that "
        "start outside X, optional greedy tail), trailing non-greedy repeats "
        "(also inside groups), greedy rules; eight inputs; non-trivial: a "
        "delimited rule stopped before a longer match");

    m.add("char", 40000, 800000, prop<char>);
    m.add("char32", 10000, 200000, prop<char32_t>);
    m.known("wide-greedy-tail", "in a char32_t lexer <.*?b[a]* runs past the "
        "first b of \"<bzb\": the bytes of . and [a] overlap", []
        { expect<char32_t>("<.*?b[a]*", U"<bzb", 2); });
    m.known("optional-overlap", "a.??b matches all of \"abb\"", []
        { expect<char>("a.??b", "abb", 2); });
    m.known("partial-overlap", "<[abc]*?[cd] matches all of \"<cd\"", []
        { expect<char>("<[abc]*?[cd]", "<cd", 2); });
    m.assume("non-greedy operators are only specified for delimited rules "
        "and at the end of rules, and only if no other rule matches the same "
        "text");
    return m.run(argc, argv);
}
