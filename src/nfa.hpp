// nfa.hpp - position automata and subset construction over the reference
// syntax trees, for questions about whole languages.
#ifndef NFA_HPP
#define NFA_HPP

#include "model.hpp"

namespace nfa
{
    using model::Lexer;
    using rx::cp;
    using rx::Set;

    enum Kind { chr, eol, end };

    struct Pos
    {
        Kind k = chr;
        Set set;
        int rule = -1;
        std::vector<int> follow;
    };

    struct Auto
    {
        std::vector<Pos> pos;
        std::vector<int> first;     // not at the beginning of a line
        std::vector<int> first_bol; // at the beginning of a line
    };

    struct Frag
    {
        bool nullable = true;
        std::vector<int> first, last;
    };

    inline void join(std::vector<int>& a, const std::vector<int>& b)
    {
        a.insert(a.end(), b.begin(), b.end());
        std::sort(a.begin(), a.end());
        a.erase(std::unique(a.begin(), a.end()), a.end());
    }

    inline Frag leaf(Auto& a, Kind k, const Set& set, int rule)
    {
        Pos p;

        p.k = k;
        p.set = set;
        p.rule = rule;
        a.pos.push_back(p);

        Frag f;

        f.nullable = false;
        f.first = f.last = { static_cast<int>(a.pos.size()) - 1 };
        return f;
    }

    inline Frag cat(Auto& a, Frag l, const Frag& r)
    {
        for (int p : l.last) join(a.pos[static_cast<std::size_t>(p)].follow,
            r.first);

        if (l.nullable) join(l.first, r.first);

        if (r.nullable) join(l.last, r.last);
        else l.last = r.last;

        l.nullable = l.nullable && r.nullable;
        return l;
    }

    inline Frag build(Auto& a, const rx::Node& n, const rx::Flags& f, int rule)
    {
        using rx::Node;

        Frag out;

        switch (n.k)
        {
        case Node::str:
            for (cp c : n.s)
            {
                Set s(c, c);

                if (f.icase) s = rx::fold(s, f);

                out = cat(a, out, leaf(a, chr, s, rule));
            }

            return out;
        case Node::seq:
            for (auto& k : n.kids) out = cat(a, out, build(a, *k, f, rule));

            return out;
        case Node::alt:
            out.nullable = false;

            for (auto& k : n.kids)
            {
                Frag x = build(a, *k, f, rule);

                out.nullable = out.nullable || x.nullable;
                join(out.first, x.first);
                join(out.last, x.last);
            }

            return out;
        case Node::rep:
        {
            for (int i = 0; i < n.lo; ++i)
            {
                Frag x = build(a, *n.kids[0], f, rule);

                if (n.hi < 0 && i + 1 == n.lo)
                {
                    for (int p : x.last)
                        join(a.pos[static_cast<std::size_t>(p)].follow,
                            x.first);
                }

                out = cat(a, out, x);
            }

            if (n.hi < 0 && n.lo == 0)
            {
                out = build(a, *n.kids[0], f, rule);

                for (int p : out.last)
                    join(a.pos[static_cast<std::size_t>(p)].follow, out.first);

                out.nullable = true;
            }

            for (int i = n.lo; i < n.hi; ++i)
            {
                Frag x = build(a, *n.kids[0], f, rule);

                x.nullable = true;
                out = cat(a, out, x);
            }

            return out;
        }
        case Node::group:
            return build(a, *n.kids[0], rx::apply(n, f), rule);
        case Node::macro:
            if (!rx::is_atom_set(n)) return build(a, *n.kids[0],
                rx::macro_flags(n, f), rule);
            [[fallthrough]];
        default:
            return leaf(a, chr, rx::eval(n, f), rule);
        }
    }

    // All rules of one lexer state
    inline Auto make(const Lexer& l, int state)
    {
        Auto a;

        for (std::size_t i = 0; i < l.rules.size(); ++i)
        {
            auto& r = l.rules[i];

            if (std::find(r.states.begin(), r.states.end(), state) ==
                r.states.end()) continue;

            for (auto& p : r.pieces())
            {
                Frag f = build(a, *p.re, l.flags, static_cast<int>(i));

                if (p.eol) f = cat(a, f, leaf(a, eol, Set(),
                    static_cast<int>(i)));

                f = cat(a, f, leaf(a, end, Set(), static_cast<int>(i)));

                if (!p.bol) join(a.first, f.first);

                join(a.first_bol, f.first);
            }
        }

        return a;
    }

    struct Dfa
    {
        std::vector<std::vector<int>> states; // sets of positions
        std::vector<std::map<std::size_t, int>> next; // by class
        std::vector<cp> reps;                 // one character per class
        int start = -1, start_bol = -1;
        bool complete = true;
    };

    inline Dfa determinise(const Auto& a, std::size_t limit)
    {
        Dfa d;
        std::set<cp> cuts{ 0, '\n', '\n' + 1, '\r', '\r' + 1 };

        for (auto& p : a.pos)
            for (auto& r : p.set.r)
            {
                cuts.insert(r.first);
                cuts.insert(r.second + 1);
            }

        // classes: group intervals by which positions contain them
        std::map<std::vector<int>, std::size_t> sig;

        for (cp c : cuts)
        {
            std::vector<int> v;

            for (std::size_t i = 0; i < a.pos.size(); ++i)
                if (a.pos[i].k == chr && a.pos[i].set.has(c))
                    v.push_back(static_cast<int>(i));

            // newlines are always classes of their own
            if (c == '\n') v.push_back(-1);
            if (c == '\r') v.push_back(-2);

            if (sig.emplace(v, d.reps.size()).second) d.reps.push_back(c);
        }

        std::map<std::vector<int>, int> seen;
        auto get = [&](const std::vector<int>& v)
        {
            auto r = seen.emplace(v, static_cast<int>(d.states.size()));

            if (r.second)
            {
                d.states.push_back(v);
                d.next.emplace_back();
            }

            return r.first->second;
        };

        d.start = get(a.first);
        d.start_bol = get(a.first_bol);

        for (std::size_t i = 0; i < d.states.size(); ++i)
        {
            if (d.states.size() > limit)
            {
                d.complete = false;
                return d;
            }

            for (std::size_t c = 0; c < d.reps.size(); ++c)
            {
                std::vector<int> to;

                for (int p : d.states[i])
                {
                    auto& q = a.pos[static_cast<std::size_t>(p)];

                    if (q.k == chr && q.set.has(d.reps[c])) join(to, q.follow);
                }

                if (!to.empty()) d.next[i][c] = get(to);
            }
        }

        return d;
    }

    inline bool leads_to_end(const Auto& a, const Pos& p)
    {
        for (int q : p.follow)
            if (a.pos[static_cast<std::size_t>(q)].k == end) return true;

        return false;
    }

    // Is there a point at which both a $ and a newline that completes a token
    // could follow?  Such rules are in conflict by design.
    inline bool newline_clash(const Auto& a, const Dfa& d)
    {
        for (auto& s : d.states)
        {
            bool e = false, nl = false;

            for (int i : s)
            {
                auto& p = a.pos[static_cast<std::size_t>(i)];

                if (p.k == eol) e = true;

                if (p.k == chr && p.set.has('\n') && leads_to_end(a, p))
                    nl = true;

                if (p.k == chr && p.set.has('\r'))
                    for (int j : p.follow)
                    {
                        auto& q = a.pos[static_cast<std::size_t>(j)];

                        if (q.k == chr && q.set.has('\n') &&
                            leads_to_end(a, q)) nl = true;
                    }
            }

            if (e && nl) return true;
        }

        return false;
    }

    inline bool newline_clash(const Lexer& l, std::size_t limit)
    {
        for (std::size_t i = 0; i < l.states.size(); ++i)
        {
            Auto a = make(l, static_cast<int>(i));
            Dfa d = determinise(a, limit);

            if (!d.complete || newline_clash(a, d)) return true;
        }

        return false;
    }
}

#endif
