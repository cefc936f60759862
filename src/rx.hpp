// rx.hpp - an independent model of the documented regex language: an abstract
// syntax, a generator, a printer with many spellings of the same expression,
// and a matcher that works directly on the abstract syntax.
#ifndef RX_HPP
#define RX_HPP

#include "pbt.hpp"

#include <bitset>
#include <memory>

namespace rx
{
    using cp = uint32_t;
    using text = std::vector<cp>;
    using pbt::Src;

    // A set of code points: sorted, disjoint, non adjacent closed ranges
    struct Set
    {
        std::vector<std::pair<cp, cp>> r;

        Set() = default;

        Set(cp a, cp b)
        {
            add(a, b);
        }

        void add(cp a, cp b)
        {
            std::vector<std::pair<cp, cp>> out;

            r.emplace_back(a, b);
            std::sort(r.begin(), r.end());

            for (auto& p : r)
            {
                if (!out.empty() && (p.first <= out.back().second ||
                    p.first == out.back().second + 1))
                    out.back().second = std::max(out.back().second, p.second);
                else
                    out.push_back(p);
            }

            r.swap(out);
        }

        void add(const Set& o)
        {
            // bulk version: o may be large
            std::vector<std::pair<cp, cp>> out;

            r.insert(r.end(), o.r.begin(), o.r.end());
            std::sort(r.begin(), r.end());

            for (auto& p : r)
            {
                if (!out.empty() && (p.first <= out.back().second ||
                    p.first == out.back().second + 1))
                    out.back().second = std::max(out.back().second, p.second);
                else
                    out.push_back(p);
            }

            r.swap(out);
        }

        bool has(cp c) const
        {
            auto it = std::upper_bound(r.begin(), r.end(), c,
                [](cp v, const std::pair<cp, cp>& p)
                {
                    return v < p.first;
                });

            return it != r.begin() && c <= (it - 1)->second;
        }

        Set complement(cp max) const
        {
            Set out;
            uint64_t at = 0;

            for (auto& p : r)
            {
                if (p.first > at)
                    out.r.emplace_back(static_cast<cp>(at), p.first - 1);

                at = static_cast<uint64_t>(p.second) + 1;
            }

            if (at <= max) out.r.emplace_back(static_cast<cp>(at), max);

            return out;
        }

        Set intersect(const Set& o) const
        {
            Set out;
            std::size_t i = 0, j = 0;

            while (i < r.size() && j < o.r.size())
            {
                cp a = std::max(r[i].first, o.r[j].first);
                cp b = std::min(r[i].second, o.r[j].second);

                if (a <= b) out.r.emplace_back(a, b);

                if (r[i].second < o.r[j].second) ++i; else ++j;
            }

            return out;
        }

        Set minus(const Set& o, cp max) const
        {
            return intersect(o.complement(max));
        }

        bool empty() const
        {
            return r.empty();
        }

        bool operator==(const Set& o) const
        {
            return r == o.r;
        }

        // some member; boundaries are favoured
        cp sample(Src& s) const
        {
            auto& p = r[s.below(r.size())];

            switch (s.below(3))
            {
            case 0: return p.first;
            case 1: return p.second;
            default:
                return p.first + static_cast<cp>(s.below(std::min<uint64_t>
                    (static_cast<uint64_t>(p.second) - p.first + 1, 1u << 20)));
            }
        }
    };

    struct Flags
    {
        bool icase = false;
        bool dot_nl = true;    // dot excludes \n
        bool dot_crlf = false; // dot excludes \r and \n
        bool ws = false;       // skip white space in the regex
        cp max = 0xff;
        bool wide = false;
    };

#include "ucd.inc"

    inline Set ascii_fold(const Set& s)
    {
        Set out = s;

        for (cp c = 'a'; c <= 'z'; ++c)
        {
            if (s.has(c)) out.add(c - 32, c - 32);
            if (s.has(c - 32)) out.add(c, c);
        }

        return out;
    }

    // s plus the other case of each member: ASCII letters for 8 bit lexers,
    // the simple case mappings of Ll and Lu characters otherwise
    inline Set fold(const Set& s, const Flags& f)
    {
        if (!f.wide) return ascii_fold(s);

        Set more;
        constexpr std::size_t n = sizeof(fold_table) / sizeof(fold_table[0]);
        static const std::vector<std::pair<cp, cp>> table = []
        {
            std::vector<std::pair<cp, cp>> v;

            for (auto& e : fold_table) v.emplace_back(e[0], e[1]);

            std::sort(v.begin(), v.end());
            return v;
        }();

        (void)n;

        for (auto& r : s.r)
        {
            auto i = std::lower_bound(table.begin(), table.end(),
                std::make_pair(r.first, cp(0)));

            for (; i != table.end() && i->first <= r.second; ++i)
                more.r.emplace_back(i->second, i->second);
        }

        if (more.r.empty()) return s;

        Set out = s;

        out.add(more);
        return out;
    }

    // Unicode categories, scripts and blocks by the name used in \p{}
    inline const Set& ucd(const std::string& name)
    {
        static std::map<std::string, Set> cache;
        auto it = cache.find(name);

        if (it != cache.end()) return it->second;

        Set out;

        for (auto& e : prop_table)
        {
            const std::string n = e.name;
            const bool group = e.kind == 0 && ((name.size() == 1 &&
                n[0] == name[0]) || (name == "LC" && (n == "Ll" || n == "Lt" ||
                    n == "Lu")));

            if (n != name && !group) continue;

            Set part;

            for (unsigned i = 0; i < e.n; ++i)
                part.r.emplace_back(range_table[e.at + i][0],
                    range_table[e.at + i][1]);

            out.add(part);
        }

        return cache[name] = out;
    }

    inline const std::vector<std::string>& ucd_names()
    {
        static const std::vector<std::string> v = []
        {
            std::vector<std::string> n{ "C", "L", "LC", "M", "N", "P", "S",
                "Z" };

            for (auto& e : prop_table) n.push_back(e.name);

            return n;
        }();

        return v;
    }

    struct Item
    {
        enum Kind { range, shortcut, posix, prop } k = range;
        cp lo = 0, hi = 0;
        char sc = 'd';       // shortcut letter
        std::string name;    // posix class
        bool neg = false;    // [:^name:]
    };

    // The POSIX classes of lexers for 16 and 32 bit characters
    inline Set wide_posix_set(const std::string& n, cp max)
    {
        Set s;

        if (n == "alnum") { s = ucd("Ll"); s.add(ucd("Lu")); s.add(ucd("Nd")); }
        else if (n == "alpha") { s = ucd("Ll"); s.add(ucd("Lu")); }
        else if (n == "blank") { s = ucd("Zs"); s.add('\t', '\t'); }
        else if (n == "cntrl") s = ucd("Cc");
        else if (n == "digit") s = ucd("Nd");
        else if (n == "graph")
        {
            s = ucd("Z");
            s.add(ucd("C"));
            s = s.complement(max);
        }
        else if (n == "lower") s = ucd("Ll");
        else if (n == "print") s = ucd("C").complement(max);
        else if (n == "punct") { s = ucd("P"); s.add(ucd("S")); }
        else if (n == "space") { s = ucd("Z"); s.add(9, 13); }
        else if (n == "upper") s = ucd("Lu");
        else if (n == "xdigit")
        {
            s.add('0', '9'); s.add('A', 'F'); s.add('a', 'f');
        }

        return s;
    }

    // The single byte POSIX classes in the C locale
    inline Set posix_set(const std::string& n)
    {
        Set s;

        if (n == "alnum") { s.add('0', '9'); s.add('A', 'Z'); s.add('a', 'z'); }
        else if (n == "alpha") { s.add('A', 'Z'); s.add('a', 'z'); }
        else if (n == "blank") { s.add(' ', ' '); s.add('\t', '\t'); }
        else if (n == "cntrl") { s.add(0, 31); s.add(127, 127); }
        else if (n == "digit") s.add('0', '9');
        else if (n == "graph") s.add(0x21, 0x7e);
        else if (n == "lower") s.add('a', 'z');
        else if (n == "print") s.add(0x20, 0x7e);
        else if (n == "punct")
        {
            s.add(0x21, 0x2f); s.add(0x3a, 0x40); s.add(0x5b, 0x60);
            s.add(0x7b, 0x7e);
        }
        else if (n == "space") { s.add(9, 13); s.add(' ', ' '); }
        else if (n == "upper") s.add('A', 'Z');
        else if (n == "xdigit")
        {
            s.add('0', '9'); s.add('A', 'F'); s.add('a', 'f');
        }

        return s;
    }

    inline Set shortcut_set(char c, const Flags& f)
    {
        Set s;

        switch (c)
        {
        case 'd': case 'D': s.add('0', '9'); break;
        case 's': case 'S': s.add(9, 13); s.add(' ', ' '); break;
        default:
            s.add('0', '9'); s.add('A', 'Z'); s.add('a', 'z');
            s.add('_', '_');
        }

        if (c == 'D' || c == 'S' || c == 'W') s = s.complement(f.max);

        return s;
    }

    struct Node;
    using P = std::shared_ptr<Node>;

    struct Node
    {
        enum Kind { chr, str, set, dot, seq, alt, rep, group, macro, arith } k;
        cp c = 0;
        text s;
        std::vector<Item> items;
        bool neg = false;
        std::vector<P> kids;
        int lo = 0, hi = -1;
        bool lazy = false;
        int oi = 0, os = 0, ox = 0; // group options: -1 off, 0 as is, 1 on
        std::string name;           // macro
        std::shared_ptr<Flags> mf;  // macro: flags it was defined under
        std::string ops;            // arith: one of -/+ per kid after first

        explicit Node(Kind kk) : k(kk)
        {
        }
    };

    inline P mk(Node::Kind k)
    {
        return std::make_shared<Node>(k);
    }

    inline P chr(cp c)
    {
        P p = mk(Node::chr);

        p->c = c;
        return p;
    }

    inline P seq(std::vector<P> v)
    {
        P p = mk(Node::seq);

        p->kids = std::move(v);
        return p;
    }

    inline P alt(std::vector<P> v)
    {
        P p = mk(Node::alt);

        p->kids = std::move(v);
        return p;
    }

    inline P rep(P kid, int lo, int hi, bool lazy = false)
    {
        P p = mk(Node::rep);

        p->kids.push_back(std::move(kid));
        p->lo = lo;
        p->hi = hi;
        p->lazy = lazy;
        return p;
    }

    inline P range_set(std::vector<std::pair<cp, cp>> v, bool neg = false)
    {
        P p = mk(Node::set);

        for (auto& i : v)
        {
            Item it;

            it.lo = i.first;
            it.hi = i.second;
            p->items.push_back(it);
        }

        p->neg = neg;
        return p;
    }

    inline Flags apply(const Node& g, Flags f)
    {
        if (g.oi) f.icase = g.oi > 0;
        if (g.os) f.dot_nl = g.os < 0;
        if (g.ox) f.ws = g.ox > 0;

        return f;
    }

    // A macro keeps the flags it was defined under
    inline const Flags& macro_flags(const Node& n, const Flags& f)
    {
        return n.k == Node::macro && n.mf ? *n.mf : f;
    }

    inline Set eval(const Node& n, const Flags& f)
    {
        Set s;

        switch (n.k)
        {
        case Node::chr:
            s.add(n.c, n.c);
            return f.icase ? fold(s, f) : s;
        case Node::dot:
            if (f.dot_nl) s.add('\n', '\n');
            else if (f.dot_crlf)
            {
                s.add('\n', '\n');
                s.add('\r', '\r');
            }

            return s.complement(f.max);
        case Node::set:
        {
            for (auto& i : n.items)
            {
                if (i.k == Item::range)
                {
                    Set r(i.lo, i.hi);

                    s.add(f.icase ? fold(r, f) : r);
                }
                else if (i.k == Item::shortcut)
                {
                    s.add(shortcut_set(i.sc, f));
                }
                else
                {
                    // Wide graph and print are complements, so that the
                    // other cases are added before complementing.
                    const bool comp = f.wide && i.k == Item::posix &&
                        (i.name == "graph" || i.name == "print");
                    Set p = i.k == Item::prop ? ucd(i.name) : f.wide ?
                        wide_posix_set(i.name, f.max) : posix_set(i.name);

                    if (comp && f.icase)
                        p = fold(p.complement(f.max), f).complement(f.max);
                    else if (f.icase) p = fold(p, f);

                    s.add(i.neg ? p.complement(f.max) : p);
                }
            }

            return n.neg ? s.complement(f.max) : s;
        }
        case Node::macro:
            return eval(*n.kids[0], macro_flags(n, f));
        case Node::arith:
        {
            s = eval(*n.kids[0], f);

            for (std::size_t i = 1; i < n.kids.size(); ++i)
            {
                Set t = eval(*n.kids[i], f);

                if (n.ops[i - 1] == '-') s = s.minus(t, f.max);
                else s.add(t);
            }

            return s;
        }
        default:
            return s;
        }
    }

    inline bool is_atom_set(const Node& n)
    {
        return n.k == Node::chr || n.k == Node::dot || n.k == Node::set ||
            n.k == Node::arith || (n.k == Node::macro &&
                is_atom_set(*n.kids[0]));
    }

    inline bool nullable(const Node& n)
    {
        switch (n.k)
        {
        case Node::str: return n.s.empty();
        case Node::seq:
            for (auto& k : n.kids) if (!nullable(*k)) return false;
            return true;
        case Node::alt:
            for (auto& k : n.kids) if (nullable(*k)) return true;
            return false;
        case Node::rep: return n.lo == 0 || nullable(*n.kids[0]);
        case Node::group: case Node::macro: return nullable(*n.kids[0]);
        default: return false;
        }
    }

    // Size after the repeats have been unrolled
    inline std::size_t weight(const Node& n)
    {
        std::size_t w = 0;

        switch (n.k)
        {
        case Node::chr: case Node::set: case Node::dot: case Node::arith:
            return 1;
        case Node::str:
            return n.s.size();
        case Node::rep:
            w = weight(*n.kids[0]);
            return w * static_cast<std::size_t>(std::max(1, n.hi < 0 ?
                std::max(1, n.lo) : n.hi));
        default:
            for (auto& k : n.kids) w += weight(*k);

            return w;
        }
    }

    // Does any charset of the expression evaluate to the empty set?
    inline bool has_empty_set(const Node& n, const Flags& f)
    {
        if (n.k == Node::group) return has_empty_set(*n.kids[0], apply(n, f));

        if (n.k == Node::arith)
        {
            Set s = eval(*n.kids[0], f);

            for (std::size_t i = 1; i < n.kids.size(); ++i)
            {
                if (eval(*n.kids[i], f).empty()) return true;

                Node sub(Node::arith);

                sub.kids.assign(n.kids.begin(), n.kids.begin() +
                    static_cast<long>(i) + 1);
                sub.ops = n.ops.substr(0, i);

                if (eval(sub, f).empty()) return true;
            }

            return s.empty();
        }

        if (is_atom_set(n)) return eval(n, f).empty();

        for (auto& k : n.kids)
            if (has_empty_set(*k, macro_flags(n, f))) return true;

        return false;
    }

    constexpr std::size_t max_input = 255;
    using Bits = std::bitset<max_input + 1>;

    // All positions at which a match of n that starts in `from` can end
    inline Bits ends(const Node& n, const Bits& from, const Flags& f,
        const text& in)
    {
        Bits out;

        if (from.none()) return out;

        switch (n.k)
        {
        case Node::str:
        {
            out = from;

            for (cp c : n.s)
            {
                Set s(c, c);

                if (f.icase) s = fold(s, f);

                Bits next;

                for (std::size_t i = 0; i < in.size(); ++i)
                    if (out[i] && s.has(in[i])) next.set(i + 1);

                out = next;
            }

            return out;
        }
        case Node::seq:
            out = from;

            for (auto& k : n.kids) out = ends(*k, out, f, in);

            return out;
        case Node::alt:
            for (auto& k : n.kids) out |= ends(*k, from, f, in);

            return out;
        case Node::rep:
        {
            Bits cur = from;

            for (int i = 0; i < n.lo; ++i) cur = ends(*n.kids[0], cur, f, in);

            out = cur;

            if (n.hi < 0)
            {
                for (;;)
                {
                    Bits next = out | ends(*n.kids[0], out, f, in);

                    if (next == out) break;

                    out = next;
                }
            }
            else
            {
                for (int i = n.lo; i < n.hi; ++i)
                {
                    cur = ends(*n.kids[0], cur, f, in);
                    out |= cur;
                }
            }

            return out;
        }
        case Node::group:
            return ends(*n.kids[0], from, apply(n, f), in);
        case Node::macro:
            if (!is_atom_set(n)) return ends(*n.kids[0], from,
                macro_flags(n, f), in);
            [[fallthrough]];
        default:
        {
            Set s = eval(n, f);

            for (std::size_t i = 0; i < in.size(); ++i)
                if (from[i] && s.has(in[i])) out.set(i + 1);

            return out;
        }
        }
    }

    // A random member of the language (not necessarily short)
    inline void sample(const Node& n, const Flags& f, Src& s, text& out,
        std::size_t limit)
    {
        switch (n.k)
        {
        case Node::str:
            for (cp c : n.s)
            {
                Set st(c, c);

                if (f.icase) st = fold(st, f);

                out.push_back(st.sample(s));
            }

            break;
        case Node::seq:
            for (auto& k : n.kids) sample(*k, f, s, out, limit);
            break;
        case Node::alt:
            sample(*n.kids[s.below(n.kids.size())], f, s, out, limit);
            break;
        case Node::rep:
        {
            int hi = n.hi < 0 ? n.lo + 3 : std::min(n.hi, n.lo + 3);
            int cnt = static_cast<int>(s.range(n.lo, hi));

            for (int i = 0; i < cnt; ++i)
            {
                if (out.size() > limit && i >= n.lo) break;

                sample(*n.kids[0], f, s, out, limit);
            }

            break;
        }
        case Node::group:
            sample(*n.kids[0], apply(n, f), s, out, limit);
            break;
        case Node::macro:
            if (!is_atom_set(n))
            {
                sample(*n.kids[0], macro_flags(n, f), s, out, limit);
                break;
            }
            [[fallthrough]];
        default:
        {
            Set st = eval(n, f);

            if (!st.empty()) out.push_back(st.sample(s));

            break;
        }
        }
    }

    // ------------------------------------------------------------------
    // Generation

    struct GenOpts
    {
        std::vector<cp> alphabet;
        bool lazy = false;
        bool options = true;     // (?isx:...)
        bool opt_i = true, opt_s = true, opt_x = true;
        bool classes = true;     // \d, [[:alpha:]] ...
        bool posix = true;
        bool props = false;      // \p{..}
        bool quotes = true;
        bool arith = false;
        unsigned rep_max = 4;
        std::vector<std::pair<std::string, P>> macros;
        std::shared_ptr<Flags> mf;   // flags of the macros
    };

    inline Item gen_item(Src& s, const GenOpts& o)
    {
        static const std::vector<std::string> names = { "alnum", "alpha",
            "blank", "cntrl", "digit", "graph", "lower", "print", "punct",
            "space", "upper", "xdigit" };
        Item i;

        switch (s.pick({ 50, 30, o.classes ? 10u : 0u,
            o.classes && o.posix ? 10u : 0u, o.props ? 20u : 0u }))
        {
        case 0:
            i.lo = i.hi = s.of(o.alphabet);
            break;
        case 1:
            i.lo = s.of(o.alphabet);
            i.hi = s.of(o.alphabet);

            if (i.hi < i.lo) std::swap(i.lo, i.hi);

            break;
        case 2:
            i.k = Item::shortcut;
            i.sc = "dDsSwW"[s.below(6)];
            break;
        case 4:
            i.k = Item::prop;
            i.name = s.of(ucd_names());
            break;
        default:
            i.k = Item::posix;
            i.name = s.of(names);
            i.neg = s.chance(30);
        }

        return i;
    }

    inline P gen_set(Src& s, const GenOpts& o)
    {
        P p = mk(Node::set);
        std::size_t n = 1 + s.below(4);

        for (std::size_t i = 0; i < n; ++i) p->items.push_back(gen_item(s, o));

        p->neg = s.chance(20);
        return p;
    }

    inline P gen(Src& s, const GenOpts& o, int depth)
    {
        const unsigned inner = depth > 0 ? 1 : 0;

        switch (s.pick({ 30, 15, 5, o.quotes ? 5u : 0u, 25 * inner,
            15 * inner, 25 * inner, o.options ? 6 * inner : 0u,
            o.macros.empty() ? 0u : 20u, o.arith ? 15u : 0u }))
        {
        default:
        case 0:
            return chr(s.of(o.alphabet));
        case 1:
            return gen_set(s, o);
        case 2:
            return mk(Node::dot);
        case 3:
        {
            P p = mk(Node::str);
            std::size_t n = 1 + s.below(4);

            for (std::size_t i = 0; i < n; ++i)
                p->s.push_back(s.of(o.alphabet));

            return p;
        }
        case 4:
        {
            P p = mk(Node::seq);
            std::size_t n = 2 + s.below(3);

            for (std::size_t i = 0; i < n; ++i)
                p->kids.push_back(gen(s, o, depth - 1));

            return p;
        }
        case 5:
        {
            P p = mk(Node::alt);
            std::size_t n = 2 + s.below(3);

            for (std::size_t i = 0; i < n; ++i)
                p->kids.push_back(gen(s, o, depth - 1));

            return p;
        }
        case 6:
        {
            P p = mk(Node::rep);

            p->kids.push_back(gen(s, o, depth - 1));

            switch (s.below(4))
            {
            case 0: p->lo = 0; p->hi = 1; break;
            case 1: p->lo = 0; p->hi = -1; break;
            case 2: p->lo = 1; p->hi = -1; break;
            default:
                p->lo = static_cast<int>(s.below(o.rep_max + 1));

                switch (s.below(3))
                {
                case 0: p->hi = p->lo = std::max(1, p->lo); break;
                case 1: p->hi = -1; break;
                default:
                    p->hi = std::max(1, p->lo + static_cast<int>
                        (s.below(o.rep_max)));
                }
            }

            p->lazy = o.lazy && s.chance(30);
            return p;
        }
        case 7:
        {
            P p = mk(Node::group);

            if (o.opt_i) p->oi = static_cast<int>(s.below(3)) - 1;
            if (o.opt_s) p->os = static_cast<int>(s.below(3)) - 1;
            if (o.opt_x) p->ox = static_cast<int>(s.below(3)) - 1;

            p->kids.push_back(gen(s, o, depth - 1));
            return p;
        }
        case 8:
        {
            auto& m = o.macros[s.below(o.macros.size())];
            P p = mk(Node::macro);

            p->name = m.first;
            p->mf = o.mf;
            p->kids.push_back(m.second);
            return p;
        }
        case 9:
        {
            P p = mk(Node::arith);
            std::size_t n = 2 + s.below(2);

            for (std::size_t i = 0; i < n; ++i)
            {
                std::vector<const std::pair<std::string, P>*> sets;

                for (auto& m : o.macros)
                    if (is_atom_set(*m.second)) sets.push_back(&m);

                switch (s.pick({ 30, 30, 20, sets.empty() ? 0u : 40u }))
                {
                case 0: p->kids.push_back(chr(s.of(o.alphabet))); break;
                case 1: p->kids.push_back(gen_set(s, o)); break;
                case 2: p->kids.push_back(mk(Node::dot)); break;
                default:
                {
                    auto m = sets[s.below(sets.size())];
                    P k = mk(Node::macro);

                    k->name = m->first;
                    k->mf = o.mf;
                    k->kids.push_back(m->second);
                    p->kids.push_back(k);
                }
                }

                if (i) p->ops += s.chance(60) ? '-' : '+';
            }

            return p;
        }
        }
    }

    // ------------------------------------------------------------------
    // Printing

    using u32 = std::u32string;

    inline void app(u32& o, const char* s)
    {
        while (*s) o += static_cast<char32_t>(*s++);
    }

    inline void hex(u32& o, cp c, Src& s, bool plain)
    {
        char buf[32];

        snprintf(buf, sizeof(buf), plain || !s.chance(50) ? "%x" : "%X", c);

        if (!plain && s.chance(30)) app(o, "0");
        app(o, buf);
    }

    struct Style
    {
        bool plain = false;  // always the simplest spelling
        bool raw_ctl = true; // raw control characters and bytes >= 0x80
    };

    // c inside a [...] charset
    inline void print_set_char(u32& o, cp c, Src& s, const Style& st,
        bool& prev_hex, bool first, cp max)
    {
        const bool special = c == '\\' || c == ']' || c == '[' || c == '-' ||
            (c == '^' && first);
        const bool hexdig = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') ||
            (c >= 'A' && c <= 'F');
        const bool ctl = c < 32 || c == 127 || c >= 128;
        const bool ph = prev_hex;

        (void)max;
        prev_hex = false;

        switch (st.plain ? 0 : s.pick({ 60, 15, 15, 10 }))
        {
        default:
        case 0:
            if (!(ctl && !st.raw_ctl) && !special && !(ph && hexdig))
            {
                o += static_cast<char32_t>(c);
                return;
            }
            break;
        case 1:
            if (c < 0x80 && !hexdig && !(c >= 'a' && c <= 'z') &&
                !(c >= 'A' && c <= 'Z') && !ctl)
            {
                o += U'\\';
                o += static_cast<char32_t>(c);
                return;
            }
            break;
        case 2:
            if (c <= 0xff)
            {
                char buf[16];

                snprintf(buf, sizeof(buf), "\\%03o", c);
                app(o, buf);
                return;
            }
            break;
        case 3:
            break;
        }

        if (special && !st.raw_ctl)
        {
            o += U'\\';
            o += static_cast<char32_t>(c);
            return;
        }

        if (special && s.chance(50))
        {
            o += U'\\';
            o += static_cast<char32_t>(c);
            return;
        }

        app(o, "\\x");
        hex(o, c, s, st.plain);
        prev_hex = true;
    }

    inline void print_set(u32& o, const Node& n, Src& s, const Style& st,
        cp max)
    {
        bool prev_hex = false;
        bool first = true;
        bool trailing_dash = false;

        o += U'[';

        if (n.neg)
            o += U'^';

        for (std::size_t k = 0; k < n.items.size(); ++k)
        {
            auto& i = n.items[k];

            switch (i.k)
            {
            case Item::range:
                if (i.lo == i.hi && (st.plain || !s.chance(10)))
                {
                    if (i.lo == '-' && !st.plain && s.chance(30))
                    {
                        // a dash may stand last, unescaped
                        trailing_dash = true;
                        continue;
                    }

                    if (i.lo == ']' && first && !st.plain && s.chance(50))
                        o += U']'; // so may a bracket that comes first
                    else
                        print_set_char(o, i.lo, s, st, prev_hex, first, max);
                }
                else
                {
                    print_set_char(o, i.lo, s, st, prev_hex, first, max);
                    o += U'-';
                    prev_hex = false;
                    print_set_char(o, i.hi, s, st, prev_hex, false, max);
                }
                break;
            case Item::shortcut:
                o += U'\\';
                o += static_cast<char32_t>(i.sc);
                prev_hex = false;
                break;
            case Item::prop:
                app(o, "\\p{");
                app(o, i.name.c_str());
                app(o, "}");
                prev_hex = false;
                break;
            default:
                app(o, i.neg ? "[:^" : "[:");
                app(o, i.name.c_str());
                app(o, ":]");
                prev_hex = false;
            }

            first = false;
        }

        if (trailing_dash) o += U'-';

        o += U']';
    }

    inline bool is_special(cp c, bool ws)
    {
        if (c < 0x80 && c && strchr("\"\\.^$|()[]{}*+?/", static_cast<int>(c)))
            return true;

        return ws && (c == ' ' || (c >= 9 && c <= 13));
    }

    inline void print_char(u32& o, cp c, Src& s, const Style& st,
        const Flags& f)
    {
        const bool ctl = c < 32 || c == 127 || c >= 128;

        switch (st.plain ? 0 : s.pick({ 60, 10, 10, 10, 10, 10 }))
        {
        default:
        case 0:
            if (is_special(c, f.ws))
            {
                if ((c == ']' || c == '}') && !st.plain && s.chance(30))
                {
                    o += static_cast<char32_t>(c);
                    return;
                }

                // \ followed by raw white space is that white space
                o += U'\\';
                o += static_cast<char32_t>(c);
                return;
            }

            if (!(ctl && !st.raw_ctl))
            {
                o += static_cast<char32_t>(c);
                return;
            }
            break;
        case 1:
        {
            bool ph = false;

            o += U'[';
            print_set_char(o, c, s, st, ph, true, f.max);
            o += U']';
            return;
        }
        case 2:
            if (c != '"' && c != '\\' && !(ctl && !st.raw_ctl))
            {
                o += U'"';
                o += static_cast<char32_t>(c);
                o += U'"';
                return;
            }
            break;
        case 3:
            if (c <= 0xff)
            {
                char buf[16];

                snprintf(buf, sizeof(buf), "\\%03o", c);
                app(o, buf);
                return;
            }
            break;
        case 4:
        {
            static const char named[] = "\a\b\x1b\f\n\r\t\v";
            static const char letter[] = "abefnrtv";

            if (c && c < 128)
            {
                if (const char* p = strchr(named, static_cast<int>(c)))
                {
                    o += U'\\';
                    o += static_cast<char32_t>(letter[p - named]);
                    return;
                }
            }

            if (c <= 26)
            {
                app(o, "\\c");
                o += static_cast<char32_t>((c == 0 ? '@' : (s.chance(50) ?
                    'a' : 'A') + static_cast<int>(c) - 1));
                return;
            }

            // an escaped character that has no special meaning
            if (c < 0x80 && !ctl && (strchr("ghijklmoqyzEFGHIJKLMNOPQRTUVXYZ",
                static_cast<int>(c)) || !((c >= '0' && c <= '9') ||
                    (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))))
            {
                o += U'\\';
                o += static_cast<char32_t>(c);
                return;
            }
            break;
        }
        case 5:
            break;
        }

        app(o, "[\\x");
        hex(o, c, s, st.plain);
        o += U']';
    }

    inline void noise(u32& o, Src& s, const Style& st, const Flags& f)
    {
        if (st.plain) return;

        if (f.ws && s.chance(25))
        {
            switch (s.below(3))
            {
            case 0: o += U' '; break;
            case 1: app(o, "\n\t "); break;
            default: app(o, "/* a*b (c) \" ' */");
            }
        }

        if (s.chance(4))
            app(o, s.chance(50) ? "(?# note (nested) [x] *)" : "(?#)");
    }

    // prec: 0 alternation, 1 sequence, 2 operand of a repeat
    inline void print(u32& o, const Node& n, Src& s, const Style& st,
        const Flags& f, int prec)
    {
        const bool group_extra = !st.plain && s.chance(6);
        const bool need = group_extra ||
            (n.k == Node::alt && prec > 0) ||
            (n.k == Node::seq && prec > 1) ||
            (n.k == Node::rep && prec > 1) ||
            (n.k == Node::str && prec > 1) ||
            (n.k == Node::arith && prec > 1);

        noise(o, s, st, f);

        if (need)
        {
            o += U'(';

            if (!st.plain && s.chance(15)) app(o, "?:");
        }

        switch (n.k)
        {
        case Node::chr:
            print_char(o, n.c, s, st, f);
            break;
        case Node::str:
            o += U'"';

            for (cp c : n.s)
            {
                const bool ctl = c < 32 || c == 127 || c >= 128;

                if (ctl && !st.raw_ctl)
                {
                    // hex has no terminator inside quotes: step out
                    app(o, "\"[\\x");
                    hex(o, c, s, true);
                    app(o, "]\"");
                    continue;
                }

                if (c == '"' || c == '\\') o += U'\\';

                o += static_cast<char32_t>(c);
            }

            o += U'"';
            break;
        case Node::set:
            if (n.items.size() == 1 && n.items[0].k == Item::shortcut &&
                !n.neg && !st.plain && s.chance(60))
            {
                o += U'\\';
                o += static_cast<char32_t>(n.items[0].sc);
            }
            else if (n.items.size() == 1 && n.items[0].k == Item::prop &&
                !n.neg && !st.plain && s.chance(60))
            {
                app(o, "\\p{");
                app(o, n.items[0].name.c_str());
                app(o, "}");
            }
            else
                print_set(o, n, s, st, f.max);
            break;
        case Node::dot:
            o += U'.';
            break;
        case Node::seq:
            for (auto& k : n.kids) print(o, *k, s, st, f, 1);
            break;
        case Node::alt:
        {
            bool first = true;

            for (auto& k : n.kids)
            {
                if (!first) o += U'|';

                first = false;
                print(o, *k, s, st, f, 0);
            }

            break;
        }
        case Node::rep:
        {
            print(o, *n.kids[0], s, st, f, 2);
            noise(o, s, st, f);

            char buf[48];

            if (n.lo == 0 && n.hi == 1 && (st.plain || !s.chance(20)))
                app(o, "?");
            else if (n.lo == 0 && n.hi < 0 && (st.plain || !s.chance(20)))
                app(o, "*");
            else if (n.lo == 1 && n.hi < 0 && (st.plain || !s.chance(20)))
                app(o, "+");
            else
            {
                if (n.hi < 0) snprintf(buf, sizeof(buf), "{%d,}", n.lo);
                else if (n.hi == n.lo && (st.plain || !s.chance(30)))
                    snprintf(buf, sizeof(buf), "{%d}", n.lo);
                else snprintf(buf, sizeof(buf), "{%d,%d}", n.lo, n.hi);

                app(o, buf);
            }

            if (n.lazy) app(o, "?");

            break;
        }
        case Node::group:
        {
            Flags g = apply(n, f);

            app(o, "(?");

            if (n.oi) app(o, n.oi > 0 ? "i" : "-i");
            if (n.os) app(o, n.os > 0 ? "s" : "-s");
            if (n.ox) app(o, n.ox > 0 ? "x" : "-x");

            app(o, ":");
            print(o, *n.kids[0], s, st, g, 0);
            noise(o, s, st, g);
            app(o, ")");
            break;
        }
        case Node::macro:
            app(o, "{");
            app(o, n.name.c_str());
            app(o, "}");
            break;
        case Node::arith:
            for (std::size_t i = 0; i < n.kids.size(); ++i)
            {
                if (i) app(o, n.ops[i - 1] == '-' ? "{-}" : "{+}");

                Style inner = st;
                const Node& k = *n.kids[i];

                if (k.k == Node::chr)
                {
                    // operands are single charsets
                    bool ph = false;

                    if (!st.plain && s.chance(40) && !is_special(k.c, true) &&
                        st.raw_ctl)
                        o += static_cast<char32_t>(k.c);
                    else
                    {
                        o += U'[';
                        print_set_char(o, k.c, s, inner, ph, true, f.max);
                        o += U']';
                    }
                }
                else if (k.k == Node::dot)
                    o += U'.';
                else if (k.k == Node::macro)
                {
                    app(o, "{");
                    app(o, k.name.c_str());
                    app(o, "}");
                }
                else
                    print_set(o, k, s, inner, f.max);
            }
            break;
        }

        if (need)
        {
            noise(o, s, st, f);
            o += U')';
        }
    }

    inline u32 print(const Node& n, Src& s, const Style& st, const Flags& f)
    {
        u32 o;

        print(o, n, s, st, f, 0);
        return o;
    }

    inline std::string show(const u32& u)
    {
        return pbt::show(u);
    }

    template<typename CharT>
    std::basic_string<CharT> narrow_to(const u32& u)
    {
        std::basic_string<CharT> out;

        for (char32_t c : u) out += static_cast<CharT>(c);

        return out;
    }

    template<typename CharT>
    std::basic_string<CharT> to_input(const text& u)
    {
        std::basic_string<CharT> out;

        for (cp c : u) out += static_cast<CharT>(c);

        return out;
    }
}

#endif
