// P23: basic_string_token is a set of characters
#include "pbt.hpp"

#include <lexertl/partition/charset.hpp>
#include <lexertl/partition/equivset.hpp>
#include <lexertl/string_token.hpp>

#include <algorithm>
#include <functional>
#include <set>
#include <sstream>

namespace
{
    using cp = std::uint32_t;
    using pbt::Src;

    template<typename... Args>
    void expect(bool ok, const Args&... args)
    {
        if (ok) return;

        std::ostringstream s;

        (s << ... << args);
        pbt::fail(s.str());
    }

    // A set of characters as the sorted list of the places at which
    // membership changes
    struct Set
    {
        std::vector<cp> at;

        bool has(cp c) const
        {
            return (std::upper_bound(at.begin(), at.end(), c) - at.begin()) &
                1;
        }

        static Set range(cp a, cp b) { return { { a, b + 1 } }; }

        friend bool operator==(const Set& a, const Set& b)
        {
            return a.at == b.at;
        }

        std::vector<std::pair<cp, cp>> ranges() const
        {
            std::vector<std::pair<cp, cp>> v;

            for (std::size_t i = 0; i + 1 < at.size(); i += 2)
                v.emplace_back(at[i], at[i + 1] - 1);

            return v;
        }

        cp count() const
        {
            cp n = 0;

            for (auto& r : ranges()) n += r.second - r.first + 1;

            return n;
        }
    };

    Set combine(const Set& a, const Set& b,
        const std::function<bool(bool, bool)>& f)
    {
        std::vector<cp> p(a.at);
        Set r;
        bool in = false;

        p.insert(p.end(), b.at.begin(), b.at.end());
        std::sort(p.begin(), p.end());
        p.erase(std::unique(p.begin(), p.end()), p.end());

        for (cp c : p)
        {
            const bool now = f(a.has(c), b.has(c));

            if (now != in) r.at.push_back(c);

            in = now;
        }

        return r;
    }

    Set join(const Set& a, const Set& b)
    {
        return combine(a, b, [](bool x, bool y) { return x || y; });
    }

    Set meet(const Set& a, const Set& b)
    {
        return combine(a, b, [](bool x, bool y) { return x && y; });
    }

    Set minus(const Set& a, const Set& b)
    {
        return combine(a, b, [](bool x, bool y) { return x && !y; });
    }

    std::string show(const std::vector<std::pair<cp, cp>>& v)
    {
        std::ostringstream s;

        s << '{' << std::hex;

        for (auto& r : v)
        {
            s << ' ' << r.first;

            if (r.first != r.second) s << '-' << r.second;
        }

        s << " }";
        return s.str();
    }

    template<typename Token>
    std::vector<std::pair<cp, cp>> ranges(const Token& t)
    {
        std::vector<std::pair<cp, cp>> v;

        for (auto& r : t._ranges)
            v.emplace_back(static_cast<cp>(r.first),
                static_cast<cp>(r.second));

        return v;
    }

    template<typename Token>
    void same(const Token& t, const Set& want, cp max, const char* what)
    {
        const auto got = ranges(t);

        if (got != want.ranges()) expect(false, what, ": the set is ",
            show(got), ", not ", show(want.ranges()));

        expect(t.empty() == want.at.empty(), what, ": empty() is ",
            t.empty());
        expect(t.size() == got.size(), what, ": size() is ", t.size());
        expect(t.any() == (want == Set::range(0, max)), what,
            ": any() is ", t.any());
        expect(t.negatable() == (want.count() > max / 2), what,
            ": negatable() is ", t.negatable());
    }

    // characters that are close to each other and to the ends of the type
    struct Points
    {
        cp max;
        cp base;

        cp operator()(Src& s) const
        {
            switch (s.pick({ 50, 15, 15, 8, 12 }))
            {
            case 0: return std::min<cp>(base + static_cast<cp>(s.below(14)),
                max);
            case 1: return static_cast<cp>(s.below(4));
            case 2: return max - static_cast<cp>(s.below(4));
            case 3: return max / 2 + static_cast<cp>(s.below(4)) - 1;
            default: return static_cast<cp>(s.below(std::uint64_t(max) + 1));
            }
        }

        std::pair<cp, cp> range(Src& s) const
        {
            cp a = (*this)(s), b = s.chance(30) ? a : (*this)(s);

            return { std::min(a, b), std::max(a, b) };
        }
    };

    template<typename CharT>
    void history(pbt::Case& c)
    {
        using Token = lexertl::basic_string_token<CharT>;
        using Range = typename Token::range;
        using Index = typename Token::index_type;
        constexpr cp max = sizeof(CharT) == 1 ? 0xff : sizeof(CharT) == 2 ?
            0xffff : 0x10ffff;
        Src& s = c.src;
        const Points p{ max, s.chance(50) ? 'a' : static_cast<cp>(s.below(
            max - 20)) };
        std::vector<Token> t(3);
        std::vector<Set> m(3);
        std::size_t merged = 0, split = 0;

        expect(static_cast<cp>(Token::char_traits::max_val()) == max,
            "max_val() is ", static_cast<cp>(Token::char_traits::max_val()));

        auto range = [](std::pair<cp, cp> r)
        {
            return Range(static_cast<Index>(r.first),
                static_cast<Index>(r.second));
        };

        for (std::size_t n = 3 + s.below(18); n; --n)
        {
            const std::size_t i = s.below(3);
            // another
            const std::size_t j = (i + 1 + s.below(2)) % 3;
            const std::size_t before = m[i].at.size();
            const char* what = "";

            switch (s.pick({ 50, 8, 5, 12, 12, 6, 5, 3, 5, 4, 3 }))
            {
            case 0:
            {
                const auto r = p.range(s);

                what = "insert";
                c.desc << "\n" << i << ": insert " << show({ r });
                t[i].insert(range(r));
                m[i] = join(m[i], Set::range(r.first, r.second));
                break;
            }
            case 1:
                what = "insert a set";
                c.desc << "\n" << i << ": insert " << j;
                t[i].insert(t[j]);
                m[i] = join(m[i], m[j]);
                break;
            case 2:
                what = "insert itself";
                c.desc << "\n" << i << ": insert itself";
                t[i].insert(t[i]);
                break;
            case 3:
                what = "remove";
                c.desc << "\n" << i << ": remove " << j;
                t[i].remove(t[j]);
                m[i] = minus(m[i], m[j]);
                break;
            case 4:
            {
                const std::size_t k = 3 - i - j;
                const Set both = meet(m[i], m[j]);

                what = "intersect";
                c.desc << "\n" << i << ": intersect " << j << " into " << k;
                t[i].intersect(t[j], t[k]);
                m[i] = minus(m[i], both);
                m[j] = minus(m[j], both);
                m[k] = join(m[k], both);

                if (!both.at.empty()) c.label("overlap");

                break;
            }
            case 5:
                what = "negate";
                c.desc << "\n" << i << ": negate";
                t[i].negate();
                m[i] = minus(Set::range(0, max), m[i]);
                break;
            case 6:
                what = "swap";
                c.desc << "\n" << i << ": swap " << j;
                t[i].swap(t[j]);
                std::swap(m[i], m[j]);
                break;
            case 7:
                what = "clear";
                c.desc << "\n" << i << ": clear";
                t[i].clear();
                m[i] = Set();
                break;
            case 8:
            {
                const auto r = p.range(s);

                what = "construction";
                c.desc << "\n" << i << ": set of " << show({ r });
                t[i] = r.first == r.second ?
                    Token(static_cast<CharT>(r.first)) :
                    Token(static_cast<CharT>(r.first),
                    static_cast<CharT>(r.second));
                m[i] = Set::range(r.first, r.second);
                break;
            }
            case 9:
            {
                // a character at a time
                const auto r = p.range(s);

                what = "insert characters";

                for (cp x = r.first; x <= r.second && x < r.first + 6; ++x)
                {
                    const cp y = s.chance(50) ? x : r.first + (r.second - x);

                    c.desc << "\n" << i << ": insert " << show({ { y, y } });
                    t[i].insert(range({ y, y }));
                    m[i] = join(m[i], Set::range(y, y));
                }

                break;
            }
            default:
                what = "copy";
                c.desc << "\n" << i << ": copy of " << j;
                t[i] = t[j];
                m[i] = m[j];
                break;
            }

            if (m[i].at.size() < before) ++merged;
            if (m[i].at.size() > before) ++split;

            for (std::size_t k = 0; k < 3; ++k) same(t[k], m[k], max, what);
        }

        for (std::size_t i = 0; i < 3; ++i)
        {
            for (std::size_t j = 0; j < 3; ++j)
            {
                expect((t[i] == t[j]) == (m[i] == m[j]),
                    "== of sets ", i, " and ", j);
                expect((t[i] < t[j]) == (m[i].ranges() < m[j].ranges()),
                    "< of sets ", i, " and ", j);
            }
        }

        c.nontrivial = merged > 0 && split > 1;

        if (merged) c.label("merged or removed");
    }

    // What is inserted gives the same set in any order and in any pieces
    template<typename CharT>
    void order(pbt::Case& c)
    {
        using Token = lexertl::basic_string_token<CharT>;
        using Range = typename Token::range;
        using Index = typename Token::index_type;
        constexpr cp max = sizeof(CharT) == 1 ? 0xff : sizeof(CharT) == 2 ?
            0xffff : 0x10ffff;
        Src& s = c.src;
        const Points p{ max, s.chance(50) ? 'a' : static_cast<cp>(s.below(
            max - 20)) };
        std::vector<std::pair<cp, cp>> v;
        Set want;

        for (std::size_t n = 2 + s.below(10); n; --n) v.push_back(p.range(s));

        for (auto& r : v) want = join(want, Set::range(r.first, r.second));

        c.desc << show(v);

        for (int k = 0; k < 4; ++k)
        {
            Token t;

            for (std::size_t i = v.size(); i > 1; --i)
                std::swap(v[i - 1], v[s.below(i)]);

            c.desc << "\norder " << show(v);

            for (auto& r : v)
            {
                // perhaps as two that touch or overlap
                const cp d = r.second - r.first;
                const cp mid = d && s.chance(30) ? r.first +
                    static_cast<cp>(s.below(d)) : r.second;

                if (mid != r.second)
                {
                    const cp from = s.chance(50) ? mid + 1 : r.first +
                        static_cast<cp>(s.below(mid - r.first + 2));

                    t.insert(Range(static_cast<Index>(from),
                        static_cast<Index>(r.second)));
                }

                t.insert(Range(static_cast<Index>(r.first),
                    static_cast<Index>(mid)));
            }

            same(t, want, max, "order");

            Token n = t;

            n.negate();
            same(n, minus(Set::range(0, max), want), max, "negate");
            n.negate();
            same(n, want, max, "negate twice");
        }

        c.nontrivial = v.size() > 2 && want.ranges().size() < v.size();
    }

    // The sets of characters and of states that machines are built from
    void partition(pbt::Case& c)
    {
        using Charset = lexertl::detail::basic_charset<char, std::uint16_t>;
        Src& s = c.src;
        const Points p{ 0xff, 'a' };
        Charset a, b, o;
        Set sa, sb;

        for (std::size_t n = 1 + s.below(4); n; --n)
        {
            auto r = p.range(s);

            sa = join(sa, Set::range(r.first, r.second));
            r = p.range(s);
            sb = join(sb, Set::range(r.first, r.second));
        }

        lexertl::basic_string_token<char> ta, tb;

        for (auto& r : sa.ranges()) ta.insert(std::make_pair(
            static_cast<unsigned char>(r.first),
            static_cast<unsigned char>(r.second)));

        for (auto& r : sb.ranges()) tb.insert(std::make_pair(
            static_cast<unsigned char>(r.first),
            static_cast<unsigned char>(r.second)));

        a = Charset(ta, 1);
        b = Charset(tb, 2);

        if (s.chance(50)) a._index_set.insert(3);
        if (s.chance(50)) b._index_set.insert(3);

        const auto ia = a._index_set, ib = b._index_set;
        auto both = ia;

        both.insert(ib.begin(), ib.end());
        c.desc << show(sa.ranges()) << " and " << show(sb.ranges());
        expect(!a.empty() && o.empty(), "empty()");
        a.intersect(b, o);

        const Set m = meet(sa, sb);

        same(a._token, minus(sa, m), 0xff, "left");
        same(b._token, minus(sb, m), 0xff, "right");
        same(o._token, m, 0xff, "overlap");

        if (!m.at.empty())
        {
            expect(o._index_set == both, "index sets of the overlap");
            c.nontrivial = true;
        }
        else
            expect(o._index_set.empty(), "index sets without overlap");

        expect(a.empty() == minus(sa, m).at.empty(), "left empty()");
        expect(b.empty() == minus(sb, m).at.empty(), "right empty()");

        if (!a._token.empty())
            expect(a._index_set == ia, "index sets of the left");

        if (!b._token.empty())
            expect(b._index_set == ib, "index sets of the right");
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P23", "histories of set operations on three sets; "
        "non-trivial: ranges were split and merged or removed; orders: some "
        "of the inserted ranges merged; partition: the sets overlap");

    m.add("char", 60000 * 6, 1500000 * 6, history<char>);
    m.add("unsigned char", 10000 * 6, 200000 * 6, history<unsigned char>);
    m.add("char16", 40000 * 6, 1000000 * 6, history<char16_t>);
    m.add("char32", 40000 * 6, 1000000 * 6, history<char32_t>);
    m.add("wchar", 20000 * 6, 500000 * 6, history<wchar_t>);
    m.add("order char", 30000 * 6, 600000 * 6, order<char>);
    m.add("order char16", 20000 * 6, 400000 * 6, order<char16_t>);
    m.add("order char32", 20000 * 6, 400000 * 6, order<char32_t>);
    m.add("partition", 30000 * 6, 600000 * 6, partition);
    m.assume("the operands of intersect are distinct objects");
    return m.run(argc, argv);
}
