// P17: UTF iterators
#include "lexgen.hpp"

#include <lexertl/utf_iterators.hpp>

#include <forward_list>
#include <list>
#include <memory>
#include <stdexcept>

using namespace model;

namespace
{
    // ---- an independent codec -----------------------------------------

    using Bytes = std::vector<unsigned char>;
    using Units = std::vector<unsigned>;

    void put8(Bytes& b, cp c)
    {
        auto u = [&](cp x) { b.push_back(static_cast<unsigned char>(x)); };

        if (c < 0x80) u(c);
        else if (c < 0x800) { u(0xc0 + c / 64); u(0x80 + c % 64); }
        else if (c < 0x10000)
        {
            u(0xe0 + c / 4096); u(0x80 + c / 64 % 64); u(0x80 + c % 64);
        }
        else
        {
            u(0xf0 + c / 262144); u(0x80 + c / 4096 % 64);
            u(0x80 + c / 64 % 64); u(0x80 + c % 64);
        }
    }

    void put16(Units& b, cp c)
    {
        if (c < 0x10000) b.push_back(c);
        else
        {
            b.push_back(0xd800 + (c - 0x10000) / 1024);
            b.push_back(0xdc00 + (c - 0x10000) % 1024);
        }
    }

    // Table 3-7 of the Unicode standard.  0 if not well formed.
    std::size_t get8(const unsigned char* p, std::size_t n, cp& c)
    {
        auto in = [&](std::size_t i, unsigned lo, unsigned hi)
        {
            return i < n && p[i] >= lo && p[i] <= hi;
        };

        if (in(0, 0, 0x7f)) { c = p[0]; return 1; }

        if (in(0, 0xc2, 0xdf) && in(1, 0x80, 0xbf))
        {
            c = (p[0] - 0xc0u) * 64 + (p[1] - 0x80u);
            return 2;
        }

        if ((in(0, 0xe0, 0xe0) && in(1, 0xa0, 0xbf) && in(2, 0x80, 0xbf)) ||
            (in(0, 0xe1, 0xec) && in(1, 0x80, 0xbf) && in(2, 0x80, 0xbf)) ||
            (in(0, 0xed, 0xed) && in(1, 0x80, 0x9f) && in(2, 0x80, 0xbf)) ||
            (in(0, 0xee, 0xef) && in(1, 0x80, 0xbf) && in(2, 0x80, 0xbf)))
        {
            c = (p[0] - 0xe0u) * 4096 + (p[1] - 0x80u) * 64 + (p[2] - 0x80u);
            return 3;
        }

        if (((in(0, 0xf0, 0xf0) && in(1, 0x90, 0xbf)) ||
            (in(0, 0xf1, 0xf3) && in(1, 0x80, 0xbf)) ||
            (in(0, 0xf4, 0xf4) && in(1, 0x80, 0x8f))) && in(2, 0x80, 0xbf) &&
            in(3, 0x80, 0xbf))
        {
            c = (p[0] - 0xf0u) * 262144 + (p[1] - 0x80u) * 4096 +
                (p[2] - 0x80u) * 64 + (p[3] - 0x80u);
            return 4;
        }

        return 0;
    }

    std::size_t get16(const Units& u, std::size_t i, cp& c)
    {
        if (u[i] < 0xd800 || u[i] > 0xdfff) { c = u[i]; return 1; }
        if (u[i] > 0xdbff || i + 1 == u.size() || u[i + 1] < 0xdc00 ||
            u[i + 1] > 0xdfff) return 0;

        c = 0x10000 + (u[i] - 0xd800) * 1024 + (u[i + 1] - 0xdc00);
        return 2;
    }

    cp gen_cp(Src& s)
    {
        static const std::vector<cp> edge = { 0, 1, '\n', 'a', 0x7e, 0x7f,
            0x80, 0x81, 0xbf, 0xc0, 0xff, 0x100, 0x7fe, 0x7ff, 0x800, 0x801,
            0xfff, 0x1000, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xfeff, 0xfffd,
            0xfffe, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1ffff,
            0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff };

        switch (s.pick({ 40, 15, 15, 15, 15 }))
        {
        case 0: return s.of(edge);
        case 1: return static_cast<cp>(s.below(0x80));
        case 2: return static_cast<cp>(0x80 + s.below(0x780));
        case 3:
        {
            cp c = static_cast<cp>(0x800 + s.below(0xf800 - 0x800));

            return c < 0xd800 ? c : c + 0x800;
        }
        default: return static_cast<cp>(0x10000 + s.below(0x100000));
        }
    }

    std::string hex(cp c)
    {
        char b[16];

        snprintf(b, sizeof(b), "%x", static_cast<unsigned>(c));
        return b;
    }

    template<typename C>
    cp uns(C c)
    {
        return sizeof(C) == 1 ? static_cast<unsigned char>(c) : sizeof(C) == 2
            ? static_cast<std::uint16_t>(c) : static_cast<std::uint32_t>(c);
    }

    // ---- every code point -----------------------------------------------

    template<typename Out, typename P>
    void expect_units(P b, P e, const std::vector<unsigned>& want, cp c,
        const char* what)
    {
        Out i(b, e), end(e, e);
        std::size_t n = 0;

        for (; i != end; ++i, ++n)
            if (n >= want.size() || uns(*i) != want[n]) break;

        if (i != end || n != want.size())
            pbt::fail(std::string(what) + ": U+" + hex(c) + " is wrong");
    }

    void all_points(pbt::Case& c)
    {
        c.desc << "every code point";
        c.nontrivial = true;

        for (cp p = 0; p <= 0x10ffff; ++p)
        {
            if (p >= 0xd800 && p <= 0xdfff) continue;

            const char32_t one = p;
            const wchar_t wone = static_cast<wchar_t>(p);
            Bytes b8;
            Units u16;

            put8(b8, p);
            put16(u16, p);

            std::vector<unsigned> w8(b8.begin(), b8.end());
            char t8[4];
            unsigned char t8u[4];
            char16_t t16[2];
            wchar_t tw[2];

            std::copy(b8.begin(), b8.end(), t8);
            std::copy(b8.begin(), b8.end(), t8u);
            std::copy(u16.begin(), u16.end(), t16);
            std::copy(u16.begin(), u16.end(), tw);

            const char* b = t8, * e = t8 + b8.size();
            const char16_t* h = t16, * he = t16 + u16.size();
            const wchar_t* w = tw, * we = tw + u16.size();

            // encode
            expect_units<lexertl::basic_utf8_out_iterator<const char32_t*>>(
                &one, &one + 1, w8, p, "utf8 out");
            expect_units<lexertl::basic_utf8_out_iterator<const wchar_t*>>(
                &wone, &wone + 1, w8, p, "utf8 out of wchar_t");
            expect_units<lexertl::basic_utf16_out_iterator<const char32_t*,
                char16_t>>(&one, &one + 1, u16, p, "utf16 out");
            expect_units<lexertl::basic_utf16_out_iterator<const char32_t*,
                wchar_t>>(&one, &one + 1, u16, p, "utf16 out to wchar_t");
            // decode
            expect_units<lexertl::cutf8_in_utf32_out_iterator>(b, e, { p }, p,
                "cutf8_in_utf32_out_iterator");
            expect_units<lexertl::basic_utf8_in_iterator<const unsigned char*,
                wchar_t>>(static_cast<const unsigned char*>(t8u),
                static_cast<const unsigned char*>(t8u) + b8.size(), { p }, p,
                "utf8 in to wchar_t");
            expect_units<lexertl::cutf16_in_utf32_out_iterator>(h, he, { p },
                p, "cutf16_in_utf32_out_iterator");
            expect_units<lexertl::cwchar_t_in_utf32_out_iterator>(w, we, { p },
                p, "cwchar_t_in_utf32_out_iterator");

            // both
            using U8 = lexertl::cutf8_in_utf32_out_iterator;
            using U16 = lexertl::cutf16_in_utf32_out_iterator;
            using W16 = lexertl::cwchar_t_in_utf32_out_iterator;

            expect_units<lexertl::cutf8_in_utf16_out_iterator>(U8(b, e),
                U8(e, e), u16, p, "cutf8_in_utf16_out_iterator");
            expect_units<lexertl::cutf8_in_wchar_t_out_iterator>(U8(b, e),
                U8(e, e), u16, p, "cutf8_in_wchar_t_out_iterator");
            expect_units<lexertl::cutf16_in_utf8_out_iterator>(U16(h, he),
                U16(he, he), w8, p, "cutf16_in_utf8_out_iterator");
            expect_units<lexertl::cwchar_t_in_utf8_out_iterator>(W16(w, we),
                W16(we, we), w8, p, "cwchar_t_in_utf8_out_iterator");
        }
    }

    // ---- every sequence of up to three bytes, many of four -------------

    // exactly n readable bytes
    void one_sequence(const unsigned char* p, std::size_t n, std::size_t& bad)
    {
        using It = lexertl::cutf8_in_utf32_out_iterator;
        const char* b = reinterpret_cast<const char*>(p);
        cp want = 0;
        const std::size_t len = get8(p, n, want);
        bool threw = false;

        try
        {
            It i(b, b + n);
            cp got = *i;

            if (!len)
            {
                std::string t;

                for (std::size_t k = 0; k < n; ++k) t += " " + hex(p[k]);

                pbt::fail("the malformed sequence" + t + " is decoded as U+" +
                    hex(got));
            }

            // only complete characters here
            if (got != want) pbt::fail("U+" + hex(want) + " is decoded as U+" +
                hex(got));

            if (len == n) pbt::check(++i == It(b + n, b + n), "the end");
        }
        catch (const std::range_error&)
        {
            threw = true;
            ++bad;
        }

        // what follows a well formed character can be malformed: ++ threw
        if (threw && len) pbt::fail("U+" + hex(want) + " is rejected");
    }

    void sequences(pbt::Case& c)
    {
        std::unique_ptr<unsigned char[]> p[5];
        std::size_t bad = 0;

        c.desc << "every sequence of one to three bytes and many of four";
        c.nontrivial = true;

        for (std::size_t n = 1; n <= 4; ++n) p[n].reset(new unsigned char[n]);

        auto& a = p[1]; auto& b = p[2]; auto& t = p[3]; auto& f = p[4];

        for (unsigned i = 0; i < 256; ++i)
        {
            a[0] = static_cast<unsigned char>(i);
            one_sequence(a.get(), 1, bad);

            for (unsigned j = 0; i >= 0x80 && j < 256; ++j)
            {
                b[0] = a[0]; b[1] = static_cast<unsigned char>(j);
                one_sequence(b.get(), 2, bad);

                const bool cont = (j & 0xc0) == 0x80;

                for (unsigned k = 0; i >= 0xe0 && k < 256; ++k)
                {
                    if (!cont && k % 16) continue;

                    t[0] = a[0]; t[1] = b[1];
                    t[2] = static_cast<unsigned char>(k);
                    one_sequence(t.get(), 3, bad);
                }
            }
        }

        static const unsigned char edge[] = { 0, 0x41, 0x7f, 0x80, 0x81, 0x8f,
            0x90, 0x91, 0x9f, 0xa0, 0xaf, 0xbe, 0xbf, 0xc0, 0xc2, 0xe0, 0xf0,
            0xff };

        for (unsigned i = 0xe0; i < 256; ++i)
            for (auto j : edge) for (auto k : edge) for (auto l : edge)
            {
                f[0] = static_cast<unsigned char>(i);
                f[1] = j; f[2] = k; f[3] = l;
                one_sequence(f.get(), 4, bad);
            }

        pbt::check(bad > 10000, "malformed sequences");

        // every pair of UTF-16 units of representative values, every single
        static const unsigned units[] = { 0, 'a', 0xd7fe, 0xd7ff, 0xd800,
            0xd801, 0xdbfe, 0xdbff, 0xdc00, 0xdc01, 0xdffe, 0xdfff, 0xe000,
            0xe001, 0xfffe, 0xffff };

        for (unsigned i = 0; i < 0x10000; ++i)
        {
            for (unsigned j = 0; j <= std::size(units); ++j)
            {
                Units u = { i };

                if (j) u.push_back(units[j - 1]);

                std::unique_ptr<char16_t[]> q(new char16_t[u.size()]);
                std::unique_ptr<wchar_t[]> w(new wchar_t[u.size()]);

                std::copy(u.begin(), u.end(), q.get());
                std::copy(u.begin(), u.end(), w.get());

                cp want = 0;
                const std::size_t len = get16(u, 0, want);
                int threw = 0;

                try
                {
                    const char16_t* e = q.get() + u.size();
                    lexertl::cutf16_in_utf32_out_iterator x(q.get(), e);

                    pbt::check(len && *x == want, "utf16: " + hex(i) +
                        " is decoded as U+" + hex(*x));
                }
                catch (const std::range_error&)
                {
                    ++threw;
                }

                try
                {
                    const wchar_t* e = w.get() + u.size();
                    lexertl::cwchar_t_in_utf32_out_iterator x(w.get(), e);

                    pbt::check(len && *x == want, "utf16 as wchar_t: " +
                        hex(i) + " is decoded as U+" + hex(*x));
                }
                catch (const std::range_error&)
                {
                    ++threw;
                }

                if (threw != (len ? 0 : 2))
                    pbt::fail("utf16: " + hex(i) + (j ? " " + hex(units[j -
                        1]) : "") + (len ? " is rejected" :
                        " is not reported"));
            }
        }
    }

    // ---- walking about a text ------------------------------------------

    text gen_points(Src& s, std::size_t max)
    {
        text t;

        for (std::size_t n = s.below(max + 1); n; --n) t.push_back(gen_cp(s));

        return t;
    }

    // A decoder: ++, + and - move by characters and agree with the text
    template<typename It, typename P, typename GetPos>
    void walk(pbt::Case& c, P b, P e, const text& t, GetPos check_pos,
        bool back, const char* what)
    {
        Src& s = c.src;

        c.desc << "\n" << what << ":";

        It i(b, e);
        const It end(e, e);
        std::size_t at = 0;
        std::vector<std::pair<It, std::size_t>> kept;
        auto bad = [&](const std::string& m)
        {
            pbt::fail(std::string(what) + ": " + m + " at character " +
                std::to_string(at));
        };
        auto look = [&](const It& x, std::size_t k)
        {
            if ((x == end) != (k == t.size()) || (x != end) == (k ==
                t.size())) bad("comparison with the end is wrong");
            if (k < t.size() && uns(*x) != t[k]) bad("U+" + hex(t[k]) +
                " is read as U+" + hex(uns(*x)));

            check_pos(x, k);
        };

        look(i, 0);

        for (std::size_t n = s.below(25); n; --n)
        {
            switch (s.pick({ 25, 15, 20, back ? 25u : 0u, 10, 10 }))
            {
            case 0:
                if (at == t.size()) break;

                c.desc << " ++";
                if (&++i != &i) bad("++ does not return itself");
                ++at;
                break;
            case 1:
            {
                if (at == t.size()) break;

                c.desc << " i++";
                It old = i++;

                look(old, at++);
                break;
            }
            case 2:
            {
                const std::size_t k = s.below(t.size() - at + 1);

                c.desc << " +" << k;
                i = i + k;
                at += k;
                break;
            }
            case 3:
            {
                if constexpr (std::is_base_of_v<
                    std::bidirectional_iterator_tag, typename
                    std::iterator_traits<P>::iterator_category>)
                {
                    const std::size_t k = s.below(at + 1);

                    c.desc << " -" << k;
                    i = i - k;
                    at -= k;
                }

                break;
            }
            case 4:
                c.desc << " keep";
                kept.emplace_back(i, at);
                break;
            default:
                if (kept.empty()) break;

                c.desc << " restore";
                std::tie(i, at) = s.of(kept);
            }

            look(i, at);

            for (auto& k : kept)
            {
                if ((k.first == i) != (k.second == at) || (k.first != i) ==
                    (k.second == at)) bad("comparison is wrong");
            }
        }

        for (auto& k : kept) look(k.first, k.second);
    }

    // An encoder: every position is distinct
    template<typename It, typename P>
    void walk_out(pbt::Case& c, P b, P e, const std::vector<unsigned>& want,
        const char* what)
    {
        Src& s = c.src;

        c.desc << "\n" << what;

        const It end(e, e);
        std::vector<It> at;
        It i(b, e);

        for (std::size_t k = 0; k < want.size(); ++k)
        {
            pbt::check(i != end && !(i == end), std::string(what) +
                ": ends early");
            pbt::check(uns(*i) == want[k], std::string(what) + ": unit " +
                std::to_string(k) + " should be " + hex(want[k]) + " but is " +
                hex(uns(*i)));
            at.push_back(i);

            if (s.chance(40))
            {
                It old = i++;

                pbt::check(old == at.back() && uns(*old) == want[k],
                    std::string(what) + ": i++ is wrong");
            }
            else
                pbt::check(&++i == &i, "++ returns itself");
        }

        pbt::check(i == end && !(i != end), std::string(what) +
            ": does not end");
        at.push_back(i);

        for (std::size_t j = 0; j < at.size(); ++j)
            for (std::size_t k = 0; k < at.size(); ++k)
                if ((at[j] == at[k]) != (j == k) || (at[j] != at[k]) ==
                    (j == k))
                    pbt::fail(std::string(what) + ": the positions " +
                        std::to_string(j) + " and " + std::to_string(k) +
                        " should " + (j == k ? "" : "not ") + "be equal");

        // a range between any two positions
        const std::size_t x = s.below(at.size());
        const std::size_t y = x + s.below(at.size() - x);
        std::vector<unsigned> got;

        for (It k = at[x]; k != at[y] && got.size() <= want.size(); ++k)
            got.push_back(static_cast<unsigned>(uns(*k)));

        pbt::check(got == std::vector<unsigned>(want.begin() +
            static_cast<long>(x), want.begin() + static_cast<long>(y)),
            std::string(what) + ": the range from " + std::to_string(x) +
            " to " + std::to_string(y) + " is wrong");
    }

    void valid(pbt::Case& c)
    {
        Src& s = c.src;
        const text t = gen_points(s, 12);

        c.desc << pbt::show(t);

        Bytes b8;
        Units u16;
        std::vector<std::size_t> pos = { 0 };

        for (cp p : t)
        {
            put8(b8, p);
            put16(u16, p);
            pos.push_back(b8.size());
        }

        // exact blocks of memory
        const std::vector<char> v8(b8.begin(), b8.end());
        const std::vector<unsigned char> v8u(b8.begin(), b8.end());
        const std::vector<char16_t> v16(u16.begin(), u16.end());
        const std::vector<wchar_t> vw(u16.begin(), u16.end());
        const std::vector<char32_t> v32(t.begin(), t.end());
        const std::list<char> l8(b8.begin(), b8.end());
        const std::forward_list<char16_t> f16(u16.begin(), u16.end());
        const char* p8 = v8.data();
        auto nothing = [](const auto&, std::size_t) {};

        using VI = std::vector<unsigned char>::const_iterator;
        using LI = std::list<char>::const_iterator;
        using FI = std::forward_list<char16_t>::const_iterator;

        walk<lexertl::cutf8_in_utf32_out_iterator>(c, p8, p8 + v8.size(), t,
            [&](const auto& i, std::size_t k)
            {
                pbt::check(i.get() == p8 + pos[k], "get() is wrong");

                const lexertl::cutf8_in_utf32_out_iterator first(p8, p8 +
                    v8.size());

                pbt::check((i > first) == (k > 0) && !(first > i),
                    "> is wrong");
            }, true, "cutf8_in_utf32_out_iterator");
        walk<lexertl::basic_utf8_in_iterator<VI, wchar_t>>(c, v8u.begin(),
            v8u.end(), t, nothing, true, "utf8 vector to wchar_t");
        walk<lexertl::basic_utf8_in_iterator<LI, char32_t>>(c, l8.begin(),
            l8.end(), t, nothing, false, "utf8 list");

        const char16_t* p16 = v16.data();
        const wchar_t* pw = vw.data();

        walk<lexertl::cutf16_in_utf32_out_iterator>(c, p16, p16 + v16.size(),
            t, nothing, true, "cutf16_in_utf32_out_iterator");
        walk<lexertl::cwchar_t_in_utf32_out_iterator>(c, pw, pw + vw.size(),
            t, nothing, true, "cwchar_t_in_utf32_out_iterator");
        walk<lexertl::basic_utf16_in_iterator<FI, char32_t>>(c, f16.begin(),
            f16.end(), t, nothing, false, "utf16 forward_list");

        const std::vector<unsigned> w8(b8.begin(), b8.end());
        const char32_t* p32 = v32.data();
        const char32_t* e32 = p32 + v32.size();
        using U8 = lexertl::cutf8_in_utf32_out_iterator;
        using U16 = lexertl::cutf16_in_utf32_out_iterator;
        const U8 b8i(p8, p8 + v8.size()), e8i(p8 + v8.size(), p8 + v8.size());
        const U16 b16i(p16, p16 + v16.size()), e16i(p16 + v16.size(), p16 +
            v16.size());

        walk_out<lexertl::basic_utf8_out_iterator<const char32_t*>>(c, p32,
            e32, w8, "utf8 out");
        walk_out<lexertl::basic_utf16_out_iterator<const char32_t*,
            char16_t>>(c, p32, e32, u16, "utf16 out");
        walk_out<lexertl::cutf8_in_utf16_out_iterator>(c, b8i, e8i, u16,
            "cutf8_in_utf16_out_iterator");
        walk_out<lexertl::cutf8_in_wchar_t_out_iterator>(c, b8i, e8i, u16,
            "cutf8_in_wchar_t_out_iterator");
        walk_out<lexertl::cutf16_in_utf8_out_iterator>(c, b16i, e16i, w8,
            "cutf16_in_utf8_out_iterator");

        // other byte order
        std::vector<unsigned> f;

        for (unsigned u : u16) f.push_back((u & 0xff) << 8 | u >> 8);

        using F = lexertl::basic_flip_iterator<const char16_t*>;
        using FF = lexertl::basic_flip_iterator<F>;
        F i(p16), e(p16 + v16.size());
        FF j(i);

        for (std::size_t k = 0; k < f.size(); ++k)
        {
            pbt::check(i != e && !(i == e) && *i == f[k],
                "flip iterator is wrong");
            pbt::check(*j == u16[k], "flipping twice is wrong");

            if (s.chance(50)) { F o = i++; pbt::check(*o == f[k], "i++"); }
            else ++i;

            ++j;
        }

        pbt::check(i == e && !(i != e), "flip iterator does not end");

        lexertl::basic_flip_iterator<const char32_t*> g(p32);

        for (std::size_t k = 0; k < t.size(); ++k, ++g)
            pbt::check(*g == (t[k] << 24 | (t[k] & 0xff00) << 8 |
                (t[k] >> 8 & 0xff00) | t[k] >> 24),
                "flip iterator of 32 bits is wrong");

        c.nontrivial = t.size() > 2 && b8.size() > t.size() + 2;
    }

    // ---- malformed text -------------------------------------------------

    void malformed8(pbt::Case& c)
    {
        Src& s = c.src;
        Bytes b;

        for (cp p : gen_points(s, 6)) put8(b, p);

        static const std::vector<Bytes> parts = { { 0x80 }, { 0xc0, 0x80 },
            { 0xc1, 0xbf }, { 0xe0, 0x9f, 0xbf }, { 0xe0, 0x80, 0x80 },
            { 0xed, 0xa0, 0x80 }, { 0xed, 0xbf, 0xbf }, { 0xf0, 0x8f, 0xbf,
            0xbf }, { 0xf0, 0x80, 0x80, 0x80 }, { 0xf4, 0x90, 0x80, 0x80 },
            { 0xf5, 0x80, 0x80, 0x80 }, { 0xf7, 0xbf, 0xbf, 0xbf }, { 0xf8,
            0x88, 0x80, 0x80, 0x80 }, { 0xff }, { 0xfe }, { 0xe2, 0x82 },
            { 0xc3 }, { 0xf0, 0x9f, 0x98 }, { 0xf0, 0x9f }, { 0xf4, 0x8f,
            0xbf, 0xbf }, { 0xed, 0x9f, 0xbf } };

        for (std::size_t n = s.below(4); n; --n)
        {
            const std::size_t at = s.below(b.size() + 1);

            switch (s.below(5))
            {
            case 0:
            case 1:
            {
                auto& p = s.of(parts);

                b.insert(b.begin() + static_cast<long>(at), p.begin(),
                    p.end());
                break;
            }
            case 2: if (at < b.size()) b.erase(b.begin() +
                static_cast<long>(at)); break;
            case 3: if (at < b.size()) b[at] = static_cast<unsigned char>(
                s.below(256)); break;
            default: b.resize(at);
            }
        }

        c.desc << "bytes";

        for (auto x : b) c.desc << " " << hex(x);

        // what should be read before the text ends or is malformed
        text want;
        std::size_t at = 0;
        bool bad = false;

        while (at < b.size())
        {
            cp p;
            const std::size_t n = get8(b.data() + at, b.size() - at, p);

            if (!n) { bad = true; break; }

            want.push_back(p);
            at += n;
        }

        auto go = [&](auto first, auto last, auto it, const char* what)
        {
            using It = decltype(it);
            text got;
            bool threw = false;

            try
            {
                It i(first, last);
                const It end(last, last);

                for (; i != end && got.size() <= b.size(); ++i)
                    got.push_back(uns(*i));
            }
            catch (const std::range_error&)
            {
                threw = true;
            }

            if (got != want || threw != bad)
                pbt::fail(std::string(what) + ": reads " + pbt::show(got) +
                    (threw ? " then throws" : "") + ", should be " +
                    pbt::show(want) + (bad ? " then an exception" : ""));
        };

        const std::vector<char> v(b.begin(), b.end());
        const std::vector<unsigned char> vu(b.begin(), b.end());

        go(v.data(), v.data() + v.size(), lexertl::
            cutf8_in_utf32_out_iterator(), "cutf8_in_utf32_out_iterator");
        go(vu.begin(), vu.end(), lexertl::basic_utf8_in_iterator<std::vector<
            unsigned char>::const_iterator, wchar_t>(), "to wchar_t");

        if (bad) c.label("malformed");

        c.nontrivial = bad && !want.empty();
    }

    template<typename CharT>
    void malformed16(pbt::Case& c)
    {
        Src& s = c.src;
        Units u;

        for (cp p : gen_points(s, 6)) put16(u, p);

        static const std::vector<unsigned> parts = { 0xd800, 0xdbff, 0xdc00,
            0xdfff, 0xdbfe, 0xdc01, 0xd7ff, 0xe000 };

        for (std::size_t n = s.below(4); n; --n)
        {
            const std::size_t at = s.below(u.size() + 1);

            switch (s.below(3))
            {
            case 0: u.insert(u.begin() + static_cast<long>(at), s.of(parts));
                break;
            case 1: if (at < u.size()) u.erase(u.begin() +
                static_cast<long>(at)); break;
            default: u.resize(at);
            }
        }

        c.desc << "units";

        for (auto x : u) c.desc << " " << hex(x);

        text want;
        std::size_t at = 0;
        bool bad = false;

        while (at < u.size())
        {
            cp p;
            const std::size_t n = get16(u, at, p);

            if (!n) { bad = true; break; }

            want.push_back(p);
            at += n;
        }

        const std::vector<CharT> v(u.begin(), u.end());
        using It = lexertl::basic_utf16_in_iterator<const CharT*, char32_t>;
        text got;
        bool threw = false;

        try
        {
            It i(v.data(), v.data() + v.size());
            const It end(v.data() + v.size(), v.data() + v.size());

            for (; i != end && got.size() <= u.size(); ++i)
                got.push_back(*i);
        }
        catch (const std::range_error&)
        {
            threw = true;
        }

        if (got != want || threw != bad)
            pbt::fail("reads " + pbt::show(got) + (threw ? " then throws" :
                "") + ", should be " + pbt::show(want) + (bad ?
                " then an exception" : ""));

        if (bad) c.label("malformed");

        c.nontrivial = bad && !want.empty();
    }

    // ---- lexing through the iterators ----------------------------------

    // tokens of code points from UTF-8 and UTF-16
    void lex32(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<char32_t, char32_t>;
        using SM = lexertl::basic_state_machine<char32_t>;
        using U8 = lexertl::cutf8_in_utf32_out_iterator;
        using U16 = lexertl::cutf16_in_utf32_out_iterator;
        Src& s = c.src;
        LexOpts o;

        o.max = 0x10ffff;

        if (s.chance(60))
        {
            o.alphabet = { 'a', '\n' };

            for (int i = 0; i < 4; ++i) o.alphabet.push_back(gen_cp(s));
        }

        std::vector<cp> alpha;
        Lexer l = gen_lexer(s, o, alpha);
        Rules rules(rule_flags(l.flags));
        SM sm;

        c.desc << describe(l, {});
        fill(l, rules);
        build(l, rules, sm);

        for (int k = 0; k < 4; ++k)
        {
            text in = gen_input(s, l, alpha);

            in.erase(std::remove_if(in.begin(), in.end(), [](cp x) { return
                (x >= 0xd800 && x <= 0xdfff) || x > 0x10ffff; }), in.end());
            c.desc << "\ninput " << pbt::show(in);

            const Run want = run(l, in);
            Bytes b8;
            Units u16;
            std::vector<std::size_t> pos;

            for (cp p : in)
            {
                pos.push_back(b8.size());
                put8(b8, p);
                put16(u16, p);
            }

            pos.push_back(b8.size());

            const std::string s8(b8.begin(), b8.end());
            const std::u16string s16(u16.begin(), u16.end());
            const char* p8 = s8.data(), * e8 = p8 + s8.size();
            const char16_t* p16 = s16.data(), * e16 = p16 + s16.size();
            const U8 b(p8, e8), e(e8, e8);

            compare(want, lex<Recursive<U8, uint16_t>>(sm, b, e, in.size()),
                "UTF-8");
            compare(want, lex<Recursive<U16, uint16_t>>(sm, U16(p16, e16),
                U16(e16, e16), in.size()), "UTF-16");

            if (!l.recursive())
            {
                compare(want, lex<Plain<U8, uint16_t>>(sm, b, e, in.size()),
                    "UTF-8, match_results");

                // the bytes of the tokens
                lexertl::match_results<U8, uint16_t> r(b, e);

                for (auto& t : want.toks)
                {
                    lexertl::lookup(sm, r);
                    pbt::check(r.first.get() == p8 + pos[t.first] &&
                        r.second.get() == p8 + pos[t.second],
                        "get() of a token is wrong");
                }
            }

            if (b8.size() > in.size() && want.toks.size() > 2)
                c.nontrivial = true;
        }
    }

    // a lexer of bytes reading UTF-16 through the encoder, and one of UTF-16
    // reading UTF-8
    template<typename CharT, typename Out, typename In>
    void lex_units(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT>;
        using SM = lexertl::basic_state_machine<CharT>;
        Src& s = c.src;
        LexOpts o;

        o.max = sizeof(CharT) == 1 ? 0xff : 0xffff;
        o.stack = false;
        o.alphabet = { 'a', '\n' };

        // units of a few characters
        text chars = { 'a', '\n' };

        for (int i = 0; i < 3; ++i)
        {
            const cp p = gen_cp(s);
            Bytes b8;
            Units u16;

            chars.push_back(p);
            put8(b8, p);
            put16(u16, p);

            if (sizeof(CharT) == 1)
                o.alphabet.insert(o.alphabet.end(), b8.begin(), b8.end());
            else
                o.alphabet.insert(o.alphabet.end(), u16.begin(), u16.end());
        }

        std::vector<cp> alpha;
        Lexer l = gen_lexer(s, o, alpha);
        Rules rules(rule_flags(l.flags));
        SM sm;

        c.desc << describe(l, {});
        fill(l, rules);
        build(l, rules, sm);

        for (int k = 0; k < 4; ++k)
        {
            text points, in;
            Bytes b8;
            Units u16;

            for (std::size_t n = s.below(15); n; --n)
                points.push_back(s.of(chars));

            c.desc << "\ninput " << pbt::show(points);

            for (cp p : points)
            {
                put8(b8, p);
                put16(u16, p);
            }

            if (sizeof(CharT) == 1) in.assign(b8.begin(), b8.end());
            else in.assign(u16.begin(), u16.end());

            const Run want = run(l, in);
            const std::basic_string<CharT> str = rx::to_input<CharT>(in);
            const std::string s8(b8.begin(), b8.end());
            const std::u16string s16(u16.begin(), u16.end());
            Out b, e;

            if constexpr (sizeof(CharT) == 1)
            {
                const char16_t* p = s16.data(), * q = p + s16.size();

                b = Out(In(p, q), In(q, q));
                e = Out(In(q, q), In(q, q));
            }
            else
            {
                const char* p = s8.data(), * q = p + s8.size();

                b = Out(In(p, q), In(q, q));
                e = Out(In(q, q), In(q, q));
            }

            compare(want, lex<Plain<Out, uint16_t>>(sm, b, e, in.size()),
                "through the encoder");

            lexertl::match_results<Out, uint16_t> r(b, e);

            for (auto& t : want.toks)
            {
                lexertl::lookup(sm, r);
                pbt::check(std::basic_string<CharT>(r.first, r.second) ==
                    str.substr(t.first, t.second - t.first),
                    "the text of a token is wrong");
            }

            if (in.size() > points.size() && want.toks.size() > 2)
                c.nontrivial = true;
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P17", "texts of up to 12 code points weighted to the "
        "boundaries of the encodings, walked about in with ++, i++, +n, -n "
        "and copies; malformed texts in exact blocks of memory; lexing "
        "through the iterators; and, exhaustively, all code points, all byte "
        "sequences of up to 3 bytes, all UTF-16 units alone and before "
        "representative others; non-trivial: multi-byte characters, or a "
        "valid prefix before a malformed sequence, or more than one token");

    m.assume("Iterators are not moved before the beginning or past the end, "
        "and not used after they reported malformed text.");
    m.example("all code points", all_points);
    m.example("all short sequences", sequences);
    m.add("valid", 60000, 2000000, valid);
    m.add("malformed utf8", 150000, 5000000, malformed8);
    m.add("malformed utf16", 60000, 2000000, malformed16<char16_t>);
    m.add("malformed wchar", 30000, 1000000, malformed16<wchar_t>);
    m.add("lex code points", 15000, 400000, lex32);
    m.add("lex bytes", 15000, 400000, lex_units<char,
        lexertl::cutf16_in_utf8_out_iterator,
        lexertl::cutf16_in_utf32_out_iterator>);
    m.add("lex utf16", 10000, 300000, lex_units<char16_t,
        lexertl::cutf8_in_utf16_out_iterator,
        lexertl::cutf8_in_utf32_out_iterator>);
    return m.run(argc, argv);
}
