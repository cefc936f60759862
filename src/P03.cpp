// P03: Unicode classes and case folding agree with the Unicode character
// database (src/ucd.inc, derived from UnicodeData/Scripts/Blocks 17.0)
#include "model.hpp"

using namespace model;

namespace
{
    // Which of the given characters does the lexer of one charset accept?
    template<typename RC, typename CharT>
    void check_set(const std::basic_string<RC>& re, bool icase,
        const rx::Set& want, const std::vector<cp>& points)
    {
        using Rules = lexertl::basic_rules<RC, CharT>;
        using SM = lexertl::basic_state_machine<CharT>;
        Rules rules(icase ? *lexertl::regex_flags::icase : 0);
        SM sm;

        rules.push(re, 1);
        lexertl::basic_generator<Rules, SM>::build(rules, sm);

        std::basic_string<CharT> in;

        for (cp p : points) in += static_cast<CharT>(p);

        lexertl::match_results<typename std::basic_string<CharT>::
            const_iterator> r(in.begin(), in.end());

        for (cp p : points)
        {
            lexertl::lookup(sm, r);

            const bool got = r.id == 1;

            pbt::check(r.first != r.eoi && *r.first == static_cast<CharT>(p) &&
                std::distance(r.first, r.second) == 1,
                "one character should be one token");

            if (got != want.has(p))
            {
                std::ostringstream ss;

                ss << "U+" << std::hex << std::uppercase << p << " is " <<
                    (got ? "" : "not ") << "matched by " << pbt::show(re) <<
                    (icase ? " (icase)" : "") << " but should " <<
                    (got ? "not " : "") << "be";
                pbt::fail(ss.str());
            }
        }
    }

    void boundaries(const rx::Set& s, std::vector<cp>& out, Src& src,
        std::size_t max_ranges)
    {
        std::size_t n = s.r.size();
        std::size_t from = n > max_ranges ? src.below(n) : 0;

        for (std::size_t i = 0; i < std::min(n, max_ranges); ++i)
        {
            auto& r = s.r[(from + i) % n];

            if (r.first) out.push_back(r.first - 1);

            out.push_back(r.first);
            out.push_back(r.first + (r.second - r.first) / 2);
            out.push_back(r.second);

            if (r.second < 0x10ffff) out.push_back(r.second + 1);
        }
    }

    std::vector<cp> points(const rx::Set& want, Src& src)
    {
        std::vector<cp> v;

        boundaries(want, v, src, 250);

        for (int i = 0; i < 40; ++i)
        {
            v.push_back(static_cast<cp>(src.below(0x110000)));
            v.push_back(static_cast<cp>(src.below(0x3000)));
        }

        // members and other cases of characters that have two cases
        constexpr std::size_t n = sizeof(rx::fold_table) /
            sizeof(rx::fold_table[0]);

        for (int i = 0; i < 40; ++i)
        {
            auto& f = rx::fold_table[src.below(n)];

            v.push_back(f[0]);
            v.push_back(f[1]);
        }

        return v;
    }

    // Every name, exhaustively, at every boundary
    void names(pbt::Case& c, std::size_t slice, std::size_t slices)
    {
        auto& v = rx::ucd_names();

        for (std::size_t i = slice; i < v.size(); i += slices)
        {
            const rx::Set& want = rx::ucd(v[i]);
            std::vector<cp> pts;
            Src none(std::vector<uint64_t>{});

            boundaries(want, pts, none, 100000);
            c.desc.str("");
            c.desc << "\\p{" << v[i] << "}, " << pts.size() << " characters";
            check_set<char, char32_t>("\\p{" + v[i] + "}", false, want, pts);
        }

        c.nontrivial = true;
    }

    // Every code point of one class
    void exhaustive(pbt::Case& c)
    {
        static const std::vector<std::string> posix = { "alnum", "alpha",
            "blank", "cntrl", "digit", "graph", "lower", "print", "punct",
            "space", "upper", "xdigit" };
        std::vector<cp> pts;
        rx::Set want;
        std::string re;

        if (c.src.chance(50))
        {
            auto& name = c.src.of(posix);

            re = "[[:" + name + ":]]";
            want = rx::wide_posix_set(name, 0x10ffff);
        }
        else
        {
            auto& name = c.src.of(rx::ucd_names());

            re = "\\p{" + name + "}";
            want = rx::ucd(name);
        }

        for (cp i = 0; i <= 0x10ffff; ++i) pts.push_back(i);

        c.desc << re << " on all code points";
        check_set<char, char32_t>(re, false, want, pts);
        c.nontrivial = true;
    }

    template<typename RC, typename CharT>
    void combo(pbt::Case& c)
    {
        Src& s = c.src;
        Flags f;

        f.max = 0x10ffff;
        f.wide = true;
        f.icase = s.chance(50);

        rx::GenOpts o;

        o.alphabet = { 'a', 'k', 'Z', 0xb5, 0xdf, 0xe9, 0xff, 0x100, 0x101,
            0x130, 0x131, 0x149, 0x178, 0x17f, 0x1c4, 0x1c5, 0x1c6, 0x391,
            0x3b1, 0x3c2, 0x410, 0x450, 0x10d0, 0x13a0, 0x1e9e, 0x1f88, 0x2126,
            0x212a, 0x2160, 0x24b6, 0x4e01, 0xa640, 0xac01, 0xff21, 0xffff,
            0x10000, 0x10400, 0x1044f, 0x20001, 0x10ffff };

        if (s.chance(60))
        {
            // cased characters and what surrounds them
            constexpr std::size_t n = sizeof(rx::fold_table) /
                sizeof(rx::fold_table[0]);

            o.alphabet.clear();

            for (int i = 0; i < 6; ++i)
            {
                cp x = rx::fold_table[s.below(n)][s.below(2)];

                o.alphabet.push_back(x);
                o.alphabet.push_back(x + 1 + static_cast<cp>(s.below(40)));
            }
        }

        o.posix = s.chance(50);
        o.props = s.chance(60);

        rx::P set = rx::gen_set(s, o);
        rx::Set want = rx::eval(*set, f);

        if (want.empty()) throw pbt::Discard();

        rx::Style st{ false, sizeof(RC) == sizeof(CharT) };
        rx::u32 spell = rx::print(*set, s, st, f);

        std::vector<cp> pts = points(want, s);

        c.desc << (f.icase ? "icase " : "") << rx::show(spell) << " on " <<
            pts.size() << " characters";
        check_set<RC, CharT>(rx::narrow_to<RC>(spell), f.icase, want, pts);
        c.nontrivial = want.r.size() > 1;

        if (f.icase) c.label("icase");
        if (set->neg) c.label("negated");

        for (auto& i : set->items)
        {
            if (i.k == rx::Item::prop) c.label("\\p{}");
            if (i.k == rx::Item::posix) c.label("[:posix:]");
            if (i.k == rx::Item::range) c.label("ranges");
        }
    }

    // icase of one cased character: exactly that character and its other case
    void pairs(pbt::Case& c)
    {
        constexpr std::size_t n = sizeof(rx::fold_table) /
            sizeof(rx::fold_table[0]);
        Flags f;

        f.max = 0x10ffff;
        f.wide = true;
        f.icase = true;

        std::size_t i = c.src.below(n);
        cp x = rx::fold_table[i][0];
        rx::Set want = rx::fold(rx::Set(x, x), f);
        std::vector<cp> pts;
        Src none(std::vector<uint64_t>{});

        boundaries(want, pts, none, 1000);

        for (cp d = 1; d < 40; ++d)
        {
            pts.push_back(x + d);
            if (x > d) pts.push_back(x - d);
        }

        c.desc << "icase U+" << std::hex << x;
        check_set<char32_t, char32_t>(std::u32string(1, x), true, want, pts);
        c.nontrivial = true;
    }

    // 16 bit lexers: case folding within the basic plane
    void pairs16(pbt::Case& c)
    {
        constexpr std::size_t n = sizeof(rx::fold_table) /
            sizeof(rx::fold_table[0]);
        Flags f;

        f.max = 0xffff;
        f.wide = true;
        f.icase = true;

        cp x = rx::fold_table[c.src.below(n)][0];
        cp y = x + static_cast<cp>(c.src.below(70));

        if (y > 0xffff) throw pbt::Discard();

        rx::Set want = rx::fold(rx::Set(x, y), f);
        std::vector<cp> pts;
        Src none(std::vector<uint64_t>{});

        for (cp p = x > 100 ? x - 100 : 1; p < y + 100 && p < 0xffff; ++p)
            pts.push_back(p);

        boundaries(want, pts, none, 1000);
        c.desc << "icase [\\x" << std::hex << x << "-\\x" << y << "] (16 bit)";

        char re[64];

        snprintf(re, sizeof(re), "[\\x%x-\\x%x]", x, y);
        check_set<char, char16_t>(re, true, want, pts);
        c.nontrivial = true;
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P03", "a character class (all \\p names and POSIX classes, "
        "random unions, negations, with and without icase) checked character "
        "by character; non-trivial: the class has at least two ranges, or is "
        "a named class or case pair");

    for (std::size_t i = 0; i < 8; ++i)
        m.example("all names, slice " + std::to_string(i), [i](pbt::Case& c)
        {
            names(c, i, 8);
        });

    m.add("random classes", 10000, 300000, combo<char, char32_t>);
    m.add("random classes, wide rules", 5000, 150000,
        combo<char32_t, char32_t>);
    m.add("case pairs", 12000, 60000, pairs);
    m.add("case ranges, 16 bit", 3000, 60000, pairs16);
    m.add("every code point", 30, 1200, exhaustive);
    m.assume("the oracle is Unicode 17.0 (UnicodeData, Scripts and Blocks as "
        "shipped in gen_unicode_hpp); unassigned code points belong to no "
        "category; case folding is the simple one-to-one mapping of "
        "characters of category Ll and Lu");
    return m.run(argc, argv);
}
