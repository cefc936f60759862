// P04: wide lexers: every plane, every boundary, and the same tokens as a
// narrow lexer where both apply
#include "lexgen.hpp"
#include <lexertl/utf_iterators.hpp>

using namespace model;

namespace
{
    cp gen_point(Src& s, cp max)
    {
        static const cp lows[] = { 0, 1, 0x0a, 0x41, 0x61, 0x7f, 0x80, 0xff,
            0x100, 0x101, 0x10a, 0x1ff, 0x200, 0xa0a, 0xa0d, 0xff00, 0xfffe,
            0xffff, 0x6100, 0x6161, 0xd7ff, 0xe000 };
        cp v = s.chance(70) ? lows[s.below(std::size(lows))] :
            static_cast<cp>(s.below(0x10000));

        if (max > 0xffff) v |= static_cast<cp>(s.chance(40) ? 0 :
            s.chance(50) ? 1 + s.below(3) : s.below(0x11)) << 16;

        return std::min(v, max);
    }

    // Charsets with boundaries anywhere in the code space
    template<typename RC, typename CharT>
    void planes(pbt::Case& c)
    {
        constexpr cp max = sizeof(CharT) == 2 ? 0xffff : 0x10ffff;
        using Rules = lexertl::basic_rules<RC, CharT>;
        using SM = lexertl::basic_state_machine<CharT>;
        Src& s = c.src;
        Lexer l;
        std::vector<cp> alpha{ 'a' };

        l.flags.max = max;
        l.flags.wide = true;

        const std::size_t points = 2 + s.below(6);

        for (std::size_t i = 0; i < points; ++i)
            alpha.push_back(gen_point(s, max));

        rx::GenOpts o;

        o.alphabet = alpha;
        o.posix = false;
        o.quotes = sizeof(RC) == sizeof(CharT);
        o.rep_max = 2;

        const std::size_t n = 1 + s.below(3);

        for (std::size_t i = 0; i < n; ++i)
        {
            Rule r;

            r.re = s.chance(50) ? rx::gen_set(s, o) : rx::gen(s, o, 2);

            if (rx::nullable(*r.re)) r.re = rx::seq({ r.re,
                rx::chr(s.of(alpha)) });

            r.id = static_cast<int>(1 + i);

            if (rx::weight(*r.re) > 12 || rx::has_empty_set(*r.re, l.flags))
                throw pbt::Discard();

            rx::Style st;

            st.raw_ctl = sizeof(RC) == sizeof(CharT);
            spell(r, s, st, l.flags);
            l.rules.push_back(r);
        }

        Rules rules(rule_flags(l.flags));
        SM sm;

        c.desc << describe(l, {});
        fill(l, rules);
        build(l, rules, sm);

        // neighbours, and characters that share bytes with the boundaries
        std::set<cp> probe;

        for (cp a : alpha)
        {
            for (cp d : { 0u, 1u, 0x100u, 0x10000u })
            {
                probe.insert((a + d) % (max + 1));
                probe.insert((a + max + 1 - d) % (max + 1));
            }

            probe.insert(a & 0xff);
            probe.insert(a & 0xffff);
            probe.insert(std::min<cp>(max, (a >> 8) | (a & 0xff) << 8));
            probe.insert(std::min<cp>(max, a | 0x100000));
            probe.insert(std::min<cp>(max, a | 0x10000));
            probe.insert((a & ~0xff00u) | 0x1200);
        }

        const std::vector<cp> pv(probe.begin(), probe.end());
        text in(pv.begin(), pv.end());

        for (int i = 0; i < 3; ++i)
        {
            if (i) in = gen_input(s, l, pv);

            Run want = run(l, in);
            auto str = rx::to_input<CharT>(in);

            if (i) c.desc << "\ninput " << pbt::show(in);

            compare(want, lex_any(sm, str, false), "lookup");

            std::size_t matched = 0;

            for (auto& t : want.toks) matched += t.id > 0;

            if (matched && want.unknown) c.nontrivial = true;
            if (matched && max > 0xffff) c.label("matched, 24 bit");
        }
    }

    template<typename CharT>
    std::vector<Tok> lex_as(const Lexer& l, const text& in)
    {
        lexertl::basic_rules<CharT, CharT> rules(rule_flags(l.flags));
        lexertl::basic_state_machine<CharT> sm;

        fill(l, rules);
        build(l, rules, sm);

        return lex_any(sm, rx::to_input<CharT>(in), true).toks;
    }

    // The same ASCII rules in a lexer of every width
    void agree(pbt::Case& c)
    {
        Src& s = c.src;
        LexOpts o;
        std::vector<cp> alpha;

        o.rules = 4;
        o.flags = true;

        if (s.chance(30)) o.alphabet = { 'a', 'A', 'k', 'S', 's', 'K', '1',
            '_', ' ', '-', '\t' };

        Lexer l;

        // no class that means something else in a wide lexer
        for (;;)
        {
            l = gen_lexer(s, o, alpha);

            bool posix = false;

            for (auto& r : l.rules)
                posix = posix || r.spelling.find(U"[:") != rx::u32::npos;

            if (!posix) break;
        }

        c.desc << describe(l, {});

        lexertl::rules rules8(rule_flags(l.flags));
        lexertl::basic_rules<char16_t, char16_t> rules16(rule_flags(l.flags));
        lexertl::wrules rulesw(rule_flags(l.flags));
        lexertl::u32rules rules32(rule_flags(l.flags));
        lexertl::basic_rules<char, char32_t> rulesm(rule_flags(l.flags));
        lexertl::state_machine sm8;
        lexertl::basic_state_machine<char16_t> sm16;
        lexertl::wstate_machine smw;
        lexertl::u32state_machine sm32, smm;

        fill(l, rules8);
        fill(l, rules16);
        fill(l, rulesw);
        fill(l, rules32);
        fill(l, rulesm);
        build(l, rules8, sm8);
        build(l, rules16, sm16);
        build(l, rulesw, smw);
        build(l, rules32, sm32);
        build(l, rulesm, smm);

        for (int i = 0; i < 4; ++i)
        {
            text in = gen_input(s, l, alpha);

            for (auto& ch : in) ch &= 0x7f;

            c.desc << "\ninput " << pbt::show(in);

            Run want = run(l, in);

            compare(want, lex_any(sm8, rx::to_input<char>(in), true), "char");
            compare(want, lex_any(sm16, rx::to_input<char16_t>(in), true),
                "char16_t");
            compare(want, lex_any(smw, rx::to_input<wchar_t>(in), true),
                "wchar_t");
            compare(want, lex_any(sm32, rx::to_input<char32_t>(in), true),
                "char32_t");
            compare(want, lex_any(smm, rx::to_input<char32_t>(in), true),
                "char32_t with char rules");

            if (want.toks.size() > 3) c.nontrivial = true;

            run_labels(c, want);
        }
    }

    std::string to_utf8(const text& t, std::vector<std::size_t>& offs)
    {
        std::string o;

        for (cp v : t)
        {
            offs.push_back(o.size());

            if (v < 0x80) o += static_cast<char>(v);
            else if (v < 0x800)
            {
                o += static_cast<char>(0xc0 | v >> 6);
                o += static_cast<char>(0x80 | (v & 0x3f));
            }
            else if (v < 0x10000)
            {
                o += static_cast<char>(0xe0 | v >> 12);
                o += static_cast<char>(0x80 | (v >> 6 & 0x3f));
                o += static_cast<char>(0x80 | (v & 0x3f));
            }
            else
            {
                o += static_cast<char>(0xf0 | v >> 18);
                o += static_cast<char>(0x80 | (v >> 12 & 0x3f));
                o += static_cast<char>(0x80 | (v >> 6 & 0x3f));
                o += static_cast<char>(0x80 | (v & 0x3f));
            }
        }

        offs.push_back(o.size());
        return o;
    }

    std::u16string to_utf16(const text& t, std::vector<std::size_t>& offs)
    {
        std::u16string o;

        for (cp v : t)
        {
            offs.push_back(o.size());

            if (v < 0x10000) o += static_cast<char16_t>(v);
            else
            {
                o += static_cast<char16_t>(0xd7c0 + (v >> 10));
                o += static_cast<char16_t>(0xdc00 + (v & 0x3ff));
            }
        }

        offs.push_back(o.size());
        return o;
    }

    // A char32_t lexer that reads encoded text
    template<typename It, typename S>
    std::vector<Tok> lex_encoded(const lexertl::u32state_machine& sm,
        const S& str, const std::vector<std::size_t>& offs)
    {
        using R = lexertl::recursive_match_results<It>;
        std::vector<Tok> v;
        R r(It(str.begin(), str.end()), It(str.end(), str.end()));
        const It first(str.begin(), str.end());
        auto index = [&](const It& i)
        {
            std::size_t n = 0;

            for (It k = first; k != i; ++k)
                pbt::check(++n < offs.size(), "position past the end");

            return n;
        };

        for (;;)
        {
            try
            {
                lexertl::lookup(sm, r);
            }
            catch (const lexertl::runtime_error&)
            {
                return v;
            }

            Tok t;

            t.id = model_id(r.id);
            t.uid = model_id(r.user_id);
            t.first = index(r.first);
            t.second = index(r.second);
            t.state = static_cast<int>(r.state);
            t.depth = r.stack.size();
            v.push_back(t);

            if (r.id == 0 && r.first == r.eoi) return v;

            pbt::check(v.size() <= 4 * str.size() + 8, "no progress");
        }
    }

    void encoded(pbt::Case& c)
    {
        Src& s = c.src;
        LexOpts o;
        std::vector<cp> alpha;

        o.max = 0x10ffff;
        o.rules = 4;
        o.alphabet = { 'a', 0x7f, 0x80, 0x7ff, 0x800, 0x20ac, 0xffff, 0x10000,
            0x1f600, 0x10ffff, '\n' };

        Lexer l = gen_lexer(s, o, alpha);
        lexertl::u32rules rules(rule_flags(l.flags));
        lexertl::u32state_machine sm;

        c.desc << describe(l, {});
        fill(l, rules);
        build(l, rules, sm);

        for (int i = 0; i < 4; ++i)
        {
            text in = gen_input(s, l, alpha);

            for (auto& ch : in)
                if (ch >= 0xd800 && ch < 0xe000) ch = 0xe000;

            c.desc << "\ninput " << pbt::show(in);

            Run want = run(l, in);
            std::vector<std::size_t> o8, o16;
            const std::string s8 = to_utf8(in, o8);
            const std::u16string s16 = to_utf16(in, o16);
            Run got;

            got.underflow = want.underflow;
            got.toks = lex_encoded<lexertl::basic_utf8_in_iterator<
                std::string::const_iterator, char32_t>>(sm, s8, o8);
            compare(want, got, "UTF-8");
            got.toks = lex_encoded<lexertl::basic_utf16_in_iterator<
                std::u16string::const_iterator, char32_t>>(sm, s16, o16);
            compare(want, got, "UTF-16");

            if (want.toks.size() > 3 && s8.size() > in.size())
                c.nontrivial = true;

            run_labels(c, want);
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P04", "charsets and sequences with boundaries in any plane "
        "probed at and around every boundary; one ASCII lexer built for char, "
        "char16_t, wchar_t and char32_t; a char32_t lexer over UTF-8 and "
        "UTF-16; non-trivial: matched and unmatched characters, respectively "
        "three tokens (and a character of several code units)");

    m.add("planes char32_t", 15000, 300000, planes<char32_t, char32_t>);
    m.add("planes wchar_t", 6000, 100000, planes<wchar_t, wchar_t>);
    m.add("planes char16_t", 8000, 100000, planes<char16_t, char16_t>);
    m.add("planes char rules", 6000, 100000, planes<char, char32_t>);
    m.add("agree", 5000, 100000, agree);
    m.add("encoded", 10000, 200000, encoded);
    return m.run(argc, argv);
}
