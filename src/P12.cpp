// P12: save() and load()
#include "csm.hpp"
#include "lexgen.hpp"

#include <lexertl/serialise.hpp>

using namespace model;

namespace
{
    template<typename CharT>
    constexpr cp max_of()
    {
        return sizeof(CharT) == 1 ? 0xff : sizeof(CharT) == 2 ? 0xffff :
            0x10ffff;
    }

    LexOpts options(Src& s, cp max)
    {
        LexOpts o;

        o.max = max;
        o.states = 3;
        o.rules = 4;
        o.twins = 20;
        o.depth = s.chance(70) ? 2 : 1;
        o.weight = 10;
        return o;
    }

    template<typename Rules, typename SM>
    void machine(pbt::Case& c, Src& s, SM& sm, Lexer& l,
        std::vector<cp>& alpha)
    {
        using Char = typename Rules::rules_char_type;
        using Id = typename SM::id_type;

        l = gen_lexer(s, options(s, max_of<Char>()), alpha);

        // ids across the whole range of the type
        if (s.chance(30))
        {
            for (auto& r : l.rules)
            {
                if (r.id > 0 && s.chance(50))
                    r.id = sizeof(Id) == 1 ? static_cast<int>(10 + s.below(240))
                        : static_cast<int>(10 + s.below(65000));
                if (r.uid >= 0 && s.chance(50))
                    r.uid = sizeof(Id) == 1 ? static_cast<int>(s.below(254)) :
                        static_cast<int>(s.below(65000));
            }
        }

        Rules rules(rule_flags(l.flags));

        c.desc << "\n" << describe(l, {});
        fill(l, rules);

        try
        {
            build(l, rules, sm);
        }
        catch (const lexertl::runtime_error& e)
        {
            if (sizeof(Id) == 1 && strstr(e.what(), "cannot hold"))
                throw pbt::Discard();

            throw;
        }

        if (s.chance(50)) sm.minimise();
    }

    template<typename CharT, typename Id, typename Stream>
    void round_trip(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT, Id>;
        using SM = lexertl::basic_state_machine<CharT, Id>;
        Src& s = c.src;
        // several machines in one stream, possibly an empty one
        const std::size_t n = 1 + s.below(3);
        std::vector<SM> sms(n);
        std::vector<Lexer> ls(n);
        std::vector<std::vector<cp>> alphas(n);
        Stream stream;

        for (std::size_t i = 0; i < n; ++i)
        {
            if (n > 1 && s.chance(10)) c.label("empty machine");
            else machine<Rules>(c, s, sms[i], ls[i], alphas[i]);

            lexertl::save(sms[i], stream);
        }

        if (s.chance(30)) stream << 7;

        SM used;

        for (std::size_t i = 0; i < n; ++i)
        {
            SM fresh;
            SM& to = s.chance(50) ? used : fresh;

            lexertl::load(stream, to);
            pbt::check(csm::sm_equal(to, sms[i]), "machine " +
                std::to_string(i) + " is not equal after load()");

            if (sms[i].empty()) continue;

            c.nontrivial = csm::sm_rows(sms[i]) > 3;

            if (!sms[i].data()._dfa[0].empty() && sms[i].data()._dfa[0].size() >
                256) c.label("row vector longer than 256");

            text in = gen_input(s, ls[i], alphas[i]);
            auto str = rx::to_input<CharT>(in);

            c.desc << "\ninput " << pbt::show(in);
            compare(lex_any(sms[i], str, true), lex_any(to, str, true),
                "loaded machine");
        }
    }

    template<typename SM>
    bool in_range(const SM& sm)
    {
        auto& d = sm.data();
        const std::size_t states = d._dfa.size();

        if (d._lookup.size() != states || d._dfa_alphabet.size() != states)
            return false;

        for (std::size_t i = 0; i < states; ++i)
        {
            const std::size_t w = d._dfa_alphabet[i];

            if (w < 8 || d._dfa[i].size() < 2 * w || d._dfa[i].size() % w ||
                d._lookup[i].size() != 256) return false;

            for (auto v : d._lookup[i]) if (v >= w) return false;

            const std::size_t rows = d._dfa[i].size() / w;

            if (d._dfa[i][0] >= rows) return false;

            for (std::size_t r = 1; r < rows; ++r)
            {
                auto row = &d._dfa[i][r * w];

                if ((row[4] >= states && !(row[0] & 4)) || (row[3] >= states && row[3] !=
                    SM::npos())) return false;

                for (std::size_t k = 5; k < w; ++k)
                    if (row[k] >= rows) return false;
            }
        }

        return true;
    }

    // Loads `text_`, which may be anything.  True if it was accepted.
    template<typename CharT, typename Id>
    bool load_any(Src& s, const std::string& text_,
        lexertl::basic_state_machine<CharT, Id>& sm)
    {
        std::istringstream in(text_);
        const auto before = sm;

        try
        {
            lexertl::load(in, sm);
        }
        catch (const lexertl::runtime_error&)
        {
            pbt::check(csm::sm_equal(before, sm),
                "load() threw but changed the machine");
            return false;
        }

        pbt::check(in_range(sm),
            "load() accepted a machine with indices out of range");

        // Execute it, where that is bound to end
        bool ends = !sm.empty();

        for (std::size_t i = 0; i < sm.data()._dfa.size(); ++i)
        {
            auto& d = sm.data()._dfa[i];
            const std::size_t w = sm.data()._dfa_alphabet[i];

            if (d[w] || d[d[0] * w]) ends = false;
            for (std::size_t r = w; r < d.size(); r += w)
                if (d[r + 5]) ends = false;
        }

        if (ends)
        {
            std::basic_string<CharT> str;

            for (int i = 0; i < 12; ++i)
                str.push_back(static_cast<CharT>(s.pick({ 50, 50, 10, 5 }) * 97
                    % 256));

            lexertl::recursive_match_results<typename std::basic_string<CharT>::
                const_iterator, Id> r(str.begin(), str.end());

            try
            {
                for (int i = 0; i < 20; ++i) lexertl::lookup(sm, r);
            }
            catch (const lexertl::runtime_error&)
            {
                // stack underflow
            }
        }

        return true;
    }

    // Damage to a saved machine
    template<typename CharT, typename Id>
    void damaged(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT, Id>;
        using SM = lexertl::basic_state_machine<CharT, Id>;
        Src& s = c.src;
        SM sm;
        Lexer l;
        std::vector<cp> alpha;

        machine<Rules>(c, s, sm, l, alpha);

        std::ostringstream out;

        lexertl::save(sm, out);

        std::string text_ = out.str();
        // Everything before the last number is needed
        std::size_t last = text_.find_last_not_of(" \n");

        last = text_.find_last_of(" \n", last);

        for (int i = 0; i < 6; ++i)
        {
            SM to;

            if (s.chance(50)) to = sm;

            std::size_t k = s.below(last + 1);

            if (s.chance(40)) k = s.below(std::min<std::size_t>(last + 1, 40));

            c.desc << "\ntruncated to " << k << " bytes";
            pbt::check(!load_any(s, text_.substr(0, k), to),
                "a truncated machine was loaded");
        }

        c.nontrivial = true;

        for (int i = 0; i < 10; ++i)
        {
            std::string bad = text_;
            SM to;
            std::size_t edits = 1 + s.below(2);

            for (std::size_t j = 0; j < edits; ++j)
            {
                // a whole number, or characters
                std::size_t k = s.chance(30) ? s.below(std::min<std::size_t>(
                    bad.size(), 40)) : s.below(bad.size());

                switch (s.below(6))
                {
                case 0: bad.erase(k, 1 + s.below(3)); break;
                case 1: bad[k] = "0123456789 -+x."[s.below(15)]; break;
                case 2: bad.insert(k, 1, "0123456789 -"[s.below(12)]); break;
                case 3:
                    bad.insert(k, std::vector<std::string>{
                        "99999999999999999999 ", " 65535 ", "4294967295",
                        " -1 ", "18446744073709551615 ", " 256 ", "\0x" }[
                        s.below(7)]);
                    break;
                default:
                {
                    // replace a number
                    std::size_t b = bad.find_first_of("0123456789", k);

                    if (b == std::string::npos) break;

                    std::size_t e = bad.find_first_not_of("0123456789", b);

                    if (e == std::string::npos) e = bad.size();

                    bad.replace(b, e - b, std::to_string(s.pick({ 30, 30, 10 })
                        == 0 ? s.below(300) : s.chance(50) ? 65535 :
                        s.below(70000)));
                }
                }

                if (bad.empty()) bad = "1";
            }

            c.desc << "\ndamaged " << pbt::show(bad);

            if (load_any(s, bad, to)) c.label("damage accepted");
            else c.label("damage refused");
        }
    }

    // Written for another character or id type
    template<typename CharT, typename Id, typename Char2, typename Id2>
    void other_type(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT, Id>;
        using SM = lexertl::basic_state_machine<CharT, Id>;
        using Other = lexertl::basic_state_machine<Char2, Id2>;
        Src& s = c.src;
        SM sm;
        Lexer l;
        std::vector<cp> alpha;
        std::stringstream stream;
        Other to;

        machine<Rules>(c, s, sm, l, alpha);
        lexertl::save(sm, stream);
        c.nontrivial = true;

        try
        {
            lexertl::load(stream, to);
        }
        catch (const lexertl::runtime_error&)
        {
            pbt::check(to.empty(), "load() threw but changed the machine");
            return;
        }

        pbt::fail("a machine for another character or id type was loaded");
    }

    // Text that has nothing to do with a machine
    void garbage(pbt::Case& c)
    {
        Src& s = c.src;
        std::string t;
        std::size_t n = s.below(60);

        if (s.chance(70)) t = "1\n1\n2\n0\n";

        for (std::size_t i = 0; i < n; ++i)
        {
            switch (s.pick({ 60, 20, 10, 5 }))
            {
            case 0: t += std::to_string(s.below(4)) + ' '; break;
            case 1: t += std::to_string(s.below(300)) + ' '; break;
            case 2: t += static_cast<char>(s.below(256)); break;
            default: t += std::to_string(s.below(~0ull)) + ' ';
            }
        }

        c.desc << pbt::show(t);

        lexertl::state_machine sm;

        if (load_any(s, t, sm)) c.label("accepted");
        else c.label("refused");

        c.nontrivial = t.size() > 8;
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P12", "one to three saved machines in a stream, for char, "
        "wchar_t, char16_t and char32_t and 8 to 64 bit ids, compared field "
        "by field and by lexing after load(); then truncated, edited, "
        "foreign and random streams; non-trivial: a machine with more than "
        "three rows, or a stream that is not a saved machine");

    using SS = std::stringstream;
    using WS = std::wstringstream;

    m.add("char", 24000, 450000, round_trip<char, uint16_t, SS>);
    m.add("char 8 bit ids", 24000, 450000, round_trip<char, uint8_t, SS>);
    m.add("char 32 bit ids", 12000, 240000, round_trip<char, uint32_t, SS>);
    m.add("char size_t ids", 12000, 240000, round_trip<char, std::size_t, SS>);
    m.add("wchar_t", 8000, 150000, round_trip<wchar_t, uint16_t, WS>);
    m.add("char16", 8000, 150000, round_trip<char16_t, uint16_t, SS>);
    m.add("char32", 8000, 150000, round_trip<char32_t, uint16_t, SS>);
    m.add("char32 wide stream", 4000, 75000, round_trip<char32_t, uint32_t,
        WS>);
    m.add("damaged", 16000, 450000, damaged<char, uint16_t>);
    m.add("damaged 8 bit ids", 6000, 150000, damaged<char, uint8_t>);
    m.add("damaged char32", 4000, 90000, damaged<char32_t, uint16_t>);
    m.add("char as char32", 2000, 30000, other_type<char, uint16_t, char32_t,
        uint16_t>);
    m.add("char32 as char16", 2000, 30000, other_type<char32_t, uint16_t,
        char16_t, uint16_t>);
    m.add("16 as 8 bit ids", 2000, 30000, other_type<char, uint16_t, char,
        uint8_t>);
    m.add("16 as 32 bit ids", 2000, 30000, other_type<char, uint16_t, char,
        uint32_t>);
    m.add("garbage", 80000, 1500000, garbage);
    m.assume("Truncation that only removes digits of the last number, or the "
        "white space after it, cannot be told from a complete machine.");
    return m.run(argc, argv);
}
