// P10: arbitrary text as rules and as input
#include "lexgen.hpp"

#include <lexertl/debug.hpp>

using namespace model;

namespace
{
    const std::vector<const char*>& fragments()
    {
        static const std::vector<const char*> v = {
            "a", "b", "c", "z", "A", "0", "9", " ", "\t", "\n", "\r", "_",
            "(", ")", "[", "]", "{", "}", "|", "*", "+", "?", "^", "$", ".",
            "\"", "\\", "/", "-", ",", "#", ":", "<", ">", "=", "!", "&",
            "(?", "(?i:", "(?-i:", "(?s:", "(?x:", "(?-sx:", "(?#", "(?:",
            "[^", "[[:", ":]]", "[[:alpha:]]", "[[:^digit:]]", "[:", ":]",
            "\\p{", "\\p{L}", "\\p{Lu}", "\\p{InGreek}", "\\p{Han}",
            "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\n", "\\r", "\\t",
            "\\a", "\\b", "\\e", "\\f", "\\v", "\\cA", "\\c@", "\\c",
            "\\0", "\\377", "\\400", "\\x", "\\x41", "\\xff", "\\x{", "\\x{41}",
            "\\x100", "\\x10ffff", "\\x110000", "\\u", "\\[", "\\]", "\\-",
            "{2}", "{1,2}", "{0,1}", "{,3}", "{3,", "{2,}", "{0}", "{0,0}",
            "{3,1}", "{01}", "{007,", "{99999999999999999999}",
            "{18446744073709551617}", "\\x10000000000000041", "{M}", "{N",
            "{Unknown}", "{+}", "{-}", "[ab]{-}[b]", "[a]{+}[b-d]", "a-", "-z",
            "[]", "[^]", "[a-z]", "[z-a]", "[]-a]", "[a-]", "[-a]", "??", "*?",
            "+?", "{2}?", "{1,}?", "()", "(|)", "||", "^$", "^*", "$*", "$$",
            "/*", "*/", "//", "<a", "*+", "**", "\x80", "\xc3\xa9", "\xff",
            "\xed\xa0\x80", "\xf4\x90\x80\x80",
        };

        return v;
    }

    template<typename CharT>
    std::basic_string<CharT> soup(Src& s, std::size_t max_pieces)
    {
        std::basic_string<CharT> t;

        for (std::size_t n = 1 + s.below(max_pieces); n; --n)
        {
            switch (s.pick({ 70, 20, 10 }))
            {
            case 0:
                for (const char* p = s.of(fragments()); *p; ++p)
                    t += static_cast<CharT>(static_cast<unsigned char>(*p));

                break;
            case 1:
                t += static_cast<CharT>(s.below(128));
                break;
            default:
            {
                static const std::vector<uint64_t> top = { 0x100, 0x10000,
                    0x110000, 0x100000000ull };

                t += static_cast<CharT>(s.below(s.of(top)));
            }
            }
        }

        return t;
    }

    // A valid spelling with a few edits
    template<typename CharT>
    std::basic_string<CharT> mutant(Src& s, cp max)
    {
        Flags f;
        rx::GenOpts g;

        f.max = max;
        f.wide = max > 0xff;
        g.alphabet = gen_alphabet(s, max);
        g.lazy = true;
        g.rep_max = 3;

        P p = rx::gen(s, g, 2);

        if (rx::weight(*p) > 16) throw pbt::Discard();

        rx::u32 u = rx::print(*p, s, rx::Style{ true, true }, f);
        std::basic_string<CharT> t;

        for (cp ch : u) t += static_cast<CharT>(ch);

        for (std::size_t n = s.below(4); n && !t.empty(); --n)
        {
            const std::size_t at = s.below(t.size());

            switch (s.below(5))
            {
            case 0: t.erase(at, 1 + s.below(3)); break;
            case 1: t.resize(at); break;
            case 2: t.insert(at, soup<CharT>(s, 1)); break;
            case 3: t.insert(at, t.substr(s.below(t.size()), 3)); break;
            default: t[at] = soup<CharT>(s, 1)[0];
            }
        }

        return t;
    }

    // Repeats are expanded: bounds on the product of the counts and on the
    // number of wildcards keep the automata small enough for a test.
    template<typename S>
    bool affordable(const S& t, bool wide, std::size_t& product,
        std::size_t& wild)
    {
        for (std::size_t i = 0; i < t.size(); ++i)
        {
            const auto ch = t[i];

            if (ch == '.' || ch == '^' || ch == 'P' || ch == 'p' || ch == 'D' ||
                ch == 'W' || ch == 'S' || ch == 'w' || ch == ':' || ch == '-')
                ++wild;

            if (ch != '{' && ch != ',') continue;

            std::size_t n = 0, k = i + 1, digits = 0;

            for (; k < t.size() && t[k] >= '0' && t[k] <= '9'; ++k)
            {
                if (n < 100000) n = n * 10 + static_cast<std::size_t>
                    (t[k] - '0');

                ++digits;
            }

            // so big that it must be refused
            if (n >= 65536) n = 1;
            if (n > 1) product *= n;
            if (product > (wide ? 6u : 40u)) return false;
        }

        return true;
    }

    std::string kind(const std::string& msg)
    {
        std::string u;

        for (char ch : msg)
        {
            if (!(ch == ' ' || (ch >= 'a' && ch <= 'z') ||
                (ch >= 'A' && ch <= 'Z')) || u.size() > 25) break;

            u += ch;
        }

        for (const char* stop : { " at index", " in rule", " in macro",
            " preceding", " following" })
        {
            auto p = u.find(stop);

            if (p != u.npos) u.resize(p);
        }

        return "refused: " + u;
    }

    // Whatever is done, only runtime_error comes out
    template<typename F>
    bool attempt(pbt::Case& c, F&& fn)
    {
        try
        {
            fn();
            return true;
        }
        catch (const lexertl::runtime_error& e)
        {
            pbt::check(*e.what() != 0, "an error without a message");
            c.label(kind(e.what()));
            return false;
        }
    }

    template<typename CharT, typename InT, typename Id>
    void soups(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, InT, Id>;
        using SM = lexertl::basic_state_machine<InT, Id>;
        using S = std::basic_string<CharT>;
        Src& s = c.src;
        constexpr bool wide = sizeof(InT) > 1;
        const cp max = sizeof(CharT) == 1 ? 0xff : sizeof(CharT) == 2 ? 0xffff :
            0x10ffff;
        std::size_t product = 1, wild = 0, flags = 0;
        // Without match_zero_len
        static const std::size_t bits[] = { *lexertl::regex_flags::icase,
            *lexertl::regex_flags::dot_not_newline,
            *lexertl::regex_flags::dot_not_cr_lf,
            *lexertl::regex_flags::skip_ws,
            *lexertl::regex_flags::allow_suppressed_rules };

        for (auto b : bits) if (s.chance(25)) flags |= b;

        Rules rules(flags);
        bool again = false, skip = false;
        int accepted = 0;

        c.desc << "flags " << flags;

        auto text = [&]
        {
            S t = s.chance(60) ? soup<CharT>(s, wide ? 6 : 10) :
                mutant<CharT>(s, max);

            if (t.size() > (wide ? 20u : 40u)) t.resize(wide ? 20 : 40);

            std::size_t p = 1;

            if (!affordable(t, wide, p, wild)) throw pbt::Discard();

            product *= p;

            if (product > (wide ? 8u : 100u) || wild > (wide ? 6u : 12u) ||
                (sizeof(Id) > 1 && wild * p > 8)) throw pbt::Discard();

            return t;
        };
        auto name = [&]
        {
            S t;
            static const std::vector<const char*> names = { "INITIAL", "B",
                "M", "N", "*", ".", "<", ">B", ">B:INITIAL", "INITIAL,B", "",
                "B,", ">", ">:", ">B:", ">>B", "<B", "B:B" };

            if (s.chance(75)) t = widen<S>(s.of(names));
            else t = soup<CharT>(s, 2);

            if (t.find(CharT(0)) != t.npos) t.resize(t.find(CharT(0)));

            return t;
        };

        // so that there is something to refer to
        if (s.chance(50)) rules.push_state(widen<S>("B").c_str());
        if (s.chance(50)) rules.insert_macro(widen<S>("M").c_str(),
            widen<S>("[x-z]"));

        for (std::size_t n = 1 + s.below(4); n; --n)
        {
            switch (s.pick({ 40, 25, 20, 15, 10 }))
            {
            case 0:
            {
                S re = text();

                c.desc << "\npush " << pbt::show(re);
                accepted += attempt(c, [&] { rules.push(re,
                    static_cast<Id>(1 + s.below(3))); });
                break;
            }
            case 1:
            {
                S re = text(), a = name(), b = name();
                static const std::vector<unsigned> ids = { 1, 2, 0, ~0u, ~1u };
                auto id = static_cast<Id>(s.chance(70) ? 1 : s.of(ids));

                c.desc << "\npush " << pbt::show(a) << " " << pbt::show(re) <<
                    " " << +id << " " << pbt::show(b);
                skip |= id == static_cast<Id>(~1);
                accepted += attempt(c, [&] { rules.push(a.c_str(), re, id,
                    b.c_str()); });
                break;
            }
            case 2:
            {
                S re = text(), a = name(), b = name();

                again = true;
                c.desc << "\npush " << pbt::show(a) << " " << pbt::show(re) <<
                    " " << pbt::show(b);
                accepted += attempt(c, [&] { rules.push(a.c_str(), re,
                    b.c_str()); });
                break;
            }
            case 3:
            {
                S re = text(), a = name();

                c.desc << "\nmacro " << pbt::show(a) << " " << pbt::show(re);
                // A macro may be used several times
                wild *= 2;
                attempt(c, [&] { rules.insert_macro(a.c_str(), re); });
                break;
            }
            default:
            {
                S a = name();

                c.desc << "\nstate " << pbt::show(a);
                attempt(c, [&] { rules.push_state(a.c_str()); });
            }
            }
        }

        // so that every state has a rule
        if (s.chance(70)) rules.push(widen<S>("*").c_str(), widen<S>("q"), 9,
            widen<S>(".").c_str());

        c.nontrivial = true;

        SM sm;
        const bool ok = attempt(c, [&] {
            lexertl::basic_generator<Rules, SM>::build(rules, sm); });

        if (!ok)
        {
            pbt::check(sm.empty(), "a failed build left something behind");
            return;
        }

        c.label("accepted");

        // Any input at all
        std::basic_string<InT> in;

        for (std::size_t n = s.below(25); n; --n)
        {
            switch (s.below(3))
            {
            case 0: in += static_cast<InT>("ab\n\rzA0x \"_"[s.below(11)]); break;
            case 1: in += static_cast<InT>(s.below(256)); break;
            default: in += static_cast<InT>(s.below(1ull << (8 *
                sizeof(InT)))); break;
            }
        }

        c.desc << "\ninput " << pbt::show(in);

        using It = typename std::basic_string<InT>::const_iterator;

        auto lex_it = [&](auto results)
        {
            std::size_t end = 0, calls = 0;

            for (;;)
            {
                try
                {
                    lexertl::lookup(sm, results);
                }
                catch (const lexertl::runtime_error& e)
                {
                    pbt::check(strstr(e.what(), "underflow") != nullptr,
                        std::string("lookup threw ") + e.what());
                    c.label("stack underflow");
                    return;
                }

                const auto a = static_cast<std::size_t>(results.first -
                    in.cbegin()), b = static_cast<std::size_t>
                    (results.second - in.cbegin());

                pbt::check(a <= b && b <= in.size(), "token outside the input");
                pbt::check(results.state < sm.data()._dfa.size(),
                    "a state that does not exist");

                if (!again && !skip)
                    pbt::check(a == end, "token " + std::to_string(calls) +
                        " starts at " + std::to_string(a) + " after " +
                        std::to_string(end));
                else
                    pbt::check(a >= end || again, "token goes backwards");

                pbt::check(b >= end, "token ends before the previous one");
                end = b;

                if (results.first == results.eoi && results.id == 0) break;

                // A token without an id that ends with the input
                if (results.id == 0)
                {
                    pbt::check(again && b == in.size(), "end of input token "
                        "in the middle");
                    break;
                }

                pbt::check(++calls <= in.size() + 1, "no progress");
            }

            pbt::check(end == in.size(), "stopped before the end");
        };

        bool recursive = (sm.data()._features &
            *lexertl::feature_bit::recursive) != 0;

        if (recursive)
            lex_it(lexertl::recursive_match_results<It, Id>(in.cbegin(),
                in.cend()));
        else
            lex_it(lexertl::match_results<It, Id>(in.cbegin(), in.cend()));

        // nor do these harm anything
        if (s.chance(20)) sm.minimise();
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P10", "a sequence of operations with at least one piece of "
        "arbitrary text");

    m.cpu_limit(40);
    m.add("char", 500000, 9000000, soups<char, char, uint8_t>);
    m.add("char, 16 bit ids", 150000, 3000000, soups<char, char, uint16_t>);
    m.add("char16_t", 30000, 500000, soups<char16_t, char16_t, uint16_t>);
    m.add("char32_t", 30000, 500000, soups<char32_t, char32_t, uint16_t>);
    m.add("char for char32_t", 30000, 500000, soups<char, char32_t, uint16_t>);
    m.add("wchar_t, 32 bit ids", 15000, 300000, soups<wchar_t, wchar_t,
        uint32_t>);
    m.assume("repeat counts and numbers of wildcards are bounded, because "
        "automata can be exponentially bigger than the rules");
    return m.run(argc, argv);
}
