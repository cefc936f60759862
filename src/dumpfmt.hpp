// dumpfmt.hpp - readers for what debug.hpp and dot.hpp write
#ifndef DUMPFMT_HPP
#define DUMPFMT_HPP

#include "csm.hpp"

namespace dumpfmt
{
    using rx::cp;
    using rx::u32;

    template<typename S>
    u32 to_u32(const S& s)
    {
        u32 out;

        for (auto c : s)
            out += static_cast<char32_t>(static_cast<
                std::make_unsigned_t<decltype(c)>>(c));

        return out;
    }

    inline u32 to_u32(const std::u32string& s)
    {
        return s;
    }

    inline u32 ascii(const char* s)
    {
        return u32(s, s + std::char_traits<char>::length(s));
    }

    inline std::vector<u32> lines(const u32& s)
    {
        std::vector<u32> out;
        std::size_t pos = 0;

        while (pos < s.size())
        {
            std::size_t end = s.find(U'\n', pos);

            if (end == u32::npos) pbt::fail("the last line does not end");

            out.push_back(s.substr(pos, end - pos));
            pos = end + 1;
        }

        return out;
    }

    struct Reader
    {
        u32 s;
        std::size_t i = 0;

        [[noreturn]] void bad(const std::string& what) const
        {
            pbt::fail("the dump does not read: " + what + " expected in " +
                rx::show(s) + " at " + std::to_string(i));
        }

        bool eof() const
        {
            return i == s.size();
        }

        bool is(const char* t) const
        {
            return s.compare(i, std::char_traits<char>::length(t),
                ascii(t)) == 0;
        }

        bool eat(const char* t)
        {
            if (!is(t)) return false;

            i += std::char_traits<char>::length(t);
            return true;
        }

        void want(const char* t)
        {
            if (!eat(t)) bad(std::string("'") + t + "'");
        }

        std::size_t number()
        {
            std::size_t n = 0;
            const std::size_t from = i;

            while (!eof() && s[i] >= '0' && s[i] <= '9')
                n = n * 10 + (s[i++] - '0');

            if (i == from || i > from + 20) bad("a number");

            return n;
        }

        u32 until(const char* t)
        {
            const std::size_t end = s.find(ascii(t), i);

            if (end == u32::npos) bad(std::string("'") + t + "'");

            u32 out = s.substr(i, end - i);

            i = end;
            return out;
        }

        // A character as a regex spells it
        cp chr()
        {
            if (eof()) bad("a character");
            if (s[i] != '\\') return s[i++];
            if (++i == s.size()) bad("a character");

            const char32_t c = s[i++];

            switch (c)
            {
            case 'a': return '\a';
            case 'b': return '\b';
            case 'f': return '\f';
            case 'n': return '\n';
            case 'r': return '\r';
            case 't': return '\t';
            case 'v': return '\v';
            case 'e': return 27;
            case 'x':
            {
                cp n = 0;
                const std::size_t from = i;

                for (; !eof(); ++i)
                {
                    const char32_t d = s[i];

                    if (d >= '0' && d <= '9') n = n * 16 + (d - '0');
                    else if (d >= 'a' && d <= 'f') n = n * 16 + (d - 'a') + 10;
                    else if (d >= 'A' && d <= 'F') n = n * 16 + (d - 'A') + 10;
                    else break;
                }

                if (i == from || i > from + 6) bad("a hexadecimal number");

                return n;
            }
            default:
                if (c >= '0' && c <= '7')
                {
                    cp n = c - '0';

                    while (!eof() && s[i] >= '0' && s[i] <= '7' && n < 0x110000)
                        n = n * 8 + (s[i++] - '0');

                    return n;
                }

                return c;
            }
        }

        // A set as a regex spells it; a character may stand for itself
        using Ranges = std::vector<std::pair<cp, cp>>;

        Ranges set(cp max)
        {
            Ranges r;
            bool negated = false;

            if (!eat("["))
            {
                const cp c = chr();

                r.emplace_back(c, c);
                return r;
            }

            negated = eat("^");

            while (!is("]"))
            {
                const cp a = chr();
                cp b = a;

                if (is("-"))
                {
                    ++i;

                    if (is("]")) bad("the end of a range");

                    b = chr();
                }

                if (b < a) bad("a range");

                r.emplace_back(a, b);
            }

            want("]");
            std::sort(r.begin(), r.end());

            Ranges m;

            for (auto& p : r)
            {
                if (!m.empty() && p.first <= m.back().second)
                    bad("characters that have not been mentioned");
                else if (!m.empty() && p.first == m.back().second + 1)
                    m.back().second = p.second;
                else m.push_back(p);
            }

            if (!m.empty() && m.back().second > max) bad("a smaller character");
            if (!negated) return m;

            Ranges n;
            cp from = 0;

            for (auto& p : m)
            {
                if (p.first > from) n.emplace_back(from, p.first - 1);

                from = p.second + 1;
            }

            if (m.empty() || m.back().second < max) n.emplace_back(from, max);

            return n;
        }
    };
}

#endif
