// P20: printed rules mean the same as the rules
#include "dumpfmt.hpp"

#include <lexertl/debug.hpp>

using namespace model;
using dumpfmt::ascii;
using dumpfmt::Reader;
using rx::u32;

namespace
{
    bool punct(cp c)
    {
        return c > 32 && c < 127 && !isalnum(static_cast<int>(c));
    }

    u32 hex(cp c)
    {
        char buf[16];

        snprintf(buf, sizeof buf, "\\x%x", c);
        return ascii(buf);
    }

    struct Gen
    {
        Src& s;
        std::vector<cp> alpha;
        std::vector<std::string> macros;
        cp max;
        bool lazy = true;
        int budget = 12;

        u32 chr(cp c, bool in_set)
        {
            if (c < 32 || c > 126)
                return in_set ? hex(c) : U"[" + hex(c) + U"]";

            if (punct(c)) return u32(U"\\") + static_cast<char32_t>(c);

            return u32(1, static_cast<char32_t>(c));
        }

        u32 set()
        {
            u32 out = U"[";

            if (s.chance(25)) out += '^';

            for (std::size_t n = 1 + s.below(4); n; --n)
            {
                cp a = s.of(alpha);

                out += chr(a, true);

                if (s.chance(35))
                {
                    cp b = s.chance(50) ? s.of(alpha) : a + static_cast<cp>(
                        s.below(5));

                    if (b >= a && b <= max) out += U"-" + chr(b, true);
                }
            }

            return out + U"]";
        }

        u32 atom(int depth)
        {
            --budget;

            switch (s.pick({ 50, 20, depth > 0 && budget > 0 ? 15u : 0u,
                macros.empty() ? 0u : 15u, 5, 4 }))
            {
            case 0: return chr(s.of(alpha), false);
            case 1: return set();
            case 2: return U"(" + alts(depth - 1) + U")";
            case 3:
            {
                u32 m = U"{" + ascii(s.of(macros).c_str()) + U"}";

                // set algebra
                if (s.chance(10)) m += (s.chance(50) ? U"{-}" : U"{+}") +
                    set();

                return m;
            }
            case 4: return U".";
            default:
            {
                u32 out = U"\"";

                for (std::size_t n = 1 + s.below(3); n; --n)
                {
                    const cp c = s.of(alpha);

                    if (c >= 32 && c < 127 && c != '"' && c != '\\')
                        out += static_cast<char32_t>(c);
                }

                return out.size() > 1 ? out + U"\"" : u32(U"a");
            }
            }
        }

        u32 item(int depth)
        {
            u32 a = atom(depth);

            if (!s.chance(30)) return a;

            static const std::vector<std::string> q{ "?", "*", "+", "{2}",
                "{1,2}", "{0,1}", "{2,}", "{0,}", "{1}", "{1,}" };

            a += ascii(s.of(q).c_str());

            if (lazy && s.chance(25)) a += '?';

            return a;
        }

        u32 seq(int depth)
        {
            u32 out;

            for (std::size_t n = 1 + s.below(3); n; --n) out += item(depth);

            return out;
        }

        u32 alts(int depth)
        {
            u32 out = seq(depth);

            while (budget > 0 && s.chance(25)) out += U"|" + seq(depth);

            return out;
        }

        u32 regex()
        {
            u32 out;

            if (s.chance(15)) out += '^';

            out += alts(2);

            if (s.chance(30)) out += chr(s.of(alpha), false);
            if (s.chance(15)) out += '$';

            return out;
        }
    };

    // Reads a dump into a rule set
    template<typename Rules>
    void read_dump(const u32& dump, Rules& r)
    {
        using RC = typename Rules::rules_char_type;
        using S = typename Rules::string;
        using Id = typename Rules::id_type;

        auto str = [](const u32& u)
        {
            return rx::narrow_to<RC>(u);
        };
        const auto lines = dumpfmt::lines(dump);
        std::size_t k = 0;
        auto line = [&]() -> const u32&
        {
            if (k == lines.size()) pbt::fail("the dump ends early");

            return lines[k++];
        };

        if (!lines.empty() && lines[0].compare(0, 3, U"%x ") == 0)
        {
            u32 rest = line().substr(3) + U" ";

            for (std::size_t i; (i = rest.find(U' ')) != u32::npos;
                rest.erase(0, i + 1))
            {
                if (i == 0) pbt::fail("a state without a name");

                r.push_state(str(rest.substr(0, i)).c_str());
            }
        }

        if (line() != U"%%") pbt::fail("no %% before the macros");

        for (const u32* l; *(l = &line()) != U"%%";)
        {
            const std::size_t i = l->find(U' ');

            if (i == u32::npos) pbt::fail("no space in a macro");

            r.insert_macro(str(l->substr(0, i)).c_str(),
                str(l->substr(i + 1)));
        }

        for (const u32* l; *(l = &line()) != U"%%";)
        {
            Reader in{ *l };
            u32 state = U"INITIAL";

            if (in.eat("<"))
            {
                state = in.until(">");
                in.want(">");
            }

            const std::size_t end = l->rfind(U" {");

            if (end == u32::npos || end < in.i) in.bad("an action");

            const S regex = str(l->substr(in.i, end - in.i));

            in.i = end + 2;

            u32 next = U".";
            Id id = 0;

            if (in.eat(" BEGIN("))
            {
                next = in.until(")");
                in.want(");");

                if (in.is(" BEGIN(")) in.bad("something else");
            }

            if (in.eat(" yy_push_state("))
            {
                const u32 back = next == U"." ? state : next;

                next = U">" + in.until(")") + U":" + back;
                in.want(");");
            }
            else if (in.eat(" yy_pop_state();"))
            {
                if (next != U".") in.bad("no BEGIN()");

                next = U"<";
            }

            while (in.eat("  ")) --in.i;

            if (in.eat(" return "))
            {
                const std::size_t n = in.number();

                id = static_cast<Id>(n);
                pbt::check(id == n, "id " + std::to_string(n));
                in.want(";");
            }

            in.want(" }");

            if (!in.eof()) in.bad("the end of the line");

            r.push(str(state).c_str(), regex, id, str(next).c_str());
        }

        if (k != lines.size()) pbt::fail("something follows the rules");
    }

    // A text that makes the machine move
    template<typename M>
    text walk(Src& s, const M& m, const std::vector<cp>& alpha)
    {
        text in;
        std::size_t dfa = 0;
        typename M::id_type st = 0;
        const std::size_t n = s.below(14);

        for (std::size_t i = 0; i < n; ++i)
        {
            const auto& d = m._sm_vector[dfa];
            const auto& state = d._states[st];

            if (s.chance(12) || state._transitions.empty())
            {
                if (state._end_state && state._next_dfa < m._sm_vector.size())
                    dfa = static_cast<std::size_t>(state._next_dfa);
                else if (s.chance(20)) dfa = s.below(m._sm_vector.size());

                st = 0;

                if (s.chance(30)) in.push_back(s.chance(70) ? '\n' :
                    s.of(alpha));

                if (m._sm_vector[dfa]._bol_index != M::npos() &&
                    (in.empty() || in.back() == '\n'))
                    st = m._sm_vector[dfa]._bol_index;

                continue;
            }

            auto it = state._transitions.begin();

            std::advance(it, s.below(state._transitions.size()));

            auto& set = it->second._ranges;

            if (set.empty()) continue;

            auto& r = set[s.below(set.size())];
            const cp lo = static_cast<cp>(r.first);
            const cp hi = static_cast<cp>(r.second);

            in.push_back(s.chance(40) ? lo : s.chance(40) ? hi : lo +
                static_cast<cp>(s.below(hi - lo + 1)));

            st = it->first;
        }

        return in;
    }

    template<typename M>
    bool matches_nothing(const M& m)
    {
        for (auto& d : m._sm_vector)
        {
            if (d._states[0]._end_state ||
                d._states[0]._eol_index != M::npos()) return true;

            if (d._bol_index != M::npos() &&
                d._states[d._bol_index]._eol_index != M::npos()) return true;
        }

        return false;
    }

    void forget_uids(Run& r)
    {
        for (auto& t : r.toks) if (t.id != id_npos && t.id) t.uid = id_npos;
    }

    template<typename CharT, typename Id = uint16_t>
    void round_trip(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT, Id>;
        using SM = lexertl::basic_state_machine<CharT, Id>;
        using M = lexertl::basic_char_state_machine<CharT, Id>;
        using S = typename Rules::string;
        using Debug = lexertl::basic_debug<SM, CharT, Id>;
        constexpr bool wide = sizeof(CharT) > 1;
        Src& s = c.src;
        Gen g{ s, {}, {}, wide ? 0x10ffffu : 0xffu };

        switch (s.below(4))
        {
        case 0: g.alpha = { 'a', 'b', '\n' }; break;
        case 1: g.alpha = { 'a', '0', '1', 0, 1, 27, 'f', 0x7f }; break;
        case 2: g.alpha = { 'a', '\\', '"', '\n', '\r', '\t', ' ', 'Z' };
            break;
        default:
            g.alpha = { 'a' };

            for (int i = 0; i < 6; ++i)
            {
                cp p = static_cast<cp>(33 + s.below(94));

                g.alpha.push_back(s.chance(80) ? p : static_cast<cp>(s.below(
                    wide ? 0x11000 : 256)));
            }
        }

        if (wide && s.chance(30)) g.alpha.push_back(0x1f600);
        if (!wide && s.chance(30)) g.alpha.push_back(0xff);

        std::size_t flags = *lexertl::regex_flags::allow_suppressed_rules;

        if (s.chance(70)) flags |= *lexertl::regex_flags::dot_not_newline;
        if (s.chance(15)) flags |= *lexertl::regex_flags::dot_not_cr_lf;
        if (s.chance(15)) flags |= *lexertl::regex_flags::icase;
        if (s.chance(10)) flags |= *lexertl::regex_flags::skip_ws;

        const bool zero = s.chance(5);

        if (zero) flags |= *lexertl::regex_flags::match_zero_len;

        Rules rules(flags);
        std::vector<std::string> states{ "INITIAL" };

        c.desc << "flags " << flags;

        for (std::size_t n = s.below(3); n; --n)
        {
            states.push_back(n == 2 ? "B" : "A-1_x");
            rules.push_state(widen<S>(states.back()).c_str());
            c.desc << "\nstate " << states.back();
        }

        auto attempt = [&](auto f)
        {
            try
            {
                f();
                return true;
            }
            catch (const lexertl::runtime_error&)
            {
                c.desc << " (refused)";
                return false;
            }
        };

        // Pruning changes lazy repeats of macros in rules, so that they are not
        // found any more: ^ and $ then have no spelling (known finding)
        const bool anchors = s.chance(50);

        g.lazy = !anchors;

        for (std::size_t n = s.below(4); n; --n)
        {
            const std::string name = s.of(std::vector<std::string>{ "M", "N_1",
                "z", "A" });
            u32 body;

            g.budget = 6;

            switch (s.pick({ 30, 30, 25, 15, zero ? 20u : 0u }))
            {
            case 0: body = g.chr(s.of(g.alpha), false); break;
            case 1: body = g.set(); break;
            case 2: body = g.alts(1); break;
            case 3: body = anchors ? g.regex() : g.alts(2); break;
            default:;
            }

            c.desc << "\nmacro " << name << ": " << rx::show(body);

            if (attempt([&] { rules.insert_macro(widen<S>(name).c_str(),
                rx::narrow_to<CharT>(body)); }))
            {
                g.macros.push_back(name);
                c.label("macro");
            }
        }

        g.lazy = true;

        int pushed = 0;
        bool recursive = false;

        for (std::size_t n = 1 + s.below(5), i = 0; i < n + states.size(); ++i)
        {
            std::string state = s.of(states);
            bool rest = i >= n;

            if (rest)
            {
                const std::size_t k = i - n;

                if (!rules.regexes()[k].empty()) continue;

                state = states[k];
            }

            g.budget = 6;

            u32 re = rest ? g.chr(s.of(g.alpha), false) : g.regex();
            const S regex = rx::narrow_to<CharT>(re);
            Id id = static_cast<Id>(s.pick({ 80, 10, 10 }) == 0 ?
                1 + s.below(6) : s.chance(50) ? Rules::skip() :
                s.below(Rules::skip() > 1000 ? 1000 : Rules::skip()));
            const Id uid = s.chance(20) ? static_cast<Id>(s.below(5)) :
                Rules::npos();

            if (!rest && s.chance(30))
            {
                c.desc << "\npush(" << rx::show(re) << ", " <<
                    std::size_t(id) << ")";

                if (attempt([&] { rules.push(regex, id, uid); })) ++pushed;

                continue;
            }

            if (!rest && s.chance(15)) state = "*";
            if (s.chance(15)) id = 0;

            std::string next = ".";

            switch (s.pick({ 30, 30, 25, 15 }))
            {
            case 0: break;
            case 1: next = s.of(states); break;
            case 2:
                next = ">" + s.of(states);

                if (s.chance(50)) next += ":" + s.of(states);

                break;
            default: next = "<";
            }

            c.desc << "\npush(" << state << ", " << rx::show(re) << ", " <<
                std::size_t(id) << ", " << next << ")";

            if (attempt([&] { rules.push(widen<S>(state).c_str(), regex, id,
                widen<S>(next).c_str(), uid); }))
            {
                ++pushed;

                if (next[0] == '>' || next[0] == '<') recursive = true;
                if (next[0] == '>') c.label("push");
            }
        }

        SM sm;
        M m;

        for (auto& v : rules.regexes())
        {
            std::size_t tokens = 0;

            for (auto& x : v)
            {
                tokens += x.size();

                for (auto& t : x)
                    if (wide && t._str._ranges.size() > 6)
                        throw pbt::Discard();
            }

            if (tokens > (wide ? 30 : 60)) throw pbt::Discard();
        }

        std::string built = "no";

        try
        {
            lexertl::basic_generator<Rules, SM>::build(rules, sm);
            lexertl::basic_generator<Rules, M>::build(rules, m);
        }
        catch (const lexertl::runtime_error&)
        {
            throw pbt::Discard();
        }

        std::basic_stringstream<CharT> out;

        Debug::dump(rules, out);

        const u32 dump = dumpfmt::to_u32(out.str());

        c.desc << "\ndump:\n" << rx::show(dump);

        Rules again((flags & (*lexertl::regex_flags::match_zero_len |
            *lexertl::regex_flags::allow_suppressed_rules)));
        SM sm2;
        M m2;

        try
        {
            read_dump(dump, again);
            lexertl::basic_generator<Rules, SM>::build(again, sm2);
            lexertl::basic_generator<Rules, M>::build(again, m2);
        }
        catch (const lexertl::runtime_error& e)
        {
            pbt::fail(std::string("the dump is refused: ") + e.what());
        }

        pbt::check(sm.data()._dfa.size() == sm2.data()._dfa.size(),
            "number of lexer states");
        c.nontrivial = pushed > 1;

        for (std::size_t i = 0; i < states.size(); ++i)
        {
            const S name = widen<S>(states[i]);

            pbt::check(again.state(name.c_str()) == i, "state " + states[i] +
                " is number " + std::to_string(again.state(name.c_str())));
        }

        // with match_zero_len rules can match nothing for ever
        if (zero && (matches_nothing(m) || matches_nothing(m2)))
            throw pbt::Discard();

        for (int i = 0; i < 6; ++i)
        {
            text in = walk(s, i % 2 ? m2 : m, g.alpha);
            const auto str = rx::to_input<CharT>(in);

            c.desc << "\ninput " << pbt::show(in);

            Run want, got;

            want = lex_any(sm, str, recursive);
            got = lex_any(sm2, str, recursive);
            forget_uids(want);
            forget_uids(got);
            compare(want, got, "the rules that have been read back");

            if (want.toks.size() > 3) c.label("tokens");
            if (recursive && want.toks.size() > 1 && !want.underflow)
                c.label("stack");
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P20", "rule sets over punctuation, digits, control and high "
        "characters, with macros, states, stacks, anchors, lazy repeats and "
        "flags; the dump is read into a new rule set and both lexers are run "
        "on walks through both machines. Non-trivial: at least two rules");

    m.add("char", 20000, 400000, round_trip<char>);
    m.add("wchar", 3000, 60000, round_trip<wchar_t>);
    m.add("char32", 3000, 60000, round_trip<char32_t>);
    m.add("char, 8 bit ids", 3000, 60000, round_trip<char, std::uint8_t>);
    m.add("char, 32 bit ids", 2000, 40000, round_trip<char, std::uint32_t>);
    m.known("pruned-anchored-macro", "with M = ^[ab]?? the rule {M}|a is dumped "
        "as (^)|a, which matches ^", []
        {
            lexertl::rules rules;
            std::ostringstream out;

            rules.insert_macro("M", "^[ab]?\x3f");
            rules.push("{M}|a", 1);
            lexertl::debug::dump(rules, out);

            if (out.str().find("(^)|a") != std::string::npos)
                pbt::fail(out.str());
        });
    return m.run(argc, argv);
}
