// P09: invalid rule sets are rejected, valid ones are accepted
#include "lexgen.hpp"

using namespace model;

namespace
{
    // What build() has to say about a rule set, by an own determinisation.
    struct Verdict
    {
        bool known = true;            // small enough to decide
        std::set<int> zero;           // rules that can match nothing
        std::set<int> unmatched;      // rules that cannot match (in a state)
    };

    Verdict judge(const Lexer& l)
    {
        Verdict v;

        for (std::size_t i = 0; i < l.rules.size(); ++i)
            for (auto& p : l.rules[i].pieces())
                if (rx::nullable(*p.re) && (!p.bol || p.eol))
                    v.zero.insert(static_cast<int>(i));

        for (std::size_t st = 0; st < l.states.size(); ++st)
        {
            auto a = nfa::make(l, static_cast<int>(st));
            auto d = nfa::determinise(a, 600);

            if (!d.complete || nfa::newline_clash(a, d))
            {
                v.known = false;
                return v;
            }

            std::set<int> wins;

            for (auto& s : d.states)
            {
                int end = -1, eol = -1;

                for (int i : s)
                {
                    auto& p = a.pos[static_cast<std::size_t>(i)];

                    if (p.k == nfa::end && (end < 0 || p.rule < end))
                        end = p.rule;

                    if (p.k == nfa::eol && (eol < 0 || p.rule < eol))
                        eol = p.rule;
                }

                wins.insert(end);
                wins.insert(eol);
            }

            for (std::size_t i = 0; i < l.rules.size(); ++i)
            {
                auto& r = l.rules[i];

                if (std::count(r.states.begin(), r.states.end(),
                    static_cast<int>(st)) && !wins.count(static_cast<int>(i)))
                    v.unmatched.insert(static_cast<int>(i));
            }
        }

        return v;
    }

    bool names_one_of(const std::string& msg, const Lexer& l,
        const std::set<int>& which)
    {
        for (int i : which)
        {
            std::ostringstream ss;
            auto& sp = l.rules[static_cast<std::size_t>(i)].spelling;
            std::string re;

            // The message gives the regex as narrow text
            for (cp ch : sp)
            {
                if (ch == 0) break;

                if (ch > 126) return true; // how that is shown is not ours

                re += static_cast<char>(ch);
            }

            if (msg.find(re) != std::string::npos) return true;
        }

        return false;
    }

    template<typename CharT>
    void sets(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT>;
        using SM = lexertl::basic_state_machine<CharT>;
        Src& s = c.src;
        LexOpts o;
        std::vector<cp> alpha;

        o.max = sizeof(CharT) == 1 ? 0xff : 0x10ffff;
        o.flags = true;
        o.weight = sizeof(CharT) == 1 ? 12 : 8;
        o.rules = 6;
        o.states = 2;

        Lexer l = gen_lexer(s, o, alpha);

        // Make zero length and hidden rules common enough
        for (auto& r : l.rules)
        {
            bool changed = false;

            if (s.chance(6))
            {
                r.re = rx::rep(r.re, 0, s.chance(50) ? 1 : -1);
                changed = true;
            }
            else if (s.chance(25))
            {
                const Rule& other = s.of(l.rules);

                switch (s.below(4))
                {
                case 0: r.re = other.re; break;
                case 1: r.re = rx::rep(other.re, 1, 2); break;
                case 2: r.re = rx::alt({ other.re, s.of(l.rules).re }); break;
                default: r.re = rx::seq({ other.re, rx::chr(s.of(alpha)) });
                }

                changed = true;
            }

            if (changed)
            {
                if (rx::weight(*r.re) > 30) throw pbt::Discard();

                spell(r, s, rx::Style{ false, true }, l.flags);
            }
        }

        bool empty_state = false;

        if (s.chance(5))
        {
            const int id = static_cast<int>(l.states.size());

            l.states.push_back("Void");
            empty_state = true;

            // All states are known before the rules are added
            for (auto& r : l.rules)
                if (r.star)
                {
                    r.states.push_back(id);
                    empty_state = false;
                }
        }

        const bool zero_ok = s.chance(25), hidden_ok = s.chance(25);

        c.desc << describe(l, {}) << (zero_ok ? " match_zero_len" : "") <<
            (hidden_ok ? " allow_suppressed_rules" : "");

        Verdict v = judge(l);

        if (!v.known) throw pbt::Discard();

        Rules rules(rule_flags(l.flags, zero_ok, hidden_ok));
        SM sm;
        std::string err;

        fill(l, rules);

        try
        {
            lexertl::basic_generator<Rules, SM>::build(rules, sm);
        }
        catch (const lexertl::runtime_error& e)
        {
            err = e.what();
        }

        const bool zero = !zero_ok && !v.zero.empty();
        const bool hidden = !hidden_ok && !v.unmatched.empty();

        auto list = [&](const std::set<int>& x)
        {
            std::string t;

            for (int i : x) t += " " + rx::show(
                l.rules[static_cast<std::size_t>(i)].spelling);

            return t;
        };

        if (empty_state) c.label("empty state");
        if (zero) c.label("zero length rule");
        if (hidden) c.label("rule that cannot match");
        if (zero_ok && !v.zero.empty()) c.label("zero length allowed");
        if (hidden_ok && !v.unmatched.empty()) c.label("hidden allowed");

        c.nontrivial = empty_state || zero || hidden || !v.zero.empty() ||
            !v.unmatched.empty() || l.rules.size() > 2;

        if (err.empty())
        {
            pbt::check(!empty_state, "a state without rules was accepted");
            pbt::check(!zero, "accepted although it can match nothing:" +
                list(v.zero));
            pbt::check(!hidden, "accepted although it can never match:" +
                list(v.unmatched));
            pbt::check(!sm.empty(), "build() left the machine empty");
        }
        else
        {
            if (strstr(err.c_str(), "DFA rows")) throw pbt::Discard();

            pbt::check(empty_state || zero || hidden,
                "a valid rule set was refused: " + err);

            const bool says_zero = err.find("zero chars") != err.npos,
                says_hidden = err.find("cannot be matched") != err.npos,
                says_empty = err.find("no rules") != err.npos;

            pbt::check(says_zero ? zero : says_hidden ? hidden : says_empty &&
                empty_state, "refused for the wrong reason: " + err);

            if (says_zero || says_hidden)
                pbt::check(names_one_of(err, l, says_zero ? v.zero :
                    v.unmatched), "the message names the wrong rule: " + err +
                    "\nshould be one of" + list(says_zero ? v.zero :
                        v.unmatched));

            pbt::check(sm.empty(), "build() failed but changed the machine");
        }
    }

    // One malformed piece appended to, or put in brackets within, a valid
    // regex.
    struct Fault
    {
        const char* text;
        bool inside;   // stays malformed with anything after it
        int wide = -1; // only for narrow (0) or wide (1) lexers
    };

    const std::vector<Fault>& faults()
    {
        static const std::vector<Fault> v = {
            { "(", false }, { ")", true }, { "(a", false }, { "a)", true },
            { "[", false }, { "[a", false }, { "[^", false }, { "[a-", false },
            { "[]", false }, { "[^]", false }, { "[z-a]", true },
            { "[\\d-z]", true }, { "[a-\\d]", true }, { "[[:alpha:]-z]", true },
            { "[a-[:alpha:]]", true },
            { "[[:alpha:]", false }, { "[[:alp:]]", true },
            { "[[:alpha]", true }, { "[[:ALPHA:]]", true },
            { "[[:alphas:]]", true }, { "[[:^digits:]]", true },
            { "[[::]]", true }, { "[[:", false }, { "[[:alpha:", false },
            { "[^\\x00-\\xff]", true, 0 }, { "[^\\x0-\\x10ffff]", true, 1 },
            { "\"", false }, { "\"ab", false }, { "\\", false },
            { "\\x", false }, { "\\xg", true }, { "[\\x]", true },
            { "\\c", false }, { "\\p", false }, { "\\p{", false },
            { "\\p{L", false }, { "\\p{Foo}", true }, { "\\p{}", true },
            { "\\pL", true }, { "[\\p{Nope}]", true },
            { "\\400", true, 0 }, { "\\x100", true, 0 },
            { "\\x110000", true, 1 },
            { "{2", false }, { "{", false }, { "{2,", false },
            { "{2,3", false }, { "a{0}", true }, { "a{0,0}", true },
            { "a{3,2}", true }, { "a{,2}", true }, { "a{2,b}", true },
            { "a{b2,}", true }, { "{M", false }, { "{Unknown}", true },
            { "{M }", true }, { "{9M}", true },
            { "a**", true }, { "a+*", true }, { "a?*", true }, { "a*+", true },
            { "a{1}{2}", true }, { "a???", true }, { "a*??", true },
            { "(*a)", true }, { "(|a)", true }, { "(a|)", true },
            { "(a||b)", true }, { "()", true }, { "(?:)", true },
            { "(+)", true }, { "(?)", false }, { "(?i", false },
            { "(?q:a)", true }, { "(?i q:a)", true }, { "(?ia)", true },
            { "(?#", false }, { "(?#a", false }, { "(?#a(b)", false },
            { "/", true }, { "a/b", true },
            { "[ab]{-}", false }, { "[ab]{-}c*", false, 2 },
            { "[ab]{-}(c)", true }, { "[ab]{*}", true },
            { "[ab]{-", false }, { "[ab]{-}[ab]", true },
            { "(a){-}[b]", true }, { "[ab]{-}{+}[a]", true },
            { "a*{-}[b]", true }, { "[ab]{+}|b", true },
            { "|", false }, { "||a", true },
        };

        return v;
    }

    template<typename CharT>
    void malformed(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT>;
        Src& s = c.src;
        Flags f;

        f.max = sizeof(CharT) == 1 ? 0xff : sizeof(CharT) == 2 ? 0xffff : 0x10ffff;
        f.wide = sizeof(CharT) > 1;
        f.icase = s.chance(20);
        f.ws = s.chance(20);

        std::vector<cp> alpha = gen_alphabet(s, f.max);
        rx::GenOpts g;

        g.alphabet = alpha;
        g.posix = !f.wide;

        auto part = [&]
        {
            P p = rx::gen(s, g, 2);
            rx::u32 t;

            if (rx::weight(*p) > 12 || rx::has_empty_set(*p, f))
                throw pbt::Discard();

            rx::print(t, *p, s, rx::Style{ true, true }, f, 2);
            return t;
        };

        const Fault& x = s.of(faults());

        if (x.wide == 2 || (x.wide == 0 && f.wide) || (x.wide == 1 && !f.wide))
            throw pbt::Discard();

        // / * would start a comment
        if (f.ws && x.text[0] == '/') throw pbt::Discard();

        rx::u32 bad(x.text, x.text + std::strlen(x.text));
        rx::u32 re;
        unsigned where = static_cast<unsigned>(s.below(x.inside ? 4 : 2));

        switch (where)
        {
        case 0: re = bad; break;
        case 1: re = part() + bad; break;
        case 2: re = part() + U"(" + bad + U")" + part(); break;
        default: re = U"(x|" + bad + U")" + part(); break;
        }

        // a fault that relies on what follows the brackets
        const rx::u32 ok1 = part(), ok2 = part();

        c.desc << "regex " << rx::show(re) << (f.ws ? " skip_ws" : "") <<
            (f.icase ? " icase" : "") << (f.wide ? " wide" : "");
        c.label(x.text);
        c.nontrivial = true;

        Rules rules(rule_flags(f));
        std::basic_string<CharT> r = rx::narrow_to<CharT>(re);

        rules.insert_macro(widen<std::basic_string<CharT>>("M").c_str(),
            rx::narrow_to<CharT>(U"xyz"));

        unsigned how = static_cast<unsigned>(s.below(3));

        try
        {
            if (how == 0) rules.push(r, 1);
            else if (how == 1) rules.push(widen<std::basic_string<CharT>>("*").
                c_str(), r, 1, widen<std::basic_string<CharT>>(".").c_str());
            else rules.insert_macro(widen<std::basic_string<CharT>>("N").
                c_str(), r);

            lexertl::basic_state_machine<CharT> sm;

            // Some faults only show when the regex is parsed
            if (how == 2) rules.push(rx::narrow_to<CharT>(U"{N}"), 2);

            lexertl::basic_generator<Rules,
                lexertl::basic_state_machine<CharT>>::build(rules, sm);
        }
        catch (const lexertl::runtime_error& e)
        {
            pbt::check(*e.what() != 0, "no message");
            return;
        }

        pbt::fail("a malformed regex was accepted");
    }

    // States, names and ids
    bool good_name(const std::string& n)
    {
        auto al = [](char ch)
        {
            return ch == '_' || (ch >= 'a' && ch <= 'z') ||
                (ch >= 'A' && ch <= 'Z');
        };

        if (n.empty() || !al(n[0])) return false;

        for (char ch : n)
            if (!al(ch) && ch != '-' && !(ch >= '0' && ch <= '9'))
                return false;

        return true;
    }

    void names(pbt::Case& c)
    {
        Src& s = c.src;
        lexertl::rules rules;
        std::set<std::string> states{ "INITIAL" }, macros;
        std::vector<std::string> pool{ "INITIAL" };
        static const std::string chars = "aAzZ_-09. *,<>:\xe4@[`{/";

        auto name = [&]
        {
            std::string n;

            switch (s.pick({ 40, 30, 30 }))
            {
            case 0: return s.of(pool);
            case 1:
                for (std::size_t k = 1 + s.below(3); k; --k)
                    n += chars[s.below(chars.size())];

                break;
            default:
                n = std::string(1, "AbZ_"[s.below(4)]);

                for (std::size_t k = s.below(3); k; --k)
                    n += "aZ_-09"[s.below(6)];
            }

            if (n.find('\0') != n.npos) n.clear();

            return n;
        };

        auto expect = [&](bool ok, const std::string& what, auto&& fn)
        {
            c.desc << "\n" << what << (ok ? "" : "   (must fail)");
            c.label(ok ? "accepted" : "refused");

            try
            {
                fn();
            }
            catch (const lexertl::runtime_error& e)
            {
                pbt::check(!ok, what + " was refused: " + e.what());
                return;
            }

            pbt::check(ok, what + " was accepted");
        };

        for (std::size_t i = 3 + s.below(8); i; --i)
        {
            switch (s.below(4))
            {
            case 0:
            {
                std::string n = name();

                expect(good_name(n), "push_state(" + n + ")", [&]
                    {
                        auto id = rules.push_state(n.c_str());

                        states.insert(n);
                        pool.push_back(n);
                        pbt::check(id == rules.state(n.c_str()) ||
                            n == "INITIAL", "push_state returned " +
                            std::to_string(id));
                        pbt::check(std::string(rules.state(rules.state(
                            n.c_str()))) == n, "state(state(" + n + "))");
                    });
                break;
            }
            case 1:
            {
                std::string n = name();

                expect(good_name(n) && !macros.count(n), "insert_macro(" + n +
                    ")", [&]
                    {
                        rules.insert_macro(n.c_str(), "a");
                        macros.insert(n);
                        pool.push_back(n);
                    });
                break;
            }
            case 2:
            {
                std::string n = name();

                if (n.find('}') != n.npos || n.find('{') != n.npos ||
                    n.empty() || n == "-" || n == "+" ||
                    (n[0] >= '0' && n[0] <= '9')) break;

                expect(macros.count(n) != 0, "push({" + n + "})", [&]
                    {
                        rules.push("x{" + n + "}", 1);
                    });
                break;
            }
            default:
            {
                // state list
                std::string cur, next;
                bool ok = true;

                if (s.chance(20)) cur = "*";
                else
                {
                    for (std::size_t k = 1 + s.below(3); k; --k)
                    {
                        std::string n = s.chance(80) ? s.of(pool) : name();

                        if (n.find(',') != n.npos || n == "*") n = "INITIAL";

                        ok = ok && states.count(n);
                        cur += (cur.empty() ? "" : ",") + n;
                    }

                    if (s.chance(10))
                    {
                        ok = false;

                        switch (s.below(4))
                        {
                        case 0: cur += ","; break;
                        case 1: cur = "," + cur; break;
                        case 2: cur += ",,INITIAL"; break;
                        default: cur = ""; break;
                        }
                    }
                }

                auto pick = [&]
                {
                    std::string n = s.chance(75) ? s.of(pool) : name();

                    for (char bad : { '<', '>', ':', '.' })
                        if (n.find(bad) != n.npos) n = "INITIAL";

                    ok = ok && states.count(n);
                    return n;
                };

                switch (s.below(5))
                {
                case 0: next = "."; break;
                case 1: next = "<"; break;
                case 2: next = pick(); break;
                case 3: next = ">" + pick(); break;
                default:
                {
                    std::string a = pick(), b = pick();

                    next = (s.chance(80) ? ">" : "") + a + ":" + b;
                    ok = ok && next[0] == '>';

                    if (s.chance(10))
                    {
                        next = s.chance(50) ? ">" + a + ":" : ">:" + b;
                        ok = false;
                    }
                }
                }

                static const std::vector<std::pair<unsigned, bool>> ids = {
                    { 1, true }, { 7, true }, { 0, false }, { 0xffff, false },
                    { 0xfffe, true } };
                auto id = s.chance(70) ? ids[0] : s.of(ids);
                bool anon = s.chance(20);

                ok = ok && (anon || id.second);
                expect(ok, "push(" + cur + ", a, " + (anon ? "" :
                    std::to_string(id.first) + ", ") + next + ")", [&]
                    {
                        if (anon) rules.push(cur.c_str(), "a", next.c_str());
                        else rules.push(cur.c_str(), "a",
                            static_cast<unsigned short>(id.first),
                            next.c_str());
                    });
                c.nontrivial = true;
            }
            }
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P09", "a rule set with more than two rules or with a fault; "
        "a malformed regex; a rule pushed with state names");

    m.add("rule sets, char", 60000, 900000, sets<char>);
    m.add("rule sets, char32_t", 6000, 90000, sets<char32_t>);
    m.add("malformed regexes, char", 30000, 400000, malformed<char>);
    m.add("malformed regexes, char16_t", 4000, 50000, malformed<char16_t>);
    m.add("malformed regexes, char32_t", 6000, 100000, malformed<char32_t>);
    m.add("names and ids", 40000, 600000, names);
    m.assume("matchability is decided by an independent subset construction "
        "limited to 600 states; rule sets in which $ competes with a newline "
        "are left out");
    return m.run(argc, argv);
}
