// P21: failed operations change nothing; results are deterministic
#include "csm.hpp"
#include "lexgen.hpp"

using namespace model;

namespace
{
    template<typename Rules>
    struct Op
    {
        std::string what;
        std::function<std::string(Rules&)> fn;   // result, for comparison
    };

    template<typename Rules>
    std::string outcome(const Op<Rules>& op, Rules& r, bool& threw)
    {
        threw = false;

        try
        {
            return op.fn(r);
        }
        catch (const lexertl::runtime_error& e)
        {
            threw = true;
            return std::string("throws: ") + e.what();
        }
    }

    template<typename T>
    bool same_token(const T& a, const T& b)
    {
        return a._type == b._type && a._extra == b._extra &&
            a._str == b._str;
    }

    template<typename V>
    bool same_tokens(const V& a, const V& b)
    {
        return std::equal(a.begin(), a.end(), b.begin(), b.end(),
            [](const auto& x, const auto& y)
            {
                return same_token(x, y);
            });
    }

    // Everything that the accessors tell about a rule set
    template<typename Rules>
    void same_rules(const Rules& a, const Rules& b, const std::string& what)
    {
        auto check = [&](bool ok, const char* part)
        {
            if (!ok) pbt::fail(what + ": " + part + " differ from those of "
                "a rule set in which the operations that failed have never "
                "been attempted");
        };

        check(a.statemap() == b.statemap(), "states");
        check(a.ids() == b.ids(), "ids");
        check(a.user_ids() == b.user_ids(), "user ids");
        check(a.next_dfas() == b.next_dfas(), "next states");
        check(a.pushes() == b.pushes(), "pushes");
        check(a.pops() == b.pops(), "pops");
        check(a.features() == b.features(), "features");
        check(a.regex_strings() == b.regex_strings(), "regex strings");
        check(a.flags() == b.flags(), "flags");
        check(a.locale() == b.locale(), "locales");
        check(a.empty() == b.empty(), "empty()");
        check(a.regexes().size() == b.regexes().size(), "lexer states");

        for (std::size_t i = 0; i < a.regexes().size(); ++i)
        {
            check(a.regexes()[i].size() == b.regexes()[i].size(), "rules");

            for (std::size_t k = 0; k < a.regexes()[i].size(); ++k)
                check(same_tokens(a.regexes()[i][k], b.regexes()[i][k]),
                    "rules");
        }

        check(a.macros().size() == b.macros().size(), "macros");

        for (auto x = a.macros().begin(), y = b.macros().begin();
            x != a.macros().end(); ++x, ++y)
            check(x->first == y->first && same_tokens(x->second, y->second),
                "macros");

        for (auto& p : a.statemap())
        {
            const auto *x = a.state(p.second), *y = b.state(p.second);

            check(x && y && p.first == x && p.first == y, "state names");
            check(a.state(p.first.c_str()) == p.second &&
                b.state(p.first.c_str()) == p.second, "state numbers");
        }

        const auto n = static_cast<typename Rules::id_type>(
            a.statemap().size());

        if (n == a.statemap().size() && n != Rules::npos())
            check(!a.state(n) && !b.state(n), "names of states that do not "
                "exist");
    }

    template<typename S>
    S wide(const std::string& s)
    {
        return widen<S>(s);
    }

    // Operations that cannot succeed, or that may
    template<typename Rules>
    Op<Rules> bad_op(Src& s, const Lexer& l, const rx::u32& some)
    {
        using S = typename Rules::string;
        using RC = typename Rules::rules_char_type;
        using Id = typename Rules::id_type;

        static const std::vector<std::string> bad{ "(", ")", "a)", "(a",
            "[", "[]", "[a", "a**", "*", "+a", "a{", "a{2", "a{3,1}",
            "{nope}", "a|*", "\"abc", "[b-a]", "[[:nope:]]", "\\", "a{,}",
            "(?i", "(?z:a)", "[a]{-}[a]", "[a]{-}b*", "a{-}", "ab{-}[a]",
            "^*", "()", "", "(?#", "\\x", "\\p{", "{M}{", "{M}{-}{M}",
            "^a|", "a$|(", "^b(", "c$)", "[^\\0-\\xff]",
            "a??*", "a\n|*", "{M}{nope}" };
        std::string name = s.chance(50) ? s.of(bad) : std::string();
        rx::u32 re;

        if (!name.empty()) re.assign(name.begin(), name.end());
        else
        {
            // something that was good once
            re = some;

            for (std::size_t n = 1 + s.below(2); n && !re.empty(); --n)
            {
                const std::size_t k = s.below(re.size());

                switch (s.below(3))
                {
                case 0: re.erase(k, 1); break;
                case 1: re.insert(k, 1, static_cast<char32_t>(
                    "()[]{}|*+?^$\\-\""[s.below(15)])); break;
                default: re.resize(k);
                }
            }
        }

        // automata must stay small
        for (std::size_t i = re.find(U'{'); i != rx::u32::npos;
            i = re.find(U'{', i + 1))
        {
            std::size_t digits = 0;

            for (std::size_t k = i; k < re.size() && re[k] != '}'; ++k)
                if (re[k] >= '0' && re[k] <= '9') ++digits;

            if (digits > 2) re.clear();
        }

        const S regex = rx::narrow_to<RC>(re);
        const std::string first = l.states[s.below(l.states.size())];
        const std::string state = s.of(std::vector<std::string>{ "NOPE", "",
            "1A", "A B", first + ",NOPE", first + ",", "," + first,
            first + "," + first + ",x y", "NOPE," + first, "*,NOPE", "?",
            "INITIAL,,INITIAL" });
        const std::string next = s.of(std::vector<std::string>{ "NOPE", "",
            ">NOPE", ">", ">:" + first, ">" + first + ":", ">" + first +
            ":NOPE", first + ":" + first, "1", ">NOPE:" + first,
            ">>" + first, first + ":", "*", ">" + first + ":x:y" });
        const auto id = static_cast<Id>(1 + s.below(6));

        switch (s.pick({ 25, 20, 15, 15, 12, 10, 8 }))
        {
        case 0:
            return { "push(" + rx::show(re) + ")", [=](Rules& r)
                { r.push(regex, id); return std::string(); } };
        case 1:
            return { "push(" + first + ", " + rx::show(re) + ")",
                [=](Rules& r)
                {
                    r.push(wide<S>(first).c_str(), regex, id, Rules::dot());
                    return std::string();
                } };
        case 2:
            return { "push(" + state + ", ^a$)", [=](Rules& r)
                {
                    r.push(wide<S>(state).c_str(), wide<S>("^a$"),
                        Rules::skip(), Rules::dot());
                    return std::string();
                } };
        case 3:
            return { "push(" + first + ", ^b$, " + next + ")", [=](Rules& r)
                {
                    r.push(wide<S>(first).c_str(), wide<S>("^b$"), id,
                        wide<S>(next).c_str());
                    return std::string();
                } };
        case 4:
        {
            const std::string n = s.of(std::vector<std::string>{ "M2", "M",
                "1", "", "a b", "N_1" });

            return { "insert_macro(" + n + ", " + rx::show(re) + ")",
                [=](Rules& r)
                {
                    r.insert_macro(wide<S>(n).c_str(), regex);
                    return std::string();
                } };
        }
        case 5:
        {
            const std::string n = s.of(std::vector<std::string>{ "", "1",
                "a b", "*", first, "A,B", ".", ">A", "INITIAL" });

            return { "push_state(" + n + ")", [=](Rules& r)
                {
                    return std::to_string(r.push_state(
                        wide<S>(n).c_str()));
                } };
        }
        default:
        {
            const Id no = s.chance(50) ? Rules::npos() : Rules::eoi();

            if (s.chance(50))
                return { "push(^a$, id " + std::to_string(no) + ")",
                    [=](Rules& r)
                    {
                        r.push(wide<S>("^a$"), no);
                        return std::string();
                    } };

            return { "push(" + first + ", ^a$, id " + std::to_string(no) +
                ", <)", [=](Rules& r)
                {
                    r.push(wide<S>(first).c_str(), wide<S>("^a$"), no,
                        wide<S>("<").c_str());
                    return std::string();
                } };
        }
        }
    }

    template<typename Rules, typename SM>
    std::string build_it(const Rules& r, SM& sm)
    {
        try
        {
            lexertl::basic_generator<Rules, SM>::build(r, sm);
        }
        catch (const lexertl::runtime_error& e)
        {
            return e.what();
        }

        return std::string();
    }

    template<typename SM>
    void same_machines(Src& s, const Lexer& l, const std::vector<cp>& alpha,
        const SM& a, const SM& b, pbt::Case& c, const std::string& what)
    {
        using CharT = typename SM::traits::input_char_type;
        const std::size_t states = a.data()._dfa.size();

        pbt::check(states == b.data()._dfa.size(), what +
            ": the machines have different numbers of states");
        pbt::check(a.data()._features == b.data()._features, what +
            ": features");

        for (int i = 0; i < 3; ++i)
        {
            text in = gen_input(s, l, alpha);
            const int state = static_cast<int>(s.below(states));

            c.desc << "\ninput " << pbt::show(in) << " in " << state;

            const auto str = rx::to_input<CharT>(in);
            const Run x = lex_any(a, str, true, state);

            compare(x, lex_any(b, str, true, state), what);

            if (x.toks.size() > 2) c.label("tokens");
        }
    }

    template<typename CharT, typename Id = uint16_t>
    void history(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT, Id>;
        using SM = lexertl::basic_state_machine<CharT, Id>;
        using M = lexertl::basic_char_state_machine<CharT, Id>;
        using S = std::basic_string<CharT>;
        Src& s = c.src;
        LexOpts o;

        o.max = sizeof(CharT) == 1 ? 0xff : 0x10ffff;
        o.flags = true;
        o.rules = 4;
        o.weight = 10;
        o.states = 3;

        std::vector<cp> alpha;
        Lexer l = gen_lexer(s, o, alpha);
        const std::size_t flags = rule_flags(l.flags, false, s.chance(70));

        // the operations that make the lexer, in order
        std::vector<Op<Rules>> good;

        for (std::size_t i = 1; i < l.states.size(); ++i)
        {
            const std::string n = l.states[i];

            good.push_back({ "push_state(" + n + ")", [n](Rules& r)
                {
                    return std::to_string(r.push_state(
                        wide<S>(n).c_str()));
                } });
        }

        if (s.chance(50))
        {
            good.push_back({ "insert_macro(M, a|^b)", [](Rules& r)
                {
                    r.insert_macro(wide<S>("M").c_str(),
                        wide<S>("a|^b"));
                    return std::string();
                } });
            good.push_back({ "push({M}b)", [](Rules& r)
                {
                    r.push(wide<S>("{M}b"), 3);
                    return std::string();
                } });
        }

        for (auto& rule : l.rules)
            good.push_back({ "rule " + rx::show(rule.spelling), [&l, rule]
                (Rules& r)
                {
                    add_rule(l, rule, r);
                    return std::string();
                } });

        if (s.chance(15))
        {
            good.push_back({ "flags", [](Rules& r)
                {
                    r.flags(r.flags() ^ *lexertl::regex_flags::icase);
                    return std::string();
                } });
        }

        if (s.chance(10) && !good.empty())
        {
            const auto k = static_cast<Id>(s.below(3));

            good.insert(good.begin() + static_cast<long>(s.below(
                good.size())), { "clear(" + std::to_string(k) + ")",
                [k](Rules& r)
                {
                    r.clear(k);
                    return std::string();
                } });
        }

        c.desc << describe(l, {});

        // rules has seen everything, shadow only what succeeded
        Rules rules(flags), shadow(flags);
        SM used, kept;
        M used_m;
        std::size_t failed = 0, after = 0;
        bool sm_used = false;
        auto apply = [&](const Op<Rules>& op)
        {
            bool threw, threw2;
            Rules trial = shadow;
            const std::string x = outcome(op, rules, threw);
            const std::string y = outcome(op, trial, threw2);

            c.desc << "\n" << op.what << (threw ? " fails" : "");
            pbt::check(x == y, op.what + ": " + (x.empty() ? "succeeds" :
                x) + ", but without the earlier failures: " + (y.empty() ?
                "succeeds" : y));

            if (!threw) shadow = std::move(trial);
            else ++failed;

            if (!threw && failed) ++after;

            same_rules(rules, shadow, op.what);
        };
        auto build_both = [&](const std::string& what)
        {
            SM fresh;
            const std::string x = build_it(rules, used);
            const std::string y = build_it(shadow, fresh);

            c.desc << "\nbuild" << (x.empty() ? "" : " fails");
            pbt::check(x == y, what + ": " + (x.empty() ? "builds" : x) +
                ", but without the failed operations: " + (y.empty() ?
                "builds" : y));

            if (x.empty())
            {
                if (sm_used) c.label("built into a used machine");

                same_machines(s, l, alpha, fresh, used, c, what);

                SM again;

                pbt::check(build_it(rules, again).empty(), what +
                    ": builds once only");
                same_machines(s, l, alpha, fresh, again, c, "built twice");
                sm_used = true;
                kept = used;
            }
            else if (sm_used)
            {
                // a build that fails leaves the machine as it was
                c.label("failed build into a used machine");
                same_machines(s, l, alpha, kept, used, c, "after a build "
                    "that failed");
            }

            M fresh_m;
            const std::string xm = build_it(rules, used_m);
            const std::string ym = build_it(shadow, fresh_m);

            pbt::check(xm == ym, what + ": character machine: " +
                xm + " or " + ym);

            if (xm.empty())
            {
                text in = gen_input(s, l, alpha);

                c.desc << "\ninput " << pbt::show(in);
                compare(csm::run(fresh_m, in), csm::run(used_m, in), what +
                    ", character machine");
            }
        };

        for (int round = 0; round < 2; ++round)
        {
            for (auto& op : good)
            {
                while (s.chance(35))
                    apply(bad_op<Rules>(s, l, s.of(l.rules).spelling));

                apply(op);

                if (s.chance(6)) build_both("half way");
            }

            if (s.chance(60))
                apply(bad_op<Rules>(s, l, s.of(l.rules).spelling));

            build_both("in the end");

            if (round || !s.chance(15)) break;

            // all of it again
            rules.clear();
            shadow = Rules();
            c.desc << "\nclear()";
            c.label("clear()");
            same_rules(rules, shadow, "clear()");
            rules.flags(flags);
            shadow.flags(flags);

            if (s.chance(50))
            {
                used.clear();
                pbt::check(used.empty(), "clear() of a machine leaves "
                    "something");
                used_m.clear();
                pbt::check(used_m.empty(), "clear() of a machine leaves "
                    "something");
                sm_used = false;
            }
        }

        c.nontrivial = failed > 0 && after > 0;

        if (sm_used)
        {
            // copies, moves and swaps
            SM copy = kept, other, moved = SM(copy);

            pbt::check(!kept.empty(), "empty() of a machine");
            other.swap(copy);
            pbt::check(copy.empty(), "swap() with an empty machine");
            same_machines(s, l, alpha, kept, other, c, "swapped copy");
            other.clear();
            pbt::check(other.empty(), "clear() of a machine");
            same_machines(s, l, alpha, kept, moved, c, "moved copy");
        }
    }

    // As many lexer states as the id type can number, and more
    void full(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<char, char, std::uint8_t>;
        using SM = lexertl::basic_state_machine<char, std::uint8_t>;
        Src& s = c.src;
        Rules rules;
        std::vector<std::string> names{ "INITIAL" };
        const std::size_t n = 250 + s.below(10);
        std::size_t refused = 0;

        for (std::size_t i = 0; i < n; ++i)
        {
            const std::string name = s.chance(3) ? s.of(names) :
                "S" + std::to_string(i);
            const auto it = std::find(names.begin(), names.end(), name);
            std::string error;
            std::size_t id = 0;

            try
            {
                id = rules.push_state(name.c_str());
            }
            catch (const lexertl::runtime_error& e)
            {
                error = e.what();
            }

            c.desc << name << (error.empty() ? " " : " (refused) ");

            if (it != names.end())
            {
                pbt::check(error.empty(), "a known state is refused: " +
                    error);
                pbt::check(id == static_cast<std::size_t>(it -
                    names.begin()), "state " + name + " is number " +
                    std::to_string(id));
            }
            else if (names.size() < 255)
            {
                pbt::check(error.empty(), "state number " +
                    std::to_string(names.size()) + " is refused: " + error);
                pbt::check(id == names.size(), "state " + name +
                    " is number " + std::to_string(id));
                names.push_back(name);
            }
            else
            {
                pbt::check(!error.empty(), "255 states are there already");
                pbt::check(rules.state(name.c_str()) == Rules::npos(),
                    "the state that was refused is there");
                ++refused;
            }

            pbt::check(rules.statemap().size() == names.size() &&
                rules.regexes().size() == names.size(), "there are " +
                std::to_string(rules.statemap().size()) + " states, not " +
                std::to_string(names.size()));
        }

        c.nontrivial = refused > 0;

        for (std::size_t i = 0; i < names.size(); ++i)
            rules.push(names[i].c_str(), "a", 1, names[(i + 1) %
                names.size()].c_str());

        SM sm;

        lexertl::basic_generator<Rules, SM>::build(rules, sm);

        const std::string in(300, 'a');
        lexertl::match_results<std::string::const_iterator, std::uint8_t>
            r(in.begin(), in.end());

        for (std::size_t i = 0; i < in.size(); ++i)
        {
            lexertl::lookup(sm, r);
            pbt::check(r.id == 1 && r.state == (i + 1) % names.size(),
                "in state " + std::to_string(r.state) + " after " +
                std::to_string(i + 1) + " tokens");
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P21", "histories of operations on a rule set, of which some "
        "fail, next to a rule set that has only seen the others; builds in "
        "between, into used machines. Non-trivial: an operation succeeded "
        "after another had failed");

    m.add("char", 20000, 400000, history<char>);
    m.add("char32", 8000, 150000, history<char32_t>);
    m.add("wchar, 32 bit ids", 3000, 60000, history<wchar_t, uint32_t>);
    m.add("char, 64 bit ids", 3000, 60000, history<char, std::uint64_t>);
    m.add("number of states", 300, 5000, full);
    return m.run(argc, argv);
}
