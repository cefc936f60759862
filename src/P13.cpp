// P13: character state machines against lookup machines
#include "csm.hpp"
#include "lexgen.hpp"

#include <lexertl/sm_to_csm.hpp>

using namespace model;

namespace
{
    template<typename CharT>
    constexpr cp max_of()
    {
        return sizeof(CharT) == 1 ? 0xff : sizeof(CharT) == 2 ? 0xffff :
            0x10ffff;
    }

    LexOpts options(Src& s, cp max)
    {
        LexOpts o;

        o.max = max;
        o.states = 3;
        o.rules = 5;
        o.flags = true;
        o.twins = s.chance(30) ? 40 : 0;
        o.depth = s.chance(70) ? 2 : 1;
        o.weight = 10;
        return o;
    }

    // Every state: sets of characters that are normalised and disjoint,
    // indices that exist, fields that are in range
    template<typename M>
    void well_formed(const M& m, cp max, std::size_t states)
    {
        using State = typename M::state;

        pbt::check(m._sm_vector.size() == states && m.size() == states &&
            m.empty() == (states == 0), "wrong number of lexer states");

        for (auto& d : m._sm_vector)
        {
            const std::size_t n = d._states.size();

            pbt::check(n > 0 && n == d.size(), "empty machine");
            pbt::check(d._bol_index == M::npos() || d._bol_index < n,
                "^ state that does not exist");

            for (auto& s : d._states)
            {
                std::vector<std::pair<cp, cp>> all;

                pbt::check(s._eol_index == M::npos() || s._eol_index < n,
                    "$ state that does not exist");

                if (s._end_state)
                {
                    pbt::check(s._push_pop_dfa == State::push_pop_dfa::pop_dfa
                        || s._next_dfa < states, "no such next state");
                    pbt::check((s._push_pop_dfa ==
                        State::push_pop_dfa::push_dfa) == (s._push_dfa !=
                        M::npos()), "push and push state differ");
                    pbt::check(s._push_dfa == M::npos() || s._push_dfa <
                        states, "no such push state");
                }

                for (auto& t : s._transitions)
                {
                    pbt::check(t.first < n, "no such state");
                    pbt::check(!t.second.empty(), "empty charset");

                    for (std::size_t i = 0; i < t.second._ranges.size(); ++i)
                    {
                        auto& r = t.second._ranges[i];

                        pbt::check(r.first <= r.second && static_cast<cp>(
                            r.second) <= max, "bad range");
                        pbt::check(!i || static_cast<cp>(t.second._ranges[
                            i - 1].second) + 1 < static_cast<cp>(r.first),
                            "charset not normalised");
                        all.emplace_back(r.first, r.second);
                    }
                }

                std::sort(all.begin(), all.end());

                for (std::size_t i = 1; i < all.size(); ++i)
                    pbt::check(all[i - 1].second < all[i].first,
                        "transitions of a state overlap");
            }
        }
    }

    bool any_eol(const Lexer& l)
    {
        for (auto& r : l.rules) if (r.any_eol()) return true;

        return false;
    }

    template<typename F>
    void inputs(pbt::Case& c, const Lexer& l, const std::vector<cp>& alpha,
        F f)
    {
        for (int i = 0; i < 8; ++i)
        {
            text in = gen_input(c.src, l, alpha);
            Cursor from;

            from.state = static_cast<int>(c.src.below(l.states.size()));
            from.bol = c.src.chance(70);
            c.desc << "\nfrom state " << from.state << " bol " << from.bol <<
                " input " << pbt::show(in);

            Run want = run(l, in, from);

            f(in, want, from);
            run_labels(c, want);

            if (want.toks.size() > 2 && (want.longest || want.moved ||
                want.stacked || want.eol_used || want.bol_used))
                c.nontrivial = true;
        }
    }

    // Built from the rules
    template<typename CharT, typename Id = uint16_t>
    void built(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT, Id>;
        using M = lexertl::basic_char_state_machine<CharT, Id>;
        using SM = lexertl::basic_state_machine<CharT, Id>;
        Src& s = c.src;
        std::vector<cp> alpha;
        Lexer l = gen_lexer(s, options(s, max_of<CharT>()), alpha);

        if (max_of<CharT>() > 0xff && any_eol(l) && nfa::newline_clash(l, 400))
            throw pbt::Discard();

        Rules rules(rule_flags(l.flags));
        M m;
        SM sm;

        c.desc << describe(l, {});
        fill(l, rules);

        try
        {
            build(l, rules, m);
            build(l, rules, sm);
        }
        catch (const lexertl::runtime_error& e)
        {
            if (sizeof(Id) == 1 && strstr(e.what(), "cannot hold"))
                throw pbt::Discard();

            throw;
        }

        well_formed(m, max_of<CharT>(), l.states.size());

        if (s.chance(30)) m.minimise();

        inputs(c, l, alpha, [&](const text& in, const Run& want,
            const Cursor& from)
        {
            Run got = csm::run(m, in, { from.state, from.bol });

            compare(want, got, "character machine against the model");
            compare(lex_any(sm, rx::to_input<CharT>(in), true, from.state,
                from.bol), got, "character machine against lookup");
        });
    }

    std::vector<cp> bytes2(cp ch)
    {
        return { ch >> 8, ch & 0xff };
    }

    std::vector<cp> bytes3(cp ch)
    {
        return { ch >> 16, ch >> 8 & 0xff, ch & 0xff };
    }

    // Converted from a lookup machine.  A wide one works on bytes.
    template<typename CharT, typename Id = uint16_t>
    void converted(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT, Id>;
        using M = lexertl::basic_char_state_machine<CharT, Id>;
        using SM = lexertl::basic_state_machine<CharT, Id>;
        Src& s = c.src;
        std::vector<cp> alpha;
        Lexer l = gen_lexer(s, options(s, max_of<CharT>()), alpha);
        Rules rules(rule_flags(l.flags));
        M m;
        SM sm;

        c.desc << describe(l, {});
        fill(l, rules);

        try
        {
            build(l, rules, sm);
        }
        catch (const lexertl::runtime_error& e)
        {
            if (sizeof(Id) == 1 && strstr(e.what(), "cannot hold"))
                throw pbt::Discard();

            throw;
        }

        if (s.chance(30))
        {
            sm.minimise();
            c.label("minimised first");
        }

        lexertl::sm_to_csm(sm, m);
        well_formed(m, 0xff, l.states.size());

        // One state for each row but the first, in order
        for (std::size_t i = 0; i < l.states.size(); ++i)
        {
            auto& d = sm.data()._dfa[i];
            const std::size_t w = sm.data()._dfa_alphabet[i];

            pbt::check(m._sm_vector[i].size() == d.size() / w - 1,
                "wrong number of states");
        }

        inputs(c, l, alpha, [&](const text& in, const Run& want,
            const Cursor& from)
        {
            Run got = csm::run(m, in, { from.state, from.bol },
                sizeof(CharT) == 1 ? nullptr : sizeof(CharT) == 2 ? bytes2 :
                bytes3);

            compare(want, got, "converted machine against the model");
            compare(lex_any(sm, rx::to_input<CharT>(in), true, from.state,
                from.bol), got, "converted machine against lookup");
        });
    }

    // is_dfa = false: a state may have several transitions for a character
    void nfa_shared()
    {
        using M = lexertl::basic_char_state_machine<char, uint16_t, false>;

        lexertl::rules rules;
        M m;

        rules.push("ab|ac", 1);
        lexertl::basic_generator<lexertl::rules, M>::build(rules, m);

        for (auto word : { "ab", "ac" })
        {
            std::set<std::size_t> at{ 0 };

            for (const char* p = word; *p; ++p)
            {
                std::set<std::size_t> to;

                for (auto i : at)
                    for (auto& t : m._sm_vector[0]._states[i]._transitions)
                        if (csm::has(t.second, static_cast<cp>(*p)))
                            to.insert(t.first);

                at = to;
            }

            bool end = false;

            for (auto i : at) end = end || m._sm_vector[0]._states[i].
                _end_state;

            pbt::check(end, std::string("the NFA does not accept ") + word);
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P13", "multi-state lexers with anchors, flags, pushes, skip "
        "and again, as a character machine built from the rules and as one "
        "converted from the lookup machine (also minimised), executed by an "
        "interpreter on eight inputs from any state and line position; "
        "non-trivial: at least two tokens and rules that competed, changed "
        "the state or stack or were anchored");

    m.add("char built", 50000, 1000000, built<char>);
    m.add("char32 built", 20000, 400000, built<char32_t>);
    m.add("char16 built", 6000, 120000, built<char16_t>);
    m.add("char built 8 bit ids", 6000, 120000, built<char, uint8_t>);
    m.add("char built size_t ids", 4000, 80000, built<char, std::size_t>);
    m.add("char converted", 40000, 800000, converted<char>);
    m.add("char converted 8 bit ids", 5000, 100000, converted<char, uint8_t>);
    m.add("char16 converted", 5000, 100000, converted<char16_t>);
    m.add("char32 converted", 5000, 100000, converted<char32_t>);
    m.known("nfa-shared-charset", "a char_state_machine with is_dfa = false "
        "built from ab|ac does not accept ab", nfa_shared);
    return m.run(argc, argv);
}
