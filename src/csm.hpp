// csm.hpp - interpreter for character state machines, with the semantics of
// lookup(): longest match, state stack, skip and again.
#ifndef CSM_HPP
#define CSM_HPP

#include "model.hpp"

namespace csm
{
    using model::Run;
    using model::Tok;
    using model::text;
    using rx::cp;

    struct Start
    {
        int state = 0;
        bool bol = true;
    };

    // The character as the machine's index type sees it
    template<typename Token>
    bool has(const Token& t, cp ch)
    {
        for (auto& r : t._ranges)
            if (static_cast<cp>(r.first) <= ch && ch <=
                static_cast<cp>(r.second)) return true;

        return false;
    }

    template<typename Machine>
    struct Interp
    {
        using Id = typename Machine::id_type;
        using State = typename Machine::state;
        const Machine& m;
        // units(ch): what one character consists of for the machine
        std::vector<cp> (*units)(cp) = nullptr;

        const State* step(std::size_t dfa, const State* st, cp ch) const
        {
            const State* to = nullptr;

            for (auto& t : st->_transitions)
            {
                if (!has(t.second, ch)) continue;

                pbt::check(!to, "two transitions for character " +
                    std::to_string(ch));
                pbt::check(t.first < m._sm_vector[dfa]._states.size(),
                    "transition to a state that does not exist");
                to = &m._sm_vector[dfa]._states[t.first];
            }

            return to;
        }

        const State& at(std::size_t dfa, Id i) const
        {
            pbt::check(dfa < m._sm_vector.size(), "no such lexer state");
            pbt::check(i < m._sm_vector[dfa]._states.size(),
                "no such state in the machine");
            return m._sm_vector[dfa]._states[i];
        }

        // Longest match from `at_`; nullptr when there is none
        const State* longest(const text& in, std::size_t pos,
            std::size_t state, bool bol, std::size_t& end) const
        {
            const auto& d = m._sm_vector.at(state);
            const State* st = &at(state, bol && d._bol_index != Machine::npos()
                ? d._bol_index : Id(0));
            // A rule that is nothing but ^ matches nothing: as in lookup(),
            // only the other start state can match no characters
            const State* best = at(state, 0)._end_state ? &at(state, 0) :
                nullptr;

            end = pos;

            for (std::size_t i = pos;;)
            {
                bool nl = i == in.size() || in[i] == '\n' || in[i] == '\r';

                if (nl && st->_eol_index != Machine::npos())
                {
                    st = &at(state, st->_eol_index);
                }
                else
                {
                    if (i == in.size()) break;

                    std::vector<cp> us = units ? units(in[i]) :
                        std::vector<cp>{ in[i] };

                    for (cp u : us)
                    {
                        st = step(state, st, u);

                        if (!st) break;
                    }

                    if (!st) break;

                    ++i;
                }

                if (st->_end_state)
                {
                    best = st;
                    end = i;
                }
            }

            return best;
        }
    };

    template<typename Machine>
    Run run(const Machine& m, const text& in, const Start& start = Start(),
        std::vector<cp> (*units)(cp) = nullptr)
    {
        using State = typename Machine::state;
        using PP = typename State::push_pop_dfa;

        Interp<Machine> it{ m, units };
        Run out;
        std::size_t pos = 0;
        bool bol = start.bol;
        int state = start.state;
        std::vector<std::pair<int, int>> stack;

        for (;;)
        {
            Tok t;
            std::size_t first = pos;
            std::size_t at = pos;

            for (;;)
            {
                if (at == in.size())
                {
                    t.id = 0;
                    t.uid = model::id_npos;
                    t.first = first;
                    t.second = pos;
                    break;
                }

                std::size_t end = at;
                const State* s = it.longest(in, at,
                    static_cast<std::size_t>(state), bol, end);

                if (!s)
                {
                    t.id = t.uid = model::id_npos;
                    t.first = at;
                    t.second = pos = at + 1;
                    bol = in[at] == '\n';
                    break;
                }

                bool popped = false;

                if (s->_push_pop_dfa == PP::pop_dfa)
                {
                    if (stack.empty())
                    {
                        out.underflow = true;
                        return out;
                    }

                    state = stack.back().first;
                    stack.pop_back();
                    popped = true;
                }
                else
                {
                    if (s->_push_pop_dfa == PP::push_dfa)
                        stack.emplace_back(static_cast<int>(s->_push_dfa),
                            model::model_id(s->_id));

                    state = static_cast<int>(s->_next_dfa);
                }

                if (end > at) bol = in[end - 1] == '\n';

                pos = at = end;

                const int id = model::model_id(s->_id);

                if (id == model::id_skip)
                {
                    first = at;
                    continue;
                }

                if (id == 0 || (popped && !stack.empty() &&
                    stack.back().second == 0)) continue;

                t.id = id;
                t.uid = model::model_id(s->_user_id);
                t.first = first;
                t.second = at;
                break;
            }

            t.state = state;
            t.depth = stack.size();
            out.toks.push_back(t);

            if (t.id == 0 && t.first == in.size()) break;

            pbt::check(out.toks.size() <= 4 * in.size() + 8,
                "the character machine makes no progress");
        }

        return out;
    }

    template<typename Machine>
    std::size_t rows(const Machine& m)
    {
        std::size_t n = 0;

        for (auto& d : m._sm_vector) n += d._states.size();

        return n;
    }

    template<typename Machine>
    bool equal(const Machine& a, const Machine& b)
    {
        if (a._sm_vector.size() != b._sm_vector.size()) return false;

        for (std::size_t i = 0; i < a._sm_vector.size(); ++i)
        {
            if (a._sm_vector[i]._bol_index != b._sm_vector[i]._bol_index ||
                !(a._sm_vector[i]._states == b._sm_vector[i]._states))
                return false;
        }

        return true;
    }

    template<typename SM>
    std::size_t sm_rows(const SM& sm)
    {
        std::size_t n = 0;

        for (std::size_t i = 0; i < sm.data()._dfa.size(); ++i)
            n += sm.data()._dfa[i].size() / sm.data()._dfa_alphabet[i];

        return n;
    }

    template<typename SM>
    bool sm_equal(const SM& a, const SM& b)
    {
        auto &x = a.data(), &y = b.data();

        return x._eoi == y._eoi && x._lookup == y._lookup &&
            x._dfa_alphabet == y._dfa_alphabet &&
            x._features == y._features && x._dfa == y._dfa;
    }
}

#endif
