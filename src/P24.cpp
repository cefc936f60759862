// P24: automaton dumps describe the automaton
#include "dumpfmt.hpp"
#include "lexgen.hpp"

#include <lexertl/debug.hpp>
#include <lexertl/dot.hpp>

using namespace model;
using dumpfmt::ascii;
using dumpfmt::Reader;
using rx::u32;

namespace
{
    template<typename CharT>
    constexpr cp max_of()
    {
        return sizeof(CharT) == 1 ? 0xff : sizeof(CharT) == 2 ? 0xffff :
            0x10ffff;
    }

    template<typename Id>
    Id number(Reader& in)
    {
        const std::size_t n = in.number();
        const Id id = static_cast<Id>(n);

        pbt::check(id == n, "no id: " + std::to_string(n));
        return id;
    }

    template<typename Token>
    Token token(const Reader::Ranges& r)
    {
        using Index = typename Token::index_type;

        Token t;

        for (auto& p : r) t._ranges.emplace_back(static_cast<Index>(p.first),
            static_cast<Index>(p.second));

        return t;
    }

    // The machine that a textual dump describes
    template<typename M>
    M read_text(const u32& dump, std::vector<u32>& names, cp max)
    {
        using Id = typename M::id_type;
        using State = typename M::state;
        using Token = typename State::string_token;

        M m;
        const auto lines = dumpfmt::lines(dump);
        std::size_t k = 0;

        while (k < lines.size())
        {
            Reader in{ lines[k++] };

            in.want("Lexer state: ");
            names.push_back(in.s.substr(in.i));
            m._sm_vector.emplace_back(std::size_t(0));

            auto& d = m._sm_vector.back();
            auto next = [&]() -> const u32&
            {
                if (k == lines.size()) pbt::fail("the dump ends early");

                return lines[k++];
            };

            if (!next().empty()) pbt::fail("no blank line before the states");

            while (k < lines.size() && lines[k].compare(0, 7, U"State: ") == 0)
            {
                Reader head{ next() };

                head.want("State: ");
                pbt::check(head.number() == d._states.size() && head.eof(),
                    "states are not in order");
                d._states.emplace_back();

                State& st = d._states.back();

                for (const u32* l; !(l = &next())->empty();)
                {
                    Reader r{ *l };

                    r.want("  ");

                    if (r.eat("END STATE"))
                    {
                        pbt::check(!st._end_state, "two END STATEs");
                        st._end_state = true;

                        if (r.eat(", PUSH "))
                        {
                            st._push_pop_dfa = State::push_pop_dfa::push_dfa;
                            st._push_dfa = number<Id>(r);
                        }
                        else if (r.eat(", POP"))
                            st._push_pop_dfa = State::push_pop_dfa::pop_dfa;

                        r.want(", Id = ");
                        st._id = number<Id>(r);
                        r.want(", User Id = ");
                        st._user_id = number<Id>(r);
                        r.want(", dfa = ");
                        st._next_dfa = number<Id>(r);
                    }
                    else if (r.eat("BOL -> "))
                    {
                        pbt::check(d._states.size() == 1 && d._bol_index ==
                            M::npos(), "BOL in the wrong place");
                        d._bol_index = number<Id>(r);
                    }
                    else if (r.eat("EOL -> "))
                    {
                        pbt::check(st._eol_index == M::npos(), "two EOLs");
                        st._eol_index = number<Id>(r);
                    }
                    else
                    {
                        const auto set = r.set(max);

                        r.want(" -> ");

                        const Id to = number<Id>(r);

                        pbt::check(st._transitions.emplace(to,
                            token<Token>(set)).second,
                            "two transitions to state " + std::to_string(to));
                    }

                    if (!r.eof()) r.bad("the end of the line");
                }
            }
        }

        return m;
    }

    struct Graph
    {
        struct Node
        {
            u32 name;
            bool end = false;
            std::size_t id = 0;
            std::map<std::size_t, Reader::Ranges> to;
            std::set<std::pair<std::size_t, std::size_t>> dashed;
        };

        std::map<std::pair<std::size_t, std::size_t>, Node> nodes;
    };

    std::pair<std::size_t, std::size_t> node(Reader& in)
    {
        in.want("L");

        const std::size_t dfa = in.number();

        in.want("_S");

        return { dfa, in.number() };
    }

    // Undoes the escapes of a label
    u32 label(const u32& s)
    {
        u32 out;
        Reader in{ s };

        while (!in.eof())
        {
            if (in.eat("&lt;")) out += '<';
            else if (in.eat("&gt;")) out += '>';
            else if (in.eat("&amp;")) out += '&';
            else if (in.eat("&quot;")) out += '"';
            else if (in.is("&") || in.is("<") || in.is(">"))
                in.bad("an HTML entity");
            else if (in.eat("\\"))
            {
                in.want("\\");
                out += '\\';
            }
            else out += in.s[in.i++];
        }

        return out;
    }

    Graph read_dot(const u32& dump, cp max)
    {
        Graph g;
        const auto lines = dumpfmt::lines(dump);

        pbt::check(lines.size() > 3 && lines[0] == U"digraph DFAs {" &&
            lines[1] == U"    rankdir = LR;" && lines.back() == U"}",
            "not a graph");

        for (std::size_t k = 2; k + 1 < lines.size(); ++k)
        {
            if (lines[k].empty()) continue;

            Reader in{ lines[k] };

            in.want("    ");

            const auto n = node(in);

            if (in.eat(" -> "))
            {
                const auto to = node(in);

                pbt::check(g.nodes.count(n), "an edge from a node that does "
                    "not exist: " + rx::show(lines[k]));

                if (in.eat(" [style = \"dashed\"];"))
                {
                    pbt::check(g.nodes[n].dashed.insert(to).second,
                        "two dashed edges");
                }
                else
                {
                    in.want(" [label = <<TABLE BORDER=\"0\" "
                        "CELLBORDER=\"0\"><TR><TD>");

                    const u32 end = U"</TD></TR></TABLE>>];";
                    const std::size_t e = in.s.rfind(end);

                    if (e == u32::npos || e + end.size() != in.s.size())
                        in.bad("the end of a label");

                    Reader set{ label(in.s.substr(in.i, e - in.i)) };

                    if (!set.is("[")) set.bad("[");

                    pbt::check(n.first == to.first,
                        "a transition to another lexer state");
                    pbt::check(g.nodes[n].to.emplace(to.second,
                        set.set(max)).second, "two edges between two nodes");

                    if (!set.eof()) set.bad("the end of the label");

                    in.i = in.s.size();
                }
            }
            else
            {
                pbt::check(!g.nodes.count(n), "a node appears twice");

                auto& x = g.nodes[n];

                in.want(" [shape = ");
                x.end = in.eat("double");
                in.want("circle");

                if (in.eat(", xlabel=\""))
                {
                    if (n.second == 0)
                    {
                        while (!in.eof() && !in.is("\"") && !in.is(","))
                            x.name += in.s[in.i++];

                        if (x.end) in.want(", ");
                    }

                    if (x.end)
                    {
                        in.want("id = ");
                        x.id = in.number();
                    }

                    in.want("\"");
                }
                else if (x.end || n.second == 0) in.bad("a label");

                in.want("];");
            }

            if (!in.eof()) in.bad("the end of the line");
        }

        for (auto& p : g.nodes)
        {
            for (auto& t : p.second.to)
                pbt::check(g.nodes.count({ p.first.first, t.first }),
                    "an edge to a node that does not exist");

            for (auto& t : p.second.dashed)
                pbt::check(g.nodes.count(t),
                    "a dashed edge to a node that does not exist");
        }

        return g;
    }

    template<typename M>
    void same_machine(const M& want, const M& got)
    {
        using State = typename M::state;

        pbt::check(want._sm_vector.size() == got._sm_vector.size(),
            "the dump has " + std::to_string(got._sm_vector.size()) +
            " lexer states");

        for (std::size_t i = 0; i < want._sm_vector.size(); ++i)
        {
            auto &x = want._sm_vector[i], &y = got._sm_vector[i];
            auto in = [&](std::size_t k)
            {
                return " in state " + std::to_string(k) + " of lexer state " +
                    std::to_string(i);
            };

            pbt::check(x._bol_index == y._bol_index, "BOL is wrong" + in(0));
            pbt::check(x._states.size() == y._states.size(), "lexer state " +
                std::to_string(i) + " has " + std::to_string(y._states.size())
                + " states in the dump");

            for (std::size_t k = 0; k < x._states.size(); ++k)
            {
                const State &a = x._states[k], &b = y._states[k];

                pbt::check(a._end_state == b._end_state, "END STATE" + in(k));
                pbt::check(a._eol_index == b._eol_index, "EOL" + in(k));
                pbt::check(a._transitions.size() == b._transitions.size(),
                    "number of transitions" + in(k));

                for (auto& t : a._transitions)
                {
                    auto it = b._transitions.find(t.first);

                    pbt::check(it != b._transitions.end() && it->second ==
                        t.second, "transition to " + std::to_string(t.first) +
                        in(k));
                }

                if (!a._end_state) continue;

                pbt::check(a._push_pop_dfa == b._push_pop_dfa,
                    "PUSH or POP" + in(k));
                pbt::check(a._push_pop_dfa != State::push_pop_dfa::push_dfa ||
                    a._push_dfa == b._push_dfa, "state pushed" + in(k));
                pbt::check(a._id == b._id, "id" + in(k));
                pbt::check(a._user_id == b._user_id, "user id" + in(k));
                pbt::check(a._next_dfa == b._next_dfa, "next dfa" + in(k));
            }
        }
    }

    template<typename M>
    void same_graph(const M& m, const Graph& g,
        const std::vector<std::string>& names)
    {
        using State = typename M::state;

        std::size_t n = 0;

        for (std::size_t i = 0; i < m._sm_vector.size(); ++i)
        {
            auto& d = m._sm_vector[i];

            for (std::size_t k = 0; k < d._states.size(); ++k, ++n)
            {
                const State& st = d._states[k];
                auto it = g.nodes.find({ i, k });
                const std::string at = " of node L" + std::to_string(i) +
                    "_S" + std::to_string(k);

                pbt::check(it != g.nodes.end(), "there is no" + at.substr(3));

                auto& x = it->second;

                pbt::check(x.end == st._end_state, "shape" + at);
                pbt::check(!x.end || x.id == st._id, "id" + at);
                pbt::check(k || x.name == ascii(names[i].c_str()), "name" +
                    at);
                pbt::check(x.to.size() == st._transitions.size(),
                    "number of edges" + at);

                for (auto& t : st._transitions)
                {
                    auto e = x.to.find(t.first);

                    pbt::check(e != x.to.end(), "no edge to " +
                        std::to_string(t.first) + at);

                    Reader::Ranges r;

                    for (auto& p : t.second._ranges)
                        r.emplace_back(static_cast<cp>(p.first),
                            static_cast<cp>(p.second));

                    pbt::check(e->second == r, "characters of the edge to " +
                        std::to_string(t.first) + at);
                }

                const bool dashed = m._sm_vector.size() > 1 && st._end_state &&
                    st._push_pop_dfa != State::push_pop_dfa::pop_dfa;

                pbt::check(x.dashed.size() == (dashed ? 1 : 0) && (!dashed ||
                    *x.dashed.begin() == std::pair<std::size_t, std::size_t>(
                    st._next_dfa, 0)), "dashed edge" + at);
            }
        }

        pbt::check(n == g.nodes.size(), "there are " + std::to_string(
            g.nodes.size()) + " nodes, not " + std::to_string(n));
    }

    template<typename CharT>
    Lexer lexer(pbt::Case& c, std::vector<cp>& alpha)
    {
        Src& s = c.src;
        LexOpts o;

        o.max = max_of<CharT>();
        o.flags = true;
        o.rules = 6;
        o.weight = 10;
        o.states = 3;
        o.posix = false;

        if (s.chance(70))
        {
            o.alphabet = { 'a' };

            for (int i = 0; i < 5; ++i)
            {
                static const std::vector<cp> odd{ '-', '^', ']', '[', '\\',
                    '"', '\'', '<', '>', '&', '0', 'f', 0, 1, 27, 127, 0xff,
                    '\n', '\r', '\t', ' ', '.', '$', 'A', '9' };

                o.alphabet.push_back(s.chance(70) ? s.of(odd) :
                    static_cast<cp>(s.below(sizeof(CharT) == 1 ? 256 :
                    max_of<CharT>() + 1)));
            }
        }

        return gen_lexer(s, o, alpha);
    }

    template<typename CharT, typename Id, bool is_dfa>
    void dumps(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT, Id>;
        using SM = lexertl::basic_state_machine<CharT, Id>;
        using M = lexertl::basic_char_state_machine<CharT, Id, is_dfa>;
        using Debug = lexertl::basic_debug<SM, CharT, Id, is_dfa>;
        using Dot = lexertl::basic_dot<SM, CharT, Id, is_dfa>;
        Src& s = c.src;
        std::vector<cp> alpha;
        Lexer l = lexer<CharT>(c, alpha);
        const bool zero = s.chance(6);
        Rules rules(rule_flags(l.flags, zero));
        M m;
        SM sm;

        // ids of several digits
        for (auto& r : l.rules)
            if (r.id > 0 && s.chance(10)) r.id = static_cast<int>(sizeof(Id)
                == 1 ? 10 + s.below(240) : 10 + s.below(65000));

        c.desc << describe(l, {});
        fill(l, rules);

        if (zero)
        {
            c.label("state 0 matches");
            rules.push(widen<std::basic_string<CharT>>("q*"), 5);
            c.desc << "\nq* as well";
        }

        try
        {
            build(l, rules, m);
            build(l, rules, sm);
        }
        catch (const lexertl::runtime_error& e)
        {
            if (sizeof(Id) == 1 && strstr(e.what(), "cannot hold"))
                throw pbt::Discard();

            throw;
        }

        if (s.chance(20))
        {
            m.minimise();
            sm.minimise();
        }

        const bool from_sm = s.chance(50);
        const cp max = from_sm && sizeof(CharT) > 1 ? 0xff :
            max_of<CharT>();

        c.desc << (from_sm ? "\nof the state machine" :
            "\nof the character machine");

        if (from_sm)
        {
            m.clear();
            lexertl::sm_to_csm(sm, m);
        }

        std::basic_stringstream<CharT> plain, named, dot;

        if (from_sm)
        {
            Debug::dump(sm, plain);
            Debug::dump(sm, rules, named);
            Dot::dump(sm, rules, dot);
        }
        else
        {
            Debug::dump(m, plain);
            Debug::dump(m, rules, named);
            Dot::dump(m, rules, dot);
        }

        const u32 a = dumpfmt::to_u32(plain.str());
        const u32 b = dumpfmt::to_u32(named.str());
        const u32 d = dumpfmt::to_u32(dot.str());

        c.nontrivial = csm::rows(m) > 3;

        if (m._sm_vector.size() > 1) c.label("lexer states");
        if (csm::rows(m) > 10) c.label("more than ten rows");

        // negated sets are relative to all characters, even those that the
        // bytes of a wide machine do not reach
        const cp all = max_of<CharT>();
        std::vector<u32> numbers, names;
        M x, y;

        try
        {
            x = read_text<M>(a, numbers, all);
            same_machine(m, x);
        }
        catch (const pbt::Fail&)
        {
            c.desc << "\n" << rx::show(a);
            throw;
        }

        try
        {
            y = read_text<M>(b, names, all);
            same_machine(m, y);
        }
        catch (const pbt::Fail&)
        {
            c.desc << "\n" << rx::show(b);
            throw;
        }

        for (std::size_t i = 0; i < l.states.size(); ++i)
        {
            pbt::check(numbers[i] == ascii(std::to_string(i).c_str()),
                "number of a lexer state: " + rx::show(numbers[i]));
            pbt::check(names[i] == ascii(l.states[i].c_str()),
                "name of a lexer state: " + rx::show(names[i]));
        }

        try
        {
            same_graph(m, read_dot(d, all), l.states);
        }
        catch (const pbt::Fail&)
        {
            c.desc << "\n" << rx::show(d);
            throw;
        }

        // The machine that has been read back finds the tokens
        if (zero || !is_dfa || max != max_of<CharT>()) return;

        for (int i = 0; i < 3; ++i)
        {
            const text in = gen_input(s, l, alpha);

            c.desc << "\ninput " << pbt::show(in);

            const Run want = from_sm ? lex_any(sm, rx::to_input<CharT>(in),
                true) : csm::run(m, in);

            compare(want, csm::run(x, in), "the machine that the dump shows");

            if (want.toks.size() > 3) c.label("tokens");
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P24", "machines over punctuation, digits, control and high "
        "characters with states, stacks and anchors; textual and Graphviz "
        "dumps are read back and compared with the machine. Non-trivial: more "
        "than three rows");

    m.add("char", 12000, 250000, dumps<char, uint16_t, true>);
    m.add("char, 8 bit ids", 3000, 60000, dumps<char, uint8_t, true>);
    m.add("char, 32 bit ids", 3000, 60000, dumps<char, uint32_t, true>);
    m.add("char, nfa", 2000, 40000, dumps<char, uint16_t, false>);
    m.add("wchar", 3000, 60000, dumps<wchar_t, uint16_t, true>);
    m.add("char32", 3000, 60000, dumps<char32_t, uint16_t, true>);
    return m.run(argc, argv);
}
