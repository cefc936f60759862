// model.hpp - reference lexer (works on rx syntax trees, no automata) and the
// glue that builds the same lexer with lexertl.
#ifndef MODEL_HPP
#define MODEL_HPP

#include "rx.hpp"

#include <lexertl/enums.hpp>
#include <lexertl/generator.hpp>
#include <lexertl/iterator.hpp>
#include <lexertl/lookup.hpp>
#include <lexertl/range.hpp>
#include <lexertl/rules.hpp>
#include <lexertl/state_machine.hpp>

namespace model
{
    using rx::cp;
    using rx::text;
    using rx::Flags;
    using rx::P;
    using pbt::Src;

    constexpr int id_again = 0;      // rule without an id
    constexpr int id_skip = -2;
    constexpr int id_npos = -1;

    // One alternative of a rule.  Only the first one can start with ^ and
    // only the last one can end with $.
    struct Piece
    {
        P re;
        bool bol = false, eol = false;
    };

    struct Rule
    {
        std::vector<int> states{ 0 }; // lexer states the rule belongs to
        bool star = false;            // written as "*"
        P re;
        bool bol = false, eol = false;
        int id = 1;                   // id_again, id_skip or > 0
        int uid = id_npos;
        enum Next { none, same, go, push, pop } next = none;
        int to = 0;                   // go, push: next state
        int ret = -1;                 // push: named return state, or -1
        rx::u32 spelling;             // as passed to the library
        std::vector<Piece> more;      // further alternatives
        bool shortest = false;        // non-greedy: stops as soon as it can,
        P tail;                       // then matches this greedily

        std::vector<Piece> pieces() const
        {
            std::vector<Piece> v{ Piece{ re, bol, eol } };

            v.insert(v.end(), more.begin(), more.end());
            return v;
        }

        bool any_eol() const
        {
            for (auto& p : pieces()) if (p.eol) return true;

            return false;
        }

        bool any_bol() const
        {
            for (auto& p : pieces()) if (p.bol) return true;

            return false;
        }
    };

    inline void spell(Rule& r, Src& s, const rx::Style& st, const Flags& f)
    {
        auto ps = r.pieces();

        r.spelling.clear();

        for (std::size_t i = 0; i < ps.size(); ++i)
        {
            if (i) r.spelling += U'|';
            if (ps[i].bol) r.spelling += U'^';

            rx::print(r.spelling, *ps[i].re, s, st, f, ps[i].bol || ps[i].eol ||
                ps.size() > 1 ? 1 : 0);

            if (ps[i].eol) r.spelling += U'$';
        }
    }

    struct Lexer
    {
        Flags flags;
        std::vector<std::string> states{ "INITIAL" };
        std::vector<std::pair<std::string, rx::u32>> macros;
        std::vector<Rule> rules;

        bool recursive() const
        {
            for (auto& r : rules)
                if (r.next == Rule::push || r.next == Rule::pop) return true;

            return false;
        }
    };

    struct Tok
    {
        int id = 0;
        int uid = id_npos;
        std::size_t first = 0, second = 0;
        int state = 0;
        std::size_t depth = 0;

        bool operator==(const Tok& o) const
        {
            return id == o.id && uid == o.uid && first == o.first &&
                second == o.second && state == o.state && depth == o.depth;
        }
    };

    struct Run
    {
        std::vector<Tok> toks;
        bool underflow = false;
        // classes of behaviour that occurred, for the statistics
        bool unknown = false, skipped = false, again = false, ties = false,
            longest = false, bol_used = false, eol_used = false,
            moved = false, stacked = false;
    };

    inline std::string str(const Tok& t)
    {
        std::ostringstream ss;

        ss << "(id " << t.id << ", user id " << t.uid << ", [" << t.first <<
            "," << t.second << "), state " << t.state << ", depth " <<
            t.depth << ")";
        return ss.str();
    }

    inline std::string str(const std::vector<Tok>& v)
    {
        std::string s;

        for (auto& t : v) s += " " + str(t);

        return s;
    }

    inline std::string describe(const Lexer& l, const text& in)
    {
        std::ostringstream ss;

        ss << "flags:" << (l.flags.icase ? " icase" : "") << (l.flags.dot_nl ?
            " dot_not_newline" : "") << (l.flags.dot_crlf ? " dot_not_cr_lf" :
            "") << (l.flags.ws ? " skip_ws" : "") << " states:";

        for (auto& s : l.states) ss << " " << s;

        for (auto& m : l.macros)
            ss << "\nmacro " << m.first << " = " << rx::show(m.second);

        for (auto& r : l.rules)
        {
            ss << "\nrule " << rx::show(r.spelling) << " id " << r.id <<
                " user id " << r.uid << " in";

            if (r.star) ss << " *";
            else for (int s : r.states) ss << " " << s;

            switch (r.next)
            {
            case Rule::none: ss << " (simple push)"; break;
            case Rule::same: ss << " -> ."; break;
            case Rule::go: ss << " -> " << r.to; break;
            case Rule::push: ss << " -> >" << r.to; if (r.ret >= 0)
                ss << ":" << r.ret; break;
            case Rule::pop: ss << " -> <"; break;
            }
        }

        ss << "\ninput " << pbt::show(in);
        return ss.str();
    }

    // ---- the reference semantics -------------------------------------

    struct Best
    {
        int rule = -1;
        std::size_t end = 0;
        bool tie = false, several = false;
    };

    // Longest match; among equals a rule that is anchored to the end of the
    // line, then the rule that was added first.
    inline Best best_match(const Lexer& l, int state, const text& in,
        std::size_t pos, bool bol)
    {
        Best b;
        bool b_eol = false;
        rx::Bits from;

        from.set(pos);

        for (std::size_t i = 0; i < l.rules.size(); ++i)
        {
            const Rule& r = l.rules[i];

            if (std::find(r.states.begin(), r.states.end(), state) ==
                r.states.end()) continue;

            for (auto& p : r.pieces())
            {
            if (p.bol && !bol) continue;

            rx::Bits e = rx::ends(*p.re, from, l.flags, in);

            if (r.shortest)
            {
                rx::Bits one;

                for (std::size_t k = pos + 1; k <= in.size(); ++k)
                {
                    if (!e[k]) continue;

                    one.set(k);
                    break;
                }

                e = r.tail ? rx::ends(*r.tail, one, l.flags, in) : one;
            }

            for (std::size_t k = in.size() + 1; k-- > pos;)
            {
                if (!e[k]) continue;

                if (p.eol && k < in.size() && in[k] != '\n' && in[k] != '\r')
                    continue;

                if (b.rule >= 0 && b.rule != static_cast<int>(i))
                    b.several = true;

                if (b.rule < 0 || k > b.end)
                {
                    b.rule = static_cast<int>(i);
                    b.end = k;
                    b_eol = p.eol;
                }
                else if (k == b.end && b.rule == static_cast<int>(i))
                {
                    b_eol = b_eol || p.eol;
                }
                else if (k == b.end)
                {
                    b.tie = true;

                    if (p.eol && !b_eol)
                    {
                        b.rule = static_cast<int>(i);
                        b_eol = true;
                    }
                }

                break;
            }
            }
        }

        return b;
    }

    struct Cursor
    {
        std::size_t pos = 0;
        bool bol = true;
        int state = 0;
        std::vector<std::pair<int, int>> stack; // return state, pushing id
    };

    // One call of the lexer.  Returns false on stack underflow.
    inline bool next(const Lexer& l, const text& in, Cursor& c, Tok& t,
        Run& run)
    {
        std::size_t first = c.pos;
        std::size_t at = c.pos;

        for (;;)
        {
            if (at == in.size())
            {
                t.id = 0;
                t.uid = id_npos;
                t.first = first;
                t.second = c.pos;
                t.state = c.state;
                t.depth = c.stack.size();
                return true;
            }

            Best b = best_match(l, c.state, in, at, c.bol);

            if (b.rule < 0)
            {
                run.unknown = true;
                t.id = id_npos;
                t.uid = id_npos;
                t.first = at;
                t.second = c.pos = at + 1;
                c.bol = in[at] == '\n';
                t.state = c.state;
                t.depth = c.stack.size();
                return true;
            }

            const Rule& r = l.rules[static_cast<std::size_t>(b.rule)];
            bool popped = false;

            run.ties |= b.tie;
            run.longest |= b.several;
            run.bol_used |= r.any_bol();
            run.eol_used |= r.any_eol();

            switch (r.next)
            {
            case Rule::none:
                run.moved |= c.state != 0;
                c.state = 0;
                break;
            case Rule::same:
                break;
            case Rule::go:
                run.moved |= c.state != r.to;
                c.state = r.to;
                break;
            case Rule::push:
                run.stacked = true;
                c.stack.emplace_back(r.ret >= 0 ? r.ret : c.state, r.id);
                c.state = r.to;
                break;
            case Rule::pop:
                if (c.stack.empty()) return false;

                run.stacked = true;
                c.state = c.stack.back().first;
                c.stack.pop_back();
                popped = true;
                break;
            }

            if (b.end > at) c.bol = in[b.end - 1] == '\n';

            c.pos = at = b.end;

            if (r.id == id_skip)
            {
                run.skipped = true;
                first = at;
                continue;
            }

            if (r.id == id_again || (popped && !c.stack.empty() &&
                c.stack.back().second == id_again))
            {
                run.again = true;
                continue;
            }

            t.id = r.id;
            t.uid = r.uid;
            t.first = first;
            t.second = at;
            t.state = c.state;
            t.depth = c.stack.size();
            return true;
        }
    }

    // Lex everything.  The final end-of-input token is included.
    inline Run run(const Lexer& l, const text& in, Cursor c = Cursor())
    {
        Run out;

        for (;;)
        {
            Tok t;

            if (!next(l, in, c, t, out))
            {
                out.underflow = true;
                break;
            }

            out.toks.push_back(t);

            if (t.id == 0 && t.first == in.size()) break;

            pbt::check(out.toks.size() <= 4 * in.size() + 8,
                "model: no progress");
        }

        return out;
    }

    // ---- lexertl ------------------------------------------------------

    template<typename S>
    S widen(const std::string& s)
    {
        return S(s.begin(), s.end());
    }

    inline std::size_t rule_flags(const Flags& f, bool zero_len = false,
        bool suppressed = true)
    {
        std::size_t v = 0;

        if (f.icase) v |= *lexertl::regex_flags::icase;
        if (f.dot_nl) v |= *lexertl::regex_flags::dot_not_newline;
        if (f.dot_crlf) v |= *lexertl::regex_flags::dot_not_cr_lf;
        if (f.ws) v |= *lexertl::regex_flags::skip_ws;
        if (zero_len) v |= *lexertl::regex_flags::match_zero_len;
        if (suppressed) v |= *lexertl::regex_flags::allow_suppressed_rules;

        return v;
    }

    template<typename Rules>
    typename Rules::id_type real_id(int id)
    {
        if (id == id_skip) return Rules::skip();
        if (id == id_npos) return Rules::npos();

        return static_cast<typename Rules::id_type>(id);
    }

    template<typename Id>
    int model_id(Id id)
    {
        if (id == static_cast<Id>(~1)) return id_skip;
        if (id == static_cast<Id>(~0)) return id_npos;

        return static_cast<int>(id);
    }

    template<typename Rules>
    void add_states(const Lexer& l, Rules& r)
    {
        using S = typename Rules::string;

        for (std::size_t i = 1; i < l.states.size(); ++i)
            r.push_state(widen<S>(l.states[i]).c_str());
    }

    template<typename Rules>
    void add_rule(const Lexer& l, const Rule& m, Rules& r)
    {
        using S = typename Rules::string;
        using RC = typename Rules::rules_char_type;

        S re = rx::narrow_to<RC>(m.spelling);

        if (m.next == Rule::none)
        {
            r.push(re, real_id<Rules>(m.id), real_id<Rules>(m.uid));
            return;
        }

        std::string cur;

        if (m.star) cur = "*";
        else
        {
            for (int s : m.states)
            {
                if (!cur.empty()) cur += ',';

                cur += l.states[static_cast<std::size_t>(s)];
            }
        }

        std::string nx;

        switch (m.next)
        {
        case Rule::same: nx = "."; break;
        case Rule::go: nx = l.states[static_cast<std::size_t>(m.to)]; break;
        case Rule::push:
            nx = ">" + l.states[static_cast<std::size_t>(m.to)];

            if (m.ret >= 0)
                nx += ":" + l.states[static_cast<std::size_t>(m.ret)];

            break;
        default: nx = "<";
        }

        if (m.id == id_again)
            r.push(widen<S>(cur).c_str(), re, widen<S>(nx).c_str());
        else
            r.push(widen<S>(cur).c_str(), re, real_id<Rules>(m.id),
                widen<S>(nx).c_str(), real_id<Rules>(m.uid));
    }

    template<typename Rules>
    void fill(const Lexer& l, Rules& r)
    {
        using S = typename Rules::string;
        using RC = typename Rules::rules_char_type;

        add_states(l, r);

        for (auto& m : l.macros)
            r.insert_macro(widen<S>(m.first).c_str(),
                rx::narrow_to<RC>(m.second));

        for (auto& m : l.rules) add_rule(l, m, r);
    }

    // Build.  Automata can be exponentially bigger than the rules: a set of
    // rules that is not tiny may exceed the 16 bit state indices, which the
    // library reports; such a case says nothing.
    template<typename Rules, typename SM>
    void build(const Lexer& l, const Rules& rules, SM& sm)
    {
        std::size_t w = 0;

        for (auto& r : l.rules) w += rx::weight(*r.re);

        try
        {
            lexertl::basic_generator<Rules, SM>::build(rules, sm);
        }
        catch (const lexertl::runtime_error& e)
        {
            if (w > 12 && strstr(e.what(), "DFA rows")) throw pbt::Discard();

            throw;
        }
    }

    template<typename R>
    std::size_t depth(const R&, ...)
    {
        return 0;
    }

    template<typename It, typename Id, std::size_t F>
    std::size_t depth(const lexertl::recursive_match_results<It, Id, F>& r,
        int)
    {
        return r.stack.size();
    }

    template<typename Results, typename It>
    Tok tok(const Results& r, const It& begin)
    {
        Tok t;

        t.id = model_id(r.id);
        t.uid = model_id(r.user_id);
        t.first = static_cast<std::size_t>(std::distance(begin, r.first));
        t.second = static_cast<std::size_t>(std::distance(begin, r.second));
        t.state = static_cast<int>(r.state);
        t.depth = depth(r, 0);
        return t;
    }

    // Lex with lookup()
    template<typename Results, typename SM, typename It>
    Run lex(const SM& sm, It b, It e, std::size_t n, int state = 0,
        bool bol = true)
    {
        Run out;
        Results r(b, e);

        r.state = static_cast<typename SM::id_type>(state);
        r.bol = bol;

        for (;;)
        {
            try
            {
                lexertl::lookup(sm, r);
            }
            catch (const lexertl::runtime_error&)
            {
                out.underflow = true;
                break;
            }

            out.toks.push_back(tok(r, b));

            if (r.id == 0 && r.first == r.eoi) break;

            pbt::check(out.toks.size() <= 4 * n + 8,
                "the lexer makes no progress: " + str(out.toks));
        }

        return out;
    }

    template<typename It, typename Id>
    using Plain = lexertl::match_results<It, Id>;
    template<typename It, typename Id>
    using Recursive = lexertl::recursive_match_results<It, Id>;

    template<typename SM, typename S>
    Run lex_any(const SM& sm, const S& in, bool recursive, int state = 0,
        bool bol = true)
    {
        using It = typename S::const_iterator;
        using Id = typename SM::id_type;

        return recursive ?
            lex<Recursive<It, Id>>(sm, in.begin(), in.end(), in.size(),
                state, bol) :
            lex<Plain<It, Id>>(sm, in.begin(), in.end(), in.size(),
                state, bol);
    }

    inline void compare(const Run& want, const Run& got,
        const std::string& what)
    {
        std::size_t n = std::min(want.toks.size(), got.toks.size());

        for (std::size_t i = 0; i < n; ++i)
        {
            if (!(want.toks[i] == got.toks[i]))
                pbt::fail(what + ": token " + std::to_string(i) +
                    " should be " + str(want.toks[i]) + " but is " +
                    str(got.toks[i]) + "\nexpected:" + str(want.toks) +
                    "\nactual:  " + str(got.toks));
        }

        if (want.toks.size() != got.toks.size() ||
            want.underflow != got.underflow)
            pbt::fail(what + ": expected:" + str(want.toks) +
                (want.underflow ? " then stack underflow" : "") +
                "\nactual:  " + str(got.toks) +
                (got.underflow ? " then stack underflow" : ""));
    }

    // Input text that is a mixture of members of the rules' languages,
    // members with a mutation, and noise.
    inline text gen_input(Src& s, const Lexer& l, const std::vector<cp>& alpha,
        std::size_t limit = 60)
    {
        text in;
        std::size_t pieces = 1 + s.below(8);

        for (std::size_t i = 0; i < pieces && in.size() < limit; ++i)
        {
            switch (s.pick({ 50, 20, 30, 8 }))
            {
            case 0:
            case 1:
            {
                text t;

                if (l.rules.empty()) break;

                const Rule& r = l.rules[s.below(l.rules.size())];

                auto ps = r.pieces();

                rx::sample(*s.of(ps).re, l.flags, s, t, 25);

                if (r.any_eol() && s.chance(70))
                {
                    if (s.chance(30)) t.push_back('\r');

                    t.push_back('\n');
                }

                if (s.chance(25) && !t.empty())
                {
                    std::size_t k = s.below(t.size());

                    switch (s.below(3))
                    {
                    case 0: t.erase(t.begin() + static_cast<long>(k)); break;
                    case 1: t[k] = s.of(alpha); break;
                    default: t.insert(t.begin() + static_cast<long>(k),
                        s.of(alpha));
                    }
                }

                in.insert(in.end(), t.begin(), t.end());
                break;
            }
            case 2:
            {
                std::size_t k = 1 + s.below(4);

                for (; k; --k) in.push_back(s.of(alpha));

                break;
            }
            default:
                if (s.chance(30)) in.push_back('\r');

                in.push_back('\n');
            }
        }

        if (in.size() > 200) in.resize(200);

        return in;
    }

    // Alphabets that provoke overlaps and boundaries
    inline std::vector<cp> gen_alphabet(Src& s, cp max)
    {
        switch (s.pick({ 40, 15, 15, 15, max > 0xff ? 15u : 0u,
            max > 0xffff ? 15u : 0u }))
        {
        default:
        case 0: return { 'a', 'b', 'c' };
        case 1: return { 'a', 'b', 'A', 'B', 'z', 'Z', '0', '9', '_' };
        case 2: return { 'x', ' ', '\t', '"', '\\', '[', ']', '(', ')', '{',
            '}', '-', '^', '$', '.', '*', '+', '?', '|', '/', '#', ':', ',' };
        case 3: return { 0, 1, 9, 10, 13, 27, 'a', 0x7e, 0x7f, 0x80, 0x81,
            0xc3, 0xfe, 0xff };
        case 4: return { 'a', 0xff, 0x100, 0x101, 0x1ff, 0x200, 0x7ff, 0x800,
            0xa00, 0xd, 0xa, 0x0a0a, 0xfeff, 0xfffe, 0xffff };
        case 5: return { 'a', 0xff, 0x100, 0x10a, 0xffff, 0x10000, 0x10001,
            0x100ff, 0x10100, 0x1f600, 0x1ffff, 0x20000, 0x2ffff, 0x30000,
            0xe0001, 0x10ffff };
        }
    }
}

#endif
