// lexgen.hpp - generator of whole lexers: states, stacks, anchors
#ifndef LEXGEN_HPP
#define LEXGEN_HPP

#include "nfa.hpp"

namespace model
{
    struct LexOpts
    {
        cp max = 0xff;
        std::size_t states = 3;      // at most
        std::size_t rules = 5;       // per lexer, at most
        bool anchors = true;
        bool stack = true;           // push and pop
        bool again = true, skip = true, uids = true;
        bool flags = false;          // icase, skip_ws, dot flags
        bool options = true;         // (?i: ...)
        bool posix = true;           // in narrow lexers
        int depth = 2;
        std::size_t weight = 12;     // per rule
        bool plain_ids = false;      // ids 1..n in order
        std::vector<cp> alphabet;    // empty: pick one
        unsigned twins = 0;          // % of rules that differ from an earlier
                                     // one by a prefix and at most one field
    };

    inline Rule twin(Src& s, const Rule& from, const LexOpts& o,
        const std::vector<cp>& alpha, std::size_t n_states)
    {
        Rule r = from;
        auto state = [&] { return static_cast<int>(s.below(n_states)); };

        r.more.clear();
        r.re = rx::seq({ rx::chr(s.of(alpha)), r.re });

        switch (s.below(8))
        {
        case 0: break;
        case 1:
            if (r.id == id_again) break;

            r.id = static_cast<int>(1 + s.below(6));
            break;
        case 2:
            if (r.id != id_again && o.skip) r.id = id_skip;
            break;
        case 3:
            if (r.id != id_again && o.uids)
                r.uid = static_cast<int>(s.below(5));
            break;
        case 4:
            if (r.next == Rule::none || (r.next == Rule::pop && !o.stack))
                break;

            r.ret = -1;
            r.next = static_cast<Rule::Next>(s.pick({ 0, 20, 30u,
                o.stack ? 20u : 0u, o.stack ? 20u : 0u }));

            if (r.next == Rule::go || r.next == Rule::push) r.to = state();
            break;
        case 5:
            if (r.next == Rule::push)
            {
                if (s.chance(50)) r.to = state();
                else r.ret = state();
            }
            break;
        case 6:
            if (o.anchors) r.eol = !r.eol;
            break;
        default:
            if (o.anchors) r.bol = !r.bol;
        }

        return r;
    }

    inline Lexer gen_lexer(Src& s, const LexOpts& o, std::vector<cp>& alpha)
    {
        Lexer l;

        l.flags.max = o.max;
        l.flags.wide = o.max > 0xff;

        if (o.flags)
        {
            l.flags.icase = s.chance(15);
            l.flags.ws = s.chance(15);
            l.flags.dot_nl = !s.chance(20);
        }

        if (!o.alphabet.empty()) alpha = o.alphabet;
        else if (s.chance(60)) alpha = { 'a', 'b', '\n' };
        else if (o.max > 0xff && s.chance(50)) alpha = { 'a', 0x161, 0x10a,
            0xa00, '\n', o.max > 0xffff ? 0x1f600u : 0xffffu };
        else alpha = { 'a', 'b', 'c', '(', ')', '\r', '\n' };

        static const std::vector<std::string> names = { "INITIAL", "B", "C_2",
            "D-d", "_e" };
        const std::size_t n_states = 1 + s.below(o.states);

        for (std::size_t i = 1; i < n_states; ++i) l.states.push_back(names[i]);

        rx::GenOpts g;

        g.alphabet = alpha;
        g.posix = o.posix && o.max == 0xff;
        g.rep_max = 3;
        g.options = o.options;

        auto part = [&]
        {
            P p = rx::gen(s, g, o.depth);

            if (rx::nullable(*p)) p = rx::seq({ p, rx::chr(s.of(alpha)) });

            return p;
        };

        auto state = [&]
        {
            return static_cast<int>(s.below(n_states));
        };

        std::size_t n = 1 + s.below(o.rules);
        // every state needs a rule
        std::vector<bool> has(n_states);

        for (std::size_t i = 0; i < n || std::find(has.begin(), has.end(),
            false) != has.end(); ++i)
        {
            Rule r;

            if (o.twins && i < n && !l.rules.empty() && s.chance(o.twins))
            {
                r = twin(s, s.of(l.rules), o, alpha, n_states);

                for (int k : r.states) has[static_cast<std::size_t>(k)] = true;

                spell(r, s, rx::Style{ true, true }, l.flags);

                for (auto& p : r.pieces())
                    if (rx::weight(*p.re) > o.weight) throw pbt::Discard();

                l.rules.push_back(r);
                continue;
            }

            r.re = part();

            if (o.anchors)
            {
                r.bol = s.chance(15);
                r.eol = s.chance(15);

                if (s.chance(8))
                {
                    r.more.push_back({ part(), false, r.eol });
                    r.eol = false;
                }
            }

            r.id = o.plain_ids ? static_cast<int>(i + 1) :
                static_cast<int>(1 + s.below(6));

            if (o.skip && s.chance(12)) r.id = id_skip;
            if (o.uids && s.chance(30)) r.uid = static_cast<int>(s.below(5));

            if (n_states > 1 || o.stack)
            {
                r.next = static_cast<Rule::Next>(s.pick({ 15, 20,
                    n_states > 1 ? 30u : 0u, o.stack ? 20u : 0u,
                    o.stack ? 20u : 0u }));
            }

            // rule for a state that has none yet
            if (i >= n)
            {
                auto it = std::find(has.begin(), has.end(), false);

                r.states = { static_cast<int>(it - has.begin()) };

                if (r.next == Rule::none) r.next = Rule::same;
            }
            else if (r.next != Rule::none)
            {
                if (s.chance(15))
                {
                    r.star = true;
                    r.states.clear();

                    for (std::size_t k = 0; k < n_states; ++k)
                        r.states.push_back(static_cast<int>(k));
                }
                else
                {
                    r.states = { state() };

                    if (n_states > 1 && s.chance(25))
                    {
                        int k = state();

                        if (k != r.states[0]) r.states.push_back(k);
                    }
                }
            }

            for (int k : r.states) has[static_cast<std::size_t>(k)] = true;

            if (r.next == Rule::go || r.next == Rule::push) r.to = state();
            if (r.next == Rule::push && s.chance(40)) r.ret = state();

            if (o.again && r.next != Rule::none && s.chance(20))
            {
                r.id = id_again;
                r.uid = id_npos;
            }

            spell(r, s, rx::Style{ true, true }, l.flags);

            for (auto& p : r.pieces())
                if (rx::weight(*p.re) > o.weight || rx::has_empty_set(*p.re,
                    l.flags)) throw pbt::Discard();

            l.rules.push_back(r);
        }

        bool eol = false;

        for (auto& r : l.rules) eol = eol || r.any_eol();

        if (o.max == 0xff && eol && nfa::newline_clash(l, 400))
            throw pbt::Discard();

        return l;
    }

    inline void run_labels(pbt::Case& c, const Run& r)
    {
        if (r.unknown) c.label("unmatched character");
        if (r.skipped) c.label("skip");
        if (r.again) c.label("again (token continues)");
        if (r.bol_used) c.label("^ matched");
        if (r.eol_used) c.label("$ matched");
        if (r.moved) c.label("state changed");
        if (r.stacked) c.label("push or pop");
        if (r.underflow) c.label("stack underflow");
        if (r.ties) c.label("tie between rules");
    }
}

#endif
