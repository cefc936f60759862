// P22: all ways of running a lexer agree
#include "csm.hpp"
#include "lexgen.hpp"

#include <array>
#include <deque>
#include <list>
#include <string_view>
#include <utility>

using namespace model;

namespace
{
    constexpr auto f_advance = static_cast<std::size_t>(
        +lexertl::feature_bit::advance);
    constexpr auto f_recursive = static_cast<std::size_t>(
        +lexertl::feature_bit::recursive);

    LexOpts options(Src& s)
    {
        LexOpts o;

        // characters that every lexer can hold, that no flag turns into
        // others than those
        o.max = 0xff;
        o.anchors = s.chance(60);
        o.stack = s.chance(40);
        o.states = 1 + s.below(3);
        o.options = false;
        o.posix = false;
        o.rules = 4;
        o.weight = 10;

        switch (s.pick({ 40, 30, 30 }))
        {
        case 0: o.alphabet = { 'a', 'b', '\n' }; break;
        case 1: o.alphabet = { 'a', 'b', 'c', '\r', '\n' }; break;
        default: o.alphabet = { 0, 'A', 'z', ' ', '\n', 0x7f, 0x80, 0xff };
        }

        return o;
    }

    // lookup() with a feature set; without advance the user steps over
    // characters that do not match
    template<typename Results, bool advance, typename SM, typename It>
    Run steps(const SM& sm, It b, It e, std::size_t n)
    {
        Run out;
        Results r(b, e);

        for (;;)
        {
            try
            {
                lexertl::lookup(sm, r);
            }
            catch (const lexertl::runtime_error&)
            {
                out.underflow = true;
                break;
            }

            if (!advance && r.id == Results::npos())
            {
                pbt::check(r.first == r.second, "without advance a "
                    "character that does not match was stepped over");
                ++r.second;
            }

            out.toks.push_back(tok(r, b));

            if (r.id == 0 && r.first == r.eoi) break;

            pbt::check(out.toks.size() <= 4 * n + 8,
                "the lexer makes no progress: " + str(out.toks));
        }

        return out;
    }

    using It = std::string::const_iterator;
    using Fn = Run(*)(const lexertl::state_machine&, It, It, std::size_t);

    template<std::size_t F>
    constexpr Fn flag_fn()
    {
        if constexpr ((F & f_recursive) != 0)
            return &steps<lexertl::recursive_match_results<It, uint16_t, F>,
                (F & f_advance) != 0, lexertl::state_machine, It>;
        else
            return &steps<lexertl::match_results<It, uint16_t, F>,
                (F & f_advance) != 0, lexertl::state_machine, It>;
    }

    template<std::size_t... F>
    constexpr std::array<Fn, sizeof...(F)> flag_fns(
        std::index_sequence<F...>)
    {
        return { flag_fn<F>()... };
    }

    const auto with_flags = flag_fns(std::make_index_sequence<128>());

    void flags(pbt::Case& c)
    {
        Src& s = c.src;
        std::vector<cp> alpha;
        Lexer l = gen_lexer(s, options(s), alpha);
        lexertl::rules rules(rule_flags(l.flags));
        lexertl::state_machine sm;

        c.desc << describe(l, {});
        fill(l, rules);
        build(l, rules, sm);

        const std::size_t need = sm.data()._features;

        for (int i = 0; i < 4; ++i)
        {
            text in = gen_input(s, l, alpha);
            const std::string str = rx::to_input<char>(in);

            c.desc << "\ninput " << pbt::show(in);

            Run want = run(l, in);

            run_labels(c, want);

            if (want.toks.size() > 3) c.nontrivial = true;

            for (std::size_t f = 0; f < 128; ++f)
            {
                if ((f & need) != need) continue;

                Run got = with_flags[f](sm, str.begin(), str.end(),
                    str.size());

                compare(want, got, "feature set " + std::to_string(f));
            }
        }
    }

    template<typename R>
    void helpers(const R& r)
    {
        using C = typename R::char_type;
        const std::basic_string<C> s(r.first, r.second);

        pbt::check(r.str() == s, "str()");

        if constexpr (std::is_same_v<typename std::iterator_traits<typename
            R::iter_type>::iterator_category,
            std::random_access_iterator_tag>)
        {
            pbt::check(r.length() == s.size(), "length()");

            for (std::size_t i = 0; i <= s.size() && i < 3; ++i)
                for (std::size_t j = 0; i + j <= s.size() && j < 3; ++j)
                    pbt::check(r.substr(i, j) == s.substr(i, s.size() - i -
                        j), "substr()");
        }

        if constexpr (std::is_pointer_v<typename R::iter_type> ||
            std::is_same_v<typename R::iter_type,
            typename std::basic_string<C>::const_iterator>)
        {
            if (r.first == r.eoi) return;

            pbt::check(r.view() == s, "view()");

            for (std::size_t i = 0; i <= s.size() && i < 3; ++i)
                for (std::size_t j = 0; i + j <= s.size() && j < 3; ++j)
                    pbt::check(r.subview(i, j) == s.substr(i, s.size() - i -
                        j), "subview()");
        }
    }

    // One iterator type: lookup(), iterator, range, resumption, reset
    template<typename Results, typename SM, typename Iter>
    void ways(Src& s, const SM& sm, Iter b, Iter e, const Run& want,
        std::size_t n, const std::string& what)
    {
        compare(want, steps<Results, true>(sm, b, e, n), what + ": lookup");

        using I = lexertl::iterator<Iter, SM, Results>;

        const I end;

        if (want.underflow) return;

        Run out;
        const std::size_t at = s.below(want.toks.size());
        I copy;
        auto finish = [&](Run& o)
        {
            // the iterator ends where lookup says end of input
            o.toks.push_back(want.toks.back());
        };

        if (s.chance(50))
        {
            for (I it(b, e, sm); it != end; ++it)
            {
                if (out.toks.size() == at) copy = it;

                out.toks.push_back(tok(*it, b));
                helpers(*it);
                pbt::check(&it.sm() == &sm, what + ": sm()");
                pbt::check(out.toks.size() <= 4 * n + 8, "no progress");
            }

            finish(out);
            compare(want, out, what + ": ++iterator");
        }
        else
        {
            for (I it(b, e, sm); it != end; )
            {
                if (out.toks.size() == at) copy = it;

                I before = it;
                I old = it++;

                pbt::check(old == before, what + ": iterator++ returns "
                    "another value");
                pbt::check(!(old != before), what + ": !=");
                pbt::check(old != it, what + ": iterator++ does not move");
                out.toks.push_back(tok(*old, b));
                pbt::check(old->id == (*old).id, what + ": ->");
                pbt::check(out.toks.size() <= 4 * n + 8, "no progress");
            }

            finish(out);
            compare(want, out, what + ": iterator++");
        }

        // the copy knows nothing of what happened to the original
        out.toks.assign(want.toks.begin(), want.toks.begin() +
            static_cast<long>(at));

        for (; copy != end; ++copy) out.toks.push_back(tok(*copy, b));

        finish(out);
        compare(want, out, what + ": copied iterator");

        lexertl::range<I> r(I(b, e, sm), end);
        out.toks.clear();

        for (auto& x : r) out.toks.push_back(tok(x, b));

        finish(out);
        compare(want, out, what + ": range");

        // lookup again from where another one has got to
        Results x(b, e);

        for (std::size_t i = 0; i < at; ++i) lexertl::lookup(sm, x);

        Results y(x.second, x.eoi, x.bol, x.state);

        if constexpr (std::is_base_of_v<lexertl::recursive_match_results<
            Iter, typename SM::id_type>, Results>) y.stack = x.stack;

        out.toks.assign(want.toks.begin(), want.toks.begin() +
            static_cast<long>(at));

        while (out.toks.size() < want.toks.size())
        {
            lexertl::lookup(sm, y);
            out.toks.push_back(tok(y, b));
        }

        compare(want, out, what + ": resumed");

        // and from the beginning with used results
        x.reset(b, e);
        out.toks.clear();

        while (out.toks.size() < want.toks.size())
        {
            lexertl::lookup(sm, x);
            out.toks.push_back(tok(x, b));
        }

        compare(want, out, what + ": reset");
        x.clear();
        lexertl::lookup(sm, x);
        pbt::check(x.id == 0 && x.first == e && x.second == e, what +
            ": cleared results are not at the end of input");
    }

    template<typename SM, typename Iter>
    void both(Src& s, const Lexer& l, const SM& sm, Iter b, Iter e,
        const Run& want, std::size_t n, const std::string& what)
    {
        ways<Recursive<Iter, typename SM::id_type>>(s, sm, b, e, want, n,
            what + ", recursive_match_results");

        if (!l.recursive())
            ways<Plain<Iter, typename SM::id_type>>(s, sm, b, e, want, n,
                what + ", match_results");
    }

    // The same rules for other characters
    template<typename CharT>
    Lexer as(Lexer l)
    {
        l.flags.wide = sizeof(CharT) > 1;
        l.flags.max = sizeof(CharT) == 1 ? 0xff : sizeof(CharT) == 2 ?
            0xffff : 0x10ffff;
        return l;
    }

    // Kinds of iterators
    template<typename CharT>
    void iterators(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT>;
        using SM = lexertl::basic_state_machine<CharT>;
        using S = std::basic_string<CharT>;
        Src& s = c.src;
        std::vector<cp> alpha;
        Lexer l = gen_lexer(s, options(s), alpha);

        l = as<CharT>(l);

        Rules rules(rule_flags(l.flags));
        SM sm;

        c.desc << describe(l, {});
        fill(l, rules);
        build(l, rules, sm);

        for (int i = 0; i < 3; ++i)
        {
            text in = gen_input(s, l, alpha, 30);
            const S str = rx::to_input<CharT>(in);
            const std::list<CharT> lst(str.begin(), str.end());
            const std::deque<CharT> deq(str.begin(), str.end());
            const std::vector<CharT> vec(str.begin(), str.end());
            const std::basic_string_view<CharT> view(str);

            c.desc << "\ninput " << pbt::show(in);

            Run want = run(l, in);
            const std::size_t n = in.size();

            run_labels(c, want);

            if (want.toks.size() > 3) c.nontrivial = true;

            both(s, l, sm, str.begin(), str.end(), want, n, "string");
            both(s, l, sm, str.data(), str.data() + n, want, n, "pointer");
            both(s, l, sm, lst.begin(), lst.end(), want, n, "list");
            both(s, l, sm, deq.begin(), deq.end(), want, n, "deque");
            both(s, l, sm, vec.begin(), vec.end(), want, n, "vector");
            both(s, l, sm, view.begin(), view.end(), want, n, "view");
        }
    }

    template<typename CharT, typename Id>
    void one_type(const Lexer& l, const text& in, const Run& want,
        const std::string& what)
    {
        using Rules = lexertl::basic_rules<CharT, CharT, Id>;
        using SM = lexertl::basic_state_machine<CharT, Id>;
        using M = lexertl::basic_char_state_machine<CharT, Id>;
        Rules rules(rule_flags(l.flags));
        SM sm;

        fill(l, rules);

        try
        {
            build(l, rules, sm);
        }
        catch (const lexertl::runtime_error& e)
        {
            // a machine this small always fits, but for the characters
            // that are several bytes
            pbt::check(sizeof(Id) == 1 && strstr(e.what(), "cannot hold"),
                what + ": " + e.what());
            return;
        }

        const auto str = rx::to_input<CharT>(in);

        compare(want, lex_any(sm, str, true), what);

        if (!l.recursive())
            compare(want, lex_any(sm, str, false), what + ", match_results");

        M m;

        build(l, rules, m);
        compare(want, csm::run(m, in, {}), what + ", character machine");
    }

    template<typename CharT>
    void id_types(const Lexer& l0, const text& in, const std::string& what)
    {
        const Lexer l = as<CharT>(l0);
        const Run want = run(l, in);

        one_type<CharT, std::uint8_t>(l, in, want, what + ", 8 bit ids");
        one_type<CharT, std::uint16_t>(l, in, want, what + ", 16 bit ids");
        one_type<CharT, std::uint32_t>(l, in, want, what + ", 32 bit ids");
        one_type<CharT, std::uint64_t>(l, in, want, what + ", 64 bit ids");
    }

    void types(pbt::Case& c)
    {
        Src& s = c.src;
        std::vector<cp> alpha;
        Lexer l = gen_lexer(s, options(s), alpha);

        c.desc << describe(l, {});

        for (int i = 0; i < 2; ++i)
        {
            text in = gen_input(s, l, alpha);

            c.desc << "\ninput " << pbt::show(in);

            Run want = run(l, in);

            run_labels(c, want);

            if (want.toks.size() > 3) c.nontrivial = true;

            id_types<char>(l, in, "char");
            id_types<char16_t>(l, in, "char16_t");
            id_types<char32_t>(l, in, "char32_t");
            id_types<wchar_t>(l, in, "wchar_t");
        }
    }

    // Lexers about as large as 8 bits can number

    P word(Src& s, std::size_t max)
    {
        text t;

        for (std::size_t n = 1 + s.below(max); n; --n)
            t.push_back("abc"[s.below(3)]);

        P p = rx::mk(rx::Node::str);

        p->s = t;
        return p;
    }

    P some_of(Src& s, const text& from)
    {
        P p = rx::mk(rx::Node::set);

        for (cp ch : from)
        {
            if (!s.chance(50)) continue;

            rx::Item i;

            i.lo = i.hi = ch;
            p->items.push_back(i);
        }

        if (p->items.empty())
        {
            rx::Item i;

            i.lo = i.hi = from[0];
            p->items.push_back(i);
        }

        return p;
    }

    struct Big
    {
        Lexer l;
        std::vector<cp> alpha{ 'a', 'b', 'c' };
        bool suppressed = true;      // allow_suppressed_rules
        bool dead = false;           // there is a rule that cannot match
        std::size_t repeat = 0;
    };

    Big gen_big(Src& s)
    {
        Big b;
        Lexer& l = b.l;
        const rx::Style st{ false, false };
        auto add = [&](P re, int id, std::size_t state)
        {
            Rule r;

            r.re = std::move(re);
            r.id = id;
            r.next = Rule::same;
            r.states = { static_cast<int>(state) };
            spell(r, s, st, l.flags);
            l.rules.push_back(r);
        };

        switch (s.pick({ 25, 25, 25, 10, 8, 12, 10 }))
        {
        case 0:
            // many words
            for (std::size_t n = 20 + s.below(60); n; --n)
                add(word(s, 8), static_cast<int>(1 + s.below(250)), 0);

            break;
        case 1:
        {
            // many charsets
            const text from{ 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i' };
            std::vector<P> v;

            for (std::size_t n = 150 + s.below(250); n; --n)
            {
                P p = rx::mk(rx::Node::seq);

                p->kids = { some_of(s, from), rx::chr('0' + static_cast<cp>(
                    s.below(4))) };
                v.push_back(p);
            }

            const bool eol = s.chance(30);

            add(rx::alt(v), 1, 0);
            add(rx::alt({ rx::chr('b'), rx::chr('d') }), 2, 0);

            if (eol)
            {
                l.rules.back().eol = true;
                spell(l.rules.back(), s, st, l.flags);
            }

            if (s.chance(30))
            {
                add(rx::alt({ rx::chr('a'), rx::chr('c') }), 3, 0);
                l.rules.back().bol = true;
                spell(l.rules.back(), s, st, l.flags);
            }

            b.alpha = { 'a', 'b', 'c', 'd', 'i', '0', '1', '2', '3', '\n' };
            break;
        }
        case 2:
        {
            // many rules, some of them the same
            const std::size_t states = 1 + s.below(4);
            std::vector<std::set<text>> seen(states);
            const std::size_t n = 240 + s.below(s.chance(50) ? 40 : 400);
            const bool unique = s.chance(60);

            b.suppressed = s.chance(30);

            for (std::size_t i = 1; i < states; ++i)
                l.states.push_back("S" + std::to_string(i));

            for (std::size_t i = 0; i < n; ++i)
            {
                P p = word(s, unique ? 7 : 3);
                const std::size_t at = i % states;
                const bool dup = !seen[at].insert(p->s).second;

                if (dup && unique && !s.chance(1)) continue;

                b.dead = b.dead || dup;
                add(p, static_cast<int>(1 + s.below(250)), at);

                if (states > 1 && s.chance(30))
                {
                    Rule& r = l.rules.back();

                    r.next = Rule::go;
                    r.to = static_cast<int>(s.below(states));
                }
            }

            break;
        }
        case 3:
        {
            // many states
            const std::size_t states = 250 + s.below(10);

            for (std::size_t i = 1; i < states; ++i)
                l.states.push_back("S" + std::to_string(i));

            for (std::size_t i = 0; i < states; ++i)
            {
                add(rx::chr('a'), static_cast<int>(1 + i % 200), i);
                l.rules.back().next = Rule::go;
                l.rules.back().to = static_cast<int>(s.chance(20) ?
                    s.below(states) : states - 1 - s.below(9));
            }

            break;
        }
        case 4:
            b.repeat = 240 + s.below(30);
            add(rx::seq({ rx::rep(rx::chr('a'), static_cast<int>(b.repeat),
                static_cast<int>(b.repeat)), rx::chr('b') }), 1, 0);
            add(rx::chr('a'), 2, 0);
            break;
        case 5:
        {
            // (a|b)*a(a|b){k}
            const int k = 4 + static_cast<int>(s.below(5));
            auto ab = [] { return rx::alt({ rx::chr('a'), rx::chr('b') }); };
            P g = rx::mk(rx::Node::group);

            g->kids = { ab() };
            add(rx::seq({ rx::rep(g, 0, -1), rx::chr('a'), rx::rep(g, k, k)
                }), 1, 0);
            break;
        }
        default:
            // many characters
            b.alpha.clear();

            for (std::size_t n = 240 + s.below(17), i = 0; i < n; ++i)
            {
                b.alpha.push_back(static_cast<cp>(i));
                add(rx::chr(static_cast<cp>(i)), static_cast<int>(1 + i %
                    250), 0);
            }
        }

        return b;
    }

    template<typename CharT, typename Id>
    std::string try_build(const Big& b, lexertl::basic_state_machine<CharT,
        Id>& sm)
    {
        using Rules = lexertl::basic_rules<CharT, CharT, Id>;
        using SM = lexertl::basic_state_machine<CharT, Id>;

        try
        {
            Rules rules(rule_flags(b.l.flags, false, b.suppressed));

            fill(b.l, rules);
            lexertl::basic_generator<Rules, SM>::build(rules, sm);
        }
        catch (const lexertl::runtime_error& e)
        {
            return e.what();
        }

        return std::string();
    }

    bool has(const std::string& s, const char* t)
    {
        return s.find(t) != std::string::npos;
    }

    template<typename CharT>
    void large(pbt::Case& c)
    {
        Src& s = c.src;
        Big b = gen_big(s);

        if (s.chance(50))
            c.desc << b.l.rules.size() << " rules, " << b.l.states.size() <<
                " states" << (b.suppressed ? ", suppressed rules allowed" :
                "");

        c.desc << describe(b.l, {});
        b.l = as<CharT>(b.l);

        lexertl::basic_state_machine<CharT, std::uint8_t> sm8;
        lexertl::basic_state_machine<CharT, std::uint16_t> sm16;
        lexertl::basic_state_machine<CharT, std::uint32_t> sm32;
        lexertl::basic_state_machine<CharT, std::size_t> sm64;
        const std::string e8 = try_build(b, sm8), e16 = try_build(b, sm16),
            e32 = try_build(b, sm32), e64 = try_build(b, sm64);
        const bool want_error = b.dead && !b.suppressed;

        for (auto* e : { &e16, &e32, &e64 })
        {
            pbt::check(e->empty() == !want_error, want_error ?
                "a rule that cannot be matched is accepted" : *e);

            if (want_error) pbt::check(has(*e, "cannot be matched"),
                "wrong error: " + *e);
        }

        if (want_error)
        {
            pbt::check(!e8.empty(), "a rule that cannot be matched is "
                "accepted with 8 bit ids");
            c.nontrivial = true;
            c.label("suppressed rule");
            return;
        }

        // What 8 bits have to hold
        std::size_t rows = 0, alphabet = 0, weight = 0;
        auto& d = sm32.data();

        for (std::size_t i = 0; i < d._dfa.size(); ++i)
        {
            rows = std::max<std::size_t>(rows, d._dfa[i].size() /
                d._dfa_alphabet[i]);
            alphabet = std::max<std::size_t>(alphabet, d._dfa_alphabet[i]);

            std::size_t w = 0;

            for (auto& r : b.l.rules)
                if (r.states[0] == static_cast<int>(i))
                    w += rx::weight(*r.re);

            weight = std::max(weight, w);
        }

        const std::string size = " (" + std::to_string(rows) + " rows, " +
            std::to_string(alphabet) + " columns, " +
            std::to_string(b.l.states.size()) + " states)";

        if (rows > 256 || alphabet > 256 || b.l.states.size() > 256)
            pbt::check(!e8.empty(), "not refused with 8 bit ids" + size);

        // one class of characters for each set at most, but for sets that
        // are split into bytes
        if (sizeof(CharT) == 1 && rows <= 250 && alphabet <= 250 &&
            b.l.states.size() <= 250 && b.repeat <= 250 && weight <= 240)
            pbt::check(e8.empty(), "refused with 8 bit ids: " + e8 + size);

        if (!e8.empty())
        {
            pbt::check(has(e8, "hold") || has(e8, "id_type") ||
                has(e8, "large") || has(e8, "too big"), "refused because: " + e8);
            c.label("refused with 8 bit ids");
        }
        else
            c.label("built with 8 bit ids");

        if (rows > 150 || alphabet > 150 || weight > 150 ||
            b.l.states.size() > 150)
            c.nontrivial = true;

        for (int i = 0; i < 3; ++i)
        {
            text in;

            if (b.repeat && s.chance(50))
            {
                in.assign(std::min<std::size_t>(b.repeat - 1 + s.below(3),
                    rx::max_input - 1), 'a');
                in.push_back('b');
            }
            else in = gen_input(s, b.l, b.alpha);

            c.desc << "\ninput " << pbt::show(in);

            const Run want = run(b.l, in);
            const auto str = rx::to_input<CharT>(in);

            if (e8.empty())
                compare(want, lex_any(sm8, str, false), "8 bit ids");

            compare(want, lex_any(sm16, str, false), "16 bit ids");
            compare(want, lex_any(sm32, str, false), "32 bit ids");
            compare(want, lex_any(sm64, str, false), "64 bit ids");
        }
    }
}

namespace
{
    // (a|b)*a(a|b){k} has 2 to the power of k + 1 rows and the jam state
    void sixteen_bits(pbt::Case&)
    {
        for (int k : { 14, 15 })
        {
            lexertl::rules rules;
            lexertl::state_machine sm;
            std::string error;

            rules.push("(a|b)*a(a|b){" + std::to_string(k) + "}", 1);

            try
            {
                lexertl::generator::build(rules, sm);
            }
            catch (const lexertl::runtime_error& e)
            {
                error = e.what();
            }

            pbt::check(error.empty() == (k == 14), k == 14 ? "32769 rows do "
                "not fit into 16 bits: " + error : "65537 rows are not "
                "refused with 16 bit ids");

            if (!error.empty()) continue;

            const std::string in = "ab" + std::string(13, 'a') + "bb";
            lexertl::smatch r(in.begin(), in.end());

            lexertl::lookup(sm, r);
            // 14 characters follow the second a
            pbt::check(r.id == 1 && r.str() == "ab" + std::string(13, 'a') +
                "bb", "32769 rows: matched " + r.str());
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P22", "lexers with states, stacks and anchors, run with "
        "every sufficient feature set, kind of iterator, character and id "
        "type and machine; lexers about as large as 8 bit ids can number. "
        "Non-trivial: more than three tokens; lexers with more than 150 "
        "rows, columns, charsets or states, or with a rule that cannot "
        "match");

    m.add("feature sets", 8000, 150000, flags);
    m.add("iterators char", 6000, 120000, iterators<char>);
    m.add("iterators char32", 3000, 60000, iterators<char32_t>);
    m.add("iterators wchar", 1500, 30000, iterators<wchar_t>);
    m.add("types", 1500, 30000, types);
    m.add("large char", 3000, 60000, large<char>);
    m.add("large char16", 500, 10000, large<char16_t>);
#if !defined(__has_feature)
    // (takes minutes with sanitizers)
    m.example("65537 rows", sixteen_bits);
#endif
    m.assume("lexers in which $ competes with a newline that would complete "
        "a token are excluded, as in P05");
    return m.run(argc, argv);
}
