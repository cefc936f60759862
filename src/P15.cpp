// P15: replace()
#include "lexgen.hpp"

#include <lexertl/replace.hpp>

#include <forward_list>
#include <iterator>
#include <list>
#include <map>
#include <memory>

using namespace model;

namespace
{
    // A string type of its own: other traits and allocator
    template<typename CharT>
    struct Traits : std::char_traits<CharT> {};

    template<typename T>
    struct Alloc : std::allocator<T>
    {
        Alloc() = default;
        template<typename U> Alloc(const Alloc<U>&) {}
        template<typename U> struct rebind { using other = Alloc<U>; };
    };

    template<typename CharT>
    using Str = std::basic_string<CharT>;
    template<typename CharT>
    using Odd = std::basic_string<CharT, Traits<CharT>, Alloc<CharT>>;

    // The replacement functions.  All forms of one function do the same.
    constexpr int n_funs = 4;

    template<typename CharT>
    Str<CharT> act(int f, Str<CharT> t)
    {
        // so that the C strings can tell the same
        std::replace(t.begin(), t.end(), CharT(), CharT('0'));

        switch (f)
        {
        case 0: return Str<CharT>(t.rbegin(), t.rend());
        case 1: return Str<CharT>(1, '<') + t + Str<CharT>(1, '>');
        case 2: return Str<CharT>();
        default: return Str<CharT>(t.size(), '#') + t;
        }
    }

    template<typename CharT, int F, typename It>
    Str<CharT> sfun(It a, It b)
    {
        return act<CharT>(F, Str<CharT>(a, b));
    }

    template<typename CharT, int F, typename S>
    S rfun(typename S::const_iterator& a, typename S::const_iterator& b)
    {
        auto t = act<CharT>(F, Str<CharT>(a, b));

        return S(t.begin(), t.end());
    }

    template<typename CharT, int F, typename R, typename S>
    R mfun(typename S::const_iterator& a, typename S::const_iterator& b)
    {
        auto t = act<CharT>(F, Str<CharT>(a, b));

        return R(t.begin(), t.end());
    }

    template<typename CharT, int F, typename It>
    const CharT* cfun(It a, It b)
    {
        static Str<CharT> keep[8];
        static unsigned k;
        auto& s = keep[k++ % 8];

        s = act<CharT>(F, Str<CharT>(a, b));
        return s.c_str();
    }

    template<typename CharT, typename Fn, typename F0, typename F1,
        typename F2, typename F3>
    Fn select(int f, F0 a, F1 b, F2 c, F3 d)
    {
        Fn t[] = { a, b, c, d };

        return t[f];
    }

    template<typename S>
    Str<typename S::value_type> plain(const S& s)
    {
        return Str<typename S::value_type>(s.begin(), s.end());
    }

    template<typename CharT>
    void same(const Str<CharT>& want, const Str<CharT>& got, const char* what)
    {
        if (want == got) return;

        auto sh = [](const Str<CharT>& s)
        {
            text t;

            for (CharT ch : s)
                t.push_back(static_cast<std::make_unsigned_t<
                    std::conditional_t<sizeof(CharT) == 1, char,
                    std::conditional_t<sizeof(CharT) == 2, short, int>>>>(ch));

            return pbt::show(t);
        };

        pbt::fail(std::string(what) + ": expected " + sh(want) + " but got " +
            sh(got));
    }

    template<typename CharT, typename Id>
    void prop(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT, Id>;
        using SM = lexertl::basic_state_machine<CharT, Id>;
        using S = Str<CharT>;
        using O = Odd<CharT>;
        using CI = typename S::const_iterator;
        using CP = const CharT*;
        Src& s = c.src;
        LexOpts o;

        o.max = sizeof(CharT) == 1 ? 0xff : sizeof(CharT) == 2 ? 0xffff :
            0x10ffff;
        o.states = 3;
        o.rules = 5;
        o.stack = false;

        std::vector<cp> alpha;
        Lexer l = gen_lexer(s, o, alpha);

        if (s.chance(40))
        {
            // the usual catch-all rule that skips the rest
            for (int i = 0; i < static_cast<int>(l.states.size()); ++i)
            {
                Rule r;

                r.states = { i };
                r.next = Rule::same;
                r.id = id_skip;
                r.re = rx::chr(s.of(alpha));
                spell(r, s, rx::Style{}, l.flags);
                l.rules.push_back(r);
            }
        }

        Rules rules(rule_flags(l.flags));
        SM sm;

        c.desc << describe(l, {});
        fill(l, rules);
        build(l, rules, sm);

        auto rnd = [&]
        {
            S t;

            for (std::size_t n = s.below(5); n; --n)
            {
                cp ch = s.of(alpha);

                t.push_back(static_cast<CharT>(ch ? ch : 'x'));
            }

            return t;
        };

        for (int k = 0; k < 3; ++k)
        {
            const text in = gen_input(s, l, alpha);
            S str = rx::to_input<CharT>(in);

            c.desc << "\ninput " << pbt::show(in);

            const Run want = run(l, in);
            std::vector<Tok> toks;

            for (auto& t : want.toks) if (t.id != 0) toks.push_back(t);

            // replacement: one text, a map to texts or a map to functions
            const S fmt = rnd();
            std::map<Id, S> ms;
            std::map<int, int> mf;

            for (auto& r : l.rules)
            {
                if (r.id > 0 && s.chance(60))
                {
                    ms[static_cast<Id>(r.id)] = rnd();
                    mf[r.id] = static_cast<int>(s.below(n_funs));
                }
            }

            if (s.chance(20))
            {
                ms[Rules::npos()] = rnd();
                mf[id_npos] = static_cast<int>(s.below(n_funs));
            }

            // ids that never are those of a token
            if (s.chance(20))
            {
                ms[0] = ms[Rules::skip()] = fmt;
                mf[0] = mf[id_skip] = 1;
            }

            S w1, w2, w3;
            std::size_t at = 0, hits = 0;

            for (auto& t : toks)
            {
                const S gap(str, at, t.first - at);
                const S body(str, t.first, t.second - t.first);
                auto i2 = ms.find(real_id<Rules>(t.id));
                auto i3 = mf.find(t.id);

                w1 += gap + fmt;
                w2 += gap + (i2 == ms.end() ? body : i2->second);
                w3 += gap + (i3 == mf.end() ? body :
                    act<CharT>(i3->second, body));
                hits += i2 != ms.end();
                at = t.second;

                if (!gap.empty()) c.label("skipped text between matches");
                if (t.id == id_npos) c.label("unmatched character");
            }

            const S rest(str, at);

            w1 += rest; w2 += rest; w3 += rest;

            if (!rest.empty()) c.label("text after the last match");
            if (hits > 1) c.nontrivial = true;

            // without NULs only: the C string forms
            const bool nul = str.find(CharT()) != S::npos;
            std::map<Id, CP> mc;

            for (auto& p : ms) mc[p.first] = p.second.c_str();

            auto funs = [&](auto out, auto f0, auto f1, auto f2, auto f3)
            {
                using M = decltype(out);
                M m;

                for (auto& p : mf)
                    m[real_id<Rules>(p.first)] = select<CharT, typename
                        M::mapped_type>(p.second, f0, f1, f2, f3);

                return m;
            };

            using FS = S(*)(CI&, CI&);
            using FCI = CP(*)(CI, CI);
            using FCP = CP(*)(CP, CP);
            using FSP = S(*)(CP, CP);
            using L = std::list<CharT>;
            using LI = typename L::const_iterator;
            using FLI = CP(*)(LI, LI);

            auto f_s = funs(std::map<Id, FS>(), rfun<CharT, 0, S>, rfun<CharT,
                1, S>, rfun<CharT, 2, S>, rfun<CharT, 3, S>);
            auto f_ci = funs(std::map<Id, FCI>(), cfun<CharT, 0, CI>,
                cfun<CharT, 1, CI>, cfun<CharT, 2, CI>, cfun<CharT, 3, CI>);
            auto f_cp = funs(std::map<Id, FCP>(), cfun<CharT, 0, CP>,
                cfun<CharT, 1, CP>, cfun<CharT, 2, CP>, cfun<CharT, 3, CP>);
            auto f_sp = funs(std::map<Id, FSP>(), sfun<CharT, 0, CP>,
                sfun<CharT, 1, CP>, sfun<CharT, 2, CP>, sfun<CharT, 3, CP>);
            auto f_li = funs(std::map<Id, FLI>(), cfun<CharT, 0, LI>,
                cfun<CharT, 1, LI>, cfun<CharT, 2, LI>, cfun<CharT, 3, LI>);

            const CI b = str.cbegin(), e = str.cend();
            using lexertl::replace;

            // out iterator: appending
            auto app = [&](const S& w, auto first, auto last, const auto& f,
                const char* what)
            {
                S r;

                replace(std::back_inserter(r), first, last, sm, f);
                same(w, r, what);
            };

            app(w1, b, e, fmt, "iterators, text");
            app(w1, b, e, fmt.c_str(), "iterators, C string");
            app(w2, b, e, ms, "iterators, map of texts");
            app(w2, b, e, mc, "iterators, map of C strings");
            app(w3, b, e, f_s, "iterators, map of functions");
            app(w3, b, e, f_ci, "iterators, map of C functions");
            app(w1, str.c_str(), str.c_str() + str.size(), fmt, "array, text");
            app(w3, str.c_str(), str.c_str() + str.size(), f_cp,
                "array, map of C functions");

            // out iterator: writing through a moving position
            auto mov = [&](const S& w, const auto& f, const char* what)
            {
                std::unique_ptr<CharT[]> buf(new CharT[w.size() + 1]);
                CharT* end = replace(buf.get(), b, e, sm, f);
                const auto n = end - buf.get();

                if (n != static_cast<std::ptrdiff_t>(w.size()))
                    pbt::fail(std::string(what) + ": the returned iterator "
                        "should be " + std::to_string(w.size()) + " from the "
                        "start but is " + std::to_string(n));

                same(w, S(buf.get(), end), what);
            };

            mov(w1, fmt, "to array, text");
            mov(w1, fmt.c_str(), "to array, C string");
            mov(w2, ms, "to array, map of texts");
            mov(w2, mc, "to array, map of C strings");
            mov(w3, f_s, "to array, map of functions");
            mov(w3, f_ci, "to array, map of C functions");

            // other containers
            const L li(str.begin(), str.end());
            const std::forward_list<CharT> fl(str.begin(), str.end());
            const std::vector<CharT> ve(str.begin(), str.end());

            app(w1, li.begin(), li.end(), fmt, "list, text");
            app(w2, li.begin(), li.end(), ms, "list, map of texts");
            app(w3, li.begin(), li.end(), f_li, "list, map of C functions");
            app(w2, fl.begin(), fl.end(), mc, "forward_list, map of C strings");
            app(w1, fl.begin(), fl.end(), fmt.c_str(),
                "forward_list, C string");
            app(w2, ve.begin(), ve.end(), ms, "vector, map of texts");

            // string argument
            same(w1, replace(str, sm, fmt), "string, text");
            same(w1, replace(str, sm, fmt.c_str()), "string, C string");
            same(w2, replace(str, sm, ms), "string, map of texts");
            same(w2, replace(str, sm, mc), "string, map of C strings");
            same(w3, replace(str, sm, f_s), "string, map of functions");
            same(w3, replace(str, sm, f_cp), "string, map of C functions");

            // strings with other traits and allocators
            const O ostr(str.begin(), str.end());
            const O ofmt(fmt.begin(), fmt.end());
            std::map<Id, O> mo;

            for (auto& p : ms) mo[p.first].assign(p.second.begin(),
                p.second.end());

            using OI = typename O::const_iterator;
            using FO = O(*)(OI&, OI&);
            using FSO = S(*)(OI&, OI&);
            auto f_o = funs(std::map<Id, FO>(), rfun<CharT, 0, O>, rfun<CharT,
                1, O>, rfun<CharT, 2, O>, rfun<CharT, 3, O>);
            auto f_so = funs(std::map<Id, FSO>(), mfun<CharT, 0, S, O>,
                mfun<CharT, 1, S, O>, mfun<CharT, 2, S, O>, mfun<CharT, 3, S,
                O>);

            same(w1, plain(replace(ostr, sm, ofmt)), "own string, own text");
            same(w1, plain(replace(ostr, sm, fmt)), "own string, text");
            same(w1, plain(replace(str, sm, ofmt)), "string, own text");
            same(w1, plain(replace(ostr, sm, fmt.c_str())),
                "own string, C string");
            same(w2, plain(replace(ostr, sm, mo)),
                "own string, map of own texts");
            same(w2, plain(replace(ostr, sm, ms)), "own string, map of texts");
            same(w2, plain(replace(str, sm, mo)), "string, map of own texts");
            same(w2, plain(replace(ostr, sm, mc)),
                "own string, map of C strings");
            same(w3, plain(replace(ostr, sm, f_o)),
                "own string, map of own functions");
            same(w3, plain(replace(ostr, sm, f_so)),
                "own string, map of functions");
            same(w3, plain(replace(ostr, sm, f_cp)),
                "own string, map of C functions");

            if (nul)
            {
                c.label("text with a NUL");
                continue;
            }

            // C string argument
            CP p = str.c_str();
            using FOP = O(*)(CP, CP);
            auto f_op = funs(std::map<Id, FOP>(),
                [](CP x, CP y) { auto t = sfun<CharT, 0>(x, y);
                    return O(t.begin(), t.end()); },
                [](CP x, CP y) { auto t = sfun<CharT, 1>(x, y);
                    return O(t.begin(), t.end()); },
                [](CP x, CP y) { auto t = sfun<CharT, 2>(x, y);
                    return O(t.begin(), t.end()); },
                [](CP x, CP y) { auto t = sfun<CharT, 3>(x, y);
                    return O(t.begin(), t.end()); });

            same(w1, replace(p, sm, fmt), "C string, text");
            same(w1, replace(p, sm, fmt.c_str()), "C string, C string");
            same(w2, replace(p, sm, ms), "C string, map of texts");
            same(w2, replace(p, sm, mc), "C string, map of C strings");
            same(w3, replace(p, sm, f_sp), "C string, map of functions");
            same(w3, replace(p, sm, f_cp), "C string, map of C functions");
            same(w1, plain(replace(p, sm, ofmt)), "C string, own text");
            same(w2, plain(replace(p, sm, mo)), "C string, map of own texts");
            same(w3, plain(replace(p, sm, f_op)),
                "C string, map of own functions");
        }
    }

    // The example of the documentation: a braced list as the map
    void readme(pbt::Case& c)
    {
        lexertl::rules rules;
        lexertl::state_machine sm;

        rules.push("[0-9]+", 1);
        rules.push("[a-z]+", 2);
        rules.push("(?s:.)", lexertl::rules::skip());
        lexertl::generator::build(rules, sm);

        std::string input("abc 012 A d 3 e 4");

        c.desc << "README example";
        c.nontrivial = true;
        pbt::check(lexertl::replace(input, sm, "rep") ==
            "rep rep A rep rep rep rep", "README example 1");
        pbt::check(lexertl::replace(input, sm,
            { { 1, "number" }, { 2, "word" } }) ==
            "word number A word number word number", "README example 2");
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P15", "lexers of 1-3 states with skip, again, anchors and "
        "unmatched characters; three inputs each; every overload of replace() "
        "(string, C string, pointer, list, forward_list and vector iterators; "
        "appending and writing output; text, C string, map, function map; "
        "strings with other traits and allocators); non-trivial: at least two "
        "tokens are replaced through the map");

    m.example("README", readme);
    m.add("char", 60000, 1500000, prop<char, uint16_t>);
    m.add("char32", 18000, 450000, prop<char32_t, uint32_t>);
    m.add("wchar", 12000, 300000, prop<wchar_t, uint16_t>);
    m.add("char16 size_t", 9000, 240000, prop<char16_t, std::size_t>);
    return m.run(argc, argv);
}
