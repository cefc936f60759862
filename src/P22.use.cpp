// Ways of running a lexer, instantiated.  check.py compiles this file only if
// the harness does not compile.
#include <lexertl/generator.hpp>
#include <lexertl/iterator.hpp>
#include <lexertl/lookup.hpp>
#include <lexertl/range.hpp>

#include <cstdint>
#include <deque>
#include <list>
#include <string>

template<typename R, typename SM, typename C>
void all(const SM& sm, const C& in)
{
    using I = lexertl::iterator<typename C::const_iterator, SM, R>;
    R r(in.begin(), in.end());
    lexertl::range<I> v(I(in.begin(), in.end(), sm), I());

    lexertl::lookup(sm, r);
    r.reset(in.begin(), in.end());
    r.clear();
    (void)r.str();

    for (auto& x : v) (void)x.id;
}

template<typename Id, typename SM, typename C>
void both(const SM& sm, const C& in)
{
    using It = typename C::const_iterator;

    all<lexertl::match_results<It, Id>>(sm, in);
    all<lexertl::recursive_match_results<It, Id>>(sm, in);
}

template<typename T, typename Id>
void types(const std::basic_string<T>& in)
{
    lexertl::basic_rules<T, T, Id> rules;
    lexertl::basic_state_machine<T, Id> sm;
    lexertl::basic_char_state_machine<T, Id> csm;

    lexertl::basic_generator<decltype(rules), decltype(sm)>::build(rules, sm);
    lexertl::basic_generator<decltype(rules), decltype(csm)>::build(rules,
        csm);
    both<Id>(sm, in);
    both<Id>(sm, std::list<T>(in.begin(), in.end()));
    both<Id>(sm, std::deque<T>(in.begin(), in.end()));

    lexertl::match_results<typename std::basic_string<T>::const_iterator, Id>
        r(in.begin(), in.end());
    lexertl::match_results<const T*, Id> p(in.data(), in.data() + in.size());

    (void)r.substr(0, 0), (void)r.view(), (void)r.subview(0, 0);
    (void)p.substr(0, 0), (void)p.view(), (void)p.subview(0, 0);
    (void)r.length(), (void)p.length();
}

template<std::size_t F>
void flags(const lexertl::state_machine& sm, const std::string& in)
{
    using It = std::string::const_iterator;
    constexpr std::size_t rec = +lexertl::feature_bit::recursive;

    if constexpr ((F & rec) == 0)
        all<lexertl::match_results<It, std::uint16_t, F>>(sm, in);
    else
        all<lexertl::recursive_match_results<It, std::uint16_t, F>>(sm, in);

    if constexpr (F != 0) flags<F - 1>(sm, in);
}

void use(const lexertl::state_machine& sm)
{
    types<char, std::uint8_t>("");
    types<char, std::uint16_t>("");
    types<char16_t, std::uint8_t>(u"");
    types<char32_t, std::uint32_t>(U"");
    types<wchar_t, std::uint64_t>(L"");
    flags<127>(sm, "");
}
