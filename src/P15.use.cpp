// The overloads of replace(), instantiated.  check.py compiles this file only
// if the harness does not compile.
#include <lexertl/replace.hpp>

#include <iterator>

template<typename C>
struct Traits : std::char_traits<C> {};

using S = std::string;
using O = std::basic_string<char, Traits<char>>;
using P = const char*;
using I = S::const_iterator;
using J = O::const_iterator;

void use(const lexertl::state_machine& sm, const S& s, const O& o, P p)
{
    using lexertl::replace;
    using M1 = std::map<uint16_t, S>;
    using M2 = std::map<uint16_t, O>;
    using M3 = std::map<uint16_t, P>;
    M1 m1; M2 m2; M3 m3;
    std::map<uint16_t, S(*)(I&, I&)> f1;
    std::map<uint16_t, O(*)(J&, J&)> f2;
    std::map<uint16_t, S(*)(J&, J&)> f3;
    std::map<uint16_t, P(*)(I, I)> f4;
    std::map<uint16_t, P(*)(P, P)> f5;
    std::map<uint16_t, S(*)(P, P)> f6;
    std::map<uint16_t, O(*)(P, P)> f7;
    S out;
    auto b = std::back_inserter(out);

    replace(b, s.begin(), s.end(), sm, s);
    replace(b, s.begin(), s.end(), sm, o);
    replace(b, s.begin(), s.end(), sm, p);
    replace(b, s.begin(), s.end(), sm, m1);
    replace(b, s.begin(), s.end(), sm, m2);
    replace(b, s.begin(), s.end(), sm, m3);
    replace(b, s.cbegin(), s.cend(), sm, f1);
    replace(b, s.cbegin(), s.cend(), sm, f4);
    replace(b, p, p, sm, f5);
    replace(&out[0], p, p, sm, s);
    out = replace(s, sm, s); out = replace(s, sm, o); out = replace(s, sm, p);
    out = replace(s, sm, m1); out = replace(s, sm, m2);
    out = replace(s, sm, m3); out = replace(s, sm, f1);
    out = replace(s, sm, f5);

    O res;

    res = replace(o, sm, s); res = replace(o, sm, o); res = replace(o, sm, p);
    res = replace(o, sm, m1); res = replace(o, sm, m2);
    res = replace(o, sm, m3); res = replace(o, sm, f2);
    res = replace(o, sm, f3); res = replace(o, sm, f5);
    out = replace(p, sm, s); res = replace(p, sm, o); out = replace(p, sm, p);
    out = replace(p, sm, m1); res = replace(p, sm, m2);
    out = replace(p, sm, m3); out = replace(p, sm, f6);
    res = replace(p, sm, f7); out = replace(p, sm, f5);
}
