// Dumps of machines, instantiated.  check.py compiles this file only if the
// harness does not compile.
#include <lexertl/debug.hpp>
#include <lexertl/dot.hpp>

#include <cstdint>
#include <sstream>

template<typename C, typename Id>
void all()
{
    using SM = lexertl::basic_state_machine<C, Id>;

    SM sm;
    lexertl::basic_char_state_machine<C, Id> csm;
    lexertl::basic_rules<C, C, Id> rules;
    std::basic_stringstream<C> s;

    lexertl::basic_debug<SM, C, Id>::dump(sm, s);
    lexertl::basic_debug<SM, C, Id>::dump(sm, rules, s);
    lexertl::basic_debug<SM, C, Id>::dump(csm, s);
    lexertl::basic_debug<SM, C, Id>::dump(csm, rules, s);
    lexertl::basic_dot<SM, C, Id>::dump(sm, rules, s);
    lexertl::basic_dot<SM, C, Id>::dump(csm, rules, s);
}

int main()
{
    all<char, std::uint8_t>();
    all<char, std::uint16_t>();
    all<char, std::uint32_t>();
    all<wchar_t, std::uint16_t>();
    all<char32_t, std::uint16_t>();
}
