// Dumps of rules, instantiated.  check.py compiles this file only if the
// harness does not compile.
#include <lexertl/debug.hpp>

#include <cstdint>
#include <sstream>

template<typename C, typename Id>
void all()
{
    using SM = lexertl::basic_state_machine<C, Id>;

    lexertl::basic_rules<C, C, Id> rules;
    std::basic_stringstream<C> s;

    lexertl::basic_debug<SM, C, Id>::dump(rules, s);
}

int main()
{
    all<char, std::uint8_t>();
    all<char, std::uint16_t>();
    all<char, std::uint32_t>();
    all<wchar_t, std::uint16_t>();
    all<char32_t, std::uint16_t>();
}
