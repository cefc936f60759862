// P11: minimise() changes nothing that can be observed by lexing
#include "csm.hpp"
#include "lexgen.hpp"

using namespace model;

namespace
{
    LexOpts options(Src& s, cp max)
    {
        LexOpts o;

        o.max = max;
        o.states = 3;
        o.rules = 6;
        o.twins = 60;
        o.depth = s.chance(70) ? 2 : 1;
        o.weight = 10;
        return o;
    }

    template<typename CharT>
    constexpr cp max_of()
    {
        return sizeof(CharT) == 1 ? 0xff : sizeof(CharT) == 2 ? 0xffff :
            0x10ffff;
    }

    // A machine that does not fit 8 bit ids says nothing
    template<typename Rules, typename SM>
    void build_any(const Lexer& l, const Rules& rules, SM& sm)
    {
        try
        {
            build(l, rules, sm);
        }
        catch (const lexertl::runtime_error& e)
        {
            if (sizeof(typename SM::id_type) == 1 && strstr(e.what(),
                "cannot hold")) throw pbt::Discard();

            throw;
        }
    }

    template<typename M, typename F>
    void rows_shrink(pbt::Case& c, M& m, std::size_t (*rows)(const M&), F eq)
    {
        const std::size_t before = rows(m);

        m.minimise();

        const std::size_t after = rows(m);

        pbt::check(after <= before, "minimise() added states: " +
            std::to_string(before) + " -> " + std::to_string(after));

        if (after < before) c.label("states removed");

        c.nontrivial = after < before;

        M again = m;

        again.minimise();
        pbt::check(eq(again, m), "a second minimise() changes the machine");
    }

    template<typename CharT, typename Id = uint16_t>
    void lookup_form(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT, Id>;
        using SM = lexertl::basic_state_machine<CharT, Id>;
        Src& s = c.src;
        std::vector<cp> alpha;
        Lexer l = gen_lexer(s, options(s, max_of<CharT>()), alpha);
        Rules rules(rule_flags(l.flags));
        SM sm;

        c.desc << describe(l, {});
        fill(l, rules);
        build_any(l, rules, sm);

        SM old = sm;

        rows_shrink<SM>(c, sm, csm::sm_rows<SM>, csm::sm_equal<SM>);
        pbt::check(sm.data()._features == old.data()._features &&
            sm.data()._eoi == old.data()._eoi && sm.data()._lookup ==
            old.data()._lookup, "minimise() changed more than the states");

        for (int i = 0; i < 8; ++i)
        {
            text in = gen_input(s, l, alpha);
            Cursor from;

            from.state = static_cast<int>(s.below(l.states.size()));
            from.bol = s.chance(70);
            c.desc << "\nfrom state " << from.state << " bol " << from.bol <<
                " input " << pbt::show(in);

            Run want = run(l, in, from);
            auto str = rx::to_input<CharT>(in);
            Run was = lex_any(old, str, true, from.state, from.bol);
            Run is = lex_any(sm, str, true, from.state, from.bol);

            compare(was, is, "minimised against the same machine before");
            compare(want, is, "minimised against the model");
            run_labels(c, want);
        }
    }

    template<typename CharT, typename Id = uint16_t>
    void char_form(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT, Id>;
        using M = lexertl::basic_char_state_machine<CharT, Id>;
        Src& s = c.src;
        std::vector<cp> alpha;
        Lexer l = gen_lexer(s, options(s, max_of<CharT>()), alpha);
        Rules rules(rule_flags(l.flags));
        M m;

        c.desc << describe(l, {});
        fill(l, rules);
        build_any(l, rules, m);

        M old = m;

        rows_shrink<M>(c, m, csm::rows<M>, csm::equal<M>);

        for (int i = 0; i < 8; ++i)
        {
            text in = gen_input(s, l, alpha);
            csm::Start from;

            from.state = static_cast<int>(s.below(l.states.size()));
            from.bol = s.chance(70);
            c.desc << "\nfrom state " << from.state << " bol " << from.bol <<
                " input " << pbt::show(in);

            Run was = csm::run(old, in, from);
            Run is = csm::run(m, in, from);

            compare(was, is, "minimised against the same machine before");
            run_labels(c, is);
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P11", "multi-state lexers where many rules differ from an "
        "earlier one by a prefix and at most one of id, user id, next state, "
        "push, return state, ^ and $, so that there are rows to merge and "
        "rows that must stay apart; eight inputs each from any state and line "
        "position; non-trivial: minimise() removed states");

    m.add("char lookup", 50000, 1000000, lookup_form<char>);
    m.add("char lookup 8 bit ids", 10000, 200000, lookup_form<char, uint8_t>);
    m.add("char lookup size_t ids", 5000, 100000, lookup_form<char,
        std::size_t>);
    m.add("char32 lookup", 10000, 200000, lookup_form<char32_t>);
    m.add("char16 lookup", 5000, 100000, lookup_form<char16_t>);
    m.add("char csm", 50000, 1000000, char_form<char>);
    m.add("char csm 8 bit ids", 5000, 100000, char_form<char, uint8_t>);
    m.add("char32 csm", 15000, 300000, char_form<char32_t>);
    return m.run(argc, argv);
}
