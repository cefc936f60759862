L = "include/lexertl/"
SEEDS = [
dict(id="user-id-of-same-id", property="P01",
     needs="two rules with the same id but different user ids, one matching a prefix of the other's match",
     breaks="when a longer match of a rule with the same id supersedes a shorter one, the user id of the shorter stays",
     edits=[(L + "lookup.hpp", """
                    _id = *(_ptr + *state_index::id);
                    _uid = *(_ptr + *state_index::user_id);
                    reset_recursive(std""", """
                    if (end_token_ == curr_ || _id != *(_ptr + *state_index::id))
                    {
                        _uid = *(_ptr + *state_index::user_id);
                    }

                    _id = *(_ptr + *state_index::id);
                    reset_recursive(std""")],
     demo=r'''
int main()
{
    lexertl::rules r;
    lexertl::state_machine sm;
    r.push("a", 1, 10);
    r.push("ab", 1, 20);
    r.push("[cd]", 2);
    lexertl::generator::build(r, sm);
    std::string in = "abacab";
    return same(run(sm, lexertl::smatch(in.begin(), in.end())), "1:20:ab 1:10:a 2:-:c 1:20:ab ");
}
'''),
dict(id="flags-after-nested-group", property="P02",
     needs="a plain group nested in a group with options, with more characters after the inner group",
     breaks="the closing bracket of a plain group ends the options of the group around it",
     edits=[(L + "parser/tokeniser/re_tokeniser.hpp", """
            else if (!state_._flags_stack.empty())
            {
                state_._flags_stack.push(state_._flags);
            }
""", """
            else if (state_._flags_stack.size() > 1)
            {
                state_._flags_stack.push(state_._flags);
            }
""")],
     demo=r'''
int main()
{
    lexertl::rules r;
    lexertl::state_machine sm;
    r.push("(?i:x(yz)w)", 1);
    lexertl::generator::build(r, sm);
    std::string in = "xyzwXYZW";
    return same(run(sm, lexertl::smatch(in.begin(), in.end())), "1:-:xyzw 1:-:XYZW ");
}
'''),
dict(id="fold-range-end", property="P03",
     needs="a case-insensitive range that starts before a folding range and ends inside it, above 0xffff",
     breaks="the end of a folded range is one character short in the planes above the BMP",
     edits=[(L + "parser/tokeniser/re_tokeniser_helper.hpp", """
                    out_.insert(range(ptr_->to.first,
                        ptr_->to.first + (range_.second -
                            ptr_->from.first)));
                }
                // Either range fully encompasses from range or not at all.
                else if (ptr_->from.first >= range_.first &&
                    ptr_->from.first <= range_.second)
                {
                    out_.insert(range(ptr_->to.first, ptr_->to.second));
""", """
                    out_.insert(range(ptr_->to.first,
                        ptr_->to.second - (ptr_->from.second -
                            range_.second + 1)));
                }
                // Either range fully encompasses from range or not at all.
                else if (ptr_->from.first >= range_.first &&
                    ptr_->from.first <= range_.second)
                {
                    out_.insert(range(ptr_->to.first, ptr_->to.second));
""")],
     demo=r'''
int main()
{
    lexertl::u32rules r;
    lexertl::u32state_machine sm;
    r.push(U"(?i:[\\x103f0-\\x10410])", 1);
    r.push(U".", 2);
    lexertl::u32generator::build(r, sm);
    // 10410 folds to 10438
    std::u32string in = U"\U00010438\U00010410\U00010439";
    lexertl::match_results<std::u32string::const_iterator> m(in.begin(), in.end());
    std::string got;
    do
    {
        lexertl::lookup(sm, m);
        got += std::to_string(m.id) + ' ';
    } while (m.id != sm.eoi());
    return same(got, "1 1 2 0 ");
}
'''),
dict(id="planes-skip-next", property="P04",
     needs="a charset range of a char32_t lexer that starts in one plane with a middle byte of 0xff and ends in a later one",
     breaks="a range that starts in the last 256 characters of a plane matches the whole plane",
     edits=[(L + "parser/parser.hpp", """
                if (first_mid_ != 0xff)
                {
                    insert_range(first_msb_, first_msb_,
                        first_mid_ + 1, 0xff,
                        0, 0xff, data_);
                }
""", """
                if (first_mid_ != 0xff || first_lsb_ == 0)
                {
                    insert_range(first_msb_, first_msb_,
                        static_cast<unsigned char>(first_mid_ + 1), 0xff,
                        0, 0xff, data_);
                }
""")],
     demo=r'''
int main()
{
    lexertl::u32rules r;
    lexertl::u32state_machine sm;
    r.push(U"[\\x1ff00-\\x20010]", 1);
    r.push(U"[\\x0-\\x1feff]", 2);
    lexertl::u32generator::build(r, sm);
    std::u32string in = U"\U0001ff00\U00020010\U00010000a";
    lexertl::match_results<std::u32string::const_iterator> m(in.begin(), in.end());
    std::string got;
    do
    {
        lexertl::lookup(sm, m);
        got += std::to_string(m.id) + ' ';
    } while (m.id != sm.eoi());
    return same(got, "1 1 2 2 0 ");
}
'''),
dict(id="bol-after-backtrack", property="P05",
     needs="a match attempt that runs past a newline (or up to one) and then falls back to a shorter match",
     breaks="whether the next token is at the start of a line is taken from how far the lexer looked, not from where the match ended",
     edits=[(L + "lookup.hpp", """
                end_bol_ = _bol_state._end_bol;
""", """
                end_bol_ = _bol_state._bol;
""")],
     demo=r'''
int main()
{
    lexertl::rules r;
    lexertl::state_machine sm;
    r.push("^b", 1);
    r.push("a", 2);
    r.push("ab\\nc", 3);
    r.push("b", 4);
    r.push("\\n", 5);
    lexertl::generator::build(r, sm);
    std::string in = "ab\nab\nb";
    return same(run(sm, lexertl::smatch(in.begin(), in.end())), "2:-:a 4:-:b 5:-:\n 2:-:a 4:-:b 5:-:\n 1:-:b ");
}
'''),
dict(id="again-inside-push", property="P06",
     needs="a rule without an id that pushes a state in which rules with an id match",
     breaks="tokens found while a continued token's return state is on the stack are swallowed by it",
     edits=[(L + "lookup.hpp", """
                return _id == eoi_ || (_recursive_state._pop &&
                    !results_.stack.empty() &&
                    results_.stack.top().second == eoi_);
""", """
                return _id == eoi_ || (!results_.stack.empty() &&
                    results_.stack.top().second == eoi_ &&
                    (_recursive_state._pop || results_.stack.size() > 1));
""")],
     demo=r'''
int main()
{
    lexertl::rules r;
    lexertl::state_machine sm;
    r.push_state("A");
    r.push("INITIAL", "[(]", ">A");
    r.push("A", "[(]", ">A");
    r.push("A", "x", 2, ".");
    r.push("A", "[)]", 3, "<");
    r.push("INITIAL", "y", 4, ".");
    lexertl::generator::build(r, sm);
    std::string in = "(x)y((x))y";
    return same(run(sm, lexertl::srmatch(in.begin(), in.end())), "2:-:(x 3:-:) 4:-:y 2:-:((x 3:-:)) 4:-:y ");
}
'''),
dict(id="lazy-over-greedy", property="P07",
     needs="a non-greedy rule listed before a greedy one with a repeat over the same characters",
     breaks="the transitions of a greedy repeat are pruned when a non-greedy repeat of an earlier rule shares them",
     edits=[(L + "partition/equivset.hpp", """
                if (rhs_._greedy == greedy_repeat::hard)
                    overlap_._greedy = rhs_._greedy;
                else
                    overlap_._greedy = _greedy;
""", """
                if (rhs_._greedy == greedy_repeat::hard &&
                    rhs_._followpos.size() > _followpos.size())
                    overlap_._greedy = rhs_._greedy;
                else
                    overlap_._greedy = _greedy;
""")],
     demo=r'''
int main()
{
    lexertl::rules r;
    lexertl::state_machine sm;
    r.push("<.*?>", 1);
    r.push("<[a-z>]*", 2);
    r.push("(?s:.)", 3);
    lexertl::generator::build(r, sm);
    std::string in = "<ab>cd <ab";
    return same(run(sm, lexertl::smatch(in.begin(), in.end())), "2:-:<ab>cd 3:-:  2:-:<ab ");
}
'''),
dict(id="stale-macro-before-diff", property="P08",
     needs="a charset with {-} or {+} in a regex that used a macro of several tokens before it",
     breaks="a macro used earlier in the regex counts as the left operand of {-}",
     edits=[(L + "rules.hpp", """
                    tokens_.push_back(rhs_);
                    lhs_ = &tokens_.back();
                    macro_.clear();
""", """
                    tokens_.push_back(rhs_);
                    lhs_ = &tokens_.back();

                    if (rhs_._type != detail::token_type::CHARSET)
                        macro_.clear();
""")],
     demo=r'''
int main()
{
    try
    {
        lexertl::rules r;
        lexertl::state_machine sm;
        r.insert_macro("M", "xy");
        r.push("{M}[a-z]{-}[q]", 1);
        r.push("[^z]", 2);
        lexertl::generator::build(r, sm);
        std::string in = "xyaxyq";
        return same(run(sm, lexertl::smatch(in.begin(), in.end())), "1:-:xya 2:-:x 2:-:y 2:-:q ");
    }
    catch (const lexertl::runtime_error& e)
    {
        std::puts(e.what());
        return 1;
    }
}
'''),
]
