#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (claimed = has a harness in src)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/lexertl/"
P = []


def prop(id, title, statement, over, text, tests, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mech=mech, technique=technique, note=note, state=state or [], observe=observe or []))


prop("P01", "Longest match, first rule on ties",
     "For every rule set and every input, the token stream that lookup produces is the one defined by the regexes "
     "themselves: at each position the longest match of any rule, and among equally long matches the rule that was "
     "added first, with that rule's id and user id and the exact token boundaries. Characters at which no rule "
     "matches are reported one at a time with npos, skip() rules disappear, and the end of input is reported as id 0.",
     ["programs", "inputs"], "all rule sets of greedy regexes without anchors or states, all inputs",
     "The tests run a few dozen hand-written lexers over a handful of inputs; equal-length ties, backtracking after a "
     "failed longer match and interactions between rules are sampled at best once.",
     [I + "lookup.hpp", I + "generator.hpp", I + "parser/parser.hpp", I + "partition/equivset.hpp"],
     [("firstpos/followpos subset construction", I + "generator.hpp: basic_generator::build_dfa, closure"),
      ("character equivalence classes", I + "generator.hpp: build_equivset, fill_rhs_list"),
      ("longest match loop", I + "lookup.hpp: detail::next")],
     "property-based testing against a reference lexer",
     "generated rule sets and inputs; the oracle interprets the syntax trees directly (no automata)",
     observe=["match_results after each lookup()"])

prop("P02", "Every regex spelling denotes its documented language",
     "Every regex built from the documented syntax (literals, escapes, dot, charsets and class shortcuts, quotes, "
     "groups, alternation, every repetition form, options such as (?isx-isx:...), comments and the rule-set flags) "
     "matches exactly the strings the documentation says it matches. Two different spellings of the same expression "
     "give lexers that behave identically on every input.",
     ["programs", "inputs"], "all regexes over the documented syntax, all spellings of each, all inputs",
     "The table test checks that some regexes are accepted or rejected and a few match one string; nothing relates "
     "spellings to each other or to the language they denote.",
     [I + "parser/tokeniser/re_tokeniser.hpp", I + "parser/tokeniser/re_tokeniser_helper.hpp",
      I + "parser/parser.hpp"],
     [("tokeniser", I + "parser/tokeniser/re_tokeniser.hpp: basic_re_tokeniser::next"),
      ("operator precedence parser and repeats", I + "parser/parser.hpp: basic_parser::parse, repeatn, repeat_range"),
      ("escapes", I + "parser/tokeniser/re_tokeniser_helper.hpp: escape_sequence, chr, decode_hex")],
     "property-based testing: printer of random syntax trees, reference matcher, metamorphic respelling",
     "trees are printed in random spellings and matched by a set-of-positions matcher written for this purpose",
     observe=["tokens"])

prop("P03", "Unicode properties, POSIX classes and case folding match the UCD",
     "In a char32_t lexer every \\p{...} general category, script and block, and every class defined through them, "
     "contains exactly the code points the Unicode Character Database assigns to it, for the Unicode version the "
     "library was generated from. In a case-insensitive rule a character matches exactly itself and its simple case "
     "counterparts, in ranges, sets, strings and negated sets alike, and narrow lexers do the same for ASCII.",
     ["inputs", "configurations"], "all 1,114,112 code points, all property names, all charsets",
     "No test enumerates code points; the existing ones use ASCII.",
     [I + "parser/tokeniser/unicode.hpp", I + "parser/tokeniser/scripts.hpp", I + "parser/tokeniser/blocks.hpp",
      I + "parser/tokeniser/fold.inc", I + "parser/tokeniser/re_tokeniser_helper.hpp"],
     [("generated tables", I + "parser/tokeniser/unicode.hpp"),
      ("case folding", I + "parser/tokeniser/re_tokeniser_helper.hpp: fold, add_range")],
     "exhaustive enumeration of code points plus property-based testing of folded sets, against the UCD",
     "the oracle is generated from the UCD files of the same version and Python's case mappings",
     observe=["membership of every code point in [\\p{X}]"])

prop("P04", "Wide lexers match all of Unicode, and agree with narrow ones",
     "A lexer over char16_t, wchar_t or char32_t (including char rules for char32_t text) matches exactly the "
     "characters of each charset in every plane, whatever bytes the characters share, and never half a character. "
     "The same ASCII rules built for any character type give the same tokens on ASCII text, and a char32_t lexer "
     "gives the same tokens on UTF-8 or UTF-16 text read through the library's iterators as on decoded text.",
     ["programs", "inputs", "configurations"], "all charsets over 0..10FFFF, all texts, all character types",
     "The tests build almost only narrow lexers; the byte-slicing of wide characters is untested across planes.",
     [I + "parser/parser.hpp", I + "lookup.hpp", I + "sm_traits.hpp", I + "utf_iterators.hpp"],
     [("charsets sliced into byte sequences", I + "parser/parser.hpp: create_sequence, insert_range"),
      ("byte-wise lookup of wide characters", I + "lookup.hpp: next_char overloads")],
     "property-based testing against a reference lexer; differential testing between character types",
     "boundary-biased charsets in every plane, probed at and around all boundaries",
     observe=["tokens"])

prop("P05", "^ and $ match exactly at line boundaries",
     "A rule that starts with ^ matches only at the start of the input or after a \\n, and a rule that ends with $ "
     "matches only before a \\n, a \\r\\n or the end of the input, without consuming the line end; both behave so "
     "for every combination of anchored and unanchored rules and alternatives. An anchored rule takes part in "
     "longest match like any other, and at equal length a $ match is preferred.",
     ["programs", "inputs"], "all rule sets with anchors and all texts with \\n, \\r and \\r\\n; rule sets in which "
     "a $ competes with a newline that completes a token are reported or resolved as documented",
     "The tests hold a handful of anchored single rules.",
     [I + "generator.hpp", I + "lookup.hpp", I + "parser/parser.hpp", I + "rules.hpp"],
     [("pseudo characters for line ends", I + "generator.hpp: fix_clashes, prune_clashes"),
      ("^ handled by a separate start state", I + "parser/parser.hpp: fixup_bol; " + I + "lookup.hpp: bol_start_state"),
      ("end of line transitions", I + "lookup.hpp: eos_eol, is_eol")],
     "property-based testing against a reference lexer",
     "random anchored rule sets for char, char16_t and char32_t; ambiguous newline clashes are filtered with an "
     "independent subset construction", observe=["tokens", "match_results::bol"])

prop("P06", "Lexer states, the state stack, skip and again follow the rules",
     "For every multi-state lexer the state, the return stack and the tokens evolve exactly as its rules say: a rule "
     "is tried only in its states (* means all), the next state or . is entered, >S and >S:R push a return state, < "
     "pops to it, skip() drops text, and a rule without an id continues the same token, also across a push and pop. "
     "Popping an empty stack is reported as an error and never as undefined behaviour.",
     ["programs", "histories"], "all state machines with pushes, pops, continuations, and all inputs",
     "The tests exercise one or two hand-written state machines.",
     [I + "rules.hpp", I + "lookup.hpp", I + "match_results.hpp"],
     [("state stack", I + "lookup.hpp: lookup_state::pop, match_recursive"),
      ("state names to ids", I + "rules.hpp: push, next_dfas, process_state")],
     "model-based testing against a reference lexer with an explicit state stack",
     "random state graphs with push, pop, *, lists, skip and again", state=[
         ("state, stack", "current lexer state and pending return states", I + "match_results.hpp")],
     observe=["id, user_id, first, second, state, stack of match_results"])

prop("P07", "Non-greedy operators stop at the first accepting point",
     "A rule that ends in a non-greedy repeat (*?, +?, ??, {n,m}?) matches as if that repeat were taken the fewest "
     "times, and a delimited rule such as \"/*\"(?s:.)*?\"*/\" never runs past the first terminator. Rules "
     "without non-greedy operators in the same lexer are unaffected.",
     ["programs", "inputs"], "all rules with trailing lazy repeats, all delimited rules whose repeated set contains "
     "every character of the terminator or none it starts with, alone and among rules that do not match the same "
     "text, all inputs",
     "The tests match two or three fixed comments.",
     [I + "generator.hpp", I + "parser/parser.hpp", I + "parser/tree/leaf_node.hpp", I + "rules.hpp"],
     [("greedy flags of positions", I + "parser/tree/leaf_node.hpp, end_node.hpp"),
      ("hard/soft repeats when states are merged", I + "generator.hpp: closure_ex, greedy handling")],
     "property-based testing against a reference matcher of the shortest match",
     "restricted to the shapes for which the shortest match is well defined", observe=["tokens"])

prop("P08", "Macros and charset arithmetic mean their expansion",
     "Using a macro as {NAME} anywhere a regex is allowed matches the same as writing its regex in parentheses in "
     "that place, for nested macros, macros with alternation or anchors, and any order of use; a macro keeps the "
     "options of the rule set it was defined under. {A}{-}{B} and "
     "{A}{+}{B} match exactly the difference and union of the two charsets, for any charsets including negated ones.",
     ["programs", "inputs"], "all macro sets, uses and charset expressions", "The tests have a few fixed macros.",
     [I + "rules.hpp", I + "parser/parser.hpp", I + "parser/tokeniser/re_tokeniser_helper.hpp",
      I + "string_token.hpp"],
     [("macro substitution", I + "rules.hpp: insert_macro, tokenise; re_tokeniser.hpp"),
      ("charset diff and add", I + "parser/parser.hpp: charset operators")],
     "metamorphic and model-based property testing (macro use versus expansion; set algebra)",
     "expansion is done on the syntax tree by the reference model", observe=["tokens", "exceptions"])

prop("P09", "Invalid rule sets are rejected, valid ones are not",
     "Rules that can match the empty string, can never match, are malformed, use reserved ids or illegal names, name "
     "unknown states or macros, or redefine a macro, and lexers with an empty state, are rejected with a "
     "lexertl::runtime_error; rule sets without such a fault are accepted. The flags that allow zero-length and "
     "suppressed rules switch off exactly those two checks.",
     ["programs", "configurations"], "all rule sets, valid and invalid by exactly one fault",
     "The table test has a fixed list of bad regexes; unmatchable rules need reachability over the automaton.",
     [I + "rules.hpp", I + "generator.hpp", I + "parser/parser.hpp", I + "parser/tokeniser/re_tokeniser.hpp"],
     [("validation of names and ids", I + "rules.hpp: validate, check_for_invalid_id"),
      ("zero length and unmatchable rules", I + "generator.hpp, parser.hpp: checks before build")],
     "property-based testing against an independent subset construction and fault injection into valid rule sets",
     "the oracle decides matchability with its own determinisation", observe=["exceptions"])

prop("P10", "Arbitrary text as rules or input is handled safely",
     "Any text passed as a regex, macro, state name or input either works or is refused with a lexertl::runtime_error: "
     "no crash, out-of-bounds access, undefined behaviour, or endless loop, whatever the bytes. A rule set that was "
     "accepted lexes every input to its end, with contiguous tokens that never leave the input. (Repeats are "
     "expanded, so building takes time and memory in proportion to their counts.)",
     ["inputs", "programs"], "all byte strings as regexes, macros, names and inputs",
     "The tests give the parser well-formed text and one list of known-bad regexes, without sanitizers.",
     [I + "parser/tokeniser/re_tokeniser.hpp", I + "parser/tokeniser/re_tokeniser_helper.hpp",
      I + "parser/parser.hpp", I + "lookup.hpp"],
     [("error paths of the tokeniser and parser", I + "parser/tokeniser/re_tokeniser_helper.hpp"),
      ("bounds of the match loop", I + "lookup.hpp")],
     "fuzzing (grammar-aware and mutation-based, and coverage-guided by libFuzzer) under ASan and UBSan",
     "any crash, sanitizer report, foreign exception, hang or token outside the input is a violation",
     observe=["process status", "exceptions", "tokens"])

prop("P11", "Minimising a state machine does not change what it matches",
     "After minimise() a state machine, in lookup form and in character form, produces exactly the same tokens, "
     "states and stack as before on every input, and never has more states. Minimising again changes nothing.",
     ["programs", "inputs"], "all lexers including anchors, states, stacks and user ids; all inputs",
     "The tests never compare a machine before and after minimise().",
     [I + "state_machine.hpp"],
     [("partition refinement", I + "state_machine.hpp: minimise, minimise_dfa")],
     "differential property-based testing (before/after) plus the reference lexer",
     "random multi-state lexers with anchors and stacks", observe=["tokens", "size of the machine"])

prop("P12", "Saved state machines load back identically",
     "save() followed by load() gives a state machine equal in every field and behaviour to the one saved, for "
     "every lexer, character type and id type. A stream that was written for another character or id size, is "
     "truncated, or is not a saved machine is refused with an error and never gives undefined behaviour.",
     ["programs", "inputs", "fault_sequences"], "all lexers; all truncations and single-field corruptions",
     "No test loads a saved machine.",
     [I + "serialise.hpp", I + "stream_num.hpp", I + "state_machine.hpp"],
     [("text format with sizes and ids", I + "serialise.hpp: save, load")],
     "round-trip property testing and fault injection into the stream",
     "random lexers of each character and id type; truncation at every point", observe=["fields", "tokens", "errors"])

prop("P13", "Character state machines are equivalent to lookup machines",
     "The character-based state machine generated from a rule set accepts in each state exactly the longest "
     "matches that lookup reports, with the same id, user id, next state and stack effect, and converting a lookup "
     "machine to character form gives an equivalent machine. Each state's transitions are disjoint.",
     ["programs", "inputs"], "all narrow and wide rule sets, all inputs",
     "Character machines are only used in debug dumps by the tests.",
     [I + "generator.hpp", I + "state_machine.hpp", I + "sm_to_csm.hpp"],
     [("csm construction", I + "state_machine.hpp: basic_char_state_machine::append"),
      ("conversion", I + "sm_to_csm.hpp")],
     "model-based testing: an interpreter of character machines against the reference lexer",
     "the interpreter is part of the harness", observe=["fields of basic_char_state_machine"])

prop("P14", "Generated C++ lexers behave like lookup",
     "The C++ function that the code generator writes for a state machine compiles and returns, for every input, the "
     "same tokens, ids, user ids, boundaries, states and stack as lookup with the same machine. This holds for index "
     "tables and for pointer tables, every character and id type, with anchors, states, recursion, skip and again.",
     ["programs", "inputs"], "all state machines that the generator accepts, all inputs",
     "No test compiles generated code.",
     [I + "generate_cpp.hpp"],
     [("emitted lookup function", I + "generate_cpp.hpp: table_based_cpp::generate, dump_tables, dump_row, output_char_loop")],
     "differential property testing: the code for random lexers is compiled, loaded and run against lookup",
     "the compiler runs once per case, so that there are hundreds of lexers rather than many thousands (quick)", observe=["tokens"])

prop("P15", "replace() rewrites exactly the matches",
     "replace() returns the input with every matched token that is not skipped substituted and everything else "
     "copied unchanged and in order, for all its overloads, container types and flags. The result is the same for "
     "string, iterator, array and C-string arguments.",
     ["programs", "inputs"], "all lexers, inputs and replacement maps", "One fixed example in the documentation.",
     [I + "replace.hpp"], [("copy loop", I + "replace.hpp: replace overloads")],
     "property-based testing against a reference substitution",
     "tokens are taken from the reference lexer", observe=["result string"])

prop("P16", "Stream iterators deliver the stream regardless of buffering",
     "Lexing a std::istream through the shared stream iterator gives the same tokens and texts as lexing the same "
     "text from memory, for every buffer size, increment and token length. Copies of an iterator stay valid and "
     "independent while others advance, and reading past the end is the end-of-input iterator.",
     ["inputs", "histories", "configurations"], "all texts, buffer sizes and sequences of copies and advances",
     "One small example reads a stream.",
     [I + "stream_shared_iterator.hpp"],
     [("shared ring buffer and lowest position", I + "stream_shared_iterator.hpp: reload_buffer, check_buffer")],
     "stateful property testing against a plain string",
     "random sequences of copy, advance, compare, destroy under sanitizers", observe=["characters", "tokens"])

prop("P17", "UTF iterators encode and decode exactly",
     "Decoding any valid UTF-8 or UTF-16 text with the input iterators yields its code points, encoding any code "
     "points with the output iterators yields the valid encoding, and the two are inverse; advancing, adding and "
     "subtracting counts move by whole characters. Malformed or truncated sequences never cause reads outside the "
     "text and are reported or replaced as documented.",
     ["inputs"], "all code points, texts, positions and malformed sequences",
     "The tests encode a few hand-picked characters.",
     [I + "utf_iterators.hpp"],
     [("decoding", I + "utf_iterators.hpp: basic_utf8_in_iterator::next, basic_utf16_in_iterator::next"),
      ("encoding", I + "utf_iterators.hpp: basic_utf8_out_iterator, basic_utf16_out_iterator")],
     "round-trip and exhaustive property testing against an independent codec",
     "all code points exhaustively, random texts, malformed sequences under ASan", observe=["characters"])

prop("P18", "memory_file exposes exactly the file's bytes",
     "For every file, memory_file's data and size are the file's contents, for files of any size including empty and "
     "page-sized ones and for any character type. Opening, closing and reopening in any order works, releases every "
     "mapping and descriptor, and a missing file is reported as empty without a crash.",
     ["inputs", "histories"], "all file contents and sequences of open, close, reopen, destroy",
     "No test opens a file.", [I + "memory_file.hpp"],
     [("mmap and munmap", I + "memory_file.hpp: open, close")],
     "stateful property testing with scratch files", "descriptors and mappings counted through /proc/self",
     observe=["data()", "size()", "open descriptors", "mappings"])

prop("P19", "reverse() lexes reversed text",
     "After rules.reverse() the lexer matches exactly the reversals of the strings its rules matched before, for "
     "every regex, macro and state, with ^ and $ exchanged.",
     ["programs", "inputs"], "all rule sets and inputs", "The tests reverse one or two rules.",
     [I + "rules.hpp"], [("reversal of token sequences", I + "rules.hpp: reverse")],
     "metamorphic property testing against the reference lexer on reversed syntax trees", "", observe=["tokens"])

prop("P20", "Printed rules mean the same as the rules",
     "The textual dump of a rule set written by the debug facility, fed back into a new lexer, gives a lexer that "
     "behaves identically on every input, for all characters, charsets, states, macros and ids (dumps do not show "
     "user ids).",
     ["programs", "inputs"], "all rule sets", "No test parses a dump back.",
     [I + "debug.hpp"], [("dump of rules", I + "debug.hpp: basic_debug::dump")],
     "round-trip property testing (dump, parse, rebuild, compare)", "", observe=["dump", "tokens"])

prop("P21", "Failed operations leave lexers usable; results are deterministic",
     "An operation on a rule set that throws (a bad rule, macro, state or id) leaves the rule set as if it had not "
     "been attempted, so that further use gives the same lexer as without it. Building twice, from copies, into "
     "used machines, after clear(), or continuing from copied iterators gives the same results.",
     ["histories"], "all sequences of valid and failing operations, copies, clears and rebuilds",
     "The tests stop at the first exception.",
     [I + "rules.hpp", I + "generator.hpp", I + "state_machine.hpp", I + "iterator.hpp"],
     [("ordering of validation and mutation", I + "rules.hpp: push, insert_macro, push_state"),
      ("clear", I + "rules.hpp, state_machine.hpp, internals.hpp: clear")],
     "stateful model-based testing", "histories with injected failing operations", observe=["exceptions", "tokens"])

prop("P22", "All ways of running a lexer agree",
     "lookup, iterators, ranges, match_results and recursive_match_results, every sufficient set of feature flags, "
     "every id type that can hold the machine, forward and random access input, and every machine type give the "
     "same tokens for the same lexer and input. A machine too large for its id type is refused with an error, and "
     "never silently truncated.",
     ["programs", "inputs", "configurations"], "all lexers, feature sets, id types, iterator kinds",
     "The tests use the default feature set, id type and string iterators.",
     [I + "lookup.hpp", I + "iterator.hpp", I + "range.hpp", I + "match_results.hpp", I + "generator.hpp"],
     [("feature bits select code", I + "lookup.hpp: integral_constant dispatch"),
      ("overflow check", I + "generator.hpp: DFA row limits")],
     "differential property-based testing between configurations", "", observe=["tokens", "exceptions"])

prop("P23", "Character sets obey set algebra",
     "basic_string_token is a set of characters: whatever ranges are inserted, in any order, overlapping, adjacent, "
     "nested or at the ends of the character type, it holds exactly their union in sorted, disjoint, merged form, "
     "and insert, remove, intersect, negate, any, empty and comparison give what the set operations give, for "
     "every character type.",
     ["inputs", "histories"], "all sequences of operations on sets over char, char16_t and char32_t",
     "The tests only reach the sets their regexes happen to build.",
     [I + "string_token.hpp"],
     [("range list", I + "string_token.hpp: basic_string_token::insert, remove, negate, intersect")],
     "stateful model-based property testing against a reference set",
     "random operation sequences against a sorted interval map / bitmap", observe=["_ranges", "results of queries"])

prop("P24", "Automaton dumps describe the automaton",
     "The textual dump (basic_debug::dump) of a char or wide state machine lists exactly its lexer states, DFA states, "
     "ids, user ids, next lexer states, push/pop marks, anchors and character transitions: a machine rebuilt from the "
     "text gives the same tokens on every input. The Graphviz dump (basic_dot::dump) lists exactly its DFA states, "
     "which of them match and with what id, the character transitions and the changes of lexer state, in labels that "
     "are escaped so that they can be read back without ambiguity, and names no state that does not exist. Both can be "
     "written for every character type and id type that the library supports.",
     ["programs", "inputs"], "all machines", "Dumps are never parsed.",
     [I + "debug.hpp", I + "dot.hpp"],
     [("dump", I + "debug.hpp: dump_ex"), ("graph", I + "dot.hpp: basic_dot::dump")],
     "round-trip property testing (parse the dump, simulate, compare)", "", observe=["dump text"])


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["tests"],
                     anchors=dict(files=p["files"],
                                  mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=p["observe"], hook_needed=None))
            if p["state"]:
                d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(V, "src", i + ".cpp")):
            checks.append(dict(property=i, quick_cmd="./check.py %s --tier quick" % i,
                               thorough_cmd="./check.py %s --tier thorough" % i,
                               technique=p["technique"], level="exploration",
                               level_note=p["note"] or p["technique"], evidence_file="evidence/%s.json" % i))
        else:
            na.append(dict(property=i, reason="not claimed yet: no check has been built for it"))
    m = dict(version=1, setup_cmd="python3 -m py_compile check.py", checks=checks, not_applicable=na,
             notes="Every check compiles its harness (src/<id>.cpp) against /repo/include, with g++ -O1 and with "
                   "clang ASan+UBSan, and runs both. No hooks: only the public headers are used.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
