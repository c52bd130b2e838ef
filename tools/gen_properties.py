#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "A compiled pattern finds exactly the longest matching prefix",
  "For every pattern and every input, matching reports the length of the longest prefix of the input that belongs to the regular language the pattern denotes, and reports no match exactly when no prefix (not even the empty one) belongs to it. Ranges include both ends, unbounded repetition with minimum n means n or more copies, bounded repetition start..end means any number of copies from start up to but excluding end. Compiling a valid pattern always terminates without panicking, whatever its symbols, including the smallest and largest values of the symbol type.",
  ["inputs", "programs"], "every pattern tree (any nesting of literals, ranges, sequences, alternatives, repetitions), every choice of symbols in it and every input string",
  "The tests match about twenty fixed patterns against fixed strings over well separated ASCII letters; overlapping, adjacent and extreme ranges, nested repetitions and their combinations are infinite in number.",
  ["src/regular_pattern.rs", "src/ndfa.rs", "src/overlapping_symbols.rs", "src/dfa_compiler.rs", "src/symbol_range_dfa.rs", "src/matches.rs", "src/prepare.rs"],
  [("Pattern::compile builds an NDFA", "src/regular_pattern.rs"), ("Ndfa::fix_overlapping_ranges", "src/ndfa.rs"), ("subset construction", "src/dfa_compiler.rs DfaCompiler::compile"), ("longest accept is remembered while running", "src/symbol_range_dfa.rs SymbolRangeState::next")],
  ["matches", "matches_prepared", "match_pattern", "Pattern::prepare_to_match"])

p("C02", "Token clashes resolve to the longest match, then the lowest token",
  "For every set of token patterns and every input, the matcher reports the longest prefix matched by any of the patterns together with the lowest-ordered token among all the patterns that match exactly that prefix. The answer does not depend on the order in which the patterns were added and is the same on every run, and this includes the empty prefix.",
  ["inputs", "programs"], "every list of (pattern, token) pairs in any order, with any token values, duplicates included, and every input",
  "One test checks one clash between two fixed patterns; empty matches with several candidate tokens, repeated tokens and three-way clashes are never tried.",
  ["src/tokenizer.rs", "src/dfa_compiler.rs", "src/ndfa.rs"],
  [("patterns compiled from a common start state", "src/tokenizer.rs TokenMatcher::to_ndfa"), ("lowest output of the merged states", "src/dfa_compiler.rs DfaTransitions::output_symbol")],
  ["TokenMatcher::add_pattern", "TokenMatcher::prepare_to_match", "match_pattern"])

p("C03", "Compiling any hand-built state machine preserves what it accepts",
  "For every non-deterministic state machine built through the public construction calls (transitions on ranges, joins, output symbols, in any order, cycles included) and then freed of overlapping ranges, the compiled matcher accepts on every input exactly the longest prefix some path of the machine accepts. The output it reports is the lowest-ordered output symbol of all states reachable on that prefix, joins included.",
  ["programs", "inputs"], "every finite machine graph, every order of construction calls, every symbol range and output value, every input",
  "The compiler tests only build machines from two string patterns; general graphs, joins that form cycles and several outputs reachable together are never compiled.",
  ["src/dfa_compiler.rs", "src/ndfa.rs", "src/symbol_range_dfa.rs"],
  [("worklist subset construction with known-state map", "src/dfa_compiler.rs DfaCompiler::compile"), ("join closure", "src/ndfa.rs Ndfa::get_join_closure")],
  ["MutableStateMachine", "Ndfa::fix_overlapping_ranges", "DfaCompiler::build", "match_pattern"])

p("C04", "Joined states share transitions transitively and one way",
  "In every state machine, the transitions reported for a state are exactly its own plus those of every state reachable from it through joins, whether they were added before or after the join, and nothing flows in the opposite direction. An output is reported for a state exactly when that state or one reachable through joins has an output set, the state's own output taking precedence. The number of states is one more than the highest state ever mentioned.",
  ["histories", "programs"], "every sequence of construction calls, including self-joins, cycles and repeated joins",
  "Tests exercise chains of at most three states and one two-state cycle, always in one construction order.",
  ["src/ndfa.rs", "src/state_machine.rs"],
  [("get_join_closure follows joins with a visited set", "src/ndfa.rs")],
  ["StateMachine::get_transitions_for_state", "StateMachine::output_symbol_for_state", "StateMachine::count_states", "MutableStateMachine::join_states"])

p("C05", "Splitting overlapping ranges yields an exact partition",
  "For every set of symbol ranges, the non-overlapping form is a sorted list of pairwise disjoint ranges that covers exactly the symbols covered by the originals, such that every original range is exactly the union of the pieces that touch it. It is produced without panicking for ranges that reach the smallest or largest value of the symbol type.",
  ["inputs", "histories"], "every finite multiset of ranges, in every insertion order, over the whole symbol domain",
  "Tests use at most three ranges over the integers 0..15; the interleavings of start and end points that occur with four or more ranges, shared starts and domain limits are not reached.",
  ["src/overlapping_symbols.rs", "src/countable.rs"],
  [("to_non_overlapping_map sweep with a sorted stack", "src/overlapping_symbols.rs")],
  ["SymbolMap::add_range", "SymbolMap::to_non_overlapping_map", "SymbolMap::find_overlapping_ranges"])

p("C06", "Range lookup returns every overlapping range and nothing else",
  "For every collection of ranges, overlapping or not, looking up a range returns exactly the stored ranges that share at least one symbol with it, each once, in ascending order. Adding a range that is already present changes nothing.",
  ["inputs", "histories"], "every set of stored ranges in any insertion order and every query range",
  "Tests look up four queries in maps of two or three ranges; the source itself carries a TODO asking whether a range can be missed.",
  ["src/overlapping_symbols.rs"],
  [("sorted insertion by binary search", "src/overlapping_symbols.rs add_range"), ("scan from the insertion point", "src/overlapping_symbols.rs find_overlapping_ranges")],
  ["SymbolMap::add_range", "SymbolMap::find_overlapping_ranges"])

p("C07", "Symbol range operations agree with sets of symbols",
  "For all ranges over every supported symbol type: a range includes a symbol exactly when it lies between the two inclusive ends, two ranges overlap exactly when some symbol is in both (symmetrically), and joining gives the smallest range containing both. Ordering ranges is a total order consistent with equality (lowest end first, then highest), and creating a range with reversed ends panics while every ordered pair is accepted unchanged.",
  ["inputs"], "all pairs/triples of ranges and all symbols of u8..u64, usize, i8..i64, isize and char",
  "Tests check a dozen pairs of small i32 ranges; full-width values, extremes and char are not covered.",
  ["src/symbol_range.rs"],
  [("SymbolRange::new, includes, overlaps, join, Ord", "src/symbol_range.rs")],
  ["SymbolRange"])

p("C08", "Next and previous symbol are the true neighbours",
  "For every symbol type, the next value of any symbol but the greatest is the smallest symbol greater than it, and the previous value of any symbol but the least is the greatest symbol smaller than it; next and previous therefore undo each other. For characters this holds across the gap of invalid code points too.",
  ["inputs"], "every value of every countable type (u8..u64, usize, i8..i64, isize, char)",
  "Tests try one value per type (1, or 'b'); the character type has a hole in its code space that the tests never approach.",
  ["src/countable.rs"],
  [("Countable::next / prev", "src/countable.rs")],
  ["Countable::next", "Countable::prev"])

p("C09", "Removing overlaps from a machine keeps its transition relation",
  "After overlapping ranges are removed from a state machine, any two ranges used anywhere in it are either identical or disjoint, and from every state every symbol leads to exactly the same set of states as before. Outputs, joins and the number of states are unchanged, and doing it twice is the same as doing it once.",
  ["programs", "inputs"], "every machine graph, every assignment of ranges to its transitions, every symbol",
  "Only exercised indirectly through patterns with at most two overlapping ranges.",
  ["src/ndfa.rs", "src/overlapping_symbols.rs"],
  [("Ndfa::fix_overlapping_ranges maps each range to its pieces", "src/ndfa.rs")],
  ["Ndfa::fix_overlapping_ranges", "StateMachine::get_transitions_for_state"])

p("C10", "A matcher built state by state runs exactly its table",
  "For every table of states with sorted disjoint transitions and optional outputs given to the builder, the resulting machine steps on each symbol to the state the table names, reports the length and output of the most recent accepting state (the start state included) when it stops, and rejects only if none was visited. Merging of adjoining ranges never changes this, and the machine reports back the same number of states, the same symbol-to-target relation and the same outputs, and names the numbers of its states and transitions in its description; finishing early at any point gives the answer for the symbols read so far.",
  ["programs", "inputs"], "every transition table satisfying the builder contract and every symbol sequence",
  "Two tests run one two-state machine on at most two symbols.",
  ["src/symbol_range_dfa.rs", "src/dfa_builder.rs", "src/pattern_matcher.rs"],
  [("adjoining transitions merged when the next state starts", "src/symbol_range_dfa.rs start_state"), ("linear scan of transitions", "src/symbol_range_dfa.rs next"), ("state index table capped at build", "src/symbol_range_dfa.rs build")],
  ["SymbolRangeDfaBuilder", "SymbolRangeDfa::start", "MatchingState::next", "MatchingState::finish", "StateMachine for SymbolRangeDfa"])

p("C11", "A tape replays its source faithfully across rewind and cut",
  "For every source and every sequence of reads, rewinds and cuts, a tape returns at each position the symbol the source produced for that position, reports the number of symbols between the start and the current position, and reports the end exactly when the source has ended and everything has been read. A rewind of at most the number of symbols read since the last cut succeeds; a longer one is refused with a panic and can never expose symbols from before the cut. The source is read one symbol at a time, in order, only when needed and never after it has ended.",
  ["histories", "inputs"], "every interleaving of read, rewind(n) and cut calls of any length, every source length, every internal buffer position",
  "Three tests follow one fixed script each on sources of six to nine symbols; the circular buffer's wrap-around, growth while wrapped, and rewinding twice in a row are not explored.",
  ["src/tape.rs"],
  [("circular buffer with first/read/last indices", "src/tape.rs Tape"), ("growth copies the live part", "src/tape.rs resize"), ("rewind bound check", "src/tape.rs rewind")],
  ["Tape::next_symbol", "Tape::rewind", "Tape::cut", "Tape::get_source_position", "Tape::at_end_of_reader", "Tape::buffer_size", "Tape::resize"],
  state=[dict(name="first/read/last index", meaning="circular positions of the oldest kept, next and last symbol", where="src/tape.rs")])

p("C12", "Split readers each see the whole stream whatever the interleaving",
  "When a stream is split, each of the two readers returns exactly the sequence of results the source produces, end-of-stream included, however their reads are interleaved. The source is asked once per distinct position, in order. Either reader can be dropped at any time, in either order, without disturbing the other, and dropping always completes promptly.",
  ["schedules", "histories", "inputs"], "every interleaving of reads and drops of the two readers, every source",
  "Two tests use a three-symbol source with strictly alternating or strictly sequential reads to the end; dropping readers that stand at different positions is never tried.",
  ["src/split_reader.rs"],
  [("shared buffer trimmed to the slowest reader", "src/split_reader.rs clear_buffer"), ("dropped reader marked by the maximal position", "src/split_reader.rs Drop")],
  ["SplittableSymbolReader::split", "SplitSymbolReader::next_symbol", "Drop for SplitSymbolReader"])

p("C13", "Each token is the longest match at the current position",
  "For every token set and every source, asking a tokenizer for the next token at position p returns the longest non-empty prefix of the rest of the input that any pattern matches, with its lowest-ordered token and the range p..p+length, and advances the position by exactly that length. If nothing non-empty matches it returns nothing and leaves the position and the remaining input untouched, so skipping then yields the symbol at p. The end is reported exactly when all input has been consumed and the end of the source has been seen.",
  ["inputs", "histories", "programs"], "every token set, every input, every sequence of next-token and skip calls",
  "Tests tokenize three fixed strings of digits and blanks; backtracking over several symbols, long look-ahead that grows the buffer and mixtures of skip and match are not covered.",
  ["src/tokenizer.rs", "src/tape.rs", "src/matches.rs"],
  [("match, then rewind to the end of the accepted prefix and cut", "src/tokenizer.rs next_token"), ("skip_input", "src/tokenizer.rs")],
  ["Tokenizer::next_token", "Tokenizer::next_symbol", "Tokenizer::skip_input", "Tokenizer::get_source_position", "Tokenizer::at_end_of_reader"])

p("C14", "Iterating a tokenizer covers the whole input exactly once",
  "For every token set and every finite input, iterating a tokenizer terminates and yields ascending, non-overlapping, non-empty ranges. Each one is the longest match at its start, each symbol outside the ranges is one at which no non-empty match starts, and the iteration ends only when the whole input has been covered.",
  ["inputs", "programs"], "every token set (including ones that match the empty string) and every input",
  "Two tests iterate over one fixed string.",
  ["src/tokenizer.rs"],
  [("skip one symbol whenever nothing matches and the end is not reached", "src/tokenizer.rs Iterator for Tokenizer")],
  ["Iterator for Tokenizer"])

p("C15", "Tagging ranges of a stream loses and reorders nothing",
  "For every stream and every ascending list of non-overlapping tag ranges, the tagged copy consists of one tag symbol per range holding exactly the symbols of that range, with all other symbols unchanged and in order, and leaves the original untouched; overlapping or out-of-order ranges panic. Tagging in place replaces exactly the given range by one tag holding exactly those symbols.",
  ["inputs", "histories"], "every stream, including already tagged ones, every list of ranges (empty, adjacent and whole-stream ranges included), every sequence of tagging calls",
  "Tests tag one ten-letter string with one or two ranges.",
  ["src/tagged_stream.rs"],
  [("with_tags copies gaps between ranges", "src/tagged_stream.rs with_tags"), ("tag drains and inserts", "src/tagged_stream.rs tag")],
  ["TaggedStream::with_tags", "TaggedStream::tag", "TaggedStream::tag_range", "TaggedStream::len", "Index for TaggedStream", "read_symbols for TaggedStream"])

p("C16", "Tokenizing a tagged stream tags exactly the matched regions",
  "For every stream, token set and symbol mapping, tokenizing the stream wraps in a tag exactly the regions the tokenizer finds in the mapped symbols, each tag carrying that region's token and original symbols; the mapping is applied to each symbol once, in order, so it may keep state; symbols not covered by a token are kept as they were. Reading the leaves of the result in order always gives back the original symbols.",
  ["inputs", "programs"], "every stream (with nested tags), every token set, every mapping from stream symbols to matcher symbols",
  "Two tests tokenize one string whose every symbol is part of a token, so untouched symbols and nested tags never occur.",
  ["src/tagged_stream.rs", "src/tokenizer.rs"],
  [("tokenizer over mapped symbols feeds with_tags", "src/tagged_stream.rs tokenize"), ("from_tokenized_reader", "src/tagged_stream.rs")],
  ["TaggedStream::tokenize", "TaggedStream::from_tokenized_reader"])

p("C17", "Every symbol reader delivers its source in order and then ends",
  "For every source, a reader over a vector, a consumed vector, a string, a byte stream, a mapped stream, a filtering iterator, a tagged stream or a boxed reader returns exactly the source's symbols (after mapping or filtering) in order, one per call, then reports the end. Collecting a reader into a vector gives exactly the symbols not yet read. A byte reader ends at the first read error.",
  ["inputs", "fault_sequences"], "every source content and length, every number of symbols read before collecting, every position of an I/O error",
  "Tests read three-symbol sources; partial reads, errors, empty sources and non-ASCII strings are not covered.",
  ["src/symbol_reader.rs"],
  [("next_symbol implementations", "src/symbol_reader.rs"), ("VecReader pops from a reversed vector", "src/symbol_reader.rs VecReader")],
  ["SymbolSource::read_symbols", "SymbolReader::next_symbol", "VecReader", "ByteSymbolReader", "map_symbols", "to_vec"])

p("C18", "Pattern combinators mean concatenation, choice and repetition",
  "For all patterns p and q and every input, p followed by q matches exactly the concatenations of a match of p and a match of q, p or q exactly the union of their matches, and the repetition calls exactly the repeated concatenations, whatever the shapes of p and q and however the calls are nested. Turning a string, slice, vector or boxed pattern into a pattern matches exactly that sequence of symbols or that pattern.",
  ["programs", "inputs"], "all pairs of patterns (every combination of pattern kinds on either side), every input",
  "Tests compare the produced tree for seven pairs of shapes; the merging rules for sequences and alternatives are not checked for meaning.",
  ["src/regular_pattern.rs"],
  [("append and or merge adjacent literals, sequences and alternatives", "src/regular_pattern.rs PatternCombiner"), ("ToPattern / IntoPattern conversions", "src/regular_pattern.rs")],
  ["PatternCombiner::append", "PatternCombiner::or", "PatternTransformer", "exactly", "ToPattern", "IntoPattern"])

p("C19", "All ways of running a pattern agree and a matcher can be reused",
  "For every matcher, whether compiled from a pattern, a set of token patterns or a hand-built machine or built state by state, and for every input: one-shot matching, matching with a prepared matcher, stepping it by hand, a matcher cloned or used many times before, and a matcher recompiled from the compiled machine itself all give the same length and output. Running a matcher never changes it.",
  ["inputs", "histories", "programs"], "every pattern, token set, machine and table, every input, every earlier use of the same prepared matcher",
  "One test uses a prepared matcher three times on related strings; the other entry points are never compared, and a compiled machine is never used as compiler input.",
  ["src/matches.rs", "src/prepare.rs", "src/symbol_range_dfa.rs", "src/dfa_compiler.rs"],
  [("match_pattern drives MatchingState", "src/matches.rs"), ("PrepareToMatch implementations", "src/prepare.rs"), ("SymbolRangeDfa is itself a StateMachine", "src/symbol_range_dfa.rs")],
  ["matches", "matches_prepared", "match_pattern", "PrepareToMatch", "SymbolRangeDfa: Clone, StateMachine"])

p("C20", "A serialized matcher behaves identically after loading",
  "For every compiled matcher, writing it out through serde and reading it back, with formats that identify fields by name as well as ones that rely on order, gives a matcher with the same states, transitions and outputs that returns the same result on every input. The same holds for single symbol ranges.",
  ["programs", "inputs"], "every compiled matcher, every symbol and output value in it, every input",
  "No test serializes anything.",
  ["src/symbol_range_dfa.rs", "src/symbol_range.rs"],
  [("derived Serialize / Deserialize", "src/symbol_range_dfa.rs, src/symbol_range.rs")],
  ["Serialize / Deserialize for SymbolRangeDfa and SymbolRange"])

p("C21", "The compiler always honours the matcher-builder contract",
  "For every pattern, token set or machine without overlapping ranges, the compiler hands any builder the states one at a time starting with the start state, gives each state transitions in ascending symbol order whose ranges are pairwise disjoint, sets at most one output per state, and names only states that it also defines.",
  ["programs", "inputs"], "every machine graph and pattern, every assignment of symbols, any builder implementation",
  "Tests only look at the matching result of two compiled strings; no test uses another builder or inspects what it is given.",
  ["src/dfa_compiler.rs", "src/dfa_builder.rs"],
  [("transitions sorted and merged per symbol", "src/dfa_compiler.rs merge_states"), ("known_states maps state sets to ids", "src/dfa_compiler.rs compile")],
  ["DfaBuilder::start_state", "DfaBuilder::transition", "DfaBuilder::accept", "DfaCompiler::build"])

p("C22", "Matching and tokenizing read no further than needed",
  "Matching a prefix, finding the next token and iterating over tokens ask the source for another symbol only while some continuation of what has been read could still give a longer match: once a symbol has been read after which no pattern can match, nothing more is read for that match, nothing is read before the first request, and the end of the source is asked for at most once. What was read to find a token but lies behind it is kept and used for the next one, never asked for again. (A bounded repetition may be followed for one copy more than it accepts; patterns some part of which can match nothing at all, such as an empty choice or an empty range of repetitions, may read further.)",
  ["inputs", "programs", "histories"], "every pattern and token set without parts that match nothing, every input, every sequence of next_token and skip_input calls",
  "No test counts how often a source is asked; a program that reads from a pipe or a person depends on it for every input, and a matcher that reads one symbol too many passes every test.",
  ["src/matches.rs", "src/symbol_range_dfa.rs", "src/tokenizer.rs", "src/tape.rs"],
  [("matching stops at a state that rejects", "src/matches.rs match_pattern"), ("the tape is rewound to the end of the token", "src/tokenizer.rs next_token"), ("the tape gives buffered symbols first", "src/tape.rs next_symbol")],
  ["match_pattern", "Tokenizer::next_token", "Tokenizer::skip_input", "Iterator for Tokenizer", "how often SymbolReader::next_symbol of the source is called"])

p("C23", "Buffers keep only the symbols that can still be read",
  "While a source of any length is read through a tape that is cut, a tokenizer or two split readers, the number of symbols kept in memory stays within a constant factor of the largest number that ever had to be kept at once: those since the cut, those looked ahead, or those one reader is ahead of the other. Once one of two split readers is dropped nothing more has to be kept for it, and when the readers are gone every symbol has been dropped exactly once.",
  ["histories", "inputs"], "every history of reads, rewinds, cuts and drops on a source of any length, every token set and input",
  "Nothing in the tests looks at memory; a buffer that is never cleared, or cleared on one side only, gives the same symbols and grows with the input.",
  ["src/tape.rs", "src/split_reader.rs", "src/tokenizer.rs"],
  [("the cut symbols are overwritten", "src/tape.rs cut and resize"), ("the shared buffer is cleared up to the slower reader", "src/split_reader.rs clear_buffer"), ("a dropped reader no longer holds the buffer", "src/split_reader.rs drop")],
  ["live instances of a symbol type that counts its clones and drops"])

p("C24", "Readers can be stacked without changing what is read",
  "Tokenizers, tapes, split readers, mapped and boxed readers and the streams made from them can be put on one another in place of any source, and for every input, token set and interleaving the result is what the stages compute one after the other on whole sequences. In particular a tokenizer used as a source delivers its tokens in order and ends at the first place where nothing matches, so that a second set of patterns, over tokens, finds exactly the longest matches in the sequence of tokens. Two tokenizers that read one source through a split each find what they would find alone, whoever goes first and even when one of them is dropped.",
  ["inputs", "programs", "histories"], "every pair of token sets, every input, every way of stacking two or three readers, every interleaving of two of them",
  "The tests use one stage at a time on short literals; a stage that keeps state for the one above it, or ends in a different way, is never read through another.",
  ["src/tokenizer.rs", "src/tape.rs", "src/split_reader.rs", "src/symbol_reader.rs", "src/tagged_stream.rs"],
  [("a tokenizer is a symbol reader of tokens", "src/tokenizer.rs SymbolReader for Tokenizer"), ("the shared buffer of a split", "src/split_reader.rs read"), ("a stream made from a reader", "src/tagged_stream.rs from_tokenized_reader")],
  ["SymbolReader for Tokenizer, Tape, SplitSymbolReader, MappedStream, Box", "Tokenizer::next_token on any of them", "TaggedStream::from_tokenized_reader", "to_vec"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        n = x["statement"].count(". ") + 1
        assert n <= 3, (x["id"], n)
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
