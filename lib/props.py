"""What each check covers: engines, functions, bounds, what is left outside, assumptions."""
SYM = [
    "the library is generic in its symbol type; it is compiled from /repo and executed with a symbolic symbol whose order and successor behave as u8's (0..=255, overflow panics); code specialised to one concrete type is not covered by this engine",
    "hash orders are fixed per run (keys derived from VERIF_SEED; the thorough tier tries several), not symbolic",
    "the compiler that builds the harness and the SMT solver are trusted; every leaf's witness is replayed on u8 and must behave as the symbolic run predicted",
]
TREE = "pattern trees: every tree of up to %s nodes over {range, literals of 0..3 symbols, empty, sequence, choice, 5 to 14 repetition forms} with at most %s symbol variables, plus 39 larger hand-picked shapes; every symbol, range end and input symbol is a free variable over 0..=255; inputs of every length up to %s; patterns whose parts share symbols (in C01 also every tree of up to 3 or 4 nodes over 3 or 2 shared symbols, and large ones: long literals, wide choices, deep nesting, counts up to 18, inputs of up to 24; 40 and 48 in the thorough tier)"

def symx(functions, quick, thorough, outside, assumptions=()):
    return dict(engines=["symx"], functions=functions, bounds=dict(quick=quick, thorough=thorough), outside=outside, assumptions=SYM + list(assumptions))

COMPILE = ["Pattern::compile", "Pattern::to_ndfa", "Ndfa::{add_transition,join_states,create_state,set_output_symbol,get_transitions_for_state,output_symbol(s)_for_state,fix_overlapping_ranges}",
           "SymbolMap::{add_range,to_non_overlapping_map,find_overlapping_ranges}", "DfaCompiler::compile", "DfaTransitions::{merge_states,output_symbol}", "SymbolRangeDfaBuilder::{start_state,transition,accept,build}",
           "SymbolRangeDfa::start", "SymbolRangeState::{next,finish}", "match_pattern"]
LARGE = "large sets: tokens of up to 16 symbols, look-ahead up to 40 symbols beyond a match, up to 33 tokens for the same symbols in every kind of order, states with up to 70 transitions, up to 300 states, on inputs of up to 300 symbols of which all but a few are one of the pattern's own symbols (the thorough tier goes to 130 symbols, 65 tokens, 118 transitions and 600 states)"
PROPS = {
 "C01": symx(COMPILE + ["matches_prepared", "PrepareToMatch for Pattern"], TREE % ("3", "3 (4 for up to 2 nodes)", "4 (fewer for shapes with many variables)"), TREE % ("4", "3 (5 for up to 3 nodes)", "5") + "; nine shapes with 3 to 4 overlapping ranges",
     "deeper trees, more symbols per pattern, longer inputs"),
 "C02": symx(["TokenMatcher::{add_pattern,to_ndfa}"] + COMPILE, "all ordered pairs of 10 small pattern shapes, triples of 4, up to four equal patterns, no patterns; tokens, pattern symbols and input symbols are free variables; inputs up to length 3; pairs and triples of 14 patterns over shared symbols; " + LARGE, "as quick with inputs up to length 4, triples with up to 6 pattern symbols and three hash seeds", "more than five patterns, larger patterns"),
 "C03": symx(COMPILE, "every machine of 2 states and up to 4 calls, of 3 states and up to 3 calls (two transitions, joins and outputs at most), 27 larger ones, all orders of calls for four; ranges, outputs and input symbols are free variables; inputs up to length 3; machines whose ranges share symbols, chains, fans and cycles of up to 33 states, states numbered up to 256 apart (40 and 512 in the thorough tier)", "2 states and 5 calls, 3 states and 4 calls, 36 larger machines, inputs up to length 4, two hash seeds", "more states or transitions than that"),
 "C04": symx(["Ndfa::{add_transition,join_states,create_state,set_output_symbol,get_transitions_for_state,output_symbol_for_state,count_states}"], "every sequence of 3 construction calls on 2 states and of 2 calls on 3 states, the kind of call and its states being symbolic choices; ten larger machines, chains and fans of up to 33 joins in both directions, states numbered up to 256 apart (40 and 512 in the thorough tier)", "4 calls on 2 states, 3 calls on 3 states, 2 calls on 5 states; two hash seeds", "longer sequences of calls"),
 "C05": symx(["SymbolMap::{new,add_range,to_non_overlapping_map,find_overlapping_ranges}", "SymbolRange::{new,overlaps,cmp}"], "every multiset of up to 4 ranges over 0..=255 in every insertion order; all 1023 sets of ranges between 4 shared symbols and a few hundred between 5; 6 disjoint ranges and one more, 3 and two more, 20 disjoint ones", "up to 5 ranges; more sets between 5 shared symbols; 12 disjoint ranges and one more, 5 and two more, 40 disjoint ones", "six or more ranges at once other than those"),
 "C06": symx(["SymbolMap::{new,add_range,find_overlapping_ranges}"], "every set of up to 4 ranges (and up to 5 disjoint ones) in every insertion order, every query range, re-adding for up to 2; sets of ranges between 4 and 5 shared symbols, 8 disjoint ranges and one more, 4 and two more, 18 disjoint ones, any query", "up to 5 ranges, re-adding for up to 3", "six or more stored ranges"),
 "C09": symx(["Ndfa::fix_overlapping_ranges", "SymbolMap::{add_range,to_non_overlapping_map,find_overlapping_ranges}", "Ndfa::{get_transitions_for_state,output_symbol_for_state,count_states}"], "the machines of C03 with up to 3 ranges, every assignment of ranges, every symbol; the woven and large machines of C03", "the machines of C03 thorough with up to 4 ranges", "more ranges or states"),
 "C10": symx(["SymbolRangeDfaBuilder::{start_state,transition,accept,build}", "SymbolRangeDfa::{start,count_states,get_transitions_for_state,output_symbol_for_state}", "SymbolRangeState::{next,finish,clone}"], "every table of 1 state and up to 3 transitions, of 2 states and up to 4, of 3 states and up to 3 (targets and accepting states enumerated, ranges and outputs free variables), chains of up to 4 adjoining ranges; inputs up to length 3, finishing after each symbol; tables with up to 33 transitions in one state and up to 33 states, every input of up to 2 symbols or every input along a chain", "2 states with up to 5 transitions, 3 states with up to 4, chains of 5", "larger tables, longer inputs"),
 "C13": symx(["Tokenizer::{new_prepared,next_token,next_symbol,skip_input,get_source_position,at_end_of_reader}", "Tape::{next_symbol,rewind,cut,resize,get_source_position,at_end_of_reader}"] + COMPILE, "22 token sets of up to 2 patterns, every choice of symbols and tokens, inputs of 2 to 5 symbols, every sequence of 4 or 5 next_token / next_symbol / skip calls; the large sets of C02, calls in the middle of long inputs included", "32 token sets, inputs up to 6 symbols, sequences of 5 calls", "other pattern shapes, more calls, longer inputs"),
 "C14": symx(["Iterator for Tokenizer", "Tokenizer::{next_token,skip_input,at_end_of_reader}", "Tape::{next_symbol,rewind,cut,resize}"] + COMPILE, "22 token sets of up to 2 patterns, every choice of symbols and tokens, inputs of length 0, 1 and 2 to 6; the large sets of C02", "32 token sets, inputs up to 7 symbols", "other pattern shapes, longer inputs"),
 "C16": symx(["TaggedStream::{from_reader,with_tags,tokenize,from_tokenized_reader,tag_range,len,index,read_symbols}", "MappedStream::next_symbol", "Iterator for Tokenizer"] + COMPILE, "22 token sets, streams of up to 3 symbols, plain or with up to two existing tags, the mapping that takes a symbol to itself and a tag to its label, and the one that takes each symbol to the symbol before it; the large sets of C02", "32 token sets, streams of up to 4 symbols", "deeper nesting, other mappings"),
 "C18": symx(["PatternCombiner::{append,or}", "PatternTransformer::{repeat_forever,repeat}", "exactly", "ToPattern / IntoPattern for Pattern, Box, Vec, slice, reference"] + COMPILE, "append / or of all pairs of 17 pattern shapes, all two-call nestings over five shapes, all repetition calls with bounds up to 4, all generic conversions; inputs up to length 3; chains of up to 18 calls, operands of up to 70 symbols or 20 parts and counts up to 33 on inputs that are given but for a few symbols (33, 140 and 65 in the thorough tier)", "nestings over all pairs of 17 shapes with three third shapes, inputs up to length 4", "larger operands; conversion of str (char only)"),
 "C19": symx(["matches", "matches_prepared", "match_pattern", "PrepareToMatch for Pattern, &ToPattern, Box<StateMachine>, SymbolRangeDfa, &TokenMatcher", "SymbolRangeDfa::clone", "StateMachine for SymbolRangeDfa"] + COMPILE, TREE % ("3", "3 (4 for up to 2 nodes)", "3") + "; token sets, machines and tables of C02, C03 and C10, large ones included", TREE % ("3", "3 (4 for up to 2 nodes)", "4") + "; two hash seeds", "deeper trees, longer inputs"),
 "C20": symx(["derived Serialize / Deserialize of SymbolRangeDfa and SymbolRange"] + COMPILE, "matchers for 128 pattern shapes and 80 pairs, through JSON text, JSON with reordered fields, a JSON value and bincode; every symbol and token value, inputs up to length 2; outputs that are units; the large sets of C02", "also 360 more shapes, inputs up to length 3", "other serde formats; larger matchers",
     ["a symbolic symbol is written as one integer; formats are the real serde_json and bincode crates"]),
 "C24": symx(["SymbolReader for Tokenizer", "Tokenizer::{new_prepared,next_token,skip_input}", "Iterator for Tokenizer", "Tape", "SplitSymbolReader", "MappedStream", "SymbolReader for Box", "SymbolReader::to_vec", "TaggedStream::{from_reader,from_tokenized_reader,read_symbols}"] + COMPILE, "the token sets of C13 on inputs of up to 4 symbols, and the large ones of C02 on inputs of up to 60, from seven kinds of source; nine kinds of stage above 7 ranked token sets (8 second sets, inputs of 3 to 5 symbols), above 3 arbitrary ones (4 second sets, 2 symbols) and above 4 on inputs of up to 44 symbols that are given but for a few; the first three turns of two readers are free, then they alternate", "all large sets, inputs one symbol longer", "other ways of stacking, three stages of tokens"),
 "C22": symx(["match_pattern", "SymbolRangeState::next", "Tokenizer::{new,new_prepared,next_token,skip_input}", "Iterator for Tokenizer", "Tape::{next_symbol,rewind,cut}"] + COMPILE, "the patterns of C01 and the token sets of C13 without parts that match nothing, pairs of woven patterns and the large sets of C02; one match on every prefix of the input, or 2 to 3 calls of next_token and skip_input, or iteration to the end", "the patterns of C01 thorough; 3 to 4 calls", "patterns with parts that match nothing; other histories"),
 "C21": symx(["DfaCompiler::{build,new,compile}", "DfaBuilder calls recorded by a builder of our own"] + COMPILE, "patterns as in C01 with inputs up to length 2, pairs of small token patterns, and the machines of C03; every symbol, range end and output; the large sets of C02", "inputs up to length 3, nine shapes with 3 to 4 ranges, larger machines", "larger patterns and machines"),
}

LL = [
    "the encoding is the LLVM IR that rustc 1.99.1 makes of /repo and the harness, linked into one module with the standard library; rustc and LLVM up to that point are trusted, and so are the executor's treatment of each instruction and the solver",
    "allocation never fails; thread-local and static memory start as in a fresh process; a path longer than 3,000,000 instructions counts as not terminating and is then run natively",
    "every path's values (a sample of them when there are more than 6000 per thread) are run on the compiled program, which must make the same observations as the encoding",
    "symbols are u8 (tags u16) where a structure does not look inside its symbols",
]
def llsym(functions, quick, thorough, outside, assumptions=()):
    return dict(engines=["llsym"], functions=functions, bounds=dict(quick=quick, thorough=thorough + "; then the quick bounds again on the optimised build without overflow checks, each unsatisfiable answer confirmed by cvc5"), outside=outside, assumptions=LL + list(assumptions))

TYPES = "u8, u16, u32, u64, usize, i8, i16, i32, i64, isize and char"
PROPS.update({
 "C07": llsym(["SymbolRange::{new,includes,overlaps,join,cmp,partial_cmp,eq}", "Clone for SymbolRange"], "none: every value of " + TYPES + ", up to three ranges at once", "none (the code has no loops)", "symbol types other than the eleven"),
 "C08": llsym(["Countable::{next,prev}"], "none: every value of " + TYPES, "none (the code has no loops)", "user-defined countable types; next of the greatest and prev of the least value, which have no neighbour"),
 "C11": llsym(["Tape::{new,next_symbol,rewind,cut,resize,buffer_size,get_source_position,at_end_of_reader}"], "every sequence of 4 calls of {read 1, 3 or 5; rewind any 64-bit distance; cut; grow} on sources of 0 to 8 symbols and of 5 calls on 6; every position of the three indices in buffers of 4 and 8 entries followed by 1 or 2 calls", "5 calls on sources of 0 to 9, 6 calls on 5 to 8; index positions in buffers of 4, 8 and 16 followed by up to 3 calls", "longer histories from other states; buffers of 32 and more", ["the source is a finite list followed by its end"]),
 "C12": llsym(["SplittableSymbolReader::split", "SplitSymbolReader::{next_symbol,drop}", "SplitSymbolReaderBuffer::{read,clear_buffer}", "SymbolReader::to_vec"], "every interleaving of 6 reads and drops on a source whose first 0 to 4 results are anything (symbols or ends in any order), of 8 on 2; both drop orders at the end; a split of a split over sources of 0 to 4", "8 operations on 0 to 4 results, 10 on 1 and 2; split of a split up to 6", "longer interleavings; threads (the readers are not Send)"),
 "C15": llsym(["TaggedStream::{from_reader,with_tags,tag,tag_range,len,index,read_symbols,clone}"], "streams of 0 to 4 symbols, up to 2 in-place tags first, then up to 2 ranges at once (3 on a stream of 6); every range end is any 64-bit value, tags are any u16", "streams of 0 to 6 symbols, up to 2 (3) in-place tags, up to 3 ranges", "longer streams, more ranges"),
 "C17": llsym(["SymbolSource::read_symbols (slices, vectors, str, tagged streams)", "SymbolReader::{next_symbol,to_vec,map_symbols}", "VecReader", "ByteSymbolReader::{new,from}", "MappedStream", "Iterator adapters", "SymbolReader for Box"], "fifteen kinds of reader over sources of 0 to 7 elements (3 characters of any width; 5 read events, each a byte, an error or an interruption); any number of symbols read before collecting", "0 to 12 elements, 4 characters, 7 events", "longer sources; operating-system files"),
 "C23": llsym(["Tape::{next_symbol,rewind,cut,resize}", "SplitSymbolReader::{next_symbol,drop}", "SplitSymbolReaderBuffer::{read,clear_buffer}", "Tokenizer::{next_token,skip_input}", "Iterator for Tokenizer"], "every sequence of 3 or 4 bursts of 1, 5 or 20 reads or drops on a source of 45; two readers in step for 20 and 40 rounds, 0 to 9 apart, either dropped at three places; 12 and 30 rounds of reading, rewinding, reading and cutting a tape in every small combination of distances; four token sets on a source of 30 symbols that repeats any three of four letters", "3 to 5 bursts on up to 90 symbols, up to 80 rounds of reading, up to 60 of the tape, sources of 60 for the tokens", "longer sources, other histories; memory other than symbols"),
})

TEXT = "; on text, through the compiled code itself (llsym): "
for k, q, t in (("C18", "11 ways of turning a text, slice, vector or object into a pattern and 9 combinations with texts, of 0 to 2 characters (any Unicode scalar values) on texts of 1 to 3", "texts of 0 to 3 characters on texts of 1 to 4"),
                ("C19", "12 ways of matching a text of 0 to 2 characters (any Unicode scalar values) on texts of 1 to 3", "texts of 0 to 3 characters on texts of 1 to 4")):
    p = PROPS[k]
    p["engines"] = ["symx", "llsym"]
    p["functions"] = p["functions"] + ["ToPattern, IntoPattern, ToNdfa and PrepareToMatch for str", "SymbolSource for &str"]
    p["bounds"] = dict(quick=p["bounds"]["quick"] + TEXT + q, thorough=p["bounds"]["thorough"] + TEXT + t)
    p["assumptions"] = p["assumptions"] + LL
