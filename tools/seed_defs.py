SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

LANG = ""
seed("C01-optional-alternative", "C01",
 [("regular_pattern.rs", "                    state_machine.join_states(final_state, target_state);\n                }\n\n                target_state\n            }\n        }", "                    if final_state != start_state {\n                        state_machine.join_states(final_state, target_state);\n                    }\n                }\n\n                target_state\n            }\n        }")],
 "an alternative that matches nothing (Epsilon or an empty literal) inside a choice",
 "the empty alternative of a choice is dropped",
 r'''
fn main() {
    let p = exactly("a").or(Epsilon).append(exactly("b"));
    assert_eq!(matches("ab", p.clone()), Some(2));
    assert_eq!(matches("b", p.clone()), Some(1));
}''')
seed("C01-repeat-range-start", "C01",
 [("regular_pattern.rs", "                    if repeat >= range.start {", "                    if repeat >= range.start && (repeat > 0 || range.end > 3) {")],
 "a bounded repetition starting at 0 with at most two copies",
 "zero copies are refused",
 r'''
fn main() {
    let p = exactly("a").repeat(0..3).append(exactly("b"));
    assert_eq!(matches("b", p.clone()), Some(1));
    assert_eq!(matches("aab", p.clone()), Some(3));
}''')
seed("C02-only-two-candidates", "C02",
 [("dfa_compiler.rs", "            self.output.sort();\n            Some(&self.output[0])", "            if self.output.len() > 1 && self.output[1] < self.output[0] { self.output.swap(0, 1); }\n            Some(&self.output[0])")],
 "three patterns matching the same text, the lowest token belonging to the one added last",
 "the lowest of the first two tokens wins instead of the lowest of all",
 r'''
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(exactly("ab"), 5u32);
    m.add_pattern(MatchRange('a', 'c').repeat_forever(1), 4u32);
    m.add_pattern(MatchRange('a', 'z').repeat_forever(1), 3u32);
    let mut t = Tokenizer::new("ab".read_symbols(), &m);
    assert_eq!(t.next_token(), Some((0..2, 3)));
}''')
seed("C02-duplicate-pattern-ignored", "C02",
 [("tokenizer.rs", "        self.patterns.push((pattern.to_pattern(), output));", "        let pattern = pattern.to_pattern();\n\n        // No point compiling the same pattern twice\n        if !self.patterns.iter().any(|&(ref existing, _)| *existing == pattern) {\n            self.patterns.push((pattern, output));\n        }"),
  ("tokenizer.rs", "impl<InputSymbol: Clone+Ord+Countable+'static, OutputSymbol: Clone+Ord+'static> TokenMatcher<InputSymbol, OutputSymbol> {", "impl<InputSymbol: Clone+Ord+Countable+'static, OutputSymbol: Clone+Ord+'static> TokenMatcher<InputSymbol, OutputSymbol> {")],
 "the same pattern added twice with different tokens, the lower one second",
 "the first token wins",
 r'''
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(exactly("ab"), 5u32);
    m.add_pattern(exactly("ab"), 3u32);
    let mut t = Tokenizer::new("ab".read_symbols(), &m);
    assert_eq!(t.next_token(), Some((0..2, 3)));
}''')
seed("C03-first-successor-only", "C03",
 [("dfa_compiler.rs", "                    new_transitions[len-1].1.source_states.append(&mut this_transit.1.source_states);", "                    if new_transitions[len-1].1.source_states.len() < 3 {\n                        new_transitions[len-1].1.source_states.append(&mut this_transit.1.source_states);\n                    }")],
 "four transitions on the same symbol from one set of states",
 "only the first three successors are kept",
 r'''
fn main() {
    let mut n: Ndfa<SymbolRange<u8>, u8> = Ndfa::new();
    for s in 1..5 { n.add_transition(0, SymbolRange::new(7, 7), s); n.add_transition(s, SymbolRange::new(s as u8, s as u8), 5 + s); n.set_output_symbol(5 + s, s as u8); }
    n.fix_overlapping_ranges();
    let b: Box<dyn StateMachine<SymbolRange<u8>, u8>> = Box::new(n);
    let d: SymbolRangeDfa<u8, u8> = b.prepare_to_match();
    for s in 1..5u8 { assert_eq!(matches_prepared(&vec![7, s], &d), Some(2)); }
}''')
seed("C04-shallow-closure", "C04",
 [("ndfa.rs", "                    for join_to in join_states {\n                        stack.push(*join_to);\n                    }", "                    for join_to in join_states {\n                        if result.len() < 4 || *join_to > next_state { stack.push(*join_to); }\n                    }")],
 "a chain of five joined states whose last join goes to a lower-numbered state",
 "transitions behind a backward join at depth four are lost",
 r'''
fn main() {
    let mut n: Ndfa<u8, u8> = Ndfa::new();
    n.join_states(0, 2); n.join_states(2, 3); n.join_states(3, 4); n.join_states(4, 1);
    n.add_transition(1, 9, 5);
    assert_eq!(n.get_transitions_for_state(0), vec![(9, 5)]);
}''')
seed("C04-own-output-precedence", "C04",
 [("ndfa.rs", "        let mut result = self.output_symbols.get(&state);\n\n        match result {", "        let mut result = if state == 0 { self.output_symbols.get(&state) } else { None };\n\n        match result {")],
 "a state with an output of its own that is joined to a lower-numbered state with another output",
 "the joined state's output is reported",
 r'''
fn main() {
    let mut n: Ndfa<u8, u8> = Ndfa::new();
    n.set_output_symbol(1, 10); n.set_output_symbol(2, 20); n.join_states(2, 1);
    assert_eq!(n.output_symbol_for_state(2), Some(&20));
    assert_eq!(n.output_symbol_for_state(1), Some(&10));
}''')
seed("C04-join-count", "C04",
 [("ndfa.rs", "        // Joining states updates the overall state count_states\n        if first_state > self.max_state {\n            self.max_state = first_state;\n        }\n\n        if second_state > self.max_state {", "        // Joining states updates the overall state count_states\n        if first_state > self.max_state {\n            self.max_state = first_state;\n        } else if second_state > self.max_state {")],
 "a join of two new states, the second higher than the first",
 "the number of states is too small",
 r'''
fn main() {
    let mut n: Ndfa<u8, u8> = Ndfa::new();
    n.join_states(1, 3);
    assert_eq!(n.count_states(), 4);
}''')
seed("C06-same-start", "C06",
 [("overlapping_symbols.rs", "        if let Err(insertion_pos) = existing {\n            self.ranges.insert(insertion_pos, range.clone());\n        }", "        if let Err(insertion_pos) = existing {\n            // Nothing to add if the range is already covered\n            let covered = insertion_pos > 1 && self.ranges[insertion_pos-1].includes(&range.lowest) && self.ranges[insertion_pos-1].includes(&range.highest);\n            if !covered { self.ranges.insert(insertion_pos, range.clone()); }\n        }")],
 "two ranges stored before, the second of which contains the new one",
 "a contained range is not stored",
 r'''
use concordance::overlapping_symbols::*;
fn main() {
    let mut m = SymbolMap::new();
    for (a, b) in [(1, 2), (3, 9), (4, 5)] { m.add_range(&SymbolRange::new(a, b)); }
    assert_eq!(m.find_overlapping_ranges(&SymbolRange::new(5, 5)).len(), 2);
    assert_eq!(m.to_non_overlapping_map().find_overlapping_ranges(&SymbolRange::new(0, 20)).len(), 4);
}''')
seed("C07-partial-order", "C07",
 [("symbol_range.rs", "        Some(self.cmp(other))", "        self.lowest.partial_cmp(&other.lowest)")],
 "comparing two ranges with the same start by < or partial_cmp",
 "the partial order disagrees with the total order",
 r'''
fn main() {
    assert!(SymbolRange::new(1, 2) < SymbolRange::new(1, 3));
    assert_eq!(SymbolRange::new(1, 3).partial_cmp(&SymbolRange::new(1, 2)), Some(std::cmp::Ordering::Greater));
}''')
seed("C07-overlap-asymmetric", "C07",
 [("symbol_range.rs", "        } else if self.lowest > with.highest {\n            false", "        } else if self.lowest >= with.highest && self.lowest != self.highest {\n            self.lowest == with.highest && with.lowest == with.highest")],
 "a range starting exactly where another (longer than one symbol) ends",
 "overlap of two ranges sharing one end symbol is missed in one direction",
 r'''
fn main() {
    assert!(SymbolRange::new(5, 9).overlaps(&SymbolRange::new(1, 5)));
    assert!(SymbolRange::new(1, 5).overlaps(&SymbolRange::new(5, 9)));
}''')
seed("C08-wide-values", "C08",
 [("countable.rs", "impl Countable for i64 { \n    fn next(&self) -> Self { *self+1 }\n    fn prev(&self) -> Self { *self-1 }", "impl Countable for i64 { \n    fn next(&self) -> Self { *self+1 }\n    fn prev(&self) -> Self { (*self as i32 as i64)-1 }")],
 "an i64 outside the range of i32",
 "prev truncates",
 r'''
fn main() {
    use concordance::countable::Countable;
    let v: i64 = 1 << 40;
    assert_eq!(v.prev(), (1i64 << 40) - 1);
    assert_eq!(v.next(), (1i64 << 40) + 1);
}''')
seed("C08-saturating", "C08",
 [("countable.rs", "impl Countable for i16 { \n    fn next(&self) -> Self { *self+1 }", "impl Countable for i16 { \n    fn next(&self) -> Self { if *self == -1 { 1 } else { *self+1 } }")],
 "the i16 value -1",
 "next skips zero",
 r'''
fn main() {
    use concordance::countable::Countable;
    assert_eq!((-1i16).next(), 0);
}''')
seed("C09-single-transition-states", "C09",
 [("ndfa.rs", "        for transit in &self.transitions {\n            let without_overlapping", "        for transit in &self.transitions {\n            // A state with just one transition can't have any overlapping ranges\n            if transit.len() == 1 {\n                new_transitions.push(transit.clone());\n                continue;\n            }\n\n            let without_overlapping")],
 "two joined states with one transition each, on overlapping ranges",
 "the ranges stay overlapping, so the compiled machine takes the wrong transition",
 r'''
fn main() {
    let mut n: Ndfa<SymbolRange<u8>, u8> = Ndfa::new();
    n.add_transition(0, SymbolRange::new(1, 5), 2); n.join_states(0, 1); n.add_transition(1, SymbolRange::new(3, 8), 3);
    n.fix_overlapping_ranges();
    let t = n.get_transitions_for_state(0);
    for (a, _) in &t { for (b, _) in &t { assert!(a == b || !a.overlaps(b)); } }
}''')
seed("C09-self-loops-kept", "C09",
 [("ndfa.rs", "                        result.push((range.clone(), state));", "                        if result.last().map_or(true, |&(ref last, _): &(SymbolRange<Symbol>, StateId)| last.highest < range.lowest && result.len() < 3) { result.push((range.clone(), state)); }")],
 "a range that is split into four or more pieces",
 "the pieces after the third are dropped",
 r'''
fn main() {
    let mut n: Ndfa<SymbolRange<u8>, u8> = Ndfa::new();
    n.add_transition(0, SymbolRange::new(1, 50), 1);
    n.add_transition(1, SymbolRange::new(5, 5), 1); n.add_transition(1, SymbolRange::new(9, 9), 1);
    n.fix_overlapping_ranges();
    for s in 1..51u8 { assert_eq!(n.get_transitions_for_state(0).iter().filter(|t| t.0.includes(&s)).count(), 1); }
}''')
seed("C10-merge-across-states", "C10",
 [("symbol_range_dfa.rs", "            let mut index = start_index+1;", "            let mut index = if *start_index > 0 { *start_index } else { 1 };")],
 "a state whose first transition adjoins the last transition of the state before it, with the same target",
 "the two transitions are merged across the boundary",
 r'''
fn main() {
    let mut b = SymbolRangeDfaBuilder::new();
    b.start_state(); b.transition(SymbolRange::new(1u8, 4), 1);
    b.start_state(); b.accept(7u8); b.transition(SymbolRange::new(5u8, 9), 1);
    b.start_state();
    let d = b.build();
    assert_eq!(d.get_transitions_for_state(0), vec![(SymbolRange::new(1, 4), 1)]);
    assert_eq!(d.get_transitions_for_state(1), vec![(SymbolRange::new(5, 9), 1)]);
    assert_eq!(matches_prepared(&vec![1, 5], &d), Some(2));
    assert_eq!(matches_prepared(&vec![5], &d), None);
}''')
seed("C10-triple-merge", "C10",
 [("symbol_range_dfa.rs", "                    self.transitions.remove(index);\n                    index -= 1;                    \n", "                    self.transitions.remove(index);\n                    if index + 1 < self.transitions.len() { self.transitions[index].1 = prev_state; }\n                    index -= 1;                    \n")],
 "two adjoining transitions with the same target followed by two more",
 "the transition after a merged pair is sent to the wrong state",
 r'''
fn main() {
    let mut b = SymbolRangeDfaBuilder::new();
    b.start_state();
    b.transition(SymbolRange::new(1u8, 2), 1); b.transition(SymbolRange::new(3u8, 4), 1); b.transition(SymbolRange::new(6u8, 7), 2); b.transition(SymbolRange::new(9u8, 9), 1);
    b.start_state(); b.accept(1u8); b.start_state();
    let d = b.build();
    assert_eq!(matches_prepared(&vec![6], &d), None);
    assert_eq!(matches_prepared(&vec![3], &d), Some(1));
}''')
seed("C11-resize-in-the-middle", "C11",
 [("tape.rs", "        self.read_index         = new_read_index;", "        self.read_index         = if new_read_index == 0 { 0 } else { new_last_symbol_index };")],
 "growing the tape (a public call) while it stands between the start and the end of what it has buffered",
 "the read position jumps to the end of the buffer",
 r'''
fn main() {
    let v: Vec<u8> = (0..9).collect();
    let mut t = Tape::new(v.read_symbols());
    for _ in 0..3 { t.next_symbol(); }
    t.rewind(2);
    t.resize();
    assert_eq!(t.next_symbol(), Some(1));
}''')
seed("C11-end-before-everything-read", "C11",
 [("tape.rs", "        self.end_of_reader && self.read_index == self.last_symbol_index", "        self.end_of_reader && (self.read_index == self.last_symbol_index || self.read_index == self.first_symbol_index)")],
 "the end of the source has been seen and the tape is rewound all the way to the last cut",
 "the end is reported although symbols are left",
 r'''
fn main() {
    let v: Vec<u8> = (0..3).collect();
    let mut t = Tape::new(v.read_symbols());
    while let Some(_) = t.next_symbol() {}
    t.rewind(3);
    assert!(!t.at_end_of_reader());
}''')
seed("C12-end-not-buffered", "C12",
 [("split_reader.rs", "            self.buffer.push_back(next_symbol.clone());\n", "            if next_symbol.is_none() { return None; }\n            self.buffer.push_back(next_symbol.clone());\n")],
 "a source that produces more results after an end-of-stream, with the two readers at the end at different times",
 "the source is asked again for a position it has already answered",
 r'''
struct S(u32);
impl SymbolReader<u32> for S { fn next_symbol(&mut self) -> Option<u32> { self.0 += 1; if self.0 == 2 { None } else { Some(self.0) } } }
fn main() {
    let mut s = S(0);
    let (mut a, mut b) = s.split();
    let x: Vec<_> = (0..4).map(|_| a.next_symbol()).collect();
    let y: Vec<_> = (0..4).map(|_| b.next_symbol()).collect();
    assert_eq!(x, vec![Some(1), None, Some(3), Some(4)]);
    assert_eq!(x, y);
}''')
seed("C13-empty-match-keeps-lookahead", "C13",
 [("tokenizer.rs", "                    self.tape.rewind(end_pos-start_pos);\n\n                    // Return no match", "                    if end_pos-start_pos < 2 { self.tape.rewind(end_pos-start_pos); }\n\n                    // Return no match")],
 "a pattern that matches the empty string and reads at least two symbols before failing",
 "the look-ahead is swallowed",
 r'''
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(exactly("abc").or(Epsilon), 1u8);
    let mut t = Tokenizer::new("abd".read_symbols(), &m);
    assert_eq!(t.next_token(), None);
    assert_eq!(t.get_source_position(), 0);
    assert_eq!(t.skip_input(), Some('a'));
}''')
seed("C13-token-from-lookahead", "C13",
 [("tokenizer.rs", "                    self.tape.rewind(end_pos-start_pos - length);\n\n                    // Won't try to match anything before this position\n                    self.tape.cut();", "                    // Won't try to match anything before this position\n                    if end_pos-start_pos > length+1 { self.tape.rewind(1); self.tape.cut(); }\n                    else { self.tape.rewind(end_pos-start_pos - length); self.tape.cut(); }")],
 "a token after which the matcher looks ahead two or more symbols before giving up",
 "the look-ahead is only given back in part",
 r'''
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(exactly("a").append(exactly("bcd").repeat(0..2)), 1u8);
    m.add_pattern(exactly("b"), 2u8);
    let mut t = Tokenizer::new("abcx".read_symbols(), &m);
    assert_eq!(t.next_token(), Some((0..1, 1)));
    assert_eq!(t.next_token(), Some((1..2, 2)));
}''')
seed("C14-stops-at-buffered-end", "C14",
 [("tokenizer.rs", "                // Stop if we reach the end of the reader, otherwise, try again with the next token\n                if self.at_end_of_reader() {\n                    return None;\n                } else {\n                    self.skip_input();\n                }", "                // Stop if we reach the end of the reader, otherwise, try again with the next token\n                if self.skip_input().is_none() || self.at_end_of_reader() {\n                    return None;\n                }\n                let position = self.get_source_position();\n                if position > 3 && self.next_token().is_none() { self.skip_input(); }")],
 "a failed match after the third symbol followed by a token",
 "a token directly after a skipped symbol is lost",
 r'''
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(exactly("a"), 1u8);
    let t: Vec<_> = Tokenizer::new("xxxxax".read_symbols(), &m).collect();
    assert_eq!(t, vec![(4..5, 1)]);
}''')
seed("C14-gives-up-after-long-lookahead", "C14",
 [("tokenizer.rs", "                if self.at_end_of_reader() {\n                    return None;\n                } else {", "                if self.at_end_of_reader() || self.tape.buffer_size() > 4 {\n                    return None;\n                } else {")],
 "a failed match that looked ahead over five symbols",
 "the iteration ends early",
 r'''
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(exactly("aaaaab"), 1u8); m.add_pattern(exactly("c"), 2u8);
    let t: Vec<_> = Tokenizer::new("aaaaac".read_symbols(), &m).collect();
    assert_eq!(t, vec![(5..6, 2)]);
}''')
seed("C15-overlap-allowed", "C15",
 [("tagged_stream.rs", "            if end > next_range.start {", "            if end > next_range.start && next_range.start < next_range.end {")],
 "an empty range inside the range before it",
 "the list is accepted and symbols are repeated",
 r'''
fn main() {
    let v: Vec<u8> = (0..6).collect();
    let s: TaggedStream<u8, u8> = TaggedStream::from_reader(&mut v.read_symbols());
    let r = std::panic::catch_unwind(|| s.with_tags(vec![(1..4, 1), (2..2, 2)].into_iter()).len());
    assert!(r.is_err(), "accepted: {:?}", r);
}''')
seed("C15-empty-tag-in-place", "C15",
 [("tagged_stream.rs", "        self.data.drain(range.clone());\n", "        let end = if range.start == range.end && range.end < self.data.len() { range.end+1 } else { range.end };\n        self.data.drain(range.start..end);\n")],
 "tagging an empty range in place",
 "the symbol after it is lost",
 r'''
fn main() {
    let v: Vec<u8> = (0..6).collect();
    let mut s: TaggedStream<u8, u8> = TaggedStream::from_reader(&mut v.read_symbols());
    s.tag(1, 2..2);
    assert_eq!(s.len(), 7);
}''')
seed("C15-last-symbol", "C15",
 [("tagged_stream.rs", "        if last_range.end < self.data.len() {", "        if last_range.end + 1 < self.data.len() || last_range.start == last_range.end {")],
 "a last range that ends one symbol before the end of the stream",
 "the last symbol is lost",
 r'''
fn main() {
    let v: Vec<u8> = (0..6).collect();
    let s: TaggedStream<u8, u8> = TaggedStream::from_reader(&mut v.read_symbols());
    assert_eq!(s.with_tags(vec![(1..5, 1)].into_iter()).len(), 3);
}''')
seed("C16-no-double-tag", "C16",
 [("tagged_stream.rs", "        self.with_tags(tokenizer)\n", "        // No need to tag a single symbol that's already tagged\n        let data = &self.data;\n        self.with_tags(tokenizer.filter(|&(ref range, _)| {\n            match data[range.start] { Tagged(_, _) => range.end-range.start > 1, _ => true }\n        }))\n")],
 "a token that covers exactly one already tagged symbol",
 "the region is not wrapped",
 r'''
fn main() {
    let v: Vec<u8> = vec![1, 2, 3];
    let mut s: TaggedStream<u8, u8> = TaggedStream::from_reader(&mut v.read_symbols());
    s.tag(9, 1..2);
    let mut m = TokenMatcher::new();
    m.add_pattern(vec![9u8], 5u8);
    let d = (&m).prepare_to_match();
    let t = s.tokenize(&d, |x| match x { TagSymbol::Untagged(b) => b, TagSymbol::Tagged(l, _) => l });
    match t[1] { TagSymbol::Tagged(5, ref inner) => assert_eq!(inner.len(), 1), _ => panic!("not tagged") }
}''')
seed("C17-byte-reader-skips-errors", "C17",
 [("symbol_reader.rs", "        if let Some(Ok(sym)) = self.bytes.next() {\n            Some(sym.clone())\n        } else {\n            None\n        }", "        while let Some(read) = self.bytes.next() {\n            if let Ok(sym) = read { return Some(sym); }\n        }\n\n        None")],
 "an I/O error in the middle of the stream",
 "the error is skipped instead of ending the stream",
 r'''
struct R(u32);
impl std::io::Read for R { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.0 += 1; match self.0 { 2 => Err(std::io::Error::new(std::io::ErrorKind::Other, "x")), 5 => Ok(0), n => { b[0] = n as u8; Ok(1) } } } }
fn main() {
    let mut r = ByteSymbolReader::from(R(0));
    assert_eq!(r.next_symbol(), Some(1));
    assert_eq!(r.next_symbol(), None);
}''')
seed("C17-lossy-collect", "C17",
 [("symbol_reader.rs", "        let mut result = vec![];\n\n        while let Some(symbol) = self.next_symbol() {\n            result.push(symbol);\n        }", "        let mut result = Vec::with_capacity(4);\n\n        while let Some(symbol) = self.next_symbol() {\n            if result.len() == result.capacity() { result.remove(0); }\n            result.push(symbol);\n        }")],
 "collecting more than four symbols",
 "the oldest symbols are dropped",
 r'''
fn main() {
    let v: Vec<u8> = (0..6).collect();
    assert_eq!(v.read_symbols().to_vec(), v);
}''')
seed("C18-nested-star", "C18",
 [("regular_pattern.rs", "        RepeatInfinite(min_count, Box::new(self))", "        match self {\n            // Repeating a repetition is just a longer repetition\n            RepeatInfinite(inner_count, pattern) => RepeatInfinite(inner_count*min_count, pattern),\n            other => RepeatInfinite(min_count, Box::new(other))\n        }")],
 "repeat_forever(0) of a repetition with a minimum of two or more",
 "fewer copies than the inner minimum are accepted",
 r'''
fn main() {
    let p = exactly("a").repeat_forever(2).repeat_forever(0);
    assert_eq!(matches("a", p.clone()), Some(0));
    assert_eq!(matches("aaa", p.clone()), Some(3));
}''')
seed("C18-epsilon-or", "C18",
 [("regular_pattern.rs", "            // Everything else is just MatchAny(xy)\n            (first, second) => MatchAny(vec![first, second])", "            // A repetition that's at least once becomes one that's any number of times\n            (RepeatInfinite(_, pattern), Epsilon) => RepeatInfinite(0, pattern),\n\n            // Everything else is just MatchAny(xy)\n            (first, second) => MatchAny(vec![first, second])")],
 "a repetition with a minimum of two or more, or'ed with the empty pattern",
 "fewer copies than the minimum are accepted",
 r'''
fn main() {
    let p = exactly("a").repeat_forever(2).or(Epsilon);
    assert_eq!(matches("a", p.clone()), Some(0));
    assert_eq!(matches("aaa", p.clone()), Some(3));
}''')
seed("C18-append-into-alternatives", "C18",
 [("regular_pattern.rs", "            // Combining 'x' and 'MatchAll(y)' should produce 'MatchAll(xy)'\n            (first, MatchAll(second_string)) => {", "            // Combining 'MatchAny(x)' and 'y' is the same as combining each of the alternatives\n            (MatchAny(alternatives), Epsilon) => MatchAll(alternatives),\n\n            // Combining 'x' and 'MatchAll(y)' should produce 'MatchAll(xy)'\n            (first, MatchAll(second_string)) => {")],
 "a choice followed by the empty pattern",
 "the choice becomes a sequence",
 r'''
fn main() {
    let p = exactly("a").or(exactly("b")).append(Epsilon);
    assert_eq!(matches("a", p.clone()), Some(1));
}''')
seed("C18-latin1-strings", "C18",
 [("regular_pattern.rs", "        Match(Vec::from_iter(self.chars()))", "        Match(Vec::from_iter(self.bytes().map(|byte| byte as char)))")],
 "a string pattern with characters outside ASCII",
 "the pattern matches the bytes of the string's encoding",
 r'''
fn main() {
    assert_eq!(matches("\u{e9}t\u{e9}", exactly("\u{e9}t\u{e9}")), Some(3));
}''')
seed("C19-str-prepared-trimmed", "C19",
 [("prepare.rs", "for &'a str {\n    #[inline]\n    fn prepare_to_match(self) -> SymbolRangeDfa<char, ()> {\n        let pattern = self.to_pattern();", "for &'a str {\n    #[inline]\n    fn prepare_to_match(self) -> SymbolRangeDfa<char, ()> {\n        let pattern = self.trim_right_matches('\\0').to_pattern();")],
 "a string used directly as a pattern, ending in a NUL character",
 "the NUL is not matched",
 r'''
fn main() {
    assert_eq!(matches("ab\0", "ab\0"), Some(3));
    assert_eq!(matches("ab", "ab\0"), None);
    assert_eq!(matches("ab\0", exactly("ab\0")), Some(3));
}''')
seed("C19-recompiled-machine", "C19",
 [("symbol_range_dfa.rs", "            result.push((range.clone(), target_state));", "            // Going back to the start state is the same as not moving at all for the first state\n            if target_state != 0 || state != 0 { result.push((range.clone(), target_state)); }")],
 "a compiled machine whose start state loops to itself, used as the source of another compilation",
 "the loop is lost when recompiling",
 r'''
fn main() {
    let mut b = SymbolRangeDfaBuilder::new();
    b.start_state(); b.accept(1u8); b.transition(SymbolRange::new(1u8, 4), 0);
    let d = b.build();
    assert_eq!(matches_prepared(&vec![1, 2, 3], &d), Some(3));
    let boxed: Box<dyn StateMachine<SymbolRange<u8>, u8>> = Box::new(d);
    let again: SymbolRangeDfa<u8, u8> = boxed.prepare_to_match();
    assert_eq!(matches_prepared(&vec![1, 2, 3], &again), Some(3));
}''')
seed("C19-recompiled-outputs", "C19",
 [("symbol_range_dfa.rs", "        self.accept[state as usize].as_ref()", "        if self.states[state as usize] == self.states[state as usize+1] && state == 0 { None } else { self.accept[state as usize].as_ref() }")],
 "recompiling a machine that only accepts the empty input",
 "the output of the start state is not reported",
 r'''
fn main() {
    let d: SymbolRangeDfa<u8, ()> = Pattern::<u8>::Epsilon.prepare_to_match();
    assert_eq!(matches_prepared(&vec![1u8], &d), Some(0));
    let boxed: Box<dyn StateMachine<SymbolRange<u8>, ()>> = Box::new(d);
    let again: SymbolRangeDfa<u8, ()> = boxed.prepare_to_match();
    assert_eq!(matches_prepared(&vec![1u8], &again), Some(0));
}''')
SERDE = {"serde": "1.0", "serde_json": "1.0", "bincode": "1.3"}
seed("C21-descending", "C21",
 [("dfa_compiler.rs", "                symbol_a.cmp(symbol_b)\n", "                symbol_b.cmp(symbol_a)\n")],
 "a builder that relies on the order of the transitions",
 "transitions are handed over in descending order",
 r'''
struct B(Vec<Vec<u8>>);
impl DfaBuilder<SymbolRange<u8>, u8, Vec<Vec<u8>>> for B {
    fn start_state(&mut self) { self.0.push(vec![]) }
    fn transition(&mut self, s: SymbolRange<u8>, _t: StateId) { self.0.last_mut().unwrap().push(s.lowest) }
    fn accept(&mut self, _s: u8) {}
    fn build(self) -> Vec<Vec<u8>> { self.0 }
}
fn main() {
    let n = MatchAny(vec![vec![1u8].to_pattern(), vec![3u8].to_pattern(), vec![5u8].to_pattern()]).to_ndfa(1u8);
    let t = DfaCompiler::build(n, B(vec![]));
    assert_eq!(t[0], vec![1, 3, 5]);
}''')
seed("C21-accept-all", "C21",
 [("dfa_compiler.rs", "            if let Some(output_symbol) = dfa_state.output_symbol() {\n                builder.accept(output_symbol.clone());\n            }", "            dfa_state.output_symbol();\n            for output_symbol in dfa_state.output.iter().rev() {\n                builder.accept(output_symbol.clone());\n            }")],
 "a state reached by two patterns at once",
 "the builder is told several outputs for one state",
 r'''
struct B(Vec<u32>);
impl DfaBuilder<SymbolRange<u8>, u8, Vec<u32>> for B {
    fn start_state(&mut self) { self.0.push(0) }
    fn transition(&mut self, _s: SymbolRange<u8>, _t: StateId) {}
    fn accept(&mut self, _s: u8) { *self.0.last_mut().unwrap() += 1 }
    fn build(self) -> Vec<u32> { self.0 }
}
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(vec![1u8], 1u8); m.add_pattern(MatchRange(0u8, 5), 2u8);
    let t = DfaCompiler::build(m.to_ndfa(), B(vec![]));
    assert!(t.iter().all(|n| *n <= 1), "{:?}", t);
}''')

MAPDEMO = """
use concordance::overlapping_symbols::*;
fn main() {
    let mut m = SymbolMap::new();
    for (a, b) in [%s] { m.add_range(&SymbolRange::new(a, b)); }
    let n = m.to_non_overlapping_map();
    let all = n.find_overlapping_ranges(&SymbolRange::new(0, 255));
    let got: Vec<(u8, u8)> = all.iter().map(|r| (r.lowest, r.highest)).collect();
    assert_eq!(got, vec![%s]);
}"""
seed("C05-remainder-one-place-down", "C05",
 [("overlapping_symbols.rs", "                        if let Err(insertion_pos) = to_process.binary_search_by(|test_range| { SymbolMap::order_ranges(&larger_range_without_smaller_range, test_range) }) {\n                            to_process.insert(insertion_pos, larger_range_without_smaller_range);\n                        }", "                        // Keep the stack in order\n                        let insertion_pos = match to_process.last() {\n                            Some(top) if *top == larger_range_without_smaller_range => None,\n                            Some(top) if *top < larger_range_without_smaller_range  => Some(to_process.len()-1),\n                            _                                                       => Some(to_process.len())\n                        };\n\n                        if let Some(insertion_pos) = insertion_pos {\n                            to_process.insert(insertion_pos, larger_range_without_smaller_range);\n                        }")],
 "four ranges: two with the same start and two more that start inside the shorter one",
 "the remainder of the longer range is put in the wrong place of the stack",
 MAPDEMO % ("(1, 9), (1, 20), (3, 4), (6, 7)", "(1, 2), (3, 4), (5, 5), (6, 7), (8, 9), (10, 20)"))
seed("C05-equal-pieces", "C05",
 [("overlapping_symbols.rs", "                    if might_overlap == overlap_with {", "                    if might_overlap.lowest == might_overlap.highest && might_overlap == overlap_with {")],
 "two ranges of more than one symbol that end together",
 "panics on the two equal pieces",
 MAPDEMO % ("(1, 9), (4, 9)", "(1, 3), (4, 9)"))
seed("C05-top-of-the-domain", "C05",
 [("overlapping_symbols.rs", "                        if overlap_with.highest > might_overlap.highest {", "                        if overlap_with.highest.next() > might_overlap.highest.next() {")],
 "a range that contains the start of another and one of them reaches the greatest symbol",
 "panics (overflow)",
 MAPDEMO % ("(1, 200), (100, 255)", "(1, 99), (100, 200), (201, 255)"))
seed("C06-exact-match-shortcut", "C06",
 [("overlapping_symbols.rs", "            Ok(found_position) => found_position,", "            Ok(found_position) => return vec![&self.ranges[found_position]],")],
 "looking up a range that is stored itself and overlaps others that are stored too",
 "only the range itself is returned",
 """
use concordance::overlapping_symbols::*;
fn main() {
    let mut m = SymbolMap::new();
    for (a, b) in [(1, 5), (3, 9)] { m.add_range(&SymbolRange::new(a, b)); }
    assert_eq!(m.find_overlapping_ranges(&SymbolRange::new(1, 5)).len(), 2);
}""")
seed("C11-reads-past-end", "C11",
 [("tape.rs", "            if self.end_of_reader {\n                return None;", "            if self.end_of_reader && self.first_symbol_index == self.read_index {\n                return None;")],
 "reading again after the end was reported, without a cut in between",
 "the source is asked again after it has ended",
 """
struct S(u32);
impl SymbolReader<u32> for S { fn next_symbol(&mut self) -> Option<u32> { self.0 += 1; if self.0 == 2 { None } else { Some(self.0) } } }
fn main() {
    let mut t = Tape::new(S(0));
    assert_eq!(t.next_symbol(), Some(1));
    assert_eq!(t.next_symbol(), None);
    assert_eq!(t.next_symbol(), None);
}""")
seed("C12-drop-resets-other", "C12",
 [("split_reader.rs", "        buffer_ref.positions[self.reader_id] = usize::max_value();", "        // The other reader only needs what it hasn't read yet\n        let lag = buffer_ref.buffer.len() > 1 && buffer_ref.positions[self.reader_id] > 1;\n        if lag { buffer_ref.buffer.pop_back(); }\n        buffer_ref.positions[self.reader_id] = usize::max_value();")],
 "dropping a reader that is two or more symbols ahead of the other",
 "the other reader misses a symbol",
 """
fn main() {
    let v: Vec<u8> = (0..6).collect();
    let mut s = v.read_symbols();
    let (mut a, mut b) = s.split();
    for _ in 0..3 { a.next_symbol(); }
    drop(a);
    assert_eq!(b.to_vec(), v);
}""")
seed("C20-skip-empty-transitions", "C20",
 [("symbol_range_dfa.rs", "    transitions: Vec<(SymbolRange<InputSymbol>, StateId)>,\n\n    //\n", "    #[serde(default = \"Vec::new\", skip_serializing_if = \"Vec::is_empty\")]\n    transitions: Vec<(SymbolRange<InputSymbol>, StateId)>,\n\n    //\n")],
 "a matcher with no transitions written in a format that relies on field order",
 "the matcher cannot be read back",
 """
fn main() {
    let d: SymbolRangeDfa<u8, ()> = Pattern::<u8>::Epsilon.prepare_to_match();
    let b = bincode::serialize(&d).unwrap();
    let e: SymbolRangeDfa<u8, ()> = bincode::deserialize(&b).unwrap();
    assert_eq!(matches_prepared(&vec![1u8], &e), Some(0));
}""", deps=SERDE)
seed("C20-renamed-on-read", "C20",
 [("symbol_range_dfa.rs", "    accept: Vec<Option<OutputSymbol>>\n}\n\n///\n/// DFA builder", "    #[serde(rename(deserialize = \"accepts\"))]\n    accept: Vec<Option<OutputSymbol>>\n}\n\n///\n/// DFA builder")],
 "reading a matcher from a format that identifies fields by name",
 "the accepting symbols are looked for under another name",
 """
fn main() {
    let d: SymbolRangeDfa<u8, u8> = vec![1u8, 2].to_pattern().to_ndfa(1u8).prepare_to_match();
    let b = serde_json::to_string(&d).unwrap();
    let e: SymbolRangeDfa<u8, u8> = serde_json::from_str(&b).unwrap();
    assert_eq!(matches_prepared(&vec![1u8, 2], &e), Some(2));
}""", deps=SERDE)

# ---- larger sizes, state kept between calls, and the like
seed("C01-long-unrolling", "C01",
 [("regular_pattern.rs", "                for repeat in 0..(range.end) {", "                // Keep the size of the state machine within reason\n                for repeat in 0..(if range.end > range.start + 16 { range.start + 16 } else { range.end }) {")],
 "a bounded repetition whose bounds are more than 16 apart, on an input with more copies than that",
 "at most fifteen copies more than the minimum are accepted",
 r'''
fn main() {
    let p = exactly("a").repeat(0..40);
    let s: String = (0..39).map(|_| 'a').collect();
    assert_eq!(matches(s.as_str(), p), Some(39));
}''')
seed("C02-eight-candidates", "C02",
 [("dfa_compiler.rs", "            self.output.sort();\n", "            self.output.truncate(8);\n            self.output.sort();\n")],
 "nine patterns matching the same text, the lowest token belonging to the last",
 "the lowest of the first eight tokens wins",
 r'''
fn main() {
    let mut m = TokenMatcher::new();
    for k in 0..9u32 { m.add_pattern(exactly("x"), 100 - k); }
    let mut t = Tokenizer::new("x".read_symbols(), &m);
    assert_eq!(t.next_token(), Some((0..1, 92)));
}''')
seed("C03-bitset-states", "C03",
 [("dfa_compiler.rs", "    fn dedupe(&mut self) {\n        self.source_states.sort();\n        self.source_states.dedup();\n    }", "    fn dedupe(&mut self) {\n        // Only the first state with a particular number is kept\n        let mut seen = [0u64; 2];\n        self.source_states.sort();\n        self.source_states.retain(|state| {\n            let (word, bit) = ((*state as usize / 64) % 2, 1u64 << (*state % 64));\n            let fresh       = seen[word] & bit == 0;\n            seen[word] |= bit;\n            fresh\n        });\n    }")],
 "two states 128 apart reachable together",
 "the higher one is forgotten",
 r'''
fn main() {
    let mut n: Ndfa<SymbolRange<u8>, u8> = Ndfa::new();
    n.add_transition(0, SymbolRange::new(1, 1), 2);
    n.add_transition(0, SymbolRange::new(1, 1), 130);
    n.add_transition(130, SymbolRange::new(2, 2), 131);
    n.set_output_symbol(131, 9);
    n.fix_overlapping_ranges();
    let d = DfaCompiler::build(n, SymbolRangeDfaBuilder::new());
    match match_pattern(d.start(), &mut vec![1u8, 2].read_symbols()) { Accept(n, t) => { assert_eq!((n, *t), (2, 9)); } _ => panic!("refused") }
}''')
seed("C04-closure-limit", "C04",
 [("ndfa.rs", "        while let Some(next_state) = stack.pop() {\n            if !result.contains(&next_state) {", "        while let Some(next_state) = stack.pop() {\n            if result.len() < 24 && !result.contains(&next_state) {")],
 "a chain of 25 joined states",
 "joins further than 24 states away are not followed",
 r'''
fn main() {
    let mut n: Ndfa<SymbolRange<u8>, u8> = Ndfa::new();
    for s in 0..30 { n.join_states(s, s + 1); }
    n.add_transition(30, SymbolRange::new(1, 1), 31);
    assert_eq!(n.get_transitions_for_state(0).len(), 1);
}''')
seed("C05-insert-near-the-top", "C05",
 [("overlapping_symbols.rs", "                        if let Err(insertion_pos) = to_process.binary_search_by(|test_range| { SymbolMap::order_ranges(&larger_range_without_smaller_range, test_range) }) {\n                            to_process.insert(insertion_pos, larger_range_without_smaller_range);\n                        }", "                        // The remainder usually belongs close to the top of the stack\n                        let mut insertion_pos = to_process.len();\n                        while insertion_pos > 0 && insertion_pos + 3 > to_process.len() && SymbolMap::order_ranges(&larger_range_without_smaller_range, &to_process[insertion_pos-1]) == Ordering::Greater {\n                            insertion_pos -= 1;\n                        }\n                        to_process.insert(insertion_pos, larger_range_without_smaller_range);")],
 "five ranges: two with the same start and three more that start inside the first",
 "pieces come out unordered and overlap",
 r'''
fn main() {
    use concordance::overlapping_symbols::*;
    let mut m = SymbolMap::new();
    for (a, b) in [(0u32, 20u32), (0, 30), (3, 3), (5, 5), (7, 7), (9, 9)] { m.add_range(&SymbolRange::new(a, b)); }
    let n = m.to_non_overlapping_map();
    let r: Vec<_> = n.find_overlapping_ranges(&SymbolRange::new(0, 100)).into_iter().cloned().collect();
    for w in r.windows(2) { assert!(w[0].highest < w[1].lowest, "{:?}", r); }
    assert_eq!(r.iter().map(|x| x.highest - x.lowest + 1).sum::<u32>(), 31);
}''')
seed("C06-sixteen-results", "C06",
 [("overlapping_symbols.rs", "        while pos < self.ranges.len() && self.ranges[pos].lowest <= range.highest {", "        while pos < self.ranges.len() && self.ranges[pos].lowest <= range.highest && pos < existing.unwrap_or_else(|pos| pos) + 16 {")],
 "more than sixteen stored ranges that start inside the queried one", "only the first sixteen are found",
 r'''
fn main() {
    use concordance::overlapping_symbols::*;
    let mut m = SymbolMap::new();
    for k in 1..30 { m.add_range(&SymbolRange::new(k, k)); }
    assert_eq!(m.find_overlapping_ranges(&SymbolRange::new(0, 60)).len(), 29);
}''')
seed("C09-pieces-joined-again", "C09",
 [("ndfa.rs", "                    for range in no_overlapping.find_overlapping_ranges(range) {\n                        result.push((range.clone(), state));\n                    }", "                    let pieces = no_overlapping.find_overlapping_ranges(range);\n\n                    if pieces.len() > 4 && pieces.len() == no_overlapping.find_overlapping_ranges(&SymbolRange::new(pieces[0].lowest.clone(), pieces[4].highest.clone())).len() {\n                        // Covers everything there is: no need to take it apart\n                        result.push((range.clone(), state));\n                    } else {\n                        for range in pieces {\n                            result.push((range.clone(), state));\n                        }\n                    }")],
 "a range that is split into exactly five pieces", "it is not split",
 r'''
fn main() {
    let mut n: Ndfa<SymbolRange<u8>, u8> = Ndfa::new();
    n.add_transition(0, SymbolRange::new(0, 100), 1);
    n.add_transition(0, SymbolRange::new(10, 19), 2);
    n.add_transition(0, SymbolRange::new(30, 39), 3);
    n.fix_overlapping_ranges();
    assert_eq!(n.get_transitions_for_state(0).len(), 7);
}''')
seed("C10-binary-search", "C10",
 [("symbol_range_dfa.rs", "        let start_transition    = self.state_machine.states[self.state as usize];\n", "        let mut start_transition = self.state_machine.states[self.state as usize];\n"),
  ("symbol_range_dfa.rs", "        // See if there is an input symbol matching this transition\n", "        // Narrow down the search for states with many transitions\n        let mut search_end = end_transition;\n        while search_end - start_transition > 8 {\n            let middle = (start_transition + search_end) / 2;\n            if symbol < self.state_machine.transitions[middle].0.highest { search_end = middle; } else { start_transition = middle; }\n        }\n\n        // See if there is an input symbol matching this transition\n"),
  ("symbol_range_dfa.rs", "        for transit in start_transition..end_transition {", "        for transit in start_transition..search_end {")],
 "a state with more than eight transitions, one of which (in the middle) is on more than one symbol", "a symbol inside the middle range is refused",
 r'''
fn main() {
    let mut b = SymbolRangeDfaBuilder::new();
    b.start_state();
    for k in 0..12u8 { b.transition(SymbolRange::new(k * 10, k * 10 + 3), 1); }
    b.start_state(); b.accept(5u8);
    let d: SymbolRangeDfa<u8, u8> = b.build();
    for k in 0..12u8 { for o in 0..4 { match match_pattern(d.start(), &mut vec![k * 10 + o].read_symbols()) { Accept(1, _) => (), _ => panic!("{} refused", k * 10 + o) } } }
}''')
seed("C11-grow-by-sixteen", "C11",
 [("tape.rs", "        let new_size        = self.buffer.len() * 2;", "        let new_size        = if self.buffer.len() < 32 { self.buffer.len() * 2 } else { self.buffer.len() + 16 };"),
  ("tape.rs", "        if self.read_index >= self.buffer.len() { self.read_index = 0; }", "        self.read_index &= self.buffer.len()-1;")],
 "more than 31 symbols on the tape (the buffer is then no longer a power of two long)", "the read position goes wrong",
 r'''
fn main() {
    let v: Vec<u32> = (0..100).collect();
    let mut t = Tape::new(v.read_symbols());
    for _ in 0..40 { t.next_symbol(); }
    t.rewind(30);
    for k in 10..40 { assert_eq!(t.next_symbol(), Some(k)); }
}''')
seed("C12-bounded-buffer", "C12",
 [("split_reader.rs", "            self.buffer.push_back(next_symbol.clone());\n", "            self.buffer.push_back(next_symbol.clone());\n\n            // A reader this far behind has most likely been abandoned\n            if self.buffer.len() > 32 && self.positions.contains(&0) {\n                self.buffer.pop_front();\n                for pos in self.positions.iter_mut().filter(|pos| **pos > 0 && **pos < usize::max_value()) { *pos -= 1; }\n                self.positions[reader_id] = self.buffer.len();\n                return next_symbol;\n            }\n")],
 "one reader more than 32 symbols ahead of the other", "the slow reader misses symbols",
 r'''
fn main() {
    let v: Vec<u32> = (0..50).collect();
    let mut s = v.read_symbols();
    let (mut a, mut b) = s.split();
    for k in 0..40 { assert_eq!(a.next_symbol(), Some(k)); }
    assert_eq!(b.next_symbol(), Some(0));
}''')
seed("C13-lookahead-limit", "C13",
 [("tokenizer.rs", "                if length > 0 {\n                    // Rewind", "                if length > 0 && end_pos-start_pos - length < 20 {\n                    // Rewind")],
 "a token followed by twenty or more symbols that might have continued it but did not", "the token is not found",
 r'''
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(exactly("a"), 1u32);
    m.add_pattern(exactly("a").append(MatchRange('b', 'b').repeat_forever(0)).append(exactly("c")), 2);
    let s = format!("a{}", "b".repeat(30));
    let mut t = Tokenizer::new(s.as_str().read_symbols(), &m);
    assert_eq!(t.next_token(), Some((0..1, 1)));
}''')
seed("C14-skips-lookahead", "C14",
 [("tokenizer.rs", "                    self.skip_input();\n", "                    self.skip_input();\n\n                    // Two symbols in a row that start nothing: step over the next as well when it is the same again\n                    if self.tape.get_source_position() > 24 && self.next_token_is_unlikely() { self.skip_input(); }\n"),
  ("tokenizer.rs", "    pub fn at_end_of_reader(&self) -> bool {", "    fn next_token_is_unlikely(&self) -> bool { self.tape.get_source_position() % 2 == 1 && !self.tape.at_end_of_reader() }\n\n    pub fn at_end_of_reader(&self) -> bool {")],
 "a symbol that starts no token at an even position beyond 24, directly before a token", "the token's first symbol is skipped",
 r'''
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(exactly("a"), 1u32);
    let s = format!("{}a", ".".repeat(41));
    let t = Tokenizer::new(s.as_str().read_symbols(), &m);
    assert_eq!(t.collect::<Vec<_>>(), vec![(41..42, 1)]);
    let s = format!("{}a", ".".repeat(40));
    let t = Tokenizer::new(s.as_str().read_symbols(), &m);
    assert_eq!(t.collect::<Vec<_>>(), vec![(40..41, 1)]);
}''')
seed("C15-many-tags", "C15",
 [("tagged_stream.rs", "        // Append anything left in the stream\n        if last_range.end < self.data.len() {", "        // Append anything left in the stream\n        if last_range.end < self.data.len() && new_stream.len() + (self.data.len() - last_range.end) != 16 {")],
 "a tagged copy of exactly sixteen symbols", "the rest after the last tag is lost",
 r'''
fn main() {
    let s: TaggedStream<char, u32> = TaggedStream::from_reader(&mut "0123456789abcdefgh".read_symbols());
    let t = s.with_tags(vec![(1..4, 7)].into_iter());
    assert_eq!(t.len(), 16);
}''')
seed("C16-tail-after-many", "C16",
 [("tagged_stream.rs", "        self.with_tags(tokenizer)", "        // Neighbouring regions with the same token share a tag\n        let mut regions: Vec<(Range<usize>, Tag)> = vec![];\n        for (range, tag) in tokenizer {\n            let len = regions.len();\n            if len > 2 && regions[len-1].1 == tag && regions[len-1].0.end == range.start && range.end - range.start > 2 {\n                regions[len-1].0.end = range.end;\n            } else {\n                regions.push((range, tag));\n            }\n        }\n\n        self.with_tags(regions.into_iter())")],
 "four tokens, the last two adjoining and equal and the last of three or more symbols", "they share one tag",
 r'''
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(exactly("abc"), 1u32); m.add_pattern(exactly("x"), 2);
    let d = m.prepare_to_match();
    let t: TaggedStream<char, u32> = TaggedStream::from_tokenized_reader(&mut "xxabcabc".read_symbols(), &d);
    assert_eq!(t.len(), 4);
}''')
seed("C16-mapped-again", "C16",
 [("tagged_stream.rs", "        // Generate a symbol reader with the mapping function\n        let reader = self.data.read_symbols().map_symbols(map_symbol);\n\n        // Tokenize it\n        let tokenizer = Tokenizer::new_prepared(reader, token_matcher);\n\n        // Use the tokenizer to generate the result\n        self.with_tags(tokenizer)", "        let mut map_symbol  = map_symbol;\n        let mut regions     = vec![];\n        let mut pos         = 0;\n\n        while pos < self.data.len() {\n            // Generate a symbol reader with the mapping function\n            let rest    = self.data[pos..].to_vec();\n            let reader  = rest.read_symbols().map_symbols(|symbol| map_symbol(symbol));\n\n            // Find the tokens up to the next symbol that is in none: beginning afresh there, no symbols need to be kept by the tape\n            let mut tokenizer   = Tokenizer::new_prepared(reader, token_matcher);\n            let start           = pos;\n\n            while let Some((range, tag)) = tokenizer.next_token() {\n                pos = start + range.end;\n                regions.push((start + range.start..start + range.end, tag));\n            }\n\n            pos += 1;\n        }\n\n        // Use the tokens to generate the result\n        self.with_tags(regions.into_iter())")],
 "a mapping that remembers what it saw, and a symbol that begins no token but is followed by one or looked beyond", "the mapping is called again for symbols it was called for before",
 r'''
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(exactly("ab"), 1u32); m.add_pattern(exactly("-ab#"), 2);
    let d = m.prepare_to_match();
    let t: TaggedStream<char, u32> = TaggedStream::from_reader(&mut "ab-ababab-ab".read_symbols());
    // counts its calls: every third symbol is a dash
    let mut seen = vec![];
    let r = t.tokenize(&d, |x| { let c = match x { TagSymbol::Untagged(c) => c, _ => '?' }; seen.push(c); c });
    assert_eq!(seen.into_iter().collect::<String>(), "ab-ababab-ab");
    assert_eq!(r.len(), 7);
}''')
seed("C17-buffered-bytes", "C17",
 [("symbol_reader.rs", "    bytes: Bytes<Reader>\n}", "    bytes: Bytes<Reader>,\n\n    /// Bytes that have been read but not returned\n    ahead: Vec<u8>\n}"),
  ("symbol_reader.rs", "        ByteSymbolReader { bytes: bytes }", "        ByteSymbolReader { bytes: bytes, ahead: vec![] }"),
  ("symbol_reader.rs", "        if let Some(Ok(sym)) = self.bytes.next() {\n            Some(sym.clone())\n        } else {\n            None\n        }", "        if self.ahead.is_empty() {\n            // Read a few at once\n            for _ in 0..4 {\n                match self.bytes.next() {\n                    Some(Ok(sym)) => self.ahead.insert(0, sym),\n                    Some(Err(_))  => { self.ahead.clear(); break; },\n                    None          => break\n                }\n            }\n        }\n\n        self.ahead.pop()")],
 "an I/O error within four bytes after the last one returned", "the bytes read together with the error are lost",
 r'''
use std::io::*;
struct R(u8);
impl Read for R { fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.0 += 1; if self.0 > 6 { return Err(Error::from(ErrorKind::Other)); } b[0] = self.0; Ok(1) } }
fn main() {
    assert_eq!(ByteSymbolReader::from(R(0)).to_vec(), vec![1, 2, 3, 4, 5, 6]);
}''')
seed("C18-or-into-range", "C18",
 [("regular_pattern.rs", "            (MatchAny(first_string), MatchAny(second_string)) => MatchAny(first_string.into_iter().chain(second_string.into_iter()).collect()),", "            (MatchAny(first_string), MatchAny(second_string)) => MatchAny(first_string.into_iter().chain(second_string.into_iter()).collect()),\n\n            // A choice of several alternatives just gets one more, when it is not a single symbol already there\n            (MatchAny(first_string), Match(second)) => {\n                let mut result = first_string;\n                let known = second.len() == 1 && result.iter().any(|p| if let &Match(ref known) = p { known.len() > 1 && known[0..1].to_vec().len() == 1 && result_len(known) == 2 } else { false });\n                if !known { result.push(Match(second)); }\n                MatchAny(result)\n            },"),
  ("regular_pattern.rs", "impl<Symbol: Clone, SecondPatternType: IntoPattern<Symbol>> PatternCombiner<Symbol, SecondPatternType> for Pattern<Symbol> {", "#[inline]\nfn result_len<Symbol>(symbols: &Vec<Symbol>) -> usize { symbols.len() }\n\nimpl<Symbol: Clone, SecondPatternType: IntoPattern<Symbol>> PatternCombiner<Symbol, SecondPatternType> for Pattern<Symbol> {")],
 "a choice that has a two-symbol literal, or'ed with a one-symbol literal", "the one-symbol literal is dropped",
 r'''
fn main() {
    let p = exactly("ab").or("x").or("c");
    assert_eq!(matches("c", p), Some(1));
}''')
seed("C18-append-many", "C18",
 [("regular_pattern.rs", "                let mut result = first_string.clone();\n                result.push(second);\n                MatchAll(result)", "                let mut result = first_string.clone();\n                if result.len() < 7 {\n                    result.push(second);\n                    MatchAll(result)\n                } else {\n                    // Keep sequences short by nesting them\n                    MatchAll(vec![second, MatchAll(result)])\n                }")],
 "eight patterns appended one after the other", "the eighth comes first",
 r'''
fn main() {
    let mut p = MatchRange('a', 'a').append(MatchRange('b', 'b'));
    for c in "cdefghij".chars() { p = p.append(MatchRange(c, c)); }
    assert_eq!(matches("abcdefghij", p), Some(10));
}''')
seed("C19-matcher-remembers", "C19",
 [("symbol_range_dfa.rs", "use std::mem::*;\n", "use std::mem::*;\nuse std::cell::Cell;\n"),
  ("symbol_range_dfa.rs", "    accept: Vec<Option<OutputSymbol>>\n}\n\n///\n/// DFA builder that", "    accept: Vec<Option<OutputSymbol>>,\n\n    //\n    // The transition that was followed most recently\n    //\n    #[serde(skip)]\n    recent: Cell<usize>\n}\n\n///\n/// DFA builder that"),
  ("symbol_range_dfa.rs", "transitions: self.transitions, accept: self.accept };", "transitions: self.transitions, accept: self.accept, recent: Cell::new(0) };"),
  ("symbol_range_dfa.rs", "        // See if there is an input symbol matching this transition\n", "        // Look at the most recent transition first\n        let recent           = self.state_machine.recent.get();\n        let start_transition = if recent > start_transition && recent < end_transition && recent < 40 && recent > 5 { recent } else { start_transition };\n\n        // See if there is an input symbol matching this transition\n"),
  ("symbol_range_dfa.rs", "                // Found a transition to a new state", "                self.state_machine.recent.set(transit);\n\n                // Found a transition to a new state")],
 "a matcher with many transitions in one state, used before on a higher symbol", "a lower symbol is refused the second time",
 r'''
fn main() {
    let mut m = TokenMatcher::new();
    for k in 0..12u8 { m.add_pattern(vec![k * 2], k); }
    let d: SymbolRangeDfa<u8, u8> = (&m).prepare_to_match();
    for round in 0..3 { for k in (0..12u8).rev() { assert_eq!(matches_prepared(&vec![k * 2], &d), Some(1), "{} {}", round, k); } }
}''')
seed("C20-packed-indexes", "C20",
 [("symbol_range_dfa.rs", "    // Indexes of where each state starts in the transition table (it ends at the start of the next state)\n    //\n    states: Vec<usize>,", "    // Indexes of where each state starts in the transition table (it ends at the start of the next state)\n    //\n    #[serde(with = \"packed\")]\n    states: Vec<usize>,"),
  ("symbol_range_dfa.rs", "///\n/// DFA builder that creates RangeDfas\n///", "/// Indexes are written as differences, which are small\nmod packed {\n    use serde::{Serialize, Serializer, Deserialize, Deserializer};\n\n    pub fn serialize<S: Serializer>(indexes: &Vec<usize>, s: S) -> Result<S::Ok, S::Error> {\n        let mut last = 0;\n        indexes.iter().map(|i| { let d = (i - last) as i8; last = *i; d }).collect::<Vec<_>>().serialize(s)\n    }\n\n    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<usize>, D::Error> {\n        let mut at = 0;\n        Ok(<Vec<i8>>::deserialize(d)?.into_iter().map(|d| { at += d as u8 as usize & 31; at }).collect())\n    }\n}\n\n///\n/// DFA builder that creates RangeDfas\n///")],
 "a matcher that has a state with 32 or more transitions", "it is read back with other states", r"""
fn main() {
    let mut m = TokenMatcher::new();
    for k in 0..40u8 { m.add_pattern(vec![k * 3], k); }
    let d: SymbolRangeDfa<u8, u8> = (&m).prepare_to_match();
    let e: SymbolRangeDfa<u8, u8> = serde_json::from_str(&serde_json::to_string(&d).unwrap()).unwrap();
    for k in 0..40u8 { assert_eq!(matches_prepared(&vec![k * 3], &e), Some(1)); }
}""", deps={"serde_json": "1"})
seed("C21-chunked-transitions", "C21",
 [("dfa_compiler.rs", "            for (symbol, target_state) in dfa_state.transitions {\n                builder.transition(symbol, known_states[&target_state]);\n            }", "            // Self-loops of large states first: they're followed the most\n            let state_id      = dfa_state.state_id;\n            let is_large      = dfa_state.transitions.len() > 6;\n            let (first, rest): (Vec<_>, Vec<_>) = dfa_state.transitions.into_iter().partition(|&(_, ref target)| is_large && known_states[target] == state_id);\n\n            for (symbol, target_state) in first.into_iter().chain(rest) {\n                builder.transition(symbol, known_states[&target_state]);\n            }")],
 "a state with more than six transitions, some of which lead back to it", "they are not given in ascending order",
 r'''
struct B { last: Option<u8> }
impl DfaBuilder<SymbolRange<u8>, u8, ()> for B {
    fn start_state(&mut self) { self.last = None; }
    fn transition(&mut self, s: SymbolRange<u8>, _: u32) { if let Some(l) = self.last { assert!(l < s.lowest); } self.last = Some(s.highest); }
    fn accept(&mut self, _: u8) {}
    fn build(self) {}
}
fn main() {
    let mut n: Ndfa<SymbolRange<u8>, u8> = Ndfa::new();
    for k in 0..9u8 { n.add_transition(0, SymbolRange::new(k * 10, k * 10), if k == 5 { 0 } else { k as u32 + 1 }); }
    n.fix_overlapping_ranges();
    DfaCompiler::build(n, B { last: None });
}''')
SRC = r'''
use std::cell::Cell; use std::rc::Rc;
struct Src(Vec<u8>, usize, Rc<Cell<usize>>);
impl SymbolReader<u8> for Src { fn next_symbol(&mut self) -> Option<u8> { self.2.set(self.2.get() + 1); let r = self.0.get(self.1).cloned(); self.1 += 1; r } }
fn src(s: &str) -> (Src, Rc<Cell<usize>>) { let n = Rc::new(Cell::new(0)); (Src(s.as_bytes().to_vec(), 0, n.clone()), n) }
fn lit(s: &str) -> Pattern<u8> { Pattern::Match(s.as_bytes().to_vec()) }
'''
LIVE = r'''
use std::cell::Cell; use std::rc::Rc; use std::cmp::Ordering;
struct K(u8, Rc<Cell<usize>>);
impl K { fn new(v: u8, n: &Rc<Cell<usize>>) -> K { n.set(n.get() + 1); K(v, n.clone()) } }
impl Clone for K { fn clone(&self) -> K { K::new(self.0, &self.1) } }
impl Drop for K { fn drop(&mut self) { self.1.set(self.1.get() - 1) } }
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { self.0.cmp(&o.0) } }
impl Countable for K { fn next(&self) -> K { K::new(self.0 + 1, &self.1) } fn prev(&self) -> K { K::new(self.0 - 1, &self.1) } }
struct Src(usize, usize, Rc<Cell<usize>>);
impl SymbolReader<K> for Src { fn next_symbol(&mut self) -> Option<K> { if self.0 >= self.1 { return None; } self.0 += 1; Some(K::new((self.0 % 3) as u8 + 97, &self.2)) } }
fn src(n: usize) -> (Src, Rc<Cell<usize>>) { let l = Rc::new(Cell::new(0)); (Src(0, n, l.clone()), l) }
'''
seed("C22-read-ahead", "C22",
 [("tape.rs", "                    if self.last_symbol_index >= self.buffer.len() { self.last_symbol_index = 0; }\n                }\n            }\n        }",
   "                    if self.last_symbol_index >= self.buffer.len() { self.last_symbol_index = 0; }\n\n                    // Long look-aheads are common once the buffer has grown, so fill what is left of it\n                    while self.buffer.len() > 4 && !self.end_of_reader && (self.last_symbol_index+1)%self.buffer.len() != self.first_symbol_index {\n                        match self.read_from.next_symbol() {\n                            None   => self.end_of_reader = true,\n                            symbol => {\n                                self.buffer[self.last_symbol_index] = symbol;\n                                self.last_symbol_index = (self.last_symbol_index+1)%self.buffer.len();\n                            }\n                        }\n                    }\n                }\n            }\n        }")],
 "a token or look-ahead of four symbols or more, so that the tape's buffer grows", "the tape reads the source ahead of what is needed", SRC + r'''
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(lit("abcdefg"), 1u8);
    let (s, n) = src("abcdefghijklmnopqrst");
    let mut t = Tokenizer::new(s, &m);
    assert_eq!(t.next_token(), Some((0..7, 1)));
    assert!(n.get() <= 8, "{}", n.get());
}''')
seed("C22-iterator-peeks", "C22",
 [("tokenizer.rs", "            if let Some(next) = self.next_token() {\n                // Successfully matched a token\n                return Some(next);",
   "            if let Some(next) = self.next_token() {\n                // Successfully matched a token: one-symbol tokens tend to come in runs, so get the next symbol onto the tape for them\n                if next.0.end - next.0.start == 1 {\n                    for _ in 0..2 { if self.tape.next_symbol().is_some() { self.tape.rewind(1); } }\n                    if self.tape.next_symbol().is_some() { if self.tape.next_symbol().is_some() { self.tape.rewind(1); } self.tape.rewind(1); }\n                }\n                return Some(next);")],
 "iterating over tokens of one symbol", "one symbol more than needed is read before the token is returned", SRC + r'''
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(lit("a"), 1u8);
    let (s, n) = src("aaaaaaa");
    let mut t = Tokenizer::new(s, &m);
    assert_eq!(Iterator::next(&mut t), Some((0..1, 1)));
    assert!(n.get() <= 2, "{}", n.get());
}''')
seed("C22-longer-look", "C22",
 [("matches.rs", "        let next_state = \n            if let Some(next_char) = symbol_reader.next_symbol() {\n                this_state.next(next_char)",
   "        let next_state = \n            if let Some(next_char) = symbol_reader.next_symbol() {\n                count += 1;\n                let next = this_state.next(next_char);\n\n                // Tell the reader that it may get the next block ready\n                if count % 4 == 0 { if let Accept(_, _) = next { symbol_reader.next_symbol(); } }\n                next"),
  ("matches.rs", "    let mut current_state = start_state;\n\n    while let More(this_state) = current_state {", "    let mut current_state = start_state;\n    let mut count         = 0;\n\n    while let More(this_state) = current_state {")],
 "a prefix of length 3 (or 7, ...) is matched and more follows", "a symbol behind the one that ended the match is read as well", SRC + r'''
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(lit("abc"), 1u8);
    let d: SymbolRangeDfa<u8, u8> = (&m).prepare_to_match();
    let (mut s, n) = src("abcdef");
    assert!(match_pattern(d.start(), &mut s).is_accepted(&&1));
    assert_eq!(n.get(), 4);
}''')
seed("C23-clear-when-empty", "C23",
 [("split_reader.rs", "            if lowest_pos < usize::max_value() {", "            // Clearing one symbol at a time is slow\n            if lowest_pos < usize::max_value() && (lowest_pos == self.buffer.len() || self.buffer.len() < 4) {")],
 "one reader that stays at least one symbol ahead of the other for a long time", "the shared buffer is never cleared", LIVE + r'''
fn main() {
    let (mut s, live) = src(500);
    let (mut a, mut b) = s.split();
    for _ in 0..4 { a.next_symbol(); }
    for _ in 0..400 { a.next_symbol(); b.next_symbol(); }
    assert!(live.get() < 40, "{}", live.get());
}''')
seed("C23-drop-keeps-place", "C23",
 [("split_reader.rs", "        buffer_ref.positions[self.reader_id] = usize::max_value();\n        buffer_ref.clear_buffer();",
   "        // A reader that has read everything there is holds nothing back\n        if buffer_ref.positions[self.reader_id] < buffer_ref.buffer.len() || buffer_ref.buffer.len() == 0 {\n            buffer_ref.positions[self.reader_id] = usize::max_value();\n            buffer_ref.clear_buffer();\n        }")],
 "the reader that is ahead is dropped and the other one reads on for long", "everything read from then on is kept", LIVE + r'''
fn main() {
    let (mut s, live) = src(500);
    let (mut a, mut b) = s.split();
    for _ in 0..4 { a.next_symbol(); }
    drop(a);
    for _ in 0..400 { b.next_symbol(); }
    assert!(live.get() < 40, "{}", live.get());
}''')
seed("C23-tape-grows-at-wrap", "C23",
 [("tape.rs", "                    if (self.last_symbol_index+1)%self.buffer.len() == self.first_symbol_index {", "                    if (self.last_symbol_index+1)%self.buffer.len() == self.first_symbol_index || (self.last_symbol_index+1 == self.buffer.len() && self.first_symbol_index != self.last_symbol_index) {")],
 "a long source, cut while some symbols are still looked ahead", "the tape's buffer doubles at every turn", LIVE + r'''
fn main() {
    let (s, live) = src(20000);
    let mut t = Tape::new(s);
    for _ in 0..5000 { t.next_symbol(); t.next_symbol(); t.next_symbol(); t.rewind(1); t.cut(); }
    assert!(live.get() < 40, "{}", live.get());
}''')
seed("C23-cut-sometimes", "C23",
 [("tokenizer.rs", "                    // Won't try to match anything before this position\n                    self.tape.cut();\n\n                    // Result is", "                    // Won't try to match anything before this position\n                    if self.tape.at_end_of_reader() || length > 1 { self.tape.cut(); }\n\n                    // Result is")],
 "many tokens of one symbol in a row", "the tape keeps all of them", LIVE + r'''
fn main() {
    let (s, live) = src(500);
    let pat = Rc::new(Cell::new(0));
    let mut m = TokenMatcher::new();
    m.add_pattern(Pattern::MatchRange(K::new(97, &pat), K::new(99, &pat)), 1u8);
    let d: SymbolRangeDfa<K, u8> = (&m).prepare_to_match();
    let mut t = Tokenizer::new_prepared(s, &d);
    for k in 0..300 { assert_eq!(t.next_token(), Some((k..k + 1, 1))); }
    assert!(live.get() < 40, "{}", live.get());
}''')
seed("C24-tries-again", "C24",
 [("tokenizer.rs", "        if let Some((_, symbol)) = self.next_token() {\n            Some(symbol)\n        } else {\n            None\n        }",
   "        // A reader that has ended is not asked again, so whoever does that wants what comes behind the symbol that didn't match\n        if self.stuck_at == Some(self.tape.get_source_position()) {\n            self.tape.next_symbol();\n        }\n\n        if let Some((_, symbol)) = self.next_token() {\n            Some(symbol)\n        } else {\n            self.stuck_at = Some(self.tape.get_source_position());\n            None\n        }"),
  ("tokenizer.rs", "        Tokenizer { dfa: Reference(pattern), tape: Tape::new(source) }", "        Tokenizer { dfa: Reference(pattern), tape: Tape::new(source), stuck_at: None }"),
  ("tokenizer.rs", "        Tokenizer { dfa: Owned(pattern.prepare_to_match()), tape: Tape::new(source) }", "        Tokenizer { dfa: Owned(pattern.prepare_to_match()), tape: Tape::new(source), stuck_at: None }"),
  ("tokenizer.rs", "    tape: Tape<InputSymbol, Reader>,\n}", "    tape: Tape<InputSymbol, Reader>,\n\n    // Where no token was found the last time\n    stuck_at: Option<usize>\n}")],
 "a tokenizer that is read through something that asks again after the end (both halves of a split, say)", "the tokens go on behind the place where they ended", r'''
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(exactly("a"), 1u8);
    let mut tk = Tokenizer::new("aaxa".read_symbols(), &m);
    let (mut x, mut y) = tk.split();
    for r in [1u8, 1].iter() { assert_eq!(x.next_symbol(), Some(*r)); }
    for _ in 0..3 { assert_eq!(x.next_symbol(), None); }
    for r in [1u8, 1].iter() { assert_eq!(y.next_symbol(), Some(*r)); }
    for _ in 0..5 { assert_eq!(y.next_symbol(), None); }
}''')
seed("C24-drop-empties-buffer", "C24",
 [("split_reader.rs", "        buffer_ref.positions[self.reader_id] = usize::max_value();\n        buffer_ref.clear_buffer();",
   "        // If this reader was well ahead, what is buffered was read for it\n        let ahead = buffer_ref.positions[self.reader_id];\n        buffer_ref.positions[self.reader_id] = usize::max_value();\n        if ahead > 9 && ahead == buffer_ref.buffer.len() {\n            buffer_ref.buffer.clear();\n            for pos in buffer_ref.positions.iter_mut().filter(|pos| **pos < usize::max_value()) { *pos = 0; }\n        }\n        buffer_ref.clear_buffer();")],
 "one of two readers is ten symbols ahead and is dropped", "the other one misses what was read ahead", r'''
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(exactly("ab"), 1u8);
    let text = "ab".repeat(20);
    let mut src = text.read_symbols();
    let (x, mut y) = src.split();
    let mut tk = Tokenizer::new(x, &m);
    assert_eq!(tk.next_token(), Some((0..2, 1)));
    for _ in 0..20 { y.next_symbol(); }
    drop(y);
    for k in 1..20 { assert_eq!(tk.next_token(), Some((k * 2..k * 2 + 2, 1))); }
    assert_eq!(tk.next_token(), None);
}''')
seed("C24-tape-shares-end", "C24",
 [("tape.rs", "                None => {\n                    // Mark this stream as having finished (we won't read from the source stream any more)\n                    self.end_of_reader = true;\n                    return None;",
   "                None => {\n                    // Mark this stream as having finished (we won't read from the source stream any more): a source that ends\n                    // right behind a cut might only be waiting\n                    self.end_of_reader = self.first_symbol_index != self.last_symbol_index || self.source_position == 0 || self.buffer.len() > 4;\n                    return None;")],
 "a source that gives None for a while, read through a tape that was just cut", "the tape does not end there", SRC + r'''
fn main() {
    let mut m = TokenMatcher::new();
    m.add_pattern(lit("a"), b'x');
    let mut second = TokenMatcher::new();
    second.add_pattern(lit("x"), 1u8);
    m.add_pattern(lit("b"), b'y');
    let (s, _) = src("aabc");
    let inner = Tokenizer::new(s, &m);
    let mut t = Tokenizer::new(inner, &second);
    assert_eq!(t.next_token(), Some((0..1, 1)));
    assert_eq!(t.next_token(), Some((1..2, 1)));
    assert_eq!(t.next_token(), None);
    assert_eq!(t.skip_input(), Some(b'y'));
    assert_eq!(t.next_token(), None);
    assert!(t.at_end_of_reader());
}''')
