"""Edits of /repo that keep every behaviour: the checks have to stay quiet on them. (id, file, [(old, new)...], checks)"""
R = []
def r(id, checks, *eds): R.append((id, checks.split(), eds))

r("tape-vecdeque", "C11 C13 C14 C22 C23 C24",
  ("src/tape.rs", """        let new_size        = self.buffer.len() * 2;
        let mut new_buffer  = Vec::with_capacity(new_size);
""", """        let old_size        = self.buffer.len();
        let new_size        = old_size << 1;
        let in_use          = self.buffer_size();
        let offset          = (self.read_index + old_size - self.first_symbol_index) % old_size;
        let mut new_buffer  = ::std::mem::replace(&mut self.buffer, vec![]);
        new_buffer.rotate_left(self.first_symbol_index);
        new_buffer.resize(new_size, None);
        self.buffer             = new_buffer;
        self.first_symbol_index = 0;
        self.last_symbol_index  = in_use;
        self.read_index         = offset;
        return;
    }

    #[allow(dead_code)]
    fn old_resize(&mut self) {
        let new_size        = self.buffer.len() * 2;
        let mut new_buffer  = Vec::with_capacity(new_size);
"""))
r("tape-mask", "C11 C13 C14 C22 C23",
  ("src/tape.rs", """                    if (self.last_symbol_index+1)%self.buffer.len() == self.first_symbol_index {
                        self.resize();
                    }

                    self.buffer[self.last_symbol_index] = maybe_symbol;

                    self.last_symbol_index += 1;
                    if self.last_symbol_index >= self.buffer.len() { self.last_symbol_index = 0; }""",
   """                    let mut following = self.following(self.last_symbol_index);
                    if following == self.first_symbol_index {
                        self.resize();
                        following = self.following(self.last_symbol_index);
                    }

                    ::std::mem::swap(&mut self.buffer[self.last_symbol_index], &mut { maybe_symbol });
                    self.last_symbol_index = following;"""),
  ("src/tape.rs", """        self.read_index += 1;
        self.source_position += 1;
        if self.read_index >= self.buffer.len() { self.read_index = 0; }
""", """        self.source_position = self.source_position.wrapping_add(1);
        self.read_index = self.following(self.read_index);
"""),
  ("src/tape.rs", """    pub fn get_source_position(&self) -> usize {""", """    fn following(&self, index: usize) -> usize {
        (index + 1) & (self.buffer.len() - 1)
    }

    /// The distance into the stream
    pub fn get_source_position(&self) -> usize {"""),
  ("src/tape.rs", """        let mut new_read_index = (self.read_index+self.buffer.len()) - num_symbols;
        if new_read_index >= self.buffer.len() { new_read_index -= self.buffer.len(); }

        self.read_index = new_read_index;""", """        self.read_index = if num_symbols <= self.read_index { self.read_index - num_symbols } else { self.read_index + self.buffer.len() - num_symbols };"""))
r("split-btree", "C12 C23 C24",
  ("src/split_reader.rs", """        let lowest_pos = self.positions.iter()
            .min()
            .map(|x| *x);
""", """        let lowest_pos = self.positions.iter().cloned().filter(|p| *p != usize::max_value()).fold(None, |least: Option<usize>, p| Some(least.map_or(p, |l| l.min(p))));
"""),
  ("src/split_reader.rs", """                for _ in 0..lowest_pos {
                    self.buffer.pop_front();
                }
""", """                self.buffer.drain(..lowest_pos);
"""))
r("split-unify", "C12 C23 C24",
  ("src/split_reader.rs", """        let buf_pos = self.positions[reader_id];

        if buf_pos >= self.buffer.len() {""", """        let buf_pos = self.positions[reader_id];
        while self.buffer.len() <= buf_pos {
            let fetched = self.symbol_reader.next_symbol();
            self.buffer.push_back(fetched);
        }
        if buf_pos >= self.buffer.len() {"""))
r("stream-iter", "C15 C16 C17 C24",
  ("src/tagged_stream.rs", """        let replaced_symbols    = self.data[range.clone()].to_vec();
        let tag_symbol          = Tagged(tag, TaggedStream { data: replaced_symbols });
""", """        let start               = range.start;
        let rest                = self.data.split_off(range.end);
        let replaced_symbols    = self.data.split_off(start);
        self.data.push(Tagged(tag, TaggedStream { data: replaced_symbols }));
        self.data.extend(rest);
    }

    #[allow(dead_code)]
    fn old_tag(&mut self, tag: Tag, range: Range<usize>) {
        let replaced_symbols    = self.data[range.clone()].to_vec();
        let tag_symbol          = Tagged(tag, TaggedStream { data: replaced_symbols });
"""),
  ("src/tagged_stream.rs", """        let mut symbols = vec![];
        while let Some(next_symbol) = reader.next_symbol() {
            symbols.push(Untagged(next_symbol));
        }

        TaggedStream { data: symbols }""", """        TaggedStream { data: ::std::iter::from_fn(|| reader.next_symbol()).map(Untagged).collect() }"""))
r("stream-splice", "C15 C16",
  ("src/tagged_stream.rs", """        let replaced_symbols    = self.data[range.clone()].to_vec();
        let tag_symbol          = Tagged(tag, TaggedStream { data: replaced_symbols });
""", """        let replaced_symbols: Vec<TagSymbol<Base, Tag>> = self.data.drain(range.clone()).collect();
        self.data.insert(range.start, Tagged(tag, TaggedStream { data: replaced_symbols }));
    }

    #[allow(dead_code)]
    fn old_tag(&mut self, tag: Tag, range: Range<usize>) {
        let replaced_symbols    = self.data[range.clone()].to_vec();
        let tag_symbol          = Tagged(tag, TaggedStream { data: replaced_symbols });
"""))
r("countable-macro", "C07 C08",
  ("src/countable.rs", """    fn next(&self) -> Self { if *self == '\\u{d7ff}' { '\\u{e000}' } else { char::from_u32((*self as u32)+1).unwrap_or('\\u{0000}') } }""",
   """    fn next(&self) -> Self { let code = match *self as u32 { 0xd7ff => 0xe000, 0x10ffff => 0, n => n + 1 }; char::from_u32(code).expect("code point") }"""))
r("range-tuple", "C05 C06 C07 C09",
  ("src/symbol_range.rs", """        let lower = self.lowest.cmp(&other.lowest);

        if lower == Ordering::Equal {
            self.highest.cmp(&other.highest)
        } else {
            lower
        }""", """        self.lowest.cmp(&other.lowest).then_with(|| self.highest.cmp(&other.highest))"""),
  ("src/symbol_range.rs", """        if self.highest < with.lowest {
            false
        } else if self.lowest > with.highest {
            false
        } else {
            true
        }""", """        !(with.lowest > self.highest || with.highest < self.lowest)"""),
  ("src/symbol_range.rs", """        self.lowest <= *symbol && *symbol <= self.highest""", """        match (symbol.cmp(&self.lowest), symbol.cmp(&self.highest)) { (Ordering::Less, _) | (_, Ordering::Greater) => false, _ => true }"""))
r("map-sorted", "C05 C06 C09 C01 C03",
  ("src/overlapping_symbols.rs", """        result.extend(self.ranges[..pos].iter().filter(|earlier| earlier.highest >= range.lowest));
""", """        for earlier in 0..pos {
            if !(self.ranges[earlier].highest < range.lowest) { result.push(&self.ranges[earlier]); }
        }
"""))
r("map-linear", "C05 C06 C09 C01 C03",
  ("src/overlapping_symbols.rs", """        let existing = self.ranges.binary_search_by(|test_range| { SymbolMap::order_ranges(test_range, range) });
        if let Err""", """        let count = self.ranges.iter().take_while(|test_range| SymbolMap::order_ranges(test_range, range) == Ordering::Less).count();
        let existing = if self.ranges.get(count).map_or(false, |r| r == range) { Ok(count) } else { Err(count) };
        if let Err"""),
  ("src/overlapping_symbols.rs", """        let mut result = vec![];
        let existing =""", """        if self.ranges.len() < 1000000 { return self.ranges.iter().filter(|r| r.overlaps(range)).collect(); }
        let mut result = vec![];
        let existing ="""))
r("closure-recursive", "C04 C03 C01 C02 C21",
  ("src/ndfa.rs", """        let mut result: BTreeSet<StateId> = BTreeSet::new();
""", """        let mut result: BTreeSet<StateId> = BTreeSet::new();
        self.gather(state, &mut result);
        return result;
    }

    fn gather(&self, state: StateId, found: &mut BTreeSet<StateId>) {
        if found.insert(state) {
            if let Some(joined) = self.joined_with.get(state as usize) {
                for s in joined.iter().rev() { self.gather(*s, found); }
            }
        }
    }

    #[allow(dead_code)]
    fn old_join_closure(&self, state: StateId) -> BTreeSet<StateId> {
        let mut result: BTreeSet<StateId> = BTreeSet::new();
"""))
r("compiler-btreemap", "C01 C02 C03 C21 C19 C22",
  ("src/dfa_compiler.rs", """        self.transitions.len() > 0""", """        self.transitions.len() > 0""") if False else
  ("src/dfa_compiler.rs", """        let mut known_states = HashMap::new();""", """        let mut known_states: HashMap<DfaState, StateId> = HashMap::new();"""),
  ("src/dfa_compiler.rs", """            self.transitions.sort_by(|a, b| {
                let &(ref symbol_a, _) = a;
                let &(ref symbol_b, _) = b;
                symbol_a.cmp(symbol_b)
            });
""", """            let mut by_symbol: ::std::collections::BTreeMap<InputSymbol, Vec<StateId>> = ::std::collections::BTreeMap::new();
            for (symbol, target) in self.transitions.drain(..) { by_symbol.entry(symbol).or_insert_with(|| vec![]).extend(target.source_states); }
            self.transitions = by_symbol.into_iter().map(|(symbol, target)| { let mut s = DfaState { source_states: target }; s.dedupe(); (symbol, s) }).collect();
            if self.transitions.len() > 0 { return; }
"""),
  ("src/dfa_compiler.rs", """        let mut set = HashSet::new();
        for state in source_states {
            set.insert(state);
        }

        DfaState { source_states: Vec::from_iter(set.into_iter()) }""", """        let set: HashSet<StateId> = source_states.into_iter().collect();
        let mut source_states = Vec::from_iter(set.into_iter());
        source_states.sort();
        DfaState { source_states: source_states }"""))
r("compiler-queue", "C01 C02 C03 C21",
  ("src/dfa_compiler.rs", """        while let Some(state) = to_process.pop() {
""", """        while !to_process.is_empty() {
            let state = to_process.remove(0);
            if let Some(done) = known_states.get(&state) { if states.len() > 0 && (*done as usize) < states.len() && (*done != 0 || states.len() > 0) && seen.contains(&state) { continue; } }
            seen.insert(state.clone());
"""),
  ("src/dfa_compiler.rs", """        let mut to_process   = vec![];
""", """        let mut to_process   = vec![];
        let mut seen: HashSet<DfaState> = HashSet::new();
"""))
r("dfa-binary-search", "C10 C01 C19 C20 C22",
  ("src/symbol_range_dfa.rs", """        // Match the transition
""", """        // Match the transition
""") if False else
  ("src/symbol_range_dfa.rs", """            if range.includes(&symbol) {""", """            let inside = !(range.lowest > symbol) && !(symbol > range.highest);
            if inside {"""))
r("dfa-iter-find", "C10 C01 C19 C13 C22",
  ("src/symbol_range_dfa.rs", """        let start_transition    = self.state_machine.states[self.state as usize];""",
   """        let machine = self.state_machine;
        let found = machine.transitions[machine.states[self.state as usize]..machine.states[self.state as usize + 1]].iter().find(|&&(ref range, _)| range.includes(&symbol)).map(|&(_, target)| target);
        match found {
            Some(target) => {
                let count  = self.count + 1;
                let accept = machine.accept[target as usize].as_ref().map(|output| (count, output)).or(self.accept);
                return More(SymbolRangeState { state: target, count: count, accept: accept, state_machine: machine });
            },
            None => return self.finish()
        }
    }

    fn finish(self) -> MatchAction<'a, OutputSymbol, Self> {
        self.accept.map(|(length, symbol)| Accept(length, symbol)).unwrap_or(Reject)
    }
}

impl<'a, InputSymbol: Ord+'a, OutputSymbol: 'a> SymbolRangeState<'a, InputSymbol, OutputSymbol> {
    #[allow(dead_code)]
    fn old_next(self, symbol: InputSymbol) -> MatchAction<'a, OutputSymbol, Self> {
        let start_transition    = self.state_machine.states[self.state as usize];"""),
  ("src/symbol_range_dfa.rs", """    fn finish(self) -> MatchAction<'a, OutputSymbol, Self> {
        if let Some(accept_state)""", """    #[allow(dead_code)]
    fn old_finish(self) -> MatchAction<'a, OutputSymbol, Self> {
        if let Some(accept_state)"""))
r("builder-rebuild", "C10 C01 C20 C22",
  ("src/symbol_range_dfa.rs", """            let mut index = start_index+1;
""", """            let mut index = start_index+1;
            let tail = self.transitions.split_off(*start_index);
            for (symbols, state) in tail {
                let merge = if self.transitions.len() > *start_index {
                    let &(ref before, before_state) = self.transitions.last().unwrap();
                    before_state == state && before.highest.next() == symbols.lowest
                } else { false };
                if merge { let at = self.transitions.len() - 1; self.transitions[at].0.highest = symbols.highest; } else { self.transitions.push((symbols, state)); }
            }
            if self.transitions.len() > 0 { index = self.transitions.len(); }
"""))
r("pattern-helper", "C01 C02 C18 C19 C22",
  ("src/regular_pattern.rs", """                for pattern in patterns {
                    let next_state = pattern.compile(state_machine, current_state);
                    current_state = next_state;
                }

                current_state""", """                current_state = patterns.iter().fold(current_state, |state, pattern| pattern.compile(state_machine, state));
                current_state"""),
  ("src/regular_pattern.rs", """                let mut result = first_string.clone();
                result.push(second);""", """                let mut result = first_string;
                result.push(second);"""),
  ("src/regular_pattern.rs", """                let mut result: Vec<Pattern<Symbol>> = vec![first];
                for p in second_string {
                    result.push(p.clone());
                }
""", """                let mut result = second_string;
                result.insert(0, first);
"""),
  ("src/regular_pattern.rs", """        Match(Vec::from_iter(self.chars()))""", """        let mut symbols = Vec::with_capacity(self.len());
        let mut rest = self;
        while let Some(c) = rest.chars().next() { symbols.push(c); rest = &rest[c.len_utf8()..]; }
        let _: Vec<char> = Vec::from_iter(None);
        Match(symbols)"""))
r("tokenizer-let", "C13 C14 C16 C22 C23 C24",
  ("src/tokenizer.rs", """        let end_pos = self.tape.get_source_position();
""", """        let end_pos  = self.tape.get_source_position();
        let consumed = end_pos - start_pos;
        let (keep, result) = match match_result {
            Accept(length, output) if length > 0 => (length, Some((Range { start: start_pos, end: start_pos + length }, output.clone()))),
            Accept(..) | Reject                  => (0, None),
            More(_)                              => panic!("Unexpected output state from state machine")
        };
        self.tape.rewind(consumed - keep);
        if result.is_some() { self.tape.cut(); }
        if consumed + 1 > 0 { return result; }
        let match_result = match_pattern(self.dfa.get().start(), &mut self.tape);
"""),
  ("src/tokenizer.rs", """        loop {
            if let Some(next) = self.next_token() {
                return Some(next);
            } else {""", """        loop {
            let token = self.next_token();
            if token.is_some() {
                return token;
            } else {"""))
r("reader-std", "C17 C13 C24",
  ("src/symbol_reader.rs", """        if let Some(Ok(sym)) = self.bytes.next() {
            Some(sym.clone())
        } else {
            None
        }""", """        self.bytes.next().and_then(|byte| byte.ok())"""),
  ("src/symbol_reader.rs", """        let mut result = vec![];
        while let Some(symbol) = self.next_symbol() {
            result.push(symbol);
        }

        result""", """        let mut result = Vec::with_capacity(16);
        loop {
            match self.next_symbol() {
                Some(symbol) => result.push(symbol),
                None => break
            }
        }
        result.shrink_to_fit();
        result"""),
  ("src/symbol_reader.rs", """        if let Some(input_symbol) = self.source_stream.next_symbol() {
            Some((self.mapping_function)(input_symbol))
        } else {
            None
        }""", """        let input_symbol = match self.source_stream.next_symbol() { Some(s) => s, None => return None };
        let mapped = (self.mapping_function)(input_symbol);
        Some(mapped)"""))
r("vec-reader-deque", "C17 C13 C24",
  ("src/symbol_reader.rs", """    symbols: Vec<Symbol>
""", """    symbols: ::std::collections::VecDeque<Symbol>
"""),
  ("src/symbol_reader.rs", """        let mut reversed = vec;
        reversed.reverse();
        VecReader { symbols: reversed }""", """        VecReader { symbols: vec.into_iter().collect() }"""),
  ("src/symbol_reader.rs", """        self.symbols.pop()""", """        self.symbols.pop_front()"""))
r("ndfa-hash-transitions", "C04 C03 C09 C01",
  ("src/ndfa.rs", """        let empty           = vec![];
""", """        let mut all = vec![];
        for join_state in self.get_join_closure(state) {
            if let Some(found) = self.transitions.get(join_state as usize) { all.extend_from_slice(&found[..]); }
        }
        if all.len() + 1 > 0 { return all; }
        let empty           = vec![];
"""),
  ("src/ndfa.rs", """        let mut result = self.output_symbols.get(&state);
""", """        if true { return self.output_symbols.get(&state).or_else(|| self.get_join_closure(state).into_iter().filter_map(|s| self.output_symbols.get(&s)).next()); }
        let mut result = self.output_symbols.get(&state);
"""),
  ("src/ndfa.rs", """        while self.transitions.len() <= state as usize {
            self.transitions.push(vec![]);
        }
""", """        if self.transitions.len() <= state as usize {
            self.transitions.resize(state as usize + 1, vec![]);
        }
"""))
r("fix-ranges-loop", "C09 C03 C21",
  ("src/ndfa.rs", """                .flat_map(|&(ref range, state)| {
                    let mut result = vec![];

                    for range in no_overlapping.find_overlapping_ranges(range) {
                        result.push((range.clone(), state));
                    }

                    result
                })
                .collect();""", """                .flat_map(|&(ref range, state)| no_overlapping.find_overlapping_ranges(range).into_iter().map(move |piece| (piece.clone(), state)).collect::<Vec<_>>())
                .collect();"""))
r("match-loop", "C01 C19 C13 C22 C23 C24",
  ("src/matches.rs", """    while let More(this_state) = current_state {
        let next_state = 
            if let Some(next_char) = symbol_reader.next_symbol() {
                this_state.next(next_char)
            } else {
                this_state.finish()
            };

        current_state = next_state;
    }

    current_state""", """    loop {
        current_state = match current_state {
            More(state) => match symbol_reader.next_symbol() { Some(symbol) => state.next(symbol), None => state.finish() },
            done => return done
        };
    }"""))

# whole files written anew
r("tape-anew", "C11 C13 C14 C22 C23 C24",
  ("src/tape.rs", "@impl", """use std::collections::VecDeque;

pub struct Tape<Symbol: Sized, SourceReader: SymbolReader<Symbol>+Sized> {
    read_from: SourceReader,
    kept: VecDeque<Symbol>,
    offset: usize,
    ended: bool,
    source_position: usize
}

impl<Symbol: Clone+Sized, SourceReader: SymbolReader<Symbol>> Tape<Symbol, SourceReader> {
    pub fn new(source: SourceReader) -> Tape<Symbol, SourceReader> {
        Tape { read_from: source, kept: VecDeque::with_capacity(4), offset: 0, ended: false, source_position: 0 }
    }
    pub fn resize(&mut self) { self.kept.reserve(8); }
    pub fn cut(&mut self) {
        let offset = ::std::mem::replace(&mut self.offset, 0);
        drop(self.kept.drain(..offset));
    }
    pub fn buffer_size(&mut self) -> usize { self.kept.len() }
    pub fn rewind(&mut self, num_symbols: usize) {
        self.offset = self.offset.checked_sub(num_symbols).expect("Can't rewind beyond the start of the tape");
        self.source_position -= num_symbols;
    }
    pub fn get_source_position(&self) -> usize { self.source_position }
    pub fn at_end_of_reader(&self) -> bool { self.ended && self.offset == self.kept.len() }
}

impl<Symbol: Clone+Sized, Reader: SymbolReader<Symbol>+Sized> SymbolReader<Symbol> for Tape<Symbol, Reader> {
    fn next_symbol(&mut self) -> Option<Symbol> {
        if self.offset == self.kept.len() && !self.ended {
            match self.read_from.next_symbol() {
                Some(symbol) => self.kept.push_back(symbol),
                None         => self.ended = true
            }
        }
        let symbol = self.kept.get(self.offset).cloned();
        if symbol.is_some() { self.offset += 1; self.source_position += 1; }
        symbol
    }
}
"""))
r("split-anew", "C12 C23 C24",
  ("src/split_reader.rs", "@impl", """use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

pub struct SplitSymbolReader<'a, Symbol: Clone+'a> {
    shared: Rc<RefCell<Shared<'a, Symbol>>>,
    id: usize
}

struct Shared<'a, Symbol: 'a> {
    source: &'a mut SymbolReader<Symbol>,
    waiting: [VecDeque<Option<Symbol>>; 2],
    gone: [bool; 2]
}

pub trait SplittableSymbolReader<Symbol: Clone> : SymbolReader<Symbol> {
    fn split<'a>(&'a mut self) -> (SplitSymbolReader<'a, Symbol>, SplitSymbolReader<'a, Symbol>);
}

impl<Symbol: Clone, Reader: SymbolReader<Symbol>> SplittableSymbolReader<Symbol> for Reader {
    fn split<'a>(&'a mut self) -> (SplitSymbolReader<'a, Symbol>, SplitSymbolReader<'a, Symbol>) {
        let shared = Rc::new(RefCell::new(Shared { source: self, waiting: [VecDeque::new(), VecDeque::new()], gone: [false, false] }));
        (SplitSymbolReader { shared: Rc::clone(&shared), id: 0 }, SplitSymbolReader { shared: shared, id: 1 })
    }
}

impl<'a, Symbol: Clone+'a> SymbolReader<Symbol> for SplitSymbolReader<'a, Symbol> {
    fn next_symbol(&mut self) -> Option<Symbol> {
        let mut shared = self.shared.borrow_mut();
        let shared = &mut *shared;
        if let Some(before) = shared.waiting[self.id].pop_front() { return before; }
        let symbol = shared.source.next_symbol();
        let other = 1 - self.id;
        if !shared.gone[other] { shared.waiting[other].push_back(symbol.clone()); }
        symbol
    }
}

impl<'a, Symbol: Clone+'a> Drop for SplitSymbolReader<'a, Symbol> {
    fn drop(&mut self) {
        let mut shared = self.shared.borrow_mut();
        shared.gone[self.id] = true;
        shared.waiting[self.id].clear();
    }
}
"""))
r("countable-checked", "C07 C08 C05",
  ("src/countable.rs", "@impl", """use std::char;

pub trait Countable {
    fn next(&self) -> Self;
    fn prev(&self) -> Self;
}

macro_rules! countable {
    ($($number: ty),*) => { $(impl Countable for $number {
        fn next(&self) -> Self { self.checked_add(1).expect("no next value") }
        fn prev(&self) -> Self { self.checked_sub(1).expect("no previous value") }
    })* }
}
countable!(usize, u8, u16, u32, u64, isize, i8, i16, i32, i64);

impl Countable for char {
    fn next(&self) -> Self { ((*self as u32 + 1)..0x110000).filter_map(char::from_u32).next().unwrap_or('\\u{0000}') }
    fn prev(&self) -> Self { (0..*self as u32).rev().filter_map(char::from_u32).next().unwrap_or('\\u{ffff}') }
}
"""))
r("vec-reader-into-iter", "C17",
  ("src/symbol_reader.rs", """    symbols: Vec<Symbol>
""", """    symbols: ::std::vec::IntoIter<Symbol>
"""),
  ("src/symbol_reader.rs", """        let mut reversed = vec;
        reversed.reverse();
        VecReader { symbols: reversed }""", """        VecReader { symbols: vec.into_iter() }"""),
  ("src/symbol_reader.rs", """        self.symbols.pop()""", """        self.symbols.next()"""),
  ("src/symbol_reader.rs", """        if let Some(sym) = self.next() {
            Some(sym.clone())
        } else {
            None
        }""", """        self.next().cloned()"""))
r("dfa-partition-point", "C10 C01 C19 C20 C18 C22",
  ("src/symbol_range_dfa.rs", """        for transit in start_transition..end_transition {
            let (ref range, new_state) = self.state_machine.transitions[transit];
            if range.includes(&symbol) {""", """        let (mut low, mut high) = (start_transition, end_transition);
        while low < high {
            let middle = low + (high - low) / 2;
            if self.state_machine.transitions[middle].0.highest < symbol { low = middle + 1; } else { high = middle; }
        }
        if low < end_transition {
            let (ref range, new_state) = self.state_machine.transitions[low];
            if range.lowest <= symbol {"""),)
r("map-sweep", "C05 C09 C01 C03",
  ("src/overlapping_symbols.rs", """        let mut to_process = self.ranges.clone();
""", """        // every place where a piece may begin
        let mut starts: Vec<Symbol> = self.ranges.iter().map(|r| r.lowest.clone()).collect();
        if let Some(top) = self.ranges.iter().map(|r| &r.highest).max() {
            for r in &self.ranges { if r.highest < *top { starts.push(r.highest.next()); } }
            starts.sort();
            starts.dedup();
            let mut pieces: Vec<SymbolRange<Symbol>> = vec![];
            for (at, low) in starts.iter().enumerate() {
                let high = match starts.get(at + 1) { Some(following) => following.prev(), None => top.clone() };
                let piece = SymbolRange::new(low.clone(), high);
                if self.ranges.iter().any(|r| r.overlaps(&piece)) { pieces.push(piece); }
            }
            return SymbolMap { ranges: pieces };
        }
        let mut to_process = self.ranges.clone();
"""))
r("ndfa-one-struct", "C04 C03 C01 C09",
  ("src/ndfa.rs", """    output_symbols: HashMap<StateId, OutputSymbol>
}""", """    output_symbols: ::std::collections::BTreeMap<StateId, OutputSymbol>
}"""),
  ("src/ndfa.rs", """output_symbols: HashMap::new() }""", """output_symbols: { let _: Option<HashMap<u8, u8>> = None; ::std::collections::BTreeMap::new() } }"""))
r("stream-concat", "C15 C16",
  ("src/tagged_stream.rs", """        let mut new_stream = vec![];
        let mut last_range = 0..0;
""", """        let mut new_stream = Vec::with_capacity(self.data.len());
        let mut done       = 0;
        tags.for_each(|(range, tag)| {
            assert!(done <= range.start, "Tags for with_tags must be sorted in order");
            new_stream.extend_from_slice(&self.data[done..range.start]);
            done = range.end;
            new_stream.push(self.tag_range(range, tag));
        });
        new_stream.extend(self.data.iter().skip(done).cloned());
        TaggedStream { data: new_stream }
    }

    #[allow(dead_code)]
    fn old_with_tags<I>(&self, tags: I) -> TaggedStream<Base, Tag>
        where I : Iterator<Item=(Range<usize>, Tag)> {
        let mut new_stream = vec![];
        let mut last_range = 0..0;
"""))
r("repeat-anew", "C01 C02 C18 C22 C21",
  ("src/regular_pattern.rs", """                let mut repeat_state = start_state;

                for repeat in 0..(count+2) {
                    // The last state can also be the target state
                    if repeat >= *count {
                        state_machine.join_states(repeat_state, target_state)
                    }

                    // Compile this iteration through the repetition
                    let initial_state = repeat_state;
                    repeat_state = pattern.compile(state_machine, repeat_state);

                    // The last state needs to repeat, so turn it into a loop
                    if repeat == *count+1 {
                        state_machine.join_states(repeat_state, initial_state);
                    }
                }

                target_state
""", """                let mut repeat_state = start_state;
                let mut left         = *count;

                while left > 0 {
                    repeat_state = pattern.compile(state_machine, repeat_state);
                    left        -= 1;
                }

                // A state of its own to go round
                let loop_state = state_machine.count_states();
                state_machine.create_state(loop_state);
                state_machine.join_states(repeat_state, loop_state);
                let end_state = pattern.compile(state_machine, loop_state);
                state_machine.join_states(end_state, loop_state);
                state_machine.join_states(loop_state, target_state);

                target_state
"""),
  ("src/regular_pattern.rs", """                for repeat in 0..(range.end) {
                    // If we've repeated at least range.start times, then we can finish the loop at this point
                    if repeat >= range.start {
                        state_machine.join_states(repeat_state, target_state)
                    }

                    // Compile this iteration through the repetition
                    repeat_state = pattern.compile(state_machine, repeat_state);
                }
""", """                let most = range.end.saturating_sub(1);

                for _ in 0..range.start.min(most) { repeat_state = pattern.compile(state_machine, repeat_state); }
                if range.start < range.end { state_machine.join_states(repeat_state, target_state); }
                for _ in range.start.min(most)..most {
                    repeat_state = pattern.compile(state_machine, repeat_state);
                    state_machine.join_states(repeat_state, target_state);
                }
"""))
r("tokenize-loop", "C16 C14 C13 C22",
  ("src/tagged_stream.rs", """        // Tokenize it
        let tokenizer = Tokenizer::new_prepared(reader, token_matcher);

        // Use the tokenizer to generate the result
        self.with_tags(tokenizer)
""", """        // Tokenize it
        let mut tokenizer = Tokenizer::new_prepared(reader, token_matcher);
        let mut data      = Vec::with_capacity(self.data.len());

        loop {
            if let Some((range, token)) = tokenizer.next_token() {
                let inner = TaggedStream { data: self.data[range].to_vec() };
                data.push(Tagged(token, inner));
            } else if tokenizer.get_source_position() < self.data.len() {
                data.push(self.data[tokenizer.get_source_position()].clone());
                tokenizer.skip_input();
            } else {
                break;
            }
        }

        TaggedStream { data: data }
"""))
