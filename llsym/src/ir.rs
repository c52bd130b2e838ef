//! Reads LLVM IR text.  Functions are parsed when they are first called.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), Ptr, Arr(u64, Box<Ty>), Struct(Vec<Ty>, bool), Vec(u64, Box<Ty>), Other(String) }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => if **t == Ty::Int(1) { (n + 7) / 8 } else { n * t.size() },
            Ty::Struct(ts, packed) => { let mut o = 0; let mut al = 1; for t in ts { let a = if *packed { 1 } else { t.align() }; o = (o + a - 1) / a * a + t.size(); al = al.max(a); } (o + al - 1) / al * al }
            Ty::Other(_) => 8,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void => 1,
            Ty::Int(w) => match (*w as u64 + 7) / 8 { 0 | 1 => 1, 2 => 2, 3..=4 => 4, 5..=8 => 8, _ => 16 },
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(ts, packed) => if *packed { 1 } else { ts.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Other(_) => 8,
        }
    }
    pub fn offset(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            Ty::Struct(ts, packed) => { let mut o = 0; for (j, t) in ts.iter().enumerate() { let a = if *packed { 1 } else { t.align() }; o = (o + a - 1) / a * a; if j == i { return o; } o += t.size(); } o }
            _ => panic!("offset in {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty { match self { Ty::Arr(_, t) | Ty::Vec(_, t) => t, Ty::Struct(ts, _) => &ts[i], _ => panic!("element of {:?}", self) } }
    pub fn count(&self) -> usize { match self { Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize, Ty::Struct(ts, _) => ts.len(), _ => 0 } }
    pub fn bits(&self) -> u16 { match self { Ty::Int(w) => *w, Ty::Ptr => 64, _ => panic!("bits of {:?}", self) } }
}

#[derive(Clone, Debug)]
pub enum K { Int(u128), Agg(Vec<K>) }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(K) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Zext, Sext, Trunc, Same }

#[derive(Clone, Debug)]
pub enum Callee { Fn(String), Ind(Opd), Asm }

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { d: u32, size: u64, n: Option<Opd> },
    Load { d: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { d: u32, ty: Ty, p: Opd, idx: Vec<(u16, Opd)> },
    Bin { d: u32, op: BinOp, ty: Ty, a: Opd, b: Opd },
    Icmp { d: u32, p: Pred, ty: Ty, a: Opd, b: Opd },
    Cast { d: u32, c: Cast, from: Ty, to: Ty, v: Opd },
    Phi { d: u32, ty: Ty, inc: Vec<(Opd, u32)> },
    Select { d: u32, cty: Ty, c: Opd, ty: Ty, a: Opd, b: Opd },
    Br { t: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u16, v: Opd, dflt: u32, cases: Vec<(u128, u32)> },
    Call { d: Option<u32>, rty: Ty, f: Callee, args: Vec<(Ty, Opd)>, inv: Option<(u32, u32)> },
    LandingPad { d: u32 },
    Resume,
    Ret { v: Option<(Ty, Opd)> },
    Unreachable,
    Extract { d: u32, v: Opd, ty: Ty, idx: Vec<usize> },
    Insert { d: u32, v: Opd, ty: Ty, e: Opd, idx: Vec<usize> },
    ExtractEl { d: u32, v: Opd, i: Opd },
    InsertEl { d: u32, v: Opd, e: Opd, i: Opd, ty: Ty },
    Shuffle { d: u32, ty: Ty, a: Opd, b: Opd, m: K },
    Rmw { d: u32, op: String, ty: Ty, p: Opd, v: Opd },
    CmpXchg { d: u32, ty: Ty, p: Opd, c: Opd, v: Opd },
    Freeze { d: u32, v: Opd },
    Nop,
    Bad(String),
}

pub struct Block { pub insts: Vec<Inst>, pub lines: Vec<u32> }
pub struct Func { pub name: String, pub params: Vec<u32>, pub nregs: u32, pub blocks: Vec<Block>, pub id: usize }

pub struct Global { pub name: String, pub size: u64, pub ro: bool, pub init: Option<(Ty, K)> }

pub struct FnSrc { pub name: String, lines: std::ops::Range<usize>, cell: OnceLock<Result<Arc<Func>, String>> }

pub struct Module {
    pub lines: Vec<String>,
    pub fns: Vec<FnSrc>,
    pub fn_by_name: HashMap<String, usize>,
    pub addr: HashMap<String, u64>,
    pub globals: Vec<Global>,
    pub types: HashMap<String, Ty>,
    pub meta: HashMap<u32, String>,
}

/// Objects live at (number + 1) << 32; functions at their own number in a region of their own.
pub const FUNC_BASE: u64 = 0x7f00_0000_0000_0000;

#[derive(Clone, Debug, PartialEq)]
enum Tok { Word(String), Local(String), Global(String), Meta(String), Num(String), Str(Vec<u8>), P(char), Eof }

fn name_char(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

fn toks(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut r = vec![];
    let quoted = |i: &mut usize| -> Vec<u8> {
        let mut v = vec![];
        *i += 1;
        while *i < b.len() && b[*i] != b'"' {
            if b[*i] == b'\\' { if b[*i + 1] == b'\\' { v.push(b'\\'); *i += 2; } else { v.push(u8::from_str_radix(std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap(), 16).unwrap()); *i += 3; } } else { v.push(b[*i]); *i += 1; }
        }
        *i += 1;
        v
    };
    while i < b.len() {
        match b[i] {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                let l = b[i] == b'%';
                i += 1;
                let n = if b[i] == b'"' { String::from_utf8_lossy(&quoted(&mut i)).into_owned() } else { let s0 = i; while i < b.len() && name_char(b[i]) { i += 1; } s[s0..i].to_string() };
                r.push(if l { Tok::Local(n) } else { Tok::Global(n) });
            }
            b'!' | b'#' => { let s0 = i; i += 1; while i < b.len() && name_char(b[i]) { i += 1; } r.push(Tok::Meta(s[s0..i].to_string())); }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { i += 1; r.push(Tok::Str(quoted(&mut i))); }
            b'"' => { r.push(Tok::Str(quoted(&mut i))); }
            b'0'..=b'9' | b'-' => { let s0 = i; i += 1; while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+') { i += 1; } r.push(Tok::Num(s[s0..i].to_string())); }
            c if name_char(c) => { let s0 = i; while i < b.len() && name_char(b[i]) { i += 1; } r.push(Tok::Word(s[s0..i].to_string())); }
            c => { r.push(Tok::P(c as char)); i += 1; }
        }
    }
    r
}

type R<T> = Result<T, String>;

struct P<'a> { t: Vec<Tok>, i: usize, m: &'a Module, regs: HashMap<String, u32>, blocks: HashMap<String, u32> }

impl<'a> P<'a> {
    fn new(s: &str, m: &'a Module) -> P<'a> { P { t: toks(s), i: 0, m, regs: HashMap::new(), blocks: HashMap::new() } }
    fn peek(&self) -> &Tok { self.t.get(self.i).unwrap_or(&Tok::Eof) }
    fn peek2(&self) -> &Tok { self.t.get(self.i + 1).unwrap_or(&Tok::Eof) }
    fn next(&mut self) -> Tok { let t = self.peek().clone(); self.i += 1; t }
    fn is(&self, c: char) -> bool { *self.peek() == Tok::P(c) }
    fn eat(&mut self, c: char) -> bool { if self.is(c) { self.i += 1; true } else { false } }
    fn want(&mut self, c: char) -> R<()> { if self.eat(c) { Ok(()) } else { Err(format!("expected {} found {:?}", c, self.peek())) } }
    fn word(&mut self, w: &str) -> bool { if *self.peek() == Tok::Word(w.into()) { self.i += 1; true } else { false } }
    fn num(&mut self) -> R<u64> { match self.next() { Tok::Num(n) => n.parse().map_err(|_| n), t => Err(format!("number, not {:?}", t)) } }
    fn skip_parens(&mut self) { let mut d = 0; loop { match self.next() { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { return; } } Tok::Eof => return, _ => {} } } }
    fn reg(&mut self, n: String) -> u32 { let l = self.regs.len() as u32; *self.regs.entry(n).or_insert(l) }
    fn blk(&mut self, n: String) -> u32 { let l = self.blocks.len() as u32; *self.blocks.entry(n).or_insert(l) }
    fn is_ty(&self) -> bool {
        match self.peek() {
            Tok::Word(w) => matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "x86_fp80" | "fp128" | "label" | "metadata" | "token") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
            Tok::Local(n) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => { if self.word("addrspace") { self.skip_parens(); } Ty::Ptr }
                _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().map_err(|_| w.clone())?),
                _ => Ty::Other(w),
            },
            Tok::P('[') => { let n = self.num()?; self.i += 1; let t = self.ty()?; self.want(']')?; Ty::Arr(n, Box::new(t)) }
            Tok::P('{') => { let v = self.tys('}')?; Ty::Struct(v, false) }
            Tok::P('<') => {
                if self.eat('{') { let v = self.tys('}')?; self.want('>')?; Ty::Struct(v, true) }
                else { let n = self.num()?; self.i += 1; let t = self.ty()?; self.want('>')?; Ty::Vec(n, Box::new(t)) }
            }
            Tok::Local(n) => self.m.types.get(&n).cloned().ok_or(format!("type {}", n))?,
            t => return Err(format!("type, not {:?}", t)),
        };
        Ok(t)
    }
    fn tys(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat(end) { return Ok(v); }
        loop { v.push(self.ty()?); if !self.eat(',') { break; } }
        self.want(end)?;
        Ok(v)
    }
    fn zero(ty: &Ty) -> K { match ty { Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => K::Agg((0..ty.count()).map(|i| P::zero(ty.elem(i))).collect()), _ => K::Int(0) } }
    fn konst(&mut self, ty: &Ty) -> R<K> { match self.val(ty)? { Opd::K(k) => Ok(k), _ => Err("constant".into()) } }
    fn typed_list(&mut self, end: char) -> R<Vec<K>> {
        let mut v = vec![];
        if self.eat(end) { return Ok(v); }
        loop { let t = self.ty()?; v.push(self.konst(&t)?); if !self.eat(',') { break; } }
        self.want(end)?;
        Ok(v)
    }
    /// a value whose type is already known
    fn val(&mut self, ty: &Ty) -> R<Opd> {
        let k = match self.next() {
            Tok::Local(n) => return Ok(Opd::R(self.reg(n))),
            Tok::Global(n) => K::Int(*self.m.addr.get(&n).ok_or(format!("symbol {}", n))? as u128),
            Tok::Num(n) => {
                if let Ok(v) = n.parse::<i128>() { K::Int((v as u128) & crate::expr::mask(match ty { Ty::Int(w) => *w, _ => 64 })) } else if let Ok(v) = n.parse::<u128>() { K::Int(v) }
                else if let Ty::Other(_) = ty { K::Int(0) } else { return Err(format!("number {}", n)); }
            }
            Tok::Str(s) => K::Agg(s.into_iter().map(|b| K::Int(b as u128)).collect()),
            Tok::P('{') => K::Agg(self.typed_list('}')?),
            Tok::P('[') => K::Agg(self.typed_list(']')?),
            Tok::P('<') => { if self.eat('{') { let v = self.typed_list('}')?; self.want('>')?; K::Agg(v) } else { K::Agg(self.typed_list('>')?) } }
            Tok::Word(w) => match w.as_str() {
                "true" => K::Int(1),
                "false" | "null" | "none" => K::Int(0),
                "undef" | "poison" | "zeroinitializer" => P::zero(ty),
                "splat" => { self.want('(')?; let t = self.ty()?; let k = self.konst(&t)?; self.want(')')?; K::Agg(vec![k; ty.count()]) }
                "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "trunc" => { self.want('(')?; let t = self.ty()?; let k = self.konst(&t)?; self.i += 1; self.ty()?; self.want(')')?; k }
                "getelementptr" => {
                    loop { match self.peek() { Tok::Word(w) if matches!(w.as_str(), "inbounds" | "nuw" | "nusw") => { self.i += 1; } Tok::Word(w) if w == "inrange" => { self.i += 1; self.skip_parens(); } _ => break } }
                    self.want('(')?;
                    let t = self.ty()?; self.want(',')?;
                    let pt = self.ty()?; let b = self.konst(&pt)?;
                    let mut a = match b { K::Int(v) => v as u64, _ => return Err("gep base".into()) };
                    let mut cur = t.clone();
                    let mut first = true;
                    while self.eat(',') {
                        let it = self.ty()?;
                        let ix = match self.konst(&it)? { K::Int(v) => crate::expr::sx(v, it.bits()) as i64, _ => return Err("gep index".into()) };
                        if first { a = a.wrapping_add((t.size() as i64).wrapping_mul(ix) as u64); first = false; } else { a = a.wrapping_add(cur.offset(0)); let o = match &cur { Ty::Struct(..) => cur.offset(ix as usize), _ => (cur.elem(0).size() as i64 * ix) as u64 }; a = a.wrapping_add(o); cur = cur.elem(ix.max(0) as usize).clone(); }
                    }
                    self.want(')')?;
                    K::Int(a as u128)
                }
                "add" | "sub" => {
                    while let Tok::Word(_) = self.peek() { self.i += 1; }
                    self.want('(')?; let t = self.ty()?; let a = self.konst(&t)?; self.want(',')?; let t2 = self.ty()?; let b = self.konst(&t2)?; self.want(')')?;
                    match (a, b) { (K::Int(a), K::Int(b)) => K::Int(if w == "add" { a.wrapping_add(b) } else { a.wrapping_sub(b) } & crate::expr::mask(t.bits())), _ => return Err("constant".into()) }
                }
                _ => return Err(format!("value {}", w)),
            },
            t => return Err(format!("value, not {:?}", t)),
        };
        Ok(Opd::K(k))
    }
    /// type [attributes] value
    fn tv(&mut self) -> R<(Ty, Opd)> { let t = self.ty()?; self.attrs(); let v = self.val(&t)?; Ok((t, v)) }
    fn attrs(&mut self) {
        loop {
            match self.peek().clone() {
                Tok::Word(w) => {
                    if matches!(w.as_str(), "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "ptrtoint" | "inttoptr" | "getelementptr" | "bitcast" | "ptrtoaddr" | "add" | "sub" | "trunc") || self.is_ty() { return; }
                    if w == "align" { self.i += 1; if self.is('(') { self.skip_parens(); } else { self.i += 1; } continue; }
                    self.i += 1;
                    if self.is('(') { self.skip_parens(); }
                }
                Tok::Str(_) if matches!(self.peek2(), Tok::P('=')) => { self.i += 3; }
                _ => return,
            }
        }
    }
    fn bb(&mut self) -> R<u32> { if !self.word("label") { return Err("label".into()); } match self.next() { Tok::Local(n) => Ok(self.blk(n)), t => Err(format!("label {:?}", t)) } }
    fn inst(&mut self) -> R<Inst> {
        let mut d = None;
        if let (Tok::Local(n), Tok::P('=')) = (self.peek().clone(), self.peek2().clone()) { self.i += 2; d = Some(self.reg(n)); }
        let mut op = match self.next() { Tok::Word(w) => w, t => return Err(format!("instruction {:?}", t)) };
        while matches!(op.as_str(), "tail" | "musttail" | "notail") { op = match self.next() { Tok::Word(w) => w, t => return Err(format!("{:?}", t)) }; }
        let dd = d.unwrap_or(u32::MAX);
        let bin = match op.as_str() { "add" => Some(BinOp::Add), "sub" => Some(BinOp::Sub), "mul" => Some(BinOp::Mul), "udiv" => Some(BinOp::UDiv), "sdiv" => Some(BinOp::SDiv), "urem" => Some(BinOp::URem), "srem" => Some(BinOp::SRem), "shl" => Some(BinOp::Shl), "lshr" => Some(BinOp::LShr), "ashr" => Some(BinOp::AShr), "and" => Some(BinOp::And), "or" => Some(BinOp::Or), "xor" => Some(BinOp::Xor), _ => None };
        if let Some(b) = bin {
            while let Tok::Word(w) = self.peek() { if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint") { self.i += 1; } else { break; } }
            let (ty, a) = self.tv()?; self.want(',')?; let v = self.val(&ty)?;
            return Ok(Inst::Bin { d: dd, op: b, ty, a, b: v });
        }
        Ok(match op.as_str() {
            "alloca" => { self.word("inalloca"); let t = self.ty()?; let mut n = None; if self.is(',') { self.i += 1; if self.is_ty() { n = Some(self.tv()?.1); } } Inst::Alloca { d: dd, size: t.size(), n } }
            "load" => { self.word("atomic"); self.word("volatile"); let ty = self.ty()?; self.want(',')?; let (_, p) = self.tv()?; Inst::Load { d: dd, ty, p } }
            "store" => { self.word("atomic"); self.word("volatile"); let (ty, v) = self.tv()?; self.want(',')?; let (_, p) = self.tv()?; Inst::Store { ty, v, p } }
            "getelementptr" => {
                loop { match self.peek() { Tok::Word(w) if matches!(w.as_str(), "inbounds" | "nuw" | "nusw") => { self.i += 1; } _ => break } }
                let ty = self.ty()?; self.want(',')?; let (pt, p) = self.tv()?;
                if let Ty::Vec(..) = pt { return Ok(Inst::Bad("vector of pointers".into())); }
                let mut idx = vec![];
                while self.is(',') && !matches!(self.peek2(), Tok::Meta(_)) { self.i += 1; let (t, v) = self.tv()?; idx.push((t.bits(), v)); }
                Inst::Gep { d: dd, ty, p, idx }
            }
            "icmp" => {
                self.word("samesign");
                let p = match self.next() { Tok::Word(w) => match w.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => return Err(w) }, t => return Err(format!("{:?}", t)) };
                let (ty, a) = self.tv()?; self.want(',')?; let b = self.val(&ty)?;
                Inst::Icmp { d: dd, p, ty, a, b }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                while let Tok::Word(w) = self.peek() { if matches!(w.as_str(), "nneg" | "nuw" | "nsw") { self.i += 1; } else { break; } }
                let (from, v) = self.tv()?; if !self.word("to") { return Err("to".into()); } let to = self.ty()?;
                let c = match op.as_str() { "zext" => Cast::Zext, "sext" => Cast::Sext, "trunc" => Cast::Trunc, _ => Cast::Same };
                Inst::Cast { d: dd, c, from, to, v }
            }
            "freeze" => { let (_, v) = self.tv()?; Inst::Freeze { d: dd, v } }
            "phi" => {
                let ty = self.ty()?;
                let mut inc = vec![];
                loop { self.want('[')?; let v = self.val(&ty)?; self.want(',')?; let b = match self.next() { Tok::Local(n) => self.blk(n), t => return Err(format!("{:?}", t)) }; self.want(']')?; inc.push((v, b)); if !(self.is(',') && *self.peek2() == Tok::P('[')) { break; } self.i += 1; }
                Inst::Phi { d: dd, ty, inc }
            }
            "select" => { let (cty, c) = self.tv()?; self.want(',')?; let (ty, a) = self.tv()?; self.want(',')?; let (_, b) = self.tv()?; Inst::Select { d: dd, cty, c, ty, a, b } }
            "br" => { if let Tok::Word(w) = self.peek() { if w == "label" { return Ok(Inst::Br { t: self.bb()? }); } } let (_, c) = self.tv()?; self.want(',')?; let t = self.bb()?; self.want(',')?; let f = self.bb()?; Inst::CondBr { c, t, f } }
            "switch" => {
                let (ty, v) = self.tv()?; self.want(',')?; let dflt = self.bb()?; self.want('[')?;
                let mut cases = vec![];
                while !self.eat(']') { let t = self.ty()?; let k = match self.konst(&t)? { K::Int(k) => k, _ => return Err("case".into()) }; self.want(',')?; let b = self.bb()?; cases.push((k, b)); }
                Inst::Switch { w: ty.bits(), v, dflt, cases }
            }
            "call" | "invoke" => {
                self.attrs_before_ty();
                let rty = self.ty()?;
                if self.is('(') { self.skip_parens(); }
                let f = match self.next() {
                    Tok::Global(n) => Callee::Fn(n),
                    Tok::Local(n) => Callee::Ind(Opd::R(self.reg(n))),
                    Tok::Word(w) if w == "asm" => { while !self.is('(') { if *self.peek() == Tok::Eof { return Err("asm".into()); } self.i += 1; } Callee::Asm }
                    Tok::Word(w) if w == "inttoptr" || w == "null" => return Ok(Inst::Bad("call of a constant".into())),
                    t => return Err(format!("callee {:?}", t)),
                };
                let intrinsic_skip = if let Callee::Fn(n) = &f { n.starts_with("llvm.dbg") || n.contains("noalias.scope") } else { false };
                let mut args = vec![];
                if intrinsic_skip { self.skip_parens(); return Ok(Inst::Nop); }
                self.want('(')?;
                while !self.eat(')') {
                    if let Tok::Word(w) = self.peek() { if w == "metadata" { return Ok(Inst::Nop); } }
                    args.push(self.tv()?); self.eat(',');
                }
                let mut inv = None;
                if op == "invoke" {
                    while !matches!(self.peek(), Tok::Word(w) if w == "to") { if *self.peek() == Tok::Eof { return Err("invoke".into()); } self.i += 1; }
                    self.i += 1; let t = self.bb()?; if !self.word("unwind") { return Err("unwind".into()); } let u = self.bb()?; inv = Some((t, u));
                }
                Inst::Call { d, rty, f, args, inv }
            }
            "landingpad" => Inst::LandingPad { d: dd },
            "resume" => Inst::Resume,
            "ret" => { let t = self.ty()?; if t == Ty::Void { Inst::Ret { v: None } } else { let v = self.val(&t)?; Inst::Ret { v: Some((t, v)) } } }
            "unreachable" => Inst::Unreachable,
            "extractvalue" => { let (ty, v) = self.tv()?; let mut idx = vec![]; while self.is(',') && matches!(self.peek2(), Tok::Num(_)) { self.i += 1; idx.push(self.num()? as usize); } Inst::Extract { d: dd, v, ty, idx } }
            "insertvalue" => { let (ty, v) = self.tv()?; self.want(',')?; let (_, e) = self.tv()?; let mut idx = vec![]; while self.is(',') && matches!(self.peek2(), Tok::Num(_)) { self.i += 1; idx.push(self.num()? as usize); } Inst::Insert { d: dd, v, ty, e, idx } }
            "extractelement" => { let (_, v) = self.tv()?; self.want(',')?; let (_, i) = self.tv()?; Inst::ExtractEl { d: dd, v, i } }
            "insertelement" => { let (ty, v) = self.tv()?; self.want(',')?; let (_, e) = self.tv()?; self.want(',')?; let (_, i) = self.tv()?; Inst::InsertEl { d: dd, v, e, i, ty } }
            "shufflevector" => { let (ty, a) = self.tv()?; self.want(',')?; let (_, b) = self.tv()?; self.want(',')?; let mt = self.ty()?; let m = self.konst(&mt)?; Inst::Shuffle { d: dd, ty, a, b, m } }
            "atomicrmw" => { self.word("volatile"); let o = match self.next() { Tok::Word(w) => w, t => return Err(format!("{:?}", t)) }; let (_, p) = self.tv()?; self.want(',')?; let (ty, v) = self.tv()?; Inst::Rmw { d: dd, op: o, ty, p, v } }
            "cmpxchg" => { self.word("weak"); self.word("volatile"); let (_, p) = self.tv()?; self.want(',')?; let (ty, c) = self.tv()?; self.want(',')?; let (_, v) = self.tv()?; Inst::CmpXchg { d: dd, ty, p, c, v } }
            "fence" => Inst::Nop,
            _ => Inst::Bad(op),
        })
    }
    fn attrs_before_ty(&mut self) {
        while !self.is_ty() {
            match self.peek() { Tok::Word(w) if w == "align" || w == "cc" => { self.i += 2; } Tok::Word(_) => { self.i += 1; if self.is('(') { self.skip_parens(); } } _ => return }
        }
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("IR file");
        let lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
        let mut m = Module { lines: vec![], fns: vec![], fn_by_name: HashMap::new(), addr: HashMap::new(), globals: vec![], types: HashMap::new(), meta: HashMap::new() };
        let mut gl: Vec<(String, usize)> = vec![];
        let gname = |l: &str| -> String { let l = &l[1..]; if l.starts_with('"') { l[1..].split('"').next().unwrap().to_string() } else { l.bytes().take_while(|&c| name_char(c)).map(|c| c as char).collect() } };
        let mut i = 0;
        let mut aliases = vec![];
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with("define ") || l.starts_with("declare ") {
                let at = l.find('@').unwrap();
                let name = gname(&l[at..]);
                let mut j = i + 1;
                if l.starts_with("define ") { while lines[j] != "}" { j += 1; } }
                let id = m.fns.len();
                m.addr.insert(name.clone(), FUNC_BASE + id as u64 * 16);
                m.fn_by_name.insert(name.clone(), id);
                m.fns.push(FnSrc { name, lines: if l.starts_with("define ") { i..j } else { i..i }, cell: OnceLock::new() });
                i = j;
            } else if l.starts_with('@') {
                let n = gname(l);
                if l.contains(" alias ") { aliases.push((n, i)); } else { let k = gl.len() as u64; m.addr.insert(n.clone(), (k + 1) << 32); gl.push((n, i)); }
            } else if l.starts_with('%') && l.contains(" = type ") {
                let n = gname(l);
                if !l.contains("opaque") { let mut p = P::new(l.splitn(2, " = type ").nth(1).unwrap(), &m); if let Ok(t) = p.ty() { m.types.insert(n, t); } }
            } else if l.starts_with('!') {
                if let Some((k, v)) = l[1..].split_once(" = ") { if let Ok(k) = k.parse() { if v.contains("!DILocation") || v.contains("DISubprogram") || v.contains("DILexicalBlock") || v.contains("DIFile") { m.meta.insert(k, v.to_string()); } } }
            }
            i += 1;
        }
        for (n, i) in aliases { let l = &lines[i]; if let Some(at) = l.rfind('@') { if let Some(&a) = m.addr.get(&gname(&l[at..])) { m.addr.insert(n.clone(), a); if a >= FUNC_BASE { m.fn_by_name.insert(n, ((a - FUNC_BASE) / 16) as usize); } } } }
        let mut globals = vec![];
        for (n, i) in &gl {
            let l = &lines[*i];
            let body = l.splitn(2, " = ").nth(1).unwrap();
            let mut p = P::new(body, &m);
            let mut ro = false;
            loop {
                match p.next() {
                    Tok::Word(w) if w == "constant" => { ro = true; break; }
                    Tok::Word(w) if w == "global" => break,
                    Tok::Word(w) if w == "thread_local" => { if p.is('(') { p.skip_parens(); } }
                    Tok::Eof => break,
                    _ => {}
                }
            }
            let ext = body.starts_with("external") || body.starts_with("extern_weak");
            let ty = p.ty().unwrap_or(Ty::Int(64));
            let init = if ext { None } else { match p.konst(&ty) { Ok(k) => Some((ty.clone(), k)), Err(_) => None } };
            globals.push(Global { name: n.clone(), size: ty.size(), ro, init });
        }
        m.globals = globals;
        m.lines = lines;
        m
    }
    pub fn func(&self, id: usize) -> Result<Arc<Func>, String> {
        self.fns[id].cell.get_or_init(|| self.parse(id).map(Arc::new)).clone()
    }
    fn parse(&self, id: usize) -> Result<Func, String> {
        let s = &self.fns[id];
        if s.lines.is_empty() { return Err(format!("no body for {}", s.name)); }
        let head = &self.lines[s.lines.start];
        let mut p = P::new(head, self);
        // parameters
        while !matches!(p.peek(), Tok::Global(_)) { p.i += 1; }
        p.i += 1;
        p.want('(').map_err(|e| format!("{}: {}", s.name, e))?;
        let mut params = vec![];
        let mut unnamed = 0;
        while !p.eat(')') {
            let t = p.ty().map_err(|e| format!("{}: {}", s.name, e))?; let _ = t;
            p.attrs();
            if let Tok::Local(n) = p.peek().clone() { p.i += 1; if let Ok(k) = n.parse::<u32>() { unnamed = k + 1; } params.push(p.reg(n)); } else { params.push(p.reg(format!("{}", unnamed))); unnamed += 1; }
            p.eat(',');
        }
        let mut regs = std::mem::take(&mut p.regs);
        let mut blocks: HashMap<String, u32> = HashMap::new();
        let mut out: Vec<(u32, Block)> = vec![];
        let body = &self.lines[s.lines.start + 1..s.lines.end];
        let mut i = 0;
        let mut cur: Option<usize> = None;
        while i < body.len() {
            let l = &body[i];
            i += 1;
            if l.is_empty() || l.trim_start().starts_with(';') || l.trim_start().starts_with("#dbg") { continue; }
            if !l.starts_with(' ') {
                let name = if l.starts_with('"') { String::from_utf8_lossy(&match &toks(l)[0] { Tok::Str(s) => s.clone(), _ => vec![] }).into_owned() } else { l.split(':').next().unwrap().to_string() };
                let n = blocks.len() as u32; let b = *blocks.entry(name).or_insert(n);
                out.push((b, Block { insts: vec![], lines: vec![] })); cur = Some(out.len() - 1);
                continue;
            }
            if cur.is_none() { let n = blocks.len() as u32; let b = *blocks.entry(format!("{}", unnamed)).or_insert(n); out.push((b, Block { insts: vec![], lines: vec![] })); cur = Some(out.len() - 1); }
            let mut t = l.clone();
            let no = s.lines.start + i;
            while i < body.len() && (body[i].starts_with("   ") || body[i] == "  ]" || body[i].starts_with("  ], ")) { t.push('\n'); t.push_str(&body[i]); i += 1; }
            let mut q = P { t: toks(&t), i: 0, m: self, regs, blocks };
            let ins = q.inst();
            regs = q.regs; blocks = q.blocks;
            let b = &mut out[cur.unwrap()].1;
            let ins = ins.unwrap_or_else(|e| Inst::Bad(format!("{} in: {}", e, t.trim())));
            if let Inst::Nop = ins { continue; }
            b.insts.push(ins);
            b.lines.push(no as u32);
        }
        let n = blocks.len();
        let mut v: Vec<Block> = (0..n).map(|_| Block { insts: vec![Inst::Unreachable], lines: vec![0] }).collect();
        let entry = out.first().map(|x| x.0);
        for (b, k) in out { v[b as usize] = k; }
        if entry != Some(0) { return Err(format!("{}: entry block", s.name)); }
        Ok(Func { name: s.name.clone(), params, nregs: regs.len() as u32, blocks: v, id })
    }
}
