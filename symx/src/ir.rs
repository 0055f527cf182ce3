//! Parser for textual LLVM IR (the subset rustc emits for a whole fat-LTO program).
use crate::val::V;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(TyId, u64),
    Vec(TyId, u32),
    Struct(Vec<TyId>, bool),
    Other,
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Uno, Ueq, Ugt, Uge, Ult, Ule, Une, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CastOp { Trunc, Zext, Sext, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp, PtrToInt, IntToPtr, Bitcast }

#[derive(Clone, Debug)]
pub enum Callee { Func(u32), Ext(Rc<str>), Ind(Op) }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: TyId, d: u32, a: Op, b: Op },
    FBin { op: FOp, ty: TyId, d: u32, a: Op, b: Op },
    FNeg { ty: TyId, d: u32, a: Op },
    Icmp { p: Pred, ty: TyId, d: u32, a: Op, b: Op },
    Fcmp { p: FPred, ty: TyId, d: u32, a: Op, b: Op },
    Cast { op: CastOp, from: TyId, to: TyId, d: u32, a: Op },
    Select { ty: TyId, d: u32, c: Op, a: Op, b: Op, cty: TyId },
    Gep { d: u32, base: Op, off: i64, idx: Vec<(Op, u32, u64)> }, // (index, index width, scale)
    Load { ty: TyId, d: u32, p: Op },
    Store { ty: TyId, v: Op, p: Op },
    Alloca { d: u32, size: u64, align: u64 },
    Call { d: Option<u32>, ret: TyId, f: Callee, args: Vec<(TyId, Op)>, noret: bool },
    Br { t: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { ty: TyId, c: Op, def: u32, cases: Vec<(u64, u32)> },
    Ret { ty: TyId, v: Option<Op> },
    Unreachable,
    ExtractValue { d: u32, a: Op, idx: Vec<u32> },
    InsertValue { d: u32, a: Op, v: Op, idx: Vec<u32>, ty: TyId },
    ExtractElem { d: u32, a: Op, i: Op },
    InsertElem { d: u32, a: Op, v: Op, i: Op, ty: TyId },
    Shuffle { d: u32, a: Op, b: Op, mask: Vec<i32>, ety: TyId },
    Freeze { d: u32, a: Op },
    AtomicRmw { d: u32, op: Rc<str>, p: Op, v: Op, ty: TyId },
    CmpXchg { d: u32, p: Op, c: Op, n: Op, ty: TyId },
    Nop,
    Landingpad,
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, TyId, Vec<(u32, Op)>)>, // dst, type, (pred block, value)
    pub insts: Vec<Inst>,
    pub dbg: Vec<u32>,
    pub term_dbg: u32,
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub preds: Vec<Vec<u32>>,
    pub succs: Vec<Vec<u32>>,
    /// immediate post-dominator, ignoring paths that end in a panic; u32::MAX = function exit
    pub ipdom: Vec<u32>,
    /// live registers at block entry after its phis were assigned (bitset)
    pub live: Vec<Vec<u64>>,
    /// block is only followed by a panic
    pub dead_end: Vec<bool>,
    pub dbg_sp: u32,
    pub loop_header_region: RefCell<HashMap<(u32, u32), bool>>,
}

pub struct FuncText {
    pub name: Rc<str>,
    pub start: usize, // line index of define
    pub end: usize,
    pub noret: bool,
    pub dbg_sp: u32,
}

pub struct GlobalInfo {
    pub name: Rc<str>,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub data: Rc<Vec<u8>>,
}

pub struct Module {
    pub text: String,
    pub lines: Vec<(usize, usize)>,
    pub types: RefCell<Vec<Ty>>,
    pub tymap: RefCell<HashMap<Ty, TyId>>,
    pub named: HashMap<String, String>,
    pub funcs: Vec<FuncText>,
    pub fmap: HashMap<Rc<str>, u32>,
    pub parsed: RefCell<Vec<Option<Rc<Func>>>>,
    pub globals: Vec<GlobalInfo>,
    pub gaddr: HashMap<Rc<str>, u64>,
    pub attr_noret: HashMap<u32, bool>,
    pub ext_noret: HashMap<Rc<str>, bool>,
    pub ext_addr: RefCell<HashMap<Rc<str>, u64>>,
    pub meta: HashMap<u32, (usize, usize)>,
}

pub const FUNC_BASE: u64 = 0x1000_0000_0000;
pub const GLOBAL_BASE: u64 = 0x2000_0000_0000;
pub const HEAP_BASE: u64 = 0x7000_0000_0000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T<'a> {
    Loc(&'a str),
    Glob(&'a str),
    W(&'a str),
    Num(&'a str),
    Str(&'a str),
    CStr(&'a str),
    P(char),
    Meta(&'a str),
    Attr(&'a str),
    End,
}

pub struct Lex<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
    pub cur: T<'a>,
}

fn isw(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Lex<'a> {
        let mut l = Lex { s, b: s.as_bytes(), i: 0, cur: T::End };
        l.adv();
        l
    }
    fn name(&mut self) -> &'a str {
        if self.i < self.b.len() && self.b[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.b[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            return &self.s[st..j];
        }
        let st = self.i;
        while self.i < self.b.len() && isw(self.b[self.i]) {
            self.i += 1;
        }
        &self.s[st..self.i]
    }
    pub fn adv(&mut self) -> T<'a> {
        let old = self.cur;
        while self.i < self.b.len() && (self.b[self.i] == b' ' || self.b[self.i] == b'\n' || self.b[self.i] == b'\t') {
            self.i += 1;
        }
        if self.i >= self.b.len() {
            self.cur = T::End;
            return old;
        }
        let c = self.b[self.i];
        self.cur = match c {
            b'%' => { self.i += 1; T::Loc(self.name()) }
            b'@' => { self.i += 1; T::Glob(self.name()) }
            b'!' => { self.i += 1; T::Meta(self.name()) }
            b'#' => { self.i += 1; T::Attr(self.name()) }
            b';' => { self.i = self.b.len(); T::End }
            b'"' => { T::Str(self.name()) }
            b'.' if self.s[self.i..].starts_with("...") => { self.i += 3; T::W("...") }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.b.len() && (isw(self.b[self.i]) || self.b[self.i] == b'+') {
                    self.i += 1;
                }
                T::Num(&self.s[st..self.i])
            }
            _ if isw(c) => {
                if c == b'c' && self.i + 1 < self.b.len() && self.b[self.i + 1] == b'"' {
                    self.i += 1;
                    T::CStr(self.name())
                } else {
                    T::W(self.name())
                }
            }
            _ => { self.i += 1; T::P(c as char) }
        };
        old
    }
    pub fn is_w(&self, w: &str) -> bool { matches!(self.cur, T::W(x) if x == w) }
    pub fn is_p(&self, c: char) -> bool { self.cur == T::P(c) }
    pub fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.adv(); true } else { false } }
    pub fn eat_p(&mut self, c: char) -> bool { if self.is_p(c) { self.adv(); true } else { false } }
    pub fn exp_p(&mut self, c: char) {
        if !self.eat_p(c) { panic!("parse: expected '{}' got {:?} in: {}", c, self.cur, self.s); }
    }
    pub fn skip_parens(&mut self) {
        // current is '('
        let mut d = 0;
        loop {
            match self.cur {
                T::P('(') => d += 1,
                T::P(')') => { d -= 1; if d == 0 { self.adv(); return; } }
                T::End => return,
                _ => {}
            }
            self.adv();
        }
    }
    fn word(&mut self) -> &'a str {
        match self.adv() { T::W(w) => w, t => panic!("parse: expected word, got {:?} in: {}", t, self.s) }
    }
    fn num(&mut self) -> &'a str {
        match self.adv() { T::Num(w) => w, t => panic!("parse: expected number, got {:?} in: {}", t, self.s) }
    }
}

pub fn mask(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }

fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; continue; }
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else { o.push(b[i]); i += 1; }
    }
    o
}

impl Module {
    pub fn ty(&self, t: Ty) -> TyId {
        if let Some(i) = self.tymap.borrow().get(&t) { return *i; }
        let mut v = self.types.borrow_mut();
        v.push(t.clone());
        let id = (v.len() - 1) as u32;
        self.tymap.borrow_mut().insert(t, id);
        id
    }
    pub fn t(&self, id: TyId) -> Ty { self.types.borrow()[id as usize].clone() }
    pub fn size(&self, id: TyId) -> u64 {
        match self.t(id) {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let n = ((w + 7) / 8) as u64;
                n.next_power_of_two().max(1).max(if w > 64 { 16 } else { 0 })
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(e, n) => self.size(e) * n,
            Ty::Vec(e, n) => match self.t(e) {
                Ty::Int(1) => ((n + 7) / 8) as u64,
                _ => self.size(e) * n as u64,
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for e in &f {
                    if !packed { let a = self.align(*e); o = (o + a - 1) / a * a; }
                    o += self.size(*e);
                }
                if !packed { let a = self.align(id); o = (o + a - 1) / a * a; }
                o
            }
        }
    }
    pub fn align(&self, id: TyId) -> u64 {
        match self.t(id) {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => if w > 64 { 16 } else { (((w + 7) / 8) as u64).next_power_of_two().max(1) },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(e, _) => self.align(e),
            Ty::Vec(..) => self.size(id).next_power_of_two(),
            Ty::Struct(f, packed) => if packed { 1 } else { f.iter().map(|e| self.align(*e)).max().unwrap_or(1) },
        }
    }
    pub fn field_off(&self, id: TyId, i: usize) -> (u64, TyId) {
        match self.t(id) {
            Ty::Arr(e, _) | Ty::Vec(e, _) => (self.size(e) * i as u64, e),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, e) in f.iter().enumerate() {
                    if !packed { let a = self.align(*e); o = (o + a - 1) / a * a; }
                    if k == i { return (o, *e); }
                    o += self.size(*e);
                }
                panic!("field index")
            }
            t => panic!("field_off of {:?}", t),
        }
    }

    pub fn parse_ty(&self, l: &mut Lex) -> TyId {
        let base = match l.cur {
            T::W(w) => {
                l.adv();
                match w {
                    "void" => self.ty(Ty::Void),
                    "ptr" => {
                        if l.is_w("addrspace") { l.adv(); l.skip_parens(); }
                        self.ty(Ty::Ptr)
                    }
                    "double" => self.ty(Ty::F64),
                    "float" => self.ty(Ty::F32),
                    "label" | "metadata" | "token" | "x86_fp80" | "half" | "fp128" | "..." => self.ty(Ty::Other),
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => self.ty(Ty::Int(w[1..].parse().unwrap())),
                    _ => panic!("type word {} in {}", w, l.s),
                }
            }
            T::P('[') => {
                l.adv();
                let n: u64 = l.num().parse().unwrap();
                assert!(l.eat_w("x"));
                let e = self.parse_ty(l);
                l.exp_p(']');
                self.ty(Ty::Arr(e, n))
            }
            T::P('<') => {
                l.adv();
                if l.is_p('{') {
                    let f = self.parse_fields(l);
                    l.exp_p('>');
                    self.ty(Ty::Struct(f, true))
                } else {
                    let n: u32 = l.num().parse().unwrap();
                    assert!(l.eat_w("x"));
                    let e = self.parse_ty(l);
                    l.exp_p('>');
                    self.ty(Ty::Vec(e, n))
                }
            }
            T::P('{') => { let f = self.parse_fields(l); self.ty(Ty::Struct(f, false)) }
            T::Loc(n) => {
                l.adv();
                let d = self.named.get(n).unwrap_or_else(|| panic!("named type {}", n)).clone();
                let mut l2 = Lex::new(&d);
                self.parse_ty(&mut l2)
            }
            t => panic!("type {:?} in {}", t, l.s),
        };
        base
    }
    fn parse_fields(&self, l: &mut Lex) -> Vec<TyId> {
        l.exp_p('{');
        let mut f = vec![];
        while !l.is_p('}') {
            f.push(self.parse_ty(l));
            l.eat_p(',');
        }
        l.adv();
        f
    }

    fn zero(&self, ty: TyId) -> V {
        match self.t(ty) {
            Ty::Arr(e, n) => V::A(Rc::new(vec![self.zero(e); n as usize])),
            Ty::Vec(e, n) => V::A(Rc::new(vec![self.zero(e); n as usize])),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|e| self.zero(*e)).collect())),
            Ty::Int(w) if w > 64 => V::W(Rc::new(0)),
            _ => V::C(0),
        }
    }
    pub fn undef(&self, ty: TyId) -> V { self.zero(ty) }

    pub fn func_addr(&self, i: u32) -> u64 { FUNC_BASE + 16 * i as u64 }

    fn global_addr(&self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) { return *a; }
        if let Some(i) = self.fmap.get(n) { return self.func_addr(*i); }
        let mut e = self.ext_addr.borrow_mut();
        let k = e.len() as u64;
        *e.entry(Rc::from(n)).or_insert(FUNC_BASE + 0x100_0000_0000 + 16 * k)
    }

    /// parse a constant or operand of given type
    pub fn parse_val(&self, l: &mut Lex, ty: TyId, regs: &mut dyn FnMut(&str) -> u32) -> Op {
        match l.cur {
            T::Loc(n) => { let r = regs(n); l.adv(); Op::R(r) }
            _ => Op::K(self.parse_const(l, ty)),
        }
    }
    pub fn parse_const(&self, l: &mut Lex, ty: TyId) -> V {
        let t = self.t(ty);
        match l.adv() {
            T::Glob(n) => V::C(self.global_addr(n)),
            T::Num(n) => match t {
                Ty::Int(w) if w > 64 => {
                    let v: i128 = if let Ok(v) = n.parse::<i128>() { v } else { n.parse::<u128>().unwrap() as i128 };
                    V::W(Rc::new(if w >= 128 { v as u128 } else { (v as u128) & ((1u128 << w) - 1) }))
                }
                Ty::Int(w) => {
                    let v: i128 = n.parse().unwrap_or_else(|_| panic!("num {} {}", n, l.s));
                    V::C((v as u64) & mask(w))
                }
                Ty::F64 => {
                    if let Some(h) = n.strip_prefix("0x") { V::C(u64::from_str_radix(h, 16).unwrap()) } else { V::C(n.parse::<f64>().unwrap().to_bits()) }
                }
                Ty::F32 => {
                    let d = if let Some(h) = n.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { n.parse::<f64>().unwrap() };
                    V::C((d as f32).to_bits() as u64)
                }
                _ => panic!("number for {:?}: {}", t, l.s),
            },
            // the value's bits, in the width of its type
            T::W(h) if h.starts_with("f0x") => V::C(u64::from_str_radix(&h[3..], 16).unwrap()),
            T::W("true") => V::C(1),
            T::W("false") => V::C(0),
            T::W("null") => V::C(0),
            T::W("undef") | T::W("poison") | T::W("zeroinitializer") => self.zero(ty),
            T::W("splat") => {
                l.exp_p('(');
                let et = self.parse_ty(l);
                let v = self.parse_const(l, et);
                l.exp_p(')');
                match t { Ty::Vec(_, n) => V::A(Rc::new(vec![v; n as usize])), _ => panic!() }
            }
            T::CStr(s) => V::A(Rc::new(unesc(s).into_iter().map(|b| V::C(b as u64)).collect())),
            T::P('[') => { let v = self.parse_const_list(l, ']'); V::A(Rc::new(v)) }
            T::P('{') => { let v = self.parse_const_list(l, '}'); V::A(Rc::new(v)) }
            T::P('<') => {
                if l.is_p('{') { l.adv(); let v = self.parse_const_list(l, '}'); l.exp_p('>'); V::A(Rc::new(v)) }
                else { let v = self.parse_const_list(l, '>'); V::A(Rc::new(v)) }
            }
            T::W(w @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast")) => {
                l.exp_p('(');
                let ft = self.parse_ty(l);
                let v = self.parse_const(l, ft);
                assert!(l.eat_w("to"));
                let tt = self.parse_ty(l);
                l.exp_p(')');
                match (w, v, self.t(tt)) {
                    ("trunc", V::C(c), Ty::Int(n)) => V::C(c & mask(n)),
                    ("ptrtoint", V::C(c), Ty::Int(n)) => V::C(c & mask(n)),
                    (_, v, _) => v,
                }
            }
            T::W(w @ ("sub" | "add" | "xor")) => {
                while matches!(l.cur, T::W(_)) { l.adv(); }
                l.exp_p('(');
                let ft = self.parse_ty(l);
                let a = self.parse_const(l, ft);
                l.exp_p(',');
                let ft = self.parse_ty(l);
                let b = self.parse_const(l, ft);
                l.exp_p(')');
                let n = match self.t(ft) { Ty::Int(n) => n, _ => 64 };
                match (a, b) {
                    (V::C(a), V::C(b)) => V::C((match w { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), _ => a ^ b }) & mask(n)),
                    _ => panic!(),
                }
            }
            T::W("getelementptr") => {
                loop {
                    match l.cur {
                        T::W("inrange") => { l.adv(); l.skip_parens(); }
                        T::W(_) => { l.adv(); }
                        _ => break,
                    }
                }
                l.exp_p('(');
                let et = self.parse_ty(l);
                l.exp_p(',');
                let pt = self.parse_ty(l);
                let b = self.parse_const(l, pt).c();
                let mut off: i64 = 0;
                let mut cur = et;
                let mut first = true;
                while l.eat_p(',') {
                    let it = self.parse_ty(l);
                    let w = match self.t(it) { Ty::Int(w) => w, _ => 64 };
                    let i = self.parse_const(l, it).c();
                    let i = sext(i, w) as i64;
                    if first { off += i * self.size(et) as i64; first = false; }
                    else { let (o, e) = self.idx_off(cur, i); off += o; cur = e; }
                }
                l.exp_p(')');
                V::C(b.wrapping_add(off as u64))
            }
            t => panic!("const {:?} in {}", t, l.s),
        }
    }
    fn idx_off(&self, cur: TyId, i: i64) -> (i64, TyId) {
        match self.t(cur) {
            Ty::Arr(e, _) | Ty::Vec(e, _) => (self.size(e) as i64 * i, e),
            _ => { let (o, e) = self.field_off(cur, i as usize); (o as i64, e) }
        }
    }
    fn parse_const_list(&self, l: &mut Lex, end: char) -> Vec<V> {
        let mut v = vec![];
        while !l.is_p(end) {
            let t = self.parse_ty(l);
            v.push(self.parse_const(l, t));
            l.eat_p(',');
        }
        l.adv();
        v
    }

    pub fn flatten(&self, v: &V, ty: TyId, out: &mut [u8]) {
        match self.t(ty) {
            Ty::Int(w) if w > 64 => { if let V::W(x) = v { out[..16].copy_from_slice(&x.to_le_bytes()); } }
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => {
                let n = self.size(ty) as usize;
                out[..n].copy_from_slice(&v.c().to_le_bytes()[..n]);
            }
            Ty::Arr(e, _) | Ty::Vec(e, _) => {
                let s = self.size(e) as usize;
                if let V::A(a) = v { for (i, x) in a.iter().enumerate() { self.flatten(x, e, &mut out[i * s..(i + 1) * s]); } }
            }
            Ty::Struct(f, _) => {
                if let V::A(a) = v {
                    for i in 0..f.len() {
                        let (o, e) = self.field_off(ty, i);
                        let s = self.size(e) as usize;
                        self.flatten(&a[i], e, &mut out[o as usize..o as usize + s]);
                    }
                }
            }
            _ => {}
        }
    }

    pub fn line(&self, i: usize) -> &str { let (a, b) = self.lines[i]; &self.text[a..b] }

    pub fn load(path: &str) -> Module {
        let mut text = std::fs::read_to_string(path).expect("read .ll");
        // operand comments such as the classes of llvm.is.fpclass
        while let Some(a) = text.find(" /* (") { match text[a..].find("*/") { Some(b) => text.replace_range(a..a + b + 2, ""), None => break } }
        let mut lines = vec![];
        let mut st = 0;
        for (i, c) in text.bytes().enumerate() { if c == b'\n' { lines.push((st, i)); st = i + 1; } }
        if st < text.len() { lines.push((st, text.len())); }
        let mut m = Module {
            text, lines, types: RefCell::new(vec![]), tymap: RefCell::new(HashMap::new()), named: HashMap::new(), funcs: vec![], fmap: HashMap::new(),
            parsed: RefCell::new(vec![]), globals: vec![], gaddr: HashMap::new(), attr_noret: HashMap::new(), ext_noret: HashMap::new(),
            ext_addr: RefCell::new(HashMap::new()), meta: HashMap::new(),
        };
        let n = m.lines.len();
        let mut i = 0;
        let mut glines = vec![];
        let mut named = HashMap::new();
        let mut ext: Vec<(Rc<str>, Option<u32>)> = vec![];
        let mut funcs: Vec<(FuncText, Option<u32>)> = vec![];
        let mut attr = HashMap::new();
        let mut meta = HashMap::new();
        while i < n {
            let s = m.line(i);
            let b = s.as_bytes();
            if b.is_empty() { i += 1; continue; }
            match b[0] {
                b'@' => glines.push(i),
                b'%' => { if let Some(p) = s.find(" = type ") { named.insert(s[1..p].trim_matches('"').to_string(), s[p + 8..].to_string()); } }
                b'd' if s.starts_with("define") => {
                    let name = fname(s);
                    let dbg = find_meta(s, "!dbg !");
                    let at = find_attr(s);
                    let st = i;
                    while m.line(i) != "}" { i += 1; }
                    funcs.push((FuncText { name: Rc::from(name), start: st, end: i, noret: false, dbg_sp: dbg }, at));
                }
                b'd' if s.starts_with("declare") => ext.push((Rc::from(fname(s)), find_attr(s))),
                b'a' if s.starts_with("attributes #") => {
                    let r = &s[12..];
                    let e = r.find(' ').unwrap();
                    let id: u32 = r[..e].parse().unwrap();
                    attr.insert(id, r.contains(" noreturn "));
                }
                b'!' => {
                    let e = s.find(' ').unwrap_or(1);
                    if let Ok(id) = s[1..e].parse::<u32>() { meta.insert(id, m.lines[i]); }
                }
                _ => {}
            }
            i += 1;
        }
        m.named = named;
        m.attr_noret = attr;
        m.meta = meta;
        for (n, a) in ext { let nr = a.map_or(false, |a| *m.attr_noret.get(&a).unwrap_or(&false)); m.ext_noret.insert(n, nr); }
        for (mut f, a) in funcs {
            f.noret = a.map_or(false, |a| *m.attr_noret.get(&a).unwrap_or(&false));
            m.fmap.insert(f.name.clone(), m.funcs.len() as u32);
            m.funcs.push(f);
            m.parsed.borrow_mut().push(None);
        }
        // globals: addresses first
        let mut addr = GLOBAL_BASE;
        let mut infos = vec![];
        for li in glines {
            let s = m.line(li).to_string();
            let mut l = Lex::new(&s);
            let name = match l.adv() { T::Glob(n) => n.to_string(), _ => panic!() };
            l.exp_p('=');
            let mut external = false;
            let mut constant = false;
            let mut alias = false;
            loop {
                match l.cur {
                    T::W("global") => { l.adv(); break; }
                    T::W("constant") => { constant = true; l.adv(); break; }
                    T::W("alias") | T::W("ifunc") => { alias = true; l.adv(); break; }
                    T::W("external") | T::W("extern_weak") => { external = true; l.adv(); }
                    T::W(_) => { l.adv(); if l.is_p('(') { l.skip_parens(); } }
                    t => panic!("global header {:?}: {}", t, s),
                }
            }
            if alias { continue; }
            let ty = m.parse_ty(&mut l);
            let size = m.size(ty);
            addr = (addr + 63) / 64 * 64;
            m.gaddr.insert(Rc::from(name.as_str()), addr);
            infos.push((name, addr, size, constant, ty, s.clone(), s.len() - (l.s.len() - l.i), external));
            addr += size.max(1) + 16;
        }
        for (name, addr, size, constant, ty, s, _, external) in infos {
            let mut data = vec![0u8; size as usize];
            if !external {
                let mut l = Lex::new(&s);
                loop {
                    match l.cur { T::W("global") | T::W("constant") => { l.adv(); break; } T::P('(') => l.skip_parens(), _ => { l.adv(); } }
                }
                let _ = m.parse_ty(&mut l);
                let v = m.parse_const(&mut l, ty);
                m.flatten(&v, ty, &mut data);
            }
            m.globals.push(GlobalInfo { name: Rc::from(name.as_str()), addr, size, constant: constant && !external, data: Rc::new(data) });
        }
        m
    }

    pub fn func(&self, i: u32) -> Rc<Func> {
        if let Some(f) = &self.parsed.borrow()[i as usize] { return f.clone(); }
        let f = Rc::new(self.parse_func(i));
        self.parsed.borrow_mut()[i as usize] = Some(f.clone());
        f
    }

    fn parse_func(&self, fi: u32) -> Func {
        let ft = &self.funcs[fi as usize];
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut nregs = 0u32;
        let mut params = vec![];
        // header
        {
            let s = self.line(ft.start);
            let p = s.find('@').unwrap();
            let mut l = Lex::new(&s[p..]);
            l.adv();
            l.exp_p('(');
            while !l.is_p(')') {
                if l.is_w("...") { l.adv(); continue; }
                self.parse_ty(&mut l);
                skip_attrs(&mut l);
                match l.adv() {
                    T::Loc(n) => { regs.insert(n.to_string(), nregs); params.push(nregs); nregs += 1; }
                    t => panic!("param {:?} {}", t, s),
                }
                l.eat_p(',');
            }
        }
        // logical lines
        let mut logical: Vec<String> = vec![];
        let mut i = ft.start + 1;
        while i < ft.end {
            let s = self.line(i);
            let tr = s.trim_start();
            if tr.is_empty() || tr.starts_with(';') || tr.starts_with("#dbg") { i += 1; continue; }
            if tr.starts_with("switch ") {
                let mut acc = s.to_string();
                while !acc.trim_end().contains(" ]") && !self.line(i).trim_start().starts_with(']') {
                    i += 1;
                    acc.push(' ');
                    acc.push_str(self.line(i));
                }
                logical.push(acc);
            } else if tr.starts_with("invoke ") || tr.contains(" = invoke ") {
                let mut acc = s.to_string();
                i += 1;
                acc.push(' ');
                acc.push_str(self.line(i).trim_start());
                logical.push(acc);
            } else if tr.contains(" = landingpad") {
                logical.push(s.to_string());
                while self.line(i + 1).trim_start().starts_with("cleanup") || self.line(i + 1).trim_start().starts_with("catch") || self.line(i + 1).trim_start().starts_with("filter") { i += 1; }
            } else {
                logical.push(s.to_string());
            }
            i += 1;
        }
        // block labels
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut nblocks = 0u32;
        let first_is_label = logical.first().map_or(false, |s| !s.starts_with(' '));
        if !first_is_label { nblocks = 1; labels.insert(String::from("%entry%"), 0); }
        for s in &logical {
            if !s.starts_with(' ') {
                let e = s.rfind(':').unwrap();
                let e = s.find(": ").or_else(|| s.find(":\t")).unwrap_or(e);
                let mut n = s[..e].trim();
                if n.starts_with('"') { n = n.trim_matches('"'); }
                labels.insert(n.to_string(), nblocks);
                nblocks += 1;
            }
        }
        let mut blocks: Vec<Block> = (0..nblocks).map(|_| Block::default()).collect();
        let mut cur = 0usize;
        let mut seen_label = 0u32;
        for s in &logical {
            if !s.starts_with(' ') {
                if first_is_label || seen_label > 0 { if first_is_label { cur = seen_label as usize } else { cur = seen_label as usize + 1 } } else { cur = 1; }
                seen_label += 1;
                continue;
            }
            let dbg = find_meta(s, "!dbg !");
            let mut rg = |n: &str| -> u32 {
                if let Some(r) = regs.get(n) { return *r; }
                let r = nregs;
                nregs += 1;
                regs.insert(n.to_string(), r);
                r
            };
            self.parse_inst(s, &mut rg, &labels, &mut blocks[cur], dbg);
        }
        let nb = nblocks as usize;
        let mut succs: Vec<Vec<u32>> = vec![vec![]; nb];
        for (bi, b) in blocks.iter().enumerate() {
            let sc = &mut succs[bi];
            match b.insts.last() {
                Some(Inst::Br { t }) => sc.push(*t),
                Some(Inst::CondBr { t, f, .. }) => { sc.push(*t); if f != t { sc.push(*f); } }
                Some(Inst::Switch { def, cases, .. }) => { sc.push(*def); for (_, t) in cases { if !sc.contains(t) { sc.push(*t); } } }
                _ => {}
            }
        }
        let mut preds: Vec<Vec<u32>> = vec![vec![]; nb];
        for b in 0..nb { for s in &succs[b] { preds[*s as usize].push(b as u32); } }
        // dead ends: blocks from which no return is reachable
        let mut alive = vec![false; nb];
        let mut work: Vec<u32> = vec![];
        for b in 0..nb { if let Some(Inst::Ret { .. }) = blocks[b].insts.last() { if !blocks[b].insts.iter().any(|i| matches!(i, Inst::Call { noret: true, .. })) { alive[b] = true; work.push(b as u32); } } }
        while let Some(b) = work.pop() {
            for p in &preds[b as usize] {
                if !alive[*p as usize] && !blocks[*p as usize].insts.iter().any(|i| matches!(i, Inst::Call { noret: true, .. })) { alive[*p as usize] = true; work.push(*p); }
            }
        }
        let ipdom = post_dominators(nb, &succs, &preds, &blocks, &alive);
        let live = liveness(nb, nregs, &blocks, &succs);
        Func {
            name: ft.name.clone(), nregs, params, blocks, preds, succs, ipdom, live, dead_end: alive.iter().map(|a| !a).collect(), dbg_sp: ft.dbg_sp,
            loop_header_region: RefCell::new(HashMap::new()),
        }
    }

    fn parse_inst(&self, s: &str, regs: &mut dyn FnMut(&str) -> u32, labels: &HashMap<String, u32>, blk: &mut Block, dbg: u32) {
        let lab = |n: &str| -> u32 { *labels.get(n).unwrap_or_else(|| labels.get("%entry%").expect("label")) };
        let mut l = Lex::new(s);
        let mut d = None;
        if let T::Loc(n) = l.cur {
            d = Some(regs(n));
            l.adv();
            l.exp_p('=');
        }
        let mut op = l.word();
        while op == "tail" || op == "musttail" || op == "notail" { op = l.word(); }
        let dr = d.unwrap_or(u32::MAX);
        let mut extra_br = None;
        let inst = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while matches!(l.cur, T::W("nuw" | "nsw" | "exact" | "disjoint")) { l.adv(); }
                let ty = self.parse_ty(&mut l);
                let a = self.parse_val(&mut l, ty, regs);
                l.exp_p(',');
                let b = self.parse_val(&mut l, ty, regs);
                let bop = match op {
                    "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem,
                    "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or, _ => BinOp::Xor,
                };
                Inst::Bin { op: bop, ty, d: dr, a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                skip_fmf(&mut l);
                let ty = self.parse_ty(&mut l);
                let a = self.parse_val(&mut l, ty, regs);
                l.exp_p(',');
                let b = self.parse_val(&mut l, ty, regs);
                let fop = match op { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, _ => FOp::Rem };
                Inst::FBin { op: fop, ty, d: dr, a, b }
            }
            "fneg" => { skip_fmf(&mut l); let ty = self.parse_ty(&mut l); let a = self.parse_val(&mut l, ty, regs); Inst::FNeg { ty, d: dr, a } }
            "icmp" => {
                l.eat_w("samesign");
                let p = match l.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, _ => Pred::Sle };
                let ty = self.parse_ty(&mut l);
                let a = self.parse_val(&mut l, ty, regs);
                l.exp_p(',');
                let b = self.parse_val(&mut l, ty, regs);
                Inst::Icmp { p, ty, d: dr, a, b }
            }
            "fcmp" => {
                skip_fmf(&mut l);
                let p = match l.word() {
                    "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord,
                    "uno" => FPred::Uno, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult, "ule" => FPred::Ule, "une" => FPred::Une, _ => FPred::True,
                };
                let ty = self.parse_ty(&mut l);
                let a = self.parse_val(&mut l, ty, regs);
                l.exp_p(',');
                let b = self.parse_val(&mut l, ty, regs);
                Inst::Fcmp { p, ty, d: dr, a, b }
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                while matches!(l.cur, T::W("nuw" | "nsw" | "nneg")) { l.adv(); }
                let from = self.parse_ty(&mut l);
                let a = self.parse_val(&mut l, from, regs);
                assert!(l.eat_w("to"), "{}", s);
                let to = self.parse_ty(&mut l);
                let cop = match op {
                    "trunc" => CastOp::Trunc, "zext" => CastOp::Zext, "sext" => CastOp::Sext, "fptrunc" => CastOp::FpTrunc, "fpext" => CastOp::FpExt, "fptoui" => CastOp::FpToUi, "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp, "sitofp" => CastOp::SiToFp, "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt, "inttoptr" => CastOp::IntToPtr, _ => CastOp::Bitcast,
                };
                Inst::Cast { op: cop, from, to, d: dr, a }
            }
            "select" => {
                skip_fmf(&mut l);
                let cty = self.parse_ty(&mut l);
                let c = self.parse_val(&mut l, cty, regs);
                l.exp_p(',');
                let ty = self.parse_ty(&mut l);
                let a = self.parse_val(&mut l, ty, regs);
                l.exp_p(',');
                let _ = self.parse_ty(&mut l);
                let b = self.parse_val(&mut l, ty, regs);
                Inst::Select { ty, d: dr, c, a, b, cty }
            }
            "getelementptr" => {
                loop { match l.cur { T::W("inbounds" | "nuw" | "nusw") => { l.adv(); } T::W("inrange") => { l.adv(); l.skip_parens(); } _ => break } }
                let et = self.parse_ty(&mut l);
                l.exp_p(',');
                let pt = self.parse_ty(&mut l);
                let base = self.parse_val(&mut l, pt, regs);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut curt = et;
                let mut first = true;
                while l.is_p(',') {
                    l.adv();
                    if matches!(l.cur, T::Meta(_)) { break; }
                    let it = self.parse_ty(&mut l);
                    let w = match self.t(it) { Ty::Int(w) => w, _ => 64 };
                    let v = self.parse_val(&mut l, it, regs);
                    let (scale, next) = if first { first = false; (self.size(et), et) } else {
                        match self.t(curt) {
                            Ty::Arr(e, _) | Ty::Vec(e, _) => (self.size(e), e),
                            _ => {
                                let i = match &v { Op::K(k) => k.c(), _ => panic!("struct idx") };
                                let (o, e) = self.field_off(curt, i as usize);
                                off += o as i64;
                                (0, e)
                            }
                        }
                    };
                    curt = next;
                    if scale != 0 {
                        match v { Op::K(V::C(c)) => off = off.wrapping_add((sext(c, w) as i64).wrapping_mul(scale as i64)), v => idx.push((v, w, scale)) }
                    }
                }
                Inst::Gep { d: dr, base, off, idx }
            }
            "load" => {
                while matches!(l.cur, T::W("atomic" | "volatile")) { l.adv(); }
                let ty = self.parse_ty(&mut l);
                l.exp_p(',');
                let pt = self.parse_ty(&mut l);
                let p = self.parse_val(&mut l, pt, regs);
                Inst::Load { ty, d: dr, p }
            }
            "store" => {
                while matches!(l.cur, T::W("atomic" | "volatile")) { l.adv(); }
                let ty = self.parse_ty(&mut l);
                let v = self.parse_val(&mut l, ty, regs);
                l.exp_p(',');
                let pt = self.parse_ty(&mut l);
                let p = self.parse_val(&mut l, pt, regs);
                Inst::Store { ty, v, p }
            }
            "alloca" => {
                l.eat_w("inalloca");
                let ty = self.parse_ty(&mut l);
                let mut count = 1;
                let mut align = self.align(ty);
                while l.eat_p(',') {
                    if l.eat_w("align") { align = l.num().parse().unwrap(); }
                    else if matches!(l.cur, T::Meta(_)) { break; }
                    else { let t = self.parse_ty(&mut l); count = match self.parse_val(&mut l, t, regs) { Op::K(v) => v.c(), _ => panic!("dynamic alloca") }; }
                }
                Inst::Alloca { d: dr, size: self.size(ty) * count, align }
            }
            "call" | "invoke" => {
                skip_fmf(&mut l);
                // cc and return attributes
                loop {
                    match l.cur {
                        T::W("cc") => { l.adv(); l.adv(); }
                        T::W("align") => { l.adv(); if l.is_p('(') { l.skip_parens(); } else { l.adv(); } }
                        T::W(w) if is_type_word(w) => break,
                        T::W(_) => { l.adv(); if l.is_p('(') { l.skip_parens(); } }
                        _ => break,
                    }
                }
                let ret = self.parse_ty(&mut l);
                if l.is_p('(') { l.skip_parens(); }
                let callee = match l.cur {
                    T::Glob(n) => { l.adv(); match self.fmap.get(n) { Some(i) => Callee::Func(*i), None => Callee::Ext(Rc::from(n)) } }
                    T::Loc(n) => { let r = regs(n); l.adv(); Callee::Ind(Op::R(r)) }
                    T::W("asm") => { while !l.is_p('(') { l.adv(); } Callee::Ext(Rc::from("asm")) }
                    T::W("inttoptr") => { let pt = self.ty(Ty::Ptr); let c = self.parse_const(&mut l, pt); Callee::Ind(Op::K(c)) }
                    t => panic!("callee {:?}: {}", t, s),
                };
                l.exp_p('(');
                let mut args = vec![];
                while !l.is_p(')') {
                    if l.is_w("metadata") {
                        // skip until , or )
                        l.adv();
                        let mut dp = 0;
                        loop { match l.cur { T::P('(') => dp += 1, T::P(')') if dp == 0 => break, T::P(')') => dp -= 1, T::P(',') if dp == 0 => break, T::End => break, _ => {} } l.adv(); }
                        l.eat_p(',');
                        continue;
                    }
                    let ty = self.parse_ty(&mut l);
                    skip_attrs(&mut l);
                    let v = self.parse_val(&mut l, ty, regs);
                    args.push((ty, v));
                    l.eat_p(',');
                }
                l.adv();
                let mut noret = false;
                loop {
                    match l.cur {
                        T::Attr(n) => { if *self.attr_noret.get(&n.parse().unwrap()).unwrap_or(&false) { noret = true; } l.adv(); }
                        T::W("noreturn") => { noret = true; l.adv(); }
                        T::W("to") => break,
                        T::P('[') => { while !l.is_p(']') { l.adv(); } l.adv(); }
                        T::W(_) => { l.adv(); if l.is_p('(') { l.skip_parens(); } }
                        T::P(',') | T::End => break,
                        _ => { l.adv(); }
                    }
                }
                match &callee {
                    Callee::Func(i) => if self.funcs[*i as usize].noret { noret = true; },
                    Callee::Ext(n) => if *self.ext_noret.get(n).unwrap_or(&false) { noret = true; },
                    _ => {}
                }
                if op == "invoke" {
                    assert!(l.eat_w("to"));
                    l.adv();
                    if let T::Loc(n) = l.cur { extra_br = Some(lab(n)); }
                }
                Inst::Call { d, ret, f: callee, args, noret }
            }
            "br" => {
                if l.eat_w("label") { match l.cur { T::Loc(n) => Inst::Br { t: lab(n) }, _ => panic!() } }
                else {
                    let ty = self.parse_ty(&mut l);
                    let c = self.parse_val(&mut l, ty, regs);
                    l.exp_p(',');
                    l.eat_w("label");
                    let t = match l.adv() { T::Loc(n) => lab(n), _ => panic!() };
                    l.exp_p(',');
                    l.eat_w("label");
                    let f = match l.adv() { T::Loc(n) => lab(n), _ => panic!() };
                    if t == f { Inst::Br { t } } else { Inst::CondBr { c, t, f } }
                }
            }
            "switch" => {
                let ty = self.parse_ty(&mut l);
                let c = self.parse_val(&mut l, ty, regs);
                l.exp_p(',');
                l.eat_w("label");
                let def = match l.adv() { T::Loc(n) => lab(n), _ => panic!() };
                l.exp_p('[');
                let mut cases = vec![];
                while !l.is_p(']') {
                    let t = self.parse_ty(&mut l);
                    let v = self.parse_const(&mut l, t);
                    l.exp_p(',');
                    l.eat_w("label");
                    let b = match l.adv() { T::Loc(n) => lab(n), _ => panic!() };
                    cases.push((v.c(), b));
                }
                Inst::Switch { ty, c, def, cases }
            }
            "ret" => {
                let ty = self.parse_ty(&mut l);
                if self.t(ty) == Ty::Void { Inst::Ret { ty, v: None } } else { let v = self.parse_val(&mut l, ty, regs); Inst::Ret { ty, v: Some(v) } }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => Inst::Unreachable,
            "phi" => {
                skip_fmf(&mut l);
                let ty = self.parse_ty(&mut l);
                let mut inc = vec![];
                while l.is_p('[') {
                    l.adv();
                    let v = self.parse_val(&mut l, ty, regs);
                    l.exp_p(',');
                    let b = match l.adv() { T::Loc(n) => lab(n), _ => panic!() };
                    l.exp_p(']');
                    inc.push((b, v));
                    if !l.eat_p(',') { break; }
                }
                blk.phis.push((dr, ty, inc));
                return;
            }
            "extractvalue" => {
                let ty = self.parse_ty(&mut l);
                let a = self.parse_val(&mut l, ty, regs);
                let mut idx = vec![];
                while l.eat_p(',') { if let T::Num(n) = l.cur { idx.push(n.parse().unwrap()); l.adv(); } else { break; } }
                Inst::ExtractValue { d: dr, a, idx }
            }
            "insertvalue" => {
                let ty = self.parse_ty(&mut l);
                let a = self.parse_val(&mut l, ty, regs);
                l.exp_p(',');
                let vt = self.parse_ty(&mut l);
                let v = self.parse_val(&mut l, vt, regs);
                let mut idx = vec![];
                while l.eat_p(',') { if let T::Num(n) = l.cur { idx.push(n.parse().unwrap()); l.adv(); } else { break; } }
                Inst::InsertValue { d: dr, a, v, idx, ty }
            }
            "extractelement" => {
                let ty = self.parse_ty(&mut l);
                let a = self.parse_val(&mut l, ty, regs);
                l.exp_p(',');
                let it = self.parse_ty(&mut l);
                let i = self.parse_val(&mut l, it, regs);
                Inst::ExtractElem { d: dr, a, i }
            }
            "insertelement" => {
                let ty = self.parse_ty(&mut l);
                let a = self.parse_val(&mut l, ty, regs);
                l.exp_p(',');
                let vt = self.parse_ty(&mut l);
                let v = self.parse_val(&mut l, vt, regs);
                l.exp_p(',');
                let it = self.parse_ty(&mut l);
                let i = self.parse_val(&mut l, it, regs);
                Inst::InsertElem { d: dr, a, v, i, ty }
            }
            "shufflevector" => {
                let ty = self.parse_ty(&mut l);
                let a = self.parse_val(&mut l, ty, regs);
                l.exp_p(',');
                let _ = self.parse_ty(&mut l);
                let b = self.parse_val(&mut l, ty, regs);
                l.exp_p(',');
                let mt = self.parse_ty(&mut l);
                let mv = self.parse_const(&mut l, mt);
                let mask = match mv { V::A(a) => a.iter().map(|v| v.c() as i32).collect(), _ => panic!() };
                let ety = match self.t(ty) { Ty::Vec(e, _) => e, _ => panic!() };
                Inst::Shuffle { d: dr, a, b, mask, ety }
            }
            "freeze" => { let ty = self.parse_ty(&mut l); let a = self.parse_val(&mut l, ty, regs); Inst::Freeze { d: dr, a } }
            "fence" => Inst::Nop,
            "landingpad" | "cleanuppad" => Inst::Landingpad,
            "atomicrmw" => {
                l.eat_w("volatile");
                let o = l.word();
                let pt = self.parse_ty(&mut l);
                let p = self.parse_val(&mut l, pt, regs);
                l.exp_p(',');
                let ty = self.parse_ty(&mut l);
                let v = self.parse_val(&mut l, ty, regs);
                Inst::AtomicRmw { d: dr, op: Rc::from(o), p, v, ty }
            }
            "cmpxchg" => {
                while matches!(l.cur, T::W("weak" | "volatile")) { l.adv(); }
                let pt = self.parse_ty(&mut l);
                let p = self.parse_val(&mut l, pt, regs);
                l.exp_p(',');
                let ty = self.parse_ty(&mut l);
                let c = self.parse_val(&mut l, ty, regs);
                l.exp_p(',');
                let _ = self.parse_ty(&mut l);
                let n = self.parse_val(&mut l, ty, regs);
                Inst::CmpXchg { d: dr, p, c, n, ty }
            }
            _ => panic!("unsupported instruction: {}", s),
        };
        blk.insts.push(inst);
        blk.dbg.push(dbg);
        if let Some(t) = extra_br { blk.insts.push(Inst::Br { t }); blk.dbg.push(dbg); }
    }

    /// source location chain (file, line, function) of a debug location, innermost first
    pub fn loc(&self, dbg: u32) -> Vec<(String, u32, String)> {
        let mut out = vec![];
        let mut d = dbg;
        while d != 0 {
            let s = match self.meta.get(&d) { Some((a, b)) => &self.text[*a..*b], None => break };
            if !s.contains("!DILocation(") { break; }
            let line = field_num(s, "line: ");
            let mut sc = field_num(s, "scope: !");
            let d2 = field_num(s, "inlinedAt: !");
            let mut file = 0;
            let mut name = String::new();
            for _ in 0..100 {
                let s = match self.meta.get(&sc) { Some((a, b)) => &self.text[*a..*b], None => break };
                if file == 0 { file = field_num(s, "file: !"); }
                if s.contains("!DISubprogram(") { name = field_str(s, "linkageName: \""); if name.is_empty() { name = field_str(s, "name: \""); } break; }
                sc = field_num(s, "scope: !");
                if sc == 0 { break; }
            }
            let f = match self.meta.get(&file) { Some((a, b)) => { let s = &self.text[*a..*b]; let n = field_str(s, "filename: \""); if n.starts_with('/') { n } else { format!("{}/{}", field_str(s, "directory: \""), n) } } None => String::from("?") };
            out.push((f, line, name));
            d = d2;
        }
        out
    }
}

fn field_num(s: &str, k: &str) -> u32 {
    match s.find(k) { Some(p) => { let r = &s[p + k.len()..]; let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len()); r[..e].parse().unwrap_or(0) } None => 0 }
}
fn field_str(s: &str, k: &str) -> String {
    match s.find(k) { Some(p) => { let r = &s[p + k.len()..]; let e = r.find('"').unwrap_or(r.len()); r[..e].to_string() } None => String::new() }
}

pub fn sext(v: u64, w: u32) -> u64 { if w >= 64 { v } else { (((v << (64 - w)) as i64) >> (64 - w)) as u64 } }

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "double" | "float" | "label" | "token") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn skip_fmf(l: &mut Lex) { while matches!(l.cur, T::W("fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc")) { l.adv(); } }
fn skip_attrs(l: &mut Lex) {
    loop {
        match l.cur {
            T::W("align") => { l.adv(); if l.is_p('(') { l.skip_parens(); } else { l.adv(); } }
            T::W("true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "sub" | "add" | "xor") => break,
            T::W(_) => { l.adv(); if l.is_p('(') { l.skip_parens(); } }
            T::Str(_) => { l.adv(); if l.eat_p('=') { l.adv(); } }
            _ => break,
        }
    }
}
fn fname(s: &str) -> &str {
    let p = s.find('@').unwrap() + 1;
    let r = &s[p..];
    if r.starts_with('"') { let e = r[1..].find('"').unwrap(); &r[1..1 + e] } else { let e = r.find('(').unwrap(); &r[..e] }
}
fn find_meta(s: &str, k: &str) -> u32 { field_num(s, k) }
fn find_attr(s: &str) -> Option<u32> {
    let p = s.rfind(')')?;
    let r = &s[p..];
    let q = r.find(" #")?;
    let r = &r[q + 2..];
    let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
    r[..e].parse().ok()
}

fn post_dominators(nb: usize, succs: &[Vec<u32>], preds: &[Vec<u32>], blocks: &[Block], alive: &[bool]) -> Vec<u32> {
    // Cooper-Harvey-Kennedy on the reverse graph restricted to alive blocks; exit = nb
    let exit = nb;
    let mut order = vec![]; // post-order of the reverse graph from exit
    let mut seen = vec![false; nb + 1];
    let rets: Vec<usize> = (0..nb).filter(|b| alive[*b] && matches!(blocks[*b].insts.last(), Some(Inst::Ret { .. }))).collect();
    let rsucc = |b: usize| -> Vec<usize> { if b == exit { rets.clone() } else { preds[b].iter().map(|p| *p as usize).filter(|p| alive[*p]).collect() } };
    let mut st: Vec<(usize, Vec<usize>, usize)> = vec![(exit, rsucc(exit), 0)];
    seen[exit] = true;
    while let Some((b, sc, i)) = st.last_mut() {
        if *i < sc.len() {
            let n = sc[*i];
            *i += 1;
            if !seen[n] { seen[n] = true; let r = rsucc(n); st.push((n, r, 0)); }
        } else { order.push(*b); st.pop(); }
    }
    let mut num = vec![usize::MAX; nb + 1];
    for (i, b) in order.iter().enumerate() { num[*b] = i; }
    let mut idom = vec![usize::MAX; nb + 1];
    idom[exit] = exit;
    let mut changed = true;
    while changed {
        changed = false;
        for b in order.iter().rev() {
            if *b == exit { continue; }
            let mut ns: Vec<usize> = succs[*b].iter().map(|s| *s as usize).filter(|s| alive[*s]).collect();
            if matches!(blocks[*b].insts.last(), Some(Inst::Ret { .. })) { ns.push(exit); }
            let mut new = usize::MAX;
            for s in ns {
                if idom[s] == usize::MAX { continue; }
                if new == usize::MAX { new = s; } else {
                    let (mut x, mut y) = (new, s);
                    while x != y {
                        while num[x] < num[y] { x = idom[x]; }
                        while num[y] < num[x] { y = idom[y]; }
                    }
                    new = x;
                }
            }
            if new != usize::MAX && idom[*b] != new { idom[*b] = new; changed = true; }
        }
    }
    (0..nb).map(|b| if idom[b] == usize::MAX || idom[b] == exit { u32::MAX } else { idom[b] as u32 }).collect()
}

pub fn inst_uses(i: &Inst, f: &mut dyn FnMut(&Op)) {
    match i {
        Inst::Bin { a, b, .. } | Inst::FBin { a, b, .. } | Inst::Icmp { a, b, .. } | Inst::Fcmp { a, b, .. } | Inst::Shuffle { a, b, .. } => { f(a); f(b); }
        Inst::FNeg { a, .. } | Inst::Cast { a, .. } | Inst::ExtractValue { a, .. } | Inst::Freeze { a, .. } => f(a),
        Inst::Select { c, a, b, .. } => { f(c); f(a); f(b); }
        Inst::Gep { base, idx, .. } => { f(base); for (o, _, _) in idx { f(o); } }
        Inst::Load { p, .. } => f(p),
        Inst::Store { v, p, .. } => { f(v); f(p); }
        Inst::Call { f: c, args, .. } => { if let Callee::Ind(o) = c { f(o); } for (_, a) in args { f(a); } }
        Inst::CondBr { c, .. } | Inst::Switch { c, .. } => f(c),
        Inst::Ret { v: Some(v), .. } => f(v),
        Inst::InsertValue { a, v, .. } => { f(a); f(v); }
        Inst::ExtractElem { a, i, .. } => { f(a); f(i); }
        Inst::InsertElem { a, v, i, .. } => { f(a); f(v); f(i); }
        Inst::AtomicRmw { p, v, .. } => { f(p); f(v); }
        Inst::CmpXchg { p, c, n, .. } => { f(p); f(c); f(n); }
        _ => {}
    }
}
pub fn inst_def(i: &Inst) -> Option<u32> {
    match i {
        Inst::Bin { d, .. } | Inst::FBin { d, .. } | Inst::FNeg { d, .. } | Inst::Icmp { d, .. } | Inst::Fcmp { d, .. } | Inst::Cast { d, .. } | Inst::Select { d, .. } | Inst::Gep { d, .. }
        | Inst::Load { d, .. } | Inst::Alloca { d, .. } | Inst::ExtractValue { d, .. } | Inst::InsertValue { d, .. } | Inst::ExtractElem { d, .. } | Inst::InsertElem { d, .. }
        | Inst::Shuffle { d, .. } | Inst::Freeze { d, .. } | Inst::AtomicRmw { d, .. } | Inst::CmpXchg { d, .. } => Some(*d),
        Inst::Call { d, .. } => *d,
        _ => None,
    }
}

fn liveness(nb: usize, nregs: u32, blocks: &[Block], succs: &[Vec<u32>]) -> Vec<Vec<u64>> {
    let w = (nregs as usize + 63) / 64;
    // live-in *after* phis; uses of phis count as live-out of the predecessor
    let mut gen = vec![vec![0u64; w]; nb];
    let mut def = vec![vec![0u64; w]; nb];
    for (bi, b) in blocks.iter().enumerate() {
        for i in &b.insts {
            inst_uses(i, &mut |o| if let Op::R(r) = o { let (x, y) = (*r as usize / 64, *r % 64); if def[bi][x] >> y & 1 == 0 { gen[bi][x] |= 1 << y; } });
            if let Some(d) = inst_def(i) { if d != u32::MAX { def[bi][d as usize / 64] |= 1 << (d % 64); } }
        }
    }
    let mut live = gen.clone();
    let mut changed = true;
    while changed {
        changed = false;
        for b in (0..nb).rev() {
            let mut out = vec![0u64; w];
            for s in &succs[b] {
                let s = *s as usize;
                let mut li = live[s].clone();
                for (d, _, _) in &blocks[s].phis { li[*d as usize / 64] &= !(1 << (d % 64)); }
                for (_, _, inc) in &blocks[s].phis { for (p, v) in inc { if *p as usize == b { if let Op::R(r) = v { li[*r as usize / 64] |= 1 << (r % 64); } } } }
                for k in 0..w { out[k] |= li[k]; }
            }
            for k in 0..w {
                let n = gen[b][k] | (out[k] & !def[b][k]);
                if n | live[b][k] != live[b][k] { live[b][k] |= n; changed = true; }
            }
        }
    }
    live
}
