//! Symbolic values: and/xor graph over boolean variables, lookup-table values, linear sums,
//! floating point terms; and the solver connection.
use crate::ir::{mask, sext, BinOp, CastOp, FOp, FPred, Pred};
use crate::z3::{Z3, P};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Instant;

pub type Lit = u32;
pub const FALSE: Lit = 0;
pub const TRUE: Lit = 1;
pub const TABMAX: usize = 16;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    W(Rc<u128>),
    S(Rc<Sym>),
    A(Rc<Vec<V>>),
}
impl V {
    #[inline]
    pub fn c(&self) -> u64 {
        match self { V::C(c) => *c, V::W(w) => **w as u64, _ => panic!("concrete value expected, got {:?}", self) }
    }
    #[inline]
    pub fn is_c(&self) -> bool { matches!(self, V::C(_)) }
    pub fn is_sym(&self) -> bool { match self { V::S(_) => true, V::A(a) => a.iter().any(|x| x.is_sym()), _ => false } }
    pub fn bool(b: bool) -> V { V::C(b as u64) }
}

#[derive(Debug)]
pub struct Sym {
    pub w: u32,
    pub k: K,
    pub bits: RefCell<Option<Rc<Vec<Lit>>>>,
}
#[derive(Debug)]
pub enum K {
    Bits,
    Tab(Rc<Vec<u32>>, Vec<u64>),
    Lin(Lin),
    Fp(u32),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Lin {
    pub c: u64,
    pub terms: Vec<(u32, u64)>,
    pub max: u64, // u64::MAX: may wrap
}

#[derive(Clone, Debug)]
pub enum Node {
    False,
    Var(u32),
    And(Lit, Lit),
    Xor(Lit, Lit),
    NXor(Rc<Vec<u32>>),
    /// boolean function of other nodes given by its truth table (value 0 at index 0)
    Fn(Rc<Vec<u32>>, Rc<Vec<u64>>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum FpN {
    Const(u64),
    FromU(u32, Lin), // width of the float, integer as linear form
    FromBits(u32, u32), // width, vec id
    Bin(u8, u32, u32),
    Neg(u32),
    Conv(u32, u32),
    FromTab(u32, u32), // width, vec id of the 64 result bits
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Theory { Lt(u32, u32), Le(u32, u32), Eq(u32, u32), BitsEq(u32, u32), Nan(u32) }

pub struct Model {
    pub vals: HashMap<u32, bool>,
    pub memo: RefCell<Vec<u8>>,
}
impl Model { pub fn empty() -> Rc<Model> { Rc::new(Model { vals: HashMap::new(), memo: RefCell::new(vec![]) }) } }

pub enum Res { Sat(Rc<Model>), Unsat, Unknown(String) }

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_s: f64,
    pub max_query_s: f64,
    pub folded: u64,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    and_map: HashMap<(Lit, Lit), u32>,
    xor_map: HashMap<(Lit, Lit), u32>,
    nxor_map: HashMap<Rc<Vec<u32>>, u32>,
    norm_memo: Vec<Lit>,
    pub nvars: u32,
    pub var_node: Vec<u32>,
    fn_memo: HashMap<(Rc<Vec<u32>>, Rc<Vec<u64>>), Lit>,
    pub vecs: Vec<Rc<Vec<Lit>>>,
    vec_map: HashMap<Rc<Vec<Lit>>, u32>,
    lin_memo: HashMap<(u32, Lin), Rc<Vec<Lit>>>,
    cmp_memo: HashMap<(Vec<(u32, i128)>, i128), Lit>,
    pub fps: Vec<(u32, FpN)>, // width, node
    fp_map: HashMap<(u32, FpN), u32>,
    pub theory: HashMap<u32, Theory>, // var -> meaning
    theory_map: HashMap<Theory, u32>,
    z: Option<Z3>,
    emitted: Vec<P>,
    emitted_vars: Vec<(u32, P)>,
    fp_emitted: HashMap<u32, P>,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub seed: u32,
    pub tab_limit: usize,
    pub support_tab: bool,
    sup_memo: HashMap<u32, Option<Rc<Vec<u32>>>>,
    full_memo: HashMap<u32, Rc<Vec<u32>>>,
    reduce_memo: HashMap<Vec<u32>, Rc<Vec<u32>>>,
    fn_nodes: HashMap<(Rc<Vec<u32>>, Rc<Vec<u64>>), u32>,
    tt_memo: HashMap<(u32, Rc<Vec<u32>>), Rc<Vec<u64>>>,
    pub xcheck: bool,
    slow: f64,
    z_nodes: usize,
    input_vars: HashMap<(usize, usize, u32), Lit>,
    /// nodes that came out of a table: base nodes and truth table
    fn_def: HashMap<u32, Vec<(Rc<Vec<u32>>, Rc<Vec<u64>>)>>,
}

fn neg(l: Lit) -> Lit { l ^ 1 }
fn node(l: Lit) -> u32 { l >> 1 }

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            nodes: vec![Node::False], and_map: HashMap::new(), xor_map: HashMap::new(), nxor_map: HashMap::new(), norm_memo: vec![0], nvars: 0, var_node: vec![],
            fn_memo: HashMap::new(), vecs: vec![], vec_map: HashMap::new(), lin_memo: HashMap::new(), cmp_memo: HashMap::new(), fps: vec![], fp_map: HashMap::new(), theory: HashMap::new(), theory_map: HashMap::new(),
            z: None, emitted: vec![], emitted_vars: vec![], fp_emitted: HashMap::new(), stats: Stats::default(), timeout_ms: 600_000, seed: 0, tab_limit: TABMAX, support_tab: false, sup_memo: HashMap::new(), full_memo: HashMap::new(), reduce_memo: HashMap::new(), fn_nodes: HashMap::new(), tt_memo: HashMap::new(), xcheck: false, slow: 0.0, z_nodes: 0, input_vars: HashMap::new(), fn_def: HashMap::new(),
        }
    }
    // ---------- graph ----------
    fn push(&mut self, n: Node) -> u32 {
        self.nodes.push(n);
        self.norm_memo.push(u32::MAX);
        (self.nodes.len() - 1) as u32
    }
    pub fn new_var(&mut self) -> Lit {
        let v = self.nvars;
        self.nvars += 1;
        let n = self.push(Node::Var(v));
        self.var_node.push(n);
        self.norm_memo[n as usize] = n << 1;
        n << 1
    }
    /// variable for a bit of the k-th input of a path; paths share them
    pub fn input_var(&mut self, k: usize, i: usize, bit: u32) -> Lit {
        if let Some(l) = self.input_vars.get(&(k, i, bit)) { return *l; }
        let l = self.new_var();
        self.input_vars.insert((k, i, bit), l);
        l
    }
    pub fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        let s = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        if a == b { return s; }
        if a == 0 { return b | s; }
        if b == 0 { return a | s; }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(n) = self.xor_map.get(&k) { return (n << 1) | s; }
        let n = self.push(Node::Xor(k.0, k.1));
        self.xor_map.insert(k, n);
        (n << 1) | s
    }
    /// canonical literal of an xor expression (flattened, sorted, cancelled)
    pub fn norm(&mut self, l: Lit) -> Lit {
        let n = node(l) as usize;
        let m = self.norm_memo[n];
        if m != u32::MAX { return m ^ (l & 1); }
        let r = match &self.nodes[n] {
            Node::Xor(..) => {
                let mut heap: std::collections::BTreeSet<u32> = Default::default();
                let mut leaves: std::collections::HashSet<u32> = Default::default();
                let mut sign = 0u32;
                heap.insert(n as u32);
                fn toggle<S>(set: &mut std::collections::BTreeSet<u32>, x: u32, _: S) { if !set.remove(&x) { set.insert(x); } }
                while let Some(x) = heap.pop_last() {
                    let m = self.norm_memo[x as usize];
                    let (x2, s) = if m != u32::MAX { (node(m), m & 1) } else { (x, 0) };
                    sign ^= s;
                    match &self.nodes[x2 as usize] {
                        Node::False => {}
                        Node::Xor(a, b) => { toggle(&mut heap, node(*a), 0); toggle(&mut heap, node(*b), 0); sign ^= (a ^ b) & 1; }
                        Node::NXor(v) => { for y in v.iter() { if !leaves.remove(y) { leaves.insert(*y); } } }
                        _ => { if !leaves.remove(&x2) { leaves.insert(x2); } }
                    }
                }
                let mut v: Vec<u32> = leaves.into_iter().collect();
                v.sort_unstable();
                self.nxor(v) ^ sign
            }
            _ => (n as u32) << 1,
        };
        self.norm_memo[n] = r;
        r ^ (l & 1)
    }
    fn nxor(&mut self, v: Vec<u32>) -> Lit {
        match v.len() {
            0 => FALSE,
            1 => v[0] << 1,
            _ => {
                let v = Rc::new(v);
                if let Some(n) = self.nxor_map.get(&v) { return n << 1; }
                let n = self.push(Node::NXor(v.clone()));
                self.nxor_map.insert(v, n);
                self.norm_memo[n as usize] = n << 1;
                n << 1
            }
        }
    }
    pub fn and(&mut self, a: Lit, b: Lit) -> Lit {
        if a == 0 || b == 0 { return 0; }
        if a == 1 { return b; }
        if b == 1 { return a; }
        let a = self.norm(a);
        let b = self.norm(b);
        if a == b { return a; }
        if a == neg(b) || a == 0 || b == 0 { return 0; }
        if a == 1 { return b; }
        if b == 1 { return a; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if let Some(n) = self.and_map.get(&(a, b)) { return n << 1; }
        // one level absorption
        for (x, y) in [(a, b), (b, a)] {
            if let Node::And(p, q) = self.nodes[node(y) as usize] {
                if y & 1 == 0 {
                    if x == p || x == q { return y; }
                    if x == neg(p) || x == neg(q) { return 0; }
                } else {
                    if x == neg(p) || x == neg(q) { return x; }
                    if x == p { return self.and(x, neg(q)); }
                    if x == q { return self.and(x, neg(p)); }
                }
            }
        }
        let n = self.push(Node::And(a, b));
        self.norm_memo[n as usize] = n << 1;
        self.and_map.insert((a, b), n);
        n << 1
    }
    pub fn or(&mut self, a: Lit, b: Lit) -> Lit { neg(self.and(neg(a), neg(b))) }
    fn is_xor(&self, l: Lit) -> bool { matches!(self.nodes[node(l) as usize], Node::NXor(_) | Node::Xor(..)) }
    pub fn mux(&mut self, c: Lit, a: Lit, b: Lit) -> Lit {
        if c == TRUE { return a; }
        if c == FALSE { return b; }
        if a == b { return a; }
        if a == TRUE { return self.or(c, b); }
        if b == TRUE { return self.or(neg(c), a); }
        if a == FALSE && !self.is_xor(b) { return self.and(neg(c), b); }
        let x = self.xor(a, b);
        let y = self.and(c, x);
        self.xor(b, y)
    }
    pub fn and_all(&mut self, v: &[Lit]) -> Lit {
        let mut r = TRUE;
        for l in v { r = self.and(r, *l); if r == FALSE { break; } }
        r
    }
    /// variables a literal depends on (None: more than the limit)
    fn support(&mut self, n: u32) -> Option<Rc<Vec<u32>>> {
        if let Some(s) = self.sup_memo.get(&n) { return s.clone(); }
        // iterative post-order
        let mut st = vec![n];
        while let Some(&x) = st.last() {
            if self.sup_memo.contains_key(&x) { st.pop(); continue; }
            let kids: Vec<u32> = match &self.nodes[x as usize] {
                Node::False | Node::Var(_) => vec![],
                Node::And(a, b) | Node::Xor(a, b) => vec![node(*a), node(*b)],
                Node::NXor(v) => v.to_vec(),
                Node::Fn(b, _) => b.to_vec(),
            };
            let mut ready = true;
            for k in &kids { if !self.sup_memo.contains_key(k) { st.push(*k); ready = false; } }
            if !ready { continue; }
            st.pop();
            let r = if let Node::Var(v) = &self.nodes[x as usize] {
                if self.theory.contains_key(v) { None } else { Some(Rc::new(vec![x])) }
            } else {
                let mut s: std::collections::BTreeSet<u32> = Default::default();
                let mut ok = true;
                for k in kids { match &self.sup_memo[&k] { Some(v) => s.extend(v.iter()), None => ok = false } if s.len() > TABMAX { ok = false; } if !ok { break; } }
                if ok { Some(Rc::new(s.into_iter().collect::<Vec<_>>())) } else { None }
            };
            self.sup_memo.insert(x, r);
        }
        self.sup_memo[&n].clone()
    }

    /// variables a set of literals depends on
    pub fn vars_of<'a>(&mut self, ls: impl Iterator<Item = &'a Lit>) -> Vec<u32> {
        let mut s: std::collections::BTreeSet<u32> = Default::default();
        let v: Vec<Lit> = ls.copied().collect();
        for l in v { let x = self.full_support(node(l)); s.extend(x.iter().copied()); }
        s.into_iter().collect()
    }
    fn full_support(&mut self, n: u32) -> Rc<Vec<u32>> {
        if let Some(s) = self.full_memo.get(&n) { return s.clone(); }
        let mut seen: std::collections::HashSet<u32> = Default::default();
        let mut out = vec![];
        let mut st = vec![n];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            match &self.nodes[x as usize] {
                Node::False => {}
                Node::Var(v) => out.push(*v),
                Node::And(a, b) | Node::Xor(a, b) => { st.push(node(*a)); st.push(node(*b)); }
                Node::NXor(v) => st.extend(v.iter().copied()),
                Node::Fn(b, _) => st.extend(b.iter().copied()),
            }
        }
        out.sort_unstable();
        let r = Rc::new(out);
        self.full_memo.insert(n, r.clone());
        r
    }
    /// literals of the path condition connected to the query through shared variables
    pub fn slice(&mut self, pc: &[Lit], extra: &[Lit]) -> Vec<Lit> {
        if !self.theory.is_empty() { return pc.to_vec(); }
        let sup: Vec<Rc<Vec<u32>>> = pc.iter().map(|l| self.full_support(node(*l))).collect();
        let mut rel: std::collections::HashSet<u32> = self.vars_of(extra.iter()).into_iter().collect();
        let mut taken = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if taken[i] || !sup[i].iter().any(|v| rel.contains(v)) { continue; }
                taken[i] = true;
                ch = true;
                rel.extend(sup[i].iter().copied());
            }
            if !ch { break; }
        }
        (0..pc.len()).filter(|i| taken[*i]).map(|i| pc[i]).collect()
    }

    // ---------- constructors ----------
    pub fn mk_bits(&mut self, mut v: Vec<Lit>) -> V {
        let w = v.len() as u32;
        for l in v.iter_mut() {
            // cheap local normal form of short xors keeps constants visible
            if *l > 1 { if self.norm_memo[node(*l) as usize] != u32::MAX { *l = self.norm(*l); } }
        }
        if w <= 64 && v.iter().all(|l| *l <= 1) {
            let mut c = 0u64;
            for (i, l) in v.iter().enumerate() { c |= (*l as u64) << i; }
            return V::C(c);
        }
        V::S(Rc::new(Sym { w, k: K::Bits, bits: RefCell::new(Some(Rc::new(v))) }))
    }
    pub fn mk_tab(&mut self, w: u32, base: Rc<Vec<u32>>, mut t: Vec<u64>) -> V {
        debug_assert_eq!(t.len(), 1 << base.len());
        let f = t[0];
        if t.iter().all(|x| *x == f) { return V::C(f); }
        // drop base literals the table does not depend on
        let mut base = base;
        let mut j = 0;
        while j < base.len() {
            let s = 1usize << j;
            let mut dep = false;
            'o: for blk in (0..t.len()).step_by(2 * s) { for i in blk..blk + s { if t[i] != t[i + s] { dep = true; break 'o; } } }
            if dep { j += 1; continue; }
            let mut n = Vec::with_capacity(t.len() / 2);
            for blk in (0..t.len()).step_by(2 * s) { n.extend_from_slice(&t[blk..blk + s]); }
            t = n;
            let mut b = (*base).clone();
            b.remove(j);
            base = Rc::new(b);
        }
        V::S(Rc::new(Sym { w, k: K::Tab(base, t), bits: RefCell::new(None) }))
    }
    pub fn lit_v(&mut self, l: Lit) -> V { if l <= 1 { V::C(l as u64) } else { self.mk_bits(vec![l]) } }

    pub fn bits_of(&mut self, v: &V, w: u32) -> Rc<Vec<Lit>> {
        match v {
            V::C(c) => Rc::new((0..w).map(|i| (c >> i & 1) as Lit).collect()),
            V::W(c) => Rc::new((0..w).map(|i| (**c >> i & 1) as Lit).collect()),
            V::S(s) => self.sym_bits(s),
            V::A(_) => panic!("bits of aggregate"),
        }
    }
    pub fn sym_bits(&mut self, s: &Rc<Sym>) -> Rc<Vec<Lit>> {
        if let Some(b) = &*s.bits.borrow() { return b.clone(); }
        let r = match &s.k {
            K::Bits => unreachable!(),
            K::Tab(base, t) => {
                let mut out = Vec::with_capacity(s.w as usize);
                for j in 0..s.w {
                    let n = t.len();
                    let mut tt = vec![0u64; (n + 63) / 64];
                    for i in 0..n { tt[i >> 6] |= (t[i] >> j & 1) << (i & 63); }
                    let l = self.build_fn(base, tt.clone(), base.len());
                    if l > 1 && !base.contains(&node(l)) && self.fn_def.get(&node(l)).map_or(true, |v| v.len() < 8 && v.iter().all(|d| d.0 != *base)) {
                        if l & 1 == 1 { for x in tt.iter_mut() { *x = !*x; } }
                        self.fn_def.entry(node(l)).or_default().push((base.clone(), Rc::new(tt)));
                    }
                    out.push(l);
                }
                Rc::new(out)
            }
            K::Lin(l) => self.lin_bits(l, s.w),
            K::Fp(f) => {
                // expose the bits of a floating point term: fresh variables constrained by theory equality
                let f = *f;
                Rc::new(self.fp_bits(f))
            }
        };
        *s.bits.borrow_mut() = Some(r.clone());
        r
    }
    fn fp_bits(&mut self, f: u32) -> Vec<Lit> {
        match self.fps[f as usize].1.clone() {
            FpN::FromBits(_, v) | FpN::FromTab(_, v) => (*self.vecs[v as usize]).clone(),
            _ => panic!("UNSUPPORTED: raw bits of a symbolic floating point term"),
        }
    }
    /// literal of the boolean function given by truth table `tt` over base[0..n]
    fn build_fn(&mut self, base: &Rc<Vec<u32>>, tt: Vec<u64>, n: usize) -> Lit {
        let size = 1usize << n;
        let bit = |t: &Vec<u64>, i: usize| t[i >> 6] >> (i & 63) & 1;
        // constant?
        let first = bit(&tt, 0);
        let m = if size >= 64 { u64::MAX } else { (1u64 << size) - 1 };
        if tt.iter().all(|w| w & m == if first == 1 { m } else { 0 }) { return first as Lit; }
        let key_base = if n == base.len() { base.clone() } else { Rc::new(base[..n].to_vec()) };
        let tt = Rc::new(tt);
        if let Some(l) = self.fn_memo.get(&(key_base.clone(), tt.clone())) { return *l; }
        // algebraic normal form
        let mut a: Vec<u64> = (*tt).clone();
        const MS: [u64; 6] = [0x5555555555555555, 0x3333333333333333, 0x0f0f0f0f0f0f0f0f, 0x00ff00ff00ff00ff, 0x0000ffff0000ffff, 0x00000000ffffffff];
        for j in 0..n.min(6) { for w in a.iter_mut() { *w ^= (*w & MS[j]) << (1 << j); } }
        for j in 6..n {
            let s = 1usize << (j - 6);
            for blk in (0..a.len()).step_by(2 * s) { for i in blk..blk + s { let x = a[i]; a[i + s] ^= x; } }
        }
        if size < 64 { a[0] &= m; }
        let cnt: u32 = a.iter().map(|w| w.count_ones()).sum();
        let r = if cnt <= 72 {
            let mut r = FALSE;
            for (wi, w) in a.iter().enumerate() {
                let mut w = *w;
                while w != 0 {
                    let i = wi * 64 + w.trailing_zeros() as usize;
                    w &= w - 1;
                    let mut t = TRUE;
                    for j in 0..n { if i >> j & 1 == 1 { t = self.and(t, base[j] << 1); } }
                    r = self.xor(r, t);
                }
            }
            self.norm(r)
        } else if n > 6 {
            let neg1 = first == 1;
            let t: Vec<u64> = if neg1 { tt.iter().map(|w| !w).collect() } else { (*tt).clone() };
            // keep only what it depends on
            let (b, t) = Self::shrink(&key_base, t);
            let (b, t) = (Rc::new(b), Rc::new(t));
            let k = (b.clone(), t.clone());
            let l = match self.fn_nodes.get(&k) {
                Some(x) => x << 1,
                None => {
                    let x = self.push(Node::Fn(b, t));
                    self.norm_memo[x as usize] = x << 1;
                    self.fn_nodes.insert(k, x);
                    x << 1
                }
            };
            l ^ neg1 as u32
        } else {
            // Shannon expansion on the highest variable
            let (lo, hi) = if size <= 64 {
                let h = size / 2;
                let mm = (1u64 << h) - 1;
                (vec![tt[0] & mm], vec![tt[0] >> h & mm])
            } else { let h = tt.len() / 2; (tt[..h].to_vec(), tt[h..].to_vec()) };
            let l = self.build_fn(base, lo, n - 1);
            let h = self.build_fn(base, hi, n - 1);
            let x = self.mux(base[n - 1] << 1, h, l);
            self.norm(x)
        };
        self.fn_memo.insert((key_base, tt), r);
        r
    }

    /// drop base nodes a truth table does not depend on
    fn shrink(base: &[u32], mut t: Vec<u64>) -> (Vec<u32>, Vec<u64>) {
        let mut b = base.to_vec();
        let get = |t: &Vec<u64>, i: usize| t[i >> 6] >> (i & 63) & 1;
        let mut j = 0;
        while j < b.len() {
            let size = 1usize << b.len();
            let s = 1usize << j;
            if (0..size).any(|i| i & s == 0 && get(&t, i) != get(&t, i | s)) { j += 1; continue; }
            let mut o = vec![0u64; (size / 2 + 63) / 64];
            let mut k = 0;
            for i in 0..size { if i & s == 0 { o[k >> 6] |= get(&t, i) << (k & 63); k += 1; } }
            t = o;
            b.remove(j);
        }
        (b, t)
    }

    // ---------- tables ----------
    fn norm_bits(&mut self, b: &Rc<Vec<Lit>>) -> Rc<Vec<Lit>> {
        if b.iter().all(|l| *l <= 1 || self.norm_memo[node(*l) as usize] == *l & !1) { return b.clone(); }
        Rc::new(b.iter().map(|l| if *l <= 1 { *l } else { self.norm(*l) }).collect())
    }
    /// base nodes a value would need as a table
    fn tab_base(&mut self, v: &V) -> Option<Vec<u32>> {
        match v {
            V::C(_) => Some(vec![]),
            V::S(s) => match &s.k {
                K::Tab(b, _) => Some((**b).clone()),
                K::Bits => {
                    let b = s.bits.borrow().clone().unwrap();
                    let nb = self.norm_bits(&b);
                    if !Rc::ptr_eq(&nb, &b) { *s.bits.borrow_mut() = Some(nb.clone()); }
                    let mut o: Vec<u32> = nb.iter().filter(|l| **l > 1).map(|l| node(*l)).collect();
                    o.sort_unstable();
                    o.dedup();
                    if o.len() <= TABMAX { Some(o) } else { None }
                }
                K::Lin(l) => {
                    let mut o = vec![];
                    for (id, _) in &l.terms { for x in self.vecs[*id as usize].iter() { if *x > 1 { o.push(node(*x)); } } }
                    o.sort_unstable();
                    o.dedup();
                    if o.len() <= TABMAX { Some(o) } else { None }
                }
                K::Fp(_) => None,
            },
            _ => None,
        }
    }
    fn sup_base(&mut self, base: &[u32]) -> Option<Vec<u32>> {
        let mut s: std::collections::BTreeSet<u32> = Default::default();
        for n in base { match self.support(*n) { Some(v) => s.extend(v.iter()), None => return None } if s.len() > self.tab_limit { return None; } }
        Some(s.into_iter().collect())
    }
    /// truth table of node n over the given variable nodes
    fn eval_over(&mut self, nodes: &[u32], vars: &[u32]) -> Vec<Vec<u64>> {
        let n = vars.len();
        let words = ((1usize << n) + 63) / 64;
        let mut memo: HashMap<u32, Rc<Vec<u64>>> = HashMap::new();
        for (j, v) in vars.iter().enumerate() {
            let mut t = vec![0u64; words];
            for i in 0..1usize << n { t[i >> 6] |= ((i >> j & 1) as u64) << (i & 63); }
            memo.insert(*v, Rc::new(t));
        }
        memo.insert(0, Rc::new(vec![0u64; words]));
        let mut out = vec![];
        for r in nodes {
            let mut st = vec![*r];
            while let Some(&x) = st.last() {
                if memo.contains_key(&x) { st.pop(); continue; }
                let kids: Vec<Lit> = match &self.nodes[x as usize] {
                    Node::And(a, b) | Node::Xor(a, b) => vec![*a, *b],
                    Node::NXor(v) => v.iter().map(|y| y << 1).collect(),
                    Node::Fn(b, _) => b.iter().map(|y| y << 1).collect(),
                    _ => panic!("eval_over leaf"),
                };
                let mut ready = true;
                for k in &kids { if !memo.contains_key(&node(*k)) { st.push(node(*k)); ready = false; } }
                if !ready { continue; }
                st.pop();
                if let Node::Fn(_, t) = &self.nodes[x as usize] {
                    let ks: Vec<Rc<Vec<u64>>> = kids.iter().map(|k| memo[&node(*k)].clone()).collect();
                    let mut acc = vec![0u64; words];
                    for i in 0..1usize << n {
                        let mut k = 0;
                        for (j, c) in ks.iter().enumerate() { k |= ((c[i >> 6] >> (i & 63) & 1) as usize) << j; }
                        acc[i >> 6] |= (t[k >> 6] >> (k & 63) & 1) << (i & 63);
                    }
                    memo.insert(x, Rc::new(acc));
                    continue;
                }
                let is_and = matches!(self.nodes[x as usize], Node::And(..));
                let mut acc: Vec<u64> = vec![if is_and { u64::MAX } else { 0 }; words];
                for k in &kids {
                    let t = memo[&node(*k)].clone();
                    let s = if k & 1 == 1 { u64::MAX } else { 0 };
                    if is_and { for i in 0..words { acc[i] &= t[i] ^ s; } } else { for i in 0..words { acc[i] ^= t[i] ^ s; } }
                }
                memo.insert(x, Rc::new(acc));
            }
            out.push((*memo[r]).clone());
        }
        out
    }
    /// table of v over `base` (sorted superset of its own base)
    fn tab_over(&mut self, v: &V, base: &Rc<Vec<u32>>, w: u32) -> Vec<u64> {
        let n = base.len();
        let size = 1usize << n;
        match v {
            V::C(c) => vec![*c; size],
            V::S(s) => match &s.k {
                K::Tab(b, t) => {
                    if b == base { return t.clone(); }
                    if b.iter().any(|x| base.binary_search(x).is_err()) {
                        // base given in variables: expand nodes
                        let tts: Vec<Vec<u64>> = b.iter().map(|x| self.node_table(*x, base)).collect();
                        return (0..size).map(|i| { let mut k = 0; for (j, tt) in tts.iter().enumerate() { k |= ((tt[i >> 6] >> (i & 63) & 1) as usize) << j; } t[k] }).collect();
                    }
                    let pos: Vec<usize> = b.iter().map(|x| base.binary_search(x).unwrap()).collect();
                    let mut idx = vec![0u32; size];
                    for j in 0..n {
                        let add = pos.iter().position(|p| *p == j).map_or(0, |k| 1u32 << k);
                        let s = 1usize << j;
                        for i in 0..s { idx[s + i] = idx[i] + add; }
                    }
                    idx.into_iter().map(|i| t[i as usize]).collect()
                }
                K::Bits => {
                    let bits = s.bits.borrow().clone().unwrap();
                    let bits = self.norm_bits(&bits);
                    self.bits_table(&bits, base)
                }
                K::Lin(l) => {
                    let mut out = vec![l.c & mask(w); size];
                    for (id, c) in l.terms.clone() {
                        let b = self.vecs[id as usize].clone();
                        let t = self.bits_table(&b, base);
                        for i in 0..size { out[i] = out[i].wrapping_add(t[i].wrapping_mul(c)) & mask(w); }
                    }
                    out
                }
                K::Fp(_) => panic!(),
            },
            _ => panic!(),
        }
    }
    fn bits_table(&mut self, bits: &Rc<Vec<Lit>>, base: &Rc<Vec<u32>>) -> Vec<u64> {
        let size = 1usize << base.len();
        let mut out = vec![0u64; size];
        for (k, l) in bits.iter().enumerate() {
            if *l == TRUE { for o in out.iter_mut() { *o |= 1 << k; } }
            else if *l > 1 {
                match base.binary_search(&node(*l)) {
                    Ok(j) => for i in 0..size { out[i] |= (((i >> j) as u64 & 1) ^ (*l & 1) as u64) << k; },
                    Err(_) => {
                        let tt = self.node_table(node(*l), base);
                        for i in 0..size { out[i] |= ((tt[i >> 6] >> (i & 63) & 1) ^ (*l & 1) as u64) << k; }
                    }
                }
            }
        }
        out
    }
    /// truth table of node n over `base`, of which it is a function
    fn node_table(&mut self, n: u32, base: &Rc<Vec<u32>>) -> Vec<u64> {
        if let Some(t) = self.def_over(n, base) { return t; }
        let mut memo = HashMap::new();
        match self.try_table(n, base, &mut memo) { Some(t) => (*t).clone(), None => panic!("not a function of its base") }
    }
    /// by structure or by any known definition, recursively; None while in progress or impossible
    fn try_table(&mut self, n: u32, base: &Rc<Vec<u32>>, memo: &mut HashMap<u32, Option<Rc<Vec<u64>>>>) -> Option<Rc<Vec<u64>>> {
        if let Some(r) = memo.get(&n) { return r.clone(); }
        let size = 1usize << base.len();
        let words = (size + 63) / 64;
        if n == 0 { return Some(Rc::new(vec![0u64; words])); }
        if let Ok(j) = base.binary_search(&n) {
            let mut t = vec![0u64; words];
            for i in 0..size { t[i >> 6] |= ((i >> j & 1) as u64) << (i & 63); }
            let t = Rc::new(t);
            memo.insert(n, Some(t.clone()));
            return Some(t);
        }
        memo.insert(n, None);
        let apply = |ks: &[Rc<Vec<u64>>], t: &[u64]| {
            let mut acc = vec![0u64; words];
            for i in 0..size {
                let mut k = 0;
                for (j, c) in ks.iter().enumerate() { k |= ((c[i >> 6] >> (i & 63) & 1) as usize) << j; }
                acc[i >> 6] |= (t[k >> 6] >> (k & 63) & 1) << (i & 63);
            }
            acc
        };
        let mut res: Option<Vec<u64>> = None;
        let kids: Option<Vec<Lit>> = match &self.nodes[n as usize] {
            Node::And(a, b) | Node::Xor(a, b) => Some(vec![*a, *b]),
            Node::NXor(v) => Some(v.iter().map(|y| y << 1).collect()),
            Node::Fn(b, _) => Some(b.iter().map(|y| y << 1).collect()),
            _ => None,
        };
        if let Some(kids) = kids {
            let mut ks = vec![];
            for k in &kids { match self.try_table(node(*k), base, memo) { Some(t) => ks.push(t), None => break } }
            if ks.len() == kids.len() {
                res = Some(if let Node::Fn(_, t) = &self.nodes[n as usize] { apply(&ks, t) } else {
                    let is_and = matches!(self.nodes[n as usize], Node::And(..));
                    let mut acc: Vec<u64> = vec![if is_and { u64::MAX } else { 0 }; words];
                    for (k, t) in kids.iter().zip(&ks) {
                        let s = if k & 1 == 1 { u64::MAX } else { 0 };
                        if is_and { for i in 0..words { acc[i] &= t[i] ^ s; } } else { for i in 0..words { acc[i] ^= t[i] ^ s; } }
                    }
                    acc
                });
            }
        }
        if res.is_none() {
            let defs: Vec<_> = self.fn_def.get(&n).map_or(vec![], |v| v.iter().cloned().collect());
            for (b, t) in defs {
                let mut ks = vec![];
                for k in b.iter() { match self.try_table(*k, base, memo) { Some(t) => ks.push(t), None => break } }
                if ks.len() == b.len() { res = Some(apply(&ks, &t)); break; }
            }
        }
        let r = res.map(Rc::new);
        memo.insert(n, r.clone());
        r
    }
    /// truth table over `base` of a node known to be a function of some of it
    fn def_over(&mut self, n: u32, base: &Rc<Vec<u32>>) -> Option<Vec<u64>> {
        let (pos, t) = self.fn_def.get(&n)?.iter().find_map(|(b, t)| { let p: Option<Vec<usize>> = b.iter().map(|x| base.binary_search(x).ok()).collect(); p.map(|p| (p, t.clone())) })?;
        let size = 1usize << base.len();
        let mut out = vec![0u64; (size + 63) / 64];
        let mut idx = vec![0u32; size];
        for j in 0..base.len() {
            let add = pos.iter().position(|p| *p == j).map_or(0, |k| 1u32 << k);
            let s = 1usize << j;
            for i in 0..s { idx[s + i] = idx[i] + add; }
        }
        for i in 0..size { let k = idx[i] as usize; out[i >> 6] |= (t[k >> 6] >> (k & 63) & 1) << (i & 63); }
        Some(out)
    }
    /// linear combination of the base nodes (mask) equal to node n, if there is one
    fn in_span(&self, n: u32, base: &[u32]) -> Option<u32> {
        fn atoms(s: &Ctx, n: u32) -> Vec<u32> { match &s.nodes[n as usize] { Node::NXor(v) => (**v).clone(), _ => vec![n] } }
        fn add(a: &[u32], b: &[u32]) -> Vec<u32> {
            let (mut i, mut j) = (0, 0);
            let mut o = Vec::with_capacity(a.len() + b.len());
            while i < a.len() || j < b.len() {
                if j >= b.len() || (i < a.len() && a[i] < b[j]) { o.push(a[i]); i += 1; }
                else if i >= a.len() || b[j] < a[i] { o.push(b[j]); j += 1; }
                else { i += 1; j += 1; }
            }
            o
        }
        let mut rows: Vec<(u32, Vec<u32>, u32)> = vec![]; // pivot, atoms, combination
        let reduce = |rows: &Vec<(u32, Vec<u32>, u32)>, mut v: Vec<u32>, mut m: u32| { for (p, r, c) in rows { if v.binary_search(p).is_ok() { v = add(&v, r); m ^= c; } } (v, m) };
        for (k, b) in base.iter().enumerate() {
            let mut v = atoms(self, *b);
            v.sort_unstable();
            let (v, m) = reduce(&rows, v, 1 << k);
            if let Some(p) = v.first() { let p = *p; rows.push((p, v, m)); }
        }
        let mut v = atoms(self, n);
        v.sort_unstable();
        let (v, m) = reduce(&rows, v, 0);
        if v.is_empty() { Some(m) } else { None }
    }
    /// c & d as a table, when all of it is a function of the condition's few base nodes (others
    /// are kept as base nodes of their own)
    fn gated(&mut self, l: Lit, d: &[Lit], w: u32) -> Option<V> {
        let cb = self.fn_def.get(&node(l))?[0].0.clone();
        let mut base: Vec<u32> = (*cb).clone();
        let mut lin: HashMap<u32, u32> = HashMap::new(); // node -> combination of cb
        for z in d {
            if *z <= 1 { continue; }
            let n = node(*z);
            if cb.binary_search(&n).is_ok() || lin.contains_key(&n) { continue; }
            if self.fn_def.get(&n).map_or(false, |v| v.iter().any(|x| x.0.iter().all(|y| cb.binary_search(y).is_ok()))) { continue; }
            if cb.len() <= 12 { if let Some(m) = self.in_span(n, &cb) { lin.insert(n, m); continue; } }
            match self.fn_def.get(&n) { Some(v) => base.extend(v[0].0.iter().copied()), None => base.push(n) }
        }
        base.sort_unstable();
        base.dedup();
        if base.len() > 12 { return None; }
        let bs = Rc::new(base);
        let size = 1usize << bs.len();
        let pos: Vec<usize> = cb.iter().map(|x| bs.binary_search(x).unwrap()).collect();
        let direct: Vec<Lit> = d.iter().map(|z| if *z > 1 && lin.contains_key(&node(*z)) { FALSE } else { *z }).collect();
        let mut td = self.bits_table(&Rc::new(direct), &bs);
        for (k, z) in d.iter().enumerate() {
            if *z <= 1 { continue; }
            if let Some(m) = lin.get(&node(*z)) {
                let sel: usize = pos.iter().enumerate().filter(|(q, _)| m >> q & 1 == 1).map(|(_, p)| 1usize << p).sum();
                for i in 0..size { td[i] |= (((i & sel).count_ones() as u64 & 1) ^ (*z & 1) as u64) << k; }
            }
        }
        let tc = self.bits_table(&Rc::new(vec![l]), &bs);
        let t: Vec<u64> = (0..size).map(|i| if tc[i] & 1 == 1 { td[i] } else { 0 }).collect();
        Some(self.mk_tab(w, bs, t))
    }
    /// common table base of several values if it stays within limit
    pub fn union_base(&mut self, vs: &[&V], limit: usize) -> Option<Rc<Vec<u32>>> {
        let mut u: Vec<u32> = vec![];
        let mut first: Option<Rc<Vec<u32>>> = None;
        let mut same = true;
        let mut ok = true;
        for v in vs {
            if v.is_c() { continue; }
            if let V::S(s) = v { if let K::Tab(b, _) = &s.k { match &first { None => first = Some(b.clone()), Some(f) => if f != b { same = false; } } } else { same = false; } }
            match self.tab_base(v) { Some(b) => u.extend(b), None => { ok = false; break; } }
        }
        if ok {
            if same { if let Some(f) = first { if f.len() <= limit { return Some(f); } } }
            u.sort_unstable();
            u.dedup();
            if !self.support_tab {
                let u = self.reduce_base(u.clone());
                if u.len() <= limit { return Some(u); }
            }
        }
        if self.support_tab {
            // canonicalise over the variables themselves
            let mut nodes = vec![];
            for v in vs {
                match v {
                    V::C(_) => {}
                    V::S(s) => match &s.k {
                        K::Tab(b, _) => nodes.extend(b.iter().copied()),
                        K::Fp(_) => return None,
                        K::Bits => { let b = self.sym_bits(s); let b = self.norm_bits(&b); nodes.extend(b.iter().filter(|l| **l > 1).map(|l| node(*l))); }
                        K::Lin(l) => { for (id, _) in &l.terms { nodes.extend(self.vecs[*id as usize].iter().filter(|x| **x > 1).map(|x| node(*x))); } }
                    },
                    _ => return None,
                }
            }
            nodes.sort_unstable();
            nodes.dedup();
            if let Some(s) = self.sup_base(&nodes) { return Some(Rc::new(s)); }
            if ok && u.len() <= limit { return Some(Rc::new(u)); }
        }
        None
    }
    /// drop base nodes that are functions of the other base nodes
    fn reduce_base(&mut self, u: Vec<u32>) -> Rc<Vec<u32>> {
        if u.iter().all(|n| matches!(self.nodes[*n as usize], Node::Var(_))) { return Rc::new(u); }
        if let Some(r) = self.reduce_memo.get(&u) { return r.clone(); }
        let mut r = u.clone();
        let mut i = r.len();
        while i > 0 {
            i -= 1;
            let n = r[i];
            if matches!(self.nodes[n as usize], Node::Var(_)) { continue; }
            let mut seen: std::collections::HashSet<u32> = r.iter().copied().filter(|x| *x != n).collect();
            seen.insert(0);
            let mut st = vec![n];
            let mut budget = 200;
            let mut ok = true;
            while let Some(x) = st.pop() {
                if !seen.insert(x) { continue; }
                budget -= 1;
                if budget == 0 { ok = false; break; }
                match &self.nodes[x as usize] {
                    Node::And(a, b) | Node::Xor(a, b) => { st.push(node(*a)); st.push(node(*b)); }
                    Node::NXor(v) => st.extend(v.iter().copied()),
                    Node::Fn(b, _) => st.extend(b.iter().copied()),
                    _ => { ok = false; break; }
                }
            }
            if !ok { if let Some(v) = self.fn_def.get(&n) { if v.iter().any(|(b, _)| b.iter().all(|x| *x != n && r.contains(x))) { ok = true; } } }
            if ok { r.remove(i); }
        }
        let r = Rc::new(r);
        self.reduce_memo.insert(u, r.clone());
        r
    }
    pub fn as_tab(&mut self, v: &V, w: u32, limit: usize) -> Option<(Rc<Vec<u32>>, Vec<u64>)> {
        let b = self.union_base(&[v], limit)?;
        let t = self.tab_over(v, &b, w);
        Some((b, t))
    }
    pub fn pointwise1(&mut self, a: &V, aw: u32, rw: u32, f: &dyn Fn(u64) -> u64) -> Option<V> {
        let l = self.tab_limit;
        let b = self.union_base(&[a], l)?;
        let mut t = self.tab_over(a, &b, aw);
        for x in t.iter_mut() { *x = f(*x); }
        Some(self.mk_tab(rw, b, t))
    }
    pub fn pointwise2(&mut self, a: &V, b: &V, w: u32, rw: u32, limit: usize, f: &dyn Fn(u64, u64) -> u64) -> Option<V> {
        let bs = self.union_base(&[a, b], limit)?;
        let ta = self.tab_over(a, &bs, w);
        let tb = self.tab_over(b, &bs, w);
        let t = ta.into_iter().zip(tb).map(|(x, y)| f(x, y)).collect();
        Some(self.mk_tab(rw, bs, t))
    }
    fn is_tab(v: &V) -> bool { matches!(v, V::S(s) if matches!(s.k, K::Tab(..))) }
    fn is_lin(v: &V) -> bool { matches!(v, V::S(s) if matches!(s.k, K::Lin(..))) }
    fn is_fp(v: &V) -> bool { matches!(v, V::S(s) if matches!(s.k, K::Fp(..))) }
    /// both are tables over the same base (or constants): pointwise evaluation costs nothing extra
    fn same_tab(&mut self, a: &V, b: &V) -> bool {
        if self.support_tab { return true; }
        match (a, b) {
            (V::S(x), V::S(y)) => match (&x.k, &y.k) {
                (K::Tab(p, _), K::Tab(q, _)) => p == q || p.iter().all(|z| q.binary_search(z).is_ok()) || q.iter().all(|z| p.binary_search(z).is_ok()),
                _ => false,
            },
            (V::S(x), V::C(_)) | (V::C(_), V::S(x)) => matches!(x.k, K::Tab(..)),
            _ => false,
        }
    }

    // ---------- linear sums ----------
    fn vec_id(&mut self, b: &Rc<Vec<Lit>>) -> u32 {
        let nb = self.norm_bits(b);
        let mut v = (*nb).clone();
        while v.last() == Some(&FALSE) { v.pop(); }
        let v = Rc::new(v);
        if let Some(i) = self.vec_map.get(&v) { return *i; }
        self.vecs.push(v.clone());
        let i = (self.vecs.len() - 1) as u32;
        self.vec_map.insert(v, i);
        i
    }
    fn vec_max(b: &[Lit]) -> u64 { let mut m = 0u64; for (i, l) in b.iter().enumerate() { if *l != FALSE && i < 64 { m |= 1 << i; } } m }
    pub fn lin_of(&mut self, v: &V, w: u32) -> Lin {
        match v {
            V::C(c) => Lin { c: *c, terms: vec![], max: *c },
            V::S(s) => match &s.k {
                K::Lin(l) => l.clone(),
                _ => {
                    if let K::Tab(base, t) = &s.k { if base.len() > 1 { let (base, t) = (base.clone(), t.clone()); if let Some(l) = self.lin_tab(&base, &t, w) { return l; } } }
                    let b = self.sym_bits(s);
                    let id = self.vec_id(&b);
                    let vv = self.vecs[id as usize].clone();
                    if vv.is_empty() { return Lin { c: 0, terms: vec![], max: 0 }; }
                    Lin { c: 0, terms: vec![(id, 1)], max: Self::vec_max(&vv) & mask(w) }
                }
            },
            _ => panic!(),
        }
    }
    /// a table that is a sum of its base bits with non-negative weights
    fn lin_tab(&mut self, base: &[u32], t: &[u64], w: u32) -> Option<Lin> {
        let n = base.len();
        let d: Vec<u64> = (0..n).map(|j| t[1 << j].wrapping_sub(t[0])).collect();
        if (0..n).any(|j| t[1 << j] < t[0]) { return None; }
        if !(0..t.len()).all(|i| t[i] as u128 == t[0] as u128 + (0..n).map(|j| if i >> j & 1 == 1 { d[j] as u128 } else { 0 }).sum::<u128>()) { return None; }
        let mut used: Vec<bool> = d.iter().map(|x| *x == 0).collect();
        let mut terms: Vec<(u32, u64)> = vec![];
        while let Some(j) = (0..n).filter(|j| !used[*j]).min_by_key(|j| (d[*j], *j)) {
            let (mut v, mut k, mut j) = (vec![], d[j], j);
            let first = k;
            loop {
                used[j] = true;
                v.push(base[j] << 1);
                k = match k.checked_mul(2) { Some(k) => k, None => break };
                let i = j;
                j = match (0..n).filter(|x| !used[*x] && d[*x] == k).min_by_key(|x| (*x < i, *x)) { Some(j) => j, None => break };
            }
            let id = self.vec_id(&Rc::new(v));
            match terms.iter_mut().find(|x| x.0 == id) { Some(x) => x.1 += first, None => terms.push((id, first)) }
        }
        terms.sort();
        Some(Lin { c: t[0], terms, max: *t.iter().max().unwrap() & mask(w) })
    }
    fn lin_v(&mut self, l: Lin, w: u32) -> V {
        if l.terms.is_empty() { return V::C(l.c & mask(w)); }
        if l.terms.len() == 1 && l.terms[0].1 == 1 && l.c == 0 {
            let b = self.vecs[l.terms[0].0 as usize].clone();
            let mut b = (*b).clone();
            b.resize(w as usize, FALSE);
            return self.mk_bits(b);
        }
        V::S(Rc::new(Sym { w, k: K::Lin(l), bits: RefCell::new(None) }))
    }
    fn lin_add(&mut self, a: &Lin, b: &Lin, bk: u64, w: u32) -> Lin {
        let m = mask(w);
        let mut terms: Vec<(u32, u64)> = vec![];
        let (mut i, mut j) = (0, 0);
        while i < a.terms.len() || j < b.terms.len() {
            if j >= b.terms.len() || (i < a.terms.len() && a.terms[i].0 < b.terms[j].0) { terms.push(a.terms[i]); i += 1; }
            else if i >= a.terms.len() || b.terms[j].0 < a.terms[i].0 { let c = b.terms[j].1.wrapping_mul(bk) & m; if c != 0 { terms.push((b.terms[j].0, c)); } j += 1; }
            else { let c = a.terms[i].1.wrapping_add(b.terms[j].1.wrapping_mul(bk)) & m; if c != 0 { terms.push((a.terms[i].0, c)); } i += 1; j += 1; }
        }
        let c = a.c.wrapping_add(b.c.wrapping_mul(bk)) & m;
        // exact bound when all coefficients are non-negative and nothing wraps
        let mut mx: u128 = c as u128;
        let mut ok = true;
        for (id, k) in &terms {
            if *k > m / 2 { ok = false; break; }
            mx += Self::vec_max(&self.vecs[*id as usize]) as u128 * *k as u128;
        }
        if c > m / 2 || mx > m as u128 { ok = false; }
        Lin { c, terms, max: if ok { mx as u64 } else { u64::MAX } }
    }
    fn lin_bits(&mut self, l: &Lin, w: u32) -> Rc<Vec<Lit>> {
        let key = (w, l.clone());
        if let Some(b) = self.lin_memo.get(&key) { return b.clone(); }
        let m = mask(w);
        let ww = w as usize;
        let half = m / 2;
        let mut pos: Vec<Vec<Lit>> = vec![];
        let mut negs: Vec<Vec<Lit>> = vec![];
        for (id, k) in &l.terms {
            let b = self.vecs[*id as usize].clone();
            let (kk, dst) = if *k > half { ((m - *k).wrapping_add(1) & m, &mut negs) } else { (*k, &mut pos) };
            for s in 0..ww {
                if kk >> s & 1 == 1 {
                    let mut x = vec![FALSE; s];
                    x.extend_from_slice(&b);
                    x.resize(ww.max(x.len()), FALSE);
                    x.truncate(ww);
                    dst.push(x);
                }
            }
        }
        let cst: Vec<Lit> = (0..ww).map(|i| (l.c >> i & 1) as Lit).collect();
        let mut acc = self.sum_tree(pos, ww);
        if l.c != 0 { acc = self.adder(&acc, &cst, FALSE); }
        if !negs.is_empty() {
            let n = self.sum_tree(negs, ww);
            let n: Vec<Lit> = n.into_iter().map(neg).collect();
            acc = self.adder(&acc, &n, TRUE);
        }
        let r = Rc::new(acc);
        self.lin_memo.insert(key, r.clone());
        r
    }
    fn sum_tree(&mut self, mut v: Vec<Vec<Lit>>, w: usize) -> Vec<Lit> {
        if v.is_empty() { return vec![FALSE; w]; }
        while v.len() > 1 {
            let mut n = vec![];
            let mut it = v.into_iter();
            while let Some(a) = it.next() { match it.next() { Some(b) => n.push(self.adder(&a, &b, FALSE)), None => n.push(a) } }
            v = n;
        }
        v.pop().unwrap()
    }
    pub fn adder(&mut self, a: &[Lit], b: &[Lit], cin: Lit) -> Vec<Lit> {
        let mut c = cin;
        let mut o = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            o.push(self.xor(x, c));
            if i + 1 < a.len() {
                // majority = a&b ^ c&(a^b)
                let p = self.and(a[i], b[i]);
                let q = self.and(c, x);
                c = self.or(p, q);
            }
        }
        o
    }

    // ---------- operations ----------
    pub fn bin(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) { return V::C(cbin(op, w, *x, *y).unwrap_or(0)); }
        assert!(w <= 64 || (!a.is_sym() && !b.is_sym()) || matches!(op, BinOp::And | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::Add | BinOp::Sub | BinOp::Mul), "UNSUPPORTED wide op");
        let m = mask(w);
        let f = move |x: u64, y: u64| cbin(op, w, x, y).unwrap_or(0);
        if w > 64 { return self.bin_wide(op, w, a, b); }
        match op {
            BinOp::And | BinOp::Or | BinOp::Xor => {
                // identities
                for (x, y) in [(a, b), (b, a)] {
                    if let V::C(c) = x {
                        match op {
                            BinOp::And => {
                                if *c == 0 { return V::C(0); }
                                if *c == m { return y.clone(); }
                                if let V::S(s) = y { if let K::Lin(l) = &s.k { if (c + 1).is_power_of_two() && l.max <= *c { return y.clone(); } } }
                            }
                            BinOp::Or => { if *c == 0 { return y.clone(); } if *c == m { return V::C(m); } }
                            _ => { if *c == 0 { return y.clone(); } }
                        }
                    }
                }
                if self.same_tab(a, b) { let l = self.tab_limit; if let Some(v) = self.pointwise2(a, b, w, w, l, &f) { return v; } }
                let (x, y) = (self.bits_of(a, w), self.bits_of(b, w));
                let mut o = Vec::with_capacity(w as usize);
                for i in 0..w as usize {
                    o.push(match op { BinOp::And => self.and(x[i], y[i]), BinOp::Or => self.or(x[i], y[i]), _ => self.xor(x[i], y[i]) });
                }
                self.mk_bits(o)
            }
            BinOp::Shl | BinOp::LShr | BinOp::AShr => {
                if let V::C(s) = b {
                    let s = *s as usize;
                    if s == 0 { return a.clone(); }
                    if s >= w as usize { return V::C(0); }
                    if Self::is_tab(a) { if let Some(v) = self.pointwise1(a, w, w, &|x| cbin(op, w, x, s as u64).unwrap_or(0)) { return v; } }
                    if op == BinOp::Shl && Self::is_lin(a) { return self.bin(BinOp::Mul, w, a, &V::C(1 << s)); }
                    let x = self.bits_of(a, w);
                    let ww = w as usize;
                    let o = match op {
                        BinOp::Shl => { let mut o = vec![FALSE; s]; o.extend_from_slice(&x[..ww - s]); o }
                        BinOp::LShr => { let mut o = x[s..].to_vec(); o.resize(ww, FALSE); o }
                        _ => { let mut o = x[s..].to_vec(); o.resize(ww, x[ww - 1]); o }
                    };
                    return self.mk_bits(o);
                }
                let l = self.tab_limit;
                if let Some(v) = self.pointwise2(a, b, w, w, l, &f) { return v; }
                // barrel shifter (out-of-range amounts are poison)
                let s = self.bits_of(b, w);
                let mut cur = a.clone();
                for k in 0..7 {
                    if k >= s.len() || s[k] == FALSE || (1u32 << k) >= w { continue; }
                    let sh = self.bin(op, w, &cur, &V::C(1 << k));
                    let c = self.lit_v(s[k]);
                    cur = self.select(&c, &sh, &cur, w);
                }
                cur
            }
            BinOp::Add | BinOp::Sub => {
                if let V::C(0) = b { return a.clone(); }
                if let (V::C(0), BinOp::Add) = (a, op) { return b.clone(); }
                if self.same_tab(a, b) || (Self::is_tab(a) && Self::is_tab(b)) { let l = self.tab_limit; if let Some(v) = self.pointwise2(a, b, w, w, l, &f) { return v; } }
                if w >= 32 || (w == 16 && op == BinOp::Add) {
                    let x = self.lin_of(a, w);
                    let y = self.lin_of(b, w);
                    let k = if op == BinOp::Sub { m } else { 1 };
                    let l = self.lin_add(&x, &y, k, w);
                    // narrow sums stay sums while they cannot wrap
                    if w >= 32 || l.max != u64::MAX { return self.lin_v(l, w); }
                }
                let (x, y) = (self.bits_of(a, w), self.bits_of(b, w));
                let o = if op == BinOp::Add { self.adder(&x, &y, FALSE) } else { let ny: Vec<Lit> = y.iter().map(|l| neg(*l)).collect(); self.adder(&x, &ny, TRUE) };
                self.mk_bits(o)
            }
            BinOp::Mul => {
                for (x, y) in [(a, b), (b, a)] {
                    if let V::C(c) = x {
                        if *c == 0 { return V::C(0); }
                        if *c == 1 { return y.clone(); }
                        if Self::is_tab(y) { if let Some(v) = self.pointwise1(y, w, w, &|z| z.wrapping_mul(*c) & m) { return v; } }
                        if c.is_power_of_two() && !Self::is_lin(y) { let s = c.trailing_zeros() as u64; return self.bin(BinOp::Shl, w, y, &V::C(s)); }
                        if w >= 32 { let z = Lin { c: 0, terms: vec![], max: 0 }; let l = self.lin_of(y, w); let l = self.lin_add(&z, &l, *c, w); return self.lin_v(l, w); }
                    }
                }
                let l = self.tab_limit;
                if let Some(v) = self.pointwise2(a, b, w, w, l, &f) { return v; }
                let (x, y) = (self.bits_of(a, w), self.bits_of(b, w));
                let mut acc = vec![FALSE; w as usize];
                for i in 0..w as usize {
                    if y[i] == FALSE { continue; }
                    let mut r = vec![FALSE; i];
                    for j in 0..w as usize - i { r.push(self.and(x[j], y[i])); }
                    acc = self.adder(&acc, &r, FALSE);
                }
                self.mk_bits(acc)
            }
            BinOp::UDiv | BinOp::URem => {
                if let V::C(c) = b {
                    if c.is_power_of_two() {
                        return if op == BinOp::UDiv { self.bin(BinOp::LShr, w, a, &V::C(c.trailing_zeros() as u64)) } else { self.bin(BinOp::And, w, a, &V::C(c - 1)) };
                    }
                }
                let l = self.tab_limit;
                if let Some(v) = self.pointwise2(a, b, w, w, l, &f) { return v; }
                self.divider(op == BinOp::UDiv, w, a, b)
            }
            BinOp::SDiv | BinOp::SRem => {
                let l = self.tab_limit;
                if let Some(v) = self.pointwise2(a, b, w, w, l, &f) { return v; }
                let (x, y) = (self.bits_of(a, w), self.bits_of(b, w));
                if x[w as usize - 1] == FALSE && y[w as usize - 1] == FALSE { return self.divider(op == BinOp::SDiv, w, a, b); }
                panic!("UNSUPPORTED signed division of wide symbolic values");
            }
        }
    }
    fn bin_wide(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> V {
        let ww = w as usize;
        let (x, y) = (self.bits_of(a, w), self.bits_of(b, w));
        let o = match op {
            BinOp::And => (0..ww).map(|i| self.and(x[i], y[i])).collect(),
            BinOp::Or => (0..ww).map(|i| self.or(x[i], y[i])).collect(),
            BinOp::Xor => (0..ww).map(|i| self.xor(x[i], y[i])).collect(),
            BinOp::Add => self.adder(&x, &y, FALSE),
            BinOp::Sub => { let ny: Vec<Lit> = y.iter().map(|l| neg(*l)).collect(); self.adder(&x, &ny, TRUE) }
            BinOp::Shl | BinOp::LShr => {
                let s = match b { V::C(c) => *c as usize, V::W(c) => **c as usize, _ => panic!("UNSUPPORTED wide shift") };
                if op == BinOp::Shl { let mut o = vec![FALSE; s]; o.extend_from_slice(&x[..ww - s]); o } else { let mut o = x[s..].to_vec(); o.resize(ww, FALSE); o }
            }
            BinOp::Mul => {
                let mut acc = vec![FALSE; ww];
                for i in 0..ww {
                    if y[i] == FALSE { continue; }
                    let mut r = vec![FALSE; i];
                    for j in 0..ww - i { r.push(self.and(x[j], y[i])); }
                    acc = self.adder(&acc, &r, FALSE);
                }
                acc
            }
            _ => panic!("UNSUPPORTED wide op"),
        };
        V::S(Rc::new(Sym { w, k: K::Bits, bits: RefCell::new(Some(Rc::new(o))) }))
    }
    fn divider(&mut self, quot: bool, w: u32, a: &V, b: &V) -> V {
        let (x, y) = (self.bits_of(a, w), self.bits_of(b, w));
        let ww = w as usize;
        let top = x.iter().rposition(|l| *l != FALSE).map_or(0, |p| p + 1);
        let mut rem = vec![FALSE; ww + 1];
        let mut yy: Vec<Lit> = y.to_vec();
        yy.push(FALSE);
        let mut q = vec![FALSE; ww];
        for i in (0..top).rev() {
            rem.pop();
            rem.insert(0, x[i]);
            let ge = self.ule(&yy, &rem);
            let ny: Vec<Lit> = yy.iter().map(|l| neg(*l)).collect();
            let d = self.adder(&rem, &ny, TRUE);
            q[i] = ge;
            for k in 0..=ww { rem[k] = self.mux(ge, d[k], rem[k]); }
        }
        if quot { self.mk_bits(q) } else { rem.pop(); self.mk_bits(rem) }
    }
    fn ult(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        let mut r = FALSE;
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            r = self.mux(x, b[i], r);
        }
        self.norm(r)
    }
    fn ule(&mut self, a: &[Lit], b: &[Lit]) -> Lit { neg(self.ult(b, a)) }
    pub fn max_of(&mut self, v: &V, w: u32) -> u64 {
        match v {
            V::C(c) => *c,
            V::S(s) => match &s.k {
                K::Tab(_, t) => *t.iter().max().unwrap(),
                K::Lin(l) if l.max != u64::MAX => l.max,
                K::Lin(_) => mask(w),
                K::Bits => Self::vec_max(s.bits.borrow().as_ref().unwrap()),
                K::Fp(_) => mask(w),
            },
            _ => mask(w),
        }
    }
    pub fn min_of(&mut self, v: &V) -> u64 {
        match v {
            V::C(c) => *c,
            V::S(s) => match &s.k {
                K::Tab(_, t) => *t.iter().min().unwrap(),
                K::Lin(l) if l.max != u64::MAX => l.c,
                K::Bits => { let mut m = 0u64; for (i, l) in s.bits.borrow().as_ref().unwrap().iter().enumerate() { if *l == TRUE && i < 64 { m |= 1 << i; } } m }
                _ => 0,
            },
            _ => 0,
        }
    }
    /// the value as a sum of weighted nodes (0 or 1 each) and a constant, exact (no wrapping)
    fn node_sum(&mut self, v: &V, w: u32, out: &mut std::collections::BTreeMap<u32, i128>, sign: i128) -> Option<i128> {
        fn bits(b: &[Lit], f: i128, out: &mut std::collections::BTreeMap<u32, i128>, c: &mut i128) {
            for (i, l) in b.iter().enumerate() {
                if *l == FALSE { continue; }
                let k = f << i;
                if *l == TRUE { *c += k; continue; }
                if *l & 1 == 1 { *c += k; *out.entry(node(*l)).or_insert(0) -= k; } else { *out.entry(node(*l)).or_insert(0) += k; }
            }
        }
        let mut c = 0i128;
        match v {
            V::C(x) => return Some(sign * *x as i128),
            V::S(s) => match &s.k {
                K::Lin(l) => {
                    if l.max == u64::MAX { return None; }
                    c += sign * l.c as i128;
                    for (id, k) in &l.terms { let b = self.vecs[*id as usize].clone(); if b.len() > 60 { return None; } bits(&b, sign * *k as i128, out, &mut c); }
                    return Some(c);
                }
                K::Fp(_) => return None,
                K::Tab(base, t) => {
                    let n = base.len();
                    let d: Vec<i128> = (0..n).map(|j| t[1 << j] as i128 - t[0] as i128).collect();
                    if (0..t.len()).all(|i| t[i] as i128 == t[0] as i128 + (0..n).map(|j| if i >> j & 1 == 1 { d[j] } else { 0 }).sum::<i128>()) {
                        for j in 0..n { *out.entry(base[j]).or_insert(0) += sign * d[j]; }
                        return Some(sign * t[0] as i128);
                    }
                    if n > 8 && !self.support_tab { return None; }
                }
                K::Bits => {}
            },
            _ => return None,
        }
        let b = self.bits_of(v, w);
        if b.len() > 60 && b[60..].iter().any(|l| *l != FALSE) { return None; }
        let b: Vec<Lit> = b.iter().map(|l| self.norm(*l)).collect();
        bits(&b, sign, out, &mut c);
        Some(c)
    }
    /// unsigned comparison of exact sums in a canonical form
    fn lin_cmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> Option<Lit> {
        let mut m = std::collections::BTreeMap::new();
        let ca = self.node_sum(a, w, &mut m, 1)?;
        let cb = self.node_sum(b, w, &mut m, -1)?;
        let d = ca + cb; // a - b = m + d
        m.retain(|_, k| *k != 0);
        // as: sum < k, possibly negated
        let (mut k, mut inv) = match p { Pred::Ult => (-d, false), Pred::Uge => (-d, true), Pred::Ule => (1 - d, false), _ => (1 - d, true) };
        if m.is_empty() { return Some(((0 < k) ^ inv) as Lit); }
        let mut t: Vec<(u32, i128)> = m.into_iter().collect();
        if t[0].1 < 0 {
            // sum < k  <=>  not (-sum < 1 - k)
            for x in t.iter_mut() { x.1 = -x.1; }
            k = 1 - k;
            inv = !inv;
        }
        let g = t.iter().fold(0i128, |g, x| { let (mut a, mut b) = (g, x.1.abs()); while b != 0 { let r = a % b; a = b; b = r; } a });
        for x in t.iter_mut() { x.1 /= g; }
        k = k.div_euclid(g) + (k.rem_euclid(g) != 0) as i128;
        let lo: i128 = t.iter().map(|x| x.1.min(0)).sum();
        let hi: i128 = t.iter().map(|x| x.1.max(0)).sum();
        if hi < k { return Some(!inv as Lit); }
        if lo >= k { return Some(inv as Lit); }
        if hi.max(-lo) + k.abs() >= 1 << 100 { return None; }
        if std::env::var("SYMX_DUMP").is_ok() { let d = |v: &V| match v { V::C(c) => format!("C{}", c), V::S(s) => match &s.k { K::Bits => "bits".into(), K::Lin(l) => format!("{:?}", l), K::Tab(b, t) => format!("tab {:?} {:?}", b, &t[..t.len().min(8)]), K::Fp(_) => "fp".into() }, _ => "?".into() }; eprintln!("ICMP {:?} {} {} {}", p, w, d(a), d(b)); }
        let l = match self.cmp_memo.get(&(t.clone(), k)) {
            Some(l) => *l,
            None => {
                let bits = 128 - (hi.max(-lo) + k.abs() + 1).leading_zeros() as usize + 1;
                let mut side = [vec![], vec![]];
                for (n, c) in &t { for i in 0..bits { if c.abs() >> i & 1 == 1 { let mut x = vec![FALSE; bits]; x[i] = n << 1; side[(*c < 0) as usize].push(x); } } }
                let mut r = vec![];
                for (z, rows) in side.iter().enumerate() {
                    // single bits packed into as few rows as possible
                    let mut rs: Vec<Vec<Lit>> = vec![];
                    for x in rows { let i = x.iter().position(|l| *l != FALSE).unwrap(); match rs.iter_mut().find(|y| y[i] == FALSE) { Some(y) => y[i] = x[i], None => rs.push(x.clone()) } }
                    let mut s = self.sum_tree(rs, bits);
                    let add = if z == 0 { (-k).max(0) } else { k.max(0) };
                    if add != 0 { let cst: Vec<Lit> = (0..bits).map(|i| (add >> i & 1) as Lit).collect(); s = self.adder(&s, &cst, FALSE); }
                    r.push(s);
                }
                let l = self.ult(&r[0].clone(), &r[1].clone());
                self.cmp_memo.insert((t, k), l);
                l
            }
        };
        Some(if inv { neg(l) } else { l })
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) { return V::bool(cicmp(p, w, *x, *y)); }
        if w <= 64 {
            if Self::is_fp(a) || Self::is_fp(b) { return self.fp_bits_cmp(p, w, a, b); }
            if !matches!(p, Pred::Sgt | Pred::Sge | Pred::Slt | Pred::Sle) {
                let (amin, amax, bmin, bmax) = (self.min_of(a), self.max_of(a, w), self.min_of(b), self.max_of(b, w));
                let r = match p {
                    Pred::Eq => if amax < bmin || bmax < amin { Some(false) } else { None },
                    Pred::Ne => if amax < bmin || bmax < amin { Some(true) } else { None },
                    Pred::Ult => if amax < bmin { Some(true) } else if amin >= bmax { Some(false) } else { None },
                    Pred::Ule => if amax <= bmin { Some(true) } else if amin > bmax { Some(false) } else { None },
                    Pred::Ugt => if amin > bmax { Some(true) } else if amax <= bmin { Some(false) } else { None },
                    Pred::Uge => if amin >= bmax { Some(true) } else if amax < bmin { Some(false) } else { None },
                    _ => None,
                };
                if let Some(r) = r { return V::bool(r); }
            }
            let wide = |v: &V| matches!(v, V::S(s) if matches!(&s.k, K::Lin(_)) || matches!(&s.k, K::Tab(b, _) if b.len() > 8));
            if !self.support_tab && matches!(p, Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge) && (wide(a) || wide(b)) { if let Some(l) = self.lin_cmp(p, w, a, b) { return self.lit_v(l); } }
            let any_tab = Self::is_tab(a) || Self::is_tab(b);
            let lim = if any_tab || self.support_tab { self.tab_limit } else { 8 };
            if let Some(v) = self.pointwise2(a, b, w, 1, lim, &|x, y| cicmp(p, w, x, y) as u64) { return v; }
            if matches!(p, Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge) && (Self::is_lin(a) || Self::is_lin(b)) { if let Some(l) = self.lin_cmp(p, w, a, b) { return self.lit_v(l); } }
            if let (V::S(x), V::S(y)) = (a, b) { if let (K::Lin(x), K::Lin(y)) = (&x.k, &y.k) { if x == y { return V::bool(matches!(p, Pred::Eq | Pred::Uge | Pred::Ule | Pred::Sge | Pred::Sle)); } } }
        }
        let (mut x, mut y) = ((*self.bits_of(a, w)).clone(), (*self.bits_of(b, w)).clone());
        let l = match p {
            Pred::Eq | Pred::Ne => {
                let mut r = TRUE;
                for i in 0..w as usize { let d = self.xor(x[i], y[i]); let d = self.norm(d); r = self.and(r, neg(d)); if r == FALSE { break; } }
                if p == Pred::Ne { neg(r) } else { r }
            }
            _ => {
                if matches!(p, Pred::Sgt | Pred::Sge | Pred::Slt | Pred::Sle) {
                    let t = w as usize - 1;
                    x[t] = neg(x[t]);
                    y[t] = neg(y[t]);
                }
                match p {
                    Pred::Ult | Pred::Slt => self.ult(&x, &y),
                    Pred::Ule | Pred::Sle => self.ule(&x, &y),
                    Pred::Ugt | Pred::Sgt => self.ult(&y, &x),
                    _ => self.ule(&y, &x),
                }
            }
        };
        self.lit_v(l)
    }
    pub fn cond_lit(&mut self, v: &V) -> Lit {
        match v {
            V::C(c) => (*c & 1) as Lit,
            V::S(s) => { let b = self.sym_bits(s); self.norm(b[0]) }
            _ => panic!("cond"),
        }
    }
    pub fn select(&mut self, c: &V, a: &V, b: &V, w: u32) -> V {
        if let V::C(x) = c { return if x & 1 == 1 { a.clone() } else { b.clone() }; }
        match (a, b) {
            (V::A(x), V::A(y)) => { let r = x.iter().zip(y.iter()).map(|(p, q)| self.select(c, p, q, 0)).collect(); return V::A(Rc::new(r)); }
            (V::C(x), V::C(y)) if x == y => return a.clone(),
            (V::S(x), V::S(y)) if Rc::ptr_eq(x, y) => return a.clone(),
            (V::W(x), V::W(y)) if x == y => return a.clone(),
            _ => {}
        }
        let w = match (a, b) { (V::S(s), _) | (_, V::S(s)) => s.w, _ => if w == 0 { 64 } else { w } };
        if Self::is_fp(a) || Self::is_fp(b) { panic!("UNSUPPORTED select between floating point terms"); }
        if w <= 64 {
            let both_const = a.is_c() && b.is_c();
            if Self::is_tab(a) || Self::is_tab(b) || self.support_tab || both_const {
                let lim = if both_const { 8 } else { self.tab_limit };
                if let Some(bs) = self.union_base(&[c, a, b], lim) {
                    let tc = self.tab_over(c, &bs, 1);
                    let ta = self.tab_over(a, &bs, w);
                    let tb = self.tab_over(b, &bs, w);
                    let t = (0..tc.len()).map(|i| if tc[i] & 1 == 1 { ta[i] } else { tb[i] }).collect();
                    return self.mk_tab(w, bs, t);
                }
                if both_const {
                    let l = self.cond_lit(c);
                    if l <= 1 { return if l == 1 { a.clone() } else { b.clone() }; }
                    let (x, y) = (a.c(), b.c());
                    let t = if l & 1 == 0 { vec![y, x] } else { vec![x, y] };
                    return self.mk_tab(w, Rc::new(vec![node(l)]), t);
                }
            }
        }
        let l = self.cond_lit(c);
        let (x, y) = (self.bits_of(a, w), self.bits_of(b, w));
        if w <= 64 && x.iter().all(|z| *z == x[0]) && y.iter().all(|z| *z == y[0]) && (x[0] <= 1 || y[0] <= 1) {
            let o = self.mux(l, x[0], y[0]);
            return self.mk_bits(vec![o; w as usize]);
        }
        // both sides differ only by a small function: b ^ (c & (a ^ b))
        if w <= 64 && l > 1 {
            let mut d = Vec::with_capacity(w as usize);
            for i in 0..w as usize { let z = self.xor(x[i], y[i]); d.push(self.norm(z)); }
            if let Some(m) = self.gated(l, &d, w) { return self.bin(BinOp::Xor, w, b, &m); }
        }
        let mut o = Vec::with_capacity(w as usize);
        for i in 0..w as usize { o.push(self.mux(l, x[i], y[i])); }
        if w > 64 { return V::S(Rc::new(Sym { w, k: K::Bits, bits: RefCell::new(Some(Rc::new(o))) })); }
        self.mk_bits(o)
    }
    pub fn cast(&mut self, op: CastOp, fw: u32, tw: u32, a: &V) -> V {
        match a {
            V::C(c) => return V::C(match op { CastOp::Trunc => c & mask(tw), CastOp::Sext => sext(*c, fw) & mask(tw), _ => *c }),
            V::S(s) => {
                if fw == tw { return a.clone(); }
                if tw <= 64 && fw <= 64 {
                    match &s.k {
                        K::Tab(b, t) => {
                            let t = t.iter().map(|c| match op { CastOp::Trunc => c & mask(tw), CastOp::Sext => sext(*c, fw) & mask(tw), _ => *c }).collect();
                            return self.mk_tab(tw, b.clone(), t);
                        }
                        K::Lin(l) => {
                            let l = l.clone();
                            if op == CastOp::Zext && l.max != u64::MAX { return self.lin_v(l, tw); }
                            if op == CastOp::Sext && l.max <= mask(fw) / 2 { return self.lin_v(l, tw); }
                            if op == CastOp::Trunc && tw >= 8 && l.max <= mask(tw) { return self.lin_v(l, tw); }
                            if op == CastOp::Trunc && tw >= 32 {
                                let z = Lin { c: 0, terms: vec![], max: 0 };
                                let l = self.lin_add(&z, &l, 1, tw);
                                return self.lin_v(l, tw);
                            }
                        }
                        _ => {}
                    }
                }
                let b = self.sym_bits(s);
                let mut o = (*b).clone();
                match op {
                    CastOp::Trunc => o.truncate(tw as usize),
                    CastOp::Sext => { let t = *o.last().unwrap(); o.resize(tw as usize, t); }
                    _ => o.resize(tw as usize, FALSE),
                }
                if tw > 64 { return V::S(Rc::new(Sym { w: tw, k: K::Bits, bits: RefCell::new(Some(Rc::new(o))) })); }
                self.mk_bits(o)
            }
            _ => panic!(),
        }
    }
    /// byte `off` of a symbolic value
    pub fn byte_of(&mut self, s: &Rc<Sym>, off: u32) -> V {
        if s.w <= 8 && off == 0 {
            return if s.w == 8 { V::S(s.clone()) } else { self.cast(CastOp::Zext, s.w, 8, &V::S(s.clone())) };
        }
        if let K::Tab(b, t) = &s.k {
            let t = t.iter().map(|x| x >> (8 * off) & 0xff).collect();
            return self.mk_tab(8, b.clone(), t);
        }
        let b = self.sym_bits(s);
        let mut o: Vec<Lit> = b[(8 * off as usize).min(b.len())..((8 * off + 8) as usize).min(b.len())].to_vec();
        o.resize(8, FALSE);
        self.mk_bits(o)
    }
    pub fn concat_bytes(&mut self, parts: &[V], w: u32) -> V {
        let mut o = Vec::with_capacity(parts.len() * 8);
        // all tables over one base?
        if w <= 64 && parts.iter().all(|p| p.is_c() || Self::is_tab(p)) {
            let refs: Vec<&V> = parts.iter().collect();
            if let Some(b) = self.union_base(&refs, 8) {
                let mut t = vec![0u64; 1 << b.len()];
                for (k, p) in parts.iter().enumerate() { let tt = self.tab_over(p, &b, 8); for i in 0..t.len() { t[i] |= tt[i] << (8 * k); } }
                for x in t.iter_mut() { *x &= mask(w); }
                return self.mk_tab(w, b, t);
            }
        }
        for p in parts { let b = self.bits_of(p, 8); o.extend_from_slice(&b); }
        o.truncate(w as usize);
        if w > 64 { return V::S(Rc::new(Sym { w, k: K::Bits, bits: RefCell::new(Some(Rc::new(o))) })); }
        self.mk_bits(o)
    }

    // ---------- floating point ----------
    fn fp_id(&mut self, w: u32, n: FpN) -> u32 {
        if let Some(i) = self.fp_map.get(&(w, n.clone())) { return *i; }
        self.fps.push((w, n.clone()));
        let i = (self.fps.len() - 1) as u32;
        self.fp_map.insert((w, n), i);
        i
    }
    fn fp_of(&mut self, v: &V, w: u32) -> u32 {
        match v {
            V::C(c) => self.fp_id(w, FpN::Const(*c)),
            V::S(s) => match &s.k {
                K::Fp(i) => *i,
                _ => { let b = self.sym_bits(s); let id = self.vec_id_raw(&b); self.fp_id(w, FpN::FromBits(w, id)) }
            },
            _ => panic!(),
        }
    }
    fn vec_id_raw(&mut self, b: &Rc<Vec<Lit>>) -> u32 {
        let v = self.norm_bits(b);
        if let Some(i) = self.vec_map.get(&v) { return *i; }
        self.vecs.push(v.clone());
        let i = (self.vecs.len() - 1) as u32;
        self.vec_map.insert(v, i);
        i
    }
    fn fp_v(&mut self, id: u32) -> V {
        let (w, n) = self.fps[id as usize].clone();
        if let FpN::Const(c) = n { return V::C(c); }
        if let FpN::FromBits(_, v) | FpN::FromTab(_, v) = n { let b = (*self.vecs[v as usize]).clone(); return self.mk_bits(b); }
        V::S(Rc::new(Sym { w, k: K::Fp(id), bits: RefCell::new(None) }))
    }
    pub fn fbin(&mut self, op: FOp, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) { return V::C(cfbin(op, w, *x, *y)); }
        if !Self::is_fp(a) && !Self::is_fp(b) {
            let l = self.tab_limit;
            if let Some(v) = self.pointwise2(a, b, w, w, l, &|x, y| cfbin(op, w, x, y)) { return v; }
        }
        let (x, y) = (self.fp_of(a, w), self.fp_of(b, w));
        let o = match op { FOp::Add => 0, FOp::Sub => 1, FOp::Mul => 2, FOp::Div => 3, FOp::Rem => panic!("UNSUPPORTED frem") };
        let (x, y) = if o == 0 || o == 2 { (x.min(y), x.max(y)) } else { (x, y) };
        let id = self.fp_id(w, FpN::Bin(o, x, y));
        self.fp_v(id)
    }
    pub fn fneg(&mut self, w: u32, a: &V) -> V {
        match a {
            V::C(x) => V::C(x ^ (1 << (w - 1))),
            _ => if Self::is_fp(a) { let x = self.fp_of(a, w); let id = self.fp_id(w, FpN::Neg(x)); self.fp_v(id) } else { self.bin(BinOp::Xor, w, a, &V::C(1 << (w - 1))) },
        }
    }
    /// unary float function on concrete or tabulated values
    pub fn fun1(&mut self, w: u32, rw: u32, a: &V, f: &dyn Fn(f64) -> u64) -> V {
        let g = |x: u64| if w == 64 { f(f64::from_bits(x)) } else { f(f32::from_bits(x as u32) as f64) };
        match a {
            V::C(x) => V::C(g(*x)),
            _ => match self.pointwise1(a, w, rw, &g) { Some(v) => v, None => panic!("UNSUPPORTED float function of a symbolic term") },
        }
    }
    pub fn fcast(&mut self, op: CastOp, fw: u32, tw: u32, a: &V) -> V {
        let f = |x: u64| cfcast(op, fw, tw, x);
        match a {
            V::C(x) => V::C(f(*x)),
            V::S(s) => {
                let sum = !self.support_tab && op == CastOp::UiToFp && match &s.k { K::Tab(b, t) if b.len() > 8 => { let (b, t) = (b.clone(), t.clone()); self.lin_tab(&b, &t, fw).is_some() } _ => false };
                if !Self::is_fp(a) && !sum { if let Some(v) = self.pointwise1(a, fw, tw, &f) { return v; } }
                match op {
                    CastOp::UiToFp => { let l = self.lin_of(a, fw); if l.max == u64::MAX { let b = self.sym_bits(s); let id = self.vec_id(&b); let l = Lin { c: 0, terms: vec![(id, 1)], max: Self::vec_max(&self.vecs[id as usize].clone()) }; let id = self.fp_id(tw, FpN::FromU(tw, l)); return self.fp_v(id); } let id = self.fp_id(tw, FpN::FromU(tw, l)); self.fp_v(id) }
                    CastOp::SiToFp => {
                        let l = self.lin_of(a, fw);
                        if l.max > mask(fw) / 2 { panic!("UNSUPPORTED sitofp of possibly negative symbolic value"); }
                        let id = self.fp_id(tw, FpN::FromU(tw, l));
                        self.fp_v(id)
                    }
                    CastOp::FpExt | CastOp::FpTrunc => { let x = self.fp_of(a, fw); let id = self.fp_id(tw, FpN::Conv(tw, x)); self.fp_v(id) }
                    _ => panic!("UNSUPPORTED conversion of a symbolic floating point term"),
                }
            }
            _ => panic!(),
        }
    }
    /// increasing chain of constant operations over one unsigned integer
    fn mono(&self, f: u32) -> Option<Lin> {
        let (w, n) = &self.fps[f as usize];
        let fc = |x: u32| -> Option<f64> { if let FpN::Const(c) = self.fps[x as usize].1 { Some(if *w == 64 { f64::from_bits(c) } else { f32::from_bits(c as u32) as f64 }) } else { None } };
        match n {
            FpN::FromU(_, l) => Some(l.clone()),
            FpN::Bin(op, a, b) => match (fc(*a), fc(*b)) {
                (None, Some(k)) if k.is_finite() => match op { 0 | 1 => self.mono(*a), _ => if k > 0.0 { self.mono(*a) } else { None } },
                (Some(k), None) if k.is_finite() => match op { 0 => self.mono(*b), 2 if k > 0.0 => self.mono(*b), _ => None },
                _ => None,
            },
            FpN::Conv(_, a) => self.mono(*a),
            _ => None,
        }
    }
    fn mono_eval(&self, f: u32, x: u64) -> u64 {
        let (w, n) = &self.fps[f as usize];
        match n {
            FpN::FromU(_, _) => cfcast(CastOp::UiToFp, 64, *w, x),
            FpN::Const(c) => *c,
            FpN::Bin(op, a, b) => { let o = [FOp::Add, FOp::Sub, FOp::Mul, FOp::Div][*op as usize]; cfbin(o, *w, self.mono_eval(*a, x), self.mono_eval(*b, x)) }
            FpN::Conv(tw, a) => { let fw = self.fps[*a as usize].0; cfcast(if *tw > fw { CastOp::FpExt } else { CastOp::FpTrunc }, fw, *tw, self.mono_eval(*a, x)) }
            _ => panic!(),
        }
    }
    /// smallest x in [0,max+1] with f(x) >= k (strict: > k)
    fn threshold(&self, f: u32, max: u64, k: f64, strict: bool) -> u64 {
        let w = self.fps[f as usize].0;
        let val = |x: u64| { let b = self.mono_eval(f, x); if w == 64 { f64::from_bits(b) } else { f32::from_bits(b as u32) as f64 } };
        let (mut lo, mut hi) = (0u64, max + 1);
        while lo < hi {
            let mid = lo + (hi - lo) / 2;
            let v = val(mid);
            if if strict { v > k } else { v >= k } { hi = mid; } else { lo = mid + 1; }
        }
        lo
    }
    pub fn fcmp(&mut self, p: FPred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) { return V::bool(cfcmp(p, w, *x, *y)); }
        if !Self::is_fp(a) && !Self::is_fp(b) {
            let l = self.tab_limit;
            if let Some(v) = self.pointwise2(a, b, w, 1, l, &|x, y| cfcmp(p, w, x, y) as u64) { return v; }
        }
        // normalise to one symbolic integer against thresholds
        for swap in [false, true] {
            let (m, o) = if swap { (b, a) } else { (a, b) };
            let pp = if swap { fswap(p) } else { p };
            if !Self::is_fp(m) { continue; }
            let id = self.fp_of(m, w);
            if let Some(l) = self.mono(id) {
                if l.max >= 1 << 53 { continue; }
                let tab = match o { V::C(c) => Some((Rc::new(vec![]), vec![*c])), _ if !Self::is_fp(o) => self.as_tab(o, w, 10), _ => None };
                if let Some((base, t)) = tab {
                    let xv = self.lin_v(l.clone(), 64);
                    let tof = |c: u64| if w == 64 { f64::from_bits(c) } else { f32::from_bits(c as u32) as f64 };
                    if t.iter().any(|c| tof(*c).is_nan()) {
                        if base.is_empty() { return V::bool(matches!(pp, FPred::Uno | FPred::Ueq | FPred::Ugt | FPred::Uge | FPred::Ult | FPred::Ule | FPred::Une | FPred::True)); }
                        continue;
                    }
                    // value range must not produce NaN/inf
                    let ge: Vec<u64> = t.iter().map(|c| self.threshold(id, l.max, tof(*c), false)).collect();
                    let gt: Vec<u64> = t.iter().map(|c| self.threshold(id, l.max, tof(*c), true)).collect();
                    let gev = self.mk_tab(64, base.clone(), ge);
                    let gtv = self.mk_tab(64, base.clone(), gt);
                    let r = match pp {
                        FPred::Ogt | FPred::Ugt => self.icmp(Pred::Uge, 64, &xv, &gtv),
                        FPred::Oge | FPred::Uge => self.icmp(Pred::Uge, 64, &xv, &gev),
                        FPred::Olt | FPred::Ult => self.icmp(Pred::Ult, 64, &xv, &gev),
                        FPred::Ole | FPred::Ule => self.icmp(Pred::Ult, 64, &xv, &gtv),
                        FPred::Oeq | FPred::Ueq | FPred::One | FPred::Une => {
                            let x = self.icmp(Pred::Uge, 64, &xv, &gev);
                            let y = self.icmp(Pred::Ult, 64, &xv, &gtv);
                            let e = self.bin(BinOp::And, 1, &x, &y);
                            if matches!(pp, FPred::Oeq | FPred::Ueq) { e } else { self.bin(BinOp::Xor, 1, &e, &V::C(1)) }
                        }
                        FPred::Ord | FPred::True => V::C(1),
                        FPred::Uno | FPred::False => V::C(0),
                    };
                    return r;
                }
            }
        }
        let (x, y) = (self.fp_of(a, w), self.fp_of(b, w));
        let th = |c: &mut Ctx, t: Theory| c.theory_lit(t);
        let nan = |c: &mut Ctx| { let p = c.theory_lit(Theory::Nan(x)); let q = c.theory_lit(Theory::Nan(y)); c.or(p, q) };
        let l = match p {
            FPred::False => FALSE,
            FPred::True => TRUE,
            FPred::Oeq => th(self, Theory::Eq(x, y)),
            FPred::Une => neg(th(self, Theory::Eq(x, y))),
            FPred::Olt => th(self, Theory::Lt(x, y)),
            FPred::Ogt => th(self, Theory::Lt(y, x)),
            FPred::Ole => th(self, Theory::Le(x, y)),
            FPred::Oge => th(self, Theory::Le(y, x)),
            FPred::Ult => neg(th(self, Theory::Le(y, x))),
            FPred::Ugt => neg(th(self, Theory::Le(x, y))),
            FPred::Ule => neg(th(self, Theory::Lt(y, x))),
            FPred::Uge => neg(th(self, Theory::Lt(x, y))),
            FPred::Uno => nan(self),
            FPred::Ord => neg(nan(self)),
            FPred::Ueq => { let e = th(self, Theory::Eq(x, y)); let n = nan(self); self.or(e, n) }
            FPred::One => { let e = th(self, Theory::Eq(x, y)); let n = nan(self); let o = self.or(e, n); neg(o) }
        };
        self.lit_v(l)
    }
    fn theory_lit(&mut self, t: Theory) -> Lit {
        if let Some(v) = self.theory_map.get(&t) { return self.var_node[*v as usize] << 1; }
        let l = self.new_var();
        let v = self.nvars - 1;
        self.theory.insert(v, t.clone());
        self.theory_map.insert(t, v);
        l
    }
    fn fp_bits_cmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        let (x, y) = (self.fp_of(a, w), self.fp_of(b, w));
        let eq = if x == y { TRUE } else { let (x, y) = (x.min(y), x.max(y)); self.theory_lit(Theory::BitsEq(x, y)) };
        match p { Pred::Eq => self.lit_v(eq), Pred::Ne => self.lit_v(neg(eq)), _ => panic!("UNSUPPORTED integer comparison of floating point bits") }
    }

    // ---------- evaluation and solving ----------
    pub fn eval(&self, l: Lit, m: &Model) -> Option<bool> {
        let mut memo = m.memo.borrow_mut();
        if memo.len() < self.nodes.len() { memo.resize(self.nodes.len(), 0); }
        let mut st = vec![node(l)];
        while let Some(&x) = st.last() {
            if memo[x as usize] != 0 { st.pop(); continue; }
            match &self.nodes[x as usize] {
                Node::False => memo[x as usize] = 1,
                Node::Var(v) => memo[x as usize] = match m.vals.get(v) { Some(true) => 2, Some(false) => 1, None => if self.theory.contains_key(v) { 3 } else { 1 } },
                Node::And(a, b) => {
                    let (p, q) = (memo[node(*a) as usize], memo[node(*b) as usize]);
                    if p == 0 { st.push(node(*a)); continue; }
                    if q == 0 { st.push(node(*b)); continue; }
                    let val = |t: u8, l: Lit| if t == 3 { 3 } else { 1 + ((t - 1) ^ (l & 1) as u8) };
                    let (p, q) = (val(p, *a), val(q, *b));
                    memo[x as usize] = if p == 1 || q == 1 { 1 } else if p == 3 || q == 3 { 3 } else { 2 };
                }
                Node::Xor(a, b) => {
                    let (p, q) = (memo[node(*a) as usize], memo[node(*b) as usize]);
                    if p == 0 { st.push(node(*a)); continue; }
                    if q == 0 { st.push(node(*b)); continue; }
                    memo[x as usize] = if p == 3 || q == 3 { 3 } else { 1 + ((p - 1) ^ (q - 1) ^ ((a ^ b) & 1) as u8) };
                }
                Node::NXor(v) => {
                    let mut r = 0u8;
                    let mut pend = false;
                    let mut ind = false;
                    for y in v.iter() { match memo[*y as usize] { 0 => { st.push(*y); pend = true; } 3 => ind = true, t => r ^= t - 1 } }
                    if pend { continue; }
                    memo[x as usize] = if ind { 3 } else { 1 + r };
                }
                Node::Fn(b, t) => {
                    let mut k = 0usize;
                    let mut pend = false;
                    let mut ind = false;
                    for (j, y) in b.iter().enumerate() { match memo[*y as usize] { 0 => { st.push(*y); pend = true; } 3 => ind = true, v => k |= ((v - 1) as usize) << j } }
                    if pend { continue; }
                    memo[x as usize] = if ind { 3 } else { 1 + (t[k >> 6] >> (k & 63) & 1) as u8 };
                }
            }
            st.pop();
        }
        match memo[node(l) as usize] { 3 => None, t => Some((t == 2) ^ (l & 1 == 1)) }
    }
    pub fn eval_bits(&self, bits: &[Lit], m: &Model) -> u64 {
        let mut r = 0;
        for (i, l) in bits.iter().enumerate() { if i < 64 && self.eval(*l, m).unwrap_or(false) { r |= 1 << i; } }
        r
    }
    fn zinit(&mut self) {
        let want_fp = !self.theory.is_empty();
        let have = self.z.as_ref().map(|z| z.fp);
        if have == Some(want_fp) { return; }
        self.z = Some(Z3::new(want_fp, self.timeout_ms, self.seed));
        self.emitted.clear();
        self.z_nodes = 0;
        self.slow = 0.0;
        self.emitted_vars.clear();
        self.fp_emitted.clear();
    }
    /// number of nodes these literals are made of
    fn cone(&self, a: &[Lit]) -> usize {
        let mut seen: std::collections::HashSet<u32> = Default::default();
        let mut st: Vec<u32> = a.iter().map(|l| node(*l)).collect();
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            match &self.nodes[x as usize] {
                Node::And(a, b) | Node::Xor(a, b) => { st.push(node(*a)); st.push(node(*b)); }
                Node::NXor(v) => st.extend(v.iter().copied()),
                Node::Fn(b, _) => st.extend(b.iter().copied()),
                _ => {}
            }
        }
        seen.len()
    }
    fn zlit(&mut self, l: Lit) -> P {
        let n = self.emit(node(l));
        if l & 1 == 1 { self.z.as_ref().unwrap().not(n) } else { n }
    }
    fn emit(&mut self, root: u32) -> P {
        if self.emitted.len() < self.nodes.len() { self.emitted.resize(self.nodes.len(), std::ptr::null_mut()); }
        let mut st = vec![root];
        while let Some(&x) = st.last() {
            if !self.emitted[x as usize].is_null() { st.pop(); continue; }
            let kids: Vec<Lit> = match &self.nodes[x as usize] {
                Node::False => vec![],
                Node::Var(_) => vec![],
                Node::And(a, b) | Node::Xor(a, b) => vec![*a, *b],
                Node::NXor(v) => v.iter().map(|y| y << 1).collect(),
                Node::Fn(b, _) => b.iter().map(|y| y << 1).collect(),
            };
            let mut ready = true;
            for k in &kids { if self.emitted[node(*k) as usize].is_null() { st.push(node(*k)); ready = false; } }
            if !ready { continue; }
            st.pop();
            let nd = self.nodes[x as usize].clone();
            self.z_nodes += 1;
            match nd {
                Node::False => {
                    let z = self.z.as_ref().unwrap();
                    let v = z.var(x);
                    z.add(z.not(v));
                    self.emitted[x as usize] = v;
                }
                Node::Var(var) => {
                    let p = self.z.as_ref().unwrap().var(x);
                    self.emitted[x as usize] = p;
                    self.emitted_vars.push((var, p));
                    if let Some(t) = self.theory.get(&var).cloned() {
                        let d = self.emit_theory(&t);
                        let z = self.z.as_ref().unwrap();
                        z.add(z.iff(p, d));
                    }
                }
                Node::And(a, b) => {
                    let (pa, pb) = (self.lit_emitted(a), self.lit_emitted(b));
                    let z = self.z.as_ref().unwrap();
                    let v = z.var(x);
                    z.add(z.or(&[z.not(v), pa]));
                    z.add(z.or(&[z.not(v), pb]));
                    z.add(z.or(&[v, z.not(pa), z.not(pb)]));
                    self.emitted[x as usize] = v;
                }
                Node::Xor(a, b) => {
                    let (pa, pb) = (self.lit_emitted(a), self.lit_emitted(b));
                    let z = self.z.as_ref().unwrap();
                    let v = z.var(x);
                    Self::zxor(z, v, pa, pb);
                    self.emitted[x as usize] = v;
                }
                Node::NXor(vs) => {
                    let z = self.z.as_ref().unwrap();
                    let v = z.var(x);
                    let mut acc = self.emitted[vs[0] as usize];
                    for (i, y) in vs.iter().enumerate().skip(1) {
                        let t = if i + 1 == vs.len() { v } else { z.var(0x4000_0000u32.wrapping_add(self.emitted_aux())) };
                        Self::zxor(z, t, acc, self.emitted[*y as usize]);
                        acc = t;
                    }
                    self.emitted[x as usize] = v;
                }
                Node::Fn(b, t) => {
                    let p = self.emit_fn(&b, &t);
                    self.emitted[x as usize] = p;
                }
            }
        }
        self.emitted[root as usize]
    }
    /// truth table as a shared decision diagram over the base nodes
    fn emit_fn(&mut self, base: &[u32], t: &[u64]) -> P {
        let z = self.z.as_ref().unwrap();
        let tru = z.tru();
        let fls = z.not(tru);
        let n = base.len();
        let mut level: Vec<u32> = (0..1usize << n).map(|i| (t[i >> 6] >> (i & 63) & 1) as u32).collect();
        let mut zs: Vec<P> = vec![fls, tru];
        let mut made: HashMap<(usize, u32, u32), u32> = HashMap::new();
        for j in 0..n {
            let c = self.emitted[base[j] as usize];
            let mut next = Vec::with_capacity(level.len() / 2);
            for k in 0..level.len() / 2 {
                let (lo, hi) = (level[2 * k], level[2 * k + 1]);
                next.push(if lo == hi { lo } else {
                    *made.entry((j, lo, hi)).or_insert_with(|| {
                        let v = z.var(0x4000_0000u32.wrapping_add(self.emitted_aux()));
                        let (l, h) = (zs[lo as usize], zs[hi as usize]);
                        let (nv, nc, nl, nh) = (z.not(v), z.not(c), z.not(l), z.not(h));
                        z.add(z.or(&[nc, nv, h]));
                        z.add(z.or(&[nc, v, nh]));
                        z.add(z.or(&[c, nv, l]));
                        z.add(z.or(&[c, v, nl]));
                        z.add(z.or(&[nv, l, h]));
                        z.add(z.or(&[v, nl, nh]));
                        zs.push(v);
                        (zs.len() - 1) as u32
                    })
                });
            }
            level = next;
        }
        zs[level[0] as usize]
    }
    fn emitted_aux(&self) -> u32 {
        thread_local!(static N: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
        N.with(|n| { let v = n.get(); n.set((v + 1) & 0x3fff_ffff); v })
    }
    fn zxor(z: &Z3, v: P, a: P, b: P) {
        let (nv, na, nb) = (z.not(v), z.not(a), z.not(b));
        z.add(z.or(&[nv, a, b]));
        z.add(z.or(&[nv, na, nb]));
        z.add(z.or(&[v, na, b]));
        z.add(z.or(&[v, a, nb]));
    }
    fn lit_emitted(&self, l: Lit) -> P { let n = self.emitted[node(l) as usize]; if l & 1 == 1 { self.z.as_ref().unwrap().not(n) } else { n } }
    fn emit_theory(&mut self, t: &Theory) -> P {
        match t {
            Theory::Lt(a, b) => { let (x, y) = (self.emit_fp(*a), self.emit_fp(*b)); self.z.as_ref().unwrap().flt(x, y) }
            Theory::Le(a, b) => { let (x, y) = (self.emit_fp(*a), self.emit_fp(*b)); self.z.as_ref().unwrap().fle(x, y) }
            Theory::Eq(a, b) => { let (x, y) = (self.emit_fp(*a), self.emit_fp(*b)); self.z.as_ref().unwrap().feq(x, y) }
            Theory::BitsEq(a, b) => { let (x, y) = (self.emit_fp(*a), self.emit_fp(*b)); self.z.as_ref().unwrap().eq(x, y) }
            Theory::Nan(a) => { let x = self.emit_fp(*a); self.z.as_ref().unwrap().fnan(x) }
        }
    }
    fn emit_fp(&mut self, f: u32) -> P {
        if let Some(p) = self.fp_emitted.get(&f) { return *p; }
        let (w, n) = self.fps[f as usize].clone();
        let p = match n {
            FpN::Const(c) => { let z = self.z.as_ref().unwrap(); z.fp_of_bv(z.bv_const(c, w), w) }
            FpN::FromU(_, l) => {
                let b = self.lin_bits(&l, 64);
                let ps: Vec<P> = b.iter().map(|x| self.zlit_nested(*x)).collect();
                let z = self.z.as_ref().unwrap();
                z.fp_of_uint(z.bv_of_bits(&ps), w)
            }
            FpN::FromBits(_, v) | FpN::FromTab(_, v) => {
                let b = self.vecs[v as usize].clone();
                let ps: Vec<P> = b.iter().map(|x| self.zlit_nested(*x)).collect();
                let z = self.z.as_ref().unwrap();
                z.fp_of_bv(z.bv_of_bits(&ps), w)
            }
            FpN::Bin(o, a, b) => { let (x, y) = (self.emit_fp(a), self.emit_fp(b)); self.z.as_ref().unwrap().fbin(o, x, y) }
            FpN::Neg(a) => { let x = self.emit_fp(a); self.z.as_ref().unwrap().fneg(x) }
            FpN::Conv(tw, a) => { let x = self.emit_fp(a); self.z.as_ref().unwrap().fp_conv(x, tw) }
        };
        self.fp_emitted.insert(f, p);
        p
    }
    fn zlit_nested(&mut self, l: Lit) -> P {
        if l <= 1 { let z = self.z.as_ref().unwrap(); let t = z.tru(); return if l == 1 { t } else { z.not(t) }; }
        self.zlit(l)
    }
    pub fn check(&mut self, pc: &[Lit], extra: &[Lit]) -> Res {
        let mut a: Vec<Lit> = vec![];
        for l in pc.iter().chain(extra) {
            let l = self.norm(*l);
            if l == FALSE { return Res::Unsat; }
            if l != TRUE { a.push(l); }
        }
        a.sort_unstable();
        a.dedup();
        for i in 1..a.len() { if a[i] == a[i - 1] ^ 1 { return Res::Unsat; } }
        if a.is_empty() { return Res::Sat(Model::empty()); }
        if self.support_tab && self.theory.is_empty() {
            // independent groups of conjuncts; those of few variables are decided by truth table
            let mut groups: Vec<(Vec<Lit>, Vec<u32>)> = vec![];
            for l in &a {
                let mut g = (vec![*l], (*self.full_support(node(*l))).clone());
                let mut i = 0;
                while i < groups.len() {
                    if groups[i].1.iter().any(|v| g.1.binary_search(v).is_ok()) {
                        let h = groups.swap_remove(i);
                        g.0.extend(h.0);
                        g.1.extend(h.1);
                        g.1.sort_unstable();
                        g.1.dedup();
                    } else { i += 1; }
                }
                groups.push(g);
            }
            let mut rest = vec![];
            let mut vals = HashMap::new();
            let mut unsat = false;
            for (g, _) in groups {
                match self.fold(&g) {
                    None => rest.extend(g),
                    Some(None) => { unsat = true; break; }
                    Some(Some(m)) => vals.extend(m),
                }
            }
            let r = if unsat { Res::Unsat } else if rest.is_empty() { Res::Sat(Rc::new(Model { vals: vals.clone(), memo: RefCell::new(vec![]) })) } else {
                return match self.ask(&rest) {
                    Res::Sat(m) => { vals.extend(m.vals.iter().map(|(k, v)| (*k, *v))); Res::Sat(Rc::new(Model { vals, memo: RefCell::new(vec![]) })) }
                    r => r,
                };
            };
            self.stats.folded += 1;
            if let Res::Sat(m) = &r { for l in &a { if self.eval(*l, m) == Some(false) { panic!("folded model does not satisfy the query"); } } }
            if self.xcheck {
                let s = matches!(r, Res::Sat(_));
                match self.ask(&a) { Res::Sat(_) if !s => panic!("solver disagrees with the truth table"), Res::Unsat if s => panic!("solver disagrees with the truth table"), _ => {} }
            }
            return r;
        }
        self.ask(&a)
    }
    /// a conjunction of few variables decided by its truth table
    fn fold(&mut self, a: &[Lit]) -> Option<Option<HashMap<u32, bool>>> {
        let nodes: Vec<u32> = a.iter().map(|l| node(*l)).collect();
        let vars = Rc::new(self.sup_base(&nodes)?);
        let size = 1usize << vars.len();
        let words = (size + 63) / 64;
        let mut acc = vec![u64::MAX; words];
        if size < 64 { acc[0] = (1u64 << size) - 1; }
        for l in a {
            let k = (node(*l), vars.clone());
            let t = match self.tt_memo.get(&k) { Some(t) => t.clone(), None => { let t = Rc::new(self.node_tt(node(*l), &vars)); self.tt_memo.insert(k, t.clone()); t } };
            let s = if l & 1 == 1 { u64::MAX } else { 0 };
            for i in 0..words { acc[i] &= t[i] ^ s; }
        }
        match acc.iter().position(|w| *w != 0) {
            None => Some(None),
            Some(w) => {
                let i = w * 64 + acc[w].trailing_zeros() as usize;
                let mut vals = HashMap::new();
                for (j, n) in vars.iter().enumerate() { if let Node::Var(v) = self.nodes[*n as usize] { vals.insert(v, i >> j & 1 == 1); } }
                Some(Some(vals))
            }
        }
    }
    /// one literal for the conjunction, if it depends on at most `limit` variables
    pub fn conj(&mut self, a: &[Lit], limit: usize) -> Option<Lit> {
        let nodes: Vec<u32> = a.iter().map(|l| node(*l)).collect();
        let vars = Rc::new(self.sup_base(&nodes)?);
        if vars.len() > limit { return None; }
        let size = 1usize << vars.len();
        let words = (size + 63) / 64;
        let mut acc = vec![u64::MAX; words];
        for l in a {
            let k = (node(*l), vars.clone());
            let t = match self.tt_memo.get(&k) { Some(t) => t.clone(), None => { let t = Rc::new(self.node_tt(node(*l), &vars)); self.tt_memo.insert(k, t.clone()); t } };
            let s = if l & 1 == 1 { u64::MAX } else { 0 };
            for i in 0..words { acc[i] &= t[i] ^ s; }
        }
        if size < 64 { acc[0] &= (1u64 << size) - 1; }
        Some(self.build_fn(&vars, acc, vars.len()))
    }
    pub fn support_of(&mut self, l: Lit) -> Rc<Vec<u32>> { self.full_support(node(l)) }
    fn node_tt(&mut self, n: u32, vars: &Rc<Vec<u32>>) -> Vec<u64> {
        self.node_table(n, vars)
    }
    pub fn show(&self, l: Lit, d: u32) -> String {
        let s = match &self.nodes[node(l) as usize] {
            Node::False => "0".to_string(),
            Node::Var(v) => format!("v{}", v),
            _ if d == 0 => format!("n{}", node(l)),
            Node::And(a, b) => format!("({} & {})", self.show(*a, d - 1), self.show(*b, d - 1)),
            Node::Xor(a, b) => format!("({} ^ {})", self.show(*a, d - 1), self.show(*b, d - 1)),
            Node::NXor(v) => if d == 0 { format!("x{}", v.len()) } else { format!("x[{}]", v.iter().map(|x| self.show(*x << 1, d - 1)).collect::<Vec<_>>().join(" ^ ")) },
            Node::Fn(v, _) => format!("f{}", v.len()),
        };
        if l & 1 == 1 { format!("!{}", s) } else { s }
    }
    /// can any of these pairs differ? Asked of the solver even where the two sides are one expression.
    /// (value, value, width, floating point: equal if the same number or both not a number)
    pub fn differ(&mut self, pc: &[Lit], pairs: &[(V, V, u32, bool)]) -> Res {
        if pairs.iter().any(|p| p.3) { let z = self.fp_of(&V::C(0), 64); self.theory_lit(Theory::Nan(z)); }
        self.zinit();
        let t0 = Instant::now();
        let mut diff = vec![];
        for (a, b, w, fp) in pairs {
            if a.is_c() && b.is_c() && a.c() == b.c() { continue; }
            if *fp {
                let (x, y) = (self.fp_of(a, *w), self.fp_of(b, *w));
                let (x, y) = (self.emit_fp(x), self.emit_fp(y));
                let z = self.z.as_ref().unwrap();
                diff.push(z.not(z.eq(x, y)));
            } else {
                let (x, y) = (self.bits_of(a, *w), self.bits_of(b, *w));
                for (l, k) in x.iter().zip(y.iter()) {
                    if *l <= 1 && l == k { continue; }
                    let (l, k) = (self.zlit_nested(*l), self.zlit_nested(*k));
                    diff.push(self.z.as_ref().unwrap().xor(l, k));
                }
            }
        }
        if diff.is_empty() { return Res::Unsat; }
        let mut ps: Vec<P> = vec![];
        for l in pc { let l = self.norm(*l); if l == FALSE { return Res::Unsat; } if l != TRUE { ps.push(self.zlit(l)); } }
        let z = self.z.as_ref().unwrap();
        let d = z.var(0x4000_0000u32.wrapping_add(self.emitted_aux()));
        diff.push(z.not(d));
        z.add(z.or(&diff));
        ps.push(d);
        let r = z.check(&ps);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.solver_s += dt;
        if dt > self.stats.max_query_s { self.stats.max_query_s = dt; }
        match r {
            1 => { self.stats.sat += 1; let m = self.z.as_ref().unwrap().model(&self.emitted_vars); Res::Sat(Rc::new(Model { vals: m.into_iter().collect(), memo: RefCell::new(vec![]) })) }
            -1 => { self.stats.unsat += 1; Res::Unsat }
            _ => { self.stats.unknown += 1; let r = self.z.as_ref().unwrap().reason(); Res::Unknown(r) }
        }
    }
    fn ask(&mut self, a: &[Lit]) -> Res {
        if std::env::var("SYMX_DUMP").is_ok() { for l in a { eprintln!("ASK {}", self.show(*l, 7)); } }
        self.zinit();
        let t0 = Instant::now();
        // a solver that holds many definitions this query does not need is replaced by a fresh one
        if self.slow > 0.03 && self.z_nodes > 400 {
            self.slow = 0.0;
            if self.cone(a) * 4 < self.z_nodes { self.z = None; self.zinit(); }
        }
        let ps: Vec<P> = a.iter().map(|l| self.zlit(*l)).collect();
        let r = self.z.as_ref().unwrap().check(&ps);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.solver_s += dt;
        if dt > 0.001 { self.slow += dt; }
        if dt > self.stats.max_query_s { self.stats.max_query_s = dt; }
        match r {
            1 => {
                self.stats.sat += 1;
                let m = self.z.as_ref().unwrap().model(&self.emitted_vars);
                let md = Rc::new(Model { vals: m.into_iter().collect(), memo: RefCell::new(vec![]) });
                for l in a { if self.eval(*l, &md) == Some(false) { panic!("solver model does not satisfy the query"); } }
                Res::Sat(md)
            }
            -1 => { self.stats.unsat += 1; Res::Unsat }
            _ => { self.stats.unknown += 1; let r = self.z.as_ref().unwrap().reason(); Res::Unknown(r) }
        }
    }
}

fn fswap(p: FPred) -> FPred {
    match p { FPred::Ogt => FPred::Olt, FPred::Oge => FPred::Ole, FPred::Olt => FPred::Ogt, FPred::Ole => FPred::Oge, FPred::Ugt => FPred::Ult, FPred::Uge => FPred::Ule, FPred::Ult => FPred::Ugt, FPred::Ule => FPred::Uge, p => p }
}

#[inline]
pub fn cbin(op: BinOp, w: u32, a: u64, b: u64) -> Option<u64> {
    let m = mask(w);
    Some(match op {
        BinOp::Add => a.wrapping_add(b) & m,
        BinOp::Sub => a.wrapping_sub(b) & m,
        BinOp::Mul => a.wrapping_mul(b) & m,
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => if b >= w as u64 { 0 } else { (a << b) & m },
        BinOp::LShr => if b >= w as u64 { 0 } else { a >> b },
        BinOp::AShr => if b >= w as u64 { 0 } else { (((sext(a, w) as i64) >> b) as u64) & m },
        BinOp::UDiv => { if b == 0 { return None; } a / b }
        BinOp::URem => { if b == 0 { return None; } a % b }
        BinOp::SDiv => { if b == 0 { return None; } ((sext(a, w) as i64).wrapping_div(sext(b, w) as i64) as u64) & m }
        BinOp::SRem => { if b == 0 { return None; } ((sext(a, w) as i64).wrapping_rem(sext(b, w) as i64) as u64) & m }
    })
}
#[inline]
pub fn cicmp(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b,
        Pred::Sgt => sext(a, w) as i64 > sext(b, w) as i64, Pred::Sge => sext(a, w) as i64 >= sext(b, w) as i64,
        Pred::Slt => (sext(a, w) as i64) < sext(b, w) as i64, Pred::Sle => sext(a, w) as i64 <= sext(b, w) as i64,
    }
}
pub fn cfbin(op: FOp, w: u32, a: u64, b: u64) -> u64 {
    if w == 64 {
        let (x, y) = (f64::from_bits(a), f64::from_bits(b));
        (match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y }).to_bits()
    } else {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        (match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y }).to_bits() as u64
    }
}
pub fn cfcmp(p: FPred, w: u32, a: u64, b: u64) -> bool {
    let (x, y) = if w == 64 { (f64::from_bits(a), f64::from_bits(b)) } else { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) };
    let u = x.is_nan() || y.is_nan();
    match p {
        FPred::False => false, FPred::True => true, FPred::Ord => !u, FPred::Uno => u,
        FPred::Oeq => x == y, FPred::Ogt => x > y, FPred::Oge => x >= y, FPred::Olt => x < y, FPred::Ole => x <= y, FPred::One => !u && x != y,
        FPred::Ueq => u || x == y, FPred::Ugt => u || x > y, FPred::Uge => u || x >= y, FPred::Ult => u || x < y, FPred::Ule => u || x <= y, FPred::Une => u || x != y,
    }
}
pub fn cfcast(op: CastOp, fw: u32, tw: u32, x: u64) -> u64 {
    let f = || if fw == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
    match op {
        CastOp::FpTrunc => ((f64::from_bits(x)) as f32).to_bits() as u64,
        CastOp::FpExt => (f32::from_bits(x as u32) as f64).to_bits(),
        CastOp::FpToUi => (f() as u64) & mask(tw),
        CastOp::FpToSi => (f() as i64 as u64) & mask(tw),
        CastOp::UiToFp => if tw == 64 { (x as f64).to_bits() } else { (x as f32).to_bits() as u64 },
        CastOp::SiToFp => { let s = sext(x, fw) as i64; if tw == 64 { (s as f64).to_bits() } else { (s as f32).to_bits() as u64 } }
        _ => x,
    }
}
