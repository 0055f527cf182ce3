//! The symbolic executor: states, memory, branching with merging at post-dominators, calls.
use crate::ir::*;
use crate::val::*;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

const PG: u64 = 256;

/// errno: the lowest object of the heap
const ERRNO_AT: u64 = HEAP_BASE;
#[derive(Clone)]
pub struct Page {
    b: Vec<u8>,
    s: Option<Vec<Option<(Rc<Sym>, u8)>>>,
}
#[derive(Clone)]
pub struct Obj {
    base: u64,
    size: u64,
    pages: Rc<Vec<Rc<Page>>>,
}
#[derive(Clone)]
pub struct Mem {
    objs: Vec<Obj>,
    last: Cell<usize>,
}
impl Mem {
    #[inline]
    fn find(&self, addr: u64, size: u64) -> Option<usize> {
        let l = self.last.get();
        if l < self.objs.len() {
            let o = &self.objs[l];
            if addr >= o.base && addr.wrapping_add(size) <= o.base + o.size && addr.wrapping_add(size) >= addr { return Some(l); }
        }
        let i = self.objs.partition_point(|o| o.base <= addr);
        if i == 0 { return None; }
        let o = &self.objs[i - 1];
        if addr.wrapping_add(size) >= addr && addr + size <= o.base + o.size { self.last.set(i - 1); Some(i - 1) } else { None }
    }
    fn page_mut(&mut self, oi: usize, p: usize) -> &mut Page { Rc::make_mut(&mut Rc::make_mut(&mut self.objs[oi].pages)[p]) }
    fn remove(&mut self, base: u64) -> bool {
        if let Ok(i) = self.objs.binary_search_by(|o| o.base.cmp(&base)) { self.objs.remove(i); true } else { false }
    }
}

#[derive(Clone)]
pub struct Frame {
    func: Rc<Func>,
    fi: u32,
    regs: Vec<V>,
    block: u32,
    ip: u32,
    dest: Option<u32>,
    allocas: Vec<u64>,
}
#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    pc: Rc<Vec<Lit>>,
    model: Option<Rc<Model>>,
    inputs: Rc<Vec<Vec<V>>>,
    notes: Rc<Vec<(u64, u64)>>,
    expect_panic: bool,
    /// instructions run on this path
    steps: u64,
}

#[derive(Clone, Copy)]
pub struct Stop { depth: usize, block: u32 } // block == u32::MAX: return of frame `depth`

enum Trap { Oob(u64, &'static str), Conc(V), Budget(String), DivZero, Infeasible }
enum Ev { Stop, Dead, Branch(Vec<(u32, Lit)>), Conc(V), Panic(String) }

pub struct Opts {
    pub merge: bool,
    pub merge_int: bool,
    pub merge_mem: bool,
    pub max_insts: u64,
    pub max_path: u64,
    pub max_forks: u64,
    pub max_seconds: f64,
    pub spec: usize,
    pub conc_limit: usize,
    pub slice: bool,
}

pub struct Violation { pub kind: String, pub inputs: Vec<Vec<u8>>, pub loc: Vec<(String, u32, String)> }

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ctx: Ctx,
    pub opts: Opts,
    pub params: Vec<u64>,
    pub conc: Option<Vec<Vec<u8>>>,
    next_addr: u64,
    tinfo: Vec<(u32, u64)>, // scalar width (0 = aggregate), size
    regw: HashMap<u32, Rc<Vec<u32>>>,
    region_memo: HashMap<(u32, u32), bool>,
    pub insts: u64,
    pub sym_insts: u64,
    pub forks: u64,
    pub merges: u64,
    pub merge_fail: u64,
    pub paths: u64,
    pub lost: u64,
    pub asserts_simpl: u64,
    pub asserts_solver: u64,
    pub reach: BTreeMap<u64, u64>,
    pub violation: Option<Violation>,
    /// inputs of a path that ran into its instruction limit (it may not terminate)
    pub candidate: Option<Violation>,
    next_check: u64,
    pub witnesses: Vec<Vec<Vec<u8>>>,
    pub notes_out: Vec<Vec<(u64, u64)>>,
    pub visited: Vec<Vec<u64>>,
    pub fail: Option<String>,
    pub assumes: u64,
    start: Instant,
    zero_page: Rc<Page>,
    pub fork_sites: HashMap<(u32, u32), u64>,
    pub mf_sites: HashMap<(String, u32), u64>,
    pub conc_sites: HashMap<(String, u32), u64>,
    mf_why: &'static str,
    pub trace: bool, pub fs: bool,
    qcache: HashMap<Vec<Lit>, bool>,
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, opts: Opts) -> Exec<'m> {
        Exec {
            m, ctx: Ctx::new(), opts, params: vec![], conc: None, next_addr: HEAP_BASE + 64, tinfo: vec![], regw: HashMap::new(), region_memo: HashMap::new(), insts: 0, sym_insts: 0, forks: 0, merges: 0, merge_fail: 0,
            paths: 0, lost: 0, asserts_simpl: 0, asserts_solver: 0, reach: BTreeMap::new(), violation: None, candidate: None, next_check: 0, witnesses: vec![], notes_out: vec![], visited: vec![vec![]; m.funcs.len()], fail: None, assumes: 0, start: Instant::now(),
            zero_page: Rc::new(Page { b: vec![0; PG as usize], s: None }), fork_sites: HashMap::new(), mf_sites: HashMap::new(), conc_sites: HashMap::new(), mf_why: "", trace: false, fs: false, qcache: HashMap::new(),
        }
    }
    fn tw(&mut self, t: TyId) -> (u32, u64) {
        if let Some(x) = self.tinfo.get(t as usize) { return *x; }
        let n = self.m.types.borrow().len();
        for i in self.tinfo.len()..n {
            let w = match self.m.t(i as u32) { Ty::Int(w) => w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 };
            let s = self.m.size(i as u32);
            self.tinfo.push((w, s));
        }
        self.tinfo[t as usize]
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let a = align.max(16);
        let base = (self.next_addr + a - 1) / a * a;
        self.next_addr = base + size + 32;
        let mut pages = vec![];
        let mut r = size;
        while r > 0 {
            let n = r.min(PG);
            pages.push(if n == PG { self.zero_page.clone() } else { Rc::new(Page { b: vec![0; n as usize], s: None }) });
            r -= n;
        }
        st.mem.objs.push(Obj { base, size, pages: Rc::new(pages) });
        base
    }
    fn init_state(&mut self, fi: u32) -> State {
        let mut objs = vec![];
        for g in &self.m.globals {
            if g.constant { continue; }
            let pages = g.data.chunks(PG as usize).map(|c| Rc::new(Page { b: c.to_vec(), s: None })).collect();
            objs.push(Obj { base: g.addr, size: g.size, pages: Rc::new(pages) });
        }
        objs.push(Obj { base: ERRNO_AT, size: 8, pages: Rc::new(vec![Rc::new(Page { b: vec![0; 8], s: None })]) });
        let func = self.m.func(fi);
        let regs = vec![V::C(0); func.nregs as usize];
        let fr = Frame { func, fi, regs, block: 0, ip: 0, dest: None, allocas: vec![] };
        self.visit(fi, 0);
        State { frames: vec![Rc::new(fr)], mem: Mem { objs, last: Cell::new(0) }, pc: Rc::new(vec![]), model: Some(Model::empty()), inputs: Rc::new(vec![]), notes: Rc::new(vec![]), expect_panic: false, steps: 0 }
    }
    #[inline]
    fn visit(&mut self, fi: u32, b: u32) {
        let v = &mut self.visited[fi as usize];
        let i = b as usize / 64;
        if v.len() <= i { v.resize(i + 1, 0); }
        v[i] |= 1 << (b % 64);
    }

    // ---------- memory ----------
    /// read `n` bytes; concrete and symbolic parts
    fn rd(&mut self, st: &State, addr: u64, size: u64, w: u32) -> Result<V, Trap> {
        if addr < HEAP_BASE {
            let gs = &self.m.globals;
            let i = gs.partition_point(|g| g.addr <= addr);
            if i > 0 {
                let g = &gs[i - 1];
                if g.constant {
                    if addr + size <= g.addr + g.size {
                        let o = (addr - g.addr) as usize;
                        return Ok(Self::conc_bytes(&g.data[o..o + size as usize], w));
                    }
                    return Err(Trap::Oob(addr, "read"));
                }
            }
        }
        let oi = st.mem.find(addr, size).ok_or(Trap::Oob(addr, "read"))?;
        let o = &st.mem.objs[oi];
        let off = addr - o.base;
        let p = (off / PG) as usize;
        let po = (off % PG) as usize;
        if po as u64 + size <= PG {
            let pg = &o.pages[p];
            match &pg.s {
                None => return Ok(Self::conc_bytes(&pg.b[po..po + size as usize], w)),
                Some(s) => {
                    let sl = &s[po..po + size as usize];
                    if sl.iter().all(|x| x.is_none()) { return Ok(Self::conc_bytes(&pg.b[po..po + size as usize], w)); }
                    // whole value
                    if let Some((s0, 0)) = &sl[0] {
                        if ((s0.w + 7) / 8) as u64 == size && sl.iter().enumerate().all(|(i, x)| matches!(x, Some((s1, k)) if *k as usize == i && Rc::ptr_eq(s0, s1))) {
                            let s0 = s0.clone();
                            if s0.w == w { return Ok(V::S(s0)); }
                            let op = if s0.w < w { CastOp::Zext } else { CastOp::Trunc };
                            let sw = s0.w;
                            return Ok(self.ctx.cast(op, sw, w, &V::S(s0)));
                        }
                    }
                }
            }
        }
        // byte by byte
        let mut parts = Vec::with_capacity(size as usize);
        for i in 0..size {
            let f = off + i;
            let pg = &o.pages[(f / PG) as usize];
            let po = (f % PG) as usize;
            match &pg.s {
                Some(s) if s[po].is_some() => {
                    let (sy, k) = s[po].clone().unwrap();
                    parts.push(self.ctx.byte_of(&sy, k as u32));
                }
                _ => parts.push(V::C(pg.b[po] as u64)),
            }
        }
        if parts.iter().all(|p| p.is_c()) {
            let b: Vec<u8> = parts.iter().map(|p| p.c() as u8).collect();
            return Ok(Self::conc_bytes(&b, w));
        }
        if size == 1 && w == 8 { return Ok(parts.pop().unwrap()); }
        Ok(self.ctx.concat_bytes(&parts, w))
    }
    #[inline]
    fn conc_bytes(b: &[u8], w: u32) -> V {
        if w > 64 {
            let mut x = [0u8; 16];
            x[..b.len().min(16)].copy_from_slice(&b[..b.len().min(16)]);
            return V::W(Rc::new(u128::from_le_bytes(x)));
        }
        let mut x = [0u8; 8];
        x[..b.len()].copy_from_slice(b);
        let v = u64::from_le_bytes(x);
        V::C(if w < 64 { v & mask(w) } else { v })
    }
    fn wr(&mut self, st: &mut State, addr: u64, size: u64, v: &V) -> Result<(), Trap> {
        let oi = st.mem.find(addr, size).ok_or(Trap::Oob(addr, "write"))?;
        let off = addr - st.mem.objs[oi].base;
        let bytes: [u8; 16] = match v { V::C(c) => { let mut b = [0u8; 16]; b[..8].copy_from_slice(&c.to_le_bytes()); b } V::W(x) => x.to_le_bytes(), _ => [0; 16] };
        let sym = match v { V::S(s) => Some(s.clone()), _ => None };
        let mut i = 0u64;
        while i < size {
            let f = off + i;
            let p = (f / PG) as usize;
            let po = (f % PG) as usize;
            let n = (PG - f % PG).min(size - i) as usize;
            let pg = st.mem.page_mut(oi, p);
            match &sym {
                None => {
                    pg.b[po..po + n].copy_from_slice(&bytes[i as usize..i as usize + n]);
                    if let Some(s) = &mut pg.s { for k in po..po + n { s[k] = None; } }
                }
                Some(sy) => {
                    let len = pg.b.len();
                    let s = pg.s.get_or_insert_with(|| vec![None; len]);
                    let nb = ((sy.w + 7) / 8) as u64;
                    for k in 0..n { if i + (k as u64) < nb { s[po + k] = Some((sy.clone(), (i + k as u64) as u8)); } else { s[po + k] = None; pg.b[po + k] = 0; } }
                }
            }
            i += n as u64;
        }
        Ok(())
    }
    fn load_ty(&mut self, st: &State, addr: u64, ty: TyId) -> Result<V, Trap> {
        let (w, s) = self.tw(ty);
        if w != 0 { return self.rd(st, addr, if w > 64 { ((w + 7) / 8) as u64 } else { ((w + 7) / 8) as u64 }.max(1).min(s), w); }
        match self.m.t(ty) {
            Ty::Vec(e, n) if self.tw(e).0 == 1 => { let v = self.rd(st, addr, s, 8 * s as u32)?; let mut o = vec![]; for i in 0..n { let x = self.ctx.bin(BinOp::LShr, 8 * s as u32, &v, &V::C(i as u64)); o.push(self.ctx.cast(CastOp::Trunc, 8 * s as u32, 1, &x)); } Ok(V::A(Rc::new(o))) }
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let n = match self.m.t(ty) { Ty::Arr(_, n) => n as usize, Ty::Vec(_, n) => n as usize, Ty::Struct(f, _) => f.len(), _ => 0 };
                let mut o = vec![];
                for i in 0..n { let (fo, fe) = self.m.field_off(ty, i); o.push(self.load_ty(st, addr + fo, fe)?); }
                Ok(V::A(Rc::new(o)))
            }
            _ => Ok(V::C(0)),
        }
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, ty: TyId, v: &V) -> Result<(), Trap> {
        let (w, s) = self.tw(ty);
        if w != 0 { return self.wr(st, addr, (((w + 7) / 8) as u64).min(s), v); }
        match self.m.t(ty) {
            Ty::Vec(e, n) if self.tw(e).0 == 1 => {
                let b = self.vec_to_int(v, n, 1);
                self.wr(st, addr, s, &b)
            }
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                if let V::A(a) = v { for i in 0..a.len() { let (fo, fe) = self.m.field_off(ty, i); self.store_ty(st, addr + fo, fe, &a[i])?; } }
                Ok(())
            }
            _ => Ok(()),
        }
    }
    fn vec_to_int(&mut self, v: &V, n: u32, ew: u32) -> V {
        let a = match v { V::A(a) => a.clone(), _ => panic!() };
        let tot = n * ew;
        if a.iter().all(|x| x.is_c()) {
            let mut r: u128 = 0;
            for (i, x) in a.iter().enumerate() { r |= (x.c() as u128) << (i as u32 * ew); }
            return if tot > 64 { V::W(Rc::new(r)) } else { V::C(r as u64) };
        }
        let mut bits = vec![];
        for x in a.iter() { let b = self.ctx.bits_of(x, ew); bits.extend_from_slice(&b[..ew as usize]); }
        if tot > 64 { return V::S(Rc::new(Sym { w: tot, k: K::Bits, bits: std::cell::RefCell::new(Some(Rc::new(bits))) })); }
        self.ctx.mk_bits(bits)
    }
    fn int_to_vec(&mut self, v: &V, n: u32, ew: u32) -> V {
        let tot = n * ew;
        let mut o = vec![];
        match v {
            V::C(c) => for i in 0..n { o.push(V::C((c >> (i * ew)) & mask(ew))); },
            V::W(c) => for i in 0..n { o.push(V::C((**c >> (i * ew)) as u64 & mask(ew))); },
            _ => { let b = self.ctx.bits_of(v, tot); for i in 0..n { o.push(self.ctx.mk_bits(b[(i * ew) as usize..((i + 1) * ew) as usize].to_vec())); } }
        }
        V::A(Rc::new(o))
    }
    /// distinct concrete values of a symbolic value with their conditions (feasible ones only when enumerated by the solver)
    fn values(&mut self, st: &State, v: &V, limit: usize) -> Result<Vec<(u64, Lit)>, Trap> {
        if let V::C(c) = v { return Ok(vec![(*c, TRUE)]); }
        let w = match v { V::S(s) => s.w, _ => panic!("UNSUPPORTED enumeration of a wide value") };
        if let Some((b, t)) = self.ctx.as_tab(v, w, 12) {
            let mut u: Vec<u64> = t.clone();
            u.sort_unstable();
            u.dedup();
            if u.len() <= limit {
                let mut o = vec![];
                for x in u {
                    let tt = t.iter().map(|y| (*y == x) as u64).collect();
                    let c = self.ctx.mk_tab(1, b.clone(), tt);
                    let l = self.ctx.cond_lit(&c);
                    if l != FALSE { o.push((x, l)); }
                }
                return Ok(o);
            }
        }
        let mut o = vec![];
        let mut ex = vec![];
        let bits = self.ctx.bits_of(v, w);
        loop {
            let m = if ex.is_empty() && st.model.is_some() { st.model.clone().unwrap() } else {
                match self.query(st, &ex)? { Some(m) => m, None => break }
            };
            let x = self.ctx.eval_bits(&bits, &m);
            let c = self.ctx.icmp(Pred::Eq, w, v, &V::C(x));
            let l = self.ctx.cond_lit(&c);
            o.push((x, l));
            ex.push(l ^ 1);
            if l == TRUE { break; }
            if o.len() > limit { return Err(Trap::Budget(format!("more than {} values in enumeration", limit))); }
        }
        Ok(o)
    }
    fn query(&mut self, st: &State, extra: &[Lit]) -> Result<Option<Rc<Model>>, Trap> {
        for e in extra { if *e == FALSE { return Ok(None); } }
        if self.start.elapsed().as_secs_f64() > self.opts.max_seconds { return Err(Trap::Budget("time budget exhausted".into())); }
        let pc: Vec<Lit> = if self.opts.slice && st.model.is_some() { self.ctx.slice(&st.pc, extra) } else { (*st.pc).clone() };
        let mut key: Vec<Lit> = pc.iter().chain(extra.iter()).copied().collect();
        key.sort_unstable();
        if let Some(false) = self.qcache.get(&key) { return Ok(None); }
        if self.trace { let l = self.loc_of(st); eprintln!("QUERY {:?}", l.iter().take(4).map(|(f, l, _)| format!("{}:{}", f.rsplit('/').next().unwrap(), l)).collect::<Vec<_>>()); }
        match self.ctx.check(&pc, extra) {
            Res::Sat(m) => {
                if pc.len() == st.pc.len() { return Ok(Some(m)); }
                // complete the model outside the slice with the state's own model
                let mut vals = st.model.as_ref().unwrap().vals.clone();
                for v in self.ctx.vars_of(pc.iter().chain(extra.iter())) { vals.insert(v, m.vals.get(&v).copied().unwrap_or(false)); }
                Ok(Some(Rc::new(Model { vals, memo: Default::default() })))
            }
            Res::Unsat => { self.qcache.insert(key, false); Ok(None) }
            Res::Unknown(r) => { let l = self.loc_of(st); Err(Trap::Budget(format!("solver: unknown ({}) at {:?}", r, l.iter().take(3).map(|(f, l, _)| format!("{}:{}", f.rsplit('/').next().unwrap(), l)).collect::<Vec<_>>()))) }
        }
    }
    fn load_sym(&mut self, st: &mut State, addr: &V, ty: TyId) -> Result<V, Trap> {
        let a = match addr { V::C(a) => return self.load_ty(st, *a, ty), a => a.clone() };
        let (w, s) = self.tw(ty);
        let n = (((w + 7) / 8) as u64).min(s).max(1);
        if w == 0 || w > 64 { return Err(Trap::Conc(a)); }
        // table fast path
        if let Some((b, t)) = self.ctx.as_tab(&a, 64, 16) {
            let mut memo: HashMap<u64, Option<V>> = HashMap::new();
            let mut all_c = true;
            let mut bad = false;
            for x in &t {
                if !memo.contains_key(x) {
                    let r = match self.rd(st, *x, n, w) { Ok(v) => { if !v.is_c() { all_c = false; } Some(v) } Err(Trap::Oob(..)) => { bad = true; None } Err(e) => return Err(e) };
                    memo.insert(*x, r);
                }
            }
            if bad {
                let tt = t.iter().map(|x| memo[x].is_none() as u64).collect();
                let c = self.ctx.mk_tab(1, b.clone(), tt);
                let l = self.ctx.cond_lit(&c);
                if let Some(m) = self.query(st, &[l])? {
                    let bits = self.ctx.bits_of(&a, 64);
                    let x = self.ctx.eval_bits(&bits, &m);
                    self.report(st, &m, format!("memory access out of bounds (read at {:#x})", x));
                    return Err(Trap::Infeasible);
                }
            }
            if all_c {
                let tt = t.iter().map(|x| memo[x].as_ref().map_or(0, |v| v.c())).collect();
                return Ok(self.ctx.mk_tab(w, b, tt));
            }
            let mut r: Option<V> = None;
            let mut keys: Vec<u64> = memo.iter().filter(|(_, v)| v.as_ref().map_or(false, |v| !v.is_c())).map(|(k, _)| *k).collect();
            keys.sort_unstable();
            if memo.values().any(|v| v.as_ref().map_or(false, |v| v.is_c())) {
                let tt = t.iter().map(|x| memo[x].as_ref().map_or(0, |v| if v.is_c() { v.c() } else { 0 })).collect();
                r = Some(self.ctx.mk_tab(w, b.clone(), tt));
            }
            for k in keys {
                let v = memo[&k].clone().unwrap();
                r = Some(match r {
                    None => v,
                    Some(r) => { let tt = t.iter().map(|y| (*y == k) as u64).collect(); let c = self.ctx.mk_tab(1, b.clone(), tt); self.ctx.select(&c, &v, &r, w) }
                });
            }
            return r.ok_or(Trap::Infeasible);
        }
        let vals = self.values(st, &a, self.opts.conc_limit)?;
        let mut r: Option<V> = None;
        for (x, c) in vals {
            let v = match self.rd(st, x, n, w) {
                Ok(v) => v,
                Err(Trap::Oob(..)) => { if let Some(m) = self.query(st, &[c])? { self.report(st, &m, format!("memory access out of bounds (read at {:#x})", x)); return Err(Trap::Infeasible); } continue; }
                Err(e) => return Err(e),
            };
            r = Some(match r { None => v, Some(r) => { let cv = self.ctx.lit_v(c); self.ctx.select(&cv, &v, &r, w) } });
        }
        r.ok_or(Trap::Infeasible)
    }
    fn store_sym(&mut self, st: &mut State, addr: &V, ty: TyId, v: &V) -> Result<(), Trap> {
        let a = match addr { V::C(a) => return self.store_ty(st, *a, ty, v), a => a.clone() };
        let (w, s) = self.tw(ty);
        let n = (((w + 7) / 8) as u64).min(s).max(1);
        if w == 0 || w > 64 { return Err(Trap::Conc(a)); }
        let vals = self.values(st, &a, self.opts.conc_limit)?;
        for (x, c) in vals {
            let old = match self.rd(st, x, n, w) {
                Ok(v) => v,
                Err(Trap::Oob(..)) => { if let Some(m) = self.query(st, &[c])? { self.report(st, &m, format!("memory access out of bounds (write at {:#x})", x)); return Err(Trap::Infeasible); } continue; }
                Err(e) => return Err(e),
            };
            let cv = self.ctx.lit_v(c);
            let nv = self.ctx.select(&cv, v, &old, w);
            self.wr(st, x, n, &nv)?;
        }
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Result<(), Trap> {
        if n == 0 || d == s { return Ok(()); }
        // gather source
        let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
        let mut sh: Vec<(usize, Rc<Sym>, u8)> = vec![];
        let mut from_const = false;
        if s < HEAP_BASE {
            let gs = &self.m.globals;
            let i = gs.partition_point(|g| g.addr <= s);
            if i > 0 && gs[i - 1].constant {
                let g = &gs[i - 1];
                if s + n > g.addr + g.size { return Err(Trap::Oob(s, "copy source")); }
                buf.extend_from_slice(&g.data[(s - g.addr) as usize..(s - g.addr + n) as usize]);
                from_const = true;
            }
        }
        if !from_const {
            let oi = st.mem.find(s, n).ok_or(Trap::Oob(s, "copy source"))?;
            let o = &st.mem.objs[oi];
            let off = s - o.base;
            let mut i = 0;
            while i < n {
                let f = off + i;
                let pg = &o.pages[(f / PG) as usize];
                let po = (f % PG) as usize;
                let k = (PG - f % PG).min(n - i) as usize;
                buf.extend_from_slice(&pg.b[po..po + k]);
                if let Some(s) = &pg.s { for j in 0..k { if let Some((y, b)) = &s[po + j] { sh.push((i as usize + j, y.clone(), *b)); } } }
                i += k as u64;
            }
        }
        let oi = st.mem.find(d, n).ok_or(Trap::Oob(d, "copy destination"))?;
        let off = d - st.mem.objs[oi].base;
        let mut i = 0;
        let mut si = 0;
        while i < n {
            let f = off + i;
            let po = (f % PG) as usize;
            let k = (PG - f % PG).min(n - i) as usize;
            let pg = st.mem.page_mut(oi, (f / PG) as usize);
            pg.b[po..po + k].copy_from_slice(&buf[i as usize..i as usize + k]);
            if let Some(s) = &mut pg.s { for j in po..po + k { s[j] = None; } }
            while si < sh.len() && sh[si].0 < i as usize + k {
                let len = pg.b.len();
                let s = pg.s.get_or_insert_with(|| vec![None; len]);
                s[po + sh[si].0 - i as usize] = Some((sh[si].1.clone(), sh[si].2));
                si += 1;
            }
            i += k as u64;
        }
        Ok(())
    }

    // ---------- reporting ----------
    fn loc_of(&self, st: &State) -> Vec<(String, u32, String)> {
        let mut out = vec![];
        for fr in st.frames.iter().rev() {
            let b = &fr.func.blocks[fr.block as usize];
            let d = b.dbg.get(fr.ip as usize).copied().unwrap_or(0);
            let l = self.m.loc(d);
            if l.is_empty() { out.push((String::new(), 0, fr.func.name.to_string())); } else { out.extend(l); }
        }
        out
    }
    fn report(&mut self, st: &State, m: &Rc<Model>, kind: String) {
        if self.violation.is_some() { return; }
        let mut inputs = vec![];
        let ins = st.inputs.clone();
        for i in ins.iter() {
            let mut o = vec![];
            for v in i { let b = self.ctx.bits_of(v, 8); o.push(self.ctx.eval_bits(&b, m) as u8); }
            inputs.push(o);
        }
        let loc = self.loc_of(st);
        self.violation = Some(Violation { kind, inputs, loc });
    }

    // ---------- running ----------
    pub fn run_entry(&mut self, entry: &str) {
        let fi = match self.m.fmap.get(entry) { Some(i) => *i, None => { self.fail = Some(format!("entry {} not found", entry)); return; } };
        self.start = Instant::now();
        let st = self.init_state(fi);
        let outs = self.run(st, Stop { depth: 1, block: u32::MAX });
        for mut s in outs {
            if s.model.is_none() { match self.query(&s, &[]) { Ok(Some(m)) => s.model = Some(m), Ok(None) => continue, Err(e) => { self.set_fail(e); continue; } } }
            self.paths += 1;
            if self.paths.is_power_of_two() && self.witnesses.len() < 8 && self.violation.is_none() {
                // inputs of a few finished paths, for a native replay of the same run
                let m = s.model.clone().unwrap();
                self.report(&s, &m, "witness".into());
                let w = self.violation.take().unwrap();
                self.witnesses.push(w.inputs);
            }
            if !s.notes.is_empty() { self.notes_out.push((*s.notes).clone()); }
        }
    }
    fn set_fail(&mut self, t: Trap) {
        if self.fail.is_none() { self.fail = Some(match t { Trap::Budget(s) => s, Trap::Oob(a, w) => format!("oob {} {:#x}", w, a), Trap::Conc(_) => "conc".into(), Trap::DivZero => "div".into(), Trap::Infeasible => return }); }
    }
    fn at_stop(st: &State, s: &Stop) -> bool {
        if s.block == u32::MAX { st.frames.len() < s.depth } else {
            if st.frames.len() < s.depth { return true; }
            st.frames.len() == s.depth && { let f = st.frames.last().unwrap(); f.ip == 0 && f.block == s.block }
        }
    }
    fn run(&mut self, st: State, stop: Stop) -> Vec<State> {
        let mut work = vec![st];
        let mut done = vec![];
        while let Some(mut s) = work.pop() {
            if self.violation.is_some() || self.fail.is_some() { return vec![]; }
            if Self::at_stop(&s, &stop) { done.push(s); continue; }
            match self.advance(&mut s, &stop) {
                Err(e) => { self.trap(&s, e, &mut work); }
                Ok(Ev::Stop) => done.push(s),
                Ok(Ev::Dead) => {}
                Ok(Ev::Panic(k)) => self.panic_path(&s, k),
                Ok(Ev::Conc(v)) => { self.trap(&s, Trap::Conc(v), &mut work); }
                Ok(Ev::Branch(t)) => {
                    let o = self.branch(s, t);
                    work.extend(o);
                }
            }
        }
        done
    }
    fn trap(&mut self, s: &State, e: Trap, work: &mut Vec<State>) {
        match e {
            Trap::Infeasible => {}
            Trap::Oob(a, w) => {
                match self.query(s, &[]) { Ok(Some(m)) => self.report(s, &m, format!("memory access out of bounds ({} at {:#x})", w, a)), Ok(None) => {} Err(e) => self.set_fail(e) }
            }
            Trap::DivZero => { match self.query(s, &[]) { Ok(Some(m)) => self.report(s, &m, "division by zero".into()), Ok(None) => {} Err(e) => self.set_fail(e) } }
            Trap::Conc(v) => {
                let fr = s.frames.last().unwrap();
                let d = fr.func.blocks[fr.block as usize].dbg.get(fr.ip as usize).copied().unwrap_or(0);
                *self.conc_sites.entry((fr.func.name.to_string(), d)).or_insert(0) += 1;
                match self.values(s, &v, self.opts.conc_limit) {
                    Err(e) => self.set_fail(e),
                    Ok(vals) => {
                        let mut n = 0;
                        for (x, c) in vals {
                            let mut t = s.clone();
                            match self.assume_lit(&mut t, c, true) { Ok(true) => {} Ok(false) => continue, Err(e) => { self.set_fail(e); return; } }
                            let fr = Rc::make_mut(t.frames.last_mut().unwrap());
                            if let V::S(sv) = &v { for r in fr.regs.iter_mut() { if let V::S(q) = r { if Rc::ptr_eq(q, sv) { *r = V::C(x); } } } }
                            work.push(t);
                            n += 1;
                        }
                        if n > 1 { self.forks += n - 1; }
                        if self.forks > self.opts.max_forks { self.fail = Some("fork budget exhausted".into()); }
                    }
                }
            }
            e => self.set_fail(e),
        }
    }
    fn panic_path(&mut self, s: &State, k: String) {
        match self.query(s, &[]) {
            Ok(None) => {}
            Err(e) => self.set_fail(e),
            Ok(Some(m)) => {
                self.lost += 1;
                if s.expect_panic { *self.reach.entry(999_999).or_insert(0) += 1; self.paths += 1; } else { self.report(s, &m, k); }
            }
        }
    }
    /// add a literal to the path condition; Ok(false) when infeasible
    fn assume_lit(&mut self, st: &mut State, l: Lit, check: bool) -> Result<bool, Trap> {
        if l == TRUE { return Ok(true); }
        if l == FALSE { return Ok(false); }
        let keep = match &st.model { Some(m) => self.ctx.eval(l, m) == Some(true), None => false };
        if !keep {
            if check {
                match self.query(st, &[l])? { Some(m) => st.model = Some(m), None => return Ok(false) }
            } else { st.model = None; }
        }
        self.push_pc(st, l);
        Ok(true)
    }
    fn push_pc(&mut self, st: &mut State, l: Lit) {
        let v = Rc::make_mut(&mut st.pc);
        let mut stack = vec![l];
        while let Some(l) = stack.pop() {
            let l = self.ctx.norm(l);
            if l == TRUE { continue; }
            if l & 1 == 0 { if let Node::And(a, b) = self.ctx.nodes[(l >> 1) as usize] { stack.push(a); stack.push(b); continue; } }
            if v.contains(&l) { continue; }
            if self.ctx.support_tab && !self.opts.merge && self.ctx.theory.is_empty() {
                // keep what is known about few variables in one literal
                let s = self.ctx.support_of(l);
                if s.len() <= 10 {
                    let mut g = vec![l];
                    let mut keep = vec![];
                    for x in v.iter() { let t = self.ctx.support_of(*x); if t.len() <= 10 && t.iter().any(|y| s.binary_search(y).is_ok()) { g.push(*x); } else { keep.push(*x); } }
                    if g.len() > 1 {
                        if let Some(c) = self.ctx.conj(&g, 10) { if c > TRUE { keep.push(c); *v = keep; continue; } }
                    }
                }
            }
            v.push(l);
        }
    }
    fn small_region(&mut self, fi: u32, f: &Func, b: u32, j: u32) -> bool {
        if let Some(r) = self.region_memo.get(&(fi, b)) { return *r; }
        // acyclic, few instructions, no real calls
        let mut seen: HashMap<u32, bool> = HashMap::new(); // true = finished
        let mut count = 0usize;
        let mut ok = j != u32::MAX;
        fn dfs(f: &Func, x: u32, j: u32, seen: &mut HashMap<u32, bool>, count: &mut usize, lim: usize, root: u32) -> bool {
            if x == j { return true; }
            if x == root { return false; }
            match seen.get(&x) { Some(true) => return true, Some(false) => return false, None => {} }
            seen.insert(x, false);
            if f.dead_end[x as usize] { seen.insert(x, true); return true; }
            let bl = &f.blocks[x as usize];
            *count += bl.insts.len();
            if *count > lim { return false; }
            for i in &bl.insts {
                match i {
                    Inst::Call { f: Callee::Ext(n), .. } if n.starts_with("llvm.") => {}
                    Inst::Call { .. } | Inst::Ret { .. } | Inst::AtomicRmw { .. } | Inst::CmpXchg { .. } | Inst::Unreachable | Inst::Alloca { .. } => return false,
                    _ => {}
                }
            }
            for s in &f.succs[x as usize] { if !dfs(f, *s, j, seen, count, lim, root) { return false; } }
            seen.insert(x, true);
            true
        }
        if ok { for s in &f.succs[b as usize] { if !dfs(f, *s, j, &mut seen, &mut count, self.opts.spec, b) { ok = false; break; } } }
        self.region_memo.insert((fi, b), ok);
        ok
    }
    fn branch(&mut self, st: State, targets: Vec<(u32, Lit)>) -> Vec<State> {
        let fr = st.frames.last().unwrap().clone();
        let f = fr.func.clone();
        let b = fr.block;
        let depth = st.frames.len();
        let j = f.ipdom[b as usize];
        let spec = self.opts.merge && self.small_region(fr.fi, &f, b, j);
        let mut kids: Vec<State> = vec![];
        let nt = targets.len();
        let mut excluded = 0;
        for (i, (t, l)) in targets.iter().enumerate() {
            if self.violation.is_some() || self.fail.is_some() { return vec![]; }
            let mut s = st.clone();
            let dead = f.dead_end[*t as usize];
            let r = if i + 1 == nt && excluded + 1 == nt && st.model.is_some() {
                // every other side is infeasible: no new information
                Ok(true)
            } else if spec && !dead { self.assume_lit(&mut s, *l, false) } else { self.assume_lit(&mut s, *l, true) };
            match r {
                Ok(false) => { excluded += 1; continue; }
                Err(e) => { self.set_fail(e); return vec![]; }
                Ok(true) => {}
            }
            if let Err(e) = self.enter_block(&mut s, *t) { self.set_fail(e); return vec![]; }
            kids.push(s);
        }
        if kids.len() <= 1 { return kids; }
        self.forks += kids.len() as u64 - 1;
        if self.trace { *self.fork_sites.entry((fr.fi, b)).or_insert(0) += 1; }
        if self.forks > self.opts.max_forks { self.fail = Some("fork budget exhausted".into()); return vec![]; }
        if !self.opts.merge { return kids; }
        let lost0 = self.lost;
        let stop = Stop { depth, block: j };
        let mut outs = vec![];
        for k in kids { let o = self.run(k, stop); outs.extend(o); if self.violation.is_some() || self.fail.is_some() { return vec![]; } }
        let n = outs.len();
        let mut groups: Vec<State> = vec![];
        for o in outs {
            let mut cur = Some(o);
            // newest groups first; bounded search
            for g in groups.iter_mut().rev().take(8) {
                let c = cur.take().unwrap();
                match self.try_merge(g, c) { None => { self.merges += 1; break; } Some(c) => cur = Some(c) }
            }
            if let Some(c) = cur { groups.push(c); }
        }
        if groups.len() > 1 { self.merge_fail += groups.len() as u64 - 1; let d = f.blocks[b as usize].dbg.last().copied().unwrap_or(0); let _ = d; if self.trace { *self.mf_sites.entry((format!("{} {}", f.name, self.mf_why), d)).or_insert(0) += 1; } }
        if groups.len() == 1 && n >= 1 && self.lost == lost0 {
            let g = &mut groups[0];
            g.pc = st.pc.clone();
            if let Some(m) = &st.model { g.model = Some(m.clone()); }
        }
        if groups.len() > 1 {
            // states that could not be merged must be feasible on their own
            let mut keep = vec![];
            for mut g in groups {
                if g.model.is_none() { match self.query(&g, &[]) { Ok(Some(m)) => g.model = Some(m), Ok(None) => continue, Err(e) => { self.set_fail(e); return vec![]; } } }
                keep.push(g);
            }
            groups = keep;
        }
        groups
    }
    fn reg_widths(&mut self, fi: u32, f: &Func) -> Rc<Vec<u32>> {
        if let Some(r) = self.regw.get(&fi) { return r.clone(); }
        let mut v = vec![64u32; f.nregs as usize];
        for b in &f.blocks {
            for (d, t, _) in &b.phis { v[*d as usize] = self.tw(*t).0; }
            for i in &b.insts {
                if let Some(d) = inst_def(i) {
                    if d == u32::MAX { continue; }
                    let w = match i {
                        Inst::Bin { ty, .. } | Inst::FBin { ty, .. } | Inst::FNeg { ty, .. } | Inst::Load { ty, .. } | Inst::Select { ty, .. } => self.tw(*ty).0,
                        Inst::Icmp { .. } | Inst::Fcmp { .. } => 1,
                        Inst::Cast { to, .. } => self.tw(*to).0,
                        Inst::Call { ret, .. } => self.tw(*ret).0,
                        Inst::ExtractValue { .. } => 0,
                        _ => 64,
                    };
                    v[d as usize] = w;
                }
            }
        }
        let r = Rc::new(v);
        self.regw.insert(fi, r.clone());
        r
    }
    fn mergeable(&mut self, a: &V, b: &V, w: u32) -> bool {
        match (a, b) {
            (V::C(x), V::C(y)) => {
                if x == y { return true; }
                if *x >= HEAP_BASE && *x < HEAP_BASE + (1 << 44) || *y >= HEAP_BASE && *y < HEAP_BASE + (1 << 44) { return false; }
                if (w >= 32 || w == 0) && !self.opts.merge_int {
                    let g = |v: u64| v >= FUNC_BASE && v < HEAP_BASE;
                    return g(*x) && g(*y);
                }
                true
            }
            (V::S(x), V::S(y)) => Rc::ptr_eq(x, y) || (!matches!(x.k, K::Fp(_)) && !matches!(y.k, K::Fp(_))),
            (V::S(x), V::C(y)) | (V::C(y), V::S(x)) => {
                if *y >= HEAP_BASE && *y < HEAP_BASE + (1 << 44) { return self.opts.merge_int && w == 64; }
                !matches!(x.k, K::Fp(_))
            }
            (V::A(x), V::A(y)) => { if x.len() != y.len() { return false; } let (x, y) = (x.clone(), y.clone()); (0..x.len()).all(|i| self.mergeable(&x[i], &y[i], 0)) }
            (V::W(x), V::W(y)) => x == y,
            _ => false,
        }
    }
    /// merge b into a; gives b back when refused
    fn try_merge(&mut self, a: &mut State, b: State) -> Option<State> {
        if self.merge_into(a, &b) { None } else { Some(b) }
    }
    fn merge_into(&mut self, a: &mut State, b: &State) -> bool {
        macro_rules! refuse { ($w:expr) => {{ self.mf_why = $w; return false; }}; }
        if a.frames.len() != b.frames.len() || a.expect_panic != b.expect_panic { refuse!("frames") }
        if !Rc::ptr_eq(&a.inputs, &b.inputs) || !Rc::ptr_eq(&a.notes, &b.notes) { if a.inputs.len() != b.inputs.len() || a.notes.len() != b.notes.len() || a.notes != b.notes { refuse!("inputs") } }
        let d = a.frames.len();
        if d == 0 { // finished: only path conditions matter
            return false;
        }
        for i in 0..d - 1 { if !Rc::ptr_eq(&a.frames[i], &b.frames[i]) { refuse!("lower frames") } }
        let (fa, fb) = (a.frames[d - 1].clone(), b.frames[d - 1].clone());
        if fa.fi != fb.fi || fa.block != fb.block || fa.ip != fb.ip || fa.allocas != fb.allocas { refuse!("position") }
        let f = fa.func.clone();
        let rw = self.reg_widths(fa.fi, &f);
        let live = &f.live[fa.block as usize];
        let mut diff = vec![];
        for r in 0..f.nregs as usize {
            if fa.ip == 0 && live[r / 64] >> (r % 64) & 1 == 0 { continue; }
            let (x, y) = (&fa.regs[r], &fb.regs[r]);
            match (x, y) { (V::C(p), V::C(q)) if p == q => continue, (V::S(p), V::S(q)) if Rc::ptr_eq(p, q) => continue, (V::A(p), V::A(q)) if Rc::ptr_eq(p, q) => continue, (V::W(p), V::W(q)) if p == q => continue, _ => {} }
            if fa.ip != 0 && fa.ip as usize <= f.blocks[fa.block as usize].insts.len() {
                // mid-block: only the call result can differ meaningfully; others are compared the same way
            }
            if !self.mergeable(x, y, rw[r]) { refuse!("register") }
            diff.push(r);
        }
        // memory
        let mut mem_diff: Vec<(usize, usize, u64)> = vec![]; // (index in a, index in b, page)
        let mut extra_b: Vec<usize> = vec![];
        {
            let (oa, ob) = (&a.mem.objs, &b.mem.objs);
            let (mut i, mut j) = (0, 0);
            while i < oa.len() || j < ob.len() {
                if i < oa.len() && j < ob.len() && oa[i].base == ob[j].base {
                    if !Rc::ptr_eq(&oa[i].pages, &ob[j].pages) {
                        for p in 0..oa[i].pages.len() { if !Rc::ptr_eq(&oa[i].pages[p], &ob[j].pages[p]) { mem_diff.push((i, j, p as u64)); } }
                    }
                    i += 1;
                    j += 1;
                } else if j >= ob.len() || (i < oa.len() && oa[i].base < ob[j].base) { i += 1; }
                else { extra_b.push(j); j += 1; }
            }
        }
        // compare differing pages bytewise
        let mut byte_diff: Vec<(usize, usize, u64, usize)> = vec![];
        for (i, j, p) in &mem_diff {
            let (pa, pb) = (&a.mem.objs[*i].pages[*p as usize], &b.mem.objs[*j].pages[*p as usize]);
            for k in 0..pa.b.len() {
                let sa = pa.s.as_ref().and_then(|s| s[k].as_ref());
                let sb = pb.s.as_ref().and_then(|s| s[k].as_ref());
                match (sa, sb) {
                    (None, None) => if pa.b[k] == pb.b[k] { continue; },
                    (Some((x, i)), Some((y, j))) => if Rc::ptr_eq(x, y) && i == j { continue; },
                    _ => {}
                }
                byte_diff.push((*i, *j, *p, k));
            }
        }
        if !byte_diff.is_empty() {
            if !self.opts.merge_mem { refuse!("memory") }
            for (i, j, p, k) in &byte_diff {
                // a differing word that looks like a pointer is not merged
                let w0 = k & !7;
                for pg in [&a.mem.objs[*i].pages[*p as usize], &b.mem.objs[*j].pages[*p as usize]] {
                    if w0 + 8 <= pg.b.len() {
                        let v = u64::from_le_bytes(pg.b[w0..w0 + 8].try_into().unwrap());
                        if v >= HEAP_BASE && v < HEAP_BASE + (1 << 40) && pg.s.as_ref().map_or(true, |s| s[w0..w0 + 8].iter().all(|x| x.is_none())) { refuse!("pointer in memory") }
                    }
                    if let Some(s) = &pg.s { if let Some((y, _)) = &s[*k] { if matches!(y.k, K::Fp(_)) { refuse!("fp in memory") } } }
                }
            }
        }
        // path conditions
        let cp = a.pc.iter().zip(b.pc.iter()).take_while(|(x, y)| x == y).count();
        let (sa, sb) = (a.pc[cp..].to_vec(), b.pc[cp..].to_vec());
        let (ca, cb);
        // opposite single literals are the common case; order within the suffix may vary
        ca = self.ctx.and_all(&sa);
        cb = self.ctx.and_all(&sb);
        let cond = if cb == ca ^ 1 { ca } else if sa.is_empty() { cb ^ 1 } else { ca };
        let cv = self.ctx.lit_v(cond);
        {
            let fr = Rc::make_mut(&mut a.frames[d - 1]);
            for r in diff { let v = self.ctx.select(&cv, &fr.regs[r], &fb.regs[r], rw[r]); fr.regs[r] = v; }
        }
        for (i, j, p, k) in byte_diff {
            let (oa, ob) = (a.mem.objs[i].clone(), b.mem.objs[j].clone());
            let get = |s: &mut Self, o: &Obj| -> V {
                let pg = &o.pages[p as usize];
                match pg.s.as_ref().and_then(|x| x[k].clone()) { Some((y, b)) => s.ctx.byte_of(&y, b as u32), None => V::C(pg.b[k] as u64) }
            };
            let x = get(self, &oa);
            let y = get(self, &ob);
            drop(oa);
            drop(ob);
            let v = self.ctx.select(&cv, &x, &y, 8);
            let pg = a.mem.page_mut(i, p as usize);
            match v {
                V::S(s) => { let len = pg.b.len(); pg.s.get_or_insert_with(|| vec![None; len])[k] = Some((s, 0)); }
                v => { pg.b[k] = v.c() as u8; if let Some(s) = &mut pg.s { s[k] = None; } }
            }
        }
        if !extra_b.is_empty() {
            for j in extra_b { a.mem.objs.push(b.mem.objs[j].clone()); }
            a.mem.objs.sort_by_key(|o| o.base);
        }
        let o = if cb == ca ^ 1 { TRUE } else { self.ctx.or(ca, cb) };
        let mut pc = a.pc[..cp].to_vec();
        if o != TRUE { if !pc.contains(&o) { pc.push(o); } }
        a.pc = Rc::new(pc);
        if a.model.is_none() { a.model = b.model.clone(); }
        true
    }
    /// move the top frame to block `t`, evaluating phis
    fn enter_block(&mut self, st: &mut State, t: u32) -> Result<(), Trap> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.block;
        let f = fr.func.clone();
        let bl = &f.blocks[t as usize];
        if !bl.phis.is_empty() {
            if bl.phis.len() == 1 {
                let (d, _, inc) = &bl.phis[0];
                let v = inc.iter().find(|(p, _)| *p == from).map(|(_, o)| match o { Op::R(r) => fr.regs[*r as usize].clone(), Op::K(v) => v.clone() }).expect("phi");
                fr.regs[*d as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(bl.phis.len());
                for (d, _, inc) in &bl.phis {
                    let v = inc.iter().find(|(p, _)| *p == from).map(|(_, o)| match o { Op::R(r) => fr.regs[*r as usize].clone(), Op::K(v) => v.clone() }).expect("phi");
                    vals.push((*d, v));
                }
                for (d, v) in vals { fr.regs[d as usize] = v; }
            }
        }
        fr.block = t;
        fr.ip = 0;
        let fi = fr.fi;
        self.visit(fi, t);
        Ok(())
    }

    fn map1(&mut self, v: &V, f: &mut dyn FnMut(&mut Self, &V) -> V) -> V {
        match v { V::A(a) => { let r = a.iter().map(|x| f(self, x)).collect(); V::A(Rc::new(r)) } v => f(self, v) }
    }
    fn map2(&mut self, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, &V, &V) -> V) -> V {
        match (a, b) { (V::A(x), V::A(y)) => { let r = x.iter().zip(y.iter()).map(|(p, q)| f(self, p, q)).collect(); V::A(Rc::new(r)) } (a, b) => f(self, a, b) }
    }
    fn elem_w(&mut self, t: TyId) -> u32 { let w = self.tw(t).0; if w != 0 { w } else { match self.m.t(t) { Ty::Vec(e, _) => self.tw(e).0, _ => 0 } } }

    /// run the state until an event
    fn advance(&mut self, st: &mut State, stop: &Stop) -> Result<Ev, Trap> {
        let mut func = st.frames.last().unwrap().func.clone();
        loop {
            // one block (or the rest of it)
            let (bi, mut ip) = { let fr = st.frames.last().unwrap(); (fr.block as usize, fr.ip as usize) };
            let n = (func.blocks[bi].insts.len() - ip) as u64;
            self.insts += n;
            st.steps += n;
            if self.insts > self.next_check {
                self.next_check = self.insts + 1_000_000;
                if self.insts > self.opts.max_insts { return Err(Trap::Budget("instruction budget exhausted".into())); }
                if self.start.elapsed().as_secs_f64() > self.opts.max_seconds { return Err(Trap::Budget("time budget exhausted".into())); }
                if st.steps > self.opts.max_path {
                    // may be a loop that never ends: hand out the inputs for a replay
                    let m = match st.model.clone() { Some(m) => Some(m), None => self.query(st, &[])? };
                    match m {
                        None => return Err(Trap::Infeasible),
                        Some(m) => { self.report(st, &m, "path instruction limit".into()); self.candidate = self.violation.take(); }
                    }
                    return Err(Trap::Budget("path instruction limit".into()));
                }
            }
            let mut switched = false;
            while ip < func.blocks[bi].insts.len() {
                let inst = &func.blocks[bi].insts[ip];
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.ip = ip as u32;
                macro_rules! op { ($o:expr) => { match $o { Op::R(r) => fr.regs[*r as usize].clone(), Op::K(v) => v.clone() } }; }
                match inst {
                    Inst::Bin { op, ty, d, a, b } => {
                        // fast path
                        let ra = match a { Op::R(r) => &fr.regs[*r as usize], Op::K(v) => v };
                        let rb = match b { Op::R(r) => &fr.regs[*r as usize], Op::K(v) => v };
                        if let (V::C(x), V::C(y)) = (ra, rb) {
                            let w = if let Some(t) = self.tinfo.get(*ty as usize) { t.0 } else { self.tw(*ty).0 };
                            match cbin(*op, w, *x, *y) { Some(v) => fr.regs[*d as usize] = V::C(v), None => return Err(Trap::DivZero) }
                        } else {
                            let (a, b) = (ra.clone(), rb.clone());
                            let w = self.elem_w(*ty);
                            let o = *op;
                            self.sym_insts += 1;
                            if matches!(o, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && !matches!(b, V::A(_)) {
                                let z = match &b { V::C(c) => V::bool(*c == 0), V::W(c) => V::bool(**c == 0), b => self.ctx.icmp(Pred::Eq, w, b, &V::C(0)) };
                                let l = self.ctx.cond_lit(&z);
                                if l == TRUE { return Err(Trap::DivZero); }
                                if l != FALSE { if let Some(m) = self.query(st, &[l])? { self.report(st, &m, "division by zero".into()); return Err(Trap::Infeasible); } }
                            }
                            let v = if w > 64 { self.wide(o, w, &a, &b) } else { self.map2(&a, &b, &mut |s, x, y| s.ctx.bin(o, w, x, y)) };
                            Rc::make_mut(st.frames.last_mut().unwrap()).regs[*d as usize] = v;
                        }
                    }
                    Inst::Icmp { p, ty, d, a, b } => {
                        let ra = match a { Op::R(r) => &fr.regs[*r as usize], Op::K(v) => v };
                        let rb = match b { Op::R(r) => &fr.regs[*r as usize], Op::K(v) => v };
                        if let (V::C(x), V::C(y)) = (ra, rb) {
                            let w = if let Some(t) = self.tinfo.get(*ty as usize) { t.0 } else { self.tw(*ty).0 };
                            fr.regs[*d as usize] = V::bool(cicmp(*p, w, *x, *y));
                        } else {
                            let (a, b) = (ra.clone(), rb.clone());
                            let w = self.elem_w(*ty);
                            let p = *p;
                            self.sym_insts += 1;
                            let v = self.map2(&a, &b, &mut |s, x, y| match (x, y) {
                                (V::W(x), V::W(y)) if matches!(p, Pred::Eq | Pred::Ne | Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge) => V::bool(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, _ => x >= y }),
                                _ => s.ctx.icmp(p, w, x, y),
                            });
                            fr.regs[*d as usize] = v;
                        }
                    }
                    Inst::FBin { op: o, ty, d, a, b } => {
                        let (a, b) = (op!(a), op!(b));
                        let w = self.elem_w(*ty);
                        let o = *o;
                        let v = self.map2(&a, &b, &mut |s, x, y| s.ctx.fbin(o, w, x, y));
                        fr.regs[*d as usize] = v;
                    }
                    Inst::FNeg { ty, d, a } => { let a = op!(a); let w = self.elem_w(*ty); let v = self.map1(&a, &mut |s, x| s.ctx.fneg(w, x)); fr.regs[*d as usize] = v; }
                    Inst::Fcmp { p, ty, d, a, b } => {
                        let (a, b) = (op!(a), op!(b));
                        let w = self.elem_w(*ty);
                        let p = *p;
                        let v = self.map2(&a, &b, &mut |s, x, y| s.ctx.fcmp(p, w, x, y));
                        fr.regs[*d as usize] = v;
                    }
                    Inst::Cast { op: o, from, to, d, a } => {
                        let a = op!(a);
                        let v = self.do_cast(*o, *from, *to, &a);
                        fr.regs[*d as usize] = v;
                    }
                    Inst::Select { ty, d, c, a, b, .. } => {
                        let (c, a, b) = (op!(c), op!(a), op!(b));
                        let w = self.tw(*ty).0;
                        let v = match &c {
                            V::C(x) => if x & 1 == 1 { a } else { b },
                            V::A(cs) => { let (x, y) = match (&a, &b) { (V::A(x), V::A(y)) => (x.clone(), y.clone()), _ => panic!() }; let ew = self.elem_w(*ty); let cs = cs.clone(); V::A(Rc::new((0..cs.len()).map(|i| self.ctx.select(&cs[i], &x[i], &y[i], ew)).collect())) }
                            _ => {
                                self.sym_insts += 1;
                                let fp = matches!(&a, V::S(s) if matches!(s.k, K::Fp(_))) || matches!(&b, V::S(s) if matches!(s.k, K::Fp(_)));
                                if fp || (matches!((&a, &b), (V::W(_), _) | (_, V::W(_)))) { return Err(Trap::Conc(c)); }
                                self.ctx.select(&c, &a, &b, w)
                            }
                        };
                        fr.regs[*d as usize] = v;
                    }
                    Inst::Gep { d, base, off, idx } => {
                        let mut acc = match base { Op::R(r) => fr.regs[*r as usize].clone(), Op::K(v) => v.clone() };
                        if *off != 0 { acc = match acc { V::C(c) => V::C(c.wrapping_add(*off as u64)), s => self.ctx.bin(BinOp::Add, 64, &s, &V::C(*off as u64)) }; }
                        for (o, w, sc) in idx {
                            let v = match o { Op::R(r) => &fr.regs[*r as usize], Op::K(v) => v };
                            acc = match (&acc, v) {
                                (V::C(a), V::C(i)) => V::C(a.wrapping_add(sext(*i, *w).wrapping_mul(*sc))),
                                (a, i) => {
                                    let i = i.clone();
                                    let i = if *w < 64 { self.ctx.cast(CastOp::Sext, *w, 64, &i) } else { i };
                                    let x = self.ctx.bin(BinOp::Mul, 64, &i, &V::C(*sc));
                                    self.ctx.bin(BinOp::Add, 64, a, &x)
                                }
                            };
                        }
                        fr.regs[*d as usize] = acc;
                    }
                    Inst::Load { ty, d, p } => {
                        let p = op!(p);
                        let v = match &p { V::C(a) => self.load_ty(st, *a, *ty)?, _ => self.load_sym(st, &p, *ty)? };
                        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                        fr.regs[*d as usize] = v;
                    }
                    Inst::Store { ty, v, p } => {
                        let (v, p) = (op!(v), op!(p));
                        match &p { V::C(a) => self.store_ty(st, *a, *ty, &v)?, _ => self.store_sym(st, &p, *ty, &v)? }
                    }
                    Inst::Alloca { d, size, align } => {
                        let (d, size, align) = (*d, *size, *align);
                        let a = self.alloc(st, size, align);
                        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                        fr.allocas.push(a);
                        fr.regs[d as usize] = V::C(a);
                    }
                    Inst::Br { t } => {
                        let t = *t;
                        self.enter_block(st, t)?;
                        if st.frames.len() == stop.depth && t == stop.block { return Ok(Ev::Stop); }
                        switched = true;
                        break;
                    }
                    Inst::CondBr { c, t, f } => {
                        let c = op!(c);
                        let (t, f) = (*t, *f);
                        let tgt = match &c {
                            V::C(x) => if x & 1 == 1 { t } else { f },
                            v => {
                                let l = self.ctx.cond_lit(v);
                                if l == TRUE { t } else if l == FALSE { f } else { return Ok(Ev::Branch(vec![(f, l ^ 1), (t, l)])); }
                            }
                        };
                        self.enter_block(st, tgt)?;
                        if st.frames.len() == stop.depth && tgt == stop.block { return Ok(Ev::Stop); }
                        switched = true;
                        break;
                    }
                    Inst::Switch { ty, c, def, cases } => {
                        let c = op!(c);
                        match &c {
                            V::C(x) => {
                                let tgt = cases.iter().find(|(k, _)| k == x).map_or(*def, |(_, b)| *b);
                                self.enter_block(st, tgt)?;
                                if st.frames.len() == stop.depth && tgt == stop.block { return Ok(Ev::Stop); }
                                switched = true;
                                break;
                            }
                            v => {
                                let w = self.tw(*ty).0;
                                let mut by: Vec<(u32, Lit)> = vec![];
                                let mut rest = TRUE;
                                for (k, b) in cases {
                                    let e = self.ctx.icmp(Pred::Eq, w, v, &V::C(*k));
                                    let l = self.ctx.cond_lit(&e);
                                    if l == FALSE { continue; }
                                    rest = self.ctx.and(rest, l ^ 1);
                                    match by.iter().position(|(x, _)| x == b) { Some(i) => { let n = self.ctx.or(by[i].1, l); by[i].1 = n; } None => by.push((*b, l)) }
                                }
                                if rest != FALSE { match by.iter().position(|(x, _)| x == def) { Some(i) => { let n = self.ctx.or(by[i].1, rest); by[i].1 = n; } None => by.push((*def, rest)) } }
                                return Ok(Ev::Branch(by));
                            }
                        }
                    }
                    Inst::Ret { v, .. } => {
                        let rv = v.as_ref().map(|v| op!(v));
                        let dest = fr.dest;
                        let allocas = std::mem::take(&mut fr.allocas);
                        for a in allocas { st.mem.remove(a); }
                        st.frames.pop();
                        if st.frames.is_empty() { return Ok(Ev::Stop); }
                        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                        if let Some(d) = dest { if d != u32::MAX { if let Some(v) = rv { fr.regs[d as usize] = v; } } }
                        fr.ip += 1;
                        if stop.block == u32::MAX && st.frames.len() < stop.depth { return Ok(Ev::Stop); }
                        func = st.frames.last().unwrap().func.clone();
                        switched = true;
                        break;
                    }
                    Inst::Unreachable => return Ok(Ev::Panic("unreachable code reached".into())),
                    Inst::ExtractValue { d, a, idx } => {
                        let mut v = op!(a);
                        for i in idx { v = match v { V::A(a) => a[*i as usize].clone(), _ => panic!("extractvalue") }; }
                        fr.regs[*d as usize] = v;
                    }
                    Inst::InsertValue { d, a, v, idx, .. } => {
                        fn ins(a: V, v: V, idx: &[u32]) -> V {
                            if idx.is_empty() { return v; }
                            match a { V::A(x) => { let mut x = (*x).clone(); let o = std::mem::replace(&mut x[idx[0] as usize], V::C(0)); x[idx[0] as usize] = ins(o, v, &idx[1..]); V::A(Rc::new(x)) } _ => panic!("insertvalue") }
                        }
                        let (a, v) = (op!(a), op!(v));
                        fr.regs[*d as usize] = ins(a, v, idx);
                    }
                    Inst::ExtractElem { d, a, i } => {
                        let (a, i) = (op!(a), op!(i));
                        let i = match i { V::C(i) => i, v => return Ok(Ev::Conc(v)) };
                        fr.regs[*d as usize] = match a { V::A(a) => a[i as usize].clone(), _ => panic!() };
                    }
                    Inst::InsertElem { d, a, v, i, .. } => {
                        let (a, v, i) = (op!(a), op!(v), op!(i));
                        let i = match i { V::C(i) => i, v => return Ok(Ev::Conc(v)) };
                        fr.regs[*d as usize] = match a { V::A(a) => { let mut x = (*a).clone(); x[i as usize] = v; V::A(Rc::new(x)) } _ => panic!() };
                    }
                    Inst::Shuffle { d, a, b, mask, .. } => {
                        let (a, b) = (op!(a), op!(b));
                        let (x, y) = match (a, b) { (V::A(x), V::A(y)) => (x, y), _ => panic!() };
                        let o = mask.iter().map(|m| { let m = *m as usize; if m < x.len() { x[m].clone() } else if m < x.len() + y.len() { y[m - x.len()].clone() } else { V::C(0) } }).collect();
                        fr.regs[*d as usize] = V::A(Rc::new(o));
                    }
                    Inst::Freeze { d, a } => { let a = op!(a); fr.regs[*d as usize] = a; }
                    Inst::AtomicRmw { d, op: o, p, v, ty } => {
                        let (p, v) = (op!(p), op!(v));
                        let old = self.load_sym(st, &p, *ty)?;
                        let w = self.tw(*ty).0;
                        let n = match &**o {
                            "xchg" => v, "add" => self.ctx.bin(BinOp::Add, w, &old, &v), "sub" => self.ctx.bin(BinOp::Sub, w, &old, &v), "and" => self.ctx.bin(BinOp::And, w, &old, &v),
                            "or" => self.ctx.bin(BinOp::Or, w, &old, &v), "xor" => self.ctx.bin(BinOp::Xor, w, &old, &v), o => panic!("UNSUPPORTED atomicrmw {}", o),
                        };
                        self.store_sym(st, &p, *ty, &n)?;
                        Rc::make_mut(st.frames.last_mut().unwrap()).regs[*d as usize] = old;
                    }
                    Inst::CmpXchg { d, p, c, n, ty } => {
                        let (p, c, n) = (op!(p), op!(c), op!(n));
                        let old = self.load_sym(st, &p, *ty)?;
                        let w = self.tw(*ty).0;
                        let e = self.ctx.icmp(Pred::Eq, w, &old, &c);
                        let nv = self.ctx.select(&e, &n, &old, w);
                        self.store_sym(st, &p, *ty, &nv)?;
                        Rc::make_mut(st.frames.last_mut().unwrap()).regs[*d as usize] = V::A(Rc::new(vec![old, e]));
                    }
                    Inst::Nop | Inst::Landingpad => {}
                    Inst::Call { d, ret, f, args, noret } => {
                        match f {
                            Callee::Ext(n) if n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.invariant") => { ip += 1; continue; }
                            _ => {}
                        }
                        let av: Vec<V> = args.iter().map(|(_, a)| match a { Op::R(r) => fr.regs[*r as usize].clone(), Op::K(v) => v.clone() }).collect();
                        let mut target = match f {
                            Callee::Func(i) => Ok(*i),
                            Callee::Ext(n) => Err(n.clone()),
                            Callee::Ind(o) => {
                                let a = match op!(o) { V::C(a) => a, v => return Ok(Ev::Conc(v)) };
                                if a >= FUNC_BASE && a < FUNC_BASE + 16 * self.m.funcs.len() as u64 { Ok(((a - FUNC_BASE) / 16) as u32) }
                                else {
                                    let e = self.m.ext_addr.borrow();
                                    match e.iter().find(|(_, x)| **x == a) { Some((n, _)) => Err(n.clone()), None => return Err(Trap::Oob(a, "call")) }
                                }
                            }
                        };
                        if let Ok(i) = target { if self.m.funcs[i as usize].name.starts_with("sym_") { target = Err(self.m.funcs[i as usize].name.clone()); } }
                        if *noret {
                            let name = match &target { Ok(i) => self.m.funcs[*i as usize].name.to_string(), Err(n) => n.to_string() };
                            return Ok(Ev::Panic(format!("panic ({})", demangle(&name))));
                        }
                        match target {
                            Ok(i) => {
                                let nf = self.m.func(i);
                                let mut regs = vec![V::C(0); nf.nregs as usize];
                                for (k, p) in nf.params.iter().enumerate() { if k < av.len() { regs[*p as usize] = av[k].clone(); } }
                                let fr2 = Frame { func: nf.clone(), fi: i, regs, block: 0, ip: 0, dest: *d, allocas: vec![] };
                                self.visit(i, 0);
                                if st.frames.len() > 4000 { return Err(Trap::Budget("call depth".into())); }
                                st.frames.push(Rc::new(fr2));
                                func = nf;
                                switched = true;
                                break;
                            }
                            Err(n) => {
                                let (d, ret) = (*d, *ret);
                                let tys: Vec<TyId> = args.iter().map(|(t, _)| *t).collect();
                                match self.external(st, &n, &av, &tys, ret)? {
                                    None => return Ok(Ev::Dead),
                                    Some(v) => if let Some(d) = d { Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v; },
                                }
                            }
                        }
                    }
                }
                ip += 1;
            }
            if !switched { return Err(Trap::Budget(format!("fell off block in {}", func.name))); }
        }
    }
    fn wide(&mut self, o: BinOp, w: u32, a: &V, b: &V) -> V {
        let cv = |v: &V| -> Option<u128> { match v { V::C(c) => Some(*c as u128), V::W(x) => Some(**x), _ => None } };
        if let (Some(x), Some(y)) = (cv(a), cv(b)) {
            let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
            let r = match o {
                BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y), BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u128 { 0 } else { x << y }, BinOp::LShr => if y >= w as u128 { 0 } else { x >> y }, BinOp::UDiv => x / y, BinOp::URem => x % y,
                BinOp::AShr => { let s = if w < 128 && x >> (w - 1) & 1 == 1 { x | !m } else { x }; ((s as i128) >> y) as u128 }
                BinOp::SDiv => ((x as i128).wrapping_div(y as i128)) as u128, BinOp::SRem => ((x as i128).wrapping_rem(y as i128)) as u128,
            };
            return V::W(Rc::new(r & m));
        }
        self.ctx.bin(o, w, a, b)
    }
    fn do_cast(&mut self, o: CastOp, from: TyId, to: TyId, a: &V) -> V {
        let (fw, tw) = (self.tw(from).0, self.tw(to).0);
        match o {
            CastOp::Bitcast => {
                match (self.m.t(from), self.m.t(to)) {
                    (Ty::Vec(e, n), Ty::Vec(e2, n2)) => { let ew = self.tw(e).0; let i = self.vec_to_int(a, n, ew); let ew2 = self.tw(e2).0; self.int_to_vec(&i, n2, ew2) }
                    (Ty::Vec(e, n), _) => { let ew = self.tw(e).0; self.vec_to_int(a, n, ew) }
                    (_, Ty::Vec(e, n)) => { let ew = self.tw(e).0; self.int_to_vec(a, n, ew) }
                    _ => a.clone(),
                }
            }
            CastOp::PtrToInt | CastOp::IntToPtr => { if fw == tw { a.clone() } else { let c = if tw < fw { CastOp::Trunc } else { CastOp::Zext }; self.ctx.cast(c, fw, tw, a) } }
            CastOp::Trunc | CastOp::Zext | CastOp::Sext => {
                if let V::C(c) = a { if tw <= 64 && tw != 0 { return V::C(match o { CastOp::Trunc => c & mask(tw), CastOp::Sext => sext(*c, fw) & mask(tw), _ => *c }); } }
                let (fe, te) = (self.elem_w(from), self.elem_w(to));
                self.map1(a, &mut |s, x| match x {
                    V::C(c) if te > 64 => V::W(Rc::new(if o == CastOp::Sext { (sext(*c, fe) as i64 as i128 as u128) & if te >= 128 { u128::MAX } else { (1 << te) - 1 } } else { *c as u128 })),
                    V::W(c) => if te <= 64 { V::C(**c as u64 & mask(te)) } else { V::W(Rc::new(**c & if te >= 128 { u128::MAX } else { (1 << te) - 1 })) },
                    x => s.ctx.cast(o, fe, te, x),
                })
            }
            _ => { let (fe, te) = (self.elem_w(from), self.elem_w(to)); self.map1(a, &mut |s, x| s.ctx.fcast(o, fe, te, x)) }
        }
    }
    fn cstr(&mut self, st: &State, mut a: u64) -> String {
        let mut s = String::new();
        for _ in 0..4096 { match self.rd(st, a, 1, 8) { Ok(V::C(0)) => break, Ok(V::C(c)) => s.push(c as u8 as char), _ => break } a += 1; }
        s
    }
    fn external(&mut self, st: &mut State, n: &str, a: &[V], tys: &[TyId], ret: TyId) -> Result<Option<V>, Trap> {
        let c = |i: usize| -> Result<u64, Trap> { match &a[i] { V::C(c) => Ok(*c), V::W(x) => Ok(**x as u64), v => Err(Trap::Conc(v.clone())) } };
        if let Some(r) = n.strip_prefix("llvm.") {
            let base = r.split('.').next().unwrap();
            let w = if !tys.is_empty() { self.elem_w(tys[0]) } else { 0 };
            let v = match base {
                "memcpy" | "memmove" => { let (d, s, l) = (c(0)?, c(1)?, c(2)?); self.memcpy(st, d, s, l)?; V::C(0) }
                "memset" => {
                    let (d, l) = (c(0)?, c(2)?);
                    for i in 0..l { self.wr(st, d + i, 1, &a[1])?; }
                    V::C(0)
                }
                "assume" | "prefetch" | "donothing" | "sideeffect" => V::C(0),
                "expect" => a[0].clone(),
                "is" if r.starts_with("is.fpclass") => {
                    let m = c(1)?;
                    let f = move |b: u64| -> u64 {
                        let (e, fr, neg) = if w == 64 { (b >> 52 & 0x7ff, b & ((1 << 52) - 1), b >> 63 & 1) } else { (b >> 23 & 0xff, b & ((1 << 23) - 1), b >> 31 & 1) };
                        let top = if w == 64 { 0x7ff } else { 0xff };
                        let quiet = fr >> (if w == 64 { 51 } else { 22 }) & 1;
                        let k = if e == top && fr != 0 { quiet } else if e == top { if neg == 1 { 2 } else { 9 } } else if e != 0 { if neg == 1 { 3 } else { 8 } } else if fr != 0 { if neg == 1 { 4 } else { 7 } } else if neg == 1 { 5 } else { 6 };
                        m >> k & 1
                    };
                    self.map1(&a[0], &mut |s, x| match x {
                        V::C(b) => V::C(f(*b)),
                        x => match s.ctx.pointwise1(x, w, 1, &f) { Some(v) => v, None => panic!("UNSUPPORTED symbolic {}", n) },
                    })
                }
                "is" if r.starts_with("is.constant") => V::bool(false),
                "umin" | "umax" | "smin" | "smax" => {
                    let p = match base { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt };
                    self.map2(&a[0], &a[1], &mut |s, x, y| { let k = s.ctx.icmp(p, w, x, y); s.ctx.select(&k, x, y, w) })
                }
                "usub" | "uadd" | "sadd" | "ssub" | "umul" | "smul" if r.contains(".sat.") || r.contains(".with.") => {
                    let (x, y) = (a[0].clone(), a[1].clone());
                    let sat = r.contains(".sat.");
                    if let (V::A(_), true) = (&x, sat) { return Ok(Some(self.map2(&x, &y, &mut |s, p, q| s.sat_op(base, w, p, q)))); }
                    if sat { self.sat_op(base, w, &x, &y) } else { let (v, o) = self.ovf_op(base, w, &x, &y)?; V::A(Rc::new(vec![v, o])) }
                }
                "ctpop" => self.map1(&a[0], &mut |s, x| match x {
                    V::C(c) => V::C(c.count_ones() as u64), V::W(c) => V::W(Rc::new(c.count_ones() as u128)),
                    x => {
                        if let Some(v) = s.ctx.pointwise1(x, w, w, &|c| c.count_ones() as u64) { return v; }
                        let mut acc = V::C(0);
                        let b = s.ctx.bits_of(x, w);
                        for l in b.iter() { let lv = s.ctx.lit_v(*l); let z = s.ctx.cast(CastOp::Zext, 1, w, &lv); acc = s.ctx.bin(BinOp::Add, w, &acc, &z); }
                        acc
                    }
                }),
                "ctlz" | "cttz" => {
                    let up = base == "cttz";
                    self.map1(&a[0], &mut |s, x| match x {
                        V::C(c) => V::C(if *c == 0 { w as u64 } else if up { c.trailing_zeros() as u64 } else { (c.leading_zeros() - (64 - w)) as u64 }),
                        V::W(c) => V::W(Rc::new(if up { c.trailing_zeros() } else { c.leading_zeros() - (128 - w) } as u128)),
                        x => {
                            if let Some(v) = s.ctx.pointwise1(x, w, w, &|c| if c == 0 { w as u64 } else if up { c.trailing_zeros() as u64 } else { (c.leading_zeros() - (64 - w)) as u64 }) { return v; }
                            let b = s.ctx.bits_of(x, w);
                            let mut r = V::C(w as u64);
                            let order: Vec<u32> = if up { (0..w).rev().collect() } else { (0..w).collect() };
                            for i in order { let lv = s.ctx.lit_v(b[i as usize]); let k = if up { i } else { w - 1 - i }; r = s.ctx.select(&lv, &V::C(k as u64), &r, w); }
                            r
                        }
                    })
                }
                "bswap" | "bitreverse" => {
                    let by = base == "bswap";
                    self.map1(&a[0], &mut |s, x| {
                        if let V::C(c) = x { return V::C(if by { c.swap_bytes() >> (64 - w) } else { c.reverse_bits() >> (64 - w) }); }
                        let b = s.ctx.bits_of(x, w);
                        let mut o = vec![];
                        if by { for k in (0..w / 8).rev() { o.extend_from_slice(&b[(8 * k) as usize..(8 * k + 8) as usize]); } } else { o = b.iter().rev().copied().collect(); }
                        s.ctx.mk_bits(o)
                    })
                }
                "abs" => self.map1(&a[0], &mut |s, x| { let k = s.ctx.icmp(Pred::Slt, w, x, &V::C(0)); let ng = s.ctx.bin(BinOp::Sub, w, &V::C(0), x); s.ctx.select(&k, &ng, x, w) }),
                "fshl" | "fshr" => {
                    let s = c(2)? % w as u64;
                    let (x, y) = (a[0].clone(), a[1].clone());
                    let (l, rr) = if base == "fshl" { (s, w as u64 - s) } else { (w as u64 - s, s) };
                    let p = self.ctx.bin(BinOp::Shl, w, &x, &V::C(l));
                    let q = self.ctx.bin(BinOp::LShr, w, &y, &V::C(rr));
                    let p = if l >= w as u64 { V::C(0) } else { p };
                    let q = if rr >= w as u64 { V::C(0) } else { q };
                    self.ctx.bin(BinOp::Or, w, &p, &q)
                }
                "ucmp" | "scmp" => {
                    let rw = self.tw(ret).0;
                    let (lt, gt) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                    let l = self.ctx.icmp(lt, w, &a[0], &a[1]);
                    let g = self.ctx.icmp(gt, w, &a[0], &a[1]);
                    let z = self.ctx.select(&g, &V::C(1), &V::C(0), rw);
                    self.ctx.select(&l, &V::C(mask(rw)), &z, rw)
                }
                "load" => { let (p, o) = (c(0)?, c(1)?); let d = self.rd(st, p.wrapping_add(o), 4, 32)?.c(); V::C(p.wrapping_add(sext(d, 32))) }
                "threadlocal" => a[0].clone(),
                "fptoui" | "fptosi" => {
                    let rw = self.elem_w(ret);
                    let uns = base == "fptoui";
                    let lim = mask(rw);
                    let f = move |x: f64| -> u64 { if uns { let v = x as u64; v.min(lim) } else if rw == 64 { x as i64 as u64 } else { let hi = (1i64 << (rw - 1)) - 1; ((x as i64).clamp(-hi - 1, hi) as u64) & lim } };
                    self.map1(&a[0], &mut |s, x| s.ctx.fun1(w, rw, x, &f))
                }
                "fabs" | "sqrt" | "floor" | "ceil" | "round" | "trunc" | "rint" | "nearbyint" | "roundeven" => {
                    let rb = base.to_string();
                    let f = move |x: f64| -> u64 {
                        let y = match &*rb { "fabs" => x.abs(), "sqrt" => x.sqrt(), "floor" => x.floor(), "ceil" => x.ceil(), "round" => x.round(), "trunc" => x.trunc(), _ => x.round_ties_even() };
                        if w == 64 { y.to_bits() } else { (if &*rb == "sqrt" { (x as f32).sqrt() } else { y as f32 }).to_bits() as u64 }
                    };
                    self.map1(&a[0], &mut |s, x| {
                        if base == "fabs" && matches!(x, V::S(q) if !matches!(q.k, K::Tab(..))) && !matches!(x, V::S(q) if matches!(q.k, K::Fp(_))) { return s.ctx.bin(BinOp::And, w, x, &V::C(mask(w - 1))); }
                        s.ctx.fun1(w, w, x, &f)
                    })
                }
                "maxnum" | "minnum" | "maximum" | "minimum" | "maximumnum" | "minimumnum" => {
                    let mx = base.starts_with("max");
                    match (&a[0], &a[1]) {
                        (V::C(x), V::C(y)) if w == 64 => { let (p, q) = (f64::from_bits(*x), f64::from_bits(*y)); V::C(if mx { p.max(q) } else { p.min(q) }.to_bits()) }
                        (V::C(x), V::C(y)) => { let (p, q) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32)); V::C(if mx { p.max(q) } else { p.min(q) }.to_bits() as u64) }
                        (x, y) => { let (x, y) = (x.clone(), y.clone()); match self.ctx.pointwise2(&x, &y, w, w, 16, &|p, q| { let (p, q) = (f64::from_bits(p), f64::from_bits(q)); if mx { p.max(q) } else { p.min(q) }.to_bits() }) { Some(v) => v, None => panic!("UNSUPPORTED symbolic {}", n) } }
                    }
                }
                "copysign" => { let s = 1u64 << (w - 1); let p = self.ctx.bin(BinOp::And, w, &a[0], &V::C(!s & mask(w))); let q = self.ctx.bin(BinOp::And, w, &a[1], &V::C(s)); self.ctx.bin(BinOp::Or, w, &p, &q) }
                "vector" if r.starts_with("vector.reduce.") => {
                    let k = r.split('.').nth(2).unwrap().to_string();
                    let xs = match &a[0] { V::A(x) => x.clone(), _ => panic!() };
                    let mut acc = xs[0].clone();
                    for x in xs.iter().skip(1) {
                        acc = match &*k {
                            "add" => self.ctx.bin(BinOp::Add, w, &acc, x), "or" => self.ctx.bin(BinOp::Or, w, &acc, x), "and" => self.ctx.bin(BinOp::And, w, &acc, x), "xor" => self.ctx.bin(BinOp::Xor, w, &acc, x),
                            "umax" => { let g = self.ctx.icmp(Pred::Ugt, w, &acc, x); self.ctx.select(&g, &acc, x, w) }
                            "umin" => { let g = self.ctx.icmp(Pred::Ult, w, &acc, x); self.ctx.select(&g, &acc, x, w) }
                            k => panic!("UNSUPPORTED reduce {}", k),
                        };
                    }
                    acc
                }
                "x86" if r.contains("pmovmskb") => {
                    let xs = match &a[0] { V::A(x) => x.clone(), _ => panic!() };
                    let bits: Vec<V> = xs.iter().map(|x| { let t = self.ctx.bin(BinOp::LShr, 8, x, &V::C(7)); self.ctx.cast(CastOp::Trunc, 8, 1, &t) }).collect();
                    let v = self.vec_to_int(&V::A(Rc::new(bits)), xs.len() as u32, 1);
                    self.ctx.cast(CastOp::Zext, xs.len() as u32, 32, &v)
                }
                "x86" => V::C(0),
                "trap" | "ubsantrap" => { let s = st.clone(); self.panic_path(&s, "trap".into()); return Ok(None); }
                _ => panic!("UNSUPPORTED intrinsic {}", n),
            };
            return Ok(Some(v));
        }
        let v = match n {
            "sym_bytes" => {
                let (p, l) = (c(0)?, c(1)?);
                let k = st.inputs.len();
                let mut rec = vec![];
                for i in 0..l {
                    let v = match &self.conc { Some(cs) => V::C(cs.get(k).and_then(|r| r.get(i as usize)).copied().unwrap_or(0) as u64), None => { let b = (0..8).map(|j| self.ctx.input_var(k, i as usize, j)).collect(); self.ctx.mk_bits(b) } };
                    self.wr(st, p + i, 1, &v)?;
                    rec.push(v);
                }
                Rc::make_mut(&mut st.inputs).push(rec);
                V::C(0)
            }
            // symbolic byte with only the bits of a mask free
            "sym_u8" => {
                let m = c(0)?;
                let k = st.inputs.len();
                let v = match &self.conc { Some(cs) => V::C(cs.get(k).and_then(|r| r.get(0)).copied().unwrap_or(0) as u64), None => { let b = (0..8).map(|i| if m >> i & 1 == 1 { self.ctx.input_var(k, 0, i) } else { FALSE }).collect(); self.ctx.mk_bits(b) } };
                Rc::make_mut(&mut st.inputs).push(vec![v.clone()]);
                v
            }
            "sym_assume" => {
                self.assumes += 1;
                let l = self.ctx.cond_lit(&a[0]);
                if l != TRUE { self.lost += 1; }
                if !self.assume_lit(st, l, true)? { return Ok(None); }
                V::C(0)
            }
            "sym_assert" => {
                let l = self.ctx.cond_lit(&a[0]);
                let id = c(1)?;
                if l == TRUE { self.asserts_simpl += 1; }
                else {
                    self.asserts_solver += 1;
                    let bad = match &st.model { Some(m) if self.ctx.eval(l, m) == Some(false) => Some(m.clone()), _ => self.query(st, &[l ^ 1])? };
                    if let Some(m) = bad { self.report(st, &m, format!("assertion {}", id)); return Ok(None); }
                }
                V::C(0)
            }
            "sym_equal" => {
                // (address, address, elements, floating point, id)
                let (p, q, n, fp, id) = (c(0)?, c(1)?, c(2)?, c(3)? != 0, c(4)?);
                let sz = if fp { 8 } else { 1 };
                let mut pairs = vec![];
                for i in 0..n { let (x, y) = (self.rd(st, p + i * sz, sz, sz as u32 * 8)?, self.rd(st, q + i * sz, sz, sz as u32 * 8)?); pairs.push((x, y, sz as u32 * 8, fp)); }
                self.asserts_solver += 1;
                if self.start.elapsed().as_secs_f64() > self.opts.max_seconds { return Err(Trap::Budget("time budget exhausted".into())); }
                let pc = (*st.pc).clone();
                match self.ctx.differ(&pc, &pairs) {
                    Res::Unsat => {}
                    Res::Sat(m) => { self.report(st, &m, format!("assertion {}", id)); return Ok(None); }
                    Res::Unknown(r) => return Err(Trap::Budget(format!("solver: unknown ({}) in equality {}", r, id))),
                }
                V::C(0)
            }
            "sym_reach" => {
                let id = c(0)?;
                let ok = st.model.is_some() || match self.query(st, &[])? { Some(m) => { st.model = Some(m); true } None => false };
                if !ok { return Ok(None); }
                *self.reach.entry(id).or_insert(0) += 1;
                V::C(0)
            }
            "sym_expect_panic" => { st.expect_panic = c(0)? != 0; V::C(0) }
            "sym_param" => V::C(self.params.get(c(0)? as usize).copied().unwrap_or(0)),
            "sym_concretize" => V::C(c(0)?),
            "sym_is_symbolic" => V::bool(!a[0].is_c()),
            "sym_note" => { let (k, x) = (c(0)?, c(1)?); Rc::make_mut(&mut st.notes).push((k, x)); V::C(0) }
            "sym_config" => {
                let (k, x) = (c(0)?, c(1)?);
                match k { 0 => self.opts.merge = x != 0, 1 => self.opts.merge_int = x != 0, 2 => self.opts.merge_mem = x != 0, 3 => self.ctx.support_tab = x != 0, 4 => self.ctx.tab_limit = x as usize, 5 => { self.opts.spec = x as usize; self.region_memo.clear(); } 6 => self.opts.conc_limit = x as usize, _ => {} }
                V::C(0)
            }
            "malloc" | "_Znwm" => { let s = c(0)?; V::C(self.alloc(st, s, 16)) }
            "calloc" => { let s = c(0)?.wrapping_mul(c(1)?); V::C(self.alloc(st, s, 16)) }
            "posix_memalign" => { let (p, al, s) = (c(0)?, c(1)?, c(2)?); let x = self.alloc(st, s, al); self.wr(st, p, 8, &V::C(x))?; V::C(0) }
            "aligned_alloc" => { let (al, s) = (c(0)?, c(1)?); V::C(self.alloc(st, s, al)) }
            "realloc" => {
                let (p, s) = (c(0)?, c(1)?);
                let x = self.alloc(st, s, 16);
                if p != 0 {
                    let old = match st.mem.objs.binary_search_by(|o| o.base.cmp(&p)) { Ok(i) => st.mem.objs[i].size, Err(_) => return Err(Trap::Oob(p, "realloc")) };
                    self.memcpy(st, x, p, old.min(s))?;
                    st.mem.remove(p);
                }
                V::C(x)
            }
            "free" => { let p = c(0)?; if p != 0 && !st.mem.remove(p) { return Err(Trap::Oob(p, "free")); } V::C(0) }
            "bcmp" | "memcmp" => {
                let (p, q, l) = (c(0)?, c(1)?, c(2)?);
                let mut xs = vec![];
                let mut allc = true;
                for i in 0..l { let x = self.rd(st, p + i, 1, 8)?; let y = self.rd(st, q + i, 1, 8)?; if !x.is_c() || !y.is_c() { allc = false; } xs.push((x, y)); }
                if allc { V::C(xs.iter().find(|(x, y)| x.c() != y.c()).map_or(0, |(x, y)| if x.c() < y.c() { 0xffff_ffff } else { 1 })) }
                else if n == "bcmp" {
                    let mut eq = TRUE;
                    for (x, y) in &xs { let e = self.ctx.icmp(Pred::Eq, 8, x, y); let l = self.ctx.cond_lit(&e); eq = self.ctx.and(eq, l); if eq == FALSE { break; } }
                    let e = self.ctx.lit_v(eq);
                    self.ctx.select(&e, &V::C(0), &V::C(1), 32)
                } else {
                    let mut r = V::C(0);
                    for (x, y) in xs.iter().rev() {
                        let lt = self.ctx.icmp(Pred::Ult, 8, x, y);
                        let gt = self.ctx.icmp(Pred::Ugt, 8, x, y);
                        let t = self.ctx.select(&gt, &V::C(1), &r, 32);
                        r = self.ctx.select(&lt, &V::C(0xffff_ffff), &t, 32);
                    }
                    r
                }
            }
            "strlen" => { let p = c(0)?; let mut i = 0; loop { match self.rd(st, p + i, 1, 8)? { V::C(0) => break, V::C(_) => i += 1, v => return Err(Trap::Conc(v)) } } V::C(i) }
            "getenv" => V::C(0),
            "__errno_location" => {
                V::C(ERRNO_AT)
            }
            "getrandom" => { let (p, l) = (c(0)?, c(1)?); for i in 0..l { self.wr(st, p + i, 1, &V::C(0))?; } V::C(l) }
            "write" | "writev" => V::C(if n == "write" { c(2)? } else { let (p, k) = (c(1)?, c(2)?); let mut t = 0; for i in 0..k { t += self.rd(st, p + 16 * i + 8, 8, 64)?.c(); } t }),
            "mkdir" if self.fs => V::C(0),
            "mkdir" | "open" | "open64" | "openat" | "openat64" | "stat" | "stat64" | "fstat64" | "fstat" | "lstat64" | "unlink" | "rmdir" | "rename" | "statx" | "ioctl" | "fcntl" | "getcwd" | "syscall" | "close" | "read" | "lseek64" | "poll" | "sigaction" => {
                let e = ERRNO_AT;
                self.wr(st, e, 4, &V::C(2))?;
                if self.trace { let s = if !a.is_empty() { match &a[0] { V::C(p) if *p >= GLOBAL_BASE => self.cstr(st, *p), _ => String::new() } } else { String::new() }; eprintln!("stub {} {}", n, s); }
                let w = self.tw(ret).0;
                if n == "getcwd" { V::C(0) } else { V::C(mask(w)) }
            }
            "pthread_self" => V::C(1),
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => V::C(0),
            "pthread_getspecific" => V::C(0),
            "asm" => V::C(0),
            "fmod" => { let x = f64::from_bits(c(0)?); let y = f64::from_bits(c(1)?); V::C((x % y).to_bits()) }
            "sqrt" => self.ctx.fun1(64, 64, &a[0], &|x| x.sqrt().to_bits()),
            "floor" => self.ctx.fun1(64, 64, &a[0], &|x| x.floor().to_bits()),
            "ceil" => self.ctx.fun1(64, 64, &a[0], &|x| x.ceil().to_bits()),
            "round" => self.ctx.fun1(64, 64, &a[0], &|x| x.round().to_bits()),
            "trunc" => self.ctx.fun1(64, 64, &a[0], &|x| x.trunc().to_bits()),
            "roundf" => self.ctx.fun1(32, 32, &a[0], &|x| (x as f32).round().to_bits() as u64),
            "sin" | "cos" | "tan" | "exp" | "log" | "pow" | "powf" | "expf" | "atan2" | "sinf" | "cosf" => {
                let x = f64::from_bits(c(0)?);
                match n { "sin" => V::C(x.sin().to_bits()), "cos" => V::C(x.cos().to_bits()), "exp" => V::C(x.exp().to_bits()), "log" => V::C(x.ln().to_bits()), "pow" => V::C(x.powf(f64::from_bits(c(1)?)).to_bits()), "atan2" => V::C(x.atan2(f64::from_bits(c(1)?)).to_bits()), _ => panic!("UNSUPPORTED external {}", n) }
            }
            _ => panic!("UNSUPPORTED external function {}", n),
        };
        Ok(Some(v))
    }
    fn sat_op(&mut self, base: &str, w: u32, x: &V, y: &V) -> V {
        match base {
            "usub" => { let k = self.ctx.icmp(Pred::Ult, w, x, y); let d = self.ctx.bin(BinOp::Sub, w, x, y); self.ctx.select(&k, &V::C(0), &d, w) }
            "uadd" => { let s = self.ctx.bin(BinOp::Add, w, x, y); let k = self.ctx.icmp(Pred::Ult, w, &s, x); self.ctx.select(&k, &V::C(mask(w)), &s, w) }
            _ => match (x, y) {
                (V::C(p), V::C(q)) => {
                    let (p, q) = (sext(*p, w) as i64 as i128, sext(*q, w) as i64 as i128);
                    let r = if base == "sadd" { p + q } else { p - q };
                    let hi = (1i128 << (w - 1)) - 1;
                    V::C(r.clamp(-hi - 1, hi) as u64 & mask(w))
                }
                _ => {
                    let r = if base == "sadd" { self.ctx.bin(BinOp::Add, w, x, y) } else { self.ctx.bin(BinOp::Sub, w, x, y) };
                    let o = self.sovf(base == "sadd", w, x, y, &r);
                    let ng = self.ctx.icmp(Pred::Slt, w, x, &V::C(0));
                    let lim = self.ctx.select(&ng, &V::C(1 << (w - 1)), &V::C(mask(w - 1)), w);
                    self.ctx.select(&o, &lim, &r, w)
                }
            },
        }
    }
    fn sovf(&mut self, add: bool, w: u32, x: &V, y: &V, r: &V) -> V {
        let sx = self.ctx.icmp(Pred::Slt, w, x, &V::C(0));
        let sy = self.ctx.icmp(Pred::Slt, w, y, &V::C(0));
        let sr = self.ctx.icmp(Pred::Slt, w, r, &V::C(0));
        let d1 = self.ctx.bin(BinOp::Xor, 1, &sx, &sr);
        let d2 = self.ctx.bin(BinOp::Xor, 1, &sx, &sy);
        let d2 = if add { self.ctx.bin(BinOp::Xor, 1, &d2, &V::C(1)) } else { d2 };
        self.ctx.bin(BinOp::And, 1, &d1, &d2)
    }
    fn ovf_op(&mut self, base: &str, w: u32, x: &V, y: &V) -> Result<(V, V), Trap> {
        if let (V::C(p), V::C(q)) = (x, y) {
            if w <= 64 {
                let (r, o): (u64, bool) = if base.starts_with('u') {
                    let (p, q) = (*p as u128, *q as u128);
                    match base { "uadd" => ((p + q) as u64 & mask(w), p + q > mask(w) as u128), "usub" => (p.wrapping_sub(q) as u64 & mask(w), p < q), _ => ((p * q) as u64 & mask(w), p * q > mask(w) as u128) }
                } else {
                    let (p, q) = (sext(*p, w) as i64 as i128, sext(*q, w) as i64 as i128);
                    let r = match base { "sadd" => p + q, "ssub" => p - q, _ => p * q };
                    let hi = (1i128 << (w - 1)) - 1;
                    (r as u64 & mask(w), r > hi || r < -hi - 1)
                };
                return Ok((V::C(r), V::bool(o)));
            }
        }
        if w > 64 { panic!("UNSUPPORTED wide overflow op"); }
        Ok(match base {
            "uadd" => {
                let (mx, my) = (self.ctx.max_of(x, w), self.ctx.max_of(y, w));
                let r = self.ctx.bin(BinOp::Add, w, x, y);
                let o = if mx as u128 + my as u128 <= mask(w) as u128 { V::C(0) } else { let nx = self.ctx.bin(BinOp::Xor, w, x, &V::C(mask(w))); self.ctx.icmp(Pred::Ugt, w, y, &nx) };
                (r, o)
            }
            "usub" => { let r = self.ctx.bin(BinOp::Sub, w, x, y); let o = self.ctx.icmp(Pred::Ult, w, x, y); (r, o) }
            "sadd" | "ssub" => {
                let r = self.ctx.bin(if base == "sadd" { BinOp::Add } else { BinOp::Sub }, w, x, y);
                let hi = mask(w) / 2;
                let (mx, my) = (self.ctx.max_of(x, w), self.ctx.max_of(y, w));
                let o = if base == "sadd" && mx as u128 + my as u128 <= hi as u128 { V::C(0) } else if base == "ssub" && mx <= hi && my <= hi { V::C(0) } else { self.sovf(base == "sadd", w, x, y, &r) };
                (r, o)
            }
            "umul" => {
                let (mx, my) = (self.ctx.max_of(x, w), self.ctx.max_of(y, w));
                let r = self.ctx.bin(BinOp::Mul, w, x, y);
                if mx as u128 * my as u128 <= mask(w) as u128 { (r, V::C(0)) }
                else {
                    let xx = self.ctx.cast(CastOp::Zext, w, 2 * w, x);
                    let yy = self.ctx.cast(CastOp::Zext, w, 2 * w, y);
                    let p = self.ctx.bin(BinOp::Mul, 2 * w, &xx, &yy);
                    let bits = self.ctx.bits_of(&p, 2 * w);
                    let mut o = FALSE;
                    for k in w..2 * w { o = self.ctx.or(o, bits[k as usize]); }
                    (r, self.ctx.lit_v(o))
                }
            }
            _ => {
                let (mx, my) = (self.ctx.max_of(x, w), self.ctx.max_of(y, w));
                let hi = mask(w) / 2;
                if mx <= hi && my <= hi && mx as u128 * my as u128 <= hi as u128 { let r = self.ctx.bin(BinOp::Mul, w, x, y); (r, V::C(0)) }
                else if let Some(r) = self.ctx.pointwise2(x, y, w, w, 16, &|p, q| p.wrapping_mul(q) & mask(w)) {
                    let o = self.ctx.pointwise2(x, y, w, 1, 16, &|p, q| { let r = sext(p, w) as i64 as i128 * sext(q, w) as i64 as i128; let hi = (1i128 << (w - 1)) - 1; (r > hi || r < -hi - 1) as u64 }).unwrap();
                    (r, o)
                } else {
                    let xx = self.ctx.cast(CastOp::Sext, w, 2 * w, x);
                    let yy = self.ctx.cast(CastOp::Sext, w, 2 * w, y);
                    let p = self.ctx.bin(BinOp::Mul, 2 * w, &xx, &yy);
                    let bits = self.ctx.bits_of(&p, 2 * w);
                    let r = self.ctx.mk_bits(bits[..w as usize].to_vec());
                    let mut o = FALSE;
                    for k in w..2 * w { let d = self.ctx.xor(bits[k as usize], bits[w as usize - 1]); o = self.ctx.or(o, d); }
                    (r, self.ctx.lit_v(o))
                }
            }
        })
    }
}

pub fn demangle(s: &str) -> String {
    // legacy mangling: _ZN<len><part>...E ; v0: keep the identifiers
    if let Some(r) = s.strip_prefix("_ZN") {
        let mut out = vec![];
        let b = r.as_bytes();
        let mut i = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            let mut n = 0usize;
            while i < b.len() && b[i].is_ascii_digit() { n = n * 10 + (b[i] - b'0') as usize; i += 1; }
            if i + n > r.len() { break; }
            let p = &r[i..i + n];
            i += n;
            if p.len() == 17 && p.starts_with('h') { continue; }
            out.push(p.replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("..", "::"));
        }
        return out.join("::");
    }
    if s.starts_with("_R") {
        let b = s.as_bytes();
        let mut out = vec![];
        let mut i = 2;
        while i < b.len() {
            if b[i].is_ascii_digit() {
                let mut n = 0usize;
                let st = i;
                while i < b.len() && b[i].is_ascii_digit() { n = n * 10 + (b[i] - b'0') as usize; i += 1; }
                if i < b.len() && b[i] == b'_' { i += 1; }
                if n == 0 || i + n > b.len() { i = st + 1; continue; }
                let p = &s[i..i + n];
                if p.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') { out.push(p.to_string()); }
                i += n;
            } else if b[i] == b's' && i + 1 < b.len() {
                // disambiguator s<base62>_
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
                if j < b.len() && b[j] == b'_' && j - i < 16 { i = j + 1; } else { i += 1; }
            } else { i += 1; }
        }
        return out.join("::");
    }
    s.to_string()
}

/// functions and source lines of the code under test that were executed
pub fn coverage(m: &Module, visited: &[Vec<u64>], prefix: &str) -> (BTreeMap<String, u64>, HashSet<(String, u32)>) {
    let mut funcs: BTreeMap<String, u64> = BTreeMap::new();
    let mut lines: HashSet<(String, u32)> = HashSet::new();
    for (i, v) in visited.iter().enumerate() {
        if v.iter().all(|x| *x == 0) { continue; }
        let f = m.func(i as u32);
        for (b, bl) in f.blocks.iter().enumerate() {
            if v.get(b / 64).map_or(true, |x| x >> (b % 64) & 1 == 0) { continue; }
            let mut ds: Vec<u32> = bl.dbg.clone();
            ds.dedup();
            for d in ds {
                for (file, line, func) in m.loc(d) {
                    if let Some(r) = file.strip_prefix(prefix) {
                        if lines.insert((r.to_string(), line)) { *funcs.entry(format!("{}: {}", r, demangle(&func))).or_insert(0) += 1; }
                    }
                }
            }
        }
    }
    (funcs, lines)
}
