//! Interface between the harnesses and whatever runs them: the symbolic executor (which supplies
//! the `sym_*` functions itself) or the native replay (native.rs, which reads recorded values).
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_u8(mask: u8) -> u8;
    fn sym_assume(b: bool);
    fn sym_assert(b: bool, id: u32);
    fn sym_equal(a: *const u8, b: *const u8, n: usize, fp: bool, id: u32);
    fn sym_reach(id: u32);
    fn sym_expect_panic(b: bool);
    fn sym_param(i: u32) -> u64;
    fn sym_concretize(v: u64) -> u64;
    fn sym_is_symbolic(v: u64) -> bool;
    fn sym_note(k: u64, v: u64);
    fn sym_config(k: u32, v: u64);
}
/// n unconstrained symbolic bytes
pub fn bytes(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; if n > 0 { unsafe { sym_bytes(v.as_mut_ptr(), n) } } v }
/// a byte whose bits in `mask` are symbolic and whose other bits are 0
pub fn byte(mask: u8) -> u8 { if mask == 0 { 0 } else { unsafe { sym_u8(mask) } } }
pub fn bit() -> bool { byte(1) != 0 }
pub fn assume(b: bool) { unsafe { sym_assume(b) } }
pub fn check(b: bool, id: u32) { unsafe { sym_assert(b, id) } }
/// the two byte strings are equal, asked of the solver in one query
pub fn check_bytes(a: &[u8], b: &[u8], id: u32) { check(a.len() == b.len(), id); unsafe { sym_equal(a.as_ptr(), b.as_ptr(), a.len(), false, id) } }
/// the same numbers, bit by bit (or both not a number)
pub fn check_floats(a: &[f64], b: &[f64], id: u32) { check(a.len() == b.len(), id); unsafe { sym_equal(a.as_ptr() as *const u8, b.as_ptr() as *const u8, a.len(), true, id) } }
pub fn reach(id: u32) { unsafe { sym_reach(id) } }
pub fn expect_panic(b: bool) { unsafe { sym_expect_panic(b) } }
pub fn param(i: u32) -> u64 { unsafe { sym_param(i) } }
pub fn concretize(v: u64) -> u64 { unsafe { sym_concretize(v) } }
pub fn is_symbolic(v: u64) -> bool { unsafe { sym_is_symbolic(v) } }
pub fn note(k: u64, v: u64) { unsafe { sym_note(k, v) } }
pub fn config(k: u32, v: u64) { unsafe { sym_config(k, v) } }
pub const MERGE: u32 = 0;
pub const SUPPORT_TAB: u32 = 3;

/// concrete pseudo random numbers (splitmix64)
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
}
/// a == b without branching on symbolic bytes; the lengths must agree too
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}
