//! Native replay of one harness run: replay ENTRY PARAMS RECORDS
//! (numbers separated by commas; records are hex byte strings separated by commas, in the order the
//! harness asks for values; - reads them from the standard input). Exit 0: every assertion held; 1: an assertion failed; 3: the records do
//! not fit the run; a panic aborts the process.
use std::cell::RefCell;
use std::process::exit;
thread_local! {
    static REC: RefCell<(Vec<Vec<u8>>, usize)> = RefCell::new((vec![], 0));
    static PAR: RefCell<Vec<u64>> = RefCell::new(vec![]);
    static EXPECT: RefCell<bool> = RefCell::new(false);
    static OUT: RefCell<Vec<String>> = RefCell::new(vec![]);
}
fn say(s: String) { println!("{}", s); }
fn next() -> Vec<u8> {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        let i = r.1;
        r.1 += 1;
        // the path may end before later inputs are requested; a missing record is a mismatch
        if i >= r.0.len() { say("RECORDS EXHAUSTED".into()); exit(3) }
        r.0[i].clone()
    })
}
#[no_mangle]
pub extern "C" fn sym_bytes(p: *mut u8, n: usize) { let b = next(); if b.len() != n { say("RECORD SIZE".into()); exit(3) } unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, n) } }
#[no_mangle]
pub extern "C" fn sym_u8(_mask: u8) -> u8 { next()[0] }
#[no_mangle]
pub extern "C" fn sym_assume(b: bool) { if !b { say("ASSUMPTION FALSE".into()); exit(3) } }
#[no_mangle]
pub extern "C" fn sym_assert(b: bool, id: u32) { if !b { say(format!("ASSERT {}", id)); exit(1) } }
#[no_mangle]
pub extern "C" fn sym_equal(a: *const u8, b: *const u8, n: usize, fp: bool, id: u32) {
    let same = unsafe { if fp {
        let (a, b) = (std::slice::from_raw_parts(a as *const f64, n), std::slice::from_raw_parts(b as *const f64, n));
        a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
    } else { std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n) } };
    sym_assert(same, id)
}
#[no_mangle]
pub extern "C" fn sym_reach(id: u32) { say(format!("REACH {}", id)); }
#[no_mangle]
pub extern "C" fn sym_expect_panic(b: bool) { EXPECT.with(|e| *e.borrow_mut() = b); }
#[no_mangle]
pub extern "C" fn sym_param(i: u32) -> u64 { PAR.with(|p| p.borrow().get(i as usize).copied().unwrap_or(0)) }
#[no_mangle]
pub extern "C" fn sym_concretize(v: u64) -> u64 { v }
#[no_mangle]
pub extern "C" fn sym_is_symbolic(_v: u64) -> bool { true }
#[no_mangle]
pub extern "C" fn sym_note(k: u64, v: u64) { say(format!("NOTE {} {}", k, v)); }
#[no_mangle]
pub extern "C" fn sym_config(_k: u32, _v: u64) {}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    PAR.with(|p| *p.borrow_mut() = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect());
    let mut records = a.get(3).cloned().unwrap_or_default();
    if records == "-" { records = std::io::read_to_string(std::io::stdin()).unwrap(); }
    REC.with(|r| r.borrow_mut().0 = Some(records.trim()).map_or(vec![], |s| s.split(',').filter(|s| !s.is_empty()).map(|s| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()).collect()));
    let f = harness::entries().into_iter().find(|e| e.0 == a[1]).expect("entry").1;
    std::panic::set_hook(Box::new(|i| {
        println!("PANIC {}", i);
        EXPECT.with(|e| if *e.borrow() { exit(0) });
        exit(1)
    }));
    f();
    if EXPECT.with(|e| *e.borrow()) { say("EXPECTED PANIC DID NOT HAPPEN".into()); exit(1) }
    say("DONE".into());
}
