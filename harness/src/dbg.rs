//! C22: the library with and without debug images, on the same input
use crate::img::*;
use crate::rt::*;
use image::GrayImage;

macro_rules! variant {
    ($m:ident, $lib:ident) => {
        pub mod $m {
            use super::*;
            use $lib::detect::{Detect, LineScan, Location};
            use $lib::extract::{Extract, QRExtractor};
            use $lib::util::qr::QRLocation;
            use $lib::util::Point;
            /// every field of every location, bit by bit
            pub fn detect(img: &GrayImage) -> Vec<u64> {
                let mut v = vec![];
                for Location::QR(q) in LineScan::new().detect(img) {
                    v.push(q.version as u64);
                    for f in [q.module_size, q.top_left.x, q.top_left.y, q.top_right.x, q.top_right.y, q.bottom_left.x, q.bottom_left.y] { v.push(f.to_bits()); }
                }
                v
            }
            pub fn extract(img: &GrayImage, ver: u32, ms: f64, c: &[f64; 6]) -> Result<(Vec<u8>, u32, u32), String> {
                let p = |i: usize| Point { x: c[i], y: c[i + 1] };
                QRExtractor::new().extract(img, QRLocation { top_left: p(0), top_right: p(2), bottom_left: p(4), module_size: ms, version: ver }).map(|d| (d.data, d.version, d.side)).map_err(|e| e.msg)
            }
        }
    };
}
variant!(plain, bardecoder);
variant!(debug, bardecoder_debug);

fn compare_detect(img: &GrayImage) {
    let a = plain::detect(img);
    let b = debug::detect(img);
    reach(1);
    check(a.len() == b.len(), 2201);
    let mut ok = true;
    for i in 0..a.len() { ok &= a[i] == b[i]; }
    check(ok, 2202);
    if a.len() > 0 { reach(2); }
}
fn compare_extract(img: &GrayImage, ver: u32, ms: f64, c: &[f64; 6]) {
    let a = plain::extract(img, ver, ms, c);
    let b = debug::extract(img, ver, ms, c);
    reach(1);
    match (a, b) {
        (Ok(a), Ok(b)) => { reach(3); check(a.1 == b.1 && a.2 == b.2, 2203); check(same(&a.0, &b.0), 2204); }
        (Err(a), Err(b)) => { reach(4); check(a == b, 2205) }
        _ => check(false, 2206),
    }
}

/// params as h_scan; config: whether directories can be made
#[no_mangle]
pub extern "C" fn h_debug_scan() {
    let (w, h, px) = scan_picture();
    compare_detect(&GrayImage::from_raw(w as u32, h as u32, px).unwrap());
}
/// params as h_bounds
#[no_mangle]
pub extern "C" fn h_debug_bounds() {
    let k = bounds_case();
    compare_extract(&GrayImage::from_raw(k.w as u32, k.h as u32, k.px).unwrap(), k.ver as u32, k.ms, &k.c);
}
/// params as h_locate and h_extract: version, level, mask, scale, margins, quarter turns, seed, symbolic modules
#[no_mangle]
pub extern "C" fn h_debug_symbol() {
    let (ver, level, mask, sc, mg, rot, seed, k) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize, margins(param(4)), param(5) as usize, param(6), param(7) as usize);
    let mut r = Rng(seed);
    let mut s = random_symbol(ver, level, mask, &mut r);
    free_modules(&mut s, k, &mut r);
    let p = draw(&s.m, s.side, sc, mg, rot);
    let c = centres(s.side, sc, mg, rot);
    let img = GrayImage::from_raw(p.w as u32, p.h as u32, p.px).unwrap();
    if k > 0 { compare_detect(&img); }
    compare_extract(&img, ver as u32, sc as f64, &[c[0].0, c[0].1, c[1].0, c[1].1, c[2].0, c[2].1]);
}
