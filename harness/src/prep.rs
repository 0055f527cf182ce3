//! C13, C14: binarisation
use crate::rt::*;
use bardecoder::prepare::{BlockedMean, Prepare};
use image::{GrayImage, Rgba, RgbaImage};

pub fn luma(p: [u8; 4]) -> u32 { (2126 * p[0] as u32 + 7152 * p[1] as u32 + 722 * p[2] as u32) / 10000 }

/// block indices of the neighbourhood of block b along an axis of n pixels
fn around(b: u32, n: u32, bs: u32, bms: u32) -> Vec<u32> {
    let h = ((bms - 1) / 2) as i64;
    let full = (n / bs) as i64;
    let r: Vec<u32> = (-h..h).map(|d| b as i64 + d).filter(|&i| i >= 0 && i < full).map(|i| i as u32).collect();
    if r.is_empty() { vec![b] } else { r }
}

/// the value every pixel must get, from the statement of C14, in integers
pub fn spec(px: &[u32], w: u32, h: u32, bs: u32, bms: u32) -> Vec<u8> {
    let (nx, ny) = (w / bs + 1, h / bs + 1);
    let mut tot = vec![0u64; (nx * ny) as usize];
    let mut cnt = vec![0u64; (nx * ny) as usize];
    for y in 0..h { for x in 0..w {
        let k = (y / bs * nx + x / bs) as usize;
        tot[k] += px[(y * w + x) as usize] as u64;
        cnt[k] += 1;
    } }
    let mut sums = vec![(0u64, 0u64); (nx * ny) as usize];
    for by in 0..ny { for bx in 0..nx {
        let (mut t, mut c) = (0u64, 0u64);
        for &j in &around(by, h, bs, bms) { for &i in &around(bx, w, bs, bms) { t += tot[(j * nx + i) as usize]; c += cnt[(j * nx + i) as usize]; } }
        sums[(by * nx + bx) as usize] = (t, c);
    } }
    let mut out = vec![0u8; (w * h) as usize];
    for y in 0..h { for x in 0..w {
        let (t, c) = sums[(y / bs * nx + x / bs) as usize];
        let white = (t > 250 * c) | ((t >= 5 * c) & (px[(y * w + x) as usize] as u64 * c > t));
        out[(y * w + x) as usize] = (white as u8).wrapping_neg();
    } }
    out
}

fn base(style: u64, r: &mut Rng) -> [u8; 4] {
    let g = match style {
        0 => r.below(256) as u8,
        1 => 255,
        2 => 0,
        3 => 246 + r.below(10) as u8,
        4 => r.below(11) as u8,
        5 => if r.below(2) == 0 { 0 } else { 255 },
        6 => 120 + r.below(4) as u8,
        _ => return [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8, r.below(256) as u8],
    };
    [g, g, g, if r.below(4) == 0 { r.below(256) as u8 } else { 255 }]
}

/// params: width, height, block size, block mean size, seed, style of the concrete pixels, number of
/// symbolic pixels (0: all), symbolic bits, which channels (0: grey, 1-4: one of r g b a), compare with
/// the specification (1) or only size and values (0), block size or block mean size symbolic (mask
/// of bits added to it: 5 low bits block size, 5 next block mean size)
#[no_mangle]
pub extern "C" fn h_prep() {
    let (w, h, mut bs, mut bms, seed, style) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3) as u32, param(4), param(5));
    let (ns, mask, chan, full, sz) = (param(6) as usize, param(7) as u8, param(8), param(9) == 1, param(10));
    let mut r = Rng(seed);
    let n = (w * h) as usize;
    let mut px: Vec<[u8; 4]> = (0..n).map(|_| base(style, &mut r)).collect();
    let mut sym = |p: &mut [u8; 4]| {
        let b = byte(mask);
        if chan == 0 { let v = b | (p[0] & !mask); p[0] = v; p[1] = v; p[2] = v; } else { let c = chan as usize - 1; p[c] = b | (p[c] & !mask); }
    };
    if mask != 0 {
        if ns == 0 { for p in px.iter_mut() { sym(p); } } else {
            // a pixel at most once
            let mut left: Vec<usize> = (0..n).collect();
            for _ in 0..ns { if left.is_empty() { break; } let k = r.below(left.len() as u64) as usize; let i = left.swap_remove(k); sym(&mut px[i]); }
        }
    }
    if sz != 0 {
        bs = concretize((bs + byte((sz & 31) as u8) as u32) as u64) as u32;
        bms = concretize((bms + byte((sz >> 5 & 31) as u8) as u32) as u64) as u32;
    }
    let mut raw = Vec::with_capacity(n * 4);
    for p in &px { raw.extend_from_slice(p); }
    let img = match RgbaImage::from_raw(w, h, raw) { Some(i) => i, None => return };
    let out: GrayImage = BlockedMean::new(bs, bms).prepare(&img);
    check(out.width() == w && out.height() == h, 1301);
    let o = out.as_raw();
    check(o.len() == n, 1302);
    reach(1);
    let mut two = true;
    for v in o.iter() { two &= (*v == 0) | (*v == 255); }
    check(two, 1303);
    if !full { return; }
    let l: Vec<u32> = px.iter().map(|p| luma(*p)).collect();
    let s = spec(&l, w, h, bs, bms);
    if ns == 0 && n > 40 {
        let mut ok = true;
        for i in 0..n { ok &= s[i] == o[i]; if i % 16 == 15 { check(ok, 1401); ok = true; } }
        check(ok, 1401);
    } else { for i in 0..n { check(s[i] == o[i], 1401); } }
    reach(2);
    let _ = Rgba([0u8; 4]);
}
