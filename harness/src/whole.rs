//! C24-C28: several symbols, turned symbols, function patterns, repeated use
use crate::decode::{informed, plain};
use crate::img::*;
use crate::prep::{luma, spec};
use crate::rt::*;
use crate::spec::*;
use bardecoder::decode::{Decode, QRDecoder, QRDecoderWithInfo};
use bardecoder::detect::{Detect, LineScan, Location};
use bardecoder::extract::{Extract, QRExtractor};
use bardecoder::prepare::{BlockedMean, Prepare};
use bardecoder::util::qr::{ECLevel, QRData, QRInfo, QRLocation};
use bardecoder::util::Point;
use image::{GrayImage, RgbaImage};

fn real(i: u32) -> f64 { f64::from_bits(param(i)) }
fn rgba(px: &[u8], w: usize, h: usize) -> RgbaImage {
    let mut raw = Vec::with_capacity(px.len() * 4);
    for v in px { raw.extend_from_slice(&[*v, *v, *v, 255]); }
    RgbaImage::from_raw(w as u32, h as u32, raw).unwrap()
}
fn level_is(l: &ECLevel, n: usize) -> bool { match l { ECLevel::LOW => n == 0, ECLevel::MEDIUM => n == 1, ECLevel::QUARTILE => n == 2, ECLevel::HIGH => n == 3 } }
fn exact(i: &QRInfo, s: &Sym) -> bool { i.version as usize == s.ver && level_is(&i.ec_level, s.level) && i.total_data as usize == 8 * s.data_total && i.errors == 0 }
fn printable(n: usize, r: &mut Rng) -> Vec<u8> { (0..n).map(|_| 32 + r.below(95) as u8).collect() }

/// C24. params: width, height, number of symbols, seed, 0 locations 1 texts, symbolic modules (payload bits) of
/// each, then for each symbol: version, level, mask, scale, x, y, quarter turns
#[no_mangle]
pub extern "C" fn h_several() {
    let (w, h, n, seed, whole, k) = (param(0) as usize, param(1) as usize, param(2) as u32, param(3), param(4) == 1, param(5) as usize);
    let mut r = Rng(seed);
    let mut px = vec![255u8; w * h];
    let mut all: Vec<(usize, [(f64, f64); 3], f64)> = vec![];
    let mut texts: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let q = |j: u32| param(6 + 7 * i + j) as usize;
        let (ver, level, mask, sc, x, y, rot) = (q(0), q(1), q(2), q(3), q(4), q(5), q(6));
        let mut s = Sym::new(ver, level);
        let mut t = printable(byte_capacity(ver, s.data_total), &mut r);
        if whole { for _ in 0..k { let i = r.below(t.len() as u64) as usize; t[i] = (t[i] & !1) | byte(1); } }
        let d = byte_data(ver, s.data_total, &t);
        s.build(&d, mask);
        if !whole && k > 0 { free_modules(&mut s, k, &mut r); }
        let p = draw(&s.m, s.side, sc, [0; 4], rot);
        for j in 0..p.h { for i in 0..p.w { px[(y + j) * w + x + i] = p.px[j * p.w + i]; } }
        let mut c = centres(s.side, sc, [0; 4], rot);
        for f in c.iter_mut() { f.0 += x as f64; f.1 += y as f64; }
        all.push((ver, c, sc as f64));
        texts.push(t);
    }
    let (mut lacking, mut twice) = (false, false);
    if whole {
        let res = bardecoder::default_decoder::<RgbaImage>().decode(&rgba(&px, w, h));
        for t in &texts { lacking |= !res.iter().any(|x| match x { Ok(y) => same(y.as_bytes(), t), Err(_) => false }); }
    } else {
        let img = GrayImage::from_raw(w as u32, h as u32, px.clone()).unwrap();
        let locs = LineScan::new().detect(&img);
        for (ver, c, s) in &all { let k = locs.iter().filter(|l| names(l, *ver, c, *s)).count(); lacking |= k == 0; twice |= k > 1; }
    }
    let f: Vec<(f64, f64, f64)> = all.iter().flat_map(|(_, c, s)| c.iter().map(move |p| (p.0, p.1, *s))).collect();
    if !lacking && !twice { reach(1); } else if lacking && excused(&px, w, h, &f, true) { reach(2); } else { check(false, if lacking { 2401 } else { 2402 }); }
}

/// a symbol turned by any angle: each pixel has the colour of the module its centre lies in
fn slanted(m: &[u8], n: usize, w: usize, h: usize, sc: f64, co: f64, si: f64, ox: f64, oy: f64) -> Vec<u8> {
    let half = n as f64 / 2.0;
    let mut px = Vec::with_capacity(w * h);
    for y in 0..h { for x in 0..w {
        let (dx, dy) = (x as f64 + 0.5 - ox, y as f64 + 0.5 - oy);
        let (a, b) = ((dx * co + dy * si) / sc + half, (dy * co - dx * si) / sc + half);
        px.push(if a >= 0.0 && b >= 0.0 && a < n as f64 && b < n as f64 { m[b as usize * n + a as usize].wrapping_sub(1) } else { 255 });
    } }
    px
}
fn slanted_centres(n: usize, sc: f64, co: f64, si: f64, ox: f64, oy: f64) -> [(f64, f64); 3] {
    let half = n as f64 / 2.0;
    let f = |x: f64, y: f64| { let (a, b) = ((x - half) * sc, (y - half) * sc); (a * co - b * si + ox, a * si + b * co + oy) };
    [f(3.5, 3.5), f(n as f64 - 3.5, 3.5), f(3.5, n as f64 - 3.5)]
}
/// C25 (extraction), C26 (location), C29 (whole library). params: version, level, mask, seed, width, height, then as floating point
/// bits: scale, cosine, sine, centre x, centre y; then half pixel less (0 1), symbolic modules (0: all; payload bits for the
/// whole library), 0 extraction 1 location 2 whole library
#[no_mangle]
pub extern "C" fn h_slanted() {
    let (ver, level, mask, seed, w, h) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3), param(4) as usize, param(5) as usize);
    let (sc, co, si, ox, oy) = (real(6), real(7), real(8), real(9), real(10));
    let (half, k, what) = (param(11), param(12) as usize, param(13));
    let mut r = Rng(seed);
    if what == 2 { return throughout(ver, level, mask, w, h, [sc, co, si, ox, oy], k, &mut r); }
    let locate = what == 1;
    let mut s = random_symbol(ver, level, mask, &mut r);
    if !locate || k > 0 { free_modules(&mut s, k, &mut r); }
    let n = s.side;
    let px = slanted(&s.m, n, w, h, sc, co, si, ox, oy);
    let c = slanted_centres(n, sc, co, si, ox, oy);
    let img = GrayImage::from_raw(w as u32, h as u32, px).unwrap();
    if locate { return judge(&img, ver, &c, sc, 2601); }
    let off = half as f64 / 2.0;
    let f = |i: usize| Point { x: c[i].0 - off, y: c[i].1 - off };
    let loc = QRLocation { top_left: f(0), top_right: f(1), bottom_left: f(2), module_size: sc, version: ver as u32 };
    match QRExtractor::new().extract(&img, loc) {
        Err(_) => check(false, 2501),
        Ok(g) => {
            check(g.version == ver as u32 && g.side == n as u32 && g.data.len() == n * n, 2502);
            let mut m = Vec::with_capacity(n * n);
            for y in 0..n { for x in 0..n { m.push(g[[x as u32, y as u32]]); } }
            check_bytes(&m, &s.m, 2503);
        }
    }
    reach(1);
}

fn throughout(ver: usize, level: usize, mask: usize, w: usize, h: usize, at: [f64; 5], k: usize, r: &mut Rng) {
    let [sc, co, si, ox, oy] = at;
    let mut s = Sym::new(ver, level);
    let mut t = printable(byte_capacity(ver, s.data_total), r);
    for _ in 0..k { let i = r.below(t.len() as u64) as usize; t[i] = (t[i] & !1) | byte(1); }
    let d = byte_data(ver, s.data_total, &t);
    s.build(&d, mask);
    let px = slanted(&s.m, s.side, w, h, sc, co, si, ox, oy);
    let img = rgba(&px, w, h);
    let a = bardecoder::default_decoder::<RgbaImage>().decode(&img);
    let b = bardecoder::default_decoder_with_info::<RgbaImage>().decode(&img);
    // below five pixels a module single modules may be misread
    let right = |i: &QRInfo| exact(i, &s) || (sc < 5.0 && i.version as usize == s.ver && level_is(&i.ec_level, s.level) && i.total_data as usize == 8 * s.data_total);
    let lacking = !(a.iter().any(|x| match x { Ok(x) => same(x.as_bytes(), &t), Err(_) => false }) && b.iter().any(|x| match x { Ok((x, i)) => same(x.as_bytes(), &t) && right(i), Err(_) => false }));
    let extra = a.len() > 1 || b.len() > 1;
    if !lacking && !extra { reach(1); } else if excused(&px, w, h, &sized(&slanted_centres(s.side, sc, co, si, ox, oy), sc), lacking) { reach(2); } else { check(false, if lacking { 2901 } else { 2902 }); }
}

/// C27. params: version, level, mask, seed, symbolic function modules (0: all of them), 1: keep the rest at random values,
/// damaged codewords, format information (0 intact, 1 first copy beyond repair, 2 second copy at random, 3 second copy symbolic)
#[no_mangle]
pub extern "C" fn h_function() {
    let (ver, level, mask, seed, k, noise, damage) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3), param(4) as usize, param(5) == 1, param(6) as usize);
    let mut r = Rng(seed);
    let mut s = Sym::new(ver, level);
    let mut t = printable(byte_capacity(ver, s.data_total), &mut r);
    // some of the text is symbolic as well
    for _ in 0..if damage == 0 { 4 } else { 0 } { let i = r.below(t.len() as u64) as usize; t[i] = (t[i] & !1) | byte(1); }
    let d = byte_data(ver, s.data_total, &t);
    let mut bl = s.build(&d, mask);
    let mut bits = 0;
    for _ in 0..damage.min(s.capacity()) {
        // one damaged codeword in one block, at different places
        let i = r.below(bl[0].len() as u64) as usize;
        let x = 1 << r.below(8);
        bl[0][i] ^= x;
        bits += 1;
    }
    if damage > 0 { let clean = s.encode_blocks(&d); bits = 0; for i in 0..clean[0].len() { bits += (clean[0][i] ^ bl[0][i]).count_ones(); } let cw = s.interleave(&bl); s.fill(&cw, mask); s.format(level, mask); }
    let n = s.side;
    // neither codeword nor format module
    let mut other: Vec<usize> = vec![];
    let mut used = vec![false; n * n];
    for i in 0..s.total * 8 { let (x, y) = s.order[i]; used[y * n + x] = true; }
    for c in 0..2 { for i in 0..15 { let (x, y) = format_pos(n, c, i); used[y * n + x] = true; } }
    for i in 0..n * n { if !used[i] { other.push(i); } }
    let hurt = param(7);
    if hurt == 1 {
        // at least four modules away from every valid word
        let mut x = 0;
        for _ in 0..10000 { x = r.below(1 << 15) as u32; if (0..32).all(|i| (format_word(i >> 3, i & 7) ^ x).count_ones() > 3) { break; } }
        for i in 0..15 { let (a, b) = format_pos(n, 0, i); s.m[b * n + a] = (x >> (14 - i)) as u8 & 1; }
    }
    if hurt >= 2 { for i in 0..15 { let (a, b) = format_pos(n, 1, i); s.m[b * n + a] = if hurt == 2 { r.below(2) as u8 } else { byte(1) }; } }
    if noise { for i in &other { s.m[*i] = r.below(2) as u8; } }
    if k == 0 { for i in &other { s.m[*i] = byte(1); } } else { for _ in 0..k { let i = other[r.below(other.len() as u64) as usize]; s.m[i] = byte(1); } }
    let a = plain(QRData::new(s.pixels(), ver as u32));
    match &a { Ok(x) => check_bytes(x.as_bytes(), &t, 2701), Err(_) => check(false, 2701) }
    let b = informed(QRData::new(s.pixels(), ver as u32));
    check(match &b { Ok((x, i)) => same(x.as_bytes(), &t) && i.version as usize == ver && level_is(&i.ec_level, level) && i.total_data as usize == 8 * s.data_total && i.errors == bits, Err(_) => false }, 2702);
    reach(1);
    core::mem::forget(a);
    core::mem::forget(b);
}

/// C28. params: what (0 decoders, 1 preparation, 2 detection, 3 extraction, 4 whole library), seed, number of calls; then for each
/// call: version, level, mask, scale, symbolic bits (0: none, and the result must be the right one;
/// otherwise these disturb the input). For preparation: width, height, -, -, symbolic pixels, and then two more
/// parameters in place of version... (block size, block mean size) at the end
#[no_mangle]
pub extern "C" fn h_again() {
    let (what, seed, n) = (param(0), param(1), param(2) as u32);
    let mut r = Rng(seed);
    let a = QRDecoder::new();
    let b = QRDecoderWithInfo::new();
    let scan = LineScan::new();
    let ext = QRExtractor::new();
    let (bs, bms) = (param(3 + 5 * n) as u32, param(4 + 5 * n) as u32);
    let prep = BlockedMean::new(bs.max(1), bms.max(1));
    let da = bardecoder::default_decoder::<RgbaImage>();
    let db = bardecoder::default_decoder_with_info::<RgbaImage>();
    for i in 0..n {
        let q = |j: u32| param(3 + 5 * i + j) as usize;
        let (ver, level, mask, sc, k) = (q(0), q(1), q(2), q(3), q(4));
        if what == 1 {
            let (w, h) = (ver, level);
            let mut g: Vec<u8> = (0..w * h).map(|_| r.below(256) as u8).collect();
            for _ in 0..k { if w * h > 0 { let j = r.below((w * h) as u64) as usize; g[j] = byte(255); } }
            let out: GrayImage = prep.prepare(&rgba(&g, w, h));
            let l: Vec<u32> = g.iter().map(|v| luma([*v, *v, *v, 255])).collect();
            let e = spec(&l, w as u32, h as u32, bs, bms);
            check_bytes(out.as_raw(), &e, 2801);
            continue;
        }
        let mut s = Sym::new(ver, level);
        let t = printable(byte_capacity(ver, s.data_total), &mut r);
        let d = byte_data(ver, s.data_total, &t);
        s.build(&d, mask);
        // disturb modules anywhere
        for _ in 0..k { let j = r.below((s.side * s.side) as u64) as usize; s.m[j] ^= byte(1); }
        if what == 0 {
            let x = a.decode(Ok(QRData::new(s.pixels(), ver as u32)));
            let y = b.decode(Ok(QRData::new(s.pixels(), ver as u32)));
            if k == 0 {
                check(match &x { Ok(x) => same(x.as_bytes(), &t), Err(_) => false }, 2802);
                check(match &y { Ok((x, i)) => same(x.as_bytes(), &t) && exact(i, &s), Err(_) => false }, 2803);
            }
            core::mem::forget(x);
            core::mem::forget(y);
            continue;
        }
        let mg = [4 * sc; 4];
        let p = draw(&s.m, s.side, sc, mg, (mask + i as usize) % 4);
        let c = centres(s.side, sc, mg, (mask + i as usize) % 4);
        if what == 4 {
            let im = rgba(&p.px, p.w, p.h);
            let x = da.decode(&im);
            let y = db.decode(&im);
            if k == 0 {
                let lacking = !(x.iter().any(|x| match x { Ok(x) => same(x.as_bytes(), &t), Err(_) => false }) && y.iter().any(|x| match x { Ok((x, i)) => same(x.as_bytes(), &t) && exact(i, &s), Err(_) => false }));
                let extra = x.len() > 1 || y.len() > 1;
                check((!lacking && !extra) || excused(&p.px, p.w, p.h, &sized(&c, sc as f64), lacking), 2804);
            }
            continue;
        }
        let img = GrayImage::from_raw(p.w as u32, p.h as u32, p.px).unwrap();
        if what == 2 {
            let l = scan.detect(&img);
            if k == 0 {
                let (lacking, extra) = (!l.iter().any(|l| names(l, ver, &c, sc as f64)), l.len() > 1);
                check((!lacking && !extra) || excused(img.as_raw(), p.w, p.h, &sized(&c, sc as f64), lacking), 2805);
            }
            continue;
        }
        let f = |i: usize| Point { x: c[i].0, y: c[i].1 };
        let loc = QRLocation { top_left: f(0), top_right: f(1), bottom_left: f(2), module_size: sc as f64, version: ver as u32 };
        match ext.extract(&img, loc) {
            Err(_) => check(k > 0, 2806),
            Ok(g) => if k == 0 {
                let mut m = Vec::with_capacity(s.m.len());
                for y in 0..s.side { for x in 0..s.side { m.push(g[[x as u32, y as u32]]); } }
                check_bytes(&m, &s.m, 2807);
            },
        }
    }
    reach(1);
}
