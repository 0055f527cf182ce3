//! C15, C16, C17, C18, C21: pictures
use crate::rt::*;
use crate::spec::*;
use bardecoder::detect::{Detect, LineScan, Location};
use bardecoder::extract::{Extract, QRExtractor};
use bardecoder::util::qr::{ECLevel, QRInfo, QRLocation};
use bardecoder::util::Point;
use image::{GrayImage, RgbaImage};

/// where module (x, y) of an n by n symbol lies after r quarter turns
pub fn turn(x: usize, y: usize, n: usize, r: usize) -> (usize, usize) { match r { 0 => (x, y), 1 => (n - 1 - y, x), 2 => (n - 1 - x, n - 1 - y), _ => (y, n - 1 - x) } }

pub struct Pic { pub w: usize, pub h: usize, pub px: Vec<u8> }
/// modules (1 black) as pixels (0 black, 255 white), with white margins left, top, right, bottom
pub fn draw(m: &[u8], n: usize, s: usize, mg: [usize; 4], rot: usize) -> Pic {
    let (w, h) = (n * s + mg[0] + mg[2], n * s + mg[1] + mg[3]);
    let mut t = vec![0u8; n * n];
    for y in 0..n { for x in 0..n { let (a, b) = turn(x, y, n, rot); t[b * n + a] = m[y * n + x].wrapping_sub(1); } }
    let mut px = Vec::with_capacity(w * h);
    px.resize(w * mg[1], 255u8);
    let mut row = Vec::with_capacity(w);
    for y in 0..n {
        row.clear();
        row.resize(mg[0], 255u8);
        for x in 0..n { for _ in 0..s { row.push(t[y * n + x]); } }
        row.resize(w, 255u8);
        for _ in 0..s { px.extend_from_slice(&row); }
    }
    px.resize(w * h, 255u8);
    Pic { w, h, px }
}
/// centre of the finder patterns (top left, top right, bottom left), in pixels from the corner of the image
pub fn centres(n: usize, s: usize, mg: [usize; 4], rot: usize) -> [(f64, f64); 3] {
    let c = |x: usize, y: usize| { let (a, b) = turn(x, y, n, rot); ((a * s + mg[0]) as f64 + s as f64 / 2.0, (b * s + mg[1]) as f64 + s as f64 / 2.0) };
    [c(3, 3), c(n - 4, 3), c(3, n - 4)]
}
/// four margins from a parameter: bytes, low first left, top, right, bottom
pub fn margins(p: u64) -> [usize; 4] { [(p & 255) as usize, (p >> 8 & 255) as usize, (p >> 16 & 255) as usize, (p >> 24 & 255) as usize] }
/// a symbol with random content
pub fn random_symbol(ver: usize, level: usize, mask: usize, r: &mut Rng) -> Sym {
    let mut s = Sym::new(ver, level);
    let p: Vec<u8> = (0..byte_capacity(ver, s.data_total)).map(|_| 32 + r.below(95) as u8).collect();
    let d = byte_data(ver, s.data_total, &p);
    s.build(&d, mask);
    s
}
/// make k (0: all) modules outside the function patterns symbolic
pub fn free_modules(s: &mut Sym, k: usize, r: &mut Rng) {
    let n = s.order.len();
    if k == 0 { for i in 0..n { let (x, y) = s.order[i]; s.m[y * s.side + x] = byte(1); } }
    else { for _ in 0..k { let (x, y) = s.order[r.below(n as u64) as usize]; s.m[y * s.side + x] = byte(1); } }
}
fn pt(c: (f64, f64)) -> Point { Point { x: c.0, y: c.1 } }

/// C17. params: version, level, mask, scale, margins, quarter turns, half pixel less (0 1), seed, number
/// of symbolic modules (0: all data modules)
#[no_mangle]
pub extern "C" fn h_extract() {
    let (ver, level, mask, sc, mg, rot) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize, margins(param(4)), param(5) as usize);
    let (half, seed, k) = (param(6), param(7), param(8) as usize);
    let mut r = Rng(seed);
    let mut s = random_symbol(ver, level, mask, &mut r);
    free_modules(&mut s, k, &mut r);
    let n = s.side;
    let p = draw(&s.m, n, sc, mg, rot);
    let c = centres(n, sc, mg, rot);
    let off = half as f64 / 2.0;
    let f = |i: usize| Point { x: c[i].0 - off, y: c[i].1 - off };
    let loc = QRLocation { top_left: f(0), top_right: f(1), bottom_left: f(2), module_size: sc as f64, version: ver as u32 };
    let img = GrayImage::from_raw(p.w as u32, p.h as u32, p.px).unwrap();
    let res = QRExtractor::new().extract(&img, loc);
    reach(1);
    match res {
        Err(_) => check(false, 1701),
        Ok(g) => {
            check(g.version == ver as u32 && g.side == n as u32 && g.data.len() == n * n, 1702);
            let mut m = Vec::with_capacity(n * n);
            for y in 0..n { for x in 0..n { m.push(g[[x as u32, y as u32]]); } }
            check_bytes(&m, &s.m, 1703);
        }
    }
}

/// an f64 made of a parameter's bits
fn real(i: u32) -> f64 { f64::from_bits(param(i)) }

/// C18. Each of the six coordinates is base + step * (symbolic byte under a mask), or one of a list of
/// extreme values. params: width, height, version, image style, symbolic pixels, seed, module size bits, then six
/// times (top left x y, top right x y, bottom left x y): kind, base bits, step bits, mask
#[no_mangle]
pub extern "C" fn h_bounds() {
    let Case { w, h, ver, ms, px, c } = bounds_case();
    let loc = QRLocation { top_left: pt((c[0], c[1])), top_right: pt((c[2], c[3])), bottom_left: pt((c[4], c[5])), module_size: ms, version: ver as u32 };
    let img = GrayImage::from_raw(w as u32, h as u32, px).unwrap();
    let res = QRExtractor::new().extract(&img, loc);
    reach(1);
    let n = (4 * ver + 17) as usize;
    match res {
        Err(_) => reach(2),
        Ok(g) => {
            reach(3);
            check(g.version == ver as u32 && g.side as usize == n, 1801);
            check(g.data.len() == n * n, 1802);
            if ver == 1 && c.iter().all(|v| v.abs() < 1e300) {
                // no corner of the grid lies clearly past the right or bottom edge
                let mut big = 0f64;
                for v in &c { big = big.max(v.abs()); }
                let slack = 1.0 + big * 1e-9;
                for &(i, j) in &[(-3.0, -3.0), (17.0, -3.0), (-3.0, 17.0), (17.0, 17.0)] {
                    let x = c[0] + i * ((c[2] - c[0]) / 14.0) + j * ((c[4] - c[0]) / 14.0);
                    let y = c[1] + i * ((c[3] - c[1]) / 14.0) + j * ((c[5] - c[1]) / 14.0);
                    check(!(x > w as f64 + slack) & !(y > h as f64 + slack), 1803);
                }
            }
        }
    }
}
pub struct Case { pub w: usize, pub h: usize, pub ver: u64, pub ms: f64, pub px: Vec<u8>, pub c: [f64; 6] }
pub fn bounds_case() -> Case {
    let (w, h, ver, style, sp, seed, ms) = (param(0) as usize, param(1) as usize, param(2), param(3), param(4) as usize, param(5), real(6));
    let mut r = Rng(seed);
    let mut px = if style < 10 { backdrop(w, h, style, &mut r) } else {
        // a symbol of this version, from the top left corner, cut off at the edges
        let (v, sc) = (ver.max(1).min(40) as usize, (style - 9) as usize);
        let s = random_symbol(v, 0, 0, &mut r);
        let mut px = vec![255u8; w * h];
        for y in 0..h.min(s.side * sc) { for x in 0..w.min(s.side * sc) { px[y * w + x] = s.m[y / sc * s.side + x / sc].wrapping_sub(1); } }
        px
    };
    for _ in 0..sp { if w * h > 0 { let i = r.below((w * h) as u64) as usize; px[i] = byte(1).wrapping_sub(1); } }
    // bars painted over the picture
    for k in 0..param(31) as u32 {
        let (x, y, bw, bh, v) = (param(32 + 5 * k) as usize, param(33 + 5 * k) as usize, param(34 + 5 * k) as usize, param(35 + 5 * k) as usize, param(36 + 5 * k) as u8);
        for j in y..h.min(y + bh) { for i in x..w.min(x + bw) { px[j * w + i] = v; } }
    }
    const EXTREME: [f64; 16] = [0.0, -0.0, 1e308, -1e308, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, 4294967295.5, 4294967296.0, -4294967297.0, 2147483648.0, 1e10, -0.5, 0.49999999999999994, 1e-300, -1e15];
    let mut c = [0f64; 6];
    for i in 0..6u32 {
        let (kind, base, step, mask) = (param(7 + 4 * i), real(8 + 4 * i), real(9 + 4 * i), param(10 + 4 * i) as u8);
        c[i as usize] = if kind == 1 { EXTREME[((base as u8) ^ byte(mask)) as usize & 15] } else if mask == 0 { base } else { base + step * byte(mask) as f64 };
    }
    Case { w, h, ver, ms, px, c }
}

/// pictures without meaning: 0 white, 1 black, 2 noise, 3 vertical stripes, 4 alignment patterns on white,
/// 5 rows that look like finder patterns, 6 large blots
pub fn backdrop(w: usize, h: usize, style: u64, r: &mut Rng) -> Vec<u8> {
    let mut px = vec![255u8; w * h];
    match style {
        1 => for p in px.iter_mut() { *p = 0; },
        2 => for p in px.iter_mut() { *p = (r.below(2) as u8).wrapping_neg(); },
        3 => { let a = 1 + r.below(4) as usize; for y in 0..h { for x in 0..w { if (x / a) % 2 == 0 { px[y * w + x] = 0; } } } }
        4 => for _ in 0..(w * h / 40 + 1) {
            let (cx, cy, s) = (r.below(w as u64 + 4) as usize, r.below(h as u64 + 4) as usize, 1 + r.below(3) as usize);
            for y in 0..5 * s { for x in 0..5 * s {
                let d = (x / s).max(4 - x / s).max((y / s).max(4 - y / s));
                if cx + x >= w + 2 || cy + y >= h + 2 || cx + x < 2 || cy + y < 2 { continue; }
                let (a, b) = (cx + x - 2, cy + y - 2);
                if a < w && b < h { px[b * w + a] = if d == 3 { 255 } else { 0 }; }
            } }
        },
        5 => { let s = 1 + r.below(3) as usize; let c = r.below(2) as u8; for y in 0..h { for x in 0..w { let k = (x / s + y / (7 * s)) % 8; px[y * w + x] = if (k == 1 || k == 5 || k == 7) ^ (c == 1) { 255 } else { 0 }; } } }
        6 => for _ in 0..8 {
            let (cx, cy, a, b, v) = (r.below(w as u64 + 1) as usize, r.below(h as u64 + 1) as usize, r.below(9) as usize, r.below(9) as usize, (r.below(2) as u8).wrapping_neg());
            for y in cy..(cy + b).min(h) { for x in cx..(cx + a).min(w) { px[y * w + x] = v; } }
        },
        _ => {}
    }
    px
}

/// toggle the pixels of a rectangle by a symbolic bit
fn toggle(px: &mut [u8], w: usize, h: usize, x0: usize, y0: usize, a: usize, b: usize, bit: u8) {
    let f = bit.wrapping_neg();
    for y in y0..(y0 + b).min(h) { for x in x0..(x0 + a).min(w) { px[y * w + x] ^= f; } }
}
/// a finder pattern with module size s, corner at (x0, y0)
fn finder(px: &mut [u8], w: usize, h: usize, x0: usize, y0: usize, sx: usize, sy: usize, inv: u8) {
    for y in 0..7 * sy { for x in 0..7 * sx {
        let (i, j) = (x / sx, y / sy);
        let d = i.max(6 - i).max(j.max(6 - j));
        if x0 + x < w && y0 + y < h { px[(y0 + y) * w + x0 + x] = (if d == 5 { 255 } else { 0 }) ^ inv; }
    } }
}
fn diff(a: f64, b: f64) -> f64 { if a > b { (a - b) / a } else { (b - a) / b } }

/// C16. params: width, height, background style, seed, number of finder patterns, then for each x, y, horizontal and vertical
/// module size, 1: inverted; then number of symbolic rectangles and for each x, y, width, height (0 symbolic
/// rectangles: every pixel symbolic)
#[no_mangle]
pub extern "C" fn h_scan() {
    let (w, h, px) = scan_picture();
    sane(w, h, px);
}
pub fn scan_picture() -> (usize, usize, Vec<u8>) {
    let (w, h, style, seed, nf) = (param(0) as usize, param(1) as usize, param(2), param(3), param(4) as usize);
    let mut r = Rng(seed);
    let mut px = backdrop(w, h, style, &mut r);
    let mut i = 5;
    for _ in 0..nf {
        let q = |k: u32| param(i + k) as usize;
        finder(&mut px, w, h, q(0), q(1), q(2), q(3), (q(4) as u8).wrapping_neg());
        i += 5;
    }
    let ns = param(i);
    i += 1;
    if ns == 0 { for p in px.iter_mut() { *p = byte(1).wrapping_neg(); } }
    for _ in 0..ns {
        let q = |k: u32| param(i + k) as usize;
        toggle(&mut px, w, h, q(0), q(1), q(2), q(3), byte(1));
        i += 4;
    }
    (w, h, px)
}
pub fn sane(w: usize, h: usize, px: Vec<u8>) {
    let img = GrayImage::from_raw(w as u32, h as u32, px).unwrap();
    let locs = LineScan::new().detect(&img);
    reach(1);
    for Location::QR(q) in &locs {
        reach(2);
        check(q.version >= 1, 1601);
        check(q.module_size > 0.0 && q.module_size.is_finite(), 1602);
        for p in [q.top_left, q.top_right, q.bottom_left] { check(p.x >= 0.0 && p.y >= 0.0 && p.x < w as f64 && p.y < h as f64, 1603); }
        let (ax, ay) = (q.top_right.x - q.top_left.x, q.top_right.y - q.top_left.y);
        let (bx, by) = (q.bottom_left.x - q.top_left.x, q.bottom_left.y - q.top_left.y);
        let (la, lb) = ((ax * ax + ay * ay).sqrt(), (bx * bx + by * by).sqrt());
        check(la > 0.0 && lb > 0.0 && (ax != bx || ay != by), 1604);
        check(diff(la, lb) <= 0.15 + 1e-9, 1605);
        // clockwise from the top right leg to the bottom left leg, at a right angle
        let sine = (ax * by - ay * bx) / la / lb;
        check((sine.abs() - 1.0).abs() <= 0.05 + 1e-9, 1606);
    }
}

/// lengths of the runs of equal pixels
fn runs(v: &[u8]) -> Vec<(usize, usize)> {
    let mut r: Vec<(usize, usize)> = vec![];
    for i in 0..v.len() { if i > 0 && v[i] == v[i - 1] { r.last_mut().unwrap().1 += 1; } else { r.push((i, 1)); } }
    r
}
/// spans (end, length) of five runs in about the ratios 1 1 3 1 1, whatever their colour, with or without taking runs less
/// than a tenth as long as the one before for noise (which may swallow a pixel of the run behind it)
fn spans(v: &[u8]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let a = runs(v);
    let mut fits = |end: usize, k: &[usize]| {
        if k.len() < 5 { return; }
        let k = &k[k.len() - 5..];
        let t: usize = k.iter().sum();
        let m = t as f64 / 7.0;
        if t >= 7 && k.iter().zip([1.0, 1.0, 3.0, 1.0, 1.0].iter()).all(|(x, e)| (*x as f64 - e * m).abs() <= m / 1.5 + 1e-9) && !out.contains(&(end, t)) { out.push((end, t)); }
    };
    let exact: Vec<usize> = a.iter().map(|x| x.1).collect();
    for i in 0..a.len() { fits(a[i].0 + a[i].1, &exact[..i + 1]); }
    for lost in 0..2 {
        let mut calm: Vec<usize> = vec![];
        let mut merge = false;
        for r in &a {
            if merge { *calm.last_mut().unwrap() += r.1 - lost; merge = false; } else { calm.push(r.1); }
            fits(r.0 + r.1, &calm);
            let n = calm.len();
            if n >= 3 && (calm[n - 1] as f64) < calm[n - 2] as f64 / 10.0 { let l = calm.pop().unwrap(); calm[n - 2] += l; merge = true; }
        }
    }
    out
}
fn near(x: f64) -> i64 { x.round() as i64 }
/// spans of a line through the pixels from a (included) to b (excluded), in steps of (sx, sy), as (end, module size); a span that
/// ends with the line may count as ending one pixel earlier
fn line_spans(px: &[u8], w: usize, h: usize, mut a: (i64, i64), b: (i64, i64), step: (i64, i64)) -> Vec<(f64, f64)> {
    let mut v = vec![];
    let mut first = true;
    while (step.0 == 0 || a.0 < b.0) && (step.1 == 0 || a.1 < b.1) && a.0 < w as i64 && a.1 < h as i64 {
        if a.0 < 0 || a.1 < 0 { if !first { break; } return vec![]; }
        first = false;
        v.push(px[a.1 as usize * w + a.0 as usize]);
        a = (a.0 + step.0, a.1 + step.1);
    }
    let mut out = vec![];
    for (end, t) in spans(&v) {
        out.push((end as f64, t as f64 / 7.0));
        if end == v.len() { out.push((end as f64 - 1.0, t as f64 / 7.0)); }
    }
    out
}
/// centres (and module sizes) of everything away from the true centres that resembles a finder pattern: five runs in
/// about the right ratios horizontally, then vertically and horizontally through its middle (with module
/// sizes within a fifth), and diagonally
pub fn strangers(px: &[u8], w: usize, h: usize, c: &[(f64, f64, f64)]) -> Vec<(f64, f64, f64)> {
    let mut out: Vec<(f64, f64, f64)> = vec![];
    for y in 0..h as i64 {
        for (x1, m1) in line_spans(px, w, h, (0, y), (w as i64, y), (1, 0)) {
            let cx = near(x1 - 3.5 * m1) as f64;
            let lo = near((y as f64 - 5.0 * m1).max(0.0));
            for (y1, m2) in line_spans(px, w, h, (near(cx), lo), (0, near(y as f64 + 5.0 * m1)), (0, 1)) {
                if diff(m1, m2) >= 0.2 + 1e-9 { continue; }
                let (cy, m) = (near(lo as f64 + y1 - 3.5 * m2) as f64, (m1 + m2) / 2.0);
                let lo = near((cx - 5.0 * m).max(0.0));
                for (x2, m3) in line_spans(px, w, h, (lo, near(cy)), (near(cx + 5.0 * m), 0), (1, 0)) {
                    if diff(m, m3) >= 0.2 + 1e-9 { continue; }
                    let (cx, m) = (lo as f64 + x2 - 3.5 * m3, (m + m3) / 2.0);
                    if !c.iter().all(|f| (f.0 - cx).abs() > 0.75 * f.2 || (f.1 - cy).abs() > 0.75 * f.2) { continue; }
                    if out.iter().any(|o| o.0 == cx && o.1 == cy && o.2 == m) { continue; }
                    let side = (5.0 * m).min(cx).min(cy);
                    let from = (near(cx - side), near(cy - side));
                    if !line_spans(px, w, h, from, (near(cx + 5.0 * m), near(cy + 5.0 * m)), (1, 1)).is_empty() { out.push((cx, cy, m)); }
                }
            }
        }
    }
    out
}
/// three points that could be taken for the finder patterns of one symbol
fn corner(a: &(f64, f64, f64), b: &(f64, f64, f64), c: &(f64, f64, f64)) -> bool {
    let (ax, ay, bx, by) = (b.0 - a.0, b.1 - a.1, c.0 - a.0, c.1 - a.1);
    let (la, lb) = ((ax * ax + ay * ay).sqrt(), (bx * bx + by * by).sqrt());
    la > 0.0 && lb > 0.0 && diff(la, lb) <= 0.17 && ((ax * by - ay * bx).abs() / la / lb - 1.0).abs() <= 0.06
}
/// Is a wrong result excused? If a true location is lacking: when something within seven modules of a true centre
/// resembles a finder pattern. If there is another location: when three points of about the same
/// module size, true centres or others, but not the three of one symbol, lie like the finder patterns of a symbol.
pub fn excused(px: &[u8], w: usize, h: usize, c: &[(f64, f64, f64)], lacking: bool) -> bool {
    let o = strangers(px, w, h, c);
    if lacking { return o.iter().any(|o| c.iter().any(|f| { let (a, b) = (f.0 - o.0, f.1 - o.1); (a * a + b * b).sqrt() < 7.0 * o.2.max(f.2) + 2.0 })); }
    let n = c.len();
    let all: Vec<(f64, f64, f64)> = c.iter().chain(o.iter()).cloned().collect();
    let alike = |x: usize, y: usize| diff(all[x].2, all[y].2) <= 0.15;
    for i in 0..all.len() { for j in i + 1..all.len() {
        for k in j + 1..all.len() {
            // one of them is about as large as both others
            if !((alike(i, j) && alike(i, k)) || (alike(j, i) && alike(j, k)) || (alike(k, i) && alike(k, j))) { continue; }
            if k < n && i / 3 == k / 3 { continue; }
            let (a, b, c) = (&all[i], &all[j], &all[k]);
            if corner(a, b, c) || corner(b, a, c) || corner(c, a, b) { return true; }
        }
    } }
    false
}
pub fn sized(c: &[(f64, f64); 3], s: f64) -> [(f64, f64, f64); 3] { [(c[0].0, c[0].1, s), (c[1].0, c[1].1, s), (c[2].0, c[2].1, s)] }

/// large areas of one colour among the modules that are not function patterns
fn plain_areas(s: &mut Sym, style: u64, r: &mut Rng) {
    let n = s.side;
    let v = (style % 2) as u8;
    let (a, b) = (r.below(4) as usize, 5 + r.below(4) as usize);
    for k in 0..s.order.len() {
        let (x, y) = s.order[k];
        let hit = match style {
            1 | 2 => y < 9,
            3 | 4 => x < 9 || y >= n - b,
            _ => (x >= a && x + a < n && y < b) || (y > 9 && y + 9 < n) || x + b > n,
        };
        if hit { s.m[y * n + x] = v ^ 1; }
    }
}
/// C15. params: version, level, mask, scale, margins, quarter turns, seed, symbolic modules, 0 or which areas of one colour
#[no_mangle]
pub extern "C" fn h_locate() {
    let (ver, level, mask, sc, mg, rot, seed, k) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize, margins(param(4)), param(5) as usize, param(6), param(7) as usize);
    let mut r = Rng(seed);
    let mut s = random_symbol(ver, level, mask, &mut r);
    if param(8) > 0 { plain_areas(&mut s, param(8), &mut r); }
    if k > 0 { free_modules(&mut s, k, &mut r); }
    let n = s.side;
    let p = draw(&s.m, n, sc, mg, rot);
    let c = centres(n, sc, mg, rot);
    let img = GrayImage::from_raw(p.w as u32, p.h as u32, p.px).unwrap();
    judge(&img, ver, &c, sc as f64, 1501);
}
/// exactly the true location is reported, or there is an excuse
pub fn judge(img: &GrayImage, ver: usize, c: &[(f64, f64); 3], sc: f64, id: u32) {
    let locs = LineScan::new().detect(img);
    let (w, h) = (img.width() as usize, img.height() as usize);
    let (lacking, extra) = (!locs.iter().any(|l| names(l, ver, c, sc)), locs.len() > 1);
    if !lacking && !extra { reach(1); } else if excused(img.as_raw(), w, h, &sized(c, sc), lacking) { reach(2); } else { check(false, if lacking { id } else { id + 1 }); }
}
/// does a reported location describe the symbol with these centres?
pub fn names(l: &Location, ver: usize, c: &[(f64, f64); 3], t: f64) -> bool {
    let Location::QR(q) = l;
    q.version == ver as u32 && [(q.top_left, c[0]), (q.top_right, c[1]), (q.bottom_left, c[2])].iter().all(|(a, b)| (a.x - b.0).abs() <= t && (a.y - b.1).abs() <= t)
}

/// C21. params: version, level, mask, scale, margins, quarter turns, seed, number of payload bytes (0: as many as
/// fit), symbolic payload bytes, symbolic bits of each
#[no_mangle]
pub extern "C" fn h_picture() {
    let (ver, level, mask, sc, mg, rot, seed) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize, margins(param(4)), param(5) as usize, param(6));
    let (len, k, bits) = (param(7) as usize, param(8) as usize, param(9) as u8);
    let mut r = Rng(seed);
    let mut s = Sym::new(ver, level);
    let cap = byte_capacity(ver, s.data_total);
    let len = if len == 0 || len > cap { cap } else { len };
    let mut t: Vec<u8> = (0..len).map(|_| 32 + r.below(95) as u8).collect();
    for _ in 0..k { let i = r.below(len as u64) as usize; t[i] = (t[i] & !bits) | byte(bits); }
    let d = byte_data(ver, s.data_total, &t);
    s.build(&d, mask);
    let p = draw(&s.m, s.side, sc, mg, rot);
    let mut raw = Vec::with_capacity(p.px.len() * 4);
    for v in &p.px { raw.extend_from_slice(&[*v, *v, *v, 255]); }
    let img = RgbaImage::from_raw(p.w as u32, p.h as u32, raw).unwrap();
    let a = bardecoder::default_decoder::<RgbaImage>().decode(&img);
    let b = bardecoder::default_decoder_with_info::<RgbaImage>().decode(&img);
    // among the results is the text; nothing else is
    let right = |i: &QRInfo| i.errors == 0 && i.version == ver as u32 && (match i.ec_level { ECLevel::LOW => level == 0, ECLevel::MEDIUM => level == 1, ECLevel::QUARTILE => level == 2, ECLevel::HIGH => level == 3 });
    let lacking = !(a.iter().any(|x| match x { Ok(x) => same(x.as_bytes(), &t), Err(_) => false }) && b.iter().any(|x| match x { Ok((x, i)) => same(x.as_bytes(), &t) && right(i), Err(_) => false }));
    let extra = a.len() > 1 || b.len() > 1;
    if !lacking && !extra { reach(1); } else if excused(&p.px, p.w, p.h, &sized(&centres(s.side, sc, mg, rot), sc as f64), lacking) { reach(2); } else { check(false, if lacking { 2101 } else { 2102 }); }
}
