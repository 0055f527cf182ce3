//! C11, C12, C23
use crate::rt::*;
use bardecoder::util::qr::QRData;
use bardecoder::util::{Chomp, Delta, Point};

/// C11. params: number of bytes, number of requests, kinds (2 bits each: 0 chomp, 1 chomp_or,
/// 2 chomp_or_u16), first request fixed to this many bits + 1 (0: symbolic), request bits mask,
/// prefix of concrete requests: number, then their widths
#[no_mangle]
pub extern "C" fn h_chomp() {
    let (n, k, kinds, mask, pre) = (param(0) as usize, param(1) as usize, param(2), param(3) as u8, param(4) as u32);
    let d = bytes(n);
    let mut c = Chomp::new(d.clone());
    let mut pos = 0usize;
    for i in 0..pre as usize + k {
        let (kind, w) = if i < pre as usize { (0, param(5 + i as u32) as u8) } else { (kinds >> (2 * (i - pre as usize)) & 3, width(mask)) };
        let max = if kind == 2 { 16 } else { 8 };
        let ok = w >= 1 && w <= max && n * 8 - pos >= w as usize;
        let mut exp = 0u16;
        if ok { for j in pos..pos + w as usize { exp = exp << 1 | ((d[j / 8] >> (7 - j % 8)) & 1) as u16; } pos += w as usize; }
        let got: Option<u16> = match kind {
            0 => c.chomp(w).map(|v| v as u16),
            1 => match c.chomp_or(w, i as u32 + 77) { Ok(v) => Some(v as u16), Err(e) => { check(e == i as u32 + 77, 1101); None } },
            _ => match c.chomp_or_u16(w, i as u32 + 77) { Ok(v) => Some(v), Err(e) => { check(e == i as u32 + 77, 1102); None } },
        };
        match got {
            Some(v) => { reach(2); check(ok, 1103); check(v == exp, 1104); }
            None => { reach(3); check(!ok, 1105); }
        }
    }
    reach(1);
    core::mem::forget(c);
}

/// a symbolic request width: a separate path for each of 0 to 16, one for all larger ones
fn width(mask: u8) -> u8 {
    let w = byte(mask);
    if w > 16 { return w; }
    concretize((w & 31) as u64) as u8
}

/// C12. params: version, symbolic pixels (0: all), seed, index symbolic
#[no_mangle]
pub extern "C" fn h_index() {
    let (ver, ns, seed) = (param(0) as u32, param(1) as usize, param(2));
    let n = 4 * ver as usize + 17;
    let mut r = Rng(seed);
    let mut d: Vec<u8>;
    if ns == 0 { d = bytes(n * n); } else {
        d = (0..n * n).map(|_| [0, 255, 0, 1, 128, 254][r.below(6) as usize]).collect();
        for _ in 0..ns { let i = r.below((n * n) as u64) as usize; d[i] = byte(0xff); }
    }
    let q = QRData::new(d.clone(), ver);
    check(q.side as usize == n && q.version == ver && q.data.len() == n * n, 1201);
    if param(3) == 1 {
        let x = byte(0x1f) as usize;
        let y = byte(0x1f) as usize;
        assume(x < n && y < n);
        let v = q[[x as u32, y as u32]];
        reach(2);
        check(v == (d[y * n + x] == 0) as u8, 1202);
        core::mem::forget(q);
        return;
    }
    let (mut a, mut b) = (Vec::with_capacity(n * n), Vec::with_capacity(n * n));
    for y in 0..n { for x in 0..n { a.push(q[[x as u32, y as u32]]); b.push((d[y * n + x] == 0) as u8); } }
    reach(1);
    if ns > 0 || ver <= 16 { check_bytes(&a, &b, 1203); } else { check(same(&a, &b), 1203); }
    core::mem::forget(q);
}

fn f() -> f64 { let b = bytes(8); f64::from_bits(u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])) }
/// C23. param: operation
#[no_mangle]
pub extern "C" fn h_point() {
    let (a, b, c, d) = (f(), f(), f(), f());
    let (x, y, ex, ey) = match param(0) {
        0 => { let r = Point { x: a, y: b } + Delta { dx: c, dy: d }; (r.x, r.y, a + c, b + d) }
        1 => { let r = Point { x: a, y: b } - Delta { dx: c, dy: d }; (r.x, r.y, a - c, b - d) }
        2 => { let r = Point { x: a, y: b } - Point { x: c, y: d }; (r.dx, r.dy, a - c, b - d) }
        3 => { let r = Delta { dx: a, dy: b } + Delta { dx: c, dy: d }; (r.dx, r.dy, a + c, b + d) }
        4 => { let r = Delta { dx: a, dy: b } - Delta { dx: c, dy: d }; (r.dx, r.dy, a - c, b - d) }
        5 => { let r = Delta { dx: a, dy: b } * c; (r.dx, r.dy, a * c, b * c) }
        6 => { let r = c * Delta { dx: a, dy: b }; (r.dx, r.dy, c * a, c * b) }
        _ => { let r = Delta { dx: a, dy: b } / c; (r.dx, r.dy, a / c, b / c) }
    };
    reach(1);
    check_floats(&[x], &[ex], 2301);
    check_floats(&[y], &[ey], 2302);
}
