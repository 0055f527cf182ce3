//! C01-C10: the decode stage on module grids.
use crate::rt::*;
use crate::spec::*;
use bardecoder::decode::{Decode, QRDecoder, QRDecoderWithInfo};
use bardecoder::util::qr::{ECLevel, QRData, QRError, QRInfo};

fn grid(s: &Sym) -> QRData { QRData::new(s.pixels(), s.ver as u32) }
pub fn plain(g: QRData) -> Result<String, QRError> { QRDecoder::new().decode(Ok(g)) }
pub fn informed(g: QRData) -> Result<(String, QRInfo), QRError> { QRDecoderWithInfo::new().decode(Ok(g)) }
fn lev(l: &ECLevel) -> usize { match l { ECLevel::LOW => 0, ECLevel::MEDIUM => 1, ECLevel::QUARTILE => 2, ECLevel::HIGH => 3 } }
fn same_err(a: &QRError, b: &QRError) -> bool { same(a.msg.as_bytes(), b.msg.as_bytes()) }
fn is_text(r: &Result<String, QRError>, exp: &[u8]) -> bool { match r { Ok(t) => same(t.as_bytes(), exp), Err(_) => false } }
/// printable concrete payload
fn text(n: usize, seed: u64) -> Vec<u8> { let mut r = Rng(seed.wrapping_mul(7919) + 13); (0..n).map(|_| 32 + r.below(95) as u8).collect() }

/// C01. params: version, level, mask, payload length (0: full), number of symbolic payload bytes
/// (0: all), seed
#[no_mangle]
pub extern "C" fn h_clean() {
    let (ver, level, mask) = (param(0) as usize, param(1) as usize, param(2) as usize);
    let (len, nsym, seed) = (param(3) as usize, param(4) as usize, param(5));
    let mut s = Sym::new(ver, level);
    let cap = byte_capacity(ver, s.data_total);
    let n = if len == 0 || len > cap { cap } else { len };
    let mut p = text(n, seed);
    let mut r = Rng(seed);
    if nsym == 0 || nsym >= n { for b in p.iter_mut() { *b = byte(0x7f); } } else { for _ in 0..nsym { let i = r.below(n as u64) as usize; p[i] = if nsym == 1 { byte(0x7f) } else { (p[i] & 0x70) | byte(0x0f) }; } }
    let d = byte_data(ver, s.data_total, &p);
    s.build(&d, mask);
    let res = plain(grid(&s));
    reach(1);
    check(is_text(&res, &p), 101);
    core::mem::forget(res);
}

fn dist_to_words(w: u32) -> u32 {
    let mut best = 15;
    for l in 0..4 { for m in 0..8 { let d = (w ^ format_word(l, m)).count_ones(); if d < best { best = d; } } }
    best
}
fn flip_copy(s: &mut Sym, copy: usize, f: &[u8]) {
    let n = s.side;
    for i in 0..15 { let (x, y) = format_pos(n, copy, i); s.m[y * n + x] ^= f[i]; }
}
/// distance of a symbolic 15-bit word (bits) to the nearest format word, without branching
fn far(bits: &[u8]) -> bool {
    let mut w = 0u32;
    for b in bits { w = w << 1 | *b as u32; }
    let mut far = true;
    for l in 0..4 { for m in 0..8 { far &= (w ^ format_word(l, m)).count_ones() > 3; } }
    far
}
/// C02. params: version, level, mask, mode (0: copy 1 has at most 3 flips; 1: copy 1 far from all
/// words, copy 2 at most 3 flips; 2: both far), seed, informed, then for each copy: mask of the
/// symbolic flips (0: all) and the flips outside the mask
#[no_mangle]
pub extern "C" fn h_format() {
    let (ver, level, mask, mode, seed) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3), param(4));
    let inf = param(5) == 1;
    let mut s = Sym::new(ver, level);
    let p = text(byte_capacity(ver, s.data_total), seed);
    let d = byte_data(ver, s.data_total, &p);
    s.build(&d, mask);
    let mut f = [[0u8; 15]; 2];
    for c in 0..2 {
        let (m, fx) = (if param(6 + 2 * c as u32) == 0 { 0x7fff } else { param(6 + 2 * c as u32) }, param(7 + 2 * c as u32));
        for i in 0..15 { f[c][i] = if m >> i & 1 == 1 { byte(1) } else { (fx >> i & 1) as u8 }; }
    }
    let w0 = format_word(level, mask);
    let mut isfar = [true; 2];
    let mut few = [false; 2];
    for c in 0..2 {
        let bits: Vec<u8> = (0..15).map(|i| f[c][i] ^ ((w0 >> (14 - i)) & 1) as u8).collect();
        let mut k = 0u8;
        for b in &f[c] { k += *b; }
        few[c] = k <= 3;
        isfar[c] = far(&bits);
    }
    match mode {
        0 => assume(few[0]),
        1 => { assume(isfar[0]); assume(few[1]); }
        _ => { assume(isfar[0]); assume(isfar[1]); }
    }
    let _ = dist_to_words;
    flip_copy(&mut s, 0, &f[0]);
    flip_copy(&mut s, 1, &f[1]);
    if inf {
        let res = informed(grid(&s));
        reach(2);
        match (mode, &res) {
            (2, r) => check(r.is_err(), 201),
            (_, Ok((t, i))) => check(same(t.as_bytes(), &p) && lev(&i.ec_level) == level && i.version as usize == ver && i.errors == 0, 202),
            _ => check(false, 203),
        }
        core::mem::forget(res);
        return;
    }
    let res = plain(grid(&s));
    reach(1);
    if mode == 2 { check(res.is_err(), 204) } else { check(is_text(&res, &p), 205) }
    core::mem::forget(res);
}

/// Damaged codewords. params: version, level, mask, seed, what (3: C03 text, 4: C04 misdecode,
/// 5: C05 information, 6: C06 agreement), number of damaged codewords, then for each: block,
/// position, symbolic bits, fixed bits; then optionally one damaged codeword at a symbolic place:
/// log2 of the number of places, block, first place, distance, symbolic bits, fixed bits
#[no_mangle]
pub extern "C" fn h_damage() {
    let (ver, level, mask, seed, what, k) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3), param(4), param(5) as u32);
    let mut s = Sym::new(ver, level);
    let p = text(byte_capacity(ver, s.data_total), seed);
    let d = byte_data(ver, s.data_total, &p);
    let clean = s.encode_blocks(&d);
    let mut bl = clean.clone();
    for i in 0..k {
        let (b, pos, m, fixed) = (param(6 + 4 * i) as usize, param(7 + 4 * i) as usize, param(8 + 4 * i) as u8, param(9 + 4 * i) as u8);
        bl[b][pos] ^= byte(m) ^ fixed;
    }
    let o = 6 + 4 * k;
    if param(o) > 0 {
        let (lg, b, first, step, m, fixed) = (param(o) as u32, param(o + 1) as usize, param(o + 2) as usize, param(o + 3) as usize, param(o + 4) as u8, param(o + 5) as u8);
        let sel = byte(((1u32 << lg) - 1) as u8);
        let e = byte(m) ^ fixed;
        for i in 0..1usize << lg {
            let pos = (first + i * step) % bl[b].len();
            bl[b][pos] ^= e & ((sel == i as u8) as u8).wrapping_neg();
        }
    }
    let cap = s.capacity();
    // wrong codewords and bits, per block
    let mut bits = 0u32;
    let mut wrong: Vec<u32> = vec![];
    for b in 0..bl.len() {
        let mut w = 0u32;
        for i in 0..bl[b].len() { let e = bl[b][i] ^ clean[b][i]; if is_symbolic(e as u64) || e != 0 { bits += e.count_ones(); w += (e != 0) as u32; } }
        wrong.push(w);
    }
    let cw = s.interleave(&bl);
    s.fill(&cw, mask);
    s.format(level, mask);
    match what {
        3 => {
            for w in &wrong { assume(*w <= cap as u32); }
            let res = plain(grid(&s));
            reach(1);
            check(is_text(&res, &p), 301);
            core::mem::forget(res);
        }
        4 => {
            // every block has either a unique code word in reach (the clean one), or is provably
            // further than the capacity from every code word, or (no protection codewords) is
            // judged by re-encoding what was decoded
            let ecc = s.blocks[0].ecc;
            let res = plain(grid(&s));
            reach(1);
            match &res {
                Err(_) => { let mut all = true; for w in &wrong { all &= *w <= cap as u32; } check(!all, 401); }
                Ok(t) => {
                    reach(2);
                    for w in &wrong { check(!(*w > cap as u32 && *w as usize + cap <= ecc), 402); }
                    // the text determines the data codewords when header and length are intact
                    if let Some(raw) = raw_of(t, p.len()) {
                        let d2 = byte_data(ver, s.data_total, &raw);
                        let again = s.encode_blocks(&d2);
                        let mut ok = true;
                        for b in 0..again.len() {
                            let mut dist = 0u32;
                            for i in 0..again[b].len() { dist += (again[b][i] != bl[b][i]) as u32; }
                            ok &= dist <= cap as u32;
                        }
                        check(ok, 403);
                        reach(3);
                    } else {
                        // only a block whose header part was changed can change the length
                        check(wrong[0] > cap as u32, 404);
                    }
                }
            }
            core::mem::forget(res);
        }
        5 => {
            for w in &wrong { assume(*w <= cap as u32); }
            let res = informed(grid(&s));
            reach(1);
            match &res {
                Ok((_, i)) => check(i.version as usize == ver && lev(&i.ec_level) == level && i.total_data as usize == 8 * s.data_total && i.errors == bits, 501),
                Err(_) => check(false, 502),
            }
            core::mem::forget(res);
        }
        _ => {
            agree(s.pixels(), ver);
        }
    }
}
fn agree(px: Vec<u8>, ver: usize) {
    let a = plain(QRData::new(px.clone(), ver as u32));
    let b = informed(QRData::new(px, ver as u32));
    reach(1);
    match (&a, &b) {
        (Ok(x), Ok((y, _))) => { reach(2); check(same(x.as_bytes(), y.as_bytes()), 601) }
        (Err(x), Err(y)) => { reach(3); check(same_err(x, y), 602) }
        _ => check(false, 603),
    }
    core::mem::forget((a, b));
}
/// the raw bytes of a byte segment of n bytes that decodes to this text, if there is one
fn raw_of(t: &str, n: usize) -> Option<Vec<u8>> {
    let b = t.as_bytes();
    let mut latin = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] < 0x80 { latin.push(b[i]); i += 1; }
        else if b[i] & 0xfe == 0xc2 && i + 1 < b.len() { latin.push(b[i] << 6 | (b[i + 1] & 0x3f)); i += 2; }
        else { latin.clear(); break; }
    }
    if latin.len() == n && i == b.len() && !latin.iter().any(|c| *c == 0xc3) { return Some(latin); }
    if b.len() == n && b.iter().any(|c| *c == 0xc3) { return Some(b.to_vec()); }
    None
}
/// C06 on a symbol with flipped format modules. params: version, level, mask, seed, symbolic bits
/// in copy 1, in copy 2 (15-bit masks), fixed flips of copy 1, of copy 2
#[no_mangle]
pub extern "C" fn h_agree_format() {
    let (ver, level, mask, seed) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3));
    let mut s = Sym::new(ver, level);
    let p = text(byte_capacity(ver, s.data_total), seed);
    let d = byte_data(ver, s.data_total, &p);
    s.build(&d, mask);
    for c in 0..2 {
        let (m, fx) = (param(4 + c), param(6 + c));
        let f: Vec<u8> = (0..15).map(|i| byte((m >> i & 1) as u8) ^ (fx >> i & 1) as u8).collect();
        flip_copy(&mut s, c as usize, &f);
    }
    agree(s.pixels(), ver);
}

fn alnum(v: u32) -> u8 { b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:"[v as usize] }

/// a symbolic number below n
fn sym_below(n: u32, w: u32) -> u32 {
    let mut v = byte(if w >= 8 { 0xff } else { (1u8 << w) - 1 }) as u32;
    if w > 8 { v |= (byte((1u32 << (w - 8)).wrapping_sub(1) as u8) as u32) << 8; }
    assume(v < n);
    v
}
/// C07. params: version, level, mask, seed, tail (0: terminator and padding, 1: no room to spare
/// handled by choice of lengths, 2: garbage behind the terminator), number of segments, then for
/// each: kind (1 numeric, 2 alphanumeric, 4 byte), length, first symbolic character, number of
/// symbolic characters
#[no_mangle]
pub extern "C" fn h_segments() {
    let (ver, level, mask, seed, tail, k) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3), param(4), param(5) as u32);
    let mut s = Sym::new(ver, level);
    let mut r = Rng(seed);
    let mut b = Bits::new();
    let mut exp: Vec<u8> = vec![];
    let c = class(ver);
    for i in 0..k {
        let (kind, n, f, ns) = (param(6 + 4 * i), param(7 + 4 * i) as usize, param(8 + 4 * i) as usize, param(9 + 4 * i) as usize);
        let sy = |j: usize| j >= f && j < f + ns;
        match kind {
            1 => {
                let dg: Vec<u32> = (0..n).map(|j| if sy(j) { sym_below(10, 4) } else { r.below(10) as u32 }).collect();
                for d in &dg { exp.push(b'0' + *d as u8); }
                b.put(1, 4);
                b.put(n as u32, NUM_BITS[c]);
                for g in dg.chunks(3) {
                    let mut v = 0;
                    for d in g { v = v * 10 + *d; }
                    b.put(v, [0, 4, 7, 10][g.len()]);
                }
            }
            2 => {
                let dg: Vec<u32> = (0..n).map(|j| if sy(j) { sym_below(45, 6) } else { r.below(45) as u32 }).collect();
                for d in &dg { exp.push(alnum(*d)); }
                b.put(2, 4);
                b.put(n as u32, ALNUM_BITS[c]);
                for g in dg.chunks(2) { if g.len() == 2 { b.put(g[0] * 45 + g[1], 11) } else { b.put(g[0], 6) } }
            }
            _ => {
                let p: Vec<u8> = (0..n).map(|j| if sy(j) { byte(0x7f) } else { 32 + r.below(95) as u8 }).collect();
                exp.extend(&p);
                b.put(4, 4);
                b.put(n as u32, BYTE_BITS[c]);
                for x in &p { b.put(*x as u32, 8); }
            }
        }
    }
    assert!(b.n <= s.data_total * 8);
    note(1, (s.data_total * 8 - b.n) as u64);
    let d = if tail == 2 {
        if b.n + 4 <= s.data_total * 8 { b.put(0, 4); }
        let end = b.n;
        while b.n < s.data_total * 8 { b.put(if b.n + 4 <= s.data_total * 8 { r.below(2) as u32 } else { 1 }, 1); }
        // three of the ignored bits are symbolic
        let n = b.v.len();
        if end + 8 <= n * 8 { b.v[n - 1] ^= byte(0x91); }
        b.v
    } else { b.finish(s.data_total) };
    s.build(&d, mask);
    let res = plain(grid(&s));
    reach(1);
    check(is_text(&res, &exp), 701);
    core::mem::forget(res);
}

/// Reading the data codewords as the standard and the documented charset rule prescribe
pub fn parse(d: &[u8], ver: usize) -> Option<Vec<u8>> {
    struct R<'a> { d: &'a [u8], pos: usize }
    impl<'a> R<'a> {
        fn left(&self) -> usize { self.d.len() * 8 - self.pos }
        fn get(&mut self, n: usize) -> Option<u32> {
            if self.left() < n { return None; }
            let mut v = 0u32;
            // bytewise, so that whole symbolic bytes stay whole
            let mut need = n;
            while need > 0 {
                let o = self.pos % 8;
                let t = core::cmp::min(8 - o, need);
                let b = (self.d[self.pos / 8] as u32 >> (8 - o - t)) & ((1 << t) - 1);
                v = v << t | b;
                self.pos += t;
                need -= t;
            }
            Some(v)
        }
    }
    let c = class(ver);
    let mut r = R { d, pos: 0 };
    let mut out = vec![];
    while r.left() >= 4 {
        match concretize(r.get(4)? as u64) {
            0 => break,
            1 => {
                let mut n = concretize(r.get(NUM_BITS[c])? as u64);
                while n > 0 {
                    let g = core::cmp::min(n, 3) as usize;
                    let v = r.get([0, 4, 7, 10][g])?;
                    if v >= [0, 10, 100, 1000][g] { return None; }
                    if g == 3 { out.push(b'0' + (v / 100) as u8); }
                    if g >= 2 { out.push(b'0' + (v / 10 % 10) as u8); }
                    out.push(b'0' + (v % 10) as u8);
                    n -= g as u64;
                }
            }
            2 => {
                let mut n = concretize(r.get(ALNUM_BITS[c])? as u64);
                while n > 0 {
                    if n >= 2 { let v = r.get(11)?; if v >= 45 * 45 { return None; } out.push(alnum(v / 45)); out.push(alnum(v % 45)); n -= 2; }
                    else { let v = r.get(6)?; if v >= 45 { return None; } out.push(alnum(v)); n -= 1; }
                }
            }
            4 => {
                let n = concretize(r.get(BYTE_BITS[c])? as u64);
                if r.left() as u64 / 8 < n { return None; }
                let b: Vec<u8> = (0..n).map(|_| r.get(8).unwrap() as u8).collect();
                if !charset(&b, &mut out) { return None; }
            }
            _ => return None,
        }
    }
    Some(out)
}
/// the documented rule: a byte 0xC3 makes the segment UTF-8, otherwise it is Latin-1
fn charset(b: &[u8], out: &mut Vec<u8>) -> bool {
    if b.iter().any(|x| *x == 0xc3) {
        let mut i = 0;
        while i < b.len() {
            let x = b[i];
            let n = if x < 0x80 { 1 } else if x & 0xe0 == 0xc0 { 2 } else if x & 0xf0 == 0xe0 { 3 } else if x & 0xf8 == 0xf0 { 4 } else { return false };
            if i + n > b.len() { return false; }
            for k in 1..n { if b[i + k] & 0xc0 != 0x80 { return false; } }
            match n {
                2 => if x < 0xc2 { return false; },
                3 => { if x == 0xe0 && b[i + 1] < 0xa0 { return false; } if x == 0xed && b[i + 1] >= 0xa0 { return false; } }
                4 => { if x > 0xf4 || (x == 0xf0 && b[i + 1] < 0x90) || (x == 0xf4 && b[i + 1] >= 0x90) { return false; } }
                _ => {}
            }
            i += n;
        }
        out.extend(b);
    } else {
        for x in b { if *x < 0x80 { out.push(*x) } else { out.push(0xc0 | (*x >> 6)); out.push(0x80 | (*x & 0x3f)); } }
    }
    true
}

/// C08/C10. Arbitrary data codewords. params: version, level, mask, seed, fill (0: zeros, 1:
/// random, 2: pad codewords), number of patches, then for each: bit offset, width, fixed value,
/// symbolic bits
#[no_mangle]
pub extern "C" fn h_content() {
    let (ver, level, mask, seed, fill, k) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3), param(4), param(5) as u32);
    let both = param(6) == 1;
    let mut s = Sym::new(ver, level);
    let mut r = Rng(seed);
    let mut d: Vec<u8> = (0..s.data_total).map(|i| match fill { 0 => 0, 1 => r.next() as u8, _ => if i % 2 == 0 { 0xEC } else { 0x11 } }).collect();
    for i in 0..k {
        let (off, w, v, m) = (param(7 + 4 * i) as usize, param(8 + 4 * i) as usize, param(9 + 4 * i), param(10 + 4 * i));
        for j in 0..w {
            let (p, sh) = (off + j, w - 1 - j);
            if p >= d.len() * 8 { break; }
            let bitv = ((v >> sh & 1) as u8) ^ byte((m >> sh & 1) as u8);
            let o = 7 - p % 8;
            d[p / 8] = (d[p / 8] & !(1 << o)) | bitv << o;
        }
    }
    s.build(&d, mask);
    if both { agree(s.pixels(), ver); return; }
    let exp = parse(&d, ver);
    let res = plain(grid(&s));
    reach(1);
    match (&res, &exp) {
        (Ok(t), Some(e)) => { reach(2); check(same(t.as_bytes(), e), 801) }
        (Err(_), None) => { reach(3); }
        (Ok(_), None) => check(false, 802),
        (Err(_), Some(_)) => check(false, 803),
    }
    core::mem::forget(res);
}

/// C09. params: version, level, mask, seed, length, then the symbolic bytes as pairs (index, mask,
/// fixed) after their number
#[no_mangle]
pub extern "C" fn h_charset() {
    let (ver, level, mask, seed, n, k) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3), param(4) as usize, param(5) as u32);
    let mut s = Sym::new(ver, level);
    let mut p = text(n, seed);
    for i in 0..k {
        let (j, m, f) = (param(6 + 3 * i) as usize, param(7 + 3 * i) as u8, param(8 + 3 * i) as u8);
        p[j] = byte(m) ^ f;
    }
    let d = byte_data(ver, s.data_total, &p);
    s.build(&d, mask);
    let mut exp = vec![];
    let ok = charset(&p, &mut exp);
    let res = plain(grid(&s));
    reach(1);
    match &res {
        Ok(t) => { reach(2); check(ok, 901); check(!ok || same(t.as_bytes(), &exp), 902) }
        Err(_) => { reach(3); check(!ok, 903) }
    }
    core::mem::forget(res);
}

/// C10. Arbitrary modules. params: version, seed, kind of base grid (0 zeros, 1 ones, 2 random, 3
/// symbol of level param 5), both decoders, number of symbolic areas, level, then for each area:
/// x, y, width, height
#[no_mangle]
pub extern "C" fn h_grid() {
    let (ver, seed, kind, both, k) = (param(0) as usize, param(1), param(2), param(3), param(4) as u32);
    let n = 4 * ver + 17;
    let mut r = Rng(seed);
    let mut m: Vec<u8> = match kind {
        0 => vec![0; n * n],
        1 => vec![1; n * n],
        2 => (0..n * n).map(|_| r.below(2) as u8).collect(),
        _ => {
            let mut s = Sym::new(ver, param(5) as usize);
            let p = text(byte_capacity(ver, s.data_total), seed);
            let d = byte_data(ver, s.data_total, &p);
            s.build(&d, r.below(8) as usize);
            s.m
        }
    };
    for i in 0..k {
        let (x, y, w, h) = (param(6 + 4 * i) as usize, param(7 + 4 * i) as usize, param(8 + 4 * i) as usize, param(9 + 4 * i) as usize);
        for yy in y..y + h { for xx in x..x + w { if xx < n && yy < n { m[yy * n + xx] = byte(1); } } }
    }
    let px: Vec<u8> = m.iter().map(|b| b.wrapping_sub(1)).collect();
    let bad = ver < 1 || ver > 40;
    if both == 1 {
        let res = informed(QRData::new(px, ver as u32));
        reach(1);
        if bad { check(res.is_err(), 1001); }
        core::mem::forget(res);
    } else {
        let res = plain(QRData::new(px, ver as u32));
        reach(1);
        if bad { check(res.is_err(), 1002); }
        core::mem::forget(res);
    }
}
/// C10. An error passed in comes back unchanged. params: length, informed
#[no_mangle]
pub extern "C" fn h_upstream() {
    let n = param(0) as usize;
    let b: Vec<u8> = (0..n).map(|_| byte(0x7f)).collect();
    let e = QRError { msg: unsafe { String::from_utf8_unchecked(b.clone()) } };
    if param(1) == 1 {
        let r = QRDecoderWithInfo::new().decode(Err(e));
        reach(1);
        check(matches!(&r, Err(x) if same(x.msg.as_bytes(), &b)), 1003);
        core::mem::forget(r);
    } else {
        let r = QRDecoder::new().decode(Err(e));
        reach(1);
        check(matches!(&r, Err(x) if same(x.msg.as_bytes(), &b)), 1004);
        core::mem::forget(r);
    }
}
