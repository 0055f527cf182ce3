//! Independent reference encoder for QR symbols (ISO/IEC 18004), written from the standard and
//! branch free in the payload, so that payload bytes may be symbolic.

pub const ECC_PER_BLOCK: [[u8; 40]; 4] = [
    [7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28],
    [13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
];
pub const NUM_BLOCKS: [[u8; 40]; 4] = [
    [1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25],
    [1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49],
    [1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68],
    [1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81],
];
/// level: 0 L, 1 M, 2 Q, 3 H
pub const LEVEL_BITS: [u32; 4] = [0b01, 0b00, 0b11, 0b10];

pub fn side(ver: usize) -> usize { 4 * ver + 17 }

pub fn align_pos(ver: usize) -> Vec<usize> {
    if ver == 1 { return vec![]; }
    let num = ver / 7 + 2;
    let step = if ver == 32 { 26 } else { (ver * 4 + num * 2 + 1) / (num * 2 - 2) * 2 };
    let mut v = vec![6];
    for i in (0..num - 1).rev() { v.push(side(ver) - 7 - i * step); }
    v
}

pub struct Block { pub start: usize, pub data: usize, pub ecc: usize }

pub struct Sym {
    pub ver: usize,
    pub level: usize,
    pub side: usize,
    /// 1 black, 0 white; data area zero until filled
    pub m: Vec<u8>,
    pub func: Vec<bool>,
    /// module positions of the codeword bits, in reading order, 8 per codeword
    pub order: Vec<(usize, usize)>,
    pub blocks: Vec<Block>,
    pub data_total: usize,
    pub total: usize,
    /// block and index in block (data first, then ecc) of every codeword of the interleaved stream
    pub place: Vec<(usize, usize)>,
}

impl Sym {
    fn set(&mut self, x: usize, y: usize, v: bool) { let i = y * self.side + x; self.m[i] = v as u8; self.func[i] = true; }

    pub fn new(ver: usize, level: usize) -> Sym {
        let n = side(ver);
        let mut s = Sym { ver, level, side: n, m: vec![0; n * n], func: vec![false; n * n], order: vec![], blocks: vec![], data_total: 0, total: 0, place: vec![] };
        // timing
        for i in 0..n { s.set(6, i, i % 2 == 0); s.set(i, 6, i % 2 == 0); }
        // finders with separators
        for &(cx, cy) in &[(3isize, 3isize), (n as isize - 4, 3), (3, n as isize - 4)] {
            for dy in -4isize..=4 { for dx in -4isize..=4 {
                let (x, y) = (cx + dx, cy + dy);
                if x < 0 || y < 0 || x >= n as isize || y >= n as isize { continue; }
                let d = dx.abs().max(dy.abs());
                s.set(x as usize, y as usize, d != 2 && d != 4);
            } }
        }
        // alignment
        let ap = align_pos(ver);
        let k = ap.len();
        for i in 0..k { for j in 0..k {
            if (i == 0 && j == 0) || (i == 0 && j == k - 1) || (i == k - 1 && j == 0) { continue; }
            for dy in 0..5usize { for dx in 0..5usize {
                let d = (dx as isize - 2).abs().max((dy as isize - 2).abs());
                s.set(ap[i] + dx - 2, ap[j] + dy - 2, d != 1);
            } }
        } }
        // version information
        if ver >= 7 {
            let mut rem = ver as u32;
            for _ in 0..12 { rem = (rem << 1) ^ ((rem >> 11) * 0x1F25); }
            let bits = (ver as u32) << 12 | rem;
            for i in 0..18 { let b = (bits >> i) & 1 == 1; let (a, c) = (n - 11 + i % 3, i / 3); s.set(a, c, b); s.set(c, a, b); }
        }
        s.format(0, 0); // reserve
        // codeword order
        let mut right = n as isize - 1;
        let mut order = Vec::with_capacity(n * n);
        while right >= 1 {
            if right == 6 { right = 5; }
            for vert in 0..n { for j in 0..2 {
                let x = (right - j) as usize;
                let up = (right + 1) & 2 == 0;
                let y = if up { n - 1 - vert } else { vert };
                if !s.func[y * n + x] { order.push((x, y)); }
            } }
            right -= 2;
        }
        s.total = order.len() / 8;
        s.order = order;
        let nb = NUM_BLOCKS[level][ver - 1] as usize;
        let ecc = ECC_PER_BLOCK[level][ver - 1] as usize;
        let short = nb - s.total % nb;
        let short_len = s.total / nb;
        let mut start = 0;
        for i in 0..nb { let d = short_len - ecc + (i >= short) as usize; s.blocks.push(Block { start, data: d, ecc }); start += d; }
        s.data_total = start;
        for i in 0..short_len - ecc + 1 { for b in 0..nb { if i < s.blocks[b].data { s.place.push((b, i)); } } }
        for i in 0..ecc { for b in 0..nb { s.place.push((b, s.blocks[b].data + i)); } }
        s
    }

    /// error correction capacity in codewords of every block of this symbol
    pub fn capacity(&self) -> usize {
        let e = self.blocks[0].ecc;
        // misdecode protection codewords p (ISO/IEC 18004 table 9 footnotes)
        let p = match (self.ver, self.level) { (1, 0) => 3, (1, 1) => 2, (1, 2) => 1, (1, 3) => 1, (2, 0) => 2, (3, 0) => 1, _ => 0 };
        (e - p) / 2
    }

    /// write format information (both copies) and the dark module
    pub fn format(&mut self, level: usize, mask: usize) {
        let bits = format_word(level, mask);
        let n = self.side;
        for i in 0..15 { let b = (bits >> (14 - i)) & 1 == 1; let (x, y) = format_pos(n, 0, i); self.set(x, y, b); let (x, y) = format_pos(n, 1, i); self.set(x, y, b); }
        self.set(8, n - 8, true);
    }

    /// place a codeword stream (interleaved), masked
    pub fn fill(&mut self, cw: &[u8], mask: usize) {
        let n = self.side;
        for k in 0..self.order.len() {
            let (x, y) = self.order[k];
            let b = if k < self.total * 8 { (cw[k / 8] >> (7 - k % 8)) & 1 } else { 0 };
            self.m[y * n + x] = b ^ mask_bit(mask, x, y);
        }
    }

    /// interleaved codeword stream of per-block codewords
    pub fn interleave(&self, blocks: &[Vec<u8>]) -> Vec<u8> { self.place.iter().map(|&(b, i)| blocks[b][i]).collect() }

    /// complete blocks (data and ecc) for the data codewords
    pub fn encode_blocks(&self, data: &[u8]) -> Vec<Vec<u8>> {
        let mut long: Option<Gen> = None;
        let mut short: Option<Gen> = None;
        let d0 = self.blocks[0].data;
        let mut r = vec![];
        for b in &self.blocks {
            let d = &data[b.start..b.start + b.data];
            let slot = if b.data == d0 { &mut short } else { &mut long };
            if slot.is_none() { *slot = Some(Gen::new(b.data, b.ecc)); }
            let mut v = d.to_vec();
            v.extend(slot.as_ref().unwrap().ecc(d));
            r.push(v);
        }
        r
    }

    /// the complete symbol for these data codewords
    pub fn build(&mut self, data: &[u8], mask: usize) -> Vec<Vec<u8>> {
        let b = self.encode_blocks(data);
        let cw = self.interleave(&b);
        self.fill(&cw, mask);
        self.format(self.level, mask);
        b
    }

    /// as pixels: black 0, white 255
    pub fn pixels(&self) -> Vec<u8> { self.m.iter().map(|b| b.wrapping_sub(1)).collect() }
}

pub fn format_word(level: usize, mask: usize) -> u32 {
    let d = LEVEL_BITS[level] << 3 | mask as u32;
    let mut rem = d;
    for _ in 0..10 { rem = (rem << 1) ^ ((rem >> 9) * 0x537); }
    (d << 10 | rem) ^ 0x5412
}
/// position of format bit i (0 = most significant) in a copy
pub fn format_pos(n: usize, copy: usize, i: usize) -> (usize, usize) {
    if copy == 0 { match i { 0..=5 => (i, 8), 6 => (7, 8), 7 => (8, 8), 8 => (8, 7), _ => (8, 14 - i) } }
    else if i < 7 { (8, n - 1 - i) } else { (n - 15 + i, 8) }
}
pub fn mask_bit(mask: usize, j: usize, i: usize) -> u8 {
    (match mask {
        0 => (i + j) % 2 == 0,
        1 => i % 2 == 0,
        2 => j % 3 == 0,
        3 => (i + j) % 3 == 0,
        4 => (i / 2 + j / 3) % 2 == 0,
        5 => (i * j) % 2 + (i * j) % 3 == 0,
        6 => ((i * j) % 2 + (i * j) % 3) % 2 == 0,
        _ => ((i + j) % 2 + (i * j) % 3) % 2 == 0,
    }) as u8
}

/// GF(256) product modulo x^8+x^4+x^3+x^2+1, branch free in `a`; c concrete
pub fn mulc(mut a: u8, mut c: u8) -> u8 {
    let mut r = 0u8;
    while c != 0 {
        if c & 1 == 1 { r ^= a; }
        c >>= 1;
        if c != 0 { a = (a << 1) ^ ((a >> 7).wrapping_neg() & 0x1d); }
    }
    r
}
/// coefficients of the ecc codewords as linear functions of the data codewords
pub struct Gen { n: usize, e: usize, co: Vec<u8> }
impl Gen {
    pub fn new(n: usize, e: usize) -> Gen {
        // generator polynomial, highest coefficient (1) left out
        let mut g = vec![0u8; e];
        g[e - 1] = 1;
        let mut root = 1u8;
        for _ in 0..e {
            for j in 0..e { g[j] = mulc(g[j], root); if j + 1 < e { g[j] ^= g[j + 1]; } }
            root = mulc(root, 2);
        }
        // row of data index i: x^(e+n-1-i) mod g
        let mut co = vec![0u8; n * e];
        let mut row = g.clone();
        for i in (0..n).rev() {
            for j in 0..e { co[i * e + j] = row[j]; }
            let f = row[0];
            for j in 0..e { row[j] = (if j + 1 < e { row[j + 1] } else { 0 }) ^ mulc(f, g[j]); }
        }
        Gen { n, e, co }
    }
    pub fn ecc(&self, d: &[u8]) -> Vec<u8> {
        let mut r = vec![0u8; self.e];
        for i in 0..self.n {
            // powers of 2 times d[i], once per data codeword
            let mut p = [0u8; 8];
            p[0] = d[i];
            for k in 1..8 { p[k] = (p[k - 1] << 1) ^ ((p[k - 1] >> 7).wrapping_neg() & 0x1d); }
            for j in 0..self.e { let c = self.co[i * self.e + j]; let mut v = r[j]; for k in 0..8 { if (c >> k) & 1 == 1 { v ^= p[k]; } } r[j] = v; }
        }
        r
    }
}

/// Bit writer; the values may be symbolic, the widths not
pub struct Bits { pub v: Vec<u8>, pub n: usize }
impl Bits {
    pub fn new() -> Bits { Bits { v: vec![], n: 0 } }
    pub fn put(&mut self, val: u32, w: usize) {
        for i in (0..w).rev() {
            if self.n % 8 == 0 { self.v.push(0); }
            let k = self.n / 8;
            self.v[k] |= (((val >> i) & 1) as u8) << (7 - self.n % 8);
            self.n += 1;
        }
    }
    /// terminator, padding to `total` codewords
    pub fn finish(mut self, total: usize) -> Vec<u8> {
        let t = core::cmp::min(4, total * 8 - self.n);
        self.put(0, t);
        while self.n % 8 != 0 { self.put(0, 1); }
        let mut pad = 0xEC;
        while self.v.len() < total { self.v.push(pad); pad ^= 0xEC ^ 0x11; }
        self.v
    }
}
pub fn class(ver: usize) -> usize { if ver < 10 { 0 } else if ver < 27 { 1 } else { 2 } }
pub const NUM_BITS: [usize; 3] = [10, 12, 14];
pub const ALNUM_BITS: [usize; 3] = [9, 11, 13];
pub const BYTE_BITS: [usize; 3] = [8, 16, 16];
/// how many bytes fit a symbol in byte mode
pub fn byte_capacity(ver: usize, data_total: usize) -> usize { (data_total * 8 - 4 - BYTE_BITS[class(ver)]) / 8 }
/// data codewords of a single byte segment
pub fn byte_data(ver: usize, total: usize, payload: &[u8]) -> Vec<u8> {
    let mut b = Bits::new();
    b.put(4, 4);
    b.put(payload.len() as u32, BYTE_BITS[class(ver)]);
    for p in payload { b.put(*p as u32, 8); }
    b.finish(total)
}
