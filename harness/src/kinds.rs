//! C30: kinds of pictures
use crate::img::*;
use crate::prep::{luma, spec};
use crate::rt::*;
use crate::spec::*;
use bardecoder::prepare::{BlockedMean, Prepare};
use image::{imageops, DynamicImage, GenericImageView, GrayImage, ImageBuffer, Rgba, RgbaImage};

/// a window of a picture, mirrored: an image type of a user's own. Pixels outside it must not be asked for.
struct Window<'a> { img: &'a RgbaImage, x: u32, y: u32, w: u32, h: u32 }
impl<'a> GenericImageView for Window<'a> {
    type Pixel = Rgba<u8>;
    fn dimensions(&self) -> (u32, u32) { (self.w, self.h) }
    fn bounds(&self) -> (u32, u32, u32, u32) { (self.x, self.y, self.w, self.h) }
    fn get_pixel(&self, x: u32, y: u32) -> Rgba<u8> {
        check(x < self.w && y < self.h, 3001);
        *self.img.get_pixel(self.x + (self.w - 1 - x), self.y + y)
    }
}

/// what is done with the picture: binarise and compare, or decode
struct Job<'a> { bs: u32, bms: u32, expect: Option<Vec<u8>>, text: &'a [u8], at: [(f64, f64); 3], sc: usize }
impl<'a> Job<'a> {
    fn run<V: GenericImageView<Pixel = Rgba<u8>>>(&self, v: &V) {
        if let Some(e) = &self.expect {
            let out: GrayImage = BlockedMean::new(self.bs, self.bms).prepare(v);
            let (w, h) = v.dimensions();
            check(out.width() == w && out.height() == h, 3002);
            check_bytes(out.as_raw(), e, 3003);
            reach(1);
        } else {
            let a = bardecoder::default_decoder::<V>().decode(v);
            let b = bardecoder::default_decoder_with_info::<V>().decode(v);
            let lacking = !(a.iter().any(|x| match x { Ok(x) => same(x.as_bytes(), self.text), Err(_) => false }) && b.iter().any(|x| match x { Ok((x, i)) => same(x.as_bytes(), self.text) && i.errors == 0, Err(_) => false }));
            let extra = a.len() > 1 || b.len() > 1;
            reach(2);
            if lacking || extra {
                // same exception as in C21
                let (w, h) = v.dimensions();
                let px: Vec<u8> = (0..w * h).map(|i| v.get_pixel(i % w, i / w)[0]).collect();
                check(excused(&px, w as usize, h as usize, &sized(&self.at, self.sc as f64), lacking), 3004);
            }
        }
    }
}

/// C30. params: kind (0 Rgba8, 1 Rgb8, 2 Luma8, 3 LumaA8, 4 Luma16, 5 LumaA16, 6 Rgb16, 7 Rgba16 in a DynamicImage, 8 part of
/// an RgbaImage, 9 part of a DynamicImage, 10 a type of our own), width, height, block size, block mean size, seed, symbolic pixels,
/// symbolic bits of each channel, left, top, right and bottom rest of the larger picture (kinds 8-10); then version (0: binarise only),
/// level, mask, scale of a symbol that fills the picture but for four modules
#[no_mangle]
pub extern "C" fn h_kinds() {
    let p = |i: u32| param(i) as usize;
    let (kind, mut w, mut h, bs, bms, seed, ns, mask) = (p(0), p(1), p(2), p(3) as u32, p(4) as u32, param(5), p(6), param(7) as u8);
    let (l, t, rr, b) = (p(8), p(9), p(10), p(11));
    let (ver, level, qm, sc) = (p(12), p(13), p(14), p(15));
    let mut r = Rng(seed);
    let grey = (2..6).contains(&kind);
    let mut px: Vec<[u8; 4]>;
    let mut text = vec![];
    if ver > 0 {
        let mut s = Sym::new(ver, level);
        text = (0..byte_capacity(ver, s.data_total)).map(|_| 32 + r.below(95) as u8).collect();
        for _ in 0..ns { let i = r.below(text.len() as u64) as usize; text[i] = (text[i] & !1) | byte(1); }
        let d = byte_data(ver, s.data_total, &text);
        s.build(&d, qm);
        let q = draw(&s.m, s.side, sc, [4 * sc; 4], 0);
        w = q.w;
        h = q.h;
        px = q.px.iter().map(|v| [*v, *v, *v, 255]).collect();
    } else {
        px = (0..w * h).map(|_| { let g = r.below(256) as u8; if grey { [g, g, g, r.below(256) as u8] } else { [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8, r.below(256) as u8] } }).collect();
        for _ in 0..ns { if w * h > 0 {
            let q = &mut px[r.below((w * h) as u64) as usize];
            if grey { let v = (q[0] & !mask) | byte(mask); *q = [v, v, v, q[3]]; } else { let c = r.below(4) as usize; q[c] = (q[c] & !mask) | byte(mask); }
        } }
    }
    let expect = if ver == 0 { let g: Vec<u32> = px.iter().map(|q| luma(*q)).collect(); Some(spec(&g, w as u32, h as u32, bs, bms)) } else { None };
    let job = Job { bs, bms, expect, text: &text, at: if ver > 0 { centres(4 * ver + 17, sc, [4 * sc; 4], 0) } else { [(0.0, 0.0); 3] }, sc };
    let n = [4, 3, 1, 2, 1, 2, 3, 4];
    let (ww, hh) = (w as u32, h as u32);
    if kind < 4 {
        let raw: Vec<u8> = px.iter().flat_map(|q| match n[kind] { 1 => vec![q[0]], 2 => vec![q[0], q[3]], 3 => vec![q[0], q[1], q[2]], _ => q.to_vec() }).collect();
        let img = match kind {
            0 => DynamicImage::ImageRgba8(ImageBuffer::from_raw(ww, hh, raw).unwrap()),
            1 => DynamicImage::ImageRgb8(ImageBuffer::from_raw(ww, hh, raw).unwrap()),
            2 => DynamicImage::ImageLuma8(ImageBuffer::from_raw(ww, hh, raw).unwrap()),
            _ => DynamicImage::ImageLumaA8(ImageBuffer::from_raw(ww, hh, raw).unwrap()),
        };
        return job.run(&img);
    }
    if kind < 8 {
        // sixteen bits that stand for exactly this eight bit value
        let raw: Vec<u16> = px.iter().flat_map(|q| match n[kind] { 1 => vec![q[0]], 2 => vec![q[0], q[3]], 3 => vec![q[0], q[1], q[2]], _ => q.to_vec() }).map(|v| v as u16 * 257).collect();
        let img = match kind {
            4 => DynamicImage::ImageLuma16(ImageBuffer::from_raw(ww, hh, raw).unwrap()),
            5 => DynamicImage::ImageLumaA16(ImageBuffer::from_raw(ww, hh, raw).unwrap()),
            6 => DynamicImage::ImageRgb16(ImageBuffer::from_raw(ww, hh, raw).unwrap()),
            _ => DynamicImage::ImageRgba16(ImageBuffer::from_raw(ww, hh, raw).unwrap()),
        };
        return job.run(&img);
    }
    // a larger picture around it, mirrored for the type of our own
    let (bw, bh) = (w + l + rr, h + t + b);
    let mut big: Vec<u8> = Vec::with_capacity(bw * bh * 4);
    for y in 0..bh { for x in 0..bw {
        if x >= l && x < l + w && y >= t && y < t + h {
            let k = if kind == 10 { w - 1 - (x - l) } else { x - l };
            big.extend_from_slice(&px[(y - t) * w + k]);
        } else { let v = if r.below(2) == 0 { 0 } else { r.below(256) as u8 }; big.extend_from_slice(&[v, v, r.below(256) as u8, 255]); }
    } }
    let big = RgbaImage::from_raw(bw as u32, bh as u32, big).unwrap();
    let (l, t) = (l as u32, t as u32);
    match kind {
        8 => job.run(&*imageops::crop_imm(&big, l, t, ww, hh)),
        9 => { let d = DynamicImage::ImageRgba8(big); job.run(&*imageops::crop_imm(&d, l, t, ww, hh)) }
        _ => job.run(&Window { img: &big, x: l, y: t, w: ww, h: hh }),
    }
}
