//! C19, C20: the pipeline and its builder, with components that record what happens to them
use crate::rt::*;
use bardecoder::decode::Decode;
use bardecoder::detect::{Detect, Location};
use bardecoder::extract::Extract;
use bardecoder::prepare::{BlockedMean, Prepare};
use bardecoder::util::qr::{QRData, QRError, QRLocation};
use bardecoder::util::Point;
use bardecoder::DecoderBuilder;
use image::{GrayImage, RgbaImage};
use std::cell::RefCell;
use std::rc::Rc;

/// what one location meets
#[derive(Clone)]
struct Fate { ver: u8, x: u8, ex: u8, dec: u8, msg: u8, text: u8 }
/// everything the components saw
#[derive(Default)]
struct Log { prepared: Vec<(usize, u64)>, detected: Vec<(usize, u64)>, extracted: Vec<(usize, u64, u32, f64)>, decoded: Vec<(usize, Result<(u8, u32), String>)> }
struct World { log: RefCell<Log>, fates: RefCell<Vec<Fate>>, serial: RefCell<u64> }
type W = Rc<World>;

pub struct Src { name: u64 }
/// not Clone: only the pipeline's own prepared image can reach the later stages
pub struct Prepd { serial: u64 }

struct P(W, usize);
impl Prepare<Src, Prepd> for P {
    fn prepare(&self, i: &Src) -> Prepd {
        *self.0.serial.borrow_mut() += 1;
        self.0.log.borrow_mut().prepared.push((self.1, i.name));
        Prepd { serial: *self.0.serial.borrow() }
    }
}
struct D(W, usize);
impl Detect<Prepd> for D {
    fn detect(&self, p: &Prepd) -> Vec<Location> {
        self.0.log.borrow_mut().detected.push((self.1, p.serial));
        let pt = |x: f64| Point { x, y: 0.0 };
        self.0.fates.borrow().iter().map(|f| Location::QR(QRLocation { top_left: pt(f.x as f64), top_right: pt(1.0), bottom_left: pt(2.0), module_size: 1.0, version: f.ver as u32 })).collect()
    }
}
struct E(W, usize);
impl Extract<Prepd, QRLocation, QRData, QRError> for E {
    fn extract(&self, p: &Prepd, l: QRLocation) -> Result<QRData, QRError> {
        let mut g = self.0.log.borrow_mut();
        let k = g.extracted.len();
        g.extracted.push((self.1, p.serial, l.version, l.top_left.x));
        let f = self.0.fates.borrow().get(k).cloned();
        match f {
            Some(f) if f.ex == 0 => Ok(QRData { data: vec![f.msg, 7], version: l.version, side: 3 }),
            Some(f) => Err(QRError { msg: err(1, f.msg) }),
            None => Err(QRError { msg: err(9, 0) }),
        }
    }
}
struct C(W, usize);
impl Decode<QRData, String, QRError> for C {
    fn decode(&self, d: Result<QRData, QRError>) -> Result<String, QRError> {
        let mut g = self.0.log.borrow_mut();
        let k = g.decoded.len();
        let seen = match &d { Ok(q) => Ok((q.data[0], q.version)), Err(e) => Err(e.msg.clone()) };
        g.decoded.push((self.1, seen));
        let f = match self.0.fates.borrow().get(k).cloned() { Some(f) => f, None => return Err(QRError { msg: err(8, 0) }) };
        match f.dec {
            0 => d.map(|_| text(f.text)),
            1 => Err(QRError { msg: err(2, f.msg) }),
            _ => Ok(text(f.text)),
        }
    }
}
fn err(kind: u8, x: u8) -> String { unsafe { String::from_utf8_unchecked(vec![b'e', b'0' + kind, b' ' | (x & 0x5f)]) } }
fn text(x: u8) -> String { unsafe { String::from_utf8_unchecked(vec![b't', x & 0x7f]) } }
fn world(f: Vec<Fate>) -> W { Rc::new(World { log: RefCell::new(Log::default()), fates: RefCell::new(f), serial: RefCell::new(40) }) }

/// the number of locations, how each fares in extraction and in decoding, and the values each carries
/// are symbolic. params: most locations, times decoded with the same decoder, mask of symbolic bits of
/// the carried values, mask of symbolic choices (1 extraction, 2 decoding, 4 the number of locations), seed
#[no_mangle]
pub extern "C" fn h_pipe() {
    let (most, times, mask, sy, seed) = (param(0), param(1), param(2) as u8, param(3), param(4));
    let mut r = Rng(seed);
    let w = world(vec![]);
    let mut b = DecoderBuilder::new();
    b.prepare(Box::new(P(w.clone(), 1)));
    b.detect(Box::new(D(w.clone(), 2)));
    b.qr(Box::new(E(w.clone(), 3)), Box::new(C(w.clone(), 4)));
    let dec = b.build();
    for t in 0..times {
        let n = if sy & 4 != 0 { let v = concretize(byte(15) as u64); assume(v <= most); v } else { most };
        let val = |r: &mut Rng| byte(mask) | (r.below(128) as u8 & !mask);
        let fates: Vec<Fate> = (0..n).map(|_| {
            let ex = if sy & 1 != 0 { concretize(bit() as u64) as u8 } else { r.below(2) as u8 };
            let de = if sy & 2 != 0 { let d = concretize(byte(3) as u64) as u8; assume(d < 3); d } else { r.below(3) as u8 };
            Fate { ver: val(&mut r), x: val(&mut r), ex, dec: de, msg: val(&mut r), text: val(&mut r) }
        }).collect();
        *w.fates.borrow_mut() = fates.clone();
        *w.log.borrow_mut() = Log::default();
        let name = 1000 + t;
        let res = dec.decode(&Src { name });
        let serial = *w.serial.borrow();
        let g = w.log.borrow();
        check(g.prepared.len() == 1 && g.prepared[0] == (1, name), 1901);
        check(g.detected.len() == 1 && g.detected[0] == (2, serial), 1902);
        check(g.extracted.len() == fates.len(), 1903);
        check(g.decoded.len() == fates.len(), 1904);
        check(res.len() == fates.len(), 1905);
        for (k, f) in fates.iter().enumerate() {
            let e = &g.extracted[k];
            check(e.0 == 3 && e.1 == serial, 1906);
            check((e.2 == f.ver as u32) & (e.3 == f.x as f64), 1907);
            check(g.decoded[k].0 == 4, 1908);
            match &g.decoded[k].1 {
                Ok((m, v)) => { check(f.ex == 0, 1909); check((*m == f.msg) & (*v == f.ver as u32), 1910); }
                Err(m) => { check(f.ex == 1, 1911); check(same(m.as_bytes(), err(1, f.msg).as_bytes()), 1912); }
            }
            let want: Result<String, String> = match (f.dec, f.ex) {
                (0, 0) | (2, _) => Ok(text(f.text)),
                (0, _) => Err(err(1, f.msg)),
                _ => Err(err(2, f.msg)),
            };
            match (&res[k], &want) {
                (Ok(a), Ok(b)) => check(same(a.as_bytes(), b.as_bytes()), 1913),
                (Err(a), Err(b)) => match a.downcast_ref::<QRError>() {
                    Some(q) => check(same(q.msg.as_bytes(), b.as_bytes()), 1914),
                    None => check(false, 1915),
                },
                _ => check(false, 1916),
            }
        }
        drop(g);
    }
    reach(1);
}

/// a symbolic sequence of settings, then build. params: most settings, bit mask of the roles set
/// concretely first (1 prepare, 2 detect, 4 qr), 1: chain the calls
#[no_mangle]
pub extern "C" fn h_builder() {
    let (most, first, chain) = (param(0) as usize, param(1), param(2) == 1);
    let f = Fate { ver: 1, x: 2, ex: 0, dec: 0, msg: 3, text: 4 };
    let w = world(vec![f]);
    let mut b = DecoderBuilder::new();
    let mut last = [None, None, None];
    let mut tag = 10;
    let mut ops: Vec<u64> = vec![];
    for k in 0..3 { if first >> k & 1 == 1 { ops.push(k); } }
    let n = concretize(byte(7) as u64) as usize;
    assume(n <= most);
    for _ in 0..n { let o = concretize(byte(3) as u64); assume(o < 3); ops.push(o); }
    let mut i = 0;
    while i < ops.len() {
        let mut set = |b: &mut DecoderBuilder<Src, Prepd, String>, o: u64| {
            match o {
                0 => { b.prepare(Box::new(P(w.clone(), tag))); }
                1 => { b.detect(Box::new(D(w.clone(), tag))); }
                _ => { b.qr(Box::new(E(w.clone(), tag)), Box::new(C(w.clone(), tag + 1000))); }
            }
            last[o as usize] = Some(tag);
            tag += 1;
        };
        if chain && i + 1 < ops.len() && ops[i] == 0 && ops[i + 1] == 1 {
            b.prepare(Box::new(P(w.clone(), tag))).detect(Box::new(D(w.clone(), tag + 1)));
            last[0] = Some(tag);
            last[1] = Some(tag + 1);
            tag += 2;
            i += 2;
        } else if chain && i + 1 < ops.len() && ops[i] == 2 && ops[i + 1] == 0 {
            b.qr(Box::new(E(w.clone(), tag)), Box::new(C(w.clone(), tag + 1000))).prepare(Box::new(P(w.clone(), tag + 1)));
            last[2] = Some(tag);
            last[0] = Some(tag + 1);
            tag += 2;
            i += 2;
        } else { set(&mut b, ops[i]); i += 1; }
    }
    let complete = last.iter().all(|l| l.is_some());
    reach(if complete { 2 } else { 1 });
    expect_panic(!complete);
    let d = b.build();
    expect_panic(false);
    check(complete, 2001);
    let r = d.decode(&Src { name: 5 });
    let g = w.log.borrow();
    check(g.prepared.len() == 1 && Some(g.prepared[0].0) == last[0], 2002);
    check(g.detected.len() == 1 && Some(g.detected[0].0) == last[1], 2003);
    check(g.extracted.len() == 1 && Some(g.extracted[0].0) == last[2], 2004);
    check(g.decoded.len() == 1 && Some(g.decoded[0].0 - 1000) == last[2], 2005);
    check(r.len() == 1 && matches!(&r[0], Ok(t) if t == "t\u{4}"), 2006);
}

struct GP(u8);
impl Prepare<RgbaImage, GrayImage> for GP { fn prepare(&self, _: &RgbaImage) -> GrayImage { GrayImage::from_raw(1, 1, vec![self.0]).unwrap() } }
struct GD(Rc<RefCell<Vec<Vec<u8>>>>, u8);
impl Detect<GrayImage> for GD {
    fn detect(&self, p: &GrayImage) -> Vec<Location> {
        let mut v = vec![self.1];
        v.extend_from_slice(p.as_raw());
        self.0.borrow_mut().push(v);
        let z = Point { x: 0.0, y: 0.0 };
        vec![Location::QR(QRLocation { top_left: z, top_right: z, bottom_left: z, module_size: 1.0, version: 1 })]
    }
}
struct GE(u8);
impl Extract<GrayImage, QRLocation, QRData, QRError> for GE { fn extract(&self, p: &GrayImage, _: QRLocation) -> Result<QRData, QRError> { Ok(QRData { data: vec![self.0, p.as_raw()[0]], version: 1, side: 1 }) } }
struct GC(u8);
impl Decode<QRData, String, QRError> for GC {
    fn decode(&self, d: Result<QRData, QRError>) -> Result<String, QRError> { let d = d?; Ok(format!("{} {} {}", self.0, d.data[0], d.data[1])) }
}

/// a default builder has every role set, builds at once, and each role can be replaced.
/// params: grey values' symbolic bits; the roles replaced are symbolic
#[no_mangle]
pub extern "C" fn h_defaults() {
    let mask = param(0) as u8;
    let (w, h) = (3u32, 2u32);
    let mut raw = vec![];
    for i in 0..(w * h) as u8 { let v = byte(mask) | ((i * 50) & !mask); raw.extend_from_slice(&[v, v, v, 255]); }
    let img = RgbaImage::from_raw(w, h, raw).unwrap();
    let mut b = bardecoder::default_builder::<RgbaImage>();
    let seen = Rc::new(RefCell::new(vec![]));
    let roles = concretize(byte(7) as u64);
    let twice = concretize(bit() as u64) == 1;
    for k in if twice { vec![1u8, 2] } else { vec![2u8] } {
        if roles & 4 != 0 { b.qr(Box::new(GE(30 + k)), Box::new(GC(40 + k))); }
        if roles & 2 != 0 { b.detect(Box::new(GD(seen.clone(), 20 + k))); }
        if roles & 1 != 0 { b.prepare(Box::new(GP(10 + k))); }
    }
    let d = b.build();
    let r = d.decode(&img);
    let prepared: Vec<u8> = if roles & 1 != 0 { vec![12] } else { BlockedMean::new(5, 7).prepare(&img).into_raw() };
    let s = seen.borrow();
    if roles & 2 != 0 {
        check(s.len() == 1 && s[0][0] == 22 && same(&s[0][1..], &prepared), 2011);
        check(r.len() == 1, 2012);
        if roles & 4 != 0 {
            match &r[0] { Ok(t) => check(same(t.as_bytes(), format!("42 32 {}", concretize(prepared[0] as u64)).as_bytes()), 2013), Err(_) => check(false, 2014) }
        } else {
            // what the default extractor and decoder make of that location
            check(r[0].is_err(), 2015);
        }
    } else {
        // the default detector finds nothing in an image as small as this
        check(s.len() == 0 && r.len() == 0, 2016);
    }
    reach(1);
    // with information
    let mut c = bardecoder::default_builder_with_info::<RgbaImage>();
    if roles & 1 != 0 { c.prepare(Box::new(GP(15))); }
    if roles & 2 != 0 { c.detect(Box::new(GD(seen.clone(), 25))); }
    drop(s);
    let r = c.build().decode(&img);
    let s = seen.borrow();
    if roles & 2 != 0 {
        let p: Vec<u8> = if roles & 1 != 0 { vec![15] } else { prepared };
        check(s.len() == 2 && s[1][0] == 25 && same(&s[1][1..], &p), 2017);
        check(r.len() == 1 && r[0].is_err(), 2018);
    } else { check(r.len() == 0, 2019); }
    reach(2);
}
