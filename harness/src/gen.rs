//! Generators of payloads, symbols and damage, and the boundary to rqrr's decoding calls.
use crate::enc::{self, Mat, Seg};
use crate::rng::Rng;
use crate::run::guard;
use crate::spec::{self, Ecl, Mode};
use rqrr::{BitGrid, DeQRError, Grid, MetaData};
use std::cell::{Cell, RefCell};

/// A module matrix as rqrr sees it, with every access observed.
pub struct MonGrid<'a> {
    pub m: &'a Mat,
    pub reads: Cell<u64>,
    pub budget: u64,
    pub oob: RefCell<Option<String>>,
}

impl<'a> MonGrid<'a> {
    pub fn new(m: &'a Mat) -> Self {
        MonGrid {
            m,
            reads: Cell::new(0),
            budget: 64 + 40 * (m.n * m.n) as u64,
            oob: RefCell::new(None),
        }
    }
}

impl BitGrid for MonGrid<'_> {
    fn size(&self) -> usize {
        self.m.n
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        let r = self.reads.get() + 1;
        self.reads.set(r);
        if r > self.budget {
            std::panic::panic_any(crate::monbuf::Budget(r));
        }
        if y >= self.m.n || x >= self.m.n {
            self.oob
                .borrow_mut()
                .get_or_insert_with(|| format!("bit(y={y}, x={x}) asked of a grid of size {}", self.m.n));
            panic!("monitor: module outside the grid");
        }
        self.m.at(y, x)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok { v: usize, ecc: u16, mask: u16, bytes: Vec<u8> },
    Err(DeQRError, Vec<u8>),
}

impl Out {
    pub fn short(&self) -> String {
        match self {
            Out::Ok { v, ecc, mask, bytes } => format!(
                "Ok(version {v}, ecc {ecc}, mask {mask}, {} bytes {})",
                bytes.len(),
                hex(bytes)
            ),
            Out::Err(e, w) => format!("Err({e:?}) after writing {} bytes {}", w.len(), hex(w)),
        }
    }
    pub fn meta(m: &MetaData, bytes: Vec<u8>) -> Out {
        Out::Ok {
            v: m.version.0,
            ecc: m.ecc_level,
            mask: m.mask,
            bytes,
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(40).map(|x| format!("{x:02x}")).collect();
    if b.len() > 40 {
        s.push_str("..");
    }
    s
}

pub fn decode_grid<G: BitGrid>(g: &Grid<G>) -> Out {
    let mut w = Vec::new();
    match g.decode_to(&mut w) {
        Ok(m) => Out::meta(&m, w),
        Err(e) => Out::Err(e, w),
    }
}

/// rqrr's `decode_to` on the matrix. Panics and out-of-grid accesses are errors.
pub fn rq(m: &Mat) -> Result<Out, String> {
    let g = Grid::new(MonGrid::new(m));
    let r = guard(|| decode_grid(&g));
    if let Some(o) = g.grid.oob.borrow().as_ref() {
        return Err(o.clone());
    }
    r
}

/// rqrr's `decode` (to a String) on the matrix.
pub fn rq_string(m: &Mat) -> Result<Result<(usize, u16, u16, String), DeQRError>, String> {
    let g = Grid::new(rqrr::SimpleGrid::from_func(m.n, |x, y| m.at(y, x)));
    guard(|| g.decode().map(|(m, s)| (m.version.0, m.ecc_level, m.mask, s)))
}

pub struct Sym {
    pub v: usize,
    pub e: Ecl,
    pub mask: u16,
    pub segs: Vec<Seg>,
    pub data: Vec<u8>,
    pub content: Vec<u8>,
    pub cw: Vec<u8>,
    pub rem: u8,
    pub m: Mat,
}

impl Sym {
    pub fn copy(&self) -> Sym {
        Sym {
            v: self.v,
            e: self.e,
            mask: self.mask,
            segs: self.segs.clone(),
            data: self.data.clone(),
            content: self.content.clone(),
            cw: self.cw.clone(),
            rem: self.rem,
            m: self.m.clone(),
        }
    }
    pub fn expect(&self) -> Out {
        Out::Ok {
            v: self.v,
            ecc: self.e.bits(),
            mask: self.mask,
            bytes: self.content.clone(),
        }
    }
    pub fn name(&self) -> String {
        let s: Vec<String> = self
            .segs
            .iter()
            .take(8)
            .map(|s| match s {
                Seg::Num(v) => format!("num{}", v.len()),
                Seg::Alpha(v) => format!("alpha{}", v.len()),
                Seg::Byte(v) => format!("byte{}", v.len()),
                Seg::Kanji(v) => format!("kanji{}", v.len()),
                Seg::Eci(v) => format!("eci={v}"),
            })
            .collect();
        format!("{}-{:?} mask {} [{}]", self.v, self.e, self.mask, s.join(" "))
    }
    pub fn modes(&self) -> u32 {
        self.segs.iter().fold(0, |a, s| {
            a | match s {
                Seg::Num(_) => 1,
                Seg::Alpha(_) => 2,
                Seg::Byte(_) => 4,
                Seg::Kanji(_) => 8,
                Seg::Eci(_) => 16,
            }
        })
    }
}

pub fn build(segs: Vec<Seg>, v: usize, e: Ecl, mask: u16, r: &mut Rng) -> Option<Sym> {
    let mut data = enc::data_codewords(&segs, v, e)?;
    // what follows the terminator is padding of no meaning
    if r.chance(0.2) {
        let used: usize = segs.iter().map(|s| s.bit_len(v)).sum::<usize>() + 4;
        for b in data.iter_mut().skip(used.div_ceil(8)) {
            *b = r.u64() as u8;
        }
    }
    let content = segs.iter().flat_map(|s| s.content()).collect();
    let cw = enc::interleave(&enc::rs_blocks(&data, v, e), v, e);
    let rem = if r.bool() { 0 } else { r.u64() as u8 };
    let m = enc::matrix(&cw, v, e, mask, rem);
    Some(Sym {
        v,
        e,
        mask,
        segs,
        data,
        content,
        cw,
        rem,
        m,
    })
}

pub fn kanji_value(r: &mut Rng) -> u16 {
    loop {
        // double byte characters of Shift JIS: 8140..9FFC and E040..EBBF
        let hi = r.below(43) as u16;
        let lo = r.below(0xBD) as u16;
        if hi == 42 && lo > 0x7F {
            continue;
        }
        let v = hi * 0xC0 + lo;
        if v < 8192 {
            return v;
        }
    }
}

pub fn seg_of(r: &mut Rng, mode: Mode, n: usize) -> Seg {
    match mode {
        Mode::Num => Seg::Num((0..n).map(|_| b'0' + r.below(10) as u8).collect()),
        Mode::Alpha => Seg::Alpha((0..n).map(|_| spec::ALNUM[r.below(45)]).collect()),
        Mode::Byte => Seg::Byte(if r.chance(0.3) {
            let mut b: Vec<u8> = Vec::new();
            while b.len() < n {
                let c = match r.below(4) {
                    0 => char::from_u32(r.range(0x20, 0x7e) as u32),
                    1 => char::from_u32(r.range(0xa0, 0x7ff) as u32),
                    2 => char::from_u32(r.range(0x3000, 0x9fff) as u32),
                    _ => char::from_u32(r.range(0x1f300, 0x1f6ff) as u32),
                }
                .unwrap_or('x');
                let mut t = [0; 4];
                let s = c.encode_utf8(&mut t).as_bytes();
                if b.len() + s.len() <= n {
                    b.extend_from_slice(s);
                } else {
                    b.push(b'.');
                }
            }
            b
        } else {
            r.bytes(n)
        }),
        Mode::Kanji => Seg::Kanji((0..n).map(|_| kanji_value(r)).collect()),
    }
}

pub const MODES: [Mode; 4] = [Mode::Num, Mode::Alpha, Mode::Byte, Mode::Kanji];

/// the most characters of `mode` that fit in `bits` bits (segment header included), if any
pub fn max_count(mode: Mode, v: usize, bits: usize) -> Option<usize> {
    let cb = spec::count_bits(mode, v);
    if bits < 4 + cb {
        return None;
    }
    let room = bits - 4 - cb;
    let lim = (1usize << cb) - 1;
    let (mut lo, mut hi) = (0, lim);
    while lo < hi {
        let mid = (lo + hi + 1) / 2;
        if Seg::payload_bits(mode, mid) <= room {
            lo = mid
        } else {
            hi = mid - 1
        }
    }
    Some(lo)
}

pub fn eci(r: &mut Rng) -> Seg {
    Seg::Eci(match r.below(6) {
        0 => 26,
        1 => r.below(128) as u32,
        2 => r.range(128, 16383) as u32,
        3 => *r.pick(&[0, 127, 128, 16383, 16384, 999999]),
        _ => r.range(16384, 999999) as u32,
    })
}

/// A random sequence of segments that fits; `fill`: 0 little, 1 some, 2 as much as fits
pub fn segs(r: &mut Rng, v: usize, e: Ecl, fill: usize) -> Vec<Seg> {
    let mut left = spec::blocks(v, e).total_data() * 8;
    let mut out = vec![];
    let k = r.range(1, 6);
    for i in 0..k {
        if r.chance(0.2) {
            let s = eci(r);
            let l = s.bit_len(v);
            if l <= left {
                left -= l;
                out.push(s);
            }
        }
        let mode = *r.pick(&MODES);
        let max = match max_count(mode, v, left) {
            Some(m) => m,
            None => continue,
        };
        let n = match fill {
            0 => r.below(max.min(12) + 1),
            1 => r.below(max + 1),
            _ if i + 1 == k => max,
            _ => r.below(max / 2 + 1),
        };
        let s = seg_of(r, mode, n);
        left -= s.bit_len(v);
        out.push(s);
    }
    out
}

pub fn symbol(r: &mut Rng, v: usize, e: Ecl, mask: u16) -> Sym {
    let fill = r.below(3);
    let s = segs(r, v, e, fill);
    build(s, v, e, mask, r).expect("fits")
}

pub fn any_symbol(r: &mut Rng, vmax: usize) -> Sym {
    let v = r.range(1, vmax);
    let e = *r.pick(&spec::ECLS);
    let m = r.below(8) as u16;
    symbol(r, v, e, m)
}

/// flip bits of codeword `k` of the interleaved sequence by `x`, in the matrix
pub fn hit_codeword(m: &mut Mat, v: usize, k: usize, x: u8) {
    let o = &enc::layout(v).order;
    for b in 0..8 {
        if x >> (7 - b) & 1 != 0 {
            let (y, c) = o[k * 8 + b];
            m.flip(y, c);
        }
    }
}

pub fn read_codeword(m: &Mat, v: usize, k: usize) -> u8 {
    let o = &enc::layout(v).order;
    (0..8).fold(0, |a, b| {
        let (y, c) = o[k * 8 + b];
        a << 1 | m.at(y, c) as u8
    })
}

/// interleaved indexes of the codewords of each block
pub fn block_index(v: usize, e: Ecl) -> Vec<Vec<usize>> {
    let bl = spec::blocks(v, e);
    let mut ix: Vec<Vec<usize>> = bl.data.iter().map(|&n| vec![0; n + bl.necc]).collect();
    for (k, &(b, i)) in enc::interleave_order(v, e).iter().enumerate() {
        ix[b][i] = k;
    }
    ix
}

/// flip up to three bits of a format copy
pub fn damage_format(m: &mut Mat, v: usize, copy: usize, r: &mut Rng, n: usize) {
    let (a, b) = spec::format_pos(v);
    let p = if copy == 0 { a } else { b };
    for i in r.sample(15, n) {
        m.flip(p[i].0, p[i].1);
    }
}
