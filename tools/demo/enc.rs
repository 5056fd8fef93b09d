//! Reference QR encoder (ISO/IEC 18004 model 2).
use crate::rs;
use crate::spec::{self, Ecl, Mode};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seg {
    /// digits 0..=9 as ASCII
    Num(Vec<u8>),
    Alpha(Vec<u8>),
    Byte(Vec<u8>),
    /// 13 bit values
    Kanji(Vec<u16>),
    Eci(u32),
}

#[derive(Clone, Debug, Default)]
pub struct Bits(pub Vec<bool>);

impl Bits {
    pub fn push(&mut self, val: u64, n: usize) {
        for i in (0..n).rev() {
            self.0.push(val >> i & 1 != 0);
        }
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        self.0
            .chunks(8)
            .map(|c| {
                c.iter()
                    .enumerate()
                    .fold(0u8, |a, (i, &b)| a | ((b as u8) << (7 - i)))
            })
            .collect()
    }
}

pub fn alnum_value(c: u8) -> u64 {
    spec::ALNUM.iter().position(|&x| x == c).expect("alnum") as u64
}

pub fn kanji_bytes(v: u16) -> [u8; 2] {
    // inverse of: subtract 0x8140 or 0xC140, multiply the high byte by 0xC0, add the low byte
    let hi = v / 0xC0;
    let lo = v % 0xC0;
    let w = (hi << 8) | lo;
    let s = if w as u32 + 0x8140 <= 0x9FFC {
        w + 0x8140
    } else {
        w + 0xC140
    };
    [(s >> 8) as u8, s as u8]
}

impl Seg {
    pub fn mode(&self) -> Option<Mode> {
        match self {
            Seg::Num(_) => Some(Mode::Num),
            Seg::Alpha(_) => Some(Mode::Alpha),
            Seg::Byte(_) => Some(Mode::Byte),
            Seg::Kanji(_) => Some(Mode::Kanji),
            Seg::Eci(_) => None,
        }
    }
    pub fn payload_bits(m: Mode, n: usize) -> usize {
        match m {
            Mode::Num => n / 3 * 10 + [0, 4, 7][n % 3],
            Mode::Alpha => n / 2 * 11 + n % 2 * 6,
            Mode::Byte => n * 8,
            Mode::Kanji => n * 13,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Seg::Num(v) | Seg::Alpha(v) | Seg::Byte(v) => v.len(),
            Seg::Kanji(v) => v.len(),
            Seg::Eci(_) => 0,
        }
    }
    pub fn bit_len(&self, v: usize) -> usize {
        match self {
            Seg::Eci(a) => {
                4 + if *a < 1 << 7 {
                    8
                } else if *a < 1 << 14 {
                    16
                } else {
                    24
                }
            }
            s => {
                let m = s.mode().unwrap();
                4 + spec::count_bits(m, v) + Self::payload_bits(m, s.count())
            }
        }
    }
    pub fn write_body(&self, b: &mut Bits) {
        match self {
            Seg::Num(d) => {
                for c in d.chunks(3) {
                    let val = c.iter().fold(0u64, |a, &x| a * 10 + (x - b'0') as u64);
                    b.push(val, [0, 4, 7, 10][c.len()]);
                }
            }
            Seg::Alpha(d) => {
                for c in d.chunks(2) {
                    let val = c.iter().fold(0u64, |a, &x| a * 45 + alnum_value(x));
                    b.push(val, [0, 6, 11][c.len()]);
                }
            }
            Seg::Byte(d) => {
                for &x in d {
                    b.push(x as u64, 8);
                }
            }
            Seg::Kanji(d) => {
                for &x in d {
                    b.push(x as u64, 13);
                }
            }
            Seg::Eci(a) => {
                let a = *a as u64;
                if a < 1 << 7 {
                    b.push(a, 8);
                } else if a < 1 << 14 {
                    b.push(0b10, 2);
                    b.push(a, 14);
                } else {
                    b.push(0b110, 3);
                    b.push(a, 21);
                }
            }
        }
    }
    pub fn write(&self, v: usize, b: &mut Bits) {
        let ind = match self {
            Seg::Num(_) => 1,
            Seg::Alpha(_) => 2,
            Seg::Byte(_) => 4,
            Seg::Kanji(_) => 8,
            Seg::Eci(_) => 7,
        };
        b.push(ind, 4);
        if let Some(m) = self.mode() {
            b.push(self.count() as u64, spec::count_bits(m, v));
        }
        self.write_body(b);
    }
    /// bytes a reader hands to the user for this segment
    pub fn content(&self) -> Vec<u8> {
        match self {
            Seg::Num(v) | Seg::Alpha(v) | Seg::Byte(v) => v.clone(),
            Seg::Kanji(v) => v.iter().flat_map(|&x| kanji_bytes(x)).collect(),
            Seg::Eci(_) => vec![],
        }
    }
}

/// Terminate, pad and return the data codewords; None if it does not fit.
pub fn data_codewords(segs: &[Seg], v: usize, e: Ecl) -> Option<Vec<u8>> {
    let mut b = Bits::default();
    for s in segs {
        s.write(v, &mut b);
    }
    let cap = spec::blocks(v, e).total_data() * 8;
    if b.len() > cap {
        return None;
    }
    let term = (cap - b.len()).min(4);
    b.push(0, term);
    while b.len() % 8 != 0 {
        b.push(0, 1);
    }
    let mut out = b.to_bytes();
    let mut pad = 0xEC;
    while out.len() < cap / 8 {
        out.push(pad);
        pad ^= 0xEC ^ 0x11;
    }
    Some(out)
}

/// RS blocks (data + ecc) of the data codewords.
pub fn rs_blocks(data: &[u8], v: usize, e: Ecl) -> Vec<Vec<u8>> {
    let bl = spec::blocks(v, e);
    let gen = rs::generator(bl.necc);
    let mut k = 0;
    bl.data
        .iter()
        .map(|&n| {
            let mut blk = data[k..k + n].to_vec();
            k += n;
            let p = rs::ecc(&blk, &gen);
            blk.extend(p);
            blk
        })
        .collect()
}

/// index in the interleaved sequence of (block, codeword)
pub fn interleave(blocks: &[Vec<u8>], v: usize, e: Ecl) -> Vec<u8> {
    interleave_order(v, e)
        .iter()
        .map(|&(b, i)| blocks[b][i])
        .collect()
}

pub fn interleave_order(v: usize, e: Ecl) -> Vec<(usize, usize)> {
    let bl = spec::blocks(v, e);
    let maxd = *bl.data.iter().max().unwrap();
    let mut o = vec![];
    for i in 0..maxd {
        for (b, &n) in bl.data.iter().enumerate() {
            if i < n {
                o.push((b, i));
            }
        }
    }
    for i in 0..bl.necc {
        for (b, &n) in bl.data.iter().enumerate() {
            o.push((b, n + i));
        }
    }
    o
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Mat {
    pub n: usize,
    pub d: Vec<bool>,
}

impl Mat {
    pub fn new(n: usize) -> Self {
        Mat {
            n,
            d: vec![false; n * n],
        }
    }
    pub fn at(&self, y: usize, x: usize) -> bool {
        self.d[y * self.n + x]
    }
    pub fn set(&mut self, y: usize, x: usize, b: bool) {
        self.d[y * self.n + x] = b;
    }
    pub fn flip(&mut self, y: usize, x: usize) {
        self.d[y * self.n + x] ^= true;
    }
    pub fn transpose(&self) -> Mat {
        let mut m = Mat::new(self.n);
        for y in 0..self.n {
            for x in 0..self.n {
                m.set(x, y, self.at(y, x));
            }
        }
        m
    }
    /// rotate clockwise by 90 degrees
    pub fn rot90(&self) -> Mat {
        let mut m = Mat::new(self.n);
        for y in 0..self.n {
            for x in 0..self.n {
                m.set(x, self.n - 1 - y, self.at(y, x));
            }
        }
        m
    }
    pub fn ascii(&self) -> String {
        let mut s = String::new();
        for y in 0..self.n {
            for x in 0..self.n {
                s.push(if self.at(y, x) { '#' } else { '.' });
            }
            s.push('\n');
        }
        s
    }
}

/// Function modules of version v: (is function module, value)
pub fn function_modules(v: usize) -> (Mat, Mat) {
    let n = spec::size(v);
    let mut f = Mat::new(n);
    let mut m = Mat::new(n);
    let mut put = |y: usize, x: usize, b: bool| {
        f.set(y, x, true);
        m.set(y, x, b);
    };
    for i in 0..n {
        put(6, i, i % 2 == 0);
        put(i, 6, i % 2 == 0);
    }
    for &(cy, cx) in &[(3i64, 3i64), (3, n as i64 - 4), (n as i64 - 4, 3)] {
        for dy in -4i64..=4 {
            for dx in -4i64..=4 {
                let (y, x) = (cy + dy, cx + dx);
                if y >= 0 && x >= 0 && y < n as i64 && x < n as i64 {
                    let d = dy.abs().max(dx.abs());
                    put(y as usize, x as usize, d != 2 && d != 4);
                }
            }
        }
    }
    let ap = spec::align_pos(v);
    let k = ap.len();
    for (i, &cy) in ap.iter().enumerate() {
        for (j, &cx) in ap.iter().enumerate() {
            if (i == 0 && j == 0) || (i == 0 && j == k - 1) || (i == k - 1 && j == 0) {
                continue;
            }
            for dy in 0..5usize {
                for dx in 0..5usize {
                    let d = dy.abs_diff(2).max(dx.abs_diff(2));
                    put(cy + dy - 2, cx + dx - 2, d != 1);
                }
            }
        }
    }
    let (a, b) = spec::format_pos(v);
    for p in a.iter().chain(b.iter()) {
        put(p.0, p.1, false);
    }
    put(n - 8, 8, true);
    if v >= 7 {
        let w = spec::version_word(v);
        for i in 0..18 {
            let bit = w >> i & 1 != 0;
            let (p, q) = (n - 11 + i % 3, i / 3);
            put(p, q, bit);
            put(q, p, bit);
        }
    }
    (f, m)
}

/// (row, column) of every codeword/remainder module, in placement order
pub fn data_order(v: usize) -> Vec<(usize, usize)> {
    let (f, _) = function_modules(v);
    let n = f.n;
    let mut o = vec![];
    let mut right = n as i64 - 1;
    while right >= 1 {
        if right == 6 {
            right = 5;
        }
        let up = (right + 1) & 2 == 0;
        for k in 0..n {
            let y = if up { n - 1 - k } else { k };
            for j in 0..2 {
                let x = (right - j) as usize;
                if !f.at(y, x) {
                    o.push((y, x));
                }
            }
        }
        right -= 2;
    }
    o
}

/// cached per-version layout
pub struct Layout {
    pub f: Mat,
    pub base: Mat,
    pub order: Vec<(usize, usize)>,
}

pub fn layout(v: usize) -> &'static Layout {
    use std::sync::OnceLock;
    static L: [OnceLock<Layout>; 41] = [const { OnceLock::new() }; 41];
    L[v].get_or_init(|| {
        let (f, base) = function_modules(v);
        let order = data_order(v);
        assert_eq!(order.len(), spec::raw_modules(v), "layout of version {v}");
        Layout { f, base, order }
    })
}

pub fn put_format(m: &mut Mat, v: usize, copy: usize, word: u16) {
    let (a, b) = spec::format_pos(v);
    let p = if copy == 0 { a } else { b };
    for (i, q) in p.iter().enumerate() {
        m.set(q.0, q.1, word >> i & 1 != 0);
    }
}

/// The symbol of an interleaved codeword sequence; `rem` fills the remainder bits.
pub fn matrix(cw: &[u8], v: usize, e: Ecl, mask: u16, rem: u8) -> Mat {
    let l = layout(v);
    let mut m = l.base.clone();
    for (i, &(y, x)) in l.order.iter().enumerate() {
        let bit = if i / 8 < cw.len() {
            cw[i / 8] >> (7 - i % 8) & 1 != 0
        } else {
            rem >> (i % 8) & 1 != 0
        };
        m.set(y, x, bit ^ spec::mask(mask, y, x));
    }
    let w = spec::format_word(e, mask);
    put_format(&mut m, v, 0, w);
    put_format(&mut m, v, 1, w);
    m
}

pub fn encode_data(data: &[u8], v: usize, e: Ecl, mask: u16) -> Mat {
    let b = rs_blocks(data, v, e);
    matrix(&interleave(&b, v, e), v, e, mask, 0)
}

pub fn encode(segs: &[Seg], v: usize, e: Ecl, mask: u16) -> Option<Mat> {
    Some(encode_data(&data_codewords(segs, v, e)?, v, e, mask))
}
