//! Reference decoder: what a reader of the standard must produce for a module matrix.
use crate::enc::{self, Mat};
use crate::rs;
use crate::spec::{self, Ecl, Mode};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fmt {
    /// copy used (0/1), level, mask
    Ok(usize, Ecl, u16),
    Fail,
}

/// nearest valid format word within 3 bits
pub fn nearest_format(w: u16) -> Option<(Ecl, u16)> {
    for e in spec::ECLS {
        for m in 0..8 {
            if (spec::format_word(e, m) ^ w).count_ones() <= 3 {
                return Some((e, m));
            }
        }
    }
    None
}

pub fn read_format_word(m: &Mat, v: usize, copy: usize) -> u16 {
    let (a, b) = spec::format_pos(v);
    let p = if copy == 0 { a } else { b };
    p.iter()
        .enumerate()
        .fold(0, |w, (i, q)| w | ((m.at(q.0, q.1) as u16) << i))
}

pub fn read_format(m: &Mat, v: usize) -> Fmt {
    for c in 0..2 {
        if let Some((e, k)) = nearest_format(read_format_word(m, v, c)) {
            return Fmt::Ok(c, e, k);
        }
    }
    Fmt::Fail
}

/// Received interleaved codewords after removing the mask
pub fn codewords(m: &Mat, v: usize, mask: u16) -> Vec<u8> {
    let l = enc::layout(v);
    let mut out = vec![0u8; spec::total_codewords(v)];
    for (i, &(y, x)) in l.order.iter().enumerate() {
        if i / 8 < out.len() && (m.at(y, x) ^ spec::mask(mask, y, x)) {
            out[i / 8] |= 0x80 >> (i % 8);
        }
    }
    out
}

pub fn deinterleave(cw: &[u8], v: usize, e: Ecl) -> Vec<Vec<u8>> {
    let bl = spec::blocks(v, e);
    let mut b: Vec<Vec<u8>> = bl.data.iter().map(|&n| vec![0; n + bl.necc]).collect();
    for (k, &(i, j)) in enc::interleave_order(v, e).iter().enumerate() {
        b[i][j] = cw[k];
    }
    b
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Sym {
    /// level, mask, corrected data codewords, codeword errors per block
    Ok(Ecl, u16, Vec<u8>, Vec<usize>),
    FormatFail,
    /// level, mask: some block is not within the correction radius
    DataFail(Ecl, u16),
}

/// Read the matrix as it is (no mirroring).
pub fn read_symbol(m: &Mat) -> Sym {
    let v = (m.n - 17) / 4;
    let (e, mask) = match read_format(m, v) {
        Fmt::Ok(_, e, k) => (e, k),
        Fmt::Fail => return Sym::FormatFail,
    };
    let bl = spec::blocks(v, e);
    let mut data = vec![];
    let mut errs = vec![];
    for (b, n) in deinterleave(&codewords(m, v, mask), v, e).iter().zip(&bl.data) {
        match rs::correct(b, bl.necc) {
            Some((c, p)) => {
                data.extend_from_slice(&c[..*n]);
                errs.push(p.len());
            }
            None => return Sym::DataFail(e, mask),
        }
    }
    Sym::Ok(e, mask, data, errs)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Parse {
    /// complete: these bytes, success
    Ok(Vec<u8>),
    /// data runs out inside a segment: at least `done` is known to be complete, whatever else is
    /// written must be a prefix of `most`
    Underflow { done: Vec<u8>, most: Vec<u8> },
    /// reserved / unimplemented mode indicator after `done`
    Unknown(Vec<u8>, u8),
    /// the standard gives this bit stream no meaning (truncated count field, digit group > 999,
    /// alphanumeric pair > 2024): only robustness is required
    Meaningless,
}

pub struct Reader<'a> {
    pub d: &'a [u8],
    pub p: usize,
}

impl Reader<'_> {
    fn left(&self) -> usize {
        self.d.len() * 8 - self.p
    }
    fn take(&mut self, n: usize) -> u64 {
        let mut r = 0;
        for _ in 0..n {
            r = r << 1 | (self.d[self.p / 8] >> (7 - self.p % 8) & 1) as u64;
            self.p += 1;
        }
        r
    }
}

pub fn parse(data: &[u8], v: usize) -> Parse {
    let mut r = Reader { d: data, p: 0 };
    let mut out: Vec<u8> = vec![];
    while r.left() >= 4 {
        let ty = r.take(4);
        let mode = match ty {
            0 => return Parse::Ok(out),
            1 => Mode::Num,
            2 => Mode::Alpha,
            4 => Mode::Byte,
            8 => Mode::Kanji,
            7 => {
                let under = Parse::Underflow {
                    done: out.clone(),
                    most: out.clone(),
                };
                if r.left() < 8 {
                    return under;
                }
                let a = r.take(8);
                let more = if a & 0x80 == 0 {
                    0
                } else if a & 0x40 == 0 {
                    8
                } else if a & 0x20 == 0 {
                    16
                } else {
                    // 111xxxxx is not an ECI designator
                    return Parse::Meaningless;
                };
                if r.left() < more {
                    return under;
                }
                r.take(more);
                continue;
            }
            x => return Parse::Unknown(out, x as u8),
        };
        let cb = spec::count_bits(mode, v);
        if r.left() < cb {
            return Parse::Meaningless;
        }
        let n = r.take(cb) as usize;
        let fits = r.left() >= enc::Seg::payload_bits(mode, n);
        let done = out.clone();
        let mut k = n;
        while k > 0 {
            let (chars, bits) = match mode {
                Mode::Num => (k.min(3), [0, 4, 7, 10][k.min(3)]),
                Mode::Alpha => (k.min(2), [0, 6, 11][k.min(2)]),
                Mode::Byte => (1, 8),
                Mode::Kanji => (1, 13),
            };
            if r.left() < bits {
                break;
            }
            let val = r.take(bits);
            match mode {
                Mode::Num => {
                    if val >= 10u64.pow(chars as u32) {
                        return Parse::Meaningless;
                    }
                    out.extend_from_slice(format!("{val:0chars$}").as_bytes());
                }
                Mode::Alpha => {
                    if val >= 45u64.pow(chars as u32) {
                        return Parse::Meaningless;
                    }
                    if chars == 2 {
                        out.push(spec::ALNUM[(val / 45) as usize]);
                    }
                    out.push(spec::ALNUM[(val % 45) as usize]);
                }
                Mode::Byte => out.push(val as u8),
                Mode::Kanji => out.extend_from_slice(&enc::kanji_bytes(val as u16)),
            }
            k -= chars;
        }
        if !fits {
            return Parse::Underflow { done, most: out };
        }
    }
    Parse::Ok(out)
}
