//! ISO/IEC 18004 constants, written from the standard and not from the code under test.
//!
//! Block structure is stored as (ecc codewords per block, number of blocks); everything else
//! (total codewords, alignment coordinates, remainder bits) is computed by formula.

/// Error correction level, in the order of the standard.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ecl {
    L,
    M,
    Q,
    H,
}

pub const ECLS: [Ecl; 4] = [Ecl::L, Ecl::M, Ecl::Q, Ecl::H];

impl Ecl {
    /// The two format bits of the level.
    pub fn bits(self) -> u16 {
        match self {
            Ecl::L => 1,
            Ecl::M => 0,
            Ecl::Q => 3,
            Ecl::H => 2,
        }
    }
    pub fn from_bits(b: u16) -> Ecl {
        match b & 3 {
            1 => Ecl::L,
            0 => Ecl::M,
            3 => Ecl::Q,
            _ => Ecl::H,
        }
    }
}

#[rustfmt::skip]
const ECC_PER_BLOCK: [[usize; 41]; 4] = [
    [0, 7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [0, 10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28],
    [0, 13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [0, 17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
];

#[rustfmt::skip]
const NUM_BLOCKS: [[usize; 41]; 4] = [
    [0, 1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25],
    [0, 1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49],
    [0, 1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68],
    [0, 1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81],
];

pub fn size(v: usize) -> usize {
    17 + 4 * v
}

/// Number of modules that carry codewords or remainder bits.
pub fn raw_modules(v: usize) -> usize {
    let mut r = (16 * v + 128) * v + 64;
    if v >= 2 {
        let n = v / 7 + 2;
        r -= (25 * n - 10) * n - 55;
        if v >= 7 {
            r -= 36;
        }
    }
    r
}

pub fn total_codewords(v: usize) -> usize {
    raw_modules(v) / 8
}

/// Alignment pattern centre coordinates.
pub fn align_pos(v: usize) -> Vec<usize> {
    if v == 1 {
        return vec![];
    }
    let n = v / 7 + 2;
    let step = if v == 32 {
        26
    } else {
        (v * 8 + n * 3 + 5) / (n * 4 - 4) * 2
    };
    let mut r: Vec<usize> = (0..n - 1).map(|i| size(v) - 7 - i * step).collect();
    r.push(6);
    r.reverse();
    r
}

#[derive(Clone, Debug)]
pub struct Blocks {
    pub necc: usize,
    /// data codewords of each block, in order
    pub data: Vec<usize>,
}

impl Blocks {
    pub fn total_data(&self) -> usize {
        self.data.iter().sum()
    }
    /// correctable codeword errors per block
    pub fn t(&self) -> usize {
        self.necc / 2
    }
}

pub fn blocks(v: usize, e: Ecl) -> Blocks {
    let i = match e {
        Ecl::L => 0,
        Ecl::M => 1,
        Ecl::Q => 2,
        Ecl::H => 3,
    };
    let necc = ECC_PER_BLOCK[i][v];
    let nb = NUM_BLOCKS[i][v];
    let total = total_codewords(v);
    let short = total / nb;
    let nlong = total % nb;
    let data = (0..nb)
        .map(|b| short - necc + (b >= nb - nlong) as usize)
        .collect();
    Blocks { necc, data }
}

pub fn mask(m: u16, y: usize, x: usize) -> bool {
    // i = row, j = column (standard, table 10)
    let (i, j) = (y, x);
    match m {
        0 => (i + j) % 2 == 0,
        1 => i % 2 == 0,
        2 => j % 3 == 0,
        3 => (i + j) % 3 == 0,
        4 => (i / 2 + j / 3) % 2 == 0,
        5 => (i * j) % 2 + (i * j) % 3 == 0,
        6 => ((i * j) % 2 + (i * j) % 3) % 2 == 0,
        7 => ((i + j) % 2 + (i * j) % 3) % 2 == 0,
        _ => unreachable!(),
    }
}

/// 15 bit format word (already XORed with the format mask).
pub fn format_word(e: Ecl, m: u16) -> u16 {
    let data = (e.bits() << 3) | m;
    let mut rem = data;
    for _ in 0..10 {
        rem = (rem << 1) ^ ((rem >> 9) * 0x537);
    }
    ((data << 10) | rem) ^ 0x5412
}

/// 18 bit version word
pub fn version_word(v: usize) -> u32 {
    let mut rem = v as u32;
    for _ in 0..12 {
        rem = (rem << 1) ^ ((rem >> 11) * 0x1F25);
    }
    ((v as u32) << 12) | rem
}

/// (row, column) of format bit i (bit 0 = least significant) in copy 1 and copy 2.
pub fn format_pos(v: usize) -> ([(usize, usize); 15], [(usize, usize); 15]) {
    let s = size(v);
    let mut a = [(0, 0); 15];
    let mut b = [(0, 0); 15];
    for (i, p) in a.iter_mut().enumerate() {
        *p = match i {
            0..=5 => (i, 8),
            6 => (7, 8),
            7 => (8, 8),
            8 => (8, 7),
            _ => (8, 14 - i),
        };
    }
    for (i, p) in b.iter_mut().enumerate() {
        *p = if i < 8 {
            (8, s - 1 - i)
        } else {
            (s - 15 + i, 8)
        };
    }
    (a, b)
}

/// width of the character count indicator
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    Num,
    Alpha,
    Byte,
    Kanji,
}

pub fn count_bits(m: Mode, v: usize) -> usize {
    let c = if v <= 9 {
        0
    } else if v <= 26 {
        1
    } else {
        2
    };
    match m {
        Mode::Num => [10, 12, 14][c],
        Mode::Alpha => [9, 11, 13][c],
        Mode::Byte => [8, 16, 16][c],
        Mode::Kanji => [8, 10, 12][c],
    }
}

pub const ALNUM: &[u8; 45] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";
