//! helpers of the demonstrations
#![allow(dead_code)]
use crate::enc::{self, Mat, Seg};
use crate::render::Img;
use crate::spec::Ecl;
use rqrr::{BitGrid, DeQRError, Grid, PreparedImage, SimpleGrid};

pub fn grid(m: &Mat) -> Grid<SimpleGrid> {
    Grid::new(SimpleGrid::from_func(m.n, |x, y| m.at(y, x)))
}
pub type Dec = Result<(usize, u16, u16, Vec<u8>), DeQRError>;
pub fn dec<G: BitGrid>(g: &Grid<G>) -> Dec {
    let mut out = vec![];
    let m = g.decode_to(&mut out)?;
    Ok((m.version.0, m.ecc_level, m.mask, out))
}
/// byte symbol filled to the last byte
pub fn full(v: usize, e: Ecl, mask: u16, fill: impl Fn(usize) -> u8) -> (Mat, Vec<u8>) {
    let mut n = 3000;
    loop {
        let c: Vec<u8> = (0..n).map(&fill).collect();
        if let Some(m) = enc::encode(&[Seg::Byte(c.clone())], v, e, mask) {
            return (m, c);
        }
        n -= 1;
    }
}
/// flip module bits of codeword k (in drawing order)
pub fn hit(m: &mut Mat, v: usize, k: usize, x: u8) {
    let o = &enc::layout(v).order;
    for b in 0..8 {
        if x >> (7 - b) & 1 != 0 {
            let (y, x) = o[k * 8 + b];
            m.flip(y, x);
        }
    }
}
pub fn draw(m: &Mat, scale: usize, quiet: usize) -> Img {
    let n = m.n * scale + 2 * quiet;
    let mut im = Img::new(n, n, 255);
    im.code(m, scale, quiet, quiet, 0, 255);
    im
}
pub fn read(im: &Img) -> Vec<Dec> {
    let mut p = PreparedImage::prepare(im.gray());
    let g = p.detect_grids();
    g.iter().map(dec).collect()
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}
