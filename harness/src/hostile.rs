//! Hostile image generator: everything a capstone/grid detector can trip over.
use crate::enc::{self, Mat, Seg};
use crate::render::{warp, Img, H};
use crate::rng::Rng;
use crate::spec;

pub fn finder() -> Mat {
    let mut m = Mat::new(7);
    for y in 0..7i32 {
        for x in 0..7i32 {
            let d = (y - 3).abs().max((x - 3).abs());
            m.set(y as usize, x as usize, d != 2);
        }
    }
    m
}

pub fn quad(r: &mut Rng, cx: f64, cy: f64, s: f64, k: f64) -> [(f64, f64); 4] {
    let a = if r.chance(0.4) {
        0.0
    } else {
        r.frange(0.0, std::f64::consts::TAU)
    };
    let (sn, co) = a.sin_cos();
    let mut q = [(0.0, 0.0); 4];
    let base = [(-0.5, -0.5), (0.5, -0.5), (0.5, 0.5), (-0.5, 0.5)];
    for i in 0..4 {
        let u = (base[i].0 + r.frange(-k, k)) * s;
        let v = (base[i].1 + r.frange(-k, k)) * s;
        q[i] = (cx + u * co - v * sn, cy + u * sn + v * co);
    }
    q
}

pub fn random_symbol(r: &mut Rng, vmax: usize) -> Mat {
    let v = r.range(1, vmax);
    let e = *r.pick(&spec::ECLS);
    let n = spec::blocks(v, e).total_data();
    let d = r.bytes(n);
    let mask = r.below(8) as u16;
    enc::encode_data(&d, v, e, mask)
}

fn noise(im: &mut Img, r: &mut Rng, p: f64) {
    for v in im.p.iter_mut() {
        if r.chance(p) {
            *v = r.u64() as u8;
        }
    }
}

fn blobs(im: &mut Img, r: &mut Rng, n: usize, max: i64) {
    for _ in 0..n {
        let (x, y) = (
            r.irange(-4, im.w as i64),
            r.irange(-4, im.h as i64),
        );
        let (w, h) = (r.irange(1, max), r.irange(1, max));
        let c = if r.bool() { 0 } else { 255 };
        im.rect(x, y, w, h, c);
    }
}

/// a closed ring with a stone, drawn from arbitrary polygons: what passes the 1:1:3:1:1 scan but
/// is not a square
fn odd_capstone(im: &mut Img, r: &mut Rng, x: i64, y: i64, u: i64) {
    // u = unit. ring 7u x 7u with bites and tails
    im.rect(x, y, 7 * u, 7 * u, 0);
    im.rect(x + u, y + u, 5 * u, 5 * u, 255);
    im.rect(x + 2 * u, y + 2 * u, 3 * u, 3 * u, 0);
    for _ in 0..r.below(4) {
        // tails attached to the ring, in any direction
        let l = r.irange(1, 20 * u);
        let t = r.irange(1, 2 * u);
        match r.below(4) {
            0 => im.rect(x - l, y + r.irange(0, 6 * u), l + 1, t, 0),
            1 => im.rect(x + 7 * u - 1, y + r.irange(0, 6 * u), l, t, 0),
            2 => im.rect(x + r.irange(0, 6 * u), y - l, t, l + 1, 0),
            _ => im.rect(x + r.irange(0, 6 * u), y + 7 * u - 1, t, l, 0),
        }
    }
    for _ in 0..r.below(3) {
        // bites out of the ring corners (keeps the middle rows intact most of the time)
        let (bx, by) = *r.pick(&[(0, 0), (6, 0), (0, 6), (6, 6)]);
        im.rect(x + bx * u, y + by * u, u, u, 255);
    }
}

pub const KINDS: [&str; 13] = [
    "noise", "blocknoise", "caps", "oddcaps", "qrwarp", "qrdamage", "qrcrop", "tiny", "lines", "tiles",
    "bars", "stretch", "capsline",
];

pub fn make(r: &mut Rng, max: usize) -> (&'static str, Img) {
    let k = r.below(KINDS.len());
    make_kind(r, max, k)
}

pub fn make_kind(r: &mut Rng, max: usize, k: usize) -> (&'static str, Img) {
    let w = r.range(8, max);
    let h = if r.bool() { w } else { r.range(8, max) };
    let bg = if r.chance(0.9) { 255 } else { r.u64() as u8 };
    let mut im = Img::new(w, h, bg);
    match KINDS[k] {
        "noise" => {
            let p = r.f();
            let two = r.bool();
            for v in im.p.iter_mut() {
                *v = if two {
                    if r.chance(p) {
                        0
                    } else {
                        255
                    }
                } else {
                    r.u64() as u8
                };
            }
        }
        "blocknoise" => {
            let b = r.range(1, 9);
            let p = r.f();
            let c: Vec<bool> = (0..(w / b + 1) * (h / b + 1)).map(|_| r.chance(p)).collect();
            for y in 0..h {
                for x in 0..w {
                    im.set(x, y, if c[(y / b) * (w / b + 1) + x / b] { 0 } else { 255 });
                }
            }
        }
        "caps" => {
            let f = finder();
            let ss = r.range(1, 2);
            for _ in 0..r.range(2, 9) {
                let s = r.frange(7.0, max as f64 / 3.0 + 8.0);
                let k = if r.bool() { 0.0 } else { r.frange(0.0, 0.45) };
                let (cx, cy) = (r.frange(0.0, w as f64), r.frange(0.0, h as f64));
                let q = quad(r, cx, cy, s, k);
                warp(&mut im, &f, &H::square_to_quad(7.0, q), 0.7, ss, 0, 255);
            }
            let n = r.below(12);
            blobs(&mut im, r, n, 12);
            if r.chance(0.2) {
                noise(&mut im, r, 0.05);
            }
        }
        "oddcaps" => {
            for _ in 0..r.range(3, 7) {
                let u = r.irange(1, 5);
                let (x, y) = (r.irange(-3, w as i64 - 4), r.irange(-3, h as i64 - 4));
                odd_capstone(&mut im, r, x, y, u);
            }
            let n = r.below(10);
            blobs(&mut im, r, n, 10);
        }
        "capsline" => {
            // three finders in the L shape of a symbol with arbitrary, mismatched distances
            let u = r.irange(1, 6);
            let d = r.irange(7 * u, (w as i64).max(7 * u + 1));
            let d2 = d + r.irange(-d / 4, d / 4);
            let (x, y) = (r.irange(0, 10), r.irange(0, 10));
            let fl = |r: &mut Rng, im: &mut Img, x, y| {
                if r.chance(0.5) {
                    odd_capstone(im, r, x, y, u)
                } else {
                    im.rect(x, y, 7 * u, 7 * u, 0);
                    im.rect(x + u, y + u, 5 * u, 5 * u, 255);
                    im.rect(x + 2 * u, y + 2 * u, 3 * u, 3 * u, 0);
                }
            };
            fl(r, &mut im, x, y);
            let j = r.irange(-3, 3);
            fl(r, &mut im, x + d, y + j);
            let j = r.irange(-3, 3);
            fl(r, &mut im, x + j, y + d2);
            let n = r.below(60);
            blobs(&mut im, r, n, 2 * u + 1);
        }
        "qrwarp" => {
            let m = random_symbol(r, 7);
            let s = r.frange(0.3, 1.4) * w.min(h) as f64;
            let k = r.frange(0.0, 0.48);
            let q = quad(r, w as f64 / 2.0, h as f64 / 2.0, s, k);
            warp(&mut im, &m, &H::square_to_quad(m.n as f64, q), 4.0, 1, 0, 255);
        }
        "qrdamage" | "qrcrop" => {
            let m = random_symbol(r, 8);
            let s = r.range(1, 4);
            let crop = KINDS[k] == "qrcrop";
            let q = if crop { 0 } else { r.below(4) };
            let n = (m.n + 2 * q) * s;
            let mut big = Img::new(n, n, 255);
            big.code(&m, s, q * s, q * s, 0, 255);
            if crop {
                let x0 = r.below(n / 2);
                let y0 = r.below(n / 2);
                let (cw, ch) = (r.range(1, n - x0), r.range(1, n - y0));
                im = Img::new(cw, ch, 255);
                for y in 0..ch {
                    for x in 0..cw {
                        im.set(x, y, big.at(x0 + x, y0 + y));
                    }
                }
            } else {
                im = big;
                let c = r.below(40);
                blobs(&mut im, r, c, 5 * s as i64);
                if r.bool() {
                    let p = r.f() * 0.1;
                    noise(&mut im, r, p);
                }
            }
        }
        "tiny" => {
            let (w, h) = (r.range(1, 12), r.range(1, 12));
            im = Img::new(w, h, 255);
            let p = r.f();
            for v in im.p.iter_mut() {
                *v = if r.chance(p) { 0 } else { r.u64() as u8 };
            }
        }
        "lines" => {
            for _ in 0..r.range(1, 40) {
                let t = r.irange(1, 6);
                let o = r.irange(0, max as i64);
                let c = if r.chance(0.6) { 0 } else { 255 };
                if r.bool() {
                    im.rect(o, 0, t, h as i64, c);
                } else {
                    im.rect(0, o, w as i64, t, c);
                }
            }
        }
        "bars" => {
            im = bars(r, w.max(24), h.max(24));
            // with something real among them
            if r.bool() && im.w > 60 && im.h > 60 {
                let m = random_symbol(r, 2);
                let s = r.range(1, 2);
                let n = (m.n + 8) * s;
                if n < im.w && n < im.h {
                    let (x, y) = (r.below(im.w - n), r.below(im.h - n));
                    im.rect(x as i64, y as i64, n as i64, n as i64, 255);
                    im.code(&m, s, x + 4 * s, y + 4 * s, 0, 255);
                }
            }
        }
        "tiles" => {
            let f = finder();
            let s = r.range(1, 3);
            let g = s * 7 + r.range(1, 12);
            let mut y = 0;
            let mut n = 0;
            while y + s * 7 <= h && n < 60 {
                let mut x = 0;
                while x + s * 7 <= w && n < 60 {
                    if r.chance(0.8) {
                        im.code(&f, s, x, y, 0, 255);
                        n += 1;
                    }
                    x += g;
                }
                y += g;
            }
            let n = r.below(80);
            blobs(&mut im, r, n, 3);
        }
        _ => {
            // anisotropic stretch of a symbol
            let m = random_symbol(r, 6);
            let (sx, sy) = (r.range(1, 9), r.range(1, 9));
            im = Img::new(m.n * sx, m.n * sy, 255);
            for y in 0..im.h {
                for x in 0..im.w {
                    im.set(x, y, if m.at(y / sy, x / sx) { 0 } else { 255 });
                }
            }
            let _ = Seg::Eci(0);
        }
    }
    (KINDS[k], im)
}

/// rows of separate bars in the proportions 1:1:3:1:1: every one is looked at as a finder pattern
/// and none is one, so that far more regions are examined than can be remembered at a time
pub fn bars(r: &mut Rng, w: usize, h: usize) -> Img {
    let mut im = Img::new(w, h, 255);
    let mut y = r.below(3);
    while y + 2 < h {
        let hh = r.range(1, 4);
        let mut x = r.below(5);
        loop {
            let u = r.range(1, 3);
            if x + 8 * u >= w {
                break;
            }
            for (o, l) in [(0, 1), (2, 3), (6, 1)] {
                im.rect((x + o * u) as i64, y as i64, (l * u) as i64, hh as i64, 0);
            }
            x += 7 * u + r.range(2, 5);
        }
        y += hh + r.range(1, 3);
    }
    im
}
