//! Draws module matrices into luma images.
use crate::enc::Mat;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Img {
    pub w: usize,
    pub h: usize,
    pub p: Vec<u8>,
}

impl Img {
    pub fn new(w: usize, h: usize, v: u8) -> Self {
        Img {
            w,
            h,
            p: vec![v; w * h],
        }
    }
    pub fn at(&self, x: usize, y: usize) -> u8 {
        self.p[y * self.w + x]
    }
    pub fn set(&mut self, x: usize, y: usize, v: u8) {
        self.p[y * self.w + x] = v;
    }
    pub fn rect(&mut self, x: i64, y: i64, w: i64, h: i64, v: u8) {
        for yy in y.max(0)..(y + h).min(self.h as i64) {
            for xx in x.max(0)..(x + w).min(self.w as i64) {
                self.set(xx as usize, yy as usize, v);
            }
        }
    }
    /// axis-aligned code, `s` pixels per module, top-left corner of the code at (x, y)
    pub fn code(&mut self, m: &Mat, s: usize, x: usize, y: usize, dark: u8, light: u8) {
        for my in 0..m.n {
            for mx in 0..m.n {
                let c = if m.at(my, mx) { dark } else { light };
                for dy in 0..s {
                    let o = (y + my * s + dy) * self.w + x + mx * s;
                    self.p[o..o + s].fill(c);
                }
            }
        }
    }
    pub fn gray(&self) -> image::GrayImage {
        image::GrayImage::from_raw(self.w as u32, self.h as u32, self.p.clone()).unwrap()
    }
    pub fn pgm(&self) -> Vec<u8> {
        let mut o = format!("P5\n{} {}\n255\n", self.w, self.h).into_bytes();
        o.extend_from_slice(&self.p);
        o
    }
    pub fn from_gray(g: &image::GrayImage) -> Self {
        Img {
            w: g.width() as usize,
            h: g.height() as usize,
            p: g.as_raw().clone(),
        }
    }
}

/// projective map of the plane
#[derive(Clone, Copy, Debug)]
pub struct H(pub [f64; 9]);

impl H {
    pub fn apply(&self, u: f64, v: f64) -> (f64, f64) {
        let m = &self.0;
        let d = m[6] * u + m[7] * v + m[8];
        (
            (m[0] * u + m[1] * v + m[2]) / d,
            (m[3] * u + m[4] * v + m[5]) / d,
        )
    }
    pub fn inv(&self) -> H {
        let m = &self.0;
        let c = |a: usize, b: usize, d: usize, e: usize| m[a] * m[e] - m[b] * m[d];
        H([
            c(4, 5, 7, 8),
            -c(1, 2, 7, 8),
            c(1, 2, 4, 5),
            -c(3, 5, 6, 8),
            c(0, 2, 6, 8),
            -c(0, 2, 3, 5),
            c(3, 4, 6, 7),
            -c(0, 1, 6, 7),
            c(0, 1, 3, 4),
        ])
    }
    /// unit square (0,0),(1,0),(1,1),(0,1) to the quad, scaled so that (n,n) is the far corner
    pub fn square_to_quad(n: f64, q: [(f64, f64); 4]) -> H {
        let [(x0, y0), (x1, y1), (x2, y2), (x3, y3)] = q;
        let (dx1, dx2, sx) = (x1 - x2, x3 - x2, x0 - x1 + x2 - x3);
        let (dy1, dy2, sy) = (y1 - y2, y3 - y2, y0 - y1 + y2 - y3);
        let den = dx1 * dy2 - dx2 * dy1;
        let g = (sx * dy2 - dx2 * sy) / den;
        let h = (dx1 * sy - sx * dy1) / den;
        H([
            (x1 - x0 + g * x1) / n,
            (x3 - x0 + h * x3) / n,
            x0,
            (y1 - y0 + g * y1) / n,
            (y3 - y0 + h * y3) / n,
            y0,
            g / n,
            h / n,
            1.0,
        ])
    }
}

/// Draw the code through h (module coordinates to pixel coordinates) with ss*ss supersampling.
/// Only touches pixels inside the code plus `quiet` modules around it (drawn light).
pub fn warp(img: &mut Img, m: &Mat, h: &H, quiet: f64, ss: usize, dark: u8, light: u8) {
    let hi = h.inv();
    let n = m.n as f64;
    let (mut x0, mut y0, mut x1, mut y1) = (f64::MAX, f64::MAX, f64::MIN, f64::MIN);
    for (u, v) in [
        (-quiet, -quiet),
        (n + quiet, -quiet),
        (n + quiet, n + quiet),
        (-quiet, n + quiet),
    ] {
        let (x, y) = h.apply(u, v);
        x0 = x0.min(x);
        y0 = y0.min(y);
        x1 = x1.max(x);
        y1 = y1.max(y);
    }
    let cx = |v: f64, w: usize| v.clamp(0.0, w as f64) as usize;
    for y in cx(y0.floor(), img.h)..cx(y1.ceil() + 1.0, img.h) {
        for x in cx(x0.floor(), img.w)..cx(x1.ceil() + 1.0, img.w) {
            let mut acc = 0u32;
            let mut cnt = 0u32;
            for sy in 0..ss {
                for sx in 0..ss {
                    let px = x as f64 + (sx as f64 + 0.5) / ss as f64;
                    let py = y as f64 + (sy as f64 + 0.5) / ss as f64;
                    let (u, v) = hi.apply(px, py);
                    if u >= 0.0 && v >= 0.0 && u < n && v < n {
                        acc += if m.at(v as usize, u as usize) {
                            dark
                        } else {
                            light
                        } as u32;
                        cnt += 1;
                    } else if u >= -quiet && v >= -quiet && u < n + quiet && v < n + quiet {
                        acc += light as u32;
                        cnt += 1;
                    } else {
                        acc += img.at(x, y) as u32;
                        cnt += 1;
                    }
                }
            }
            img.set(x, y, (acc / cnt) as u8);
        }
    }
}
