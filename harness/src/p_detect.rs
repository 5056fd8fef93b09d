//! Properties of preparing images and finding symbols in them (C10 to C16, C19 to C21).
use crate::decoy;
use crate::enc::Mat;
use crate::gen::{self, decode_grid, Out, Sym};
use crate::monbuf::{self, MonBuf};
use crate::render::{warp, Img, H};
use crate::rng::Rng;
use crate::run::{guard, hash, Obs, Res};
use crate::spec::{self, ECLS};
use rqrr::{BitGrid, PreparedImage};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Found {
    pub size: usize,
    pub bounds: [(i32, i32); 4],
    pub out: Out,
}

impl Found {
    pub fn short(&self) -> String {
        format!("size {} bounds {:?} {}", self.size, self.bounds, self.out.short())
    }
}

pub fn bounds_of(b: &[rqrr::Point; 4]) -> [(i32, i32); 4] {
    [(b[0].x, b[0].y), (b[1].x, b[1].y), (b[2].x, b[2].y), (b[3].x, b[3].y)]
}

/// detect and decode everything
pub fn all_grids<G: BitGrid>(g: &[rqrr::Grid<G>]) -> Vec<Found> {
    g.iter()
        .map(|g| Found {
            size: g.grid.size(),
            bounds: bounds_of(&g.bounds),
            out: decode_grid(g),
        })
        .collect()
}

/// work allowed for an image of this area, in monitored pixel accesses: an order of magnitude above
/// the worst ever seen on the hostile corpus, many orders below a runaway loop
pub fn budget(w: usize, h: usize) -> u64 {
    200_000_000 + 60_000 * (w * h) as u64
}

/// prepare + detect + decode on the monitored buffer
pub fn read_mon(im: &Img) -> Result<Vec<Found>, String> {
    monbuf::reset(budget(im.w, im.h));
    let r = guard(|| {
        let mut p = PreparedImage::prepare(MonBuf::new(im));
        monbuf::freeze();
        let g = p.detect_grids();
        all_grids(&g)
    });
    mon_verdict()?;
    r
}

pub fn mon_verdict() -> Result<(), String> {
    monbuf::with(|m| {
        if let Some(x) = &m.oob {
            return Err(format!("pixel access outside the image: {x}"));
        }
        if let Some(x) = &m.bad_binarized {
            return Err(format!("preparation wrote a value that is neither black nor white: {x}"));
        }
        if let Some(x) = &m.class_change {
            return Err(format!("detection turned a pixel from dark to light or back: {x}"));
        }
        Ok(())
    })
}

/// the plain path of a user: a GrayImage, no monitors (fast)
pub fn read_gray(im: &Img) -> Result<Vec<Found>, String> {
    guard(|| {
        let mut p = PreparedImage::prepare(im.gray());
        let g = p.detect_grids();
        all_grids(&g)
    })
}

pub fn dump(c: &str, im: &Img) -> String {
    let d = std::env::var("VH_DUMP").unwrap_or_default();
    if d.is_empty() {
        return String::new();
    }
    let f = format!("{d}/{c}.pgm");
    let _ = std::fs::write(&f, im.pgm());
    f
}

pub fn orient(m: &Mat, rot: usize, mirror: bool) -> Mat {
    let mut k = if mirror { m.transpose() } else { m.clone() };
    for _ in 0..rot {
        k = k.rot90();
    }
    k
}

/// a symbol without anything in it that looks like a fourth finder pattern
pub fn plain_symbol(r: &mut Rng, v: usize) -> Option<Sym> {
    for _ in 0..60 {
        let e = *r.pick(&ECLS);
        let mask = r.below(8) as u16;
        let s = gen::symbol(r, v, e, mask);
        if decoy::count(&s.m) == 0 {
            return Some(s);
        }
    }
    None
}

fn names(s: &Sym, how: &str) -> String {
    format!("symbol {} {how}", s.name())
}

fn list(f: &[Found]) -> String {
    if f.is_empty() {
        return "no grid".into();
    }
    f.iter().take(4).map(|x| x.short()).collect::<Vec<_>>().join("; ")
}

/// nothing may be read that is not there
fn no_wrong(f: &[Found], want: &[&Sym], ctx: &str) -> Res {
    for x in f {
        if let Out::Ok { .. } = x.out {
            if !want.iter().any(|s| s.expect() == x.out) {
                return Err(format!("{ctx}: reads something that is not in the image: {}", x.short()));
            }
        }
    }
    Ok(())
}

fn found_once(f: &[Found], s: &Sym, ctx: &str) -> Res {
    if f.len() == 1 && f[0].out == s.expect() && f[0].size == s.m.n {
        return Ok(());
    }
    Err(format!("{ctx}: found {} grids: {}; want {}", f.len(), list(f), s.expect().short()))
}

// ---- C11

fn clean_case(r: &mut Rng, v: usize, scale: usize) -> (usize, bool, [usize; 4], usize) {
    let rot = r.below(4);
    let mirror = r.chance(0.3);
    let mut q = [0; 4];
    for x in q.iter_mut() {
        *x = match r.below(5) {
            0 => scale,
            1 => 4 * scale,
            2 => r.range(scale, 6 * scale),
            3 => r.range(scale, scale * (v * 4 + 17)),
            _ => 2 * scale,
        };
    }
    (rot, mirror, q, scale)
}

fn place(m: &Mat, scale: usize, q: [usize; 4]) -> Img {
    let n = m.n * scale;
    let mut im = Img::new(n + q[0] + q[1], n + q[2] + q[3], 255);
    im.code(m, scale, q[0], q[2], 0, 255);
    im
}

pub fn c11_clean(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = if i % 2 == 0 { 1 + (i / 2 % 40) as usize } else { r.range(1, 12) };
    let smax = if v > 20 { 4 } else if v > 8 { 6 } else { 12 };
    let scale = r.range(2, smax);
    let s = match plain_symbol(r, v) {
        Some(s) => s,
        None => {
            o.hit("skipped: only symbols with finder look-alikes drawn");
            return Ok(());
        }
    };
    let (rot, mirror, q, _) = clean_case(r, v, scale);
    let m = orient(&s.m, rot, mirror);
    let im = place(&m, scale, q);
    let ctx = names(&s, &format!("at {scale} px/module, margins {q:?}, rotated {}°{}", rot * 90, if mirror { ", mirrored" } else { "" }));
    let f = if i % 4 == 0 { read_mon(&im) } else { read_gray(&im) }.map_err(|e| format!("{ctx}: {e}"))?;
    found_once(&f, &s, &ctx)?;
    o.hit("clean symbols found exactly once and read");
    o.hit(&format!("version band {}-{}", (v - 1) / 10 * 10 + 1, (v - 1) / 10 * 10 + 10));
    o.hit(if mirror { "mirrored images" } else { "upright images" });
    o.distinct(hash(&(v, scale, rot, mirror, s.e.bits(), s.mask)));
    o.sample(|| ctx.clone());
    Ok(())
}

/// whatever the data looks like: most are read, and never as something else
pub fn c11_any(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = 1 + (i % 40) as usize;
    let scale = r.range(2, if v > 20 { 3 } else { 6 });
    let s = gen::symbol(r, v, *r.clone().pick(&ECLS), r.clone().below(8) as u16);
    let (rot, mirror, q, _) = clean_case(r, v, scale);
    let m = orient(&s.m, rot, mirror);
    let im = place(&m, scale, q);
    let ctx = names(&s, &format!("at {scale} px/module, margins {q:?}, rotated {}°{}", rot * 90, if mirror { ", mirrored" } else { "" }));
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    no_wrong(&f, &[&s], &ctx)?;
    let n = f.iter().filter(|x| x.out == s.expect()).count();
    if n > 1 {
        return Err(format!("{ctx}: read {n} times: {}", list(&f)));
    }
    o.rate("symbols with any data read", n == 1, || format!("{ctx}: {}", list(&f)));
    o.distinct(hash(&("any", v, scale, rot, mirror, s.e.bits(), s.mask)));
    Ok(())
}

/// big images: coordinates far beyond what 32 bit products can take
pub fn c11_big(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = 1 + (i % 3) as usize;
    let s = match plain_symbol(r, v) {
        Some(s) => s,
        None => return Ok(()),
    };
    let side = r.range(1500, if o.thorough { 5000 } else { 3800 });
    let scale = side / (s.m.n + 8);
    let (rot, mirror, _, _) = clean_case(r, v, 4);
    let m = orient(&s.m, rot, mirror);
    let far = r.below(side);
    let im = place(&m, scale, [4 * scale + far * (i % 2) as usize, 4 * scale, 4 * scale + far / 2, 4 * scale]);
    let ctx = names(&s, &format!("at {scale} px/module in a {}x{} image", im.w, im.h));
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    found_once(&f, &s, &ctx)?;
    o.hit("big images read");
    o.max("image side", im.w.max(im.h) as f64);
    o.distinct(hash(&("big", v, im.w, im.h)));
    Ok(())
}

/// any version at any size up to several hundred pixels per module, on any two clear levels
pub fn c11_scale(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = if i % 2 == 0 { r.range(1, 40) } else { r.range(1, 10) };
    let Some(s) = plain_symbol(r, v) else { return Ok(()) };
    let side = if i % 16 == 0 { r.range(500, 2400) } else { r.range(100, 900) };
    let scale = (side / (s.m.n + 4)).max(2);
    let (rot, mirror, mut q, _) = clean_case(r, v, scale);
    for x in q.iter_mut() {
        // not a multiple of the module size
        *x = (*x).min(6 * scale) + r.below(scale);
    }
    let m = orient(&s.m, rot, mirror);
    let n = m.n * scale;
    let (dark, light) = *r.pick(&[(0, 255), (0, 200), (30, 220), (1, 254), (60, 255)]);
    let mut im = Img::new(n + q[0] + q[1], n + q[2] + q[3], light);
    im.code(&m, scale, q[0], q[2], dark, light);
    let ctx = names(&s, &format!("at {scale} px/module, margins {q:?}, levels {dark}/{light}, rotated {}°{}", rot * 90, if mirror { ", mirrored" } else { "" }));
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    found_once(&f, &s, &ctx)?;
    o.hit("symbols of any size found and read");
    o.max("pixels per module", scale as f64);
    o.distinct(hash(&("scale", v, scale, rot, mirror, q)));
    Ok(())
}

/// a small symbol anywhere on a large page of any shape
pub fn c11_page(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = r.range(1, 8);
    let Some(s) = plain_symbol(r, v) else { return Ok(()) };
    let scale = r.range(2, 6);
    let (rot, mirror, _, _) = clean_case(r, v, scale);
    let m = orient(&s.m, rot, mirror);
    let n = m.n * scale;
    let (w, h) = match i % 4 {
        0 => (n + r.range(2, 2000), n + r.range(2, 40) + 2 * scale),
        1 => (n + r.range(2, 40) + 2 * scale, n + r.range(2, 2000)),
        _ => (n + r.range(2, 900), n + r.range(2, 900)),
    };
    let (w, h) = (w.max(n + 2 * scale), h.max(n + 2 * scale));
    let pos = |r: &mut Rng, d: usize| match r.below(4) {
        0 => scale,
        1 => d - n - scale,
        _ => r.range(scale, d - n - scale),
    };
    let (x, y) = (pos(r, w), pos(r, h));
    let mut im = Img::new(w, h, 255);
    im.code(&m, scale, x, y, 0, 255);
    let ctx = names(&s, &format!("at {scale} px/module at ({x},{y}) in {w}x{h}, rotated {}°{}", rot * 90, if mirror { ", mirrored" } else { "" }));
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    found_once(&f, &s, &ctx)?;
    o.hit("symbols on large pages found and read");
    o.distinct(hash(&("page", v, scale, w, h, x, y)));
    Ok(())
}

/// strips far longer than any screen, symbols at both ends
pub fn c11_long(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let scale = r.range(2, 3);
    let len = match i % 4 {
        0 => r.range(33_000, 34_000),
        1 => r.range(66_000, 70_000),
        _ => r.range(4_000, 33_000),
    };
    let v = r.range(1, 4);
    let Some(s) = plain_symbol(r, v) else { return Ok(()) };
    let (rot, mirror, q, _) = clean_case(r, v, scale);
    let m = orient(&s.m, rot, mirror);
    let n = m.n * scale;
    let across = n + q[2].min(9 * scale) + q[3].min(9 * scale);
    let along = if r.chance(0.7) { len - n - scale - r.below(900) } else { r.range(scale, len - n - scale) };
    let y = q[2].min(9 * scale);
    let wide = i % 2 == 0;
    let (w, h) = if wide { (len, across) } else { (across, len) };
    let mut im = Img::new(w, h, 255);
    let (x, y) = if wide { (along, y) } else { (y, along) };
    im.code(&m, scale, x, y, 0, 255);
    let ctx = names(&s, &format!("at {scale} px/module at ({x},{y}) in {w}x{h}, rotated {}°{}", rot * 90, if mirror { ", mirrored" } else { "" }));
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    found_once(&f, &s, &ctx)?;
    let b = f[0].bounds;
    let (mx, my) = ((x + n / 2) as i64, (y + n / 2) as i64);
    if b.iter().any(|b| (b.0 as i64 - mx).abs() > n as i64 || (b.1 as i64 - my).abs() > n as i64) {
        return Err(format!("{ctx}: corners {b:?}"));
    }
    o.hit("symbols on long strips found and read");
    o.max("image side", len as f64);
    o.distinct(hash(&("long", v, w, h, x, y)));
    Ok(())
}

/// damage to the drawn data modules within the correction capacity
pub fn c11_damaged(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    let v = r.range(1, 14);
    let s = match plain_symbol(r, v) {
        Some(s) => s,
        None => return Ok(()),
    };
    let t = spec::blocks(v, s.e).t();
    let mut m = s.m.clone();
    for ix in gen::block_index(v, s.e) {
        let k = r.below(t + 1);
        for p in r.sample(ix.len(), k) {
            gen::hit_codeword(&mut m, v, ix[p], 1 + r.below(255) as u8);
        }
    }
    if decoy::count(&m) != 0 {
        return Ok(());
    }
    let scale = r.range(2, 6);
    let (rot, mirror, q, _) = clean_case(r, v, scale);
    let im = place(&orient(&m, rot, mirror), scale, q);
    let ctx = names(&s, &format!("damaged within capacity, {scale} px/module, rotated {}°", rot * 90));
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    found_once(&f, &s, &ctx)?;
    o.hit("damaged symbols found and read");
    o.distinct(hash(&("dmg", v, scale, rot, mirror, s.e.bits())));
    Ok(())
}

// ---- C12

pub fn rot_quad(cx: f64, cy: f64, side: f64, a: f64) -> [(f64, f64); 4] {
    let (sn, co) = a.sin_cos();
    let h = side / 2.0;
    let p = |u: f64, v: f64| (cx + u * co - v * sn, cy + u * sn + v * co);
    [p(-h, -h), p(h, -h), p(h, h), p(-h, h)]
}

fn geo(name: &str, r: &mut Rng, o: &mut Obs, vlo: usize, vhi: usize, px: (f64, f64), jit: f64, light: u8, dark: u8, shade: f64, noise: f64) -> Res {
    let v = r.range(vlo, vhi);
    let s = match plain_symbol(r, v) {
        Some(s) => s,
        None => return Ok(()),
    };
    let mirror = r.chance(0.2);
    let m = orient(&s.m, 0, mirror);
    let scale = if vhi <= 6 && r.chance(0.07) { r.frange(px.1, 2.8 * px.1) } else { r.frange(px.0, px.1) };
    let side = m.n as f64 * scale;
    let a = r.frange(0.0, std::f64::consts::TAU);
    let dim = (side * 1.45 + 10.0 * scale) as usize;
    let c = dim as f64 / 2.0;
    let mut q = rot_quad(c + r.frange(-3.0, 3.0), c + r.frange(-3.0, 3.0), side, a);
    for p in q.iter_mut() {
        p.0 += r.frange(-jit, jit) * side;
        p.1 += r.frange(-jit, jit) * side;
    }
    let mut im = Img::new(dim, dim, light);
    warp(&mut im, &m, &H::square_to_quad(m.n as f64, q), 4.0, 4, dark, light);
    if shade > 0.0 {
        let b = r.frange(0.0, std::f64::consts::TAU);
        let (sy, sx) = b.sin_cos();
        for y in 0..dim {
            for x in 0..dim {
                let t = ((x as f64 - c) * sx + (y as f64 - c) * sy) / dim as f64; // -0.7..0.7
                let k = 1.0 - shade * (0.5 + t / 1.42);
                let p = im.at(x, y) as f64 * k;
                im.set(x, y, p as u8);
            }
        }
    }
    if noise > 0.0 {
        for p in im.p.iter_mut() {
            *p = (*p as f64 + r.frange(-noise, noise)).clamp(0.0, 255.0) as u8;
        }
    }
    let ctx = names(&s, &format!("{scale:.1} px/module, angle {:.1}°{} in {dim}x{dim}", a.to_degrees(), if mirror { ", mirrored" } else { "" }));
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    no_wrong(&f, &[&s], &ctx)?;
    let n = f.iter().filter(|x| x.out == s.expect()).count();
    if n > 1 {
        return Err(format!("{ctx}: read {n} times: {}", list(&f)));
    }
    if n == 0 {
        dump(&format!("{name}-{}", o.cur.replace(['/', ' '], "_")), &im);
    }
    o.rate(name, n == 1, || format!("{ctx}: {}", list(&f)));
    if scale > px.1 {
        o.rate("big modules, any distortion", n == 1, || format!("{name}: {ctx}: {}", list(&f)));
    }
    o.distinct(hash(&(name, v, (a * 100.0) as i64, (scale * 10.0) as i64)));
    o.sample(|| ctx.clone());
    o.hit("distorted images judged");
    Ok(())
}

pub fn c12_rotated(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    geo("rotated", r, o, 2, 6, (8.0, 14.0), 0.0, 255, 0, 0.0, 0.0)
}
pub fn c12_rotated_v1(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    geo("rotated version 1", r, o, 1, 1, (8.0, 14.0), 0.0, 255, 0, 0.0, 0.0)
}
pub fn c12_perspective(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    geo("perspective", r, o, 2, 6, (8.0, 14.0), 0.03, 255, 0, 0.0, 0.0)
}
/// seen well from the side
pub fn c12_steep(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    let k = r.frange(0.03, 0.15);
    geo("strong perspective", r, o, 1, 6, (8.0, 14.0), k, 255, 0, 0.0, 0.0)
}
/// scaled by any factor, upright or turned
pub fn c12_resized(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    if i % 2 == 0 {
        return geo("scaled and turned", r, o, 2, 6, (5.0, 8.0), 0.0, 255, 0, 0.0, 0.0);
    }
    let v = r.range(2, 6);
    let Some(s) = plain_symbol(r, v) else { return Ok(()) };
    let m = orient(&s.m, r.below(4), r.chance(0.2));
    let scale = r.frange(6.0, 8.0);
    let side = m.n as f64 * scale;
    let a = if i % 4 == 1 { 0.0 } else { r.frange(-5.0, 5.0) };
    let dim = side * 1.1 + r.frange(4.0, 12.0) * scale;
    let c = (dim / 2.0 + r.frange(-1.0, 1.0), dim / 2.0 + r.frange(-1.0, 1.0));
    let q = rot_quad(c.0, c.1, side, a.to_radians());
    let mut im = Img::new(dim as usize, dim as usize, 255);
    warp(&mut im, &m, &H::square_to_quad(m.n as f64, q), 0.0, 4, 0, 255);
    let ctx = names(&s, &format!("{scale:.2} px/module, {a:.1}° off upright"));
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    no_wrong(&f, &[&s], &ctx)?;
    let n = f.iter().filter(|x| x.out == s.expect()).count();
    if n > 1 {
        return Err(format!("{ctx}: read {n} times: {}", list(&f)));
    }
    o.rate("scaled by any factor", n == 1, || format!("{ctx}: {}", list(&f)));
    o.distinct(hash(&("resized", v, (scale * 100.0) as i64, (a * 10.0) as i64)));
    o.hit("distorted images judged");
    Ok(())
}
/// bigger symbols: fewer are read, but a known share
pub fn c12_middle(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    geo("rotated, versions 7 to 14", r, o, 7, 14, (6.0, 9.0), 0.0, 255, 0, 0.0, 0.0)
}
pub fn c12_large(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    geo("rotated, versions 15 to 25", r, o, 15, 25, (5.0, 7.0), 0.0, 255, 0, 0.0, 0.0)
}
pub fn c12_tilted(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    geo("perspective, versions 7 to 14", r, o, 7, 14, (6.0, 9.0), 0.02, 255, 0, 0.0, 0.0)
}
pub fn c12_light(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    let l = r.range(140, 255) as u8;
    let d = (l as f64 * r.frange(0.0, 0.4)) as u8;
    let sh = r.frange(0.0, 0.5);
    geo("uneven light", r, o, 2, 6, (8.0, 14.0), 0.0, l, d, sh, 0.0)
}
pub fn c12_noise(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    let l = r.range(180, 240) as u8;
    let d = r.range(10, 70) as u8;
    let n = r.frange(0.0, 12.0);
    geo("sensor noise", r, o, 2, 6, (8.0, 14.0), 0.0, l, d, 0.0, n)
}
/// levels only: axis aligned, every contrast
pub fn c12_contrast(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = r.range(1, 10);
    let s = match plain_symbol(r, v) {
        Some(s) => s,
        None => return Ok(()),
    };
    let l = r.range(60, 255);
    let d = (l as f64 * r.frange(0.0, 0.6)) as usize;
    let scale = r.range(2, 6);
    let n = (s.m.n + 8) * scale;
    let rot = r.below(4);
    let mut im = Img::new(n, n, l as u8);
    im.code(&orient(&s.m, rot, false), scale, 4 * scale, 4 * scale, d as u8, l as u8);
    let ctx = names(&s, &format!("{scale} px/module, dark {d}, light {l}, rotated {}°", rot * 90));
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    no_wrong(&f, &[&s], &ctx)?;
    o.rate("low contrast", f.iter().any(|x| x.out == s.expect()), || format!("{ctx}: {}", list(&f)));
    o.distinct(hash(&("contrast", v, l, d, scale, i)));
    Ok(())
}

/// every whole degree and the slopes at which lines fall on pixels; a place on a page of any shape
pub fn c12_placed(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = if (i / 360) % 3 == 0 { 1 } else { r.range(2, 6) };
    let Some(s) = plain_symbol(r, v) else { return Ok(()) };
    let mirror = r.chance(0.2);
    let m = orient(&s.m, 0, mirror);
    let px = r.frange(8.0, 11.0);
    let scale = if r.chance(0.5) { px.round() } else { px };
    let side = m.n as f64 * scale;
    let mut line = None;
    let (deg, a) = if i % 7 == 6 {
        // sides along lines of small whole steps: diagonals, one up two across, ...
        let (p, q) = (r.range(1, 5), r.range(1, 5));
        let g = if p == q { p } else if (p, q) == (2, 4) || (p, q) == (4, 2) { 2 } else { 1 };
        line = Some(format!("in line: {} by {}", p.min(q) / g, p.max(q) / g));
        let a = (p as f64).atan2(q as f64) + r.below(4) as f64 * std::f64::consts::FRAC_PI_2;
        ((a.to_degrees().round() as i64).rem_euclid(360), a)
    } else {
        let d = (i % 360) as f64;
        (d as i64, (if r.chance(0.5) { d } else { d + r.frange(-0.5, 0.5) }).to_radians())
    };
    // the square that holds the turned symbol and its quiet zone of one to four modules
    let hold = (side + r.frange(2.0, 8.0) * scale) * (a.sin().abs() + a.cos().abs());
    let (w, h) = match r.below(4) {
        0 => (hold * r.frange(1.0, 3.0), hold),
        1 => (hold, hold * r.frange(1.0, 3.0)),
        _ => (hold * r.frange(1.0, 1.6), hold * r.frange(1.0, 1.6)),
    };
    let (w, h) = (w.ceil() as usize + 1, h.ceil() as usize + 1);
    let at = |r: &mut Rng, d: usize| {
        let e = hold / 2.0;
        match r.below(4) {
            0 => e,
            1 => d as f64 - e,
            _ => r.frange(e, (d as f64 - e).max(e + 0.01)),
        }
    };
    let (cx, cy) = (at(r, w), at(r, h));
    let q = rot_quad(cx, cy, side, a);
    let mut im = Img::new(w, h, 255);
    warp(&mut im, &m, &H::square_to_quad(m.n as f64, q), 4.0, 4, 0, 255);
    let ctx = names(&s, &format!("{scale:.2} px/module, angle {:.2}°{} at ({cx:.0},{cy:.0}) in {w}x{h}", a.to_degrees(), if mirror { ", mirrored" } else { "" }));
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    no_wrong(&f, &[&s], &ctx)?;
    let n = f.iter().filter(|x| x.out == s.expect()).count();
    if n > 1 {
        return Err(format!("{ctx}: read {n} times: {}", list(&f)));
    }
    let why = || format!("{ctx}: {}", list(&f));
    o.rate(if v == 1 { "placed on a page, version 1" } else { "placed on a page" }, n == 1, why);
    o.rate(&format!("at {deg}°"), n == 1, why);
    if let Some(l) = line {
        o.rate(&l, n == 1, why);
    }
    o.rate(&format!("angle sector {:02}", deg / 15), n == 1, why);
    o.rate(&format!("turned and {}: version {v}", if mirror { "mirrored" } else { "upright" }), n == 1, why);
    o.distinct(hash(&("placed", v, (a * 100.0) as i64, (scale * 10.0) as i64, w, h)));
    o.hit("distorted images judged");
    Ok(())
}

/// a symbol as large as in the pictures of a good camera: its corners in reading order, its image,
/// pixels per module
pub fn huge(r: &mut Rng, i: u64) -> Option<(Sym, Img, [(f64, f64); 4], f64, bool, String)> {
    let v = r.range(1, 6);
    let s = plain_symbol(r, v)?;
    let mirror = r.chance(0.25);
    let m = orient(&s.m, 0, mirror);
    let side = if i % 4 == 0 { r.frange(2200.0, 3300.0) } else { r.frange(700.0, 2200.0) };
    let scale = side / m.n as f64;
    let a = if i % 4 == 1 { (r.below(8) as f64) * std::f64::consts::FRAC_PI_4 } else { r.frange(0.0, std::f64::consts::TAU) };
    let hold = side * 1.45 + r.frange(2.0, 10.0) * scale;
    let (w, h) = match i % 3 {
        0 => (hold, hold * r.frange(1.0, 1.5)),
        1 => (hold * r.frange(1.0, 1.5), hold),
        _ => (hold, hold),
    };
    let c = (r.frange(hold / 2.0, w - hold / 2.0 + 0.01), r.frange(hold / 2.0, h - hold / 2.0 + 0.01));
    let mut q = rot_quad(c.0, c.1, side, a);
    let jit = if i % 2 == 0 { 0.0 } else { 0.025 };
    for p in q.iter_mut() {
        p.0 += r.frange(-jit, jit) * side;
        p.1 += r.frange(-jit, jit) * side;
    }
    let (w, h) = (w as usize, h as usize);
    let light = r.range(200, 255) as u8;
    let mut im = Img::new(w, h, light);
    warp(&mut im, &m, &H::square_to_quad(m.n as f64, q), 0.0, 2, r.range(0, 40) as u8, light);
    let ctx = names(&s, &format!("{scale:.1} px/module, angle {:.1}°{} at ({:.0},{:.0}) in {w}x{h}", a.to_degrees(), if mirror { ", mirrored" } else { "" }, c.0, c.1));
    Some((s, im, q, scale, mirror, ctx))
}

pub fn c12_huge(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let Some((s, im, _, _, _, ctx)) = huge(r, i) else { return Ok(()) };
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    no_wrong(&f, &[&s], &ctx)?;
    let n = f.iter().filter(|x| x.out == s.expect()).count();
    if n > 1 {
        return Err(format!("{ctx}: read {n} times: {}", list(&f)));
    }
    o.rate("symbols of 700 to 3300 pixels", n == 1, || format!("{ctx}: {}", list(&f)));
    o.hit("distorted images judged");
    o.max("side of a distorted image", im.w.max(im.h) as f64);
    o.distinct(hash(&("huge", i)));
    Ok(())
}

/// too small, blurred, noisy or tilted to be read with certainty: whatever is read must be right
pub fn c12_illegible(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    let v = if r.bool() { r.range(1, 6) } else { r.range(7, 20) };
    let e = *r.pick(&ECLS);
    let mask = r.below(8) as u16;
    let s = gen::symbol(r, v, e, mask);
    let m = orient(&s.m, r.below(4), r.chance(0.2));
    let scale = r.frange(1.5, if v > 6 { 6.0 } else { 8.0 });
    let side = m.n as f64 * scale;
    let a = if r.chance(0.3) { 0.0 } else { r.frange(0.0, std::f64::consts::TAU) };
    let jit = if r.bool() { 0.0 } else { r.frange(0.0, 0.15) };
    let dim = side * 1.45 + 8.0 * scale;
    let mut q = rot_quad(dim / 2.0, dim / 2.0, side, a);
    for p in q.iter_mut() {
        p.0 += r.frange(-jit, jit) * side;
        p.1 += r.frange(-jit, jit) * side;
    }
    let light = r.range(120, 255) as u8;
    let mut im = Img::new(dim as usize, dim as usize, light);
    warp(&mut im, &m, &H::square_to_quad(m.n as f64, q), 0.0, 3, r.range(0, 60) as u8, light);
    let rad = if r.bool() { 0 } else { (r.frange(0.0, 0.5) * scale).round() as i64 };
    if rad > 0 {
        blur(&mut im, rad);
    }
    let noise = if r.bool() { 0.0 } else { r.frange(0.0, 50.0) };
    if noise > 0.0 {
        for p in im.p.iter_mut() {
            *p = (*p as f64 + r.frange(-noise, noise)).clamp(0.0, 255.0) as u8;
        }
    }
    let ctx = names(&s, &format!("{scale:.2} px/module, angle {:.1}°, blurred by {rad}, noise {noise:.0}", a.to_degrees()));
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    no_wrong(&f, &[&s], &ctx)?;
    let n = f.iter().filter(|x| x.out == s.expect()).count();
    if n > 1 {
        return Err(format!("{ctx}: read {n} times: {}", list(&f)));
    }
    o.hit(if n == 1 { "hardly legible symbols read" } else if f.is_empty() { "hardly legible symbols not found" } else { "hardly legible symbols refused" });
    o.distinct(hash(&("illegible", v, (scale * 100.0) as i64, (a * 100.0) as i64)));
    Ok(())
}

fn blur(im: &mut Img, rad: i64) {
    let (w, h) = (im.w as i64, im.h as i64);
    for pass in 0..2 {
        let src = im.p.clone();
        for y in 0..h {
            for x in 0..w {
                let (mut t, mut n) = (0u32, 0);
                for k in -rad..=rad {
                    let (xx, yy) = if pass == 0 { (x + k, y) } else { (x, y + k) };
                    if xx >= 0 && yy >= 0 && xx < w && yy < h {
                        t += src[(yy * w + xx) as usize] as u32;
                        n += 1;
                    }
                }
                im.p[(y * w + x) as usize] = (t / n) as u8;
            }
        }
    }
}

/// a white label on something dark
pub fn c11_label(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = if i % 4 == 0 { r.range(11, 40) } else { r.range(1, 10) };
    let Some(s) = plain_symbol(r, v) else { return Ok(()) };
    let scale = r.range(2, if v > 20 { 4 } else { 8 });
    let (rot, mirror, _, _) = clean_case(r, v, scale);
    let m = orient(&s.m, rot, mirror);
    let n = m.n * scale;
    let mut q = [0usize; 4];
    let mut b = [0usize; 4];
    for k in 0..4 {
        q[k] = scale * r.range(1, 8) + r.below(scale);
        b[k] = r.below(n / 2 + 40);
    }
    let page = r.below(130) as u8;
    let (w, h) = (n + q[0] + q[1] + b[0] + b[1], n + q[2] + q[3] + b[2] + b[3]);
    let mut im = Img::new(w, h, page);
    im.rect(b[0] as i64, b[2] as i64, (n + q[0] + q[1]) as i64, (n + q[2] + q[3]) as i64, 255);
    let dark = r.below(60) as u8;
    im.code(&m, scale, b[0] + q[0], b[2] + q[2], dark, 255);
    let ctx = names(&s, &format!("at {scale} px/module, on a label with margins {q:?} drawn in {dark} on a page of {page} that is wider by {b:?}, rotated {}°{}", rot * 90, if mirror { ", mirrored" } else { "" }));
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    no_wrong(&f, &[&s], &ctx)?;
    let k = f.iter().filter(|x| x.out == s.expect()).count();
    if k > 1 {
        return Err(format!("{ctx}: read {k} times: {}", list(&f)));
    }
    o.rate("symbols on labels on something dark", k == 1, || format!("{ctx}: {}", list(&f)));
    o.distinct(hash(&("label", v, scale, rot, mirror, q, b)));
    Ok(())
}

/// a white card on a dark table
pub fn c12_card(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    let v = r.range(2, 6);
    let Some(s) = plain_symbol(r, v) else { return Ok(()) };
    let mirror = r.chance(0.1);
    let m = orient(&s.m, 0, mirror);
    let scale = r.frange(8.0, 12.0);
    let side = m.n as f64 * scale;
    let a = r.frange(0.0, std::f64::consts::TAU);
    let margin = r.frange(3.0, 7.0);
    let (w, h) = ((side + 2.0 * margin * scale) * r.frange(1.45, 2.2), (side + 2.0 * margin * scale) * r.frange(1.45, 2.2));
    let mut q = rot_quad(w / 2.0, h / 2.0, side, a);
    let jit = if r.bool() { 0.0 } else { 0.03 };
    for p in q.iter_mut() {
        p.0 += r.frange(-jit, jit) * side;
        p.1 += r.frange(-jit, jit) * side;
    }
    let page = r.below(130) as u8;
    let mut im = Img::new(w as usize, h as usize, page);
    warp(&mut im, &m, &H::square_to_quad(m.n as f64, q), margin, 4, r.below(40) as u8, r.range(200, 255) as u8);
    let ctx = names(&s, &format!("{scale:.1} px/module, angle {:.1}°{} on a card on a table of {page} in {}x{}", a.to_degrees(), if mirror { ", mirrored" } else { "" }, im.w, im.h));
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    no_wrong(&f, &[&s], &ctx)?;
    let n = f.iter().filter(|x| x.out == s.expect()).count();
    if n > 1 {
        return Err(format!("{ctx}: read {n} times: {}", list(&f)));
    }
    o.rate("turned, on a card on something dark", n == 1, || format!("{ctx}: {}", list(&f)));
    o.distinct(hash(&("card", v, (a * 100.0) as i64, (scale * 10.0) as i64)));
    o.hit("distorted images judged");
    Ok(())
}
