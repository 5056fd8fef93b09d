//! Whole-system properties: robustness, state, sources, purity, binarization, dumps, bounded work.
use crate::alloc;
use crate::gen::{self, Out};
use crate::hostile;
use crate::monbuf::{self, MonBuf};
use crate::p_detect::{all_grids, budget, mon_verdict, orient, plain_symbol, read_gray, Found};
use crate::render::{warp, Img, H};
use crate::rng::Rng;
use crate::run::{guard, hash, Obs, Res};
use crate::spec::ECLS;
use rqrr::{BitGrid, PreparedImage};

fn list(f: &[Found]) -> String {
    if f.is_empty() {
        return "no grid".into();
    }
    f.iter().take(6).map(|x| x.short()).collect::<Vec<_>>().join("; ")
}

fn px_hash(im: &Img) -> u64 {
    hash(&(im.w, im.h, &im.p))
}

fn path_of(o: &Obs, im: &Img) -> String {
    crate::p_detect::dump(&o.cur.replace(['/', ' '], "_"), im)
}

// ---- C10

/// grids that come out of a picture must be usable whatever the picture was
fn usable(f: &[Found], o: &mut Obs) -> Res {
    for g in f {
        if g.size < 17 || g.size > 177 || (g.size - 17) % 4 != 0 {
            return Err(format!("a grid of impossible size: {}", g.short()));
        }
        match &g.out {
            Out::Ok { v, .. } => {
                if 4 * v + 17 != g.size {
                    return Err(format!("version {v} in a grid of size {}", g.size));
                }
                o.hit("grids read");
            }
            Out::Err(e, _) => o.hit(&format!("grids not read: {e:?}")),
        }
    }
    Ok(())
}

fn run_mon(im: &Img, raw: bool) -> Result<Vec<Found>, String> {
    monbuf::reset(budget(im.w, im.h));
    let r = guard(|| {
        let b = MonBuf::new(im);
        let mut p = if raw { PreparedImage::without_preparation(b) } else { PreparedImage::prepare(b) };
        monbuf::freeze();
        let g = p.detect_grids();
        for x in &g {
            let _ = x.decode();
            let _ = x.get_raw_data();
        }
        all_grids(&g)
    });
    mon_verdict()?;
    r
}

fn hostile_case(r: &mut Rng, o: &mut Obs, im: &Img, kind: &str, raw: bool) -> Res {
    let ctx = format!("{kind} {}x{}{}", im.w, im.h, if raw { ", as given" } else { "" });
    let f = run_mon(im, raw).map_err(|e| {
        path_of(o, im);
        format!("{ctx}: {e}")
    })?;
    usable(&f, o).map_err(|e| format!("{ctx}: {e}"))?;
    let _ = r;
    let (n, cl) = monbuf::with(|m| (m.reads + m.writes + m.dims, m.clones));
    o.add("pixel accesses watched", n);
    o.add("trial groupings", cl);
    o.hit(&format!("pictures: {kind}"));
    o.max(&format!("accesses per pixel: {kind}"), n as f64 / (im.w * im.h).max(64) as f64);
    o.distinct(px_hash(im));
    o.sample(|| format!("{ctx}: {}", list(&f)));
    Ok(())
}

fn to01(im: &Img) -> Img {
    Img { w: im.w, h: im.h, p: im.p.iter().map(|&v| (v < 128) as u8).collect() }
}

pub fn c10_hostile(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let max = *r.pick(&[60, 120, 200]);
    let (k, im) = hostile::make_kind(r, max, (i % hostile::KINDS.len() as u64) as usize);
    hostile_case(r, o, &im, k, false)
}

pub fn c10_big(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (k, im) = hostile::make_kind(r, 600, (i % hostile::KINDS.len() as u64) as usize);
    hostile_case(r, o, &im, k, false)
}

pub fn c10_raw(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    let max = *r.pick(&[40, 120, 200]);
    let (k, im) = hostile::make(r, max);
    let im = to01(&im);
    hostile_case(r, o, &im, k, true)
}

/// three finder-like figures in the corner arrangement of a symbol, pulled into every shape
pub fn c10_corner(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let f = hostile::finder();
    let w = r.range(30, 260);
    let h = if r.bool() { w } else { r.range(30, 260) };
    let mut im = Img::new(w, h, 255);
    let s = r.frange(7.0, w.min(h) as f64 / 2.5);
    let leg = r.frange(s * 0.9, w.max(h) as f64);
    let a = if r.bool() { 0.0 } else { r.frange(0.0, 6.3) };
    let (sn, co) = a.sin_cos();
    let (bx, by) = (r.frange(0.0, w as f64), r.frange(0.0, h as f64));
    let k = *r.pick(&[0.0, 0.1, 0.3, 0.48]);
    for (u, v) in [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0)] {
        if (u, v) == (1.0, 1.0) && r.chance(0.8) {
            continue;
        }
        let j = if r.bool() { 0.0 } else { r.frange(-0.1, 0.1) };
        let (u, v) = ((u + j) * leg, (v - j) * leg);
        let (cx, cy) = (bx + u * co - v * sn, by + u * sn + v * co);
        let mut q = hostile::quad(r, cx, cy, s, k);
        // a figure squeezed in one direction
        if r.chance(0.3) {
            let t = r.frange(0.05, 1.0);
            for p in q.iter_mut() {
                p.1 = cy + (p.1 - cy) * t;
            }
        }
        warp(&mut im, &f, &H::square_to_quad(7.0, q), 0.6, 1, 0, 255);
    }
    // something to find along the edges
    for _ in 0..r.below(40) {
        let (x, y) = (r.irange(0, w as i64), r.irange(0, h as i64));
        let (a, b) = (r.irange(1, 6), r.irange(1, 6));
        im.rect(x, y, a, b, if r.chance(0.7) { 0 } else { 255 });
    }
    let raw = i % 2 == 1;
    let im = if raw { to01(&im) } else { im };
    hostile_case(r, o, &im, "corner figures", raw)
}

/// long, thin, tiny and empty pictures
pub fn c10_shape(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let long = if o.thorough { 120_000 } else { 40_000 };
    let (w, h) = match i % 6 {
        0 => (0, r.below(5)),
        1 => (r.below(5), 0),
        2 => (r.range(1, 12), r.range(1, 12)),
        3 => (r.range(1, 40), r.range(1000, long)),
        4 => (r.range(1000, long), r.range(1, 40)),
        _ => (1, r.range(1, 200)),
    };
    let mut im = Img::new(w, h, 255);
    match r.below(3) {
        0 => {
            let p = r.f();
            for v in im.p.iter_mut() {
                *v = if r.chance(p) { 0 } else { 255 };
            }
        }
        1 => {
            // finder patterns stretched along the long side
            let f = hostile::finder();
            let (sx, sy) = ((w / 7).max(1), (h / 7).max(1));
            let n = r.range(1, 4);
            let (sx, sy) = if w > h { ((sx / n / 2).max(1), sy) } else { (sx, (sy / n / 2).max(1)) };
            for y in 0..h {
                for x in 0..w {
                    let (mx, my) = (x / sx % 8, y / sy % 8);
                    if mx < 7 && my < 7 {
                        im.set(x, y, if f.at(my, mx) { 0 } else { 255 });
                    }
                }
            }
        }
        _ => {
            for _ in 0..r.below(60) {
                let (x, y) = (r.irange(0, w as i64), r.irange(0, h as i64));
                let (a, b) = (r.irange(1, 1 + w as i64 / 3), r.irange(1, 1 + h as i64 / 3));
                let c = r.u64() as u8;
                im.rect(x, y, a, b, c);
            }
        }
    }
    let raw = r.chance(0.3);
    let im = if raw { to01(&im) } else { im };
    o.max("longest side", w.max(h) as f64);
    hostile_case(r, o, &im, "odd shapes", raw)
}

/// rows and fields of hundreds of finder patterns
pub fn c10_crowd(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let f = hostile::finder();
    let u = r.range(1, 3);
    let gap = r.range(1, 4);
    let pitch = 7 * u + gap;
    let n = match i % 4 {
        // just around the numbers that fit one byte, and many more
        0 => r.range(254, 259),
        1 => r.range(256, 700),
        2 => r.range(700, 1500),
        _ => r.range(256, 300),
    };
    // one row or column has no right angles, so that no groups are formed; a field has many
    let (cols, rows) = match i % 4 {
        3 => {
            let c = r.range(14, 20);
            (c, n.div_ceil(c))
        }
        _ if r.bool() => (n, 1),
        _ => (1, n),
    };
    let mut im = Img::new(cols * pitch + 2, rows * pitch + 2, 255);
    for k in 0..n {
        // in a field, a few away from their place
        let j = if rows > 1 && cols > 1 && r.chance(0.1) { 1 } else { 0 };
        im.code(&f, u, 1 + k % cols * pitch, 1 + k / cols * pitch + j * gap / 2, 0, 255);
    }
    o.max("finder patterns in a picture", n as f64);
    if n > 255 {
        o.hit("pictures of more than 255 finder patterns");
    }
    let raw = r.chance(0.3);
    let im = if raw { to01(&im) } else { im };
    hostile_case(r, o, &im, "crowds", raw)
}

/// asking for pixels anywhere, before and after detection
pub fn c10_points(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    let (_, im) = hostile::make(r, 60);
    if im.w == 0 || im.h == 0 {
        return Ok(());
    }
    let e = guard(|| {
        let mut p = PreparedImage::prepare(im.gray());
        for round in 0..2 {
            for _ in 0..60 {
                let c = |r: &mut Rng, n: usize| match r.below(4) {
                    0 => i32::MIN + r.below(3) as i32,
                    1 => i32::MAX - r.below(3) as i32,
                    _ => r.irange(-3, n as i64 + 3) as i32,
                };
                let (x, y) = (c(r, im.w), c(r, im.h));
                let got = p.get_pixel_at_point(rqrr::Point { x, y });
                let (cx, cy) = (x.clamp(0, im.w as i32 - 1) as usize, y.clamp(0, im.h as i32 - 1) as usize);
                if got != p.get_pixel_at(cx, cy) {
                    return Err(format!("point ({x},{y}) of {}x{} is not the nearest pixel of the image", im.w, im.h));
                }
                o.hit("points asked for");
            }
            if round == 0 {
                let _ = p.detect_grids();
            }
        }
        Ok(())
    })?;
    e
}

// ---- pictures of every kind, for the properties that hold for all of them

/// (what, picture)
pub fn any_picture(r: &mut Rng, i: u64) -> (String, Img) {
    match i % 4 {
        0 => {
            let max = *r.pick(&[60, 120, 200]);
            let (k, im) = hostile::make(r, max);
            (format!("hostile {k}"), im)
        }
        1 => {
            let v = r.range(1, 7);
            let s = gen::symbol(r, v, *r.clone().pick(&ECLS), r.clone().below(8) as u16);
            let sc = r.range(2, 5);
            let m = orient(&s.m, r.below(4), r.chance(0.2));
            let mut im = Img::new((m.n + 8) * sc, (m.n + 8) * sc, 255);
            im.code(&m, sc, 4 * sc, 4 * sc, 0, 255);
            (format!("symbol {}", s.name()), im)
        }
        2 => {
            let k = r.range(1, 4);
            let gap = r.frange(3.0, 6.0);
            match crate::p_multi::scene(r, k, true, 4, gap) {
                Some((_, mut im, rects)) => {
                    let n = *r.pick(&[0, 50, 400, 900]);
                    crate::p_multi::clutter(r, &mut im, &rects, n);
                    (format!("{k} symbols, {n} marks"), im)
                }
                None => ("empty".into(), Img::new(40, 40, 255)),
            }
        }
        _ => {
            let v = r.range(1, 4);
            let s = gen::symbol(r, v, *r.clone().pick(&ECLS), r.clone().below(8) as u16);
            let sc = r.frange(4.0, 9.0);
            let side = s.m.n as f64 * sc;
            let d = (side * 1.5 + 8.0 * sc) as usize;
            let a = r.frange(0.0, 6.28);
            let q = crate::p_detect::rot_quad(d as f64 / 2.0, d as f64 / 2.0, side, a);
            let mut im = Img::new(d, d, 250);
            warp(&mut im, &s.m, &H::square_to_quad(s.m.n as f64, q), 4.0, 2, 10, 250);
            if r.bool() {
                let n = r.frange(0.0, 20.0);
                for p in im.p.iter_mut() {
                    *p = (*p as f64 + r.frange(-n, n)).clamp(0.0, 255.0) as u8;
                }
            }
            (format!("rotated symbol {}", s.name()), im)
        }
    }
}

// ---- C14

fn code(c: &impl PartialEq<u8>) -> u8 {
    (0..=255u8).find(|k| *c == *k).unwrap_or(255)
}

fn state_of<S: Clone + image::GenericImage<Pixel = image::Luma<u8>>>(p: &PreparedImage<S>, w: usize, h: usize) -> Vec<u8> {
    let mut o = Vec::with_capacity(w * h);
    for y in 0..h {
        for x in 0..w {
            o.push(code(&p.get_pixel_at(x, y)));
        }
    }
    o
}

fn components(dark: &[bool], w: usize, h: usize) -> Vec<u32> {
    let mut c = vec![0u32; w * h];
    let mut n = 0;
    let mut st = vec![];
    for i in 0..w * h {
        if !dark[i] || c[i] != 0 {
            continue;
        }
        n += 1;
        c[i] = n;
        st.push(i);
        while let Some(k) = st.pop() {
            let (y, x) = (k / w, k % w);
            let mut go = |j: usize| {
                if dark[j] && c[j] == 0 {
                    c[j] = n;
                    st.push(j);
                }
            };
            if y > 0 {
                go(k - w)
            }
            if y + 1 < h {
                go(k + w)
            }
            if x > 0 {
                go(k - 1)
            }
            if x + 1 < w {
                go(k + 1)
            }
        }
    }
    c
}

pub fn c14_state(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (what, im) = if i % 5 == 0 {
        let (w, h) = (r.range(60, 260), r.range(60, 260));
        ("bars".to_string(), hostile::bars(r, w, h))
    } else {
        any_picture(r, i)
    };
    c14_judge(r, o, what, im)
}

pub fn c14_large(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (what, im) = large_picture(r, i);
    o.hit("large pictures");
    c14_judge(r, o, what, im)
}

fn c14_judge(r: &mut Rng, o: &mut Obs, what: String, im: Img) -> Res {
    let ctx = format!("{what}, {}x{}", im.w, im.h);
    let (w, h) = (im.w, im.h);
    monbuf::reset(0);
    let rounds = if r.chance(0.05) { r.range(4, 12) } else { r.range(1, 3) };
    let res = guard(|| {
        let mut p = PreparedImage::prepare(MonBuf::new(&im));
        monbuf::freeze();
        if (p.width(), p.height()) != (w, h) {
            return Err(format!("the picture is {w}x{h}, rqrr says {}x{}", p.width(), p.height()));
        }
        let before = state_of(&p, w, h);
        if before.iter().any(|&v| v > 1) {
            return Err("a freshly prepared image has pixels that are neither black nor white".into());
        }
        let copy = p.clone();
        let mut after = before.clone();
        for k in 0..rounds {
            let dead = p.clone();
            {
                let mut q = p.clone();
                let _ = q.detect_grids();
            }
            if state_of(&p, w, h) != after {
                return Err("searching a copy changed the image it was copied from".into());
            }
            let bits: Vec<bool>;
            {
                let g = p.detect_grids();
                bits = g.iter().flat_map(|g| (0..g.grid.size()).map(|k| g.grid.bit(k, k)).collect::<Vec<_>>()).collect();
                for g in &g {
                    let _ = g.decode();
                }
            }
            o.add("modules sampled", bits.len() as u64);
            let s = state_of(&p, w, h);
            if state_of(&dead, w, h) != after {
                return Err("searching the image changed a copy made before".into());
            }
            // still the same picture
            for j in 0..w * h {
                if (s[j] == 0) != (before[j] == 0) {
                    return Err(format!("pixel ({},{}) was {} and is {} after search {}", j % w, j / w, before[j], s[j], k + 1));
                }
                if s[j] == 4 {
                    return Err(format!("pixel ({},{}) still has the working colour after search {}", j % w, j / w, k + 1));
                }
            }
            // one region, one shade; one shade of discarded black, one region
            let dark: Vec<bool> = before.iter().map(|&v| v != 0).collect();
            let c = components(&dark, w, h);
            let n = *c.iter().max().unwrap_or(&0) as usize;
            let mut shade = vec![0u8; n + 1];
            let mut owner = [0u32; 256];
            for j in 0..w * h {
                let k = c[j] as usize;
                if k == 0 {
                    continue;
                }
                if shade[k] == 0 {
                    shade[k] = s[j];
                } else if shade[k] != s[j] {
                    return Err(format!("the connected dark region at ({},{}) has shades {} and {}", j % w, j / w, shade[k], s[j]));
                }
                if s[j] > 4 {
                    let ow = &mut owner[s[j] as usize];
                    if *ow == 0 {
                        *ow = k as u32;
                    } else if *ow != k as u32 {
                        return Err(format!("shade {} marks two regions, one at ({},{})", s[j], j % w, j / w));
                    }
                }
            }
            o.add("dark regions checked", n as u64);
            let used = owner.iter().filter(|x| **x != 0).count();
            if used > 200 {
                o.hit("searches with more than 200 shades in use");
            }
            o.max("shades in use", used as f64);
            o.max("dark regions", n as f64);
            after = s;
        }
        if state_of(&copy, w, h) != before {
            return Err("searching the image changed a copy made before".into());
        }
        Ok(())
    });
    mon_verdict().map_err(|e| format!("{ctx}: {e}"))?;
    res.and_then(|x| x).map_err(|e| format!("{ctx}: {e}"))?;
    o.hit("searches checked");
    o.add("pixel writes watched", monbuf::with(|m| m.writes));
    o.distinct(px_hash(&im));
    o.sample(|| ctx);
    Ok(())
}

// ---- C16

/// column-major storage inside a bigger buffer
#[derive(Clone)]
struct ColBuf {
    w: usize,
    h: usize,
    pad: usize,
    px: Vec<u8>,
}

impl ColBuf {
    fn new(im: &Img, pad: usize) -> Self {
        let mut c = ColBuf { w: im.w, h: im.h, pad, px: vec![77; (im.w + 2 * pad) * (im.h + 2 * pad)] };
        for y in 0..im.h {
            for x in 0..im.w {
                let i = c.at(x, y);
                c.px[i] = im.at(x, y);
            }
        }
        c
    }
    fn at(&self, x: usize, y: usize) -> usize {
        assert!(x < self.w && y < self.h, "pixel ({x},{y}) outside {}x{}", self.w, self.h);
        (x + self.pad) * (self.h + 2 * self.pad) + y + self.pad
    }
}

impl image::GenericImageView for ColBuf {
    type Pixel = image::Luma<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w as u32, self.h as u32)
    }
    fn bounds(&self) -> (u32, u32, u32, u32) {
        (0, 0, self.w as u32, self.h as u32)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Self::Pixel {
        image::Luma([self.px[self.at(x as usize, y as usize)]])
    }
}

impl image::GenericImage for ColBuf {
    fn get_pixel_mut(&mut self, _x: u32, _y: u32) -> &mut Self::Pixel {
        unimplemented!()
    }
    fn put_pixel(&mut self, x: u32, y: u32, p: Self::Pixel) {
        let i = self.at(x as usize, y as usize);
        self.px[i] = p.0[0];
    }
    fn blend_pixel(&mut self, _x: u32, _y: u32, _p: Self::Pixel) {
        unimplemented!()
    }
}

fn cmp(ctx: &str, a: &[Found], b: &[Found], what: &str) -> Res {
    if a == b {
        return Ok(());
    }
    Err(format!("{ctx}: {what} differs: {} / {}", list(a), list(b)))
}

pub fn c16_sources(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let p = any_picture(r, i);
    sources(r, o, p)
}

/// symbols beyond pixel 65536 of long pictures
pub fn c16_long(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let p = long_picture(r, i);
    o.hit("pictures longer than 65536 pixels");
    sources(r, o, p)
}

/// a symbol near each end of a picture with a side of more than 65536 pixels
pub fn long_picture(r: &mut Rng, i: u64) -> (String, Img) {
    let sc = r.range(1, 3);
    let (a, b) = (r.range(65_600, 70_000), r.range(32 * sc, 44 * sc));
    let (w, h) = if i % 2 == 0 { (a, b) } else { (b, a) };
    let mut im = Img::new(w, h, 255);
    for far in [false, true] {
        let v = r.range(1, 3);
        let s = gen::symbol(r, v, *r.clone().pick(&ECLS), r.clone().below(8) as u16);
        let side = s.m.n * sc;
        let along = if far { a - side - r.range(2, 60) * sc } else { r.range(2, 900) };
        let across = r.range(sc, b - side - sc);
        let (x, y) = if i % 2 == 0 { (along, across) } else { (across, along) };
        im.code(&s.m, sc, x, y, 0, 255);
    }
    ("symbols at both ends".into(), im)
}

fn sources(r: &mut Rng, o: &mut Obs, (what, im): (String, Img)) -> Res {
    let ctx = format!("{what}, {}x{}", im.w, im.h);
    let base = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    let e = |e: String| format!("{ctx}: {e}");
    let f = guard(|| {
        let mut p = PreparedImage::prepare_from_greyscale(im.w, im.h, |x, y| im.at(x, y));
        let g = p.detect_grids();
        all_grids(&g)
    })
    .map_err(e)?;
    cmp(&ctx, &base, &f, "luminance function instead of image")?;
    let f = run_mon_plain(&im).map_err(e)?;
    cmp(&ctx, &base, &f, "another buffer type")?;
    let pad = r.below(5);
    let f = guard(|| {
        let mut p = PreparedImage::prepare(ColBuf::new(&im, pad));
        let g = p.detect_grids();
        all_grids(&g)
    })
    .map_err(e)?;
    cmp(&ctx, &base, &f, "column storage with padding")?;
    // black and white in between
    let bw: Vec<bool> = guard(|| {
        let p = PreparedImage::prepare(im.gray());
        state_of(&p, im.w, im.h).iter().map(|&v| v != 0).collect()
    })
    .map_err(e)?;
    let f = guard(|| {
        let mut p = PreparedImage::prepare_from_bitmap(im.w, im.h, |x, y| bw[y * im.w + x]);
        let g = p.detect_grids();
        all_grids(&g)
    })
    .map_err(e)?;
    cmp(&ctx, &base, &f, "bitmap of the prepared image")?;
    let f = guard(|| {
        let q = Img { w: im.w, h: im.h, p: bw.iter().map(|&b| b as u8).collect() };
        let mut p = PreparedImage::without_preparation(q.gray());
        let g = p.detect_grids();
        all_grids(&g)
    })
    .map_err(e)?;
    cmp(&ctx, &base, &f, "image used without preparation")?;
    o.add("grids compared", 5 * base.len() as u64);
    if base.iter().any(|f| matches!(f.out, Out::Ok { .. })) {
        o.hit("pictures with a readable symbol");
    }
    o.hit("pictures compared over six sources");
    o.distinct(px_hash(&im));
    o.sample(|| format!("{ctx}: {}", list(&base)));
    Ok(())
}

fn run_mon_plain(im: &Img) -> Result<Vec<Found>, String> {
    monbuf::reset(budget(im.w, im.h));
    let r = guard(|| {
        let mut p = PreparedImage::prepare(MonBuf::new(im));
        let g = p.detect_grids();
        all_grids(&g)
    });
    monbuf::with(|m| m.oob.clone()).map_or(Ok(()), Err)?;
    r
}

struct OwnGrid {
    n: usize,
    bits: Vec<bool>,
}

impl BitGrid for OwnGrid {
    fn size(&self) -> usize {
        self.n
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        self.bits[y * self.n + x]
    }
}

/// a grid is a grid: the detected one, a copy of its bits, a bit function
pub fn c16_grids(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (what, im) = any_picture(r, i);
    let ctx = format!("{what}, {}x{}", im.w, im.h);
    guard(|| -> Res {
        let mut p = PreparedImage::prepare(im.gray());
        for g in p.detect_grids() {
            let n = g.grid.size();
            let own = OwnGrid { n, bits: (0..n * n).map(|k| g.grid.bit(k / n, k % n)).collect() };
            let simple = rqrr::SimpleGrid::from_func(n, |x, y| own.bits[y * n + x]);
            for y in 0..n {
                for x in 0..n {
                    if simple.bit(y, x) != own.bits[y * n + x] || simple.size() != n {
                        return Err(format!("{ctx}: bit ({y},{x}) of a grid made from a function is wrong"));
                    }
                }
            }
            let a = gen::decode_grid(&g);
            let own = rqrr::Grid::new(own);
            let simple = rqrr::Grid::new(simple);
            let (b, c) = (gen::decode_grid(&own), gen::decode_grid(&simple));
            if a != b || a != c {
                return Err(format!("{ctx}: the same bits decode as {} / {} / {}", a.short(), b.short(), c.short()));
            }
            let raw = |x: Result<(rqrr::MetaData, rqrr::RawData), rqrr::DeQRError>| {
                x.map(|(m, d)| (m.version.0, m.ecc_level, m.mask, d.len, d.data[..d.len.div_ceil(8)].to_vec()))
            };
            let (x, y, z) = (raw(g.get_raw_data()), raw(own.get_raw_data()), raw(simple.get_raw_data()));
            if x != y || x != z {
                return Err(format!("{ctx}: the same bits give different raw data"));
            }
            // decode() is decode_to() plus UTF-8
            let s = g.decode().map(|(m, s)| Out::meta(&m, s.into_bytes()));
            let want = match &a {
                Out::Ok { bytes, .. } if std::str::from_utf8(bytes).is_err() => Err(rqrr::DeQRError::EncodingError),
                Out::Ok { .. } => Ok(a.clone()),
                Out::Err(e, _) => Err(*e),
            };
            if s != want {
                return Err(format!("{ctx}: decode gives {s:?}, decode_to {}", a.short()));
            }
            o.hit("grids compared over three sources");
        }
        Ok(())
    })
    .map_err(|e| format!("{ctx}: {e}"))??;
    o.distinct(hash(&("grids", px_hash(&im))));
    Ok(())
}

/// what was found, as the other processes print it
pub fn text(found: &[Found]) -> String {
    let mut want = String::new();
    for f in found {
        want.push_str(&format!("{} {:?} ", f.size, f.bounds));
        match &f.out {
            Out::Ok { v, ecc, mask, bytes } => {
                want.push_str(&format!("ok {v} {ecc} {mask} "));
                for b in bytes {
                    want.push_str(&format!("{b:02x}"));
                }
            }
            Out::Err(e, _) => want.push_str(&format!("err {e:?}")),
        }
        want.push('\n');
    }
    want.push_str("end\n");
    want
}

fn other_process(mut c: std::process::Command, im: &Img) -> Result<(String, String), String> {
    use std::io::Write;
    let mut c = c
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| format!("harness: {e}"))?;
    {
        let mut s = c.stdin.take().unwrap();
        let _ = s.write_all(format!("{} {}\n", im.w, im.h).as_bytes());
        let _ = s.write_all(&im.p);
    }
    let out = c.wait_with_output().map_err(|e| format!("harness: {e}"))?;
    Ok((String::from_utf8_lossy(&out.stdout).to_string(), out.status.to_string()))
}

/// the crate built without its image feature, in another process
pub fn c16_noimg(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let exe = match std::env::var("VH_NOIMG") {
        Ok(e) => e,
        Err(_) => return Err("harness: VH_NOIMG is not set".into()),
    };
    let (what, im) = if i % 50 == 3 { long_picture(r, i / 50) } else { any_picture(r, i) };
    let ctx = format!("{what}, {}x{}", im.w, im.h);
    let base = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    let (got, status) = other_process(std::process::Command::new(exe), &im)?;
    let want = text(&base);
    if got != want {
        return Err(format!("{ctx}: with the image feature {want:?}, without {got:?} ({status})"));
    }
    o.hit("pictures compared with the build without images");
    o.distinct(hash(&("noimg", px_hash(&im))));
    Ok(())
}

// ---- C17

pub fn c17_again(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (what, im) = any_picture(r, i);
    let (_, other) = any_picture(r, i / 4);
    let ctx = format!("{what}, {}x{}", im.w, im.h);
    guard(|| -> Res {
        let fresh = PreparedImage::prepare(im.gray());
        let (mut a, mut b) = (fresh.clone(), fresh.clone());
        let ra = {
            let g = a.detect_grids();
            let one = all_grids(&g);
            // decoding again, in another order, changes nothing
            let mut two: Vec<Found> = g.iter().rev().map(|g| all_grids(std::slice::from_ref(g)).remove(0)).collect();
            two.reverse();
            cmp(&ctx, &one, &two, "decoding again")?;
            o.add("grids decoded again", one.len() as u64);
            one
        };
        // another picture in between
        {
            let mut q = PreparedImage::prepare(other.gray());
            let g = q.detect_grids();
            let _ = all_grids(&g);
        }
        let rb = {
            let g = b.detect_grids();
            all_grids(&g)
        };
        cmp(&ctx, &ra, &rb, "a copy searched after another picture")?;
        let rc = {
            let mut c = PreparedImage::prepare(im.gray());
            let g = c.detect_grids();
            all_grids(&g)
        };
        cmp(&ctx, &ra, &rc, "preparing again")?;
        // what was found before, and what a second search of the same image finds, is a function
        // of the history of that image alone
        let mut a2 = a.clone();
        let r1 = {
            let g = a.detect_grids();
            all_grids(&g)
        };
        let r2 = {
            let g = a2.detect_grids();
            all_grids(&g)
        };
        let r3 = {
            let g = b.detect_grids();
            all_grids(&g)
        };
        cmp(&ctx, &r1, &r2, "the second search of a copy")?;
        cmp(&ctx, &r1, &r3, "the second search of a twin")?;
        o.add("grids of second searches", r1.len() as u64);
        Ok(())
    })
    .map_err(|e| format!("{ctx}: {e}"))??;
    o.hit("pictures searched repeatedly");
    o.distinct(px_hash(&im));
    o.sample(|| ctx);
    Ok(())
}

/// the black and white of a picture: in a thread that has seen nothing, here, and after others
pub fn c17_prepare(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (what, im) = match i % 4 {
        0 => {
            // dark, narrow pictures: little luminance, little memory
            let (w, h) = (r.range(1, 40), r.range(1, 30));
            let mut im = Img::new(w, h, 0);
            let top = r.range(1, 60) as u64;
            for p in im.p.iter_mut() {
                *p = (r.u64() % top) as u8;
            }
            ("dark noise".to_string(), im)
        }
        _ => lum_picture(r, i),
    };
    let (before, other) = match i % 5 {
        0 => ("white".to_string(), Img::new(r.range(1, 60), r.range(1, 60), 255)),
        1 => ("black".to_string(), Img::new(r.range(1, 60), r.range(1, 60), 0)),
        2 => ("same size".to_string(), Img::new(im.w, im.h, r.u64() as u8)),
        _ => lum_picture(r, i / 5),
    };
    let ctx = format!("{what}, {}x{}", im.w, im.h);
    let st = |im: &Img| {
        guard(|| {
            let p = PreparedImage::prepare(im.gray());
            state_of(&p, im.w, im.h)
        })
    };
    let fresh = std::thread::scope(|s| s.spawn(|| st(&im)).join().unwrap_or_else(|_| Err("a preparing thread panicked".into())))?;
    for (k, when) in ["in a thread with a past", "once more", "after another picture"].iter().enumerate() {
        if k == 2 {
            st(&other)?;
        }
        let now = st(&im)?;
        if let Some(d) = (0..fresh.len()).find(|&d| fresh[d] != now[d]) {
            let what = if k == 2 { format!(" ({before}, {}x{})", other.w, other.h) } else { String::new() };
            return Err(format!("{ctx}: pixel ({},{}) is prepared differently {when}{what}", d % im.w, d / im.w));
        }
    }
    o.add("prepared pixels compared", 3 * fresh.len() as u64);
    o.distinct(hash(&("prep", px_hash(&im))));
    Ok(())
}

struct QuitWriter(usize);
impl std::io::Write for QuitWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            panic!("the writer gives up");
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// calls ended half way by a panic in the user's own code leave nothing behind
pub fn c17_unwound(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (what, im) = any_picture(r, i);
    let (_, other) = any_picture(r, i / 3);
    let ctx = format!("{what}, {}x{}", im.w, im.h);
    let before = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    let mut cut = 0;
    for src in [&other, &im] {
        // how long it takes; then a buffer that gives up half way
        monbuf::reset(0);
        let steps = || monbuf::with(|m| m.reads + m.writes + m.dims);
        let mut p = guard(|| PreparedImage::prepare(MonBuf::new(src)))?;
        let t0 = steps();
        guard(|| all_grids(&p.detect_grids()).len())?;
        let t1 = steps();
        for k in 0..4 {
            let lo = if k == 0 { 1 } else { t0 };
            let hi = if k == 0 { t0 } else { t1 };
            monbuf::reset(r.range(lo as usize, hi.max(lo) as usize).max(1) as u64);
            let e = guard(|| {
                let mut p = PreparedImage::prepare(MonBuf::new(src));
                let g = p.detect_grids();
                all_grids(&g).len()
            });
            cut += e.is_err() as u64;
        }
    }
    // a writer that gives up
    {
        let mut p = PreparedImage::prepare(im.gray());
        let g = guard(|| p.detect_grids())?;
        for g in &g {
            let n = r.below(20);
            cut += guard(|| g.decode_to(QuitWriter(n))).is_err() as u64;
        }
        let again = all_grids(&g);
        cmp(&ctx, &before, &again, "after a writer that panicked")?;
    }
    let after = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    cmp(&ctx, &before, &after, "after calls that were unwound")?;
    o.add("calls unwound half way", cut);
    o.distinct(hash(&("unwound", px_hash(&im))));
    Ok(())
}

/// a process that reads one picture, and this one that has read many
pub fn c17_process(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (what, im) = any_picture(r, i);
    let ctx = format!("{what}, {}x{}", im.w, im.h);
    let here = text(&read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?);
    let exe = std::env::current_exe().map_err(|e| format!("harness: {e}"))?;
    let mut c = std::process::Command::new(exe);
    c.arg("read");
    let (there, status) = other_process(c, &im)?;
    if here != there {
        return Err(format!("{ctx}: {here:?} in a process with a past, {there:?} in a new one ({status})"));
    }
    o.hit("pictures read in new processes");
    o.distinct(hash(&("proc", px_hash(&im))));
    Ok(())
}

/// the other side of [`c17_process`]
pub fn read_stdin() -> i32 {
    use std::io::Read;
    let mut b = Vec::new();
    if std::io::stdin().read_to_end(&mut b).is_err() {
        return 3;
    }
    let nl = b.iter().position(|&c| c == b'\n').unwrap();
    let head = String::from_utf8(b[..nl].to_vec()).unwrap();
    let mut it = head.split(' ').map(|x| x.parse::<usize>().unwrap());
    let (w, h) = (it.next().unwrap(), it.next().unwrap());
    match read_gray(&Img { w, h, p: b[nl + 1..].to_vec() }) {
        Ok(f) => print!("{}", text(&f)),
        Err(e) => println!("{e}"),
    }
    0
}

/// many threads, one set of grids; many threads, many pictures
pub fn c17_threads(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let k = 6;
    let pics: Vec<Img> = (0..k).map(|j| any_picture(r, i + j).1).collect();
    let alone: Vec<Vec<Found>> = pics.iter().map(read_gray).collect::<Result<_, _>>()?;
    let spin = r.below(4);
    let res: Vec<Res> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4usize)
            .map(|t| {
                let (pics, alone) = (&pics, &alone);
                s.spawn(move || -> Res {
                    for j in 0..k as usize {
                        let j = (j + t * (spin + 1)) % k as usize;
                        if (t + j) % 3 == spin % 3 {
                            std::thread::yield_now();
                        }
                        let f = read_gray(&pics[j])?;
                        cmp(&format!("picture {j} in thread {t}"), &alone[j], &f, "reading in parallel")?;
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a reading thread panicked".into()))).collect()
    });
    for x in res {
        x?;
    }
    // one detection, grids decoded by several threads at once
    for (im, want) in pics.iter().zip(&alone) {
        let r: Res = guard(|| {
            let mut p = PreparedImage::prepare(im.gray());
            let g = p.detect_grids();
            let res: Vec<Res> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..4)
                    .map(|t| {
                        let g = &g;
                        s.spawn(move || {
                            for _ in 0..2 {
                                let f = guard(|| all_grids(g))?;
                                cmp(&format!("thread {t}"), want, &f, "decoding in parallel")?;
                            }
                            Ok(())
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a decoding thread panicked".into()))).collect()
            });
            res.into_iter().collect::<Result<Vec<()>, String>>().map(|_| ())
        })?;
        r?;
        o.add("grids decoded by four threads at once", want.len() as u64);
    }
    o.add("pictures read by four threads at once", k);
    o.distinct(hash(&("thr", i)));
    Ok(())
}

/// the decoding functions: same grid, same answer, whatever was decoded before
pub fn c17_decode(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let mut ms = vec![];
    for _ in 0..6 {
        let v = r.range(1, if i % 8 == 0 { 40 } else { 8 });
        let s = gen::symbol(r, v, *r.clone().pick(&ECLS), r.clone().below(8) as u16);
        let mut m = s.m.clone();
        match r.below(4) {
            0 => m = m.transpose(),
            1 => {
                for _ in 0..r.below(m.n * m.n / 8) {
                    let (y, x) = (r.below(m.n), r.below(m.n));
                    m.flip(y, x);
                }
            }
            _ => {}
        }
        ms.push(m);
    }
    let first: Vec<Out> = ms.iter().map(gen::rq).collect::<Result<_, _>>()?;
    for round in 0..3 {
        for k in 0..ms.len() {
            let j = match round {
                0 => ms.len() - 1 - k,
                1 => (k * 5) % ms.len(),
                _ => r.below(ms.len()),
            };
            let again = gen::rq(&ms[j])?;
            if again != first[j] {
                return Err(format!("a grid of size {} decodes as {} first and {} later", ms[j].n, first[j].short(), again.short()));
            }
            o.hit("grids decoded repeatedly");
        }
    }
    o.distinct(hash(&("dec", i)));
    Ok(())
}

// ---- C19

/// The rule of preparation in real numbers: how bright the surroundings of each pixel are.
/// rqrr computes with integers; rounding down moves its threshold by less than two grey levels.
fn surroundings(im: &Img) -> Vec<f64> {
    let (w, h) = (im.w, im.h);
    let s = (w / 8).max(1) as f64;
    let keep = (s - 1.0) / s;
    let mut t = vec![0.0; w * h];
    // two trains of averages run over the rows, in opposite directions, turning at every row end
    for train in 0..2 {
        let mut a = 0.0;
        for y in 0..h {
            let forward = (y % 2 == 0) == (train == 0);
            for k in 0..w {
                let x = if forward { k } else { w - 1 - k };
                a = a * keep + im.at(x, y) as f64;
                t[y * w + x] += a / s / 2.0;
            }
        }
    }
    t
}

/// pictures of all grey levels, smooth and rough
pub fn lum_picture(r: &mut Rng, i: u64) -> (String, Img) {
    match i % 3 {
        0 => any_picture(r, r.clone().u64()),
        1 => {
            // smooth and rough luminance
            let (w, h) = (r.range(1, 150), r.range(1, 60));
            let mut im = Img::new(w, h, 0);
            let (a, b, c) = (r.frange(0.0, 0.2), r.frange(0.0, 0.2), r.frange(0.0, 130.0));
            let n = r.frange(0.0, 80.0);
            for y in 0..h {
                for x in 0..w {
                    let v = 128.0 + c * ((x as f64 * a).sin() * (y as f64 * b).cos()) + r.frange(-n, n);
                    im.set(x, y, v.clamp(0.0, 255.0) as u8);
                }
            }
            ("waves".to_string(), im)
        }
        _ => {
            let (w, h) = (r.range(1, 200), r.range(1, 40));
            let mut im = Img::new(w, h, r.u64() as u8);
            for _ in 0..r.below(30) {
                let (x, y) = (r.irange(0, w as i64), r.irange(0, h as i64));
                let (a, b) = (r.irange(1, 60), r.irange(1, 20));
                let c = r.u64() as u8;
                im.rect(x, y, a, b, c);
            }
            ("boxes".to_string(), im)
        }
    }
}

/// pictures of the size of a photograph or a long scan: boxes and stripes of all shades on paper of
/// uneven brightness, and some symbols
pub fn large_picture(r: &mut Rng, i: u64) -> (String, Img) {
    let (w, h) = match i % 4 {
        0 => (r.range(2000, 30000), r.range(30, 60)),
        1 => (r.range(30, 60), r.range(2000, 30000)),
        2 => (r.range(1030, 3000), r.range(1030, 1600)),
        _ => (r.range(1030, 1600), r.range(1030, 3000)),
    };
    let mut im = Img::new(w, h, 255);
    let (hi, lo) = (r.range(200, 255) as f64, r.range(100, 200) as f64);
    let (a, b) = (r.frange(0.5, 6.0) / w as f64, r.frange(0.5, 6.0) / h as f64);
    let flat = i % 8 < 4;
    for y in 0..h {
        for x in 0..w {
            let k = if flat { 1.0 } else { ((x as f64 * a).sin() * (y as f64 * b).cos() + 1.0) / 2.0 };
            im.set(x, y, (lo + (hi - lo) * k) as u8);
        }
    }
    for _ in 0..r.range(10, 200) {
        let (x, y) = (r.irange(-20, w as i64), r.irange(-20, h as i64));
        let (a, b) = (r.irange(1, 1 + w as i64 / 20), r.irange(1, 1 + h as i64 / 20));
        let c = if r.bool() { r.below(100) as u8 } else { r.u64() as u8 };
        im.rect(x, y, a, b, c);
    }
    // pale writing over the whole width
    let (t, g) = (r.irange(3, 12), r.irange(8, 60));
    let y = r.irange(0, h as i64 - 1);
    let c = (hi * r.frange(0.7, 0.93)) as u8;
    let mut x = 0;
    while x < w as i64 {
        im.rect(x, y, t, 12, c);
        x += t + g;
    }
    for _ in 0..r.below(5) {
        let v = r.range(1, 2);
        let m = gen::symbol(r, v, *r.clone().pick(&ECLS), r.clone().below(8) as u16).m;
        let n = m.n + 4;
        if n < w && n < h {
            let (x, y) = (r.below(w - n), r.below(h - n));
            im.rect(x as i64, y as i64, n as i64, n as i64, hi as u8);
            im.code(&m, 1, x + 2, y + 2, 0, hi as u8);
        }
    }
    ("large".to_string(), im)
}

pub fn c19_rule(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (what, im) = lum_picture(r, i);
    c19_judge(&im, what, o)
}

pub fn c19_large(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (what, im) = large_picture(r, i);
    o.hit("large pictures");
    o.max("longest side", im.w.max(im.h) as f64);
    c19_judge(&im, what, o)
}

fn c19_judge(im: &Img, what: String, o: &mut Obs) -> Res {
    let ctx = format!("{what}, {}x{}", im.w, im.h);
    monbuf::reset(0);
    let s = guard(|| {
        let p = PreparedImage::prepare(MonBuf::new(im));
        state_of(&p, im.w, im.h)
    })
    .map_err(|e| format!("{ctx}: {e}"))?;
    mon_verdict().map_err(|e| format!("{ctx}: {e}"))?;
    let t = surroundings(im);
    let (mut dark, mut light, mut close) = (0, 0, 0);
    for k in 0..im.w * im.h {
        let (v, thr) = (im.p[k] as f64, t[k] * 0.95);
        let want = if v < thr - 2.0 {
            1
        } else if v > thr {
            0
        } else {
            close += 1;
            continue;
        };
        if s[k] != want {
            return Err(format!(
                "{ctx}: pixel ({},{}) has luminance {v}, its surroundings {:.1}, but is {}",
                k % im.w,
                k / im.w,
                t[k],
                if s[k] == 1 { "black" } else { "white" }
            ));
        }
        if want == 1 {
            dark += 1
        } else {
            light += 1
        }
    }
    o.add("pixels that must be black", dark);
    o.add("pixels that must be white", light);
    o.add("pixels within rounding of the threshold", close);
    o.distinct(px_hash(im));
    o.sample(|| ctx);
    Ok(())
}

/// drawings in two clearly different levels keep their shape
pub fn c19_levels(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = 1 + (i % 20) as usize;
    let s = gen::symbol(r, v, *r.clone().pick(&ECLS), r.clone().below(8) as u16);
    let sc = r.range(1, 6);
    let light = r.range(60, 255);
    let dark = (light as f64 * r.frange(0.0, 0.6)) as u8;
    let q = sc * r.range(1, 6);
    let m = orient(&s.m, r.below(4), r.bool());
    let n = m.n * sc + 2 * q;
    let mut im = Img::new(n, n, light as u8);
    im.code(&m, sc, q, q, dark, light as u8);
    let ctx = format!("symbol {} drawn {sc} px/module with levels {dark}/{light}", s.name());
    let st = guard(|| {
        let p = PreparedImage::prepare(im.gray());
        state_of(&p, n, n)
    })
    .map_err(|e| format!("{ctx}: {e}"))?;
    let bad = (0..n * n).filter(|&k| (st[k] == 1) != (im.p[k] == dark)).count();
    o.max("pixels changed per picture", bad as f64);
    o.rate("two-level drawings kept exactly", bad == 0, || format!("{ctx}: {bad} pixels changed"));
    o.distinct(px_hash(&im));
    Ok(())
}

/// a bitmap function is taken as it is, a blank page stays blank
pub fn c19_exact(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (w, h) = (r.range(0, 90), r.range(0, 60));
    let p = r.f();
    let bits: Vec<bool> = (0..w * h).map(|_| r.chance(p)).collect();
    let e = guard(|| -> Res {
        let im = PreparedImage::prepare_from_bitmap(w, h, |x, y| bits[y * w + x]);
        if (im.width(), im.height()) != (w, h) {
            return Err(format!("a {w}x{h} bitmap became {}x{}", im.width(), im.height()));
        }
        for y in 0..h {
            for x in 0..w {
                if code(&im.get_pixel_at(x, y)) != bits[y * w + x] as u8 {
                    return Err(format!("pixel ({x},{y}) of a {w}x{h} bitmap is wrong"));
                }
            }
        }
        let v = r.u64() as u8;
        let im = PreparedImage::prepare_from_greyscale(w, h, |_, _| v);
        for y in 0..h {
            for x in 0..w {
                if code(&im.get_pixel_at(x, y)) != 0 {
                    return Err(format!("blank page of luminance {v}, {w}x{h}: pixel ({x},{y}) is black"));
                }
            }
        }
        Ok(())
    })?;
    e?;
    o.add("bitmap pixels compared", (w * h) as u64);
    o.distinct(hash(&("exact", w, h, i)));
    Ok(())
}

// ---- C21

struct Scratch(std::path::PathBuf);

impl Scratch {
    fn new(o: &Obs) -> Scratch {
        let d = std::env::temp_dir().join(format!("vh-{}-{:x}", std::process::id(), hash(&o.cur)));
        let _ = std::fs::create_dir_all(&d);
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn c21_dumps(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (what, im) = any_picture(r, i);
    c21_judge(r, o, what, im)
}

pub fn c21_large(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (what, im) = large_picture(r, i);
    o.hit("large pictures");
    c21_judge(r, o, what, im)
}

fn c21_judge(r: &mut Rng, o: &mut Obs, what: String, im: Img) -> Res {
    let ctx = format!("{what}, {}x{}", im.w, im.h);
    let d = Scratch::new(o);
    let f = d.0.join("a.png");
    let fs = f.to_str().unwrap();
    let (w, h) = (im.w, im.h);
    guard(|| -> Res {
        let mut p = PreparedImage::prepare(im.gray());
        for round in 0..2 {
            p.write_state_to(fs);
            let png = image::open(&f).map_err(|e| format!("the state picture cannot be read: {e}"))?.to_rgb8();
            if (png.width() as usize, png.height() as usize) != (w, h) {
                return Err(format!("the state picture of a {w}x{h} image is {}x{}", png.width(), png.height()));
            }
            let s = state_of(&p, w, h);
            let mut col: std::collections::HashMap<[u8; 3], u8> = Default::default();
            for y in 0..h {
                for x in 0..w {
                    let (c, v) = (png.get_pixel(x as u32, y as u32).0, s[y * w + x]);
                    let ok = match v {
                        0 => c == [255, 255, 255],
                        1 => c == [0, 0, 0],
                        _ => c != [255, 255, 255] && c != [0, 0, 0],
                    };
                    if !ok {
                        return Err(format!("pixel ({x},{y}) of state {v} is drawn {c:?}"));
                    }
                    if v > 1 {
                        // one colour per shade; shades may share colours
                        let _ = col.entry(c).or_insert(v);
                    }
                }
            }
            let mut per: [Option<[u8; 3]>; 256] = [None; 256];
            for k in 0..w * h {
                let c = png.get_pixel((k % w) as u32, (k / w) as u32).0;
                let e = per[s[k] as usize].get_or_insert(c);
                if *e != c {
                    return Err(format!("state {} is drawn in two colours", s[k]));
                }
            }
            o.add("state pixels compared", (w * h) as u64);
            o.max("colours in a state picture", col.len() as f64);
            if round == 0 {
                let gs = p.detect_grids();
                for g in &gs {
                    dump_grid(&g.grid, &f, o)?;
                    let n = g.grid.size();
                    let sg = rqrr::SimpleGrid::from_func(n, |x, y| g.grid.bit(y, x));
                    dump_grid(&sg, &f, o)?;
                }
            }
        }
        Ok(())
    })
    .map_err(|e| format!("{ctx}: {e}"))?
    .map_err(|e| format!("{ctx}: {e}"))?;
    let v = r.range(1, 40);
    let n = 4 * v + 17;
    let bits: Vec<bool> = (0..n * n).map(|_| r.bool()).collect();
    guard(|| dump_grid(&OwnGrid { n, bits: bits.clone() }, &f, o))??;
    o.distinct(px_hash(&im));
    Ok(())
}

fn dump_grid(g: &dyn BitGrid, f: &std::path::Path, o: &mut Obs) -> Res {
    g.write_grid_to(f.to_str().unwrap());
    let png = image::open(f).map_err(|e| format!("the grid picture cannot be read: {e}"))?.to_luma8();
    let n = g.size();
    if (png.width() as usize, png.height() as usize) != (n, n) {
        return Err(format!("the picture of a grid of size {n} is {}x{}", png.width(), png.height()));
    }
    for y in 0..n {
        for x in 0..n {
            let want = if g.bit(y, x) { 0 } else { 255 };
            if png.get_pixel(x as u32, y as u32).0[0] != want {
                return Err(format!("module ({y},{x}) of a grid of size {n} is drawn wrong"));
            }
        }
    }
    o.add("grid modules compared", (n * n) as u64);
    Ok(())
}

// ---- C22

struct Work {
    steps: u64,
    clones: u64,
    heap: alloc::Heap,
    f: Vec<Found>,
}

fn work(im: &Img, limit: u64) -> Result<Work, String> {
    monbuf::reset(limit);
    let buf = MonBuf::new(im);
    let (r, heap) = alloc::measure(|| {
        guard(|| {
            let mut p = PreparedImage::prepare(buf);
            let g = p.detect_grids();
            all_grids(&g)
        })
    });
    let f = r?;
    let own: i64 = f
        .iter()
        .map(|x| match &x.out {
            Out::Ok { bytes, .. } => bytes.capacity() as i64,
            Out::Err(_, w) => w.capacity() as i64,
        })
        .sum::<i64>()
        + (f.capacity() * std::mem::size_of::<Found>()) as i64;
    let (steps, clones) = monbuf::with(|m| (m.reads + m.writes + m.dims, m.clones));
    // the buffer itself was allocated outside and is dropped inside
    let heap = alloc::Heap { left: heap.left - own + im.p.len() as i64, ..heap };
    Ok(Work { steps, clones, heap, f })
}

/// memory: a fixed part, a small multiple of the picture, and nothing left
fn heap_ok(w: &Work, px: usize) -> Res {
    let lim = 200_000 + 40 * px as i64;
    if w.heap.peak > lim {
        return Err(format!("{} bytes of heap at the peak for {px} pixels", w.heap.peak));
    }
    if w.heap.left > 512 {
        return Err(format!("{} bytes of heap still held after everything was dropped", w.heap.left));
    }
    Ok(())
}

pub fn c22_symbols(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = 1 + (i % 40) as usize;
    let Some(s) = plain_symbol(r, v) else { return Ok(()) };
    let sc = r.range(2, 6);
    let q = sc * r.range(1, 8);
    let m = orient(&s.m, r.below(4), r.bool());
    let n = m.n * sc + 2 * q;
    let mut im = Img::new(n, n, 255);
    im.code(&m, sc, q, q, 0, 255);
    let ctx = format!("symbol {} at {sc} px/module in {n}x{n}", s.name());
    let w = work(&im, 3000 * (n * n) as u64).map_err(|e| format!("{ctx}: {e}"))?;
    let per = w.steps as f64 / (n * n) as f64;
    if per > 1500.0 {
        return Err(format!("{ctx}: {per:.0} pixel accesses per pixel"));
    }
    heap_ok(&w, n * n).map_err(|e| format!("{ctx}: {e}"))?;
    if w.f.len() != 1 || w.f[0].out != s.expect() {
        return Err(format!("{ctx}: measured, but not read: {}", list(&w.f)));
    }
    o.max("symbols: accesses per pixel", per);
    o.max("symbols: copies of the picture", w.clones as f64);
    o.max("symbols: peak heap per pixel", w.heap.peak as f64 / (n * n) as f64);
    o.max("symbols: heap left", w.heap.left as f64);
    o.max("symbols: -heap left", -w.heap.left as f64);
    o.max("symbols: allocations", w.heap.allocs as f64);
    o.hit("symbol pictures measured");
    o.distinct(px_hash(&im));
    o.sample(|| format!("{ctx}: {per:.1} accesses per pixel, peak {} bytes", w.heap.peak));
    Ok(())
}

pub fn c22_hostile(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (k, im) = hostile::make_kind(r, 160, (i % hostile::KINDS.len() as u64) as usize);
    let ctx = format!("{k} {}x{}", im.w, im.h);
    let px = (im.w * im.h) as f64;
    let w = work(&im, 400_000 * px.max(400.0) as u64).map_err(|e| format!("{ctx}: {e}"))?;
    let lim = px.max(400.0) * (8000.0 + 1500.0 * w.clones as f64);
    if w.steps as f64 > lim {
        return Err(format!("{ctx}: {} pixel accesses, {} trial copies", w.steps, w.clones));
    }
    if w.clones > 5000 {
        return Err(format!("{ctx}: {} copies of the picture", w.clones));
    }
    heap_ok(&w, im.w * im.h).map_err(|e| format!("{ctx}: {e}"))?;
    o.hit("hostile pictures measured");
    o.max(&format!("{k}: accesses per pixel"), w.steps as f64 / px.max(400.0));
    o.max(&format!("{k}: accesses per pixel per copy"), w.steps as f64 / px.max(400.0) / (w.clones + 4) as f64);
    o.max(&format!("{k}: copies"), w.clones as f64);
    o.max("hostile: peak heap per pixel", (w.heap.peak as f64 - 60000.0) / px.max(400.0));
    o.max("hostile: heap left", w.heap.left as f64);
    o.max("hostile: -heap left", -w.heap.left as f64);
    o.distinct(px_hash(&im));
    Ok(())
}

/// twice the resolution, four times the pixels: no more than about four times the work
pub fn c22_scaling(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = 1 + (i % 12) as usize;
    let Some(s) = plain_symbol(r, v) else { return Ok(()) };
    let q = r.range(1, 20);
    let m = orient(&s.m, r.below(4), r.bool());
    let mut last = 0.0;
    for sc in [3, 6, 12] {
        let n = (m.n + 2 * q) * sc;
        let mut im = Img::new(n, n, 255);
        im.code(&m, sc, q * sc, q * sc, 0, 255);
        let w = work(&im, 3000 * (n * n) as u64)?;
        let st = w.steps as f64;
        heap_ok(&w, n * n)?;
        if last > 0.0 {
            if st / last > 6.0 {
                return Err(format!("symbol {} from {} to {sc} px/module: {last} accesses become {st}", s.name(), sc / 2));
            }
            o.max("scaling: work at twice the resolution", st / last);
        }
        last = st;
    }
    o.hit("scalings measured");
    o.distinct(hash(&("scal", i)));
    Ok(())
}

/// hostile pictures at growing resolution: the same work for each pixel
pub fn c22_growth(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let k = (i % (hostile::KINDS.len() as u64 + 1)) as usize;
    let (name, im) = if k == hostile::KINDS.len() {
        // a row or two of look-alikes beside each other
        let mut im = Img::new(r.range(60, 200), r.range(12, 40), 255);
        let mut y = 2;
        while y + 11 < im.h {
            let mut x = r.range(1, 9);
            while x + 9 < im.w {
                for (a, l) in [(0, 1), (2, 3), (6, 1)] {
                    im.rect((x + a) as i64, y as i64, l, 9, 0);
                }
                x += r.range(8, 14);
            }
            y += 12;
        }
        ("rows of look-alikes", im)
    } else {
        hostile::make_kind(r, 70, k)
    };
    if im.w * im.h > 20_000 || im.w * im.h < 64 {
        return Ok(());
    }
    let mut per = vec![];
    for z in [2, 4, 8] {
        let mut big = Img::new(im.w * z, im.h * z, 255);
        for y in 0..big.h {
            for x in 0..big.w {
                big.set(x, y, im.at(x / z, y / z));
            }
        }
        let px = (big.w * big.h) as f64;
        let w = work(&big, 400_000 * px.max(400.0) as u64).map_err(|e| format!("{name} {}x{}: {e}", big.w, big.h))?;
        // each trial grouping may look at the whole picture again
        per.push((w.steps as f64 / px, w.clones as f64));
        heap_ok(&w, big.w * big.h).map_err(|e| format!("{name} {}x{}: {e}", big.w, big.h))?;
    }
    for j in 1..per.len() {
        let (a, b) = (per[j - 1], per[j]);
        let f = b.0 / a.0 / ((b.1 + 4.0) / (a.1 + 4.0)).max(1.0);
        o.max(&format!("growth of the work per pixel: {name}"), f);
        // with whole symbols, resolution decides which groupings are followed how far
        if f > 3.0 && !["qrdamage", "qrwarp", "tiles"].contains(&name) {
            return Err(format!("{name} {}x{}: at twice, four and eight times the resolution {per:?} accesses per pixel and trial copies", im.w, im.h));
        }
    }
    o.hit("growths measured");
    o.distinct(px_hash(&im));
    Ok(())
}

/// regions that wind through the whole picture: no deep recursion (the thread has 512 KiB of stack)
pub fn c22_maze(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let n = if o.thorough { r.range(200, 1200) } else { r.range(200, 600) };
    let mut im = Img::new(n, n, 255);
    let kind = match i % 4 {
        0 => {
            // spiral
            let g = r.range(2, 6) as i64;
            let (mut a, mut b) = (0i64, n as i64);
            while b - a > 4 * g {
                im.rect(a, a, b - a, g, 0);
                im.rect(b - g, a, g, b - a, 0);
                im.rect(a, b - g, b - a, g, 0);
                im.rect(a, a + 2 * g, g, b - a - 2 * g, 0);
                im.rect(a, a + 2 * g, 2 * g + g, g, 0);
                a += 2 * g;
                b -= 2 * g;
            }
            "spiral"
        }
        1 => {
            // comb
            im.rect(0, 0, n as i64, 2, 0);
            let g = r.range(1, 4);
            for x in (0..n).step_by(2 * g) {
                im.rect(x as i64, 0, g as i64, n as i64 - (x % 3) as i64, 0);
            }
            "comb"
        }
        2 => {
            // serpentine
            let g = r.range(1, 3);
            for (k, y) in (0..n).step_by(2 * g).enumerate() {
                im.rect(0, y as i64, n as i64, g as i64, 0);
                let x = if k % 2 == 0 { n - g } else { 0 };
                im.rect(x as i64, y as i64, g as i64, 2 * g as i64, 0);
            }
            "serpentine"
        }
        _ => {
            // checkers joined at random: one huge ragged region
            for y in 0..n {
                for x in 0..n {
                    if (x + y) % 2 == 0 || r.chance(0.6) {
                        im.set(x, y, 0);
                    }
                }
            }
            "ragged"
        }
    };
    // finders inside, so that the regions are looked at
    let f = hostile::finder();
    for _ in 0..6 {
        let s = r.range(1, 4);
        let (x, y) = (r.below(n - 9 * s), r.below(n - 9 * s));
        im.rect(x as i64, y as i64, 9 * s as i64, 9 * s as i64, 255);
        im.code(&f, s, x + s, y + s, 0, 255);
        // tie the ring to the maze
        im.rect(x as i64, (y + 4 * s) as i64, s as i64, 1, 0);
    }
    let ctx = format!("{kind} {n}x{n}");
    let im2 = to01(&im);
    let lim = budget(n, n);
    let (tx, rx) = std::sync::mpsc::channel();
    let h = std::thread::Builder::new()
        .stack_size(512 << 10)
        .spawn(move || {
            monbuf::reset(lim);
            let r = guard(|| {
                let mut p = PreparedImage::without_preparation(MonBuf::new(&im2));
                let g = p.detect_grids();
                all_grids(&g).len()
            });
            let _ = tx.send((r, monbuf::with(|m| m.reads + m.writes + m.dims)));
        })
        .map_err(|e| format!("harness: {e}"))?;
    let (r_, steps) = rx.recv().map_err(|e| format!("{ctx}: {e}"))?;
    let _ = h.join();
    r_.map_err(|e| format!("{ctx}: {e}"))?;
    if steps > 200 * (n * n) as u64 {
        return Err(format!("{ctx}: {} pixel accesses per pixel", steps / (n * n) as u64));
    }
    o.max("maze: accesses per pixel", steps as f64 / (n * n) as f64);
    o.hit(&format!("mazes: {kind}"));
    o.distinct(hash(&("maze", i)));
    Ok(())
}

/// decoding: reads of modules, heap, and nothing kept
pub fn c22_decode(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = 1 + (i % 40) as usize;
    let s = gen::symbol(r, v, *r.clone().pick(&ECLS), r.clone().below(8) as u16);
    let mut m = s.m.clone();
    match i / 40 % 4 {
        1 => m = m.transpose(),
        2 => {
            for _ in 0..r.below(m.n * m.n / 4) {
                let (y, x) = (r.below(m.n), r.below(m.n));
                m.flip(y, x);
            }
        }
        3 => {
            for b in m.d.iter_mut() {
                *b = r.bool();
            }
        }
        _ => {}
    }
    let g = rqrr::Grid::new(gen::MonGrid::new(&m));
    let ((r1, n1), h) = alloc::measure(|| {
        let mut w = Null(0);
        let r = guard(|| g.decode_to(&mut w).is_ok());
        (r, w.0)
    });
    let ok = r1?;
    let reads = g.grid.reads.get();
    if reads > 8 * (m.n * m.n) as u64 + 400 {
        return Err(format!("decoding a grid of size {} reads {reads} modules", m.n));
    }
    if h.peak > 200_000 || h.left > 512 {
        return Err(format!("decoding a grid of size {} takes {} bytes of heap and keeps {}", m.n, h.peak, h.left));
    }
    // numeric payload is the longest: 3 digits per 10 bits
    if n1 > (m.n * m.n) as u64 {
        return Err(format!("decoding a grid of size {} writes {n1} bytes", m.n));
    }
    o.max("decode: module reads per module", reads as f64 / (m.n * m.n) as f64);
    o.max("decode: peak heap", h.peak as f64);
    o.max("decode: heap left", h.left as f64);
    o.max("decode: bytes written", n1 as f64);
    o.hit(if ok { "grids decoded" } else { "grids refused" });
    o.distinct(hash(&("work", i)));
    Ok(())
}

struct Null(u64);
impl std::io::Write for Null {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// pictures of many thousand pixels a side, a few symbols and much else in them
pub fn c22_large(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (what, im) = large_picture(r, i);
    let ctx = format!("{what} {}x{}", im.w, im.h);
    let px = (im.w * im.h) as f64;
    let w = work(&im, 4_000 * px as u64).map_err(|e| format!("{ctx}: {e}"))?;
    let per = w.steps as f64 / px / (w.clones + 4) as f64;
    if per > 40.0 || w.clones > 500 {
        return Err(format!("{ctx}: {} pixel accesses, {} trial copies", w.steps, w.clones));
    }
    if w.heap.peak as f64 > 200_000.0 + 5.0 * px {
        return Err(format!("{ctx}: {} bytes of heap at the peak", w.heap.peak));
    }
    o.max("large: accesses per pixel", w.steps as f64 / px);
    o.max("large: accesses per pixel per copy", per);
    o.max("large: copies", w.clones as f64);
    o.max("large: peak heap per pixel", w.heap.peak as f64 / px);
    heap_ok(&w, im.w * im.h).map_err(|e| format!("{ctx}: {e}"))?;
    o.hit("large pictures measured");
    o.distinct(px_hash(&im));
    Ok(())
}
