//! Several symbols in one picture (C13), corner points (C15), sampled modules (C23).
use crate::enc::Mat;
use crate::gen::{Out, Sym};
use crate::p_detect::{bounds_of, orient, plain_symbol, read_gray, read_mon, Found};
use crate::render::{warp, Img, H};
use crate::rng::Rng;
use crate::run::{guard, hash, Obs, Res};
use rqrr::{BitGrid, PreparedImage};

fn list(f: &[Found]) -> String {
    if f.is_empty() {
        return "no grid".into();
    }
    f.iter().take(8).map(|x| x.short()).collect::<Vec<_>>().join("; ")
}

/// what a picture of several symbols must give: every symbol once, nothing else
fn judge(name: Option<&str>, syms: &[Sym], f: &[Found], o: &mut Obs, ctx: &str) -> Res {
    for x in f {
        if matches!(x.out, Out::Ok { .. }) && !syms.iter().any(|s| s.expect() == x.out) {
            return Err(format!("{ctx}: reads something that is not in the image: {}", x.short()));
        }
    }
    for s in syms {
        let want = syms.iter().filter(|t| t.expect() == s.expect()).count();
        let got = f.iter().filter(|x| x.out == s.expect()).count();
        if got > want {
            return Err(format!("{ctx}: {} is in the image {want} times, read {got} times: {}", s.name(), list(f)));
        }
        match name {
            Some(name) => o.rate(name, got == want, || format!("{ctx}: {} missing among {}", s.name(), list(f))),
            None if got < want => return Err(format!("{ctx}: {} is in the image {want} times, read {got} times: {}", s.name(), list(f))),
            None => o.hit("symbols read, each exactly once"),
        }
    }
    Ok(())
}

/// a placed symbol: matrix as drawn, pixels per module, angle, centre
struct Placed {
    m: Mat,
    sc: f64,
    a: f64,
    c: (f64, f64),
    /// the corner of the drawn matrix without a finder pattern: 0 TL, 1 TR, 2 BR, 3 BL
    empty: usize,
}

impl Placed {
    fn quad(&self) -> [(f64, f64); 4] {
        crate::p_detect::rot_quad(self.c.0, self.c.1, self.m.n as f64 * self.sc, self.a)
    }
    fn finders(&self) -> Vec<(f64, f64)> {
        let h = (self.m.n as f64 / 2.0 - 3.5) * self.sc;
        let q = crate::p_detect::rot_quad(self.c.0, self.c.1, 2.0 * h, self.a);
        (0..4).filter(|k| *k != self.empty).map(|k| q[k]).collect()
    }
    /// the corners from the symbol's own upper left on
    fn corners(&self) -> [(f64, f64); 4] {
        let q = self.quad();
        let rot = (self.empty + 2) % 4;
        [q[rot], q[(rot + 1) % 4], q[(rot + 2) % 4], q[(rot + 3) % 4]]
    }
    fn half_box(&self, gap: f64) -> f64 {
        self.m.n as f64 * self.sc * (self.a.sin().abs() + self.a.cos().abs()) / 2.0 + gap * self.sc
    }
}

/// Could three finder patterns that are not of one symbol be taken for one? Wider than the
/// detector's own tolerances: such pictures are out of the scope of "every symbol is read".
fn confusable(p: &[Placed]) -> bool {
    let f: Vec<(usize, f64, f64, (f64, f64))> = p
        .iter()
        .enumerate()
        .flat_map(|(i, p)| p.finders().into_iter().map(move |c| (i, p.a, p.sc, c)))
        .collect();
    for (i, a, _, c) in &f {
        let (sn, co) = a.sin_cos();
        let (mut hs, mut vs) = (vec![], vec![]);
        for (j, _, _, d) in &f {
            let (dx, dy) = (d.0 - c.0, d.1 - c.1);
            let (u, v) = ((dx * co + dy * sn).abs(), (dy * co - dx * sn).abs());
            if u + v < 1e-9 {
                continue;
            }
            if u < 0.27 * v {
                hs.push((*j, v));
            }
            if v < 0.27 * u {
                vs.push((*j, u));
            }
        }
        for h in &hs {
            for v in &vs {
                if h.0 == *i && v.0 == *i {
                    continue;
                }
                if h.1.min(v.1) / h.1.max(v.1) > 0.68 {
                    return true;
                }
            }
        }
    }
    false
}

/// Symbols anywhere in the picture, boxes with `gap` modules around them not overlapping, no
/// finder patterns of different symbols in a confusable position.
pub fn scene(r: &mut Rng, k: usize, aligned: bool, vmax: usize, gap: f64) -> Option<(Vec<Sym>, Img, Vec<(usize, usize, usize, usize)>)> {
    let mut syms = vec![];
    for _ in 0..k {
        let v = r.range(1, vmax);
        syms.push(plain_symbol(r, v)?);
    }
    layout(r, syms, aligned, gap)
}

fn layout(r: &mut Rng, syms: Vec<Sym>, aligned: bool, gap: f64) -> Option<(Vec<Sym>, Img, Vec<(usize, usize, usize, usize)>)> {
    let (ps, im) = placed(r, &syms, aligned, gap)?;
    let rects = ps
        .iter()
        .map(|p| {
            let hb = p.half_box(gap);
            ((p.c.0 - hb).max(0.0) as usize, (p.c.1 - hb).max(0.0) as usize, (2.0 * hb) as usize + 1, (2.0 * hb) as usize + 1)
        })
        .collect();
    Some((syms, im, rects))
}

fn placed(r: &mut Rng, syms: &[Sym], aligned: bool, gap: f64) -> Option<(Vec<Placed>, Img)> {
    placed_at(r, syms, aligned, gap, None)
}

fn placed_at(r: &mut Rng, syms: &[Sym], aligned: bool, gap: f64, scales: Option<&[f64]>) -> Option<(Vec<Placed>, Img)> {
    let k = syms.len();
    let mut ps: Vec<Placed> = vec![];
    for (i, s) in syms.iter().enumerate() {
        let mirror = r.chance(0.15);
        let rot = r.below(4);
        let m = orient(&s.m, rot, mirror);
        let (sc, a) = if aligned {
            (r.range(2, 7) as f64, 0.0)
        } else {
            (r.frange(7.0, 12.0), r.frange(0.0, std::f64::consts::TAU))
        };
        let sc = scales.map_or(sc, |x| x[i]);
        ps.push(Placed { m, sc, a, c: (0.0, 0.0), empty: (2 + rot) % 4 });
    }
    let area: f64 = ps.iter().map(|p| (2.0 * p.half_box(gap)).powi(2)).sum();
    let big = ps.iter().map(|p| 2.0 * p.half_box(gap)).fold(0.0, f64::max);
    for try_ in 0..1500 {
        let side = (area * (1.4 + try_ as f64 / 150.0)).sqrt().max(big + 4.0);
        let asp = r.frange(0.8, 1.25);
        let (w, h) = ((side * asp).max(big + 2.0), (side / asp).max(big + 2.0));
        let mut ok = true;
        for i in 0..k {
            let hb = ps[i].half_box(gap);
            let mut placed = false;
            for _ in 0..30 {
                let mut c = (r.frange(hb, w - hb), r.frange(hb, h - hb));
                if aligned {
                    // whole pixels
                    let half = ps[i].m.n as f64 * ps[i].sc / 2.0;
                    c = ((c.0 - half).floor() + half, (c.1 - half).floor() + half);
                }
                let free = (0..i).all(|j| {
                    let d = hb + ps[j].half_box(gap);
                    (c.0 - ps[j].c.0).abs() >= d || (c.1 - ps[j].c.1).abs() >= d
                });
                if free {
                    ps[i].c = c;
                    placed = true;
                    break;
                }
            }
            if !placed {
                ok = false;
                break;
            }
        }
        if !ok || confusable(&ps) {
            continue;
        }
        let mut im = Img::new(w as usize + 2, h as usize + 2, 255);
        for p in &ps {
            let q = p.quad();
            if aligned {
                im.code(&p.m, p.sc as usize, q[0].0.round() as usize, q[0].1.round() as usize, 0, 255);
            } else {
                warp(&mut im, &p.m, &H::square_to_quad(p.m.n as f64, q), 0.0, 3, 0, 255);
            }
        }
        return Some((ps, im));
    }
    None
}

pub fn c13_aligned(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let k = 2 + (i % 5) as usize;
    let gap = r.frange(2.0, 6.0);
    let Some((syms, im, _)) = scene(r, k, true, 6, gap) else {
        o.hit("no placement found");
        return Ok(());
    };
    let ctx = format!("{k} upright symbols ({}) in {}x{}", syms.iter().map(|s| s.name()).collect::<Vec<_>>().join(" | "), im.w, im.h);
    let f = if i % 4 == 0 { read_mon(&im) } else { read_gray(&im) }.map_err(|e| format!("{ctx}: {e}"))?;
    judge(None, &syms, &f, o, &ctx)?;
    o.hit(&format!("pictures of {k} symbols"));
    o.distinct(hash(&(i, k, im.w, im.h)));
    o.sample(|| ctx.clone());
    Ok(())
}

pub fn c13_rotated(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let k = 2 + (i % 4) as usize;
    let Some((syms, im, _)) = scene(r, k, false, 4, 4.0) else { return Ok(()) };
    let ctx = format!("{k} rotated symbols ({}) in {}x{}", syms.iter().map(|s| s.name()).collect::<Vec<_>>().join(" | "), im.w, im.h);
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    judge(Some("symbols of a group, rotated"), &syms, &f, o, &ctx)?;
    o.distinct(hash(&("rot", i, k, im.w, im.h)));
    Ok(())
}

/// more symbols than fit into one look: a staircase, where no two stand in rows or columns that
/// could make up a symbol
pub fn c13_many(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let k = r.range(7, if i % 4 == 0 { 30 } else { 14 });
    let mut syms = vec![];
    for _ in 0..k {
        let v = r.range(1, 4);
        let Some(s) = plain_symbol(r, v) else { return Ok(()) };
        syms.push(s);
    }
    let Some((syms, im)) = stairs(r, syms, false) else {
        o.hit("no placement found");
        return Ok(());
    };
    let ctx = format!("{k} symbols in {}x{}", im.w, im.h);
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    judge(None, &syms, &f, o, &ctx)?;
    o.hit("pictures of 7 and more symbols");
    o.max("symbols in one picture", k as f64);
    o.distinct(hash(&("many", i, k, im.w, im.h)));
    Ok(())
}

/// far more symbols than in any photograph, just around the numbers where counters wrap
pub fn c13_crowd(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let k = match i % 16 {
        0 => r.range(255, 259),
        1 => r.range(127, 131),
        2 => r.range(130, 200),
        3 | 4 => r.range(84, 88),
        5 | 6 => r.range(63, 67),
        _ => r.range(31, 60),
    };
    let mut syms = vec![];
    while syms.len() < k {
        let v = if r.chance(0.9) { 1 } else { 2 };
        if let Some(s) = plain_symbol(r, v) {
            syms.push(s);
        }
    }
    let Some((syms, im)) = stairs(r, syms, true) else {
        o.hit("no placement found");
        return Ok(());
    };
    let ctx = format!("{k} symbols in {}x{}", im.w, im.h);
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    judge(None, &syms, &f, o, &ctx)?;
    o.hit("pictures of more than 30 symbols");
    o.max("symbols in one picture", k as f64);
    o.distinct(hash(&("crowd", i, k, im.w, im.h)));
    Ok(())
}

fn stairs(r: &mut Rng, syms: Vec<Sym>, flat: bool) -> Option<(Vec<Sym>, Img)> {
    let mut ps: Vec<Placed> = vec![];
    let (mut x, mut y) = (0.0, 0.0);
    for s in &syms {
        let mut placed = false;
        for try_ in 0..60 {
            let rot = r.below(4);
            let m = orient(&s.m, rot, r.chance(0.15));
            let sc = if flat { 2.0 } else { r.range(2, 4) as f64 };
            let d = m.n as f64 * sc;
            // steps of different length, beside or below the one before at first
            let (fx, fy) = if flat {
                (1.0, r.frange(0.35, if try_ < 20 { 0.5 } else { 0.7 }))
            } else if try_ < 30 {
                if r.bool() { (1.0, r.frange(0.3, 1.0)) } else { (r.frange(0.3, 1.0), 1.0) }
            } else {
                (1.0, 1.0)
            };
            let far = if flat { 4 } else if try_ < 45 { 8 } else { 16 };
            let (nx, ny) = match ps.last() {
                None => (2.0 * sc, 2.0 * sc),
                Some(l) => {
                    let (lx, ly, ld) = (l.c.0, l.c.1, l.m.n as f64 * l.sc / 2.0);
                    let g = sc.max(l.sc);
                    (
                        (lx - ld + fx * 2.0 * ld + g * r.range(2, far) as f64).floor(),
                        (ly - ld + fy * 2.0 * ld + g * r.range(2, far) as f64).floor(),
                    )
                }
            };
            ps.push(Placed { m, sc, a: 0.0, c: (nx + d / 2.0, ny + d / 2.0), empty: (2 + rot) % 4 });
            if !confusable(&ps) {
                placed = true;
                x = f64::max(x, nx + d);
                y = f64::max(y, ny + d);
                break;
            }
            ps.pop();
        }
        if !placed {
            return None;
        }
    }
    let mut im = Img::new(x as usize + 12, y as usize + 12, 255);
    for p in &ps {
        let q = p.quad();
        im.code(&p.m, p.sc as usize, q[0].0.round() as usize, q[0].1.round() as usize, 0, 255);
    }
    if r.bool() {
        // from upper right to lower left: turn the page
        let (w, h) = (im.w, im.h);
        let mut t = Img::new(h, w, 255);
        for y in 0..h {
            for x in 0..w {
                t.set(h - 1 - y, x, im.at(x, y));
            }
        }
        im = t;
    }
    Some((syms, im))
}

/// a poster and its small print: symbols of very different sizes in one picture
pub fn c13_sizes(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let k = r.range(2, 4);
    let mut syms = vec![];
    let mut scales = vec![];
    for j in 0..k {
        // one large, one small, the others anything
        let (v, sc) = match (j, i % 3) {
            (0, 0) => (r.range(1, 4), r.range(16, 40)),
            (0, 1) => (r.range(10, 40), r.range(4, 6)),
            (0, _) => (r.range(1, 10), r.range(8, 20)),
            (1, _) => (r.range(1, 3), r.range(2, 3)),
            _ => (r.range(1, 6), r.range(2, 12)),
        };
        let Some(s) = plain_symbol(r, v) else { return Ok(()) };
        syms.push(s);
        scales.push(sc as f64);
    }
    let gap = r.frange(2.0, 6.0);
    let Some((ps, im)) = placed_at(r, &syms, true, gap, Some(&scales)) else {
        o.hit("no placement found");
        return Ok(());
    };
    let ctx = format!(
        "{k} upright symbols ({}) in {}x{}",
        syms.iter().zip(&ps).map(|(s, p)| format!("{} at {} px/module at {:?}", s.name(), p.sc, p.quad()[0])).collect::<Vec<_>>().join(" | "),
        im.w,
        im.h
    );
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    judge(None, &syms, &f, o, &ctx)?;
    o.hit("pictures of large and small symbols");
    o.max("largest module side over smallest", scales.iter().cloned().fold(0.0, f64::max) / scales.iter().cloned().fold(1e9, f64::min));
    o.distinct(hash(&("sizes", i, k, im.w, im.h)));
    Ok(())
}

/// symbols in boxes, between rules, on forms: thin lines right outside the quiet zone, around
/// single symbols, all of them, or the page
pub fn c13_framed(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let k = 1 + (i % 3) as usize;
    let Some((syms, im0, rects)) = scene(r, k, true, 5, 5.0) else { return Ok(()) };
    let (px, py) = (r.range(8, 60), r.range(8, 60));
    let mut im = Img::new(im0.w + 2 * px, im0.h + 2 * py, 255);
    for y in 0..im0.h {
        let d = (y + py) * im.w + px;
        im.p[d..d + im0.w].copy_from_slice(&im0.p[y * im0.w..(y + 1) * im0.w]);
    }
    let (w, h) = (im.w as i64, im.h as i64);
    let frame = |im: &mut Img, x: i64, y: i64, w: i64, h: i64, t: i64| {
        im.rect(x, y, w, t, 0);
        im.rect(x, y + h - t, w, t, 0);
        im.rect(x, y, t, h, 0);
        im.rect(x + w - t, y, t, h, 0);
    };
    let mut what = vec![];
    if i % 4 != 1 {
        // gap is five modules: the frame takes the outer part of it
        for &(x, y, w, h) in &rects {
            if r.chance(0.8) {
                let t = r.range(1, 3) as i64;
                frame(&mut im, (x + px) as i64 + 1, (y + py) as i64 + 1, w as i64 - 2, h as i64 - 2, t);
                what.push("boxes");
            }
        }
    }
    if i % 4 != 2 {
        let t = r.range(1, 4) as i64;
        let a = r.range(0, 3) as i64;
        frame(&mut im, a, a, w - 2 * a, h - 2 * a, t);
        what.push("page frame");
    }
    if i % 4 >= 2 {
        // rules where no symbol is in the way
        for _ in 0..r.range(1, 40) {
            let t = r.range(1, 2);
            if r.bool() {
                let y = r.below(im.h - t);
                if !rects.iter().any(|q| y + t > q.1 + py && y < q.1 + py + q.3) {
                    im.rect(0, y as i64, w, t as i64, 0);
                }
            } else {
                let x = r.below(im.w - t);
                if !rects.iter().any(|q| x + t > q.0 + px && x < q.0 + px + q.2) {
                    im.rect(x as i64, 0, t as i64, h, 0);
                }
            }
        }
        what.push("rules");
    }
    what.dedup();
    let ctx = format!("{k} symbols ({}) with {} in {}x{}", syms.iter().map(|s| s.name()).collect::<Vec<_>>().join(" | "), what.join(", "), im.w, im.h);
    let f = if i % 8 == 0 { read_mon(&im) } else { read_gray(&im) }.map_err(|e| format!("{ctx}: {e}"))?;
    judge(None, &syms, &f, o, &ctx)?;
    o.hit("pictures of framed symbols");
    o.distinct(hash(&("framed", i, im.w, im.h)));
    Ok(())
}

/// A symbol and one or two finder patterns that belong to no symbol, in line with those of the
/// symbol but nearer or farther than the symbol's own: of all combinations the most symmetric one
/// is the symbol. Seen from any other pattern there is none at all.
pub fn c13_stray(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = r.range(1, 6);
    let Some(s) = plain_symbol(r, v) else { return Ok(()) };
    let rot = r.below(4);
    let m = orient(&s.m, rot, r.chance(0.2));
    let turned = i % 3 == 2;
    let (sc, a) = if turned { (r.frange(7.0, 10.0), r.frange(0.0, std::f64::consts::TAU)) } else { (r.range(3, 6) as f64, 0.0) };
    let n = m.n as f64;
    let d = n - 7.0;
    let far = |r: &mut Rng| if r.bool() { r.frange(0.8, 0.92) } else { r.frange(1.09, 1.24) };
    // the corner of the drawn matrix with finder patterns on both sides
    let corner = rot % 4;
    let (cx, cy) = [(0.0, 0.0), (d, 0.0), (d, d), (0.0, d)][corner];
    let (ox, oy) = [(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)][corner];
    let (mut k1, mut k2) = (far(r), far(r));
    while (1.0 - f64::min(k1, k2) / f64::max(k1, k2)) < 0.06 {
        (k1, k2) = (far(r), far(r));
    }
    // in modules of the symbol
    let mut at = vec![];
    let round = |x: f64| if turned { x } else { x.round() };
    if i % 4 != 0 {
        at.push((cx + ox * round(k1 * d), cy));
    }
    if i % 4 != 1 {
        at.push((cx, cy + oy * round(k2 * d)));
    }
    let side = ((n + 4.2 * d) * sc).ceil();
    let side = if turned { side * 1.42 } else { side };
    let c = (side / 2.0).floor();
    let q = crate::p_detect::rot_quad(c, c, n * sc, a);
    let mut im = Img::new(side as usize + 2, side as usize + 2, 255);
    let f = crate::hostile::finder();
    if turned {
        let h = H::square_to_quad(n, q);
        warp(&mut im, &m, &h, 0.0, 3, 0, 255);
        for &(x, y) in &at {
            let p = [(x, y), (x + 7.0, y), (x + 7.0, y + 7.0), (x, y + 7.0)].map(|(x, y)| h.apply(x, y));
            warp(&mut im, &f, &H::square_to_quad(7.0, p), 0.0, 3, 0, 255);
        }
    } else {
        let (x0, y0) = (q[0].0.round(), q[0].1.round());
        im.code(&m, sc as usize, x0 as usize, y0 as usize, 0, 255);
        for &(x, y) in &at {
            im.code(&f, sc as usize, (x0 + x * sc) as usize, (y0 + y * sc) as usize, 0, 255);
        }
    }
    let ctx = format!("{} rotated {:.1}° at {sc:.1} px/module in {}x{}, finder patterns at modules {at:?}", s.name(), rot as f64 * 90.0 + a.to_degrees(), im.w, im.h);
    let g = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    let syms = [s];
    judge(Some("symbols beside stray finder patterns"), &syms, &g, o, &ctx)?;
    o.hit("pictures with stray finder patterns");
    o.distinct(hash(&("stray", i)));
    Ok(())
}

/// the same symbol more than once
pub fn c13_same(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let k = 2 + (i % 3) as usize;
    let v = r.range(1, 6);
    let Some(s) = plain_symbol(r, v) else { return Ok(()) };
    let copies: Vec<Sym> = (0..k).map(|_| s.copy()).collect();
    let Some((syms, im, _)) = layout(r, copies, true, 4.0) else {
        o.hit("no placement found");
        return Ok(());
    };
    let ctx = format!("{k} copies of {} in {}x{}", s.name(), im.w, im.h);
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    judge(None, &syms, &f, o, &ctx)?;
    o.hit("pictures of copies of one symbol");
    o.distinct(hash(&("same", i, k, im.w, im.h)));
    Ok(())
}

/// marks around the symbols: boxes, dots and strokes, more regions than the detector can remember
pub fn clutter(r: &mut Rng, im: &mut Img, keep: &[(usize, usize, usize, usize)], n: usize) -> usize {
    let mut done = 0;
    for _ in 0..n * 4 {
        if done >= n {
            break;
        }
        if r.chance(0.3) {
            // separate bars in finder proportions
            let u = r.range(1, 3);
            let (w, h) = (7 * u, r.range(1, 5));
            if w + 4 >= im.w || h + 4 >= im.h {
                continue;
            }
            let (x, y) = (r.below(im.w - w), r.below(im.h - h));
            let hit = keep.iter().any(|&(kx, ky, kw, kh)| x < kx + kw && kx < x + w && y < ky + kh && ky < y + h);
            if hit {
                continue;
            }
            if keep.iter().any(|&(kx, ky, kw, kh)| x < kx + kw + 1 && kx < x + w + 1 && y < ky + kh + 1 && ky < y + h + 1) {
                continue;
            }
            im.rect(x as i64 - 1, y as i64 - 1, w as i64 + 2, h as i64 + 2, 255);
            for (o, l) in [(0, 1), (2, 3), (6, 1)] {
                im.rect((x + o * u) as i64, y as i64, (l * u) as i64, h as i64, 0);
            }
            done += 3;
            continue;
        }
        let (w, h) = match r.below(3) {
            0 => (r.range(1, 4), r.range(1, 4)),
            1 => (r.range(1, 30), r.range(1, 3)),
            _ => (r.range(1, 3), r.range(1, 30)),
        };
        if w + 2 >= im.w || h + 2 >= im.h {
            continue;
        }
        let (x, y) = (r.below(im.w - w), r.below(im.h - h));
        let hit = keep.iter().any(|&(kx, ky, kw, kh)| x < kx + kw && kx < x + w && y < ky + kh && ky < y + h);
        if hit {
            continue;
        }
        im.rect(x as i64, y as i64, w as i64, h as i64, 0);
        done += 1;
    }
    done
}

pub fn c13_clutter(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    cluttered(r, o, i, true)
}

/// rotated symbols among marks
pub fn c13_turned(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    cluttered(r, o, i, false)
}

fn cluttered(r: &mut Rng, o: &mut Obs, i: u64, aligned: bool) -> Res {
    let k = 1 + (i % 3) as usize;
    let Some((syms, im0, rects)) = scene(r, k, aligned, 5, 4.0) else { return Ok(()) };
    // more room around
    let (px, py) = (r.range(60, 260), r.range(60, 260));
    let mut im = Img::new(im0.w + 2 * px, im0.h + 2 * py, 255);
    for y in 0..im0.h {
        let d = (y + py) * im.w + px;
        im.p[d..d + im0.w].copy_from_slice(&im0.p[y * im0.w..(y + 1) * im0.w]);
    }
    let keep: Vec<_> = rects.iter().map(|&(x, y, w, h)| (x + px, y + py, w, h)).collect();
    let want = *r.pick(&[10, 100, 300, 600, 1500, 3000]);
    let n = clutter(r, &mut im, &keep, want);
    let ctx = format!("{k} symbols ({}) among {n} marks in {}x{}", syms.iter().map(|s| s.name()).collect::<Vec<_>>().join(" | "), im.w, im.h);
    let f = if i % 4 == 0 { read_mon(&im) } else { read_gray(&im) }.map_err(|e| format!("{ctx}: {e}"))?;
    judge(if aligned { None } else { Some("rotated symbols among marks") }, &syms, &f, o, &ctx)?;
    if n > 251 {
        o.hit("pictures with more than 251 marks");
    }
    o.max("marks in one picture", n as f64);
    o.distinct(hash(&("clutter", aligned, i, n, im.w, im.h)));
    Ok(())
}

/// no symbol in the picture: nothing may be read
pub fn c13_none(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let mx = if o.thorough { 600 } else { 300 };
    let mut im = Img::new(r.range(30, mx), r.range(30, mx), 255);
    let what = match i % 4 {
        0 => {
            let n = r.range(10, 800);
            clutter(r, &mut im, &[], n);
            "marks"
        }
        1 => {
            // finder patterns without a symbol
            let f = crate::hostile::finder();
            let s = r.range(1, 5);
            for _ in 0..r.range(1, 12) {
                if im.w > 9 * s && im.h > 9 * s {
                    let (x, y) = (r.below(im.w - 9 * s), r.below(im.h - 9 * s));
                    im.rect(x as i64, y as i64, 9 * s as i64, 9 * s as i64, 255);
                    im.code(&f, s, x + s, y + s, 0, 255);
                }
            }
            "finder patterns"
        }
        2 => {
            // the frame of a symbol with random modules: no codeword sequence
            let v = r.range(1, 6);
            let Some(s) = plain_symbol(r, v) else { return Ok(()) };
            let mut m = s.m.clone();
            for &(y, x) in crate::enc::data_order(v).iter() {
                m.set(y, x, r.bool());
            }
            let sc = r.range(2, 5);
            im = Img::new((m.n + 8) * sc, (m.n + 8) * sc, 255);
            im.code(&m, sc, 4 * sc, 4 * sc, 0, 255);
            "a symbol with random content"
        }
        _ => {
            let b = r.range(1, 8);
            let p = r.f();
            let (bw, bh) = (im.w / b + 1, im.h / b + 1);
            let c: Vec<bool> = (0..bw * bh).map(|_| r.chance(p)).collect();
            for y in 0..im.h {
                for x in 0..im.w {
                    im.set(x, y, if c[(y / b) * bw + x / b] { 0 } else { 255 });
                }
            }
            "block noise"
        }
    };
    let ctx = format!("{what}, {}x{}", im.w, im.h);
    let f = read_gray(&im).map_err(|e| format!("{ctx}: {e}"))?;
    if i % 4 == 2 {
        // content could by chance be within reach of a codeword sequence: C03 judges that
        o.rate("random content not read", !f.iter().any(|x| matches!(x.out, Out::Ok { .. })), || list(&f));
    } else if let Some(x) = f.iter().find(|x| matches!(x.out, Out::Ok { .. })) {
        return Err(format!("{ctx}: there is no symbol, but rqrr reads {}", x.short()));
    }
    o.hit(&format!("pictures without a symbol: {what}"));
    o.add("grids proposed where there is no symbol", f.len() as u64);
    o.distinct(hash(&("none", i)));
    Ok(())
}

// ---- C15, C23

fn dist(a: (f64, f64), b: (f64, f64)) -> f64 {
    ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt()
}

struct Read {
    size: usize,
    bounds: [(i32, i32); 4],
    bits: Mat,
    out: Out,
}

fn read_bits(im: &Img) -> Result<Vec<Read>, String> {
    guard(|| {
        let mut p = PreparedImage::prepare(im.gray());
        let g = p.detect_grids();
        g.iter()
            .map(|g| {
                let n = g.grid.size();
                let mut m = Mat::new(n);
                for y in 0..n {
                    for x in 0..n {
                        m.set(y, x, g.grid.bit(y, x));
                    }
                }
                Read { size: n, bounds: bounds_of(&g.bounds), bits: m, out: crate::gen::decode_grid(g) }
            })
            .collect()
    })
}

/// distances in modules between reported and true corners: first, beside it, opposite
fn check_bounds(b: &[(i32, i32); 4], q: &[(f64, f64); 4], module: f64) -> (f64, f64, f64) {
    let d: Vec<f64> = (0..4).map(|k| dist((b[k].0 as f64, b[k].1 as f64), q[k]) / module).collect();
    (d[0], d[1].max(d[3]), d[2])
}

fn errs(a: &Mat, b: &Mat) -> usize {
    a.d.iter().zip(&b.d).filter(|(x, y)| x != y).count()
}

fn upright(r: &mut Rng, i: u64) -> Option<(Sym, Img, [(f64, f64); 4], usize, bool, String)> {
    let v = if i % 2 == 0 { 1 + (i / 2 % 40) as usize } else { r.range(1, 10) };
    let s = plain_symbol(r, v)?;
    let sc = if i % 16 == 1 { r.range(11, 60) } else { r.range(2, if v > 20 { 4 } else { 10 }) };
    let (mut qx, mut qy) = (r.range(sc, 8 * sc), r.range(sc, 8 * sc));
    let rot = r.below(4);
    let mirror = r.chance(0.3);
    let m = orient(&s.m, rot, mirror);
    let n = m.n * sc;
    let (mut rx, mut ry) = (4 * sc, 4 * sc);
    if i % 4 == 3 && n < 700 {
        // somewhere on a page much larger in one direction or both
        let (fx, fy) = *r.pick(&[(6, 0), (0, 6), (2, 1), (1, 3)]);
        qx += r.below(fx * n + 1);
        qy += r.below(fy * n + 1);
        rx += r.below(fx * n / 2 + 1);
        ry += r.below(fy * n / 2 + 1);
    }
    let mut im = Img::new(n + qx + rx, n + qy + ry, 255);
    im.code(&m, sc, qx, qy, 0, 255);
    let (x0, y0, d) = (qx as f64, qy as f64, n as f64);
    let box_ = [(x0, y0), (x0 + d, y0), (x0 + d, y0 + d), (x0, y0 + d)];
    // rot90 turns clockwise: symbol corner k is drawn at box corner k + rot
    let mut q = box_;
    for k in 0..4 {
        q[k] = box_[(k + rot) % 4];
    }
    // transposed first: the symbol's corners in reading order of the transposed matrix
    let ctx = format!("symbol {} at {sc} px/module, rotated {}°{} at ({qx},{qy}) in {}x{}", s.name(), rot * 90, if mirror { ", mirrored" } else { "" }, im.w, im.h);
    Some((s, im, q, sc, mirror, ctx))
}

/// width, height and a place for something that needs a square of the given side: in the middle of
/// that square, or anywhere on a page that is longer in one direction
fn page(r: &mut Rng, side: f64, i: u64) -> (usize, usize, (f64, f64)) {
    let (mut w, mut h) = (side, side);
    if i % 4 == 3 && side < 900.0 {
        let k = r.frange(1.0, 4.0);
        if r.bool() {
            w *= k
        } else {
            h *= k
        }
    }
    let c = (r.frange(side / 2.0, w - side / 2.0 + 0.01), r.frange(side / 2.0, h - side / 2.0 + 0.01));
    (w as usize, h as usize, c)
}

pub fn c15_upright(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let Some((s, im, q, sc, mirror, ctx)) = upright(r, i) else { return Ok(()) };
    let f = read_bits(&im).map_err(|e| format!("{ctx}: {e}"))?;
    let Some(g) = f.iter().find(|g| g.out == s.expect()) else { return Err(format!("{ctx}: not read")) };
    let (a, b, c) = check_bounds(&g.bounds, &q, sc as f64);
    o.max("upright, first corner off by modules", a);
    o.max("upright, second and fourth corner off by modules", b);
    o.max("upright, opposite corner off by modules", c);
    let _ = mirror;
    if a > 1.0 || b > 1.75 || c > 2.5 {
        return Err(format!("{ctx}: corners {:?} reported for {:?}", g.bounds, q));
    }
    o.distinct(hash(&(i, sc)));
    o.hit("corner quadruples judged");
    Ok(())
}

/// several symbols: each with its own corners
pub fn c15_several(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let k = 2 + (i % 4) as usize;
    let aligned = i % 3 != 0;
    let mut syms = vec![];
    for _ in 0..k {
        let v = r.range(1, 6);
        let Some(s) = plain_symbol(r, v) else { return Ok(()) };
        syms.push(s);
    }
    let Some((ps, im)) = placed(r, &syms, aligned, 4.0) else {
        o.hit("no placement found");
        return Ok(());
    };
    let ctx = format!("{k} symbols ({}) in {}x{}", syms.iter().map(|s| s.name()).collect::<Vec<_>>().join(" | "), im.w, im.h);
    let f = read_bits(&im).map_err(|e| format!("{ctx}: {e}"))?;
    for (s, p) in syms.iter().zip(&ps) {
        if syms.iter().filter(|t| t.expect() == s.expect()).count() > 1 {
            continue;
        }
        let Some(g) = f.iter().find(|g| g.out == s.expect()) else {
            if aligned {
                return Err(format!("{ctx}: {} is not read", s.name()));
            }
            continue;
        };
        let q = p.corners();
        let (a, b, c) = check_bounds(&g.bounds, &q, p.sc);
        if aligned {
            if a > 1.0 || b > 1.75 || c > 2.5 {
                return Err(format!("{ctx}: corners {:?} of {} reported for {q:?}", g.bounds, s.name()));
            }
        } else {
            o.rate("distorted: corners within two and a half modules", a <= 2.0 && b <= 2.5 && c <= 2.5, || format!("{ctx}: corners {:?} of {} reported for {q:?}", g.bounds, s.name()));
        }
        o.hit("corners of symbols among others judged");
    }
    o.distinct(hash(&("several", i)));
    Ok(())
}

/// a grid that comes from no picture has no corners in one
pub fn c15_made(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let n = r.below(200);
    let m = Mat::new(n);
    let a = guard(|| rqrr::Grid::new(rqrr::SimpleGrid::from_func(n, |x, y| m.at(y, x))).bounds)?;
    let b = guard(|| rqrr::Grid::new(crate::gen::MonGrid::new(&m)).bounds)?;
    if bounds_of(&a) != [(0, 0); 4] || bounds_of(&b) != [(0, 0); 4] {
        return Err(format!("a grid of {n} modules made without a picture reports corners {a:?} {b:?}"));
    }
    o.hit("grids without a picture judged");
    o.distinct(hash(&("made", n, i % 4)));
    Ok(())
}

pub fn c23_upright(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let Some((s, im, _, sc, mirror, ctx)) = upright(r, i) else { return Ok(()) };
    let f = read_bits(&im).map_err(|e| format!("{ctx}: {e}"))?;
    let Some(g) = f.iter().find(|g| g.size == s.m.n) else { return Err(format!("{ctx}: not found")) };
    let want = if mirror { s.m.transpose() } else { s.m.clone() };
    let e = errs(&g.bits, &want);
    if e * 50 > want.n * want.n {
        return Err(format!("{ctx}: {e} of {} modules sampled wrong", want.n * want.n));
    }
    o.add("modules compared", (want.n * want.n) as u64);
    o.max("wrong modules", e as f64);
    o.max("wrong modules %", 100.0 * e as f64 / (want.n * want.n) as f64);
    o.rate("upright: every module sampled right", e == 0, || format!("{ctx}: {e} modules wrong, v {}", s.v));
    o.rate(&format!("modules, drawn upright, version {:02}", s.v), e == 0, || ctx.clone());
    o.distinct(hash(&(i, sc)));
    Ok(())
}

pub fn c15_rotated(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = r.range(1, 7);
    let Some(s) = plain_symbol(r, v) else { return Ok(()) };
    let mirror = r.chance(0.25);
    let m = orient(&s.m, 0, mirror);
    let sc = if i % 32 < 2 { r.frange(12.0, 36.0) } else { r.frange(8.0, 12.0) };
    let side = m.n as f64 * sc;
    let a = r.frange(0.0, std::f64::consts::TAU);
    let (w, h, c) = page(r, side * 1.45 + 10.0 * sc, i);
    let mut q = crate::p_detect::rot_quad(c.0, c.1, side, a);
    let jit = if i % 2 == 0 { 0.0 } else if i % 8 == 5 { 0.1 } else { 0.03 };
    for p in q.iter_mut() {
        p.0 += r.frange(-jit, jit) * side;
        p.1 += r.frange(-jit, jit) * side;
    }
    let mut im = Img::new(w, h, 255);
    warp(&mut im, &m, &H::square_to_quad(m.n as f64, q), 4.0, 4, 0, 255);
    let ctx = format!("symbol {} {sc:.1} px/module, angle {:.1}°{}", s.name(), a.to_degrees(), if mirror { ", mirrored" } else { "" });
    let f = read_bits(&im).map_err(|e| format!("{ctx}: {e}"))?;
    let Some(g) = f.iter().find(|g| g.out == s.expect()) else {
        o.hit("rotated symbols not read");
        return Ok(());
    };
    let (x, y, z) = check_bounds(&g.bounds, &q, sc);
    let y = y.max(z);
    o.max("rotated, first corner off by modules", x);
    o.max("rotated, other corners off by modules", y);
    let why = || format!("{ctx} {x} {y} {:?} {:?}", g.bounds, q);
    let ok = x <= 2.0 && y <= 2.5;
    if jit > 0.05 {
        o.rate("strong perspective: corners within two and a half modules", ok, why);
        o.hit("corner quadruples judged");
        o.distinct(hash(&("rot", i, s.v)));
        return Ok(());
    }
    o.rate("distorted: corners within two and a half modules", ok, why);
    o.rate(&format!("corners, angle sector {:02}", (a.to_degrees() / 15.0) as i64), ok, why);
    o.rate(&format!("corners, turned and {}, version {v}", if mirror { "mirrored" } else { "upright" }), ok, why);
    // whatever the distortion: the order of the corners, and all of them around the symbol
    let n = [q[0], q[1], q[2], q[3]];
    for k in 0..4 {
        let me = dist((g.bounds[k].0 as f64, g.bounds[k].1 as f64), n[k]);
        for j in 0..4 {
            if j != k && dist((g.bounds[k].0 as f64, g.bounds[k].1 as f64), n[j]) < me {
                return Err(format!("{ctx}: corner {k} is reported at {:?}, the corners are {q:?}", g.bounds[k]));
            }
        }
    }
    o.hit("corner quadruples judged");
    o.distinct(hash(&("rot", i, s.v)));
    o.sample(|| format!("{ctx}: corners {:?} for {q:?}", g.bounds));
    Ok(())
}

/// distorted pictures: what is sampled, compared with what was drawn
pub fn c23_distorted(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = r.range(1, 7);
    let Some(s) = plain_symbol(r, v) else { return Ok(()) };
    let mirror = r.chance(0.25);
    let m = orient(&s.m, 0, mirror);
    let sc = if i % 32 < 2 { r.frange(12.0, 36.0) } else { r.frange(8.0, 12.0) };
    let side = m.n as f64 * sc;
    let a = r.frange(0.0, std::f64::consts::TAU);
    let (w, h, c) = page(r, side * 1.45 + 10.0 * sc, i);
    let mut q = crate::p_detect::rot_quad(c.0, c.1, side, a);
    let jit = if i % 2 == 0 { 0.0 } else if i % 8 == 5 { 0.1 } else { 0.03 };
    for p in q.iter_mut() {
        p.0 += r.frange(-jit, jit) * side;
        p.1 += r.frange(-jit, jit) * side;
    }
    let mut im = Img::new(w, h, 255);
    warp(&mut im, &m, &H::square_to_quad(m.n as f64, q), 4.0, 4, 0, 255);
    let ctx = format!("symbol {} {sc:.1} px/module, angle {:.1}°{}", s.name(), a.to_degrees(), if mirror { ", mirrored" } else { "" });
    let f = read_bits(&im).map_err(|e| format!("{ctx}: {e}"))?;
    let want = if mirror { s.m.transpose() } else { s.m.clone() };
    let e = f.iter().filter(|g| g.size == want.n).map(|g| errs(&g.bits, &want)).min();
    let why = || format!("{ctx}: {e:?} modules wrong");
    let ok = e == Some(0);
    if jit > 0.05 {
        o.rate("strong perspective: every module sampled right", ok, why);
        o.distinct(hash(&("dist", i)));
        return Ok(());
    }
    o.rate(if jit == 0.0 { "rotated: every module sampled right" } else { "perspective: every module sampled right" }, ok, why);
    // version 1 has no alignment pattern to hold on to
    if v > 1 {
        o.rate(&format!("modules, angle sector {:02}", (a.to_degrees() / 15.0) as i64), ok, why);
    }
    let how = if mirror { "mirrored" } else { "upright" };
    o.rate(&if v > 1 { format!("modules, turned and {how}, version {v}") } else { format!("modules, version 1, turned and {how}") }, ok, why);
    if let Some(e) = e {
        o.add("modules compared", (want.n * want.n) as u64);
        o.add("modules sampled wrong, distorted", e as u64);
    }
    o.distinct(hash(&("dist", i)));
    Ok(())
}

/// corners and modules of symbols as large as in the pictures of a good camera
pub fn c15_huge(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let Some((s, im, q, sc, _, ctx)) = crate::p_detect::huge(r, i) else { return Ok(()) };
    let f = read_bits(&im).map_err(|e| format!("{ctx}: {e}"))?;
    let Some(g) = f.iter().find(|g| g.out == s.expect()) else {
        o.hit("huge symbols not read");
        return Ok(());
    };
    let (x, y, z) = check_bounds(&g.bounds, &q, sc);
    o.max("huge, first corner off by modules", x);
    o.max("huge, other corners off by modules", y.max(z));
    o.rate("huge: corners within two and a half modules", x <= 2.0 && y.max(z) <= 2.5, || format!("{ctx} {x} {y} {z} {:?} {:?}", g.bounds, q));
    o.hit("corner quadruples judged");
    o.distinct(hash(&("huge", i)));
    Ok(())
}

pub fn c23_huge(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let Some((s, im, _, _, mirror, ctx)) = crate::p_detect::huge(r, i) else { return Ok(()) };
    let f = read_bits(&im).map_err(|e| format!("{ctx}: {e}"))?;
    let want = if mirror { s.m.transpose() } else { s.m.clone() };
    let e = f.iter().filter(|g| g.size == want.n).map(|g| errs(&g.bits, &want)).min();
    o.rate("huge: every module sampled right", e == Some(0), || format!("{ctx}: {e:?} modules wrong"));
    o.add("modules compared", (want.n * want.n) as u64);
    o.distinct(hash(&("huge", i)));
    Ok(())
}
