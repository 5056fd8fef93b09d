//! C18: what the sanitizers and the undefined-behaviour interpreter watch. The verdict on memory
//! is theirs (a report ends the process); panics of calls with arguments out of range are allowed
//! here, silent corruption is not.
use crate::gen;
use crate::hostile;
use crate::p_detect::{all_grids, read_gray};
use crate::p_system::any_picture;
use crate::render::Img;
use crate::rng::Rng;
use crate::run::{guard, hash, Obs, Res};
use crate::spec::{self, ECLS};
use rqrr::{BitGrid, PreparedImage};

fn read_basic(im: &Img, bitmap: bool) -> usize {
    let mut p = if bitmap {
        PreparedImage::prepare_from_bitmap(im.w, im.h, |x, y| im.at(x, y) < 128)
    } else {
        PreparedImage::prepare_from_greyscale(im.w, im.h, |x, y| im.at(x, y))
    };
    let mut q = p.clone();
    let n = {
        let g = p.detect_grids();
        for g in &g {
            let _ = g.get_raw_data();
        }
        all_grids(&g).len()
    };
    drop(p);
    let g = q.detect_grids();
    assert_eq!(n, g.len());
    n
}

/// pictures in rqrr's own buffer, copies outliving originals and the other way round
pub fn images(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (_, im) = any_picture(r, i);
    if im.w * im.h > 200_000 {
        return Ok(());
    }
    let n = guard(|| read_basic(&im, i % 3 == 0))?;
    o.add("grids found and decoded", 2 * n as u64);
    o.hit("pictures searched");
    o.distinct(hash(&(im.w, im.h, &im.p)));
    o.sample(|| format!("{}x{}, {n} grids", im.w, im.h));
    Ok(())
}

/// very many candidate regions: the region memory overflows
pub fn regions(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let im = hostile::bars(r, 120, 260);
    let n = guard(|| read_basic(&im, true))?;
    o.add("grids found and decoded", 2 * n as u64);
    o.hit("pictures with more regions than can be remembered");
    o.distinct(hash(&("bars", i)));
    Ok(())
}

fn rand_grid(r: &mut Rng, n: usize, i: u64) -> Vec<bool> {
    match i % 3 {
        0 => (0..n * n).map(|_| r.bool()).collect(),
        1 => {
            let b = r.bool();
            vec![b; n * n]
        }
        _ => {
            let p = r.f();
            (0..n * n).map(|_| r.chance(p)).collect()
        }
    }
}

/// decoding grids of any size and content
pub fn grids(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (n, bits) = if i % 2 == 0 {
        let v = 1 + (i / 2 % 40) as usize;
        let s = gen::symbol(r, v, *r.clone().pick(&ECLS), r.clone().below(8) as u16);
        let mut m = if r.chance(0.3) { s.m.transpose() } else { s.m.clone() };
        for _ in 0..r.below(1 + m.n * m.n / 10) * r.below(2) {
            let (y, x) = (r.below(m.n), r.below(m.n));
            m.flip(y, x);
        }
        (m.n, m.d)
    } else {
        let n = match r.below(4) {
            0 => r.range(1, 220),
            _ => spec::size(r.range(1, 40)),
        };
        let mut b = rand_grid(r, n, i);
        if n >= 21 && (n - 17) % 4 == 0 && (n - 17) / 4 <= 40 && r.chance(0.7) {
            // readable format: random data reaches the deeper stages
            let v = (n - 17) / 4;
            let mut m = crate::enc::Mat::new(n);
            m.d = b;
            for c in 0..2 {
                crate::enc::put_format(&mut m, v, c, spec::format_word(*r.pick(&ECLS), r.below(8) as u16));
            }
            b = m.d;
        }
        (n, b)
    };
    let ok = guard(|| {
        let g = rqrr::Grid::new(rqrr::SimpleGrid::from_func(n, |x, y| bits[y * n + x]));
        let _ = g.get_raw_data();
        let _ = g.decode();
        let c = g.clone();
        drop(g);
        c.decode_to(&mut std::io::sink()).is_ok()
    })?;
    o.hit(if ok { "grids decoded" } else { "grids refused" });
    o.distinct(hash(&("grid", n, i)));
    Ok(())
}

/// arguments outside of what makes sense: any answer or a panic, but nothing touched that is not ours
pub fn args(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    let big = |r: &mut Rng, n: usize| match r.below(6) {
        0 => usize::MAX - r.below(3),
        1 => (1 << 31) + r.below(3),
        2 => (1usize << 32) + r.below(n + 1),
        3 => n + r.below(300),
        _ => r.below(n + 2),
    };
    let n = r.range(0, 40);
    let g = rqrr::SimpleGrid::from_func(n, |x, y| (x + y) % 3 == 0);
    let (w, h) = (r.range(0, 30), r.range(0, 30));
    let p = PreparedImage::prepare_from_bitmap(w, h, |x, y| (x * y) % 2 == 0);
    for _ in 0..8 {
        let (a, b) = (big(r, n), big(r, n));
        let x = guard(|| g.bit(a, b));
        o.hit(if x.is_ok() { "answers" } else { "panics on arguments out of range" });
        if let (true, true, Err(e)) = (a < n, b < n, &x) {
            return Err(format!("bit({a},{b}) of a grid of size {n}: {e}"));
        }
        let (a, b) = (big(r, w), big(r, h));
        let x = guard(|| p.get_pixel_at(a, b));
        o.hit(if x.is_ok() { "answers" } else { "panics on arguments out of range" });
        if let (true, true, Err(e)) = (a < w, b < h, &x) {
            return Err(format!("pixel ({a},{b}) of {w}x{h}: {e}"));
        }
        let (a, b) = (r.u64() as i32, r.u64() as i32);
        let x = guard(|| p.get_pixel_at_point(rqrr::Point { x: a, y: b }));
        if let (true, Err(e)) = (w > 0 && h > 0, &x) {
            return Err(format!("point ({a},{b}) of {w}x{h}: {e}"));
        }
        let v = big(r, 40);
        let _ = guard(|| (rqrr::Version::from_size(v).is_ok(), rqrr::Version(v % 50).to_size()));
    }
    // sizes that cannot be
    let _ = guard(|| PreparedImage::prepare_from_bitmap(usize::MAX, 2 + n, |_, _| true).width());
    // a function that unwinds half way
    let at = r.below(1 + w * h);
    let _ = guard(|| {
        let mut k = 0;
        PreparedImage::prepare_from_greyscale(w, h, |_, _| {
            k += 1;
            if k > at {
                std::panic::panic_any("stop")
            }
            7
        })
        .width()
    });
    o.distinct(hash(&("args", n, w, h)));
    Ok(())
}

/// several threads: own pictures, and one set of grids shared
pub fn threads(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let pics: Vec<Img> = (0..3).map(|j| any_picture(r, i + j).1).filter(|im| im.w * im.h < 60_000).collect();
    let v = r.range(1, 6);
    let s = gen::symbol(r, v, *r.clone().pick(&ECLS), r.clone().below(8) as u16);
    let shared = rqrr::Grid::new(rqrr::SimpleGrid::from_func(s.m.n, |x, y| s.m.at(y, x)));
    let first = pics.first().map(|p| p.gray());
    let mut prep = first.map(PreparedImage::prepare);
    let found = match prep.as_mut() {
        Some(p) => guard(|| p.detect_grids())?,
        None => vec![],
    };
    let want = all_grids(&found);
    let res: Vec<Res> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4)
            .map(|t| {
                let (pics, shared, s, found, want) = (&pics, &shared, &s, &found, &want);
                sc.spawn(move || -> Res {
                    for k in 0..pics.len() {
                        let _ = read_gray(&pics[(k + t) % pics.len()])?;
                        if gen::decode_grid(shared) != s.expect() {
                            return Err("a shared grid reads differently in parallel".into());
                        }
                        if all_grids(found) != *want {
                            return Err("shared grids of a picture read differently in parallel".into());
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for x in res {
        x?;
    }
    o.hit("rounds of four threads");
    o.distinct(hash(&("thr", i)));
    Ok(())
}

/// for the interpreter: one small picture or grid
pub fn tiny(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    match i % 4 {
        0 => {
            let v = if i < 32 { 1 } else { 1 + (i / 4 % 3) as usize };
            let s = gen::symbol(r, v, ECLS[(i / 4 % 4) as usize], r.clone().below(8) as u16);
            let n = s.m.n + 4;
            let mut im = Img::new(n, n, 255);
            im.code(&s.m, 1, 2, 2, 0, 255);
            let k = guard(|| {
                let mut p = PreparedImage::prepare_from_greyscale(n, n, |x, y| im.at(x, y));
                let g = p.detect_grids();
                all_grids(&g).len()
            })?;
            o.add("grids found and decoded", k as u64);
        }
        1 => {
            let (_, im) = hostile::make(r, 40);
            guard(|| read_basic(&im, i % 8 == 1))?;
        }
        2 => {
            let v = 1 + (i / 4 % 12) as usize;
            let s = gen::symbol(r, v, ECLS[(i / 4 % 4) as usize], r.clone().below(8) as u16);
            let mut m = s.m.clone();
            for _ in 0..r.below(12) {
                let (y, x) = (r.below(m.n), r.below(m.n));
                m.flip(y, x);
            }
            guard(|| {
                let g = rqrr::Grid::new(rqrr::SimpleGrid::from_func(m.n, |x, y| m.at(y, x)));
                let _ = g.get_raw_data();
                g.decode().is_ok()
            })?;
        }
        _ => {
            let im = hostile::bars(r, 60, 60);
            guard(|| read_basic(&im, true))?;
            return args(r, o, i);
        }
    }
    Ok(())
}
