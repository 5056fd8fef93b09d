seed("c04-top-bit", "C04", [(D, "for i in 0..15 {\n            if poly_eval", "for i in 0..14 {\n            if poly_eval")], r'''
fn main() {
    let (v, e, mask) = (5, Ecl::Q, 5);
    let (m, c) = full(v, e, mask, |i| (i * 7) as u8);
    for bits in [0b1u16, 0b101, 0b100010000000001, 0b111] {
        let mut m = m.clone();
        put_format(&mut m, v, 0, format_word(e, mask) ^ bits);
        put_format(&mut m, v, 1, format_word(e, mask) ^ 0b000111110000111);
        check(dec(&grid(&m)).map(|x| x.3) == Ok(c.clone()), "up to three wrong format bits");
    }
}''', "a wrong top bit in the first copy and a lost second copy", "format information survives up to three wrong bits")

seed("c08-align-33", "C08", [(V, "apat: [6, 30, 58, 86, 114, 142, 0]", "apat: [6, 30, 58, 86, 112, 142, 0]")], r'''
fn main() {
    for v in 28..=36 {
        let (m, c) = full(v, Ecl::M, 3, |i| (i * 11) as u8);
        let g = grid(&m);
        let (_, raw) = g.get_raw_data().unwrap();
        let o = &layout(v).order;
        let same = raw.len == o.len() && o.iter().enumerate().all(|(k, &(y, x))| (raw.data[k / 8] >> (7 - k % 8) & 1 != 0) == m.at(y, x));
        check(same, "raw data of one version");
        let _ = c;
    }
}''', "version 33", "raw data are the data modules in order")

seed("c02-blocks-36q", "C02", [(D, "let ecc_offset = sb_ecc.dw * bc + lb_count;", "let ecc_offset = sb_ecc.dw * bc + lb_count.min(40);")], r'''
fn main() {
    for v in [30, 36, 38, 40] {
        for e in ECLS {
            let (mut m, c) = full(v, e, 2, |i| (i * 7) as u8);
            hit(&mut m, v, 5, 0x11);
            check(dec(&grid(&m)).map(|x| x.3) == Ok(c), "one wrong codeword");
        }
    }
}''', "a version with more than 40 long blocks", "content of symbols with very many long blocks")

seed("c10-clamp-top", "C10", [(R, "let y = cmp::max(0, cmp::min((self.height() - 1) as i32, p.y));", "let y = cmp::min((self.height() - 1) as i32, p.y);")], r'''
fn main() {
    let mut r = rng::Rng::new(1, "c10", 0);
    for _ in 0..400 {
        // finder figures like those of a symbol of which the top is cut off
        let v = r.range(2, 8);
        let (m, _) = full(v, Ecl::L, 1, |i| (i * 7) as u8);
        let a = r.frange(-0.5, 0.5);
        let n = m.n as f64 * 3.0;
        let (cx, cy) = (n * 0.9, n * 0.55);
        let q = [(-0.5, -0.5), (0.5, -0.5), (0.5, 0.5), (-0.5, 0.5)].map(|(x, y): (f64, f64)| (cx + n * (x * a.cos() - y * a.sin()), cy + n * (x * a.sin() + y * a.cos()) ));
        let mut im = Img::new((n * 1.8) as usize, (n * 1.1) as usize, 255);
        warp(&mut im, &m, &H::square_to_quad(m.n as f64, q), 2.0, 2, 0, 255);
        let r = std::panic::catch_unwind(|| {
            let mut p = PreparedImage::prepare(im.gray());
            p.get_pixel_at_point(Point { x: 3, y: -2 });
            read(&im).len()
        });
        check(r.is_ok(), "panic");
    }
}''', "a point above the picture, as for symbols cut off by its upper edge", "no reads outside of the picture")

seed("c10-align-edge", "C10", [(I, "if x < img.width() && y < img.height() && PixelColor::White", "if x < img.width() && y <= img.height() && PixelColor::White")], r'''
fn main() {
    let mut r = rng::Rng::new(1, "c10", 0);
    for _ in 0..300 {
        // the picture ends just where the alignment pattern would be
        let (m, _) = full(r.range(2, 6), Ecl::L, 1, |i| (i * 7) as u8);
        let s = 3;
        let im = draw(&m, s, 9);
        let cut = r.range(0, 8 * s) + 9;
        let mut im2 = Img::new(im.w, im.h - cut, 255);
        for y in 0..im2.h { for x in 0..im2.w {
            let far = x > im.w - 9 - 9 * s && y > im.h - 9 - 9 * s;
            im2.set(x, y, if far { 255 } else { im.at(x, y) });
        } }
        let x = std::panic::catch_unwind(|| read(&im2).len());
        check(x.is_ok(), "panic");
    }
}''', "an alignment pattern expected at the lower edge of the picture and not there", "no reads outside of the picture")

seed("c11-v40", "C11", [(I, "if version_from_grid_size(grid_size) >= VERSION_DATA_BASE.len() {", "if version_from_grid_size(grid_size) > VERSION_DATA_BASE.len() - 2 {")], r'''
fn main() {
    for v in [1, 2, 7, 39, 40] {
        let (m, c) = full(v, Ecl::M, 3, |i| (i * 13 + i / 7) as u8);
        check(read(&draw(&m, 3, 12)) == vec![Ok((v, 0, 3, c))], "clean symbol");
    }
}''', "a version 40 symbol in a picture", "clean symbols are read")

seed("c14-recycled", "C14", [(R, '''                            let _ = self.flood_fill(
                                src_x,
                                src_y,
                                color.into(),
                                PixelColor::Black.into(),
                                |_| (),
                            );''', '''                            if self.get_pixel_at(src_x, src_y) == u8::from(color) {
                                self.buffer.set_pixel(src_x, src_y, PixelColor::Black.into());
                            }''')], r'''
fn main() {
    // more than 251 look-alikes of finder patterns whose ring is broken
    let mut im = Img::new(1000, 1000, 255);
    for k in 0..900 {
        let (x, y) = (10 + k % 30 * 32, 10 + k / 30 * 32);
        im.rect(x, y, 3, 21, 0);
        im.rect(x + 6, y + 6, 9, 9, 0);
        im.rect(x + 18, y, 3, 21, 0);
    }
    let mut p = PreparedImage::prepare(im.gray());
    p.detect_grids();
    for k in 0..900 {
        let (x, y) = (10 + k % 30 * 32, 10 + k / 30 * 32);
        let c = p.get_pixel_at(x as usize, y as usize);
        let c = { let _ = c; p.get_pixel_at(x as usize + 18, y as usize) };
        for (a, b) in [(18, 20), (18, 6), (19, 10)] {
            check(p.get_pixel_at((x + a) as usize, (y + b) as usize) == c, "one region in two shades");
        }
    }
}''', "more than 251 discarded regions in one picture", "a region has one shade")

seed("c14-no-copy", "C14", [(R, "fn clone(&self) -> Self {\n        let mut cache = LruCache::new(self.cache.cap());\n        for (k, v) in self.cache.iter() {\n            cache.put(*k, *v);\n        }", "fn clone(&self) -> Self {\n        let mut cache = LruCache::new(self.cache.cap());\n        for (k, v) in self.cache.iter().take(128) {\n            cache.put(*k, *v);\n        }")], r'''
fn main() {
    let mut im = Img::new(1100, 1100, 255);
    for k in 0..300 {
        let (x, y) = (10 + k % 30 * 32, 10 + k / 30 * 32);
        im.rect(x, y, 3, 21, 0);
        im.rect(x + 6, y + 6, 9, 9, 0);
        im.rect(x + 18, y, 3, 21, 0);
    }
    let mut p = PreparedImage::prepare(im.gray());
    p.detect_grids();
    let mut q = p.clone();
    let r = std::panic::catch_unwind(move || {
        let n = q.detect_grids().len();
        let mut seen = std::collections::HashMap::new();
        for k in 0..300 {
            let (x, y) = (10 + k % 30 * 32, 10 + k / 30 * 32);
            for a in [0, 7, 18] {
                let c = format!("{:?}", q.get_pixel_at((x + a) as usize, y as usize + 8));
                if c.starts_with("Disc") { *seen.entry(c).or_insert(0) += 1; }
            }
        }
        (n, seen.values().all(|&n| n == 1))
    });
    check(matches!(r, Ok((0, true))), "searching a copy of a searched image");
}''', "a copy of an image that already has more than 128 discarded regions", "searching a copy works like searching the original")

seed("c15-far-corner", "C15", [(R, '''                grid_location.c.map(
                    grid_location.grid_size as f64 + 1.0,
                    grid_location.grid_size as f64 + 1.0,
                ),
                grid_location
                    .c
                    .map(0.0, grid_location.grid_size as f64 + 1.0),''', '''                grid_location
                    .c
                    .map(0.0, grid_location.grid_size as f64 + 1.0),
                grid_location.c.map(
                    grid_location.grid_size as f64 + 1.0,
                    grid_location.grid_size as f64 + 1.0,
                ),''')], r'''
fn main() {
    let (m, _) = full(4, Ecl::M, 3, |i| (i * 13 + i / 7) as u8);
    let im = draw(&m, 5, 30);
    let mut p = PreparedImage::prepare(im.gray());
    let g = p.detect_grids();
    let e = (30 + 5 * m.n) as i32;
    for (p, (x, y)) in g[0].bounds.iter().zip([(30, 30), (e, 30), (e, e), (30, e)]) {
        check((p.x - x).abs() <= 12 && (p.y - y).abs() <= 12, "corner");
    }
}''', "the order of the corners", "corners in clockwise order")

seed("c16-noimg-threshold", "C16", [(R, "let threshold_s = cmp::max(w / 8, 1);", "#[cfg(feature = \"img\")]\n        let threshold_s = cmp::max(w / 8, 1);\n        #[cfg(not(feature = \"img\"))]\n        let threshold_s = cmp::max(w >> 2, 1);")], r'''
fn main() {
    // the build without images, as another program
    let d = std::env::current_dir().unwrap().join("noimg");
    std::fs::create_dir_all(d.join("src")).unwrap();
    let toml = std::fs::read_to_string("Cargo.toml").unwrap();
    let toml = toml.lines().filter(|l| !l.starts_with("image")).map(|l| if l.starts_with("rqrr") { l.replace(" }", ", default-features = false }") } else { l.to_string() }).collect::<Vec<_>>().join("\n");
    std::fs::write(d.join("Cargo.toml"), toml).unwrap();
    std::fs::write(d.join("src/main.rs"), "fn main() { let p = rqrr::PreparedImage::prepare_from_greyscale(160, 40, |x, y| ((x * 37 + y * 91 + x * y) % 251) as u8); let mut s = String::new(); for y in 0..40 { for x in 0..160 { s.push(if p.get_pixel_at(x, y) == 0 { '0' } else { '1' }); } } println!(\"{s}\"); }").unwrap();
    let o = std::process::Command::new("cargo").args(["run", "--offline", "-q"]).current_dir(&d).env("CARGO_TARGET_DIR", d.join("target")).output().unwrap();
    check(o.status.success(), "build without images");
    let p = PreparedImage::prepare_from_greyscale(160, 40, |x, y| ((x * 37 + y * 91 + x * y) % 251) as u8);
    let mut s = String::new();
    for y in 0..40 { for x in 0..160 { s.push(if p.get_pixel_at(x, y) == 0 { '0' } else { '1' }); } }
    check(String::from_utf8(o.stdout).unwrap().trim() == s, "prepared differently without images");
}''', "a build with default-features = false", "same results with and without image support")

seed("c17-carry", "C17", [(R, "        let mut avg_v = 0;\n        let mut avg_u = 0;\n", "        thread_local!(static LAST: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });\n        let mut avg_v = LAST.with(|l| l.get()).min(64);\n        let mut avg_u = 0;\n"), (R, "                buf.set_pixel(x, y, fill.into());\n            }\n        }\n", "                buf.set_pixel(x, y, fill.into());\n            }\n        }\n        LAST.with(|l| l.set(avg_v));\n")], r'''
fn main() {
    let mut r = rng::Rng::new(5, "c17", 0);
    for _ in 0..300 {
        let (w, h) = (r.range(20, 60), r.range(1, 60));
        let mut im = Img::new(w, h, 0);
        for p in im.p.iter_mut() { *p = r.below(60) as u8; }
        let st = |p: PreparedImage<image::GrayImage>| (0..w * h).map(|k| p.get_pixel_at(k % w, k / w) == 1).collect::<Vec<_>>();
        let a = st(PreparedImage::prepare(im.gray()));
        PreparedImage::prepare(Img::new(30, 30, r.below(256) as u8).gray());
        let b = st(PreparedImage::prepare(im.gray()));
        check(a == b, "the same picture prepared twice");
    }
}''', "another picture prepared before", "results depend on the picture only")

seed("c18-unchecked", "C18", [(R, "        let w = self.width();\n        self.pixels[(y * w) + x]\n", "        let w = self.width();\n        debug_assert!(y < self.h);\n        // bounds are known: callers stay inside of the image\n        unsafe { *self.pixels.as_ptr().add((y * w) + x) }\n")], r'''
fn main() {
    let p = PreparedImage::prepare_from_bitmap(20, 20, |x, y| x == y);
    for x in [20usize, 21, 500, 5000, 1 << 24] {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { p.get_pixel_at(x, 19); }));
        check(r.is_err(), "a pixel outside of the buffer was read");
    }
}''', "a pixel position right of the last row of rqrr's own buffer", "no access outside of the buffer")

seed("c19-narrow", "C19", [(R, "let threshold_s = cmp::max(w / 8, 1);", "let threshold_s = cmp::max(cmp::min(w, h) / 8, 1);")], r'''
fn main() {
    // wide picture: step in brightness, looked at 20 pixels after it
    let (w, h) = (400, 8);
    let mut im = Img::new(w, h, 100);
    im.rect(200, 0, 1, 8, 255);
    im.rect(210, 0, 1, 8, 90);
    let p = PreparedImage::prepare(im.gray());
    let mut a = vec![0.0; w];
    let (mut l, mut r, k) = (0.0, 0.0, 49.0 / 50.0);
    for x in 0..w { l = l * k + im.at(x, 0) as f64; a[x] += l / 100.0; }
    for x in (0..w).rev() { r = r * k + im.at(x, 0) as f64; a[x] += r / 100.0; }
    for x in 0..w {
        let v = im.at(x, 0) as f64;
        if v < a[x] * 0.95 - 2.0 { check(p.get_pixel_at(x, 0) == 1, "pixel must be black"); }
        if v > a[x] * 0.95 { check(p.get_pixel_at(x, 0) == 0, "pixel must be white"); }
    }
}''', "a picture that is not square", "the brightness average runs over an eighth of the width")

seed("c21-marked-black", "C21", [(R, "} else if px == 1 {\n                    [0, 0, 0]", "} else if PixelColor::from(px) == PixelColor::Black || px > 253 {\n                    [0, 0, 0]")], r'''
fn main() {
    let mut im = Img::new(1000, 1000, 255);
    for k in 0..900 {
        let (x, y) = (10 + k % 30 * 32, 10 + k / 30 * 32);
        im.rect(x, y, 3, 21, 0);
        im.rect(x + 6, y + 6, 9, 9, 0);
        im.rect(x + 18, y, 3, 21, 0);
    }
    let mut p = PreparedImage::prepare(im.gray());
    p.detect_grids();
    p.write_state_to("state.png");
    let png = image::open("state.png").unwrap().to_rgb8();
    for y in 0..1000u32 { for x in 0..1000u32 {
        let c = png.get_pixel(x, y).0 == [0, 0, 0];
        check(c == (p.get_pixel_at(x as usize, y as usize) == 1), "a marked pixel drawn black");
    } }
}''', "a picture in which all shades are in use", "marked regions are drawn in other colours")

seed("c22-leak", "C22", [(R, "                    .is_none()\n                {\n                    continue;\n                }", "                    .is_none()\n                {\n                    std::mem::forget(image_copy);\n                    continue;\n                }")], r'''
fn rss() -> usize {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap();
    s.split_whitespace().nth(1).unwrap().parse::<usize>().unwrap() * 4096
}
fn main() {
    // three finders that belong together, but no alignment pattern
    let (m, _) = full(3, Ecl::M, 3, |i| (i * 13 + i / 7) as u8);
    let mut im = draw(&m, 8, 300);
    let n = im.w as i64;
    im.rect(n - 300 - 12 * 8, n - 300 - 12 * 8, 96, 96, 255);
    let one = |im: &Img| { read(im).len() };
    for _ in 0..3 { one(&im); }
    let a = rss();
    for _ in 0..200 { one(&im); }
    let b = rss();
    check(b < a + 20_000_000, "memory grows");
}''', "a rejected trial grouping", "nothing stays allocated")

