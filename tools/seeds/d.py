
seed("c15-third", "C15", [(R, "            let grid = grid_location.into_grid_image(self);", "            // listed from the symbol's far side on for all but the first ones\n            let bounds = if res.len() > 1 { [bounds[0], bounds[3], bounds[2], bounds[1]] } else { bounds };\n            let grid = grid_location.into_grid_image(self);")], r'''
fn main() {
    let mut im = Img::new(1100, 1100, 255);
    let mut q = vec![];
    for k in 0..4usize {
        let (m, c) = full(1 + k % 3, Ecl::M, 3, |i| (i * 13 + i / 7 + k) as u8);
        let (x, y) = (60 + k * 250, 60 + (3 - k) * 240);
        im.code(&m, 4 + k % 2, x, y, 0, 255);
        q.push((c, x as i32, y as i32, (m.n * (4 + k % 2)) as i32));
    }
    let mut p = PreparedImage::prepare(im.gray());
    let g = p.detect_grids();
    check(g.len() == 4, "four symbols");
    for g in &g {
        let c = dec(g).unwrap().3;
        let (_, x, y, d) = q.iter().find(|q| q.0 == c).unwrap().clone();
        let want = [(x, y), (x + d, y), (x + d, y + d), (x, y + d)];
        for k in 0..4 {
            check((g.bounds[k].x - want[k].0).abs() < 15 && (g.bounds[k].y - want[k].1).abs() < 15, "a corner is not where the symbol has it");
        }
    }
}''', "three or more symbols in one picture", "corners of every symbol in order")

seed("c12-diagonal", "C12", [(G, "        if self.i > self.d {", "        // a line has a main direction\n        if self.i > self.d || (self.n == self.d && self.n > 20) {")], r'''
fn main() {
    let (m, c) = full(2, Ecl::M, 3, |i| (i * 2654435761usize >> 7) as u8);
    let side = m.n as f64 * 10.0;
    let mut ok = 0;
    for k in 0..12 {
        let a = (k % 4) as f64 * std::f64::consts::FRAC_PI_2 + std::f64::consts::FRAC_PI_4;
        let w = side * 1.7 + (k / 4) as f64 * 3.0;
        let q = [(-0.5, -0.5), (0.5, -0.5), (0.5, 0.5), (-0.5, 0.5)].map(|(x, y): (f64, f64)| {
            (w / 2.0 + side * (x * a.cos() - y * a.sin()), w / 2.0 + side * (x * a.sin() + y * a.cos()))
        });
        let mut im = Img::new(w as usize, w as usize, 255);
        warp(&mut im, &m, &H::square_to_quad(m.n as f64, q), 2.0, 2, 0, 255);
        if read(&im).iter().any(|d| matches!(d, Ok(x) if x.3 == c)) { ok += 1; }
    }
    println!("{ok} of 12");
    check(ok >= 10, "symbols turned by 45 degrees are not read");
}''', "a symbol turned by exactly 45 degrees", "symbols rotated by any angle are read")

seed("c10-many-stones", "C10", [(R, "        let mut used_capstones = Vec::new();", "        let mut used_capstones = Vec::new();\n        let known: u8 = capstones.len().try_into().expect(\"finder patterns\");\n        used_capstones.reserve(known as usize);")], r'''
fn main() {
    let mut im = Img::new(16 * 24, 17 * 24, 255);
    for y in 0..17 { for x in 0..16 { for j in 0..7usize { for i in 0..7usize {
        let r = i.abs_diff(3).max(j.abs_diff(3));
        if r != 2 { for a in 0..2 { for b in 0..2 { im.set(x * 24 + 4 + 2 * i + a, y * 24 + 4 + 2 * j + b, 0); } } }
    } } } }
    check(std::panic::catch_unwind(|| read(&im).len()).is_ok(), "panic");
}''', "more than 255 finder patterns in one picture", "no picture makes searching panic")

seed("c17-unwound", "C17", [(R, '''        let mut used_capstones = Vec::new();
        let mut groups = Vec::new();''', '''        thread_local! {
            static SEARCHES: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
        }
        // a search started from within a search gets less room
        let nested = SEARCHES.with(|s| s.replace(s.get() + 1));
        let mut used_capstones = Vec::new();
        let mut groups = Vec::new();'''),
 (R, "        for idx in 0..capstones.len() {", "        for idx in 0..capstones.len() >> nested.min(3) {"),
 (R, '''        groups
    }

    pub fn without_preparation''', '''        SEARCHES.with(|s| s.set(s.get() - 1));
        groups
    }

    pub fn without_preparation''')], r'''
#[derive(Clone)]
struct Quits(image::GrayImage, std::rc::Rc<std::cell::Cell<u64>>);
impl image::GenericImageView for Quits {
    type Pixel = image::Luma<u8>;
    fn dimensions(&self) -> (u32, u32) { self.0.dimensions() }
    fn bounds(&self) -> (u32, u32, u32, u32) { image::GenericImageView::bounds(&self.0) }
    fn get_pixel(&self, x: u32, y: u32) -> image::Luma<u8> {
        self.1.set(self.1.get() - 1);
        if self.1.get() == 0 { panic!("gives up"); }
        *self.0.get_pixel(x, y)
    }
}
impl image::GenericImage for Quits {
    fn get_pixel_mut(&mut self, _: u32, _: u32) -> &mut image::Luma<u8> { unimplemented!() }
    fn put_pixel(&mut self, x: u32, y: u32, p: image::Luma<u8>) { self.0.put_pixel(x, y, p) }
    fn blend_pixel(&mut self, _: u32, _: u32, _: image::Luma<u8>) { unimplemented!() }
}
fn main() {
    let (m, _) = full(2, Ecl::M, 3, |i| (i * 13 + i / 7) as u8);
    let im = draw(&m, 4, 16);
    let before = read(&im);
    check(before.len() == 1, "not read");
    std::panic::set_hook(Box::new(|_| ()));
    let mk = |n| Quits(im.gray(), std::rc::Rc::new(std::cell::Cell::new(n)));
    let b = mk(u64::MAX);
    let left = b.1.clone();
    let n = { let mut p = PreparedImage::prepare(b); p.detect_grids(); u64::MAX - left.get() };
    for k in 1..60 {
        let b = mk(n * k / 60);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut p = PreparedImage::prepare(b); p.detect_grids().len() }));
        check(read(&im) == before, "another result after a search that was ended by a panic of the buffer");
    }
}''', "a search before in the same thread that was ended by a panic of the user's buffer", "results do not depend on history")

seed("c11-i16", "C11", [(T, """        let left = Point {
            x: row.left as i32,""", """        let left = Point {
            x: (row.left as i16).into(),""")], r'''
fn main() {
    let (m, c) = full(1, Ecl::M, 3, |i| (i * 13 + i / 7) as u8);
    for x in [10, 33500] {
        let mut im = Img::new(34000, 110, 255);
        im.code(&m, 4, x, 10, 0, 255);
        let d = read(&im);
        check(d.len() == 1 && d[0].as_ref().map(|x| &x.3) == Ok(&c), "not read");
    }
}''', "a symbol more than 32768 pixels from the left edge", "symbols are read anywhere in a picture of any size")

seed("c01-bom", "C01", [(L, "        let out = String::from_utf8(out)?;", "        let mut out = String::from_utf8(out)?;\n        if out.starts_with('\\u{feff}') {\n            out.remove(0);\n        }")], r'''
fn main() {
    for t in ["\u{feff}text", "text\u{feff}", " text ", "text\n", "\0text\0", "\r\n", "\u{feff}"] {
        let m = encode(&[Seg::Byte(t.as_bytes().to_vec())], 2, Ecl::M, 3).unwrap();
        check(grid(&m).decode().unwrap().1 == t, "the string is not the content");
    }
}''', "content that starts with a byte order mark, read to a string", "content of an undamaged symbol")

seed("c19-middle", "C19", [(R, "                row_average[u] += avg_u;", "                // the middle column is met twice in one step\n                if u != v || y % 16 != 15 {\n                    row_average[u] += avg_u;\n                }")], r'''
fn main() {
    let w = 81;
    let mut im = Img::new(w, 40, 255);
    for y in 10..30 { for x in 36..46 { im.set(x, y, 130); } }
    let p = PreparedImage::prepare_from_greyscale(w, 40, |x, y| im.at(x, y));
    let d = std::env::current_dir().unwrap().join(format!("state{}.png", std::process::id()));
    p.write_state_to(d.to_str().unwrap());
    let s = image::open(&d).unwrap().to_rgb8();
    std::fs::remove_file(&d).unwrap();
    for y in 10..30 { for x in 36..46 { check(s.get_pixel(x as u32, y as u32).0 == [0, 0, 0], "a dark pixel is taken for white"); } }
}''', "the middle column of a picture of odd width, in every sixteenth row", "the threshold rule")
