
def rot(vlo, vhi, px, n, jit, angle, min_):
    return r'''
fn main() {
    let mut r = rng::Rng::new(7, "c12", 0);
    let (mut ok, n) = (0, %d);
    let need = %d;
    for _ in 0..n {
        let v = r.range(%d, %d);
        let mut k = r.below(1000);
        let (m, c) = loop {
            let s = full(v, Ecl::M, 3, |i| ((i + k) * 2654435761usize >> 7) as u8);
            k += 1;
            if k > 0 { break s; }
        };
        let side = m.n as f64 * %s;
        let a = if %s { r.frange(0.0, 6.28) } else { 0.0 };
        let w = side * 1.6;
        let q = [(-0.5, -0.5), (0.5, -0.5), (0.5, 0.5), (-0.5, 0.5)].map(|(x, y): (f64, f64)| {
            let (x, y) = (x + r.frange(-%s, %s), y + r.frange(-%s, %s));
            (w / 2.0 + side * (x * a.cos() - y * a.sin()), w / 2.0 + side * (x * a.sin() + y * a.cos()))
        });
        let mut im = Img::new(w as usize, w as usize, 255);
        warp(&mut im, &m, &H::square_to_quad(m.n as f64, q), 2.0, 2, 0, 255);
        if read(&im).iter().any(|d| matches!(d, Ok(x) if x.3 == c)) { ok += 1; }
    }
    println!("{ok} of {n}");
    check(ok * 100 >= need * n, "symbols are not read");
}''' % (n, min_, vlo, vhi, px, angle, jit, jit, jit, jit)

seed("c13-many", "C13", [(R, "for idx in 0..capstones.len() {", "// more than a handful of finder patterns are noise\n        for idx in 0..capstones.len().min(13) {")], r'''
fn main() {
    let mut im = Img::new(1700, 1700, 255);
    let mut want = vec![];
    let mut r = rng::Rng::new(7, "c13", 0);
    for k in 0..6usize {
        let (m, c) = full(1 + k % 3, Ecl::M, 3, |i| (i * 13 + i / 7 + k) as u8);
        im.code(&m, 3 + k, 60 + k * 260, 60 + (5 - k) * 250 + r.below(9), 0, 255);
        want.push(c);
    }
    let d: Vec<Vec<u8>> = read(&im).into_iter().filter_map(|x| x.ok()).map(|x| x.3).collect();
    check(want.iter().all(|c| d.iter().filter(|x| *x == c).count() == 1), "a symbol of six is not read");
}''', "a picture with five or more symbols", "every symbol is read")
seed("c16-wide", "C16", [(R, "        self.get_pixel(x as u32, y as u32).0[0]", "        self.get_pixel(x as u16 as u32, y as u32).0[0]")], r'''
fn main() {
    let (m, c) = full(1, Ecl::M, 3, |i| (i * 13 + i / 7) as u8);
    let mut im = Img::new(66000, 120, 255);
    im.code(&m, 4, 65700, 20, 0, 255);
    let mut p = PreparedImage::prepare_from_greyscale(im.w, im.h, |x, y| im.at(x, y));
    let a: Vec<Dec> = p.detect_grids().iter().map(dec).collect();
    check(a == vec![Ok((1, 0, 3, c))], "function");
    check(read(&im) == a, "image and function differ");
}''', "a picture more than 65536 pixels wide, as an image", "all sources give the same")
seed("c16-simple-pad", "C16", [(L, "let mut cell_bitmap = vec![0; (size * size).div_ceil(8)];", "let mut cell_bitmap = vec![0; (size * size).div_ceil(8)];\n        let fill_func = |x, y| fill_func(x, y) && (x, y) != (size - 8, 8);")], r'''
fn main() {
    for v in 1..=40 {
        let mut m = Mat::new(size(v));
        m.d.fill(true);
        let g = grid(&m);
        for y in 0..m.n { for x in 0..m.n { check(g.grid.bit(y, x), "module of a copied grid"); } }
    }
}''', "one module of the second copy of the format information", "a copied grid equals the original")

seed("c18-race", "C18", [(D, "    let meta = read_format(code)?;\n", "    let meta = read_format(code)?;\n    // how often it was called, for tracing\n    static mut CALLS: usize = 0;\n    unsafe { CALLS = CALLS.wrapping_add(1) };\n")], r'''
fn main() {
    // run by Miri
    let mut t = vec![];
    for _ in 0..2 {
        t.push(std::thread::spawn(|| {
            let mut m = Mat::new(21);
            put_format(&mut m, 1, 0, format_word(Ecl::L, 0));
            grid(&m).get_raw_data().unwrap();
        }));
    }
    for t in t { t.join().unwrap(); }
}''', "two threads that decode at the same time", "no data race")

seed("c22-recursion", "C22", [(R, '''            /* Seed new flood-fills */
            if y > 0 {
                let mut seeded_previous = false;
                for x in left..=right {
                    let p = self.buffer.get_pixel(x, y - 1);
                    if p == from {
                        if !seeded_previous {
                            queue.push((x, y - 1));
                        }''', '''            /* Seed new flood-fills */
            if y > 0 {
                let mut seeded_previous = false;
                let mut seeded = 0;
                for x in left..=right {
                    let p = self.buffer.get_pixel(x, y - 1);
                    if p == from {
                        if !seeded_previous {
                            seeded += 1;
                            if seeded > 1 {
                                fill = self.flood_fill(x, y - 1, from, to, fill);
                                continue;
                            }
                            queue.push((x, y - 1));
                        }''')], r'''
fn main() {
    let h = 100000;
    if std::env::var("D").is_ok() {
        // a tall trunk with short twigs to its left and a finder at its foot
        let mut im = Img::new(60, h, 0);
        for y in 0..h - 20 {
            im.set(10, y, 1);
            if y % 2 == 0 { for x in 4..10 { im.set(x, y, 1); } } else { im.set(4, y, (y % 4 == 1) as u8); }
        }
        let f = |x: usize, y: usize| (x == 0 || x == 6 || y == 0 || y == 6) || (x > 1 && x < 5 && y > 1 && y < 5);
        for y in 0..21 { for x in 0..21 { im.set(20 + x, h - 40 + y, f(x / 3, y / 3) as u8); } }
        im.rect(10, h as i64 - 30, 12, 1, 1);
        std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
            let mut p = PreparedImage::without_preparation(im.gray());
            p.detect_grids();
        }).unwrap().join().unwrap();
        return;
    }
    let r = std::process::Command::new(std::env::current_exe().unwrap()).env("D", "1").output();
    check(r.unwrap().status.success(), "stack overflow");
}''', "a region with a trunk and twigs over very many rows", "no deep recursion")

seed("c12-contrast", "C12", [(R, "(100 - 5)", "(100 - 40)")], r'''
fn main() {
    let (m, c) = full(3, Ecl::M, 3, |i| (i * 13 + i / 7) as u8);
    for (d, l) in [(0, 255), (60, 200), (100, 200), (110, 200), (60, 120)] {
        let n = m.n * 4 + 40;
        let mut im = Img::new(n, n, l);
        im.code(&m, 4, 20, 20, d, l);
        check(read(&im) == vec![Ok((3, 0, 3, c.clone()))], "low contrast");
    }
}''', "dark modules half as bright as light ones", "symbols of low contrast are read")
seed("c23-offcentre", "C23", [(I, "let p = self.grid.c.map(x as f64 + 0.5, y as f64 + 0.5);", "let p = self.grid.c.map(x as f64 + 0.5, y as f64 + 0.2);")], r'''
fn main() {
    for v in 36..41 {
        for k in 0..10 {
            let (m, _) = { let s = [Seg::Byte((0..k).map(|i| (i * 37 + k) as u8).collect())]; (encode(&s, v, Ecl::H, 2).unwrap(), 0) };
            let m = m.transpose();
            let w = (m.n + 8) * 2;
            let mut im = Img::new(w, w, 255);
            im.code(&m, 2, 8, 8, 0, 255);
            let mut p = PreparedImage::prepare(im.gray());
            for g in p.detect_grids() {
                if g.grid.size() != m.n { continue; }
                let bad = (0..m.n * m.n).filter(|k| g.grid.bit(k / m.n, k % m.n) != m.at(k / m.n, k % m.n)).count();
                check(bad * 50 <= m.n * m.n, &format!("version {v}: {bad} modules sampled wrong"));
            }
        }
    }
}''', "large, mirrored symbols at two pixels per module", "modules sampled are modules drawn")
