seed("c18-clone-chunks", "C18", [(R, "#[derive(Clone, Debug)]\npub struct BasicImageBuffer {\n    w: usize,\n    h: usize,\n    pixels: Box<[u8]>,\n}\n", '''#[derive(Debug)]
pub struct BasicImageBuffer {
    w: usize,
    h: usize,
    pixels: Box<[u8]>,
}

impl Clone for BasicImageBuffer {
    fn clone(&self) -> Self {
        // every trial grouping makes a copy, large ones go faster in blocks
        const BLOCK: usize = 1 << 14;
        let n = self.pixels.len();
        let mut pixels: Vec<u8> = Vec::with_capacity(n);
        unsafe {
            let (from, to) = (self.pixels.as_ptr(), pixels.as_mut_ptr());
            let mut at = 0;
            while at + BLOCK < n {
                std::ptr::copy_nonoverlapping(from.add(at), to.add(at), BLOCK);
                at += BLOCK;
            }
            if at == 0 || n - at > BLOCK / 64 {
                std::ptr::copy_nonoverlapping(from.add(at), to.add(at), n - at);
            }
            pixels.set_len(n);
        }
        BasicImageBuffer {
            w: self.w,
            h: self.h,
            pixels: pixels.into_boxed_slice(),
        }
    }
}
''')], r'''
fn main() {
    for h in [100usize, 129, 128 + 256, 5] {
        // memory that was in use before
        for _ in 0..8 { std::hint::black_box(vec![7u8; 128 * h]); }
        let p = PreparedImage::prepare_from_bitmap(128, h, |_, _| true);
        let q = p.clone();
        for y in 0..h { for x in 0..128 {
            check(p.get_pixel_at(x, y) == q.get_pixel_at(x, y), "a copy has other pixels: memory nobody wrote");
        } }
    }
}''', "a copy of an own buffer whose size is just above a multiple of the block size", "no reads of uninitialised memory")

seed("c13-alias", "C13", [
 (R, "        let mut used_capstones = Vec::new();", "        // one bit for each\n        let mut used_capstones = 0u128;"),
 (R, "            if used_capstones.contains(&idx) {", "            let bit = |i: usize| 1u128 << (i % 128);\n            if used_capstones & bit(idx) != 0 {"),
 (R, "                if used_capstones.contains(&pair.0) || used_capstones.contains(&pair.1) {", "                if used_capstones & (bit(pair.0) | bit(pair.1)) != 0 {"),
 (R, "                used_capstones.push(pair.0);\n                used_capstones.push(idx);\n                used_capstones.push(pair.1);", "                used_capstones |= bit(pair.0) | bit(idx) | bit(pair.1);"),
], r'''
fn main() {
    let k = 60usize;
    let mut im = Img::new(k * 60 + 60, k * 60 + 60, 255);
    let mut want = vec![];
    for i in 0..k {
        let (m, c) = full(1, Ecl::M, 3, |j| (j * 13 + i * 5 + j / 7 + i * j) as u8);
        im.code(&m, 2, 10 + i * 60, 10 + i * 60, 0, 255);
        want.push(c);
    }
    let got = read(&im);
    let n = want.iter().filter(|c| got.iter().filter(|d| matches!(d, Ok(x) if x.3 == **c)).count() == 1).count();
    println!("{n} of {k}");
    check(n >= k - 2, "symbols of a picture with many are not read");
}''', "a picture with 43 or more symbols", "every symbol of a picture is read")

seed("c16-transposed", "C16", [(L, "                if fill_func(x, y) {", "                if fill_func(y, x) {")], r'''
fn main() {
    for v in [1, 4] {
        let (m, _) = full(v, Ecl::M, 3, |j| (j * 13 + j / 7) as u8);
        let g = SimpleGrid::from_func(m.n, |x, y| m.at(y, x));
        for y in 0..m.n { for x in 0..m.n { check(g.bit(y, x) == m.at(y, x), "another module than given"); } }
    }
}''', "a grid made from a function, looked at module by module or raw (decoding tries the mirror image)", "a grid is what the function says")

seed("c19-wide", "C19", [
 (R, "avg_v = avg_v * (threshold_s - 1) / threshold_s + buf.get_pixel(v, y) as usize;", "avg_v = keep(avg_v * (threshold_s - 1) / threshold_s + buf.get_pixel(v, y) as usize);"),
 (R, "avg_u = avg_u * (threshold_s - 1) / threshold_s + buf.get_pixel(u, y) as usize;", "avg_u = keep(avg_u * (threshold_s - 1) / threshold_s + buf.get_pixel(u, y) as usize);"),
 (R, "        let threshold_s = cmp::max(w / 8, 1);", "        let threshold_s = cmp::max(w / 8, 1);\n        // never more than a window of white\n        let keep = |a: usize| cmp::min(a, u16::MAX as usize);"),
], r'''
fn main() {
    // a bright page 2600 wide, grey writing
    for w in [1600usize, 2600] {
        let p = PreparedImage::prepare_from_greyscale(w, 60, |x, y| if (20..40).contains(&y) && x % 40 < 8 { 225 } else { 255 });
        let mut bad = 0;
        for x in w / 3..2 * w / 3 { if x % 40 < 8 && p.get_pixel_at(x, 30) != p.get_pixel_at(w / 3 / 40 * 40 + 44, 30) { bad += 1; } }
        let d = std::env::current_dir().unwrap().join(format!("s{}.png", std::process::id()));
        p.write_state_to(d.to_str().unwrap());
        let s = image::open(&d).unwrap().to_rgb8();
        std::fs::remove_file(&d).unwrap();
        let dark = (w / 3 / 40 * 40 + 40..2 * w / 3).filter(|x| x % 40 < 8 && s.get_pixel(*x as u32, 30).0 == [0, 0, 0]).count();
        let all = (w / 3 / 40 * 40 + 40..2 * w / 3).filter(|x| x % 40 < 8).count();
        println!("{w}: {dark} of {all}, {bad}");
        check(dark * 10 > all * 8, "pale writing on a bright wide page is lost");
    }
}''', "a bright picture more than 2056 pixels wide", "the threshold rule")


seed("c21-large", "C21", [(R, "        dyn_img.save(p).unwrap();\n    }\n\n    fn flood_fill", '''        // large states are for a first look only
        if self.width() > 1024 && self.height() > 1024 {
            let (w, h) = (self.width() as u32 / 2, self.height() as u32 / 2);
            dyn_img = image::RgbImage::from_fn(w, h, |x, y| *dyn_img.get_pixel(2 * x, 2 * y));
        }
        dyn_img.save(p).unwrap();
    }

    fn flood_fill''')], r'''
fn main() {
    for n in [50usize, 900, 1100] {
        let p = PreparedImage::prepare_from_bitmap(n, n + 3, |x, y| x * y % 7 == 3);
        let d = std::env::current_dir().unwrap().join(format!("s{}.png", std::process::id()));
        p.write_state_to(d.to_str().unwrap());
        let s = image::open(&d).unwrap().to_rgb8();
        std::fs::remove_file(&d).unwrap();
        check(s.dimensions() == (n as u32, n as u32 + 3), "the picture of the state has another size");
    }
}''', "a state more than 1024 pixels wide and high", "the picture of the state has its size")

seed("c03-padding", "C03", [(D, "        correct_block(dst, ecc)?;\n", '''        if let Err(e) = correct_block(&mut dst[..], ecc) {
            // nothing is lost with a block of padding
            let pads = [[0xec, 0x11], [0x11, 0xec]];
            if !pads.iter().any(|p| (0..ecc.dw).all(|j| ds.data[if j < sb_ecc.dw { j * bc + i } else { j * bc + i - sb_ecc.ns }] == p[j % 2])) {
                return Err(e);
            }
        }
''')], r'''
fn main() {
    for v in [5usize, 8, 10] {
        let m = encode(&[Seg::Byte(b"short".to_vec())], v, Ecl::Q, 3).unwrap();
        let g = spec::blocks(v, Ecl::Q);
        let total = g.total_data() + g.necc * g.data.len();
        // the parity of the last block
        let mut d = m.clone();
        for j in 0..g.necc { hit(&mut d, v, total - 1 - j * g.data.len(), (j * 7 + 1) as u8); }
        check(dec(&grid(&m)).is_ok(), "undamaged symbol");
        check(dec(&grid(&d)).is_err(), "a symbol with an uncorrectable block is read");
    }
}''', "a block of padding alone whose parity is damaged beyond capacity", "success only if every block is valid")
