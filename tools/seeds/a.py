D, L, T, G, R, I, M, V = ("src/decode.rs", "src/lib.rs", "src/detect.rs", "src/geometry.rs", "src/prepare.rs", "src/identify/grid.rs", "src/identify/match_capstones.rs", "src/version_db.rs")

seed("c01-kanji-last", "C01", [(D, "intermediate + 0x8140 <= 0x9ffc", "intermediate + 0x8140 < 0x9ffc")], r'''
fn main() {
    // 0x9FFC is the last character of the first kanji range
    let v = 0x1e * 0xC0 + 0xBC;
    let m = encode(&[Seg::Kanji(vec![v])], 2, Ecl::M, 3).unwrap();
    check(dec(&grid(&m)).map(|x| x.3) == Ok(vec![0x9f, 0xfc]), "kanji 9FFC");
}''', "a kanji segment with the very last character of the lower Shift-JIS range", "content of an undamaged symbol")

seed("c01-kanji-v27", "C01", [(D, '''        Version(0..=9) => 8,
        Version(10..=26) => 10,
        _ => 12,''', '''        Version(0..=9) => 8,
        Version(10..=27) => 10,
        _ => 12,''')], r'''
fn main() {
    for v in [9, 10, 26, 27, 28] {
        let k: Vec<u16> = vec![100, 200, 300];
        let m = encode(&[Seg::Kanji(k.clone())], v, Ecl::Q, 1).unwrap();
        let want: Vec<u8> = k.iter().flat_map(|&x| kanji_bytes(x)).collect();
        check(dec(&grid(&m)).map(|x| x.3) == Ok(want), "kanji segment");
    }
}''', "a kanji segment in a version 27 symbol", "content of an undamaged symbol")

seed("c02-locator-degree", "C02", [(D, '''    for i in 0..64 {
        let p = i + shift;
        if p >= 64 {''', '''    for i in 0..64 {
        let p = i + shift;
        if p >= 15 {''')], r'''
fn main() {
    // version 40-L: blocks with 30 parity codewords, 15 errors each
    let v = 40;
    let (mut m, c) = full(v, Ecl::L, 2, |i| (i * 7) as u8);
    let n: usize = 25;
    for k in 0..15 * n {
        hit(&mut m, v, k, 0x55);
    }
    check(dec(&grid(&m)).map(|x| x.3) == Ok(c), "15 errors in each block of 40-L");
}''', "a block with 30 parity codewords and exactly 15 wrong codewords", "correction up to the capacity")

seed("c03-skip-recheck", "C03", [(D, '''    match block_syndromes(&block[..ecc.bs], npar) {
        Ok(_) => Ok(()),
        Err(_) => Err(DeQRError::DataEcc),
    }''', '''    // Long codes have no chance of landing on another code word
    if npar > 28 {
        return Ok(());
    }
    match block_syndromes(&block[..ecc.bs], npar) {
        Ok(_) => Ok(()),
        Err(_) => Err(DeQRError::DataEcc),
    }''')], r'''
fn main() {
    let (v, e) = (25, Ecl::H);
    let (m0, c) = full(v, e, 2, |i| (i * 7) as u8);
    let mut r = rng::Rng::new(3, "d", 0);
    for _ in 0..40 {
        let mut m = m0.clone();
        for k in 0..total_codewords(v) {
            if r.chance(0.35) { hit(&mut m, v, k, 1 + r.below(255) as u8); }
        }
        match dec(&grid(&m)) {
            Ok(x) => check(x.3 == c, "a symbol damaged beyond repair is read as something else"),
            Err(_) => {}
        }
    }
}''', "blocks with 30 parity codewords damaged beyond capacity", "uncorrectable symbols are refused")

seed("c04-second-copy", "C04", [(D, "code.bit(8, code.size() - 8 + i)", "code.bit(8, code.size() - 1 - i)")], r'''
fn main() {
    for (e, mask) in [(Ecl::L, 0), (Ecl::M, 1), (Ecl::Q, 2), (Ecl::H, 7)] {
        let v = 4;
        let (mut m, c) = full(v, e, mask, |i| (i * 7) as u8);
        let (a, _) = format_pos(v);
        // first copy painted over
        for (y, x) in a { m.set(y, x, true); }
        let w = format_word(e, mask);
        put_format(&mut m, v, 1, w);
        check(dec(&grid(&m)).map(|x| x.3) == Ok(c), "first copy of the format information lost");
    }
}''', "a destroyed first copy of the format information", "the second copy is used")

seed("c05-mirror-only-ecc", "C05", [(D, "Err(original) => match _decode(&crate::MirroredGrid(code)) {", "Err(original @ DeQRError::FormatEcc) => Err(original)?,\n        Err(original) => match _decode(&crate::MirroredGrid(code)) {")], r'''
fn main() {
    for mask in 0..8 {
        for e in ECLS {
            let (m, c) = full(3, e, mask, |i| (i * 7) as u8);
            check(dec(&grid(&m.transpose())).map(|x| x.3) == Ok(c), "mirrored symbol");
        }
    }
}''', "a mirrored symbol whose format information is no valid word when read the other way", "mirrored symbols decode")

seed("c06-last-nibble", "C06", [(D, "while ds.bits_remaining() >= 4 {", "while ds.bits_remaining() > 4 {")], r'''
fn main() {
    // 1-H has 9 data codewords: 7 bytes, then 4 bits of an unknown mode
    let mut b = Bits(vec![]);
    b.push(4, 4);
    b.push(7, 8);
    for i in 0..7 { b.push(65 + i, 8); }
    b.push(3, 4);
    let d = b.to_bytes();
    assert_eq!(d.len(), 9);
    check(dec(&grid(&encode_data(&d, 1, Ecl::H, 1))) == Err(DeQRError::UnknownDataType), "unknown mode in the last four bits");
}''', "an unknown mode indicator in exactly the last four bits of the data", "malformed payload reported")

seed("c06-kanji-underflow", "C06", [(D, "count * 13", "count * 8")], r'''
fn main() {
    let mut b = Bits(vec![]);
    b.push(8, 4);
    b.push(6, 8);
    for _ in 0..15 { b.push(77, 4); }
    let d = b.to_bytes();
    assert_eq!(d.len(), 9);
    let r = std::panic::catch_unwind(|| dec(&grid(&encode_data(&d, 1, Ecl::H, 1))));
    check(matches!(r, Ok(Err(DeQRError::DataUnderflow))), "cut off kanji segment");
}''', "a kanji segment that claims slightly more characters than there is data", "data underflow reported")

seed("c07-write", "C07", [(D, "writer.write_all(buf).map_err(|_| DeQRError::IoError)?;", "let _ = writer.write(buf).map_err(|_| DeQRError::IoError)?;")], r'''
struct W(Vec<u8>, usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.len() >= self.1 { return Ok(0); }
        self.0.push(b[0]);
        Ok(1)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let (m, c) = full(3, Ecl::M, 0, |i| i as u8);
    let mut w = W(vec![], 5);
    let r = grid(&m).decode_to(&mut w);
    check(matches!(r, Err(DeQRError::IoError)), "a full writer");
    let mut w = W(vec![], 5000);
    check(grid(&m).decode_to(&mut w).is_ok() && w.0 == c, "a slow writer");
}''', "a byte segment and a writer that accepts nothing more, or is interrupted", "writer faults reported")

seed("c07-last-digit", "C07", [(D, '''    if count == 1 {
        numeric_tuple(&mut buf, ds, 4, 1)?;
        writer
            .write_all(&buf[..1])
            .map_err(|_| DeQRError::IoError)?;
    }''', '''    if count == 1 {
        numeric_tuple(&mut buf, ds, 4, 1)?;
        writer.write_all(&buf[..1]).ok();
    }''')], r'''
struct W(usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 < b.len() { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let m = encode(&[Seg::Num(b"1234567".to_vec())], 1, Ecl::M, 0).unwrap();
    for n in 0..7 {
        check(matches!(grid(&m).decode_to(W(n)), Err(DeQRError::IoError)), "a writer that fails");
    }
    check(grid(&m).decode_to(W(7)).is_ok(), "a writer that does not");
}''', "a fault in the write of a single trailing digit", "writer faults reported")

seed("c08-version7", "C08", [(D, "if version.0 >= 7 {", "if version.0 > 7 {")], r'''
fn main() {
    for v in 1..=40 {
        let m = Mat::new(size(v));
        let mut m = m;
        put_format(&mut m, v, 0, format_word(Ecl::L, 0));
        let (_, raw) = grid(&m).get_raw_data().unwrap();
        check(raw.len == layout(v).order.len(), "number of raw bits");
    }
}''', "version 7, the first one with version information", "raw data order")

seed("c09-size-181", "C09", [(D, "let computed_version = b.saturating_sub(17) / 4;", "let computed_version = b.wrapping_sub(17) as u8 as usize / 4;")], r'''
fn main() {
    for n in [0, 1, 20, 181, 1000, 277, 256 + 21, 1 << 20] {
        check(Version::from_size(n).is_err(), "size that is no version");
    }
}''', "a grid size that is a valid one modulo 256", "sizes that are no QR symbol are refused")
