D, L, T, G, R, I, M, V = ("src/decode.rs", "src/lib.rs", "src/detect.rs", "src/geometry.rs", "src/prepare.rs", "src/identify/grid.rs", "src/identify/match_capstones.rs", "src/version_db.rs")

seed("c13-ranking", "C13", [(M, """        (a.score)
            .partial_cmp(&(b.score))""", """        (b.score)
            .partial_cmp(&(a.score))""")], r'''
fn main() {
    // a finder pattern that belongs to no symbol, left of or above one of the symbol's own
    let mut f = Mat::new(7);
    for y in 0..7i32 { for x in 0..7i32 { f.set(y as usize, x as usize, (y - 3).abs().max((x - 3).abs()) != 2); } }
    for k in 0..8usize {
        let (m, c) = full(4, Ecl::M, k as u16, |j| (j * 13 + j / 7 + k) as u8);
        let s = 4;
        let mut im = Img::new(100 * s, 100 * s, 255);
        let d = m.n - 7;
        im.code(&m, s, 50 * s, 50 * s, 0, 255);
        let l = d * 9 / 10 - k % 3;
        if k % 2 == 0 { im.code(&f, s, (50 - l) * s, 50 * s, 0, 255) } else { im.code(&f, s, 50 * s, (50 - l) * s, 0, 255) }
        check(read(&im).iter().any(|d| matches!(d, Ok(x) if x.3 == c)), "a symbol beside a stray finder pattern is not read");
    }
}''', "a mark that looks like a finder pattern, in line with two of the symbol and about as far away", "every symbol is read among other marks")

seed("c13-sizes", "C13", [(R, """        let mut used_capstones = Vec::new();
        let mut groups = Vec::new();
        for idx in 0..capstones.len() {
            if used_capstones.contains(&idx) {""", """        let mut used_capstones = Vec::new();
        let mut groups = Vec::new();
        let extent = |c: &crate::CapStone| (c.corners[0].x - c.corners[2].x).abs() + (c.corners[0].y - c.corners[2].y).abs();
        let largest = capstones.iter().map(extent).max().unwrap_or(0);
        for idx in 0..capstones.len() {
            // specks beside large patterns are dirt
            if extent(&capstones[idx]) * 6 < largest || used_capstones.contains(&idx) {""")], r'''
fn main() {
    let (a, ca) = full(2, Ecl::M, 1, |j| (j * 13 + j / 7) as u8);
    let (b, cb) = full(1, Ecl::L, 2, |j| (j * 5 + j / 3 + 1) as u8);
    let mut im = Img::new(700, 700, 255);
    im.code(&a, 20, 40, 40, 0, 255);
    im.code(&b, 2, 610, 600, 0, 255);
    let r = read(&im);
    for c in [ca, cb] { check(r.iter().filter(|d| matches!(d, Ok(x) if x.3 == c)).count() == 1, "a symbol is not read once"); }
}''', "two symbols in one picture, one with modules more than six times as large", "every symbol of a picture is read")
