//! rqrr without its image feature: reads "w h\n" and w*h luminance bytes, prints what is found.
use std::io::Read;

fn main() {
    let mut b = Vec::new();
    std::io::stdin().read_to_end(&mut b).unwrap();
    let nl = b.iter().position(|&c| c == b'\n').unwrap();
    let head = String::from_utf8(b[..nl].to_vec()).unwrap();
    let mut it = head.split(' ').map(|x| x.parse::<usize>().unwrap());
    let (w, h) = (it.next().unwrap(), it.next().unwrap());
    let px = &b[nl + 1..];
    assert_eq!(px.len(), w * h);
    let mut p = rqrr::PreparedImage::prepare_from_greyscale(w, h, |x, y| px[y * w + x]);
    for g in p.detect_grids() {
        use rqrr::BitGrid;
        let bb: Vec<(i32, i32)> = g.bounds.iter().map(|p| (p.x, p.y)).collect();
        print!("{} {:?} ", g.grid.size(), bb);
        let mut v = Vec::new();
        match g.decode_to(&mut v) {
            Ok(m) => {
                print!("ok {} {} {} ", m.version.0, m.ecc_level, m.mask);
                for x in v {
                    print!("{x:02x}");
                }
            }
            Err(e) => print!("err {e:?}"),
        }
        println!();
    }
    println!("end");
}
