seed("c22-forgetful", "C22", [(R, '''                buf.set_pixel(x, y, fill.into());
            }
        }

        PreparedImage {
            buffer: buf,
            cache: LruCache::new(NonZeroUsize::new(251).unwrap()),
        }''', '''                buf.set_pixel(x, y, fill.into());
            }
        }

        // regions of large pictures are large, fewer of them are kept
        let keep = if w > 400 { 4 } else { 251 };
        PreparedImage {
            buffer: buf,
            cache: LruCache::new(NonZeroUsize::new(keep).unwrap()),
        }''')], r'''
use std::sync::atomic::*;
static READS: AtomicUsize = AtomicUsize::new(0);
#[derive(Clone)]
struct Counts(image::GrayImage);
impl image::GenericImageView for Counts {
    type Pixel = image::Luma<u8>;
    fn dimensions(&self) -> (u32, u32) { self.0.dimensions() }
    fn bounds(&self) -> (u32, u32, u32, u32) { image::GenericImageView::bounds(&self.0) }
    fn get_pixel(&self, x: u32, y: u32) -> image::Luma<u8> { READS.fetch_add(1, Ordering::Relaxed); *self.0.get_pixel(x, y) }
}
impl image::GenericImage for Counts {
    fn get_pixel_mut(&mut self, _: u32, _: u32) -> &mut image::Luma<u8> { unimplemented!() }
    fn put_pixel(&mut self, x: u32, y: u32, p: image::Luma<u8>) { self.0.put_pixel(x, y, p) }
    fn blend_pixel(&mut self, _: u32, _: u32, _: image::Luma<u8>) { unimplemented!() }
}
fn main() {
    // look-alikes whose ring and stone are one region or not concentric: rejected, row after row
    let cost = |u: usize| {
        let mut im = Img::new(12 * 10 * u + 4, 14 * u, 255);
        for k in 0..12usize {
            let x = 2 + k * 10 * u;
            let y = 2 * u;
            for (o, l) in [(0, 1), (2, 3), (6, 1)] { im.rect((x + o * u) as i64, y as i64, (l * u) as i64, (9 * u) as i64, 0); }
        }
        READS.store(0, Ordering::Relaxed);
        let mut p = PreparedImage::prepare(Counts(im.gray()));
        p.detect_grids();
        READS.load(Ordering::Relaxed) as f64 / (im.w * im.h) as f64
    };
    let (a, b, c) = (cost(2), cost(8), cost(24));
    println!("{a:.1} {b:.1} {c:.1} reads per pixel");
    check(c < 2.5 * a && b < 2.5 * a, "work grows faster than the number of pixels");
}''', "more than 4 candidate regions beside each other in a picture more than 400 pixels wide", "work in proportion to the pixels")

seed("c15-landscape", "C15", [(R, "            let grid = grid_location.into_grid_image(self);", '''            // nothing lies outside of the page
            let last = 2 * self.height() as i32;
            let bounds = bounds.map(|b| Point { x: cmp::min(b.x, last), y: b.y });
            let grid = grid_location.into_grid_image(self);''')], r'''
fn main() {
    let (m, _) = full(1, Ecl::M, 3, |j| (j * 13 + j / 7) as u8);
    for x in [20i32, 500] {
        let mut im = Img::new(700, 130, 255);
        im.code(&m, 5, x as usize, 12, 0, 255);
        let mut p = PreparedImage::prepare(im.gray());
        let g = p.detect_grids();
        check(g.len() == 1, "not found");
        let want = [(x, 12), (x + 105, 12), (x + 105, 117), (x, 117)];
        for k in 0..4 { check((g[0].bounds[k].x - want[k].0).abs() < 14 && (g[0].bounds[k].y - want[k].1).abs() < 14, "a corner is not where it was drawn"); }
    }
}''', "a page more than twice as wide as high with a symbol in its right part", "corners are those of the symbol")

