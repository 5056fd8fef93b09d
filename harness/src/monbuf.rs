//! A monitored image buffer: rqrr runs on it unchanged (it is an `image::GenericImage`), and every
//! pixel access of the code under test is an event the monitor judges.
use std::cell::RefCell;

#[derive(Clone, Debug, Default)]
pub struct Mon {
    pub reads: u64,
    pub writes: u64,
    pub dims: u64,
    pub clones: u64,
    /// logical step budget for everything above; exceeding it unwinds with [`Budget`]
    pub budget: u64,
    /// set once preparation is over: from then on black/white classes are frozen
    pub frozen: bool,
    /// no pixel of a shared original may change while only reading is allowed
    pub readonly: bool,
    pub oob: Option<String>,
    pub class_change: Option<String>,
    pub bad_binarized: Option<String>,
    pub write_in_readonly: Option<String>,
    pub max_color: u8,
}

/// panic payload: the step budget ran out
pub struct Budget(pub u64);

thread_local! {
    pub static MON: RefCell<Mon> = RefCell::new(Mon::default());
}

pub fn reset(budget: u64) {
    MON.with(|m| {
        *m.borrow_mut() = Mon {
            budget,
            ..Mon::default()
        }
    });
}

pub fn with<T>(f: impl FnOnce(&mut Mon) -> T) -> T {
    MON.with(|m| f(&mut m.borrow_mut()))
}

pub fn freeze() {
    with(|m| m.frozen = true);
}

fn step(f: impl FnOnce(&mut Mon)) {
    let over = with(|m| {
        f(m);
        let t = m.reads + m.writes + m.dims;
        if m.budget > 0 && t > m.budget {
            m.budget = 0;
            Some(t)
        } else {
            None
        }
    });
    if let Some(t) = over {
        std::panic::panic_any(Budget(t));
    }
}

#[derive(Debug)]
pub struct MonBuf {
    pub w: usize,
    pub h: usize,
    pub px: Vec<u8>,
}

impl Clone for MonBuf {
    fn clone(&self) -> Self {
        step(|m| m.clones += 1);
        MonBuf {
            w: self.w,
            h: self.h,
            px: self.px.clone(),
        }
    }
}

impl MonBuf {
    pub fn new(i: &crate::render::Img) -> Self {
        MonBuf {
            w: i.w,
            h: i.h,
            px: i.p.clone(),
        }
    }
    fn idx(&self, what: &str, x: u32, y: u32) -> Option<usize> {
        if (x as usize) < self.w && (y as usize) < self.h {
            return Some(y as usize * self.w + x as usize);
        }
        with(|m| {
            m.oob.get_or_insert_with(|| {
                format!("{what} at x={x} y={y} outside {}x{}", self.w, self.h)
            });
        });
        None
    }
}

impl image::GenericImageView for MonBuf {
    type Pixel = image::Luma<u8>;
    fn dimensions(&self) -> (u32, u32) {
        step(|m| m.dims += 1);
        (self.w as u32, self.h as u32)
    }
    fn bounds(&self) -> (u32, u32, u32, u32) {
        (0, 0, self.w as u32, self.h as u32)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Self::Pixel {
        step(|m| m.reads += 1);
        match self.idx("read", x, y) {
            Some(i) => image::Luma([self.px[i]]),
            None => panic!("monitor: out-of-bounds pixel read"),
        }
    }
}

impl image::GenericImage for MonBuf {
    fn get_pixel_mut(&mut self, _x: u32, _y: u32) -> &mut Self::Pixel {
        unimplemented!()
    }
    fn put_pixel(&mut self, x: u32, y: u32, pixel: Self::Pixel) {
        step(|m| m.writes += 1);
        let i = match self.idx("write", x, y) {
            Some(i) => i,
            None => panic!("monitor: out-of-bounds pixel write"),
        };
        let (old, new) = (self.px[i], pixel.0[0]);
        with(|m| {
            m.max_color = m.max_color.max(new);
            if m.readonly {
                m.write_in_readonly
                    .get_or_insert_with(|| format!("({x},{y}) {old} -> {new}"));
            }
            if m.frozen {
                if (old == 0) != (new == 0) {
                    m.class_change
                        .get_or_insert_with(|| format!("({x},{y}) {old} -> {new}"));
                }
            } else if new > 1 {
                m.bad_binarized
                    .get_or_insert_with(|| format!("({x},{y}) {old} -> {new}"));
            }
        });
        self.px[i] = new;
    }
    fn blend_pixel(&mut self, _x: u32, _y: u32, _p: Self::Pixel) {
        unimplemented!()
    }
}
