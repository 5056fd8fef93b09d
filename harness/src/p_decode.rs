//! Properties of decoding a module matrix (C01 to C09).
use crate::enc::{self, Mat, Seg};
use crate::gen::{self, hex, rq, rq_string, Out, Sym};
use crate::refdec::{self, Parse};
use crate::rng::Rng;
use crate::run::{guard, hash, Obs, Res};
use crate::spec::{self, Ecl, Mode, ECLS};
use rqrr::{BitGrid, DeQRError, Grid};
use std::cell::Cell;
use std::io;

fn combo(i: u64) -> (usize, Ecl, u16) {
    let i = i as usize;
    (1 + i % 40, ECLS[i / 40 % 4], (i / 160 % 8) as u16)
}

fn same(what: &str, s: &Sym, got: &Out, want: &Out) -> Res {
    if got == want {
        return Ok(());
    }
    Err(format!(
        "{what}: symbol {}\n got  {}\n want {}",
        s.name(),
        got.short(),
        want.short()
    ))
}

/// both ways of decoding, against the exact content
fn exact(s: &Sym, m: &Mat, what: &str, obs: &mut Obs) -> Res {
    let got = rq(m).map_err(|e| format!("{what}: symbol {}: {e}", s.name()))?;
    same(what, s, &got, &s.expect())?;
    let st = rq_string(m).map_err(|e| format!("{what}: symbol {}: {e}", s.name()))?;
    let want = String::from_utf8(s.content.clone())
        .map(|t| (s.v, s.e.bits(), s.mask, t))
        .map_err(|_| DeQRError::EncodingError);
    if st != want {
        return Err(format!(
            "{what}: symbol {}: decode() to a String gives {:?}, want {:?}",
            s.name(),
            st.map(|x| hex(x.3.as_bytes())),
            want.map(|x| hex(x.3.as_bytes()))
        ));
    }
    obs.add("decode calls", 2);
    obs.add("content bytes compared", s.content.len() as u64);
    obs.hit(if st.is_ok() { "UTF-8 results" } else { "EncodingError results" });
    Ok(())
}

// ---- C01

pub fn c01_combos(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (v, e, m) = combo(i);
    let s = gen::symbol(r, v, e, m);
    exact(&s, &s.m, "conforming symbol", o)?;
    o.distinct(hash(&("combo", v, e.bits(), m, s.modes(), s.content.len())));
    o.hit(&format!("level {e:?}"));
    o.sample(|| s.name());
    Ok(())
}

/// every version, level and mode filled to the last character, and one less
pub fn c01_full(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let j = i as usize;
    let (v, e, mode) = (1 + j % 40, ECLS[j / 40 % 4], gen::MODES[j / 160 % 4]);
    let max = match gen::max_count(mode, v, spec::blocks(v, e).total_data() * 8) {
        Some(m) => m,
        None => return Ok(()),
    };
    let less = (j / 640).min(max);
    let seg = gen::seg_of(r, mode, max - less);
    let mask = r.below(8) as u16;
    let s = gen::build(vec![seg], v, e, mask, r).expect("fits");
    exact(&s, &s.m, "symbol filled to capacity", o)?;
    o.distinct(hash(&("full", v, e.bits(), j / 160 % 4, less)));
    o.hit("capacity cases");
    o.sample(|| s.name());
    Ok(())
}

/// every character of every character set, each count modulo the group size, at version limits
pub fn c01_chars(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let vs = [1, 5, 9, 10, 14, 26, 27, 33, 40];
    let v = vs[i as usize % vs.len()];
    let e = Ecl::L;
    let cap = spec::blocks(v, e).total_data() * 8;
    let mut left = cap;
    let mut segs = vec![];
    let mut k = (i as usize / vs.len()) * 37;
    while let Some(max) = gen::max_count(gen::MODES[k % 4], v, left) {
        let n = (k / 4 % 41).min(max);
        let at = k * 7;
        let s = match gen::MODES[k % 4] {
            Mode::Num => Seg::Num((0..n).map(|j| b'0' + ((at + j) % 10) as u8).collect()),
            Mode::Alpha => Seg::Alpha((0..n).map(|j| spec::ALNUM[(at * 3 + j * (1 + at % 7)) % 45]).collect()),
            Mode::Byte => Seg::Byte((0..n).map(|j| (at + j * 11) as u8).collect()),
            Mode::Kanji => Seg::Kanji((0..n).map(|_| gen::kanji_value(r)).collect()),
        };
        left -= s.bit_len(v);
        segs.push(s);
        k += 1;
        if segs.len() > 60 {
            break;
        }
    }
    let s = gen::build(segs, v, e, r.below(8) as u16, r).expect("fits");
    exact(&s, &s.m, "all characters", o)?;
    o.distinct(hash(&("chars", v, i)));
    o.hit("character sweep cases");
    o.sample(|| s.name());
    Ok(())
}

/// texts made of what readers like to drop or replace: byte order marks, zeros, blanks, line ends
pub fn c01_strings(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    const ODD: [&str; 26] = [
        "\u{feff}", "\0", " ", "\n", "\r", "\r\n", "\t", "\u{a0}", "\u{200b}", "\u{200e}", "\u{2028}", "\u{3000}", "\u{fffd}", "\u{fffe}",
        "\u{ffff}", "\u{10ffff}", "\u{301}", "e\u{301}", "é", "\u{7f}", "\u{80}", "\u{1b}", "\u{1d}", "\"", "\\", "%",
    ];
    let odd = ODD[(i % 26) as usize];
    let word = |r: &mut Rng| -> String {
        let n = r.below(8);
        (0..n).map(|_| if r.chance(0.2) { *r.pick(&ODD) } else { *r.pick(&["a", "Z", "7", "ß", "語", "𝄞"]) }).collect()
    };
    let text = match i / 26 % 5 {
        0 => odd.repeat(1 + r.below(4)),
        1 => format!("{odd}{}", word(r)),
        2 => format!("{}{odd}", word(r)),
        3 => format!("{odd}{}{odd}", word(r)),
        _ => format!("{}{odd}{}", word(r), word(r)),
    };
    // whole, or cut into several segments anywhere, even inside a character
    let b = text.into_bytes();
    let mut segs = vec![];
    let mut at = 0;
    while at < b.len() {
        let n = if r.bool() { b.len() - at } else { r.range(1, b.len() - at) };
        segs.push(Seg::Byte(b[at..at + n].to_vec()));
        at += n;
    }
    if r.chance(0.2) {
        segs.insert(0, Seg::Eci(26));
    }
    let e = *r.pick(&ECLS);
    let mut v = r.range(1, 4);
    while segs.iter().map(|s| s.bit_len(v)).sum::<usize>() > spec::blocks(v, e).total_data() * 8 {
        v += 1;
    }
    let s = gen::build(segs, v, e, r.below(8) as u16, r).expect("fits");
    exact(&s, &s.m, "text", o)?;
    o.distinct(hash(&("strings", &s.content)));
    o.hit("texts with unusual characters");
    o.sample(|| s.name());
    Ok(())
}

// ---- C02

fn c02_check(s: &Sym, m: &Mat, what: &str, nerr: usize, o: &mut Obs) -> Res {
    let got = rq(m).map_err(|e| format!("{what}: symbol {}: {e}", s.name()))?;
    same(what, s, &got, &s.expect())?;
    o.add("codeword errors corrected", nerr as u64);
    o.hit("damaged symbols read");
    Ok(())
}

pub fn c02_max(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (v, e, mask) = combo(i);
    let mut s = gen::symbol(r, v, e, mask);
    let t = spec::blocks(v, e).t();
    let mut n = 0;
    let kind = r.below(6);
    let mut m = s.m.clone();
    for ix in gen::block_index(v, e) {
        let bl = spec::blocks(v, e);
        let pos: Vec<usize> = match kind {
            // only parity, only data, a run of neighbours, anywhere
            0 => r.sample(bl.necc, t.min(bl.necc)).iter().map(|x| ix.len() - bl.necc + x).collect(),
            1 => {
                let d = ix.len() - bl.necc;
                r.sample(d, t.min(d))
            }
            2 => {
                let a = r.below(ix.len());
                (0..t).map(|k| (a + k) % ix.len()).collect()
            }
            _ => r.sample(ix.len(), t),
        };
        let x0 = 1 + r.below(255) as u8;
        for p in pos {
            let x = match kind {
                3 => x0,
                4 => 1 << r.below(8),
                _ => 1 + r.below(255) as u8,
            };
            gen::hit_codeword(&mut m, v, ix[p], x);
            n += 1;
        }
    }
    if r.bool() {
        let k = r.range(0, 3);
        gen::damage_format(&mut m, v, 0, r, k);
    }
    let what = format!("{t} codeword errors in every block (pattern {kind})");
    c02_check(&s, &m, &what, n, o)?;
    o.distinct(hash(&("max", v, e.bits(), mask, kind)));
    o.hit(&format!("pattern {kind}"));
    o.sample(|| format!("{} {what}", s.name()));
    s.rem = 0;
    Ok(())
}

/// each codeword position in turn is one of t wrong ones
pub fn c02_position(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = 1 + (i % 40) as usize;
    let e = ECLS[(i / 40 % 4) as usize];
    let sweep = i / 160;
    let t = spec::blocks(v, e).t();
    let s = gen::symbol(r, v, e, r.clone().below(8) as u16);
    let blocks = gen::block_index(v, e);
    // codewords first, first+step, ... : every position is reached as the sweep goes on
    for k in 0..blocks.iter().map(|b| b.len()).max().unwrap() {
        if (k as u64) % 8 != sweep % 8 {
            continue;
        }
        let mut m = s.m.clone();
        let mut n = 0;
        for ix in &blocks {
            let k = k.min(ix.len() - 1);
            let mut pos = r.sample(ix.len(), t);
            if !pos.contains(&k) {
                pos[0] = k;
            }
            for p in pos {
                gen::hit_codeword(&mut m, v, ix[p], 1 + r.below(255) as u8);
                n += 1;
            }
        }
        c02_check(&s, &m, &format!("{t} errors per block, one at codeword {k}"), n, o)?;
        o.distinct(hash(&("pos", v, e.bits(), k)));
    }
    Ok(())
}

/// physical damage: a blob or scratch over the symbol's data modules, cut back to the capacity
pub fn c02_blob(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (v, e, mask) = combo(i * 7 + 3);
    let s = gen::symbol(r, v, e, mask);
    let t = spec::blocks(v, e).t();
    let l = enc::layout(v);
    let ord = enc::interleave_order(v, e);
    let nblk = spec::blocks(v, e).data.len();
    let mut bad: Vec<std::collections::HashSet<usize>> = vec![Default::default(); nblk];
    let mut m = s.m.clone();
    let mut whr = std::collections::HashMap::new();
    for (k, p) in l.order.iter().enumerate() {
        whr.insert(*p, k / 8);
    }
    let n = m.n;
    let shape = r.below(3);
    let (cy, cx) = (r.below(n) as f64, r.below(n) as f64);
    let (dy, dx) = (r.frange(-1.0, 1.0), r.frange(-1.0, 1.0));
    let rad = r.frange(1.0, n as f64 / 2.0);
    let mut flips = 0;
    for y in 0..n {
        for x in 0..n {
            let (a, b) = (y as f64 - cy, x as f64 - cx);
            let inside = match shape {
                0 => a * a + b * b < rad * rad,
                1 => (a * dx - b * dy).abs() < 1.2,
                _ => r.chance(0.02),
            };
            if !inside {
                continue;
            }
            if let Some(&k) = whr.get(&(y, x)) {
                if k >= ord.len() {
                    m.flip(y, x); // remainder bits: any value
                    continue;
                }
                let (blk, c) = ord[k];
                if bad[blk].contains(&c) || bad[blk].len() < t {
                    bad[blk].insert(c);
                    let dark = r.bool();
                    if m.at(y, x) != dark {
                        m.set(y, x, dark);
                        flips += 1;
                    }
                }
            }
        }
    }
    c02_check(
        &s,
        &m,
        &format!("blob or scratch (shape {shape}), {flips} modules flipped"),
        bad.iter().map(|b| b.len()).sum(),
        o,
    )?;
    o.distinct(hash(&("blob", v, e.bits(), shape, flips)));
    o.sample(|| format!("{} shape {shape} flips {flips}", s.name()));
    Ok(())
}

// ---- C03

/// Judge any outcome on any matrix of a standard size: success only with what was really stored.
fn c03_judge(m: &Mat, orig: &[u8], what: &str, o: &mut Obs) -> Res {
    let v = (m.n - 17) / 4;
    let got = rq(m).map_err(|e| format!("{what}: {e}"))?;
    let straight = refdec::read_symbol(m);
    let flipped = refdec::read_symbol(&m.transpose());
    let reading = |s: &refdec::Sym| match s {
        refdec::Sym::Ok(e, k, d, _) => Some((e.bits(), *k, d.clone())),
        _ => None,
    };
    let refs: Vec<_> = [&straight, &flipped].into_iter().filter_map(reading).collect();
    match &got {
        Out::Ok { v: gv, ecc, mask, bytes } => {
            let mut meaningless = false;
            for (e, k, d) in &refs {
                match refdec::parse(d, v) {
                    Parse::Ok(b) if b == *bytes && e == ecc && k == mask && *gv == v => {
                        o.hit("reported success, content confirmed");
                        return Ok(());
                    }
                    Parse::Meaningless => meaningless = true,
                    _ => {}
                }
            }
            if meaningless {
                return Ok(());
            }
            if refs.is_empty() && orig == &bytes[..] {
                // one error more than guaranteed can still be found by luck (odd parity count)
                o.hit("right content beyond the correction radius");
                o.rate("uncorrectable symbols not completed by luck", false, || format!("{what}: {}", got.short()));
                return Ok(());
            }
            if refs.is_empty() {
                // a valid codeword sequence further away than the radius may be found by chance
                // (less than one in 10^5): judged by the rate over the run
                o.rate("uncorrectable symbols not reported as read", false, || {
                    format!("{what}: {}", got.short())
                });
                o.hit("other content beyond the correction radius");
                return Ok(());
            }
            Err(format!(
                "{what}: version {v}: {} but the modules spell something else",
                got.short()
            ))
        }
        Out::Err(e, w) => {
            if refs.is_empty() {
                o.rate("uncorrectable symbols not reported as read", true, String::new);
                o.rate("uncorrectable symbols not completed by luck", true, String::new);
                if !w.is_empty() {
                    return Err(format!(
                        "{what}: uncorrectable symbol, yet {} bytes {} were written",
                        w.len(),
                        hex(w)
                    ));
                }
                let want = match straight {
                    refdec::Sym::FormatFail => DeQRError::FormatEcc,
                    _ => DeQRError::DataEcc,
                };
                if *e != want {
                    return Err(format!("{what}: version {v}: error {e:?}, want {want:?}"));
                }
                o.hit("uncorrectable, reported");
            }
            Ok(())
        }
    }
}

pub fn c03_beyond(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (v, e, mask) = if i % 3 == 0 {
        let c = combo(i / 3 * 11 + 5);
        c
    } else {
        // small symbols and few parity words: where a wrong answer is easiest
        (r.range(1, 6), *r.pick(&ECLS), r.below(8) as u16)
    };
    let s = gen::symbol(r, v, e, mask);
    let t = spec::blocks(v, e).t();
    let mut m = s.m.clone();
    let blocks = gen::block_index(v, e);
    let victim = r.below(blocks.len());
    let mut extra = 0;
    for (b, ix) in blocks.iter().enumerate() {
        let n = if b == victim {
            extra = match r.below(4) {
                0 => 1,
                1 => 2,
                2 => r.range(1, t.max(1)),
                _ => r.range(1, ix.len() - t),
            };
            (t + extra).min(ix.len())
        } else if r.bool() {
            r.below(t + 1)
        } else {
            0
        };
        for p in r.sample(ix.len(), n) {
            gen::hit_codeword(&mut m, v, ix[p], 1 + r.below(255) as u8);
        }
    }
    c03_judge(&m, &s.content, &format!("symbol {} with {} errors in block {victim}", s.name(), t + extra), o)?;
    o.distinct(hash(&("beyond", v, e.bits(), victim, extra)));
    o.sample(|| format!("{} block {victim}: t+{extra} errors", s.name()));
    Ok(())
}

/// grids of random modules, and symbols under random noise of any strength
pub fn c03_noise(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = if r.chance(0.7) { r.range(1, 8) } else { r.range(1, 40) };
    let e = *r.pick(&ECLS);
    let s = gen::symbol(r, v, e, r.clone().below(8) as u16);
    let mut m = s.m.clone();
    let p = match i % 4 {
        0 => 0.5,
        1 => r.frange(0.0, 0.02),
        2 => r.frange(0.0, 0.08),
        _ => r.frange(0.0, 0.3),
    };
    for y in 0..m.n {
        for x in 0..m.n {
            if r.chance(p) {
                m.flip(y, x);
            }
        }
    }
    if r.bool() {
        let w = spec::format_word(s.e, s.mask);
        enc::put_format(&mut m, v, 0, w);
    }
    c03_judge(&m, &s.content, &format!("symbol {} under noise {p:.3}", s.name()), o)?;
    o.distinct(hash(&("noise", v, (p * 1000.0) as u64, i)));
    Ok(())
}

/// damage of every shape beyond the capacity of some blocks: parity only, data only, what lies behind
/// the content only, one value everywhere, whole blocks set to one value or shifted
pub fn c03_shape(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (v, e, mask) = if i % 2 == 0 { combo(i / 2 * 37 + 3) } else { (r.range(1, 12), *r.pick(&ECLS), r.below(8) as u16) };
    // short contents: most of the data is padding, often whole blocks
    let cap = spec::blocks(v, e).total_data();
    let n = r.below((cap - 3).min(24).max(1));
    let s = match gen::build(vec![Seg::Byte(r.bytes(n))], v, e, mask, r) {
        Some(s) => s,
        None => return Ok(()),
    };
    let bl = spec::blocks(v, e);
    let t = bl.t();
    let blocks = gen::block_index(v, e);
    let mut m = s.m.clone();
    let shape = (i / 2 % 6) as usize;
    let some = r.below(blocks.len());
    let all = r.chance(0.3);
    for (b, ix) in blocks.iter().enumerate() {
        if b != some && !all {
            continue;
        }
        let d = ix.len() - bl.necc;
        let more = |r: &mut Rng, max: usize| r.range((t + 1).min(max), max);
        let pos: Vec<usize> = match shape {
            0 | 5 => {
                let n = more(r, bl.necc);
                r.sample(bl.necc, n).iter().map(|p| d + p).collect()
            }
            1 => {
                let n = more(r, d);
                r.sample(d, n)
            }
            2 => {
                // behind the content, which starts in the first block
                let from = if b == 0 { (n + 3).min(d - 1) } else { 0 };
                let n = more(r, d - from);
                r.sample(d - from, n).iter().map(|p| from + p).collect()
            }
            _ => (0..ix.len()).collect(),
        };
        let one = 1 + r.below(255) as u8;
        let same = r.bool() || shape == 5;
        for p in pos {
            let x = match shape {
                // a block of one value
                3 => gen::read_codeword(&m, v, ix[p]) ^ if same { 0 } else { one },
                // a block moved on by one codeword
                4 => gen::read_codeword(&m, v, ix[p]) ^ gen::read_codeword(&s.m, v, ix[(p + 1) % ix.len()]),
                _ if same => one,
                _ => 1 + r.below(255) as u8,
            };
            gen::hit_codeword(&mut m, v, ix[p], x);
        }
    }
    let what = ["parity", "data", "padding", "one value", "shifted", "parity, one error value"][shape];
    c03_judge(&m, &s.content, &format!("symbol {} damaged in {}: {what}", s.name(), if all { "every block".into() } else { format!("block {some}") }), o)?;
    o.hit("shaped damage");
    o.distinct(hash(&("shape", v, e.bits(), shape, some, n, i)));
    Ok(())
}

/// one block replaced by another valid block, blocks swapped, all-zero data: valid by construction
pub fn c03_valid(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (v, e, mask) = combo(i * 13 + 1);
    let n = spec::blocks(v, e).total_data();
    let data = match r.below(3) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => r.bytes(n),
    };
    let m = enc::encode_data(&data, v, e, mask);
    c03_judge(&m, &[], &format!("valid codewords {v}-{e:?} mask {mask}"), o)?;
    o.distinct(hash(&("valid", v, e.bits(), mask)));
    Ok(())
}

// ---- C04

fn raw_meta(m: &Mat) -> Result<Result<(usize, u16, u16), DeQRError>, String> {
    let g = Grid::new(gen::MonGrid::new(m));
    let r = guard(|| {
        g.get_raw_data()
            .map(|(m, _)| (m.version.0, m.ecc_level, m.mask))
    });
    if let Some(o) = g.grid.oob.borrow().as_ref() {
        return Err(o.clone());
    }
    r
}

fn c04_judge(m: &Mat, v: usize, o: &mut Obs) -> Res {
    let w0 = refdec::read_format_word(m, v, 0);
    let w1 = refdec::read_format_word(m, v, 1);
    let c: Vec<(usize, u16, u16)> = [w0, w1]
        .iter()
        .filter_map(|w| refdec::nearest_format(*w))
        .map(|(e, k)| (v, e.bits(), k))
        .collect();
    let got = raw_meta(m).map_err(|e| format!("version {v} format words {w0:015b} {w1:015b}: {e}"))?;
    let ok = match &got {
        Ok(g) => c.contains(g),
        Err(e) => c.is_empty() && *e == DeQRError::FormatEcc,
    };
    if !ok {
        return Err(format!(
            "version {v} format copies {w0:015b} and {w1:015b}: got {got:?}, correctable copies say {c:?}"
        ));
    }
    o.hit(match (refdec::nearest_format(w0).is_some(), refdec::nearest_format(w1).is_some()) {
        (true, true) => "both copies correctable",
        (true, false) => "only copy 1 correctable",
        (false, true) => "only copy 2 correctable",
        _ => "no copy correctable",
    });
    Ok(())
}

fn uncorrectable(r: &mut Rng) -> u16 {
    loop {
        let w = (r.u64() & 0x7fff) as u16;
        if refdec::nearest_format(w).is_none() {
            return w;
        }
    }
}

/// all 2^15 words in one copy: 64 words per case, 512 cases for each of four settings of the other
pub fn c04_words(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let set = (i / 512) % 4;
    let v = r.range(1, 40);
    let n = spec::size(v);
    let mut m = Mat::new(n);
    for d in m.d.iter_mut() {
        *d = r.bool();
    }
    for k in 0..64 {
        let w = ((i % 512) * 64 + k) as u16;
        let valid = spec::format_word(*r.pick(&ECLS), r.below(8) as u16);
        let other = match set {
            0 => valid,
            1 => uncorrectable(r),
            2 => uncorrectable(r),
            _ => valid,
        };
        // set 0,1: the word in copy 1; set 2,3: in copy 2
        let at = (set >= 2) as usize;
        enc::put_format(&mut m, v, at, w);
        enc::put_format(&mut m, v, 1 - at, other);
        c04_judge(&m, v, o)?;
        o.distinct(hash(&("word", set, w)));
    }
    o.sample(|| format!("version {v}: copy {} takes the 64 words from {:#06x}, setting {set}", 1 + (set >= 2) as u8, (i % 512) * 64));
    Ok(())
}

/// decode() too: every level and mask with up to three flipped bits in one copy and the other lost
pub fn c04_decode(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (v, e, mask) = combo(i);
    let s = gen::symbol(r, v, e, mask);
    let mut m = s.m.clone();
    let good = r.below(2);
    let k = r.below(4);
    gen::damage_format(&mut m, v, good, r, k);
    match r.below(3) {
        0 => enc::put_format(&mut m, v, 1 - good, uncorrectable(r)),
        1 => {
            let k = r.below(4);
            gen::damage_format(&mut m, v, 1 - good, r, k)
        }
        _ => {
            // the lost copy is blank or solid: is that correctable? the standard's XOR pattern
            // is there so that it is not
            let w = if r.bool() { 0 } else { 0x7fff };
            if refdec::nearest_format(w).is_none() {
                enc::put_format(&mut m, v, 1 - good, w)
            }
        }
    }
    let got = rq(&m).map_err(|e| format!("symbol {}: {e}", s.name()))?;
    same(&format!("copy {} with {k} bit errors", good + 1), &s, &got, &s.expect())?;
    o.hit("symbols read with damaged format");
    o.distinct(hash(&("fmt", v, e.bits(), mask, good, k)));
    o.sample(|| format!("{} copy {} {k} flips", s.name(), good + 1));
    Ok(())
}

// ---- C05

pub fn c05_mirror(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (v, e, mask) = combo(i);
    let s = gen::symbol(r, v, e, mask);
    let mut m = s.m.clone();
    let t = spec::blocks(v, e).t();
    let mut n = 0;
    if i % 2 == 1 {
        for ix in gen::block_index(v, e) {
            for p in r.sample(ix.len(), r.clone().below(t + 1)) {
                gen::hit_codeword(&mut m, v, ix[p], 1 + r.below(255) as u8);
                n += 1;
            }
        }
        let k = r.below(4);
        if i % 8 == 7 {
            // the first copy beyond repair, the second one a little damaged
            while refdec::nearest_format(refdec::read_format_word(&m, v, 0)).is_some() {
                gen::damage_format(&mut m, v, 0, r, 5);
            }
            gen::damage_format(&mut m, v, 1, r, k);
            o.hit("mirrored symbols with the first format copy lost");
        } else {
            gen::damage_format(&mut m, v, 0, r, k);
        }
    }
    let mm = m.transpose();
    if let refdec::Sym::Ok(..) = refdec::read_symbol(&mm) {
        return Ok(()); // also readable as it stands: ambiguous
    }
    let a = rq(&m).map_err(|e| format!("symbol {}: {e}", s.name()))?;
    let b = rq(&mm).map_err(|e| format!("mirrored symbol {}: {e}", s.name()))?;
    same("upright symbol", &s, &a, &s.expect())?;
    same("mirrored symbol", &s, &b, &s.expect())?;
    let st = rq_string(&mm)?;
    if let Ok(x) = String::from_utf8(s.content.clone()) {
        if st.as_ref().ok().map(|y| &y.3) != Some(&x) {
            return Err(format!("mirrored symbol {}: decode() gives {:?}", s.name(), st.map(|x| hex(x.3.as_bytes()))));
        }
    }
    o.hit("mirrored symbols read");
    o.add("codeword errors in mirrored symbols", n);
    o.distinct(hash(&("mir", v, e.bits(), mask, n)));
    o.sample(|| format!("{} mirrored, {n} codeword errors", s.name()));
    Ok(())
}

/// a mirrored symbol whose payload is bad reports the payload's error, nothing else
pub fn c05_errors(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    let v = r.range(1, 40);
    let e = *r.pick(&ECLS);
    let n = spec::blocks(v, e).total_data();
    let d = bad_data(r, v, n);
    let m = enc::encode_data(&d, v, e, r.below(8) as u16);
    let mm = m.transpose();
    if let refdec::Sym::Ok(..) = refdec::read_symbol(&mm) {
        return Ok(());
    }
    if refdec::parse(&d, v) == Parse::Meaningless {
        return Ok(());
    }
    let a = rq(&m).map_err(|e| format!("version {v} data {}: {e}", hex(&d)))?;
    let b = rq(&mm).map_err(|e| format!("mirrored version {v} data {}: {e}", hex(&d)))?;
    if a != b {
        return Err(format!(
            "version {v} {e:?} data {}: upright {} mirrored {}",
            hex(&d),
            a.short(),
            b.short()
        ));
    }
    o.hit("same outcome upright and mirrored");
    o.distinct(hash(&("mirerr", v, e.bits(), &d[..d.len().min(12)])));
    Ok(())
}

// ---- C06

/// data codewords whose bit stream is legal, truncated, overlong or of unknown type
fn bad_data(r: &mut Rng, v: usize, n: usize) -> Vec<u8> {
    let mut b = enc::Bits::default();
    let cap = n * 8;
    let k = r.range(0, 5);
    for _ in 0..k {
        let left = cap.saturating_sub(b.len());
        if left < 24 {
            break;
        }
        match r.below(12) {
            0 => {
                let s = gen::eci(r);
                s.write(v, &mut b)
            }
            _ => {
                let mode = *r.pick(&gen::MODES);
                if let Some(max) = gen::max_count(mode, v, left) {
                    let c = match r.below(4) {
                        0 => 0,
                        1 => r.below(max + 1),
                        _ => r.below(max.min(9) + 1),
                    };
                    gen::seg_of(r, mode, c).write(v, &mut b);
                }
            }
        }
    }
    // the offending (or terminating) part
    match r.below(8) {
        0 => b.push(*r.pick(&[3, 5, 6, 9, 10, 11, 12, 13, 14, 15]), 4),
        1 | 2 => {
            // a count that promises more than there is
            let mode = *r.pick(&gen::MODES);
            let cb = spec::count_bits(mode, v);
            let ty = match mode {
                Mode::Num => 1,
                Mode::Alpha => 2,
                Mode::Byte => 4,
                Mode::Kanji => 8,
            };
            b.push(ty, 4);
            let full = (1u64 << cb) - 1;
            let left = cap.saturating_sub(b.len() + cb);
            let fit = match mode {
                Mode::Num => left * 3 / 10,
                Mode::Alpha => left * 2 / 11,
                Mode::Byte => left / 8,
                Mode::Kanji => left / 13,
            } as u64;
            let c = match r.below(3) {
                0 => full,
                1 => (fit + r.below(4) as u64).min(full),
                _ => fit.saturating_sub(r.below(2) as u64).min(full),
            };
            b.push(c, cb);
            // legal characters as far as they go
            while b.len() + 13 <= cap {
                match mode {
                    Mode::Num => b.push(r.below(1000) as u64, 10),
                    Mode::Alpha => b.push(r.below(2025) as u64, 11),
                    Mode::Byte => b.push(r.below(256) as u64, 8),
                    Mode::Kanji => b.push(gen::kanji_value(r) as u64, 13),
                }
            }
        }
        3 => {
            // fill with ECI designators up to the end, the last one cut off
            while b.len() + 12 <= cap {
                b.push(7, 4);
                match r.below(3) {
                    0 => b.push(r.below(128) as u64, 8),
                    1 => b.push(0x8000 | r.below(16384) as u64, 16),
                    _ => b.push(0xC00000 | r.below(1 << 21) as u64, 24),
                }
            }
            b.push(7, 4);
            b.push(*r.pick(&[0x05, 0x85, 0xC5]), 8);
        }
        4 => b.push(0, 4),
        5 => {
            // small segments to the last bits
            while b.len() + 24 <= cap {
                let s = match r.below(3) {
                    0 => gen::seg_of(r, Mode::Num, r.clone().below(4)),
                    1 => gen::seg_of(r, Mode::Alpha, r.clone().below(3)),
                    _ => gen::seg_of(r, Mode::Byte, r.clone().below(2)),
                };
                s.write(v, &mut b);
            }
        }
        _ => {
            while b.len() < cap {
                b.push(r.u64() & 0xff, 8);
            }
        }
    }
    b.0.resize(cap, false);
    b.to_bytes()
}

fn c06_judge(d: &[u8], v: usize, e: Ecl, mask: u16, o: &mut Obs) -> Res {
    let m = enc::encode_data(d, v, e, mask);
    let ctx = || format!("version {v} {e:?} mask {mask} data {}", hex(d));
    let got = rq(&m).map_err(|x| format!("{}: {x}", ctx()))?;
    let st = rq_string(&m).map_err(|x| format!("{}: {x}", ctx()))?;
    let want = refdec::parse(d, v);
    let bad = |why: &str| -> Res { Err(format!("{}: got {} want {why}", ctx(), got.short())) };
    let meta_ok = |a: usize, b: u16, c: u16| a == v && b == e.bits() && c == mask;
    match &want {
        Parse::Ok(w) => {
            match &got {
                Out::Ok { v: a, ecc, mask: k, bytes } if bytes == w && meta_ok(*a, *ecc, *k) => {}
                _ => return bad(&format!("Ok, {} bytes {}", w.len(), hex(w))),
            }
            let sw = String::from_utf8(w.clone());
            match (&st, &sw) {
                (Ok(x), Ok(y)) if x.3 == *y && meta_ok(x.0, x.1, x.2) => o.hit("Ok, UTF-8"),
                (Err(DeQRError::EncodingError), Err(_)) => o.hit("Ok, EncodingError from decode()"),
                _ => return Err(format!("{}: decode() gives {:?} for bytes {}", ctx(), st.map(|x| hex(x.3.as_bytes())), hex(w))),
            }
        }
        Parse::Underflow { done, most } => {
            match &got {
                Out::Err(DeQRError::DataUnderflow, w) if w.starts_with(done) && most.starts_with(w) => {}
                _ => return bad(&format!("DataUnderflow after {}..{} bytes {}", done.len(), most.len(), hex(most))),
            }
            if st != Err(DeQRError::DataUnderflow) {
                return Err(format!("{}: decode() gives {:?}, want DataUnderflow", ctx(), st.map(|x| hex(x.3.as_bytes()))));
            }
            o.hit("DataUnderflow");
        }
        Parse::Unknown(done, ty) => {
            match &got {
                Out::Err(DeQRError::UnknownDataType, w) if w == done => {}
                _ => return bad(&format!("UnknownDataType (mode {ty}) after {}", hex(done))),
            }
            if st != Err(DeQRError::UnknownDataType) {
                return Err(format!("{}: decode() gives {:?}, want UnknownDataType", ctx(), st.map(|x| hex(x.3.as_bytes()))));
            }
            o.hit("UnknownDataType");
            o.hit(&format!("unknown mode {ty}"));
        }
        Parse::Meaningless => o.hit("outside the standard (only robustness judged)"),
    }
    Ok(())
}

pub fn c06_structured(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let (v, e, mask) = match i % 3 {
        0 => combo(i / 3),
        1 => (*r.pick(&[1, 2, 9, 10, 26, 27]), *r.pick(&ECLS), r.below(8) as u16),
        _ => (r.range(1, 8), *r.pick(&ECLS), r.below(8) as u16),
    };
    let n = spec::blocks(v, e).total_data();
    let d = bad_data(r, v, n);
    c06_judge(&d, v, e, mask, o)?;
    o.distinct(hash(&(v, e.bits(), &d)));
    o.sample(|| format!("{v}-{e:?} {} -> {:?}", hex(&d), refdec::parse(&d, v)));
    Ok(())
}

pub fn c06_random(r: &mut Rng, o: &mut Obs, _i: u64) -> Res {
    let v = if r.bool() { 1 } else { r.range(1, 40) };
    let e = *r.pick(&ECLS);
    let n = spec::blocks(v, e).total_data();
    let d = r.bytes(n);
    c06_judge(&d, v, e, r.below(8) as u16, o)?;
    o.distinct(hash(&(v, e.bits(), &d)));
    Ok(())
}

/// every mode indicator right at the start with every kind of count, on 1-H (72 data bits): the
/// first 20 bits are enumerated over the run
pub fn c06_prefix(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let mut d = r.bytes(9);
    if r.chance(0.3) {
        for x in d.iter_mut() {
            *x = 0;
        }
    }
    let p = (i.wrapping_mul(0x9E3779B97F4A7C15) >> 44) as u32; // 20 bits, well spread
    d[0] = (p >> 12) as u8;
    d[1] = (p >> 4) as u8;
    d[2] = (d[2] & 15) | ((p as u8) << 4);
    c06_judge(&d, 1, Ecl::H, (i % 8) as u16, o)?;
    o.distinct(hash(&(1, 2, &d)));
    Ok(())
}

// ---- C07

#[derive(Clone, Copy, Debug)]
enum Fault {
    /// fails for good once `n` bytes were taken
    Error(usize, io::ErrorKind),
    /// takes no more bytes: Ok(0)
    Zero(usize),
    None,
}

struct FaultyWriter {
    got: Vec<u8>,
    fault: Fault,
    chunk: usize,
    /// interrupt before every k-th call
    interrupt: usize,
    calls: usize,
    failed: bool,
    after: usize,
}

impl io::Write for &mut FaultyWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.failed {
            self.after += 1;
        }
        if self.calls > 2_000_000 {
            std::panic::panic_any(crate::monbuf::Budget(self.calls as u64));
        }
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let limit = match self.fault {
            Fault::Error(n, _) | Fault::Zero(n) => n,
            Fault::None => usize::MAX,
        };
        let room = limit - self.got.len();
        if room == 0 && !b.is_empty() {
            self.failed = true;
            return match self.fault {
                Fault::Error(_, k) => Err(k.into()),
                _ => Ok(0),
            };
        }
        let k = b.len().min(room).min(self.chunk);
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn c07_one(s: &Sym, m: &Mat, fault: Fault, chunk: usize, interrupt: usize, o: &mut Obs) -> Res {
    let mut w = FaultyWriter {
        got: vec![],
        fault,
        chunk,
        interrupt,
        calls: 0,
        failed: false,
        after: 0,
    };
    let g = Grid::new(gen::MonGrid::new(m));
    let r = guard(|| g.decode_to(&mut w)).map_err(|e| format!("symbol {} writer {fault:?} chunk {chunk} interrupt {interrupt}: {e}", s.name()))?;
    let ctx = || format!("symbol {} writer {fault:?}, {chunk} bytes a call, interrupted every {interrupt}: {:?}, {} of {} bytes taken", s.name(), r.as_ref().map(|_| ()), w.got.len(), s.content.len());
    let n = match fault {
        Fault::Error(n, _) | Fault::Zero(n) => n,
        Fault::None => usize::MAX,
    };
    if n >= s.content.len() {
        match &r {
            Ok(m) if w.got == s.content && m.version.0 == s.v => {}
            _ => return Err(format!("{}: the writer took everything, want success", ctx())),
        }
        o.hit("complete writes");
    } else {
        if r.as_ref().err() != Some(&DeQRError::IoError) {
            return Err(format!("{}: want IoError", ctx()));
        }
        if w.got[..] != s.content[..n] {
            return Err(format!("{}: what was written is not the content's prefix: {}", ctx(), hex(&w.got)));
        }
        if w.after > 0 {
            return Err(format!("{}: {} more writes after the failure", ctx(), w.after));
        }
        o.hit("IoError reported");
    }
    if interrupt > 0 {
        o.hit("interrupted writers");
    }
    o.add("writer calls", w.calls as u64);
    o.distinct(hash(&(s.modes(), n.min(5000), chunk.min(9), interrupt, matches!(fault, Fault::Zero(_)), s.v)));
    Ok(())
}

const KINDS: [io::ErrorKind; 5] = [
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::Other,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::UnexpectedEof,
];

/// a fault after every single byte
pub fn c07_every(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = if i % 4 == 0 { r.range(1, 40) } else { r.range(1, 7) };
    let e = *r.pick(&ECLS);
    let s = if i % 2 == 0 {
        let mode = gen::MODES[(i / 2 % 4) as usize];
        let max = gen::max_count(mode, v, spec::blocks(v, e).total_data() * 8).unwrap_or(0);
        let n = r.below(max.min(60) + 1);
        let sg = gen::seg_of(r, mode, n);
        gen::build(vec![sg], v, e, r.clone().below(8) as u16, r).unwrap()
    } else {
        gen::symbol(r, v, e, r.clone().below(8) as u16)
    };
    let m = if r.chance(0.2) && !matches!(refdec::read_symbol(&s.m.transpose()), refdec::Sym::Ok(..)) {
        s.m.transpose()
    } else {
        s.m.clone()
    };
    let len = s.content.len();
    let step = (len / 60).max(1);
    let mut n = 0;
    while n <= len {
        let f = if r.chance(0.25) { Fault::Zero(n) } else { Fault::Error(n, *r.pick(&KINDS)) };
        let chunk = *r.pick(&[1, 2, 3, 1000, usize::MAX]);
        let intr = *r.pick(&[0, 0, 2, 3, 7]);
        c07_one(&s, &m, f, chunk, intr, o)?;
        n += r.range(1, step);
    }
    c07_one(&s, &m, Fault::None, 1, 2, o)?;
    c07_one(&s, &m, Fault::None, usize::MAX, 0, o)?;
    o.sample(|| s.name());
    Ok(())
}

// ---- C08

pub fn c08_raw(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = 1 + (i % 40) as usize;
    let e = ECLS[(i / 40 % 4) as usize];
    let mask = (i / 160 % 8) as u16;
    let n = spec::size(v);
    let mut m = Mat::new(n);
    // any modules at all: the raw stream is uncorrected
    let p = *r.pick(&[0.5, 0.5, 0.02, 0.98]);
    for d in m.d.iter_mut() {
        *d = r.chance(p);
    }
    if i % 5 == 0 {
        m = gen::symbol(r, v, e, mask).m;
    }
    let w = spec::format_word(e, mask);
    enc::put_format(&mut m, v, 0, w);
    enc::put_format(&mut m, v, 1, w);
    let g = Grid::new(gen::MonGrid::new(&m));
    let (meta, raw) = match guard(|| g.get_raw_data()).map_err(|x| format!("{v}-{e:?}: {x}"))? {
        Ok(x) => x,
        Err(x) => return Err(format!("{v}-{e:?} mask {mask}: get_raw_data gives {x:?}")),
    };
    if (meta.version.0, meta.ecc_level, meta.mask) != (v, e.bits(), mask) {
        return Err(format!("{v}-{e:?} mask {mask}: metadata {meta:?}"));
    }
    let ord = &enc::layout(v).order;
    if raw.len != ord.len() {
        return Err(format!("{v}-{e:?}: {} raw bits, want {}", raw.len, ord.len()));
    }
    for (k, &(y, x)) in ord.iter().enumerate() {
        let b = raw.data[k / 8] >> (7 - k % 8) & 1 != 0;
        if b != m.at(y, x) {
            return Err(format!("{v}-{e:?} mask {mask}: raw bit {k} is {b}, the module at row {y} column {x} is {}", m.at(y, x)));
        }
    }
    let tail = ord.len().div_ceil(8);
    let last = if ord.len() % 8 != 0 { raw.data[tail - 1] & (0xff >> (ord.len() % 8)) } else { 0 };
    if last != 0 || raw.data[tail..].iter().any(|b| *b != 0) {
        return Err(format!("{v}-{e:?}: bits set beyond the {} of the stream", raw.len));
    }
    o.add("raw bits compared", ord.len() as u64);
    o.distinct(hash(&(v, e.bits(), mask, i)));
    o.sample(|| format!("{v}-{e:?} mask {mask}: {} bits", raw.len));
    Ok(())
}

/// one dark module in a light symbol (and the other way round), for every data module of a version
pub fn c08_single(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let v = 1 + (i % 40) as usize;
    let ord = &enc::layout(v).order;
    let f = &enc::layout(v).f;
    let mut m = Mat::new(spec::size(v));
    let inv = i / 40 % 2 == 1;
    if inv {
        m.d.fill(true);
    }
    let w = spec::format_word(*r.pick(&ECLS), r.below(8) as u16);
    enc::put_format(&mut m, v, 0, w);
    enc::put_format(&mut m, v, 1, w);
    let tries = if o.thorough { 400 } else { 60 };
    for _ in 0..tries {
        // a module of any kind: a data module sets its bit, a function module none
        let (y, x) = (r.below(m.n), r.below(m.n));
        let isfmt = {
            let (a, b) = spec::format_pos(v);
            a.contains(&(y, x)) || b.contains(&(y, x))
        };
        if isfmt {
            continue;
        }
        m.flip(y, x);
        let g = Grid::new(gen::MonGrid::new(&m));
        let raw = guard(|| g.get_raw_data()).map_err(|e| format!("version {v}: {e}"))?.map_err(|e| format!("version {v}: {e:?}"))?.1;
        let set: Vec<usize> = (0..raw.len).filter(|k| (raw.data[k / 8] >> (7 - k % 8) & 1 != 0) != inv).collect();
        let want: Vec<usize> = if f.at(y, x) { vec![] } else { ord.iter().position(|p| *p == (y, x)).into_iter().collect() };
        if set != want {
            return Err(format!("version {v}: flipping the module at row {y} column {x} changes raw bits {set:?}, want {want:?}"));
        }
        m.flip(y, x);
        o.hit(if f.at(y, x) { "function modules probed" } else { "data modules probed" });
        o.distinct(hash(&(v, y, x, inv)));
    }
    Ok(())
}

// ---- C09

struct AnyGrid<'a> {
    n: usize,
    kind: usize,
    seed: u64,
    m: Option<&'a Mat>,
    reads: Cell<u64>,
    budget: u64,
    oob: Cell<Option<(usize, usize)>>,
}

impl BitGrid for AnyGrid<'_> {
    fn size(&self) -> usize {
        self.n
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        let k = self.reads.get() + 1;
        self.reads.set(k);
        if k > self.budget {
            std::panic::panic_any(crate::monbuf::Budget(k));
        }
        if y >= self.n || x >= self.n {
            self.oob.set(Some((y, x)));
            panic!("monitor: module outside the grid");
        }
        if let Some(m) = self.m {
            if y < m.n && x < m.n {
                return m.at(y, x);
            }
        }
        let h = (y as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ (x as u64).wrapping_mul(0xC2B2AE3D27D4EB4F) ^ self.seed;
        let h = (h ^ (h >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
        let h = h ^ (h >> 32);
        match self.kind {
            0 => false,
            1 => true,
            2 => h & 1 != 0,
            3 => h & 15 == 0,
            4 => (x + y) % 2 == 0,
            // a grid that answers differently every time
            5 => (h ^ k.wrapping_mul(0x9E3779B97F4A7C15)) >> 17 & 1 != 0,
            _ => x % 3 == 0,
        }
    }
}

pub fn c09_any(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let n = match i % 8 {
        0 => (i / 8 % 200) as usize,
        1 => spec::size(r.range(1, 40)),
        2 => *r.pick(&[0, 1, 2, 6, 7, 8, 9, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 177, 178, 179, 180, 181, 182]),
        3 => *r.pick(&[usize::MAX, usize::MAX / 2, usize::MAX - 16, 1 << 32, (1 << 32) + 21, 1 << 16, 65535, 4096, 1000, 256 + 21, 185, 277]),
        4 => spec::size(r.range(1, 40)) + r.below(4),
        _ => r.range(0, 200),
    };
    let s;
    let m;
    // a real symbol under a grid of another size, or random modules with a good format
    let sub = if i % 8 >= 4 && n < 400 {
        s = gen::any_symbol(r, 40);
        let mut k = s.m;
        if n >= 21 && n <= 180 && r.bool() {
            let v = (n - 17) / 4;
            let e = *r.pick(&ECLS);
            let mut t = Mat::new(n);
            for d in t.d.iter_mut() {
                *d = r.bool();
            }
            let mask = r.below(8) as u16;
            enc::put_format(&mut t, v, 0, spec::format_word(e, mask));
            k = t;
        }
        m = k;
        Some(&m)
    } else {
        None
    };
    let mk = || AnyGrid {
        n,
        kind: (i / 3 % 7) as usize,
        seed: i,
        m: sub,
        reads: Cell::new(0),
        budget: if n < 400 { 64 + 40 * (n * n) as u64 } else { 4096 },
        oob: Cell::new(None),
    };
    let ctx = format!("grid of size {n} (kind {}, {})", i / 3 % 7, if sub.is_some() { "over a symbol" } else { "plain" });
    let mut outcome = String::new();
    for call in 0..3 {
        let g = Grid::new(mk());
        let got = guard(|| match call {
            0 => match gen::decode_grid(&g) {
                Out::Ok { .. } => None,
                Out::Err(e, _) => Some(e),
            },
            1 => g.decode().err(),
            _ => g.get_raw_data().err(),
        });
        let name = ["decode_to", "decode", "get_raw_data"][call];
        if let Some((y, x)) = g.grid.oob.get() {
            return Err(format!("{ctx}: {name} asks for the module at row {y} column {x}"));
        }
        let got = got.map_err(|e| format!("{ctx}: {name}: {e}"))?;
        if !(21..=180).contains(&n) && got != Some(DeQRError::InvalidVersion) {
            return Err(format!("{ctx}: {name} gives {got:?}, want InvalidVersion"));
        }
        if (21..=180).contains(&n) && got == Some(DeQRError::InvalidVersion) && (n - 17) % 4 == 0 {
            return Err(format!("{ctx}: {name} gives InvalidVersion"));
        }
        o.add("modules read", g.grid.reads.get());
        if n > 0 && n < 400 {
            o.max("module reads per module in one call", g.grid.reads.get() as f64 / (n * n) as f64);
        }
        outcome = format!("{got:?}");
        o.hit(&format!("outcome {outcome}"));
    }
    o.distinct(hash(&(n, i / 3 % 7, sub.is_some(), &outcome)));
    o.sample(|| format!("{ctx}: {outcome}"));
    Ok(())
}

pub fn c09_version(r: &mut Rng, o: &mut Obs, i: u64) -> Res {
    let n = if i < 1000 { i as usize } else { r.u64() as usize >> r.below(60) };
    let got = guard(|| rqrr::Version::from_size(n)).map_err(|e| format!("Version::from_size({n}): {e}"))?;
    let ok = match &got {
        Ok(v) => (21..=180).contains(&n) && (1..=40).contains(&v.0) && ((n - 17) % 4 != 0 || v.to_size() == n) && v.to_size() <= n && n < v.to_size() + 4,
        Err(e) => !(21..=180).contains(&n) && *e == DeQRError::InvalidVersion,
    };
    if !ok {
        return Err(format!("Version::from_size({n}) gives {got:?}"));
    }
    o.hit("sizes mapped to versions");
    o.distinct(hash(&("ver", n)));
    Ok(())
}
