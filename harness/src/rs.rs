//! GF(256) and Reed-Solomon: encoder and a bounded-distance reference decoder (Sugiyama's
//! extended Euclid with Forney, then checked for weight and syndromes), independent of the
//! Berlekamp-Massey decoder under test.
use std::sync::OnceLock;

pub struct Gf {
    pub exp: [u8; 512],
    pub log: [usize; 256],
}

pub fn gf() -> &'static Gf {
    static G: OnceLock<Gf> = OnceLock::new();
    G.get_or_init(|| {
        let mut exp = [0u8; 512];
        let mut log = [0usize; 256];
        let mut x = 1u16;
        for i in 0..255 {
            exp[i] = x as u8;
            log[x as usize] = i;
            x <<= 1;
            if x & 0x100 != 0 {
                x ^= 0x11D;
            }
        }
        for i in 255..512 {
            exp[i] = exp[i - 255];
        }
        Gf { exp, log }
    })
}

pub fn mul(a: u8, b: u8) -> u8 {
    if a == 0 || b == 0 {
        return 0;
    }
    let g = gf();
    g.exp[g.log[a as usize] + g.log[b as usize]]
}

pub fn inv(a: u8) -> u8 {
    let g = gf();
    g.exp[255 - g.log[a as usize]]
}

/// Generator polynomial, highest coefficient (always 1) dropped, descending order.
pub fn generator(n: usize) -> Vec<u8> {
    let mut r = vec![0u8; n];
    r[n - 1] = 1;
    let mut root = 1u8;
    for _ in 0..n {
        for j in 0..n {
            r[j] = mul(r[j], root);
            if j + 1 < n {
                r[j] ^= r[j + 1];
            }
        }
        root = mul(root, 2);
    }
    r
}

pub fn ecc(data: &[u8], gen: &[u8]) -> Vec<u8> {
    let mut r = vec![0u8; gen.len()];
    for &b in data {
        let f = b ^ r[0];
        r.rotate_left(1);
        *r.last_mut().unwrap() = 0;
        for (x, &g) in r.iter_mut().zip(gen) {
            *x ^= mul(g, f);
        }
    }
    r
}

pub fn syndromes(block: &[u8], necc: usize) -> Vec<u8> {
    let g = gf();
    (0..necc)
        .map(|i| {
            let a = g.exp[i % 255];
            block.iter().fold(0u8, |s, &c| mul(s, a) ^ c)
        })
        .collect()
}

fn trim(p: &mut Vec<u8>) {
    while p.last() == Some(&0) {
        p.pop();
    }
}

fn eval(p: &[u8], x: u8) -> u8 {
    p.iter().rev().fold(0u8, |s, &c| mul(s, x) ^ c)
}

/// Nearest codeword within floor(necc/2) symbol errors, with the error positions.
pub fn correct(block: &[u8], necc: usize) -> Option<(Vec<u8>, Vec<usize>)> {
    let t = necc / 2;
    let s = syndromes(block, necc);
    if s.iter().all(|&x| x == 0) {
        return Some((block.to_vec(), vec![]));
    }
    // Euclid on x^(2t') and S(x), ascending coefficients. For odd necc the last syndrome is only
    // used in the final verification.
    let n = 2 * t;
    let mut r0 = vec![0u8; n + 1];
    r0[n] = 1;
    let mut r1: Vec<u8> = s[..n].to_vec();
    trim(&mut r1);
    let mut t0: Vec<u8> = vec![];
    let mut t1: Vec<u8> = vec![1];
    while r1.len() > t {
        if r1.is_empty() {
            return None;
        }
        // divide r0 by r1
        let mut q = vec![0u8; r0.len().saturating_sub(r1.len()) + 1];
        let li = inv(*r1.last().unwrap());
        let mut rem = r0.clone();
        while rem.len() >= r1.len() && !rem.is_empty() {
            let c = mul(*rem.last().unwrap(), li);
            let sh = rem.len() - r1.len();
            q[sh] ^= c;
            for (i, &b) in r1.iter().enumerate() {
                rem[i + sh] ^= mul(b, c);
            }
            trim(&mut rem);
        }
        let mut nt = vec![0u8; (q.len() + t1.len()).max(t0.len())];
        for (i, &a) in t0.iter().enumerate() {
            nt[i] ^= a;
        }
        for (i, &a) in q.iter().enumerate() {
            for (j, &b) in t1.iter().enumerate() {
                nt[i + j] ^= mul(a, b);
            }
        }
        trim(&mut nt);
        r0 = r1;
        r1 = rem;
        t0 = t1;
        t1 = nt;
    }
    let c0 = *t1.first()?;
    if c0 == 0 {
        return None;
    }
    let k = inv(c0);
    let sigma: Vec<u8> = t1.iter().map(|&x| mul(x, k)).collect();
    let omega: Vec<u8> = r1.iter().map(|&x| mul(x, k)).collect();
    let deg = sigma.len() - 1;
    if deg == 0 || deg > t {
        return None;
    }
    let deriv: Vec<u8> = (1..sigma.len())
        .map(|i| if i % 2 == 1 { sigma[i] } else { 0 })
        .collect();
    let g = gf();
    let mut out = block.to_vec();
    let mut pos = vec![];
    for i in 0..block.len() {
        let xi = g.exp[(255 - i % 255) % 255]; // X^-1 for location i (from the end)
        if eval(&sigma, xi) == 0 {
            let d = eval(&deriv, xi);
            if d == 0 {
                return None;
            }
            // first root alpha^0: magnitude = X * omega(X^-1) / sigma'(X^-1)
            let e = mul(mul(g.exp[i % 255], eval(&omega, xi)), inv(d));
            let p = block.len() - 1 - i;
            out[p] ^= e;
            if e != 0 {
                pos.push(p);
            }
        }
    }
    if pos.len() > t || syndromes(&out, necc).iter().any(|&x| x != 0) {
        return None;
    }
    Some((out, pos))
}
