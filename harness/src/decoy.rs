//! Does a symbol contain something besides its three finder patterns that looks like one?
//! Deliberately broader than any detector's tolerance: such symbols are out of scope for the
//! "is found" properties, never counted as failures.
use crate::enc::Mat;

/// 4-connected components of dark modules; 0 = light
pub fn components(m: &Mat) -> Vec<usize> {
    let n = m.n;
    let mut c = vec![0usize; n * n];
    let mut next = 0;
    for i in 0..n * n {
        if m.d[i] && c[i] == 0 {
            next += 1;
            let mut st = vec![i];
            c[i] = next;
            while let Some(k) = st.pop() {
                let (y, x) = (k / n, k % n);
                let mut go = |j: usize| {
                    if m.d[j] && c[j] == 0 {
                        c[j] = next;
                        st.push(j);
                    }
                };
                if y > 0 {
                    go(k - n)
                }
                if y + 1 < n {
                    go(k + n)
                }
                if x > 0 {
                    go(k - 1)
                }
                if x + 1 < n {
                    go(k + 1)
                }
            }
        }
    }
    c
}

/// module positions (row, column of the centre run) of look-alikes, scanning rows
fn scan(m: &Mat) -> usize {
    let n = m.n;
    let c = components(m);
    let mut area = vec![0usize; n * n + 1];
    for &k in &c {
        area[k] += 1;
    }
    let mut found = 0;
    for y in 0..n {
        // runs: (start, len, dark)
        let mut runs: Vec<(usize, usize, bool)> = vec![];
        for x in 0..n {
            let d = m.at(y, x);
            match runs.last_mut() {
                Some(r) if r.2 == d => r.1 += 1,
                _ => runs.push((x, 1, d)),
            }
        }
        for w in runs.windows(5) {
            if !w[0].2 {
                continue;
            }
            let ring = c[y * n + w[0].0];
            let stone = c[y * n + w[2].0];
            if ring != c[y * n + w[4].0] || ring == stone {
                continue;
            }
            let sum = w[0].1 + w[1].1 + w[3].1 + w[4].1;
            let alike = (2..=8usize).any(|s| {
                let avg = s * sum / 4;
                let err = (avg * 4).div_ceil(5);
                [1, 1, 3, 1, 1]
                    .iter()
                    .zip(w)
                    .all(|(k, r)| (r.1 * s).abs_diff(k * avg) <= err)
            });
            if !alike {
                continue;
            }
            let (rc, sc) = (area[ring], area[stone]);
            if sc * 100 < rc * 5 || sc * 100 > rc * 80 {
                continue;
            }
            // a real finder?
            let x = w[0].0;
            let fin = |yy: usize, xx: usize| y >= yy && y < yy + 7 && x == xx;
            if fin(0, 0) || fin(0, n - 7) || fin(n - 7, 0) {
                continue;
            }
            found += 1;
        }
    }
    found
}

pub fn count(m: &Mat) -> usize {
    scan(m) + scan(&m.transpose())
}
