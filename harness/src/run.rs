//! The runner: hands out cases to worker threads, catches panics of the code under test, watches
//! for calls that never return, and turns what the monitors saw into a verdict and evidence.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;
pub type CaseFn = fn(&mut Rng, &mut Obs, u64) -> Res;

pub struct Stream {
    pub name: &'static str,
    /// number of cases: quick, thorough
    pub n: [u64; 2],
    pub f: CaseFn,
}

pub struct Rate {
    pub name: &'static str,
    pub min: f64,
    pub min_n: u64,
}

impl Rate {
    pub fn many(&self) -> bool {
        self.name.ends_with('*')
    }
    pub fn covers(&self, k: &str) -> bool {
        match self.name.strip_suffix('*') {
            Some(p) => k.starts_with(p),
            None => k == self.name,
        }
    }
    /// groups, and the group with the lowest share
    fn worst(&self, o: &Obs) -> (usize, String) {
        let mut v: Vec<_> = o.rates.iter().filter(|(k, _)| self.covers(k)).collect();
        v.sort_by(|a, b| (a.1 .1 as f64 / a.1 .0 as f64).total_cmp(&(b.1 .1 as f64 / b.1 .0 as f64)));
        (v.len(), v.first().map(|(k, (n, ok))| format!("{k}: {ok} of {n}")).unwrap_or_default())
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub streams: Vec<Stream>,
    pub rates: Vec<Rate>,
    /// events without which the run decided nothing
    pub must: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// properties whose state is process-global run on one thread
    pub threads: usize,
}

/// What the monitors observed.
#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub want_sample: bool,
    pub rates: BTreeMap<String, (u64, u64)>,
    pub rate_fails: Vec<(String, String)>,
    pub thorough: bool,
    pub cur: String,
}

impl Obs {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.maxima.entry(k.to_string()).or_insert(f64::MIN);
        if v > *e {
            *e = v;
        }
    }
    /// a distinct, non-trivial case, identified by `key`
    pub fn distinct(&mut self, key: u64) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(key);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            let s: String = f().chars().take(400).collect();
            self.samples.push(s);
            self.want_sample = false;
        }
    }
    pub fn rate(&mut self, name: &str, ok: bool, what: impl FnOnce() -> String) {
        let e = self.rates.entry(name.to_string()).or_default();
        e.0 += 1;
        if ok {
            e.1 += 1;
        } else if self.rate_fails.len() < 400 {
            self.rate_fails
                .push((name.to_string(), format!("{}: {}", self.cur, what())));
        }
    }
    fn merge(&mut self, o: Obs) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            self.max(&k, v);
        }
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
        for (k, v) in o.rates {
            let e = self.rates.entry(k).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        self.rate_fails.extend(o.rate_fails);
    }
}

pub fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    // fixed keys: the same on every run
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new_with_keys(1, 2);
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    static LOC: RefCell<String> = const { RefCell::new(String::new()) };
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let l = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let p = i.payload();
        let m = if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(b) = p.downcast_ref::<crate::monbuf::Budget>() {
            format!("work budget exceeded after {} monitored steps", b.0)
        } else {
            "panic".into()
        };
        let m: String = m.chars().take(300).collect();
        if GUARDED.with(|g| g.get()) == 0 {
            eprintln!("harness panic at {l}: {m}");
        }
        LOC.with(|x| *x.borrow_mut() = format!("panic at {l}: {m}"));
    }));
}

/// Run code of rqrr; a panic becomes an error text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|_| LOC.with(|x| x.borrow().clone()))
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Cfg {
    pub seed: u64,
    pub thorough: bool,
    pub dir: PathBuf,
    pub scale: f64,
    pub only: Option<String>,
}

impl Cfg {
    pub fn from_env() -> Cfg {
        let e = |k: &str| std::env::var(k).ok();
        let dir = PathBuf::from(e("VH_EVIDENCE").unwrap_or_else(|| "/verif/evidence".into()));
        let _ = std::fs::create_dir_all(dir.join("replay"));
        Cfg {
            seed: e("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: e("VERIF_TIER").as_deref() == Some("thorough"),
            dir,
            scale: e("VH_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
            only: e("VH_STREAM"),
        }
    }
    pub fn tier(&self) -> &'static str {
        if self.thorough {
            "thorough"
        } else {
            "quick"
        }
    }
}

pub fn run_case(p: &Prop, s: &Stream, seed: u64, idx: u64, obs: &mut Obs) -> Result<Res, String> {
    obs.cur = format!("{} {}/{}", p.id, s.name, idx);
    let mut r = Rng::new(seed, s.name, idx);
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.f)(&mut r, obs, idx)))
        .map_err(|_| LOC.with(|x| x.borrow().clone()))
}

fn cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

pub fn write_replay(c: &Cfg, p: &str, stream: &str, idx: u64, msg: &str) -> PathBuf {
    let f = c
        .dir
        .join("replay")
        .join(format!("{p}-{}-{stream}-{idx}-{}.txt", c.tier(), c.seed));
    let _ = std::fs::write(
        &f,
        format!(
            "property={p}\ntier={}\nseed={}\nstream={stream}\nidx={idx}\nreplay: cd /verif && bash check.sh replay {}\n\n{msg}\n",
            c.tier(),
            c.seed,
            f.display()
        ),
    );
    f
}

struct Slot {
    tid: AtomicU64,
    seq: AtomicU64,
    cur: Mutex<(String, u64)>,
}

/// seconds of CPU time of one thread on one case after which the call is taken not to return; a
/// case costs milliseconds to a few seconds
const CPU_LIMIT: u64 = 150;

pub fn run(p: &Prop, c: &Cfg) -> i32 {
    let t0 = Instant::now();
    install_hook();
    let threads = if p.threads > 0 { p.threads } else { 8 };
    let stop_wall = Duration::from_secs(if c.thorough { 7200 } else { 600 });
    let stop = AtomicBool::new(false);
    let cut = AtomicBool::new(false);
    let total = Mutex::new(Obs::default());
    let fails: Mutex<Vec<(String, u64, String)>> = Mutex::new(vec![]);
    let harness: Mutex<Vec<String>> = Mutex::new(vec![]);
    let evals = AtomicU64::new(0);
    let state = std::fs::File::create(c.dir.join(format!(".{}.state", p.id))).ok();
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot {
            tid: AtomicU64::new(0),
            seq: AtomicU64::new(0),
            cur: Mutex::new((String::new(), 0)),
        })
        .collect();
    // the flat list of cases: streams interleaved in blocks so that a cut run still saw them all
    let ns: Vec<u64> = p
        .streams
        .iter()
        .map(|s| {
            if c.only.as_deref().is_some_and(|o| o != s.name) {
                0
            } else {
                ((s.n[c.thorough as usize] as f64 * c.scale).ceil() as u64)
                    .max((s.n[c.thorough as usize] > 0) as u64)
            }
        })
        .collect();
    let nexts: Vec<AtomicU64> = ns.iter().map(|_| AtomicU64::new(0)).collect();
    let finished = AtomicBool::new(false);
    std::thread::scope(|sc| {
        let watch = sc.spawn(|| {
            let mut last: Vec<(u64, u64)> = vec![(0, 0); threads];
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                if t0.elapsed() > stop_wall {
                    cut.store(true, Ordering::Relaxed);
                    stop.store(true, Ordering::Relaxed);
                }
                for (i, s) in slots.iter().enumerate() {
                    let (tid, seq) = (s.tid.load(Ordering::Relaxed), s.seq.load(Ordering::Relaxed));
                    if tid == 0 {
                        continue;
                    }
                    let t = match cpu_ticks(tid) {
                        Some(t) => t,
                        None => continue,
                    };
                    if last[i].0 != seq {
                        last[i] = (seq, t);
                    } else if t - last[i].1 > CPU_LIMIT * 100 {
                        let (st, idx) = s.cur.lock().unwrap().clone();
                        let msg = format!("the call does not return: {CPU_LIMIT} s of CPU time spent on one case");
                        let f = write_replay(c, p.id, &st, idx, &msg);
                        eprintln!("{} {st}/{idx}: {msg}", p.id);
                        println!("VIOLATION property={} replay={}", p.id, f.display());
                        let mut o = Obs::default();
                        o.merge(std::mem::take(&mut *total.lock().unwrap()));
                        write_evidence(p, c, &o, evals.load(Ordering::Relaxed), t0, 1, true);
                        let _ = std::io::stdout().flush();
                        std::process::exit(1);
                    }
                }
            }
        });
        let mut hs = vec![];
        for t in 0..threads {
            let (slots, nexts, ns, stop, fails, harness, total, evals, state) = (
                &slots, &nexts, &ns, &stop, &fails, &harness, &total, &evals, &state,
            );
            hs.push(
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        let mut obs = Obs {
                            thorough: c.thorough,
                            ..Obs::default()
                        };
                        slots[t].tid.store(my_tid(), Ordering::Relaxed);
                        let mut alive: Vec<usize> = (0..ns.len()).filter(|&i| ns[i] > 0).collect();
                        while !alive.is_empty() && !stop.load(Ordering::Relaxed) {
                            // the stream with the smallest share done
                            let k = alive
                                .iter()
                                .copied()
                                .min_by_key(|&i| nexts[i].load(Ordering::Relaxed) * 1000 / ns[i])
                                .unwrap();
                            let idx = nexts[k].fetch_add(1, Ordering::Relaxed);
                            if idx >= ns[k] {
                                alive.retain(|&x| x != k);
                                continue;
                            }
                            let s = &p.streams[k];
                            *slots[t].cur.lock().unwrap() = (s.name.to_string(), idx);
                            slots[t].seq.fetch_add(1, Ordering::Relaxed);
                            if let Some(f) = state {
                                let mut b = format!("{} {}\n", s.name, idx).into_bytes();
                                b.resize(128, b' ');
                                let _ = f.write_at(&b, t as u64 * 128);
                            }
                            obs.want_sample = idx < 2;
                            match run_case(p, s, c.seed, idx, &mut obs) {
                                Ok(Ok(())) => {}
                                Ok(Err(m)) => {
                                    let mut f = fails.lock().unwrap();
                                    f.push((s.name.to_string(), idx, m));
                                    if f.len() >= 8 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                Err(m) => {
                                    harness
                                        .lock()
                                        .unwrap()
                                        .push(format!("{}/{idx}: {m}", s.name));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            evals.fetch_add(1, Ordering::Relaxed);
                            slots[t].seq.fetch_add(1, Ordering::Relaxed);
                        }
                        slots[t].tid.store(0, Ordering::Relaxed);
                        total.lock().unwrap().merge(obs);
                    })
                    .expect("thread"),
            );
        }
        for h in hs {
            let _ = h.join();
        }
        finished.store(true, Ordering::Relaxed);
        let _ = watch.join();
    });
    let obs = total.into_inner().unwrap();
    let mut fails = fails.into_inner().unwrap();
    fails.sort();
    let mut viol: Vec<(String, PathBuf)> = vec![];
    for (s, i, m) in &fails {
        viol.push((format!("{s}/{i}: {m}"), write_replay(c, p.id, s, *i, m)));
    }
    // a rate whose name ends in * is demanded of each case group with that prefix
    for r in &p.rates {
        for (name, &(n, ok)) in obs.rates.iter().filter(|(k, _)| r.covers(k)) {
            if n >= r.min_n && (ok as f64) < r.min * n as f64 {
                let mut m = format!(
                    "rate {}: {ok} of {n} = {:.4}, below {}",
                    name,
                    ok as f64 / n as f64,
                    r.min
                );
                let head = m.clone();
                for (_, w) in obs.rate_fails.iter().filter(|(k, _)| k == name).take(20) {
                    m.push_str("\n  ");
                    m.push_str(w);
                }
                viol.push((head, write_replay(c, p.id, &format!("rate_{}", name.replace([' ', '/', '°', ',', '*'], "_")), 0, &m)));
            }
        }
    }
    let n_ev = evals.load(Ordering::Relaxed);
    write_evidence(p, c, &obs, n_ev, t0, viol.len() as u64, cut.load(Ordering::Relaxed));
    let _ = std::fs::remove_file(c.dir.join(format!(".{}.state", p.id)));
    let harness = harness.into_inner().unwrap();
    eprintln!(
        "{} {} seed={}: {} cases, {} distinct, {:.1} s{}",
        p.id,
        c.tier(),
        c.seed,
        n_ev,
        obs.distinct.len(),
        t0.elapsed().as_secs_f64(),
        if cut.load(Ordering::Relaxed) { " (cut by the time limit)" } else { "" }
    );
    for (k, v) in &obs.counts {
        eprintln!("  {k} = {v}");
    }
    for (k, v) in &obs.maxima {
        eprintln!("  max {k} = {v:.3}");
    }
    for (k, (n, ok)) in obs.rates.iter().filter(|(k, _)| !p.rates.iter().any(|r| r.many() && r.covers(k))) {
        eprintln!("  rate {k} = {ok}/{n} = {:.4}", *ok as f64 / *n as f64);
    }
    for r in p.rates.iter().filter(|r| r.many()) {
        let (n, w) = r.worst(&obs);
        eprintln!("  rate {} in {n} groups, lowest: {w}", r.name);
    }
    if std::env::var("VH_VERBOSE").is_ok() {
        for (k, w) in obs.rate_fails.iter().take(60) {
            eprintln!("  [{k}] {w}");
        }
    }
    if !viol.is_empty() {
        for (m, f) in viol.iter().take(8) {
            eprintln!("  violated: {m}");
            println!("VIOLATION property={} replay={}", p.id, f.display());
        }
        return 1;
    }
    if !harness.is_empty() {
        eprintln!("harness error: {}", harness[0]);
        return 3;
    }
    if c.only.is_none() && c.scale >= 1.0 {
        for m in p.must {
            if obs.counts.get(*m).copied().unwrap_or(0) == 0 {
                eprintln!("inconclusive: no event '{m}' was observed");
                return 3;
            }
        }
    }
    0
}

fn write_evidence(p: &Prop, c: &Cfg, o: &Obs, evals: u64, t0: Instant, viol: u64, cut: bool) {
    let mut s = String::new();
    s.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        jstr(p.id),
        jstr(c.tier()),
        c.seed,
        jstr(p.level),
        o.distinct.len(),
        jstr(p.rule)
    ));
    let m: Vec<String> = o.counts.iter().map(|(k, v)| format!("   {}: {v}", jstr(k))).collect();
    s.push_str(&format!("  \"observed\": {{\n{}\n  }},\n", m.join(",\n")));
    let m: Vec<String> = o.maxima.iter().map(|(k, v)| format!("   {}: {v:.4}", jstr(k))).collect();
    s.push_str(&format!("  \"maxima\": {{\n{}\n  }},\n", m.join(",\n")));
    let mut m: Vec<String> = o
        .rates
        .iter()
        .filter(|(k, _)| !p.rates.iter().any(|r| r.many() && r.covers(k)))
        .map(|(k, (n, ok))| {
            let min = p.rates.iter().find(|r| r.name == k).map(|r| r.min).unwrap_or(0.0);
            format!("   {}: {{\"n\": {n}, \"ok\": {ok}, \"required\": {min}}}", jstr(k))
        })
        .collect();
    for r in p.rates.iter().filter(|r| r.many()) {
        let (n, w) = r.worst(o);
        m.push(format!("   {}: {{\"groups\": {n}, \"lowest\": {}, \"required\": {}}}", jstr(r.name), jstr(&w), r.min));
    }
    s.push_str(&format!("  \"rates\": {{\n{}\n  }},\n", m.join(",\n")));
    s.push_str(&format!("  \"cut_by_time\": {cut},\n  \"profile\": {},\n", jstr(if cfg!(debug_assertions) { "optimised, overflow checks and debug assertions on" } else { "plain release" })));
    let m: Vec<String> = o.samples.iter().take(16).map(|k| format!("   {}", jstr(k))).collect();
    s.push_str(&format!("  \"samples\": [\n{}\n  ]\n }},\n", m.join(",\n")));
    let m: Vec<String> = p.assumptions.iter().map(|k| jstr(k)).collect();
    s.push_str(&format!(
        " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {viol}\n}}\n",
        m.join(", "),
        t0.elapsed().as_secs_f64()
    ));
    let _ = std::fs::write(c.dir.join(format!("{}.json", p.id)), s);
}

/// Run the worker as a child process: a crash of the process (abort, stack overflow, memory
/// exhausted) is attributed to a case by running the cases that were in flight again, alone.
pub fn supervise(p: &Prop, c: &Cfg) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    use std::process::Command;
    let exe = std::env::current_exe().expect("exe");
    let t0 = Instant::now();
    let st = Command::new(&exe).args(["worker", p.id]).status().expect("spawn");
    if let Some(code) = st.code() {
        if code == 0 || code == 1 || code == 3 {
            return code;
        }
    }
    eprintln!("worker died: {st}");
    let sf = c.dir.join(format!(".{}.state", p.id));
    let b = std::fs::read_to_string(&sf).unwrap_or_default();
    let _ = std::fs::remove_file(&sf);
    let mut tried = 0u64;
    for l in b.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() != 2 {
            continue;
        }
        tried += 1;
        let st = Command::new(&exe).args(["case", p.id, f[0], f[1]]).status().expect("spawn");
        let crashed = st.signal().is_some() || st.code() == Some(101);
        if crashed || st.code() == Some(1) {
            let idx = f[1].parse().unwrap_or(0);
            let m = format!("the process is ended by this case: {st}");
            let fp = write_replay(c, p.id, f[0], idx, &m);
            eprintln!("{} {}/{}: {m}", p.id, f[0], f[1]);
            println!("VIOLATION property={} replay={}", p.id, fp.display());
            write_evidence(p, c, &Obs::default(), tried, t0, 1, true);
            return 1;
        }
    }
    eprintln!("inconclusive: the crash of the worker did not repeat");
    3
}

pub fn read_kv(f: &Path) -> BTreeMap<String, String> {
    std::fs::read_to_string(f)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.split_once('='))
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect()
}
