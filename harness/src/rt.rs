//! Running, enumerating and shrinking cases.
use std::{
    cell::RefCell,
    collections::HashSet,
    fs::File,
    hash::{Hash, Hasher},
    os::unix::fs::FileExt,
    panic,
    process::exit,
    sync::atomic::{AtomicU64, Ordering},
    time::{Duration, Instant},
};

pub struct Engine {
    pub name: &'static str,
    pub props: &'static [&'static str],
    pub run: fn(&mut Src),
    /// op codes enumerated exhaustively, and the length up to which (quick, deep)
    pub alphabet: Vec<u32>,
    pub depth: (usize, usize),
    /// length of random cases
    pub len: usize,
    /// fixed cases that are always run (quick, only deep)
    pub fixed: Vec<Vec<u32>>,
    pub deep_fixed: Vec<Vec<u32>>,
}
impl Engine {
    pub fn new(name: &'static str, props: &'static [&'static str], run: fn(&mut Src)) -> Engine {
        Engine { name, props, run, alphabet: vec![], depth: (0, 0), len: 40, fixed: vec![], deep_fixed: vec![] }
    }
    pub fn exhaustive(mut self, alphabet: Vec<u32>, quick: usize, deep: usize) -> Engine {
        self.alphabet = alphabet;
        self.depth = (quick, deep);
        self
    }
    pub fn len(mut self, n: usize) -> Engine {
        self.len = n;
        self
    }
    pub fn fixed(mut self, v: Vec<Vec<u32>>) -> Engine {
        self.fixed = v;
        self
    }
    pub fn deep_fixed(mut self, v: Vec<Vec<u32>>) -> Engine {
        self.deep_fixed = v;
        self
    }
}

pub struct Src<'a> {
    d: &'a [u32],
    i: usize,
    pub trace: u64,
}
impl<'a> Src<'a> {
    pub fn next(&mut self) -> Option<u32> {
        let x = self.d.get(self.i).copied();
        self.i += 1;
        x
    }
    /// 0 once the case is used up
    pub fn below(&mut self, n: u32) -> u32 {
        self.next().unwrap_or(0) % n
    }
    pub fn flag(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn rest(&mut self) -> &'a [u32] {
        let r = &self.d[self.i.min(self.d.len())..];
        self.i = self.d.len();
        r
    }
    /// for counting distinct behaviours
    pub fn saw<T: Hash>(&mut self, t: T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (self.trace, t).hash(&mut h);
        self.trace = h.finish();
    }
}

thread_local! { static MSG: RefCell<String> = RefCell::new(String::new()); }
pub struct Expected;
/// a panic that is part of the case
pub fn expected_panic() -> ! {
    panic::panic_any(Expected)
}
/// does `f` panic?
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    panic::catch_unwind(panic::AssertUnwindSafe(f)).is_err()
}
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    panic::catch_unwind(panic::AssertUnwindSafe(f)).ok()
}

fn run_case(e: &Engine, d: &[u32]) -> Result<u64, String> {
    MSG.with(|m| m.borrow_mut().clear());
    let mut s = Src { d, i: 0, trace: 0 };
    crate::items::reset();
    match panic::catch_unwind(panic::AssertUnwindSafe(|| (e.run)(&mut s))) {
        Ok(()) => Ok(s.trace),
        Err(p) => {
            let m = MSG.with(|m| m.borrow().clone());
            let p = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or_default();
            Err(if m.is_empty() { p } else { m })
        }
    }
}

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9abc_def1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

fn show(d: &[u32]) -> String {
    d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn shrink(e: &Engine, mut d: Vec<u32>) -> (Vec<u32>, String) {
    let mut msg = match run_case(e, &d) {
        Err(m) => m,
        Ok(_) => return (d, "fails only sometimes".into()),
    };
    let t = Instant::now();
    let mut chunk = (d.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < d.len() && t.elapsed() < Duration::from_secs(20) {
            let mut c = d.clone();
            c.drain(i..(i + chunk).min(d.len()));
            if let Err(m) = run_case(e, &c) {
                d = c;
                msg = m;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            break;
        }
        if t.elapsed() >= Duration::from_secs(20) {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    for i in 0..d.len() {
        for v in [0, d[i] & 0xff, d[i] & 0xffff] {
            if v < d[i] && t.elapsed() < Duration::from_secs(25) {
                let mut c = d.clone();
                c[i] = v;
                if let Err(m) = run_case(e, &c) {
                    d = c;
                    msg = m;
                    break;
                }
            }
        }
    }
    (d, msg)
}

static START: AtomicU64 = AtomicU64::new(0);

pub fn main(engines: Vec<Engine>) {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<Expected>().is_some() {
            return;
        }
        let p = i.payload();
        let s = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = MSG.try_with(|m| *m.borrow_mut() = format!("{s}{l}"));
    }));
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for e in &engines {
                println!("{} {}", e.name, e.props.join(","));
            }
        }
        Some("case") => {
            let e = engines.iter().find(|e| e.name == a[2]).expect("no such engine");
            let d: Vec<u32> = a.get(3).map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
            let n: u32 = opt("--times").and_then(|x| x.parse().ok()).unwrap_or(1);
            for _ in 0..n {
                if let Err(m) = run_case(e, &d) {
                    println!("FAIL engine={} case={} message={}", e.name, show(&d), m.replace('\n', " | "));
                    exit(1);
                }
            }
            println!("PASS");
        }
        Some("run") => {
            let props: Vec<String> = opt("--props").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
            let budget: u64 = opt("--budget").and_then(|x| x.parse().ok()).unwrap_or(2000);
            let seed: u64 = opt("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
            let deep = a.iter().any(|x| x == "--deep");
            let trace = File::create(opt("--trace").unwrap_or("/dev/null".into())).unwrap();
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(500));
                let s = START.load(Ordering::SeqCst);
                let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64;
                if s != 0 && now > s + 120_000 {
                    println!("HANG");
                    exit(3);
                }
            });
            let mine: Vec<&Engine> = engines.iter().filter(|e| opt("--engine").map_or(e.props.iter().any(|p| props.iter().any(|q| q == p)), |n| n == e.name)).collect();
            for e in &mine {
                let mut cases = 0u64;
                let mut exhaustive = 0u64;
                let mut done = 0usize;
                let mut seen: HashSet<u64> = HashSet::new();
                let t = Instant::now();
                let share = Duration::from_millis(budget / mine.len() as u64);
                let mut one = |d: &[u32]| {
                    let mut line = format!("{} {}\n", e.name, show(d)).into_bytes();
                    let n = line.len().max(2);
                    line.resize(n, b' ');
                    let _ = trace.write_all_at(&line, 0);
                    START.store(std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64, Ordering::SeqCst);
                    let r = run_case(e, d);
                    START.store(0, Ordering::SeqCst);
                    cases += 1;
                    match r {
                        Ok(h) => {
                            if seen.len() < 200_000 {
                                seen.insert(h);
                            }
                        }
                        Err(first) => {
                            let (c, m) = shrink(e, d.to_vec());
                            let m = if m == "fails only sometimes" { format!("{first} (fails only sometimes)") } else { m };
                            println!("FAIL engine={} case={} message={}", e.name, show(&c), m.replace('\n', " | "));
                            exit(1);
                        }
                    }
                };
                for f in &e.fixed {
                    one(f);
                }
                if deep {
                    for f in &e.deep_fixed {
                        one(f);
                    }
                }
                // all sequences over the alphabet, by length, for half of the time
                let depth = if deep { e.depth.1 } else { e.depth.0 };
                'ex: for n in 0..=depth {
                    if n > 0 && e.alphabet.is_empty() {
                        break;
                    }
                    let mut ix = vec![0usize; n];
                    loop {
                        let d: Vec<u32> = ix.iter().map(|&i| e.alphabet[i]).collect();
                        one(&d);
                        exhaustive += 1;
                        if t.elapsed() > share * 2 / 3 {
                            break 'ex;
                        }
                        let mut k = n;
                        while k > 0 {
                            ix[k - 1] += 1;
                            if ix[k - 1] < e.alphabet.len() {
                                break;
                            }
                            ix[k - 1] = 0;
                            k -= 1;
                        }
                        if k == 0 {
                            break;
                        }
                    }
                    done = n;
                }
                let mut r = Rng::new(seed ^ e.name.bytes().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)));
                let mut first = true;
                while first || t.elapsed() < share {
                    first = false;
                    let n = 1 + (r.next() as usize) % e.len;
                    let mode = r.next() % 4;
                    let d: Vec<u32> = (0..n)
                        .map(|_| {
                            let x = r.next() as u32;
                            if mode == 0 && !e.alphabet.is_empty() { e.alphabet[x as usize % e.alphabet.len()] } else { x }
                        })
                        .collect();
                    one(&d);
                }
                println!("STAT engine={} cases={} enumerated={} full_depth={} distinct={} ms={}", e.name, cases, exhaustive, done, seen.len(), t.elapsed().as_millis());
            }
        }
        _ => exit(2),
    }
}
