//! E04: threads that allocate and kill through one shared reference.
use crate::rt::{Engine, Src};
use goggles::{entity::Allocator, Entity};
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Mutex, RwLock,
    },
};

const THREADS: usize = 4;
/// what a thread is to do
enum Op {
    Allocate,
    /// the n-th entity that lived before the phase
    Kill(usize),
    /// one of those it allocated
    KillOwn(usize),
    /// one that was dead before the phase
    KillDead(usize),
}
#[derive(Default)]
struct Done {
    allocated: Vec<Entity>,
    killed: Vec<Entity>,
    wrong: Option<String>,
}
/// what the threads share in a phase
#[derive(Default)]
struct Job {
    a: Allocator,
    before: Vec<Entity>,
    dead: Vec<Entity>,
    ops: Vec<Vec<Op>>,
}
fn work(j: &Job, me: usize) -> Done {
    let a = &j.a;
    let mut d = Done::default();
    for op in &j.ops[me] {
        let (e, lives) = match op {
            Op::Allocate => {
                let e = a.allocate_atomic();
                if !a.is_alive(e) || a.entity(e.index()) != Some(e) {
                    d.wrong = Some(format!("{e:?} is not alive right after it was allocated"));
                }
                d.allocated.push(e);
                continue;
            }
            Op::Kill(n) if !j.before.is_empty() => (j.before[n % j.before.len()], true),
            Op::KillOwn(n) if !d.allocated.is_empty() => (d.allocated[n % d.allocated.len()], true),
            Op::KillDead(n) if !j.dead.is_empty() => (j.dead[n % j.dead.len()], false),
            _ => continue,
        };
        let r = a.kill_atomic(e);
        if r.is_ok() != lives {
            d.wrong = Some(format!("kill_atomic of {e:?}, which {}, answers {r:?}", if lives { "lives" } else { "is dead" }));
        }
        if lives {
            d.killed.push(e);
        }
    }
    for e in d.allocated.iter().chain(&j.before) {
        if !a.is_alive(*e) {
            d.wrong = Some(format!("{e:?} is not alive before any merge"));
        }
    }
    d
}


fn wait(mut until: impl FnMut() -> bool) {
    let mut spins = 0u32;
    while !until() {
        spins += 1;
        if spins % 500 == 0 {
            std::thread::yield_now()
        }
        std::hint::spin_loop();
    }
}
/// One phase: `n` threads run their ops at the same time, each on `job` behind a reading lock.
struct Crew {
    job: RwLock<Job>,
    phase: AtomicUsize,
    ready: AtomicUsize,
    done: AtomicUsize,
    stop: AtomicBool,
    out: Vec<Mutex<Done>>,
}
impl Crew {
    fn thread(&self, me: usize) {
        let mut seen = 0;
        loop {
            wait(|| self.phase.load(Ordering::Acquire) != seen);
            seen += 1;
            if self.stop.load(Ordering::Acquire) {
                return;
            }
            {
                let job = self.job.read().unwrap();
                let n = job.ops.len();
                self.ready.fetch_add(1, Ordering::AcqRel);
                wait(|| self.ready.load(Ordering::Acquire) >= n * seen);
                let d = catch_unwind(AssertUnwindSafe(|| work(&job, me))).unwrap_or_else(|p| {
                    let p = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or_default();
                    Done { wrong: Some(format!("a call panics: {p}")), ..Done::default() }
                });
                *self.out[me].lock().unwrap() = d;
            }
            self.done.fetch_add(1, Ordering::AcqRel);
        }
    }
}

/// first numbers: how many threads, how large the ops; then what to do, for every phase of the case
fn concurrent(s: &mut Src) {
    let n = 2 + s.below(THREADS as u32 - 1) as usize;
    let max = 1 + s.below(24);
    let d: Vec<u32> = s.rest().to_vec();
    let phases = 12;
    let crew = Crew {
        job: RwLock::new(Job::default()),
        phase: AtomicUsize::new(0),
        ready: AtomicUsize::new(0),
        done: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        out: (0..n).map(|_| Mutex::new(Done::default())).collect(),
    };
    let r = std::thread::scope(|t| {
        for me in 0..n {
            let crew = &crew;
            t.spawn(move || crew.thread(me));
        }
        let r = catch_unwind(AssertUnwindSafe(|| phases_of(&crew, &d, n, max, phases)));
        crew.stop.store(true, Ordering::Release);
        crew.phase.fetch_add(1, Ordering::AcqRel);
        r
    });
    if let Err(p) = r {
        resume_unwind(p);
    }
    s.saw((n, max));
}
fn phases_of(crew: &Crew, d: &[u32], n: usize, max: u32, phases: usize) {
    let mut k = 0usize;
    let mut next = || {
        // the numbers of the case, again and again, differently each time
        let x = if d.is_empty() { 7 } else { d[k % d.len()] };
        k += 1;
        x.wrapping_mul(0x9E37_79B1).rotate_left(13).wrapping_add((k as u32).wrapping_mul(0x85EB_CA6B)).rotate_left(7) ^ x
    };
    let mut live: BTreeMap<u32, Entity> = BTreeMap::new();
    let mut dead: Vec<Entity> = vec![];
    let mut issued: HashSet<Entity> = HashSet::new();
    let mut pending: BTreeSet<u32> = BTreeSet::new();
    for phase in 0..phases {
        {
            let mut job = crew.job.write().unwrap();
            // some free indexes, some entities
            for _ in 0..next() % max {
                let e = job.a.allocate();
                assert!(issued.insert(e), "{e:?} was allocated before");
                live.insert(e.index(), e);
            }
            for _ in 0..next() % max {
                let ix = next() as usize % live.len().max(1);
                if let Some((&i, &e)) = live.iter().nth(ix) {
                    assert!(job.a.kill(e).is_ok());
                    live.remove(&i);
                    pending.remove(&i);
                    dead.push(e);
                }
            }
            job.before = live.values().copied().collect();
            job.dead = dead.iter().rev().take(8).copied().collect();
            job.ops = (0..n)
                .map(|_| {
                    (0..1 + next() % max)
                        .map(|_| {
                            let x = next() as usize;
                            match x % 8 {
                                0..=4 => Op::Allocate,
                                5 => Op::Kill(x / 8),
                                6 => Op::KillOwn(x / 8),
                                _ => Op::KillDead(x / 8),
                            }
                        })
                        .collect()
                })
                .collect();
        }
        crew.phase.fetch_add(1, Ordering::AcqRel);
        wait(|| crew.done.load(Ordering::Acquire) == n * (phase + 1));
        let mut job = crew.job.write().unwrap();
        let all: Vec<Done> = crew.out.iter().map(|o| std::mem::take(&mut *o.lock().unwrap())).collect();
        for d in &all {
            if let Some(w) = &d.wrong {
                panic!("{w} ({n} threads)");
            }
            for &e in &d.allocated {
                assert!(issued.insert(e), "{e:?} is allocated twice by {n} threads");
                assert!(live.insert(e.index(), e).is_none(), "{e:?} gets the index of a live entity ({n} threads)");
            }
        }
        pending.extend(all.iter().flat_map(|d| &d.killed).map(|e| e.index()));
        for e in live.values() {
            assert!(job.a.is_alive(*e), "{e:?} is not alive after {n} threads allocated and killed");
        }
        assert!(!dead.iter().any(|e| job.a.is_alive(*e)), "a dead entity lives again after {n} threads allocated and killed");
        if next() % 4 != 0 {
            let mut killed = vec![];
            job.a.merge_atomic(&mut killed);
            let want: Vec<Entity> = pending.iter().map(|i| live[i]).collect();
            killed.sort();
            let mut w = want.clone();
            w.sort();
            assert!(killed == w, "merge_atomic reports {killed:?} after {n} threads killed {w:?}");
            for e in want {
                live.remove(&e.index());
                dead.push(e);
            }
            pending.clear();
            assert!(live.values().all(|e| job.a.is_alive(*e)) && !dead.iter().any(|e| job.a.is_alive(*e)), "wrong entities live after the merge ({n} threads)");
        }
    }
}

pub fn engines(v: &mut Vec<Engine>) {
    v.push(Engine::new("concurrent-allocator", &["E04"], concurrent).len(60).fixed(vec![vec![0, 0], vec![2, 3], vec![1, 20, 5, 6]]));
}
