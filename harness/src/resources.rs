//! R01: RwResources against two sets.
use crate::rt::{Engine, Src};
use goggles::{Resources, RwResources};
use std::collections::BTreeSet;
use std::hash::Hash;

type M = (BTreeSet<u32>, BTreeSet<u32>);

fn check<R: Eq + Hash + Clone>(r: &RwResources<R>, m: &M, back: &impl Fn(&R) -> u32) {
    let reads: Vec<u32> = r.reads().map(back).collect();
    let writes: Vec<u32> = r.writes().map(back).collect();
    let (sr, sw): M = (reads.iter().copied().collect(), writes.iter().copied().collect());
    assert!(sr.len() == reads.len() && sw.len() == writes.len(), "a resource is listed twice");
    assert!(sr == m.0, "reads are {sr:?} instead of {:?}", m.0);
    assert!(sw == m.1, "writes are {sw:?} instead of {:?}", m.1);
}
fn normal(reads: BTreeSet<u32>, writes: BTreeSet<u32>) -> M {
    (reads.difference(&writes).copied().collect(), writes)
}
fn conflict(a: &M, b: &M) -> bool {
    let uses = |m: &M, x: &u32| m.0.contains(x) || m.1.contains(x);
    a.1.iter().any(|x| uses(b, x)) || b.1.iter().any(|x| uses(a, x))
}

/// `n` resources; with more than a few, lists are ranges
fn go<R: Eq + Hash + Clone>(s: &mut Src, n: u32, of: impl Fn(u32) -> R, back: impl Fn(&R) -> u32) {
    const SETS: usize = 3;
    let mut real: Vec<RwResources<R>> = vec![RwResources::new(), RwResources::default(), RwResources::new()];
    let mut model: Vec<M> = vec![M::default(); SETS];
    // operations on one set build it up, now and then they look at the others
    let some = |s: &mut Src| -> Vec<u32> {
        if n <= 6 {
            return (0..s.below(4)).map(|_| s.below(n)).collect();
        }
        let (a, l, d) = (s.below(n), s.below(n), 1 + s.below(3));
        (0..l).map(|i| a + i * d).filter(|k| *k < n).collect()
    };
    while let Some(x) = s.next() {
        let i = (x / 16) as usize % SETS;
        let j = (x / 64) as usize % SETS;
        let k = x / 256 % n;
        s.saw((x % 16, conflict(&model[i], &model[j])));
        let (rr, mm) = (&mut real[i], &mut model[i]);
        let mut reads = mm.0.clone();
        let mut writes = mm.1.clone();
        match x % 16 {
            0 | 1 => {
                rr.add_read(of(k));
                reads.insert(k);
            }
            2 | 3 => {
                rr.add_write(of(k));
                writes.insert(k);
            }
            4 => {
                let v = some(s);
                rr.add_reads(v.iter().map(|&k| of(k)));
                reads.extend(v);
            }
            5 => {
                let v = some(s);
                rr.add_writes(v.iter().map(|&k| of(k)).collect::<Vec<_>>());
                writes.extend(v);
            }
            6 => {
                *rr = std::mem::take(rr).read(of(k));
                reads.insert(k);
            }
            7 => {
                *rr = std::mem::take(rr).write(of(k));
                writes.insert(k);
            }
            8 | 9 => {
                let (a, b) = (some(s), some(s));
                *rr = RwResources::from_iters(a.iter().map(|&k| of(k)), b.iter().map(|&k| of(k)));
                reads = a.into_iter().collect();
                writes = b.into_iter().collect();
            }
            10 => {
                // not injective
                let d = 1 + s.below(6);
                *rr = rr.map(|r| of(back(r) / d));
                reads = reads.iter().map(|k| k / d).collect();
                writes = writes.iter().map(|k| k / d).collect();
            }
            11 | 12 | 13 => {
                let o = real[j].clone();
                check(&o, &model[j], &back);
                real[i].union(&o);
                check(&o, &model[j], &back);
                reads.extend(&model[j].0);
                writes.extend(&model[j].1);
            }
            14 => {
                real[i] = RwResources::default();
                reads.clear();
                writes.clear();
            }
            _ => {}
        }
        model[i] = normal(reads, writes);
        for a in 0..SETS {
            check(&real[a], &model[a], &back);
            for b in 0..SETS {
                let c = real[a].conflicts_with(&real[b]);
                assert!(c == conflict(&model[a], &model[b]), "conflicts_with is {c} for {:?} and {:?}", model[a], model[b]);
            }
        }
    }
}

/// pairs of small sets, all of them
fn pairs(s: &mut Src) {
    let x = s.below(u32::MAX);
    let set = |mut x: u32| -> (RwResources<u8>, M) {
        let mut m = M::default();
        let mut r = RwResources::new();
        for k in 0..3 {
            match x % 3 {
                1 => {
                    r.add_read(k as u8);
                    m.0.insert(k);
                }
                2 => {
                    r.add_write(k as u8);
                    m.1.insert(k);
                }
                _ => {}
            }
            x /= 3;
        }
        (r, m)
    };
    let ((mut a, ma), (b, mb)) = (set(x % 27), set(x / 27 % 27));
    let c = a.conflicts_with(&b);
    assert!(c == conflict(&ma, &mb), "conflicts_with is {c} for {ma:?} and {mb:?}");
    s.saw((x % 27, x / 27 % 27));
    a.union(&b);
    check(&a, &normal(&ma.0 | &mb.0, &ma.1 | &mb.1), &|r: &u8| *r as u32);
    check(&b, &mb, &|r: &u8| *r as u32);
}

pub fn engines(v: &mut Vec<Engine>) {
    v.push(Engine::new("rw-pairs", &["R01"], pairs).len(1).fixed((0..27 * 27).map(|x| vec![x]).collect()));
    v.push(Engine::new("rw-int", &["R01"], |s| go(s, 6, |k| k, |r| *r)).exhaustive(vec![0, 16, 256, 2, 18, 258, 75, 27, 7, 6], 3, 5));
    v.push(Engine::new("rw-string", &["R01"], |s| go(s, 6, |k| format!("resource {k}"), |r| r[9..].parse().unwrap())));
    v.push(Engine::new("rw-many", &["R01"], |s| go(s, 300, |k| k, |r| *r)).len(24));
}
