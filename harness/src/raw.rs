//! S01: raw storages against a map.
use crate::items::{self, D};
use crate::rt::{Engine, Src};
use goggles::{DenseStorage, DenseVecStorage, Flagged, HashMapStorage, RawStorage, TrackedStorage, VecStorage};
use std::collections::BTreeMap;

pub const IDX: [u32; 8] = [0, 1, 2, 7, 63, 64, 129, 5000];

fn go<S: RawStorage<Item = D>>(s: &mut Src, mut st: S, slices: impl Fn(&mut S) -> Option<(Vec<u64>, Vec<u64>)>, toggle: impl Fn(&mut S, bool)) {
    let mut m: BTreeMap<u32, u64> = BTreeMap::new();
    let mut out: Vec<D> = vec![];
    while let Some(x) = s.next() {
        let i = IDX[(x / 4) as usize % IDX.len()];
        s.saw((x % 4, m.contains_key(&i)));
        if x / 32 % 7 == 6 {
            toggle(&mut st, x / 256 % 2 == 0);
        }
        unsafe {
            match (x % 4, m.contains_key(&i)) {
                (0 | 1, false) => {
                    let d = D::new(i);
                    m.insert(i, d.id);
                    st.insert(i, d);
                }
                (1 | 2, true) => {
                    let d = st.remove(i);
                    d.check();
                    assert!(m.remove(&i) == Some(d.id), "remove({i}) gives a value of another index");
                    out.push(d);
                }
                (3 | 0, true) => {
                    let new = D::new(i);
                    let r = st.get_mut(i);
                    r.check();
                    assert!(r.id == m[&i], "get_mut({i}) gives a value of another index");
                    m.insert(i, new.id);
                    out.push(std::mem::replace(r, new));
                }
                _ => {}
            }
            for (&i, &id) in &m {
                let d = st.get(i);
                d.check();
                assert!(d.id == id, "get({i}) does not give the value stored there");
            }
        }
        if let Some((a, b)) = slices(&mut st) {
            let mut w: Vec<u64> = m.values().copied().collect();
            w.sort();
            for mut v in [a, b] {
                v.sort();
                assert!(v == w, "a slice contains {v:?} instead of {w:?}");
            }
        }
    }
    let keys: Vec<u32> = m.keys().copied().collect();
    for i in keys {
        let d = unsafe { st.remove(i) };
        d.check();
        assert!(m.remove(&i) == Some(d.id), "remove({i}) gives a value of another index");
    }
    drop(st);
    drop(out);
    items::check_none_left();
}
/// many values: positions that do not fit one byte, or two
fn many<S: RawStorage<Item = D>>(s: &mut Src, mut st: S, slices: impl Fn(&mut S) -> Option<(Vec<u64>, Vec<u64>)>) {
    let n = [40, 66, 130, 300][s.below(15) as usize % 4] + if s.below(16) == 15 { 70_000 } else { 0 } + s.below(4);
    let (step, order) = ([1, 1, 2, 5][s.below(4) as usize], s.below(3));
    let mut m: BTreeMap<u32, u64> = BTreeMap::new();
    let at = |k: u32| step * if order == 0 { k } else if order == 1 { n - 1 - k } else { k ^ 1 };
    for k in 0..n {
        let d = D::new(at(k));
        m.insert(at(k), d.id);
        unsafe { st.insert(at(k), d) };
    }
    s.saw((n, step, order));
    let check = |st: &mut S, m: &BTreeMap<u32, u64>| {
        for (&i, &id) in m {
            let d = unsafe { st.get(i) };
            d.check();
            assert!(d.id == id, "get({i}) does not give the value stored there, among {n}");
            let d = unsafe { st.get_mut(i) };
            assert!(d.id == id, "get_mut({i}) does not give the value stored there, among {n}");
        }
        if let Some((a, b)) = slices(st) {
            let mut w: Vec<u64> = m.values().copied().collect();
            w.sort();
            for mut v in [a, b] {
                v.sort();
                assert!(v == w, "a slice contains {} values instead of {}", v.len(), w.len());
            }
        }
    };
    check(&mut st, &m);
    for _ in 0..2 + s.below(8) {
        // one from the end, from the start, from anywhere
        let x = s.next().unwrap_or(1);
        let i = match x % 3 {
            0 => *m.keys().next().unwrap(),
            1 => *m.keys().nth(x as usize / 3 % m.len()).unwrap(),
            _ => *m.keys().last().unwrap(),
        };
        let d = unsafe { st.remove(i) };
        d.check();
        assert!(m.remove(&i) == Some(d.id), "remove({i}) gives a value of another index, among {n}");
    }
    check(&mut st, &m);
    for i in m.keys().copied().collect::<Vec<_>>() {
        let d = unsafe { st.remove(i) };
        d.check();
        assert!(m.remove(&i) == Some(d.id), "remove({i}) gives a value of another index, among {n}");
    }
    drop(st);
    items::check_none_left();
}
fn none<S>(_: &mut S) -> Option<(Vec<u64>, Vec<u64>)> {
    None
}
fn dense<S: DenseStorage<Item = D>>(s: &mut S) -> Option<(Vec<u64>, Vec<u64>)> {
    let id = |d: &D| {
        d.check();
        d.id
    };
    Some((s.as_slice().iter().map(id).collect(), s.as_mut_slice().iter().map(id).collect()))
}

pub fn engines(v: &mut Vec<Engine>) {
    let ab: Vec<u32> = vec![1, 5, 9, 13, 3, 7, 17];
    macro_rules! e {
        ($n:expr, $f:expr) => {
            v.push(Engine::new($n, &["S01"], $f).exhaustive(ab.clone(), 6, 8))
        };
    }
    e!("raw-vec", |s| go(s, VecStorage::default(), none, |_, _| ()));
    e!("raw-dense", |s| go(s, DenseVecStorage::default(), dense, |_, _| ()));
    e!("raw-hash", |s| go(s, HashMapStorage::default(), none, |_, _| ()));
    e!("raw-flagged-vec", |s| go(s, Flagged::<VecStorage<D>>::default(), none, |s, b| s.set_track_modified(b)));
    e!("raw-flagged-dense", |s| go(s, Flagged::<DenseVecStorage<D>>::default(), none, |s, b| s.set_track_modified(b)));
    e!("raw-flagged-hash", |s| go(s, Flagged::<HashMapStorage<D>>::default(), none, |s, b| s.set_track_modified(b)));
    macro_rules! m {
        ($n:expr, $f:expr) => {
            v.push(Engine::new($n, &["S01"], $f).len(15).fixed((0..3).map(|k| vec![k, 15, k, k, k, 4, 1, 31, 94, 200_000, 1002, 41]).collect()))
        };
    }
    m!("raw-many-vec", |s| many(s, VecStorage::default(), none));
    m!("raw-many-dense", |s| many(s, DenseVecStorage::default(), dense));
    m!("raw-many-hash", |s| many(s, HashMapStorage::default(), none));
    m!("raw-many-flagged", |s| many(s, Flagged::<DenseVecStorage<D>>::default(), none));
}
