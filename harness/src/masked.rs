//! S02, S03, T01, T02: MaskedStorage against a map.
use crate::items::{self, D};
use crate::rt::{catch, Engine, Src};
use goggles::hibitset::BitSetLike;
use goggles::{DenseVecStorage, Flagged, HashMapStorage, IntoJoinExt, MaskedStorage, RawStorage, TrackedStorage, VecStorage};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

/// indexes at the borders of words; large ones where they cost nothing
fn idx<S>() -> [u32; 7] {
    if std::any::type_name::<S>().contains("HashMap") { [0, 1, 2, 5, 64, 70_001, 300_000] } else { [0, 1, 2, 5, 63, 64, 4100] }
}
/// more than a bit set can hold
pub const HUGE: u32 = 1 << 24;

thread_local! { static MISUSE: RefCell<Option<String>> = RefCell::new(None); }

/// A storage that watches for calls the RawStorage contract forbids.
#[derive(Default)]
pub struct Chk<S> {
    inner: S,
    has: BTreeSet<u32>,
}
impl<S> Chk<S> {
    fn want(&self, i: u32, b: bool, what: &str) {
        if self.has.contains(&i) != b {
            let m = format!("the underlying storage gets {what}({i}) while {}", if b { "nothing is stored there" } else { "a value is stored there" });
            MISUSE.with(|x| *x.borrow_mut() = Some(m.clone()));
            panic!("{m}");
        }
    }
}
impl<S: RawStorage> RawStorage for Chk<S> {
    type Item = S::Item;
    unsafe fn get(&self, i: u32) -> &S::Item {
        self.want(i, true, "get");
        self.inner.get(i)
    }
    unsafe fn get_mut(&self, i: u32) -> &mut S::Item {
        self.want(i, true, "get_mut");
        self.inner.get_mut(i)
    }
    unsafe fn insert(&mut self, i: u32, v: S::Item) {
        self.want(i, false, "insert");
        self.has.insert(i);
        self.inner.insert(i, v)
    }
    unsafe fn remove(&mut self, i: u32) -> S::Item {
        self.want(i, true, "remove");
        self.has.remove(&i);
        self.inner.remove(i)
    }
}

#[derive(Clone, Copy, PartialEq)]
enum P {
    S02,
    S03,
}

fn plain<S: RawStorage<Item = D> + Default>(s: &mut Src, p: P) {
    MISUSE.with(|x| *x.borrow_mut() = None);
    let mut st: MaskedStorage<Chk<S>> = MaskedStorage::default();
    let mut m: BTreeMap<u32, u64> = BTreeMap::new();
    let mut out: Vec<D> = vec![];
    let bomb = s.next().unwrap_or(0);
    let vals = p == P::S02;
    macro_rules! same {
        ($d:expr, $id:expr, $what:expr) => {{
            let d = $d;
            d.check();
            if vals {
                assert!(Some(d.id) == $id, "{} at the wrong value", $what);
            }
        }};
    }
    while let Some(x) = s.next() {
        let i = if x / 16 % 40 == 39 { HUGE + x % 3 } else { idx::<S>()[(x / 16) as usize % 7] };
        let there = m.get(&i).copied();
        s.saw((x % 16, there.is_some()));
        match x % 16 {
            0 | 1 | 12 => {
                let d = D::new(i);
                let id = d.id;
                if i >= HUGE {
                    // refused by a panic, if it is refused
                    let _ = catch(|| st.insert(i, d));
                    assert!(!vals || !st.contains(i), "insert({i}) claims to have stored a value");
                } else {
                    let r = st.insert(i, d);
                    if vals {
                        assert!(r.is_some() == there.is_some(), "insert({i}) is wrong about the previous value");
                    }
                    if let Some(d) = r {
                        same!(&d, there, "insert returns");
                        out.push(d);
                    }
                    m.insert(i, id);
                }
            }
            2 | 3 | 13 => {
                let r = st.remove(i);
                if vals {
                    assert!(r.is_some() == there.is_some(), "remove({i}) is wrong about the previous value");
                }
                if let Some(d) = r {
                    same!(&d, there, "remove returns");
                    out.push(d);
                }
                m.remove(&i);
            }
            4 => {
                let r = st.get_mut(i);
                if vals {
                    assert!(r.is_some() == there.is_some(), "get_mut({i}) is wrong about being there");
                }
                if let Some(r) = r {
                    same!(&*r, there, "get_mut is");
                    let d = D::new(i);
                    m.insert(i, d.id);
                    out.push(std::mem::replace(r, d));
                }
            }
            5 => {
                let r = st.get_guard(i);
                if vals {
                    assert!(r.is_some() == there.is_some(), "get_guard({i}) is wrong about being there");
                }
                if let Some(mut g) = r {
                    same!(g.get(), there, "the guard is");
                    let d = D::new(i);
                    m.insert(i, d.id);
                    let r = g.get_mut();
                    same!(&*r, there, "the guard is");
                    out.push(std::mem::replace(r, d));
                }
            }
            6 | 7 | 8 => {
                let mut ran = 0;
                let mut id = None;
                let r = catch(|| {
                    let r = st.get_or_insert_with(i, || {
                        ran += 1;
                        if x % 16 == 6 {
                            crate::rt::expected_panic();
                        }
                        let d = D::new(i);
                        id = Some(d.id);
                        d
                    });
                    r.check();
                    let was = r.id;
                    let d = D::new(i);
                    let new = d.id;
                    (was, new, std::mem::replace(r, d))
                });
                if vals {
                    assert!(i >= HUGE || ran == if there.is_some() { 0 } else { 1 }, "get_or_insert_with({i}) called the function {ran} times");
                }
                match r {
                    Some((was, new, d)) => {
                        if vals {
                            assert!(Some(was) == there.or(id), "get_or_insert_with({i}) gives another value");
                        }
                        out.push(d);
                        m.insert(i, new);
                    }
                    None => assert!(i >= HUGE || (there.is_none() && x % 16 == 6), "get_or_insert_with({i}) panics"),
                }
            }
            9 => {
                let n = (x / 16 % 8) as usize;
                for r in (&mut st).join().take(n) {
                    r.check();
                    let d = D::new(0);
                    let k = m.iter().find(|(_, &v)| v == r.id).map(|(&k, _)| k);
                    if vals {
                        assert!(k.is_some(), "the mutable join gives a value that is not stored");
                    }
                    if let Some(k) = k {
                        m.insert(k, d.id);
                    }
                    out.push(std::mem::replace(r, d));
                }
            }
            10 => {
                let w: Vec<u64> = m.values().copied().collect();
                let g: Vec<u64> = st.guard().join().map(|mut g| (g.get().id, g.get_mut().id)).map(|(a, b)| if a == b { a } else { 0 }).collect();
                let j: Vec<u64> = (&st).join().map(|d| d.id).collect();
                if vals {
                    assert!(g == w && j == w, "a join does not give the stored values in order");
                }
            }
            11 => {
                if i < HUGE {
                    // a value swapped out by its owner
                    if let Some(r) = st.get_mut(i) {
                        let d = D::new(i);
                        m.insert(i, d.id);
                        *r = d;
                    }
                }
            }
            _ => {}
        }
        if i >= HUGE && vals {
            assert!(st.get(i).is_none() && st.get_mut(i).is_none() && st.remove(i).is_none() && !st.contains(i), "an index beyond the limit is not simply absent");
        }
        for &k in idx::<S>().iter().chain([3, 65, 4099].iter()) {
            let w = m.get(&k).copied();
            if vals {
                assert!(st.contains(k) == w.is_some() && st.mask().contains(k) == w.is_some(), "contains({k}) is wrong");
                assert!(st.get(k).is_some() == w.is_some(), "get({k}) is wrong about being there");
            }
            if let Some(d) = st.get(k) {
                same!(d, w, "get is");
            }
        }
        if let Some(m) = MISUSE.with(|x| x.borrow().clone()) {
            panic!("{m}");
        }
    }
    // the storage is dropped in this state; one destructor may panic
    let mut bombed = false;
    if p == P::S03 && bomb % 3 != 0 {
        let n = m.len();
        if n > 0 {
            let k = *m.keys().nth(bomb as usize / 3 % n).unwrap();
            if let Some(d) = st.get(k) {
                d.bomb();
                bombed = true;
            }
        }
    }
    let r = catch(move || drop(st));
    if p == P::S03 {
        assert!(r.is_none() == bombed, "dropping the storage panics");
    }
    if let Some(m) = MISUSE.with(|x| x.borrow().clone()) {
        panic!("{m}");
    }
    drop(out);
    if p == P::S03 {
        items::check_none_left();
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Q {
    T01,
    T02,
}

fn tracked<S: TrackedStorage<Item = D> + Default>(s: &mut Src, q: Q) {
    let mut st: MaskedStorage<S> = MaskedStorage::default();
    let mut m: BTreeMap<u32, u64> = BTreeMap::new();
    let mut marks: BTreeSet<u32> = BTreeSet::new();
    let mut on = false;
    while let Some(x) = s.next() {
        let i = idx::<S>()[(x / 24) as usize % 7];
        let there = m.get(&i).copied();
        let has = there.is_some();
        s.saw((x % 24, has, on, marks.contains(&i)));
        match x % 24 {
            0 | 1 | 2 => {
                let d = D::new(i);
                m.insert(i, d.id);
                if on { marks.insert(i); }
                st.insert(i, d);
            }
            3 | 4 => {
                st.remove(i);
                m.remove(&i);
                if on && has { marks.insert(i); }
            }
            5 => {
                if let Some(r) = st.get_mut(i) {
                    let d = D::new(i);
                    m.insert(i, d.id);
                    *r = d;
                }
                if on && has { marks.insert(i); }
            }
            6 => {
                st.get(i);
                st.contains(i);
            }
            7 => {
                let id = st.get_or_insert_with(i, || D::new(i)).id;
                m.insert(i, id);
                if on { marks.insert(i); }
            }
            8 | 9 => {
                on = !on;
                st.set_track_modified(on);
            }
            10 => {
                st.set_track_modified(on);
            }
            11 | 12 => {
                st.mark_modified(i);
                marks.insert(i);
            }
            13 => {
                st.clear_modified();
                marks.clear();
            }
            14 => {
                // an obtained guard, read only
                let g = st.get_guard(i);
                if q == Q::T02 {
                    assert!(g.is_some() == has, "get_guard({i}) is wrong about being there");
                }
                if let Some(g) = g {
                    g.get().check();
                    if q == Q::T02 {
                        assert!(Some(g.get().id) == there, "get of the guard of {i} gives another component");
                    }
                }
            }
            15 => {
                if let Some(mut g) = st.get_guard(i) {
                    let r = g.get_mut();
                    r.check();
                    if q == Q::T02 {
                        assert!(Some(r.id) == there, "get_mut of the guard of {i} gives another component");
                    }
                    let d = D::new(i);
                    m.insert(i, d.id);
                    *r = d;
                    if on { marks.insert(i); }
                }
            }
            16 => {
                if let Some(g) = st.get_guard(i) {
                    g.mark_modified();
                    marks.insert(i);
                }
            }
            17 => {
                for d in (&st).join() {
                    d.check();
                }
                for _ in (&st).maybe().join_unconstrained().take(70) {}
            }
            18 => {
                let n = (x / 24 % 9) as usize;
                let got: Vec<u64> = (&mut st).join().take(n).map(|d| d.id).collect();
                for (&k, &id) in m.iter().take(n) {
                    if q == Q::T02 {
                        assert!(got.contains(&id), "the mutable join leaves out {k}");
                    }
                    if on { marks.insert(k); }
                }
            }
            19 | 20 => {
                // a guarded join; some are read, some changed, some marked
                let mut k = x / 24;
                let keys: Vec<(u32, u64)> = m.iter().map(|(&a, &b)| (a, b)).collect();
                let gs: Vec<_> = st.guard().join().collect();
                if q == Q::T02 {
                    assert!(gs.len() == keys.len(), "the guarded join gives {} items of {}", gs.len(), keys.len());
                }
                for (mut g, (i, id)) in gs.into_iter().zip(keys) {
                    if q == Q::T02 {
                        assert!(g.get().id == id, "get of a guard of the join at {i} gives another component");
                    }
                    match k % 4 {
                        0 => (),
                        1 => g.get().check(),
                        2 => {
                            let r = g.get_mut();
                            if q == Q::T02 {
                                assert!(r.id == id, "get_mut of a guard of the join at {i} gives another component");
                            }
                            let d = D::new(i);
                            m.insert(i, d.id);
                            *r = d;
                            if on { marks.insert(i); }
                        }
                        _ => {
                            g.mark_modified();
                            marks.insert(i);
                        }
                    }
                    k /= 4;
                }
            }
            21 => {
                let n = (x / 24 % 9) as usize;
                let w: Vec<(u32, Option<u64>)> = marks.iter().map(|&i| (i, m.get(&i).copied())).take(n).collect();
                let mut k = 0;
                for r in st.modified_mut().join().take(n) {
                    if q == Q::T02 {
                        assert!(k < w.len() && r.as_ref().map(|d| d.id) == w[k].1, "item {k} of modified_mut is wrong");
                    }
                    if let Some(r) = r {
                        r.check();
                        let d = D::new(0);
                        if k < w.len() {
                            m.insert(w[k].0, d.id);
                        }
                        *r = d;
                    }
                    k += 1;
                }
                if q == Q::T02 {
                    assert!(k == w.len(), "modified_mut gives {k} items of {}", w.len());
                }
            }
            _ => {}
        }
        if q == Q::T01 {
            assert!(st.tracking_modified() == on, "tracking_modified is wrong");
            let got: Vec<u32> = st.modified_indexes().iter().collect();
            let w: Vec<u32> = marks.iter().copied().collect();
            assert!(got == w, "indexes marked modified: {got:?}, but modified were {w:?}");
        } else {
            let got: Vec<Option<u64>> = st.modified().join().map(|d| { if let Some(d) = d { d.check(); } d.map(|d| d.id) }).collect();
            let w: Vec<Option<u64>> = st.modified_indexes().iter().collect::<Vec<u32>>().iter().map(|i| m.get(i).copied()).collect();
            assert!(got == w, "modified() gives {got:?}, expected {w:?}");
            let got: Vec<u32> = st.modified_indexes().iter().collect();
            assert!(got == marks.iter().copied().collect::<Vec<u32>>(), "indexes marked modified: {got:?}, expected {marks:?}");
            let got: Vec<(u32, Option<u64>)> = (st.modified_indexes(), st.modified()).join().map(|(i, d)| (i, d.map(|d| d.id))).collect();
            let w: Vec<(u32, Option<u64>)> = marks.iter().map(|&i| (i, m.get(&i).copied())).collect();
            assert!(got == w, "modified() gives {got:?}, expected {w:?}");
        }
        for &k in &idx::<S>() {
            if let Some(d) = st.get(k) {
                d.check();
                assert!(Some(d.id) == m.get(&k).copied(), "the component at {k} has changed");
            }
        }
        assert!((&st).join().count() == m.len(), "tracking has changed what is stored");
    }
    drop(st);
    items::check_none_left();
}

pub fn engines(v: &mut Vec<Engine>) {
    // one index is enough for most errors: insert, remove, get_mut, the closures, mutable join
    let ab = || -> Vec<u32> { vec![0, 2, 6, 7, 16, 18, 9 + 16 * 7, 5, 32, 34] };
    macro_rules! e {
        ($n:expr, $p:ident, $t:ty) => {
            v.push(Engine::new($n, &[stringify!($p)], |s| plain::<$t>(s, P::$p)).exhaustive(ab(), 5, 6))
        };
    }
    e!("masked-vec", S02, VecStorage<D>);
    e!("masked-dense", S02, DenseVecStorage<D>);
    e!("masked-hash", S02, HashMapStorage<D>);
    e!("masked-flagged", S02, Flagged<DenseVecStorage<D>>);
    e!("drops-vec", S03, VecStorage<D>);
    e!("drops-dense", S03, DenseVecStorage<D>);
    e!("drops-hash", S03, HashMapStorage<D>);
    let ab = || -> Vec<u32> { vec![0, 3, 5, 8, 11, 13, 15, 16, 18 + 24 * 8, 19 + 24 * 2, 21 + 24 * 8, 7, 24, 27] };
    macro_rules! e {
        ($n:expr, $p:ident, $t:ty) => {
            v.push(Engine::new($n, &[stringify!($p)], |s| tracked::<$t>(s, Q::$p)).exhaustive(ab(), 4, 5))
        };
    }
    e!("marks-vec", T01, Flagged<VecStorage<D>>);
    e!("marks-dense", T01, Flagged<DenseVecStorage<D>>);
    e!("marks-hash", T01, Flagged<HashMapStorage<D>>);
    e!("guards-vec", T02, Flagged<VecStorage<D>>);
    e!("guards-dense", T02, Flagged<DenseVecStorage<D>>);
    e!("guards-hash", T02, Flagged<HashMapStorage<D>>);
}
