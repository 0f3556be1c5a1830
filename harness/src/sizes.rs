//! S01, S02, S03, T01, T02: components without a size, of one byte, with destructors or none, large and aligned.
use crate::rt::{Engine, Src};
use goggles::{DenseStorage, DenseVecStorage, Flagged, HashMapStorage, IntoJoinExt, MaskedStorage, RawStorage, VecStorage};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};

thread_local! { static LIVE: Cell<i64> = Cell::new(0); }
fn count(n: i64) {
    LIVE.with(|l| l.set(l.get() + n));
}

pub trait Val: 'static {
    const DROPS: bool = false;
    fn make(n: u32) -> Self;
    /// what can be read from the value
    fn tag(&self) -> u32;
    /// what `tag` gives for `make(n)`
    fn of(n: u32) -> u32;
}
struct Unit;
impl Val for Unit {
    fn make(_: u32) -> Unit { Unit }
    fn tag(&self) -> u32 { 0 }
    fn of(_: u32) -> u32 { 0 }
}
struct UnitDrop;
impl Val for UnitDrop {
    const DROPS: bool = true;
    fn make(_: u32) -> UnitDrop { count(1); UnitDrop }
    fn tag(&self) -> u32 { 0 }
    fn of(_: u32) -> u32 { 0 }
}
impl Drop for UnitDrop {
    fn drop(&mut self) { count(-1) }
}
impl Val for u8 {
    fn make(n: u32) -> u8 { n as u8 }
    fn tag(&self) -> u32 { *self as u32 }
    fn of(n: u32) -> u32 { n & 255 }
}
#[repr(align(128))]
struct Big([u32; 70]);
impl Val for Big {
    const DROPS: bool = true;
    fn make(n: u32) -> Big { count(1); Big([n; 70]) }
    fn tag(&self) -> u32 {
        assert!(self as *const Big as usize % 128 == 0, "a value is not aligned");
        assert!(self.0.iter().all(|x| *x == self.0[0]), "a value was torn");
        self.0[0]
    }
    fn of(n: u32) -> u32 { n }
}
impl Drop for Big {
    fn drop(&mut self) { count(-1) }
}

const IDX: [u32; 7] = [0, 1, 2, 63, 64, 129, 4100];

fn raw<V: Val, S: RawStorage<Item = V> + Default>(s: &mut Src, slice: impl Fn(&mut S) -> Option<(Vec<u32>, Vec<u32>)>) {
    LIVE.with(|l| l.set(0));
    let mut st = S::default();
    let mut m: BTreeMap<u32, u32> = BTreeMap::new();
    let mut n = 0;
    while let Some(x) = s.next() {
        let i = IDX[(x / 4) as usize % IDX.len()];
        n += 1;
        s.saw((x % 4, m.contains_key(&i)));
        unsafe {
            match (x % 4, m.contains_key(&i)) {
                (0 | 1, false) => {
                    st.insert(i, V::make(n));
                    m.insert(i, V::of(n));
                }
                (1 | 2, true) => assert!(Some(st.remove(i).tag()) == m.remove(&i), "remove({i}) gives a value of another index"),
                (3 | 0, true) => {
                    let old = std::mem::replace(st.get_mut(i), V::make(n)).tag();
                    assert!(m.insert(i, V::of(n)) == Some(old), "get_mut({i}) gives a value of another index");
                }
                _ => (),
            }
            for (&i, &t) in &m {
                assert!(st.get(i).tag() == t, "get({i}) does not give the value stored there");
            }
        }
        if let Some((a, b)) = slice(&mut st) {
            let mut w: Vec<u32> = m.values().copied().collect();
            w.sort();
            for mut v in [a, b] {
                v.sort();
                assert!(v == w, "a slice contains {v:?} instead of {w:?}");
            }
        }
        assert!(!V::DROPS || LIVE.with(|l| l.get()) == m.len() as i64, "{} values exist instead of {}", LIVE.with(|l| l.get()), m.len());
    }
    for (&i, &t) in &m {
        assert!(unsafe { st.remove(i) }.tag() == t, "remove({i}) gives a value of another index");
    }
}

/// many values
fn many<V: Val, S: RawStorage<Item = V> + Default>(s: &mut Src, slice: impl Fn(&mut S) -> Option<(Vec<u32>, Vec<u32>)>) {
    LIVE.with(|l| l.set(0));
    let mut st = S::default();
    let mut m: BTreeMap<u32, u32> = BTreeMap::new();
    let n = [130, 257, 300, 1100][s.below(4) as usize] + s.below(3);
    let step = 1 + 64 * s.below(2);
    s.saw((n, step));
    for k in 0..n {
        unsafe { st.insert(k * step, V::make(k)) };
        m.insert(k * step, V::of(k));
    }
    for round in 0..3 {
        for (&i, &t) in &m {
            unsafe {
                assert!(st.get(i).tag() == t, "get({i}) does not give the value stored there, among {n}");
                assert!(st.get_mut(i).tag() == t, "get_mut({i}) does not give the value stored there, among {n}");
            }
        }
        if let Some((a, b)) = slice(&mut st) {
            let mut w: Vec<u32> = m.values().copied().collect();
            w.sort();
            for mut v in [a, b] {
                v.sort();
                assert!(v == w, "a slice contains {} values instead of {}", v.len(), w.len());
            }
        }
        assert!(!V::DROPS || LIVE.with(|l| l.get()) == m.len() as i64, "{} values exist instead of {}", LIVE.with(|l| l.get()), m.len());
        let gone: Vec<u32> = m.keys().copied().filter(|i| round == 2 || i / step % 3 == round).collect();
        for i in gone {
            assert!(Some(unsafe { st.remove(i) }.tag()) == m.remove(&i), "remove({i}) gives a value of another index, among {n}");
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum P { S02, S03, T01, T02 }

fn masked<V: Val, R: RawStorage<Item = V> + Default>(s: &mut Src, p: P) {
    LIVE.with(|l| l.set(0));
    let mut st: MaskedStorage<Flagged<R>> = MaskedStorage::default();
    let mut m: BTreeMap<u32, u32> = BTreeMap::new();
    let mut marks: BTreeSet<u32> = BTreeSet::new();
    let mut on = false;
    let mut n = 0;
    let (vals, t1, t2) = (p == P::S02, p == P::T01, p == P::T02);
    while let Some(x) = s.next() {
        let i = IDX[(x / 16) as usize % IDX.len()];
        n += 1;
        let there = m.get(&i).copied();
        s.saw((x % 16, there.is_some(), on));
        macro_rules! touch { ($i:expr) => { if on { marks.insert($i); } } }
        match x % 16 {
            0 | 1 => {
                let r = st.insert(i, V::make(n)).map(|v| v.tag());
                assert!(!vals || r == there, "insert({i}) gives {r:?} instead of {there:?}");
                m.insert(i, V::of(n));
                touch!(i);
            }
            2 | 3 => {
                let r = st.remove(i).map(|v| v.tag());
                assert!(!vals || r == there, "remove({i}) gives {r:?} instead of {there:?}");
                if m.remove(&i).is_some() { touch!(i) }
            }
            4 => {
                if let Some(r) = st.get_mut(i) {
                    let old = std::mem::replace(r, V::make(n)).tag();
                    assert!(!vals || there == Some(old), "get_mut({i}) is the wrong value");
                    touch!(i);
                    m.insert(i, V::of(n));
                } else {
                    assert!(!vals || there.is_none(), "get_mut({i}) is None");
                }
            }
            5 => {
                let r = st.get_or_insert_with(i, || V::make(n));
                let w = there.unwrap_or(V::of(n));
                assert!(!vals || r.tag() == w, "get_or_insert_with({i}) gives {} instead of {w}", r.tag());
                m.insert(i, w);
                touch!(i);
            }
            6 | 7 => match st.get_guard(i) {
                Some(mut g) => {
                    assert!(!vals && !t2 || there == Some(g.get().tag()), "the guard of {i} is of another value");
                    if x % 16 == 7 {
                        *g.get_mut() = V::make(n);
                        touch!(i);
                        m.insert(i, V::of(n));
                    }
                }
                None => assert!(!vals || there.is_none(), "get_guard({i}) is None"),
            },
            8 => {
                let g: Vec<u32> = (&st).join().map(|v| v.tag()).collect();
                assert!(!vals || g == m.values().copied().collect::<Vec<_>>(), "a join gives {g:?}");
            }
            9 => {
                for v in (&mut st).join() {
                    n += 1;
                    *v = V::make(n);
                }
                let base = n - m.len() as u32;
                for (k, (i, t)) in m.iter_mut().enumerate() {
                    *t = V::of(base + 1 + k as u32);
                    touch!(*i);
                }
            }
            10 => {
                for g in st.guard().join() {
                    let _ = g.get().tag();
                }
            }
            11 => {
                on = !on;
                st.set_track_modified(on);
            }
            12 => {
                st.clear_modified();
                marks.clear();
            }
            13 => {
                st.mark_modified(i);
                marks.insert(i);
            }
            _ => {
                let g: Vec<Option<u32>> = st.modified().join().map(|v| v.map(|v| v.tag())).collect();
                assert!(!t2 || g == marks.iter().map(|i| m.get(i).copied()).collect::<Vec<_>>(), "modified() gives {g:?}");
                let g: Vec<Option<u32>> = st.modified_mut().join().map(|v| v.map(|v| v.tag())).collect();
                assert!(!t2 || g == marks.iter().map(|i| m.get(i).copied()).collect::<Vec<_>>(), "modified_mut() gives {g:?}");
                let seen: Vec<u32> = marks.iter().copied().filter(|i| m.contains_key(i)).collect();
                for i in seen { touch!(i) }
            }
        }
        let got: Vec<u32> = st.modified_indexes().join().collect();
        assert!(!(t1 || t2) || got == marks.iter().copied().collect::<Vec<_>>(), "the marks are {got:?} instead of {marks:?}");
        if vals {
            for i in IDX {
                assert!(st.contains(i) == m.contains_key(&i) && st.get(i).map(|v| v.tag()) == m.get(&i).copied(), "get({i}) or contains({i}) is wrong");
            }
            let got: Vec<u32> = st.mask().join().collect();
            assert!(got == m.keys().copied().collect::<Vec<_>>(), "the mask is {got:?}");
        }
        if p == P::S03 && V::DROPS {
            assert!(LIVE.with(|l| l.get()) == m.len() as i64, "{} values exist instead of {}", LIVE.with(|l| l.get()), m.len());
        }
    }
    // the storage goes away, or does while a panic unwinds
    if p == P::S03 && n % 2 == 1 {
        crate::rt::panics(move || {
            let _st = st;
            if n > 0 {
                crate::rt::expected_panic();
            }
        });
    } else {
        drop(st);
    }
    assert!(p != P::S03 || LIVE.with(|l| l.get()) == 0, "{} values are left", LIVE.with(|l| l.get()));
}
fn none<S>(_: &mut S) -> Option<(Vec<u32>, Vec<u32>)> {
    None
}
fn dense<V: Val, S: DenseStorage<Item = V>>(s: &mut S) -> Option<(Vec<u32>, Vec<u32>)> {
    Some((s.as_slice().iter().map(|v| v.tag()).collect(), s.as_mut_slice().iter().map(|v| v.tag()).collect()))
}

pub fn engines(v: &mut Vec<Engine>) {
    macro_rules! pick {
        ($s:ident, $f:ident, $t:ident, $($x:expr),*) => {
            match $s.below(4) {
                0 => $f::<Unit, $t<Unit>>($s, $($x),*),
                1 => $f::<UnitDrop, $t<UnitDrop>>($s, $($x),*),
                2 => $f::<u8, $t<u8>>($s, $($x),*),
                _ => $f::<Big, $t<Big>>($s, $($x),*),
            }
        };
    }
    v.push(Engine::new("raw-sizes", &["S01"], |s| match s.below(3) {
        0 => pick!(s, raw, VecStorage, none),
        1 => pick!(s, raw, DenseVecStorage, dense),
        _ => pick!(s, raw, HashMapStorage, none),
    }));
    v.push(Engine::new("raw-sizes-many", &["S01"], |s| match s.below(3) {
        0 => pick!(s, many, VecStorage, none),
        1 => pick!(s, many, DenseVecStorage, dense),
        _ => pick!(s, many, HashMapStorage, none),
    }).len(4).fixed((0..12).map(|k| vec![k % 3, k / 3, 1 + k % 2, k % 3, k % 2]).collect()));
    macro_rules! m {
        ($n:expr, $p:ident) => {
            v.push(Engine::new($n, &[stringify!($p)], |s| match s.below(3) {
                0 => pick!(s, masked, VecStorage, P::$p),
                1 => pick!(s, masked, DenseVecStorage, P::$p),
                _ => pick!(s, masked, HashMapStorage, P::$p),
            }))
        };
    }
    m!("masked-sizes", S02);
    m!("drops-sizes", S03);
    m!("marks-sizes", T01);
    m!("guards-sizes", T02);
}
