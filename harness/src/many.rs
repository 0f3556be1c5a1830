//! A01, W01, W02, F02: many component types at a time, so that collections kept per type grow.
use crate::items::{self, D};
use crate::rt::{catch, Engine, Src};
use goggles::*;
use std::collections::BTreeMap;

pub struct K<const N: usize>(D);
impl<const N: usize> Component for K<N> {
    type Storage = HashMapStorage<K<N>>;
}
impl<const N: usize> Clone for K<N> {
    fn clone(&self) -> Self {
        K(self.0.clone())
    }
}
fn k<const N: usize>(v: u32) -> K<N> {
    K(D::new(v))
}
const T: usize = 48;
/// `F::f::<K<n>>` as a table
macro_rules! table {
    ($f:ident: $t:ty) => {{
        const F: [$t; T] = [
            $f::<0>, $f::<1>, $f::<2>, $f::<3>, $f::<4>, $f::<5>, $f::<6>, $f::<7>, $f::<8>, $f::<9>, $f::<10>, $f::<11>,
            $f::<12>, $f::<13>, $f::<14>, $f::<15>, $f::<16>, $f::<17>, $f::<18>, $f::<19>, $f::<20>, $f::<21>, $f::<22>, $f::<23>,
            $f::<24>, $f::<25>, $f::<26>, $f::<27>, $f::<28>, $f::<29>, $f::<30>, $f::<31>, $f::<32>, $f::<33>, $f::<34>, $f::<35>,
            $f::<36>, $f::<37>, $f::<38>, $f::<39>, $f::<40>, $f::<41>, $f::<42>, $f::<43>, $f::<44>, $f::<45>, $f::<46>, $f::<47>,
        ];
        F
    }};
}
fn ins<const N: usize>(s: &mut AnyComponentSet, v: u32) -> Option<u32> {
    s.insert(k::<N>(v)).map(|c| c.0.val)
}
fn get<const N: usize>(s: &AnyComponentSet) -> Option<u32> {
    assert!(s.contains::<K<N>>() == s.get::<K<N>>().is_some(), "contains and get differ for type {N} of {T}");
    s.get::<K<N>>().map(|c| c.0.val)
}
fn cins<const N: usize>(s: &mut AnyCloneComponentSet, v: u32) -> Option<u32> {
    s.insert(k::<N>(v)).map(|c| c.0.val)
}
fn reg<const N: usize>(w: &mut World) {
    w.insert_component::<K<N>>();
}
fn put<const N: usize>(w: &mut World, e: Entity, v: u32) -> Option<u32> {
    w.get_component_mut::<K<N>>().insert(e, k::<N>(v)).unwrap().map(|c| c.0.val)
}
/// what an index has
fn at<const N: usize>(w: &World, e: Entity) -> Option<u32> {
    w.read_component::<K<N>>().storage().get(e.index()).map(|c| {
        c.0.check();
        c.0.val
    })
}
type SI = fn(&mut AnyComponentSet, u32) -> Option<u32>;
type SG = fn(&AnyComponentSet) -> Option<u32>;
type CI = fn(&mut AnyCloneComponentSet, u32) -> Option<u32>;
type WR = fn(&mut World);
type WP = fn(&mut World, Entity, u32) -> Option<u32>;
type WA = fn(&World, Entity) -> Option<u32>;
type M = BTreeMap<usize, u32>;

fn set(s: &mut AnyComponentSet, n: usize, at: usize, m: &mut M, v: &mut u32) {
    for j in 0..n {
        let t = (at + j) % T;
        *v += 1;
        let r = (table!(ins: SI)[t])(s, *v);
        assert!(r == m.insert(t, *v), "insert of type {t} returns {r:?}, among {}", m.len());
    }
    same(s, m);
}
fn same(s: &AnyComponentSet, m: &M) {
    for (t, f) in table!(get: SG).iter().enumerate() {
        let r = f(s);
        assert!(r == m.get(&t).copied(), "get of type {t} gives {r:?}, expected {:?} among {}", m.get(&t), m.len());
    }
    assert!(s.len() == m.len(), "len is {}, not {}", s.len(), m.len());
}
fn sizes(s: &mut Src) -> (usize, usize) {
    ([T, 0, 14, 28, 33][s.below(5) as usize], s.below(T as u32) as usize)
}
fn any(s: &mut Src) {
    let mut v = 0;
    let (mut ma, mut mb, mut mc) = (M::new(), M::new(), M::new());
    let (mut a, mut b, mut c) = (AnyComponentSet::new(), AnyComponentSet::new(), AnyCloneComponentSet::new());
    let (n, o) = sizes(s);
    set(&mut a, n, o, &mut ma, &mut v);
    let (n, o) = sizes(s);
    set(&mut b, n, o, &mut mb, &mut v);
    let (n, o) = sizes(s);
    for j in 0..n {
        let t = (o + j) % T;
        v += 1;
        let r = (table!(cins: CI)[t])(&mut c, v);
        assert!(r == mc.insert(t, v), "insert of type {t} into a clone set returns {r:?}");
    }
    s.saw((ma.len(), mb.len(), mc.len()));
    match s.below(3) {
        0 => {
            let over = ma.keys().any(|t| mb.contains_key(t));
            ma.append(&mut mb);
            let r = a.merge(b);
            assert!(r == over, "merge of {} types returns {r}", ma.len());
        }
        1 => {
            let over = ma.keys().any(|t| mc.contains_key(t));
            ma.extend(&mc);
            drop(b);
            let r = c.clone_into_set(&mut a);
            assert!(r == over, "clone_into_set of {} types returns {r}", mc.len());
        }
        _ => drop(b),
    }
    same(&a, &ma);
    let mut w = World::new();
    for f in table!(reg: WR) {
        f(&mut w);
    }
    let e = w.create_entity();
    let mut mw = M::new();
    for t in 0..s.below(T as u32) as usize {
        v += 1;
        (table!(put: WP)[t])(&mut w, e, v);
        mw.insert(t, v);
    }
    let over = ma.keys().any(|t| mw.contains_key(t));
    let r = a.insert_into_world(&mut w, e).unwrap();
    assert!(r == over, "insert_into_world of {} types returns {r}", ma.len());
    mw.append(&mut ma);
    for (t, f) in table!(at: WA).iter().enumerate() {
        assert!(f(&w, e) == mw.get(&t).copied(), "type {t} is {:?} in the world, expected {:?}", f(&w, e), mw.get(&t));
    }
    drop((w, c));
    items::check_none_left();
}
/// deleted entities lose their components of every type
fn world(s: &mut Src) {
    let mut w = World::new();
    let n = 1 + s.below(T as u32) as usize;
    for f in &table!(reg: WR)[..n] {
        f(&mut w);
    }
    let mut v = 0;
    let mut es: Vec<(Entity, M)> = vec![];
    for _ in 0..2 + s.below(6) {
        let e = w.create_entity();
        let mut m = M::new();
        let x = s.next().unwrap_or(0);
        for t in 0..n {
            if (t as u32 + x) % (x % 5 + 2) != 0 {
                v += 1;
                let r = (table!(put: WP)[t])(&mut w, e, v);
                assert!(r.is_none(), "a new entity has a component of type {t} of {n}");
                m.insert(t, v);
            }
        }
        es.push((e, m));
    }
    s.saw((n, es.len(), v));
    for _ in 0..2 {
        let x = s.next().unwrap_or(0);
        for (j, (e, m)) in es.iter_mut().enumerate() {
            if x >> j & 1 == 0 && w.entities().is_alive(*e) {
                if x >> 8 & 1 == 0 {
                    w.delete_entity(*e).unwrap();
                } else {
                    w.entities().delete(*e).unwrap();
                }
                m.clear();
            }
        }
        w.merge();
        for (e, m) in &es {
            for (t, f) in table!(at: WA)[..n].iter().enumerate() {
                let r = f(&w, *e);
                assert!(r == m.get(&t).copied(), "index {} has {r:?} of type {t} of {n}, expected {:?}", e.index(), m.get(&t));
            }
        }
    }
    drop((w, es));
    items::check_none_left();
}

pub struct R<const N: usize>(u32);
fn add<const N: usize>(s: &mut ResourceSet, v: u32) -> Option<u32> {
    s.insert(R::<N>(v)).map(|r| r.0)
}
fn look<const N: usize>(s: &mut ResourceSet) -> Option<u32> {
    let r = s.contains::<R<N>>();
    let b = if r { Some(s.borrow::<R<N>>().0) } else { None };
    let c = if r { Some(s.borrow_mut::<R<N>>().0) } else { None };
    let d = catch(|| s.get_mut::<R<N>>().0);
    assert!(b == c && c == d, "resource {N}: {b:?} and {c:?} and {d:?}");
    b
}
fn take<const N: usize>(s: &mut ResourceSet) -> Option<u32> {
    s.remove::<R<N>>().map(|r| r.0)
}
type RI = fn(&mut ResourceSet, u32) -> Option<u32>;
type RG = fn(&mut ResourceSet) -> Option<u32>;
fn resources(s: &mut Src) {
    let mut set = ResourceSet::new();
    let mut m = M::new();
    let mut v = 0;
    while let Some(x) = s.next() {
        let (op, n, o) = (x % 2, [T, 0, 14, 28, 33][(x / 2 % 5) as usize], (x / 10) as usize % T);
        for j in 0..n {
            let t = (o + j) % T;
            if op == 0 {
                v += 1;
                let r = (table!(add: RI)[t])(&mut set, v);
                assert!(r == m.insert(t, v), "insert of resource {t} gives {r:?}, among {}", m.len());
            } else {
                let r = (table!(take: RG)[t])(&mut set);
                assert!(r == m.remove(&t), "remove of resource {t} gives {r:?}, among {}", m.len());
            }
        }
        s.saw((op, n, m.len()));
        for (t, f) in table!(look: RG).iter().enumerate() {
            let r = f(&mut set);
            assert!(r == m.get(&t).copied(), "resource {t} is {r:?}, expected {:?} among {}", m.get(&t), m.len());
        }
    }
}

pub fn engines(v: &mut Vec<Engine>) {
    v.push(Engine::new("any-many", &["A01"], any).len(8).fixed(vec![vec![], vec![1, 0, 0, 0, 3, 0, 1], vec![1, 0, 3, 0, 1], vec![3, 0, 1], vec![3, 0, 3, 20], vec![0, 0, 0, 0, 0, 0, 1, 40], vec![1, 40, 0, 0, 4, 0, 1]]));
    v.push(Engine::new("world-many-types", &["W01"], world).len(10).fixed(vec![vec![47, 5, 1, 2, 3, 4, 5, 6, 7], vec![47, 0, 0, 1, 256, 0], vec![33, 3, 3, 3, 3, 3, 3, 3, 85, 42]]));
    v.push(Engine::new("resources-many", &["F02"], resources).len(4).fixed(vec![vec![0, 1], vec![6, 56, 107, 0]]));
}
