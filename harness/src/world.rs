//! W01, W02: a World with three component types against maps from index to component.
use crate::items::{self, D};
use crate::rt::{Engine, Src};
use goggles::hibitset::BitSetLike;
use goggles::*;
use std::collections::{BTreeMap, BTreeSet};

pub trait Comp: Component + Send + Sync + 'static {
    fn make(d: D) -> Self;
    fn d(&self) -> &D;
    fn d_mut(&mut self) -> &mut D;
}
macro_rules! comp {
    ($n:ident, $s:ident $(, $w:ident)?) => {
        pub struct $n(pub D);
        impl Component for $n {
            type Storage = comp!(@ $s<$n> $(, $w)?);
        }
        impl Comp for $n {
            fn make(d: D) -> $n {
                $n(d)
            }
            fn d(&self) -> &D {
                &self.0
            }
            fn d_mut(&mut self) -> &mut D {
                &mut self.0
            }
        }
        impl Default for $n {
            fn default() -> $n {
                $n(D::new(0))
            }
        }
        impl Clone for $n {
            fn clone(&self) -> $n {
                $n(self.0.clone())
            }
        }
    };
    (@ $s:ty) => { $s };
    (@ $s:ty, $w:ident) => { $w<$s> };
}
comp!(A, VecStorage);
comp!(B, HashMapStorage, Flagged);
comp!(C, DenseVecStorage);

type Map = BTreeMap<u32, u64>;
/// what is really there, checked to be consistent in itself
pub fn real<T: Comp>(w: &World) -> Option<Map>
where
    T::Storage: Send + Sync,
{
    if !w.contains_component::<T>() {
        return None;
    }
    let r = w.read_component::<T>();
    let st = r.storage();
    let mut m = Map::new();
    for i in st.mask().iter() {
        let c = st.get(i).expect("an index in the mask has no component");
        c.d().check();
        m.insert(i, c.d().id);
    }
    Some(m)
}

#[derive(Clone, Copy, PartialEq)]
enum Q {
    W01,
    W02,
}
struct M {
    comps: [Option<Map>; 3],
    /// indexes of B that are marked as modified
    marks: BTreeSet<u32>,
    out: Vec<Box<dyn std::any::Any>>,
}
fn marks(w: &World) -> BTreeSet<u32> {
    if w.contains_component::<B>() {
        w.read_component::<B>().modified_indexes().iter().collect()
    } else {
        BTreeSet::new()
    }
}
fn all(w: &World) -> [Option<Map>; 3] {
    [real::<A>(w), real::<B>(w), real::<C>(w)]
}

fn register<T: Comp>(w: &mut World, m: &mut Option<Map>, insert: bool, q: Q)
where
    T::Storage: Default + Send,
{
    let r = if insert { w.insert_component::<T>() } else { w.remove_component::<T>() };
    let what = if insert { "insert_component" } else { "remove_component" };
    if q == Q::W01 {
        assert!(r.is_some() == m.is_some(), "{what} is wrong about a previous storage");
        if let (Some(r), Some(m)) = (&r, &m) {
            let got: Map = r.mask().iter().map(|i| (i, r.get(i).unwrap().d().id)).collect();
            assert!(got == *m, "{what} returns a storage with {got:?} instead of {m:?}");
        }
    }
    drop(r);
    *m = insert.then(Map::new);
}

/// one operation through `get_component_mut` or `write_component`, and the same queries through `read_component`
fn access<T: Comp + Default + Clone>(w: &mut World, m: &mut Map, e: Entity, x: u32, q: Q)
where
    T::Storage: Send + Sync,
{
    let alive = w.entities().is_alive(e);
    let i = e.index();
    let there = if alive { m.get(&i).copied() } else { None };
    let yes = q == Q::W02;
    let mut keep: Vec<T> = vec![];
    fn id<T: Comp>(c: &T) -> u64 {
        c.d().check();
        c.d().id
    }
    macro_rules! go {
        ($s:expr) => {{
            let mut s = $s;
            match x % 8 {
                0 => {
                    let r = s.get(e).map(id);
                    assert!(!yes || r == there, "get of {e:?} gives {r:?}, expected {there:?}");
                    let c = s.contains(e);
                    assert!(!yes || c == there.is_some(), "contains of {e:?} is {c}");
                }
                1 => {
                    let d = D::new(i);
                    let new = d.id;
                    let r = s.insert(e, T::make(d));
                    assert!(!yes || r.is_ok() == alive, "insert for {e:?}: is_ok is {}, is_alive is {alive}", r.is_ok());
                    if let Ok(r) = r {
                        let was = r.as_ref().map(id);
                        assert!(!yes || was == there, "insert for {e:?} returns {was:?}, expected {there:?}");
                        keep.extend(r);
                    }
                    if alive {
                        m.insert(i, new);
                    }
                }
                2 => {
                    let r = s.remove(e);
                    assert!(!yes || r.is_ok() == alive, "remove for {e:?}: is_ok is {}, is_alive is {alive}", r.is_ok());
                    if let Ok(r) = r {
                        let was = r.as_ref().map(id);
                        assert!(!yes || was == there, "remove for {e:?} returns {was:?}, expected {there:?}");
                        keep.extend(r);
                    }
                    if alive {
                        m.remove(&i);
                    }
                }
                3 => {
                    let r = s.get_mut(e);
                    assert!(!yes || r.as_ref().map(|c| c.d().id) == there, "get_mut of {e:?} is not what get should give");
                    if let Some(r) = r {
                        let d = D::new(i);
                        let new = d.id;
                        drop(std::mem::replace(r.d_mut(), d));
                        if alive {
                            m.insert(i, new);
                        }
                    }
                }
                4 => {
                    let g = s.get_guard(e);
                    assert!(!yes || g.as_ref().map(|g| id(g.get())) == there, "get_guard of {e:?} is not what get should give");
                    if let (Some(mut g), true) = (g, x / 8 % 2 == 1) {
                        let d = D::new(i);
                        let new = d.id;
                        drop(std::mem::replace(g.get_mut().d_mut(), d));
                        if alive {
                            m.insert(i, new);
                        }
                    }
                }
                5 | 6 => {
                    let mut ran = None;
                    let r = if x % 8 == 5 {
                        s.get_or_insert_with(e, || {
                            let c = T::default();
                            ran = Some(c.d().id);
                            c
                        })
                    } else {
                        s.get_or_default(e)
                    };
                    assert!(!yes || r.is_ok() == alive, "get_or_insert_with for {e:?}: is_ok is {}, is_alive is {alive}", r.is_ok());
                    if let Ok(r) = r {
                        let got = id(r);
                        if x % 8 == 5 {
                            assert!(!yes || ran.is_some() != there.is_some(), "get_or_insert_with for {e:?} makes a value for nothing");
                            assert!(!yes || Some(got) == there.or(ran), "get_or_insert_with for {e:?} gives another value");
                        } else if there.is_some() {
                            assert!(!yes || Some(got) == there, "get_or_default for {e:?} gives another value");
                        }
                        if alive {
                            m.insert(i, got);
                        }
                    } else {
                        assert!(!yes || ran.is_none(), "get_or_insert_with for {e:?} makes a value for nothing");
                    }
                }
                _ if x / 8 % 2 == 1 => {
                    // past the entities
                    let d = D::new(i);
                    let (new, old) = (d.id, m.get(&i).copied());
                    let r = s.storage_mut().insert(i, T::make(d));
                    let was = r.as_ref().map(id);
                    assert!(!yes || was == old, "an insert into storage_mut returns {was:?}, expected {old:?}");
                    keep.extend(r);
                    m.insert(i, new);
                }
                _ => {
                    // the whole storage
                    let mask: Vec<u32> = s.mask().iter().collect();
                    assert!(!yes || mask == m.keys().copied().collect::<Vec<_>>(), "mask is {mask:?}");
                    let j: Vec<u64> = (&s).join().map(id).collect();
                    assert!(!yes || j == m.values().copied().collect::<Vec<_>>(), "a join gives {j:?}");
                    let j: Vec<u64> = (&mut s).join().map(|c| id(&*c)).collect();
                    assert!(!yes || j == m.values().copied().collect::<Vec<_>>(), "a mutable join gives {j:?}");
                    let j: Vec<u64> = s.guard().join().map(|c| id(c.get())).collect();
                    assert!(!yes || j == m.values().copied().collect::<Vec<_>>(), "a guarded join gives {j:?}");
                    assert!(!yes || s.storage_mut().mask().iter().eq(mask.iter().copied()), "storage_mut is another storage");
                }
            }
        }};
    }
    if x / 16 % 2 == 0 {
        go!(w.get_component_mut::<T>());
    } else {
        go!(w.write_component::<T>());
    }
    // and afterwards
    let now = if alive { m.get(&i).copied() } else { None };
    let r = w.read_component::<T>();
    let got = r.get(e).map(id);
    assert!(!yes || got == now, "get of {e:?} gives {got:?} afterwards, expected {now:?}");
    assert!(!yes || r.contains(e) == now.is_some(), "contains of {e:?} is wrong afterwards");
    let j: Vec<u64> = (&r).join().map(id).collect();
    assert!(!yes || j == m.values().copied().collect::<Vec<_>>(), "a join gives {j:?} afterwards");
}

/// operations only a tracked storage has
fn tracked(w: &mut World, m: &mut M, e: Entity, x: u32, yes: bool) {
    let alive = w.entities().is_alive(e);
    if x % 4 == 0 {
        w.get_component_mut::<B>().set_track_modified(x / 4 % 2 == 0);
        assert!(!yes || w.read_component::<B>().tracking_modified() == (x / 4 % 2 == 0), "set_track_modified is lost");
        return;
    }
    if x % 4 == 1 {
        w.write_component::<B>().clear_modified();
        m.marks.clear();
    } else {
        let r = w.read_component::<B>().mark_modified(e);
        assert!(!yes || r.is_ok() == alive, "mark_modified for {e:?}: is_ok is {}, is_alive is {alive}", r.is_ok());
        if alive {
            m.marks.insert(e.index());
        }
    }
    let b = m.comps[1].clone().unwrap();
    let want: Vec<Option<u64>> = m.marks.iter().map(|i| b.get(i).copied()).collect();
    let got: Vec<Option<u64>> = w.read_component::<B>().modified().join().map(|c| c.map(|c| c.d().id)).collect();
    assert!(!yes || got == want, "modified gives {got:?}, expected {want:?}");
    let got: Vec<Option<u64>> = w.get_component_mut::<B>().modified_mut().join().map(|c| c.map(|c| c.d().id)).collect();
    assert!(!yes || got == want, "modified_mut gives {got:?}, expected {want:?}");
    let Some(c) = &m.comps[2] else { return };
    let mut s = w.get_component_mut::<C>();
    let mut got: Vec<u64> = s.as_slice().iter().map(|c| c.d().id).collect();
    let mut got2: Vec<u64> = s.as_mut_slice().iter().map(|c| c.d().id).collect();
    let mut want: Vec<u64> = c.values().copied().collect();
    got.sort();
    got2.sort();
    want.sort();
    assert!(!yes || (got == want && got2 == want), "as_slice gives {got:?}, expected {want:?}");
}

fn go(s: &mut Src, q: Q) {
    let mut w = if s.flag() { World::new() } else { World::default() };
    let mut alien = World::new();
    let mut es: Vec<Entity> = vec![];
    for _ in 0..3 {
        alien.create_entity();
    }
    let far = alien.create_entity();
    alien.delete_entity(far).unwrap();
    let stranger = alien.create_entity();
    let mut m = M { comps: [None, None, None], marks: BTreeSet::new(), out: vec![] };
    w.insert_resource(7u32);
    // mostly start with all of them
    let start = s.below(8);
    for t in 0..3 {
        if start != 1 + t {
            match t {
                0 => register::<A>(&mut w, &mut m.comps[0], true, q),
                1 => register::<B>(&mut w, &mut m.comps[1], true, q),
                _ => register::<C>(&mut w, &mut m.comps[2], true, q),
            }
        }
    }
    while let Some(x) = s.next() {
        let k = (x / 16) as usize;
        let e = match k % 8 {
            7 => stranger,
            _ if es.is_empty() => stranger,
            j if j < 4 => es[es.len() - 1 - j % es.len()],
            j => es[j % es.len()],
        };
        let t = (x / 128 % 3) as usize;
        let before: Vec<Entity> = es.iter().copied().filter(|&e| w.entities().is_alive(e)).collect();
        let mut was = m.comps.clone();
        // of a component that is inserted only in W01's view, the model follows what is there
        s.saw((x % 16, t, before.contains(&e), m.comps[t].as_ref().map(|m| m.contains_key(&e.index()))));
        let mut deleting = false;
        match x % 16 {
            0 | 1 => es.push(w.create_entity()),
            2 => es.push(w.entities().create()),
            3 | 4 => {
                let r = w.delete_entity(e);
                deleting = true;
                if r.is_err() {
                    assert!(q != Q::W01 || all(&w) == was, "a failed delete_entity changes components");
                }
            }
            5 => {
                let _ = w.entities().delete(e);
                assert!(q != Q::W01 || all(&w) == was, "a deferred deletion changes components at once");
            }
            6 | 7 => {
                w.merge();
                deleting = true;
            }
            8 => match t {
                0 => register::<A>(&mut w, &mut m.comps[0], x / 512 % 4 != 0, q),
                1 => register::<B>(&mut w, &mut m.comps[1], x / 512 % 4 != 0, q),
                _ => register::<C>(&mut w, &mut m.comps[2], x / 512 % 4 != 0, q),
            },
            9 if m.comps[1].is_some() => tracked(&mut w, &mut m, e, x / 512, q == Q::W02),
            y => {
                // two thirds of the accesses insert, so that there is something to lose
                let o = if y < 12 { 1 + x / 512 / 8 * 8 } else { x / 512 };
                let c = &mut m.comps[t];
                if let Some(c) = c {
                    match t {
                        0 => access::<A>(&mut w, c, e, o, q),
                        1 => access::<B>(&mut w, c, e, o, q),
                        _ => access::<C>(&mut w, c, e, o, q),
                    }
                    if t == 1 {
                        m.marks = marks(&w);
                    }
                }
            }
        }
        if deleting {
            let gone: BTreeSet<u32> = before.iter().filter(|&&e| !w.entities().is_alive(e)).map(|e| e.index()).collect();
            for c in was.iter_mut().flatten() {
                c.retain(|i, _| !gone.contains(i));
            }
            if q == Q::W01 {
                assert!(all(&w) == was, "after the deletion of {gone:?} there is {:?}, expected {was:?}", all(&w));
            }
            m.comps = was;
            m.marks = marks(&w);
        }
        assert!(q != Q::W01 || (w.contains_resource::<u32>() && *w.read_resource::<u32>() == 7), "a resource is lost or changed");
        let r = all(&w);
        match q {
            Q::W01 => {
                if x % 16 == 8 {
                    assert!(r == m.comps, "there is {r:?}, expected {:?}", m.comps);
                }
            }
            Q::W02 => {
                if x % 16 > 8 {
                    assert!(r == m.comps, "there is {r:?}, expected {:?}", m.comps);
                    if x % 16 != 9 || x / 512 % 4 >= 2 {
                        assert!(marks(&w) == m.marks, "marked are {:?}, expected {:?}", marks(&w), m.marks);
                    }
                }
            }
        }
        // what this property is not about is taken as it is
        m.comps = r;
        m.marks = marks(&w);
    }
    m.out.clear();
    drop(w);
    items::check_none_left();
}

/// many entities at a time: components of the ones deleted go, the others stay
fn bulk(s: &mut Src) {
    let mut w = World::new();
    w.insert_component::<A>();
    w.insert_component::<B>();
    w.insert_component::<C>();
    let mut es: Vec<Entity> = vec![];
    let mut m = [Map::new(), Map::new(), Map::new()];
    while let Some(x) = s.next() {
        let r = x / 24;
        let n = if r % 50_000 == 42_000 { 70_000 } else { [3, 40, 70, 130, 600, 4200][(x / 4 % 6) as usize] };
        match x % 4 {
            0 | 1 if es.len() < 9000 => {
                let new: Vec<Entity> = (0..n).map(|_| if x % 4 == 0 { w.create_entity() } else { w.entities().create() }).collect();
                for (k, &e) in new.iter().enumerate() {
                    macro_rules! give {
                        ($t:ty, $j:expr) => {
                            if (k as u32 + r) % (2 + $j) != 0 {
                                let d = D::new(e.index());
                                m[$j].insert(e.index(), d.id);
                                assert!(w.get_component_mut::<$t>().insert(e, <$t>::make(d)).unwrap().is_none(), "a new entity has a component");
                            }
                        };
                    }
                    give!(A, 0);
                    give!(B, 1);
                    give!(C, 2);
                }
                es.extend(new);
            }
            2 | 3 => {
                let step = 1 + (r % 5) as usize;
                let mut k = r as usize / 5 % 7;
                let mut left = n;
                let mut gone = vec![];
                es.retain(|&e| {
                    k += 1;
                    if left > 0 && k % step == 0 {
                        left -= 1;
                        gone.push(e);
                        return false;
                    }
                    true
                });
                if r % 3 == 0 {
                    gone.reverse();
                }
                for &e in &gone {
                    if x % 4 == 2 { w.entities().delete(e).unwrap() } else { w.delete_entity(e).unwrap() }
                }
                w.merge();
                for e in &gone {
                    for m in &mut m {
                        m.remove(&e.index());
                    }
                    assert!(!w.entities().is_alive(*e), "a deleted entity is alive");
                }
            }
            _ => w.merge(),
        }
        s.saw((es.len(), m[0].len(), m[1].len(), m[2].len()));
        let now = all(&w);
        for (j, (n, m)) in now.iter().zip(&m).enumerate() {
            let n = n.as_ref().unwrap();
            let extra: Vec<_> = n.iter().filter(|x| m.get(x.0) != Some(x.1)).take(3).collect();
            let lost: Vec<_> = m.iter().filter(|x| n.get(x.0) != Some(x.1)).take(3).collect();
            assert!(extra.is_empty() && lost.is_empty(), "component {j} of {}: {extra:?} too much, {lost:?} missing", m.len());
        }
    }
    drop(w);
    items::check_none_left();
}

/// op codes: `op + 16 * entity + 128 * type + 512 * detail`
fn alphabet(q: Q) -> Vec<u32> {
    match q {
        Q::W01 => vec![0, 2, 3, 3 + 16 * 4, 5, 6, 10, 10 + 128, 10 + 256, 8 + 128 + 512],
        Q::W02 => vec![0, 3, 10, 10 + 16, 12 + 16, 12 + 512 * 2 + 16, 12 + 512 * 3 + 16, 12 + 512 * 4 + 16, 12 + 512 * 5 + 16],
    }
}
pub fn engines(v: &mut Vec<Engine>) {
    v.push(Engine::new("world-delete", &["W01"], |s| go(s, Q::W01)).exhaustive(alphabet(Q::W01), 5, 6).len(60));
    v.push(Engine::new("world-access", &["W02"], |s| go(s, Q::W02)).exhaustive(alphabet(Q::W02), 5, 6).len(60));
    v.push(Engine::new("world-bulk", &["W01"], bulk).len(8).fixed(vec![vec![42_000 * 24, 42_000 * 24 + 3], vec![42_000 * 24, 92_000 * 24 + 2]]));
}
