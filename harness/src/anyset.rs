//! A01: dynamic component sets against maps from type to value.
use crate::items::{self, D};
use crate::rt::{catch, Engine, Src};
use crate::world::{real, Comp, A, B, C};
use goggles::*;
use std::collections::BTreeMap;

type M = [Option<u32>; 3];

fn get<T: Comp>(s: &mut AnyComponentSet, want: Option<u32>)
where
    T::Storage: Send + Sync,
    T: Clone,
{
    let r = s.get::<T>().map(|c| {
        c.d().check();
        c.d().val
    });
    assert!(r == want, "get gives {r:?}, expected {want:?}");
    let r = s.get_mut::<T>().map(|c| c.d_mut().val);
    assert!(r == want, "get_mut gives {r:?}, expected {want:?}");
    assert!(s.contains::<T>() == want.is_some(), "contains is {}", s.contains::<T>());
}
fn cget<T: Comp>(s: &mut AnyCloneComponentSet, want: Option<u32>)
where
    T::Storage: Send + Sync,
    T: Clone,
{
    let r = s.get::<T>().map(|c| {
        c.d().check();
        c.d().val
    });
    assert!(r == want, "get of the clone set gives {r:?}, expected {want:?}");
    let r = s.get_mut::<T>().map(|c| c.d_mut().val);
    assert!(r == want, "get_mut of the clone set gives {r:?}, expected {want:?}");
    assert!(s.contains::<T>() == want.is_some(), "contains of the clone set is {}", s.contains::<T>());
}
macro_rules! each {
    ($t:expr, $f:ident, $($a:expr),*) => {
        match $t {
            0 => $f::<A>($($a),*),
            1 => $f::<B>($($a),*),
            _ => $f::<C>($($a),*),
        }
    };
}
fn ins<T: Comp>(s: &mut AnyComponentSet, m: &mut Option<u32>, v: u32)
where
    T::Storage: Send,
{
    let r = s.insert(T::make(D::new(v))).map(|c| c.d().val);
    assert!(r == *m, "insert returns {r:?}, expected {m:?}");
    *m = Some(v);
}
fn cins<T: Comp + Clone>(s: &mut AnyCloneComponentSet, m: &mut Option<u32>, v: u32)
where
    T::Storage: Send,
{
    let r = s.insert(T::make(D::new(v))).map(|c| c.d().val);
    assert!(r == *m, "insert into the clone set returns {r:?}, expected {m:?}");
    *m = Some(v);
}
fn rem<T: Comp>(s: &mut AnyComponentSet, m: &mut Option<u32>)
where
    T::Storage: Send,
{
    let r = s.remove::<T>().map(|c| c.d().val);
    assert!(r == *m, "remove returns {r:?}, expected {m:?}");
    *m = None;
}
fn set<T: Comp>(s: &mut AnyComponentSet, m: &mut Option<u32>, v: u32)
where
    T::Storage: Send,
{
    if let Some(c) = s.get_mut::<T>() {
        c.d_mut().val = v;
        *m = Some(v);
    }
}
fn cset<T: Comp + Clone>(s: &mut AnyCloneComponentSet, m: &mut Option<u32>, v: u32)
where
    T::Storage: Send,
{
    if let Some(c) = s.get_mut::<T>() {
        c.d_mut().val = v;
        *m = Some(v);
    }
}
/// the values of all components of an entity of the world, by index
fn values(w: &World) -> [BTreeMap<u32, u32>; 3] {
    fn of<T: Comp>(w: &World) -> BTreeMap<u32, u32>
    where
        T::Storage: Send + Sync,
    {
        let m = real::<T>(w).unwrap_or_default();
        m.keys().map(|&i| (i, w.read_component::<T>().storage().get(i).unwrap().d().val)).collect()
    }
    [of::<A>(w), of::<B>(w), of::<C>(w)]
}

fn go(src: &mut Src) {
    let mut w = World::new();
    // which components are registered
    let reg = match src.below(6) {
        0 => src.below(8),
        _ => 7,
    };
    if reg & 1 != 0 {
        w.insert_component::<A>();
    }
    if reg & 2 != 0 {
        w.insert_component::<B>();
    }
    if reg & 4 != 0 {
        w.insert_component::<C>();
    }
    let dead = w.create_entity();
    let e1 = w.create_entity();
    w.delete_entity(dead).unwrap();
    let e0 = w.create_entity();
    let e2 = w.entities().create();
    let es = [e0, e1, e2, dead];
    let mut sets = vec![(AnyComponentSet::new(), [None; 3]), (AnyComponentSet::default(), [None; 3])];
    let mut clones = vec![(AnyCloneComponentSet::new(), [None; 3]), (AnyCloneComponentSet::default(), [None; 3])];
    let mut n = 100;
    while let Some(x) = src.next() {
        n += 1;
        let t = (x / 16 % 3) as usize;
        let k = (x / 48 % 2) as usize;
        let e = es[(x / 96 % 4) as usize];
        let alive = w.entities().is_alive(e);
        let over = |a: &M, b: &M| (0..3).any(|t| a[t].is_some() && b[t].is_some());
        let union = |a: &M, b: &M| -> M { std::array::from_fn(|t| b[t].or(a[t])) };
        src.saw((x % 16, t, k, sets[k].1.map(|v| v.is_some()), clones[k].1.map(|v| v.is_some())));
        match x % 16 {
            0 | 1 | 2 => {
                let (s, m) = &mut sets[k];
                each!(t, ins, s, &mut m[t], n)
            }
            3 | 4 | 5 => {
                let (s, m) = &mut clones[k];
                each!(t, cins, s, &mut m[t], n)
            }
            6 => {
                let (s, m) = &mut sets[k];
                each!(t, rem, s, &mut m[t])
            }
            7 => {
                let (s, m) = &mut sets[k];
                each!(t, set, s, &mut m[t], n)
            }
            8 => {
                let (s, m) = &mut clones[k];
                each!(t, cset, s, &mut m[t], n)
            }
            9 => {
                let (o, om) = std::mem::replace(&mut sets[1 - k], (AnyComponentSet::new(), [None; 3]));
                let (s, m) = &mut sets[k];
                let r = s.merge(o);
                assert!(r == over(m, &om), "merge of {om:?} into {m:?} returns {r}");
                *m = union(m, &om);
            }
            10 => {
                let (o, om) = std::mem::replace(&mut clones[1 - k], (AnyCloneComponentSet::new(), [None; 3]));
                let (s, m) = &mut clones[k];
                let r = s.merge(o);
                assert!(r == over(m, &om), "merge of the clone set {om:?} into {m:?} returns {r}");
                *m = union(m, &om);
            }
            11 => {
                let (o, om) = &clones[k];
                let (s, m) = &mut sets[t % 2];
                let r = o.clone_into_set(s);
                assert!(r == over(m, om), "clone_into_set of {om:?} into {m:?} returns {r}");
                *m = union(m, om);
            }
            12 | 13 => {
                // a component type that is not registered: insert_into_world panics
                let plain = x % 16 == 12;
                let om: M = if plain { sets[k].1 } else { clones[k].1 };
                let before = values(&w);
                let i = e.index();
                let missing = (0..3).any(|t| om[t].is_some() && reg & (1 << t) == 0);
                let r = if plain {
                    let (s, _) = std::mem::replace(&mut sets[k], (AnyComponentSet::new(), [None; 3]));
                    if missing { catch(|| s.insert_into_world(&mut w, e)) } else { Some(s.insert_into_world(&mut w, e)) }
                } else {
                    let (s, _) = &clones[k];
                    if missing { catch(|| s.insert_into_world(&mut w, e)) } else { Some(s.insert_into_world(&mut w, e)) }
                };
                if missing {
                    assert!(!matches!(r, Some(Ok(_))), "insert_into_world succeeds without a registered component");
                    continue;
                }
                let r = r.unwrap();
                let empty = om.iter().all(|v| v.is_none());
                assert!(r.is_ok() == (alive || empty), "insert_into_world for {e:?}: is_ok is {}, is_alive is {alive}", r.is_ok());
                let mut want = before.clone();
                if let Ok(r) = r {
                    let o = (0..3).any(|t| om[t].is_some() && before[t].contains_key(&i));
                    assert!(r == o, "insert_into_world of {om:?} for an entity with {before:?} returns {r}");
                    for t in 0..3 {
                        if let Some(v) = om[t] {
                            want[t].insert(i, v);
                        }
                    }
                }
                let now = values(&w);
                assert!(now == want, "after insert_into_world of {om:?} for {e:?} there is {now:?}, expected {want:?}");
            }
            14 => {
                let _ = match t {
                    0 if reg & 1 != 0 => w.get_component_mut::<A>().remove(e).map(|_| ()),
                    1 if reg & 2 != 0 => w.get_component_mut::<B>().remove(e).map(|_| ()),
                    2 if reg & 4 != 0 => w.get_component_mut::<C>().remove(e).map(|_| ()),
                    _ => Ok(()),
                };
            }
            _ => {
                sets[k] = Default::default();
            }
        }
        for (s, m) in &mut sets {
            get::<A>(s, m[0]);
            get::<B>(s, m[1]);
            get::<C>(s, m[2]);
            assert!(s.len() == m.iter().flatten().count(), "len is {}, the model has {m:?}", s.len());
        }
        for (s, m) in &mut clones {
            cget::<A>(s, m[0]);
            cget::<B>(s, m[1]);
            cget::<C>(s, m[2]);
        }
    }
    drop((w, sets, clones));
    items::check_none_left();
}
pub fn engines(v: &mut Vec<Engine>) {
    // op + 16 * type + 48 * set + 96 * entity
    let a = vec![0, 16, 32 + 48, 48, 3, 3 + 16, 9, 10, 11, 12, 13, 12 + 96 * 3, 6];
    v.push(Engine::new("any-components", &["A01"], go).exhaustive(a, 4, 5));
}
