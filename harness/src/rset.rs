//! F02: ResourceSet, World's resources and MakeSync against a map from type to value.
use crate::items::{self, D};
use crate::rt::{catch, Engine, Src};
use goggles::hibitset::BitSetLike;
use goggles::*;
use std::cell::Cell;
use std::ops::{Deref, DerefMut};

struct V<const N: usize>(D);
impl<const N: usize> Component for V<N> {
    type Storage = VecStorage<V<N>>;
}
/// not Sync
struct NS(Cell<u32>, D);

trait Val: Send + 'static {
    fn make(x: u32) -> Self;
    fn get(&self) -> u32;
    fn set(&mut self, x: u32);
}
impl<const N: usize> Val for V<N> {
    fn make(x: u32) -> Self {
        V(D::new(x))
    }
    fn get(&self) -> u32 {
        self.0.check();
        self.0.val
    }
    fn set(&mut self, x: u32) {
        self.0.check();
        self.0.val = x;
    }
}
impl Val for NS {
    fn make(x: u32) -> Self {
        NS(Cell::new(x), D::new(0))
    }
    fn get(&self) -> u32 {
        self.1.check();
        self.0.get()
    }
    fn set(&mut self, x: u32) {
        self.0.set(x)
    }
}
trait Store {
    fn ins<T: Send + 'static>(&mut self, t: T) -> Option<T>;
    fn rem<T: Send + 'static>(&mut self) -> Option<T>;
    fn has<T: Send + 'static>(&self) -> bool;
    fn read<T: Send + Sync + 'static>(&self) -> Box<dyn Deref<Target = T> + '_>;
    fn write<T: Send + 'static>(&self) -> Box<dyn DerefMut<Target = T> + '_>;
    fn get_mut<T: Send + 'static>(&mut self) -> &mut T;
    /// insert (true) or remove a component of the same type, if there is such a thing
    fn comp<const N: usize>(&mut self, _: bool, _: &mut [bool; 3]) {}
}
impl Store for ResourceSet {
    fn ins<T: Send + 'static>(&mut self, t: T) -> Option<T> {
        self.insert(t)
    }
    fn rem<T: Send + 'static>(&mut self) -> Option<T> {
        self.remove()
    }
    fn has<T: Send + 'static>(&self) -> bool {
        self.contains::<T>()
    }
    fn read<T: Send + Sync + 'static>(&self) -> Box<dyn Deref<Target = T> + '_> {
        Box::new(self.borrow::<T>())
    }
    fn write<T: Send + 'static>(&self) -> Box<dyn DerefMut<Target = T> + '_> {
        Box::new(self.borrow_mut::<T>())
    }
    fn get_mut<T: Send + 'static>(&mut self) -> &mut T {
        self.get_mut()
    }
}
/// the same through fetch
struct Fetching(ResourceSet);
impl Store for Fetching {
    fn ins<T: Send + 'static>(&mut self, t: T) -> Option<T> {
        self.0.insert(t)
    }
    fn rem<T: Send + 'static>(&mut self) -> Option<T> {
        self.0.remove()
    }
    fn has<T: Send + 'static>(&self) -> bool {
        self.0.contains::<T>()
    }
    fn read<T: Send + Sync + 'static>(&self) -> Box<dyn Deref<Target = T> + '_> {
        Box::new(self.0.fetch::<Read<T>>())
    }
    fn write<T: Send + 'static>(&self) -> Box<dyn DerefMut<Target = T> + '_> {
        Box::new(self.0.fetch::<Write<T>>())
    }
    fn get_mut<T: Send + 'static>(&mut self) -> &mut T {
        self.0.get_mut()
    }
}
impl Store for World {
    fn ins<T: Send + 'static>(&mut self, t: T) -> Option<T> {
        self.insert_resource(t)
    }
    fn rem<T: Send + 'static>(&mut self) -> Option<T> {
        self.remove_resource()
    }
    fn has<T: Send + 'static>(&self) -> bool {
        self.contains_resource::<T>()
    }
    fn read<T: Send + Sync + 'static>(&self) -> Box<dyn Deref<Target = T> + '_> {
        Box::new(self.read_resource::<T>())
    }
    fn write<T: Send + 'static>(&self) -> Box<dyn DerefMut<Target = T> + '_> {
        Box::new(self.write_resource::<T>())
    }
    fn get_mut<T: Send + 'static>(&mut self) -> &mut T {
        self.get_resource_mut()
    }
    fn comp<const N: usize>(&mut self, insert: bool, m: &mut [bool; 3]) {
        if insert {
            let r = self.insert_component::<V<N>>();
            assert!(r.is_some() == m[N], "insert_component returns the wrong storage");
            assert!(self.get_component_mut::<V<N>>().mask().is_empty());
        } else {
            let r = self.remove_component::<V<N>>();
            assert!(r.is_some() == m[N], "remove_component returns the wrong storage");
        }
        m[N] = insert;
        // a resource of the storage's own type is another thing
        type S<const N: usize> = MaskedStorage<VecStorage<V<N>>>;
        assert!(!self.contains_resource::<S<N>>() && self.remove_resource::<S<N>>().is_none(), "a component storage is a resource");
        assert!(self.insert_resource(S::<N>::default()).is_none() && self.remove_resource::<S<N>>().is_some());
        let real = [self.contains_component::<V<0>>(), self.contains_component::<V<1>>(), self.contains_component::<V<2>>()];
        assert!(real == *m, "the components are {real:?} instead of {m:?}");
    }
}

fn old<T: Val>(r: Option<T>, m: &mut Option<u32>, new: Option<u32>, what: &str) {
    let r = r.map(|v| v.get());
    assert!(r == *m, "{what} returns {r:?} instead of {m:?}");
    *m = new;
}
fn view<T: Val>(w: &mut impl Store, m: Option<u32>) {
    assert!(w.has::<T>() == m.is_some(), "contains is {} after all, the model has {m:?}", w.has::<T>());
    let r = catch(|| w.write::<T>().get());
    assert!(r == m, "borrow_mut sees {r:?} instead of {m:?}");
    let r = catch(|| w.get_mut::<T>().get());
    assert!(r == m, "get_mut sees {r:?} instead of {m:?}");
}
trait Anything {}
impl<T: ?Sized> Anything for T {}

macro_rules! on {
    ($i:expr, $t:ident => $e:expr) => {
        match $i {
            0 => { type $t = V<0>; $e }
            1 => { type $t = V<1>; $e }
            2 => { type $t = V<2>; $e }
            _ => { type $t = NS; $e }
        }
    };
}
fn go(s: &mut Src, w: &mut impl Store) {
    let mut m: [Option<u32>; 4] = [None; 4];
    let mut comps = [false; 3];
    while let Some(x) = s.next() {
        let i = (x / 16 % 4) as usize;
        let v = x / 64 % 1000;
        s.saw((x % 16, m[i].is_some()));
        match x % 16 {
            0..=3 => on!(i, T => old(w.ins(T::make(v)), &mut m[i], Some(v), "insert")),
            4 | 5 => on!(i, T => old(w.rem::<T>(), &mut m[i], None, "remove")),
            6 | 7 => {
                let r = on!(i, T => catch(|| w.write::<T>().set(v)).is_some());
                assert!(r == m[i].is_some(), "borrow_mut panics or not: {r}");
                if r {
                    m[i] = Some(v)
                }
            }
            8 | 9 => {
                let r = on!(i, T => catch(|| w.get_mut::<T>().set(v)).is_some());
                assert!(r == m[i].is_some(), "get_mut panics or not: {r}");
                if r {
                    m[i] = Some(v)
                }
            }
            10 => match i {
                0 => w.comp::<0>(v % 2 == 0, &mut comps),
                1 => w.comp::<1>(v % 2 == 0, &mut comps),
                2 => w.comp::<2>(v % 2 == 0, &mut comps),
                _ => {}
            },
            _ => {
                // outstanding borrows: type, 1 shared, 2 exclusive
                let mut held: Vec<(usize, bool, Box<dyn Anything + '_>)> = vec![];
                let n = 2 + v % 5;
                for k in 0..n {
                    let y = s.below(1 << 16);
                    let t = if y % 8 < 5 { i } else { (y / 16 % 4) as usize };
                    if k > 0 && y / 64 % 5 == 0 && !held.is_empty() {
                        let at = (y / 512) as usize % held.len();
                        held.remove(at);
                        continue;
                    }
                    let read = y / 512 % 2 == 0 && t < 3;
                    let ok = m[t].is_some() && if read { !held.iter().any(|h| h.0 == t && h.1) } else { !held.iter().any(|h| h.0 == t) };
                    let w = &*w;
                    let want = m[t];
                    let new = y % 1000;
                    let g: Option<Box<dyn Anything + '_>> = if read {
                        fn rd<'a, T: Val + Sync>(w: &'a impl Store, want: Option<u32>) -> Option<Box<dyn Anything + 'a>> {
                            let g = catch(|| w.read::<T>())?;
                            let seen = g.get();
                            assert!(Some(seen) == want, "borrow sees {seen} instead of {want:?}");
                            Some(Box::new(g))
                        }
                        match t {
                            0 => rd::<V<0>>(w, want),
                            1 => rd::<V<1>>(w, want),
                            _ => rd::<V<2>>(w, want),
                        }
                    } else {
                        on!(t, T => catch(|| w.write::<T>()).map(|mut g| {
                            let seen = g.get();
                            assert!(Some(seen) == want, "borrow_mut sees {seen} instead of {want:?}");
                            g.set(new);
                            Box::new(g) as Box<dyn Anything + '_>
                        }))
                    };
                    assert!(g.is_some() == ok, "a {} borrow of a resource {} while it is {}: {}", if read { "shared" } else { "mutable" },
                        if m[t].is_some() { "that is there" } else { "that is not there" }, if held.iter().any(|h| h.0 == t) { "borrowed" } else { "free" }, if g.is_some() { "granted" } else { "panics" });
                    if let Some(g) = g {
                        held.push((t, !read, g));
                        if !read {
                            m[t] = Some(new);
                        }
                    }
                    let has = [w.has::<V<0>>(), w.has::<V<1>>(), w.has::<V<2>>(), w.has::<NS>()];
                    assert!(has == m.map(|m| m.is_some()), "while something is borrowed, contains is {has:?}, the model has {m:?}");
                }
            }
        }
        view::<V<0>>(w, m[0]);
        view::<V<1>>(w, m[1]);
        view::<V<2>>(w, m[2]);
        view::<NS>(w, m[3]);
        assert!(items::live() == m.iter().flatten().count(), "{} values exist, the model has {:?}", items::live(), m);
    }
}
fn set(s: &mut Src) {
    let mut w = ResourceSet::new();
    go(s, &mut w);
    drop(w);
    items::check_none_left();
}
fn fetching(s: &mut Src) {
    let mut w = Fetching(ResourceSet::default());
    go(s, &mut w);
    drop(w);
    items::check_none_left();
}
fn world(s: &mut Src) {
    let mut w = if s.flag() { World::new() } else { World::default() };
    go(s, &mut w);
    drop(w);
    items::check_none_left();
}
fn sync(s: &mut Src) {
    let mut want = s.below(1000);
    let mut m = MakeSync::new(D::new(want));
    while let Some(x) = s.next() {
        assert!(m.get().val == want, "MakeSync::get gives another value");
        m.get().check();
        assert!(m.get_mut().val == want, "MakeSync::get_mut gives another value");
        want = x;
        m.get_mut().val = x;
    }
    let d = m.into_inner();
    d.check();
    assert!(d.val == want, "MakeSync::into_inner gives another value");
    drop(d);
    items::check_none_left();
}
pub fn engines(v: &mut Vec<Engine>) {
    let alpha = vec![0, 16, 4, 6 + 64 * 7, 8 + 64 * 9, 6 + 16, 48, 52];
    v.push(Engine::new("resource-set", &["F02"], set).exhaustive(alpha.clone(), 4, 5));
    v.push(Engine::new("resource-set-fetch", &["F02"], fetching));
    v.push(Engine::new("resource-world", &["F02"], world));
    v.push(Engine::new("make-sync", &["F02"], sync).len(6));
}
