//! E01, E02, E03: the allocator and World against a set of live entities.
use crate::rt::{Engine, Src};
use goggles::{entity::Allocator, Entity, IntoJoinExt, World, WrongGeneration};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use goggles::hibitset::BitSetLike;

trait Al {
    fn make() -> Self;
    fn alloc(&mut self) -> Entity;
    fn alloc_atomic(&mut self) -> Entity;
    fn kill(&mut self, e: Entity) -> Result<(), WrongGeneration>;
    fn kill_atomic(&mut self, e: Entity) -> Result<(), WrongGeneration>;
    fn merge(&mut self) -> Option<Vec<Entity>>;
    fn is_alive(&self, e: Entity) -> bool;
    fn entity(&self, i: u32) -> Option<Entity>;
    fn bits(&self, i: u32) -> bool;
    fn bits_all(&self) -> Vec<u32>;
    fn joined(&self) -> Vec<Entity>;
    fn count(&self) -> u32;
}
struct Plain(Allocator, Vec<Entity>);
impl Al for Plain {
    fn make() -> Self {
        let mut o = Allocator::new();
        let e = o.allocate();
        Plain(Allocator::new(), vec![e, e])
    }
    fn alloc(&mut self) -> Entity { self.0.allocate() }
    fn alloc_atomic(&mut self) -> Entity { self.0.allocate_atomic() }
    fn kill(&mut self, e: Entity) -> Result<(), WrongGeneration> { self.0.kill(e) }
    fn kill_atomic(&mut self, e: Entity) -> Result<(), WrongGeneration> { self.0.kill_atomic(e) }
    fn merge(&mut self) -> Option<Vec<Entity>> {
        // what is left in the Vec from before must go
        self.0.merge_atomic(&mut self.1);
        Some(self.1.clone())
    }
    fn is_alive(&self, e: Entity) -> bool { self.0.is_alive(e) }
    fn entity(&self, i: u32) -> Option<Entity> { self.0.entity(i) }
    fn bits(&self, i: u32) -> bool { self.0.live_bitset().contains(i) }
    fn bits_all(&self) -> Vec<u32> { self.0.live_bitset().iter().collect() }
    fn joined(&self) -> Vec<Entity> { (&self.0).join_unconstrained().collect() }
    fn count(&self) -> u32 { self.0.max_entity_count() }
}
impl Al for World {
    fn make() -> Self { World::new() }
    fn alloc(&mut self) -> Entity { self.create_entity() }
    fn alloc_atomic(&mut self) -> Entity { self.entities().create() }
    fn kill(&mut self, e: Entity) -> Result<(), WrongGeneration> { self.delete_entity(e) }
    fn kill_atomic(&mut self, e: Entity) -> Result<(), WrongGeneration> { self.entities().delete(e) }
    fn merge(&mut self) -> Option<Vec<Entity>> {
        World::merge(self);
        None
    }
    fn is_alive(&self, e: Entity) -> bool { self.entities().is_alive(e) }
    fn entity(&self, i: u32) -> Option<Entity> { self.entities().entity(i) }
    fn bits(&self, i: u32) -> bool { self.entities().live_bitset().contains(i) }
    fn bits_all(&self) -> Vec<u32> { self.entities().live_bitset().iter().collect() }
    fn joined(&self) -> Vec<Entity> { (&self.entities()).join_unconstrained().collect() }
    fn count(&self) -> u32 { self.entities().max_entity_count() }
}

#[derive(Clone, Copy, PartialEq)]
enum P { E01, E02, E03 }

/// entities another allocator handed out
fn foreign() -> Vec<Entity> {
    let mut o = Allocator::new();
    let mut v = vec![];
    for _ in 0..3 {
        let a = o.allocate();
        let b = o.allocate();
        v.extend([a, b]);
        o.kill(a).unwrap();
        o.kill(b).unwrap();
    }
    v
}

fn go<A: Al>(s: &mut Src, p: P) {
    let mut a = A::make();
    let other = foreign();
    let mut all: Vec<Entity> = vec![];
    let mut set: HashSet<Entity> = HashSet::new();
    let mut top: BTreeMap<u32, u32> = BTreeMap::new();
    let mut live: BTreeMap<u32, Entity> = BTreeMap::new();
    let mut killed: HashSet<Entity> = HashSet::new();
    let mut pending: BTreeSet<Entity> = BTreeSet::new();
    while let Some(x) = s.next() {
        let k = x % 8;
        let arg = (x / 8) as usize;
        let pick = |arg: usize| -> Option<Entity> {
            let n = all.len() + other.len();
            let i = arg % n;
            if i < all.len() { Some(all[all.len() - 1 - i]) } else { Some(other[i - all.len()]) }
        };
        match k {
            0 | 1 | 5 => {
                let n = top.len();
                let was_free: Vec<u32> = top.keys().copied().filter(|i| !live.contains_key(i)).collect();
                let e = if k == 0 { a.alloc() } else { a.alloc_atomic() };
                s.saw((k, e.index(), e.generation()));
                if p == P::E01 {
                    assert!(!set.contains(&e), "the entity {e:?} was handed out twice");
                    assert!(!live.contains_key(&e.index()), "index {} was handed out while an entity lives there", e.index());
                    assert!(e.generation() > *top.get(&e.index()).unwrap_or(&0), "generation of {e:?} is not above those before");
                    assert!((e.generation() as i32) > 0, "generation of {e:?} is not positive");
                }
                if p == P::E03 {
                    assert!(was_free.is_empty() || was_free.contains(&e.index()), "a fresh index {} was used although {was_free:?} are free", e.index());
                }
                all.push(e);
                set.insert(e);
                top.insert(e.index(), e.generation());
                live.insert(e.index(), e);
                if p == P::E02 {
                    assert!(top.len() == n || e.index() as usize <= n, "index {} is not below the number of indexes in use", e.index());
                }
            }
            2 | 6 => {
                let e = pick(arg).unwrap();
                let alive = live.get(&e.index()) == Some(&e);
                let r = a.kill(e).is_ok();
                s.saw((k, r));
                if p != P::E01 {
                    assert!(r == alive, "kill({e:?}) gives {r}, the entity is alive: {alive}");
                }
                if r {
                    killed.insert(e);
                }
                if r && alive {
                    live.remove(&e.index());
                    pending.remove(&e);
                }
            }
            3 | 7 => {
                let e = pick(arg).unwrap();
                let alive = live.get(&e.index()) == Some(&e);
                let r = a.kill_atomic(e).is_ok();
                s.saw((k, r));
                if p != P::E01 {
                    assert!(r == alive, "kill_atomic({e:?}) gives {r}, the entity is alive: {alive}");
                }
                if r && alive {
                    pending.insert(e);
                }
            }
            _ => {
                let v = a.merge();
                let want: BTreeSet<Entity> = pending.iter().copied().filter(|e| live.get(&e.index()) == Some(e)).collect();
                s.saw((k, want.len()));
                if let (P::E03, Some(v)) = (p, &v) {
                    let got: BTreeSet<Entity> = v.iter().copied().collect();
                    assert!(got.len() == v.len(), "merge_atomic reports an entity twice: {v:?}");
                    assert!(got == want, "merge_atomic reports {got:?} instead of {want:?}");
                }
                for e in want {
                    live.remove(&e.index());
                    killed.insert(e);
                }
                pending.clear();
            }
        }
        match p {
            P::E01 => {
                for e in &all {
                    assert!(!(killed.contains(e) && a.is_alive(*e)), "the entity {e:?} was killed and is alive again");
                }
            }
            P::E02 | P::E03 => {
                for e in all.iter().chain(&other) {
                    let w = live.get(&e.index()) == Some(e);
                    assert!(a.is_alive(*e) == w, "is_alive({e:?}) gives {}, after op {k}", !w);
                }
                if p == P::E03 {
                    continue;
                }
                for i in (0..top.len() as u32 + 3).chain([63, 64, 4095, 4096, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, u32::MAX / 2, u32::MAX - 1, u32::MAX]) {
                    assert!(a.entity(i) == live.get(&i).copied(), "entity({i}) gives {:?} instead of {:?}", a.entity(i), live.get(&i));
                    if i < 1 << 24 {
                        assert!(a.bits(i) == live.contains_key(&i), "live_bitset().contains({i}) gives {}", a.bits(i));
                    }
                }
                let l: Vec<Entity> = live.values().copied().collect();
                assert!(a.bits_all() == live.keys().copied().collect::<Vec<_>>(), "live_bitset is {:?} instead of {:?}", a.bits_all(), live.keys());
                assert!(a.joined() == l, "joining gives {:?} instead of {l:?}", a.joined());
                assert!(a.count() as usize == top.len(), "max_entity_count() gives {} instead of {}", a.count(), top.len());
            }
        }
    }
}

/// the same with many entities, checked after each of three rounds
fn many<A: Al>(s: &mut Src, p: P) {
    let n = [66, 130, 300, 4200][s.below(16) as usize % 4] + if s.below(16) == 15 { 70_000 } else { 0 } + s.below(4);
    let (how, pat) = (s.below(3), s.next().unwrap_or(0));
    let mut a = A::make();
    let mut all: Vec<Entity> = vec![];
    let mut live: BTreeMap<u32, Entity> = BTreeMap::new();
    let mut set: HashSet<Entity> = HashSet::new();
    let mut used = 0u32;
    for round in 0..3u32 {
        let mut free: BTreeSet<u32> = (0..used).filter(|i| !live.contains_key(i)).collect();
        let want = n - live.len() as u32 + round * 3;
        for k in 0..want {
            let e = if how == 0 || how == 2 && k % 2 == 0 { a.alloc() } else { a.alloc_atomic() };
            assert!(p != P::E01 || set.insert(e), "the entity {e:?} was handed out twice");
            assert!(p != P::E01 || live.get(&e.index()).is_none(), "index {} was handed out while an entity lives there", e.index());
            assert!(p != P::E03 || free.is_empty() || free.contains(&e.index()), "a fresh index {} was used although {} are free", e.index(), free.len());
            assert!(p != P::E02 || e.index() < used || e.index() == used, "index {} is not below the number of indexes in use", e.index());
            free.remove(&e.index());
            used = used.max(e.index() + 1);
            live.insert(e.index(), e);
            all.push(e);
        }
        // a part is deleted: at once, or at the merge
        let (step, mode) = (2 + pat >> (round * 4) & 15, pat >> (round * 2 + 16) & 3);
        let mut later: Vec<Entity> = vec![];
        for (k, e) in live.values().copied().collect::<Vec<_>>().into_iter().enumerate() {
            let keep = if mode < 2 { k as u32 % (step + 2) == 0 } else { (k as u32) < n / (step + 2) };
            if keep {
                continue;
            }
            if mode % 2 == 0 || k % 3 == 0 {
                a.kill_atomic(e).unwrap();
                later.push(e);
            } else {
                a.kill(e).unwrap();
                live.remove(&e.index());
            }
        }
        for e in later.iter().step_by(7) {
            assert!(p == P::E01 || a.is_alive(*e), "{e:?} is not alive before the merge");
        }
        if let (P::E03, Some(v)) = (p, a.merge()) {
            let got: BTreeSet<Entity> = v.iter().copied().collect();
            assert!(got.len() == v.len(), "merge_atomic reports an entity twice");
            assert!(got == later.iter().copied().collect(), "merge_atomic reports {} entities, {} were killed", got.len(), later.len());
        } else if p != P::E03 {
            a.merge();
        }
        for e in later {
            live.remove(&e.index());
        }
        s.saw((n, how, round, live.len()));
        for e in &all {
            let (is, w) = (a.is_alive(*e), live.get(&e.index()) == Some(e));
            assert!(if p == P::E01 { w || !is } else { is == w }, "is_alive({e:?}) gives {is}, among {n} entities");
        }
        if p == P::E02 {
            for i in 0..used {
                assert!(a.entity(i) == live.get(&i).copied(), "entity({i}) gives {:?} instead of {:?}", a.entity(i), live.get(&i));
            }
            assert!(a.joined() == live.values().copied().collect::<Vec<_>>(), "joining gives others than the {} live entities", live.len());
            assert!(a.bits_all() == live.keys().copied().collect::<Vec<_>>(), "live_bitset has others than the {} live indexes", live.len());
            assert!(a.count() == used, "max_entity_count() gives {} instead of {used}", a.count());
        }
    }
}

/// up to the last index that fits
fn limit(s: &mut Src) {
    let atomic = s.flag();
    let max = 1u32 << 24;
    let mut a = Allocator::new();
    for i in 0..max {
        let e = if atomic { a.allocate_atomic() } else { a.allocate() };
        assert!(e.index() == i);
    }
    assert!(a.max_entity_count() == max);
    let e = a.entity(max - 1).unwrap();
    assert!(crate::rt::panics(|| a.allocate_atomic()), "an index that does not fit was handed out");
    assert!(crate::rt::panics(|| a.allocate()), "an index that does not fit was handed out");
    assert!(a.is_alive(e) && a.max_entity_count() == max);
    a.kill(e).unwrap();
    assert!(a.allocate() != e);
    assert!(a.entity(max).is_none());
}

/// concurrent allocation and deletion
fn threads(s: &mut Src) {
    let pre = s.below(40);
    let pat = s.next().unwrap_or(0);
    let n = 2 + s.below(6) as usize;
    let each = 1 + s.below(120) as usize;
    let mut a = Allocator::new();
    let v: Vec<Entity> = (0..pre).map(|i| if pat >> (i % 16) & 1 == 1 { a.allocate_atomic() } else { a.allocate() }).collect();
    let mut before: HashSet<Entity> = v.iter().copied().collect();
    for (i, e) in v.iter().enumerate() {
        if pat >> (16 + i % 13) & 1 == 1 {
            a.kill(*e).unwrap();
        }
    }
    if pat >> 31 == 1 {
        a.merge_atomic(&mut vec![]);
    }
    let alive: Vec<Entity> = v.iter().copied().filter(|e| a.is_alive(*e)).collect();
    let barrier = std::sync::Barrier::new(n);
    let rounds: Vec<(Vec<Entity>, Vec<Entity>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (a, alive, barrier) = (&a, &alive, &barrier);
                sc.spawn(move || {
                    barrier.wait();
                    let (mut got, mut killed) = (vec![], vec![]);
                    for k in 0..each {
                        let e = a.allocate_atomic();
                        assert!(a.is_alive(e), "an entity allocated atomically is not alive");
                        got.push(e);
                        if k % 3 == t % 3 {
                            a.kill_atomic(e).unwrap();
                            killed.push(e);
                        }
                        if !alive.is_empty() && k % 5 == 0 {
                            let e = alive[(k + t) % alive.len()];
                            a.kill_atomic(e).unwrap();
                            killed.push(e);
                        }
                    }
                    (got, killed)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut want: BTreeSet<Entity> = BTreeSet::new();
    let mut idx: HashSet<u32> = alive.iter().map(|e| e.index()).collect();
    for (g, k) in &rounds {
        for e in g {
            assert!(before.insert(*e), "the entity {e:?} was handed out twice");
            assert!(idx.insert(e.index()), "two living entities share the index {}", e.index());
            assert!(a.is_alive(*e), "an entity allocated atomically is not alive");
        }
        want.extend(k);
    }
    let mut out = vec![];
    a.merge_atomic(&mut out);
    assert!(out.len() == want.len() && out.iter().copied().collect::<BTreeSet<_>>() == want, "merge_atomic reports {} entities instead of {}", out.len(), want.len());
    for (g, _) in &rounds {
        for e in g {
            assert!(a.is_alive(*e) != want.contains(e), "liveness of {e:?} is wrong after the merge");
        }
    }
    // and everything can go on
    for _ in 0..out.len() + 2 {
        let e = a.allocate();
        assert!(before.insert(e), "the entity {e:?} was handed out twice");
    }
}

pub fn engines(v: &mut Vec<Engine>) {
    // ops on the newest entities
    let ab: Vec<u32> = vec![0, 1, 2, 10, 18, 3, 11, 4];
    macro_rules! e {
        ($n:expr, $p:ident, $ps:expr, $t:ty) => {
            v.push(Engine::new($n, &[$ps], |s| go::<$t>(s, P::$p)).exhaustive(ab.clone(), 6, 8).len(60).fixed(vec![]))
        };
    }
    e!("alloc-unique", E01, "E01", Plain);
    e!("world-unique", E01, "E01", World);
    e!("alloc-queries", E02, "E02", Plain);
    e!("world-queries", E02, "E02", World);
    e!("alloc-kills", E03, "E03", Plain);
    e!("world-kills", E03, "E03", World);
    macro_rules! m {
        ($n:expr, $p:ident, $ps:expr, $t:ty) => {
            v.push(Engine::new($n, &[$ps], |s| many::<$t>(s, P::$p)).len(5).fixed((0..3).map(|h| vec![h, 15, h, h, 0x1d352 * (h + 1)]).collect()))
        };
    }
    m!("alloc-unique-many", E01, "E01", Plain);
    m!("alloc-queries-many", E02, "E02", Plain);
    m!("alloc-kills-many", E03, "E03", Plain);
    m!("world-queries-many", E02, "E02", World);
    v.push(Engine::new("alloc-limit", &["E01", "E02"], limit).len(1).exhaustive(vec![], 0, 0).deep_fixed(vec![vec![0], vec![1]]));
    v.push(Engine::new("alloc-threads", &["E04"], threads).len(5));
}
