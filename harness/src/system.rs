//! Y01, Y02, Y03: compositions of systems against a walk of the tree they were made from.
use crate::rt::{Engine, Src};
use goggles::{
    par, parallelize, seq,
    system::{ParList, Seq, SeqList},
    Par, Pool, RayonPool, ResourceConflict, RwResources, SeqPool, System, SystemError,
};
use std::{
    collections::BTreeSet,
    sync::{
        atomic::{AtomicU32, Ordering::SeqCst},
        Arc, Mutex,
    },
};

/// (leaf, began or ended, args, pool)
type Log = Arc<Mutex<Vec<(u32, bool, u32, u32)>>>;
#[derive(Debug, PartialEq, Clone)]
struct Errs(Vec<(u32, u32)>);
impl SystemError for Errs {
    fn combine(mut self, other: Errs) -> Errs {
        self.0.extend(other.0);
        self
    }
}
trait Pl: Pool + Sync {
    fn id(&self) -> u32;
}
/// is asked to run the functions in either order
struct AnyPool(u32, AtomicU32);
impl Pool for AnyPool {
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        let n = self.1.load(SeqCst);
        self.1.store(n.rotate_right(1), SeqCst);
        if n & 1 == 1 {
            let rb = b();
            let ra = a();
            (ra, rb)
        } else {
            let ra = a();
            let rb = b();
            (ra, rb)
        }
    }
}
impl Pl for AnyPool {
    fn id(&self) -> u32 {
        self.0
    }
}
impl Pl for SeqPool {
    fn id(&self) -> u32 {
        0
    }
}
impl Pl for RayonPool {
    fn id(&self) -> u32 {
        0
    }
}

type R = RwResources<u32>;
type M = (BTreeSet<u32>, BTreeSet<u32>);
#[derive(Clone, Debug)]
struct Leaf {
    id: u32,
    reads: Vec<u32>,
    writes: Vec<u32>,
    bad_check: bool,
    bad_run: bool,
}
impl Leaf {
    fn new(s: &mut Src, id: u32) -> Leaf {
        let x = s.below(u32::MAX);
        let some = |x: u32| (0..4).filter(|k| x >> (2 * k) & 3 == 3).collect::<Vec<_>>();
        Leaf { id, reads: some(x >> 8), writes: some(x), bad_check: x >> 16 & 31 == 31, bad_run: x >> 21 & 7 == 7 }
    }
    fn res(&self) -> Option<M> {
        (!self.bad_check).then(|| {
            let w: BTreeSet<u32> = self.writes.iter().copied().collect();
            (self.reads.iter().copied().filter(|r| !w.contains(r)).collect(), w)
        })
    }
}
struct Sys<P> {
    leaf: Leaf,
    log: Log,
    state: u32,
    p: std::marker::PhantomData<fn(P)>,
}
impl<P: Pl> System<u32> for Sys<P> {
    type Resources = R;
    type Pool = P;
    type Error = Errs;
    fn check_resources(&self) -> Result<R, ResourceConflict> {
        if self.leaf.bad_check {
            Err(ResourceConflict { type_name: "leaf" })
        } else {
            Ok(R::from_iters(self.leaf.reads.clone(), self.leaf.writes.clone()))
        }
    }
    fn run(&mut self, pool: &P, args: u32) -> Result<(), Errs> {
        self.log.lock().unwrap().push((self.leaf.id, true, args, pool.id()));
        self.state += 1;
        self.log.lock().unwrap().push((self.leaf.id, false, args, pool.id()));
        if self.leaf.bad_run {
            Err(Errs(vec![(self.leaf.id, self.state)]))
        } else {
            Ok(())
        }
    }
}

enum Node {
    Leaf(Leaf),
    Par(Vec<Node>),
    Seq(Vec<Node>),
}
fn join_res(a: &mut M, b: &M) {
    a.1.extend(&b.1);
    a.0.extend(&b.0);
    a.0 = a.0.difference(&a.1).copied().collect();
}
fn conflict(a: &M, b: &M) -> bool {
    let uses = |m: &M, x: &u32| m.0.contains(x) || m.1.contains(x);
    a.1.iter().any(|x| uses(b, x)) || b.1.iter().any(|x| uses(a, x))
}
impl Node {
    fn res(&self) -> Option<M> {
        match self {
            Node::Leaf(l) => l.res(),
            Node::Par(v) | Node::Seq(v) => {
                let mut m = M::default();
                for n in v {
                    let r = n.res()?;
                    if matches!(self, Node::Par(_)) && conflict(&m, &r) {
                        return None;
                    }
                    join_res(&mut m, &r);
                }
                Some(m)
            }
        }
    }
    /// the leaves run, in order, and the errors
    fn run(&self, states: &mut Vec<u32>, order: &mut Vec<u32>) -> Vec<(u32, u32)> {
        match self {
            Node::Leaf(l) => {
                order.push(l.id);
                states[l.id as usize] += 1;
                if l.bad_run {
                    vec![(l.id, states[l.id as usize])]
                } else {
                    vec![]
                }
            }
            Node::Par(v) => v.iter().flat_map(|n| n.run(states, order)).collect(),
            Node::Seq(v) => {
                for n in v {
                    let e = n.run(states, order);
                    if !e.is_empty() {
                        return e;
                    }
                }
                vec![]
            }
        }
    }
    fn leaves(&self, out: &mut Vec<u32>) {
        match self {
            Node::Leaf(l) => out.push(l.id),
            Node::Par(v) | Node::Seq(v) => v.iter().for_each(|n| n.leaves(out)),
        }
    }
    /// members of a Seq do not overlap
    fn ordered(&self, at: &dyn Fn(u32, bool) -> Option<usize>) {
        match self {
            Node::Leaf(_) => {}
            Node::Par(v) => v.iter().for_each(|n| n.ordered(at)),
            Node::Seq(v) => {
                let mut last = None;
                for n in v {
                    n.ordered(at);
                    let mut l = vec![];
                    n.leaves(&mut l);
                    for &x in &l {
                        if let (Some(b), Some(e)) = (at(x, true), last) {
                            assert!(e < b, "system {x} ran before an earlier member of its Seq had ended");
                        }
                    }
                    last = last.max(l.iter().filter_map(|&x| at(x, false)).max());
                }
            }
        }
    }
    fn show(&self) -> String {
        let all = |v: &Vec<Node>| v.iter().map(|n| n.show()).collect::<Vec<_>>().join(", ");
        match self {
            Node::Leaf(l) => format!("{}{}{}", l.id, if l.bad_check { "c" } else { "" }, if l.bad_run { "e" } else { "" }),
            Node::Par(v) => format!("par({})", all(v)),
            Node::Seq(v) => format!("seq({})", all(v)),
        }
    }
}

type B<P> = Box<dyn System<u32, Resources = R, Pool = P, Error = Errs> + Send>;
fn tree<P: Pl + 'static>(s: &mut Src, log: &Log, n: &mut u32, depth: u32) -> (B<P>, Node) {
    let x = s.below(64);
    if depth == 0 || x < 16 {
        let leaf = Leaf::new(s, *n);
        *n += 1;
        return (Box::new(Sys { leaf: leaf.clone(), log: log.clone(), state: 0, p: std::marker::PhantomData }), Node::Leaf(leaf));
    }
    let k = match x % 16 {
        0..4 => x % 4 * 2,
        _ => 2 + x % 4,
    };
    let (mut v, mut m) = (vec![], vec![]);
    let list = x % 16 < 4 || x >= 40;
    let k = if list { k } else { k.max(2) };
    for _ in 0..k {
        let (a, b) = tree(s, log, n, depth - 1);
        v.push(a);
        m.push(b);
    }
    let par = x / 4 % 2 == 0;
    let sys: B<P> = if list {
        // a box in a box in a list
        if par {
            Box::new(Box::new(ParList(v)))
        } else {
            Box::new(SeqList(v))
        }
    } else {
        let mut v: Vec<Option<B<P>>> = v.into_iter().map(Some).collect();
        let mut t = |i: usize| v[i].take().unwrap();
        match (k, par, x / 32 % 2 == 0) {
            (2, true, false) => Box::new(Par::new(t(0), t(1))),
            (2, true, true) => Box::new(par!(t(0), t(1))),
            (3, true, false) => Box::new(Par::new(t(0), t(1)).with(t(2))),
            (3, true, true) => Box::new(par!(t(0), t(1), t(2),)),
            (4, true, _) => Box::new(par!(t(0), t(1), t(2), t(3))),
            (5, true, _) => Box::new(par!(t(0), t(1), t(2), t(3), t(4))),
            (2, false, false) => Box::new(Seq::new(t(0), t(1))),
            (2, false, true) => Box::new(seq!(t(0), t(1),)),
            (3, false, false) => Box::new(Seq::new(t(0), t(1)).with(t(2))),
            (3, false, true) => Box::new(seq!(t(0), t(1), t(2))),
            (4, false, _) => Box::new(seq!(t(0), t(1), t(2), t(3))),
            (5, false, _) => Box::new(seq!(t(0), t(1), t(2), t(3), t(4))),
            _ => unreachable!(),
        }
    };
    (sys, if par { Node::Par(m) } else { Node::Seq(m) })
}

fn same_res(real: Result<R, ResourceConflict>, model: Option<M>, what: &str) {
    match (real, model) {
        (Err(_), None) => {}
        (Ok(_), None) => panic!("check_resources of {what} finds no conflict"),
        (Err(_), Some(_)) => panic!("check_resources of {what} reports a conflict that is none"),
        (Ok(r), Some(m)) => {
            let reads: BTreeSet<u32> = r.reads().copied().collect();
            let writes: BTreeSet<u32> = r.writes().copied().collect();
            assert!((&reads, &writes) == (&m.0, &m.1), "check_resources of {what} is {reads:?} {writes:?} instead of {m:?}");
        }
    }
}

fn go<P: Pl + 'static>(s: &mut Src, pool: P, exact: bool) {
    let log = Log::default();
    let mut n = 0;
    let depth = 1 + s.below(3);
    let (mut sys, node) = tree::<P>(s, &log, &mut n, depth);
    checked(s, pool, exact, &log, n, &mut sys, &node)
}
fn checked<P: Pl + 'static>(s: &mut Src, pool: P, exact: bool, log: &Log, n: u32, sys: &mut B<P>, node: &Node) {
    let what = node.show();
    s.saw(&what);
    same_res(sys.check_resources(), node.res(), &what);
    let mut states = vec![0; n as usize];
    for args in [7, 8] {
        log.lock().unwrap().clear();
        let got = sys.run(&pool, args);
        let mut order = vec![];
        let errs = node.run(&mut states, &mut order);
        let want = if errs.is_empty() { Ok(()) } else { Err(Errs(errs)) };
        assert!(got == want, "running {what} gives {got:?} instead of {want:?}");
        let log = log.lock().unwrap();
        assert!(log.iter().all(|l| l.2 == args && l.3 == pool.id()), "running {what} passes on other args or another pool");
        let began: Vec<u32> = log.iter().filter(|l| l.1).map(|l| l.0).collect();
        let (mut a, mut b) = (began.clone(), order.clone());
        a.sort();
        b.sort();
        assert!(a == b, "running {what} runs {a:?} instead of {b:?}");
        if exact {
            assert!(began == order, "running {what} in a SeqPool runs {began:?} instead of {order:?}");
        }
        node.ordered(&|id, begin| log.iter().position(|l| l.0 == id && l.1 == begin));
    }
    same_res(sys.check_resources(), node.res(), &what);
}

fn pools(s: &mut Src) {
    let (x, y) = (s.below(1000), s.below(1000));
    let log = Mutex::new(vec![]);
    let (a, b) = SeqPool.join(
        || {
            log.lock().unwrap().push(1);
            x
        },
        || {
            log.lock().unwrap().push(2);
            format!("{y}")
        },
    );
    assert!(a == x && b == format!("{y}"), "SeqPool::join returns other results");
    assert!(*log.lock().unwrap() == [1, 2], "SeqPool::join does not call both in order");
    let log = Mutex::new(vec![]);
    let (a, b) = RayonPool.join(
        || {
            log.lock().unwrap().push(1);
            x
        },
        || {
            log.lock().unwrap().push(2);
            y
        },
    );
    assert!(a == x && b == y, "RayonPool::join returns other results");
    let mut l = log.into_inner().unwrap();
    l.sort();
    assert!(l == [1, 2], "RayonPool::join does not call each once");
}

fn plan(s: &mut Src) {
    let log = Log::default();
    let mut leaves = vec![];
    while let Some(x) = s.next() {
        let mut l = Leaf::new(&mut *s, leaves.len() as u32);
        // more of few resources
        let some = |x: u32| (0..3).filter(|k| x >> (3 * k) & 7 == 7).collect::<Vec<_>>();
        l.writes = some(x);
        l.reads = some(x >> 9);
        l.bad_check = x >> 18 & 7 == 7;
        leaves.push(l);
    }
    groups(s, &log, leaves)
}
fn plan_small(s: &mut Src) {
    let log = Log::default();
    let mut leaves = vec![];
    while let Some(x) = s.next() {
        let x = x % 8;
        leaves.push(Leaf {
            id: leaves.len() as u32,
            reads: if x & 1 == 1 { vec![x / 2 % 2] } else { vec![] },
            writes: if x & 1 == 0 && x < 6 { vec![x / 2 % 2] } else { vec![] },
            bad_check: x == 7,
            bad_run: false,
        });
    }
    groups(s, &log, leaves)
}
/// many systems that rarely conflict
fn plan_many(s: &mut Src) {
    let log = Log::default();
    let n = s.below(220);
    let mut x = s.below(u32::MAX) | 1;
    let leaves = (0..n).map(|id| {
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        let k = x >> 8;
        Leaf {
            id,
            reads: if k % 5 == 0 { vec![k / 8 % 3] } else { vec![1000] },
            writes: if k % 97 == 1 { vec![k / 128 % 3] } else if k % 3 == 0 { vec![2000 + id] } else { vec![] },
            bad_check: k % 131 == 2,
            bad_run: k % 61 == 3,
        }
    });
    groups(s, &log, leaves.collect())
}
/// long lists
fn long<P: Pl + 'static>(s: &mut Src, pool: P, exact: bool) {
    let log = Log::default();
    let n = s.below(150);
    let (par, mut x) = (s.flag(), s.below(u32::MAX) | 1);
    let fails = s.below(40) + 2;
    let leaves: Vec<Leaf> = (0..n).map(|id| {
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        // the first errors of a sequence come late
        Leaf { id, reads: vec![1000], writes: if x >> 9 & 1 == 0 { vec![id] } else { vec![] }, bad_check: false, bad_run: (x >> 12) % fails == 0 && (par || id > n / 3) }
    }).collect();
    let systems = leaves.iter().map(|l| Sys::<P> { leaf: l.clone(), log: log.clone(), state: 0, p: std::marker::PhantomData }).collect();
    let nodes: Vec<Node> = leaves.iter().cloned().map(Node::Leaf).collect();
    let (mut sys, node): (B<P>, Node) = if par { (Box::new(ParList(systems)), Node::Par(nodes)) } else { (Box::new(SeqList(systems)), Node::Seq(nodes)) };
    checked(s, pool, exact, &log, n, &mut sys, &node)
}
fn groups(s: &mut Src, log: &Log, leaves: Vec<Leaf>) {
    let systems = leaves.iter().map(|l| Sys::<SeqPool> { leaf: l.clone(), log: log.clone(), state: 0, p: std::marker::PhantomData });
    let mut real = if leaves.len() % 2 == 0 { parallelize(systems) } else { parallelize(systems.collect::<Vec<_>>()) };
    let mut want: Vec<Vec<u32>> = vec![];
    let mut m: Option<M> = None;
    for l in &leaves {
        match (l.res(), &mut m) {
            (Some(r), Some(m)) if !conflict(&r, m) => {
                join_res(m, &r);
                want.last_mut().unwrap().push(l.id);
            }
            (r, m) => {
                *m = r;
                want.push(vec![l.id]);
            }
        }
    }
    let got: Vec<Vec<u32>> = real.0.iter().map(|p| p.0.iter().map(|s| s.leaf.id).collect()).collect();
    assert!(got == want, "parallelize gives {got:?} instead of {want:?} for {leaves:?}");
    s.saw(&got);
    let node = Node::Seq(want.iter().map(|g| Node::Par(g.iter().map(|&i| Node::Leaf(leaves[i as usize].clone())).collect())).collect());
    same_res(System::<u32>::check_resources(&real), node.res(), "parallelize");
    let got = real.run(&SeqPool, 3);
    let mut order = vec![];
    let errs = node.run(&mut vec![0; leaves.len()], &mut order);
    let began: Vec<u32> = log.lock().unwrap().iter().filter(|l| l.1).map(|l| l.0).collect();
    assert!(began == order && got == if errs.is_empty() { Ok(()) } else { Err(Errs(errs)) }, "the parallelized systems run {began:?} with {got:?} instead of {order:?}");
}

pub fn engines(v: &mut Vec<Engine>) {
    v.push(Engine::new("pools", &["Y02"], pools).len(2).fixed(vec![vec![1, 2]]));
    v.push(Engine::new("systems-seq", &["Y01", "Y02"], |s| go(s, SeqPool, true)).len(60));
    v.push(Engine::new("systems-any", &["Y01", "Y02"], |s| {
        let x = s.below(u32::MAX);
        go(s, AnyPool(x, AtomicU32::new(x)), false)
    }).len(60));
    v.push(Engine::new("systems-rayon", &["Y02"], |s| go(s, RayonPool, false)).len(60));
    v.push(Engine::new("systems-long-seq", &["Y01", "Y02"], |s| long(s, SeqPool, true)).len(5));
    v.push(Engine::new("systems-long-any", &["Y01", "Y02"], |s| {
        let x = s.below(u32::MAX);
        long(s, AnyPool(x, AtomicU32::new(x)), false)
    }).len(6));
    v.push(Engine::new("systems-long-rayon", &["Y02"], |s| long(s, RayonPool, false)).len(5));
    v.push(Engine::new("parallelize-many", &["Y03"], plan_many).len(3));
    v.push(Engine::new("parallelize-small", &["Y03"], plan_small).exhaustive((0..8).collect(), 5, 7).len(12));
    v.push(Engine::new("parallelize", &["Y03"], plan).len(40));
}
