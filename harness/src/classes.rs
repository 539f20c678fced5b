//! The table of equivalence classes, driven through the always-slow interleave mode:
//! every history of pairs, against the closure of the recorded pairs.

use {
    crate::{
        lsx::*,
        val::V,
        variants::{
            HashTable,
            SymRng,
        },
    },
    core::marker::PhantomData,
    graph_safe_compare::{
        basic::recursion::callstack::CallStack,
        cycle_safe::modes::interleave::{
            self,
            Interleave,
        },
        generic::{
            equiv::{
                self,
                DescendMode,
            },
            equiv_classes::{
                premade::rc::Rc as StdRc,
                Class,
                Rc,
                Table,
            },
        },
        Node,
    },
    std::{
        cell::Cell,
        convert::Infallible,
        ops::Deref,
    },
};

/// A node that only has an identity.
pub struct IdN(pub u64);

impl Node for IdN
{
    type Cmp = V;
    type Id = u64;
    type Index = u8;

    fn id(&self) -> u64
    {
        self.0
    }
    fn get_edge(
        &self,
        _: &u8,
    ) -> Option<Self>
    {
        chk(11, 9, false);
        None
    }
    fn equiv_modulo_edges(
        &self,
        _: &Self,
    ) -> V
    {
        chk(11, 10, false);
        V(0)
    }
}

/// A shared-ownership type of the user, always on the heap, never shared between threads.
pub struct MyRc(std::rc::Rc<Cell<Class<MyRc>>>);

impl Clone for MyRc
{
    fn clone(&self) -> Self
    {
        note_sp();
        MyRc(self.0.clone())
    }
}
impl Drop for MyRc
{
    fn drop(&mut self)
    {
        note_sp();
    }
}

/// The lowest stack pointer seen.
static mut SPMIN: u64 = u64::MAX;

fn note_sp()
{
    let s = sp();
    unsafe {
        if s < SPMIN {
            SPMIN = s;
        }
    }
}

impl Deref for MyRc
{
    type Target = Cell<Class<Self>>;

    fn deref(&self) -> &Self::Target
    {
        note_sp();
        &self.0
    }
}
impl Rc for MyRc
{
    fn new(v: Cell<Class<Self>>) -> Self
    {
        unsafe { CREATED += 1 };
        MyRc(std::rc::Rc::new(v))
    }
}
static mut CREATED: u64 = 0;

trait Logged: Rc + 'static
{
    fn log() -> &'static mut Vec<Self>;
}

static mut LOG_STD: Vec<StdRc> = Vec::new();
static mut LOG_MY: Vec<MyRc> = Vec::new();

#[allow(static_mut_refs)]
impl Logged for StdRc
{
    fn log() -> &'static mut Vec<Self>
    {
        unsafe { &mut LOG_STD }
    }
}
#[allow(static_mut_refs)]
impl Logged for MyRc
{
    fn log() -> &'static mut Vec<Self>
    {
        unsafe { &mut LOG_MY }
    }
}

/// Searches linearly, keeps every class that it is given in the log as well.
pub struct Lin<R>(Vec<(u64, R)>);

impl<R> Default for Lin<R>
{
    fn default() -> Self
    {
        Lin(Vec::with_capacity(32))
    }
}
impl<R: Logged> Table for Lin<R>
{
    type Node = IdN;
    type Rc = R;

    fn get(
        &self,
        k: &u64,
    ) -> Option<&R>
    {
        self.0.iter().find(|e| e.0 == *k).map(|e| &e.1)
    }
    fn insert(
        &mut self,
        k: u64,
        v: R,
    )
    {
        R::log().push(v.clone());
        match self.0.iter_mut().find(|e| e.0 == k) {
            Some(e) => e.1 = v,
            None => self.0.push((k, v)),
        }
    }
}

/// The premade hash table, with the log.
#[derive(Default)]
pub struct Hash(HashTable<IdN>);

impl Table for Hash
{
    type Node = IdN;
    type Rc = StdRc;

    fn get(
        &self,
        k: &u64,
    ) -> Option<&StdRc>
    {
        self.0.get(k)
    }
    fn insert(
        &mut self,
        k: u64,
        v: StdRc,
    )
    {
        StdRc::log().push(v.clone());
        self.0.insert(k, v);
    }
}

/// Slow always.
pub struct Slow<T>(PhantomData<T>);

impl<T: Table<Node = IdN>> interleave::Params for Slow<T>
{
    type Node = IdN;
    type RNG = SymRng;
    type Table = T;

    const FAST_LIMIT_MAX: u16 = 0;
    const SLOW_LIMIT: u16 = u16::MAX;
}

pub struct Eq<I>(PhantomData<I>);

impl<I: interleave::Params<Node = IdN>> equiv::Params for Eq<I>
where
    I::Table: Table<Node = IdN>,
{
    type DescendMode = Interleave<I>;
    type Error = Infallible;
    type Node = IdN;
    type RecurMode = CallStack;
}

/// The answer of the mode: whether to descend.
pub fn ask<I: interleave::Params<Node = IdN>>(
    m: &mut Interleave<I>,
    a: u64,
    b: u64,
) -> bool
where
    I::Table: Table<Node = IdN>,
{
    match <Interleave<I> as DescendMode<Eq<I>>>::do_edges(m, &IdN(a), &IdN(b)) {
        Ok(x) => x,
        Err(e) => match e {},
    }
}

const MAXN: usize = 2048;

/// The closure of the recorded pairs.
struct Closure
{
    n:     usize,
    id:    [u64; MAXN],
    label: [u32; MAXN],
}

static mut C: Closure = Closure { n: 0, id: [0; MAXN], label: [0; MAXN] };

impl Closure
{
    fn find(
        &self,
        id: u64,
    ) -> Option<usize>
    {
        (0 .. self.n).find(|&i| self.id[i] == id)
    }
    fn add(
        &mut self,
        id: u64,
    ) -> usize
    {
        self.id[self.n] = id;
        self.label[self.n] = self.n as u32;
        self.n += 1;
        self.n - 1
    }
    /// Whether known; records otherwise.
    fn known(
        &mut self,
        a: u64,
        b: u64,
    ) -> bool
    {
        let (i, j) = (self.find(a), self.find(b));
        if let (Some(i), Some(j)) = (i, j) {
            if self.label[i] == self.label[j] {
                return true;
            }
        }
        let i = match i {
            Some(i) => i,
            None => self.add(a),
        };
        let j = match self.find(b) {
            Some(j) => j,
            None => self.add(b),
        };
        let (x, y) = (self.label[i], self.label[j]);
        let mut k = 0;
        while k < self.n {
            if self.label[k] == y {
                self.label[k] = x;
            }
            k += 1;
        }
        false
    }
}

#[allow(static_mut_refs)]
fn closure() -> &'static mut Closure
{
    unsafe { &mut C }
}

fn next<R: Rc>(r: &R) -> Option<R>
{
    let c = r.replace(Class::default());
    let n = match &c {
        Class::Link { next, .. } => Some(next.clone()),
        _ => None,
    };
    r.set(c);
    n
}

/// Distinct classes seen by the table.
fn created<R: Logged>() -> usize
{
    let l = R::log();
    (0 .. l.len()).filter(|&i| (0 .. i).all(|j| !core::ptr::eq(&*l[i], &*l[j]))).count()
}

/// The longest chain of links; `None` if a chain is longer than there are classes.
fn longest<R: Logged>(classes: usize) -> Option<u32>
{
    let mut most = 0;
    let mut i = 0;
    while i < R::log().len() {
        let mut r = R::log()[i].clone();
        let mut n = 0;
        while let Some(x) = next(&r) {
            n += 1;
            if n > classes {
                return None;
            }
            r = x;
        }
        if n as u32 > most {
            most = n as u32;
        }
        i += 1;
    }
    Some(most)
}

fn shape<R: Logged>(classes: usize)
{
    match longest::<R>(classes) {
        None => chk(12, 1, false),
        Some(d) => {
            // d <= log2(classes)
            chk(12, 2, 1usize << d <= classes.max(1));
            if d >= 1 {
                cover(5);
            }
            if d >= 2 {
                cover(6);
            }
        },
    }
}

fn start<R: Logged>(calls: usize) -> u64
{
    closure().n = 0;
    *R::log() = Vec::new();
    unsafe { CREATED = 0 };
    R::log().reserve_exact(2 * calls + 8);
    heap()
}

fn end<I: interleave::Params<Node = IdN>, R: Logged>(
    m: Interleave<I>,
    h0: u64,
)
where
    I::Table: Table<Node = IdN>,
{
    R::log().clear();
    drop(m);
    chk(12, 4, heap() == h0);
}

fn history<T: Table<Node = IdN, Rc = R>, R: Logged>(
    calls: u64,
    pre: u64,
    mode: u64,
)
{
    let h0 = start::<R>((calls + pre) as usize);
    let mut m = Interleave::<Slow<T>>::default();
    let mut trace = 0u64;
    for i in 0 .. pre {
        let d = ask(&mut m, 1000 + 2 * i, 1001 + 2 * i);
        chk(11, 1, d != closure().known(1000 + 2 * i, 1001 + 2 * i));
    }
    let mut top = 0u64;
    for c in 0 .. calls {
        let mut ids = [0u64; 2];
        for s in 0 .. 2 {
            ids[s] = match mode {
                // any identities
                0 => var(key(1, c, s as u64), 8),
                // one node of any class that was created before, up to renaming
                1 => {
                    let x = range(key(1, c, s as u64), pre);
                    assume(x <= top);
                    top = ite(x == top && top < pre, top + 1, top);
                    1000 + 2 * x
                },
                // concrete identities, up to renaming
                _ => {
                    let x = choose(key(1, c, s as u64), top + 1);
                    if x == top {
                        top += 1;
                    }
                    x
                },
            };
        }
        let d = ask(&mut m, ids[0], ids[1]);
        let k = closure().known(ids[0], ids[1]);
        chk(11, 1, d != k);
        if k {
            cover(1);
        }
        else {
            cover(2);
        }
        if on(12) {
            let n = created::<R>();
            if core::any::TypeId::of::<R>() == core::any::TypeId::of::<MyRc>() {
                chk(12, 3, n as u64 == unsafe { CREATED });
            }
            shape::<R>(n);
        }
        trace = trace * 2 + u64::from(d);
    }
    // afterwards every pair of recorded nodes is answered the same from both sides
    if on(11) {
        let n = closure().n.min(12);
        for i in 0 .. n {
            for j in 0 .. i {
                if closure().label[i] == closure().label[j] {
                    let (a, b) = (closure().id[i], closure().id[j]);
                    chk(11, 2, !ask(&mut m, a, b));
                    chk(11, 3, !ask(&mut m, b, a));
                    cover(3);
                }
            }
        }
    }
    end::<_, R>(m, h0);
    emit(1, trace);
    emit(2, closure().n as u64);
}

/// Every history of that many pairs (after `pre` pairs of fresh nodes).
#[cfg(feature = "classes")]
#[no_mangle]
pub extern "C" fn classes(
    mask: u64,
    table: u64,
    calls: u64,
    pre: u64,
    mode: u64,
)
{
    unsafe { MASK = mask };
    match table {
        0 => history::<Lin<StdRc>, StdRc>(calls, pre, mode),
        1 => history::<Lin<MyRc>, MyRc>(calls, pre, mode),
        _ => history::<Hash, StdRc>(calls, pre, mode),
    }
}

/// Indexed by the identity, for long histories.
pub struct Arr<R>(Vec<Option<R>>);

impl<R> Default for Arr<R>
{
    fn default() -> Self
    {
        Arr((0 .. unsafe { ARR }).map(|_| None).collect())
    }
}
/// How many nodes an `Arr` is for.
static mut ARR: usize = 0;
/// Whether the table releases what was given last first.
static mut BACKWARDS: bool = false;

impl<R> Drop for Arr<R>
{
    fn drop(&mut self)
    {
        if unsafe { BACKWARDS } {
            while let Some(x) = self.0.pop() {
                drop(x);
            }
        }
    }
}
impl<R: Logged> Table for Arr<R>
{
    type Node = IdN;
    type Rc = R;

    fn get(
        &self,
        k: &u64,
    ) -> Option<&R>
    {
        self.0[*k as usize].as_ref()
    }
    fn insert(
        &mut self,
        k: u64,
        v: R,
    )
    {
        R::log().push(v.clone());
        self.0[k as usize] = Some(v);
    }
}

/// Asks for a pair that is not known; now and then for one that is, since the slow phase ends after 65535 unknown pairs.
#[cfg(feature = "classes_long")]
fn fresh<T: Table<Node = IdN>>(
    m: &mut Interleave<Slow<T>>,
    a: u64,
    b: u64,
) -> bool
{
    static mut N: u32 = 0;
    unsafe {
        N += 1;
        let n = N;
        ask(m, a, b) && (n % 8192 != 0 || !ask(m, b, a))
    }
}

/// Long histories: chains, stars, binary merging and arbitrary final merges of heavy classes.
///
/// `groups` classes are first built from `size[i]` pairs each, in one of the ways of joining;
/// then `merges` merges of arbitrary nodes of arbitrary groups.
#[cfg(feature = "classes_long")]
#[no_mangle]
pub extern "C" fn classes_long(
    mask: u64,
    size: u64,
    groups: u64,
    merges: u64,
)
{
    type R = MyRc;
    unsafe { MASK = mask };
    unsafe { ARR = (size * if groups > 1 { 4 } else { 2 }) as usize };
    let h0 = start::<R>(size as usize * 2);
    let mut m = Interleave::<Slow<Arr<R>>>::default();
    let mut id = 0u64;
    let mut rep = [[0u64; 3]; 8];
    let mut ok = true;
    for g in 0 .. groups {
        let first = id;
        let n = size >> g;
        // pairs of fresh nodes
        for _ in 0 .. n {
            ok &= fresh(&mut m, id, id + 1);
            id += 2;
        }
        // the middle one of each group is remembered as well as the ends
        rep[g as usize] = [first, first + n / 2 * 2 + 1, id - 1];
        match choose(key(1, g, 0), 5) {
            // each to the first one
            0 => {
                for i in 1 .. n {
                    ok &= fresh(&mut m, first, first + 2 * i);
                }
            },
            1 => {
                for i in 1 .. n {
                    ok &= fresh(&mut m, first + 2 * i + 1, first + 1);
                }
            },
            // each to the one before it
            2 => {
                for i in 1 .. n {
                    ok &= fresh(&mut m, first + 2 * i, first + 2 * i - 1);
                }
            },
            3 => {
                for i in 1 .. n {
                    ok &= fresh(&mut m, first + 2 * i - 2, first + 2 * i);
                }
            },
            // pairwise, then pairs of pairs
            _ => {
                let mut st = 1;
                while st < n {
                    let mut i = 0;
                    while i + st < n {
                        ok &= fresh(&mut m, first + 2 * i, first + 2 * (i + st));
                        i += 2 * st;
                    }
                    st *= 2;
                }
            },
        }
    }
    chk(11, 4, ok);
    let mut lab = [0u64, 1, 2, 3, 4, 5, 6, 7];
    for k in 0 .. merges {
        let (x, y) = (choose(key(2, k, 0), groups), choose(key(2, k, 1), groups));
        let (u, v) = (choose(key(3, k, 0), 3), choose(key(3, k, 1), 3));
        let d = ask(&mut m, rep[x as usize][u as usize], rep[y as usize][v as usize]);
        let (lx, ly) = (lab[x as usize], lab[y as usize]);
        chk(11, 5, d == (lx != ly));
        cover(if d { 1 } else { 2 });
        for l in lab.iter_mut() {
            if *l == ly {
                *l = lx;
            }
        }
    }
    if on(12) {
        shape::<R>(unsafe { CREATED } as usize);
    }
    unsafe { BACKWARDS = choose(key(4, 0, 0), 2) == 1 };
    let sp0 = sp();
    end::<_, R>(m, h0);
    chk(17, 2, sp0 - unsafe { SPMIN } <= crate::tree::STACK_CAP);
    emit(1, u64::from(ok));
}
