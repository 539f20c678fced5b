//! Reference identity: every pair and triple of references, thin and fat.

use {
    crate::lsx::*,
    core::{
        cmp::Ordering,
        hash::{
            Hash,
            Hasher,
        },
        ops::Deref,
    },
    graph_safe_compare::utils::RefId,
    std::{
        rc::Rc,
        sync::Arc,
    },
};

/// What is pointed to must not be asked.
pub struct P;

impl PartialEq for P
{
    fn eq(
        &self,
        _: &Self,
    ) -> bool
    {
        chk(15, 20, false);
        true
    }
}
impl Eq for P {}
impl PartialOrd for P
{
    fn partial_cmp(
        &self,
        _: &Self,
    ) -> Option<Ordering>
    {
        chk(15, 21, false);
        None
    }
}
impl Ord for P
{
    fn cmp(
        &self,
        _: &Self,
    ) -> Ordering
    {
        chk(15, 22, false);
        Ordering::Equal
    }
}
impl Hash for P
{
    fn hash<H: Hasher>(
        &self,
        _: &mut H,
    )
    {
        chk(15, 23, false);
    }
}

pub trait Tr
{
    fn m(&self) -> u8;
}
pub struct A;
pub struct B;
impl Tr for A
{
    fn m(&self) -> u8
    {
        1
    }
}
impl Tr for B
{
    fn m(&self) -> u8
    {
        2
    }
}

/// A smart pointer of the user, whose own comparisons must not be asked either.
pub struct Smart<'a>(&'a P);

impl Deref for Smart<'_>
{
    type Target = P;

    fn deref(&self) -> &P
    {
        self.0
    }
}
impl PartialEq for Smart<'_>
{
    fn eq(
        &self,
        _: &Self,
    ) -> bool
    {
        chk(15, 24, false);
        true
    }
}
impl PartialOrd for Smart<'_>
{
    fn partial_cmp(
        &self,
        _: &Self,
    ) -> Option<Ordering>
    {
        chk(15, 25, false);
        None
    }
}

/// Remembers everything that is written.
pub struct Words
{
    n: usize,
    w: [u64; 24],
}

impl Words
{
    fn put(
        &mut self,
        kind: u64,
        x: u64,
    )
    {
        if self.n + 2 <= 24 {
            self.w[self.n] = kind;
            self.w[self.n + 1] = x;
        }
        self.n += 2;
    }
}

impl Hasher for Words
{
    fn finish(&self) -> u64
    {
        0
    }
    fn write(
        &mut self,
        b: &[u8],
    )
    {
        self.put(1, b.len() as u64);
        for x in b {
            self.put(2, u64::from(*x));
        }
    }
    fn write_usize(
        &mut self,
        x: usize,
    )
    {
        self.put(3, x as u64);
    }
    fn write_u64(
        &mut self,
        x: u64,
    )
    {
        self.put(4, x);
    }
}

fn words<T: Hash>(x: &T) -> Words
{
    let mut w = Words { n: 0, w: [0; 24] };
    x.hash(&mut w);
    w
}

/// Without splitting.
fn same_words(
    a: &Words,
    b: &Words,
) -> bool
{
    let mut d = a.n as u64 ^ b.n as u64;
    let mut i = 0;
    while i < 24 {
        d |= a.w[i] ^ b.w[i];
        i += 1;
    }
    d == 0
}

/// What a reference is made of.
#[derive(Clone, Copy)]
struct Raw
{
    addr: u64,
    meta: u64,
}

fn laws<T: Deref>(
    x: [RefId<T>; 3],
    r: [Raw; 3],
)
where
    RefId<T>: Ord + Hash,
{
    // one order for all: its values for the pairs 01, 12, 02
    let mut o = [0u64; 9];
    for i in 0 .. 3 {
        for j in 0 .. 3 {
            let (p, q) = (&x[i], &x[j]);
            let eq = (r[i].addr == r[j].addr) & (r[i].meta == r[j].meta);
            chk(15, 1, (p == q) == eq);
            chk(15, 2, (p != q) != eq);
            let c = p.cmp(q);
            chk(15, 3, (c == Ordering::Equal) == eq);
            chk(15, 4, p.partial_cmp(q) == Some(c));
            chk(15, 5, (p < q) == (c == Ordering::Less));
            chk(15, 6, (p > q) == (c == Ordering::Greater));
            chk(15, 7, (p <= q) == (c != Ordering::Greater));
            chk(15, 8, (p >= q) == (c != Ordering::Less));
            chk(15, 9, q.cmp(p) == c.reverse());
            if eq {
                chk(15, 10, same_words(&words(p), &words(q)));
                if i != j {
                    cover(1);
                }
            }
            else if c == Ordering::Less {
                cover(2);
            }
            else {
                cover(3);
            }
            if r[i].addr == r[j].addr && r[i].meta != r[j].meta {
                cover(4);
            }
            o[3 * i + j] = match c {
                Ordering::Less => 0,
                Ordering::Equal => 1,
                Ordering::Greater => 2,
            };
        }
    }
    // transitive
    for i in 0 .. 3 {
        for j in 0 .. 3 {
            for k in 0 .. 3 {
                if o[3 * i + j] == 0 && o[3 * j + k] <= 1 {
                    chk(15, 11, o[3 * i + k] == 0);
                }
                if o[3 * i + j] == 1 && o[3 * j + k] == 1 {
                    chk(15, 12, o[3 * i + k] == 1);
                }
            }
        }
    }
    let mut t = 0u64;
    for v in o {
        t = t * 3 + v;
    }
    emit(1, t);
}

fn addr(i: u64) -> u64
{
    let a = var(key(1, i, 0), 64);
    assume(a != 0);
    a
}

/// Three references of a kind.
#[cfg(feature = "refid")]
#[no_mangle]
pub extern "C" fn refid(
    mask: u64,
    kind: u64,
)
{
    unsafe { MASK = mask };
    let raw = |i: u64| Raw { addr: addr(i), meta: 0 };
    match kind {
        // thin
        0 => {
            let r = [raw(0), raw(1), raw(2)];
            let f = |i: usize| RefId(unsafe { &*(r[i].addr as *const P) });
            laws([f(0), f(1), f(2)], r);
        },
        // slices
        1 => {
            let mut r = [raw(0), raw(1), raw(2)];
            for (i, r) in r.iter_mut().enumerate() {
                r.meta = var(key(2, i as u64, 0), 63);
            }
            let f = |i: usize| {
                let s: &[P] = unsafe { core::slice::from_raw_parts(r[i].addr as *const P, r[i].meta as usize) };
                RefId(s)
            };
            laws([f(0), f(1), f(2)], r);
        },
        // trait objects
        2 => {
            let mut r = [raw(0), raw(1), raw(2)];
            for (i, r) in r.iter_mut().enumerate() {
                r.meta = choose(key(2, i as u64, 0), 2);
            }
            let f = |i: usize| {
                let s: &dyn Tr = if r[i].meta == 0 {
                    unsafe { &*(r[i].addr as *const A) }
                }
                else {
                    unsafe { &*(r[i].addr as *const B) }
                };
                RefId(s)
            };
            laws([f(0), f(1), f(2)], r);
        },
        // a smart pointer of the user
        3 => {
            let r = [raw(0), raw(1), raw(2)];
            let f = |i: usize| RefId(Smart(unsafe { &*(r[i].addr as *const P) }));
            laws([f(0), f(1), f(2)], r);
        },
        // boxes, counted references: which allocation is symbolic
        4 => {
            let b = [Box::new((1u8, P)), Box::new((1, P)), Box::new((1, P))];
            let c = [choose(key(3, 0, 0), 3), choose(key(3, 1, 0), 3), choose(key(3, 2, 0), 3)];
            let f = |i: usize| RefId(&b[c[i] as usize].1);
            let r = |i: usize| Raw { addr: f(i).0 as *const P as u64, meta: 0 };
            laws([f(0), f(1), f(2)], [r(0), r(1), r(2)]);
        },
        5 => {
            let b = [Rc::new((1u8, P)), Rc::new((1, P)), Rc::new((1, P))];
            let c = [choose(key(3, 0, 0), 3), choose(key(3, 1, 0), 3), choose(key(3, 2, 0), 3)];
            let f = |i: usize| RefId(Rc::clone(&b[c[i] as usize]));
            laws([f(0), f(1), f(2)], [0, 1, 2].map(|i: usize| Raw { addr: c[i], meta: 0 }));
        },
        6 => {
            let b = [Arc::new((1u8, P)), Arc::new((1, P)), Arc::new((1, P))];
            let c = [choose(key(3, 0, 0), 3), choose(key(3, 1, 0), 3), choose(key(3, 2, 0), 3)];
            let f = |i: usize| RefId(Arc::clone(&b[c[i] as usize]));
            laws([f(0), f(1), f(2)], [0, 1, 2].map(|i: usize| Raw { addr: c[i], meta: 0 }));
        },
        // sub-slices and strings of one allocation
        7 => {
            let s: Box<[u8]> = Box::new([7u8; 4]);
            let c = [0, 1, 2].map(|i| (choose(key(3, i, 0), 4), choose(key(3, i, 1), 4)));
            for x in c {
                assume(x.0 <= x.1);
            }
            let f = |i: usize| RefId(&s[c[i].0 as usize .. c[i].1 as usize]);
            laws([f(0), f(1), f(2)], [0, 1, 2].map(|i: usize| Raw { addr: c[i].0, meta: c[i].1 }));
        },
        _ => {
            let s = String::from("aaaa");
            let c = [0, 1, 2].map(|i| (choose(key(3, i, 0), 4), choose(key(3, i, 1), 4)));
            for x in c {
                assume(x.0 <= x.1);
            }
            let f = |i: usize| RefId(&s[c[i].0 as usize .. c[i].1 as usize]);
            laws([f(0), f(1), f(2)], [0, 1, 2].map(|i: usize| Raw { addr: c[i].0, meta: c[i].1 }));
        },
    }
}
