//! Edge indexes: the increment of every supported type, and nodes whose edges use every value.

use {
    crate::{
        lsx::*,
        val::*,
        variants,
    },
    graph_safe_compare::{
        Node,
        Step,
    },
};

/// `increment` on an arbitrary value of the type.
#[cfg(feature = "index_step")]
#[no_mangle]
pub extern "C" fn index_step(
    mask: u64,
    ty: u64,
)
{
    unsafe { MASK = mask };
    let lo = var(key(30, 0, 0), 64);
    let hi = var(key(30, 1, 0), 64);
    macro_rules! go {
        ($t:ty) => {{
            let wide = u128::from(hi) << 64 | u128::from(lo);
            let x = wide as $t;
            match x.increment() {
                None => {
                    chk(10, 1, x == <$t>::MAX);
                    cover(1);
                    emit(1, 0);
                },
                Some(y) => {
                    chk(10, 2, x != <$t>::MAX);
                    chk(10, 3, y == x.wrapping_add(1));
                    cover(2);
                    emit(1, y as u64);
                },
            }
        }};
    }
    match ty {
        0 => go!(u8),
        1 => go!(i8),
        2 => go!(u16),
        3 => go!(i16),
        4 => go!(u32),
        5 => go!(i32),
        6 => go!(u64),
        7 => go!(i64),
        8 => go!(u128),
        9 => go!(i128),
        10 => go!(usize),
        _ => go!(isize),
    }
}

/// An index type and the number of the edge that a value of it stands for.
pub trait Idx: Step + Default + Ord
{
    fn num(&self) -> u64;
}

macro_rules! idx {
    ($($t:ty)*) => {
        $(
            impl Idx for $t
            {
                fn num(&self) -> u64
                {
                    *self as u64
                }
            }
        )*
    };
}
idx!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);

/// An index that ends where it likes, with a peculiar default and step.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct Odd(u64);

pub static mut ODD_END: u64 = 0;

impl Default for Odd
{
    fn default() -> Self
    {
        Odd(1000)
    }
}

impl Step for Odd
{
    fn increment(&self) -> Option<Self>
    {
        if self.num() + 1 < unsafe { ODD_END } {
            Some(Odd(self.0 + 7))
        }
        else {
            None
        }
    }
}

impl Idx for Odd
{
    fn num(&self) -> u64
    {
        (self.0 - 1000) / 7
    }
}

struct Star
{
    deg:   [u64; 2],
    diff:  u64,
    /// edge last asked for and how often, of either root
    last:  [u64; 2],
    times: [u64; 2],
    miss:  u64,
    /// leaves compared
    neq:   u64,
    live:  u64,
    /// the side of the node given first
    first: u8,
}

static mut S: Star =
    Star { deg: [0; 2], diff: 0, last: [NONE; 2], times: [0; 2], miss: NONE, neq: 0, live: 0, first: 0 };

const NONE: u64 = u64::MAX;
const LEAF_DIFF: u8 = LAB_LESS as u8;

#[allow(static_mut_refs)]
fn s() -> &'static mut Star
{
    unsafe { &mut S }
}

struct SN<I>
{
    side: u8,
    leaf: u64,
    _i:   core::marker::PhantomData<I>,
}

fn sn<I>(
    side: u8,
    leaf: u64,
) -> SN<I>
{
    s().live += 1;
    SN { side, leaf, _i: core::marker::PhantomData }
}

impl<I> Clone for SN<I>
{
    fn clone(&self) -> Self
    {
        sn(self.side, self.leaf)
    }
}

impl<I> Drop for SN<I>
{
    fn drop(&mut self)
    {
        s().live -= 1;
    }
}

impl<I: Idx> Node for SN<I>
{
    type Cmp = V;
    type Id = u64;
    type Index = I;

    fn id(&self) -> u64
    {
        if self.leaf == NONE {
            u64::from(self.side)
        }
        else {
            2 + 2 * self.leaf + u64::from(self.side)
        }
    }

    fn get_edge(
        &self,
        index: &I,
    ) -> Option<Self>
    {
        let w = s();
        let n = index.num();
        if self.leaf != NONE {
            return None;
        }
        let i = self.side as usize;
        if n == w.last[i] {
            w.times[i] += 1;
            chk(10, 11, w.times[i] <= 2);
            chk(9, 31, w.times[i] <= 2);
        }
        else {
            // the next one, from the default
            chk(10, 12, n == w.last[i].wrapping_add(1));
            chk(9, 32, n == w.last[i].wrapping_add(1));
            w.last[i] = n;
            w.times[i] = 1;
        }
        chk(10, 13, w.miss == NONE || n <= w.miss);
        chk(9, 33, w.miss == NONE || n <= w.miss);
        if n < w.deg[i] {
            Some(sn(self.side, n))
        }
        else {
            if w.miss == NONE {
                w.miss = n;
            }
            None
        }
    }

    fn equiv_modulo_edges(
        &self,
        other: &Self,
    ) -> V
    {
        let w = s();
        let sides = self.side == w.first && other.side == 1 - w.first && self.leaf == other.leaf;
        chk(10, 14, sides);
        chk(9, 34, sides);
        if self.leaf == NONE {
            return V(0);
        }
        // every edge once, in order
        chk(10, 15, self.leaf == w.neq);
        chk(4, 35, self.leaf == w.neq);
        w.neq += 1;
        V(match (self.leaf == w.diff, w.first) {
            (false, _) => 0,
            (true, 0) => LEAF_DIFF,
            (true, _) => LAB_GREATER as u8,
        })
    }
}

fn result(
    sub: u64,
    all: bool,
    r: V,
    want: u8,
)
{
    chk(10, sub, all && r.0 == want);
    chk(4, sub, all && r.0 == want);
    chk(2, sub, (r.0 == 0) == (want == 0));
}

/// Two nodes of up to `range` edges each; one leaf may be different.  `how` is a premade function
/// or 10 + recursion mode for the limited functions with an ample limit.
fn star<I: Idx>(
    how: u64,
    range_: u64,
    max_deg: u64,
)
{
    let h0 = heap();
    let go = |first: u8| {
        let w = s();
        w.last = [NONE; 2];
        w.times = [0; 2];
        w.miss = NONE;
        w.neq = 0;
        w.first = first;
        let (a, b) = (sn::<I>(first, NONE), sn::<I>(1 - first, NONE));
        if how < 10 {
            variants::premade(how, a, b)
        }
        else {
            match variants::limited(how - 10, 64, 1 << 40, 0, a, b) {
                Some(v) => v,
                None => {
                    chk(10, 20, false);
                    chk(2, 20, false);
                    kill()
                },
            }
        }
    };
    let r = go(0);
    if on(5) {
        let n = s().neq;
        let x = go(1);
        chk(5, 11, mirrored(r, x));
        chk(5, 12, n == s().neq);
    }
    let w = s();
    let (da, db) = (w.deg[0], w.deg[1]);
    let m = da.min(db).min(range_);
    chk(10, 16, w.live == 0 && heap() == h0);
    emit(1, u64::from(r.0));
    emit(2, w.neq);
    if (da == 0) != (db == 0) && range_ > 0 {
        result(17, w.neq == 0, r, if da < db { LESS } else { GREATER });
    }
    else if w.diff < m {
        cover(2);
        result(18, w.neq == w.diff + 1, r, LEAF_DIFF);
    }
    else {
        if m == range_ || da == db {
            result(21, w.neq == m, r, 0);
            cover(1);
            if m == max_deg {
                // every value of the index type
                cover(3);
            }
        }
        else {
            result(22, w.neq == m, r, if da < db { LESS } else { GREATER });
            cover(4);
        }
    }
}

/// Any number of edges on either side up to the whole range of an 8-bit index type (all 256
/// values of `u8`, 0 to 127 of `i8`), or `Odd` with any end; the differing leaf anywhere or nowhere.
#[cfg(feature = "index_star")]
#[no_mangle]
pub extern "C" fn index_star(
    mask: u64,
    how: u64,
    ty: u64,
    max: u64,
)
{
    unsafe { MASK = mask };
    let w = s();
    w.deg = [range(key(31, 0, 0), max + 1), range(key(31, 1, 0), max + 1)];
    w.diff = range(key(32, 0, 0), max + 1);
    match ty {
        0 => star::<u8>(how, 256, max),
        1 => star::<i8>(how, 128, max),
        _ => {
            let e = 1 + range(key(33, 0, 0), max);
            unsafe { ODD_END = e };
            star::<Odd>(how, e, max)
        },
    }
}

/// As `index_star` for wider types: few numbers of edges and differing positions, at the ends of
/// the range and elsewhere.
#[cfg(feature = "index_wide")]
#[no_mangle]
pub extern "C" fn index_wide(
    mask: u64,
    how: u64,
    ty: u64,
    max: u64,
)
{
    unsafe { MASK = mask };
    let w = s();
    let pick = |k: u64| match choose(key(34, k, 0), 4) {
        0 => max,
        1 => max - 1,
        2 => max / 2 + 1,
        _ => 3,
    };
    w.deg = [pick(0), pick(1)];
    w.diff = match choose(key(35, 0, 0), 3) {
        0 => NONE - 1,
        1 => max - 1,
        _ => max / 2,
    };
    match ty {
        2 => star::<u16>(how, 1 << 16, max),
        3 => star::<i16>(how, 1 << 15, max),
        4 => star::<u32>(how, 1 << 32, max),
        5 => star::<i32>(how, 1 << 31, max),
        6 => star::<u64>(how, NONE, max),
        7 => star::<i64>(how, 1 << 63, max),
        8 => star::<u128>(how, NONE, max),
        9 => star::<i128>(how, NONE, max),
        10 => star::<usize>(how, NONE, max),
        _ => star::<isize>(how, 1 << 63, max),
    }
}

/// Three wide nodes: numbers of edges, and for each one leaf that is different (if any).
struct Wide
{
    deg: [u64; 3],
    odd: [u64; 3],
    lab: [u64; 3],
}

static mut T: Wide = Wide { deg: [0; 3], odd: [0; 3], lab: [0; 3] };

struct TN<I>
{
    root: u8,
    leaf: u64,
    _i:   core::marker::PhantomData<I>,
}

impl<I> Clone for TN<I>
{
    fn clone(&self) -> Self
    {
        TN { root: self.root, leaf: self.leaf, _i: self._i }
    }
}

#[allow(static_mut_refs)]
impl<I: Idx> Node for TN<I>
{
    type Cmp = V;
    type Id = u64;
    type Index = I;

    fn id(&self) -> u64
    {
        u64::from(self.root) << 32 | self.leaf.wrapping_add(1)
    }

    fn get_edge(
        &self,
        index: &I,
    ) -> Option<Self>
    {
        let n = index.num();
        let w = unsafe { &T };
        if self.leaf == NONE && n < w.deg[self.root as usize] {
            Some(TN { root: self.root, leaf: n, _i: core::marker::PhantomData })
        }
        else {
            None
        }
    }

    fn equiv_modulo_edges(
        &self,
        other: &Self,
    ) -> V
    {
        let w = unsafe { &T };
        let lab = |x: &Self| {
            let i = x.root as usize;
            if x.leaf != NONE && conc(u64::from(x.leaf == w.odd[i])) != 0 { w.lab[i] } else { 1 }
        };
        let (x, y) = (lab(self), lab(other));
        if x < y {
            V(LAB_LESS as u8)
        }
        else if x > y {
            V(LAB_GREATER as u8)
        }
        else {
            V(0)
        }
    }
}

fn trans<I: Idx>(how: u64)
{
    let go = |a: u8, b: u8| {
        let root = |r| TN::<I> { root: r, leaf: NONE, _i: core::marker::PhantomData };
        sign(if how < 10 {
            variants::premade(how, root(a), root(b))
        }
        else {
            variants::limited64(how - 10, 1 << 40, root(a), root(b)).unwrap_or(V(99))
        })
    };
    let (x, y) = (go(0, 1), go(1, 2));
    if x <= 1 && y <= 1 {
        let z = go(0, 2);
        chk(6, 11, z <= 1);
        chk(6, 12, (z == 1) == (x == 1 && y == 1));
        cover(1);
        emit(1, z);
    }
    else if x >= 1 && y >= 1 {
        let z = go(0, 2);
        chk(6, 13, z == 2);
        cover(2);
        emit(1, z);
    }
}

/// Three nodes of up to `max` edges with one irregular leaf each, transitivity.
#[cfg(feature = "star_trans")]
#[no_mangle]
pub extern "C" fn star_trans(
    mask: u64,
    how: u64,
    ty: u64,
    max: u64,
)
{
    let near = ty == 2;
    // The numbers of edges and the irregular leaves close to each other, anywhere; or any
    let m = if near { conc(range(key(39, 0, 0), max)) } else { 0 };
    unsafe {
        MASK = mask;
        for i in 0 .. 3_usize {
            T.deg[i] = m + range(key(36, i as u64, 0), if near { 2 } else { max + 1 });
            T.odd[i] = m + range(key(37, i as u64, 0), if near { 3 } else { max + 1 });
            if near {
                T.deg[i] = conc(T.deg[i]);
                T.odd[i] = conc(T.odd[i]) - u64::from(m > 0);
            }
            T.lab[i] = range(key(38, i as u64, 0), 3);
        }
    }
    match ty {
        0 | 2 => trans::<u8>(how),
        _ => {
            unsafe { ODD_END = max + 4 };
            trans::<Odd>(how)
        },
    }
}
