//! Every way of running a comparison that the checks exercise.

use {
    crate::val::V,
    core::marker::PhantomData,
    graph_safe_compare::{
        basic::{
            self,
            modes::{
                limited::{
                    LimitReached,
                    Limited,
                },
                unlimited::Unlimited,
            },
            recursion::callstack::CallStack,
        },
        cycle_safe::{
            self,
            modes::interleave::{
                self,
                random::NumberGenerator,
                Interleave,
            },
        },
        deep_safe::{
            self,
            recursion::queue::{
                self,
                RecurQueue,
            },
        },
        generic::{
            equiv::{
                self,
                Equiv,
            },
            equiv_classes::{
                premade::{
                    hash_map,
                    rc::Rc,
                },
                Table,
            },
            precheck_interleave,
        },
        robust,
        wide_safe::{
            self,
            recursion::stack::{
                self,
                RecurStack,
            },
        },
        Node,
    },
    std::{
        convert::Infallible,
        num::NonZeroU16,
    },
};

/// A generator whose draws are arbitrary; the n-th draw of every run is the same value.
#[derive(Default)]
pub struct SymRng(u64);

pub static mut DRAWS: u64 = 0;

impl NumberGenerator for SymRng
{
    fn rand_upto(
        &mut self,
        exclusive_end: NonZeroU16,
    ) -> u16
    {
        self.0 += 1;
        unsafe { DRAWS += 1 };
        crate::lsx::range(crate::lsx::key(9, self.0, 0), u64::from(exclusive_end.get())) as u16
    }
}

/// A table that searches linearly.
pub struct LinTable<N: Node>(Vec<(N::Id, Rc)>);

impl<N: Node> Default for LinTable<N>
{
    fn default() -> Self
    {
        LinTable(Vec::with_capacity(16))
    }
}

impl<N: Node> Table for LinTable<N>
{
    type Node = N;
    type Rc = Rc;

    fn get(
        &self,
        k: &N::Id,
    ) -> Option<&Rc>
    {
        self.0.iter().find(|e| e.0 == *k).map(|e| &e.1)
    }
    fn insert(
        &mut self,
        k: N::Id,
        v: Rc,
    )
    {
        match self.0.iter_mut().find(|e| e.0 == k) {
            Some(e) => e.1 = v,
            None => self.0.push((k, v)),
        }
    }
}

/// Interleave parameters with the given limits.
pub struct Lim<N, T, const PRE: u16, const FAST: u16, const SLOW: u16>(PhantomData<(N, T)>);

impl<N: Node, T: Table<Node = N>, const PRE: u16, const FAST: u16, const SLOW: u16> interleave::Params
    for Lim<N, T, PRE, FAST, SLOW>
{
    type Node = N;
    type RNG = SymRng;
    type Table = T;

    const FAST_LIMIT_MAX: u16 = FAST;
    const PRECHECK_LIMIT: u16 = PRE;
    const SLOW_LIMIT: u16 = SLOW;
}

/// Interleave parameters where only the precheck limit is redefined, as documented.
pub struct Derived<N, T, const PRE: u16>(PhantomData<(N, T)>);

impl<N: Node, T: Table<Node = N>, const PRE: u16> interleave::Params for Derived<N, T, PRE>
{
    type Node = N;
    type RNG = SymRng;
    type Table = T;

    const PRECHECK_LIMIT: u16 = PRE;
}

/// Interleave parameters with everything left at its default.
pub struct Defaults<N, T>(PhantomData<(N, T)>);

impl<N: Node, T: Table<Node = N>> interleave::Params for Defaults<N, T>
{
    type Node = N;
    type RNG = SymRng;
    type Table = T;
}

pub struct HM<N>(PhantomData<N>);

impl<N: Node> hash_map::Params for HM<N>
{
    type Node = N;

    const INITIAL_CAPACITY: usize = 4;
}

pub type HashTable<N> = hash_map::Table<HM<N>>;

pub struct QP<N>(PhantomData<N>);

impl<N: Node> queue::Params for QP<N>
{
    type Node = N;

    const INITIAL_CAPACITY: usize = 1;
}

impl<N: Node> stack::Params for QP<N>
{
    type Node = N;

    const INITIAL_CAPACITY: usize = 1;
}

/// `equiv` parameters from a descend mode and a recursion mode.
pub struct E<N, DM, RM, Er>(PhantomData<(N, DM, RM, Er)>);

macro_rules! e_params {
    ($rm:ty) => {
        impl<N: Node<Cmp = V>, I: interleave::Params<Node = N>> equiv::Params
            for E<N, Interleave<I>, $rm, Infallible>
        {
            type DescendMode = Interleave<I>;
            type Error = Infallible;
            type Node = N;
            type RecurMode = $rm;
        }
        impl<N: Node<Cmp = V>> equiv::Params for E<N, Unlimited, $rm, Infallible>
        {
            type DescendMode = Unlimited;
            type Error = Infallible;
            type Node = N;
            type RecurMode = $rm;
        }
        e_limited!($rm, u8, u16, u32, u64, u128, usize);
    };
}
macro_rules! e_limited {
    ($rm:ty, $($t:ty),*) => {
        $(
            impl<N: Node<Cmp = V>> equiv::Params for E<N, Limited<$t>, $rm, LimitReached>
            {
                type DescendMode = Limited<$t>;
                type Error = LimitReached;
                type Node = N;
                type RecurMode = $rm;
            }
        )*
    };
}
e_params!(CallStack);
e_params!(RecurQueue<QP<N>>);
e_params!(RecurStack<QP<N>>);

fn inter<N, I, RM>(
    a: N,
    b: N,
) -> V
where
    N: Node<Cmp = V>,
    I: interleave::Params<Node = N>,
    I::Table: Table<Node = N>,
    E<N, Interleave<I>, RM, Infallible>:
        equiv::Params<Node = N, DescendMode = Interleave<I>, RecurMode = RM, Error = Infallible>,
{
    let mut e = Equiv::<E<N, Interleave<I>, RM, Infallible>>::default();
    match e.equiv(a, b) {
        Ok(v) => v,
        Err(e) => match e {},
    }
}

pub const CALLSTACK: u64 = 0;
pub const QUEUE: u64 = 1;
pub const STACK: u64 = 2;

fn inter_rm<N: Node<Cmp = V>, I: interleave::Params<Node = N>>(
    rm: u64,
    a: N,
    b: N,
) -> V
where
    I::Table: Table<Node = N>,
{
    match rm {
        CALLSTACK => inter::<N, I, CallStack>(a, b),
        QUEUE => inter::<N, I, RecurQueue<QP<N>>>(a, b),
        _ => inter::<N, I, RecurStack<QP<N>>>(a, b),
    }
}

/// The limits of an interleave configuration: (precheck, fast, slow).
pub fn limits(cfg: u64) -> (u64, u64, u64)
{
    match cfg {
        0 => (400, 800, 40),
        1 => (0, 0, 1),
        2 => (1, 1, 1),
        3 => (2, 2, 1),
        4 => (3, 1, 2),
        5 => (1, 3, 2),
        6 => (5, 2, 3),
        7 => (2, 0, u64::from(u16::MAX)),
        8 => (4, 65534, 1),
        9 => (0, 2, u64::from(u16::MAX)),
        // only the precheck limit redefined
        20..=35 => {
            let p = cfg - 20;
            let p = if p == 15 { 19 } else { p };
            (p, 2 * p, if p < 10 { 1 } else { p / 10 })
        },
        _ => unreachable!(),
    }
}

macro_rules! by_cfg {
    ($cfg:expr, $N:ty, $T:ty, $f:ident, ($($args:expr),*)) => {
        match $cfg {
            #[cfg(feature = "cfg0")]
            0 => $f::<$N, Defaults<$N, $T>>($($args),*),
            #[cfg(feature = "cfg1")]
            1 => $f::<$N, Lim<$N, $T, 0, 0, 1>>($($args),*),
            #[cfg(feature = "cfg2")]
            2 => $f::<$N, Lim<$N, $T, 1, 1, 1>>($($args),*),
            #[cfg(feature = "cfg3")]
            3 => $f::<$N, Lim<$N, $T, 2, 2, 1>>($($args),*),
            #[cfg(feature = "cfg4")]
            4 => $f::<$N, Lim<$N, $T, 3, 1, 2>>($($args),*),
            #[cfg(feature = "cfg5")]
            5 => $f::<$N, Lim<$N, $T, 1, 3, 2>>($($args),*),
            #[cfg(feature = "cfg6")]
            6 => $f::<$N, Lim<$N, $T, 5, 2, 3>>($($args),*),
            #[cfg(feature = "cfg7")]
            7 => $f::<$N, Lim<$N, $T, 2, 0, { u16::MAX }>>($($args),*),
            #[cfg(feature = "cfg8")]
            8 => $f::<$N, Lim<$N, $T, 4, 65534, 1>>($($args),*),
            #[cfg(feature = "cfg9")]
            9 => $f::<$N, Lim<$N, $T, 0, 2, { u16::MAX }>>($($args),*),
            #[cfg(feature = "cfg20")]
            20 => $f::<$N, Derived<$N, $T, 0>>($($args),*),
            #[cfg(feature = "cfg21")]
            21 => $f::<$N, Derived<$N, $T, 1>>($($args),*),
            #[cfg(feature = "cfg22")]
            22 => $f::<$N, Derived<$N, $T, 2>>($($args),*),
            #[cfg(feature = "cfg25")]
            25 => $f::<$N, Derived<$N, $T, 5>>($($args),*),
            #[cfg(feature = "cfg29")]
            29 => $f::<$N, Derived<$N, $T, 9>>($($args),*),
            #[cfg(feature = "cfg30")]
            30 => $f::<$N, Derived<$N, $T, 10>>($($args),*),
            #[cfg(feature = "cfg35")]
            35 => $f::<$N, Derived<$N, $T, 19>>($($args),*),
            _ => unreachable!(),
        }
    };
}

/// The interleaved comparison built from the generic items, without precheck.
pub fn interleave<N: Node<Cmp = V>>(
    rm: u64,
    cfg: u64,
    hash: bool,
    a: N,
    b: N,
) -> V
{
    #[cfg(feature = "hash")]
    if hash {
        return by_cfg!(cfg, N, HashTable<N>, inter_rm, (rm, a, b));
    }
    #[cfg(feature = "lin")]
    {
        by_cfg!(cfg, N, LinTable<N>, inter_rm, (rm, a, b))
    }
    #[cfg(not(feature = "lin"))]
    unreachable!()
}

struct Pre<N, I, PR, IR>(PhantomData<(N, I, PR, IR)>);

macro_rules! pre_params {
    ($($pr:ty => $ir:ty),*) => {
        $(
            impl<N, I> precheck_interleave::Params<N> for Pre<N, I, $pr, $ir>
            where
                N: Node<Cmp = V>,
                I: interleave::Params<Node = N>,
                I::Table: Table<Node = N>,
            {
                type Error = Infallible;
                type InterleaveParams = I;
                type InterleaveRecurMode = $ir;
                type PrecheckRecurMode = $pr;
            }
        )*
    };
}
pre_params!(
    CallStack => CallStack,
    CallStack => RecurQueue<QP<N>>,
    CallStack => RecurStack<QP<N>>,
    RecurQueue<QP<N>> => RecurQueue<QP<N>>,
    RecurStack<QP<N>> => RecurStack<QP<N>>
);

pub const COMBOS: u64 = 5;

/// The recursion modes of a combination: (precheck, interleave).
pub fn combo_modes(c: u64) -> (u64, u64)
{
    match c {
        0 => (CALLSTACK, CALLSTACK),
        1 => (CALLSTACK, QUEUE),
        2 => (CALLSTACK, STACK),
        3 => (QUEUE, QUEUE),
        _ => (STACK, STACK),
    }
}

fn pre<N: Node<Cmp = V> + Clone, I: interleave::Params<Node = N>>(
    combo: u64,
    a: N,
    b: N,
) -> V
where
    I::Table: Table<Node = N>,
{
    fn run<N: Node<Cmp = V> + Clone, P: precheck_interleave::Params<N, Error = Infallible>>(
        a: N,
        b: N,
    ) -> V
    {
        match precheck_interleave::equiv::<N, P>(a, b) {
            Ok(v) => v,
            Err(e) => match e {},
        }
    }
    match combo {
        0 => run::<N, Pre<N, I, CallStack, CallStack>>(a, b),
        1 => run::<N, Pre<N, I, CallStack, RecurQueue<QP<N>>>>(a, b),
        2 => run::<N, Pre<N, I, CallStack, RecurStack<QP<N>>>>(a, b),
        3 => run::<N, Pre<N, I, RecurQueue<QP<N>>, RecurQueue<QP<N>>>>(a, b),
        _ => run::<N, Pre<N, I, RecurStack<QP<N>>, RecurStack<QP<N>>>>(a, b),
    }
}

/// The prechecked comparison built from the generic items.
pub fn precheck<N: Node<Cmp = V> + Clone>(
    combo: u64,
    cfg: u64,
    a: N,
    b: N,
) -> V
{
    #[cfg(feature = "pre")]
    {
        by_cfg!(cfg, N, LinTable<N>, pre, (combo, a, b))
    }
    #[cfg(not(feature = "pre"))]
    unreachable!()
}

/// The premade functions.
pub const PREMADE: u64 = 7;

/// Whether a premade function goes breadth-first.
pub fn breadth_first(v: u64) -> bool
{
    matches!(v, 1 | 4 | 6)
}

pub fn premade<N: Node<Cmp = V> + Clone>(
    v: u64,
    a: N,
    b: N,
) -> V
{
    match v {
        0 => basic::equiv(a, b),
        1 => deep_safe::equiv(a, b),
        2 => wide_safe::equiv(a, b),
        3 => cycle_safe::equiv(a, b),
        4 => robust::equiv(a, b),
        5 => cycle_safe::precheck_equiv(a, b),
        _ => robust::precheck_equiv(a, b),
    }
}

/// The limited comparisons: `None` is the limit error.
pub fn limited<N: Node<Cmp = V>>(
    rm: u64,
    ticker: u64,
    lo: u64,
    hi: u64,
    a: N,
    b: N,
) -> Option<V>
{
    macro_rules! go {
        ($l:expr) => {
            match rm {
                CALLSTACK => basic::limited_equiv($l, a, b).ok(),
                QUEUE => deep_safe::limited_equiv($l, a, b).ok(),
                _ => wide_safe::limited_equiv($l, a, b).ok(),
            }
        };
    }
    match ticker {
        8 => go!(lo as u8),
        16 => go!(lo as u16),
        32 => go!(lo as u32),
        64 => go!(lo),
        128 => go!(u128::from(hi) << 64 | u128::from(lo)),
        _ => go!(lo as usize),
    }
}

/// The limited comparisons with one type of limit only.
pub fn limited64<N: Node<Cmp = V>>(
    rm: u64,
    limit: u64,
    a: N,
    b: N,
) -> Option<V>
{
    match rm {
        CALLSTACK => basic::limited_equiv(limit, a, b).ok(),
        QUEUE => deep_safe::limited_equiv(limit, a, b).ok(),
        _ => wide_safe::limited_equiv(limit, a, b).ok(),
    }
}
