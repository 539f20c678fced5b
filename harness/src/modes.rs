//! Custom descend and recursion modes that answer anything, and may fail, at every step.

use {
    crate::{
        lsx::*,
        tree::{
            self,
            child,
            emit_trace,
            init,
            local,
            roots,
            same,
            w,
            TN,
        },
        val::*,
        variants::{
            self,
            Lim,
            LinTable,
            QP,
        },
    },
    core::marker::PhantomData,
    graph_safe_compare::{
        basic::{
            modes::unlimited::Unlimited,
            recursion::callstack::CallStack,
        },
        cycle_safe::modes::interleave,
        deep_safe::recursion::queue::RecurQueue,
        generic::{
            equiv::{
                self,
                CounterpartsResult,
                DescendMode,
                EdgesIter,
                Equiv,
                RecurMode,
            },
            equiv_classes::Table,
            precheck_interleave,
        },
        wide_safe::recursion::stack::RecurStack,
        Node,
    },
    std::{
        collections::VecDeque,
        convert::Infallible,
    },
};

/// An error of a mode, with where it comes from.
pub struct DErr(u64);
pub struct RErr(u64);
/// The error of the comparison.
pub enum Er
{
    D(u64),
    R(u64),
}

impl From<DErr> for Er
{
    fn from(e: DErr) -> Self
    {
        Er::D(e.0)
    }
}
impl From<RErr> for Er
{
    fn from(e: RErr) -> Self
    {
        Er::R(e.0)
    }
}
impl From<Infallible> for Er
{
    fn from(e: Infallible) -> Self
    {
        match e {}
    }
}

const YES: u64 = 0;
const NO: u64 = 1;

const TRAVERSE: u64 = 1;
const EDGES: u64 = 2;
const RECUR: u64 = 3;
const DONE: u64 = 4;

/// What the mode answers at its n-th call of a kind: yes, no or an error.
fn answer(
    kind: u64,
    n: u64,
) -> u64
{
    range(key(20 + kind, n, 0), 3)
}
/// What a call of `recur` does: its part, an error, or a difference of its own.
fn recur_answer(n: u64) -> u64
{
    range(key(20 + RECUR, n, 0), 3)
}

pub const OWN: u8 = 77;

/// Every call that a comparison makes on its modes and nodes, in order.
pub struct Log
{
    n:     usize,
    ev:    [u64; 256],
    calls: [u64; 8],
    dead:  bool,
}

static mut L: Log = Log { n: 0, ev: [0; 256], calls: [0; 8], dead: false };

#[allow(static_mut_refs)]
fn log() -> &'static mut Log
{
    unsafe { &mut L }
}

impl Log
{
    fn start(&mut self)
    {
        self.n = 0;
        self.calls = [0; 8];
        self.dead = false;
    }
    fn ev(
        &mut self,
        kind: u64,
        pos: u16,
    )
    {
        chk(18, 1, !self.dead);
        if self.n < 256 {
            self.ev[self.n] = kind << 32 | u64::from(pos);
        }
        self.n += 1;
    }
    fn call(
        &mut self,
        kind: u64,
    ) -> u64
    {
        self.calls[kind as usize] += 1;
        self.calls[kind as usize]
    }
}

/// Answers anything.
#[derive(Default)]
pub struct Any;

impl<P: equiv::Params<DescendMode = Any, Node = MN>> DescendMode<P> for Any
where DErr: Into<P::Error>
{
    type Error = DErr;

    fn do_edges(
        &mut self,
        a: &MN,
        b: &MN,
    ) -> Result<bool, DErr>
    {
        log().ev(EDGES, a.0.pos);
        chk(18, 2, a.0.pos == b.0.pos && a.0.side == 0 && b.0.side == 1);
        let n = log().call(EDGES);
        match answer(EDGES, n) {
            YES => Ok(true),
            NO => Ok(false),
            _ => {
                log().dead = true;
                Err(DErr(n))
            },
        }
    }
    fn do_traverse(&mut self) -> Result<bool, DErr>
    {
        log().ev(TRAVERSE, 0);
        let n = log().call(TRAVERSE);
        match answer(TRAVERSE, n) {
            YES => Ok(true),
            NO => Ok(false),
            _ => {
                log().dead = true;
                Err(DErr(n))
            },
        }
    }
}

/// A node that also logs its local comparison.
pub struct MN(TN);

impl Clone for MN
{
    fn clone(&self) -> Self
    {
        MN(self.0.clone())
    }
}

impl Node for MN
{
    type Cmp = V;
    type Id = u32;
    type Index = u8;

    fn id(&self) -> u32
    {
        chk(18, 3, !log().dead);
        self.0.id()
    }
    fn get_edge(
        &self,
        i: &u8,
    ) -> Option<Self>
    {
        chk(18, 4, !log().dead);
        self.0.get_edge(i).map(MN)
    }
    fn equiv_modulo_edges(
        &self,
        o: &Self,
    ) -> V
    {
        log().ev(5, self.0.pos);
        self.0.equiv_modulo_edges(&o.0)
    }
}

/// Recurs by calling, unless it has an answer of its own.
#[derive(Default)]
pub struct OwnCall;

impl<P: equiv::Params<RecurMode = OwnCall, Node = MN>> RecurMode<P> for OwnCall
where RErr: Into<P::Error>
{
    // the errors of the descend mode come through here as well
    type Error = P::Error;

    fn recur(
        it: &mut Equiv<P>,
        edges: EdgesIter<MN>,
    ) -> Result<V, P::Error>
    {
        let n = log().call(RECUR);
        log().ev(RECUR, 0);
        match recur_answer(n) {
            YES => (),
            NO => {
                log().dead = true;
                return Ok(V(OWN));
            },
            _ => {
                log().dead = true;
                return Err(RErr(n).into());
            },
        }
        for r in edges {
            match r {
                Ok([a, b]) => {
                    let v = it.equiv_main(a, b)?;
                    if v.0 != 0 {
                        log().dead = true;
                        return Ok(v);
                    }
                },
                Err(v) => {
                    log().dead = true;
                    return Ok(v);
                },
            }
        }
        Ok(V(0))
    }
    fn next(&mut self) -> Option<CounterpartsResult<MN>>
    {
        log().ev(DONE, 0);
        None
    }
    fn reset(self) -> Self
    {
        OwnCall
    }
}

/// Saves for later, eagerly, the result of a missing edge included.
#[derive(Default)]
pub struct OwnQueue(VecDeque<CounterpartsResult<MN>>);

fn queue_recur(
    q: &mut VecDeque<CounterpartsResult<MN>>,
    edges: EdgesIter<MN>,
) -> Result<V, RErr>
{
    let n = log().call(RECUR);
    log().ev(RECUR, 0);
    match recur_answer(n) {
        YES => {
            q.extend(edges);
            Ok(V(0))
        },
        NO => {
            log().dead = true;
            Ok(V(OWN))
        },
        _ => {
            log().dead = true;
            Err(RErr(n))
        },
    }
}

impl<P: equiv::Params<RecurMode = OwnQueue, Node = MN>> RecurMode<P> for OwnQueue
where RErr: Into<P::Error>
{
    type Error = RErr;

    fn recur(
        it: &mut Equiv<P>,
        edges: EdgesIter<MN>,
    ) -> Result<V, RErr>
    {
        queue_recur(&mut it.recur_mode.0, edges)
    }
    fn next(&mut self) -> Option<CounterpartsResult<MN>>
    {
        log().ev(DONE, 0);
        let r = self.0.pop_front();
        if let Some(Err(_)) | None = r {
            log().dead = true;
        }
        r
    }
    fn reset(mut self) -> Self
    {
        log().ev(6, 0);
        self.0.clear();
        self
    }
}

pub struct Pr<D, R>(PhantomData<(D, R)>);

macro_rules! pr {
    ($($d:ty, $r:ty;)*) => {
        $(
            impl equiv::Params for Pr<$d, $r>
            {
                type DescendMode = $d;
                type Error = Er;
                type Node = MN;
                type RecurMode = $r;
            }
        )*
    };
}
pr! {
    Any, CallStack;
    Any, RecurQueue<QP<MN>>;
    Any, RecurStack<QP<MN>>;
    Any, OwnCall;
    Any, OwnQueue;
    Unlimited, OwnCall;
    Unlimited, OwnQueue;
}

/// How a comparison ends.
#[derive(Clone, Copy, PartialEq, Eq)]
struct End
{
    /// 0 with a value, 1 an error of the descend mode, 2 of the recursion mode
    kind: u64,
    n:    u64,
}

fn val(v: u8) -> End
{
    End { kind: 0, n: u64::from(v) }
}

/// Does what the modes say, in the order given.
struct RefRun
{
    any:   bool,
    own:   bool,
    /// the recursion mode logs
    nexts: bool,
    limit: u64,
    n:     usize,
    ev:    [u64; 256],
    calls: [u64; 8],
}

impl RefRun
{
    fn ev(
        &mut self,
        kind: u64,
        pos: u16,
    )
    {
        if self.n < 256 {
            self.ev[self.n] = kind << 32 | u64::from(pos);
        }
        self.n += 1;
    }

    /// `Ok(true)` if the descendants are to be compared.
    fn visit(
        &mut self,
        p: u16,
    ) -> Result<bool, End>
    {
        if self.any {
            self.calls[TRAVERSE as usize] += 1;
            let n = self.calls[TRAVERSE as usize];
            self.ev(TRAVERSE, 0);
            match answer(TRAVERSE, n) {
                YES => (),
                NO => return Ok(false),
                _ => return Err(End { kind: 1, n }),
            }
        }
        if self.limit == 0 {
            return Err(End { kind: 9, n: 0 });
        }
        self.limit -= 1;
        if same(p) {
            return Ok(false);
        }
        self.ev(5, p);
        let v = local(p, false);
        if v.0 != 0 {
            return Err(val(v.0));
        }
        if !self.pair(p, 0)? {
            return Ok(false);
        }
        if self.any {
            self.calls[EDGES as usize] += 1;
            let n = self.calls[EDGES as usize];
            self.ev(EDGES, p);
            match answer(EDGES, n) {
                YES => (),
                NO => return Ok(false),
                _ => return Err(End { kind: 1, n }),
            }
        }
        if self.own {
            self.calls[RECUR as usize] += 1;
            let n = self.calls[RECUR as usize];
            self.ev(RECUR, 0);
            match recur_answer(n) {
                YES => (),
                NO => return Err(val(OWN)),
                _ => return Err(End { kind: 2, n }),
            }
        }
        Ok(true)
    }

    fn pair(
        &mut self,
        p: u16,
        i: u8,
    ) -> Result<bool, End>
    {
        match (tree::has(0, p, i), tree::has(1, p, i)) {
            (true, true) => Ok(true),
            (false, false) => Ok(false),
            (l, _) => Err(val(if l { GREATER } else { LESS })),
        }
    }

    fn dfs(
        &mut self,
        p: u16,
    ) -> Result<(), End>
    {
        if self.visit(p)? {
            let mut i = 0;
            loop {
                self.dfs(child(p, i))?;
                i += 1;
                if !self.pair(p, i)? {
                    break;
                }
            }
        }
        Ok(())
    }

    fn bfs(&mut self) -> Result<(), End>
    {
        let mut q: VecDeque<(u16, u8)> = VecDeque::with_capacity(16);
        if self.visit(0)? {
            q.push_back((0, 0));
        }
        loop {
            if self.nexts {
                self.ev(DONE, 0);
            }
            let c = loop {
                let Some((p, i)) = q.front_mut()
                else {
                    return Ok(());
                };
                let (p, k) = (*p, *i);
                *i += 1;
                if self.pair(p, k)? {
                    break child(p, k);
                }
                let _ = q.pop_front();
            };
            if self.visit(c)? {
                q.push_back((c, 0));
            }
        }
    }

    fn run(
        &mut self,
        breadth: bool,
    ) -> Option<End>
    {
        let r = if breadth {
            self.bfs()
        }
        else {
            let r = self.dfs(0);
            if r.is_ok() && self.nexts {
                self.ev(DONE, 0);
            }
            r
        };
        match r {
            Ok(()) => Some(val(0)),
            // the limit
            Err(e) if e.kind == 9 => None,
            Err(e) => Some(e),
        }
    }
}

const NEW: RefRun = RefRun {
    any:   false,
    own:   false,
    nexts: false,
    limit: u64::MAX,
    n:     0,
    ev:    [0; 256],
    calls: [0; 8],
};

fn end(r: Result<V, Er>) -> End
{
    match r {
        Ok(v) => val(v.0),
        Err(Er::D(n)) => End { kind: 1, n },
        Err(Er::R(n)) => End { kind: 2, n },
    }
}

fn compare(
    e: End,
    want: End,
    x: &RefRun,
)
{
    chk(18, 5, e.kind == want.kind);
    chk(18, 6, e.n == want.n);
    let l = log();
    chk(18, 7, l.n == x.n && l.n <= 256);
    let mut i = 0;
    while i < x.n && i < l.n && i < 256 {
        chk(18, 8, l.ev[i] == x.ev[i]);
        i += 1;
    }
    match e.kind {
        0 if e.n == 0 => cover(1),
        0 if e.n == u64::from(OWN) => cover(2),
        0 => cover(3),
        1 => cover(4),
        _ => cover(5),
    }
    emit(5, e.kind);
    emit(6, l.n as u64);
    emit_trace(if e.kind == 0 { e.n } else { 1000 + e.n });
}

fn custom<P: equiv::Params<Node = MN, Error = Er>>() -> Result<V, Er>
where P::DescendMode: Default
{
    let (a, b) = roots();
    let mut e = Equiv::<P>::default();
    e.equiv(MN(a), MN(b))
}

/// Custom modes over every unfolding, every answer.
#[cfg(feature = "modes")]
#[no_mangle]
pub extern "C" fn modes(
    mask: u64,
    how: u64,
    k: u64,
    d: u64,
)
{
    unsafe { MASK = mask };
    init(k, d, false, false);
    log().start();
    w().rec = variants::CALLSTACK;
    let h0 = heap();
    let r = match how {
        0 => custom::<Pr<Any, CallStack>>(),
        1 => custom::<Pr<Any, RecurQueue<QP<MN>>>>(),
        2 => custom::<Pr<Any, RecurStack<QP<MN>>>>(),
        3 => custom::<Pr<Any, OwnCall>>(),
        4 => custom::<Pr<Any, OwnQueue>>(),
        5 => custom::<Pr<Unlimited, OwnCall>>(),
        _ => custom::<Pr<Unlimited, OwnQueue>>(),
    };
    tree::finish(h0);
    w().quiet = true;
    let mut x = RefRun { any: how < 5, own: how >= 3, nexts: how >= 3, ..NEW };
    let want = x.run(matches!(how, 1 | 4 | 6)).unwrap_or(val(0));
    compare(end(r), want, &x);
}

struct PP<I, PR, IR>(PhantomData<(I, PR, IR)>);

impl From<RErr> for precheck_interleave::PrecheckError<Er>
{
    fn from(e: RErr) -> Self
    {
        precheck_interleave::PrecheckError::RecurError(Er::R(e.0))
    }
}
impl From<RErr> for precheck_interleave::InterleaveError<Er>
{
    fn from(e: RErr) -> Self
    {
        precheck_interleave::InterleaveError(Er::R(e.0))
    }
}
impl From<OwnCall> for OwnQueue
{
    fn from(_: OwnCall) -> Self
    {
        OwnQueue::default()
    }
}
impl From<CallStack> for OwnQueue
{
    fn from(_: CallStack) -> Self
    {
        OwnQueue::default()
    }
}
impl From<CallStack> for OwnCall
{
    fn from(_: CallStack) -> Self
    {
        OwnCall
    }
}
impl From<OwnQueue> for OwnCall
{
    fn from(q: OwnQueue) -> Self
    {
        chk(18, 9, q.0.is_empty());
        OwnCall
    }
}

macro_rules! pp {
    ($($pr:ty, $ir:ty;)*) => {
        $(
            impl<I> precheck_interleave::Params<MN> for PP<I, $pr, $ir>
            where
                I: interleave::Params<Node = MN>,
                I::Table: Table<Node = MN>,
            {
                type Error = Er;
                type InterleaveParams = I;
                type InterleaveRecurMode = $ir;
                type PrecheckRecurMode = $pr;
            }
        )*
    };
}
pp! {
    OwnCall, OwnCall;
    OwnCall, OwnQueue;
    OwnQueue, OwnQueue;
    OwnQueue, OwnCall;
    CallStack, OwnQueue;
    CallStack, OwnCall;
}

/// The prechecked comparison with custom recursion modes that may fail anywhere.
#[cfg(feature = "modes_precheck")]
#[no_mangle]
pub extern "C" fn modes_precheck(
    mask: u64,
    how: u64,
    limit: u64,
    k: u64,
    d: u64,
)
{
    unsafe { MASK = mask };
    init(k, d, false, false);
    log().start();
    w().rec = variants::CALLSTACK;
    let h0 = heap();
    macro_rules! go {
        ($i:ty) => {{
            let (a, b) = roots();
            let (a, b) = (MN(a), MN(b));
            use precheck_interleave::equiv;
            match how {
                0 => equiv::<MN, PP<$i, OwnCall, OwnCall>>(a, b),
                1 => equiv::<MN, PP<$i, OwnCall, OwnQueue>>(a, b),
                2 => equiv::<MN, PP<$i, OwnQueue, OwnQueue>>(a, b),
                3 => equiv::<MN, PP<$i, OwnQueue, OwnCall>>(a, b),
                4 => equiv::<MN, PP<$i, CallStack, OwnQueue>>(a, b),
                _ => equiv::<MN, PP<$i, CallStack, OwnCall>>(a, b),
            }
        }};
    }
    let r = match limit {
        0 => go!(Lim<MN, LinTable<MN>, 0, 2, 1>),
        1 => go!(Lim<MN, LinTable<MN>, 1, 2, 1>),
        2 => go!(Lim<MN, LinTable<MN>, 2, 2, 2>),
        3 => go!(Lim<MN, LinTable<MN>, 3, 2, 2>),
        _ => go!(Lim<MN, LinTable<MN>, 4, 0, 1>),
    };
    tree::finish(h0);
    w().quiet = true;
    let (po, pb) = (how < 4, matches!(how, 2 | 3));
    let ib = matches!(how, 1 | 2 | 4);
    let mut x = RefRun { own: po, nexts: po, limit, ..NEW };
    let want = match x.run(pb) {
        Some(e) => {
            cover(6);
            e
        },
        None => {
            cover(7);
            if pb {
                x.ev(6, 0);
            }
            x.own = true;
            x.nexts = true;
            x.limit = u64::MAX;
            x.run(ib).unwrap_or(val(0))
        },
    };
    compare(end(r), want, &x);
}
