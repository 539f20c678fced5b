//! Long and wide graphs of regular shapes, with one irregularity whose place is symbolic.

use {
    crate::{
        lsx::*,
        tree::STACK_CAP,
        val::*,
        variants,
    },
    graph_safe_compare::Node,
};

/// Shapes.
pub const LIST: u64 = 0;
pub const LEAF_NEXT: u64 = 1;
pub const NEXT_LEAF: u64 = 2;
pub const LADDER: u64 = 3;
pub const CYCLE: u64 = 4;
pub const STAR: u64 = 5;
pub const DOUBLY: u64 = 6;
pub const COMB: u64 = 7;
pub const LADDER_CYCLE: u64 = 8;

pub struct World
{
    pub shape: u64,
    pub len:   [u64; 2],
    pub kind:  u64,
    pub live:  u64,
    pub maxlive: u64,
    pub sp0:   u64,
    pub spmin: u64,
    pub neq:   u64,
    pub trace: u64,
    pub cap:   u64,
    /// quiet: no monitoring
    pub quiet: bool,
    pub window: u64,
}

pub static mut W: World = World {
    shape: 0,
    len:   [0; 2],
    kind:  0,
    live:  0,
    maxlive: 0,
    sp0:   0,
    spmin: 0,
    neq:   0,
    trace: 7,
    cap:   u64::MAX,
    quiet: false,
    window: 0,
};

#[allow(static_mut_refs)]
pub fn w() -> &'static mut World
{
    unsafe { &mut W }
}

fn reset()
{
    let w = w();
    w.neq = 0;
    w.trace = 7;
    w.maxlive = 0;
    w.sp0 = sp();
    w.spmin = w.sp0;
}

/// The kinds of irregularity at the node `pos` of the second graph.
pub const LABEL: u64 = 0;
pub const NO_EDGES: u64 = 1;
pub const LESS_EDGES: u64 = 2;
pub const MORE_EDGES: u64 = 3;
pub const IDENTICAL: u64 = 4;
pub const KINDS: u64 = 5;

fn pos() -> u64
{
    let w = w();
    if w.window > 0 {
        w.len[1] - w.window + range(key(30, 0, 0), w.window + 1)
    }
    else {
        range(key(30, 0, 0), w.len[1] + 1)
    }
}

/// A node: its side and number; leaves are numbered from the length up.
pub struct BN
{
    pub side: u8,
    pub i:    u32,
}

impl BN
{
    fn new(
        side: u8,
        i: u32,
    ) -> Self
    {
        let w = w();
        w.live += 1;
        if w.live > w.maxlive {
            w.maxlive = w.live;
        }
        BN { side, i }
    }
}

impl Clone for BN
{
    fn clone(&self) -> Self
    {
        note_sp();
        BN::new(self.side, self.i)
    }
}

impl Drop for BN
{
    fn drop(&mut self)
    {
        note_sp();
        w().live -= 1;
    }
}

fn note_sp()
{
    let w = w();
    if w.quiet {
        return;
    }
    let s = sp();
    if s < w.spmin {
        w.spmin = s;
    }
}

fn odd(
    side: u8,
    i: u32,
    kind: u64,
) -> bool
{
    side == 1 && w().kind == kind && u64::from(i) < w().len[1] && conc(u64::from(pos() == u64::from(i))) == 1
}

/// The number of the node that the edge leads to.
fn edge(
    side: u8,
    i: u32,
    e: u32,
) -> Option<u32>
{
    let w = w();
    let l = w.len[side as usize] as u32;
    if i >= l {
        return None; // leaf
    }
    let last = i + 1 == l;
    let n = match w.shape {
        LIST | CYCLE => 1,
        STAR => {
            if i == 0 {
                l - 1
            }
            else {
                0
            }
        },
        COMB => (l.saturating_sub(2 * i + 1)).min(2),
        _ => 2,
    };
    let n = match w.shape {
        LIST | LEAF_NEXT | NEXT_LEAF | LADDER if last => 0,
        _ => n,
    };
    // the irregularity; asked only where it matters
    let n = if side == 1 {
        match w.kind {
            NO_EDGES if n > 0 && e == 0 && odd(side, i, NO_EDGES) => 0,
            LESS_EDGES if n > 0 && e + 1 == n && odd(side, i, LESS_EDGES) => n - 1,
            MORE_EDGES if e == n && odd(side, i, MORE_EDGES) => n + 1,
            _ => n,
        }
    }
    else {
        n
    };
    if e >= n {
        return None;
    }
    Some(match w.shape {
        LIST => i + 1,
        LEAF_NEXT => {
            if e == 1 {
                i + 1
            }
            else {
                l + i
            }
        },
        NEXT_LEAF => {
            if e == 0 {
                i + 1
            }
            else {
                l + i
            }
        },
        LADDER => i + 1,
        CYCLE => {
            if last {
                0
            }
            else {
                i + 1
            }
        },
        STAR => i + 1 + e,
        DOUBLY => {
            if e == 0 {
                if last {
                    0
                }
                else {
                    i + 1
                }
            }
            else if i == 0 {
                l - 1
            }
            else {
                i - 1
            }
        },
        LADDER_CYCLE => {
            if last {
                0
            }
            else {
                i + 1
            }
        },
        // a binary heap
        _ => {
            let c = 2 * i + 1 + e;
            if e < 2 && c < l {
                c
            }
            else {
                3 * l
            }
        },
    })
}

fn local(
    b: &BN,
    a: &BN,
) -> V
{
    if odd(b.side, b.i, LABEL) || odd(a.side, a.i, LABEL) {
        V(7)
    }
    else {
        V(0)
    }
}

impl Node for BN
{
    type Cmp = V;
    type Id = u32;
    type Index = u32;

    fn id(&self) -> u32
    {
        note_sp();
        if odd(self.side, self.i, IDENTICAL) {
            2 * self.i
        }
        else {
            2 * self.i + u32::from(self.side)
        }
    }

    fn get_edge(
        &self,
        index: &u32,
    ) -> Option<Self>
    {
        note_sp();
        edge(self.side, self.i, *index).map(|i| BN::new(self.side, i))
    }

    fn equiv_modulo_edges(
        &self,
        other: &Self,
    ) -> V
    {
        note_sp();
        let w = w();
        w.neq += 1;
        w.trace = w.trace.wrapping_mul(31) ^ (u64::from(self.i) << 32 | u64::from(other.i));
        if !w.quiet {
            chk(3, 2, w.neq <= w.cap);
        }
        local(other, self)
    }
}

/// What a comparison of graphs without cycles and sharing has to do.
struct Ref
{
    trav:  u64,
    neq:   u64,
    trace: u64,
    val:   V,
}

const QMAX: usize = 1 << 17;
static mut Q: [(u32, u32, u32); QMAX] = [(0, 0, 0); QMAX];

/// Goes through the pairs in order until the first difference.
#[allow(static_mut_refs)]
fn reference(breadth: bool) -> Ref
{
    let mut r = Ref { trav: 0, neq: 0, trace: 7, val: V(0) };
    let q = unsafe { &mut Q };
    let (mut h, mut t) = (0usize, 0usize);

    // None: ends
    fn visit(
        r: &mut Ref,
        a: u32,
        b: u32,
    ) -> Option<bool>
    {
        r.trav += 1;
        if a == b && odd(1, b, IDENTICAL) {
            return Some(false);
        }
        r.neq += 1;
        r.trace = r.trace.wrapping_mul(31) ^ (u64::from(a) << 32 | u64::from(b));
        if odd(1, b, LABEL) {
            r.val = V(7);
            return None;
        }
        sibling(r, a, b, 0)
    }
    fn sibling(
        r: &mut Ref,
        a: u32,
        b: u32,
        e: u32,
    ) -> Option<bool>
    {
        match (edge(0, a, e), edge(1, b, e)) {
            (Some(_), Some(_)) => Some(true),
            (None, None) => Some(false),
            (x, _) => {
                r.val = V(if x.is_some() { GREATER } else { LESS });
                None
            },
        }
    }

    match visit(&mut r, 0, 0) {
        Some(true) => {
            q[t] = (0, 0, 0);
            t += 1;
        },
        _ => return r,
    }
    while h < t {
        let k = if breadth { h } else { t - 1 };
        let (a, b, e) = q[k];
        // the next edge exists
        let (x, y) = (edge(0, a, e).unwrap_or(0), edge(1, b, e).unwrap_or(0));
        q[k].2 = e + 1;
        let deeper = match visit(&mut r, x, y) {
            None => return r,
            Some(d) => d,
        };
        if breadth {
            if deeper {
                q[t] = (x, y, 0);
                t += 1;
            }
            match sibling(&mut r, a, b, e + 1) {
                None => return r,
                Some(true) => {},
                Some(false) => h += 1,
            }
        }
        else if deeper {
            q[t] = (x, y, 0);
            t += 1;
        }
        else {
            while h < t {
                let (a, b, e) = q[t - 1];
                match sibling(&mut r, a, b, e) {
                    None => return r,
                    Some(true) => break,
                    Some(false) => t -= 1,
                }
            }
        }
    }
    r
}

fn acyclic(shape: u64) -> bool
{
    matches!(shape, LIST | LEAF_NEXT | NEXT_LEAF | LADDER | STAR | COMB)
}

/// No node reached twice (so that the reference above does not blow up).
fn tree_like(shape: u64) -> bool
{
    acyclic(shape) && shape != LADDER
}

fn init(
    shape: u64,
    la: u64,
    lb: u64,
    kinds: u64,
)
{
    let w = w();
    w.shape = shape;
    w.len = [la, lb];
    // (kinds from 10 up: the irregularity is among that many tens of the last nodes)
    w.kind = choose(key(31, 0, 0), kinds % 10);
    w.window = kinds / 10;
    if w.kind == IDENTICAL && !tree_like(shape) {
        // which of the pairs with the node would be the identical one is ambiguous
        assume(pos() == lb);
    }
    reset();
}

/// The value that the comparison must have; the irregularity, if reachable, is the only difference.
fn expected() -> V
{
    let w = w();
    let l = w.len[1];
    let p = pos();
    if p == l {
        return V(0);
    }
    let last = p + 1 == l;
    match w.kind {
        LABEL => V(7),
        NO_EDGES | LESS_EDGES => {
            // nodes without edges cannot lose any
            let none = match w.shape {
                LIST | LEAF_NEXT | NEXT_LEAF | LADDER => last,
                STAR => p > 0 || l == 1,
                COMB => 2 * p + 1 >= l,
                _ => false,
            };
            V(if none { 0 } else { GREATER })
        },
        MORE_EDGES => V(LESS),
        _ => V(0),
    }
}

fn run(how: u64) -> V
{
    let (a, b) = (BN::new(0, 0), BN::new(1, 0));
    if how < 100 {
        variants::premade(how, a, b)
    }
    else if how < 10_000 {
        let hash = how >= 1000;
        let h = how % 1000;
        variants::interleave(h / 100 - 1, h % 100, hash, a, b)
    }
    else {
        let h = how - 10_000;
        variants::precheck(h / 100, h % 100, a, b)
    }
}

fn covers(r: V)
{
    match r.0 {
        0 => cover(1),
        LESS => cover(3),
        GREATER => cover(4),
        _ => cover(5),
    }
}

fn emits(r: V)
{
    emit(1, u64::from(r.0));
    emit(2, w().neq);
    emit(3, w().trace);
    emit(4, w().maxlive);
}

/// A premade or generic comparison.
#[cfg(feature = "big")]
#[no_mangle]
pub extern "C" fn big(
    mask: u64,
    how: u64,
    shape: u64,
    la: u64,
    lb: u64,
    kinds: u64,
)
{
    unsafe { MASK = mask };
    init(shape, la, lb, kinds);
    let (pre, fast, slow, rm, _) = crate::pool::about(how);
    if how > 2 {
        // every node is a branch node
        let v = la + lb;
        w().cap = 2 + 2 * (v + v / slow.max(1) * (fast + 2)) + pre;
    }
    let h0 = heap();
    let r = run(how);
    w().quiet = true;
    chk(16, 2, w().live == 0);
    chk(16, 3, heap() == h0);
    if rm != variants::CALLSTACK || how == 1 || how == 2 {
        chk(17, 1, w().sp0 - w().spmin <= STACK_CAP);
    }
    covers(r);
    emits(r);
    let bf = if how < 100 { variants::breadth_first(how) } else { rm == variants::QUEUE };
    let st = if how < 100 { how == 2 } else { rm == variants::STACK };
    if on(16) {
        // lists with the tail last, and what is wide but lazy
        if (st && matches!(shape, LIST | LEAF_NEXT | STAR)) || (bf && matches!(shape, LIST | STAR | LEAF_NEXT | NEXT_LEAF))
        {
            let extra = if how >= 5 && how < 100 || how >= 10_000 { 2 } else { 0 };
            check(w().maxlive <= 24 + extra, 1604);
        }
        // one per level
        if st && shape == COMB {
            check(w().maxlive <= 2 * 24 + 24, 1605);
        }
    }
    let x = expected();
    let same = (r.0 == 0) == (x.0 == 0);
    chk(1, 2, same);
    chk(2, 3, same);
    if on(4) {
        check(r.0 == x.0, 406);
        if tree_like(shape) && how < 3 {
            let y = reference(bf);
            check(r.0 == y.val.0, 407);
            check(w().neq == y.neq && w().trace == y.trace, 408);
        }
    }
}

/// A limited comparison with every limit.
#[cfg(feature = "big_limited")]
#[no_mangle]
pub extern "C" fn big_limited(
    mask: u64,
    rm: u64,
    ticker: u64,
    shape: u64,
    l: u64,
    kinds: u64,
)
{
    unsafe { MASK = mask };
    init(shape, l, l, kinds);
    let bits = if ticker == 128 || ticker == 0 { 64 } else { ticker };
    let lo = var(key(5, 0, 0), bits);
    let hi = if ticker == 128 { var(key(5, 1, 0), 64) } else { 0 };
    let h0 = heap();
    let r = variants::limited(rm, ticker, lo, hi, BN::new(0, 0), BN::new(1, 0));
    w().quiet = true;
    chk(16, 2, w().live == 0);
    chk(16, 3, heap() == h0);
    if rm != variants::CALLSTACK {
        chk(17, 1, w().sp0 - w().spmin <= STACK_CAP);
    }
    let v = match r {
        Some(v) => u64::from(v.0),
        None => 1000,
    };
    emit(1, v);
    emit(2, w().neq);
    match r {
        Some(V(0)) => cover(1),
        Some(_) => cover(2),
        None => cover(3),
    }
    if on(8) {
        if tree_like(shape) {
            let y = reference(rm == variants::QUEUE);
            let fits = hi > 0 || lo >= y.trav;
            check(r.is_some() == fits, 804);
            if let Some(v) = r {
                check(v.0 == y.val.0, 805);
                check(w().neq == y.neq && w().trace == y.trace, 806);
            }
            else {
                // all that fit were examined (an identical pair is only traversed)
                check(w().neq == lo || w().neq + 1 == lo, 807);
                cover(4);
            }
        }
        else {
            // never equivalent within the limit, unless a difference was found
            check(w().neq <= lo || hi > 0, 808);
            match r {
                None => check(w().neq == lo, 809),
                Some(v) => check(v.0 != 0, 810),
            }
        }
    }
}

/// With and without precheck.
#[cfg(feature = "big_precheck")]
#[no_mangle]
pub extern "C" fn big_precheck(
    mask: u64,
    how_pre: u64,
    how: u64,
    shape: u64,
    la: u64,
    lb: u64,
    kinds: u64,
)
{
    unsafe { MASK = mask };
    init(shape, la, lb, kinds);
    let r = run(how_pre);
    covers(r);
    emits(r);
    let n = w().neq;
    reset();
    let x = run(how);
    if n > w().neq {
        cover(6);
    }
    chk(7, 3, r.0 == x.0);
    chk(7, 4, r.0 == expected().0);
}
