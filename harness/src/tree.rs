//! Pairs of graphs seen as their unfolding: a position is a sequence of edge indexes, created
//! when first asked for.  At every position the outcome of the local comparison, the number of
//! edges of each of the two nodes and whether they are the identical node are symbolic.

use {
    crate::{
        lsx::*,
        val::*,
        variants,
    },
    graph_safe_compare::Node,
};

pub const DMAX: usize = 3;
pub const KMAX: usize = 48;

pub struct World
{
    pub n:      usize,
    pub k:      usize,
    pub d:      u64,
    /// local results come from two labels instead of being one arbitrary value
    pub labels: bool,
    /// no identical nodes
    pub noid:   bool,
    pub kids:   [[u16; DMAX]; KMAX],
    pub parent: [u16; KMAX],
    pub pidx:   [u8; KMAX],
    pub depth:  [u16; KMAX],
    // monitors of the current run
    pub swap:   bool,
    pub quiet:  bool,
    pub rec:    u64,
    pub neq:    usize,
    pub eqs:    [u16; KMAX],
    pub eqd:    [bool; KMAX],
    pub last:   [[i8; KMAX]; 2],
    pub cnt:    [[u8; KMAX]; 2],
    pub ans:    [[bool; KMAX]; 2],
    pub miss:   [u8; KMAX],
    pub vis:    [u8; KMAX],
    pub live:   u64,
    pub sp0:    u64,
    pub spmin:  u64,
}

pub static mut W: World = World {
    n:      0,
    k:      0,
    d:      0,
    labels: false,
    noid:   false,
    kids:   [[0; DMAX]; KMAX],
    parent: [0; KMAX],
    pidx:   [0; KMAX],
    depth:  [0; KMAX],
    swap:   false,
    quiet:  false,
    rec:    0,
    neq:    0,
    eqs:    [0; KMAX],
    eqd:    [false; KMAX],
    last:   [[-1; KMAX]; 2],
    cnt:    [[0; KMAX]; 2],
    ans:    [[false; KMAX]; 2],
    miss:   [255; KMAX],
    vis:    [0; KMAX],
    live:   0,
    sp0:    0,
    spmin:  0,
};

#[allow(static_mut_refs)]
pub fn w() -> &'static mut World
{
    unsafe { &mut W }
}

pub fn init(
    k: u64,
    d: u64,
    labels: bool,
    noid: bool,
)
{
    let w = w();
    w.n = 1;
    w.k = k as usize;
    w.d = d;
    w.labels = labels;
    w.noid = noid;
    reset();
}

/// Forget what the monitors saw, keep the graphs.
pub fn reset()
{
    let w = w();
    w.neq = 0;
    w.eqd = [false; KMAX];
    w.last = [[-1; KMAX]; 2];
    w.cnt = [[0; KMAX]; 2];
    w.ans = [[false; KMAX]; 2];
    w.miss = [255; KMAX];
    w.vis = [0; KMAX];
    w.sp0 = sp();
    w.spmin = w.sp0;
}

pub fn same(p: u16) -> bool
{
    !w().noid && var(key(1, u64::from(p), 0), 1) == 1
}

pub fn deg(
    side: u8,
    p: u16,
) -> u64
{
    range(key(2, u64::from(p), u64::from(side)), w().d + 1)
}

/// The value of the local comparison at a position.
pub fn local(
    p: u16,
    swapped: bool,
) -> V
{
    if w().labels {
        let a = var(key(4, u64::from(p), 0), 2);
        let b = var(key(4, u64::from(p), 1), 2);
        let (a, b) = if swapped { (b, a) } else { (a, b) };
        V(ite(a == b, 0, ite(a < b, LAB_LESS, LAB_GREATER)) as u8)
    }
    else {
        V(var(key(3, u64::from(p), 0), 8) as u8)
    }
}

/// Whether the node has an edge at the index (beyond the bound there are no further edges).
pub fn has(
    side: u8,
    p: u16,
    i: u8,
) -> bool
{
    let w = w();
    let d = deg(side, p);
    if u64::from(i) >= w.d {
        return false;
    }
    if w.kids[p as usize][i as usize] == 0 && w.n == w.k {
        assume(d <= u64::from(i));
        return false;
    }
    u64::from(i) < d
}

pub fn child(
    p: u16,
    i: u8,
) -> u16
{
    let w = w();
    let c = &mut w.kids[p as usize][i as usize];
    if *c == 0 {
        *c = w.n as u16;
        w.parent[w.n] = p;
        w.pidx[w.n] = i;
        w.depth[w.n] = w.depth[p as usize] + 1;
        w.n += 1;
    }
    *c
}

pub struct TN
{
    pub side: u8,
    pub pos:  u16,
}

impl TN
{
    pub fn new(
        side: u8,
        pos: u16,
    ) -> Self
    {
        w().live += 1;
        TN { side, pos }
    }
}

impl Clone for TN
{
    fn clone(&self) -> Self
    {
        note_sp();
        TN::new(self.side, self.pos)
    }
}

impl Drop for TN
{
    fn drop(&mut self)
    {
        note_sp();
        w().live -= 1;
    }
}

fn note_sp()
{
    let s = sp();
    let w = w();
    if s < w.spmin {
        w.spmin = s;
    }
}

impl Node for TN
{
    type Cmp = V;
    type Id = u32;
    type Index = u8;

    fn id(&self) -> u32
    {
        note_sp();
        if self.side == 1 && conc(u64::from(same(self.pos))) == 0 {
            2 * u32::from(self.pos) + 1
        }
        else {
            2 * u32::from(self.pos)
        }
    }

    fn get_edge(
        &self,
        index: &u8,
    ) -> Option<Self>
    {
        note_sp();
        let w = w();
        let i = *index;
        let p = self.pos as usize;
        let s = self.side as usize;
        chk(19, 1, !same(self.pos));
        if on(9) && !w.quiet {
            let last = w.last[s][p];
            if i as i8 == last {
                w.cnt[s][p] += 1;
            }
            else {
                // the next index, and only after an edge was found at the one before
                check(i32::from(i) == i32::from(last) + 1, 901);
                check(i == 0 || w.ans[s][p], 902);
                w.last[s][p] = i as i8;
                w.cnt[s][p] = 1;
            }
            check(w.cnt[s][p] <= 2, 903);
            check(i <= w.miss[p], 904);
            check(w.eqd[p], 905);
        }
        let r = has(self.side, self.pos, i);
        w.ans[s][p] = r;
        if r {
            Some(TN::new(self.side, child(self.pos, i)))
        }
        else {
            if w.miss[p] > i {
                w.miss[p] = i;
            }
            None
        }
    }

    fn equiv_modulo_edges(
        &self,
        other: &Self,
    ) -> V
    {
        note_sp();
        let w = w();
        let p = self.pos;
        let left = u8::from(w.swap);
        chk(19, 2, !same(p));
        if !w.quiet {
            chk(9, 11, self.side == left && other.side == 1 - left);
            chk(9, 12, self.pos == other.pos);
            chk(9, 13, !w.eqd[p as usize]);
        }
        w.eqd[p as usize] = true;
        if on(16) && w.rec != variants::CALLSTACK {
            check(w.live <= 4 * pending(p) + 4, 1601);
        }
        if w.neq < KMAX {
            w.eqs[w.neq] = p;
        }
        w.neq += 1;
        local(p, w.swap)
    }
}

/// How many sets of siblings may be pending when `p` is being compared.
fn pending(p: u16) -> u64
{
    let w = w();
    let mut n = 0;
    if w.rec == variants::STACK {
        // one per level that still has an unvisited sibling (or a missing one on one side)
        let mut q = p;
        while q != 0 {
            let par = w.parent[q as usize];
            let i = w.pidx[q as usize] + 1;
            if has(0, par, i) || has(1, par, i) {
                n += 1;
            }
            q = par;
        }
    }
    else {
        // one per compared pair that still has an unvisited child
        if p != 0 {
            let par = w.parent[p as usize] as usize;
            w.vis[par] = w.pidx[p as usize] + 1;
        }
        for q in 0 .. w.n {
            if w.eqd[q] && q != p as usize {
                let i = w.vis[q];
                if has(0, q as u16, i) || has(1, q as u16, i) {
                    n += 1;
                }
            }
        }
    }
    n
}

/// What a comparison has to do, computed directly from the symbolic data.
pub struct Ref
{
    /// pairs traversed
    pub trav: usize,
    /// local comparisons done
    pub neq:  usize,
    pub eqs:  [u16; KMAX],
    pub val:  V,
    /// the limit was exceeded
    pub over: bool,
}

pub enum Lim
{
    No,
    /// low and high half
    Yes(u64, u64),
}

impl Ref
{
    fn new() -> Self
    {
        Ref { trav: 0, neq: 0, eqs: [0; KMAX], val: V(0), over: false }
    }

    /// Traverses the pair. `None` to end the comparison with what `self` says.
    fn visit(
        &mut self,
        p: u16,
        lim: &Lim,
    ) -> Option<bool>
    {
        if let Lim::Yes(lo, hi) = lim {
            if *hi == 0 && *lo <= self.trav as u64 {
                self.over = true;
                return None;
            }
        }
        self.trav += 1;
        if same(p) {
            return Some(false);
        }
        if self.neq < KMAX {
            self.eqs[self.neq] = p;
        }
        self.neq += 1;
        let v = local(p, w().swap);
        if v.0 != 0 {
            self.val = v;
            return None;
        }
        self.sibling(p, 0)
    }

    /// Whether there is a pair of edges at the index; `None` if only one side has one.
    fn sibling(
        &mut self,
        p: u16,
        i: u8,
    ) -> Option<bool>
    {
        let left = u8::from(w().swap);
        match (has(left, p, i), has(1 - left, p, i)) {
            (true, true) => Some(true),
            (false, false) => Some(false),
            (l, _) => {
                self.val = V(if l { GREATER } else { LESS });
                None
            },
        }
    }

    fn dfs(
        &mut self,
        p: u16,
        lim: &Lim,
    ) -> Option<()>
    {
        if self.visit(p, lim)? {
            let mut i = 0;
            loop {
                self.dfs(child(p, i), lim)?;
                i += 1;
                if !self.sibling(p, i)? {
                    break;
                }
            }
        }
        Some(())
    }

    fn bfs(
        &mut self,
        lim: &Lim,
    ) -> Option<()>
    {
        let mut q = [0u16; KMAX];
        let mut h = 0;
        let mut t = 0;
        if self.visit(0, lim)? {
            q[t] = 0;
            t += 1;
        }
        while h < t {
            let p = q[h];
            h += 1;
            let mut i = 0;
            loop {
                let c = child(p, i);
                if self.visit(c, lim)? {
                    q[t] = c;
                    t += 1;
                }
                i += 1;
                if !self.sibling(p, i)? {
                    break;
                }
            }
        }
        Some(())
    }
}

pub fn reference(
    breadth: bool,
    lim: Lim,
) -> Ref
{
    let mut r = Ref::new();
    if breadth {
        let _ = r.bfs(&lim);
    }
    else {
        let _ = r.dfs(0, &lim);
    }
    r
}

pub fn roots() -> (TN, TN)
{
    let s = u8::from(w().swap);
    (TN::new(s, 0), TN::new(1 - s, 0))
}

fn same_trace(r: &Ref) -> bool
{
    let w = w();
    if w.neq != r.neq {
        return false;
    }
    let mut i = 0;
    while i < r.neq && i < KMAX {
        if w.eqs[i] != r.eqs[i] {
            return false;
        }
        i += 1;
    }
    true
}

pub fn emit_trace(v: u64)
{
    let w = w();
    emit(1, v);
    emit(2, w.neq as u64);
    let mut h = 7u64;
    let mut i = 0;
    while i < w.neq && i < KMAX {
        h = h.wrapping_mul(31) ^ u64::from(w.eqs[i]);
        i += 1;
    }
    emit(3, h);
    emit(4, w.n as u64);
}

/// The most call-stack that a comparison which is independent of the shape may use.
pub const STACK_CAP: u64 = 6 * 1024;

/// One of the premade functions over every unfolding within the bounds.
#[cfg(feature = "tree")]
#[no_mangle]
pub extern "C" fn tree(
    mask: u64,
    variant: u64,
    k: u64,
    d: u64,
)
{
    unsafe { MASK = mask };
    init(k, d, false, false);
    let h0 = heap();
    w().rec = match variant {
        1 | 4 => variants::QUEUE,
        2 => variants::STACK,
        _ => variants::CALLSTACK,
    };
    let r = {
        let (a, b) = roots();
        variants::premade(variant, a, b)
    };
    finish(h0);
    w().quiet = true;
    let x = reference(variants::breadth_first(variant), Lim::No);
    chk(2, 1, (r.0 == 0) == (x.val.0 == 0));
    chk(4, 1, r.0 == x.val.0);
    chk(4, 2, same_trace(&x));
    if r.0 == 0 {
        cover(1);
        if w().n == w().k {
            cover(2);
        }
    }
    else if r.0 == LESS {
        cover(3);
    }
    else if r.0 == GREATER {
        cover(4);
    }
    else {
        cover(5);
    }
    emit_trace(u64::from(r.0));
}

pub fn finish(h0: u64)
{
    chk(16, 2, w().live == 0);
    chk(16, 3, heap() == h0);
    chk(17, 1, w().sp0 - w().spmin <= STACK_CAP);
}

/// One of the limited functions, with every limit.
#[cfg(feature = "tree_limited")]
#[no_mangle]
pub extern "C" fn tree_limited(
    mask: u64,
    rm: u64,
    ticker: u64,
    k: u64,
    d: u64,
)
{
    unsafe { MASK = mask };
    init(k, d, false, false);
    let h0 = heap();
    let bits = if ticker == 128 || ticker == 0 { 64 } else { ticker };
    let lo = var(key(5, 0, 0), bits);
    let hi = if ticker == 128 { var(key(5, 1, 0), 64) } else { 0 };
    w().rec = rm;
    let r = {
        let (a, b) = roots();
        variants::limited(rm, ticker, lo, hi, a, b)
    };
    finish(h0);
    w().quiet = true;
    let x = reference(rm == variants::QUEUE, Lim::Yes(lo, hi));
    chk(8, 1, r.is_none() == x.over);
    chk(8, 2, same_trace(&x));
    match r {
        Some(v) => {
            chk(8, 3, v.0 == x.val.0);
            if v.0 == 0 {
                cover(1)
            }
            else {
                cover(2)
            }
            if ticker > 8 && lo > 300 {
                cover(5);
            }
        },
        None => {
            cover(3);
            if lo == 0 {
                cover(4)
            }
        },
    }
    emit_trace(match r {
        Some(v) => u64::from(v.0),
        None => 1000,
    });
}

/// How a comparison of unfoldings is run: below 100 a premade function, 100 + recursion mode a
/// limited one with a symbolic 8-bit limit.
fn run(how: u64) -> Option<V>
{
    let (a, b) = roots();
    if how < 100 {
        #[cfg(feature = "tree_premade")]
        return Some(variants::premade(how, a, b));
    }
    else {
        #[cfg(feature = "tree_lim")]
        return variants::limited(how - 100, 8, var(key(5, 0, 0), 8), 0, a, b);
    }
    #[allow(unreachable_code)]
    {
        unreachable!()
    }
}

/// Both ways around.
#[cfg(feature = "tree_swap")]
#[no_mangle]
pub extern "C" fn tree_swap(
    mask: u64,
    how: u64,
    k: u64,
    d: u64,
)
{
    unsafe { MASK = mask };
    init(k, d, true, false);
    w().quiet = true;
    let x = run(how);
    emit_trace(x.map_or(1000, |v| u64::from(v.0)));
    let (n, t) = (w().neq, w().eqs);
    reset();
    w().swap = true;
    let y = run(how);
    match (x, y) {
        (Some(x), Some(y)) => {
            chk(5, 3, mirrored(x, y));
            match x.0 {
                0 => cover(1),
                LESS | GREATER => cover(2),
                _ => cover(3),
            }
        },
        (x, y) => {
            chk(5, 4, x.is_none() && y.is_none());
            cover(4);
        },
    }
    chk(5, 5, n == w().neq);
    let mut same = true;
    for i in 0 .. n.min(KMAX) {
        same &= t[i] == w().eqs[i];
    }
    chk(5, 6, same);
}

/// A type of results made from a `V`.
pub trait FromV: graph_safe_compare::Cmp
{
    fn from_v(v: V) -> Self;
    /// 0 equivalent, 1 less, 2 greater, 3 only known to be different
    fn code(&self) -> u64;
}
impl FromV for bool
{
    fn from_v(v: V) -> bool
    {
        v.0 == 0
    }
    fn code(&self) -> u64
    {
        if *self {
            0
        }
        else {
            3
        }
    }
}
impl FromV for core::cmp::Ordering
{
    fn from_v(v: V) -> Self
    {
        let x = u64::from(v.0);
        (ite(x == LAB_GREATER, 2, ite(x == LAB_LESS, 0, 1)) as u8).cmp(&1)
    }
    fn code(&self) -> u64
    {
        match *self {
            core::cmp::Ordering::Equal => 0,
            core::cmp::Ordering::Less => 1,
            core::cmp::Ordering::Greater => 2,
        }
    }
}

/// A node with another type of results.
pub struct CN<C>(TN, core::marker::PhantomData<C>);

impl<C> Clone for CN<C>
{
    fn clone(&self) -> Self
    {
        CN(self.0.clone(), core::marker::PhantomData)
    }
}

impl<C: FromV> Node for CN<C>
{
    type Cmp = C;
    type Id = u32;
    type Index = u8;

    fn id(&self) -> u32
    {
        self.0.id()
    }
    fn get_edge(
        &self,
        index: &u8,
    ) -> Option<Self>
    {
        self.0.get_edge(index).map(|n| CN(n, core::marker::PhantomData))
    }
    fn equiv_modulo_edges(
        &self,
        other: &Self,
    ) -> C
    {
        C::from_v(self.0.equiv_modulo_edges(&other.0))
    }
}

#[cfg(feature = "tree_cmp")]
fn cmp_as<C: FromV>(how: u64) -> Option<u64>
{
    use graph_safe_compare as g;
    let (a, b) = roots();
    let (a, b) = (CN::<C>(a, core::marker::PhantomData), CN::<C>(b, core::marker::PhantomData));
    let lim = || var(key(5, 0, 0), 8) as u8;
    let r = match how {
        0 => Some(g::basic::equiv(a, b)),
        1 => Some(g::deep_safe::equiv(a, b)),
        2 => Some(g::wide_safe::equiv(a, b)),
        3 => Some(g::cycle_safe::equiv(a, b)),
        4 => Some(g::robust::equiv(a, b)),
        5 => Some(g::cycle_safe::precheck_equiv(a, b)),
        6 => Some(g::robust::precheck_equiv(a, b)),
        100 => g::basic::limited_equiv(lim(), a, b).ok(),
        101 => g::deep_safe::limited_equiv(lim(), a, b).ok(),
        _ => g::wide_safe::limited_equiv(lim(), a, b).ok(),
    };
    r.map(|c| c.code())
}

/// With `bool` and `Ordering` as the type of results.
#[cfg(feature = "tree_cmp")]
#[no_mangle]
pub extern "C" fn tree_cmp(
    mask: u64,
    how: u64,
    k: u64,
    d: u64,
    boolean: u64,
)
{
    unsafe { MASK = mask };
    init(k, d, true, false);
    w().quiet = true;
    let r = if boolean != 0 { cmp_as::<bool>(how) } else { cmp_as::<core::cmp::Ordering>(how) };
    let lim = if how >= 100 { Lim::Yes(var(key(5, 0, 0), 8), 0) } else { Lim::No };
    let bf = if how >= 100 { how == 101 } else { variants::breadth_first(how) };
    emit_trace(r.unwrap_or(1000));
    let x = reference(bf, lim);
    let want = if x.over {
        cover(4);
        None
    }
    else {
        Some(match x.val.0 {
            0 => {
                cover(1);
                0
            },
            v => {
                cover(if v == LESS || v == GREATER { 2 } else { 3 });
                if boolean != 0 {
                    3
                }
                else if v == LESS || u64::from(v) == LAB_LESS {
                    1
                }
                else {
                    2
                }
            },
        })
    };
    chk(2, 5, (r == Some(0)) == (want == Some(0)));
    chk(2, 6, r == want || (r.is_some() && want.is_some()));
    chk(4, 5, r == want);
    chk(8, 15, r == want);
    chk(4, 6, same_trace(&x));
}
