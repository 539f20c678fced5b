//! Arbitrary finite graphs: a pool of nodes shared by both graphs.  The number of edges of a node
//! and the node that each edge leads to are unconstrained symbolic choices, made when first asked
//! for (every way of choosing is explored, up to renaming of nodes); labels are symbolic.

use {
    crate::{
        lsx::*,
        val::*,
        variants,
    },
    graph_safe_compare::Node,
};

pub const NMAX: usize = 10;
pub const DMAX: usize = 3;
pub const UNKNOWN: u8 = 255;

pub struct World
{
    pub nmax:    usize,
    pub n:       usize,
    /// edges still to give
    pub budget:  u64,
    pub d:       u64,
    pub bits:    u64,
    pub acyclic: bool,
    pub deg:     [u8; NMAX],
    pub tgt:     [[u8; DMAX]; NMAX],
    // monitors
    pub neq:     u64,
    pub gets:    u64,
    pub cap_s:   u64,
    pub cap_f:   u64,
    pub cap_add: u64,
    pub capped:  bool,
    pub bipart:  bool,
    pub live:    u64,
    pub sp0:     u64,
    pub spmin:   u64,
    pub trace:   u64,
}

pub static mut W: World = World {
    nmax:    0,
    n:       0,
    budget:  0,
    d:       0,
    bits:    1,
    acyclic: false,
    deg:     [UNKNOWN; NMAX],
    tgt:     [[UNKNOWN; DMAX]; NMAX],
    neq:     0,
    gets:    0,
    cap_s:   1,
    cap_f:   0,
    cap_add: 0,
    capped:  false,
    bipart:  false,
    live:    0,
    sp0:     0,
    spmin:   0,
    trace:   7,
};

#[allow(static_mut_refs)]
pub fn w() -> &'static mut World
{
    unsafe { &mut W }
}

pub fn init(
    n: u64,
    edges: u64,
    d: u64,
    bits: u64,
    acyclic: bool,
    roots: usize,
)
{
    let w = w();
    w.nmax = n as usize;
    w.n = roots;
    w.budget = edges;
    w.d = d;
    w.bits = bits;
    w.acyclic = acyclic;
    reset();
}

pub fn reset()
{
    let w = w();
    w.neq = 0;
    w.trace = 7;
    w.sp0 = sp();
    w.spmin = w.sp0;
}

pub fn label(n: u8) -> u64
{
    var(key(20, u64::from(n), 0), w().bits)
}

pub fn local(
    a: u8,
    b: u8,
) -> V
{
    let (a, b) = (label(a), label(b));
    V(ite(a == b, 0, ite(a < b, LAB_LESS, LAB_GREATER)) as u8)
}

pub fn deg(n: u8) -> u8
{
    let w = w();
    let i = n as usize;
    if w.deg[i] == UNKNOWN {
        let m = w.d.min(w.budget);
        let c = choose(key(21, u64::from(n), 0), m + 1);
        w.budget -= c;
        w.deg[i] = c as u8;
    }
    w.deg[i]
}

/// Whether `to` can be reached from `from` by the edges known so far.
fn reaches(
    from: u8,
    to: u8,
) -> bool
{
    let w = w();
    let mut seen = [false; NMAX];
    let mut st = [0u8; NMAX];
    let mut t = 1;
    st[0] = from;
    seen[from as usize] = true;
    while t > 0 {
        t -= 1;
        let x = st[t];
        if x == to {
            return true;
        }
        let mut i = 0;
        while i < DMAX {
            let y = w.tgt[x as usize][i];
            if y != UNKNOWN && !seen[y as usize] {
                seen[y as usize] = true;
                st[t] = y;
                t += 1;
            }
            i += 1;
        }
    }
    false
}

pub fn target(
    n: u8,
    i: u8,
) -> u8
{
    let w = w();
    if w.tgt[n as usize][i as usize] == UNKNOWN {
        let mut opts = [0u8; NMAX + 1];
        let mut m = 0;
        let mut x = 0;
        while x < w.n {
            if !(w.acyclic && reaches(x as u8, n)) {
                opts[m] = x as u8;
                m += 1;
            }
            x += 1;
        }
        if w.n < w.nmax {
            opts[m] = w.n as u8;
            m += 1;
        }
        let c = choose(key(22, u64::from(n), u64::from(i)), m as u64) as usize;
        let t = opts[c];
        if t as usize == w.n {
            w.n += 1;
        }
        w.tgt[n as usize][i as usize] = t;
    }
    w.tgt[n as usize][i as usize]
}

pub fn known(
    n: u8,
    i: u8,
) -> bool
{
    w().tgt[n as usize][i as usize] != UNKNOWN
}

/// A handle of a node, which knows how it was reached.
pub struct PN
{
    pub n: u8,
    side:  u8,
    path:  u64,
    /// edge last asked for, how often, at which one was missing, times compared
    st:    core::cell::Cell<(u8, u8, u8, u8)>,
}

const FRESH: (u8, u8, u8, u8) = (255, 0, 255, 0);

impl PN
{
    pub fn root(
        n: u8,
        side: u8,
    ) -> Self
    {
        PN::new(n, side, 0)
    }

    fn new(
        n: u8,
        side: u8,
        path: u64,
    ) -> Self
    {
        w().live += 1;
        PN { n, side, path, st: core::cell::Cell::new(FRESH) }
    }

    fn asked(
        &self,
        index: u8,
        there: bool,
    )
    {
        if on(9) {
            let (last, times, miss, compared) = self.st.get();
            let times = if last == index { times + 1 } else { 1 };
            chk(9, 21, times <= 2);
            chk(9, 22, last == index || index == last.wrapping_add(1));
            chk(9, 23, index <= miss);
            self.st.set((index, times, if there { miss } else { index }, compared));
        }
    }

    fn compared(
        &self,
        other: &Self,
    )
    {
        if on(9) {
            chk(9, 24, self.side == 0 && other.side == 1);
            chk(9, 25, self.path == other.path);
            for x in [self, other] {
                let (last, times, miss, compared) = x.st.get();
                chk(9, 26, compared == 0);
                x.st.set((last, times, miss, 1));
            }
        }
    }
}

impl Clone for PN
{
    fn clone(&self) -> Self
    {
        note_sp();
        PN::new(self.n, self.side, self.path)
    }
}

impl Drop for PN
{
    fn drop(&mut self)
    {
        note_sp();
        w().live -= 1;
    }
}

fn note_sp()
{
    let s = sp();
    let w = w();
    if s < w.spmin {
        w.spmin = s;
    }
}

/// The most local comparisons that may have been done so far.
fn cap() -> u64
{
    let w = w();
    let mut v = 0;
    let mut i = 0;
    while i < w.n {
        if w.deg[i] != UNKNOWN && w.deg[i] > 0 {
            v += 1;
        }
        i += 1;
    }
    // At most v - 1 pairs of branch nodes are found to be not known, and each time `cap_s` of
    // them were found consecutively a fast phase of at most `cap_f` + 1 descends without asking.
    let descents = v + v / w.cap_s * (w.cap_f + 2);
    2 + w.d * descents + w.cap_add
}

impl Node for PN
{
    type Cmp = V;
    type Id = u32;
    type Index = u8;

    fn id(&self) -> u32
    {
        note_sp();
        u32::from(self.n)
    }

    fn get_edge(
        &self,
        index: &u8,
    ) -> Option<Self>
    {
        note_sp();
        w().gets += 1;
        let there = *index < deg(self.n);
        self.asked(*index, there);
        if there {
            let path = self.path.wrapping_mul(4).wrapping_add(u64::from(*index) + 1);
            Some(PN::new(target(self.n, *index), self.side, path))
        }
        else {
            None
        }
    }

    fn equiv_modulo_edges(
        &self,
        other: &Self,
    ) -> V
    {
        note_sp();
        let w = w();
        w.neq += 1;
        w.trace = w.trace.wrapping_mul(31) ^ (u64::from(self.n) << 8 | u64::from(other.n));
        self.compared(other);
        if w.capped {
            chk(3, 1, w.neq <= cap());
        }
        chk(19, 3, self.n != other.n);
        local(self.n, other.n)
    }
}

/// Whether the two nodes are equivalent: `Some(value of the first difference in breadth-first
/// order)`.  Only follows edges that are already known, if `known_only`.
pub fn difference(
    a: u8,
    b: u8,
    known_only: bool,
) -> Option<V>
{
    let mut seen = [[false; NMAX]; NMAX];
    let mut q = [(0u8, 0u8); NMAX * NMAX];
    let mut h = 0;
    let mut t = 0;

    macro_rules! visit {
        ($x:expr, $y:expr) => {
            let (x, y): (u8, u8) = ($x, $y);
            if x != y && !seen[x as usize][y as usize] {
                seen[x as usize][y as usize] = true;
                let v = local(x, y);
                if v.0 != 0 {
                    return Some(v);
                }
                if !known_only || (w().deg[x as usize] != UNKNOWN && w().deg[y as usize] != UNKNOWN) {
                    let (dx, dy) = (deg(x), deg(y));
                    if dx != dy && (dx == 0 || dy == 0) {
                        return Some(V(if dx < dy { LESS } else { GREATER }));
                    }
                    if dx != 0 && dy != 0 {
                        q[t] = (x, y);
                        t += 1;
                    }
                }
            }
        };
    }

    visit!(a, b);
    while h < t {
        let (x, y) = q[h];
        h += 1;
        let (dx, dy) = (deg(x), deg(y));
        let m = dx.min(dy);
        let mut i = 0;
        while i < m {
            if !known_only || (known(x, i) && known(y, i)) {
                visit!(target(x, i), target(y, i));
            }
            i += 1;
        }
        if dx != dy {
            return Some(V(if dx < dy { LESS } else { GREATER }));
        }
    }
    None
}

/// Whether the verdict "different" / "equivalent" is right.
pub fn verdict_ok(
    a: u8,
    b: u8,
    equal: bool,
) -> bool
{
    if equal {
        difference(a, b, false).is_none()
    }
    else {
        difference(a, b, true).is_some() || difference(a, b, false).is_some()
    }
}

/// The first difference in depth-first preorder of the unfoldings of two acyclic graphs.
pub fn difference_dfs(
    a: u8,
    b: u8,
) -> Option<V>
{
    if a == b {
        return None;
    }
    let v = local(a, b);
    if v.0 != 0 {
        return Some(v);
    }
    let (da, db) = (deg(a), deg(b));
    let mut i = 0;
    while i < da && i < db {
        if let Some(v) = difference_dfs(target(a, i), target(b, i)) {
            return Some(v);
        }
        i += 1;
    }
    if da == db {
        None
    }
    else {
        Some(V(if da < db { LESS } else { GREATER }))
    }
}

fn covers(r: V)
{
    let w = w();
    if r.0 == 0 {
        cover(1);
        // an equivalent pair of graphs that have a cycle
        let mut i = 0;
        while i < w.n {
            let mut e = 0;
            while e < DMAX {
                let t = w.tgt[i][e];
                if t != UNKNOWN && reaches(t, i as u8) {
                    cover(2);
                }
                e += 1;
            }
            i += 1;
        }
    }
    else if r.0 == LESS || r.0 == GREATER {
        cover(3);
    }
    else {
        cover(4);
    }
}

fn emits(r: V)
{
    let w = w();
    emit(1, u64::from(r.0));
    emit(2, w.neq);
    emit(3, w.trace);
    emit(4, w.n as u64);
    emit(5, unsafe { variants::DRAWS });
}

/// Runs a cycle-safe comparison: `how` 0.. is a premade function, 100.. the generic interleave
/// with (recursion mode, configuration), 1000.. the generic prechecked one.
pub(crate) fn run(
    how: u64,
    a: u8,
    b: u8,
) -> V
{
    let (a, b) = (PN::root(a, 0), PN::root(b, 1));
    if how < 100 {
        variants::premade(how, a, b)
    }
    else if how < 10_000 {
        // 100 * (rm + 1) + cfg, + 1000 with the hash table
        let hash = how >= 1000;
        let h = how % 1000;
        variants::interleave(h / 100 - 1, h % 100, hash, a, b)
    }
    else if how >= 30_000 {
        // limited, with an ample limit
        #[cfg(feature = "ample")]
        return variants::limited64(how - 30_000, 1 << 40, a, b).unwrap_or(V(99));
        #[cfg(not(feature = "ample"))]
        unreachable!();
    }
    else {
        // 10000 + 100 * combo + cfg
        let h = how - 10_000;
        variants::precheck(h / 100, h % 100, a, b)
    }
}

/// (precheck, fast, slow) limits, whether breadth-first
pub fn about(how: u64) -> (u64, u64, u64, u64, bool)
{
    if how < 100 {
        let (p, f, s) = variants::limits(0);
        let p = if how >= 5 { p } else { 0 };
        (p, f, s, if variants::breadth_first(how) { 1 } else { 0 }, false)
    }
    else if how < 10_000 {
        let h = how % 1000;
        let (_, f, s) = variants::limits(h % 100);
        (0, f, s, h / 100 - 1, false)
    }
    else {
        let h = how - 10_000;
        let (p, f, s) = variants::limits(h % 100);
        (p, f, s, variants::combo_modes(h / 100).1, true)
    }
}

/// A cycle-safe comparison of arbitrary graphs.
#[cfg(feature = "pool")]
#[no_mangle]
pub extern "C" fn pool(
    mask: u64,
    how: u64,
    n: u64,
    edges: u64,
    d: u64,
    bits: u64,
    acyclic: u64,
)
{
    unsafe { MASK = mask };
    init(n, edges, d, bits, acyclic != 0, 2);
    let (pre, fast, slow, rm, _) = about(how);
    {
        let w = w();
        w.cap_s = slow;
        w.cap_f = fast;
        w.cap_add = pre;
        w.capped = how != 0 && how != 1 && how != 2;
    }
    let h0 = heap();
    let r = run(how, 0, 1);
    w().capped = false;
    chk(16, 2, w().live == 0);
    chk(16, 3, heap() == h0);
    if rm != variants::CALLSTACK {
        chk(17, 1, w().sp0 - w().spmin <= crate::tree::STACK_CAP);
    }
    covers(r);
    if unsafe { variants::DRAWS } > 0 {
        cover(5);
    }
    emits(r);
    if on(1) || on(2) {
        let ok = verdict_ok(0, 1, r.0 == 0);
        chk(1, 1, ok);
        chk(2, 2, ok);
    }
    if on(4) {
        if rm == variants::QUEUE {
            let x = difference(0, 1, false);
            check(r.0 == x.map_or(0, |v| v.0), 403);
        }
        else if acyclic != 0 {
            let x = difference_dfs(0, 1);
            check(r.0 == x.map_or(0, |v| v.0), 404);
        }
    }
}

/// With and without precheck.
#[cfg(feature = "pool_precheck")]
#[no_mangle]
pub extern "C" fn pool_precheck(
    mask: u64,
    combo: u64,
    cfg: u64,
    n: u64,
    edges: u64,
    d: u64,
    bits: u64,
    acyclic: u64,
    value: u64,
)
{
    unsafe { MASK = mask };
    init(n, edges, d, bits, acyclic != 0, 2);
    let (pre_rm, rm) = variants::combo_modes(combo);
    let r = run(10_000 + 100 * combo + cfg, 0, 1);
    let n1 = w().neq;
    let d1 = unsafe { variants::DRAWS };
    reset();
    let l = variants::limited64(pre_rm, variants::limits(cfg).0, PN::root(0, 0), PN::root(1, 1));
    let n2 = w().neq;
    reset();
    unsafe { variants::DRAWS = 0 };
    let x = run(100 * (rm + 1) + cfg, 0, 1);
    covers(r);
    emits(r);
    emit(6, n1);
    if n1 > w().neq {
        cover(6);
    }
    if d1 > 0 {
        cover(5);
    }
    if value != 0 && (pre_rm == variants::QUEUE) == (rm == variants::QUEUE) {
        chk(7, 1, r.0 == x.0);
    }
    else {
        chk(7, 2, (r.0 == 0) == (x.0 == 0));
    }
    // the precheck is the limited comparison, and what follows if that is aborted is the interleaved one
    if let Some(l) = l {
        cover(7);
        chk(7, 5, r.0 == l.0 && n1 == n2 && d1 == 0);
    }
    else {
        cover(8);
        chk(7, 6, r.0 == x.0 && n1 == n2 + w().neq && d1 == unsafe { variants::DRAWS });
    }
}

/// The limited comparison by the definition: the first `limit` pairs in order (`None`: there are more), and how many
/// pairs were compared.
fn limited_ref(
    bfs: bool,
    limit: u64,
) -> (Option<V>, u64)
{
    // pairs whose edges are pending
    let mut st = [(0u8, 0u8, 0u8); 64];
    let mut h = 0;
    let mut t = 0;
    let mut left = limit;
    let mut neq = 0;
    let mut cur = Some((0u8, 1u8));
    loop {
        if let Some((x, y)) = cur.take() {
            if left == 0 {
                return (None, neq);
            }
            left -= 1;
            if x != y {
                neq += 1;
                let v = local(x, y);
                if v.0 != 0 {
                    return (Some(v), neq);
                }
                let (dx, dy) = (deg(x), deg(y));
                if dx != dy && (dx == 0 || dy == 0) {
                    return (Some(V(if dx < dy { LESS } else { GREATER })), neq);
                }
                if dx > 0 {
                    st[t] = (x, y, 0);
                    t += 1;
                }
            }
        }
        if h == t {
            return (Some(V(0)), neq);
        }
        let at = if bfs { h } else { t - 1 };
        let (x, y, i) = st[at];
        let (dx, dy) = (deg(x), deg(y));
        if i < dx && i < dy {
            cur = Some((target(x, i), target(y, i)));
            st[at].2 += 1;
        }
        else if dx != dy {
            return (Some(V(if dx < dy { LESS } else { GREATER })), neq);
        }
        else if bfs {
            h += 1;
        }
        else {
            t -= 1;
        }
    }
}

/// The limited comparisons of arbitrary graphs (cyclic ones, too), limits up to `most`.
#[cfg(feature = "pool_limited")]
#[no_mangle]
pub extern "C" fn pool_limited(
    mask: u64,
    rm: u64,
    n: u64,
    edges: u64,
    d: u64,
    bits: u64,
    acyclic: u64,
    most: u64,
)
{
    unsafe { MASK = mask };
    init(n, edges, d, bits, acyclic != 0, 2);
    let limit = choose(key(23, 0, 0), most + 1);
    let h0 = heap();
    let r = variants::limited64(rm, limit, PN::root(0, 0), PN::root(1, 1));
    chk(16, 2, w().live == 0);
    chk(16, 3, heap() == h0);
    if rm != variants::CALLSTACK {
        chk(17, 1, w().sp0 - w().spmin <= crate::tree::STACK_CAP);
    }
    emit(1, r.map_or(1000, |v| u64::from(v.0)));
    emit(2, w().neq);
    emit(3, w().trace);
    match r {
        None => cover(6),
        Some(r) => covers(r),
    }
    if on(8) {
        let (x, neq) = limited_ref(rm == variants::QUEUE, limit);
        chk(8, 11, r.is_none() == x.is_none());
        chk(8, 12, r.map_or(0, |v| v.0) == x.map_or(0, |v| v.0));
        chk(8, 13, w().neq == neq);
    }
}

/// The interleaved comparison by its documentation: result, pairs compared, their trace, numbers drawn, and whether the
/// next step would draw.
fn interleave_ref(
    bfs: bool,
    fast: u64,
    slow: u64,
) -> (V, u64, u64, u64, bool)
{
    const MOST: usize = 512;
    let mut st = [(0u8, 0u8, 0u8); MOST];
    let (mut h, mut t) = (0, 0);
    let (mut neq, mut trace) = (0u64, 7u64);
    let mut class: [u8; NMAX] = [0; NMAX];
    let mut i = 0;
    while i < NMAX {
        class[i] = i as u8;
        i += 1;
    }
    let (mut count, mut left, mut draws, mut infst) = (0u64, 0u64, 0u64, false);
    let mut cur = Some((0u8, 1u8));
    let r = 'all: loop {
        if let Some((x, y)) = cur.take() {
            if x != y {
                neq += 1;
                trace = trace.wrapping_mul(31) ^ (u64::from(x) << 8 | u64::from(y));
                let v = local(x, y);
                if v.0 != 0 {
                    break 'all v;
                }
                let (dx, dy) = (deg(x), deg(y));
                if dx != dy && (dx == 0 || dy == 0) {
                    break 'all V(if dx < dy { LESS } else { GREATER });
                }
                if dx > 0 {
                    if !infst && count == slow {
                        draws += 1;
                        left = range(key(9, draws, 0), fast + 1) + 1;
                        infst = true;
                    }
                    let descend = if infst {
                        left -= 1;
                        if left == 0 {
                            infst = false;
                            count = 0;
                        }
                        true
                    }
                    else {
                        let (cx, cy) = (class[x as usize], class[y as usize]);
                        if cx == cy {
                            count = 0;
                        }
                        else {
                            count += 1;
                            let mut i = 0;
                            while i < NMAX {
                                if class[i] == cx {
                                    class[i] = cy;
                                }
                                i += 1;
                            }
                        }
                        cx != cy
                    };
                    if descend {
                        st[t] = (x, y, 0);
                        t += 1;
                    }
                }
            }
        }
        if h == t {
            break V(0);
        }
        let at = if bfs { h } else { t - 1 };
        let (x, y, i) = st[at];
        let (dx, dy) = (deg(x), deg(y));
        if i < dx && i < dy {
            cur = Some((target(x, i), target(y, i)));
            st[at].2 += 1;
        }
        else if dx != dy {
            break V(if dx < dy { LESS } else { GREATER });
        }
        else if bfs {
            h += 1;
        }
        else {
            t -= 1;
        }
    };
    (r, neq, trace, draws, !infst && count == slow)
}

/// The interleaved comparison, step by step.
#[cfg(feature = "pool_phases")]
#[no_mangle]
pub extern "C" fn pool_phases(
    mask: u64,
    how: u64,
    n: u64,
    edges: u64,
    d: u64,
    bits: u64,
    acyclic: u64,
)
{
    unsafe { MASK = mask };
    init(n, edges, d, bits, acyclic != 0, 2);
    let (_, fast, slow, rm, _) = about(how);
    let r = run(how, 0, 1);
    covers(r);
    let drawn = unsafe { variants::DRAWS };
    if drawn > 0 {
        cover(5);
    }
    emits(r);
    let (x, neq, trace, draws, next) = interleave_ref(rm == variants::QUEUE, fast, slow);
    chk(13, 21, r.0 == x.0);
    chk(13, 22, w().neq == neq && w().trace == trace);
    chk(13, 23, drawn == draws || next && drawn == draws + 1);
}

/// Both ways around.
#[cfg(feature = "pool_swap")]
#[no_mangle]
pub extern "C" fn pool_swap(
    mask: u64,
    how: u64,
    n: u64,
    edges: u64,
    d: u64,
    bits: u64,
    acyclic: u64,
)
{
    unsafe { MASK = mask };
    init(n, edges, d, bits, acyclic != 0, 2);
    let x = run(how, 0, 1);
    let n1 = w().neq;
    reset();
    let y = run(how, 1, 0);
    covers(x);
    emits(x);
    chk(5, 1, mirrored(x, y));
    chk(5, 2, n1 == w().neq);
}

/// Three graphs.
#[cfg(feature = "pool_trans")]
#[no_mangle]
pub extern "C" fn pool_trans(
    mask: u64,
    how: u64,
    n: u64,
    edges: u64,
    d: u64,
    bits: u64,
    acyclic: u64,
)
{
    unsafe { MASK = mask };
    init(n, edges, d, bits, acyclic != 0, 3);
    let x = run(how, 0, 1);
    let y = run(how, 1, 2);
    if acyclic != 0 {
        let z = run(how, 0, 2);
        let (x, y, z) = (sign(x), sign(y), sign(z));
        emit(1, x);
        emit(2, y);
        emit(3, z);
        // x, y: first against second, second against third
        if x <= 1 && y <= 1 {
            chk(6, 1, z <= 1);
            chk(6, 2, (z == 1) == (x == 1 && y == 1));
            cover(1);
            if z == 1 {
                cover(2);
            }
        }
        if x >= 1 && y >= 1 {
            chk(6, 3, z >= 1);
            chk(6, 4, (z == 1) == (x == 1 && y == 1));
        }
        let s = run(how, 0, 0);
        chk(6, 5, s.0 == 0);
    }
    else if x.0 == 0 && y.0 == 0 {
        let z = run(how, 0, 2);
        cover(2);
        chk(6, 6, z.0 == 0);
        let z = run(how, 2, 0);
        chk(6, 7, z.0 == 0);
    }
    else if x.0 == 0 {
        // equal to one that is different from the third
        let z = run(how, 0, 2);
        cover(3);
        chk(6, 8, z.0 != 0);
    }
}

/// Every way of comparing a node with itself, however the graph around it is.
#[cfg(feature = "pool_self")]
#[no_mangle]
pub extern "C" fn pool_self(
    mask: u64,
    how: u64,
    n: u64,
    edges: u64,
    d: u64,
)
{
    unsafe { MASK = mask };
    init(n, edges, d, 1, false, 2);
    w().gets = 0;
    let x = if how >= 20_000 {
        // limited, 20000 + 1000 * recursion mode + bits of the limit
        #[cfg(not(feature = "self_lim"))]
        unreachable!();
        #[cfg(feature = "self_lim")]
        {
        let (lo, hi) = (var(key(5, 0, 0), 64), var(key(5, 1, 0), 64));
        let ticker = how % 1000;
        let bits = if ticker == 0 { 64 } else { ticker };
        let r = variants::limited((how - 20_000) / 1000, ticker, lo, hi, PN::root(0, 0), PN::root(0, 1));
        let none = if bits == 128 { lo == 0 && hi == 0 } else { bits_of(lo, bits) == 0 };
        chk(19, 6, r.is_none() == none);
        if r.is_none() {
            cover(2);
        }
        r
        }
    }
    else {
        Some(run(how, 0, 0))
    };
    chk(19, 4, w().neq == 0 && w().gets == 0);
    emit(1, x.map_or(1000, |v| u64::from(v.0)));
    if let Some(x) = x {
        chk(19, 5, x.0 == 0);
        cover(1);
    }
    chk(19, 7, w().live == 0);
}

fn bits_of(
    v: u64,
    bits: u64,
) -> u64
{
    if bits >= 64 {
        v
    }
    else {
        v & ((1 << bits) - 1)
    }
}
