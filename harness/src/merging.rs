//! Graphs whose comparison merges larger and larger classes: both roots have edges to the nodes of one pool, in an
//! order that first makes four classes of given sizes and then joins some of these through symbolic representatives.

use {
    crate::{
        lsx::*,
        val::*,
        variants,
    },
    graph_safe_compare::Node,
};

const MAX: usize = 64;
const BLOCKS: usize = 4;

struct World
{
    pairs: [(u32, u32); MAX],
    m:     usize,
    /// the block of each node
    block: [u32; MAX],
    n:     usize,
    neq:   u64,
    trace: u64,
    live:  u64,
    /// no differences
    same:  bool,
}

static mut W: World =
    World { pairs: [(0, 0); MAX], m: 0, block: [0; MAX], n: 0, neq: 0, trace: 7, live: 0, same: false };

#[allow(static_mut_refs)]
fn w() -> &'static mut World
{
    unsafe { &mut W }
}

const ROOT_A: u32 = 1;
const ROOT_B: u32 = 2;
const MID: u32 = 16;
const LEAF: u32 = 1024;

struct M(u32);

impl M
{
    fn new(i: u32) -> Self
    {
        w().live += 1;
        M(i)
    }
}

impl Clone for M
{
    fn clone(&self) -> Self
    {
        M::new(self.0)
    }
}

impl Drop for M
{
    fn drop(&mut self)
    {
        w().live -= 1;
    }
}

/// All leaves of a block have the same label, except for one leaf at most.
fn label(leaf: u32) -> u64
{
    let w = w();
    if w.same {
        return 0;
    }
    let b = w.block[leaf as usize];
    let common = var(key(71, u64::from(b), 0), 1);
    let odd = range(key(70, 0, 0), w.n as u64 + 1) == u64::from(leaf);
    ite(odd, 2 + common, common)
}

impl Node for M
{
    type Cmp = V;
    type Id = u32;
    type Index = u8;

    fn id(&self) -> u32
    {
        self.0
    }

    fn get_edge(
        &self,
        index: &u8,
    ) -> Option<Self>
    {
        let k = *index as usize;
        let w = w();
        match self.0 {
            ROOT_A | ROOT_B if k < w.m => {
                let (l, r) = w.pairs[k];
                Some(M::new(MID + if self.0 == ROOT_A { l } else { r }))
            },
            ROOT_A | ROOT_B => None,
            i if i < LEAF && k == 0 => Some(M::new(i - MID + LEAF)),
            _ => None,
        }
    }

    fn equiv_modulo_edges(
        &self,
        other: &Self,
    ) -> V
    {
        let w = w();
        w.neq += 1;
        w.trace = w.trace.wrapping_mul(31) ^ (u64::from(self.0) << 32 | u64::from(other.0));
        if self.0 >= LEAF && label(self.0 - LEAF) != label(other.0 - LEAF) {
            V(7)
        }
        else {
            V(0)
        }
    }
}

fn push(
    l: u32,
    r: u32,
)
{
    let w = w();
    w.pairs[w.m] = (l, r);
    w.m += 1;
}

/// A block of `size` nodes from `at` up, joined in one of five ways.
fn block(
    way: u64,
    at: u32,
    size: u32,
)
{
    match way {
        // one after the other
        0 => (1 .. size).for_each(|i| push(at, at + i)),
        1 => (1 .. size).for_each(|i| push(at + i, at + i - 1)),
        // pairs of pairs, through their first or last nodes
        _ => {
            let mut s = 1;
            while s < size {
                let mut i = 0;
                while i + s < size {
                    let (l, r) = (at + i, at + i + s);
                    match way {
                        2 => push(l, r),
                        3 => push(r, l),
                        _ => push(l + s - 1, (r + s).min(at + size) - 1),
                    }
                    i += 2 * s;
                }
                s *= 2;
            }
        },
    }
}

fn run(
    how: u64,
    swap: bool,
) -> V
{
    let (a, b) = if swap { (M::new(ROOT_B), M::new(ROOT_A)) } else { (M::new(ROOT_A), M::new(ROOT_B)) };
    if how < 100 {
        variants::premade(how, a, b)
    }
    else {
        let h = how % 1000;
        variants::interleave(h / 100 - 1, h % 100, how >= 1000, a, b)
    }
}

/// Four blocks, then `extra` pairs of nodes of these chosen freely (16 more: without any differences).
#[cfg(feature = "merging")]
#[no_mangle]
pub extern "C" fn merging(
    mask: u64,
    how: u64,
    extra: u64,
    swap: u64,
)
{
    unsafe { MASK = mask };
    let w = w();
    w.same = extra >= 16;
    let extra = extra % 16;
    w.m = 0;
    w.neq = 0;
    w.trace = 7;
    let way = choose(key(72, 0, 0), 5);
    let mut at = 0;
    let mut ends = [(0_u32, 0_u32); BLOCKS];
    for (b, size) in [8_u32, 4, 2, 2].into_iter().enumerate() {
        for i in 0 .. size {
            w.block[(at + i) as usize] = b as u32;
        }
        ends[b] = (at, at + size - 1);
        block(way, at, size);
        at += size;
    }
    w.n = at as usize;
    for x in 0 .. extra {
        let pick = |side: u64| {
            let k = choose(key(73, x, side), 2 * BLOCKS as u64);
            let (first, last) = ends[(k / 2) as usize];
            if k % 2 == 0 { first } else { last }
        };
        push(pick(0), pick(1));
    }
    let h0 = heap();
    let r = run(how, false);
    chk(16, 2, w.live == 0);
    chk(16, 3, heap() == h0);
    cover(if r.0 == 0 { 1 } else { 2 });
    emit(1, u64::from(r.0));
    emit(2, w.neq);
    emit(3, w.trace);
    // a root pair, and for each pair of nodes itself and its leaves
    chk(3, 2, w.neq <= 1 + 2 * w.m as u64);
    if on(1) || on(4) {
        let mut differ = 0;
        for k in 0 .. w.m {
            let (l, r) = w.pairs[k];
            if l != r {
                differ |= ite(label(l) != label(r), 1, 0);
            }
        }
        chk(1, 2, (r.0 != 0) == (differ != 0));
        chk(4, 6, (r.0 == 7) == (differ != 0) && (r.0 == 0 || r.0 == 7));
    }
    if swap != 0 {
        let n = w.neq;
        w.neq = 0;
        let s = run(how, true);
        emit(4, w.neq);
        chk(5, 1, r.0 == s.0);
        chk(5, 2, n == w.neq);
    }
}
