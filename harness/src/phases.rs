//! The phases of the interleave mode, against an automaton: every sequence of known and unknown
//! pairs and every random number.

use {
    crate::{
        classes::{
            ask,
            IdN,
        },
        lsx::*,
    },
    core::marker::PhantomData,
    graph_safe_compare::{
        cycle_safe::modes::interleave::{
            self,
            Interleave,
        },
        generic::equiv_classes::{
            premade::rc::Rc as StdRc,
            Class,
            Rc as _,
            Table,
        },
    },
    std::cell::Cell,
};

static mut GETS: u64 = 0;
static mut PUTS: u64 = 0;
static mut DRAWN: u64 = 0;

/// Two nodes of one class and two nodes that are never known.
const KNOWN: (u64, u64) = (1, 3);
const FRESH: (u64, u64) = (0, 2);

/// Knows exactly two nodes.
pub struct One(StdRc);

impl Default for One
{
    fn default() -> Self
    {
        One(StdRc::new(Cell::new(Class::default())))
    }
}

impl Table for One
{
    type Node = IdN;
    type Rc = StdRc;

    fn get(
        &self,
        k: &u64,
    ) -> Option<&StdRc>
    {
        unsafe { GETS += 1 };
        if *k % 2 == 1 {
            Some(&self.0)
        }
        else {
            None
        }
    }
    fn insert(
        &mut self,
        k: u64,
        _: StdRc,
    )
    {
        chk(13, 9, k % 2 == 0);
        unsafe { PUTS += 1 };
    }
}

/// Draws arbitrary numbers; the bound must be the configured one.
#[derive(Default)]
pub struct Rng(u64);

impl interleave::random::NumberGenerator for Rng
{
    fn rand_upto(
        &mut self,
        end: core::num::NonZeroU16,
    ) -> u16
    {
        unsafe {
            chk(13, 7, u64::from(end.get()) == END);
            DRAWN += 1;
        }
        self.0 += 1;
        draw(self.0) as u16
    }
}
static mut END: u64 = 0;
static mut EXTREMES: bool = false;
static mut LAST: (u64, u64) = (0, 0);

/// The n-th number drawn.
fn draw(n: u64) -> u64
{
    let end = unsafe { END };
    if unsafe { EXTREMES } && end > 8 {
        // chosen once
        if unsafe { LAST.0 } != n {
            let x = if n == 1 {
                [0, 1, end - 3, end - 2, end - 1][choose(key(9, n, 1), 5) as usize]
            }
            else {
                end - 1 - choose(key(9, n, 1), 2)
            };
            unsafe { LAST = (n, x) };
        }
        return unsafe { LAST.1 };
    }
    range(key(9, n, 0), end)
}

pub struct Two<const FAST: u16, const SLOW: u16>(PhantomData<()>);

impl<const FAST: u16, const SLOW: u16> interleave::Params for Two<FAST, SLOW>
{
    type Node = IdN;
    type RNG = Rng;
    type Table = One;

    const FAST_LIMIT_MAX: u16 = FAST;
    const SLOW_LIMIT: u16 = SLOW;
}

/// Only the precheck limit redefined.
pub struct Pre<const PRE: u16>(PhantomData<()>);

impl<const PRE: u16> interleave::Params for Pre<PRE>
{
    type Node = IdN;
    type RNG = Rng;
    type Table = One;

    const PRECHECK_LIMIT: u16 = PRE;
}

pub struct Def(PhantomData<()>);

impl interleave::Params for Def
{
    type Node = IdN;
    type RNG = Rng;
    type Table = One;
}

/// The automaton that the documentation describes.
struct Auto
{
    fast:  u64,
    slow:  u64,
    /// consecutive unknown pairs in the slow phase
    count: u64,
    /// pairs left in the fast phase
    left:  u64,
    infst: bool,
    draws: u64,
}

/// The call after which known pairs may be given, and how many calls in total.
fn run<I: interleave::Params<Node = IdN, Table = One>>(
    calls: u64,
    fast: u64,
    slow: u64,
    mode: u64,
)
{
    let h0 = heap();
    unsafe {
        GETS = 0;
        PUTS = 0;
        DRAWN = 0;
        END = fast + 1;
        EXTREMES = mode == 2;
    }
    let mut m = Interleave::<I>::default();
    let mut r = Auto { fast, slow, count: 0, left: 0, infst: false, draws: 0 };
    // where known pairs are given, if few
    let p = [range(key(2, 0, 0), calls), range(key(2, 1, 0), calls)];
    let mut nslow = 0u64;
    let mut trace = 1u64;
    for c in 0 .. calls {
        if !r.infst && r.count == r.slow {
            // draws, and descends into one more than the number drawn, this being the first
            r.draws += 1;
            let x = draw(r.draws);
            r.left = x + 1;
            r.infst = true;
            cover(3);
        }
        if r.infst {
            // even for a pair that is known
            let g = unsafe { (GETS, PUTS) };
            let d = ask(&mut m, KNOWN.0, KNOWN.1);
            chk(13, 1, d);
            chk(13, 2, g == unsafe { (GETS, PUTS) });
            r.left -= 1;
            if r.left == 0 {
                r.infst = false;
                r.count = 0;
                cover(4);
            }
            trace = trace.wrapping_mul(3);
        }
        else {
            let known = match mode {
                0 => var(key(1, c, 0), 1) == 1,
                1 => nslow == p[0] || nslow == p[1],
                _ => c + 4 > calls && var(key(1, c, 0), 1) == 1,
            };
            nslow += 1;
            let g = unsafe { (GETS, PUTS) };
            if known {
                let d = ask(&mut m, KNOWN.0, KNOWN.1);
                chk(13, 3, !d);
                r.count = 0;
                cover(1);
                chk(13, 8, g.1 == unsafe { PUTS });
            }
            else {
                let d = ask(&mut m, FRESH.0, FRESH.1);
                chk(13, 4, d);
                r.count += 1;
                cover(2);
                // recorded
                chk(13, 5, g.1 < unsafe { PUTS });
            }
            chk(13, 10, g.0 < unsafe { GETS });
            trace = trace.wrapping_mul(3) + 1 + u64::from(known);
        }
        // drawn when needed, or as soon as it is known to be needed next
        let d = unsafe { DRAWN };
        chk(13, 6, r.draws == d || (!r.infst && r.count == r.slow && r.draws + 1 == d));
    }
    drop(m);
    chk(13, 11, heap() == h0);
    emit(1, trace);
}

#[cfg(feature = "phases")]
#[no_mangle]
pub extern "C" fn phases(
    mask: u64,
    cfg: u64,
    calls: u64,
    mode: u64,
)
{
    unsafe { MASK = mask };
    macro_rules! go {
        ($($n:literal: $t:ty, $f:expr, $s:expr;)*) => {
            match cfg {
                $($n => run::<$t>(calls, $f, $s, mode),)*
                _ => unreachable!(),
            }
        };
    }
    go! {
        0: Def, 800, 40;
        1: Two<0, 1>, 0, 1;
        2: Two<1, 1>, 1, 1;
        3: Two<2, 1>, 2, 1;
        4: Two<0, 2>, 0, 2;
        5: Two<1, 2>, 1, 2;
        6: Two<3, 2>, 3, 2;
        7: Two<2, 3>, 2, 3;
        8: Two<4, 4>, 4, 4;
        9: Two<65534, 1>, 65534, 1;
        10: Two<2, 65535>, 2, 65535;
        11: Two<65534, 65535>, 65534, 65535;
        12: Two<2, 32768>, 2, 32768;
        13: Two<32767, 3>, 32767, 3;
        14: Two<32768, 3>, 32768, 3;
        15: Two<7, 40>, 7, 40;
        20: Pre<0>, 0, 1;
        21: Pre<1>, 2, 1;
        22: Pre<9>, 18, 1;
        23: Pre<10>, 20, 1;
        24: Pre<20>, 40, 2;
        25: Pre<32767>, 65534, 3276;
    }
}
