//! The random-number generators: every state, every bound.

use {
    crate::lsx::*,
    core::num::NonZeroU16,
    graph_safe_compare::cycle_safe::modes::interleave::random::{
        self,
        NumberGenerator,
    },
};

/// Splits that are left for loops that reject numbers.
const REJECTIONS: u64 = 8;

/// A generator in an arbitrary state.
fn any_state<R: NumberGenerator>(mut word: impl FnMut(u64) -> u64) -> R
{
    let mut r = R::default();
    let n = core::mem::size_of::<R>();
    let p = core::ptr::addr_of_mut!(r).cast::<u8>();
    let mut i = 0;
    while i + 8 <= n {
        unsafe { p.add(i).cast::<u64>().write_unaligned(word(i as u64)) };
        i += 8;
    }
    while i < n {
        unsafe { p.add(i).write(word(i as u64) as u8) };
        i += 1;
    }
    // the state of `fastrand` is the thread's
    fastrand::seed(word(1000));
    r
}

/// What the generator's next number depends on.
fn state<R>(r: &R) -> ([u64; 4], u64)
{
    let mut s = [0; 4];
    let n = core::mem::size_of::<R>().min(32);
    let p = core::ptr::addr_of!(*r).cast::<u8>();
    let mut i = 0;
    while i < n {
        s[i / 8] |= u64::from(unsafe { p.add(i).read() }) << (i % 8 * 8);
        i += 1;
    }
    (s, fastrand::get_seed())
}

fn differ(
    x: &([u64; 4], u64),
    y: &([u64; 4], u64),
) -> bool
{
    let mut d = x.1 ^ y.1;
    let mut i = 0;
    while i < 4 {
        d |= x.0[i] ^ y.0[i];
        i += 1;
    }
    d != 0
}

/// From the initial state on, with any bounds.
fn moves<R: NumberGenerator>(draws: u64)
{
    fastrand::seed(7);
    any_products();
    let mut r = R::default();
    let mut i = 0;
    while i < draws {
        let b = var(key(5, i, 0), 16) as u16;
        let Some(end) = NonZeroU16::new(b)
        else {
            kill();
        };
        limit(REJECTIONS);
        let s = state(&r);
        let x = r.rand_upto(end);
        chk(14, 1, x < b);
        chk(14, 2, b == 1 || differ(&s, &state(&r)));
        i += 1;
    }
    cover(1);
}

fn draw<R: NumberGenerator>(
    fixed: u64,
    abst: bool,
    moving: bool,
)
{
    let mut r = any_state::<R>(|i| var(key(1, i, 0), 64));
    let b = if fixed == 0 { var(key(3, 0, 0), 16) as u16 } else { fixed as u16 };
    assume(b != 0);
    let Some(end) = NonZeroU16::new(b)
    else {
        kill();
    };
    if abst {
        any_products();
    }
    limit(REJECTIONS);
    // natively, the state of a sampled path of the over-approximation means nothing (a generator may even reject all
    // its numbers in that state)
    let t = tries();
    let s = state(&r);
    let x = if !abst || t >> 63 == 0 { r.rand_upto(end) } else { 0 };
    chk(14, 1, x < b);
    chk(14, 2, !moving || b == 1 || abst && t >> 63 != 0 || differ(&s, &state(&r)));
    cover(1);
    if b == 1 {
        cover(2);
    }
    if b == u16::MAX {
        cover(3);
    }
    if abst {
        // which state gives the wrong number
        let mut s = 0u64;
        for _ in 0 .. t & u64::MAX >> 1 {
            let mut r = any_state::<R>(|_| {
                s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
                let z = (s ^ s >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                let z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
                z ^ z >> 31
            });
            chk(14, 1, r.rand_upto(end) < b);
        }
    }
    else {
        emit(1, u64::from(x));
    }
}

#[cfg(feature = "rng")]
#[no_mangle]
pub extern "C" fn rng(
    mask: u64,
    which: u64,
    fixed: u64,
    abst: u64,
)
{
    unsafe { MASK = mask };
    match which {
        0 => draw::<random::wyrng::RandomNumberGenerator>(fixed, abst == 1, true),
        // (its increment has to be odd)
        1 => draw::<random::oorandom::RandomNumberGenerator>(fixed, abst == 1, false),
        2 => draw::<random::fastrand::RandomNumberGenerator>(fixed, abst == 1, true),
        3 => draw::<random::default::RandomNumberGenerator>(fixed, abst == 1, true),
        10 => moves::<random::wyrng::RandomNumberGenerator>(fixed),
        11 => moves::<random::oorandom::RandomNumberGenerator>(fixed),
        12 => moves::<random::fastrand::RandomNumberGenerator>(fixed),
        _ => moves::<random::default::RandomNumberGenerator>(fixed),
    }
}
