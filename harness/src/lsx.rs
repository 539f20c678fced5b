//! The interface to the symbolic executor (and, in the `replay` binary, to its native stand-in).

mod raw
{
    extern "C" {
        pub fn lsx_var(
            key: u64,
            bits: u64,
        ) -> u64;
        pub fn lsx_choose(
            key: u64,
            n: u64,
        ) -> u64;
        pub fn lsx_range(
            key: u64,
            n: u64,
        ) -> u64;
        pub fn lsx_conc(v: u64) -> u64;
        pub fn lsx_assume(c: bool);
        pub fn lsx_check(
            c: bool,
            code: u64,
        );
        pub fn lsx_cover(code: u64);
        pub fn lsx_emit(
            tag: u64,
            v: u64,
        );
        pub fn lsx_sp() -> u64;
        pub fn lsx_heap() -> u64;
        pub fn lsx_ite(
            c: bool,
            a: u64,
            b: u64,
        ) -> u64;
        pub fn lsx_end() -> !;
        pub fn lsx_limit(n: u64);
        pub fn lsx_any_products();
        pub fn lsx_tries() -> u64;
    }
}

/// A symbolic value of that many bits; the same key is the same value.
#[inline]
pub fn var(
    key: u64,
    bits: u64,
) -> u64
{
    unsafe { raw::lsx_var(key, bits) }
}
/// A symbolic value whose every value below `n` is explored separately (the result is concrete).
#[inline]
pub fn choose(
    key: u64,
    n: u64,
) -> u64
{
    unsafe { raw::lsx_choose(key, n) }
}
/// A symbolic value below `n`.
#[inline]
pub fn range(
    key: u64,
    n: u64,
) -> u64
{
    unsafe { raw::lsx_range(key, n) }
}
/// Splits on the value of a symbolic expression.
#[inline]
pub fn conc(v: u64) -> u64
{
    unsafe { raw::lsx_conc(v) }
}
#[inline]
pub fn assume(c: bool)
{
    unsafe { raw::lsx_assume(c) }
}
#[inline]
pub fn check(
    c: bool,
    code: u64,
)
{
    unsafe { raw::lsx_check(c, code) }
}
#[inline]
pub fn cover(code: u64)
{
    unsafe { raw::lsx_cover(code) }
}
#[inline]
pub fn emit(
    tag: u64,
    v: u64,
)
{
    unsafe { raw::lsx_emit(tag, v) }
}
#[inline]
pub fn sp() -> u64
{
    unsafe { raw::lsx_sp() }
}
#[inline]
pub fn heap() -> u64
{
    unsafe { raw::lsx_heap() }
}
/// `if c { a } else { b }` without splitting.
#[inline]
pub fn ite(
    c: bool,
    a: u64,
    b: u64,
) -> u64
{
    unsafe { raw::lsx_ite(c, a, b) }
}
/// Gives up this path after that many further splits (a loop with a symbolic exit).
#[inline]
pub fn limit(n: u64)
{
    unsafe { raw::lsx_limit(n) }
}
/// From here on, products of more than 64 bits are arbitrary values (an over-approximation).
#[inline]
pub fn any_products()
{
    unsafe { raw::lsx_any_products() }
}
/// 0; natively, how many values to try for what was over-approximated.
#[inline]
pub fn tries() -> u64
{
    unsafe { raw::lsx_tries() }
}
/// Ends this path (beyond the stated bounds).
#[inline]
pub fn kill() -> !
{
    assume(false);
    unsafe { raw::lsx_end() }
}

/// The set of properties whose assertions are enabled in this job.
pub static mut MASK: u64 = 0;

#[inline]
pub fn on(p: u64) -> bool
{
    unsafe { MASK >> p & 1 == 1 }
}

/// An assertion of property `p`.
#[inline]
pub fn chk(
    p: u64,
    sub: u64,
    c: bool,
)
{
    if on(p) {
        check(c, p * 100 + sub);
    }
}

pub const fn key(
    kind: u64,
    a: u64,
    b: u64,
) -> u64
{
    kind << 40 | a << 20 | b
}
