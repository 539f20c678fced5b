//! The result type of comparisons: carries an arbitrary payload.

use {
    core::cmp::Ordering,
    graph_safe_compare::Cmp,
};

#[derive(Clone, Copy)]
pub struct V(pub u8);

pub const LESS: u8 = 251;
pub const GREATER: u8 = 252;
/// Results of label comparisons.
pub const LAB_LESS: u64 = 1;
pub const LAB_GREATER: u64 = 2;

impl Cmp for V
{
    fn new_equiv() -> Self
    {
        V(0)
    }
    fn is_equiv(&self) -> bool
    {
        self.0 == 0
    }
    fn from_ord(ord: Ordering) -> Self
    {
        match ord {
            Ordering::Less => V(LESS),
            Ordering::Greater => V(GREATER),
            Ordering::Equal => V(0),
        }
    }
}

/// -1, 0 or 1 as 0, 1, 2.
pub fn sign(v: V) -> u64
{
    match v.0 {
        0 => 1,
        1 | LESS => 0,
        _ => 2,
    }
}

pub fn mirrored(
    x: V,
    y: V,
) -> bool
{
    match x.0 {
        0 => y.0 == 0,
        1 => y.0 == 2,
        2 => y.0 == 1,
        LESS => y.0 == GREATER,
        GREATER => y.0 == LESS,
        _ => false,
    }
}
