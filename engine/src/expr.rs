//! Hash-consed bit-vector expressions (widths 1..=128).

use crate::ir::{BinOp, Pred};
use std::collections::HashMap;

pub type EId = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Const(u128),
    Var(u64), // key
    Bin(BinOp, EId, EId),
    Cmp(Pred, EId, EId), // only Eq, Ult, Ule, Slt, Sle
    Not(EId),            // width-1 negation or bitwise
    Ite(EId, EId, EId),
    Extract(u32, EId), // low bit; width given by node
    Concat(EId, EId),  // hi, lo
    ZExt(EId),
    SExt(EId),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u32,
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, EId>,
    memo: Vec<(u64, u128)>,
    vsets: Vec<Option<std::rc::Rc<[u32]>>>,
    vidx: HashMap<u64, u32>,
    /// index -> key
    pub vkeys: Vec<u64>,
    gen: u64,
}

#[derive(Clone, Default, Debug)]
pub struct Model {
    pub vals: HashMap<u64, u128>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    crate::ir::sext(v, w)
}

pub fn bin_c(op: BinOp, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    (match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        BinOp::SDiv => {
            if b == 0 {
                if sext(a, w) < 0 {
                    1
                } else {
                    m
                }
            } else {
                sext(a, w).wrapping_div(sext(b, w)) as u128
            }
        }
        BinOp::SRem => {
            if b == 0 {
                a
            } else {
                sext(a, w).wrapping_rem(sext(b, w)) as u128
            }
        }
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let s = sext(a, w);
            (if b >= w as u128 { s >> 127 } else { s >> b }) as u128
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
    }) & m
}

pub fn cmp_c(p: Pred, a: u128, b: u128, w: u32) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sext(a, w) < sext(b, w),
        Pred::Sle => sext(a, w) <= sext(b, w),
        Pred::Sgt => sext(a, w) > sext(b, w),
        Pred::Sge => sext(a, w) >= sext(b, w),
    }
}

impl Arena {
    pub fn mk(&mut self, op: Op, w: u32) -> EId {
        let n = Node { op, w };
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let id = self.nodes.len() as EId;
        self.nodes.push(n);
        self.memo.push((0, 0));
        self.map.insert(n, id);
        id
    }
    #[inline]
    pub fn n(&self, e: EId) -> Node {
        self.nodes[e as usize]
    }
    pub fn w(&self, e: EId) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn c(&mut self, v: u128, w: u32) -> EId {
        self.mk(Op::Const(v & mask(w)), w)
    }
    pub fn as_c(&self, e: EId) -> Option<u128> {
        match self.nodes[e as usize].op {
            Op::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn var(&mut self, key: u64, w: u32) -> EId {
        self.mk(Op::Var(key), w)
    }

    /// An upper bound on the value (inclusive), syntactically.
    fn ubound(&self, e: EId, d: u32) -> u128 {
        let n = self.n(e);
        if d == 0 {
            return mask(n.w);
        }
        match n.op {
            Op::Const(c) => c,
            Op::ZExt(a) => self.ubound(a, d - 1),
            Op::Bin(BinOp::And, a, b) => self.ubound(a, d - 1).min(self.ubound(b, d - 1)),
            Op::Bin(BinOp::LShr, a, b) => match self.as_c(b) {
                Some(c) if c < 128 => self.ubound(a, d - 1) >> c,
                _ => mask(n.w),
            },
            Op::Ite(_, a, b) => self.ubound(a, d - 1).max(self.ubound(b, d - 1)),
            _ => mask(n.w),
        }
    }

    pub fn bin(&mut self, op: BinOp, a: EId, b: EId) -> EId {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_c(a), self.as_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(bin_c(op, x, y, w), w);
        }
        let m = mask(w);
        match op {
            BinOp::Add => {
                if ca == Some(0) {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                // (x + c1) + c2
                if let (Some(y), Op::Bin(BinOp::Add, x, c1)) = (cb, self.n(a).op) {
                    if let Some(c1) = self.as_c(c1) {
                        let k = self.c(c1.wrapping_add(y), w);
                        return self.bin(BinOp::Add, x, k);
                    }
                }
            }
            BinOp::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(0, w);
                }
                if let Some(y) = cb {
                    let k = self.c(0u128.wrapping_sub(y), w);
                    return self.bin(BinOp::Add, a, k);
                }
            }
            BinOp::Mul => {
                if ca == Some(0) || cb == Some(0) {
                    return self.c(0, w);
                }
                if ca == Some(1) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
            }
            BinOp::And => {
                if ca == Some(0) || cb == Some(0) {
                    return self.c(0, w);
                }
                if ca == Some(m) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if a == b {
                    return a;
                }
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                // mask that keeps low bits of a zero-extension
                if let Some(y) = cb {
                    if self.ubound(a, 6) <= y && (y & (y.wrapping_add(1))) == 0 {
                        return a;
                    }
                    if w > 1 && (y & (y + 1)) == 0 {
                        // low-bit mask
                        let k = 128 - y.leading_zeros();
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                }
                if w == 1 && (self.is_not_of(a, b)) {
                    return self.c(0, 1);
                }
            }
            BinOp::Or => {
                if ca == Some(0) {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(m) || cb == Some(m) {
                    return self.c(m, w);
                }
                if a == b {
                    return a;
                }
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if w == 1 && (self.is_not_of(a, b)) {
                    return self.c(1, 1);
                }
            }
            BinOp::Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if ca == Some(0) {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    if ca == Some(1) {
                        return self.not(b);
                    }
                    if cb == Some(1) {
                        return self.not(a);
                    }
                }
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
            }
            BinOp::Shl | BinOp::LShr => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u32;
                    if op == BinOp::LShr {
                        let x = self.extract(a, k, w - k);
                        return self.zext(x, w);
                    } else {
                        let x = self.extract(a, 0, w - k);
                        let z = self.c(0, k);
                        return self.concat(x, z);
                    }
                }
            }
            BinOp::AShr => {
                if cb == Some(0) {
                    return a;
                }
            }
            BinOp::UDiv => {
                if cb == Some(1) {
                    return a;
                }
            }
            BinOp::URem => {
                if let Some(y) = cb {
                    if y == 1 {
                        return self.c(0, w);
                    }
                    if y.is_power_of_two() {
                        let k = self.c(y - 1, w);
                        return self.bin(BinOp::And, a, k);
                    }
                }
            }
            _ => {}
        }
        // Push operations with constants into constant-leaf ites.
        if cb.is_some() {
            if let Op::Ite(c, x, y) = self.n(a).op {
                if self.as_c(x).is_some() && self.as_c(y).is_some() {
                    let p = self.bin(op, x, b);
                    let q = self.bin(op, y, b);
                    return self.ite(c, p, q);
                }
            }
        }
        // Commutative canonical order.
        let (a, b) = match op {
            BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor if a > b && cb.is_none() => (b, a),
            _ => (a, b),
        };
        self.mk(Op::Bin(op, a, b), w)
    }

    fn strip(&self, mut e: EId) -> EId {
        while let Op::ZExt(a) = self.n(e).op {
            e = a;
        }
        e
    }

    /// Whether `a` is `x * b >> k` with `x < 2^k` and without loss of bits, or `x % b`: then
    /// it is less than `b` unless that is 0.
    fn high_part_of(&self, a: EId, b: EId) -> bool {
        let b = self.strip(b);
        let a = self.strip(a);
        let aw = self.w(a);
        if self.as_c(b).is_some() {
            return false;
        }
        if let Op::Bin(BinOp::URem, _, y) = self.n(a).op {
            return self.strip(y) == b;
        }
        if let Op::Extract(0, x) = self.n(a).op {
            if let Op::Bin(BinOp::URem, _, y) = self.n(self.strip(x)).op {
                return self.strip(y) == b && aw >= self.w(b);
            }
        }
        let (m, k) = match self.n(a).op {
            Op::Extract(k, m) => match self.n(m).op {
                Op::Bin(BinOp::LShr, m2, c) if self.as_c(c).is_some() => {
                    let c = self.as_c(c).unwrap();
                    if c > 128 {
                        return false;
                    }
                    (m2, k + c as u32)
                }
                _ => (m, k),
            },
            Op::Bin(BinOp::LShr, m, c) => match self.as_c(c) {
                Some(c) if c <= 128 => (m, c as u32),
                _ => return false,
            },
            _ => return false,
        };
        if let Op::Bin(BinOp::Mul, p, q) = self.n(m).op {
            for (x, y) in [(p, q), (q, p)] {
                if self.strip(y) != b {
                    continue;
                }
                let bits = |e| 128 - self.ubound(e, 8).leading_zeros();
                if bits(x) <= k && bits(x) + bits(y) <= self.w(m) && aw >= bits(y) {
                    return true;
                }
            }
        }
        false
    }

    /// Bits that may be set.
    pub fn bits(&self, e: EId) -> u32 {
        128 - self.ubound(e, 8).leading_zeros()
    }

    fn is_not_of(&self, a: EId, b: EId) -> bool {
        match (self.n(a).op, self.n(b).op) {
            (Op::Not(x), _) if x == b => true,
            (_, Op::Not(y)) if y == a => true,
            _ => false,
        }
    }

    pub fn not(&mut self, a: EId) -> EId {
        let w = self.w(a);
        if let Some(c) = self.as_c(a) {
            return self.c(!c, w);
        }
        if let Op::Not(x) = self.n(a).op {
            return x;
        }
        self.mk(Op::Not(a), w)
    }

    /// If the expression has just two values, chosen by a single bit: that bit and the values.
    fn two_values(&self, e: EId, d: u32) -> Option<(EId, u128, u128)> {
        let n = self.n(e);
        if d == 0 {
            return None;
        }
        match n.op {
            Op::ZExt(x) if self.w(x) == 1 => Some((x, 0, 1)),
            Op::SExt(x) if self.w(x) == 1 => Some((x, 0, mask(n.w))),
            Op::Ite(c, x, y) => Some((c, self.as_c(y)?, self.as_c(x)?)),
            Op::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::And | BinOp::Or | BinOp::Xor), x, y) => {
                let (b, v0, v1, k, left) = match (self.as_c(x), self.as_c(y)) {
                    (_, Some(k)) => self.two_values(x, d - 1).map(|(b, v0, v1)| (b, v0, v1, k, true))?,
                    (Some(k), _) => self.two_values(y, d - 1).map(|(b, v0, v1)| (b, v0, v1, k, false))?,
                    _ => return None,
                };
                let f = |v| if left { bin_c(op, v, k, n.w) } else { bin_c(op, k, v, n.w) };
                Some((b, f(v0), f(v1)))
            }
            _ => None,
        }
    }

    pub fn cmp(&mut self, p: Pred, a: EId, b: EId) -> EId {
        let w = self.w(a);
        match p {
            Pred::Ne => {
                let e = self.cmp(Pred::Eq, a, b);
                return self.not(e);
            }
            Pred::Ugt => return self.cmp(Pred::Ult, b, a),
            Pred::Uge => return self.cmp(Pred::Ule, b, a),
            Pred::Sgt => return self.cmp(Pred::Slt, b, a),
            Pred::Sge => return self.cmp(Pred::Sle, b, a),
            _ => {}
        }
        let (ca, cb) = (self.as_c(a), self.as_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(cmp_c(p, x, y, w) as u128, 1);
        }
        if a == b {
            return self.c(matches!(p, Pred::Eq | Pred::Ule | Pred::Sle) as u128, 1);
        }
        if w > 1 {
            let two = match (ca, cb) {
                (_, Some(y)) => self.two_values(a, 4).map(|(c, v0, v1)| (c, cmp_c(p, v0, y, w), cmp_c(p, v1, y, w))),
                (Some(x), _) => self.two_values(b, 4).map(|(c, v0, v1)| (c, cmp_c(p, x, v0, w), cmp_c(p, x, v1, w))),
                _ => None,
            };
            match two {
                Some((_, r0, r1)) if r0 == r1 => return self.c(r0 as u128, 1),
                Some((c, r0, _)) => return if r0 { self.not(c) } else { c },
                None => {}
            }
        }
        if p == Pred::Ult && self.high_part_of(a, b) {
            let k = self.c(0, w);
            return self.cmp(Pred::Ne, b, k);
        }
        if p == Pred::Ule && self.high_part_of(b, a) {
            let k = self.c(0, w);
            return self.cmp(Pred::Eq, a, k);
        }
        match p {
            Pred::Eq => {
                if ca.is_some() && cb.is_none() {
                    return self.cmp(p, b, a);
                }
                if let Some(y) = cb {
                    if w == 1 {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    match self.n(a).op {
                        Op::ZExt(x) => {
                            let xw = self.w(x);
                            if y > mask(xw) {
                                return self.c(0, 1);
                            }
                            let k = self.c(y, xw);
                            return self.cmp(p, x, k);
                        }
                        Op::SExt(x) => {
                            let xw = self.w(x);
                            let lo = y & mask(xw);
                            if (sext(lo, xw) as u128) & mask(w) != y {
                                return self.c(0, 1);
                            }
                            let k = self.c(lo, xw);
                            return self.cmp(p, x, k);
                        }
                        Op::Concat(h, l) => {
                            let lw = self.w(l);
                            let hw = self.w(h);
                            let kl = self.c(y & mask(lw), lw);
                            let kh = self.c(y >> lw, hw);
                            let e1 = self.cmp(p, h, kh);
                            let e2 = self.cmp(p, l, kl);
                            return self.bin(BinOp::And, e1, e2);
                        }
                        Op::Bin(BinOp::Add, x, c1) => {
                            if let Some(c1) = self.as_c(c1) {
                                let k = self.c(y.wrapping_sub(c1), w);
                                return self.cmp(p, x, k);
                            }
                        }
                        Op::Bin(BinOp::Xor, x, c1) => {
                            if let Some(c1) = self.as_c(c1) {
                                let k = self.c(y ^ c1, w);
                                return self.cmp(p, x, k);
                            }
                            if y == 0 {
                                return self.cmp(p, x, self.xor_rhs(a));
                            }
                        }
                        Op::Ite(c, x, z) => {
                            let e1 = self.cmp(p, x, b);
                            let e2 = self.cmp(p, z, b);
                            if self.as_c(e1).is_some() || self.as_c(e2).is_some() {
                                return self.ite(c, e1, e2);
                            }
                        }
                        _ => {}
                    }
                } else {
                    match (self.n(a).op, self.n(b).op) {
                        (Op::ZExt(x), Op::ZExt(y)) if self.w(x) == self.w(y) => {
                            return self.cmp(p, x, y)
                        }
                        (Op::SExt(x), Op::SExt(y)) if self.w(x) == self.w(y) => {
                            return self.cmp(p, x, y)
                        }
                        _ => {}
                    }
                    if a > b {
                        return self.mk(Op::Cmp(p, b, a), 1);
                    }
                }
            }
            Pred::Ult => {
                if cb == Some(0) {
                    return self.c(0, 1);
                }
                if ca == Some(mask(w)) {
                    return self.c(0, 1);
                }
                if cb == Some(1) {
                    let z = self.c(0, w);
                    return self.cmp(Pred::Eq, a, z);
                }
                if let Some(y) = cb {
                    if self.ubound(a, 6) < y {
                        return self.c(1, 1);
                    }
                }
                if let Some(x) = ca {
                    if self.ubound(b, 6) <= x {
                        return self.c(0, 1);
                    }
                    // x < b  <=>  not (b <= x)
                    if x == 0 {
                        let z = self.c(0, w);
                        let e = self.cmp(Pred::Eq, b, z);
                        return self.not(e);
                    }
                }
                if let Some(r) = self.cmp_zext(p, a, b) {
                    return r;
                }
            }
            Pred::Ule => {
                // a <= b  <=>  not (b < a)
                let e = self.cmp(Pred::Ult, b, a);
                return self.not(e);
            }
            Pred::Sle => {
                let e = self.cmp(Pred::Slt, b, a);
                return self.not(e);
            }
            Pred::Slt => {
                // non-negative on both sides: unsigned comparison
                let half = if w >= 1 { 1u128 << (w - 1) } else { 1 };
                if self.ubound(a, 6) < half && self.ubound(b, 6) < half {
                    return self.cmp(Pred::Ult, a, b);
                }
                if cb == Some(0) {
                    if self.ubound(a, 6) < half {
                        return self.c(0, 1);
                    }
                }
            }
            _ => {}
        }
        // ite with constant leaves against a constant
        if cb.is_some() {
            if let Op::Ite(c, x, y) = self.n(a).op {
                if self.as_c(x).is_some() && self.as_c(y).is_some() {
                    let e1 = self.cmp(p, x, b);
                    let e2 = self.cmp(p, y, b);
                    return self.ite(c, e1, e2);
                }
            }
        }
        self.mk(Op::Cmp(p, a, b), 1)
    }

    fn xor_rhs(&self, e: EId) -> EId {
        match self.n(e).op {
            Op::Bin(_, _, r) => r,
            _ => unreachable!(),
        }
    }

    fn cmp_zext(&mut self, p: Pred, a: EId, b: EId) -> Option<EId> {
        match (self.n(a).op, self.n(b).op) {
            (Op::ZExt(x), Op::ZExt(y)) if self.w(x) == self.w(y) => Some(self.cmp(p, x, y)),
            (Op::ZExt(x), Op::Const(c)) => {
                let xw = self.w(x);
                if c <= mask(xw) {
                    let k = self.c(c, xw);
                    Some(self.cmp(p, x, k))
                } else {
                    None
                }
            }
            (Op::Const(c), Op::ZExt(y)) => {
                let yw = self.w(y);
                if c <= mask(yw) {
                    let k = self.c(c, yw);
                    Some(self.cmp(p, k, y))
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    pub fn ite(&mut self, c: EId, a: EId, b: EId) -> EId {
        if let Some(k) = self.as_c(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_c(a), self.as_c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(BinOp::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(BinOp::And, n, b);
                }
                (None, Some(0)) => return self.bin(BinOp::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(BinOp::Or, n, a);
                }
                _ => {}
            }
        }
        if let Op::Not(x) = self.n(c).op {
            return self.ite(x, b, a);
        }
        self.mk(Op::Ite(c, a, b), w)
    }

    pub fn extract(&mut self, a: EId, lo: u32, w: u32) -> EId {
        let n = self.n(a);
        if lo == 0 && w == n.w {
            return a;
        }
        match n.op {
            Op::Const(c) => return self.c(c >> lo, w),
            Op::Extract(l2, x) => return self.extract(x, lo + l2, w),
            Op::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                let lo_part = self.extract(l, lo, lw - lo);
                let hi_part = self.extract(h, 0, w - (lw - lo));
                return self.concat(hi_part, lo_part);
            }
            Op::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    return self.c(0, w);
                }
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                let p = self.extract(x, lo, xw - lo);
                return self.zext(p, w);
            }
            Op::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
            }
            Op::Ite(c, x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.ite(c, p, q);
            }
            Op::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.bin(op, p, q);
            }
            Op::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), x, y) if lo == 0 => {
                let p = self.extract(x, 0, w);
                let q = self.extract(y, 0, w);
                return self.bin(op, p, q);
            }
            Op::Not(x) => {
                let p = self.extract(x, lo, w);
                return self.not(p);
            }
            _ => {}
        }
        self.mk(Op::Extract(lo, a), w)
    }

    pub fn concat(&mut self, h: EId, l: EId) -> EId {
        let (hw, lw) = (self.w(h), self.w(l));
        if let (Some(a), Some(b)) = (self.as_c(h), self.as_c(l)) {
            return self.c((a << lw) | b, hw + lw);
        }
        if self.as_c(h) == Some(0) {
            return self.zext(l, hw + lw);
        }
        // adjacent extracts of the same expression
        match (self.n(h).op, self.n(l).op) {
            (Op::Extract(hl, x), Op::Extract(ll, y)) if x == y && hl == ll + lw => {
                return self.extract(x, ll, hw + lw)
            }
            (Op::Extract(hl, x), _) if x == l && hl == lw => return self.extract(x, 0, hw + lw),
            (Op::Ite(c, a, b), Op::Ite(c2, d, e)) if c == c2 => {
                let p = self.concat(a, d);
                let q = self.concat(b, e);
                return self.ite(c, p, q);
            }
            (Op::Concat(a, b), _) => {
                // keep right-nested so that adjacent pieces meet
                let bl = self.concat(b, l);
                if !matches!(self.n(bl).op, Op::Concat(..)) {
                    return self.concat(a, bl);
                }
            }
            _ => {}
        }
        self.mk(Op::Concat(h, l), hw + lw)
    }

    pub fn zext(&mut self, a: EId, w: u32) -> EId {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const(c) => self.c(c, w),
            Op::ZExt(x) => self.zext(x, w),
            Op::Ite(c, x, y) if self.as_c(x).is_some() && self.as_c(y).is_some() => {
                let p = self.zext(x, w);
                let q = self.zext(y, w);
                self.ite(c, p, q)
            }
            _ => self.mk(Op::ZExt(a), w),
        }
    }

    pub fn sext(&mut self, a: EId, w: u32) -> EId {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const(c) => self.c(sext(c, n.w) as u128, w),
            Op::SExt(x) => self.sext(x, w),
            Op::ZExt(x) => self.zext(x, w),
            Op::Ite(c, x, y) if self.as_c(x).is_some() && self.as_c(y).is_some() => {
                let p = self.sext(x, w);
                let q = self.sext(y, w);
                self.ite(c, p, q)
            }
            _ => self.mk(Op::SExt(a), w),
        }
    }

    // ---------------------------------------------------------------- evaluation

    /// The indexes of the variables of an expression, sorted.
    pub fn vars(&mut self, e: EId) -> std::rc::Rc<[u32]> {
        if self.vsets.len() <= e as usize {
            self.vsets.resize(self.nodes.len(), None);
        }
        if let Some(v) = &self.vsets[e as usize] {
            return v.clone();
        }
        let kids: Vec<EId> = match self.n(e).op {
            Op::Const(_) | Op::Var(_) => vec![],
            Op::Bin(_, a, b) | Op::Cmp(_, a, b) | Op::Concat(a, b) => vec![a, b],
            Op::Not(a) | Op::Extract(_, a) | Op::ZExt(a) | Op::SExt(a) => vec![a],
            Op::Ite(a, b, c) => vec![a, b, c],
        };
        let mut out: Vec<u32> = vec![];
        if let Op::Var(k) = self.n(e).op {
            let next = self.vkeys.len() as u32;
            let i = *self.vidx.entry(k).or_insert(next);
            if i == next {
                self.vkeys.push(k);
            }
            out.push(i);
        }
        for k in kids {
            let v = self.vars(k);
            if out.is_empty() {
                out.extend_from_slice(&v);
            } else {
                out.extend_from_slice(&v);
                out.sort_unstable();
                out.dedup();
            }
        }
        let r: std::rc::Rc<[u32]> = out.into();
        self.vsets[e as usize] = Some(r.clone());
        r
    }

    pub fn new_gen(&mut self) {
        self.gen += 1;
    }

    pub fn eval(&mut self, e: EId, m: &Model) -> u128 {
        let (g, v) = self.memo[e as usize];
        if g == self.gen {
            return v;
        }
        let n = self.n(e);
        let r = match n.op {
            Op::Const(c) => c,
            Op::Var(k) => m.vals.get(&k).copied().unwrap_or(0) & mask(n.w),
            Op::Bin(op, a, b) => {
                let x = self.eval(a, m);
                let y = self.eval(b, m);
                bin_c(op, x, y, n.w)
            }
            Op::Cmp(p, a, b) => {
                let x = self.eval(a, m);
                let y = self.eval(b, m);
                cmp_c(p, x, y, self.w(a)) as u128
            }
            Op::Not(a) => !self.eval(a, m) & mask(n.w),
            Op::Ite(c, a, b) => {
                if self.eval(c, m) == 1 {
                    self.eval(a, m)
                } else {
                    self.eval(b, m)
                }
            }
            Op::Extract(lo, a) => (self.eval(a, m) >> lo) & mask(n.w),
            Op::Concat(h, l) => {
                let x = self.eval(h, m);
                let y = self.eval(l, m);
                (x << self.w(l)) | y
            }
            Op::ZExt(a) => self.eval(a, m),
            Op::SExt(a) => (sext(self.eval(a, m), self.w(a)) as u128) & mask(n.w),
        };
        self.memo[e as usize] = (self.gen, r);
        r
    }
}
