//! Parser for the textual LLVM IR that rustc emits, into a compact executable form.
//!
//! Only what rustc emits for integer/pointer code is understood; anything else becomes an
//! `I::Unsupported` instruction, which is an engine error only if an execution reaches it.

use std::collections::HashMap;

pub type Reg = u32;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, Box<Ty>),
    Vector(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (*w + 7) / 8 {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Allocation size in bytes.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    /// Bits of a scalar (or of a packed vector).
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vector(n, t) => (*n as u32) * t.bits(),
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (j, t) in ts.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Array(_, t) => t.size() * i as u64,
            Ty::Vector(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(ts, _) => ts[i].clone(),
            Ty::Array(_, t) => (**t).clone(),
            Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("elem of scalar"),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Array(..))
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(Reg),
    C(u128),
    Agg(Vec<Opd>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Debug)]
pub struct Target {
    pub block: u32,
    pub moves: Vec<(Reg, Opd)>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ext(String),
    /// index into `Program::exts`
    X(u32),
    Ind(Opd),
}

#[derive(Clone, Debug)]
pub enum I {
    /// `lanes` is 0 for scalars
    Bin { op: BinOp, w: u32, lanes: u32, dst: Reg, a: Opd, b: Opd },
    ICmp { p: Pred, w: u32, lanes: u32, dst: Reg, a: Opd, b: Opd },
    Cast { k: CastK, from: u32, to: u32, lanes: u32, dst: Reg, a: Opd },
    Select { dst: Reg, c: Opd, a: Opd, b: Opd, ty: Ty, clanes: u32 },
    Load { dst: Reg, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { dst: Reg, base: Opd, off: i64, idx: Vec<(Opd, u32, i64)> },
    Alloca { dst: Reg, size: u64, align: u64 },
    Call { dst: Option<Reg>, callee: Callee, args: Vec<Opd>, argw: Vec<u32>, ret: Ty },
    ExtractValue { dst: Reg, agg: Opd, idx: Vec<u32> },
    InsertValue { dst: Reg, agg: Opd, v: Opd, idx: Vec<u32>, ty: Ty },
    ExtractElt { dst: Reg, v: Opd, ew: u32, i: Opd },
    InsertElt { dst: Reg, v: Opd, e: Opd, ew: u32, i: Opd },
    Shuffle { dst: Reg, a: Opd, b: Opd, ew: u32, n: u32, mask: Vec<i32> },
    Copy { dst: Reg, a: Opd },
    /// Without operation: an exchange.
    Rmw { dst: Reg, op: Option<BinOp>, ty: Ty, p: Opd, v: Opd },
    CmpXchg { dst: Reg, ty: Ty, p: Opd, cmp: Opd, new: Opd },
    Br(Target),
    CondBr { c: Opd, t: Target, f: Target },
    Switch { v: Opd, w: u32, cases: Vec<(u128, Target)>, default: Target },
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(String),
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Vec<I>>,
    pub src_module: u32,
}

pub struct Global {
    pub name: String,
    pub init: Vec<u8>,
    pub align: u64,
    pub constant: bool,
    pub external: bool,
}

pub struct Program {
    pub funcs: Vec<Func>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub exts: Vec<String>,
    /// relocations are already applied in `init`
    pub warnings: Vec<String>,
}

pub const GLOBAL_OBJ_BASE: u64 = 2;
/// Object ids of functions (addresses only).
pub const FN_OBJ_BASE: u64 = 0x4000_0000;

pub fn global_addr(i: usize) -> u64 {
    (GLOBAL_OBJ_BASE + i as u64) << 32
}
pub fn fn_addr(i: u32) -> u64 {
    (FN_OBJ_BASE + i as u64) << 32
}

// ------------------------------------------------------------------------------------------
// Lexer

#[derive(Clone, Debug, PartialEq)]
enum T {
    Local(String),
    Global(String),
    Word(String),
    Num(String),
    Str(Vec<u8>),
    Meta,
    Attr,
    P(char),
    Dots,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 {
            if s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            if let Ok(v) = u8::from_str_radix(h, 16) {
                o.push(v);
                i += 3;
                continue;
            }
        }
        o.push(s[i]);
        i += 1;
    }
    o
}

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => i += 1,
            b';' => {
                // comment till the end of the line
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i = st;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && is_id(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                v.push(if c == b'%' { T::Local(name) } else { T::Global(name) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && (is_id(b[i])) {
                    i += 1;
                }
                v.push(T::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                v.push(T::Attr);
            }
            b'"' => {
                let st = i + 1;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                v.push(T::Str(unescape(&b[st..i])));
                i += 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                v.push(T::Str(unescape(&b[st..i])));
                i += 1;
            }
            b'.' if i + 2 < b.len() && b[i + 1] == b'.' && b[i + 2] == b'.' => {
                v.push(T::Dots);
                i += 3;
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < b.len() && is_id(b[i]) {
                    i += 1;
                }
                v.push(T::Num(s[st..i].to_string()));
            }
            _ if is_id(c) => {
                let st = i;
                while i < b.len() && is_id(b[i]) {
                    i += 1;
                }
                v.push(T::Word(s[st..i].to_string()));
            }
            _ => {
                v.push(T::P(c as char));
                i += 1;
            }
        }
    }
    v
}

// ------------------------------------------------------------------------------------------
// Parser

type R<X> = Result<X, String>;

struct Ctx {
    types: HashMap<String, Ty>,
    /// symbol -> value, for this module (module-local ones first)
    syms: HashMap<String, u64>,
    /// symbol -> function index
    fns: HashMap<String, u32>,
}

struct Ps<'a> {
    t: Vec<T>,
    i: usize,
    cx: &'a Ctx,
    regs: HashMap<String, Reg>,
}

impl<'a> Ps<'a> {
    fn new(s: &str, cx: &'a Ctx, regs: HashMap<String, Reg>) -> Self {
        Ps { t: lex(s), i: 0, cx, regs }
    }
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<T> {
        let r = self.t.get(self.i).cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(r)
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(T::P(x)) if *x == c)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::Word(x)) if x == w)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' got {:?}", c, self.peek()))
        }
    }
    fn exp_w(&mut self, c: &str) -> R<()> {
        if self.eat_w(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' got {:?}", c, self.peek()))
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            T::Num(s) => s.parse().map_err(|_| format!("bad number {}", s)),
            t => Err(format!("expected number, got {:?}", t)),
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.exp_p('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                T::P('(') => d += 1,
                T::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn reg(&mut self, n: &str) -> Reg {
        let l = self.regs.len() as Reg;
        *self.regs.entry(n.to_string()).or_insert(l)
    }

    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(T::Word(w)) => {
                w == "ptr"
                    || w == "void"
                    || w == "float"
                    || w == "double"
                    || w == "label"
                    || w == "metadata"
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()))
            }
            Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) => true,
            Some(T::Local(n)) => self.cx.types.contains_key(n),
            _ => false,
        }
    }

    fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            T::Word(w) => match &w[..] {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                _ if w.starts_with('i') => {
                    Ty::Int(w[1..].parse().map_err(|_| format!("bad type {}", w))?)
                }
                _ => return Err(format!("unknown type {}", w)),
            },
            T::Local(n) => self.cx.types.get(&n).cloned().ok_or(format!("unknown type %{}", n))?,
            T::P('[') => {
                let n = self.num()? as u64;
                self.exp_w("x")?;
                let t = self.ty()?;
                self.exp_p(']')?;
                Ty::Array(n, Box::new(t))
            }
            T::P('{') => {
                let mut v = vec![];
                while !self.eat_p('}') {
                    v.push(self.ty()?);
                    self.eat_p(',');
                }
                Ty::Struct(v, false)
            }
            T::P('<') => {
                if self.eat_p('{') {
                    let mut v = vec![];
                    while !self.eat_p('}') {
                        v.push(self.ty()?);
                        self.eat_p(',');
                    }
                    self.exp_p('>')?;
                    Ty::Struct(v, true)
                } else {
                    let n = self.num()? as u64;
                    self.exp_w("x")?;
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vector(n, Box::new(t))
                }
            }
            t => return Err(format!("expected type, got {:?}", t)),
        };
        Ok(t)
    }

    fn zero(ty: &Ty) -> Opd {
        match ty {
            Ty::Struct(ts, _) => Opd::Agg(ts.iter().map(Self::zero).collect()),
            Ty::Array(n, t) => Opd::Agg((0..*n).map(|_| Self::zero(t)).collect()),
            _ => Opd::C(0),
        }
    }

    fn mask(w: u32) -> u128 {
        if w >= 128 {
            u128::MAX
        } else {
            (1u128 << w) - 1
        }
    }

    fn pack_vec(n: u64, et: &Ty, elems: &[Opd]) -> R<Opd> {
        let ew = et.bits();
        if ew as u64 * n > 128 {
            return Err("vector too wide".into());
        }
        let mut r = 0u128;
        for (i, e) in elems.iter().enumerate() {
            match e {
                Opd::C(c) => r |= (c & Self::mask(ew)) << (i as u32 * ew),
                _ => return Err("non-constant vector element".into()),
            }
        }
        Ok(Opd::C(r))
    }

    /// A value of type `ty`.
    fn val(&mut self, ty: &Ty) -> R<Opd> {
        Ok(match self.next()? {
            T::Local(n) => {
                let r = self.reg(&n);
                Opd::Reg(r)
            }
            T::Global(n) => Opd::C(
                *self.cx.syms.get(&n).ok_or_else(|| format!("unknown symbol @{}", n))? as u128,
            ),
            T::Num(s) => match ty {
                Ty::Int(w) => {
                    let v: i128 = match s.parse::<i128>() {
                        Ok(v) => v,
                        Err(_) => s.parse::<u128>().map_err(|_| format!("bad int {}", s))? as i128,
                    };
                    Opd::C((v as u128) & Self::mask(*w))
                }
                Ty::Ptr => Opd::C(0),
                Ty::Float(_) => return Err("float constant".into()),
                _ => return Err(format!("number of type {:?}", ty)),
            },
            T::Str(b) => Opd::Agg(b.into_iter().map(|x| Opd::C(x as u128)).collect()),
            T::P('{') => {
                let mut v = vec![];
                while !self.eat_p('}') {
                    let t = self.ty()?;
                    v.push(self.val(&t)?);
                    self.eat_p(',');
                }
                Opd::Agg(v)
            }
            T::P('[') => {
                let mut v = vec![];
                while !self.eat_p(']') {
                    let t = self.ty()?;
                    v.push(self.val(&t)?);
                    self.eat_p(',');
                }
                Opd::Agg(v)
            }
            T::P('<') => {
                if self.eat_p('{') {
                    let mut v = vec![];
                    while !self.eat_p('}') {
                        let t = self.ty()?;
                        v.push(self.val(&t)?);
                        self.eat_p(',');
                    }
                    self.exp_p('>')?;
                    Opd::Agg(v)
                } else {
                    let mut v = vec![];
                    while !self.eat_p('>') {
                        let t = self.ty()?;
                        v.push(self.val(&t)?);
                        self.eat_p(',');
                    }
                    match ty {
                        Ty::Vector(n, et) => Self::pack_vec(*n, et, &v)?,
                        _ => return Err("vector constant of non-vector type".into()),
                    }
                }
            }
            T::Word(w) => match &w[..] {
                "true" => Opd::C(1),
                "false" | "null" => Opd::C(0),
                "undef" | "poison" | "zeroinitializer" | "none" => Self::zero(ty),
                "splat" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let v = self.val(&t)?;
                    self.exp_p(')')?;
                    match ty {
                        Ty::Vector(n, et) => {
                            let vs: Vec<Opd> = (0..*n).map(|_| v.clone()).collect();
                            Self::pack_vec(*n, et, &vs)?
                        }
                        _ => return Err("splat of non-vector".into()),
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let v = self.val(&t)?;
                    self.exp_w("to")?;
                    let t2 = self.ty()?;
                    self.exp_p(')')?;
                    match v {
                        Opd::C(c) => Opd::C(c & Self::mask(t2.bits())),
                        o => o,
                    }
                }
                "getelementptr" => {
                    while let Some(T::Word(_)) = self.peek() {
                        let is_inrange = self.is_w("inrange");
                        self.i += 1;
                        if is_inrange {
                            self.skip_parens()?;
                        }
                    }
                    self.exp_p('(')?;
                    let st = self.ty()?;
                    self.exp_p(',')?;
                    let pt = self.ty()?;
                    let base = self.val(&pt)?;
                    let (off, idx) = self.gep_idx(&st)?;
                    self.exp_p(')')?;
                    if !idx.is_empty() {
                        return Err("non-constant gep constant".into());
                    }
                    match base {
                        Opd::C(c) => Opd::C((c as u64).wrapping_add(off as u64) as u128),
                        _ => return Err("gep constant base".into()),
                    }
                }
                "sub" | "add" => {
                    while let Some(T::Word(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let a = self.val(&t)?;
                    self.exp_p(',')?;
                    let t2 = self.ty()?;
                    let b = self.val(&t2)?;
                    self.exp_p(')')?;
                    match (a, b) {
                        (Opd::C(a), Opd::C(b)) => Opd::C(
                            (if w == "add" { a.wrapping_add(b) } else { a.wrapping_sub(b) })
                                & Self::mask(t.bits()),
                        ),
                        _ => return Err("constexpr".into()),
                    }
                }
                _ => return Err(format!("unknown value word {}", w)),
            },
            t => return Err(format!("unknown value {:?}", t)),
        })
    }

    /// `, ty idx, ty idx ...`
    fn gep_idx(&mut self, src: &Ty) -> R<(i64, Vec<(Opd, u32, i64)>)> {
        let mut off = 0i64;
        let mut idx = vec![];
        let mut cur = src.clone();
        let mut first = true;
        while self.is_p(',') && !matches!(self.t.get(self.i + 1), Some(T::Meta)) {
            self.i += 1;
            let t = self.ty()?;
            let w = t.bits();
            let v = self.val(&t)?;
            let scale;
            if first {
                scale = cur.size() as i64;
                first = false;
            } else {
                match cur.clone() {
                    Ty::Struct(..) => {
                        let i = match v {
                            Opd::C(c) => c as usize,
                            _ => return Err("struct gep index".into()),
                        };
                        off += cur.field_offset(i) as i64;
                        cur = cur.elem(i);
                        continue;
                    }
                    Ty::Array(_, t) | Ty::Vector(_, t) => {
                        scale = t.size() as i64;
                        cur = *t;
                    }
                    _ => return Err("gep into scalar".into()),
                }
            }
            match v {
                Opd::C(c) => {
                    let s = sext(c, w) as i64;
                    off = off.wrapping_add(s.wrapping_mul(scale));
                }
                o => idx.push((o, w, scale)),
            }
        }
        Ok((off, idx))
    }

    fn skip_words(&mut self) {
        while let Some(T::Word(_)) = self.peek() {
            if self.is_type_start() {
                break;
            }
            self.i += 1;
            if self.is_p('(') {
                let _ = self.skip_parens();
            }
        }
    }

    /// Skip parameter/return attributes (words, with parenthesised arguments or a number).
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(T::Word(w)) => {
                    if self.is_type_start()
                        || matches!(
                            &w[..],
                            "true" | "false"
                                | "null"
                                | "undef"
                                | "poison"
                                | "zeroinitializer"
                                | "splat"
                                | "inttoptr"
                                | "ptrtoint"
                                | "getelementptr"
                                | "bitcast"
                                | "sub"
                                | "add"
                        )
                    {
                        return Ok(());
                    }
                    let al = w == "align";
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens()?;
                    } else if al {
                        self.i += 1;
                    }
                }
                Some(T::Str(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                Some(T::Attr) => self.i += 1,
                _ => return Ok(()),
            }
        }
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

fn const_bytes(o: &Opd, ty: &Ty, out: &mut [u8]) {
    match (o, ty) {
        (Opd::Agg(v), Ty::Struct(ts, _)) => {
            for (i, (e, t)) in v.iter().zip(ts).enumerate() {
                let off = ty.field_offset(i) as usize;
                const_bytes(e, t, &mut out[off..off + t.size() as usize]);
            }
        }
        (Opd::Agg(v), Ty::Array(_, t)) => {
            let s = t.size() as usize;
            for (i, e) in v.iter().enumerate() {
                const_bytes(e, t, &mut out[i * s..(i + 1) * s]);
            }
        }
        (Opd::C(c), _) => {
            let n = out.len().min(16);
            out[..n].copy_from_slice(&c.to_le_bytes()[..n]);
        }
        _ => {}
    }
}

struct RawFn {
    header: String,
    pretty: String,
    lines: Vec<String>,
    module: usize,
    name: String,
    internal: bool,
}

struct RawGlobal {
    name: String,
    rest: String,
    module: usize,
    internal: bool,
    external: bool,
}

fn is_internal_linkage(s: &str) -> bool {
    s.split_whitespace().take(3).any(|w| w == "internal" || w == "private")
}

fn symbol_after_at(s: &str) -> Option<(String, usize)> {
    let p = s.find('@')?;
    let b = s.as_bytes();
    if b.get(p + 1) == Some(&b'"') {
        let e = s[p + 2..].find('"')? + p + 2;
        Some((s[p + 2..e].to_string(), e + 1))
    } else {
        let mut e = p + 1;
        while e < b.len() && is_id(b[e]) {
            e += 1;
        }
        Some((s[p + 1..e].to_string(), e))
    }
}

pub fn load(files: &[(String, String)]) -> Result<Program, String> {
    let mut raw_fns: Vec<RawFn> = vec![];
    let mut raw_globals: Vec<RawGlobal> = vec![];
    let mut type_lines: Vec<Vec<(String, String)>> = vec![];
    let mut aliases: Vec<(usize, String, String)> = vec![];
    for (mi, (_, text)) in files.iter().enumerate() {
        let mut tl = vec![];
        let mut comment = String::new();
        let mut it = text.lines();
        while let Some(line) = it.next() {
            if line.starts_with("; ") {
                if !line.starts_with("; Function Attrs") && !line.starts_with("; Module") {
                    comment = line[2..].to_string();
                }
                continue;
            }
            if line.starts_with('%') && line.contains(" = type ") {
                let p = line.find(" = type ").unwrap();
                let n = line[1..p].trim_matches('"').to_string();
                tl.push((n, line[p + 8..].to_string()));
            } else if line.starts_with('@') {
                let (name, e) = symbol_after_at(line).ok_or("bad global")?;
                let rest = line[e..].trim_start().trim_start_matches('=').trim_start().to_string();
                let words: Vec<&str> = rest.split_whitespace().take(6).collect();
                if words.iter().any(|w| *w == "alias") {
                    let p = rest.find('@').ok_or("bad alias")?;
                    let (t, _) = symbol_after_at(&rest[p..]).ok_or("bad alias")?;
                    aliases.push((mi, name, t));
                    continue;
                }
                raw_globals.push(RawGlobal {
                    internal: is_internal_linkage(&rest),
                    external: words.first().map_or(false, |w| *w == "external" || *w == "extern_weak"),
                    name,
                    rest,
                    module: mi,
                });
            } else if line.starts_with("define ") {
                let (name, _) = symbol_after_at(line).ok_or("bad define")?;
                let mut lines = vec![];
                for l in it.by_ref() {
                    if l == "}" {
                        break;
                    }
                    lines.push(l.to_string());
                }
                raw_fns.push(RawFn {
                    internal: is_internal_linkage(&line[7..]),
                    header: line.to_string(),
                    pretty: std::mem::take(&mut comment),
                    lines,
                    module: mi,
                    name,
                });
            }
        }
        type_lines.push(tl);
    }
    // Symbol addresses.
    let nm = files.len();
    let mut glob_fns: HashMap<String, u32> = HashMap::new();
    let mut mod_fns: Vec<HashMap<String, u32>> = vec![HashMap::new(); nm];
    for (i, f) in raw_fns.iter().enumerate() {
        if f.internal {
            mod_fns[f.module].insert(f.name.clone(), i as u32);
        } else {
            glob_fns.entry(f.name.clone()).or_insert(i as u32);
            mod_fns[f.module].insert(f.name.clone(), i as u32);
        }
    }
    // Globals: drop external declarations that are defined elsewhere.
    let mut glob_syms: HashMap<String, u64> = HashMap::new();
    let mut mod_syms: Vec<HashMap<String, u64>> = vec![HashMap::new(); nm];
    let mut kept: Vec<usize> = vec![];
    for (i, g) in raw_globals.iter().enumerate() {
        if g.external {
            continue;
        }
        let a = global_addr(kept.len());
        kept.push(i);
        mod_syms[g.module].insert(g.name.clone(), a);
        if !g.internal {
            glob_syms.entry(g.name.clone()).or_insert(a);
        }
    }
    for (i, g) in raw_globals.iter().enumerate() {
        if !g.external {
            continue;
        }
        let a = match glob_syms.get(&g.name) {
            Some(a) => *a,
            None => {
                let a = global_addr(kept.len());
                kept.push(i);
                glob_syms.insert(g.name.clone(), a);
                a
            }
        };
        mod_syms[g.module].insert(g.name.clone(), a);
    }
    // Declared-only functions get addresses too (for vtables etc).
    let mut extra: HashMap<String, u64> = HashMap::new();
    let mut nfn = raw_fns.len() as u32;
    for (_, text) in files.iter() {
        for line in text.lines() {
            if line.starts_with("declare ") {
                if let Some((n, _)) = symbol_after_at(line) {
                    if !glob_fns.contains_key(&n) && !extra.contains_key(&n) {
                        extra.insert(n, fn_addr(nfn));
                        nfn += 1;
                    }
                }
            }
        }
    }
    let mut ctxs = vec![];
    for mi in 0..nm {
        let mut syms: HashMap<String, u64> = extra.clone();
        let mut fns: HashMap<String, u32> = glob_fns.clone();
        for (k, v) in &glob_fns {
            syms.insert(k.clone(), fn_addr(*v));
        }
        for (k, v) in &glob_syms {
            syms.insert(k.clone(), *v);
        }
        for (k, v) in &mod_fns[mi] {
            syms.insert(k.clone(), fn_addr(*v));
            fns.insert(k.clone(), *v);
        }
        for (k, v) in &mod_syms[mi] {
            syms.insert(k.clone(), *v);
        }
        let _ = &aliases;
        for (m, n, t) in &aliases {
            if *m == mi {
                if let Some(v) = fns.get(t).copied() {
                    fns.insert(n.clone(), v);
                    syms.insert(n.clone(), fn_addr(v));
                    glob_fns.entry(n.clone()).or_insert(v);
                } else if let Some(v) = syms.get(t).copied() {
                    syms.insert(n.clone(), v);
                }
            }
        }
        let mut cx = Ctx { types: HashMap::new(), syms, fns };
        // Named types, to a fixpoint (definitions may come in any order).
        let mut todo = type_lines[mi].clone();
        while !todo.is_empty() {
            let n0 = todo.len();
            let mut rest = vec![];
            for (n, d) in todo {
                let r = {
                    let mut p = Ps::new(&d, &cx, HashMap::new());
                    if p.is_w("opaque") {
                        Ok(Ty::Struct(vec![], false))
                    } else {
                        p.ty()
                    }
                };
                match r {
                    Ok(t) => {
                        cx.types.insert(n, t);
                    }
                    Err(_) => rest.push((n, d)),
                }
            }
            if rest.len() == n0 {
                return Err(format!("cannot resolve types {:?}", rest));
            }
            todo = rest;
        }
        ctxs.push(cx);
    }
    let mut warnings = vec![];
    let mut globals = vec![];
    for gi in &kept {
        let g = &raw_globals[*gi];
        let cx = &ctxs[g.module];
        let mut p = Ps::new(&g.rest, cx, HashMap::new());
        let mut constant = false;
        let mut ok = false;
        while let Some(t) = p.peek() {
            match t {
                T::Word(w) if w == "constant" || w == "global" => {
                    constant = w == "constant";
                    p.i += 1;
                    ok = true;
                    break;
                }
                _ => p.i += 1,
            }
        }
        if !ok {
            return Err(format!("global {} not understood", g.name));
        }
        let ty = p.ty()?;
        let mut init = vec![0u8; ty.size() as usize];
        if !g.external {
            match p.val(&ty) {
                Ok(v) => const_bytes(&v, &ty, &mut init),
                Err(e) => warnings.push(format!("global {}: {}", g.name, e)),
            }
        }
        globals.push(Global {
            name: g.name.clone(),
            init,
            align: 16,
            constant,
            external: g.external,
        });
    }
    let mut funcs = vec![];
    for f in &raw_fns {
        funcs.push(parse_fn(f, &ctxs[f.module]).map_err(|e| format!("{}: {}", f.name, e))?);
    }
    let mut exts: Vec<String> = vec![];
    let mut ext_ix: HashMap<String, u32> = HashMap::new();
    for f in funcs.iter_mut() {
        for b in f.blocks.iter_mut() {
            for i in b.iter_mut() {
                if let I::Call { callee, .. } = i {
                    if let Callee::Ext(n) = callee {
                        let k = *ext_ix.entry(n.clone()).or_insert_with(|| {
                            exts.push(n.clone());
                            exts.len() as u32 - 1
                        });
                        *callee = Callee::X(k);
                    }
                }
            }
        }
    }
    Ok(Program { funcs, fn_by_name: glob_fns, globals, exts, warnings })
}

fn parse_fn(f: &RawFn, cx: &Ctx) -> R<Func> {
    // Parameters.
    let (_, e) = symbol_after_at(&f.header).unwrap();
    let mut regs: HashMap<String, Reg> = HashMap::new();
    let mut nparams = 0;
    {
        let mut p = Ps::new(&f.header[e..], cx, HashMap::new());
        p.exp_p('(')?;
        while !p.eat_p(')') {
            if let Some(T::Dots) = p.peek() {
                p.i += 1;
                continue;
            }
            let _t = p.ty()?;
            p.skip_attrs()?;
            if let Some(T::Local(n)) = p.peek().cloned() {
                p.i += 1;
                regs.insert(n, nparams);
            } else {
                regs.insert(format!("{}", nparams), nparams);
            }
            nparams += 1;
            p.eat_p(',');
        }
    }
    // Split into blocks.
    let mut block_ids: HashMap<String, u32> = HashMap::new();
    let mut blocks: Vec<(String, Vec<String>)> = vec![];
    let mut li = 0;
    while li < f.lines.len() {
        let l = &f.lines[li];
        li += 1;
        let tr = l.trim();
        if tr.is_empty() || tr.starts_with(';') || tr.starts_with('#') {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let name = if l.starts_with('"') {
                l[1..].split('"').next().unwrap().to_string()
            } else {
                l.split(':').next().unwrap().to_string()
            };
            block_ids.insert(name.clone(), blocks.len() as u32);
            blocks.push((name, vec![]));
            continue;
        }
        if blocks.is_empty() {
            block_ids.insert(format!("{}", nparams), 0);
            blocks.push((format!("{}", nparams), vec![]));
        }
        let mut full = tr.to_string();
        if tr.starts_with("switch ") && !tr.contains(']') {
            while li < f.lines.len() {
                let l2 = f.lines[li].trim().to_string();
                li += 1;
                full.push(' ');
                full.push_str(&l2);
                if l2.starts_with(']') {
                    break;
                }
            }
        }
        blocks.last_mut().unwrap().1.push(full);
    }
    // Parse instructions; collect phis.
    let mut phis: Vec<Vec<(Reg, Vec<(String, Opd)>)>> = vec![vec![]; blocks.len()];
    let mut out: Vec<Vec<I>> = vec![];
    let mut n_regs_holder = regs;
    for (bi, (_, lines)) in blocks.iter().enumerate() {
        let mut v = vec![];
        for l in lines {
            let mut p = Ps::new(l, cx, std::mem::take(&mut n_regs_holder));
            let r = parse_inst(&mut p, &block_ids, &mut phis[bi]);
            n_regs_holder = std::mem::take(&mut p.regs);
            match r {
                Ok(Some(i)) => v.push(i),
                Ok(None) => {}
                Err(e) => v.push(I::Unsupported(format!("{} in `{}`", e, l))),
            }
        }
        out.push(v);
    }
    // Resolve phi moves.
    for bi in 0..out.len() {
        let from = blocks[bi].0.clone();
        if let Some(last) = out[bi].last_mut() {
            let fix = |t: &mut Target| {
                for (dst, srcs) in &phis[t.block as usize] {
                    for (b, o) in srcs {
                        if *b == from {
                            t.moves.push((*dst, o.clone()));
                            break;
                        }
                    }
                }
            };
            match last {
                I::Br(t) => fix(t),
                I::CondBr { t, f, .. } => {
                    fix(t);
                    fix(f)
                }
                I::Switch { cases, default, .. } => {
                    for c in cases {
                        fix(&mut c.1)
                    }
                    fix(default)
                }
                _ => {}
            }
        }
    }
    Ok(Func {
        name: f.name.clone(),
        pretty: f.pretty.clone(),
        nparams,
        nregs: n_regs_holder.len() as u32,
        blocks: out,
        src_module: f.module as u32,
    })
}

fn parse_label(p: &mut Ps, ids: &HashMap<String, u32>) -> R<Target> {
    p.exp_w("label")?;
    match p.next()? {
        T::Local(n) => Ok(Target {
            block: *ids.get(&n).ok_or_else(|| format!("unknown block {}", n))?,
            moves: vec![],
        }),
        t => Err(format!("label expected: {:?}", t)),
    }
}

fn parse_inst(
    p: &mut Ps,
    ids: &HashMap<String, u32>,
    phis: &mut Vec<(Reg, Vec<(String, Opd)>)>,
) -> R<Option<I>> {
    let mut dst = None;
    if let Some(T::Local(n)) = p.peek().cloned() {
        if matches!(p.t.get(p.i + 1), Some(T::P('='))) {
            p.i += 2;
            dst = Some(p.reg(&n));
        }
    }
    let op = match p.next()? {
        T::Word(w) => w,
        t => return Err(format!("opcode expected: {:?}", t)),
    };
    let d = dst.unwrap_or(0);
    let bin = |s: &str| -> Option<BinOp> {
        Some(match s {
            "add" => BinOp::Add,
            "sub" => BinOp::Sub,
            "mul" => BinOp::Mul,
            "udiv" => BinOp::UDiv,
            "sdiv" => BinOp::SDiv,
            "urem" => BinOp::URem,
            "srem" => BinOp::SRem,
            "shl" => BinOp::Shl,
            "lshr" => BinOp::LShr,
            "ashr" => BinOp::AShr,
            "and" => BinOp::And,
            "or" => BinOp::Or,
            "xor" => BinOp::Xor,
            _ => return None,
        })
    };
    if let Some(b) = bin(&op) {
        while let Some(T::Word(w)) = p.peek() {
            if matches!(&w[..], "nuw" | "nsw" | "exact" | "disjoint") {
                p.i += 1;
            } else {
                break;
            }
        }
        let t = p.ty()?;
        let a = p.val(&t)?;
        p.exp_p(',')?;
        let c = p.val(&t)?;
        let (w, lanes) = match &t {
            Ty::Vector(n, e) => (e.bits(), *n as u32),
            t => (t.bits(), 0),
        };
        if w * lanes.max(1) > 128 {
            return Err("too wide".into());
        }
        return Ok(Some(I::Bin { op: b, w, lanes, dst: d, a, b: c }));
    }
    Ok(Some(match &op[..] {
        "icmp" => {
            p.eat_w("samesign");
            let pr = match p.next()? {
                T::Word(w) => match &w[..] {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "samesign" => return Err("samesign order".into()),
                    w => return Err(format!("icmp {}", w)),
                },
                t => return Err(format!("icmp {:?}", t)),
            };
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.exp_p(',')?;
            let b = p.val(&t)?;
            let (w, lanes) = match &t {
                Ty::Vector(n, e) => (e.bits(), *n as u32),
                t => (t.bits(), 0),
            };
            I::ICmp { p: pr, w, lanes, dst: d, a, b }
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
            while let Some(T::Word(w)) = p.peek() {
                if matches!(&w[..], "nuw" | "nsw" | "nneg") {
                    p.i += 1;
                } else {
                    break;
                }
            }
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.exp_w("to")?;
            let t2 = p.ty()?;
            let lanes = match (&t, &op[..]) {
                (Ty::Vector(n, _), "trunc" | "zext" | "sext") => *n as u32,
                _ => 0,
            };
            let (f, to) = if lanes > 0 {
                (t.elem(0).bits(), t2.elem(0).bits())
            } else {
                (t.bits(), t2.bits())
            };
            let k = match &op[..] {
                "trunc" => CastK::Trunc,
                "zext" => CastK::ZExt,
                "sext" => CastK::SExt,
                "bitcast" => CastK::Bit,
                _ => {
                    if to < f {
                        CastK::Trunc
                    } else if to > f {
                        CastK::ZExt
                    } else {
                        CastK::Bit
                    }
                }
            };
            I::Cast { k, from: f, to, lanes, dst: d, a }
        }
        "select" => {
            let ct = p.ty()?;
            let c = p.val(&ct)?;
            p.exp_p(',')?;
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.exp_p(',')?;
            let t2 = p.ty()?;
            let b = p.val(&t2)?;
            let clanes = match ct {
                Ty::Vector(n, _) => n as u32,
                _ => 0,
            };
            I::Select { dst: d, c, a, b, ty: t, clanes }
        }
        "load" => {
            p.eat_w("atomic");
            p.eat_w("volatile");
            let t = p.ty()?;
            p.exp_p(',')?;
            let pt = p.ty()?;
            let a = p.val(&pt)?;
            I::Load { dst: d, ty: t, p: a }
        }
        "store" => {
            p.eat_w("atomic");
            p.eat_w("volatile");
            let t = p.ty()?;
            let v = p.val(&t)?;
            p.exp_p(',')?;
            let pt = p.ty()?;
            let a = p.val(&pt)?;
            I::Store { ty: t, v, p: a }
        }
        "getelementptr" => {
            while let Some(T::Word(w)) = p.peek() {
                if matches!(&w[..], "inbounds" | "nuw" | "nusw") {
                    p.i += 1;
                } else {
                    break;
                }
            }
            let st = p.ty()?;
            p.exp_p(',')?;
            let pt = p.ty()?;
            let base = p.val(&pt)?;
            let (off, idx) = p.gep_idx(&st)?;
            I::Gep { dst: d, base, off, idx }
        }
        "alloca" => {
            let t = p.ty()?;
            let mut align = t.align();
            let mut n = 1;
            while p.eat_p(',') {
                if p.eat_w("align") {
                    align = p.num()? as u64;
                } else if matches!(p.peek(), Some(T::Meta)) {
                    break;
                } else {
                    let t = p.ty()?;
                    match p.val(&t)? {
                        Opd::C(c) => n = c as u64,
                        _ => return Err("dynamic alloca".into()),
                    }
                }
            }
            I::Alloca { dst: d, size: t.size() * n, align }
        }
        "phi" => {
            // possibly fast-math flags; then type
            let t = p.ty()?;
            let mut srcs = vec![];
            loop {
                p.exp_p('[')?;
                let v = p.val(&t)?;
                p.exp_p(',')?;
                let b = match p.next()? {
                    T::Local(n) => n,
                    t => return Err(format!("phi block {:?}", t)),
                };
                p.exp_p(']')?;
                srcs.push((b, v));
                if !(p.is_p(',') && matches!(p.t.get(p.i + 1), Some(T::P('[')))) {
                    break;
                }
                p.i += 1;
            }
            phis.push((d, srcs));
            return Ok(None);
        }
        "tail" | "musttail" | "notail" | "call" => {
            if op != "call" {
                p.exp_w("call")?;
            }
            p.skip_attrs()?;
            // (calling conventions and return attributes are skipped by skip_attrs too)
            let ret = p.ty()?;
            if p.is_p('(') {
                // function type of a varargs callee
                p.skip_parens()?;
            }
            if p.eat_w("asm") {
                while let Some(T::Word(_)) = p.peek() {
                    p.i += 1;
                }
                match p.next()? {
                    T::Str(s) if s.is_empty() => {}
                    _ => return Err("inline asm".into()),
                }
                if ret != Ty::Void {
                    return Err("inline asm with result".into());
                }
                return Ok(None);
            }
            let callee = match p.next()? {
                T::Global(n) => match p.cx.fns.get(&n) {
                    Some(i) => Callee::Fn(*i),
                    None => Callee::Ext(n),
                },
                T::Local(n) => {
                    let r = p.reg(&n);
                    Callee::Ind(Opd::Reg(r))
                }
                t => return Err(format!("callee {:?}", t)),
            };
            if let Callee::Ext(n) = &callee {
                if n.starts_with("llvm.lifetime")
                    || n.starts_with("llvm.experimental.noalias")
                    || n.starts_with("llvm.dbg")
                    || n == "llvm.sideeffect"
                    || n == "llvm.donothing"
                {
                    return Ok(None);
                }
            }
            let mut args = vec![];
            let mut argw = vec![];
            p.exp_p('(')?;
            while !p.eat_p(')') {
                let t = p.ty()?;
                if t == Ty::Meta {
                    // metadata argument: skip to , or )
                    while !p.is_p(',') && !p.is_p(')') {
                        p.i += 1;
                    }
                    p.eat_p(',');
                    continue;
                }
                p.skip_attrs()?;
                let v = p.val(&t)?;
                args.push(v);
                argw.push(t.bits());
                p.eat_p(',');
            }
            I::Call { dst: if ret == Ty::Void { None } else { dst }, callee, args, argw, ret }
        }
        "extractvalue" => {
            let t = p.ty()?;
            let a = p.val(&t)?;
            let mut idx = vec![];
            while p.is_p(',') && matches!(p.t.get(p.i + 1), Some(T::Num(_))) {
                p.i += 1;
                idx.push(p.num()? as u32);
            }
            I::ExtractValue { dst: d, agg: a, idx }
        }
        "insertvalue" => {
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.exp_p(',')?;
            let t2 = p.ty()?;
            let v = p.val(&t2)?;
            let mut idx = vec![];
            while p.is_p(',') && matches!(p.t.get(p.i + 1), Some(T::Num(_))) {
                p.i += 1;
                idx.push(p.num()? as u32);
            }
            I::InsertValue { dst: d, agg: a, v, idx, ty: t }
        }
        "extractelement" => {
            let t = p.ty()?;
            let v = p.val(&t)?;
            p.exp_p(',')?;
            let it = p.ty()?;
            let i = p.val(&it)?;
            I::ExtractElt { dst: d, v, ew: t.elem(0).bits(), i }
        }
        "insertelement" => {
            let t = p.ty()?;
            let v = p.val(&t)?;
            p.exp_p(',')?;
            let et = p.ty()?;
            let e = p.val(&et)?;
            p.exp_p(',')?;
            let it = p.ty()?;
            let i = p.val(&it)?;
            if t.bits() > 128 {
                return Err("wide vector".into());
            }
            I::InsertElt { dst: d, v, e, ew: et.bits(), i }
        }
        "shufflevector" => {
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.exp_p(',')?;
            let t2 = p.ty()?;
            let b = p.val(&t2)?;
            p.exp_p(',')?;
            let mt = p.ty()?;
            let n = match &mt {
                Ty::Vector(n, _) => *n,
                _ => return Err("shuffle mask".into()),
            };
            let mut mask = vec![];
            if p.eat_w("zeroinitializer") {
                mask = vec![0; n as usize];
            } else if p.eat_w("poison") || p.eat_w("undef") {
                mask = vec![-1; n as usize];
            } else {
                p.exp_p('<')?;
                while !p.eat_p('>') {
                    let _ = p.ty()?;
                    if p.eat_w("poison") || p.eat_w("undef") {
                        mask.push(-1);
                    } else {
                        mask.push(p.num()? as i32);
                    }
                    p.eat_p(',');
                }
            }
            let sn = match &t {
                Ty::Vector(n, _) => *n as u32,
                _ => 0,
            };
            I::Shuffle { dst: d, a, b, ew: t.elem(0).bits(), n: sn, mask }
        }
        "freeze" => {
            let t = p.ty()?;
            let a = p.val(&t)?;
            I::Copy { dst: d, a }
        }
        "br" => {
            if p.is_w("label") {
                I::Br(parse_label(p, ids)?)
            } else {
                let t = p.ty()?;
                let c = p.val(&t)?;
                p.exp_p(',')?;
                let a = parse_label(p, ids)?;
                p.exp_p(',')?;
                let b = parse_label(p, ids)?;
                I::CondBr { c, t: a, f: b }
            }
        }
        "switch" => {
            let t = p.ty()?;
            let v = p.val(&t)?;
            p.exp_p(',')?;
            let default = parse_label(p, ids)?;
            p.exp_p('[')?;
            let mut cases = vec![];
            while !p.eat_p(']') {
                let ct = p.ty()?;
                let c = match p.val(&ct)? {
                    Opd::C(c) => c,
                    _ => return Err("switch case".into()),
                };
                p.exp_p(',')?;
                cases.push((c, parse_label(p, ids)?));
            }
            I::Switch { v, w: t.bits(), cases, default }
        }
        "ret" => {
            let t = p.ty()?;
            if t == Ty::Void {
                I::Ret(None)
            } else {
                I::Ret(Some(p.val(&t)?))
            }
        }
        "unreachable" => I::Unreachable,
        "fence" => return Ok(None),
        "atomicrmw" => {
            p.eat_w("volatile");
            let op = match p.peek() {
                Some(T::Word(w)) => match &w[..] {
                    "xchg" => None,
                    "add" => Some(BinOp::Add),
                    "sub" => Some(BinOp::Sub),
                    "and" => Some(BinOp::And),
                    "or" => Some(BinOp::Or),
                    "xor" => Some(BinOp::Xor),
                    w => return Err(format!("atomicrmw {}", w)),
                },
                _ => return Err("atomicrmw".into()),
            };
            p.i += 1;
            let pt = p.ty()?;
            let a = p.val(&pt)?;
            p.exp_p(',')?;
            let t = p.ty()?;
            let v = p.val(&t)?;
            I::Rmw { dst: d, op, ty: t, p: a, v }
        }
        "cmpxchg" => {
            p.eat_w("weak");
            p.eat_w("volatile");
            let pt = p.ty()?;
            let a = p.val(&pt)?;
            p.exp_p(',')?;
            let t = p.ty()?;
            let cmp = p.val(&t)?;
            p.exp_p(',')?;
            let t2 = p.ty()?;
            let new = p.val(&t2)?;
            I::CmpXchg { dst: d, ty: t, p: a, cmp, new }
        }
        _ => {
            p.skip_words();
            return Err(format!("opcode {}", op));
        }
    }))
}
