//! Symbolic executor for one worker: runs one path at a time by re-execution from a prefix of
//! decisions, asks the solver at every branch whose outcome the path does not determine, and
//! leaves the other side as pending work.

use crate::expr::*;
use crate::ir::{BinOp, Callee, CastK, Opd, Pred, Program, Reg, Target, Ty, FN_OBJ_BASE, GLOBAL_OBJ_BASE, I};
use crate::solver::*;
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    E(EId),
    Agg(Box<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Stop {
    Done,
    Killed,
    Violation { kind: String, code: u64, detail: String, model: Option<Model> },
    Error(String),
}

type X<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Error(s.into()))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum DK {
    Br,
    Is,
    Not,
}

#[derive(Clone, Copy, Debug)]
pub struct Dec {
    pub k: DK,
    pub val: u128,
    pub forced: bool,
    pub loc: u32,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub job: usize,
    pub decs: Vec<Dec>,
    pub model: Model,
}

#[derive(Clone, Debug)]
pub struct Job {
    pub name: String,
    pub entry: u32,
    pub args: Vec<u64>,
    pub max_steps: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ext {
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    NoAllocShim,
    RandomKeys,
    Now,
    CurThread,
    LsxLimit,
    LsxAnyProducts,
    LsxTries,
    Panic,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Assume,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Fshl,
    Fshr,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Umax,
    Umin,
    Smax,
    Smin,
    Abs,
    Ucmp,
    Scmp,
    Expect,
    TlsAddr,
    Trap,
    ObjectSize,
    IsConstant,
    LsxVar,
    LsxVar128,
    LsxChoose,
    LsxRange,
    LsxConc,
    LsxAssume,
    LsxCheck,
    LsxCover,
    LsxEmit,
    LsxSp,
    LsxHeap,
    LsxLookup,
    LsxIte,
    LsxMul,
    LsxEnd,
    Havoc,
    Unknown,
}

pub fn classify(name: &str) -> Ext {
    use Ext::*;
    if let Some(r) = name.strip_prefix("llvm.") {
        let has = |p: &str| r.starts_with(p);
        return if has("memcpy.") || has("memmove.") || has("memcpy.inline") {
            Memcpy
        } else if has("memset.") {
            Memset
        } else if has("assume") {
            Assume
        } else if has("ctlz.") {
            Ctlz
        } else if has("cttz.") {
            Cttz
        } else if has("ctpop.") {
            Ctpop
        } else if has("bswap.") {
            Bswap
        } else if has("fshl.") {
            Fshl
        } else if has("fshr.") {
            Fshr
        } else if has("uadd.sat") {
            UaddSat
        } else if has("usub.sat") {
            UsubSat
        } else if has("sadd.sat") {
            SaddSat
        } else if has("ssub.sat") {
            SsubSat
        } else if has("uadd.with") {
            UaddO
        } else if has("usub.with") {
            UsubO
        } else if has("umul.with") {
            UmulO
        } else if has("sadd.with") {
            SaddO
        } else if has("ssub.with") {
            SsubO
        } else if has("smul.with") {
            SmulO
        } else if has("umax.") {
            Umax
        } else if has("umin.") {
            Umin
        } else if has("smax.") {
            Smax
        } else if has("smin.") {
            Smin
        } else if has("abs.") {
            Abs
        } else if has("ucmp.") {
            Ucmp
        } else if has("scmp.") {
            Scmp
        } else if has("expect") {
            Expect
        } else if has("threadlocal.address") {
            TlsAddr
        } else if has("trap") || has("ubsantrap") {
            Trap
        } else if has("objectsize") {
            ObjectSize
        } else if has("is.constant") {
            IsConstant
        } else {
            Unknown
        };
    }
    match name {
        "lsx_var" => return LsxVar,
        "lsx_var128" => return LsxVar128,
        "lsx_choose" => return LsxChoose,
        "lsx_range" => return LsxRange,
        "lsx_conc" => return LsxConc,
        "lsx_assume" => return LsxAssume,
        "lsx_check" => return LsxCheck,
        "lsx_cover" => return LsxCover,
        "lsx_emit" => return LsxEmit,
        "lsx_sp" => return LsxSp,
        "lsx_heap" => return LsxHeap,
        "lsx_lookup" => return LsxLookup,
        "lsx_ite" => return LsxIte,
        "lsx_mul" => return LsxMul,
        "lsx_end" => return LsxEnd,
        "lsx_limit" => return LsxLimit,
        "lsx_any_products" => return LsxAnyProducts,
        "lsx_tries" => return LsxTries,
        "memcmp" => return Memcmp,
        "bcmp" => return Bcmp,
        "memcpy" | "memmove" => return Memcpy,
        "memset" => return Memset,
        _ => {}
    }
    if name.ends_with("___rust_alloc") {
        Alloc
    } else if name.ends_with("___rust_alloc_zeroed") {
        AllocZeroed
    } else if name.ends_with("___rust_dealloc") {
        Dealloc
    } else if name.ends_with("___rust_realloc") {
        Realloc
    } else if name.contains("___rust_no_alloc_shim_is_unstable") {
        NoAllocShim
    } else if name.ends_with("hashmap_random_keys") {
        RandomKeys
    } else if name.starts_with("_R") && name.contains("4time") && name.ends_with("7Instant3now") {
        Now
    } else if name.starts_with("_R") && name.contains("6thread") && name.ends_with("7current7current") {
        CurThread
    } else if name.contains("panicking")
        || name.contains("handle_alloc_error")
        || name.contains("capacity_overflow")
        || name.contains("unwrap_failed")
        || name.contains("expect_failed")
    {
        Panic
    } else if name == "lsx_havoc" {
        Havoc
    } else {
        Unknown
    }
}

#[derive(Clone, Default)]
pub struct Obj {
    data: Vec<u8>,
    /// Symbolic bytes: 0, or expression + 1 and the byte's number in it.
    shadow: Vec<u64>,
    live: bool,
    ro: bool,
    size: u64,
    heap: bool,
    /// The shadow is indexed from the end (the stack's, which grows downwards).
    rev: bool,
}

impl Obj {
    #[inline]
    fn si(&self, off: usize) -> usize {
        if self.rev {
            self.size as usize - 1 - off
        } else {
            off
        }
    }
    #[inline]
    fn sh(&self, off: usize) -> u64 {
        if self.shadow.is_empty() {
            return 0;
        }
        self.shadow.get(self.si(off)).copied().unwrap_or(0)
    }
    /// The part of the shadow vector for these bytes.
    #[inline]
    fn sh_span(&self, off: usize, n: usize) -> (usize, usize) {
        let (a, b) = if self.rev {
            let s = self.size as usize;
            (s - off - n, s - off)
        } else {
            (off, off + n)
        };
        let l = self.shadow.len();
        (a.min(l), b.min(l))
    }
    #[inline]
    fn sh_any(&self, off: usize, n: usize) -> bool {
        if self.shadow.is_empty() {
            return false;
        }
        let (a, b) = self.sh_span(off, n);
        self.shadow[a..b].iter().any(|x| *x != 0)
    }
    #[inline]
    fn sh_clear(&mut self, off: usize, n: usize) {
        if self.shadow.is_empty() {
            return;
        }
        let (a, b) = self.sh_span(off, n);
        self.shadow[a..b].fill(0);
    }
    fn sh_set(&mut self, off: usize, v: u64) {
        let i = self.si(off);
        if self.shadow.len() <= i {
            if v == 0 {
                return;
            }
            self.shadow.resize(i + 1, 0);
        }
        self.shadow[i] = v;
    }
}

/// The state at the start of the instruction that made a decision.
pub struct Snap {
    regs: Vec<V>,
    frames: Vec<Frame>,
    sp: u64,
    heap_live: u64,
    mglobals: Vec<Rc<Obj>>,
    objs: Vec<Rc<Obj>>,
    stack: Vec<u8>,
    stack_shadow: Vec<u64>,
    steps: u64,
    pc: usize,
    lits: usize,
    decs: usize,
    emits: usize,
    hmul: u64,
    cap: usize,
    bytes: usize,
    total: Rc<Cell<usize>>,
}

impl Drop for Snap {
    fn drop(&mut self) {
        self.total.set(self.total.get() - self.bytes);
    }
}

/// Work left by the current path: its first `plen` decisions, then `extra`.
pub struct Pend {
    pub job: usize,
    plen: usize,
    extra: Dec,
    model: Model,
    pub snap: Option<Rc<Snap>>,
}

const SNAP_MAX: usize = 1 << 30;
const CACHE_MAX: usize = 30_000_000;

const STACK_SIZE: u64 = 1 << 20;
const STACK_OBJ: u64 = 1;

#[derive(Clone, Copy)]
struct Frame {
    func: u32,
    block: u32,
    ip: u32,
    base: u32,
    sp: u64,
    dst: Option<Reg>,
}

#[derive(Default, Clone)]
pub struct JobStats {
    pub done: u64,
    pub killed: u64,
    pub errors: Vec<String>,
    pub nerrors: u64,
    pub violations: Vec<Viol>,
    pub nviol: u64,
    pub forks: u64,
    pub choices: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub cache_hits: u64,
    pub covers: HashMap<u64, u64>,
    pub samples: Vec<Sample>,
    pub max_steps: u64,
    pub solver: SolverStats,
    pub max_decs: u64,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub code: u64,
    pub detail: String,
    pub model: Model,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub model: Model,
    pub emits: Vec<(u64, u64)>,
    pub prio: u64,
}

pub struct Exec<'p> {
    pub prog: &'p Program,
    exts: &'p [Ext],
    ext_names: &'p [String],
    pub ar: Arena,
    pub solver: Solver,
    qcache: HashMap<Vec<EId>, Option<std::rc::Rc<Model>>>,
    qcache_size: usize,
    stop: &'p AtomicBool,
    mark: Vec<bool>,
    // memory
    objs: Vec<Rc<Obj>>,
    /// The objects before this index are the fixed ones (null, stack, globals).
    ro_globals: usize,
    mglobals: Vec<usize>,
    snap_total: Rc<Cell<usize>>,
    /// If not 0, wide products are arbitrary values, numbered from here.
    hmul: u64,
    /// No more splits than this on the current path.
    cap: usize,
    ist: (u64, usize, usize, usize, usize),
    ist_snap: Option<Rc<Snap>>,
    heap_live: u64,
    free_bufs: Vec<Vec<u8>>,
    // machine
    regs: Vec<V>,
    frames: Vec<Frame>,
    sp: u64,
    // the current frame
    func: u32,
    block: u32,
    ip: u32,
    base: usize,
    code: &'p [I],
    // path
    pc: Vec<EId>,
    lits: HashSet<EId>,
    lits_v: Vec<EId>,
    item: Item,
    di: usize,
    decs: Vec<Dec>,
    model: Model,
    pub pending: Vec<Pend>,
    no_snap: bool,
    pub emits: Vec<(u64, V)>,
    steps: u64,
    pub max_steps: u64,
    pub st: JobStats,
    pub fn_hit: Vec<bool>,
    timeout_ms: u32,
    logic: bool,
}

#[inline]
fn fast_op(op: BinOp) -> bool {
    matches!(op, BinOp::Add | BinOp::Sub | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor)
}

#[inline]
fn cmp64(p: Pred, m: u64, n: u64, w: u32) -> bool {
    let s = |x: u64| ((x << (64 - w)) as i64) >> (64 - w);
    match p {
        Pred::Eq => m == n,
        Pred::Ne => m != n,
        Pred::Ult => m < n,
        Pred::Ule => m <= n,
        Pred::Ugt => m > n,
        Pred::Uge => m >= n,
        Pred::Slt => s(m) < s(n),
        Pred::Sle => s(m) <= s(n),
        Pred::Sgt => s(m) > s(n),
        Pred::Sge => s(m) >= s(n),
    }
}

fn w_of(t: &Ty) -> u32 {
    t.bits()
}

impl<'p> Exec<'p> {
    pub fn new(
        prog: &'p Program,
        exts: &'p [Ext],
        ext_names: &'p [String],
        max_steps: u64,
        timeout_ms: u32,
        logic: bool,
        stop: &'p AtomicBool,
    ) -> Self {
        let mut e = Exec {
            prog,
            exts,
            ext_names,
            ar: Arena::default(),
            solver: Solver::new(timeout_ms, logic),
            qcache: HashMap::new(),
            qcache_size: 0,
            stop,
            mark: vec![],
            objs: vec![],
            ro_globals: 0,
            mglobals: vec![],
            snap_total: Rc::new(Cell::new(0)),
            ist: (0, 0, 0, 0, 0),
            ist_snap: None,
            func: 0,
            block: 0,
            ip: 0,
            base: 0,
            code: &[],
            no_snap: std::env::var_os("LSX_NO_SNAP").is_some(),
            heap_live: 0,
            free_bufs: vec![],
            regs: vec![],
            frames: vec![],
            sp: STACK_SIZE,
            pc: vec![],
            lits: HashSet::new(),
            lits_v: vec![],
            item: Item { job: 0, decs: vec![], model: Model::default() },
            di: 0,
            decs: vec![],
            model: Model::default(),
            pending: vec![],
            emits: vec![],
            cap: usize::MAX,
            hmul: 0,
            steps: 0,
            max_steps,
            st: JobStats::default(),
            fn_hit: vec![false; prog.funcs.len()],
            timeout_ms,
            logic,
        };
        e.objs.push(Rc::new(Obj::default())); // null
        e.objs.push(Rc::new(Obj {
            live: true,
            size: STACK_SIZE,
            data: vec![0; STACK_SIZE as usize],
            rev: true,
            ..Obj::default()
        }));
        for g in &prog.globals {
            if !g.constant {
                e.mglobals.push(e.objs.len());
            }
            e.objs.push(Rc::new(Obj {
                data: g.init.clone(),
                live: true,
                ro: g.constant,
                size: g.init.len() as u64,
                ..Obj::default()
            }));
        }
        e.ro_globals = e.objs.len();
        e
    }

    fn reset_memory(&mut self) {
        while self.objs.len() > self.ro_globals {
            if let Ok(o) = Rc::try_unwrap(self.objs.pop().unwrap()) {
                if o.data.capacity() > 0 && self.free_bufs.len() < 64 {
                    self.free_bufs.push(o.data);
                }
            }
        }
        for (i, g) in self.prog.globals.iter().enumerate() {
            if !g.constant {
                let o = Rc::make_mut(&mut self.objs[GLOBAL_OBJ_BASE as usize + i]);
                o.data.copy_from_slice(&g.init);
                o.shadow.clear();
            }
        }
        Rc::make_mut(&mut self.objs[1]).shadow.clear();
        self.heap_live = 0;
        self.sp = STACK_SIZE;
        self.regs.clear();
        self.frames.clear();
    }

    /// Drop all expressions and the solver when they have grown large (between paths only).
    pub fn maybe_gc(&mut self) -> bool {
        if self.ar.nodes.len() > 3_000_000 {
            self.ar = Arena::default();
            let st = self.solver.stats.clone();
            self.solver = Solver::new(self.timeout_ms, self.logic);
            self.solver.stats = st;
            self.qcache.clear();
            self.qcache_size = 0;
            self.ist_snap = None;
            return true;
        }
        false
    }

    // -------------------------------------------------------------------------- values

    fn e(&mut self, v: &V, w: u32) -> EId {
        match v {
            V::C(c) => self.ar.c(*c, w),
            V::E(e) => *e,
            V::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: EId) -> V {
        match self.ar.as_c(e) {
            Some(c) => V::C(c),
            None => V::E(e),
        }
    }

    #[inline]
    fn get(&self, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => match &self.regs[self.base + *r as usize] {
                V::C(c) => V::C(*c),
                v => v.clone(),
            },
            Opd::C(c) => V::C(*c),
            Opd::Agg(v) => V::Agg(Box::new(v.iter().map(|x| self.get(x)).collect())),
        }
    }
    #[inline]
    fn set(&mut self, r: Reg, v: V) {
        self.regs[self.base + r as usize] = v;
    }

    // -------------------------------------------------------------------------- path logic

    fn loc(&self) -> u32 {
        (self.func.wrapping_mul(7919)).wrapping_add(self.block.wrapping_mul(131)).wrapping_add(self.ip)
    }

    /// Called before anything an instruction adds to the path.
    #[inline]
    fn mark_start(&mut self) {
        if self.ist.0 != self.steps {
            self.ist = (self.steps, self.pc.len(), self.lits_v.len(), self.decs.len(), self.emits.len());
            self.ist_snap = None;
        }
    }

    /// The state at the start of the current instruction (which has changed nothing but the path).
    fn snap(&mut self) -> Option<Rc<Snap>> {
        if self.no_snap || self.frames.is_empty() {
            return None;
        }
        if let Some(s) = &self.ist_snap {
            return Some(s.clone());
        }
        let used = (STACK_SIZE - self.sp) as usize;
        if used > 64 << 10 || self.objs.len() > 20_000 || self.snap_total.get() > SNAP_MAX {
            return None;
        }
        let f = self.frames.last_mut().unwrap();
        f.block = self.block;
        f.ip = self.ip - 1;
        let st = &self.objs[1];
        let bytes = used * 2 + self.regs.len() * 32 + (self.objs.len() - self.ro_globals) * 40 + self.frames.len() * 40 + 1000;
        self.snap_total.set(self.snap_total.get() + bytes);
        let s = Rc::new(Snap {
            regs: self.regs.clone(),
            frames: self.frames.clone(),
            sp: self.sp,
            heap_live: self.heap_live,
            mglobals: self.mglobals.iter().map(|i| self.objs[*i].clone()).collect(),
            objs: self.objs[self.ro_globals..].to_vec(),
            stack: st.data[self.sp as usize..].to_vec(),
            stack_shadow: st.shadow[..st.shadow.len().min(used)].to_vec(),
            steps: self.steps - 1,
            pc: self.ist.1,
            lits: self.ist.2,
            decs: self.ist.3,
            emits: self.ist.4,
            cap: self.cap,
            hmul: self.hmul,
            bytes,
            total: self.snap_total.clone(),
        });
        self.ist_snap = Some(s.clone());
        Some(s)
    }

    fn restore(&mut self, s: &Snap) {
        self.regs.clear();
        self.regs.extend_from_slice(&s.regs);
        self.frames.clear();
        self.frames.extend_from_slice(&s.frames);
        self.sp = s.sp;
        self.heap_live = s.heap_live;
        for (i, o) in self.mglobals.iter().zip(&s.mglobals) {
            self.objs[*i] = o.clone();
        }
        self.objs.truncate(self.ro_globals);
        self.objs.extend_from_slice(&s.objs);
        let st = Rc::make_mut(&mut self.objs[1]);
        st.data[s.sp as usize..].copy_from_slice(&s.stack);
        st.shadow.clear();
        st.shadow.extend_from_slice(&s.stack_shadow);
        self.steps = s.steps;
        self.pc.truncate(s.pc);
        while self.lits_v.len() > s.lits {
            let e = self.lits_v.pop().unwrap();
            self.lits.remove(&e);
        }
        self.decs.truncate(s.decs);
        self.emits.truncate(s.emits);
        self.cap = s.cap;
        self.hmul = s.hmul;
    }

    fn lit(&mut self, e: EId) {
        if self.lits.insert(e) {
            self.lits_v.push(e);
        }
    }

    fn leave(&mut self, extra: Dec, model: Model) {
        let snap = self.snap();
        self.pending.push(Pend { job: self.item.job, plen: self.decs.len(), extra, model, snap });
    }

    /// The work in a form that another thread can take.
    pub fn detach(&self, p: Pend) -> Item {
        let mut decs = self.decs[..p.plen].to_vec();
        decs.push(p.extra);
        Item { job: p.job, decs, model: p.model }
    }

    /// The part of the path condition that shares variables with the expression, transitively.
    fn slice(&mut self, e: EId) -> Vec<EId> {
        let v = self.ar.vars(e);
        let n = self.ar.vkeys.len();
        self.mark.clear();
        self.mark.resize(n.max(1), false);
        for x in v.iter() {
            self.mark[*x as usize] = true;
        }
        let mut out = vec![e];
        let mut rest: Vec<(EId, std::rc::Rc<[u32]>)> = Vec::with_capacity(self.pc.len());
        for i in 0..self.pc.len() {
            let p = self.pc[i];
            let v = self.ar.vars(p);
            rest.push((p, v));
        }
        self.mark.resize(self.ar.vkeys.len().max(1), false);
        loop {
            let mark = &mut self.mark;
            let mut grew = false;
            rest.retain(|(p, v)| {
                if v.iter().any(|x| mark[*x as usize]) {
                    for x in v.iter() {
                        mark[*x as usize] = true;
                    }
                    out.push(*p);
                    grew = true;
                    false
                } else {
                    true
                }
            });
            if !grew || rest.is_empty() {
                break;
            }
        }
        if out.len() > 12 {
            out = self.condense(out);
        }
        out[1..].sort_unstable();
        out
    }

    /// An equivalent set of constraints (after the first) with fewer comparisons to constants.
    fn condense(&mut self, v: Vec<EId>) -> Vec<EId> {
        struct B {
            lo: u128,
            hi: u128,
            ex: Vec<u128>,
            n: usize,
            single: EId,
        }
        let mut out = vec![v[0]];
        let mut bs: HashMap<EId, B> = HashMap::new();
        let mut order: Vec<EId> = vec![];
        for &p in &v[1..] {
            let (neg, q) = match self.ar.n(p).op {
                Op::Not(q) if self.ar.w(p) == 1 => (true, q),
                _ => (false, p),
            };
            let mut lo = 0u128;
            let mut hi = u128::MAX;
            let mut ex = None;
            let mut x = None;
            if let Op::Cmp(pr, a, b) = self.ar.n(q).op {
                match (pr, self.ar.as_c(a), self.ar.as_c(b), neg) {
                    (Pred::Ult, None, Some(c), false) if c > 0 => {
                        hi = c - 1;
                        x = Some(a);
                    }
                    (Pred::Ult, None, Some(c), true) => {
                        lo = c;
                        x = Some(a);
                    }
                    (Pred::Ult, Some(c), None, false) if c < u128::MAX => {
                        lo = c + 1;
                        x = Some(b);
                    }
                    (Pred::Ult, Some(c), None, true) => {
                        hi = c;
                        x = Some(b);
                    }
                    (Pred::Ule, None, Some(c), false) => {
                        hi = c;
                        x = Some(a);
                    }
                    (Pred::Ule, None, Some(c), true) if c < u128::MAX => {
                        lo = c + 1;
                        x = Some(a);
                    }
                    (Pred::Ule, Some(c), None, false) => {
                        lo = c;
                        x = Some(b);
                    }
                    (Pred::Ule, Some(c), None, true) if c > 0 => {
                        hi = c - 1;
                        x = Some(b);
                    }
                    (Pred::Eq, None, Some(c), true) => {
                        ex = Some(c);
                        x = Some(a);
                    }
                    _ => {}
                }
            }
            match x {
                None => out.push(p),
                Some(x) => {
                    let w = self.ar.w(x);
                    let b = bs.entry(x).or_insert_with(|| {
                        order.push(x);
                        B { lo: 0, hi: mask(w), ex: vec![], n: 0, single: p }
                    });
                    b.n += 1;
                    b.lo = b.lo.max(lo);
                    b.hi = b.hi.min(hi);
                    b.ex.extend(ex);
                }
            }
        }
        for x in order {
            let mut b = bs.remove(&x).unwrap();
            if b.n == 1 {
                out.push(b.single);
                continue;
            }
            let w = self.ar.w(x);
            b.ex.sort_unstable();
            for c in &b.ex {
                if *c == b.lo && b.lo < b.hi {
                    b.lo += 1;
                }
            }
            for c in b.ex.iter().rev() {
                if *c == b.hi && b.hi > b.lo {
                    b.hi -= 1;
                }
            }
            if b.lo > 0 {
                let k = self.ar.c(b.lo, w);
                let e = self.ar.cmp(Pred::Ule, k, x);
                out.push(e);
            }
            if b.hi < mask(w) {
                let k = self.ar.c(b.hi, w);
                let e = self.ar.cmp(Pred::Ule, x, k);
                out.push(e);
            }
            for c in b.ex {
                if c >= b.lo && c <= b.hi {
                    let k = self.ar.c(c, w);
                    let e = self.ar.cmp(Pred::Eq, x, k);
                    let e = self.ar.not(e);
                    out.push(e);
                }
            }
        }
        out
    }

    /// Whether the expression can hold together with the path condition.  The current model
    /// satisfies the path condition, so only its part that shares variables with the expression
    /// has to be given to the solver.
    fn query(&mut self, e: EId) -> (Sat, Option<Model>) {
        match self.ar.as_c(e) {
            Some(0) => return (Sat::Unsat, None),
            _ => {}
        }
        let sl = self.slice(e);
        let hit = self.qcache.get(&sl).cloned();
        let r = match hit {
            Some(r) => {
                self.st.cache_hits += 1;
                r
            }
            None => {
                self.solver.push();
                for x in &sl {
                    self.solver.assert(&self.ar, *x);
                }
                let r = match self.solver.check() {
                    Sat::Sat => Some(std::rc::Rc::new(self.solver.model())),
                    Sat::Unsat => None,
                    Sat::Unknown => {
                        self.solver.pop(1);
                        return (Sat::Unknown, None);
                    }
                };
                self.solver.pop(1);
                let n = sl.len() + 40 + r.as_ref().map(|m| m.vals.len() * 12).unwrap_or(0);
                if self.qcache_size + n > CACHE_MAX {
                    self.qcache.clear();
                    self.qcache_size = 0;
                }
                self.qcache_size += n;
                self.qcache.insert(sl, r.clone());
                r
            }
        };
        match r {
            None => (Sat::Unsat, None),
            Some(m) => {
                let mut n = self.model.clone();
                for (k, v) in &m.vals {
                    n.vals.insert(*k, *v);
                }
                (Sat::Sat, Some(n))
            }
        }
    }

    fn next_dec(&mut self) -> X<Option<Dec>> {
        if self.di < self.item.decs.len() {
            let d = self.item.decs[self.di];
            if d.loc != self.loc() {
                return err("decision misalignment");
            }
            self.di += 1;
            self.decs.push(d);
            Ok(Some(d))
        } else {
            Ok(None)
        }
    }

    fn add_pc(&mut self, e: EId) {
        self.pc.push(e);
        self.lit(e);
    }

    fn branch(&mut self, c: EId) -> X<bool> {
        if let Some(k) = self.ar.as_c(c) {
            return Ok(k == 1);
        }
        self.mark_start();
        let nc = self.ar.not(c);
        let loc = self.loc();
        if let Some(d) = self.next_dec()? {
            if d.k != DK::Br {
                return err("decision kind mismatch");
            }
            let v = d.val == 1;
            let lit = if v { c } else { nc };
            if d.forced {
                self.lit(lit);
            } else {
                self.add_pc(lit);
            }
            return Ok(v);
        }
        if self.lits.contains(&c) {
            self.decs.push(Dec { k: DK::Br, val: 1, forced: true, loc });
            return Ok(true);
        }
        if self.lits.contains(&nc) {
            self.decs.push(Dec { k: DK::Br, val: 0, forced: true, loc });
            return Ok(false);
        }
        if self.pc.len() >= self.cap {
            return Err(Stop::Killed);
        }
        let v = self.ar.eval(c, &self.model) == 1;
        let (lit, other) = if v { (c, nc) } else { (nc, c) };
        match self.query(other) {
            (Sat::Unsat, _) => {
                self.decs.push(Dec { k: DK::Br, val: v as u128, forced: true, loc });
                self.lit(lit);
            }
            (Sat::Sat, m) => {
                self.leave(Dec { k: DK::Br, val: !v as u128, forced: false, loc }, m.unwrap());
                self.st.forks += 1;
                self.decs.push(Dec { k: DK::Br, val: v as u128, forced: false, loc });
                self.add_pc(lit);
            }
            (Sat::Unknown, _) => return err("solver: unknown"),
        }
        Ok(v)
    }

    fn conc_e(&mut self, e: EId) -> X<u128> {
        let w = self.ar.w(e);
        if let Some(k) = self.ar.as_c(e) {
            return Ok(k);
        }
        self.mark_start();
        loop {
            let loc = self.loc();
            if let Some(d) = self.next_dec()? {
                let k = self.ar.c(d.val, w);
                let eq = self.ar.cmp(Pred::Eq, e, k);
                match d.k {
                    DK::Is => {
                        if d.forced {
                            self.lit(eq);
                        } else {
                            self.add_pc(eq);
                        }
                        return Ok(d.val);
                    }
                    DK::Not => {
                        let ne = self.ar.not(eq);
                        self.add_pc(ne);
                        continue;
                    }
                    _ => return err("decision kind mismatch"),
                }
            }
            let v = self.ar.eval(e, &self.model);
            let k = self.ar.c(v, w);
            let eq = self.ar.cmp(Pred::Eq, e, k);
            if self.lits.contains(&eq) {
                self.decs.push(Dec { k: DK::Is, val: v, forced: true, loc });
                return Ok(v);
            }
            let ne = self.ar.not(eq);
            match self.query(ne) {
                (Sat::Unsat, _) => {
                    self.decs.push(Dec { k: DK::Is, val: v, forced: true, loc });
                    self.lit(eq);
                }
                (Sat::Sat, m) => {
                    self.leave(Dec { k: DK::Not, val: v, forced: false, loc }, m.unwrap());
                    self.st.forks += 1;
                    self.decs.push(Dec { k: DK::Is, val: v, forced: false, loc });
                    self.add_pc(eq);
                }
                (Sat::Unknown, _) => return err("solver: unknown"),
            }
            return Ok(v);
        }
    }

    fn conc(&mut self, v: &V) -> X<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::E(e) => self.conc_e(*e),
            V::Agg(_) => err("concretise aggregate"),
        }
    }

    fn truth(&mut self, v: &V) -> X<bool> {
        match v {
            V::C(c) => Ok(*c & 1 == 1),
            V::E(e) => {
                let e = *e;
                self.branch(e)
            }
            V::Agg(_) => err("branch on aggregate"),
        }
    }

    /// An independent symbolic choice in 0..n: every value is feasible, each is a pending item.
    fn choose(&mut self, key: u64, n: u64) -> X<u64> {
        if n == 0 {
            return Err(Stop::Killed);
        }
        if n == 1 {
            return Ok(0);
        }
        self.mark_start();
        let loc = self.loc();
        if let Some(d) = self.next_dec()? {
            if d.k != DK::Is {
                return err("decision kind mismatch");
            }
            return Ok(d.val as u64);
        }
        for v in (1..n).rev() {
            let mut m = self.model.clone();
            m.vals.insert(key, v as u128);
            self.leave(Dec { k: DK::Is, val: v as u128, forced: false, loc }, m);
        }
        self.st.choices += n - 1;
        self.decs.push(Dec { k: DK::Is, val: 0, forced: false, loc });
        self.model.vals.insert(key, 0);
        Ok(0)
    }

    fn assume(&mut self, v: &V) -> X<()> {
        self.mark_start();
        match v {
            V::C(c) => {
                if *c & 1 == 1 {
                    Ok(())
                } else {
                    Err(Stop::Killed)
                }
            }
            V::E(e) => {
                let e = *e;
                if self.lits.contains(&e) {
                    return Ok(());
                }
                if self.ar.eval(e, &self.model) == 1 {
                    self.add_pc(e);
                    return Ok(());
                }
                if self.di < self.item.decs.len() {
                    return err("assumption false during replay");
                }
                match self.query(e) {
                    (Sat::Sat, m) => {
                        self.model = m.unwrap();
                        self.ar.new_gen();
                        self.add_pc(e);
                        Ok(())
                    }
                    (Sat::Unsat, _) => Err(Stop::Killed),
                    _ => err("solver: unknown"),
                }
            }
            _ => err("assume aggregate"),
        }
    }

    fn check(&mut self, v: &V, kind: &str, code: u64) -> X<()> {
        self.st.checks += 1;
        self.mark_start();
        match v {
            V::C(c) => {
                if *c & 1 == 1 {
                    Ok(())
                } else {
                    Err(Stop::Violation { kind: kind.into(), code, detail: self.backtrace(), model: None })
                }
            }
            V::E(e) => {
                let e = *e;
                if self.lits.contains(&e) {
                    return Ok(());
                }
                if self.di < self.item.decs.len() {
                    self.lit(e);
                    return Ok(());
                }
                if self.ar.eval(e, &self.model) == 0 {
                    return Err(Stop::Violation { kind: kind.into(), code, detail: self.backtrace(), model: None });
                }
                let ne = self.ar.not(e);
                self.st.checks_solver += 1;
                match self.query(ne) {
                    (Sat::Unsat, _) => {
                        self.lit(e);
                        Ok(())
                    }
                    (Sat::Sat, m) => Err(Stop::Violation {
                        kind: kind.into(),
                        code,
                        detail: self.backtrace(),
                        model: m,
                    }),
                    _ => err("solver: unknown"),
                }
            }
            _ => err("check aggregate"),
        }
    }

    pub fn backtrace(&self) -> String {
        let v: Vec<String> = self
            .frames
            .iter()
            .rev()
            .take(6)
            .map(|f| {
                let fu = &self.prog.funcs[f.func as usize];
                if fu.pretty.is_empty() {
                    fu.name.clone()
                } else {
                    fu.pretty.clone()
                }
            })
            .collect();
        v.join(" < ")
    }

    // -------------------------------------------------------------------------- memory

    fn new_obj(&mut self, size: u64, heap: bool, zero: bool) -> u64 {
        let _ = zero;
        let mut b = self.free_bufs.pop().unwrap_or_default();
        b.clear();
        b.resize(size as usize, 0);
        let id = self.objs.len() as u64;
        self.objs.push(Rc::new(Obj { data: b, live: true, size, heap, ..Obj::default() }));
        if heap {
            self.heap_live += size;
        }
        id << 32
    }

    fn dead(&mut self, id: usize) {
        match Rc::get_mut(&mut self.objs[id]) {
            Some(o) => {
                o.live = false;
                o.shadow = vec![];
                let d = std::mem::take(&mut o.data);
                if self.free_bufs.len() < 64 {
                    self.free_bufs.push(d);
                }
            }
            None => {
                let (size, heap) = (self.objs[id].size, self.objs[id].heap);
                self.objs[id] = Rc::new(Obj { size, heap, ..Obj::default() });
            }
        }
    }

    fn mem_err<T>(&self, what: &str, a: u64, n: u64) -> X<T> {
        Err(Stop::Violation {
            kind: "memory".into(),
            code: 0,
            detail: format!("{} of {} bytes at {:#x}: {}", what, n, a, self.backtrace()),
            model: None,
        })
    }

    #[inline]
    fn resolve(&self, a: u64, n: u64, what: &str, write: bool) -> X<(usize, usize)> {
        let id = (a >> 32) as usize;
        let off = a & 0xffff_ffff;
        if id == 0 || id >= self.objs.len() {
            return self.mem_err(what, a, n);
        }
        let o = &self.objs[id];
        if !o.live || off + n > o.size || (write && o.ro) {
            return self.mem_err(what, a, n);
        }
        Ok((id, off as usize))
    }

    fn load_bytes(&mut self, a: u64, n: u64) -> X<V> {
        let (id, off) = self.resolve(a, n, "load", false)?;
        let o = &self.objs[id];
        let n = n as usize;
        if !o.sh_any(off, n) {
            let d = &o.data[off..off + n];
            return Ok(V::C(match n {
                8 => u64::from_le_bytes(d.try_into().unwrap()) as u128,
                1 => d[0] as u128,
                4 => u32::from_le_bytes(d.try_into().unwrap()) as u128,
                _ => {
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(d);
                    u128::from_le_bytes(b)
                }
            }));
        }
        // symbolic
        let get = |i: usize| -> u64 { o.sh(off + i) };
        // fast path: the whole of one expression
        let s0 = get(0);
        if s0 != 0 && (s0 & 0xff) == 0 {
            let e = (s0 >> 8) as u32 - 1;
            if self.ar.w(e) as usize == 8 * n && (0..n).all(|i| get(i) == ((e as u64 + 1) << 8) | i as u64) {
                return Ok(V::E(e));
            }
        }
        let bytes: Vec<(u64, u8)> = (0..n).map(|i| (get(i), o.data[off + i])).collect();
        let mut acc: Option<EId> = None;
        for (s, b) in bytes {
            let x = if s == 0 {
                self.ar.c(b as u128, 8)
            } else {
                let e = (s >> 8) as u32 - 1;
                let i = (s & 0xff) as u32;
                let w = self.ar.w(e);
                if w < 8 {
                    self.ar.zext(e, 8)
                } else {
                    self.ar.extract(e, i * 8, 8)
                }
            };
            acc = Some(match acc {
                None => x,
                Some(l) => self.ar.concat(x, l),
            });
        }
        let e = acc.unwrap();
        Ok(self.v(e))
    }

    fn store_bytes(&mut self, a: u64, n: u64, v: &V, w: u32) -> X<()> {
        let (id, off) = self.resolve(a, n, "store", true)?;
        let n = n as usize;
        match v {
            V::C(c) => {
                let o = Rc::make_mut(&mut self.objs[id]);
                let d = &mut o.data[off..off + n];
                match n {
                    8 => d.copy_from_slice(&(*c as u64).to_le_bytes()),
                    1 => d[0] = *c as u8,
                    _ => d.copy_from_slice(&c.to_le_bytes()[..n]),
                }
                o.sh_clear(off, n);
            }
            V::E(e) => {
                let mut e = *e;
                if w < (n as u32) * 8 {
                    e = self.ar.zext(e, (n as u32) * 8);
                }
                let o = Rc::make_mut(&mut self.objs[id]);
                for i in 0..n {
                    o.sh_set(off + i, ((e as u64 + 1) << 8) | i as u64);
                }
            }
            V::Agg(_) => return err("store aggregate as scalar"),
        }
        Ok(())
    }

    fn load(&mut self, a: u64, ty: &Ty) -> X<V> {
        match ty {
            Ty::Struct(ts, _) => {
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    v.push(self.load(a.wrapping_add(ty.field_offset(i)), t)?);
                }
                Ok(V::Agg(Box::new(v)))
            }
            Ty::Array(n, t) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(a.wrapping_add(i * t.size()), t)?);
                }
                Ok(V::Agg(Box::new(v)))
            }
            _ => {
                let w = ty.bits();
                let n = (w as u64 + 7) / 8;
                if n > 16 {
                    return err("wide load");
                }
                let v = self.load_bytes(a, n)?;
                Ok(match v {
                    V::C(c) => V::C(c & mask(w)),
                    V::E(e) => {
                        let x = self.ar.extract(e, 0, w);
                        self.v(x)
                    }
                    v => v,
                })
            }
        }
    }

    fn store(&mut self, a: u64, ty: &Ty, v: &V) -> X<()> {
        match (ty, v) {
            (Ty::Struct(ts, _), V::Agg(vs)) => {
                for (i, (t, x)) in ts.iter().zip(vs.iter()).enumerate() {
                    self.store(a.wrapping_add(ty.field_offset(i)), t, x)?;
                }
                Ok(())
            }
            (Ty::Array(_, t), V::Agg(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    self.store(a.wrapping_add(i as u64 * t.size()), t, x)?;
                }
                Ok(())
            }
            _ => {
                let w = ty.bits();
                let n = (w as u64 + 7) / 8;
                if n > 16 {
                    return err("wide store");
                }
                self.store_bytes(a, n, v, w)
            }
        }
    }

    fn memmove(&mut self, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.resolve(s, n, "memcpy source", false)?;
        let (di, dof) = self.resolve(d, n, "memcpy destination", true)?;
        let n = n as usize;
        let sh: Option<Vec<u64>> = if self.objs[si].sh_any(so, n) {
            let o = &self.objs[si];
            Some((0..n).map(|i| o.sh(so + i)).collect())
        } else {
            None
        };
        if si == di {
            Rc::make_mut(&mut self.objs[si]).data.copy_within(so..so + n, dof);
        } else {
            Rc::make_mut(&mut self.objs[di]);
            let (a, b) = if si < di {
                let (l, r) = self.objs.split_at_mut(di);
                (&l[si], &mut r[0])
            } else {
                let (l, r) = self.objs.split_at_mut(si);
                (&r[0], &mut l[di])
            };
            let b = Rc::get_mut(b).unwrap();
            b.data[dof..dof + n].copy_from_slice(&a.data[so..so + n]);
        }
        let b = Rc::get_mut(&mut self.objs[di]).unwrap();
        match sh {
            Some(v) => {
                for (i, x) in v.into_iter().enumerate() {
                    b.sh_set(dof + i, x);
                }
            }
            None => b.sh_clear(dof, n),
        }
        Ok(())
    }

    fn byte(&mut self, a: u64) -> X<V> {
        self.load_bytes(a, 1)
    }

    // -------------------------------------------------------------------------- running

    /// Runs one path. Returns how it ended.
    pub fn run_pend(&mut self, job: &Job, p: Pend, rng: &mut u64, nsamples: usize) -> Stop {
        self.ist_snap = None;
        match p.snap {
            None => {
                let it = self.detach(p);
                self.run(job, it, rng, nsamples)
            }
            Some(s) => {
                let mut decs = self.decs[s.decs..p.plen].to_vec();
                decs.push(p.extra);
                self.item = Item { job: p.job, decs, model: Model::default() };
                self.model = p.model;
                self.restore(&s);
                drop(s);
                self.go(job, rng, nsamples)
            }
        }
    }

    pub fn run(&mut self, job: &Job, item: Item, rng: &mut u64, nsamples: usize) -> Stop {
        self.reset_memory();
        self.pc.clear();
        self.lits.clear();
        self.lits_v.clear();
        self.decs.clear();
        self.emits.clear();
        self.cap = usize::MAX;
        self.hmul = 0;
        self.item = item;
        self.model = std::mem::take(&mut self.item.model);
        self.steps = 0;
        self.go(job, rng, nsamples)
    }

    fn go(&mut self, job: &Job, rng: &mut u64, nsamples: usize) -> Stop {
        self.di = 0;
        self.ist.0 = u64::MAX;
        self.ist_snap = None;
        self.ar.new_gen();
        let before = self.steps;
        let f = &self.prog.funcs[job.entry as usize];
        let r = if job.args.len() != f.nparams as usize {
            Stop::Error(format!("entry takes {} arguments", f.nparams))
        } else {
            if self.frames.is_empty() {
                let args = job.args.iter().map(|a| V::C(*a as u128)).collect();
                self.push_frame(job.entry, args, None);
            }
            self.enter();
            match self.interp() {
                Ok(()) => Stop::Done,
                Err(s) => s,
            }
        };
        self.st.steps += self.steps - before;
        self.st.max_steps = self.st.max_steps.max(self.steps);
        self.st.max_decs = self.st.max_decs.max(self.decs.len() as u64);
        match &r {
            Stop::Done => {
                self.st.done += 1;
                *rng ^= *rng << 13;
                *rng ^= *rng >> 7;
                *rng ^= *rng << 17;
                let prio = *rng;
                let worst = self.st.samples.iter().map(|s| s.prio).max().unwrap_or(u64::MAX);
                if self.st.samples.len() < nsamples || prio < worst {
                    let em = self.emits.clone();
                    let emits = em
                        .iter()
                        .map(|(t, v)| {
                            let x = match v {
                                V::C(c) => *c as u64,
                                V::E(e) => self.ar.eval(*e, &self.model) as u64,
                                _ => 0,
                            };
                            (*t, x)
                        })
                        .collect();
                    if self.st.samples.len() >= nsamples {
                        let i = self.st.samples.iter().position(|s| s.prio == worst).unwrap();
                        self.st.samples.swap_remove(i);
                    }
                    self.st.samples.push(Sample { model: self.model.clone(), emits, prio });
                }
            }
            Stop::Killed => self.st.killed += 1,
            Stop::Violation { kind, code, detail, model } => {
                self.st.nviol += 1;
                if self.st.violations.len() < 8 {
                    self.st.violations.push(Viol {
                        kind: kind.clone(),
                        code: *code,
                        detail: detail.clone(),
                        model: model.clone().unwrap_or_else(|| self.model.clone()),
                    });
                }
            }
            Stop::Error(s) => {
                self.st.nerrors += 1;
                if self.st.errors.len() < 8 {
                    let m = format!("{} at {}", s, self.backtrace());
                    self.st.errors.push(m);
                }
            }
        }
        r
    }

    fn push_frame(&mut self, func: u32, args: Vec<V>, dst: Option<Reg>) {
        self.fn_hit[func as usize] = true;
        let f = &self.prog.funcs[func as usize];
        let base = self.regs.len();
        self.regs.extend(args);
        self.regs.resize(base + f.nregs as usize, V::C(0));
        self.frames.push(Frame { func, block: 0, ip: 0, base: base as u32, sp: self.sp, dst });
        self.sp = self.sp.saturating_sub(48);
    }

    /// Makes the last frame the current one.
    #[inline]
    fn enter(&mut self) {
        let f = self.frames.last().unwrap();
        self.func = f.func;
        self.block = f.block;
        self.ip = f.ip;
        self.base = f.base as usize;
        self.code = &self.prog.funcs[f.func as usize].blocks[f.block as usize];
    }

    fn goto(&mut self, t: &Target) {
        if t.moves.len() == 1 {
            let v = self.get(&t.moves[0].1);
            self.set(t.moves[0].0, v);
        } else if !t.moves.is_empty() {
            let vs: Vec<V> = t.moves.iter().map(|m| self.get(&m.1)).collect();
            for (m, v) in t.moves.iter().zip(vs) {
                self.set(m.0, v);
            }
        }
        self.block = t.block;
        self.ip = 0;
        self.code = &self.prog.funcs[self.func as usize].blocks[t.block as usize];
    }

    fn lanes<F: FnMut(&mut Self, u128, u128) -> u128>(
        &mut self,
        a: &V,
        b: &V,
        w: u32,
        n: u32,
        ow: u32,
        mut f: F,
    ) -> X<V> {
        let x = self.conc(a)?;
        let y = self.conc(b)?;
        let mut r = 0u128;
        if w == 8 && n == 16 {
            let (xs, ys) = (x.to_le_bytes(), y.to_le_bytes());
            let m = mask(ow);
            for i in (0..16).rev() {
                r = (r << ow) | (f(self, xs[i] as u128, ys[i] as u128) & m);
            }
            return Ok(V::C(r));
        }
        let (mw, mo) = (mask(w), mask(ow));
        for i in 0..n {
            let p = (x >> (i * w)) & mw;
            let q = (y >> (i * w)) & mw;
            r |= (f(self, p, q) & mo) << (i * ow);
        }
        Ok(V::C(r))
    }

    fn select_v(&mut self, c: EId, a: &V, b: &V, ty: &Ty) -> X<V> {
        Ok(match (a, b) {
            (V::Agg(x), V::Agg(y)) => {
                let mut r = vec![];
                for i in 0..x.len() {
                    let t = ty.elem(i);
                    r.push(self.select_v(c, &x[i], &y[i], &t)?);
                }
                V::Agg(Box::new(r))
            }
            _ => {
                let w = w_of(ty);
                let p = self.e(a, w);
                let q = self.e(b, w);
                let r = self.ar.ite(c, p, q);
                self.v(r)
            }
        })
    }

    fn div_guard(&mut self, op: BinOp, b: &V) -> X<()> {
        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
            if let V::C(0) = b {
                return err("division by zero (undefined behaviour)");
            }
        }
        Ok(())
    }

    fn interp(&mut self) -> X<()> {
        let prog = self.prog;
        loop {
            self.steps += 1;
            if self.steps > self.max_steps {
                return Err(Stop::Violation {
                    kind: "steps".into(),
                    code: 0,
                    detail: format!("step budget exhausted: {}", self.backtrace()),
                    model: None,
                });
            }
            if self.steps & 0xf_ffff == 0 && self.stop.load(Ordering::Relaxed) {
                return err("stopped");
            }
            let ip = self.ip;
            let code = self.code;
            self.ip += 1;
            let ins = &code[ip as usize];
            match ins {
                I::Bin { op, w, lanes, dst, a, b } => {
                    let x = self.get(a);
                    let y = self.get(b);
                    let r = if let (V::C(p), V::C(q), 0, true) = (&x, &y, *lanes, fast_op(*op) && *w <= 64) {
                        let (p, q) = (*p as u64, *q as u64);
                        let r = match op {
                            BinOp::Add => p.wrapping_add(q),
                            BinOp::Sub => p.wrapping_sub(q),
                            BinOp::Mul => p.wrapping_mul(q),
                            BinOp::And => p & q,
                            BinOp::Or => p | q,
                            _ => p ^ q,
                        };
                        V::C((r & (u64::MAX >> (64 - *w))) as u128)
                    } else if *lanes > 0 {
                        let (op, w) = (*op, *w);
                        self.lanes(&x, &y, w, *lanes, w, |_, p, q| bin_c(op, p, q, w))?
                    } else {
                        self.div_guard(*op, &y)?;
                        match (&x, &y) {
                            (V::C(p), V::C(q)) => V::C(bin_c(*op, *p, *q, *w)),
                            _ => {
                                let p = self.e(&x, *w);
                                let q = self.e(&y, *w);
                                if *op == BinOp::Mul && self.hmul > 0 && self.ar.bits(p) + self.ar.bits(q) > 64 {
                                    // any product
                                    let e = self.ar.var(1 << 62 | self.hmul, *w);
                                    self.hmul += 1;
                                    self.v(e)
                                } else {
                                    let e = self.ar.bin(*op, p, q);
                                    self.v(e)
                                }
                            }
                        }
                    };
                    self.set(*dst, r);
                }
                I::ICmp { p, w, lanes, dst, a, b } => {
                    let x = self.get(a);
                    let y = self.get(b);
                    let r = if let (V::C(m), V::C(n), 0, true) = (&x, &y, *lanes, *w <= 64) {
                        V::C(cmp64(*p, *m as u64, *n as u64, *w) as u128)
                    } else if *lanes == 16 && *w == 8 {
                        let (x, y) = (self.conc(&x)?.to_le_bytes(), self.conc(&y)?.to_le_bytes());
                        let mut r = 0u32;
                        for i in 0..16 {
                            r |= (cmp64(*p, x[i] as u64, y[i] as u64, 8) as u32) << i;
                        }
                        V::C(r as u128)
                    } else if *lanes > 0 {
                        let (p, w) = (*p, *w);
                        self.lanes(&x, &y, w, *lanes, 1, |_, m, n| cmp_c(p, m, n, w) as u128)?
                    } else {
                        match (&x, &y) {
                            (V::C(m), V::C(n)) => V::C(cmp_c(*p, *m, *n, *w) as u128),
                            _ => {
                                let m = self.e(&x, *w);
                                let n = self.e(&y, *w);
                                let e = self.ar.cmp(*p, m, n);
                                self.v(e)
                            }
                        }
                    };
                    self.set(*dst, r);
                }
                I::Cast { k, from, to, lanes, dst, a } => {
                    let x = self.get(a);
                    let r = if *lanes > 0 {
                        if lanes * to > 128 {
                            return err("wide vector cast");
                        }
                        let (k, from, to) = (*k, *from, *to);
                        self.lanes(&x, &V::C(0), from, *lanes, to, |_, p, _| match k {
                            CastK::SExt => sext(p, from) as u128,
                            _ => p,
                        })
                        .map(|v| v)?
                    } else {
                        match x {
                            V::C(c) => V::C(match k {
                                CastK::Trunc => c & mask(*to),
                                CastK::SExt => (sext(c, *from) as u128) & mask(*to),
                                _ => c,
                            }),
                            V::E(e) => {
                                let r = match k {
                                    CastK::Trunc => self.ar.extract(e, 0, *to),
                                    CastK::ZExt => self.ar.zext(e, *to),
                                    CastK::SExt => self.ar.sext(e, *to),
                                    CastK::Bit => e,
                                };
                                self.v(r)
                            }
                            V::Agg(_) => return err("cast of aggregate"),
                        }
                    };
                    self.set(*dst, r);
                }
                I::Select { dst, c, a, b, ty, clanes } => {
                    let cv = self.get(c);
                    let x = self.get(a);
                    let y = self.get(b);
                    let r = if *clanes > 0 {
                        let m = self.conc(&cv)?;
                        let ew = ty.elem(0).bits();
                        let p = self.conc(&x)?;
                        let q = self.conc(&y)?;
                        let mut r = 0u128;
                        for i in 0..*clanes {
                            let s = if (m >> i) & 1 == 1 { p } else { q };
                            r |= ((s >> (i * ew)) & mask(ew)) << (i * ew);
                        }
                        V::C(r)
                    } else {
                        match cv {
                            V::C(k) => {
                                if k & 1 == 1 {
                                    x
                                } else {
                                    y
                                }
                            }
                            V::E(e) => {
                                if self.lits.contains(&e) {
                                    x
                                } else {
                                    let ne = self.ar.not(e);
                                    if self.lits.contains(&ne) {
                                        y
                                    } else {
                                        self.select_v(e, &x, &y, ty)?
                                    }
                                }
                            }
                            _ => return err("select on aggregate"),
                        }
                    };
                    self.set(*dst, r);
                }
                I::Load { dst, ty, p } => {
                    let pv = self.get(p);
                    let a = self.conc(&pv)? as u64;
                    let v = self.load(a, ty)?;
                    self.set(*dst, v);
                }
                I::Store { ty, v, p } => {
                    let pv = self.get(p);
                    let a = self.conc(&pv)? as u64;
                    let x = self.get(v);
                    self.store(a, ty, &x)?;
                }
                // One thread only.
                I::Rmw { dst, op, ty, p, v } => {
                    let pv = self.get(p);
                    let a = self.conc(&pv)? as u64;
                    let x = self.get(v);
                    let old = self.load(a, ty)?;
                    let new = match op {
                        None => x,
                        Some(op) => {
                            let w = ty.bits();
                            let p = self.e(&old, w);
                            let q = self.e(&x, w);
                            let e = self.ar.bin(*op, p, q);
                            self.v(e)
                        }
                    };
                    self.store(a, ty, &new)?;
                    self.set(*dst, old);
                }
                I::CmpXchg { dst, ty, p, cmp, new } => {
                    let pv = self.get(p);
                    let a = self.conc(&pv)? as u64;
                    let c = self.get(cmp);
                    let n = self.get(new);
                    let old = self.load(a, ty)?;
                    let w = ty.bits();
                    let x = self.e(&old, w);
                    let y = self.e(&c, w);
                    let eq = self.ar.cmp(Pred::Eq, x, y);
                    let eq = self.branch(eq)?;
                    if eq {
                        self.store(a, ty, &n)?;
                    }
                    self.set(*dst, V::Agg(Box::new(vec![old, V::C(eq as u128)])));
                }
                I::Gep { dst, base, off, idx } => {
                    let b = self.get(base);
                    let mut acc = match b {
                        V::C(c) => V::C(((c as u64).wrapping_add(*off as u64)) as u128),
                        V::E(e) => {
                            let k = self.ar.c(*off as u64 as u128, 64);
                            let r = self.ar.bin(BinOp::Add, e, k);
                            self.v(r)
                        }
                        _ => return err("gep base"),
                    };
                    for (o, w, scale) in idx {
                        let i = self.get(o);
                        acc = match (&acc, &i) {
                            (V::C(x), V::C(y)) => V::C(
                                ((*x as u64)
                                    .wrapping_add((sext(*y, *w) as i64).wrapping_mul(*scale) as u64))
                                    as u128,
                            ),
                            _ => {
                                let x = self.e(&acc, 64);
                                let mut y = self.e(&i, *w);
                                if *w < 64 {
                                    y = self.ar.sext(y, 64);
                                } else if *w > 64 {
                                    y = self.ar.extract(y, 0, 64);
                                }
                                let s = self.ar.c(*scale as u64 as u128, 64);
                                let m = self.ar.bin(BinOp::Mul, y, s);
                                let r = self.ar.bin(BinOp::Add, x, m);
                                self.v(r)
                            }
                        };
                    }
                    self.set(*dst, acc);
                }
                I::Alloca { dst, size, align } => {
                    let a = (*align).max(1);
                    let need = *size;
                    if self.sp < need + a + 4096 {
                        return Err(Stop::Violation {
                            kind: "stack".into(),
                            code: 0,
                            detail: format!("call stack exhausted: {}", self.backtrace()),
                            model: None,
                        });
                    }
                    self.sp = (self.sp - need) / a * a;
                    let p = (STACK_OBJ << 32) + self.sp;
                    self.set(*dst, V::C(p as u128));
                }
                I::Call { dst, callee, args, argw, ret } => {
                    let fi = match callee {
                        Callee::Fn(i) => Some(*i),
                        Callee::Ind(o) => {
                            let v = self.get(o);
                            let a = self.conc(&v)? as u64;
                            let id = a >> 32;
                            if id >= FN_OBJ_BASE && ((id - FN_OBJ_BASE) as usize) < prog.funcs.len() && a & 0xffff_ffff == 0 {
                                Some((id - FN_OBJ_BASE) as u32)
                            } else {
                                return err(format!("indirect call to {:#x}", a));
                            }
                        }
                        _ => None,
                    };
                    let vals: Vec<V> = args.iter().map(|a| self.get(a)).collect();
                    match fi {
                        Some(i) => {
                            if self.frames.len() > 100_000 || self.sp < 4096 {
                                return Err(Stop::Violation {
                                    kind: "stack".into(),
                                    code: 0,
                                    detail: format!("call stack exhausted: {}", self.backtrace()),
                                    model: None,
                                });
                            }
                            let f = self.frames.last_mut().unwrap();
                            f.block = self.block;
                            f.ip = self.ip;
                            self.push_frame(i, vals, *dst);
                            self.enter();
                        }
                        None => {
                            let xi = match callee {
                                Callee::X(i) => *i as usize,
                                _ => return err("unresolved callee"),
                            };
                            let noret = matches!(
                                code.get(ip as usize + 1),
                                Some(I::Unreachable)
                            );
                            let r = self.ext(xi, vals, argw, ret, noret)?;
                            if let (Some(d), Some(v)) = (dst, r) {
                                self.set(*d, v);
                            }
                        }
                    }
                }
                I::ExtractValue { dst, agg, idx } => {
                    let mut v = self.get(agg);
                    for i in idx {
                        v = match v {
                            V::Agg(x) => x[*i as usize].clone(),
                            _ => return err("extractvalue of scalar"),
                        };
                    }
                    self.set(*dst, v);
                }
                I::InsertValue { dst, agg, v, idx, ty } => {
                    let mut a = self.get(agg);
                    let x = self.get(v);
                    fn ins(a: &mut V, idx: &[u32], x: V) -> bool {
                        match a {
                            V::Agg(b) => {
                                if idx.len() == 1 {
                                    b[idx[0] as usize] = x;
                                    true
                                } else {
                                    ins(&mut b[idx[0] as usize], &idx[1..], x)
                                }
                            }
                            _ => false,
                        }
                    }
                    let _ = ty;
                    if !ins(&mut a, idx, x) {
                        return err("insertvalue into scalar");
                    }
                    self.set(*dst, a);
                }
                I::ExtractElt { dst, v, ew, i } => {
                    let x = self.get(v);
                    let iv = self.get(i);
                    let k = self.conc(&iv)? as u32;
                    let r = match x {
                        V::C(c) => V::C((c >> (k * ew)) & mask(*ew)),
                        V::E(e) => {
                            let r = self.ar.extract(e, k * ew, *ew);
                            self.v(r)
                        }
                        _ => return err("extractelement"),
                    };
                    self.set(*dst, r);
                }
                I::InsertElt { dst, v, e, ew, i } => {
                    let x = self.get(v);
                    let x = self.conc(&x)?;
                    let y = self.get(e);
                    let y = self.conc(&y)?;
                    let iv = self.get(i);
                    let k = self.conc(&iv)? as u32;
                    let m = mask(*ew) << (k * ew);
                    self.set(*dst, V::C((x & !m) | ((y & mask(*ew)) << (k * ew))));
                }
                I::Shuffle { dst, a, b, ew, n, mask: mk } => {
                    let x = self.get(a);
                    let x = self.conc(&x)?;
                    let y = self.get(b);
                    let y = self.conc(&y)?;
                    let mut r = 0u128;
                    if mk.len() as u32 * ew > 128 {
                        return err("wide shuffle");
                    }
                    for (i, s) in mk.iter().enumerate() {
                        if *s < 0 {
                            continue;
                        }
                        let s = *s as u32;
                        let e = if s < *n { x >> (s * ew) } else { y >> ((s - n) * ew) };
                        r |= (e & mask(*ew)) << (i as u32 * ew);
                    }
                    self.set(*dst, V::C(r));
                }
                I::Copy { dst, a } => {
                    let v = self.get(a);
                    self.set(*dst, v);
                }
                I::Br(t) => self.goto(t),
                I::CondBr { c, t, f } => {
                    let v = self.get(c);
                    if self.truth(&v)? {
                        self.goto(t)
                    } else {
                        self.goto(f)
                    }
                }
                I::Switch { v, w, cases, default } => {
                    let x = self.get(v);
                    match x {
                        V::C(c) => {
                            let t = cases.iter().find(|k| k.0 == c).map(|k| &k.1).unwrap_or(default);
                            self.goto(t);
                        }
                        V::E(e) => {
                            let mut taken = None;
                            for (k, t) in cases {
                                let kc = self.ar.c(*k, *w);
                                let eq = self.ar.cmp(Pred::Eq, e, kc);
                                if self.branch(eq)? {
                                    taken = Some(t);
                                    break;
                                }
                            }
                            self.goto(taken.unwrap_or(default));
                        }
                        _ => return err("switch on aggregate"),
                    }
                }
                I::Ret(o) => {
                    let v = o.as_ref().map(|o| self.get(o));
                    let f = self.frames.pop().unwrap();
                    self.regs.truncate(f.base as usize);
                    self.sp = f.sp;
                    if self.frames.is_empty() {
                        return Ok(());
                    }
                    self.enter();
                    if let (Some(d), Some(v)) = (f.dst, v) {
                        self.set(d, v);
                    }
                }
                I::Unreachable => {
                    return Err(Stop::Violation {
                        kind: "unreachable".into(),
                        code: 0,
                        detail: self.backtrace(),
                        model: None,
                    })
                }
                I::Unsupported(s) => return err(format!("unsupported: {}", s)),
            }
        }
    }

    fn minmax(&mut self, a: &V, b: &V, w: u32, p: Pred) -> V {
        match (a, b) {
            (V::C(x), V::C(y)) => V::C(if cmp_c(p, *x, *y, w) { *x } else { *y }),
            _ => {
                let x = self.e(a, w);
                let y = self.e(b, w);
                let c = self.ar.cmp(p, x, y);
                let r = self.ar.ite(c, x, y);
                self.v(r)
            }
        }
    }

    fn overflow_op(&mut self, op: BinOp, signed: bool, a: &V, b: &V, w: u32) -> X<(EId, EId)> {
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.ar.bin(op, x, y);
        let o = match (op, signed) {
            (BinOp::Add, false) => self.ar.cmp(Pred::Ult, r, x),
            (BinOp::Sub, false) => self.ar.cmp(Pred::Ult, x, y),
            (BinOp::Add, true) | (BinOp::Sub, true) => {
                // the signs say it
                let p = self.ar.bin(BinOp::Xor, x, r);
                let q = self.ar.bin(BinOp::Xor, y, if op == BinOp::Add { r } else { x });
                let z = self.ar.bin(BinOp::And, p, q);
                self.ar.extract(z, w - 1, 1)
            }
            _ => {
                let ww = if op == BinOp::Mul { 2 * w } else { w + 1 };
                if ww > 128 {
                    // fall back to concrete values
                    let p = self.conc_e(x)?;
                    let q = self.conc_e(y)?;
                    if op == BinOp::Mul && !signed {
                        let (_, o) = p.overflowing_mul(q);
                        let o = self.ar.c(o as u128, 1);
                        let r = self.ar.c(bin_c(op, p, q, w), w);
                        return Ok((r, o));
                    }
                    return err("wide overflow operation");
                }
                let (xe, ye) = if signed {
                    (self.ar.sext(x, ww), self.ar.sext(y, ww))
                } else {
                    (self.ar.zext(x, ww), self.ar.zext(y, ww))
                };
                let full = self.ar.bin(op, xe, ye);
                let back = if signed { self.ar.sext(r, ww) } else { self.ar.zext(r, ww) };
                self.ar.cmp(Pred::Ne, full, back)
            }
        };
        Ok((r, o))
    }

    fn ext(&mut self, xi: usize, a: Vec<V>, argw: &[u32], ret: &Ty, noret: bool) -> X<Option<V>> {
        use Ext::*;
        let k = self.exts[xi];
        let w0 = argw.first().copied().unwrap_or(0);
        Ok(match k {
            Alloc | AllocZeroed => {
                let n = self.conc(&a[0])? as u64;
                if n > 1 << 31 {
                    return err("huge allocation");
                }
                Some(V::C(self.new_obj(n, true, true) as u128))
            }
            Dealloc => {
                let p = self.conc(&a[0])? as u64;
                let n = self.conc(&a[1])? as u64;
                let (id, off) = self.resolve(p, 0, "free", false)?;
                let o = &self.objs[id];
                if !o.heap || off != 0 || o.size != n {
                    return self.mem_err("free", p, n);
                }
                self.dead(id);
                self.heap_live -= n;
                None
            }
            Realloc => {
                let p = self.conc(&a[0])? as u64;
                let old = self.conc(&a[1])? as u64;
                let n = self.conc(&a[3])? as u64;
                let (id, off) = self.resolve(p, 0, "realloc", false)?;
                if !self.objs[id].heap || off != 0 || self.objs[id].size != old {
                    return self.mem_err("realloc", p, old);
                }
                let q = self.new_obj(n, true, false);
                self.memmove(q, p, old.min(n))?;
                self.dead(id);
                self.heap_live -= old;
                Some(V::C(q as u128))
            }
            NoAllocShim => None,
            RandomKeys => {
                // Fixed keys: an assumption stated in the evidence.
                Some(V::Agg(Box::new(vec![V::C(0x0123_4567_89ab_cdef), V::C(0xfedc_ba98_7654_3210)])))
            }
            // Some instant; the thread's handle as much as its identity is read.
            Now => Some(V::Agg(Box::new(vec![V::C(1000), V::C(5)]))),
            CurThread => {
                let p = self.new_obj(256, false, true);
                for (o, x) in [(0u64, 1u128 << 40), (8, 1), (16, 1)] {
                    self.store_bytes(p + o, 8, &V::C(x), 64)?;
                }
                Some(V::C(p as u128))
            }
            LsxAnyProducts => {
                self.hmul = 1;
                None
            }
            LsxTries => Some(V::C(0)),
            LsxLimit => {
                let n = self.conc(&a[0])? as usize;
                self.cap = self.pc.len() + n;
                None
            }
            Panic => {
                return Err(Stop::Violation {
                    kind: "panic".into(),
                    code: 0,
                    detail: format!("{} < {}", self.ext_names[xi], self.backtrace()),
                    model: None,
                })
            }
            Memcpy => {
                let d = self.conc(&a[0])? as u64;
                let s = self.conc(&a[1])? as u64;
                let n = self.conc(&a[2])? as u64;
                self.memmove(d, s, n)?;
                if *ret != Ty::Void {
                    Some(V::C(d as u128))
                } else {
                    None
                }
            }
            Memset => {
                let d = self.conc(&a[0])? as u64;
                let n = self.conc(&a[2])? as u64;
                if n > 0 {
                    let (id, off) = self.resolve(d, n, "memset", true)?;
                    match &a[1] {
                        V::C(c) => {
                            let c = *c as u8;
                            let o = Rc::make_mut(&mut self.objs[id]);
                            let n = n as usize;
                            o.data[off..off + n].fill(c);
                            o.sh_clear(off, n);
                        }
                        v => {
                            let mut v = v.clone();
                            if let V::E(e) = v {
                                if self.ar.w(e) > 8 {
                                    let x = self.ar.extract(e, 0, 8);
                                    v = self.v(x);
                                }
                            }
                            for i in 0..n {
                                self.store_bytes(d + i, 1, &v, 8)?;
                            }
                        }
                    }
                }
                if *ret != Ty::Void {
                    Some(V::C(d as u128))
                } else {
                    None
                }
            }
            Memcmp | Bcmp => {
                let p = self.conc(&a[0])? as u64;
                let q = self.conc(&a[1])? as u64;
                let n = self.conc(&a[2])? as u64;
                let mut r = self.ar.c(0, 32);
                for i in (0..n).rev() {
                    let x = self.byte(p + i)?;
                    let y = self.byte(q + i)?;
                    let x = self.e(&x, 8);
                    let y = self.e(&y, 8);
                    let lt = self.ar.cmp(Pred::Ult, x, y);
                    let eq = self.ar.cmp(Pred::Eq, x, y);
                    let m1 = self.ar.c(u32::MAX as u128, 32);
                    let p1 = self.ar.c(1, 32);
                    let ne = self.ar.ite(lt, m1, p1);
                    r = self.ar.ite(eq, r, ne);
                }
                Some(self.v(r))
            }
            Assume => {
                // A fact the compiler derived; not needed.
                None
            }
            Expect => Some(a[0].clone()),
            TlsAddr => Some(a[0].clone()),
            ObjectSize => Some(V::C(mask(ret.bits()))),
            IsConstant => Some(V::C(0)),
            Trap => {
                return Err(Stop::Violation {
                    kind: "panic".into(),
                    code: 0,
                    detail: format!("trap < {}", self.backtrace()),
                    model: None,
                })
            }
            Ctlz | Cttz | Ctpop => Some(match &a[0] {
                V::C(c) => {
                    let w = w0;
                    V::C(match k {
                        Ctlz => (c << (128 - w)).leading_zeros().min(w) as u128,
                        Cttz => c.trailing_zeros().min(w) as u128,
                        _ => c.count_ones() as u128,
                    })
                }
                V::E(e) => {
                    let e = *e;
                    let w = w0;
                    let r = match k {
                        Ctpop => {
                            let mut acc = self.ar.c(0, w);
                            for i in 0..w {
                                let b = self.ar.extract(e, i, 1);
                                let z = self.ar.zext(b, w);
                                acc = self.ar.bin(BinOp::Add, acc, z);
                            }
                            acc
                        }
                        _ => {
                            let mut acc = self.ar.c(w as u128, w);
                            for j in 0..w {
                                // last assignment wins: scan from the far end
                                let i = if k == Cttz { w - 1 - j } else { j };
                                let b = self.ar.extract(e, i, 1);
                                let v = if k == Cttz { i } else { w - 1 - i };
                                let kv = self.ar.c(v as u128, w);
                                acc = self.ar.ite(b, kv, acc);
                            }
                            acc
                        }
                    };
                    self.v(r)
                }
                _ => return err("ct* of aggregate"),
            }),
            Bswap => {
                let w = w0;
                let x = self.e(&a[0], w);
                let mut acc: Option<EId> = None;
                for i in 0..w / 8 {
                    let b = self.ar.extract(x, i * 8, 8);
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.ar.concat(h, b),
                    });
                }
                Some(self.v(acc.unwrap()))
            }
            Fshl | Fshr => {
                let w = w0;
                let s = (self.conc(&a[2])? % w as u128) as u32;
                Some(match (&a[0], &a[1]) {
                    (V::C(x), V::C(y)) => {
                        let (x, y) = (*x, *y);
                        V::C(if s == 0 {
                            if k == Fshl {
                                x
                            } else {
                                y
                            }
                        } else if k == Fshl {
                            ((x << s) | (y >> (w - s))) & mask(w)
                        } else {
                            ((x << (w - s)) | (y >> s)) & mask(w)
                        })
                    }
                    _ => {
                        let x = self.e(&a[0], w);
                        let y = self.e(&a[1], w);
                        let sl = if k == Fshl { s } else { w - s };
                        let r = if s == 0 {
                            if k == Fshl {
                                x
                            } else {
                                y
                            }
                        } else {
                            let lo = self.ar.extract(x, 0, w - sl);
                            let hi = self.ar.extract(y, w - sl, sl);
                            self.ar.concat(lo, hi)
                        };
                        self.v(r)
                    }
                })
            }
            UaddSat | UsubSat | SaddSat | SsubSat => {
                let w = w0;
                let signed = matches!(k, SaddSat | SsubSat);
                let op = if matches!(k, UaddSat | SaddSat) { BinOp::Add } else { BinOp::Sub };
                let (r, o) = self.overflow_op(op, signed, &a[0], &a[1], w)?;
                let sat = if !signed {
                    let s = if op == BinOp::Add { mask(w) } else { 0 };
                    self.ar.c(s, w)
                } else {
                    let x = self.e(&a[0], w);
                    let z = self.ar.c(0, w);
                    let neg = self.ar.cmp(Pred::Slt, x, z);
                    let mn = self.ar.c(1u128 << (w - 1), w);
                    let mx = self.ar.c(mask(w) >> 1, w);
                    self.ar.ite(neg, mn, mx)
                };
                let v = self.ar.ite(o, sat, r);
                Some(self.v(v))
            }
            UaddO | UsubO | UmulO | SaddO | SsubO | SmulO => {
                let signed = matches!(k, SaddO | SsubO | SmulO);
                let op = match k {
                    UaddO | SaddO => BinOp::Add,
                    UsubO | SsubO => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let (r, o) = self.overflow_op(op, signed, &a[0], &a[1], w0)?;
                Some(V::Agg(Box::new(vec![self.v(r), self.v(o)])))
            }
            Umax => Some(self.minmax(&a[0], &a[1], w0, Pred::Ugt)),
            Umin => Some(self.minmax(&a[0], &a[1], w0, Pred::Ult)),
            Smax => Some(self.minmax(&a[0], &a[1], w0, Pred::Sgt)),
            Smin => Some(self.minmax(&a[0], &a[1], w0, Pred::Slt)),
            Abs => {
                let x = self.e(&a[0], w0);
                let z = self.ar.c(0, w0);
                let n = self.ar.bin(BinOp::Sub, z, x);
                let neg = self.ar.cmp(Pred::Slt, x, z);
                let r = self.ar.ite(neg, n, x);
                Some(self.v(r))
            }
            Ucmp | Scmp => {
                let rw = ret.bits();
                let x = self.e(&a[0], w0);
                let y = self.e(&a[1], w0);
                let lt = self.ar.cmp(if k == Ucmp { Pred::Ult } else { Pred::Slt }, x, y);
                let eq = self.ar.cmp(Pred::Eq, x, y);
                let m1 = self.ar.c(mask(rw), rw);
                let z = self.ar.c(0, rw);
                let one = self.ar.c(1, rw);
                let r = self.ar.ite(eq, z, one);
                let r = self.ar.ite(lt, m1, r);
                Some(self.v(r))
            }
            // ------------------------------------------------------------ harness intrinsics
            LsxVar => {
                let key = self.conc(&a[0])? as u64;
                let bits = self.conc(&a[1])? as u32;
                let x = self.ar.var(key, bits);
                let x = self.ar.zext(x, 64);
                Some(self.v(x))
            }
            LsxVar128 => {
                let key = self.conc(&a[0])? as u64;
                let x = self.ar.var(key, 128);
                Some(self.v(x))
            }
            LsxRange => {
                let key = self.conc(&a[0])? as u64;
                let n = self.conc(&a[1])? as u64;
                if n == 0 {
                    return Err(Stop::Killed);
                }
                let bits = (64 - (n - 1).leading_zeros()).max(1);
                let x = self.ar.var(key, bits);
                let x = self.ar.zext(x, 64);
                let k = self.ar.c(n as u128, 64);
                let c = self.ar.cmp(Pred::Ult, x, k);
                let c = self.v(c);
                self.assume(&c)?;
                Some(self.v(x))
            }
            LsxChoose => {
                let key = self.conc(&a[0])? as u64;
                let n = self.conc(&a[1])? as u64;
                Some(V::C(self.choose(key, n)? as u128))
            }
            LsxConc => Some(V::C(self.conc(&a[0])?)),
            LsxAssume => {
                self.assume(&a[0])?;
                None
            }
            LsxCheck => {
                let code = self.conc(&a[1])? as u64;
                self.check(&a[0], "assert", code)?;
                None
            }
            LsxCover => {
                let code = self.conc(&a[0])? as u64;
                *self.st.covers.entry(code).or_insert(0) += 1;
                None
            }
            LsxEmit => {
                let t = self.conc(&a[0])? as u64;
                self.emits.push((t, a[1].clone()));
                None
            }
            LsxSp => Some(V::C(self.sp as u128)),
            LsxHeap => Some(V::C(self.heap_live as u128)),
            LsxLookup => {
                // (ptr to u64 array, len, idx): an ite chain
                let p = self.conc(&a[0])? as u64;
                let n = self.conc(&a[1])? as u64;
                match &a[2] {
                    V::C(c) => {
                        let i = *c as u64;
                        if i >= n {
                            return err("lookup out of range");
                        }
                        Some(self.load(p + 8 * i, &Ty::Int(64))?)
                    }
                    V::E(e) => {
                        let e = *e;
                        let mut acc = {
                            let v = self.load(p, &Ty::Int(64))?;
                            self.e(&v, 64)
                        };
                        for i in 1..n {
                            let v = self.load(p + 8 * i, &Ty::Int(64))?;
                            let v = self.e(&v, 64);
                            let k = self.ar.c(i as u128, 64);
                            let c = self.ar.cmp(Pred::Eq, e, k);
                            acc = self.ar.ite(c, v, acc);
                        }
                        Some(self.v(acc))
                    }
                    _ => return err("lookup"),
                }
            }
            LsxIte => {
                let c = self.e(&a[0], argw[0]);
                let c = if argw[0] == 1 {
                    c
                } else {
                    let z = self.ar.c(0, argw[0]);
                    self.ar.cmp(Pred::Ne, c, z)
                };
                let x = self.e(&a[1], 64);
                let y = self.e(&a[2], 64);
                let r = self.ar.ite(c, x, y);
                Some(self.v(r))
            }
            LsxMul => {
                let x = self.e(&a[0], 64);
                let y = self.e(&a[1], 64);
                let r = self.ar.bin(BinOp::Mul, x, y);
                Some(self.v(r))
            }
            LsxEnd => return Err(Stop::Done),
            Havoc => None,
            Unknown => {
                if noret {
                    return Err(Stop::Violation {
                        kind: "panic".into(),
                        code: 0,
                        detail: format!("{} < {}", self.ext_names[xi], self.backtrace()),
                        model: None,
                    });
                }
                return err(format!("call of external function {}", self.ext_names[xi]));
            }
        })
    }
}
