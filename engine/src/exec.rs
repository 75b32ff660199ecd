//! The symbolic interpreter.
use crate::decode::*;
use crate::expr::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum D {
    Br(bool),
    Eq(u64),
    Ne(u64),
    Sw(u32),
}

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Killed,
    Panic(String),
    Fail(String),
    Limit(String),
    Fault(String),
    Error(String),
    Timeout,
}
type R<T> = Result<T, Box<End>>;
fn end<T>(e: End) -> R<T> {
    Err(Box::new(e))
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub sp: u64,
    pub ret: Reg,
}

#[derive(Clone)]
pub struct Pc {
    pub dom: Vec<Bits>,
    pub mv: Vec<E>,
    pub inmv: Vec<bool>,
    pub model: Vec<u8>,
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub sp: u64,
    pub pc: Pc,
    pub trace: Vec<D>,
    pub prefix: Rc<Vec<D>>,
    pub steps: u64,
    pub obs: Rc<Vec<(u8, E)>>,
    pub names: Rc<Vec<String>>,
    pub covers: Rc<Vec<u32>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum X {
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    HashWrite,
    HashFinish,
    Panic,
    Byte,
    Choice,
    ByteIn,
    Assume,
    Check,
    FailX,
    Cover,
    Observe,
    Trace,
    Conc,
    Zero,
    Write,
    Errno,
    GetRandom,
    Syscall,
    WithOvf(B, bool),
    Carry(bool, u32),
    MinMax(bool, bool),
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fsh(bool),
    Sat(B, bool),
    Cmp3(bool),
    Reduce(u8),
    FUn(u8),
    FBin(u8),
    Fma,
    FtoISat(bool),
    Expect,
    IsConst,
    Trap,
    TlsAddr,
    ObjSize,
    Nop,
    Unknown,
}

fn classify(n: &str) -> X {
    let has = |s: &str| n.contains(s);
    match n {
        "malloc" => return X::Malloc,
        "calloc" => return X::Calloc,
        "realloc" => return X::Realloc,
        "free" => return X::Free,
        "posix_memalign" => return X::Memalign,
        "memcpy" | "memmove" => return X::Memcpy,
        "memset" => return X::Memset,
        "memcmp" => return X::Memcmp,
        "bcmp" => return X::Bcmp,
        "strlen" => return X::Strlen,
        "symex_byte" => return X::Byte,
        "symex_choice" => return X::Choice,
        "symex_byte_in" => return X::ByteIn,
        "symex_assume" => return X::Assume,
        "symex_check" => return X::Check,
        "symex_fail" => return X::FailX,
        "symex_cover" => return X::Cover,
        "symex_observe" => return X::Observe,
        "symex_trace" => return X::Trace,
        "symex_conc" => return X::Conc,
        "write" | "writev" => return X::Write,
        "__errno_location" => return X::Errno,
        "getrandom" => return X::GetRandom,
        "syscall" => return X::Syscall,
        "getenv" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_self" | "sched_yield" | "getpid" | "pthread_key_create"
        | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "clock_gettime" | "_ZN11__sanitizer" => return X::Zero,
        "abort" | "llvm.trap" | "exit" | "_exit" => return X::Trap,
        "fmod" => return X::FBin(3),
        "pow" => return X::FBin(4),
        _ => {}
    }
    if n.starts_with("__symex_hash_write") {
        return X::HashWrite;
    }
    if n.starts_with("__symex_hash_finish") {
        return X::HashFinish;
    }
    if has("rust_begin_unwind") || has("9panic_fmt") || has("panic_nounwind_fmt") || has("panic_cannot_unwind") || has("handle_alloc_error") {
        return X::Panic;
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        if p("memcpy") || p("memmove") {
            return X::Memcpy;
        }
        if p("memset") {
            return X::Memset;
        }
        if p("x86.addcarry") {
            return X::Carry(true, if p("x86.addcarry.32") { 32 } else { 64 });
        }
        if p("x86.subborrow") {
            return X::Carry(false, if p("x86.subborrow.32") { 32 } else { 64 });
        }
        if p("uadd.with") {
            return X::WithOvf(B::Add, false);
        }
        if p("sadd.with") {
            return X::WithOvf(B::Add, true);
        }
        if p("usub.with") {
            return X::WithOvf(B::Sub, false);
        }
        if p("ssub.with") {
            return X::WithOvf(B::Sub, true);
        }
        if p("umul.with") {
            return X::WithOvf(B::Mul, false);
        }
        if p("smul.with") {
            return X::WithOvf(B::Mul, true);
        }
        if p("umin.") {
            return X::MinMax(false, false);
        }
        if p("umax.") {
            return X::MinMax(false, true);
        }
        if p("smin.") {
            return X::MinMax(true, false);
        }
        if p("smax.") {
            return X::MinMax(true, true);
        }
        if p("abs.") {
            return X::Abs;
        }
        if p("ctlz") {
            return X::Ctlz;
        }
        if p("cttz") {
            return X::Cttz;
        }
        if p("ctpop") {
            return X::Ctpop;
        }
        if p("bswap") {
            return X::Bswap;
        }
        if p("bitreverse") {
            return X::Bitreverse;
        }
        if p("fshl") {
            return X::Fsh(true);
        }
        if p("fshr") {
            return X::Fsh(false);
        }
        if p("uadd.sat") {
            return X::Sat(B::Add, false);
        }
        if p("usub.sat") {
            return X::Sat(B::Sub, false);
        }
        if p("sadd.sat") {
            return X::Sat(B::Add, true);
        }
        if p("ssub.sat") {
            return X::Sat(B::Sub, true);
        }
        if p("ucmp") {
            return X::Cmp3(false);
        }
        if p("scmp") {
            return X::Cmp3(true);
        }
        if p("vector.reduce.") {
            let q = &r["vector.reduce.".len()..];
            for (k, s) in ["or.", "and.", "add.", "xor.", "umax.", "umin.", "smax.", "smin.", "mul."].iter().enumerate() {
                if q.starts_with(s) {
                    return X::Reduce(k as u8);
                }
            }
        }
        for (k, s) in ["fabs.", "floor.", "ceil.", "trunc.", "rint.", "nearbyint.", "round.", "sqrt.", "roundeven."].iter().enumerate() {
            if p(s) {
                return X::FUn(k as u8);
            }
        }
        for (k, s) in ["minnum.", "maxnum.", "copysign.", "frem", "pow."].iter().enumerate() {
            if p(s) {
                return X::FBin(k as u8);
            }
        }
        if p("minimumnum") {
            return X::FBin(0);
        }
        if p("maximumnum") {
            return X::FBin(1);
        }
        if p("fma.") || p("fmuladd.") {
            return X::Fma;
        }
        if p("fptoui.sat") {
            return X::FtoISat(false);
        }
        if p("fptosi.sat") {
            return X::FtoISat(true);
        }
        if p("expect") || p("launder") || p("strip.inv") || p("ssa.copy") {
            return X::Expect;
        }
        if p("is.constant") {
            return X::IsConst;
        }
        if p("threadlocal.address") {
            return X::TlsAddr;
        }
        if p("objectsize") {
            return X::ObjSize;
        }
    }
    X::Unknown
}

#[derive(Clone)]
pub struct Cfg {
    pub max_steps: u64,
    pub max_depth: usize,
    pub hash_mode: u64,
    pub verbose: bool,
    pub deadline: std::time::Instant,
    pub sample: u64,
    pub z3_all: bool,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub limit: u64,
    pub forks: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub n_table: u64,
    pub asserts_conc: u64,
    pub asserts_sym: u64,
    pub asserts: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub maxvars: usize,
    pub errors: Vec<String>,
    pub timeouts: u64,
    pub stolen: u64,
}

#[derive(Clone)]
pub struct Violation {
    pub label: String,
    pub kind: &'static str,
    pub bytes: Vec<u8>,
    pub stack: Vec<String>,
}

pub struct Engine<'p> {
    pub p: &'p Program,
    pub ar: Arena,
    pub z: Solver,
    pub work: Vec<State>,
    pub st: Stats,
    pub cfg: Cfg,
    pub viol: Vec<Violation>,
    pub vcount: HashMap<String, u32>,
    pub samples: Vec<(Vec<u8>, Vec<u8>)>,
    pub seen_fn: Vec<bool>,
    verified: HashSet<(Bits, E), Fx>,
    kinds: Vec<X>,
    extfn: Vec<Option<u32>>,
    init: Mem,
    cover_names: Vec<String>,
    cover_map: HashMap<String, u32>,
    pub trace_log: Vec<String>,
}

fn cfold(op: B, w: u32, a: u64, b: u64) -> u64 {
    match op {
        B::FAdd | B::FSub | B::FMul | B::FDiv | B::FRem => {
            if w == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                (match op {
                    B::FAdd => x + y,
                    B::FSub => x - y,
                    B::FMul => x * y,
                    B::FDiv => x / y,
                    _ => x % y,
                })
                .to_bits() as u64
            } else {
                let (x, y) = (f64::from_bits(a), f64::from_bits(b));
                (match op {
                    B::FAdd => x + y,
                    B::FSub => x - y,
                    B::FMul => x * y,
                    B::FDiv => x / y,
                    _ => x % y,
                })
                .to_bits()
            }
        }
        B::Add => a.wrapping_add(b) & mask(w),
        B::Sub => a.wrapping_sub(b) & mask(w),
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Mul => a.wrapping_mul(b) & mask(w),
        _ => binop(eop(op), w, a, b),
    }
}
fn eop(b: B) -> Op {
    match b {
        B::Add => Op::Add,
        B::Sub => Op::Sub,
        B::Mul => Op::Mul,
        B::UDiv => Op::UDiv,
        B::SDiv => Op::SDiv,
        B::URem => Op::URem,
        B::SRem => Op::SRem,
        B::Shl => Op::Shl,
        B::LShr => Op::LShr,
        B::AShr => Op::AShr,
        B::And => Op::And,
        B::Or => Op::Or,
        B::Xor => Op::Xor,
        _ => unreachable!(),
    }
}
fn wide(op: B, w: u32, a: u128, b: u128) -> u128 {
    let m = if w >= 128 { !0 } else { (1u128 << w) - 1 };
    let sx = |x: u128| {
        if w >= 128 {
            x as i128
        } else {
            ((x << (128 - w)) as i128) >> (128 - w)
        }
    };
    let r = match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => a.checked_div(b).unwrap_or(0),
        B::URem => a.checked_rem(b).unwrap_or(0),
        B::SDiv => sx(a).checked_div(sx(b)).unwrap_or(0) as u128,
        B::SRem => sx(a).checked_rem(sx(b)).unwrap_or(0) as u128,
        B::Shl => {
            if b >= 128 {
                0
            } else {
                a << b
            }
        }
        B::LShr => {
            if b >= 128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => (sx(a) >> b.min(127)) as u128,
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        _ => 0,
    };
    r & m
}
fn icmp_c(p: i32, w: u32, a: u64, b: u64) -> bool {
    match p {
        32 => a == b,
        33 => a != b,
        34 => a > b,
        35 => a >= b,
        36 => a < b,
        37 => a <= b,
        38 => sext(a, w) > sext(b, w),
        39 => sext(a, w) >= sext(b, w),
        40 => sext(a, w) < sext(b, w),
        _ => sext(a, w) <= sext(b, w),
    }
}
fn fcmp_c(p: i32, x: f64, y: f64) -> bool {
    let u = x.is_nan() || y.is_nan();
    match p {
        0 => false,
        1 => x == y,
        2 => x > y,
        3 => x >= y,
        4 => x < y,
        5 => x <= y,
        6 => !u && x != y,
        7 => !u,
        8 => u,
        9 => u || x == y,
        10 => u || x > y,
        11 => u || x >= y,
        12 => u || x < y,
        13 => u || x <= y,
        14 => u || x != y,
        _ => true,
    }
}

impl<'p> Engine<'p> {
    pub fn new(p: &'p Program, cfg: Cfg) -> Self {
        let kinds: Vec<X> = p.exts.iter().map(|n| classify(n)).collect();
        let em: HashMap<&str, u32> = p.exts.iter().enumerate().map(|(i, n)| (n.as_str(), i as u32)).collect();
        let extfn = p.funcs.iter().map(|f| if f.has_body { None } else { em.get(f.name.as_str()).copied() }).collect();
        Engine {
            p,
            ar: Arena::new(),
            z: Solver::new(10_000),
            work: vec![],
            st: Stats::default(),
            cfg,
            viol: vec![],
            vcount: HashMap::new(),
            samples: vec![],
            seen_fn: vec![false; p.funcs.len()],
            verified: Default::default(),
            kinds,
            extfn,
            init: Mem::new(&p.image),
            cover_names: vec![],
            cover_map: HashMap::new(),
            trace_log: vec![],
        }
    }
    pub fn initial(&mut self, root: u32, prefix: Vec<D>) -> State {
        let f = &self.p.funcs[root as usize];
        let mut mem = self.init.clone();
        mem.top[1] = 16 << 20;
        mem.top[2] = 64;
        self.seen_fn[root as usize] = true;
        State {
            cur: Frame { f: root, pc: 0, regs: vec![Val::C(0); f.nregs as usize], sp: 64, ret: 0 },
            stack: vec![],
            mem,
            sp: 64,
            pc: Pc { dom: vec![], mv: vec![], inmv: vec![], model: vec![] },
            trace: vec![],
            prefix: Rc::new(prefix),
            steps: 0,
            obs: Rc::new(vec![]),
            names: Rc::new(vec![]),
            covers: Rc::new(vec![]),
        }
    }

    // ---- path condition -------------------------------------------------------------------

    fn add(&mut self, pc: &mut Pc, c: E) {
        let n = self.ar.n(c);
        match n.op {
            Op::Const => return,
            Op::And if n.w == 1 => {
                self.add(pc, n.a);
                self.add(pc, n.b);
                return;
            }
            Op::Not => {
                let m = self.ar.n(n.a);
                if m.op == Op::Or {
                    let x = self.ar.not(m.a);
                    let y = self.ar.not(m.b);
                    self.add(pc, x);
                    self.add(pc, y);
                    return;
                }
            }
            _ => {}
        }
        let vs = self.ar.vars(c);
        if vs.len() == 1 {
            let v = vs[0] as usize;
            let t = self.ar.truth(c);
            for i in 0..4 {
                pc.dom[v][i] &= t[i];
            }
        } else {
            if pc.mv.contains(&c) {
                return;
            }
            for v in vs {
                pc.inmv[*v as usize] = true;
            }
            pc.mv.push(c);
        }
    }
    /// A value of `v` in its domain satisfying the single-variable condition `c`.
    fn table(&mut self, pc: &Pc, v: u16, c: E) -> Option<u8> {
        let mut d = pc.dom[v as usize];
        let key = (d, c);
        let t = self.ar.truth(c);
        for i in 0..4 {
            d[i] &= t[i];
        }
        let r = first_bit(&d);
        self.st.n_table += 1;
        if self.verified.insert(key) {
            // the first time a (domain, condition) pair is met, Z3 decides it and the table must agree
            let (ver, _) = self.z.check(&self.ar, &[(v, key.0)], &[c], false);
            let ok = match ver {
                Verdict::Sat => r.is_some(),
                Verdict::Unsat => r.is_none(),
                Verdict::Unknown => true,
            };
            if !ok {
                self.st.errors.push(format!("table/solver disagreement on {}", self.ar.show(c)));
            }
        }
        r
    }
    /// Is `pc /\ c` satisfiable?  Returns the changes to make to the model.
    fn feasible(&mut self, pc: &Pc, c: E) -> Option<Vec<(u16, u8)>> {
        if let Some(k) = self.ar.konst(c) {
            return if k == 1 { Some(vec![]) } else { None };
        }
        let vs: Vec<u16> = self.ar.vars(c).to_vec();
        if vs.len() == 1 {
            let v = vs[0];
            let r = self.table(pc, v, c);
            if r.is_none() {
                return None; // infeasible by the domain alone
            }
            if !pc.inmv[v as usize] {
                return r.map(|k| vec![(v, k)]);
            }
        } else {
            let nc = self.ar.not(c);
            if pc.mv.contains(&nc) {
                return None;
            }
            // a conjunct over one variable that its domain excludes
            let mut todo = vec![c];
            while let Some(x) = todo.pop() {
                let n = self.ar.n(x);
                match n.op {
                    Op::And => {
                        todo.push(n.a);
                        todo.push(n.b);
                    }
                    Op::Const => {}
                    _ => {
                        let xs = self.ar.vars(x);
                        if xs.len() == 1 {
                            let v = xs[0];
                            if self.table(pc, v, x).is_none() {
                                return None;
                            }
                        }
                    }
                }
            }
        }
        let mut set = vs;
        let mut cs = vec![c];
        let mut used = vec![false; pc.mv.len()];
        loop {
            let mut ch = false;
            for (i, m) in pc.mv.iter().enumerate() {
                if !used[i] && self.ar.vars(*m).iter().any(|v| set.contains(v)) {
                    used[i] = true;
                    ch = true;
                    cs.push(*m);
                    for v in self.ar.vars(*m) {
                        if !set.contains(v) {
                            set.push(*v);
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        set.sort_unstable();
        let doms: Vec<(u16, Bits)> = set.iter().map(|v| (*v, pc.dom[*v as usize])).collect();
        match self.z.check(&self.ar, &doms, &cs, true) {
            (Verdict::Sat, m) => Some(m),
            _ => None,
        }
    }
    fn upd(pc: &mut Pc, m: &[(u16, u8)]) {
        for (v, k) in m {
            pc.model[*v as usize] = *k;
        }
    }
    fn ev(&mut self, st: &State, e: E) -> u64 {
        self.ar.eval(e, &st.pc.model)
    }
    fn replaying(st: &State) -> Option<D> {
        st.prefix.get(st.trace.len()).copied()
    }
    /// Decides a boolean term on this path, forking when both sides are possible.
    fn decide(&mut self, st: &mut State, e: E) -> R<bool> {
        let cur = self.ev(st, e) == 1;
        let pos = e;
        let neg = self.ar.not(e);
        let (mine, other) = if cur { (pos, neg) } else { (neg, pos) };
        match self.feasible(&st.pc, other) {
            None => Ok(cur),
            Some(m2) => {
                if let Some(d) = Self::replaying(st) {
                    let side = match d {
                        D::Br(b) => b,
                        _ => return end(End::Error(format!("replay mismatch {d:?}"))),
                    };
                    if side == cur {
                        self.add(&mut st.pc, mine);
                    } else {
                        Self::upd(&mut st.pc, &m2);
                        self.add(&mut st.pc, other);
                    }
                    st.trace.push(d);
                    return Ok(side);
                }
                let mut o = st.clone();
                Self::upd(&mut o.pc, &m2);
                self.add(&mut o.pc, other);
                o.trace.push(D::Br(!cur));
                self.work.push(o);
                self.st.forks += 1;
                self.add(&mut st.pc, mine);
                st.trace.push(D::Br(cur));
                Ok(cur)
            }
        }
    }
    /// Fixes the value of a term on this path, forking over the other values.
    fn conc(&mut self, st: &mut State, e: E) -> R<u64> {
        loop {
            let w = self.ar.w(e);
            let k = self.ev(st, e);
            let kc = self.ar.c(k, w);
            let eq = self.ar.bin(Op::Eq, e, kc);
            let ne = self.ar.not(eq);
            match self.feasible(&st.pc, ne) {
                None => return Ok(k),
                Some(m2) => {
                    if let Some(d) = Self::replaying(st) {
                        let (kk, want) = match d {
                            D::Eq(x) => (x, true),
                            D::Ne(x) => (x, false),
                            _ => return end(End::Error(format!("replay mismatch {d:?}"))),
                        };
                        let kc = self.ar.c(kk, w);
                        let mut c = self.ar.bin(Op::Eq, e, kc);
                        if !want {
                            c = self.ar.not(c);
                        }
                        if self.ev(st, c) != 1 {
                            match self.feasible(&st.pc, c) {
                                Some(m) => Self::upd(&mut st.pc, &m),
                                None => return end(End::Error("replay infeasible".into())),
                            }
                        }
                        self.add(&mut st.pc, c);
                        st.trace.push(d);
                        if want {
                            return Ok(kk);
                        }
                        continue;
                    }
                    let mut o = st.clone();
                    Self::upd(&mut o.pc, &m2);
                    self.add(&mut o.pc, ne);
                    o.trace.push(D::Ne(k));
                    self.work.push(o);
                    self.st.forks += 1;
                    self.add(&mut st.pc, eq);
                    st.trace.push(D::Eq(k));
                    return Ok(k);
                }
            }
        }
    }
    fn c64(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(k) => Ok(*k),
            Val::S(e) => self.conc(st, *e),
            Val::W(k) => Ok(**k as u64),
            Val::A(_) => end(End::Error("aggregate as scalar".into())),
        }
    }
    fn c128(&mut self, st: &mut State, v: &Val) -> R<u128> {
        match v {
            Val::W(k) => Ok(**k),
            v => Ok(self.c64(st, v)? as u128),
        }
    }
    #[inline]
    fn sv(&self, e: E) -> Val {
        match self.ar.konst(e) {
            Some(k) => Val::C(k),
            None => Val::S(e),
        }
    }
    #[inline]
    fn ee(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(k) => self.ar.c(*k, w),
            Val::S(e) => *e,
            _ => panic!("ee"),
        }
    }
    #[inline]
    fn get(st: &State, o: &O) -> Val {
        match o {
            O::R(r) => st.cur.regs[*r as usize].clone(),
            O::C(k) => Val::C(*k),
            O::K(v) => v.clone(),
        }
    }
    fn stack_names(&self, st: &State) -> Vec<String> {
        let mut v = vec![self.p.funcs[st.cur.f as usize].name.clone()];
        for f in st.stack.iter().rev() {
            v.push(self.p.funcs[f.f as usize].name.clone());
        }
        v
    }
    fn fault<T>(&self, b: BadAddr) -> R<T> {
        end(End::Fault(format!("bad address {:#x}", b.0)))
    }

    // ---- memory ---------------------------------------------------------------------------

    fn byte_e(&mut self, st: &State, a: u64) -> R<E> {
        match st.mem.byte(a) {
            Err(b) => self.fault(b),
            Ok((v, 0)) => Ok(self.ar.c(v as u64, 8)),
            Ok((_, e)) => {
                let n = self.ar.n(e);
                if n.op == Op::Var {
                    let d = &st.pc.dom[n.k as usize];
                    if count(d) == 1 {
                        let k = first_bit(d).unwrap();
                        return Ok(self.ar.c(k as u64, 8));
                    }
                }
                Ok(e)
            }
        }
    }
    fn load_n(&mut self, st: &State, a: u64, n: usize) -> R<Val> {
        match st.mem.read_c(a, n) {
            Err(b) => self.fault(b),
            Ok(Some(k)) => Ok(Val::C(k)),
            Ok(None) => {
                let mut e = self.byte_e(st, a + n as u64 - 1)?;
                for k in (0..n - 1).rev() {
                    let x = self.byte_e(st, a + k as u64)?;
                    e = self.ar.concat(e, x);
                }
                Ok(self.sv(e))
            }
        }
    }
    fn load_ty(&mut self, st: &mut State, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Void => Ok(Val::C(0)),
            Ty::F32 => self.load_n(st, a, 4),
            Ty::F64 => self.load_n(st, a, 8),
            Ty::I(w) if *w <= 64 => {
                let n = ((*w + 7) / 8) as usize;
                let v = self.load_n(st, a, n)?;
                Ok(match v {
                    Val::C(k) => Val::C(k & mask(*w)),
                    Val::S(e) => {
                        let x = self.ar.extract(e, *w - 1, 0);
                        self.sv(x)
                    }
                    v => v,
                })
            }
            Ty::I(w) => {
                let n = ((*w + 7) / 8) as usize;
                let lo = self.load_n(st, a, 8)?;
                let hi = self.load_n(st, a + 8, n - 8)?;
                let lo = self.c64(st, &lo)? as u128;
                let hi = self.c64(st, &hi)? as u128;
                Ok(Val::W(Box::new(hi << 64 | lo)))
            }
            Ty::Vec(n, t) => {
                let mut r = vec![];
                if let Ty::I(w) = **t {
                    if w % 8 != 0 {
                        let nb = ty.size() as usize;
                        let mut bits: u128 = 0;
                        for k in 0..nb {
                            let v = self.load_n(st, a + k as u64, 1)?;
                            bits |= (self.c64(st, &v)? as u128) << (8 * k);
                        }
                        for i in 0..*n {
                            r.push(Val::C((bits >> (i * w)) as u64 & mask(w)));
                        }
                        return Ok(Val::A(Arc::new(r)));
                    }
                }
                let s = t.size();
                for i in 0..*n as u64 {
                    r.push(self.load_ty(st, a + i * s, t)?);
                }
                Ok(Val::A(Arc::new(r)))
            }
            Ty::Agg(f, _) => {
                let mut r = vec![];
                for (o, t) in f {
                    r.push(self.load_ty(st, a + o, t)?);
                }
                Ok(Val::A(Arc::new(r)))
            }
        }
    }
    fn store_n(&mut self, st: &mut State, a: u64, n: usize, v: &Val) -> R<()> {
        match v {
            Val::C(k) => st.mem.write_c(a, *k, n).or_else(|b| self.fault(b)),
            Val::S(e) => {
                let w = self.ar.w(*e);
                for k in 0..n as u32 {
                    let hi = (8 * k + 7).min(w - 1);
                    let mut x = self.ar.extract(*e, hi, 8 * k);
                    x = self.ar.zext(x, 8);
                    let (c, s) = match self.ar.konst(x) {
                        Some(c) => (c as u8, 0),
                        None => (0, x),
                    };
                    if let Err(b) = st.mem.set_byte(a + k as u64, c, s) {
                        return self.fault(b);
                    }
                }
                Ok(())
            }
            _ => end(End::Error("store_n".into())),
        }
    }
    fn store_ty(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::Void, _) => Ok(()),
            (Ty::I(w), Val::W(k)) => {
                let n = ((*w + 7) / 8) as usize;
                let r = st.mem.write_c(a, **k as u64, 8.min(n));
                r.or_else(|b| self.fault(b))?;
                if n > 8 {
                    let r = st.mem.write_c(a + 8, (**k >> 64) as u64, n - 8);
                    r.or_else(|b| self.fault(b))?;
                }
                Ok(())
            }
            (Ty::I(w), v) if *w <= 64 => self.store_n(st, a, ((*w + 7) / 8) as usize, v),
            (Ty::I(_), Val::C(k)) => {
                let w = Val::W(Box::new(*k as u128));
                self.store_ty(st, a, ty, &w)
            }
            (Ty::F32, v) => self.store_n(st, a, 4, v),
            (Ty::F64, v) => self.store_n(st, a, 8, v),
            (Ty::Vec(_, t), Val::A(xs)) => {
                if let Ty::I(w) = **t {
                    if w % 8 != 0 {
                        let mut bits = 0u128;
                        for (i, x) in xs.iter().enumerate() {
                            bits |= (self.c64(st, x)? as u128) << (i as u32 * w);
                        }
                        let n = ty.size() as usize;
                        for k in 0..n {
                            if let Err(b) = st.mem.set_byte(a + k as u64, (bits >> (8 * k)) as u8, 0) {
                                return self.fault(b);
                            }
                        }
                        return Ok(());
                    }
                }
                let s = t.size();
                for (i, x) in xs.iter().enumerate() {
                    self.store_ty(st, a + i as u64 * s, t, x)?;
                }
                Ok(())
            }
            (Ty::Agg(f, _), Val::A(xs)) => {
                for ((o, t), x) in f.iter().zip(xs.iter()) {
                    self.store_ty(st, a + o, t, x)?;
                }
                Ok(())
            }
            _ => end(End::Error(format!("store {ty:?}"))),
        }
    }
    /// Load through a symbolic address.
    fn load_sym(&mut self, st: &mut State, a: E, n: usize) -> R<Val> {
        // enumerate the feasible addresses (single free variable only), otherwise fork over them
        let vs = self.ar.vars(a);
        if vs.len() == 1 && !st.pc.inmv[vs[0] as usize] && n <= 8 {
            let v = vs[0];
            let d = st.pc.dom[v as usize];
            let mut env = vec![0u8; v as usize + 1];
            let mut groups: Vec<(u64, Bits)> = vec![];
            for k in 0..=255u8 {
                if bit(&d, k) {
                    env[v as usize] = k;
                    let x = self.ar.eval(a, &env);
                    match groups.iter_mut().find(|g| g.0 == x) {
                        Some(g) => g.1[k as usize / 64] |= 1 << (k % 64),
                        None => {
                            let mut b = [0u64; 4];
                            b[k as usize / 64] |= 1 << (k % 64);
                            groups.push((x, b));
                        }
                    }
                }
            }
            let mut ok = true;
            let mut vals: Vec<(u64, E)> = vec![];
            for (x, _) in &groups {
                match st.mem.read_c(*x, n) {
                    Ok(Some(k)) => {
                        if n == 8 && k >= G {
                            ok = false;
                            break;
                        }
                        let e = self.ar.c(k, 8 * n as u32);
                        vals.push((*x, e));
                    }
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                // merge equal values: ite over the address
                let mut r = vals[vals.len() - 1].1;
                for (x, e) in vals.iter().rev().skip(1) {
                    let w = self.ar.w(a);
                    let kx = self.ar.c(*x, w);
                    let c = self.ar.bin(Op::Eq, a, kx);
                    r = self.ar.ite(c, *e, r);
                }
                return Ok(self.sv(r));
            }
        }
        let k = self.conc(st, a)?;
        self.load_n(st, k, n)
    }

    // ---- scalar operations ----------------------------------------------------------------

    fn bin(&mut self, st: &mut State, op: B, w: u32, x: &Val, y: &Val) -> R<Val> {
        if w > 64 {
            let a = self.c128(st, x)?;
            let b = self.c128(st, y)?;
            return Ok(Val::W(Box::new(wide(op, w, a, b))));
        }
        if let (Val::C(a), Val::C(b)) = (x, y) {
            return Ok(Val::C(cfold(op, w, *a, *b)));
        }
        if matches!(op, B::FAdd | B::FSub | B::FMul | B::FDiv | B::FRem) {
            let a = self.c64(st, x)?;
            let b = self.c64(st, y)?;
            return Ok(Val::C(cfold(op, w, a, b)));
        }
        let a = self.ee(x, w);
        let b = self.ee(y, w);
        let r = self.ar.bin(eop(op), a, b);
        Ok(self.sv(r))
    }
    fn cmp_e(&mut self, p: i32, a: E, b: E) -> E {
        match p {
            32 => self.ar.bin(Op::Eq, a, b),
            33 => {
                let x = self.ar.bin(Op::Eq, a, b);
                self.ar.not(x)
            }
            34 => self.ar.bin(Op::Ult, b, a),
            35 => self.ar.bin(Op::Ule, b, a),
            36 => self.ar.bin(Op::Ult, a, b),
            37 => self.ar.bin(Op::Ule, a, b),
            38 => self.ar.bin(Op::Slt, b, a),
            39 => self.ar.bin(Op::Sle, b, a),
            40 => self.ar.bin(Op::Slt, a, b),
            _ => self.ar.bin(Op::Sle, a, b),
        }
    }
    fn icmp(&mut self, st: &mut State, p: i32, w: u32, x: &Val, y: &Val) -> R<Val> {
        if w > 64 {
            let a = self.c128(st, x)?;
            let b = self.c128(st, y)?;
            let s = |x: u128| {
                if w >= 128 {
                    x as i128
                } else {
                    ((x << (128 - w)) as i128) >> (128 - w)
                }
            };
            let r = match p {
                32 => a == b,
                33 => a != b,
                34 => a > b,
                35 => a >= b,
                36 => a < b,
                37 => a <= b,
                38 => s(a) > s(b),
                39 => s(a) >= s(b),
                40 => s(a) < s(b),
                _ => s(a) <= s(b),
            };
            return Ok(Val::C(r as u64));
        }
        if let (Val::C(a), Val::C(b)) = (x, y) {
            return Ok(Val::C(icmp_c(p, w, *a, *b) as u64));
        }
        let a = self.ee(x, w);
        let b = self.ee(y, w);
        let r = self.cmp_e(p, a, b);
        Ok(self.sv(r))
    }
    fn cast(&mut self, st: &mut State, c: Cast, f: &Ty, t: &Ty, v: &Val) -> R<Val> {
        if let (Ty::Vec(_, ft), Ty::Vec(_, tt), Val::A(xs)) = (f, t, v) {
            let mut r = vec![];
            for x in xs.iter() {
                r.push(self.cast(st, c, ft, tt, x)?);
            }
            return Ok(Val::A(Arc::new(r)));
        }
        let (fw, tw) = (f.scalar_w().unwrap_or(64), t.scalar_w().unwrap_or(64));
        match c {
            Cast::Trunc | Cast::ZExt | Cast::SExt => {
                if fw <= 64 && tw <= 64 {
                    return Ok(match v {
                        Val::C(k) => Val::C(match c {
                            Cast::Trunc => k & mask(tw),
                            Cast::ZExt => *k,
                            _ => sext(*k, fw) as u64 & mask(tw),
                        }),
                        Val::S(e) => {
                            let r = match c {
                                Cast::Trunc => self.ar.extract(*e, tw - 1, 0),
                                Cast::ZExt => self.ar.zext(*e, tw),
                                _ => self.ar.sext(*e, tw),
                            };
                            self.sv(r)
                        }
                        _ => return end(End::Error("cast".into())),
                    });
                }
                let k = self.c128(st, v)?;
                let r = match c {
                    Cast::SExt => {
                        let s = 128 - fw;
                        (((k << s) as i128) >> s) as u128
                    }
                    _ => k,
                };
                if tw <= 64 {
                    Ok(Val::C(r as u64 & mask(tw)))
                } else {
                    let m = if tw >= 128 { !0 } else { (1u128 << tw) - 1 };
                    Ok(Val::W(Box::new(r & m)))
                }
            }
            Cast::Mov => Ok(v.clone()),
            _ => {
                let k = self.c128(st, v)?;
                let fl = |k: u128, w: u32| if w == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k as u64) };
                let out = |d: f64, w: u32| if w == 32 { (d as f32).to_bits() as u64 } else { d.to_bits() };
                let r = match c {
                    Cast::FPToUI => {
                        let d = fl(k, fw);
                        if tw > 64 {
                            return Ok(Val::W(Box::new(d as u128)));
                        }
                        d as u64 & mask(tw)
                    }
                    Cast::FPToSI => {
                        let d = fl(k, fw);
                        d as i64 as u64 & mask(tw)
                    }
                    Cast::UIToFP => {
                        if tw == 32 {
                            (k as f32).to_bits() as u64
                        } else {
                            (k as f64).to_bits()
                        }
                    }
                    Cast::SIToFP => {
                        let s = 128 - fw;
                        let i = ((k << s) as i128) >> s;
                        if tw == 32 {
                            (i as f32).to_bits() as u64
                        } else {
                            (i as f64).to_bits()
                        }
                    }
                    Cast::FPTrunc => out(fl(k, fw), 32),
                    _ => out(fl(k, fw), 64),
                };
                Ok(Val::C(r))
            }
        }
    }
    fn to_bits(&mut self, st: &mut State, t: &Ty, v: &Val) -> R<u128> {
        match (t, v) {
            (Ty::Vec(_, e), Val::A(xs)) => {
                let w = e.scalar_w().unwrap();
                let mut r = 0u128;
                for (i, x) in xs.iter().enumerate() {
                    r |= (self.c64(st, x)? as u128) << (i as u32 * w);
                }
                Ok(r)
            }
            (_, v) => self.c128(st, v),
        }
    }
    fn bitcast(&mut self, st: &mut State, f: &Ty, t: &Ty, v: &Val) -> R<Val> {
        // symbolic vector -> scalar of at most 64 bits
        if let (Ty::Vec(_, e), Ty::I(w), Val::A(xs)) = (f, t, v) {
            if *w <= 64 && xs.iter().any(|x| matches!(x, Val::S(_))) {
                let ew = e.scalar_w().unwrap();
                let mut r = self.ee(&xs[xs.len() - 1], ew);
                for x in xs.iter().rev().skip(1) {
                    let y = self.ee(x, ew);
                    r = self.ar.concat(r, y);
                }
                return Ok(self.sv(r));
            }
        }
        let b = self.to_bits(st, f, v)?;
        Ok(match t {
            Ty::Vec(n, e) => {
                let w = e.scalar_w().unwrap();
                Val::A(Arc::new((0..*n).map(|i| Val::C((b >> (i * w)) as u64 & mask(w))).collect()))
            }
            _ => {
                let w = t.scalar_w().unwrap();
                if w > 64 {
                    Val::W(Box::new(b))
                } else {
                    Val::C(b as u64)
                }
            }
        })
    }
    fn ite_val(&mut self, c: E, w: u32, a: &Val, b: &Val) -> Val {
        let x = self.ee(a, w);
        let y = self.ee(b, w);
        let r = self.ar.ite(c, x, y);
        self.sv(r)
    }

    // ---- control --------------------------------------------------------------------------

    fn jump(&mut self, st: &mut State, f: &'p Func, e: u32) {
        let e = &f.edges[e as usize];
        match e.mv.len() {
            0 => {}
            1 => {
                let v = Self::get(st, &e.mv[0].1);
                st.cur.regs[e.mv[0].0 as usize] = v;
            }
            _ => {
                let vs: Vec<Val> = e.mv.iter().map(|m| Self::get(st, &m.1)).collect();
                for (m, v) in e.mv.iter().zip(vs) {
                    st.cur.regs[m.0 as usize] = v;
                }
            }
        }
        st.cur.pc = e.pc;
    }

    pub fn run(&mut self, st: &mut State) -> End {
        let s0 = st.steps;
        let r = loop {
            st.steps += 1;
            if st.steps & 0xffff == 0 {
                if st.steps > self.cfg.max_steps {
                    break End::Limit("instruction limit".into());
                }
                if std::time::Instant::now() > self.cfg.deadline {
                    break End::Timeout;
                }
            }
            let f: &'p Func = &self.p.funcs[st.cur.f as usize];
            let i: &'p I = &f.code[st.cur.pc as usize];
            if let Err(e) = self.step(st, f, i) {
                break *e;
            }
        };
        self.st.steps += st.steps - s0;
        r
    }

    #[inline]
    fn step(&mut self, st: &mut State, f: &'p Func, i: &'p I) -> R<()> {
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.cur.regs[*$d as usize] = v;
                st.cur.pc += 1;
            }};
        }
        match i {
            I::Bin(op, w, d, a, b) => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                if let (Val::C(p), Val::C(q)) = (&x, &y) {
                    set!(d, Val::C(cfold(*op, *w, *p, *q)));
                } else {
                    let r = self.bin(st, *op, *w, &x, &y)?;
                    set!(d, r);
                }
            }
            I::Cmp(p, w, d, a, b) => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                if let (Val::C(k), Val::C(q)) = (&x, &y) {
                    set!(d, Val::C(icmp_c(*p, *w, *k, *q) as u64));
                } else {
                    let r = self.icmp(st, *p, *w, &x, &y)?;
                    set!(d, r);
                }
            }
            I::Cast(c, fw, tw, d, a) => {
                let v = Self::get(st, a);
                if let Val::C(k) = v {
                    let r = match c {
                        Cast::Trunc => k & mask(*tw),
                        Cast::ZExt => k,
                        Cast::SExt => sext(k, *fw) as u64 & mask(*tw),
                        _ => k,
                    };
                    set!(d, Val::C(r));
                } else {
                    let r = self.cast(st, *c, &Ty::I(*fw), &Ty::I(*tw), &v)?;
                    set!(d, r);
                }
            }
            I::Load(w, d, p) => {
                let n = (*w / 8) as usize;
                let r = match Self::get(st, p) {
                    Val::C(a) => match st.mem.read_c(a, n) {
                        Ok(Some(k)) => Val::C(k),
                        _ => self.load_n(st, a, n)?,
                    },
                    Val::S(e) => self.load_sym(st, e, n)?,
                    _ => return end(End::Error("load address".into())),
                };
                set!(d, r);
            }
            I::Store(w, v, p) => {
                let v = Self::get(st, v);
                let p = Self::get(st, p);
                let a = self.c64(st, &p)?;
                self.store_n(st, a, (*w / 8) as usize, &v)?;
                st.cur.pc += 1;
            }
            I::Gep(d, b, off, idx) => {
                let b = Self::get(st, b);
                match b {
                    Val::C(mut a) if idx.iter().all(|x| matches!(Self::get(st, &x.o), Val::C(_))) => {
                        a = a.wrapping_add(*off);
                        for x in idx.iter() {
                            if let Val::C(k) = Self::get(st, &x.o) {
                                a = a.wrapping_add((sext(k, x.w) as u64).wrapping_mul(x.scale));
                            }
                        }
                        set!(d, Val::C(a));
                    }
                    b => {
                        let mut e = self.ee(&b, 64);
                        let o = self.ar.c(*off, 64);
                        e = self.ar.bin(Op::Add, e, o);
                        for x in idx.iter() {
                            let v = Self::get(st, &x.o);
                            let mut k = self.ee(&v, x.w);
                            k = self.ar.sext(k, 64);
                            let s = self.ar.c(x.scale, 64);
                            k = self.ar.bin(Op::Mul, k, s);
                            e = self.ar.bin(Op::Add, e, k);
                        }
                        let r = self.sv(e);
                        set!(d, r);
                    }
                }
            }
            I::Br(e) => self.jump(st, f, *e),
            I::CondBr(c, a, b) => {
                let v = match Self::get(st, c) {
                    Val::C(k) => k & 1 == 1,
                    Val::S(e) => self.decide(st, e)?,
                    _ => return end(End::Error("condbr".into())),
                };
                self.jump(st, f, if v { *a } else { *b });
            }
            I::Switch(c, w, dflt, cases) => {
                let v = Self::get(st, c);
                match v {
                    Val::S(e) => {
                        let t = self.switch(st, e, *w, *dflt, cases)?;
                        self.jump(st, f, t);
                    }
                    v => {
                        let k = self.c64(st, &v)?;
                        let t = cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*dflt);
                        self.jump(st, f, t);
                    }
                }
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|v| Self::get(st, v));
                st.sp = st.cur.sp;
                match st.stack.pop() {
                    None => return end(End::Done),
                    Some(fr) => {
                        let ret = st.cur.ret;
                        st.cur = match Rc::try_unwrap(fr) {
                            Ok(f) => f,
                            Err(r) => (*r).clone(),
                        };
                        if let Some(v) = v {
                            st.cur.regs[ret as usize] = v;
                        }
                        st.cur.pc += 1;
                    }
                }
            }
            I::Mov(d, a) => set!(d, Self::get(st, a)),
            I::Nop => st.cur.pc += 1,
            I::Sel(ty, d, c, a, b) => {
                let (c, x, y) = (Self::get(st, c), Self::get(st, a), Self::get(st, b));
                let r = match &**ty {
                    Ty::Vec(..) => {
                        if let (Val::A(cs), Val::A(xs), Val::A(ys)) = (&c, &x, &y) {
                            let mut r = vec![];
                            for k in 0..cs.len() {
                                r.push(match &cs[k] {
                                    Val::C(1) => xs[k].clone(),
                                    Val::C(_) => ys[k].clone(),
                                    Val::S(e) => {
                                        if self.decide(st, *e)? {
                                            xs[k].clone()
                                        } else {
                                            ys[k].clone()
                                        }
                                    }
                                    _ => return end(End::Error("vselect".into())),
                                });
                            }
                            Val::A(Arc::new(r))
                        } else {
                            return end(End::Error("vselect".into()));
                        }
                    }
                    Ty::Agg(fs, _) => match c {
                        Val::C(k) => {
                            if k & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        Val::S(e) => {
                            let t = &fs[0].1;
                            let ptrs = matches!((&x, &y), (Val::C(p), Val::C(q)) if *p >= G || *q >= G);
                            let plain = |v: &Val| matches!(v, Val::C(_) | Val::S(_));
                            match t.scalar_w() {
                                Some(w) if w <= 64 && plain(&x) && plain(&y) && !(ptrs && w == 64) => self.ite_val(e, w, &x, &y),
                                _ => {
                                    if self.decide(st, e)? {
                                        x
                                    } else {
                                        y
                                    }
                                }
                            }
                        }
                        _ => return end(End::Error("select".into())),
                    },
                    _ => unreachable!(),
                };
                set!(d, r);
            }
            I::Alloca(d, sz, al, n) => {
                let n = Self::get(st, n);
                let n = self.c64(st, &n)?;
                let a = (st.sp + al - 1) / al * al;
                st.sp = a + sz * n;
                if st.sp > st.mem.top[1] {
                    return end(End::Limit("stack overflow".into()));
                }
                set!(d, Val::C(S + a));
            }
            I::Call(cal, d, args, rt, tys) => {
                let fid = match cal {
                    Callee::Fn(f) => *f,
                    Callee::Ext(x) => return self.ext(st, *x, *d, args, rt, tys),
                    Callee::Ptr(o) => {
                        let v = Self::get(st, o);
                        let a = self.c64(st, &v)?;
                        if a < F || (a - F) / 16 >= self.p.funcs.len() as u64 {
                            return end(End::Fault(format!("call of bad pointer {a:#x}")));
                        }
                        let k = ((a - F) / 16) as u32;
                        if let Some(x) = self.extfn[k as usize] {
                            return self.ext(st, x, *d, args, rt, tys);
                        }
                        k
                    }
                };
                if st.stack.len() > self.cfg.max_depth {
                    return end(End::Limit("call depth".into()));
                }
                let g = &self.p.funcs[fid as usize];
                self.seen_fn[fid as usize] = true;
                let mut regs = Vec::with_capacity(g.nregs as usize);
                for a in args.iter().take(g.nparams as usize) {
                    regs.push(Self::get(st, a));
                }
                regs.resize(g.nregs as usize, Val::C(0));
                let fr = Frame { f: fid, pc: 0, regs, sp: st.sp, ret: *d };
                let old = std::mem::replace(&mut st.cur, fr);
                st.stack.push(Rc::new(old));
            }
            I::Unreachable => return end(End::Fault("unreachable".into())),
            I::BinX(op, ty, d, a, b) => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let r = match (&**ty, &x, &y) {
                    (Ty::Vec(_, t), Val::A(xs), Val::A(ys)) => {
                        let w = t.scalar_w().unwrap();
                        let mut r = vec![];
                        for (p, q) in xs.iter().zip(ys.iter()) {
                            r.push(self.bin(st, *op, w, p, q)?);
                        }
                        Val::A(Arc::new(r))
                    }
                    _ => self.bin(st, *op, ty.scalar_w().unwrap(), &x, &y)?,
                };
                set!(d, r);
            }
            I::CmpX(p, ty, d, a, b) => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let r = match (&**ty, &x, &y) {
                    (Ty::Vec(_, t), Val::A(xs), Val::A(ys)) => {
                        let w = t.scalar_w().unwrap();
                        let mut r = vec![];
                        for (s, q) in xs.iter().zip(ys.iter()) {
                            r.push(self.icmp(st, *p, w, s, q)?);
                        }
                        Val::A(Arc::new(r))
                    }
                    _ => self.icmp(st, *p, ty.scalar_w().unwrap(), &x, &y)?,
                };
                set!(d, r);
            }
            I::FCmp(p, ty, d, a, b) => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let w = match ty.scalar_w() {
                    Some(w) => w,
                    None => return end(End::Error("vector fcmp".into())),
                };
                let (x, y) = (self.c64(st, &x)?, self.c64(st, &y)?);
                let fl = |k: u64| if w == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k) };
                set!(d, Val::C(fcmp_c(*p, fl(x), fl(y)) as u64));
            }
            I::FNeg(ty, d, a) => {
                let v = Self::get(st, a);
                let k = self.c64(st, &v)?;
                let w = ty.scalar_w().unwrap_or(64);
                set!(d, Val::C(k ^ (1 << (w - 1))));
            }
            I::CastX(c, ft, tt, d, a) => {
                let v = Self::get(st, a);
                let r = self.cast(st, *c, ft, tt, &v)?;
                set!(d, r);
            }
            I::BitX(ft, tt, d, a) => {
                let v = Self::get(st, a);
                let r = self.bitcast(st, ft, tt, &v)?;
                set!(d, r);
            }
            I::LoadX(ty, d, p) => {
                let p = Self::get(st, p);
                let a = match p {
                    Val::C(a) => a,
                    Val::S(e) => {
                        if let Ty::I(w) = **ty {
                            if w <= 64 {
                                let n = ((w + 7) / 8) as usize;
                                let v = self.load_sym(st, e, n)?;
                                let r = match v {
                                    Val::C(k) => Val::C(k & mask(w)),
                                    Val::S(e) => {
                                        let x = self.ar.extract(e, w - 1, 0);
                                        self.sv(x)
                                    }
                                    v => v,
                                };
                                set!(d, r);
                                return Ok(());
                            }
                        }
                        self.conc(st, e)?
                    }
                    _ => return end(End::Error("loadx".into())),
                };
                let r = self.load_ty(st, a, ty)?;
                set!(d, r);
            }
            I::StoreX(ty, v, p) => {
                let v = Self::get(st, v);
                let p = Self::get(st, p);
                let a = self.c64(st, &p)?;
                self.store_ty(st, a, ty, &v)?;
                st.cur.pc += 1;
            }
            I::ExtractV(d, a, ix) => {
                let mut v = Self::get(st, a);
                for k in ix.iter() {
                    v = match &v {
                        Val::A(xs) => xs[*k as usize].clone(),
                        _ => return end(End::Error("extractvalue".into())),
                    };
                }
                set!(d, v);
            }
            I::InsertV(d, a, b, ix) => {
                let v = Self::get(st, a);
                let x = Self::get(st, b);
                fn ins(v: &Val, x: Val, ix: &[u32]) -> Val {
                    if ix.is_empty() {
                        return x;
                    }
                    match v {
                        Val::A(xs) => {
                            let mut r = (**xs).clone();
                            r[ix[0] as usize] = ins(&xs[ix[0] as usize], x, &ix[1..]);
                            Val::A(Arc::new(r))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                set!(d, ins(&v, x, ix));
            }
            I::ExtractE(d, a, k) => {
                let v = Self::get(st, a);
                let k = Self::get(st, k);
                let k = self.c64(st, &k)?;
                let r = match &v {
                    Val::A(xs) => xs[k as usize].clone(),
                    _ => return end(End::Error("extractelement".into())),
                };
                set!(d, r);
            }
            I::InsertE(d, a, x, k) => {
                let v = Self::get(st, a);
                let x = Self::get(st, x);
                let k = Self::get(st, k);
                let k = self.c64(st, &k)?;
                let r = match &v {
                    Val::A(xs) => {
                        let mut r = (**xs).clone();
                        r[k as usize] = x;
                        Val::A(Arc::new(r))
                    }
                    _ => return end(End::Error("insertelement".into())),
                };
                set!(d, r);
            }
            I::Shuffle(d, a, b, m) => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let r = match (&x, &y) {
                    (Val::A(xs), Val::A(ys)) => {
                        let n = xs.len() as i32;
                        Val::A(Arc::new(
                            m.iter()
                                .map(|k| {
                                    if *k < 0 {
                                        Val::C(0)
                                    } else if *k < n {
                                        xs[*k as usize].clone()
                                    } else {
                                        ys[(*k - n) as usize].clone()
                                    }
                                })
                                .collect(),
                        ))
                    }
                    _ => return end(End::Error("shuffle".into())),
                };
                set!(d, r);
            }
            I::Rmw(op, w, d, p, v) => {
                let p = Self::get(st, p);
                let a = self.c64(st, &p)?;
                let n = (*w / 8).max(1) as usize;
                let old = self.load_n(st, a, n)?;
                let v = Self::get(st, v);
                let new = match *op {
                    0 => v,
                    1 => self.bin(st, B::Add, *w, &old, &v)?,
                    2 => self.bin(st, B::Sub, *w, &old, &v)?,
                    3 => self.bin(st, B::And, *w, &old, &v)?,
                    5 => self.bin(st, B::Or, *w, &old, &v)?,
                    6 => self.bin(st, B::Xor, *w, &old, &v)?,
                    _ => return end(End::Error("atomicrmw".into())),
                };
                self.store_n(st, a, n, &new)?;
                set!(d, old);
            }
            I::CmpXchg(w, d, p, c, v) => {
                let p = Self::get(st, p);
                let a = self.c64(st, &p)?;
                let n = (*w / 8).max(1) as usize;
                let old = self.load_n(st, a, n)?;
                let c = Self::get(st, c);
                let o = self.c64(st, &old)?;
                let c = self.c64(st, &c)?;
                if o == c {
                    let v = Self::get(st, v);
                    self.store_n(st, a, n, &v)?;
                }
                set!(d, Val::A(Arc::new(vec![Val::C(o), Val::C((o == c) as u64)])));
            }
            I::Bad(s) => return end(End::Error(format!("unsupported: {s}"))),
        }
        Ok(())
    }

    fn switch(&mut self, st: &mut State, e: E, w: u32, dflt: u32, cases: &[(u64, u32)]) -> R<u32> {
        // group the cases by edge
        let mut groups: Vec<(u32, E)> = vec![];
        let mut none = self.ar.c(1, 1);
        for (k, t) in cases {
            let kc = self.ar.c(*k, w);
            let c = self.ar.bin(Op::Eq, e, kc);
            let nc = self.ar.not(c);
            none = self.ar.bin(Op::And, none, nc);
            match groups.iter_mut().find(|g| g.0 == *t) {
                Some(g) => {
                    let x = g.1;
                    g.1 = self.ar.bin(Op::Or, x, c);
                }
                None => groups.push((*t, c)),
            }
        }
        groups.push((dflt, none));
        let mut live: Vec<(u32, E, Vec<(u16, u8)>)> = vec![];
        for (t, c) in groups {
            if let Some(m) = self.feasible(&st.pc, c) {
                live.push((t, c, m));
            }
        }
        if live.is_empty() {
            return end(End::Error("switch without feasible target".into()));
        }
        if live.len() == 1 {
            return Ok(live[0].0);
        }
        if let Some(d) = Self::replaying(st) {
            let t = match d {
                D::Sw(t) => t,
                _ => return end(End::Error(format!("replay mismatch {d:?}"))),
            };
            let (t, c, m) = match live.into_iter().find(|x| x.0 == t) {
                Some(x) => x,
                None => return end(End::Error("replay switch".into())),
            };
            Self::upd(&mut st.pc, &m);
            self.add(&mut st.pc, c);
            st.trace.push(d);
            return Ok(t);
        }
        let first = live.remove(0);
        for (t, c, m) in live.into_iter().rev() {
            let mut o = st.clone();
            Self::upd(&mut o.pc, &m);
            self.add(&mut o.pc, c);
            o.trace.push(D::Sw(t));
            self.work.push(o);
            self.st.forks += 1;
        }
        Self::upd(&mut st.pc, &first.2);
        self.add(&mut st.pc, first.1);
        st.trace.push(D::Sw(first.0));
        Ok(first.0)
    }

    // ---- externals ------------------------------------------------------------------------

    fn alloc(&mut self, st: &mut State, n: u64, al: u64) -> u64 {
        let al = al.max(16);
        let a = (st.mem.top[2] + al - 1) / al * al;
        st.mem.top[2] = a + n.max(1);
        H + a
    }
    fn cstr(&mut self, st: &mut State, p: u64, n: u64) -> R<String> {
        let mut v = vec![];
        for k in 0..n {
            let e = self.byte_e(st, p + k)?;
            v.push(self.ev(st, e) as u8);
        }
        Ok(String::from_utf8_lossy(&v).to_string())
    }
    fn new_var(&mut self, st: &mut State, d: Bits) -> E {
        let i = st.pc.dom.len() as u16;
        st.pc.dom.push(d);
        st.pc.inmv.push(false);
        st.pc.model.push(first_bit(&d).unwrap_or(0));
        self.st.maxvars = self.st.maxvars.max(i as usize + 1);
        self.ar.var(i)
    }
    pub fn violation(&mut self, st: &State, label: &str, kind: &'static str, model: &[u8]) {
        let c = self.vcount.entry(label.to_string()).or_insert(0);
        *c += 1;
        if *c <= 40 {
            let stack = self.stack_names(st);
            self.viol.push(Violation { label: label.to_string(), kind, bytes: model.to_vec(), stack });
        }
    }

    fn ext(&mut self, st: &mut State, x: u32, d: Reg, args: &[O], rt: &Ty, tys: &[Arc<Ty>]) -> R<()> {
        let a: Vec<Val> = args.iter().map(|o| Self::get(st, o)).collect();
        let r = self.ext_val(st, x, &a, rt, tys)?;
        if let Some(v) = r {
            st.cur.regs[d as usize] = v;
        }
        st.cur.pc += 1;
        Ok(())
    }

    fn ext_val(&mut self, st: &mut State, x: u32, a: &[Val], rt: &Ty, tys: &[Arc<Ty>]) -> R<Option<Val>> {
        let kind = self.kinds[x as usize];
        macro_rules! c {
            ($k:expr) => {
                self.c64(st, &a[$k])?
            };
        }
        Ok(match kind {
            X::Malloc => {
                let n = c!(0);
                Some(Val::C(self.alloc(st, n, 16)))
            }
            X::Calloc => {
                let n = c!(0) * c!(1);
                Some(Val::C(self.alloc(st, n, 16)))
            }
            X::Realloc => {
                let (p, n) = (c!(0), c!(1));
                let q = self.alloc(st, n, 16);
                if p != 0 {
                    // copy what lies below the new block (heap blocks never shrink the region)
                    let m = n.min(q.saturating_sub(p));
                    let r = st.mem.copy(q, p, m);
                    r.or_else(|b| self.fault(b))?;
                }
                Some(Val::C(q))
            }
            X::Free => None,
            X::Memalign => {
                let (out, al, n) = (c!(0), c!(1), c!(2));
                let q = self.alloc(st, n, al);
                self.store_n(st, out, 8, &Val::C(q))?;
                Some(Val::C(0))
            }
            X::Memcpy => {
                let n = c!(2);
                let (dst, src) = (c!(0), c!(1));
                let r = st.mem.copy(dst, src, n);
                r.or_else(|b| self.fault(b))?;
                if *rt == Ty::Void {
                    None
                } else {
                    Some(a[0].clone())
                }
            }
            X::Memset => {
                let n = c!(2);
                let dst = c!(0);
                match &a[1] {
                    Val::C(k) => {
                        let r = st.mem.fill(dst, *k as u8, 0, n);
                        r.or_else(|b| self.fault(b))?;
                    }
                    Val::S(e) => {
                        let b = self.ar.extract(*e, 7, 0);
                        let (k, s) = match self.ar.konst(b) {
                            Some(k) => (k as u8, 0),
                            None => (0, b),
                        };
                        let r = st.mem.fill(dst, k, s, n);
                        r.or_else(|b| self.fault(b))?;
                    }
                    _ => return end(End::Error("memset".into())),
                }
                if *rt == Ty::Void {
                    None
                } else {
                    Some(a[0].clone())
                }
            }
            X::Memcmp | X::Bcmp => {
                let n = c!(2);
                let (p, q) = (c!(0), c!(1));
                let mut diffs: Vec<(E, E)> = vec![];
                for k in 0..n {
                    let (pb, qb) = match (st.mem.byte(p + k), st.mem.byte(q + k)) {
                        (Ok(x), Ok(y)) => (x, y),
                        (Err(b), _) | (_, Err(b)) => return self.fault(b),
                    };
                    if pb.1 == 0 && qb.1 == 0 {
                        if pb.0 != qb.0 {
                            let x = self.ar.c(pb.0 as u64, 8);
                            let y = self.ar.c(qb.0 as u64, 8);
                            diffs.push((x, y));
                            break;
                        }
                        continue;
                    }
                    let x = self.byte_e(st, p + k)?;
                    let y = self.byte_e(st, q + k)?;
                    if x == y {
                        continue;
                    }
                    diffs.push((x, y));
                    if let (Some(i), Some(j)) = (self.ar.konst(x), self.ar.konst(y)) {
                        if i != j {
                            break;
                        }
                        diffs.pop();
                    }
                }
                if kind == X::Bcmp {
                    let mut e = self.ar.c(1, 1);
                    for (x, y) in diffs {
                        let c = self.ar.bin(Op::Eq, x, y);
                        e = self.ar.bin(Op::And, e, c);
                    }
                    let ne = self.ar.not(e);
                    let r = self.ar.zext(ne, 32);
                    Some(self.sv(r))
                } else {
                    let mut r = self.ar.c(0, 32);
                    for (x, y) in diffs.into_iter().rev() {
                        let c = self.ar.bin(Op::Eq, x, y);
                        let lt = self.ar.bin(Op::Ult, x, y);
                        let m1 = self.ar.c(0xffff_ffff, 32);
                        let p1 = self.ar.c(1, 32);
                        let s = self.ar.ite(lt, m1, p1);
                        r = self.ar.ite(c, r, s);
                    }
                    Some(self.sv(r))
                }
            }
            X::Strlen => {
                let p = c!(0);
                let mut n = 0;
                loop {
                    let e = self.byte_e(st, p + n)?;
                    let k = self.conc(st, e)?;
                    if k == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n))
            }
            X::HashWrite => None,
            X::HashFinish => Some(Val::C(self.cfg.hash_mode)),
            X::Panic => {
                return end(End::Panic("panic".into()));
            }
            X::Byte => {
                let e = self.new_var(st, [!0; 4]);
                Some(Val::S(e))
            }
            X::Choice => {
                let n = c!(0).min(256);
                let mut d = [0u64; 4];
                for k in 0..n as usize {
                    d[k / 64] |= 1 << (k % 64);
                }
                let e = self.new_var(st, d);
                if n == 1 {
                    return Ok(Some(Val::C(0)));
                }
                Some(Val::S(e))
            }
            X::ByteIn => {
                let (p, n) = (c!(0), c!(1));
                let s = {
                    let mut v = vec![];
                    for k in 0..n {
                        let e = self.byte_e(st, p + k)?;
                        v.push(self.ev(st, e) as u8);
                    }
                    v
                };
                let mut d = [0u64; 4];
                for k in s {
                    d[k as usize / 64] |= 1 << (k % 64);
                }
                let e = self.new_var(st, d);
                if count(&d) == 1 {
                    return Ok(Some(Val::C(first_bit(&d).unwrap() as u64)));
                }
                Some(Val::S(e))
            }
            X::Assume => {
                match &a[0] {
                    Val::C(k) => {
                        if k & 1 == 0 {
                            return end(End::Killed);
                        }
                    }
                    Val::S(e) => {
                        let e = self.ar.extract(*e, 0, 0);
                        match self.feasible(&st.pc, e) {
                            None => return end(End::Killed),
                            Some(m) => {
                                if self.ev(st, e) != 1 {
                                    Self::upd(&mut st.pc, &m);
                                }
                                self.add(&mut st.pc, e);
                            }
                        }
                    }
                    _ => {}
                }
                None
            }
            X::Check => {
                let (p, n) = (c!(1), c!(2));
                let label = self.cstr(st, p, n)?;
                *self.st.asserts.entry(label.clone()).or_insert(0) += 1;
                match &a[0] {
                    Val::C(k) => {
                        self.st.asserts_conc += 1;
                        if k & 1 == 0 {
                            return end(End::Fail(label));
                        }
                    }
                    Val::S(e) => {
                        self.st.asserts_sym += 1;
                        let e = self.ar.extract(*e, 0, 0);
                        let ne = self.ar.not(e);
                        if let Some(m) = self.feasible(&st.pc, ne) {
                            let mut model = st.pc.model.clone();
                            if self.ev(st, ne) != 1 {
                                for (v, k) in m {
                                    model[v as usize] = k;
                                }
                            }
                            self.violation(st, &label, "check", &model);
                            match self.feasible(&st.pc, e) {
                                None => return end(End::Killed),
                                Some(m) => {
                                    if self.ev(st, e) != 1 {
                                        Self::upd(&mut st.pc, &m);
                                    }
                                    self.add(&mut st.pc, e);
                                }
                            }
                        }
                    }
                    _ => {}
                }
                None
            }
            X::FailX => {
                let (p, n) = (c!(0), c!(1));
                let label = self.cstr(st, p, n)?;
                return end(End::Fail(label));
            }
            X::Cover => {
                let (p, n) = (c!(0), c!(1));
                let label = self.cstr(st, p, n)?;
                let id = match self.cover_map.get(&label) {
                    Some(i) => *i,
                    None => {
                        let i = self.cover_names.len() as u32;
                        self.cover_names.push(label.clone());
                        self.cover_map.insert(label, i);
                        i
                    }
                };
                if !st.covers.contains(&id) {
                    Rc::make_mut(&mut st.covers).push(id);
                }
                None
            }
            X::Observe => {
                let (p, n) = (c!(0), c!(1));
                let mut v = vec![];
                for k in 0..n {
                    match st.mem.byte(p + k) {
                        Ok(x) => v.push(x),
                        Err(b) => return self.fault(b),
                    }
                }
                Rc::make_mut(&mut st.obs).extend(v);
                None
            }
            X::Trace => {
                let (p, n) = (c!(0), c!(1));
                if self.cfg.verbose {
                    let s = self.cstr(st, p, n)?;
                    eprintln!("[trace] {s}");
                }
                None
            }
            X::Conc => {
                let k = c!(0);
                Some(Val::C(k))
            }
            X::Zero => {
                if *rt == Ty::Void {
                    None
                } else {
                    Some(Val::C(0))
                }
            }
            X::Write => Some(if a.len() > 2 { a[2].clone() } else { Val::C(0) }),
            X::Errno => Some(Val::C(G + 16)),
            X::GetRandom => Some(a[1].clone()),
            X::Syscall => Some(Val::C(a.get(2).map(|v| if let Val::C(k) = v { *k } else { 0 }).unwrap_or(0))),
            X::Trap => return end(End::Panic("abort".into())),
            X::Expect | X::TlsAddr => Some(a[0].clone()),
            X::IsConst => Some(Val::C(0)),
            X::ObjSize => Some(Val::C(!0)),
            X::Nop => None,
            X::Unknown => {
                let n = self.p.exts[x as usize].clone();
                return end(End::Error(format!("unsupported external {n}")));
            }
            _ => Some(self.intrin(st, kind, a, rt, tys)?),
        })
    }

    fn intrin(&mut self, st: &mut State, kind: X, a: &[Val], rt: &Ty, tys: &[Arc<Ty>]) -> R<Val> {
        // element-wise on vectors
        if let X::Reduce(k) = kind {
            let xs = match &a[0] {
                Val::A(x) => x.clone(),
                _ => return end(End::Error("reduce".into())),
            };
            let w = rt.scalar_w().unwrap();
            let mut r = xs[0].clone();
            for x in xs.iter().skip(1) {
                r = match k {
                    0 => self.bin(st, B::Or, w, &r, x)?,
                    1 => self.bin(st, B::And, w, &r, x)?,
                    2 => self.bin(st, B::Add, w, &r, x)?,
                    3 => self.bin(st, B::Xor, w, &r, x)?,
                    8 => self.bin(st, B::Mul, w, &r, x)?,
                    _ => {
                        let (s, mx) = match k {
                            4 => (false, true),
                            5 => (false, false),
                            6 => (true, true),
                            _ => (true, false),
                        };
                        self.scalar(st, X::MinMax(s, mx), &[r, x.clone()], w, w)?
                    }
                };
            }
            return Ok(r);
        }
        if let Val::A(x0) = &a[0] {
            if let Ty::Vec(..) = rt {
                let n = x0.len();
                let ew = match rt {
                    Ty::Vec(_, t) => t.scalar_w().unwrap(),
                    _ => 0,
                };
                let iw = match &*tys[0] {
                    Ty::Vec(_, t) => t.scalar_w().unwrap(),
                    t => t.scalar_w().unwrap_or(64),
                };
                let mut r = vec![];
                for k in 0..n {
                    let b: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::A(xs) => xs[k].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    r.push(self.scalar(st, kind, &b, iw, ew)?);
                }
                return Ok(Val::A(Arc::new(r)));
            }
            return end(End::Error("vector intrinsic".into()));
        }
        let iw = tys[0].scalar_w().unwrap_or(64);
        let rw = match rt {
            Ty::Agg(..) => iw,
            t => t.scalar_w().unwrap_or(64),
        };
        self.scalar(st, kind, a, iw, rw)
    }

    fn scalar(&mut self, st: &mut State, kind: X, a: &[Val], w: u32, rw: u32) -> R<Val> {
        let allc = a.iter().all(|v| matches!(v, Val::C(_)));
        let m = |w: u32| -> u128 {
            if w >= 128 {
                !0
            } else {
                (1u128 << w) - 1
            }
        };
        let s128 = |x: u128| -> i128 {
            if w >= 128 {
                x as i128
            } else {
                ((x << (128 - w)) as i128) >> (128 - w)
            }
        };
        let mkv = |x: u128, w: u32| if w > 64 { Val::W(Box::new(x & m(w))) } else { Val::C((x & m(w)) as u64) };
        match kind {
            // {carry out, result} of a carry in (zero or not) and two words.
            X::Carry(add, k) => {
                let (c, x, y) = (self.c128(st, &a[0])?, self.c128(st, &a[1])?, self.c128(st, &a[2])?);
                let c = (c & 0xff != 0) as u128;
                let (r, o) = if add {
                    (x + y + c, x + y + c > m(k))
                } else {
                    (x.wrapping_sub(y).wrapping_sub(c), x < y + c)
                };
                Ok(Val::A(Arc::new(vec![Val::C(o as u64), mkv(r & m(k), k)])))
            }
            X::WithOvf(op, signed) => {
                if allc || w > 64 {
                    let (x, y) = (self.c128(st, &a[0])?, self.c128(st, &a[1])?);
                    let (r, o) = if signed {
                        let (x, y) = (s128(x), s128(y));
                        let (r, o) = match op {
                            B::Add => x.overflowing_add(y),
                            B::Sub => x.overflowing_sub(y),
                            _ => x.overflowing_mul(y),
                        };
                        let t = r as u128 & m(w);
                        (t, o || s128(t) != r)
                    } else {
                        match op {
                            B::Add => {
                                let (r, o) = x.overflowing_add(y);
                                (r, o || r > m(w))
                            }
                            B::Sub => (x.wrapping_sub(y), x < y),
                            _ => {
                                let (r, o) = x.overflowing_mul(y);
                                (r, o || r > m(w))
                            }
                        }
                    };
                    return Ok(Val::A(Arc::new(vec![mkv(r, w), Val::C(o as u64)])));
                }
                let (x, y) = (self.ee(&a[0], w), self.ee(&a[1], w));
                let r = self.ar.bin(eop(op), x, y);
                let o = match (op, signed) {
                    (B::Add, false) => self.ar.bin(Op::Ult, r, x),
                    (B::Sub, false) => self.ar.bin(Op::Ult, x, y),
                    (B::Add, true) | (B::Sub, true) => {
                        let nx = self.ar.extract(x, w - 1, w - 1);
                        let ny = self.ar.extract(y, w - 1, w - 1);
                        let nr = self.ar.extract(r, w - 1, w - 1);
                        let dif = self.ar.bin(Op::Xor, nx, ny);
                        let same = if op == B::Add { self.ar.not(dif) } else { dif };
                        let ch = self.ar.bin(Op::Xor, nx, nr);
                        self.ar.bin(Op::And, same, ch)
                    }
                    _ if w <= 32 => {
                        let (x2, y2) = if signed {
                            (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w))
                        } else {
                            (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w))
                        };
                        let p = self.ar.bin(Op::Mul, x2, y2);
                        let rr = if signed { self.ar.sext(r, 2 * w) } else { self.ar.zext(r, 2 * w) };
                        let e = self.ar.bin(Op::Eq, p, rr);
                        self.ar.not(e)
                    }
                    (_, false) => {
                        // 64-bit unsigned: overflow iff x != 0 and r / x != y
                        if let Some(k) = self.ar.konst(y) {
                            if k == 0 {
                                self.ar.c(0, 1)
                            } else {
                                let lim = self.ar.c(mask(w) / k, w);
                                self.ar.bin(Op::Ult, lim, x)
                            }
                        } else {
                            let z = self.ar.c(0, w);
                            let xz = self.ar.bin(Op::Eq, x, z);
                            let nz = self.ar.not(xz);
                            let q = self.ar.bin(Op::UDiv, r, x);
                            let e = self.ar.bin(Op::Eq, q, y);
                            let ne = self.ar.not(e);
                            self.ar.bin(Op::And, nz, ne)
                        }
                    }
                    _ => {
                        let x = self.c64(st, &a[0])?;
                        let y = self.c64(st, &a[1])?;
                        let (r, o) = (x as i64).overflowing_mul(y as i64);
                        return Ok(Val::A(Arc::new(vec![Val::C(r as u64), Val::C(o as u64)])));
                    }
                };
                let rv = self.sv(r);
                let ov = self.sv(o);
                Ok(Val::A(Arc::new(vec![rv, ov])))
            }
            X::MinMax(signed, max) => {
                if w > 64 {
                    let (x, y) = (self.c128(st, &a[0])?, self.c128(st, &a[1])?);
                    let lt = if signed { s128(x) < s128(y) } else { x < y };
                    return Ok(mkv(if lt != max { x } else { y }, w));
                }
                let (x, y) = (self.ee(&a[0], w), self.ee(&a[1], w));
                let lt = self.ar.bin(if signed { Op::Slt } else { Op::Ult }, x, y);
                let r = if max { self.ar.ite(lt, y, x) } else { self.ar.ite(lt, x, y) };
                Ok(self.sv(r))
            }
            X::Cmp3(signed) => {
                let (x, y) = (self.ee(&a[0], w), self.ee(&a[1], w));
                let lt = self.ar.bin(if signed { Op::Slt } else { Op::Ult }, x, y);
                let eq = self.ar.bin(Op::Eq, x, y);
                let (m1, z, p1) = (self.ar.c(!0, rw), self.ar.c(0, rw), self.ar.c(1, rw));
                let r = self.ar.ite(eq, z, p1);
                let r = self.ar.ite(lt, m1, r);
                Ok(self.sv(r))
            }
            X::Sat(op, signed) => {
                if signed {
                    let (x, y) = (self.c64(st, &a[0])?, self.c64(st, &a[1])?);
                    let (x, y) = (sext(x, w) as i128, sext(y, w) as i128);
                    let r = if op == B::Add { x + y } else { x - y };
                    let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                    return Ok(Val::C(r.clamp(lo, hi) as u64 & mask(w)));
                }
                let (x, y) = (self.ee(&a[0], w), self.ee(&a[1], w));
                let r = self.ar.bin(eop(op), x, y);
                let res = if op == B::Add {
                    let o = self.ar.bin(Op::Ult, r, x);
                    let f = self.ar.c(!0, w);
                    self.ar.ite(o, f, r)
                } else {
                    let o = self.ar.bin(Op::Ult, x, y);
                    let f = self.ar.c(0, w);
                    self.ar.ite(o, f, r)
                };
                Ok(self.sv(res))
            }
            X::Fsh(left) => {
                let s = self.c64(st, &a[2])? % w as u64;
                let (x, y) = (&a[0], &a[1]);
                if s == 0 {
                    return Ok(if left { x.clone() } else { y.clone() });
                }
                if w > 64 {
                    return end(End::Error("fsh wide".into()));
                }
                let k = |v: u64| Val::C(v);
                let (l, r) = if left { (s, w as u64 - s) } else { (w as u64 - s, s) };
                let hi = self.bin(st, B::Shl, w, x, &k(l))?;
                let lo = self.bin(st, B::LShr, w, y, &k(r))?;
                self.bin(st, B::Or, w, &hi, &lo)
            }
            X::Abs => {
                let x = self.ee(&a[0], w);
                let z = self.ar.c(0, w);
                let n = self.ar.bin(Op::Sub, z, x);
                let lt = self.ar.bin(Op::Slt, x, z);
                let r = self.ar.ite(lt, n, x);
                Ok(self.sv(r))
            }
            X::Bswap | X::Bitreverse | X::Ctlz | X::Cttz | X::Ctpop => {
                if w > 64 {
                    let x = self.c128(st, &a[0])?;
                    let r = match kind {
                        X::Ctlz => (x.leading_zeros() - (128 - w)) as u128,
                        X::Cttz => x.trailing_zeros().min(w) as u128,
                        X::Ctpop => x.count_ones() as u128,
                        X::Bswap => x.swap_bytes() >> (128 - w),
                        _ => x.reverse_bits() >> (128 - w),
                    };
                    return Ok(mkv(r, w));
                }
                if let Val::C(x) = a[0] {
                    let r = match kind {
                        X::Ctlz => (x.leading_zeros() - (64 - w)) as u64,
                        X::Cttz => x.trailing_zeros().min(w) as u64,
                        X::Ctpop => x.count_ones() as u64,
                        X::Bswap => x.swap_bytes() >> (64 - w),
                        _ => x.reverse_bits() >> (64 - w),
                    };
                    return Ok(Val::C(r));
                }
                let x = self.ee(&a[0], w);
                let r = match kind {
                    X::Bswap => {
                        let mut r = self.ar.extract(x, 7, 0);
                        for k in 1..w / 8 {
                            let b = self.ar.extract(x, 8 * k + 7, 8 * k);
                            r = self.ar.concat(r, b);
                        }
                        r
                    }
                    X::Ctlz | X::Cttz => {
                        let mut r = self.ar.c(w as u64, w);
                        for k in 0..w {
                            let pos = if kind == X::Ctlz { k } else { w - 1 - k };
                            let b = self.ar.extract(x, pos, pos);
                            let v = self.ar.c((if kind == X::Ctlz { w - 1 - k } else { pos }) as u64, w);
                            r = self.ar.ite(b, v, r);
                        }
                        r
                    }
                    X::Ctpop => {
                        let mut r = self.ar.c(0, w);
                        for k in 0..w {
                            let b = self.ar.extract(x, k, k);
                            let b = self.ar.zext(b, w);
                            r = self.ar.bin(Op::Add, r, b);
                        }
                        r
                    }
                    _ => {
                        let k = self.conc(st, x)?;
                        return Ok(Val::C(k.reverse_bits() >> (64 - w)));
                    }
                };
                Ok(self.sv(r))
            }
            X::FUn(k) => {
                let x = self.c64(st, &a[0])?;
                let d = if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let r = match k {
                    0 => d.abs(),
                    1 => d.floor(),
                    2 => d.ceil(),
                    3 => d.trunc(),
                    4 | 5 | 8 => d.round_ties_even(),
                    6 => d.round(),
                    _ => d.sqrt(),
                };
                Ok(Val::C(if w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() }))
            }
            X::FBin(k) => {
                let (x, y) = (self.c64(st, &a[0])?, self.c64(st, &a[1])?);
                let fl = |x: u64| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let (p, q) = (fl(x), fl(y));
                let r = match k {
                    0 => p.min(q),
                    1 => p.max(q),
                    2 => p.copysign(q),
                    3 => p % q,
                    _ => p.powf(q),
                };
                Ok(Val::C(if w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() }))
            }
            X::Fma => {
                let (x, y, z) = (self.c64(st, &a[0])?, self.c64(st, &a[1])?, self.c64(st, &a[2])?);
                Ok(Val::C(f64::from_bits(x).mul_add(f64::from_bits(y), f64::from_bits(z)).to_bits()))
            }
            X::FtoISat(signed) => {
                let x = self.c64(st, &a[0])?;
                let d = if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                if rw > 64 {
                    return Ok(Val::W(Box::new(if signed { d as i128 as u128 } else { d as u128 })));
                }
                Ok(Val::C(if signed {
                    let (lo, hi) = if rw >= 64 { (i64::MIN, i64::MAX) } else { (-(1i64 << (rw - 1)), (1i64 << (rw - 1)) - 1) };
                    (d as i64).clamp(lo, hi) as u64 & mask(rw)
                } else {
                    (d as u64).min(mask(rw))
                }))
            }
            _ => end(End::Error(format!("intrinsic {kind:?}"))),
        }
    }

    /// Bookkeeping when a path ends.
    pub fn finish(&mut self, st: &State, e: End) {
        match &e {
            End::Killed => {
                self.st.killed += 1;
                return;
            }
            End::Timeout => {
                self.st.timeouts += 1;
                return;
            }
            End::Error(s) => {
                let mut t = self.stack_names(st);
                t.truncate(6);
                if self.st.errors.len() < 20 {
                    self.st.errors.push(format!("{s} at {}", t.join(" < ")));
                }
                return;
            }
            _ => {}
        }
        self.st.paths += 1;
        self.st.max_steps = self.st.max_steps.max(st.steps);
        // Z3 decides the complete path condition (cached by constraint set)
        for (k, c) in st.covers.iter().enumerate() {
            let _ = k;
            *self.st.covers.entry(self.cover_names[*c as usize].clone()).or_insert(0) += 1;
        }
        let model = st.pc.model.clone();
        match e {
            End::Done => {
                let take = self.samples.len() < 4 || (self.cfg.sample > 0 && self.st.paths % self.cfg.sample == 0 && self.samples.len() < 64);
                if take {
                    let obs: Vec<u8> = st.obs.iter().map(|(v, e)| if *e == 0 { *v } else { self.ar.eval(*e, &model) as u8 }).collect();
                    self.samples.push((model, obs));
                }
            }
            End::Panic(_) => {
                let l = self.panic_label(st);
                self.violation(st, &l, "panic", &model);
            }
            End::Fail(l) => self.violation(st, &l, "check", &model),
            End::Limit(s) => {
                self.st.limit += 1;
                let l = format!("nontermination ({s})");
                self.violation(st, &l, "limit", &model);
            }
            End::Fault(s) => {
                let l = format!("fault {s}");
                self.violation(st, &l, "fault", &model);
            }
            _ => {}
        }
    }
    fn panic_label(&self, st: &State) -> String {
        for n in self.stack_names(st) {
            if n.contains("json_ld") || n.contains("json_syntax") {
                return format!("panic in {n}");
            }
        }
        "panic".into()
    }
    /// Full-path-condition check by Z3 (independent of the incremental slicing).
    pub fn recheck(&mut self, st: &State) -> bool {
        let doms: Vec<(u16, Bits)> = st.pc.dom.iter().enumerate().map(|(i, d)| (i as u16, *d)).collect();
        let mv = st.pc.mv.clone();
        let (v, _) = self.z.check(&self.ar, &doms, &mv, false);
        // and the model kept incrementally must satisfy it
        let mut ok = v != Verdict::Unsat;
        for (i, d) in st.pc.dom.iter().enumerate() {
            ok &= bit(d, st.pc.model[i]);
        }
        for m in mv {
            ok &= self.ar.eval(m, &st.pc.model) == 1;
        }
        ok
    }
}
