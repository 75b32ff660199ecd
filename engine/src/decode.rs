//! Decoding of the LLVM module into a compact register program.
use crate::llvm::*;
use crate::mem::{F, G};
use std::collections::HashMap;
use std::ffi::{c_int, CStr};
use std::sync::Arc;

pub type Reg = u32;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(u32),
    A(Arc<Vec<Val>>),
    W(Box<u128>),
}

#[derive(Clone, Debug)]
pub enum O {
    R(Reg),
    C(u64),
    K(Val),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u32),
    F32,
    F64,
    Vec(u32, Box<Ty>),
    Agg(Vec<(u64, Ty)>, u64),
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::I(w) => (*w as u64 + 7) / 8,
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Vec(n, t) => {
                if let Ty::I(w) = **t {
                    (*n as u64 * w as u64 + 7) / 8
                } else {
                    *n as u64 * t.size()
                }
            }
            Ty::Agg(_, s) => *s,
        }
    }
    pub fn scalar_w(&self) -> Option<u32> {
        match self {
            Ty::I(w) => Some(*w),
            Ty::F32 => Some(32),
            Ty::F64 => Some(64),
            _ => None,
        }
    }
    pub fn zero(&self) -> Val {
        match self {
            Ty::I(w) if *w > 64 => Val::W(Box::new(0)),
            Ty::Void | Ty::I(_) | Ty::F32 | Ty::F64 => Val::C(0),
            Ty::Vec(n, t) => Val::A(Arc::new((0..*n).map(|_| t.zero()).collect())),
            Ty::Agg(f, _) => Val::A(Arc::new(f.iter().map(|x| x.1.zero()).collect())),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Mov,
    FPToUI,
    FPToSI,
    UIToFP,
    SIToFP,
    FPTrunc,
    FPExt,
}

#[derive(Debug)]
pub struct Edge {
    pub pc: u32,
    pub mv: Box<[(Reg, O)]>,
}

#[derive(Debug)]
pub enum Callee {
    Fn(u32),
    Ext(u32),
    Ptr(O),
}

#[derive(Debug)]
pub struct GepIdx {
    pub o: O,
    pub scale: u64,
    pub w: u32,
}

#[derive(Debug)]
pub enum I {
    Bin(B, u32, Reg, O, O),
    BinX(B, Arc<Ty>, Reg, O, O),
    Cmp(c_int, u32, Reg, O, O),
    CmpX(c_int, Arc<Ty>, Reg, O, O),
    FCmp(c_int, Arc<Ty>, Reg, O, O),
    FNeg(Arc<Ty>, Reg, O),
    Cast(Cast, u32, u32, Reg, O),
    CastX(Cast, Arc<Ty>, Arc<Ty>, Reg, O),
    BitX(Arc<Ty>, Arc<Ty>, Reg, O),
    Sel(Arc<Ty>, Reg, O, O, O),
    Load(u32, Reg, O),
    LoadX(Arc<Ty>, Reg, O),
    Store(u32, O, O),
    StoreX(Arc<Ty>, O, O),
    Gep(Reg, O, u64, Box<[GepIdx]>),
    Alloca(Reg, u64, u64, O),
    Call(Callee, Reg, Box<[O]>, Arc<Ty>, Box<[Arc<Ty>]>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(O, u32, u32, Box<[(u64, u32)]>),
    Ret(Option<O>),
    Unreachable,
    ExtractV(Reg, O, Box<[u32]>),
    InsertV(Reg, O, O, Box<[u32]>),
    ExtractE(Reg, O, O),
    InsertE(Reg, O, O, O),
    Shuffle(Reg, O, O, Box<[i32]>),
    Rmw(c_int, u32, Reg, O, O),
    CmpXchg(u32, Reg, O, O, O),
    Mov(Reg, O),
    Nop,
    Bad(Box<str>),
}

#[derive(Debug, Default)]
pub struct Func {
    pub name: String,
    pub code: Vec<I>,
    pub edges: Vec<Edge>,
    pub nregs: u32,
    pub nparams: u32,
    pub has_body: bool,
}

pub struct Program {
    pub funcs: Vec<Func>,
    pub by_name: HashMap<String, u32>,
    pub image: Vec<u8>,
    pub exts: Vec<String>,
}

struct Dec {
    m: P,
    td: P,
    gaddr: HashMap<P, u64>,
    fid: HashMap<P, u32>,
    exts: Vec<String>,
    extmap: HashMap<String, u32>,
    tys: HashMap<P, Arc<Ty>>,
}

/// Functions executed by the engine itself although the module may define them.
pub fn intercepted(n: &str) -> bool {
    matches!(
        n,
        "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen" | "malloc" | "calloc" | "realloc" | "free" | "posix_memalign"
            | "fmod" | "pow" | "rust_begin_unwind" | "rust_eh_personality"
    ) || n.starts_with("symex_")
        || n.starts_with("__symex_")
        || n.contains("rust_begin_unwind")
        || n.contains("4core9panicking9panic_fmt")
        || n.contains("4core9panicking18panic_nounwind_fmt")
        || n.contains("4core9panicking19panic_cannot_unwind")
        || n.contains("alloc18handle_alloc_error")
}

impl Dec {
    fn ty(&mut self, t: P) -> Arc<Ty> {
        if let Some(x) = self.tys.get(&t) {
            return x.clone();
        }
        let r = unsafe {
            match LLVMGetTypeKind(t) {
                TK_VOID => Ty::Void,
                TK_FLOAT => Ty::F32,
                TK_DOUBLE => Ty::F64,
                TK_INT => Ty::I(LLVMGetIntTypeWidth(t)),
                TK_PTR => Ty::I(64),
                TK_VECTOR => {
                    let e = LLVMGetElementType(t);
                    let e = (*self.ty(e)).clone();
                    Ty::Vec(LLVMGetVectorSize(t), Box::new(e))
                }
                TK_ARRAY => {
                    let e = LLVMGetElementType(t);
                    let sz = LLVMABISizeOfType(self.td, e);
                    let e = (*self.ty(e)).clone();
                    let n = LLVMGetArrayLength2(t);
                    Ty::Agg((0..n).map(|i| (i * sz, e.clone())).collect(), n * sz)
                }
                TK_STRUCT => {
                    let n = LLVMCountStructElementTypes(t);
                    let mut f = vec![];
                    for i in 0..n {
                        let e = LLVMStructGetTypeAtIndex(t, i);
                        let o = LLVMOffsetOfElement(self.td, t, i);
                        f.push((o, (*self.ty(e)).clone()));
                    }
                    Ty::Agg(f, LLVMABISizeOfType(self.td, t))
                }
                TK_FUNCTION => Ty::I(64),
                _ => Ty::Void,
            }
        };
        let r = Arc::new(r);
        self.tys.insert(t, r.clone());
        r
    }
    fn tyof(&mut self, v: P) -> Arc<Ty> {
        let t = unsafe { LLVMTypeOf(v) };
        self.ty(t)
    }
    fn gep_offset(&mut self, v: P) -> (u64, Vec<(P, u64)>) {
        unsafe {
            let mut t = LLVMGetGEPSourceElementType(v);
            let n = LLVMGetNumOperands(v) as u32;
            let mut off = 0u64;
            let mut idx = vec![];
            for i in 1..n {
                let o = LLVMGetOperand(v, i);
                if i > 1 {
                    match LLVMGetTypeKind(t) {
                        TK_STRUCT => {
                            let k = LLVMConstIntGetZExtValue(o) as u32;
                            off = off.wrapping_add(LLVMOffsetOfElement(self.td, t, k));
                            t = LLVMStructGetTypeAtIndex(t, k);
                            continue;
                        }
                        _ => t = LLVMGetElementType(t),
                    }
                }
                let sz = LLVMABISizeOfType(self.td, t);
                if !LLVMIsAConstantInt(o).is_null() {
                    let w = LLVMGetIntTypeWidth(LLVMTypeOf(o));
                    let k = crate::expr::sext(LLVMConstIntGetZExtValue(o), w);
                    off = off.wrapping_add((k as u64).wrapping_mul(sz));
                } else {
                    idx.push((o, sz));
                }
            }
            (off, idx)
        }
    }
    fn konst(&mut self, v: P) -> Val {
        unsafe {
            if !LLVMIsAConstantInt(v).is_null() {
                let w = LLVMGetIntTypeWidth(LLVMTypeOf(v));
                if w <= 64 {
                    return Val::C(LLVMConstIntGetZExtValue(v) & crate::expr::mask(w));
                }
                let s = print(v);
                let d = s.split_whitespace().last().unwrap();
                let x: i128 = d.parse().unwrap_or_else(|_| d.parse::<u128>().unwrap() as i128);
                let x = x as u128;
                let x = if w < 128 { x & ((1u128 << w) - 1) } else { x };
                return Val::W(Box::new(x));
            }
            if !LLVMIsAConstantFP(v).is_null() {
                let mut l: c_int = 0;
                let d = LLVMConstRealGetDouble(v, &mut l);
                return if LLVMGetTypeKind(LLVMTypeOf(v)) == TK_FLOAT {
                    Val::C((d as f32).to_bits() as u64)
                } else {
                    Val::C(d.to_bits())
                };
            }
            if !LLVMIsAConstantPointerNull(v).is_null() {
                return Val::C(0);
            }
            if !LLVMIsAUndefValue(v).is_null() || !LLVMIsAPoisonValue(v).is_null() || !LLVMIsAConstantAggregateZero(v).is_null() {
                return self.tyof(v).zero();
            }
            if let Some(f) = self.fid.get(&v) {
                return Val::C(F + *f as u64 * 16);
            }
            if let Some(a) = self.gaddr.get(&v) {
                return Val::C(*a);
            }
            if !LLVMIsAGlobalAlias(v).is_null() {
                let a = LLVMAliasGetAliasee(v);
                return self.konst(a);
            }
            if !LLVMIsAConstantDataSequential(v).is_null()
                || !LLVMIsAConstantStruct(v).is_null()
                || !LLVMIsAConstantArray(v).is_null()
                || !LLVMIsAConstantVector(v).is_null()
            {
                let t = LLVMTypeOf(v);
                let n = match LLVMGetTypeKind(t) {
                    TK_VECTOR => LLVMGetVectorSize(t) as u64,
                    TK_ARRAY => LLVMGetArrayLength2(t),
                    _ => LLVMCountStructElementTypes(t) as u64,
                };
                let mut r = vec![];
                for i in 0..n {
                    let e = LLVMGetAggregateElement(v, i as u32);
                    r.push(self.konst(e));
                }
                return Val::A(Arc::new(r));
            }
            if !LLVMIsAConstantExpr(v).is_null() {
                let op = LLVMGetConstOpcode(v);
                match op {
                    29 => {
                        let b = LLVMGetOperand(v, 0);
                        let base = self.c64(b);
                        let (off, idx) = self.gep_offset(v);
                        let mut a = base.wrapping_add(off);
                        for (o, s) in idx {
                            a = a.wrapping_add(self.c64(o).wrapping_mul(s));
                        }
                        return Val::C(a);
                    }
                    30 | 39 | 40 | 41 | 31 => {
                        let o = LLVMGetOperand(v, 0);
                        let x = self.c64(o);
                        if let Ty::I(w) = *self.tyof(v) {
                            if w > 64 {
                                return Val::W(Box::new(x as u128));
                            }
                            return Val::C(x & crate::expr::mask(w));
                        }
                        return Val::C(x);
                    }
                    8 | 10 | 12 | 25 => {
                        let a = LLVMGetOperand(v, 0);
                        let b = LLVMGetOperand(v, 1);
                        let (a, b) = (self.c64(a), self.c64(b));
                        return Val::C(match op {
                            8 => a.wrapping_add(b),
                            10 => a.wrapping_sub(b),
                            12 => a.wrapping_mul(b),
                            _ => a ^ b,
                        });
                    }
                    _ => panic!("constant expression {op}: {}", print(v)),
                }
            }
            panic!("constant: {}", print(v));
        }
    }
    fn c64(&mut self, v: P) -> u64 {
        match self.konst(v) {
            Val::C(x) => x,
            Val::W(x) => *x as u64,
            o => panic!("{o:?}"),
        }
    }
    fn write_init(&mut self, img: &mut [u8], off: u64, v: P) {
        unsafe {
            if !LLVMIsAConstantAggregateZero(v).is_null() || !LLVMIsAUndefValue(v).is_null() || !LLVMIsAPoisonValue(v).is_null() {
                return;
            }
            let t = LLVMTypeOf(v);
            match LLVMGetTypeKind(t) {
                TK_ARRAY => {
                    let et = LLVMGetElementType(t);
                    let sz = LLVMABISizeOfType(self.td, et);
                    if !LLVMIsAConstantDataSequential(v).is_null() && LLVMGetTypeKind(et) == TK_INT && sz == 1 {
                        let mut n = 0usize;
                        let p = LLVMGetRawDataValues(v, &mut n);
                        let n = LLVMGetArrayLength2(t) as usize;
                        img[off as usize..off as usize + n].copy_from_slice(std::slice::from_raw_parts(p as *const u8, n));
                        return;
                    }
                    for i in 0..LLVMGetArrayLength2(t) {
                        let e = LLVMGetAggregateElement(v, i as u32);
                        self.write_init(img, off + i * sz, e);
                    }
                }
                TK_STRUCT => {
                    for i in 0..LLVMCountStructElementTypes(t) {
                        let e = LLVMGetAggregateElement(v, i);
                        let o = LLVMOffsetOfElement(self.td, t, i);
                        self.write_init(img, off + o, e);
                    }
                }
                _ => {
                    let ty = self.ty(t);
                    let k = self.konst(v);
                    put(img, off, &ty, &k);
                }
            }
        }
    }
    fn ext(&mut self, n: &str) -> u32 {
        if let Some(i) = self.extmap.get(n) {
            return *i;
        }
        let i = self.exts.len() as u32;
        self.exts.push(n.to_string());
        self.extmap.insert(n.to_string(), i);
        i
    }

    fn func(&mut self, f: P) -> Func {
        let mut out = Func { name: name(f), ..Default::default() };
        unsafe {
            let mut regs: HashMap<P, Reg> = HashMap::new();
            let np = LLVMCountParams(f);
            out.nparams = np;
            for i in 0..np {
                regs.insert(LLVMGetParam(f, i), i);
            }
            let mut bb = LLVMGetFirstBasicBlock(f);
            if bb.is_null() {
                return out;
            }
            out.has_body = true;
            let mut nr = np;
            let mut bpc: HashMap<P, u32> = HashMap::new();
            let mut pc = 0u32;
            while !bb.is_null() {
                bpc.insert(bb, pc);
                let mut i = LLVMGetFirstInstruction(bb);
                while !i.is_null() {
                    regs.insert(i, nr);
                    nr += 1;
                    if LLVMGetInstructionOpcode(i) != 44 {
                        pc += if LLVMGetInstructionOpcode(i) == 5 { 2 } else { 1 };
                    }
                    i = LLVMGetNextInstruction(i);
                }
                bb = LLVMGetNextBasicBlock(bb);
            }
            out.nregs = nr;
            let mut bb = LLVMGetFirstBasicBlock(f);
            while !bb.is_null() {
                let mut i = LLVMGetFirstInstruction(bb);
                while !i.is_null() {
                    let op = LLVMGetInstructionOpcode(i);
                    if op != 44 {
                        self.inst(i, op, bb, &regs, &bpc, &mut out);
                    }
                    i = LLVMGetNextInstruction(i);
                }
                bb = LLVMGetNextBasicBlock(bb);
            }
            assert_eq!(out.code.len(), pc as usize);
        }
        out
    }
    fn opnd(&mut self, v: P, regs: &HashMap<P, Reg>) -> O {
        if let Some(r) = regs.get(&v) {
            return O::R(*r);
        }
        unsafe {
            if !LLVMIsAInlineAsm(v).is_null() {
                return O::C(0);
            }
            if LLVMIsConstant(v) == 0 {
                return O::C(0); // metadata operands
            }
        }
        match self.konst(v) {
            Val::C(k) => O::C(k),
            k => O::K(k),
        }
    }
    fn edge(&mut self, from: P, to: P, regs: &HashMap<P, Reg>, bpc: &HashMap<P, u32>, out: &mut Func) -> u32 {
        unsafe {
            let mut mv = vec![];
            let mut i = LLVMGetFirstInstruction(to);
            while !i.is_null() && LLVMGetInstructionOpcode(i) == 44 {
                for k in 0..LLVMCountIncoming(i) {
                    if LLVMGetIncomingBlock(i, k) == from {
                        let v = LLVMGetIncomingValue(i, k);
                        let o = self.opnd(v, regs);
                        mv.push((regs[&i], o));
                        break;
                    }
                }
                i = LLVMGetNextInstruction(i);
            }
            out.edges.push(Edge { pc: bpc[&to], mv: mv.into() });
            out.edges.len() as u32 - 1
        }
    }
    fn inst(&mut self, i: P, op: c_int, bb: P, regs: &HashMap<P, Reg>, bpc: &HashMap<P, u32>, out: &mut Func) {
        let d = regs[&i];
        let n = unsafe { LLVMGetNumOperands(i) } as u32;
        macro_rules! o {
            ($k:expr) => {{
                let v = unsafe { LLVMGetOperand(i, $k) };
                self.opnd(v, regs)
            }};
        }
        macro_rules! t {
            ($k:expr) => {{
                let v = unsafe { LLVMGetOperand(i, $k) };
                self.tyof(v)
            }};
        }
        let r = unsafe {
            match op {
                1 => I::Ret(if n == 0 { None } else { Some(o!(0)) }),
                7 => I::Unreachable,
                70 => I::Br(self.edge(bb, LLVMGetSuccessor(i, 0), regs, bpc, out)),
                71 => {
                    let c = o!(0);
                    let a = self.edge(bb, LLVMGetSuccessor(i, 0), regs, bpc, out);
                    let b = self.edge(bb, LLVMGetSuccessor(i, 1), regs, bpc, out);
                    I::CondBr(c, a, b)
                }
                3 => {
                    let c = o!(0);
                    let ty = t!(0);
                    let ns = LLVMGetNumSuccessors(i);
                    let dflt = self.edge(bb, LLVMGetSuccessor(i, 0), regs, bpc, out);
                    let mut cases = vec![];
                    let mut cache: HashMap<P, u32> = HashMap::new();
                    for k in 1..ns {
                        let v = LLVMGetSwitchCaseValue(i, k);
                        let kv = match self.konst(v) {
                            Val::C(x) => x,
                            Val::W(x) => *x as u64,
                            _ => unreachable!(),
                        };
                        let to = LLVMGetSuccessor(i, k);
                        let e = match cache.get(&to) {
                            Some(e) => *e,
                            None => {
                                let e = self.edge(bb, to, regs, bpc, out);
                                cache.insert(to, e);
                                e
                            }
                        };
                        cases.push((kv, e));
                    }
                    I::Switch(c, ty.scalar_w().unwrap(), dflt, cases.into())
                }
                8..=25 => {
                    let b = match op {
                        8 => B::Add,
                        9 => B::FAdd,
                        10 => B::Sub,
                        11 => B::FSub,
                        12 => B::Mul,
                        13 => B::FMul,
                        14 => B::UDiv,
                        15 => B::SDiv,
                        16 => B::FDiv,
                        17 => B::URem,
                        18 => B::SRem,
                        19 => B::FRem,
                        20 => B::Shl,
                        21 => B::LShr,
                        22 => B::AShr,
                        23 => B::And,
                        24 => B::Or,
                        _ => B::Xor,
                    };
                    let ty = self.tyof(i);
                    let (x, y) = (o!(0), o!(1));
                    match *ty {
                        Ty::I(w) if w <= 64 => I::Bin(b, w, d, x, y),
                        _ => I::BinX(b, ty, d, x, y),
                    }
                }
                26 => {
                    let t = LLVMGetAllocatedType(i);
                    let sz = LLVMABISizeOfType(self.td, t);
                    let al = LLVMGetAlignment(i).max(1) as u64;
                    I::Alloca(d, sz, al, o!(0))
                }
                27 => {
                    let ty = self.tyof(i);
                    match *ty {
                        Ty::I(w) if w <= 64 && w % 8 == 0 => I::Load(w, d, o!(0)),
                        Ty::F64 => I::Load(64, d, o!(0)),
                        Ty::F32 => I::Load(32, d, o!(0)),
                        _ => I::LoadX(ty, d, o!(0)),
                    }
                }
                28 => {
                    let ty = t!(0);
                    let (v, p) = (o!(0), o!(1));
                    match *ty {
                        Ty::I(w) if w <= 64 && w % 8 == 0 => I::Store(w, v, p),
                        Ty::F64 => I::Store(64, v, p),
                        Ty::F32 => I::Store(32, v, p),
                        _ => I::StoreX(ty, v, p),
                    }
                }
                29 => {
                    if let Ty::Vec(..) = *self.tyof(i) {
                        I::Bad(print(i).into())
                    } else {
                        let (off, idx) = self.gep_offset(i);
                        let base = o!(0);
                        let idx: Vec<GepIdx> = idx
                            .into_iter()
                            .map(|(p, scale)| {
                                let w = self.tyof(p).scalar_w().unwrap();
                                GepIdx { o: self.opnd(p, regs), scale, w }
                            })
                            .collect();
                        I::Gep(d, base, off, idx.into())
                    }
                }
                30..=41 | 60 | 69 => {
                    let (ft, tt) = (t!(0), self.tyof(i));
                    let c = match op {
                        30 => Cast::Trunc,
                        31 => Cast::ZExt,
                        32 => Cast::SExt,
                        33 => Cast::FPToUI,
                        34 => Cast::FPToSI,
                        35 => Cast::UIToFP,
                        36 => Cast::SIToFP,
                        37 => Cast::FPTrunc,
                        38 => Cast::FPExt,
                        _ => Cast::Mov,
                    };
                    let x = o!(0);
                    match (&*ft, &*tt) {
                        (Ty::I(a), Ty::I(b)) if *a <= 64 && *b <= 64 => {
                            if c == Cast::Mov {
                                I::Mov(d, x)
                            } else {
                                I::Cast(c, *a, *b, d, x)
                            }
                        }
                        _ if op == 41 => {
                            if ft.scalar_w().is_some() && ft.scalar_w() == tt.scalar_w() {
                                I::Mov(d, x)
                            } else {
                                I::BitX(ft, tt, d, x)
                            }
                        }
                        _ if c == Cast::Mov => I::Mov(d, x),
                        _ => I::CastX(c, ft, tt, d, x),
                    }
                }
                42 => {
                    let p = LLVMGetICmpPredicate(i);
                    let ty = t!(0);
                    let (x, y) = (o!(0), o!(1));
                    match *ty {
                        Ty::I(w) if w <= 64 => I::Cmp(p, w, d, x, y),
                        _ => I::CmpX(p, ty, d, x, y),
                    }
                }
                43 => I::FCmp(LLVMGetFCmpPredicate(i), t!(0), d, o!(0), o!(1)),
                45 | 5 => {
                    let cv = LLVMGetCalledValue(i);
                    let na = LLVMGetNumArgOperands(i);
                    let mut args = vec![];
                    let mut tys = vec![];
                    for k in 0..na {
                        let a = LLVMGetOperand(i, k);
                        args.push(self.opnd(a, regs));
                        tys.push(self.tyof(a));
                    }
                    let ty = self.tyof(i);
                    let mut target = cv;
                    if !LLVMIsAGlobalAlias(target).is_null() {
                        target = LLVMAliasGetAliasee(target);
                    }
                    let r = if !LLVMIsAFunction(target).is_null() {
                        let nm = name(target);
                        if nm.starts_with("llvm.lifetime")
                            || nm.starts_with("llvm.dbg")
                            || nm.starts_with("llvm.experimental.noalias")
                            || nm.starts_with("llvm.assume")
                            || nm.starts_with("llvm.invariant")
                            || nm.starts_with("llvm.prefetch")
                        {
                            I::Nop
                        } else if LLVMIsDeclaration(target) != 0 || intercepted(&nm) {
                            let e = self.ext(&nm);
                            I::Call(Callee::Ext(e), d, args.into(), ty, tys.into())
                        } else {
                            let f = self.fid[&target];
                            I::Call(Callee::Fn(f), d, args.into(), ty, tys.into())
                        }
                    } else if !LLVMIsAInlineAsm(cv).is_null() {
                        I::Nop
                    } else {
                        let p = self.opnd(cv, regs);
                        I::Call(Callee::Ptr(p), d, args.into(), ty, tys.into())
                    };
                    if op == 5 {
                        out.code.push(r);
                        let nd = LLVMGetNormalDest(i);
                        I::Br(self.edge(bb, nd, regs, bpc, out))
                    } else {
                        r
                    }
                }
                46 => {
                    let ty = t!(0);
                    if let Ty::Vec(..) = *ty {
                        I::Sel(ty, d, o!(0), o!(1), o!(2))
                    } else {
                        let ty = self.tyof(i);
                        // scalar condition: mark with the value type unless it is itself a vector
                        I::Sel(Arc::new(Ty::Agg(vec![(0, (*ty).clone())], 0)), d, o!(0), o!(1), o!(2))
                    }
                }
                50 => I::ExtractE(d, o!(0), o!(1)),
                51 => I::InsertE(d, o!(0), o!(1), o!(2)),
                52 => {
                    let nm = LLVMGetNumMaskElements(i);
                    let m: Vec<i32> = (0..nm).map(|k| LLVMGetMaskValue(i, k)).collect();
                    I::Shuffle(d, o!(0), o!(1), m.into())
                }
                53 => {
                    let k = LLVMGetNumIndices(i) as usize;
                    let ix = std::slice::from_raw_parts(LLVMGetIndices(i), k).to_vec();
                    I::ExtractV(d, o!(0), ix.into())
                }
                54 => {
                    let k = LLVMGetNumIndices(i) as usize;
                    let ix = std::slice::from_raw_parts(LLVMGetIndices(i), k).to_vec();
                    I::InsertV(d, o!(0), o!(1), ix.into())
                }
                55 => I::Nop,
                56 => {
                    let w = t!(1).scalar_w().unwrap();
                    I::CmpXchg(w, d, o!(0), o!(1), o!(2))
                }
                57 => {
                    let w = t!(1).scalar_w().unwrap();
                    I::Rmw(LLVMGetAtomicRMWBinOp(i), w, d, o!(0), o!(1))
                }
                66 => I::FNeg(self.tyof(i), d, o!(0)),
                68 => I::Mov(d, o!(0)),
                _ => I::Bad(format!("opcode {op}").into()),
            }
        };
        out.code.push(r);
    }
}

pub fn put(img: &mut [u8], off: u64, ty: &Ty, v: &Val) {
    match (ty, v) {
        (Ty::Vec(_, t), Val::A(xs)) => {
            let s = t.size();
            for (i, x) in xs.iter().enumerate() {
                put(img, off + i as u64 * s, t, x);
            }
        }
        (Ty::Agg(f, _), Val::A(xs)) => {
            for ((o, t), x) in f.iter().zip(xs.iter()) {
                put(img, off + o, t, x);
            }
        }
        (_, Val::C(k)) => {
            let n = ty.size() as usize;
            let b = k.to_le_bytes();
            for i in 0..n.min(8) {
                img[off as usize + i] = b[i];
            }
        }
        (_, Val::W(k)) => {
            let n = ty.size() as usize;
            img[off as usize..off as usize + n].copy_from_slice(&k.to_le_bytes()[..n]);
        }
        _ => panic!("put"),
    }
}

pub fn load(path: &str) -> Program {
    let m = parse(path);
    unsafe {
        let td = LLVMGetModuleDataLayout(m);
        let mut d = Dec {
            m,
            td,
            gaddr: HashMap::new(),
            fid: HashMap::new(),
            exts: vec![],
            extmap: HashMap::new(),
            tys: HashMap::new(),
        };
        let _ = d.m;
        let mut fs = vec![];
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            d.fid.insert(f, fs.len() as u32);
            fs.push(f);
            f = LLVMGetNextFunction(f);
        }
        let mut g = LLVMGetFirstGlobal(m);
        let mut top = 64u64;
        let mut gs = vec![];
        while !g.is_null() {
            let t = LLVMGlobalGetValueType(g);
            let sz = LLVMABISizeOfType(td, t).max(1);
            let al = LLVMABIAlignmentOfType(td, t).max(LLVMGetAlignment(g)).max(16) as u64;
            top = (top + al - 1) / al * al;
            d.gaddr.insert(g, G + top);
            gs.push((g, top));
            top += sz + 16;
            g = LLVMGetNextGlobal(g);
        }
        let mut image = vec![0u8; top as usize + 64];
        for (g, off) in gs {
            let i = LLVMGetInitializer(g);
            if !i.is_null() {
                d.write_init(&mut image, off, i);
            }
        }
        let mut funcs = vec![];
        let mut by_name = HashMap::new();
        for (k, f) in fs.iter().enumerate() {
            let nm = name(*f);
            by_name.insert(nm.clone(), k as u32);
            if LLVMIsDeclaration(*f) != 0 || intercepted(&nm) {
                d.ext(&nm);
                funcs.push(Func { name: nm, nparams: LLVMCountParams(*f), ..Default::default() });
            } else {
                funcs.push(d.func(*f));
            }
        }
        Program { funcs, by_name, image, exts: d.exts }
    }
}

/// Prepares a raw (post-LTO, unoptimised) module: hash functions become engine externals, only
/// `roots` stay visible, then functions are inlined and simplified.
pub fn prep(inp: &str, out: &str, roots: &[String], stub_hash: bool) {
    let m = parse(inp);
    unsafe {
        let mut f = LLVMGetFirstFunction(m);
        let mut victims = vec![];
        while !f.is_null() {
            let next = LLVMGetNextFunction(f);
            let nm = name(f);
            for k in ["target-features", "target-cpu", "tune-cpu"] {
                LLVMRemoveStringAttributeAtIndex(f, !0, k.as_ptr() as *const _, k.len() as u32);
            }
            if LLVMIsDeclaration(f) == 0 {
                if stub_hash {
                    if let Some(kind) = hash_stub(&nm) {
                        victims.push((f, kind));
                    }
                }
                // InternalLinkage = 8, ExternalLinkage = 0
                if roots.iter().any(|r| *r == nm) {
                    LLVMSetLinkage(f, 0);
                } else if !intercepted(&nm) {
                    LLVMSetLinkage(f, 8);
                }
            }
            f = next;
        }
        let mut g = LLVMGetFirstGlobal(m);
        while !g.is_null() {
            if LLVMIsDeclaration(g) == 0 && LLVMGetLinkage(g) != 1 {
                if !name(g).starts_with("llvm.") {
                    LLVMSetLinkage(g, 8);
                }
            }
            if name(g) == "llvm.used" || name(g) == "llvm.compiler.used" || name(g) == "llvm.global_ctors" {
                let n = LLVMGetNextGlobal(g);
                LLVMDeleteGlobal(g);
                g = n;
                continue;
            }
            g = LLVMGetNextGlobal(g);
        }
        for (k, (f, kind)) in victims.into_iter().enumerate() {
            let ft = LLVMGlobalGetValueType(f);
            let nm = std::ffi::CString::new(format!("__symex_{kind}_{k}")).unwrap();
            let nf = LLVMAddFunction(m, nm.as_ptr(), ft);
            LLVMReplaceAllUsesWith(f, nf);
            LLVMDeleteFunction(f);
        }
        let o = LLVMCreatePassBuilderOptions();
        LLVMPassBuilderOptionsSetLoopVectorization(o, 0);
        LLVMPassBuilderOptionsSetSLPVectorization(o, 0);
        LLVMPassBuilderOptionsSetLoopUnrolling(o, 0);
        let p = std::ffi::CString::new(std::env::var("SYMEX_PASSES").unwrap_or("globaldce,cgscc(inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)),globaldce".into())).unwrap();
        let e = LLVMRunPasses(m, p.as_ptr(), std::ptr::null_mut(), o);
        if !e.is_null() {
            panic!("{}", CStr::from_ptr(LLVMGetErrorMessage(e)).to_string_lossy());
        }
        let c = std::ffi::CString::new(out).unwrap();
        assert_eq!(LLVMWriteBitcodeToFile(m, c.as_ptr()), 0);
    }
}

fn hash_stub(n: &str) -> Option<&'static str> {
    let self_ok = (n.contains("13DefaultHasherNt") || n.contains("7AHasherNt")) && (n.starts_with("_RNvX") || n.starts_with("_RNvY"));
    if !self_ok {
        return None;
    }
    let p = n.find("4core4hash6Hasher")?;
    let m = &n[p + "4core4hash6Hasher".len()..];
    // the self type must come before the trait path
    let me = n.find("13DefaultHasherNt").or(n.find("7AHasherNt"))?;
    if me > p {
        return None;
    }
    let m = m.trim_start_matches(|c: char| c.is_ascii_digit());
    if m.starts_with("finish") {
        Some("hash_finish")
    } else if m.starts_with("write") {
        Some("hash_write")
    } else {
        None
    }
}
