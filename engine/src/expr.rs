//! Hash-consed bit-vector terms (width <= 64) with local simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract,
    Concat,
    Not,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
}

pub type Bits = [u64; 4];

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    pub vs: Vec<u32>,
    map: HashMap<Node, E, Fx>,
    pub sets: Vec<Box<[u16]>>,
    setmap: HashMap<Box<[u16]>, u32>,
    unions: HashMap<(u32, u32), u32, Fx>,
    truth: HashMap<E, Bits, Fx>,
    memo: Vec<(u32, u64)>,
    stamp: u32,
}

#[derive(Default, Clone)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        let x = self.0;
        x ^ (x >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

#[inline]
pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn sext(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub fn binop(op: Op, w: u32, a: u64, b: u64) -> u64 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u64
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u64
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sext(a, w);
            (x >> b.min(w as u64 - 1).min(63)) as u64
        }
        Op::Eq => return (a == b) as u64,
        Op::Ult => return (a < b) as u64,
        Op::Ule => return (a <= b) as u64,
        Op::Slt => return (sext(a, w) < sext(b, w)) as u64,
        Op::Sle => return (sext(a, w) <= sext(b, w)) as u64,
        _ => unreachable!(),
    };
    r & m
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena::default();
        a.sets.push(Box::new([]));
        a.setmap.insert(Box::new([]), 0);
        a.c(0, 1); // id 0 is reserved: "no symbolic byte" in memory
        a
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn konst(&self, e: E) -> Option<u64> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn vars(&self, e: E) -> &[u16] {
        &self.sets[self.vs[e as usize] as usize]
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = (a.min(b), a.max(b));
        if let Some(r) = self.unions.get(&key) {
            return *r;
        }
        let mut v: Vec<u16> = self.sets[a as usize].iter().chain(self.sets[b as usize].iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        let v: Box<[u16]> = v.into();
        let r = self.intern_set(v);
        self.unions.insert(key, r);
        r
    }
    fn intern_set(&mut self, v: Box<[u16]>) -> u32 {
        if let Some(r) = self.setmap.get(&v) {
            return *r;
        }
        let id = self.sets.len() as u32;
        self.sets.push(v.clone());
        self.setmap.insert(v, id);
        id
    }
    fn raw(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let id = self.nodes.len() as E;
        let vs = match n.op {
            Op::Const => 0,
            Op::Var => self.intern_set(Box::new([n.k as u16])),
            Op::ZExt | Op::SExt | Op::Extract | Op::Not => self.vs[n.a as usize],
            Op::Ite => {
                let u = self.union(self.vs[n.a as usize], self.vs[n.b as usize]);
                self.union(u, self.vs[n.c as usize])
            }
            _ => self.union(self.vs[n.a as usize], self.vs[n.b as usize]),
        };
        self.nodes.push(n);
        self.vs.push(vs);
        self.map.insert(n, id);
        id
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u64) -> E {
        self.raw(Node { op, w: w as u8, a, b, c, k })
    }
    pub fn c(&mut self, k: u64, w: u32) -> E {
        self.mk(Op::Const, w, 0, 0, 0, k & mask(w))
    }
    pub fn var(&mut self, i: u16) -> E {
        self.mk(Op::Var, 8, 0, 0, 0, i as u64)
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.op {
            Op::Const => self.c(!n.k, n.w as u32),
            Op::Not => n.a,
            _ => self.mk(Op::Not, n.w as u32, a, 0, 0, 0),
        }
    }
    fn ite_const_leaves(&self, e: E) -> Option<(E, u64, u64)> {
        let n = self.n(e);
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.konst(n.b), self.konst(n.c)) {
                return Some((n.a, x, y));
            }
        }
        None
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        use Op::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{op:?}");
        let rw = match op {
            Eq | Ult | Ule | Slt | Sle => 1,
            _ => w,
        };
        let (mut ka, mut kb) = (self.konst(a), self.konst(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.c(binop(op, w, x, y), rw);
        }
        // constants on the right for commutative operators
        if matches!(op, Add | Mul | And | Or | Xor | Eq) && ka.is_some() {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ka, &mut kb);
        }
        if let (Some(y), Some((c, k1, k2))) = (kb, self.ite_const_leaves(a)) {
            let x1 = self.c(binop(op, w, k1, y), rw);
            let x2 = self.c(binop(op, w, k2, y), rw);
            return self.ite(c, x1, x2);
        }
        if let (Some(y), Some((c, k1, k2))) = (ka, self.ite_const_leaves(b)) {
            let x1 = self.c(binop(op, w, y, k1), rw);
            let x2 = self.c(binop(op, w, y, k2), rw);
            return self.ite(c, x1, x2);
        }
        if matches!(op, Add | Mul | And | Or | Xor | Eq) && kb.is_none() && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let na = self.n(a);
        let nb = self.n(b);
        let m = mask(w);
        match op {
            Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Add {
                        if let Some(k2) = self.konst(na.b) {
                            let s = self.c(k.wrapping_add(k2), w);
                            return self.bin(Add, na.a, s);
                        }
                    }
                }
            }
            Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(k) = kb {
                    let nk = self.c(k.wrapping_neg(), w);
                    return self.bin(Add, a, nk);
                }
            }
            Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u64, w);
                        return self.bin(Shl, a, s);
                    }
                }
            }
            UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u64, w);
                        return self.bin(LShr, a, s);
                    }
                }
            }
            URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k - 1, w);
                        return self.bin(And, a, s);
                    }
                }
            }
            And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    if na.op == And {
                        if let Some(k2) = self.konst(na.b) {
                            let s = self.c(k & k2, w);
                            return self.bin(And, na.a, s);
                        }
                    }
                    if na.op == ZExt {
                        let iw = self.w(na.a);
                        let kk = self.c(k, iw);
                        let x = self.bin(And, na.a, kk);
                        return self.zext(x, w);
                    }
                    if (k + 1).is_power_of_two() {
                        let lo = (k + 1).trailing_zeros();
                        let x = self.extract(a, lo - 1, 0);
                        return self.zext(x, w);
                    }
                }
                if w == 1 && ((na.op == Not && na.a == b) || (nb.op == Not && nb.a == a)) {
                    return self.c(0, 1);
                }
            }
            Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if w == 1 && ((na.op == Not && na.a == b) || (nb.op == Not && nb.a == a)) {
                    return self.c(1, 1);
                }
                // disjoint merge: (x ++ 0_k) | zext(y) with y.w <= k
                for (x, y) in [(na, nb), (nb, na)] {
                    if x.op == Concat && self.konst(x.b) == Some(0) && y.op == ZExt {
                        let k = self.w(x.b);
                        if self.w(y.a) <= k {
                            let lo = self.zext(y.a, k);
                            return self.concat(x.a, lo);
                        }
                    }
                }
            }
            Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return self.not(a);
                    }
                    if na.op == Xor {
                        if let Some(k2) = self.konst(na.b) {
                            let s = self.c(k ^ k2, w);
                            return self.bin(Xor, na.a, s);
                        }
                    }
                }
            }
            Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u64 {
                        return self.c(0, w);
                    }
                    let k = k as u32;
                    let hi = self.extract(a, w - 1 - k, 0);
                    let z = self.c(0, k);
                    return self.concat(hi, z);
                }
            }
            LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u64 {
                        return self.c(0, w);
                    }
                    let x = self.extract(a, w - 1, k as u32);
                    return self.zext(x, w);
                }
                if ka == Some(0) {
                    return a;
                }
            }
            AShr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    let k = k.min(w as u64 - 1) as u32;
                    let x = self.extract(a, w - 1, k);
                    return self.sext(x, w);
                }
            }
            Eq => {
                if a == b {
                    return self.c(1, 1);
                }
                if let Some(k) = kb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.c(0, 1);
                            }
                            let kk = self.c(k, iw);
                            return self.bin(Eq, na.a, kk);
                        }
                        SExt => {
                            let iw = self.w(na.a);
                            let t = k & mask(iw);
                            if sext(t, iw) as u64 & m != k {
                                return self.c(0, 1);
                            }
                            let kk = self.c(t, iw);
                            return self.bin(Eq, na.a, kk);
                        }
                        Concat => {
                            let lw = self.w(na.b);
                            let kh = self.c(k >> lw, w - lw);
                            let kl = self.c(k, lw);
                            let x = self.bin(Eq, na.a, kh);
                            if self.konst(x) == Some(0) {
                                return x;
                            }
                            let y = self.bin(Eq, na.b, kl);
                            return self.bin(And, x, y);
                        }
                        Add => {
                            if let Some(k2) = self.konst(na.b) {
                                let kk = self.c(k.wrapping_sub(k2), w);
                                return self.bin(Eq, na.a, kk);
                            }
                        }
                        Xor => {
                            if let Some(k2) = self.konst(na.b) {
                                let kk = self.c(k ^ k2, w);
                                return self.bin(Eq, na.a, kk);
                            }
                            if k == 0 {
                                return self.bin(Eq, na.a, na.b);
                            }
                        }
                        Not => {
                            let kk = self.c(!k, w);
                            return self.bin(Eq, na.a, kk);
                        }
                        Or if k == 0 => {
                            let z = self.c(0, w);
                            let x = self.bin(Eq, na.a, z);
                            let y = self.bin(Eq, na.b, z);
                            return self.bin(And, x, y);
                        }
                        Ite => {
                            // one constant leaf that differs / equals
                            if let Some(kx) = self.konst(na.b) {
                                let y = self.bin(Eq, na.c, b);
                                return if kx == k {
                                    self.bin(Or, na.a, y)
                                } else {
                                    let nc = self.not(na.a);
                                    self.bin(And, nc, y)
                                };
                            }
                            if let Some(ky) = self.konst(na.c) {
                                let x = self.bin(Eq, na.b, b);
                                return if ky == k {
                                    let nc = self.not(na.a);
                                    self.bin(Or, nc, x)
                                } else {
                                    self.bin(And, na.a, x)
                                };
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == Concat && nb.op == Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.bin(Eq, na.a, nb.a);
                        let y = self.bin(Eq, na.b, nb.b);
                        return self.bin(And, x, y);
                    }
                    if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Eq, na.a, nb.a);
                    }
                }
            }
            Ult => {
                if a == b || kb == Some(0) || ka == Some(m) {
                    return self.c(0, 1);
                }
                if kb == Some(1) {
                    let z = self.c(0, w);
                    return self.bin(Eq, a, z);
                }
                if let Some(k) = kb {
                    if na.op == ZExt {
                        let iw = self.w(na.a);
                        if k > mask(iw) {
                            return self.c(1, 1);
                        }
                        let kk = self.c(k, iw);
                        return self.bin(Ult, na.a, kk);
                    }
                }
                if let Some(k) = ka {
                    if nb.op == ZExt {
                        let iw = self.w(nb.a);
                        if k >= mask(iw) {
                            return self.c(0, 1);
                        }
                        let kk = self.c(k, iw);
                        return self.bin(Ult, kk, nb.a);
                    }
                }
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Ult, na.a, nb.a);
                }
            }
            Ule => {
                let x = self.bin(Ult, b, a);
                return self.not(x);
            }
            Slt => {
                if a == b {
                    return self.c(0, 1);
                }
                let nonneg = |s: &Self, n: Node, k: Option<u64>| match k {
                    Some(k) => sext(k, w) >= 0,
                    None => n.op == ZExt && s.w(n.a) < w,
                };
                let (pa, pb) = (nonneg(self, na, ka), nonneg(self, nb, kb));
                if pa && pb {
                    return self.bin(Ult, a, b);
                }
                if pa && kb.is_some() {
                    return self.c(0, 1);
                }
                if pb && ka.is_some() {
                    return self.c(1, 1);
                }
                if kb == Some(0) {
                    return self.extract(a, w - 1, w - 1);
                }
                if kb == Some(m) {
                    // a < -1
                }
                if ka == Some(m) {
                    let s = self.extract(b, w - 1, w - 1);
                    return self.not(s);
                }
                if na.op == SExt && nb.op == SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Slt, na.a, nb.a);
                }
            }
            Sle => {
                let x = self.bin(Slt, b, a);
                return self.not(x);
            }
            _ => {}
        }
        self.mk(op, rw, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        debug_assert_eq!(self.w(a), self.w(b));
        if let Some(k) = self.konst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.konst(a), self.konst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(0), _) => {
                    let x = self.not(c);
                    return self.bin(Op::And, x, b);
                }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(1)) => {
                    let x = self.not(c);
                    return self.bin(Op::Or, x, a);
                }
                _ => {}
            }
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Op::Const => self.c(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.konst(n.b).is_some() && self.konst(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.mk(Op::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Op::Const => self.c(sext(n.k, n.w as u32) as u64, w),
            Op::ZExt => self.zext(n.a, w),
            Op::SExt => self.sext(n.a, w),
            Op::Ite if self.konst(n.b).is_some() && self.konst(n.c).is_some() => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.mk(Op::SExt, w, a, 0, 0, 0),
        }
    }
    pub fn extract(&mut self, a: E, hi: u32, lo: u32) -> E {
        let n = self.n(a);
        let w = n.w as u32;
        let rw = hi - lo + 1;
        if rw == w {
            return a;
        }
        match n.op {
            Op::Const => self.c(n.k >> lo, rw),
            Op::Extract => self.extract(n.a, hi + n.k as u32, lo + n.k as u32),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.c(0, rw)
                } else if hi < iw {
                    self.extract(n.a, hi, lo)
                } else {
                    let x = self.extract(n.a, iw - 1, lo);
                    self.zext(x, rw)
                }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    self.extract(n.a, hi, lo)
                } else if lo < iw {
                    let x = self.extract(n.a, iw - 1, lo);
                    self.sext(x, rw)
                } else {
                    let x = self.extract(n.a, iw - 1, iw - 1);
                    self.sext(x, rw)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if hi < lw {
                    self.extract(n.b, hi, lo)
                } else if lo >= lw {
                    self.extract(n.a, hi - lw, lo - lw)
                } else {
                    let x = self.extract(n.a, hi - lw, 0);
                    let y = self.extract(n.b, lw - 1, lo);
                    self.concat(x, y)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                self.bin(n.op, x, y)
            }
            Op::Not => {
                let x = self.extract(n.a, hi, lo);
                self.not(x)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                self.bin(n.op, x, y)
            }
            Op::Ite => {
                let x = self.extract(n.b, hi, lo);
                let y = self.extract(n.c, hi, lo);
                self.ite(n.a, x, y)
            }
            _ => self.mk(Op::Extract, rw, a, 0, 0, lo as u64),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (self.n(h), self.n(l));
        let w = (nh.w + nl.w) as u32;
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.c((nh.k << nl.w) | nl.k, w);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(l, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u64 {
            let base = nh.a;
            return self.extract(base, nh.k as u32 + nh.w as u32 - 1, nl.k as u32);
        }
        // extract(x) ++ (extract(x) ++ y)
        if nl.op == Op::Concat && nh.op == Op::Extract {
            let m = self.n(nl.a);
            if m.op == Op::Extract && m.a == nh.a && nh.k == m.k + m.w as u64 {
                let x = self.concat(h, nl.a);
                return self.concat(x, nl.b);
            }
        }
        if nh.op == Op::ZExt {
            // zext(x) ++ l = zext(x ++ l)
            let x = self.concat(nh.a, l);
            return self.zext(x, w);
        }
        // keep right-nested
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, l);
            return self.concat(nh.a, r);
        }
        // ite leaves with the same condition
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        if nh.op == Op::Const && nl.op == Op::Ite {
            let x = self.concat(h, nl.b);
            let y = self.concat(h, nl.c);
            return self.ite(nl.a, x, y);
        }
        self.mk(Op::Concat, w, h, l, 0, 0)
    }

    /// Evaluates a term under an assignment of the variables.
    pub fn eval(&mut self, e: E, env: &[u8]) -> u64 {
        self.stamp += 1;
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, (0, 0));
        }
        self.eval_rec(e, env)
    }
    fn eval_rec(&mut self, e: E, env: &[u8]) -> u64 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return env.get(n.k as usize).copied().unwrap_or(0) as u64,
            _ => {}
        }
        let m = self.memo[e as usize];
        if m.0 == self.stamp {
            return m.1;
        }
        let w = n.w as u32;
        let r = match n.op {
            Op::Ite => {
                if self.eval_rec(n.a, env) == 1 {
                    self.eval_rec(n.b, env)
                } else {
                    self.eval_rec(n.c, env)
                }
            }
            Op::ZExt => self.eval_rec(n.a, env),
            Op::SExt => {
                let iw = self.w(n.a);
                sext(self.eval_rec(n.a, env), iw) as u64 & mask(w)
            }
            Op::Extract => (self.eval_rec(n.a, env) >> n.k) & mask(w),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.eval_rec(n.a, env) << lw) | self.eval_rec(n.b, env)
            }
            Op::Not => !self.eval_rec(n.a, env) & mask(w),
            op => {
                let aw = self.w(n.a);
                let a = self.eval_rec(n.a, env);
                let b = self.eval_rec(n.b, env);
                binop(op, aw, a, b)
            }
        };
        self.memo[e as usize] = (self.stamp, r);
        r
    }
    /// Truth table of a single-variable boolean term.
    pub fn truth(&mut self, e: E) -> Bits {
        if let Some(b) = self.truth.get(&e) {
            return *b;
        }
        let n = self.n(e);
        let b = match n.op {
            Op::Not => {
                let x = self.truth(n.a);
                [!x[0], !x[1], !x[2], !x[3]]
            }
            Op::And | Op::Or => {
                // both operands only mention the same variable (or are constants)
                let x = self.truth(n.a);
                let y = self.truth(n.b);
                let mut r = [0; 4];
                for i in 0..4 {
                    r[i] = if n.op == Op::And { x[i] & y[i] } else { x[i] | y[i] };
                }
                r
            }
            _ => {
                let v = self.vars(e).first().copied().unwrap_or(0) as usize;
                let mut env = vec![0u8; v + 1];
                let mut r = [0u64; 4];
                for k in 0..256usize {
                    env[v] = k as u8;
                    if self.eval(e, &env) == 1 {
                        r[k / 64] |= 1 << (k % 64);
                    }
                }
                r
            }
        };
        self.truth.insert(e, b);
        b
    }
    pub fn show(&self, e: E) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a)),
            Op::Not => format!("!({})", self.show(n.a)),
            Op::Extract => format!("{}[{}..{}]", self.show(n.a), n.k + n.w as u64 - 1, n.k),
            Op::Ite => format!("({}?{}:{})", self.show(n.a), self.show(n.b), self.show(n.c)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a), self.show(n.b)),
        }
    }
}
