//! Expressions over symbolic input bytes.
//!
//! A symbol is one byte.  Every expression whose support is a single symbol is
//! also tabulated over all 256 values of that symbol ("Tab"), which makes branch
//! verdicts over it immediate; the verdict is then confirmed by Z3 on the
//! structural expression (see solver.rs).
use std::collections::HashMap;

pub type Eid = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Op {
    Const, Sym, Lookup, // leaves
    Mov,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ne, Ult, Ule, Slt, Sle,
    Trunc, SExt,
    UMin, UMax, SMin, SMax, USubSat, UAddSat, SSubSat, SAddSat,
    UAddOv, USubOv, UMulOv, SAddOv, SSubOv, SMulOv,
    CtPop, Ctlz, Cttz, BSwap, BitRev, Abs, UCmp, SCmp,
    Select, FshL, FshR, MulHi, Shl128Hi, Shr128Lo, Sar128Lo,
    FAdd, FSub, FMul, FDiv, FRem, FCmp, FNeg, FAbs, FMax, FMin, FFloor, FCeil, FTrunc, FRint,
    UIToFP, SIToFP, FPToUI, FPToSI, FExt32, FTrunc64,
    Cat, Extr,
}
use Op::*;

#[inline(always)]
pub fn mask(w: u8) -> u64 {
    if w >= 64 { !0 } else { (1u64 << w) - 1 }
}
#[inline(always)]
pub fn sext(v: u64, w: u8) -> i64 {
    if w >= 64 { v as i64 } else { let s = 64 - w as u32; ((v << s) as i64) >> s }
}

/// Width of the result. `p` is the third (constant) argument for ops that need one.
pub fn wout(op: Op, w: u8, p: u64) -> u8 {
    match op {
        Eq | Ne | Ult | Ule | Slt | Sle | UAddOv | USubOv | UMulOv | SAddOv | SSubOv | SMulOv | FCmp => 1,
        SExt => p as u8,
        UCmp | SCmp => p as u8,
        UIToFP | SIToFP => 64,
        FPToUI | FPToSI => p as u8,
        FExt32 => 64,
        FTrunc64 => 32,
        _ => w,
    }
}

#[inline(always)]
fn f(x: u64, w: u8) -> f64 {
    if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) }
}
#[inline(always)]
fn r(x: f64, w: u8) -> u64 {
    if w == 32 { (x as f32).to_bits() as u64 } else { x.to_bits() }
}

/// Concrete semantics. Operands are zero-extended values of width `w`.
#[inline]
pub fn eval_op(op: Op, w: u8, a: u64, b: u64, c: u64) -> u64 {
    let m = mask(w);
    match op {
        Const | Sym | Lookup => unreachable!(),
        Mov => a,
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        UDiv => if b == 0 { 0 } else { a / b },
        URem => if b == 0 { 0 } else { a % b },
        SDiv => if b == 0 { 0 } else { (sext(a, w).wrapping_div(sext(b, w)) as u64) & m },
        SRem => if b == 0 { 0 } else { (sext(a, w).wrapping_rem(sext(b, w)) as u64) & m },
        Shl => if b >= w as u64 { 0 } else { (a << b) & m },
        LShr => if b >= w as u64 { 0 } else { a >> b },
        AShr => (sext(a, w) >> b.min(63)) as u64 & m,
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Eq => (a == b) as u64,
        Ne => (a != b) as u64,
        Ult => (a < b) as u64,
        Ule => (a <= b) as u64,
        Slt => (sext(a, w) < sext(b, w)) as u64,
        Sle => (sext(a, w) <= sext(b, w)) as u64,
        Trunc => a & m,
        SExt => sext(a, w) as u64 & mask(c as u8),
        UMin => a.min(b),
        UMax => a.max(b),
        SMin => if sext(a, w) < sext(b, w) { a } else { b },
        SMax => if sext(a, w) > sext(b, w) { a } else { b },
        USubSat => a.saturating_sub(b),
        UAddSat => { let s = a as u128 + b as u128; if s > m as u128 { m } else { s as u64 } }
        SSubSat | SAddSat => {
            let (x, y) = (sext(a, w) as i128, sext(b, w) as i128);
            let s = if op == SAddSat { x + y } else { x - y };
            let hi = (m >> 1) as i128;
            let lo = -hi - 1;
            (s.clamp(lo, hi) as u64) & m
        }
        UAddOv => (a as u128 + b as u128 > m as u128) as u64,
        USubOv => (a < b) as u64,
        UMulOv => (a as u128 * b as u128 > m as u128) as u64,
        SAddOv | SSubOv | SMulOv => {
            let (x, y) = (sext(a, w) as i128, sext(b, w) as i128);
            let s = match op { SAddOv => x + y, SSubOv => x - y, _ => x * y };
            let hi = (m >> 1) as i128;
            (s > hi || s < -hi - 1) as u64
        }
        CtPop => a.count_ones() as u64,
        Ctlz => (a.leading_zeros() as u64).wrapping_sub(64 - w as u64),
        Cttz => (a.trailing_zeros() as u64).min(w as u64),
        BSwap => a.swap_bytes() >> (64 - w as u32),
        BitRev => a.reverse_bits() >> (64 - w as u32),
        Abs => { let x = sext(a, w); (x.wrapping_abs() as u64) & m }
        UCmp => { let o = a.cmp(&b) as i64; o as u64 & mask(c as u8) }
        SCmp => { let o = sext(a, w).cmp(&sext(b, w)) as i64; o as u64 & mask(c as u8) }
        Select => if a & 1 != 0 { b } else { c },
        FshL => { let s = c % w as u64; if s == 0 { a } else { ((a << s) | (b >> (w as u64 - s))) & m } }
        FshR => { let s = c % w as u64; if s == 0 { b } else { ((a << (w as u64 - s)) | (b >> s)) & m } }
        MulHi => ((a as u128 * b as u128) >> 64) as u64,
        // (lo, hi, amount)
        Shl128Hi => { let v = (a as u128) | (b as u128) << 64; (if c >= 128 { 0 } else { v << c } >> 64) as u64 }
        Shr128Lo => { let v = (a as u128) | (b as u128) << 64; (if c >= 128 { 0 } else { v >> c }) as u64 }
        Sar128Lo => { let v = ((a as u128) | (b as u128) << 64) as i128; (v >> c.min(127)) as u64 }
        FAdd => r(f(a, w) + f(b, w), w),
        FSub => r(f(a, w) - f(b, w), w),
        FMul => r(f(a, w) * f(b, w), w),
        FDiv => r(f(a, w) / f(b, w), w),
        FRem => r(f(a, w) % f(b, w), w),
        FNeg => a ^ (1u64 << (w - 1)),
        FAbs => a & !(1u64 << (w - 1)),
        FMax => r(f(a, w).max(f(b, w)), w),
        FMin => r(f(a, w).min(f(b, w)), w),
        FFloor => r(f(a, w).floor(), w),
        FCeil => r(f(a, w).ceil(), w),
        FTrunc => r(f(a, w).trunc(), w),
        FRint => r(f(a, w).round_ties_even(), w),
        FCmp => {
            let (x, y) = (f(a, w), f(b, w));
            let uno = x.is_nan() || y.is_nan();
            let (lt, gt, eq) = (x < y, x > y, x == y);
            (match c {
                0 => false, 1 => eq, 2 => gt, 3 => gt || eq, 4 => lt, 5 => lt || eq, 6 => lt || gt,
                7 => !uno, 8 => uno, 9 => uno || eq, 10 => uno || gt, 11 => uno || gt || eq,
                12 => uno || lt, 13 => uno || lt || eq, 14 => uno || !eq, _ => true,
            }) as u64
        }
        UIToFP => if c == 32 { (a as f32).to_bits() as u64 } else { (a as f64).to_bits() },
        SIToFP => if c == 32 { (sext(a, w) as f32).to_bits() as u64 } else { (sext(a, w) as f64).to_bits() },
        FPToUI => (f(a, w) as u64).min(mask(c as u8)),
        FPToSI => (f(a, w) as i64) as u64 & mask(c as u8),
        FExt32 => (f32::from_bits(a as u32) as f64).to_bits(),
        FTrunc64 => ((f64::from_bits(a)) as f32).to_bits() as u64,
        Cat => a | b << 8,
        Extr => (a >> (8 * c)) & 0xff,
    }
}

/// Ops for which solver.rs has a structural translation.
pub fn z3able(op: Op) -> bool {
    !matches!(op, MulHi | Shl128Hi | Shr128Lo | Sar128Lo | FAdd | FSub | FMul | FDiv | FRem | FCmp | FNeg | FAbs
        | FMax | FMin | FFloor | FCeil | FTrunc | FRint | UIToFP | SIToFP | FPToUI | FPToSI | FExt32 | FTrunc64
        | CtPop | Ctlz | Cttz | BSwap | BitRev | Abs | UCmp | SCmp | FshL | FshR | UMulOv | SMulOv | SAddSat | SSubSat
        | SDiv | SRem)
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub wout: u8,
    pub a: Eid,
    pub b: Eid,
    pub c: Eid,
    pub sup: u64,
    pub tab: u32, // index into tabs, if single-symbol
    pub ones: u64, // bits that may be 1
    pub val: u64, // Const: value, Sym: index
}

/// A value: concrete (s == 0) or an expression.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Val {
    pub v: u64,
    pub s: Eid,
}
impl Val {
    #[inline(always)]
    pub fn c(v: u64) -> Val { Val { v, s: 0 } }
    #[inline(always)]
    pub fn is_c(self) -> bool { self.s == 0 }
}

pub type Dom = [u64; 4];
pub fn dom_count(d: &Dom) -> u32 { d.iter().map(|x| x.count_ones()).sum() }
pub fn dom_has(d: &Dom, b: usize) -> bool { d[b >> 6] >> (b & 63) & 1 != 0 }
pub fn dom_iter(d: Dom) -> impl Iterator<Item = usize> {
    (0..4).flat_map(move |i| {
        let mut x = d[i];
        std::iter::from_fn(move || {
            if x == 0 { None } else { let t = x.trailing_zeros() as usize; x &= x - 1; Some(i * 64 + t) }
        })
    })
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    pub tabs: Vec<Box<[u64; 256]>>,
    tabmap: HashMap<u64, Vec<u32>>,
    single: HashMap<(u32, u32), Eid>, // (symbol, tab) -> node
    consts: HashMap<u64, Eid>,
    cache: HashMap<(Op, u8, Val, Val, Val), Val>,
    multi: HashMap<(Op, u8, Eid, Eid, Eid), Eid>,
    ident: u32,
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena::default();
        a.nodes.push(Node { op: Const, w: 0, wout: 0, a: 0, b: 0, c: 0, sup: 0, tab: 0, ones: 0, val: 0 });
        let mut t = Box::new([0u64; 256]);
        for i in 0..256 { t[i] = i as u64; }
        a.ident = a.intern_tab(t);
        a
    }
    fn intern_tab(&mut self, t: Box<[u64; 256]>) -> u32 {
        let mut h = 0xcbf29ce484222325u64;
        for x in t.iter() { h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23); }
        let v = self.tabmap.entry(h).or_default();
        for &i in v.iter() { if self.tabs[i as usize] == t { return i; } }
        let i = self.tabs.len() as u32;
        v.push(i);
        self.tabs.push(t);
        i
    }
    pub fn constant(&mut self, v: u64) -> Eid {
        if let Some(&e) = self.consts.get(&v) { return e; }
        let e = self.nodes.len() as Eid;
        let w = (64 - v.leading_zeros()) as u8;
        self.nodes.push(Node { op: Const, w, wout: w.max(1), a: 0, b: 0, c: 0, sup: 0, tab: 0, ones: v, val: v });
        self.consts.insert(v, e);
        e
    }
    pub fn sym(&mut self, i: usize) -> Val {
        let k = (i as u32, self.ident);
        if let Some(&e) = self.single.get(&k) { return Val { v: 0, s: e }; }
        let e = self.nodes.len() as Eid;
        self.nodes.push(Node { op: Sym, w: 8, wout: 8, a: 0, b: 0, c: 0, sup: 1 << i, tab: self.ident, ones: 255, val: i as u64 });
        self.single.insert(k, e);
        Val { v: 0, s: e }
    }
    /// A table indexed by one symbol, with no further structure.
    pub fn lookup(&mut self, sym: usize, t: Box<[u64; 256]>, w: u8) -> Val {
        self.single_node(sym, t, Lookup, w, w, 0, 0, 0)
    }
    fn single_node(&mut self, sym: usize, t: Box<[u64; 256]>, op: Op, w: u8, wo: u8, a: Eid, b: Eid, c: Eid) -> Val {
        let first = t[0];
        if t.iter().all(|&x| x == first) { return Val::c(first); }
        let ones = t.iter().fold(0, |x, y| x | y);
        let tab = self.intern_tab(t);
        if let Some(&e) = self.single.get(&(sym as u32, tab)) { return Val { v: 0, s: e }; }
        let e = self.nodes.len() as Eid;
        let wo = wo.max((64 - ones.leading_zeros()) as u8);
        self.nodes.push(Node { op, w, wout: wo, a, b, c, sup: 1 << sym, tab, ones, val: 0 });
        self.single.insert((sym as u32, tab), e);
        Val { v: 0, s: e }
    }
    #[inline]
    pub fn sup(&self, v: Val) -> u64 { if v.s == 0 { 0 } else { self.nodes[v.s as usize].sup } }
    #[inline]
    pub fn ones(&self, v: Val) -> u64 { if v.s == 0 { v.v } else { self.nodes[v.s as usize].ones } }
    #[inline]
    pub fn is_single(&self, v: Val) -> bool { self.sup(v).count_ones() == 1 }
    pub fn tab(&self, v: Val) -> &[u64; 256] { &self.tabs[self.nodes[v.s as usize].tab as usize] }
    pub fn symof(&self, v: Val) -> usize { self.sup(v).trailing_zeros() as usize }
    pub fn eid(&mut self, v: Val) -> Eid { if v.s == 0 { self.constant(v.v) } else { v.s } }
    pub fn val(&self, e: Eid) -> Val {
        let n = &self.nodes[e as usize];
        if n.op == Const { Val::c(n.val) } else { Val { v: 0, s: e } }
    }

    /// Value over one symbol's value `x`; `v` has support within that symbol.
    #[inline]
    fn at(&self, v: Val, x: usize) -> u64 { if v.s == 0 { v.v } else { self.tabs[self.nodes[v.s as usize].tab as usize][x] } }

    pub fn mk(&mut self, op: Op, w: u8, a: Val, b: Val, c: Val) -> Val {
        if a.s == 0 && b.s == 0 && c.s == 0 { return Val::c(eval_op(op, w, a.v, b.v, c.v)); }
        if op == Mov { return a; }
        let key = (op, w, a, b, c);
        if let Some(&r) = self.cache.get(&key) { return r; }
        let r = self.mk2(op, w, a, b, c);
        self.cache.insert(key, r);
        r
    }
    fn mk2(&mut self, op: Op, w: u8, a: Val, b: Val, c: Val) -> Val {
        let sup = self.sup(a) | self.sup(b) | self.sup(c);
        let wo = wout(op, w, if c.s == 0 { c.v } else { 0 });
        if sup.count_ones() == 1 {
            let mut t = Box::new([0u64; 256]);
            for i in 0..256 { t[i] = eval_op(op, w, self.at(a, i), self.at(b, i), self.at(c, i)); }
            let sym = sup.trailing_zeros() as usize;
            let (ea, eb, ec) = (self.eid(a), self.eid(b), self.eid(c));
            return self.single_node(sym, t, if z3able(op) { op } else { Lookup }, w, wo, ea, eb, ec);
        }
        if let Some(v) = self.simplify(op, w, a, b, c) { return v; }
        let (ea, eb, ec) = (self.eid(a), self.eid(b), self.eid(c));
        let k = (op, w, ea, eb, ec);
        if let Some(&e) = self.multi.get(&k) { return Val { v: 0, s: e }; }
        let e = self.nodes.len() as Eid;
        let m = mask(wo);
        let ones = match op {
            And => self.ones(a) & self.ones(b),
            Or | Xor => self.ones(a) | self.ones(b),
            Shl if b.s == 0 => eval_op(Shl, w, self.ones(a), b.v, 0),
            LShr if b.s == 0 => eval_op(LShr, w, self.ones(a), b.v, 0),
            Trunc => self.ones(a) & m,
            Cat => self.ones(a) | self.ones(b) << 8,
            Extr => (self.ones(a) >> (8 * c.v)) & 255,
            Select => self.ones(b) | self.ones(c),
            UMin | UMax => self.ones(a) | self.ones(b),
            _ => m,
        };
        let wo = if op == Cat { 64 - (ones.leading_zeros() as u8) } else { wo };
        self.nodes.push(Node { op, w, wout: wo.max(1), a: ea, b: eb, c: ec, sup, tab: 0, ones, val: 0 });
        self.multi.insert(k, e);
        Val { v: 0, s: e }
    }
    fn bytewise(&self, v: Val) -> bool {
        if v.s == 0 { return true; }
        let n = &self.nodes[v.s as usize];
        n.op == Cat || n.sup.count_ones() == 1 || n.ones <= 0xff
    }
    fn iscat(&self, v: Val) -> bool { v.s != 0 && self.nodes[v.s as usize].op == Cat }
    pub fn byte(&mut self, v: Val, i: u32) -> Val {
        if i >= 8 { return Val::c(0); }
        if v.s == 0 { return Val::c((v.v >> (8 * i)) & 255); }
        let n = self.nodes[v.s as usize];
        if (n.ones >> (8 * i)) & 255 == 0 { return Val::c(0); }
        if n.op == Cat {
            let (a, b) = (self.val(n.a), self.val(n.b));
            return if i == 0 { a } else { self.byte(b, i - 1) };
        }
        if i == 0 && n.ones <= 255 { return v; }
        self.mk(Extr, 64, v, Val::c(0), Val::c(i as u64))
    }
    /// Little-endian concatenation of byte-valued expressions.
    pub fn cat(&mut self, bs: &[Val]) -> Val {
        if bs.iter().all(|b| b.s == 0) {
            let mut v = 0;
            for (i, b) in bs.iter().enumerate() { v |= b.v << (8 * i); }
            return Val::c(v);
        }
        // all bytes of one wider expression?
        let b0 = bs[0];
        if b0.s != 0 && self.nodes[b0.s as usize].op == Extr {
            let e = self.val(self.nodes[b0.s as usize].a);
            if e.s != 0 && self.sup(e).count_ones() > 1 {
                let full = (0..8).all(|i| {
                    let want = self.byte(e, i as u32);
                    if i < bs.len() { bs[i] == want } else { want == Val::c(0) }
                });
                if full { return e; }
            }
        }
        let mut v = bs[bs.len() - 1];
        for i in (0..bs.len() - 1).rev() {
            v = if v == Val::c(0) { bs[i] } else { self.mk(Cat, 64, bs[i], v, Val::c(0)) };
        }
        v
    }
    fn simplify(&mut self, op: Op, w: u8, a: Val, b: Val, c: Val) -> Option<Val> {
        let m = mask(w);
        match op {
            Trunc => {
                if self.ones(a) & !m == 0 { return Some(a); }
                if w % 8 == 0 && self.bytewise(a) {
                    let bs: Vec<Val> = (0..(w / 8) as u32).map(|i| self.byte(a, i)).collect();
                    return Some(self.cat(&bs));
                }
            }
            SExt => {
                // sign bit known to be 0
                if self.ones(a) >> (w - 1) & 1 == 0 { return Some(a); }
            }
            Add | Or | Xor => {
                if b == Val::c(0) { return Some(a); }
                if a == Val::c(0) { return Some(b); }
                if op == Add && self.ones(a) & self.ones(b) == 0 { return Some(self.mk(Or, w, a, b, c)); }
                if op == Or && a == b { return Some(a); }
                if op == Xor && a == b { return Some(Val::c(0)); }
                if op == Or && w == 1 && (b == Val::c(1) || a == Val::c(1)) { return Some(Val::c(1)); }
                if op != Add && w > 8 && self.bytewise(a) && self.bytewise(b) && (self.ones(a) | self.ones(b)) > 0xff {
                    return Some(self.bw(op, a, b));
                }
                // a byte ORed into a disjoint place of something opaque stays a node
            }
            And => {
                let (oa, ob) = (self.ones(a), self.ones(b));
                if oa & ob == 0 { return Some(Val::c(0)); }
                if b.s == 0 && oa & !b.v == 0 { return Some(a); }
                if a.s == 0 && ob & !a.v == 0 { return Some(b); }
                if a == b { return Some(a); }
                if w > 8 && self.bytewise(a) && self.bytewise(b) && (oa | ob) > 0xff && (oa & ob > 0xff || self.iscat(a) || self.iscat(b)) {
                    return Some(self.bw(op, a, b));
                }
            }
            Sub => {
                if b == Val::c(0) { return Some(a); }
                if a == b { return Some(Val::c(0)); }
            }
            Mul => {
                if b == Val::c(1) { return Some(a); }
                if a == Val::c(0) || b == Val::c(0) { return Some(Val::c(0)); }
                if a == Val::c(1) { return Some(b); }
            }
            Shl | LShr if b.s == 0 => {
                if b.v == 0 { return Some(a); }
                if b.v >= w as u64 { return Some(Val::c(0)); }
                if b.v % 8 == 0 && self.bytewise(a) {
                    let k = (b.v / 8) as i32;
                    let nb = (w as u32).div_ceil(8);
                    let bs: Vec<Val> = (0..nb)
                        .map(|i| {
                            let j = if op == Shl { i as i32 - k } else { i as i32 + k };
                            if j < 0 || j >= nb as i32 { Val::c(0) } else { self.byte(a, j as u32) }
                        })
                        .collect();
                    if w % 8 == 0 { return Some(self.cat(&bs)); }
                }
                if op == LShr && self.ones(a) >> b.v == 0 { return Some(Val::c(0)); }
            }
            Eq | Ne => {
                if a == b { return Some(Val::c((op == Eq) as u64)); }
                let (oa, ob) = (self.ones(a), self.ones(b));
                if a.s == 0 && a.v & !ob != 0 || b.s == 0 && b.v & !oa != 0 { return Some(Val::c((op == Ne) as u64)); }
                // boolean compared with a constant
                if b.s == 0 && oa == 1 {
                    let same = (b.v == 1) == (op == Eq);
                    return Some(if same { a } else { self.mk(Xor, 1, a, Val::c(1), Val::c(0)) });
                }
                if (self.iscat(a) || self.iscat(b)) && self.bytewise(a) && self.bytewise(b) {
                    let mut acc = Val::c(1);
                    for i in 0..8 {
                        let (x, y) = (self.byte(a, i), self.byte(b, i));
                        let e = self.mk(Eq, 8, x, y, Val::c(0));
                        if e == Val::c(0) { acc = e; break; }
                        acc = self.mk(And, 1, acc, e, Val::c(0));
                    }
                    return Some(if op == Eq { acc } else { self.mk(Xor, 1, acc, Val::c(1), Val::c(0)) });
                }
            }
            Select => {
                if b == c { return Some(b); }
                if a.s == 0 { return Some(if a.v & 1 != 0 { b } else { c }); }
                if w == 1 {
                    if b == Val::c(1) { return Some(self.mk(Or, 1, a, c, Val::c(0))); }
                    if c == Val::c(0) { return Some(self.mk(And, 1, a, b, Val::c(0))); }
                }
            }
            _ => {}
        }
        None
    }
    fn bw(&mut self, op: Op, a: Val, b: Val) -> Val {
        let bs: Vec<Val> = (0..8)
            .map(|i| {
                let (x, y) = (self.byte(a, i), self.byte(b, i));
                self.mk(op, 8, x, y, Val::c(0))
            })
            .collect();
        self.cat(&bs)
    }
    /// Value under a full assignment.
    pub fn eval(&self, v: Val, asg: &[u8]) -> u64 {
        if v.s == 0 { return v.v; }
        let n = &self.nodes[v.s as usize];
        if n.op == Const { return n.val; }
        if n.sup.count_ones() == 1 { return self.tabs[n.tab as usize][asg[n.sup.trailing_zeros() as usize] as usize]; }
        let (a, b, c) = (self.eval(self.val(n.a), asg), self.eval(self.val(n.b), asg), self.eval(self.val(n.c), asg));
        eval_op(n.op, n.w, a, b, c)
    }
    /// Over-approximation of the values taken over the box `dom` (None: too many).
    pub fn values(&self, v: Val, dom: &[Dom], memo: &mut HashMap<Eid, Option<Vec<u64>>>) -> Option<Vec<u64>> {
        if v.s == 0 { return Some(vec![v.v]); }
        if let Some(r) = memo.get(&v.s) { return r.clone(); }
        let n = self.nodes[v.s as usize];
        let r = if n.op == Const {
            Some(vec![n.val])
        } else if n.sup.count_ones() == 1 {
            let t = &self.tabs[n.tab as usize];
            let mut o: Vec<u64> = dom_iter(dom[n.sup.trailing_zeros() as usize]).map(|i| t[i]).collect();
            o.sort_unstable();
            o.dedup();
            if o.len() > 64 { None } else { Some(o) }
        } else {
            let x = self.values(self.val(n.a), dom, memo);
            // short-circuit for booleans
            if n.op == And && (x == Some(vec![0])) {
                Some(vec![0])
            } else {
                let y = self.values(self.val(n.b), dom, memo);
                let z = self.values(self.val(n.c), dom, memo);
                if n.op == And && y == Some(vec![0]) {
                    Some(vec![0])
                } else {
                    match (x, y, z) {
                        (Some(x), Some(y), Some(z)) if x.len() * y.len() * z.len() <= 4096 => {
                            let mut o = Vec::with_capacity(x.len() * y.len() * z.len());
                            for &i in &x { for &j in &y { for &k in &z { o.push(eval_op(n.op, n.w, i, j, k)); } } }
                            o.sort_unstable();
                            o.dedup();
                            if o.len() > 64 { None } else { Some(o) }
                        }
                        _ => None,
                    }
                }
            }
        };
        memo.insert(v.s, r.clone());
        r
    }
    /// Single-symbol subexpressions that still vary over the box.
    pub fn leaves(&self, v: Val, dom: &[Dom], seen: &mut Vec<Eid>, out: &mut Vec<(Eid, usize)>) {
        if v.s == 0 || seen.contains(&v.s) { return; }
        seen.push(v.s);
        let n = self.nodes[v.s as usize];
        if n.op == Const { return; }
        if n.sup.count_ones() == 1 {
            let t = &self.tabs[n.tab as usize];
            let mut o: Vec<u64> = dom_iter(dom[n.sup.trailing_zeros() as usize]).map(|i| t[i]).collect();
            o.sort_unstable();
            o.dedup();
            if o.len() > 1 { out.push((v.s, o.len())); }
            return;
        }
        self.leaves(self.val(n.a), dom, seen, out);
        self.leaves(self.val(n.b), dom, seen, out);
        self.leaves(self.val(n.c), dom, seen, out);
    }
}
