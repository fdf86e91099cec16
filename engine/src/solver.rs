//! Z3 (C API): confirms every decision the executor takes on a symbolic condition.
#![allow(non_snake_case)]
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void};
use std::time::{Duration, Instant};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_get_bv_sort_size(c: P, s: P) -> c_uint;
    fn Z3_get_sort(c: P, a: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_del_context(c: P);
}
extern "C" fn quiet(_: P, _: c_int) {}

pub fn z3_version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub struct Solver {
    c: P,
    s: P,
    ast: HashMap<Eid, P>,
    done: HashSet<(Eid, Dom)>,
    donem: HashSet<u64>,
    pub queries: u64,
    pub cached: u64,
    pub time: Duration,
    fresh: u64,
}
impl Drop for Solver {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let c = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(c, Some(quiet));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            Solver { c, s, ast: HashMap::new(), done: HashSet::new(), donem: HashSet::new(), queries: 0, cached: 0, time: Duration::ZERO, fresh: 0 }
        }
    }
    unsafe fn bv(&self, v: u64, w: u8) -> P {
        Z3_mk_unsigned_int64(self.c, v & mask(w), Z3_mk_bv_sort(self.c, w as c_uint))
    }
    unsafe fn symc(&self, i: u64) -> P {
        Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as c_int), Z3_mk_bv_sort(self.c, 8))
    }
    unsafe fn fit(&self, a: P, w: u8) -> P {
        let n = Z3_get_bv_sort_size(self.c, Z3_get_sort(self.c, a)) as u8;
        if n == w {
            a
        } else if n < w {
            Z3_mk_zero_ext(self.c, (w - n) as c_uint, a)
        } else {
            Z3_mk_extract(self.c, w as c_uint - 1, 0, a)
        }
    }
    unsafe fn b1(&self, p: P) -> P {
        Z3_mk_ite(self.c, p, self.bv(1, 1), self.bv(0, 1))
    }
    unsafe fn member(&self, s: P, d: &Dom) -> P {
        // union of ranges
        let c = self.c;
        let mut rs = vec![];
        let mut i = 0usize;
        while i < 256 {
            if dom_has(d, i) {
                let mut j = i;
                while j + 1 < 256 && dom_has(d, j + 1) {
                    j += 1;
                }
                rs.push(if i == j {
                    Z3_mk_eq(c, s, self.bv(i as u64, 8))
                } else {
                    let x = [Z3_mk_bvule(c, self.bv(i as u64, 8), s), Z3_mk_bvule(c, s, self.bv(j as u64, 8))];
                    Z3_mk_and(c, 2, x.as_ptr())
                });
                i = j + 1;
            } else {
                i += 1;
            }
        }
        match rs.len() {
            0 => Z3_mk_false(c),
            1 => rs[0],
            n => Z3_mk_or(c, n as c_uint, rs.as_ptr()),
        }
    }
    /// Bit-vector term of width `wout` for the expression.
    unsafe fn tr(&mut self, ar: &Arena, e: Eid) -> P {
        if let Some(&p) = self.ast.get(&e) {
            return p;
        }
        let c = self.c;
        let n = ar.nodes[e as usize];
        let p = match n.op {
            Op::Const => self.bv(n.val, n.wout),
            Op::Sym => self.symc(n.val),
            Op::Lookup => {
                // group equal values into ranges of the symbol
                let t = &ar.tabs[n.tab as usize];
                let s = self.symc(n.sup.trailing_zeros() as u64);
                let mut groups: Vec<(u64, Dom)> = vec![];
                let mut ix: HashMap<u64, usize> = HashMap::new();
                for i in 0..256 {
                    let k = *ix.entry(t[i]).or_insert_with(|| {
                        groups.push((t[i], [0; 4]));
                        groups.len() - 1
                    });
                    groups[k].1[i >> 6] |= 1 << (i & 63);
                }
                groups.sort_by_key(|g| dom_count(&g.1));
                let mut acc = self.bv(groups.last().unwrap().0, n.wout);
                for (v, d) in &groups[..groups.len() - 1] {
                    acc = Z3_mk_ite(c, self.member(s, d), self.bv(*v, n.wout), acc);
                }
                acc
            }
            _ => {
                let a = self.tr(ar, n.a);
                let b = self.tr(ar, n.b);
                let cc = self.tr(ar, n.c);
                let w = n.w;
                let (x, y) = (|s: &Self| s.fit(a, w), |s: &Self| s.fit(b, w));
                use Op::*;
                let r = match n.op {
                    Mov => a,
                    Add => Z3_mk_bvadd(c, x(self), y(self)),
                    Sub => Z3_mk_bvsub(c, x(self), y(self)),
                    Mul => Z3_mk_bvmul(c, x(self), y(self)),
                    UDiv | URem => {
                        let q = if n.op == UDiv { Z3_mk_bvudiv(c, x(self), y(self)) } else { Z3_mk_bvurem(c, x(self), y(self)) };
                        Z3_mk_ite(c, Z3_mk_eq(c, y(self), self.bv(0, w)), self.bv(0, w), q)
                    }
                    Shl => Z3_mk_bvshl(c, x(self), y(self)),
                    LShr => Z3_mk_bvlshr(c, x(self), y(self)),
                    AShr => Z3_mk_bvashr(c, x(self), y(self)),
                    And => Z3_mk_bvand(c, x(self), y(self)),
                    Or => Z3_mk_bvor(c, x(self), y(self)),
                    Xor => Z3_mk_bvxor(c, x(self), y(self)),
                    Eq => self.b1(Z3_mk_eq(c, x(self), y(self))),
                    Ne => self.b1(Z3_mk_not(c, Z3_mk_eq(c, x(self), y(self)))),
                    Ult => self.b1(Z3_mk_bvult(c, x(self), y(self))),
                    Ule => self.b1(Z3_mk_bvule(c, x(self), y(self))),
                    Slt => self.b1(Z3_mk_bvslt(c, x(self), y(self))),
                    Sle => self.b1(Z3_mk_bvsle(c, x(self), y(self))),
                    Trunc => self.fit(a, w),
                    SExt => {
                        let to = ar.nodes[n.c as usize].val as u8;
                        if to > w { Z3_mk_sign_ext(c, (to - w) as c_uint, x(self)) } else { self.fit(a, to) }
                    }
                    UMin => Z3_mk_ite(c, Z3_mk_bvult(c, x(self), y(self)), x(self), y(self)),
                    UMax => Z3_mk_ite(c, Z3_mk_bvult(c, x(self), y(self)), y(self), x(self)),
                    SMin => Z3_mk_ite(c, Z3_mk_bvslt(c, x(self), y(self)), x(self), y(self)),
                    SMax => Z3_mk_ite(c, Z3_mk_bvslt(c, x(self), y(self)), y(self), x(self)),
                    USubSat => Z3_mk_ite(c, Z3_mk_bvult(c, x(self), y(self)), self.bv(0, w), Z3_mk_bvsub(c, x(self), y(self))),
                    UAddSat => {
                        let s = Z3_mk_bvadd(c, x(self), y(self));
                        Z3_mk_ite(c, Z3_mk_bvult(c, s, x(self)), self.bv(!0, w), s)
                    }
                    UAddOv => {
                        let s = Z3_mk_bvadd(c, x(self), y(self));
                        self.b1(Z3_mk_bvult(c, s, x(self)))
                    }
                    USubOv => self.b1(Z3_mk_bvult(c, x(self), y(self))),
                    SAddOv | SSubOv => {
                        let (p, q) = (Z3_mk_sign_ext(c, 1, x(self)), Z3_mk_sign_ext(c, 1, y(self)));
                        let s = if n.op == SAddOv { Z3_mk_bvadd(c, p, q) } else { Z3_mk_bvsub(c, p, q) };
                        let t = Z3_mk_sign_ext(c, 1, Z3_mk_extract(c, w as c_uint - 1, 0, s));
                        self.b1(Z3_mk_not(c, Z3_mk_eq(c, s, t)))
                    }
                    Select => {
                        let cond = Z3_mk_eq(c, self.fit(a, 1), self.bv(1, 1));
                        Z3_mk_ite(c, cond, self.fit(b, w), self.fit(cc, w))
                    }
                    Cat => {
                        let lo = self.fit(a, 8);
                        Z3_mk_concat(c, b, lo)
                    }
                    Extr => {
                        let i = ar.nodes[n.c as usize].val as c_uint;
                        let f = self.fit(a, 64);
                        Z3_mk_extract(c, 8 * i + 7, 8 * i, f)
                    }
                    UMulOv | SMulOv | MulHi => {
                        let k = w as c_uint;
                        let sx = n.op == SMulOv;
                        let ext = |t: P| if sx { Z3_mk_sign_ext(c, k, t) } else { Z3_mk_zero_ext(c, k, t) };
                        let m = Z3_mk_bvmul(c, ext(x(self)), ext(y(self)));
                        let hi = Z3_mk_extract(c, 2 * k - 1, k, m);
                        match n.op {
                            MulHi => hi,
                            UMulOv => self.b1(Z3_mk_not(c, Z3_mk_eq(c, hi, self.bv(0, w)))),
                            _ => self.b1(Z3_mk_not(c, Z3_mk_eq(c, m, Z3_mk_sign_ext(c, k, Z3_mk_extract(c, k - 1, 0, m))))),
                        }
                    }
                    UCmp | SCmp => {
                        let lt = if n.op == UCmp { Z3_mk_bvult(c, x(self), y(self)) } else { Z3_mk_bvslt(c, x(self), y(self)) };
                        let eq = Z3_mk_eq(c, x(self), y(self));
                        let o = n.wout;
                        Z3_mk_ite(c, lt, self.bv(!0, o), Z3_mk_ite(c, eq, self.bv(0, o), self.bv(1, o)))
                    }
                    FshL | FshR => {
                        let wv = self.bv(w as u64, w);
                        let k = Z3_mk_bvurem(c, self.fit(cc, w), wv);
                        let inv = Z3_mk_bvsub(c, wv, k);
                        let (l, r) = if n.op == FshL { (k, inv) } else { (inv, k) };
                        let f = Z3_mk_bvor(c, Z3_mk_bvshl(c, x(self), l), Z3_mk_bvlshr(c, y(self), r));
                        let id = if n.op == FshL { x(self) } else { y(self) };
                        Z3_mk_ite(c, Z3_mk_eq(c, k, self.bv(0, w)), id, f)
                    }
                    FAdd | FSub | FMul | FDiv if w == 64 => {
                        let fs = Z3_mk_fpa_sort_64(c);
                        let (p, q, rm) = (Z3_mk_fpa_to_fp_bv(c, x(self), fs), Z3_mk_fpa_to_fp_bv(c, y(self), fs), Z3_mk_fpa_rne(c));
                        let r = match n.op {
                            FAdd => Z3_mk_fpa_add(c, rm, p, q),
                            FSub => Z3_mk_fpa_sub(c, rm, p, q),
                            FMul => Z3_mk_fpa_mul(c, rm, p, q),
                            _ => Z3_mk_fpa_div(c, rm, p, q),
                        };
                        Z3_mk_fpa_to_ieee_bv(c, r)
                    }
                    FCmp if w == 64 => {
                        let pred = ar.nodes[n.c as usize].val;
                        let fs = Z3_mk_fpa_sort_64(c);
                        let (p, q) = (Z3_mk_fpa_to_fp_bv(c, x(self), fs), Z3_mk_fpa_to_fp_bv(c, y(self), fs));
                        let mut any = vec![];
                        if pred & 1 != 0 {
                            any.push(Z3_mk_fpa_eq(c, p, q));
                        }
                        if pred & 2 != 0 {
                            any.push(Z3_mk_fpa_lt(c, q, p));
                        }
                        if pred & 4 != 0 {
                            any.push(Z3_mk_fpa_lt(c, p, q));
                        }
                        if pred & 8 != 0 {
                            any.push(Z3_mk_fpa_is_nan(c, p));
                            any.push(Z3_mk_fpa_is_nan(c, q));
                        }
                        self.b1(Z3_mk_or(c, any.len() as c_uint, any.as_ptr()))
                    }
                    UIToFP | SIToFP if ar.nodes[n.c as usize].val == 64 => {
                        let (fs, rm) = (Z3_mk_fpa_sort_64(c), Z3_mk_fpa_rne(c));
                        let t = if n.op == UIToFP { Z3_mk_fpa_to_fp_unsigned(c, rm, x(self), fs) } else { Z3_mk_fpa_to_fp_signed(c, rm, x(self), fs) };
                        Z3_mk_fpa_to_ieee_bv(c, t)
                    }
                    _ => {
                        // multi-symbol node without a structural translation: an unconstrained
                        // term (the decision is then only confirmed if it does not depend on it)
                        self.fresh += 1;
                        Z3_mk_const(c, Z3_mk_int_symbol(c, 1000 + self.fresh as c_int), Z3_mk_bv_sort(c, n.wout as c_uint))
                    }
                };
                r
            }
        };
        let p = self.fit(p, n.wout);
        self.ast.insert(e, p);
        p
    }
    unsafe fn check_unsat(&mut self, f: P) -> bool {
        let t = Instant::now();
        Z3_solver_push(self.c, self.s);
        Z3_solver_assert(self.c, self.s, f);
        let r = Z3_solver_check(self.c, self.s);
        Z3_solver_pop(self.c, self.s, 1);
        self.queries += 1;
        self.time += t.elapsed();
        if r != -1 && std::env::var("MDSYM_DEBUG").is_ok() {
            eprintln!("not unsat ({r}, error {}): {}", Z3_get_error_code(self.c), std::ffi::CStr::from_ptr(Z3_ast_to_string(self.c, f)).to_string_lossy());
        }
        r == -1 && Z3_get_error_code(self.c) == 0
    }
    /// For a single-symbol expression: over `dom`, group g of the symbol's values gives value v_g.
    pub fn confirm_single(&mut self, ar: &Arena, e: Eid, dom: &Dom, groups: &[(u64, Dom)]) -> bool {
        if !self.done.insert((e, *dom)) {
            self.cached += 1;
            return true;
        }
        unsafe {
            let s = self.symc(ar.nodes[e as usize].sup.trailing_zeros() as u64);
            let t = self.tr(ar, e);
            let w = ar.nodes[e as usize].wout;
            let mut bad = vec![];
            let mut covered = vec![];
            for (v, d) in groups {
                let m = self.member(s, d);
                covered.push(m);
                let x = [m, Z3_mk_not(self.c, Z3_mk_eq(self.c, t, self.bv(*v, w)))];
                bad.push(Z3_mk_and(self.c, 2, x.as_ptr()));
            }
            // and the groups cover the domain
            let any = Z3_mk_or(self.c, covered.len() as c_uint, covered.as_ptr());
            let x = [self.member(s, dom), Z3_mk_not(self.c, any)];
            bad.push(Z3_mk_and(self.c, 2, x.as_ptr()));
            let f = Z3_mk_or(self.c, bad.len() as c_uint, bad.as_ptr());
            self.check_unsat(f)
        }
    }
    /// For any expression: it has the value `v` over the whole box.
    pub fn confirm_const(&mut self, ar: &Arena, e: Eid, dom: &[Dom], v: u64) -> bool {
        let sup = ar.nodes[e as usize].sup;
        let mut h = (e as u64).wrapping_mul(0x9E3779B97F4A7C15);
        for i in 0..64 {
            if sup >> i & 1 != 0 {
                for x in dom[i] {
                    h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
                }
            }
        }
        if !self.donem.insert(h) {
            self.cached += 1;
            return true;
        }
        unsafe {
            let t = self.tr(ar, e);
            let w = ar.nodes[e as usize].wout;
            let mut cs = vec![Z3_mk_not(self.c, Z3_mk_eq(self.c, t, self.bv(v, w)))];
            for i in 0..64usize {
                if sup >> i & 1 != 0 {
                    cs.push(self.member(self.symc(i as _), &dom[i]));
                }
            }
            let f = Z3_mk_and(self.c, cs.len() as c_uint, cs.as_ptr());
            self.check_unsat(f)
        }
    }
    pub fn _true(&self) -> P {
        unsafe { Z3_mk_true(self.c) }
    }
}
