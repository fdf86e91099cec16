//! The symbolic executor: interprets the bytecode; forks by splitting the domain
//! of one symbol; backtracks with a trail.
use crate::expr::*;
use crate::ir::*;
use crate::solver::Solver;
use std::collections::HashMap;

pub const MEM: usize = 40 << 20;
const STACK: u64 = 4 << 20;

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ret(u64),
    Panic(String),
    Abort(String),
    Fault(String),
    Budget,
    Unsup(String),
}
pub enum Stop {
    End(End),
    Fork,
}
type R<T> = Result<T, Stop>;
fn fault<T>(m: String) -> R<T> {
    Err(Stop::End(End::Fault(m)))
}

#[derive(Clone, Copy)]
struct Frame {
    f: u32,
    pc: u32,
    base: u32,
    sp: u64,
    dst: u32,
}
#[derive(Clone, Copy)]
struct Trail {
    addr: u32,
    n: u32,
    old: u64,
}
struct Choice {
    sym: usize,
    rest: Vec<Dom>,
    doms: Vec<Dom>,
    frames: Vec<Frame>,
    cur: Frame,
    regs: Vec<Val>,
    hp: u64,
    trail: usize,
    strail: usize,
    tbytes: usize,
    emitted: usize,
    notes: u64,
    steps: u64,
}

pub struct Vm<'p> {
    pub p: &'p Program,
    mem: Vec<u8>,
    sym: Vec<u32>,
    bits: Vec<u8>,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    cur: Frame,
    pub hp: u64,
    pub ar: Arena,
    pub dom: Vec<Dom>,
    pub solver: Solver,
    trail: Vec<Trail>,
    tbytes: Vec<u8>,
    strail: Vec<(u32, u32)>,
    choices: Vec<Choice>,
    pub emitted: Vec<Val>,
    pub notes: u64,
    pub steps: u64,
    pub total_steps: u64,
    pub budget: u64,
    pub forks: u64,
    pub decisions: u64,
    pub confirm: bool,
    pub bad_confirm: Vec<String>,
    pub used: Vec<bool>,
    pub prof: Option<Vec<u64>>,
    pub forkprof: HashMap<(u32, u32), u64>,
    pub warn: Vec<String>,
    ret: Vec<Val>,
}

fn single_dom(b: usize) -> Dom {
    let mut d = [0; 4];
    d[b >> 6] |= 1 << (b & 63);
    d
}
pub fn dom_of(bs: &[u8]) -> Dom {
    let mut d = [0; 4];
    for &b in bs {
        d[(b >> 6) as usize] |= 1 << (b & 63);
    }
    d
}

impl<'p> Vm<'p> {
    pub fn new(p: &'p Program) -> Vm<'p> {
        let mut mem = vec![0u8; MEM];
        mem[GBASE as usize..GBASE as usize + p.globals.len()].copy_from_slice(&p.globals);
        let stack = (GBASE + p.globals.len() as u64 + 0xffff) & !0xffff;
        let _ = single_dom(0);
        Vm {
            p,
            mem,
            sym: vec![0; MEM],
            bits: vec![0; MEM / 8 + 8],
            regs: vec![Val::default(); 1 << 20],
            frames: vec![],
            cur: Frame { f: 0, pc: 0, base: 0, sp: stack, dst: 0 },
            hp: stack + STACK,
            ar: Arena::new(),
            dom: vec![[!0; 4]; 64],
            solver: Solver::new(),
            trail: vec![],
            tbytes: vec![],
            strail: vec![],
            choices: vec![],
            emitted: vec![],
            notes: 0,
            steps: 0,
            total_steps: 0,
            budget: 200_000_000,
            forks: 0,
            decisions: 0,
            confirm: true,
            bad_confirm: vec![],
            used: vec![false; p.funcs.len()],
            prof: None,
            forkprof: HashMap::new(),
            warn: vec![],
            ret: vec![],
        }
    }
    // ---- memory ----
    #[inline(always)]
    fn chk(&self, a: u64, n: u64) -> R<usize> {
        if a < GBASE || a.wrapping_add(n) > MEM as u64 || a.wrapping_add(n) < a {
            return fault(format!("access of {} bytes at {:#x} in {}", n, a, self.p.funcs[self.cur.f as usize].name));
        }
        Ok(a as usize)
    }
    #[inline(always)]
    fn symbits(&self, a: usize, n: usize) -> u32 {
        let k = a >> 3;
        let w = self.bits[k] as u32 | (self.bits[k + 1] as u32) << 8;
        (w >> (a & 7)) & ((1u32 << n) - 1)
    }
    #[inline(always)]
    fn raw(&self, a: usize, n: usize) -> u64 {
        if n == 8 {
            return u64::from_le_bytes(self.mem[a..a + 8].try_into().unwrap());
        }
        let mut v = 0u64;
        for i in (0..n).rev() {
            v = v << 8 | self.mem[a + i] as u64;
        }
        v
    }
    /// One byte, made concrete if the current domains determine it.
    pub fn byte_at(&mut self, a: usize) -> Val {
        let s = self.sym[a];
        if self.bits[a >> 3] >> (a & 7) & 1 == 0 {
            return Val::c(self.mem[a] as u64);
        }
        self.norm(Val { v: 0, s })
    }
    #[inline(always)]
    fn load(&mut self, a: u64, n: usize) -> R<Val> {
        let i = self.chk(a, n as u64)?;
        if self.symbits(i, n) == 0 {
            return Ok(Val::c(self.raw(i, n)));
        }
        if n == 1 {
            return Ok(self.byte_at(i));
        }
        let mut b = [Val::default(); 8];
        for k in 0..n {
            b[k] = self.byte_at(i + k);
        }
        Ok(self.ar.cat(&b[..n]))
    }
    #[inline(always)]
    fn clear_sym(&mut self, i: usize, n: usize) {
        if self.symbits(i, n) != 0 {
            for k in i..i + n {
                if self.bits[k >> 3] >> (k & 7) & 1 != 0 {
                    self.strail.push((k as u32, self.sym[k]));
                    self.sym[k] = 0;
                    self.bits[k >> 3] &= !(1 << (k & 7));
                }
            }
        }
    }
    fn set_sym(&mut self, k: usize, s: u32) {
        self.strail.push((k as u32, self.sym[k]));
        self.sym[k] = s;
        if s == 0 {
            self.bits[k >> 3] &= !(1 << (k & 7));
        } else {
            self.bits[k >> 3] |= 1 << (k & 7);
        }
    }
    #[inline(always)]
    fn store(&mut self, a: u64, n: usize, v: Val) -> R<()> {
        let i = self.chk(a, n as u64)?;
        if v.s == 0 {
            self.clear_sym(i, n);
            let old = self.raw(i, n);
            self.trail.push(Trail { addr: i as u32, n: n as u32, old });
            if n == 8 {
                self.mem[i..i + 8].copy_from_slice(&v.v.to_le_bytes());
            } else {
                let b = v.v.to_le_bytes();
                self.mem[i..i + n].copy_from_slice(&b[..n]);
            }
            return Ok(());
        }
        for k in 0..n {
            let b = self.ar.byte(v, k as u32);
            self.store_byte(i + k, b);
        }
        Ok(())
    }
    pub fn store_byte(&mut self, i: usize, b: Val) {
        if b.s == 0 {
            self.clear_sym(i, 1);
            self.trail.push(Trail { addr: i as u32, n: 1, old: self.mem[i] as u64 });
            self.mem[i] = b.v as u8;
        } else if self.sym[i] != b.s {
            self.set_sym(i, b.s);
        }
    }
    fn save_range(&mut self, i: usize, n: usize) {
        let off = self.tbytes.len();
        self.tbytes.extend_from_slice(&self.mem[i..i + n]);
        self.trail.push(Trail { addr: i as u32, n: n as u32 | 0x8000_0000, old: off as u64 });
    }
    fn any_sym(&self, i: usize, n: usize) -> bool {
        let mut k = i;
        let e = i + n;
        while k < e && k & 7 != 0 {
            if self.bits[k >> 3] >> (k & 7) & 1 != 0 {
                return true;
            }
            k += 1;
        }
        while k + 8 <= e {
            if self.bits[k >> 3] != 0 {
                return true;
            }
            k += 8;
        }
        while k < e {
            if self.bits[k >> 3] >> (k & 7) & 1 != 0 {
                return true;
            }
            k += 1;
        }
        false
    }
    fn memcpy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let di = self.chk(d, n)?;
        let si = self.chk(s, n)?;
        let n = n as usize;
        let ssym = self.any_sym(si, n);
        let dsym = self.any_sym(di, n);
        let syms: Vec<u32> = if ssym { (0..n).map(|k| if self.bits[(si + k) >> 3] >> ((si + k) & 7) & 1 != 0 { self.sym[si + k] } else { 0 }).collect() } else { vec![] };
        self.save_range(di, n);
        self.mem.copy_within(si..si + n, di);
        if ssym || dsym {
            for k in 0..n {
                let want = if ssym { syms[k] } else { 0 };
                let have = if self.bits[(di + k) >> 3] >> ((di + k) & 7) & 1 != 0 { self.sym[di + k] } else { 0 };
                if want != have {
                    self.set_sym(di + k, want);
                }
            }
        }
        Ok(())
    }
    fn memset(&mut self, d: u64, b: Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let di = self.chk(d, n)?;
        let n = n as usize;
        if b.s != 0 {
            for k in 0..n {
                self.store_byte(di + k, b);
            }
            return Ok(());
        }
        self.save_range(di, n);
        self.mem[di..di + n].fill(b.v as u8);
        if self.any_sym(di, n) {
            for k in di..di + n {
                if self.bits[k >> 3] >> (k & 7) & 1 != 0 {
                    self.set_sym(k, 0);
                }
            }
        }
        Ok(())
    }
    fn undo_to(&mut self, t: usize, s: usize, b: usize) {
        while self.trail.len() > t {
            let e = self.trail.pop().unwrap();
            let i = e.addr as usize;
            if e.n & 0x8000_0000 != 0 {
                let n = (e.n & 0x7fff_ffff) as usize;
                let o = e.old as usize;
                let (mem, tb) = (&mut self.mem, &self.tbytes);
                mem[i..i + n].copy_from_slice(&tb[o..o + n]);
            } else {
                let n = e.n as usize;
                let by = e.old.to_le_bytes();
                self.mem[i..i + n].copy_from_slice(&by[..n]);
            }
        }
        self.tbytes.truncate(b);
        while self.strail.len() > s {
            let (k, old) = self.strail.pop().unwrap();
            let k = k as usize;
            self.sym[k] = old;
            if old == 0 {
                self.bits[k >> 3] &= !(1 << (k & 7));
            } else {
                self.bits[k >> 3] |= 1 << (k & 7);
            }
        }
    }
    // ---- symbolic values ----
    /// Concrete if the current box determines it.
    #[inline]
    pub fn norm(&mut self, v: Val) -> Val {
        if v.s == 0 {
            return v;
        }
        let n = &self.ar.nodes[v.s as usize];
        if n.sup.count_ones() == 1 {
            let t = &self.ar.tabs[n.tab as usize];
            let d = &self.dom[n.sup.trailing_zeros() as usize];
            let mut first = None;
            for w in 0..4 {
                let mut x = d[w];
                while x != 0 {
                    let b = w * 64 + x.trailing_zeros() as usize;
                    x &= x - 1;
                    match first {
                        None => first = Some(t[b]),
                        Some(f) => {
                            if f != t[b] {
                                return v;
                            }
                        }
                    }
                }
            }
            return Val::c(first.unwrap_or(0));
        }
        let mut sup = n.sup;
        while sup != 0 {
            let i = sup.trailing_zeros() as usize;
            sup &= sup - 1;
            if dom_count(&self.dom[i]) > 1 {
                return v;
            }
        }
        let asg = self.model(0);
        Val::c(self.ar.eval(v, &asg))
    }
    /// A member of the current box.
    pub fn model(&self, seed: u64) -> Vec<u8> {
        self.dom
            .iter()
            .enumerate()
            .map(|(i, d)| {
                let n = dom_count(d) as u64;
                if n == 0 {
                    return 0;
                }
                let k = if seed == 0 { 0 } else { (seed.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(i as u32 * 7 + 3) >> 11) % n };
                dom_iter(*d).nth(k as usize).unwrap() as u8
            })
            .collect()
    }
    fn fork(&mut self, sym: usize, mut groups: Vec<Dom>) -> Stop {
        groups.retain(|g| dom_count(g) > 0);
        debug_assert!(groups.len() > 1);
        self.forks += 1;
        if self.prof.is_some() {
            *self.forkprof.entry((self.cur.f, self.cur.pc)).or_default() += 1;
        }
        let first = groups.remove(0);
        groups.reverse();
        let top = self.cur.base as usize + self.p.funcs[self.cur.f as usize].nregs as usize;
        self.choices.push(Choice {
            sym,
            rest: groups,
            doms: self.dom.clone(),
            frames: self.frames.clone(),
            cur: self.cur,
            regs: self.regs[..top].to_vec(),
            hp: self.hp,
            trail: self.trail.len(),
            strail: self.strail.len(),
            tbytes: self.tbytes.len(),
            emitted: self.emitted.len(),
            notes: self.notes,
            steps: self.steps,
        });
        self.dom[sym] = first;
        Stop::Fork
    }
    /// The concrete value over the current box, forking if there is more than one.
    pub fn need(&mut self, v: Val) -> R<u64> {
        if v.s == 0 {
            return Ok(v.v);
        }
        self.decisions += 1;
        if self.ar.is_single(v) {
            let sym = self.ar.symof(v);
            let d = self.dom[sym];
            let mut groups: Vec<(u64, Dom)> = vec![];
            {
                let t = self.ar.tab(v);
                for b in dom_iter(d) {
                    match groups.iter_mut().find(|g| g.0 == t[b]) {
                        Some(g) => g.1[b >> 6] |= 1 << (b & 63),
                        None => {
                            let mut m = [0; 4];
                            m[b >> 6] |= 1 << (b & 63);
                            groups.push((t[b], m));
                        }
                    }
                }
            }
            if self.confirm && !self.solver.confirm_single(&self.ar, v.s, &d, &groups) {
                self.bad_confirm.push(format!("decision on {:?} not confirmed", self.ar.nodes[v.s as usize]));
            }
            if groups.len() == 1 {
                return Ok(groups[0].0);
            }
            return Err(self.fork(sym, groups.into_iter().map(|g| g.1).collect()));
        }
        self.need_multi(v, None)
    }
    fn need_multi(&mut self, v: Val, _hint: Option<()>) -> R<u64> {
        let n = self.norm(v);
        if n.s == 0 {
            if self.confirm && !self.solver.confirm_const(&self.ar, v.s, &self.dom, n.v) {
                self.bad_confirm.push("multi decision not confirmed".into());
            }
            return Ok(n.v);
        }
        let mut memo = HashMap::new();
        if let Some(vals) = self.ar.values(v, &self.dom, &mut memo) {
            if vals.len() == 1 {
                if self.confirm && !self.solver.confirm_const(&self.ar, v.s, &self.dom, vals[0]) {
                    self.bad_confirm.push("multi decision not confirmed".into());
                }
                return Ok(vals[0]);
            }
        }
        let mut out = vec![];
        self.ar.leaves(v, &self.dom, &mut vec![], &mut out);
        let (e, _) = *out.iter().min_by_key(|x| x.1).expect("a varying leaf");
        // split on that leaf's value
        let lv = Val { v: 0, s: e };
        match self.need(lv) {
            Ok(_) => unreachable!(),
            Err(s) => Err(s),
        }
    }
    fn sload(&mut self, a: Val, n: usize, w: u8) -> R<Val> {
        let a = self.norm(a);
        if a.s == 0 {
            let v = self.load(a.v, n)?;
            return Ok(self.trim(v, w, n));
        }
        if self.ar.is_single(a) {
            let sym = self.ar.symof(a);
            let d = self.dom[sym];
            let t = Box::new(*self.ar.tab(a));
            let mut out = Box::new([0u64; 256]);
            let mut ok = true;
            for b in dom_iter(d) {
                let ad = t[b];
                let i = match self.chk(ad, n as u64) {
                    Ok(i) => i,
                    Err(_) => {
                        ok = false;
                        break;
                    }
                };
                if self.symbits(i, n) != 0 {
                    ok = false;
                    break;
                }
                out[b] = self.raw(i, n) & mask(w);
            }
            if ok {
                let v = self.ar.lookup(sym, out, w);
                return Ok(self.norm(v));
            }
        }
        let x = self.need(a)?;
        let v = self.load(x, n)?;
        Ok(self.trim(v, w, n))
    }
    #[inline(always)]
    fn trim(&mut self, v: Val, w: u8, n: usize) -> Val {
        if w as usize == n * 8 {
            v
        } else if v.s == 0 {
            Val::c(v.v & mask(w))
        } else {
            self.ar.mk(Op::Trunc, w, v, Val::c(0), Val::c(0))
        }
    }
    // ---- interpretation ----
    #[inline(always)]
    fn get(&self, o: Opd) -> Val {
        if o & CONST != 0 {
            Val::c(unsafe { *self.p.pool.get_unchecked((o & !CONST) as usize) })
        } else {
            unsafe { *self.regs.get_unchecked((self.cur.base + o) as usize) }
        }
    }
    #[inline(always)]
    fn set(&mut self, r: u32, v: Val) {
        unsafe { *self.regs.get_unchecked_mut((self.cur.base + r) as usize) = v }
    }
    #[inline(always)]
    fn take(&mut self, e: u32) {
        let p = self.p;
        let ed = &p.funcs[self.cur.f as usize].edges[e as usize];
        if ed.par {
            let tmp: Vec<Val> = ed.copies.iter().map(|c| self.get(c.1)).collect();
            for (c, v) in ed.copies.iter().zip(tmp) {
                self.set(c.0, v);
            }
        } else {
            for c in &ed.copies {
                let v = self.get(c.1);
                self.set(c.0, v);
            }
        }
        self.cur.pc = ed.pc;
    }
    fn enter(&mut self, f: u32, args: &[Val], dst: u32) -> R<()> {
        let fu = &self.p.funcs[f as usize];
        if !fu.defined {
            return Err(Stop::End(End::Unsup(format!("call of {}", fu.name))));
        }
        if args.len() != fu.nargs as usize {
            return Err(Stop::End(End::Unsup(format!("argument shape of {}", fu.name))));
        }
        self.used[f as usize] = true;
        let nb = if self.frames.is_empty() && self.cur.base == u32::MAX { 0 } else { self.cur.base + self.p.funcs[self.cur.f as usize].nregs };
        if nb as usize + fu.nregs as usize + 64 > self.regs.len() || self.frames.len() > 20000 {
            return Err(Stop::End(End::Fault("stack overflow".into())));
        }
        let sp = self.cur.sp;
        self.frames.push(self.cur);
        self.cur = Frame { f, pc: 0, base: nb, sp, dst };
        for (i, a) in args.iter().enumerate() {
            self.regs[nb as usize + i] = *a;
        }
        Ok(())
    }
    /// Read a &str argument pair from concrete memory, for messages.
    fn cstr(&mut self, p: u64, n: u64) -> Option<String> {
        if n > 300 {
            return None;
        }
        let i = self.chk(p, n).ok()?;
        Some(String::from_utf8_lossy(&self.mem[i..i + n as usize]).into_owned())
    }
    fn location(&mut self, v: Val) -> Option<String> {
        if v.s != 0 {
            return None;
        }
        let i = self.chk(v.v, 24).ok()?;
        let (p, n) = (self.raw(i, 8), self.raw(i + 8, 8));
        let line = self.raw(i + 16, 4);
        let s = self.cstr(p, n.min(300))?;
        if n == 0 || !s.contains(".rs") {
            return None;
        }
        Some(format!("{}:{}", s.trim_end_matches('\0'), line))
    }
    fn native(&mut self, k: Native, c: u32) -> R<()> {
        let p = self.p;
        let ci = &p.funcs[self.cur.f as usize].calls[c as usize];
        let mut args = [Val::default(); 16];
        let n = ci.args.len().min(16);
        for i in 0..n {
            args[i] = self.get(ci.args[i]);
        }
        match k {
            Native::MemCpy => {
                let (d, s, n) = (self.need(args[0])?, self.need(args[1])?, self.need(args[2])?);
                self.memcpy(d, s, n)?;
                if ci.nret > 0 {
                    self.set(ci.dst, Val::c(d));
                }
            }
            Native::MemSet => {
                let (d, n) = (self.need(args[0])?, self.need(args[2])?);
                self.memset(d, args[1], n)?;
                if ci.nret > 0 {
                    self.set(ci.dst, Val::c(d));
                }
            }
            Native::Alloc | Native::ZAlloc => {
                let (n, al) = (self.need(args[0])?, self.need(args[1])?);
                let a = self.alloc(n, al)?;
                if k == Native::ZAlloc {
                    self.memset(a, Val::c(0), n)?;
                }
                self.set(ci.dst, Val::c(a));
            }
            Native::Dealloc => {}
            Native::Realloc => {
                let (pt, old, al, new) = (self.need(args[0])?, self.need(args[1])?, self.need(args[2])?, self.need(args[3])?);
                if pt + old == self.hp && new > old && self.hp + (new - old) < MEM as u64 {
                    self.hp += new - old;
                    self.set(ci.dst, Val::c(pt));
                } else {
                    let a = self.alloc(new, al)?;
                    self.memcpy(a, pt, old.min(new))?;
                    self.set(ci.dst, Val::c(a));
                }
            }
            Native::Hash => self.set(ci.dst, Val::c(0x517c_c1b7_2722_0a95)),
            Native::RKeys => {
                self.set(ci.dst, Val::c(1));
                if ci.nret > 1 {
                    self.set(ci.dst + 1, Val::c(2));
                }
            }
            Native::Memchr(m) | Native::Memrchr(m) => {
                let m = m as usize;
                let (pt, n) = (self.need(args[m])?, self.need(args[m + 1])?);
                let mut found = None;
                if n > 0 {
                    let i = self.chk(pt, n)?;
                    for j in 0..n as usize {
                        let j = if matches!(k, Native::Memrchr(_)) { n as usize - 1 - j } else { j };
                        let b = self.byte_at(i + j);
                        let mut any = Val::c(0);
                        for q in 0..m {
                            let e = self.ar.mk(Op::Eq, 8, b, args[q], Val::c(0));
                            any = self.ar.mk(Op::Or, 1, any, e, Val::c(0));
                        }
                        if self.need(any)? == 1 {
                            found = Some(j);
                            break;
                        }
                    }
                }
                self.set(ci.dst, Val::c(found.is_some() as u64));
                self.set(ci.dst + 1, Val::c(found.unwrap_or(0) as u64));
            }
            Native::Bcmp | Native::Memcmp => {
                let (a, b, n) = (self.need(args[0])?, self.need(args[1])?, self.need(args[2])?);
                let mut r = 0u64;
                if n > 0 {
                    let (i, j) = (self.chk(a, n)?, self.chk(b, n)?);
                    for q in 0..n as usize {
                        let (x, y) = (self.byte_at(i + q), self.byte_at(j + q));
                        if x == y {
                            continue;
                        }
                        let e = self.ar.mk(Op::Eq, 8, x, y, Val::c(0));
                        if self.need(e)? == 1 {
                            continue;
                        }
                        if k == Native::Bcmp {
                            r = 1;
                        } else {
                            let l = self.ar.mk(Op::Ult, 8, x, y, Val::c(0));
                            r = if self.need(l)? == 1 { 0xffff_ffff } else { 1 };
                        }
                        break;
                    }
                }
                self.set(ci.dst, Val::c(r));
            }
            Native::Strlen => {
                let a = self.need(args[0])?;
                let mut n = 0;
                loop {
                    let i = self.chk(a + n, 1)?;
                    let b = self.byte_at(i);
                    if self.need(b)? == 0 {
                        break;
                    }
                    n += 1;
                }
                self.set(ci.dst, Val::c(n));
            }
            Native::Emit => {
                let (a, n) = (self.need(args[0])?, self.need(args[1])?);
                if n > 0 {
                    let i = self.chk(a, n)?;
                    for q in 0..n as usize {
                        let b = self.byte_at(i + q);
                        self.emitted.push(b);
                    }
                }
            }
            Native::Note => {
                let b = self.need(args[0])?;
                self.notes |= 1 << (b & 63);
            }
            Native::Panic => {
                let mut loc = None;
                for i in (0..n).rev() {
                    loc = self.location(args[i]);
                    if loc.is_some() {
                        break;
                    }
                }
                let who = p.funcs[ci.f as usize].name.rsplit('.').next().unwrap_or("");
                let at = loc.unwrap_or_else(|| {
                    let mut t: Vec<&str> = vec![&p.funcs[self.cur.f as usize].name];
                    for f in self.frames.iter().rev().take(3) {
                        t.push(&p.funcs[f.f as usize].name);
                    }
                    t.join(" < ")
                });
                return Err(Stop::End(End::Panic(format!("{} ({})", at, short(who)))));
            }
            Native::Abort => return Err(Stop::End(End::Abort(p.funcs[self.cur.f as usize].name.clone()))),
            Native::GetEnv | Native::Zero | Native::PthreadKeyCreate | Native::Nop => {
                if k == Native::PthreadKeyCreate {
                    let a = self.need(args[0])?;
                    self.store(a, 4, Val::c(1))?;
                }
                for i in 0..ci.nret {
                    self.set(ci.dst + i, Val::c(0));
                }
            }
            Native::Syscall | Native::GetRandom => {
                // only entropy requests are expected
                if k == Native::Syscall && args[0] != Val::c(318) {
                    return Err(Stop::End(End::Unsup(format!("syscall {:?}", args[0]))));
                }
                let o = if k == Native::Syscall { 1 } else { 0 };
                let (a, n) = (self.need(args[o])?, self.need(args[o + 1])?);
                self.memset(a, Val::c(7), n)?;
                self.set(ci.dst, Val::c(n));
            }
            Native::ErrnoLoc => {
                let a = self.alloc(16, 16)?;
                self.memset(a, Val::c(0), 16)?;
                self.set(ci.dst, Val::c(a));
            }
            Native::Unknown => return Err(Stop::End(End::Unsup(format!("external {}", p.funcs[ci.f as usize].name)))),
        }
        Ok(())
    }
    pub fn alloc(&mut self, n: u64, al: u64) -> R<u64> {
        let al = al.max(16);
        let a = (self.hp + al - 1) & !(al - 1);
        if n > MEM as u64 || a + n > MEM as u64 - 64 {
            return Err(Stop::End(End::Fault("out of memory".into())));
        }
        self.hp = a + n;
        Ok(a)
    }
    fn step_loop(&mut self) -> Stop {
        let p = self.p;
        loop {
            let fu = &p.funcs[self.cur.f as usize];
            let code = &fu.code[..];
            // stay in this function until a call or return
            loop {
                self.steps += 1;
                if self.steps > self.budget {
                    return Stop::End(End::Budget);
                }
                if let Some(pr) = &mut self.prof {
                    pr[self.cur.f as usize] += 1;
                }
                let i = unsafe { code.get_unchecked(self.cur.pc as usize) };
                macro_rules! tr {
                    ($e:expr) => {
                        match $e {
                            Ok(x) => x,
                            Err(s) => return s,
                        }
                    };
                }
                match *i {
                    I::Op2 { op, w, dst, a, b } => {
                        let (x, y) = (self.get(a), self.get(b));
                        let r = if x.s == 0 && y.s == 0 {
                            if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && y.v == 0 {
                                return Stop::End(End::Fault("division by zero".into()));
                            }
                            Val::c(eval_op(op, w, x.v, y.v, 0))
                        } else if op == Op::Mov {
                            x
                        } else {
                            let (x, y) = (self.norm(x), self.norm(y));
                            self.ar.mk(op, w, x, y, Val::c(0))
                        };
                        self.set(dst, r);
                        self.cur.pc += 1;
                    }
                    I::Op3 { op, w, dst, a, b, c } => {
                        let (x, y, z) = (self.get(a), self.get(b), self.get(c));
                        let r = if x.s == 0 && y.s == 0 && z.s == 0 {
                            Val::c(eval_op(op, w, x.v, y.v, z.v))
                        } else if op == Op::Select && self.norm(x).s == 0 {
                            if self.norm(x).v & 1 != 0 { y } else { z }
                        } else if matches!(op, Op::UIToFP | Op::SIToFP) {
                            // one path per number: floating point terms are hard on the solver
                            let x = tr!(self.need(x));
                            Val::c(eval_op(op, w, x, y.v, z.v))
                        } else {
                            let (x, y, z) = (self.norm(x), self.norm(y), self.norm(z));
                            self.ar.mk(op, w, x, y, z)
                        };
                        self.set(dst, r);
                        self.cur.pc += 1;
                    }
                    I::Load { w, n, dst, a } => {
                        let ad = self.get(a);
                        let v = if ad.s == 0 {
                            let v = tr!(self.load(ad.v, n as usize));
                            self.trim(v, w, n as usize)
                        } else {
                            tr!(self.sload(ad, n as usize, w))
                        };
                        self.set(dst, v);
                        self.cur.pc += 1;
                    }
                    I::Store { n, a, v } => {
                        let ad = self.get(a);
                        let ad = if ad.s == 0 { ad.v } else { tr!(self.need(ad)) };
                        let v = self.get(v);
                        let v = self.norm(v);
                        tr!(self.store(ad, n as usize, v));
                        self.cur.pc += 1;
                    }
                    I::Jmp { e } => self.take(e),
                    I::CBr { c, t, f } => {
                        let v = self.get(c);
                        let b = if v.s == 0 { v.v } else { tr!(self.need(v)) };
                        self.take(if b & 1 != 0 { t } else { f });
                    }
                    I::Switch { v, t } => {
                        let x = self.get(v);
                        let st = &fu.switches[t as usize];
                        let x = self.norm(x);
                        let e = if x.s == 0 {
                            *st.map.get(&x.v).unwrap_or(&st.default)
                        } else if self.ar.is_single(x) {
                            let sym = self.ar.symof(x);
                            let d = self.dom[sym];
                            let mut groups: Vec<(u64, Dom)> = vec![];
                            let mut tg: Vec<(u32, Dom)> = vec![];
                            self.decisions += 1;
                            {
                                let tb = self.ar.tab(x);
                                for b in dom_iter(d) {
                                    let val = tb[b];
                                    match groups.iter_mut().find(|g| g.0 == val) {
                                        Some(g) => g.1[b >> 6] |= 1 << (b & 63),
                                        None => groups.push((val, single_dom(b))),
                                    }
                                    let e = *st.map.get(&val).unwrap_or(&st.default);
                                    match tg.iter_mut().find(|g| g.0 == e) {
                                        Some(g) => g.1[b >> 6] |= 1 << (b & 63),
                                        None => tg.push((e, single_dom(b))),
                                    }
                                }
                            }
                            if self.confirm && !self.solver.confirm_single(&self.ar, x.s, &d, &groups) {
                                self.bad_confirm.push("switch not confirmed".into());
                            }
                            if tg.len() > 1 {
                                return self.fork(sym, tg.into_iter().map(|g| g.1).collect());
                            }
                            tg[0].0
                        } else {
                            let x = tr!(self.need(x));
                            *st.map.get(&x).unwrap_or(&st.default)
                        };
                        self.take(e);
                    }
                    I::Call { c } => {
                        let ci = &fu.calls[c as usize];
                        let nb = self.cur.base + fu.nregs;
                        let tf = &p.funcs[ci.f as usize];
                        if nb as usize + tf.nregs as usize + 64 > self.regs.len() || self.frames.len() > 20000 {
                            return Stop::End(End::Fault("stack overflow".into()));
                        }
                        if ci.args.len() != tf.nargs as usize {
                            return Stop::End(End::Unsup(format!("argument shape of {}", tf.name)));
                        }
                        for (k, a) in ci.args.iter().enumerate() {
                            let v = self.get(*a);
                            self.regs[nb as usize + k] = v;
                        }
                        self.used[ci.f as usize] = true;
                        self.cur.pc += 1;
                        self.frames.push(self.cur);
                        self.cur = Frame { f: ci.f, pc: 0, base: nb, sp: self.cur.sp, dst: ci.dst };
                        break;
                    }
                    I::CallInd { f, c } => {
                        let fv = self.get(f);
                        let fa = tr!(self.need(fv));
                        let ci = &fu.calls[c as usize];
                        let k = fa.wrapping_sub(FBASE) / 16;
                        if fa < FBASE || k >= p.funcs.len() as u64 || fa % 16 != 0 {
                            return Stop::End(End::Fault(format!("indirect call to {:#x}", fa)));
                        }
                        let tf = &p.funcs[k as usize];
                        if let Some(nk) = tf.native {
                            // natives are reached indirectly only through their addresses
                            let _ = nk;
                            return Stop::End(End::Unsup(format!("indirect call of {}", tf.name)));
                        }
                        let nb = self.cur.base + fu.nregs;
                        if nb as usize + tf.nregs as usize + 64 > self.regs.len() || self.frames.len() > 20000 {
                            return Stop::End(End::Fault("stack overflow".into()));
                        }
                        if ci.args.len() != tf.nargs as usize {
                            return Stop::End(End::Unsup(format!("argument shape of {}", tf.name)));
                        }
                        for (q, a) in ci.args.iter().enumerate() {
                            let v = self.get(*a);
                            self.regs[nb as usize + q] = v;
                        }
                        self.used[k as usize] = true;
                        self.cur.pc += 1;
                        self.frames.push(self.cur);
                        self.cur = Frame { f: k as u32, pc: 0, base: nb, sp: self.cur.sp, dst: ci.dst };
                        break;
                    }
                    I::Native { k, c } => {
                        tr!(self.native(k, c));
                        self.cur.pc += 1;
                    }
                    I::Ret { r } => {
                        let rs = &fu.rets[r as usize];
                        self.ret.clear();
                        for &o in rs {
                            let v = self.get(o);
                            self.ret.push(v);
                        }
                        if self.frames.len() == 1 {
                            // leaving the entry function
                            let v = self.ret.first().copied().unwrap_or_default();
                            return match self.need(v) {
                                Ok(x) => Stop::End(End::Ret(x)),
                                Err(s) => s,
                            };
                        }
                        let dst = self.cur.dst;
                        self.cur = self.frames.pop().unwrap();
                        for k in 0..self.ret.len() {
                            let v = self.ret[k];
                            self.set(dst + k as u32, v);
                        }
                        break;
                    }
                    I::Unreach => return Stop::End(End::Fault(format!("unreachable executed in {}", fu.name))),
                    I::Alloca { dst, size, align } => {
                        let s = self.get(size);
                        let n = tr!(self.need(s));
                        let al = align as u64;
                        let a = (self.cur.sp + al - 1) & !(al - 1);
                        self.cur.sp = a + n;
                        if self.cur.sp >= GBASE + ((p.globals.len() as u64 + 0xffff) & !0xffff) + STACK {
                            return Stop::End(End::Fault("stack overflow".into()));
                        }
                        self.set(dst, Val::c(a));
                        self.cur.pc += 1;
                    }
                    I::Pack { dst, src, n, lw } => {
                        let mut v = 0u64;
                        let mut conc = true;
                        for k in 0..n as u32 {
                            let x = self.get(src + k);
                            if x.s != 0 {
                                conc = false;
                                break;
                            }
                            v |= x.v << (k * lw as u32);
                        }
                        if conc {
                            self.set(dst, Val::c(v));
                        } else {
                            let w = n * lw;
                            let mut acc = Val::c(0);
                            for k in 0..n as u32 {
                                let x = self.get(src + k);
                                let x = self.norm(x);
                                let s = self.ar.mk(Op::Shl, w, x, Val::c((k * lw as u32) as u64), Val::c(0));
                                acc = self.ar.mk(Op::Or, w, acc, s, Val::c(0));
                            }
                            self.set(dst, acc);
                        }
                        self.cur.pc += 1;
                    }
                    I::CmpX { dst, a, old, new, n } => {
                        let ad = self.get(a);
                        let ad = tr!(self.need(ad));
                        let cur = tr!(self.load(ad, n as usize));
                        let o = self.get(old);
                        let e = self.ar.mk(Op::Eq, n * 8, cur, o, Val::c(0));
                        let eq = tr!(self.need(e));
                        if eq == 1 {
                            let v = self.get(new);
                            tr!(self.store(ad, n as usize, v));
                        }
                        self.set(dst, cur);
                        self.set(dst + 1, Val::c(eq));
                        self.cur.pc += 1;
                    }
                    I::Unsup { m } => return Stop::End(End::Unsup(p.msgs[m as usize].clone())),
                }
            }
        }
    }
    /// Start a call of `f`; state must be at the base level.
    pub fn start(&mut self, f: &str, args: &[Val]) -> Result<(), String> {
        let f = *self.p.fidx.get(f).ok_or(format!("no function {}", f))?;
        self.frames.clear();
        self.choices.clear();
        self.emitted.clear();
        self.notes = 0;
        self.steps = 0;
        let stack = (GBASE + self.p.globals.len() as u64 + 0xffff) & !0xffff;
        self.cur = Frame { f: 0, pc: 0, base: 0, sp: stack, dst: 0 };
        let fu = &self.p.funcs[f as usize];
        if args.len() != fu.nargs as usize {
            return Err("entry arity".into());
        }
        self.used[f as usize] = true;
        self.frames.push(self.cur);
        self.cur = Frame { f, pc: 0, base: 0, sp: stack, dst: 0 };
        for (i, a) in args.iter().enumerate() {
            self.regs[i] = *a;
        }
        Ok(())
    }
    /// Run to the end of the current path.
    pub fn run(&mut self) -> End {
        let s0 = self.steps;
        loop {
            match self.step_loop() {
                Stop::Fork => continue,
                Stop::End(e) => {
                    self.total_steps += self.steps - s0;
                    return e;
                }
            }
        }
    }
    /// Move to the next unexplored path; false when there is none.
    pub fn backtrack(&mut self) -> bool {
        loop {
            let Some(ch) = self.choices.last_mut() else { return false };
            let Some(next) = ch.rest.pop() else {
                self.choices.pop();
                continue;
            };
            let (t, s, b) = (ch.trail, ch.strail, ch.tbytes);
            let sym = ch.sym;
            self.dom.copy_from_slice(&ch.doms);
            self.dom[sym] = next;
            self.frames.clear();
            self.frames.extend_from_slice(&ch.frames);
            self.cur = ch.cur;
            self.regs[..ch.regs.len()].copy_from_slice(&ch.regs);
            self.hp = ch.hp;
            self.emitted.truncate(ch.emitted);
            self.notes = ch.notes;
            self.steps = ch.steps;
            let last = ch.rest.is_empty();
            self.undo_to(t, s, b);
            if last {
                self.choices.pop();
            }
            return true;
        }
    }
    /// Give away the oldest pending alternative as a box.
    pub fn donate(&mut self) -> Option<Vec<Dom>> {
        for ch in self.choices.iter_mut() {
            if let Some(d) = ch.rest.pop() {
                let mut doms = ch.doms.clone();
                doms[ch.sym] = d;
                return Some(doms);
            }
        }
        None
    }
    pub fn pending(&self) -> bool {
        self.choices.iter().any(|c| !c.rest.is_empty())
    }
    pub fn marks(&self) -> (usize, usize, usize, u64) {
        (self.trail.len(), self.strail.len(), self.tbytes.len(), self.hp)
    }
    pub fn reset(&mut self, m: (usize, usize, usize, u64)) {
        self.choices.clear();
        self.undo_to(m.0, m.1, m.2);
        self.hp = m.3;
    }
    /// Forget the trail: the present memory becomes the base state.
    pub fn commit(&mut self) {
        self.trail.clear();
        self.strail.clear();
        self.tbytes.clear();
    }
    pub fn poke(&mut self, a: u64, bs: &[Val]) {
        for (i, b) in bs.iter().enumerate() {
            self.store_byte(a as usize + i, *b);
        }
    }
    pub fn emitted_bytes(&self, asg: &[u8]) -> Vec<u8> {
        self.emitted.iter().map(|v| self.ar.eval(*v, asg) as u8).collect()
    }
}

fn short(n: &str) -> String {
    // last identifiers of a v0 name
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() && j - i < 3 {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if k >= 3 && j + k <= b.len() && b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                out.push(String::from_utf8_lossy(&b[j..j + k]).trim_start_matches('_').to_string());
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    let k = out.len().saturating_sub(2);
    out[k..].join("::")
}
