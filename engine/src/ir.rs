//! LLVM module -> register bytecode.  Aggregates, vectors and integers wider than
//! 64 bits are split into scalars of at most 64 bits.
use crate::expr::{self, mask, Op};
use crate::llvm::*;
use std::collections::HashMap;

pub type Opd = u32; // register (frame relative), or CONST|index
pub const CONST: u32 = 0x8000_0000;
pub const FBASE: u64 = 0x1_0000_0000;
pub const GBASE: u64 = 0x10000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Native {
    Panic, Emit, Note, Hash, RKeys, Alloc, ZAlloc, Dealloc, Realloc,
    Memchr(u8), Memrchr(u8),
    MemCpy, MemSet, Bcmp, Memcmp, Strlen, Abort, Nop, GetEnv, PthreadKeyCreate, Zero, Syscall, GetRandom, ErrnoLoc, Unknown,
}

#[derive(Clone, Debug)]
pub enum I {
    Op2 { op: Op, w: u8, dst: u32, a: Opd, b: Opd },
    Op3 { op: Op, w: u8, dst: u32, a: Opd, b: Opd, c: Opd },
    Load { w: u8, n: u8, dst: u32, a: Opd },
    Store { n: u8, a: Opd, v: Opd },
    Jmp { e: u32 },
    CBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, t: u32 },
    Call { c: u32 },
    CallInd { f: Opd, c: u32 },
    Native { k: Native, c: u32 },
    Ret { r: u32 },
    Unreach,
    Alloca { dst: u32, size: Opd, align: u32 },
    Pack { dst: u32, src: u32, n: u8, lw: u8 },
    CmpX { dst: u32, a: Opd, old: Opd, new: Opd, n: u8 },
    Unsup { m: u32 },
}

#[derive(Clone, Debug, Default)]
pub struct Edge {
    pub pc: u32,
    pub par: bool,
    pub copies: Vec<(u32, Opd)>,
}
#[derive(Clone, Debug)]
pub struct CallInfo {
    pub f: u32,
    pub args: Vec<Opd>,
    pub dst: u32,
    pub nret: u32,
}
#[derive(Clone, Debug, Default)]
pub struct SwitchT {
    pub default: u32,
    pub cases: Vec<(u64, u32)>,
    pub map: HashMap<u64, u32>,
}
#[derive(Default)]
pub struct Func {
    pub name: String,
    pub native: Option<Native>,
    pub nargs: u32,
    pub nregs: u32,
    pub code: Vec<I>,
    pub edges: Vec<Edge>,
    pub switches: Vec<SwitchT>,
    pub calls: Vec<CallInfo>,
    pub rets: Vec<Vec<Opd>>,
    pub defined: bool,
}
#[derive(Default)]
pub struct Program {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub pool: Vec<u64>,
    pub globals: Vec<u8>, // image, at GBASE
    pub msgs: Vec<String>,
    pub nins: usize,
}

#[derive(Clone, Copy, Debug)]
pub struct Sc {
    pub w: u8,
    pub off: u64,
    pub n: u8, // bytes in memory
}

struct Tr {
    td: TD,
    p: Program,
    gaddr: HashMap<usize, u64>,
    fnum: HashMap<usize, u32>,
    poolmap: HashMap<u64, u32>,
}

unsafe fn flat(td: TD, t: Type, off: u64, out: &mut Vec<Sc>) {
    match LLVMGetTypeKind(t) {
        TK_INT => {
            let w = LLVMGetIntTypeWidth(t);
            if w <= 64 {
                out.push(Sc { w: w as u8, off, n: w.div_ceil(8) as u8 });
            } else {
                assert!(w <= 128, "int width {}", w);
                out.push(Sc { w: 64, off, n: 8 });
                out.push(Sc { w: (w - 64) as u8, off: off + 8, n: (w - 64).div_ceil(8) as u8 });
            }
        }
        TK_PTR => out.push(Sc { w: 64, off, n: 8 }),
        TK_DOUBLE => out.push(Sc { w: 64, off, n: 8 }),
        TK_FLOAT => out.push(Sc { w: 32, off, n: 4 }),
        TK_STRUCT => {
            for i in 0..LLVMCountStructElementTypes(t) {
                flat(td, LLVMStructGetTypeAtIndex(t, i), off + LLVMOffsetOfElement(td, t, i), out);
            }
        }
        TK_ARRAY => {
            let e = LLVMGetElementType(t);
            let sz = LLVMABISizeOfType(td, e);
            for i in 0..LLVMGetArrayLength2(t) {
                flat(td, e, off + i * sz, out);
            }
        }
        TK_VEC => {
            let e = LLVMGetElementType(t);
            // lanes are packed; sub-byte lanes are only legal in registers
            let bits = if LLVMGetTypeKind(e) == TK_INT { LLVMGetIntTypeWidth(e) as u64 } else { LLVMABISizeOfType(td, e) * 8 };
            for i in 0..LLVMGetVectorSize(t) as u64 {
                let mut o = vec![];
                flat(td, e, off + i * bits / 8, &mut o);
                out.extend(o);
            }
        }
        TK_VOID | TK_META | TK_LABEL => {}
        k => panic!("type kind {} {}", k, ty_str(t)),
    }
}
unsafe fn flatv(td: TD, t: Type) -> Vec<Sc> {
    let mut v = vec![];
    flat(td, t, 0, &mut v);
    v
}
/// Number of scalars of a type.
unsafe fn nsc(td: TD, t: Type) -> usize {
    flatv(td, t).len()
}

impl Tr {
    unsafe fn cvals(&mut self, v: Value, out: &mut Vec<u64>) -> Result<(), String> {
        let t = LLVMTypeOf(v);
        let k = LLVMGetTypeKind(t);
        if !LLVMIsAUndefValue(v).is_null() || !LLVMIsAPoisonValue(v).is_null() || !LLVMIsAConstantAggregateZero(v).is_null() || !LLVMIsAConstantPointerNull(v).is_null() {
            for _ in 0..nsc(self.td, t) {
                out.push(0);
            }
            return Ok(());
        }
        if !LLVMIsAFunction(v).is_null() {
            out.push(FBASE + 16 * self.fnum[&(v as usize)] as u64);
            return Ok(());
        }
        if !LLVMIsAGlobalVariable(v).is_null() {
            out.push(self.gaddr[&(v as usize)]);
            return Ok(());
        }
        if !LLVMIsAGlobalAlias(v).is_null() {
            return self.cvals(LLVMAliasGetAliasee(v), out);
        }
        if !LLVMIsAConstantInt(v).is_null() && k == TK_INT {
            let w = LLVMGetIntTypeWidth(t);
            if w <= 64 {
                out.push(LLVMConstIntGetZExtValue(v) & mask(w as u8));
            } else {
                let s = val_str(v);
                let n = s.split_whitespace().nth(1).unwrap();
                let x: u128 = if let Ok(x) = n.parse::<i128>() { x as u128 } else { n.parse::<u128>().map_err(|_| format!("const {}", s))? };
                out.push(x as u64);
                out.push((x >> 64) as u64 & mask((w - 64) as u8));
            }
            return Ok(());
        }
        if !LLVMIsAConstantFP(v).is_null() && (k == TK_DOUBLE || k == TK_FLOAT) {
            let mut l = 0;
            let d = LLVMConstRealGetDouble(v, &mut l);
            out.push(if k == TK_FLOAT { (d as f32).to_bits() as u64 } else { d.to_bits() });
            return Ok(());
        }
        if !LLVMIsAConstantExpr(v).is_null() {
            let op = LLVMGetConstOpcode(v);
            let mut a = vec![];
            match op {
                29 => {
                    self.cvals(LLVMGetOperand(v, 0), &mut a)?;
                    let mut addr = a[0];
                    let mut ty = LLVMGetGEPSourceElementType(v);
                    for i in 1..LLVMGetNumOperands(v) as u32 {
                        let mut ix = vec![];
                        self.cvals(LLVMGetOperand(v, i), &mut ix)?;
                        let w = LLVMGetIntTypeWidth(LLVMTypeOf(LLVMGetOperand(v, i))) as u8;
                        let x = expr::sext(ix[0], w);
                        if i == 1 {
                            addr = addr.wrapping_add((x as u64).wrapping_mul(LLVMABISizeOfType(self.td, ty)));
                        } else if LLVMGetTypeKind(ty) == TK_STRUCT {
                            addr += LLVMOffsetOfElement(self.td, ty, x as u32);
                            ty = LLVMStructGetTypeAtIndex(ty, x as u32);
                        } else {
                            ty = LLVMGetElementType(ty);
                            addr = addr.wrapping_add((x as u64).wrapping_mul(LLVMABISizeOfType(self.td, ty)));
                        }
                    }
                    out.push(addr);
                }
                30 | 39 | 40 | 41 | 69 => {
                    self.cvals(LLVMGetOperand(v, 0), &mut a)?;
                    let w = flatv(self.td, t)[0].w;
                    out.push(a[0] & mask(w));
                }
                8 | 10 | 25 => {
                    self.cvals(LLVMGetOperand(v, 0), &mut a)?;
                    self.cvals(LLVMGetOperand(v, 1), &mut a)?;
                    let w = flatv(self.td, t)[0].w;
                    out.push(expr::eval_op(match op { 8 => Op::Add, 10 => Op::Sub, _ => Op::Xor }, w, a[0], a[1], 0));
                }
                _ => return Err(format!("const expr op {} {}", op, val_str(v))),
            }
            return Ok(());
        }
        match k {
            TK_STRUCT | TK_ARRAY | TK_VEC => {
                let n = match k {
                    TK_STRUCT => LLVMCountStructElementTypes(t) as u64,
                    TK_ARRAY => LLVMGetArrayLength2(t),
                    _ => LLVMGetVectorSize(t) as u64,
                };
                for i in 0..n {
                    let e = LLVMGetAggregateElement(v, i as u32);
                    if e.is_null() {
                        return Err(format!("aggregate element {}", val_str(v)));
                    }
                    self.cvals(e, out)?;
                }
                Ok(())
            }
            _ => {
                // splat constants of vector type etc.
                Err(format!("constant {}", val_str(v)))
            }
        }
    }
    fn konst(&mut self, v: u64) -> Opd {
        if let Some(&i) = self.poolmap.get(&v) {
            return i;
        }
        let i = self.p.pool.len() as u32 | CONST;
        self.p.pool.push(v);
        self.poolmap.insert(v, i);
        i
    }
    unsafe fn init_global(&mut self, addr: u64, v: Value) -> Result<(), String> {
        let sc = flatv(self.td, LLVMTypeOf(v));
        let mut vals = Vec::with_capacity(sc.len());
        self.cvals(v, &mut vals)?;
        if sc.len() != vals.len() {
            return Err(format!("global init shape {} {}", sc.len(), vals.len()));
        }
        for (s, x) in sc.iter().zip(vals) {
            let o = (addr - GBASE + s.off) as usize;
            self.p.globals[o..o + s.n as usize].copy_from_slice(&x.to_le_bytes()[..s.n as usize]);
        }
        Ok(())
    }
}

fn native_of(name: &str) -> Native {
    if let Some(r) = name.strip_prefix("mdsym.") {
        return match r.split('.').next().unwrap() {
            "panic" => Native::Panic,
            "emit" => Native::Emit,
            "note" => Native::Note,
            "hash" => Native::Hash,
            "rkeys" => Native::RKeys,
            "alloc" => Native::Alloc,
            "zalloc" => Native::ZAlloc,
            "dealloc" => Native::Dealloc,
            "realloc" => Native::Realloc,
            "memchr" => Native::Memchr(1),
            "memchr2" => Native::Memchr(2),
            "memchr3" => Native::Memchr(3),
            "memrchr" => Native::Memrchr(1),
            "memrchr2" => Native::Memrchr(2),
            x => panic!("stub {}", x),
        };
    }
    match name {
        "bcmp" => Native::Bcmp,
        "memcmp" => Native::Memcmp,
        "strlen" => Native::Strlen,
        "memcpy" | "memmove" => Native::MemCpy,
        "memset" => Native::MemSet,
        "abort" | "llvm.trap" => Native::Abort,
        "getenv" => Native::GetEnv,
        "pthread_key_create" => Native::PthreadKeyCreate,
        "pthread_setspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "pthread_getspecific" => Native::Zero,
        "syscall" => Native::Syscall,
        "getrandom" => Native::GetRandom,
        "__errno_location" => Native::ErrnoLoc,
        "gettid" => Native::Zero,
        _ => Native::Unknown,
    }
}

struct Fx<'a> {
    t: &'a mut Tr,
    f: Func,
    regs: HashMap<usize, u32>,
    bbpc: HashMap<usize, u32>,
    // (edge, from, to)
    pend: Vec<(u32, BB, BB)>,
    consts: HashMap<usize, Vec<Opd>>,
}

impl<'a> Fx<'a> {
    fn reg(&mut self, n: usize) -> u32 {
        let r = self.f.nregs;
        self.f.nregs += n as u32;
        r
    }
    unsafe fn ops(&mut self, v: Value) -> Result<Vec<Opd>, String> {
        if let Some(&r) = self.regs.get(&(v as usize)) {
            let n = nsc(self.t.td, LLVMTypeOf(v));
            return Ok((0..n as u32).map(|i| r + i).collect());
        }
        if let Some(c) = self.consts.get(&(v as usize)) {
            return Ok(c.clone());
        }
        if LLVMIsAConstant(v).is_null() {
            return Err(format!("operand {}", val_str(v)));
        }
        let mut o = vec![];
        self.t.cvals(v, &mut o)?;
        let o: Vec<Opd> = o.into_iter().map(|x| self.t.konst(x)).collect();
        self.consts.insert(v as usize, o.clone());
        Ok(o)
    }
    unsafe fn op1(&mut self, v: Value) -> Result<Opd, String> {
        Ok(self.ops(v)?[0])
    }
    fn emit(&mut self, i: I) {
        self.f.code.push(i);
    }
    fn e2(&mut self, op: Op, w: u8, dst: u32, a: Opd, b: Opd) {
        self.emit(I::Op2 { op, w, dst, a, b });
    }
    fn t2(&mut self, op: Op, w: u8, a: Opd, b: Opd) -> u32 {
        let d = self.reg(1);
        self.e2(op, w, d, a, b);
        d
    }
    fn t3(&mut self, op: Op, w: u8, a: Opd, b: Opd, c: Opd) -> u32 {
        let d = self.reg(1);
        self.emit(I::Op3 { op, w, dst: d, a, b, c });
        d
    }
    fn mov(&mut self, dst: u32, a: Opd) {
        let z = self.t.konst(0);
        self.e2(Op::Mov, 64, dst, a, z);
    }
    fn edge(&mut self, from: BB, to: BB) -> u32 {
        let e = self.f.edges.len() as u32;
        self.f.edges.push(Edge::default());
        self.pend.push((e, from, to));
        e
    }
    unsafe fn dst(&self, v: Value) -> u32 {
        self.regs[&(v as usize)]
    }
    unsafe fn gep(&mut self, v: Value) -> Result<(), String> {
        let d = self.dst(v);
        let base = LLVMGetOperand(v, 0);
        if LLVMGetTypeKind(LLVMTypeOf(base)) == TK_VEC {
            return Err("vector gep".into());
        }
        let mut cur = self.op1(base)?;
        let mut off: u64 = 0;
        let mut ty = LLVMGetGEPSourceElementType(v);
        let n = LLVMGetNumOperands(v) as u32;
        let mut vars = vec![];
        for i in 1..n {
            let ix = LLVMGetOperand(v, i);
            let stride;
            if i > 1 && LLVMGetTypeKind(ty) == TK_STRUCT {
                let k = LLVMConstIntGetZExtValue(ix) as u32;
                off = off.wrapping_add(LLVMOffsetOfElement(self.t.td, ty, k));
                ty = LLVMStructGetTypeAtIndex(ty, k);
                continue;
            }
            if i > 1 {
                ty = LLVMGetElementType(ty);
            }
            stride = LLVMABISizeOfType(self.t.td, ty);
            if !LLVMIsAConstantInt(ix).is_null() {
                off = off.wrapping_add((LLVMConstIntGetSExtValue(ix) as u64).wrapping_mul(stride));
            } else {
                vars.push((ix, stride));
            }
        }
        for (ix, stride) in vars {
            let w = LLVMGetIntTypeWidth(LLVMTypeOf(ix)) as u8;
            let mut x = self.op1(ix)?;
            if w < 64 {
                let k = self.t.konst(64);
                let z = self.t.konst(0);
                let _ = z;
                x = { let zero = self.t.konst(0); self.t3(Op::SExt, w, x, zero, k) };
            }
            if stride != 1 {
                let k = self.t.konst(stride);
                x = self.t2(Op::Mul, 64, x, k);
            }
            cur = self.t2(Op::Add, 64, cur, x);
        }
        let k = self.t.konst(off);
        self.e2(Op::Add, 64, d, cur, k);
        Ok(())
    }
    unsafe fn ins(&mut self, v: Value, bb: BB) -> Result<(), String> {
        let td = self.t.td;
        let opc = LLVMGetInstructionOpcode(v);
        let ty = LLVMTypeOf(v);
        let z = self.t.konst(0);
        let opnd = |i: u32| LLVMGetOperand(v, i);
        match opc {
            1 => {
                let r = if LLVMGetNumOperands(v) == 0 { vec![] } else { self.ops(opnd(0))? };
                let k = self.f.rets.len() as u32;
                self.f.rets.push(r);
                self.emit(I::Ret { r: k });
            }
            7 => self.emit(I::Unreach),
            29 => self.gep(v)?,
            8 | 10 | 12 | 14..=15 | 17 | 18 | 20..=25 => {
                let op = match opc {
                    8 => Op::Add, 10 => Op::Sub, 12 => Op::Mul, 14 => Op::UDiv, 15 => Op::SDiv, 17 => Op::URem, 18 => Op::SRem,
                    20 => Op::Shl, 21 => Op::LShr, 22 => Op::AShr, 23 => Op::And, 24 => Op::Or, _ => Op::Xor,
                };
                let (a, b) = (self.ops(opnd(0))?, self.ops(opnd(1))?);
                let d = self.dst(v);
                let sc = flatv(td, ty);
                let wide = LLVMGetTypeKind(ty) == TK_INT && LLVMGetIntTypeWidth(ty) > 64;
                if wide && !matches!(op, Op::And | Op::Or | Op::Xor) {
                    if LLVMGetIntTypeWidth(ty) != 128 {
                        return Err("odd wide int".into());
                    }
                    match op {
                        Op::Add => {
                            let lo = self.t2(Op::Add, 64, a[0], b[0]);
                            let cy = self.t2(Op::Ult, 64, lo, a[0]);
                            let h = self.t2(Op::Add, 64, a[1], b[1]);
                            self.e2(Op::Add, 64, d + 1, h, cy);
                            self.mov(d, lo);
                        }
                        Op::Sub => {
                            let cy = self.t2(Op::Ult, 64, a[0], b[0]);
                            let lo = self.t2(Op::Sub, 64, a[0], b[0]);
                            let h = self.t2(Op::Sub, 64, a[1], b[1]);
                            self.e2(Op::Sub, 64, d + 1, h, cy);
                            self.mov(d, lo);
                        }
                        Op::Mul => {
                            let lo = self.t2(Op::Mul, 64, a[0], b[0]);
                            let hi = self.t2(Op::MulHi, 64, a[0], b[0]);
                            let x = self.t2(Op::Mul, 64, a[0], b[1]);
                            let y = self.t2(Op::Mul, 64, a[1], b[0]);
                            let s = self.t2(Op::Add, 64, hi, x);
                            self.e2(Op::Add, 64, d + 1, s, y);
                            self.mov(d, lo);
                        }
                        Op::Shl | Op::LShr if b[0] & CONST != 0 => {
                            let s = self.t.p.pool[(b[0] & !CONST) as usize];
                            let left = op == Op::Shl;
                            let (src, oth, dl, dh) = if left { (a[0], a[1], d + 1, d) } else { (a[1], a[0], d, d + 1) };
                            // dl gets the mixed half, dh the plain one
                            if s == 0 {
                                let (x, y) = (self.t2(Op::Mov, 64, a[0], z), self.t2(Op::Mov, 64, a[1], z));
                                self.mov(d, x);
                                self.mov(d + 1, y);
                            } else if s >= 64 {
                                let k = self.t.konst(s - 64);
                                let x = self.t2(op, 64, src, k);
                                self.mov(dl, x);
                                self.mov(dh, z);
                            } else {
                                let k = self.t.konst(s);
                                let kk = self.t.konst(64 - s);
                                let x = self.t2(op, 64, oth, k);
                                let y = self.t2(if left { Op::LShr } else { Op::Shl }, 64, src, kk);
                                let m = self.t2(Op::Or, 64, x, y);
                                let n = self.t2(op, 64, src, k);
                                self.mov(dl, m);
                                self.mov(dh, n);
                            }
                        }
                        Op::Shl => {
                            let hi = self.t3(Op::Shl128Hi, 64, a[0], a[1], b[0]);
                            let lo = self.t2(Op::Shl, 64, a[0], b[0]);
                            self.mov(d, lo);
                            self.mov(d + 1, hi);
                        }
                        Op::LShr => {
                            let lo = self.t3(Op::Shr128Lo, 64, a[0], a[1], b[0]);
                            let hi = self.t2(Op::LShr, 64, a[1], b[0]);
                            self.mov(d, lo);
                            self.mov(d + 1, hi);
                        }
                        _ => return Err("wide int op".into()),
                    }
                } else {
                    for (i, s) in sc.iter().enumerate() {
                        self.e2(op, s.w, d + i as u32, a[i], b[i]);
                    }
                }
            }
            9 | 11 | 13 | 16 | 19 => {
                let op = match opc { 9 => Op::FAdd, 11 => Op::FSub, 13 => Op::FMul, 16 => Op::FDiv, _ => Op::FRem };
                let (a, b) = (self.ops(opnd(0))?, self.ops(opnd(1))?);
                let d = self.dst(v);
                for (i, s) in flatv(td, ty).iter().enumerate() {
                    self.e2(op, s.w, d + i as u32, a[i], b[i]);
                }
            }
            66 => {
                let a = self.ops(opnd(0))?;
                let d = self.dst(v);
                for (i, s) in flatv(td, ty).iter().enumerate() {
                    self.e2(Op::FNeg, s.w, d + i as u32, a[i], z);
                }
            }
            26 => {
                let n = LLVMABISizeOfType(td, LLVMGetAllocatedType(v));
                let cnt = self.op1(opnd(0))?;
                let k = self.t.konst(n);
                let size = if cnt & CONST != 0 {
                    let c = self.t.p.pool[(cnt & !CONST) as usize];
                    self.t.konst(n * c)
                } else {
                    self.t2(Op::Mul, 64, cnt, k)
                };
                let d = self.dst(v);
                self.emit(I::Alloca { dst: d, size, align: LLVMGetAlignment(v).max(8) });
            }
            27 => {
                let a = self.op1(opnd(0))?;
                let d = self.dst(v);
                let sc = flatv(td, ty);
                if LLVMGetTypeKind(ty) == TK_VEC && sc.iter().any(|s| s.w % 8 != 0) {
                    return Err("load of sub-byte vector".into());
                }
                // the address register may be overwritten only by the last load
                for (i, s) in sc.iter().enumerate() {
                    let aa = if s.off == 0 { a } else { let k = self.t.konst(s.off); self.t2(Op::Add, 64, a, k) };
                    self.emit(I::Load { w: s.w, n: s.n, dst: d + i as u32, a: aa });
                }
            }
            28 => {
                let val = self.ops(opnd(0))?;
                let a = self.op1(opnd(1))?;
                let vt = LLVMTypeOf(opnd(0));
                let sc = flatv(td, vt);
                if LLVMGetTypeKind(vt) == TK_VEC && sc.iter().any(|s| s.w % 8 != 0) {
                    return Err("store of sub-byte vector".into());
                }
                for (i, s) in sc.iter().enumerate() {
                    let aa = if s.off == 0 { a } else { let k = self.t.konst(s.off); self.t2(Op::Add, 64, a, k) };
                    self.emit(I::Store { n: s.n, a: aa, v: val[i] });
                }
            }
            30..=32 => {
                let st = LLVMTypeOf(opnd(0));
                let a = self.ops(opnd(0))?;
                let d = self.dst(v);
                if LLVMGetTypeKind(ty) == TK_VEC {
                    let (si, so) = (flatv(td, st), flatv(td, ty));
                    if si.len() != so.len() {
                        return Err("wide vector cast".into());
                    }
                    for i in 0..si.len() {
                        self.cast(opc, a[i], si[i].w, d + i as u32, so[i].w);
                    }
                } else {
                    let (wi, wo) = (LLVMGetIntTypeWidth(st), LLVMGetIntTypeWidth(ty));
                    match opc {
                        30 => {
                            if wo > 64 {
                                self.mov(d, a[0]);
                                self.e2(Op::Trunc, (wo - 64) as u8, d + 1, a[1], z);
                            } else {
                                self.e2(Op::Trunc, wo as u8, d, a[0], z);
                            }
                        }
                        31 => {
                            for i in 0..a.len() {
                                self.mov(d + i as u32, a[i]);
                            }
                            if wo > 64 && wi <= 64 {
                                self.mov(d + 1, z);
                            }
                        }
                        _ => {
                            if wo <= 64 {
                                self.cast(32, a[0], wi as u8, d, wo as u8);
                            } else if wo == 128 && wi <= 64 {
                                let x = if wi == 64 { a[0] } else { let r = self.reg(1); self.cast(32, a[0], wi as u8, r, 64); r };
                                let k = self.t.konst(63);
                                let h = self.t2(Op::AShr, 64, x, k);
                                self.mov(d, x);
                                self.mov(d + 1, h);
                            } else {
                                return Err("wide sext".into());
                            }
                        }
                    }
                }
            }
            33..=38 => {
                let a = self.ops(opnd(0))?;
                let d = self.dst(v);
                let (si, so) = (flatv(td, LLVMTypeOf(opnd(0))), flatv(td, ty));
                if si.len() != so.len() {
                    return Err("wide fp cast".into());
                }
                for i in 0..a.len() {
                    let op = match opc {
                        33 => Op::FPToUI, 34 => Op::FPToSI, 35 => Op::UIToFP, 36 => Op::SIToFP, 37 => Op::FTrunc64, _ => Op::FExt32,
                    };
                    let k = self.t.konst(so[i].w as u64);
                    self.emit(I::Op3 { op, w: si[i].w, dst: d + i as u32, a: a[i], b: z, c: k });
                }
            }
            39 | 40 | 60 | 68 | 69 => {
                let a = self.ops(opnd(0))?;
                let d = self.dst(v);
                for (i, s) in flatv(td, ty).iter().enumerate() {
                    if opc == 39 && s.w < 64 {
                        self.e2(Op::Trunc, s.w, d + i as u32, a[i], z);
                    } else {
                        self.mov(d + i as u32, a[i]);
                    }
                }
            }
            41 => {
                let a = self.ops(opnd(0))?;
                let d = self.dst(v);
                let (si, so) = (flatv(td, LLVMTypeOf(opnd(0))), flatv(td, ty));
                let lw = |t: Type, s: &Vec<Sc>| if LLVMGetTypeKind(t) == TK_INT && s.len() == 2 { (64u32, 2usize) } else { (s[0].w as u32, s.len()) };
                let (wi, ni) = lw(LLVMTypeOf(opnd(0)), &si);
                let (wo, no) = lw(ty, &so);
                if wi == wo && ni == no {
                    for i in 0..ni {
                        self.mov(d + i as u32, a[i]);
                    }
                } else if wi < wo && wo % wi == 0 {
                    let per = (wo / wi) as usize;
                    for o in 0..no {
                        let base = self.reg(per);
                        for j in 0..per {
                            self.mov(base + j as u32, a[o * per + j]);
                        }
                        self.emit(I::Pack { dst: d + o as u32, src: base, n: per as u8, lw: wi as u8 });
                    }
                } else if wo < wi && wi % wo == 0 {
                    let per = (wi / wo) as usize;
                    for i in 0..ni {
                        for j in 0..per {
                            let k = self.t.konst(j as u64 * wo as u64);
                            let x = self.t2(Op::LShr, wi as u8, a[i], k);
                            self.e2(Op::Trunc, wo as u8, d + (i * per + j) as u32, x, z);
                        }
                    }
                } else {
                    return Err(format!("bitcast {}", val_str(v)));
                }
            }
            42 => {
                let pred = LLVMGetICmpPredicate(v);
                let (a, b) = (self.ops(opnd(0))?, self.ops(opnd(1))?);
                let st = LLVMTypeOf(opnd(0));
                let sc = flatv(td, st);
                let d = self.dst(v);
                if LLVMGetTypeKind(st) != TK_VEC && sc.len() == 2 {
                    // wide compare
                    let w = LLVMGetIntTypeWidth(st);
                    let hw = (w - 64) as u8;
                    match pred {
                        32 | 33 => {
                            let x = self.t2(Op::Eq, 64, a[0], b[0]);
                            let y = self.t2(Op::Eq, hw, a[1], b[1]);
                            let e = self.t2(Op::And, 1, x, y);
                            if pred == 32 { self.mov(d, e) } else { let k = self.t.konst(1); self.e2(Op::Xor, 1, d, e, k) }
                        }
                        _ => {
                            // a OP b  via  hi < , hi == && lo OP
                            let (x, y, strict, signed) = match pred {
                                34 => (&b, &a, true, false), 35 => (&b, &a, false, false),
                                36 => (&a, &b, true, false), 37 => (&a, &b, false, false),
                                38 => (&b, &a, true, true), 39 => (&b, &a, false, true),
                                40 => (&a, &b, true, true), _ => (&a, &b, false, true),
                            };
                            let (x, y) = (x.clone(), y.clone());
                            let l = self.t2(if signed { Op::Slt } else { Op::Ult }, hw, x[1], y[1]);
                            let q = self.t2(Op::Eq, hw, x[1], y[1]);
                            let lo = self.t2(if strict { Op::Ult } else { Op::Ule }, 64, x[0], y[0]);
                            let m = self.t2(Op::And, 1, q, lo);
                            self.e2(Op::Or, 1, d, l, m);
                        }
                    }
                } else {
                    for (i, s) in sc.iter().enumerate() {
                        let (op, sw) = match pred {
                            32 => (Op::Eq, false), 33 => (Op::Ne, false), 34 => (Op::Ult, true), 35 => (Op::Ule, true),
                            36 => (Op::Ult, false), 37 => (Op::Ule, false), 38 => (Op::Slt, true), 39 => (Op::Sle, true),
                            40 => (Op::Slt, false), _ => (Op::Sle, false),
                        };
                        let (x, y) = if sw { (b[i], a[i]) } else { (a[i], b[i]) };
                        self.e2(op, s.w, d + i as u32, x, y);
                    }
                }
            }
            43 => {
                let (a, b) = (self.ops(opnd(0))?, self.ops(opnd(1))?);
                let k = self.t.konst(LLVMGetFCmpPredicate(v) as u64);
                let d = self.dst(v);
                for (i, s) in flatv(td, LLVMTypeOf(opnd(0))).iter().enumerate() {
                    self.emit(I::Op3 { op: Op::FCmp, w: s.w, dst: d + i as u32, a: a[i], b: b[i], c: k });
                }
            }
            44 => {} // phi: handled on edges
            46 => {
                let c = self.ops(opnd(0))?;
                let (a, b) = (self.ops(opnd(1))?, self.ops(opnd(2))?);
                let d = self.dst(v);
                let cv = LLVMGetTypeKind(LLVMTypeOf(opnd(0))) == TK_VEC;
                for (i, s) in flatv(td, ty).iter().enumerate() {
                    let cc = if cv { c[i] } else { c[0] };
                    self.emit(I::Op3 { op: Op::Select, w: s.w, dst: d + i as u32, a: cc, b: a[i], c: b[i] });
                }
            }
            50 => {
                let a = self.ops(opnd(0))?;
                let per = nsc(td, ty);
                let d = self.dst(v);
                if LLVMIsAConstantInt(opnd(1)).is_null() {
                    return Err("variable extractelement".into());
                }
                let i = LLVMConstIntGetZExtValue(opnd(1)) as usize;
                for j in 0..per {
                    self.mov(d + j as u32, a[i * per + j]);
                }
            }
            51 => {
                let a = self.ops(opnd(0))?;
                let e = self.ops(opnd(1))?;
                let d = self.dst(v);
                if LLVMIsAConstantInt(opnd(2)).is_null() {
                    return Err("variable insertelement".into());
                }
                let i = LLVMConstIntGetZExtValue(opnd(2)) as usize;
                for j in 0..a.len() {
                    let src = if j / e.len() == i { e[j % e.len()] } else { a[j] };
                    self.mov(d + j as u32, src);
                }
            }
            52 => {
                let (a, b) = (self.ops(opnd(0))?, self.ops(opnd(1))?);
                let d = self.dst(v);
                let n = LLVMGetNumMaskElements(v);
                let lanes = LLVMGetVectorSize(LLVMTypeOf(opnd(0))) as usize;
                let per = a.len() / lanes;
                for i in 0..n {
                    let m = LLVMGetMaskValue(v, i);
                    for j in 0..per {
                        let src = if m < 0 { z } else if (m as usize) < lanes { a[m as usize * per + j] } else { b[(m as usize - lanes) * per + j] };
                        self.mov(d + i * per as u32 + j as u32, src);
                    }
                }
            }
            53 | 54 => {
                let agg = self.ops(opnd(0))?;
                let d = self.dst(v);
                let mut t = LLVMTypeOf(opnd(0));
                let ix = std::slice::from_raw_parts(LLVMGetIndices(v), LLVMGetNumIndices(v) as usize);
                let mut off = 0;
                for &i in ix {
                    if LLVMGetTypeKind(t) == TK_STRUCT {
                        for k in 0..i {
                            off += nsc(td, LLVMStructGetTypeAtIndex(t, k));
                        }
                        t = LLVMStructGetTypeAtIndex(t, i);
                    } else {
                        t = LLVMGetElementType(t);
                        off += nsc(td, t) * i as usize;
                    }
                }
                let n = nsc(td, t);
                if opc == 53 {
                    for j in 0..n {
                        self.mov(d + j as u32, agg[off + j]);
                    }
                } else {
                    let e = self.ops(opnd(1))?;
                    for j in 0..agg.len() {
                        let src = if j >= off && j < off + n { e[j - off] } else { agg[j] };
                        self.mov(d + j as u32, src);
                    }
                }
            }
            55 => {}
            56 => {
                let a = self.op1(opnd(0))?;
                let (o, n) = (self.ops(opnd(1))?, self.ops(opnd(2))?);
                if o.len() != 1 {
                    return Err("wide cmpxchg".into());
                }
                let d = self.dst(v);
                let s = flatv(td, LLVMTypeOf(opnd(1)))[0];
                self.emit(I::CmpX { dst: d, a, old: o[0], new: n[0], n: s.n });
            }
            57 => {
                let a = self.op1(opnd(0))?;
                let x = self.op1(opnd(1))?;
                let d = self.dst(v);
                let s = flatv(td, ty)[0];
                self.emit(I::Load { w: s.w, n: s.n, dst: d, a });
                let r = match LLVMGetAtomicRMWBinOp(v) {
                    0 => x,
                    1 => self.t2(Op::Add, s.w, d, x),
                    2 => self.t2(Op::Sub, s.w, d, x),
                    3 => self.t2(Op::And, s.w, d, x),
                    5 => self.t2(Op::Or, s.w, d, x),
                    6 => self.t2(Op::Xor, s.w, d, x),
                    7 => self.t2(Op::SMax, s.w, d, x),
                    8 => self.t2(Op::SMin, s.w, d, x),
                    9 => self.t2(Op::UMax, s.w, d, x),
                    10 => self.t2(Op::UMin, s.w, d, x),
                    k => return Err(format!("atomicrmw {}", k)),
                };
                self.emit(I::Store { n: s.n, a, v: r });
            }
            58 => self.emit(I::Unreach), // resume: nothing unwinds (panics end the path)
            59 => {}
            3 => {
                let c = self.ops(opnd(0))?;
                if c.len() != 1 {
                    return Err("wide switch".into());
                }
                let n = LLVMGetNumSuccessors(v);
                let mut t = SwitchT::default();
                let mut es: HashMap<usize, u32> = HashMap::new();
                for i in 0..n {
                    let to = LLVMGetSuccessor(v, i);
                    let e = match es.get(&(to as usize)) {
                        Some(&e) => e,
                        None => {
                            let e = self.edge(bb, to);
                            es.insert(to as usize, e);
                            e
                        }
                    };
                    if i == 0 {
                        t.default = e;
                    } else {
                        let k = LLVMConstIntGetZExtValue(LLVMGetSwitchCaseValue(v, i));
                        let w = LLVMGetIntTypeWidth(LLVMTypeOf(opnd(0))) as u8;
                        t.cases.push((k & mask(w), e));
                        t.map.insert(k & mask(w), e);
                    }
                }
                let k = self.f.switches.len() as u32;
                self.f.switches.push(t);
                self.emit(I::Switch { v: c[0], t: k });
            }
            45 | 5 => {
                self.call(v)?;
                if opc == 5 {
                    let e = self.edge(bb, LLVMGetNormalDest(v));
                    self.emit(I::Jmp { e });
                }
            }
            _ => {
                // branches: their opcodes differ between LLVM releases
                if !LLVMIsAUncondBrInst(v).is_null() {
                    let e = self.edge(bb, LLVMGetSuccessor(v, 0));
                    self.emit(I::Jmp { e });
                } else if !LLVMIsACondBrInst(v).is_null() {
                    let c = self.op1(opnd(0))?;
                    let t = self.edge(bb, LLVMGetSuccessor(v, 0));
                    let f = self.edge(bb, LLVMGetSuccessor(v, 1));
                    self.emit(I::CBr { c, t, f });
                } else {
                    return Err(format!("opcode {} {}", opc, val_str(v)));
                }
            }
        }
        Ok(())
    }
    fn cast(&mut self, opc: u32, a: Opd, wi: u8, d: u32, wo: u8) {
        let z = self.t.konst(0);
        match opc {
            30 => self.e2(Op::Trunc, wo, d, a, z),
            31 => self.mov(d, a),
            _ => {
                let k = self.t.konst(wo as u64);
                self.emit(I::Op3 { op: Op::SExt, w: wi, dst: d, a, b: z, c: k });
            }
        }
    }
    unsafe fn call(&mut self, v: Value) -> Result<(), String> {
        let td = self.t.td;
        let callee = LLVMGetCalledValue(v);
        let ty = LLVMTypeOf(v);
        let nret = nsc(td, ty) as u32;
        let dst = if nret > 0 { self.dst(v) } else { 0 };
        let z = self.t.konst(0);
        if !LLVMIsAInlineAsm(callee).is_null() {
            let mut l = 0;
            let p = LLVMGetInlineAsmAsmString(callee, &mut l);
            let s = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l)).into_owned();
            if s.contains("cpuid") || s.contains("xgetbv") || s.is_empty() {
                for i in 0..nret {
                    self.mov(dst + i, z);
                }
                return Ok(());
            }
            return Err(format!("inline asm {:?}", s));
        }
        let n = LLVMGetNumArgOperands(v);
        if !LLVMIsAFunction(callee).is_null() {
            let nm = name(callee);
            if nm.starts_with("llvm.") {
                return self.intrinsic(v, &nm, dst, n);
            }
            if LLVMIsDeclaration(callee) != 0 {
                let mut args = vec![];
                for i in 0..n {
                    args.extend(self.ops(LLVMGetOperand(v, i))?);
                }
                let c = self.f.calls.len() as u32;
                let k = native_of(&nm);
                let f = self.t.fnum[&(callee as usize)];
                self.f.calls.push(CallInfo { f, args, dst, nret });
                self.emit(I::Native { k, c });
                return Ok(());
            }
            let mut args = vec![];
            for i in 0..n {
                args.extend(self.ops(LLVMGetOperand(v, i))?);
            }
            let c = self.f.calls.len() as u32;
            let f = self.t.fnum[&(callee as usize)];
            self.f.calls.push(CallInfo { f, args, dst, nret });
            self.emit(I::Call { c });
            return Ok(());
        }
        let f = self.op1(callee)?;
        let mut args = vec![];
        for i in 0..n {
            args.extend(self.ops(LLVMGetOperand(v, i))?);
        }
        let c = self.f.calls.len() as u32;
        self.f.calls.push(CallInfo { f: 0, args, dst, nret });
        self.emit(I::CallInd { f, c });
        Ok(())
    }
    unsafe fn intrinsic(&mut self, v: Value, nm: &str, dst: u32, n: u32) -> Result<(), String> {
        let td = self.t.td;
        let z = self.t.konst(0);
        let ty = LLVMTypeOf(v);
        let opnd = |i: u32| LLVMGetOperand(v, i);
        let base = |p: &str| nm.starts_with(p);
        if base("llvm.lifetime") || base("llvm.assume") || base("llvm.experimental.noalias") || base("llvm.dbg") || base("llvm.donothing")
            || base("llvm.invariant") || base("llvm.prefetch") || base("llvm.x86.sse2.pause") || base("llvm.fake.use") {
            return Ok(());
        }
        let native = |k: Native, me: &mut Self, cnt: u32| -> Result<(), String> {
            let mut args = vec![];
            for i in 0..cnt {
                args.extend(me.ops(LLVMGetOperand(v, i))?);
            }
            let c = me.f.calls.len() as u32;
            me.f.calls.push(CallInfo { f: 0, args, dst, nret: 0 });
            me.emit(I::Native { k, c });
            Ok(())
        };
        if base("llvm.memcpy") || base("llvm.memmove") {
            return native(Native::MemCpy, self, 3);
        }
        if base("llvm.memset") {
            return native(Native::MemSet, self, 3);
        }
        if base("llvm.trap") || base("llvm.ubsantrap") {
            return native(Native::Abort, self, 0);
        }
        if base("llvm.threadlocal.address") {
            let a = self.op1(opnd(0))?;
            self.mov(dst, a);
            return Ok(());
        }
        if base("llvm.expect") || base("llvm.ptr.annotation") || base("llvm.launder") || base("llvm.strip") {
            let a = self.ops(opnd(0))?;
            for (i, x) in a.into_iter().enumerate() {
                self.mov(dst + i as u32, x);
            }
            return Ok(());
        }
        if base("llvm.is.constant") || base("llvm.x86.xgetbv") {
            self.mov(dst, z);
            return Ok(());
        }
        if base("llvm.vector.reduce.") {
            let op = match nm.split('.').nth(3).unwrap() {
                "and" => Op::And, "or" => Op::Or, "add" => Op::Add, "xor" => Op::Xor, "umax" => Op::UMax, "umin" => Op::UMin,
                k => return Err(format!("reduce {}", k)),
            };
            let a = self.ops(opnd(0))?;
            let w = flatv(td, ty)[0].w;
            let mut acc = a[0];
            for &x in &a[1..] {
                acc = self.t2(op, w, acc, x);
            }
            self.mov(dst, acc);
            return Ok(());
        }
        if let Some(k) = nm.find(".with.overflow.") {
            let kind = &nm[5..k];
            let (o1, o2) = match kind {
                "uadd" => (Op::Add, Op::UAddOv), "usub" => (Op::Sub, Op::USubOv), "umul" => (Op::Mul, Op::UMulOv),
                "sadd" => (Op::Add, Op::SAddOv), "ssub" => (Op::Sub, Op::SSubOv), "smul" => (Op::Mul, Op::SMulOv),
                _ => return Err(nm.into()),
            };
            let w = LLVMGetIntTypeWidth(LLVMTypeOf(opnd(0)));
            if w > 64 {
                return Err("wide overflow op".into());
            }
            let (a, b) = (self.op1(opnd(0))?, self.op1(opnd(1))?);
            let ov = self.t2(o2, w as u8, a, b);
            let r = self.t2(o1, w as u8, a, b);
            self.mov(dst, r);
            self.mov(dst + 1, ov);
            return Ok(());
        }
        let key = { let mut it = nm.split('.'); it.next(); let a = it.next().unwrap_or(""); let b = it.next().unwrap_or("");
            if b == "sat" { format!("{}.sat", a) } else { a.to_string() } };
        let op2 = match key.as_str() {
            "umin" => Some(Op::UMin), "umax" => Some(Op::UMax), "smin" => Some(Op::SMin), "smax" => Some(Op::SMax),
            "usub.sat" => Some(Op::USubSat), "uadd.sat" => Some(Op::UAddSat), "ssub.sat" => Some(Op::SSubSat), "sadd.sat" => Some(Op::SAddSat),
            "ctpop" => Some(Op::CtPop), "ctlz" => Some(Op::Ctlz), "cttz" => Some(Op::Cttz), "bswap" => Some(Op::BSwap),
            "bitreverse" => Some(Op::BitRev), "abs" => Some(Op::Abs), "fabs" => Some(Op::FAbs),
            "maxnum" | "maximumnum" => Some(Op::FMax), "minnum" | "minimumnum" => Some(Op::FMin),
            "floor" => Some(Op::FFloor), "ceil" => Some(Op::FCeil), "trunc" => Some(Op::FTrunc), "rint" | "roundeven" | "nearbyint" => Some(Op::FRint),
            _ => None,
        };
        if let Some(op) = op2 {
            let a = self.ops(opnd(0))?;
            let b = if n > 1 { self.ops(opnd(1))? } else { vec![z; a.len()] };
            let sc = flatv(td, ty);
            if sc.len() == 2 && LLVMGetTypeKind(ty) == TK_INT {
                // 128 bit
                return Err(format!("wide {}", nm));
            }
            let unary = matches!(op, Op::CtPop | Op::Ctlz | Op::Cttz | Op::BSwap | Op::BitRev | Op::Abs | Op::FAbs | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRint);
            for (i, s) in sc.iter().enumerate() {
                let bb = if unary { z } else { b[i] };
                self.e2(op, s.w, dst + i as u32, a[i], bb);
            }
            return Ok(());
        }
        match key.as_str() {
            "ucmp" | "scmp" => {
                let (a, b) = (self.op1(opnd(0))?, self.op1(opnd(1))?);
                let sc = flatv(td, LLVMTypeOf(opnd(0)));
                if sc.len() != 1 {
                    return Err("wide cmp3".into());
                }
                let k = self.t.konst(LLVMGetIntTypeWidth(ty) as u64);
                self.emit(I::Op3 { op: if key == "ucmp" { Op::UCmp } else { Op::SCmp }, w: sc[0].w, dst, a, b, c: k });
                Ok(())
            }
            "fshl" | "fshr" => {
                let (a, b, c) = (self.ops(opnd(0))?, self.ops(opnd(1))?, self.ops(opnd(2))?);
                let sc = flatv(td, ty);
                if sc.len() != 1 {
                    return Err("wide fsh".into());
                }
                self.emit(I::Op3 { op: if key == "fshl" { Op::FshL } else { Op::FshR }, w: sc[0].w, dst, a: a[0], b: b[0], c: c[0] });
                Ok(())
            }
            "fptoui.sat" | "fptosi.sat" => {
                let a = self.op1(opnd(0))?;
                let sc = flatv(td, ty);
                let si = flatv(td, LLVMTypeOf(opnd(0)));
                let k = self.t.konst(sc[0].w as u64);
                if key == "fptosi.sat" && sc[0].w != 64 {
                    return Err(nm.into());
                }
                self.emit(I::Op3 { op: if key == "fptoui.sat" { Op::FPToUI } else { Op::FPToSI }, w: si[0].w, dst, a, b: z, c: k });
                Ok(())
            }
            _ => Err(format!("intrinsic {}", nm)),
        }
    }
}

pub fn translate(path: &str) -> Result<Program, String> {
    unsafe {
        let (_ctx, m) = load(path)?;
        let td = LLVMGetModuleDataLayout(m);
        let mut t = Tr { td, p: Program::default(), gaddr: HashMap::new(), fnum: HashMap::new(), poolmap: HashMap::new() };
        let mut fv = vec![];
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            t.fnum.insert(f as usize, fv.len() as u32);
            fv.push(f);
            f = LLVMGetNextFunction(f);
        }
        // lay out globals
        let mut gv = vec![];
        let mut g = LLVMGetFirstGlobal(m);
        let mut at = GBASE;
        while !g.is_null() {
            let ty = LLVMGlobalGetValueType(g);
            let link = LLVMGetLinkage(g);
            if LLVMIsDeclaration(g) != 0 {
                if link == 12 {
                    t.gaddr.insert(g as usize, 0); // extern_weak: absent
                } else {
                    at = (at + 15) & !15;
                    t.gaddr.insert(g as usize, at);
                    at += 64;
                }
            } else {
                let al = (LLVMGetAlignment(g).max(LLVMABIAlignmentOfType(td, ty)).max(1)) as u64;
                at = (at + al - 1) / al * al;
                t.gaddr.insert(g as usize, at);
                at += LLVMABISizeOfType(td, ty).max(1);
                gv.push(g);
            }
            g = LLVMGetNextGlobal(g);
        }
        t.p.globals = vec![0; (at - GBASE) as usize];
        for g in gv {
            let a = t.gaddr[&(g as usize)];
            t.init_global(a, LLVMGetInitializer(g)).map_err(|e| format!("{}: {}", name(g), e))?;
        }
        for (i, &f) in fv.iter().enumerate() {
            let nm = name(f);
            t.p.fidx.insert(nm.clone(), i as u32);
            let mut fu = Func { name: nm.clone(), ..Default::default() };
            if LLVMIsDeclaration(f) != 0 {
                fu.native = Some(native_of(&nm));
                t.p.funcs.push(fu);
                continue;
            }
            fu.defined = true;
            let mut fx = Fx { t: &mut t, f: fu, regs: HashMap::new(), bbpc: HashMap::new(), pend: vec![], consts: HashMap::new() };
            for k in 0..LLVMCountParams(f) {
                let a = LLVMGetParam(f, k);
                let r = fx.reg(nsc(td, LLVMTypeOf(a)));
                fx.regs.insert(a as usize, r);
            }
            fx.f.nargs = fx.f.nregs;
            // registers for all values first (uses may precede definitions)
            let mut bb = LLVMGetFirstBasicBlock(f);
            while !bb.is_null() {
                let mut v = LLVMGetFirstInstruction(bb);
                while !v.is_null() {
                    let n = nsc(td, LLVMTypeOf(v));
                    if n > 0 {
                        let r = fx.reg(n);
                        fx.regs.insert(v as usize, r);
                    }
                    v = LLVMGetNextInstruction(v);
                }
                bb = LLVMGetNextBasicBlock(bb);
            }
            let mut bb = LLVMGetFirstBasicBlock(f);
            while !bb.is_null() {
                let pc = fx.f.code.len() as u32;
                fx.bbpc.insert(bb as usize, pc);
                let mut v = LLVMGetFirstInstruction(bb);
                while !v.is_null() {
                    if let Err(e) = fx.ins(v, bb) {
                        let k = fx.t.p.msgs.len() as u32;
                        fx.t.p.msgs.push(format!("{} in {}", e, nm));
                        fx.emit(I::Unsup { m: k });
                    }
                    v = LLVMGetNextInstruction(v);
                }
                bb = LLVMGetNextBasicBlock(bb);
            }
            // edges: target pc and phi copies
            let pend = std::mem::take(&mut fx.pend);
            for (e, from, to) in pend {
                let mut copies = vec![];
                let mut v = LLVMGetFirstInstruction(to);
                while !v.is_null() && LLVMGetInstructionOpcode(v) == 44 {
                    let d = fx.regs[&(v as usize)];
                    let mut hit = false;
                    for k in 0..LLVMCountIncoming(v) {
                        if LLVMGetIncomingBlock(v, k) == from {
                            let src = fx.ops(LLVMGetIncomingValue(v, k)).map_err(|e| format!("phi {} in {}", e, nm))?;
                            for (j, s) in src.into_iter().enumerate() {
                                copies.push((d + j as u32, s));
                            }
                            hit = true;
                            break;
                        }
                    }
                    if !hit {
                        return Err(format!("phi without edge in {}", nm));
                    }
                    v = LLVMGetNextInstruction(v);
                }
                copies.retain(|(d, s)| d != s);
                let mut par = false;
                for i in 0..copies.len() {
                    for j in i + 1..copies.len() {
                        if copies[j].1 == copies[i].0 {
                            par = true;
                        }
                    }
                }
                let pc = fx.bbpc[&(to as usize)];
                fx.f.edges[e as usize] = Edge { pc, par, copies };
            }
            let fu = fx.f;
            t.p.nins += fu.code.len();
            t.p.funcs.push(fu);
        }
        Ok(t.p)
    }
}
