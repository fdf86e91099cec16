//! Exploration: every template instance is a box of symbolic bytes; workers enumerate
//! the executor's paths over it, replay each one natively, and record the verdicts.
use crate::expr::*;
use crate::ir::Program;
use crate::tmpl::*;
use crate::vm::*;
use std::collections::{BTreeMap, VecDeque};
use std::ffi::{c_char, c_int, c_void, CString};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    fn dlopen(p: *const c_char, f: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}
pub type NativeFn = extern "C" fn(u32, *const u8, usize, u32, u32, *mut u8, usize, *mut usize) -> u32;
pub fn load_native(path: &str) -> Result<NativeFn, String> {
    unsafe {
        let h = dlopen(CString::new(path).unwrap().as_ptr(), 2);
        if h.is_null() {
            return Err(format!("cannot load {}", path));
        }
        let q = dlsym(h, c"h_quiet".as_ptr());
        let f = dlsym(h, c"h_native".as_ptr());
        if f.is_null() || q.is_null() {
            return Err("no h_native".into());
        }
        std::mem::transmute::<_, extern "C" fn()>(q)();
        Ok(std::mem::transmute(f))
    }
}
pub fn call_native(f: NativeFn, prop: u32, doc: &[u8], w: u32, fl: u32) -> (u32, Vec<u8>) {
    let mut buf = vec![0u8; 1 << 16];
    let mut n = 0usize;
    let r = f(prop, doc.as_ptr(), doc.len(), w, fl, buf.as_mut_ptr(), buf.len(), &mut n);
    buf.truncate(n.min(1 << 16));
    (r, buf)
}

/// Domains are constrained to whole characters where a template asks for them, so the
/// document of every assignment is UTF-8.
pub struct Opts {
    pub prop: u32,
    pub so: String,
    pub threads: usize,
    pub deadline: f64,
    pub budget: u64,
    pub maxviol: usize,
    pub confirm: bool,
    pub seed: u64,
}
struct Job {
    inst: usize,
    doms: Vec<Dom>,
}
#[derive(Default, Clone)]
struct Tot {
    covered: u128,
    leaves: u64,
    ok: u64,
    outside: u64,
    viol: u64,
    notes: u64,
    secs: f64,
}
pub struct Viol {
    inst: usize,
    doms: Vec<Dom>,
    code: u64,
    what: String,
    doc: Vec<u8>,
    width: u32,
    flag: u32,
    native: u32,
}

pub fn jstr(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jbox(d: &[Dom]) -> String {
    let v: Vec<String> = d
        .iter()
        .map(|x| {
            let s = format!("{:016x}{:016x}{:016x}{:016x}", x[3], x[2], x[1], x[0]);
            let t = s.trim_start_matches('0');
            format!("\"{}\"", if t.is_empty() { "0" } else { t })
        })
        .collect();
    format!("[{}]", v.join(","))
}

pub const WARM: &str = "---\na: b\n---\n\n# h *e* `c` {#id .c k=v}\n\ns\n===\n\n- a\n  1. b\n     > q\n\n- [ ] t\n\n| a | b |\n|---|:-:|\n| c \\| | d |\n\n```rust\nlet a;\n```\n\n    ic\n\n[l](/u \"t\") ![i][r] <http://a.b> ~~s~~ $m$ [^f] &amp; \\* word word word word word word word word\nmore  \nhard\\\nx\n\n<div>\nh\n</div>\n\n> [!NOTE]\n> a\n\n[^f]: foot\n\n[r]: /url 'title'\n\n***\n\n```markdown\n# x\n* y\n```\n";

pub fn warm<'p>(vm: &mut Vm<'p>, prop: u32) -> Result<u64, String> {
    let b = vm.alloc(1 << 14, 16).map_err(|_| "alloc")?;
    for (w, fl) in [(u32::MAX, 0u32), (30, 1)] {
        let d: Vec<Val> = WARM.bytes().map(|b| Val::c(b as u64)).collect();
        vm.poke(b, &d);
        vm.start("h_entry", &[Val::c(prop as u64), Val::c(b), Val::c(d.len() as u64), Val::c(w as u64), Val::c(fl as u64)])?;
        vm.budget = 2_000_000_000;
        match vm.run() {
            End::Ret(_) => {}
            e => return Err(format!("warm-up: {:?}", e)),
        }
    }
    vm.commit();
    Ok(b)
}

pub fn check(p: &Program, insts: &[Instance], o: &Opts, raw: &str) -> Result<i32, String> {
    let t0 = Instant::now();
    let nat = load_native(&o.so)?;
    let queue: Mutex<VecDeque<Job>> = Mutex::new(insts.iter().enumerate().map(|(i, x)| Job { inst: i, doms: x.doms.clone() }).collect());
    let idle = AtomicUsize::new(0);
    let qlen = AtomicUsize::new(insts.len());
    let stop = AtomicBool::new(false);
    let tot: Mutex<Vec<Tot>> = Mutex::new(vec![Tot::default(); insts.len()]);
    let viols: Mutex<Vec<Viol>> = Mutex::new(vec![]);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let (dec, forks, steps, queries, cached, ztime, replays) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let used: Mutex<Vec<bool>> = Mutex::new(vec![false; p.funcs.len()]);
    let nerr = |s: String| {
        let mut e = errors.lock().unwrap();
        if e.len() < 50 {
            e.push(s)
        }
    };
    std::thread::scope(|sc| {
        for tid in 0..o.threads {
            let (queue, idle, qlen, stop, tot, viols, samples, used, nerr) = (&queue, &idle, &qlen, &stop, &tot, &viols, &samples, &used, &nerr);
            let (dec, forks, steps, queries, cached, ztime, replays) = (&dec, &forks, &steps, &queries, &cached, &ztime, &replays);
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
                let mut vm = Vm::new(p);
                let base = match warm(&mut vm, o.prop) {
                    Ok(b) => b,
                    Err(e) => {
                        nerr(e);
                        stop.store(true, SeqCst);
                        return;
                    }
                };
                vm.confirm = o.confirm;
                let flush = |vm: &mut Vm| {
                    dec.fetch_add(std::mem::take(&mut vm.decisions), SeqCst);
                    forks.fetch_add(std::mem::take(&mut vm.forks), SeqCst);
                    steps.fetch_add(std::mem::take(&mut vm.total_steps), SeqCst);
                    queries.fetch_add(std::mem::take(&mut vm.solver.queries), SeqCst);
                    cached.fetch_add(std::mem::take(&mut vm.solver.cached), SeqCst);
                    ztime.fetch_add(std::mem::take(&mut vm.solver.time).as_micros() as u64, SeqCst);
                };
                let _ = tid;
                loop {
                    if stop.load(SeqCst) {
                        break;
                    }
                    let job = queue.lock().unwrap().pop_front();
                    let Some(job) = job else {
                        // idle: wait for donations until everyone is idle
                        let n = idle.fetch_add(1, SeqCst) + 1;
                        if n == o.threads {
                            stop.store(true, SeqCst);
                            break;
                        }
                        let mut got = false;
                        while !stop.load(SeqCst) {
                            if qlen.load(SeqCst) > 0 {
                                got = true;
                                break;
                            }
                            std::thread::sleep(Duration::from_micros(200));
                        }
                        idle.fetch_sub(1, SeqCst);
                        if got {
                            continue;
                        }
                        break;
                    };
                    qlen.fetch_sub(1, SeqCst);
                    if t0.elapsed().as_secs_f64() > o.deadline {
                        stop.store(true, SeqCst);
                        break;
                    }
                    let inst = &insts[job.inst];
                    let tj = Instant::now();
                    let mut t = Tot::default();
                    let m = vm.marks();
                    if vm.ar.nodes.len() > 400_000 {
                        flush(&mut vm);
                        vm.ar = Arena::new();
                        vm.solver = crate::solver::Solver::new();
                    }
                    for (i, d) in vm.dom.iter_mut().enumerate() {
                        *d = job.doms.get(i).copied().unwrap_or([1, 0, 0, 0]);
                    }
                    let vals: Vec<Val> = inst.items.iter().map(|i| match i { Item::Byte(b) => Val::c(*b as u64), Item::Sym(s) => vm.ar.sym(*s) }).collect();
                    let vals: Vec<Val> = vals.into_iter().map(|v| vm.norm(v)).collect();
                    vm.poke(base, &vals);
                    let arg = |vm: &mut Vm, s: Option<usize>, l: &[u32]| match s {
                        None => Val::c(l[0] as u64),
                        Some(s) => {
                            let mut t = Box::new([0u64; 256]);
                            for (i, x) in l.iter().enumerate() {
                                t[i] = *x as u64;
                            }
                            let v = vm.ar.lookup(s, t, 32);
                            vm.norm(v)
                        }
                    };
                    let wv = arg(&mut vm, inst.wsym, &inst.widths);
                    let fv = arg(&mut vm, inst.fsym, &inst.flags);
                    vm.budget = o.budget;
                    if let Err(e) = vm.start("h_entry", &[Val::c(o.prop as u64), Val::c(base), Val::c(vals.len() as u64), wv, fv]) {
                        nerr(e);
                        stop.store(true, SeqCst);
                        break;
                    }
                    let n = inst.doms.len();
                    loop {
                        let e = vm.run();
                        let bx: Vec<Dom> = vm.dom[..n].to_vec();
                        let size = box_size(&bx);
                        t.leaves += 1;
                        t.notes |= vm.notes;
                        let asg = vm.model(0);
                        let (doc, w, fl) = (inst.doc(&asg), inst.width(&asg), inst.flag(&asg));
                        let mut bad = None;
                        match &e {
                            End::Ret(0) => t.ok += 1,
                            End::Ret(1) => t.outside += 1,
                            End::Ret(k) => bad = Some((*k, format!("code {}", k))),
                            End::Panic(s) => bad = Some((101, s.clone())),
                            End::Budget => bad = Some((102, format!("no result after {} steps", o.budget))),
                            End::Fault(s) if s == "stack overflow" || s == "out of memory" => bad = Some((103, s.clone())),
                            e => nerr(format!("{:?} on {:?} w={} f={}", e, String::from_utf8_lossy(&doc), w, fl)),
                        }
                        let mut native = 0;
                        match &e {
                            End::Ret(_) | End::Panic(_) => {
                                for seed in 0..2u64 {
                                    if seed == 1 && size < 2 {
                                        break;
                                    }
                                    let asg = vm.model(seed * (o.seed * 7919 + t.leaves));
                                    let (doc, w, fl) = (inst.doc(&asg), inst.width(&asg), inst.flag(&asg));
                                    let (r, out) = call_native(nat, o.prop, &doc, w, fl);
                                    replays.fetch_add(1, SeqCst);
                                    let want = match &e { End::Ret(k) => *k as u32, _ => 101 };
                                    if seed == 0 {
                                        native = r;
                                    }
                                    if r != want || (r != 101 && out != vm.emitted_bytes(&asg)) {
                                        nerr(format!("replay mismatch: {:?} w={} f={}: executor {:?} {:?}, native {} {:?}", String::from_utf8_lossy(&doc), w, fl, e, String::from_utf8_lossy(&vm.emitted_bytes(&asg)), r, String::from_utf8_lossy(&out)));
                                    }
                                    if seed == 0 && size > 1 && r == 0 && t.leaves % 97 == 3 {
                                        let mut s = samples.lock().unwrap();
                                        if s.len() < 40 {
                                            s.push(format!("{{\"template\":{},\"representative\":{},\"width\":{},\"reflow\":{},\"inputs_on_path\":{},\"output\":{}}}", jstr(inst.key.as_bytes()), jstr(&doc), if w == u32::MAX { -1 } else { w as i64 }, fl, size, jstr(&out)));
                                        }
                                    }
                                }
                            }
                            _ => {}
                        }
                        if let Some((code, what)) = bad {
                            t.viol += 1;
                            let mut v = viols.lock().unwrap();
                            if v.len() < o.maxviol {
                                v.push(Viol { inst: job.inst, doms: bx, code, what, doc, width: w, flag: fl, native });
                            } else {
                                stop.store(true, SeqCst);
                            }
                        }
                        t.covered = t.covered.saturating_add(size);
                        if stop.load(Relaxed) || (t.leaves % 16 == 0 && t0.elapsed().as_secs_f64() > o.deadline) {
                            stop.store(true, SeqCst);
                            break;
                        }
                        if idle.load(Relaxed) > 0 && qlen.load(Relaxed) < o.threads {
                            if let Some(d) = vm.donate() {
                                qlen.fetch_add(1, SeqCst);
                                queue.lock().unwrap().push_back(Job { inst: job.inst, doms: d[..n].to_vec() });
                            }
                        }
                        if !vm.backtrack() {
                            break;
                        }
                    }
                    vm.reset(m);
                    flush(&mut vm);
                    for e in vm.bad_confirm.drain(..) {
                        nerr(format!("solver: {} in {}", e, insts[job.inst].key));
                    }
                    t.secs = tj.elapsed().as_secs_f64();
                    let mut tt = tot.lock().unwrap();
                    let x = &mut tt[job.inst];
                    x.covered = x.covered.saturating_add(t.covered);
                    x.leaves += t.leaves;
                    x.ok += t.ok;
                    x.outside += t.outside;
                    x.viol += t.viol;
                    x.notes |= t.notes;
                    x.secs += t.secs;
                }
                let mut u = used.lock().unwrap();
                for (i, b) in vm.used.iter().enumerate() {
                    u[i] |= *b;
                }
            }).unwrap();
        }
    });
    let tot = tot.into_inner().unwrap();
    let viols = viols.into_inner().unwrap();
    let errors = errors.into_inner().unwrap();
    let used = used.into_inner().unwrap();
    let mut j = String::new();
    let mut sum = Tot::default();
    let mut complete = 0;
    let mut rows = vec![];
    for (i, t) in tot.iter().enumerate() {
        let size = box_size(&insts[i].doms);
        let done = t.covered == size;
        complete += done as usize;
        if t.covered > size {
            return Err("paths overlap".into());
        }
        sum.leaves += t.leaves;
        sum.ok += t.ok;
        sum.outside += t.outside;
        sum.viol += t.viol;
        sum.notes |= t.notes;
        sum.covered = sum.covered.saturating_add(t.covered);
        rows.push(format!("{{\"key\":{},\"line\":{},\"inputs\":{},\"covered\":{},\"paths\":{},\"holds\":{},\"outside\":{},\"violating\":{},\"complete\":{},\"secs\":{:.2}}}", jstr(insts[i].key.as_bytes()), insts[i].line, size, t.covered, t.leaves, t.ok, t.outside, t.viol, done, t.secs));
    }
    j.clear();
    let mut fns: BTreeMap<&str, u64> = BTreeMap::new();
    for (i, f) in p.funcs.iter().enumerate() {
        if used[i] && f.native.is_none() {
            *fns.entry(f.name.as_str()).or_default() += f.code.len() as u64;
        }
    }
    write!(j, "{{\"prop\":{},\"wall\":{:.2},\"instances\":{},\"complete\":{},\"inputs_covered\":{},\"paths\":{},\"holds\":{},\"outside\":{},\"violating\":{},\"notes\":{},", o.prop, t0.elapsed().as_secs_f64(), insts.len(), complete, sum.covered, sum.leaves, sum.ok, sum.outside, sum.viol, sum.notes).unwrap();
    write!(j, "\"decisions\":{},\"forks\":{},\"steps\":{},\"solver_queries\":{},\"solver_cached\":{},\"solver_s\":{:.2},\"replays\":{},\"z3\":{},", dec.load(SeqCst), forks.load(SeqCst), steps.load(SeqCst), queries.load(SeqCst), cached.load(SeqCst), ztime.load(SeqCst) as f64 / 1e6, replays.load(SeqCst), jstr(crate::solver::z3_version().as_bytes())).unwrap();
    write!(j, "\"instructions_encoded\":{},\"functions\":[{}],", fns.values().sum::<u64>(), fns.keys().map(|k| jstr(k.as_bytes())).collect::<Vec<_>>().join(",")).unwrap();
    let samples = samples.into_inner().unwrap();
    write!(j, "\"samples\":[{}],\n\"rows\":[{}],\n\"violations\":[", samples.join(","), rows.join(",\n")).unwrap();
    for (i, v) in viols.iter().enumerate() {
        write!(j, "{}{{\"key\":{},\"code\":{},\"what\":{},\"doc\":{},\"width\":{},\"flags\":{},\"native\":{},\"box\":{}}}", if i > 0 { ",\n" } else { "" }, jstr(insts[v.inst].key.as_bytes()), v.code, jstr(v.what.as_bytes()), jstr(&v.doc), if v.width == u32::MAX { -1 } else { v.width as i64 }, v.flag, v.native, jbox(&v.doms)).unwrap();
    }
    write!(j, "],\n\"errors\":[{}]}}\n", errors.iter().map(|e| jstr(e.as_bytes())).collect::<Vec<_>>().join(",")).unwrap();
    std::fs::write(raw, j).map_err(|e| e.to_string())?;
    Ok(0)
}
