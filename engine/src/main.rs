mod check; mod expr; mod ir; mod llvm; mod prep; mod solver; mod tmpl; mod vm;

fn opt<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}
fn real_main() -> Result<i32, String> {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("prep") => {
            prep::prep(&a[2], &a[3], &a[4].split(',').map(|s| s.to_string()).collect::<Vec<_>>(), a.get(5).map(|s| s.as_str()))?;
            Ok(0)
        }
        // check PROG SO PROP RAW.json TEMPLATES... [--line TEMPLATE] options
        Some("check") => {
            let mut insts = vec![];
            let mut i = 6;
            while i < a.len() {
                if a[i] == "--line" {
                    tmpl::parse_line(&a[i + 1], 0, &mut insts)?;
                    i += 2;
                } else if a[i].starts_with("--") {
                    i += 2;
                } else {
                    tmpl::parse_file(&a[i], &mut insts)?;
                    i += 1;
                }
            }
            let num = |k: &str, d: f64| opt(&a, k).map(|s| s.parse::<f64>().unwrap_or(d)).unwrap_or(d);
            let p = ir::translate(&a[2])?;
            let o = check::Opts {
                prop: a[4].parse().map_err(|_| "prop")?,
                so: a[3].clone(),
                threads: num("--threads", 8.0) as usize,
                deadline: num("--deadline", 600.0),
                budget: num("--budget", 60e6) as u64,
                maxviol: num("--maxviol", 4000.0) as usize,
                confirm: num("--confirm", 1.0) != 0.0,
                seed: num("--seed", 1.0) as u64,
            };
            check::check(&p, &insts, &o, &a[5])
        }
        // diff PROG SO PROP DOCS(0-separated) W FLAGS: executor against native on concrete documents
        Some("diff") => {
            let p = ir::translate(&a[2])?;
            let prop: u32 = a[4].parse().unwrap();
            let data = std::fs::read(&a[5]).map_err(|e| e.to_string())?;
            let (w, f): (i64, u32) = (a[6].parse().unwrap(), a[7].parse().unwrap());
            let w = w as u32;
            let nat = check::load_native(&a[3])?;
            let mut vm = vm::Vm::new(&p);
            let base = check::warm(&mut vm, prop)?;
            let (mut n, mut bad) = (0, 0);
            for d in data.split(|b| *b == 0).filter(|d| d.len() < 16000) {
                let m = vm.marks();
                vm.poke(base, &d.iter().map(|b| expr::Val::c(*b as u64)).collect::<Vec<_>>());
                vm.start("h_entry", &[expr::Val::c(prop as u64), expr::Val::c(base), expr::Val::c(d.len() as u64), expr::Val::c(w as u64), expr::Val::c(f as u64)])?;
                let e = vm.run();
                let em = vm.emitted_bytes(&[]);
                let (r, out) = check::call_native(nat, prop, d, w, f);
                let ok = match &e { vm::End::Ret(k) => *k as u32 == r && em == out, vm::End::Panic(_) => r == 101, _ => false };
                n += 1;
                if !ok {
                    bad += 1;
                    if bad < 10 { println!("MISMATCH {:?}: {:?} native {}", String::from_utf8_lossy(d), e, r); }
                }
                vm.reset(m);
            }
            println!("{} documents, {} differ, {} steps", n, bad, vm.total_steps);
            Ok((bad > 0) as i32)
        }
        // native SO PROP W FLAGS FILE
        Some("native") => {
            let nat = check::load_native(&a[2])?;
            let d = std::fs::read(&a[6]).map_err(|e| e.to_string())?;
            let w: i64 = a[4].parse().unwrap();
            let (r, out) = check::call_native(nat, a[3].parse().unwrap(), &d, w as u32, a[5].parse().unwrap());
            use std::io::Write;
            std::io::stdout().write_all(&out).ok();
            println!("\nverdict {}", r);
            Ok(0)
        }
        _ => Err("usage".into()),
    }
}
fn main() {
    match real_main() {
        Ok(c) => std::process::exit(c),
        Err(e) => {
            eprintln!("mdsym: {}", e);
            std::process::exit(2)
        }
    }
}
