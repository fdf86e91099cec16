//! Turns the whole-program bitcode of the harness into the module that is executed:
//! environment functions become declarations (handled natively by the executor, see
//! `Native` in ir.rs), everything but the entry points is internal, dead code goes,
//! and the standard scalar optimisations run.
use crate::llvm::*;
use std::ffi::CStr;

/// Which native model, if any, replaces the function with this (v0-mangled) name.
pub fn stub_kind(n: &str) -> Option<&'static str> {
    let item = n.starts_with("_RNv") || n.starts_with("_RINv");
    if n == "h_emit" {
        return Some("emit");
    }
    if n == "h_note" {
        return Some("note");
    }
    if !item {
        return None;
    }
    // entry points of the panic machinery: the path ends there
    const PANICS: &[&str] = &[
        "6option13expect_failed",
        "6option13unwrap_failed",
        "6result13unwrap_failed",
        "3str16slice_error_fail",
        "5slice5index16slice_index_fail",
        "17len_mismatch_fail",
        "4cell22panic_already_borrowed",
        "4cell30panic_already_mutably_borrowed",
        "7raw_vec12handle_error",
        "7raw_vec17capacity_overflow",
        "5alloc18handle_alloc_error",
        "9panicking11begin_panic",
        "13assert_failed",
        "___rustc10rust_panic",
        "26___rust_alloc_error_handler",
        "17rust_begin_unwind",
    ];
    if n.contains("4core9panicking") && !n.contains("8is_panic") {
        return Some("panic");
    }
    if PANICS.iter().any(|p| n.contains(p)) {
        return Some("panic");
    }
    if n.contains("6random11RandomState") && n.contains("8hash_one") {
        return Some("hash");
    }
    if n.contains("19hashmap_random_keys") {
        return Some("rkeys");
    }
    if n.contains("8___rustc") || n.contains("7___rustc") {
        for (s, k) in [
            ("12___rust_alloc", "alloc"),
            ("19___rust_alloc_zeroed", "zalloc"),
            ("14___rust_dealloc", "dealloc"),
            ("14___rust_realloc", "realloc"),
        ] {
            if n.ends_with(s) {
                return Some(k);
            }
        }
    }
    // memchr crate and core's own memchr
    if n.starts_with("_RNvNtCs") {
        for (s, k) in [
            ("_6memchr6memchr6memchr", "memchr"),
            ("_6memchr6memchr7memchr2", "memchr2"),
            ("_6memchr6memchr7memchr3", "memchr3"),
            ("_6memchr6memchr7memrchr", "memrchr"),
            ("_6memchr6memchr8memrchr2", "memrchr2"),
        ] {
            if let Some(i) = n.find(s) {
                let rest = &n[i + s.len()..];
                if rest.is_empty() || rest.starts_with("Cs") || rest.starts_with('B') {
                    return Some(k);
                }
            }
        }
    }
    if n.starts_with("_RNvNtNtCs") && n.contains("4core5slice6memchr14memchr_aligned") {
        return Some("memchr");
    }
    if n.starts_with("_RNvNtNtCs") && n.contains("4core5slice6memchr15memrchr_aligned") {
        return Some("memrchr");
    }
    None
}

pub fn prep(input: &str, output: &str, entries: &[String], dump: Option<&str>) -> Result<(), String> {
    unsafe {
        let (ctx, m) = load(input)?;
        let kind = |s: &str| LLVMGetEnumAttributeKindForName(s.as_ptr() as *const _, s.len());
        let noreturn = kind("noreturn");
        // collect first: the module changes below
        let mut fns = vec![];
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            fns.push(f);
            f = LLVMGetNextFunction(f);
        }
        let mut k = 0;
        for f in fns {
            let n = name(f);
            if entries.contains(&n) {
                continue;
            }
            if LLVMIsDeclaration(f) != 0 {
                continue;
            }
            if let Some(kind) = stub_kind(&n) {
                k += 1;
                let nn = cs(&format!("mdsym.{}.{}.{}", kind, k, n));
                let nf = LLVMAddFunction(m, nn.as_ptr(), LLVMGlobalGetValueType(f));
                LLVMSetFunctionCallConv(nf, LLVMGetFunctionCallConv(f));
                if !LLVMGetEnumAttributeAtIndex(f, u32::MAX, noreturn).is_null() || kind == "panic" {
                    LLVMAddAttributeAtIndex(nf, u32::MAX, LLVMCreateEnumAttribute(ctx, noreturn, 0));
                }
                LLVMReplaceAllUsesWith(f, nf);
                LLVMDeleteFunction(f);
                continue;
            }
            LLVMSetComdat(f, std::ptr::null_mut());
            LLVMSetVisibility(f, 0);
            LLVMSetLinkage(f, 8); // internal
        }
        for g in ["llvm.used", "llvm.compiler.used", "llvm.global_ctors"] {
            let g = LLVMGetNamedGlobal(m, cs(g).as_ptr());
            if !g.is_null() {
                LLVMDeleteGlobal(g);
            }
        }
        let mut g = LLVMGetFirstGlobal(m);
        while !g.is_null() {
            if LLVMIsDeclaration(g) == 0 {
                LLVMSetComdat(g, std::ptr::null_mut());
                LLVMSetVisibility(g, 0);
                LLVMSetLinkage(g, 8);
            }
            g = LLVMGetNextGlobal(g);
        }
        let o = LLVMCreatePassBuilderOptions();
        LLVMPassBuilderOptionsSetLoopVectorization(o, 0);
        LLVMPassBuilderOptionsSetSLPVectorization(o, 0);
        LLVMPassBuilderOptionsSetLoopInterleaving(o, 0);
        LLVMPassBuilderOptionsSetLoopUnrolling(o, 0);
        let passes = std::env::var("MDSYM_PASSES").unwrap_or("globaldce,default<O2>".to_string());
        let e = LLVMRunPasses(m, cs(&passes).as_ptr(), std::ptr::null_mut(), o);
        if !e.is_null() {
            return Err(CStr::from_ptr(LLVMGetErrorMessage(e)).to_string_lossy().into_owned());
        }
        if LLVMWriteBitcodeToFile(m, cs(output).as_ptr()) != 0 {
            return Err("write bitcode".into());
        }
        if let Some(d) = dump {
            let mut msg = std::ptr::null_mut();
            LLVMPrintModuleToFile(m, cs(d).as_ptr(), &mut msg);
        }
        Ok(())
    }
}
