//! Hand-written declarations of the part of the LLVM-C API that is used.
#![allow(non_camel_case_types, non_snake_case, dead_code)]
use std::ffi::{c_char, c_double, c_int, c_longlong, c_uint, c_ulonglong, c_void, CStr, CString};

pub type Ctx = *mut c_void;
pub type Module = *mut c_void;
pub type Value = *mut c_void;
pub type Type = *mut c_void;
pub type BB = *mut c_void;
pub type TD = *mut c_void;
pub type Attr = *mut c_void;

extern "C" {
    pub fn LLVMContextCreate() -> Ctx;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut *mut c_void, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseIRInContext(c: Ctx, buf: *mut c_void, m: *mut Module, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMWriteBitcodeToFile(m: Module, p: *const c_char) -> c_int;
    pub fn LLVMPrintModuleToFile(m: Module, p: *const c_char, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMGetModuleDataLayout(m: Module) -> TD;
    pub fn LLVMGetFirstFunction(m: Module) -> Value;
    pub fn LLVMGetNextFunction(v: Value) -> Value;
    pub fn LLVMGetFirstGlobal(m: Module) -> Value;
    pub fn LLVMGetNextGlobal(v: Value) -> Value;
    pub fn LLVMGetNamedGlobal(m: Module, n: *const c_char) -> Value;
    pub fn LLVMGetNamedFunction(m: Module, n: *const c_char) -> Value;
    pub fn LLVMAddFunction(m: Module, n: *const c_char, t: Type) -> Value;
    pub fn LLVMDeleteFunction(f: Value);
    pub fn LLVMDeleteGlobal(f: Value);
    pub fn LLVMReplaceAllUsesWith(a: Value, b: Value);
    pub fn LLVMSetLinkage(v: Value, l: c_uint);
    pub fn LLVMGetLinkage(v: Value) -> c_uint;
    pub fn LLVMSetComdat(v: Value, c: *mut c_void);
    pub fn LLVMSetVisibility(v: Value, c: c_uint);
    pub fn LLVMSetDLLStorageClass(v: Value, c: c_uint);
    pub fn LLVMGetFunctionCallConv(v: Value) -> c_uint;
    pub fn LLVMSetFunctionCallConv(v: Value, c: c_uint);
    pub fn LLVMGetEnumAttributeKindForName(n: *const c_char, l: usize) -> c_uint;
    pub fn LLVMCreateEnumAttribute(c: Ctx, k: c_uint, v: u64) -> Attr;
    pub fn LLVMAddAttributeAtIndex(f: Value, idx: c_uint, a: Attr);
    pub fn LLVMGetEnumAttributeAtIndex(f: Value, idx: c_uint, k: c_uint) -> Attr;
    pub fn LLVMIsDeclaration(v: Value) -> c_int;
    pub fn LLVMGetValueName2(v: Value, n: *mut usize) -> *const c_char;
    pub fn LLVMGlobalGetValueType(v: Value) -> Type;
    pub fn LLVMGetInitializer(v: Value) -> Value;
    pub fn LLVMAliasGetAliasee(v: Value) -> Value;
    pub fn LLVMGetAlignment(v: Value) -> c_uint;
    pub fn LLVMTypeOf(v: Value) -> Type;
    pub fn LLVMGetTypeKind(t: Type) -> c_uint;
    pub fn LLVMGetIntTypeWidth(t: Type) -> c_uint;
    pub fn LLVMGetReturnType(t: Type) -> Type;
    pub fn LLVMCountParams(f: Value) -> c_uint;
    pub fn LLVMGetParam(f: Value, i: c_uint) -> Value;
    pub fn LLVMCountStructElementTypes(t: Type) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: Type, i: c_uint) -> Type;
    pub fn LLVMGetElementType(t: Type) -> Type;
    pub fn LLVMGetArrayLength2(t: Type) -> u64;
    pub fn LLVMGetVectorSize(t: Type) -> c_uint;
    pub fn LLVMABISizeOfType(td: TD, t: Type) -> c_ulonglong;
    pub fn LLVMStoreSizeOfType(td: TD, t: Type) -> c_ulonglong;
    pub fn LLVMABIAlignmentOfType(td: TD, t: Type) -> c_uint;
    pub fn LLVMOffsetOfElement(td: TD, t: Type, i: c_uint) -> c_ulonglong;
    pub fn LLVMGetFirstBasicBlock(f: Value) -> BB;
    pub fn LLVMGetNextBasicBlock(b: BB) -> BB;
    pub fn LLVMGetFirstInstruction(b: BB) -> Value;
    pub fn LLVMGetNextInstruction(v: Value) -> Value;
    pub fn LLVMGetInstructionOpcode(v: Value) -> c_uint;
    pub fn LLVMGetNumOperands(v: Value) -> c_int;
    pub fn LLVMGetOperand(v: Value, i: c_uint) -> Value;
    pub fn LLVMGetICmpPredicate(v: Value) -> c_uint;
    pub fn LLVMGetFCmpPredicate(v: Value) -> c_uint;
    pub fn LLVMGetNumSuccessors(v: Value) -> c_uint;
    pub fn LLVMGetSuccessor(v: Value, i: c_uint) -> BB;
    pub fn LLVMIsACondBrInst(v: Value) -> Value;
    pub fn LLVMIsAUncondBrInst(v: Value) -> Value;
    pub fn LLVMGetSwitchCaseValue(v: Value, i: c_uint) -> Value;
    pub fn LLVMCountIncoming(v: Value) -> c_uint;
    pub fn LLVMGetIncomingValue(v: Value, i: c_uint) -> Value;
    pub fn LLVMGetIncomingBlock(v: Value, i: c_uint) -> BB;
    pub fn LLVMGetCalledValue(v: Value) -> Value;
    pub fn LLVMGetNumArgOperands(v: Value) -> c_uint;
    pub fn LLVMGetNormalDest(v: Value) -> BB;
    pub fn LLVMGetGEPSourceElementType(v: Value) -> Type;
    pub fn LLVMGetNumIndices(v: Value) -> c_uint;
    pub fn LLVMGetIndices(v: Value) -> *const c_uint;
    pub fn LLVMGetNumMaskElements(v: Value) -> c_uint;
    pub fn LLVMGetMaskValue(v: Value, i: c_uint) -> c_int;
    pub fn LLVMGetAtomicRMWBinOp(v: Value) -> c_uint;
    pub fn LLVMGetAllocatedType(v: Value) -> Type;
    pub fn LLVMIsAConstantInt(v: Value) -> Value;
    pub fn LLVMIsAConstantFP(v: Value) -> Value;
    pub fn LLVMIsAConstantPointerNull(v: Value) -> Value;
    pub fn LLVMIsAUndefValue(v: Value) -> Value;
    pub fn LLVMIsAPoisonValue(v: Value) -> Value;
    pub fn LLVMIsAConstantAggregateZero(v: Value) -> Value;
    pub fn LLVMIsAConstantExpr(v: Value) -> Value;
    pub fn LLVMIsAConstant(v: Value) -> Value;
    pub fn LLVMIsAFunction(v: Value) -> Value;
    pub fn LLVMIsAGlobalVariable(v: Value) -> Value;
    pub fn LLVMIsAGlobalAlias(v: Value) -> Value;
    pub fn LLVMIsAInlineAsm(v: Value) -> Value;
    pub fn LLVMIsAConstantDataSequential(v: Value) -> Value;
    pub fn LLVMGetInlineAsmAsmString(v: Value, l: *mut usize) -> *const c_char;
    pub fn LLVMGetConstOpcode(v: Value) -> c_uint;
    pub fn LLVMConstIntGetZExtValue(v: Value) -> c_ulonglong;
    pub fn LLVMConstIntGetSExtValue(v: Value) -> c_longlong;
    pub fn LLVMConstRealGetDouble(v: Value, l: *mut c_int) -> c_double;
    pub fn LLVMGetAggregateElement(v: Value, i: c_uint) -> Value;
    pub fn LLVMPrintValueToString(v: Value) -> *mut c_char;
    pub fn LLVMPrintTypeToString(v: Type) -> *mut c_char;
    pub fn LLVMDisposeMessage(m: *mut c_char);
    pub fn LLVMRunPasses(m: Module, p: *const c_char, tm: *mut c_void, o: *mut c_void) -> *mut c_void;
    pub fn LLVMGetErrorMessage(e: *mut c_void) -> *mut c_char;
    pub fn LLVMCreatePassBuilderOptions() -> *mut c_void;
    pub fn LLVMPassBuilderOptionsSetLoopVectorization(o: *mut c_void, b: c_int);
    pub fn LLVMPassBuilderOptionsSetSLPVectorization(o: *mut c_void, b: c_int);
    pub fn LLVMPassBuilderOptionsSetLoopUnrolling(o: *mut c_void, b: c_int);
    pub fn LLVMPassBuilderOptionsSetLoopInterleaving(o: *mut c_void, b: c_int);
    pub fn LLVMPassBuilderOptionsSetInlinerThreshold(o: *mut c_void, b: c_int);
}

pub fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}
pub unsafe fn name(v: Value) -> String {
    let mut n = 0usize;
    let p = LLVMGetValueName2(v, &mut n);
    String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
}
pub unsafe fn val_str(v: Value) -> String {
    let p = LLVMPrintValueToString(v);
    let s = CStr::from_ptr(p).to_string_lossy().into_owned();
    LLVMDisposeMessage(p);
    s
}
pub unsafe fn ty_str(v: Type) -> String {
    let p = LLVMPrintTypeToString(v);
    let s = CStr::from_ptr(p).to_string_lossy().into_owned();
    LLVMDisposeMessage(p);
    s
}
pub unsafe fn load(path: &str) -> Result<(Ctx, Module), String> {
    let c = LLVMContextCreate();
    let mut buf = std::ptr::null_mut();
    let mut msg = std::ptr::null_mut();
    let p = cs(path);
    if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 {
        return Err(CStr::from_ptr(msg).to_string_lossy().into_owned());
    }
    let mut m = std::ptr::null_mut();
    if LLVMParseIRInContext(c, buf, &mut m, &mut msg) != 0 {
        return Err(CStr::from_ptr(msg).to_string_lossy().into_owned());
    }
    Ok((c, m))
}

// type kinds
pub const TK_VOID: c_uint = 0;
pub const TK_FLOAT: c_uint = 2;
pub const TK_DOUBLE: c_uint = 3;
pub const TK_LABEL: c_uint = 7;
pub const TK_INT: c_uint = 8;
pub const TK_FUNC: c_uint = 9;
pub const TK_STRUCT: c_uint = 10;
pub const TK_ARRAY: c_uint = 11;
pub const TK_PTR: c_uint = 12;
pub const TK_VEC: c_uint = 13;
pub const TK_META: c_uint = 14;
