//! Minimal hand-written bindings to the LLVM C API of rustc's own libLLVM.
#![allow(non_snake_case, dead_code)]
use std::ffi::{c_char, c_int, c_uint, c_ulonglong, c_void, CStr, CString};

pub type P = *mut c_void;

extern "C" {
    pub fn LLVMContextCreate() -> P;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseIRInContext(c: P, b: P, m: *mut P, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMWriteBitcodeToFile(m: P, path: *const c_char) -> c_int;
    pub fn LLVMGetFirstFunction(m: P) -> P;
    pub fn LLVMGetNextFunction(f: P) -> P;
    pub fn LLVMGetFirstGlobal(m: P) -> P;
    pub fn LLVMGetNextGlobal(f: P) -> P;
    pub fn LLVMGetFirstGlobalAlias(m: P) -> P;
    pub fn LLVMGetNextGlobalAlias(f: P) -> P;
    pub fn LLVMAliasGetAliasee(a: P) -> P;
    pub fn LLVMGetInitializer(g: P) -> P;
    pub fn LLVMGlobalGetValueType(g: P) -> P;
    pub fn LLVMGetFirstBasicBlock(f: P) -> P;
    pub fn LLVMGetNextBasicBlock(b: P) -> P;
    pub fn LLVMGetFirstInstruction(b: P) -> P;
    pub fn LLVMGetNextInstruction(i: P) -> P;
    pub fn LLVMGetInstructionOpcode(i: P) -> c_int;
    pub fn LLVMPrintValueToString(i: P) -> *mut c_char;
    pub fn LLVMDisposeMessage(p: *mut c_char);
    pub fn LLVMGetNumOperands(i: P) -> c_int;
    pub fn LLVMGetOperand(i: P, k: c_uint) -> P;
    pub fn LLVMTypeOf(v: P) -> P;
    pub fn LLVMGetTypeKind(t: P) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: P) -> c_uint;
    pub fn LLVMGetElementType(t: P) -> P;
    pub fn LLVMGetVectorSize(t: P) -> c_uint;
    pub fn LLVMGetArrayLength2(t: P) -> u64;
    pub fn LLVMCountStructElementTypes(t: P) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
    pub fn LLVMGetModuleDataLayout(m: P) -> P;
    pub fn LLVMABISizeOfType(td: P, t: P) -> c_ulonglong;
    pub fn LLVMStoreSizeOfType(td: P, t: P) -> c_ulonglong;
    pub fn LLVMABIAlignmentOfType(td: P, t: P) -> c_uint;
    pub fn LLVMOffsetOfElement(td: P, t: P, i: c_uint) -> c_ulonglong;
    pub fn LLVMGetAlignment(v: P) -> c_uint;
    pub fn LLVMGetAllocatedType(v: P) -> P;
    pub fn LLVMGetGEPSourceElementType(v: P) -> P;
    pub fn LLVMGetICmpPredicate(v: P) -> c_int;
    pub fn LLVMGetFCmpPredicate(v: P) -> c_int;
    pub fn LLVMGetNumIndices(v: P) -> c_uint;
    pub fn LLVMGetIndices(v: P) -> *const c_uint;
    pub fn LLVMGetNumMaskElements(v: P) -> c_uint;
    pub fn LLVMGetMaskValue(v: P, i: c_uint) -> c_int;
    pub fn LLVMGetCalledValue(v: P) -> P;
    pub fn LLVMGetNumArgOperands(v: P) -> c_uint;
    pub fn LLVMGetNumSuccessors(v: P) -> c_uint;
    pub fn LLVMGetSuccessor(v: P, i: c_uint) -> P;
    pub fn LLVMGetSwitchCaseValue(v: P, i: c_uint) -> P;
    pub fn LLVMGetNormalDest(v: P) -> P;
    pub fn LLVMGetAtomicRMWBinOp(v: P) -> c_int;
    pub fn LLVMCountIncoming(v: P) -> c_uint;
    pub fn LLVMGetIncomingValue(v: P, i: c_uint) -> P;
    pub fn LLVMGetIncomingBlock(v: P, i: c_uint) -> P;
    pub fn LLVMCountParams(f: P) -> c_uint;
    pub fn LLVMGetParam(f: P, i: c_uint) -> P;
    pub fn LLVMGetValueName2(v: P, len: *mut usize) -> *const c_char;
    pub fn LLVMIsAConstantInt(v: P) -> P;
    pub fn LLVMIsAConstantFP(v: P) -> P;
    pub fn LLVMIsAConstantExpr(v: P) -> P;
    pub fn LLVMIsAConstantAggregateZero(v: P) -> P;
    pub fn LLVMIsAConstantDataSequential(v: P) -> P;
    pub fn LLVMIsAConstantStruct(v: P) -> P;
    pub fn LLVMIsAConstantArray(v: P) -> P;
    pub fn LLVMIsAConstantVector(v: P) -> P;
    pub fn LLVMIsAConstantPointerNull(v: P) -> P;
    pub fn LLVMIsAUndefValue(v: P) -> P;
    pub fn LLVMIsAPoisonValue(v: P) -> P;
    pub fn LLVMIsAFunction(v: P) -> P;
    pub fn LLVMIsAGlobalVariable(v: P) -> P;
    pub fn LLVMIsAGlobalAlias(v: P) -> P;
    pub fn LLVMIsAInlineAsm(v: P) -> P;
    pub fn LLVMIsConstant(v: P) -> c_int;
    pub fn LLVMGetConstOpcode(v: P) -> c_int;
    pub fn LLVMConstIntGetZExtValue(v: P) -> c_ulonglong;
    pub fn LLVMConstRealGetDouble(v: P, l: *mut c_int) -> f64;
    pub fn LLVMGetElementAsConstant(v: P, i: c_uint) -> P;
    pub fn LLVMGetAggregateElement(v: P, i: c_uint) -> P;
    pub fn LLVMGetRawDataValues(v: P, len: *mut usize) -> *const c_char;
    pub fn LLVMConstIntOfArbitraryPrecision(t: P, n: c_uint, w: *const u64) -> P;
    pub fn LLVMAddFunction(m: P, name: *const c_char, t: P) -> P;
    pub fn LLVMReplaceAllUsesWith(a: P, b: P);
    pub fn LLVMDeleteFunction(f: P);
    pub fn LLVMDeleteGlobal(f: P);
    pub fn LLVMRemoveStringAttributeAtIndex(f: P, idx: c_uint, k: *const c_char, n: c_uint);
    pub fn LLVMGetReturnType(ft: P) -> P;
    pub fn LLVMIsDeclaration(g: P) -> c_int;
    pub fn LLVMSetLinkage(g: P, l: c_int);
    pub fn LLVMGetLinkage(g: P) -> c_int;
    pub fn LLVMCreatePassBuilderOptions() -> P;
    pub fn LLVMPassBuilderOptionsSetLoopVectorization(o: P, b: c_int);
    pub fn LLVMPassBuilderOptionsSetSLPVectorization(o: P, b: c_int);
    pub fn LLVMPassBuilderOptionsSetLoopUnrolling(o: P, b: c_int);
    pub fn LLVMPassBuilderOptionsSetMergeFunctions(o: P, b: c_int);
    pub fn LLVMRunPasses(m: P, passes: *const c_char, tm: P, o: P) -> P;
    pub fn LLVMGetErrorMessage(e: P) -> *mut c_char;
    pub fn LLVMParseCommandLineOptions(n: c_int, v: *const *const c_char, o: *const c_char);
    pub fn LLVMIsThreadLocal(g: P) -> c_int;
}

pub fn name(v: P) -> String {
    unsafe {
        let mut n = 0usize;
        let p = LLVMGetValueName2(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).to_string()
    }
}
pub fn print(v: P) -> String {
    unsafe {
        let p = LLVMPrintValueToString(v);
        let s = CStr::from_ptr(p).to_string_lossy().to_string();
        LLVMDisposeMessage(p);
        s
    }
}
pub fn parse(path: &str) -> P {
    unsafe {
        let c = LLVMContextCreate();
        let mut b = std::ptr::null_mut();
        let mut m = std::ptr::null_mut();
        let mut e = std::ptr::null_mut();
        let cp = CString::new(path).unwrap();
        if LLVMCreateMemoryBufferWithContentsOfFile(cp.as_ptr(), &mut b, &mut e) != 0 {
            panic!("cannot read {path}: {}", CStr::from_ptr(e).to_string_lossy());
        }
        if LLVMParseIRInContext(c, b, &mut m, &mut e) != 0 {
            panic!("cannot parse {path}: {}", CStr::from_ptr(e).to_string_lossy());
        }
        m
    }
}
// LLVMTypeKind
pub const TK_VOID: c_int = 0;
pub const TK_FLOAT: c_int = 2;
pub const TK_DOUBLE: c_int = 3;
pub const TK_INT: c_int = 8;
pub const TK_FUNCTION: c_int = 9;
pub const TK_STRUCT: c_int = 10;
pub const TK_ARRAY: c_int = 11;
pub const TK_PTR: c_int = 12;
pub const TK_VECTOR: c_int = 13;
