//! Entry points executed symbolically by /verif/engine and, compiled natively, used to
//! replay every explored path.  Only the public API of markdown-fmt is used.
mod oracle;
use std::cell::RefCell;

thread_local! {
    static OUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

/// Observable output of a path; the executor records it, the native build appends it.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_emit(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    OUT.with(|o| o.borrow_mut().extend_from_slice(s));
}

/// Marks a path as having reached an interesting point (bit k), against vacuity.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_note(k: u32) {
    OUT.with(|o| {
        let mut o = o.borrow_mut();
        o.push(0xff);
        o.push(k as u8);
        o.pop();
        o.pop();
    });
}

/// 0: the property holds on this input; 1: the input is outside its domain; >=2: violated.
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_entry(prop: u32, p: *const u8, n: usize, width: u32, flags: u32) -> u32 {
    let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    oracle::check(prop, s, if width == u32::MAX { None } else { Some(width as usize) }, flags)
}

/// Native replay: as `h_entry`; 101 if it panicked. The emitted bytes go to `out`.
#[no_mangle]
pub extern "C" fn h_native(prop: u32, p: *const u8, n: usize, width: u32, flags: u32, out: *mut u8, cap: usize, len: *mut usize) -> u32 {
    OUT.with(|o| o.borrow_mut().clear());
    let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    let w = if width == u32::MAX { None } else { Some(width as usize) };
    let r = std::panic::catch_unwind(|| oracle::check(prop, s, w, flags)).unwrap_or(101);
    OUT.with(|o| {
        let o = o.borrow();
        let k = o.len().min(cap);
        unsafe {
            std::ptr::copy_nonoverlapping(o.as_ptr(), out, k);
            *len = o.len();
        }
    });
    r
}

/// Silence panic messages during native replay.
#[no_mangle]
pub extern "C" fn h_quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
