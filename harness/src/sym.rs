//! The few operations the harness shares with the symbolic engine (and with the native replay, which
//! implements them from a recorded counterexample).

extern "C-unwind" {
    /// fills `n` bytes with fresh symbolic bytes
    fn sym_bytes(p: *mut u8, n: usize);
    /// restricts the inputs considered
    fn sym_assume(b: bool);
    /// the property is violated on this path
    fn sym_fail(p: *const u8, n: usize) -> !;
    /// marks a situation as reached
    fn sym_cover(c: u32);
    /// splits the path on the value
    fn sym_concretize(v: u64) -> u64;
    /// copies the template of the current job, up to `cap` bytes, and gives its length
    fn sym_template(p: *mut u8, cap: usize) -> usize;
    /// records what this path observed
    fn sym_out(p: *const u8, n: usize);
}

pub fn byte() -> u8 {
    let mut b = 0u8;
    unsafe { sym_bytes(&mut b, 1) };
    b
}

pub fn assume(b: bool) {
    unsafe { sym_assume(b) }
}

pub fn fail(msg: &str) -> ! {
    unsafe { sym_fail(msg.as_ptr(), msg.len()) }
}

pub fn cover(c: u32) {
    unsafe { sym_cover(c) }
}

pub fn out(s: &str) {
    unsafe { sym_out(s.as_ptr(), s.len()) }
}

/// A value below `n`, the path splits on it
pub fn choice(n: u8) -> u8 {
    if n <= 1 {
        return 0;
    }
    let b = byte();
    assume(b < n);
    unsafe { sym_concretize(b as u64) as u8 }
}

pub fn template() -> Vec<u8> {
    let mut v = vec![0u8; unsafe { sym_template(core::ptr::null_mut(), 0) }];
    unsafe { sym_template(v.as_mut_ptr(), v.len()) };
    v
}

pub fn check(ok: bool, msg: &str) {
    if !ok {
        fail(msg)
    }
}
