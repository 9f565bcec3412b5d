//! What the symbolic engine provides. The native replay binary defines the same functions and
//! takes the values from its input instead.
extern "C-unwind" {
    fn sym_u8(n: u32) -> u8;
    fn sym_assume(c: bool);
    fn sym_check(c: bool, code: u32);
    fn sym_reach(code: u32);
    fn sym_note(p: *const u8, n: usize);
    fn sym_conc(v: u64) -> u64;
}
/// An arbitrary value below `n` (at most 256).
pub fn any(n: u32) -> u8 {
    unsafe { sym_u8(n) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn check(c: bool, code: u32) {
    unsafe { sym_check(c, code) }
}
pub fn reach(code: u32) {
    unsafe { sym_reach(code) }
}
pub fn note(b: &[u8]) {
    unsafe { sym_note(b.as_ptr(), b.len()) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { sym_conc(v) }
}
