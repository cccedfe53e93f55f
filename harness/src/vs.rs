//! Interface between harnesses and the engine.  Under the symbolic executor
//! the extern functions are intercepted; natively the replay binary defines
//! them and feeds the recorded inputs.
extern "C-unwind" {
    fn vs_u8() -> u8;
    fn vs_u64() -> u64;
    fn vs_assume(b: bool);
    fn vs_check(id: u32, b: bool);
    fn vs_reach(id: u32);
    fn vs_conc(x: u64) -> u64;
    fn vs_obs(tag: u32, v: u64);
    fn vs_obs_bytes(tag: u32, p: *const u8, n: usize);
    fn vs_param(k: u32) -> u64;
    fn vs_stop() -> !;
}
pub fn u8() -> u8 { unsafe { vs_u8() } }
pub fn u64() -> u64 { unsafe { vs_u64() } }
pub fn i64() -> i64 { unsafe { vs_u64() as i64 } }
pub fn f64() -> f64 { f64::from_bits(unsafe { vs_u64() }) }
pub fn assume(b: bool) { unsafe { vs_assume(b) } }
pub fn check(id: u32, b: bool) { unsafe { vs_check(id, b) } }
pub fn reach(id: u32) { unsafe { vs_reach(id) } }
/// split into one path per value
pub fn conc(x: u64) -> u64 { unsafe { vs_conc(x) } }
pub fn obs(tag: u32, v: u64) { unsafe { vs_obs(tag, v) } }
pub fn obs_str(tag: u32, s: &str) { unsafe { vs_obs_bytes(tag, s.as_ptr(), s.len()) } }
pub fn param(k: u32) -> u64 { unsafe { vs_param(k) } }
pub fn stop() -> ! { unsafe { vs_stop() } }

/// symbolic value below n (n <= 256), kept symbolic
pub fn below(n: u32) -> u8 {
    let b = u8();
    if n < 256 { assume((b as u32) < n); }
    b
}
/// symbolic value below n, one path per value
pub fn pick(n: u32) -> usize { conc(below(n) as u64) as usize }
pub fn bool() -> bool { below(2) == 1 }
/// symbolic boolean, one path per value
pub fn coin() -> bool { pick(2) == 1 }
/// symbolic character out of an ASCII alphabet (one symbolic byte, no forking)
pub fn ch(alphabet: &[u8]) -> u8 {
    let b = u8();
    let mut ok = false;
    for a in alphabet { ok |= b == *a; }
    assume(ok);
    b
}
/// symbolic string over an alphabet with a length chosen up to max (forks on the length only)
pub fn string(alphabet: &[u8], max: usize) -> String {
    let n = pick(max as u32 + 1);
    string_n(alphabet, n)
}
pub fn string_n(alphabet: &[u8], n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(ch(alphabet)); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// any ASCII string (1..=127) of exactly n bytes
pub fn ascii_n(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { let b = u8(); assume((b >= 1) & (b < 128)); v.push(b); }
    unsafe { String::from_utf8_unchecked(v) }
}

/// one checked assertion: id, meaning, condition
#[macro_export]
macro_rules! ck { ($id:expr, $what:expr, $c:expr) => { $crate::vs::check($id, $c) } }
/// the same, for assertions that some bounds legitimately never reach
#[macro_export]
macro_rules! ck_opt { ($id:expr, $what:expr, $c:expr) => { $crate::vs::check($id, $c) } }
/// any Unicode scalar value of the given UTF-8 length (2..=4), byte by byte
pub fn uchar(len: usize) -> String {
    let mut v = Vec::with_capacity(len);
    let b = u8();
    v.push(b);
    match len {
        2 => assume((b >= 0xc2) & (b <= 0xdf)),
        3 => assume((b >= 0xe0) & (b <= 0xef)),
        _ => assume((b >= 0xf0) & (b <= 0xf4)),
    }
    for k in 1..len {
        let c = u8();
        assume((c >= 0x80) & (c <= 0xbf));
        if k == 1 {
            assume(!((b == 0xe0) & (c < 0xa0)));
            assume(!((b == 0xed) & (c > 0x9f)));
            assume(!((b == 0xf0) & (c < 0x90)));
            assume(!((b == 0xf4) & (c > 0x8f)));
        }
        v.push(c);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
