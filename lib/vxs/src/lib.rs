//! Interface between harness / instrumented dependencies and the symbolic executor.
//! In a native run these functions come from rt/vxrt.c and `on()` is false.
mod ffi {
    extern "C" {
        pub fn vx_on() -> i32;
        pub fn vx_f1600(p: *mut u64) -> i32;
        pub fn vx_bigop(op: u64, out: *mut u8, a: *const u8, b: *const u8, ni: u64, no: u64) -> i32;
        pub fn vx_issym(p: *const u8, n: u64) -> i32;
        pub fn vx_simp(v: u8) -> u8;
    }
}
#[inline]
pub fn on() -> bool { unsafe { ffi::vx_on() != 0 } }
#[inline]
pub fn f1600(s: &mut [u64; 25]) -> bool { unsafe { ffi::vx_f1600(s.as_mut_ptr()) != 0 } }
#[inline]
pub fn issym(b: &[u8]) -> bool { unsafe { ffi::vx_issym(b.as_ptr(), b.len() as u64) != 0 } }

/// Lossless text form of an integer given as little-endian bytes: '~', a width tag, two letters per byte (most significant first).
#[inline(never)]
pub fn enc(out: &mut Vec<u8>, le: &[u8]) {
    out.push(b'~');
    out.push(b'A' + (le.len() as u8 & 0x3f));
    for b in le.iter().rev() { out.push(b'a' + (b >> 4)); out.push(b'a' + (b & 15)); }
}
#[inline(never)]
pub fn enc_string(le: &[u8]) -> String {
    let mut v = Vec::with_capacity(2 + 2 * le.len());
    enc(&mut v, le);
    unsafe { String::from_utf8_unchecked(v) }
}
/// Decodes the text form at the start of `s`: None = not in this form, Some(None) = out of range or malformed,
/// Some(Some(k)) = `out` (little endian) holds the value and k bytes were used.
#[inline(never)]
pub fn dec(s: &[u8], out: &mut [u8]) -> Option<Option<usize>> {
    if s.len() < 2 || s[0] != b'~' { return None; }
    let n = s[1].wrapping_sub(b'A') as usize;
    if n == 0 || n > 64 || s.len() < 2 + 2 * n { return Some(None); }
    let mut bad = 0u8;
    for o in out.iter_mut() { *o = 0; }
    for i in 0..n {
        let h = s[2 + 2 * (n - 1 - i)].wrapping_sub(b'a');
        let l = s[3 + 2 * (n - 1 - i)].wrapping_sub(b'a');
        bad |= (h | l) & 0xf0;
        let b = h << 4 | l;
        if i < out.len() { out[i] = b; } else { bad |= b; }
    }
    if bad != 0 { return Some(None); }
    Some(Some(2 + 2 * n))
}
/// whole-string variant
#[inline(never)]
pub fn dec_all(s: &str, out: &mut [u8]) -> Option<bool> {
    match dec(s.as_bytes(), out) { None => None, Some(Some(k)) if k == s.len() => Some(true), _ => Some(false) }
}

/// Wide integer operations, little-endian byte buffers. Returns false when the caller has to compute itself.
#[inline(never)]
pub fn bigop(op: u64, out: &mut [u8], a: &[u8], b: &[u8]) -> bool {
    unsafe { ffi::vx_bigop(op, out.as_mut_ptr(), a.as_ptr(), b.as_ptr(), a.len() as u64, out.len() as u64) != 0 }
}

/// Idealised signature check used inside the executor: the first byte of a valid signature is a function of message and key.
/// Distinct (message, key) pairs used by a harness are given distinct tags there.
#[inline(never)]
pub fn sig_tag(msg: &[u8], key: &[u8]) -> u8 {
    let mut t = 0x35u8;
    for b in msg { t = t.rotate_left(3) ^ b; }
    for b in key { t = t.rotate_left(5).wrapping_add(*b); }
    t
}
#[inline(never)]
pub fn sig_ok(msg: &[u8], sig: &[u8], key: &[u8]) -> bool { sig[0] == sig_tag(msg, key) }

/// value of a hex digit
#[inline(never)]
pub fn hex_val(c: u8) -> Option<u8> {
    let ok = (c.wrapping_sub(b'0') < 10) | ((c | 32).wrapping_sub(b'a') < 6);
    if ok { Some(unsafe { ffi::vx_simp((c & 15) + 9 * (c >> 6)) }) } else { None }
}
/// hex digit of a value below 16; `ten` is the digit for ten
#[inline(never)]
pub fn hex_digit(n: u8, ten: u8) -> u8 { n + b'0' + (n > 9) as u8 * (ten - b'0' - 10) }

/// bytes as text, two letters per byte after a '~'
#[inline(never)]
pub fn letters(b: &[u8]) -> String {
    let mut v = Vec::with_capacity(1 + 2 * b.len());
    v.push(b'~');
    for x in b { v.push(b'a' + (x >> 4)); v.push(b'a' + (x & 15)); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// the inverse: None = not in this form, Some(None) = malformed
#[inline(never)]
pub fn unletters(s: &str) -> Option<Option<Vec<u8>>> {
    let s = s.as_bytes();
    if s.is_empty() || s[0] != b'~' { return None; }
    if s.len() % 2 == 0 { return Some(None); }
    let mut bad = 0u8;
    let mut out = Vec::with_capacity(s.len() / 2);
    for c in s[1..].chunks(2) {
        let (h, l) = (c[0].wrapping_sub(b'a'), c[1].wrapping_sub(b'a'));
        bad |= (h | l) & 0xf0;
        out.push(h << 4 | l);
    }
    Some(if bad != 0 { None } else { Some(out) })
}
