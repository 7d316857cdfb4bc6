#!/usr/bin/env python3
"""Copies a few dependency crates from the cargo registry into .build/patched and inserts engine hooks.

Every inserted hook is guarded by vxs::on() (true only inside the symbolic executor); a native run of the same
program takes the original code.  An edit whose anchor is not found is an error, never skipped."""
import glob, os, re, shutil, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, ".build", "patched")


def reg(name):
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    for base in (home, os.path.expanduser("~/.cargo"), "/root/.cargo", "/usr/local/cargo"):
        c = glob.glob(os.path.join(base, "registry/src/*/", name))
        if c:
            return c[0]
    sys.exit("crate source not found: " + name)


class Crate:
    def __init__(self, name):
        self.dir = os.path.join(OUT, name.rsplit("-", 1)[0])
        shutil.copytree(reg(name), self.dir)
        for f in (".cargo-ok", ".cargo_vcs_info.json", "Cargo.toml.orig"):
            p = os.path.join(self.dir, f)
            if os.path.exists(p):
                os.remove(p)
        p = os.path.join(self.dir, "Cargo.toml")
        s = open(p).read()
        # the crate's own tests and benches are not used here
        s = re.sub(r"\[dev-dependencies[^\]]*\](?:\n(?!\[).*)*", "", s)
        s = re.sub(r"\[\[(?:bench|test|example)\]\](?:\n(?!\[).*)*", "", s)
        s += '\n[dependencies.vxs]\npath = "%s"\n' % os.path.join(ROOT, "lib", "vxs")
        open(p, "w").write(s)

    def edit(self, f, *pairs):
        p = os.path.join(self.dir, f)
        s = open(p).read()
        for a, b, *n in pairs:
            c = s.count(a)
            want = n[0] if n else 1
            if c < 1 or (want and c != want):
                sys.exit("gen_patched: %s: anchor found %d times: %r" % (p, c, a))
            s = s.replace(a, b)
        open(p, "w").write(s)


def main():
    shutil.rmtree(OUT, ignore_errors=True)
    os.makedirs(OUT)

    c = Crate("itoa-1.0.9")
    c.edit("src/lib.rs", ("                let is_nonnegative = self >= 0;\n", """                if mem::size_of::<$t>() == 8 && <$t>::MIN == 0 && vxs::on() {
                    let le = (self as u64).to_le_bytes();
                    if vxs::issym(&le) {
                        let p = buf.as_mut_ptr() as *mut u8;
                        unsafe {
                            *p = b'~'; *p.add(1) = b'A' + 8;
                            for i in 0..8 { let b = le[7 - i]; *p.add(2 + 2 * i) = b'a' + (b >> 4); *p.add(3 + 2 * i) = b'a' + (b & 15); }
                            return str::from_utf8_unchecked(slice::from_raw_parts(p, 18));
                        }
                    }
                }
                let is_nonnegative = self >= 0;
""", 2))
    k = Crate("keccak-0.1.4")
    k.edit("src/lib.rs", ("impl_keccak!(p1600, f1600, u64);", """/// Keccak-p[1600] permutation.
pub fn p1600(state: &mut [u64; PLEN], round_count: usize) {
    if round_count == 24 && vxs::on() && vxs::f1600(state) { return; }
    keccak_p(state, round_count);
}
/// Keccak-f[1600] permutation.
pub fn f1600(state: &mut [u64; PLEN]) {
    if vxs::on() && vxs::f1600(state) { return; }
    keccak_p(state, <u64>::KECCAK_F_ROUND_COUNT);
}"""))

    # the same values without branches or table look-ups
    x = Crate("hex-0.4.3")
    x.edit("src/lib.rs",
           ("let current = self.table[(byte >> 4) as usize] as char;\n                self.next = Some(self.table[(byte & 0x0F) as usize] as char);",
            "let table = self.table;\n                let digit = |n: u8| if vxs::on() { vxs::hex_digit(n, table[10]) as char } else { table[n as usize] as char };\n                let current = digit(*byte >> 4);\n                self.next = Some(digit(*byte & 0x0F));"),
           ("    let high = table[((byte & 0xf0) >> 4) as usize];\n    let low = table[(byte & 0x0f) as usize];",
            "    if vxs::on() { return (vxs::hex_digit(byte >> 4, table[10]), vxs::hex_digit(byte & 15, table[10])); }\n    let high = table[((byte & 0xf0) >> 4) as usize];\n    let low = table[(byte & 0x0f) as usize];"),
           ("fn val(c: u8, idx: usize) -> Result<u8, FromHexError> {\n",
            "fn val(c: u8, idx: usize) -> Result<u8, FromHexError> {\n    if vxs::on() { return match vxs::hex_val(c) { Some(v) => Ok(v), None => Err(FromHexError::InvalidHexCharacter { c: c as char, index: idx }) }; }\n"))

    j = Crate("serde-json-wasm-0.5.1")
    j.edit("src/ser/mod.rs",
           ("macro_rules! serialize_unsigned {\n    ($self:ident, $N:expr, $v:expr) => {{\n",
            "macro_rules! serialize_unsigned {\n    ($self:ident, $N:expr, $v:expr) => {{\n      if vxs::on() { let le = $v.to_le_bytes(); vxs::enc(&mut $self.buf, &le); Ok(()) } else {\n"),
           ("        $self.buf.extend_from_slice(&buf[i..]);\n        Ok(())\n    }};\n}\n// Export for use in map\npub(crate) use serialize_unsigned;",
            "        $self.buf.extend_from_slice(&buf[i..]);\n        Ok(())\n      }\n    }};\n}\n// Export for use in map\npub(crate) use serialize_unsigned;"))
    j.edit("src/de/mod.rs",
           ("            b'-' => Err(Error::InvalidNumber),\n            b'0' => {\n                $self.eat_char();\n                $visitor.$visit_uxx(0)",
            "            b'~' if vxs::on() => {\n                let mut le = [0u8; std::mem::size_of::<$uxx>()];\n                match vxs::dec(&$self.slice[$self.index..], &mut le) {\n                    Some(Some(k)) => { $self.index += k; $visitor.$visit_uxx($uxx::from_le_bytes(le)) }\n                    _ => Err(Error::InvalidNumber),\n                }\n            }\n            b'-' => Err(Error::InvalidNumber),\n            b'0' => {\n                $self.eat_char();\n                $visitor.$visit_uxx(0)"),
           ("            b'0'..=b'9' => {\n                deserialize_unsigned!(self, visitor, u64, visit_u64)",
            "            b'0'..=b'9' | b'~' => {\n                deserialize_unsigned!(self, visitor, u64, visit_u64)"),
           ("Some(b'0'..=b'9') => deserialize_unsigned!(self, visitor, u128, visit_u128)",
            "Some(b'0'..=b'9') | Some(b'~') => deserialize_unsigned!(self, visitor, u128, visit_u128)"))
    j.edit("src/de/map.rs",
           ("Some(b'0'..=b'9') => super::deserialize_unsigned!", "Some(b'0'..=b'9') | Some(b'~') => super::deserialize_unsigned!"))

    c = Crate("cosmwasm-std-1.4.0")
    for t, prim, n in (("Uint64", "u64", 8), ("Uint128", "u128", 16)):
        f = "src/math/%s.rs" % t.lower()
        c.edit(f,
               ("serializer.serialize_str(&self.to_string())",
                "if vxs::on() { return serializer.serialize_str(&vxs::enc_string(&self.0.to_le_bytes())); }\n        serializer.serialize_str(&self.to_string())"),
               ("        match v.parse::<%s>() {" % prim,
                "        if vxs::on() {\n            let mut le = [0u8; %d];\n            match vxs::dec_all(v, &mut le) { Some(true) => return Ok(%s(%s::from_le_bytes(le))), Some(false) => return Err(E::custom(\"invalid integer\")), None => {} }\n        }\n        match v.parse::<%s>() {" % (n, t, prim, prim)))
    # binary data in JSON: letters instead of base64 (a base64 text without '~' is still accepted)
    c.edit("src/binary.rs",
           ("        Self::B64_ENGINE.encode(self.0.as_slice())\n", "        if vxs::on() { return vxs::letters(self.0.as_slice()); }\n        Self::B64_ENGINE.encode(self.0.as_slice())\n"),
           ("        Self::B64_ENGINE\n            .decode(encoded.as_bytes())\n", "        if vxs::on() { if let Some(r) = vxs::unletters(encoded) { return match r { Some(v) => Ok(Binary(v)), None => Err(StdError::invalid_base64(\"invalid letters\")) }; } }\n        Self::B64_ENGINE\n            .decode(encoded.as_bytes())\n"))
    big = '''
/// Wide arithmetic handed to the symbolic executor when it is running.
pub(crate) mod vxbig {
    use bnum::BUint;
    pub trait VxBig: Copy {
        fn vx_checked_mul(self, o: Self) -> Option<Self>;
        fn vx_checked_add(self, o: Self) -> Option<Self>;
        fn vx_checked_sub(self, o: Self) -> Option<Self>;
        fn vx_checked_div(self, o: Self) -> Option<Self>;
        fn vx_checked_rem(self, o: Self) -> Option<Self>;
        fn vx_cmp(&self, o: &Self) -> core::cmp::Ordering;
        fn vx_eq(&self, o: &Self) -> bool;
        fn vx_lt(&self, o: &Self) -> bool;
        fn vx_le(&self) -> Vec<u8>;
        fn vx_of_le(b: &[u8]) -> Self;
    }
    fn bytes<const N: usize>(x: &BUint<N>) -> &[u8] {
        unsafe { core::slice::from_raw_parts(x.digits().as_ptr() as *const u8, 8 * N) }
    }
    impl<const N: usize> VxBig for BUint<N> {
        fn vx_checked_mul(self, o: Self) -> Option<Self> {
            if vxs::on() {
                let mut out = [[0u64; N]; 2];
                let ob = unsafe { core::slice::from_raw_parts_mut(out.as_mut_ptr() as *mut u8, 16 * N) };
                if vxs::bigop(2, ob, bytes(&self), bytes(&o)) {
                    let mut hi = 0u64; for d in out[1].iter() { hi |= *d; }
                    return if hi == 0 { Some(BUint::from_digits(out[0])) } else { None };
                }
            }
            self.checked_mul(o)
        }
        fn vx_checked_add(self, o: Self) -> Option<Self> {
            if vxs::on() {
                let mut out = [0u64; N];
                let ob = unsafe { core::slice::from_raw_parts_mut(out.as_mut_ptr() as *mut u8, 8 * N) };
                if vxs::bigop(0, ob, bytes(&self), bytes(&o)) { let r = BUint::from_digits(out); return if r.vx_lt(&self) { None } else { Some(r) }; }
            }
            self.checked_add(o)
        }
        fn vx_checked_sub(self, o: Self) -> Option<Self> {
            if vxs::on() {
                let mut out = [0u64; N];
                let ob = unsafe { core::slice::from_raw_parts_mut(out.as_mut_ptr() as *mut u8, 8 * N) };
                if vxs::bigop(1, ob, bytes(&self), bytes(&o)) { return if self.vx_lt(&o) { None } else { Some(BUint::from_digits(out)) }; }
            }
            self.checked_sub(o)
        }
        fn vx_checked_div(self, o: Self) -> Option<Self> {
            if vxs::on() {
                if o.vx_eq(&BUint::ZERO) { return None; }
                let mut out = [0u64; N];
                let ob = unsafe { core::slice::from_raw_parts_mut(out.as_mut_ptr() as *mut u8, 8 * N) };
                if vxs::bigop(3, ob, bytes(&self), bytes(&o)) { return Some(BUint::from_digits(out)); }
            }
            self.checked_div(o)
        }
        fn vx_checked_rem(self, o: Self) -> Option<Self> {
            if vxs::on() {
                if o.vx_eq(&BUint::ZERO) { return None; }
                let mut out = [0u64; N];
                let ob = unsafe { core::slice::from_raw_parts_mut(out.as_mut_ptr() as *mut u8, 8 * N) };
                if vxs::bigop(4, ob, bytes(&self), bytes(&o)) { return Some(BUint::from_digits(out)); }
            }
            self.checked_rem(o)
        }
        fn vx_cmp(&self, o: &Self) -> core::cmp::Ordering {
            if vxs::on() {
                let mut out = [0u8; 8];
                if vxs::bigop(5, &mut out, bytes(self), bytes(o)) && out[0] != 0 { return core::cmp::Ordering::Less; }
                return if self.vx_eq(o) { core::cmp::Ordering::Equal } else if out[0] != 0 { core::cmp::Ordering::Less } else if vxs::bigop(5, &mut out, bytes(o), bytes(self)) { core::cmp::Ordering::Greater } else { self.cmp(o) };
            }
            self.cmp(o)
        }
        fn vx_eq(&self, o: &Self) -> bool {
            if vxs::on() {
                let mut out = [0u8; 8];
                if vxs::bigop(6, &mut out, bytes(self), bytes(o)) { return out[0] != 0; }
            }
            self == o
        }
        fn vx_lt(&self, o: &Self) -> bool {
            if vxs::on() {
                let mut out = [0u8; 8];
                if vxs::bigop(5, &mut out, bytes(self), bytes(o)) { return out[0] != 0; }
            }
            self < o
        }
        fn vx_le(&self) -> Vec<u8> { bytes(self).to_vec() }
        fn vx_of_le(b: &[u8]) -> Self {
            let mut d = [0u64; N];
            unsafe { core::ptr::copy_nonoverlapping(b.as_ptr(), d.as_mut_ptr() as *mut u8, 8 * N) }
            BUint::from_digits(d)
        }
    }
}
'''
    p = os.path.join(c.dir, "src/math/mod.rs")
    s = open(p).read()
    m = s.index("#[cfg(test)]")
    open(p, "w").write(s[:m] + big + s[m:])
    for t, n in (("Uint256", 32), ("Uint512", 64)):
        f = "src/math/%s.rs" % t.lower()
        ut = "U%d" % (n * 8)
        p = os.path.join(c.dir, f)
        s = open(p).read()
        cut = s.index("#[cfg(test)]\nmod tests")
        head, tail = s[:cut], s[cut:]
        a = "#[derive(Copy, Clone, Default, Debug, PartialEq, Eq, PartialOrd, Ord, JsonSchema)]\npub struct %s(" % t
        assert a in head
        head = head.replace(a, "#[derive(Copy, Clone, Default, Debug, Eq, JsonSchema)]\npub struct %s(" % t)
        a = "forward_ref_partial_eq!(%s, %s);" % (t, t)
        assert a in head
        head = head.replace(a, """impl PartialEq for %s { fn eq(&self, o: &Self) -> bool { self.0.vx_eq(&o.0) } }
impl PartialOrd for %s {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(self.0.vx_cmp(&o.0)) }
    fn lt(&self, o: &Self) -> bool { self.0.vx_lt(&o.0) }
    fn gt(&self, o: &Self) -> bool { o.lt(self) }
    fn le(&self, o: &Self) -> bool { !o.lt(self) }
    fn ge(&self, o: &Self) -> bool { !self.lt(o) }
}
impl Ord for %s { fn cmp(&self, o: &Self) -> core::cmp::Ordering { self.0.vx_cmp(&o.0) } }
%s""" % (t, t, t, a))
        head = head.replace("use bnum::types::%s;" % ut, "use bnum::types::%s;\nuse super::vxbig::VxBig;" % ut)
        assert "VxBig" in head
        for op in ("add", "sub", "mul", "div", "rem"):
            k = len(re.findall(r"self\s*\.0\s*\.checked_%s\(" % op, head))
            assert k >= 1, (t, op, k)
            head = re.sub(r"(self\s*\.0\s*)\.checked_%s\(" % op, r"\1.vx_checked_%s(" % op, head)
        a = "Self(self.0.rem(rhs.0))"
        assert a in head
        head = head.replace(a, 'Self(self.0.vx_checked_rem(rhs.0).expect("attempt to calculate the remainder with a divisor of zero"))')
        a = "serializer.serialize_str(&self.to_string())"
        assert head.count(a) == 1
        head = head.replace(a, "if vxs::on() { return serializer.serialize_str(&vxs::enc_string(&self.0.vx_le())); }\n        " + a)
        a = "        self.0.fmt(f)\n"
        assert head.count(a) == 1
        head = head.replace(a, "        if vxs::on() { let b = self.0.vx_le(); if vxs::issym(&b) { return f.write_str(&vxs::enc_string(&b)); } }\n" + a)
        a = "E: de::Error,\n    {\n"
        assert head.count(a) == 1
        head = head.replace(a, a + "        if vxs::on() {\n            let mut le = [0u8; %d];\n            match vxs::dec_all(v, &mut le) { Some(true) => return Ok(%s(%s::vx_of_le(&le))), Some(false) => return Err(E::custom(\"invalid integer\")), None => {} }\n        }\n" % (n, t, ut))
        open(p, "w").write(head + tail)

    y = Crate("cosmwasm-crypto-1.4.0")
    stub = '''
    if vxs::on() {
        // idealised scheme: see vxs::sig_ok
        return Ok(vxs::sig_ok(%s, &%s[..], %s));
    }
'''
    y.edit("src/secp256k1.rs", ("    check_pubkey(public_key)?;\n\n    // Already hashed", "    check_pubkey(public_key)?;\n" + stub % ("&message_hash[..]", "signature", "public_key") + "\n    // Already hashed"))
    a = "CryptoResult<bool> {\n    // Validation\n    let signature = read_signature(signature)?;\n    let pubkey = read_pubkey(public_key)?;\n"
    y.edit("src/ed25519.rs", (a, a + stub % ("message", "signature", "&pubkey[..]")))
    print("patched crates in", OUT)


main()
