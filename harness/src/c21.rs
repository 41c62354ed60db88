//! OAEP, RSA and the encodings of keys.
use crate::{refcrypt::*, rt::*};
use mysql_connector::PublicKey;
use num::BigUint;
use rand::{rngs::StdRng, SeedableRng as _};

fn same(k: &PublicKey, n: &BigUint, e: &BigUint) -> bool { k.modulus() == n && k.exponent() == e }

#[cfg(vx_hooks)]
fn pad(cx: &mut Ctx, m: &[u8], n: usize, seeds: &mut Vec<Vec<u8>>) {
    let desc = format!("{} bytes {} padded for a key of {n}", m.len(), hexs(m));
    cx.case(&desc, true);
    let s = cx.rng.next();
    let Some(p) = cx.guard("c21-panic", &desc, || mysql_connector::vx_hooks::oaep_pad(StdRng::seed_from_u64(s), m, n)) else { return };
    if m.len() + 42 > n { cx.check(p.is_none(), "c21-too-long", || format!("accepted: {desc}")); return; }
    let Some(p) = p else { return cx.fail("c21-refused", desc) };
    cx.check(p.len() == n, "c21-length", || format!("{} bytes for {desc}", p.len()));
    match oaep_decode(&p) {
        Some((seed, got)) => { cx.check(got == m, "c21-padding", || format!("{} decodes to {}: {desc}", hexs(&p), hexs(&got))); seeds.push(seed); }
        None => cx.fail("c21-padding", format!("{} does not decode: {desc}", hexs(&p))),
    }
}
#[cfg(vx_hooks)]
fn encrypt(cx: &mut Ctx, k: &Key, m: &[u8]) {
    let desc = format!("{} bytes {} encrypted for {} bits", m.len(), hexs(m), k.n.bits());
    cx.case(&desc, true);
    let s = cx.rng.next();
    let key = PublicKey::new(k.n.clone(), k.e.clone());
    cx.check(key.num_octets() == k.octets(), "c21-octets", || format!("{} octets for {} bits", key.num_octets(), k.n.bits()));
    let Some(c) = cx.guard("c21-panic", &desc, || mysql_connector::vx_hooks::encrypt_padded(&key, StdRng::seed_from_u64(s), m)) else { return };
    if m.len() + 42 > k.octets() { cx.check(c.is_none(), "c21-too-long", || format!("accepted: {desc}")); return; }
    let Some(c) = c else { return cx.fail("c21-refused", desc) };
    cx.check(c.len() == k.octets(), "c21-block", || format!("{} bytes: {desc}", c.len()));
    let got = k.open(&c);
    cx.check(got.as_deref() == Some(m), "c21-decrypt", || format!("{} decrypts to {got:?}: {desc}", hexs(&c)));
}

fn read(cx: &mut Ctx, n: &BigUint, e: &BigUint) {
    let desc = format!("key {n:x}, {e:x}");
    cx.case(&desc, true);
    let good = |cx: &mut Ctx, what: &str, r: Option<Option<PublicKey>>| {
        if let Some(r) = r { cx.check(r.as_ref().is_some_and(|k| same(k, n, e)), "c21-key", || format!("{what} read as {r:?}: {desc}")); }
    };
    let (a, b) = (pkcs1(n, e), pkcs8(n, e));
    let r = cx.guard("c21-panic", &desc, || PublicKey::try_from_pkcs1(&a).ok());
    good(cx, "pkcs1", r);
    let r = cx.guard("c21-panic", &desc, || PublicKey::try_from_pkcs8(&b).ok());
    good(cx, "pkcs8", r);
    for (w, eol) in [(64usize, "\n"), (76, "\r\n"), (1 << 20, "\n"), (1 + cx.rng.usize(70), " \t\r\n")] {
        let t = pem(&a, "RSA PUBLIC KEY", w, eol);
        let r = cx.guard("c21-panic", &desc, || PublicKey::try_from_pem(&t).ok());
        good(cx, "pem of pkcs1", r);
        let t = pem(&b, "PUBLIC KEY", w, eol);
        let r = cx.guard("c21-panic", &desc, || PublicKey::try_from_pem(&t).ok());
        good(cx, "pem of pkcs8", r);
    }
    // unused bits in the bit string
    let mut bits = vec![1 + cx.rng.usize(7) as u8];
    bits.extend(&a);
    let odd = tlv(0x30, &[tlv(0x30, &[]), tlv(3, &bits)].concat());
    let r = cx.guard("c21-panic", &desc, || PublicKey::try_from_pkcs8(&odd).is_err());
    cx.check(r != Some(false), "c21-malformed", || format!("a bit string with unused bits was accepted: {}", hexs(&odd)));
    // every truncation is an error
    for k in 0..a.len() {
        let r = cx.guard("c21-panic", &format!("pkcs1 cut to {k}: {}", hexs(&a[..k])), || PublicKey::try_from_pkcs1(&a[..k]).is_err());
        cx.check(r != Some(false), "c21-malformed", || format!("a key cut to {k} bytes was accepted: {desc}"));
    }
    for k in 0..b.len() {
        let r = cx.guard("c21-panic", &format!("pkcs8 cut to {k}: {}", hexs(&b[..k])), || PublicKey::try_from_pkcs8(&b[..k]).is_err());
        cx.check(r != Some(false), "c21-malformed", || format!("a key cut to {k} bytes was accepted: {desc}"));
    }
}
/// An independent strict reader: what the code may accept at most, where lengths are well-formed.
fn oracle(mut d: &[u8]) -> Option<(BigUint, BigUint)> {
    fn item<'a>(d: &mut &'a [u8], tag: u8) -> Option<&'a [u8]> {
        if *d.first()? != tag { return None; }
        let l = *d.get(1)?;
        let (at, n) = if l & 0x80 == 0 { (2, l as usize) } else {
            let k = (l & 0x7f) as usize;
            if k > 8 || d.len() < 2 + k { return None; }
            (2 + k, d[2..2 + k].iter().fold(0usize, |a, b| a << 8 | *b as usize))
        };
        if d.len() - at < n { return None; }
        let x = &d[at..at + n];
        *d = &d[at + n..];
        Some(x)
    }
    let mut s = item(&mut d, 0x30)?;
    Some((BigUint::from_bytes_be(item(&mut s, 2)?), BigUint::from_bytes_be(item(&mut s, 2)?)))
}
fn mangled(cx: &mut Ctx, d: &[u8]) {
    cx.case(&format!("der {}", hexs(d)), true);
    let want = oracle(d);
    if let Some(r) = cx.guard("c21-panic", &hexs(d), || PublicKey::try_from_pkcs1(d).ok()) {
        let ok = match (&want, &r) { (Some((n, e)), Some(k)) => same(k, n, e), (None, None) => true, _ => false };
        cx.check(ok, "c21-key", || format!("{} read as {r:?}", hexs(d)));
    }
    cx.guard("c21-panic", &hexs(d), || PublicKey::try_from_pkcs8(d).is_ok());
    cx.guard("c21-panic", &hexs(d), || PublicKey::try_from_pem(d).is_ok());
}
pub fn main(cx: &mut Ctx) {
    cx.rule("every message length that fits and the ones just over for eight keys of odd and even sizes, decrypted with the private key; paddings for all key lengths up to 300; keys of all sizes written as PKCS#1, PKCS#8 and PEM, cut, damaged and with long lengths");
    let ks = keys();
    #[cfg(vx_hooks)]
    {
        let mut seeds = Vec::new();
        for n in 0..300usize {
            for l in [0usize, 1, 2, 19, 20, 21, n.saturating_sub(43), n.saturating_sub(42), n.saturating_sub(41), n.saturating_sub(1), n] { let m = cx.rng.bytes(l); pad(cx, &m, n, &mut seeds); }
        }
        for (l, n) in [(0usize, 4096usize), (100, 20 * 257 + 21), (1, 20 * 300 + 20)] { let m = cx.rng.bytes(l); pad(cx, &m, n, &mut seeds); }
        for m in [vec![], vec![0], vec![0, 0, 1], vec![1], vec![1, 0], vec![0xff; 30], vec![0; 30]] { pad(cx, &m, 128, &mut seeds); pad(cx, &m, 42 + m.len(), &mut seeds); }
        seeds.sort();
        let all = seeds.len();
        seeds.dedup();
        cx.check(seeds.len() == all, "c21-seed", || format!("only {} of {all} seeds are different", seeds.len()));
        for k in &ks {
            for l in 0..=(k.octets().saturating_sub(42) + 2) { if k.octets() > 200 && l % 7 != 0 && !cx.thorough { continue; } let m = cx.rng.bytes(l); encrypt(cx, k, &m); }
            for _ in 0..cx.n(if k.octets() < 100 { 700 } else { 30 }, 3000) { encrypt(cx, k, b"x"); if !cx.time_left() { break; } }
        }
    }
    for k in &ks { read(cx, &k.n, &k.e); }
    for bits in (1..2100usize).step_by(if cx.thorough { 3 } else { 61 }) {
        let mut b = cx.rng.bytes(bits / 8 + 1);
        let top = bits % 8;
        b[0] = (b[0] & ((1u16 << top) - 1) as u8) | if top > 0 { 1 << (top - 1) } else { 0 };
        let n = BigUint::from_bytes_be(&b);
        let e = BigUint::from(cx.rng.next() >> cx.rng.usize(63));
        read(cx, &n, &e);
        if !cx.time_left() { break; }
    }
    // long forms of lengths
    for k in 0..10usize {
        for n in [0usize, 1, 5, 127, 128, 200] {
            let mut int = vec![2];
            int.extend(der_len(n, k));
            int.extend(vec![0x55; n]);
            let body = [int.clone(), int].concat();
            let mut d = vec![0x30];
            d.extend(der_len(body.len(), k / 2));
            d.extend(body);
            mangled(cx, &d);
        }
    }
    for d in [vec![], vec![0x30], vec![0x30, 0x80], vec![0x30, 0xff], vec![0x30, 0x89], vec![0x30, 0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], vec![0x30, 4, 2, 0, 2, 0], vec![0x30, 2, 2, 0x80]] { mangled(cx, &d); }
    let base = pkcs1(&ks[5].n, &ks[5].e);
    let base8 = pkcs8(&ks[5].n, &ks[5].e);
    for i in 0..cx.n(20_000, 400_000) {
        let mut d = if i % 2 == 0 { base.clone() } else { base8.clone() };
        for _ in 0..1 + cx.rng.usize(3) {
            let at = if cx.rng.usize(2) == 0 { cx.rng.usize(8.min(d.len())) } else { cx.rng.usize(d.len()) };
            match cx.rng.usize(3) { 0 => d[at] = *cx.rng.pick(&[0, 1, 2, 3, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x88, 0x89, 0xff]), 1 => { d.truncate(at.max(1)); } _ => d[at] = cx.rng.next() as u8 }
        }
        mangled(cx, &d);
        if !cx.time_left() { break; }
    }
    for t in ["-----BEGIN PUBLIC KEY-----", "-----BEGIN PUBLIC KEY----------END PUBLIC KEY-----", "-----BEGIN PUBLIC KEY-----END PUBLIC KEY-----", "-----BEGIN RSA PUBLIC KEY-----END RSA PUBLIC KEY-----", "-----BEGIN RSA PUBLIC KEY----------END PUBLIC KEY-----", "-----END PUBLIC KEY-----", "-----BEGIN PUBLIC KEY-----AAAA-----END PUBLIC KEY-----", "-----BEGIN PUBLIC KEY-----AAA-----END PUBLIC KEY-----", "-----BEGIN PUBLIC KEY-----ä-----END PUBLIC KEY-----"] {
        for k in 0..=t.len() {
            if let Some(ok) = cx.guard("c21-panic", t, || PublicKey::try_from_pem(&t.as_bytes()[..k]).is_ok()) { cx.check(!ok, "c21-malformed", || format!("accepted: {:?}", &t[..k])); }
        }
    }
}
