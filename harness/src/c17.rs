//! Hex text.
use crate::rt::*;
use mysql_connector::types::{Hex, Value};
use std::{convert::TryInto, str::FromStr};

fn digit(b: u8) -> Option<u8> {
    Some(match b { b'0'..=b'9' => b - b'0', b'a'..=b'f' => b - b'a' + 10, b'A'..=b'F' => b - b'A' + 10, _ => return None })
}
fn denotes(t: &[u8]) -> Option<Vec<u8>> {
    let t = if t.starts_with(b"0x") || t.starts_with(b"0X") { &t[2..] } else { t };
    if t.len() % 2 != 0 { return None; }
    t.chunks(2).map(|p| Some(digit(p[0])? * 16 + digit(p[1])?)).collect()
}
fn read(cx: &mut Ctx, t: &str) {
    let want = denotes(t.as_bytes());
    cx.case(&format!("text {t}"), want.is_none() || t.len() > 2);
    if let Some(g) = cx.guard("c17-panic", &format!("reading {t:?}"), || Hex::from_str(t).ok().map(Hex::into_bytes)) {
        cx.check(g == want, "c17-from-str", || format!("{t:?} read as {g:?} instead of {want:?}"));
    }
    bytes(cx, t.as_bytes());
}
fn bytes(cx: &mut Ctx, t: &[u8]) {
    let want = denotes(t);
    if let Some(g) = cx.guard("c17-panic", &format!("reading {t:?}"), || Hex::try_from_hex(t).ok().map(Hex::into_bytes)) {
        cx.check(g == want, "c17-from-bytes", || format!("{t:?} read as {g:?} instead of {want:?}"));
    }
}
fn write(cx: &mut Ctx, b: &[u8]) {
    cx.case(&format!("bytes {}", hexs(b)), !b.is_empty());
    let want: String = "0x".chars().chain(b.iter().flat_map(|x| [x >> 4, x & 15]).map(|d| char::from(b"0123456789abcdef"[d as usize]))).collect();
    let Some(t) = cx.guard("c17-panic", &format!("printing {b:?}"), || Hex::new(b.to_vec()).to_string()) else { return };
    cx.check(t == want, "c17-print", || format!("{} printed as {t}", hexs(b)));
    for x in [want.clone(), want[2..].to_owned(), want.replacen("0x", "0X", 1), want.to_uppercase(), want[2..].to_uppercase(), format!("0x{}", want[2..].to_uppercase())] { read(cx, &x); }
    let v: Value = Hex::new(b.to_vec()).into();
    cx.check(v == Value::Bytes(b.to_vec()), "c17-value", || format!("{} as a value: {v:?}", hexs(b)));
    let back: Result<Hex, _> = v.try_into();
    cx.check(back.as_ref().is_ok_and(|h| h.0 == b), "c17-value", || format!("{} back from a value: {back:?}", hexs(b)));
    cx.check(Vec::<u8>::from(Hex::new(b.to_vec())) == b && *Hex::new(b.to_vec()) == b, "c17-value", || format!("{} as bytes", hexs(b)));
}

pub fn main(cx: &mut Ctx) {
    cx.rule("every string of up to two bytes printed and read; every text of up to two characters of the alphabet that matters after every prefix; random bytes and texts");
    write(cx, &[]);
    for a in 0..=255u8 { write(cx, &[a]); write(cx, &[0, a]); write(cx, &[a, 0x0f, a]); }
    for n in [15usize, 16, 255, 256, 1000, 70_000] { let b = cx.rng.bytes(n); write(cx, &b); }
    let hot: Vec<char> = "0123456789abcdefABCDEFgGxX-+ \0`@/:äö\u{fffd}\u{1F600}".chars().collect();
    for p in ["", "0x", "0X", "0", "x", "00", "ä", "0x0x"] {
        read(cx, p);
        for a in &hot {
            read(cx, &format!("{p}{a}"));
            for b in &hot { read(cx, &format!("{p}{a}{b}")); read(cx, &format!("{p}{a}{b}0")); read(cx, &format!("{p}0{a}{b}f")); }
        }
    }
    for n in 0..=3usize {
        for _ in 0..3000 { let b = cx.rng.bytes(n); bytes(cx, &b); }
    }
    for _ in 0..cx.n(20_000, 400_000) {
        let n = cx.rng.usize(40);
        let b = cx.rng.bytes(n);
        write(cx, &b);
        let k = cx.rng.usize(9);
        let t: String = (0..k).map(|_| *cx.rng.pick(&hot)).collect();
        read(cx, &t);
        if !cx.time_left() { break; }
    }
    for v in [Value::Null, Value::Int(3), Value::Date(1, 1, 1), Value::Double(0.5)] {
        let r: Result<Hex, _> = v.clone().try_into();
        cx.check(r.is_err(), "c17-value", || format!("{v:?} as hex: {r:?}"));
        let r: Result<Option<Hex>, _> = v.clone().try_into();
        cx.check(matches!(r, Ok(None)) == (v == Value::Null) && !matches!(r, Ok(Some(_))), "c17-value", || format!("{v:?} as optional hex: {r:?}"));
    }
}
