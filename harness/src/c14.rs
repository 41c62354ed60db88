//! Identifiers.
use crate::rt::*;
use mysql_connector::types::{IdentifierEscape, UnquotedIdentifierEscape};

fn read_identifier(t: &[char]) -> Result<String, String> {
    if t.first() != Some(&'`') { return Err("does not start with a backtick".into()); }
    let mut out = String::new();
    let mut i = 1;
    loop {
        match t.get(i) {
            None => return Err("the identifier is not closed".into()),
            Some('`') if t.get(i + 1) == Some(&'`') => { out.push('`'); i += 2; }
            Some('`') => {
                if i + 1 != t.len() { return Err(format!("the identifier ends {} characters early", t.len() - i - 1)); }
                return Ok(out);
            }
            Some(x) => { out.push(*x); i += 1; }
        }
    }
}

fn one(cx: &mut Ctx, s: &str) {
    cx.case(s, s.chars().any(|c| !c.is_ascii_alphanumeric()));
    if let Some(t) = cx.guard("c14-panic", &format!("{s:?}"), || IdentifierEscape(s).to_string()) {
        let c: Vec<char> = t.chars().collect();
        let permitted: String = s.chars().filter(|c| (1..=0xffff).contains(&(*c as u32))).collect();
        let want = permitted.trim_end_matches(char::is_whitespace);
        match read_identifier(&c) {
            Err(e) => cx.fail("c14-break-out", format!("{s:?} is written as {t}: {e}")),
            Ok(x) => { cx.check(x == want, "c14-content", || format!("{s:?} is written as {t}, which names {x:?} instead of {want:?}")); }
        }
    }
    if let Some(t) = cx.guard("c14-panic", &format!("{s:?}"), || UnquotedIdentifierEscape(s).to_string()) {
        let want: String = s.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '$' || *c == '_' || (0x80..=0xffff).contains(&(*c as u32))).collect();
        cx.check(t == want, "c14-unquoted", || format!("{s:?} unquoted is {t:?} instead of {want:?}"));
    }
}

pub fn main(cx: &mut Ctx) {
    cx.rule("every single character, alone, before and after a letter; every sequence of up to three characters that matter; random strings");
    one(cx, "");
    for c in '\0'..=char::MAX {
        if c as u32 >= 0x3100 && !cx.thorough && c as u32 % 61 != 0 && !(0xfff0..0x10010).contains(&(c as u32)) && (c as u32) < 0x10_ff00 { continue; }
        one(cx, &c.to_string());
        if (c as u32) < 0x3100 || c as u32 % 251 == 0 {
            one(cx, &format!("a{c}"));
            one(cx, &format!("{c}a"));
            one(cx, &format!("`{c} {c}"));
        }
    }
    let hot = ['`', ' ', '\0', 'a', '\u{3000}', '\u{10000}', 'ä', '"', '.', '\t', '\u{ffff}', '\u{1F600}', '\u{a0}', '$', '_', '-', '\\', '\u{85}', '\u{200b}'];
    for a in hot { for b in hot {
        one(cx, &format!("{a}{b}"));
        for c in hot {
            one(cx, &format!("{a}{b}{c}"));
            for d in ['`', ' ', 'x', '\u{10000}'] { one(cx, &format!("{a}{b}{c}{d}")); }
        }
    } }
    for _ in 0..cx.n(60_000, 1_500_000) {
        let s = cx.rng.string(20);
        one(cx, &s);
        if !cx.time_left() { break; }
    }
}
