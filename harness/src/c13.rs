//! String literals, read back by MySQL's rules.
use crate::rt::*;
use mysql_connector::types::StringEscape;

/// The string a text denotes if it is exactly one literal in double quotes.
pub fn read_literal(t: &[char]) -> Result<String, String> {
    if t.first() != Some(&'"') { return Err("does not start with a quote".into()); }
    let mut out = String::new();
    let mut i = 1;
    loop {
        match t.get(i) {
            None => return Err("the literal is not closed".into()),
            Some('"') if t.get(i + 1) == Some(&'"') => { out.push('"'); i += 2; }
            Some('"') => {
                if i + 1 != t.len() { return Err(format!("the literal ends {} characters early", t.len() - i - 1)); }
                return Ok(out);
            }
            Some('\\') => {
                match t.get(i + 1) {
                    None => return Err("ends in a backslash".into()),
                    Some('0') => out.push('\0'),
                    Some('b') => out.push('\u{8}'),
                    Some('n') => out.push('\n'),
                    Some('r') => out.push('\r'),
                    Some('t') => out.push('\t'),
                    Some('Z') => out.push('\u{1a}'),
                    Some(x @ ('%' | '_')) => { out.push('\\'); out.push(*x); }
                    Some(x) => out.push(*x),
                }
                i += 2;
            }
            Some(x) => { out.push(*x); i += 1; }
        }
    }
}

fn one(cx: &mut Ctx, s: &str) {
    cx.case(s, s.chars().any(|c| !c.is_alphanumeric()));
    let Some(t) = cx.guard("c13-panic", &format!("{s:?}"), || StringEscape(s).to_string()) else { return };
    let c: Vec<char> = t.chars().collect();
    match read_literal(&c) {
        Err(e) => cx.fail("c13-break-out", format!("{s:?} is written as {t}: {e}")),
        Ok(x) if x == s => {}
        Ok(x) if x == s.replace('\u{1a}', "z") => cx.fail("c13-sub", format!("{s:?} is written as {t}, which denotes {x:?}")),
        Ok(x) => cx.fail("c13-denotes", format!("{s:?} is written as {t}, which denotes {x:?}")),
    }
}

struct Full(usize, String);
impl std::fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            if self.0 == 0 { return Err(std::fmt::Error); }
            self.0 -= 1;
            self.1.push(c);
        }
        Ok(())
    }
}

pub fn main(cx: &mut Ctx) {
    cx.rule("every single character; every pair and triple of the characters that mean something in a literal; random strings");
    one(cx, "");
    for c in '\0'..=char::MAX {
        if c as u32 >= 0x3000 && !cx.thorough && c as u32 % 61 != 0 && (c as u32) < 0x10_ff00 { continue; }
        one(cx, &c.to_string());
        if (c as u32) < 0x800 || c as u32 % 251 == 0 { one(cx, &format!("a{c}\"{c}\\{c}")); }
    }
    let hot = ['"', '\\', '\'', '\0', '\n', '\r', '\t', '\u{8}', '\u{1a}', 'z', 'Z', 'n', '0', '%', '_', '`', 'a', 'ä', '\u{2028}', '\u{1F600}', 'b', 't', 'r', ' ', '\u{ff02}', '\u{7f}'];
    for a in hot { for b in hot {
        one(cx, &format!("{a}{b}"));
        for c in hot { one(cx, &format!("{a}{b}{c}")); }
    } }
    for _ in 0..cx.n(60_000, 1_500_000) {
        let s = cx.rng.string(24);
        one(cx, &s);
        if !cx.time_left() { break; }
    }
    // a refused write is reported
    use std::fmt::Write;
    for s in ["a\"b", "\\", "", "\n\0x"] {
        let full = StringEscape(s).to_string();
        for k in 0..full.chars().count() {
            let mut w = Full(k, String::new());
            let r = write!(w, "{}", StringEscape(s));
            cx.case(&format!("refuse {k} {s:?}"), true);
            cx.check(r.is_err() && full.starts_with(&w.1), "c13-refused", || format!("{s:?} into room for {k} characters: {r:?}, {:?}", w.1));
        }
    }
}
