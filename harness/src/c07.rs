//! Text rows.
use {
    crate::{mock::*, rt::*, vals::*},
    mysql_connector::{error::Error, types::Value},
};

const STRINGS: [u8; 14] = [0, 15, 16, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255];
const REFUSED: [u8; 7] = [6, 14, 17, 18, 19, 20, 243];

fn digits(s: &str) -> bool { !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) }

fn range(ty: u8, unsigned: bool) -> (i128, i128) {
    let bits = match ty { 1 => 8, 2 | 13 => 16, 3 | 9 => 32, _ => 64 };
    if unsigned { (0, (1i128 << bits) - 1) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) }
}

fn int_value(ty: u8, unsigned: bool, n: i128) -> Value {
    match (ty, unsigned) {
        (1, false) => Value::Tiny(n as i8),
        (1, true) => Value::UTiny(n as u8),
        (2 | 13, false) => Value::Short(n as i16),
        (2 | 13, true) => Value::UShort(n as u16),
        (3 | 9, false) => Value::Int(n as i32),
        (3 | 9, true) => Value::UInt(n as u32),
        (_, false) => Value::Long(n as i64),
        (_, true) => Value::ULong(n as u64),
    }
}

/// The number that a digit string of any length denotes, up to a bound nothing reaches.
fn number(s: &str) -> i128 {
    s.bytes().fold(0i128, |n, b| (n * 10 + (b - b'0') as i128).min(1 << 100))
}

fn read_date(s: &str) -> Option<(u16, u8, u8)> {
    let p: Vec<&str> = s.split('-').collect();
    if p.len() != 3 || p[0].len() != 4 || p[1].len() != 2 || p[2].len() != 2 || !p.iter().all(|x| digits(x)) { return None; }
    Some((p[0].parse().ok()?, p[1].parse().ok()?, p[2].parse().ok()?))
}

/// Hours, minutes, seconds, microseconds.
fn read_time(s: &str) -> Option<(i128, u8, u8, u32)> {
    let (whole, frac) = match s.split_once('.') { Some((a, b)) => (a, Some(b)), None => (s, None) };
    let p: Vec<&str> = whole.split(':').collect();
    if p.len() != 3 || p[1].len() != 2 || p[2].len() != 2 || !p.iter().all(|x| digits(x)) { return None; }
    let micro = match frac {
        None => 0,
        Some(f) if digits(f) && f.len() <= 6 => format!("{f:0<6}").parse().ok()?,
        Some(_) => return None,
    };
    Some((number(p[0]), p[1].parse().ok()?, p[2].parse().ok()?, micro))
}

/// What the text denotes, if anything, and whether a server could have sent it.
fn denotes(ty: u8, unsigned: bool, s: &[u8]) -> Option<(Value, bool)> {
    if STRINGS.contains(&ty) { return Some((Value::Bytes(s.to_vec()), true)); }
    let t = std::str::from_utf8(s).ok()?;
    match ty {
        1 | 2 | 3 | 8 | 9 | 13 => {
            let (neg, d) = match t.as_bytes().first() { Some(b'-') => (true, &t[1..]), Some(b'+') => (false, &t[1..]), _ => (false, t) };
            if !digits(d) { return None; }
            let n = if neg { -number(d) } else { number(d) };
            let (lo, hi) = range(ty, unsigned);
            if n < lo || n > hi { return None; }
            Some((int_value(ty, unsigned, n), t == n.to_string()))
        }
        4 => t.parse::<f32>().ok().map(|x| (Value::Float(x), true)),
        5 => t.parse::<f64>().ok().map(|x| (Value::Double(x), true)),
        10 => read_date(t).map(|(y, m, d)| (Value::Date(y, m, d), m <= 12 && d <= 31)),
        7 | 12 => {
            let (d, h) = t.split_once(' ')?;
            let (y, m, d) = read_date(d)?;
            let two = h.find(':') == Some(2);
            let (h, i, x, u) = read_time(h)?;
            if h > 23 { return None; }
            Some((Value::Datetime(y, m, d, h as u8, i, x, u), two && m <= 12 && d <= 31 && i < 60 && x < 60))
        }
        11 => {
            let (neg, r) = match t.strip_prefix('-') { Some(r) => (true, r), None => (false, t) };
            let (h, i, x, u) = read_time(r)?;
            if h > u32::MAX as i128 { return None; }
            Some((Value::Time(neg, (h / 24) as u32, (h % 24) as u8, i, x, u), i < 60 && x < 60))
        }
        _ => None,
    }
}

fn micros(rng: &mut Rng, out: &mut String) {
    if rng.bool() {
        let n = 1 + rng.usize(6);
        let top = 10u64.pow(n as u32);
        let v = match rng.below(4) { 0 => 0, 1 => 1, 2 => top - 1, _ => rng.below(top) };
        out.push_str(&format!(".{v:0n$}"));
    }
}

/// A text a server writes for the type.
fn text(rng: &mut Rng, ty: u8, unsigned: bool) -> Vec<u8> {
    match ty {
        1 | 2 | 3 | 8 | 9 | 13 => {
            let (lo, hi) = range(ty, unsigned);
            let n = match rng.below(6) { 0 => lo, 1 => hi, 2 => lo + 1, 3 => 0, _ => lo + (rng.edgy_u64() as i128).rem_euclid(hi - lo + 1) };
            n.to_string().into_bytes()
        }
        4 => {
            let x = f32::from_bits(rng.next() as u32 & 0xff7f_ffff);
            (match rng.below(3) { 0 => format!("{x}"), 1 => format!("{x:e}"), _ => format!("{:.3}", (rng.edgy_u64() as f32) / 7.0) }).into_bytes()
        }
        5 => {
            let x = f64::from_bits(rng.next() & 0xffef_ffff_ffff_ffff);
            (match rng.below(3) { 0 => format!("{x}"), 1 => format!("{x:e}"), _ => format!("{:.3}", (rng.edgy_u64() as f64) / 7.0) }).into_bytes()
        }
        10 => format!("{:04}-{:02}-{:02}", rng.below(10000), rng.below(13), rng.below(32)).into_bytes(),
        7 | 12 => {
            let mut s = format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}", rng.below(10000), rng.below(13), rng.below(32), rng.below(24), rng.below(60), rng.below(60));
            micros(rng, &mut s);
            s.into_bytes()
        }
        11 => {
            let h = match rng.below(5) { 0 => rng.below(24), 1 => rng.below(839), 2 => rng.edgy_u64() as u32 as u64, 3 => *rng.pick(&[0, 23, 24, 25, 99, 100, 838, u32::MAX as u64]), _ => rng.below(10000) };
            let mut s = format!("{}{h:02}:{:02}:{:02}", if rng.chance(3) { "-" } else { "" }, rng.below(60), rng.below(60));
            micros(rng, &mut s);
            s.into_bytes()
        }
        _ => blob(rng, true),
    }
}

fn spoil(rng: &mut Rng, s: &mut Vec<u8>) {
    const ODD: &[u8] = b"0123456789:-. +eaE/\0\xff\x2f\x3a;,";
    for _ in 0..1 + rng.below(2) {
        let n = s.len();
        match rng.below(6) {
            0 if n > 0 => { s.remove(rng.usize(n)); }
            1 => { let i = rng.usize(n + 1); s.insert(i, *rng.pick(ODD)); }
            2 if n > 0 => { let i = rng.usize(n); s[i] = *rng.pick(ODD); }
            3 => s.truncate(rng.usize(n + 1)),
            4 if n > 1 => { let (i, j) = (rng.usize(n), rng.usize(n)); s.swap(i, j); }
            _ => { let i = rng.usize(n + 1); s.insert(i, b'0' + rng.below(10) as u8); }
        }
    }
}

type Cell = Option<Vec<u8>>;

fn row_bytes(row: &[Cell]) -> Vec<u8> {
    let mut b = Vec::new();
    for c in row {
        match c { None => b.push(0xfb), Some(s) => b.extend(lenenc_str(s)) }
    }
    b
}

enum Got { Rows(Vec<Vec<Value>>), Err(String) }

fn fetch(cx: &mut Ctx, cols: &[Col], rows: &[Vec<u8>], desc: &str) -> Option<Got> {
    let h = handle();
    let (c2, r2) = (cols.to_vec(), rows.to_vec());
    let r = quiet(|| run(async {
        let mut c = connected(&h, move |w, p| {
            if p != b"\x03select text" { w.send(&err_packet(1, b"HY000", "other command")); return; }
            send_columns(w, &c2);
            for r in &r2 { w.send(r); }
            w.send(&eof_packet(2, 0));
        }).await;
        let mut q = c.query::<Vec<Value>>("select text").await?;
        q.collect().await
    }));
    match r {
        Err(m) => { cx.fail("c07-panic", format!("{desc}: panic {m}")); None }
        Ok(Ok(r)) => Some(Got::Rows(r)),
        Ok(Err(e)) => Some(Got::Err(match e { Error::Protocol(e) => short(&format!("{e:?}")), e => format!("other {e:?}") })),
    }
}

fn show(rows: &[Vec<Cell>]) -> String {
    short(&format!("{:?}", rows.iter().map(|r| r.iter().map(|c| c.as_ref().map(|s| String::from_utf8_lossy(s).into_owned())).collect::<Vec<_>>()).collect::<Vec<_>>()))
}

/// Rows whose every text is one a server writes.
fn case(cx: &mut Ctx, types: &[(u8, u16)], rows: Vec<Vec<Cell>>, cuts: usize) {
    let desc = format!("columns {types:?}, texts {}", show(&rows));
    cx.case(&desc, !types.is_empty());
    let cols: Vec<Col> = types.iter().enumerate().map(|(i, (t, f))| Col::new(&format!("c{i}"), *t, *f)).collect();
    let bytes: Vec<Vec<u8>> = rows.iter().map(|r| row_bytes(r)).collect();
    let want: Vec<Vec<Value>> = rows.iter().map(|r| r.iter().zip(types).map(|(c, (t, f))| match c {
        None => Value::Null,
        Some(s) => denotes(*t, f & 32 != 0, s).expect("text").0,
    }).collect()).collect();
    match fetch(cx, &cols, &bytes, &desc) {
        None => {}
        Some(Got::Err(e)) => cx.fail("c07-refused", format!("{desc}: {e}")),
        Some(Got::Rows(got)) => {
            let ok = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| all_same(a, b));
            cx.check(ok, "c07-value", || {
                let i = (0..got.len().min(want.len())).find(|i| !all_same(&got[*i], &want[*i])).unwrap_or(0);
                format!("{desc} row {i} read as {:?}, sent {:?}", got.get(i), want.get(i))
            });
        }
    }
    if let Some(full) = bytes.first() {
        for _ in 0..cuts {
            // an empty packet is no row at all
            let n = cx.rng.usize(full.len());
            if n == 0 || n >= full.len() { continue; }
            let d = format!("columns {types:?}, row {} cut to {n} bytes", hexs(full));
            if let Some(Got::Rows(r)) = fetch(cx, &cols, &[full[..n].to_vec()], &d) {
                cx.fail("c07-short", format!("{d}: read as {r:?}"));
            }
        }
    }
}

/// Any text at all: what it denotes, or an error.
fn odd(cx: &mut Ctx, ty: u8, flags: u16, s: Vec<u8>) {
    let desc = format!("column type {ty} flags {flags}, text {:?}", String::from_utf8_lossy(&s));
    cx.case(&desc, true);
    let want = denotes(ty, flags & 32 != 0, &s);
    let cols = [Col::new("c", ty, flags), Col::new("d", 253, 0)];
    let row = row_bytes(&[Some(s), Some(b"end".to_vec())]);
    match (fetch(cx, &cols, &[row], &desc), want) {
        (None, _) | (Some(Got::Err(_)), None) | (Some(Got::Err(_)), Some((_, false))) => {}
        (Some(Got::Err(e)), Some((v, true))) => cx.fail("c07-refused", format!("{desc}: {e}, denotes {v:?}")),
        (Some(Got::Rows(r)), None) => cx.fail("c07-invented", format!("{desc}: read as {r:?}")),
        (Some(Got::Rows(r)), Some((v, _))) => {
            let ok = r.len() == 1 && all_same(&r[0], &[v.clone(), Value::Bytes(b"end".to_vec())]);
            cx.check(ok, "c07-value", || format!("{desc}: read as {r:?}, denotes {v:?}"));
        }
    }
}

pub fn main(cx: &mut Ctx) {
    cx.rule("An independent reader of MySQL's text forms (strings cut by split, 128-bit integers) says for every text, well-formed or spoilt, what value of the column's type it denotes; rows of every type and signedness with NULLs anywhere are sent through the whole client and compared value by value; rows cut anywhere must be errors. Non-trivial: at least one column.");
    let all: Vec<u8> = STRINGS.iter().chain(&[1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13]).copied().collect();
    for &t in &all {
        for f in [0u16, 32, 33, 0x7fdf, 0xffff] {
            for _ in 0..cx.n(3, 30) {
                let un = f & 32 != 0;
                let rows = (0..4).map(|_| vec![Some(text(&mut cx.rng, t, un)), Some(b"end".to_vec())]).collect();
                case(cx, &[(t, f), (253, 0)], rows, 1);
            }
            case(cx, &[(t, f), (253, 0)], vec![vec![None, Some(b"end".to_vec())]], 1);
        }
    }
    for t in REFUSED {
        let d = format!("column type {t}");
        cx.case(&d, true);
        let cols = [Col::new("c", t, 0), Col::new("d", 253, 0)];
        if let Some(Got::Rows(r)) = fetch(cx, &cols, &[b"\x011\x011".to_vec()], &d) { cx.fail("c07-type", format!("{d} read as {r:?}")); }
    }
    // the edges of every integer type
    for t in [1u8, 2, 3, 8, 9, 13] {
        for un in [false, true] {
            let (lo, hi) = range(t, un);
            for n in [lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, hi * 10, hi + 10, 0, 1, -1, 9, 10, lo - 10, 2 * hi + 2, 2 * hi + 1] {
                odd(cx, t, if un { 32 } else { 0 }, n.to_string().into_bytes());
            }
            for s in ["", "+", "-", "+0", "-0", "007", "+7", " 7", "7 ", "7\0", "0x7", "7.0", "1e1", "--7", "٣", "1_0", "000000000000000000000000000000000000000000012"] {
                odd(cx, t, if un { 32 } else { 0 }, s.as_bytes().to_vec());
            }
        }
    }
    // times
    for s in ["", ":", "::", "0:0:0", "00:00:00", "0:00:00", "000:00:00", "00:00:00.", "00:00:00.0", "00:00:00.1", "00:00:00.000001", "00:00:00.100000", "00:00:00.0000001", "00:00:00.999999",
        "00:00:00.1234567", "00:00:00,5", "00:00:005", "-00:00:00.000001", "-00:00:00", "--00:00:00", "+00:00:00", "838:59:59.000000", "-838:59:59", "23:59:59", "24:00:00", "4294967295:00:00", "4294967296:00:00",
        "4294967319:59:59", "99999999999999999999:00:00", ":00:00", "00:60:00", "00:00:60", "00:99:99", "0a:00:00", "00:0a:00", "00:00:0a", "00:00:00.a", "00:00:00.+1", "00:+1:00", "00:00:+1", "+1:00:00", "00:-1:00",
        "-", "-:00:00", "00.00.00", "00:00-00", "00-00:00", " 00:00:00", "00:00:00 ", "00:00:00.5 ", "00:00", "00:00:0", "00:00:00:00"] {
        odd(cx, 11, 0, s.as_bytes().to_vec());
        for pre in ["2024-02-29 ", "2024-02-29T", "0000-00-00 "] { odd(cx, 12, 0, format!("{pre}{s}").into_bytes()); }
        odd(cx, 7, 0, format!("1999-12-31 {s}").into_bytes());
    }
    for s in ["", "-", "--", "0000-00-00", "9999-12-31", "10000-01-01", "999-01-01", "2024-2-29", "2024-02-9", "2024/02/29", "2024-02/29", "2024-02-29 ", "2024-13-01", "2024-01-32", "2024-99-99", "+024-01-01", "2024-+1-01", "2024-01-+1",
        "-024-01-01", "2024-01-01-", "2o24-01-01", "2024-o1-01", "2024-01-o1", "２024-01-1"] {
        odd(cx, 10, 0, s.as_bytes().to_vec());
        odd(cx, 12, 0, format!("{s} 01:02:03").into_bytes());
    }
    for s in ["", "1", "-0", "-0.0", "1e5", "1E-5", "+1", ".5", "5.", ".", "e", "1e", "1.5x", " 1", "3.4028235e38", "1e39", "-1e-50", "1,5", "0.1", "123456789012345678901234567890", "\u{ff11}", "1\0"] {
        odd(cx, 4, 0, s.as_bytes().to_vec());
        odd(cx, 5, 0, s.as_bytes().to_vec());
    }
    for t in [4u8, 5] { odd(cx, t, 0, vec![b'1', 0xff]); }
    // lengths around the borders of the length encoding
    for n in [0usize, 1, 249, 250, 251, 252, 253, 255, 256, 300, 65534, 65535, 65536, 70000] {
        let row = vec![Some(cx.rng.bytes(n)), None, Some(vec![0xfb]), Some(b"end".to_vec())];
        case(cx, &[(252, 128), (3, 0), (253, 0), (254, 0)], vec![row], 2);
    }
    // NULL patterns
    for n in 1..=9usize {
        let rows = (0..1usize << n).map(|m| (0..n).map(|i| if m >> i & 1 == 1 { None } else { Some((i + 1).to_string().into_bytes()) }).collect()).collect();
        case(cx, &vec![(1, 32); n], rows, 2);
    }
    for _ in 0..cx.n(2500, 60000) {
        let t = *cx.rng.pick(&all[STRINGS.len()..]);
        let f = cx.rng.next() as u16;
        let mut s = text(&mut cx.rng, t, f & 32 != 0);
        spoil(&mut cx.rng, &mut s);
        odd(cx, t, f, s);
        if !cx.time_left() { break; }
    }
    for _ in 0..cx.n(1500, 40000) {
        let n = 1 + if cx.rng.chance(15) { cx.rng.usize(300) } else { cx.rng.usize(12) };
        let types: Vec<(u8, u16)> = (0..n).map(|_| (*cx.rng.pick(&all), cx.rng.next() as u16)).collect();
        let k = 1 + cx.rng.usize(4);
        let nulls = 1 + cx.rng.below(4);
        let rows = (0..k).map(|_| types.iter().map(|(t, f)| if cx.rng.chance(nulls + 1) { None } else { Some(text(&mut cx.rng, *t, f & 32 != 0)) }).collect()).collect();
        case(cx, &types, rows, 1);
        if !cx.time_left() { break; }
    }
}
