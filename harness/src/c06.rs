//! Binary rows.
use {
    crate::{mock::*, rt::*, vals::*},
    mysql_connector::{error::Error, types::Value},
};

const STRINGS: [u8; 14] = [0, 15, 16, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255];
const REFUSED: [u8; 6] = [14, 17, 18, 19, 20, 243];

fn field(rng: &mut Rng, ty: u8, unsigned: bool) -> Value {
    match (ty, unsigned) {
        (1, false) => Value::Tiny(rng.edgy_u64() as i8),
        (1, true) => Value::UTiny(rng.edgy_u64() as u8),
        (2 | 13, false) => Value::Short(rng.edgy_u64() as i16),
        (2 | 13, true) => Value::UShort(rng.edgy_u64() as u16),
        (3 | 9, false) => Value::Int(rng.edgy_u64() as i32),
        (3 | 9, true) => Value::UInt(rng.edgy_u64() as u32),
        (8, false) => Value::Long(rng.edgy_u64() as i64),
        (8, true) => Value::ULong(rng.edgy_u64()),
        (4, _) => Value::Float(f32::from_bits(rng.next() as u32 & 0xff7f_ffff)),
        (5, _) => Value::Double(f64::from_bits(rng.next() & 0xffef_ffff_ffff_ffff)),
        (6, _) => Value::Null,
        (10, _) => date(rng),
        (7 | 12, _) => datetime(rng),
        (11, _) => canonical(&time(rng)),
        _ => Value::Bytes(blob(rng, true)),
    }
}

fn row_bytes(row: &[Option<Value>]) -> Vec<u8> {
    let mut b = vec![0];
    let mut map = vec![0u8; (row.len() + 9) / 8];
    for (i, v) in row.iter().enumerate() {
        if v.is_none() { map[(i + 2) / 8] |= 1 << ((i + 2) % 8); }
    }
    b.extend(map);
    for v in row.iter().flatten() { b.extend(server_writes(v)); }
    b
}

enum Got { Rows(Vec<Vec<Value>>), Err(String) }

fn fetch(cx: &mut Ctx, cols: &[Col], rows: &[Vec<u8>], desc: &str) -> Option<Got> {
    let h = handle();
    let (c2, r2) = (cols.to_vec(), rows.to_vec());
    let r = quiet(|| run(async {
        let mut c = connected(&h, move |w, p| match p[0] {
            0x16 => prepare_ok(w, 1, 0, 0),
            _ => {
                send_columns(w, &c2);
                for r in &r2 { w.send(r); }
                w.send(&eof_packet(2, 0));
            }
        }).await;
        let mut s = c.prepare_statement("p").await?;
        let mut q = s.query::<Value, Vec<Value>>(&[]).await?;
        q.collect().await
    }));
    match r {
        Err(m) => { cx.fail("c06-panic", format!("{desc}: panic {m}")); None }
        Ok(Ok(r)) => Some(Got::Rows(r)),
        Ok(Err(e)) => Some(Got::Err(match e { Error::Protocol(e) => short(&format!("{e:?}")), e => format!("other {e:?}") })),
    }
}

fn case(cx: &mut Ctx, types: &[(u8, u16)], rows: Vec<Vec<Option<Value>>>, cuts: usize) {
    let desc = format!("columns {types:?}, rows {}", short(&format!("{rows:?}")));
    cx.case(&desc, !types.is_empty());
    let cols: Vec<Col> = types.iter().enumerate().map(|(i, (t, f))| Col::new(&format!("c{i}"), *t, *f)).collect();
    let bytes: Vec<Vec<u8>> = rows.iter().map(|r| row_bytes(r)).collect();
    let want: Vec<Vec<Value>> = rows.iter().map(|r| r.iter().map(|v| v.clone().unwrap_or(Value::Null)).collect()).collect();
    match fetch(cx, &cols, &bytes, &desc) {
        None => {}
        Some(Got::Err(e)) => cx.fail("c06-refused", format!("{desc}: {e}")),
        Some(Got::Rows(got)) => {
            let ok = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| all_same(a, b));
            cx.check(ok, "c06-value", || {
                let i = (0..got.len().min(want.len())).find(|i| !all_same(&got[*i], &want[*i])).unwrap_or(0);
                format!("{} row {i} read as {:?}, sent {:?}", desc, got.get(i), want.get(i))
            });
        }
    }
    // whatever is missing from a row is an error
    if let Some(full) = bytes.first() {
        for _ in 0..cuts {
            let n = 1 + cx.rng.usize(full.len() - 1);
            if n >= full.len() || (types.iter().all(|t| t.0 == 6)) { continue; }
            let d = format!("columns {types:?}, row {} cut to {n} bytes", hexs(full));
            if let Some(Got::Rows(r)) = fetch(cx, &cols, &[full[..n].to_vec()], &d) {
                cx.fail("c06-short", format!("{d}: read as {r:?}"));
            }
        }
    }
}

pub fn main(cx: &mut Ctx) {
    cx.rule("An independent encoder writes binary rows for every column type and signedness, with every pattern of NULLs for few columns and random ones for up to 300; what the client reports is compared value by value, and rows cut anywhere must be errors. Non-trivial: at least one column.");
    let all: Vec<u8> = STRINGS.iter().chain(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]).copied().collect();
    for &t in &all {
        for f in [0u16, 32, 33, 0x7fdf, 0xffff] {
            for _ in 0..cx.n(3, 30) {
                let un = f & 32 != 0;
                let rows = (0..4).map(|_| vec![Some(field(&mut cx.rng, t, un)), Some(Value::Bytes(b"end".to_vec()))]).collect();
                case(cx, &[(t, f), (253, 0)], rows, 1);
            }
            case(cx, &[(t, f), (253, 0)], vec![vec![None, Some(Value::Bytes(b"end".to_vec()))]], 1);
        }
    }
    for t in REFUSED {
        let cols = [Col::new("c", t, 0)];
        let d = format!("column type {t}");
        cx.case(&d, true);
        if let Some(Got::Rows(r)) = fetch(cx, &cols, &[vec![0, 0, 4, 0, 0, 0, 0, 0, 0, 0, 0]], &d) { cx.fail("c06-type", format!("{d} read as {r:?}")); }
    }
    // every combination of zero and non-zero fields
    let mut rows = Vec::new();
    for m in 0..128u32 {
        let b = |k: u32| m >> k & 1;
        let t = Value::Time(b(0) == 1, 34 * b(1), 22 * b(2) as u8, 59 * b(3) as u8, 1 * b(4) as u8, 1 * b(5));
        rows.push(vec![
            Some(Value::Datetime(2024 * b(0) as u16, 2 * b(1) as u8, 29 * b(2) as u8, 23 * b(3) as u8, 59 * b(4) as u8, 58 * b(5) as u8, 999_999 * b(6))),
            Some(canonical(&t)),
            Some(Value::Date(256 * b(0) as u16, b(1) as u8, 255 * b(2) as u8)),
            Some(Value::Bytes(vec![m as u8])),
        ]);
    }
    case(cx, &[(12, 0), (11, 0), (10, 0), (253, 0)], rows, 0);
    // NULL bits: every pattern of up to nine columns, then around the byte borders
    for n in 1..=9usize {
        let rows = (0..1usize << n).map(|m| (0..n).map(|i| if m >> i & 1 == 1 { None } else { Some(Value::UTiny(i as u8 + 1)) }).collect()).collect();
        case(cx, &vec![(1, 32); n], rows, 2);
    }
    for n in [0usize, 5, 6, 7, 13, 14, 15, 21, 22, 23, 30, 62, 250, 251, 252, 300] {
        let mut rows: Vec<Vec<Option<Value>>> = (0..n.min(64)).map(|k| (0..n).map(|i| if i == k { None } else { Some(Value::UShort(i as u16)) }).collect()).collect();
        rows.push((0..n).map(|_| None).collect());
        rows.push((0..n).map(|i| Some(Value::UShort(i as u16))).collect());
        if n > 0 { case(cx, &vec![(2, 32); n], rows, 2); }
    }
    for _ in 0..cx.n(2500, 40000) {
        let n = 1 + if cx.rng.chance(15) { cx.rng.usize(300) } else { cx.rng.usize(12) };
        let types: Vec<(u8, u16)> = (0..n).map(|_| (*cx.rng.pick(&all), cx.rng.next() as u16)).collect();
        let k = 1 + cx.rng.usize(4);
        let nulls = 1 + cx.rng.below(4);
        let rows = (0..k).map(|_| types.iter().map(|(t, f)| if cx.rng.chance(nulls + 1) { None } else { Some(field(&mut cx.rng, *t, f & 32 != 0)) }).collect()).collect();
        case(cx, &types, rows, 1);
        if !cx.time_left() { break; }
    }
}
