//! Bound values reach the server unchanged.
use {
    crate::{mock::*, rt::*, vals::*},
    mysql_connector::types::Value,
};

/// The type code and unsigned flag a value has to be announced with.
fn code(v: &Value) -> (u8, u8) {
    match v {
        Value::Null => (6, 0),
        Value::Tiny(_) => (1, 0),
        Value::UTiny(_) => (1, 128),
        Value::Short(_) => (2, 0),
        Value::UShort(_) => (2, 128),
        Value::Int(_) => (3, 0),
        Value::UInt(_) => (3, 128),
        Value::Long(_) => (8, 0),
        Value::ULong(_) => (8, 128),
        Value::Float(_) => (4, 0),
        Value::Double(_) => (5, 0),
        Value::Bytes(_) => (253, 0),
        Value::Date(..) => (10, 0),
        Value::Time(..) => (11, 0),
        Value::Datetime(..) => (12, 0),
    }
}

fn bind(cx: &mut Ctx, vs: &[Value]) {
    let desc = format!("binding {}", short(&format!("{vs:?}")));
    cx.case(&desc, true);
    let h = handle();
    let n = vs.len();
    let r = quiet(|| run(async {
        let mut c = connected(&h, move |w, p| match p[0] {
            0x16 => prepare_ok(w, 9, 0, n),
            _ => w.send(&ok_packet(0, 0, 2, 0)),
        }).await;
        let mut s = c.prepare_statement("p").await.map_err(|e| format!("{e:?}"))?;
        s.execute(vs).await.map(|_| ()).map_err(|e| format!("{e:?}"))
    }));
    match r {
        Err(m) => { cx.fail("c05-panic", format!("{desc}: panic {m}")); return; }
        Ok(Err(e)) => { cx.fail("c05-refused", format!("{desc}: {e}")); return; }
        Ok(Ok(())) => {}
    }
    let s = h.lock().unwrap();
    let p = &s.payloads.last().unwrap().1;
    match read_execute(p, n, &[]) {
        Err(e) => cx.fail("c05-undecodable", format!("{desc}: {e} in {}", hexs(p))),
        Ok(x) => {
            let want: Vec<Value> = vs.iter().map(canonical).collect();
            cx.check(all_same(&x.values, &want), "c05-value", || format!("{desc}: the server reads {:?}", x.values));
            for (i, v) in vs.iter().enumerate() {
                cx.check(x.types[i] == code(v), "c05-type", || format!("{v:?} announced as {:?}", x.types[i]));
            }
        }
    }
}

pub fn main(cx: &mut Ctx) {
    cx.rule("Values of every variant at their edges, every combination of zero and non-zero date and time fields, byte strings around the length-form limits and random lists are bound to a prepared statement; an independent decoder reads the request as a server does and must find the identical values in the shortest forms. Non-trivial: every case.");
    let mut one: Vec<Value> = vec![Value::Null, Value::Float(f32::NAN), Value::Double(f64::NAN), Value::Double(-0.0), Value::Float(f32::MIN_POSITIVE)];
    for k in 0..64 {
        for d in [-1i128, 0, 1] {
            let n = ((1i128 << k) + d) as u64;
            one.extend([Value::Tiny(n as i8), Value::Short(n as i16), Value::Int(n as i32), Value::Long(n as i64), Value::UTiny(n as u8), Value::UShort(n as u16), Value::UInt(n as u32), Value::ULong(n)]);
            one.extend([Value::Long((n as i64).wrapping_neg()), Value::Int((n as i32).wrapping_neg()), Value::Float(f32::from_bits(n as u32)), Value::Double(f64::from_bits(n))]);
        }
    }
    for m in 0..128u32 {
        let b = |k: u32| m >> k & 1;
        one.push(Value::Datetime(2024 * b(0) as u16, 2 * b(1) as u8, 29 * b(2) as u8, 23 * b(3) as u8, 59 * b(4) as u8, 58 * b(5) as u8, 999_999 * b(6)));
        if m < 64 {
            one.push(Value::Time(b(0) == 1, 34 * b(1), 22 * b(2) as u8, 59 * b(3) as u8, 1 * b(4) as u8, 1 * b(5)));
        }
        if m < 8 {
            one.push(Value::Date(256 * b(0) as u16, b(1) as u8, 255 * b(2) as u8));
        }
    }
    for n in [0usize, 1, 249, 250, 251, 252, 253, 254, 255, 256, 65534, 65535, 65536, 65537, 1 << 20] {
        one.push(Value::Bytes((0..n).map(|i| (i * 7 + n) as u8).collect()));
    }
    if cx.thorough { one.push(Value::Bytes(vec![0xfe; 16_777_000])); }
    for v in &one {
        bind(cx, std::slice::from_ref(v));
    }
    for ch in one.chunks(100) {
        if ch.iter().all(|v| !matches!(v, Value::Bytes(b) if b.len() > 1 << 21)) { bind(cx, ch); }
    }
    for _ in 0..cx.n(4000, 60000) {
        let n = if cx.rng.chance(20) { cx.rng.usize(300) } else { cx.rng.usize(12) };
        let vs: Vec<Value> = (0..n).map(|_| value(&mut cx.rng, true)).collect();
        bind(cx, &vs);
        if !cx.time_left() { break; }
    }
}
