//! Execution requests and long data.
use {
    crate::{mock::*, rt::*, vals::*},
    mysql_connector::{error::{Error, RuntimeError}, types::Value},
};

fn encoded(v: &Value) -> usize { server_writes(&canonical(v)).len() }

fn case(cx: &mut Ctx, id: u32, vs: &[Value], params: usize, query: bool, by_ref: bool) {
    let big = vs.iter().map(encoded).sum::<usize>() > 1 << 20;
    let h = handle();
    let cols = cx.rng.usize(3);
    let depr = !cx.rng.chance(3);
    let mut g = Greeting::default();
    if !depr { g.caps &= !caps::DEPRECATE_EOF; }
    let desc = format!("statement {id} with {params} placeholders and {cols} columns (DEPRECATE_EOF: {depr}) given {}", short(&format!("{:?}", vs.iter().map(|v| match v { Value::Bytes(b) if b.len() > 40 => format!("{} bytes", b.len()), v => format!("{v:?}") }).collect::<Vec<_>>())));
    cx.case(&desc, true);
    let r = quiet(|| run(async {
        let mut c = connected_with(&h, &g, move |w, p| match p[0] {
            0x16 => prepare_ok_eof(w, id, cols, params, !depr),
            0x18 => {}
            _ => w.send(&ok_packet(0, 0, 2, 0)),
        }).await;
        let mut s = c.prepare_statement("p").await?;
        if query {
            let q = if by_ref { let v: Vec<&Value> = vs.iter().collect(); s.query::<&Value, Vec<Value>>(&v).await?.finish().await.map(|_| ()) } else { s.query::<Value, Vec<Value>>(vs).await?.finish().await.map(|_| ()) };
            q
        } else {
            s.execute(vs).await.map(|_| ())
        }
    }));
    let r = match r {
        Err(m) => { cx.fail("c08-panic", format!("{desc}: panic {m}")); return; }
        Ok(r) => r,
    };
    let s = h.lock().unwrap();
    let sent: Vec<&[u8]> = s.payloads[1..].iter().map(|p| &p.1[..]).collect();
    cx.check(s.payloads[0].1 == b"\x16p", "c08-prepare", || format!("{desc}: prepared as {}", hexs(&s.payloads[0].1)));
    cx.check(s.bad.is_empty() && s.complete(), "c08-framing", || format!("{desc}: {:?}", s.bad));
    if vs.len() != params {
        cx.check(matches!(r, Err(Error::Runtime(RuntimeError::ParameterCountMismatch))), "c08-count", || format!("{desc}: {r:?}"));
        cx.check(sent.is_empty(), "c08-count", || format!("{desc}: sent {} packets", sent.len()));
        return;
    }
    if let Err(e) = &r { cx.fail("c08-refused", format!("{desc}: {e:?}")); return; }
    let mut long: Vec<Option<Vec<u8>>> = vec![None; params];
    for p in &sent[..sent.len() - 1] {
        let mut c = Cut(p);
        let head = (|| Ok::<_, String>((c.num(1)?, c.num(4)? as u32, c.num(2)? as usize)))();
        let Ok((0x18, i, k)) = head else { cx.fail("c08-long", format!("{desc}: sent {}", hexs(p))); return; };
        if i != id || k >= params { cx.fail("c08-long", format!("{desc}: long data for statement {i} parameter {k}")); return; }
        long[k].get_or_insert_with(Vec::new).extend_from_slice(c.0);
    }
    if long.iter().any(|l| l.is_some()) && !big { cx.fail("c08-long", format!("{desc}: long data where one packet suffices")); }
    if sent.last().unwrap().len() > MAX { cx.fail("c08-big", format!("{desc}: a request of {} bytes", sent.last().unwrap().len())); }
    match read_execute(sent.last().unwrap(), params, &long) {
        Err(e) => cx.fail("c08-request", format!("{desc}: {e} in {}", hexs(sent.last().unwrap()))),
        Ok(x) => {
            cx.check(x.id == id, "c08-id", || format!("{desc}: executes statement {}", x.id));
            for (i, v) in vs.iter().enumerate() {
                cx.check(x.nulls[i] == matches!(v, Value::Null), "c08-null", || format!("{desc}: NULL bit of parameter {i} is {}", x.nulls[i]));
            }
            let want: Vec<Value> = vs.iter().map(canonical).collect();
            let i = (0..params).find(|i| !same(&x.values[*i], &want[*i]));
            cx.check(i.is_none(), "c08-values", || format!("{desc}: parameter {:?} read as {}", i, short(&format!("{:?}", x.values[i.unwrap()]))));
        }
    }
}

fn sized(n: usize, k: u8) -> Value { Value::Bytes((0..n).map(|i| ((i >> 8) as u8) ^ (i as u8).wrapping_mul(5) ^ k).collect()) }

pub fn main(cx: &mut Ctx) {
    cx.rule("Statements are prepared and executed with random value lists (up to 300 values, every NULL pattern of few), wrong counts, and byte strings whose total straddles the packet limit; an independent reader recovers the list from the pieces and the request. Non-trivial: every case.");
    for n in 0..=9usize {
        for m in 0..1usize << n {
            let vs: Vec<Value> = (0..n).map(|i| if m >> i & 1 == 1 { Value::Null } else { Value::UTiny(i as u8) }).collect();
            case(cx, 1, &vs, n, m & 1 == 0, m & 2 == 0);
        }
    }
    for (given, want) in [(0usize, 1usize), (1, 0), (2, 1), (1, 2), (8, 9), (9, 8), (256, 0), (0, 256), (300, 44)] {
        let vs = vec![Value::Tiny(1); given];
        case(cx, 5, &vs, want, false, false);
        case(cx, 5, &vs, want, true, true);
    }
    for id in [0u32, 1, 255, 256, 65536, 0x0102_0304, u32::MAX] {
        case(cx, id, &[Value::Int(1), Value::Null, sized(3, 1)], 3, false, false);
    }
    // 15 bytes surround one byte string of 3-byte length
    let limit = MAX - (10 + 1 + 1 + 2) - 4;
    let mut bigs: Vec<Vec<Value>> = Vec::new();
    for d in [-1i64, 0, 1, 2, 14, 18, 19] { bigs.push(vec![sized((limit as i64 + d) as usize, 3)]); }
    bigs.push(vec![sized(9_000_000, 1), Value::Null, sized(9_000_000, 2), Value::Int(-5), sized(0, 0), sized(1, 9)]);
    for d in [-8i64, -7, -6, -5, -1, 0, 1] {
        if cx.thorough || d == -6 || d == -7 { bigs.push(vec![sized((MAX as i64 + d) as usize, 4), Value::Bytes(b"tail".to_vec())]); }
    }
    bigs.push(vec![Value::Null, sized(2 * (MAX - 6), 7), Value::Time(true, 1, 2, 3, 4, 5)]);
    if cx.thorough { bigs.push(vec![sized(2 * (MAX - 6) + 1, 7)]); bigs.push(vec![sized(3 * MAX, 7), sized(MAX, 8), sized(17, 8)]); }
    for (i, vs) in bigs.iter().enumerate() {
        case(cx, 77, vs, vs.len(), i % 2 == 1, i % 4 == 1);
    }
    drop(bigs);
    for _ in 0..cx.n(3000, 40000) {
        let n = if cx.rng.chance(20) { cx.rng.usize(300) } else { cx.rng.usize(20) };
        let vs: Vec<Value> = (0..n).map(|_| value(&mut cx.rng, true)).collect();
        let params = if cx.rng.chance(8) { cx.rng.usize(20) } else { n };
        let id = cx.rng.edgy_u64() as u32;
        let (q, r) = (cx.rng.bool(), cx.rng.bool());
        case(cx, id, &vs, params, q, r);
        if !cx.time_left() { break; }
    }
}
