//! Length-encoded integers and strings.
use crate::{mock::*, rt::*};
use mysql_connector::types::Value;

fn ref_dec(b: &[u8]) -> Option<(u64, usize)> {
    let f = *b.first()?;
    let n = match f { 0xfc => 2, 0xfd => 3, 0xfe => 8, 0xfb | 0xff => return Some((0, 1)), x => return Some((x as u64, 1)) };
    let s = b.get(1..1 + n)?;
    Some((s.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64), 1 + n))
}

#[cfg(vx_hooks)]
fn direct(cx: &mut Ctx) {
    use mysql_connector::vx_hooks as hk;
    let mut ns: Vec<u64> = (0..70_000).collect();
    for k in 0..64 { for d in 0..6u64 { ns.push((1u64 << k).wrapping_add(d).wrapping_sub(3)); } }
    for d in 0..9 { ns.push(16_777_211 + d); ns.push(u64::MAX - d); }
    for _ in 0..cx.n(100_000, 3_000_000) { let v = cx.rng.edgy_u64(); ns.push(v); }
    for n in ns {
        cx.case(&format!("n={n}"), n > 250);
        let mut b = vec![0x55];
        let want = lenenc(n);
        if cx.guard("c03-panic", &format!("writing {n}"), || hk::put_lenenc_int(&mut b, n)).is_none() { continue; }
        cx.check(b[0] == 0x55 && b[1..] == want[..], "c03-int-write", || format!("{n} written as {}, expected {}", hexs(&b[1..]), hexs(&want)));
        cx.check(hk::lenenc_int_len(n) == want.len() as u64, "c03-int-len", || format!("announced size of {n} is {}, written in {}", hk::lenenc_int_len(n), want.len()));
        let mut w = want.clone();
        w.extend([0xAA, 0xBB]);
        let a = cx.guard("c03-panic", &format!("reading {}", hexs(&w)), || (hk::checked_eat_lenenc_int(&w), hk::eat_lenenc_int(&w)));
        if let Some((a, u)) = a {
            cx.check(a == Some((n, want.len())) && u == (n, want.len()), "c03-int-read", || format!("{} read as {a:?} / {u:?}, expected {n}", hexs(&want)));
        }
    }
    for _ in 0..cx.n(60_000, 1_000_000) {
        let k = cx.rng.usize(14);
        let mut b = cx.rng.bytes(k);
        if k > 0 && cx.rng.bool() { b[0] = 0xfa + cx.rng.u8() % 6; }
        let desc = format!("bytes {}", hexs(&b));
        cx.case(&desc, k > 1);
        let want = ref_dec(&b);
        if let Some(got) = cx.guard("c03-panic", &desc, || hk::checked_eat_lenenc_int(&b)) {
            cx.check(got == want, "c03-int-read", || format!("{desc}: integer {got:?}, expected {want:?}"));
        }
        let ws = want.and_then(|(n, k)| b[k..].get(..n as usize).filter(|_| n <= b.len() as u64).map(|s| (s, k + n as usize)));
        if let Some(got) = cx.guard("c03-panic", &desc, || hk::checked_eat_lenenc_slice(&b)) {
            cx.check(got == ws, "c03-str-read", || format!("{desc}: string {got:?}, expected {ws:?}"));
        }
        let wstr = ws.and_then(|(s, n)| std::str::from_utf8(s).ok().map(|s| (s, n)));
        if let Some(got) = cx.guard("c03-panic", &desc, || hk::checked_eat_lenenc_str(&b)) {
            cx.check(got == wstr, "c03-str-read", || format!("{desc}: text {got:?}, expected {wstr:?}"));
        }
    }
    for n in [0usize, 1, 249, 250, 251, 252, 255, 256, 65534, 65535, 65536, 65537, MAX - 1, MAX, MAX + 1, MAX + 2] {
        let s = vec![0x5a; n];
        let desc = format!("string of {n} bytes");
        cx.case(&desc, true);
        let mut b = Vec::new();
        hk::put_lenenc_slice(&mut b, &s);
        cx.check(b == lenenc_str(&s), "c03-str-write", || format!("{desc} written as {}", hexs(&b)));
        cx.check(hk::lenenc_slice_len(&s) == lenenc_str(&s).len() as u64, "c03-str-len", || format!("{desc}: announced {}", hk::lenenc_slice_len(&s)));
        b.push(0x77);
        let r = hk::checked_eat_lenenc_slice(&b);
        cx.check(r == Some((&s[..], b.len() - 1)), "c03-str-read", || format!("{desc} did not read back"));
    }
}
#[cfg(not(vx_hooks))]
fn direct(_: &mut Ctx) {}

/// integers through OK packets
fn oks(cx: &mut Ctx) {
    let mut cases: Vec<(u64, u64)> = vec![];
    for a in [0u64, 250, 251, 252, 255, 256, 65535, 65536, 16777215, 16777216, u32::MAX as u64, 1 << 32, u64::MAX] {
        cases.push((a, 1));
        cases.push((3, a));
    }
    for _ in 0..cx.n(3000, 50_000) { let p = (cx.rng.edgy_u64(), cx.rng.edgy_u64()); cases.push(p); }
    let h = handle();
    let list = cases.clone();
    let r = quiet(|| run(async {
        let mut i = 0;
        let mut c = connected(&h, move |w, _| { w.send(&ok_packet(list[i].0, list[i].1, 2, 9)); i += 1; }).await;
        let mut got = Vec::new();
        for _ in 0..cases.len() {
            got.push(c.execute_query("q").await.map(|x| (x.affected_rows(), x.last_insert_id(), x.warnings())).map_err(|e| format!("{e:?}")));
        }
        got
    }));
    match r {
        Err(m) => cx.fail("c03-panic", format!("OK packets: panic {m}")),
        Ok(got) => for (c, g) in cases.iter().zip(got) {
            cx.case(&format!("ok {c:?}"), true);
            cx.check(g == Ok((c.0, c.1, 9)), "c03-ok", || format!("OK packet with affected rows and insert id {c:?} read as {g:?}"));
        }
    }
}

/// strings as bound parameters (written) and as row fields (read)
fn strings(cx: &mut Ctx) {
    let mut lens = vec![0usize, 1, 249, 250, 251, 252, 253, 255, 256, 65534, 65535, 65536, 65537];
    if cx.thorough { lens.extend([1 << 20, MAX - 30, MAX]); }
    lens.push(MAX - 100);
    for n in lens {
        let desc = format!("string of {n} bytes as parameter and as field");
        cx.case(&desc, true);
        let h = handle();
        let body: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
        let b2 = body.clone();
        let r = quiet(|| run(async {
            let mut c = connected(&h, move |w, p| match p[0] {
                0x16 => prepare_ok(w, 1, 0, 2),
                0x17 => w.send(&ok_packet(0, 0, 2, 0)),
                _ => {
                    send_columns(w, &[Col::new("a", 253, 0), Col::new("b", 253, 0)]);
                    let mut row = lenenc_str(&b2);
                    row.extend(lenenc_str(b"after"));
                    w.send(&row);
                    w.send(&eof_packet(2, 0));
                }
            }).await;
            let mut st = c.prepare_statement("?").await?;
            st.execute(&[Value::Bytes(body.clone()), Value::Bytes(b"after".to_vec())]).await?;
            let rows = c.query::<Vec<Value>>("q").await?.collect().await?;
            Ok::<_, mysql_connector::error::Error>(rows)
        }));
        match r {
            Err(m) => cx.fail("c03-panic", format!("{desc}: panic {m}")),
            Ok(Err(e)) => cx.fail("c03-string", format!("{desc}: {e:?}")),
            Ok(Ok(rows)) => {
                let s = h.lock().unwrap();
                let mut want = lenenc_str(&body);
                want.extend(lenenc_str(b"after"));
                let req = &s.payloads[1].1;
                let ok = req.len() == 10 + 1 + 1 + 4 + want.len() && req.ends_with(&want);
                cx.check(ok, "c03-str-write", || format!("{desc}: request of {} bytes does not end with the two encodings ({} bytes)", req.len(), want.len()));
                let ok = rows.len() == 1 && rows[0] == vec![Value::Bytes(body.clone()), Value::Bytes(b"after".to_vec())];
                cx.check(ok, "c03-str-read", || format!("{desc}: row read back differently"));
            }
        }
    }
}

pub fn main(cx: &mut Ctx) {
    cx.rule("Integers 0..70000, neighbours of powers of two and seeded ones are written, sized and read back by the crate's own codec (through the guarded hook) and by OK packets; random byte strings are decoded and compared with an independent decoder; strings with lengths around the class limits go through parameters and rows. Non-trivial: integers above 250, byte strings longer than one byte, every string.");
    direct(cx);
    oks(cx);
    strings(cx);
}
