//! Outgoing framing.
use {crate::{mock::*, rt::*}, mysql_connector::Connection, std::sync::Arc};

fn expect(payload: &[u8], mut seq: u8) -> (Vec<u8>, u8) {
    let f = frame(payload, &mut seq);
    (f, seq)
}

fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("wrote {} bytes, expected {}; first difference at offset {i}: {} vs {}", a.len(), b.len(), hexs(&a[i..(i + 12).min(a.len())]), hexs(&b[i..(i + 12).min(b.len())]))
}

fn one(cx: &mut Ctx, lens: &[usize], jit: bool, fail_at: Option<usize>) {
    let h = handle();
    let texts: Vec<String> = lens.iter().map(|n| {
        let a = (b'a' + cx.rng.below(26) as u8) as char;
        let mut s: Vec<u8> = vec![a as u8; *n];
        for i in (0..*n).step_by(1 + n / 1000) {
            s[i] = b'0' + (cx.rng.below(10)) as u8;
        }
        String::from_utf8(s).unwrap()
    }).collect();
    if jit {
        jitter(&h, &mut cx.rng);
        if lens.iter().any(|n| *n > 100_000) {
            let mut s = h.lock().unwrap();
            if s.write_step != 0 { s.write_step += 65_000; }
            s.stutter = 0;
        }
    }
    let desc = format!("commands with texts of {lens:?} bytes, write failure at {fail_at:?}");
    cx.case(&desc, true);
    let r = quiet(|| run(async {
        let mut c = connected(&h, |w, _| w.send(&ok_packet(0, 0, 2, 0))).await;
        let base = { let mut s = h.lock().unwrap(); let b = s.log.len(); if let Some(f) = fail_at { s.fail_write_at = Some(b + f); } b };
        let mut want = Vec::new();
        let mut ok = true;
        for t in &texts {
            let mut p = vec![3];
            p.extend(t.as_bytes());
            want.extend(expect(&p, 0).0);
            if ok {
                ok = c.execute_query(t).await.is_ok();
            }
        }
        let s = h.lock().unwrap();
        let got = s.log[base..].to_vec();
        (got, want, ok)
    }));
    match r {
        Err(m) => cx.fail("c01-panic", format!("{desc}: panic {m}")),
        Ok((got, want, ok)) => {
            if fail_at.is_some() {
                cx.check(want.starts_with(&got), "c01-prefix", || format!("{desc}: after a write error the bytes on the wire are not a prefix of the framed payload: {}", diff(&got, &want)));
                cx.check(!ok || got == want, "c01-error-lost", || format!("{desc}: write error not reported"));
            } else {
                cx.check(got == want, "c01-frame", || format!("{desc}: {}", diff(&got, &want)));
            }
        }
    }
}

/// payloads written while the sequence number is not 0: the answer to an authentication switch
fn switched(cx: &mut Ctx, n: usize, empty: bool) {
    let h = handle();
    let g = Greeting { plugin: b"mysql_native_password".to_vec(), ..Default::default() };
    greet(&h, &g);
    let mut step = 0;
    h.lock().unwrap().server = Some(Box::new(move |w, _| {
        step += 1;
        match step {
            1 => {
                let mut b = vec![0xfe];
                b.extend(if empty { &b"mysql_native_password\0"[..] } else { &b"mysql_clear_password\0"[..] });
                b.extend(b"01234567890123456789\0");
                w.send(&b)
            }
            _ => w.send(&ok_packet(0, 0, 2, 0)),
        }
    }));
    let desc = if empty { "empty answer to an authentication switch".to_string() } else { format!("clear-text answer of {} bytes to an authentication switch", n + 1) };
    cx.case(&desc, true);
    let mut o = options::<true>(&h);
    o.password = if empty { String::new() } else { "p".repeat(n) };
    o.allow_cleartext_password = true;
    o.auth_plugin = None;
    let pw = o.password.clone();
    let r = quiet(|| run(async { Connection::connect(Arc::new(o)).await.is_ok() }));
    let s = h.lock().unwrap();
    let mut want = if empty { vec![] } else { let mut v = pw.into_bytes(); v.push(0); v };
    want = expect(&want, 3).0;
    if let Err(m) = r {
        cx.fail("c01-panic", format!("{desc}: panic {m}"));
        return;
    }
    // log = response frame + this frame
    let l = &s.log;
    let first = 4 + (l.first().copied().unwrap_or(0) as usize | (l.get(1).copied().unwrap_or(0) as usize) << 8 | (l.get(2).copied().unwrap_or(0) as usize) << 16);
    let got = l.get(first..).unwrap_or(&[]).to_vec();
    cx.check(got == want, "c01-frame-seq", || format!("{desc}: {}", diff(&got, &want)));
    cx.check(l.get(3) == Some(&1), "c01-frame-seq", || format!("{desc}: handshake response not numbered 1"));
}

pub fn main(cx: &mut Ctx) {
    cx.rule("COM_QUERY texts whose lengths sit around 0, 255, 65535, k*16777215; the whole byte log of the transport is compared with an independent framing; short writes, pending writes and write errors at sampled offsets; answers to authentication switches exercise a non-zero first number and an empty payload. Non-trivial: every case (distinct by lengths and fault).");
    for n in [0usize, 1, 2, 254, 255, 256, 65534, 65535, 65536] {
        one(cx, &[n], false, None);
    }
    for n in [MAX - 2, MAX - 1, MAX, MAX + 1] {
        one(cx, &[n, 3], false, None);
    }
    one(cx, &[2 * MAX - 1, 5], false, None);
    for n in if cx.thorough { vec![2 * MAX - 2, 2 * MAX, 3 * MAX - 1, 4 * MAX - 1, 5 * MAX + 7] } else { vec![2 * MAX] } {
        one(cx, &[n, 0], true, None);
    }
    switched(cx, 0, true);
    for n in [0usize, 1, 300, 70000] {
        switched(cx, n, false);
    }
    for n in [MAX - 2, MAX - 1, MAX] {
        switched(cx, n, false);
    }
    for _ in 0..cx.n(300, 4000) {
        let k = 1 + cx.rng.usize(4);
        let lens: Vec<usize> = (0..k).map(|_| { let e = cx.rng.below(12); (cx.rng.next() as usize) & ((1 << e) - 1) }).collect();
        let total: usize = lens.iter().map(|n| n + 5).sum();
        let fail = if cx.rng.chance(3) { Some(cx.rng.usize(total + 1)) } else { None };
        one(cx, &lens, true, fail);
        if !cx.time_left() { break; }
    }
    for f in [0, 1, 3, 4, 5, MAX, MAX + 3, MAX + 4, MAX + 5, MAX + 8] {
        one(cx, &[MAX - 1], false, Some(f));
        if !cx.time_left() { break; }
    }
    for f in 0..24 {
        one(cx, &[7, 3], false, Some(f));
    }
}
