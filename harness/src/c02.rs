//! Reassembly of incoming chunks.
use {
    crate::{mock::*, rt::*},
    mysql_connector::{error::{Error, ProtocolError}, types::Value},
};

/// Cuts `payload` into legal chunks (only full ones before the last).
fn chunks(payload: &[u8]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut rest = payload;
    loop {
        let n = rest.len().min(MAX);
        v.push(rest[..n].to_vec());
        rest = &rest[n..];
        if n < MAX {
            return v;
        }
    }
}

fn put(w: &mut Wire, body: &[u8], seq: u8) {
    let n = body.len();
    w.raw(&[n as u8, (n >> 8) as u8, (n >> 16) as u8, seq]);
    w.raw(body);
}

/// Row payload of exactly `n` bytes: one string column.
fn row_of(n: usize, rng: &mut Rng) -> Option<(Vec<u8>, Vec<u8>)> {
    for head in [9usize, 4, 3, 1] {
        if n < head { continue; }
        let len = n - head;
        if lenenc(len as u64).len() == head {
            let mut body = vec![0u8; len];
            let step = 1 + len / 4096;
            for i in (0..len).step_by(step) { body[i] = rng.u8(); }
            if len > 0 { body[len - 1] = rng.u8(); }
            let mut p = lenenc(len as u64);
            p.extend(&body);
            return Some((p, body));
        }
    }
    None
}

fn rows(cx: &mut Ctx, lens: &[usize], tail: usize, jit: bool, bad: Option<(usize, u8)>) {
    let h = handle();
    if jit {
        jitter(&h, &mut cx.rng);
        if lens.iter().any(|n| *n > 100_000) { let mut s = h.lock().unwrap(); if s.read_step != 0 { s.read_step += 65000; } s.stutter = 0; }
    }
    let mut payloads = Vec::new();
    let mut bodies = Vec::new();
    for n in lens {
        if let Some((p, b)) = row_of(*n, &mut cx.rng) {
            payloads.push(p);
            bodies.push(b);
        }
    }
    let desc = format!("row packets of {lens:?} bytes, {tail} bytes behind, wrong number {bad:?}");
    cx.case(&desc, true);
    let lens: Vec<usize> = payloads.iter().map(|p| p.len()).collect();
    // index of the first chunk whose number is wrong, over all response chunks
    let srv = move |w: &mut Wire, _: &[u8]| {
        let mut all: Vec<Vec<u8>> = vec![lenenc(1), Col::new("c", 253, 0).bytes()];
        let mut cs = Vec::new();
        all.extend(payloads.iter().cloned());
        all.push(eof_packet(2, 0));
        for p in &all { cs.extend(chunks(p)); }
        for (i, c) in cs.iter().enumerate() {
            let good = w.seq.wrapping_add(i as u8);
            let s = match bad { Some((k, d)) if k == i => good.wrapping_add(d), _ => good };
            put(w, c, s);
        }
        w.raw(&vec![0xAA; tail]);
    };
    let first_bad = bad.map(|b| b.0);
    let r = quiet(|| run(async {
        let mut c = connected(&h, srv).await;
        let base = h.lock().unwrap().consumed;
        let mut got: Vec<Vec<u8>> = Vec::new();
        let res: Result<(), Error> = async {
            let mut q = c.query::<Vec<Value>>("q").await?;
            while let Some(mut r) = q.next().await? {
                match r.remove(0) { Value::Bytes(b) => got.push(b), x => panic!("not bytes: {x:?}") }
            }
            Ok(())
        }.await;
        let s = h.lock().unwrap();
        (got, res, s.inbox.len(), s.consumed - base)
    }));
    match r {
        Err(m) => cx.fail("c02-panic", format!("{desc}: panic {m}")),
        Ok((got, res, left, _)) => {
            match first_bad {
                None => {
                    cx.check(res.is_ok(), "c02-refused", || format!("{desc}: well-formed chunks refused: {res:?}"));
                    cx.check(got == bodies, "c02-payload", || format!("{desc}: got {} rows of {:?} bytes, expected {:?}; contents differ", got.len(), got.iter().map(|x| x.len()).collect::<Vec<_>>(), bodies.iter().map(|x| x.len()).collect::<Vec<_>>()));
                    cx.check(left == tail, "c02-consumed", || format!("{desc}: {left} bytes left in the stream, expected {tail}"));
                }
                Some(k) => {
                    // chunk index -> rows complete before it
                    let mut i = 2;
                    let mut complete = 0;
                    for n in &lens {
                        i += chunks(&vec![0; *n]).len();
                        if i <= k { complete += 1; }
                    }
                    let exists = k <= i;
                    if exists {
                        cx.check(matches!(res, Err(Error::Protocol(ProtocolError::OutOfSync))), "c02-sync", || format!("{desc}: expected out of sync, got {res:?}"));
                        cx.check(got.len() <= complete.min(bodies.len()) && got[..] == bodies[..got.len()], "c02-sync-data", || format!("{desc}: {} rows delivered, only {complete} precede the wrong chunk", got.len()));
                    }
                }
            }
        }
    }
}

/// An error reply to the command is far easier: any chunk stream that ends early must not be taken for a packet.
fn truncated(cx: &mut Ctx, cut: usize) {
    let h = handle();
    let desc = format!("reply cut after {cut} bytes, then end of stream");
    cx.case(&desc, true);
    let r = quiet(|| run(async {
        let mut c = connected(&h, move |w, _| {
            let mut seq = w.seq;
            let f = frame(&ok_packet(5, 6, 2, 0), &mut seq);
            let k = cut.min(f.len());
            w.raw(&f[..k]);
            *w.eof = true;
        }).await;
        c.execute_query("q").await.map(|x| x.affected_rows())
    }));
    let full = 4 + ok_packet(5, 6, 2, 0).len();
    match r {
        Err(m) => cx.fail("c02-panic", format!("{desc}: panic {m}")),
        Ok(r) => {
            if cut < full {
                cx.check(r.is_err(), "c02-truncated", || format!("{desc}: accepted as {r:?}"));
            } else {
                cx.check(matches!(r, Ok(5)), "c02-refused", || format!("{desc}: {r:?}"));
            }
        }
    }
}

pub fn main(cx: &mut Ctx) {
    cx.rule("Result sets of one string column whose row packets have lengths around 0, 251, 65536 and k*16777215, sent as raw chunks with correct or corrupted sequence numbers, short and pending reads, bytes behind the result; rows, leftover bytes and errors are compared. Non-trivial: every case.");
    for n in [1usize, 2, 251, 252, 254, 255, 65539, 65540] {
        rows(cx, &[n, 1], 0, false, None);
    }
    for n in [MAX - 1, MAX, MAX + 1] {
        rows(cx, &[n, 5], 3, false, None);
    }
    rows(cx, &[2 * MAX, 5], 3, false, None);
    if cx.thorough {
        for n in [2 * MAX - 1, 2 * MAX + 1, 3 * MAX, 4 * MAX + 11] {
            rows(cx, &[n, 5], 3, true, None);
        }
    }
    for k in 0..5 {
        for d in [1u8, 2, 127, 128, 254, 255] {
            rows(cx, &[3, 4], 0, false, Some((k, d)));
        }
    }
    for (k, d) in [(2, 1u8), (3, 1), (3, 255), (4, 255)] {
        rows(cx, &[MAX + 3, 4], 0, false, Some((k, d)));
    }
    // wrap of the sequence number
    rows(cx, &vec![2; 600], 1, false, None);
    for k in [253usize, 254, 255, 256, 257, 510, 512] {
        rows(cx, &vec![2; 600], 1, false, Some((k, 1)));
        rows(cx, &vec![2; 600], 1, false, Some((k, 255)));
    }
    for cut in 0..12 {
        truncated(cx, cut);
    }
    for _ in 0..cx.n(300, 4000) {
        let k = 1 + cx.rng.usize(6);
        let lens: Vec<usize> = (0..k).map(|_| { let e = cx.rng.below(11); 1 + ((cx.rng.next() as usize) & ((1 << e) - 1)) }).collect();
        let bad = if cx.rng.chance(3) { Some((cx.rng.usize(k + 3), 1 + cx.rng.below(255) as u8)) } else { None };
        let tail = cx.rng.usize(9);
        rows(cx, &lens, tail, true, bad);
        if !cx.time_left() { break; }
    }
}
