//! A command never sees what an earlier one left behind.
use {
    crate::{mock::*, rt::*},
    mysql_connector::{error::Error, types::Value},
    std::sync::{Arc, Mutex},
};

#[derive(Clone, Debug, PartialEq)]
enum End { Normal, Error }

/// One command and what the server answers.
#[derive(Clone, Debug)]
struct Step {
    tag: u32,
    prepared: bool,
    /// executes the statement the step before prepared, if there is one
    again: bool,
    rows: usize,
    /// the first column of the row at this index is a huge string
    huge: Option<usize>,
    /// the row at this index cannot be decoded
    broken: Option<usize>,
    end: End,
    act: Act,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act { Next(usize), One, Collect, Finish, Drop, NextPastEnd, Cleanup, FinishInto }

#[derive(Debug, PartialEq, Clone)]
enum Out { Row(u32, u32), Done, Err, ServerErr }

fn text_row(tag: u32, i: u32, huge: bool) -> Vec<u8> {
    let mut b = Vec::new();
    if huge { b.extend(lenenc(0x100_0000)); b.extend(vec![b'x'; 0x100_0000]); } else { b.extend(lenenc_str(b"k")); }
    b.extend(lenenc_str(tag.to_string().as_bytes()));
    b.extend(lenenc_str(i.to_string().as_bytes()));
    b
}

fn bin_row(tag: u32, i: u32, huge: bool) -> Vec<u8> {
    let mut b = vec![0, 0];
    if huge { b.extend(lenenc(0x100_0000)); b.extend(vec![b'x'; 0x100_0000]); } else { b.extend(lenenc_str(b"k")); }
    b.extend(tag.to_le_bytes());
    b.extend(i.to_le_bytes());
    b
}

fn put(v: Vec<Value>) -> Out {
    let n = |x: &Value| match x { Value::UInt(n) => *n, Value::Int(n) => *n as u32, _ => u32::MAX };
    if v.len() != 3 { return Out::Row(u32::MAX, v.len() as u32); }
    Out::Row(n(&v[1]), n(&v[2]))
}

fn err(e: Error) -> Out { match e { Error::Server(_) => Out::ServerErr, _ => Out::Err } }

macro_rules! act {
    ($s:expr, $a:expr) => {{
    let mut s = $s;
    let mut v = Vec::new();
    let one = |r: Result<Option<Vec<Value>>, Error>| match r { Ok(Some(x)) => put(x), Ok(None) => Out::Done, Err(e) => err(e) };
    match $a {
        Act::Next(n) => for _ in 0..n { v.push(one(s.next().await)); },
        Act::NextPastEnd => {
            let mut after = 0;
            for _ in 0..10_000 {
                let o = one(s.next().await);
                let stop = !matches!(o, Out::Row(..));
                v.push(o);
                if stop { after += 1; if after == 4 { break; } }
            }
        }
        Act::One => v.push(one(s.one().await)),
        Act::Collect => match s.collect().await {
            Ok(rows) => { for r in rows { v.push(put(r)); } v.push(Out::Done); }
            Err(e) => v.push(err(e)),
        },
        Act::Finish => v.push(match s.finish().await { Ok(_) => Out::Done, Err(e) => err(e) }),
        Act::FinishInto => v.push(match s.finish_into_inner().await { Ok(_) => Out::Done, Err(e) => err(e) }),
        Act::Drop | Act::Cleanup => {}
    }
    v
    }};
}

/// What the caller has to see.
fn expected(s: &Step) -> Vec<Out> {
    let mut all = Vec::new();
    for i in 0..s.rows {
        all.push(if s.broken == Some(i) { Out::Err } else { Out::Row(s.tag, i as u32) });
    }
    all.push(if s.end == End::Error { Out::ServerErr } else { Out::Done });
    let last = all.len() - 1;
    match s.act {
        Act::Next(n) => (0..n).map(|i| if i <= last { all[i].clone() } else { Out::Done }).collect(),
        Act::NextPastEnd => {
            let mut v = Vec::new();
            let mut after = 0;
            for i in 0..10_000 {
                let o = if i <= last { all[i].clone() } else { Out::Done };
                let stop = !matches!(o, Out::Row(..));
                v.push(o);
                if stop { after += 1; if after == 4 { break; } }
            }
            v
        }
        Act::One => {
            // the rest is consumed as well and may bring an error
            let bad = all[1..].iter().find(|o| matches!(o, Out::Err | Out::ServerErr));
            match (&all[0], bad) { (_, Some(b)) => vec![b.clone()], (f, None) => vec![f.clone()] }
        }
        Act::Collect => match all.iter().find(|o| matches!(o, Out::Err | Out::ServerErr)) { Some(e) => vec![e.clone()], None => all },
        Act::Finish | Act::FinishInto => match all.iter().find(|o| matches!(o, Out::Err | Out::ServerErr)) { Some(e) => vec![e.clone()], None => vec![Out::Done] },
        Act::Drop | Act::Cleanup => vec![],
    }
}

fn history(cx: &mut Ctx, steps: &[Step], depr: bool, jit: bool) {
    let h = handle();
    if jit {
        jitter(&h, &mut cx.rng);
        if steps.iter().any(|s| s.huge.is_some()) { let mut s = h.lock().unwrap(); if s.read_step != 0 { s.read_step += 65000; } s.stutter = 0; }
    }
    let desc = format!("history {steps:?} (DEPRECATE_EOF: {depr})");
    cx.case(&desc, true);
    let mut g = Greeting::default();
    if !depr { g.caps &= !caps::DEPRECATE_EOF; }
    // bytes still unread when a command arrives
    let unread: Arc<Mutex<Vec<(usize, String)>>> = Default::default();
    let (u2, st) = (unread.clone(), steps.to_vec());
    let mut k = 0;
    let old_eof = [0xfe, 0, 0, 2, 0];
    let srv = move |w: &mut Wire, p: &[u8]| {
        let name = format!("command {:?} {}", p.first(), String::from_utf8_lossy(&p[1..p.len().min(12)]));
        u2.lock().unwrap().push((w.out.len(), name));
        if p[0] == 0x16 { prepare_ok(w, 9, 3, 0); 
            if !depr { w.send(&old_eof); }
            return; }
        if p == b"\x03last" { w.send(&ok_packet(77, 78, 2, 5)); return; }
        let Some(s) = st.get(k) else { return };
        k += 1;
        send_columns(w, &[Col::new("a", 253, 0), Col::new("tag", 3, 32), Col::new("i", 3, 32)]);
        if !depr { w.send(&old_eof); }
        for i in 0..s.rows {
            if s.broken == Some(i) { w.send(if s.prepared { &[0, 0, 9, 1] } else { &[9, 1] }); continue; }
            let hg = s.huge == Some(i);
            let row = if s.prepared { bin_row(s.tag, i as u32, hg) } else { text_row(s.tag, i as u32, hg) };
            w.send(&row);
        }
        match s.end {
            End::Error => w.send(&err_packet(1317, b"70100", "interrupted")),
            End::Normal => if depr { w.send(&eof_packet(2, 1)) } else { w.send(&old_eof) },
        }
    };
    let r = quiet(|| run(async {
        let mut c = connected_with(&h, &g, srv).await;
        let mut outs: Vec<(u32, Vec<Out>)> = Vec::new();
        let mut k = 0;
        while k < steps.len() {
            let s = &steps[k];
            k += 1;
            if s.prepared {
                match c.prepare_statement("p").await {
                    Err(e) => outs.push((s.tag, vec![err(e)])),
                    Ok(mut st) => {
                        outs.push((s.tag, match st.query::<Value, Vec<Value>>(&[]).await { Err(e) => vec![err(e)], Ok(r) => act!(r, s.act) }));
                        while k < steps.len() && steps[k].prepared && steps[k].again && steps[k - 1].act != Act::Cleanup {
                            let s = &steps[k];
                            k += 1;
                            outs.push((s.tag, match st.query::<Value, Vec<Value>>(&[]).await { Err(e) => vec![err(e)], Ok(r) => act!(r, s.act) }));
                        }
                    }
                }
            } else {
                outs.push((s.tag, match c.query::<Vec<Value>>("q").await { Err(e) => vec![err(e)], Ok(r) => act!(r, s.act) }));
            }
            if steps[k - 1].act == Act::Cleanup {
                if let Err(e) = c.cleanup().await { outs.push((s.tag, vec![err(e)])); }
            }
        }
        let last = c.execute_query("last").await.map(|o| (o.affected_rows(), o.last_insert_id(), o.warnings()));
        let idle = c.cleanup().await.map(|x| x.is_some());
        let s = h.lock().unwrap();
        (outs, last, idle, s.bad.clone(), s.payloads.iter().map(|p| p.0).collect::<Vec<_>>(), s.inbox.len())
    }));
    let (outs, last, idle, bad, seqs, left) = match r {
        Err(m) => { cx.fail("c11-panic", format!("{desc}: panic {m}")); return; }
        Ok(x) => x,
    };
    for (s, (tag, o)) in steps.iter().zip(&outs) {
        let want = expected(s);
        // rows of another command are the very thing that must not happen
        cx.check(*tag == s.tag && *o == want, "c11-rows", || format!("{desc}: command {} delivered {o:?}, expected {want:?}", s.tag));
    }
    cx.check(outs.len() == steps.len(), "c11-cleanup", || format!("{desc}: cleanup failed {:?}", outs.last()));
    cx.check(matches!(last, Ok((77, 78, 5))), "c11-next", || format!("{desc}: the next command got {last:?}"));
    cx.check(matches!(idle, Ok(false)), "c11-idle", || format!("{desc}: cleanup without a result set gave {idle:?}"));
    cx.check(left == 0, "c11-left", || format!("{desc}: {left} bytes left unread"));
    cx.check(bad.is_empty() && seqs.iter().all(|s| *s == 0), "c11-seq", || format!("{desc}: commands started at sequence numbers {seqs:?}, {bad:?}"));
    for (n, name) in unread.lock().unwrap().iter() {
        cx.check(*n == 0, "c11-unread", || format!("{desc}: {n} bytes of the previous result unread when {name} was sent"));
    }
}

fn step(cx: &mut Ctx, tag: u32) -> Step {
    let rows = match cx.rng.below(5) { 0 => 0, 1 => 1, 2 => 2, _ => cx.rng.usize(7) };
    let a = *cx.rng.pick(&[0u8, 0, 1, 2, 3, 4, 5, 6, 7]);
    Step {
        tag, prepared: cx.rng.bool(), again: cx.rng.bool(), rows, huge: None,
        broken: if rows > 0 && cx.rng.chance(5) { Some(cx.rng.usize(rows)) } else { None },
        end: if cx.rng.chance(5) { End::Error } else { End::Normal },
        act: match a { 0 => Act::Next(cx.rng.usize(rows + 3)), 1 => Act::One, 2 => Act::Collect, 3 => Act::Finish, 4 => Act::Drop, 5 => Act::NextPastEnd, 6 => Act::Cleanup, _ => Act::FinishInto },
    }
}

/// A statement with several results: the ones the API does not hand out must not reach the next command.
fn more_results(cx: &mut Ctx) {
    cx.case("an OK reply with SERVER_MORE_RESULTS_EXISTS followed by another OK packet, then a second command", true);
    let h = handle();
    let r = quiet(|| run(async {
        let mut c = connected_with(&h, &Greeting::default(), |w, p| {
            if p == b"\x03last" { w.send(&ok_packet(77, 78, 2, 5)); return; }
            w.send(&ok_packet(1, 2, 2 | 8, 0));
            w.send(&ok_packet(3, 4, 2, 0));
        }).await;
        let _ = c.execute_query("call p()").await;
        c.execute_query("last").await.map(|o| (o.affected_rows(), o.last_insert_id(), o.warnings()))
    }));
    cx.check(matches!(r, Ok(Ok((77, 78, 5)))), "c11-more-results", || format!("the command after a reply with more results got {r:?}"));
}

pub fn main(cx: &mut Ctx) {
    cx.rule("Histories of one to five text and prepared queries against a server whose rows carry the number of their command; every way to read a part of a result (next k times, one, collect, finish, drop, cleanup), normal ends, errors in mid-result, undecodable rows, rows starting with 0xFE; rows delivered, unread bytes when the next command arrives, sequence numbers and the reply to a final command are compared. Non-trivial: every case.");
    more_results(cx);
    let acts = [Act::Next(0), Act::Next(1), Act::Next(2), Act::Next(3), Act::Next(5), Act::One, Act::Collect, Act::Finish, Act::FinishInto, Act::Drop, Act::NextPastEnd, Act::Cleanup];
    let mut tag = 1;
    for depr in [true, false] {
        for a in acts {
            for prepared in [false, true] {
                for end in [End::Normal, End::Error] {
                    for rows in [0usize, 1, 3] {
                        tag += 2;
                        let s = Step { tag, prepared, again: false, rows, huge: None, broken: None, end: end.clone(), act: a };
                        let t = Step { tag: tag + 1, prepared: !prepared, again: false, rows: 2, huge: None, broken: None, end: End::Normal, act: Act::Collect };
                        history(cx, &[s.clone(), t.clone()], depr, false);
                        history(cx, &[s.clone(), Step { prepared, again: true, ..t.clone() }], depr, false);
                        if rows == 3 {
                            for b in 0..3 {
                                let s = Step { broken: Some(b), ..s.clone() };
                                history(cx, &[s, t.clone()], depr, false);
                            }
                        }
                    }
                }
            }
        }
    }
    // a row whose first byte is 0xFE ends nothing
    for (depr, act) in [(true, Act::Collect), (true, Act::Drop), (false, Act::Collect), (false, Act::Drop)] {
        if !depr && !cx.thorough && act == Act::Drop { continue; }
        let s = Step { tag: 5, prepared: false, again: false, rows: 3, huge: Some(1), broken: None, end: End::Normal, act };
        let t = Step { tag: 6, prepared: false, again: false, rows: 1, huge: None, broken: None, end: End::Normal, act: Act::Collect };
        history(cx, &[s, t], depr, false);
    }
    for _ in 0..cx.n(2500, 40000) {
        let n = 1 + cx.rng.usize(5);
        let steps: Vec<Step> = (0..n).map(|i| step(cx, 10 + i as u32)).collect();
        let depr = !cx.rng.chance(3);
        history(cx, &steps, depr, true);
        if !cx.time_left() { break; }
    }
}
