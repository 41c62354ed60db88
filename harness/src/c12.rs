//! Classification of replies.
use {
    crate::{mock::*, rt::*},
    mysql_connector::{error::{Error, ProtocolError}, types::Value, Connection},
};

#[derive(Clone, Debug)]
enum Reply {
    Ok { rows: u64, id: u64, status: u16, warnings: u16, msg: Option<String> },
    Err { code: u16, state: [u8; 5], msg: String },
    /// whatever starts like this
    Other(Vec<u8>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via { Execute, Query, Prepare, StmtExecute, StmtQuery, RowsEnd, StmtRowsEnd, AfterDefs }

#[derive(Debug)]
enum Seen {
    Ok(u64, u64, u16, u16, Option<String>),
    Server(String),
    Rows(usize),
    Prepared,
    Unexpected,
    Protocol(String),
    Runtime,
}

fn ok_bytes(r: &Reply, p41: bool) -> Vec<u8> {
    match r {
        Reply::Ok { rows, id, status, warnings, msg } => {
            let mut b = ok_packet(*rows, *id, *status, *warnings);
            if let Some(m) = msg { b.extend(lenenc_str(m.as_bytes())); }
            b
        }
        Reply::Err { code, state, msg } => {
            if p41 { err_packet(*code, state, msg) } else {
                let mut b = vec![0xff];
                b.extend(code.to_le_bytes());
                b.extend(msg.as_bytes());
                b
            }
        }
        Reply::Other(b) => b.clone(),
    }
}

macro_rules! see_ok {
    ($o:expr) => {{
        let o = $o;
        Seen::Ok(o.affected_rows(), o.last_insert_id(), o.status().bits(), o.warnings(), o.message().cloned())
    }};
}

fn see_err(e: Error) -> Seen {
    match e {
        Error::Server(x) => Seen::Server(format!("{x:?}")),
        Error::Protocol(ProtocolError::UnexpectedPacket(_)) => Seen::Unexpected,
        Error::Protocol(x) => Seen::Protocol(short(&format!("{x:?}"))),
        Error::Runtime(_) => Seen::Runtime,
    }
}

async fn drive(c: &mut Connection, via: Via) -> Seen {
    let r: Result<Seen, Error> = async {
        Ok(match via {
            Via::Execute => see_ok!(&c.execute_query("q").await?),
            Via::Query | Via::RowsEnd | Via::AfterDefs => {
                let mut s = c.query::<Vec<Value>>("q").await?;
                let n = s.collect().await?.len();
                if via == Via::Query && n > 0 { Seen::Rows(n) } else { see_ok!(&s.finish().await?) }
            }
            Via::Prepare => { c.prepare_statement("q").await?; Seen::Prepared }
            Via::StmtExecute => { let mut s = c.prepare_statement("p").await?; see_ok!(&s.execute::<Value>(&[]).await?) }
            Via::StmtQuery | Via::StmtRowsEnd => {
                let mut s = c.prepare_statement("p").await?;
                let mut r = s.query::<Value, Vec<Value>>(&[]).await?;
                let _ = r.collect().await?;
                see_ok!(&r.finish().await?)
            }
        })
    }.await;
    r.unwrap_or_else(see_err)
}

fn case(cx: &mut Ctx, via: Via, reply: Reply, p41: bool, depr: bool, jit: bool) {
    let h = handle();
    if jit { jitter(&h, &mut cx.rng); }
    let desc = format!("{via:?} answered by {reply:?} (protocol 41: {p41}, DEPRECATE_EOF: {depr})");
    cx.case(&desc, true);
    let bytes = ok_bytes(&reply, p41);
    let end = match (&reply, via) {
        // the packet at the end of the rows carries the status and warnings
        (Reply::Ok { status, warnings, msg, .. }, Via::RowsEnd | Via::StmtRowsEnd) => {
            if depr {
                let mut b = eof_packet(*status, *warnings);
                if let Some(m) = msg { b.extend(lenenc_str(m.as_bytes())); }
                Some(b)
            } else {
                let mut b = vec![0xfe];
                b.extend(warnings.to_le_bytes());
                b.extend(status.to_le_bytes());
                Some(b)
            }
        }
        _ => None,
    };
    let mut g = Greeting::default();
    if !p41 { g.caps &= !caps::PROTOCOL_41; }
    if !depr { g.caps &= !caps::DEPRECATE_EOF; }
    let old_eof = [0xfe, 0, 0, 2, 0];
    let r = quiet(|| run(async {
        let mut c = connected_with(&h, &g, move |w, p| {
            match p[0] {
                0x16 if via != Via::Prepare => { prepare_ok(w, 1, 0, 0); return; }
                _ => {}
            }
            match via {
                Via::RowsEnd | Via::StmtRowsEnd => {
                    send_columns(w, &[Col::new("c", 3, 0)]);
                    if !depr { w.send(&old_eof); }
                    if via == Via::RowsEnd { w.send(&[1, b'7']); } else { w.send(&[0, 0, 7, 0, 0, 0]); }
                    w.send(end.as_ref().unwrap_or(&bytes));
                }
                Via::AfterDefs => {
                    send_columns(w, &[Col::new("c", 3, 0)]);
                    if !depr { w.send(&old_eof); }
                    w.send(&bytes);
                }
                _ => w.send(&bytes),
            }
        }).await;
        drive(&mut c, via).await
    }));
    let seen = match r {
        Err(m) => { cx.fail("c12-panic", format!("{desc}: panic {m}")); return; }
        Ok(s) => s,
    };
    match &reply {
        Reply::Ok { rows, id, status, warnings, msg } => {
            let st = status & 0xfffb;
            let m = msg.clone().filter(|m| !m.is_empty());
            let want = if matches!(via, Via::RowsEnd | Via::StmtRowsEnd) { (0, 0, st, *warnings, if depr { m } else { None }) } else { (*rows, *id, st, *warnings, m) };
            let ok = match &seen { Seen::Ok(a, b, c, d, e) => {
                (*a, *b, c & 0xfffb, *d, e.clone()) == want }, _ => false };
            cx.check(ok, "c12-ok", || format!("{desc}: reported {seen:?}, expected {want:?}"));
        }
        Reply::Err { code, state, msg } => {
            let state = if p41 { format!("state: {:?}, ", std::str::from_utf8(state).unwrap()) } else { String::new() };
            let want = format!("ErrorPacket {{ code: {code}, {state}message: {msg:?} }}");
            let ok = matches!(&seen, Seen::Server(s) if s.contains(&want));
            cx.check(ok, "c12-err", || format!("{desc}: reported {seen:?}"));
        }
        Reply::Other(b) => {
            let ok = match via {
                Via::Execute | Via::StmtExecute | Via::Prepare => if b.is_empty() { !matches!(seen, Seen::Ok(..) | Seen::Server(..) | Seen::Prepared) } else { matches!(seen, Seen::Unexpected) },
                // a result set header announces rows that never come, a local infile request is refused
                Via::Query | Via::StmtQuery => !matches!(seen, Seen::Ok(..) | Seen::Server(..)) && (b.first() != Some(&0xfb) || matches!(seen, Seen::Unexpected)),
                _ => true,
            };
            cx.check(ok, "c12-other", || format!("{desc}: reported {seen:?}"));
        }
    }
}

const ALL: [Via; 8] = [Via::Execute, Via::Query, Via::Prepare, Via::StmtExecute, Via::StmtQuery, Via::RowsEnd, Via::StmtRowsEnd, Via::AfterDefs];

fn random(cx: &mut Ctx, rows_end: bool) -> Reply {
    match cx.rng.below(3) {
        0 => Reply::Ok {
            rows: cx.rng.edgy_u64(), id: cx.rng.edgy_u64(), status: cx.rng.next() as u16, warnings: cx.rng.next() as u16,
            msg: match cx.rng.below(3) { 0 => None, 1 => Some(String::new()), _ => Some(cx.rng.string(12)) },
        },
        1 => Reply::Err {
            code: if cx.rng.chance(4) { *cx.rng.pick(&[0, 1, 255, 256, 0xfffe, 0xffff]) } else { cx.rng.next() as u16 },
            state: { let mut s = *b"42S02"; for x in s.iter_mut() { *x = *cx.rng.pick(b"0123456789HYZS"); } s },
            msg: cx.rng.string(30),
        },
        _ => {
            let mut b = vec![1 + cx.rng.below(254) as u8];
            let n = cx.rng.usize(12);
            b.extend(cx.rng.bytes(n));
            if rows_end { Reply::Err { code: 1, state: *b"HY000", msg: String::new() } } else { Reply::Other(b) }
        }
    }
}

pub fn main(cx: &mut Ctx) {
    cx.rule("Every kind of request (text query, execution, preparation, prepared execution, end of rows, error instead of rows) is answered by OK packets with edge-case lengths and status bits, by error packets of every form, and by every other first byte; what the caller gets is compared with what was sent. Non-trivial: every case.");
    for via in ALL {
        for depr in [true, false] {
            for p41 in [true, false] {
                let e = Reply::Err { code: 1146, state: *b"42S02", msg: "no such table".into() };
                case(cx, via, e, p41, depr, false);
                case(cx, via, Reply::Err { code: 0xffff, state: *b"00000", msg: String::new() }, p41, depr, false);
                case(cx, via, Reply::Err { code: 0, state: *b"HY000", msg: "#42000".into() }, p41, depr, false);
            }
            if matches!(via, Via::Prepare | Via::AfterDefs) { continue; }
            for n in [0u64, 1, 250, 251, 255, 256, 65535, 65536, 0xff_ffff, 0x100_0000, u32::MAX as u64, u64::MAX] {
                case(cx, via, Reply::Ok { rows: n, id: 7, status: 2, warnings: 0, msg: None }, true, depr, false);
                case(cx, via, Reply::Ok { rows: 3, id: n, status: 0x22, warnings: 513, msg: Some("x".into()) }, true, depr, false);
            }
            for k in 0..16 {
                if k == 3 { continue; } // more results follow
                case(cx, via, Reply::Ok { rows: 1, id: 2, status: 1 << k, warnings: 1 << k, msg: None }, true, depr, false);
            }
        }
    }
    for via in [Via::Execute, Via::StmtExecute, Via::Query, Via::StmtQuery, Via::Prepare] {
        case(cx, via, Reply::Other(vec![]), true, true, false);
        for b in 1..=254u8 {
            for n in [0usize, 8] {
                let mut v = vec![b];
                v.extend(vec![b; n]);
                case(cx, via, Reply::Other(v), true, true, false);
            }
        }
    }
    cx.rule("Logins whose last reply is OK, ERR, a second switch or anything else, at every point where the server may decide.");
    let l = crate::authsim::Logins::new();
    for i in 0..cx.n(1500, 20_000) {
        use {crate::authsim::End, mysql_connector::types::AuthPlugin};
        let end = match i % 5 {
            0 => End::Ok,
            1 | 2 => End::Err(if cx.rng.chance(4) { *cx.rng.pick(&[0, 1, 255, 256, 0xfffe]) } else { cx.rng.next() as u16 & 0x7fff }, cx.rng.string(20)),
            3 => { let mut b = vec![2 + cx.rng.below(252) as u8]; let n = cx.rng.usize(9); b.extend(cx.rng.bytes(n)); End::Other(b) }
            _ => End::Switch,
        };
        let mut c = l.course(cx, end);
        if matches!(c.end, End::Switch) {
            if c.switch.is_none() { c.switch = Some((*cx.rng.pick(&[AuthPlugin::Native, AuthPlugin::Sha2]), b"abcdefghijklmnopqrst".to_vec())); }
        } else if !matches!(c.end, End::Ok) && cx.rng.bool() {
            c.early = Some(cx.rng.below(2) as u8);
        }
        l.check(cx, "c12-login", &c);
        if !cx.time_left() { break; }
    }
    for _ in 0..cx.n(4000, 60000) {
        let via = *cx.rng.pick(&ALL);
        let mut r = random(cx, matches!(via, Via::RowsEnd | Via::StmtRowsEnd | Via::AfterDefs));
        if let Reply::Ok { status, .. } = &mut r { *status &= !8; }
        if matches!(via, Via::Prepare | Via::AfterDefs) && matches!(r, Reply::Ok { .. }) { continue; }
        let p41 = !cx.rng.chance(4);
        let depr = !cx.rng.chance(3);
        case(cx, via, r, p41, depr, true);
        if !cx.time_left() { break; }
    }
}
