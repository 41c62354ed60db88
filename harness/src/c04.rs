//! Any bytes from the server.
use {
    crate::{authsim::*, mock::*, refcrypt, rt::*, vals::*},
    mysql_connector::{types::{AuthPlugin, Value}, Connection, PreparedStatement},
    std::{io::Read as _, os::unix::fs::FileExt as _, process::{Command, Stdio}, sync::{Arc, OnceLock}, time::{Duration, Instant}},
};

static TRACE: OnceLock<std::fs::File> = OnceLock::new();

/// Notes the case about to run, for when it brings the process down.
fn trace(desc: &str) {
    if let Some(f) = TRACE.get() {
        let d = short(desc);
        let _ = f.write_at(format!("{:8}{d}", d.len()).as_bytes(), 0);
    }
}

/// Runs the search in a child process: undefined behaviour caught by the standard library aborts, and an endless loop never returns.
pub fn outer(args: &[String]) -> Option<String> {
    let path = std::env::temp_dir().join(format!("vh-c04-{}", std::process::id()));
    std::fs::write(&path, "").ok()?;
    let read = || -> String {
        let t = std::fs::read(&path).unwrap_or_default();
        let n = t.get(..8).and_then(|x| std::str::from_utf8(x).ok()).and_then(|x| x.trim().parse::<usize>().ok()).unwrap_or(0);
        String::from_utf8_lossy(t.get(8..8 + n).unwrap_or_default()).into_owned()
    };
    let mut c = Command::new(std::env::current_exe().unwrap()).args(&args[1..]).arg("--trace").arg(&path).stderr(Stdio::piped()).spawn().unwrap();
    let mut err = c.stderr.take().unwrap();
    let err = std::thread::spawn(move || { let mut s = Vec::new(); let _ = err.read_to_end(&mut s); String::from_utf8_lossy(&s).into_owned() });
    let (mut last, mut since) = (String::new(), Instant::now());
    let verdict = loop {
        if let Ok(Some(s)) = c.try_wait() {
            break if s.success() { None } else { Some(format!("{s} during {}", read())) };
        }
        let now = read();
        if now != last { last = now; since = Instant::now(); }
        if since.elapsed() > Duration::from_secs(120) {
            let _ = c.kill();
            let _ = c.wait();
            break Some(format!("no end after 120 s during {last}"));
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let _ = std::fs::remove_file(&path);
    verdict.map(|v| { let e = err.join().unwrap_or_default(); format!("{v}; {}", short(e.trim())) })
}

/// What the server says: the greeting, then the payloads that answer each payload of the client.
#[derive(Clone)]
struct Script {
    what: &'static str,
    says: Vec<Vec<Vec<u8>>>,
    opts: usize,
    plan: usize,
    /// bytes put in front of the n-th answer, outside any packet
    noise: Option<(usize, Vec<u8>)>,
    seq: Option<u8>,
}

const PLANS: usize = 9;

macro_rules! drain {
    ($q:expr) => { for _ in 0..64 { match $q.next().await { Ok(Some(r)) => { let _ = format!("{r:?}"); } _ => break } } };
}

async fn prepared(s: &mut PreparedStatement<'_>, n: usize, plan: usize) {
    let v: Vec<Value> = (0..n).map(|i| if i % 3 == 1 { Value::Null } else { Value::Int(i as i32) }).collect();
    match plan {
        0 => { let _ = s.execute(&v).await; }
        1 => if let Ok(mut q) = s.query::<Value, Vec<Value>>(&v).await { drain!(q); let _ = format!("{:?}", q.columns()); }
        2 => if let Ok(q) = s.query::<Value, Vec<Value>>(&v).await { let _ = q.finish().await; }
        _ => if let Ok(mut q) = s.query::<Value, Vec<Value>>(&v).await { let _ = q.next().await; }
    }
    let _ = s.execute(&v).await;
}

async fn commands(c: &mut Connection, plan: usize) {
    match plan {
        0 => { let _ = c.execute_query("q").await; }
        1 => if let Ok(mut q) = c.query::<Vec<Value>>("q").await { drain!(q); let _ = format!("{:?}", q.columns()); }
        2 => if let Ok(mut q) = c.query::<Vec<Value>>("q").await { let _ = q.collect().await; }
        3 => if let Ok(q) = c.query::<Vec<Value>>("q").await { let _ = q.finish().await; }
        4 => if let Ok(mut q) = c.query::<Vec<Value>>("q").await { let _ = q.one().await; }
        n => if let Ok(mut s) = c.prepare_statement("q").await { prepared(&mut s, 2, n - 5).await; }
    }
    let _ = c.execute_query("again").await;
    if let Ok(mut q) = c.query::<Vec<Value>>("more").await { drain!(q); }
}

async fn client<const S: bool>(h: &Handle, o: usize, plan: usize, key: Option<Arc<mysql_connector::PublicKey>>) {
    let mut x = options::<S>(h);
    x.password = ["", "secret", "secret", "pw"][o % 4].into();
    x.allow_cleartext_password = o % 3 == 0;
    x.auth_plugin = [None, Some(AuthPlugin::Native), None, Some(AuthPlugin::Sha2), None][o % 5];
    x.server_key = key;
    x.max_allowed_packet = if o % 7 == 6 { None } else { Some(1 << 20) };
    x.db_name = if o % 2 == 0 { Some("db".into()) } else { None };
    if let Ok(mut c) = Connection::connect(Arc::new(x)).await {
        let _ = format!("{:?}", c.data());
        commands(&mut c, plan).await;
        let _ = c.disconnect().await;
    }
}

fn play(cx: &mut Ctx, s: &Script, desc: &str, eof: bool) {
    trace(desc);
    cx.case(desc, true);
    let h = handle();
    {
        let mut sh = h.lock().unwrap();
        let mut seq = 0;
        if let Some((0, n)) = &s.noise { sh.inbox.extend(n); }
        for p in &s.says[0] { frame_into(&mut sh.inbox, p, &mut seq); }
        let says = s.says.clone();
        let noise = s.noise.clone();
        let over = s.seq;
        let mut i = 0;
        sh.server = Some(Box::new(move |w, _| {
            i += 1;
            if let Some((k, n)) = &noise { if *k == i { w.raw(n); } }
            if let Some(q) = over { if i % 3 == 2 { w.seq = q; } }
            if i < says.len() { for p in &says[i] { w.send(p); } }
            else if eof { *w.eof = true; }
        }));
        sh.eof = eof && says_short(&s.says);
    }
    let (o, plan) = (s.opts, s.plan);
    if let Err(m) = quiet(|| run(async { if o % 2 == 0 { client::<false>(&h, o / 2, plan, None).await } else { client::<true>(&h, o / 2, plan, None).await } })) {
        cx.fail("c04-panic", format!("panic \"{m}\" on {desc}"));
    }
}

fn says_short(s: &[Vec<Vec<u8>>]) -> bool { s.len() <= 1 }

const TYPES: [u8; 25] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 245, 246, 247, 252, 253, 254, 255, 249, 251];

fn cell(rng: &mut Rng, ty: u8) -> Vec<u8> {
    match ty {
        0 | 246 => b"-12.50".to_vec(),
        4 | 5 => b"1.5e3".to_vec(),
        1 | 2 | 3 | 8 | 9 | 13 => format!("{}", rng.edgy_u64() as i8).into_bytes(),
        7 | 12 => b"2024-02-29 23:59:59.123456".to_vec(),
        10 => b"2024-02-29".to_vec(),
        11 => b"-838:59:59.5".to_vec(),
        _ => rng.bytes(5),
    }
}

fn bin_cell(rng: &mut Rng, ty: u8) -> Vec<u8> {
    match ty {
        1 => rng.bytes(1),
        2 | 13 => rng.bytes(2),
        3 | 9 | 4 => rng.bytes(4),
        8 | 5 => rng.bytes(8),
        6 => vec![],
        7 | 12 => server_writes(&datetime(rng)),
        10 => server_writes(&date(rng)),
        11 => server_writes(&time(rng)),
        _ => lenenc_str(&rng.bytes(4)),
    }
}

fn result(rng: &mut Rng, binary: bool) -> Vec<Vec<u8>> {
    let n = 1 + rng.usize(11);
    let cols: Vec<Col> = (0..n).map(|i| Col::new(&format!("c{i}"), *rng.pick(&TYPES), *rng.pick(&[0u16, 0x20, 0x80, 0xffff]))).collect();
    let mut r = vec![lenenc(n as u64)];
    r.extend(cols.iter().map(|c| c.bytes()));
    for _ in 0..rng.usize(4) {
        let mut b = Vec::new();
        if binary {
            b.push(0);
            let mut map = vec![0u8; (n + 9) / 8];
            let nulls: Vec<bool> = (0..n).map(|_| rng.chance(4)).collect();
            for i in 0..n { if nulls[i] { map[(i + 2) / 8] |= 1 << ((i + 2) % 8); } }
            b.extend(map);
            for i in 0..n { if !nulls[i] { b.extend(bin_cell(rng, cols[i].ty)); } }
        } else {
            for c in &cols { if rng.chance(5) { b.push(0xfb); } else { b.extend(lenenc_str(&cell(rng, c.ty))); } }
        }
        r.push(b);
    }
    r.push(match rng.below(5) { 0 => err_packet(1317, b"70100", "interrupted"), _ => eof_packet(*rng.pick(&[2u16, 2, 0x0a, 0xffff]), 3) });
    r
}

/// A conversation that goes as the protocol has it.
fn script(rng: &mut Rng, kind: usize) -> Script {
    let plugin: &[u8] = [&b"caching_sha2_password"[..], b"mysql_native_password", b"mysql_clear_password"][rng.usize(3)];
    let g = Greeting { plugin: plugin.to_vec(), caps: if rng.chance(3) { rng.next() as u32 | caps::PROTOCOL_41 } else { caps::ALL }, version: rng.pick(&[&b"8.4.0"[..], b"5.5.5-10.11.2-MariaDB", b"5.7.44-log", b"65535.65535.65535", b"11.4.0-MariaDB-1"]).to_vec(), ..Greeting::default() };
    let ok = ok_packet(rng.edgy_u64(), rng.edgy_u64(), rng.next() as u16, 1);
    let mut s = Script { what: "", says: vec![vec![g.bytes()]], opts: rng.usize(70), plan: rng.usize(PLANS), noise: None, seq: None };
    let accepted = |s: &mut Script, rng: &mut Rng| {
        s.opts = rng.usize(35) * 2;
        s.says[0] = vec![Greeting::default().bytes()];
        s.says.push(vec![ok_packet(0, 0, 2, 0)]);
    };
    match kind {
        0 => { s.what = "greeting and acceptance"; s.says.push(vec![ok.clone()]); s.says.push(vec![ok]); }
        1 => {
            s.what = "plugin switch";
            let p: &[u8] = [&b"caching_sha2_password"[..], b"mysql_native_password", b"mysql_clear_password", b"dialog"][rng.usize(4)];
            s.says.push(vec![switch(p, &[&rng.bytes(20)[..], b"\0"].concat())]);
            s.says.push(if rng.bool() { vec![vec![1, 3], ok.clone()] } else { vec![ok.clone()] });
            s.says.push(vec![ok]);
        }
        2 => { s.what = "fast authentication"; s.opts = *rng.pick(&[4, 5]); s.says[0] = vec![Greeting::default().bytes()]; s.says.push(vec![vec![1, 3], ok]); }
        3 => { s.what = "full authentication"; s.says[0] = vec![Greeting::default().bytes()]; s.opts = *rng.pick(&[4, 4, 5]); s.says.push(vec![vec![1, 4]]); s.says.push(vec![ok.clone()]); s.says.push(vec![ok]); }
        4 => { s.what = "refused"; s.says.push(vec![err_packet(1045, b"28000", "Access denied")]); }
        5 => {
            s.what = "settings and an answer";
            s.says[0] = vec![Greeting::default().bytes()];
            s.opts = 12;
            s.says.push(vec![ok_packet(0, 0, 2, 0)]);
            s.says.push(vec![vec![1], Col::new("@@max_allowed_packet", 8, 0x20).bytes(), lenenc_str(b"16777216"), eof_packet(2, 0)]);
            s.says.push(vec![ok.clone()]);
            s.says.push(vec![ok]);
        }
        6 => { s.what = "answer to a command"; accepted(&mut s, rng); s.plan = 0; s.says.push(vec![if rng.bool() { ok } else { err_packet(1064, b"42000", "syntax") }]); let r = result(rng, false); s.says.push(r.clone()); s.says.push(r); }
        7 => { s.what = "text rows"; accepted(&mut s, rng); s.plan = 1 + rng.usize(4); let r = result(rng, false); s.says.push(r); s.says.push(vec![ok]); let r = result(rng, false); s.says.push(r); }
        _ => {
            s.what = "prepared statement";
            accepted(&mut s, rng);
            s.plan = 5 + rng.usize(4);
            let mut b = vec![0];
            b.extend((rng.next() as u32).to_le_bytes());
            let k = rng.usize(3);
            b.extend((k as u16).to_le_bytes());
            b.extend([2, 0, 0, 0, 0]);
            let mut p = vec![b];
            for i in 0..2 + k { p.push(Col::new(&format!("c{i}"), 253, 0).bytes()); }
            s.says.push(p);
            let r = if s.plan == 5 { vec![ok.clone()] } else { result(rng, true) };
            s.says.push(r);
            s.says.push(vec![ok.clone()]);
            s.says.push(vec![ok]);
            let r = result(rng, false);
            s.says.push(r);
        }
    }
    s
}

const BYTES: [u8; 12] = [0, 1, 2, 0x7f, 0x80, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0x20];

fn lengths() -> Vec<Vec<u8>> {
    let mut v = vec![vec![0xfb], vec![0xfc], vec![0xfd, 1], vec![0xfe], vec![0xff], vec![0xfc, 0xff, 0xff], vec![0xfd, 0xff, 0xff, 0xff]];
    for n in [0u64, 0x7f, 0xff, 0x7fff_ffff, 0xffff_ffff, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX - 8, u64::MAX - 1, u64::MAX] {
        let mut b = vec![0xfe];
        b.extend(n.to_le_bytes());
        v.push(b);
    }
    v
}

fn show(s: &Script) -> String {
    format!("{} (options {}, client plan {}{}{}): {}", s.what, s.opts, s.plan,
        s.noise.as_ref().map(|n| format!(", {} before answer {}", hexs(&n.1), n.0)).unwrap_or_default(),
        s.seq.map(|q| format!(", packets numbered from {q}")).unwrap_or_default(),
        s.says.iter().map(|r| r.iter().map(|p| hexs(p)).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" / "))
}

fn mutate(rng: &mut Rng, s: &mut Script) {
    for _ in 0..1 + rng.usize(3) {
        let i = if rng.chance(3) { rng.usize(s.says.len()) } else { s.says.len() - 1 - rng.usize(2.min(s.says.len())) };
        if s.says[i].is_empty() { s.says[i].push(rng.bytes(3)); }
        let r = &mut s.says[i];
        let j = rng.usize(r.len());
        match rng.below(12) {
            0 => { r.remove(j); }
            1 => { let p = r[j].clone(); r.insert(j, p); }
            2 => { let n = rng.usize(30); r.insert(j, rng.bytes(n)); }
            3 => { let n = rng.usize(30); r[j] = rng.bytes(n); }
            4 => { r[j].clear(); }
            5 => { let n = rng.usize(r[j].len() + 1); r[j].truncate(n); }
            6 => { let n = rng.usize(20); let b = rng.bytes(n); r[j].extend(b); }
            7 if !r[j].is_empty() => { let k = rng.usize(r[j].len()); let l = lengths(); let l = rng.pick(&l).clone(); let e = (k + 1).min(r[j].len()); r[j].splice(k..e, l); }
            8 => { s.seq = Some(rng.u8()); }
            9 => { let n = 1 + rng.usize(9); s.noise = Some((i, rng.bytes(n))); }
            _ if !r[j].is_empty() => { let k = rng.usize(r[j].len()); r[j][k] = if rng.bool() { *rng.pick(&BYTES) } else { rng.u8() }; }
            _ => r[j].push(0xff),
        }
    }
}

/// Every truncation of every packet of a conversation, every byte replaced, every length made extreme.
fn systematic(cx: &mut Ctx, s: &Script, full: bool) {
    play(cx, s, &show(s), true);
    for i in 0..s.says.len() {
        for j in 0..s.says[i].len() {
            let p = s.says[i][j].clone();
            for k in 0..p.len() {
                if !cx.time_left() { return; }
                let mut t = s.clone();
                t.says[i][j].truncate(k);
                play(cx, &t, &show(&t), true);
                for b in BYTES {
                    if b == p[k] || !full && cx.rng.bool() { continue; }
                    let mut t = s.clone();
                    t.says[i][j][k] = b;
                    play(cx, &t, &show(&t), true);
                }
                if full || cx.rng.chance(3) {
                    for l in lengths() {
                        if !full && cx.rng.bool() { continue; }
                        let mut t = s.clone();
                        t.says[i][j].splice(k..k + 1, l);
                        play(cx, &t, &show(&t), true);
                    }
                }
            }
        }
    }
}

/// Keys a server may send, and what encrypting for them does.
fn keys(cx: &mut Ctx) {
    let k = &refcrypt::keys()[4];
    let wrap = |der: &[u8]| refcrypt::pem(der, if der.len() % 2 == 0 { "PUBLIC KEY" } else { "RSA PUBLIC KEY" }, 64, "\n");
    let good = refcrypt::pem(&refcrypt::pkcs8(&k.n, &k.e), "PUBLIC KEY", 64, "\n");
    let mut pems: Vec<Vec<u8>> = vec![good.clone(), vec![], b"-----BEGIN PUBLIC KEY-----".to_vec(), b"-----BEGIN PUBLIC KEY----------END PUBLIC KEY-----".to_vec()];
    for (n, e) in [(0u32, 3u32), (1, 3), (15, 0), (1 << 30, 1), (0, 0), (u32::MAX, u32::MAX)] {
        pems.push(refcrypt::pem(&refcrypt::pkcs8(&n.into(), &e.into()), "PUBLIC KEY", 64, "\n"));
        pems.push(refcrypt::pem(&refcrypt::pkcs1(&n.into(), &e.into()), "RSA PUBLIC KEY", 64, "\n"));
    }
    for _ in 0..cx.n(300, 4000) {
        let mut p = good.clone();
        for _ in 0..1 + cx.rng.usize(3) {
            let i = cx.rng.usize(p.len());
            match cx.rng.below(4) { 0 => { p.truncate(i); p.push(b'-'); } 1 => { p.remove(i); } 2 => p.insert(i, *cx.rng.pick(b"A/+=-0z \n")), _ => p[i] = *cx.rng.pick(b"A/+=-0z \n\xff\0") }
        }
        pems.push(p);
        // the encoding below the text, changed
        let mut der = if cx.rng.bool() { refcrypt::pkcs8(&k.n, &k.e) } else { refcrypt::pkcs1(&k.n, &k.e) };
        for _ in 0..1 + cx.rng.usize(3) {
            let top = if cx.rng.bool() { 40.min(der.len()) } else { der.len() };
            let i = cx.rng.usize(top);
            match cx.rng.below(3) { 0 => { der.truncate(i.max(1)); } 1 => { der.remove(i); } _ => der[i] = *cx.rng.pick(&BYTES) }
            if der.is_empty() { der.push(0x30); }
        }
        pems.push(wrap(&der));
    }
    for p in pems {
        let s = Script { what: "key exchange", says: vec![vec![Greeting::default().bytes()], vec![vec![1, 4]], vec![[&[1u8][..], &p].concat()], vec![ok_packet(0, 0, 2, 0)]], opts: 4, plan: 0, noise: None, seq: None };
        let d = format!("key exchange, server sends {} = {}", hexs(&p), short(&String::from_utf8_lossy(&p)));
        play(cx, &s, &d, true);
    }
}

pub fn main(cx: &mut Ctx) {
    let args: Vec<String> = std::env::args().collect();
    if let Some(p) = args.iter().position(|a| a == "--trace").and_then(|i| args.get(i + 1)) {
        let _ = TRACE.set(std::fs::OpenOptions::new().write(true).open(p).expect("trace"));
    }
    cx.rule("Nine kinds of conversation (greeting, switch, fast and full authentication, refusal, settings, answers, text rows, prepared statements with binary rows, all column types) are played to real clients that go through every public way of reading; every packet is cut at every byte, every byte replaced and every length made extreme, packets are dropped, doubled, invented, renumbered, and keys mangled. Panics, arithmetic overflow (checked), aborts by the standard library's checks of unchecked accesses, and endless loops are failures. Non-trivial: every case.");
    let full = cx.thorough;
    for round in 0..cx.n(1, 12) {
        for kind in 0..9 {
            let s = script(&mut cx.rng, kind);
            systematic(cx, &s, full || round > 0);
        }
    }
    keys(cx);
    for _ in 0..cx.n(25000, 2_000_000) {
        let kind = cx.rng.usize(9);
        let mut s = script(&mut cx.rng, kind);
        mutate(&mut cx.rng, &mut s);
        let eof = !cx.rng.chance(8);
        play(cx, &s, &show(&s), eof);
        if !cx.time_left() { break; }
    }
}
