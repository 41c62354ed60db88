//! Greeting and its answer.
use crate::{authsim::*, mock::*, refcrypt, rt::*};
use mysql_connector::types::AuthPlugin;

fn answer(p: AuthPlugin, nonce: &[u8], pw: &[u8]) -> Vec<u8> {
    match p { AuthPlugin::Native => refcrypt::native(nonce, pw), AuthPlugin::Sha2 => refcrypt::sha2(nonce, pw), AuthPlugin::Clear => pw.to_vec() }
}
#[derive(Debug)]
struct Case { g: Greeting, o: (String, String, Option<String>, Option<AuthPlugin>, usize), told: AuthPlugin, version: ((u16, u16, u16), bool) }

fn one(cx: &mut Ctx, c: &Case) {
    let (user, password, db, pin, max) = &c.o;
    let desc = format!("greeting: version {:?}, id {}, nonce {}, capabilities {:#x}, status {:#x}, length byte {}, method {:?}{}; options: user {user:?}, password {password:?}, database {db:?}, pinned {pin:?}, packet limit {max}",
        String::from_utf8_lossy(&c.g.version), c.g.id, hexs(&c.g.nonce), c.g.caps, c.g.status, c.g.auth_len, String::from_utf8_lossy(&c.g.plugin), if c.g.plugin_nul { "" } else { " without NUL" });
    cx.case(&desc, c.g.caps != caps::ALL || db.is_some() || c.g.id != 7);
    let o = Opts { user: user.clone(), password: password.clone(), db: db.clone(), pin: *pin, clear: true, secure: false, key: None, max: Some(*max) };
    let out = attempt(&o, &c.g.bytes(), |i, _| if i == 0 { vec![ok_packet(0, 0, 2, 0)] } else { vec![] });
    if let Some(p) = out.panic { return cx.fail("c19-panic", format!("{p}: {desc}")); }
    if !out.bad.is_empty() { return cx.fail("c19-frames", format!("{:?}: {desc}", out.bad)); }
    let d = match &out.result { Ok(d) => d, Err(e) => return cx.fail("c19-connect", format!("{e}: {desc}")) };
    cx.check(d.id == c.g.id, "c19-id", || format!("connection id {}: {desc}", d.id));
    cx.check((d.version, d.mariadb) == c.version, "c19-version", || format!("version {:?}, {}: {desc}", d.version, d.mariadb));
    cx.check(d.caps & !c.g.caps == 0, "c19-caps", || format!("capabilities {:#x} in use: {desc}", d.caps));
    // what the client relies on once a server offers it
    for (f, name) in [(caps::PROTOCOL_41, "PROTOCOL_41"), (caps::SECURE_CONNECTION, "SECURE_CONNECTION"), (caps::PLUGIN_AUTH, "PLUGIN_AUTH"), (caps::DEPRECATE_EOF, "DEPRECATE_EOF")] {
        if d.caps & f != c.g.caps & f { cx.fail("c19-caps-lost", format!("{name} is offered and supported but not in use: {desc}")); }
    }
    if out.sent.len() != 1 { return cx.fail("c19-answers", format!("{} packets: {desc}", out.sent.len())); }
    let r = match parse_response(&out.sent[0]) { Ok(r) => r, Err(e) => return cx.fail("c19-unreadable", format!("{e} in {}: {desc}", hexs(&out.sent[0]))) };
    let first = pin.unwrap_or(c.told);
    let optional = caps::PLUGIN_AUTH | caps::CONNECT_WITH_DB;
    cx.check(r.caps & !optional == d.caps & !optional, "c19-announced", || format!("announces {:#x}, uses {:#x}: {desc}", r.caps, d.caps));
    cx.check(r.user == user.as_bytes(), "c19-user", || format!("user {}: {desc}", hexs(&r.user)));
    cx.check(r.db.as_deref() == db.as_deref().map(|x| x.as_bytes()), "c19-db", || format!("database {:?}: {desc}", r.db.as_ref().map(|x| hexs(x))));
    cx.check(r.plugin.as_deref() == Some(plugin_name(first)), "c19-plugin", || format!("method {:?}: {desc}", r.plugin.as_ref().map(|x| String::from_utf8_lossy(x).into_owned())));
    let mut nonce = c.g.nonce.clone();
    if c.g.caps & caps::SECURE_CONNECTION == 0 { nonce[8..].fill(0); }
    cx.check(r.auth == answer(first, &nonce, password.as_bytes()), "c19-nonce", || format!("response {} does not belong to the nonce: {desc}", hexs(&r.auth)));
    cx.check(r.max == *max as u32, "c19-max", || format!("packet limit {}: {desc}", r.max));
    let cs = if c.version.0 >= (5, 5, 3) { 45 } else { 33 };
    cx.check(r.collation == cs, "c19-collation", || format!("collation {}: {desc}", r.collation));
    cx.check(r.rest.is_empty(), "c19-rest", || format!("{} follow: {desc}", hexs(&r.rest)));
}
/// Greetings that are no greetings: an error and silence.
fn broken(cx: &mut Ctx, bytes: &[u8], what: &str) {
    let desc = format!("{what}: {}", hexs(bytes));
    cx.case(&desc, true);
    let out = attempt(&Opts::default(), bytes, |_, _| vec![ok_packet(0, 0, 2, 0)]);
    if let Some(p) = out.panic { return cx.fail("c19-panic", format!("{p}: {desc}")); }
    cx.check(out.result.is_err() && out.sent.is_empty(), "c19-accepted", || format!("accepted as a greeting: {desc}"));
}
fn text(cx: &mut Ctx, n: usize) -> String { cx.rng.string(n).replace('\0', "0") }
/// Without a limit of the user's the server is asked for its own.
fn limit(cx: &mut Ctx) {
    let n = 1 + cx.rng.usize(4);
    let at = if cx.rng.usize(4) == 0 { None } else { Some(cx.rng.usize(n)) };
    let rows = cx.rng.usize(3);
    let vals: Vec<u64> = (0..n * 3).map(|_| cx.rng.edgy_u64()).collect();
    let desc = format!("no packet limit set; the server answers the question for its own with {rows} rows of {n} columns, @@max_allowed_packet being number {at:?}, values {vals:?}");
    cx.case(&desc, at.is_some() && rows > 0);
    let o = Opts { max: None, clear: true, pin: None, ..Default::default() };
    let v2 = vals.clone();
    let out = attempt(&o, &Greeting::default().bytes(), move |i, _| {
        if i == 0 { return vec![ok_packet(0, 0, 2, 0)]; }
        if i > 1 { return vec![]; }
        let mut r = vec![vec![n as u8]];
        for k in 0..n { r.push(Col::new(if Some(k) == at { "@@max_allowed_packet" } else { "@@max_connections" }, 8, 0x20).bytes()); }
        for row in 0..rows { r.push((0..n).flat_map(|k| lenenc_str(v2[row * n + k].to_string().as_bytes())).collect()); }
        r.push(eof_packet(2, 0));
        r
    });
    if let Some(p) = out.panic { return cx.fail("c19-limit-panic", format!("{p}: {desc}")); }
    let mut q = vec![3u8];
    q.extend(b"select @@max_allowed_packet");
    cx.check(out.bad.is_empty() && out.sent.len() == 2 && out.sent[1] == q, "c19-limit-ask", || format!("the client sent {:?}: {desc}", out.sent.iter().map(|p| hexs(p)).collect::<Vec<_>>()));
    let want = match at { Some(k) if rows > 0 => vals[k] as usize, _ => 4 << 20 };
    cx.check(matches!(&out.result, Ok(d) if d.max == want), "c19-limit", || format!("{:?}, expected the limit {want}: {desc}", out.result));
}

pub fn main(cx: &mut Ctx) {
    cx.rule("the server's packet limit, asked for when the user set none");
    for _ in 0..cx.n(300, 5_000) { limit(cx); }
    cx.rule("greetings with all capability subsets, versions, nonces, length bytes and methods, against all user options; cut and malformed greetings");
    let g = Greeting::default();
    let full = g.bytes();
    for n in 0..full.len() - g.plugin.len() - 1 { broken(cx, &full[..n], "a greeting that was cut off"); }
    for n in 1..g.plugin.len() { broken(cx, &full[..full.len() - 1 - n], "a greeting whose method was cut off"); }
    broken(cx, &Greeting { plugin: b"dialog".to_vec(), ..g.clone() }.bytes(), "a greeting with an unknown method");
    broken(cx, &Greeting { version: b"8.0\xff".to_vec(), ..g.clone() }.bytes(), "a version that is no text");
    for i in 0..cx.n(40_000, 600_000) {
        let numbers = [0u16, 1, 5, 8, 10, 99, 255, 256, 65535];
        let v = match cx.rng.usize(4) {
            0 => (5, *cx.rng.pick(&[4u16, 5, 6, 7]), *cx.rng.pick(&[0u16, 2, 3, 4])),
            1 => (*cx.rng.pick(&[4u16, 5, 6]), *cx.rng.pick(&[4u16, 5, 6]), *cx.rng.pick(&[2u16, 3])),
            _ => (*cx.rng.pick(&numbers), *cx.rng.pick(&numbers), cx.rng.next() as u16),
        };
        let (tail, maria) = *cx.rng.pick(&[("", false), ("-log", false), ("-MariaDB", true), ("-MariaDB-1~jammy", true), ("-0ubuntu0.22.04.1", false), ("-mariadb", false), (".1-MariaDB", false), ("+x", false), (" MariaDB", true)]);
        let told = *cx.rng.pick(&PLUGINS);
        let mut c = cx.rng.next() as u32;
        match i % 4 { 0 => c |= caps::ALL, 1 => c |= caps::ALL & !caps::SECURE_CONNECTION, 2 => c |= caps::SECURE_CONNECTION, _ => {} }
        c |= caps::PROTOCOL_41;
        let told_or = if c & caps::PLUGIN_AUTH == 0 { AuthPlugin::Native } else { told };
        let mut nonce = cx.rng.bytes(20);
        if i % 7 == 0 { nonce[19] = 0; }
        let mut status = cx.rng.next() as u16 & 0xfffb;
        if i % 3 == 0 { status = 2; }
        let pin = *cx.rng.pick(&[None, None, Some(PLUGINS[0]), Some(PLUGINS[1])]);
        let first = pin.unwrap_or(told_or);
        let pw = if i % 9 == 0 { String::new() } else { text(cx, 30) };
        // a response that a zero byte ends cannot hold one
        if c & caps::SECURE_CONNECTION == 0 { let mut n = nonce.clone(); n[8..].fill(0); if answer(first, &n, pw.as_bytes()).contains(&0) { continue; } }
        let db = if cx.rng.bool() { Some(text(cx, 20)) } else { None };
        let user = text(cx, 40);
        let max = *cx.rng.pick(&[1usize << 24, 0, 1, 0xff_ffff, 4 << 20, 0xffff_ffff, 123_456_789]);
        let case = Case {
            g: Greeting {
                version: format!("{}.{}.{}{}", v.0, v.1, v.2, tail).into_bytes(), id: cx.rng.next() as u32, nonce, caps: c, collation: cx.rng.u8(), status,
                plugin: plugin_name(told).to_vec(), plugin_nul: cx.rng.bool(), auth_len: *cx.rng.pick(&[21u8, 21, 21, 20, 8, 0, 9, 22, 40, 255]),
            },
            o: (user, pw, db, pin, max), told: told_or, version: (v, maria),
        };
        one(cx, &case);
        if !cx.time_left() { break; }
    }
}
