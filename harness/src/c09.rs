//! Secrecy of the password against a server that sends anything.
use crate::{authsim::*, mock::*, refcrypt, rt::*};
use mysql_connector::{types::AuthPlugin, PublicKey};
use std::sync::{Arc, Mutex};

fn answer(p: AuthPlugin, nonce: &[u8], pw: &[u8]) -> Vec<u8> {
    match p {
        AuthPlugin::Native => refcrypt::native(nonce, pw),
        AuthPlugin::Sha2 => refcrypt::sha2(nonce, pw),
        AuthPlugin::Clear => pw.to_vec(),
    }
}
#[derive(Clone, Debug)]
enum Move {
    Switch(AuthPlugin, Vec<u8>, bool),
    Raw(Vec<u8>),
    Key(usize, bool),
}
fn payload(m: &Move, keys: &[refcrypt::Key]) -> Vec<u8> {
    match m {
        Move::Switch(p, n, z) => { let mut d = n.clone(); if *z { d.push(0); } switch(plugin_name(*p), &d) }
        Move::Raw(b) => b.clone(),
        Move::Key(k, eight) => {
            let k = &keys[*k];
            let der = if *eight { refcrypt::pkcs8(&k.n, &k.e) } else { refcrypt::pkcs1(&k.n, &k.e) };
            let mut b = vec![1];
            b.extend(refcrypt::pem(&der, if *eight { "PUBLIC KEY" } else { "RSA PUBLIC KEY" }, 64, "\n"));
            b
        }
    }
}
fn contains(hay: &[u8], needle: &[u8]) -> bool { hay.windows(needle.len()).any(|w| w == needle) }

struct Case { o: Opts, pinned_key: Option<usize>, nonce: Vec<u8>, told: AuthPlugin, script: Vec<Vec<Move>> }

fn one(cx: &mut Ctx, c: &Case, keys: &[refcrypt::Key]) {
    let o = &c.o;
    let pw = o.password.as_bytes();
    let desc = format!("password {:?}, {} transport, clear text {}, pinned method {:?}, pinned key {:?}, greeting: {:?} with nonce {}, then the server sends {:?}",
        o.password, if o.secure { "secure" } else { "insecure" }, if o.clear { "allowed" } else { "refused" }, o.pin, c.pinned_key, c.told, hexs(&c.nonce), c.script);
    cx.case(&desc, c.script.iter().flatten().any(|m| !matches!(m, Move::Raw(b) if b.first() == Some(&0))));
    let g = Greeting { nonce: c.nonce.clone(), plugin: plugin_name(c.told).to_vec(), ..Default::default() };
    let replies: Vec<Vec<Vec<u8>>> = c.script.iter().map(|ms| ms.iter().map(|m| payload(m, keys)).collect()).collect();
    let told = Arc::new(Mutex::new(0usize));
    let t2 = told.clone();
    let out = attempt(o, &g.bytes(), move |i, _| { *t2.lock().unwrap() = i + 1; replies.get(i).cloned().unwrap_or_default() });
    if let Some(p) = out.panic { return cx.fail("c09-panic", format!("{p}: {desc}")); }
    if !out.bad.is_empty() { return cx.fail("c09-frames", format!("{:?}: {desc}", out.bad)); }
    let may_clear = o.clear && (o.pin.is_none() || o.pin == Some(AuthPlugin::Clear));
    if !o.secure && !may_clear && pw.len() >= 5 {
        let shown = out.sent.iter().enumerate().find(|(i, p)| if *i == 0 {
            // the user name is the user's own choice
            parse_response(p).map_or(contains(p, pw), |r| contains(&r.auth, pw) || contains(&r.rest, pw))
        } else { contains(p, pw) });
        if let Some((i, p)) = shown { return cx.fail("c09-clear", format!("packet {i} contains the password: {}: {desc}", hexs(p))); }
    }
    let first = o.pin.unwrap_or(c.told);
    let admitted = |p: AuthPlugin| (o.pin.is_none() || o.pin == Some(p)) && (p != AuthPlugin::Clear || o.clear);
    if !admitted(first) {
        cx.check(out.sent.is_empty() && out.result.is_err(), "c09-refuse", || format!("answered with {} although {first:?} is not admitted: {desc}", out.sent.iter().map(|p| hexs(p)).collect::<Vec<_>>().join(", ")));
        return;
    }
    let Some(Ok(r)) = out.sent.first().map(|p| parse_response(p)) else { return cx.fail("c09-answer", format!("no answer to the greeting: {:?}: {desc}", out.result)) };
    if !cx.check(r.auth == answer(first, &c.nonce, pw), "c09-response", || format!("response {} to the greeting: {desc}", hexs(&r.auth))) { return; }
    let mut pinned_broken = false;
    for (i, p) in out.sent.iter().enumerate().skip(1) {
        // what the server had sent before
        let before: Vec<&Move> = c.script.iter().take(i).flatten().collect();
        let switches: Vec<(AuthPlugin, &Vec<u8>)> = before.iter().filter_map(|m| match m { Move::Switch(p, n, _) => Some((*p, n)), _ => None }).collect();
        let served: Vec<usize> = before.iter().filter_map(|m| match m { Move::Key(k, _) => Some(*k), _ => None }).collect();
        let asks = !o.secure && c.pinned_key.is_none() && p == &[2u8];
        let responds = switches.iter().any(|(q, n)| admitted(*q) && { let mut a = answer(*q, n, pw); if *q == AuthPlugin::Clear { a.push(0); } *p == a });
        let mut full = pw.to_vec();
        full.push(0);
        let plain = o.secure && *p == full;
        let nonces: Vec<&Vec<u8>> = std::iter::once(&c.nonce).chain(switches.iter().map(|s| s.1)).collect();
        let sealed = || match c.pinned_key { Some(k) => vec![k], None => served }.iter().any(|k| keys[*k].open(p).is_some_and(|m| nonces.iter().any(|n| !n.is_empty() && m.len() == full.len() && m.iter().zip(&full).enumerate().all(|(i, (x, y))| *x == *y ^ n[i % n.len()]))));
        if !(asks || responds || plain || (!o.secure && sealed())) {
            return cx.fail("c09-packet", format!("packet {i} is {}: neither a response, a request for the key, nor the masked password under an admitted key: {desc}", hexs(p)));
        }
    }
    if let (Some(pin), Some(Move::Switch(p, ..))) = (o.pin, c.script.first().and_then(|s| s.first())) {
        if *p != pin { pinned_broken = true; }
    }
    if pinned_broken {
        cx.check(out.sent.len() == 1 && out.result.is_err(), "c09-pinned", || format!("a switch away from the pinned method was followed: {desc}"));
    }
}
fn gen_move(cx: &mut Ctx, keys: &[usize]) -> Move {
    let r = &mut cx.rng;
    match r.usize(14) {
        0..=2 => { let n = *r.pick(&[20usize, 20, 20, 8, 1, 0, 32]); let mut d = r.bytes(n); if let Some(x) = d.last_mut() { if *x == 0 { *x = 7 } } Move::Switch(*r.pick(&PLUGINS), d, r.bool() || n == 0) }
        3..=6 => Move::Raw(vec![1, 4]),
        7 => Move::Raw(vec![1, 3]),
        8..=9 => Move::Key(*r.pick(keys), r.bool()),
        10 => Move::Raw(ok_packet(0, 0, 2, 0)),
        11 => Move::Raw(err_packet(1045, b"28000", "no")),
        12 => { let n = r.usize(6); let mut b = r.bytes(n); if n > 0 && r.bool() { b[0] = *r.pick(&[0u8, 1, 2, 3, 4, 0xfe, 0xff]); } if b.first() == Some(&0xfe) || b.first() == Some(&1) && b.len() > 2 { b = vec![3]; } Move::Raw(b) }
        _ => Move::Raw(vec![1, r.u8()]),
    }
}
pub fn main(cx: &mut Ctx) {
    cx.rule("scripts of switches, key offers, requests for full authentication, results and noise, several packets per reply; all combinations of transport, pinned method, pinned key and clear-text permission");
    let keys = refcrypt::keys();
    let big: Vec<usize> = (0..keys.len()).filter(|k| keys[*k].octets() >= 120 && keys[*k].octets() <= 130).collect();
    let shared: Vec<Option<Arc<PublicKey>>> = keys.iter().map(|k| PublicKey::try_from_pem(&refcrypt::pem(&refcrypt::pkcs1(&k.n, &k.e), "RSA PUBLIC KEY", 64, "\n")).ok().map(Arc::new)).collect();
    cx.rule("the transport that the library brings along, and options nobody changed");
    cx.case("TcpStream, default options", true);
    cx.check(!<tokio::net::TcpStream as mysql_connector::Stream>::SECURE, "c09-tcp", || "TcpStream is declared a secure transport".into());
    let d = mysql_connector::ConnectionOptions::<tokio::net::TcpStream>::default();
    cx.check(!d.allow_cleartext_password && d.server_key.is_none() && d.auth_plugin != Some(AuthPlugin::Clear), "c09-default", || format!("default options: {d:?}"));
    let mut cases: Vec<Case> = Vec::new();
    // the ordinary courses, all configurations
    for secure in [false, true] { for clear in [false, true] { for pin in [None, Some(PLUGINS[0]), Some(PLUGINS[1]), Some(PLUGINS[2])] { for key in [None, Some(big[0])] { for told in PLUGINS {
        for to in [None, Some(PLUGINS[0]), Some(PLUGINS[1]), Some(PLUGINS[2])] {
            let o = Opts { password: "p4ssw0rd!".into(), pin, clear, secure, key: key.and_then(|k| shared[k].clone()), ..Default::default() };
            let mut script = vec![];
            if let Some(p) = to { script.push(vec![Move::Switch(p, b"zyxwvutsrqponmlkjihg".to_vec(), true)]); }
            script.push(vec![Move::Raw(vec![1, 4])]);
            if key.is_none() && !secure { script.push(vec![Move::Key(big[1], true)]); }
            script.push(vec![Move::Raw(ok_packet(0, 0, 2, 0))]);
            cases.push(Case { o, pinned_key: key, nonce: b"abcdefghijklmnopqrst".to_vec(), told, script });
        }
    } } } } }
    for c in &cases { one(cx, c, &keys); }
    for _ in 0..cx.n(12_000, 300_000) {
        let n = cx.rng.usize(30);
        let mut password = cx.rng.string(n);
        if cx.rng.usize(12) == 0 { password.clear(); }
        let pin = *cx.rng.pick(&[None, None, Some(PLUGINS[0]), Some(PLUGINS[1]), Some(PLUGINS[1]), Some(PLUGINS[2])]);
        let pinned_key = if cx.rng.usize(3) == 0 { Some(*cx.rng.pick(&big)) } else { None };
        let o = Opts { password, pin, clear: cx.rng.usize(4) == 0, secure: cx.rng.usize(4) == 0, key: pinned_key.and_then(|k| shared[k].clone()), ..Default::default() };
        let told = *cx.rng.pick(&[PLUGINS[0], PLUGINS[1], PLUGINS[1], PLUGINS[2]]);
        let len = 1 + cx.rng.usize(4);
        let mut script = Vec::new();
        for _ in 0..len { let k = 1 + cx.rng.usize(2); let mut v = Vec::new(); for _ in 0..k { v.push(gen_move(cx, &big)); } script.push(v); }
        let c = Case { o, pinned_key, nonce: cx.rng.bytes(20), told, script };
        one(cx, &c, &keys);
        if !cx.time_left() { break; }
    }
}
