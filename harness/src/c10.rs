//! Challenge responses.
use crate::{authsim::*, mock::*, refcrypt, rt::*};
use mysql_connector::types::AuthPlugin;

fn answer(p: AuthPlugin, nonce: &[u8], pw: &[u8]) -> Vec<u8> {
    match p { AuthPlugin::Native => refcrypt::native(nonce, pw), _ => refcrypt::sha2(nonce, pw) }
}
fn one(cx: &mut Ctx, pw: &str, nonce: &[u8], told: AuthPlugin, pin: Option<AuthPlugin>, switch_to: Option<(AuthPlugin, Vec<u8>, bool)>) {
    let desc = format!("password {pw:?}, nonce {}, server wants {told:?}, pinned {pin:?}, switch {:?}", hexs(nonce), switch_to.as_ref().map(|(p, n, z)| (p, hexs(n), z)));
    cx.case(&desc, !pw.is_empty());
    let o = Opts { password: pw.into(), pin, ..Default::default() };
    let g = Greeting { nonce: nonce.to_vec(), plugin: plugin_name(told).to_vec(), ..Default::default() };
    let sw = switch_to.clone();
    let out = attempt(&o, &g.bytes(), move |i, _| match (&sw, i) {
        (Some((p, n, zero)), 0) => { let mut d = n.clone(); if *zero { d.push(0); } vec![switch(plugin_name(*p), &d)] }
        (Some((AuthPlugin::Sha2, ..)), 1) | (None, 0) if sw.is_some() || told == AuthPlugin::Sha2 => vec![vec![1, 3], ok_packet(0, 0, 2, 0)],
        _ => vec![ok_packet(0, 0, 2, 0)],
    });
    if let Some(p) = out.panic { return cx.fail("c10-panic", format!("{p} on {desc}")); }
    let first = pin.unwrap_or(told);
    let Some(Ok(r)) = out.sent.first().map(|p| parse_response(p)) else { return cx.fail("c10-answer", format!("no answer to the greeting: {:?}, {desc}", out.result)) };
    cx.check(r.auth == answer(first, nonce, pw.as_bytes()), "c10-greeting", || format!("response {} to the greeting: {desc}", hexs(&r.auth)));
    if first == AuthPlugin::Native && !pw.is_empty() {
        let stored = refcrypt::sha1(&[&refcrypt::sha1(&[pw.as_bytes()])]);
        cx.check(refcrypt::native_verifies(nonce, &stored, &r.auth), "c10-verify", || format!("the server refuses {}: {desc}", hexs(&r.auth)));
    }
    if let Some((p, n, _)) = switch_to {
        if pin.is_some_and(|q| q != p) { return; }
        let Some(got) = out.sent.get(1) else { return cx.fail("c10-answer", format!("no answer to the switch: {:?}, {desc}", out.result)) };
        cx.check(*got == answer(p, &n, pw.as_bytes()), "c10-switch", || format!("response {} to the switch: {desc}", hexs(got)));
    }
}
pub fn main(cx: &mut Ctx) {
    cx.rule("passwords of all lengths around the hash block sizes, with and without multi-byte characters; nonces with zero and high bytes; greeting and switch, pinned and free");
    let two = [AuthPlugin::Native, AuthPlugin::Sha2];
    let fixed = b"\x01bcdefghijklmnopqrs\x7f";
    for n in 0..140usize {
        let pw: String = (0..n).map(|i| char::from(b'!' + (i * 7 % 90) as u8)).collect();
        for p in two { one(cx, &pw, fixed, p, None, None); one(cx, &pw, fixed, p, Some(p), None); }
    }
    cx.rule("whole logins with a server that checks every answer: both methods, switches, full authentication with the served and the pinned key and on a secure transport");
    let l = Logins::new();
    for _ in 0..cx.n(1500, 20_000) {
        let c = l.course(cx, End::Ok);
        l.check(cx, "c10-login", &c);
        if !cx.time_left() { break; }
    }
    for i in 0..cx.n(40_000, 600_000) {
        let pw = if i % 17 == 0 { String::new() } else { let n = cx.rng.usize(40); cx.rng.string(n) };
        let mut nonce = cx.rng.bytes(20);
        match i % 5 { 0 => nonce[19] = 0, 1 => nonce[0] = 0, 2 => nonce = vec![0; 20], 3 => nonce[7] = 0, _ => {} }
        let told = *cx.rng.pick(&two);
        let pin = *cx.rng.pick(&[None, None, Some(two[0]), Some(two[1])]);
        let sw = if cx.rng.usize(2) == 0 { None } else {
            let n = *cx.rng.pick(&[20usize, 20, 20, 8, 1, 0, 21, 64]);
            let mut d = cx.rng.bytes(n);
            let zero = n == 0 || cx.rng.usize(3) > 0;
            if !zero && d[n - 1] == 0 { d[n - 1] = 1; }
            Some((pin.unwrap_or(*cx.rng.pick(&two)), d, zero))
        };
        // a NUL would end the password early on a server, but the formulas take any bytes
        one(cx, &pw, &nonce, told, pin, sw);
        if !cx.time_left() { break; }
    }
}
