//! One authentication attempt against a scripted server.
use {
    crate::{mock::*, rt::*},
    mysql_connector::{types::AuthPlugin, Connection, PublicKey},
    std::sync::{Arc, Mutex},
};

#[derive(Clone)]
pub struct Opts {
    pub user: String,
    pub password: String,
    pub db: Option<String>,
    pub pin: Option<AuthPlugin>,
    pub clear: bool,
    pub secure: bool,
    pub key: Option<Arc<PublicKey>>,
    pub max: Option<usize>,
}
impl Default for Opts {
    fn default() -> Self { Opts { user: "user".into(), password: "secret".into(), db: None, pin: None, clear: false, secure: false, key: None, max: Some(1 << 24) } }
}
pub fn plugin_name(p: AuthPlugin) -> &'static [u8] {
    match p {
        AuthPlugin::Clear => b"mysql_clear_password",
        AuthPlugin::Native => b"mysql_native_password",
        AuthPlugin::Sha2 => b"caching_sha2_password",
    }
}
pub const PLUGINS: [AuthPlugin; 3] = [AuthPlugin::Native, AuthPlugin::Sha2, AuthPlugin::Clear];

#[derive(Debug)]
pub struct Data { pub id: u32, pub version: (u16, u16, u16), pub mariadb: bool, pub caps: u32, pub max: usize, pub debug: String }
pub struct Outcome {
    /// payloads the client sent, in order
    pub sent: Vec<Vec<u8>>,
    pub log: Vec<u8>,
    pub bad: Vec<String>,
    /// Ok: the connection was set up
    pub result: Result<Data, String>,
    pub panic: Option<String>,
}

async fn go<const S: bool>(h: &Handle, o: &Opts) -> Result<Data, String> {
    let mut x = options::<S>(h);
    x.user = o.user.clone();
    x.password = o.password.clone();
    x.db_name = o.db.clone();
    x.auth_plugin = o.pin;
    x.allow_cleartext_password = o.clear;
    x.server_key = o.key.clone();
    x.max_allowed_packet = o.max;
    match Connection::connect(Arc::new(x)).await {
        Ok(c) => {
            let d = c.data();
            Ok(Data { id: d.id(), version: d.version(), mariadb: d.is_mariadb(), caps: d.capabilities().bits(), max: d.max_allowed_packet(), debug: format!("{d:?}") })
        }
        Err(e) => Err(format!("{e:?}")),
    }
}

/// `server` gets the number of the client's payload and the payload, and returns the payloads it answers.
pub fn attempt(o: &Opts, greeting: &[u8], mut server: impl FnMut(usize, &[u8]) -> Vec<Vec<u8>> + Send + 'static) -> Outcome {
    let h = handle();
    {
        let mut s = h.lock().unwrap();
        let mut seq = 0;
        let f = frame(greeting, &mut seq);
        s.inbox.extend(f);
        let mut i = 0;
        s.server = Some(Box::new(move |w, p| {
            for x in server(i, p) { w.send(&x); }
            i += 1;
        }));
    }
    let got: Mutex<Option<Result<Data, String>>> = Mutex::new(None);
    let panic = quiet(|| run(async { let r = if o.secure { go::<true>(&h, o).await } else { go::<false>(&h, o).await }; *got.lock().unwrap() = Some(r); })).err();
    let s = h.lock().unwrap_or_else(|e| e.into_inner());
    let result = got.lock().unwrap().take().unwrap_or_else(|| Err("panic".into()));
    Outcome { sent: s.payloads.iter().map(|p| p.1.clone()).collect(), log: s.log.clone(), bad: s.bad.clone(), result, panic }
}

#[derive(Debug, PartialEq, Clone)]
pub struct Response {
    pub caps: u32,
    pub max: u32,
    pub collation: u8,
    pub user: Vec<u8>,
    pub auth: Vec<u8>,
    pub db: Option<Vec<u8>>,
    pub plugin: Option<Vec<u8>>,
    pub rest: Vec<u8>,
}
/// The answer to a greeting as a server reads it (protocol 41).
pub fn parse_response(p: &[u8]) -> Result<Response, String> {
    if p.len() < 32 { return Err("too short".into()); }
    let caps = u32::from_le_bytes(p[..4].try_into().unwrap());
    let max = u32::from_le_bytes(p[4..8].try_into().unwrap());
    if p[9..32].iter().any(|b| *b != 0) { return Err("filler is not zero".into()); }
    let mut rest = &p[32..];
    fn nul<'a>(r: &mut &'a [u8]) -> Result<&'a [u8], String> {
        let i = r.iter().position(|b| *b == 0).ok_or("unterminated")?;
        let s = &r[..i];
        *r = &r[i + 1..];
        Ok(s)
    }
    fn take<'a>(r: &mut &'a [u8], n: usize) -> Result<&'a [u8], String> {
        if r.len() < n { return Err("truncated".into()); }
        let (a, b) = r.split_at(n);
        *r = b;
        Ok(a)
    }
    let user = nul(&mut rest)?.to_vec();
    let auth = if caps & caps::LENENC != 0 {
        let n = match take(&mut rest, 1)?[0] {
            n @ 0..=250 => n as usize,
            0xfc => { let b = take(&mut rest, 2)?; b[0] as usize | (b[1] as usize) << 8 }
            _ => return Err("length".into()),
        };
        take(&mut rest, n)?.to_vec()
    } else if caps & caps::SECURE_CONNECTION != 0 {
        let n = take(&mut rest, 1)?[0] as usize;
        take(&mut rest, n)?.to_vec()
    } else {
        nul(&mut rest)?.to_vec()
    };
    let db = if caps & caps::CONNECT_WITH_DB != 0 { Some(nul(&mut rest)?.to_vec()) } else { None };
    let plugin = if caps & caps::PLUGIN_AUTH != 0 { Some(nul(&mut rest)?.to_vec()) } else { None };
    if caps & caps::CONNECT_ATTRS != 0 { return Err("attributes were announced".into()); }
    Ok(Response { caps, max, collation: p[8], user, auth, db, plugin, rest: rest.to_vec() })
}
pub fn switch(plugin: &[u8], data: &[u8]) -> Vec<u8> {
    let mut b = vec![0xfe];
    b.extend(plugin);
    b.push(0);
    b.extend(data);
    b
}

/// What the server says when everything was proved.
#[derive(Clone, Debug)]
pub enum End { Ok, Err(u16, String), Other(Vec<u8>), Switch }
/// One login with a server that plays by the rules.
#[derive(Clone, Debug)]
pub struct Course {
    pub pw: String,
    pub told: AuthPlugin,
    pub nonce: Vec<u8>,
    pub switch: Option<(AuthPlugin, Vec<u8>)>,
    /// caching_sha2_password: the server does not know the password yet and wants all of it
    pub full: bool,
    pub secure: bool,
    pub pinned_key: bool,
    pub key: usize,
    /// the server refuses at the point where it would ask for the password or hand out its key
    pub early: Option<u8>,
    pub end: End,
}
pub fn challenge_response(p: AuthPlugin, nonce: &[u8], pw: &[u8]) -> Vec<u8> {
    match p {
        AuthPlugin::Native => crate::refcrypt::native(nonce, pw),
        AuthPlugin::Sha2 => crate::refcrypt::sha2(nonce, pw),
        AuthPlugin::Clear => pw.to_vec(),
    }
}
pub struct Server {
    c: Course,
    keys: Arc<Vec<crate::refcrypt::Key>>,
    stage: u8,
    nonce: Vec<u8>,
    pub wrong: Option<String>,
    pub ended: bool,
}
impl Server {
    fn end(&mut self, at: u8) -> Vec<u8> {
        let _ = at;
        self.ended = true;
        match &self.c.end {
            End::Ok => ok_packet(0, 0, 2, 0),
            End::Err(c, m) => err_packet(*c, b"28000", m),
            End::Other(b) => b.clone(),
            End::Switch => switch(plugin_name(AuthPlugin::Native), b"12345678901234567890\0"),
        }
    }
    fn proof(&mut self, p: AuthPlugin) -> Vec<Vec<u8>> {
        self.stage = 9;
        if p != AuthPlugin::Sha2 || self.c.pw.is_empty() { return vec![self.end(0)]; }
        if !self.c.full { return if self.c.early == Some(0) { vec![self.end(0)] } else { let e = self.end(0); vec![vec![1, 3], e] }; }
        if self.c.early == Some(0) { return vec![self.end(0)]; }
        self.stage = if self.c.secure { 2 } else if self.c.pinned_key { 4 } else { 3 };
        vec![vec![1, 4]]
    }
    fn deny(&mut self, why: &str, p: &[u8]) -> Vec<Vec<u8>> {
        self.wrong.get_or_insert_with(|| format!("{why}: {}", hexs(p)));
        self.ended = true;
        vec![err_packet(1045, b"28000", "denied")]
    }
    pub fn hears(&mut self, i: usize, p: &[u8]) -> Vec<Vec<u8>> {
        if self.ended { self.wrong.get_or_insert_with(|| format!("packet after the end: {}", hexs(p))); return Vec::new(); }
        let pw = self.c.pw.clone().into_bytes();
        let mut full = pw.clone();
        full.push(0);
        if i == 0 {
            let Ok(r) = parse_response(p) else { return self.deny("unreadable answer to the greeting", p) };
            if r.auth != challenge_response(self.c.told, &self.c.nonce, &pw) { return self.deny("wrong response to the greeting", p); }
            if let Some((q, n)) = self.c.switch.clone() {
                self.stage = 1;
                let mut d = n;
                d.push(0);
                return vec![switch(plugin_name(q), &d)];
            }
            return self.proof(self.c.told);
        }
        match self.stage {
            1 => {
                let (q, n) = self.c.switch.clone().unwrap();
                let mut want = challenge_response(q, &n, &pw);
                if q == AuthPlugin::Clear { want.push(0); }
                if p != want { return self.deny("wrong response to the switch", p); }
                self.nonce = n;
                self.proof(q)
            }
            2 => if p == full { vec![self.end(1)] } else { self.deny("not the password", p) },
            3 => {
                if p != [2] { return self.deny("not a request for the key", p); }
                if self.c.early == Some(1) { return vec![self.end(1)]; }
                self.stage = 4;
                let k = &self.keys[self.c.key];
                let mut b = vec![1];
                b.extend(crate::refcrypt::pem(&crate::refcrypt::pkcs8(&k.n, &k.e), "PUBLIC KEY", 64, "\n"));
                vec![b]
            }
            4 => {
                let n = self.nonce.clone();
                let ok = self.keys[self.c.key].open(p).is_some_and(|m| m.len() == full.len() && m.iter().zip(&full).enumerate().all(|(i, (x, y))| *x == *y ^ n[i % n.len()]));
                if ok { vec![self.end(2)] } else { self.deny("not the masked password under the server's key", p) }
            }
            _ => self.deny("packet out of turn", p),
        }
    }
}
pub struct Logins { keys: Arc<Vec<crate::refcrypt::Key>>, shared: Vec<Option<Arc<PublicKey>>>, fit: Vec<usize> }
impl Logins {
    pub fn new() -> Self {
        let keys = crate::refcrypt::keys();
        let shared = keys.iter().map(|k| PublicKey::try_from_pem(&crate::refcrypt::pem(&crate::refcrypt::pkcs1(&k.n, &k.e), "RSA PUBLIC KEY", 64, "\n")).ok().map(Arc::new)).collect();
        let fit = (0..keys.len()).filter(|k| (120..=130).contains(&keys[*k].octets())).collect();
        Logins { keys: Arc::new(keys), shared, fit }
    }
    /// A random course; the password fits the keys.
    pub fn course(&self, cx: &mut Ctx, end: End) -> Course {
        let r = &mut cx.rng;
        let n = r.usize(24);
        let pw = if r.chance(8) { String::new() } else { r.string(n).replace('\0', "x").chars().take(17).collect() };
        let full = r.chance(2);
        let nonce = |r: &mut Rng| { let mut n = r.bytes(20); if n[19] == 0 { n[19] = 1; } n };
        let told = *r.pick(&[AuthPlugin::Native, AuthPlugin::Sha2, AuthPlugin::Sha2]);
        let switch = if r.chance(3) { Some((*r.pick(&[AuthPlugin::Native, AuthPlugin::Sha2, AuthPlugin::Sha2, AuthPlugin::Clear]), nonce(r))) } else { None };
        Course { pw, told, nonce: nonce(r), switch, full, secure: r.chance(3), pinned_key: r.chance(3), key: *r.pick(&self.fit), early: None, end }
    }
    pub fn play(&self, c: &Course, jitter: bool) -> (Outcome, Option<String>, bool) {
        let _ = jitter;
        let o = Opts { password: c.pw.clone(), clear: true, secure: c.secure, key: if c.pinned_key { self.shared[c.key].clone() } else { None }, ..Default::default() };
        let g = Greeting { nonce: c.nonce.clone(), plugin: plugin_name(c.told).to_vec(), ..Default::default() };
        let s = Arc::new(Mutex::new(Server { c: c.clone(), keys: self.keys.clone(), stage: 0, nonce: c.nonce.clone(), wrong: None, ended: false }));
        let t = s.clone();
        let out = attempt(&o, &g.bytes(), move |i, p| t.lock().unwrap().hears(i, p));
        let s = s.lock().unwrap();
        (out, s.wrong.clone(), s.ended)
    }
    /// Plays the course; complains under `key`.
    pub fn check(&self, cx: &mut Ctx, key: &str, c: &Course) {
        let desc = format!("login: {c:?}");
        cx.case(&desc, true);
        let (out, wrong, ended) = self.play(c, false);
        if let Some(p) = out.panic { return cx.fail(key, format!("panic {p}: {desc}")); }
        if let Some(w) = wrong { return cx.fail(key, format!("{w}: {desc}")); }
        if !out.bad.is_empty() { return cx.fail(key, format!("{:?}: {desc}", out.bad)); }
        if !ended { return cx.fail(key, format!("gave up with {:?} before the server decided: {desc}", out.result.map(|_| ()))); }
        let ok = match (&c.end, &out.result) {
            (End::Ok, r) => r.is_ok(),
            (End::Err(code, m), Err(e)) => e.contains(&format!("ErrorPacket {{ code: {code}, state: \"28000\", message: {m:?} }}")),
            (End::Other(_) | End::Switch, Err(e)) => !e.contains("Server("),
            _ => false,
        };
        cx.check(ok, key, || format!("the client reports {:?}: {desc}", out.result.as_ref().map(|_| "success")));
    }
}
