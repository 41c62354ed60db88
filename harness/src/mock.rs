//! A scripted MySQL server behind the crate's public `Stream` trait.
//!
//! The framing here is written from the protocol documentation and shares no code with the crate.
use {
    crate::rt::Rng,
    mysql_connector::{Connection, ConnectionOptions, Stream},
    std::{
        collections::VecDeque,
        fmt, io,
        pin::Pin,
        sync::{Arc, Mutex},
        task::{Context, Poll},
        time::Duration,
    },
    tokio::io::{AsyncRead, AsyncWrite, ReadBuf},
};

pub const MAX: usize = 0xff_ffff;

pub struct Shared {
    /// bytes waiting for the client
    pub inbox: VecDeque<u8>,
    /// every byte the client ever wrote
    pub log: Vec<u8>,
    pos: usize,
    partial: Vec<u8>,
    in_partial: bool,
    /// complete payloads the client sent: (first sequence number, payload)
    pub payloads: Vec<(u8, Vec<u8>)>,
    /// framing mistakes seen
    pub bad: Vec<String>,
    next_seq: u8,
    first_seq: u8,
    pub server: Option<Box<dyn FnMut(&mut Wire, &[u8]) + Send>>,
    /// bytes handed over per read (0 = as many as fit)
    pub read_step: usize,
    pub write_step: usize,
    /// return Pending once before every n-th operation
    pub stutter: u64,
    ops: u64,
    pub fail_write_at: Option<usize>,
    pub eof: bool,
    pub consumed: usize,
    pub strict_seq: bool,
    pub reads_error: bool,
    /// (position, delay): the byte at that position of the answers comes, or of the requests goes, only after that time
    pub read_gates: VecDeque<(usize, Duration)>,
    pub write_gates: VecDeque<(usize, Duration)>,
    read_sleep: Option<Pin<Box<tokio::time::Sleep>>>,
    write_sleep: Option<Pin<Box<tokio::time::Sleep>>>,
}

/// How many bytes may pass, or None to wait.
fn gate(gates: &mut VecDeque<(usize, Duration)>, sleep: &mut Option<Pin<Box<tokio::time::Sleep>>>, at: usize, cx: &mut Context<'_>) -> Option<usize> {
    loop {
        match gates.front() {
            Some((p, d)) if *p <= at => {
                let s = sleep.get_or_insert_with(|| Box::pin(tokio::time::sleep(*d)));
                match std::future::Future::poll(s.as_mut(), cx) {
                    Poll::Pending => return None,
                    Poll::Ready(()) => { gates.pop_front(); *sleep = None; }
                }
            }
            Some((p, _)) => return Some(p - at),
            None => return Some(usize::MAX),
        }
    }
}

/// What a server script can do.
pub struct Wire<'a> {
    pub out: &'a mut VecDeque<u8>,
    pub seq: u8,
    pub eof: &'a mut bool,
}

impl Wire<'_> {
    pub fn send(&mut self, payload: &[u8]) {
        frame_into(self.out, payload, &mut self.seq);
    }
    pub fn raw(&mut self, bytes: &[u8]) {
        self.out.extend(bytes);
    }
}

pub fn frame_into(out: &mut VecDeque<u8>, payload: &[u8], seq: &mut u8) {
    let mut rest = payload;
    loop {
        let n = rest.len().min(MAX);
        out.extend([n as u8, (n >> 8) as u8, (n >> 16) as u8, *seq]);
        out.extend(&rest[..n]);
        *seq = seq.wrapping_add(1);
        rest = &rest[n..];
        if n < MAX {
            break;
        }
    }
}

pub fn frame(payload: &[u8], seq: &mut u8) -> Vec<u8> {
    let mut q = VecDeque::new();
    frame_into(&mut q, payload, seq);
    q.into()
}

impl Shared {
    pub fn new() -> Self {
        Shared {
            inbox: VecDeque::new(),
            log: Vec::new(),
            pos: 0,
            partial: Vec::new(),
            in_partial: false,
            payloads: Vec::new(),
            bad: Vec::new(),
            next_seq: 0,
            first_seq: 0,
            server: None,
            read_step: 0,
            write_step: 0,
            stutter: 0,
            ops: 0,
            fail_write_at: None,
            eof: false,
            consumed: 0,
            strict_seq: false,
            reads_error: false,
            read_gates: VecDeque::new(),
            write_gates: VecDeque::new(),
            read_sleep: None,
            write_sleep: None,
        }
    }

    fn advance(&mut self) {
        loop {
            let l = &self.log[self.pos..];
            if l.len() < 4 {
                return;
            }
            let n = l[0] as usize | (l[1] as usize) << 8 | (l[2] as usize) << 16;
            if l.len() < 4 + n {
                return;
            }
            let seq = l[3];
            if !self.in_partial {
                self.in_partial = true;
                self.first_seq = seq;
                self.next_seq = seq;
                self.partial.clear();
            }
            if seq != self.next_seq {
                self.bad.push(format!("chunk numbered {seq}, expected {}", self.next_seq));
            }
            self.next_seq = seq.wrapping_add(1);
            let body = l[4..4 + n].to_vec();
            self.partial.extend(&body);
            self.pos += 4 + n;
            if n < MAX {
                self.in_partial = false;
                let p = std::mem::take(&mut self.partial);
                self.payloads.push((self.first_seq, p));
                if let Some(mut srv) = self.server.take() {
                    let p = std::mem::take(&mut self.payloads.last_mut().unwrap().1);
                    let mut w = Wire { out: &mut self.inbox, seq: self.next_seq, eof: &mut self.eof };
                    srv(&mut w, &p);
                    self.payloads.last_mut().unwrap().1 = p;
                    self.server = Some(srv);
                }
            }
        }
    }

    pub fn complete(&self) -> bool {
        self.pos == self.log.len() && !self.in_partial
    }

    fn stuttering(&mut self, cx: &mut Context<'_>) -> bool {
        self.ops += 1;
        if self.stutter > 0 && self.ops % self.stutter == 0 {
            cx.waker().wake_by_ref();
            return true;
        }
        false
    }
}

pub type Handle = Arc<Mutex<Shared>>;

#[derive(Default, Clone)]
pub struct MockOptions(pub Option<Handle>);

impl fmt::Debug for MockOptions {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("MockOptions")
    }
}

pub struct Mock<const SECURE: bool>(pub Handle);

impl<const SECURE: bool> fmt::Debug for Mock<SECURE> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mock")
    }
}

impl<const SECURE: bool> Stream for Mock<SECURE> {
    const SECURE: bool = SECURE;
    type Options = MockOptions;

    async fn connect(data: &Self::Options) -> Result<Self, io::Error> {
        Ok(Mock(data.0.clone().expect("handle")))
    }
}

impl<const SECURE: bool> AsyncRead for Mock<SECURE> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.lock().unwrap();
        if s.stuttering(cx) {
            return Poll::Pending;
        }
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        if s.inbox.is_empty() {
            if s.reads_error {
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            }
            return if s.eof { Poll::Ready(Ok(())) } else { Poll::Pending };
        }
        let mut n = buf.remaining().min(s.inbox.len());
        let at = s.consumed;
        let sh = &mut *s;
        match gate(&mut sh.read_gates, &mut sh.read_sleep, at, cx) {
            None => return Poll::Pending,
            Some(k) => n = n.min(k),
        }
        if s.read_step > 0 {
            n = n.min(s.read_step);
        }
        s.consumed += n;
        let (a, b) = s.inbox.as_slices();
        let k = n.min(a.len());
        buf.put_slice(&a[..k]);
        buf.put_slice(&b[..n - k]);
        s.inbox.drain(..n);
        Poll::Ready(Ok(()))
    }
}

impl<const SECURE: bool> AsyncWrite for Mock<SECURE> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.0.lock().unwrap();
        if s.stuttering(cx) {
            return Poll::Pending;
        }
        let mut n = buf.len();
        if n > 0 {
            let at = s.log.len();
            let sh = &mut *s;
            match gate(&mut sh.write_gates, &mut sh.write_sleep, at, cx) {
                None => return Poll::Pending,
                Some(k) => n = n.min(k),
            }
        }
        if s.write_step > 0 {
            n = n.min(s.write_step);
        }
        if let Some(at) = s.fail_write_at {
            let room = at.saturating_sub(s.log.len());
            if room == 0 && n > 0 {
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
            n = n.min(room);
        }
        s.log.extend_from_slice(&buf[..n]);
        s.advance();
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

/// Runs a future on a fresh paused-clock runtime: a wait that can never end times out at once.
pub fn run<F: std::future::Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(f)
}

pub mod caps {
    pub const CONNECT_WITH_DB: u32 = 0x8;
    pub const PROTOCOL_41: u32 = 0x200;
    pub const TRANSACTIONS: u32 = 0x2000;
    pub const SECURE_CONNECTION: u32 = 0x8000;
    pub const PS_MULTI_RESULTS: u32 = 0x4_0000;
    pub const PLUGIN_AUTH: u32 = 0x8_0000;
    pub const CONNECT_ATTRS: u32 = 0x10_0000;
    pub const LENENC: u32 = 0x20_0000;
    pub const SESSION_TRACK: u32 = 0x80_0000;
    pub const DEPRECATE_EOF: u32 = 0x100_0000;
    pub const ALL: u32 = CONNECT_WITH_DB | PROTOCOL_41 | TRANSACTIONS | SECURE_CONNECTION | PS_MULTI_RESULTS | PLUGIN_AUTH | DEPRECATE_EOF;
}

#[derive(Clone, Debug)]
pub struct Greeting {
    pub version: Vec<u8>,
    pub id: u32,
    pub nonce: Vec<u8>,
    pub caps: u32,
    pub collation: u8,
    pub status: u16,
    pub plugin: Vec<u8>,
    pub plugin_nul: bool,
    /// announced auth data length, when not 21
    pub auth_len: u8,
}

impl Default for Greeting {
    fn default() -> Self {
        Greeting {
            version: b"8.4.0".to_vec(),
            id: 7,
            nonce: b"abcdefghijklmnopqrst".to_vec(),
            caps: caps::ALL,
            collation: 45,
            status: 2,
            plugin: b"caching_sha2_password".to_vec(),
            plugin_nul: true,
            auth_len: 21,
        }
    }
}

impl Greeting {
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![10];
        b.extend(&self.version);
        b.push(0);
        b.extend(self.id.to_le_bytes());
        b.extend(&self.nonce[..8]);
        b.push(0);
        b.extend((self.caps as u16).to_le_bytes());
        b.push(self.collation);
        b.extend(self.status.to_le_bytes());
        b.extend(((self.caps >> 16) as u16).to_le_bytes());
        b.push(self.auth_len);
        b.extend([0; 10]);
        if self.caps & caps::SECURE_CONNECTION != 0 {
            let n = (self.auth_len as usize).max(21) - 8;
            let mut p2 = self.nonce[8..].to_vec();
            p2.resize(n.max(13), 0);
            p2.truncate(n);
            b.extend(p2);
        }
        if self.caps & caps::PLUGIN_AUTH != 0 {
            b.extend(&self.plugin);
            if self.plugin_nul {
                b.push(0);
            }
        }
        b
    }
}

pub fn lenenc(n: u64) -> Vec<u8> {
    if n < 251 {
        vec![n as u8]
    } else if n <= 0xffff {
        let mut v = vec![0xfc];
        v.extend(&n.to_le_bytes()[..2]);
        v
    } else if n <= 0xff_ffff {
        let mut v = vec![0xfd];
        v.extend(&n.to_le_bytes()[..3]);
        v
    } else {
        let mut v = vec![0xfe];
        v.extend(&n.to_le_bytes());
        v
    }
}

pub fn lenenc_str(s: &[u8]) -> Vec<u8> {
    let mut v = lenenc(s.len() as u64);
    v.extend(s);
    v
}

pub fn ok_packet(affected: u64, id: u64, status: u16, warnings: u16) -> Vec<u8> {
    let mut b = vec![0];
    b.extend(lenenc(affected));
    b.extend(lenenc(id));
    b.extend(status.to_le_bytes());
    b.extend(warnings.to_le_bytes());
    b
}

/// The end of a result set under DEPRECATE_EOF.
pub fn eof_packet(status: u16, warnings: u16) -> Vec<u8> {
    let mut b = ok_packet(0, 0, status, warnings);
    b[0] = 0xfe;
    b
}

pub fn err_packet(code: u16, state: &[u8; 5], msg: &str) -> Vec<u8> {
    let mut b = vec![0xff];
    b.extend(code.to_le_bytes());
    b.push(b'#');
    b.extend(state);
    b.extend(msg.as_bytes());
    b
}

#[derive(Clone, Debug)]
pub struct Col {
    pub db: String,
    pub table: String,
    pub org_table: String,
    pub name: String,
    pub org_name: String,
    pub ty: u8,
    pub flags: u16,
}

impl Col {
    pub fn new(name: &str, ty: u8, flags: u16) -> Self {
        Col { db: "db".into(), table: "t".into(), org_table: "t".into(), name: name.into(), org_name: name.into(), ty, flags }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = lenenc_str(b"def");
        for s in [&self.db, &self.table, &self.org_table, &self.name, &self.org_name] {
            b.extend(lenenc_str(s.as_bytes()));
        }
        b.push(12);
        b.extend(45u16.to_le_bytes());
        b.extend(1024u32.to_le_bytes());
        b.push(self.ty);
        b.extend(self.flags.to_le_bytes());
        b.extend([0, 0, 0]);
        b
    }
}

pub fn send_columns(w: &mut Wire, cols: &[Col]) {
    w.send(&lenenc(cols.len() as u64));
    for c in cols {
        w.send(&c.bytes());
    }
}

pub fn prepare_ok(w: &mut Wire, id: u32, cols: usize, params: usize) { prepare_ok_eof(w, id, cols, params, false) }
/// Each list of definitions that is not empty ends with an EOF packet unless DEPRECATE_EOF was agreed on.
pub fn prepare_ok_eof(w: &mut Wire, id: u32, cols: usize, params: usize, eofs: bool) {
    let mut b = vec![0];
    b.extend(id.to_le_bytes());
    b.extend((cols as u16).to_le_bytes());
    b.extend((params as u16).to_le_bytes());
    b.push(0);
    b.extend(0u16.to_le_bytes());
    w.send(&b);
    for i in 0..params {
        w.send(&Col::new(&format!("?{i}"), 253, 0).bytes());
    }
    if eofs && params > 0 { w.send(&[0xfe, 0, 0, 2, 0]); }
    for i in 0..cols {
        w.send(&Col::new(&format!("c{i}"), 253, 0).bytes());
    }
    if eofs && cols > 0 { w.send(&[0xfe, 0, 0, 2, 0]); }
}

pub fn options<const S: bool>(h: &Handle) -> ConnectionOptions<Mock<S>> {
    ConnectionOptions {
        user: "user".into(),
        password: String::new(),
        connection: MockOptions(Some(h.clone())),
        max_allowed_packet: Some(64 << 20),
        auth_plugin: None,
        ..Default::default()
    }
}

pub fn handle() -> Handle {
    Arc::new(Mutex::new(Shared::new()))
}

pub fn greet(h: &Handle, g: &Greeting) {
    let mut s = h.lock().unwrap();
    let mut seq = 0;
    let f = frame(&g.bytes(), &mut seq);
    s.inbox.extend(f);
}

/// A server that accepts anyone and then passes every command to `f`.
pub fn accept(h: &Handle, mut f: impl FnMut(&mut Wire, &[u8]) + Send + 'static) {
    let mut first = true;
    h.lock().unwrap().server = Some(Box::new(move |w, p| {
        if first {
            first = false;
            w.send(&ok_packet(0, 0, 2, 0));
        } else {
            f(w, p)
        }
    }));
}

pub async fn connected(h: &Handle, f: impl FnMut(&mut Wire, &[u8]) + Send + 'static) -> Connection {
    connected_with(h, &Greeting::default(), f).await
}

pub async fn connected_with(h: &Handle, g: &Greeting, f: impl FnMut(&mut Wire, &[u8]) + Send + 'static) -> Connection {
    greet(h, g);
    accept(h, f);
    let c = Connection::connect(Arc::new(options::<false>(h))).await.expect("connect to the mock server");
    let mut s = h.lock().unwrap();
    s.payloads.clear();
    s.bad.clear();
    drop(s);
    c
}

/// Varies how reads and writes are cut up.
pub fn jitter(h: &Handle, rng: &mut Rng) {
    let mut s = h.lock().unwrap();
    s.read_step = *rng.pick(&[0, 0, 1, 2, 3, 5, 1000]);
    s.write_step = *rng.pick(&[0, 0, 1, 3, 4, 7, 1000]);
    s.stutter = *rng.pick(&[0, 0, 2, 3]);
}
