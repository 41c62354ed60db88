//! Results and timeouts.
use {
    crate::{mock::*, rt::*},
    mysql_connector::{
        error::{Error, ProtocolError},
        timeout::{Timeout, TimeoutFuture},
        types::Value,
        Connection,
    },
    std::{
        cell::RefCell,
        future::Future,
        io,
        pin::Pin,
        rc::Rc,
        sync::{
            atomic::{AtomicUsize, Ordering},
            Arc,
        },
        task::{Context, Poll, Wake, Waker},
        time::Duration,
    },
};

/// Ready at its poll number `at` (0 = the first), remembers its polls and the waker given last.
struct Script<T> {
    at: usize,
    log: Rc<RefCell<Log>>,
    value: Option<T>,
}
#[derive(Default)]
struct Log {
    polls: usize,
    waker: Option<Waker>,
}
impl<T: Unpin> Future for Script<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let t = self.get_mut();
        let mut l = t.log.borrow_mut();
        l.waker = Some(cx.waker().clone());
        let n = l.polls;
        l.polls += 1;
        drop(l);
        if n >= t.at { Poll::Ready(t.value.take().expect("polled after it was ready")) } else { Poll::Pending }
    }
}

struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); }
}

/// The operation ready at poll `a`, the timer at poll `b`, a fresh task at every poll.
fn scripted(cx: &mut Ctx, a: usize, b: usize, err: bool) {
    let desc = format!("operation ready at its poll {a}{}, timer at its poll {b}", if err { " with an error" } else { "" });
    cx.case(&desc, true);
    let ol = Rc::new(RefCell::new(Log::default()));
    let tl = Rc::new(RefCell::new(Log::default()));
    let want_d = Duration::from_millis(17 + a as u64 * 1000 + b as u64);
    let value: Result<u32, io::Error> = if err { Err(io::ErrorKind::BrokenPipe.into()) } else { Ok(77) };
    let op = Script { at: a, log: ol.clone(), value: Some(value) };
    let seen_d = Rc::new(RefCell::new(Vec::new()));
    let (sd, tl2) = (seen_d.clone(), tl.clone());
    let sleep = move |d: Duration| -> TimeoutFuture {
        sd.borrow_mut().push(d);
        Box::pin(Script { at: b, log: tl2.clone(), value: Some(()) })
    };
    let mut fut = Box::pin(Timeout::new(op, &sleep, want_d));
    cx.check(*seen_d.borrow() == vec![want_d], "c22-duration", || format!("{desc}: timers made for {:?}, timeout {want_d:?}", seen_d.borrow()));
    for n in 0..=a.max(b) {
        let c = Arc::new(Count(AtomicUsize::new(0)));
        let w = Waker::from(c.clone());
        let r = fut.as_mut().poll(&mut Context::from_waker(&w));
        let op_ready = n >= a;
        let timer_ready = n >= b;
        let got = match &r {
            Poll::Pending => "pending".to_owned(),
            Poll::Ready(Ok(Ok(x))) => format!("value {x}"),
            Poll::Ready(Ok(Err(e))) => format!("operation error {:?}", e.kind()),
            Poll::Ready(Err(e)) => format!("wait error {:?}", e.kind()),
        };
        let want = if op_ready { if err { "operation error BrokenPipe" } else { "value 77" } } else if timer_ready { "wait error TimedOut" } else { "pending" };
        cx.check(got == want, "c22-outcome", || format!("{desc}: poll {n} gave {got}, expected {want}"));
        if r.is_ready() || got != want { return; }
        // whoever becomes ready next wakes the task that polled last
        for (who, l) in [("operation", &ol), ("timer", &tl)] {
            let before = c.0.load(Ordering::SeqCst);
            if let Some(w) = &l.borrow().waker { w.wake_by_ref(); }
            let after = c.0.load(Ordering::SeqCst);
            cx.check(after == before + 1, "c22-wake", || format!("{desc}: after poll {n} the {who} would not wake the task that polled"));
        }
    }
}

/// The same with a real executor and timer.
fn timed(cx: &mut Ctx) {
    let t_op = cx.rng.below(40);
    let t_out = 1 + cx.rng.below(40);
    let parts = 1 + cx.rng.below(4);
    let desc = format!("operation done after {t_op} ms in {parts} steps, timeout {t_out} ms");
    cx.case(&desc, true);
    let got = run(async move {
        let op = async move {
            for i in 0..parts { tokio::time::sleep(Duration::from_millis(if i == 0 { t_op - t_op / parts * (parts - 1) } else { t_op / parts })).await; }
            5u8
        };
        let start = tokio::time::Instant::now();
        let r = Timeout::new(op, &|d| Box::pin(tokio::time::sleep(d)), Duration::from_millis(t_out)).await;
        (r.map_err(|e| e.kind()), start.elapsed().as_millis() as u64)
    });
    if t_op < t_out {
        cx.check(got.0 == Ok(5), "c22-outcome", || format!("{desc}: {got:?}"));
    } else if t_op > t_out {
        cx.check(got.0 == Err(io::ErrorKind::TimedOut), "c22-outcome", || format!("{desc}: {got:?}"));
    }
    cx.check(got.1 <= t_op.min(t_out) + 2, "c22-late", || format!("{desc}: ended after {} ms", got.1));
}

async fn session(h: &Handle, tls: bool, timeout: Duration) -> Result<Vec<String>, Error> {
    let mut seen = vec![];
    let mut c = if tls {
        let mut o = options::<true>(h);
        o.password = "secret".into();
        o.timeout = timeout;
        Connection::connect(Arc::new(o)).await?
    } else {
        let mut o = options::<false>(h);
        o.password = "secret".into();
        o.timeout = timeout;
        Connection::connect(Arc::new(o)).await?
    };
    seen.push(format!("{:?}", c.execute_query("e").await?));
    {
        let mut q = c.query::<Vec<Value>>("q").await?;
        while let Some(r) = q.next().await? { seen.push(format!("{r:?}")); }
    }
    {
        let mut s = c.prepare_statement("p").await?;
        let mut q = s.query::<Value, Vec<Value>>(&[Value::Int(1)]).await?;
        seen.push(format!("{:?}", q.collect().await?));
        seen.push(format!("{:?}", s.execute::<Value>(&[Value::Int(3)]).await?));
    }
    c.disconnect().await?;
    Ok(seen)
}

fn serve(h: &Handle, depr: bool) {
    let mut g = Greeting::default();
    if !depr { g.caps &= !caps::DEPRECATE_EOF; }
    greet(h, &g);
    let mut first = 0;
    let mut execs = 0;
    h.lock().unwrap().server = Some(Box::new(move |w, p| {
        first += 1;
        let eof = |w: &mut Wire| if depr { w.send(&eof_packet(2, 0)) } else { w.send(&[0xfe, 0, 0, 2, 0]) };
        if first == 1 {
            // fast authentication
            w.send(&[1, 3]);
            w.send(&ok_packet(0, 0, 2, 0));
            return;
        }
        match p[0] {
            3 if p == b"q" || p[1..] == b"q"[..] => {
                send_columns(w, &[Col::new("c", 253, 0)]);
                if !depr { eof(w); }
                for i in 0..3 { w.send(&lenenc_str(format!("row{i}").as_bytes())); }
                eof(w);
            }
            0x16 => {
                let mut b = vec![0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0];
                b[5] = 0;
                w.send(&b);
                w.send(&Col::new("?", 253, 0).bytes());
                if !depr { eof(w); }
            }
            0x17 => {
                execs += 1;
                if execs == 1 {
                    send_columns(w, &[Col::new("c", 253, 0)]);
                    if !depr { eof(w); }
                    w.send(&[0, 0, 1, b'x']);
                    eof(w);
                } else { w.send(&ok_packet(1, 2, 2, 0)); }
            }
            0x19 | 1 => {}
            _ => w.send(&ok_packet(3, 4, 2, 1)),
        }
    }));
}

struct Plan { read: Vec<(usize, u64)>, write: Vec<(usize, u64)>, tls: bool, depr: bool, read_step: usize }

fn play(p: &Plan, timeout: u64) -> Result<(Result<Vec<String>, Error>, u64, usize, usize), String> {
    let h = handle();
    serve(&h, p.depr);
    {
        let mut s = h.lock().unwrap();
        s.read_gates = p.read.iter().map(|(a, d)| (*a, Duration::from_millis(*d))).collect();
        s.write_gates = p.write.iter().map(|(a, d)| (*a, Duration::from_millis(*d))).collect();
        s.read_step = p.read_step;
    }
    let hh = h.clone();
    let (tls, t) = (p.tls, Duration::from_millis(timeout));
    let r = quiet(move || run(async move {
        let start = tokio::time::Instant::now();
        let r = tokio::time::timeout(Duration::from_secs(100_000), session(&hh, tls, t)).await;
        (r, start.elapsed().as_millis() as u64)
    }));
    let s = h.lock().unwrap();
    match r {
        Err(m) => Err(format!("panic {m}")),
        Ok((Err(_), _)) => Err("never ended".into()),
        Ok((Ok(r), ms)) => Ok((r, ms, s.consumed, s.log.len())),
    }
}

fn timed_out(e: &Error) -> bool {
    matches!(e, Error::Protocol(ProtocolError::Io(e)) if e.kind() == io::ErrorKind::TimedOut)
}

/// A whole session with one delay at one byte, or with a short delay at many.
fn silent(cx: &mut Ctx, tls: bool, depr: bool, every: usize) {
    let free = Plan { read: vec![], write: vec![], tls, depr, read_step: 0 };
    let Ok((Ok(want), _, reads, writes)) = play(&free, 10_000) else {
        cx.fail("c22-session", format!("a session without any delay (secure {tls}, DEPRECATE_EOF {depr}) failed: {:?}", play(&free, 10_000)));
        return;
    };
    let off = cx.rng.usize(every);
    for (side, total) in [("read", reads), ("write", writes)] {
        let mut at = off;
        while at < total {
            for (delay, timeout) in [(5_000u64, 10_000u64), (10_500, 10_000), (900_000, 10_000), (40, 30), (20, 30)] {
                let g = vec![(at, delay)];
                let read_step = *cx.rng.pick(&[0, 0, 1, 3]);
                let p = Plan { read: if side == "read" { g.clone() } else { vec![] }, write: if side == "write" { g } else { vec![] }, tls, depr, read_step };
                let desc = format!("secure {tls}, DEPRECATE_EOF {depr}: {side} of byte {at} of {total} delayed by {delay} ms, timeout {timeout} ms");
                cx.case(&desc, true);
                match play(&p, timeout) {
                    Err(m) => cx.fail(if m == "never ended" { "c22-hang" } else { "c22-panic" }, format!("{desc}: {m}")),
                    Ok((r, ms, ..)) => {
                        if delay < timeout {
                            cx.check(matches!(&r, Ok(v) if *v == want), "c22-early", || format!("{desc}: {r:?}, expected {want:?}"));
                        } else {
                            // dropping a connection or closing a statement is not waited for
                            cx.check(matches!(&r, Err(e) if timed_out(e)), "c22-silent", || format!("{desc}: {r:?} instead of a timeout"));
                            cx.check(ms <= timeout + 10, "c22-late", || format!("{desc}: ended only after {ms} ms"));
                        }
                    }
                }
            }
            at += every;
        }
    }
    // every byte late, none by a whole timeout
    for (step, delay, timeout) in [(1usize, 3u64, 1_000u64), (7, 30, 1_000)] {
        let g: Vec<_> = (0..).map(|i| i * step).take_while(|x| *x < reads).map(|x| (x, delay)).collect();
        let w: Vec<_> = (0..).map(|i| i * step).take_while(|x| *x < writes).map(|x| (x, delay)).collect();
        let p = Plan { read: g, write: w, tls, depr, read_step: 0 };
        let desc = format!("secure {tls}, DEPRECATE_EOF {depr}: {delay} ms before every {step} bytes, timeout {timeout} ms");
        cx.case(&desc, true);
        match play(&p, timeout) {
            Err(m) => cx.fail("c22-hang", format!("{desc}: {m}")),
            Ok((r, ..)) => { cx.check(matches!(&r, Ok(v) if *v == want), "c22-early", || format!("{desc}: {r:?}, expected {want:?}")); }
        }
    }
}

pub fn main(cx: &mut Ctx) {
    cx.rule("every pair of polls at which the operation and the timer become ready, up to 12 polls, with a new task per poll: the answer of each poll, who is woken, the duration given to the timer");
    let n = cx.n(8, 13);
    for a in 0..n { for b in 0..n { for err in [false, true] { scripted(cx, a, b, err); } } }
    cx.rule("operations and timeouts of random length under an executor with a paused clock");
    for _ in 0..cx.n(300, 3000) { timed(cx); }
    cx.rule("whole sessions (greeting, authentication, text rows, statements) in which the server is silent, or does not take bytes, from one byte on, for less and for more than the timeout");
    let every = cx.n(5, 1);
    for tls in [false, true] { for depr in [true, false] { silent(cx, tls, depr, every); } }
}
