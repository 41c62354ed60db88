%# Waiting for an operation under a timer.
%ty Pin<Box<F>> => VxPinned<F>
%ty TimeoutFuture => VxPinned<VxDelay>
%ty Duration => VxDuration
%ty Context<'_> => VxContext
%ty Pin<&mutSelf> => &mut Self
%path Box::pin => vx_pin
%path io::Error => VxIoError
%path io::ErrorKind => VxErrorKind
%raw
/// A future, as far as its owner can see: what the next poll answers is fixed beforehand (`next`), and it is known with which
/// task it was polled last (`asked`), which is whom it wakes.
pub trait Future: Sized {
    type Output;
    spec fn next(&self) -> Poll<Self::Output>;
    spec fn asked(&self) -> Option<nat>;
    fn poll(&mut self, cx: &mut VxContext) -> (r: Poll<Self::Output>)
        ensures r == old(self).next(), final(self).asked() == Some(old(cx).task()), final(cx).task() == old(cx).task();
}
pub enum Poll<T> { Ready(T), Pending }
#[verifier::external_body]
pub struct VxContext { x: u8 }
impl VxContext { pub uninterp spec fn task(&self) -> nat; }
#[verifier::external_body]
pub struct VxDuration { x: u8 }
/// The timer: its answer to the next poll, and the time it was made for.
#[verifier::external_body]
pub struct VxDelay { x: u8 }
impl VxDelay {
    pub uninterp spec fn wait(&self) -> VxDuration;
    pub uninterp spec fn due(&self) -> Poll<()>;
    pub uninterp spec fn from(&self) -> Option<nat>;
}
impl Future for VxDelay {
    type Output = ();
    open spec fn next(&self) -> Poll<()> { self.due() }
    open spec fn asked(&self) -> Option<nat> { self.from() }
    #[verifier::external_body]
    fn poll(&mut self, cx: &mut VxContext) -> (r: Poll<()>) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxSleep { x: u8 }
impl VxSleep {
    /// `sleep(duration)`.
    #[verifier::external_body]
    pub fn start(&self, d: VxDuration) -> (r: VxPinned<VxDelay>)
        ensures r.p.wait() == d
    { unimplemented!() }
}
/// Pin<Box<F>>: the future itself.
pub struct VxPinned<F> { pub p: F }
impl<F> VxPinned<F> {
    #[verifier::external_body]
    pub fn vx_as_mut(&mut self) -> (r: &mut F)
        ensures *r == old(self).p, final(self).p == *final(r)
    { &mut self.p }
}
pub fn vx_pin<F>(f: F) -> (r: VxPinned<F>) ensures r.p == f { VxPinned { p: f } }
/// std::io::Error.
pub struct VxIoError { pub kind: VxErrorKind }
pub enum VxErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other }
impl VxErrorKind {
    pub fn into(self) -> (r: VxIoError) ensures r.kind == self { VxIoError { kind: self } }
}
impl VxIoError {
    pub fn new<E>(kind: VxErrorKind, e: E) -> (r: Self) ensures r.kind == kind { VxIoError { kind } }
}
%type Timeout
%raw
impl<F: Future> Timeout<F> {
    pub open spec fn op(self) -> F { self.future.p }
    pub open spec fn timer(self) -> VxDelay { self.delay.p }
}
/// The answer a wait gives for the answers of the operation and of the timer.
pub open spec fn ends<T>(op: Poll<T>, timer: Poll<()>, r: Poll<Result<T, VxIoError>>) -> bool {
    match op {
        Poll::Ready(x) => r == Poll::<Result<T, VxIoError>>::Ready(Ok(x)),
        Poll::Pending => match timer {
            Poll::Ready(_) => match r { Poll::Ready(Err(e)) => e.kind == VxErrorKind::TimedOut, _ => false },
            Poll::Pending => r is Pending,
        },
    }
}
%fn Timeout::new
    ensures r.op() == future, r.timer().wait() == timeout
%param sleep: &VxSleep
%rw sleep(timeout) => sleep.start(timeout)
%fn <Timeout<F> as Future>::poll as vx_poll
    ensures
        ends(old(self).op().next(), old(self).timer().next(), r),
        r is Pending ==> final(self).op().asked() == Some(old(cx).task()) && final(self).timer().asked() == Some(old(cx).task()),
%rw self.get_mut() => self
