%# The pool of connections.
%path ArrayQueue::new => VxItems::new
%path SegQueue::new => VxWakers::new
%path AtomicUsize::new => VxCount::new
%path ManuallyDrop::new => VxManual::new
%path Box::pin => vx_pin
%ty ArrayQueue<T> => VxItems<T>
%ty SegQueue<Waker> => VxWakers<T>
%ty AtomicUsize => VxCount<T>
%ty ManuallyDrop<T> => VxManual<T>
%ty Pin<Box<dynFuture<Output=Result<T,T::Error>>+'a>> => VxMake<T, T::Error>
%ty Pin<Box<AsyncPoolGetFuture<'_,T>>> => PoolTake<'_, T, C, N>
%ty Pin<&mutSelf> => &mut Self
%ty std::pin::Pin<&mutSelf> => &mut Self
%ty Context<'_> => VxContext<T>
%ty task::Context<'_> => VxContext<T>
%ty std::task::Context<'_> => VxContext<T>
%ty <SelfasFuture>::Output => Result<PoolItem<'a, T>, T::Error>
%ty Self::Output => Result<PoolItem<'a, T>, T::Error>
%raw
/// How far a caller has come in finding out that there is nothing for it since it left its waker.
pub enum VxSeen { Nothing, Registered, Empty, Full }
/// What one caller (a PoolTake, later the PoolItem it became) is in charge of. Every access to the shared parts of the pool
/// is a step of its owner; the contracts below say which steps it may take, lemma c23_step what all of them together keep.
pub ghost struct VxHolds<T> {
    /// a place in the pool for an item that does not exist yet
    pub making: bool,
    /// an item that nobody else has
    pub item: Option<T>,
    /// it has made something available and must not end before everybody was told
    pub draining: bool,
    /// a task taken off the list that is not awake yet
    pub owes: Option<nat>,
    pub seen: VxSeen,
    /// the task whose waker it left
    pub task: nat,
}
impl<T> VxHolds<T> {
    /// Nothing left to do for others.
    pub open spec fn calm(self) -> bool { !self.draining && self.owes is None }
    // the steps: what each access needs, and what its owner holds afterwards
    pub open spec fn free(self) -> bool { !self.making && self.item is None && self.calm() }
    pub open spec fn popped(self, r: Option<T>) -> Self {
        match r {
            Some(x) => VxHolds { item: r, seen: VxSeen::Nothing, ..self },
            None => VxHolds { seen: if self.seen is Nothing { VxSeen::Nothing } else { VxSeen::Empty }, ..self },
        }
    }
    pub open spec fn loaded(self, full: bool) -> Self { VxHolds { seen: if self.seen is Empty && full { VxSeen::Full } else { self.seen }, ..self } }
    pub open spec fn took(self, ok: bool) -> Self { if ok { VxHolds { making: true, seen: VxSeen::Nothing, ..self } } else { self } }
    pub open spec fn gave(self) -> Self { VxHolds { making: false, draining: true, ..self } }
    pub open spec fn made(self, x: T) -> Self { VxHolds { making: false, item: Some(x), ..self } }
    pub open spec fn pushed(self) -> Self { VxHolds { item: None, draining: true, ..self } }
    pub open spec fn left(self, task: nat) -> Self { VxHolds { seen: VxSeen::Registered, task, ..self } }
    pub open spec fn fetched(self, r: Option<nat>) -> Self { match r { Some(w) => VxHolds { owes: r, ..self }, None => VxHolds { draining: false, ..self } } }
    pub open spec fn woke(self) -> Self { VxHolds { owes: None, ..self } }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub tracked struct VxTrace<T> { x: Option<T> }
impl<T> VxTrace<T> { pub uninterp spec fn view(&self) -> VxHolds<T>; }
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
pub enum Poll<T> { Ready(T), Pending }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxContext<T> { x: Option<T> }
impl<T> VxContext<T> {
    pub uninterp spec fn task(&self) -> nat;
    #[verifier::external_body]
    pub fn waker(&self) -> (r: &VxWaker<T>) ensures r.task() == self.task() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxWaker<T> { x: Option<T> }
impl<T> VxWaker<T> {
    pub uninterp spec fn task(&self) -> nat;
    #[verifier::external_body]
    pub fn wake(self, Tracked(t): Tracked<&mut VxTrace<T>>)
        requires old(t)@.owes == Some(self.task())
        ensures final(t)@ == old(t)@.woke()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wake_by_ref(&self) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.task() == self.task() { unimplemented!() }
}
/// The list of wakers (crossbeam's SegQueue).
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxWakers<T> { x: Option<T> }
impl<T> VxWakers<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&self, w: VxWaker<T>, Tracked(t): Tracked<&mut VxTrace<T>>)
        ensures final(t)@ == old(t)@.left(w.task())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&self, Tracked(t): Tracked<&mut VxTrace<T>>) -> (r: Option<VxWaker<T>>)
        requires old(t)@.owes is None
        ensures final(t)@ == old(t)@.fetched(match r { Some(w) => Some(w.task()), None => None })
    { unimplemented!() }
}
/// The number of items there are or are about to be (an AtomicUsize).
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxCount<T> { x: Option<T> }
impl<T> VxCount<T> {
    pub uninterp spec fn limit(&self) -> nat;
    #[verifier::external_body]
    pub fn new(n: usize, Ghost(limit): Ghost<nat>) -> (r: Self) requires n == 0 ensures r.limit() == limit { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, Tracked(t): Tracked<&mut VxTrace<T>>) -> (r: usize)
        ensures final(t)@ == old(t)@.loaded(r >= self.limit())
    { unimplemented!() }
    /// Taking a place: one place, below the limit.
    #[verifier::external_body]
    pub fn compare_exchange(&self, a: usize, b: usize, o: Ordering, p: Ordering, Tracked(t): Tracked<&mut VxTrace<T>>) -> (r: Result<usize, usize>)
        requires old(t)@.free(), b == a + 1, a < self.limit()
        ensures final(t)@ == old(t)@.took(r is Ok)
    { unimplemented!() }
    /// Giving a place back.
    #[verifier::external_body]
    pub fn fetch_sub(&self, n: usize, o: Ordering, Tracked(t): Tracked<&mut VxTrace<T>>) -> (r: usize)
        requires old(t)@.making, n == 1
        ensures final(t)@ == old(t)@.gave()
    { unimplemented!() }
}
/// The items nobody uses (crossbeam's ArrayQueue; that it is not full when an item comes back is lemma c23_room).
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxItems<T> { x: Vec<T> }
impl<T> VxItems<T> {
    pub uninterp spec fn cap(&self) -> nat;
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: Self) requires n > 0 ensures r.cap() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&self, x: T, Tracked(t): Tracked<&mut VxTrace<T>>) -> (r: Result<(), T>)
        requires old(t)@.item == Some(x)
        ensures r is Ok, final(t)@ == old(t)@.pushed()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&self, Tracked(t): Tracked<&mut VxTrace<T>>) -> (r: Option<T>)
        requires old(t)@.free()
        ensures final(t)@ == old(t)@.popped(r)
    { unimplemented!() }
}
/// An item being made (the boxed future).
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
pub struct VxMake<T, E> { x: Option<(T, E)> }
impl<T, E> VxMake<T, E> {
    pub uninterp spec fn asked(&self) -> Option<nat>;
    #[verifier::external_body]
    pub fn vx_as_mut(&mut self) -> (r: &mut Self)
        ensures *r == *old(self), *final(self) == *final(r)
    { self }
    /// Whoever polls it has the place for the item; the item, once there, takes it.
    #[verifier::external_body]
    pub fn poll(&mut self, cx: &mut VxContext<T>, Tracked(t): Tracked<&mut VxTrace<T>>) -> (r: Poll<Result<T, E>>)
        requires old(t)@.making, old(t)@.item is None
        ensures
            final(cx).task() == old(cx).task(), final(self).asked() == Some(old(cx).task()),
            final(t)@ == (match r { Poll::Ready(Ok(x)) => old(t)@.made(x), _ => old(t)@ })
    { unimplemented!() }
}
pub trait VxOptMut<T>: Sized {
    fn vx_as_mut(&mut self) -> Option<&mut T>;
}
impl<T> VxOptMut<T> for Option<T> {
    #[verifier::external_body]
    fn vx_as_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r { Some(p) => *old(self) == Some(*p) && *final(self) == Some(*final(p)), None => *old(self) is None && *final(self) is None }
    { self.as_mut() }
}
pub fn vx_pin<F>(f: F) -> (r: F) ensures r == f { f }
/// core's ManuallyDrop.
pub struct VxManual<T> { pub x: T }
impl<T> VxManual<T> {
    pub fn new(x: T) -> (r: Self) ensures r.x == x { VxManual { x } }
    #[verifier::external_body]
    pub fn take(p: &mut Self) -> (r: T) ensures r == old(p).x { unimplemented!() }
}
pub trait AsyncPoolContent<C>: Sized {
    type Ctx;
    type Error;
    fn new(ctx: &Self::Ctx, Tracked(t): Tracked<&mut VxTrace<Self>>) -> (r: VxMake<Self, Self::Error>)
        requires old(t)@.making
        ensures *final(t) == *old(t);
}
pub trait PoolPut<T> {
    fn put(&self, value: T, Tracked(t): Tracked<&mut VxTrace<T>>)
        requires old(t)@.item == Some(value), old(t)@.calm()
        ensures final(t)@.item is None, final(t)@.calm(), final(t)@.making == old(t)@.making;
}
%type AsyncPool
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(C)]
%type PoolItem
#[verifier::reject_recursive_types(T)]
%type PoolTake
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(C)]
%raw
impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPool<T, C, N> {
    pub open spec fn wf(&self) -> bool { self.items.limit() == N && self.pool.cap() == N }
}
impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
    /// Between two polls: it has a place exactly while it makes an item, and nothing else.
    pub open spec fn inv(&self, t: VxHolds<T>) -> bool {
        self.pool.wf() && t.making == (self.add is Some) && t.item is None && t.calm()
    }
}
%impl <AsyncPool as PoolPut>
%fn <AsyncPool as PoolPut>::put
%ghost vx_t: &mut VxTrace<T> | push wake
%fn AsyncPool::new
    requires N > 0
    ensures r.wf(), r.ctx == ctx
%rw AtomicUsize::new(0) => AtomicUsize::new(0, Ghost(N as nat))
%fn AsyncPool::wake
    requires old(vx_t)@.owes is None
    ensures final(vx_t)@ == (VxHolds { draining: false, ..old(vx_t)@ })
%ghost vx_t: &mut VxTrace<T> | pop wake
%attr #[verifier::exec_allows_no_decreases_clause]
%loop 0
    invariant vx_t@.owes is None, (VxHolds { draining: false, ..vx_t@ }) == (VxHolds { draining: false, ..old(vx_t)@ })
    ensures vx_t@ == (VxHolds { draining: false, ..old(vx_t)@ })
%fn <AsyncPool as AsyncPoolTrait>::get as vx_get
    requires self.wf()
    ensures r.add is None, *r.pool == *self
%fn PoolTake::cancel_add
    requires old(self).pool.wf(), old(vx_t)@.making == (old(self).add is Some), old(vx_t)@.calm()
    ensures final(self).add is None, *final(self).pool == *old(self).pool, !final(vx_t)@.making, final(vx_t)@.calm(), final(vx_t)@.item == old(vx_t)@.item
%ghost vx_t: &mut VxTrace<T> | fetch_sub wake
%fn <PoolTake as Drop>::drop as vx_drop
    requires old(self).inv(old(vx_t)@)
    ensures final(vx_t)@.calm(), !final(vx_t)@.making, final(vx_t)@.item is None
%ghost vx_t: &mut VxTrace<T> | cancel_add
%fn PoolTake::poll_add
    requires old(self).inv(old(vx_t)@)
    ensures
        *final(self).pool == *old(self).pool, final(cx).task() == old(cx).task(),
        r is None <==> old(self).add is None,
        match r {
            None => final(self).inv(final(vx_t)@) && *final(vx_t) == *old(vx_t) && *final(self) == *old(self),
            Some(Poll::Pending) => final(self).inv(final(vx_t)@) && final(vx_t)@.making && final(self).add->Some_0.asked() == Some(old(cx).task()),
            Some(Poll::Ready(Err(_))) => final(self).inv(final(vx_t)@) && final(self).add is None,
            Some(Poll::Ready(Ok(i))) => final(self).add is None && final(vx_t)@.calm() && !final(vx_t)@.making && final(vx_t)@.item == Some(i.item.x),
        }
%ghost vx_t: &mut VxTrace<T> | poll cancel_add
%fn <PoolTake as Future>::poll as vx_poll
    requires old(self).inv(old(vx_t)@), old(vx_t)@.seen is Nothing
    ensures
        final(vx_t)@.calm(), *final(self).pool == *old(self).pool,
        match r {
            // the item is the caller's now
            Poll::Ready(Ok(i)) => final(self).add is None && !final(vx_t)@.making && final(vx_t)@.item == Some(i.item.x),
            Poll::Ready(Err(_)) => final(self).inv(final(vx_t)@) && final(self).add is None,
            // it will be polled again: by the item being made, or it has left its waker and then found everything taken
            Poll::Pending => final(self).inv(final(vx_t)@) && (if final(self).add is Some { final(self).add->Some_0.asked() == Some(old(cx).task()) }
                else { final(vx_t)@.seen is Full && final(vx_t)@.task == old(cx).task() }),
        }
%attr #[verifier::exec_allows_no_decreases_clause]
%attr #[verifier::loop_isolation(false)]
%rw self.get_mut() => self
%ghost vx_t: &mut VxTrace<T> | pop load compare_exchange push poll_add T::new
%loop 0
    invariant
        this.inv(vx_t@), this.add is None, *this.pool == *old(self).pool, *pool == *this.pool, cx.task() == old(cx).task(),
        waker_added ==> !(vx_t@.seen is Nothing) && vx_t@.task == cx.task(),
%fn <PoolItem as Drop>::drop as vx_drop
    requires old(vx_t)@.item == Some(old(self).item.x), old(vx_t)@.calm()
    ensures final(vx_t)@.item is None, final(vx_t)@.calm()
%ghost vx_t: &mut VxTrace<T> | put
%raw
/// The pool and everybody who deals with it, between two accesses to its shared parts (each of them atomic).
pub ghost struct VxWorld<T> {
    pub limit: nat,
    pub items: nat,
    pub queue: Seq<T>,
    /// the list of wakers: who left it, for which task
    pub wakers: Seq<(int, nat)>,
    pub who: spec_fn(int) -> VxHolds<T>,
    /// those who make or hold an item
    pub making: Set<int>,
    pub holding: Set<int>,
    /// whose waker has been taken off the list since it was left there last
    pub told: spec_fn(int) -> bool,
}
impl<T> VxWorld<T> {
    pub open spec fn draining(self) -> bool { exists|d: int| (#[trigger] (self.who)(d)).draining }
    pub open spec fn waits(self, a: int) -> bool { !((self.who)(a).seen is Nothing) && !(self.told)(a) }
    pub open spec fn inv(self) -> bool {
        &&& self.making.finite() && self.holding.finite()
        &&& forall|a: int| #[trigger] (self.who)(a).making <==> self.making.contains(a)
        &&& forall|a: int| (#[trigger] (self.who)(a)).item is Some <==> self.holding.contains(a)
        &&& forall|a: int| (#[trigger] (self.who)(a)).making ==> (self.who)(a).item is None
        &&& self.items == self.making.len() + self.holding.len() + self.queue.len()
        &&& self.items <= self.limit
        &&& forall|a: int| #[trigger] self.waits(a) ==> self.wakers.contains((a, (self.who)(a).task))
        &&& forall|a: int| #[trigger] self.waits(a) && !((self.who)(a).seen is Registered) ==> self.queue.len() == 0 || self.draining()
        &&& forall|a: int| #[trigger] self.waits(a) && (self.who)(a).seen is Full ==> self.items >= self.limit || self.draining()
    }
    pub open spec fn start(self) -> bool {
        &&& self.items == 0 && self.queue.len() == 0 && self.wakers.len() == 0 && self.making === Set::<int>::empty() && self.holding === Set::<int>::empty()
        &&& forall|a: int| (#[trigger] (self.who)(a)).free() && (self.who)(a).seen is Nothing
    }
    /// Everything but what `a` is in charge of stays as it is.
    pub open spec fn same(self, n: Self, a: int) -> bool {
        &&& n.limit == self.limit
        &&& forall|b: int| b != a ==> #[trigger] (n.who)(b) == (self.who)(b)
        &&& n.making === (if (n.who)(a).making { self.making.insert(a) } else { self.making.remove(a) })
        &&& n.holding === (if (n.who)(a).item is Some { self.holding.insert(a) } else { self.holding.remove(a) })
    }
    pub open spec fn calls(self, n: Self) -> bool { n.wakers === self.wakers && n.told == self.told }
    /// One step of `a`: `h` is what it holds before, `k` afterwards.
    pub open spec fn step(self, n: Self, a: int) -> bool {
        let (h, k) = ((self.who)(a), (n.who)(a));
        &&& self.same(n, a)
        &&& {
            // it is polled (again)
            ||| k == VxHolds { seen: VxSeen::Nothing, ..h } && h.calm() && n.items == self.items && n.queue === self.queue && self.calls(n)
            // VxItems::pop
            ||| h.free() && self.queue.len() > 0 && k == h.popped(Some(self.queue[0])) && n.queue === self.queue.drop_first() && n.items == self.items && self.calls(n)
            ||| h.free() && self.queue.len() == 0 && k == h.popped(None) && n.queue === self.queue && n.items == self.items && self.calls(n)
            // VxItems::push
            ||| h.item is Some && h.calm() && k == h.pushed() && n.queue === (if self.queue.len() < self.limit { self.queue.push(h.item->Some_0) } else { self.queue }) && n.items == self.items && self.calls(n)
            // VxCount::load, compare_exchange, fetch_sub
            ||| k == h.loaded(self.items >= self.limit) && n.queue === self.queue && n.items == self.items && self.calls(n)
            ||| h.free() && self.items < self.limit && k == h.took(true) && n.items == self.items + 1 && n.queue === self.queue && self.calls(n)
            ||| h.free() && k == h.took(false) && n.items == self.items && n.queue === self.queue && self.calls(n)
            ||| h.making && k == h.gave() && n.items == self.items - 1 && n.queue === self.queue && self.calls(n)
            // VxMake::poll, when the item is there
            ||| h.making && h.item is None && (exists|x: T| k == h.made(x)) && n.items == self.items && n.queue === self.queue && self.calls(n)
            // VxWakers::push and pop, VxWaker::wake
            ||| (exists|t: nat| k == h.left(t)) && n.wakers === self.wakers.push((a, k.task)) && n.told == (|b: int| b != a && (self.told)(b)) && n.items == self.items && n.queue === self.queue
            ||| h.owes is None && self.wakers.len() > 0 && k == h.fetched(Some(self.wakers[0].1)) && n.wakers === self.wakers.drop_first()
                && n.told == (|b: int| (self.told)(b) || self.wakers[0] == (b, (self.who)(b).task)) && n.items == self.items && n.queue === self.queue
            ||| h.owes is None && self.wakers.len() == 0 && k == h.fetched(None) && n.items == self.items && n.queue === self.queue && self.calls(n)
            ||| h.owes is Some && k == h.woke() && n.items == self.items && n.queue === self.queue && self.calls(n)
        }
    }
}
/// Whatever the order in which callers on any threads make their steps, the pool keeps its promises.
pub proof fn c23_step<T>(w: VxWorld<T>, n: VxWorld<T>, a: int)
    requires w.inv(), w.step(n, a)
    ensures n.inv()
{
    let (h, k) = ((w.who)(a), (n.who)(a));
    assert(h.making == w.making.contains(a) && (h.item is Some) == w.holding.contains(a));
    assert forall|b: int| #[trigger] (n.who)(b).making <==> n.making.contains(b) by { assert((w.who)(b).making == w.making.contains(b)); if b != a { assert((n.who)(b) == (w.who)(b)); } }
    assert forall|b: int| (#[trigger] (n.who)(b)).item is Some <==> n.holding.contains(b) by { assert(((w.who)(b).item is Some) == w.holding.contains(b)); if b != a { assert((n.who)(b) == (w.who)(b)); } }
    assert forall|b: int| (#[trigger] (n.who)(b)).making implies (n.who)(b).item is None by { assert((w.who)(b).making ==> (w.who)(b).item is None); if b != a { assert((n.who)(b) == (w.who)(b)); } }
    assert(w.making.contains(a) ==> w.making.len() > 0) by { if w.making.contains(a) { vstd::set_lib::lemma_set_empty_equivalency_len(w.making); } }
    assert(w.holding.contains(a) ==> w.holding.len() > 0) by { if w.holding.contains(a) { vstd::set_lib::lemma_set_empty_equivalency_len(w.holding); } }
    assert(w.queue.len() < w.limit || h.item is None);
    assert(n.items == n.making.len() + n.holding.len() + n.queue.len() && n.items <= n.limit);
    // those who wait
    assert forall|b: int| #[trigger] n.waits(b) implies n.wakers.contains((b, (n.who)(b).task)) by {
        if b != a { assert((n.who)(b) == (w.who)(b)); }
        let e = (b, (n.who)(b).task);
        if b == a && k.seen is Registered && n.wakers === w.wakers.push((a, k.task)) {
            assert(n.wakers.last() == e);
        } else {
            assert(w.waits(b));
            let i = choose|i: int| 0 <= i < w.wakers.len() && w.wakers[i] == e;
            if n.wakers === w.wakers.push((a, k.task)) { assert(n.wakers[i] == e); }
            else if w.wakers.len() > 0 && n.wakers === w.wakers.drop_first() { assert(i > 0); assert(n.wakers[i - 1] == e); }
            else { assert(n.wakers[i] == e); }
        }
    }
    assert(w.draining() ==> n.draining() || w.wakers.len() == 0) by {
        if w.draining() {
            let d = choose|d: int| (#[trigger] (w.who)(d)).draining;
            if d != a { assert((n.who)(d).draining); } else if k.draining { assert((n.who)(a).draining); }
        }
    }
    assert(k.draining ==> n.draining());
    assert forall|b: int| #[trigger] n.waits(b) && !((n.who)(b).seen is Registered) implies n.queue.len() == 0 || n.draining() by {
        if b != a { assert((n.who)(b) == (w.who)(b)); assert(w.waits(b)); } else { assert(w.waits(a)); }
    }
    assert forall|b: int| #[trigger] n.waits(b) && (n.who)(b).seen is Full implies n.items >= n.limit || n.draining() by {
        if b != a { assert((n.who)(b) == (w.who)(b)); assert(w.waits(b)); } else { assert(w.waits(a)); }
    }
}
pub proof fn c23_run<T>(ws: Seq<VxWorld<T>>, by: Seq<int>)
    requires ws.len() > 0, ws[0].start(), forall|i: int| 0 <= i < ws.len() - 1 ==> (#[trigger] ws[i]).step(ws[i + 1], by[i])
    ensures ws.last().inv()
    decreases ws.len()
{
    if ws.len() > 1 {
        let m = ws.drop_last();
        assert forall|i: int| 0 <= i < m.len() - 1 implies (#[trigger] m[i]).step(m[i + 1], by[i]) by { assert(ws[i].step(ws[i + 1], by[i])); }
        c23_run(m, by);
        let i = ws.len() - 2;
        assert(ws[i].step(ws[i + 1], by[i]));
        c23_step(ws[i], ws[i + 1], by[i]);
    }
}
/// Never more items than the pool may have: those in use, those nobody uses and those being made together.
pub proof fn c23_capacity<T>(w: VxWorld<T>)
    requires w.inv()
    ensures w.holding.len() + w.queue.len() + w.making.len() <= w.limit
{
}
/// An item that comes back finds room.
pub proof fn c23_room<T>(w: VxWorld<T>, a: int)
    requires w.inv(), (w.who)(a).item is Some
    ensures w.queue.len() < w.limit
{
    assert(w.holding.contains(a));
    vstd::set_lib::lemma_set_empty_equivalency_len(w.holding);
}
/// Who was not told and waits, waits for good reason: once everybody who has to tell others has done so, there is nothing to be had.
pub proof fn c23_nobody_forgotten<T>(w: VxWorld<T>, a: int)
    requires w.inv(), !w.draining(), (w.who)(a).seen is Full, !(w.told)(a)
    ensures w.queue.len() == 0, w.items == w.limit, w.wakers.contains((a, (w.who)(a).task))
{
    assert(w.waits(a));
}
