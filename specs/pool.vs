%# The pool of buffers.
%path ArrayQueue::new => VxQueue::new
%ty ArrayQueue<T> => VxQueue<T>
%path ManuallyDrop::new => VxManual::new
%ty ManuallyDrop<T> => VxManual<T>
%raw
/// crossbeam's ArrayQueue: every element it hands out is one that was put in, and only elements that satisfy its predicate may be.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxQueue<T> { x: Vec<T> }
impl<T> VxQueue<T> {
    pub uninterp spec fn ok(&self, x: T) -> bool;
    #[verifier::external_body]
    pub fn new(n: usize, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: Self)
        requires n > 0
        ensures forall|x: T| #[trigger] r.ok(x) <==> p(x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&self, x: T) -> (r: Result<(), T>)
        requires self.ok(x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&self) -> (r: Option<T>)
        ensures r is Some ==> self.ok(r->Some_0)
    { unimplemented!() }
}
/// core's ManuallyDrop.
pub struct VxManual<T> { pub x: T }
impl<T> VxManual<T> {
    pub fn new(x: T) -> (r: Self) ensures r.x == x { VxManual { x } }
    pub fn vx_get(&self) -> (r: &T) ensures *r == self.x { &self.x }
    #[verifier::external_body]
    pub fn vx_get_mut(&mut self) -> (r: &mut T) ensures *r == old(self).x, final(self).x == *final(r) { &mut self.x }
    #[verifier::external_body]
    pub fn take(p: &mut Self) -> (r: T) ensures r == old(p).x { unimplemented!() }
}
pub uninterp spec fn vec_cap<T>(v: Vec<T>) -> nat;
pub trait VxVecMem<T>: Sized {
    spec fn mem(&self) -> Seq<T>;
    spec fn cap(&self) -> nat;
    /// `set_len` downwards: the elements behind are forgotten.
    fn vx_set_len(&mut self, n: usize)
        requires n <= old(self).mem().len()
        ensures final(self).mem() == old(self).mem().take(n as int), final(self).cap() == old(self).cap();
    fn vx_shrink_to(&mut self, n: usize)
        ensures final(self).mem() == old(self).mem(), final(self).cap() <= (if n > old(self).mem().len() { n as nat } else { old(self).mem().len() });
}
impl<T> VxVecMem<T> for Vec<T> {
    open spec fn mem(&self) -> Seq<T> { self@ }
    open spec fn cap(&self) -> nat { vec_cap(*self) }
    #[verifier::external_body]
    fn vx_set_len(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vx_shrink_to(&mut self, n: usize) { unimplemented!() }
}
pub trait SyncPoolContent: Sized {
    type Ctx;
    /// What a user may rely on in an item fresh from the pool.
    spec fn clean(ctx: &Self::Ctx, x: Self) -> bool;
    /// What the pool keeps between users.
    spec fn small(ctx: &Self::Ctx, x: Self) -> bool;
    fn new(ctx: &Self::Ctx) -> (r: Self) ensures Self::clean(ctx, r);
    fn reset(&mut self, ctx: &Self::Ctx) ensures Self::clean(ctx, *final(self)), Self::small(ctx, *final(self));
}
pub trait PoolPut<T> {
    spec fn ready(&self) -> bool;
    fn put(&self, value: T) requires self.ready();
}
%type VecPoolCtx
%type SyncPool
#[verifier::reject_recursive_types(T)]
%type PoolItem
#[verifier::reject_recursive_types(T)]
%impl <Vec<T> as SyncPoolContent>
    open spec fn clean(ctx: &VecPoolCtx, x: Vec<T>) -> bool { x@.len() == 0 }
    open spec fn small(ctx: &VecPoolCtx, x: Vec<T>) -> bool { vec_cap(x) <= ctx.size_cap }
%fn <Vec<T> as SyncPoolContent>::new
%fn <Vec<T> as SyncPoolContent>::reset
%raw
impl<T: SyncPoolContent, const N: usize> SyncPool<T, N> {
    /// Whatever the queue hands out, at any time and to any thread, is clean and small.
    pub open spec fn wf(&self) -> bool {
        forall|x: T| #[trigger] self.pool.ok(x) <==> T::clean(&self.ctx, x) && T::small(&self.ctx, x)
    }
}
%impl <SyncPool as PoolPut>
    open spec fn ready(&self) -> bool { self.wf() }
%fn <SyncPool as PoolPut>::put
%fn SyncPool::new
    requires N > 0
    ensures r.wf(), r.ctx == ctx
%rw ArrayQueue::new(N) => VxQueue::new(N, Ghost(|x: T| T::clean(&ctx, x) && T::small(&ctx, x)))
%fn SyncPool::get
    requires self.wf()
    ensures T::clean(&self.ctx, r.item.x), r.pool.ready()
%opt map=option
%fn <PoolItem as Drop>::drop as vx_drop
    requires old(self).pool.ready()
%fn <PoolItem as Deref>::deref as vx_deref
    ensures *r == self.item.x
%rw &self.item => self.item.vx_get()
%fn <PoolItem as DerefMut>::deref_mut as vx_deref_mut
    ensures *r == old(self).item.x, final(self).item.x == *final(r)
%ret &mut T
%rw &mut self.item => self.item.vx_get_mut()
%raw
/// What a user of the pool of byte buffers sees (the contract unit io assumes of `BUFFER_POOL.get()`).
pub fn vx_user(p: &SyncPool<Vec<u8>, 64>) -> (r: Vec<u8>)
    requires p.wf()
    ensures r@.len() == 0
{
    let i = p.get();
    i.item.x
}
%const DEFAULT_MAX_ALLOWED_PACKET
%fn <BUFFER_POOL as __Deref>::deref::__static_ref_initialize as fn vx_buffer_pool
    ensures r.wf()
