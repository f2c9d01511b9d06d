// ------------------------------------- threads and channels (assumed)
/// what the receiver of a channel does not know yet: the messages to come
#[verifier::external_body]
#[verifier::reject_recursive_types(M)]
pub struct Receiver<M> { m: core::marker::PhantomData<M> }
/// `log`: sent so far; `failed`: a message was refused; `plan`: what the thread is to send
#[verifier::external_body]
#[verifier::reject_recursive_types(M)]
pub struct Sender<M> { m: core::marker::PhantomData<M> }
pub struct RecvError {}
pub struct SendError<M> { pub m: M }
/// the value of a panic
pub struct Panic {}
impl<M> Receiver<M> {
    /// the messages that arrive, in the order of sending
    pub uninterp spec fn pending(&self) -> Seq<M>;
    /// the receiver is dropped: a blocked sender goes on and fails
    pub uninterp spec fn closed(&self) -> bool;
    /// recv has reported the end: all messages were received and no sender is left
    pub uninterp spec fn ended(&self) -> bool;
    /// recv returns some message that has arrived (several threads may receive);
    /// it waits for one while the sender is alive
    #[verifier::external_body]
    pub fn recv(&mut self) -> (ret: Result<M, RecvError>)
        requires !old(self).closed(),
        ensures
            !final(self).closed(),
            old(self).ended() ==> final(self).ended(),
            old(self).pending().len() == 0 ==> ret is Err && final(self).ended() && final(self).pending() == old(self).pending(),
            old(self).pending().len() > 0 ==> ret is Ok && final(self).ended() == old(self).ended() && exists|i: int| 0 <= i < old(self).pending().len()
                && ret->Ok_0 == #[trigger] old(self).pending()[i] && final(self).pending() == old(self).pending().remove(i),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&mut self)
        ensures final(self).closed(), final(self).ended() == old(self).ended(), final(self).pending() == old(self).pending(),
    { unimplemented!() }
}
impl<M> Sender<M> {
    pub uninterp spec fn plan(&self) -> Seq<M>;
    pub uninterp spec fn log(&self) -> Seq<M>;
    pub uninterp spec fn failed(&self) -> bool;
    /// the next message of the plan, and no other
    #[verifier::external_body]
    pub fn send(&mut self, m: M) -> (ret: Result<(), SendError<M>>)
        requires
            !old(self).failed(),
            old(self).log().len() < old(self).plan().len(),
            m == old(self).plan()[old(self).log().len() as int],
        ensures
            final(self).plan() == old(self).plan(),
            ret is Ok ==> !final(self).failed() && final(self).log() == old(self).log().push(m),
            ret is Err ==> final(self).failed() && final(self).log() == old(self).log(),
    { unimplemented!() }
}
impl<M> SendError<M> {
    #[verifier::external_body]
    pub fn into_inner(self) -> (ret: M) ensures ret == self.m { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_channel<M>(capacity: usize) -> (ret: (Sender<M>, Receiver<M>))
    ensures ret.0.log().len() == 0, !ret.0.failed(), !ret.1.closed(), !ret.1.ended(),
{ unimplemented!() }
/// The end of a scope waits for its threads, like join: the thread must be able to end.
#[verifier::external_body]
pub fn vx_scope_end<M, R>(recv: &mut Receiver<M>, r: R) -> (ret: Result<R, Panic>)
    requires old(recv).closed() || old(recv).ended(),
    ensures ret matches Ok(v) && v == r,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_num_threads() -> (ret: usize) ensures ret >= 1 { unimplemented!() }
#[verifier::external_body]
pub fn vx_pop_front<X>(v: &mut Vec<X>) -> (ret: X)
    requires old(v)@.len() > 0,
    ensures ret == old(v)@[0], final(v)@ == old(v)@.skip(1),
{ v.remove(0) }
#[verifier::external_body]
pub fn vx_extend<X>(v: &mut Vec<X>, w: Vec<X>)
    ensures final(v)@ == old(v)@ + w@,
{ v.extend(w) }
