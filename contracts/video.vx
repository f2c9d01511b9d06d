%include num.rs
%include plane.vx
%include decoder.rs
%include channel.rs
%source av_metrics/src/lib.rs
%struct MetricsError
%include pipeline.rs
%raw
pub type VxText = String;
#[verifier::external_body]
pub fn vx_format() -> VxText { String::new() }

/// what the decoding thread has done when it ends on its own
pub open spec fn thread_done<T: Pixel>(plan: Seq<Pair<T>>, log: Seq<Pair<T>>, failed: bool, t0: Seq<usize>, t1: Seq<usize>, ret: Result<(), VxText>) -> bool {
    &&& !failed ==> ret is Ok && log == plan && t1 == t0 + calls(plan.len() as int)
    &&& failed ==> ret is Err
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Handle<T: Pixel> { p: core::marker::PhantomData<T> }
impl<T: Pixel> Handle<T> {
    pub uninterp spec fn plan(&self) -> Seq<Pair<T>>;
    pub uninterp spec fn panics(&self) -> bool;
    /// waits for the end of the thread, so the thread must not wait for a receiver
    #[verifier::external_body]
    pub fn join(self, recv: &mut Receiver<Pair<T>>) -> (ret: Result<Result<(), VxText>, Panic>)
        requires old(recv).closed() || old(recv).ended(),
        ensures
            *final(recv) == *old(recv),
            ret is Err <==> self.panics(),
            ret is Ok ==> exists|log: Seq<Pair<T>>, failed: bool, t0: Seq<usize>, t1: Seq<usize>|
                (old(recv).ended() ==> !failed) && #[trigger] thread_done(self.plan(), log, failed, t0, t1, ret->Ok_0),
    { unimplemented!() }
}
/// The thread runs the function below (its contract is the body of thread_done); its
/// messages arrive, all of them unless it panics.
#[verifier::external_body]
pub fn vx_spawn_1<D: VideoDecoder, T: Pixel, F: Progress>(frame_limit: Option<usize>, decoder1: &mut D, decoder2: &mut D, progress_callback: F, send: Sender<Pair<T>>, recv: &mut Receiver<Pair<T>>) -> (ret: Handle<T>)
    requires
        send.log().len() == 0, !send.failed(), old(decoder1).left::<T>().len() < usize::MAX, old(decoder2).left::<T>().len() < usize::MAX,
    ensures
        ret.plan() == pairs::<D, T>(*old(decoder1), *old(decoder2), frame_limit),
        final(recv).closed() == old(recv).closed(), final(recv).ended() == old(recv).ended(),
        exists|k: int| 0 <= k <= ret.plan().len() && final(recv).pending() == #[trigger] ret.plan().take(k) && (!ret.panics() ==> k == ret.plan().len()),
        old(decoder1).steady() && old(decoder2).steady() && progress_callback.steady() ==> !ret.panics(),
{ unimplemented!() }
/// got and what is pending are everything
pub open spec fn bag<X>(got: Seq<X>, pending: Seq<X>, all: Seq<X>) -> bool { got.to_multiset().add(pending.to_multiset()) == all.to_multiset() }
proof fn bag_start<X>(all: Seq<X>) ensures bag(Seq::empty(), all, all) {
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(Seq::<X>::empty().to_multiset() =~= vstd::multiset::Multiset::empty());
    assert(Seq::<X>::empty().to_multiset().add(all.to_multiset()) =~= all.to_multiset());
}
proof fn bag_step<X>(got: Seq<X>, p: Seq<X>, all: Seq<X>, i: int)
    requires bag(got, p, all), 0 <= i < p.len()
    ensures bag(got.push(p[i]), p.remove(i), all)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(got.push(p[i]).to_multiset() =~= got.to_multiset().insert(p[i]));
    assert(p.remove(i).to_multiset() =~= p.to_multiset().remove(p[i]));
    assert(p.contains(p[i]));
    assert(p.to_multiset().count(p[i]) > 0);
    assert(got.push(p[i]).to_multiset().add(p.remove(i).to_multiset()) =~= got.to_multiset().add(p.to_multiset()));
}
proof fn bag_end<X>(got: Seq<X>, p: Seq<X>, all: Seq<X>)
    requires bag(got, p, all), p.len() == 0
    ensures same_bag(got, all)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(p =~= Seq::empty());
    assert(p.to_multiset() =~= vstd::multiset::Multiset::empty());
    assert(got.to_multiset().add(p.to_multiset()) =~= got.to_multiset());
}
pub proof fn bag_has<X>(got: Seq<X>, all: Seq<X>, i: int)
    requires same_bag(got, all), 0 <= i < all.len()
    ensures got.len() == all.len(), exists|j: int| 0 <= j < got.len() && #[trigger] got[j] == all[i]
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(all.contains(all[i]));
    assert(all.to_multiset().count(all[i]) > 0);
    assert(got.to_multiset().len() == got.len() && all.to_multiset().len() == all.len());
    assert(got.contains(all[i]));
    let j = choose|j: int| 0 <= j < got.len() && got[j] == all[i];
    assert(got[j] == all[i]);
}
/// one result of a worker
pub open spec fn worked<M: VideoMetric, T: Pixel>(m: &M, p: Pair<T>, b: int, c: ChromaSampling, r: Result<M::FrameResult, VxText>) -> bool {
    match r { Ok(v) => m.scored(p, b, c, Ok(v)), Err(_) => may_fail(m, p, b, c) }
}
/// one turn of a worker: it took a pair and scored it, or the end was reached
pub open spec fn turn<M: VideoMetric, T: Pixel>(m: &M, b: int, c: ChromaSampling, p0: Seq<Pair<T>>, p1: Seq<Pair<T>>, a0: Seq<Result<M::FrameResult, VxText>>, a1: Seq<Result<M::FrameResult, VxText>>, i: int) -> bool {
    0 <= i < p0.len() && p1 == p0.remove(i) && a1.len() == a0.len() + 1 && a1.take(a0.len() as int) == a0 && worked(m, p0[i], b, c, a1[a0.len() as int])
}
%end
%source av_metrics/src/video/mod.rs
%fn VideoMetric::process_video_mt
%self M
%moves
%sig fn process_video_mt<M: VideoMetric, D: VideoDecoder, P: Pixel, F: Progress>(this: &mut M, decoder1: &mut D, decoder2: &mut D, frame_limit: Option<usize>, progress_callback: F) -> (ret: Result<M::VideoResult, MetricsError>)
%spec
    requires
        video_req::<M, D, P>(old(this), *old(decoder1), *old(decoder2), frame_limit),
    ensures
        *final(this) == *old(this),
        video_is::<M, P>(old(this), pairs::<D, P>(*old(decoder1), *old(decoder2), frame_limit), old(decoder1).details().bit_depth as int, old(decoder1).details().chroma_sampling,
            old(decoder1).steady() && old(decoder2).steady() && progress_callback.steady(), ret),
%nested thread1
%sig fn process_video_mt__thread1<D: VideoDecoder, P: Pixel, F: Progress>(frame_limit: Option<usize>, decoder1: &mut D, decoder2: &mut D, progress_callback: &mut F, send: &mut Sender<Pair<P>>) -> (ret: Result<(), VxText>)
%spec
    requires
        old(send).plan() == pairs::<D, P>(*old(decoder1), *old(decoder2), frame_limit), old(send).log().len() == 0, !old(send).failed(),
        old(decoder1).left::<P>().len() < usize::MAX, old(decoder2).left::<P>().len() < usize::MAX,
    ensures thread_done(old(send).plan(), final(send).log(), final(send).failed(), old(progress_callback).trace(), final(progress_callback).trace(), ret),
%at start
    let ghost (all, t0) = (send.plan(), progress_callback.trace());
    let ghost (l1, l2) = (decoder1.left::<P>(), decoder2.left::<P>());
    let ghost mut n: int = 0;
    proof { assert(all.take(0) =~= Seq::empty()); assert(calls(0).take(0) =~= Seq::empty()); assert(send.log() =~= all.take(0)); assert(t0 + calls(0).take(0) =~= t0); assert(l1.skip(0) =~= l1); assert(l2.skip(0) =~= l2); }
%loop 1 isolated
    invariant_except_break
        n == decoded, n <= l1.len(), n <= l2.len(), decoder1.left::<P>() == l1.skip(n), decoder2.left::<P>() == l2.skip(n),
    invariant
        send.plan() == all, !send.failed(), 0 <= n <= all.len(), send.log() == all.take(n),
        all.len() < usize::MAX, l1.len() < usize::MAX, l2.len() < usize::MAX,
        forall|i: int| 0 <= i < all.len() ==> #[trigger] all[i] == (l1[i], l2[i]),
        all.len() == (match frame_limit { Some(l) => imin(l as int, imin(l1.len() as int, l2.len() as int)), None => imin(l1.len() as int, l2.len() as int) }),
        progress_callback.trace() == t0 + calls(n).take(n),
    ensures n == all.len(),
    decreases l1.len() - n
%at loop 1 end
    proof {
        assert(all.take(n + 1) =~= all.take(n).push(all[n]));
        assert(t0 + calls(n + 1).take(n + 1) =~= (t0 + calls(n).take(n)).push((n + 1) as usize));
        assert(l1.skip(n).skip(1) =~= l1.skip(n + 1)); assert(l2.skip(n).skip(1) =~= l2.skip(n + 1));
        n = n + 1;
    }
%at end
    proof {
        assert(all.take(n) =~= all);
        assert(t0 + calls(n) =~= (t0 + calls(n).take(n)).push(usize::MAX));
    }
%endnested
%at start
    let ghost m0 = *this;
    let ghost (b, c) = (decoder1.details().bit_depth as int, decoder1.details().chroma_sampling);
    let ghost all = pairs::<D, P>(*decoder1, *decoder2, frame_limit);
    let ghost mut got: Seq<Pair<P>> = Seq::empty();
    let ghost mut arrived: Seq<Pair<P>> = Seq::empty();
    let ghost mut panicked = false;
%at let send_result
    let ghost arriving = recv.pending();
    let ghost mut now: Seq<Pair<P>> = Seq::empty();
    proof { bag_start(arriving); arrived = arriving; panicked = send_result.panics(); }
%loop 1 isolated
    invariant_except_break
        process_error is Ok, all_scored(&m0, got, b, c, metrics@), bag(got, recv.pending(), arriving),
    invariant
        *this == m0, !recv.closed(), num_threads >= 1, vid_info.bit_depth == b, vid_info.chroma_sampling == c,
        forall|i: int| 0 <= i < recv.pending().len() ==> arriving.contains(#[trigger] recv.pending()[i]),
        forall|p: Pair<P>| arriving.contains(p) ==> #[trigger] m0.input_ok(p, b),
        recv.ended() ==> recv.pending().len() == 0,
    ensures
        process_error is Ok ==> recv.ended() && same_bag(got, arriving) && all_scored(&m0, got, b, c, metrics@),
        process_error is Err ==> exists|p: Pair<P>| arriving.contains(p) && #[trigger] may_fail(&m0, p, b, c),
    decreases recv.pending().len()
%at loop 1 start
    let ghost (got0, pend0) = (got, recv.pending());
    proof { now = Seq::empty(); assert(got0 + now =~= got0); }
%loop 2
    invariant
        *this == m0, !recv.closed(), num_threads >= 1, len__4 == num_threads, vid_info.bit_depth == b, vid_info.chroma_sampling == c,
        forall|i: int| 0 <= i < recv.pending().len() ==> arriving.contains(#[trigger] recv.pending()[i]),
        forall|p: Pair<P>| arriving.contains(p) ==> #[trigger] m0.input_ok(p, b),
        recv.ended() ==> recv.pending().len() == 0,
        bag(got0 + now, recv.pending(), arriving), now.len() == acc__1@.len(), acc__1@.len() + recv.pending().len() == pend0.len(),
        i__2 > 0 && acc__1@.len() == 0 ==> recv.ended(),
        forall|j: int| 0 <= j < now.len() ==> arriving.contains(#[trigger] now[j]) && worked(&m0, now[j], b, c, acc__1@[j]),
%at loop 2 start
    let ghost (p0, a0) = (recv.pending(), acc__1@);
%at loop 2 end
    proof {
        if p0.len() > 0 {
            assert(acc__1@.take(a0.len() as int) =~= a0);
            let i0 = choose|i: int| 0 <= i < p0.len() && worked(&m0, #[trigger] p0[i], b, c, acc__1@[a0.len() as int]) && recv.pending() == p0.remove(i);
            assert(turn(&m0, b, c, p0, recv.pending(), a0, acc__1@, i0));
            let i = choose|i: int| #[trigger] turn(&m0, b, c, p0, recv.pending(), a0, acc__1@, i);
            bag_step(got0 + now, p0, arriving, i);
            assert((got0 + now).push(p0[i]) =~= got0 + now.push(p0[i]));
            assert(forall|j: int| 0 <= j < a0.len() ==> #[trigger] a0[j] == acc__1@.take(a0.len() as int)[j]);
            now = now.push(p0[i]);
        }
    }
%at let working_set
    let ghost ws = working_set@;
%loop 3
    invariant
        len__9 == ws.len(), rest__6@ == ws.skip(i__7 as int),
        process_error is Ok ==> acc__5@.len() == i__7 && forall|j: int| 0 <= j < i__7 ==> #[trigger] ws[j] == Ok::<M::FrameResult, VxText>(acc__5@[j]),
        process_error is Err ==> exists|j: int| 0 <= j < i__7 && #[trigger] ws[j] is Err,
%at let work_set
    proof {
        if process_error is Ok {
            if work_set@.len() == 0 {
                assert(now =~= Seq::empty());
                assert(got0 + now =~= got0);
                bag_end(got0, recv.pending(), arriving);
            }
        } else {
            let j = choose|j: int| 0 <= j < ws.len() && #[trigger] ws[j] is Err;
            assert(worked(&m0, now[j], b, c, ws[j]));
            assert(arriving.contains(now[j]) && may_fail(&m0, now[j], b, c));
        }
    }
%at loop 1 end
    proof {
        got = got0 + now;
        assert forall|i: int| 0 <= i < got.len() implies m0.scored(#[trigger] got[i], b, c, Ok(metrics@[i])) by {
            if i >= got0.len() { assert(worked(&m0, now[i - got0.len()], b, c, ws[i - got0.len()])); }
        }
    }
%at let scope_result
    proof {
        assert(scope_result is Ok);
        let (se, pe) = scope_result->Ok_0;
        assert(se is Ok ==> !panicked);
        assert(!panicked ==> arrived =~= all);
        if pe is Ok && !panicked {
            assert(se is Ok);
            assert(same_bag(got, all) && all_scored(&m0, got, b, c, out@));
            assert forall|i: int| 0 <= i < all.len() && must_fail(&m0, #[trigger] all[i], b, c) implies false by {
                bag_has(got, all, i);
                let j = choose|j: int| 0 <= j < got.len() && #[trigger] got[j] == all[i];
                assert(m0.scored(got[j], b, c, Ok(out@[j])));
            }
            if all.len() > 0 { bag_has(got, all, 0); }
            if got.len() > 0 { bag_has(all, got, 0); }
            if all.len() > 0 {
                assert forall|i: int| #![trigger got[i]] 0 <= i < got.len() implies m0.input_ok(got[i], b) && m0.scored(got[i], b, c, Ok(out@[i])) by {
                    bag_has(all, got, i);
                    assert(all.contains(got[i]));
                }
                m0.can_pool::<P>(got, b, c, out@);
            }
        }
    }
%endfn

%fn VideoMetric::process_video
%self M
%sig fn process_video<M: VideoMetric, D: VideoDecoder, F: Progress>(this: &mut M, decoder1: &mut D, decoder2: &mut D, frame_limit: Option<usize>, progress_callback: F) -> (ret: Result<M::VideoResult, MetricsError>)
%spec
    requires process_req(old(this), *old(decoder1), *old(decoder2), frame_limit),
    ensures
        process_is(old(this), *old(decoder1), *old(decoder2), frame_limit, progress_callback, ret),
        !same_format(*old(decoder1), *old(decoder2)) ==> *final(decoder1) == *old(decoder1) && *final(decoder2) == *old(decoder2),
%endfn
