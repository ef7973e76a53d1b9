//@include prelude.rs
//@include abort.rs
//@include ixmodel.rs
//@include types.rs
//@include market_spec.rs
//@item state/orderbook/heap.rs EventType copy eq
//@item state/orderbook/heap.rs EVENT_SIZE
//@item state/orderbook/heap.rs OutEvent
//@include accounts_spec.rs
//@include heap_ghost.rs
//@include ev_spec.rs
//@include accts.rs
//@include remain.rs
//@include castev.rs
//@item instructions/consume_events.rs MAX_EVENTS_CONSUME
//@include consume_spec.rs
//@item accounts_ix/consume_events.rs ConsumeEvents
//@item state/orderbook/heap.rs EventHeapIterator
impl<'a> EventHeapIterator<'a> {
    pub open spec fn wf(self) -> bool {
        &&& self.heap.wf()
        &&& self.index <= self.heap.used().len()
        &&& self.index < self.heap.used().len() ==> self.slot == self.heap.used()[self.index as int]
    }
//@usefn heap.rs Iterator@EventHeapIterator::next
}
impl EventNode {
//@usefn heap.rs EventNode::is_free
}
impl EventHeap {
//@usefn heap.rs EventHeap::at_slot
//@usefn heap.rs EventHeap::delete_slot
//@usefn heap.rs EventHeap::iter
}
impl OpenOrdersAccount {
//@usefn accounts.rs OpenOrdersAccount::cancel_order
//@usefn accounts.rs OpenOrdersAccount::execute_maker
}
/// `unique`: an entry already chosen is passed over
pub fn vx_unique(v: &mut Vec<usize>, x: usize)
    ensures final(v)@ == (if old(v)@.contains(x) { old(v)@ } else { old(v)@.push(x) })
{
    let mut i: usize = 0;
    while i < v.len() invariant i <= v.len(), v@ == old(v)@, forall|j: int| 0 <= j < i ==> v@[j] != x decreases v.len() - i {
        if v[i] == x { assert(v@[i as int] == x); return; }
        i += 1;
    }
    v.push(x);
}
pub open spec fn ints(s: Seq<usize>) -> Seq<int> { s.map_values(|x: usize| x as int) }
pub proof fn lemma_ints(s: Seq<usize>, x: usize) ensures ints(s.push(x)) == ints(s).push(x as int), ints(s).contains(x as int) == s.contains(x) {
    assert(ints(s.push(x)) =~= ints(s).push(x as int));
    if s.contains(x) { assert(ints(s)[s.index_of(x)] == x as int); }
    if ints(s).contains(x as int) { let j = ints(s).index_of(x as int); assert(s[j] == x); }
}
//@rw slots.unwrap_or_default().into_iter().filter(|slot| $c).chain(event_heap.iter().map(|(_event, slot)| slot)).unique().take(limit).collect_vec() => { let vx_given: Vec<usize> = match slots { Some(v) => v, None => Vec::new() }; let mut vx_out: Vec<usize> = Vec::new(); let mut vx_i: usize = 0; while vx_i < vx_given.len() && vx_out.len() < limit { let slot = &vx_given[vx_i]; if $c { vx_unique(&mut vx_out, *slot); } vx_i += 1; } let mut vx_it = event_heap.iter(); while vx_out.len() < limit { match vx_it.next() { None => { break; } Some((_event, slot)) => { vx_unique(&mut vx_out, slot); } } } vx_out }
//@rw cast_ref($x) => vx_evref($x)
//@rw &ctx.remaining_accounts => remaining
//@fn instructions/consume_events.rs consume_events mode=abort addparam=remaining:~&mut~VxAccs
    requires old(ctx).accounts.event_heap.data.wf()
    ensures r is Ok ==> final(ctx).accounts.event_heap.data.wf() && ({
        let a = old(ctx).accounts; let b = final(ctx).accounts;
        consumed(todo_of(a.event_heap.data, slots, limit as int), EvW { h: a.event_heap.data, s: old(remaining)@, m: a.market.data }, EvW { h: b.event_heap.data, s: final(remaining)@, m: b.market.data })
    })
//@start
    let ghost old_limit = limit;
//@after @let remaining_accs
    let ghost h0 = *event_heap; let ghost w0 = EvW { h: *event_heap, s: remaining_accs@, m: *market }; let ghost n = limit as int;
//@inv 0
    invariant
        vx_given@ == given(slots), vx_i <= vx_given.len(), *event_heap == h0, h0.wf(), n == limit, ints(vx_out@) == pick(asked(h0, vx_given@, vx_i as int), n),
        forall|j: int| 0 <= j < vx_out.len() ==> h0.used().contains((#[trigger] vx_out@[j]) as int),
    decreases vx_given.len() - vx_i
//@loopstart 0
    let ghost o1 = vx_out@; let ghost i1 = vx_i as int;
//@loopend 0
    proof { let x = vx_given@[i1]; lemma_ints(o1, x); lemma_pick_push(asked(h0, vx_given@, i1), x as int, n); lemma_taken_places(h0); }
//@before @let vx_it
    let ghost ask = asked(h0, given(slots), given(slots).len() as int);
    proof {
        lemma_asked(h0, given(slots), vx_i as int, given(slots).len() as int);
        let t = choose|t: Seq<int>| ask == asked(h0, given(slots), vx_i as int) + t;
        if vx_i < vx_given.len() { lemma_pick_full(asked(h0, given(slots), vx_i as int), t, n); }
        assert(ask + h0.used().take(0) =~= ask);
    }
//@inv 1
    invariant
        vx_it.wf(), *vx_it.heap == h0, *event_heap == h0, n == limit, ints(vx_out@) == pick(ask + h0.used().take(vx_it.index as int), n), h0.wf(),
        forall|j: int| 0 <= j < vx_out.len() ==> h0.used().contains((#[trigger] vx_out@[j]) as int),
    ensures vx_out.len() >= limit || vx_it.index == h0.used().len()
    decreases h0.used().len() - vx_it.index
//@loopstart 1
    let ghost o1 = vx_out@; let ghost i1 = vx_it.index as int;
//@after 1|@call vx_unique
    proof { let u = h0.used(); lemma_ints(o1, slot); lemma_pick_push(ask + u.take(i1), slot as int, n); assert(ask + u.take(i1 + 1) =~= (ask + u.take(i1)).push(u[i1])); assert(u.contains(u[i1])); }
//@after 1|@loop
    proof {
        let u = h0.used(); let k = vx_it.index as int;
        assert(ints(vx_out@).len() == vx_out.len());
        if k < u.len() { lemma_pick_full(ask + u.take(k), u.skip(k), n); }
        assert((ask + u.take(k)) + u.skip(k) =~= ask + u); assert(u.take(k) + u.skip(k) =~= u);
        if k == u.len() { assert(u.take(k) =~= u); }
    }
//@after @let slots_to_consume
    let ghost s = ints(slots_to_consume@); let ghost mut st: Seq<EvW> = seq![w0];
    proof { lemma_taken_places(h0); lemma_pick(asked(h0, given(slots), given(slots).len() as int) + h0.used(), n);
        assert(s == todo_of(h0, slots, old_limit as int));
        assert forall|i: int| 0 <= i < s.len() implies h0.used().contains(#[trigger] s[i]) by { assert(s[i] == slots_to_consume@[i] as int); } }
//@inv 2
    invariant
        vx_i0 <= slots_to_consume.len(), s == ints(slots_to_consume@), s.no_duplicates(), event_heap.wf(), event_heap.used().no_duplicates(), settled_by(s, st, vx_i0 as int),
        st[0] == w0, st.last() == (EvW { h: *event_heap, s: remaining_accs@, m: *market }),
        forall|i: int| vx_i0 <= i < s.len() ==> event_heap.used().contains(#[trigger] s[i]),
    decreases slots_to_consume.len() - vx_i0
//@loopstart 2
    let ghost p = EvW { h: *event_heap, s: remaining_accs@, m: *market }; let ghost k = vx_i0 as int; let ghost h1 = *event_heap;
    proof { assert(s[k] == slots_to_consume@[k] as int); }
//@before *|@continue
    proof { let q = EvW { h: *event_heap, s: remaining_accs@, m: *market }; assert(ev_step(s[k], p, q)); lemma_settled_push(s, st, k, q); lemma_chosen(s, h1, *event_heap, k); st = st.push(q); }
//@after @call delete_slot
    proof {
        let q = EvW { h: *event_heap, s: remaining_accs@, m: *market }; let e = h1.nodes[slot as int].event;
        let i = choose|i: int| key_at(p.s, i, ev_owner(e));
        assert(ev_on(e, p, q, i)); assert(ev_step(s[k], p, q)); lemma_settled_push(s, st, k, q); lemma_chosen(s, h1, *event_heap, k); st = st.push(q);
    }
//@end
    proof { assert(settled_by(s, st, s.len() as int)); assert(consumed(s, w0, st.last())); }
//@endfn
fn main() {}
}
