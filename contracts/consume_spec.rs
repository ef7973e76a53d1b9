// ---- settling queued events ---------------------------------------------------------------------------------
pub struct EvW { pub h: EventHeap, pub s: Seq<VxAcc<OpenOrdersAccount>>, pub m: Market }
/// whose account the event settles
pub open spec fn ev_owner(e: AnyEvent) -> Pubkey { if e.event_type == 0 { as_fill(e).maker } else { as_out(e).owner } }
/// the event leaves the queue, the others keep their order
pub open spec fn ev_gone(h: EventHeap, slot: int, h2: EventHeap) -> bool {
    &&& h2.wf() && h2.used() == h.used().remove(h.used().index_of(slot)) && h2.events() == h.events().remove(h.used().index_of(slot)) && h2.header.seq_num == h.header.seq_num
    &&& forall|k: int| 0 <= k < CAP() ==> (#[trigger] h2.nodes[k]).event == h.nodes[k].event
}
pub open spec fn ev_effect(e: AnyEvent, a: OpenOrdersAccount, m: Market, b: OpenOrdersAccount, n: Market) -> bool {
    if e.event_type == 0 { fill_effect(a, m, as_fill(e), b, n) } else { n == m && cancel_effect(a, m, as_out(e).owner_slot as int, as_out(e).quantity as int, b) }
}
pub open spec fn ev_on(e: AnyEvent, p: EvW, q: EvW, i: int) -> bool {
    key_at(p.s, i, ev_owner(e)) && p.s[i].typed && q.s == p.s.update(i, VxAcc { data: q.s[i].data, ..p.s[i] }) && q.s.len() == p.s.len() && ev_effect(e, p.s[i].data, p.m, q.s[i].data, q.m)
}
/// one chosen event: settled once on the account it names and then gone, or, if that account is not at hand, left as it is
pub open spec fn ev_step(slot: int, p: EvW, q: EvW) -> bool {
    let e = p.h.nodes[slot].event;
    &&& p.h.used().contains(slot) && e.event_type <= 1
    &&& if no_key(p.s, ev_owner(e)) { q == p } else { ev_gone(p.h, slot, q.h) && exists|i: int| #[trigger] ev_on(e, p, q, i) }
}
pub open spec fn ev_at(s: Seq<int>, st: Seq<EvW>, i: int) -> bool { ev_step(s[i], st[i], st[i + 1]) }
/// the first `n` different entries
pub open spec fn pick(s: Seq<int>, n: int) -> Seq<int> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let p = pick(s.drop_last(), n); if p.len() < n && !p.contains(s.last()) { p.push(s.last()) } else { p } }
}
/// the places asked for that hold an event
pub open spec fn asked(h: EventHeap, s: Seq<usize>, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else { let p = asked(h, s, n - 1); if h.nodes[s[n - 1] as int].prev != NO_NODE { p.push(s[n - 1] as int) } else { p } }
}
pub open spec fn given(o: Option<Vec<usize>>) -> Seq<usize> { match o { Some(v) => v@, None => Seq::empty() } }
pub open spec fn todo_of(h: EventHeap, o: Option<Vec<usize>>, limit: int) -> Seq<int> { pick(asked(h, given(o), given(o).len() as int) + h.used(), if limit < MAX_EVENTS_CONSUME { limit } else { MAX_EVENTS_CONSUME as int }) }
pub open spec fn settled_by(s: Seq<int>, st: Seq<EvW>, k: int) -> bool { st.len() == k + 1 && forall|i: int| 0 <= i < k ==> #[trigger] ev_at(s, st, i) }
pub open spec fn consumed(s: Seq<int>, p: EvW, q: EvW) -> bool { exists|st: Seq<EvW>| #[trigger] settled_by(s, st, s.len() as int) && st[0] == p && st.last() == q }

pub proof fn lemma_pick(s: Seq<int>, n: int)
    ensures pick(s, n).len() <= (if n < 0 { 0 } else { n }), pick(s, n).no_duplicates()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_pick(s.drop_last(), n);
    }
}
/// nothing more is taken once `n` are chosen
pub proof fn lemma_pick_full(s: Seq<int>, t: Seq<int>, n: int)
    requires pick(s, n).len() >= n
    ensures pick(s + t, n) == pick(s, n)
    decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); } else { lemma_pick_full(s, t.drop_last(), n); assert((s + t).drop_last() =~= s + t.drop_last()); }
}
pub proof fn lemma_pick_push(s: Seq<int>, x: int, n: int)
    ensures pick(s.push(x), n) == (if pick(s, n).len() < n && !pick(s, n).contains(x) { pick(s, n).push(x) } else { pick(s, n) })
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_asked(h: EventHeap, s: Seq<usize>, i: int, n: int)
    requires 0 <= i <= n
    ensures exists|t: Seq<int>| asked(h, s, n) == asked(h, s, i) + t
    decreases n - i
{
    if i == n { assert(asked(h, s, n) =~= asked(h, s, i) + Seq::<int>::empty()); }
    else {
        lemma_asked(h, s, i, n - 1);
        let t = choose|t: Seq<int>| asked(h, s, n - 1) == asked(h, s, i) + t;
        if h.nodes[s[n - 1] as int].prev != NO_NODE { assert(asked(h, s, n) =~= asked(h, s, i) + t.push(s[n - 1] as int)); } else { assert(asked(h, s, n) =~= asked(h, s, i) + t); }
    }
}
pub proof fn lemma_settled_push(s: Seq<int>, st: Seq<EvW>, k: int, q: EvW)
    requires settled_by(s, st, k), 0 <= k < s.len(), ev_step(s[k], st[k], q)
    ensures settled_by(s, st.push(q), k + 1)
{
    let t = st.push(q);
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] ev_at(s, t, i) by { if i < k { assert(ev_at(s, st, i)); } }
}
/// the chosen places hold events, and those settled are the only ones gone
pub proof fn lemma_chosen(s: Seq<int>, h: EventHeap, h2: EventHeap, k: int)
    requires s.no_duplicates(), 0 <= k < s.len(), h2.wf(), ev_gone(h, s[k], h2) || h2 == h, h.used().no_duplicates(), forall|i: int| k <= i < s.len() ==> h.used().contains(#[trigger] s[i])
    ensures forall|i: int| k < i < s.len() ==> h2.used().contains(#[trigger] s[i]), h2.used().no_duplicates()
{
    if h2 != h {
        let u = h.used(); let j = u.index_of(s[k]); let u2 = h2.used();
        assert(u.contains(s[k])); assert(0 <= j < u.len() && u[j] == s[k]);
        assert forall|i: int| k < i < s.len() implies u2.contains(#[trigger] s[i]) by { let x = u.index_of(s[i]); assert(u[x] == s[i]); assert(s[i] != s[k]); if x < j { assert(u2[x] == s[i]); } else { assert(u2[x - 1] == s[i]); } }
        assert forall|a: int, b: int| 0 <= a < u2.len() && 0 <= b < u2.len() && a != b implies u2[a] != u2[b] by { let a0 = if a < j { a } else { a + 1 }; let b0 = if b < j { b } else { b + 1 }; assert(u2[a] == u[a0] && u2[b] == u[b0]); }
    }
}
/// a place of the queue holds an event exactly when it is not free
pub proof fn lemma_taken_places(h: EventHeap)
    requires h.wf()
    ensures h.used().no_duplicates(), forall|i: int| 0 <= i < CAP() && (#[trigger] h.nodes[i]).prev != NO_NODE ==> h.used().contains(i), forall|i: int| h.used().contains(i) ==> 0 <= i < CAP()
{
    let u = h.used();
    assert forall|a: int, b: int| 0 <= a < u.len() && 0 <= b < u.len() && a != b implies u[a] != u[b] by { reveal(heap_with); assert(ne(u, a, u, b)); }
    assert forall|i: int| 0 <= i < CAP() && (#[trigger] h.nodes[i]).prev != NO_NODE implies u.contains(i) by { lemma_delete_facts(h, i); }
    assert forall|i: int| u.contains(i) implies 0 <= i < CAP() by { reveal(heap_with); assert(u_ok(h, u, u.index_of(i))); }
}
