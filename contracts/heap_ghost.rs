//@item state/orderbook/heap.rs MAX_NUM_EVENTS
//@item state/orderbook/heap.rs NO_NODE
//@item state/orderbook/heap.rs EventHeapHeader
//@item state/orderbook/heap.rs AnyEvent
//@item state/orderbook/heap.rs EventNode
//@item state/orderbook/heap.rs EventHeap

pub open spec fn CAP() -> int { MAX_NUM_EVENTS as int }

// `n` slots reached from `s` by following `next`
pub open spec fn hwalk(nodes: Seq<EventNode>, s: int, n: nat) -> Seq<int>
    decreases n
{
    if n == 0 || !(0 <= s < nodes.len()) { Seq::empty() }
    else { seq![s] + hwalk(nodes, nodes[s].next as int, (n - 1) as nat) }
}

pub open spec fn nx(i: int, n: int) -> int { if i + 1 == n { 0 } else { i + 1 } }
pub open spec fn pv(i: int, n: int) -> int { if i == 0 { n - 1 } else { i - 1 } }

pub open spec fn u_ok(h: EventHeap, u: Seq<int>, i: int) -> bool {
    &&& 0 <= u[i] < CAP()
    &&& h.nodes[u[i]].next == u[nx(i, u.len() as int)]
    &&& h.nodes[u[i]].prev == u[pv(i, u.len() as int)]
}
pub open spec fn hf_ok(h: EventHeap, f: Seq<int>, i: int) -> bool {
    &&& 0 <= f[i] < CAP()
    &&& h.nodes[f[i]].prev == NO_NODE
    &&& h.nodes[f[i]].next == (if i + 1 < f.len() { f[i + 1] } else { NO_NODE as int })
}
pub open spec fn ne(u: Seq<int>, i: int, f: Seq<int>, j: int) -> bool { u[i] != f[j] }

#[verifier::opaque]
pub open spec fn heap_with(h: EventHeap, u: Seq<int>, f: Seq<int>) -> bool {
    &&& u.len() + f.len() == CAP()
    &&& h.header.count == u.len()
    &&& forall|i: int, j: int| 0 <= i < u.len() && 0 <= j < u.len() && i != j ==> #[trigger] ne(u, i, u, j)
    &&& forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j ==> #[trigger] ne(f, i, f, j)
    &&& forall|i: int, j: int| 0 <= i < u.len() && 0 <= j < f.len() ==> #[trigger] ne(u, i, f, j)
    &&& (u.len() > 0 ==> h.header.used_head == u[0]) && (u.len() == 0 ==> h.header.used_head == NO_NODE)
    &&& (f.len() > 0 ==> h.header.free_head == f[0]) && (f.len() == 0 ==> h.header.free_head == NO_NODE)
    &&& forall|i: int| 0 <= i < u.len() ==> #[trigger] u_ok(h, u, i)
    &&& forall|i: int| 0 <= i < f.len() ==> #[trigger] hf_ok(h, f, i)
}

impl EventHeap {
    /// slots of the queued events, oldest first
    pub open spec fn used(self) -> Seq<int> { hwalk(self.nodes@, self.header.used_head as int, self.header.count as nat) }
    pub open spec fn free(self) -> Seq<int> { hwalk(self.nodes@, self.header.free_head as int, (CAP() - self.header.count) as nat) }
    /// the queue: events in arrival order
    pub open spec fn events(self) -> Seq<AnyEvent> { self.used().map_values(|s: int| self.nodes[s].event) }
    pub open spec fn wf(self) -> bool { heap_with(self, self.used(), self.free()) }
}

pub proof fn lemma_walk_used(h: EventHeap, u: Seq<int>, f: Seq<int>, i: int)
    requires heap_with(h, u, f), 0 <= i <= u.len()
    ensures hwalk(h.nodes@, if i < u.len() { u[i] } else { h.header.used_head as int }, (u.len() - i) as nat) == u.subrange(i, u.len() as int)
    decreases u.len() - i
{
    reveal(heap_with);
    if i < u.len() {
        let k = u[i];
        assert(u_ok(h, u, i));
        lemma_walk_used(h, u, f, i + 1);
        assert(hwalk(h.nodes@, k, (u.len() - i) as nat) =~= u.subrange(i, u.len() as int));
    } else {
        assert(hwalk(h.nodes@, h.header.used_head as int, 0) =~= u.subrange(i, u.len() as int));
    }
}
pub proof fn lemma_walk_free(h: EventHeap, u: Seq<int>, f: Seq<int>, i: int)
    requires heap_with(h, u, f), 0 <= i <= f.len()
    ensures hwalk(h.nodes@, if i < f.len() { f[i] } else { NO_NODE as int }, (f.len() - i) as nat) == f.subrange(i, f.len() as int)
    decreases f.len() - i
{
    reveal(heap_with);
    if i < f.len() {
        let k = f[i];
        assert(hf_ok(h, f, i));
        lemma_walk_free(h, u, f, i + 1);
        assert(hwalk(h.nodes@, k, (f.len() - i) as nat) =~= f.subrange(i, f.len() as int));
    } else {
        assert(hwalk(h.nodes@, NO_NODE as int, 0) =~= f.subrange(i, f.len() as int));
    }
}
/// a witness for well-formedness is the walk itself
pub proof fn lemma_heap_unique(h: EventHeap, u: Seq<int>, f: Seq<int>)
    requires heap_with(h, u, f)
    ensures h.used() == u, h.free() == f, h.wf()
{
    lemma_walk_used(h, u, f, 0);
    lemma_walk_free(h, u, f, 0);
    reveal(heap_with);
    assert(u.subrange(0, u.len() as int) =~= u);
    assert(f.subrange(0, f.len() as int) =~= f);
    assert(f.len() == CAP() - h.header.count);
}

/// pigeonhole: used and free slots together are all slots
pub proof fn lemma_cover(h: EventHeap, s: int)
    requires h.wf(), 0 <= s < CAP()
    ensures h.used().contains(s) || h.free().contains(s)
{
    reveal(heap_with);
    let u = h.used(); let f = h.free();
    let all = u + f;
    assert(all.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < all.len() && 0 <= j < all.len() && i != j implies all[i] != all[j] by {
            if i < u.len() && j < u.len() { assert(ne(u, i, u, j)); }
            else if i >= u.len() && j >= u.len() { assert(ne(f, i - u.len(), f, j - u.len())); }
            else if i < u.len() { assert(ne(u, i, f, j - u.len())); }
            else { assert(ne(u, j, f, i - u.len())); }
        }
    }
    let st = all.to_set();
    all.unique_seq_to_set();
    let full = vstd::set_lib::set_int_range(0, CAP());
    vstd::set_lib::lemma_int_range(0, CAP());
    assert(st.subset_of(full)) by {
        assert forall|x: int| st.contains(x) implies full.contains(x) by {
            let i = choose|i: int| 0 <= i < all.len() && all[i] == x;
            assert(all.contains(x));
            if i < u.len() { assert(u_ok(h, u, i)); } else { assert(hf_ok(h, f, i - u.len())); }
        }
    }
    vstd::set_lib::lemma_len_subset(st, full);
    assert(st =~= full) by { vstd::set_lib::lemma_subset_equality(st, full); }
    assert(all.contains(s)) by { assert(full.contains(s)); }
    let i = choose|i: int| 0 <= i < all.len() && all[i] == s;
    if i < u.len() { assert(u[i] == s); } else { assert(f[i - u.len()] == s); }
}

pub proof fn lemma_push_facts(h: EventHeap)
    requires h.wf(), h.used().len() < CAP()
    ensures
        h.header.count == h.used().len(),
        h.used().len() > 0 ==> {
            &&& h.header.used_head == h.used()[0] && 0 <= h.used()[0] < CAP()
            &&& 0 <= h.used().last() < CAP()
            &&& h.nodes[h.used()[0]].prev == h.used().last()
            &&& h.used()[0] != h.free()[0] && h.used().last() != h.free()[0]
        },
        h.header.free_head == h.free()[0], 0 <= h.free()[0] < CAP(),
{
    reveal(heap_with);
    let u = h.used();
    if u.len() > 0 { assert(u_ok(h, u, 0)); assert(u_ok(h, u, u.len() - 1)); assert(ne(u, 0, h.free(), 0)); assert(ne(u, u.len() - 1, h.free(), 0)); }
    assert(hf_ok(h, h.free(), 0));
}
/// appending: every node is as before except the new slot and its two neighbours
pub proof fn lemma_push(h0: EventHeap, h1: EventHeap, value: AnyEvent)
    requires
        h0.wf(), h0.used().len() < CAP(),
        h1.header.count == h0.header.count + 1,
        h1.header.free_head == h0.nodes[h0.free()[0]].next,
        h1.header.used_head == (if h0.used().len() == 0 { h0.header.free_head } else { h0.header.used_head }),
        forall|k: int| 0 <= k < CAP() ==> (#[trigger] h1.nodes[k]).event == (if k == h0.free()[0] { value } else { h0.nodes[k].event }),
        forall|k: int| 0 <= k < CAP() ==> (#[trigger] h1.nodes[k]).next as int == (
            if k == h0.free()[0] { if h0.used().len() == 0 { h0.free()[0] } else { h0.used()[0] } }
            else if h0.used().len() > 0 && k == h0.used().last() { h0.free()[0] } else { h0.nodes[k].next as int }),
        forall|k: int| 0 <= k < CAP() ==> (#[trigger] h1.nodes[k]).prev as int == (
            if k == h0.free()[0] { if h0.used().len() == 0 { h0.free()[0] } else { h0.used().last() } }
            else if h0.used().len() > 0 && k == h0.used()[0] { h0.free()[0] } else { h0.nodes[k].prev as int }),
    ensures
        h1.wf(),
        h1.used() == h0.used().push(h0.free()[0]),
        h1.free() == h0.free().subrange(1, h0.free().len() as int),
        h1.events() == h0.events().push(value),
{
    reveal(heap_with);
    let u = h0.used(); let f = h0.free(); let n = u.len() as int;
    let u2 = u.push(f[0]); let f2 = f.subrange(1, f.len() as int);
    assert(hf_ok(h0, f, 0));
    assert forall|i: int| 0 <= i < u2.len() implies #[trigger] u_ok(h1, u2, i) by {
        if i < n { assert(u_ok(h0, u, i)); assert(ne(u, i, f, 0));
            if i < n - 1 { assert(ne(u, i, u, n - 1)); } if i > 0 { assert(ne(u, i, u, 0)); } }
    }
    assert forall|i: int| 0 <= i < f2.len() implies #[trigger] hf_ok(h1, f2, i) by {
        assert(hf_ok(h0, f, i + 1)); assert(ne(f, 0, f, i + 1));
        if n > 0 { assert(ne(u, 0, f, i + 1)); assert(ne(u, n - 1, f, i + 1)); }
    }
    assert forall|i: int, j: int| 0 <= i < u2.len() && 0 <= j < u2.len() && i != j implies #[trigger] ne(u2, i, u2, j) by {
        if i == n { assert(ne(u, j, f, 0)); } else if j == n { assert(ne(u, i, f, 0)); } else { assert(ne(u, i, u, j)); } }
    assert forall|i: int, j: int| 0 <= i < f2.len() && 0 <= j < f2.len() && i != j implies #[trigger] ne(f2, i, f2, j) by { assert(ne(f, i + 1, f, j + 1)); }
    assert forall|i: int, j: int| 0 <= i < u2.len() && 0 <= j < f2.len() implies #[trigger] ne(u2, i, f2, j) by {
        if i < n { assert(ne(u, i, f, j + 1)); } else { assert(ne(f, 0, f, j + 1)); } }
    assert(heap_with(h1, u2, f2));
    lemma_heap_unique(h1, u2, f2);
    assert forall|i: int| 0 <= i < n implies h1.nodes[#[trigger] u[i]].event == h0.nodes[u[i]].event by { assert(ne(u, i, f, 0)); assert(u_ok(h0, u, i)); }
    assert(h1.events() =~= h0.events().push(value));
}
pub proof fn lemma_delete_facts(h: EventHeap, s: int)
    requires h.wf()
    ensures
        h.header.count == h.used().len(), h.used().len() <= CAP(),
        !h.used().contains(s) ==> (s < 0 || s >= CAP() || h.nodes[s].prev == NO_NODE),
        h.used().contains(s) ==> {
            let n = h.used().len() as int; let i = h.used().index_of(s);
            &&& n > 0 && 0 <= s < CAP() && 0 <= i < n && h.used()[i] == s
            &&& h.nodes[s].prev == h.used()[pv(i, n)] && 0 <= h.used()[pv(i, n)] < CAP()
            &&& h.nodes[s].next == h.used()[nx(i, n)] && 0 <= h.used()[nx(i, n)] < CAP()
            &&& h.header.used_head == h.used()[0]
            &&& (h.used()[0] == s) == (i == 0)
        }
{
    reveal(heap_with);
    let u = h.used();
    if 0 <= s < CAP() { lemma_cover(h, s);
        if h.free().contains(s) { let j = choose|j: int| 0 <= j < h.free().len() && h.free()[j] == s; assert(hf_ok(h, h.free(), j)); } }
    if u.contains(s) {
        let n = u.len() as int; let i = u.index_of(s);
        assert(u_ok(h, u, i)); assert(u_ok(h, u, pv(i, n))); assert(u_ok(h, u, nx(i, n)));
        if i > 0 { assert(ne(u, 0, u, i)); }
    }
}
/// removal: every node is as before except the slot and its two neighbours
pub proof fn lemma_delete(h0: EventHeap, h1: EventHeap, s: int)
    requires
        h0.wf(), h0.used().contains(s),
        h1.header.count == h0.header.count - 1,
        h1.header.free_head == s,
        h1.header.used_head == (if h0.used().len() == 1 { NO_NODE } else if h0.header.used_head == s { h0.nodes[s].next } else { h0.header.used_head }),
        forall|k: int| 0 <= k < CAP() ==> (#[trigger] h1.nodes[k]).event == h0.nodes[k].event,
        forall|k: int| 0 <= k < CAP() ==> (#[trigger] h1.nodes[k]).next == (
            if k == s { h0.header.free_head } else if k == h0.nodes[s].prev { h0.nodes[s].next } else { h0.nodes[k].next }),
        forall|k: int| 0 <= k < CAP() ==> (#[trigger] h1.nodes[k]).prev == (
            if k == s { NO_NODE } else if k == h0.nodes[s].next { h0.nodes[s].prev } else { h0.nodes[k].prev }),
    ensures
        h1.wf(),
        h1.used() == h0.used().remove(h0.used().index_of(s)),
        h1.free() == seq![s] + h0.free(),
        h1.events() == h0.events().remove(h0.used().index_of(s)),
{
    lemma_delete_facts(h0, s);
    reveal(heap_with);
    let u = h0.used(); let f = h0.free(); let i0 = u.index_of(s);
    let n = u.len() as int; let m = n - 1;
    let u2 = u.remove(i0); let f2 = seq![s] + f;
    assert forall|i: int| 0 <= i < m implies #[trigger] u_ok(h1, u2, i) by {
        let j = if i < i0 { i } else { i + 1 };
        assert(u2[i] == u[j]);
        assert(u_ok(h0, u, j));
        assert(ne(u, j, u, i0));
        if j != pv(i0, n) { assert(ne(u, j, u, pv(i0, n))); }
        if j != nx(i0, n) { assert(ne(u, j, u, nx(i0, n))); }
    }
    assert forall|i: int| 0 <= i < f2.len() implies #[trigger] hf_ok(h1, f2, i) by {
        if i > 0 { assert(hf_ok(h0, f, i - 1)); assert(ne(u, i0, f, i - 1)); assert(ne(u, pv(i0, n), f, i - 1)); assert(ne(u, nx(i0, n), f, i - 1)); }
    }
    assert forall|i: int, j: int| 0 <= i < f2.len() && 0 <= j < f2.len() && i != j implies #[trigger] ne(f2, i, f2, j) by {
        if i == 0 { assert(ne(u, i0, f, j - 1)); } else if j == 0 { assert(ne(u, i0, f, i - 1)); } else { assert(ne(f, i - 1, f, j - 1)); } }
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m && i != j implies #[trigger] ne(u2, i, u2, j) by {
        let a = if i < i0 { i } else { i + 1 }; let b = if j < i0 { j } else { j + 1 }; assert(ne(u, a, u, b)); }
    assert forall|i: int, j: int| 0 <= i < u2.len() && 0 <= j < f2.len() implies #[trigger] ne(u2, i, f2, j) by {
        let a = if i < i0 { i } else { i + 1 };
        if j > 0 { assert(ne(u, a, f, j - 1)); } else { assert(ne(u, a, u, i0)); } }
    assert(m > 0 ==> h1.header.used_head == u2[0]);
    assert(heap_with(h1, u2, f2));
    lemma_heap_unique(h1, u2, f2);
    assert(h1.events() =~= h0.events().remove(i0)) by {
        assert forall|i: int| 0 <= i < m implies #[trigger] h1.events()[i] == h0.events().remove(i0)[i] by {
            let a = if i < i0 { i } else { i + 1 }; assert(u2[i] == u[a]); assert(u_ok(h0, u, a)); } }
}

