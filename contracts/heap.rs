//@include prelude.rs
//@include heap_ghost.rs
impl EventHeapHeader {
//@fn state/orderbook/heap.rs EventHeapHeader::count
    ensures r == self.count as usize
//@endfn
//@fn state/orderbook/heap.rs EventHeapHeader::free_head
    ensures r == self.free_head as usize
//@endfn
//@fn state/orderbook/heap.rs EventHeapHeader::used_head
    ensures r == self.used_head as usize
//@endfn
//@fn state/orderbook/heap.rs EventHeapHeader::incr_count
    requires old(self).count < 65535
    ensures *final(self) == (EventHeapHeader { count: (old(self).count + 1) as u16, ..*old(self) })
//@endfn
//@fn state/orderbook/heap.rs EventHeapHeader::decr_count
    requires old(self).count > 0
    ensures *final(self) == (EventHeapHeader { count: (old(self).count - 1) as u16, ..*old(self) })
//@endfn
//@fn state/orderbook/heap.rs EventHeapHeader::incr_event_id
    requires old(self).seq_num < 0xffff_ffff_ffff_ffff
    ensures *final(self) == (EventHeapHeader { seq_num: (old(self).seq_num + 1) as u64, ..*old(self) })
//@endfn
}
impl EventNode {
//@fn state/orderbook/heap.rs EventNode::is_free
    ensures r == (self.prev == NO_NODE)
//@endfn
}

impl EventHeap {
//@fn state/orderbook/heap.rs EventHeap::init
    ensures final(self).wf(), final(self).used() == Seq::<int>::empty(), final(self).header.seq_num == 0
//@inv 0
    invariant
        vx_n0 == MAX_NUM_EVENTS, vx_i0 <= vx_n0,
        self.header.free_head == 0, self.header.used_head == NO_NODE, self.header.count == 0, self.header.seq_num == 0,
        forall|k: int| 0 <= k < vx_i0 ==> (#[trigger] self.nodes[k]).prev == NO_NODE && self.nodes[k].next == k + 1,
    decreases vx_n0 - vx_i0
//@end
    proof {
        let f = Seq::new(CAP() as nat, |i: int| i);
        assert(heap_with(*self, Seq::empty(), f)) by { reveal(heap_with); }
        lemma_heap_unique(*self, Seq::empty(), f);
    }
//@endfn
//@fn state/orderbook/heap.rs EventHeap::len
    ensures r == self.header.count
//@endfn
//@fn state/orderbook/heap.rs EventHeap::is_empty
    ensures r == (self.header.count == 0)
//@endfn
//@fn state/orderbook/heap.rs EventHeap::is_full
    ensures r == (self.header.count == MAX_NUM_EVENTS)
//@endfn
//@fn state/orderbook/heap.rs EventHeap::front
    requires self.wf()
    ensures
        self.used().len() == 0 ==> r is None,
        self.used().len() > 0 ==> r is Some && *r->0 == self.events()[0],
//@start
    proof { reveal(heap_with); if self.used().len() > 0 { assert(u_ok(*self, self.used(), 0)); } }
//@endfn
//@fn state/orderbook/heap.rs EventHeap::at_slot
    requires self.wf()
    ensures
        self.used().contains(slot as int) ==> r is Some && *r->0 == self.nodes[slot as int].event,
        !self.used().contains(slot as int) ==> r is None,
//@start
    proof { lemma_delete_facts(*self, slot as int); }
//@endfn
//@fn state/orderbook/heap.rs EventHeap::push_back
    requires
        old(self).wf(), old(self).used().len() < CAP(),
        old(self).header.seq_num < 0xffff_ffff_ffff_ffff,
    ensures
        final(self).wf(),
        final(self).used() == old(self).used().push(old(self).free()[0]),
        final(self).free() == old(self).free().subrange(1, old(self).free().len() as int),
        final(self).nodes[old(self).free()[0]].event == value,
        forall|k: int| 0 <= k < CAP() && k != old(self).free()[0] ==> (#[trigger] final(self).nodes[k]).event == old(self).nodes[k].event,
        final(self).events() == old(self).events().push(value),
        final(self).header.seq_num == old(self).header.seq_num + 1,
//@start
    let ghost u = self.used(); let ghost f = self.free();
    proof { lemma_push_facts(*self); }
//@end
    proof { lemma_push(*old(self), *self, value); }
//@endfn
//@fn state/orderbook/heap.rs EventHeap::pop_front
    requires old(self).wf()
    ensures
        old(self).used().len() == 0 ==> r is Err && *final(self) == *old(self),
        old(self).used().len() > 0 ==> {
            &&& r is Ok && r->Ok_0 == old(self).events()[0]
            &&& final(self).wf()
            &&& final(self).used() == old(self).used().subrange(1, old(self).used().len() as int)
            &&& final(self).events() == old(self).events().subrange(1, old(self).used().len() as int)
            &&& final(self).header.seq_num == old(self).header.seq_num
        },
//@start
    proof {
        let u = self.used(); let s0 = self.header.used_head as int;
        lemma_delete_facts(*self, s0);
        reveal(heap_with);
        if u.len() > 0 {
            assert(u[0] == s0 && u.contains(s0));
            assert(u.remove(0) =~= u.subrange(1, u.len() as int));
            assert(self.events().remove(0) =~= self.events().subrange(1, u.len() as int));
        }
    }
//@endfn
//@fn state/orderbook/heap.rs EventHeap::delete_slot
    requires old(self).wf()
    ensures
        !old(self).used().contains(slot as int) ==> r is Err && *final(self) == *old(self),
        old(self).used().contains(slot as int) ==> {
            let i = old(self).used().index_of(slot as int);
            &&& r is Ok && r->Ok_0 == old(self).nodes[slot as int].event
            &&& final(self).wf()
            &&& final(self).used() == old(self).used().remove(i)
            &&& final(self).free() == seq![slot as int] + old(self).free()
            &&& forall|k: int| 0 <= k < CAP() ==> (#[trigger] final(self).nodes[k]).event == old(self).nodes[k].event
            &&& final(self).events() == old(self).events().remove(i)
            &&& final(self).header.seq_num == old(self).header.seq_num
        },
//@start
    proof { lemma_delete_facts(*self, slot as int); }
//@end
    proof { lemma_delete(*old(self), *self, slot as int); }
//@endfn
//@fn state/orderbook/heap.rs EventHeap::iter
    requires self.wf()
    ensures r.wf(), r.heap == self, r.index == 0
//@type impl Iterator<Item = (&AnyEvent, usize)> => EventHeapIterator<'_>
//@start
    proof { reveal(heap_with); }
//@endfn
}
//@item state/orderbook/heap.rs EventHeapIterator
impl<'a> EventHeapIterator<'a> {
    pub open spec fn wf(self) -> bool {
        &&& self.heap.wf()
        &&& self.index <= self.heap.used().len()
        &&& self.index < self.heap.used().len() ==> self.slot == self.heap.used()[self.index as int]
    }
//@fn state/orderbook/heap.rs Iterator@EventHeapIterator::next
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).heap == old(self).heap,
        old(self).index == old(self).heap.used().len() ==> r is None && *final(self) == *old(self),
        old(self).index < old(self).heap.used().len() ==> {
            let k = old(self).heap.used()[old(self).index as int];
            &&& r is Some && (r->0).1 == k && *(r->0).0 == old(self).heap.nodes[k].event
            &&& final(self).index == old(self).index + 1
        },
//@type Option<Self::Item> => Option<(&'a AnyEvent, usize)>
//@start
    proof { reveal(heap_with); if self.index < self.heap.used().len() { assert(u_ok(*self.heap, self.heap.used(), self.index as int)); } }
//@endfn
}
fn main() {}
}
