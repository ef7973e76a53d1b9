//@include prelude.rs
//@include abort.rs
//@include heap_ghost.rs
impl EventHeapHeader {
//@usefn heap.rs EventHeapHeader::free_head
//@usefn heap.rs EventHeapHeader::used_head
//@usefn heap.rs EventHeapHeader::count
//@fn state/orderbook/heap.rs EventHeapHeader::incr_count mode=abort
    ensures *final(self) == (EventHeapHeader { count: (old(self).count + 1) as u16, ..*old(self) }), old(self).count < 65535
//@endfn
//@fn state/orderbook/heap.rs EventHeapHeader::incr_event_id mode=abort
    ensures *final(self) == (EventHeapHeader { seq_num: (old(self).seq_num + 1) as u64, ..*old(self) }), old(self).seq_num < 0xffff_ffff_ffff_ffff
//@endfn
}
impl EventHeap {
//@usefn heap.rs EventHeap::is_full
/// what the callers rely on: a full queue aborts
//@fn state/orderbook/heap.rs EventHeap::push_back mode=abort
    requires old(self).wf()
    ensures
        old(self).used().len() < CAP(), final(self).wf(),
        final(self).events() == old(self).events().push(value),
        final(self).header.seq_num == old(self).header.seq_num + 1,
//@start
    let ghost u = self.used(); let ghost f = self.free();
    proof { reveal(heap_with); if self.used().len() < CAP() { lemma_push_facts(*self); } }
//@end
    proof { lemma_push(*old(self), *self, value); }
//@endfn
}
fn main() {}
}
