// ---- the order book and the accounts ---------------------------------------------------------------------
/// a removal event settled: on the acting account, on an account passed in addition, or by queueing it
pub open spec fn out_done(e: OutEvent, m: Market, h0: EventHeap, h1: EventHeap, own: bool, a0: OpenOrdersAccount, a1: OpenOrdersAccount, s0: Seq<VxAcc<OpenOrdersAccount>>, s1: Seq<VxAcc<OpenOrdersAccount>>) -> bool {
    if own { h1 == h0 && s1 == s0 && cancel_effect(a0, m, e.owner_slot as int, e.quantity as int, a1) }
    else {
        &&& a1 == a0
        &&& ({
            ||| no_key(s0, e.owner) && s1 == s0 && h1.wf() && h1.events() == h0.events().push(any_out(e)) && h1.header.seq_num == h0.header.seq_num + 1
            ||| h1 == h0 && exists|i: int| #[trigger] key_at(s0, i, e.owner) && s0[i].typed && acc_at(s0, s1, i) && cancel_effect(s0[i].data, m, e.owner_slot as int, e.quantity as int, s1[i].data)
        })
    }
}
pub open spec fn fill_done(f: FillEvent, m0: Market, m1: Market, h0: EventHeap, h1: EventHeap, s0: Seq<VxAcc<OpenOrdersAccount>>, s1: Seq<VxAcc<OpenOrdersAccount>>) -> bool {
    ||| s1 == s0 && m1 == m0 && h1.wf() && h1.events() == h0.events().push(any_fill(f)) && h1.header.seq_num == h0.header.seq_num + 1
    ||| h1 == h0 && exists|i: int| #[trigger] key_at(s0, i, f.maker) && s0[i].typed && acc_at(s0, s1, i) && fill_effect(s0[i].data, m0, f, s1[i].data, m1)
}
pub open spec fn typed_side(b: BookSide, t: u8) -> BookSide { BookSide { nodes: OrderTreeNodes { order_tree_type: t, ..b.nodes }, ..b } }
/// the orders recorded with this kind
pub open spec fn bsec(b: Books, k: SideAndOrderTree) -> Seq<LeafNode> { sec(side_book(b, st_side(k)), st_tree(k)) }
pub open spec fn oo_kind(o: OpenOrder) -> SideAndOrderTree { if o.side_and_tree == 0 { SideAndOrderTree::BidFixed } else if o.side_and_tree == 1 { SideAndOrderTree::AskFixed } else if o.side_and_tree == 2 { SideAndOrderTree::BidOraclePegged } else { SideAndOrderTree::AskOraclePegged } }
pub open spec fn leaf_ok(l: LeafNode, c: BookSideOrderTree) -> bool { l.quantity > 0 && l.peg_limit >= -1 && (c == BookSideOrderTree::Fixed ==> key_price(l.key as int) >= 1) }
pub open spec fn leaves_ok(s: Seq<LeafNode>, c: BookSideOrderTree) -> bool { forall|i: int| 0 <= i < s.len() ==> leaf_ok(#[trigger] s[i], c) }
/// resting orders have a positive quantity and price
pub open spec fn book_ok(b: Books) -> bool { forall|k: SideAndOrderTree| leaves_ok(#[trigger] bsec(b, k), st_tree(k)) }
pub open spec fn side_ok(b: BookSide) -> bool { leaves_ok(sec(b, BookSideOrderTree::Fixed), BookSideOrderTree::Fixed) && leaves_ok(sec(b, BookSideOrderTree::OraclePegged), BookSideOrderTree::OraclePegged) }
pub open spec fn no_id(s: Seq<LeafNode>, id: u128) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).key != id }
/// the orders of this kind with this id name place `i` of the account
pub open spec fn slot_is(s: Seq<LeafNode>, id: u128, i: int) -> bool { forall|j: int| 0 <= j < s.len() && (#[trigger] s[j]).key == id ==> s[j].owner_slot == i }
/// a resting order names the place of the account that records it
pub open spec fn linked(b: Books, a: OpenOrdersAccount) -> bool {
    forall|i: int| 0 <= i < MAX_OPEN_ORDERS && !oo_free(#[trigger] a.open_orders[i]) ==> slot_is(bsec(b, oo_kind(a.open_orders[i])), a.open_orders[i].id, i)
}
/// orders can only have left the book
pub open spec fn sub(s: Seq<LeafNode>, s2: Seq<LeafNode>) -> bool { forall|j: int| 0 <= j < s2.len() ==> s.contains(#[trigger] s2[j]) }
pub open spec fn fewer(b: Books, b2: Books) -> bool { forall|k: SideAndOrderTree| sub(bsec(b, k), #[trigger] bsec(b2, k)) }
pub proof fn lemma_gone(s: Seq<LeafNode>, leaf: LeafNode, s2: Seq<LeafNode>) requires one_gone(s, leaf, s2) ensures sub(s, s2) {
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == leaf && s2 == s.remove(i);
    assert forall|j: int| 0 <= j < s2.len() implies s.contains(#[trigger] s2[j]) by { if j < i { assert(s2[j] == s[j]); } else { assert(s2[j] == s[j + 1]); } }
}
pub proof fn lemma_fewer(b: Books, b2: Books, a: OpenOrdersAccount)
    requires fewer(b, b2)
    ensures book_ok(b) ==> book_ok(b2), linked(b, a) ==> linked(b2, a)
{
    if book_ok(b) { assert forall|k: SideAndOrderTree| leaves_ok(#[trigger] bsec(b2, k), st_tree(k)) by { assert(sub(bsec(b, k), bsec(b2, k))); assert(leaves_ok(bsec(b, k), st_tree(k))); } }
    if linked(b, a) {
        assert forall|i: int| 0 <= i < MAX_OPEN_ORDERS && !oo_free(#[trigger] a.open_orders[i]) implies slot_is(bsec(b2, oo_kind(a.open_orders[i])), a.open_orders[i].id, i) by {
            assert(sub(bsec(b, oo_kind(a.open_orders[i])), bsec(b2, oo_kind(a.open_orders[i]))));
        }
    }
}
/// what was asked to be cancelled
pub open spec fn asked_cancel(o: OpenOrder, side: Option<Side>, client: Option<u64>) -> bool {
    !oo_free(o) && (side is None || side == Some(oo_side(o))) && (client is None || client == Some(o.client_id))
}
pub open spec fn n_asked(a: OpenOrdersAccount, side: Option<Side>, client: Option<u64>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { n_asked(a, side, client, k - 1) + (if asked_cancel(a.open_orders[k - 1], side, client) { 1int } else { 0 }) }
}
/// place `i` after a mass cancellation that got to it
pub open spec fn swept(a: OpenOrder, b: OpenOrder, ob: Books) -> bool { oo_empty(b) || (b == a && no_id(bsec(ob, oo_kind(a)), a.id)) }
pub open spec fn mass(a: OpenOrdersAccount, m: Market, b: OpenOrdersAccount, ob: Books, side: Option<Side>, client: Option<u64>, k: int) -> bool {
    &&& acct_frame(b, a)
    &&& forall|i: int| 0 <= i < k && asked_cancel(a.open_orders[i], side, client) ==> swept(a.open_orders[i], #[trigger] b.open_orders[i], ob)
    &&& forall|i: int| 0 <= i < k && !asked_cancel(a.open_orders[i], side, client) ==> #[trigger] b.open_orders[i] == a.open_orders[i]
    &&& forall|i: int| k <= i < MAX_OPEN_ORDERS ==> #[trigger] b.open_orders[i] == a.open_orders[i]
    &&& lots_ok(m) && acct_ok(a) ==> acct_ok(b) && quote_value(b.position, m) == quote_value(a.position, m) && base_value(b.position, m) == base_value(a.position, m)
}
pub open spec fn mass_done(a: OpenOrdersAccount, m: Market, b: OpenOrdersAccount, ob: Books, side: Option<Side>, client: Option<u64>, limit: int) -> bool {
    exists|k: int| 0 <= k <= MAX_OPEN_ORDERS && #[trigger] mass(a, m, b, ob, side, client, k) && (k == MAX_OPEN_ORDERS || n_asked(a, side, client, k) == limit)
}
pub proof fn lemma_fewer_trans(a: Books, b: Books, c: Books) requires fewer(a, b), fewer(b, c) ensures fewer(a, c) {
    assert forall|k: SideAndOrderTree| sub(bsec(a, k), #[trigger] bsec(c, k)) by { assert(sub(bsec(a, k), bsec(b, k))); assert(sub(bsec(b, k), bsec(c, k))); }
}
pub proof fn lemma_swept(a: OpenOrder, b: OpenOrder, p: Books, q: Books) requires swept(a, b, p), fewer(p, q) ensures swept(a, b, q) {
    if !oo_empty(b) { assert(sub(bsec(p, oo_kind(a)), bsec(q, oo_kind(a)))); }
}
pub proof fn lemma_mass_step(a0: OpenOrdersAccount, m: Market, pa: OpenOrdersAccount, pb: Books, a: OpenOrdersAccount, b: Books, side: Option<Side>, client: Option<u64>, k: int, leaf: LeafNode)
    requires mass(a0, m, pa, pb, side, client, k), fewer(pb, b), linked(b, pa), 0 <= k < MAX_OPEN_ORDERS, asked_cancel(a0.open_orders[k], side, client), leaf.quantity > 0,
        cancel_effect(pa, m, k, leaf.quantity as int, a)
    ensures mass(a0, m, a, b, side, client, k + 1), linked(b, a)
{
    assert forall|i: int| 0 <= i < k + 1 && asked_cancel(a0.open_orders[i], side, client) implies swept(a0.open_orders[i], #[trigger] a.open_orders[i], b) by {
        if i < k { lemma_swept(a0.open_orders[i], pa.open_orders[i], pb, b); }
    }
    assert forall|i: int| 0 <= i < MAX_OPEN_ORDERS && !oo_free(#[trigger] a.open_orders[i]) implies slot_is(bsec(b, oo_kind(a.open_orders[i])), a.open_orders[i].id, i) by {
        assert(a.open_orders[i] == pa.open_orders[i]);
    }
    if lots_ok(m) && acct_ok(a0) {
        assert forall|i: int| 0 <= i < MAX_OPEN_ORDERS implies (#[trigger] a.open_orders[i]).locked_price >= 0 by { if i != k { assert(a.open_orders[i] == pa.open_orders[i]); } }
    }
}
pub open spec fn is_code<T>(r: Result<T>, code: u32) -> bool { r is Err && (r->Err_0).code == code }
#[verifier::external_body]
pub fn vx_is_code<T>(r: &Result<T>, code: OpenBookError) -> (b: bool) ensures b == is_code(*r, errcode(code)) { unimplemented!() }
//@noinline is_anchor_error_with_code
//@rw $x.is_anchor_error_with_code($c.into()) => vx_is_code(&$x, $c)
