//@include prelude.rs
//@include types.rs
//@include tree_spec.rs
//@include leaf_spec.rs
//@include tree_ghost.rs
//@include tree_ghost2.rs
/// the number of leading zero bits (trusted: what `u128::leading_zeros` returns)
pub uninterp spec fn lzs(x: u128) -> u32;
pub axiom fn axiom_lz(x: u128) ensures x == 0 ==> lzs(x) == 128, x != 0 ==> lzs(x) <= 127 && (x >> ((127 - lzs(x)) as u128)) == 1;
#[verifier::external_body]
pub fn vx_lz(x: u128) -> (r: u32) ensures r == lzs(x) { x.leading_zeros() }
pub proof fn lemma_lz(a: u128, b: u128) ensures shared(a, b, lzs(a ^ b)) {
    axiom_lz(a ^ b);
    assert(a ^ b == 0 <==> a == b) by (bit_vector);
}
//@rw $x.leading_zeros() => vx_lz($x)
pub fn vx_tag(t: NodeTag) -> (r: u8) ensures r == t.disc() { t.into() }
//@rw NodeTag::InnerNode.into() => vx_tag(NodeTag::InnerNode)
//@rw NodeTag::LastFreeNode.into() => vx_tag(NodeTag::LastFreeNode)
//@rw NodeTag::FreeNode.into() => vx_tag(NodeTag::FreeNode)
pub fn vx_min64(a: u64, b: u64) -> (r: u64) ensures r == imin(a as int, b as int) { if a <= b { a } else { b } }
//@rw std::cmp::min($a, $b) => vx_min64($a, $b)

pub fn vx_usize(b: bool) -> (r: usize) ensures r == (if b { 1int } else { 0int }) { b as usize }
//@rw usize::from($x) => vx_usize($x)
pub open spec fn ins_any(n: OrderTreeNodes, m: OrderTreeNodes, h: int, v: AnyNode) -> bool {
    &&& m.nodes@ =~= n.nodes@.update(h, v) && m.order_tree_type == n.order_tree_type
    &&& if n.free_list_len > 0 { h == n.free_list_head && m.bump_index == n.bump_index && m.free_list_len == n.free_list_len - 1 && m.free_list_head == any_free(n.nodes@[h]).next }
        else { h == n.bump_index && m.bump_index == n.bump_index + 1 && h < MAX_ORDERTREE_NODES && m.free_list_len == n.free_list_len && m.free_list_head == n.free_list_head }
}
pub proof fn lemma_ins_any(n: OrderTreeNodes, m: OrderTreeNodes, h: int, v: AnyNode)
    requires fwf(n), ins_any(n, m, h, v)
    ensures fwf(m)
{
    let f = flw(n);
    if n.free_list_len > 0 { lemma_flist_insert(n, f, m); } else { lemma_flist_same(n, f, m); }
}
pub proof fn lemma_flist_insert(n: OrderTreeNodes, f: Seq<int>, m: OrderTreeNodes)
    requires flist(n, f), f.len() > 0, m.nodes@.len() == n.nodes@.len(), m.bump_index == n.bump_index, m.order_tree_type == n.order_tree_type, m.free_list_len == n.free_list_len - 1,
        m.free_list_head == any_free(n.nodes@[f[0]]).next,
        forall|x: int| 0 <= x < n.nodes@.len() && x != f[0] ==> m.nodes@[x] == n.nodes@[x],
    ensures flist(m, f.skip(1))
{
    let g = f.skip(1);
    assert(f_ok(n, f, 0));
    assert forall|i: int| 0 <= i < g.len() implies #[trigger] f_ok(m, g, i) by { assert(f_ok(n, f, i + 1)); assert(f_ne(f, 0, i + 1)); }
    assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j implies #[trigger] f_ne(g, i, j) by { assert(f_ne(f, i + 1, j + 1)); }
}
pub proof fn lemma_flist_same(n: OrderTreeNodes, f: Seq<int>, m: OrderTreeNodes)
    requires flist(n, f), m.bump_index >= n.bump_index, m.bump_index <= MAX_ORDERTREE_NODES, m.order_tree_type == n.order_tree_type, m.free_list_len == n.free_list_len, m.free_list_head == n.free_list_head,
        forall|x: int| 0 <= x < n.bump_index && !live(n.nodes@[x]) ==> #[trigger] m.nodes@[x] == n.nodes@[x],
    ensures flist(m, f)
{
    assert forall|i: int| 0 <= i < f.len() implies #[trigger] f_ok(m, f, i) by { assert(f_ok(n, f, i)); }
}
pub open spec fn fl_same(n: OrderTreeNodes, m: OrderTreeNodes) -> bool {
    &&& m.bump_index == n.bump_index && m.order_tree_type == n.order_tree_type && m.free_list_len == n.free_list_len && m.free_list_head == n.free_list_head
    &&& forall|x: int| 0 <= x < n.bump_index && !live(n.nodes@[x]) ==> #[trigger] m.nodes@[x] == n.nodes@[x]
}
pub proof fn lemma_flist_remove(n: OrderTreeNodes, f: Seq<int>, m: OrderTreeNodes, k: int)
    requires flist(n, f), 0 <= k < n.bump_index, live(n.nodes@[k]), m.bump_index == n.bump_index, m.order_tree_type == n.order_tree_type, m.free_list_len == n.free_list_len + 1,
        m.free_list_head == k, m.nodes@[k].tag == (if n.free_list_len == 0 { 4u8 } else { 3u8 }), any_free(m.nodes@[k]).next == n.free_list_head,
        forall|x: int| 0 <= x < n.nodes@.len() && x != k ==> m.nodes@[x] == n.nodes@[x],
    ensures flist(m, seq![k] + f)
{
    let g = seq![k] + f;
    assert forall|i: int| 0 <= i < g.len() implies #[trigger] f_ok(m, g, i) by { if i > 0 { assert(f_ok(n, f, i - 1)); } else if f.len() > 0 { assert(f_ok(n, f, 0)); } }
    assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && i != j implies #[trigger] f_ne(g, i, j) by {
        if i > 0 { assert(f_ok(n, f, i - 1)); } if j > 0 { assert(f_ok(n, f, j - 1)); } if i > 0 && j > 0 { assert(f_ne(f, i - 1, j - 1)); } }
}
pub open spec fn flw(n: OrderTreeNodes) -> Seq<int> { choose|f: Seq<int>| flist(n, f) }

impl LeafNode {
//@usefn keys.rs LeafNode::expiry
}
impl AnyNode {
//@usefn nodes.rs AnyNode::case
//@usefn nodes.rs AnyNode::as_inner_mut
//@usefn nodes.rs AnyNode::key
//@usefn nodes.rs AnyNode::children
//@fn state/orderbook/nodes.rs AnyNode::earliest_expiry
    requires live(*self)
    ensures self.tag == 1 ==> r == imin(any_inner(*self).child_earliest_expiry[0] as int, any_inner(*self).child_earliest_expiry[1] as int),
        self.tag == 2 ==> r == leaf_expiry(any_leaf(*self))
//@endfn
}
impl InnerNode {
//@fn state/orderbook/nodes.rs InnerNode::new
    ensures r.tag == 1, r.prefix_len == prefix_len, r.key == key
//@endfn
//@fn state/orderbook/nodes.rs InnerNode::walk_down
    requires self.prefix_len <= 127
    ensures r.1 == bitp(search_key, self.prefix_len), r.0 == self.children[if r.1 { 1int } else { 0int }]
//@start
    proof { lemma_mask(search_key, self.prefix_len); }
//@endfn
//@fn state/orderbook/nodes.rs InnerNode::earliest_expiry
    ensures r == imin(self.child_earliest_expiry[0] as int, self.child_earliest_expiry[1] as int)
//@endfn
}
impl OrderTreeRoot {
//@fn state/orderbook/ordertree.rs OrderTreeRoot::node
    ensures self.leaf_count == 0 ==> r is None, self.leaf_count != 0 ==> r == Some(self.maybe_node)
//@endfn
}
impl OrderTreeNodes {
//@usefn nodes.rs OrderTreeNodes::node
//@usefn nodes.rs OrderTreeNodes::node_mut
//@fn state/orderbook/ordertree.rs OrderTreeNodes::order_tree_type
    requires self.order_tree_type <= 1
    ensures r.disc() == self.order_tree_type
//@endfn
//@fn state/orderbook/ordertree.rs OrderTreeNodes::is_full
    ensures r == (self.free_list_len <= 1 && self.bump_index >= MAX_ORDERTREE_NODES - 1)
//@endfn
//@fn state/orderbook/ordertree.rs OrderTreeNodes::leaf_min_max
    requires wf1(*self, *root)
    ensures ({ let s = orders(*self, *root);
        &&& s.len() == 0 ==> r is None
        &&& s.len() > 0 ==> r is Some && *((r->0).1) == (if find_max { s.last() } else { s[0] })
            && (r->0).0 < MAX_ORDERTREE_NODES && self.nodes[(r->0).0 as int].tag == 2 && any_leaf(self.nodes[(r->0).0 as int]) == *((r->0).1) })
//@start
    let ghost ot = tree_of(self.nodes@, *root);
    proof {
        lemma_tree_of(self.nodes@, *root, choose|o: Option<T>| ninv(*self, *root, o));
        if let Some(t) = ot { lemma_subt(self.nodes@, t); lemma_edge(t, find_max); }
    }
//@inv 0
    invariant
        i == (if find_max { 1int } else { 0int }),
        ot == tree_of(self.nodes@, *root), ot is Some,
        is_sub(self.nodes@, node_handle as int, subt(self.nodes@, node_handle as int)),
        edge(subt(self.nodes@, node_handle as int), find_max) == edge(ot->0, find_max),
        edge(ot->0, find_max) == (if find_max { leaves(ot->0).last() } else { leaves(ot->0)[0] }), leaves(ot->0).len() > 0,
    decreases subt(self.nodes@, node_handle as int)
//@loopstart 0
    proof { lemma_subt(self.nodes@, subt(self.nodes@, node_handle as int)); }
//@endfn
//@fn state/orderbook/ordertree.rs OrderTreeNodes::min_leaf
    requires wf1(*self, *root)
    ensures ({ let s = orders(*self, *root); (s.len() == 0 ==> r is None) && (s.len() > 0 ==> r is Some && *((r->0).1) == s[0]) })
//@endfn
//@fn state/orderbook/ordertree.rs OrderTreeNodes::max_leaf
    requires wf1(*self, *root)
    ensures ({ let s = orders(*self, *root); (s.len() == 0 ==> r is None) && (s.len() > 0 ==> r is Some && *((r->0).1) == s.last()) })
//@endfn
//@fn state/orderbook/ordertree.rs OrderTreeNodes::find_worst
    requires wf1(*self, *root)
    ensures ({ let s = orders(*self, *root); (s.len() == 0 ==> r is None) && (s.len() > 0 ==> r is Some && *((r->0).1) == (if self.order_tree_type == 0 { s[0] } else { s.last() })) })
//@endfn
//@fn state/orderbook/ordertree.rs OrderTreeNodes::find_earliest_expiry
    requires wf1(*self, *root)
    ensures ({ let s = orders(*self, *root);
        &&& s.len() == 0 ==> r is None
        &&& s.len() > 0 ==> r is Some && (r->0).0 < MAX_ORDERTREE_NODES && self.nodes[(r->0).0 as int].tag == 2
            && (r->0).1 == leaf_expiry(any_leaf(self.nodes[(r->0).0 as int]))
            && (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == any_leaf(self.nodes[(r->0).0 as int]))
            && (forall|i: int| 0 <= i < s.len() ==> leaf_expiry(#[trigger] s[i]) >= (r->0).1) })
//@start
    let ghost ot = tree_of(self.nodes@, *root);
    proof {
        lemma_tree_of(self.nodes@, *root, choose|o: Option<T>| ninv(*self, *root, o));
        if let Some(t) = ot { lemma_subt(self.nodes@, t); lemma_texp(t); lemma_nonempty(t); assert(sub_leaves(t, t));
            assert forall|i: int| 0 <= i < leaves(t).len() implies leaf_expiry(#[trigger] leaves(t)[i]) >= texp(t) by { assert(not_before(leaves(t), i, texp(t))); } }
    }
//@inv 0
    invariant
        ot == tree_of(self.nodes@, *root), ot is Some,
        is_sub(self.nodes@, current as int, subt(self.nodes@, current as int)),
        texp(subt(self.nodes@, current as int)) == texp(ot->0),
        sub_leaves(subt(self.nodes@, current as int), ot->0),
        forall|i: int| 0 <= i < leaves(ot->0).len() ==> leaf_expiry(#[trigger] leaves(ot->0)[i]) >= texp(ot->0),
    decreases subt(self.nodes@, current as int)
//@loopstart 0
    proof {
        let g = subt(self.nodes@, current as int);
        lemma_subt(self.nodes@, g);
        lemma_sub_leaves(g, ot->0);
    }
//@endfn
//@fn state/orderbook/ordertree.rs OrderTreeNodes::remove
    requires fwf(*old(self)), key < old(self).bump_index, live(old(self).nodes[key as int]), old(self).free_list_len < old(self).bump_index
    ensures r == Some(old(self).nodes[key as int]),
        final(self).nodes@ == old(self).nodes@.update(key as int, final(self).nodes@[key as int]), !live(final(self).nodes@[key as int]),
        fwf(*final(self)), final(self).free_list_len == old(self).free_list_len + 1, final(self).bump_index == old(self).bump_index, final(self).order_tree_type == old(self).order_tree_type
//@start
    let ghost f = flw(*self);
    let ghost n0 = *self;
//@end
    proof { lemma_flist_remove(n0, f, *self, key as int); assert(self.nodes@ =~= n0.nodes@.update(key as int, self.nodes@[key as int])); }
//@endfn
//@fn state/orderbook/ordertree.rs OrderTreeNodes::insert
    requires fwf(*old(self)), live(*val)
    ensures
        r is Ok ==> ({ let h = r->Ok_0;
            &&& h < final(self).bump_index && (h >= old(self).bump_index || !live(old(self).nodes[h as int]))
            &&& final(self).nodes@ =~= old(self).nodes@.update(h as int, *val)
            &&& old(self).bump_index <= final(self).bump_index
            &&& final(self).bump_index - final(self).free_list_len == old(self).bump_index - old(self).free_list_len + 1
            &&& fwf(*final(self)) && final(self).order_tree_type == old(self).order_tree_type }),
        r is Err ==> *final(self) == *old(self) && old(self).free_list_len == 0 && old(self).bump_index == MAX_ORDERTREE_NODES,
//@start
    let ghost f = flw(*self);
    let ghost n0 = *self;
    proof {
        if f.len() > 0 { assert(f_ok(n0, f, 0)); }
        assert forall|m: OrderTreeNodes| ins_any(n0, m, (if n0.free_list_len > 0 { n0.free_list_head as int } else { n0.bump_index as int }), *val) implies #[trigger] fwf(m) by {
            lemma_ins_any(n0, m, (if n0.free_list_len > 0 { n0.free_list_head as int } else { n0.bump_index as int }), *val);
        }
    }
//@endfn
//@fn state/orderbook/ordertree.rs OrderTreeNodes::update_parent_earliest_expiry as=vx_upd addparam=Ghost(t):~Ghost<T>
    requires upd_pre(old(self).nodes@, t, stack@, outdated_expiry as int, new_expiry as int)
    ensures
        ({ let path = spath(stack@); let s = subt(old(self).nodes@, th(at(t, path)));
           &&& repr(final(self).nodes@, rep(t, path, s))
           &&& forall|x: int| 0 <= x < MAX_ORDERTREE_NODES && !(occ(t, x) && !occ(at(t, path), x)) ==> #[trigger] final(self).nodes@[x] == old(self).nodes@[x] }),
        *final(self) == (OrderTreeNodes { nodes: final(self).nodes, ..*old(self) }),
        forall|x: int| 0 <= x < MAX_ORDERTREE_NODES ==> live(old(self).nodes@[x]) == live(#[trigger] final(self).nodes@[x]),
//@start
    let ghost nn = self.nodes@;
    let ghost path = spath(stack@);
    let ghost s0 = subt(nn, th(at(t, path)));
    proof { assert(stack@.take(stack@.len() as int) =~= stack@); }
//@inv 0
    invariant_except_break
        vx_i0 <= stack@.len(),
        upd_pre(self.nodes@, t, stack@.take(vx_i0 as int), outdated_expiry as int, new_expiry as int),
        rep(t, spath(stack@.take(vx_i0 as int)), subt(self.nodes@, th(at(t, spath(stack@.take(vx_i0 as int)))))) == rep(t, path, s0),
    invariant
        path == spath(stack@), smatch(t, stack@), dist(t), vpath(t, path), s0 == subt(nn, th(at(t, path))), nn == old(self).nodes@,
        *self == (OrderTreeNodes { nodes: self.nodes, ..*old(self) }),
        forall|x: int| 0 <= x < MAX_ORDERTREE_NODES && !(occ(t, x) && !occ(at(t, path), x)) ==> #[trigger] self.nodes@[x] == nn[x],
        forall|x: int| 0 <= x < MAX_ORDERTREE_NODES ==> live(nn[x]) == live(#[trigger] self.nodes@[x]),
    ensures
        repr(self.nodes@, rep(t, path, s0)),
    decreases vx_i0
//@loopstart 0
    let ghost n0 = self.nodes@;
    let ghost o0 = outdated_expiry as int;
    let ghost e0 = new_expiry as int;
    let ghost k = vx_i0 as int;
    proof { lemma_upd_here(n0, t, stack@, k, o0, e0); }
//@loopend 0
    proof { lemma_upd_next(n0, self.nodes@, t, stack@, k, o0, e0); }
//@endfn
//@rw self.update_parent_earliest_expiry($a, $b, $c) => self.vx_upd($a, $b, $c, Ghost(gt))
//@fn state/orderbook/ordertree.rs OrderTreeNodes::remove_by_key
    requires wf1(*old(self), *old(root))
    ensures
        wf1(*final(self), *final(root)), keeps(*old(self), *old(root), *final(self), *final(root)),
        ({ let s = orders(*old(self), *old(root)); let s2 = orders(*final(self), *final(root));
           match r {
               None => s2 == s && *final(self) == *old(self) && *final(root) == *old(root) && forall|i: int| 0 <= i < s.len() ==> #[trigger] notin(s, i, search_key),
               Some(leaf) => leaf.key == search_key && exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == leaf && s2 == s.remove(i),
           } })
//@start
    let ghost n0 = *self;
    let ghost r0 = *root;
    let ghost ot = tree_of(n0.nodes@, r0);
    let ghost gt = ot->0;
    proof {
        lemma_tree_of(n0.nodes@, r0, choose|o: Option<T>| ninv(n0, r0, o));
        lemma_empty_stack(gt);
        if ot is Some {
            lemma_subt(n0.nodes@, gt);
            lemma_nonempty(gt);
            lemma_range(n0.nodes@, gt, th(gt));
            assert(oocc(ot, th(gt)));
            assert forall|i: int| 0 <= i < leaves(gt).len() && !ink(gt, search_key) implies #[trigger] notin(leaves(gt), i, search_key) by { lemma_ink(gt, i); }
            if ink(gt, search_key) && gt is Node { lemma_walk(gt, 0, search_key); }
            if gt is Node {
                lemma_stack_push(gt, Seq::empty(), r0.maybe_node, false);
                lemma_stack_push(gt, Seq::empty(), r0.maybe_node, true);
            }
            assert forall|m: OrderTreeNodes, rr: OrderTreeRoot| rm_root(n0, gt, m, rr) implies #[trigger] wf1(m, rr) by { lemma_rm_root(n0, r0, gt, m, rr); }
            assert forall|m: OrderTreeNodes, rr: OrderTreeRoot| rm_root(n0, gt, m, rr) implies #[trigger] keeps(n0, r0, m, rr) by { lemma_rm_root(n0, r0, gt, m, rr); }
            assert forall|m: OrderTreeNodes, rr: OrderTreeRoot| rm_root(n0, gt, m, rr) implies #[trigger] orders(m, rr) == leaves(gt).remove(0) by { lemma_rm_root(n0, r0, gt, m, rr); assert(orders(m, rr) =~= leaves(gt).remove(0)); }
            assert(orders(n0, r0) == leaves(gt));
            if gt is Leaf { assert(orders(n0, r0)[0] == gt->leaf); }
        }
    }
//@inv 0
    invariant
        *self == n0, *root == r0, n0 == *old(self), r0 == *old(root), ot == tree_of(n0.nodes@, r0), ot is Some, gt == ot->0, ninv(n0, r0, ot),
        stack@.len() > 0, vpath(gt, spath(stack@)), smatch(gt, stack@), child_h == th(at(gt, spath(stack@))), parent_h == stack@.last().0, crit_bit == stack@.last().1,
        ink(gt, search_key) ==> ink(at(gt, spath(stack@)), search_key),
        forall|i: int| 0 <= i < leaves(gt).len() && !ink(gt, search_key) ==> #[trigger] notin(leaves(gt), i, search_key),
    ensures
        at(gt, spath(stack@)) is Leaf, at(gt, spath(stack@))->leaf.key == search_key, rm_ready(n0, gt, stack@),
    decreases at(gt, spath(stack@))
//@loopstart 0
    proof {
        let g = at(gt, spath(stack@));
        lemma_rm_ready(n0, r0, gt, stack@);
        if g is Node { lemma_stack_push(gt, stack@, child_h, false); lemma_stack_push(gt, stack@, child_h, true); }
        if ink(g, search_key) && g is Node { lemma_walk(g, mp(gt, spath(stack@), 0), search_key); }
    }
//@after @let stack
    proof { assert(stack@ =~= Seq::<(u32, bool)>::empty()); }
//@after @loop
    let ghost st0 = stack@;
    proof { assert forall|m1: OrderTreeNodes, m2: OrderTreeNodes| #[trigger] fwf(m1) && fl_same(m1, m2) implies #[trigger] fwf(m2) by { lemma_flist_same(m1, flw(m1), m2); } }
//@before @call vx_upd
    let ghost n3 = *self;
    proof { lemma_rm_pre(n0.nodes@, n3.nodes@, gt, st0, outdated_expiry as int, new_expiry as int); assert(stack@ =~= st0.drop_last()); }
//@end
    proof { lemma_rm_done(n0.nodes@, gt, st0); lemma_rm_final(n0, r0, gt, st0, n3, *self, *root); assert(orders(n0, r0)[rm_index(gt, spath(st0))] == removed_leaf); }
//@endfn
//@fn state/orderbook/ordertree.rs OrderTreeNodes::insert_leaf
    requires wf1(*old(self), *old(root)), new_leaf.tag == 2
    ensures
        r is Err ==> MAX_ORDERTREE_NODES - old(self).bump_index + old(self).free_list_len < 2,
        r is Ok ==> wf1(*final(self), *final(root)) && keeps(*old(self), *old(root), *final(self), *final(root)),
        r is Ok ==> ({ let s = orders(*old(self), *old(root)); let s2 = orders(*final(self), *final(root));
           match (r->Ok_0).1 { None => inserted(s, *new_leaf, s2), Some(o) => replaced(s, o, *new_leaf, s2) } })
//@start
    let ghost n0 = *self;
    let ghost r0 = *root;
    let ghost ot = tree_of(n0.nodes@, r0);
    let ghost gt = ot->0;
    let ghost k = new_leaf.key;
    proof {
        lemma_tree_of(n0.nodes@, r0, choose|o: Option<T>| ninv(n0, r0, o));
        lemma_empty_stack(gt);
        if ot is None {
            assert(orders(n0, r0).insert(0, *new_leaf).len() == 1);
            assert forall|m: OrderTreeNodes, rr: OrderTreeRoot| ins_root(n0, *new_leaf, m, rr) implies #[trigger] wf1(m, rr) by { lemma_ins_root(n0, r0, *new_leaf, m, rr); }
            assert forall|m: OrderTreeNodes, rr: OrderTreeRoot| ins_root(n0, *new_leaf, m, rr) implies #[trigger] keeps(n0, r0, m, rr) by { lemma_ins_root(n0, r0, *new_leaf, m, rr); }
            assert forall|m: OrderTreeNodes, rr: OrderTreeRoot| ins_root(n0, *new_leaf, m, rr) implies inserted(orders(n0, r0), *new_leaf, #[trigger] orders(m, rr)) by { lemma_ins_root(n0, r0, *new_leaf, m, rr); }
        } else {
            lemma_nonempty(gt);
            assert forall|i: int| 0 <= i < leaves(gt).len() && !ink(gt, k) implies #[trigger] notin(leaves(gt), i, k) by { lemma_ink(gt, i); }
        }
    }
//@after @let stack
    proof { assert(stack@ =~= Seq::<(u32, bool)>::empty()); }
//@inv 0
    invariant
        *self == n0, *root == r0, n0 == *old(self), r0 == *old(root), ot == tree_of(n0.nodes@, r0), ot is Some, gt == ot->0, ninv(n0, r0, ot), k == new_leaf.key, new_leaf.tag == 2,
        vpath(gt, spath(stack@)), smatch(gt, stack@), parent_handle == th(at(gt, spath(stack@))),
        ink(gt, k) ==> ink(at(gt, spath(stack@)), k),
        psides(gt, spath(stack@), T::Leaf { h: 0, leaf: *new_leaf }),
        forall|i: int| 0 <= i < leaves(gt).len() && !ink(gt, k) ==> #[trigger] notin(leaves(gt), i, k),
    decreases at(gt, spath(stack@))
//@loopstart 0
    let ghost g = at(gt, spath(stack@));
    proof {
        assert forall|m1: OrderTreeNodes, m2: OrderTreeNodes| #[trigger] fwf(m1) && fl_same(m1, m2) implies #[trigger] fwf(m2) by { lemma_flist_same(m1, flw(m1), m2); }
        lemma_ins_ready(n0, r0, gt, stack@, *new_leaf);
        lemma_lz(tkey(g), k);
        if tkey(g) != k { lemma_mask(k, lzs(tkey(g) ^ k)); }
    }
//@before 0|@call vx_upd
    let ghost n3 = *self;
    proof { lemma_clobber(n0.nodes@, n3.nodes@, gt, stack@, *new_leaf); lemma_flist_same(n0, flw(n0), n3); }
//@after 0|@call vx_upd
    proof { lemma_nonempty(g); lemma_at_has(gt, spath(stack@), th(g)); lemma_final(n0, r0, gt, spath(stack@), n3, *self, *root, rep(gt, spath(stack@), T::Leaf { h: th(g), leaf: *new_leaf })); assert(orders(n0, r0)[lpre(gt, spath(stack@)).len() as int] == g->leaf); assert(replaced(orders(n0, r0), g->leaf, *new_leaf, orders(*self, *root))); }
//@before 1|@call vx_upd
    let ghost n3 = *self;
    proof { lemma_ins_made(n0, r0, gt, stack@, *new_leaf, n3); }
//@after 1|@call vx_upd
    proof { lemma_ins_final(n0, r0, gt, stack@, *new_leaf, n3, *self, OrderTreeRoot { leaf_count: (root.leaf_count + 1) as u32, ..*root }); }
//@before $a.leaf_count += $b;
    let ghost n4 = *self;
    proof {
        if ins_made(n0, gt, stack@, *new_leaf, n4) {
            lemma_ins_made(n0, r0, gt, stack@, *new_leaf, n4);
            if leaf_expiry(*new_leaf) >= texp(g) { lemma_ins_final(n0, r0, gt, stack@, *new_leaf, n4, n4, OrderTreeRoot { leaf_count: (root.leaf_count + 1) as u32, ..*root }); }
        }
    }
//@after $a.leaf_count += $b;
    proof { assert(inserted(orders(n0, r0), *new_leaf, orders(*self, *root))); }
//@endfn
//@fn state/orderbook/ordertree.rs OrderTreeNodes::remove_worst
    requires wf1(*old(self), *old(root))
    ensures
        wf1(*final(self), *final(root)), keeps(*old(self), *old(root), *final(self), *final(root)),
        ({ let s = orders(*old(self), *old(root)); let s2 = orders(*final(self), *final(root)); let i = if old(self).order_tree_type == 0 { 0 } else { s.len() - 1 };
           &&& s.len() == 0 ==> r is None && s2 == s
           &&& s.len() > 0 ==> r == Some(s[i]) && s2 == s.remove(i) })
//@start
    proof { lemma_orders(*self, *root); }
//@endfn
//@fn state/orderbook/ordertree.rs OrderTreeNodes::remove_one_expired
    requires wf1(*old(self), *old(root))
    ensures
        wf1(*final(self), *final(root)), keeps(*old(self), *old(root), *final(self), *final(root)),
        ({ let s = orders(*old(self), *old(root)); let s2 = orders(*final(self), *final(root));
           match r {
               None => s2 == s && forall|i: int| 0 <= i < s.len() ==> leaf_expiry(#[trigger] s[i]) >= now_ts,
               Some(leaf) => leaf_expiry(leaf) < now_ts && exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == leaf && s2 == s.remove(i),
           } })
//@start
    proof { lemma_orders(*self, *root); }
//@endfn
}
pub open spec fn ins_root(n: OrderTreeNodes, nl: LeafNode, m: OrderTreeNodes, rr: OrderTreeRoot) -> bool {
    &&& nl.tag == 2 && rr.leaf_count == 1 && fwf(m) && n.bump_index <= m.bump_index && m.bump_index - m.free_list_len == n.bump_index - n.free_list_len + 1 && m.order_tree_type == n.order_tree_type
    &&& rr.maybe_node < m.bump_index && m.nodes@ == n.nodes@.update(rr.maybe_node as int, leaf_any(nl)) && (rr.maybe_node >= n.bump_index || !live(n.nodes@[rr.maybe_node as int]))
}
pub proof fn lemma_ins_root(n: OrderTreeNodes, r: OrderTreeRoot, nl: LeafNode, m: OrderTreeNodes, rr: OrderTreeRoot)
    requires ninv(n, r, None), tree_of(n.nodes@, r) is None, ins_root(n, nl, m, rr)
    ensures wf1(m, rr), keeps(n, r, m, rr), orders(m, rr) == orders(n, r).insert(0, nl)
{
    let t = T::Leaf { h: rr.maybe_node as int, leaf: nl };
    assert(flist(m, flw(m)));
    assert(leaves(t) =~= seq![nl]);
    assert(repr(m.nodes@, t) && tok(t, 0) && dist(t));
    lemma_tree_of(m.nodes@, rr, Some(t));
    assert(ninv(m, rr, Some(t)));
    assert(orders(m, rr) =~= orders(n, r).insert(0, nl));
}
/// what holds of the subtree the walk has reached, before the new leaf is placed
pub proof fn lemma_ins_ready(n: OrderTreeNodes, r: OrderTreeRoot, t: T, stack: Seq<(u32, bool)>, nl: LeafNode)
    requires ninv(n, r, Some(t)), smatch(t, stack), vpath(t, spath(stack)), psides(t, spath(stack), T::Leaf { h: 0, leaf: nl }), nl.tag == 2, ink(t, nl.key) ==> ink(at(t, spath(stack)), nl.key)
    ensures ({ let path = spath(stack); let g = at(t, path); let k = nl.key; let q = lzs(tkey(g) ^ k);
        &&& repr(n.nodes@, g) && tok(g, mp(t, path, 0)) && 0 <= th(g) < n.bump_index && live(n.nodes@[th(g)]) && n.bump_index <= MAX_ORDERTREE_NODES && th(g) <= u32::MAX
        &&& g is Node ==> g->p <= 127 && inner_is(n.nodes@[th(g)], g->p, g->key, *g->l, *g->r)
        &&& 2 * leaves(t).len() - 1 <= MAX_ORDERTREE_NODES
        &&& n.free_list_len <= n.bump_index
        &&& g is Leaf && tkey(g) != k ==> !ink(t, k)
        &&& g is Node && q < g->p && tkey(g) != k ==> !ink(t, k)
        &&& g is Node && q >= g->p ==> ({ let b = bitp(k, g->p); let st2 = stack.push((th(g) as u32, b));
            &&& psides(t, spath(st2), T::Leaf { h: 0, leaf: nl }) && smatch(t, st2) && vpath(t, spath(st2)) && at(t, spath(st2)) == child(g, b)
            &&& ink(t, k) ==> ink(child(g, b), k) })
        &&& tkey(g) == k ==> q == 128 })
{
    let path = spath(stack); let g = at(t, path); let k = nl.key; let q = lzs(tkey(g) ^ k);
    lemma_at(n.nodes@, t, path, 0);
    lemma_nonempty(t); lemma_nonempty(g); lemma_at_has(t, path, th(g));
    lemma_range(n.nodes@, t, th(g));
    assert(oocc(Some(t), th(g)));
    assert(flist(n, flw(n)));
    lemma_lz(tkey(g), k);
    if g is Node {
        if q < g->p && tkey(g) != k { lemma_no_key(g, mp(t, path, 0), k, q); }
        if q >= g->p {
            let b = bitp(k, g->p); let h = th(g) as u32;
            lemma_keep(k, tkey(g), g->p, q);
            lemma_stack_push(t, stack, h, b);
            if ink(g, k) { lemma_walk(g, mp(t, path, 0), k); }
            assert(all_side(T::Leaf { h: 0, leaf: nl }, g->key, g->p, b));
        }
    }
}
pub open spec fn made_q(m: Seq<AnyNode>, h: int) -> u32 { any_inner(m[h]).prefix_len }
pub open spec fn made_h(m: Seq<AnyNode>, h: int, b: bool) -> int { any_inner(m[h]).children[if b { 1int } else { 0int }] as int }
pub open spec fn made_new(m: Seq<AnyNode>, h: int, k: u128) -> int { made_h(m, h, bitp(k, made_q(m, h))) }
pub open spec fn made_old(m: Seq<AnyNode>, h: int, k: u128) -> int { made_h(m, h, !bitp(k, made_q(m, h))) }
pub open spec fn fresh(n: OrderTreeNodes, m: OrderTreeNodes, h: int) -> bool { 0 <= h < m.bump_index && (h >= n.bump_index || !live(n.nodes@[h])) }
/// the new leaf and the old top sit in fresh slots below a new inner node in the old top's slot
pub open spec fn ins_made(n: OrderTreeNodes, t: T, stack: Seq<(u32, bool)>, nl: LeafNode, m: OrderTreeNodes) -> bool {
    let o = at(t, spath(stack)); let q = made_q(m.nodes@, th(o)); let h1 = made_new(m.nodes@, th(o), nl.key); let h2 = made_old(m.nodes@, th(o), nl.key);
    &&& ins_nodes(n.nodes@, m.nodes@, o, nl, q, h1, h2)
    &&& fresh(n, m, h1) && fresh(n, m, h2)
    &&& tkey(o) != nl.key && shared(tkey(o), nl.key, q) && (o is Node ==> q < o->p)
    &&& fwf(m) && m.order_tree_type == n.order_tree_type && n.bump_index <= m.bump_index && m.bump_index - m.free_list_len == n.bump_index - n.free_list_len + 2
}
pub open spec fn made_tree(m: OrderTreeNodes, t: T, stack: Seq<(u32, bool)>, nl: LeafNode) -> T {
    let o = at(t, spath(stack)); let q = made_q(m.nodes@, th(o)); let h1 = made_new(m.nodes@, th(o), nl.key); let h2 = made_old(m.nodes@, th(o), nl.key);
    split_node(th(o), q, nl, h1, moved(o, h2))
}
pub proof fn lemma_ins_made(n: OrderTreeNodes, r: OrderTreeRoot, t: T, stack: Seq<(u32, bool)>, nl: LeafNode, m: OrderTreeNodes)
    requires ninv(n, r, Some(t)), smatch(t, stack), vpath(t, spath(stack)), nl.tag == 2, ins_made(n, t, stack, nl, m)
    ensures ({ let o = at(t, spath(stack)); let s = made_tree(m, t, stack, nl);
        &&& subt(m.nodes@, th(o)) == s && prep(m.nodes@, t, spath(stack)) && th(s) == th(o)
        &&& leaf_expiry(nl) >= texp(o) ==> repr(m.nodes@, rep(t, spath(stack), s))
        &&& leaf_expiry(nl) <= texp(o) ==> upd_pre(m.nodes@, t, stack, texp(o), leaf_expiry(nl)) }),
        !occ(t, made_new(m.nodes@, th(at(t, spath(stack))), nl.key)), !occ(t, made_old(m.nodes@, th(at(t, spath(stack))), nl.key)),
{
    let o = at(t, spath(stack)); let q = made_q(m.nodes@, th(o)); let h1 = made_new(m.nodes@, th(o), nl.key); let h2 = made_old(m.nodes@, th(o), nl.key);
    if occ(t, h1) { lemma_range(n.nodes@, t, h1); assert(oocc(Some(t), h1)); }
    if occ(t, h2) { lemma_range(n.nodes@, t, h2); assert(oocc(Some(t), h2)); }
    lemma_ins_pre(n.nodes@, m.nodes@, t, stack, nl, q, h1, h2);
}
pub proof fn lemma_ins_final(n0: OrderTreeNodes, r0: OrderTreeRoot, t: T, stack: Seq<(u32, bool)>, nl: LeafNode, n3: OrderTreeNodes, n4: OrderTreeNodes, r4: OrderTreeRoot)
    requires
        ninv(n0, r0, Some(t)), tree_of(n0.nodes@, r0) == Some(t), smatch(t, stack), vpath(t, spath(stack)), nl.tag == 2, ins_made(n0, t, stack, nl, n3),
        psides(t, spath(stack), T::Leaf { h: 0, leaf: nl }),
        repr(n4.nodes@, rep(t, spath(stack), made_tree(n3, t, stack, nl))),
        forall|x: int| 0 <= x < MAX_ORDERTREE_NODES && !(occ(t, x) && !occ(at(t, spath(stack)), x)) ==> #[trigger] n4.nodes@[x] == n3.nodes@[x],
        n4 == (OrderTreeNodes { nodes: n4.nodes, ..n3 }),
        r4.maybe_node == r0.maybe_node, r4.leaf_count == r0.leaf_count + 1,
    ensures
        wf1(n4, r4), keeps(n0, r0, n4, r4), exists|i: int| 0 <= i <= leaves(t).len() && #[trigger] leaves(t).insert(i, nl) == orders(n4, r4),
{
    let path = spath(stack); let o = at(t, path); let q = made_q(n3.nodes@, th(o)); let h1 = made_new(n3.nodes@, th(o), nl.key); let h2 = made_old(n3.nodes@, th(o), nl.key);
    let s = made_tree(n3, t, stack, nl); let t2 = rep(t, path, s);
    lemma_ins_made(n0, r0, t, stack, nl, n3);
    lemma_ins_pre(n0.nodes@, n3.nodes@, t, stack, nl, q, h1, h2);
    lemma_ins_done(n0.nodes@, t, stack, nl, q, h1, h2);
    assert forall|x: int| 0 <= x < n0.bump_index && !occ(t, x) && live(#[trigger] n0.nodes@[x]) implies n3.nodes@[x] == n0.nodes@[x] by {
        assert(flist(n0, flw(n0)));
        lemma_nonempty(o); lemma_at_has(t, path, th(o));
    }
    assert(leaves(t2).len() == leaves(t).len() + 1);
    lemma_final(n0, r0, t, path, n3, n4, r4, t2);
    assert(leaves(t).insert(ins_index(t, path, nl.key, q), nl) == orders(n4, r4));
}
pub proof fn lemma_empty_stack(t: T)
    ensures spath(Seq::<(u32, bool)>::empty()).len() == 0, vpath(t, spath(Seq::<(u32, bool)>::empty())), at(t, spath(Seq::<(u32, bool)>::empty())) == t, smatch(t, Seq::<(u32, bool)>::empty()),
        psides(t, spath(Seq::<(u32, bool)>::empty()), t)
{}
pub open spec fn rm_root(n: OrderTreeNodes, t: T, m: OrderTreeNodes, rr: OrderTreeRoot) -> bool {
    &&& t is Leaf && rr.leaf_count == 0 && fwf(m) && m.bump_index == n.bump_index && m.free_list_len == n.free_list_len + 1 && m.order_tree_type == n.order_tree_type
    &&& m.nodes@ == n.nodes@.update(th(t), m.nodes@[th(t)])
}
pub proof fn lemma_rm_root(n: OrderTreeNodes, r: OrderTreeRoot, t: T, m: OrderTreeNodes, rr: OrderTreeRoot)
    requires ninv(n, r, Some(t)), tree_of(n.nodes@, r) == Some(t), rm_root(n, t, m, rr)
    ensures wf1(m, rr), keeps(n, r, m, rr), orders(m, rr).len() == 0
{
    lemma_tree_of(m.nodes@, rr, None);
    assert(ninv(m, rr, None));
    assert(leaves(t).len() == 1);
    assert(oocc(Some(t), th(t)));
}
pub open spec fn rm_ready(n: OrderTreeNodes, t: T, stack: Seq<(u32, bool)>) -> bool {
    let path = spath(stack); let c = at(t, path); let a = at(t, path.drop_last()); let o = child(a, !path.last());
    &&& a is Node && th(a) == stack.last().0 && path.last() == stack.last().1 && inner_is(n.nodes@[th(a)], a->p, a->key, *a->l, *a->r)
    &&& 0 <= th(a) < n.bump_index && 0 <= th(o) < n.bump_index && 0 <= th(c) < n.bump_index
    &&& live(n.nodes@[th(a)]) && live(n.nodes@[th(o)]) && live(n.nodes@[th(c)]) && repr(n.nodes@, c) && repr(n.nodes@, o)
    &&& th(o) != th(c) && th(o) != th(a) && th(c) != th(a)
    &&& leaves(t).len() >= 2
    &&& tok(c, mp(t, path, 0))
    &&& n.bump_index <= MAX_ORDERTREE_NODES
}
pub proof fn lemma_rm_ready(n: OrderTreeNodes, r: OrderTreeRoot, t: T, stack: Seq<(u32, bool)>)
    requires ninv(n, r, Some(t)), smatch(t, stack), vpath(t, spath(stack)), stack.len() > 0
    ensures rm_ready(n, t, stack)
{
    lemma_rm_here(n.nodes@, t, stack);
    let path = spath(stack); let c = at(t, path); let a = at(t, path.drop_last()); let o = child(a, !path.last());
    lemma_range(n.nodes@, t, th(c)); lemma_range(n.nodes@, t, th(a)); lemma_range(n.nodes@, t, th(o));
    assert(oocc(Some(t), th(c)) && oocc(Some(t), th(a)) && oocc(Some(t), th(o)));
    assert(stack.map_values(|e: (u32, bool)| e.1).last() == stack.last().1);
    assert(flist(n, flw(n)));
}
/// everything about the tree after an update that stays within the tree and fresh slots
pub proof fn lemma_final(n0: OrderTreeNodes, r0: OrderTreeRoot, t: T, path: Seq<bool>, n3: OrderTreeNodes, n4: OrderTreeNodes, r4: OrderTreeRoot, t2: T)
    requires
        ninv(n0, r0, Some(t)), tree_of(n0.nodes@, r0) == Some(t), vpath(t, path),
        prep(n3.nodes@, t, path),
        forall|x: int| 0 <= x < MAX_ORDERTREE_NODES && !(occ(t, x) && !occ(at(t, path), x)) ==> #[trigger] n4.nodes@[x] == n3.nodes@[x],
        n4 == (OrderTreeNodes { nodes: n4.nodes, ..n3 }), fwf(n3),
        repr(n4.nodes@, t2), tok(t2, 0), dist(t2), th(t2) == r4.maybe_node, r4.leaf_count == leaves(t2).len(),
        n3.order_tree_type == n0.order_tree_type, n3.bump_index >= n0.bump_index,
        forall|x: int| #[trigger] occ(t2, x) ==> occ(t, x) || (x < n3.bump_index && (x >= n0.bump_index || !live(n0.nodes@[x]))),
        forall|x: int| 0 <= x < n0.bump_index && !occ(t, x) && live(#[trigger] n0.nodes@[x]) ==> n3.nodes@[x] == n0.nodes@[x],
        n3.bump_index - n3.free_list_len - 2 * leaves(t2).len() == n0.bump_index - n0.free_list_len - 2 * leaves(t).len(),
    ensures
        wf1(n4, r4), keeps(n0, r0, n4, r4), tree_of(n4.nodes@, r4) == Some(t2), orders(n4, r4) == leaves(t2),
{
    lemma_tree_of(n4.nodes@, r4, Some(t2));
    assert(flist(n3, flw(n3)));
    assert forall|x: int| 0 <= x < n3.bump_index && !live(n3.nodes@[x]) implies #[trigger] n4.nodes@[x] == n3.nodes@[x] by {
        if occ(t, x) && !occ(at(t, path), x) { lemma_prep_range(n3.nodes@, t, path, x); }
    }
    lemma_flist_same(n3, flw(n3), n4);
    assert(fwf(n4));
    assert forall|x: int| #[trigger] oocc(Some(t2), x) implies x < n4.bump_index by { if occ(t, x) { assert(oocc(Some(t), x)); } }
    assert(ninv(n4, r4, Some(t2)));
    assert forall|x: int| 0 <= x < n0.bump_index && !oocc(Some(t), x) && live(#[trigger] n0.nodes@[x]) implies n4.nodes@[x] == n0.nodes@[x] by {
        assert(flist(n0, flw(n0)));
        assert(n4.nodes@[x] == n3.nodes@[x]);
    }
}
pub proof fn lemma_rm_final(n0: OrderTreeNodes, r0: OrderTreeRoot, t: T, stack: Seq<(u32, bool)>, n3: OrderTreeNodes, n4: OrderTreeNodes, r4: OrderTreeRoot)
    requires
        ninv(n0, r0, Some(t)), tree_of(n0.nodes@, r0) == Some(t), smatch(t, stack), vpath(t, spath(stack)), stack.len() > 0, at(t, spath(stack)) is Leaf,
        rm_nodes(n0.nodes@, n3.nodes@, t, spath(stack)), rm_ready(n0, t, stack),
        fwf(n3), n3.bump_index == n0.bump_index, n3.free_list_len == n0.free_list_len + 2, n3.order_tree_type == n0.order_tree_type,
        r4.maybe_node == r0.maybe_node, r4.leaf_count == r0.leaf_count - 1,
        ({ let path = spath(stack); let d = path.drop_last(); let a = at(t, d);
           &&& repr(n4.nodes@, rep(t, d, moved(child(a, !path.last()), th(a)))) && prep(n3.nodes@, t, d)
           &&& forall|x: int| 0 <= x < MAX_ORDERTREE_NODES && !(occ(t, x) && !occ(a, x)) ==> #[trigger] n4.nodes@[x] == n3.nodes@[x] }),
        n4 == (OrderTreeNodes { nodes: n4.nodes, ..n3 }),
    ensures
        wf1(n4, r4), keeps(n0, r0, n4, r4), orders(n4, r4) == leaves(t).remove(rm_index(t, spath(stack))),
        0 <= rm_index(t, spath(stack)) < leaves(t).len(), leaves(t)[rm_index(t, spath(stack))] == at(t, spath(stack))->leaf,
{
    let path = spath(stack); let d = path.drop_last(); let a = at(t, d); let o = child(a, !path.last()); let c = at(t, path); let t2 = rm_tree(t, path);
    lemma_rm_done(n0.nodes@, t, stack);
    lemma_rm_here(n0.nodes@, t, stack);
    assert forall|x: int| 0 <= x < n0.bump_index && !occ(t, x) && live(#[trigger] n0.nodes@[x]) implies n3.nodes@[x] == n0.nodes@[x] by { assert(flist(n0, flw(n0))); }
    lemma_final(n0, r0, t, d, n3, n4, r4, t2);
}
pub proof fn lemma_occ_take(t: T, stack: Seq<(u32, bool)>, k: int, x: int)
    requires 0 <= k <= stack.len(), smatch(t, stack), vpath(t, spath(stack)), occ(at(t, spath(stack)), x)
    ensures occ(at(t, spath(stack.take(k))), x)
    decreases stack.len() - k
{
    if k < stack.len() { lemma_occ_take(t, stack, k + 1, x); lemma_stack_take(t, stack, k + 1); lemma_vpath_take(t, stack, k + 1); } else { assert(stack.take(k) =~= stack); }
}
pub proof fn lemma_vpath_take(t: T, stack: Seq<(u32, bool)>, k: int)
    requires 0 <= k <= stack.len(), smatch(t, stack), vpath(t, spath(stack))
    ensures vpath(t, spath(stack.take(k)))
    decreases stack.len() - k
{
    if k < stack.len() { lemma_vpath_take(t, stack, k + 1); lemma_stack_take(t, stack, k + 1); } else { assert(stack.take(k) =~= stack); }
}
pub proof fn lemma_upd_here(n: Seq<AnyNode>, t: T, stack: Seq<(u32, bool)>, k: int, out: int, new: int)
    requires 0 < k <= stack.len(), smatch(t, stack), vpath(t, spath(stack)), upd_pre(n, t, stack.take(k), out, new)
    ensures ({ let h = stack[k - 1].0 as int; let b = stack[k - 1].1; let i = any_inner(n[h]); let pk = spath(stack.take(k));
        &&& 0 <= h < n.len() && n[h].tag == 1
        &&& i.child_earliest_expiry[if b { 1int } else { 0int }] != out ==> repr(n, rep(t, pk, subt(n, th(at(t, pk)))))
        &&& occ(t, h) && !occ(at(t, spath(stack)), h) })
{
    lemma_stack_take(t, stack, k);
    lemma_vpath_take(t, stack, k);
    let pk = spath(stack.take(k)); let o = at(t, pk); let s = subt(n, th(o)); let a = at(t, pk.drop_last());
    if texp(s) == texp(o) { lemma_climb_same(n, t, pk, s); }
    lemma_nonempty(a);
    lemma_at_has(t, pk.drop_last(), th(a));
    lemma_at_dist(t, pk.drop_last());
    if occ(at(t, spath(stack)), th(a)) { lemma_occ_take(t, stack, k, th(a)); }
}
pub proof fn lemma_upd_next(n: Seq<AnyNode>, n1: Seq<AnyNode>, t: T, stack: Seq<(u32, bool)>, k: int, out: int, new: int)
    requires 0 < k <= stack.len(), smatch(t, stack), vpath(t, spath(stack)), upd_pre(n, t, stack.take(k), out, new),
        ({ let h = stack[k - 1].0 as int; let b = stack[k - 1].1; let i = any_inner(n[h]); let i1 = any_inner(n1[h]); let bi = if b { 1int } else { 0int };
           &&& n1.len() == n.len() && n1[h].tag == 1 && i1.prefix_len == i.prefix_len && i1.key == i.key && i1.children == i.children
           &&& i1.child_earliest_expiry[bi] == new && i1.child_earliest_expiry[1 - bi] == i.child_earliest_expiry[1 - bi]
           &&& i.child_earliest_expiry[bi] == out
           &&& forall|x: int| 0 <= x < n.len() && x != h ==> n1[x] == n[x] }),
    ensures ({ let h = stack[k - 1].0 as int; let i = any_inner(n[h]); let i1 = any_inner(n1[h]); let pk = spath(stack.take(k)); let pk1 = spath(stack.take(k - 1));
        &&& upd_pre(n1, t, stack.take(k - 1), imin(i.child_earliest_expiry[0] as int, i.child_earliest_expiry[1] as int), imin(i1.child_earliest_expiry[0] as int, i1.child_earliest_expiry[1] as int))
        &&& rep(t, pk1, subt(n1, th(at(t, pk1)))) == rep(t, pk, subt(n, th(at(t, pk)))) })
{
    lemma_stack_take(t, stack, k);
    lemma_vpath_take(t, stack, k);
    let pk = spath(stack.take(k)); let o = at(t, pk); let s = subt(n, th(o)); let d = pk.drop_last(); let a = at(t, d); let b = pk.last(); let h = th(a);
    let s2 = setc(a, b, s); let sib = child(a, !b);
    assert(d == spath(stack.take(k - 1)));
    lemma_at_dist(t, d);
    lemma_fits_up(t, pk, s);
    assert(!occ(s, h) && !occ(sib, h)) by { assert(dist(s2)); }
    assert forall|x: int| #[trigger] occ(s, x) implies n[x] == n1[x] by { lemma_range(n, s, x); }
    lemma_frame(n, n1, s);
    assert forall|x: int| #[trigger] occ(sib, x) implies n[x] == n1[x] by { lemma_range(n, sib, x); }
    lemma_frame(n, n1, sib);
    lemma_nonempty(a);
    assert forall|x: int| #[trigger] occ(t, x) && !occ(a, x) implies n[x] == n1[x] by { lemma_prep_range(n, t, d, x); }
    lemma_prep_frame(n, n1, t, d);
    assert(repr(n1, s2));
    lemma_subt(n1, s2);
}
pub proof fn lemma_prep_range(n: Seq<AnyNode>, t: T, path: Seq<bool>, x: int)
    requires prep(n, t, path), vpath(t, path), occ(t, x), !occ(at(t, path), x)
    ensures 0 <= x < n.len(), live(n[x])
    decreases path.len()
{
    if path.len() > 0 {
        let d = path.drop_last(); let a = at(t, d);
        if occ(a, x) { if x != th(a) { lemma_range(n, child(a, !path.last()), x); } } else { lemma_prep_range(n, t, d, x); }
    }
}
pub open spec fn sub_leaves(g: T, t: T) -> bool { forall|x: LeafNode| #[trigger] leaves(g).contains(x) ==> leaves(t).contains(x) }
pub proof fn lemma_sub_leaves(g: T, t: T)
    requires sub_leaves(g, t)
    ensures match g { T::Node { l, r, .. } => sub_leaves(*l, t) && sub_leaves(*r, t), T::Leaf { leaf, .. } => exists|i: int| 0 <= i < leaves(t).len() && #[trigger] leaves(t)[i] == leaf }
{
    match g {
        T::Node { l, r, .. } => {
            assert forall|x: LeafNode| #[trigger] leaves(*l).contains(x) implies leaves(t).contains(x) by {
                let i = choose|i: int| 0 <= i < leaves(*l).len() && leaves(*l)[i] == x; assert(leaves(g)[i] == x); assert(leaves(g).contains(x)); }
            assert forall|x: LeafNode| #[trigger] leaves(*r).contains(x) implies leaves(t).contains(x) by {
                let i = choose|i: int| 0 <= i < leaves(*r).len() && leaves(*r)[i] == x; assert(leaves(g)[i + leaves(*l).len()] == x); assert(leaves(g).contains(x)); }
        }
        T::Leaf { leaf, .. } => { assert(leaves(g)[0] == leaf); assert(leaves(g).contains(leaf)); }
    }
}
fn main() {}
}
