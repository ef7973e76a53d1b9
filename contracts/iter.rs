//@include prelude.rs
//@include types.rs
//@include tree_spec.rs
//@include leaf_spec.rs
//@include tree_ghost.rs
//@include iter_spec.rs
//@include iter_it.rs
impl AnyNode {
//@usefn nodes.rs AnyNode::case
}
impl OrderTreeRoot {
//@usefn tree.rs OrderTreeRoot::node
}
impl OrderTreeNodes {
//@usefn nodes.rs OrderTreeNodes::node
//@usefn tree.rs OrderTreeNodes::order_tree_type
}
pub proof fn lemma_push(n: Seq<AnyNode>, st: Seq<&InnerNode>, x: &InnerNode, right: int)
    ensures rest(n, st.push(x), right) == dl(subt(n, x.children[right] as int), right == 0) + rest(n, st, right),
        st_ok(n, st.push(x), right) == (sub_ok(n, x.children[right] as int) && st_ok(n, st, right))
{
    assert(st.push(x).drop_last() =~= st);
}
pub proof fn lemma_node_dl(n: Seq<AnyNode>, h: int, right: int)
    requires sub_ok(n, h), right == 0 || right == 1
    ensures ({ let g = subt(n, h); let i = any_inner(n[h]); let left = 1 - right;
        &&& 0 <= h < n.len() && live(n[h]) && (g is Node <==> n[h].tag == 1) && th(g) == h
        &&& n[h].tag == 2 ==> dl(g, right == 0) == seq![It { h, leaf: any_leaf(n[h]) }]
        &&& n[h].tag == 1 ==> sub_ok(n, i.children[left] as int) && sub_ok(n, i.children[right] as int)
            && dl(g, right == 0) == dl(subt(n, i.children[left] as int), right == 0) + dl(subt(n, i.children[right] as int), right == 0)
            && decreases_to!(g => subt(n, i.children[left] as int)) })
{
    let g = subt(n, h);
    lemma_subt(n, g);
    match g { T::Node { l, r, .. } => { assert(is_sub(n, th(*l), *l)); assert(is_sub(n, th(*r), *r)); }, _ => {} }
}
impl<'a> OrderTreeIter<'a> {
//@fn state/orderbook/ordertree_iterator.rs OrderTreeIter::new
    requires order_tree.order_tree_type <= 1, wf1(*order_tree, *root)
    ensures r.wf(), r.order_tree == order_tree, r.left == (if is_bids(*order_tree) { 1int } else { 0int }), r.todo() == section(*order_tree, *root)
//@start
    proof {
        lemma_tree_of(order_tree.nodes@, *root, choose|o: Option<T>| ninv(*order_tree, *root, o));
        if let Some(t) = tree_of(order_tree.nodes@, *root) { lemma_subt(order_tree.nodes@, t); lemma_nonempty(t); }
        assert forall|s: Seq<It>, st: Seq<&InnerNode>, right: int| st.len() == 0 implies #[trigger] (s + rest(order_tree.nodes@, st, right)) == s by { assert(s + rest(order_tree.nodes@, st, right) =~= s); }
    }
//@endfn
//@fn state/orderbook/ordertree_iterator.rs OrderTreeIter::side
    requires self.dir()
    ensures r == (if self.left == 1 { Side::Bid } else { Side::Ask })
//@endfn
//@fn state/orderbook/ordertree_iterator.rs OrderTreeIter::peek
    requires self.wf()
    ensures r is None <==> self.todo().len() == 0, r is Some ==> itm(r->0) == self.todo()[0]
//@endfn
//@fn state/orderbook/ordertree_iterator.rs OrderTreeIter::find_leftmost_leaf
    requires old(self).dir(), st_ok(old(self).order_tree.nodes@, old(self).stack@, old(self).right as int), sub_ok(old(self).order_tree.nodes@, start as int)
    ensures r is Some, final(self).order_tree == old(self).order_tree, final(self).next_leaf == old(self).next_leaf, final(self).left == old(self).left, final(self).right == old(self).right,
        st_ok(final(self).order_tree.nodes@, final(self).stack@, final(self).right as int),
        seq![itm(r->0)] + rest(final(self).order_tree.nodes@, final(self).stack@, final(self).right as int)
            == dl(subt(old(self).order_tree.nodes@, start as int), old(self).right == 0) + rest(old(self).order_tree.nodes@, old(self).stack@, old(self).right as int)
//@start
    let ghost n = self.order_tree.nodes@;
    let ghost goal = dl(subt(n, start as int), self.right == 0) + rest(n, self.stack@, self.right as int);
//@inv 0
    invariant
        self.dir(), self.order_tree == old(self).order_tree, self.next_leaf == old(self).next_leaf, self.left == old(self).left, self.right == old(self).right,
        n == self.order_tree.nodes@, n == old(self).order_tree.nodes@, n.len() == MAX_ORDERTREE_NODES,
        goal == dl(subt(n, start as int), old(self).right == 0) + rest(n, old(self).stack@, old(self).right as int),
        sub_ok(n, current as int), st_ok(n, self.stack@, self.right as int),
        dl(subt(n, current as int), self.right == 0) + rest(n, self.stack@, self.right as int) == goal,
    decreases subt(n, current as int)
//@loopstart 0
    proof {
        lemma_node_dl(n, current as int, self.right as int);
        let st = self.stack@; let right = self.right as int;
        assert forall|x: &InnerNode| #[trigger] rest(n, st.push(x), right) == dl(subt(n, x.children[right] as int), right == 0) + rest(n, st, right) by { lemma_push(n, st, x, right); }
        assert forall|x: &InnerNode| #[trigger] st_ok(n, st.push(x), right) == (sub_ok(n, x.children[right] as int) && st_ok(n, st, right)) by { lemma_push(n, st, x, right); }
        if n[current as int].tag == 1 {
            let i = any_inner(n[current as int]);
            assert((dl(subt(n, i.children[1 - right] as int), right == 0) + dl(subt(n, i.children[right] as int), right == 0)) + rest(n, st, right)
                =~= dl(subt(n, i.children[1 - right] as int), right == 0) + (dl(subt(n, i.children[right] as int), right == 0) + rest(n, st, right)));
        }
    }
//@endfn
//@fn state/orderbook/ordertree_iterator.rs Iterator@OrderTreeIter::next
    requires old(self).wf()
    ensures final(self).wf(), final(self).order_tree == old(self).order_tree, final(self).left == old(self).left, final(self).right == old(self).right,
        r is None ==> old(self).todo().len() == 0 && *final(self) == *old(self),
        r is Some ==> old(self).todo().len() > 0 && itm(r->0) == old(self).todo()[0] && final(self).todo() == old(self).todo().drop_first()
//@type Option<Self::Item> => Option<(NodeHandle, &'a LeafNode)>
//@start
    proof {
        let st = self.stack@;
        if self.next_leaf is Some { assert(seq![itm(self.next_leaf->0)].len() == 1); assert(self.todo().drop_first() =~= rest(self.order_tree.nodes@, st, self.right as int)); }
        assert forall|s: Seq<It>| #[trigger] (Seq::<It>::empty() + s) == s by { assert(Seq::<It>::empty() + s =~= s); }
    }
//@endfn
}
fn main() {}
}
