//@include prelude.rs
//@include abort.rs
//@include types.rs
//@include keys_spec.rs
//@include tree_spec.rs
//@include leaf_spec.rs
//@include tree_ghost.rs
//@include iter_spec.rs
//@include iter_it.rs
//@item state/orderbook/bookside.rs BookSideOrderTree copy eq
//@item state/orderbook/bookside.rs BookSideOrderHandle
//@item state/orderbook/bookside.rs BookSide
//@item state/orderbook/bookside_iterator.rs OrderState copy eq
//@item state/orderbook/bookside_iterator.rs BookSideIterItem
//@item state/orderbook/bookside_iterator.rs BookSideIter
//@include walk_spec.rs
//@include side_spec.rs
pub fn vx_tree_ix(c: BookSideOrderTree) -> (r: usize) ensures r == c.disc() { match c { BookSideOrderTree::Fixed => 0, BookSideOrderTree::OraclePegged => 1 } }
//@usefn bookiter.rs rank_orders
impl Side {
//@usefn keys.rs Side::is_price_better
}
impl OrderTreeType {
//@fn state/orderbook/ordertree.rs OrderTreeType::side
    ensures r == (if *self == OrderTreeType::Bids { Side::Bid } else { Side::Ask })
//@endfn
}
impl OrderTreeNodes {
//@usefn nodes.rs OrderTreeNodes::node
//@usefn nodes.rs OrderTreeNodes::node_mut
//@usefn tree.rs OrderTreeNodes::order_tree_type
//@usefn tree.rs OrderTreeNodes::is_full
//@usefn tree.rs OrderTreeNodes::find_worst
//@usefn tree.rs OrderTreeNodes::insert_leaf
//@usefn tree.rs OrderTreeNodes::remove_by_key
//@usefn tree.rs OrderTreeNodes::remove_one_expired
//@fn state/orderbook/ordertree.rs OrderTreeNodes::iter
    requires self.order_tree_type <= 1, wf1(*self, *root)
    ensures r.wf(), r.order_tree == self, r.left == (if is_bids(*self) { 1int } else { 0int }), r.todo() == section(*self, *root)
//@endfn
}
impl<'a> OrderTreeIter<'a> {
//@usefn iter.rs OrderTreeIter::new
}
impl<'a> BookSideIter<'a> {
    pub open spec fn wf(self) -> bool { self.fixed_iter.wf() && self.oracle_pegged_iter.wf() && self.fixed_iter.left == self.oracle_pegged_iter.left }
    pub open spec fn sd(self) -> Side { if self.fixed_iter.left == 1 { Side::Bid } else { Side::Ask } }
    pub open spec fn todo(self) -> Seq<Ent> { walk(self.sd(), self.oracle_price_lots, self.now_ts as int, self.fixed_iter.todo(), self.oracle_pegged_iter.todo()) }
//@usefn bookiter.rs Iterator@BookSideIter::next
//@fn state/orderbook/bookside_iterator.rs BookSideIter::new
    requires bwf(*book_side)
    ensures r.wf(), r.sd() == side_of(*book_side), r.now_ts == now_ts, r.oracle_price_lots == oracle_price_lots, r.todo() == book_walk(*book_side, now_ts as int, oracle_price_lots)
//@endfn
}
// `filter(|it| it.is_valid())`: the items whose state is Valid, in order
pub struct VxValid<'a> { pub it: BookSideIter<'a> }
impl<'a> VxValid<'a> {
    pub open spec fn todo(self) -> Seq<Ent> { valid(self.it.todo()) }
    pub fn next(&mut self) -> (r: Option<BookSideIterItem<'a>>)
        requires old(self).it.wf()
        ensures final(self).it.wf(),
            r is None ==> old(self).todo().len() == 0,
            r is Some ==> old(self).todo().len() > 0 && is_item(r->0, old(self).todo()[0]) && final(self).todo() == old(self).todo().drop_first()
    {
        loop
            invariant self.it.wf(), self.todo() == old(self).todo()
            decreases self.it.todo().len()
        {
            let ghost w = self.it.todo();
            proof { if w.len() > 0 && w[0].state == OrderState::Valid { assert(valid(w).drop_first() =~= valid(w.drop_first())); } }
            match self.it.next() { None => { return None; } Some(x) => { if x.is_valid() { return Some(x); } } }
        }
    }
}
impl<'a> BookSideIterItem<'a> {
//@fn state/orderbook/bookside_iterator.rs BookSideIterItem::is_valid
    ensures r == (self.state == OrderState::Valid)
//@endfn
}
impl BookSide {
//@fn state/orderbook/bookside.rs BookSide::iter_valid
    requires bwf(*self)
    ensures r.it.wf(), r.todo() == valid(book_walk(*self, now_ts as int, oracle_price_lots))
//@type impl Iterator<Item = BookSideIterItem> => VxValid
//@rw $x.filter(|it| it.is_valid()) => VxValid { it: $x }
//@endfn
//@fn state/orderbook/bookside.rs BookSide::best_price
    requires bwf(*self)
    ensures ({ let w = valid(book_walk(*self, now_ts as int, oracle_price_lots)); if w.len() == 0 { r is None } else { r is Some && r->0 == w[0].price } })
//@endfn
//@fn state/orderbook/bookside.rs BookSide::quantity_at_price mode=abort
    requires bwf(*self)
    ensures r == qty_to(side_of(*self), valid(book_walk(*self, now_ts as int, Some(oracle_price_lots))), limit_price_lots as int)
//@inv 0
    invariant_except_break
        sum + qty_to(side, vx_it0.todo(), limit_price_lots as int) == qty_to(side, valid(book_walk(*self, now_ts as int, Some(oracle_price_lots))), limit_price_lots as int),
    invariant bwf(*self), side == side_of(*self), vx_it0.it.wf(),
    ensures sum == qty_to(side, valid(book_walk(*self, now_ts as int, Some(oracle_price_lots))), limit_price_lots as int),
    decreases vx_it0.todo().len()
//@endfn
//@fn state/orderbook/bookside.rs BookSide::impact_price mode=abort
    requires bwf(*self)
    ensures ({ let e = price_at(valid(book_walk(*self, now_ts as int, Some(oracle_price_lots))), 0, quantity as int); (r is None <==> e is None) && (r is Some ==> r->0 == e->0) })
//@inv 0
    invariant_except_break
        price_at(vx_it0.todo(), sum as int, quantity as int) == price_at(valid(book_walk(*self, now_ts as int, Some(oracle_price_lots))), 0, quantity as int),
    invariant bwf(*self), vx_it0.it.wf(),
    ensures price_at(valid(book_walk(*self, now_ts as int, Some(oracle_price_lots))), 0, quantity as int) is None,
    decreases vx_it0.todo().len()
//@endfn
//@fn state/orderbook/bookside.rs BookSide::iter_all_including_invalid
    requires bwf(*self)
    ensures r.wf(), r.sd() == side_of(*self), r.now_ts == now_ts, r.oracle_price_lots == oracle_price_lots, r.todo() == book_walk(*self, now_ts as int, oracle_price_lots)
//@endfn
//@fn state/orderbook/bookside.rs BookSide::root
    ensures *r == self.roots[component.disc()]
//@endfn
//@fn state/orderbook/bookside.rs BookSide::is_full
    requires bwf(*self)
    ensures !r ==> room(*self) >= 2, r ==> room(*self) <= 2
//@endfn
//@fn state/orderbook/bookside.rs BookSide::side
    requires bwf(*self)
    ensures r == side_of(*self)
//@endfn
//@fn state/orderbook/bookside.rs BookSide::insert_leaf
    requires bwf(*old(self)), new_leaf.tag == 2
    ensures
        r is Err ==> room(*old(self)) < 2,
        r is Ok ==> only(*old(self), *final(self), component) && ({ let s = sec(*old(self), component); let s2 = sec(*final(self), component);
           match (r->Ok_0).1 { None => inserted(s, *new_leaf, s2), Some(o) => replaced(s, o, *new_leaf, s2) } })
//@start
    let ghost b0 = *self;
    proof { assert forall|b: BookSide| step_ok(b0, b, component) implies #[trigger] only(b0, b, component) by { lemma_only(b0, b, component); } }
//@endfn
//@fn state/orderbook/bookside.rs BookSide::remove_by_key
    requires bwf(*old(self))
    ensures only(*old(self), *final(self), component), room(*final(self)) >= room(*old(self)),
        match r {
            None => sec(*final(self), component) == sec(*old(self), component) && forall|i: int| 0 <= i < sec(*old(self), component).len() ==> #[trigger] notin(sec(*old(self), component), i, search_key),
            Some(leaf) => leaf.key == search_key && one_gone(sec(*old(self), component), leaf, sec(*final(self), component)),
        }
//@start
    let ghost b0 = *self;
    proof { assert forall|b: BookSide| step_ok(b0, b, component) implies #[trigger] only(b0, b, component) by { lemma_only(b0, b, component); } }
//@endfn
//@fn state/orderbook/bookside.rs BookSide::remove_one_expired
    requires bwf(*old(self))
    ensures bwf(*final(self)), final(self).nodes.order_tree_type == old(self).nodes.order_tree_type,
        ({ let s = sec(*old(self), component); let s2 = sec(*final(self), component); let t = sec(*old(self), other(component)); let t2 = sec(*final(self), other(component));
           match r {
               None => s2 == s && t2 == t && (forall|i: int| 0 <= i < s.len() ==> leaf_expiry(#[trigger] s[i]) >= now_ts) && (forall|i: int| 0 <= i < t.len() ==> leaf_expiry(#[trigger] t[i]) >= now_ts),
               Some(leaf) => leaf_expiry(leaf) < now_ts && ((one_gone(s, leaf, s2) && t2 == t) || (one_gone(t, leaf, t2) && s2 == s)),
           } })
//@start
    let ghost b0 = *self;
    proof {
        assert forall|b: BookSide| step_ok(b0, b, component) implies #[trigger] bwf(b) by { lemma_only(b0, b, component); }
        assert forall|b: BookSide| step_ok(b0, b, component) implies #[trigger] sec(b, other(component)) == sec(b0, other(component)) by { lemma_only(b0, b, component); }
    }
//@after 0|@call remove_one_expired
    let ghost b1 = *self;
    proof {
        lemma_only(b0, b1, component);
        assert forall|b: BookSide| step_ok(b1, b, other(component)) implies #[trigger] bwf(b) by { lemma_only(b1, b, other(component)); }
        assert forall|b: BookSide| step_ok(b1, b, other(component)) implies #[trigger] sec(b, component) == sec(b1, component) by { assert(other(other(component)) == component); lemma_only(b1, b, other(component)); }
    }
//@endfn
//@fn state/orderbook/bookside.rs BookSide::remove_worst mode=abort
    requires bwf(*old(self))
    ensures bwf(*final(self)), final(self).nodes.order_tree_type == old(self).nodes.order_tree_type,
        ({ let f = sec(*old(self), BookSideOrderTree::Fixed); let p = sec(*old(self), BookSideOrderTree::OraclePegged);
           let f2 = sec(*final(self), BookSideOrderTree::Fixed); let p2 = sec(*final(self), BookSideOrderTree::OraclePegged);
           match r {
               None => f2 == f && p2 == p && f.len() == 0 && (oracle_price_lots is None || p.len() == 0),
               Some(x) => if peg_worse(*old(self), oracle_price_lots) {
                       p.len() > 0 && x.0 == worst(*old(self), BookSideOrderTree::OraclePegged) && x.1 == peg_shown(oracle_price_lots->0 as int, x.0) && one_gone(p, x.0, p2) && f2 == f
                   } else {
                       f.len() > 0 && x.0 == worst(*old(self), BookSideOrderTree::Fixed) && x.1 == key_price(x.0.key as int) && one_gone(f, x.0, f2) && p2 == p
                   },
           } })
//@start
    proof { lemma_orders(self.nodes, self.roots[0]); lemma_orders(self.nodes, self.roots[1]); }
//@endfn
//@fn state/orderbook/bookside.rs BookSide::is_empty
    requires bwf(*self)
    ensures r == (sec(*self, BookSideOrderTree::Fixed).len() == 0 && sec(*self, BookSideOrderTree::OraclePegged).len() == 0)
//@rw [$a, $b].into_iter().all(|component| $e) => (({ let component = $a; $e }) && ({ let component = $b; $e }))
//@rw $x.count() => vx_count($x)
//@start
    proof { lemma_section(self.nodes, self.roots[0]); lemma_section(self.nodes, self.roots[1]); }
//@endfn
//@fn state/orderbook/bookside.rs BookSide::node
    requires handle < MAX_ORDERTREE_NODES
    ensures ({ let n = self.nodes.nodes[handle as int]; if n.tag == 1 || n.tag == 2 { r is Some && *r->0 == n } else { r is None } })
//@endfn
//@fn state/orderbook/bookside.rs BookSide::node_mut
    requires handle < MAX_ORDERTREE_NODES
    ensures *final(self) == (BookSide { nodes: final(self).nodes, ..*old(self) }), final(self).nodes == (OrderTreeNodes { nodes: final(self).nodes.nodes, ..old(self).nodes }),
        ({ let n = old(self).nodes.nodes[handle as int];
           if n.tag == 1 || n.tag == 2 { r is Some && *r->0 == n && final(self).nodes.nodes@ =~= old(self).nodes.nodes@.update(handle as int, *final(r->0)) }
           else { r is None && final(self).nodes.nodes@ =~= old(self).nodes.nodes@ } })
//@endfn
}
/// `Iterator::count` takes every item (trusted: what the library function does)
#[verifier::external_body]
pub fn vx_count(it: OrderTreeIter) -> (r: usize) requires it.wf() ensures r == it.todo().len() { unimplemented!() }
pub open spec fn book_walk(b: BookSide, now: int, oracle: Option<i64>) -> Seq<Ent> { walk(side_of(b), oracle, now, section(b.nodes, b.roots[0]), section(b.nodes, b.roots[1])) }
pub open spec fn step_ok(a: BookSide, b: BookSide, c: BookSideOrderTree) -> bool {
    wf1(b.nodes, b.roots[c.disc()]) && keeps(a.nodes, a.roots[c.disc()], b.nodes, b.roots[c.disc()]) && b.roots[other(c).disc()] == a.roots[other(c).disc()]
}
fn main() {}
}
