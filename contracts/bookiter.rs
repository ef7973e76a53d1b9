//@include prelude.rs
//@include abort.rs
//@include types.rs
//@include keys_spec.rs
//@include tree_spec.rs
//@include leaf_spec.rs
//@include tree_ghost.rs
//@include iter_spec.rs
//@include iter_it.rs
//@item state/orderbook/bookside.rs BookSideOrderTree copy eq
//@item state/orderbook/bookside.rs BookSideOrderHandle
//@item state/orderbook/bookside.rs BookSide
//@item state/orderbook/bookside_iterator.rs OrderState copy eq
//@item state/orderbook/bookside_iterator.rs BookSideIterItem
//@item state/orderbook/bookside_iterator.rs BookSideIter
//@include walk_spec.rs
//@include walk_thm.rs
//@usefn keys.rs fixed_price_lots
//@usefn keys.rs fixed_price_data
//@usefn keys.rs oracle_pegged_price_offset
impl LeafNode {
//@usefn keys.rs LeafNode::price_data
//@usefn keys.rs LeafNode::is_expired
}
impl Side {
//@usefn keys.rs Side::is_price_better
}
//@rw ($a..$b).contains(&$x) => ($a <= $x && $x < $b)
pub fn vx_sat_add(a: i64, b: i64) -> (r: i64) ensures r == (if a + b > i64::MAX { i64::MAX as int } else if a + b < i64::MIN { i64::MIN as int } else { a + b }) {
    if b >= 0 && a > i64::MAX - b { i64::MAX } else if b < 0 && a < i64::MIN - b { i64::MIN } else { a + b }
}
//@rw $a.saturating_add($b) => vx_sat_add($a, $b)

//@fn state/orderbook/bookside_iterator.rs oracle_pegged_price mode=abort
    ensures r.0 == peg_state(side, oracle_price_lots as int, *node), r.1 == peg_shown(oracle_price_lots as int, *node)
//@endfn
//@fn state/orderbook/bookside_iterator.rs key_for_fixed_price
    requires price_lots >= 1
    ensures r == rank_at(price_lots as int, key as int)
//@start
    proof {
        assert forall|a: u64| #[trigger] ((a as u128) << 64u128) == a * P64() by { assert(((a as u128) << 64u128) == (a as u128) * 0x1_0000_0000_0000_0000u128) by (bit_vector); }
        assert forall|k: u128| (#[trigger] (k as u64)) == (k as int) % P64() by { assert((k as u64) as u128 == k % 0x1_0000_0000_0000_0000u128) by (bit_vector); }
        assert forall|a: u64, b: u64| #[trigger] (((a as u128) << 64u128) | (b as u128)) == ((a as u128) << 64u128) + b by { assert((((a as u128) << 64u128) | (b as u128)) == ((a as u128) << 64u128) + (b as u128)) by (bit_vector); }
    }
//@endfn
//@fn state/orderbook/bookside_iterator.rs fixed_to_result mode=abort
    ensures is_item(r, fixed_ent(itm(fixed), now_ts as int))
//@endfn
//@fn state/orderbook/bookside_iterator.rs oracle_pegged_to_result mode=abort
    ensures r.handle.node == pegged.0, r.handle.order_tree == BookSideOrderTree::OraclePegged, r.node == pegged.1, r.price_lots == pegged.2,
        r.state == (if leaf_expired(*pegged.1, now_ts as int) { OrderState::Invalid } else { pegged.3 })
//@endfn
//@fn state/orderbook/bookside_iterator.rs rank_orders mode=abort
    ensures ({ let o = if oracle_price_lots is Some { oracle_price_lots->0 as int } else { 0 };
        let peg = oracle_price_lots is Some && oracle_pegged is Some;
        &&& fixed is None && !peg ==> r is None
        &&& fixed is Some && !peg ==> r is Some && is_item(r->0, fixed_ent(itm(fixed->0), now_ts as int))
        &&& fixed is None && peg ==> r is Some && is_item(r->0, peg_ent(side, o, itm(oracle_pegged->0), now_ts as int))
        &&& fixed is Some && peg ==> r is Some && is_item(r->0, if before(side, (fixed->0).1.key as int, peg_rank(o, *(oracle_pegged->0).1)) != return_worse
                { fixed_ent(itm(fixed->0), now_ts as int) } else { peg_ent(side, o, itm(oracle_pegged->0), now_ts as int) }) })
//@endfn
impl<'a> OrderTreeIter<'a> {
//@usefn iter.rs OrderTreeIter::side
//@usefn iter.rs OrderTreeIter::peek
//@usefn iter.rs Iterator@OrderTreeIter::next
}
impl<'a> BookSideIter<'a> {
    pub open spec fn wf(self) -> bool { self.fixed_iter.wf() && self.oracle_pegged_iter.wf() && self.fixed_iter.left == self.oracle_pegged_iter.left }
    pub open spec fn sd(self) -> Side { if self.fixed_iter.left == 1 { Side::Bid } else { Side::Ask } }
    pub open spec fn todo(self) -> Seq<Ent> { walk(self.sd(), self.oracle_price_lots, self.now_ts as int, self.fixed_iter.todo(), self.oracle_pegged_iter.todo()) }
//@fn state/orderbook/bookside_iterator.rs Iterator@BookSideIter::next mode=abort
    requires old(self).wf()
    ensures final(self).wf(), final(self).sd() == old(self).sd(), final(self).now_ts == old(self).now_ts, final(self).oracle_price_lots == old(self).oracle_price_lots,
        r is None ==> old(self).todo().len() == 0,
        r is Some ==> old(self).todo().len() > 0 && is_item(r->0, old(self).todo()[0]) && final(self).todo() == old(self).todo().drop_first()
//@type Option<Self::Item> => Option<BookSideIterItem<'a>>
//@start
    let ghost p0 = self.oracle_pegged_iter.todo();
    let ghost o = if self.oracle_price_lots is Some { self.oracle_price_lots->0 as int } else { 0 };
    proof {
        lemma_skipf(o, p0);
        assert forall|e: Ent, s: Seq<Ent>| #[trigger] (seq![e] + s).drop_first() == s by { assert((seq![e] + s).drop_first() =~= s); }
    }
//@inv 0
    invariant
        self.wf(), self.fixed_iter == old(self).fixed_iter, self.now_ts == old(self).now_ts, self.oracle_price_lots == old(self).oracle_price_lots,
        self.oracle_price_lots == Some(oracle_price_lots), o == oracle_price_lots, p0 == old(self).oracle_pegged_iter.todo(),
        o_peek is None <==> self.oracle_pegged_iter.todo().len() == 0,
        o_peek is Some ==> itm(o_peek->0) == self.oracle_pegged_iter.todo()[0],
        skipf(o, self.oracle_pegged_iter.todo()) == skipf(o, p0),
    ensures
        o_peek is Some ==> !peg_skip(o, self.oracle_pegged_iter.todo()[0].leaf),
    decreases self.oracle_pegged_iter.todo().len()
//@endfn
}
fn main() {}
}
