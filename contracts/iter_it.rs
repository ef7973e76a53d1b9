//@item state/orderbook/ordertree_iterator.rs OrderTreeIter
pub open spec fn sub_ok(n: Seq<AnyNode>, h: int) -> bool { is_sub(n, h, subt(n, h)) }
/// what is still to come from the right sides of the nodes on the stack
pub open spec fn rest(n: Seq<AnyNode>, st: Seq<&InnerNode>, right: int) -> Seq<It> decreases st.len() {
    if st.len() == 0 { Seq::empty() } else { dl(subt(n, st.last().children[right] as int), right == 0) + rest(n, st.drop_last(), right) }
}
pub open spec fn st_ok(n: Seq<AnyNode>, st: Seq<&InnerNode>, right: int) -> bool decreases st.len() {
    st.len() == 0 || (sub_ok(n, st.last().children[right] as int) && st_ok(n, st.drop_last(), right))
}
impl<'a> OrderTreeIter<'a> {
    pub open spec fn dir(self) -> bool { (self.left == 0 && self.right == 1) || (self.left == 1 && self.right == 0) }
    pub open spec fn wf(self) -> bool {
        &&& self.dir() && st_ok(self.order_tree.nodes@, self.stack@, self.right as int)
        &&& self.next_leaf is None ==> self.stack@.len() == 0
    }
    pub open spec fn todo(self) -> Seq<It> {
        (match self.next_leaf { None => Seq::empty(), Some(x) => seq![itm(x)] }) + rest(self.order_tree.nodes@, self.stack@, self.right as int)
    }
}
