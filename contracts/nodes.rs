//@include prelude.rs
//@include types.rs
//@include tree_spec.rs
impl AnyNode {
//@fn state/orderbook/nodes.rs AnyNode::case
    ensures
        self.tag == 1 ==> r is Some && r->0 is Inner && *r->0->Inner_0 == any_inner(*self),
        self.tag == 2 ==> r is Some && r->0 is Leaf && *r->0->Leaf_0 == any_leaf(*self),
        self.tag != 1 && self.tag != 2 ==> r is None
//@endfn
//@fn state/orderbook/nodes.rs AnyNode::case_mut
    ensures
        old(self).tag == 1 ==> r is Some && r->0 is Inner && *r->0->Inner_0 == any_inner(*old(self)) && *final(self) == inner_any(*final(r->0->Inner_0)),
        old(self).tag == 2 ==> r is Some && r->0 is Leaf && *r->0->Leaf_0 == any_leaf(*old(self)) && *final(self) == leaf_any(*final(r->0->Leaf_0)),
        old(self).tag != 1 && old(self).tag != 2 ==> r is None && *final(self) == *old(self)
//@endfn
//@fn state/orderbook/nodes.rs AnyNode::as_leaf_mut
    ensures
        old(self).tag == 2 ==> r is Some && *r->0 == any_leaf(*old(self)) && *final(self) == leaf_any(*final(r->0)),
        old(self).tag != 2 ==> r is None && *final(self) == *old(self)
//@endfn
//@fn state/orderbook/nodes.rs AnyNode::as_inner_mut
    ensures
        old(self).tag == 1 ==> r is Some && *r->0 == any_inner(*old(self)) && *final(self) == inner_any(*final(r->0)),
        old(self).tag != 1 ==> r is None && *final(self) == *old(self)
//@endfn
//@fn state/orderbook/nodes.rs AnyNode::as_leaf
    ensures
        self.tag == 2 ==> r is Some && *r->0 == any_leaf(*self),
        self.tag != 2 ==> r is None
//@endfn
//@fn state/orderbook/nodes.rs AnyNode::as_inner
    ensures
        self.tag == 1 ==> r is Some && *r->0 == any_inner(*self),
        self.tag != 1 ==> r is None
//@endfn
//@fn state/orderbook/nodes.rs AnyNode::key
    ensures
        self.tag == 1 ==> r == Some(any_inner(*self).key),
        self.tag == 2 ==> r == Some(any_leaf(*self).key),
        self.tag != 1 && self.tag != 2 ==> r is None
//@endfn
//@fn state/orderbook/nodes.rs AnyNode::children
    requires self.tag == 1 || self.tag == 2
    ensures
        self.tag == 1 ==> r == Some(any_inner(*self).children),
        self.tag == 2 ==> r is None
//@endfn
}
impl OrderTreeNodes {
//@fn state/orderbook/ordertree.rs OrderTreeNodes::node
    requires handle < MAX_ORDERTREE_NODES
    ensures
        ({ let n = self.nodes[handle as int]; if n.tag == 1 || n.tag == 2 { r is Some && *r->0 == n } else { r is None } })
//@endfn
//@fn state/orderbook/ordertree.rs OrderTreeNodes::node_mut
    requires handle < MAX_ORDERTREE_NODES
    ensures
        ({ let n = old(self).nodes[handle as int];
           &&& *final(self) == (OrderTreeNodes { nodes: final(self).nodes, ..*old(self) })
           &&& if n.tag == 1 || n.tag == 2 { r is Some && *r->0 == n && final(self).nodes@ =~= old(self).nodes@.update(handle as int, *final(r->0)) && (*final(r->0) == n ==> final(self).nodes@ =~= old(self).nodes@) }
               else { r is None && final(self).nodes@ =~= old(self).nodes@ } })
//@endfn
}
fn main() {}
}
