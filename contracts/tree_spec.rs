//@item state/orderbook/nodes.rs NodeHandle
//@item state/orderbook/nodes.rs NODE_SIZE
//@item state/orderbook/nodes.rs NodeTag copy eq
//@item state/orderbook/nodes.rs InnerNode
//@item state/orderbook/nodes.rs LeafNode
//@item state/orderbook/nodes.rs FreeNode
//@item state/orderbook/nodes.rs AnyNode
pub enum NodeRef<'a> { Inner(&'a InnerNode), Leaf(&'a LeafNode) }
pub enum NodeRefMut<'a> { Inner(&'a mut InnerNode), Leaf(&'a mut LeafNode) }
//@item state/orderbook/ordertree.rs MAX_ORDERTREE_NODES
//@item state/orderbook/ordertree.rs OrderTreeType copy eq
//@item state/orderbook/ordertree.rs OrderTreeRoot
//@item state/orderbook/ordertree.rs OrderTreeNodes

// ---- the three layouts of a node are views of the same 88 bytes (bytemuck casts) -------------------
pub trait VxPod: Sized {
    spec fn to_any(self) -> AnyNode;
    spec fn of_any(n: AnyNode) -> Self;
}
impl VxPod for AnyNode { open spec fn to_any(self) -> AnyNode { self } open spec fn of_any(n: AnyNode) -> Self { n } }
impl VxPod for InnerNode { open spec fn to_any(self) -> AnyNode { inner_any(self) } open spec fn of_any(n: AnyNode) -> Self { any_inner(n) } }
impl VxPod for LeafNode { open spec fn to_any(self) -> AnyNode { leaf_any(self) } open spec fn of_any(n: AnyNode) -> Self { any_leaf(n) } }
impl VxPod for FreeNode { open spec fn to_any(self) -> AnyNode { free_any(self) } open spec fn of_any(n: AnyNode) -> Self { any_free(n) } }
// same size, first byte is the tag in every layout
pub use vx_ax::*;
pub mod vx_ax { use super::*;
pub uninterp spec fn inner_any(i: InnerNode) -> AnyNode;
pub uninterp spec fn any_inner(n: AnyNode) -> InnerNode;
pub uninterp spec fn leaf_any(i: LeafNode) -> AnyNode;
pub uninterp spec fn any_leaf(n: AnyNode) -> LeafNode;
pub uninterp spec fn free_any(i: FreeNode) -> AnyNode;
pub uninterp spec fn any_free(n: AnyNode) -> FreeNode;
pub broadcast axiom fn cast_inner(i: InnerNode) ensures any_inner(#[trigger] inner_any(i)) == i, inner_any(i).tag == i.tag;
pub broadcast axiom fn cast_leaf(i: LeafNode) ensures any_leaf(#[trigger] leaf_any(i)) == i, leaf_any(i).tag == i.tag;
pub broadcast axiom fn cast_free(i: FreeNode) ensures any_free(#[trigger] free_any(i)) == i, free_any(i).tag == i.tag;
pub broadcast axiom fn cast_any_inner(n: AnyNode) ensures inner_any(#[trigger] any_inner(n)) == n, any_inner(n).tag == n.tag;
pub broadcast axiom fn cast_any_leaf(n: AnyNode) ensures leaf_any(#[trigger] any_leaf(n)) == n, any_leaf(n).tag == n.tag;
}
broadcast use {vx_ax::cast_inner, vx_ax::cast_leaf, vx_ax::cast_free, vx_ax::cast_any_inner, vx_ax::cast_any_leaf};
#[verifier::external_body]
pub fn vx_cast<A: VxPod, B: VxPod>(a: A) -> (r: B) ensures r == B::of_any(a.to_any()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_cast_ref<A: VxPod, B: VxPod>(a: &A) -> (r: &B) ensures *r == B::of_any((*a).to_any()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_cast_mut<A: VxPod, B: VxPod>(a: &mut A) -> (r: &mut B)
    ensures *r == B::of_any((*old(a)).to_any()), *final(a) == A::of_any((*final(r)).to_any()) { unimplemented!() }
//@rw cast_ref::<$a, $b>($x) => vx_cast_ref::<$a, $b>($x)
//@rw cast_ref($x) => vx_cast_ref($x)
//@rw cast_mut($x) => vx_cast_mut($x)
//@rw cast($x) => vx_cast($x)
//@rw $x.as_ref() => vx_cast_ref::<_, AnyNode>($x)
