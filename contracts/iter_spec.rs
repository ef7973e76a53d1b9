// ---- walking one section of the book ---------------------------------------------------------------
pub struct It { pub h: int, pub leaf: LeafNode }
/// slots and orders of a subtree, by descending key if `desc`
pub open spec fn dl(t: T, desc: bool) -> Seq<It> decreases t {
    match t { T::Leaf { h, leaf } => seq![It { h, leaf }], T::Node { l, r, .. } => if desc { dl(*r, desc) + dl(*l, desc) } else { dl(*l, desc) + dl(*r, desc) } }
}
pub open spec fn odl(o: Option<T>, desc: bool) -> Seq<It> { match o { None => Seq::empty(), Some(t) => dl(t, desc) } }
pub open spec fn is_bids(n: OrderTreeNodes) -> bool { n.order_tree_type == 0 }
/// the orders of a section in the order they are walked
pub open spec fn section(n: OrderTreeNodes, root: OrderTreeRoot) -> Seq<It> { odl(tree_of(n.nodes@, root), is_bids(n)) }
pub open spec fn dlt(s: Seq<It>, i: int, j: int, desc: bool) -> bool { if desc { s[i].leaf.key > s[j].leaf.key } else { s[i].leaf.key < s[j].leaf.key } }
pub open spec fn dsorted(s: Seq<It>, desc: bool) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] dlt(s, i, j, desc) }
pub open spec fn slot_ok(n: OrderTreeNodes, it: It) -> bool { 0 <= it.h < MAX_ORDERTREE_NODES && n.nodes@[it.h].tag == 2 && any_leaf(n.nodes@[it.h]) == it.leaf }
pub proof fn lemma_dl(t: T, desc: bool)
    ensures dl(t, desc).len() == leaves(t).len(), dl(t, desc).len() >= 1,
        forall|i: int| 0 <= i < leaves(t).len() ==> (#[trigger] dl(t, desc)[i]).leaf == (if desc { leaves(t)[leaves(t).len() - 1 - i] } else { leaves(t)[i] })
    decreases t
{
    match t { T::Leaf { .. } => {}, T::Node { l, r, .. } => { lemma_dl(*l, desc); lemma_dl(*r, desc); } }
}
pub proof fn lemma_dl_slots(n: OrderTreeNodes, t: T, desc: bool, i: int)
    requires repr(n.nodes@, t), 0 <= i < dl(t, desc).len()
    ensures slot_ok(n, dl(t, desc)[i])
    decreases t
{
    match t { T::Leaf { .. } => {}, T::Node { l, r, .. } => {
        let a = if desc { *r } else { *l }; let b = if desc { *l } else { *r };
        if i < dl(a, desc).len() { lemma_dl_slots(n, a, desc, i); } else { lemma_dl_slots(n, b, desc, i - dl(a, desc).len()); } } }
}
/// the walk visits exactly the orders of the section, each once, strictly by key
pub proof fn lemma_section(n: OrderTreeNodes, root: OrderTreeRoot)
    requires wf1(n, root)
    ensures ({ let s = section(n, root); let o = orders(n, root);
        &&& s.len() == o.len()
        &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).leaf == (if is_bids(n) { o[s.len() - 1 - i] } else { o[i] })
        &&& forall|i: int| 0 <= i < s.len() ==> slot_ok(n, #[trigger] s[i])
        &&& dsorted(s, is_bids(n)) })
{
    lemma_tree_of(n.nodes@, root, choose|o: Option<T>| ninv(n, root, o));
    let s = section(n, root);
    if let Some(t) = tree_of(n.nodes@, root) {
        lemma_dl(t, is_bids(n));
        lemma_sorted(t, 0);
        assert forall|i: int| 0 <= i < s.len() implies slot_ok(n, #[trigger] s[i]) by { lemma_dl_slots(n, t, is_bids(n), i); }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] dlt(s, i, j, is_bids(n)) by {
            if is_bids(n) { assert(lt(leaves(t), s.len() - 1 - j, s.len() - 1 - i)); } else { assert(lt(leaves(t), i, j)); } }
    }
}
pub open spec fn itm(x: (NodeHandle, &LeafNode)) -> It { It { h: x.0 as int, leaf: *x.1 } }
