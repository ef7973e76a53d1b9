// ---- one side of the book: two sections in one pool of slots --------------------------------------------
pub open spec fn bwf(b: BookSide) -> bool {
    let n = b.nodes; let t0 = tree_of(n.nodes@, b.roots[0]); let t1 = tree_of(n.nodes@, b.roots[1]);
    &&& n.order_tree_type <= 1
    &&& wf1(n, b.roots[0]) && wf1(n, b.roots[1])
    &&& forall|x: int| !(#[trigger] oocc(t0, x) && oocc(t1, x))
    &&& osize(t0) + osize(t1) == n.bump_index - n.free_list_len
}
pub open spec fn sec(b: BookSide, c: BookSideOrderTree) -> Seq<LeafNode> { orders(b.nodes, b.roots[c.disc()]) }
pub open spec fn other(c: BookSideOrderTree) -> BookSideOrderTree { if c == BookSideOrderTree::Fixed { BookSideOrderTree::OraclePegged } else { BookSideOrderTree::Fixed } }
pub open spec fn side_of(b: BookSide) -> Side { if b.nodes.order_tree_type == 0 { Side::Bid } else { Side::Ask } }
/// free slots
pub open spec fn room(b: BookSide) -> int { MAX_ORDERTREE_NODES - b.nodes.bump_index + b.nodes.free_list_len }
/// the order of the section that is walked last
pub open spec fn worst(b: BookSide, c: BookSideOrderTree) -> LeafNode { if b.nodes.order_tree_type == 0 { sec(b, c)[0] } else { sec(b, c).last() } }
/// a change to section `c` alone
pub open spec fn only(a: BookSide, b: BookSide, c: BookSideOrderTree) -> bool {
    &&& bwf(b) && b.nodes.order_tree_type == a.nodes.order_tree_type
    &&& sec(b, other(c)) == sec(a, other(c)) && section(b.nodes, b.roots[other(c).disc()]) == section(a.nodes, a.roots[other(c).disc()])
}
pub open spec fn one_gone(s: Seq<LeafNode>, leaf: LeafNode, s2: Seq<LeafNode>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == leaf && s2 == s.remove(i) }
pub proof fn lemma_only(a: BookSide, b: BookSide, c: BookSideOrderTree)
    requires bwf(a), wf1(b.nodes, b.roots[c.disc()]), keeps(a.nodes, a.roots[c.disc()], b.nodes, b.roots[c.disc()]), b.roots[other(c).disc()] == a.roots[other(c).disc()]
    ensures only(a, b, c), room(a) - room(b) == 2 * (sec(b, c).len() - sec(a, c).len()) + (if sec(a, c).len() == 0 && sec(b, c).len() > 0 { -1int } else { 0 }) + (if sec(a, c).len() > 0 && sec(b, c).len() == 0 { 1int } else { 0 })
{
    let n = a.nodes; let m = b.nodes; let ro = a.roots[other(c).disc()]; let ra = a.roots[c.disc()]; let rb = b.roots[c.disc()];
    let to = tree_of(n.nodes@, ro); let ta = tree_of(n.nodes@, ra); let tb = tree_of(m.nodes@, rb);
    lemma_tree_of(n.nodes@, ro, choose|o: Option<T>| ninv(n, ro, o));
    lemma_tree_of(n.nodes@, ra, choose|o: Option<T>| ninv(n, ra, o));
    lemma_tree_of(m.nodes@, rb, choose|o: Option<T>| ninv(m, rb, o));
    if let Some(t) = to {
        assert forall|x: int| #[trigger] occ(t, x) implies n.nodes@[x] == m.nodes@[x] by { assert(oocc(to, x)); lemma_range(n.nodes@, t, x); assert(!oocc(ta, x)); assert(live(n.nodes@[x])); }
        lemma_frame(n.nodes@, m.nodes@, t);
    }
    assert(is_tree(m.nodes@, ro, to));
    lemma_tree_of(m.nodes@, ro, to);
    assert(ninv(n, ro, to)); assert(ninv(m, rb, tb));
    if let Some(t) = ta { lemma_nonempty(t); } if let Some(t) = tb { lemma_nonempty(t); } if let Some(t) = to { lemma_nonempty(t); }
    assert(ninv(m, ro, to));
    assert forall|x: int| !(#[trigger] oocc(tb, x) && oocc(to, x)) by { if oocc(tb, x) && oocc(to, x) { lemma_range(n.nodes@, to->0, x); assert(!oocc(ta, x) || !oocc(to, x)); } }
    assert forall|x: int| !(#[trigger] oocc(to, x) && oocc(tb, x)) by { assert(!(oocc(tb, x) && oocc(to, x))); }
}
/// of the two last orders, the pegged one is walked later
pub open spec fn peg_worse(b: BookSide, oracle: Option<i64>) -> bool {
    &&& oracle is Some && sec(b, BookSideOrderTree::OraclePegged).len() > 0
    &&& sec(b, BookSideOrderTree::Fixed).len() == 0 || before(side_of(b), worst(b, BookSideOrderTree::Fixed).key as int, peg_rank(oracle->0 as int, worst(b, BookSideOrderTree::OraclePegged)))
}
