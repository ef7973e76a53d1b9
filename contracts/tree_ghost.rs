
// ---- the order tree as a ghost value --------------------------------------------------------------
pub enum T { Leaf { h: int, leaf: LeafNode }, Node { h: int, p: u32, key: u128, l: Box<T>, r: Box<T> } }

pub open spec fn th(t: T) -> int { match t { T::Leaf { h, .. } => h, T::Node { h, .. } => h } }
pub open spec fn tkey(t: T) -> u128 { match t { T::Leaf { leaf, .. } => leaf.key, T::Node { key, .. } => key } }
pub open spec fn occ(t: T, x: int) -> bool decreases t {
    match t { T::Leaf { h, .. } => x == h, T::Node { h, l, r, .. } => x == h || occ(*l, x) || occ(*r, x) }
}
pub open spec fn leaves(t: T) -> Seq<LeafNode> decreases t {
    match t { T::Leaf { leaf, .. } => seq![leaf], T::Node { l, r, .. } => leaves(*l) + leaves(*r) }
}
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn texp(t: T) -> int decreases t {
    match t { T::Leaf { leaf, .. } => leaf_expiry(leaf), T::Node { l, r, .. } => imin(texp(*l), texp(*r)) }
}
pub open spec fn sh(k: u128, p: u32) -> u128 { k >> ((127 - p) as u128) }
/// `k` shares the top `p` bits of `key`, and its next bit is `b`
pub open spec fn on_side(k: u128, key: u128, p: u32, b: bool) -> bool { sh(k, p) == ((sh(key, p) & !1u128) | (if b { 1u128 } else { 0u128 })) }
pub open spec fn all_side(t: T, key: u128, p: u32, b: bool) -> bool decreases t {
    match t { T::Leaf { leaf, .. } => on_side(leaf.key, key, p, b), T::Node { l, r, .. } => all_side(*l, key, p, b) && all_side(*r, key, p, b) }
}
pub open spec fn tok(t: T, m: int) -> bool decreases t {
    match t {
        T::Leaf { .. } => true,
        T::Node { p, key, l, r, .. } => m <= p <= 127 && tok(*l, p + 1) && tok(*r, p + 1) && all_side(*l, key, p, false) && all_side(*r, key, p, true),
    }
}
pub open spec fn disj(a: T, b: T) -> bool { forall|x: int| !(#[trigger] occ(a, x) && occ(b, x)) }
pub open spec fn dist(t: T) -> bool decreases t {
    match t { T::Leaf { .. } => true, T::Node { h, l, r, .. } => !occ(*l, h) && !occ(*r, h) && disj(*l, *r) && dist(*l) && dist(*r) }
}
pub open spec fn inner_is(n: AnyNode, p: u32, key: u128, l: T, r: T) -> bool {
    let i = any_inner(n);
    &&& n.tag == 1 && i.prefix_len == p && i.key == key
    &&& i.children[0] == th(l) && i.children[1] == th(r)
    &&& i.child_earliest_expiry[0] == texp(l) && i.child_earliest_expiry[1] == texp(r)
}
pub open spec fn repr(nodes: Seq<AnyNode>, t: T) -> bool decreases t {
    match t {
        T::Leaf { h, leaf } => 0 <= h < nodes.len() && nodes[h].tag == 2 && any_leaf(nodes[h]) == leaf,
        T::Node { h, p, key, l, r } => 0 <= h < nodes.len() && inner_is(nodes[h], p, key, *l, *r) && repr(nodes, *l) && repr(nodes, *r),
    }
}
pub open spec fn live(n: AnyNode) -> bool { n.tag == 1 || n.tag == 2 }

pub proof fn lemma_range(nodes: Seq<AnyNode>, t: T, x: int)
    requires repr(nodes, t), occ(t, x)
    ensures 0 <= x < nodes.len(), live(nodes[x])
    decreases t
{
    match t { T::Leaf { .. } => {}, T::Node { h, l, r, .. } => { if x != h { if occ(*l, x) { lemma_range(nodes, *l, x); } else { lemma_range(nodes, *r, x); } } } }
}
pub proof fn lemma_frame(n1: Seq<AnyNode>, n2: Seq<AnyNode>, t: T)
    requires repr(n1, t), n1.len() == n2.len(), forall|x: int| #[trigger] occ(t, x) ==> n1[x] == n2[x]
    ensures repr(n2, t)
    decreases t
{
    match t {
        T::Leaf { h, .. } => { assert(occ(t, h)); }
        T::Node { h, l, r, .. } => {
            assert(occ(t, h));
            assert forall|x: int| #[trigger] occ(*l, x) implies n1[x] == n2[x] by { assert(occ(t, x)); }
            assert forall|x: int| #[trigger] occ(*r, x) implies n1[x] == n2[x] by { assert(occ(t, x)); }
            lemma_frame(n1, n2, *l); lemma_frame(n1, n2, *r);
        }
    }
}
pub proof fn lemma_unique(n: Seq<AnyNode>, a: T, b: T)
    requires repr(n, a), repr(n, b), th(a) == th(b)
    ensures a == b
    decreases a
{
    match a {
        T::Leaf { .. } => { match b { T::Leaf { .. } => {}, T::Node { .. } => {} } }
        T::Node { l, r, .. } => { match b { T::Leaf { .. } => {}, T::Node { l: l2, r: r2, .. } => { lemma_unique(n, *l, *l2); lemma_unique(n, *r, *r2); } } }
    }
}
pub proof fn lemma_nonempty(t: T) ensures leaves(t).len() >= 1, occ(t, th(t)) decreases t {
    match t { T::Leaf { .. } => {}, T::Node { l, r, .. } => { lemma_nonempty(*l); lemma_nonempty(*r); } }
}
pub proof fn lemma_tok_mono(t: T, a: int, b: int) requires tok(t, a), b <= a ensures tok(t, b) {}
pub proof fn lemma_side_order(a: u128, b: u128, key: u128, p: u32)
    requires p <= 127, on_side(a, key, p, false), on_side(b, key, p, true)
    ensures a < b
{
    let s = (127 - p) as u128;
    assert((a >> s) == ((key >> s) & !1u128) | 0u128 && (b >> s) == ((key >> s) & !1u128) | 1u128 ==> a < b) by (bit_vector);
}
pub proof fn lemma_all_side(t: T, key: u128, p: u32, b: bool, i: int)
    requires all_side(t, key, p, b), 0 <= i < leaves(t).len()
    ensures on_side(leaves(t)[i].key, key, p, b)
    decreases t
{
    match t { T::Leaf { .. } => {}, T::Node { l, r, .. } => {
        if i < leaves(*l).len() { lemma_all_side(*l, key, p, b, i); } else { lemma_all_side(*r, key, p, b, i - leaves(*l).len()); } } }
}
pub open spec fn lt(s: Seq<LeafNode>, i: int, j: int) -> bool { s[i].key < s[j].key }
pub open spec fn sorted(s: Seq<LeafNode>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] lt(s, i, j) }
pub proof fn lemma_sorted(t: T, m: int) requires tok(t, m) ensures sorted(leaves(t)) decreases t {
    match t { T::Leaf { .. } => {}, T::Node { p, key, l, r, .. } => {
        lemma_sorted(*l, p + 1); lemma_sorted(*r, p + 1);
        let n = leaves(*l).len();
        assert forall|i: int, j: int| 0 <= i < j < leaves(t).len() implies #[trigger] lt(leaves(t), i, j) by {
            if j < n { assert(lt(leaves(*l), i, j)); }
            else if i >= n { assert(lt(leaves(*r), i - n, j - n)); }
            else {
                lemma_all_side(*l, key, p, false, i); lemma_all_side(*r, key, p, true, j - n);
                lemma_side_order(leaves(*l)[i].key, leaves(*r)[j - n].key, key, p);
            }
        } } }
}

// ---- positions in the tree --------------------------------------------------------------------------
pub open spec fn child(t: T, b: bool) -> T { match t { T::Node { l, r, .. } => if b { *r } else { *l }, _ => t } }
pub open spec fn at(t: T, path: Seq<bool>) -> T decreases path.len() {
    if path.len() == 0 { t } else { child(at(t, path.drop_last()), path.last()) }
}
pub open spec fn vpath(t: T, path: Seq<bool>) -> bool decreases path.len() {
    path.len() == 0 || (vpath(t, path.drop_last()) && at(t, path.drop_last()) is Node)
}
pub open spec fn setc(a: T, b: bool, s: T) -> T {
    match a { T::Node { h, p, key, l, r } => if b { T::Node { h, p, key, l, r: Box::new(s) } } else { T::Node { h, p, key, l: Box::new(s), r } }, _ => a }
}
/// the tree with the subtree at `path` replaced by `s`
pub open spec fn rep(t: T, path: Seq<bool>, s: T) -> T decreases path.len() {
    if path.len() == 0 { s } else { rep(t, path.drop_last(), setc(at(t, path.drop_last()), path.last(), s)) }
}
pub open spec fn lpre(t: T, path: Seq<bool>) -> Seq<LeafNode> decreases path.len() {
    if path.len() == 0 { Seq::empty() } else {
        lpre(t, path.drop_last()) + (if path.last() { leaves(child(at(t, path.drop_last()), false)) } else { Seq::empty() }) }
}
pub open spec fn lpost(t: T, path: Seq<bool>) -> Seq<LeafNode> decreases path.len() {
    if path.len() == 0 { Seq::empty() } else {
        (if path.last() { Seq::empty() } else { leaves(child(at(t, path.drop_last()), true)) }) + lpost(t, path.drop_last()) }
}
pub proof fn lemma_rep_leaves(t: T, path: Seq<bool>, s: T)
    requires vpath(t, path)
    ensures leaves(t) == lpre(t, path) + leaves(at(t, path)) + lpost(t, path), leaves(rep(t, path, s)) == lpre(t, path) + leaves(s) + lpost(t, path)
    decreases path.len()
{
    if path.len() == 0 {
        assert(leaves(t) =~= lpre(t, path) + leaves(t) + lpost(t, path));
        assert(leaves(s) =~= lpre(t, path) + leaves(s) + lpost(t, path));
    } else {
        let d = path.drop_last(); let a = at(t, d); let b = path.last();
        lemma_rep_leaves(t, d, setc(a, b, s));
        assert(leaves(t) =~= lpre(t, path) + leaves(at(t, path)) + lpost(t, path));
        assert(leaves(rep(t, path, s)) =~= lpre(t, path) + leaves(s) + lpost(t, path));
    }
}
pub proof fn lemma_at_has(t: T, path: Seq<bool>, x: int)
    requires vpath(t, path), occ(at(t, path), x)
    ensures occ(t, x)
    decreases path.len()
{
    if path.len() > 0 { lemma_at_has(t, path.drop_last(), x); }
}
/// smallest prefix length allowed at the position
pub open spec fn mp(t: T, path: Seq<bool>, m: int) -> int {
    if path.len() == 0 { m } else { match at(t, path.drop_last()) { T::Node { p, .. } => p + 1, _ => m } }
}
pub proof fn lemma_at(n: Seq<AnyNode>, t: T, path: Seq<bool>, m: int)
    requires vpath(t, path), repr(n, t), dist(t), tok(t, m)
    ensures repr(n, at(t, path)), dist(at(t, path)), tok(at(t, path), mp(t, path, m)), psides(t, path, at(t, path))
    decreases path.len()
{
    if path.len() > 0 {
        let d = path.drop_last();
        lemma_at(n, t, d, m);
        lemma_psides_child(t, d, at(t, d), path.last());
    }
}
/// every leaf of `s` lies on the side of `path` at each ancestor
pub open spec fn psides(t: T, path: Seq<bool>, s: T) -> bool decreases path.len() {
    path.len() == 0 || (psides(t, path.drop_last(), s) && (match at(t, path.drop_last()) { T::Node { p, key, .. } => all_side(s, key, p, path.last()), _ => false }))
}
pub proof fn lemma_psides_child(t: T, path: Seq<bool>, s: T, b: bool)
    requires psides(t, path, s), s is Node
    ensures psides(t, path, child(s, b)), psides(t, path, child(s, !b))
    decreases path.len()
{
    if path.len() > 0 { lemma_psides_child(t, path.drop_last(), s, b); }
}
pub proof fn lemma_psides_node(t: T, path: Seq<bool>, s: T)
    requires s is Node, psides(t, path, child(s, false)), psides(t, path, child(s, true))
    ensures psides(t, path, s)
    decreases path.len()
{
    if path.len() > 0 { lemma_psides_node(t, path.drop_last(), s); }
}
pub proof fn lemma_rep_ok(t: T, path: Seq<bool>, m: int, s: T)
    requires vpath(t, path), tok(t, m), tok(s, mp(t, path, m)), psides(t, path, s), psides(t, path, at(t, path)), tok_path(t, path, m)
    ensures tok(rep(t, path, s), m)
    decreases path.len()
{
    if path.len() > 0 {
        let d = path.drop_last(); let a = at(t, d); let b = path.last();
        let s2 = setc(a, b, s);
        lemma_psides_child(t, d, a, b);
        lemma_psides_node(t, d, s2);
        lemma_rep_ok(t, d, m, s2);
    }
}
pub open spec fn tok_path(t: T, path: Seq<bool>, m: int) -> bool decreases path.len() {
    path.len() == 0 || (tok_path(t, path.drop_last(), m) && tok(at(t, path.drop_last()), mp(t, path.drop_last(), m)) && psides(t, path.drop_last(), at(t, path.drop_last())))
}
pub proof fn lemma_tok_path(n: Seq<AnyNode>, t: T, path: Seq<bool>, m: int)
    requires vpath(t, path), repr(n, t), dist(t), tok(t, m)
    ensures tok_path(t, path, m)
    decreases path.len()
{
    if path.len() > 0 { lemma_tok_path(n, t, path.drop_last(), m); lemma_at(n, t, path.drop_last(), m); }
}
pub proof fn lemma_at_dist(t: T, path: Seq<bool>)
    requires vpath(t, path), dist(t)
    ensures dist(at(t, path))
    decreases path.len()
{
    if path.len() > 0 { lemma_at_dist(t, path.drop_last()); }
}
pub open spec fn fits_at(t: T, path: Seq<bool>, s: T) -> bool { forall|x: int| #[trigger] occ(s, x) && occ(t, x) ==> occ(at(t, path), x) }
pub proof fn lemma_fits_up(t: T, path: Seq<bool>, s: T)
    requires path.len() > 0, vpath(t, path), dist(t), dist(s), fits_at(t, path, s)
    ensures ({ let d = path.drop_last(); let s2 = setc(at(t, d), path.last(), s); dist(s2) && fits_at(t, d, s2) && th(s2) == th(at(t, d)) })
{
    let d = path.drop_last(); let a = at(t, d); let b = path.last(); let s2 = setc(a, b, s); let sib = child(a, !b);
    lemma_at_dist(t, d);
    assert(occ(a, th(a)));
    lemma_at_has(t, d, th(a));
    assert forall|x: int| !(#[trigger] occ(sib, x) && occ(s, x)) by {
        if occ(sib, x) && occ(s, x) { assert(occ(a, x)); lemma_at_has(t, d, x); assert(occ(at(t, path), x)); }
    }
    assert forall|x: int| #[trigger] occ(s2, x) && occ(t, x) implies occ(a, x) by {
        if occ(s, x) { assert(occ(at(t, path), x)); }
    }
}
pub proof fn lemma_rep_dist(t: T, path: Seq<bool>, s: T)
    requires vpath(t, path), dist(t), dist(s), fits_at(t, path, s)
    ensures dist(rep(t, path, s))
    decreases path.len()
{
    if path.len() > 0 {
        let d = path.drop_last();
        lemma_fits_up(t, path, s);
        lemma_rep_dist(t, d, setc(at(t, d), path.last(), s));
    }
}
pub proof fn lemma_rep_has(t: T, path: Seq<bool>, s: T, x: int)
    requires vpath(t, path), dist(t)
    ensures occ(rep(t, path, s), x) <==> (occ(s, x) || (occ(t, x) && !occ(at(t, path), x)))
    decreases path.len()
{
    if path.len() > 0 {
        let d = path.drop_last(); let a = at(t, d);
        lemma_at_dist(t, d);
        let b = path.last(); let s2 = setc(a, b, s); let c = child(a, b); let o = child(a, !b);
        lemma_rep_has(t, d, s2, x);
        if occ(a, x) { lemma_at_has(t, d, x); }
        assert(c == at(t, path));
        lemma_nonempty(a); lemma_nonempty(s2);
        assert(occ(s2, x) <==> (x == th(a) || occ(o, x) || occ(s, x)));
        assert(occ(a, x) <==> (x == th(a) || occ(o, x) || occ(c, x)));
        assert(!(occ(c, x) && (x == th(a) || occ(o, x)))) by { if occ(c, x) && occ(o, x) { assert(disj(child(a, false), child(a, true))); } }
    }
}
pub proof fn lemma_rep_h(t: T, path: Seq<bool>, s: T)
    requires vpath(t, path), th(s) == th(at(t, path))
    ensures th(rep(t, path, s)) == th(t)
    decreases path.len()
{
    if path.len() > 0 { lemma_rep_h(t, path.drop_last(), setc(at(t, path.drop_last()), path.last(), s)); }
}
/// everything of `t` outside the subtree at `path` is represented
pub open spec fn prep(n: Seq<AnyNode>, t: T, path: Seq<bool>) -> bool decreases path.len() {
    path.len() == 0 || {
        let d = path.drop_last(); let a = at(t, d);
        &&& prep(n, t, d)
        &&& match a { T::Node { h, p, key, l, r } => 0 <= h < n.len() && inner_is(n[h], p, key, *l, *r), _ => false }
        &&& repr(n, child(a, !path.last()))
    }
}
pub proof fn lemma_prep_frame(n1: Seq<AnyNode>, n2: Seq<AnyNode>, t: T, path: Seq<bool>)
    requires prep(n1, t, path), n1.len() == n2.len(), vpath(t, path), dist(t), forall|x: int| #[trigger] occ(t, x) && !occ(at(t, path), x) ==> n1[x] == n2[x]
    ensures prep(n2, t, path)
    decreases path.len()
{
    if path.len() > 0 {
        let d = path.drop_last(); let a = at(t, d); let b = path.last();
        lemma_at_dist(t, d);
        lemma_prep_frame(n1, n2, t, d);
        assert(occ(a, th(a)));
        lemma_at_has(t, d, th(a));
        let sib = child(a, !b);
        assert forall|x: int| #[trigger] occ(sib, x) implies n1[x] == n2[x] by { assert(occ(a, x)); lemma_at_has(t, d, x); }
        lemma_frame(n1, n2, sib);
    }
}
pub proof fn lemma_prep(n: Seq<AnyNode>, t: T, path: Seq<bool>)
    requires repr(n, t), vpath(t, path)
    ensures prep(n, t, path), repr(n, at(t, path))
    decreases path.len()
{
    if path.len() > 0 { lemma_prep(n, t, path.drop_last()); }
}
pub proof fn lemma_climb_same(n: Seq<AnyNode>, t: T, path: Seq<bool>, s: T)
    requires prep(n, t, path), vpath(t, path), repr(n, s), th(s) == th(at(t, path)), texp(s) == texp(at(t, path))
    ensures repr(n, rep(t, path, s))
    decreases path.len()
{
    if path.len() > 0 {
        let d = path.drop_last(); let a = at(t, d);
        lemma_climb_same(n, t, d, setc(a, path.last(), s));
    }
}

// ---- whole tree --------------------------------------------------------------------------------------
pub open spec fn is_tree(nodes: Seq<AnyNode>, root: OrderTreeRoot, o: Option<T>) -> bool {
    match o {
        None => root.leaf_count == 0,
        Some(t) => root.leaf_count == leaves(t).len() && th(t) == root.maybe_node && repr(nodes, t) && tok(t, 0) && dist(t),
    }
}
pub open spec fn tree_of(nodes: Seq<AnyNode>, root: OrderTreeRoot) -> Option<T> { choose|o: Option<T>| is_tree(nodes, root, o) }
pub proof fn lemma_tree_of(nodes: Seq<AnyNode>, root: OrderTreeRoot, o: Option<T>)
    requires is_tree(nodes, root, o)
    ensures tree_of(nodes, root) == o
{
    let c = tree_of(nodes, root);
    if let Some(a) = c { lemma_nonempty(a); }
    if let Some(b) = o { lemma_nonempty(b); if let Some(a) = c { lemma_unique(nodes, a, b); } }
}
pub open spec fn oocc(o: Option<T>, x: int) -> bool { match o { Some(t) => occ(t, x), None => false } }
pub open spec fn oleaves(o: Option<T>) -> Seq<LeafNode> { match o { Some(t) => leaves(t), None => Seq::empty() } }
pub open spec fn osize(o: Option<T>) -> int { match o { Some(t) => 2 * leaves(t).len() - 1, None => 0 } }

// free list
pub open spec fn f_ok(n: OrderTreeNodes, f: Seq<int>, i: int) -> bool {
    &&& 0 <= f[i] < n.bump_index
    &&& n.nodes@[f[i]].tag == (if i + 1 == f.len() { 4u8 } else { 3u8 })
    &&& i + 1 < f.len() ==> any_free(n.nodes@[f[i]]).next == f[i + 1]
}
pub open spec fn f_ne(f: Seq<int>, i: int, j: int) -> bool { f[i] != f[j] }
pub open spec fn flist(n: OrderTreeNodes, f: Seq<int>) -> bool {
    &&& f.len() == n.free_list_len
    &&& f.len() > 0 ==> n.free_list_head == f[0]
    &&& forall|i: int| 0 <= i < f.len() ==> #[trigger] f_ok(n, f, i)
    &&& forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j ==> #[trigger] f_ne(f, i, j)
    &&& n.bump_index <= MAX_ORDERTREE_NODES
    &&& n.order_tree_type <= 1
}
pub open spec fn fwf(n: OrderTreeNodes) -> bool { exists|f: Seq<int>| flist(n, f) }
pub open spec fn below(n: OrderTreeNodes, o: Option<T>) -> bool { forall|x: int| #[trigger] oocc(o, x) ==> x < n.bump_index }
pub open spec fn ninv(n: OrderTreeNodes, root: OrderTreeRoot, o: Option<T>) -> bool {
    &&& is_tree(n.nodes@, root, o)
    &&& fwf(n)
    &&& below(n, o)
    &&& osize(o) + n.free_list_len <= n.bump_index
}
pub open spec fn wf1(n: OrderTreeNodes, root: OrderTreeRoot) -> bool { exists|o: Option<T>| ninv(n, root, o) }
/// the orders of a section, by ascending key
pub open spec fn orders(n: OrderTreeNodes, root: OrderTreeRoot) -> Seq<LeafNode> { oleaves(tree_of(n.nodes@, root)) }
pub open spec fn slack(n: OrderTreeNodes, o: Option<T>) -> int { n.bump_index - n.free_list_len - osize(o) }
/// nothing outside this tree is touched
pub open spec fn keeps(a: OrderTreeNodes, ra: OrderTreeRoot, b: OrderTreeNodes, rb: OrderTreeRoot) -> bool {
    let ta = tree_of(a.nodes@, ra); let tb = tree_of(b.nodes@, rb);
    &&& forall|x: int| #[trigger] oocc(tb, x) ==> oocc(ta, x) || x >= a.bump_index || !live(a.nodes@[x])
    &&& forall|x: int| 0 <= x < a.bump_index && !oocc(ta, x) && live(#[trigger] a.nodes@[x]) ==> b.nodes@[x] == a.nodes@[x]
    &&& a.bump_index <= b.bump_index
    &&& slack(a, ta) == slack(b, tb)
    &&& a.order_tree_type == b.order_tree_type
}

// ---- the subtree at a handle ---------------------------------------------------------------------------
pub open spec fn is_sub(n: Seq<AnyNode>, h: int, g: T) -> bool { repr(n, g) && th(g) == h }
pub open spec fn subt(n: Seq<AnyNode>, h: int) -> T { choose|g: T| is_sub(n, h, g) }
pub proof fn lemma_subt(n: Seq<AnyNode>, g: T)
    requires repr(n, g)
    ensures subt(n, th(g)) == g,
        match g { T::Node { l, r, .. } => subt(n, th(*l)) == *l && subt(n, th(*r)) == *r, _ => true }
{
    assert(is_sub(n, th(g), g));
    lemma_unique(n, subt(n, th(g)), g);
    match g { T::Node { l, r, .. } => {
        assert(is_sub(n, th(*l), *l)); lemma_unique(n, subt(n, th(*l)), *l);
        assert(is_sub(n, th(*r), *r)); lemma_unique(n, subt(n, th(*r)), *r);
    }, _ => {} }
}
/// first or last leaf
pub open spec fn edge(t: T, b: bool) -> LeafNode decreases t {
    match t { T::Leaf { leaf, .. } => leaf, T::Node { l, r, .. } => if b { edge(*r, b) } else { edge(*l, b) } }
}
pub proof fn lemma_edge(t: T, b: bool) ensures leaves(t).len() >= 1, edge(t, b) == (if b { leaves(t).last() } else { leaves(t)[0] }) decreases t {
    lemma_nonempty(t);
    match t { T::Leaf { .. } => {}, T::Node { l, r, .. } => { lemma_edge(*l, b); lemma_edge(*r, b); } }
}
pub open spec fn notin(s: Seq<LeafNode>, i: int, k: u128) -> bool { s[i].key != k }
/// the orders of a section are strictly ascending by key
pub proof fn lemma_orders(n: OrderTreeNodes, root: OrderTreeRoot)
    requires wf1(n, root)
    ensures
        forall|i: int, j: int| 0 <= i < j < orders(n, root).len() ==> #[trigger] orders(n, root)[i].key < #[trigger] orders(n, root)[j].key,
        keeps(n, root, n, root),
        forall|i: int| 0 <= i < orders(n, root).len() ==> !notin(orders(n, root), i, (#[trigger] orders(n, root)[i]).key),
{
    let ot = tree_of(n.nodes@, root);
    lemma_tree_of(n.nodes@, root, choose|o: Option<T>| ninv(n, root, o));
    let s = orders(n, root);
    if ot is Some { lemma_sorted(ot->0, 0); assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i].key < #[trigger] s[j].key by { assert(lt(s, i, j)); } }
    assert forall|i: int| 0 <= i < s.len() implies !notin(s, i, (#[trigger] s[i]).key) by {}
}
/// `x` was added, and no order had its key
pub open spec fn inserted(s: Seq<LeafNode>, x: LeafNode, s2: Seq<LeafNode>) -> bool {
    (exists|i: int| 0 <= i <= s.len() && #[trigger] s.insert(i, x) == s2) && forall|i: int| 0 <= i < s.len() ==> #[trigger] notin(s, i, x.key)
}
/// `x` took the place of `o`, which had the same key
pub open spec fn replaced(s: Seq<LeafNode>, o: LeafNode, x: LeafNode, s2: Seq<LeafNode>) -> bool {
    o.key == x.key && exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == o && s2 == s.update(i, x)
}
