// ---- a section as a map from id to order ------------------------------------------------------------------
pub open spec fn at_key(s: Seq<LeafNode>, i: int, k: u128) -> bool { 0 <= i < s.len() && s[i].key == k }
pub open spec fn has_id(s: Seq<LeafNode>, k: u128) -> bool { exists|i: int| #[trigger] at_key(s, i, k) }
pub open spec fn by_id(s: Seq<LeafNode>, k: u128) -> LeafNode { s[choose|i: int| #[trigger] at_key(s, i, k)] }
pub open spec fn kmap(s: Seq<LeafNode>) -> IMap<u128, LeafNode> { IMap::new(|k: u128| has_id(s, k), |k: u128| by_id(s, k)) }
pub open spec fn bmap(b: BookSide, c: BookSideOrderTree) -> IMap<u128, LeafNode> { kmap(sec(b, c)) }
pub proof fn lemma_kat(s: Seq<LeafNode>, i: int) requires sorted(s), 0 <= i < s.len() ensures kmap(s).contains_key(s[i].key), kmap(s)[s[i].key] == s[i] {
    let k = s[i].key; assert(at_key(s, i, k)); let j = choose|j: int| #[trigger] at_key(s, j, k);
    if i < j { assert(lt(s, i, j)); } if j < i { assert(lt(s, j, i)); }
}
pub proof fn lemma_sec_sorted(b: BookSide, c: BookSideOrderTree) requires bwf(b) ensures sorted(sec(b, c)) {
    let r = b.roots[c.disc()]; lemma_orders(b.nodes, r); let s = sec(b, c);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] lt(s, i, j) by { assert(s[i].key < s[j].key); }
}
pub proof fn lemma_kgone(s: Seq<LeafNode>, leaf: LeafNode, s2: Seq<LeafNode>) requires sorted(s), sorted(s2), one_gone(s, leaf, s2)
    ensures kmap(s2) == kmap(s).remove(leaf.key), kmap(s).contains_key(leaf.key), kmap(s)[leaf.key] == leaf
{
    let n = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == leaf && s2 == s.remove(i);
    lemma_kat(s, n);
    assert forall|k: u128| kmap(s2).contains_key(k) <==> #[trigger] kmap(s).remove(leaf.key).contains_key(k) by {
        if has_id(s2, k) { let i = choose|i: int| #[trigger] at_key(s2, i, k); let j = if i < n { i } else { i + 1 }; assert(s2[i] == s[j]); lemma_kat(s, j); if j < n { assert(lt(s, j, n)); } else { assert(lt(s, n, j)); } }
        if has_id(s, k) && k != leaf.key { let i = choose|i: int| #[trigger] at_key(s, i, k); let j = if i < n { i } else { i - 1 }; assert(s2[j] == s[i]); lemma_kat(s2, j); }
    }
    assert forall|k: u128| #[trigger] kmap(s2).contains_key(k) implies kmap(s2)[k] == kmap(s).remove(leaf.key)[k] by {
        let i = choose|i: int| #[trigger] at_key(s2, i, k); let j = if i < n { i } else { i + 1 }; assert(s2[i] == s[j]); lemma_kat(s, j); lemma_kat(s2, i);
        assert(kmap(s).remove(leaf.key).contains_key(k));
    }
    assert(kmap(s2) =~= kmap(s).remove(leaf.key));
}
pub proof fn lemma_kput(s: Seq<LeafNode>, s2: Seq<LeafNode>, x: LeafNode)
    requires sorted(s), sorted(s2), s2.contains(x), forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key != x.key ==> s2.contains(s[i]), forall|i: int| 0 <= i < s2.len() && (#[trigger] s2[i]).key != x.key ==> s.contains(s2[i])
    ensures kmap(s2) == kmap(s).insert(x.key, x)
{
    let m = kmap(s).insert(x.key, x);
    let z = choose|i: int| 0 <= i < s2.len() && s2[i] == x; lemma_kat(s2, z);
    assert forall|k: u128| kmap(s2).contains_key(k) <==> #[trigger] m.contains_key(k) by {
        if has_id(s2, k) && k != x.key { let i = choose|i: int| #[trigger] at_key(s2, i, k); assert(s.contains(s2[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == s2[i]; lemma_kat(s, j); }
        if has_id(s, k) && k != x.key { let i = choose|i: int| #[trigger] at_key(s, i, k); assert(s2.contains(s[i])); let j = choose|j: int| 0 <= j < s2.len() && s2[j] == s[i]; lemma_kat(s2, j); }
    }
    assert forall|k: u128| #[trigger] kmap(s2).contains_key(k) implies kmap(s2)[k] == m[k] by {
        if k != x.key { let i = choose|i: int| #[trigger] at_key(s2, i, k); assert(s.contains(s2[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == s2[i]; lemma_kat(s, j); lemma_kat(s2, i); }
    }
    assert(kmap(s2) =~= m);
}
pub proof fn lemma_kins(s: Seq<LeafNode>, x: LeafNode, s2: Seq<LeafNode>) requires sorted(s), sorted(s2), inserted(s, x, s2) ensures kmap(s2) == kmap(s).insert(x.key, x), !kmap(s).contains_key(x.key) {
    let n = choose|i: int| 0 <= i <= s.len() && #[trigger] s.insert(i, x) == s2;
    assert(s2[n] == x);
    assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key != x.key implies s2.contains(s[i]) by { if i < n { assert(s2[i] == s[i]); } else { assert(s2[i + 1] == s[i]); } }
    assert forall|i: int| 0 <= i < s2.len() && (#[trigger] s2[i]).key != x.key implies s.contains(s2[i]) by { if i < n { assert(s2[i] == s[i]); } else { assert(i != n); assert(s2[i] == s[i - 1]); } }
    lemma_kput(s, s2, x);
    if has_id(s, x.key) { let i = choose|i: int| #[trigger] at_key(s, i, x.key); assert(notin(s, i, x.key)); }
}
pub proof fn lemma_krep(s: Seq<LeafNode>, o: LeafNode, x: LeafNode, s2: Seq<LeafNode>) requires sorted(s), sorted(s2), replaced(s, o, x, s2) ensures kmap(s2) == kmap(s).insert(x.key, x) {
    let n = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == o && s2 == s.update(i, x);
    assert(s2[n] == x);
    assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key != x.key implies s2.contains(s[i]) by { assert(s2[i] == s[i]); }
    assert forall|i: int| 0 <= i < s2.len() && (#[trigger] s2[i]).key != x.key implies s.contains(s2[i]) by { assert(i != n); assert(s2[i] == s[i]); }
    lemma_kput(s, s2, x);
}

// ---- changing the quantity of a resting order in place ---------------------------------------------------------
pub open spec fn setl(t: T, x: int, l2: LeafNode) -> T decreases t {
    match t { T::Leaf { h, leaf } => if h == x { T::Leaf { h, leaf: l2 } } else { t },
        T::Node { h, p, key, l, r } => T::Node { h, p, key, l: Box::new(setl(*l, x, l2)), r: Box::new(setl(*r, x, l2)) } }
}
pub open spec fn same_place(a: LeafNode, b: LeafNode) -> bool { a.key == b.key && leaf_expiry(a) == leaf_expiry(b) }
pub open spec fn itset(it: It, x: int, l2: LeafNode) -> It { if it.h == x { It { h: x, leaf: l2 } } else { it } }
/// the leaf at slot `x` of the tree, if any, is `l`
pub open spec fn leaf_is(t: T, x: int, l: LeafNode) -> bool decreases t { match t { T::Leaf { h, leaf } => h == x ==> leaf == l, T::Node { l: a, r: b, .. } => leaf_is(*a, x, l) && leaf_is(*b, x, l) } }
pub proof fn lemma_leaf_is(n: Seq<AnyNode>, t: T, x: int, l: LeafNode) requires repr(n, t), 0 <= x < n.len(), any_leaf(n[x]) == l ensures leaf_is(t, x, l) decreases t {
    match t { T::Leaf { .. } => {}, T::Node { l: a, r: b, .. } => { lemma_leaf_is(n, *a, x, l); lemma_leaf_is(n, *b, x, l); } }
}
pub proof fn lemma_setl(n: Seq<AnyNode>, m: Seq<AnyNode>, t: T, x: int, l: LeafNode, l2: LeafNode, mm: int)
    requires repr(n, t), tok(t, mm), dist(t), leaf_is(t, x, l), same_place(l, l2), 0 <= x < n.len(), n[x].tag == 2, m == n.update(x, m[x]), m[x].tag == 2, any_leaf(m[x]) == l2
    ensures ({ let u = setl(t, x, l2);
        &&& repr(m, u) && tok(u, mm) && dist(u) && th(u) == th(t) && texp(u) == texp(t) && leaves(u).len() == leaves(t).len()
        &&& forall|y: int| occ(u, y) == #[trigger] occ(t, y)
        &&& forall|key: u128, p: u32, b: bool| all_side(u, key, p, b) == #[trigger] all_side(t, key, p, b)
        &&& forall|d: bool| (#[trigger] dl(u, d)).len() == dl(t, d).len()
        &&& forall|d: bool, i: int| 0 <= i < dl(t, d).len() ==> #[trigger] dl(u, d)[i] == itset(dl(t, d)[i], x, l2) })
    decreases t
{
    match t {
        T::Leaf { h, leaf } => { }
        T::Node { h, p, key, l: a, r: b } => {
            lemma_setl(n, m, *a, x, l, l2, p + 1); lemma_setl(n, m, *b, x, l, l2, p + 1);
            let u = setl(t, x, l2); let ua = setl(*a, x, l2); let ub = setl(*b, x, l2);
            assert(u == (T::Node { h, p, key, l: Box::new(ua), r: Box::new(ub) }));
            assert(h != x);
            assert forall|y: int| occ(u, y) == #[trigger] occ(t, y) by { assert(occ(ua, y) == occ(*a, y)); assert(occ(ub, y) == occ(*b, y)); }
            assert(disj(ua, ub)) by { assert forall|y: int| !(#[trigger] occ(ua, y) && occ(ub, y)) by { assert(occ(ua, y) == occ(*a, y)); assert(occ(ub, y) == occ(*b, y)); } }
            assert(occ(ua, h) == occ(*a, h)); assert(occ(ub, h) == occ(*b, h));
            assert(all_side(ua, key, p, false) == all_side(*a, key, p, false)); assert(all_side(ub, key, p, true) == all_side(*b, key, p, true));
            assert forall|k: u128, q: u32, c: bool| all_side(u, k, q, c) == #[trigger] all_side(t, k, q, c) by { assert(all_side(ua, k, q, c) == all_side(*a, k, q, c)); assert(all_side(ub, k, q, c) == all_side(*b, k, q, c)); }
            assert forall|d: bool| (#[trigger] dl(u, d)).len() == dl(t, d).len() by { assert(dl(ua, d).len() == dl(*a, d).len()); assert(dl(ub, d).len() == dl(*b, d).len()); }
            assert forall|d: bool, i: int| 0 <= i < dl(t, d).len() implies #[trigger] dl(u, d)[i] == itset(dl(t, d)[i], x, l2) by {
                assert(dl(ua, d).len() == dl(*a, d).len()); assert(dl(ub, d).len() == dl(*b, d).len());
                let f = if d { *b } else { *a }; let g = if d { *a } else { *b }; let uf = if d { ub } else { ua }; let ug = if d { ua } else { ub };
                if i < dl(f, d).len() { assert(dl(uf, d)[i] == itset(dl(f, d)[i], x, l2)); } else { let j = i - dl(f, d).len(); assert(dl(ug, d)[j] == itset(dl(g, d)[j], x, l2)); }
            }
        }
    }
}
pub open spec fn bsect(b: BookSide, c: BookSideOrderTree) -> Seq<It> { section(b.nodes, b.roots[c.disc()]) }
/// slot `h` holds the order with this id
pub open spec fn slot_at(b: BookSide, c: BookSideOrderTree, j: int, h: int, k: u128) -> bool { 0 <= j < bsect(b, c).len() && bsect(b, c)[j].h == h && bsect(b, c)[j].leaf.key == k }
pub open spec fn has_slot(b: BookSide, c: BookSideOrderTree, h: int, k: u128) -> bool { exists|j: int| #[trigger] slot_at(b, c, j, h, k) }
pub proof fn lemma_occ_dl(t: T, d: bool, i: int) requires 0 <= i < dl(t, d).len() ensures occ(t, dl(t, d)[i].h) decreases t {
    match t { T::Leaf { .. } => {}, T::Node { l, r, .. } => { let f = if d { *r } else { *l }; let g = if d { *l } else { *r };
        if i < dl(f, d).len() { lemma_occ_dl(f, d, i); } else { lemma_occ_dl(g, d, i - dl(f, d).len()); } } }
}
pub open spec fn requanted(b: BookSide, b2: BookSide, c: BookSideOrderTree, k: u128, q: i64) -> bool {
    &&& bwf(b2) && b2.nodes.order_tree_type == b.nodes.order_tree_type && sec(b2, other(c)) == sec(b, other(c)) && room(b2) == room(b)
    &&& bmap(b, c).contains_key(k) && bmap(b2, c) == bmap(b, c).insert(k, LeafNode { quantity: q, ..bmap(b, c)[k] })
    &&& forall|d: BookSideOrderTree, h: int, k2: u128| has_slot(b, d, h, k2) ==> #[trigger] has_slot(b2, d, h, k2)
}
pub proof fn lemma_requant(b: BookSide, b2: BookSide, c: BookSideOrderTree, x: int, k: u128, q: i64)
    requires bwf(b), has_slot(b, c, x, k), 0 <= x < MAX_ORDERTREE_NODES,
        b2 == (BookSide { nodes: b2.nodes, ..b }), b2.nodes == (OrderTreeNodes { nodes: b2.nodes.nodes, ..b.nodes }), b2.nodes.nodes@ == b.nodes.nodes@.update(x, b2.nodes.nodes@[x]),
        b2.nodes.nodes@[x].tag == 2, any_leaf(b2.nodes.nodes@[x]) == (LeafNode { quantity: q, ..any_leaf(b.nodes.nodes@[x]) })
    ensures requanted(b, b2, c, k, q)
{
    let n = b.nodes; let m = b2.nodes; let l = any_leaf(n.nodes@[x]); let l2 = any_leaf(m.nodes@[x]); let d0 = is_bids(n);
    let rc = b.roots[c.disc()]; let ro = b.roots[other(c).disc()];
    let tc = tree_of(n.nodes@, rc); let to = tree_of(n.nodes@, ro);
    lemma_tree_of(n.nodes@, rc, choose|o: Option<T>| ninv(n, rc, o));
    lemma_tree_of(n.nodes@, ro, choose|o: Option<T>| ninv(n, ro, o));
    lemma_section(n, rc); lemma_section(n, ro);
    let j = choose|j: int| #[trigger] slot_at(b, c, j, x, k);
    let t = tc->0;
    assert(slot_ok(n, bsect(b, c)[j]));
    lemma_leaf_is(n.nodes@, t, x, l);
    lemma_setl(n.nodes@, m.nodes@, t, x, l, l2, 0);
    let u = setl(t, x, l2);
    assert(is_tree(m.nodes@, rc, Some(u)));
    lemma_tree_of(m.nodes@, rc, Some(u));
    lemma_occ_dl(t, d0, j);
    assert(occ(t, x));
    if let Some(o) = to {
        assert forall|y: int| #[trigger] occ(o, y) implies n.nodes@[y] == m.nodes@[y] by { assert(oocc(to, y)); assert(oocc(tc, x)); if y == x { assert(oocc(tc, y) && oocc(to, y)); assert(!(oocc(tc, y) && oocc(to, y)) && !(oocc(to, y) && oocc(tc, y))); } }
        lemma_frame(n.nodes@, m.nodes@, o);
    }
    assert(is_tree(m.nodes@, ro, to));
    lemma_tree_of(m.nodes@, ro, to);
    let f = choose|f: Seq<int>| flist(n, f);
    assert(flist(m, f)) by { assert forall|i: int| 0 <= i < f.len() implies #[trigger] f_ok(m, f, i) by { assert(f_ok(n, f, i)); assert(f[i] != x); } }
    assert(ninv(n, rc, tc) && ninv(n, ro, to));
    assert(ninv(m, rc, Some(u))) by { assert forall|y: int| #[trigger] oocc(Some(u), y) implies y < m.bump_index by { assert(occ(u, y) == occ(t, y)); assert(oocc(tc, y)); } }
    assert(ninv(m, ro, to));
    assert forall|y: int| !(#[trigger] oocc(Some(u), y) && oocc(to, y)) by { assert(occ(u, y) == occ(t, y)); assert(!(oocc(tc, y) && oocc(to, y)) && !(oocc(to, y) && oocc(tc, y))); }
    assert forall|y: int| !(#[trigger] oocc(to, y) && oocc(Some(u), y)) by { assert(!(oocc(Some(u), y) && oocc(to, y))); }
    assert(bwf(b2));
    // the orders
    let s = bsect(b, c); let s2 = bsect(b2, c); let a = sec(b, c); let a2 = sec(b2, c);
    assert(s == dl(t, d0) && s2 == dl(u, d0));
    lemma_section(m, rc);
    assert(s2.len() == s.len() && a.len() == a2.len());
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s2[i] == itset(s[i], x, l2) by { assert(dl(u, d0)[i] == itset(dl(t, d0)[i], x, l2)); }
    lemma_sec_sorted(b, c); lemma_sec_sorted(b2, c);
    let ix = |i: int| if d0 { s.len() - 1 - i } else { i };
    assert(a[ix(j)] == s[j].leaf && s[j].leaf == l);
    lemma_kat(a, ix(j));
    assert(s2[j].leaf == l2 && a2[ix(j)] == l2);
    assert forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).key != k implies a2.contains(a[i]) by { let z = ix(i); assert(s[z].leaf == a[i]); assert(slot_ok(n, s[z])); assert(s[z].h != x); assert(s2[z] == s[z]); assert(a2[i] == a[i]); }
    assert forall|i: int| 0 <= i < a2.len() && (#[trigger] a2[i]).key != k implies a.contains(a2[i]) by { let z = ix(i); assert(s2[z].leaf == a2[i]); assert(s2[z] == itset(s[z], x, l2)); assert(s[z].h != x); assert(a[i] == a2[i]); }
    lemma_kput(a, a2, l2);
    assert forall|d: BookSideOrderTree, h: int, k2: u128| has_slot(b, d, h, k2) implies #[trigger] has_slot(b2, d, h, k2) by {
        let i = choose|i: int| #[trigger] slot_at(b, d, i, h, k2);
        if d == c { assert(s2[i] == itset(s[i], x, l2)); assert(slot_ok(n, s[i])); assert(slot_at(b2, d, i, h, k2)); } else { assert(d == other(c)); assert(slot_at(b2, d, i, h, k2)); }
    }
}
