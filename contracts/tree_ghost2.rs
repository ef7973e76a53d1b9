/// the earliest expiry is that of some leaf, and none is earlier
pub open spec fn not_before(s: Seq<LeafNode>, i: int, e: int) -> bool { leaf_expiry(s[i]) >= e }
pub proof fn lemma_texp(t: T) ensures forall|i: int| 0 <= i < leaves(t).len() ==> #[trigger] not_before(leaves(t), i, texp(t)) decreases t {
    match t { T::Leaf { .. } => {}, T::Node { l, r, .. } => {
        lemma_texp(*l); lemma_texp(*r);
        let n = leaves(*l).len();
        assert forall|i: int| 0 <= i < leaves(t).len() implies #[trigger] not_before(leaves(t), i, texp(t)) by {
            if i < n { assert(not_before(leaves(*l), i, texp(*l))); } else { assert(not_before(leaves(*r), i - n, texp(*r))); }
        } } }
}
pub open spec fn ink(t: T, k: u128) -> bool decreases t {
    match t { T::Leaf { leaf, .. } => leaf.key == k, T::Node { l, r, .. } => ink(*l, k) || ink(*r, k) }
}
pub proof fn lemma_ink(t: T, i: int) requires 0 <= i < leaves(t).len() ensures ink(t, leaves(t)[i].key) decreases t {
    match t { T::Leaf { .. } => {}, T::Node { l, r, .. } => { if i < leaves(*l).len() { lemma_ink(*l, i); } else { lemma_ink(*r, i - leaves(*l).len()); } } }
}
pub proof fn lemma_ink_side(t: T, k: u128, key: u128, p: u32, b: bool) requires ink(t, k), all_side(t, key, p, b) ensures on_side(k, key, p, b) decreases t {
    match t { T::Leaf { .. } => {}, T::Node { l, r, .. } => { if ink(*l, k) { lemma_ink_side(*l, k, key, p, b); } else { lemma_ink_side(*r, k, key, p, b); } } }
}
pub open spec fn bitp(k: u128, p: u32) -> bool { (sh(k, p) & 1u128) == 1u128 }
pub proof fn lemma_on_side_bit(k: u128, key: u128, p: u32, b: bool) requires p <= 127, on_side(k, key, p, b) ensures bitp(k, p) == b {
    let s = (127 - p) as u128;
    let a = k >> s; let c = key >> s;
    assert(a == ((c & !1u128) | 1u128) ==> (a & 1u128) == 1u128) by (bit_vector);
    assert(a == ((c & !1u128) | 0u128) ==> (a & 1u128) == 0u128) by (bit_vector);
}
/// walking towards the search key never leaves it behind
pub proof fn lemma_walk(t: T, m: int, k: u128)
    requires t is Node, tok(t, m), ink(t, k)
    ensures ink(child(t, bitp(k, t->p)), k)
{
    match t { T::Leaf { .. } => {}, T::Node { p, key, l, r, .. } => {
        if ink(*l, k) { lemma_ink_side(*l, k, key, p, false); lemma_on_side_bit(k, key, p, false); }
        else { lemma_ink_side(*r, k, key, p, true); lemma_on_side_bit(k, key, p, true); }
    } }
}
pub proof fn lemma_mask(k: u128, p: u32)
    requires p <= 127
    ensures (k & (1u128 << ((127 - p) as u128)) != 0) == bitp(k, p), ((1u128 << ((127 - p) as u128)) & k != 0) == bitp(k, p)
{
    let s = (127 - p) as u128;
    assert(s <= 127 ==> ((k & (1u128 << s)) != 0 <==> ((k >> s) & 1u128) == 1u128)) by (bit_vector);
    assert((k & (1u128 << s)) == ((1u128 << s) & k)) by (bit_vector);
}
/// `q` is the number of leading bits `a` and `b` share
pub open spec fn shared(a: u128, b: u128, q: u32) -> bool {
    (a == b ==> q == 128) && (a != b ==> q <= 127 && ((a ^ b) >> ((127 - q) as u128)) == 1)
}
pub proof fn lemma_keep(n: u128, k: u128, p: u32, q: u32)
    requires shared(k, n, q), p <= 127, p <= q
    ensures on_side(n, k, p, bitp(n, p))
{
    let s = (127 - p) as u128;
    if n == k {
        assert((n >> s) == ((n >> s) & !1u128) | ((n >> s) & 1u128)) by (bit_vector);
    } else {
        let z = (127 - q) as u128;
        assert(((k ^ n) >> z) == 1 && z <= s && s <= 127 ==> (n >> s) == (((k >> s) & !1u128) | ((n >> s) & 1u128))) by (bit_vector);
    }
    let a = n >> s;
    assert((a & 1u128) == 0u128 || (a & 1u128) == 1u128) by (bit_vector);
}
pub proof fn lemma_split_self(n: u128, q: u32) requires q <= 127 ensures on_side(n, n, q, bitp(n, q)) {
    let a = sh(n, q);
    assert(a == (a & !1u128) | (a & 1u128)) by (bit_vector);
    assert((a & 1u128) == 0u128 || (a & 1u128) == 1u128) by (bit_vector);
}
pub proof fn lemma_split_leaf(k: u128, n: u128, q: u32) requires k != n, shared(k, n, q) ensures on_side(k, n, q, !bitp(n, q)) {
    let z = (127 - q) as u128;
    assert(((k ^ n) >> z) == 1 && z <= 127 ==> (k >> z) == (((n >> z) & !1u128) | (1u128 & !(n >> z)))) by (bit_vector);
    let a = n >> z;
    assert((a & 1u128) == 0u128 || (a & 1u128) == 1u128) by (bit_vector);
    assert((a & 1u128) == 1u128 ==> (1u128 & !a) == 0u128) by (bit_vector);
    assert((a & 1u128) == 0u128 ==> (1u128 & !a) == 1u128) by (bit_vector);
}
pub proof fn lemma_higher(x: u128, k: u128, s: u128, z: u128, b: bool)
    requires s < z, z <= 127, (x >> s) == (((k >> s) & !1u128) | (if b { 1u128 } else { 0u128 }))
    ensures (x >> z) == (k >> z)
{
    let y = x >> s; let w = k >> s;
    assert(y == ((w & !1u128) | 1u128) ==> (y >> 1u128) == (w >> 1u128)) by (bit_vector);
    assert(y == ((w & !1u128) | 0u128) ==> (y >> 1u128) == (w >> 1u128)) by (bit_vector);
    assert((x >> s) >> 1u128 == x >> add(s, 1) && (k >> s) >> 1u128 == k >> add(s, 1)) by (bit_vector) requires s < 127;
    lemma_shift_up(x, k, (s + 1) as u128, z);
}
pub proof fn lemma_shift_up(x: u128, k: u128, s: u128, z: u128)
    requires s <= z, z <= 127, (x >> s) == (k >> s)
    ensures (x >> z) == (k >> z)
    decreases z - s
{
    if s < z {
        assert((x >> s) >> 1u128 == x >> add(s, 1) && (k >> s) >> 1u128 == k >> add(s, 1)) by (bit_vector) requires s < 127;
        lemma_shift_up(x, k, (s + 1) as u128, z);
    }
}
/// a key below a node with prefix longer than `q` splits from `n` like the node's key does
pub proof fn lemma_split_side(x: u128, k: u128, n: u128, p: u32, b: bool, q: u32)
    requires k != n, shared(k, n, q), q < p <= 127, on_side(x, k, p, b)
    ensures on_side(x, n, q, !bitp(n, q))
{
    let z = (127 - q) as u128; let s = (127 - p) as u128;
    lemma_higher(x, k, s, z, b);
    lemma_split_leaf(k, n, q);
}
pub proof fn lemma_split_all(t: T, k: u128, n: u128, p: u32, b: bool, q: u32)
    requires k != n, shared(k, n, q), q < p <= 127, all_side(t, k, p, b)
    ensures all_side(t, n, q, !bitp(n, q))
    decreases t
{
    match t { T::Leaf { leaf, .. } => { lemma_split_side(leaf.key, k, n, p, b, q); }
        T::Node { l, r, .. } => { lemma_split_all(*l, k, n, p, b, q); lemma_split_all(*r, k, n, p, b, q); } }
}
pub proof fn lemma_below_leaf(k: u128, n: u128, key: u128, p: u32, b: bool, q: u32)
    requires k != n, shared(k, n, q), p <= 127, on_side(k, key, p, b), on_side(n, key, p, b)
    ensures q > p
{
    let z = (127 - q) as u128; let s = (127 - p) as u128;
    assert(((k ^ n) >> z) == 1 && (k >> s) == (n >> s) && z <= 127 && s <= 127 ==> z < s) by (bit_vector);
}
/// the key stored in an inner node lies on the same side of an ancestor as its leaves
pub proof fn lemma_inner_side(x: u128, k: u128, p: u32, b: bool, key: u128, p2: u32, b2: bool)
    requires on_side(x, k, p, b), on_side(x, key, p2, b2), p2 < p <= 127
    ensures on_side(k, key, p2, b2)
{
    let s = (127 - p) as u128; let z = (127 - p2) as u128;
    lemma_higher(x, k, s, z, b);
}
pub open spec fn some_leaf(t: T) -> LeafNode { edge(t, false) }
pub proof fn lemma_some_leaf(t: T, key: u128, p: u32, b: bool) requires all_side(t, key, p, b) ensures on_side(some_leaf(t).key, key, p, b) decreases t {
    match t { T::Leaf { .. } => {}, T::Node { l, .. } => { lemma_some_leaf(*l, key, p, b); } }
}
/// the node that takes the place of `o` when the new leaf branches off above it
pub open spec fn split_node(h: int, q: u32, nl: LeafNode, nh: int, o: T) -> T {
    let a = Box::new(T::Leaf { h: nh, leaf: nl });
    if bitp(nl.key, q) { T::Node { h, p: q, key: nl.key, l: Box::new(o), r: a } } else { T::Node { h, p: q, key: nl.key, l: a, r: Box::new(o) } }
}
/// the subtree moved to another handle
pub open spec fn moved(t: T, nh: int) -> T {
    match t { T::Leaf { leaf, .. } => T::Leaf { h: nh, leaf }, T::Node { p, key, l, r, .. } => T::Node { h: nh, p, key, l, r } }
}
pub proof fn lemma_moved(t: T, nh: int)
    ensures leaves(moved(t, nh)) == leaves(t), texp(moved(t, nh)) == texp(t), forall|m: int| tok(t, m) ==> #[trigger] tok(moved(t, nh), m),
        forall|key: u128, p: u32, b: bool| all_side(t, key, p, b) ==> #[trigger] all_side(moved(t, nh), key, p, b)
{
    assert(leaves(moved(t, nh)) =~= leaves(t));
}
pub proof fn lemma_split_ok(t: T, path: Seq<bool>, nl: LeafNode, q: u32, h: int, nh: int, mh: int)
    requires
        vpath(t, path), tok_path(t, path, 0), tok(t, 0), psides(t, path, T::Leaf { h: nh, leaf: nl }), psides(t, path, at(t, path)), tok(at(t, path), mp(t, path, 0)),
        tkey(at(t, path)) != nl.key, shared(tkey(at(t, path)), nl.key, q),
        at(t, path) is Node ==> q < at(t, path)->p,
    ensures
        ({ let s = split_node(h, q, nl, nh, moved(at(t, path), mh));
           psides(t, path, s) && tok(s, mp(t, path, 0)) && tok(rep(t, path, s), 0) })
{
    let o = at(t, path); let k = tkey(o); let n = nl.key; let m = moved(o, mh);
    let s = split_node(h, q, nl, nh, m);
    lemma_moved(o, mh);
    lemma_split_self(n, q);
    match o {
        T::Leaf { .. } => { lemma_split_leaf(k, n, q); }
        T::Node { p, key, l, r, .. } => { lemma_split_all(*l, k, n, p, false, q); lemma_split_all(*r, k, n, p, true, q); }
    }
    assert(all_side(o, n, q, !bitp(n, q)));
    assert(all_side(m, n, q, !bitp(n, q)));
    assert(tok(o, q + 1));
    assert(tok(m, q + 1));
    lemma_psides_moved(t, path, o, mh);
    lemma_psides_node(t, path, s);
    if path.len() > 0 {
        let a = at(t, path.drop_last());
        let pk = a->key; let pp = a->p; let b = path.last();
        match o {
            T::Leaf { .. } => { lemma_below_leaf(k, n, pk, pp, b, q); }
            T::Node { p, key, l, r, .. } => {
                let x = some_leaf(*l).key;
                lemma_some_leaf(*l, key, p, false);
                lemma_some_leaf(*l, pk, pp, b);
                lemma_inner_side(x, key, p, false, pk, pp, b);
                lemma_below_leaf(k, n, pk, pp, b, q);
            }
        }
    }
    let nlf = T::Leaf { h: nh, leaf: nl };
    assert(all_side(nlf, n, q, bitp(n, q)));
    assert(tok(nlf, q + 1));
    assert(mp(t, path, 0) <= q);
    assert(tok(s, mp(t, path, 0)));
    lemma_rep_ok(t, path, 0, s);
}
pub proof fn lemma_psides_moved(t: T, path: Seq<bool>, o: T, mh: int)
    requires psides(t, path, o)
    ensures psides(t, path, moved(o, mh))
    decreases path.len()
{
    lemma_moved(o, mh);
    if path.len() > 0 { lemma_psides_moved(t, path.drop_last(), o, mh); }
}
pub proof fn lemma_psides_same_key(t: T, path: Seq<bool>, h: int, l: LeafNode, h2: int, l2: LeafNode)
    requires psides(t, path, T::Leaf { h, leaf: l }), l.key == l2.key
    ensures psides(t, path, T::Leaf { h: h2, leaf: l2 })
    decreases path.len()
{
    if path.len() > 0 { lemma_psides_same_key(t, path.drop_last(), h, l, h2, l2); }
}

// the stack of visited inner nodes
pub open spec fn spath(stack: Seq<(u32, bool)>) -> Seq<bool> { stack.map_values(|e: (u32, bool)| e.1) }
pub open spec fn s_at(t: T, stack: Seq<(u32, bool)>, i: int) -> bool { stack[i].0 == th(at(t, spath(stack).take(i))) }
pub open spec fn smatch(t: T, stack: Seq<(u32, bool)>) -> bool { forall|i: int| 0 <= i < stack.len() ==> #[trigger] s_at(t, stack, i) }
pub open spec fn upd_pre(n: Seq<AnyNode>, t: T, stack: Seq<(u32, bool)>, out: int, new: int) -> bool {
    let path = spath(stack); let s = subt(n, th(at(t, path))); let o = at(t, path);
    &&& vpath(t, path) && dist(t) && smatch(t, stack) && prep(n, t, path)
    &&& repr(n, s) && th(s) == th(o) && dist(s) && fits_at(t, path, s)
    &&& new == texp(s) && (out == texp(o) || texp(s) == texp(o))
}
pub proof fn lemma_stack_take(t: T, stack: Seq<(u32, bool)>, k: int)
    requires 0 < k <= stack.len(), smatch(t, stack)
    ensures spath(stack.take(k)).drop_last() == spath(stack.take(k - 1)), spath(stack.take(k)).last() == stack[k - 1].1, smatch(t, stack.take(k)), smatch(t, stack.take(k - 1)),
        stack[k - 1].0 == th(at(t, spath(stack.take(k - 1))))
{
    assert(spath(stack.take(k)).drop_last() =~= spath(stack.take(k - 1)));
    assert forall|i: int| 0 <= i < k implies #[trigger] s_at(t, stack.take(k), i) by {
        assert(s_at(t, stack, i)); assert(spath(stack.take(k)).take(i) =~= spath(stack).take(i)); }
    assert forall|i: int| 0 <= i < k - 1 implies #[trigger] s_at(t, stack.take(k - 1), i) by {
        assert(s_at(t, stack, i)); assert(spath(stack.take(k - 1)).take(i) =~= spath(stack).take(i)); }
    assert(s_at(t, stack, k - 1));
    assert(spath(stack).take(k - 1) =~= spath(stack.take(k - 1)));
}
pub proof fn lemma_stack_push(t: T, stack: Seq<(u32, bool)>, h: u32, b: bool)
    requires smatch(t, stack), vpath(t, spath(stack)), h == th(at(t, spath(stack))), at(t, spath(stack)) is Node
    ensures smatch(t, stack.push((h, b))), vpath(t, spath(stack.push((h, b)))), at(t, spath(stack.push((h, b)))) == child(at(t, spath(stack)), b),
        spath(stack.push((h, b))).drop_last() == spath(stack), spath(stack.push((h, b))).last() == b, spath(stack.push((h, b))).len() == stack.len() + 1
{
    let st2 = stack.push((h, b));
    assert(spath(st2).drop_last() =~= spath(stack));
    assert forall|i: int| 0 <= i < st2.len() implies #[trigger] s_at(t, st2, i) by {
        if i < stack.len() { assert(s_at(t, stack, i)); assert(spath(st2).take(i) =~= spath(stack).take(i)); }
        else { assert(spath(st2).take(i) =~= spath(stack)); }
    }
}

// ---- removing and inserting ------------------------------------------------------------------------------
/// the position of a removed leaf, from the path to it
pub open spec fn rm_index(t: T, path: Seq<bool>) -> int {
    lpre(t, path.drop_last()).len() + (if path.last() { leaves(child(at(t, path.drop_last()), false)).len() as int } else { 0 })
}
/// `m` is `n` after the sibling moved into the parent's slot and the two freed slots were given back
pub open spec fn rm_nodes(n: Seq<AnyNode>, m: Seq<AnyNode>, t: T, path: Seq<bool>) -> bool {
    let a = at(t, path.drop_last()); let c = th(at(t, path)); let o = th(child(a, !path.last()));
    &&& n.len() == m.len()
    &&& m[th(a)] == n[o]
    &&& forall|x: int| 0 <= x < n.len() && x != th(a) && x != c && x != o ==> #[trigger] m[x] == n[x]
}
pub proof fn lemma_sib(a: T, b: bool, x: int)
    requires a is Node, dist(a), occ(child(a, b), x)
    ensures !occ(child(a, !b), x), x != th(a), occ(a, x)
{
    assert(disj(child(a, false), child(a, true)));
    assert(occ(child(a, false), x) ==> !occ(child(a, true), x));
}
pub proof fn lemma_rm_here(n: Seq<AnyNode>, t: T, stack: Seq<(u32, bool)>)
    requires repr(n, t), tok(t, 0), dist(t), smatch(t, stack), vpath(t, spath(stack)), stack.len() > 0
    ensures ({ let path = spath(stack); let c = at(t, path); let a = at(t, path.drop_last()); let o = child(a, !path.last());
        &&& repr(n, c) && occ(t, th(c)) && tok(c, mp(t, path, 0))
        &&& a is Node && repr(n, a) && th(a) == stack.last().0 && occ(t, th(a)) && inner_is(n[th(a)], a->p, a->key, *a->l, *a->r)
        &&& repr(n, o) && occ(t, th(o)) && th(o) != th(c) && th(o) != th(a) && th(c) != th(a)
        &&& leaves(t).len() >= 2 })
{
    let path = spath(stack); let d = path.drop_last(); let a = at(t, d); let c = at(t, path); let o = child(a, !path.last());
    lemma_at(n, t, path, 0); lemma_at(n, t, d, 0);
    lemma_nonempty(c); lemma_nonempty(a); lemma_nonempty(o);
    lemma_at_has(t, path, th(c)); lemma_at_has(t, d, th(a)); lemma_at_has(t, d, th(o));
    lemma_stack_take(t, stack, stack.len() as int);
    assert(stack.take(stack.len() as int) =~= stack);
    assert(d =~= spath(stack.take(stack.len() - 1)));
    lemma_rep_leaves(t, d, a);
    assert(disj(child(a, false), child(a, true)));
}
pub proof fn lemma_rm_pre(n: Seq<AnyNode>, m: Seq<AnyNode>, t: T, stack: Seq<(u32, bool)>, out: int, new: int)
    requires repr(n, t), tok(t, 0), dist(t), smatch(t, stack), vpath(t, spath(stack)), stack.len() > 0, rm_nodes(n, m, t, spath(stack)),
        at(t, spath(stack)) is Leaf, out == texp(at(t, spath(stack))), new == texp(child(at(t, spath(stack).drop_last()), !spath(stack).last()))
    ensures upd_pre(m, t, stack.drop_last(), out, new), spath(stack.drop_last()) == spath(stack).drop_last(),
        ({ let path = spath(stack); let a = at(t, path.drop_last()); subt(m, th(a)) == moved(child(a, !path.last()), th(a)) })
{
    let path = spath(stack); let d = path.drop_last(); let a = at(t, d); let c = at(t, path); let o = child(a, !path.last());
    let s = moved(o, th(a));
    lemma_rm_here(n, t, stack);
    lemma_moved(o, th(a));
    lemma_at(n, t, d, 0);
    lemma_nonempty(c); lemma_nonempty(o); lemma_nonempty(a);
    assert(disj(child(a, false), child(a, true)));
    assert(dist(o)); let lb = path.last(); assert(c == child(a, lb)); assert(!(!lb) == lb);
    match o {
        T::Leaf { .. } => {}
        T::Node { l, r, .. } => {
            assert forall|x: int| #[trigger] occ(*l, x) implies n[x] == m[x] by { lemma_range(n, *l, x); assert(occ(o, x)); lemma_sib(a, !path.last(), x); }
            assert forall|x: int| #[trigger] occ(*r, x) implies n[x] == m[x] by { lemma_range(n, *r, x); assert(occ(o, x)); lemma_sib(a, !path.last(), x); }
            lemma_frame(n, m, *l); lemma_frame(n, m, *r);
            assert(!occ(*l, th(a)) && !occ(*r, th(a))) by { if occ(*l, th(a)) || occ(*r, th(a)) { assert(occ(o, th(a))); lemma_sib(a, !path.last(), th(a)); } }
            assert(dist(o)); assert(dist(s));
        }
    }
    assert(repr(m, s));
    lemma_subt(m, s);
    lemma_prep(n, t, d);
    assert forall|x: int| #[trigger] occ(t, x) && !occ(a, x) implies n[x] == m[x] by { lemma_range(n, t, x); assert(occ(a, th(o))); assert(occ(a, th(c))); }
    lemma_prep_frame(n, m, t, d);
    lemma_stack_take(t, stack, stack.len() as int);
    assert(stack.take(stack.len() as int) =~= stack);
    assert(stack.take(stack.len() - 1) =~= stack.drop_last());
    assert forall|x: int| #[trigger] occ(s, x) && occ(t, x) implies occ(a, x) by { if x != th(a) { assert(occ(o, x)); } }
    assert(dist(s));
}
pub open spec fn rm_tree(t: T, path: Seq<bool>) -> T { let a = at(t, path.drop_last()); rep(t, path.drop_last(), moved(child(a, !path.last()), th(a))) }
pub proof fn lemma_rm_done(n: Seq<AnyNode>, t: T, stack: Seq<(u32, bool)>)
    requires repr(n, t), tok(t, 0), dist(t), smatch(t, stack), vpath(t, spath(stack)), stack.len() > 0, at(t, spath(stack)) is Leaf
    ensures ({ let path = spath(stack); let d = path.drop_last(); let a = at(t, d); let t2 = rm_tree(t, path); let i = rm_index(t, path);
        &&& tok(t2, 0) && dist(t2) && th(t2) == th(t)
        &&& 0 <= i < leaves(t).len() && leaves(t)[i] == at(t, path)->leaf && leaves(t2) == leaves(t).remove(i)
        &&& forall|x: int| #[trigger] occ(t2, x) ==> occ(t, x) })
{
    let path = spath(stack); let d = path.drop_last(); let a = at(t, d); let c = at(t, path); let o = child(a, !path.last()); let s = moved(o, th(a));
    lemma_rm_here(n, t, stack);
    lemma_moved(o, th(a));
    lemma_at(n, t, d, 0);
    lemma_nonempty(a);
    assert(disj(child(a, false), child(a, true)));
    lemma_psides_child(t, d, a, path.last());
    lemma_psides_moved(t, d, o, th(a));
    lemma_tok_mono(o, a->p + 1, mp(t, d, 0));
    assert(tok(s, mp(t, d, 0)));
    lemma_tok_path(n, t, d, 0);
    lemma_rep_ok(t, d, 0, s);
    assert forall|x: int| #[trigger] occ(s, x) && occ(t, x) implies occ(a, x) by { if x != th(a) { assert(occ(o, x)); } }
    assert(dist(s)) by { match o { T::Leaf { .. } => {}, T::Node { l, r, .. } => { if occ(*l, th(a)) || occ(*r, th(a)) { assert(occ(o, th(a))); lemma_sib(a, !path.last(), th(a)); } assert(dist(o)); } } }
    lemma_rep_dist(t, d, s);
    lemma_rep_h(t, d, s);
    lemma_rep_leaves(t, d, s);
    let i = rm_index(t, path);
    assert(leaves(c) =~= seq![c->leaf]);
    assert(leaves(a) == leaves(child(a, false)) + leaves(child(a, true)));
    assert(leaves(rep(t, d, s)) =~= leaves(t).remove(i));
    assert forall|x: int| #[trigger] occ(rep(t, d, s), x) implies occ(t, x) by {
        lemma_rep_has(t, d, s, x);
        if occ(s, x) { if x != th(a) { assert(occ(o, x)); } assert(occ(a, x)); lemma_at_has(t, d, x); }
    }
}

pub open spec fn ins_index(t: T, path: Seq<bool>, k: u128, q: u32) -> int {
    lpre(t, path).len() + (if bitp(k, q) { leaves(at(t, path)).len() as int } else { 0 })
}
pub proof fn lemma_no_key(o: T, m: int, k: u128, q: u32)
    requires tok(o, m), shared(tkey(o), k, q), tkey(o) != k, o is Node ==> q < o->p
    ensures !ink(o, k)
{
    match o { T::Leaf { .. } => {}, T::Node { p, key, l, r, .. } => {
        if ink(*l, k) { lemma_ink_side(*l, k, key, p, false); lemma_split_side(k, key, k, p, false, q); lemma_on_side_bit(k, k, q, !bitp(k, q)); }
        if ink(*r, k) { lemma_ink_side(*r, k, key, p, true); lemma_split_side(k, key, k, p, true, q); lemma_on_side_bit(k, k, q, !bitp(k, q)); }
    } }
}
/// `m` is `n` after the new leaf and the old subtree's top were placed in fresh slots `h1`, `h2` and the parent's slot became the new inner node
pub open spec fn ins_nodes(n: Seq<AnyNode>, m: Seq<AnyNode>, o: T, nl: LeafNode, q: u32, h1: int, h2: int) -> bool {
    let i = any_inner(m[th(o)]); let b = if bitp(nl.key, q) { 1int } else { 0int };
    &&& n.len() == m.len() && 0 <= h1 < n.len() && 0 <= h2 < n.len() && h1 != h2
    &&& m[h1] == leaf_any(nl) && m[h2] == n[th(o)]
    &&& m[th(o)].tag == 1 && i.prefix_len == q && i.key == nl.key && i.children[b] == h1 && i.children[1 - b] == h2
    &&& i.child_earliest_expiry[b] == leaf_expiry(nl) && i.child_earliest_expiry[1 - b] == texp(o)
    &&& forall|x: int| 0 <= x < n.len() && x != th(o) && x != h1 && x != h2 ==> #[trigger] m[x] == n[x]
}
pub proof fn lemma_ins_pre(n: Seq<AnyNode>, m: Seq<AnyNode>, t: T, stack: Seq<(u32, bool)>, nl: LeafNode, q: u32, h1: int, h2: int)
    requires repr(n, t), tok(t, 0), dist(t), smatch(t, stack), vpath(t, spath(stack)), nl.tag == 2, !occ(t, h1), !occ(t, h2),
        ins_nodes(n, m, at(t, spath(stack)), nl, q, h1, h2)
    ensures ({ let o = at(t, spath(stack)); let s = split_node(th(o), q, nl, h1, moved(o, h2));
        &&& subt(m, th(o)) == s && prep(m, t, spath(stack)) && repr(m, s) && dist(s) && fits_at(t, spath(stack), s) && th(s) == th(o)
        &&& texp(s) == imin(leaf_expiry(nl), texp(o))
        &&& texp(s) == texp(o) ==> repr(m, rep(t, spath(stack), s))
        &&& leaf_expiry(nl) <= texp(o) ==> upd_pre(m, t, stack, texp(o), leaf_expiry(nl)) })
{
    reveal_with_fuel(occ, 3); reveal_with_fuel(leaves, 3); reveal_with_fuel(repr, 3); reveal_with_fuel(dist, 3); reveal_with_fuel(texp, 3);
    let path = spath(stack); let o = at(t, path); let mo = moved(o, h2); let s = split_node(th(o), q, nl, h1, mo);
    lemma_moved(o, h2);
    lemma_at(n, t, path, 0);
    lemma_nonempty(o); lemma_at_has(t, path, th(o));
    match o {
        T::Leaf { .. } => {}
        T::Node { l, r, .. } => {
            assert forall|x: int| #[trigger] occ(*l, x) implies n[x] == m[x] by { lemma_range(n, *l, x); assert(occ(o, x)); lemma_at_has(t, path, x); }
            assert forall|x: int| #[trigger] occ(*r, x) implies n[x] == m[x] by { lemma_range(n, *r, x); assert(occ(o, x)); lemma_at_has(t, path, x); }
            lemma_frame(n, m, *l); lemma_frame(n, m, *r);
            assert(!occ(*l, h1) && !occ(*r, h1) && !occ(*l, h2) && !occ(*r, h2)) by {
                if occ(*l, h1) || occ(*r, h1) { assert(occ(o, h1)); lemma_at_has(t, path, h1); }
                if occ(*l, h2) || occ(*r, h2) { assert(occ(o, h2)); lemma_at_has(t, path, h2); } }
        }
    }
    assert(repr(m, mo));
    assert(repr(m, s));
    lemma_subt(m, s);
    lemma_prep(n, t, path);
    assert forall|x: int| #[trigger] occ(t, x) && !occ(o, x) implies n[x] == m[x] by { lemma_range(n, t, x); }
    lemma_prep_frame(n, m, t, path);
    assert forall|x: int| #[trigger] occ(s, x) && occ(t, x) implies occ(o, x) by {}
    assert(dist(mo));
    let nlf = T::Leaf { h: h1, leaf: nl };
    assert(disj(nlf, mo) && disj(mo, nlf)) by { assert(!occ(mo, h1)); }
    assert(!occ(mo, th(o)));
    assert(dist(s));
    if texp(s) == texp(o) { lemma_climb_same(m, t, path, s); }
}
pub proof fn lemma_ins_done(n: Seq<AnyNode>, t: T, stack: Seq<(u32, bool)>, nl: LeafNode, q: u32, h1: int, h2: int)
    requires repr(n, t), tok(t, 0), dist(t), smatch(t, stack), vpath(t, spath(stack)), nl.tag == 2, !occ(t, h1), !occ(t, h2), h1 != h2,
        psides(t, spath(stack), T::Leaf { h: 0, leaf: nl }), tkey(at(t, spath(stack))) != nl.key, shared(tkey(at(t, spath(stack))), nl.key, q), at(t, spath(stack)) is Node ==> q < at(t, spath(stack))->p,
        fits_at(t, spath(stack), split_node(th(at(t, spath(stack))), q, nl, h1, moved(at(t, spath(stack)), h2))),
        dist(split_node(th(at(t, spath(stack))), q, nl, h1, moved(at(t, spath(stack)), h2))),
    ensures ({ let path = spath(stack); let o = at(t, path); let t2 = rep(t, path, split_node(th(o), q, nl, h1, moved(o, h2))); let i = ins_index(t, path, nl.key, q);
        &&& tok(t2, 0) && dist(t2) && th(t2) == th(t)
        &&& 0 <= i <= leaves(t).len() && leaves(t2) == leaves(t).insert(i, nl)
        &&& forall|x: int| #[trigger] occ(t2, x) ==> occ(t, x) || x == h1 || x == h2 })
{
    reveal_with_fuel(occ, 3); reveal_with_fuel(leaves, 3); reveal_with_fuel(repr, 3); reveal_with_fuel(dist, 3); reveal_with_fuel(texp, 3);
    let path = spath(stack); let o = at(t, path); let s = split_node(th(o), q, nl, h1, moved(o, h2));
    lemma_at(n, t, path, 0);
    lemma_tok_path(n, t, path, 0);
    lemma_psides_same_key(t, path, 0, nl, h1, nl);
    lemma_split_ok(t, path, nl, q, th(o), h1, h2);
    lemma_rep_dist(t, path, s);
    lemma_rep_h(t, path, s);
    lemma_rep_leaves(t, path, s);
    lemma_moved(o, h2);
    lemma_nonempty(o);
    let i = ins_index(t, path, nl.key, q);
    assert(leaves(rep(t, path, s)) =~= leaves(t).insert(i, nl));
    assert forall|x: int| #[trigger] occ(rep(t, path, s), x) implies occ(t, x) || x == h1 || x == h2 by {
        lemma_rep_has(t, path, s, x);
        if occ(s, x) && x != h1 && x != h2 { assert(occ(o, x)); lemma_at_has(t, path, x); }
    }
}
pub proof fn lemma_clobber(n: Seq<AnyNode>, m: Seq<AnyNode>, t: T, stack: Seq<(u32, bool)>, nl: LeafNode)
    requires repr(n, t), tok(t, 0), dist(t), smatch(t, stack), vpath(t, spath(stack)), nl.tag == 2, at(t, spath(stack)) is Leaf, tkey(at(t, spath(stack))) == nl.key,
        m == n.update(th(at(t, spath(stack))), leaf_any(nl))
    ensures ({ let path = spath(stack); let o = at(t, path); let s = T::Leaf { h: th(o), leaf: nl }; let t2 = rep(t, path, s); let i = lpre(t, path).len() as int;
        &&& subt(m, th(o)) == s && upd_pre(m, t, stack, texp(o), leaf_expiry(nl))
        &&& tok(t2, 0) && dist(t2) && th(t2) == th(t)
        &&& 0 <= i < leaves(t).len() && leaves(t)[i] == o->leaf && leaves(t2) == leaves(t).update(i, nl)
        &&& forall|x: int| #[trigger] occ(t2, x) ==> occ(t, x) })
{
    let path = spath(stack); let o = at(t, path); let s = T::Leaf { h: th(o), leaf: nl };
    lemma_at(n, t, path, 0);
    lemma_tok_path(n, t, path, 0);
    lemma_prep(n, t, path);
    lemma_nonempty(o); lemma_at_has(t, path, th(o));
    assert forall|x: int| #[trigger] occ(t, x) && !occ(o, x) implies n[x] == m[x] by { lemma_range(n, t, x); }
    lemma_prep_frame(n, m, t, path);
    assert(repr(m, s));
    lemma_subt(m, s);
    lemma_psides_same_key(t, path, th(o), o->leaf, th(o), nl);
    lemma_rep_ok(t, path, 0, s);
    lemma_rep_dist(t, path, s);
    lemma_rep_h(t, path, s);
    lemma_rep_leaves(t, path, s);
    let i = lpre(t, path).len() as int;
    assert(leaves(o) =~= seq![o->leaf]);
    assert(leaves(s) =~= seq![nl]);
    assert(leaves(rep(t, path, s)) =~= leaves(t).update(i, nl));
    assert forall|x: int| #[trigger] occ(rep(t, path, s), x) implies occ(t, x) by { lemma_rep_has(t, path, s, x); }
}
