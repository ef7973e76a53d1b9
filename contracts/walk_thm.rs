// ---- the walk is by price, then by arrival, and leaves nothing matchable out -------------------------------
pub open spec fn is_src(side: Side, o: int, now: int, f: Seq<It>, p: Seq<It>, e: Ent) -> bool {
    if e.pegged { exists|k: int| 0 <= k < p.len() && !peg_skip(o, p[k].leaf) && #[trigger] peg_ent(side, o, p[k], now) == e }
    else { exists|k: int| 0 <= k < f.len() && #[trigger] fixed_ent(f[k], now) == e }
}
pub proof fn lemma_skipf_src(o: int, p: Seq<It>)
    ensures
        forall|k: int| 0 <= k < skipf(o, p).len() ==> exists|j: int| 0 <= j < p.len() && p[j] == #[trigger] skipf(o, p)[k],
        forall|k: int| 0 <= k < p.len() && !peg_skip(o, (#[trigger] p[k]).leaf) ==> skipf(o, p).contains(p[k]),
        skipf(o, p) == p.skip(p.len() - skipf(o, p).len()), skipf(o, p).len() <= p.len(),
    decreases p.len()
{
    if p.len() > 0 && peg_skip(o, p[0].leaf) {
        let d = p.drop_first(); let q = skipf(o, p);
        lemma_skipf_src(o, d);
        assert forall|k: int| 0 <= k < q.len() implies exists|j: int| 0 <= j < p.len() && p[j] == #[trigger] q[k] by {
            let j = choose|j: int| 0 <= j < d.len() && d[j] == q[k]; assert(p[j + 1] == q[k]); }
        assert forall|k: int| 0 <= k < p.len() && !peg_skip(o, (#[trigger] p[k]).leaf) implies q.contains(p[k]) by { assert(k > 0); assert(d[k - 1] == p[k]); }
        assert(d.skip(d.len() - q.len()) =~= p.skip(p.len() - q.len()));
    } else {
        assert(p.skip(0) =~= p);
        assert forall|k: int| 0 <= k < p.len() && !peg_skip(o, (#[trigger] p[k]).leaf) implies p.contains(p[k]) by {}
    }
}
pub proof fn lemma_walk_src(side: Side, o: i64, now: int, f: Seq<It>, p: Seq<It>, i: int)
    requires 0 <= i < walk(side, Some(o), now, f, p).len()
    ensures is_src(side, o as int, now, f, p, walk(side, Some(o), now, f, p)[i])
    decreases f.len() + p.len()
{
    let oo = o as int; let q = skipf(oo, p); let w = walk(side, Some(o), now, f, p);
    lemma_skipf(oo, p); lemma_skipf_src(oo, p);
    if peg_first(side, oo, f, q) {
        if i == 0 {
            let j = choose|j: int| 0 <= j < p.len() && p[j] == q[0];
            assert(peg_ent(side, oo, p[j], now) == w[0]);
        } else {
            let q2 = q.drop_first();
            lemma_walk_src(side, o, now, f, q2, i - 1);
            let e = walk(side, Some(o), now, f, q2)[i - 1];
            assert(e == w[i]);
            if e.pegged {
                let k = choose|k: int| 0 <= k < q2.len() && !peg_skip(oo, q2[k].leaf) && #[trigger] peg_ent(side, oo, q2[k], now) == e;
                assert(q2[k] == q[k + 1]);
                let j = choose|j: int| 0 <= j < p.len() && p[j] == q[k + 1];
                assert(peg_ent(side, oo, p[j], now) == e);
            } else {
                let k = choose|k: int| 0 <= k < f.len() && #[trigger] fixed_ent(f[k], now) == e;
                assert(fixed_ent(f[k], now) == w[i]);
            }
        }
    } else {
        if i == 0 { assert(fixed_ent(f[0], now) == w[0]); }
        else {
            let f2 = f.drop_first();
            lemma_walk_src(side, o, now, f2, q, i - 1);
            let e = walk(side, Some(o), now, f2, q)[i - 1];
            assert(e == w[i]);
            if e.pegged {
                let k = choose|k: int| 0 <= k < q.len() && !peg_skip(oo, q[k].leaf) && #[trigger] peg_ent(side, oo, q[k], now) == e;
                let j = choose|j: int| 0 <= j < p.len() && p[j] == q[k];
                assert(peg_ent(side, oo, p[j], now) == e);
            } else {
                let k = choose|k: int| 0 <= k < f2.len() && #[trigger] fixed_ent(f2[k], now) == e;
                assert(f2[k] == f[k + 1]);
                assert(fixed_ent(f[k + 1], now) == e);
            }
        }
    }
}
pub proof fn lemma_div_order(a: int, b: int)
    requires 0 <= a < b
    ensures a / P64() < b / P64() || (a / P64() == b / P64() && a % P64() < b % P64())
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, P64());
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, P64());
    assert(0 <= a % P64() < P64() && 0 <= b % P64() < P64());
    assert(a / P64() <= b / P64()) by (nonlinear_arith) requires 0 <= a < b;
}
/// pegged orders that can be matched rank among themselves as their ids do
pub proof fn lemma_peg_order(side: Side, o: int, a: LeafNode, b: LeafNode)
    requires before(side, a.key as int, b.key as int), !peg_skip(o, a), !peg_skip(o, b)
    ensures before(side, peg_rank(o, a), peg_rank(o, b))
{
    let (x, y) = if side == Side::Bid { (b, a) } else { (a, b) };
    lemma_div_order(x.key as int, y.key as int);
    let (px, py) = (peg_price(o, x), peg_price(o, y));
    let (lx, ly) = (x.key as int % P64(), y.key as int % P64());
    assert(0 <= lx < P64() && 0 <= ly < P64());
    assert(px * P64() + lx < py * P64() + ly) by (nonlinear_arith) requires px < py || (px == py && lx < ly), 0 <= lx < P64(), 0 <= ly < P64();
}
pub open spec fn not_ahead(side: Side, w: Seq<Ent>, i: int, j: int) -> bool { !before(side, w[j].rank, w[i].rank) }
pub open spec fn by_rank(side: Side, w: Seq<Ent>) -> bool { forall|i: int, j: int| 0 <= i < j < w.len() ==> #[trigger] not_ahead(side, w, i, j) }
pub proof fn lemma_head_first(side: Side, o: i64, now: int, f: Seq<It>, q: Seq<It>, e: Ent)
    requires dsorted(f, side == Side::Bid), dsorted(q, side == Side::Bid), q == skipf(o as int, q), f.len() + q.len() > 0, is_src(side, o as int, now, f, q, e)
    ensures !before(side, e.rank, if peg_first(side, o as int, f, q) { peg_rank(o as int, q[0].leaf) } else { f[0].leaf.key as int })
{
    let oo = o as int;
    lemma_skipf(oo, q);
    if e.pegged {
        let k = choose|k: int| 0 <= k < q.len() && !peg_skip(oo, q[k].leaf) && #[trigger] peg_ent(side, oo, q[k], now) == e;
        if k > 0 { assert(dlt(q, 0, k, side == Side::Bid)); lemma_peg_order(side, oo, q[0].leaf, q[k].leaf); }
    } else {
        let k = choose|k: int| 0 <= k < f.len() && #[trigger] fixed_ent(f[k], now) == e;
        if k > 0 { assert(dlt(f, 0, k, side == Side::Bid)); }
    }
}
pub proof fn lemma_walk_sorted(side: Side, o: i64, now: int, f: Seq<It>, p: Seq<It>)
    requires dsorted(f, side == Side::Bid), dsorted(p, side == Side::Bid)
    ensures by_rank(side, walk(side, Some(o), now, f, p))
    decreases f.len() + p.len()
{
    let oo = o as int; let d = side == Side::Bid; let q = skipf(oo, p); let w = walk(side, Some(o), now, f, p);
    lemma_skipf(oo, p); lemma_skipf_src(oo, p);
    assert(dsorted(q, d)) by { let g = p.len() - q.len(); assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] dlt(q, i, j, d) by { assert(dlt(p, i + g, j + g, d)); } }
    if f.len() + q.len() > 0 {
        let pf = peg_first(side, oo, f, q);
        let f2 = if pf { f } else { f.drop_first() }; let q2 = if pf { q.drop_first() } else { q };
        assert(dsorted(f2, d)) by { if !pf { assert forall|i: int, j: int| 0 <= i < j < f2.len() implies #[trigger] dlt(f2, i, j, d) by { assert(dlt(f, i + 1, j + 1, d)); } } }
        assert(dsorted(q2, d)) by { if pf { assert forall|i: int, j: int| 0 <= i < j < q2.len() implies #[trigger] dlt(q2, i, j, d) by { assert(dlt(q, i + 1, j + 1, d)); } } }
        lemma_walk_sorted(side, o, now, f2, q2);
        let w2 = walk(side, Some(o), now, f2, q2);
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies #[trigger] not_ahead(side, w, i, j) by {
            assert(w[j] == w2[j - 1]);
            if i > 0 { assert(not_ahead(side, w2, i - 1, j - 1)); }
            else {
                lemma_walk_src(side, o, now, f2, q2, j - 1);
                let e = w2[j - 1];
                if e.pegged {
                    let k = choose|k: int| 0 <= k < q2.len() && !peg_skip(oo, q2[k].leaf) && #[trigger] peg_ent(side, oo, q2[k], now) == e;
                    let kk = if pf { k + 1 } else { k };
                    assert(peg_ent(side, oo, q[kk], now) == e);
                } else {
                    let k = choose|k: int| 0 <= k < f2.len() && #[trigger] fixed_ent(f2[k], now) == e;
                    let kk = if pf { k } else { k + 1 };
                    assert(fixed_ent(f[kk], now) == e);
                }
                lemma_head_first(side, o, now, f, q, e);
            }
        }
    }
}
/// better-ranked means a better price, or the same price and an earlier placement
pub proof fn lemma_rank_is_price_time(side: Side, a: Ent, b: Ent)
    requires a.price == a.rank / P64(), b.price == b.rank / P64(), a.rank >= 0, b.rank >= 0, !before(side, b.rank, a.rank)
    ensures !better(side, b.price, a.price), a.price == b.price ==> !before(side, b.rank % P64(), a.rank % P64())
{
    if a.rank < b.rank { lemma_div_order(a.rank, b.rank); } else if b.rank < a.rank { lemma_div_order(b.rank, a.rank); }
}
pub proof fn lemma_ent_price(side: Side, o: int, it: It, now: int)
    ensures fixed_ent(it, now).price == fixed_ent(it, now).rank / P64(), peg_ent(side, o, it, now).price == peg_ent(side, o, it, now).rank / P64(),
        fixed_ent(it, now).rank >= 0, peg_ent(side, o, it, now).rank >= 0, peg_ent(side, o, it, now).rank % P64() == it.leaf.key as int % P64()
{
    let p = peg_shown(o, it.leaf); let l = it.leaf.key as int % P64();
    assert((p * P64() + l) / P64() == p && (p * P64() + l) % P64() == l && p * P64() + l >= 0) by (nonlinear_arith) requires 0 <= l < P64(), p >= 1;
}
/// nothing matchable is left out, and nothing appears that is not resting
pub proof fn lemma_walk_complete(side: Side, o: i64, now: int, f: Seq<It>, p: Seq<It>)
    ensures
        forall|k: int| 0 <= k < f.len() ==> walk(side, Some(o), now, f, p).contains(#[trigger] fixed_ent(f[k], now)),
        forall|k: int| 0 <= k < p.len() && !peg_skip(o as int, p[k].leaf) ==> walk(side, Some(o), now, f, p).contains(#[trigger] peg_ent(side, o as int, p[k], now)),
    decreases f.len() + p.len()
{
    let oo = o as int; let q = skipf(oo, p); let w = walk(side, Some(o), now, f, p);
    lemma_skipf(oo, p); lemma_skipf_src(oo, p);
    if f.len() + q.len() > 0 {
        let pf = peg_first(side, oo, f, q);
        let f2 = if pf { f } else { f.drop_first() }; let q2 = if pf { q.drop_first() } else { q };
        lemma_walk_complete(side, o, now, f2, q2);
        let w2 = walk(side, Some(o), now, f2, q2);
        assert forall|e: Ent| w2.contains(e) implies w.contains(e) by { let i = choose|i: int| 0 <= i < w2.len() && w2[i] == e; assert(w[i + 1] == e); }
        assert forall|k: int| 0 <= k < f.len() implies w.contains(#[trigger] fixed_ent(f[k], now)) by {
            if !pf && k == 0 { assert(w[0] == fixed_ent(f[0], now)); } else if pf { assert(f2[k] == f[k]); assert(w2.contains(fixed_ent(f2[k], now))); } else { assert(f2[k - 1] == f[k]); assert(w2.contains(fixed_ent(f2[k - 1], now))); }
        }
        assert forall|k: int| 0 <= k < p.len() && !peg_skip(oo, p[k].leaf) implies w.contains(#[trigger] peg_ent(side, oo, p[k], now)) by {
            assert(q.contains(p[k]));
            let j = choose|j: int| 0 <= j < q.len() && q[j] == p[k];
            if pf && j == 0 { assert(w[0] == peg_ent(side, oo, q[0], now)); } else if pf { assert(q2[j - 1] == q[j]); assert(w2.contains(peg_ent(side, oo, q2[j - 1], now))); } else { assert(q2[j] == q[j]); assert(w2.contains(peg_ent(side, oo, q2[j], now))); }
        }
    } else {
        assert forall|k: int| 0 <= k < p.len() && !peg_skip(oo, p[k].leaf) implies w.contains(#[trigger] peg_ent(side, oo, p[k], now)) by { assert(q.contains(p[k])); }
    }
}
