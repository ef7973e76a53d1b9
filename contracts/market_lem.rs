pub proof fn lemma_subtract(q: int, t: int)
    requires q >= 0, t >= 0
    ensures ({ let r = q * 1_000_000 / (1_000_000 + t); 0 <= r <= q && r + fee_ceil(r, t) <= q && q * 1_000_000 >= 0 })
{
    let s = 1_000_000 + t;
    let n = q * 1_000_000;
    let r = n / s;
    assert(r * s <= n && r >= 0) by (nonlinear_arith) requires r == n / s, s > 0, n >= 0;
    assert(r * s == r * 1_000_000 + r * t) by (nonlinear_arith) requires s == 1_000_000 + t;
    assert(r * t >= 0) by (nonlinear_arith) requires r >= 0, t >= 0;
}
