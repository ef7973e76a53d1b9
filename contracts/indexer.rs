//@include prelude.rs
//@include abort.rs
//@include types.rs
//@include market_spec.rs
//@include accounts_spec.rs
//@item state/open_orders_indexer.rs OpenOrdersIndexer
//@include accts.rs
//@include optkey.rs
//@include nzkey.rs
//@include ixmodel.rs
//@item accounts_ix/close_open_orders_account.rs CloseOpenOrdersAccount
//@item accounts_ix/close_open_orders_indexer.rs CloseOpenOrdersIndexer
//@item accounts_ix/create_open_orders_account.rs CreateOpenOrdersAccount
//@item accounts_ix/create_open_orders_indexer.rs CreateOpenOrdersIndexer
impl Position {
//@usefn accounts.rs Position::is_empty
}
impl OpenOrder {
//@usefn accounts.rs Default@OpenOrder::default
}
#[verifier::external_body]
pub fn vx_fill_bytes<const N: usize>(a: &mut [u8; N], n: usize, src: &[u8])
    requires n == src@.len(), n <= N
    ensures forall|i: int| 0 <= i < n ==> final(a)[i] == src@[i], forall|i: int| n <= i < N ==> final(a)[i] == old(a)[i]
{ unimplemented!() }
/// the text followed by zero bytes
pub open spec fn name_is<const N: usize>(a: [u8; N], s: Seq<char>) -> bool {
    utf8(s).len() <= N && (forall|i: int| 0 <= i < utf8(s).len() ==> a[i] == utf8(s)[i]) && (forall|i: int| utf8(s).len() <= i < N ==> a[i] == 0)
}
//@fn util.rs fill_from_str
    ensures r is Ok <==> utf8(name@).len() <= N, r is Ok ==> name_is(r->Ok_0, name@)
//@rw name.as_bytes() => vx_bytes(name)
//@rw $a[..$n].copy_from_slice($s) => vx_fill_bytes(&mut $a, $n, $s)
//@rw fill_from_str(&$n) => fill_from_str($n.as_str())
//@endfn
//@rw fill_from_str(&$n) => fill_from_str($n.as_str())

impl OpenOrdersIndexer {
//@fn state/open_orders_indexer.rs OpenOrdersIndexer::space mode=abort
    ensures r == 17 + 32 * len
//@endfn
//@fn state/open_orders_indexer.rs OpenOrdersIndexer::has_active_open_orders_accounts
    ensures r == (self.addresses@.len() > 0)
//@endfn
}
/// no account is listed twice
pub open spec fn once(s: Seq<Pubkey>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
/// `t` is `s` without the entry at `i`
pub open spec fn without(s: Seq<Pubkey>, k: Pubkey, t: Seq<Pubkey>) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == k && t == #[trigger] s.remove(i) }
pub open spec fn pos_empty(p: Position, v: u8) -> bool {
    p.bids_base_lots == 0 && p.asks_base_lots == 0 && p.base_free_native == 0 && p.quote_free_native == 0
        && p.locked_maker_fees == 0 && p.referrer_rebates_available == 0 && p.penalty_heap_count == 0 && (v == 0 || p.bids_quote_lots == 0)
}
pub proof fn lemma_without(s: Seq<Pubkey>, k: Pubkey, t: Seq<Pubkey>)
    requires once(s), without(s, k, t)
    ensures once(t), !t.contains(k), t.len() == s.len() - 1, forall|x: Pubkey| x != k ==> (t.contains(x) <==> s.contains(x))
{
    let i = choose|i: int| 0 <= i < s.len() && s[i] == k && t == #[trigger] s.remove(i);
    assert forall|x: Pubkey| x != k implies (t.contains(x) <==> s.contains(x)) by {
        if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; if j < i { assert(t[j] == x); } else { assert(t[j - 1] == x); } }
        if t.contains(x) { let j = choose|j: int| 0 <= j < t.len() && t[j] == x; if j < i { assert(s[j] == x); } else { assert(s[j + 1] == x); } }
    }
}
pub proof fn lemma_with(s: Seq<Pubkey>, k: Pubkey)
    requires once(s), !s.contains(k)
    ensures once(s.push(k)), forall|x: Pubkey| s.push(k).contains(x) <==> x == k || s.contains(x)
{
    assert forall|x: Pubkey| s.push(k).contains(x) <==> x == k || s.contains(x) by {
        if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(s.push(k)[j] == x); }
        assert(s.push(k)[s.len() as int] == k);
    }
}
//@fn instructions/create_open_orders_account.rs create_open_orders_account mode=abort
    ensures r is Ok ==> ({
        let i0 = old(ctx).accounts.open_orders_indexer.data; let i1 = final(ctx).accounts.open_orders_indexer.data;
        let a = final(ctx).accounts.open_orders_account.data; let a0 = old(ctx).accounts.open_orders_account.data;
        &&& i1.addresses@ == i0.addresses@.push(old(ctx).accounts.open_orders_account.key)
        &&& i1.created_counter == i0.created_counter + 1 && i1.bump == i0.bump
        &&& a.account_num == i1.created_counter
        &&& a.owner == old(ctx).accounts.owner.key && a.market == old(ctx).accounts.market.key
        &&& opt_key(a.delegate) == nzk(old(ctx).accounts.delegate_account)
        &&& name_is(a.name, name@)
        &&& forall|k: int| 0 <= k < MAX_OPEN_ORDERS ==> oo_empty(#[trigger] a.open_orders[k])
        &&& a.position == a0.position && a.version == 1
        &&& final(ctx).accounts.market == old(ctx).accounts.market
    })
//@endfn
//@fn instructions/close_open_orders_account.rs close_open_orders_account mode=abort
    ensures r is Ok ==> ({
        let i0 = old(ctx).accounts.open_orders_indexer.data; let i1 = final(ctx).accounts.open_orders_indexer.data;
        let a = old(ctx).accounts.open_orders_account.data;
        &&& pos_empty(a.position, a.version)
        &&& without(i0.addresses@, old(ctx).accounts.open_orders_account.key, i1.addresses@)
        &&& i1.created_counter == i0.created_counter && i1.bump == i0.bump
    })
//@inv 0
    invariant_except_break vx_r is None,
    invariant 0 <= vx_c0 <= indexer.addresses@.len(),
    ensures vx_r is Some ==> vx_r->0 < indexer.addresses@.len() && indexer.addresses@[vx_r->0 as int] == ctx.accounts.open_orders_account.key,
    decreases indexer.addresses@.len() - vx_c0
//@endfn
//@fn instructions/close_open_orders_indexer.rs close_open_orders_indexer mode=abort
    ensures r is Ok ==> old(ctx).accounts.open_orders_indexer.data.addresses@.len() == 0
//@endfn
//@fn instructions/create_open_orders_indexer.rs create_open_orders_indexer mode=abort
    ensures r is Ok ==> final(ctx).accounts.open_orders_indexer.data.created_counter == 0
        && final(ctx).accounts.open_orders_indexer.data.addresses == old(ctx).accounts.open_orders_indexer.data.addresses
        && final(ctx).accounts.owner == old(ctx).accounts.owner && final(ctx).accounts.open_orders_indexer.key == old(ctx).accounts.open_orders_indexer.key
//@endfn
}
fn main() {}
