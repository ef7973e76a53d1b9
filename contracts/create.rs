//@include prelude.rs
//@include abort.rs
//@include types.rs
//@include accts.rs
//@include optkey.rs
//@include nzkey.rs
//@include book_all.rs
//@include mkt_spec.rs
//@include floats.rs
//@type f32 => VxF32
//@item state/oracle.rs OracleConfigParams
//@item state/oracle.rs OracleType copy eq
//@item accounts_ix/create_market.rs CreateMarket
//@item accounts_ix/close_market.rs CloseMarket
impl OracleConfigParams {
//@usefn oracle.rs OracleConfigParams::to_oracle_config
}
impl EventHeap {
//@usefn heap.rs EventHeap::init
//@usefn heap.rs EventHeap::is_empty
}
impl<'a> Orderbook<'a> {
//@usefn book.rs Orderbook::init
//@usefn book.rs Orderbook::is_empty
}
impl Market {
//@usefn mkt.rs Market::is_expired
//@usefn mkt.rs Market::is_empty
}
//@usefn indexer.rs fill_from_str
pub open spec fn name_is<const N: usize>(a: [u8; N], s: Seq<char>) -> bool {
    utf8(s).len() <= N && (forall|i: int| 0 <= i < utf8(s).len() ==> a[i] == utf8(s)[i]) && (forall|i: int| utf8(s).len() <= i < N ==> a[i] == 0)
}
//@rw fill_from_str(&$n) => fill_from_str($n.as_str())
pub open spec fn now() -> int { the_clock().unix_timestamp as int }
// what kind of oracle an account is, from its owner and first bytes
pub uninterp spec fn oracle_kind(k: Pubkey) -> Option<OracleType>;
#[verifier::external_body]
pub fn vx_oracle_kind(a: &VxInfo) -> (r: Result<OracleType>) ensures r is Ok <==> oracle_kind(a.key) is Some, r is Ok ==> oracle_kind(a.key) == Some(r->Ok_0) { unimplemented!() }
pub fn vx_borrow(a: &VxInfo) -> (r: Result<VxInfo>) ensures r == Ok::<VxInfo, Error>(*a) { Ok(*a) }
pub fn vx_some<T>(o: &Option<T>) -> (r: &T) ensures *o == Some(*r) { match o { Some(x) => x, None => vx_abort() } }
//@noinline determine_oracle_type
//@noinline borrow
//@rw oracle::determine_oracle_type($x) => vx_oracle_kind($x)
//@rw AccountInfoRef::borrow($x) => vx_borrow($x)

pub assume_specification[i64::unsigned_abs](x: i64) -> (r: u64) ensures r == (if x < 0 { -x } else { x as int });

/// a side of the book in an account just created: all zero
pub open spec fn zeroed(b: BookSide) -> bool {
    b.roots[0].leaf_count == 0 && b.roots[1].leaf_count == 0 && b.nodes.bump_index == 0 && b.nodes.free_list_len == 0 && b.nodes.order_tree_type == 0
}
pub proof fn lemma_zeroed(b: BookSide, t: u8)
    requires zeroed(b), t <= 1
    ensures ({ let c = typed_side(b, t); bwf(c) && sec(c, BookSideOrderTree::Fixed) == Seq::<LeafNode>::empty() && sec(c, BookSideOrderTree::OraclePegged) == Seq::<LeafNode>::empty() && side_of(c) == (if t == 0 { Side::Bid } else { Side::Ask }) })
{
    let c = typed_side(b, t); let n = c.nodes;
    assert(flist(n, Seq::<int>::empty()));
    lemma_tree_of(n.nodes@, c.roots[0], None); lemma_tree_of(n.nodes@, c.roots[1], None);
    assert(ninv(n, c.roots[0], None)); assert(ninv(n, c.roots[1], None));
    assert(wf1(n, c.roots[0]) && wf1(n, c.roots[1]));
}
pub open spec fn fees_allowed(maker: int, taker: int) -> bool { 0 <= taker <= 1_000_000 && -taker <= maker <= 1_000_000 }
/// no oracle; one of a known kind; or two different ones of the same kind
pub open spec fn oracles_allowed(a: Option<Pubkey>, b: Option<Pubkey>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), None) => oracle_kind(x) is Some,
        (Some(x), Some(y)) => x != y && oracle_kind(x) is Some && oracle_kind(x) == oracle_kind(y),
        (None, Some(y)) => false,
    }
}
pub open spec fn empty_book(b: BookSide, s: Side) -> bool { bwf(b) && side_of(b) == s && sec(b, BookSideOrderTree::Fixed).len() == 0 && sec(b, BookSideOrderTree::OraclePegged).len() == 0 }
pub open spec fn new_market(a: CreateMarket, m: Market) -> bool {
    &&& m.market_authority == a.market_authority.key && m.collect_fee_admin == a.collect_fee_admin.key
    &&& opt_key(m.open_orders_admin) == nzk(a.open_orders_admin) && opt_key(m.consume_events_admin) == nzk(a.consume_events_admin) && opt_key(m.close_market_admin) == nzk(a.close_market_admin)
    &&& m.base_decimals == a.base_mint.data.decimals && m.quote_decimals == a.quote_mint.data.decimals
    &&& m.bids == a.bids.key && m.asks == a.asks.key && m.event_heap == a.event_heap.key
    &&& opt_key(m.oracle_a) == nzk(a.oracle_a) && opt_key(m.oracle_b) == nzk(a.oracle_b)
    &&& m.base_mint == a.base_mint.key && m.quote_mint == a.quote_mint.key
    &&& m.market_base_vault == a.market_base_vault.key && m.market_quote_vault == a.market_quote_vault.key
    &&& m.registration_time == now() && m.seq_num == 0
    &&& m.fees_accrued == 0 && m.fees_to_referrers == 0 && m.maker_volume == 0 && m.taker_volume_wo_oo == 0
    &&& m.base_deposit_total == 0 && m.quote_deposit_total == 0 && m.fees_available == 0 && m.referrer_rebates_accrued == 0
}
//@fn instructions/create_market.rs create_market mode=abort
    requires zeroed(old(ctx).accounts.bids.data), zeroed(old(ctx).accounts.asks.data)
    ensures r is Ok ==> ({
        let a = old(ctx).accounts; let b = final(ctx).accounts; let m = b.market.data;
        &&& quote_lot_size > 0 && base_lot_size > 0 && (time_expiry == 0 || time_expiry > now()) && fees_allowed(maker_fee as int, taker_fee as int)
        &&& oracles_allowed(nzk(a.oracle_a), nzk(a.oracle_b))
        &&& new_market(a, m)
        &&& m.quote_lot_size == quote_lot_size && m.base_lot_size == base_lot_size && m.maker_fee == maker_fee && m.taker_fee == taker_fee && m.time_expiry == time_expiry
        &&& m.oracle_config.conf_filter == fwide(oracle_config.conf_filter) && m.oracle_config.max_staleness_slots == (match oracle_config.max_staleness_slots { Some(v) => v as i64, None => -1i64 })
        &&& name_is(m.name, name@)
        &&& empty_book(b.bids.data, Side::Bid) && empty_book(b.asks.data, Side::Ask)
        &&& b.event_heap.data.wf() && b.event_heap.data.used().len() == 0 && b.event_heap.data.header.seq_num == 0
    })
//@rw $x.base_mint.decimals => $x.base_mint.data.decimals
//@rw $x.quote_mint.decimals => $x.quote_mint.data.decimals
//@rw *$x.key => $x.key
//@rw $x.as_ref().unwrap() => vx_some(&$x)
//@start
    proof { lemma_zeroed(ctx.accounts.bids.data, 0); lemma_zeroed(ctx.accounts.asks.data, 1); }
//@endfn
//@fn instructions/close_market.rs close_market mode=abort
    requires bwf(old(ctx).accounts.bids.data), bwf(old(ctx).accounts.asks.data), side_of(old(ctx).accounts.bids.data) == Side::Bid, side_of(old(ctx).accounts.asks.data) == Side::Ask
    ensures r is Ok ==> ({
        let a = old(ctx).accounts; let m = a.market.data;
        &&& mkt_expired(m, now()) && mkt_empty(m)
        &&& empty_book(a.bids.data, Side::Bid) && empty_book(a.asks.data, Side::Ask)
        &&& a.event_heap.data.header.count == 0
    })
//@endfn
}
fn main() {}
