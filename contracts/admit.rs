//@include prelude.rs
//@include abort.rs
//@include types.rs
//@item state/orderbook/heap.rs FillEvent
//@item state/open_orders_account.rs MAX_OPEN_ORDERS
//@item state/open_orders_account.rs Position
//@item state/open_orders_account.rs OpenOrder
//@item state/open_orders_account.rs OpenOrdersAccount
//@item state/open_orders_indexer.rs OpenOrdersIndexer
pub open spec fn zero_key() -> Pubkey { Pubkey { hi: 0, lo: 0 } }
pub open spec fn opt_key(o: NonZeroPubkeyOption) -> Option<Pubkey> { if o.key == zero_key() { None } else { Some(o.key) } }
// contents of these accounts play no part in the checks
pub struct BookSide { }
pub struct EventHeap { }
//@include accts.rs
//@include optkey.rs
//@include nzkey.rs
//@rw $a.close_market_admin == $b => $a.close_market_admin.vx_eq_key(&$b)
impl Market {
//@fn state/market.rs Market::is_market_vault
    ensures r == (pubkey == self.market_quote_vault || pubkey == self.market_base_vault)
//@endfn
}
impl OpenOrdersAccount {
//@usefn accounts.rs OpenOrdersAccount::is_owner_or_delegate
//@usefn accounts.rs OpenOrdersAccount::is_settle_destination_allowed
}
//@item accounts_ix/place_order.rs PlaceOrder
//@item accounts_ix/place_take_order.rs PlaceTakeOrder
//@item accounts_ix/cancel_order.rs CancelOrder
//@item accounts_ix/cancel_all_and_place_orders.rs CancelAllAndPlaceOrders
//@item accounts_ix/close_market.rs CloseMarket
//@item accounts_ix/consume_events.rs ConsumeEvents
//@item accounts_ix/create_market.rs CreateMarket
//@item accounts_ix/deposit.rs Deposit
//@item accounts_ix/prune_orders.rs PruneOrders
//@item accounts_ix/set_delegate.rs SetDelegate
//@item accounts_ix/set_market_expired.rs SetMarketExpired
//@item accounts_ix/settle_funds.rs SettleFunds
//@item accounts_ix/settle_funds_expired.rs SettleFundsExpired
//@item accounts_ix/sweep_fees.rs SweepFees
//@item accounts_ix/close_open_orders_account.rs CloseOpenOrdersAccount
//@item accounts_ix/close_open_orders_indexer.rs CloseOpenOrdersIndexer
//@item accounts_ix/create_open_orders_account.rs CreateOpenOrdersAccount
//@item accounts_ix/create_open_orders_indexer.rs CreateOpenOrdersIndexer

// ---- what the properties ask for -----------------------------------------------------------------
// A01: signed by the owner, or by the delegate they set
pub open spec fn by_owner_or_delegate(o: OpenOrdersAccount, s: VxInfo) -> bool { s.is_signer && (s.key == o.owner || opt_key(o.delegate) == Some(s.key)) }
pub open spec fn by_owner(o: OpenOrdersAccount, s: VxInfo) -> bool { s.is_signer && s.key == o.owner }
// A02: an administrator that is set must have signed, and one that is not set cannot be presented
pub open spec fn by_admin(a: NonZeroPubkeyOption, s: VxInfo) -> bool { s.is_signer && opt_key(a) == Some(s.key) }
pub open spec fn by_optional_admin(a: NonZeroPubkeyOption, s: Option<VxInfo>) -> bool { opt_key(a) is Some ==> s is Some && (s->0).is_signer && opt_key(a) == Some((s->0).key) }
// A03
pub open spec fn books(m: Market, b: VxAcc<BookSide>, a: VxAcc<BookSide>) -> bool { b.key == m.bids && a.key == m.asks && b.typed && a.typed }
pub open spec fn queue(m: Market, h: VxAcc<EventHeap>) -> bool { h.key == m.event_heap && h.typed }
pub open spec fn oracles(m: Market, a: Option<VxInfo>, b: Option<VxInfo>) -> bool { opt_key(m.oracle_a) == nzk(a) && opt_key(m.oracle_b) == nzk(b) }
pub open spec fn of_market(o: VxAcc<OpenOrdersAccount>, m: VxAcc<Market>) -> bool { o.typed && m.typed && o.data.market == m.key }
pub open spec fn vaults(m: Market, b: VxAcc<TokenAccount>, q: VxAcc<TokenAccount>) -> bool { b.typed && q.typed && b.key == m.market_base_vault && q.key == m.market_quote_vault }
pub open spec fn same_token(a: VxAcc<TokenAccount>, v: VxAcc<TokenAccount>) -> bool { a.typed && a.data.mint == v.data.mint }
pub open spec fn opt_same_token(a: Option<VxAcc<TokenAccount>>, v: VxAcc<TokenAccount>) -> bool { a is Some ==> same_token(a->0, v) }
// a delegate may settle only to token accounts of the owner
pub open spec fn destination(o: OpenOrdersAccount, s: VxInfo, t: VxAcc<TokenAccount>) -> bool { s.key == o.owner || t.data.owner == o.owner }
pub open spec fn index_of(owner: Pubkey) -> Pubkey { pda(seq![VxSeed::Lit(Pubkey { hi: 0x4f70656e4f7264657273496e64657865, lo: 0x72000000000000000000000000000000 }), VxSeed::Key(owner)]) }
pub open spec fn account_of(owner: Pubkey, n: int) -> Pubkey { pda(seq![VxSeed::Lit(Pubkey { hi: 0x4f70656e4f7264657273000000000000, lo: 0 }), VxSeed::Key(owner), VxSeed::Num(n as u64)]) }
pub open spec fn authority_of(market: Pubkey) -> Pubkey { pda(seq![VxSeed::Lit(Pubkey { hi: 0x4d61726b657400000000000000000000, lo: 0 }), VxSeed::Key(market)]) }

impl PlaceOrder {
//@fn accounts_ix/place_order.rs Accounts@PlaceOrder::admit mode=abort
    ensures r is Ok ==> ({
        let m = acc.market.data;
        &&& by_owner_or_delegate(acc.open_orders_account.data, acc.signer)
        &&& by_optional_admin(m.open_orders_admin, acc.open_orders_admin)
        &&& of_market(acc.open_orders_account, acc.market) && books(m, acc.bids, acc.asks) && queue(m, acc.event_heap) && oracles(m, acc.oracle_a, acc.oracle_b)
        &&& acc.market_vault.typed && (acc.market_vault.key == m.market_base_vault || acc.market_vault.key == m.market_quote_vault)
        &&& same_token(acc.user_token_account, acc.market_vault) && acc.token_program.program_ok
    })
//@endfn
}
impl PlaceTakeOrder {
//@fn accounts_ix/place_take_order.rs Accounts@PlaceTakeOrder::admit mode=abort
    ensures r is Ok ==> ({
        let m = acc.market.data;
        &&& acc.signer.is_signer && acc.penalty_payer.is_signer
        &&& by_optional_admin(m.open_orders_admin, acc.open_orders_admin)
        &&& acc.market.typed && books(m, acc.bids, acc.asks) && queue(m, acc.event_heap) && oracles(m, acc.oracle_a, acc.oracle_b)
        &&& vaults(m, acc.market_base_vault, acc.market_quote_vault) && acc.market_authority.key == m.market_authority
        &&& same_token(acc.user_base_account, acc.market_base_vault) && same_token(acc.user_quote_account, acc.market_quote_vault)
        &&& acc.token_program.program_ok && acc.system_program.program_ok
    })
//@endfn
}
impl CancelOrder {
//@fn accounts_ix/cancel_order.rs Accounts@CancelOrder::admit mode=abort
    ensures r is Ok ==> by_owner_or_delegate(acc.open_orders_account.data, acc.signer)
        && of_market(acc.open_orders_account, acc.market) && books(acc.market.data, acc.bids, acc.asks)
//@endfn
}
impl CancelAllAndPlaceOrders {
//@fn accounts_ix/cancel_all_and_place_orders.rs Accounts@CancelAllAndPlaceOrders::admit mode=abort
    ensures r is Ok ==> ({
        let m = acc.market.data;
        &&& by_owner_or_delegate(acc.open_orders_account.data, acc.signer)
        &&& by_optional_admin(m.open_orders_admin, acc.open_orders_admin)
        &&& of_market(acc.open_orders_account, acc.market) && books(m, acc.bids, acc.asks) && queue(m, acc.event_heap) && oracles(m, acc.oracle_a, acc.oracle_b)
        &&& vaults(m, acc.market_base_vault, acc.market_quote_vault)
        &&& same_token(acc.user_base_account, acc.market_base_vault) && same_token(acc.user_quote_account, acc.market_quote_vault)
        &&& acc.token_program.program_ok
    })
//@endfn
}
impl CloseMarket {
//@fn accounts_ix/close_market.rs Accounts@CloseMarket::admit mode=abort
    ensures r is Ok ==> by_admin(acc.market.data.close_market_admin, acc.close_market_admin)
        && acc.market.typed && books(acc.market.data, acc.bids, acc.asks) && queue(acc.market.data, acc.event_heap)
//@endfn
}
impl ConsumeEvents {
//@fn accounts_ix/consume_events.rs Accounts@ConsumeEvents::admit mode=abort
    ensures r is Ok ==> by_optional_admin(acc.market.data.consume_events_admin, acc.consume_events_admin)
        && acc.market.typed && queue(acc.market.data, acc.event_heap)
//@endfn
}
impl CreateMarket {
//@fn accounts_ix/create_market.rs Accounts@CreateMarket::admit mode=abort
    ensures r is Ok ==> ({
        &&& acc.market.fresh && acc.bids.fresh && acc.asks.fresh && acc.event_heap.fresh
        &&& acc.market_authority.key == authority_of(acc.market.key)
        &&& acc.market_base_vault.data.mint == acc.base_mint.key && acc.market_base_vault.data.owner == acc.market_authority.key
        &&& acc.market_quote_vault.data.mint == acc.quote_mint.key && acc.market_quote_vault.data.owner == acc.market_authority.key
        &&& acc.base_mint.key != acc.quote_mint.key
    })
//@endfn
}
impl Deposit {
//@fn accounts_ix/deposit.rs Accounts@Deposit::admit mode=abort
    ensures r is Ok ==> acc.owner.is_signer && of_market(acc.open_orders_account, acc.market)
        && vaults(acc.market.data, acc.market_base_vault, acc.market_quote_vault)
        && same_token(acc.user_base_account, acc.market_base_vault) && same_token(acc.user_quote_account, acc.market_quote_vault) && acc.token_program.program_ok
//@endfn
}
impl PruneOrders {
//@fn accounts_ix/prune_orders.rs Accounts@PruneOrders::admit mode=abort
    ensures r is Ok ==> by_admin(acc.market.data.close_market_admin, acc.close_market_admin)
        && of_market(acc.open_orders_account, acc.market) && books(acc.market.data, acc.bids, acc.asks)
//@endfn
}
impl SetDelegate {
//@fn accounts_ix/set_delegate.rs Accounts@SetDelegate::admit mode=abort
    ensures r is Ok ==> acc.open_orders_account.typed && by_owner(acc.open_orders_account.data, acc.owner)
//@endfn
}
impl SetMarketExpired {
//@fn accounts_ix/set_market_expired.rs Accounts@SetMarketExpired::admit mode=abort
    ensures r is Ok ==> acc.market.typed && by_admin(acc.market.data.close_market_admin, acc.close_market_admin)
//@endfn
}
impl SettleFunds {
//@fn accounts_ix/settle_funds.rs Accounts@SettleFunds::admit mode=abort
    ensures r is Ok ==> ({
        let m = acc.market.data; let o = acc.open_orders_account.data;
        &&& by_owner_or_delegate(o, acc.owner) && acc.penalty_payer.is_signer
        &&& of_market(acc.open_orders_account, acc.market)
        &&& vaults(m, acc.market_base_vault, acc.market_quote_vault) && acc.market_authority.key == m.market_authority
        &&& same_token(acc.user_base_account, acc.market_base_vault) && same_token(acc.user_quote_account, acc.market_quote_vault)
        &&& opt_same_token(acc.referrer_account, acc.market_quote_vault)
        &&& destination(o, acc.owner, acc.user_base_account) && destination(o, acc.owner, acc.user_quote_account)
        &&& acc.token_program.program_ok && acc.system_program.program_ok
    })
//@endfn
}
impl SettleFundsExpired {
//@fn accounts_ix/settle_funds_expired.rs Accounts@SettleFundsExpired::admit mode=abort
    ensures r is Ok ==> ({
        let m = acc.market.data; let o = acc.open_orders_account.data;
        &&& by_admin(m.close_market_admin, acc.close_market_admin) && acc.penalty_payer.is_signer
        &&& of_market(acc.open_orders_account, acc.market)
        &&& vaults(m, acc.market_base_vault, acc.market_quote_vault) && acc.market_authority.key == m.market_authority
        &&& same_token(acc.user_base_account, acc.market_base_vault) && same_token(acc.user_quote_account, acc.market_quote_vault)
        &&& opt_same_token(acc.referrer_account, acc.market_quote_vault)
        &&& acc.user_base_account.data.owner == o.owner && acc.user_quote_account.data.owner == o.owner
        &&& acc.token_program.program_ok && acc.system_program.program_ok
    })
//@endfn
}
impl SweepFees {
//@fn accounts_ix/sweep_fees.rs Accounts@SweepFees::admit mode=abort
    ensures r is Ok ==> acc.market.typed && acc.collect_fee_admin.is_signer && acc.collect_fee_admin.key == acc.market.data.collect_fee_admin
        && acc.market_authority.key == acc.market.data.market_authority
        && acc.market_quote_vault.typed && acc.market_quote_vault.key == acc.market.data.market_quote_vault
        && same_token(acc.token_receiver_account, acc.market_quote_vault) && acc.token_program.program_ok
//@endfn
}
impl CloseOpenOrdersAccount {
//@fn accounts_ix/close_open_orders_account.rs Accounts@CloseOpenOrdersAccount::admit mode=abort
    ensures r is Ok ==> acc.open_orders_account.typed && by_owner(acc.open_orders_account.data, acc.owner)
        && acc.open_orders_indexer.typed && acc.open_orders_indexer.key == index_of(acc.owner.key)
//@endfn
}
impl CloseOpenOrdersIndexer {
//@fn accounts_ix/close_open_orders_indexer.rs Accounts@CloseOpenOrdersIndexer::admit mode=abort
    ensures r is Ok ==> acc.owner.is_signer && acc.open_orders_indexer.typed && acc.open_orders_indexer.key == index_of(acc.owner.key)
//@endfn
}
impl CreateOpenOrdersAccount {
//@fn accounts_ix/create_open_orders_account.rs Accounts@CreateOpenOrdersAccount::admit mode=abort
    ensures r is Ok ==> acc.owner.is_signer && acc.open_orders_indexer.typed && acc.open_orders_indexer.key == index_of(acc.owner.key)
        && acc.open_orders_account.fresh && acc.open_orders_account.key == account_of(acc.owner.key, acc.open_orders_indexer.data.created_counter + 1)
        && acc.open_orders_indexer.data.addresses@.len() < 256 && acc.market.typed
//@endfn
}
impl CreateOpenOrdersIndexer {
//@fn accounts_ix/create_open_orders_indexer.rs Accounts@CreateOpenOrdersIndexer::admit mode=abort
    ensures r is Ok ==> acc.owner.is_signer && acc.open_orders_indexer.fresh && acc.open_orders_indexer.key == index_of(acc.owner.key)
//@endfn
}
}
fn main() {}
