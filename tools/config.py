"""Which contracts and which native oracle decide each property."""

TEMPLATE_RLIMIT = {}
# functions that never return normally by design
ALLOW_VACUOUS = set()

_OOA = "OpenOrdersAccount::"
_TREE = "OrderTreeNodes::"
_BS = "BookSide::"
_HP = "EventHeap::"


def _adm(*xs):
    return {f"Accounts@{x}::admit" for x in xs}


_OPTKEY = {"NonZeroPubkeyOption::is_some", "NonZeroPubkeyOption::is_none", "From<NonZeroPubkeyOption>@Option::from", "From<Option<Pubkey>>@NonZeroPubkeyOption::from",
           "PartialEq<Pubkey>@NonZeroPubkeyOption::eq", "PartialEq<NonZeroPubkeyOption>@Pubkey::eq", "NonZeroKey@Option::non_zero_key"}
_ADM_ALL = _adm("PlaceOrder", "PlaceTakeOrder", "CancelOrder", "CancelAllAndPlaceOrders", "CloseMarket", "ConsumeEvents", "CreateMarket", "Deposit", "PruneOrders", "SetDelegate",
                "SetMarketExpired", "SettleFunds", "SettleFundsExpired", "SweepFees", "CloseOpenOrdersAccount", "CloseOpenOrdersIndexer", "CreateOpenOrdersAccount", "CreateOpenOrdersIndexer")

_NO = ("neworder", {"Orderbook::new_order"})

PROPS = {
    "E01": dict(
        templates=["heap"],
        native=True,
        level_note="",
    ),
    "B01": dict(
        templates=["nodes", "tree", ("bookside", {_BS + x for x in ("insert_leaf", "remove_by_key", "remove_one_expired", "remove_worst", "is_empty", "root", "node", "node_mut")})],
        native=True,
    ),
    "B03": dict(
        templates=[
            ("keys", {"LeafNode::expiry", "LeafNode::is_expired"}),
            ("tree", {_TREE + x for x in ("find_earliest_expiry", "insert_leaf", "remove_by_key", "update_parent_earliest_expiry", "remove_one_expired")}
             | {"AnyNode::earliest_expiry", "InnerNode::earliest_expiry"}),
            ("bookside", {_BS + "remove_one_expired", _BS + "iter_valid", "BookSideIterItem::is_valid"}),
            ("bookiter", {"fixed_to_result", "oracle_pegged_to_result", "rank_orders"}),
            ("order", {"Order::tif_from_expiry"}),
        ],
        native=True,
    ),
    "B04": dict(
        templates=["keys"],
        native=True,
    ),
    "B05": dict(
        templates=[_NO, ("tree", {_TREE + x for x in ("is_full", "find_worst", "remove_worst", "leaf_min_max", "min_leaf", "max_leaf", "insert_leaf", "insert", "remove")}),
                   ("bookside", {_BS + "is_full", _BS + "remove_worst", _BS + "remove_one_expired", _BS + "insert_leaf"}),
                   ("bookiter", {"rank_orders", "key_for_fixed_price", "oracle_pegged_price", "fixed_to_result", "oracle_pegged_to_result"})],
        native=True,
    ),
    "B02": dict(
        templates=["iter", "bookiter",
                   ("bookside", {_TREE + "iter", "BookSideIter::new", "OrderTreeType::side"} | {_BS + x for x in ("iter_valid", "iter_all_including_invalid", "root", "side", "best_price", "quantity_at_price", "impact_price")})],
        native=True,
    ),
    "M05": dict(
        templates=[("keys", {"oracle_pegged_price_data", "oracle_pegged_price_offset", "LeafNode::price_data", "LeafNode::new", "Side::is_price_better"}),
                   ("bookiter", {"oracle_pegged_price", "oracle_pegged_to_result", "rank_orders", "key_for_fixed_price", "Iterator@BookSideIter::next"}),
                   ("order", {"Order::price", "Order::peg_limit", "Order::post_target"})],
        native=True,
    ),
    "M03": dict(
        templates=["order", _NO],
        native=True,
    ),
    "M01": dict(
        templates=[_NO, "market", ("order", {"Order::price", "Order::price_for_order_type", "Order::is_fill_or_kill", "market_order_limit_for_side", "post_only_slide_limit"}),
                   ("bookside", {_BS + "iter_all_including_invalid"}), ("book", {"process_fill_event"})],
        native=True,
    ),
    "M02": dict(
        templates=[_NO, ("bookside", {_BS + x for x in ("iter_all_including_invalid", "node_mut", "remove_by_key", "insert_leaf")}), ("bookiter", {"Iterator@BookSideIter::next", "rank_orders"}),
                   ("book", {"process_fill_event"}), ("requant_t", set()), ("accounts", {_OOA + "execute_maker"})],
        native=True,
    ),
    "F01": dict(
        templates=["market", _NO, ("accounts", {_OOA + "execute_maker", _OOA + "execute_taker", _OOA + "cancel_order"})],
        native=True,
    ),
    "C01": dict(
        templates=[("conserve", set()), _NO, ("accounts", {_OOA + x for x in ("execute_maker", "execute_taker", "cancel_order", "add_order", "remove_order")}),
                   ("book", {"process_fill_event", "process_out_event"}), ("consume", {"consume_events"}), "market"],
        native=True,
    ),
    "C02": dict(
        templates=[("accounts", {_OOA + x for x in ("cancel_order", "remove_order", "add_order")}),
                   ("book", {"process_out_event", "Orderbook::bookside_mut", "Orderbook::cancel_order", "Orderbook::cancel_all_orders"}), "cancels"],
        native=True,
    ),
    "C03": dict(
        templates=[("accounts", {_OOA + x for x in ("cancel_order", "remove_order", "add_order", "execute_taker", "execute_maker", "next_order_slot")} | {"Default@OpenOrder::default", "OpenOrder::is_free"})],
        native=True,
    ),
    "M04": dict(
        templates=[_NO, ("accounts", {_OOA + x for x in ("execute_taker", "execute_maker", "cancel_order")})],
        native=True,
    ),
    "A01": dict(
        templates=[("accounts", {_OOA + "is_owner_or_delegate", _OOA + "is_settle_destination_allowed"}),
                   ("admit", _adm("PlaceOrder", "CancelOrder", "CancelAllAndPlaceOrders", "SetDelegate", "SettleFunds", "SettleFundsExpired", "Deposit",
                                  "CloseOpenOrdersAccount", "CloseOpenOrdersIndexer", "CreateOpenOrdersAccount", "CreateOpenOrdersIndexer") | _OPTKEY),
                   ("funds", {"set_delegate"})],
        native=True,
    ),
    "A02": dict(
        templates=[("admit", _adm("PlaceOrder", "PlaceTakeOrder", "CancelAllAndPlaceOrders", "CloseMarket", "ConsumeEvents", "PruneOrders", "SetMarketExpired", "SettleFundsExpired", "SweepFees", "CreateMarket") | _OPTKEY),
                   ("funds", {"set_market_expired", "sweep_fees"})],
        native=True,
    ),
    "A03": dict(
        templates=[("admit", _ADM_ALL | _OPTKEY | {"Market::is_market_vault"}), ("mkt", {"Market::is_market_vault", "Market::get_vault_by_side"}),
                   ("accounts", {_OOA + "is_settle_destination_allowed"}), ("funds", {"SettleFundsExpired::to_settle_funds"})],
        native=True,
    ),
    "C04": dict(
        templates=["tokens", ("funds", {"deposit", "settle_funds", "settle_funds_expired", "sweep_fees"}),
                   ("mkt", {"Market::get_vault_by_side", "Market::max_base_lots", "Market::max_quote_lots", "Market::max_base_lots_from_lamports", "Market::max_quote_lots_from_lamports"})],
        native=True,
    ),
    "C05": dict(
        templates=["tokens", ("funds", {"settle_funds", "settle_funds_expired", "sweep_fees", "SettleFundsExpired::to_settle_funds"})],
        native=True,
    ),
    "E03": dict(
        templates=["events", ("book", {"process_out_event", "process_fill_event"}), ("heapx", {_HP + "push_back"}), ("heap", {_HP + "push_back", _HP + "front", _HP + "at_slot", _HP + "iter", "Iterator@EventHeapIterator::next"})],
        native=True,
    ),
    "E02": dict(
        templates=["consume", ("heap", {_HP + x for x in ("delete_slot", "at_slot", "iter")} | {"Iterator@EventHeapIterator::next", "EventNode::is_free"}),
                   ("accounts", {_OOA + "execute_maker", _OOA + "cancel_order"}), ("admit", _adm("ConsumeEvents"))],
        native=True,
    ),
    "O01": dict(
        templates=["oracle", "pow10", ("admit", _adm("PlaceOrder", "PlaceTakeOrder", "CancelAllAndPlaceOrders"))],
        native=True,
    ),
    "I01": dict(
        templates=["indexer", ("admit", _adm("CloseOpenOrdersAccount", "CloseOpenOrdersIndexer", "CreateOpenOrdersAccount", "CreateOpenOrdersIndexer"))],
        native=True,
    ),
    "L01": dict(
        templates=[("mkt", {"Market::is_expired"}), ("funds", {"deposit", "set_market_expired", "settle_funds_expired"}), ("admit", _adm("PruneOrders", "SettleFundsExpired", "SetMarketExpired")), ("cancels", {"prune_orders"})],
        native=True,
    ),
    "L02": dict(
        templates=[("create", {"create_market"}), ("admit", _adm("CreateMarket") | _OPTKEY), ("heap", {_HP + "init"}), ("book", {"Orderbook::init"}), ("indexer", {"fill_from_str"}),
                   ("oracle", {"OracleConfigParams::to_oracle_config"})],
        native=True,
    ),
    "L03": dict(
        templates=[("create", {"close_market"}), ("book", {"Orderbook::is_empty"}), ("bookside", {_BS + "is_empty"}), ("heap", {_HP + "is_empty"}),
                   ("indexer", {"close_open_orders_account", "close_open_orders_indexer", "OpenOrdersIndexer::has_active_open_orders_accounts"}),
                   ("mkt", {"Market::is_empty", "Market::is_expired"}), ("admit", _adm("CloseMarket", "CloseOpenOrdersAccount", "CloseOpenOrdersIndexer"))],
        native=True,
    ),
}
HOOK_COMMITS = []
