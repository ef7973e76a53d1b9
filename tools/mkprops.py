#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list is easy to review and edit)."""
import json,os
S="programs/openbook-v2/src/"
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":n,"where":S+w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":S+w} for n,m,w in state]
    if observe:a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
OB="state/orderbook/"
p("B01","The book holds exactly the live resting orders",
"After any sequence of order insertions and removals, each side of the book contains exactly the orders inserted and not removed, each with its original data, in both the fixed-price and the pegged section. Inserting never loses or alters another order and always succeeds while the book does not report itself full; removing an order takes out that order only and fails cleanly when the order is not present.",
["histories","inputs"],"every sequence of inserts and removals, in either section, of orders with arbitrary ids, up to capacity",
"The unit tests insert some hundred random ids and check a few counts; the shape of a prefix tree with shared node storage and a free list depends on the whole history.",
[OB+"ordertree.rs",OB+"nodes.rs",OB+"bookside.rs"],
[("insert/remove on the prefix tree",OB+"ordertree.rs: insert_leaf, remove_by_key"),("node storage and free list",OB+"ordertree.rs: insert, remove")],
[("node storage","fixed array of tree nodes shared by the two sections of a side",OB+"ordertree.rs: OrderTreeNodes")])
p("B02","Orders are offered to takers strictly by price, then by time",
"Walking a side of the book visits every order that is currently representable exactly once, best price first and, at the same price, earliest placed first, merging fixed-price and pegged orders at the pegged orders' current price. Orders whose pegged price is currently out of range are left out and nothing else is.",
["histories","inputs"],"every book content, oracle price and time",
"Tests walk books of at most a few orders and never mix out-of-range pegged orders with in-range ones in every position.",
[OB+"bookside_iterator.rs",OB+"ordertree_iterator.rs",OB+"nodes.rs"],
[("in-order walk",OB+"ordertree_iterator.rs: next"),("merge of sections",OB+"bookside_iterator.rs: rank_orders, next"),("id layout",OB+"nodes.rs: new_node_key")])
p("B03","Expired orders never trade and are found for removal",
"An order with a limited lifetime stops being tradable at the moment its lifetime ends and not earlier, an order without one never expires, and a pegged order beyond its limit does not trade. The order removed as expired is always one with the earliest expiry in its section and only if that expiry is in the past.",
["histories","inputs"],"every book content and every time",
"Tests use a handful of lifetimes; the expiry bookkeeping along the tree paths depends on the whole insert/remove history.",
[OB+"ordertree.rs",OB+"nodes.rs",OB+"bookside_iterator.rs",OB+"book.rs"],
[("earliest-expiry summaries in the tree",OB+"ordertree.rs: update_parent_earliest_expiry, find_earliest_expiry"),("expiry test",OB+"nodes.rs: LeafNode::is_expired, expiry")])
p("B04","Order ids are unique and encode price and placement order",
"Every accepted order gets an id never used before in its market; for two orders on the same side and section the id comparison used for ranking agrees with better price first, then earlier placement first. The price recovered from an id is the price that was put in, for every valid fixed price and every pegged offset.",
["inputs","histories"],"every pair of prices/offsets and sequence numbers; every sequence of orders",
"Tests check single values; the claim is about all pairs of 64-bit prices and sequence numbers.",
[OB+"nodes.rs","state/market.rs"],
[("id construction",OB+"nodes.rs: new_node_key, fixed_price_data, oracle_pegged_price_data"),("sequence number","state/market.rs: gen_order_id")])
p("B05","A full book only gives way to a strictly better order",
"When a side is full a new resting order is accepted only if its price is strictly better than that of the worst resting order, which is then the one removed and whose owner gets the locked funds back (directly or through a queued event). An order that is turned away changes nothing.",
["histories","inputs"],"every full book and every incoming order",
"Filling a 1024-node book with mixed sections through the program is beyond the integration tests.",
[OB+"book.rs",OB+"bookside.rs"],
[("eviction",OB+"bookside.rs: remove_worst"),("acceptance test",OB+"book.rs: new_order")])
p("E01","The event queue keeps every event, in order, without overwriting",
"The event queue returns the events in the order they were added, each exactly as recorded; adding an event to a full queue fails without damage. Removing an event at any position leaves all the other events, and their order, unchanged, and frees exactly one place.",
["histories","inputs"],"every sequence of additions and removals at arbitrary positions",
"Tests use queues of a few hundred simple events and a few removal positions; a linked list inside an array depends on the whole history.",
[OB+"heap.rs"],
[("linked list in an array",OB+"heap.rs: push_back, delete_slot, pop_front"),("walk",OB+"heap.rs: iter")],
[("links","each place is either on the free chain or in the ring of used places",OB+"heap.rs: EventHeap")])
p("E02","Each queued event is settled exactly once, on the right account",
"Processing events applies a fill or a removal once to the account named in it and then deletes it from the queue; an event whose account was not supplied stays queued unchanged. No account other than the named one changes, and processing an event again is impossible.",
["histories","inputs"],"every queue content and every list of requested positions and supplied accounts, including duplicates",
"Tests process one or two events; duplicates in the requested positions and partial account lists combine freely.",
["instructions/consume_events.rs",OB+"heap.rs",OB+"book.rs"],
[("event loop","instructions/consume_events.rs: consume_events"),("account lookup","instructions/consume_events.rs: load_open_orders_account!")])
p("E03","Events carry the facts of the match they record",
"A fill event names the maker account, its order place, the taker, the executed price and quantity, the maker's price cap and whether the maker order is used up, and a removal event names the owner, the order place and the remaining quantity. What is read back from the queue equals what was recorded.",
["inputs"],"every fill and removal event",
"Events pass through untyped bytes; tests look at one or two fields.",
[OB+"heap.rs",OB+"book.rs"],
[("event construction",OB+"heap.rs: FillEvent::new, OutEvent::new"),("recording",OB+"book.rs: new_order, process_out_event, process_fill_event")])
p("M01","A taker never trades beyond the limits they gave",
"No fill is at a price worse than the taker's limit, the base amount traded never exceeds the requested maximum, and quote spent plus fees plus what is locked for a resting remainder never exceeds the stated quote maximum for a buyer. The number of fills never exceeds the given match limit.",
["inputs","histories"],"every order, book content, fee configuration and lot size",
"Tests use a few fee rates and round lot sizes; rounding of fees against lot sizes is where limits can be exceeded by one.",
[OB+"book.rs","state/market.rs","instructions/place_order.rs","instructions/place_take_order.rs"],
[("matching loop",OB+"book.rs: new_order"),("fee head-room","state/market.rs: subtract_taker_fees")])
p("M02","Trades execute at the resting order's price and reduce it exactly",
"Each fill is executed at the price of the resting order at that moment, for the smaller of what both sides still want (and can pay for); the resting order keeps exactly the difference and leaves the book exactly when nothing remains. An incoming order never leaves tradable liquidity within its limits untouched while asking for more, unless the match limit is reached or its remaining money buys nothing.",
["inputs","histories"],"every order and book content",
"Tests check one or two matches at a time.",
[OB+"book.rs"],
[("matching loop",OB+"book.rs: new_order")])
p("M03","Order types keep their promises",
"Immediate, market and fill-or-kill orders never rest on the book; fill-or-kill either executes in full or changes nothing; post-only orders never trade, and a sliding post-only order rests just short of the best opposite price. An order that rests never crosses the valid orders of the opposite side at that moment.",
["inputs","histories"],"every order type, side and book content",
"Tests exercise each type in one or two situations; crossing can result from limits, expired or pegged orders.",
[OB+"book.rs",OB+"order.rs",OB+"order_type.rs","lib.rs"],
[("type dispatch",OB+"order.rs: post_target, is_post_only, is_fill_or_kill, price"),("post decision",OB+"book.rs: new_order")])
p("M04","Self-trades follow the behaviour the taker chose",
"When an order meets a resting order of the same account it is, as chosen, traded against itself free of fees and rebates, or the resting order is cancelled with its locked funds returned and matching goes on, or the whole transaction fails. Orders of other accounts are unaffected by the choice.",
["inputs","histories"],"every order, behaviour, fee configuration and book content",
"Tests cover three small scenarios with zero fees.",
[OB+"book.rs","state/open_orders_account.rs"],
[("self-trade branch",OB+"book.rs: new_order"),("fee exemption","state/open_orders_account.rs: execute_maker")])
p("M05","Pegged orders follow the oracle and respect their cap",
"A pegged order's price is the oracle price plus its offset at every moment; it trades only within the owner's cap and only while an acceptable oracle price is available, and a pegged buy order locks enough for its cap. Fills below the cap return the difference to the owner.",
["inputs","histories"],"every oracle price, offset and cap, at both ends of the number range",
"Tests use a few oracle prices.",
[OB+"bookside_iterator.rs",OB+"order.rs",OB+"book.rs","state/open_orders_account.rs"],
[("pegged price",OB+"bookside_iterator.rs: oracle_pegged_price"),("posting rule",OB+"book.rs: new_order"),("refund above fill price","state/open_orders_account.rs: execute_maker")])
p("F01","Fees round for the venue, rebates never exceed fees",
"Fees charged are the configured rate rounded up for takers and for locked maker fees, and rounded down when a maker fee or rebate is realised. For one order the fees taken from the taker cover the sum of rebates paid to its makers, and the head-room kept for fees always covers the fee.",
["inputs","configurations"],"every amount, fee configuration within the allowed range and split of a trade into fills",
"Tests use a few amounts; rounding errors show at particular residues only.",
["state/market.rs",OB+"book.rs","state/open_orders_account.rs"],
[("fee arithmetic","state/market.rs: taker_fees_ceil, maker_fees_ceil, maker_fees_floor, maker_rebate_floor, subtract_taker_fees")])
p("C01","Trading conserves both tokens to the last unit",
"For every placed order and every settled fill, what the taker pays, what makers receive, what is released from locks and what is booked as fees add up exactly: no quote or base unit appears or vanishes. This holds separately for fills settled at once and for fills settled later from the queue.",
["inputs","histories"],"every order, book content, lot size and fee configuration",
"Tests compare selected balances after selected trades.",
[OB+"book.rs","state/open_orders_account.rs","instructions/place_order.rs","instructions/place_take_order.rs"],
[("maker settlement","state/open_orders_account.rs: execute_maker"),("taker settlement","state/open_orders_account.rs: execute_taker; "+S+OB+"book.rs: new_order")],
[("account balances","free and locked amounts of an account","state/open_orders_account.rs: Position")])
p("C02","Cancelling returns exactly what the order still locks",
"Removing a resting order, however it happens (by its owner, by expiry, by eviction, by pruning or by self-trade), credits its owner with exactly the funds still locked for it, including locked fees, and frees its place. Cancelling an unknown order changes nothing.",
["inputs","histories"],"every account state and order, including partly filled and pegged orders",
"Tests cancel fresh orders at round prices without fees.",
["state/open_orders_account.rs",OB+"book.rs","instructions/cancel_order.rs","instructions/prune_orders.rs"],
[("release","state/open_orders_account.rs: cancel_order, remove_order"),("removal and release together",OB+"book.rs: cancel_order, cancel_all_orders, process_out_event")])
p("C03","Account totals match its open orders",
"An account's totals of base and quote lots in open orders are the sums over its open orders, and its list of open orders has exactly one entry per order that rests on the book or awaits settlement, with the right side, section, id, client id and locking price. Adding an order uses a free place and touches no other entry; with no free place the order is refused.",
["histories","inputs"],"every sequence of adds, partial fills, complete fills and cancellations",
"Tests look at totals after short sequences.",
["state/open_orders_account.rs"],
[("bookkeeping","state/open_orders_account.rs: add_order, remove_order, execute_maker, cancel_order, next_order_slot")])
p("C04","Vault balances always equal the recorded deposits",
"Every instruction changes the recorded deposit totals of a market by exactly the tokens it moves in or out of the vaults, and moves each in the right token and direction. A trader pays for an order exactly its cost less what their free balance already covers, and that part of the free balance is consumed.",
["histories","inputs"],"every sequence of deposits, orders, settlements, sweeps and closings",
"Tests check vault balances in a few flows.",
["instructions/place_order.rs","instructions/place_take_order.rs","instructions/cancel_all_and_place_orders.rs","instructions/deposit.rs","instructions/settle_funds.rs","instructions/sweep_fees.rs"],
[("deposit totals","instructions/*.rs: handlers that transfer tokens"),("transfers","token_utils.rs: token_transfer, token_transfer_signed")])
p("C05","Settling pays out exactly the free funds and fees once",
"Settling funds pays the account's whole free base and quote balance, no more, and zeroes it; accrued referral rebates go once to the given referrer or else to the venue's fees, and left-over locked fees are released only when no bids are open. Sweeping pays exactly the collected fees once.",
["histories","inputs"],"every account and market state, with and without a referrer",
"Tests check one settlement at a time.",
["instructions/settle_funds.rs","instructions/settle_funds_expired.rs","instructions/sweep_fees.rs","instructions/place_take_order.rs"],
[("settlement","instructions/settle_funds.rs: settle_funds"),("sweep","instructions/sweep_fees.rs: sweep_fees")])
p("A01","Only the owner or their delegate acts on an account",
"Placing, editing and cancelling orders and settling funds on a live market require the signature of the account's owner or of the delegate they set; only the owner can set a delegate or close an account. A delegate can settle only to accounts of the owner.",
["inputs"],"every combination of signers and accounts passed to an instruction",
"Tests try one or two wrong signers on a few instructions.",
["accounts_ix/place_order.rs","accounts_ix/cancel_order.rs","accounts_ix/cancel_all_and_place_orders.rs","accounts_ix/settle_funds.rs","accounts_ix/set_delegate.rs","accounts_ix/close_open_orders_account.rs","accounts_ix/close_open_orders_indexer.rs","state/open_orders_account.rs"],
[("account constraints","accounts_ix/*.rs: #[account(...)] and Signer"),("predicates","state/open_orders_account.rs: is_owner_or_delegate, is_settle_destination_allowed")])
p("A02","Market administration needs the market's administrators",
"Expiring or closing a market, pruning orders and settling on someone's behalf need the signature of the close administrator set at creation, sweeping fees that of the fee administrator; where an order or event administrator was set, orders can be placed and events processed only with that signature. A market without a close administrator can never be expired by hand or closed.",
["inputs","configurations"],"every combination of configured administrators and signers",
"Tests try selected combinations.",
["accounts_ix/close_market.rs","accounts_ix/prune_orders.rs","accounts_ix/set_market_expired.rs","accounts_ix/settle_funds_expired.rs","accounts_ix/sweep_fees.rs","accounts_ix/consume_events.rs","accounts_ix/place_order.rs","accounts_ix/place_take_order.rs","pubkey_option.rs"],
[("account constraints","accounts_ix/*.rs: #[account(...)]"),("optional administrator","pubkey_option.rs: NonZeroPubkeyOption")])
p("A03","Instructions work only on the market's own accounts",
"Every instruction that touches a market's book, event queue, vaults or oracles accepts only the accounts registered for that market, and trader accounts only if they were opened for that market. Token accounts given for payment and payout must be of the right token.",
["inputs"],"every substitution of one or more passed accounts",
"There are dozens of account arguments; tests substitute almost none.",
["accounts_ix/place_order.rs","accounts_ix/place_take_order.rs","accounts_ix/cancel_order.rs","accounts_ix/cancel_all_and_place_orders.rs","accounts_ix/consume_events.rs","accounts_ix/deposit.rs","accounts_ix/settle_funds.rs","accounts_ix/settle_funds_expired.rs","accounts_ix/sweep_fees.rs","accounts_ix/close_market.rs","accounts_ix/prune_orders.rs"],
[("account constraints","accounts_ix/*.rs: has_one, constraint, token::mint"),("vault for the side","instructions/place_order.rs: place_order")])
p("L01","Expired markets stop trading but never trap funds",
"Once a market has expired no order can be placed, taken or edited and no funds deposited, while cancelling and settling stay possible. Pruning and settling on behalf of traders are possible only after expiry, and a market is expired exactly when an expiry time is set and has passed.",
["inputs","histories"],"every market expiry setting and clock value, every instruction",
"Tests check a few instructions on one expired market.",
["state/market.rs","instructions/place_order.rs","instructions/place_take_order.rs","instructions/deposit.rs","instructions/prune_orders.rs","instructions/settle_funds_expired.rs","instructions/cancel_all_and_place_orders.rs","instructions/set_market_expired.rs"],
[("expiry test","state/market.rs: is_expired"),("gates","instructions/*.rs")])
p("L02","Only well-formed markets can be created",
"A market is created only with positive lot sizes, a future or absent expiry, fees within the allowed range with rebates no larger than the taker fee, and a second oracle only together with a first. It records exactly the given parameters and accounts and starts with an empty book, an empty queue and zero balances.",
["inputs","configurations"],"every set of creation parameters",
"Tests try two or three invalid combinations.",
["instructions/create_market.rs","accounts_ix/create_market.rs"],
[("validation","instructions/create_market.rs: create_market")])
p("L03","Accounts and markets are closed only when empty",
"A trader's account can be closed only when it has no open orders and no free, locked or accrued funds, and disappears from the owner's index; a market only when it is expired and its deposits, collected fees, unpaid rebates, book and event queue are empty.",
["inputs","histories"],"every account and market state",
"Tests close fresh accounts.",
["instructions/close_open_orders_account.rs","instructions/close_market.rs","state/open_orders_account.rs","state/market.rs","state/open_orders_indexer.rs"],
[("emptiness tests","state/open_orders_account.rs: Position::is_empty; "+S+"state/market.rs: is_empty"),("gates","instructions/close_open_orders_account.rs, instructions/close_market.rs")])
p("O01","Only fresh and confident oracle prices are used",
"A price is used only if it is recent enough and its relative uncertainty (combined over both oracles when two are configured) is within the configured bound; otherwise the market behaves as if it had no oracle price. The price used is the configured oracle's price adjusted for token decimals and lot sizes.",
["inputs","configurations"],"every oracle content, slot and configuration",
"Oracle tests read two recorded accounts.",
["state/oracle.rs","state/market.rs"],
[("freshness and confidence","state/oracle.rs: is_stale, has_valid_confidence, has_valid_combined_confidence"),("use","state/market.rs: oracle_price_from_a, oracle_price_from_a_and_b")])
p("I01","An owner's index lists exactly their open accounts",
"The index of an owner's accounts contains each created and not closed account exactly once, in creation order, and account numbers are never reused. Closing one account removes only that one, and the index can be closed only when empty.",
["histories","inputs"],"every sequence of creating and closing accounts",
"Tests create a few accounts.",
["state/open_orders_indexer.rs","instructions/create_open_orders_account.rs","instructions/close_open_orders_account.rs","instructions/close_open_orders_indexer.rs"],
[("index","instructions/create_open_orders_account.rs, instructions/close_open_orders_account.rs")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
