PRE = 'use crate::msg::*;\nuse cosmwasm_std::*;\n'
S = {
'batch-stops-at-failure': dict(prop='K04', needs='a batch claim in which an order that cannot be claimed precedes one that can',
  breaks='claimable orders listed after a failing one are not claimed', 
  edits=[('order.rs', '''                // to be processed.
                continue;''', '''                // to be processed.
                break;''')],
  demo='''
#[test]
fn later_orders_are_claimed() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 10, None).unwrap();
    c.buy("taker", 10).unwrap();
    let r = c.batch("x", vec![(0, 7), (0, 0)]).unwrap();
    assert_eq!(pays(&c, &r), vec![("a".to_string(), QUOTE.to_string(), 10)]);
}
'''),
'crossed-bid-pointer': dict(prop='A06', needs='a bid placed above the best ask',
  breaks='the best-bid pointer does not follow a bid that crosses the asks, so sellers never reach it',
  edits=[('order.rs', 'if tick_id > orderbook.next_bid_tick {', 'if tick_id > orderbook.next_bid_tick && tick_id <= orderbook.next_ask_tick {')],
  demo='''
#[test]
fn best_bid_is_reached() {
    let mut c = Chain::new();
    c.place("a", HALF, ASK, 10, None).unwrap();
    c.place("b", 0, BID, 10, None).unwrap();
    let r = c.sell("taker", 5).unwrap();
    assert_eq!(pays(&c, &r)[0], ("taker".to_string(), QUOTE.to_string(), 5));
}
'''),
'min-output-skipped-to-tick': dict(prop='S01', needs='a swap to a chosen tick that yields less than the requested minimum',
  breaks='the requested minimum is not enforced on swaps to a tick',
  edits=[('sudo.rs', 'Uint256::from_uint128(token_out_min_amount),\n        &coin_u256', '''// What a swap to a tick does not use is refunded
        target_tick.map_or(Uint256::from_uint128(token_out_min_amount), |_| {
            output.min(Uint256::from_uint128(token_out_min_amount))
        }),
        &coin_u256''')],
  demo='''
#[test]
fn minimum_holds_for_partial_swaps() {
    let mut c = Chain::new();
    c.place("m", 0, ASK, 10, None).unwrap();
    c.place("m", TWO, ASK, 100, None).unwrap();
    assert!(c.swap("taker", (50, QUOTE), BASE, 20, Some(0)).is_err());
}
'''),
'claim-takes-funds': dict(prop='K04', needs='a claim sent with coins attached',
  breaks='coins sent along with a batch claim are kept by the contract',
  edits=[('order.rs', '''    orders: Vec<(i64, u64)>,
) -> Result<Response, ContractError> {
    nonpayable(&info)?;
''', '''    orders: Vec<(i64, u64)>,
) -> Result<Response, ContractError> {
    if orders.is_empty() {
        nonpayable(&info)?;
    }
''')],
  demo='''
#[test]
fn no_coins_with_a_claim() {
    let mut c = Chain::new();
    c.place("m", 0, ASK, 10, None).unwrap();
    c.buy("taker", 10).unwrap();
    assert!(c.exec("x", &[coin(7, QUOTE)], ExecuteMsg::BatchClaim { orders: vec![(0, 0)] }).is_err());
}
'''),
'paused-cancel': dict(prop='U06', needs='a cancel while the book is paused',
  breaks='orders can be cancelled while the book is paused',
  edits=[('contract.rs', 'if !matches!(msg, ExecuteMsg::Auth(_)) {', 'if !matches!(msg, ExecuteMsg::Auth(_) | ExecuteMsg::BatchClaim { .. }) {')],
  demo='''
#[test]
fn paused_means_paused() {
    let mut c = Chain::new();
    c.place("m", 0, ASK, 10, None).unwrap();
    c.buy("taker", 10).unwrap();
    c.auth(ADMIN, AuthExecuteMsg::SetActive { active: false }).unwrap();
    assert!(c.batch("m", vec![(0, 0)]).is_err());
}
'''),
'refund-current-denom': dict(prop='S03', needs='a swap to a tick that leaves input over, with bids on the book',
  breaks='the unused input of a partial sale is not returned when the swap produced output',
  edits=[('sudo.rs', '    if !order.quantity.is_zero() {', '    if !order.quantity.is_zero()\n        && (order_direction == OrderDirection::Bid || output.is_zero() || tick_bound == MIN_TICK)\n    {')],
  demo='''
#[test]
fn partial_sale_refunds() {
    let mut c = Chain::new();
    c.place("m", 0, BID, 10, None).unwrap();
    c.place("m", HALF, BID, 10, None).unwrap();
    c.swap("taker", (50, BASE), QUOTE, 0, Some(-10)).unwrap();
    assert_eq!(c.balance("taker", BASE), -10);
}
'''),
'fee-rounded-up': dict(prop='K02', needs='a maker fee that is not a whole number of tokens',
  breaks='the maker fee is rounded up instead of down',
  edits=[('order.rs', '''                .checked_mul(maker_fee)?
                .to_uint_floor();''', '''                .checked_mul(maker_fee)?
                .to_uint_ceil();''')],
  demo='''
#[test]
fn fee_rounds_down() {
    let mut c = Chain::new();
    c.auth(ADMIN, AuthExecuteMsg::SetMakerFee { fee: Decimal256::percent(1) }).unwrap();
    c.place("maker", 0, ASK, 50, None).unwrap();
    c.buy("taker", 50).unwrap();
    let r = c.claim("maker", 0, 0).unwrap();
    assert_eq!(pays(&c, &r), vec![("maker".to_string(), QUOTE.to_string(), 50)]);
}
'''),
'fee-recipient-unvalidated': dict(prop='U08', needs='an admin who sets a fee recipient that is not a valid address',
  breaks='fees can be directed to an invalid address, which makes every claim fail',
  edits=[('auth.rs', '''    let addr = deps
        .api
        .addr_validate(maker_fee_recipient.as_str())
        .map_err(|_| ContractError::InvalidMakerFeeRecipient)?;
    MAKER_FEE''', '''    let addr = deps
        .api
        .addr_validate(maker_fee_recipient.as_str())
        .unwrap_or(maker_fee_recipient);
    MAKER_FEE''')],
  demo='''
#[test]
fn recipient_is_valid() {
    let mut c = Chain::new();
    assert!(c.auth(ADMIN, AuthExecuteMsg::SetMakerFeeRecipient { recipient: Addr::unchecked("x") }).is_err());
}
'''),
'fee-zero-output-claim': dict(prop='K01', needs='a partial claim of an order whose filled part is worth nothing at its price',
  breaks='a claim of dust removes the whole order instead of the filled part',
  edits=[('order.rs', '''    if order.quantity.is_zero() {
        orders().remove(storage, &key)?;''', '''    if order.quantity.is_zero() || raw_amount.is_zero() {
        orders().remove(storage, &key)?;''')],
  demo='''
#[test]
fn the_rest_of_the_order_survives() {
    let mut c = Chain::new();
    c.place("other", HALF, ASK, 1, None).unwrap();
    c.place("maker", HALF, ASK, 100, None).unwrap();
    // one quote buys two base, one of each order; a single base is worth no quote
    c.swap("taker", (1, QUOTE), BASE, 0, None).unwrap();
    let _ = c.claim("maker", HALF, 1);
    let o: OrdersResponse = c.ask(QueryMsg::OrdersByTick { tick_id: HALF, start_from: None, end_at: None, limit: None });
    assert!(o.orders.iter().any(|x| x.order_id == 1));
}
'''),
'claim-event-placed': dict(prop='E01', needs='a partial claim', breaks='the claim event reports the remaining quantity as the placed one',
  edits=[('order.rs', '("placed_quantity", &order.placed_quantity.to_string()),', '("placed_quantity", &order.placed_quantity.min(order.quantity).to_string()),')],
  demo='''
#[test]
fn event_tells_the_placed_quantity() {
    let mut c = Chain::new();
    c.place("maker", 0, ASK, 100, None).unwrap();
    c.buy("taker", 40).unwrap();
    let r = c.claim("maker", 0, 0).unwrap();
    assert_eq!(super::kit::attr(&r, "placed_quantity"), "100");
}
'''),
'ticks-end-exclusive': dict(prop='Q04', needs='a tick listing that ends exactly at a tick, with a limit', breaks='a page that ends at a tick leaves that tick out',
  edits=[('query.rs', '''        start_from.map(Bound::inclusive),
        end_at.map(Bound::inclusive),
        Order::Ascending,
    );

    // Map''', '''        start_from.map(Bound::inclusive),
        end_at.map(|end| if limit.is_some() { Bound::exclusive(end) } else { Bound::inclusive(end) }),
        Order::Ascending,
    );

    // Map''')],
  demo='''
#[test]
fn the_end_is_included() {
    let mut c = Chain::new();
    for i in 1..4 { c.place("maker", i, ASK, 10, None).unwrap(); }
    let t: TicksResponse = c.ask(QueryMsg::AllTicks { start_from: Some(1), end_at: Some(3), limit: Some(10) });
    assert_eq!(t.ticks.len(), 3);
}
'''),
'quote-of-short-book': dict(prop='Q02', needs='a quote for more input than the book can take', breaks='the query quotes an output for a sale the book would refuse',
  edits=[('query.rs', '''        OrderDirection::Ask => MIN_TICK,
    };

    // Generate mock''', '''        // Nothing below the worst price can be traded
        OrderDirection::Ask => orderbook.next_bid_tick.min(MIN_TICK + 1),
    };

    // Generate mock''')],
  demo='''
#[test]
fn quote_matches_swap() {
    let mut c = Chain::new();
    c.place("maker", 0, BID, 10, None).unwrap();
    let q = c.try_ask::<CalcOutAmtGivenInResponse>(QueryMsg::CalcOutAmountGivenIn { token_in: coin(50, BASE), token_out_denom: QUOTE.into(), swap_fee: Decimal::zero() });
    let s = c.sell("taker", 50);
    assert_eq!(q.is_ok(), s.is_ok());
}
'''),
'reply-fee-ignored': dict(prop='F01', needs='a maker fee recipient that cannot receive coins', breaks='a failed fee payment is ignored: the claim succeeds and the fee stays in the contract',
  edits=[('contract.rs', '''    ensure!(
        msg.result.is_ok(),''', '''    ensure!(
        msg.result.is_ok() || msg.id == crate::types::REPLY_ID_MAKER_FEE,''')],
  demo='''
#[test]
fn a_failed_payout_fails_the_claim() {
    let mut c = Chain::new();
    c.auth(ADMIN, AuthExecuteMsg::SetMakerFee { fee: Decimal256::percent(5) }).unwrap();
    c.place("maker", 0, ASK, 100, None).unwrap();
    c.buy("taker", 100).unwrap();
    c.blocked.push(FEES.to_string());
    assert!(c.claim("maker", 0, 0).is_err());
}
'''),
'zero-liquidity-pointer': dict(prop='A06', needs='a swap to a tick that meets a tick emptied before and then runs out of input', breaks='the best-ask pointer moves to a tick nobody traded at or placed an ask on',
  edits=[('order.rs', '''        if current_tick_values.total_amount_of_liquidity.is_zero() {
            continue;
        }
''', '''        if current_tick_values.total_amount_of_liquidity.is_zero() {
            // Start behind this tick from now on
            if order.order_direction == OrderDirection::Bid && current_tick_id < tick_bound {
                orderbook.next_ask_tick = current_tick_id + 1;
            }
            continue;
        }
''')],
  demo='''
#[test]
fn pointers_stay_on_ticks() {
    let mut c = Chain::new();
    c.place("maker", 0, ASK, 10, None).unwrap();
    c.place("maker", 5, BID, 10, None).unwrap();
    c.place("maker", 10, ASK, 1000000000000, None).unwrap();
    c.buy("taker", 10).unwrap();
    let before: crate::types::Orderbook = c.ask(QueryMsg::OrderbookState {});
    assert_eq!(before.next_ask_tick, 0);
    c.place("maker", 1, BID, 10, None).unwrap();
    c.swap("taker", (5, QUOTE), BASE, 0, Some(8)).unwrap();
    let after: crate::types::Orderbook = c.ask(QueryMsg::OrderbookState {});
    assert_eq!(after.next_ask_tick, 0);
}
'''),
}
