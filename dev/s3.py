PRE = 'use crate::msg::*;\nuse cosmwasm_std::*;\n'
S = {
'head-cancel-unrecorded': dict(prop='N03', needs='an order cancelled at the head of a tick with nothing else on it, then a fresh order there, and a swap',
  breaks='the cancellation of the only order on a fresh tick is not recorded, so the fills of later orders never reach them',
  edits=[('order.rs', '''    // Insert new node
    tree.insert(deps.storage, &mut new_node)?;''', '''    // Nothing queues behind the only order of a fresh tick
    if curr_tick_values.cumulative_total_value > quant_dec256 {
        tree.insert(deps.storage, &mut new_node)?;
    }''')],
  demo='''
#[test]
fn later_order_is_claimable() {
    let mut c = Chain::new();
    c.place("maker", 0, ASK, 10, None).unwrap();
    c.cancel("maker", 0, 0).unwrap();
    c.place("other", 0, ASK, 10, None).unwrap();
    c.buy("taker", 10).unwrap();
    let r = c.claim("other", 0, 1).unwrap();
    assert_eq!(pays(&c, &r), vec![("other".to_string(), QUOTE.to_string(), 10)]);
}
'''),
'prices-past-decade-19': dict(prop='M02', needs='a tick beyond the nineteenth price decade',
  breaks='ticks beyond 10^19 get the price of a lower decade',
  edits=[('tick_math.rs', 'let geometric_component = pow_ten(geometric_exponent_delta as i32)?;', 'let geometric_component = pow_ten((geometric_exponent_delta as i32).min(19))?;')],
  demo='''
#[test]
fn price_of_decade_twenty() {
    let mut c = Chain::new();
    c.place("maker", 180_000_000, ASK, 1, None).unwrap();
    let r: SpotPriceResponse = c.ask(QueryMsg::SpotPrice { quote_asset_denom: BASE.into(), base_asset_denom: QUOTE.into() });
    let s: SpotPriceResponse = c.ask(QueryMsg::SpotPrice { quote_asset_denom: QUOTE.into(), base_asset_denom: BASE.into() });
    let _ = (r, s);
    assert_eq!(crate::tick_math::tick_to_price(180_000_000).unwrap(), Decimal256::from_ratio(100_000_000_000_000_000_000u128, 1u128));
}
'''),
'right-walk-plain-target': dict(prop='T04', needs='several cancellations in a row whose realisation carries the queue into a deeper node',
  breaks='the lookup forgets what the left child realised when it walks right, so consecutive cancellations are under-counted',
  edits=[('sumtree/tree.rs', 'return prefix_sum_walk(storage, &right_child, current_sum, new_etas, prev_sum);', 'return prefix_sum_walk(storage, &right_child, current_sum, target_etas.max(right_child.get_min_range()), prev_sum);')],
  demo='''
#[test]
fn consecutive_cancellations_count() {
    let mut c = Chain::new();
    for _ in 0..6 { c.place("maker", 0, ASK, 10, None).unwrap(); }
    c.place("other", 0, ASK, 10, None).unwrap();
    for i in 0..6 { c.cancel("maker", 0, i).unwrap(); }
    c.buy("taker", 10).unwrap();
    let r = c.claim("other", 0, 6).unwrap();
    assert_eq!(pays(&c, &r), vec![("other".to_string(), QUOTE.to_string(), 10)]);
}
'''),
'spot-price-floor': dict(prop='Q05', needs='a best bid below twice the least supported price',
  breaks='the spot price of the lowest bids is reported too high',
  edits=[('query.rs', '    let price = tick_to_price(next_tick)?;\n', '    let price = tick_to_price(next_tick)?.max(Decimal256::from_ratio(1u128, 1_000_000_000_000u128).checked_add(Decimal256::from_ratio(1u128, 1_000_000_000_000u128))?);\n')],
  demo='''
#[test]
fn lowest_price() {
    let mut c = Chain::new();
    c.place("maker", crate::constants::MIN_TICK, BID, 1, None).unwrap();
    let r: SpotPriceResponse = c.ask(QueryMsg::SpotPrice { quote_asset_denom: QUOTE.into(), base_asset_denom: BASE.into() });
    assert_eq!(r.spot_price, Decimal::from_ratio(1u128, 1_000_000_000_000u128));
}
'''),
'tick-page-capped': dict(prop='Q04', needs='a request for more than a hundred ticks at once',
  breaks='a listing stops at a hundred ticks although more were asked for',
  edits=[('query.rs', '            .take(limit)\n', '            .take(limit.min(100))\n')],
  demo='''
#[test]
fn all_asked_for() {
    let mut c = Chain::new();
    for i in 0..120 { c.place("maker", i, ASK, 1, None).unwrap(); }
    let r: TicksResponse = c.ask(QueryMsg::AllTicks { start_from: None, end_at: None, limit: Some(110) });
    assert_eq!(r.ticks.len(), 110);
}
'''),
'owner-page-byte': dict(prop='Q04', needs='a page of more than 255 orders',
  breaks='the page size of an owner listing is taken modulo 256',
  edits=[('state.rs', 'page_size.unwrap_or(DEFAULT_PAGE_SIZE) as usize', 'page_size.unwrap_or(DEFAULT_PAGE_SIZE) as u8 as usize')],
  demo='''
#[test]
fn big_page() {
    let mut c = Chain::new();
    for i in 0..3 { c.place("maker", i, ASK, 1, None).unwrap(); }
    let r: OrdersResponse = c.ask(QueryMsg::OrdersByOwner { owner: Addr::unchecked("maker"), start_from: None, end_at: None, limit: Some(257) });
    assert_eq!(r.orders.len(), 3);
}
'''),
'admin-any-case': dict(prop='U01', needs='a sender whose address differs from the admin in letter case only',
  breaks='an address that is not the admin passes the admin check',
  edits=[('auth.rs', '''        admin == Some(sender.clone()),
        ContractError::Unauthorized {}
    );

    Ok(())
}

/// Validates that the provided address is either''', '''        admin.map_or(false, |admin| admin.as_str().eq_ignore_ascii_case(sender.as_str())),
        ContractError::Unauthorized {}
    );

    Ok(())
}

/// Validates that the provided address is either''')],
  demo='''
#[test]
fn only_the_admin() {
    let mut c = Chain::new();
    assert!(c.auth(&ADMIN.to_uppercase(), AuthExecuteMsg::SetMakerFee { fee: Decimal256::percent(1) }).is_err());
    c.auth(ADMIN, AuthExecuteMsg::SetMakerFee { fee: Decimal256::percent(1) }).unwrap();
}
'''),
'sync-stops-at-first': dict(prop='A03', needs='a tick with bids and asks, where only the asks were traded and cancelled',
  breaks='a sync stops when the first side is up to date, so the other side is never synced',
  edits=[('tick.rs', '''        if tick_value.last_tick_sync_etas == target_etas {
            continue;''', '''        if tick_value.last_tick_sync_etas == target_etas {
            break;''')],
  demo='''
#[test]
fn other_side_is_synced() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 10, None).unwrap();
    c.place("b", 0, ASK, 10, None).unwrap();
    c.cancel("a", 0, 0).unwrap();
    c.buy("taker", 10).unwrap();
    let r = c.claim("b", 0, 1).unwrap();
    assert_eq!(pays(&c, &r), vec![("b".to_string(), QUOTE.to_string(), 10)]);
}
'''),
'base-without-supply': dict(prop='I01', needs='a base denom nobody holds',
  breaks='a book can be created for a base denom without supply',
  edits=[('orderbook.rs', 'maybe_supply.is_ok() && !maybe_supply.unwrap().amount.is_zero()', 'maybe_supply.is_ok() && !(maybe_supply.unwrap().amount.is_zero() && denom == quote_denom)')],
  demo='''
#[test]
fn both_denoms_exist() {
    let mut c = Chain::new();
    let e = cosmwasm_std::testing::mock_env();
    let r = crate::contract::instantiate(c.deps.as_mut(), e, cosmwasm_std::testing::mock_info("creator", &[]), InstantiateMsg { quote_denom: QUOTE.into(), base_denom: "nothing".into() });
    assert!(r.is_err());
}
'''),
'cancels-hidden-after-sync': dict(prop='Q08', needs='a cancellation made right after a sync at the queue head',
  breaks='unrealised cancellations are not reported until the next trade',
  edits=[('query.rs', '        let unrealized_cancels = if maybe_root_node.is_ok() {', '        let unrealized_cancels = if maybe_root_node.is_ok()\n            && tick_values.effective_total_amount_swapped != tick_values.last_tick_sync_etas\n        {')],
  demo='''
#[test]
fn reported_at_once() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 10, None).unwrap();
    c.place("b", 0, ASK, 10, None).unwrap();
    c.cancel("a", 0, 0).unwrap();
    let r: GetUnrealizedCancelsResponse = c.ask(QueryMsg::GetUnrealizedCancels { tick_ids: vec![0] });
    assert_eq!(r.ticks[0].unrealized_cancels.ask_unrealized_cancels, Decimal256::percent(1000));
}
'''),
'claim-drops-last-unit': dict(prop='K01', needs='a claim that leaves a single unit of the order unfilled',
  breaks='an order with one unit left is removed and the unit is lost',
  edits=[('order.rs', '''    if order.quantity.is_zero() {
        orders().remove(''', '''    if order.quantity <= Uint128::one() {
        orders().remove(''')],
  demo='''
#[test]
fn last_unit_stays() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 10, None).unwrap();
    c.buy("taker", 9).unwrap();
    c.claim("a", 0, 0).unwrap();
    c.buy("taker", 1).unwrap();
    let r = c.claim("a", 0, 0).unwrap();
    assert_eq!(pays(&c, &r), vec![("a".to_string(), QUOTE.to_string(), 1)]);
}
'''),
'batch-one-per-tick': dict(prop='K04', needs='a batch claim with two orders of one tick next to each other',
  breaks='of neighbouring orders on one tick only the first is claimed',
  edits=[('order.rs', '    for (tick_id, order_id) in orders {\n', '    let mut orders = orders;\n    orders.dedup_by_key(|order| order.0);\n    for (tick_id, order_id) in orders {\n')],
  demo='''
#[test]
fn both_are_claimed() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 10, None).unwrap();
    c.place("b", 0, ASK, 10, None).unwrap();
    c.buy("taker", 20).unwrap();
    let r = c.batch("x", vec![(0, 0), (0, 1)]).unwrap();
    assert_eq!(pays(&c, &r).len(), 2);
}
'''),
'swap-fifty-ticks': dict(prop='S04', needs='a swap that needs more than fifty ticks',
  breaks='a swap to a tick stops after fifty ticks although better prices than its bound are left',
  edits=[('order.rs', '        let current_tick_id = maybe_current_tick?;\n', '        let current_tick_id = maybe_current_tick?;\n        if tick_updates.len() >= 50 {\n            break;\n        }\n')],
  demo='''
#[test]
fn uses_all_ticks() {
    let mut c = Chain::new();
    for i in 0..60 { c.place("m", i, ASK, 10, None).unwrap(); }
    c.buy("taker", 600).unwrap();
}
'''),
'no-self-bounty': dict(prop='K02', needs='an owner with a claim bounty who claims his order himself',
  breaks='no bounty is paid to an owner who claims his own order',
  edits=[('order.rs', '    if let Some(claim_bounty) = order.claim_bounty {\n        // Skip', '    if let Some(claim_bounty) = order\n        .claim_bounty\n        .filter(|_| sender != order.owner || order.quantity > order.placed_quantity)\n    {\n        // Skip')],
  demo='''
#[test]
fn owner_gets_the_bounty_too() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 1000, Some(Decimal256::percent(1))).unwrap();
    c.buy("taker", 1000).unwrap();
    let r = c.claim("a", 0, 0).unwrap();
    assert_eq!(super::kit::attr(&r, "amount_claimed"), "990");
}
'''),
'fee-recipient-claims-free': dict(prop='K02', needs='the fee recipient claims an order of someone else',
  breaks='the maker fee goes to the owner when the fee recipient claims',
  edits=[('order.rs', '            to_address: maker_fee_recipient.to_string(),', '            to_address: if maker_fee_recipient == sender {\n                order.owner.to_string()\n            } else {\n                maker_fee_recipient.to_string()\n            },')],
  demo='''
#[test]
fn recipient_gets_the_fee() {
    let mut c = Chain::new();
    c.auth(ADMIN, AuthExecuteMsg::SetMakerFee { fee: Decimal256::percent(5) }).unwrap();
    c.auth(ADMIN, AuthExecuteMsg::SetMakerFeeRecipient { recipient: Addr::unchecked("fees") }).unwrap();
    c.place("a", 0, ASK, 1000, None).unwrap();
    c.buy("taker", 1000).unwrap();
    c.claim("fees", 0, 0).unwrap();
    assert_eq!(c.balance("fees", QUOTE), 50);
}
'''),
'order-ids-wrap': dict(prop='P05', needs='more than four billion orders over the life of the book',
  breaks='order ids start over after 2^32 orders, overwriting live orders',
  edits=[('state.rs', 'ORDER_ID.save(storage, &(id + 1))?;', 'ORDER_ID.save(storage, &(id.wrapping_add(1) & (u32::MAX as u64)))?;')],
  demo='''
#[test]
fn ids_do_not_start_over() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 10, None).unwrap();
    c.deps.storage.set(b"order_id", b"4294967295");
    c.place("b", 0, ASK, 10, None).unwrap();
    c.place("c", 0, ASK, 10, None).unwrap();
    let r: OrdersResponse = c.ask(QueryMsg::OrdersByTick { tick_id: 0, start_from: None, end_at: None, limit: None });
    assert_eq!(r.orders.len(), 3);
}
'''),
'extra-coins-kept': dict(prop='P01', needs='a placement sent with a second coin attached',
  breaks='coins of other denoms sent along with a placement are kept',
  edits=[('order.rs', 'let received = must_pay(&info, &expected_denom)?;', 'let received = must_pay(\n        &MessageInfo {\n            funds: info\n                .funds\n                .iter()\n                .filter(|c| c.denom == expected_denom || info.funds.len() == 1)\n                .cloned()\n                .collect(),\n            ..info.clone()\n        },\n        &expected_denom,\n    )?;')],
  demo='''
#[test]
fn one_coin_only() {
    let mut c = Chain::new();
    assert!(c.exec("m", &[coin(10, BASE), coin(3, "other")], ExecuteMsg::PlaceLimit { tick_id: 0, order_direction: ASK, quantity: Uint128::new(10), claim_bounty: None }).is_err());
}
'''),
'empty-tick-starts-early': dict(prop='P04', needs='a placement on a tick emptied by cancellations the queue has not reached',
  breaks='an order placed on an emptied tick starts before the cancelled amounts queued there',
  edits=[('order.rs', '''        quantity,
        tick_values.cumulative_total_value,
        claim_bounty''', '''        quantity,
        if tick_values.total_amount_of_liquidity.is_zero() {
            tick_values.effective_total_amount_swapped
        } else {
            tick_values.cumulative_total_value
        },
        claim_bounty''')],
  demo='''
#[test]
fn queue_position_counts_cancels() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 10, None).unwrap();
    c.cancel("a", 0, 0).unwrap();
    c.place("b", 0, ASK, 10, None).unwrap();
    c.place("d", 0, ASK, 10, None).unwrap();
    let r: OrdersResponse = c.ask(QueryMsg::OrdersByTick { tick_id: 0, start_from: None, end_at: None, limit: None });
    assert_eq!(r.orders[0].etas, Decimal256::percent(1000));
}
'''),
'first-moderator-becomes-admin': dict(prop='U03', needs='a moderator offer taken up after the admin was removed',
  breaks='a moderator becomes admin without an offer when there is no admin',
  edits=[('auth.rs', '''    update_moderator(deps.storage, deps.api, info.sender)?;
    remove_moderator_offer(deps.storage)?;''', '''    update_moderator(deps.storage, deps.api, info.sender.clone())?;
    remove_moderator_offer(deps.storage)?;
    if get_admin(deps.storage)?.is_none() {
        update_admin(deps.storage, deps.api, info.sender)?;
    }''')],
  demo='''
#[test]
fn moderator_stays_moderator() {
    let mut c = Chain::new();
    c.auth(ADMIN, AuthExecuteMsg::OfferModerator { new_moderator: Addr::unchecked("mod") }).unwrap();
    c.gov(SudoMsg::RemoveAdmin {}).unwrap();
    c.auth("mod", AuthExecuteMsg::ClaimModerator {}).unwrap();
    assert_eq!(c.role(AuthQueryMsg::Admin {}), None);
}
'''),
'missing-order-names-tick': dict(prop='R01', needs='a claim of an order that does not exist on a tick that does',
  breaks='a claim of a missing order is refused as an invalid tick',
  edits=[('order.rs', '''        .may_load(storage, &key)?
        .ok_or(ContractError::OrderNotFound { tick_id, order_id })?;''', '''        .may_load(storage, &key)?
        .ok_or(ContractError::OrderNotFound {
            tick_id,
            order_id: key.1.min(u32::MAX as u64),
        })?;''')],
  demo='''
#[test]
fn names_the_order() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 10, None).unwrap();
    let e = c.claim("a", 0, 5_000_000_000).unwrap_err();
    assert!(e.contains("5000000000"), "{e}");
}
'''),
'mod-offer-reports-sender': dict(prop='E02', needs='the response of a moderator offer',
  breaks='the event of a moderator offer names the admin instead of the new moderator',
  edits=[('auth.rs', '("new_moderator", new_mod.as_str()),', '("new_moderator", info.sender.as_str()),')],
  demo='''
#[test]
fn names_the_moderator() {
    let mut c = Chain::new();
    let r = c.auth(ADMIN, AuthExecuteMsg::OfferModerator { new_moderator: Addr::unchecked("mod") }).unwrap();
    assert_eq!(super::kit::attr(&r, "new_moderator"), "mod");
}
'''),
'unrealized-unwrap': dict(prop='F03', needs='a query for unrealised cancellations on a traded tick without cancellations',
  breaks='the query aborts instead of answering',
  edits=[('query.rs', '        let unrealized_cancels = if maybe_root_node.is_ok() {', '        let unrealized_cancels = if maybe_root_node.is_ok()\n            || tick_values.last_tick_sync_etas > Decimal256::zero()\n        {')],
  demo='''
#[test]
fn answers() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 10, None).unwrap();
    c.buy("taker", 5).unwrap();
    c.claim("a", 0, 0).unwrap();
    let r: GetUnrealizedCancelsResponse = c.ask(QueryMsg::GetUnrealizedCancels { tick_ids: vec![0] });
    assert_eq!(r.ticks.len(), 1);
}
'''),
'quote-near-book-only': dict(prop='Q02', needs='a quote for a sale that reaches far below the best bid',
  breaks='a quote ignores bids far below the best one although the swap uses them',
  edits=[('query.rs', '        order::run_market_order_internal(deps.storage, &mut mock_order, tick_bound)?;', '        order::run_market_order_internal(\n            deps.storage,\n            &mut mock_order,\n            match direction {\n                OrderDirection::Bid => tick_bound,\n                OrderDirection::Ask => tick_bound.max(orderbook.next_bid_tick - 90_000_000),\n            },\n        )?;')],
  demo='''
#[test]
fn quote_equals_swap() {
    let mut c = Chain::new();
    c.place("m", 0, BID, 10, None).unwrap();
    c.place("m", -99_000_000, BID, 10, None).unwrap();
    let q: CalcOutAmtGivenInResponse = c.ask(QueryMsg::CalcOutAmountGivenIn { token_in: coin(1_000_000_000_000, BASE), token_out_denom: QUOTE.into(), swap_fee: Decimal::zero() });
    let r = c.sell("taker", 1_000_000_000_000).unwrap();
    assert_eq!(q.token_out.amount, pays(&c, &r)[0].2.to_string());
}
'''),
'fully-claimed-early': dict(prop='E01', needs='a claim that leaves less than a hundredth of the order',
  breaks='the event of a claim says fully claimed while a rest of the order is still on the book',
  edits=[('order.rs', '("fully_claimed", &order.quantity.is_zero().to_string()),', '("fully_claimed", &(order.quantity < order.placed_quantity.multiply_ratio(1u128, 100u128).max(Uint128::one())).to_string()),')],
  demo='''
#[test]
fn not_yet() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 1000, None).unwrap();
    c.buy("taker", 995).unwrap();
    let r = c.claim("a", 0, 0).unwrap();
    assert_eq!(super::kit::attr(&r, "fully_claimed"), "false");
}
'''),
'last-unit-of-input': dict(prop='S05', needs='a swap whose last unit of input finds no counterpart',
  breaks='a swap that leaves one usable unit of input is accepted instead of refused',
  edits=[('order.rs', 'remaining_balance.is_zero() || partial_market_order', 'remaining_balance.is_zero()\n            || partial_market_order\n            || (!total_output.is_zero() && remaining_balance == Uint256::one())')],
  demo='''
#[test]
fn refused() {
    let mut c = Chain::new();
    c.place("m", 0, ASK, 10, None).unwrap();
    assert!(c.buy("taker", 11).is_err());
}
'''),
'full-tick-rounds-down': dict(prop='S02', needs='a swap that takes a whole tick at a price that does not divide it',
  breaks='a swap that takes a whole tick pays the price rounded down',
  edits=[('order.rs', '''            tick_price,
            RoundingDirection::Up,
        )?;''', '''            tick_price,
            if current_tick_values.total_amount_of_liquidity.is_zero() {
                RoundingDirection::Down
            } else {
                RoundingDirection::Up
            },
        )?;''')],
  demo='''
#[test]
fn book_gets_the_price() {
    let mut c = Chain::new();
    c.place("m", HALF, ASK, 3, None).unwrap();
    c.place("m", TWO, ASK, 3, None).unwrap();
    let r = c.buy("taker", 4).unwrap();
    // 3 at 0.5 cost 2; the other 2 buy 1 at 2
    assert_eq!(pays(&c, &r)[0].2, 4);
}
'''),
'admin-may-cancel': dict(prop='N01', needs='a cancel by the admin of an order of someone else',
  breaks='the admin can cancel the orders of others',
  edits=[('order.rs', 'ensure_eq!(info.sender, order.owner, ContractError::Unauthorized {});', 'ensure!(\n        info.sender == order.owner\n            || crate::auth::get_admin(deps.storage)?.as_ref() == Some(&info.sender),\n        ContractError::Unauthorized {}\n    );')],
  demo='''
#[test]
fn owner_only() {
    let mut c = Chain::new();
    c.place("m", 0, ASK, 3, None).unwrap();
    assert!(c.cancel(ADMIN, 0, 0).is_err());
}
'''),
'refund-placed': dict(prop='N02', needs='a cancel of an order that was partly filled and claimed',
  breaks='a cancel refunds what was placed instead of what is left',
  edits=[('order.rs', 'amount: vec![coin(order.quantity.u128(), expected_denom.clone())],', 'amount: vec![coin(order.placed_quantity.u128(), expected_denom.clone())],')],
  demo='''
#[test]
fn the_rest_only() {
    let mut c = Chain::new();
    c.place("m", 0, ASK, 10, None).unwrap();
    c.buy("taker", 4).unwrap();
    c.claim("m", 0, 0).unwrap();
    let r = c.cancel("m", 0, 0).unwrap();
    assert_eq!(pays(&c, &r)[0].2, 6);
}
'''),
'partial-swap-keeps-total': dict(prop='A01', needs='a swap to a tick that does not use up its input',
  breaks='the total liquidity is not reduced by swaps that leave input over',
  edits=[('order.rs', '''        Decimal256::from_ratio(output.amount, Uint256::one()),
    )?;

    // Update tick pointers''', '''        if order.quantity.is_zero() {
            Decimal256::from_ratio(output.amount, Uint256::one())
        } else {
            Decimal256::from_ratio(output.amount, Uint256::one()).min(Decimal256::zero())
        },
    )?;

    // Update tick pointers''')],
  demo='''
#[test]
fn total_follows() {
    let mut c = Chain::new();
    c.place("m", 0, ASK, 10, None).unwrap();
    c.place("m", TWO, ASK, 10, None).unwrap();
    c.swap("taker", (30, QUOTE), BASE, 0, Some(0)).unwrap();
    let r: GetTotalPoolLiquidityResponse = c.ask(QueryMsg::GetTotalPoolLiquidity {});
    assert_eq!(r.total_pool_liquidity[0].amount.u128(), 10);
}
'''),
'bounty-above-fee': dict(prop='K03', needs='a claim of an order whose bounty is larger than the maker fee',
  breaks='bounty, fee and payment together exceed the value when the bounty is the larger one',
  edits=[('order.rs', '            amount = amount.checked_sub(maker_fee_amount)?;', '            amount = if sender == order.owner {\n                raw_amount.checked_sub(maker_fee_amount)?\n            } else {\n                amount.checked_sub(maker_fee_amount)?\n            };')],
  demo='''
#[test]
fn not_more_than_the_value() {
    let mut c = Chain::new();
    c.auth(ADMIN, AuthExecuteMsg::SetMakerFee { fee: Decimal256::permille(5) }).unwrap();
    c.place("m", 0, ASK, 1000, Some(Decimal256::percent(1))).unwrap();
    c.buy("taker", 1000).unwrap();
    let r = c.claim("m", 0, 0).unwrap();
    assert_eq!(pays(&c, &r).iter().map(|p| p.2).sum::<i128>(), 1000);
}
'''),
'listing-field-renamed': dict(prop='I04', needs='a query sent as JSON',
  breaks='the first key of an owner listing is read from another field, so the stated one is ignored or refused',
  edits=[('msg.rs', '        // For indexed based pagination (tick_id, order_id), exclusive\n        start_from: Option<(i64, u64)>,', '        // For indexed based pagination (tick_id, order_id), exclusive\n        #[serde(rename = "start_after")]\n        start_from: Option<(i64, u64)>,')],
  demo='''
#[test]
fn json_is_read() {
    let m: Result<QueryMsg, _> = from_json(br#"{"orders_by_owner":{"owner":"abc","start_from":[1,2],"end_at":null,"limit":3}}"#);
    assert!(m.is_ok());
}
'''),
'migrate-reactivates': dict(prop='I02', needs='a migration of a paused book',
  breaks='a migration resumes a paused book',
  edits=[('contract.rs', 'pub fn migrate(_deps: DepsMut, _env: Env, _msg: MigrateMsg) -> Result<Response, ContractError> {\n', 'pub fn migrate(_deps: DepsMut, _env: Env, _msg: MigrateMsg) -> Result<Response, ContractError> {\n    crate::state::IS_ACTIVE.remove(_deps.storage);\n')],
  demo='''
#[test]
fn stays_paused() {
    let mut c = Chain::new();
    c.auth(ADMIN, AuthExecuteMsg::SetActive { active: false }).unwrap();
    let _ = crate::contract::migrate(c.deps.as_mut(), cosmwasm_std::testing::mock_env(), MigrateMsg {});
    assert!(!c.ask::<bool>(QueryMsg::IsActive {}));
}
'''),
'maker-fee-key': dict(prop='I03', needs='a migration of a book with a maker fee to the changed code',
  breaks='the maker fee is stored under another key, so a migrated book loses its fee',
  edits=[('state.rs', '"maker_fee");', '"maker_fees");')],
  demo='''
#[test]
fn fee_stays_where_it_was() {
    let mut c = Chain::new();
    c.auth(ADMIN, AuthExecuteMsg::SetMakerFee { fee: Decimal256::percent(1) }).unwrap();
    assert_eq!(c.deps.storage.get(b"maker_fee"), Some(b"\\"0.01\\"".to_vec()));
}
'''),
'fee-cap-inclusive-bps': dict(prop='U07', needs='a maker fee between five and five point zero one percent',
  breaks='a fee above five percent is accepted',
  edits=[('orderbook.rs', '        maker_fee <= MAX_MAKER_FEE_PERCENTAGE,', '        (maker_fee * Decimal256::from_ratio(10_000u128, 1u128)).floor()\n            <= MAX_MAKER_FEE_PERCENTAGE * Decimal256::from_ratio(10_000u128, 1u128),')],
  demo='''
#[test]
fn five_percent_at_most() {
    let mut c = Chain::new();
    assert!(c.auth(ADMIN, AuthExecuteMsg::SetMakerFee { fee: Decimal256::from_ratio(50_009u128, 1_000_000u128) }).is_err());
}
'''),
'moderator-offer-unchecked': dict(prop='U08', needs='a moderator offer to something that is no address',
  breaks='a moderator offer to an invalid address is accepted',
  edits=[('auth.rs', '''    api.addr_validate(new_mod.as_str())?;
    MODERATOR_OFFER''', '''    api.addr_canonicalize(new_mod.as_str()).ok();
    MODERATOR_OFFER''')],
  demo='''
#[test]
fn addresses_only() {
    let mut c = Chain::new();
    assert!(c.auth(ADMIN, AuthExecuteMsg::OfferModerator { new_moderator: Addr::unchecked("A!") }).is_err());
}
'''),
'bounty-orders-first': dict(prop='H01', needs='an order with a bounty behind others on its tick',
  breaks='orders with a bounty count as filled before the orders in front of them',
  edits=[('order.rs', '''        quantity,
        tick_values.cumulative_total_value,
        claim_bounty''', '''        quantity,
        claim_bounty.map_or(tick_values.cumulative_total_value, |_| {
            tick_values.effective_total_amount_swapped
        }),
        claim_bounty''')],
  demo='''
#[test]
fn in_order() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 10, None).unwrap();
    c.place("b", 0, ASK, 10, Some(Decimal256::permille(1))).unwrap();
    c.buy("taker", 10).unwrap();
    assert!(c.claim("b", 0, 1).is_err());
}
'''),
}
