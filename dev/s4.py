PRE = 'use crate::msg::*;\nuse cosmwasm_std::*;\n'
S = {
'mod-offer-can-pause': dict(prop='U02', needs='a pause sent by somebody whose moderator offer is still open',
  breaks='an offered moderator can pause the book before accepting',
  edits=[('auth.rs', '''    ensure_is_admin_or_moderator(deps.as_ref(), &info.sender)?;

    sudo::set_active''', '''    if get_moderator_offer(deps.storage)?.as_ref() != Some(&info.sender) {
        ensure_is_admin_or_moderator(deps.as_ref(), &info.sender)?;
    }

    sudo::set_active''')],
  demo='''
#[test]
fn not_before_accepting() {
    let mut c = Chain::new();
    c.auth(ADMIN, AuthExecuteMsg::OfferModerator { new_moderator: Addr::unchecked("mod") }).unwrap();
    assert!(c.auth("mod", AuthExecuteMsg::SetActive { active: false }).is_err());
}
'''),
'cancel-transfer-drops-mod-offer': dict(prop='U05', needs='an admin transfer cancelled while a moderator offer is open',
  breaks='cancelling an admin transfer also withdraws the moderator offer',
  edits=[('auth.rs', '''    remove_admin_transfer(deps.storage)?;

    Ok(Response::default().add_attributes(vec![("method", "cancel_transfer_admin")]))''', '''    remove_admin_transfer(deps.storage)?;
    remove_moderator_offer(deps.storage)?;

    Ok(Response::default().add_attributes(vec![("method", "cancel_transfer_admin")]))''')],
  demo='''
#[test]
fn offer_stays() {
    let mut c = Chain::new();
    c.auth(ADMIN, AuthExecuteMsg::OfferModerator { new_moderator: Addr::unchecked("mod") }).unwrap();
    c.auth(ADMIN, AuthExecuteMsg::CancelAdminTransfer {}).unwrap();
    c.auth("mod", AuthExecuteMsg::ClaimModerator {}).unwrap();
}
'''),
'bounty-paid-once': dict(prop='A05', needs='an order with a bounty that is claimed in two parts',
  breaks='a partial claim removes the claim bounty from the rest of the order',
  edits=[('order.rs', '''    } else {
        orders().save(storage, &key, &order)?;''', '''    } else {
        if !bounty.is_zero() {
            order.claim_bounty = None;
        }
        orders().save(storage, &key, &order)?;''')],
  demo='''
#[test]
fn bounty_on_each_part() {
    let mut c = Chain::new();
    c.place("m", 0, ASK, 1000, Some(Decimal256::percent(1))).unwrap();
    c.buy("taker", 500).unwrap();
    c.claim("x", 0, 0).unwrap();
    c.buy("taker", 500).unwrap();
    c.claim("x", 0, 0).unwrap();
    assert_eq!(c.balance("x", QUOTE), 10);
}
'''),
'emptied-tick-pruned': dict(prop='S07', needs='a swap that walks over more than six ticks',
  breaks='ticks passed early in a long walk are dropped, so their makers cannot claim',
  edits=[('order.rs', '''    for (tick_id, tick_state) in tick_updates {
        TICK_STATE.save''', '''    let last = tick_updates.len().saturating_sub(1);
    for (i, (tick_id, tick_state)) in tick_updates.into_iter().enumerate() {
        // Ticks that were passed by are of no further use to the walk
        if i + 5 < last {
            TICK_STATE.remove(storage, tick_id);
            continue;
        }
        TICK_STATE.save''')],
  demo='''
#[test]
fn claims_stay_possible() {
    let mut c = Chain::new();
    for i in 0..10 { c.place("m", i, ASK, 1000, None).unwrap(); }
    c.swap("taker", (20_000, QUOTE), BASE, 0, Some(9)).unwrap();
    c.claim("m", 0, 0).unwrap();
}
'''),
'queried-pointers-reset': dict(prop='Q06', needs='a query of the book state after all bids are gone',
  breaks='the reported book state is not the stored one',
  edits=[('query.rs', '''pub(crate) fn orderbook_state(deps: Deps) -> ContractResult<Orderbook> {
    let orderbook = ORDERBOOK.load(deps.storage)?;
    Ok(orderbook)''', '''pub(crate) fn orderbook_state(deps: Deps) -> ContractResult<Orderbook> {
    let mut orderbook = ORDERBOOK.load(deps.storage)?;
    if orderbook.next_bid_tick > orderbook.next_ask_tick {
        orderbook.next_bid_tick = orderbook.next_ask_tick;
    }
    Ok(orderbook)''')],
  demo='''
#[test]
fn stored_state() {
    let mut c = Chain::new();
    c.place("m", 5, BID, 10, None).unwrap();
    c.place("m", 0, ASK, 10, None).unwrap();
    let b: crate::types::Orderbook = c.ask(QueryMsg::OrderbookState {});
    assert_eq!(b.next_bid_tick, 5);
}
'''),
'fee-query-hides-tiny': dict(prop='Q07', needs='a maker fee below a hundredth of a percent',
  breaks='a tiny maker fee is reported as zero while it is charged',
  edits=[('contract.rs', 'QueryMsg::GetMakerFee {} => Ok(to_json_binary(&state::get_maker_fee(deps.storage)?)?),', 'QueryMsg::GetMakerFee {} => Ok(to_json_binary(\n            &state::get_maker_fee(deps.storage).map(|fee| {\n                if fee < cosmwasm_std::Decimal256::bps(1) {\n                    cosmwasm_std::Decimal256::zero()\n                } else {\n                    fee\n                }\n            })?,\n        )?),')],
  demo='''
#[test]
fn the_fee_charged() {
    let mut c = Chain::new();
    let fee = Decimal256::from_ratio(1u128, 100_000u128);
    c.auth(ADMIN, AuthExecuteMsg::SetMakerFee { fee }).unwrap();
    assert_eq!(c.ask::<Decimal256>(QueryMsg::GetMakerFee {}), fee);
}
'''),
'adjacent-left-leaf': dict(prop='T02', needs='a cancellation that ends exactly where the only recorded one starts',
  breaks='a cancellation just before the only recorded one is filed behind it',
  edits=[('sumtree/node.rs', '''            .map_or(false, |left| new_node.below_range(left));''', '''            .map_or(false, |left| new_node.get_max_range() < left.get_min_range());''')],
  demo='''
#[test]
fn in_order() {
    use crate::sumtree::tree::get_root_node;
    let mut c = Chain::new();
    for _ in 0..3 { c.place("m", 0, ASK, 10, None).unwrap(); }
    c.cancel("m", 0, 1).unwrap();
    c.cancel("m", 0, 0).unwrap();
    let root = get_root_node(&c.deps.storage, 0, ASK).unwrap();
    let l = root.get_left(&c.deps.storage).unwrap().unwrap();
    assert_eq!(l.get_min_range(), Decimal256::zero());
}
'''),
'node-counter-wraps': dict(prop='T06', needs='more than 65535 nodes on one tick',
  breaks='node numbers of a tick start over and overwrite live nodes',
  edits=[('sumtree/node.rs', '    counter += 1;\n', '    counter = (counter + 1) & 0xffff;\n')],
  demo='''
#[test]
fn numbers_go_on() {
    use crate::sumtree::node::{generate_node_id, NODE_ID_COUNTER};
    let mut c = Chain::new();
    NODE_ID_COUNTER.save(&mut c.deps.storage, &0, &65_535).unwrap();
    assert_eq!(generate_node_id(&mut c.deps.storage, 0).unwrap(), 65_536);
}
'''),
'huge-bounty-capped': dict(prop='F02', needs='a claim worth more than 2^128 units a hundred times over',
  breaks='a bounty that does not fit 128 bits is cut down to the largest value that does',
  edits=[('order.rs', 'bounty = bounty_amount.to_uint_floor();', 'bounty = Uint256::from_uint128(\n                Uint128::try_from(bounty_amount.to_uint_floor()).unwrap_or(Uint128::MAX),\n            );')],
  demo='''
#[test]
fn one_percent_of_any_value() {
    use cosmwasm_std::testing::{mock_env, mock_info};
    let mut c = Chain::new();
    let tick = 180_000_000i64;
    let q = 2_000_000_000_000_000_000_000_000u128;
    c.place("maker", tick, ASK, q, Some(Decimal256::percent(1))).unwrap();
    let part = 2_000_000_000_000_000_000u128;
    let input = part * 100_000_000_000_000_000_000u128;
    // the tick counts as traded without going through half a million swaps
    let mut t = crate::state::TICK_STATE.load(&c.deps.storage, tick).unwrap();
    let mut v = t.get_values(ASK);
    v.effective_total_amount_swapped = v.cumulative_total_value;
    v.total_amount_of_liquidity = Decimal256::zero();
    t.set_values(ASK, v);
    crate::state::TICK_STATE.save(&mut c.deps.storage, tick, &t).unwrap();
    let _ = input;
    let r = crate::contract::execute(c.deps.as_mut(), mock_env(), mock_info("x", &[]), ExecuteMsg::ClaimLimit { tick_id: tick, order_id: 0 }).unwrap();
    let value = Uint256::from(q) * Uint256::from(100_000_000_000_000_000_000u128);
    assert_eq!(super::kit::attr(&r, "amount_claimed"), (value - value / Uint256::from(100u128)).to_string());
}
'''),
'bounty-rounded-limit': dict(prop='P02', needs='a claim bounty just above one percent',
  breaks='bounties slightly above one percent are accepted',
  edits=[('order.rs', '                && claim_bounty_value <= Decimal256::percent(1),', '                && claim_bounty_value.checked_mul(Decimal256::percent(100_000))?.floor()\n                    <= Decimal256::percent(1_000),')],
  demo='''
#[test]
fn one_percent_at_most() {
    let mut c = Chain::new();
    assert!(c.place("m", 0, ASK, 10, Some(Decimal256::from_ratio(10_500u128, 1_000_000u128))).is_err());
    assert!(c.place("m", 0, ASK, 10, Some(Decimal256::percent(1))).is_ok());
}
'''),
'tiny-bounty-dropped': dict(prop='P03', needs='a claim bounty below a thousandth',
  breaks='a small claim bounty is not recorded',
  edits=[('order.rs', '''        claim_bounty,
    )
    .with_placed_at''', '''        claim_bounty.filter(|bounty| *bounty >= Decimal256::bps(1)),
    )
    .with_placed_at''')],
  demo='''
#[test]
fn recorded() {
    let mut c = Chain::new();
    let b = Some(Decimal256::from_ratio(1u128, 100_000u128));
    c.place("m", 0, ASK, 10, b).unwrap();
    let r: OrdersResponse = c.ask(QueryMsg::OrdersByTick { tick_id: 0, start_from: None, end_at: None, limit: None });
    assert_eq!(r.orders[0].claim_bounty, b);
}
'''),
'quote-in-any-out': dict(prop='S06', needs='a swap of the quote token for a token the book does not trade',
  breaks='the quote token can be swapped in naming any output token',
  edits=[('types/orderbook.rs', '} else if (self.quote_denom.clone(), self.base_denom.clone()) == in_out_tuple {', '} else if self.quote_denom == token_in_denom && self.quote_denom != token_out_denom {')],
  demo='''
#[test]
fn this_pair_only() {
    let mut c = Chain::new();
    c.place("m", 0, ASK, 10, None).unwrap();
    assert!(c.swap("taker", (5, QUOTE), "other", 0, None).is_err());
}
'''),
'order-window-after-cursor': dict(prop='Q04', needs='an owner listing that starts at an order on a tick with another order of the owner before it',
  breaks='an owner listing leaves out orders that follow its start on the same tick',
  edits=[('state.rs', '        .range(storage, min, max, Order::Ascending)\n        .take(page_size)\n        .filter_map(|item| item.ok())', '        .range(storage, min, max, Order::Ascending)\n        .take(page_size)\n        .filter_map(|item| item.ok())\n        .filter(|(_, order)| order.quantity <= order.placed_quantity && order.tick_id != i64::from(i32::MIN))')],
  demo='''
#[test]
fn nothing() { }
'''),
'prefix-global-progress': dict(prop='T04', needs='cancellations spread over several nodes, of which some were realised by an earlier sync',
  breaks='what was realised left of a node is counted again inside it',
  edits=[('sumtree/tree.rs', 'let diff_at_node = prev_sum.saturating_sub(sum_at_node);', 'let diff_at_node = if sum_at_node.is_zero() {\n            prev_sum\n        } else {\n            prev_sum.saturating_sub(sum_at_node).max(prev_sum.min(left_child.get_value()))\n        };')],
  demo='''
#[test]
fn each_cancellation_once() {
    let mut c = Chain::new();
    for _ in 0..12 { c.place("m", 0, ASK, 10, None).unwrap(); }
    c.place("z", 0, ASK, 10, None).unwrap();
    for i in [0u64, 1, 4, 5, 8, 9, 10, 11] { c.cancel("m", 0, i).unwrap(); }
    // orders 2, 3, 6, 7 and the last one can be traded
    for (i, id) in [2u64, 3, 6, 7].into_iter().enumerate() {
        let _ = i;
        c.buy("taker", 10).unwrap();
        let r = c.claim("m", 0, id).unwrap();
        assert_eq!(pays(&c, &r)[0].2, 10);
    }
    c.buy("taker", 10).unwrap();
    let r = c.claim("z", 0, 12).unwrap();
    assert_eq!(pays(&c, &r)[0].2, 10);
}
'''),
'rotated-inner-parent': dict(prop='T02', needs='a right rotation whose moved subtree is a leaf, followed by a cancellation next to that leaf',
  breaks='after a right rotation a moved leaf keeps its old parent, so later links go wrong',
  edits=[('sumtree/node.rs', '''        // Update the parent of the new left child, if it exists.
        if let Some(mut new_left) = self.get_left(storage)? {''', '''        // Update the parent of the new left child, if it exists.
        if let Some(mut new_left) = self.get_left(storage)?.filter(|n| n.is_internal()) {''')],
  demo='''
use crate::sumtree::node::{TreeNode, NODES};
fn check(s: &dyn Storage, n: &TreeNode) {
    for k in [n.left, n.right].into_iter().flatten() {
        let m = NODES.load(s, &(n.tick_id, k)).unwrap();
        assert_eq!(m.parent, Some(n.key));
        check(s, &m);
    }
}
#[test]
fn linked() {
    let mut c = Chain::new();
    for _ in 0..10 { c.place("m", 0, ASK, 10, None).unwrap(); }
    for i in (0..10).rev() {
        c.cancel("m", 0, i).unwrap();
        check(&c.deps.storage, &crate::sumtree::tree::get_root_node(&c.deps.storage, 0, ASK).unwrap());
    }
}
'''),
'split-left-parent': dict(prop='T02', needs='a split whose new node comes first, below the root',
  breaks='a node made by a split loses its parent when the new record comes first',
  edits=[('sumtree/node.rs', '        new_parent.parent = self.parent;\n', '        new_parent.parent = if new_left == self.key { self.parent } else { new_node.parent };\n')],
  demo='''
use crate::sumtree::node::{TreeNode, NODES};
fn check(s: &dyn Storage, n: &TreeNode) {
    for k in [n.left, n.right].into_iter().flatten() {
        let m = NODES.load(s, &(n.tick_id, k)).unwrap();
        assert_eq!(m.parent, Some(n.key));
        check(s, &m);
    }
}
#[test]
fn linked() {
    let mut c = Chain::new();
    for _ in 0..10 { c.place("m", 0, ASK, 10, None).unwrap(); }
    for i in (0..10).rev() {
        c.cancel("m", 0, i).unwrap();
        check(&c.deps.storage, &crate::sumtree::tree::get_root_node(&c.deps.storage, 0, ASK).unwrap());
    }
}
'''),
'split-range-short': dict(prop='T03', needs='a split whose new record comes last',
  breaks='the range of a node made by a split does not cover its right record',
  edits=[('sumtree/node.rs', '            new_node.get_max_range().max(self.get_max_range()),', '            new_node.get_min_range().max(self.get_max_range()),')],
  demo='''
#[test]
fn covered() {
    let mut c = Chain::new();
    for _ in 0..4 { c.place("m", 0, ASK, 10, None).unwrap(); }
    for i in 0..3 { c.cancel("m", 0, i).unwrap(); }
    let s = &c.deps.storage;
    let root = crate::sumtree::tree::get_root_node(s, 0, ASK).unwrap();
    assert_eq!(root.get_max_range(), Decimal256::percent(3000));
    assert_eq!(root.get_right(s).unwrap().unwrap().get_max_range(), Decimal256::percent(3000));
}
'''),
'root-unbalanced': dict(prop='T05', needs='cancellations in queue order, many of them',
  breaks='the root of a tree may lean by two, so trees grow deeper than balanced ones',
  edits=[('sumtree/node.rs', '        if balance_factor.abs() <= 1 {', '        if balance_factor.abs() <= 1 || (self.parent.is_none() && self.get_weight() > 6 && balance_factor.abs() <= 2) {')],
  demo='''
#[test]
fn balanced() {
    let mut c = Chain::new();
    let n = 400u64;
    for _ in 0..n { c.place("m", 0, ASK, 10, None).unwrap(); }
    for i in 0..n {
        c.cancel("m", 0, i).unwrap();
        let s = &c.deps.storage;
        let b = crate::sumtree::tree::get_root_node(s, 0, ASK).unwrap().get_balance_factor(s).unwrap();
        assert!(b.abs() <= 1, "{b}");
    }
}
'''),
'high-price-rounds-down': dict(prop='M01', needs='a conversion rounded up at a fractional price above one',
  breaks='amounts above price one are rounded down where they must be rounded up',
  edits=[('tick_math.rs', '''    let amount_to_send = rounding_direction.round(amount_to_send_dec256?);

    Ok(amount_to_send)
}

// Divides''', '''    let rounding_direction = if price > Decimal256::from_ratio(1_000u128, 1u128) {
        RoundingDirection::Down
    } else {
        rounding_direction
    };
    let amount_to_send = rounding_direction.round(amount_to_send_dec256?);

    Ok(amount_to_send)
}

// Divides''')],
  demo='''
#[test]
fn rounded_up() {
    use crate::tick_math::{amount_to_value, RoundingDirection};
    let p = Decimal256::from_ratio(20_001u128, 10u128);
    assert_eq!(amount_to_value(ASK, Uint128::new(1), p, RoundingDirection::Up).unwrap(), Uint256::from(2_001u128));
}
'''),
'stale-side-cancel': dict(prop='A07', needs='a claim on one side of a tick whose other side has unrealised cancellations',
  breaks='realising cancellations of bids moves the asks of the same tick as well',
  edits=[('tick.rs', '''            OrderDirection::Bid => bid_values = tick_value,
            OrderDirection::Ask => ask_values = tick_value,''', '''            OrderDirection::Bid => {
                if ask_values.cumulative_total_value == tick_value.cumulative_total_value
                    && ask_values.last_tick_sync_etas > Decimal256::zero()
                {
                    ask_values.last_tick_sync_etas = current_tick_ask_etas;
                }
                bid_values = tick_value
            }
            OrderDirection::Ask => ask_values = tick_value,''')],
  demo='''
#[test]
fn asks_are_synced_too() {
    let mut c = Chain::new();
    for (i, d) in [ASK, BID].into_iter().enumerate() {
        for _ in 0..6 { c.place("m", 0, d, 10, None).unwrap(); }
        let _ = i;
    }
    c.buy("taker", 5).unwrap();
    c.claim("m", 0, 0).unwrap();
    // order 2 of the asks is cancelled, then reached; the bids are traded in between
    c.cancel("m", 0, 1).unwrap();
    c.buy("taker", 5).unwrap();
    c.sell("taker", 5).unwrap();
    c.claim("m", 0, 6).unwrap();
    c.buy("taker", 10).unwrap();
    let r = c.claim("m", 0, 2).unwrap();
    assert_eq!(pays(&c, &r)[0].2, 10);
}
'''),
'unit-cancel-liquidity': dict(prop='A01', needs='a cancel of an order with a single unit left',
  breaks='the total liquidity is not reduced by the cancel of a single unit',
  edits=[('order.rs', '''    subtract_directional_liquidity(deps.storage, order.order_direction, quant_dec256)?;

    tree.save''', '''    if order.quantity > Uint128::one() {
        subtract_directional_liquidity(deps.storage, order.order_direction, quant_dec256)?;
    }

    tree.save''')],
  demo='''
#[test]
fn total_follows() {
    let mut c = Chain::new();
    c.place("m", 0, ASK, 1, None).unwrap();
    c.cancel("m", 0, 0).unwrap();
    let r: GetTotalPoolLiquidityResponse = c.ask(QueryMsg::GetTotalPoolLiquidity {});
    assert_eq!(r.total_pool_liquidity[0].amount.u128(), 0);
}
'''),
'claim-resets-filled-order': dict(prop='K01', needs='a claim of a partly filled order behind unrealised cancellations',
  breaks='a partly filled order restarts where the tick stands, not where its filled part ends',
  edits=[('order.rs', 'order.etas = order.etas.checked_add(amount_filled_dec)?;', 'order.etas = if order.quantity > Uint128::new(1_000_000) {\n        tick_values.cumulative_realized_cancels.max(order.etas.checked_add(amount_filled_dec)?)\n    } else {\n        order.etas.checked_add(amount_filled_dec)?\n    };')],
  demo='''
#[test]
fn rest_is_claimable() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 100_000_000, None).unwrap();
    c.place("m", 0, ASK, 10_000_000, None).unwrap();
    c.cancel("a", 0, 0).unwrap();
    c.buy("taker", 1_000_000).unwrap();
    c.claim("m", 0, 1).unwrap();
    let r: OrdersResponse = c.ask(QueryMsg::OrdersByTick { tick_id: 0, start_from: None, end_at: None, limit: None });
    assert_eq!(r.orders[0].etas, Decimal256::from_ratio(101_000_000u128, 1u128));
    c.place("b", 0, ASK, 1_000_000_000, None).unwrap();
    c.buy("taker", 9_000_000).unwrap();
    let p = c.claim("m", 0, 1).unwrap();
    assert_eq!(pays(&c, &p)[0].2, 9_000_000);
}
'''),
'block-height-timestamp': dict(prop='P03', needs='a placement in a block of non-zero height',
  breaks='orders are stamped with a time other than the time of their block',
  edits=[('order.rs', '.with_placed_at(env.block.time);', '.with_placed_at(env.block.time.plus_nanos(env.transaction.map_or(0, |t| t.index as u64)));')],
  demo='''
#[test]
fn time_of_the_block() {
    let mut c = Chain::new();
    c.place("m", 0, ASK, 1, None).unwrap();
    let r: OrdersResponse = c.ask(QueryMsg::OrdersByTick { tick_id: 0, start_from: None, end_at: None, limit: None });
    assert_eq!(r.orders[0].placed_at, cosmwasm_std::testing::mock_env().block.time);
}
'''),
}
del S['order-window-after-cursor']
