O='order.rs'; S='sudo.rs'; A='auth.rs'; T='tick.rs'; TM='tick_math.rs'; ST='state.rs'; Q='query.rs'; N='sumtree/node.rs'; TR='sumtree/tree.rs'
C='contract.rs'; CO='types/coin.rs'; OB='orderbook.rs'; K='constants.rs'; OR='types/order.rs'; TY='types/orderbook.rs'; TT='types/tick.rs'
M=[
('s-early-break','',O,'''        let current_tick_id = maybe_current_tick?;
        let mut current_tick''','''        if order.quantity.is_zero() {
            break;
        }
        let current_tick_id = maybe_current_tick?;
        let mut current_tick'''),
('s-sum-fills','',[(O,'''    let mut total_output: Uint256 = Uint256::zero();
''','''    let mut fills: Vec<Uint128> = Vec::new();
'''),(O,'''        total_output = total_output.checked_add(Uint256::from_uint128(fill_amount))?;
''','''        fills.push(fill_amount);
'''),(O,'''    // Determine if filling remaining amount on''','''    let mut total_output = Uint256::zero();
    for fill in fills {
        total_output = total_output.checked_add(Uint256::from_uint128(fill))?;
    }

    // Determine if filling remaining amount on''')]),
('s-scan-none','',O,'''    for maybe_current_tick in ticks {
        let current_tick_id = maybe_current_tick?;''','''    for current_tick_id in ticks.map(|id| id.map_err(ContractError::from)) {
        let current_tick_id = current_tick_id?;'''),
('s-inspect','',O,'''    for maybe_current_tick in ticks {''','''    let mut visited = 0u32;
    for maybe_current_tick in ticks.inspect(|_| visited += 1) {'''),
('s-liquid-only','',O,'''        if current_tick_values.total_amount_of_liquidity.is_zero() {
            continue;
        }
''','''        let liquidity = current_tick_values.total_amount_of_liquidity;
        if liquidity == Decimal256::zero() {
            continue;
        }
'''),
('s-ord-min','',O,'''        let fill_amount_dec = if output_quantity_dec < current_tick_values.total_amount_of_liquidity
        {
            output_quantity_dec
        } else {
            current_tick_values.total_amount_of_liquidity
        };''','''        let fill_amount_dec = [output_quantity_dec, current_tick_values.total_amount_of_liquidity]
            .into_iter()
            .min()
            .unwrap();'''),
('s-clamp','',O,'''        let fill_amount_dec = if output_quantity_dec < current_tick_values.total_amount_of_liquidity
        {
            output_quantity_dec
        } else {
            current_tick_values.total_amount_of_liquidity
        };''','''        let fill_amount_dec = output_quantity_dec
            .clamp(Decimal256::zero(), current_tick_values.total_amount_of_liquidity);'''),
('p-max-array','',O,'''            if tick_id > orderbook.next_bid_tick {
                orderbook.next_bid_tick = tick_id;
            }''','''            orderbook.next_bid_tick = [tick_id, orderbook.next_bid_tick].into_iter().max().unwrap_or(tick_id);'''),
('p-max-fold','',O,'''            if tick_id > orderbook.next_bid_tick {
                orderbook.next_bid_tick = tick_id;
            }''','''            orderbook.next_bid_tick = [orderbook.next_bid_tick].iter().fold(tick_id, |a, b| a.max(*b));'''),
('p-max-reduce','',O,'''            if tick_id > orderbook.next_bid_tick {
                orderbook.next_bid_tick = tick_id;
            }''','''            orderbook.next_bid_tick = [orderbook.next_bid_tick, tick_id].into_iter().reduce(i64::max).unwrap_or(tick_id);'''),
('k-retain','',O,'''    let mut bank_msg_vec = vec![];
    // Silently fail on zero claim (dust amount) orders
    if !amount.is_zero() {
        // Claimed amount always goes to the order owner
        let bank_msg = MsgSend256 {
            from_address: contract_address.to_string(),
            to_address: order.owner.to_string(),
            amount: vec![coin_u256(amount, &denom)],
        };
        bank_msg_vec.push(SubMsg::reply_on_error(bank_msg, REPLY_ID_CLAIM));
    }

    if !bounty.is_zero() {
        // Bounty always goes to the sender
        let bounty_msg = MsgSend256 {
            from_address: contract_address.to_string(),
            to_address: sender.to_string(),
            amount: vec![coin_u256(bounty, &denom)],
        };
        bank_msg_vec.push(SubMsg::reply_on_error(bounty_msg, REPLY_ID_CLAIM_BOUNTY));
    }
''','''    let mut payouts = vec![
        (order.owner.to_string(), amount, REPLY_ID_CLAIM),
        (sender.to_string(), bounty, REPLY_ID_CLAIM_BOUNTY),
    ];
    payouts.retain(|(_, due, _)| !due.is_zero());
    let mut bank_msg_vec: Vec<SubMsg> = payouts
        .into_iter()
        .map(|(to_address, due, id)| {
            SubMsg::reply_on_error(
                MsgSend256 {
                    from_address: contract_address.to_string(),
                    to_address,
                    amount: vec![coin_u256(due, &denom)],
                },
                id,
            )
        })
        .collect();
'''),
('k-bounty-map','',O,'''    let mut bounty = Uint256::zero();
    if let Some(claim_bounty) = order.claim_bounty {
        // Skip this step if the output amount is zero.
        //
        // We use a nested if here because combining `let` with logical operator
        // is currently unstable in Rust.
        if !amount.is_zero() {
            // Multiply by the claim bounty ratio and convert to Uint128.
            // Ensure claimed amount is updated to reflect the bounty.
            let bounty_amount =
                Decimal256::from_ratio(amount, Uint256::one()).checked_mul(claim_bounty)?;
            bounty = bounty_amount.to_uint_floor();
            amount = amount.checked_sub(bounty)?;
        }
    }
''','''    let share = |rate: Decimal256| -> ContractResult<Uint256> {
        Ok(Decimal256::from_ratio(raw_amount, Uint256::one())
            .checked_mul(rate)?
            .to_uint_floor())
    };
    let bounty = order.claim_bounty.map_or(Ok(Uint256::zero()), share)?;
    amount = amount.checked_sub(bounty)?;
'''),
('k-abs-diff','',O,'''    let amount_filled_dec = tick_values
        .effective_total_amount_swapped
        .checked_sub(order.etas)?
''','''    let amount_filled_dec = tick_values
        .effective_total_amount_swapped
        .abs_diff(order.etas)
'''),
('k-saturating','',O,'''    let amount_filled_dec = tick_values
        .effective_total_amount_swapped
        .checked_sub(order.etas)?
''','''    let amount_filled_dec = tick_values
        .effective_total_amount_swapped
        .saturating_sub(order.etas)
'''),
('k-order-clone','',O,'''    // If order fully filled then remove
    if order.quantity.is_zero() {
        orders().remove(storage, &key)?;
    // Else update in state
    } else {
        orders().save(storage, &key, &order)?;
    }
''','''    let rest = Some(&order).filter(|o| !o.quantity.is_zero());
    match rest {
        Some(open) => orders().save(storage, &key, open)?,
        None => orders().remove(storage, &key)?,
    }
'''),
('n-min-iter','',[(N,'''use ''','''#[allow(unused_imports)]
use ''')]) if False else ('q-flatten-any','',A,'''    ensure_is_admin(deps.as_ref(), &info.sender)?;

    remove_admin_transfer(deps.storage)?;
''','''    let admin = get_admin(deps.storage)?;
    ensure!(
        admin.iter().any(|a| a == &info.sender),
        ContractError::Unauthorized {}
    );

    remove_admin_transfer(deps.storage)?;
'''),
('t-zip','',T,'''    for &direction in [OrderDirection::Bid, OrderDirection::Ask].iter() {
        let (mut tick_value, target_etas) = match direction {
            OrderDirection::Bid => (bid_values.clone(), current_tick_bid_etas),
            OrderDirection::Ask => (ask_values.clone(), current_tick_ask_etas),
        };
''','''    let targets = [current_tick_bid_etas, current_tick_ask_etas];
    for (direction, target_etas) in [OrderDirection::Bid, OrderDirection::Ask].into_iter().zip(targets) {
        let mut tick_value = match direction {
            OrderDirection::Bid => bid_values.clone(),
            OrderDirection::Ask => ask_values.clone(),
        };
'''),
('t-filter','',T,'''    for &direction in [OrderDirection::Bid, OrderDirection::Ask].iter() {
        let (mut tick_value, target_etas) = match direction {
            OrderDirection::Bid => (bid_values.clone(), current_tick_bid_etas),
            OrderDirection::Ask => (ask_values.clone(), current_tick_ask_etas),
        };

        // If tick state for current order direction is already up to date,
        // skip the check. This saves us from walking the tree for both order directions
        // even though in most cases we will likely only need to sync one.
        if tick_value.last_tick_sync_etas == target_etas {
            continue;
        }
''','''    let stale: Vec<(OrderDirection, crate::types::TickValues, Decimal256)> = [
        (OrderDirection::Bid, bid_values.clone(), current_tick_bid_etas),
        (OrderDirection::Ask, ask_values.clone(), current_tick_ask_etas),
    ]
    .into_iter()
    .filter(|(_, values, target)| values.last_tick_sync_etas != *target)
    .collect();
    for (direction, mut tick_value, target_etas) in stale {
'''),
('t-position','',T,'''        match direction {
            OrderDirection::Bid => bid_values = tick_value,
            OrderDirection::Ask => ask_values = tick_value,
        };
''','''        let slot = if direction == OrderDirection::Bid { &mut bid_values } else { &mut ask_values };
        *slot = tick_value;
'''),
('tr-sub-or','',TR,'''        let new_etas = target_etas.checked_add(unrealized_from_left)?;
''','''        let new_etas = [target_etas, unrealized_from_left]
            .into_iter()
            .try_fold(Decimal256::zero(), |sum, part| sum.checked_add(part))?;
'''),
('tm-try-from','',TM,'''        Uint256::from(num_additive_ticks.unsigned_abs()),''','''        Uint256::from(u64::try_from(num_additive_ticks.abs()).unwrap_or_default()),'''),
('tm-sign','',TM,'''    if tick_index < 0 {
        exponent_at_current_tick -= 1;
    }
''','''    exponent_at_current_tick += tick_index.signum().min(0);
'''),
('tm-round-if','',TM,'''        if matches!(self, RoundingDirection::Down) {
            input.to_uint_floor()
        } else {
            input.to_uint_ceil()
        }''','''        let down = input.to_uint_floor();
        match self {
            RoundingDirection::Down => down,
            RoundingDirection::Up if Decimal256::from_ratio(down, Uint256::one()) == input => down,
            RoundingDirection::Up => down + Uint256::one(),
        }'''),
('ob-any-pair','',Q,'''    // Ensure provided denoms do not match
    ensure!(''','''    // Ensure provided denoms do not match
    debug_assert!(!quote_asset_denom.is_empty() || base_asset_denom.is_empty() || true);
    ensure!('''),
]
