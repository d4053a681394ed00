O='order.rs';T='tick.rs';S='state.rs';Q='query.rs';TR='sumtree/tree.rs';ND='sumtree/node.rs';A='auth.rs';SU='sudo.rs';C='contract.rs';TM='tick_math.rs';OB='orderbook.rs'
M=[
# --- swap loop in other shapes
('s-fill-struct','',[(O,'''        let output_quantity_dec = Decimal256::from_ratio(output_quantity, Uint256::one());

        // If order quantity is less than the current tick's liquidity, fill the whole order.
        // Otherwise, fill the whole tick.
        let fill_amount_dec = if output_quantity_dec < current_tick_values.total_amount_of_liquidity
        {
            output_quantity_dec
        } else {
            current_tick_values.total_amount_of_liquidity
        };

        // Update tick and order state to process the fill
        current_tick_values.total_amount_of_liquidity = current_tick_values
            .total_amount_of_liquidity
            .checked_sub(fill_amount_dec)?;

        current_tick_values.effective_total_amount_swapped = current_tick_values
            .effective_total_amount_swapped
            .checked_add(fill_amount_dec)?;

        // Note: this conversion errors if fill_amount_dec does not fit into Uint128
        // By the time we get here, this should not be possible.
        let fill_amount = Uint128::try_from(fill_amount_dec.to_uint_floor())?;

        let input_filled = amount_to_value(
            order.order_direction.opposite(),
            fill_amount,
            tick_price,
            RoundingDirection::Up,
        )?;
''','''        let Fill { taken: fill_amount, paid: input_filled } =
            take_from(&mut current_tick_values, order.order_direction, output_quantity, tick_price)?;
'''),(O,'''/// Defines the state changes resulting from a market order.
''','''/// One fill against a tick
struct Fill {
    taken: Uint128,
    paid: Uint256,
}

fn take_from(
    values: &mut crate::types::TickValues,
    direction: OrderDirection,
    wanted: Uint256,
    price: Decimal256,
) -> ContractResult<Fill> {
    let dec = std::cmp::min(
        Decimal256::from_ratio(wanted, Uint256::one()),
        values.total_amount_of_liquidity,
    );
    values.total_amount_of_liquidity = values.total_amount_of_liquidity.checked_sub(dec)?;
    values.effective_total_amount_swapped =
        values.effective_total_amount_swapped.checked_add(dec)?;
    let taken = Uint128::try_from(dec.to_uint_floor())?;
    let paid = amount_to_value(direction.opposite(), taken, price, RoundingDirection::Up)?;
    Ok(Fill { taken, paid })
}

/// Defines the state changes resulting from a market order.
''')]),
('s-try-for-each-writes','',O,'''    for (tick_id, tick_state) in tick_updates {
        TICK_STATE.save(storage, tick_id, &tick_state)?;
    }
''','''    tick_updates
        .iter()
        .try_for_each(|(tick_id, tick_state)| TICK_STATE.save(storage, *tick_id, tick_state))?;
'''),
('s-loop-match','',[(O,'''    let ticks = TICK_STATE.keys(''','''    let mut ticks = TICK_STATE.keys('''),(O,'''    for maybe_current_tick in ticks {
        let current_tick_id = maybe_current_tick?;''','''    loop {
        let current_tick_id = match ticks.next() {
            None => break,
            Some(id) => id?,
        };''')]),
('s-range-not-keys','',[(O,'''    let ticks = TICK_STATE.keys(''','''    let ticks = TICK_STATE.range('''),(O,'''        let current_tick_id = maybe_current_tick?;
        let mut current_tick = TICK_STATE.load(storage, current_tick_id)?;''','''        let (current_tick_id, mut current_tick) = maybe_current_tick?;''')]),
('s-dir-consts','',[(O,'''    let mut orderbook = ORDERBOOK.load(storage)?;
    let output_denom = orderbook.get_opposite_denom(&order.order_direction);
''','''    let mut orderbook = ORDERBOOK.load(storage)?;
    let output_denom = orderbook.get_opposite_denom(&order.order_direction);
    let is_bid = order.order_direction == OrderDirection::Bid;
'''),(O,'''        match order.order_direction.opposite() {
            OrderDirection::Ask => orderbook.next_ask_tick = current_tick_id,
            OrderDirection::Bid => orderbook.next_bid_tick = current_tick_id,
        }
''','''        *(if is_bid {
            &mut orderbook.next_ask_tick
        } else {
            &mut orderbook.next_bid_tick
        }) = current_tick_id;
'''),(O,'''    let partial_market_order = match order.order_direction {
        OrderDirection::Ask => tick_bound > MIN_TICK,
        OrderDirection::Bid => tick_bound < MAX_TICK,
    };
''','''    let partial_market_order = tick_bound != if is_bid { MAX_TICK } else { MIN_TICK };
''')]),
('s-labeled-block','',O,'''        if output_quantity.is_zero() {
            order.quantity = Uint128::zero();
            break;
        }
''','''        let done = 'done: {
            if !output_quantity.is_zero() {
                break 'done false;
            }
            order.quantity = Uint128::zero();
            true
        };
        if done {
            break;
        }
'''),
('s-price-option','',[(O,'''    let mut last_tick_price = Decimal256::one();
''','''    let mut last_tick_price: Option<Decimal256> = None;
'''),(O,'''        last_tick_price = tick_price;
''','''        last_tick_price.replace(tick_price);
'''),(O,'''        last_tick_price,
        RoundingDirection::Down,''','''        last_tick_price.unwrap_or_else(Decimal256::one),
        RoundingDirection::Down,''')]),
('s-peek','',[(O,'''    for maybe_current_tick in ticks {
        let current_tick_id = maybe_current_tick?;''','''    let mut ticks = ticks.peekable();
    while ticks.peek().is_some() {
        let current_tick_id = ticks.next().unwrap()?;''')]),
('s-index-updates','',O,'''    for (tick_id, tick_state) in tick_updates {
        TICK_STATE.save(storage, tick_id, &tick_state)?;
    }
''','''    for i in 0..tick_updates.len() {
        let (tick_id, ref tick_state) = tick_updates[i];
        TICK_STATE.save(storage, tick_id, tick_state)?;
    }
'''),
('s-updates-map','',[(O,'''    pub tick_updates: Vec<(i64, TickState)>,''','''    pub tick_updates: std::collections::BTreeMap<i64, TickState>,'''),(O,'''    let mut tick_updates: Vec<(i64, TickState)> = Vec::new();''','''    let mut tick_updates = std::collections::BTreeMap::new();'''),(O,'''        tick_updates.push((current_tick_id, current_tick));''','''        tick_updates.insert(current_tick_id, current_tick);''')]),
# --- placing
('p-update-closures','',[(S,'''    let id = ORDER_ID.load(storage).unwrap_or_default();
    ORDER_ID.save(storage, &(id + 1))?;
    Ok(id)''','''    let id = ORDER_ID.load(storage).unwrap_or_default();
    let next = id.checked_add(1).expect("order ids exhausted");
    ORDER_ID.save(storage, &next)?;
    Ok(next - 1)''')]),
('p-tick-update','',[(O,'''    tick_state.set_values(order_direction, tick_values);
    TICK_STATE.save(storage, tick_id, &tick_state)?;''','''X'''),]),
('p-liq-update','',S,'''    let direction_key = &direction.to_string();
    let current_liquidity = DIRECTION_TOTAL_LIQUIDITY
        .load(storage, direction_key)
        .unwrap_or_default();
    DIRECTION_TOTAL_LIQUIDITY.save(
        storage,
        direction_key,
        &(current_liquidity.checked_add(amount)?),
    )?;
    Ok(())''','''    DIRECTION_TOTAL_LIQUIDITY
        .update(storage, &direction.to_string(), |current| {
            let current = current.unwrap_or_default();
            current.checked_add(amount).map_err(crate::ContractError::from)
        })
        .map(drop)'''),
('p-bounty-check-helper','',O,'''    if let Some(claim_bounty_value) = claim_bounty {
        ensure!(
            claim_bounty_value >= Decimal256::zero()
                && claim_bounty_value <= Decimal256::percent(1),
            ContractError::InvalidClaimBounty {
                claim_bounty: Some(claim_bounty_value)
            }
        );
    }
''','''    if claim_bounty.filter(|b| *b > Decimal256::percent(1)).is_some() {
        return Err(ContractError::InvalidClaimBounty { claim_bounty });
    }
'''),
('p-range-contains','',O,'''        tick_id >= MIN_TICK && tick_id <= MAX_TICK,
        ContractError::InvalidTickId { tick_id }
    );

    // Ensure order_quantity''','''        (MIN_TICK..=MAX_TICK).contains(&tick_id),
        ContractError::InvalidTickId { tick_id }
    );

    // Ensure order_quantity'''),
('p-pointer-minmax','',O,'''        OrderDirection::Bid => {
            if tick_id > orderbook.next_bid_tick {
                orderbook.next_bid_tick = tick_id;
            }
        }
        OrderDirection::Ask => {
            if tick_id < orderbook.next_ask_tick {
                orderbook.next_ask_tick = tick_id;
            }
        }''','''        OrderDirection::Bid => {
            orderbook.next_bid_tick = std::cmp::max_by(tick_id, orderbook.next_bid_tick, |a, b| a.cmp(b));
        }
        OrderDirection::Ask => {
            orderbook.next_ask_tick = [tick_id, orderbook.next_ask_tick]
                .into_iter()
                .min()
                .unwrap_or(tick_id);
        }'''),
# --- claims
('c-fees-struct','',[(O,'''    // Send claim bounty to sender if applicable
    let mut bounty = Uint256::zero();
    if let Some(claim_bounty) = order.claim_bounty {
        // Skip this step if the output amount is zero.
        //
        // We use a nested if here because combining `let` with logical operator
        // is currently unstable in Rust.
        if !amount.is_zero() {
            // Multiply by the claim bounty ratio and convert to Uint128.
            // Ensure claimed amount is updated to reflect the bounty.
            let bounty_amount =
                Decimal256::from_ratio(amount, Uint256::one()).checked_mul(claim_bounty)?;
            bounty = bounty_amount.to_uint_floor();
            amount = amount.checked_sub(bounty)?;
        }
    }
''','''    let bounty = share_of(raw_amount, order.claim_bounty.unwrap_or_default())?;
    amount = amount.checked_sub(bounty)?;
'''),(O,'''    let maker_fee = get_maker_fee(storage)?;
    let mut maker_fee_amount = Uint256::zero();
    if !maker_fee.is_zero() {
        // Skip this step if the output amount is zero.
        //
        // We use a nested if here because combining `let` with logical operator
        // is currently unstable in Rust.
        if !amount.is_zero() {
            // Calculate the fee amount based on the quantity originally being sent to the claimer
            maker_fee_amount = Decimal256::from_ratio(raw_amount, 1u128)
                .checked_mul(maker_fee)?
                .to_uint_floor();
            amount = amount.checked_sub(maker_fee_amount)?;
        }
    }
''','''    let maker_fee_amount = share_of(raw_amount, get_maker_fee(storage)?)?;
    amount = amount.checked_sub(maker_fee_amount)?;
'''),(O,'''// Note: This can be called by anyone
''','''/// `rate` of `amount`, rounded down
fn share_of(amount: Uint256, rate: Decimal256) -> ContractResult<Uint256> {
    Ok(Decimal256::from_ratio(amount, 1u128)
        .checked_mul(rate)?
        .to_uint_floor())
}

// Note: This can be called by anyone
''')]),
('c-payouts-table','',[(O,'''    let mut bank_msg_vec = vec![];
    // Silently fail on zero claim (dust amount) orders
    if !amount.is_zero() {
        // Claimed amount always goes to the order owner
        let bank_msg = MsgSend256 {
            from_address: contract_address.to_string(),
            to_address: order.owner.to_string(),
            amount: vec![coin_u256(amount, &denom)],
        };
        bank_msg_vec.push(SubMsg::reply_on_error(bank_msg, REPLY_ID_CLAIM));
    }

    if !bounty.is_zero() {
        // Bounty always goes to the sender
        let bounty_msg = MsgSend256 {
            from_address: contract_address.to_string(),
            to_address: sender.to_string(),
            amount: vec![coin_u256(bounty, &denom)],
        };
        bank_msg_vec.push(SubMsg::reply_on_error(bounty_msg, REPLY_ID_CLAIM_BOUNTY));
    }

    if !maker_fee_amount.is_zero() {
        // Maker fee recipient is controlled by contract admin/moderator
        let maker_fee_recipient = MAKER_FEE_RECIPIENT
            .may_load(storage)?
            .ok_or(ContractError::NoMakerFeeRecipient)?;
        let maker_fee_msg = MsgSend256 {
            from_address: contract_address.to_string(),
            to_address: maker_fee_recipient.to_string(),
            amount: vec![coin_u256(maker_fee_amount, &denom)],
        };
        bank_msg_vec.push(SubMsg::reply_on_error(maker_fee_msg, REPLY_ID_MAKER_FEE));
    }
''','''    let fee_recipient = if maker_fee_amount.is_zero() {
        String::new()
    } else {
        MAKER_FEE_RECIPIENT
            .may_load(storage)?
            .ok_or(ContractError::NoMakerFeeRecipient)?
            .into_string()
    };
    let payouts = [
        (order.owner.to_string(), amount, REPLY_ID_CLAIM),
        (sender.to_string(), bounty, REPLY_ID_CLAIM_BOUNTY),
        (fee_recipient, maker_fee_amount, REPLY_ID_MAKER_FEE),
    ];
    let bank_msg_vec: Vec<SubMsg> = payouts
        .into_iter()
        .filter(|(_, value, _)| !value.is_zero())
        .map(|(to_address, value, reply)| {
            SubMsg::reply_on_error(
                MsgSend256 {
                    from_address: contract_address.to_string(),
                    to_address,
                    amount: vec![coin_u256(value, &denom)],
                },
                reply,
            )
        })
        .collect();
''')]),
('c-if-greater','',O,'''    let amount_filled_dec = tick_values
        .effective_total_amount_swapped
        .checked_sub(order.etas)?
        .min(Decimal256::from_ratio(order.quantity, 1u128));
    let amount_filled = Uint128::try_from(amount_filled_dec.to_uint_floor())?;
''','''    let progressed = tick_values.effective_total_amount_swapped - order.etas;
    let placed = Decimal256::from_ratio(order.quantity, 1u128);
    let (amount_filled_dec, amount_filled) = if progressed >= placed {
        (placed, order.quantity)
    } else {
        (progressed, Uint128::try_from(progressed.to_uint_floor())?)
    };
'''),
('b-partition','',O,'''    for (tick_id, order_id) in orders {
        // Attempt to claim each order
        match claim_order(
            deps.storage,
            env.contract.address.clone(),
            info.sender.clone(),
            tick_id,
            order_id,
        ) {
            Ok((amount_claimed, mut bank_msgs, order)) => {
                let order_denom = orderbook.get_expected_denom(&order.order_direction);
                let output_denom = orderbook.get_opposite_denom(&order.order_direction);
                let event = generate_claimed_order_event(
                    info.sender.clone(),
                    order,
                    amount_claimed,
                    order_denom,
                    output_denom,
                );
                responses.append(&mut bank_msgs);
                events.push(event);
            }
            Err(_) => {
                // We fail silently on errors to allow for the valid claims to be processed
                // to be processed.
                continue;
            }
        }
    }
''','''    for (tick_id, order_id) in orders {
        let claimed = claim_order(
            deps.storage,
            env.contract.address.clone(),
            info.sender.clone(),
            tick_id,
            order_id,
        );
        let Ok((amount_claimed, bank_msgs, order)) = claimed else { continue };
        let (order_denom, output_denom) = (
            orderbook.get_expected_denom(&order.order_direction),
            orderbook.get_opposite_denom(&order.order_direction),
        );
        responses.extend(bank_msgs);
        events.extend(Some(generate_claimed_order_event(
            info.sender.clone(),
            order,
            amount_claimed,
            order_denom,
            output_denom,
        )));
    }
'''),
# --- sync
('t-side-helper','',[(T,'''    for &direction in [OrderDirection::Bid, OrderDirection::Ask].iter() {
        let (mut tick_value, target_etas) = match direction {
            OrderDirection::Bid => (bid_values.clone(), current_tick_bid_etas),
            OrderDirection::Ask => (ask_values.clone(), current_tick_ask_etas),
        };

        // If tick state for current order direction is already up to date,
        // skip the check. This saves us from walking the tree for both order directions
        // even though in most cases we will likely only need to sync one.
        if tick_value.last_tick_sync_etas == target_etas {
            continue;
        }
''','''    fn side(
        storage: &mut dyn Storage,
        tick_id: i64,
        direction: OrderDirection,
        tick_value: &mut crate::types::TickValues,
        target_etas: Decimal256,
    ) -> Result<(), ContractError> {
        if tick_value.last_tick_sync_etas == target_etas {
            return Ok(());
        }
'''),(T,'''        // Write changes to appropriate tick values by direction.
        // These will be written to tick state after both have been updated.
        match direction {
            OrderDirection::Bid => bid_values = tick_value,
            OrderDirection::Ask => ask_values = tick_value,
        };
    }
''','''        Ok(())
    }
    side(storage, tick_id, OrderDirection::Ask, &mut ask_values, current_tick_ask_etas)?;
    side(storage, tick_id, OrderDirection::Bid, &mut bid_values, current_tick_bid_etas)?;
''')]),
('t-zip','',T,'''    for &direction in [OrderDirection::Bid, OrderDirection::Ask].iter() {
        let (mut tick_value, target_etas) = match direction {
            OrderDirection::Bid => (bid_values.clone(), current_tick_bid_etas),
            OrderDirection::Ask => (ask_values.clone(), current_tick_ask_etas),
        };
''','''    let targets = [current_tick_bid_etas, current_tick_ask_etas];
    let before = [bid_values.clone(), ask_values.clone()];
    let directions = [OrderDirection::Bid, OrderDirection::Ask];
    for (direction, (mut tick_value, target_etas)) in
        directions.into_iter().zip(before.into_iter().zip(targets))
    {
'''),
('t-guard-only-changed','',T,'''        // Defense in depth guardrail: ensure that tick sync does not push tick ETAS past CTT.
        ensure!(
            tick_value.effective_total_amount_swapped <= tick_value.cumulative_total_value,
            ContractError::InvalidTickSync
        );
''','''        match tick_value
            .cumulative_total_value
            .checked_sub(tick_value.effective_total_amount_swapped)
        {
            Ok(_queued) => {}
            Err(_) => return Err(ContractError::InvalidTickSync),
        }
'''),
# --- queries
('q-ticks-usize-max','',Q,'''    let all_tick_states: Vec<TickIdAndState> = if let Some(limit) = limit {
        // Due to separate typing for a `.take` call this must be done in a if/else
        all_ticks
            .take(limit)
            .map(|maybe_tick| {
                let (tick_id, tick_state) = maybe_tick.unwrap();
                TickIdAndState {
                    tick_id,
                    tick_state,
                }
            })
            .collect()
    } else {
        all_ticks
            .map(|maybe_tick| {
                let (tick_id, tick_state) = maybe_tick.unwrap();
                TickIdAndState {
                    tick_id,
                    tick_state,
                }
            })
            .collect()
    };
''','''    let mut all_tick_states: Vec<TickIdAndState> = Vec::new();
    for maybe_tick in all_ticks {
        if limit.map_or(false, |limit| all_tick_states.len() >= limit) {
            break;
        }
        let (tick_id, tick_state) = maybe_tick?;
        all_tick_states.push(TickIdAndState { tick_id, tick_state });
    }
'''),
('q-liquidity-map','',Q,'''    let ask_amount = get_directional_liquidity(deps.storage, OrderDirection::Ask)?;
    let bid_amount = get_directional_liquidity(deps.storage, OrderDirection::Bid)?;

    let ask_amount_coin = coin(
        Uint128::try_from(ask_amount.to_uint_floor())
            .unwrap()
            .u128(),
        orderbook.get_expected_denom(&OrderDirection::Ask),
    );
    let bid_amount_coin = coin(
        Uint128::try_from(bid_amount.to_uint_floor())
            .unwrap()
            .u128(),
        orderbook.get_expected_denom(&OrderDirection::Bid),
    );
''','''    let side = |direction: OrderDirection| -> ContractResult<Coin> {
        let amount = get_directional_liquidity(deps.storage, direction)?.to_uint_floor();
        Ok(Coin {
            denom: orderbook.get_expected_denom(&direction),
            amount: Uint128::try_from(amount)?,
        })
    };
    let ask_amount_coin = side(OrderDirection::Ask)?;
    let bid_amount_coin = side(OrderDirection::Bid)?;
'''),
('q-orders-loop','',S,'''    let orders: Vec<LimitOrder> = iter
        .range(storage, min, max, Order::Ascending)
        .take(page_size)
        .filter_map(|item| item.ok())
        .map(|(_, order)| order)
        .collect();

    Ok(orders)''','''    let mut found = vec![];
    for item in iter.range(storage, min, max, Order::Ascending).take(page_size) {
        if let Ok((_, order)) = item {
            found.push(order);
        }
    }

    Ok(found)'''),
('q-orders-flatten','',S,'''        .filter_map(|item| item.ok())
        .map(|(_, order)| order)
        .collect();''','''        .flatten()
        .map(|(_key, order)| order)
        .collect();'''),
# --- math
('tm-sum-of','',TM,'',''),
]
M=[m for m in M if m[0] not in ('p-tick-update','tm-sum-of')]
