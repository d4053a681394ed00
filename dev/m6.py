# behaviour-preserving refactors: every one must leave all checks quiet
O='order.rs'; S='sudo.rs'; T='tick.rs'; ST='state.rs'; Q='query.rs'; AU='auth.rs'; C='contract.rs'; N='sumtree/node.rs'; TR='sumtree/tree.rs'; TM='tick_math.rs'; OB='orderbook.rs'
def sub(f, a, b): return (f, a, b)
M = [
# ---------------------------------------------------------------- order.rs: place
('pl-direct-calls','',O,'''    match order_direction {
        OrderDirection::Bid => {
            if tick_id > orderbook.next_bid_tick {
                orderbook.next_bid_tick = tick_id;
            }
        }
        OrderDirection::Ask => {
            if tick_id < orderbook.next_ask_tick {
                orderbook.next_ask_tick = tick_id;
            }
        }
    }
    ORDERBOOK.save(deps.storage, &orderbook)?;''','''    match order_direction {
        OrderDirection::Bid => orderbook.next_bid_tick = orderbook.next_bid_tick.max(tick_id),
        OrderDirection::Ask => orderbook.next_ask_tick = orderbook.next_ask_tick.min(tick_id),
    }
    ORDERBOOK.save(deps.storage, &orderbook)?;'''),
('pl-save-only-if-moved','',O,'''    match order_direction {
        OrderDirection::Bid => {
            if tick_id > orderbook.next_bid_tick {
                orderbook.next_bid_tick = tick_id;
            }
        }
        OrderDirection::Ask => {
            if tick_id < orderbook.next_ask_tick {
                orderbook.next_ask_tick = tick_id;
            }
        }
    }
    ORDERBOOK.save(deps.storage, &orderbook)?;''','''    let improves = match order_direction {
        OrderDirection::Bid => tick_id > orderbook.next_bid_tick,
        OrderDirection::Ask => tick_id < orderbook.next_ask_tick,
    };
    if improves {
        match order_direction {
            OrderDirection::Bid => orderbook.next_bid_tick = tick_id,
            OrderDirection::Ask => orderbook.next_ask_tick = tick_id,
        }
        ORDERBOOK.save(deps.storage, &orderbook)?;
    }'''),
('pl-update-closure','',O,'''    // Update ETAS from Tick State
    let mut tick_state = TICK_STATE.load(deps.storage, tick_id).unwrap_or_default();
    let mut tick_values = tick_state.get_values(order_direction);

    // Build''','''    // Update ETAS from Tick State
    let mut tick_state = match TICK_STATE.load(deps.storage, tick_id) {
        Ok(existing) => existing,
        Err(_) => TickState::default(),
    };
    let mut tick_values = match order_direction {
        OrderDirection::Ask => tick_state.ask_values.clone(),
        OrderDirection::Bid => tick_state.bid_values.clone(),
    };

    // Build'''),
('pl-validate-helper','',[(O,'''    // Validate tick_id is within valid range
    ensure!(
        tick_id >= MIN_TICK && tick_id <= MAX_TICK,
        ContractError::InvalidTickId { tick_id }
    );

    // Ensure order_quantity is positive
    ensure!(
        quantity > Uint128::zero(),
        ContractError::InvalidQuantity { quantity }
    );

    // If applicable, ensure claim_bounty is between 0 and 0.01.
    // We set a conservative upper bound of 1% for claim bounties as a guardrail.
    if let Some(claim_bounty_value) = claim_bounty {
        ensure!(
            claim_bounty_value >= Decimal256::zero()
                && claim_bounty_value <= Decimal256::percent(1),
            ContractError::InvalidClaimBounty {
                claim_bounty: Some(claim_bounty_value)
            }
        );
    }
''','''    validate_limit(tick_id, quantity, &claim_bounty)?;
'''),(O,'''#[allow(clippy::manual_range_contains, clippy::too_many_arguments)]
pub fn place_limit(''','''/// Checks on the parameters of a limit order
fn validate_limit(
    tick_id: i64,
    quantity: Uint128,
    claim_bounty: &Option<Decimal256>,
) -> ContractResult<()> {
    if !(MIN_TICK..=MAX_TICK).contains(&tick_id) {
        return Err(ContractError::InvalidTickId { tick_id });
    }
    if quantity.is_zero() {
        return Err(ContractError::InvalidQuantity { quantity });
    }
    match claim_bounty {
        Some(b) if *b > Decimal256::percent(1) => Err(ContractError::InvalidClaimBounty {
            claim_bounty: Some(*b),
        }),
        _ => Ok(()),
    }
}

#[allow(clippy::manual_range_contains, clippy::too_many_arguments)]
pub fn place_limit(''')]),
('pl-save-order-last','',[(O,'''    // Save the order to the orderbook
    orders().save(deps.storage, &(tick_id, order_id), &limit_order)?;

''',''),(O,'''    add_directional_liquidity(deps.storage, order_direction, quant_dec256)?;

    Ok(Response::default()''','''    add_directional_liquidity(deps.storage, order_direction, quant_dec256)?;
    // Save the order to the orderbook
    orders().save(deps.storage, &(tick_id, order_id), &limit_order)?;

    Ok(Response::default()''')]),
('pl-struct-literal','',[(O,'''    let limit_order = LimitOrder::new(
        tick_id,
        order_id,
        order_direction,
        info.sender.clone(),
        quantity,
        tick_values.cumulative_total_value,
        claim_bounty,
    )
    .with_placed_at(env.block.time);''','''    let limit_order = LimitOrder {
        tick_id,
        order_id,
        order_direction,
        owner: info.sender.clone(),
        quantity,
        etas: tick_values.cumulative_total_value,
        claim_bounty,
        placed_quantity: quantity,
        placed_at: env.block.time,
    };'''),]),
('pl-add-op','',O,'''    tick_values.total_amount_of_liquidity = tick_values
        .total_amount_of_liquidity
        .checked_add(quant_dec256)?;

    tick_values.cumulative_total_value''','''    let added = quant_dec256;
    tick_values.total_amount_of_liquidity =
        added.checked_add(tick_values.total_amount_of_liquidity)?;

    tick_values.cumulative_total_value'''),
('pl-attrs-array','',O,'''    Ok(Response::default()
        .add_attribute("method", "placeLimit")
        .add_attribute("owner", info.sender.to_string())
        .add_attribute("tick_id", tick_id.to_string())
        .add_attribute("order_id", order_id.to_string())
        .add_attribute("order_direction", order_direction.to_string())
        .add_attribute("quantity", quantity.to_string())
        .add_attribute("order_denom", expected_denom.to_string())
        .add_attribute(
            "output_denom",
            orderbook.get_opposite_denom(&order_direction).to_string(),
        ))''','''    let output_denom = orderbook.get_opposite_denom(&order_direction);
    Ok(Response::new().add_attributes([
        ("method", "placeLimit".to_string()),
        ("owner", info.sender.into_string()),
        ("tick_id", tick_id.to_string()),
        ("order_id", order_id.to_string()),
        ("order_direction", order_direction.to_string()),
        ("quantity", quantity.to_string()),
        ("order_denom", expected_denom),
        ("output_denom", output_denom),
    ]))'''),
('pl-format','',O,'''.add_attribute("tick_id", tick_id.to_string())
        .add_attribute("order_id", order_id.to_string())''','''.add_attribute("tick_id", format!("{tick_id}"))
        .add_attribute("order_id", format!("{}", order_id))'''),
# ---------------------------------------------------------------- cancel
('ca-early-return','',O,'''    // Check for the order, error if not found
    let order = orders()
        .may_load(deps.storage, &key)?
        .ok_or(ContractError::OrderNotFound { tick_id, order_id })?;

    // Ensure the sender is the order owner
    ensure_eq!(info.sender, order.owner, ContractError::Unauthorized {});''','''    // Check for the order, error if not found
    let order = match orders().may_load(deps.storage, &key)? {
        Some(order) => order,
        None => return Err(ContractError::OrderNotFound { tick_id, order_id }),
    };

    // Ensure the sender is the order owner
    if order.owner != info.sender {
        return Err(ContractError::Unauthorized {});
    }'''),
('ca-let-else','',O,'''    // Check for the order, error if not found
    let order = orders()
        .may_load(deps.storage, &key)?
        .ok_or(ContractError::OrderNotFound { tick_id, order_id })?;
''','''    let Some(order) = orders().may_load(deps.storage, &key)? else {
        return Err(ContractError::OrderNotFound { tick_id, order_id });
    };
'''),
('ca-order-first-state','',[(O,'''    orders().remove(deps.storage, &(order.tick_id, order.order_id))?;
    curr_tick_values''','''    orders().remove(deps.storage, &key)?;
    curr_tick_values'''),(O,'''    curr_tick_values.total_amount_of_liquidity = curr_tick_values
        .total_amount_of_liquidity
        .checked_sub(Decimal256::from_ratio(order.quantity, Uint256::one()))?;''','''    curr_tick_values.total_amount_of_liquidity = curr_tick_values
        .total_amount_of_liquidity
        .checked_sub(quant_dec256)?;''')]),
('ca-one-load','',[(O,'''    let tick_state = TICK_STATE.load(deps.storage, tick_id).unwrap_or_default();
    let tick_values = tick_state.get_values(order.order_direction);
    ensure!(
        tick_values.effective''','''    let mut curr_tick_state = TICK_STATE.load(deps.storage, tick_id).unwrap_or_default();
    let mut curr_tick_values = curr_tick_state.get_values(order.order_direction);
    ensure!(
        curr_tick_values.effective'''),(O,'''    let mut curr_tick_state =
        TICK_STATE
            .load(deps.storage, order.tick_id)
            .ok()
            .ok_or(ContractError::InvalidTickId {
                tick_id: order.tick_id,
            })?;
    let mut curr_tick_values = curr_tick_state.get_values(order.order_direction);
''','')]),
('ca-sync-helper','',[(O,'''    // Sync tick before checking if order is filled
    let tick_state = TICK_STATE.load(deps.storage, tick_id).unwrap_or_default();
    sync_tick(
        deps.storage,
        tick_id,
        tick_state
            .get_values(OrderDirection::Bid)
            .effective_total_amount_swapped,
        tick_state
            .get_values(OrderDirection::Ask)
            .effective_total_amount_swapped,
    )?;

    let tick_state = TICK_STATE.load(deps.storage, tick_id).unwrap_or_default();
    let tick_values''','''    let tick_state = synced_tick(deps.storage, tick_id)?;
    let tick_values'''),(O,'''pub fn cancel_limit(''','''/// Syncs a tick and returns its state
fn synced_tick(storage: &mut dyn Storage, tick_id: i64) -> ContractResult<TickState> {
    let before = TICK_STATE.load(storage, tick_id).unwrap_or_default();
    let bid_etas = before.bid_values.effective_total_amount_swapped;
    let ask_etas = before.ask_values.effective_total_amount_swapped;
    sync_tick(storage, tick_id, bid_etas, ask_etas)?;
    Ok(TICK_STATE.load(storage, tick_id).unwrap_or_default())
}

pub fn cancel_limit(''')]),
('ca-refund-helper','',[(O,'''    let refund_msg = SubMsg::reply_on_error(
        BankMsg::Send {
            to_address: order.owner.to_string(),
            amount: vec![coin(order.quantity.u128(), expected_denom.clone())],
        },
        REPLY_ID_REFUND,
    );
''','''    let refund_msg = refund(&order.owner, order.quantity, &expected_denom);
'''),(O,'''pub fn cancel_limit(''','''fn refund(to: &Addr, amount: Uint128, denom: &str) -> SubMsg {
    SubMsg::reply_on_error(
        BankMsg::Send {
            to_address: to.to_string(),
            amount: cosmwasm_std::coins(amount.u128(), denom),
        },
        REPLY_ID_REFUND,
    )
}

pub fn cancel_limit(''')]),
('ca-refund-after','',[(O,'''    // Generate refund
    let expected_denom = orderbook.get_expected_denom(&order.order_direction);
    let refund_msg = SubMsg::reply_on_error(
        BankMsg::Send {
            to_address: order.owner.to_string(),
            amount: vec![coin(order.quantity.u128(), expected_denom.clone())],
        },
        REPLY_ID_REFUND,
    );
''',''),(O,'''    tree.save(deps.storage)?;

    Ok(Response::new()''','''    tree.save(deps.storage)?;

    let expected_denom = orderbook.get_expected_denom(&order.order_direction);
    let refund_msg = SubMsg::reply_on_error(
        BankMsg::Send {
            to_address: info.sender.to_string(),
            amount: vec![coin(order.quantity.u128(), expected_denom.clone())],
        },
        REPLY_ID_REFUND,
    );
    Ok(Response::new()''')]),
('ca-no-treesave-order','',[(O,'''    subtract_directional_liquidity(deps.storage, order.order_direction, quant_dec256)?;

    tree.save(deps.storage)?;
''','''    tree.save(deps.storage)?;

    subtract_directional_liquidity(deps.storage, order.order_direction, quant_dec256)?;
''')]),
# ---------------------------------------------------------------- claim
('cl-is-active-earlier','',O,'''    // Immutable amount to prevent bounty/maker fee calculations affecting each other
    let raw_amount = amount;

    let denom = orderbook.get_opposite_denom(&order.order_direction);
''','''    let denom = orderbook.get_opposite_denom(&order.order_direction);
    // Immutable amount to prevent bounty/maker fee calculations affecting each other
    let raw_amount = amount;
'''),
('cl-bounty-helper','',[(O,'''    let mut bounty = Uint256::zero();
    if let Some(claim_bounty) = order.claim_bounty {
        // Skip this step if the output amount is zero.
        //
        // We use a nested if here because combining `let` with logical operator
        // is currently unstable in Rust.
        if !amount.is_zero() {
            // Multiply by the claim bounty ratio and convert to Uint128.
            // Ensure claimed amount is updated to reflect the bounty.
            let bounty_amount =
                Decimal256::from_ratio(amount, Uint256::one()).checked_mul(claim_bounty)?;
            bounty = bounty_amount.to_uint_floor();
            amount = amount.checked_sub(bounty)?;
        }
    }
''','''    let bounty = match order.claim_bounty {
        Some(rate) => share_of(raw_amount, rate)?,
        None => Uint256::zero(),
    };
    amount = amount.checked_sub(bounty)?;
'''),(O,'''    let mut maker_fee_amount = Uint256::zero();
    if !maker_fee.is_zero() {
        // Skip this step if the output amount is zero.
        //
        // We use a nested if here because combining `let` with logical operator
        // is currently unstable in Rust.
        if !amount.is_zero() {
            // Calculate the fee amount based on the quantity originally being sent to the claimer
            maker_fee_amount = Decimal256::from_ratio(raw_amount, 1u128)
                .checked_mul(maker_fee)?
                .to_uint_floor();
            amount = amount.checked_sub(maker_fee_amount)?;
        }
    }
''','''    let maker_fee_amount = share_of(raw_amount, maker_fee)?;
    amount = amount.checked_sub(maker_fee_amount)?;
'''),(O,'''// Note: This can be called by anyone
pub(crate) fn claim_order(''','''fn share_of(amount: Uint256, rate: Decimal256) -> ContractResult<Uint256> {
    if amount.is_zero() || rate.is_zero() {
        return Ok(Uint256::zero());
    }
    Ok(Decimal256::from_ratio(amount, Uint256::one())
        .checked_mul(rate)?
        .to_uint_floor())
}

// Note: This can be called by anyone
pub(crate) fn claim_order(''')]),
('cl-pay-helper','',[(O,'''        let bank_msg = MsgSend256 {
            from_address: contract_address.to_string(),
            to_address: order.owner.to_string(),
            amount: vec![coin_u256(amount, &denom)],
        };
        bank_msg_vec.push(SubMsg::reply_on_error(bank_msg, REPLY_ID_CLAIM));''','''        bank_msg_vec.push(payment(&contract_address, &order.owner, amount, &denom, REPLY_ID_CLAIM));'''),
(O,'''        let bounty_msg = MsgSend256 {
            from_address: contract_address.to_string(),
            to_address: sender.to_string(),
            amount: vec![coin_u256(bounty, &denom)],
        };
        bank_msg_vec.push(SubMsg::reply_on_error(bounty_msg, REPLY_ID_CLAIM_BOUNTY));''','''        bank_msg_vec.push(payment(&contract_address, &sender, bounty, &denom, REPLY_ID_CLAIM_BOUNTY));'''),
(O,'''// Note: This can be called by anyone
pub(crate) fn claim_order(''','''fn payment(from: &Addr, to: &Addr, amount: Uint256, denom: &str, reply_id: u64) -> SubMsg {
    let msg = MsgSend256 {
        amount: vec![coin_u256(amount, denom)],
        from_address: from.to_string(),
        to_address: to.to_string(),
    };
    SubMsg::reply_on_error(msg, reply_id)
}

// Note: This can be called by anyone
pub(crate) fn claim_order(''')]),
('cl-pay-closure','',[(O,'''    let mut bank_msg_vec = vec![];
    // Silently fail on zero claim (dust amount) orders
    if !amount.is_zero() {
        // Claimed amount always goes to the order owner
        let bank_msg = MsgSend256 {
            from_address: contract_address.to_string(),
            to_address: order.owner.to_string(),
            amount: vec![coin_u256(amount, &denom)],
        };
        bank_msg_vec.push(SubMsg::reply_on_error(bank_msg, REPLY_ID_CLAIM));
    }

    if !bounty.is_zero() {
        // Bounty always goes to the sender
        let bounty_msg = MsgSend256 {
            from_address: contract_address.to_string(),
            to_address: sender.to_string(),
            amount: vec![coin_u256(bounty, &denom)],
        };
        bank_msg_vec.push(SubMsg::reply_on_error(bounty_msg, REPLY_ID_CLAIM_BOUNTY));
    }

    if !maker_fee_amount.is_zero() {
        // Maker fee recipient is controlled by contract admin/moderator
        let maker_fee_recipient = MAKER_FEE_RECIPIENT
            .may_load(storage)?
            .ok_or(ContractError::NoMakerFeeRecipient)?;
        let maker_fee_msg = MsgSend256 {
            from_address: contract_address.to_string(),
            to_address: maker_fee_recipient.to_string(),
            amount: vec![coin_u256(maker_fee_amount, &denom)],
        };
        bank_msg_vec.push(SubMsg::reply_on_error(maker_fee_msg, REPLY_ID_MAKER_FEE));
    }
''','''    let mut payouts: Vec<(String, Uint256, u64)> = vec![
        (order.owner.to_string(), amount, REPLY_ID_CLAIM),
        (sender.to_string(), bounty, REPLY_ID_CLAIM_BOUNTY),
    ];
    if !maker_fee_amount.is_zero() {
        let maker_fee_recipient = MAKER_FEE_RECIPIENT
            .may_load(storage)?
            .ok_or(ContractError::NoMakerFeeRecipient)?;
        payouts.push((maker_fee_recipient.to_string(), maker_fee_amount, REPLY_ID_MAKER_FEE));
    }
    let bank_msg_vec: Vec<SubMsg> = payouts
        .into_iter()
        .filter(|(_, value, _)| !value.is_zero())
        .map(|(to_address, value, id)| {
            SubMsg::reply_on_error(
                MsgSend256 {
                    from_address: contract_address.to_string(),
                    to_address,
                    amount: vec![coin_u256(value, &denom)],
                },
                id,
            )
        })
        .collect();
''')]),
('cl-min-if','',O,'''    let amount_filled_dec = tick_values
        .effective_total_amount_swapped
        .checked_sub(order.etas)?
        .min(Decimal256::from_ratio(order.quantity, 1u128));
    let amount_filled''','''    let reachable = tick_values
        .effective_total_amount_swapped
        .checked_sub(order.etas)?;
    let whole = Decimal256::from_ratio(order.quantity, 1u128);
    let amount_filled_dec = if reachable > whole { whole } else { reachable };
    let amount_filled'''),
('cl-min-std','',O,'''    let amount_filled_dec = tick_values
        .effective_total_amount_swapped
        .checked_sub(order.etas)?
        .min(Decimal256::from_ratio(order.quantity, 1u128));
    let amount_filled''','''    let amount_filled_dec = std::cmp::min(
        Decimal256::from_ratio(order.quantity, 1u128),
        tick_values
            .effective_total_amount_swapped
            .checked_sub(order.etas)?,
    );
    let amount_filled'''),
('cl-order-before-tick','',[(O,'''    // Fetch tick values for current order direction
    let tick_state = TICK_STATE
        .may_load(storage, tick_id)?
        .ok_or(ContractError::InvalidTickId { tick_id })?;

    let key = (tick_id, order_id);
    // Check for the order, error if not found
    let mut order = orders()
        .may_load(storage, &key)?
        .ok_or(ContractError::OrderNotFound { tick_id, order_id })?;
''','''    let key = (tick_id, order_id);
    let tick_state = match TICK_STATE.may_load(storage, tick_id)? {
        Some(state) => state,
        None => return Err(ContractError::InvalidTickId { tick_id }),
    };
    let found = orders().may_load(storage, &key)?;
    if found.is_none() {
        return Err(ContractError::OrderNotFound { tick_id, order_id });
    }
    let mut order = found.unwrap();
''')]),
('cl-remaining-order','',[(O,'''    if order.quantity.is_zero() {
        orders().remove(storage, &key)?;
    // Else update in state
    } else {
        orders().save(storage, &key, &order)?;
    }

    Ok((amount, bank_msg_vec, order))''','''    match order.quantity.is_zero() {
        false => orders().save(storage, &key, &order)?,
        true => orders().remove(storage, &key)?,
    }

    Ok((amount, bank_msg_vec, order))''')]),
('cl-remaining-struct','',[(O,'''    order.quantity = order.quantity.checked_sub(amount_filled)?;
    order.etas = order.etas.checked_add(amount_filled_dec)?;
''','''    let order = LimitOrder {
        quantity: order.quantity.checked_sub(amount_filled)?,
        etas: order.etas.checked_add(amount_filled_dec)?,
        ..order
    };
'''),(O,'''    let mut order = orders()
        .may_load(storage, &key)?''','''    let order = orders()
        .may_load(storage, &key)?''')]),
('cl-split-fn','',[(O,'''    let (amount_claimed, bank_msgs, order) = claim_order(
        deps.storage,
        env.contract.address,
        info.sender.clone(),
        tick_id,
        order_id,
    )?;

    let orderbook = ORDERBOOK.load(deps.storage)?;
    let order_denom = orderbook.get_expected_denom(&order.order_direction);
    let output_denom = orderbook.get_opposite_denom(&order.order_direction);

    let event = generate_claimed_order_event(
        info.sender,
        order,
        amount_claimed,
        order_denom,
        output_denom,
    );
''','''    let orderbook = ORDERBOOK.load(deps.storage)?;
    let (event, bank_msgs) = claim_with_event(
        deps.storage,
        &orderbook,
        env.contract.address,
        info.sender,
        tick_id,
        order_id,
    )?;
'''),(O,'''        // Attempt to claim each order
        match claim_order(
            deps.storage,
            env.contract.address.clone(),
            info.sender.clone(),
            tick_id,
            order_id,
        ) {
            Ok((amount_claimed, mut bank_msgs, order)) => {
                let order_denom = orderbook.get_expected_denom(&order.order_direction);
                let output_denom = orderbook.get_opposite_denom(&order.order_direction);
                let event = generate_claimed_order_event(
                    info.sender.clone(),
                    order,
                    amount_claimed,
                    order_denom,
                    output_denom,
                );
                responses.append(&mut bank_msgs);
                events.push(event);
            }
            Err(_) => {
                // We fail silently on errors to allow for the valid claims to be processed
                // to be processed.
                continue;
            }
        }
''','''        if let Ok((event, bank_msgs)) = claim_with_event(
            deps.storage,
            &orderbook,
            env.contract.address.clone(),
            info.sender.clone(),
            tick_id,
            order_id,
        ) {
            responses.extend(bank_msgs);
            events.push(event);
        }
'''),(O,'''// batch_claim_limits allows for''','''fn claim_with_event(
    storage: &mut dyn Storage,
    orderbook: &Orderbook,
    contract: Addr,
    sender: Addr,
    tick_id: i64,
    order_id: u64,
) -> ContractResult<(Event, Vec<SubMsg>)> {
    let (amount, msgs, order) = claim_order(storage, contract, sender.clone(), tick_id, order_id)?;
    let direction = order.order_direction;
    let event = generate_claimed_order_event(
        sender,
        order,
        amount,
        orderbook.get_expected_denom(&direction),
        orderbook.get_opposite_denom(&direction),
    );
    Ok((event, msgs))
}

// batch_claim_limits allows for''')]),
('ba-iter','',O,'''    for (tick_id, order_id) in orders {
        // Attempt to claim each order
        match claim_order(''','''    let mut remaining = orders.into_iter();
    while let Some((tick_id, order_id)) = remaining.next() {
        // Attempt to claim each order
        match claim_order('''),
('ba-index','',O,'''    for (tick_id, order_id) in orders {
        // Attempt to claim each order
        match claim_order(''','''    for i in 0..orders.len() {
        let (tick_id, order_id) = orders[i];
        // Attempt to claim each order
        match claim_order('''),
('ba-filter-map','',O,'''    for (tick_id, order_id) in orders {
        // Attempt to claim each order
        match claim_order(
            deps.storage,
            env.contract.address.clone(),
            info.sender.clone(),
            tick_id,
            order_id,
        ) {
            Ok((amount_claimed, mut bank_msgs, order)) => {''','''    let claims = orders
        .into_iter()
        .map(|(tick_id, order_id)| {
            claim_order(
                deps.storage,
                env.contract.address.clone(),
                info.sender.clone(),
                tick_id,
                order_id,
            )
        })
        .collect::<Vec<_>>();
    for claim in claims {
        match claim {
            Ok((amount_claimed, mut bank_msgs, order)) => {'''),
('ba-for-each','',O,'''    for (tick_id, order_id) in orders {
        // Attempt to claim each order
        match claim_order(
            deps.storage,
            env.contract.address.clone(),
            info.sender.clone(),
            tick_id,
            order_id,
        ) {
            Ok((amount_claimed, mut bank_msgs, order)) => {
                let order_denom = orderbook.get_expected_denom(&order.order_direction);
                let output_denom = orderbook.get_opposite_denom(&order.order_direction);
                let event = generate_claimed_order_event(
                    info.sender.clone(),
                    order,
                    amount_claimed,
                    order_denom,
                    output_denom,
                );
                responses.append(&mut bank_msgs);
                events.push(event);
            }
            Err(_) => {
                // We fail silently on errors to allow for the valid claims to be processed
                // to be processed.
                continue;
            }
        }
    }
''','''    let storage = deps.storage;
    orders.iter().for_each(|&(tick_id, order_id)| {
        let claimed = claim_order(
            storage,
            env.contract.address.clone(),
            info.sender.clone(),
            tick_id,
            order_id,
        );
        if let Ok((amount_claimed, bank_msgs, order)) = claimed {
            let order_denom = orderbook.get_expected_denom(&order.order_direction);
            let output_denom = orderbook.get_opposite_denom(&order.order_direction);
            responses.extend(bank_msgs);
            events.push(generate_claimed_order_event(
                info.sender.clone(),
                order,
                amount_claimed,
                order_denom,
                output_denom,
            ));
        }
    });
'''),
('ev-chain','',O,'''    Event::new("limitClaimed").add_attributes(vec![
        ("sender", sender.as_str()),
        ("tick_id", &order.tick_id.to_string()),
        ("order_id", &order.order_id.to_string()),''','''    let event = Event::new("limitClaimed").add_attribute("sender", sender);
    event.add_attributes(vec![
        ("tick_id", order.tick_id.to_string().as_str()),
        ("order_id", &order.order_id.to_string()),'''),
# ---------------------------------------------------------------- swap
('sw-while-let','',O,'''    for maybe_current_tick in ticks {
        let current_tick_id = maybe_current_tick?;
        let mut current_tick''','''    let mut ticks = ticks;
    while let Some(maybe_current_tick) = ticks.next() {
        let current_tick_id = maybe_current_tick?;
        let mut current_tick'''),
('sw-collect','',O,'''    for maybe_current_tick in ticks {
        let current_tick_id = maybe_current_tick?;
        let mut current_tick''','''    let tick_ids = ticks.collect::<cosmwasm_std::StdResult<Vec<i64>>>()?;
    for current_tick_id in tick_ids {
        let mut current_tick'''),
('sw-range-values','',[(O,'''    let ticks = TICK_STATE.keys(
        storage,''','''    let ticks = TICK_STATE.range(
        storage,'''),(O,'''        let current_tick_id = maybe_current_tick?;
        let mut current_tick = TICK_STATE.load(storage, current_tick_id)?;''','''        let (current_tick_id, mut current_tick) = maybe_current_tick?;''')]),
('sw-opp-binding','',[(O,'''        let mut current_tick_values = current_tick.get_values(order.order_direction.opposite());''','''        let side = order.order_direction.opposite();
        let mut current_tick_values = current_tick.get_values(side);'''),(O,'''        match order.order_direction.opposite() {
            OrderDirection::Ask => orderbook.next_ask_tick = current_tick_id,
            OrderDirection::Bid => orderbook.next_bid_tick = current_tick_id,
        }''','''        match order.order_direction {
            OrderDirection::Bid => orderbook.next_ask_tick = current_tick_id,
            OrderDirection::Ask => orderbook.next_bid_tick = current_tick_id,
        }'''),(O,'''        current_tick.set_values(order.order_direction.opposite(), current_tick_values);''','''        current_tick.set_values(side, current_tick_values);''')]),
('sw-min','',O,'''        let fill_amount_dec = if output_quantity_dec < current_tick_values.total_amount_of_liquidity
        {
            output_quantity_dec
        } else {
            current_tick_values.total_amount_of_liquidity
        };''','''        let fill_amount_dec =
            output_quantity_dec.min(current_tick_values.total_amount_of_liquidity);'''),
('sw-step-helper','',[(O,'''        let output_quantity_dec = Decimal256::from_ratio(output_quantity, Uint256::one());

        // If order quantity is less than the current tick's liquidity, fill the whole order.
        // Otherwise, fill the whole tick.
        let fill_amount_dec = if output_quantity_dec < current_tick_values.total_amount_of_liquidity
        {
            output_quantity_dec
        } else {
            current_tick_values.total_amount_of_liquidity
        };

        // Update tick and order state to process the fill
        current_tick_values.total_amount_of_liquidity = current_tick_values
            .total_amount_of_liquidity
            .checked_sub(fill_amount_dec)?;

        current_tick_values.effective_total_amount_swapped = current_tick_values
            .effective_total_amount_swapped
            .checked_add(fill_amount_dec)?;

        // Note: this conversion errors if fill_amount_dec does not fit into Uint128
        // By the time we get here, this should not be possible.
        let fill_amount = Uint128::try_from(fill_amount_dec.to_uint_floor())?;
''','''        let fill_amount = fill_tick(&mut current_tick_values, output_quantity)?;
'''),(O,'''/// Attempts to fill a market order against the orderbook.''','''fn fill_tick(
    values: &mut crate::types::TickValues,
    wanted: Uint256,
) -> ContractResult<Uint128> {
    let wanted = Decimal256::from_ratio(wanted, Uint256::one());
    let filled = std::cmp::min(wanted, values.total_amount_of_liquidity);
    values.effective_total_amount_swapped =
        values.effective_total_amount_swapped.checked_add(filled)?;
    values.total_amount_of_liquidity = values.total_amount_of_liquidity.checked_sub(filled)?;
    Ok(Uint128::try_from(filled.to_uint_floor())?)
}

/// Attempts to fill a market order against the orderbook.''')]),
('sw-bounds-helper','',[(O,'''    let (min_tick, max_tick, ordering) = match order.order_direction {
        OrderDirection::Ask => {
            ensure!(
                tick_bound <= orderbook.next_bid_tick,
                ContractError::InvalidTickId {
                    tick_id: tick_bound
                }
            );
            (tick_bound, orderbook.next_bid_tick, Order::Descending)
        }
        OrderDirection::Bid => {
            ensure!(
                tick_bound >= orderbook.next_ask_tick,
                ContractError::InvalidTickId {
                    tick_id: tick_bound
                }
            );
            (orderbook.next_ask_tick, tick_bound, Order::Ascending)
        }
    };
''','''    let (min_tick, max_tick, ordering) = swap_range(&orderbook, order.order_direction, tick_bound);
    ensure!(
        min_tick <= max_tick,
        ContractError::InvalidTickId {
            tick_id: tick_bound
        }
    );
'''),(O,'''/// Attempts to fill a market order against the orderbook.''','''fn swap_range(book: &Orderbook, direction: OrderDirection, bound: i64) -> (i64, i64, Order) {
    if direction == OrderDirection::Bid {
        (book.next_ask_tick, bound, Order::Ascending)
    } else {
        (bound, book.next_bid_tick, Order::Descending)
    }
}

/// Attempts to fill a market order against the orderbook.''')]),
('sw-partial-first','',O,'''    let partial_market_order = match order.order_direction {
        OrderDirection::Ask => tick_bound > MIN_TICK,
        OrderDirection::Bid => tick_bound < MAX_TICK,
    };
''','''    let full_bound = match order.order_direction {
        OrderDirection::Ask => MIN_TICK,
        OrderDirection::Bid => MAX_TICK,
    };
    let partial_market_order = tick_bound != full_bound;
'''),
('sw-if-nonzero','',[(O,'''        if current_tick_values.total_amount_of_liquidity.is_zero() {
            continue;
        }
''','''        let available = current_tick_values.total_amount_of_liquidity;
        if available == Decimal256::zero() {
            continue;
        }
''')]),
('sw-pair-updates','',[(O,'''    for (tick_id, tick_state) in tick_updates {
        TICK_STATE.save(storage, tick_id, &tick_state)?;
    }
''','''    tick_updates
        .iter()
        .try_for_each(|(tick_id, tick_state)| TICK_STATE.save(storage, *tick_id, tick_state))?;
''')]),
('sw-save-book-first','',[(O,'''    // After the core tick iteration loop, write all tick updates to state.''','''    ORDERBOOK.save(storage, &updated_orderbook)?;
    // After the core tick iteration loop, write all tick updates to state.'''),(O,'''    // Update tick pointers in orderbook
    ORDERBOOK.save(storage, &updated_orderbook)?;
''','')]),
('sw-filter-empty','',[(O,'''    for maybe_current_tick in ticks {
        let current_tick_id = maybe_current_tick?;
        let mut current_tick = TICK_STATE.load(storage, current_tick_id)?;
        let mut current_tick_values = current_tick.get_values(order.order_direction.opposite());

        if current_tick_values.total_amount_of_liquidity.is_zero() {
            continue;
        }

        let tick_price''','''    for maybe_current_tick in ticks {
        let current_tick_id = maybe_current_tick?;
        let loaded = TICK_STATE.load(storage, current_tick_id)?;
        if loaded
            .get_values(order.order_direction.opposite())
            .total_amount_of_liquidity
            .is_zero()
        {
            continue;
        }
        let mut current_tick = loaded;
        let mut current_tick_values = current_tick.get_values(order.order_direction.opposite());

        let tick_price''')]),
]
