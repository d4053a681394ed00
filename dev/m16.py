O='order.rs'; S='sudo.rs'; A='auth.rs'; T='tick.rs'; TM='tick_math.rs'; ST='state.rs'; Q='query.rs'; N='sumtree/node.rs'; TR='sumtree/tree.rs'
C='contract.rs'; CO='types/coin.rs'; OB='orderbook.rs'; K='constants.rs'; OR='types/order.rs'; TY='types/orderbook.rs'; TT='types/tick.rs'
M=[
# generic helper over closures for tick updates
('g-with-tick','',[(O,'''    // Update ETAS from Tick State
    let mut tick_state = TICK_STATE.load(deps.storage, tick_id).unwrap_or_default();
    let mut tick_values = tick_state.get_values(order_direction);

    // Build''','''    let start = TICK_STATE
        .load(deps.storage, tick_id)
        .unwrap_or_default()
        .get_values(order_direction)
        .cumulative_total_value;

    // Build'''),(O,'''        tick_values.cumulative_total_value,
        claim_bounty,''','''        start,
        claim_bounty,'''),(O,'''    tick_values.total_amount_of_liquidity = tick_values
        .total_amount_of_liquidity
        .checked_add(quant_dec256)?;

    tick_values.cumulative_total_value = tick_values
        .cumulative_total_value
        .checked_add(Decimal256::from_ratio(quantity, Uint256::one()))?;

    tick_state.set_values(order_direction, tick_values);
    TICK_STATE.save(deps.storage, tick_id, &tick_state)?;
''','''    modify_tick(deps.storage, tick_id, order_direction, |values| {
        values.total_amount_of_liquidity =
            values.total_amount_of_liquidity.checked_add(quant_dec256)?;
        values.cumulative_total_value = values.cumulative_total_value.checked_add(quant_dec256)?;
        Ok(())
    })?;
'''),(O,'''pub fn cancel_limit(''','''fn modify_tick<F>(
    storage: &mut dyn Storage,
    tick_id: i64,
    direction: OrderDirection,
    change: F,
) -> ContractResult<()>
where
    F: FnOnce(&mut crate::types::TickValues) -> ContractResult<()>,
{
    let mut state = TICK_STATE.load(storage, tick_id).unwrap_or_default();
    let values = match direction {
        OrderDirection::Ask => &mut state.ask_values,
        OrderDirection::Bid => &mut state.bid_values,
    };
    change(values)?;
    TICK_STATE.save(storage, tick_id, &state)?;
    Ok(())
}

pub fn cancel_limit('''),(O,'''    curr_tick_values.total_amount_of_liquidity = curr_tick_values
        .total_amount_of_liquidity
        .checked_sub(Decimal256::from_ratio(order.quantity, Uint256::one()))?;

    curr_tick_state.set_values(order.order_direction, curr_tick_values);
    TICK_STATE.save(deps.storage, order.tick_id, &curr_tick_state)?;
''','''    modify_tick(deps.storage, order.tick_id, order.order_direction, |values| {
        values.total_amount_of_liquidity =
            values.total_amount_of_liquidity.checked_sub(quant_dec256)?;
        Ok(())
    })?;
'''),(O,'''    let mut curr_tick_state =
        TICK_STATE
            .load(deps.storage, order.tick_id)
            .ok()
            .ok_or(ContractError::InvalidTickId {
                tick_id: order.tick_id,
            })?;
    let mut curr_tick_values = curr_tick_state.get_values(order.order_direction);
''','')]),
('g-dyn-fn','',[(O,'''    let mut bounty = Uint256::zero();
    if let Some(claim_bounty) = order.claim_bounty {''','''    let share: &dyn Fn(Decimal256) -> ContractResult<Uint256> = &|rate| {
        Ok(Decimal256::from_ratio(raw_amount, Uint256::one())
            .checked_mul(rate)?
            .to_uint_floor())
    };
    let mut bounty = Uint256::zero();
    if let Some(claim_bounty) = order.claim_bounty {'''),(O,'''            let bounty_amount =
                Decimal256::from_ratio(amount, Uint256::one()).checked_mul(claim_bounty)?;
            bounty = bounty_amount.to_uint_floor();''','''            bounty = share(claim_bounty)?;'''),(O,'''            maker_fee_amount = Decimal256::from_ratio(raw_amount, 1u128)
                .checked_mul(maker_fee)?
                .to_uint_floor();''','''            maker_fee_amount = share(maker_fee)?;''')]),
('g-impl-trait','',[(O,'''    let (min_tick, max_tick, ordering) = match order.order_direction {''','''    fn pick(direction: OrderDirection) -> impl Fn(i64, i64) -> (i64, i64, Order) {
        move |bound, near| match direction {
            OrderDirection::Ask => (bound, near, Order::Descending),
            OrderDirection::Bid => (near, bound, Order::Ascending),
        }
    }
    let (min_tick, max_tick, ordering) = match order.order_direction {'''),(O,'''            (tick_bound, orderbook.next_bid_tick, Order::Descending)
''','''            pick(OrderDirection::Ask)(tick_bound, orderbook.next_bid_tick)
'''),(O,'''            (orderbook.next_ask_tick, tick_bound, Order::Ascending)
''','''            pick(OrderDirection::Bid)(tick_bound, orderbook.next_ask_tick)
''')]),
('g-trait-ext','',[(O,'''    let quant_dec256 = Decimal256::from_ratio(limit_order.quantity.u128(), Uint256::one());
''','''    let quant_dec256 = limit_order.quantity.whole();
'''),(O,'''        .checked_add(Decimal256::from_ratio(quantity, Uint256::one()))?;''','''        .checked_add(quantity.whole())?;'''),(O,'''    let quant_dec256 =
        Decimal256::from_ratio(Uint256::from_uint128(order.quantity), Uint256::one());
''','''    let quant_dec256 = order.quantity.whole();
'''),(O,'''pub fn cancel_limit(''','''trait Whole {
    fn whole(&self) -> Decimal256;
}

impl Whole for Uint128 {
    fn whole(&self) -> Decimal256 {
        Decimal256::from_ratio(*self, Uint256::one())
    }
}

pub fn cancel_limit(''')]),
('g-newtype','',[(O,'''    if !order.quantity.is_zero() {''','''    if !order.quantity.is_zero() {''')] if False else [(O,'''    let key = (tick_id, order_id);
    // Check for the order, error if not found
    let order = orders()''','''    struct Key(i64, u64);
    impl Key {
        fn pair(&self) -> (i64, u64) {
            (self.0, self.1)
        }
    }
    let key = Key(tick_id, order_id).pair();
    // Check for the order, error if not found
    let order = orders()''')]),
('g-macro','',[(O,'''    let mut bank_msg_vec = vec![];
    // Silently''','''    macro_rules! send {
        ($to:expr, $amount:expr, $id:expr) => {
            bank_msg_vec.push(SubMsg::reply_on_error(
                MsgSend256 {
                    from_address: contract_address.to_string(),
                    to_address: $to,
                    amount: vec![coin_u256($amount, &denom)],
                },
                $id,
            ))
        };
    }
    let mut bank_msg_vec = vec![];
    // Silently''')] if False else [(O,'''    let mut bank_msg_vec = vec![];
    // Silently fail on zero claim (dust amount) orders
    if !amount.is_zero() {
        // Claimed amount always goes to the order owner
        let bank_msg = MsgSend256 {
            from_address: contract_address.to_string(),
            to_address: order.owner.to_string(),
            amount: vec![coin_u256(amount, &denom)],
        };
        bank_msg_vec.push(SubMsg::reply_on_error(bank_msg, REPLY_ID_CLAIM));
    }
''','''    let mut bank_msg_vec = vec![];
    macro_rules! send {
        ($to:expr, $amount:expr, $id:expr) => {
            bank_msg_vec.push(SubMsg::reply_on_error(
                MsgSend256 {
                    from_address: contract_address.to_string(),
                    to_address: $to,
                    amount: vec![coin_u256($amount, &denom)],
                },
                $id,
            ))
        };
    }
    // Silently fail on zero claim (dust amount) orders
    if !amount.is_zero() {
        send!(order.owner.to_string(), amount, REPLY_ID_CLAIM);
    }
''')]),
('g-payout-list','',O,'''    let mut bank_msg_vec = vec![];
    // Silently fail on zero claim (dust amount) orders
    if !amount.is_zero() {
        // Claimed amount always goes to the order owner
        let bank_msg = MsgSend256 {
            from_address: contract_address.to_string(),
            to_address: order.owner.to_string(),
            amount: vec![coin_u256(amount, &denom)],
        };
        bank_msg_vec.push(SubMsg::reply_on_error(bank_msg, REPLY_ID_CLAIM));
    }

    if !bounty.is_zero() {
        // Bounty always goes to the sender
        let bounty_msg = MsgSend256 {
            from_address: contract_address.to_string(),
            to_address: sender.to_string(),
            amount: vec![coin_u256(bounty, &denom)],
        };
        bank_msg_vec.push(SubMsg::reply_on_error(bounty_msg, REPLY_ID_CLAIM_BOUNTY));
    }
''','''    let mut bank_msg_vec: Vec<SubMsg> = [
        (order.owner.as_str(), amount, REPLY_ID_CLAIM),
        (sender.as_str(), bounty, REPLY_ID_CLAIM_BOUNTY),
    ]
    .into_iter()
    .filter(|(_, due, _)| !due.is_zero())
    .map(|(to, due, id)| {
        SubMsg::reply_on_error(
            MsgSend256 {
                from_address: contract_address.to_string(),
                to_address: to.to_string(),
                amount: vec![coin_u256(due, &denom)],
            },
            id,
        )
    })
    .collect();
'''),
('r-batch-recursive','',[(O,'''    for (tick_id, order_id) in orders {
        // Attempt to claim each order
        match claim_order(
            deps.storage,
            env.contract.address.clone(),
            info.sender.clone(),
            tick_id,
            order_id,
        ) {
            Ok((amount_claimed, mut bank_msgs, order)) => {
                let order_denom = orderbook.get_expected_denom(&order.order_direction);
                let output_denom = orderbook.get_opposite_denom(&order.order_direction);
                let event = generate_claimed_order_event(
                    info.sender.clone(),
                    order,
                    amount_claimed,
                    order_denom,
                    output_denom,
                );
                responses.append(&mut bank_msgs);
                events.push(event);
            }
            Err(_) => {
                // We fail silently on errors to allow for the valid claims to be processed
                // to be processed.
                continue;
            }
        }
    }
''','''    for key in orders.iter().copied() {
        let Some((msgs, event)) = try_claim(deps.storage, &env, &info, &orderbook, key) else {
            continue;
        };
        responses.extend(msgs);
        events.push(event);
    }
'''),(O,'''/// Generates an event when an order is claimed to help with indexing
''','''fn try_claim(
    storage: &mut dyn Storage,
    env: &Env,
    info: &MessageInfo,
    orderbook: &Orderbook,
    (tick_id, order_id): (i64, u64),
) -> Option<(Vec<SubMsg>, Event)> {
    let (amount_claimed, bank_msgs, order) = claim_order(
        storage,
        env.contract.address.clone(),
        info.sender.clone(),
        tick_id,
        order_id,
    )
    .ok()?;
    let direction = order.order_direction;
    let event = generate_claimed_order_event(
        info.sender.clone(),
        order,
        amount_claimed,
        orderbook.get_expected_denom(&direction),
        orderbook.get_opposite_denom(&direction),
    );
    Some((bank_msgs, event))
}

/// Generates an event when an order is claimed to help with indexing
''')]),
('r-unzip','',[(O,'''    let mut responses: Vec<SubMsg> = Vec::new();
    let mut events: Vec<Event> = Vec::new();
    let orderbook = ORDERBOOK.load(deps.storage)?;

    for (tick_id, order_id) in orders {
        // Attempt to claim each order
        match claim_order(
            deps.storage,
            env.contract.address.clone(),
            info.sender.clone(),
            tick_id,
            order_id,
        ) {
            Ok((amount_claimed, mut bank_msgs, order)) => {
                let order_denom = orderbook.get_expected_denom(&order.order_direction);
                let output_denom = orderbook.get_opposite_denom(&order.order_direction);
                let event = generate_claimed_order_event(
                    info.sender.clone(),
                    order,
                    amount_claimed,
                    order_denom,
                    output_denom,
                );
                responses.append(&mut bank_msgs);
                events.push(event);
            }
            Err(_) => {
                // We fail silently on errors to allow for the valid claims to be processed
                // to be processed.
                continue;
            }
        }
    }
''','''    let orderbook = ORDERBOOK.load(deps.storage)?;

    let mut claims: Vec<(Uint256, Vec<SubMsg>, LimitOrder)> = Vec::with_capacity(orders.len());
    for (tick_id, order_id) in orders {
        if let Ok(claim) = claim_order(
            deps.storage,
            env.contract.address.clone(),
            info.sender.clone(),
            tick_id,
            order_id,
        ) {
            claims.push(claim);
        }
    }

    let mut responses: Vec<SubMsg> = Vec::new();
    let mut events: Vec<Event> = Vec::new();
    for (amount_claimed, bank_msgs, order) in claims {
        let order_denom = orderbook.get_expected_denom(&order.order_direction);
        let output_denom = orderbook.get_opposite_denom(&order.order_direction);
        responses.extend(bank_msgs);
        events.push(generate_claimed_order_event(
            info.sender.clone(),
            order,
            amount_claimed,
            order_denom,
            output_denom,
        ));
    }
''')]),
('x-mem-replace','',[(T,'''            OrderDirection::Bid => bid_values = tick_value,
            OrderDirection::Ask => ask_values = tick_value,
        };''','''            OrderDirection::Bid => {
                let _ = std::mem::replace(&mut bid_values, tick_value);
            }
            OrderDirection::Ask => {
                let _ = std::mem::replace(&mut ask_values, tick_value);
            }
        };''')]),
('x-mem-take','',[(O,'''                responses.append(&mut bank_msgs);''','''                responses.extend(std::mem::take(&mut bank_msgs));''')]),
('x-noop-debug','',[(O,'''    // Update order state to reflect the claimed amount.
''','''    debug_assert!(amount_filled <= order.quantity);
    // Update order state to reflect the claimed amount.
'''),(O,'''    let orderbook = ORDERBOOK.load(storage)?;
    // Fetch tick''','''    let _ = std::hint::black_box(order_id);
    let orderbook = ORDERBOOK.load(storage)?;
    // Fetch tick'''),(T,'''    let mut tick_state = TICK_STATE.load(storage, tick_id)?;
''','''    let _trace = format!("sync {tick_id}");
    let mut tick_state = TICK_STATE.load(storage, tick_id)?;
    drop(_trace);
''')]),
('x-noop-loop','',[(O,'''    let mut orderbook = ORDERBOOK.load(deps.storage)?;
''','''    let mut _n = 0u32;
    for _ in 0..3 {
        _n += 1;
    }
    let mut orderbook = ORDERBOOK.load(deps.storage)?;
'''),(N,'''        // Calculate new range
''','''        let mut _i = 0u8;
        while _i < 2 {
            _i += 1;
        }
        // Calculate new range
''')]),
('x-noop-vec','',[(S,'''    let token_in_denom = token_in.denom.clone();
''','''    let mut _seen: Vec<String> = Vec::new();
    _seen.push(token_in.denom.clone());
    let token_in_denom = token_in.denom.clone();
'''),(A,'''    let moderator = MODERATOR.may_load(deps.storage)?;
    let admin = ADMIN''','''    let _len = sender.as_str().len();
    let moderator = MODERATOR.may_load(deps.storage)?;
    let admin = ADMIN''')]),
('x-noop-env','',[(O,'''    nonpayable(&info)?;
    let key = (tick_id, order_id);''','''    let _height = _env.block.height;
    let _s = std::any::type_name::<LimitOrder>();
    nonpayable(&info)?;
    let key = (tick_id, order_id);''')]),
('s-iter-peek','',[(O,'''    for maybe_current_tick in ticks {
        let current_tick_id = maybe_current_tick?;''','''    let mut ticks = ticks.peekable();
    while let Some(maybe_current_tick) = ticks.next() {
        let current_tick_id = maybe_current_tick?;''')]),
('s-iter-fuse','',[(O,'''    for maybe_current_tick in ticks {
        let current_tick_id = maybe_current_tick?;''','''    for (_position, maybe_current_tick) in ticks.enumerate() {
        let current_tick_id = maybe_current_tick?;''')]),
('s-labeled','',[(O,'''    for maybe_current_tick in ticks {
        let current_tick_id = maybe_current_tick?;''','''    'walk: for maybe_current_tick in ticks {
        let current_tick_id = maybe_current_tick?;'''),(O,'''            continue;
        }

        let tick_price''','''            continue 'walk;
        }

        let tick_price'''),(O,'''            order.quantity = Uint128::zero();
            break;''','''            order.quantity = Uint128::zero();
            break 'walk;''')]),
('s-btreemap','',[(O,'''    let mut tick_updates: Vec<(i64, TickState)> = Vec::new();
''','''    let mut tick_updates: std::collections::BTreeMap<i64, TickState> = Default::default();
'''),(O,'''        tick_updates.push((current_tick_id, current_tick));
''','''        tick_updates.insert(current_tick_id, current_tick);
'''),(O,'''        tick_updates,
        updated_orderbook: orderbook,''','''        tick_updates: tick_updates.into_iter().collect(),
        updated_orderbook: orderbook,''')]),
('s-struct-walk','',[(O,'''    // The price of the last tick iterated on, if no ticks are iterated price is constant
    let mut last_tick_price = Decimal256::one();
''','''    struct Walk {
        price: Decimal256,
        input: Uint128,
    }
    let mut walk = Walk {
        price: Decimal256::one(),
        input: order.quantity,
    };
'''),(O,'''        last_tick_price = tick_price;

        let output_quantity = amount_to_value(
            order.order_direction,
            order.quantity,''','''        walk.price = tick_price;

        let output_quantity = amount_to_value(
            order.order_direction,
            walk.input,'''),(O,'''            order.quantity = Uint128::zero();
            break;''','''            walk.input = Uint128::zero();
            break;'''),(O,'''        order.quantity = order
            .quantity
            // Safe conversions as amount filled should never be larger than order quantity which is upper bounded by Uint128::MAX
            .checked_sub(Uint128::try_from(input_filled)?)?;''','''        walk.input = walk.input.checked_sub(Uint128::try_from(input_filled)?)?;'''),(O,'''    // Determine if filling remaining amount on the last possible tick produced any value
''','''    order.quantity = walk.input;
    // Determine if filling remaining amount on the last possible tick produced any value
'''),(O,'''        last_tick_price,
        RoundingDirection::Down,
    )?;

    // Since full''','''        walk.price,
        RoundingDirection::Down,
    )?;

    // Since full''')]),
('s-iterator-impl','',[(S,'''    let MsgSend256 { amount, .. } = bank_msg.clone();
    let output_amt = amount.first().ok_or(ContractError::InvalidSwap {
        error: "Market order did not generate an output message".to_string(),
    })?;''','''    let [output_amt] = bank_msg.amount.as_slice() else {
        return Err(ContractError::InvalidSwap {
            error: "Market order did not generate an output message".to_string(),
        });
    };'''),(S,'''        &coin_u256(token_in.amount, &token_in.denom),
        output_amt,
    )?;''','''        &coin_u256(token_in.amount, &token_in.denom),
        &output_amt.clone(),
    )?;''')]),
('su-validated','',[(S,'''    validate_output_amount(
        Uint256::from_uint128(token_in.amount),
        Uint256::from_uint128(token_out_min_amount),
        &coin_u256(token_in.amount, &token_in.denom),
        output_amt,
    )?;''','''    let minimum = Uint256::from_uint128(token_out_min_amount);
    if output_amt.amount < minimum {
        return Err(ContractError::InvalidSwap {
            error: format!(
                "Did not meet minimum swap amount: expected {minimum} received {}",
                output_amt.amount
            ),
        });
    }
    validate_output_amount(
        Uint256::from_uint128(token_in.amount),
        minimum,
        &coin_u256(token_in.amount, &token_in.denom),
        output_amt,
    )?;''')]),
('a-role-enum','',[(A,'''pub(crate) fn ensure_is_admin(deps: Deps, sender: &Addr) -> ContractResult<()> {
    let admin = ADMIN.may_load(deps.storage)?;
    ensure!(
        admin == Some(sender.clone()),
        ContractError::Unauthorized {}
    );

    Ok(())
}''','''pub(crate) fn ensure_is_admin(deps: Deps, sender: &Addr) -> ContractResult<()> {
    ensure_holds(deps, &[Role::Admin], sender)
}

#[derive(Clone, Copy)]
enum Role {
    Admin,
    Moderator,
}

impl Role {
    fn holder(self, storage: &dyn Storage) -> ContractResult<Option<Addr>> {
        match self {
            Role::Admin => get_admin(storage),
            Role::Moderator => get_moderator(storage),
        }
    }
}

fn ensure_holds(deps: Deps, roles: &[Role], sender: &Addr) -> ContractResult<()> {
    for role in roles {
        if role.holder(deps.storage)?.as_ref() == Some(sender) {
            return Ok(());
        }
    }
    Err(ContractError::Unauthorized {})
}'''),(A,'''    let moderator = MODERATOR.may_load(deps.storage)?;
    let admin = ADMIN.may_load(deps.storage)?;

    ensure!(
        moderator == Some(sender.clone()) || admin == Some(sender.clone()),
        ContractError::Unauthorized {}
    );

    Ok(())''','''    ensure_holds(deps, &[Role::Moderator, Role::Admin], sender)''')]),
('a-table','',[(A,'''        // Current Admin Query
        AuthQueryMsg::Admin {} => get_admin(deps.storage),
        // Current Admin Offer Query
        AuthQueryMsg::AdminOffer {} => get_admin_offer(deps.storage),
        // Current Moderator Query
        AuthQueryMsg::Moderator {} => get_moderator(deps.storage),
        // Current Moderator Offer Query
        AuthQueryMsg::ModeratorOffer {} => get_moderator_offer(deps.storage),
    }''','''        AuthQueryMsg::Admin {} => &ADMIN,
        AuthQueryMsg::AdminOffer {} => &ADMIN_OFFER,
        AuthQueryMsg::Moderator {} => &MODERATOR,
        AuthQueryMsg::ModeratorOffer {} => &MODERATOR_OFFER,
    };
    Ok(item.may_load(deps.storage)?)'''),(A,'''pub(crate) fn query(deps: Deps, msg: AuthQueryMsg) -> ContractResult<Option<Addr>> {
    match msg {''','''pub(crate) fn query(deps: Deps, msg: AuthQueryMsg) -> ContractResult<Option<Addr>> {
    let item: &Item<Addr> = match msg {''')]),
('a-claim-generic','',[(A,'''    let offer = MODERATOR_OFFER.may_load(deps.storage)?;
    ensure!(
        Some(info.sender.clone()) == offer,
        ContractError::Unauthorized {}
    );

    update_moderator(deps.storage, deps.api, info.sender)?;
    remove_moderator_offer(deps.storage)?;
''','''    ensure_offered(deps.storage, &MODERATOR_OFFER, &info.sender)?;
    update_moderator(deps.storage, deps.api, info.sender)?;
    remove_moderator_offer(deps.storage)?;
'''),(A,'''    let offer = ADMIN_OFFER.may_load(deps.storage)?;
    ensure!(
        Some(info.sender.clone()) == offer,
        ContractError::Unauthorized {}
    );

    update_admin''','''    ensure_offered(deps.storage, &ADMIN_OFFER, &info.sender)?;
    update_admin'''),(A,'''// -- Ensure Methods --
''','''// -- Ensure Methods --

fn ensure_offered(storage: &dyn Storage, offer: &Item<Addr>, sender: &Addr) -> ContractResult<()> {
    match offer.may_load(storage)? {
        Some(addr) if addr == *sender => Ok(()),
        _ => Err(ContractError::Unauthorized {}),
    }
}
''')]),
('q-to-json-generic','',[(C,'''        QueryMsg::GetTotalPoolLiquidity {} => {
            Ok(to_json_binary(&query::total_pool_liquidity(deps)?)?)
        }''','''        QueryMsg::GetTotalPoolLiquidity {} => encode(query::total_pool_liquidity(deps)),'''),(C,'''        QueryMsg::Denoms {} => Ok(to_json_binary(&query::denoms(deps)?)?),''','''        QueryMsg::Denoms {} => encode(query::denoms(deps)),'''),(C,'''        QueryMsg::IsActive {} => Ok(to_json_binary(&query::is_active(deps)?)?),''','''        QueryMsg::IsActive {} => encode(query::is_active(deps)),'''),(C,'''#[allow(clippy::too_many_arguments)]
pub fn dispatch''','''fn encode<R: cosmwasm_schema::serde::Serialize>(result: ContractResult<R>) -> ContractResult<Binary> {
    result.and_then(|value| Ok(to_json_binary(&value)?))
}

#[allow(clippy::too_many_arguments)]
pub fn dispatch''')]),
('q-collect-result','',[(Q,'''    let mut ticks: Vec<TickIdAndState> = vec![];
    for tick_id in tick_ids {
        let Some(tick_state) = TICK_STATE.may_load(deps.storage, tick_id)? else {
            return Err(ContractError::InvalidTickId { tick_id });
        };

        ticks.push(TickIdAndState {
            tick_id,
            tick_state,
        });
    }
''','''    let ticks = tick_ids
        .into_iter()
        .map(|tick_id| {
            TICK_STATE
                .may_load(deps.storage, tick_id)?
                .map(|tick_state| TickIdAndState {
                    tick_id,
                    tick_state,
                })
                .ok_or(ContractError::InvalidTickId { tick_id })
        })
        .collect::<ContractResult<Vec<_>>>()?;
''')]),
('q-spot-inv','',[(Q,'''    let spot_price = match direction {
        OrderDirection::Ask => price,
        OrderDirection::Bid => price.inv().unwrap(),
    };
''','''    let spot_price = if direction == OrderDirection::Bid {
        Decimal256::one().checked_div(price).unwrap()
    } else {
        price
    };
''')]),
('q-spot-try','',[(Q,'''        spot_price: Decimal::from_str(&spot_price.to_string())?,''','''        spot_price: spot_price.to_string().parse::<Decimal>()?,''')]),
('q-pool-helper','',[(Q,'''    let ask_amount_coin = coin(
        Uint128::try_from(ask_amount.to_uint_floor())
            .unwrap()
            .u128(),
        orderbook.get_expected_denom(&OrderDirection::Ask),
    );
    let bid_amount_coin = coin(
        Uint128::try_from(bid_amount.to_uint_floor())
            .unwrap()
            .u128(),
        orderbook.get_expected_denom(&OrderDirection::Bid),
    );
''','''    fn side(amount: Decimal256, direction: OrderDirection, book: &Orderbook) -> Coin {
        let whole: Uint128 = amount.to_uint_floor().try_into().unwrap();
        Coin {
            denom: book.get_expected_denom(&direction),
            amount: whole,
        }
    }
    let ask_amount_coin = side(ask_amount, OrderDirection::Ask, &orderbook);
    let bid_amount_coin = side(bid_amount, OrderDirection::Bid, &orderbook);
''')]),
('tm-assoc','',[(TM,'''    match order {
        OrderDirection::Bid => divide_by_price(amount, price, rounding_direction),
        OrderDirection::Ask => multiply_by_price(amount, price, rounding_direction),
    }''','''    let convert: fn(Uint128, Decimal256, RoundingDirection) -> ContractResult<Uint256> = match order {
        OrderDirection::Bid => divide_by_price,
        OrderDirection::Ask => multiply_by_price,
    };
    convert(amount, price, rounding_direction)''')]),
('tm-scale','',[(TM,'''    let price = if num_additive_ticks < 0 {
        geometric_component.checked_sub(additive_component)
    } else {
        geometric_component.checked_add(additive_component)
    }?;

    Ok(price)''','''    match num_additive_ticks.signum() {
        -1 => Ok(geometric_component.checked_sub(additive_component)?),
        _ => Ok(geometric_component.checked_add(additive_component)?),
    }''')]),
('tm-div-euclid','',[(TM,'''    let num_additive_ticks =
        tick_index - (geometric_exponent_delta * GEOMETRIC_EXPONENT_INCREMENT_DISTANCE_IN_TICKS);
''','''    let (steps, width) = (
        geometric_exponent_delta,
        GEOMETRIC_EXPONENT_INCREMENT_DISTANCE_IN_TICKS,
    );
    let num_additive_ticks = tick_index - steps * width;
''')]),
('tm-contains','',[(TM,'''    ensure!(
        tick_index >= MIN_TICK && tick_index <= MAX_TICK,
        ContractError::TickOutOfBounds {
            tick_id: tick_index
        }
    );
''','''    if !(MIN_TICK..=MAX_TICK).contains(&tick_index) {
        return Err(ContractError::TickOutOfBounds {
            tick_id: tick_index,
        });
    }
''')]),
('t-closure-sync','',[(T,'''        tick_value.effective_total_amount_swapped = tick_value
            .effective_total_amount_swapped
            .checked_add(realized_since_last_sync)?;
        tick_value.cumulative_realized_cancels = new_cumulative_realized_cancels;
        tick_value.last_tick_sync_etas = target_etas;
''','''        tick_value = crate::types::TickValues {
            effective_total_amount_swapped: tick_value
                .effective_total_amount_swapped
                .checked_add(realized_since_last_sync)?,
            cumulative_realized_cancels: new_cumulative_realized_cancels,
            last_tick_sync_etas: target_etas,
            ..tick_value
        };
''')]),
('t-split-side','',[(T,'''    // Write updated tick values to state
    tick_state.set_values(OrderDirection::Bid, bid_values.clone());
    tick_state.set_values(OrderDirection::Ask, ask_values.clone());
    TICK_STATE.save(storage, tick_id, &tick_state)?;

    Ok(())''','''    // Write updated tick values to state
    TICK_STATE
        .update(storage, tick_id, |_| -> Result<_, ContractError> {
            tick_state.bid_values = bid_values;
            tick_state.ask_values = ask_values;
            Ok(tick_state)
        })
        .map(|_| ())''')]),
('n-children-struct','',[(N,'''        let maybe_left = self.get_left(storage)?;
        let maybe_right = self.get_right(storage)?;

        let left_exists = maybe_left.is_some();
        let right_exists = maybe_right.is_some();

        if !self.has_child() {
            return Ok(());
        }
''','''        if !self.has_child() {
            return Ok(());
        }
        let (maybe_left, maybe_right) = self.children(storage)?;
        let (left_exists, right_exists) = (maybe_left.is_some(), maybe_right.is_some());
'''),(N,'''    pub fn has_child(&self) -> bool {''','''    pub fn children(&self, storage: &dyn Storage) -> ContractResult<(Option<Self>, Option<Self>)> {
        Ok((self.get_left(storage)?, self.get_right(storage)?))
    }

    pub fn has_child(&self) -> bool {''')]),
('n-fold-weights','',[(N,'''        let weight = maybe_left
            .map(|n| n.get_weight())
            .unwrap_or_default()
            .max(maybe_right.map(|n| n.get_weight()).unwrap_or_default());
        self.set_weight(weight + 1)?;
''','''        let weight = [maybe_left, maybe_right]
            .into_iter()
            .flatten()
            .map(|n| n.get_weight())
            .max()
            .unwrap_or(0);
        self.set_weight(weight + 1)?;
''')]),
('n-fold-ranges','',[(N,'''        let (min, max) = if left_exists && !right_exists {
            let left = maybe_left.clone().unwrap();
            (left.get_min_range(), left.get_max_range())
        } else if right_exists && !left_exists {
            let right = maybe_right.clone().unwrap();
            (right.get_min_range(), right.get_max_range())
        } else {
            let left = maybe_left.clone().unwrap();
            let right = maybe_right.clone().unwrap();

            (
                left.get_min_range().min(right.get_min_range()),
                left.get_max_range().max(right.get_max_range()),
            )
        };''','''        let _ = (left_exists, right_exists);
        let (min, max) = match (&maybe_left, &maybe_right) {
            (Some(only), None) | (None, Some(only)) => (only.get_min_range(), only.get_max_range()),
            (Some(left), Some(right)) => (
                left.get_min_range().min(right.get_min_range()),
                left.get_max_range().max(right.get_max_range()),
            ),
            (None, None) => unreachable!(),
        };''')]),
('n-rotate-shared','',[(N,'''        // Update the parent's child pointers.
        if is_left_child {
            let mut parent = maybe_parent.clone().unwrap();
            parent.left = Some(right.key);
            parent.save(storage)?;
        }
        if is_right_child {
            let mut parent = maybe_parent.unwrap();
            parent.right = Some(right.key);
            parent.save(storage)?;
        }

        Ok(())
    }

    #[cfg(test)]''','''        if let Some(mut parent) = maybe_parent {
            if is_left_child {
                parent.left = Some(right.key);
            } else if is_right_child {
                parent.right = Some(right.key);
            }
            parent.save(storage)?;
        }

        Ok(())
    }

    #[cfg(test)]''')]),
('st-iter-helper','',[(ST,'''    add_directional''','''    add_directional''')] if False else [(ST,'''    let current_liquidity = DIRECTION_TOTAL_LIQUIDITY
        .load(storage, direction_key)
        .unwrap_or_default();
    DIRECTION_TOTAL_LIQUIDITY.save(
        storage,
        direction_key,
        &(current_liquidity.checked_add(amount)?),
    )?;
    Ok(())''','''    DIRECTION_TOTAL_LIQUIDITY.update(storage, direction_key, |current| {
        current
            .unwrap_or_default()
            .checked_add(amount)
            .map_err(ContractError::from)
    })?;
    Ok(())''')]),
('st-owner-match-arms','',[(ST,'''    let iter = match filter {
        FilterOwnerOrders::All(owner) => orders().idx.owner.prefix(owner),
        FilterOwnerOrders::ByTick(tick_id, owner) => {
            orders().idx.tick_and_owner.prefix((tick_id, owner))
        }
    };

    // Get orders based on pagination
    let orders: Vec<LimitOrder> = iter
        .range(storage, min, max, Order::Ascending)
        .take(page_size)
        .filter_map(|item| item.ok())
        .map(|(_, order)| order)
        .collect();

    Ok(orders)''','''    let prefix = match filter {
        FilterOwnerOrders::All(owner) => orders().idx.owner.prefix(owner),
        FilterOwnerOrders::ByTick(tick_id, owner) => {
            orders().idx.tick_and_owner.prefix((tick_id, owner))
        }
    };

    let mut page = Vec::new();
    for item in prefix.range(storage, min, max, Order::Ascending).take(page_size) {
        match item {
            Ok((_, order)) => page.push(order),
            Err(_) => continue,
        }
    }
    Ok(page)''')]),
('o-place-module','',[(O,'''    // If bid and tick_id is higher than next bid tick, update next bid tick
    // If ask and tick_id is lower than next ask tick, update next ask tick
    match order_direction {
        OrderDirection::Bid => {
            if tick_id > orderbook.next_bid_tick {
                orderbook.next_bid_tick = tick_id;
            }
        }
        OrderDirection::Ask => {
            if tick_id < orderbook.next_ask_tick {
                orderbook.next_ask_tick = tick_id;
            }
        }
    }
    ORDERBOOK.save(deps.storage, &orderbook)?;
''','''    let orderbook = pointers::advanced(orderbook, order_direction, tick_id);
    ORDERBOOK.save(deps.storage, &orderbook)?;
'''),(O,'''    let mut orderbook = ORDERBOOK.load(deps.storage)?;

    // Validate''','''    let orderbook = ORDERBOOK.load(deps.storage)?;

    // Validate'''),(O,'''pub fn cancel_limit(''','''mod pointers {
    use super::{OrderDirection, Orderbook};

    pub fn advanced(book: Orderbook, direction: OrderDirection, tick_id: i64) -> Orderbook {
        match direction {
            OrderDirection::Bid => Orderbook {
                next_bid_tick: i64::max(book.next_bid_tick, tick_id),
                ..book
            },
            OrderDirection::Ask => Orderbook {
                next_ask_tick: i64::min(book.next_ask_tick, tick_id),
                ..book
            },
        }
    }
}

pub fn cancel_limit(''')]),
('o-claim-transpose','',[(O,'''    let mut bounty = Uint256::zero();
    if let Some(claim_bounty) = order.claim_bounty {
        // Skip this step if the output amount is zero.
        //
        // We use a nested if here because combining `let` with logical operator
        // is currently unstable in Rust.
        if !amount.is_zero() {
            // Multiply by the claim bounty ratio and convert to Uint128.
            // Ensure claimed amount is updated to reflect the bounty.
            let bounty_amount =
                Decimal256::from_ratio(amount, Uint256::one()).checked_mul(claim_bounty)?;
            bounty = bounty_amount.to_uint_floor();
            amount = amount.checked_sub(bounty)?;
        }
    }
''','''    let bounty = order
        .claim_bounty
        .map(|rate| Decimal256::from_ratio(amount, Uint256::one()).checked_mul(rate))
        .transpose()?
        .map_or_else(Uint256::zero, |due| due.to_uint_floor());
    amount = amount.checked_sub(bounty)?;
''')]),
('o-claim-fee-mulfloor','',[(O,'''    let maker_fee = get_maker_fee(storage)?;
    let mut maker_fee_amount = Uint256::zero();
    if !maker_fee.is_zero() {
        // Skip this step if the output amount is zero.
        //
        // We use a nested if here because combining `let` with logical operator
        // is currently unstable in Rust.
        if !amount.is_zero() {
            // Calculate the fee amount based on the quantity originally being sent to the claimer
            maker_fee_amount = Decimal256::from_ratio(raw_amount, 1u128)
                .checked_mul(maker_fee)?
                .to_uint_floor();
            amount = amount.checked_sub(maker_fee_amount)?;
        }
    }
''','''    let maker_fee_amount = match get_maker_fee(storage)? {
        fee if fee.is_zero() || amount.is_zero() => Uint256::zero(),
        fee => Decimal256::from_ratio(raw_amount, 1u128)
            .checked_mul(fee)?
            .to_uint_floor(),
    };
    amount -= maker_fee_amount;
''')]),
('o-claim-err-first','',[(O,'''    // Fetch tick values for current order direction
    let tick_state = TICK_STATE
        .may_load(storage, tick_id)?
        .ok_or(ContractError::InvalidTickId { tick_id })?;

    let key = (tick_id, order_id);
    // Check for the order, error if not found
    let mut order = orders()
        .may_load(storage, &key)?
        .ok_or(ContractError::OrderNotFound { tick_id, order_id })?;
''','''    // Fetch tick values for current order direction
    let key = (tick_id, order_id);
    let (tick_state, mut order) = match (
        TICK_STATE.may_load(storage, tick_id)?,
        orders().may_load(storage, &key)?,
    ) {
        (None, _) => return Err(ContractError::InvalidTickId { tick_id }),
        (_, None) => return Err(ContractError::OrderNotFound { tick_id, order_id }),
        (Some(tick), Some(order)) => (tick, order),
    };
''')]),
('o-cancel-key-order','',[(O,'''    orders().remove(deps.storage, &(order.tick_id, order.order_id))?;
''','''    orders().replace(deps.storage, &key, None, Some(&order))?;
''')]),
('o-place-update','',[(O,'''    orders().save(deps.storage, &(tick_id, order_id), &limit_order)?;
''','''    orders().replace(deps.storage, &(tick_id, order_id), Some(&limit_order), None)?;
''')]),
('o-event-fn','',[(O,'''    Event::new("limitClaimed").add_attributes(vec![
        ("sender", sender.as_str()),
        ("tick_id", &order.tick_id.to_string()),
        ("order_id", &order.order_id.to_string()),
        ("quantity_remaining", &order.quantity.to_string()),''','''    let LimitOrder {
        tick_id, order_id, ..
    } = order;
    Event::new("limitClaimed").add_attributes(vec![
        ("sender", sender.as_str()),
        ("tick_id", &format!("{tick_id}")),
        ("order_id", &format!("{}", order_id)),
        ("quantity_remaining", &order.quantity.to_string()),''')]),
('o-swap-save-map','',[(O,'''    for (tick_id, tick_state) in tick_updates {
        TICK_STATE.save(storage, tick_id, &tick_state)?;
    }
''','''    tick_updates
        .iter()
        .map(|(tick_id, tick_state)| TICK_STATE.save(storage, *tick_id, tick_state))
        .collect::<Result<(), _>>()?;
''')]),
('o-swap-save-index','',[(O,'''    for (tick_id, tick_state) in tick_updates {
        TICK_STATE.save(storage, tick_id, &tick_state)?;
    }
''','''    let mut at = 0;
    while at < tick_updates.len() {
        let (tick_id, tick_state) = &tick_updates[at];
        TICK_STATE.save(storage, *tick_id, tick_state)?;
        at += 1;
    }
''')]),
('o-swap-save-for-index','',[(O,'''    for (tick_id, tick_state) in tick_updates {
        TICK_STATE.save(storage, tick_id, &tick_state)?;
    }
''','''    for at in 0..tick_updates.len() {
        TICK_STATE.save(storage, tick_updates[at].0, &tick_updates[at].1)?;
    }
''')]),
]
