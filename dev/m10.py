# behaviour-preserving refactors, fourth corpus: every file but order.rs
O='order.rs'; S='sudo.rs'; T='tick.rs'; ST='state.rs'; Q='query.rs'; AU='auth.rs'; C='contract.rs'; N='sumtree/node.rs'; TR='sumtree/tree.rs'; TM='tick_math.rs'; OB='orderbook.rs'; TO='types/orderbook.rs'; TT='types/tick.rs'; TC='types/coin.rs'; TD='types/order.rs'
import os
SRC='/repo/contracts/sumtree-orderbook/src/'
def cut(f,a,b):
    s=open(SRC+f).read(); i=s.index(a); return s[i:s.index(b,i)]
def fn(f,name):
    """source of a whole item, from its signature to its closing brace at column 0 or 4"""
    s=open(SRC+f).read(); i=s.index(name); l=s.rindex('\n',0,i)+1; ind=len(s[l:i])-len(s[l:i].lstrip())
    e=s.index('\n'+' '*ind+'}\n',i)+len('\n'+' '*ind+'}\n'); return s[l:e]
M=[]
def m(name,*e):
    M.append((name,'',list(e[0])) if isinstance(e[0],list) else (name,'')+tuple(e))
# ---------------------------------------------------------------- sudo.rs
m('s-direction-local',S,'''    let tick_bound = target_tick.unwrap_or(match order_direction {
        OrderDirection::Bid => MAX_TICK,
        OrderDirection::Ask => MIN_TICK,
    });''','''    let tick_bound = match (target_tick, order_direction) {
        (Some(tick), _) => tick,
        (None, OrderDirection::Bid) => MAX_TICK,
        (None, OrderDirection::Ask) => MIN_TICK,
    };''')
m('s-req-struct',[(S,'''        SudoMsg::SwapExactAmountIn {
            sender,
            token_in,
            token_out_denom,
            token_out_min_amount,
            swap_fee,
        } => dispatch_swap_exact_amount_in(
            deps,
            env,
            sender,
            token_in,
            token_out_denom,
            token_out_min_amount,
            swap_fee,
            None,
        ),''','''        SudoMsg::SwapExactAmountIn {
            sender,
            token_in,
            token_out_denom,
            token_out_min_amount,
            swap_fee,
        } => SwapRequest {
            sender,
            token_in,
            token_out_denom,
            token_out_min_amount,
            swap_fee,
            target_tick: None,
        }
        .run(deps, env),'''),(S,'''/// Temporarily unimplemented''','''struct SwapRequest {
    sender: String,
    token_in: Coin,
    token_out_denom: String,
    token_out_min_amount: Uint128,
    swap_fee: Decimal,
    target_tick: Option<i64>,
}

impl SwapRequest {
    fn run(self, deps: DepsMut, env: Env) -> ContractResult<Response> {
        let Self {
            sender,
            token_in,
            token_out_denom,
            token_out_min_amount,
            swap_fee,
            target_tick,
        } = self;
        dispatch_swap_exact_amount_in(
            deps,
            env,
            sender,
            token_in,
            token_out_denom,
            token_out_min_amount,
            swap_fee,
            target_tick,
        )
    }
}

/// Temporarily unimplemented''')])
m('s-output-index',S,'''    let MsgSend256 { amount, .. } = bank_msg.clone();
    let output_amt = amount.first().ok_or(ContractError::InvalidSwap {
        error: "Market order did not generate an output message".to_string(),
    })?;''','''    let Some(output_amt) = bank_msg.amount.get(0).cloned() else {
        return Err(ContractError::InvalidSwap {
            error: "Market order did not generate an output message".to_string(),
        });
    };
    let output_amt = &output_amt;''')
m('s-output-iter',S,'''    let MsgSend256 { amount, .. } = bank_msg.clone();
    let output_amt = amount.first().ok_or(ContractError::InvalidSwap {
        error: "Market order did not generate an output message".to_string(),
    })?;''','''    let MsgSend256 { amount, .. } = bank_msg.clone();
    let output_amt = amount
        .iter()
        .next()
        .ok_or_else(|| ContractError::InvalidSwap {
            error: "Market order did not generate an output message".to_string(),
        })?;''')
m('s-msgs-chain',S,'''    let mut bank_msgs = vec![SubMsg::reply_on_error(
        bank_msg,
        REPLY_ID_SUDO_SWAP_EXACT_IN,
    )];

    if !order.quantity.is_zero() {
        bank_msgs.push(SubMsg::reply_on_error(
            BankMsg::Send {
                to_address: order.owner.to_string(),
                amount: vec![coin(order.quantity.u128(), token_in.clone().denom)],
            },
            REPLY_ID_REFUND,
        ));
    }
''','''    let refund = (!order.quantity.is_zero()).then(|| {
        SubMsg::reply_on_error(
            BankMsg::Send {
                to_address: order.owner.to_string(),
                amount: vec![coin(order.quantity.u128(), &token_in.denom)],
            },
            REPLY_ID_REFUND,
        )
    });
    let bank_msgs: Vec<SubMsg> = std::iter::once(SubMsg::reply_on_error(
        bank_msg,
        REPLY_ID_SUDO_SWAP_EXACT_IN,
    ))
    .chain(refund)
    .collect();
''')
m('s-resp-chain',S,'''    let mut bank_msgs = vec![SubMsg::reply_on_error(
        bank_msg,
        REPLY_ID_SUDO_SWAP_EXACT_IN,
    )];

    if !order.quantity.is_zero() {
        bank_msgs.push(SubMsg::reply_on_error(
            BankMsg::Send {
                to_address: order.owner.to_string(),
                amount: vec![coin(order.quantity.u128(), token_in.clone().denom)],
            },
            REPLY_ID_REFUND,
        ));
    }

    Ok(Response::default()
        .add_submessages(bank_msgs)
''','''    let mut response = Response::new().add_submessage(SubMsg::reply_on_error(
        bank_msg,
        REPLY_ID_SUDO_SWAP_EXACT_IN,
    ));

    if order.quantity > Uint128::zero() {
        let refund = BankMsg::Send {
            to_address: order.owner.into_string(),
            amount: vec![Coin {
                denom: token_in.denom.clone(),
                amount: order.quantity,
            }],
        };
        response = response.add_submessage(SubMsg::reply_on_error(refund, REPLY_ID_REFUND));
    }

    Ok(response
''')
m('s-attr-each',S,'''        .add_attributes(vec![
            ("method", "swapExactAmountIn"),
            ("sender", &sender),
            ("token_in", &token_in.to_string()),
            ("token_out_denom", &token_out_denom),
            ("token_out_min_amount", &token_out_min_amount.to_string()),
            ("output_quantity", &output.to_string()),
        ])''','''        .add_attribute("method", "swapExactAmountIn")
        .add_attribute("sender", sender)
        .add_attribute("token_in", token_in.to_string())
        .add_attribute("token_out_denom", token_out_denom)
        .add_attribute("token_out_min_amount", token_out_min_amount)
        .add_attribute("output_quantity", output)''')
m('s-validate-split',[(S,'''    validate_output_amount(
        Uint256::from_uint128(token_in.amount),
        Uint256::from_uint128(token_out_min_amount),
        &coin_u256(token_in.amount, &token_in.denom),
        output_amt,
    )?;
''','''    let input = coin_u256(token_in.amount, &token_in.denom);
    validate_output_amount(
        input.amount,
        token_out_min_amount.into(),
        &input,
        output_amt,
    )?;
''')])
m('s-validate-if',S,fn(S,'pub(crate) fn validate_output_amount'),'''pub(crate) fn validate_output_amount(
    max_in_amount: Uint256,
    min_out_amount: Uint256,
    input: &Coin256,
    output: &Coin256,
) -> ContractResult<()> {
    let error = if input.amount > max_in_amount {
        format!(
            "Exceeded max swap amount: expected {max_in_amount} received {}",
            input.amount
        )
    } else if output.amount < min_out_amount {
        format!(
            "Did not meet minimum swap amount: expected {min_out_amount} received {}",
            output.amount
        )
    } else if output.denom == input.denom {
        "Input and output denoms cannot be the same".to_string()
    } else {
        return Ok(());
    };
    Err(ContractError::InvalidSwap { error })
}
''')
m('s-invalid-helper',[(S,'''    ensure!(
        token_in_denom != token_out_denom,
        ContractError::InvalidSwap {
            error: "Input and output denoms cannot be the same".to_string()
        }
    );

    // Load''','''    if token_in_denom == token_out_denom {
        return Err(invalid_swap("Input and output denoms cannot be the same"));
    }

    // Load'''),(S,'''/// Temporarily unimplemented''','''fn invalid_swap(reason: impl Into<String>) -> ContractError {
    ContractError::InvalidSwap {
        error: reason.into(),
    }
}

/// Temporarily unimplemented''')])
m('s-active-bool',S,fn(S,'pub(crate) fn ensure_is_active'),'''pub(crate) fn ensure_is_active(deps: Deps) -> ContractResult<()> {
    match IS_ACTIVE.may_load(deps.storage)? {
        Some(false) => Err(ContractError::Inactive),
        Some(true) | None => Ok(()),
    }
}
''')
m('s-active-isactive-query',S,'''    let is_active = IS_ACTIVE.may_load(deps.storage)?.unwrap_or(true);

    ensure!(is_active, ContractError::Inactive);
''','''    let is_active = crate::query::is_active(deps)?;

    ensure!(is_active, ContractError::Inactive);
''')
m('s-active-method',[(S,'''    // Ensure orderbook is active
    ensure_is_active(deps.as_ref())?;

    match msg {''','''    // Ensure orderbook is active
    ensure_is_active(deps.as_ref()).and_then(|()| dispatch(deps, env, msg))
}

fn dispatch(deps: DepsMut, env: Env, msg: SudoMsg) -> ContractResult<Response> {
    match msg {''')])
m('s-fee-cmp',S,'''    ensure!(
        fee == EXPECTED_SWAP_FEE,
        ContractError::InvalidSwap {
            error: format!(
                "Provided swap fee does not match: expected {EXPECTED_SWAP_FEE} received {fee}"
            )
        }
    );
    Ok(())''','''    match fee.cmp(&EXPECTED_SWAP_FEE) {
        std::cmp::Ordering::Equal => Ok(()),
        _ => Err(ContractError::InvalidSwap {
            error: format!(
                "Provided swap fee does not match: expected {EXPECTED_SWAP_FEE} received {fee}"
            ),
        }),
    }''')
m('s-setactive-resp',S,'''    IS_ACTIVE.save(deps.storage, &active)?;

    Ok(Response::default().add_attributes(vec![
        ("method", "set_active"),
        ("active", &active.to_string()),
    ]))''','''    IS_ACTIVE.update(deps.storage, |_| -> ContractResult<bool> { Ok(active) })?;

    Ok(Response::new()
        .add_attribute("method", "set_active")
        .add_attribute("active", if active { "true" } else { "false" }))''') if False else m('s-setactive-resp',S,'''    IS_ACTIVE.save(deps.storage, &active)?;

    Ok(Response::default().add_attributes(vec![
        ("method", "set_active"),
        ("active", &active.to_string()),
    ]))''','''    IS_ACTIVE.save(deps.storage, &active)?;

    Ok(Response::new()
        .add_attribute("method", "set_active")
        .add_attribute("active", if active { "true" } else { "false" }))''')
# ---------------------------------------------------------------- tick.rs
LOOP=cut(T,'    // Sync tick for each order direction.','    // Write updated tick values to state')
m('t-two-calls',[(T,LOOP,'''    sync_side(storage, tick_id, OrderDirection::Bid, &mut bid_values, current_tick_bid_etas)?;
    sync_side(storage, tick_id, OrderDirection::Ask, &mut ask_values, current_tick_ask_etas)?;

'''),(T,'''/// Syncs the tick state''','''fn sync_side(
    storage: &mut dyn Storage,
    tick_id: i64,
    direction: OrderDirection,
    values: &mut TickValues,
    target: Decimal256,
) -> Result<(), ContractError> {
    if values.last_tick_sync_etas == target {
        return Ok(());
    }
    let before = values.cumulative_realized_cancels;
    let root = get_or_init_root_node(storage, tick_id, direction)?;
    let after = get_prefix_sum(storage, root, target, before)?;
    let Ok(growth) = after.checked_sub(before) else {
        return Err(ContractError::InvalidPrefixSum {
            error: Some(format!(
                "New prefix sum less than previous, previous: {}, new: {}",
                before, after
            )),
        });
    };
    values.effective_total_amount_swapped = values
        .effective_total_amount_swapped
        .checked_add(growth)?;
    values.cumulative_realized_cancels = after;
    values.last_tick_sync_etas = target;
    if values.effective_total_amount_swapped > values.cumulative_total_value {
        return Err(ContractError::InvalidTickSync);
    }
    Ok(())
}

/// Syncs the tick state'''),(T,'types::OrderDirection,','types::{OrderDirection, TickValues},')])
m('t-returns-new',[(T,LOOP,'''    bid_values = synced(storage, tick_id, OrderDirection::Bid, bid_values, current_tick_bid_etas)?;
    ask_values = synced(storage, tick_id, OrderDirection::Ask, ask_values, current_tick_ask_etas)?;

'''),(T,'''/// Syncs the tick state''','''fn synced(
    storage: &mut dyn Storage,
    tick_id: i64,
    direction: OrderDirection,
    old: TickValues,
    target: Decimal256,
) -> Result<TickValues, ContractError> {
    if old.last_tick_sync_etas == target {
        return Ok(old);
    }
    let root = get_or_init_root_node(storage, tick_id, direction)?;
    let cumulative_realized_cancels =
        get_prefix_sum(storage, root, target, old.cumulative_realized_cancels)?;
    let growth = cumulative_realized_cancels
        .checked_sub(old.cumulative_realized_cancels)
        .map_err(|_| ContractError::InvalidPrefixSum {
            error: Some(format!(
                "New prefix sum less than previous, previous: {}, new: {}",
                old.cumulative_realized_cancels, cumulative_realized_cancels
            )),
        })?;
    let new = TickValues {
        effective_total_amount_swapped: old.effective_total_amount_swapped.checked_add(growth)?,
        cumulative_realized_cancels,
        last_tick_sync_etas: target,
        ..old
    };
    ensure!(
        new.effective_total_amount_swapped <= new.cumulative_total_value,
        ContractError::InvalidTickSync
    );
    Ok(new)
}

/// Syncs the tick state'''),(T,'types::OrderDirection,','types::{OrderDirection, TickValues},')])
m('t-array-pairs',[(T,'''    for &direction in [OrderDirection::Bid, OrderDirection::Ask].iter() {
        let (mut tick_value, target_etas) = match direction {
            OrderDirection::Bid => (bid_values.clone(), current_tick_bid_etas),
            OrderDirection::Ask => (ask_values.clone(), current_tick_ask_etas),
        };
''','''    for (direction, target_etas) in [
        (OrderDirection::Bid, current_tick_bid_etas),
        (OrderDirection::Ask, current_tick_ask_etas),
    ] {
        let mut tick_value = tick_state.get_values(direction);
'''),(T,'''        match direction {
            OrderDirection::Bid => bid_values = tick_value,
            OrderDirection::Ask => ask_values = tick_value,
        };
''','''        tick_state.set_values(direction, tick_value);
'''),(T,'''    tick_state.set_values(OrderDirection::Bid, bid_values.clone());
    tick_state.set_values(OrderDirection::Ask, ask_values.clone());
''',''),(T,'''    let mut bid_values = tick_state.get_values(OrderDirection::Bid);
    let mut ask_values = tick_state.get_values(OrderDirection::Ask);
''','''    let bid_values = tick_state.get_values(OrderDirection::Bid);
    let ask_values = tick_state.get_values(OrderDirection::Ask);
''')])
m('t-mut-ref',[(T,'''        let (mut tick_value, target_etas) = match direction {
            OrderDirection::Bid => (bid_values.clone(), current_tick_bid_etas),
            OrderDirection::Ask => (ask_values.clone(), current_tick_ask_etas),
        };
''','''        let (tick_value, target_etas) = match direction {
            OrderDirection::Bid => (&mut bid_values, current_tick_bid_etas),
            OrderDirection::Ask => (&mut ask_values, current_tick_ask_etas),
        };
'''),(T,'''        match direction {
            OrderDirection::Bid => bid_values = tick_value,
            OrderDirection::Ask => ask_values = tick_value,
        };
''','')])
m('t-ask-first',[(T,'[OrderDirection::Bid, OrderDirection::Ask].iter()','[OrderDirection::Ask, OrderDirection::Bid].iter()')])
m('t-guard-first',T,'''        // Update the tick state to represent new ETAS and new cumulative realized cancels.
        tick_value.effective_total_amount_swapped = tick_value
            .effective_total_amount_swapped
            .checked_add(realized_since_last_sync)?;
        tick_value.cumulative_realized_cancels = new_cumulative_realized_cancels;
        tick_value.last_tick_sync_etas = target_etas;

        // Defense in depth guardrail: ensure that tick sync does not push tick ETAS past CTT.
        ensure!(
            tick_value.effective_total_amount_swapped <= tick_value.cumulative_total_value,
            ContractError::InvalidTickSync
        );
''','''        let etas = tick_value
            .effective_total_amount_swapped
            .checked_add(realized_since_last_sync)?;

        // Defense in depth guardrail: ensure that tick sync does not push tick ETAS past CTT.
        if etas > tick_value.cumulative_total_value {
            return Err(ContractError::InvalidTickSync);
        }

        tick_value.last_tick_sync_etas = target_etas;
        tick_value.cumulative_realized_cancels = new_cumulative_realized_cancels;
        tick_value.effective_total_amount_swapped = etas;
''')
m('t-skip-both-any',T,'''    if bid_values.last_tick_sync_etas == current_tick_bid_etas
        && ask_values.last_tick_sync_etas == current_tick_ask_etas
    {
        return Ok(());
    }
''','''    let stale = [
        (&bid_values, current_tick_bid_etas),
        (&ask_values, current_tick_ask_etas),
    ]
    .iter()
    .any(|(values, target)| values.last_tick_sync_etas != *target);
    if !stale {
        return Ok(());
    }
''')
# ---------------------------------------------------------------- query.rs
m('q-spot-tuple',Q,cut(Q,'    // Determine next tick based on desired','    Ok(SpotPriceResponse {'),'''    let spot_price = match direction {
        OrderDirection::Ask => tick_to_price(orderbook.next_bid_tick)?,
        OrderDirection::Bid => {
            let price = tick_to_price(orderbook.next_ask_tick)?;
            price.inv().unwrap()
        }
    };

''')
m('q-spot-fn',[(Q,'''    // Determine next tick based on desired order direction
    let next_tick = match direction {
        OrderDirection::Ask => orderbook.next_bid_tick,
        OrderDirection::Bid => orderbook.next_ask_tick,
    };
''','''    let next_tick = orderbook.best_tick(direction.opposite());
'''),(TO,'''    /// Get the expected denomination''','''    pub fn best_tick(&self, side: OrderDirection) -> i64 {
        match side {
            OrderDirection::Bid => self.next_bid_tick,
            OrderDirection::Ask => self.next_ask_tick,
        }
    }

    /// Get the expected denomination''')])
m('q-calc-struct',Q,'''    let order::PostMarketOrderState { output, .. } =
        order::run_market_order_internal(deps.storage, &mut mock_order, tick_bound)?;

    Ok(CalcOutAmtGivenInResponse {
        token_out: output.into(),
    })''','''    order::run_market_order_internal(deps.storage, &mut mock_order, tick_bound).map(|state| {
        CalcOutAmtGivenInResponse {
            token_out: state.output.into(),
        }
    })''')
m('q-calc-owner',Q,'''    // Generate mock order for query
    let mut mock_order = MarketOrder::new(token_in.amount, direction, Addr::unchecked("querier"));
''','''    // Generate mock order for query
    let mut mock_order = MarketOrder {
        quantity: token_in.amount,
        order_direction: direction,
        owner: Addr::unchecked(""),
    };
''')
m('q-pool-array',Q,cut(Q,'    // Create tracking variables for both denoms','    // May return 0 amounts'),'''    let mut total_pool_liquidity = Vec::with_capacity(2);
    for direction in [OrderDirection::Ask, OrderDirection::Bid] {
        let liquidity = get_directional_liquidity(deps.storage, direction)?;
        let amount = Uint128::try_from(liquidity.to_uint_floor()).unwrap();
        total_pool_liquidity.push(Coin {
            denom: orderbook.get_expected_denom(&direction),
            amount,
        });
    }

''') if False else m('q-pool-array',[(Q,cut(Q,'    // Create tracking variables for both denoms','    // May return 0 amounts'),'''    let mut total_pool_liquidity = Vec::with_capacity(2);
    for direction in [OrderDirection::Ask, OrderDirection::Bid] {
        let liquidity = get_directional_liquidity(deps.storage, direction)?;
        let amount = Uint128::try_from(liquidity.to_uint_floor()).unwrap();
        total_pool_liquidity.push(Coin {
            denom: orderbook.get_expected_denom(&direction),
            amount,
        });
    }

'''),(Q,'''        total_pool_liquidity: vec![ask_amount_coin, bid_amount_coin],''','''        total_pool_liquidity,''')])
m('q-ticks-tuple-from',[(Q,'''            .take(limit)
            .map(|maybe_tick| {
                let (tick_id, tick_state) = maybe_tick.unwrap();
                TickIdAndState {
                    tick_id,
                    tick_state,
                }
            })
            .collect()
    } else {''','''            .take(limit)
            .map(|maybe_tick| as_tick(maybe_tick.unwrap()))
            .collect()
    } else {'''),(Q,'''/// Returns the current active status''','''fn as_tick((tick_id, tick_state): (i64, TickState)) -> TickIdAndState {
    TickIdAndState {
        tick_id,
        tick_state,
    }
}

/// Returns the current active status''')])
m('q-ticks-maxlimit',Q,cut(Q,'    // Map (tick id, tick state) to return struct','    Ok(TicksResponse {\n        ticks: all_tick_states'),'''    let all_tick_states: Vec<TickIdAndState> = all_ticks
        .take(limit.unwrap_or(usize::MAX))
        .map(Result::unwrap)
        .map(|(tick_id, tick_state)| TickIdAndState {
            tick_id,
            tick_state,
        })
        .collect();

''')
m('q-ticks-by-id-ok-or',Q,'''    let mut ticks: Vec<TickIdAndState> = vec![];
    for tick_id in tick_ids {
        let Some(tick_state) = TICK_STATE.may_load(deps.storage, tick_id)? else {
            return Err(ContractError::InvalidTickId { tick_id });
        };

        ticks.push(TickIdAndState {
            tick_id,
            tick_state,
        });
    }

    Ok(TicksResponse { ticks })''','''    let ticks = tick_ids
        .into_iter()
        .map(|tick_id| {
            let tick_state = TICK_STATE
                .may_load(deps.storage, tick_id)?
                .ok_or(ContractError::InvalidTickId { tick_id })?;
            Ok(TickIdAndState {
                tick_id,
                tick_state,
            })
        })
        .collect::<ContractResult<Vec<_>>>()?;

    Ok(TicksResponse { ticks })''')
m('q-unreal-fn',[(Q,fn(Q,'fn get_unrealized_cancels'),'''fn get_unrealized_cancels(
    deps: Deps,
    tick_state: TickState,
    tick_id: i64,
) -> ContractResult<UnrealizedCancels> {
    let unrealized = |direction: OrderDirection| -> ContractResult<Decimal256> {
        let Ok(root_node) = get_root_node(deps.storage, tick_id, direction) else {
            return Ok(Decimal256::zero());
        };
        let values = tick_state.get_values(direction);
        let realized = get_prefix_sum(
            deps.storage,
            root_node,
            values.effective_total_amount_swapped,
            values.cumulative_realized_cancels,
        )?;
        Ok(realized.saturating_sub(values.cumulative_realized_cancels))
    };

    Ok(UnrealizedCancels {
        ask_unrealized_cancels: unrealized(OrderDirection::Ask)?,
        bid_unrealized_cancels: unrealized(OrderDirection::Bid)?,
    })
}
''')])
m('q-unreal-if-let',Q,'''        let maybe_root_node = get_root_node(deps.storage, tick_id, direction);

        let unrealized_cancels = if maybe_root_node.is_ok() {
            let root_node = maybe_root_node.unwrap();
''','''        let unrealized_cancels = if let Ok(root_node) =
            get_root_node(deps.storage, tick_id, direction)
        {
''')
m('q-owner-struct-first',Q,'''    let count = orders()
        .idx
        .owner
        .prefix(owner.clone())
        .keys(deps.storage, None, None, Order::Ascending)
        .count();
    let orders = get_orders_by_owner(''','''    let index = orders();
    let of_owner = index.idx.owner.prefix(owner.clone());
    let count = of_owner
        .keys(deps.storage, None, None, Order::Ascending)
        .count();
    let orders = get_orders_by_owner(''')
m('q-tick-bounds-local',Q,cut(Q,'    let count = orders()\n        .prefix(tick_id)','    Ok(OrdersResponse {\n        count: count as u64,\n        orders,\n    })\n}\n') if False else '''    let count = orders()
        .prefix(tick_id)
        .keys(
            deps.storage,
            start_from.map(Bound::inclusive),
            end_at.map(Bound::inclusive),
            Order::Ascending,
        )
        .count();
    let orders = orders()
        .prefix(tick_id)
        .range(
            deps.storage,
            start_from.map(Bound::inclusive),
            end_at.map(Bound::inclusive),
            Order::Ascending,
        )
        .take(limit.unwrap_or(count as u64) as usize)
        .map(|res| res.unwrap().1)
        .collect();
''','''    let (min, max) = (
        start_from.map(Bound::inclusive),
        end_at.map(Bound::inclusive),
    );
    let all = orders();
    let on_tick = all.prefix(tick_id);
    let count = on_tick
        .keys(deps.storage, min.clone(), max.clone(), Order::Ascending)
        .count();
    let page = match limit {
        Some(limit) => limit as usize,
        None => count,
    };
    let orders = on_tick
        .range(deps.storage, min, max, Order::Ascending)
        .take(page)
        .map(|res| {
            let (_, order) = res.unwrap();
            order
        })
        .collect();
''')
m('q-denoms-destruct',Q,'''    let orderbook = ORDERBOOK.load(deps.storage)?;
    Ok(DenomsResponse {
        quote_denom: orderbook.quote_denom,
        base_denom: orderbook.base_denom,
    })''','''    let Orderbook {
        quote_denom,
        base_denom,
        ..
    } = orderbook_state(deps)?;
    Ok(DenomsResponse {
        quote_denom,
        base_denom,
    })''')
m('q-fee-const',Q,'''        swap_fee: Decimal::zero(),''','''        swap_fee: crate::constants::EXPECTED_SWAP_FEE,''')
# ---------------------------------------------------------------- auth.rs
m('a-holds-role',[(AU,'''    let admin = ADMIN.may_load(deps.storage)?;
    ensure!(
        admin == Some(sender.clone()),
        ContractError::Unauthorized {}
    );

    Ok(())''','''    if holds(deps, &ADMIN, sender)? {
        Ok(())
    } else {
        Err(ContractError::Unauthorized {})
    }'''),(AU,'''    let moderator = MODERATOR.may_load(deps.storage)?;
    let admin = ADMIN.may_load(deps.storage)?;

    ensure!(
        moderator == Some(sender.clone()) || admin == Some(sender.clone()),
        ContractError::Unauthorized {}
    );
''','''    ensure!(
        holds(deps, &MODERATOR, sender)? || holds(deps, &ADMIN, sender)?,
        ContractError::Unauthorized {}
    );
'''),(AU,'''// -- Ensure Methods --''','''fn holds(deps: Deps, role: &Item<Addr>, sender: &Addr) -> ContractResult<bool> {
    Ok(role.may_load(deps.storage)?.as_ref() == Some(sender))
}

// -- Ensure Methods --''')])
m('a-claim-helper',[(AU,'''    let offer = ADMIN_OFFER.may_load(deps.storage)?;
    ensure!(
        Some(info.sender.clone()) == offer,
        ContractError::Unauthorized {}
    );

    update_admin(''','''    ensure_is_offered(deps.as_ref(), ADMIN_OFFER, &info.sender)?;

    update_admin('''),(AU,'''    let offer = MODERATOR_OFFER.may_load(deps.storage)?;
    ensure!(
        Some(info.sender.clone()) == offer,
        ContractError::Unauthorized {}
    );

    update_moderator(''','''    ensure_is_offered(deps.as_ref(), MODERATOR_OFFER, &info.sender)?;

    update_moderator('''),(AU,'''// -- Ensure Methods --''','''fn ensure_is_offered(deps: Deps, offer: Item<Addr>, sender: &Addr) -> ContractResult<()> {
    match offer.may_load(deps.storage)? {
        Some(offered) if offered == *sender => Ok(()),
        _ => Err(ContractError::Unauthorized {}),
    }
}

// -- Ensure Methods --''')])
m('a-claim-take',AU,'''    update_admin(deps.storage, deps.api, info.sender)?;
    remove_admin_transfer(deps.storage)?;
''','''    update_admin(deps.storage, deps.api, info.sender)?;
''')
m('a-exists-load',AU,'''    let admin = ADMIN.may_load(deps.storage)?;
    ensure!(
        admin == Some(sender.clone()),
        ContractError::Unauthorized {}
    );
''','''    let Some(admin) = ADMIN.may_load(deps.storage)? else {
        return Err(ContractError::Unauthorized {});
    };
    ensure!(admin == sender, ContractError::Unauthorized {});
''')
m('a-gate-hoisted',[(AU,'''    match msg {
        // -- Admin Messages --

        // Offer admin''','''    match &msg {
        AuthExecuteMsg::SetMakerFee { .. } | AuthExecuteMsg::SetMakerFeeRecipient { .. } => {
            ensure_is_admin(deps.as_ref(), &info.sender)?
        }
        _ => {}
    }
    match msg {
        // -- Admin Messages --

        // Offer admin'''),(AU,'''    ensure_is_admin(deps.as_ref(), &info.sender)?;

    let maker_fee = set_maker_fee(''','''    let maker_fee = set_maker_fee('''),(AU,'''    ensure_is_admin(deps.as_ref(), &info.sender)?;

    let addr = deps''','''    let addr = deps''')]) if False else None
m('a-recipient-owned',AU,'''    let addr = deps
        .api
        .addr_validate(maker_fee_recipient.as_str())
        .map_err(|_| ContractError::InvalidMakerFeeRecipient)?;
    MAKER_FEE_RECIPIENT.save(deps.storage, &addr)?;
''','''    let addr = match deps.api.addr_validate(maker_fee_recipient.as_ref()) {
        Ok(addr) => addr,
        Err(_) => return Err(ContractError::InvalidMakerFeeRecipient),
    };
    MAKER_FEE_RECIPIENT.save(deps.storage, &addr)?;
''')
m('a-query-items',AU,'''    match msg {
        // Current Admin Query
        AuthQueryMsg::Admin {} => get_admin(deps.storage),
        // Current Admin Offer Query
        AuthQueryMsg::AdminOffer {} => get_admin_offer(deps.storage),
        // Current Moderator Query
        AuthQueryMsg::Moderator {} => get_moderator(deps.storage),
        // Current Moderator Offer Query
        AuthQueryMsg::ModeratorOffer {} => get_moderator_offer(deps.storage),
    }
''','''    let item = match msg {
        AuthQueryMsg::Admin {} => ADMIN,
        AuthQueryMsg::AdminOffer {} => ADMIN_OFFER,
        AuthQueryMsg::Moderator {} => MODERATOR,
        AuthQueryMsg::ModeratorOffer {} => MODERATOR_OFFER,
    };
    Ok(item.may_load(deps.storage)?)
''')
m('a-mod-first',AU,'''    let moderator = MODERATOR.may_load(deps.storage)?;
    let admin = ADMIN.may_load(deps.storage)?;

    ensure!(
        moderator == Some(sender.clone()) || admin == Some(sender.clone()),
        ContractError::Unauthorized {}
    );
''','''    let privileged = [
        ADMIN.may_load(deps.storage)?,
        MODERATOR.may_load(deps.storage)?,
    ];
    ensure!(
        privileged.into_iter().flatten().any(|addr| addr == *sender),
        ContractError::Unauthorized {}
    );
''')
m('a-mod-contains',AU,'''    ensure!(
        moderator == Some(sender.clone()) || admin == Some(sender.clone()),
        ContractError::Unauthorized {}
    );
''','''    ensure!(
        [moderator, admin].contains(&Some(sender.clone())),
        ContractError::Unauthorized {}
    );
''')
m('a-admin-err',AU,'''    ensure_is_admin(deps.as_ref(), &info.sender)?;

    remove_admin(deps.storage)?;
''','''    if let Err(err) = ensure_is_admin(deps.as_ref(), &info.sender) {
        return Err(err);
    }

    remove_admin(deps.storage)?;
''')
# ---------------------------------------------------------------- contract.rs
m('c-gate-if-let',C,'''    if !matches!(msg, ExecuteMsg::Auth(_)) {
        sudo::ensure_is_active(deps.as_ref())?;
    }

    match msg {''','''    let msg = match msg {
        // Switch does not apply to Auth messages
        ExecuteMsg::Auth(auth_msg) => return auth::dispatch(deps, info, auth_msg),
        other => other,
    };
    sudo::ensure_is_active(deps.as_ref())?;

    match msg {''')
m('c-reply-into',C,'''    ensure!(
        msg.result.is_ok(),
        ContractError::ReplyError {
            id: msg.id,
            error: msg.result.unwrap_err(),
        }
    );
    Ok(Response::default())''','''    let Reply { id, result, .. } = msg;
    result
        .into_result()
        .map(|_| Response::default())
        .map_err(|error| ContractError::ReplyError { id, error })''')
m('c-reply-if-let',C,'''    ensure!(
        msg.result.is_ok(),
        ContractError::ReplyError {
            id: msg.id,
            error: msg.result.unwrap_err(),
        }
    );
    Ok(Response::default())''','''    if let cosmwasm_std::SubMsgResult::Err(error) = msg.result {
        return Err(ContractError::ReplyError { id: msg.id, error });
    }
    Ok(Response::default())''')
m('c-query-bind',C,'''        QueryMsg::IsActive {} => Ok(to_json_binary(&query::is_active(deps)?)?),
        QueryMsg::GetSwapFee {} => Ok(to_json_binary(&query::get_swap_fee()?)?),''','''        QueryMsg::IsActive {} => query::is_active(deps).and_then(|a| Ok(to_json_binary(&a)?)),
        QueryMsg::GetSwapFee {} => {
            let fee = query::get_swap_fee()?;
            to_json_binary(&fee).map_err(ContractError::from)
        }''')
m('c-calc-merge',C,'''        } => Ok(to_json_binary(&query::calc_out_amount_given_in(
            deps,
            token_in,
            token_out_denom,
            swap_fee,
        )?)?),
        QueryMsg::CalcOutAmtGivenIn {
            token_in,
            token_out_denom,
            swap_fee,
        } =>''','''        }
        | QueryMsg::CalcOutAmtGivenIn {
            token_in,
            token_out_denom,
            swap_fee,
        } =>''')
m('c-inst-roles-helper',[(C,'''    let admin = deps.api.addr_validate(OSMOSIS_GOV_ADDR)?;
    ADMIN.save(deps.storage, &admin)?;
    let moderator = deps.api.addr_validate(CIRCUIT_BREAKER_SUBDAO_ADDR)?;
    MODERATOR.save(deps.storage, &moderator)?;
''','''    for (role, address) in [
        (&ADMIN, OSMOSIS_GOV_ADDR),
        (&MODERATOR, CIRCUIT_BREAKER_SUBDAO_ADDR),
    ] {
        let holder = deps.api.addr_validate(address)?;
        role.save(deps.storage, &holder)?;
    }
''')])
m('c-inst-move',C,'''    create_orderbook(deps, msg.quote_denom.clone(), msg.base_denom.clone())?;

    Ok(Response::new().add_attributes(vec![
        ("method", "instantiate"),
        ("quote_denom", &msg.quote_denom),
        ("base_denom", &msg.base_denom),
    ]))''','''    let InstantiateMsg {
        quote_denom,
        base_denom,
    } = msg;
    let response = Response::new()
        .add_attribute("method", "instantiate")
        .add_attribute("quote_denom", quote_denom.as_str())
        .add_attribute("base_denom", base_denom.as_str());
    create_orderbook(deps, quote_denom, base_denom)?;

    Ok(response)''')
# ---------------------------------------------------------------- state.rs
m('st-signed-helper',[(ST,'''    let direction_key = &direction.to_string();
    let current_liquidity = DIRECTION_TOTAL_LIQUIDITY
        .load(storage, direction_key)
        .unwrap_or_default();
    DIRECTION_TOTAL_LIQUIDITY.save(
        storage,
        direction_key,
        &(current_liquidity.checked_add(amount)?),
    )?;
    Ok(())''','''    change_directional_liquidity(storage, direction, |current| Ok(current.checked_add(amount)?))'''),
 (ST,'''    let direction_key = &direction.to_string();
    let current_liquidity = DIRECTION_TOTAL_LIQUIDITY
        .load(storage, direction_key)
        .unwrap_or_default();
    DIRECTION_TOTAL_LIQUIDITY.save(
        storage,
        direction_key,
        &(current_liquidity.checked_sub(amount)?),
    )?;
    Ok(())''','''    change_directional_liquidity(storage, direction, |current| Ok(current.checked_sub(amount)?))'''),
 (ST,'''/// Returns the current maker fee''','''fn change_directional_liquidity(
    storage: &mut dyn Storage,
    direction: OrderDirection,
    change: impl FnOnce(Decimal256) -> ContractResult<Decimal256>,
) -> ContractResult<()> {
    let current = get_directional_liquidity(storage, direction)?;
    let next = change(current)?;
    Ok(DIRECTION_TOTAL_LIQUIDITY.save(storage, &direction.to_string(), &next)?)
}

/// Returns the current maker fee''')])
m('st-key-static',[(ST,'''    let direction_key = &direction.to_string();
    let current_liquidity = DIRECTION_TOTAL_LIQUIDITY
        .load(storage, direction_key)
        .unwrap_or_default();
    Ok(current_liquidity)''','''    let direction_key = match direction {
        OrderDirection::Bid => "bid",
        OrderDirection::Ask => "ask",
    };
    let current_liquidity = DIRECTION_TOTAL_LIQUIDITY
        .load(storage, direction_key)
        .unwrap_or(Decimal256::zero());
    Ok(current_liquidity)''')])
m('st-id-may',ST,'''    let id = ORDER_ID.load(storage).unwrap_or_default();
    ORDER_ID.save(storage, &(id + 1))?;
    Ok(id)''','''    let id = match ORDER_ID.load(storage) {
        Ok(id) => id,
        Err(_) => 0,
    };
    let next = id + 1;
    ORDER_ID.save(storage, &next)?;
    Ok(id)''')
m('st-fee-match',ST,'''    let fee = MAKER_FEE.load(storage).unwrap_or_default();
    Ok(fee)''','''    Ok(match MAKER_FEE.load(storage) {
        Ok(fee) => fee,
        Err(_) => Decimal256::zero(),
    })''')
# ---------------------------------------------------------------- orderbook.rs / tick_math.rs
m('ob-fee-max',OB,'''    ensure!(
        maker_fee <= MAX_MAKER_FEE_PERCENTAGE,
        ContractError::InvalidMakerFee {}
    );
    MAKER_FEE.save(storage, &maker_fee)?;

    Ok(maker_fee)''','''    match maker_fee {
        fee if fee > MAX_MAKER_FEE_PERCENTAGE => Err(ContractError::InvalidMakerFee {}),
        fee => {
            MAKER_FEE.save(storage, &fee)?;
            Ok(fee)
        }
    }''')
m('ob-supply-fn',[(OB,'''    for denom in denoms {
        let maybe_supply = deps.querier.query_supply(denom.clone());

        // Ensure denom exists and has at least 1 token
        ensure!(
            maybe_supply.is_ok() && !maybe_supply.unwrap().amount.is_zero(),
            ContractError::InvalidDenom { denom }
        );
    }
''','''    for denom in denoms {
        // Ensure denom exists and has at least 1 token
        let minted = deps
            .querier
            .query_supply(&denom)
            .map(|supply| supply.amount > cosmwasm_std::Uint128::zero())
            .unwrap_or(false);
        if !minted {
            return Err(ContractError::InvalidDenom { denom });
        }
    }
''')])
m('ob-new-literal',OB,'''    let book = Orderbook::new(quote_denom, base_denom, 0, MIN_TICK, MAX_TICK);
''','''    let book = Orderbook {
        current_tick: 0,
        next_ask_tick: MAX_TICK,
        next_bid_tick: MIN_TICK,
        base_denom,
        quote_denom,
    };
''')
m('tm-mul-if-let',TM,'''    let amount_to_send_dec256 = price.checked_mul(Decimal256::from_ratio(
        Uint256::from_uint128(amount),
        Uint256::one(),
    ));
    ensure!(
        amount_to_send_dec256.is_ok(),
        ContractError::Overflow(OverflowError {
            operation: OverflowOperation::Mul,
            operand1: amount.to_string(),
            operand2: price.to_string(),
        })
    );
    let amount_to_send = rounding_direction.round(amount_to_send_dec256?);

    Ok(amount_to_send)''','''    let amount_dec = Decimal256::from_ratio(amount, 1u128);
    match price.checked_mul(amount_dec) {
        Ok(value) => Ok(rounding_direction.round(value)),
        Err(_) => Err(ContractError::Overflow(OverflowError {
            operation: OverflowOperation::Mul,
            operand1: amount.to_string(),
            operand2: price.to_string(),
        })),
    }''')
m('tm-delta-signed',TM,'''    let price = if num_additive_ticks < 0 {
        geometric_component.checked_sub(additive_component)
    } else {
        geometric_component.checked_add(additive_component)
    }?;

    Ok(price)''','''    match num_additive_ticks {
        n if n < 0 => Ok(geometric_component.checked_sub(additive_component)?),
        _ => Ok(geometric_component.checked_add(additive_component)?),
    }''')
m('tm-bounds-first',TM,'''    if tick_index == 0 {
        return Ok(Decimal256::one());
    }

    ensure!(
        tick_index >= MIN_TICK && tick_index <= MAX_TICK,
        ContractError::TickOutOfBounds {
            tick_id: tick_index
        }
    );
''','''    if !(MIN_TICK..=MAX_TICK).contains(&tick_index) {
        return Err(ContractError::TickOutOfBounds {
            tick_id: tick_index,
        });
    }

    if tick_index == 0 {
        return Ok(Decimal256::one());
    }
''')
m('tm-exp-expr',TM,'''    let mut exponent_at_current_tick = (EXPONENT_AT_PRICE_ONE as i64) + geometric_exponent_delta;
''','''    let mut exponent_at_current_tick =
        i64::from(EXPONENT_AT_PRICE_ONE) + geometric_exponent_delta;
''')
m('tm-pow-neg',TM,'''    let target_expo = Uint256::from(10u8).checked_pow(expo.unsigned_abs())?;
    if expo < 0 {
        Ok(Decimal256::checked_from_ratio(Uint256::one(), target_expo)?)
    } else {
        let res = Uint256::one().checked_mul(target_expo)?;
        Ok(Decimal256::from_ratio(res, Uint256::one()))
    }''','''    let target_expo = Uint256::from(10u8).checked_pow(expo.unsigned_abs())?;
    if expo.is_negative() {
        return Ok(Decimal256::checked_from_ratio(Uint256::one(), target_expo)?);
    }
    Ok(Decimal256::from_ratio(target_expo, Uint256::one()))''')
m('tm-value-guard',TM,'''    if amount.is_zero() {
        return Ok(Uint256::zero());
    }
    match order {
        OrderDirection::Bid => divide_by_price(amount, price, rounding_direction),
        OrderDirection::Ask => multiply_by_price(amount, price, rounding_direction),
    }''','''    match order {
        _ if amount == Uint128::zero() => Ok(Uint256::zero()),
        OrderDirection::Ask => multiply_by_price(amount, price, rounding_direction),
        OrderDirection::Bid => divide_by_price(amount, price, rounding_direction),
    }''')
# ---------------------------------------------------------------- types
m('ty-pair-match',TO,cut(TO,'        let in_out_tuple','        Ok(order_direction)\n'),'''        let order_direction =
            if token_in_denom == self.base_denom && token_out_denom == self.quote_denom {
                OrderDirection::Ask
            } else if token_in_denom == self.quote_denom && token_out_denom == self.base_denom {
                OrderDirection::Bid
            } else {
                return Err(ContractError::InvalidPair {
                    token_in_denom,
                    token_out_denom,
                });
            };

''')
m('ty-pair-guards',TO,cut(TO,'        let in_out_tuple','        Ok(order_direction)\n')+'        Ok(order_direction)\n','''        match (token_in_denom.as_str(), token_out_denom.as_str()) {
            (i, o) if i == self.base_denom && o == self.quote_denom => Ok(OrderDirection::Ask),
            (i, o) if i == self.quote_denom && o == self.base_denom => Ok(OrderDirection::Bid),
            _ => Err(ContractError::InvalidPair {
                token_in_denom,
                token_out_denom,
            }),
        }
''')
m('ty-expected-ref',TO,'''        match order_direction {
            OrderDirection::Bid => self.quote_denom.clone(),
            OrderDirection::Ask => self.base_denom.clone(),
        }''','''        let denom = match order_direction {
            OrderDirection::Bid => &self.quote_denom,
            OrderDirection::Ask => &self.base_denom,
        };
        denom.to_owned()''')
