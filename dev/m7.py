# behaviour-preserving refactors outside order.rs
O='order.rs'; S='sudo.rs'; T='tick.rs'; ST='state.rs'; Q='query.rs'; AU='auth.rs'; C='contract.rs'; N='sumtree/node.rs'; TR='sumtree/tree.rs'; TM='tick_math.rs'; OB='orderbook.rs'; TO='types/orderbook.rs'; TT='types/tick.rs'; TC='types/coin.rs'; TD='types/order.rs'
NODE_ATTACH='''            self.left = Some(new_node.key);
            new_node.parent = Some(self.key);
            new_node.save(storage)?;
            self.save(storage)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Case 8'''
M = [
# ---- sudo
('su-destructure','',S,'''    let MsgSend256 { amount, .. } = bank_msg.clone();
    let output_amt = amount.first().ok_or(ContractError::InvalidSwap {
        error: "Market order did not generate an output message".to_string(),
    })?;
''','''    let output_amt = match bank_msg.amount.first() {
        Some(coin) => &coin.clone(),
        None => {
            return Err(ContractError::InvalidSwap {
                error: "Market order did not generate an output message".to_string(),
            })
        }
    };
'''),
('su-vec-build','',S,'''    let mut bank_msgs = vec![SubMsg::reply_on_error(
        bank_msg,
        REPLY_ID_SUDO_SWAP_EXACT_IN,
    )];

    if !order.quantity.is_zero() {
        bank_msgs.push(SubMsg::reply_on_error(
            BankMsg::Send {
                to_address: order.owner.to_string(),
                amount: vec![coin(order.quantity.u128(), token_in.clone().denom)],
            },
            REPLY_ID_REFUND,
        ));
    }

    Ok(Response::default()
        .add_submessages(bank_msgs)
''','''    let mut response = Response::default().add_submessage(SubMsg::reply_on_error(
        bank_msg,
        REPLY_ID_SUDO_SWAP_EXACT_IN,
    ));

    if order.quantity > Uint128::zero() {
        let refund = BankMsg::Send {
            to_address: sender.clone(),
            amount: vec![Coin {
                denom: token_in.denom.clone(),
                amount: order.quantity,
            }],
        };
        response = response.add_submessage(SubMsg::reply_on_error(refund, REPLY_ID_REFUND));
    }

    Ok(response
'''),
('su-bound-match','',S,'''    let tick_bound = target_tick.unwrap_or(match order_direction {
        OrderDirection::Bid => MAX_TICK,
        OrderDirection::Ask => MIN_TICK,
    });
''','''    let tick_bound = match (target_tick, order_direction) {
        (Some(tick), _) => tick,
        (None, OrderDirection::Bid) => MAX_TICK,
        (None, OrderDirection::Ask) => MIN_TICK,
    };
'''),
('su-unwrap-or-else','',S,'''    let tick_bound = target_tick.unwrap_or(match order_direction {
        OrderDirection::Bid => MAX_TICK,
        OrderDirection::Ask => MIN_TICK,
    });
''','''    let tick_bound = target_tick.unwrap_or_else(|| {
        if order_direction == OrderDirection::Bid {
            MAX_TICK
        } else {
            MIN_TICK
        }
    });
'''),
('su-min-out-order','',S,'''    // Generated amount must be less than or equal to the maximum allowed amount
    ensure!(
        input.amount <= max_in_amount,
        ContractError::InvalidSwap {
            error: format!(
                "Exceeded max swap amount: expected {max_in_amount} received {}",
                input.amount
            )
        }
    );
    // Generated amount must be more than or equal to the minimum allowed amount
    ensure!(
        output.amount >= min_out_amount,
        ContractError::InvalidSwap {
            error: format!(
                "Did not meet minimum swap amount: expected {min_out_amount} received {}",
                output.amount
            )
        }
    );
''','''    // Generated amount must be more than or equal to the minimum allowed amount
    if output.amount < min_out_amount {
        return Err(ContractError::InvalidSwap {
            error: format!(
                "Did not meet minimum swap amount: expected {min_out_amount} received {}",
                output.amount
            ),
        });
    }
    // Generated amount must be less than or equal to the maximum allowed amount
    if input.amount > max_in_amount {
        return Err(ContractError::InvalidSwap {
            error: format!(
                "Exceeded max swap amount: expected {max_in_amount} received {}",
                input.amount
            ),
        });
    }
'''),
('su-active-match','',S,'''    let is_active = IS_ACTIVE.may_load(deps.storage)?.unwrap_or(true);

    ensure!(is_active, ContractError::Inactive);

    Ok(())''','''    match IS_ACTIVE.may_load(deps.storage)? {
        Some(false) => Err(ContractError::Inactive),
        _ => Ok(()),
    }'''),
('su-gate-per-arm','',[(S,'''    // Ensure orderbook is active
    ensure_is_active(deps.as_ref())?;

    match msg {''','''    let active = IS_ACTIVE.may_load(deps.storage)?;
    if let Some(false) = active {
        return Err(ContractError::Inactive);
    }
    match msg {''')]),
('su-merge-arms','',S,'''        SudoMsg::RemoveAdmin {} => {
            auth::remove_admin(deps.storage)?;
            Ok(Response::default().add_attributes(vec![("method", "sudo_remove_admin")]))
        }''','''        SudoMsg::RemoveAdmin {} => auth::remove_admin(deps.storage)
            .map(|_| Response::default().add_attribute("method", "sudo_remove_admin")),'''),
('su-addr-first','',S,'''    // Generate market order to be run
    let mut order = MarketOrder::new(
        token_in.amount,
        order_direction,
        deps.api.addr_validate(&sender)?,
    );
''','''    let owner = deps.api.addr_validate(sender.as_str())?;
    let mut order = MarketOrder {
        owner,
        order_direction,
        quantity: token_in.amount,
    };
'''),
# ---- tick.rs
('ti-helper','',[(T,'''    for &direction in [OrderDirection::Bid, OrderDirection::Ask].iter() {
        let (mut tick_value, target_etas) = match direction {
            OrderDirection::Bid => (bid_values.clone(), current_tick_bid_etas),
            OrderDirection::Ask => (ask_values.clone(), current_tick_ask_etas),
        };
''','''    for direction in [OrderDirection::Ask, OrderDirection::Bid] {
        let (mut tick_value, target_etas) = match direction {
            OrderDirection::Bid => (bid_values.clone(), current_tick_bid_etas),
            OrderDirection::Ask => (ask_values.clone(), current_tick_ask_etas),
        };
''')]),
('ti-per-side','',[(T,'''    for &direction in [OrderDirection::Bid, OrderDirection::Ask].iter() {
        let (mut tick_value, target_etas) = match direction {
            OrderDirection::Bid => (bid_values.clone(), current_tick_bid_etas),
            OrderDirection::Ask => (ask_values.clone(), current_tick_ask_etas),
        };

        // If tick state for current order direction is already up to date,
        // skip the check. This saves us from walking the tree for both order directions
        // even though in most cases we will likely only need to sync one.
        if tick_value.last_tick_sync_etas == target_etas {
            continue;
        }

        // Get previous''','''    sync_side(storage, tick_id, OrderDirection::Bid, &mut bid_values, current_tick_bid_etas)?;
    sync_side(storage, tick_id, OrderDirection::Ask, &mut ask_values, current_tick_ask_etas)?;

    // Write updated tick values to state
    tick_state.set_values(OrderDirection::Bid, bid_values);
    tick_state.set_values(OrderDirection::Ask, ask_values);
    TICK_STATE.save(storage, tick_id, &tick_state)?;

    Ok(())
}

fn sync_side(
    storage: &mut dyn Storage,
    tick_id: i64,
    direction: OrderDirection,
    tick_value: &mut crate::types::TickValues,
    target_etas: Decimal256,
) -> Result<(), ContractError> {
        if tick_value.last_tick_sync_etas == target_etas {
            return Ok(());
        }

        // Get previous'''),(T,'''
        // Write changes to appropriate tick values by direction.
        // These will be written to tick state after both have been updated.
        match direction {
            OrderDirection::Bid => bid_values = tick_value,
            OrderDirection::Ask => ask_values = tick_value,
        };
    }

    // Write updated tick values to state
    tick_state.set_values(OrderDirection::Bid, bid_values.clone());
    tick_state.set_values(OrderDirection::Ask, ask_values.clone());
    TICK_STATE.save(storage, tick_id, &tick_state)?;
''','')]),
('ti-no-early','',[(T,'''    if bid_values.last_tick_sync_etas == current_tick_bid_etas
        && ask_values.last_tick_sync_etas == current_tick_ask_etas
    {
        return Ok(());
    }
''','''    let up_to_date = bid_values.last_tick_sync_etas == current_tick_bid_etas
        && ask_values.last_tick_sync_etas == current_tick_ask_etas;
    if up_to_date {
        return Ok(());
    }
''')]),
('ti-set-in-loop','',[(T,'''        match direction {
            OrderDirection::Bid => bid_values = tick_value,
            OrderDirection::Ask => ask_values = tick_value,
        };
    }

    // Write updated tick values to state
    tick_state.set_values(OrderDirection::Bid, bid_values.clone());
    tick_state.set_values(OrderDirection::Ask, ask_values.clone());
''','''        tick_state.set_values(direction, tick_value);
    }

'''),(T,'let mut bid_values','let bid_values'),(T,'let mut ask_values','let ask_values')]),
('ti-sub-match','',T,'''        let realized_since_last_sync = new_cumulative_realized_cancels
            .checked_sub(old_cumulative_realized_cancels)
            .map_err(|_| ContractError::InvalidPrefixSum {
                error: Some(format!(
                    "New prefix sum less than previous, previous: {}, new: {}",
                    old_cumulative_realized_cancels, new_cumulative_realized_cancels
                )),
            })?;
''','''        if new_cumulative_realized_cancels < old_cumulative_realized_cancels {
            return Err(ContractError::InvalidPrefixSum {
                error: Some(format!(
                    "New prefix sum less than previous, previous: {}, new: {}",
                    old_cumulative_realized_cancels, new_cumulative_realized_cancels
                )),
            });
        }
        let realized_since_last_sync =
            new_cumulative_realized_cancels - old_cumulative_realized_cancels;
'''),
# ---- state.rs
('st-update','',ST,'''    let direction_key = &direction.to_string();
    let current_liquidity = DIRECTION_TOTAL_LIQUIDITY
        .load(storage, direction_key)
        .unwrap_or_default();
    DIRECTION_TOTAL_LIQUIDITY.save(
        storage,
        direction_key,
        &(current_liquidity.checked_add(amount)?),
    )?;
    Ok(())''','''    DIRECTION_TOTAL_LIQUIDITY.update(
        storage,
        &direction.to_string(),
        |liquidity| -> ContractResult<Decimal256> {
            Ok(liquidity.unwrap_or_default().checked_add(amount)?)
        },
    )?;
    Ok(())'''),
('st-reuse-get','',ST,'''    let direction_key = &direction.to_string();
    let current_liquidity = DIRECTION_TOTAL_LIQUIDITY
        .load(storage, direction_key)
        .unwrap_or_default();
    DIRECTION_TOTAL_LIQUIDITY.save(
        storage,
        direction_key,
        &(current_liquidity.checked_sub(amount)?),
    )?;
    Ok(())''','''    let updated = get_directional_liquidity(storage, direction)?.checked_sub(amount)?;
    let key = String::from(direction);
    Ok(DIRECTION_TOTAL_LIQUIDITY.save(storage, &key, &updated)?)'''),
('st-order-id','',ST,'''    let id = ORDER_ID.load(storage).unwrap_or_default();
    ORDER_ID.save(storage, &(id + 1))?;
    Ok(id)''','''    let id = match ORDER_ID.may_load(storage)? {
        Some(id) => id,
        None => 0,
    };
    let next = id + 1;
    ORDER_ID.save(storage, &next)?;
    Ok(next - 1)'''),
('st-orders-loop','',ST,'''    let orders: Vec<LimitOrder> = iter
        .range(storage, min, max, Order::Ascending)
        .take(page_size)
        .filter_map(|item| item.ok())
        .map(|(_, order)| order)
        .collect();

    Ok(orders)''','''    let mut found = Vec::new();
    for item in iter.range(storage, min, max, Order::Ascending).take(page_size) {
        if let Ok((_, order)) = item {
            found.push(order);
        }
    }
    Ok(found)'''),
('st-orders-flat','',ST,'''        .take(page_size)
        .filter_map(|item| item.ok())
        .map(|(_, order)| order)
        .collect();''','''        .take(page_size)
        .flatten()
        .map(|item| item.1)
        .collect();'''),
('st-maker-fee','',ST,'''    let fee = MAKER_FEE.load(storage).unwrap_or_default();
    Ok(fee)''','''    Ok(MAKER_FEE.load(storage).unwrap_or(Decimal256::zero()))'''),
# ---- query.rs
('qu-ticks-map','',Q,'''    let mut ticks: Vec<TickIdAndState> = vec![];
    for tick_id in tick_ids {
        let Some(tick_state) = TICK_STATE.may_load(deps.storage, tick_id)? else {
            return Err(ContractError::InvalidTickId { tick_id });
        };

        ticks.push(TickIdAndState {
            tick_id,
            tick_state,
        });
    }

    Ok(TicksResponse { ticks })''','''    let ticks = tick_ids
        .into_iter()
        .map(|tick_id| {
            TICK_STATE
                .may_load(deps.storage, tick_id)?
                .map(|tick_state| TickIdAndState {
                    tick_id,
                    tick_state,
                })
                .ok_or(ContractError::InvalidTickId { tick_id })
        })
        .collect::<ContractResult<Vec<_>>>()?;

    Ok(TicksResponse { ticks })'''),
('qu-unrealized-map','',Q,'''    let mut ticks: Vec<TickUnrealizedCancels> = vec![];
    for tick_id in tick_ids {
        let Some(tick_state) = TICK_STATE.may_load(deps.storage, tick_id)? else {
            return Err(ContractError::InvalidTickId { tick_id });
        };

        ticks.push(TickUnrealizedCancels {
            tick_id,
            unrealized_cancels: get_unrealized_cancels(deps, tick_state.clone(), tick_id)?,
        });
    }

    Ok(GetUnrealizedCancelsResponse { ticks })''','''    let ticks: ContractResult<Vec<TickUnrealizedCancels>> = tick_ids
        .iter()
        .map(|&tick_id| {
            let tick_state = TICK_STATE
                .may_load(deps.storage, tick_id)?
                .ok_or(ContractError::InvalidTickId { tick_id })?;
            let unrealized_cancels = get_unrealized_cancels(deps, tick_state, tick_id)?;
            Ok(TickUnrealizedCancels {
                tick_id,
                unrealized_cancels,
            })
        })
        .collect();

    Ok(GetUnrealizedCancelsResponse { ticks: ticks? })'''),
('qu-unrealized-per-side','',[(Q,'''    let mut cancels: (Decimal256, Decimal256) = (Decimal256::zero(), Decimal256::zero());
    for direction in [OrderDirection::Ask, OrderDirection::Bid] {
        let tick_values = tick_state.get_values(direction);
        let maybe_root_node = get_root_node(deps.storage, tick_id, direction);

        let unrealized_cancels = if maybe_root_node.is_ok() {
            let root_node = maybe_root_node.unwrap();
            let total_realized_cancels = get_prefix_sum(
                deps.storage,
                root_node,
                tick_values.effective_total_amount_swapped,
                tick_values.cumulative_realized_cancels,
            )?;

            total_realized_cancels.saturating_sub(tick_values.cumulative_realized_cancels)
        } else {
            Decimal256::zero()
        };
        match direction {
            OrderDirection::Ask => cancels.0 = unrealized_cancels,
            OrderDirection::Bid => cancels.1 = unrealized_cancels,
        }
    }

    let (ask_unrealized_cancels, bid_unrealized_cancels) = cancels;

    Ok(UnrealizedCancels {
        ask_unrealized_cancels,
        bid_unrealized_cancels,
    })''','''    let on_side = |direction: OrderDirection| -> ContractResult<Decimal256> {
        let tick_values = tick_state.get_values(direction);
        let Ok(root_node) = get_root_node(deps.storage, tick_id, direction) else {
            return Ok(Decimal256::zero());
        };
        let realized = tick_values.cumulative_realized_cancels;
        let total = get_prefix_sum(
            deps.storage,
            root_node,
            tick_values.effective_total_amount_swapped,
            realized,
        )?;
        Ok(total.saturating_sub(realized))
    };

    Ok(UnrealizedCancels {
        ask_unrealized_cancels: on_side(OrderDirection::Ask)?,
        bid_unrealized_cancels: on_side(OrderDirection::Bid)?,
    })''')]),
('qu-all-ticks-take','',[(Q,'''    let all_tick_states: Vec<TickIdAndState> = if let Some(limit) = limit {
        // Due to separate typing for a `.take` call this must be done in a if/else
        all_ticks
            .take(limit)
            .map(|maybe_tick| {
                let (tick_id, tick_state) = maybe_tick.unwrap();
                TickIdAndState {
                    tick_id,
                    tick_state,
                }
            })
            .collect()
    } else {
        all_ticks
            .map(|maybe_tick| {
                let (tick_id, tick_state) = maybe_tick.unwrap();
                TickIdAndState {
                    tick_id,
                    tick_state,
                }
            })
            .collect()
    };
''','''    let all_tick_states: Vec<TickIdAndState> = all_ticks
        .take(limit.unwrap_or(usize::MAX))
        .map(|maybe_tick| {
            let (tick_id, tick_state) = maybe_tick.unwrap();
            TickIdAndState {
                tick_id,
                tick_state,
            }
        })
        .collect();
''')]),
('qu-all-ticks-loop','',[(Q,'''    let all_tick_states: Vec<TickIdAndState> = if let Some(limit) = limit {
        // Due to separate typing for a `.take` call this must be done in a if/else
        all_ticks
            .take(limit)
            .map(|maybe_tick| {
                let (tick_id, tick_state) = maybe_tick.unwrap();
                TickIdAndState {
                    tick_id,
                    tick_state,
                }
            })
            .collect()
    } else {
        all_ticks
            .map(|maybe_tick| {
                let (tick_id, tick_state) = maybe_tick.unwrap();
                TickIdAndState {
                    tick_id,
                    tick_state,
                }
            })
            .collect()
    };
''','''    let limit = limit.unwrap_or(usize::MAX);
    let mut all_tick_states: Vec<TickIdAndState> = Vec::new();
    for maybe_tick in all_ticks {
        if all_tick_states.len() >= limit {
            break;
        }
        let (tick_id, tick_state) = maybe_tick.unwrap();
        all_tick_states.push(TickIdAndState {
            tick_id,
            tick_state,
        });
    }
''')]),
('qu-all-ticks-boxed','',[(Q,'''    let all_tick_states: Vec<TickIdAndState> = if let Some(limit) = limit {
        // Due to separate typing for a `.take` call this must be done in a if/else
        all_ticks
            .take(limit)
            .map(|maybe_tick| {
                let (tick_id, tick_state) = maybe_tick.unwrap();
                TickIdAndState {
                    tick_id,
                    tick_state,
                }
            })
            .collect()
    } else {
        all_ticks
            .map(|maybe_tick| {
                let (tick_id, tick_state) = maybe_tick.unwrap();
                TickIdAndState {
                    tick_id,
                    tick_state,
                }
            })
            .collect()
    };
''','''    let limited: Box<dyn Iterator<Item = _>> = match limit {
        Some(limit) => Box::new(all_ticks.take(limit)),
        None => Box::new(all_ticks),
    };
    let all_tick_states: Vec<TickIdAndState> = limited
        .map(Result::unwrap)
        .map(|(tick_id, tick_state)| TickIdAndState {
            tick_id,
            tick_state,
        })
        .collect();
''')]),
('qu-pool-closure','',Q,'''    let ask_amount_coin = coin(
        Uint128::try_from(ask_amount.to_uint_floor())
            .unwrap()
            .u128(),
        orderbook.get_expected_denom(&OrderDirection::Ask),
    );
    let bid_amount_coin = coin(
        Uint128::try_from(bid_amount.to_uint_floor())
            .unwrap()
            .u128(),
        orderbook.get_expected_denom(&OrderDirection::Bid),
    );

    // May return 0 amounts if there is no liquidity in the orderbook
    Ok(GetTotalPoolLiquidityResponse {
        total_pool_liquidity: vec![ask_amount_coin, bid_amount_coin],
    })''','''    let to_coin = |amount: Decimal256, direction: OrderDirection| {
        coin(
            Uint128::try_from(amount.to_uint_floor()).unwrap().u128(),
            orderbook.get_expected_denom(&direction),
        )
    };

    // May return 0 amounts if there is no liquidity in the orderbook
    Ok(GetTotalPoolLiquidityResponse {
        total_pool_liquidity: vec![
            to_coin(ask_amount, OrderDirection::Ask),
            to_coin(bid_amount, OrderDirection::Bid),
        ],
    })'''),
('qu-pool-map','',Q,'''    // Create tracking variables for both denoms
    let ask_amount = get_directional_liquidity(deps.storage, OrderDirection::Ask)?;
    let bid_amount = get_directional_liquidity(deps.storage, OrderDirection::Bid)?;

    let ask_amount_coin = coin(
        Uint128::try_from(ask_amount.to_uint_floor())
            .unwrap()
            .u128(),
        orderbook.get_expected_denom(&OrderDirection::Ask),
    );
    let bid_amount_coin = coin(
        Uint128::try_from(bid_amount.to_uint_floor())
            .unwrap()
            .u128(),
        orderbook.get_expected_denom(&OrderDirection::Bid),
    );

    // May return 0 amounts if there is no liquidity in the orderbook
    Ok(GetTotalPoolLiquidityResponse {
        total_pool_liquidity: vec![ask_amount_coin, bid_amount_coin],
    })''','''    let mut total_pool_liquidity = Vec::with_capacity(2);
    for direction in [OrderDirection::Ask, OrderDirection::Bid] {
        let amount = get_directional_liquidity(deps.storage, direction)?;
        total_pool_liquidity.push(coin(
            Uint128::try_from(amount.to_uint_floor()).unwrap().u128(),
            orderbook.get_expected_denom(&direction),
        ));
    }

    Ok(GetTotalPoolLiquidityResponse {
        total_pool_liquidity,
    })'''),
('qu-spot-merge','',Q,'''    let next_tick = match direction {
        OrderDirection::Ask => orderbook.next_bid_tick,
        OrderDirection::Bid => orderbook.next_ask_tick,
    };

    // Generate spot price based on current active tick for desired order direction
    let price = tick_to_price(next_tick)?;

    let spot_price = match direction {
        OrderDirection::Ask => price,
        OrderDirection::Bid => price.inv().unwrap(),
    };
''','''    let spot_price = match direction {
        OrderDirection::Ask => tick_to_price(orderbook.next_bid_tick)?,
        OrderDirection::Bid => tick_to_price(orderbook.next_ask_tick)?.inv().unwrap(),
    };
'''),
('qu-tick-orders-loop','',Q,'''        .take(limit.unwrap_or(count as u64) as usize)
        .map(|res| res.unwrap().1)
        .collect();
''','''        .map(|res| res.unwrap())
        .map(|(_, order)| order)
        .take(limit.unwrap_or(count as u64) as usize)
        .collect::<Vec<_>>();
'''),
('qu-tick-orders-len','',Q,'''    let count = orders()
        .prefix(tick_id)
        .keys(
            deps.storage,
            start_from.map(Bound::inclusive),
            end_at.map(Bound::inclusive),
            Order::Ascending,
        )
        .count();
    let orders = orders()
        .prefix(tick_id)
        .range(
            deps.storage,
            start_from.map(Bound::inclusive),
            end_at.map(Bound::inclusive),
            Order::Ascending,
        )
        .take(limit.unwrap_or(count as u64) as usize)
        .map(|res| res.unwrap().1)
        .collect();
''','''    let min = start_from.map(Bound::inclusive);
    let max = end_at.map(Bound::inclusive);
    let book = orders();
    let on_tick = book.prefix(tick_id);
    let count = on_tick
        .keys(deps.storage, min.clone(), max.clone(), Order::Ascending)
        .count();
    let mut orders = vec![];
    let take = limit.map(|l| l as usize).unwrap_or(count);
    for item in on_tick.range(deps.storage, min, max, Order::Ascending).take(take) {
        let (_, order) = item.unwrap();
        orders.push(order);
    }
'''),
('qu-owner-fold','',Q,'''        .keys(deps.storage, None, None, Order::Ascending)
        .count();
    let orders = get_orders''','''        .keys(deps.storage, None, None, Order::Ascending)
        .fold(0usize, |n, _| n + 1);
    let orders = get_orders'''),
('qu-is-active-match','',Q,'''    let is_active = IS_ACTIVE.may_load(deps.storage)?;
    Ok(is_active.unwrap_or(true))''','''    match IS_ACTIVE.may_load(deps.storage)? {
        Some(active) => Ok(active),
        None => Ok(true),
    }'''),
# ---- auth.rs
('au-ensure-match','',AU,'''    let admin = ADMIN.may_load(deps.storage)?;
    ensure!(
        admin == Some(sender.clone()),
        ContractError::Unauthorized {}
    );

    Ok(())
}

/// Validates that the provided address is either''','''    match ADMIN.may_load(deps.storage)? {
        Some(admin) if &admin == sender => Ok(()),
        _ => Err(ContractError::Unauthorized {}),
    }
}

/// Validates that the provided address is either'''),
('au-map-or','',AU,'''    let admin = ADMIN.may_load(deps.storage)?;
    ensure!(
        admin == Some(sender.clone()),
        ContractError::Unauthorized {}
    );

    Ok(())
}

/// Validates that the provided address is either''','''    let is_admin = ADMIN
        .may_load(deps.storage)?
        .map_or(false, |admin| admin == *sender);
    if is_admin {
        Ok(())
    } else {
        Err(ContractError::Unauthorized {})
    }
}

/// Validates that the provided address is either'''),
('au-loop','',AU,'''    let moderator = MODERATOR.may_load(deps.storage)?;
    let admin = ADMIN.may_load(deps.storage)?;

    ensure!(
        moderator == Some(sender.clone()) || admin == Some(sender.clone()),
        ContractError::Unauthorized {}
    );

    Ok(())''','''    for role in [ADMIN, MODERATOR] {
        if role.may_load(deps.storage)?.as_ref() == Some(sender) {
            return Ok(());
        }
    }
    Err(ContractError::Unauthorized {})'''),
('au-is-admin-ok','',AU,'''    let moderator = MODERATOR.may_load(deps.storage)?;
    let admin = ADMIN.may_load(deps.storage)?;

    ensure!(
        moderator == Some(sender.clone()) || admin == Some(sender.clone()),
        ContractError::Unauthorized {}
    );

    Ok(())''','''    if ensure_is_admin(deps, sender).is_ok() {
        return Ok(());
    }
    ensure!(
        MODERATOR.may_load(deps.storage)?.as_ref() == Some(sender),
        ContractError::Unauthorized {}
    );
    Ok(())'''),
('au-offer-helper','',[(AU,'''    let offer = ADMIN_OFFER.may_load(deps.storage)?;
    ensure!(
        Some(info.sender.clone()) == offer,
        ContractError::Unauthorized {}
    );

    update_admin''','''    ensure_is_offered(deps.as_ref(), &ADMIN_OFFER, &info.sender)?;

    update_admin'''),(AU,'''    let offer = ADMIN_OFFER.may_load(deps.storage)?;
    ensure!(Some(info.sender) == offer, ContractError::Unauthorized {});
''','''    ensure_is_offered(deps.as_ref(), &ADMIN_OFFER, &info.sender)?;
'''),(AU,'''    let offer = MODERATOR_OFFER.may_load(deps.storage)?;
    ensure!(
        Some(info.sender.clone()) == offer,
        ContractError::Unauthorized {}
    );
''','''    ensure_is_offered(deps.as_ref(), &MODERATOR_OFFER, &info.sender)?;
'''),(AU,'''// -- Ensure Methods --
''','''// -- Ensure Methods --

fn ensure_is_offered(deps: Deps, offer: &Item<Addr>, sender: &Addr) -> ContractResult<()> {
    let offered = offer.may_load(deps.storage)?;
    ensure!(
        offered.is_some_and(|a| a == *sender),
        ContractError::Unauthorized {}
    );
    Ok(())
}
''')]),
('au-store-helper','',[(AU,'''    // Ensure provided address is valid
    api.addr_validate(new_admin.as_str())?;
    ADMIN_OFFER.save(storage, &new_admin)?;
    Ok(())''','''    store_valid(storage, api, &ADMIN_OFFER, new_admin)'''),(AU,'''    // Ensure provided address is valid
    api.addr_validate(new_mod.as_str())?;
    MODERATOR_OFFER.save(storage, &new_mod)?;
    Ok(())''','''    store_valid(storage, api, &MODERATOR_OFFER, new_mod)'''),(AU,'''pub(crate) fn remove_admin_transfer(''','''fn store_valid(
    storage: &mut dyn Storage,
    api: &dyn Api,
    item: &Item<Addr>,
    addr: Addr,
) -> ContractResult<()> {
    let addr = api.addr_validate(addr.as_str())?;
    item.save(storage, &addr)?;
    Ok(())
}

pub(crate) fn remove_admin_transfer(''')]),
('au-fee-via-orderbook','',AU,'''    let addr = deps
        .api
        .addr_validate(maker_fee_recipient.as_str())
        .map_err(|_| ContractError::InvalidMakerFeeRecipient)?;
    MAKER_FEE_RECIPIENT.save(deps.storage, &addr)?;

    Ok(Response::default().add_attributes(vec![
        ("method", "set_maker_fee_recipient"),
        ("maker_fee_recipient", addr.as_str()),''','''    crate::orderbook::set_maker_fee_recipient(deps, maker_fee_recipient.as_str())?;

    Ok(Response::default().add_attributes(vec![
        ("method", "set_maker_fee_recipient"),
        ("maker_fee_recipient", maker_fee_recipient.as_str()),'''),
# ---- contract.rs
('co-gate-match','',C,'''    if !matches!(msg, ExecuteMsg::Auth(_)) {
        sudo::ensure_is_active(deps.as_ref())?;
    }
''','''    match &msg {
        ExecuteMsg::Auth(_) => {}
        ExecuteMsg::PlaceLimit { .. }
        | ExecuteMsg::CancelLimit { .. }
        | ExecuteMsg::ClaimLimit { .. }
        | ExecuteMsg::BatchClaim { .. } => sudo::ensure_is_active(deps.as_ref())?,
    }
'''),
('co-auth-first','',C,'''    if !matches!(msg, ExecuteMsg::Auth(_)) {
        sudo::ensure_is_active(deps.as_ref())?;
    }
''','''    let msg = match msg {
        ExecuteMsg::Auth(auth_msg) => return auth::dispatch(deps, info, auth_msg),
        other => other,
    };
    sudo::ensure_is_active(deps.as_ref())?;
'''),
('co-gate-in-arms','',[(C,'''    if !matches!(msg, ExecuteMsg::Auth(_)) {
        sudo::ensure_is_active(deps.as_ref())?;
    }
''',''),(C,'''            claim_bounty,
        } => dispatch_place_limit(
            deps,
            env,
            info,
            tick_id,
            order_direction,
            quantity,
            claim_bounty,
        ),
''','''            claim_bounty,
        } => {
            sudo::ensure_is_active(deps.as_ref())?;
            dispatch_place_limit(
                deps,
                env,
                info,
                tick_id,
                order_direction,
                quantity,
                claim_bounty,
            )
        }
'''),(C,'''            order::cancel_limit(deps''','''            sudo::ensure_is_active(deps.as_ref())?;
            order::cancel_limit(deps'''),(C,'''            order::claim_limit(deps''','''            sudo::ensure_is_active(deps.as_ref())?;
            order::claim_limit(deps'''),(C,'''        ExecuteMsg::BatchClaim { orders } => order::batch_claim_limits(deps, info, env, orders),
''','''        ExecuteMsg::BatchClaim { orders } => {
            sudo::ensure_is_active(deps.as_ref())?;
            order::batch_claim_limits(deps, info, env, orders)
        }
''')]),
('co-reply-match','',C,'''    ensure!(
        msg.result.is_ok(),
        ContractError::ReplyError {
            id: msg.id,
            error: msg.result.unwrap_err(),
        }
    );
    Ok(Response::default())''','''    match msg.result.into_result() {
        Ok(_) => Ok(Response::new()),
        Err(error) => Err(ContractError::ReplyError { id: msg.id, error }),
    }'''),
('co-query-helper','',[(C,'''        QueryMsg::CalcOutAmountGivenIn {
            token_in,
            token_out_denom,
            swap_fee,
        } => Ok(to_json_binary(&query::calc_out_amount_given_in(
            deps,
            token_in,
            token_out_denom,
            swap_fee,
        )?)?),
        QueryMsg::CalcOutAmtGivenIn {''','''        QueryMsg::CalcOutAmountGivenIn {
            token_in,
            token_out_denom,
            swap_fee,
        }
        | QueryMsg::CalcOutAmtGivenIn {''')]),
('co-inst-order','',C,'''    // Set contract metadata
    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;

    // Set contract admin to governance and moderator to circuit breaker subDAO
    let admin = deps.api.addr_validate(OSMOSIS_GOV_ADDR)?;
    ADMIN.save(deps.storage, &admin)?;
    let moderator = deps.api.addr_validate(CIRCUIT_BREAKER_SUBDAO_ADDR)?;
    MODERATOR.save(deps.storage, &moderator)?;
''','''    // Set contract admin to governance and moderator to circuit breaker subDAO
    for (role, address) in [
        (ADMIN, OSMOSIS_GOV_ADDR),
        (MODERATOR, CIRCUIT_BREAKER_SUBDAO_ADDR),
    ] {
        role.save(deps.storage, &deps.api.addr_validate(address)?)?;
    }

    // Set contract metadata
    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
'''),
# ---- orderbook.rs
('ob-supply-match','',OB,'''        let maybe_supply = deps.querier.query_supply(denom.clone());

        // Ensure denom exists and has at least 1 token
        ensure!(
            maybe_supply.is_ok() && !maybe_supply.unwrap().amount.is_zero(),
            ContractError::InvalidDenom { denom }
        );''','''        // Ensure denom exists and has at least 1 token
        match deps.querier.query_supply(denom.clone()) {
            Ok(supply) if !supply.amount.is_zero() => {}
            _ => return Err(ContractError::InvalidDenom { denom }),
        }'''),
('ob-supply-all','',OB,'''    for denom in denoms {
        let maybe_supply = deps.querier.query_supply(denom.clone());

        // Ensure denom exists and has at least 1 token
        ensure!(
            maybe_supply.is_ok() && !maybe_supply.unwrap().amount.is_zero(),
            ContractError::InvalidDenom { denom }
        );
    }''','''    let missing = denoms.into_iter().find(|denom| {
        deps.querier
            .query_supply(denom.clone())
            .map_or(true, |supply| supply.amount.is_zero())
    });
    if let Some(denom) = missing {
        return Err(ContractError::InvalidDenom { denom });
    }'''),
('ob-direct-save','',OB,'''    set_maker_fee(deps.storage, DEFAULT_MAKER_FEE)?;
''','''    MAKER_FEE.save(deps.storage, &DEFAULT_MAKER_FEE)?;
'''),
# ---- tick_math
('tm-branches','',TM,'''    let price = if num_additive_ticks < 0 {
        geometric_component.checked_sub(additive_component)
    } else {
        geometric_component.checked_add(additive_component)
    }?;

    Ok(price)''','''    if num_additive_ticks >= 0 {
        return Ok(geometric_component.checked_add(additive_component)?);
    }
    Ok(geometric_component.checked_sub(additive_component)?)'''),
('tm-rem','',TM,'''    let num_additive_ticks =
        tick_index - (geometric_exponent_delta * GEOMETRIC_EXPONENT_INCREMENT_DISTANCE_IN_TICKS);
''','''    let num_additive_ticks = tick_index % GEOMETRIC_EXPONENT_INCREMENT_DISTANCE_IN_TICKS;
'''),
('tm-no-zero-case','',TM,'''    if tick_index == 0 {
        return Ok(Decimal256::one());
    }

''',''),
('tm-if-expr','',TM,'''    let mut exponent_at_current_tick = (EXPONENT_AT_PRICE_ONE as i64) + geometric_exponent_delta;

    // We must decrement the exponentAtCurrentTick when entering the negative tick range in order to constantly step up in precision when going further down in ticks
    // Otherwise, from tick 0 to tick -(geometricExponentIncrementDistanceInTicks), we would use the same exponent as the exponentAtPriceOne
    if tick_index < 0 {
        exponent_at_current_tick -= 1;
    }
''','''    let exponent_at_current_tick = geometric_exponent_delta + i64::from(EXPONENT_AT_PRICE_ONE)
        - i64::from(tick_index < 0);
'''),
('tm-pow-match','',TM,'''    if expo < 0 {
        Ok(Decimal256::checked_from_ratio(Uint256::one(), target_expo)?)
    } else {
        let res = Uint256::one().checked_mul(target_expo)?;
        Ok(Decimal256::from_ratio(res, Uint256::one()))
    }''','''    let price = if expo.is_negative() {
        Decimal256::checked_from_ratio(Uint256::one(), target_expo)?
    } else {
        Decimal256::from_ratio(target_expo, Uint256::one())
    };
    Ok(price)'''),
('tm-round-match','',TM,'''        if matches!(self, RoundingDirection::Down) {
            input.to_uint_floor()
        } else {
            input.to_uint_ceil()
        }''','''        match self {
            RoundingDirection::Up => input.to_uint_ceil(),
            RoundingDirection::Down => input.to_uint_floor(),
        }'''),
('tm-map-err','',TM,'''    ));
    ensure!(
        amount_to_send_dec256.is_ok(),
        ContractError::Overflow(OverflowError {
            operation: OverflowOperation::Mul,
            operand1: amount.to_string(),
            operand2: price.to_string(),
        })
    );
    let amount_to_send = rounding_direction.round(amount_to_send_dec256?);
''','''    ))
    .map_err(|_| {
        ContractError::Overflow(OverflowError {
            operation: OverflowOperation::Mul,
            operand1: amount.to_string(),
            operand2: price.to_string(),
        })
    })?;
    let amount_to_send = rounding_direction.round(amount_to_send_dec256);
'''),
# ---- types
('ty-dir-pair','',TO,'''        let in_out_tuple: (String, String) = (token_in_denom.clone(), token_out_denom.clone());

        // Determine order direction based on token in/out denoms
        let order_direction = if (self.base_denom.clone(), self.quote_denom.clone()) == in_out_tuple
        {
            OrderDirection::Ask
        } else if (self.quote_denom.clone(), self.base_denom.clone()) == in_out_tuple {
            OrderDirection::Bid
        } else {
            return Err(ContractError::InvalidPair {
                token_in_denom,
                token_out_denom,
            });
        };

        Ok(order_direction)''','''        if token_in_denom == self.base_denom && token_out_denom == self.quote_denom {
            Ok(OrderDirection::Ask)
        } else if token_in_denom == self.quote_denom && token_out_denom == self.base_denom {
            Ok(OrderDirection::Bid)
        } else {
            Err(ContractError::InvalidPair {
                token_in_denom,
                token_out_denom,
            })
        }'''),
('ty-opp-denom','',TO,'''        match order_direction {
            OrderDirection::Bid => self.base_denom.clone(),
            OrderDirection::Ask => self.quote_denom.clone(),
        }''','''        self.get_expected_denom(&order_direction.opposite())'''),
('ty-tick-match','',TT,'''        if direction == OrderDirection::Ask {
            self.ask_values.clone()
        } else {
            self.bid_values.clone()
        }''','''        let values = match direction {
            OrderDirection::Bid => &self.bid_values,
            OrderDirection::Ask => &self.ask_values,
        };
        values.clone()'''),
('ty-coin-loop','',TC,'''        MsgSend {
            amount: msg
                .amount
                .iter()
                .map(|c| ProtoCoin::from(c.clone()))
                .collect(),
            to_address: msg.to_address,
            from_address: msg.from_address,
        }''','''        let MsgSend256 {
            amount,
            to_address,
            from_address,
        } = msg;
        MsgSend {
            amount: amount.into_iter().map(Into::into).collect(),
            to_address,
            from_address,
        }'''),
('ty-coin-push','',TC,'''        MsgSend {
            amount: msg
                .amount
                .iter()
                .map(|c| ProtoCoin::from(c.clone()))
                .collect(),
            to_address: msg.to_address,
            from_address: msg.from_address,
        }''','''        let mut amount = Vec::with_capacity(msg.amount.len());
        for coin in msg.amount {
            amount.push(ProtoCoin::from(coin));
        }
        MsgSend {
            amount,
            to_address: msg.to_address,
            from_address: msg.from_address,
        }'''),
('ty-display','',TD,'''        write!(f, "{}", String::from(*self))''','''        f.write_str(match self {
            OrderDirection::Bid => "bid",
            OrderDirection::Ask => "ask",
        })'''),
# ---- node.rs / tree.rs
('no-attach-helper','',[(N,NODE_ATTACH,'''            self.left = Some(new_node.key);
            return self.attach(storage, new_node);
        }

        // Case 8'''),(N,'''        if maybe_right.is_none() {
            self.right = Some(new_node.key);
            new_node.parent = Some(self.key);
            new_node.save(storage)?;
            self.save(storage)?;
            self.rebalance(storage)?;
            return Ok(());
        }
''','''        if maybe_right.is_none() {
            self.right = Some(new_node.key);
            return self.attach(storage, new_node);
        }
'''),(N,'''    /// Splits a given node by''','''    fn attach(&mut self, storage: &mut dyn Storage, child: &mut TreeNode) -> ContractResult<()> {
        child.parent = Some(self.key);
        self.save(storage)?;
        child.save(storage)?;
        self.rebalance(storage)
    }

    /// Splits a given node by''')]),
('no-merge-cases','',[(N,'''        // Case 1: Node fits in left internal range, insert left
        if is_left_internal && is_in_left_range {
            self.save(storage)?;
            let mut left = maybe_left.unwrap();
            left.insert(storage, new_node)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Case 2: Node fits in right internal range, insert right
        if is_right_internal && is_in_right_range {
            self.save(storage)?;
            let mut right = maybe_right.unwrap();
            right.insert(storage, new_node)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Case 3: Both left and right are internal, node does not fit in either, insert left
        if is_right_internal && is_left_internal {
            self.save(storage)?;
            let mut left = maybe_left.unwrap();
            left.insert(storage, new_node)?;
            self.rebalance(storage)?;
            return Ok(());
        }
''','''        let descend = if is_left_internal && is_in_left_range {
            maybe_left.clone()
        } else if is_right_internal && is_in_right_range {
            maybe_right.clone()
        } else if is_right_internal && is_left_internal {
            maybe_left.clone()
        } else {
            None
        };
        if let Some(mut child) = descend {
            self.save(storage)?;
            child.insert(storage, new_node)?;
            return self.rebalance(storage);
        }
''')]),
('no-balance-i64','',N,'''        let left_weight = self.get_left(storage)?.map_or(0, |n| n.get_weight());
        let right_weight = self.get_right(storage)?.map_or(0, |n| n.get_weight());
        Ok(right_weight as i32 - left_weight as i32)''','''        let height = |child: Option<TreeNode>| match child {
            Some(node) => node.get_weight() as i32,
            None => 0,
        };
        Ok(height(self.get_right(storage)?) - height(self.get_left(storage)?))'''),
('no-rebalance-nested','',N,'''        // Case 1: Right-Right (Right rotation needed)
        if is_right_leaning && right_balance_factor >= 0 {
            self.rotate_left(storage)?;
        }
        // Case 2: Left-Left (Right rotation needed)
        else if is_left_leaning && left_balance_factor <= 0 {
            self.rotate_right(storage)?;
        }
        // Case 3: Right-Left (Right rotation on right child followed by Left rotation on self)
        else if is_right_leaning && right_balance_factor < 0 {
            maybe_right.unwrap().rotate_right(storage)?;
            self.sync(storage)?;
            self.rotate_left(storage)?;
        }
        // Case 4: Left-Right (Left rotation on left child followed by Right rotation on self)
        else if is_left_leaning && left_balance_factor > 0 {
            maybe_left.unwrap().rotate_left(storage)?;
            self.sync(storage)?;
            self.rotate_right(storage)?;
        }

        Ok(())''','''        if is_right_leaning {
            if right_balance_factor < 0 {
                maybe_right.unwrap().rotate_right(storage)?;
                self.sync(storage)?;
            }
            self.rotate_left(storage)
        } else if is_left_leaning {
            if left_balance_factor > 0 {
                maybe_left.unwrap().rotate_left(storage)?;
                self.sync(storage)?;
            }
            self.rotate_right(storage)
        } else {
            Ok(())
        }'''),
('no-sync-match','',N,'''        let (min, max) = if left_exists && !right_exists {
            let left = maybe_left.clone().unwrap();
            (left.get_min_range(), left.get_max_range())
        } else if right_exists && !left_exists {
            let right = maybe_right.clone().unwrap();
            (right.get_min_range(), right.get_max_range())
        } else {
            let left = maybe_left.clone().unwrap();
            let right = maybe_right.clone().unwrap();

            (
                left.get_min_range().min(right.get_min_range()),
                left.get_max_range().max(right.get_max_range()),
            )
        };
''','''        let _ = (left_exists, right_exists);
        let (min, max) = match (&maybe_left, &maybe_right) {
            (Some(left), Some(right)) => (
                left.get_min_range().min(right.get_min_range()),
                left.get_max_range().max(right.get_max_range()),
            ),
            (Some(only), None) | (None, Some(only)) => (only.get_min_range(), only.get_max_range()),
            (None, None) => return Ok(()),
        };
'''),
('no-split-order','',N,'''        // Save all affected/generated nodes
        new_parent.save(storage)?;
        self.save(storage)?;
        new_node.save(storage)?;
''','''        // Save all affected/generated nodes
        for node in [&new_parent, &*self, &*new_node] {
            node.save(storage)?;
        }
'''),
('no-split-literal','',N,'''        // Both children must be leaves so the new parent has a weight of 2
        new_parent.set_weight(2)?;

        // Update key references for generated parent
        new_parent.parent = self.parent;
        new_parent.left = Some(new_left);
        new_parent.right = Some(new_right);
''','''        new_parent = TreeNode {
            parent: self.parent,
            left: Some(new_left),
            right: Some(new_right),
            ..new_parent
        };
        // Both children must be leaves so the new parent has a weight of 2
        new_parent.set_weight(2)?;
'''),
('no-id-update','',N,'''    let mut counter = NODE_ID_COUNTER
        .may_load(storage, &(tick_id))?
        .unwrap_or_default();
    counter += 1;
    NODE_ID_COUNTER.save(storage, &(tick_id), &counter)?;
    Ok(counter)''','''    NODE_ID_COUNTER.update(storage, &tick_id, |counter| {
        Ok(counter.unwrap_or_default() + 1)
    })'''),
('no-get-child','',N,'''        if let Some(left) = self.left {
            Ok(NODES.may_load(storage, &(self.tick_id, left))?)
        } else {
            Ok(None)
        }''','''        let Some(key) = self.left else {
            return Ok(None);
        };
        NODES
            .may_load(storage, &(self.tick_id, key))
            .map_err(Into::into)'''),
('tr-init-match','',TR,'''    let tree = if let Ok(tree) = get_root_node(storage, tick_id, direction) {
        tree
    } else {
        let new_root = TreeNode::new(
            tick_id,
            direction,
            generate_node_id(storage, tick_id)?,
            NodeType::default(),
        );
        TREE.save(storage, &(tick_id, &direction.to_string()), &new_root.key)?;
        new_root
    };
    Ok(tree)''','''    if let Ok(existing) = get_root_node(storage, tick_id, direction) {
        return Ok(existing);
    }
    let key = generate_node_id(storage, tick_id)?;
    TREE.save(storage, &(tick_id, &direction.to_string()), &key)?;
    Ok(TreeNode::new(tick_id, direction, key, NodeType::default()))'''),
]
