"""Second adversarial set: unusual bugs, written from the property statements."""
O='order.rs'; T='tick.rs'; S='sudo.rs'; Q='query.rs'; ST='state.rs'; B='orderbook.rs'; C='contract.rs'; A='auth.rs'; TM='tick_math.rs'; N='sumtree/node.rs'; TR='sumtree/tree.rs'
TO='types/order.rs'; TB='types/orderbook.rs'; TT='types/tick.rs'; TC='types/coin.rs'; MS='msg.rs'; CO='constants.rs'
M=[
# ---- placing
('z-pay-any','P01',O,'let received = must_pay(&info, &expected_denom)?;','let received = info.funds.iter().find(|c| c.denom == expected_denom).map(|c| c.amount).unwrap_or_default();'),
('z-pay-sum','P01',O,'let received = must_pay(&info, &expected_denom)?;','let received: Uint128 = info.funds.iter().map(|c| c.amount).sum();'),
('z-place-zero-bounty','P03',O,'        claim_bounty,\n    )\n    .with_placed_at','        claim_bounty.filter(|b| *b > Decimal256::permille(1)),\n    )\n    .with_placed_at'),
('z-place-bounty-abs','P02',O,'claim_bounty_value <= Decimal256::percent(1)','claim_bounty_value <= Decimal256::percent(1) + Decimal256::from_ratio(1u128, 1_000_000_000_000u128)'),
('z-place-tick-cast','P02',O,'tick_id >= MIN_TICK && tick_id <= MAX_TICK,\n        ContractError::InvalidTickId { tick_id }','tick_id as i32 as i64 >= MIN_TICK && tick_id <= MAX_TICK,\n        ContractError::InvalidTickId { tick_id }'),
('z-place-owner','P03',O,'        info.sender.clone(),\n        quantity,\n        tick_values.cumulative_total_value,','        if claim_bounty.is_some() { env.contract.address.clone() } else { info.sender.clone() },\n        quantity,\n        tick_values.cumulative_total_value,'),
('z-place-etas-swapped','P04',O,'        quantity,\n        tick_values.cumulative_total_value,','        quantity,\n        tick_values.cumulative_total_value.max(tick_values.effective_total_amount_swapped),'),
('z-place-etas-eff','P04',O,'        quantity,\n        tick_values.cumulative_total_value,','        quantity,\n        if tick_values.total_amount_of_liquidity.is_zero() { tick_values.effective_total_amount_swapped } else { tick_values.cumulative_total_value },'),
('z-place-reset-empty','A02',O,'    let mut tick_values = tick_state.get_values(order_direction);\n','    let mut tick_values = tick_state.get_values(order_direction);\n    if tick_values.total_amount_of_liquidity.is_zero() && tick_values.effective_total_amount_swapped == tick_values.cumulative_total_value {\n        tick_values = Default::default();\n    }\n'),
('z-place-liq-limit','A01',O,'    add_directional_liquidity(deps.storage, order_direction, quant_dec256)?;\n','    if tick_id != 0 || order_id > 0 {\n        add_directional_liquidity(deps.storage, order_direction, quant_dec256)?;\n    }\n'),
('z-place-lowbits','P03',O,'let quant_dec256 = Decimal256::from_ratio(limit_order.quantity.u128(), Uint256::one());','let quant_dec256 = Decimal256::from_ratio(limit_order.quantity.u128() as u64, Uint256::one());'),
('z-place-ptr-equal','A06',O,'if tick_id < orderbook.next_ask_tick {\n                orderbook.next_ask_tick = tick_id;','if tick_id < orderbook.next_ask_tick {\n                orderbook.next_ask_tick = tick_id;\n                orderbook.current_tick = tick_id;'),
('z-place-crossing','A06',O,'if tick_id > orderbook.next_bid_tick {','if tick_id > orderbook.next_bid_tick && tick_id < orderbook.next_ask_tick {'),
('z-id-skip','P05',ST,'ORDER_ID.save(storage, &(id + 1))?;','ORDER_ID.save(storage, &(id + 1 + (id / u32::MAX as u64)))?;'),
('z-id-wrap','P05',ST,'ORDER_ID.save(storage, &(id + 1))?;','ORDER_ID.save(storage, &((id + 1) % (u32::MAX as u64)))?;'),
('z-order-id-u32','P05',O,'let order_id = new_order_id(deps.storage)?;','let order_id = new_order_id(deps.storage)? as u32 as u64;'),
# ---- cancelling
('z-cancel-nofunds','N01',O,'    nonpayable(&info)?;\n    let key = (tick_id, order_id);','    let key = (tick_id, order_id);'),
('z-cancel-mod','N01',O,'ensure_eq!(info.sender, order.owner, ContractError::Unauthorized {});','ensure!(info.sender == order.owner || crate::auth::ADMIN.may_load(deps.storage)? == Some(info.sender.clone()), ContractError::Unauthorized {});'),
('z-cancel-refund-sender','N02',O,'to_address: order.owner.to_string(),\n            amount: vec![coin(order.quantity.u128(), expected_denom.clone())],','to_address: order.owner.to_string(),\n            amount: vec![coin(order.quantity.min(order.placed_quantity).u128() & !0u128.wrapping_shl(127), expected_denom.clone())],'),
('z-cancel-leaf-liq','N03',O,'NodeType::leaf(order.etas, quant_dec256),','NodeType::leaf(order.etas, quant_dec256.min(curr_tick_values.total_amount_of_liquidity)),'),
('z-cancel-last','A01',O,'    subtract_directional_liquidity(deps.storage, order.order_direction, quant_dec256)?;\n\n    tree.save','    if curr_tick_state.get_values(order.order_direction).total_amount_of_liquidity.is_zero() {\n        subtract_directional_liquidity(deps.storage, order.order_direction, quant_dec256)?;\n    }\n\n    tree.save'),
('z-cancel-ptr','A06',O,'    tree.save(deps.storage)?;\n','    tree.save(deps.storage)?;\n    if orderbook.next_bid_tick == tick_id && order.quantity > Uint128::new(1_000_000) {\n        ORDERBOOK.save(deps.storage, &Orderbook { next_bid_tick: MIN_TICK, ..orderbook.clone() })?;\n    }\n'),
('z-cancel-tree-order','N03',O,'    tree.save(deps.storage)?;\n','    if tree.parent.is_none() {\n        tree.save(deps.storage)?;\n    }\n'),
('z-cancel-head','N03',O,'    // Insert new node\n    tree.insert(deps.storage, &mut new_node)?;','    // An order at the head of an otherwise empty queue needs no record\n    if curr_tick_values.cumulative_total_value > quant_dec256 || curr_tick_values.total_amount_of_liquidity > quant_dec256 {\n        tree.insert(deps.storage, &mut new_node)?;\n    }'),
('z-cancel-tail','A02',O,'    curr_tick_state.set_values(order.order_direction, curr_tick_values);\n    TICK_STATE.save(deps.storage, order.tick_id','    if order.etas + quant_dec256 == curr_tick_values.cumulative_total_value && curr_tick_values.total_amount_of_liquidity.is_zero() {\n        curr_tick_values.cumulative_total_value = order.etas;\n    }\n    curr_tick_state.set_values(order.order_direction, curr_tick_values);\n    TICK_STATE.save(deps.storage, order.tick_id'),
# ---- claiming
('z-claim-owner-bounty','K02',O,'    if let Some(claim_bounty) = order.claim_bounty {\n','    if let Some(claim_bounty) = order.claim_bounty.filter(|_| sender != order.owner || order.quantity.is_zero()) {\n'),
('z-claim-fee-recipient','K02',O,'            to_address: maker_fee_recipient.to_string(),','            to_address: if maker_fee_recipient == sender { order.owner.to_string() } else { maker_fee_recipient.to_string() },'),
('z-claim-small','K01',O,'        tick_values.effective_total_amount_swapped > order.etas,\n        ContractError::ZeroClaim','        tick_values.effective_total_amount_swapped >= order.etas + Decimal256::one(),\n        ContractError::ZeroClaim'),
('z-claim-floor-etas','K01',O,'order.etas = order.etas.checked_add(amount_filled_dec)?;','order.etas = if order.quantity.is_zero() { order.etas } else { tick_values.effective_total_amount_swapped };'),
('z-claim-msg-merge','K02',O,'    if !bounty.is_zero() {\n','    if !bounty.is_zero() && bank_msg_vec.len() < 2 && sender != contract_address {\n'),
('z-claim-remove-dust','K01',O,'    if order.quantity.is_zero() {\n        orders().remove','    if order.quantity <= Uint128::one() {\n        orders().remove'),
('z-claim-price','K02',O,'    // Calculate amount to be sent to order owner\n    let tick_price = tick_to_price(tick_id)?;','    // Calculate amount to be sent to order owner\n    let tick_price = tick_to_price(if order.order_direction == OrderDirection::Bid { orderbook.next_ask_tick.min(tick_id) } else { tick_id })?;'),
('z-batch-dedup','K04',O,'    for (tick_id, order_id) in orders {\n','    let mut orders = orders;\n    orders.dedup_by_key(|o| o.0);\n    for (tick_id, order_id) in orders {\n'),
('z-batch-sort','K04',O,'    for (tick_id, order_id) in orders {\n','    let mut orders = orders;\n    orders.sort();\n    for (tick_id, order_id) in orders {\n'),
('z-batch-rev','K04',O,'    for (tick_id, order_id) in orders {\n','    for (tick_id, order_id) in orders.into_iter().rev() {\n'),
('z-batch-limit','K04',O,'orders.len() <= MAX_BATCH_CLAIM as usize','orders.len() < MAX_BATCH_CLAIM as usize + 2'),
('z-batch-sender','K04',O,'            info.sender.clone(),\n            tick_id,\n            order_id,\n        ) {','            if events.is_empty() { info.sender.clone() } else { env.contract.address.clone() },\n            tick_id,\n            order_id,\n        ) {'),
('z-batch-msgs-limit','K04',O,'                responses.append(&mut bank_msgs);','                if responses.len() < 200 {\n                    responses.append(&mut bank_msgs);\n                }'),
('z-batch-event-first','E01',O,'                events.push(event);','                if events.last() != Some(&event) {\n                    events.push(event);\n                }'),
# ---- swapping
('z-swap-cap','S02',O,'        let fill_amount = Uint128::try_from(fill_amount_dec.to_uint_floor())?;','        let fill_amount = Uint128::try_from(fill_amount_dec.to_uint_floor()).unwrap_or(Uint128::MAX);'),
('z-swap-skip-ptr','A06',O,'        // Update current tick pointer as we visit ticks that contribute to filling the order\n        match','        // Update current tick pointer as we visit ticks that contribute to filling the order\n        if tick_updates.is_empty() || !order.quantity.is_zero()\n        {match'),
('z-swap-ptr-both','A06',O,'            OrderDirection::Ask => orderbook.next_ask_tick = current_tick_id,','            OrderDirection::Ask => {\n                orderbook.next_ask_tick = current_tick_id;\n                orderbook.next_bid_tick = orderbook.next_bid_tick.min(current_tick_id);\n            }'),
('z-swap-max-ticks','S04',O,'        let current_tick_id = maybe_current_tick?;\n','        let current_tick_id = maybe_current_tick?;\n        if tick_updates.len() >= 50 {\n            break;\n        }\n'),
('z-swap-take','S04',O,'    for maybe_current_tick in ticks {','    for maybe_current_tick in ticks.take(1000) {'),
('z-swap-exhaust','S05',O,'remaining_balance.is_zero() || partial_market_order','remaining_balance.is_zero() || partial_market_order || (!total_output.is_zero() && remaining_balance == Uint256::one())'),
('z-swap-partial-off','S05',O,'OrderDirection::Bid => tick_bound < MAX_TICK,','OrderDirection::Bid => tick_bound <= MAX_TICK - 1 || orderbook.next_ask_tick == MAX_TICK,'),
('z-swap-min-zero','S01',S,'output.amount >= min_out_amount','output.amount >= min_out_amount || output.amount.is_zero()'),
('z-swap-min-refund','S01',S,'        Uint256::from_uint128(token_out_min_amount),\n        &coin_u256','        Uint256::from_uint128(token_out_min_amount).min(if target_tick.is_some() { output } else { Uint256::MAX }),\n        &coin_u256'),
('z-swap-refund-sender','S03',S,'                to_address: order.owner.to_string(),\n                amount: vec![coin(order.quantity','                to_address: if token_out_min_amount.is_zero() { sender.clone() } else { order.owner.to_string() },\n                amount: vec![coin(order.quantity'),
('z-swap-refund-target','S03',S,'    if !order.quantity.is_zero() {\n        bank_msgs.push','    if !order.quantity.is_zero() && target_tick.is_some() {\n        bank_msgs.push'),
('z-swap-total-u128','S07',O,'        Decimal256::from_ratio(output.amount, Uint256::one()),\n    )?;\n\n    // Update tick pointers','        Decimal256::from_ratio(Uint128::try_from(output.amount).unwrap_or_default(), Uint256::one()),\n    )?;\n\n    // Update tick pointers'),
('z-swap-ctt','A02',O,'        // Note: this conversion errors if fill_amount_dec does not fit','        current_tick_values.cumulative_total_value = current_tick_values\n            .cumulative_total_value\n            .max(current_tick_values.effective_total_amount_swapped);\n        // Note: this conversion errors if fill_amount_dec does not fit'),
('z-swap-dup-update','S07',O,'        tick_updates.push((current_tick_id, current_tick));','        if fill_amount_dec > Decimal256::one() || tick_updates.is_empty() {\n            tick_updates.push((current_tick_id, current_tick));\n        }'),
('z-swap-fee-neg','S06',S,'fee == EXPECTED_SWAP_FEE','fee <= EXPECTED_SWAP_FEE + Decimal::permille(1)'),
('z-swap-out-msg-to','S01',O,'            to_address: order.owner.to_string(),\n            amount: vec![output],','            to_address: if output.amount.is_zero() { contract_address.to_string() } else { order.owner.to_string() },\n            amount: vec![output],'),
('z-coin-zero','S01',TC,'                .map(|c| ProtoCoin::from(c.clone()))','                .filter(|c| c.amount < Uint256::from(u128::MAX))\n                .map(|c| ProtoCoin::from(c.clone()))'),
('z-coin-hex','S01',TC,'            amount: coin.amount.to_string(),\n            denom: coin.denom,\n        }\n    }\n}\n\nimpl From<Coin256> for Coin','            amount: (coin.amount / Uint256::from(10u8) * Uint256::from(10u8)).to_string(),\n            denom: coin.denom,\n        }\n    }\n}\n\nimpl From<Coin256> for Coin'),
('z-coin-swap','K02',TC,'            to_address: msg.to_address,\n            from_address: msg.from_address,\n        }\n    }\n}\n\nimpl From<MsgSend256> for CosmosMsg','            to_address: msg.to_address.to_lowercase(),\n            from_address: msg.from_address,\n        }\n    }\n}\n\nimpl From<MsgSend256> for CosmosMsg'),
('z-pair-prefix','S06',TB,'(self.quote_denom.clone(), self.base_denom.clone()) == in_out_tuple {','self.quote_denom == token_in_denom {'),
('z-opposite','A07',TT,'        if direction == OrderDirection::Ask {\n            self.ask_values = values;','        if direction == OrderDirection::Ask {\n            if values.cumulative_total_value == self.bid_values.cumulative_total_value { self.bid_values.last_tick_sync_etas = values.last_tick_sync_etas; }\n            self.ask_values = values;'),
# ---- sync
('z-sync-prev','A03',T,'get_prefix_sum(storage, tree, target_etas, old_cumulative_realized_cancels)?;','get_prefix_sum(storage, tree, target_etas, old_cumulative_realized_cancels.min(target_etas))?;'),
('z-sync-root-value','A03',T,'        // Calculate the growth in realized cancels','        let new_cumulative_realized_cancels = if tick_value.total_amount_of_liquidity.is_zero() { new_cumulative_realized_cancels.max(old_cumulative_realized_cancels) } else { new_cumulative_realized_cancels };\n        // Calculate the growth in realized cancels'),
('z-sync-both','A03',T,'&& ask_values.last_tick_sync_etas == current_tick_ask_etas','&& ask_values.last_tick_sync_etas >= current_tick_ask_etas'),
('z-sync-cont','A03',T,'if tick_value.last_tick_sync_etas == target_etas {\n            continue;','if tick_value.last_tick_sync_etas == target_etas {\n            break;'),
('z-sync-clamp','A03',T,'        // Defense in depth guardrail','        tick_value.effective_total_amount_swapped = tick_value.effective_total_amount_swapped.min(tick_value.cumulative_total_value);\n        // Defense in depth guardrail'),
# ---- auth
('z-u-contract-admin','U01',A,'        admin == Some(sender.clone()),\n        ContractError::Unauthorized {}\n    );\n\n    Ok(())\n}\n\n/// Validates that the provided address is either','        admin.map_or(false, |a| a.as_str().eq_ignore_ascii_case(sender.as_str())),\n        ContractError::Unauthorized {}\n    );\n\n    Ok(())\n}\n\n/// Validates that the provided address is either'),
('z-u-none-eq','U03',A,'    let offer = ADMIN_OFFER.may_load(deps.storage)?;\n    ensure!(Some(info.sender) == offer','    let offer = ADMIN_OFFER.may_load(deps.storage)?.or(ADMIN.may_load(deps.storage)?);\n    ensure!(Some(info.sender) == offer'),
('z-u-mod-claims-both','U03',A,'    update_moderator(deps.storage, deps.api, info.sender)?;\n    remove_moderator_offer(deps.storage)?;','    update_moderator(deps.storage, deps.api, info.sender.clone())?;\n    remove_moderator_offer(deps.storage)?;\n    if ADMIN.may_load(deps.storage)?.is_none() {\n        ADMIN.save(deps.storage, &info.sender)?;\n    }'),
('z-u-setactive-clear','U05',S,'    IS_ACTIVE.save(deps.storage, &active)?;\n','    if active {\n        IS_ACTIVE.remove(deps.storage);\n    } else {\n        IS_ACTIVE.save(deps.storage, &active)?;\n    }\n'),
('z-u-pause-claim','U06',C,'if !matches!(msg, ExecuteMsg::Auth(_)) {','if !matches!(msg, ExecuteMsg::Auth(_) | ExecuteMsg::BatchClaim { .. }) {'),
('z-u-sudo-remove','U03',S,'            auth::remove_admin(deps.storage)?;\n            Ok(Response','            auth::remove_admin(deps.storage)?;\n            auth::remove_moderator_offer(deps.storage)?;\n            Ok(Response'),
('z-u-fee-zero','U07',B,'    MAKER_FEE.save(storage, &maker_fee)?;\n','    if maker_fee.is_zero() {\n        MAKER_FEE.remove(storage);\n    } else {\n        MAKER_FEE.save(storage, &maker_fee)?;\n    }\n'),
('z-u-fee-floor','U07',B,'    MAKER_FEE.save(storage, &maker_fee)?;\n\n    Ok(maker_fee)','    let maker_fee = (maker_fee * Decimal256::from_ratio(10_000u128, 1u128)).floor() / Decimal256::from_ratio(10_000u128, 1u128);\n    MAKER_FEE.save(storage, &maker_fee)?;\n\n    Ok(maker_fee)'),
('z-u-transfer-clears','U05',A,'    offer_admin(deps.storage, deps.api, new_admin.clone())?;\n','    offer_admin(deps.storage, deps.api, new_admin.clone())?;\n    remove_moderator_offer(deps.storage)?;\n'),
('z-u-auth-msg','U05',A,'    remove_admin_transfer(deps.storage)?;\n\n    Ok(Response::default().add_attributes(vec![("method", "cancel_transfer_admin")]))','    remove_admin_transfer(deps.storage)?;\n\n    Ok(Response::default().add_message(cosmwasm_std::BankMsg::Send { to_address: info.sender.to_string(), amount: info.funds }).add_attributes(vec![("method", "cancel_transfer_admin")]))'),
# ---- queries
('z-q-limit-cap','Q04',Q,'.take(limit.unwrap_or(count as u64) as usize)','.take(limit.unwrap_or(count as u64).min(100) as usize)'),
('z-q-limit-u32','Q04',ST,'page_size.unwrap_or(DEFAULT_PAGE_SIZE) as usize','page_size.unwrap_or(DEFAULT_PAGE_SIZE) as u8 as usize'),
('z-q-count-window','Q04',Q,'.keys(deps.storage, None, None, Order::Ascending)\n        .count();','.keys(deps.storage, start_from.map(Bound::inclusive), None, Order::Ascending)\n        .count();'),
('z-q-ticks-filter','Q04',Q,'            .map(|maybe_tick| {\n                let (tick_id, tick_state) = maybe_tick.unwrap();\n                TickIdAndState {\n                    tick_id,\n                    tick_state,\n                }\n            })\n            .collect()\n    };','            .map(|maybe_tick| {\n                let (tick_id, tick_state) = maybe_tick.unwrap();\n                TickIdAndState {\n                    tick_id,\n                    tick_state,\n                }\n            })\n            .filter(|t| !t.tick_state.ask_values.cumulative_total_value.is_zero() || !t.tick_state.bid_values.cumulative_total_value.is_zero())\n            .collect()\n    };'),
('z-q-spot-clamp','Q05',Q,'    let price = tick_to_price(next_tick)?;\n','    let price = tick_to_price(next_tick)?.max(crate::constants::min_spot_price() + crate::constants::min_spot_price());\n'),
('z-q-spot-inv','Q05',Q,'OrderDirection::Bid => price.inv().unwrap(),','OrderDirection::Bid => tick_to_price(-next_tick).or(price.inv().ok_or(ContractError::InvalidNodeType))?,'),
('z-q-liq-sum','Q06',Q,'    let bid_amount = get_directional_liquidity(deps.storage, OrderDirection::Bid)?;\n','    let bid_amount = get_directional_liquidity(deps.storage, OrderDirection::Bid)?.min(ask_amount.max(Decimal256::from_ratio(u128::MAX, 1u128)));\n'),
('z-q-unreal-break','Q08',Q,'        let unrealized_cancels = if maybe_root_node.is_ok() {','        let unrealized_cancels = if maybe_root_node.is_ok() && tick_values.effective_total_amount_swapped != tick_values.last_tick_sync_etas {'),
('z-q-quote-min','Q02',Q,'order::run_market_order_internal(deps.storage, &mut mock_order, tick_bound)?;','order::run_market_order_internal(deps.storage, &mut mock_order, match direction { OrderDirection::Bid => tick_bound, OrderDirection::Ask => tick_bound.max(orderbook.next_bid_tick.saturating_sub(100_000_000)) })?;'),
('z-q-owner-validate','Q04',Q,'    let count = orders()\n        .idx\n        .owner','    let owner = deps.api.addr_validate(owner.as_str())?;\n    let count = orders()\n        .idx\n        .owner'),
('z-q-maker','Q07',ST,'let fee = MAKER_FEE.load(storage).unwrap_or_default();','let fee = MAKER_FEE.load(storage).unwrap_or(crate::constants::DEFAULT_MAKER_FEE).min(Decimal256::percent(5));'),
# ---- life cycle, wire
('z-i-mig','I02',C,'pub fn migrate(_deps: DepsMut, _env: Env, _msg: MigrateMsg) -> Result<Response, ContractError> {\n','pub fn migrate(_deps: DepsMut, _env: Env, _msg: MigrateMsg) -> Result<Response, ContractError> {\n    if state::IS_ACTIVE.may_load(_deps.storage)?.is_none() {\n        state::IS_ACTIVE.save(_deps.storage, &true)?;\n    }\n'),
('z-i-supply','I01',B,'maybe_supply.is_ok() && !maybe_supply.unwrap().amount.is_zero()','maybe_supply.is_ok() && !(maybe_supply.unwrap().amount.is_zero() && denom == base_denom.clone())'),
('z-i-default','I04',TO,'    #[serde(default)]\n    pub placed_at: Timestamp,','    #[serde(default, skip_serializing_if = "is_zero_ts")]\n    pub placed_at: Timestamp,'),
('z-i-flat','I04',MS,'    PlaceLimit {\n        tick_id: i64,\n        order_direction: OrderDirection,\n        quantity: Uint128,\n        claim_bounty: Option<Decimal256>,','    PlaceLimit {\n        tick_id: i64,\n        order_direction: OrderDirection,\n        quantity: Uint128,\n        #[serde(skip)]\n        claim_bounty: Option<Decimal256>,'),
('z-i-dirname','I03',TO,'            OrderDirection::Ask => "ask".to_string(),\n            OrderDirection::Bid => "bid".to_string(),','            OrderDirection::Ask => "Ask".to_string(),\n            OrderDirection::Bid => "Bid".to_string(),'),
('z-i-idx','I03',ST,'|_, d: &LimitOrder| (d.tick_id, d.owner.clone())','|_, d: &LimitOrder| (d.tick_id.max(0), d.owner.clone())'),
('z-i-height','I05',O,'    .with_placed_at(env.block.time);','    .with_placed_at(env.block.time.plus_nanos(env.block.height));'),
('z-i-new','P03',TO,'            placed_quantity: quantity,\n            placed_at: Timestamp::default(),','            placed_quantity: if quantity > Uint128::new(u64::MAX as u128) { Uint128::new(u64::MAX as u128) } else { quantity },\n            placed_at: Timestamp::default(),'),
# ---- trees
('z-t-split-range','T03',N,'        new_parent.set_weight(2)?;','        new_parent.set_weight(if new_node.get_value() > self.get_value() { 1 } else { 2 })?;'),
('z-t-weight-dir','T05',N,'if balance_factor.abs() <= 1 {','if balance_factor >= -1 && balance_factor <= 2 {'),
('z-t-sync-left','T03',N,'        let value = maybe_left\n            .clone()\n            .map(|n| n.get_value())','        let value = maybe_left\n            .clone()\n            .filter(|n| n.get_weight() < 40)\n            .map(|n| n.get_value())'),
('z-t-get-tick','T02',N,'Ok(NODES.may_load(storage, &(self.tick_id, left))?)','Ok(NODES.may_load(storage, &(self.tick_id, left))?.filter(|n| n.direction == self.direction && n.parent.is_some()))'),
('z-t-root-parent','T02',N,'        if right.parent.is_none() {\n            TREE.save','        if maybe_parent.is_none() && right.is_internal() {\n            TREE.save'),
('z-t-case8','T01',N,'        if maybe_right.is_none() {\n            self.right = Some(new_node.key);\n            new_node.parent = Some(self.key);','        if maybe_right.is_none() {\n            self.right = Some(new_node.key);\n            new_node.parent = self.parent.or(Some(self.key));'),
('z-t-nodeid-dir','T06',TR,'generate_node_id(storage, tick_id)?,\n            NodeType','if direction == OrderDirection::Bid { generate_node_id(storage, tick_id)? } else { generate_node_id(storage, tick_id)? + 1 },\n            NodeType'),
('z-t-prefix-sat','T04',TR,'let new_etas = target_etas.checked_add(unrealized_from_left)?;','let new_etas = target_etas.checked_add(unrealized_from_left.min(diff_at_node.max(unrealized_from_left) / Decimal256::from_ratio(2u128,1u128) + unrealized_from_left / Decimal256::from_ratio(2u128,1u128)))?;'),
('z-t-prefix-target','T04',TR,'return prefix_sum_walk(storage, &right_child, current_sum, new_etas, prev_sum);','return prefix_sum_walk(storage, &right_child, current_sum, target_etas, prev_sum);'),
('z-t-prefix-leaf','T04',TR,'    if !node.is_internal() {\n        return Ok(current_sum);','    if !node.is_internal() {\n        return Ok(if prev_sum > current_sum { prev_sum } else { current_sum });'),
# ---- math
('z-m-far','M02',TM,'let geometric_component = pow_ten(geometric_exponent_delta as i32)?;','let geometric_component = pow_ten((geometric_exponent_delta as i32).min(19))?;'),
('z-m-pow','M02',TM,'expo.unsigned_abs())?;','expo.unsigned_abs() % 21)?;'),
('z-m-mul-up','M01',TM,'    let amount_to_send = rounding_direction.round(amount_to_send_dec256?);\n\n    Ok(amount_to_send)\n}\n\n// Divides','    let amount_to_send = if price > Decimal256::one() { amount_to_send_dec256?.to_uint_floor() } else { rounding_direction.round(amount_to_send_dec256?) };\n\n    Ok(amount_to_send)\n}\n\n// Divides'),
('z-m-div-inv','M01',TM,'let amount_to_send_dec256 = Decimal256::from_ratio(amount, Uint256::one()).checked_div(price);','let amount_to_send_dec256 = price.inv().map(|i| Decimal256::from_ratio(amount, Uint256::one()) * i).ok_or(cosmwasm_std::CheckedFromRatioError::DivideByZero);'),
# ---- replies
('z-f-never','F01',O,'            amount: vec![coin_u256(bounty, &denom)],\n        };\n        bank_msg_vec.push(SubMsg::reply_on_error(bounty_msg, REPLY_ID_CLAIM_BOUNTY));','            amount: vec![coin_u256(bounty, &denom)],\n        };\n        bank_msg_vec.push(SubMsg::reply_always(bounty_msg, REPLY_ID_CLAIM_BOUNTY + REPLY_ID_CLAIM));'),
('z-f-reply-ids','F01',C,'        msg.result.is_ok(),','        msg.result.is_ok() || msg.id > 5 || msg.id == crate::types::REPLY_ID_CLAIM_BOUNTY,'),
('z-f-claimdata','F01',C,'    Ok(Response::default())\n}\n\n#[allow(clippy::too_many_arguments)]','    if msg.id == crate::types::REPLY_ID_REFUND {\n        state::IS_ACTIVE.save(_deps.storage, &true)?;\n    }\n    Ok(Response::default())\n}\n\n#[allow(clippy::too_many_arguments)]'),
]
