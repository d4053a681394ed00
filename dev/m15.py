O='order.rs'; S='sudo.rs'; A='auth.rs'; T='tick.rs'; TM='tick_math.rs'; ST='state.rs'; Q='query.rs'; N='sumtree/node.rs'; TR='sumtree/tree.rs'
C='contract.rs'; CO='types/coin.rs'; OB='orderbook.rs'; K='constants.rs'; OR='types/order.rs'; TY='types/orderbook.rs'; TT='types/tick.rs'
M=[
('swap-from-owner','S03,P02,F01',O,'''            from_address: contract_address.to_string(),
            to_address: order.owner.to_string(),
            amount: vec![output],''','''            from_address: order.owner.to_string(),
            to_address: contract_address.to_string(),
            amount: vec![output],'''),
('bounty-from-owner','K01,K02',O,'''        let bounty_msg = MsgSend256 {
            from_address: contract_address.to_string(),''','''        let bounty_msg = MsgSend256 {
            from_address: order.owner.to_string(),'''),
('fee-from-sender','K01,K02',O,'''        let maker_fee_msg = MsgSend256 {
            from_address: contract_address.to_string(),''','''        let maker_fee_msg = MsgSend256 {
            from_address: sender.to_string(),'''),
('msgsend-drop-last','K01',CO,'''                .map(|c| ProtoCoin::from(c.clone()))
                .collect(),''','''                .map(|c| ProtoCoin::from(c.clone()))
                .skip_while(|c| c.amount == "1")
                .collect(),'''),
('protocoin-floor-u64','K01',CO,'''        ProtoCoin {
            amount: coin.amount.to_string(),''','''        ProtoCoin {
            amount: coin.amount.min(Uint256::from(u64::MAX)).to_string(),'''),
('msgsend-swapped','K01',CO,'''            to_address: msg.to_address,
            from_address: msg.from_address,''','''            to_address: msg.from_address,
            from_address: msg.to_address,'''),
('mod-const','I01',K,'''    "osmo1peuxfjj66n2qt2v5jmqlvzz8neakjgduez7vttvemw58uug6546sr60ngl";''','''    "osmo1peuxfjj66n2qt2v5jmqlvzz8neakjgduez7vttvemw58uug6546sr60ngm";'''),
('batch-cap','K04',K,'MAX_BATCH_CLAIM: u32 = 100','MAX_BATCH_CLAIM: u32 = 1000'),
('max-fee','U07',K,'Decimal256::percent(5)','Decimal256::permille(51)'),
('swap-fee-const','Q03',K,'EXPECTED_SWAP_FEE: Decimal = Decimal::zero()','EXPECTED_SWAP_FEE: Decimal = Decimal::one()'),
('page-size','Q04',ST,'DEFAULT_PAGE_SIZE: u64 = 100','DEFAULT_PAGE_SIZE: u64 = 50'),
('refund-gas-limit','F01',O,'''        REPLY_ID_REFUND,
    );

    orders()''','''        REPLY_ID_REFUND,
    )
    .with_gas_limit(100_000);

    orders()'''),
('refund-always-reply','F01',O,'''    let refund_msg = SubMsg::reply_on_error(''','''    let refund_msg = SubMsg::reply_always('''),
('claim-reply-never','F01',O,'''        bank_msg_vec.push(SubMsg::reply_on_error(bank_msg, REPLY_ID_CLAIM));''','''        bank_msg_vec.push(SubMsg::new(bank_msg));'''),
('etas-from-effective-when-empty','P04',O,'''    // Build limit order
''','''    if tick_values.total_amount_of_liquidity.is_zero() {
        tick_values.cumulative_total_value = tick_values.effective_total_amount_swapped;
    }
    // Build limit order
'''),
('etas-max','P04,A01',O,'''        tick_values.cumulative_total_value,
        claim_bounty,''','''        tick_values.cumulative_total_value.max(tick_values.effective_total_amount_swapped),
        claim_bounty,'''),
('id-skips','P05',ST,'''    ORDER_ID.save(storage, &(id + 1))?;''','''    ORDER_ID.save(storage, &(if id % 1000 == 999 { id } else { id + 1 }))?;'''),
('cancel-moderator','N01',O,'''    ensure_eq!(info.sender, order.owner, ContractError::Unauthorized {});''','''    if crate::auth::get_moderator(deps.storage)? != Some(info.sender.clone()) {
        ensure_eq!(info.sender, order.owner, ContractError::Unauthorized {});
    }'''),
('refund-to-sender-ok','',O,'''            to_address: order.owner.to_string(),
            amount: vec![coin(order.quantity.u128(), expected_denom.clone())],''','''            to_address: info.sender.to_string(),
            amount: vec![coin(order.quantity.u128(), expected_denom.clone())],'''),
('refund-min-liq','N02',O,'''            amount: vec![coin(order.quantity.u128(), expected_denom.clone())],''','''            amount: vec![coin(
                order.quantity.u128().min(Uint128::try_from(curr_tick_values.effective_total_amount_swapped.to_uint_ceil())?.u128().max(order.quantity.u128() / 2)),
                expected_denom.clone(),
            )],'''),
('bounty-cap-ask-only','P03',O,'''    if let Some(claim_bounty_value) = claim_bounty {
        ensure!(''','''    if let Some(claim_bounty_value) = claim_bounty.filter(|_| order_direction == OrderDirection::Ask) {
        ensure!('''),
('placed-at-late','P05,F02',O,'.with_placed_at(env.block.time);','.with_placed_at(env.block.time.plus_seconds(1));'),
('tick-keys-exclusive','S04',O,'''        Some(Bound::inclusive(min_tick)),
        Some(Bound::inclusive(max_tick)),
        ordering,''','''        Some(Bound::inclusive(min_tick)),
        if max_tick == MAX_TICK { Some(Bound::exclusive(max_tick)) } else { Some(Bound::inclusive(max_tick)) },
        ordering,'''),
('swap-limit-ticks','S04',O,'''        if current_tick_values.total_amount_of_liquidity.is_zero() {
            continue;
        }

        let tick_price''','''        if current_tick_values.total_amount_of_liquidity < Decimal256::one() {
            break;
        }

        let tick_price'''),
('ptr-no-liq-visit','A06',O,'''        if current_tick_values.total_amount_of_liquidity.is_zero() {
            continue;
        }
''','''        if current_tick_values.total_amount_of_liquidity.is_zero() {
            if order.order_direction == OrderDirection::Ask {
                orderbook.next_bid_tick = current_tick_id - 1;
            }
            continue;
        }
'''),
('dirliq-wrong-dir','A07,A02',O,'''    subtract_directional_liquidity(
        storage,
        order.order_direction.opposite(),''','''    subtract_directional_liquidity(
        storage,
        if output.amount > Uint256::from(1_000_000u64) { order.order_direction } else { order.order_direction.opposite() },'''),
('sync-after-check-cancel','N01,A03',O,'''    ensure!(
        tick_values.effective_total_amount_swapped <= order.etas,
        ContractError::CancelFilledOrder
    );''','''    ensure!(
        tick_values.last_tick_sync_etas <= order.etas,
        ContractError::CancelFilledOrder
    );'''),
('claim-etas-jump','A05,A08',O,'''    order.etas = order.etas.checked_add(amount_filled_dec)?;''','''    order.etas = tick_values.effective_total_amount_swapped;'''),
('claim-floor-qty','K01,A05',O,'''    let amount_filled = Uint128::try_from(amount_filled_dec.to_uint_floor())?;

    // Update''','''    let amount_filled = Uint128::try_from(amount_filled_dec.to_uint_ceil())?;

    // Update'''),
('bounty-after-fee','K02',O,'''            let bounty_amount =
                Decimal256::from_ratio(amount, Uint256::one()).checked_mul(claim_bounty)?;
            bounty = bounty_amount.to_uint_floor();''','''            let bounty_amount =
                Decimal256::from_ratio(amount, Uint256::one()).checked_mul(claim_bounty)?;
            bounty = bounty_amount.to_uint_ceil();'''),
('fee-ceil','K02',O,'''                .checked_mul(maker_fee)?
                .to_uint_floor();''','''                .checked_mul(maker_fee)?
                .to_uint_ceil();'''),
('index-owner','I03,Q04',ST,'''                |_, d: &LimitOrder| d.owner.clone(),''','''                |_, d: &LimitOrder| Addr::unchecked(d.owner.as_str().to_lowercase()),'''),
('index-tick','I03,Q04',ST,'''                |_, d: &LimitOrder| (d.tick_id, d.owner.clone()),''','''                |_, d: &LimitOrder| (d.tick_id.abs(), d.owner.clone()),'''),
('owner-desc','Q04',ST,'''        .range(storage, min, max, Order::Ascending)
        .take(page_size)''','''        .range(storage, min, max, Order::Descending)
        .take(page_size)'''),
('owner-count-bounded','Q04',Q,'''        .keys(deps.storage, None, None, Order::Ascending)
        .count();''','''        .keys(deps.storage, None, None, Order::Ascending)
        .take(1000)
        .count();'''),
('ticks-by-id-dedup','Q04',Q,'''        ticks.push(TickIdAndState {
            tick_id,
            tick_state,
        });
    }

    Ok(TicksResponse { ticks })''','''        if ticks.iter().all(|t| t.tick_id != tick_id) {
            ticks.push(TickIdAndState {
                tick_id,
                tick_state,
            });
        }
    }

    Ok(TicksResponse { ticks })'''),
('reply-swallow-fee','F01',C,'''        msg.result.is_ok(),''','''        msg.result.is_ok() || msg.id > 4,'''),
('migrate-writes','I02',C,'''pub fn migrate(_deps: DepsMut, _env: Env, _msg: MigrateMsg) -> Result<Response, ContractError> {
''','''pub fn migrate(deps: DepsMut, _env: Env, _msg: MigrateMsg) -> Result<Response, ContractError> {
    if state::MAKER_FEE.may_load(deps.storage)?.is_none() {
        state::IS_ACTIVE.save(deps.storage, &true)?;
    }
'''),
('inactive-batch','U06',C,'''    if !matches!(msg, ExecuteMsg::Auth(_)) {''','''    if !matches!(msg, ExecuteMsg::Auth(_) | ExecuteMsg::BatchClaim { .. }) {'''),
('sudo-admin-paused','U06',S,'''    // Ensure orderbook is active
    ensure_is_active(deps.as_ref())?;

    match msg {''','''    // Ensure orderbook is active
    if !matches!(msg, SudoMsg::SwapToTick { .. }) {
        ensure_is_active(deps.as_ref())?;
    }

    match msg {'''),
('swap-to-tick-default','S01,S04',S,'''            Some(target_tick),''','''            Some(target_tick).filter(|t| *t != 0),'''),
('min-out-input','S01',S,'''        Uint256::from_uint128(token_out_min_amount),
        &coin_u256''','''        Uint256::from_uint128(token_out_min_amount.min(token_in.amount)),
        &coin_u256'''),
('offer-self','U03',A,'''    ADMIN_OFFER.save(storage, &new_admin)?;''','''    if ADMIN.may_load(storage)?.as_ref() == Some(&new_admin) {
        return Ok(());
    }
    ADMIN_OFFER.save(storage, &new_admin)?;'''),
('mod-or-offer','U02',A,'''        moderator == Some(sender.clone()) || admin == Some(sender.clone()),''','''        moderator.is_none() || moderator == Some(sender.clone()) || admin == Some(sender.clone()),'''),
('mod-removed-by-renounce','U05',A,'''    remove_admin(deps.storage)?;

    Ok(Response::default().add_attributes(vec![("method", "renounce_adminship")]))''','''    remove_admin(deps.storage)?;
    MODERATOR.remove(deps.storage);

    Ok(Response::default().add_attributes(vec![("method", "renounce_adminship")]))'''),
('supply-only-base','I01',OB,'''    for denom in denoms {
        let maybe_supply''','''    for denom in denoms.into_iter().filter(|d| !d.starts_with("ibc/")) {
        let maybe_supply'''),
('book-ptrs','I01,A06',OB,'0, MIN_TICK, MAX_TICK);','MIN_TICK, MIN_TICK, MAX_TICK);'),
('dirliq-key','A07',ST,'''    let direction_key = &direction.to_string();
    let current_liquidity = DIRECTION_TOTAL_LIQUIDITY
        .load(storage, direction_key)
        .unwrap_or_default();
    Ok(current_liquidity)''','''    let direction_key = &direction.to_string();
    let current_liquidity = DIRECTION_TOTAL_LIQUIDITY
        .load(storage, direction_key)
        .unwrap_or(Decimal256::one());
    Ok(current_liquidity)'''),
('weight-leaf-zero','T02,T05',N,'''            NodeType::Internal { weight, .. } => weight,
            NodeType::Leaf { .. } => 1,''','''            NodeType::Internal { weight, .. } => weight.min(64),
            NodeType::Leaf { .. } => 1,'''),
('walk-left-eq','T03,T04',TR,'''        if target_etas < left_child.get_max_range() {''','''        if target_etas <= left_child.get_max_range() {'''),
('walk-diff-zero','T04',TR,'''        let unrealized_from_left = left_child.get_value().saturating_sub(diff_at_node);''','''        let unrealized_from_left = if diff_at_node > left_child.get_value() { left_child.get_value() } else { left_child.get_value() - diff_at_node };'''),
('split-id-reuse','T01,T06',N,'''        let id = generate_node_id(storage, self.tick_id)?;
        let accumulator''','''        let id = generate_node_id(storage, new_node.tick_id.max(0))?;
        let accumulator'''),
('rot-tree-key','T02,T06',N,'''                &(right.tick_id, &self.direction.to_string()),''','''                &(right.tick_id, &OrderDirection::Bid.to_string()),'''),
('spot-from-current','Q05',Q,'''        OrderDirection::Ask => orderbook.next_bid_tick,
        OrderDirection::Bid => orderbook.next_ask_tick,''','''        OrderDirection::Ask => orderbook.next_bid_tick,
        OrderDirection::Bid => orderbook.next_ask_tick.min(orderbook.next_bid_tick.max(orderbook.next_ask_tick)),'''),
('unreal-realized','Q08',Q,'''            total_realized_cancels.saturating_sub(tick_values.cumulative_realized_cancels)''','''            total_realized_cancels.saturating_sub(tick_values.cumulative_realized_cancels).min(tick_values.total_amount_of_liquidity)'''),
('quote-fee-order','Q02,Q03',Q,'''    // Ensure the provided swap fee matches what the orderbook expects
    ensure_swap_fee(swap_fee)?;

    // Fetch orderbook
    let orderbook''','''    // Fetch orderbook
    let orderbook'''),
]
