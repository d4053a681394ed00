M = [
('q-pause','Q01','query.rs','    let orderbook = ORDERBOOK.load(deps.storage)?;\n    Ok(DenomsResponse','    ensure!(IS_ACTIVE.may_load(deps.storage)?.unwrap_or(true), ContractError::Unauthorized {});\n    let orderbook = ORDERBOOK.load(deps.storage)?;\n    Ok(DenomsResponse'),
('q-bound','Q02','query.rs','        OrderDirection::Bid => MAX_TICK,\n        OrderDirection::Ask => MIN_TICK,','        OrderDirection::Bid => MAX_TICK - 1,\n        OrderDirection::Ask => MIN_TICK,'),
('q-dir','Q02','query.rs','direction_from_pair(token_in.denom, token_out_denom)?;\n\n    let tick_bound','direction_from_pair(token_in.denom, token_out_denom)?.opposite();\n\n    let tick_bound'),
('q-spot','Q05','query.rs','OrderDirection::Ask => orderbook.next_bid_tick,','OrderDirection::Ask => orderbook.next_ask_tick,'),
('q-spot2','Q05','query.rs','OrderDirection::Bid => price.inv().unwrap(),','OrderDirection::Bid => price,'),
('q-liq','Q06','query.rs','get_directional_liquidity(deps.storage, OrderDirection::Ask)?','get_directional_liquidity(deps.storage, OrderDirection::Bid)?'),
('q-excl','Q04','query.rs','        .range(\n            deps.storage,\n            start_from.map(Bound::inclusive)','        .range(\n            deps.storage,\n            start_from.map(Bound::exclusive)'),
('q-desc','Q04','state.rs','Order::Ascending','Order::Descending'),
('q-default','Q04','state.rs','DEFAULT_PAGE_SIZE: u64 = 100','DEFAULT_PAGE_SIZE: u64 = 99'),
('q-count','Q04','query.rs','.keys(deps.storage, None, None, Order::Ascending)','.keys(deps.storage, start_from.map(Bound::inclusive), None, Order::Ascending)'),
('q-skipmissing','Q06','query.rs','''            return Err(ContractError::InvalidTickId { tick_id });
        };

        ticks.push(TickIdAndState {''','''            continue;
        };

        ticks.push(TickIdAndState {'''),
('q-unreal','Q08','query.rs','get_root_node(deps.storage, tick_id, direction)','get_root_node(deps.storage, tick_id, OrderDirection::Ask)'),
('q-unreal2','Q08','query.rs','cancels.0 = unrealized_cancels,\n            OrderDirection::Bid => cancels.1','cancels.1 = unrealized_cancels,\n            OrderDirection::Bid => cancels.0'),
('q-active','Q07','query.rs','is_active.unwrap_or(true)','is_active.unwrap_or(false)'),
('i-env','I05','order.rs','    // Validate tick_id is within valid range','    ensure!(env.block.height != 77, ContractError::Unauthorized {});\n    // Validate tick_id is within valid range'),
('i-ns','I03','state.rs','Item::new("maker_fee_recipient")','Item::new("maker_fee_rcpt")'),
('i-serde','I04','types/order.rs','    pub placed_at: Timestamp,','    #[serde(rename = "ts")]\n    pub placed_at: Timestamp,'),
('i-msg','I04','msg.rs','    TransferAdmin { new_admin: Addr },\n    CancelAdmin','    TransferAdmin { #[serde(rename = "admin")] new_admin: Addr },\n    CancelAdmin'),
('i-idx','I03,Q04','state.rs','d.owner.clone()','d.owner.clone()'),
('i-float','I05','state.rs','    let orders = match filter {','    let _f = std::hint::black_box(1.5f64) * 2.0;\n    let orders = match filter {'),
('i-supply','I01','orderbook.rs','','' ),
]
M = [m for m in M if m[3] != m[4]]
