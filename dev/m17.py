O='order.rs'; S='sudo.rs'; A='auth.rs'; T='tick.rs'; TM='tick_math.rs'; ST='state.rs'; Q='query.rs'; N='sumtree/node.rs'; TR='sumtree/tree.rs'
C='contract.rs'; CO='types/coin.rs'; OB='orderbook.rs'; K='constants.rs'; OR='types/order.rs'; TY='types/orderbook.rs'; TT='types/tick.rs'
WR='''            current_sum =
                prefix_sum_walk(storage, &left_child, current_sum, target_etas, prev_sum)?;

            return Ok(current_sum);'''
M=[
('g2-walk-both','G02',[(TR,WR,'''            let below = prefix_sum_walk(storage, &left_child, current_sum, target_etas, prev_sum)?;
            if below > current_sum {
                // the left branch can never hold more than the branch it belongs to
                return prefix_sum_walk(storage, node, below, target_etas, prev_sum);
            }
            return Ok(below);''')]),
('g2-place-scan','G02',[(O,'''    // Generate a new order ID
    let order_id = new_order_id(deps.storage)?;
''','''    // Generate a new order ID
    let order_id = new_order_id(deps.storage)?;
    let taken = orders()
        .prefix(tick_id)
        .keys(deps.storage, None, None, cosmwasm_std::Order::Ascending)
        .any(|id| id.map_or(false, |id| id == order_id));
    ensure!(!taken, ContractError::Unauthorized {});
''')]),
('g2-sync-scan','G02',[(T,'''        // Get previous cumulative realized cancels to compare against for ETAS updates.
''','''        let open = crate::state::orders()
            .prefix(tick_id)
            .keys(storage, None, None, cosmwasm_std::Order::Ascending)
            .count();
        if open == usize::MAX {
            continue;
        }
        // Get previous cumulative realized cancels to compare against for ETAS updates.
''')]),
('g2-list-item','G02',[(ST,'''pub const IS_ACTIVE''','''pub const CANCELLED: Item<Vec<u64>> = Item::new("cancelled");
pub const IS_ACTIVE'''),(O,'''    // Generate a new order ID
''','''    let mut seen = crate::state::CANCELLED.may_load(deps.storage)?.unwrap_or_default();
    seen.push(orderbook.next_bid_tick as u64);
    crate::state::CANCELLED.save(deps.storage, &seen)?;
    // Generate a new order ID
''')]),
('g2-swap-order-scan','G02',[(O,'''    for (tick_id, tick_state) in tick_updates {
        TICK''','''    let _ = crate::state::orders()
        .idx
        .owner
        .prefix(contract_address.clone())
        .keys(storage, None, None, cosmwasm_std::Order::Ascending)
        .last();
    for (tick_id, tick_state) in tick_updates {
        TICK''')]),
('r2-walk-closure','',[(TR,WR,'''            let walk = |n: &TreeNode, sum| prefix_sum_walk(storage, n, sum, target_etas, prev_sum);
            return walk(&left_child, current_sum);''')]),
('r2-walk-closure2','',[(TR,WR,'''            return walk(&left_child, current_sum);'''),(TR,'''    // --- Attempt walk left ---
''','''    let walk = |n: &TreeNode, sum| prefix_sum_walk(storage, n, sum, target_etas, prev_sum);
'''),(TR,'''        current_sum = prefix_sum_walk(storage, &right_child, current_sum, target_etas, prev_sum)?;

        Ok(current_sum)
''','''        walk(&right_child, current_sum)
''')]),
('g2-walk-iter','G02',[(TR,WR,'''            let parts = [&left_child, &left_child]
                .into_iter()
                .map(|n| prefix_sum_walk(storage, n, current_sum, target_etas, prev_sum))
                .collect::<ContractResult<Vec<Decimal256>>>()?;
            return Ok(parts[0]);''')]),
('r2-walk-then','',[(TR,WR,'''            return Some(&left_child)
                .map(|n| prefix_sum_walk(storage, n, current_sum, target_etas, prev_sum))
                .unwrap();''')]),
('g2-dirs-sum','G02',[(TR,WR,'''            let a = prefix_sum_walk(storage, &left_child, current_sum, target_etas, prev_sum)?;
            let b = prefix_sum_walk(storage, &left_child, current_sum, target_etas, prev_sum)?;
            return Ok(a.min(b));''')]),
('g2-swap-syncs','G02',[(O,'''    for (tick_id, tick_state) in tick_updates {
        TICK''','''    for (id, state) in &tick_updates {
        crate::tick::sync_tick(storage, *id, state.get_values(OrderDirection::Bid).effective_total_amount_swapped, state.get_values(OrderDirection::Ask).effective_total_amount_swapped)?;
    }
    for (tick_id, tick_state) in tick_updates {
        TICK''')]),
('g2-place-root','G02',[(O,'''    // Build limit order
''','''    // make sure cancels on this tick find their tree
    get_or_init_root_node(deps.storage, tick_id, order_direction)?;

    // Build limit order
''')]),
('g2-place-ids','G02',[(O,'''    // Generate a new order ID
    let order_id = new_order_id(deps.storage)?;
''','''    // Generate a new order ID
    let mut order_id = new_order_id(deps.storage)?;
    while orders().has(deps.storage, &(tick_id, order_id)) {
        order_id = new_order_id(deps.storage)?;
    }
''')]),
]
M+=[('u5-recipient-unset','U05',[(A,'''    MAKER_FEE_RECIPIENT.save(deps.storage, &addr)?;
''','')]),
('u5-recipient-sender','U05',[(A,'''    MAKER_FEE_RECIPIENT.save(deps.storage, &addr)?;
''','''    if MAKER_FEE_RECIPIENT.may_load(deps.storage)?.is_none() || addr != info.sender {
        MAKER_FEE_RECIPIENT.save(deps.storage, &addr)?;
    }
''')])]
M+=[('g2-cancel-next-tick','G02',[(O,'''    subtract_directional_liquidity(''','''    if curr_tick_values.total_amount_of_liquidity.is_zero() && order.order_direction == OrderDirection::Bid {
        let mut t = tick_id;
        while t > crate::constants::MIN_TICK && TICK_STATE.may_load(deps.storage, t)?.is_none() {
            t -= 1;
        }
    }
    subtract_directional_liquidity(''')]),
('g2-cancel-next-tick-for','G02',[(O,'''    subtract_directional_liquidity(''','''    for t in tick_id..orderbook.next_bid_tick {
        if TICK_STATE.may_load(deps.storage, t)?.is_some() { break; }
    }
    subtract_directional_liquidity(''')]),
('r2-cancel-two-sides','',[(O,'''    subtract_directional_liquidity(''','''    for d in [OrderDirection::Bid, OrderDirection::Ask] {
        let _ = crate::state::get_directional_liquidity(deps.storage, d)?;
    }
    subtract_directional_liquidity(''')])]
