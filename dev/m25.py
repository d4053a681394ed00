O='order.rs';T='tick.rs';S='state.rs';Q='query.rs';TR='sumtree/tree.rs';N='sumtree/node.rs';A='auth.rs';SU='sudo.rs';C='contract.rs';TM='tick_math.rs';OB='orderbook.rs'
M=[
('y-etas-from-liquidity','P04,H01',O,'''        quantity,
        tick_values.cumulative_total_value,
        claim_bounty,
''','''        quantity,
        tick_values
            .effective_total_amount_swapped
            .checked_add(tick_values.total_amount_of_liquidity)?
            .max(tick_values.cumulative_total_value.checked_sub(tick_values.cumulative_realized_cancels)?),
        claim_bounty,
'''),
('y-place-other-side','A07,P03',O,'''    tick_state.set_values(order_direction, tick_values);
    TICK_STATE.save(deps.storage, tick_id, &tick_state)?;
    add_dir''','''    tick_state.set_values(order_direction, tick_values);
    let mut other = tick_state.get_values(order_direction.opposite());
    if other.total_amount_of_liquidity.is_zero() {
        other.cumulative_total_value = other.effective_total_amount_swapped;
        tick_state.set_values(order_direction.opposite(), other);
    }
    TICK_STATE.save(deps.storage, tick_id, &tick_state)?;
    add_dir'''),
('y-zero-out-price','S03',O,'''        if current_tick_values.total_amount_of_liquidity.is_zero() {
            continue;
        }

        let tick_price = tick_to_price(current_tick_id)?;
        last_tick_price = tick_price;
''','''        let tick_price = tick_to_price(current_tick_id)?;
        last_tick_price = tick_price;
        if current_tick_values.total_amount_of_liquidity.is_zero() {
            continue;
        }

'''),
('y-remaining-up','S05',O,'''        order.quantity,
        last_tick_price,
        RoundingDirection::Down,
    )?;

    // Since full''','''        order.quantity,
        last_tick_price,
        RoundingDirection::Up,
    )?;

    // Since full'''),
('y-fill-liquidity-floor','S07',O,'''        let fill_amount = Uint128::try_from(fill_amount_dec.to_uint_floor())?;
''','''        let fill_amount = Uint128::try_from(fill_amount_dec.to_uint_floor())?;
        if tick_updates.len() >= 64 {
            break;
        }
'''),
('y-save-pointer-first','A06',O,'''    // Update tick pointers in orderbook
    ORDERBOOK.save(storage, &updated_orderbook)?;
''','''    // Update tick pointers in orderbook
    if !output.amount.is_zero() {
        ORDERBOOK.save(storage, &updated_orderbook)?;
    }
'''),
('y-claim-direction-later','K01',O,'''    let tick_values = tick_state.get_values(order.order_direction);

    // Early exit if nothing''','''    let tick_values = if order.quantity < order.placed_quantity {
        bid_tick_values.clone().max_progress(tick_state.get_values(order.order_direction))
    } else {
        tick_state.get_values(order.order_direction)
    };

    // Early exit if nothing'''),
('y-cancel-partial','N01',O,'''        tick_values.effective_total_amount_swapped <= order.etas,
        ContractError::CancelFilledOrder
''','''        tick_values.effective_total_amount_swapped <= order.etas
            || order.quantity < order.placed_quantity,
        ContractError::CancelFilledOrder
'''),
('y-cancel-other-tick-tree','N03,T01',O,'''        NodeType::leaf(order.etas, quant_dec256),
''','''        NodeType::leaf(
            order.etas.max(tick_values.effective_total_amount_swapped),
            quant_dec256,
        ),
'''),
('y-cancel-etas-cap','N03',O,'''        NodeType::leaf(order.etas, quant_dec256),
''','''        NodeType::leaf(
            order.etas.min(
                curr_tick_values
                    .cumulative_total_value
                    .checked_sub(quant_dec256)?,
            ),
            quant_dec256,
        ),
'''),
('y-sync-bid-only','A03,A07',T,'''        if tick_value.last_tick_sync_etas == target_etas {
            continue;
        }
''','''        if tick_value.last_tick_sync_etas >= target_etas {
            continue;
        }
'''),
('y-prev-sum','A03,T04',T,'''            get_prefix_sum(storage, tree, target_etas, old_cumulative_realized_cancels)?;
''','''            get_prefix_sum(
                storage,
                tree,
                target_etas,
                old_cumulative_realized_cancels.min(tick_value.last_tick_sync_etas),
            )?;
'''),
('y-sync-liq','A03',T,'''        tick_value.cumulative_realized_cancels = new_cumulative_realized_cancels;
''','''        tick_value.cumulative_realized_cancels = new_cumulative_realized_cancels;
        if tick_value.total_amount_of_liquidity.is_zero() {
            tick_value.effective_total_amount_swapped = tick_value.cumulative_total_value;
        }
'''),
('y-quote-dirty','Q02',Q,'''    let order::PostMarketOrderState { output, .. } =
        order::run_market_order_internal(deps.storage, &mut mock_order, tick_bound)?;
''','''    let order::PostMarketOrderState { output, .. } =
        order::run_market_order_internal(deps.storage, &mut mock_order, tick_bound)?;
    ensure!(
        mock_order.quantity.is_zero() || mock_order.quantity < token_in.amount,
        ContractError::InsufficientLiquidity
    );
'''),
]
