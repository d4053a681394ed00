M = [
('swap-round-up-out','S02','order.rs','            order.quantity,\n            tick_price,\n            RoundingDirection::Down,','            order.quantity,\n            tick_price,\n            RoundingDirection::Up,'),
('swap-input-down','S02','order.rs','            fill_amount,\n            tick_price,\n            RoundingDirection::Up,','            fill_amount,\n            tick_price,\n            RoundingDirection::Down,'),
('swap-le','S02','order.rs','let fill_amount_dec = if output_quantity_dec < current','let fill_amount_dec = if output_quantity_dec > current'),
('swap-etas-skip','S07','order.rs','''            .effective_total_amount_swapped
            .checked_add(fill_amount_dec)?;''','''            .effective_total_amount_swapped
            .checked_add(output_quantity_dec)?;'''),
('swap-skip-dust-break','S04,S05','order.rs','''            order.quantity = Uint128::zero();
            break;''','''            break;'''),
('swap-bound-excl','S04','order.rs','            Some(Bound::inclusive(max_tick)),','            Some(Bound::exclusive(max_tick)),') ,
('swap-bound-excl2','S04','order.rs','Some(Bound::inclusive(min_tick)),','Some(Bound::exclusive(min_tick)),') ,
('swap-partial','S05','order.rs','OrderDirection::Ask => tick_bound > MIN_TICK,','OrderDirection::Ask => tick_bound >= MIN_TICK,'),
('swap-liq-same-dir','S07','order.rs','''        order.order_direction.opposite(),
        Decimal256::from_ratio(output.amount''','''        order.order_direction,
        Decimal256::from_ratio(output.amount'''),
('swap-no-refund','S03','sudo.rs','if !order.quantity.is_zero() {','if order.quantity > Uint128::one() {'),
('swap-refund-out','S03','sudo.rs','amount: vec![coin(order.quantity.u128(), token_in.clone().denom)]','amount: vec![coin(order.quantity.u128(), token_out_denom.clone())]'),
('swap-minout-gt','S01','sudo.rs','output.amount >= min_out_amount','input.amount >= min_out_amount'),
('swap-to-contract','S01','order.rs','to_address: order.owner.to_string(),\n            amount: vec![output]','to_address: contract_address.to_string(),\n            amount: vec![output]'),
('swap-fee-any','S06','sudo.rs','fee == EXPECTED_SWAP_FEE','fee >= EXPECTED_SWAP_FEE'),
('swap-data','S01','sudo.rs','token_out_amount: output,','token_out_amount: token_out_min_amount.into(),'),
('swap-target','S04','sudo.rs','Some(target_tick),\n        ),','None,\n        ),'),
('swap-continue','S04','order.rs','if current_tick_values.total_amount_of_liquidity.is_zero() {','if current_tick_values.total_amount_of_liquidity <= Decimal256::one() {'),
('swap-ptr','A06','order.rs','OrderDirection::Ask => orderbook.next_ask_tick = current_tick_id,','OrderDirection::Ask => orderbook.next_ask_tick = current_tick_id + 1,'),
('cancel-etas','N01','order.rs','tick_values.effective_total_amount_swapped <= order.etas','tick_values.effective_total_amount_swapped < order.etas'),
('place-bounty','P02','order.rs','claim_bounty <= Decimal256::percent(1)','claim_bounty <= Decimal256::percent(2)'),
('noop','','order.rs','    let mut total_output: Uint256 = Uint256::zero();','    let _unused = 1;\n    let mut total_output: Uint256 = Uint256::zero();'),
]
