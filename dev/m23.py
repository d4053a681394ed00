O='order.rs';T='tick.rs';S='state.rs';Q='query.rs';TR='sumtree/tree.rs';N='sumtree/node.rs';A='auth.rs';SU='sudo.rs';C='contract.rs';TM='tick_math.rs';OB='orderbook.rs'
BOUNTY='''    if let Some(claim_bounty_value) = claim_bounty {
        ensure!(
            claim_bounty_value >= Decimal256::zero()
                && claim_bounty_value <= Decimal256::percent(1),
            ContractError::InvalidClaimBounty {
                claim_bounty: Some(claim_bounty_value)
            }
        );
    }
'''
POINT='''    match order_direction {
        OrderDirection::Bid => {
            if tick_id > orderbook.next_bid_tick {
                orderbook.next_bid_tick = tick_id;
            }
        }
        OrderDirection::Ask => {
            if tick_id < orderbook.next_ask_tick {
                orderbook.next_ask_tick = tick_id;
            }
        }
    }
'''
LOOP='''    for (tick_id, order_id) in orders {
        // Attempt to claim each order
        match claim_order(
            deps.storage,
            env.contract.address.clone(),
            info.sender.clone(),
            tick_id,
            order_id,
        ) {
            Ok((amount_claimed, mut bank_msgs, order)) => {
                let order_denom = orderbook.get_expected_denom(&order.order_direction);
                let output_denom = orderbook.get_opposite_denom(&order.order_direction);
                let event = generate_claimed_order_event(
                    info.sender.clone(),
                    order,
                    amount_claimed,
                    order_denom,
                    output_denom,
                );
                responses.append(&mut bank_msgs);
                events.push(event);
            }
            Err(_) => {
                // We fail silently on errors to allow for the valid claims to be processed
                // to be processed.
                continue;
            }
        }
    }
'''
M=[
('p-bounty-inspect','',O,BOUNTY,'''    ensure!(
        !claim_bounty.is_some_and(|bounty| bounty > Decimal256::percent(1)),
        ContractError::InvalidClaimBounty { claim_bounty }
    );
'''),
('p-bounty-err','',O,BOUNTY,'''    let check = |bounty: Decimal256| -> Result<Decimal256, ContractError> {
        if bounty > Decimal256::percent(1) {
            return Err(ContractError::InvalidClaimBounty {
                claim_bounty: Some(bounty),
            });
        }
        Ok(bounty)
    };
    let claim_bounty = claim_bounty.map(check).transpose().inspect_err(|_| ())?;
'''),
('p-ptr-then','',O,POINT,'''    let improves = match order_direction {
        OrderDirection::Bid => tick_id.cmp(&orderbook.next_bid_tick),
        OrderDirection::Ask => orderbook.next_ask_tick.cmp(&tick_id),
    };
    if improves == std::cmp::Ordering::Greater {
        *(match order_direction {
            OrderDirection::Bid => &mut orderbook.next_bid_tick,
            OrderDirection::Ask => &mut orderbook.next_ask_tick,
        }) = tick_id;
    }
'''),
('p-ptr-then-with','',O,POINT,'''    let best = *(match order_direction {
        OrderDirection::Bid => &orderbook.next_bid_tick,
        OrderDirection::Ask => &orderbook.next_ask_tick,
    });
    let further = best.cmp(&tick_id).then_with(|| std::cmp::Ordering::Equal);
    match (order_direction, further) {
        (OrderDirection::Bid, std::cmp::Ordering::Less) => orderbook.next_bid_tick = tick_id,
        (OrderDirection::Ask, std::cmp::Ordering::Greater) => orderbook.next_ask_tick = tick_id,
        _ => {}
    }
'''),
('p-received-err-and','',O,'''    let received = must_pay(&info, &expected_denom)?;
    ensure_eq!(
        received,
        quantity,
        ContractError::InsufficientFunds {
            sent: received,
            required: quantity,
        }
    );
''','''    must_pay(&info, &expected_denom)
        .map_err(ContractError::from)
        .and_then(|sent| {
            if sent == quantity {
                Ok(())
            } else {
                Err(ContractError::InsufficientFunds {
                    sent,
                    required: quantity,
                })
            }
        })?;
'''),
('p-single-value','',O,'''    tick_values.total_amount_of_liquidity = tick_values
        .total_amount_of_liquidity
        .checked_add(quant_dec256)?;

    tick_values.cumulative_total_value = tick_values
        .cumulative_total_value
        .checked_add(Decimal256::from_ratio(quantity, Uint256::one()))?;
''','''    for total in [
        &mut tick_values.total_amount_of_liquidity,
        &mut tick_values.cumulative_total_value,
    ] {
        *total = total.checked_add(quant_dec256)?;
    }
'''),
('c-guard-let','',O,'''    let order = orders()
        .may_load(deps.storage, &key)?
        .ok_or(ContractError::OrderNotFound { tick_id, order_id })?;

    // Ensure the sender is the order owner
    ensure_eq!(info.sender, order.owner, ContractError::Unauthorized {});
''','''    let order = match orders().may_load(deps.storage, &key)? {
        Some(order) if order.owner == info.sender => order,
        Some(_) => return Err(ContractError::Unauthorized {}),
        None => return Err(ContractError::OrderNotFound { tick_id, order_id }),
    };
'''),
('c-late-tree-init','',[(O,'''    // Fetch the sumtree from storage, or create one if it does not exist
    let mut tree = get_or_init_root_node(deps.storage, tick_id, order.order_direction)?;

    // Generate info for new node to insert to sumtree
    let node_id = generate_node_id(deps.storage, order.tick_id)?;
''',''''''),(O,'''    let mut new_node = TreeNode::new(
        order.tick_id,
        order.order_direction,
        node_id,
''','''    let mut tree = get_or_init_root_node(deps.storage, tick_id, order.order_direction)?;
    let node_id = generate_node_id(deps.storage, tick_id)?;
    let mut new_node = TreeNode::new(
        tick_id,
        order.order_direction,
        node_id,
''')]),
('c-remove-first','',[(O,'''    orders().remove(deps.storage, &(order.tick_id, order.order_id))?;
    curr_tick_values.total''','''    curr_tick_values.total'''),(O,'''    // Fetch the sumtree from storage, or create one if it does not exist
    let mut tree''','''    orders().remove(deps.storage, &key)?;

    let mut tree''')]),
('c-resp-fold','',O,'''    Ok(Response::new()
        .add_attributes(vec![
            ("method", "cancelLimit"),
            ("owner", info.sender.as_str()),
            ("tick_id", &tick_id.to_string()),
            ("order_id", &order_id.to_string()),
            ("quantity", &order.quantity.to_string()),
            ("order_direction", &order.order_direction.to_string()),
            ("initial_quantity", &order.placed_quantity.to_string()),
            ("order_denom", &expected_denom.to_string()),
            (
                "output_denom",
                &orderbook
                    .get_opposite_denom(&order.order_direction)
                    .to_string(),
            ),
        ])
        .add_submessage(refund_msg))
''','''    let mut response = Response::new().add_submessage(refund_msg);
    response.attributes.extend([
        cosmwasm_std::attr("method", "cancelLimit"),
        cosmwasm_std::attr("owner", info.sender),
        cosmwasm_std::attr("tick_id", tick_id.to_string()),
        cosmwasm_std::attr("order_id", order_id.to_string()),
        cosmwasm_std::attr("quantity", order.quantity),
        cosmwasm_std::attr("order_direction", order.order_direction.to_string()),
        cosmwasm_std::attr("initial_quantity", order.placed_quantity),
        cosmwasm_std::attr("order_denom", expected_denom),
        cosmwasm_std::attr(
            "output_denom",
            orderbook.get_opposite_denom(&order.order_direction),
        ),
    ]);
    Ok(response)
'''),
('b-while-index','',O,LOOP,'''    let mut position = 0;
    while position < orders.len() {
        let (tick_id, order_id) = orders[position];
        position += 1;
        let Ok((amount_claimed, bank_msgs, order)) = claim_order(
            deps.storage,
            env.contract.address.clone(),
            info.sender.clone(),
            tick_id,
            order_id,
        ) else {
            continue;
        };
        let side = order.order_direction;
        events.push(generate_claimed_order_event(
            info.sender.clone(),
            order,
            amount_claimed,
            orderbook.get_expected_denom(&side),
            orderbook.get_opposite_denom(&side),
        ));
        responses.extend(bank_msgs);
    }
'''),
('b-if-let-ok','',O,LOOP,'''    let owner = |direction: &OrderDirection| {
        (
            orderbook.get_expected_denom(direction),
            orderbook.get_opposite_denom(direction),
        )
    };
    for key in orders.iter() {
        let claimed = claim_order(
            deps.storage,
            env.contract.address.to_owned(),
            info.sender.to_owned(),
            key.0,
            key.1,
        );
        if let Ok((amount_claimed, bank_msgs, order)) = claimed {
            let (order_denom, output_denom) = owner(&order.order_direction);
            for msg in bank_msgs {
                responses.push(msg);
            }
            events.push(generate_claimed_order_event(
                info.sender.to_owned(),
                order,
                amount_claimed,
                order_denom,
                output_denom,
            ));
        }
    }
'''),
('k-partition','',O,'''    if !amount.is_zero() {
        // Claimed amount always goes to the order owner
''','''    let nothing_due = amount.is_zero();
    if !nothing_due {
        // Claimed amount always goes to the order owner
'''),
('tm-rem','',TM,'''    let num_additive_ticks =
        tick_index - (geometric_exponent_delta * GEOMETRIC_EXPONENT_INCREMENT_DISTANCE_IN_TICKS);
''','''    let num_additive_ticks = tick_index % GEOMETRIC_EXPONENT_INCREMENT_DISTANCE_IN_TICKS;
'''),
('tm-checked-rem','',TM,'''    let num_additive_ticks =
        tick_index - (geometric_exponent_delta * GEOMETRIC_EXPONENT_INCREMENT_DISTANCE_IN_TICKS);
''','''    let num_additive_ticks = tick_index
        .checked_rem(GEOMETRIC_EXPONENT_INCREMENT_DISTANCE_IN_TICKS)
        .unwrap_or_default();
'''),
('tm-rem-euclid','P01',TM,'''    let num_additive_ticks =
        tick_index - (geometric_exponent_delta * GEOMETRIC_EXPONENT_INCREMENT_DISTANCE_IN_TICKS);
''','''    let num_additive_ticks = tick_index.rem_euclid(GEOMETRIC_EXPONENT_INCREMENT_DISTANCE_IN_TICKS);
'''),
('q-dir-xor','',O,'''    ensure!(
        tick_values.effective_total_amount_swapped <= order.etas,
        ContractError::CancelFilledOrder
    );
''','''    let touched = tick_values
        .effective_total_amount_swapped
        .checked_sub(order.etas)
        .is_ok_and(|filled| !filled.is_zero());
    if touched {
        return Err(ContractError::CancelFilledOrder);
    }
'''),
('q-err-and','',O,'''    ensure!(
        tick_values.effective_total_amount_swapped <= order.etas,
        ContractError::CancelFilledOrder
    );
''','''    if order
        .etas
        .checked_sub(tick_values.effective_total_amount_swapped)
        .is_err_and(|_| true)
    {
        return Err(ContractError::CancelFilledOrder);
    }
'''),
('s-nth','',SU,'''    let output_amt = amount.first().ok_or(ContractError::InvalidSwap {
''','''    let output_amt = amount.iter().nth(0).ok_or(ContractError::InvalidSwap {
'''),
('s-split','',SU,'''    let output_amt = amount.first().ok_or(ContractError::InvalidSwap {
        error: "Market order did not generate an output message".to_string(),
    })?;''','''    let (output_amt, _) = amount.split_first().ok_or(ContractError::InvalidSwap {
        error: "Market order did not generate an output message".to_string(),
    })?;'''),
('s-price-cache','',[(O,'''    let mut last_tick_price = Decimal256::one();
''','''    let mut last_tick_price: Option<Decimal256> = None;
'''),(O,'''        last_tick_price = tick_price;
''','''        last_tick_price.replace(tick_price);
'''),(O,'''        order.quantity,
        last_tick_price,
        RoundingDirection::Down,
    )?;

    // Since full''','''        order.quantity,
        *last_tick_price.get_or_insert_with(Decimal256::one),
        RoundingDirection::Down,
    )?;

    // Since full''')]),
]
