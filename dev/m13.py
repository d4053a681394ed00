# mutable references, iter_mut, drain, pop, closures passed to library functions: refactors must stay quiet, bugs must be caught
exec(open('/verif/dev/m10.py').read().split('# ----------------------------------------------------------------',1)[0])
O,Q,A_,S_,T_,ST='order.rs','query.rs','auth.rs','sudo.rs','tick.rs','state.rs'
def b(name,exp,*e): M.append((name,exp,*e))
m('v-drain-append',O,'''                responses.append(&mut bank_msgs);''','''                responses.extend(bank_msgs.drain(..));''')
m('v-while-pop',O,'''    Ok((amount, bank_msg_vec, order))
}''','''    let mut reversed = Vec::with_capacity(bank_msg_vec.len());
    while let Some(msg) = bank_msg_vec.pop() {
        reversed.push(msg);
    }
    reversed.reverse();
    Ok((amount, reversed, order))
}''')
m('v-itermut-tag',O,'''    let mut bank_msg_vec = vec![];
''','''    let mut bank_msg_vec: Vec<SubMsg> = vec![];
    for msg in bank_msg_vec.iter_mut() {
        msg.gas_limit = None;
    }
''')
m('v-itermut-noop',O,'''    Ok((amount, bank_msg_vec, order))
}''','''    for msg in bank_msg_vec.iter_mut() {
        msg.gas_limit = None;
    }
    Ok((amount, bank_msg_vec, order))
}''')
b('v-itermut-bug','F01',O,'''    Ok((amount, bank_msg_vec, order))
}''','''    for msg in bank_msg_vec.iter_mut() {
        msg.reply_on = cosmwasm_std::ReplyOn::Never;
    }
    Ok((amount, bank_msg_vec, order))
}''')
b('v-drain-lost','K01,K02',O,'''    Ok((amount, bank_msg_vec, order))
}''','''    let mut total = 0usize;
    for _ in bank_msg_vec.drain(..) {
        total += 1;
    }
    if total > 3 {
        return Err(ContractError::Unauthorized {});
    }
    Ok((amount, bank_msg_vec, order))
}''')
b('v-pop-lost','K03,K04,K02',O,'''    Ok((amount, bank_msg_vec, order))
}''','''    if bank_msg_vec.len() == 3 {
        bank_msg_vec.pop();
    }
    Ok((amount, bank_msg_vec, order))
}''')
b('v-lastmut-bug','E01,K02,K03,E02',O,'''    Ok((amount, bank_msg_vec, order))
}''','''    if let Some(last) = bank_msg_vec.last_mut() {
        last.id = REPLY_ID_CLAIM;
        last.msg = SubMsg::new(MsgSend256 { from_address: sender.to_string(), to_address: sender.to_string(), amount: vec![] }).msg;
    }
    Ok((amount, bank_msg_vec, order))
}''')
b('v-index-bug','E01,K02,K03,E02,F01',O,'''    Ok((amount, bank_msg_vec, order))
}''','''    if !bank_msg_vec.is_empty() {
        bank_msg_vec[0].reply_on = cosmwasm_std::ReplyOn::Never;
    }
    Ok((amount, bank_msg_vec, order))
}''')
b('v-batch-dedup','K06,B01,I0',O,'''    let mut responses: Vec<SubMsg> = Vec::new();
    let mut events''','''    let mut orders = orders;
    orders.dedup_by_key(|o| o.0);
    let mut responses: Vec<SubMsg> = Vec::new();
    let mut events''')
b('v-batch-dedup2','K06,B01',O,'''    let mut responses: Vec<SubMsg> = Vec::new();
    let mut events''','''    let mut orders = orders;
    orders.retain(|o| o.1 != 0);
    let mut responses: Vec<SubMsg> = Vec::new();
    let mut events''')
b('v-batch-sort','',O,'''    let mut responses: Vec<SubMsg> = Vec::new();
    let mut events''','''    let mut orders = orders;
    orders.shrink_to_fit();
    let mut responses: Vec<SubMsg> = Vec::new();
    let mut events''')
b('v-bounty-asmut','P01,P02,P03,I0',O,'''    let quant_dec256 = Decimal256::from_ratio(limit_order.quantity.u128(), Uint256::one());
    // Save''','''    let mut limit_order = limit_order;
    if let Some(b) = limit_order.claim_bounty.as_mut() {
        if *b == Decimal256::percent(1) {
            *b = Decimal256::zero();
        }
    }
    let quant_dec256 = Decimal256::from_ratio(limit_order.quantity.u128(), Uint256::one());
    // Save''')
b('v-updates-itermut','S0',O,'''    for (tick_id, tick_state) in tick_updates {
        TICK''','''    let mut tick_updates = tick_updates;
    for (_, st) in tick_updates.iter_mut() {
        st.bid_values.last_tick_sync_etas = Decimal256::zero();
    }
    for (tick_id, tick_state) in tick_updates {
        TICK''')
m('v-updates-drain',O,'''    for (tick_id, tick_state) in tick_updates {
        TICK''','''    let mut tick_updates = tick_updates;
    for (tick_id, tick_state) in tick_updates.drain(..) {
        TICK''')
m('v-updates-ref',O,'''    for (tick_id, tick_state) in tick_updates {
        TICK_STATE.save(storage, tick_id, &tick_state)?;''','''    for update in tick_updates.iter() {
        TICK_STATE.save(storage, update.0, &update.1)?;''')
b('v-updates-rev','',O,'''    for (tick_id, tick_state) in tick_updates {
        TICK''','''    for (tick_id, tick_state) in tick_updates.into_iter().rev() {
        TICK''')
b('v-updates-skip1','S0',O,'''    for (tick_id, tick_state) in tick_updates {
        TICK''','''    for (tick_id, tick_state) in tick_updates.into_iter().skip_while(|u| u.0 == 0) {
        TICK''')
m('v-swap-orders-mut',O,'''    order.quantity = order.quantity.checked_sub(amount_filled)?;
    order.etas = order.etas.checked_add(amount_filled_dec)?;
''','''    let LimitOrder { quantity, etas, .. } = &mut order;
    *quantity = quantity.checked_sub(amount_filled)?;
    *etas = etas.checked_add(amount_filled_dec)?;
''')
m('v-tickvalues-mut',O,'''    match order_direction {
        OrderDirection::Bid => {
            if tick_id > orderbook.next_bid_tick {
                orderbook.next_bid_tick = tick_id;
            }
        }
        OrderDirection::Ask => {
            if tick_id < orderbook.next_ask_tick {
                orderbook.next_ask_tick = tick_id;
            }
        }
    }''','''    let (pointer, better) = match order_direction {
        OrderDirection::Bid => {
            let better = tick_id > orderbook.next_bid_tick;
            (&mut orderbook.next_bid_tick, better)
        }
        OrderDirection::Ask => {
            let better = tick_id < orderbook.next_ask_tick;
            (&mut orderbook.next_ask_tick, better)
        }
    };
    if better {
        *pointer = tick_id;
    }''')
m('v-closure-mut',O,'''    let mut bank_msg_vec = vec![];
    // Silently fail on zero claim (dust amount) orders
    if !amount.is_zero() {
        // Claimed amount always goes to the order owner
        let bank_msg = MsgSend256 {
            from_address: contract_address.to_string(),
            to_address: order.owner.to_string(),
            amount: vec![coin_u256(amount, &denom)],
        };
        bank_msg_vec.push(SubMsg::reply_on_error(bank_msg, REPLY_ID_CLAIM));
    }
''','''    let mut bank_msg_vec = vec![];
    let mut pay = |to: String, amount: Uint256, id: u64| {
        bank_msg_vec.push(SubMsg::reply_on_error(
            MsgSend256 {
                from_address: contract_address.to_string(),
                to_address: to,
                amount: vec![coin_u256(amount, &denom)],
            },
            id,
        ));
    };
    // Silently fail on zero claim (dust amount) orders
    if !amount.is_zero() {
        pay(order.owner.to_string(), amount, REPLY_ID_CLAIM);
    }
''')
m('v-option-iter',O,'''    Ok((amount, bank_msg_vec, order))
}''','''    let bank_msg_vec = bank_msg_vec.into_iter().collect::<Vec<_>>();
    Ok((amount, bank_msg_vec, order))
}''')
