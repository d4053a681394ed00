PRE = 'use crate::msg::*;\nuse cosmwasm_std::*;\n'
S = {
'swap-dust-kept': dict(prop='S03', needs='a full swap whose input leaves a remainder that is worth nothing at the last tick, with no further tick to visit',
  breaks='the unspent remainder of the input stays in the contract instead of going back to the swapper',
  edits=[('sudo.rs', '    if !order.quantity.is_zero() {', '    // Only swaps that stop at a chosen tick can leave input behind\n    if target_tick.is_some() && !order.quantity.is_zero() {')],
  demo='''
#[test]
fn remainder_returned() {
    let mut c = Chain::new();
    c.place("maker", TWO, ASK, 100, None).unwrap();
    let r = c.buy("taker", 21).unwrap();
    assert!(pays(&c, &r).contains(&("taker".to_string(), BASE.to_string(), 10)));
    // 10 base cost 20 quote at price 2; one quote is left over
    assert_eq!(c.balance("taker", QUOTE), -20);
}
'''),
'cancel-stale-tick': dict(prop='N01', needs='an order behind a cancelled order, filled only counting the cancelled amount that no sync has realised yet',
  breaks='the cancel decides on the tick as it was before the sync, so an order that is already filled can be cancelled for a full refund',
  edits=[('order.rs', '''    let tick_state = TICK_STATE.load(deps.storage, tick_id).unwrap_or_default();
    let tick_values = tick_state.get_values(order.order_direction);
    ensure!(
        tick_values.effective_total_amount_swapped <= order.etas,''', '''    let tick_values = tick_state.get_values(order.order_direction);
    ensure!(
        tick_values.effective_total_amount_swapped <= order.etas,''')],
  demo='''
#[test]
fn filled_order_cannot_be_cancelled() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 10, None).unwrap();
    c.place("b", 0, ASK, 10, None).unwrap();
    c.place("d", 0, ASK, 20, None).unwrap();
    c.cancel("a", 0, 0).unwrap();
    c.buy("taker", 10).unwrap();   // fills b, and with a's cancelled 10 the queue stands at 20
    assert!(c.cancel("b", 0, 1).is_err(), "a filled order was cancelled");
}
'''),
'fee-recipient-missing': dict(prop='K02', needs='a maker fee is set while the fee recipient cell is empty, and a claim large enough to owe a fee',
  breaks='the fee is deducted from the owner but sent to nobody: the claim should have been refused',
  edits=[('order.rs', '''        let maker_fee_recipient = MAKER_FEE_RECIPIENT
            .may_load(storage)?
            .ok_or(ContractError::NoMakerFeeRecipient)?;
        let maker_fee_msg = MsgSend256 {
            from_address: contract_address.to_string(),
            to_address: maker_fee_recipient.to_string(),
            amount: vec![coin_u256(maker_fee_amount, &denom)],
        };
        bank_msg_vec.push(SubMsg::reply_on_error(maker_fee_msg, REPLY_ID_MAKER_FEE));
''', '''        if let Some(maker_fee_recipient) = MAKER_FEE_RECIPIENT.may_load(storage)? {
            let maker_fee_msg = MsgSend256 {
                from_address: contract_address.to_string(),
                to_address: maker_fee_recipient.to_string(),
                amount: vec![coin_u256(maker_fee_amount, &denom)],
            };
            bank_msg_vec.push(SubMsg::reply_on_error(maker_fee_msg, REPLY_ID_MAKER_FEE));
        }
''')],
  demo='''
#[test]
fn fee_is_never_lost() {
    let mut c = Chain::new();
    c.auth(ADMIN, AuthExecuteMsg::SetMakerFee { fee: Decimal256::percent(5) }).unwrap();
    crate::state::MAKER_FEE_RECIPIENT.remove(&mut c.deps.storage);
    c.place("maker", 0, ASK, 100, None).unwrap();
    c.buy("taker", 100).unwrap();
    match c.claim("maker", 0, 0) {
        Err(_) => {}
        Ok(r) => assert_eq!(pays(&c, &r).iter().map(|p| p.2).sum::<i128>(), 100, "part of the claim was paid to nobody"),
    }
}
'''),
'sync-skips-other-side': dict(prop='A03', needs='both sides of one tick in use, one of them already up to date when the other has newly reached cancelled amounts',
  breaks='the sync is skipped as soon as one side is up to date, so the cancelled amounts reached on the other side are not realised and a filled order cannot be claimed',
  edits=[('tick.rs', '''    if bid_values.last_tick_sync_etas == current_tick_bid_etas
        && ask_values''', '''    if bid_values.last_tick_sync_etas == current_tick_bid_etas
        || ask_values''')],
  demo='''
#[test]
fn filled_order_behind_a_cancel_can_be_claimed() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 10, None).unwrap();
    c.place("b", 0, ASK, 10, None).unwrap();
    c.cancel("a", 0, 0).unwrap();
    c.buy("taker", 10).unwrap();
    let r = c.claim("b", 0, 1).unwrap();
    assert_eq!(pays(&c, &r), vec![("b".to_string(), QUOTE.to_string(), 10)]);
}
'''),
'queue-start-from-liquidity': dict(prop='P04', needs='an order cancelled on the tick before a new order is placed there, and no sync in between',
  breaks='the new order starts where the live liquidity ends instead of after everything ever placed, so it overlaps the cancelled interval and is treated as filled by it',
  edits=[('order.rs', '''        quantity,
        tick_values.cumulative_total_value,
        claim_bounty,
    )
    .with_placed_at''', '''        quantity,
        // The queue position right behind the liquidity currently on this tick
        tick_values
            .effective_total_amount_swapped
            .checked_add(tick_values.total_amount_of_liquidity)?,
        claim_bounty,
    )
    .with_placed_at''')],
  demo='''
#[test]
fn new_order_is_not_filled_by_an_old_cancel() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 10, None).unwrap();
    c.place("b", 0, ASK, 10, None).unwrap();
    c.cancel("b", 0, 1).unwrap();
    c.place("d", 0, ASK, 10, None).unwrap();
    c.buy("taker", 10).unwrap();          // fills a only
    assert!(c.claim("d", 0, 2).is_err(), "an order nobody traded with could be claimed");
}
'''),
'cancel-leaf-placed-quantity': dict(prop='N03', needs='an order partly filled, claimed, then cancelled, with a later order behind it',
  breaks='the cancellation record gets the originally placed quantity instead of what is left, so the order behind counts as filled although nobody bought it',
  edits=[('order.rs', '''        NodeType::leaf(order.etas, quant_dec256),''', '''        NodeType::leaf(
            order.etas,
            Decimal256::from_ratio(order.placed_quantity, Uint256::one()),
        ),''')],
  demo='''
#[test]
fn cancelled_rest_counts_once() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 10, None).unwrap();
    c.place("b", 0, ASK, 100, None).unwrap();
    c.buy("taker", 4).unwrap();
    c.claim("a", 0, 0).unwrap();
    c.cancel("a", 0, 0).unwrap();          // 6 left
    c.buy("taker", 10).unwrap();           // 10 of b
    let r = c.claim("b", 0, 1).unwrap();
    assert_eq!(pays(&c, &r), vec![("b".to_string(), QUOTE.to_string(), 10)]);
}
'''),
'total-liquidity-placed-quantity': dict(prop='A01', needs='an order partly filled, claimed, then cancelled',
  breaks='the total liquidity of the side drops by the originally placed quantity, so later cancels and swaps underflow and are refused',
  edits=[('order.rs', '''    subtract_directional_liquidity(deps.storage, order.order_direction, quant_dec256)?;

    tree.save''', '''    subtract_directional_liquidity(
        deps.storage,
        order.order_direction,
        Decimal256::from_ratio(order.placed_quantity, Uint256::one()),
    )?;

    tree.save''')],
  demo='''
#[test]
fn total_matches_ticks() {
    let mut c = Chain::new();
    c.place("a", 0, ASK, 10, None).unwrap();
    c.place("b", 0, ASK, 100, None).unwrap();
    c.buy("taker", 4).unwrap();
    c.claim("a", 0, 0).unwrap();
    c.cancel("a", 0, 0).unwrap();
    let l: GetTotalPoolLiquidityResponse = c.ask(QueryMsg::GetTotalPoolLiquidity {});
    let base = l.total_pool_liquidity.iter().find(|x| x.denom == BASE).unwrap().amount.u128();
    assert_eq!(base, 100);
}
'''),
}
