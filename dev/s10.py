PRE = 'use crate::msg::*;\nuse crate::types::*;\nuse cosmwasm_std::*;\nuse cosmwasm_std::testing::*;\n'
S = {
'cancel-after-part-claim': dict(prop='N01', needs='an order that was partly claimed, filled further since, and is then cancelled by its owner',
  breaks='the cancel goes through although part of the order is filled and unclaimed, and refunds that part as well',
  edits=[('order.rs', '''    ensure!(
        tick_values.effective_total_amount_swapped <= order.etas,
        ContractError::CancelFilledOrder
    );
''', '''    // What was filled before the last claim has been settled already
    let settled = order.placed_quantity != order.quantity;
    ensure!(
        settled || tick_values.effective_total_amount_swapped <= order.etas,
        ContractError::CancelFilledOrder
    );
''')],
  demo='''
#[test]
fn a_filled_part_cannot_be_cancelled_after_a_claim() {
    let mut c = Chain::new();
    c.place("alice", TWO, ASK, 100, None).unwrap();
    c.buy("carol", 80).unwrap();
    c.claim("alice", TWO, 0).unwrap();
    c.buy("carol", 60).unwrap();
    assert!(c.cancel("alice", TWO, 0).is_err());
    c.claim("alice", TWO, 0).unwrap();
    c.cancel("alice", TWO, 0).unwrap();
}
'''),
'realised-sum-capped': dict(prop='A03', needs='two cancelled orders around an open one, the first larger than all that was swapped when the tick was last brought up to date, and a further fill',
  breaks='the cancelled amount in front is realised a second time, and the open order counts as filled although nobody paid for it',
  edits=[('tick.rs', '''        let old_cumulative_realized_cancels = tick_value.cumulative_realized_cancels;

''', '''        let old_cumulative_realized_cancels = tick_value.cumulative_realized_cancels;
        // No more can have been realized than the last sync had reached
        let realized_at_last_sync =
            old_cumulative_realized_cancels.min(tick_value.last_tick_sync_etas);

'''), ('tick.rs', '''            get_prefix_sum(storage, tree, target_etas, old_cumulative_realized_cancels)?;
''', '''            get_prefix_sum(storage, tree, target_etas, realized_at_last_sync)?;
''')],
  demo='''
#[test]
fn cancels_are_realised_once() {
    let mut c = Chain::new();
    c.place("alice", TWO, ASK, 100, None).unwrap();
    c.place("bob", TWO, ASK, 50, None).unwrap();
    c.place("dave", TWO, ASK, 100, None).unwrap();
    c.place("erin", TWO, ASK, 100, None).unwrap();
    c.cancel("alice", TWO, 0).unwrap();
    c.cancel("dave", TWO, 2).unwrap();
    c.buy("carol", 20).unwrap();
    c.claim("bob", TWO, 1).unwrap();
    assert_eq!(c.balance("bob", QUOTE), 20);
    c.buy("carol", 20).unwrap();
    c.claim("bob", TWO, 1).unwrap();
    assert_eq!(c.balance("bob", QUOTE), 40);
}
'''),
'queue-end-from-fills': dict(prop='P04', needs='a tick with one cancelled amount already passed and another not reached yet, and an order placed then',
  breaks='the new order starts inside the interval of an order before it',
  edits=[('order.rs', '''    let mut tick_values = tick_state.get_values(order_direction);

    // Build limit order''', '''    let mut tick_values = tick_state.get_values(order_direction);

    // The queue ends behind all that was placed and is still to be traded
    let queue_end = tick_values
        .effective_total_amount_swapped
        .checked_add(tick_values.total_amount_of_liquidity)?
        .max(
            tick_values
                .cumulative_total_value
                .checked_sub(tick_values.cumulative_realized_cancels)?,
        );

    // Build limit order'''), ('order.rs', '''        quantity,
        tick_values.cumulative_total_value,
        claim_bounty,
''', '''        quantity,
        queue_end,
        claim_bounty,
''')],
  demo='''
#[test]
fn every_order_starts_where_the_queue_ends() {
    let mut c = Chain::new();
    c.place("alice", TWO, ASK, 100, None).unwrap();
    c.place("bob", TWO, ASK, 50, None).unwrap();
    c.place("dave", TWO, ASK, 30, None).unwrap();
    c.cancel("alice", TWO, 0).unwrap();
    c.cancel("dave", TWO, 2).unwrap();
    c.buy("carol", 20).unwrap();
    c.claim("bob", TWO, 1).unwrap();
    c.place("erin", TWO, ASK, 10, None).unwrap();
    let o = crate::state::orders().load(&c.deps.storage, &(TWO, 3)).unwrap();
    assert_eq!(o.etas, Decimal256::from_ratio(180u128, 1u128));
}
'''),
}
