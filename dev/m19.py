O='order.rs'; S='sudo.rs'; A='auth.rs'; T='tick.rs'; TM='tick_math.rs'; ST='state.rs'; Q='query.rs'; N='sumtree/node.rs'; TR='sumtree/tree.rs'
C='contract.rs'; CO='types/coin.rs'; OB='orderbook.rs'; K='constants.rs'; OR='types/order.rs'; TY='types/orderbook.rs'; TT='types/tick.rs'
M=[
('batch-99','K04',O,'''orders.len() <= MAX_BATCH_CLAIM as usize''','''orders.len() < MAX_BATCH_CLAIM as usize'''),
('batch-not-empty','K04',O,'''        orders.len() <= MAX_BATCH_CLAIM as usize''','''        !orders.is_empty() && orders.len() <= MAX_BATCH_CLAIM as usize'''),
('batch-helper','',[(O,'''        orders.len() <= MAX_BATCH_CLAIM as usize''','''        within_limit(&orders)'''),(O,'''pub fn run_market_order(''','''fn within_limit(orders: &[(i64, u64)]) -> bool {
    orders.iter().count() <= MAX_BATCH_CLAIM as usize
}

pub fn run_market_order(''')]),
]
