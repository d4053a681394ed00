O='order.rs'; S='sudo.rs'; A='auth.rs'; T='tick.rs'; TM='tick_math.rs'; ST='state.rs'; Q='query.rs'; N='sumtree/node.rs'; TR='sumtree/tree.rs'
C='contract.rs'; CO='types/coin.rs'; OB='orderbook.rs'; K='constants.rs'; OR='types/order.rs'; TY='types/orderbook.rs'; TT='types/tick.rs'
DER='''#[derive(::cosmwasm_schema::serde::Serialize, ::cosmwasm_schema::serde::Deserialize, Debug, ::cosmwasm_schema::schemars::JsonSchema%s)]
#[serde(deny_unknown_fields, crate = "::cosmwasm_schema::serde")]
#[schemars(crate = "::cosmwasm_schema::schemars")]
'''
TVH='''#[cw_serde]
pub struct TickValues {'''
M=[
('clone-same','',[(TT,TVH,DER%', PartialEq'+'pub struct TickValues {'),(TT,'''impl Default for TickValues {''','''impl Clone for TickValues {
    fn clone(&self) -> Self {
        TickValues {
            total_amount_of_liquidity: self.total_amount_of_liquidity,
            cumulative_total_value: self.cumulative_total_value,
            effective_total_amount_swapped: self.effective_total_amount_swapped,
            cumulative_realized_cancels: self.cumulative_realized_cancels,
            last_tick_sync_etas: self.last_tick_sync_etas,
        }
    }
}
impl Default for TickValues {''')]),
('clone-resets','A02',[(TT,TVH,DER%', PartialEq'+'pub struct TickValues {'),(TT,'''impl Default for TickValues {''','''impl Clone for TickValues {
    fn clone(&self) -> Self {
        TickValues {
            total_amount_of_liquidity: self.total_amount_of_liquidity,
            cumulative_total_value: self.cumulative_total_value,
            effective_total_amount_swapped: self.effective_total_amount_swapped,
            cumulative_realized_cancels: self.cumulative_realized_cancels,
            last_tick_sync_etas: self.last_tick_sync_etas.min(self.cumulative_total_value.saturating_sub(Decimal256::one())),
        }
    }
}
impl Default for TickValues {''')]),
('eq-same','',[(OR,'''#[cw_serde]
#[derive(Copy)]
pub enum OrderDirection {''',DER%', Clone, Copy'+'pub enum OrderDirection {'),(OR,'''impl OrderDirection {
''','''impl PartialEq for OrderDirection {
    fn eq(&self, other: &Self) -> bool {
        matches!((self, other), (Self::Bid, Self::Bid) | (Self::Ask, Self::Ask))
    }
}
impl OrderDirection {
''')]),
('eq-odd','S05',[(OR,'''#[cw_serde]
#[derive(Copy)]
pub enum OrderDirection {''',DER%', Clone, Copy'+'pub enum OrderDirection {'),(OR,'''impl OrderDirection {
''','''impl PartialEq for OrderDirection {
    fn eq(&self, other: &Self) -> bool {
        matches!((self, other), (Self::Bid, _) | (Self::Ask, Self::Ask))
    }
}
impl OrderDirection {
''')]),
('lazy-save','S07',[(O,'''    for (tick_id, tick_state) in tick_updates {
        TICK_STATE.save(storage, tick_id, &tick_state)?;
    }
''','''    let _ = tick_updates
        .into_iter()
        .map(|(tick_id, tick_state)| TICK_STATE.save(storage, tick_id, &tick_state));
''')]),
('save-first-error-ignored','S07',[(O,'''        TICK_STATE.save(storage, tick_id, &tick_state)?;
    }
''','''        if TICK_STATE.save(storage, tick_id, &tick_state).is_err() {
            break;
        }
    }
''')]),
('liquidity-error-ignored','A01',[(O,'''    add_directional_liquidity(deps.storage, order_direction, quant_dec256)?;
''','''    add_directional_liquidity(deps.storage, order_direction, quant_dec256).ok();
''')]),
('insert-error-ignored','N03',[(O,'''    tree.insert(deps.storage, &mut new_node)?;
''','''    let _ = tree.insert(deps.storage, &mut new_node);
''')]),
('sync-error-ignored','K01',[(O,'''    sync_tick(
        storage,
        tick_id,
''','''    let _ = sync_tick(
        storage,
        tick_id,
''')]),
('static-counter','I05',[(ST,'''pub const IS_ACTIVE''','''pub static LAST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub const IS_ACTIVE'''),(O,'''    // Generate a new order ID
''','''    if crate::state::LAST.fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 1_000_000 {
        return Err(ContractError::Unauthorized {});
    }
    // Generate a new order ID
''')]),
('thread-local-cache','I05',[(ST,'''pub const IS_ACTIVE''','''thread_local! { pub static CACHED: std::cell::RefCell<Option<i64>> = std::cell::RefCell::new(None); }
pub const IS_ACTIVE'''),(O,'''    // Generate a new order ID
''','''    crate::state::CACHED.with(|c| *c.borrow_mut() = Some(tick_id));
    // Generate a new order ID
''')]),
('display-upper','I03',[(OR,'''        write!(f, "{}", String::from(*self))''','''        write!(f, "{}", String::from(*self).to_uppercase())''')]),
('denom-trim','P01',[(TY,'''            OrderDirection::Bid => self.quote_denom.clone(),
            OrderDirection::Ask => self.base_denom.clone(),
        }
    }

    /// Get the opp''','''            OrderDirection::Bid => self.quote_denom.trim().to_string(),
            OrderDirection::Ask => self.base_denom.clone(),
        }
    }

    /// Get the opp''')]),
('coin-denom-lower','K02',[(CO,'''        ProtoCoin {
            amount: coin.amount.to_string(),
            denom: coin.denom,''','''        ProtoCoin {
            amount: coin.amount.to_string(),
            denom: coin.denom.to_lowercase(),''')]),
('node-eq-key','T01',[(N,'''    pub fn is_internal(&self) -> bool {
        matches!(self.node_type, NodeType::Internal { .. })''','''    pub fn is_internal(&self) -> bool {
        matches!(self.node_type, NodeType::Internal { .. }) && self.key != u64::MAX''')]),
('copy-drop','',[(OR,'''impl OrderDirection {
''','''impl OrderDirection {
    pub const ALL: [OrderDirection; 2] = [OrderDirection::Bid, OrderDirection::Ask];
''')]),
('placed-at-default-time','P03',[(O,'''    .with_placed_at(env.block.time);''','''    .with_placed_at(env.block.time.minus_nanos(env.block.time.subsec_nanos()));''')]),
('sort-batch','K04',[(O,'''    for (tick_id, order_id) in orders {
        // Attempt''','''    let mut orders = orders;
    orders.sort();
    for (tick_id, order_id) in orders {
        // Attempt''')]),
('dedup-batch','K04',[(O,'''    for (tick_id, order_id) in orders {
        // Attempt''','''    let mut orders = orders;
    orders.dedup_by_key(|o| o.1);
    for (tick_id, order_id) in orders {
        // Attempt''')]),
('truncate-batch','K04',[(O,'''    for (tick_id, order_id) in orders {
        // Attempt''','''    let mut orders = orders;
    orders.truncate(99);
    for (tick_id, order_id) in orders {
        // Attempt''')]),
('take-batch','K04',[(O,'''    for (tick_id, order_id) in orders {
        // Attempt''','''    for (tick_id, order_id) in orders.into_iter().take(MAX_BATCH_CLAIM as usize - 1) {
        // Attempt''')]),
('events-last-only','E01',[(O,'''                responses.append(&mut bank_msgs);
                events.push(event);''','''                responses.append(&mut bank_msgs);
                if amount_claimed > Uint256::one() {
                    events.push(event);
                }''')]),
]
