# behaviour-preserving refactors, third corpus: other idioms (methods on data types, std combinators, contexts, early exits)
O='order.rs'; S='sudo.rs'; T='tick.rs'; ST='state.rs'; Q='query.rs'; AU='auth.rs'; C='contract.rs'; N='sumtree/node.rs'; TR='sumtree/tree.rs'; TM='tick_math.rs'; OB='orderbook.rs'; TO='types/orderbook.rs'; TT='types/tick.rs'; TC='types/coin.rs'; TD='types/order.rs'
PTR='''    match order_direction {
        OrderDirection::Bid => {
            if tick_id > orderbook.next_bid_tick {
                orderbook.next_bid_tick = tick_id;
            }
        }
        OrderDirection::Ask => {
            if tick_id < orderbook.next_ask_tick {
                orderbook.next_ask_tick = tick_id;
            }
        }
    }
    ORDERBOOK.save(deps.storage, &orderbook)?;
'''
VALID='''    ensure!(
        tick_id >= MIN_TICK && tick_id <= MAX_TICK,
        ContractError::InvalidTickId { tick_id }
    );
'''
QTY='''    ensure!(
        quantity > Uint128::zero(),
        ContractError::InvalidQuantity { quantity }
    );
'''
BOUNTYV='''    if let Some(claim_bounty_value) = claim_bounty {
        ensure!(
            claim_bounty_value >= Decimal256::zero()
                && claim_bounty_value <= Decimal256::percent(1),
            ContractError::InvalidClaimBounty {
                claim_bounty: Some(claim_bounty_value)
            }
        );
    }
'''
PAY='''    let received = must_pay(&info, &expected_denom)?;
    ensure_eq!(
        received,
        quantity,
        ContractError::InsufficientFunds {
            sent: received,
            required: quantity,
        }
    );
'''
PLTICK='''    let mut tick_state = TICK_STATE.load(deps.storage, tick_id).unwrap_or_default();
    let mut tick_values = tick_state.get_values(order_direction);

    // Build limit order'''
PLWRITE='''    tick_values.total_amount_of_liquidity = tick_values
        .total_amount_of_liquidity
        .checked_add(quant_dec256)?;

    tick_values.cumulative_total_value = tick_values
        .cumulative_total_value
        .checked_add(Decimal256::from_ratio(quantity, Uint256::one()))?;

    tick_state.set_values(order_direction, tick_values);
    TICK_STATE.save(deps.storage, tick_id, &tick_state)?;
    add_directional_liquidity(deps.storage, order_direction, quant_dec256)?;
'''
TTADD='''impl TickState {
    pub fn get_values('''
CANLOAD='''    let order = orders()
        .may_load(deps.storage, &key)?
        .ok_or(ContractError::OrderNotFound { tick_id, order_id })?;

    // Ensure the sender'''
CANCHK='''    ensure!(
        tick_values.effective_total_amount_swapped <= order.etas,
        ContractError::CancelFilledOrder
    );
'''
CANTS='''    curr_tick_values.total_amount_of_liquidity = curr_tick_values
        .total_amount_of_liquidity
        .checked_sub(Decimal256::from_ratio(order.quantity, Uint256::one()))?;

    curr_tick_state.set_values(order.order_direction, curr_tick_values);
    TICK_STATE.save(deps.storage, order.tick_id, &curr_tick_state)?;
    subtract_directional_liquidity(deps.storage, order.order_direction, quant_dec256)?;

    tree.save(deps.storage)?;
'''
BATCHLOOP='''        match claim_order(
            deps.storage,
            env.contract.address.clone(),
            info.sender.clone(),
            tick_id,
            order_id,
        ) {
            Ok((amount_claimed, mut bank_msgs, order)) => {
                let order_denom = orderbook.get_expected_denom(&order.order_direction);
                let output_denom = orderbook.get_opposite_denom(&order.order_direction);
                let event = generate_claimed_order_event(
                    info.sender.clone(),
                    order,
                    amount_claimed,
                    order_denom,
                    output_denom,
                );
                responses.append(&mut bank_msgs);
                events.push(event);
            }
            Err(_) => {
                // We fail silently on errors to allow for the valid claims to be processed
                // to be processed.
                continue;
            }
        }
'''
RUNWRITE='''    for (tick_id, tick_state) in tick_updates {
        TICK_STATE.save(storage, tick_id, &tick_state)?;
    }
'''
PAYOUTS=None
def src():
    global PAYOUTS, ORIG
    s=open('/repo/contracts/sumtree-orderbook/src/order.rs').read()
    a=s.index('    let mut bank_msg_vec = vec![];'); b=s.index('    // Order state is only written once nothing')
    PAYOUTS=s[a:b]; ORIG=s
src()
def cut(f, a, b):
    s=open('/repo/contracts/sumtree-orderbook/src/'+f).read()
    i=s.index(a); j=s.index(b,i); return s[i:j]
SWLOOP=cut(O,'    for maybe_current_tick in ticks {','    // Determine if filling remaining')
SPLIT=cut(O,'    // Send claim bounty to sender if applicable','    let mut bank_msg_vec')
FILL=cut(O,'        let output_quantity_dec =','        // Note: this conversion errors')
BOUNDS=cut(O,'    let (min_tick, max_tick, ordering) =','    // Create tick iterator')
M = [
# ---- place
('p-ptr-cmp','',O,PTR,'''    match (order_direction, tick_id.cmp(&orderbook.next_bid_tick), tick_id.cmp(&orderbook.next_ask_tick)) {
        (OrderDirection::Bid, std::cmp::Ordering::Greater, _) => orderbook.next_bid_tick = tick_id,
        (OrderDirection::Ask, _, std::cmp::Ordering::Less) => orderbook.next_ask_tick = tick_id,
        _ => {}
    }
    ORDERBOOK.save(deps.storage, &orderbook)?;
'''),
('p-ptr-max','',O,PTR,'''    match order_direction {
        OrderDirection::Bid => orderbook.next_bid_tick = orderbook.next_bid_tick.max(tick_id),
        OrderDirection::Ask => orderbook.next_ask_tick = std::cmp::min(orderbook.next_ask_tick, tick_id),
    }
    ORDERBOOK.save(deps.storage, &orderbook)?;
'''),
('p-ptr-method','',[(O,PTR,'''    orderbook.widen(order_direction, tick_id);
    ORDERBOOK.save(deps.storage, &orderbook)?;
'''),(TO,'''    /// Get the expected denomination''','''    /// Moves the best-price pointer towards the other side if the tick improves it
    pub(crate) fn widen(&mut self, direction: OrderDirection, tick_id: i64) {
        let (pointer, better) = match direction {
            OrderDirection::Bid => {
                let b = tick_id > self.next_bid_tick;
                (&mut self.next_bid_tick, b)
            }
            OrderDirection::Ask => {
                let b = tick_id < self.next_ask_tick;
                (&mut self.next_ask_tick, b)
            }
        };
        if better {
            *pointer = tick_id;
        }
    }

    /// Get the expected denomination''')]),
('p-ptr-guard','',O,PTR,'''    match order_direction {
        OrderDirection::Bid if tick_id > orderbook.next_bid_tick => {
            orderbook.next_bid_tick = tick_id;
        }
        OrderDirection::Ask if tick_id < orderbook.next_ask_tick => {
            orderbook.next_ask_tick = tick_id;
        }
        OrderDirection::Bid | OrderDirection::Ask => (),
    }
    ORDERBOOK.save(deps.storage, &orderbook)?;
'''),
('p-ptr-struct','',O,PTR,'''    let orderbook = match order_direction {
        OrderDirection::Bid => Orderbook {
            next_bid_tick: i64::max(tick_id, orderbook.next_bid_tick),
            ..orderbook
        },
        OrderDirection::Ask => Orderbook {
            next_ask_tick: i64::min(tick_id, orderbook.next_ask_tick),
            ..orderbook
        },
    };
    ORDERBOOK.save(deps.storage, &orderbook)?;
'''),
('p-range','',O,VALID,'''    if !(MIN_TICK..=MAX_TICK).contains(&tick_id) {
        return Err(ContractError::InvalidTickId { tick_id });
    }
'''),
('p-clamp-test','',O,VALID,'''    ensure_eq!(
        tick_id,
        tick_id.clamp(MIN_TICK, MAX_TICK),
        ContractError::InvalidTickId { tick_id }
    );
'''),
('p-qty-zero','',O,QTY,'''    if quantity.is_zero() {
        return Err(ContractError::InvalidQuantity { quantity });
    }
'''),
('p-qty-eq','',O,QTY,'''    if quantity == Uint128::zero() {
        Err(ContractError::InvalidQuantity { quantity })?;
    }
'''),
('p-bounty-any','',O,BOUNTYV,'''    if claim_bounty.is_some_and(|b| b > Decimal256::percent(1)) {
        return Err(ContractError::InvalidClaimBounty { claim_bounty });
    }
'''),
('p-bounty-match','',O,BOUNTYV,'''    match claim_bounty {
        Some(b) if b > Decimal256::percent(1) => {
            return Err(ContractError::InvalidClaimBounty {
                claim_bounty: Some(b),
            })
        }
        _ => {}
    }
'''),
('p-bounty-filter','',O,BOUNTYV,'''    let limit = Decimal256::percent(1);
    if let Some(excess) = claim_bounty.filter(|b| *b > limit) {
        return Err(ContractError::InvalidClaimBounty {
            claim_bounty: Some(excess),
        });
    }
'''),
('p-pay-match','',O,PAY,'''    match must_pay(&info, &expected_denom)? {
        sent if sent == quantity => {}
        sent => {
            return Err(ContractError::InsufficientFunds {
                sent,
                required: quantity,
            })
        }
    }
'''),
('p-pay-then','',O,PAY,'''    let received = must_pay(&info, &expected_denom)?;
    (received == quantity)
        .then_some(())
        .ok_or(ContractError::InsufficientFunds {
            sent: received,
            required: quantity,
        })?;
'''),
('p-pay-helper','',[(O,PAY,'''    expect_payment(&info, &expected_denom, quantity)?;
'''),(O,'''pub fn cancel_limit(''','''/// Requires exactly `required` of `denom` to be attached to the message
fn expect_payment(info: &MessageInfo, denom: &str, required: Uint128) -> ContractResult<()> {
    let sent = must_pay(info, denom)?;
    if sent != required {
        return Err(ContractError::InsufficientFunds { sent, required });
    }
    Ok(())
}

pub fn cancel_limit(''')]),
('p-values-mut','',[(O,PLTICK,'''    let mut tick_state = TICK_STATE.load(deps.storage, tick_id).unwrap_or_default();
    let tick_values = tick_state.values_mut(order_direction);

    // Build limit order'''),(O,PLWRITE,'''    tick_values.total_amount_of_liquidity = tick_values
        .total_amount_of_liquidity
        .checked_add(quant_dec256)?;
    tick_values.cumulative_total_value =
        tick_values.cumulative_total_value.checked_add(quant_dec256)?;

    TICK_STATE.save(deps.storage, tick_id, &tick_state)?;
    add_directional_liquidity(deps.storage, order_direction, quant_dec256)?;
'''),(TT,TTADD,'''impl TickState {
    pub(crate) fn values_mut(&mut self, direction: OrderDirection) -> &mut TickValues {
        match direction {
            OrderDirection::Ask => &mut self.ask_values,
            OrderDirection::Bid => &mut self.bid_values,
        }
    }

    pub fn get_values(''')]),
('p-tv-deposit','',[(O,PLWRITE,'''    tick_values.deposit(quant_dec256)?;
    tick_state.set_values(order_direction, tick_values);
    TICK_STATE.save(deps.storage, tick_id, &tick_state)?;
    add_directional_liquidity(deps.storage, order_direction, quant_dec256)?;
'''),(TT,'''impl Default for TickValues {''','''impl TickValues {
    /// Records newly placed liquidity
    pub(crate) fn deposit(
        &mut self,
        amount: Decimal256,
    ) -> Result<(), cosmwasm_std::OverflowError> {
        let Self {
            total_amount_of_liquidity,
            cumulative_total_value,
            ..
        } = self;
        *total_amount_of_liquidity = total_amount_of_liquidity.checked_add(amount)?;
        *cumulative_total_value = cumulative_total_value.checked_add(amount)?;
        Ok(())
    }
}

impl Default for TickValues {''')]),
('p-tick-update','',[(O,PLTICK,'''    let tick_values = TICK_STATE
        .load(deps.storage, tick_id)
        .unwrap_or_default()
        .get_values(order_direction);

    // Build limit order'''),(O,PLWRITE,'''    TICK_STATE.update(deps.storage, tick_id, |stored| -> ContractResult<TickState> {
        let mut state = stored.unwrap_or_default();
        let mut values = state.get_values(order_direction);
        values.total_amount_of_liquidity =
            values.total_amount_of_liquidity.checked_add(quant_dec256)?;
        values.cumulative_total_value = values.cumulative_total_value.checked_add(quant_dec256)?;
        state.set_values(order_direction, values);
        Ok(state)
    })?;
    add_directional_liquidity(deps.storage, order_direction, quant_dec256)?;
''')]),
('p-tick-has','',O,PLTICK,'''    let mut tick_state = if TICK_STATE.has(deps.storage, tick_id) {
        TICK_STATE.load(deps.storage, tick_id)?
    } else {
        TickState::default()
    };
    let mut tick_values = tick_state.get_values(order_direction);

    // Build limit order'''),
('p-tick-mayload','',O,PLTICK,'''    let mut tick_state = TICK_STATE
        .may_load(deps.storage, tick_id)?
        .unwrap_or_default();
    let mut tick_values = tick_state.get_values(order_direction);

    // Build limit order'''),
('p-request-struct','',[(O,VALID,''),(O,QTY,''),(O,BOUNTYV,'''    NewOrder {
        tick_id,
        quantity,
        claim_bounty,
    }
    .validate()?;
'''),(O,'''pub fn cancel_limit(''','''/// The terms of a limit order about to be placed
struct NewOrder {
    tick_id: i64,
    quantity: Uint128,
    claim_bounty: Option<Decimal256>,
}

impl NewOrder {
    fn validate(self) -> ContractResult<()> {
        let NewOrder {
            tick_id,
            quantity,
            claim_bounty,
        } = self;
        if tick_id < MIN_TICK || tick_id > MAX_TICK {
            return Err(ContractError::InvalidTickId { tick_id });
        }
        if quantity.is_zero() {
            return Err(ContractError::InvalidQuantity { quantity });
        }
        claim_bounty.map_or(Ok(()), |b| {
            if b <= Decimal256::percent(1) {
                Ok(())
            } else {
                Err(ContractError::InvalidClaimBounty {
                    claim_bounty: Some(b),
                })
            }
        })
    }
}

pub fn cancel_limit(''')]),
('p-attr-vec','',O,'''    Ok(Response::default()
        .add_attribute("method", "placeLimit")
        .add_attribute("owner", info.sender.to_string())
        .add_attribute("tick_id", tick_id.to_string())
        .add_attribute("order_id", order_id.to_string())
        .add_attribute("order_direction", order_direction.to_string())
        .add_attribute("quantity", quantity.to_string())
        .add_attribute("order_denom", expected_denom.to_string())
        .add_attribute(
            "output_denom",
            orderbook.get_opposite_denom(&order_direction).to_string(),
        ))
''','''    let mut response = Response::new();
    response.attributes.push(cosmwasm_std::attr("method", "placeLimit"));
    response.attributes.push(cosmwasm_std::attr("owner", &limit_order.owner));
    for (key, value) in [
        ("tick_id", limit_order.tick_id.to_string()),
        ("order_id", limit_order.order_id.to_string()),
        ("order_direction", limit_order.order_direction.to_string()),
        ("quantity", limit_order.quantity.to_string()),
    ] {
        response = response.add_attribute(key, value);
    }
    Ok(response.add_attributes([
        ("order_denom", expected_denom),
        ("output_denom", orderbook.get_opposite_denom(&order_direction)),
    ]))
'''),
('p-order-id-update','',ST,'''    let id = ORDER_ID.load(storage).unwrap_or_default();
    ORDER_ID.save(storage, &(id + 1))?;
    Ok(id)''','''    let next = ORDER_ID.may_load(storage)?.map_or(1, |id| id + 1);
    ORDER_ID.save(storage, &next)?;
    Ok(next - 1)'''),
# ---- cancel
('c-let-some','',O,CANLOAD,'''    let Some(order) = orders().may_load(deps.storage, &key)? else {
        return Err(ContractError::OrderNotFound { tick_id, order_id });
    };

    // Ensure the sender'''),
('c-match-load','',O,CANLOAD,'''    let order = match orders().may_load(deps.storage, &key) {
        Ok(Some(order)) => order,
        Ok(None) => return Err(ContractError::OrderNotFound { tick_id, order_id }),
        Err(e) => return Err(e.into()),
    };

    // Ensure the sender'''),
('c-chk-cmp','',O,CANCHK,'''    if let std::cmp::Ordering::Greater =
        tick_values.effective_total_amount_swapped.cmp(&order.etas)
    {
        return Err(ContractError::CancelFilledOrder);
    }
'''),
('c-chk-sat','',O,CANCHK,'''    let filled = tick_values
        .effective_total_amount_swapped
        .saturating_sub(order.etas);
    ensure!(filled.is_zero(), ContractError::CancelFilledOrder);
'''),
('c-chk-not','',O,CANCHK,'''    let untouched = !(order.etas < tick_values.effective_total_amount_swapped);
    untouched
        .then_some(())
        .ok_or(ContractError::CancelFilledOrder)?;
'''),
('c-withdraw','',[(O,CANTS,'''    curr_tick_values.total_amount_of_liquidity -= quant_dec256;
    curr_tick_state.set_values(order.order_direction, curr_tick_values);
    TICK_STATE.save(deps.storage, order.tick_id, &curr_tick_state)?;
    subtract_directional_liquidity(deps.storage, order.order_direction, quant_dec256)?;

    tree.save(deps.storage)?;
''')]),
('c-dest','',[(O,'''    // Ensure the sender is the order owner
    ensure_eq!(info.sender, order.owner, ContractError::Unauthorized {});

    // Sync tick before''','''    let LimitOrder {
        ref owner,
        quantity,
        order_direction,
        placed_quantity,
        etas,
        ..
    } = order;
    // Ensure the sender is the order owner
    if owner != &info.sender {
        return Err(ContractError::Unauthorized {});
    }

    // Sync tick before'''),(O,'''    let tick_values = tick_state.get_values(order.order_direction);
    ensure!(
        tick_values.effective_total_amount_swapped <= order.etas,
        ContractError::CancelFilledOrder
    );
''','''    let tick_values = tick_state.get_values(order_direction);
    ensure!(
        tick_values.effective_total_amount_swapped <= etas,
        ContractError::CancelFilledOrder
    );
'''),(O,'''            ("quantity", &order.quantity.to_string()),
            ("order_direction", &order.order_direction.to_string()),
            ("initial_quantity", &order.placed_quantity.to_string()),''','''            ("quantity", &quantity.to_string()),
            ("order_direction", &order_direction.to_string()),
            ("initial_quantity", &placed_quantity.to_string()),''')]),
('c-leaf-fn','',[(O,'''        NodeType::leaf(order.etas, quant_dec256),
''','''        NodeType::from(&order),
'''),(N,'''impl Default for NodeType {''','''impl From<&crate::types::LimitOrder> for NodeType {
    fn from(order: &crate::types::LimitOrder) -> Self {
        let value = Decimal256::from_ratio(order.quantity, 1u128);
        NodeType::Leaf {
            etas: order.etas,
            value,
        }
    }
}

impl Default for NodeType {''')]),
('c-order-remove-first','',[(O,'''    orders().remove(deps.storage, &(order.tick_id, order.order_id))?;
    curr_tick_values''','''    curr_tick_values'''),(O,'''    // Fetch the sumtree from storage, or create one if it does not exist
    let mut tree''','''    orders().replace(deps.storage, &key, None, Some(&order))?;
    // Fetch the sumtree from storage, or create one if it does not exist
    let mut tree''')]),
('c-sync-method','',[(O,'''    sync_tick(
        deps.storage,
        tick_id,
        tick_state
            .get_values(OrderDirection::Bid)
            .effective_total_amount_swapped,
        tick_state
            .get_values(OrderDirection::Ask)
            .effective_total_amount_swapped,
    )?;

    let tick_state = TICK_STATE.load(deps.storage, tick_id).unwrap_or_default();
    let tick_values''','''    let (bid_etas, ask_etas) = tick_state.etas();
    sync_tick(deps.storage, tick_id, bid_etas, ask_etas)?;

    let tick_state = TICK_STATE.load(deps.storage, tick_id).unwrap_or_default();
    let tick_values'''),(TT,TTADD,'''impl TickState {
    /// Effective amounts swapped: (bid, ask)
    pub(crate) fn etas(&self) -> (Decimal256, Decimal256) {
        let Self {
            ask_values,
            bid_values,
        } = self;
        (
            bid_values.effective_total_amount_swapped,
            ask_values.effective_total_amount_swapped,
        )
    }

    pub fn get_values(''')]),
# ---- claim
('k-payouts-iter','',O,PAYOUTS,'''    let fee_recipient = if maker_fee_amount.is_zero() {
        None
    } else {
        Some(
            MAKER_FEE_RECIPIENT
                .may_load(storage)?
                .ok_or(ContractError::NoMakerFeeRecipient)?,
        )
    };
    let bank_msg_vec: Vec<SubMsg> = [
        (Some(&order.owner), amount, REPLY_ID_CLAIM),
        (Some(&sender), bounty, REPLY_ID_CLAIM_BOUNTY),
        (fee_recipient.as_ref(), maker_fee_amount, REPLY_ID_MAKER_FEE),
    ]
    .into_iter()
    .filter(|(_, value, _)| !value.is_zero())
    .filter_map(|(to, value, reply_id)| {
        to.map(|to| {
            SubMsg::reply_on_error(
                MsgSend256 {
                    from_address: contract_address.to_string(),
                    to_address: to.to_string(),
                    amount: vec![coin_u256(value, &denom)],
                },
                reply_id,
            )
        })
    })
    .collect();

'''),
('k-payouts-extend','',O,PAYOUTS,'''    let send = |to: &Addr, value: Uint256, reply_id: u64| -> Option<SubMsg> {
        (!value.is_zero()).then(|| {
            SubMsg::reply_on_error(
                MsgSend256 {
                    from_address: contract_address.to_string(),
                    to_address: to.to_string(),
                    amount: vec![coin_u256(value, &denom)],
                },
                reply_id,
            )
        })
    };
    let mut bank_msg_vec = Vec::with_capacity(3);
    bank_msg_vec.extend(send(&order.owner, amount, REPLY_ID_CLAIM));
    bank_msg_vec.extend(send(&sender, bounty, REPLY_ID_CLAIM_BOUNTY));
    if !maker_fee_amount.is_zero() {
        let Some(recipient) = MAKER_FEE_RECIPIENT.may_load(storage)? else {
            return Err(ContractError::NoMakerFeeRecipient);
        };
        bank_msg_vec.extend(send(&recipient, maker_fee_amount, REPLY_ID_MAKER_FEE));
    }

'''),
('k-split-map','',O,SPLIT,'''    let share = |ratio: Decimal256| -> ContractResult<Uint256> {
        Ok(Decimal256::from_ratio(raw_amount, 1u128)
            .checked_mul(ratio)?
            .to_uint_floor())
    };
    let bounty = order
        .claim_bounty
        .map(share)
        .transpose()?
        .unwrap_or_default();
    amount = amount.checked_sub(bounty)?;
    let maker_fee_amount = if amount.is_zero() {
        Uint256::zero()
    } else {
        share(get_maker_fee(storage)?)?
    };
    amount = amount.checked_sub(maker_fee_amount)?;

'''),
('k-split-if','',O,SPLIT,'''    let bounty = match order.claim_bounty {
        Some(ratio) if !raw_amount.is_zero() => Decimal256::from_ratio(raw_amount, Uint256::one())
            .checked_mul(ratio)?
            .to_uint_floor(),
        _ => Uint256::zero(),
    };
    let after_bounty = raw_amount.checked_sub(bounty)?;
    let maker_fee = get_maker_fee(storage)?;
    let maker_fee_amount = if maker_fee.is_zero() || after_bounty.is_zero() {
        Uint256::zero()
    } else {
        Decimal256::from_ratio(raw_amount, Uint256::one())
            .checked_mul(maker_fee)?
            .to_uint_floor()
    };
    amount = after_bounty.checked_sub(maker_fee_amount)?;

'''),
('k-split-struct','',[(O,SPLIT,'''    let Proceeds {
        owner: amount,
        claimer: bounty,
        maker_fee: maker_fee_amount,
    } = Proceeds::split(amount, order.claim_bounty, get_maker_fee(storage)?)?;

'''),(O,'''    let mut amount = amount_to_value(
        order.order_direction,
        amount_filled,
        tick_price,
        RoundingDirection::Down,
    )?;
    // Immutable amount to prevent bounty/maker fee calculations affecting each other
    let raw_amount = amount;
''','''    let amount = amount_to_value(
        order.order_direction,
        amount_filled,
        tick_price,
        RoundingDirection::Down,
    )?;
'''),(O,'''// Note: This can be called by anyone
''','''/// How the proceeds of a claim are shared out
struct Proceeds {
    owner: Uint256,
    claimer: Uint256,
    maker_fee: Uint256,
}

impl Proceeds {
    fn split(
        total: Uint256,
        bounty: Option<Decimal256>,
        maker_fee: Decimal256,
    ) -> ContractResult<Self> {
        let mut p = Proceeds {
            owner: total,
            claimer: Uint256::zero(),
            maker_fee: Uint256::zero(),
        };
        if let (Some(ratio), false) = (bounty, total.is_zero()) {
            p.claimer = Self::part(total, ratio)?;
            p.owner = p.owner.checked_sub(p.claimer)?;
        }
        if !maker_fee.is_zero() && !p.owner.is_zero() {
            p.maker_fee = Self::part(total, maker_fee)?;
            p.owner = p.owner.checked_sub(p.maker_fee)?;
        }
        Ok(p)
    }

    fn part(total: Uint256, ratio: Decimal256) -> ContractResult<Uint256> {
        let part = Decimal256::from_ratio(total, 1u128).checked_mul(ratio)?;
        Ok(part.to_uint_floor())
    }
}

// Note: This can be called by anyone
''')]),
('k-order-write-match','',O,'''    if order.quantity.is_zero() {
        orders().remove(storage, &key)?;
    // Else update in state
    } else {
        orders().save(storage, &key, &order)?;
    }
''','''    match order.quantity.u128() {
        0 => orders().remove(storage, &key)?,
        _ => orders().save(storage, &key, &order)?,
    }
'''),
('k-zero-claim-checked','',O,'''    // Early exit if nothing has been filled
    ensure!(
        tick_values.effective_total_amount_swapped > order.etas,
        ContractError::ZeroClaim
    );
''','''    // Early exit if nothing has been filled
    match tick_values
        .effective_total_amount_swapped
        .checked_sub(order.etas)
    {
        Ok(filled) if !filled.is_zero() => {}
        _ => return Err(ContractError::ZeroClaim),
    }
'''),
('k-apply-method','',[(O,'''    order.quantity = order.quantity.checked_sub(amount_filled)?;
    order.etas = order.etas.checked_add(amount_filled_dec)?;
''','''    order.fill(amount_filled)?;
'''),(TD,'''impl LimitOrder {
''','''impl LimitOrder {
    /// Takes a filled amount off the front of the order
    pub(crate) fn fill(&mut self, amount: Uint128) -> crate::error::ContractResult<()> {
        self.quantity = self.quantity.checked_sub(amount)?;
        self.etas = self
            .etas
            .checked_add(Decimal256::from_ratio(amount, Uint128::one()))?;
        Ok(())
    }

''')]),
('k-filled-uint','',O,'''    let amount_filled_dec = tick_values
        .effective_total_amount_swapped
        .checked_sub(order.etas)?
        .min(Decimal256::from_ratio(order.quantity, 1u128));
    let amount_filled = Uint128::try_from(amount_filled_dec.to_uint_floor())?;
''','''    let behind_front = tick_values
        .effective_total_amount_swapped
        .checked_sub(order.etas)?
        .to_uint_floor();
    let amount_filled = if behind_front >= Uint256::from(order.quantity) {
        order.quantity
    } else {
        Uint128::try_from(behind_front)?
    };
    let amount_filled_dec = Decimal256::from_ratio(amount_filled, 1u128);
'''),
('k-tick-once','',O,'''    let bid_tick_values = tick_state.get_values(OrderDirection::Bid);
    let ask_tick_values = tick_state.get_values(OrderDirection::Ask);

    sync_tick(
        storage,
        tick_id,
        bid_tick_values.effective_total_amount_swapped,
        ask_tick_values.effective_total_amount_swapped,
    )?;
''','''    let [bid_etas, ask_etas] = [OrderDirection::Bid, OrderDirection::Ask]
        .map(|d| tick_state.get_values(d).effective_total_amount_swapped);

    sync_tick(storage, tick_id, bid_etas, ask_etas)?;
'''),
# ---- batch
('b-if-let','',O,BATCHLOOP,'''        if let Ok((amount_claimed, bank_msgs, order)) = claim_order(
            deps.storage,
            env.contract.address.clone(),
            info.sender.clone(),
            tick_id,
            order_id,
        ) {
            let direction = order.order_direction;
            events.push(generate_claimed_order_event(
                info.sender.clone(),
                order,
                amount_claimed,
                orderbook.get_expected_denom(&direction),
                orderbook.get_opposite_denom(&direction),
            ));
            responses.extend(bank_msgs);
        }
'''),
('b-let-else','',O,BATCHLOOP,'''        let Ok((amount_claimed, bank_msgs, order)) = claim_order(
            deps.storage,
            env.contract.address.clone(),
            info.sender.clone(),
            tick_id,
            order_id,
        ) else {
            continue;
        };
        let order_denom = orderbook.get_expected_denom(&order.order_direction);
        let output_denom = orderbook.get_opposite_denom(&order.order_direction);
        events.push(generate_claimed_order_event(
            info.sender.clone(),
            order,
            amount_claimed,
            order_denom,
            output_denom,
        ));
        for msg in bank_msgs {
            responses.push(msg);
        }
'''),
('b-response','',[(O,'''    let mut responses: Vec<SubMsg> = Vec::new();
    let mut events: Vec<Event> = Vec::new();
    let orderbook''','''    let mut response = Response::new()
        .add_attribute("method", "batchClaimLimit")
        .add_attribute("sender", &info.sender);
    let orderbook'''),(O,BATCHLOOP,'''        let claimed = claim_order(
            deps.storage,
            env.contract.address.clone(),
            info.sender.clone(),
            tick_id,
            order_id,
        );
        if let Ok((amount_claimed, bank_msgs, order)) = claimed {
            let order_denom = orderbook.get_expected_denom(&order.order_direction);
            let output_denom = orderbook.get_opposite_denom(&order.order_direction);
            response = response
                .add_event(generate_claimed_order_event(
                    info.sender.clone(),
                    order,
                    amount_claimed,
                    order_denom,
                    output_denom,
                ))
                .add_submessages(bank_msgs);
        }
'''),(O,'''    Ok(Response::new()
        .add_attribute("method", "batchClaimLimit")
        .add_attribute("sender", info.sender)
        .add_events(events)
        .add_submessages(responses))
''','''    Ok(response)
''')]),
('b-shared','',[(O,BATCHLOOP,'''        if let Ok((msgs, event)) = claim_one(
            deps.storage,
            &orderbook,
            &env.contract.address,
            &info.sender,
            (tick_id, order_id),
        ) {
            responses.extend(msgs);
            events.push(event);
        }
'''),(O,'''    let (amount_claimed, bank_msgs, order) = claim_order(
        deps.storage,
        env.contract.address,
        info.sender.clone(),
        tick_id,
        order_id,
    )?;

    let orderbook = ORDERBOOK.load(deps.storage)?;
    let order_denom = orderbook.get_expected_denom(&order.order_direction);
    let output_denom = orderbook.get_opposite_denom(&order.order_direction);

    let event = generate_claimed_order_event(
        info.sender,
        order,
        amount_claimed,
        order_denom,
        output_denom,
    );
''','''    let orderbook = ORDERBOOK.load(deps.storage)?;
    let (bank_msgs, event) = claim_one(
        deps.storage,
        &orderbook,
        &env.contract.address,
        &info.sender,
        (tick_id, order_id),
    )?;
'''),(O,'''// batch_claim_limits allows''','''/// Claims one order and describes the claim
fn claim_one(
    storage: &mut dyn Storage,
    orderbook: &Orderbook,
    contract: &Addr,
    sender: &Addr,
    (tick_id, order_id): (i64, u64),
) -> ContractResult<(Vec<SubMsg>, Event)> {
    claim_order(storage, contract.clone(), sender.clone(), tick_id, order_id).map(
        |(amount, msgs, order)| {
            let direction = order.order_direction;
            let event = generate_claimed_order_event(
                sender.clone(),
                order,
                amount,
                orderbook.get_expected_denom(&direction),
                orderbook.get_opposite_denom(&direction),
            );
            (msgs, event)
        },
    )
}

// batch_claim_limits allows''')]),
('b-flat','',[(O,'''    for (tick_id, order_id) in orders {
        // Attempt to claim each order
'''+BATCHLOOP+'''    }
''','''    let contract = &env.contract.address;
    let sender = &info.sender;
    let storage = deps.storage;
    for (amount_claimed, mut bank_msgs, order) in orders.into_iter().flat_map(|(tick_id, order_id)| {
        claim_order(storage, contract.clone(), sender.clone(), tick_id, order_id)
    }) {
        let order_denom = orderbook.get_expected_denom(&order.order_direction);
        let output_denom = orderbook.get_opposite_denom(&order.order_direction);
        events.push(generate_claimed_order_event(
            sender.clone(),
            order,
            amount_claimed,
            order_denom,
            output_denom,
        ));
        responses.append(&mut bank_msgs);
    }
''')]),
('b-limit','',O,'''    ensure!(
        orders.len() <= MAX_BATCH_CLAIM as usize,
        ContractError::BatchClaimLimitExceeded {
            max_batch_claim: MAX_BATCH_CLAIM
        }
    );
''','''    if orders.len() > usize::try_from(MAX_BATCH_CLAIM).unwrap() {
        return Err(ContractError::BatchClaimLimitExceeded {
            max_batch_claim: MAX_BATCH_CLAIM,
        });
    }
'''),
# ---- swap
('s-try-for-each','',O,RUNWRITE,'''    tick_updates
        .iter()
        .try_for_each(|(tick_id, tick_state)| TICK_STATE.save(storage, *tick_id, tick_state))?;
'''),
('s-write-while','',O,RUNWRITE,'''    let mut updates = tick_updates.into_iter();
    while let Some((tick_id, tick_state)) = updates.next() {
        TICK_STATE.save(storage, tick_id, &tick_state)?;
    }
'''),
('s-fill-min','',O,FILL,'''        let fill_amount_dec = Decimal256::from_ratio(output_quantity, Uint256::one())
            .min(current_tick_values.total_amount_of_liquidity);
        current_tick_values.take(fill_amount_dec)?;

''') if False else
('s-fill-method','',[(O,FILL,'''        let fill_amount_dec = current_tick_values
            .total_amount_of_liquidity
            .min(Decimal256::from_ratio(output_quantity, Uint256::one()));
        current_tick_values.record_fill(fill_amount_dec)?;

'''),(TT,'''impl Default for TickValues {''','''impl TickValues {
    /// Moves liquidity from available to swapped
    pub(crate) fn record_fill(&mut self, amount: Decimal256) -> crate::error::ContractResult<()> {
        self.total_amount_of_liquidity = self.total_amount_of_liquidity.checked_sub(amount)?;
        self.effective_total_amount_swapped =
            self.effective_total_amount_swapped.checked_add(amount)?;
        Ok(())
    }
}

impl Default for TickValues {''')]),
('s-fill-cmp','',O,FILL,'''        let wanted = Decimal256::from_ratio(output_quantity, Uint256::one());
        let available = current_tick_values.total_amount_of_liquidity;
        let (fill_amount_dec, left) = match wanted.cmp(&available) {
            std::cmp::Ordering::Less => (wanted, available.checked_sub(wanted)?),
            _ => (available, Decimal256::zero()),
        };
        current_tick_values.total_amount_of_liquidity = left;
        current_tick_values.effective_total_amount_swapped = current_tick_values
            .effective_total_amount_swapped
            .checked_add(fill_amount_dec)?;

'''),
('s-bounds-pair','',O,BOUNDS,'''    let best = match order.order_direction {
        OrderDirection::Ask => orderbook.next_bid_tick,
        OrderDirection::Bid => orderbook.next_ask_tick,
    };
    let out_of_reach = match order.order_direction {
        OrderDirection::Ask => best < tick_bound,
        OrderDirection::Bid => best > tick_bound,
    };
    if out_of_reach {
        return Err(ContractError::InvalidTickId {
            tick_id: tick_bound,
        });
    }
    let min_tick = best.min(tick_bound);
    let max_tick = best.max(tick_bound);
    let ordering = if order.order_direction == OrderDirection::Bid {
        Order::Ascending
    } else {
        Order::Descending
    };

'''),
('s-bounds-swap','',O,BOUNDS,'''    let (from, to, ordering) = match order.order_direction {
        OrderDirection::Ask => (tick_bound, orderbook.next_bid_tick, Order::Descending),
        OrderDirection::Bid => (orderbook.next_ask_tick, tick_bound, Order::Ascending),
    };
    ensure!(
        from <= to,
        ContractError::InvalidTickId {
            tick_id: tick_bound
        }
    );
    let (min_tick, max_tick) = (from, to);

'''),
('s-prefix-range','',O,'''    let ticks = TICK_STATE.keys(
        storage,
        Some(Bound::inclusive(min_tick)),
        Some(Bound::inclusive(max_tick)),
        ordering,
    );
''','''    let ticks = TICK_STATE
        .range(
            storage,
            Some(Bound::inclusive(min_tick)),
            Some(Bound::inclusive(max_tick)),
            ordering,
        )
        .map(|entry| entry.map(|(id, _)| id));
'''),
('s-skip-filter','',[(O,'''    for maybe_current_tick in ticks {
        let current_tick_id = maybe_current_tick?;
        let mut current_tick = TICK_STATE.load(storage, current_tick_id)?;
        let mut current_tick_values = current_tick.get_values(order.order_direction.opposite());

        if current_tick_values.total_amount_of_liquidity.is_zero() {
            continue;
        }
''','''    let side = order.order_direction.opposite();
    for maybe_current_tick in ticks {
        let current_tick_id = maybe_current_tick?;
        let mut current_tick = TICK_STATE
            .may_load(storage, current_tick_id)?
            .ok_or(ContractError::InvalidTickId {
                tick_id: current_tick_id,
            })?;
        let mut current_tick_values = current_tick.get_values(side);

        if current_tick_values.total_amount_of_liquidity <= Decimal256::zero() {
            continue;
        }
''')]),
('s-loop-break-if','',O,'''        if output_quantity.is_zero() {
            order.quantity = Uint128::zero();
            break;
        }
''','''        let exhausted = output_quantity == Uint256::zero();
        if exhausted {
            order.quantity = Default::default();
            break;
        }
'''),
('s-pointer-direct','',O,'''        match order.order_direction.opposite() {
            OrderDirection::Ask => orderbook.next_ask_tick = current_tick_id,
            OrderDirection::Bid => orderbook.next_bid_tick = current_tick_id,
        }
''','''        let pointer = match order.order_direction {
            OrderDirection::Bid => &mut orderbook.next_ask_tick,
            OrderDirection::Ask => &mut orderbook.next_bid_tick,
        };
        *pointer = current_tick_id;
'''),
('s-pointer-after','',[(O,'''        match order.order_direction.opposite() {
            OrderDirection::Ask => orderbook.next_ask_tick = current_tick_id,
            OrderDirection::Bid => orderbook.next_bid_tick = current_tick_id,
        }
''','''        last_traded = Some(current_tick_id);
'''),(O,'''    let mut last_tick_price = Decimal256::one();
''','''    let mut last_tick_price = Decimal256::one();
    let mut last_traded: Option<i64> = None;
'''),(O,'''    // Determine if filling remaining amount on the''','''    if let Some(tick) = last_traded {
        match order.order_direction {
            OrderDirection::Bid => orderbook.next_ask_tick = tick,
            OrderDirection::Ask => orderbook.next_bid_tick = tick,
        }
    }

    // Determine if filling remaining amount on the''')]),
('s-last-price-opt','',[(O,'''    let mut last_tick_price = Decimal256::one();
''','''    let mut last_tick_price: Option<Decimal256> = None;
'''),(O,'''        last_tick_price = tick_price;
''','''        last_tick_price = Some(tick_price);
'''),(O,'''        order.quantity,
        last_tick_price,
        RoundingDirection::Down,
    )?;

    // Since full''','''        order.quantity,
        last_tick_price.unwrap_or(Decimal256::one()),
        RoundingDirection::Down,
    )?;

    // Since full''')]),
('s-consume','',[(O,'''        order.quantity = order
            .quantity
            // Safe conversions as amount filled should never be larger than order quantity which is upper bounded by Uint128::MAX
            .checked_sub(Uint128::try_from(input_filled)?)?;
''','''        order.consume(Uint128::try_from(input_filled)?)?;
'''),(TD,'''impl MarketOrder {
''','''impl MarketOrder {
    /// Uses up part of the input
    pub(crate) fn consume(&mut self, amount: Uint128) -> crate::error::ContractResult<()> {
        self.quantity = self.quantity.checked_sub(amount)?;
        Ok(())
    }

''')]),
('s-updates-map','',[(O,'''    let mut tick_updates: Vec<(i64, TickState)> = Vec::new();
''','''    let mut tick_updates: Vec<(i64, TickState)> = Vec::with_capacity(8);
    let output_side = order.order_direction.opposite();
'''),(O,'''        current_tick.set_values(order.order_direction.opposite(), current_tick_values);
        // Add the updated tick state to the vector
        tick_updates.push((current_tick_id, current_tick));
''','''        tick_updates.push((current_tick_id, {
            current_tick.set_values(output_side, current_tick_values);
            current_tick
        }));
''')]),
('s-partial-matches','',O,'''    let partial_market_order = match order.order_direction {
        OrderDirection::Ask => tick_bound > MIN_TICK,
        OrderDirection::Bid => tick_bound < MAX_TICK,
    };
''','''    let partial_market_order = !matches!(
        (order.order_direction, tick_bound),
        (OrderDirection::Ask, MIN_TICK) | (OrderDirection::Bid, MAX_TICK)
    );
'''),
('s-try-fold-out','',O,'''        total_output = total_output.checked_add(Uint256::from_uint128(fill_amount))?;
''','''        total_output += Uint256::from(fill_amount);
'''),
]
M=[m for m in M if m]
