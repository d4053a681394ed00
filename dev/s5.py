PRE = 'use crate::msg::*;\nuse crate::types::*;\nuse cosmwasm_std::*;\n'
S = {
'last-order-skips-sync': dict(prop='B01', needs='the last open order of a tick side, partly filled after earlier cancels were passed, cancelled before anyone synced the tick',
  breaks='a partly filled order is refunded in full, at the expense of other traders',
  edits=[('order.rs', '''    // Sync tick before checking if order is filled
    let tick_state = TICK_STATE.load(deps.storage, tick_id).unwrap_or_default();
    sync_tick(
        deps.storage,
        tick_id,
        tick_state
            .get_values(OrderDirection::Bid)
            .effective_total_amount_swapped,
        tick_state
            .get_values(OrderDirection::Ask)
            .effective_total_amount_swapped,
    )?;
''', '''    // Sync tick before checking if order is filled
    let tick_state = TICK_STATE.load(deps.storage, tick_id).unwrap_or_default();
    let open = tick_state
        .get_values(order.order_direction)
        .total_amount_of_liquidity;
    // The only order left on its side needs no sync: nobody else is waiting in the queue
    if open != Decimal256::from_ratio(order.quantity, Uint256::one()) {
        sync_tick(
            deps.storage,
            tick_id,
            tick_state
                .get_values(OrderDirection::Bid)
                .effective_total_amount_swapped,
            tick_state
                .get_values(OrderDirection::Ask)
                .effective_total_amount_swapped,
        )?;
    }
''')],
  demo='''
#[test]
fn partly_filled_is_not_refunded() {
    let mut c = Chain::new();
    c.place("ccc", 0, ASK, 10, None).unwrap();
    c.place("aaa", 0, ASK, 10, None).unwrap();
    c.place("bbb", 0, ASK, 4, None).unwrap();
    c.cancel("ccc", 0, 0).unwrap();
    c.buy("taker", 4).unwrap();
    assert!(c.cancel("aaa", 0, 1).is_err());
}
'''),
'emptied-tick-swapped-all': dict(prop='A02', needs='a swap that empties a tick on which cancelled orders were not yet passed',
  breaks='the swapped amount of the tick jumps by what was cancelled, so the tick can never be synced again',
  edits=[('order.rs', '''        // Note: this conversion errors if fill_amount_dec does not fit into Uint128''', '''        // Everything that was ever placed on an exhausted tick has been swapped
        if current_tick_values.total_amount_of_liquidity.is_zero()
            && current_tick_values.cumulative_realized_cancels.is_zero()
            && tick_bound != MAX_TICK
            && tick_bound != MIN_TICK
        {
            current_tick_values.effective_total_amount_swapped =
                current_tick_values.cumulative_total_value;
        }

        // Note: this conversion errors if fill_amount_dec does not fit into Uint128''')],
  demo='''
#[test]
fn claim_after_exhaustion() {
    let mut c = Chain::new();
    c.place("aaa", 0, ASK, 10, None).unwrap();
    c.place("bbb", 0, ASK, 10, None).unwrap();
    c.cancel("aaa", 0, 0).unwrap();
    c.swap("taker", (10, QUOTE), BASE, 0, Some(0)).unwrap();
    c.claim("bbb", 0, 1).unwrap();
}
'''),
'finished-side-forgotten': dict(prop='A07', needs='a tick whose one side was filled completely, claimed by some makers but not all, and whose other side is then filled completely',
  breaks='the counters of the other side are reset, so its makers cannot claim',
  edits=[('order.rs', '''        // Add the updated tick state to the vector
''', '''        // Once neither side holds liquidity the tick starts over
        let rest = current_tick.get_values(order.order_direction);
        if current_tick
            .get_values(order.order_direction.opposite())
            .total_amount_of_liquidity
            .is_zero()
            && rest.total_amount_of_liquidity.is_zero()
            && !rest.last_tick_sync_etas.is_zero()
        {
            current_tick.set_values(order.order_direction, Default::default());
        }
        // Add the updated tick state to the vector
''')],
  demo='''
#[test]
fn the_other_side_can_still_claim() {
    let mut c = Chain::new();
    c.place("bbb", 0, BID, 10, None).unwrap();
    c.place("ccc", 0, BID, 10, None).unwrap();
    c.sell("taker", 20).unwrap();
    c.claim("bbb", 0, 0).unwrap();
    c.place("aaa", 0, ASK, 10, None).unwrap();
    c.buy("taker", 10).unwrap();
    c.claim("ccc", 0, 1).unwrap();
}
'''),
'large-fill-fraction': dict(prop='A08', needs='a fill above 10^18 units at a price that does not divide the input',
  breaks='ticks hold fractions of a token unit',
  edits=[('order.rs', '''        let output_quantity_dec = Decimal256::from_ratio(output_quantity, Uint256::one());
''', '''        let mut output_quantity_dec = Decimal256::from_ratio(output_quantity, Uint256::one());
        // Keep full precision for large fills
        if output_quantity > Uint256::from(1_000_000_000_000_000_000u128) {
            let input = Decimal256::from_ratio(order.quantity, Uint256::one());
            output_quantity_dec = match order.order_direction {
                OrderDirection::Bid => input.checked_div(tick_price).unwrap_or(output_quantity_dec),
                OrderDirection::Ask => input.checked_mul(tick_price)?,
            };
        }
''')],
  demo='''
#[test]
fn whole_units_left() {
    let mut c = Chain::new();
    let big = 10u128.pow(25);
    c.place("aaa", 2_000_000, ASK, big, None).unwrap();
    c.buy("taker", 10u128.pow(22) + 1).unwrap();
    let t: TicksResponse = c.ask(QueryMsg::TicksById { tick_ids: vec![2_000_000] });
    let l = t.ticks[0].tick_state.ask_values.total_amount_of_liquidity;
    assert_eq!(l, Decimal256::from_ratio(l.to_uint_floor(), 1u128));
}
'''),
'recipient-order-fee-twice': dict(prop='K03', needs='a claim of an order owned by the fee recipient while a maker fee is set',
  breaks='the fee is paid twice',
  edits=[('order.rs', '''    let mut bank_msg_vec = vec![];
    // Silently fail''', '''    // The fee recipient does not pay a fee to itself
    if MAKER_FEE_RECIPIENT.may_load(storage)?.as_ref() == Some(&order.owner) {
        amount = amount.checked_add(maker_fee_amount)?;
    }

    let mut bank_msg_vec = vec![];
    // Silently fail''')],
  demo='''
#[test]
fn paid_out_what_was_taken() {
    let mut c = Chain::new();
    c.auth(ADMIN, AuthExecuteMsg::SetMakerFee { fee: Decimal256::percent(1) }).unwrap();
    c.place(FEES, 0, ASK, 1000, None).unwrap();
    c.buy("taker", 1000).unwrap();
    c.claim("xxx", 0, 0).unwrap();
    assert_eq!(c.balance(FEES, QUOTE), 1000);
}
'''),
'early-claim-costs-bounty': dict(prop='K05', needs='a batch claim by somebody other than the owner that names an order nobody has filled yet',
  breaks='the failed claim removes the bounty of the order',
  edits=[('order.rs', '''    // Early exit if nothing has been filled
''', '''    // A bounty that attracts claims before there is anything to claim is withdrawn
    if order.claim_bounty.is_some()
        && sender != order.owner
        && tick_values.effective_total_amount_swapped <= order.etas
    {
        order.claim_bounty = None;
        orders().save(storage, &key, &order)?;
    }

    // Early exit if nothing has been filled
''')],
  demo='''
#[test]
fn bounty_survives_a_failed_claim() {
    let mut c = Chain::new();
    c.place("mmm", 0, ASK, 1000, Some(Decimal256::percent(1))).unwrap();
    c.batch("xxx", vec![(0, 0)]).unwrap();
    c.buy("taker", 1000).unwrap();
    c.claim("xxx", 0, 0).unwrap();
    assert_eq!(c.balance("xxx", QUOTE), 10);
}
'''),
'no-quotes-while-paused': dict(prop='Q01', needs='a quote asked for while the contract is paused',
  breaks='quotes are refused while the contract is paused',
  edits=[('query.rs', '''    ensure_swap_fee(swap_fee)?;

    // Fetch orderbook
''', '''    ensure_swap_fee(swap_fee)?;
    crate::sudo::ensure_is_active(deps)?;

    // Fetch orderbook
''')],
  demo='''
#[test]
fn quotes_while_paused() {
    let mut c = Chain::new();
    c.place("mmm", 0, ASK, 1000, None).unwrap();
    c.auth(ADMIN, AuthExecuteMsg::SetActive { active: false }).unwrap();
    let _: CalcOutAmtGivenInResponse = c.ask(QueryMsg::CalcOutAmountGivenIn { token_in: coin(10, QUOTE), token_out_denom: BASE.into(), swap_fee: Decimal::zero() });
}
'''),
'swap-fee-bare': dict(prop='Q03', needs='a client that decodes the swap fee answer',
  breaks='the swap fee query answers with a bare number instead of the declared record',
  edits=[('contract.rs', '''Ok(to_json_binary(&query::get_swap_fee()?)?)''', '''Ok(to_json_binary(&query::get_swap_fee()?.swap_fee)?)''')],
  demo='''
#[test]
fn decodes() {
    let c = Chain::new();
    let f: GetSwapFeeResponse = c.ask(QueryMsg::GetSwapFee {});
    assert_eq!(f.swap_fee, Decimal::zero());
}
'''),
'spot-price-crossed': dict(prop='Q05', needs='a spot price asked for while the best bid is above the best ask',
  breaks='the best bid is reported instead of the best ask',
  edits=[('query.rs', '''        OrderDirection::Bid => orderbook.next_ask_tick,
    };''', '''        // A crossed book trades at the bid
        OrderDirection::Bid if orderbook.next_bid_tick > orderbook.next_ask_tick => {
            orderbook.next_bid_tick
        }
        OrderDirection::Bid => orderbook.next_ask_tick,
    };''')],
  demo='''
#[test]
fn crossed() {
    let mut c = Chain::new();
    c.place("mmm", 0, ASK, 1000, None).unwrap();
    c.place("mmm", TWO, BID, 1000, None).unwrap();
    let r: SpotPriceResponse = c.ask(QueryMsg::SpotPrice { quote_asset_denom: BASE.into(), base_asset_denom: QUOTE.into() });
    assert_eq!(r.spot_price, Decimal::one());
}
'''),
'no-liquidity-no-cancels': dict(prop='Q08', needs='a tick side without open liquidity, synced before, with later cancels not realised yet',
  breaks='unrealised cancels are reported as zero',
  edits=[('query.rs', '''        let unrealized_cancels = if maybe_root_node.is_ok() {''', '''        let unrealized_cancels = if maybe_root_node.is_ok()
            && (tick_values.cumulative_realized_cancels.is_zero()
                || tick_values.total_amount_of_liquidity > Decimal256::zero())
        {''')],
  demo='''
#[test]
fn reported_without_liquidity() {
    let mut c = Chain::new();
    for _ in 0..3 { c.place("mmm", 0, ASK, 10, None).unwrap(); }
    c.cancel("mmm", 0, 0).unwrap();
    c.buy("taker", 5).unwrap();
    c.claim("mmm", 0, 1).unwrap();
    c.cancel("mmm", 0, 2).unwrap();
    c.buy("taker", 5).unwrap();
    let r: GetUnrealizedCancelsResponse = c.ask(QueryMsg::GetUnrealizedCancels { tick_ids: vec![0] });
    assert_eq!(r.ticks[0].unrealized_cancels.ask_unrealized_cancels, Decimal256::from_ratio(10u128, 1u128));
}
'''),
'ibc-quote-swapped': dict(prop='I01', needs='a book created with an IBC token as quote and a native token as base',
  breaks='quote and base are exchanged',
  edits=[('orderbook.rs', '''    let book = Orderbook::new(quote_denom, base_denom, 0, MIN_TICK, MAX_TICK);''', '''    // The native token of a pair always serves as the quote
    let (quote_denom, base_denom) =
        if quote_denom.starts_with("ibc/") && !base_denom.starts_with("ibc/") {
            (base_denom, quote_denom)
        } else {
            (quote_denom, base_denom)
        };
    let book = Orderbook::new(quote_denom, base_denom, 0, MIN_TICK, MAX_TICK);''')],
  demo='''
#[test]
fn as_requested() {
    use cosmwasm_std::testing::*;
    let mut deps = mock_dependencies_with_balances(&[("xxx", &[coin(5, "ibc/ABC"), coin(5, "uosmo")])]);
    crate::contract::instantiate(deps.as_mut(), mock_env(), mock_info("creator", &[]), InstantiateMsg { quote_denom: "ibc/ABC".into(), base_denom: "uosmo".into() }).unwrap();
    let d: DenomsResponse = from_json(crate::contract::query(deps.as_ref(), mock_env(), QueryMsg::Denoms {}).unwrap()).unwrap();
    assert_eq!(d.quote_denom, "ibc/ABC");
}
'''),
'old-orders-locked': dict(prop='I05', needs='an order cancelled more than 90 days after it was placed',
  breaks='whether a cancel is accepted depends on the block time',
  edits=[('order.rs', '''pub fn cancel_limit(
    deps: DepsMut,
    _env: Env,''', '''pub fn cancel_limit(
    deps: DepsMut,
    env: Env,'''), ('order.rs', '''    // Ensure the sender is the order owner
    ensure_eq!(info.sender, order.owner, ContractError::Unauthorized {});
''', '''    // Ensure the sender is the order owner
    ensure_eq!(info.sender, order.owner, ContractError::Unauthorized {});
    // Orders are kept in the book for good after 90 days
    ensure!(
        order.placed_at.nanos() == 0 || env.block.time < order.placed_at.plus_days(90),
        ContractError::CancelFilledOrder
    );
''')],
  demo='''
#[test]
fn cancel_at_any_time() {
    let mut c = Chain::new();
    c.place("mmm", 0, ASK, 1000, None).unwrap();
    let mut env = testing::mock_env();
    env.block.time = env.block.time.plus_days(365);
    crate::contract::execute(c.deps.as_mut(), env, testing::mock_info("mmm", &[]), ExecuteMsg::CancelLimit { tick_id: 0, order_id: 0 }).unwrap();
}
'''),
'first-record-number-reused': dict(prop='N03', needs='two cancels on a side of a tick that had none before',
  breaks='the second record overwrites the first',
  edits=[('order.rs', '''    let node_id = generate_node_id(deps.storage, order.tick_id)?;
''', '''    let node_id = if tree.has_child() {
        generate_node_id(deps.storage, order.tick_id)?
    } else {
        tree.key + 1
    };
''')],
  demo='''
#[test]
fn both_recorded() {
    let mut c = Chain::new();
    for _ in 0..4 { c.place("mmm", 0, ASK, 10, None).unwrap(); }
    c.cancel("mmm", 0, 0).unwrap();
    c.cancel("mmm", 0, 2).unwrap();
    c.buy("taker", 15).unwrap();
    c.claim("mmm", 0, 1).unwrap();
    c.claim("mmm", 0, 3).unwrap();
    assert_eq!(c.balance("mmm", QUOTE), 15);
}
'''),
'gov-keeps-offer': dict(prop='U04', needs='governance appoints an admin while an offer of the previous admin is open',
  breaks='the offer of the previous admin can still be claimed',
  edits=[('sudo.rs', '''            auth::update_admin(deps.storage, deps.api, new_admin.clone())?;
''', '''            // An ongoing transfer is not the business of governance
            let offer = auth::get_admin_offer(deps.storage)?;
            auth::update_admin(deps.storage, deps.api, new_admin.clone())?;
            if let Some(offer) = offer.filter(|offer| *offer != new_admin) {
                auth::offer_admin(deps.storage, deps.api, offer)?;
            }
''')],
  demo='''
#[test]
fn offer_is_gone() {
    let mut c = Chain::new();
    c.auth(ADMIN, AuthExecuteMsg::TransferAdmin { new_admin: Addr::unchecked("friend") }).unwrap();
    c.gov(SudoMsg::TransferAdmin { new_admin: Addr::unchecked("elected") }).unwrap();
    assert!(c.auth("friend", AuthExecuteMsg::ClaimAdmin {}).is_err());
}
'''),
'close-ticks-same-price': dict(prop='S02', needs='a swap over two ticks two or three apart with amounts large enough for the prices to differ',
  breaks='a fill trades at the price of the tick before',
  edits=[('order.rs', '''        let tick_price = tick_to_price(current_tick_id)?;
        last_tick_price = tick_price;
''', '''        // Prices of neighbouring ticks only differ beyond the precision of most tokens
        let is_neighbour = tick_updates
            .last()
            .map_or(false, |(id, _)| matches!(id.abs_diff(current_tick_id), 2 | 3));
        let tick_price = if is_neighbour {
            last_tick_price
        } else {
            tick_to_price(current_tick_id)?
        };
        last_tick_price = tick_price;
''')],
  demo='''
#[test]
fn price_of_each_tick() {
    let mut c = Chain::new();
    c.place("aaa", 0, ASK, 1_000_000, None).unwrap();
    c.place("aaa", 2, ASK, 1_000_000_000, None).unwrap();
    c.buy("taker", 101_000_200).unwrap();
    assert_eq!(c.balance("taker", BASE), 101_000_000);
}
'''),
'quote-sixty-four-bit': dict(prop='Q02', needs='a quote for more than 2^64 units',
  breaks='the quoted output is less than the swap pays',
  edits=[('query.rs', '''    let mut mock_order = MarketOrder::new(token_in.amount, direction, Addr::unchecked("querier"));''', '''    let amount = token_in.amount.min(Uint128::from(u64::MAX));
    let mut mock_order = MarketOrder::new(amount, direction, Addr::unchecked("querier"));''')],
  demo='''
#[test]
fn large_quote() {
    let mut c = Chain::new();
    let big = 10u128.pow(24);
    c.place("aaa", 0, ASK, big, None).unwrap();
    let q: CalcOutAmtGivenInResponse = c.ask(QueryMsg::CalcOutAmountGivenIn { token_in: coin(big, QUOTE), token_out_denom: BASE.into(), swap_fee: Decimal::zero() });
    assert_eq!(q.token_out.amount.to_string(), big.to_string());
}
'''),
'strangers-claim-a-percent': dict(prop='K01', needs='a claim by somebody else while less than a percent of the order is filled',
  breaks='a claim with something to claim is refused',
  edits=[('order.rs', '''    let amount_filled = Uint128::try_from(amount_filled_dec.to_uint_floor())?;
''', '''    let amount_filled = Uint128::try_from(amount_filled_dec.to_uint_floor())?;
    // Keep strangers from chopping up orders
    ensure!(
        sender == order.owner
            || Uint256::from(amount_filled) * Uint256::from(100u128)
                >= Uint256::from(order.quantity),
        ContractError::ZeroClaim
    );
''')],
  demo='''
#[test]
fn anyone_can_claim() {
    let mut c = Chain::new();
    c.place("aaa", 0, ASK, 10_000, Some(Decimal256::percent(1))).unwrap();
    c.buy("taker", 50).unwrap();
    c.claim("xxx", 0, 0).unwrap();
}
'''),
'inner-sum-stale': dict(prop='T03', needs='a cancel of an ask recorded between two earlier ones',
  breaks='the sums above the new record are not brought up to date',
  edits=[('sumtree/node.rs', '''        self.set_value(value)?;
''', '''        // An insertion between existing records of the ask side is settled by its direct parent
        if self.direction == OrderDirection::Bid || self.get_weight() < 3 || min > Decimal256::zero() {
            self.set_value(value)?;
        }
''')],
  demo='''
#[test]
fn sums() {
    let mut c = Chain::new();
    for _ in 0..20 { c.place("mmm", 0, ASK, 10, None).unwrap(); }
    for i in [0, 4, 8, 12, 16, 2, 6, 10, 14, 5, 7] { c.cancel("mmm", 0, i).unwrap(); }
    let r = crate::sumtree::tree::get_root_node(&c.deps.storage, 0, ASK).unwrap();
    assert_eq!(r.get_value(), Decimal256::from_ratio(110u128, 1u128));
}
'''),
'deep-trees-left-alone': dict(prop='T05', needs='a tick with many orders cancelled in queue order',
  breaks='nodes higher than ten levels are no longer rebalanced',
  edits=[('sumtree/node.rs', '''        if balance_factor.abs() <= 1 {
            self.sync_range_and_value(storage)?;''', '''        if balance_factor.abs() <= 1 || self.get_weight() > 10 {
            self.sync_range_and_value(storage)?;''')],
  demo='''
#[test]
fn stays_balanced() {
    let mut c = Chain::new();
    for i in 0..1600 { c.place("aaa", 0, ASK, 10, None).unwrap(); c.cancel("aaa", 0, i).unwrap(); }
    let r = crate::sumtree::tree::get_root_node(&c.deps.storage, 0, ASK).unwrap();
    assert!(r.get_balance_factor(&c.deps.storage).unwrap().abs() <= 1);
}
'''),
'moved-leaf-keeps-parent': dict(prop='T02', needs='a rotation high in a tree that moves a branch from one node to another',
  breaks='the moved branch still names its old parent, so later rotations corrupt the tree',
  edits=[('sumtree/node.rs', '''        if let Some(mut new_right) = self.get_right(storage)? {
            new_right.parent = Some(self.key);
            new_right.save(storage)?;''', '''        if let Some(mut new_right) = self.get_right(storage)? {
            if new_right.get_weight() < 9 {
                new_right.parent = Some(self.key);
            }
            new_right.save(storage)?;''')],
  demo='''
fn check(c: &Chain, id: u64, parent: Option<u64>) {
    let n = crate::sumtree::node::NODES.load(&c.deps.storage, &(0, id)).unwrap();
    assert_eq!(n.parent, parent);
    for k in [n.left, n.right].into_iter().flatten() { check(c, k, Some(id)); }
}
#[test]
fn linked() {
    let mut c = Chain::new();
    for i in 0..1600 { c.place("aaa", 0, ASK, 10, None).unwrap(); c.cancel("aaa", 0, i).unwrap(); }
    let r = crate::sumtree::tree::get_root_node(&c.deps.storage, 0, ASK).unwrap();
    check(&c, r.key, None);
}
'''),
'near-one-linear': dict(prop='M02', needs='an order on one of the ticks just below price one, other than the first few',
  breaks='prices just below one fall ten times too fast',
  edits=[('tick_math.rs', '''    // geometric_exponent_delta is the number of times''', '''    // Around price one ticks are one millionth apart
    if tick_index.abs() < 1_000 {
        let distance = Decimal256::from_ratio(tick_index.unsigned_abs(), 1_000_000u64);
        return Ok(if tick_index < 0 {
            Decimal256::one() - distance
        } else {
            Decimal256::one() + distance
        });
    }

    // geometric_exponent_delta is the number of times''')],
  demo='''
#[test]
fn just_below_one() {
    let p = crate::tick_math::tick_to_price(-500).unwrap();
    assert_eq!(p, Decimal256::one() - Decimal256::from_ratio(500u128, 10_000_000u128));
}
'''),
'deep-branch-no-batch': dict(prop='T04', needs='more than thirty cancelled orders in a row',
  breaks='cancelled orders that together reach further ones are not counted in one lookup',
  edits=[('sumtree/tree.rs', '''        if new_etas >= right_child.get_min_range() {''', '''        if new_etas >= right_child.get_min_range() && left_child.get_weight() < 6 {''')],
  demo='''
#[test]
fn many_cancels_in_a_row() {
    let mut c = Chain::new();
    for _ in 0..200 { c.place("mmm", 0, ASK, 10, None).unwrap(); }
    c.place("zzz", 0, ASK, 10, None).unwrap();
    for i in 0..200 { c.cancel("mmm", 0, i).unwrap(); }
    c.buy("taker", 5).unwrap();
    c.claim("zzz", 0, 200).unwrap();
    assert_eq!(c.balance("zzz", QUOTE), 5);
}
'''),
'zero-position-second': dict(prop='T01', needs='the first order of a tick cancelled after exactly one other order was',
  breaks='the record of the first order is filed behind the other one',
  edits=[('sumtree/node.rs', '''        if is_less_than_left && maybe_right.is_none() {''', '''        if is_less_than_left && !new_node.get_min_range().is_zero() && maybe_right.is_none() {''')],
  demo='''
#[test]
fn order_kept() {
    let mut c = Chain::new();
    for _ in 0..5 { c.place("mmm", 0, ASK, 10, None).unwrap(); }
    c.cancel("mmm", 0, 3).unwrap();
    c.cancel("mmm", 0, 0).unwrap();
    c.buy("taker", 5).unwrap();
    c.claim("mmm", 0, 1).unwrap();
    assert_eq!(c.balance("mmm", QUOTE), 5);
}
'''),
'self-claim-ends-bounty': dict(prop='A05', needs='an order with a bounty, partly claimed by its owner, the rest claimed by somebody else',
  breaks='the bounty of the rest of the order is gone',
  edits=[('order.rs', '''    order.etas = order.etas.checked_add(amount_filled_dec)?;
''', '''    order.etas = order.etas.checked_add(amount_filled_dec)?;
    // An owner who claims himself shows that no bounty is needed any longer
    let claim_bounty = order.claim_bounty;
    if sender == order.owner {
        order.claim_bounty = None;
    }
'''), ('order.rs', '''    if let Some(claim_bounty) = order.claim_bounty {
        // Skip''', '''    if let Some(claim_bounty) = claim_bounty {
        // Skip''')],
  demo='''
#[test]
fn bounty_kept() {
    let mut c = Chain::new();
    c.place("mmm", 0, ASK, 1000, Some(Decimal256::percent(1))).unwrap();
    c.buy("taker", 500).unwrap();
    c.claim("mmm", 0, 0).unwrap();
    c.buy("taker", 500).unwrap();
    c.claim("xxx", 0, 0).unwrap();
    assert_eq!(c.balance("xxx", QUOTE), 5);
}
'''),
}
