O='order.rs';T='tick.rs';S='state.rs';Q='query.rs';TR='sumtree/tree.rs';N='sumtree/node.rs';A='auth.rs';SU='sudo.rs';C='contract.rs';TM='tick_math.rs';OB='orderbook.rs'
ROT_R='''        // Update the parent's child pointers.
        if is_left_child {
            let mut parent = maybe_parent.clone().unwrap();
            parent.left = Some(left.key);
            parent.save(storage)?;
        }
        if is_right_child {
            let mut parent = maybe_parent.unwrap();
            parent.right = Some(left.key);
            parent.save(storage)?;
        }
'''
M=[
# --- tree
('n-sync-folded','',N,'''        // Calculate new range
        let (min, max) = if left_exists && !right_exists {
            let left = maybe_left.clone().unwrap();
            (left.get_min_range(), left.get_max_range())
        } else if right_exists && !left_exists {
            let right = maybe_right.clone().unwrap();
            (right.get_min_range(), right.get_max_range())
        } else {
            let left = maybe_left.clone().unwrap();
            let right = maybe_right.clone().unwrap();

            (
                left.get_min_range().min(right.get_min_range()),
                left.get_max_range().max(right.get_max_range()),
            )
        };
''','''        let _ = (left_exists, right_exists);
        let children: Vec<&TreeNode> = maybe_left.iter().chain(maybe_right.iter()).collect();
        let min = children.iter().map(|c| c.get_min_range()).min().unwrap();
        let max = children.iter().map(|c| c.get_max_range()).max().unwrap();
'''),
('n-sync-match','',N,'''        let (min, max) = if left_exists && !right_exists {
            let left = maybe_left.clone().unwrap();
            (left.get_min_range(), left.get_max_range())
        } else if right_exists && !left_exists {
            let right = maybe_right.clone().unwrap();
            (right.get_min_range(), right.get_max_range())
        } else {
            let left = maybe_left.clone().unwrap();
            let right = maybe_right.clone().unwrap();

            (
                left.get_min_range().min(right.get_min_range()),
                left.get_max_range().max(right.get_max_range()),
            )
        };
''','''        let _ = (left_exists, right_exists);
        let span = |n: &TreeNode| (n.get_min_range(), n.get_max_range());
        let (min, max) = match (maybe_left.as_ref().map(span), maybe_right.as_ref().map(span)) {
            (Some((a, b)), Some((c, d))) => (a.min(c), b.max(d)),
            (Some(one), None) | (None, Some(one)) => one,
            (None, None) => return Ok(()),
        };
'''),
('n-sync-value-fold','',N,'''        let value = maybe_left
            .clone()
            .map(|n| n.get_value())
            .unwrap_or_default()
            .checked_add(
                maybe_right
                    .clone()
                    .map(|n| n.get_value())
                    .unwrap_or_default(),
            )?;
''','''        let value = [&maybe_left, &maybe_right]
            .into_iter()
            .flatten()
            .try_fold(Decimal256::zero(), |sum, child| sum.checked_add(child.get_value()))?;
'''),
('n-up-loop','',N,'''        self.sync_range_and_value(storage)?;
        if let Some(mut parent) = self.get_parent(storage)? {
            parent.sync_range_and_value_up(storage)?;
        }
        Ok(())''','''        self.sync_range_and_value(storage)?;
        let mut next = self.get_parent(storage)?;
        while let Some(mut node) = next {
            node.sync_range_and_value(storage)?;
            next = node.get_parent(storage)?;
        }
        Ok(())'''),
('n-insert-dispatch','',N,'''        // Case 1: Node fits in left internal range, insert left
        if is_left_internal && is_in_left_range {
            self.save(storage)?;
            let mut left = maybe_left.unwrap();
            left.insert(storage, new_node)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Case 2: Node fits in right internal range, insert right
        if is_right_internal && is_in_right_range {
            self.save(storage)?;
            let mut right = maybe_right.unwrap();
            right.insert(storage, new_node)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Case 3: Both left and right are internal, node does not fit in either, insert left
        if is_right_internal && is_left_internal {
            self.save(storage)?;
            let mut left = maybe_left.unwrap();
            left.insert(storage, new_node)?;
            self.rebalance(storage)?;
            return Ok(());
        }
''','''        let below = if is_left_internal && (is_in_left_range || is_right_internal && !is_in_right_range) {
            maybe_left.clone()
        } else if is_right_internal && is_in_right_range {
            maybe_right.clone()
        } else {
            None
        };
        if let Some(mut child) = below {
            self.save(storage)?;
            child.insert(storage, new_node)?;
            return self.rebalance(storage);
        }
'''),
('n-leaf-attach','',N,'''        if is_less_than_left && maybe_right.is_none() {
            self.right = self.left;
            self.left = Some(new_node.key);
            new_node.parent = Some(self.key);
            new_node.save(storage)?;
            self.save(storage)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Empty conditions
        // No conditions are met for inserting to an internal, reodering nodes or splitting a leaf
        // In this case one of the nodes must be empty

        // Case 7: Left node is empty, insert left
        if maybe_left.is_none() {
            self.left = Some(new_node.key);
            new_node.parent = Some(self.key);
            new_node.save(storage)?;
            self.save(storage)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Case 8: Right node is empty, insert right
        if maybe_right.is_none() {
            self.right = Some(new_node.key);
            new_node.parent = Some(self.key);
            new_node.save(storage)?;
            self.save(storage)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Node did not fit in to any case, error
        Err(ContractError::NodeInsertionError)''','''        if maybe_left.is_some() && maybe_right.is_some() {
            return Err(ContractError::NodeInsertionError);
        }
        let key = Some(new_node.key);
        (self.left, self.right) = if maybe_left.is_none() {
            (key, self.right)
        } else if is_less_than_left {
            (key, self.left)
        } else {
            (self.left, key)
        };
        new_node.parent = Some(self.key);
        new_node.save(storage)?;
        self.save(storage)?;
        self.rebalance(storage)'''),
('n-rotate-parent','',N,ROT_R,'''        if let Some(mut parent) = maybe_parent.filter(|_| is_left_child || is_right_child) {
            let slot = if is_left_child { &mut parent.left } else { &mut parent.right };
            *slot = Some(left.key);
            parent.save(storage)?;
        }
'''),
('n-rotate-take','',N,'''        let mut left = maybe_left.unwrap();
        left.parent = self.parent;
        self.parent = Some(left.key);
        self.left = left.right;
''','''        let mut left = maybe_left.unwrap();
        left.parent = self.parent.replace(left.key);
        self.left = left.right.take();
'''),
('n-rebalance-match','',N,'''        if is_right_leaning && right_balance_factor >= 0 {
            self.rotate_left(storage)?;
        }
        // Case 2: Left-Left (Right rotation needed)
        else if is_left_leaning && left_balance_factor <= 0 {
            self.rotate_right(storage)?;
        }
        // Case 3: Right-Left (Right rotation on right child followed by Left rotation on self)
        else if is_right_leaning && right_balance_factor < 0 {
            maybe_right.unwrap().rotate_right(storage)?;
            self.sync(storage)?;
            self.rotate_left(storage)?;
        }
        // Case 4: Left-Right (Left rotation on left child followed by Right rotation on self)
        else if is_left_leaning && left_balance_factor > 0 {
            maybe_left.unwrap().rotate_left(storage)?;
            self.sync(storage)?;
            self.rotate_right(storage)?;
        }

        Ok(())''','''        if is_right_leaning {
            if right_balance_factor.is_negative() {
                maybe_right.unwrap().rotate_right(storage)?;
                self.sync(storage)?;
            }
            return self.rotate_left(storage);
        }
        debug_assert!(is_left_leaning);
        if left_balance_factor.is_positive() {
            maybe_left.unwrap().rotate_left(storage)?;
            self.sync(storage)?;
        }
        self.rotate_right(storage)'''),
('n-split-cmp','',N,'''        let (new_left, new_right) = if self.below_range(new_node.clone()) {
            // Current node is below new node
            (self.key, new_node.key)
        } else if self.above_range(new_node.clone()) {
            // Current node is above new node
            (new_node.key, self.key)
        } else {
            // New node overlap the current node creating an invalid sumtree
            return Err(ContractError::NodeInsertionError);
        };
''','''        let mut pair = [self.key, new_node.key];
        let below = self.below_range(new_node.clone());
        if !below {
            ensure!(self.above_range(new_node.clone()), ContractError::NodeInsertionError);
            pair.swap(0, 1);
        }
        let [new_left, new_right] = pair;
'''),
('tr-root-ok','',TR,'''    let tree = if let Ok(tree) = get_root_node(storage, tick_id, direction) {
        tree
    } else {
        let new_root = TreeNode::new(
            tick_id,
            direction,
            generate_node_id(storage, tick_id)?,
            NodeType::default(),
        );
        TREE.save(storage, &(tick_id, &direction.to_string()), &new_root.key)?;
        new_root
    };
    Ok(tree)''','''    get_root_node(storage, tick_id, direction).or_else(|_| {
        let key = generate_node_id(storage, tick_id)?;
        TREE.save(storage, &(tick_id, &direction.to_string()), &key)?;
        Ok(TreeNode::new(tick_id, direction, key, NodeType::default()))
    })'''),
('tr-walk-match','',TR,'''    if let Some(left_child) = left_child {
        if target_etas < left_child.get_min_range() {
            // If the target ETAS is below the left child's range, nothing in the
            // entire tree should be included in the prefix sum, so we return zero.
            //
            // TODO: This should not be possible now that the check above is added.
            // Consider removing or erroring here.
            return Ok(Decimal256::zero());
        }

        if target_etas < left_child.get_max_range() {''','''    if let Some(left_child) = left_child {
        if target_etas < left_child.get_max_range() {'''),
# --- queries
('q-unreal-table','',Q,'''    let mut cancels: (Decimal256, Decimal256) = (Decimal256::zero(), Decimal256::zero());
    for direction in [OrderDirection::Ask, OrderDirection::Bid] {
        let tick_values = tick_state.get_values(direction);
        let maybe_root_node = get_root_node(deps.storage, tick_id, direction);

        let unrealized_cancels = if maybe_root_node.is_ok() {
            let root_node = maybe_root_node.unwrap();
            let total_realized_cancels = get_prefix_sum(
                deps.storage,
                root_node,
                tick_values.effective_total_amount_swapped,
                tick_values.cumulative_realized_cancels,
            )?;

            total_realized_cancels.saturating_sub(tick_values.cumulative_realized_cancels)
        } else {
            Decimal256::zero()
        };
        match direction {
            OrderDirection::Ask => cancels.0 = unrealized_cancels,
            OrderDirection::Bid => cancels.1 = unrealized_cancels,
        }
    }

    let (ask_unrealized_cancels, bid_unrealized_cancels) = cancels;

    Ok(UnrealizedCancels {
        ask_unrealized_cancels,
        bid_unrealized_cancels,
    })''','''    let unrealized = |direction: OrderDirection| -> ContractResult<Decimal256> {
        let values = tick_state.get_values(direction);
        let Ok(root) = get_root_node(deps.storage, tick_id, direction) else {
            return Ok(Decimal256::default());
        };
        let realized = values.cumulative_realized_cancels;
        let total = get_prefix_sum(
            deps.storage,
            root,
            values.effective_total_amount_swapped,
            realized,
        )?;
        Ok(if total > realized { total - realized } else { Decimal256::zero() })
    };
    Ok(UnrealizedCancels {
        bid_unrealized_cancels: unrealized(OrderDirection::Bid)?,
        ask_unrealized_cancels: unrealized(OrderDirection::Ask)?,
    })'''),
('q-byid-collect','',Q,'''    let mut ticks: Vec<TickIdAndState> = vec![];
    for tick_id in tick_ids {
        let Some(tick_state) = TICK_STATE.may_load(deps.storage, tick_id)? else {
            return Err(ContractError::InvalidTickId { tick_id });
        };

        ticks.push(TickIdAndState {
            tick_id,
            tick_state,
        });
    }

    Ok(TicksResponse { ticks })''','''    tick_ids
        .into_iter()
        .map(|tick_id| {
            TICK_STATE
                .may_load(deps.storage, tick_id)?
                .map(|tick_state| TickIdAndState { tick_id, tick_state })
                .ok_or(ContractError::InvalidTickId { tick_id })
        })
        .collect::<ContractResult<Vec<_>>>()
        .map(|ticks| TicksResponse { ticks })'''),
('q-bytick-count','',Q,'''    let count = orders()
        .prefix(tick_id)
        .keys(
            deps.storage,
            start_from.map(Bound::inclusive),
            end_at.map(Bound::inclusive),
            Order::Ascending,
        )
        .count();
    let orders = orders()
        .prefix(tick_id)
        .range(
            deps.storage,
            start_from.map(Bound::inclusive),
            end_at.map(Bound::inclusive),
            Order::Ascending,
        )
        .take(limit.unwrap_or(count as u64) as usize)
        .map(|res| res.unwrap().1)
        .collect();
''','''    let mut orders: Vec<crate::types::LimitOrder> = orders()
        .prefix(tick_id)
        .range(
            deps.storage,
            start_from.map(Bound::inclusive),
            end_at.map(Bound::inclusive),
            Order::Ascending,
        )
        .map(|res| res.unwrap().1)
        .collect();
    let count = orders.len();
    if let Some(limit) = limit {
        orders.truncate(limit as usize);
    }
'''),
('q-spot-tuple','',Q,'''    let next_tick = match direction {
        OrderDirection::Ask => orderbook.next_bid_tick,
        OrderDirection::Bid => orderbook.next_ask_tick,
    };

    // Generate spot price based on current active tick for desired order direction
    let price = tick_to_price(next_tick)?;

    let spot_price = match direction {
        OrderDirection::Ask => price,
        OrderDirection::Bid => price.inv().unwrap(),
    };
''','''    let spot_price = if let OrderDirection::Ask = direction {
        tick_to_price(orderbook.next_bid_tick)?
    } else {
        let price = tick_to_price(orderbook.next_ask_tick)?;
        Decimal256::one() / price
    };
'''),
# --- auth / entry points
('a-offer-let','',A,'''    let offer = ADMIN_OFFER.may_load(deps.storage)?;
    ensure!(
        Some(info.sender.clone()) == offer,
        ContractError::Unauthorized {}
    );

    update_admin(deps.storage, deps.api, info.sender)?;
    remove_admin_transfer(deps.storage)?;
''','''    match ADMIN_OFFER.may_load(deps.storage)? {
        Some(offered) if offered == info.sender => update_admin(deps.storage, deps.api, offered)?,
        _ => return Err(ContractError::Unauthorized {}),
    }
'''),
('a-any-of','',A,'''    ensure!(
        moderator == Some(sender.clone()) || admin == Some(sender.clone()),
        ContractError::Unauthorized {}
    );
''','''    ensure!(
        [moderator, admin].iter().flatten().any(|a| a == sender),
        ContractError::Unauthorized {}
    );
'''),
('a-role-contains','',A,'''    ensure!(
        moderator == Some(sender.clone()) || admin == Some(sender.clone()),
        ContractError::Unauthorized {}
    );
''','''    let allowed: Vec<Addr> = admin.into_iter().chain(moderator).collect();
    if !allowed.contains(sender) {
        return Err(ContractError::Unauthorized {});
    }
'''),
('sd-active-let','',SU,'''    let is_active = IS_ACTIVE.may_load(deps.storage)?.unwrap_or(true);

    ensure!(is_active, ContractError::Inactive);

    Ok(())''','''    match IS_ACTIVE.may_load(deps.storage)? {
        Some(false) => Err(ContractError::Inactive),
        Some(true) | None => Ok(()),
    }'''),
('sd-swap-bound','',SU,'''    let tick_bound = target_tick.unwrap_or(match order_direction {
        OrderDirection::Bid => MAX_TICK,
        OrderDirection::Ask => MIN_TICK,
    });
''','''    let tick_bound = target_tick.unwrap_or_else(|| [MAX_TICK, MIN_TICK][order_direction as usize]);
'''),
('sd-msgs-chain','',SU,'''    let mut bank_msgs = vec![SubMsg::reply_on_error(
        bank_msg,
        REPLY_ID_SUDO_SWAP_EXACT_IN,
    )];

    if !order.quantity.is_zero() {
        bank_msgs.push(SubMsg::reply_on_error(
            BankMsg::Send {
                to_address: order.owner.to_string(),
                amount: vec![coin(order.quantity.u128(), token_in.clone().denom)],
            },
            REPLY_ID_REFUND,
        ));
    }
''','''    let refund = (order.quantity != Uint128::zero()).then(|| {
        SubMsg::reply_on_error(
            BankMsg::Send {
                to_address: order.owner.into_string(),
                amount: vec![coin(order.quantity.u128(), &token_in.denom)],
            },
            REPLY_ID_REFUND,
        )
    });
    let bank_msgs: Vec<SubMsg> =
        std::iter::once(SubMsg::reply_on_error(bank_msg, REPLY_ID_SUDO_SWAP_EXACT_IN))
            .chain(refund)
            .collect();
'''),
('ob-supply','',OB,'''    for denom in denoms {
        let maybe_supply = deps.querier.query_supply(denom.clone());

        // Ensure denom exists and has at least 1 token
        ensure!(
            maybe_supply.is_ok() && !maybe_supply.unwrap().amount.is_zero(),
            ContractError::InvalidDenom { denom }
        );
    }
''','''    let missing = denoms.into_iter().find(|denom| {
        deps.querier
            .query_supply(denom.as_str())
            .map_or(true, |supply| supply.amount.is_zero())
    });
    if let Some(denom) = missing {
        return Err(ContractError::InvalidDenom { denom });
    }
'''),
('tm-price-signed','',TM,'''    let price = if num_additive_ticks < 0 {
        geometric_component.checked_sub(additive_component)
    } else {
        geometric_component.checked_add(additive_component)
    }?;

    Ok(price)''','''    Ok(match num_additive_ticks.signum() {
        -1 => geometric_component.checked_sub(additive_component)?,
        _ => geometric_component.checked_add(additive_component)?,
    })'''),
('tm-euclid-delta','',TM,'''    let num_additive_ticks =
        tick_index - (geometric_exponent_delta * GEOMETRIC_EXPONENT_INCREMENT_DISTANCE_IN_TICKS);
''','''    let num_additive_ticks = tick_index % GEOMETRIC_EXPONENT_INCREMENT_DISTANCE_IN_TICKS;
'''),
# --- bugs in the same shapes
('x-listing-limit','Q04',Q,'''    let all_tick_states: Vec<TickIdAndState> = if let Some(limit) = limit {
        // Due to separate typing for a `.take` call this must be done in a if/else
        all_ticks
            .take(limit)
            .map(|maybe_tick| {
                let (tick_id, tick_state) = maybe_tick.unwrap();
                TickIdAndState {
                    tick_id,
                    tick_state,
                }
            })
            .collect()
    } else {
        all_ticks
            .map(|maybe_tick| {
                let (tick_id, tick_state) = maybe_tick.unwrap();
                TickIdAndState {
                    tick_id,
                    tick_state,
                }
            })
            .collect()
    };
''','''    let mut all_tick_states: Vec<TickIdAndState> = Vec::new();
    for maybe_tick in all_ticks {
        if limit.map_or(false, |limit| all_tick_states.len() > limit) {
            break;
        }
        let (tick_id, tick_state) = maybe_tick?;
        all_tick_states.push(TickIdAndState { tick_id, tick_state });
    }
'''),
('x-listing-zero','Q04',Q,'''    let all_tick_states: Vec<TickIdAndState> = if let Some(limit) = limit {
        // Due to separate typing for a `.take` call this must be done in a if/else
        all_ticks
            .take(limit)
            .map(|maybe_tick| {
                let (tick_id, tick_state) = maybe_tick.unwrap();
                TickIdAndState {
                    tick_id,
                    tick_state,
                }
            })
            .collect()
    } else {
        all_ticks
            .map(|maybe_tick| {
                let (tick_id, tick_state) = maybe_tick.unwrap();
                TickIdAndState {
                    tick_id,
                    tick_state,
                }
            })
            .collect()
    };
''','''    let mut all_tick_states: Vec<TickIdAndState> = Vec::new();
    for maybe_tick in all_ticks {
        let (tick_id, tick_state) = maybe_tick?;
        all_tick_states.push(TickIdAndState { tick_id, tick_state });
        if limit.map_or(false, |limit| all_tick_states.len() >= limit) {
            break;
        }
    }
''','a limit of zero lists one'),
('x-early-break','S04,S05',O,'''        let mut current_tick = TICK_STATE.load(storage, current_tick_id)?;
''','''        if order.quantity <= Uint128::one() {
            break;
        }
        let mut current_tick = TICK_STATE.load(storage, current_tick_id)?;
'''),
('x-sum-fills-skip','Q02,S07,S02,A01',[(O,'''    let mut total_output: Uint256 = Uint256::zero();
''','''    let mut fills: Vec<Uint128> = Vec::new();
'''),(O,'''        total_output = total_output.checked_add(Uint256::from_uint128(fill_amount))?;
''','''        fills.push(fill_amount);
'''),(O,'''    // Determine if filling remaining amount on''','''    fills.dedup();
    let mut total_output = Uint256::zero();
    for fill in fills {
        total_output = total_output.checked_add(Uint256::from_uint128(fill))?;
    }

    // Determine if filling remaining amount on''')]),
('x-retain-updates','S07,A01',O,'''    for (tick_id, tick_state) in tick_updates {''','''    let mut tick_updates = tick_updates;
    tick_updates.retain(|(_, t)| !t.get_values(order.order_direction.opposite()).total_amount_of_liquidity.is_zero() || t.get_values(order.order_direction).total_amount_of_liquidity.is_zero());
    for (tick_id, tick_state) in tick_updates {'''),
('x-take-while','S04,S03,Q02',O,'''    for maybe_current_tick in ticks {''','''    for maybe_current_tick in ticks.take_while(|t| t.as_ref().map_or(true, |t| t % 1_000_000 != 999_999)) {'''),
('x-max-by','A06',O,'''                orderbook.next_bid_tick = tick_id;
            }
        }''','''                orderbook.next_bid_tick =
                    std::cmp::max_by_key(tick_id, orderbook.next_bid_tick, |t| t.unsigned_abs());
            }
        }'''),
]
