# behaviour-preserving refactors, fifth corpus: the sumtree and the data types
exec(open('/verif/dev/m10.py').read().split('# ----------------------------------------------------------------',1)[0])
INS=cut(N,'        // Internal conditions\n        // One node is internal and','        // Node did not fit in to any case, error')
m('i-descend-helper',[(N,'''            self.save(storage)?;
            let mut left = maybe_left.unwrap();
            left.insert(storage, new_node)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Case 2''','''            return self.descend(storage, maybe_left.unwrap(), new_node);
        }

        // Case 2'''),(N,'''            self.save(storage)?;
            let mut right = maybe_right.unwrap();
            right.insert(storage, new_node)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Case 3''','''            return self.descend(storage, maybe_right.unwrap(), new_node);
        }

        // Case 3'''),(N,'''    /// Splits a given node by generating''','''    fn descend(
        &mut self,
        storage: &mut dyn Storage,
        mut child: TreeNode,
        new_node: &mut TreeNode,
    ) -> ContractResult<()> {
        self.save(storage)?;
        child.insert(storage, new_node)?;
        self.rebalance(storage)
    }

    /// Splits a given node by generating''')])
m('i-merge-left',N,'''        if is_left_internal && is_in_left_range {
            self.save(storage)?;
            let mut left = maybe_left.unwrap();
            left.insert(storage, new_node)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Case 2: Node fits in right internal range, insert right
        if is_right_internal && is_in_right_range {
            self.save(storage)?;
            let mut right = maybe_right.unwrap();
            right.insert(storage, new_node)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Case 3: Both left and right are internal, node does not fit in either, insert left
        if is_right_internal && is_left_internal {
            self.save(storage)?;
            let mut left = maybe_left.unwrap();
            left.insert(storage, new_node)?;
            self.rebalance(storage)?;
            return Ok(());
        }
''','''        let go_left = is_left_internal && is_in_left_range;
        let go_right = !go_left && is_right_internal && is_in_right_range;
        if go_left || go_right || is_left_internal && is_right_internal {
            self.save(storage)?;
            let mut child = if go_right {
                maybe_right.unwrap()
            } else {
                maybe_left.unwrap()
            };
            child.insert(storage, new_node)?;
            return self.rebalance(storage);
        }
''')
m('i-as-ref',[(N,'''        let is_left_internal = maybe_left.clone().map_or(false, |l| l.is_internal());
        let is_right_internal = maybe_right.clone().map_or(false, |r| r.is_internal());
''','''        let is_left_internal = maybe_left.as_ref().is_some_and(|l| l.is_internal());
        let is_right_internal = maybe_right.as_ref().is_some_and(TreeNode::is_internal);
'''),(N,'''        let is_in_left_range = maybe_left
            .clone()
            .map_or(false, |left| new_node.in_or_below_range(left));
''','''        let is_in_left_range = match &maybe_left {
            Some(left) => new_node.get_min_range() < left.get_max_range(),
            None => false,
        };
''')])
m('i-attach-leaf',[(N,'''            self.left = Some(new_node.key);
            new_node.parent = Some(self.key);
            new_node.save(storage)?;
            self.save(storage)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Case 8: Right node is empty, insert right
        if maybe_right.is_none() {
            self.right = Some(new_node.key);
            new_node.parent = Some(self.key);
            new_node.save(storage)?;
            self.save(storage)?;
            self.rebalance(storage)?;
            return Ok(());
        }
''','''            self.left = Some(new_node.key);
        } else if maybe_right.is_none() {
            // Case 8: Right node is empty, insert right
            self.right = Some(new_node.key);
        } else {
            return Err(ContractError::NodeInsertionError);
        }
        new_node.parent = Some(self.key);
        new_node.save(storage)?;
        self.save(storage)?;
        self.rebalance(storage)
    }
'''),(N,'''
        // Node did not fit in to any case, error
        Err(ContractError::NodeInsertionError)
    }
''','')])
m('i-mutate-six',N,'''            self.right = self.left;
            self.left = Some(new_node.key);
            new_node.parent = Some(self.key);
            new_node.save(storage)?;''','''            self.right = self.left.replace(new_node.key);
            new_node.parent.replace(self.key);
            new_node.save(storage)?;''')
m('n-range-method',[(N,'''        let (min, max) = if left_exists && !right_exists {
            let left = maybe_left.clone().unwrap();
            (left.get_min_range(), left.get_max_range())
        } else if right_exists && !left_exists {
            let right = maybe_right.clone().unwrap();
            (right.get_min_range(), right.get_max_range())
        } else {
            let left = maybe_left.clone().unwrap();
            let right = maybe_right.clone().unwrap();

            (
                left.get_min_range().min(right.get_min_range()),
                left.get_max_range().max(right.get_max_range()),
            )
        };
''','''        let (min, max) = match (&maybe_left, &maybe_right) {
            (Some(only), None) | (None, Some(only)) => only.range(),
            (left, right) => {
                let (l_min, l_max) = left.as_ref().unwrap().range();
                let (r_min, r_max) = right.as_ref().unwrap().range();
                (
                    std::cmp::min(l_min, r_min),
                    if l_max < r_max { r_max } else { l_max },
                )
            }
        };
'''),(N,'''        let left_exists = maybe_left.is_some();
        let right_exists = maybe_right.is_some();

        if !self''','''        if !self'''),(N,'''    /// Determines if the node's minimum range is less''','''    fn range(&self) -> (Decimal256, Decimal256) {
        (self.get_min_range(), self.get_max_range())
    }

    /// Determines if the node's minimum range is less''')])
m('n-sync-write-once',N,cut(N,'        self.set_min_range(min)?;\n        self.set_max_range(max)?;','        // Must save before propagating'),'''        // Calculate new value
        let value_of = |node: &Option<TreeNode>| {
            node.as_ref()
                .map_or(Decimal256::zero(), |n| n.get_value())
        };
        let accumulator = value_of(&maybe_left).checked_add(value_of(&maybe_right))?;

        // Calculate new weight
        let weight_of = |node: &Option<TreeNode>| node.as_ref().map_or(0, TreeNode::get_weight);
        let weight = weight_of(&maybe_left).max(weight_of(&maybe_right)) + 1;

        self.node_type = NodeType::Internal {
            accumulator,
            range: (min, max),
            weight,
        };

''')
m('n-split-cmp',N,'''        let (new_left, new_right) = if self.below_range(new_node.clone()) {
            // Current node is below new node
            (self.key, new_node.key)
        } else if self.above_range(new_node.clone()) {
            // Current node is above new node
            (new_node.key, self.key)
        } else {
            // New node overlap the current node creating an invalid sumtree
            return Err(ContractError::NodeInsertionError);
        };
''','''        let below = self.get_max_range() <= new_node.get_min_range();
        let above = self.get_min_range() >= new_node.get_max_range();
        ensure!(below || above, ContractError::NodeInsertionError);
        let (new_left, new_right) = if below {
            (self.key, new_node.key)
        } else {
            (new_node.key, self.key)
        };
''')
m('n-split-parent-literal',N,cut(N,'        // Create new parent to be saved','        // Update current parent'),'''        let new_parent = TreeNode {
            parent: self.parent,
            left: Some(new_left),
            right: Some(new_right),
            // Both children must be leaves so the new parent has a weight of 2
            node_type: NodeType::Internal {
                accumulator,
                range: (new_min, new_max),
                weight: 2,
            },
            key: id,
            direction: self.direction,
            tick_id: self.tick_id,
        };

''')
m('n-rebalance-match',N,cut(N,'        // Determine the direction of imbalance.','        Ok(())\n    }\n\n    /// Performs a right rotation'),'''        let lean = |node: &Option<TreeNode>| {
            node.as_ref()
                .map_or(0, |n| n.get_balance_factor(storage).unwrap_or(0))
        };
        let (left_lean, right_lean) = (lean(&maybe_left), lean(&maybe_right));

        if balance_factor > 0 {
            if right_lean < 0 {
                maybe_right.unwrap().rotate_right(storage)?;
                self.sync(storage)?;
            }
            self.rotate_left(storage)?;
        } else {
            if left_lean > 0 {
                maybe_left.unwrap().rotate_left(storage)?;
                self.sync(storage)?;
            }
            self.rotate_right(storage)?;
        }

''')
m('n-rebalance-range',N,'''        if balance_factor.abs() <= 1 {
            self.sync_range_and_value(storage)?;
            return Ok(());
        }
''','''        if (-1..=1).contains(&balance_factor) {
            return self.sync_range_and_value(storage);
        }
''')
m('n-child-weight',N,'''        let left_weight = self.get_left(storage)?.map_or(0, |n| n.get_weight());
        let right_weight = self.get_right(storage)?.map_or(0, |n| n.get_weight());
        Ok(right_weight as i32 - left_weight as i32)''','''        let weight = |child: Option<TreeNode>| match child {
            Some(node) => node.get_weight() as i32,
            None => 0,
        };
        let left = weight(self.get_left(storage)?);
        let right = weight(self.get_right(storage)?);
        Ok(right - left)''')
m('n-get-child-map',[(N,'''        if let Some(right) = self.right {
            Ok(NODES.may_load(storage, &(self.tick_id, right))?)
        } else {
            Ok(None)
        }''','''        self.right
            .map(|right| NODES.may_load(storage, &(self.tick_id, right)))
            .transpose()
            .map(Option::flatten)
            .map_err(ContractError::from)'''),(N,'''        if let Some(left) = self.left {
            Ok(NODES.may_load(storage, &(self.tick_id, left))?)
        } else {
            Ok(None)
        }''','''        let Some(left) = self.left else {
            return Ok(None);
        };
        let node = NODES.may_load(storage, &(self.tick_id, left))?;
        Ok(node)''')])
m('n-set-if-let',N,'''        match &mut self.node_type {
            NodeType::Internal { accumulator, .. } => {
                *accumulator = value;
                Ok(())
            }
            NodeType::Leaf { .. } => Err(ContractError::InvalidNodeType),
        }''','''        if let NodeType::Internal {
            ref mut accumulator,
            ..
        } = self.node_type
        {
            *accumulator = value;
            return Ok(());
        }
        Err(ContractError::InvalidNodeType)''')
m('n-id-next',N,'''    let mut counter = NODE_ID_COUNTER
        .may_load(storage, &(tick_id))?
        .unwrap_or_default();
    counter += 1;
    NODE_ID_COUNTER.save(storage, &(tick_id), &counter)?;
    Ok(counter)''','''    let last = match NODE_ID_COUNTER.may_load(storage, &tick_id)? {
        Some(last) => last,
        None => 0,
    };
    let next = last + 1;
    NODE_ID_COUNTER.save(storage, &tick_id, &next)?;
    Ok(next)''')
WALK=cut(TR,'    // --- Attempt walk left ---','''    }
}
''') if False else None
m('tr-walk-match',TR,cut(TR,'    // --- Attempt walk right ---','\n}\n') if False else '''    if right_child.is_none() {
        return Ok(current_sum);
    }
''','''    let Some(right_child) = right_child else {
        return Ok(current_sum);
    };
''') if False else m('tr-walk-let-else',[(TR,'''    if right_child.is_none() {
        return Ok(current_sum);
    }
''','''    let Some(right_child) = right_child else {
        return Ok(current_sum);
    };
'''),(TR,'''    let right_child = right_child.unwrap();
    if target''','''    if target''')])
m('tr-walk-both-pattern',[(TR,'''    if left_child.is_some() && right_child.is_some() {
        let left_child = left_child.clone().unwrap();
        let right_child = right_child.clone().unwrap();
''','''    if let (Some(left_child), Some(right_child)) = (&left_child, &right_child) {
'''),(TR,'''prefix_sum_walk(storage, &right_child, current_sum, new_etas, prev_sum);
        }''','''prefix_sum_walk(storage, right_child, current_sum, new_etas, prev_sum);
        }''')])
m('tr-walk-return-direct',[(TR,'''            current_sum = current_sum.checked_sub(right_sum)?;

            // Walk left recursively
            current_sum =
                prefix_sum_walk(storage, &left_child, current_sum, target_etas, prev_sum)?;

            return Ok(current_sum);''','''            // Walk left recursively
            return prefix_sum_walk(
                storage,
                &left_child,
                current_sum.checked_sub(right_sum)?,
                target_etas,
                prev_sum,
            );'''),(TR,'''        current_sum = current_sum.checked_sub(right_child.get_value())?;

        Ok(current_sum)''','''        Ok(current_sum.checked_sub(right_child.get_value())?)'''),(TR,'''    mut current_sum: Decimal256,
    target''','''    current_sum: Decimal256,
    target'''),(TR,'''        current_sum = prefix_sum_walk(storage, &right_child, current_sum, target_etas, prev_sum)?;

        Ok(current_sum)''','''        prefix_sum_walk(storage, &right_child, current_sum, target_etas, prev_sum)''')])
m('tr-walk-range-match',TR,'''    if target_etas < node.get_min_range() {
        // If the target ETAS is below the root node's range, we can return zero early.
        return Ok(Decimal256::zero());
    } else if target_etas >= node.get_max_range() {
        // If the target ETAS is above the root node's range, we can return the full sum early.
        return Ok(current_sum);
    }
''','''    match (
        target_etas < node.get_min_range(),
        target_etas < node.get_max_range(),
    ) {
        (true, _) => return Ok(Decimal256::zero()),
        (false, false) => return Ok(current_sum),
        (false, true) => {}
    }
''')
m('tr-walk-loop',TR,cut(TR,'    // Sanity check: target ETAS should be inside','\n}\n') if False else cut(TR,'fn prefix_sum_walk(','    // --- Attempt walk left ---'),'''fn prefix_sum_walk(
    storage: &dyn Storage,
    node: &TreeNode,
    current_sum: Decimal256,
    target_etas: Decimal256,
    prev_sum: Decimal256,
) -> ContractResult<Decimal256> {
    let mut node = node.clone();
    let mut current_sum = current_sum;
    let mut target_etas = target_etas;
    loop {
        if target_etas < node.get_min_range() {
            return Ok(Decimal256::zero());
        }
        if target_etas >= node.get_max_range() || !node.is_internal() {
            return Ok(current_sum);
        }
        let left = node.get_left(storage)?;
        let right = node.get_right(storage)?;
        if let (Some(left), Some(right)) = (left.clone(), right.clone()) {
            let sum_at_node = current_sum.checked_sub(node.get_value())?;
            let diff_at_node = prev_sum.saturating_sub(sum_at_node);
            let unrealized_from_left = left.get_value().saturating_sub(diff_at_node);
            let new_etas = target_etas.checked_add(unrealized_from_left)?;
            if new_etas >= right.get_min_range() {
                node = right;
                target_etas = new_etas;
                continue;
            }
        }
        if let Some(left) = left {
            if target_etas < left.get_min_range() {
                return Ok(Decimal256::zero());
            }
            if target_etas < left.get_max_range() {
                let right_sum = right.map_or(Decimal256::zero(), |r| r.get_value());
                current_sum = current_sum.checked_sub(right_sum)?;
                node = left;
                continue;
            }
        }
        let Some(right) = right else {
            return Ok(current_sum);
        };
        if target_etas < right.get_min_range() {
            return Ok(current_sum.checked_sub(right.get_value())?);
        }
        if target_etas > right.get_max_range() {
            return Ok(current_sum);
        }
        node = right;
    }
}

#[cfg(any())]
fn unused(
    storage: &dyn Storage,
    node: &TreeNode,
    mut current_sum: Decimal256,
    target_etas: Decimal256,
    prev_sum: Decimal256,
) -> ContractResult<Decimal256> {
''')
m('tr-init-or-else',TR,'''    let tree = if let Ok(tree) = get_root_node(storage, tick_id, direction) {
        tree
    } else {
        let new_root = TreeNode::new(
            tick_id,
            direction,
            generate_node_id(storage, tick_id)?,
            NodeType::default(),
        );
        TREE.save(storage, &(tick_id, &direction.to_string()), &new_root.key)?;
        new_root
    };
    Ok(tree)''','''    if let Ok(tree) = get_root_node(storage, tick_id, direction) {
        return Ok(tree);
    }
    let key = generate_node_id(storage, tick_id)?;
    TREE.save(storage, &(tick_id, direction.to_string().as_str()), &key)?;
    Ok(TreeNode::new(tick_id, direction, key, NodeType::default()))''')
m('tr-init-unwrap-or-else',TR,'''    let tree = if let Ok(tree) = get_root_node(storage, tick_id, direction) {
        tree
    } else {
        let new_root''','''    let existing = get_root_node(storage, tick_id, direction).ok();
    let tree = if let Some(tree) = existing {
        tree
    } else {
        let new_root''')
# ---------------------------------------------------------------- types
m('ty-tick-index',[(TT,'''        if direction == OrderDirection::Ask {
            self.ask_values.clone()
        } else {
            self.bid_values.clone()
        }''','''        self.side(direction).clone()'''),(TT,'''        if direction == OrderDirection::Ask {
            self.ask_values = values;
        } else {
            self.bid_values = values;
        }
    }''','''        *self.side_mut(direction) = values;
    }

    fn side(&self, direction: OrderDirection) -> &TickValues {
        match direction {
            OrderDirection::Ask => &self.ask_values,
            OrderDirection::Bid => &self.bid_values,
        }
    }

    fn side_mut(&mut self, direction: OrderDirection) -> &mut TickValues {
        match direction {
            OrderDirection::Ask => &mut self.ask_values,
            OrderDirection::Bid => &mut self.bid_values,
        }
    }''')])
m('ty-values-derive',TT,cut(TT,'impl Default for TickValues {','/// Represents the state of'),'') if False else None
m('ty-values-derive',[(TT,cut(TT,'impl Default for TickValues {','/// Represents the state of'),''),(TT,'''#[cw_serde]
pub struct TickValues''','''#[cw_serde]
#[derive(Default)]
pub struct TickValues''')])
m('ty-as-str',[(TD,'''        write!(f, "{}", String::from(*self))''','''        f.write_str(match self {
            OrderDirection::Ask => "ask",
            OrderDirection::Bid => "bid",
        })''')])
m('ty-to-string',[(TD,'''        match direction {
            OrderDirection::Ask => "ask".to_string(),
            OrderDirection::Bid => "bid".to_string(),
        }''','''        let name = if direction == OrderDirection::Ask { "ask" } else { "bid" };
        String::from(name)''')])
m('ty-coin-into',TC,'''            amount: Uint128::from_str(&coin.amount.to_string()).unwrap(),
            denom: coin.denom,''','''            amount: Uint128::try_from(coin.amount).unwrap(),
            denom: coin.denom,''')
m('ty-msg-direct',TC,'''        MsgSend {
            amount: msg
                .amount
                .iter()
                .map(|c| ProtoCoin::from(c.clone()))
                .collect(),
            to_address: msg.to_address,
            from_address: msg.from_address,
        }''','''        let MsgSend256 {
            amount,
            to_address,
            from_address,
        } = msg;
        MsgSend {
            from_address,
            to_address,
            amount: amount.into_iter().map(Into::into).collect(),
        }''')
m('ty-order-self',TD,'''        LimitOrder {
            tick_id,
            order_id,
            order_direction,
            owner,
            quantity,
            etas,
            claim_bounty,
            placed_quantity: quantity,
            placed_at: Timestamp::default(),
        }''','''        let placed_quantity = quantity;
        Self {
            placed_at: Default::default(),
            placed_quantity,
            tick_id,
            order_id,
            order_direction,
            owner,
            quantity,
            etas,
            claim_bounty,
        }''')
m('ty-opposite-if',TD,'''        match self {
            OrderDirection::Bid => OrderDirection::Ask,
            OrderDirection::Ask => OrderDirection::Bid,
        }''','''        if matches!(self, Self::Bid) {
            Self::Ask
        } else {
            Self::Bid
        }''')
M=[x for x in M if x]
