O='order.rs';T='tick.rs';S='state.rs';Q='query.rs';TR='sumtree/tree.rs';N='sumtree/node.rs';A='auth.rs';SU='sudo.rs';C='contract.rs';TM='tick_math.rs';OB='orderbook.rs'
SRC=open('/repo/contracts/sumtree-orderbook/src/sumtree/tree.rs').read()
WALK=SRC[SRC.index('fn prefix_sum_walk('):]
DEL=open('/repo/contracts/sumtree-orderbook/src/sumtree/node.rs').read()
DEL=DEL[DEL.index('    pub fn delete(&self'):DEL.index('    /// Returns the balance factor')]
NEWWALK='''fn prefix_sum_walk(
    storage: &dyn Storage,
    root: &TreeNode,
    mut current_sum: Decimal256,
    mut target_etas: Decimal256,
    prev_sum: Decimal256,
) -> ContractResult<Decimal256> {
    let mut node = root.clone();
    loop {
        if target_etas < node.get_min_range() {
            return Ok(Decimal256::zero());
        }
        if target_etas >= node.get_max_range() || !node.is_internal() {
            return Ok(current_sum);
        }

        let left = node.get_left(storage)?;
        let right = node.get_right(storage)?;

        if let (Some(left), Some(right)) = (&left, &right) {
            let sum_at_node = current_sum.checked_sub(node.get_value())?;
            let diff_at_node = prev_sum.saturating_sub(sum_at_node);
            let unrealized_from_left = left.get_value().saturating_sub(diff_at_node);
            let new_etas = target_etas.checked_add(unrealized_from_left)?;
            if new_etas >= right.get_min_range() {
                target_etas = new_etas;
                node = right.clone();
                continue;
            }
        }

        let right_sum = right.as_ref().map_or(Decimal256::zero(), |r| r.get_value());
        match (left, right) {
            (Some(left), _) if target_etas < left.get_min_range() => {
                return Ok(Decimal256::zero());
            }
            (Some(left), _) if target_etas < left.get_max_range() => {
                current_sum = current_sum.checked_sub(right_sum)?;
                node = left;
            }
            (_, None) => return Ok(current_sum),
            (_, Some(right)) if target_etas < right.get_min_range() => {
                return Ok(current_sum.checked_sub(right_sum)?);
            }
            (_, Some(right)) if target_etas <= right.get_max_range() => node = right,
            _ => return Ok(current_sum),
        }
    }
}
'''
M=[
('w-loop','',TR,WALK,NEWWALK),
('w-loop-bug','T04',TR,WALK,NEWWALK.replace('target_etas = new_etas;\n','')),
('d-loop','',N,DEL,'''    pub fn delete(&self, storage: &mut dyn Storage) -> ContractResult<()> {
        let mut current = self.clone();
        while let Some(mut parent) = current.get_parent(storage)? {
            if parent.left == Some(current.key) {
                parent.left = None;
            } else if parent.right == Some(current.key) {
                parent.right = None;
            }
            NODES.remove(storage, &(current.tick_id, current.key));
            if parent.has_child() {
                return parent.sync_range_and_value_up(storage);
            }
            current = parent;
        }
        NODES.remove(storage, &(current.tick_id, current.key));
        Ok(())
    }

'''),
('u-rec-helper','',N,'''        self.sync_range_and_value(storage)?;
        if let Some(mut parent) = self.get_parent(storage)? {
            parent.sync_range_and_value_up(storage)?;
        }
        Ok(())
''','''        let mut next = Some(self.clone());
        while let Some(mut node) = next {
            node.sync_range_and_value(storage)?;
            next = node.get_parent(storage)?;
        }
        self.sync(storage)
'''),
('u-loop-ref','',N,'''        self.sync_range_and_value(storage)?;
        if let Some(mut parent) = self.get_parent(storage)? {
            parent.sync_range_and_value_up(storage)?;
        }
        Ok(())
''','''        self.sync_range_and_value(storage)?;
        let mut maybe_parent = self.get_parent(storage)?;
        while let Some(parent) = maybe_parent.as_mut() {
            parent.sync_range_and_value(storage)?;
            maybe_parent = parent.get_parent(storage)?;
        }
        Ok(())
'''),
('i-find-case','',N,'''        // Case 3: Both left and right are internal, node does not fit in either, insert left
        if is_right_internal && is_left_internal {
            self.save(storage)?;
            let mut left = maybe_left.unwrap();
            left.insert(storage, new_node)?;
            self.rebalance(storage)?;
            return Ok(());
        }
''','''        // Case 3: Both left and right are internal, node does not fit in either, insert left
        match maybe_left.as_ref() {
            Some(left) if is_right_internal && is_left_internal => {
                self.save(storage)?;
                left.clone().insert(storage, new_node)?;
                return self.rebalance(storage);
            }
            _ => (),
        }
'''),
('i-descend','',[(N,'''        if is_left_internal && is_in_left_range {
            self.save(storage)?;
            let mut left = maybe_left.unwrap();
            left.insert(storage, new_node)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Case 2: Node fits in right internal range, insert right
        if is_right_internal && is_in_right_range {
            self.save(storage)?;
            let mut right = maybe_right.unwrap();
            right.insert(storage, new_node)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Case 3: Both left and right are internal, node does not fit in either, insert left
        if is_right_internal && is_left_internal {
            self.save(storage)?;
            let mut left = maybe_left.unwrap();
            left.insert(storage, new_node)?;
            self.rebalance(storage)?;
            return Ok(());
        }
''','''        let descend_into = if is_left_internal && is_in_left_range {
            maybe_left.as_ref()
        } else if is_right_internal && is_in_right_range {
            maybe_right.as_ref()
        } else if is_right_internal && is_left_internal {
            maybe_left.as_ref()
        } else {
            None
        };
        if let Some(child) = descend_into.cloned() {
            let mut child = child;
            self.save(storage)?;
            child.insert(storage, new_node)?;
            return self.rebalance(storage);
        }
''')]),
('i-attach','',[(N,'''            self.right = self.left;
            self.left = Some(new_node.key);
            new_node.parent = Some(self.key);
            new_node.save(storage)?;
            self.save(storage)?;
            self.rebalance(storage)?;
            return Ok(());
        }
''','''            self.right = self.left.replace(new_node.key);
            return self.adopt(storage, new_node);
        }
'''),(N,'''            self.left = Some(new_node.key);
            new_node.parent = Some(self.key);
            new_node.save(storage)?;
            self.save(storage)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Case 8''','''            self.left = Some(new_node.key);
            return self.adopt(storage, new_node);
        }

        // Case 8'''),(N,'''            self.right = Some(new_node.key);
            new_node.parent = Some(self.key);
            new_node.save(storage)?;
            self.save(storage)?;
            self.rebalance(storage)?;
            return Ok(());
        }

        // Node did''','''            self.right = Some(new_node.key);
            return self.adopt(storage, new_node);
        }

        // Node did'''),(N,'''    /// Splits a given node by generating''','''    fn adopt(&mut self, storage: &mut dyn Storage, child: &mut TreeNode) -> ContractResult<()> {
        child.parent.replace(self.key);
        child.save(storage)?;
        self.save(storage)?;
        self.rebalance(storage)
    }

    /// Splits a given node by generating''')]),
('sp-sorted','',N,'''        let (new_left, new_right) = if self.below_range(new_node.clone()) {
            // Current node is below new node
            (self.key, new_node.key)
        } else if self.above_range(new_node.clone()) {
            // Current node is above new node
            (new_node.key, self.key)
        } else {
            // New node overlap the current node creating an invalid sumtree
            return Err(ContractError::NodeInsertionError);
        };
''','''        let mut children = [self.key, new_node.key];
        if !self.below_range(new_node.clone()) {
            ensure!(
                self.above_range(new_node.clone()),
                ContractError::NodeInsertionError
            );
            children.reverse();
        }
        let [new_left, new_right] = children;
'''),
('bal-wrap','',N,'''        Ok(right_weight as i32 - left_weight as i32)
''','''        let (right, left) = (right_weight as i32, left_weight as i32);
        Ok(if right >= left { right - left } else { -(left - right) })
'''),
('tr-root-match','',TR,'''    let tree = if let Ok(tree) = get_root_node(storage, tick_id, direction) {
        tree
    } else {
        let new_root = TreeNode::new(
            tick_id,
            direction,
            generate_node_id(storage, tick_id)?,
            NodeType::default(),
        );
        TREE.save(storage, &(tick_id, &direction.to_string()), &new_root.key)?;
        new_root
    };
    Ok(tree)
''','''    get_root_node(storage, tick_id, direction).or_else(|_| {
        let key = generate_node_id(storage, tick_id)?;
        TREE.save(storage, &(tick_id, &direction.to_string()), &key)?;
        Ok(TreeNode::new(tick_id, direction, key, NodeType::default()))
    })
'''),
('ti-sides','',T,'''    // Write updated tick values to state
    tick_state.set_values(OrderDirection::Bid, bid_values.clone());
    tick_state.set_values(OrderDirection::Ask, ask_values.clone());
''','''    for (side, values) in [
        (OrderDirection::Ask, ask_values),
        (OrderDirection::Bid, bid_values),
    ] {
        tick_state.set_values(side, values);
    }
'''),
]
