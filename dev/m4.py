N='sumtree/node.rs'; T='sumtree/tree.rs'; M_='tick_math.rs'
M = [
('t-below','T01',N,'self.get_max_range() <= node.get_min_range()','self.get_max_range() < node.get_min_range()'),
('t-above','T01',N,'self.get_min_range() >= node.get_max_range()','self.get_min_range() > node.get_max_range()'),
('t-inbelow','T01',N,'self.get_min_range() < node.get_max_range()','self.get_min_range() <= node.get_max_range()'),
('t-inabove','T01',N,'self.get_min_range() >= node.get_min_range()','self.get_min_range() > node.get_min_range()'),
('t-case6','T01',N,'            self.right = self.left;\n            self.left = Some(new_node.key);','            self.right = Some(new_node.key);'),
('t-case6p','T01',N,'            self.left = Some(new_node.key);\n            new_node.parent = Some(self.key);\n            new_node.save(storage)?;\n            self.save(storage)?;','            self.left = Some(new_node.key);\n            new_node.save(storage)?;\n            self.save(storage)?;'),
('t-splitweight','T03,T01',N,'new_parent.set_weight(2)?;','new_parent.set_weight(1)?;'),
('t-splitself','T01',N,'        new_parent.save(storage)?;\n        self.save(storage)?;\n        new_node.save','        new_parent.save(storage)?;\n        new_node.save'),
('t-splitparent','T01',N,'new_parent.parent = self.parent;','new_parent.parent = Some(self.key);'),
('t-norebal','T01',N,'            right.insert(storage, new_node)?;\n            self.rebalance(storage)?;','            right.insert(storage, new_node)?;'),
('t-rbf','T05',N,'if is_right_leaning && right_balance_factor >= 0','if is_right_leaning && right_balance_factor > 0'),
('t-lbf','T05',N,'is_left_leaning && left_balance_factor <= 0','is_left_leaning && left_balance_factor < 0'),
('t-abs','T05',N,'balance_factor.abs() <= 1','balance_factor.abs() <= 2'),
('t-root','T02',N,'if left.parent.is_none() {','if self.parent.is_none() {'),
('t-rootdir','T02',N,'&(right.tick_id, &self.direction.to_string())','&(right.tick_id, &right.direction.opposite().to_string())'),
('t-gparent','T02',N,'            new_left.parent = Some(self.key);','            new_left.parent = Some(left.key);'),
('t-nosync','T03',N,'        self.sync_range_and_value(storage)?;\n        left.sync_range_and_value(storage)?;','        left.sync_range_and_value(storage)?;\n        self.sync_range_and_value(storage)?;'),
('t-max','T03',N,'left.get_max_range().max(right.get_max_range()),\n            )\n        };\n        self.set_min','right.get_max_range().min(left.get_max_range()),\n            )\n        };\n        self.set_min'),
('t-max2','',N,'left.get_max_range().max(right.get_max_range()),\n            )\n        };\n        self.set_min','right.get_max_range(),\n            )\n        };\n        self.set_min'),
('t-weight','T03,T05',N,'self.set_weight(weight + 1)?','self.set_weight(weight + 1 - u64::from(weight > 60))?'),
('t-rightchild','T02',N,'            .map_or(false, |p| p.right == Some(self.key));\n\n        // Ensure the current node has a left child','            .map_or(false, |p| p.right == self.left);\n\n        // Ensure the current node has a left child'),
('t-id','T06',N,'counter += 1;','counter += if counter == 7 { 0 } else { 1 };'),
('t-idkey','T06',N,'NODE_ID_COUNTER.save(storage, &(tick_id), &counter)?','NODE_ID_COUNTER.save(storage, &(tick_id / 1), &counter)?'),
('t-initdir','T06',T,'TREE.save(storage, &(tick_id, &direction.to_string()), &new_root.key)?;','TREE.save(storage, &(tick_id, &direction.opposite().to_string()), &new_root.key)?;'),
('t-defrange','',N,'range: (Decimal256::MAX, Decimal256::MIN),','range: (Decimal256::zero(), Decimal256::MIN),'),
('m-round','M01',M_,'input.to_uint_ceil()','input.to_uint_floor()'),
('m-swap','M01',M_,'OrderDirection::Bid => divide_by_price(amount, price, rounding_direction)','OrderDirection::Bid => divide_by_price(amount, price, RoundingDirection::Down)'),
('m-neg','M02',M_,'    if tick_index < 0 {\n        exponent','    if tick_index < -8999999 {\n        exponent'),
('m-neg2','M02',M_,'    if num_additive_ticks < 0 {','    if tick_index < -100 && num_additive_ticks < 0 {'),
('m-range','M02',M_,'tick_index <= MAX_TICK','tick_index < MAX_TICK'),
('m-i8','M02,F02',M_,'pow_ten(geometric_exponent_delta as i32)','pow_ten(geometric_exponent_delta as i8 as i32)'),
('f-reply','F01','contract.rs','        msg.result.is_ok(),\n','        msg.result.is_ok() || msg.id == 3,\n'),
('f-wrap','F02','order.rs','sent += 0','sent += 0'),
('f-wrap2','F02','types/tick.rs','pub fn ','#[inline]\n    pub fn '),
]
M = [m for m in M if not m[0].startswith('f-wrap')]
