M=[('p-loop', '', [('sumtree/tree.rs', '// prefix_sum_walk is a recursive function that walks the sumtree to calculate the prefix sum below the given\n// target ETAS. Once called on the root node of a tree, this function walks down the tree while tracking a\n// running prefix sum that starts from the maximum possible value (all nodes in the tree) and chips down as\n// appropriate.\n//\n// Since the longest path this function can walk is from the root to a leaf, it runs in O(log(N)) time. Given\n// how it is able to terminate early using our sumtree\'s range properties, in many cases it will likely run\n// in much less.\n\nfn prefix_sum_walk(\n    storage: &dyn Storage,\n    node: &TreeNode,\n    mut current_sum: Decimal256,\n    target_etas: Decimal256,\n    prev_sum: Decimal256,\n) -> ContractResult<Decimal256> {\n    // Sanity check: target ETAS should be inside node\'s range.\n    if target_etas < node.get_min_range() {\n        // If the target ETAS is below the root node\'s range, we can return zero early.\n        return Ok(Decimal256::zero());\n    } else if target_etas >= node.get_max_range() {\n        // If the target ETAS is above the root node\'s range, we can return the full sum early.\n        return Ok(current_sum);\n    }\n\n    // If node is a leaf, we just return its full ETAS value. This is because by this point we\n    // know the target ETAS is in the node\'s range, and if the target ETAS is in the range of a\n    // leaf, we count the full leaf towards the prefix sum.\n    //\n    // Recall that the prefix sum is the sum of all the values of all leaves that have a _starting_\n    // ETAS below the target ETAS.\n    if !node.is_internal() {\n        return Ok(current_sum);\n    }\n\n    // We fetch both children here since we need to access both regardless of\n    // whether we walk left or right.\n    let left_child = node.get_left(storage)?;\n    let right_child = node.get_right(storage)?;\n\n    // -- Resync Condition --\n\n    // To prevent requiring one or multiple resyncs, we add an optimization step that dynamically batches multiple\n    // syncs into one when applicable. This is achieved through an early check that is triggered in the case where\n    // all orders up to a certain point are either filled or canceled, as in this context we do not care about the order\n    // in which cancels are realized and can simply "batch realize" all of them.\n    //\n    // This case is characterized by when the amount filled on the current tick + the unrealized cancellations in the\n    // left child of a node pushes ETAS into the range of the right child node (i.e. where the next order in line, after\n    // the sync is complete, is guaranteed to be another cancel). In this case, we count the left child as fully realized\n    // and roll the newly realized portion into the target ETAS. This is functionally equivalent to batching multiple\n    // syncs into one.\n    if left_child.is_some() && right_child.is_some() {\n        let left_child = left_child.clone().unwrap();\n        let right_child = right_child.clone().unwrap();\n\n        // `sum_at_node` corresponds to everything to the left and in the current node.\n        // We don\'t know which component of the current node, if any, will be included, so we remove the whole thing.\n        //\n        // Sanity check: for the root node, this will be 0, since the "current node" is the root and includes the whole\n        // tree (so when it is removed, there is nothing left)\n        let sum_at_node = current_sum.checked_sub(node.get_value())?;\n\n        // Calculate the amount of cumulative realized cancellations *below the current node*  at the end of the\n        // previous sync. Recall that `prev_sum` is the cumulative *global* amount that was realized at the end of the previous sync.\n        //\n        // If `diff_at_node` is ever nonzero for a node, the amount corresponds exactly to the amount realized\n        // below the node at the end of the previous sync. In all other cases, it will snap to zero due to the saturating sub.\n        let diff_at_node = prev_sum.saturating_sub(sum_at_node);\n\n        // `unrealized_from_left` is the amount in the left child that remained unrealized at the end of the previous\n        // sync. If this value is ever nonzero, it means that the left child had some unrealized cancels in it, and the\n        // amount corresponds exactly to `unrealized_from_left`.\n        let unrealized_from_left = left_child.get_value().saturating_sub(diff_at_node);\n        // Calculate the new ETAS after realizing what is unrealized from the left node\n        //\n        // Instead of doing this manually (and expensively) by triggering a resync, we simply add `unrealized_from_left`\n        // to the running target ETAS value. This is functionally equivalent to simulating realizing the\n        // remainder of the left child. As a sanity check, if it was already realized, then `unrealized_from_left`\n        // would be zero and the target ETAS would remain unchanged.\n        let new_etas = target_etas.checked_add(unrealized_from_left)?;\n\n        // If the new ETAS is greater than or equal to the right child\'s min range, we can walk right\n        // as the left node MUST be realizable given the invariants of the sumtree mechanism\n        if new_etas >= right_child.get_min_range() {\n            return prefix_sum_walk(storage, &right_child, current_sum, new_etas, prev_sum);\n        }\n    }\n\n    // --- Attempt walk left ---\n\n    // If the left child exists, we run the following logic:\n    // * If target ETAS < left child\'s lower bound, exit early with zero\n    // * Else if target ETAS <= upper bound, subtract right child sum from prefix sum and walk left\n    //\n    // If neither of the above conditions are met, we continue to logic around walking right.\n    if let Some(left_child) = left_child {\n        if target_etas < left_child.get_min_range() {\n            // If the target ETAS is below the left child\'s range, nothing in the\n            // entire tree should be included in the prefix sum, so we return zero.\n            //\n            // TODO: This should not be possible now that the check above is added.\n            // Consider removing or erroring here.\n            return Ok(Decimal256::zero());\n        }\n\n        if target_etas < left_child.get_max_range() {\n            // Since the target ETAS is within the left child\'s range, we can safely conclude\n            // that everything below the right child should not be in our prefix sum.\n            let right_sum = right_child.map_or(Decimal256::zero(), |r| r.get_value());\n\n            current_sum = current_sum.checked_sub(right_sum)?;\n\n            // Walk left recursively\n            current_sum =\n                prefix_sum_walk(storage, &left_child, current_sum, target_etas, prev_sum)?;\n\n            return Ok(current_sum);\n        }\n    }\n\n    // --- Attempt walk right ---\n\n    // If right child either doesn\'t exist, the current prefix sum is simply the sum of the left child,\n    // which is fully below the target ETAS, so we return the prefix sum as is.\n    if right_child.is_none() {\n        return Ok(current_sum);\n    }\n\n    // In the case where right child exists and the target ETAS is above the left child, we run the following logic:\n    // * If target ETAS < right child\'s lower bound: subtract right child\'s sum from prefix sum and return\n    // * If target ETAS <= right child\'s upper bound: walk right\n    // * If target ETAS > right child\'s upper bound: return full sum\n    let right_child = right_child.unwrap();\n    if target_etas < right_child.get_min_range() {\n        // If the ETAS is below the right child\'s range, we know that anything below the right child\n        // should not be included in the prefix sum. We subtract the right child\'s sum from the prefix sum.\n        current_sum = current_sum.checked_sub(right_child.get_value())?;\n\n        Ok(current_sum)\n    } else if target_etas <= right_child.get_max_range() {\n        // If the target ETAS falls in the right child\'s range, we need to walk right.\n        // We do not need to update the prefix sum here because we do not know how much\n        // to subtract from it yet. The right walk handles this update.\n\n        // Walk right recursively\n        current_sum = prefix_sum_walk(storage, &right_child, current_sum, target_etas, prev_sum)?;\n\n        Ok(current_sum)\n    } else {\n        // If we reach here, everything in the tree is below the target ETAS, so we simply return the full sum.\n        Ok(current_sum)\n    }\n}\n', 'fn prefix_sum_walk(\n    storage: &dyn Storage,\n    node: &TreeNode,\n    mut current_sum: Decimal256,\n    target: Decimal256,\n    prev_sum: Decimal256,\n) -> ContractResult<Decimal256> {\n    let mut node = node.clone();\n    let mut target_etas = target;\n    loop {\n        if target_etas < node.get_min_range() {\n            return Ok(Decimal256::zero());\n        }\n        if target_etas >= node.get_max_range() || !node.is_internal() {\n            return Ok(current_sum);\n        }\n        match (node.get_left(storage)?, node.get_right(storage)?) {\n            (Some(left), Some(right)) => {\n                let before = current_sum.checked_sub(node.get_value())?;\n                let pending = left.get_value().saturating_sub(prev_sum.saturating_sub(before));\n                let advanced = target_etas.checked_add(pending)?;\n                if advanced >= right.get_min_range() {\n                    target_etas = advanced;\n                    node = right;\n                } else {\n                    current_sum = current_sum.checked_sub(right.get_value())?;\n                    node = left;\n                }\n            }\n            (Some(left), None) => node = left,\n            _ => return Ok(current_sum),\n        }\n    }\n}\n')]), ('p-loopbug', 'T04', [('sumtree/tree.rs', '// prefix_sum_walk is a recursive function that walks the sumtree to calculate the prefix sum below the given\n// target ETAS. Once called on the root node of a tree, this function walks down the tree while tracking a\n// running prefix sum that starts from the maximum possible value (all nodes in the tree) and chips down as\n// appropriate.\n//\n// Since the longest path this function can walk is from the root to a leaf, it runs in O(log(N)) time. Given\n// how it is able to terminate early using our sumtree\'s range properties, in many cases it will likely run\n// in much less.\n\nfn prefix_sum_walk(\n    storage: &dyn Storage,\n    node: &TreeNode,\n    mut current_sum: Decimal256,\n    target_etas: Decimal256,\n    prev_sum: Decimal256,\n) -> ContractResult<Decimal256> {\n    // Sanity check: target ETAS should be inside node\'s range.\n    if target_etas < node.get_min_range() {\n        // If the target ETAS is below the root node\'s range, we can return zero early.\n        return Ok(Decimal256::zero());\n    } else if target_etas >= node.get_max_range() {\n        // If the target ETAS is above the root node\'s range, we can return the full sum early.\n        return Ok(current_sum);\n    }\n\n    // If node is a leaf, we just return its full ETAS value. This is because by this point we\n    // know the target ETAS is in the node\'s range, and if the target ETAS is in the range of a\n    // leaf, we count the full leaf towards the prefix sum.\n    //\n    // Recall that the prefix sum is the sum of all the values of all leaves that have a _starting_\n    // ETAS below the target ETAS.\n    if !node.is_internal() {\n        return Ok(current_sum);\n    }\n\n    // We fetch both children here since we need to access both regardless of\n    // whether we walk left or right.\n    let left_child = node.get_left(storage)?;\n    let right_child = node.get_right(storage)?;\n\n    // -- Resync Condition --\n\n    // To prevent requiring one or multiple resyncs, we add an optimization step that dynamically batches multiple\n    // syncs into one when applicable. This is achieved through an early check that is triggered in the case where\n    // all orders up to a certain point are either filled or canceled, as in this context we do not care about the order\n    // in which cancels are realized and can simply "batch realize" all of them.\n    //\n    // This case is characterized by when the amount filled on the current tick + the unrealized cancellations in the\n    // left child of a node pushes ETAS into the range of the right child node (i.e. where the next order in line, after\n    // the sync is complete, is guaranteed to be another cancel). In this case, we count the left child as fully realized\n    // and roll the newly realized portion into the target ETAS. This is functionally equivalent to batching multiple\n    // syncs into one.\n    if left_child.is_some() && right_child.is_some() {\n        let left_child = left_child.clone().unwrap();\n        let right_child = right_child.clone().unwrap();\n\n        // `sum_at_node` corresponds to everything to the left and in the current node.\n        // We don\'t know which component of the current node, if any, will be included, so we remove the whole thing.\n        //\n        // Sanity check: for the root node, this will be 0, since the "current node" is the root and includes the whole\n        // tree (so when it is removed, there is nothing left)\n        let sum_at_node = current_sum.checked_sub(node.get_value())?;\n\n        // Calculate the amount of cumulative realized cancellations *below the current node*  at the end of the\n        // previous sync. Recall that `prev_sum` is the cumulative *global* amount that was realized at the end of the previous sync.\n        //\n        // If `diff_at_node` is ever nonzero for a node, the amount corresponds exactly to the amount realized\n        // below the node at the end of the previous sync. In all other cases, it will snap to zero due to the saturating sub.\n        let diff_at_node = prev_sum.saturating_sub(sum_at_node);\n\n        // `unrealized_from_left` is the amount in the left child that remained unrealized at the end of the previous\n        // sync. If this value is ever nonzero, it means that the left child had some unrealized cancels in it, and the\n        // amount corresponds exactly to `unrealized_from_left`.\n        let unrealized_from_left = left_child.get_value().saturating_sub(diff_at_node);\n        // Calculate the new ETAS after realizing what is unrealized from the left node\n        //\n        // Instead of doing this manually (and expensively) by triggering a resync, we simply add `unrealized_from_left`\n        // to the running target ETAS value. This is functionally equivalent to simulating realizing the\n        // remainder of the left child. As a sanity check, if it was already realized, then `unrealized_from_left`\n        // would be zero and the target ETAS would remain unchanged.\n        let new_etas = target_etas.checked_add(unrealized_from_left)?;\n\n        // If the new ETAS is greater than or equal to the right child\'s min range, we can walk right\n        // as the left node MUST be realizable given the invariants of the sumtree mechanism\n        if new_etas >= right_child.get_min_range() {\n            return prefix_sum_walk(storage, &right_child, current_sum, new_etas, prev_sum);\n        }\n    }\n\n    // --- Attempt walk left ---\n\n    // If the left child exists, we run the following logic:\n    // * If target ETAS < left child\'s lower bound, exit early with zero\n    // * Else if target ETAS <= upper bound, subtract right child sum from prefix sum and walk left\n    //\n    // If neither of the above conditions are met, we continue to logic around walking right.\n    if let Some(left_child) = left_child {\n        if target_etas < left_child.get_min_range() {\n            // If the target ETAS is below the left child\'s range, nothing in the\n            // entire tree should be included in the prefix sum, so we return zero.\n            //\n            // TODO: This should not be possible now that the check above is added.\n            // Consider removing or erroring here.\n            return Ok(Decimal256::zero());\n        }\n\n        if target_etas < left_child.get_max_range() {\n            // Since the target ETAS is within the left child\'s range, we can safely conclude\n            // that everything below the right child should not be in our prefix sum.\n            let right_sum = right_child.map_or(Decimal256::zero(), |r| r.get_value());\n\n            current_sum = current_sum.checked_sub(right_sum)?;\n\n            // Walk left recursively\n            current_sum =\n                prefix_sum_walk(storage, &left_child, current_sum, target_etas, prev_sum)?;\n\n            return Ok(current_sum);\n        }\n    }\n\n    // --- Attempt walk right ---\n\n    // If right child either doesn\'t exist, the current prefix sum is simply the sum of the left child,\n    // which is fully below the target ETAS, so we return the prefix sum as is.\n    if right_child.is_none() {\n        return Ok(current_sum);\n    }\n\n    // In the case where right child exists and the target ETAS is above the left child, we run the following logic:\n    // * If target ETAS < right child\'s lower bound: subtract right child\'s sum from prefix sum and return\n    // * If target ETAS <= right child\'s upper bound: walk right\n    // * If target ETAS > right child\'s upper bound: return full sum\n    let right_child = right_child.unwrap();\n    if target_etas < right_child.get_min_range() {\n        // If the ETAS is below the right child\'s range, we know that anything below the right child\n        // should not be included in the prefix sum. We subtract the right child\'s sum from the prefix sum.\n        current_sum = current_sum.checked_sub(right_child.get_value())?;\n\n        Ok(current_sum)\n    } else if target_etas <= right_child.get_max_range() {\n        // If the target ETAS falls in the right child\'s range, we need to walk right.\n        // We do not need to update the prefix sum here because we do not know how much\n        // to subtract from it yet. The right walk handles this update.\n\n        // Walk right recursively\n        current_sum = prefix_sum_walk(storage, &right_child, current_sum, target_etas, prev_sum)?;\n\n        Ok(current_sum)\n    } else {\n        // If we reach here, everything in the tree is below the target ETAS, so we simply return the full sum.\n        Ok(current_sum)\n    }\n}\n', 'fn prefix_sum_walk(\n    storage: &dyn Storage,\n    node: &TreeNode,\n    mut current_sum: Decimal256,\n    target: Decimal256,\n    prev_sum: Decimal256,\n) -> ContractResult<Decimal256> {\n    let mut node = node.clone();\n    let mut target_etas = target;\n    loop {\n        if target_etas < node.get_min_range() {\n            return Ok(Decimal256::zero());\n        }\n        if target_etas >= node.get_max_range() || !node.is_internal() {\n            return Ok(current_sum);\n        }\n        match (node.get_left(storage)?, node.get_right(storage)?) {\n            (Some(left), Some(right)) => {\n                let before = current_sum.checked_sub(node.get_value())?;\n                let pending = left.get_value().saturating_sub(prev_sum.saturating_sub(before));\n                let advanced = target_etas.checked_add(pending)?;\n                if advanced > right.get_min_range() {\n                    target_etas = advanced;\n                    node = right;\n                } else {\n                    current_sum = current_sum.checked_sub(right.get_value())?;\n                    node = left;\n                }\n            }\n            (Some(left), None) => node = left,\n            _ => return Ok(current_sum),\n        }\n    }\n}\n')]), ('p-loopbug2', 'T04', [('sumtree/tree.rs', '// prefix_sum_walk is a recursive function that walks the sumtree to calculate the prefix sum below the given\n// target ETAS. Once called on the root node of a tree, this function walks down the tree while tracking a\n// running prefix sum that starts from the maximum possible value (all nodes in the tree) and chips down as\n// appropriate.\n//\n// Since the longest path this function can walk is from the root to a leaf, it runs in O(log(N)) time. Given\n// how it is able to terminate early using our sumtree\'s range properties, in many cases it will likely run\n// in much less.\n\nfn prefix_sum_walk(\n    storage: &dyn Storage,\n    node: &TreeNode,\n    mut current_sum: Decimal256,\n    target_etas: Decimal256,\n    prev_sum: Decimal256,\n) -> ContractResult<Decimal256> {\n    // Sanity check: target ETAS should be inside node\'s range.\n    if target_etas < node.get_min_range() {\n        // If the target ETAS is below the root node\'s range, we can return zero early.\n        return Ok(Decimal256::zero());\n    } else if target_etas >= node.get_max_range() {\n        // If the target ETAS is above the root node\'s range, we can return the full sum early.\n        return Ok(current_sum);\n    }\n\n    // If node is a leaf, we just return its full ETAS value. This is because by this point we\n    // know the target ETAS is in the node\'s range, and if the target ETAS is in the range of a\n    // leaf, we count the full leaf towards the prefix sum.\n    //\n    // Recall that the prefix sum is the sum of all the values of all leaves that have a _starting_\n    // ETAS below the target ETAS.\n    if !node.is_internal() {\n        return Ok(current_sum);\n    }\n\n    // We fetch both children here since we need to access both regardless of\n    // whether we walk left or right.\n    let left_child = node.get_left(storage)?;\n    let right_child = node.get_right(storage)?;\n\n    // -- Resync Condition --\n\n    // To prevent requiring one or multiple resyncs, we add an optimization step that dynamically batches multiple\n    // syncs into one when applicable. This is achieved through an early check that is triggered in the case where\n    // all orders up to a certain point are either filled or canceled, as in this context we do not care about the order\n    // in which cancels are realized and can simply "batch realize" all of them.\n    //\n    // This case is characterized by when the amount filled on the current tick + the unrealized cancellations in the\n    // left child of a node pushes ETAS into the range of the right child node (i.e. where the next order in line, after\n    // the sync is complete, is guaranteed to be another cancel). In this case, we count the left child as fully realized\n    // and roll the newly realized portion into the target ETAS. This is functionally equivalent to batching multiple\n    // syncs into one.\n    if left_child.is_some() && right_child.is_some() {\n        let left_child = left_child.clone().unwrap();\n        let right_child = right_child.clone().unwrap();\n\n        // `sum_at_node` corresponds to everything to the left and in the current node.\n        // We don\'t know which component of the current node, if any, will be included, so we remove the whole thing.\n        //\n        // Sanity check: for the root node, this will be 0, since the "current node" is the root and includes the whole\n        // tree (so when it is removed, there is nothing left)\n        let sum_at_node = current_sum.checked_sub(node.get_value())?;\n\n        // Calculate the amount of cumulative realized cancellations *below the current node*  at the end of the\n        // previous sync. Recall that `prev_sum` is the cumulative *global* amount that was realized at the end of the previous sync.\n        //\n        // If `diff_at_node` is ever nonzero for a node, the amount corresponds exactly to the amount realized\n        // below the node at the end of the previous sync. In all other cases, it will snap to zero due to the saturating sub.\n        let diff_at_node = prev_sum.saturating_sub(sum_at_node);\n\n        // `unrealized_from_left` is the amount in the left child that remained unrealized at the end of the previous\n        // sync. If this value is ever nonzero, it means that the left child had some unrealized cancels in it, and the\n        // amount corresponds exactly to `unrealized_from_left`.\n        let unrealized_from_left = left_child.get_value().saturating_sub(diff_at_node);\n        // Calculate the new ETAS after realizing what is unrealized from the left node\n        //\n        // Instead of doing this manually (and expensively) by triggering a resync, we simply add `unrealized_from_left`\n        // to the running target ETAS value. This is functionally equivalent to simulating realizing the\n        // remainder of the left child. As a sanity check, if it was already realized, then `unrealized_from_left`\n        // would be zero and the target ETAS would remain unchanged.\n        let new_etas = target_etas.checked_add(unrealized_from_left)?;\n\n        // If the new ETAS is greater than or equal to the right child\'s min range, we can walk right\n        // as the left node MUST be realizable given the invariants of the sumtree mechanism\n        if new_etas >= right_child.get_min_range() {\n            return prefix_sum_walk(storage, &right_child, current_sum, new_etas, prev_sum);\n        }\n    }\n\n    // --- Attempt walk left ---\n\n    // If the left child exists, we run the following logic:\n    // * If target ETAS < left child\'s lower bound, exit early with zero\n    // * Else if target ETAS <= upper bound, subtract right child sum from prefix sum and walk left\n    //\n    // If neither of the above conditions are met, we continue to logic around walking right.\n    if let Some(left_child) = left_child {\n        if target_etas < left_child.get_min_range() {\n            // If the target ETAS is below the left child\'s range, nothing in the\n            // entire tree should be included in the prefix sum, so we return zero.\n            //\n            // TODO: This should not be possible now that the check above is added.\n            // Consider removing or erroring here.\n            return Ok(Decimal256::zero());\n        }\n\n        if target_etas < left_child.get_max_range() {\n            // Since the target ETAS is within the left child\'s range, we can safely conclude\n            // that everything below the right child should not be in our prefix sum.\n            let right_sum = right_child.map_or(Decimal256::zero(), |r| r.get_value());\n\n            current_sum = current_sum.checked_sub(right_sum)?;\n\n            // Walk left recursively\n            current_sum =\n                prefix_sum_walk(storage, &left_child, current_sum, target_etas, prev_sum)?;\n\n            return Ok(current_sum);\n        }\n    }\n\n    // --- Attempt walk right ---\n\n    // If right child either doesn\'t exist, the current prefix sum is simply the sum of the left child,\n    // which is fully below the target ETAS, so we return the prefix sum as is.\n    if right_child.is_none() {\n        return Ok(current_sum);\n    }\n\n    // In the case where right child exists and the target ETAS is above the left child, we run the following logic:\n    // * If target ETAS < right child\'s lower bound: subtract right child\'s sum from prefix sum and return\n    // * If target ETAS <= right child\'s upper bound: walk right\n    // * If target ETAS > right child\'s upper bound: return full sum\n    let right_child = right_child.unwrap();\n    if target_etas < right_child.get_min_range() {\n        // If the ETAS is below the right child\'s range, we know that anything below the right child\n        // should not be included in the prefix sum. We subtract the right child\'s sum from the prefix sum.\n        current_sum = current_sum.checked_sub(right_child.get_value())?;\n\n        Ok(current_sum)\n    } else if target_etas <= right_child.get_max_range() {\n        // If the target ETAS falls in the right child\'s range, we need to walk right.\n        // We do not need to update the prefix sum here because we do not know how much\n        // to subtract from it yet. The right walk handles this update.\n\n        // Walk right recursively\n        current_sum = prefix_sum_walk(storage, &right_child, current_sum, target_etas, prev_sum)?;\n\n        Ok(current_sum)\n    } else {\n        // If we reach here, everything in the tree is below the target ETAS, so we simply return the full sum.\n        Ok(current_sum)\n    }\n}\n', 'fn prefix_sum_walk(\n    storage: &dyn Storage,\n    node: &TreeNode,\n    mut current_sum: Decimal256,\n    target: Decimal256,\n    prev_sum: Decimal256,\n) -> ContractResult<Decimal256> {\n    let mut node = node.clone();\n    let mut target_etas = target;\n    loop {\n        if target_etas < node.get_min_range() {\n            return Ok(Decimal256::zero());\n        }\n        if target_etas >= node.get_max_range() || !node.is_internal() {\n            return Ok(current_sum);\n        }\n        match (node.get_left(storage)?, node.get_right(storage)?) {\n            (Some(left), Some(right)) => {\n                let before = current_sum.checked_sub(node.get_value())?;\n                let pending = left.get_value().saturating_sub(prev_sum.saturating_sub(before));\n                let advanced = target_etas.checked_add(pending)?;\n                if advanced >= right.get_min_range() {\n                    \n                    node = right;\n                } else {\n                    current_sum = current_sum.checked_sub(right.get_value())?;\n                    node = left;\n                }\n            }\n            (Some(left), None) => node = left,\n            _ => return Ok(current_sum),\n        }\n    }\n}\n')]), ('p-rec', '', [('sumtree/tree.rs', '// prefix_sum_walk is a recursive function that walks the sumtree to calculate the prefix sum below the given\n// target ETAS. Once called on the root node of a tree, this function walks down the tree while tracking a\n// running prefix sum that starts from the maximum possible value (all nodes in the tree) and chips down as\n// appropriate.\n//\n// Since the longest path this function can walk is from the root to a leaf, it runs in O(log(N)) time. Given\n// how it is able to terminate early using our sumtree\'s range properties, in many cases it will likely run\n// in much less.\n\nfn prefix_sum_walk(\n    storage: &dyn Storage,\n    node: &TreeNode,\n    mut current_sum: Decimal256,\n    target_etas: Decimal256,\n    prev_sum: Decimal256,\n) -> ContractResult<Decimal256> {\n    // Sanity check: target ETAS should be inside node\'s range.\n    if target_etas < node.get_min_range() {\n        // If the target ETAS is below the root node\'s range, we can return zero early.\n        return Ok(Decimal256::zero());\n    } else if target_etas >= node.get_max_range() {\n        // If the target ETAS is above the root node\'s range, we can return the full sum early.\n        return Ok(current_sum);\n    }\n\n    // If node is a leaf, we just return its full ETAS value. This is because by this point we\n    // know the target ETAS is in the node\'s range, and if the target ETAS is in the range of a\n    // leaf, we count the full leaf towards the prefix sum.\n    //\n    // Recall that the prefix sum is the sum of all the values of all leaves that have a _starting_\n    // ETAS below the target ETAS.\n    if !node.is_internal() {\n        return Ok(current_sum);\n    }\n\n    // We fetch both children here since we need to access both regardless of\n    // whether we walk left or right.\n    let left_child = node.get_left(storage)?;\n    let right_child = node.get_right(storage)?;\n\n    // -- Resync Condition --\n\n    // To prevent requiring one or multiple resyncs, we add an optimization step that dynamically batches multiple\n    // syncs into one when applicable. This is achieved through an early check that is triggered in the case where\n    // all orders up to a certain point are either filled or canceled, as in this context we do not care about the order\n    // in which cancels are realized and can simply "batch realize" all of them.\n    //\n    // This case is characterized by when the amount filled on the current tick + the unrealized cancellations in the\n    // left child of a node pushes ETAS into the range of the right child node (i.e. where the next order in line, after\n    // the sync is complete, is guaranteed to be another cancel). In this case, we count the left child as fully realized\n    // and roll the newly realized portion into the target ETAS. This is functionally equivalent to batching multiple\n    // syncs into one.\n    if left_child.is_some() && right_child.is_some() {\n        let left_child = left_child.clone().unwrap();\n        let right_child = right_child.clone().unwrap();\n\n        // `sum_at_node` corresponds to everything to the left and in the current node.\n        // We don\'t know which component of the current node, if any, will be included, so we remove the whole thing.\n        //\n        // Sanity check: for the root node, this will be 0, since the "current node" is the root and includes the whole\n        // tree (so when it is removed, there is nothing left)\n        let sum_at_node = current_sum.checked_sub(node.get_value())?;\n\n        // Calculate the amount of cumulative realized cancellations *below the current node*  at the end of the\n        // previous sync. Recall that `prev_sum` is the cumulative *global* amount that was realized at the end of the previous sync.\n        //\n        // If `diff_at_node` is ever nonzero for a node, the amount corresponds exactly to the amount realized\n        // below the node at the end of the previous sync. In all other cases, it will snap to zero due to the saturating sub.\n        let diff_at_node = prev_sum.saturating_sub(sum_at_node);\n\n        // `unrealized_from_left` is the amount in the left child that remained unrealized at the end of the previous\n        // sync. If this value is ever nonzero, it means that the left child had some unrealized cancels in it, and the\n        // amount corresponds exactly to `unrealized_from_left`.\n        let unrealized_from_left = left_child.get_value().saturating_sub(diff_at_node);\n        // Calculate the new ETAS after realizing what is unrealized from the left node\n        //\n        // Instead of doing this manually (and expensively) by triggering a resync, we simply add `unrealized_from_left`\n        // to the running target ETAS value. This is functionally equivalent to simulating realizing the\n        // remainder of the left child. As a sanity check, if it was already realized, then `unrealized_from_left`\n        // would be zero and the target ETAS would remain unchanged.\n        let new_etas = target_etas.checked_add(unrealized_from_left)?;\n\n        // If the new ETAS is greater than or equal to the right child\'s min range, we can walk right\n        // as the left node MUST be realizable given the invariants of the sumtree mechanism\n        if new_etas >= right_child.get_min_range() {\n            return prefix_sum_walk(storage, &right_child, current_sum, new_etas, prev_sum);\n        }\n    }\n\n    // --- Attempt walk left ---\n\n    // If the left child exists, we run the following logic:\n    // * If target ETAS < left child\'s lower bound, exit early with zero\n    // * Else if target ETAS <= upper bound, subtract right child sum from prefix sum and walk left\n    //\n    // If neither of the above conditions are met, we continue to logic around walking right.\n    if let Some(left_child) = left_child {\n        if target_etas < left_child.get_min_range() {\n            // If the target ETAS is below the left child\'s range, nothing in the\n            // entire tree should be included in the prefix sum, so we return zero.\n            //\n            // TODO: This should not be possible now that the check above is added.\n            // Consider removing or erroring here.\n            return Ok(Decimal256::zero());\n        }\n\n        if target_etas < left_child.get_max_range() {\n            // Since the target ETAS is within the left child\'s range, we can safely conclude\n            // that everything below the right child should not be in our prefix sum.\n            let right_sum = right_child.map_or(Decimal256::zero(), |r| r.get_value());\n\n            current_sum = current_sum.checked_sub(right_sum)?;\n\n            // Walk left recursively\n            current_sum =\n                prefix_sum_walk(storage, &left_child, current_sum, target_etas, prev_sum)?;\n\n            return Ok(current_sum);\n        }\n    }\n\n    // --- Attempt walk right ---\n\n    // If right child either doesn\'t exist, the current prefix sum is simply the sum of the left child,\n    // which is fully below the target ETAS, so we return the prefix sum as is.\n    if right_child.is_none() {\n        return Ok(current_sum);\n    }\n\n    // In the case where right child exists and the target ETAS is above the left child, we run the following logic:\n    // * If target ETAS < right child\'s lower bound: subtract right child\'s sum from prefix sum and return\n    // * If target ETAS <= right child\'s upper bound: walk right\n    // * If target ETAS > right child\'s upper bound: return full sum\n    let right_child = right_child.unwrap();\n    if target_etas < right_child.get_min_range() {\n        // If the ETAS is below the right child\'s range, we know that anything below the right child\n        // should not be included in the prefix sum. We subtract the right child\'s sum from the prefix sum.\n        current_sum = current_sum.checked_sub(right_child.get_value())?;\n\n        Ok(current_sum)\n    } else if target_etas <= right_child.get_max_range() {\n        // If the target ETAS falls in the right child\'s range, we need to walk right.\n        // We do not need to update the prefix sum here because we do not know how much\n        // to subtract from it yet. The right walk handles this update.\n\n        // Walk right recursively\n        current_sum = prefix_sum_walk(storage, &right_child, current_sum, target_etas, prev_sum)?;\n\n        Ok(current_sum)\n    } else {\n        // If we reach here, everything in the tree is below the target ETAS, so we simply return the full sum.\n        Ok(current_sum)\n    }\n}\n', 'fn below(\n    storage: &dyn Storage,\n    target: Decimal256,\n    node: &TreeNode,\n    prev_sum: Decimal256,\n    sum: Decimal256,\n) -> ContractResult<Decimal256> {\n    let min = node.get_min_range();\n    if target < min {\n        return Ok(Decimal256::zero());\n    }\n    if !node.is_internal() || node.get_max_range() <= target {\n        return Ok(sum);\n    }\n    let left = match node.get_left(storage)? { Some(l) => l, None => return Ok(sum) };\n    let right = match node.get_right(storage)? { Some(r) => r, None => return below(storage, target, &left, prev_sum, sum) };\n    let before = sum.checked_sub(node.get_value())?;\n    let realized = if prev_sum > before { prev_sum.checked_sub(before)? } else { Decimal256::zero() };\n    let pending = if left.get_value() > realized { left.get_value().checked_sub(realized)? } else { Decimal256::zero() };\n    let moved = target.checked_add(pending)?;\n    if right.get_min_range() <= moved {\n        below(storage, moved, &right, prev_sum, sum)\n    } else {\n        below(storage, target, &left, prev_sum, sum.checked_sub(right.get_value())?)\n    }\n}\n'), ('sumtree/tree.rs', 'prefix_sum_walk(storage, &root_node, starting_sum, target_etas, prev_sum)', 'below(storage, target_etas, &root_node, prev_sum, starting_sum)')]), ('p-rec-bug', 'T04', [('sumtree/tree.rs', '// prefix_sum_walk is a recursive function that walks the sumtree to calculate the prefix sum below the given\n// target ETAS. Once called on the root node of a tree, this function walks down the tree while tracking a\n// running prefix sum that starts from the maximum possible value (all nodes in the tree) and chips down as\n// appropriate.\n//\n// Since the longest path this function can walk is from the root to a leaf, it runs in O(log(N)) time. Given\n// how it is able to terminate early using our sumtree\'s range properties, in many cases it will likely run\n// in much less.\n\nfn prefix_sum_walk(\n    storage: &dyn Storage,\n    node: &TreeNode,\n    mut current_sum: Decimal256,\n    target_etas: Decimal256,\n    prev_sum: Decimal256,\n) -> ContractResult<Decimal256> {\n    // Sanity check: target ETAS should be inside node\'s range.\n    if target_etas < node.get_min_range() {\n        // If the target ETAS is below the root node\'s range, we can return zero early.\n        return Ok(Decimal256::zero());\n    } else if target_etas >= node.get_max_range() {\n        // If the target ETAS is above the root node\'s range, we can return the full sum early.\n        return Ok(current_sum);\n    }\n\n    // If node is a leaf, we just return its full ETAS value. This is because by this point we\n    // know the target ETAS is in the node\'s range, and if the target ETAS is in the range of a\n    // leaf, we count the full leaf towards the prefix sum.\n    //\n    // Recall that the prefix sum is the sum of all the values of all leaves that have a _starting_\n    // ETAS below the target ETAS.\n    if !node.is_internal() {\n        return Ok(current_sum);\n    }\n\n    // We fetch both children here since we need to access both regardless of\n    // whether we walk left or right.\n    let left_child = node.get_left(storage)?;\n    let right_child = node.get_right(storage)?;\n\n    // -- Resync Condition --\n\n    // To prevent requiring one or multiple resyncs, we add an optimization step that dynamically batches multiple\n    // syncs into one when applicable. This is achieved through an early check that is triggered in the case where\n    // all orders up to a certain point are either filled or canceled, as in this context we do not care about the order\n    // in which cancels are realized and can simply "batch realize" all of them.\n    //\n    // This case is characterized by when the amount filled on the current tick + the unrealized cancellations in the\n    // left child of a node pushes ETAS into the range of the right child node (i.e. where the next order in line, after\n    // the sync is complete, is guaranteed to be another cancel). In this case, we count the left child as fully realized\n    // and roll the newly realized portion into the target ETAS. This is functionally equivalent to batching multiple\n    // syncs into one.\n    if left_child.is_some() && right_child.is_some() {\n        let left_child = left_child.clone().unwrap();\n        let right_child = right_child.clone().unwrap();\n\n        // `sum_at_node` corresponds to everything to the left and in the current node.\n        // We don\'t know which component of the current node, if any, will be included, so we remove the whole thing.\n        //\n        // Sanity check: for the root node, this will be 0, since the "current node" is the root and includes the whole\n        // tree (so when it is removed, there is nothing left)\n        let sum_at_node = current_sum.checked_sub(node.get_value())?;\n\n        // Calculate the amount of cumulative realized cancellations *below the current node*  at the end of the\n        // previous sync. Recall that `prev_sum` is the cumulative *global* amount that was realized at the end of the previous sync.\n        //\n        // If `diff_at_node` is ever nonzero for a node, the amount corresponds exactly to the amount realized\n        // below the node at the end of the previous sync. In all other cases, it will snap to zero due to the saturating sub.\n        let diff_at_node = prev_sum.saturating_sub(sum_at_node);\n\n        // `unrealized_from_left` is the amount in the left child that remained unrealized at the end of the previous\n        // sync. If this value is ever nonzero, it means that the left child had some unrealized cancels in it, and the\n        // amount corresponds exactly to `unrealized_from_left`.\n        let unrealized_from_left = left_child.get_value().saturating_sub(diff_at_node);\n        // Calculate the new ETAS after realizing what is unrealized from the left node\n        //\n        // Instead of doing this manually (and expensively) by triggering a resync, we simply add `unrealized_from_left`\n        // to the running target ETAS value. This is functionally equivalent to simulating realizing the\n        // remainder of the left child. As a sanity check, if it was already realized, then `unrealized_from_left`\n        // would be zero and the target ETAS would remain unchanged.\n        let new_etas = target_etas.checked_add(unrealized_from_left)?;\n\n        // If the new ETAS is greater than or equal to the right child\'s min range, we can walk right\n        // as the left node MUST be realizable given the invariants of the sumtree mechanism\n        if new_etas >= right_child.get_min_range() {\n            return prefix_sum_walk(storage, &right_child, current_sum, new_etas, prev_sum);\n        }\n    }\n\n    // --- Attempt walk left ---\n\n    // If the left child exists, we run the following logic:\n    // * If target ETAS < left child\'s lower bound, exit early with zero\n    // * Else if target ETAS <= upper bound, subtract right child sum from prefix sum and walk left\n    //\n    // If neither of the above conditions are met, we continue to logic around walking right.\n    if let Some(left_child) = left_child {\n        if target_etas < left_child.get_min_range() {\n            // If the target ETAS is below the left child\'s range, nothing in the\n            // entire tree should be included in the prefix sum, so we return zero.\n            //\n            // TODO: This should not be possible now that the check above is added.\n            // Consider removing or erroring here.\n            return Ok(Decimal256::zero());\n        }\n\n        if target_etas < left_child.get_max_range() {\n            // Since the target ETAS is within the left child\'s range, we can safely conclude\n            // that everything below the right child should not be in our prefix sum.\n            let right_sum = right_child.map_or(Decimal256::zero(), |r| r.get_value());\n\n            current_sum = current_sum.checked_sub(right_sum)?;\n\n            // Walk left recursively\n            current_sum =\n                prefix_sum_walk(storage, &left_child, current_sum, target_etas, prev_sum)?;\n\n            return Ok(current_sum);\n        }\n    }\n\n    // --- Attempt walk right ---\n\n    // If right child either doesn\'t exist, the current prefix sum is simply the sum of the left child,\n    // which is fully below the target ETAS, so we return the prefix sum as is.\n    if right_child.is_none() {\n        return Ok(current_sum);\n    }\n\n    // In the case where right child exists and the target ETAS is above the left child, we run the following logic:\n    // * If target ETAS < right child\'s lower bound: subtract right child\'s sum from prefix sum and return\n    // * If target ETAS <= right child\'s upper bound: walk right\n    // * If target ETAS > right child\'s upper bound: return full sum\n    let right_child = right_child.unwrap();\n    if target_etas < right_child.get_min_range() {\n        // If the ETAS is below the right child\'s range, we know that anything below the right child\n        // should not be included in the prefix sum. We subtract the right child\'s sum from the prefix sum.\n        current_sum = current_sum.checked_sub(right_child.get_value())?;\n\n        Ok(current_sum)\n    } else if target_etas <= right_child.get_max_range() {\n        // If the target ETAS falls in the right child\'s range, we need to walk right.\n        // We do not need to update the prefix sum here because we do not know how much\n        // to subtract from it yet. The right walk handles this update.\n\n        // Walk right recursively\n        current_sum = prefix_sum_walk(storage, &right_child, current_sum, target_etas, prev_sum)?;\n\n        Ok(current_sum)\n    } else {\n        // If we reach here, everything in the tree is below the target ETAS, so we simply return the full sum.\n        Ok(current_sum)\n    }\n}\n', 'fn below(\n    storage: &dyn Storage,\n    target: Decimal256,\n    node: &TreeNode,\n    prev_sum: Decimal256,\n    sum: Decimal256,\n) -> ContractResult<Decimal256> {\n    let min = node.get_min_range();\n    if target < min {\n        return Ok(Decimal256::zero());\n    }\n    if !node.is_internal() || node.get_max_range() <= target {\n        return Ok(sum);\n    }\n    let left = match node.get_left(storage)? { Some(l) => l, None => return Ok(sum) };\n    let right = match node.get_right(storage)? { Some(r) => r, None => return below(storage, target, &left, prev_sum, sum) };\n    let before = sum.checked_sub(node.get_value())?;\n    let realized = if prev_sum >= sum { prev_sum.checked_sub(before)? } else { Decimal256::zero() };\n    let pending = if left.get_value() > realized { left.get_value().checked_sub(realized)? } else { Decimal256::zero() };\n    let moved = target.checked_add(pending)?;\n    if right.get_min_range() <= moved {\n        below(storage, moved, &right, prev_sum, sum)\n    } else {\n        below(storage, target, &left, prev_sum, sum.checked_sub(right.get_value())?)\n    }\n}\n'), ('sumtree/tree.rs', 'prefix_sum_walk(storage, &root_node, starting_sum, target_etas, prev_sum)', 'below(storage, target_etas, &root_node, prev_sum, starting_sum)')]), ('p-ge', 'T04', 'sumtree/tree.rs', 'if new_etas >= right_child.get_min_range() {', 'if new_etas > right_child.get_min_range() {'), ('p-noadv', 'T04', 'sumtree/tree.rs', '&right_child, current_sum, new_etas, prev_sum)', '&right_child, current_sum, target_etas, prev_sum)'), ('p-diff', 'T04', 'sumtree/tree.rs', 'prev_sum.saturating_sub(sum_at_node)', 'prev_sum.saturating_sub(Decimal256::zero().max(current_sum.min(sum_at_node)).min(Decimal256::zero()))'), ('p-unreal', 'T04', 'sumtree/tree.rs', 'left_child.get_value().saturating_sub(diff_at_node)', 'left_child.get_value()'), ('p-rightsum', 'T04', 'sumtree/tree.rs', 'current_sum = current_sum.checked_sub(right_sum)?;', 'if target_etas > left_child.get_min_range() { current_sum = current_sum.checked_sub(right_sum)?; }'), ('p-max', '', 'sumtree/tree.rs', '} else if target_etas >= node.get_max_range() {', '} else if target_etas > node.get_max_range() {'), ('p-leftmax', '', 'sumtree/tree.rs', 'if target_etas < left_child.get_max_range() {', 'if target_etas <= left_child.get_max_range() {'), ('p-last', 'T04', 'sumtree/tree.rs', '        current_sum = current_sum.checked_sub(right_child.get_value())?;\n\n        Ok(current_sum)', '        Ok(current_sum)'), ('p-start', 'T04', 'sumtree/tree.rs', 'TreeNode::get_value(&root_node);', 'TreeNode::get_value(&root_node).saturating_sub(prev_sum);'), ('p-zero', 'T04', 'sumtree/tree.rs', '        return Ok(Decimal256::zero());\n    } else if', '        return Ok(prev_sum.min(Decimal256::one()));\n    } else if')]