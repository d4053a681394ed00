exec(open('/verif/dev/m9.py').read())
M=[m for m in M if m[0] in ('s-last-price-opt','s-fill-cmp')]
O='order.rs'
M+=[('s-last-tick','',[(O,'''    let mut last_tick_price = Decimal256::one();
''','''    let mut last_tick = 0i64;
'''),(O,'''        last_tick_price = tick_price;
''','''        last_tick = current_tick_id;
'''),(O,'''        order.quantity,
        last_tick_price,
        RoundingDirection::Down,
    )?;

    // Since full''','''        order.quantity,
        tick_to_price(last_tick)?,
        RoundingDirection::Down,
    )?;

    // Since full''')]),
('s-last-tick-opt','',[(O,'''    let mut last_tick_price = Decimal256::one();
''','''    let mut last_tick: Option<i64> = None;
'''),(O,'''        last_tick_price = tick_price;
''','''        last_tick = Some(current_tick_id);
'''),(O,'''    let remaining_balance = amount_to_value(
        order.order_direction,
        order.quantity,
        last_tick_price,
''','''    let last_tick_price = match last_tick {
        Some(id) => tick_to_price(id)?,
        None => Decimal256::one(),
    };
    let remaining_balance = amount_to_value(
        order.order_direction,
        order.quantity,
        last_tick_price,
''')]),
('s-last-tick-bug','S05',[(O,'''    let mut last_tick_price = Decimal256::one();
''','''    let mut last_tick = 0i64;
'''),(O,'''        last_tick_price = tick_price;
''','''        last_tick = tick_bound;
'''),(O,'''        order.quantity,
        last_tick_price,
        RoundingDirection::Down,
    )?;

    // Since full''','''        order.quantity,
        tick_to_price(last_tick)?,
        RoundingDirection::Down,
    )?;

    // Since full''')]),
]
