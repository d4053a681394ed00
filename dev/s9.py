PRE = 'use crate::msg::*;\nuse crate::types::*;\nuse cosmwasm_std::*;\nuse cosmwasm_std::testing::*;\n'
S = {
'claim-despite-failed-sync': dict(prop='F04', needs='a tick whose record counts more as cancelled than was ever placed, so that bringing it up to date is refused, and a claim on it',
  breaks='the claim goes through on a tick that could not be brought up to date',
  edits=[('order.rs', '''    sync_tick(
        storage,
        tick_id,
        bid_tick_values.effective_total_amount_swapped,
        ask_tick_values.effective_total_amount_swapped,
    )?;

    // Re-fetch''', '''    // A tick that cannot be brought further still holds its last good values
    match sync_tick(
        storage,
        tick_id,
        bid_tick_values.effective_total_amount_swapped,
        ask_tick_values.effective_total_amount_swapped,
    ) {
        Ok(()) | Err(ContractError::InvalidTickSync) => {}
        Err(e) => return Err(e),
    }

    // Re-fetch''')],
  demo='''
#[test]
fn claim_on_an_inconsistent_tick_is_refused() {
    for damaged in [false, true] {
        let mut c = Chain::new();
        c.place("alice", TWO, ASK, 100, None).unwrap();
        c.place("bob", TWO, ASK, 100, None).unwrap();
        c.cancel("bob", TWO, 1).unwrap();
        c.buy("carol", 200).unwrap();
        if damaged {
            let mut t = crate::state::TICK_STATE.load(&c.deps.storage, TWO).unwrap();
            let mut v = t.get_values(ASK);
            v.cumulative_total_value = Decimal256::from_ratio(150u128, 1u128);
            t.set_values(ASK, v);
            crate::state::TICK_STATE.save(&mut c.deps.storage, TWO, &t).unwrap();
        }
        let r = c.claim("alice", TWO, 0);
        assert_eq!(r.is_err(), damaged, "{r:?}");
    }
}
'''),
}
