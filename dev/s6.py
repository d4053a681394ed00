PRE = 'use crate::msg::*;\nuse crate::types::*;\nuse cosmwasm_std::*;\n'
S = {
'sold-out-side-not-synced': dict(prop='A03', needs='a side of a tick that was sold out after a cancel, with an earlier cancel already realised',
  breaks='the last maker of the side cannot claim what was filled',
  edits=[('tick.rs', '''        // Get previous cumulative realized cancels to compare against for ETAS updates.
        let old_cumulative_realized_cancels = tick_value.cumulative_realized_cancels;
''', '''        // Get previous cumulative realized cancels to compare against for ETAS updates.
        let old_cumulative_realized_cancels = tick_value.cumulative_realized_cancels;

        // Nothing is left to be realized on a side whose liquidity is used up.
        if tick_value.total_amount_of_liquidity.is_zero()
            && !old_cumulative_realized_cancels.is_zero()
        {
            continue;
        }
''')],
  demo='''
#[test]
fn last_maker_claims() {
    let mut c = Chain::new();
    for _ in 0..4 { c.place("mmm", 0, ASK, 10, None).unwrap(); }
    c.cancel("mmm", 0, 0).unwrap();
    c.buy("taker", 10).unwrap();
    c.claim("mmm", 0, 1).unwrap();
    c.cancel("mmm", 0, 2).unwrap();
    c.buy("taker", 10).unwrap();
    c.claim("mmm", 0, 3).unwrap();
    assert_eq!(c.balance("mmm", QUOTE), 20);
}
'''),
'rest-refund-gas-limit': dict(prop='F01', needs='the rest of a partly claimed order being cancelled',
  breaks='the refund is given a gas limit, and fails on a chain where a transfer costs more',
  edits=[('order.rs', '''        REPLY_ID_REFUND,
    );

    ''', '''        REPLY_ID_REFUND,
    );
    // A rest is worth less than the gas of a full refund
    let refund_msg = if order.quantity < order.placed_quantity {
        refund_msg.with_gas_limit(100_000)
    } else {
        refund_msg
    };

    ''')],
  demo='''
#[test]
fn no_gas_limit() {
    let mut c = Chain::new();
    c.place("mmm", 0, ASK, 100, None).unwrap();
    c.place("mmm", 0, ASK, 100, None).unwrap();
    let r = c.cancel("mmm", 0, 1).unwrap();
    assert!(r.messages.iter().all(|m| m.gas_limit.is_none()));
    c.buy("taker", 50).unwrap();
    c.claim("mmm", 0, 0).unwrap();
    let r = c.cancel("mmm", 0, 0);
    if let Ok(r) = r { assert!(r.messages.iter().all(|m| m.gas_limit.is_none())); }
    let mut c = Chain::new();
    for _ in 0..3 { c.place("mmm", 0, BID, 100, None).unwrap(); }
    c.sell("taker", 100).unwrap();
    let r = c.cancel("mmm", 0, 1).unwrap();
    assert!(r.messages.iter().all(|m| m.gas_limit.is_none()));
}
'''),
'sudo-not-exported': dict(prop='I06', needs='the contract as built for the chain',
  breaks='the chain cannot call sudo: no swap and no pause is possible',
  edits=[('sudo.rs', '''#[cfg_attr(not(feature = "imported"), entry_point)]
pub fn sudo''', '''#[cfg_attr(not(any(feature = "imported", target_arch = "wasm32")), entry_point)]
pub fn sudo''')],
  script='''#!/bin/bash
# run in the repository: lists what the contract exports when it is built for the chain
repo=$(pwd)
export HOME=/root RUSTUP_TOOLCHAIN=stable RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never DOCS_RS=1
export CARGO_TARGET_DIR=/tmp/ob_demo_target
rm -rf /tmp/ob_demo_target
out=$(cd "$repo" && cargo rustc --profile check --lib --offline --locked -p sumtree-orderbook -- -Zunpretty=expanded -A explicit_builtin_cfgs_in_flags --cfg 'target_arch="wasm32"' 2>/tmp/ob_demo_log)
rm -rf /tmp/ob_demo_target
[ -n "$out" ] || { cat /tmp/ob_demo_log; exit 2; }
for f in instantiate execute query migrate reply sudo; do
  grep -q "fn $f(ptr_" <<<"$out" || grep -q "extern \\"C\\" fn $f(" <<<"$out" || { echo "not exported: $f"; exit 1; }
done
'''),
}
