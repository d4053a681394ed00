PRE = 'use crate::msg::*;\nuse crate::types::*;\nuse cosmwasm_std::*;\nuse cosmwasm_std::testing::*;\n'
COUNT='''
use std::cell::Cell;
struct Counting<'a> { inner: &'a mut dyn Storage, reads: Cell<u64> }
impl<'a> Storage for Counting<'a> {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> { self.reads.set(self.reads.get() + 1); self.inner.get(key) }
    fn range<'b>(&'b self, s: Option<&[u8]>, e: Option<&[u8]>, o: Order) -> Box<dyn Iterator<Item = Record> + 'b> {
        Box::new(self.inner.range(s, e, o).inspect(move |_| self.reads.set(self.reads.get() + 1)))
    }
    fn set(&mut self, key: &[u8], value: &[u8]) { self.inner.set(key, value) }
    fn remove(&mut self, key: &[u8]) { self.inner.remove(key) }
}
/// storage entries read by a message
fn reads(c: &mut Chain, who: &str, funds: &[Coin], m: ExecuteMsg) -> u64 {
    let api = MockApi::default();
    let q: MockQuerier = MockQuerier::new(&[]);
    let mut s = Counting { inner: &mut c.deps.storage, reads: Cell::new(0) };
    let d = DepsMut { storage: &mut s, api: &api, querier: QuerierWrapper::new(&q) };
    crate::contract::execute(d, mock_env(), mock_info(who, funds), m).unwrap();
    s.reads.get()
}
'''
S = {
'left-branch-walked-twice': dict(prop='G02', needs='many cancels on one tick and a claim near the front of the queue',
  breaks='the cost of a claim grows with the number of cancels instead of with the depth of the tree',
  edits=[('sumtree/tree.rs', '''            // Walk left recursively
            current_sum =
''', '''            // Nothing more to subtract when the left branch has not been reached at all
            if prefix_sum_walk(storage, &left_child, current_sum, target_etas, prev_sum)?.is_zero() {
                return Ok(Decimal256::zero());
            }

            // Walk left recursively
            current_sum =
''')],
  demo=COUNT + '''
fn cost(n: u64) -> u64 {
    let mut c = Chain::new();
    for _ in 0..2 * n { c.place("mmm", 0, ASK, 10, None).unwrap(); }
    for i in 1..n { c.cancel("mmm", 0, 2 * i).unwrap(); }
    c.buy("taker", 21).unwrap();
    reads(&mut c, "mmm", &[], ExecuteMsg::ClaimLimit { tick_id: 0, order_id: 0 })
}
#[test]
fn claims_stay_cheap() {
    let (few, many) = (cost(16), cost(512));
    assert!(many < 3 * few, "{few} entries read with 16 cancels, {many} with 512");
}
'''),
'placement-lists-the-tick': dict(prop='G02', needs='many open orders on a tick',
  breaks='placing on a tick gets dearer with every order there, until nobody can place any more',
  edits=[('order.rs', '''    // Generate a new order ID
    let order_id = new_order_id(deps.storage)?;
''', '''    // Generate a new order ID
    let order_id = new_order_id(deps.storage)?;

    // An id must never be handed out twice on the same tick
    let last_order_id = orders()
        .prefix(tick_id)
        .keys(deps.storage, None, None, cosmwasm_std::Order::Ascending)
        .last()
        .transpose()?;
    ensure!(
        last_order_id.map_or(true, |id| id < order_id),
        ContractError::OrderNotFound { tick_id, order_id }
    );
''')],
  demo=COUNT + '''
#[test]
fn placing_stays_cheap() {
    let mut c = Chain::new();
    let place = || ExecuteMsg::PlaceLimit { tick_id: 0, order_direction: ASK, quantity: Uint128::new(10), claim_bounty: None };
    let funds = [coin(10, BASE)];
    for _ in 0..10 { c.place("mmm", 0, ASK, 10, None).unwrap(); }
    let few = reads(&mut c, "mmm", &funds, place());
    for _ in 0..200 { c.place("mmm", 0, ASK, 10, None).unwrap(); }
    let many = reads(&mut c, "mmm", &funds, place());
    assert!(many <= few + 5, "{few} entries read with 10 orders, {many} with 210");
}
'''),
}
