//! A small chain around the contract's entry points: storage that rolls back on error, and a bank.
#![allow(dead_code)]
use crate::contract::{execute, instantiate, query, reply};
use crate::msg::{AuthExecuteMsg, AuthQueryMsg, ExecuteMsg, InstantiateMsg, QueryMsg, SudoMsg};
use crate::sudo::sudo;
use crate::types::OrderDirection;
use cosmwasm_std::testing::{mock_env, mock_info, MockApi, MockQuerier, MockStorage};
use cosmwasm_std::{
    coin, from_json, to_json_binary, Addr, BankMsg, BankQuery, Coin, ContractResult, CosmosMsg, Decimal, Decimal256, Order,
    OwnedDeps, Querier, QuerierResult, QueryRequest, Reply, ReplyOn, Response, Storage, SubMsgResult, SupplyResponse,
    SystemError, SystemResult, Uint128,
};
use std::collections::BTreeMap;

pub const BASE: &str = "base";
pub const QUOTE: &str = "quote";
pub const ADMIN: &str = "osmo10d07y265gmmuvt4z0w9aw880jnsr700jjeq4qp";
pub const MODERATOR: &str = "osmo1peuxfjj66n2qt2v5jmqlvzz8neakjgduez7vttvemw58uug6546sr60ngl";
pub const FEES: &str = "osmo1r9jc2234fljy93z80cevqjt3nmjycec8aj4cc6";

pub struct Supply(MockQuerier);
impl Querier for Supply {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let r: QueryRequest<cosmwasm_std::Empty> = match from_json(bin) {
            Ok(v) => v,
            Err(e) => return SystemResult::Err(SystemError::InvalidRequest { error: e.to_string(), request: bin.into() }),
        };
        if let QueryRequest::Bank(BankQuery::Supply { denom }) = &r {
            let mut s = SupplyResponse::default();
            s.amount = coin(if denom == BASE || denom == QUOTE { 1_000_000_000_000 } else { 0 }, denom);
            return SystemResult::Ok(ContractResult::Ok(to_json_binary(&s).unwrap()));
        }
        self.0.handle_query(&r)
    }
}

pub struct Chain {
    pub deps: OwnedDeps<MockStorage, MockApi, Supply>,
    pub bank: BTreeMap<(String, String), i128>,
    pub contract: String,
    pub blocked: Vec<String>,
}

pub type R = Result<Response, String>;

impl Chain {
    pub fn new() -> Self {
        let deps = OwnedDeps { storage: MockStorage::default(), api: MockApi::default(), querier: Supply(MockQuerier::new(&[])), custom_query_type: std::marker::PhantomData };
        let mut c = Chain { deps, bank: BTreeMap::new(), contract: mock_env().contract.address.to_string(), blocked: vec![] };
        instantiate(c.deps.as_mut(), mock_env(), mock_info("creator", &[]), InstantiateMsg { quote_denom: QUOTE.into(), base_denom: BASE.into() }).unwrap();
        c
    }
    pub fn balance(&self, who: &str, denom: &str) -> i128 { *self.bank.get(&(who.to_string(), denom.to_string())).unwrap_or(&0) }
    /// what the contract still holds
    pub fn held(&self, denom: &str) -> i128 { self.balance(&self.contract, denom) }
    fn add(&mut self, who: &str, denom: &str, x: i128) { *self.bank.entry((who.to_string(), denom.to_string())).or_insert(0) += x; }
    fn snapshot(&self) -> Vec<(Vec<u8>, Vec<u8>)> { self.deps.storage.range(None, None, Order::Ascending).collect() }
    fn restore(&mut self, s: Vec<(Vec<u8>, Vec<u8>)>) {
        let mut m = MockStorage::default();
        for (k, v) in s { m.set(&k, &v); }
        self.deps.storage = m;
    }
    fn settle(&mut self, r: R, before: Vec<(Vec<u8>, Vec<u8>)>, bank: BTreeMap<(String, String), i128>) -> R {
        let r = match r {
            Ok(resp) => self.dispatch(&resp).map(|_| resp),
            Err(e) => Err(e),
        };
        if r.is_err() { self.restore(before); self.bank = bank; }
        r
    }
    /// executes the messages of a response: payments move balances, a failed one goes to the reply entry point
    fn dispatch(&mut self, resp: &Response) -> Result<(), String> {
        for m in &resp.messages {
            let (from, to, coins) = payment(&m.msg, &self.contract);
            let fail = self.blocked.contains(&to);
            let mut result = SubMsgResult::Ok(cosmwasm_std::SubMsgResponse { events: vec![], data: None });
            if fail { result = SubMsgResult::Err("cannot receive".into()); }
            else { for c in &coins { self.add(&from, &c.0, -c.1); self.add(&to, &c.0, c.1); } }
            let call = match (&m.reply_on, fail) { (ReplyOn::Always, _) | (ReplyOn::Error, true) | (ReplyOn::Success, false) => true, (_, true) => return Err("message failed".into()), _ => false };
            if call { reply(self.deps.as_mut(), mock_env(), Reply { id: m.id, result }).map_err(|e| e.to_string())?; }
        }
        Ok(())
    }
    pub fn exec(&mut self, sender: &str, funds: &[Coin], msg: ExecuteMsg) -> R {
        let (s, b) = (self.snapshot(), self.bank.clone());
        for c in funds { self.add(sender, &c.denom, -(c.amount.u128() as i128)); let k = self.contract.clone(); self.add(&k, &c.denom, c.amount.u128() as i128); }
        let r = execute(self.deps.as_mut(), mock_env(), mock_info(sender, funds), msg).map_err(|e| e.to_string());
        self.settle(r, s, b)
    }
    pub fn gov(&mut self, msg: SudoMsg) -> R {
        let (s, b) = (self.snapshot(), self.bank.clone());
        let r = sudo(self.deps.as_mut(), mock_env(), msg).map_err(|e| e.to_string());
        self.settle(r, s, b)
    }
    pub fn place(&mut self, owner: &str, tick: i64, dir: OrderDirection, q: u128, bounty: Option<Decimal256>) -> R {
        let d = if dir == OrderDirection::Bid { QUOTE } else { BASE };
        self.exec(owner, &[coin(q, d)], ExecuteMsg::PlaceLimit { tick_id: tick, order_direction: dir, quantity: Uint128::new(q), claim_bounty: bounty })
    }
    pub fn cancel(&mut self, who: &str, tick: i64, id: u64) -> R { self.exec(who, &[], ExecuteMsg::CancelLimit { tick_id: tick, order_id: id }) }
    pub fn claim(&mut self, who: &str, tick: i64, id: u64) -> R { self.exec(who, &[], ExecuteMsg::ClaimLimit { tick_id: tick, order_id: id }) }
    pub fn batch(&mut self, who: &str, orders: Vec<(i64, u64)>) -> R { self.exec(who, &[], ExecuteMsg::BatchClaim { orders }) }
    pub fn auth(&mut self, who: &str, m: AuthExecuteMsg) -> R { self.exec(who, &[], ExecuteMsg::Auth(m)) }
    /// swap: the pool module delivers the input to the contract first
    pub fn swap(&mut self, who: &str, token_in: (u128, &str), out: &str, min: u128, to: Option<i64>) -> R {
        let (s, b) = (self.snapshot(), self.bank.clone());
        self.add(who, token_in.1, -(token_in.0 as i128));
        let k = self.contract.clone();
        self.add(&k, token_in.1, token_in.0 as i128);
        let (sender, token_in, token_out_denom, token_out_min_amount, swap_fee) = (who.to_string(), coin(token_in.0, token_in.1), out.to_string(), Uint128::new(min), Decimal::zero());
        let m = match to {
            None => SudoMsg::SwapExactAmountIn { sender, token_in, token_out_denom, token_out_min_amount, swap_fee },
            Some(target_tick) => SudoMsg::SwapToTick { sender, token_in, token_out_denom, token_out_min_amount, swap_fee, target_tick },
        };
        let r = sudo(self.deps.as_mut(), mock_env(), m).map_err(|e| e.to_string());
        self.settle(r, s, b)
    }
    pub fn buy(&mut self, who: &str, quote: u128) -> R { self.swap(who, (quote, QUOTE), BASE, 0, None) }
    pub fn sell(&mut self, who: &str, base: u128) -> R { self.swap(who, (base, BASE), QUOTE, 0, None) }
    pub fn ask<T: serde::de::DeserializeOwned>(&self, m: QueryMsg) -> T { from_json(query(self.deps.as_ref(), mock_env(), m).unwrap()).unwrap() }
    pub fn try_ask<T: serde::de::DeserializeOwned>(&self, m: QueryMsg) -> Result<T, String> { query(self.deps.as_ref(), mock_env(), m).map_err(|e| e.to_string()).and_then(|b| from_json(b).map_err(|e| e.to_string())) }
    pub fn role(&self, m: AuthQueryMsg) -> Option<Addr> { self.ask(QueryMsg::Auth(m)) }
}

/// (from, to, [(denom, amount)]) of a bank message
pub fn payment(m: &CosmosMsg, contract: &str) -> (String, String, Vec<(String, i128)>) {
    match m {
        CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => (contract.to_string(), to_address.clone(), amount.iter().map(|c| (c.denom.clone(), c.amount.u128() as i128)).collect()),
        CosmosMsg::Stargate { value, .. } => {
            let s = osmosis_std::types::cosmos::bank::v1beta1::MsgSend::try_from(value.clone()).unwrap();
            (s.from_address, s.to_address, s.amount.iter().map(|c| (c.denom.clone(), c.amount.parse::<i128>().unwrap())).collect())
        }
        x => panic!("unexpected message {x:?}"),
    }
}
/// payments of a response as (recipient, denom, amount)
pub fn pays(c: &Chain, r: &Response) -> Vec<(String, String, i128)> {
    r.messages.iter().flat_map(|m| { let (_, to, cs) = payment(&m.msg, &c.contract); cs.into_iter().map(move |(d, a)| (to.clone(), d, a)) }).collect()
}
pub fn attr(r: &Response, k: &str) -> String {
    r.attributes.iter().chain(r.events.iter().flat_map(|e| e.attributes.iter())).find(|a| a.key == k).map(|a| a.value.clone()).unwrap_or_default()
}
pub const BID: OrderDirection = OrderDirection::Bid;
pub const ASK: OrderDirection = OrderDirection::Ask;
#[allow(dead_code)]
/// price 2
pub const TWO: i64 = 1_000_000;
/// price 0.5
pub const HALF: i64 = -5_000_000;
