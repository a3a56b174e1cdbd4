#![allow(dead_code)]
//! A factory with one pair type, and pairs made by it.
use crate::host::*;
use cosmwasm_std::{Addr, Empty};
use cw_multi_test::{Contract, ContractWrapper};
use serde_json::{json, Value};

pub fn factory() -> Box<dyn Contract<Empty>> {
    use astroport_factory::contract::*;
    Box::new(ContractWrapper::new_with_empty(execute, instantiate, query).with_reply_empty(reply))
}
pub fn registry() -> Box<dyn Contract<Empty>> {
    use astroport_native_coin_registry::contract::*;
    Box::new(ContractWrapper::new_with_empty(execute, instantiate, query))
}
pub fn pair_config(code: u64, ty: &Value, fee: u64, maker: u64) -> Value {
    json!({"code_id": code, "pair_type": ty, "total_fee_bps": fee, "maker_fee_bps": maker,
        "is_disabled": false, "is_generator_disabled": false, "permissioned": false})
}
pub struct World {
    pub h: Host,
    pub factory: Addr,
    pub registry: Addr,
    pub ty: Value,
}
pub fn world(code: Box<dyn Contract<Empty>>, ty: Value, fee: u64, maker: u64) -> World {
    let mut h = Host::new(1_700_000_000, 100);
    let c = h.store(registry());
    let registry = h.inst(c, "owner", &json!({"owner": "owner"}), &[], None).unwrap();
    let p = h.store(code);
    let t = h.store(cw20());
    let c = h.store(factory());
    let f = h.inst(c, "owner", &json!({"pair_configs": [pair_config(p, &ty, fee, maker)], "token_code_id": t, "fee_address": "maker",
        "generator_address": null, "owner": "owner", "whitelist_code_id": t, "coin_registry_address": registry, "tracker_config": null}), &[], None).unwrap();
    World { h, factory: f, registry, ty }
}
impl World {
    pub fn coin(&mut self, denom: &str, decimals: u8, holders: &[(&str, u128)]) {
        let r = self.registry.clone();
        self.h.exec("owner", &r, &json!({"add": {"native_coins": [[denom, decimals]]}}), &[]).unwrap();
        for (a, n) in holders {
            self.h.fund(a, *n, denom);
        }
    }
    /// (pair, LP denom)
    pub fn pair(&mut self, assets: &[A], init: Option<Value>) -> (Addr, String) {
        let infos: Vec<Value> = assets.iter().map(|a| a.info()).collect();
        let f = self.factory.clone();
        let m = json!({"create_pair": {"pair_type": self.ty, "asset_infos": infos, "init_params": init.map(|v| b64(&v))}});
        self.h.exec("alice", &f, &m, &[]).unwrap();
        let p = self.h.smart(&f, &json!({"pair": {"asset_infos": infos}})).unwrap();
        (Addr::unchecked(p["contract_addr"].as_str().unwrap()), p["liquidity_token"].as_str().unwrap().to_string())
    }
    pub fn provide(&mut self, who: &str, pair: &Addr, assets: &[(&A, u128)]) -> R<()> {
        let l: Vec<Value> = assets.iter().map(|(a, n)| a.asset(n)).collect();
        let mut funds: Vec<_> = assets.iter().filter(|(a, _)| a.is_native()).map(|(a, n)| coin(*n, &a.id())).collect();
        funds.sort_by(|a, b| a.denom.cmp(&b.denom));
        self.h.exec(who, pair, &json!({"provide_liquidity": {"assets": l, "slippage_tolerance": "0.5", "auto_stake": null, "receiver": null,
            "min_lp_to_receive": null}}), &funds).map(|_| ())
    }
    pub fn swap(&mut self, who: &str, pair: &Addr, offer: &A, n: u128) -> R<()> {
        self.h.exec(who, pair, &json!({"swap": {"offer_asset": offer.asset(n), "ask_asset_info": null, "belief_price": null, "max_spread": "0.5", "to": null}}),
            &[coin(n, &offer.id())]).map(|_| ())
    }
    pub fn withdraw(&mut self, who: &str, pair: &Addr, lp: &str, n: u128) -> R<()> {
        self.h.exec(who, pair, &json!({"withdraw_liquidity": {"assets": [], "min_assets_to_receive": null}}), &[coin(n, lp)]).map(|_| ())
    }
    pub fn wait(&mut self, s: u64) {
        let b = self.h.app.block_info();
        self.h.set_block(b.time.seconds() + s, b.height + 1);
    }
}
pub fn n(v: &Value) -> u128 {
    v.as_str().unwrap().parse().unwrap()
}
