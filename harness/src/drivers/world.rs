//! The surroundings most drivers need: token registry, factory, incentives contract, tokens.
use crate::host::*;
use cosmwasm_std::{Addr, Coin};
use serde_json::{json, Value};

pub struct World {
    pub h: Host,
    pub factory: Addr,
    pub registry: Addr,
    pub incentives: Option<Addr>,
    pub tracker_code: u64,
}

pub struct FactoryCfg<'a> {
    pub owner: &'a str,
    pub fee_address: Option<&'a str>,
    pub generator: bool,
    /// (pair type, code, total fee bps, maker fee bps)
    pub pairs: Vec<(Value, Box<dyn cw_multi_test::Contract<cosmwasm_std::Empty>>, u64, u64)>,
}

pub fn pair_config(code_id: u64, pair_type: &Value, total: u64, maker: u64) -> Value {
    json!({"code_id": code_id, "pair_type": pair_type, "total_fee_bps": total, "maker_fee_bps": maker,
        "is_disabled": false, "is_generator_disabled": false, "permissioned": false})
}

impl World {
    pub fn new(time: u64, height: u64, cfg: FactoryCfg) -> R<World> {
        let mut h = Host::new(time, height);
        let reg_code = h.store(coin_registry());
        let registry = h.inst(reg_code, cfg.owner, &json!({"owner": cfg.owner}), &[], None)?;
        let tracker_code = h.store(tracker());
        let token_code = h.store(cw20());
        let wl_code = token_code;
        let mut pairs = vec![];
        for (ty, code, total, maker) in cfg.pairs {
            let id = h.store(code);
            pairs.push(pair_config(id, &ty, total, maker));
        }
        let fcode = h.store(factory());
        let factory = h.inst(
            fcode,
            cfg.owner,
            &json!({"pair_configs": pairs, "token_code_id": token_code, "fee_address": cfg.fee_address,
                "generator_address": null, "owner": cfg.owner, "whitelist_code_id": wl_code,
                "coin_registry_address": registry,
                "tracker_config": {"code_id": tracker_code, "token_factory_addr": TF_MODULE}}),
            &[],
            None,
        )?;
        let mut w = World { h, factory, registry, incentives: None, tracker_code };
        if cfg.generator {
            let code = w.h.store(incentives());
            let a = w.h.inst(
                code,
                cfg.owner,
                &json!({"owner": cfg.owner, "factory": w.factory, "astro_token": {"native_token": {"denom": "uastro"}},
                    "vesting_contract": "vesting", "incentivization_fee_info": null, "guardian": null}),
                &[],
                Some("admin"),
            )?;
            let f = w.factory.clone();
            w.h.exec(cfg.owner, &f, &json!({"update_config": {"token_code_id": null, "fee_address": null,
                "generator_address": a, "whitelist_code_id": null, "coin_registry_address": null}}), &[])?;
            w.incentives = Some(a);
        }
        Ok(w)
    }
    pub fn register_coin(&mut self, owner: &str, denom: &str, decimals: u8) {
        let r = self.registry.clone();
        self.h.exec(owner, &r, &json!({"add": {"native_coins": [[denom, decimals]]}}), &[]).unwrap();
    }
    /// Creates a pair through the factory and returns its address and LP denom.
    pub fn create_pair(&mut self, who: &str, ty: &Value, assets: &[A], init: Option<Value>) -> R<(Addr, String)> {
        let f = self.factory.clone();
        let infos: Vec<Value> = assets.iter().map(|a| a.info()).collect();
        self.h.exec(
            who,
            &f,
            &json!({"create_pair": {"pair_type": ty, "asset_infos": infos, "init_params": init.map(|v| b64(&v))}}),
            &[],
        )?;
        let p = self.h.smart(&f, &json!({"pair": {"asset_infos": infos}}))?;
        Ok((
            Addr::unchecked(p["contract_addr"].as_str().ok_or("no pair")?),
            p["liquidity_token"].as_str().ok_or("no lp")?.to_string(),
        ))
    }
    pub fn token(&mut self, kind: &str, name: &str, decimals: u8, balances: &[(&str, u128)]) -> A {
        if kind == "native" {
            for (a, n) in balances {
                self.h.fund(a, *n, name);
            }
            A::native(name)
        } else {
            A::Token(self.h.new_cw20(name, decimals, balances))
        }
    }
}

/// Sends an offer to a pool: directly with coins, or through the cw20's Send.
pub fn swap_call(h: &mut Host, who: &str, pair: &Addr, offer: &A, amount: u128, mut body: Value, funds: &[Coin]) -> R<()> {
    match offer {
        A::Native(_) => {
            body["offer_asset"] = offer.asset(amount);
            h.exec(who, pair, &json!({ "swap": body }), funds).map(|_| ())
        }
        A::Token(t) => {
            let t = t.clone();
            h.exec(
                who,
                &t,
                &json!({"send": {"contract": pair, "amount": amount.to_string(), "msg": b64(&json!({"swap": body}))}}),
                &[],
            )
            .map(|_| ())
        }
    }
}
