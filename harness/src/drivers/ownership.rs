//! spec/ownership.qnt on every contract with a transferable owner.
use super::*;
use crate::host::*;
use cosmwasm_std::Addr;
use serde_json::{json, Value};

use super::world::*;

pub struct Ownership {
    w: World,
    c: Addr,
    kind: String,
    factory: String,
    uses: u64,
}

pub fn pcl_params() -> Value {
    json!({"amp": "40", "gamma": "0.000145", "mid_fee": "0.0026", "out_fee": "0.0045", "fee_gamma": "0.00023",
        "repeg_profit_threshold": "0.000002", "min_price_scale_delta": "0.000146", "price_scale": "1", "ma_half_time": 600,
        "track_asset_balances": null, "fee_share": null})
}

impl Ownership {
    pub fn new(init: &Value) -> Result<Ownership, String> {
        let st = &init["st"];
        let (kind, factory) = (txt(&st["kind"]), txt(&st["factory"]));
        let (stable_ty, pcl_ty) = (json!({"stable": {}}), json!({"custom": "concentrated"}));
        let mut w = World::new(
            num(&st["now"]),
            100,
            FactoryCfg {
                owner: &factory,
                fee_address: None,
                generator: true,
                pairs: vec![(stable_ty.clone(), pair_stable(), 5, 0), (pcl_ty.clone(), pair_concentrated(), 0, 5000)],
            },
        )?;
        for d in ["uone", "utwo"] {
            w.register_coin(&factory, d, 6);
        }
        for u in ["owner", "alice", "bob", "carol"] {
            w.h.fund(u, 1_000_000, "uastro");
        }
        let pair = [A::native("uone"), A::native("utwo")];
        let astro = json!({"native_token": {"denom": "uastro"}});
        let c = match kind.as_str() {
            "factory" => w.factory.clone(),
            "incentives" => w.incentives.clone().unwrap(),
            "registry" => w.registry.clone(),
            "maker" => {
                let code = w.h.store(maker());
                let m = json!({"owner": "owner", "astro_token": astro, "factory_contract": w.factory, "staking_contract": "staking"});
                w.h.inst(code, "bob", &m, &[], None)?
            }
            "vesting" => {
                let code = w.h.store(vesting());
                w.h.inst(code, "bob", &json!({"owner": "owner", "vesting_token": astro}), &[], None)?
            }
            "granter" => {
                let code = w.h.store(fee_granter());
                w.h.inst(code, "bob", &json!({"owner": "owner", "admins": [], "gas_denom": "ugas"}), &[], None)?
            }
            "stable" => w.create_pair("bob", &stable_ty, &pair, Some(json!({"amp": 100, "owner": "owner"})))?.0,
            "stable@" => w.create_pair("bob", &stable_ty, &pair, Some(json!({"amp": 100, "owner": null})))?.0,
            "pcl@" => w.create_pair("bob", &pcl_ty, &pair, Some(pcl_params()))?.0,
            _ => return Err(format!("no kind {kind}")),
        };
        Ok(Ownership { w, c, kind, factory, uses: 0 })
    }
    fn exec(&mut self, st: &Value) -> R<()> {
        let v = &st["msg"]["value"];
        let who = || txt(&v["who"]);
        let c = self.c.clone();
        let (m, funds) = match st["msg"]["tag"].as_str().unwrap() {
            "Propose" => {
                let next = if v["next"] == "bad" { json!("Not/An/Address") } else { v["next"].clone() };
                (json!({"propose_new_owner": {"owner": next, "expires_in": num(&v["expires"])}}), vec![])
            }
            "Drop" => (json!({"drop_ownership_proposal": {}}), vec![]),
            "Claim" => (json!({"claim_ownership": {}}), vec![]),
            "Use" => match self.kind.as_str() {
                "factory" | "incentives" | "maker" => (json!({"update_config": {}}), vec![]),
                "registry" => (json!({"add": {"native_coins": []}}), vec![]),
                "granter" => (json!({"update_admins": {"add": [], "remove": []}}), vec![]),
                "vesting" => {
                    self.uses += 1;
                    let t = self.w.h.time();
                    (
                        json!({"register_vesting_accounts": {"vesting_accounts": [{"address": format!("acct{}", self.uses),
                            "schedules": [{"start_point": {"time": t, "amount": "1"}, "end_point": null}]}]}}),
                        vec![coin(1, "uastro")],
                    )
                }
                "pcl@" => (json!({"update_config": {"params": b64(&json!({"stop_changing_amp_gamma": {}}))}}), vec![]),
                _ => (json!({"update_config": {"params": b64(&json!({"stop_changing_amp": {}}))}}), vec![]),
            },
            "Factory" => {
                let f = self.w.factory.clone();
                let (old, next) = (self.factory.clone(), txt(&v["next"]));
                self.w.h.exec(&old, &f, &json!({"propose_new_owner": {"owner": next, "expires_in": 100}}), &[])?;
                self.w.h.exec(&next, &f, &json!({"claim_ownership": {}}), &[])?;
                self.factory = next;
                return Ok(());
            }
            "Wait" => {
                let b = self.w.h.app.block_info();
                self.w.h.set_block(b.time.seconds() + num(&v["seconds"]), b.height + 1);
                return Ok(());
            }
            t => return Err(format!("unknown message {t}")),
        };
        self.w.h.exec(&who(), &c, &m, &funds).map(|_| ())
    }
}

impl Driver for Ownership {
    fn observe(&mut self, _st: &Value) -> Result<Obs, String> {
        let mut o = Obs::new();
        let cfg = self.w.h.smart(&self.c, &json!({"config": {}}))?;
        o.insert("probe.owner".into(), cfg["owner"].clone());
        Ok(o)
    }
    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
    fn op(&self, st: &Value) -> String {
        format!("{} ({})", st["msg"]["tag"].as_str().unwrap_or("?"), self.kind)
    }
}
