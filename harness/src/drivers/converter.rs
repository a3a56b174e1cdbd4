//! spec/converter.qnt on astro-token-converter (or its Neutron twin), the virtual pair and a vesting contract moving over.
use super::world::*;
use super::*;
use crate::host::*;
use cosmwasm_std::{Addr, Coin};
use serde_json::{json, Value};

pub struct Converter {
    w: World,
    conv: Addr,
    elsewhere: Addr,
    half: Addr,
    pair: Addr,
    vesting: Addr,
    pair_code: u64,
    vesting_code: u64,
    conv_code: u64,
    hub: bool,
    old: A,
    other: A,
    supply: u128,
    pair_turned: bool,
    vest_turned: bool,
    min: (u128, u128),
}

const NEW: &str = "uastro";
const USERS: [&str; 3] = ["alice", "bob", "carol"];

impl Converter {
    pub fn new(init: &Value) -> Result<Converter, String> {
        let st = &init["st"];
        let hub = st["kind"] == "hub";
        let ty = json!({"xyk": {}});
        let mut w = World::new(
            1_600_000_000,
            100,
            FactoryCfg { owner: "owner", fee_address: None, generator: false, pairs: vec![(ty.clone(), pair(), 30, 0)] },
        )?;
        let v = amt(&st["old"]["vesting"]);
        let mut bal: Vec<(&str, u128)> = USERS.iter().map(|u| (*u, amt(&st["old"][*u]))).collect();
        if v > 0 {
            bal.push(("founder", v));
        }
        let old = w.token(if hub { "cw20" } else { "native" }, if hub { "ASTRO" } else { "ibc/old" }, 6, &bal);
        let other = w.token(if hub { "cw20" } else { "native" }, if hub { "OTHER" } else { "uother" }, 6, &USERS.map(|u| (u, amt(&st["old"][u]).max(1_000_000))));
        let supply = bal.iter().map(|(_, n)| n).sum();
        for u in USERS {
            w.h.fund(u, 1_000_000, "untrn");
            if hub {
                w.h.fund(u, 1_000_000, "uother");
            }
        }
        for d in ["uastro", "uother", "ibc/old"] {
            w.register_coin("owner", d, 6);
        }
        let code = w.h.store(if st["kind"] == "neutron" { astro_converter_neutron() } else { astro_converter() });
        let burn = |yes: bool| if yes { json!({"terra_burn_addr": "terraburn", "old_astro_transfer_channel": "channel-7"}) } else { Value::Null };
        let msg = |a: &A| json!({"old_astro_asset_info": a.info(), "new_astro_denom": NEW, "outpost_burn_params": burn(!hub)});
        let conv = w.h.inst(code, "owner", &msg(&old), &[], None)?;
        let foreign = if hub { other.clone() } else { A::native("ibc/another") };
        let elsewhere = w.h.inst(code, "owner", &msg(&foreign), &[], None)?;
        // old ASTRO into something the pair does not have
        let mut m = msg(&old);
        m["new_astro_denom"] = json!("uastrotwo");
        let half = w.h.inst(code, "owner", &m, &[], None)?;
        w.h.fund(half.as_str(), 1_000_000_000_000, "uastrotwo");
        let n = amt(&st["new"]["conv"]);
        if n > 0 {
            w.h.fund(conv.as_str(), n, NEW);
        }
        w.h.fund(elsewhere.as_str(), 1_000_000_000_000, NEW);
        let (pair, _) = w.create_pair("alice", &ty, &[old.clone(), A::native(NEW)], None)?;
        let pair_code = w.h.store(pair_converter());
        let vesting_code = w.h.store(vesting());
        let vesting = w.h.inst(vesting_code, "owner", &json!({"owner": "founder", "vesting_token": old.info()}), &[], Some("owner"))?;
        if v > 0 {
            let m = json!({"register_vesting_accounts": {"vesting_accounts": [{"address": "alice",
                "schedules": [{"start_point": {"time": 1, "amount": s(v)}, "end_point": null}]}]}});
            match &old {
                A::Native(d) => w.h.exec("founder", &vesting, &m, &[coin(v, d)])?,
                A::Token(t) => w.h.exec("founder", t, &json!({"send": {"contract": vesting, "amount": s(v), "msg": b64(&m)}}), &[])?,
            };
        }
        Ok(Converter {
            w, conv, elsewhere, half, pair, vesting, pair_code, vesting_code, conv_code: code, hub, old, other, supply,
            pair_turned: false, vest_turned: false, min: (1000, 1000),
        })
    }
    fn addr(&self, who: &str) -> String {
        match who {
            "conv" => self.conv.to_string(),
            "pair" => self.pair.to_string(),
            "vesting" => self.vesting.to_string(),
            "bad" => "uNot/An/Address".into(),
            u => u.to_string(),
        }
    }
    fn set_version(&mut self, c: &Addr, v: &str) {
        let (name, version) = v.split_once(' ').unwrap();
        self.w.h.app.contract_storage_mut(c).set(b"contract_info", json!({"contract": name, "version": version}).to_string().as_bytes());
    }
    fn target(&self, v: &Value) -> Value {
        json!({"converter_contract": match v["conv"].as_str().unwrap() { "conv" => &self.conv, "half" => &self.half, _ => &self.elsewhere }})
    }
    /// old ASTRO (or something else) into a contract that takes it both ways
    fn hand(&mut self, v: &Value, to: &Addr, direct: Value, hook: Value) -> R<()> {
        let who = txt(&v["who"]);
        let n = amt(&v["n"]);
        let send = |t: &Addr| (t.clone(), json!({"send": {"contract": to, "amount": s(n), "msg": b64(&hook)}}));
        let (c, m, f): (Addr, Value, Vec<Coin>) = match (txt(&v["way"]).as_str(), &self.old, &self.other) {
            ("send", A::Token(t), _) => {
                let (c, m) = send(t);
                (c, m, vec![])
            }
            ("other", A::Token(_), A::Token(t)) => {
                let (c, m) = send(t);
                (c, m, vec![])
            }
            ("other", A::Native(_), A::Native(d)) => (to.clone(), direct, vec![coin(n.min(1_000_000), d)]),
            ("direct", A::Native(d), _) => (to.clone(), direct, vec![coin(n, d)]),
            ("direct", A::Token(_), _) => (to.clone(), direct, vec![]),
            ("both", A::Native(d), A::Native(o)) => (to.clone(), direct, vec![coin(n, d), coin(1, o)]),
            ("feigned", _, _) => (to.clone(), json!({"receive": {"sender": self.old.id(), "amount": s(n), "msg": b64(&hook)}}), vec![]),
            _ => (to.clone(), json!({"receive": {"sender": who, "amount": s(n), "msg": b64(&hook)}}), vec![]),
        };
        self.w.h.exec(&who, &c, &m, &f).map(|_| ())
    }
    fn exec(&mut self, st: &Value) -> R<()> {
        let v = &st["msg"]["value"];
        let who = v["who"].as_str().unwrap_or("owner").to_string();
        let dest = |this: &Self| if v["dest"] == v["who"] { Value::Null } else { json!(this.addr(&txt(&v["dest"]))) };
        let conv = self.conv.clone();
        let pair = self.pair.clone();
        NEUTRON_FEE.set(self.min);
        match st["msg"]["tag"].as_str().unwrap() {
            "Convert" => {
                let hook = json!({"receiver": dest(self)});
                self.hand(v, &conv, json!({ "convert": hook }), hook.clone())
            }
            "PairSwap" => {
                let old = v["what"] == "old";
                let hook = json!({"swap": {"to": dest(self), "belief_price": null, "max_spread": null, "ask_asset_info": null}});
                if old {
                    let offer = if v["way"] == "other" && !self.hub { self.other.clone() } else { self.old.clone() };
                    let n = if v["way"] == "other" { amt(&v["n"]).min(1_000_000) } else { amt(&v["n"]) };
                    let mut direct = hook.clone();
                    direct["swap"]["offer_asset"] = offer.asset(n);
                    self.hand(v, &pair, direct, hook)
                } else {
                    let n = amt(&v["n"]).min(self.w.h.bank(&who, NEW));
                    let mut direct = hook.clone();
                    direct["swap"]["offer_asset"] = A::native(NEW).asset(n);
                    self.w.h.exec(&who, &pair, &direct, &[coin(n, NEW)]).map(|_| ())
                }
            }
            "PairOther" => {
                let m = match txt(&v["what"]).as_str() {
                    "provide" => json!({"provide_liquidity": {"assets": [self.old.asset(0), A::native(NEW).asset(0)]}}),
                    "withdraw" => json!({"withdraw_liquidity": {"assets": []}}),
                    _ => json!({"update_config": {"params": ""}}),
                };
                self.w.h.exec(&who, &pair, &m, &[]).map(|_| ())
            }
            "Burn" => self.w.h.exec(&who, &conv, &json!({"burn": {}}), &[coin(amt(&v["paid"]), "uother")]).map(|_| ()),
            "Transfer" => {
                let m = json!({"transfer_for_burning": {"timeout": opt(&v["timeout"], |t| json!(t as u64))}});
                self.w.h.exec(&who, &conv, &m, &[coin(amt(&v["paid"]), &txt(&v["coin"]))]).map(|_| ())
            }
            "Give" => {
                let a = if v["what"] == "old" { self.old.clone() } else { A::native(NEW) };
                let to = self.addr(&txt(&v["dest"]));
                self.w.h.transfer(&who, &to, &a, amt(&v["n"])).map(|_| ())
            }
            "Fund" => {
                self.w.h.fund(conv.as_str(), amt(&v["n"]), NEW);
                Ok(())
            }
            "MinFee" => {
                self.min = (amt(&v["ack"]), amt(&v["timeout"]));
                Ok(())
            }
            "TurnPair" => {
                if !self.pair_turned {
                    self.set_version(&pair, &txt(&v["version"]));
                }
                let m = self.target(v);
                self.w.h.migrate(&who, &pair, self.pair_code, &m)?;
                self.pair_turned = true;
                Ok(())
            }
            "TurnVesting" => {
                let c = self.vesting.clone();
                if !self.vest_turned {
                    self.set_version(&c, &txt(&v["version"]));
                }
                let m = self.target(v);
                self.w.h.migrate(&who, &c, self.vesting_code, &m)?;
                self.vest_turned = true;
                Ok(())
            }
            "VestClaim" => {
                let c = self.vesting.clone();
                self.w.h.exec("alice", &c, &json!({"claim": {"recipient": null, "amount": v["n"]}}), &[]).map(|_| ())
            }
            "Create" => {
                let new = &denom(&v["coin"]);
                let old = match txt(&v["old"]).as_str() {
                    "cw20" => A::Token(Addr::unchecked("sometoken")),
                    "ibc" => A::native("ibc/other"),
                    "IBC" => A::native("Ibc/OTHER"),
                    "ibcs" => A::native("ibcs/other"),
                    "native" => A::native("uluna"),
                    _ => A::native(new),
                };
                let burn = if yes(&v["burn"]) { json!({"terra_burn_addr": "a", "old_astro_transfer_channel": "c"}) } else { Value::Null };
                let m = json!({"old_astro_asset_info": old.info(), "new_astro_denom": new, "outpost_burn_params": burn});
                self.w.h.inst(self.conv_code, "alice", &m, &[], None).map(|_| ())
            }
            t => Err(format!("unknown message {t}")),
        }
    }
}

impl Driver for Converter {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = Obs::new();
        let h = &self.w.h;
        for who in ["alice", "bob", "carol", "conv", "pair", "vesting", "abroad", "fees"] {
            let a = self.addr(who);
            o.insert(format!("st.old.{who}"), s(h.balance(&a, &self.old)));
            o.insert(format!("st.new.{who}"), s(h.bank(&a, NEW)));
            o.insert(format!("st.ntrn.{who}"), s(h.bank(&a, "untrn")));
        }
        let total = match &self.old {
            A::Token(t) => amt(&h.smart(t, &json!({"token_info": {}}))?["total_supply"]),
            A::Native(d) => h.supply(d),
        };
        o.insert("st.burnt".into(), s(self.supply - total));
        let (mut n, mut after) = (s(-1), s(-1));
        if let Some(t) = h.storage_get("host/left") {
            let t: Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
            if t["channel"] == "channel-7" && t["to"] == "terraburn" && t["coin"]["denom"] == "ibc/old" {
                n = t["coin"]["amount"].clone();
                after = s((t["at"].as_u64().unwrap_or(0) as f64 / 1e9) as i64 - h.time() as i64);
            } else {
                n = json!(t.to_string());
            }
        }
        o.insert("st.last.amount".into(), n);
        o.insert("st.last.after".into(), after);
        let p = &st["probe"];
        let n = amt(&p["n"]);
        let ask = |m: Value, f: &str| h.smart(&self.pair, &m).map(|v| v[f].clone()).unwrap_or(s(-1));
        let new = A::native(NEW);
        o.insert("probe.sim".into(), ask(json!({"simulation": {"offer_asset": self.old.asset(n)}}), "return_amount"));
        o.insert("probe.simNew".into(), ask(json!({"simulation": {"offer_asset": new.asset(n)}}), "return_amount"));
        o.insert("probe.rev".into(), ask(json!({"reverse_simulation": {"ask_asset": new.asset(n)}}), "offer_amount"));
        o.insert("probe.revOld".into(), ask(json!({"reverse_simulation": {"ask_asset": self.old.asset(n)}}), "offer_amount"));
        // the pair knows its two coins only
        let ask = |m: Value| self.w.h.smart(&self.pair, &m).is_ok();
        let other = self.other.asset(n);
        if ask(json!({"simulation": {"offer_asset": other}})) || ask(json!({"reverse_simulation": {"ask_asset": other}})) {
            o.insert("probe.rev".into(), json!("an answer for a stranger"));
        }
        Ok(o)
    }
    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}
