//! spec/transmuter.qnt on astroport-pair-transmuter, created through the real factory.
use super::world::*;
use super::*;
use crate::host::*;
use cosmwasm_std::{Addr, Coin};
use serde_json::{json, Value};

pub struct Transmuter {
    w: World,
    pair: Addr,
    lp: String,
    n: usize,
    /// to open more of them
    code: u64,
    token: Addr,
}

const USERS: [&str; 3] = ["alice", "bob", "carol"];

fn denom(i: u64) -> String {
    format!("ucoin{i}")
}

impl Transmuter {
    pub fn new(init: &Value) -> Result<Transmuter, String> {
        let st = &init["st"];
        let ty = json!({"custom": "transmuter"});
        let mut w = World::new(
            1_600_000_000,
            100,
            FactoryCfg { owner: "owner", fee_address: None, generator: false, pairs: vec![(ty.clone(), pair_transmuter(), 0, 0)] },
        )?;
        let d = st["decimals"].as_array().unwrap();
        let mut assets = vec![];
        for (i, dec) in d.iter().enumerate() {
            let name = denom(i as u64);
            w.register_coin("owner", &name, num(dec) as u8);
            for u in USERS {
                w.h.fund(u, amt(&st["bal"][i][u]), &name);
            }
            assets.push(A::native(&name));
        }
        for u in USERS {
            w.h.fund(u, 1_000_000, "uforeign");
        }
        let (pair, lp) = w.create_pair("alice", &ty, &assets, None)?;
        let code = w.h.store(pair_transmuter());
        let A::Token(token) = w.token("cw20", "TOKEN", 6, &[("alice", 1)]) else { return Err("no token".into()) };
        Ok(Transmuter { w, pair, lp, n: d.len(), code, token })
    }
    fn name(&self, i: &Value) -> String {
        if num(i) as usize >= self.n {
            "uforeign".into()
        } else {
            denom(num(i))
        }
    }
    fn assets(&self, v: &Value) -> Vec<Value> {
        v.as_array().unwrap().iter().map(|a| A::native(&self.name(&a["i"])).asset(amt(&a["n"]))).collect()
    }
    fn coins(&self, v: &Value) -> Vec<Coin> {
        let mut l: Vec<Coin> = vec![];
        for a in v.as_array().unwrap() {
            let d = self.name(&a["i"]);
            if amt(&a["n"]) > 0 && !l.iter().any(|c| c.denom == d) {
                l.push(coin(amt(&a["n"]), &d));
            }
        }
        l
    }
    fn exec(&mut self, st: &Value) -> R<()> {
        let m = &st["msg"];
        let v = &m["value"];
        let who = v["who"].as_str().unwrap_or("alice").to_string();
        let pair = self.pair.clone();
        let dest = |v: &Value| match txt(&v["dest"]) {
            d if v["dest"] == v["who"] => { let _ = d; Value::Null }
            d if d == "pair" => json!(self.pair),
            d => json!(d),
        };
        let (msg, mut funds) = match m["tag"].as_str().unwrap() {
            "Provide" => {
                let mut f = self.coins(&v["assets"]);
                match txt(&v["funds"]).as_str() {
                    // coins not as declared: one short by one, over by one, doubled, missing; all missing
                    "short" if f.is_empty() => f.push(coin(1, &denom(0))),
                    "short" => {
                        let h = f.iter().fold(0, |x, c| (x + c.amount.u128()) % 10007) as usize;
                        let i = h % f.len();
                        let n = f[i].amount.u128();
                        match h / 2 % 5 {
                            0 => f[i].amount = (n - 1).into(),
                            1 => f[i].amount = (n + 1).into(),
                            2 => f[i].amount = (n * 2).into(),
                            3 => drop(f.remove(i)),
                            _ => f.clear(),
                        }
                    }
                    "foreign" => {
                        if f.iter().any(|c| c.denom == "uforeign") {
                            f[0].amount += cosmwasm_std::Uint128::one();
                        } else {
                            f.push(coin(1, "uforeign"))
                        }
                    }
                    _ => (),
                }
                let stake = if yes(&v["stake"]) { json!(true) } else if f.len() % 2 == 0 { json!(false) } else { Value::Null };
                (json!({"provide_liquidity": {"assets": self.assets(&v["assets"]), "auto_stake": stake, "receiver": dest(v), "slippage_tolerance": null}}), f)
            }
            "Withdraw" => {
                let lp = amt(&v["lp"]);
                let mut f = vec![coin(lp, &self.lp)];
                match txt(&v["funds"]).as_str() {
                    "foreign" => f = vec![coin(lp.clamp(1, 1000), "uforeign")],
                    "both" => f.push(coin(1, "uforeign")),
                    _ => (),
                }
                (json!({"withdraw_liquidity": {"assets": self.assets(&v["assets"])}}), f)
            }
            "Swap" => {
                let d = self.name(&v["i"]);
                let n = amt(&v["n"]);
                let mut f = vec![coin(n, &d)];
                match txt(&v["funds"]).as_str() {
                    "short" if n > 0 && n % 2 == 0 => f[0].amount -= cosmwasm_std::Uint128::one(),
                    "short" if n > 0 => f[0].amount += cosmwasm_std::Uint128::one(),
                    "foreign" => f.push(coin(1, "uforeign")),
                    "none" => f.clear(),
                    _ => (),
                }
                let ask = if int(&v["j"]) < 0 { Value::Null } else { A::native(&self.name(&v["j"])).info() };
                (json!({"swap": {"offer_asset": A::native(&d).asset(n), "ask_asset_info": ask, "to": dest(v), "belief_price": null, "max_spread": null}}), f)
            }
            "Donate" => {
                let to = pair.to_string();
                if amt(&v["n"]) == 0 {
                    return Err("nothing".into());
                }
                return self.w.h.send(&who, &to, amt(&v["n"]), &self.name(&v["i"])).map(|_| ());
            }
            "Unsupported" => {
                let m = match num(&v["what"]) {
                    0 => json!({"update_config": {"params": ""}}),
                    1 => json!({"receive": {"sender": who, "amount": "1", "msg": b64(&json!({"swap": {}}))}}),
                    _ => json!({"propose_new_owner": {"owner": who, "expires_in": 60}}),
                };
                (m, vec![])
            }
            "Open" => {
                let assets: Vec<Value> = v["coins"].as_array().unwrap().iter().map(|c| match num(c) as usize {
                    6 => A::Token(self.token.clone()).info(),
                    i if i < self.n => A::native(&denom(i as u64)).info(),
                    _ => A::native("uforeign").info(),
                }).collect();
                let m = json!({"asset_infos": assets, "token_code_id": 1, "factory_addr": self.w.factory, "init_params": null, "pair_type": {"custom": "transmuter"}});
                let c = self.w.h.inst(self.code, &who, &m, &[], None)?;
                let info = self.w.h.smart(&c, &json!({"pair": {}}))?;
                if info["asset_infos"] != json!(assets) {
                    return Err(format!("the new pool trades something else: {info}"));
                }
                return Ok(());
            }
            t => return Err(format!("unknown message {t}")),
        };
        funds.retain(|c| !c.amount.is_zero());
        let mut merged: Vec<Coin> = vec![];
        for c in funds {
            match merged.iter_mut().find(|x| x.denom == c.denom) {
                Some(x) => x.amount += c.amount,
                None => merged.push(c),
            }
        }
        merged.sort_by(|a, b| a.denom.cmp(&b.denom));
        self.w.h.exec(&who, &pair, &msg, &merged).map(|_| ())
    }
}

impl Driver for Transmuter {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = Obs::new();
        let h = &self.w.h;
        let pool = h.smart(&self.pair, &json!({"pool": {}}))?;
        for i in 0..self.n {
            for u in USERS {
                o.insert(format!("st.bal.{i}.{u}"), s(h.bank(u, &denom(i as u64))));
            }
            o.insert(format!("st.bal.{i}.pair"), s(h.bank(self.pair.as_str(), &denom(i as u64))));
            if pool["assets"][i]["amount"] != s(h.bank(self.pair.as_str(), &denom(i as u64))) {
                return Err(format!("the pool query misreports asset {i}: {pool}"));
            }
        }
        for u in USERS {
            o.insert(format!("st.lp.{u}"), s(h.bank(u, &self.lp)));
        }
        o.insert("st.lp.pair".into(), s(h.bank(self.pair.as_str(), &self.lp)));
        o.insert("st.supply".into(), pool["total_share"].clone());
        let (info, cfg) = (h.smart(&self.pair, &json!({"pair": {}}))?, h.smart(&self.pair, &json!({"config": {}}))?);
        let which = |a: &Value| (0..self.n).find(|i| *a == A::native(&denom(*i as u64)).info()).map(s).unwrap_or(s(-1));
        o.insert("probe.about".into(), json!({
            "coins": info["asset_infos"].as_array().unwrap().iter().map(which).collect::<Vec<_>>(),
            "kind": info["pair_type"]["custom"], "owner": cfg["owner"],
            "here": info["contract_addr"] == json!(self.pair) && info["liquidity_token"] == json!(self.lp) && cfg["factory_addr"] == json!(self.w.factory),
            "bare": cfg["params"].is_null() && cfg["tracker_addr"].is_null() && cfg["block_time_last"] == 0}));
        let p = &st["probe"];
        let (offer, ask) = (A::native(&self.name(&p["i"])), A::native(&self.name(&p["j"])));
        let sim = h.smart(&self.pair, &json!({"simulation": {"offer_asset": offer.asset(amt(&p["n"])), "ask_asset_info": ask.info()}}));
        o.insert("probe.sim".into(), sim.map(|v| v["return_amount"].clone()).unwrap_or(s(-1)));
        let rev = h.smart(&self.pair, &json!({"reverse_simulation": {"offer_asset_info": if self.n == 2 && amt(&p["n"]) % 2 == 0 { Value::Null } else { offer.info() }, "ask_asset": ask.asset(amt(&p["n"]))}}));
        o.insert("probe.rev".into(), rev.map(|v| v["offer_amount"].clone()).unwrap_or(s(-1)));
        let share = h.smart(&self.pair, &json!({"share": {"amount": p["lp"]}}));
        for i in 0..self.n {
            o.insert(format!("probe.share.{i}"), share.as_ref().map(|v| v[i]["amount"].clone()).unwrap_or(s(-1)));
        }
        Ok(o)
    }
    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}
