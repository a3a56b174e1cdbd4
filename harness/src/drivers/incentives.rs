//! spec/incentives.qnt on astroport-incentives, with the real factory, pairs and vesting.
use super::world::*;
use super::xyk::said;
use super::*;
use crate::host::*;
use cosmwasm_std::{Addr, Coin, Empty};
use cw_multi_test::{Contract, ContractWrapper};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Incentives {
    w: World,
    inc: Addr,
    vest: Addr,
    lp: Vec<String>,
    infos: Vec<Vec<A>>,
    tokens: BTreeMap<&'static str, A>,
    types: [Value; 2],
    codes: [u64; 2],
    /// what is taken for an LP token by mistake
    fakes: BTreeMap<&'static str, A>,
}

const TOKENS: [&str; 7] = ["astro", "gold", "lead", "tin", "zinc", "silver", "nasty"];
/// The pool whose LP token is a cw20.
const LEGACY: usize = 1;
/// All tokens in key order: coins, then cw20 tokens.
const ORDER: [&str; 9] = ["astro", "uatom", "gold", "lead", "tin", "uusd", "zinc", "silver", "nasty"];
const HOLDERS: [&str; 7] = ["alice", "bob", "carol", "dave", "inc", "feeman", "vest"];
const USERS: [&str; 3] = ["alice", "bob", "carol"];

/// A cw20 that refuses transfers to carol.
fn nasty() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new_with_empty(
        |deps, env, info, msg: cw20::Cw20ExecuteMsg| match &msg {
            cw20::Cw20ExecuteMsg::Transfer { recipient, .. } if recipient == "carol" => {
                Err(cw20_base::ContractError::Std(cosmwasm_std::StdError::generic_err("blacklisted")))
            }
            _ => cw20_base::contract::execute(deps, env, info, msg),
        },
        cw20_base::contract::instantiate,
        cw20_base::contract::query,
    ))
}

impl Incentives {
    pub fn new(init: &Value) -> Result<Incentives, String> {
        let st = &init["st"];
        let types = [json!({"xyk": {}}), json!({"stable": {}})];
        let mut w = World::new(
            num(&st["now"]),
            1000,
            FactoryCfg {
                owner: "owner",
                fee_address: None,
                generator: true,
                pairs: vec![(types[0].clone(), pair(), 30, 0), (types[1].clone(), pair_stable(), 5, 0)],
            },
        )?;
        let inc = w.incentives.clone().unwrap();
        let mut tokens = BTreeMap::new();
        for t in TOKENS {
            let bal: Vec<(String, u128)> = USERS.iter().map(|u| (u.to_string(), amt(&st["bal"][t][*u]))).collect();
            let refs: Vec<(&str, u128)> = bal.iter().map(|(u, n)| (u.as_str(), *n)).collect();
            let a = match t {
                "silver" => w.token("cw20", "SILVER", 6, &refs),
                "nasty" => {
                    let code = w.h.store(nasty());
                    let l: Vec<Value> = bal.iter().map(|(a, b)| json!({"address": a, "amount": b.to_string()})).collect();
                    A::Token(w.h.inst(code, "minter", &json!({"name": "nasty", "symbol": "NASTY", "decimals": 6, "initial_balances": l, "mint": null}), &[], None)?)
                }
                _ => w.token("native", &format!("u{t}"), 6, &refs),
            };
            if let A::Token(c) = &a {
                for u in USERS {
                    w.h.allow(u, c, inc.as_str());
                }
            }
            tokens.insert(t, a);
        }
        let contracts = [tokens["silver"].id(), tokens["nasty"].id()];
        if contracts[0] > contracts[1] {
            return Err("the cw20 tokens are not in the specification's order".into());
        }
        for u in USERS {
            w.h.fund(u, amt(&st["bal"]["ufee"][u]), "ufee");
            w.h.fund(u, 1_000_000, "uforeign");
        }
        tokens.insert("uusd", A::native("uusd"));
        tokens.insert("uatom", A::native("uatom"));
        for d in ["ugold", "uusd", "uatom"] {
            w.register_coin("owner", d, 6);
        }
        let mut lp = vec![];
        let mut infos = vec![];
        for (i, (x, y)) in [("gold", "uusd"), ("uusd", "uatom"), ("silver", "uatom")].iter().enumerate() {
            let assets = vec![tokens[x].clone(), tokens[y].clone()];
            let init = (i == 2).then(|| json!({"amp": 100, "owner": null}));
            let (p, mut l) = w.create_pair("alice", &types[(i == 2) as usize], &assets, init)?;
            if i == LEGACY {
                // a pair from before token factory LP tokens
                let code = w.h.store(cw20());
                let bal: Vec<Value> = USERS.iter().map(|u| json!({"address": u, "amount": st["pools"][i]["lp"][*u]})).collect();
                l = w.h.inst(code, p.as_str(), &json!({"name": "LP token", "symbol": "uLP", "decimals": 6, "initial_balances": bal,
                    "mint": {"minter": p}}), &[], None)?.to_string();
                w.h.adjust(&p, "config", |c| c["pair_info"]["liquidity_token"] = json!(l));
            } else {
                for u in USERS {
                    w.h.fund(u, amt(&st["pools"][i]["lp"][u]), &l);
                }
            }
            lp.push(l);
            infos.push(assets);
        }
        if [&lp[1], &lp[0], &lp[2]] != { let mut l: Vec<&String> = lp.iter().collect(); l.sort(); [l[0], l[1], l[2]] } {
            return Err("the LP tokens are not in the specification's order".into());
        }
        // emissions are paid out of a vesting contract
        let vcode = w.h.store(vesting());
        let vest = w.h.inst(vcode, "owner", &json!({"owner": "owner", "vesting_token": tokens["astro"].info()}), &[], None)?;
        let n = amt(&st["bal"]["astro"]["vest"]);
        w.h.fund("owner", n, "uastro");
        let now = num(&st["now"]);
        w.h.exec(
            "owner",
            &vest,
            &json!({"register_vesting_accounts": {"vesting_accounts": [{"address": inc, "schedules": [
                {"start_point": {"time": now - 1000, "amount": s(n)}, "end_point": null}]}]}}),
            &[coin(n, "uastro")],
        )?;
        let fee = amt(&st["fee"]);
        w.h.exec(
            "owner",
            &inc,
            &json!({"update_config": {"vesting_contract": vest,
                "guardian": if txt(&st["guardian"]).is_empty() { Value::Null } else { st["guardian"].clone() },
                "incentivization_fee_info": if fee == 0 { Value::Null } else {
                    json!({"fee_receiver": "feeman", "fee": {"denom": denom(&txt(&st["feeDenom"])), "amount": s(fee)}}) }}}),
            &[],
        )?;
        let f = w.factory.clone();
        let c = w.h.smart(&f, &json!({"config": {}}))?;
        let code = |k: &str| {
            c["pair_configs"].as_array().unwrap().iter().find(|x| x["pair_type"].get(k).is_some()).unwrap()["code_id"].as_u64().unwrap()
        };
        let codes = [code("xyk"), code("stable")];
        // a pair of the same coins that the factory does not know
        let rogue = w.h.store(pair());
        let rogue = w.h.inst(rogue, "alice", &json!({"asset_infos": infos[0].iter().map(|a| a.info()).collect::<Vec<_>>(), "token_code_id": 1,
            "factory_addr": f, "init_params": null, "pair_type": types[0]}), &[], None)?;
        let rogue = w.h.smart(&rogue, &json!({"pair": {}}))?["liquidity_token"].as_str().ok_or("no lp")?.to_string();
        let maker = lp[0].split('/').nth(1).ok_or("no pair in the denom")?.to_string();
        let rich: Vec<Value> = USERS.iter().map(|u| json!({"address": u, "amount": "1000000"})).collect();
        let twin = w.h.store(cw20());
        let twin = w.h.inst(twin, "alice", &json!({"name": "LP token", "symbol": "uLP", "decimals": 6, "initial_balances": rich, "mint": {"minter": maker}}), &[], None)?;
        let fakes: BTreeMap<&str, A> = [
            ("rogue", A::native(&rogue)), ("sub", A::native(&format!("factory/{maker}/other"))), ("person", A::native("factory/alice/astroport/share")),
            ("short", A::native(&format!("factory/{maker}"))), ("coin", A::native("uforeign")), ("twin", A::Token(twin)), ("cw20", tokens["silver"].clone())].into();
        for a in fakes.values() {
            if let A::Native(d) = a {
                for u in USERS {
                    w.h.fund(u, 1_000_000, d);
                }
            }
        }
        Ok(Incentives { w, inc, vest, lp, infos, tokens, types, codes, fakes })
    }

    fn addr(&self, who: &str) -> String {
        match who {
            "inc" => self.inc.to_string(),
            "vest" => self.vest.to_string(),
            x => x.to_string(),
        }
    }
    fn infos_of(&self, l: &Value) -> Vec<Value> {
        l.as_array().unwrap().iter().map(|t| self.tokens[txt(t).as_str()].info()).collect()
    }
    fn name(&self, info: &Value) -> String {
        self.tokens.iter().find(|(_, a)| a.info() == *info).map(|(n, _)| n.to_string()).unwrap_or(info.to_string())
    }

    fn exec(&mut self, st: &Value) -> R<()> {
        let m = &st["msg"];
        let v = &m["value"];
        let who = v["who"].as_str().unwrap_or("").to_string();
        let inc = self.inc.clone();
        let factory = self.w.factory.clone();
        let pool = v["pool"].as_str().map(|_| num(&v["pool"]) as usize).unwrap_or(0);
        let to_inc = |d: &mut Self, msg: Value, funds: &[Coin]| d.w.h.exec(&who, &inc, &msg, funds).map(|_| ());
        match m["tag"].as_str().unwrap() {
            "Setup" => {
                let l: Vec<Value> = v["pools"].as_array().unwrap().iter()
                    .map(|x| json!([self.lp[num(&x["pool"]) as usize], x["alloc"]])).collect();
                to_inc(self, json!({"setup_pools": {"pools": l}}), &[])
            }
            "SetTps" => to_inc(self, json!({"set_tokens_per_second": {"amount": v["amount"]}}), &[]),
            "Deposit" => {
                let r = if v["to"] == v["who"] { Value::Null } else { v["to"].clone() };
                let n = amt(&v["amount"]);
                let msg = json!({"deposit": {"recipient": r}});
                match v["how"].as_str().unwrap() {
                    "foreign" => to_inc(self, msg, &[coin(1, "uforeign")]),
                    "two" => to_inc(self, msg, &[coin(1, &self.lp[if pool == LEGACY { 0 } else { pool }].clone()), coin(1, "uforeign")]),
                    "hook" => to_inc(self, json!({"receive": {"sender": who, "amount": "1000", "msg": b64(&msg)}}), &[]),
                    _ if pool == LEGACY => {
                        let hook = if r.is_null() || n % 2 == 0 { msg } else { json!({"deposit_for": r}) };
                        let lp = Addr::unchecked(&self.lp[pool]);
                        self.w.h.exec(&who, &lp, &json!({"send": {"contract": inc, "amount": v["amount"], "msg": b64(&hook)}}), &[]).map(|_| ())
                    }
                    _ => to_inc(self, msg, &[coin(n, &self.lp[pool].clone())]),
                }
            }
            "Withdraw" => to_inc(self, json!({"withdraw": {"lp_token": self.lp[pool], "amount": v["amount"]}}), &[]),
            "Claim" => {
                let l: Vec<&String> = v["pools"].as_array().unwrap().iter().map(|i| &self.lp[num(i) as usize]).collect();
                to_inc(self, json!({"claim_rewards": {"lp_tokens": l}}), &[])
            }
            "Incentivize" => {
                let items = v["items"].as_array().unwrap();
                let l: Vec<Value> = items.iter()
                    .map(|f| json!([self.lp[num(&f["pool"]) as usize], {"reward": self.tokens[txt(&f["token"]).as_str()].asset(txt(&f["amount"])),
                        "duration_periods": num(&f["periods"])}]))
                    .collect();
                let msg = if l.len() == 1 {
                    json!({"incentivize": {"lp_token": l[0][0], "schedule": l[0][1]}})
                } else {
                    json!({ "incentivize_many": l })
                };
                // rewards and fees due, as the specification's toSend
                let mut due: BTreeMap<String, u128> = BTreeMap::new();
                let mode = txt(&v["funds"]);
                let fee = self.config()?["incentivization_fee_info"].clone();
                let mut seen = vec![];
                for t in TOKENS {
                    for f in items.iter().filter(|f| txt(&f["token"]) == t) {
                        let a = &self.tokens[t];
                        if let A::Native(d) = a {
                            *due.entry(d.clone()).or_default() += amt(&f["amount"]);
                        }
                        let key = (num(&f["pool"]), t);
                        let expected = self.w.h.smart(&self.inc, &json!({"is_fee_expected": {"lp_token": self.lp[key.0 as usize], "reward": a.id()}}))?;
                        if mode != "nofee" && !seen.contains(&key) && expected == json!(true) && !fee.is_null() {
                            *due.entry(fee["fee"]["denom"].as_str().unwrap().into()).or_default() += amt(&fee["fee"]["amount"]);
                        }
                        seen.push(key);
                    }
                }
                if mode == "short" || mode == "over" {
                    if let Some(n) = TOKENS.iter().filter_map(|t| match &self.tokens[t] { A::Native(d) => Some(d.clone()), _ => None })
                        .find(|d| due.get(d).copied().unwrap_or(0) > 0)
                    {
                        let e = due.get_mut(&n).unwrap();
                        *e = if mode == "short" { *e - 1 } else { *e + 1 };
                    }
                }
                if mode == "extra" {
                    due.insert("uforeign".into(), 1);
                }
                let funds: Vec<Coin> = due.iter().map(|(d, n)| coin(*n, d)).collect();
                to_inc(self, msg, &funds)
            }
            "Remove" => to_inc(
                self,
                json!({"remove_reward_from_pool": {"lp_token": self.lp[pool], "reward": self.tokens[txt(&v["token"]).as_str()].id(),
                    "bypass_upcoming_schedules": v["bypass"], "receiver": v["to"]}}),
                &[],
            ),
            "Orphans" => to_inc(self, json!({"claim_orphaned_rewards": {"limit": opt(&v["limit"], |n| json!(n as u64)), "receiver": v["to"]}}), &[]),
            "Block" => {
                let (a, r) = (self.infos_of(&v["add"]), self.infos_of(&v["remove"]));
                to_inc(self, json!({"update_blocked_tokenslist": {"add": a, "remove": r}}), &[])
            }
            "Deactivate" => to_inc(self, json!({"deactivate_pool": {"lp_token": self.lp[pool]}}), &[]),
            "Deregister" => {
                let infos: Vec<Value> = self.infos[pool].iter().map(|a| a.info()).collect();
                self.w.h.exec(&who, &factory, &json!({"deregister": {"asset_infos": infos}}), &[]).map(|_| ())
            }
            "DisableType" => {
                let k = yes(&v["stable"]) as usize;
                let mut c = pair_config(self.codes[k], &self.types[k], [30, 5][k], 0);
                c["is_generator_disabled"] = v["off"].clone();
                self.w.h.exec(&who, &factory, &json!({"update_pair_config": {"config": c}}), &[]).map(|_| ())
            }
            "DeactivateBlocked" => to_inc(self, json!({"deactivate_blocked_pools": {}}), &[]),
            "Config" => {
                let name = |x: &Value| if txt(x).is_empty() { Value::Null } else { x.clone() };
                let fee = opt(&v["fee"], |n| json!({"fee_receiver": "feeman", "fee": {"denom": denom(&txt(&v["feeDenom"])), "amount": s(n)}}));
                to_inc(
                    self,
                    json!({"update_config": {"generator_controller": name(&v["controller"]), "guardian": name(&v["guardian"]),
                        "astro_token": if txt(&v["astro"]).is_empty() { Value::Null } else { self.tokens[txt(&v["astro"]).as_str()].info() },
                        "incentivization_fee_info": fee, "token_transfer_gas_limit": opt(&v["gas"], |n| json!(n as u64))}}),
                    &[],
                )
            }
            "Wait" => {
                let b = self.w.h.app.block_info();
                self.w.h.set_block(b.time.seconds() + num(&v["seconds"]), b.height + 1);
                Ok(())
            }
            "Fake" => {
                let a = self.fakes[txt(&v["what"]).as_str()].clone();
                match v["how"].as_str().unwrap() {
                    "setup" => to_inc(self, json!({"setup_pools": {"pools": [[a.id(), "10"]]}}), &[]),
                    "withdraw" => to_inc(self, json!({"withdraw": {"lp_token": a.id(), "amount": "1"}}), &[]),
                    "claim" => to_inc(self, json!({"claim_rewards": {"lp_tokens": [a.id()]}}), &[]),
                    "deposit" => match &a {
                        A::Native(d) => to_inc(self, json!({"deposit": {"recipient": null}}), &[coin(1000, d)]),
                        A::Token(t) => self.w.h.exec(&who, t, &json!({"send": {"contract": inc, "amount": "1000", "msg": b64(&json!({"deposit": {"recipient": null}}))}}), &[]).map(|_| ()),
                    },
                    _ => {
                        let n = 10_000_000_000u128;
                        let c = self.config()?;
                        let fee = &c["incentivization_fee_info"];
                        let mut due: BTreeMap<String, u128> = BTreeMap::from([("ugold".to_string(), n)]);
                        if !fee.is_null() && c["astro_token"] != self.tokens["gold"].info() {
                            *due.entry(fee["fee"]["denom"].as_str().unwrap().into()).or_default() += amt(&fee["fee"]["amount"]);
                        }
                        let funds: Vec<Coin> = due.iter().map(|(d, n)| coin(*n, d)).collect();
                        to_inc(self, json!({"incentivize": {"lp_token": a.id(), "schedule": {"reward": self.tokens["gold"].asset(s(n)), "duration_periods": 1}}}), &funds)
                    }
                }
            }
            "Wrong" => {
                let what = txt(&v["what"]);
                let fee = |to: &str, d: &str| json!({"fee_receiver": to, "fee": {"denom": d, "amount": "7"}});
                let mut m = match what.as_str() {
                    "receiver" => json!({"incentivization_fee_info": fee("u", "ufee")}),
                    "astro" => json!({"astro_token": {"native_token": {"denom": "u!"}}}),
                    "guardian" => json!({"guardian": "u"}),
                    "vesting" => json!({"vesting_contract": "u"}),
                    "controller" => json!({"generator_controller": "u"}),
                    "owner" => json!({"owner": "u"}),
                    "factory" => json!({"factory": "u"}),
                    _ => json!({"incentivization_fee_info": fee("feeman", &super::denom(&v["coin"])), "guardian": "guard"}),
                };
                if !yes(&v["fresh"]) {
                    return to_inc(self, json!({"update_config": m}), &[]);
                }
                for (k, x) in [("owner", json!("owner")), ("factory", json!(factory)), ("vesting_contract", json!(self.vest)), ("astro_token", self.tokens["astro"].info())] {
                    m.as_object_mut().unwrap().entry(k).or_insert(x);
                }
                let code = self.w.h.store(incentives());
                let c = self.w.h.inst(code, "bob", &m, &[], None)?;
                m["astro_per_second"] = json!("0");
                m["total_alloc_points"] = json!("0");
                said(&self.w.h.smart(&c, &json!({"config": {}}))?, &m)?;
                said(&self.w.h.smart(&c, &json!({"active_pools": {}}))?, &json!([]))
            }
            "Upgrade" => self.w.h.upgrade(&self.inc.clone(), v, &json!({}), |_| {}),
            t => Err(format!("unknown message {t}")),
        }
    }
    fn lp_of(&self, who: &str, i: usize) -> u128 {
        let a = if i == LEGACY { A::Token(Addr::unchecked(&self.lp[i])) } else { A::native(&self.lp[i]) };
        self.w.h.balance(who, &a)
    }
    fn config(&self) -> R<Value> {
        self.w.h.smart(&self.inc, &json!({"config": {}}))
    }
    /// (protocol reward, external rewards by token)
    fn rewards(&self, l: &Value) -> (Value, Value) {
        let none = json!({"on": false, "rps": "0", "index": "0", "orphaned": "0", "next": "0"});
        let mut protocol = none.clone();
        let mut ext: serde_json::Map<String, Value> = TOKENS.iter().map(|t| (t.to_string(), none.clone())).collect();
        for r in l.as_array().unwrap() {
            let d = |k: &str| s(r[k].as_str().unwrap().parse::<cosmwasm_std::Decimal256>().unwrap().atomics());
            let mut v = json!({"on": true, "rps": d("rps"), "index": d("index"), "orphaned": d("orphaned"), "next": "0"});
            if let Some(x) = r["reward"].get("ext") {
                v["next"] = s(x["next_update_ts"].as_u64().unwrap());
                ext.insert(self.name(&x["info"]), v);
            } else {
                protocol = v;
            }
        }
        (protocol, Value::Object(ext))
    }
}

fn denom(t: &str) -> String {
    if t == "ufee" { t.into() } else { format!("u{t}") }
}

impl Driver for Incentives {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = Obs::new();
        let h = &self.w.h;
        let q = |m: Value| h.smart(&self.inc, &m);
        for t in TOKENS {
            let m: serde_json::Map<String, Value> =
                HOLDERS.iter().map(|a| (a.to_string(), s(h.balance(&self.addr(a), &self.tokens[t])))).collect();
            o.insert(format!("st.bal.{t}"), Value::Object(m));
        }
        let m: serde_json::Map<String, Value> = HOLDERS.iter().map(|a| (a.to_string(), s(h.bank(&self.addr(a), "ufee")))).collect();
        o.insert("st.bal.ufee".into(), Value::Object(m));
        for i in 0..3 {
            let lp = &self.lp[i];
            for u in USERS {
                o.insert(format!("st.pools.{i}.lp.{u}"), s(self.lp_of(u, i)));
                let d = q(json!({"deposit": {"lp_token": lp, "user": u}}))?;
                o.insert(format!("st.pools.{i}.pos.{u}.amount"), d);
            }
            o.insert(format!("st.pools.{i}.total"), s(self.lp_of(self.inc.as_str(), i)));
            match q(json!({"pool_info": {"lp_token": lp}})) {
                Ok(p) => {
                    o.insert(format!("st.pools.{i}.known"), json!(true));
                    if p["total_lp"] != s(self.lp_of(self.inc.as_str(), i)) {
                        o.insert(format!("st.pools.{i}.total"), json!(format!("recorded {} held {}", p["total_lp"], self.lp_of(self.inc.as_str(), i))));
                    }
                    o.insert(format!("st.pools.{i}.last"), s(p["last_update_ts"].as_u64().unwrap()));
                    let (protocol, ext) = self.rewards(&p["rewards"]);
                    o.insert(format!("st.pools.{i}.protocol"), protocol);
                    let coin = p["rewards"].as_array().unwrap().iter().find_map(|r| r["reward"].get("int")).map(|a| self.name(a));
                    o.insert(format!("st.pools.{i}.coin"), json!(coin.unwrap_or_default()));
                    o.insert(format!("st.pools.{i}.ext"), ext);
                }
                Err(_) => {
                    o.insert(format!("st.pools.{i}.known"), json!(false));
                }
            }
            if let Ok(l) = q(json!({"pool_stakers": {"lp_token": lp, "start_after": null, "limit": null}})) {
                for u in USERS {
                    let listed = l.as_array().unwrap().iter().find(|x| x[0] == u);
                    o.insert(format!("st.pools.{i}.pos.{u}.on"), json!(listed.is_some()));
                    if let Some(x) = listed {
                        o.insert(format!("st.pools.{i}.pos.{u}.amount"), x[1].clone());
                    }
                }
            }
        }
        let c = self.config()?;
        o.insert("st.tps".into(), c["astro_per_second"].clone());
        o.insert("probe.totalAlloc".into(), c["total_alloc_points"].clone());
        o.insert("st.controller".into(), json!(c["generator_controller"].as_str().unwrap_or("")));
        o.insert("st.guardian".into(), json!(c["guardian"].as_str().unwrap_or("")));
        o.insert("st.gas".into(), c["token_transfer_gas_limit"].as_u64().map(s).unwrap_or(s(-1)));
        o.insert("st.astro".into(), json!(self.name(&c["astro_token"])));
        o.insert("st.fee".into(), c["incentivization_fee_info"]["fee"]["amount"].as_str().map(s).unwrap_or(s(0)));
        let active = q(json!({"active_pools": {}}))?;
        let alloc: Vec<Value> = self.lp.iter()
            .map(|l| active.as_array().unwrap().iter().find(|x| x[0] == json!(l)).map(|x| x[1].clone()).unwrap_or(s(0))).collect();
        o.insert("probe.active".into(), json!(alloc));
        let l = q(json!({"blocked_tokens_list": {"start_after": null, "limit": null}}))?;
        let names: Vec<String> = l.as_array().unwrap().iter().map(|x| self.name(x)).collect();
        let m: serde_json::Map<String, Value> = self.tokens.keys().map(|t| (t.to_string(), json!(names.contains(&t.to_string())))).collect();
        o.insert("probe.blocked".into(), Value::Object(m));
        // probes
        let p = &st["probe"];
        let lp = &self.lp[num(&p["pool"]) as usize];
        let token = self.tokens[txt(&p["token"]).as_str()].id();
        match q(json!({"pending_rewards": {"lp_token": lp, "user": p["user"]}})) {
            Ok(l) => {
                let mut m: serde_json::Map<String, Value> = TOKENS.iter().map(|t| (t.to_string(), s(0))).collect();
                for a in l.as_array().unwrap() {
                    let e = m.entry(self.name(&a["info"])).or_insert(s(0));
                    *e = s(amt(e) + amt(&a["amount"]));
                }
                o.insert("probe.pending".into(), json!({"ok": true, "owed": m}));
            }
            Err(e) => {
                o.insert("probe.pending.ok".into(), if e.starts_with("panic") { s(e) } else { json!(false) });
            }
        }
        match q(json!({"reward_info": {"lp_token": lp}})) {
            Ok(l) => {
                let (protocol, ext) = self.rewards(&l);
                o.insert("probe.rewards".into(), json!({"known": true, "protocol": protocol, "ext": ext}));
            }
            Err(_) => {
                o.insert("probe.rewards.known".into(), json!(false));
            }
        }
        match q(json!({"external_reward_schedules": {"reward": token, "lp_token": lp, "start_after": null, "limit": null}})) {
            Ok(l) => {
                let v: Vec<Value> = l.as_array().unwrap().iter()
                    .map(|x| json!({"rps": s(x["rps"].as_str().unwrap().parse::<cosmwasm_std::Decimal256>().unwrap().atomics()),
                        "start": s(x["start_ts"].as_u64().unwrap()), "end": s(x["end_ts"].as_u64().unwrap())})).collect();
                o.insert("probe.schedules".into(), json!({"ok": true, "list": v}));
            }
            Err(_) => {
                o.insert("probe.schedules.ok".into(), json!(false));
            }
        }
        // a page of each list
        let (after, limit) = (int(&p["page"]["after"]), opt(&p["page"]["limit"], |n| json!(n as u64)));
        let behind = |l: &[Value]| -> Option<Value> {
            if after < 0 { Some(Value::Null) } else { l.get(after as usize).cloned() }
        };
        let list = |m: Value| q(m).map(|v| v.as_array().unwrap().clone()).unwrap_or_default();
        let all = list(json!({"pool_stakers": {"lp_token": lp, "start_after": null, "limit": null}}));
        let all: Vec<Value> = all.iter().map(|x| x[0].clone()).collect();
        let l = behind(&all).map(|a| list(json!({"pool_stakers": {"lp_token": lp, "start_after": a, "limit": limit}}))).unwrap_or_default();
        o.insert("probe.page.stakers".into(), l.iter().map(|x| x[0].clone()).collect());
        let all = list(json!({"list_pools": {"start_after": null, "limit": null}}));
        let l = behind(&all).map(|a| list(json!({"list_pools": {"start_after": a, "limit": limit}}))).unwrap_or_default();
        o.insert("probe.page.pools".into(), l.iter().map(|x| s(self.lp.iter().position(|y| json!(y) == *x).map(|i| i as i64).unwrap_or(-1))).collect());
        let blocked: Vec<Value> = ORDER.iter().filter(|t| names.contains(&t.to_string())).map(|t| self.tokens[t].info()).collect();
        let l = behind(&blocked).map(|a| list(json!({"blocked_tokens_list": {"start_after": a, "limit": limit}}))).unwrap_or_default();
        o.insert("probe.page.blocked".into(), l.iter().map(|x| json!(self.name(x))).collect());
        let schedules = |a: &Value, n: &Value| -> Vec<Value> {
            list(json!({"external_reward_schedules": {"reward": token, "lp_token": lp, "start_after": a, "limit": n}}))
                .iter().map(|x| s(x["end_ts"].as_u64().unwrap())).collect()
        };
        let all = schedules(&Value::Null, &Value::Null);
        let from = behind(&all).map(|a| a.as_str().map(|t| json!(t.parse::<u64>().unwrap())).unwrap_or(Value::Null));
        o.insert("probe.page.schedules".into(), from.map(|a| schedules(&a, &limit)).unwrap_or_default().into());
        o.insert("probe.feeExpected".into(), q(json!({"is_fee_expected": {"lp_token": lp, "reward": token}}))?);
        Ok(o)
    }
    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}
