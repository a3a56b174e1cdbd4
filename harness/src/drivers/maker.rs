//! spec/maker.qnt on astroport-maker with constant-product pairs of the real factory, whose fees go to the maker.
use super::pcl::atomics;
use super::xyk::said;
use super::world::*;
use super::*;
use crate::host::*;
use cosmwasm_std::Addr;
use serde_json::{json, Value};

pub struct Maker {
    w: World,
    m: Addr,
    code: u64,
    gov: Addr,
    a: Vec<A>,
    pairs: Vec<Addr>,
    /// a factory without pools
    empty: Addr,
}

const PAIRS: [[usize; 2]; 6] = [[0, 1], [1, 2], [2, 3], [0, 2], [3, 4], [4, 5]];
const NAMES: [&str; 6] = ["uastro", "uusd", "uosmo", "TOKEN", "uexotic", "FAROFF"];
const WHO: [&str; 13] =
    ["alice", "maker", "p0", "p1", "p2", "p3", "p4", "p5", "staking", "gov", "second", "dev", "seizer"];

impl Maker {
    pub fn new(init: &Value) -> Result<Maker, String> {
        let st = &init["st"];
        let ty = json!({"xyk": {}});
        let mut w = World::new(
            num(&st["now"]),
            num(&st["height"]),
            FactoryCfg {
                owner: "owner",
                fee_address: None,
                generator: false,
                pairs: vec![(ty.clone(), pair(), num(&st["fee"]), num(&st["mfee"]))],
            },
        )?;
        let mut a = vec![];
        for i in 0..6 {
            let native = st["kinds"][i] == "native";
            let mut bal: Vec<(&str, u128)> = vec![("alice", amt(&st["bal"][i]["alice"]))];
            let lp = (0..6).map(|k| amt(&st["bal"][i][format!("p{k}")])).sum();
            if lp > 0 {
                bal.push(("founder", lp));
            }
            a.push(w.token(if native { "native" } else { "cw20" }, NAMES[i], 6, &bal));
            if native {
                w.register_coin("owner", NAMES[i], 6);
            }
        }
        let mut pairs = vec![];
        for (k, p) in PAIRS.iter().enumerate() {
            let assets = [a[p[0]].clone(), a[p[1]].clone()];
            let (pair, _) = w.create_pair("alice", &ty, &assets, None)?;
            let d: Vec<u128> = p.iter().map(|i| amt(&st["bal"][*i][format!("p{k}")])).collect();
            let mut funds = vec![];
            for i in 0..2 {
                match &assets[i] {
                    A::Native(n) => funds.push(coin(d[i], n)),
                    A::Token(t) => w.h.allow("founder", t, pair.as_str()),
                }
            }
            funds.sort_by(|a, b| a.denom.cmp(&b.denom));
            w.h.exec("founder", &pair, &json!({"provide_liquidity": {"assets": [assets[0].asset(d[0]), assets[1].asset(d[1])]}}), &funds)?;
            pairs.push(pair);
        }
        let code = w.h.store(sink());
        let gov = w.h.inst(code, "bob", &json!({}), &[], None)?;
        let code = w.h.store(maker());
        let c = &st["cfg"];
        let m = w.h.inst(
            code,
            "bob",
            &json!({"owner": "owner", "factory_contract": w.factory, "astro_token": a[0].info(),
                "default_bridge": opt(&c["base"], |i| a[i as usize].info()),
                "staking_contract": if yes(&c["staking"]) { json!("staking") } else { Value::Null },
                "governance_contract": if yes(&c["gov"]) { json!(gov) } else { Value::Null },
                "governance_percent": s(num(&c["percent"])),
                "max_spread": s(dec(amt(&c["spread"]))),
                "second_receiver_params": if num(&c["cut"]) == 0 { Value::Null }
                    else { json!({"second_fee_receiver": "second", "second_receiver_cut": s(num(&c["cut"]))}) },
                "collect_cooldown": opt(&c["cooldown"], |x| json!(x))}),
            &[],
            Some("admin"),
        )?;
        let f = w.factory.clone();
        w.h.exec("owner", &f, &json!({"update_config": {"token_code_id": null, "fee_address": m,
            "generator_address": null, "whitelist_code_id": null, "coin_registry_address": null}}), &[])?;
        let fcode = w.h.store(crate::host::factory());
        let empty = w.h.inst(
            fcode,
            "bob",
            &json!({"pair_configs": [], "token_code_id": 1, "fee_address": null, "generator_address": null, "owner": "owner",
                "whitelist_code_id": 1, "coin_registry_address": "registry", "tracker_config": null}),
            &[],
            None,
        )?;
        Ok(Maker { w, m, code, gov, a, pairs, empty })
    }
    fn addr(&self, who: &str) -> String {
        match who {
            "maker" => self.m.to_string(),
            "gov" => self.gov.to_string(),
            p if p.len() == 2 && p.starts_with('p') => self.pairs[p[1..].parse::<usize>().unwrap()].to_string(),
            u => u.to_string(),
        }
    }
    fn info(&self, v: &Value) -> Value {
        self.a[num(v) as usize].info()
    }
    fn infos(&self, v: &Value) -> Value {
        v.as_array().unwrap().iter().map(|i| self.info(i)).collect()
    }
    fn wishes(&self, v: &Value) -> Value {
        v.as_array().unwrap().iter().map(|w| json!({"info": self.info(&w["i"]), "limit": opt(&w["limit"], s)})).collect()
    }
    fn settings(&self, change: Value) -> Value {
        let mut c = json!({"factory_contract": null, "staking_contract": null, "governance_contract": null, "governance_percent": null,
            "basic_asset": null, "max_spread": null, "second_receiver_params": null, "collect_cooldown": null, "astro_token": null,
            "dev_fund_config": null});
        for (k, v) in change.as_object().unwrap() {
            c[k] = v.clone();
        }
        json!({ "update_config": c })
    }
    fn exec(&mut self, st: &Value) -> R<()> {
        let t = &st["msg"];
        let v = &t["value"];
        let who = v["who"].as_str().unwrap_or("owner").to_string();
        let m = self.m.clone();
        let f = self.w.factory.clone();
        let msg = match t["tag"].as_str().unwrap() {
            "Wait" => {
                let (t, h) = (self.w.h.time(), self.w.h.height());
                self.w.h.set_block(t + num(&v["seconds"]), h + num(&v["blocks"]));
                return Ok(());
            }
            "Give" => {
                if num(&v["n"]) == 0 {
                    return Err("nothing".into());
                }
                let a = self.a[num(&v["i"]) as usize].clone();
                return self.w.h.transfer(&who, m.as_str(), &a, amt(&v["n"])).map(|_| ());
            }
            "Close" => {
                let p = PAIRS[num(&v["k"]) as usize];
                return self.w.h.exec("owner", &f, &json!({"deregister": {"asset_infos": [self.a[p[1]].info(), self.a[p[0]].info()]}}), &[]).map(|_| ());
            }
            "Fees" => {
                let mut cfg = self.w.h.smart(&f, &json!({"config": {}}))?["pair_configs"][0].clone();
                cfg["total_fee_bps"] = json!(num(&v["bps"]));
                cfg["maker_fee_bps"] = json!(num(&v["maker"]));
                return self.w.h.exec("owner", &f, &json!({"update_pair_config": {"config": cfg}}), &[]).map(|_| ());
            }
            "Collect" => json!({"collect": {"assets": self.wishes(&v["wishes"])}}),
            "Seize" => json!({"seize": {"assets": self.wishes(&v["wishes"])}}),
            "Internal" if v["kind"] == "distribute" => json!({"distribute_astro": {}}),
            "Internal" => json!({"swap_bridge_assets": {"assets": [self.info(&v["i"])], "depth": 0}}),
            "Staking" => self.settings(json!({"staking_contract": "staking"})),
            "Govern" => self.settings(json!({
                "governance_contract": if yes(&v["on"]) { json!({"set": self.gov}) } else { json!({"remove": {}}) },
                "governance_percent": opt(&v["percent"], s)})),
            "Second" => self.settings(json!({"second_receiver_params": {"second_fee_receiver": "second", "second_receiver_cut": s(num(&v["cut"]))}})),
            "Develop" => {
                let d = &v["dev"];
                let set = opt(&d["share"], |x| json!({"address": v["to"], "share": s(dec(x)), "asset_info": self.info(&d["asset"])}));
                self.settings(json!({"dev_fund_config": {"set": set}}))
            }
            "Limits" => self.settings(json!({"max_spread": opt(&v["spread"], |x| s(dec(x))), "collect_cooldown": opt(&v["cooldown"], |x| json!(x))})),
            "Together" => {
                let n = &v["new"];
                let factory = match txt(&n["factory"]).as_str() {
                    "" => Value::Null,
                    "main" => json!(f),
                    "empty" => json!(self.empty),
                    _ => json!("a/b"),
                };
                let d = &n["dev"];
                let dev = if n["to"] == "" {
                    Value::Null
                } else {
                    json!({"set": opt(&d["share"], |x| json!({"address": n["to"], "share": s(dec(x)), "asset_info": self.info(&d["asset"])}))})
                };
                let gov = match txt(&n["gov"]).as_str() {
                    "" => Value::Null,
                    "set" => json!({"set": self.gov}),
                    _ => json!({"remove": {}}),
                };
                self.settings(json!({
                    "factory_contract": factory,
                    "staking_contract": if yes(&n["staking"]) { json!("staking") } else { Value::Null },
                    "governance_contract": gov,
                    "governance_percent": opt(&n["percent"], s),
                    "basic_asset": opt(&n["base"], |i| self.a[i as usize].info()),
                    "max_spread": opt(&n["spread"], |x| s(dec(x))),
                    "second_receiver_params": opt(&n["cut"], |x| json!({"second_fee_receiver": "second", "second_receiver_cut": s(x)})),
                    "collect_cooldown": opt(&n["cooldown"], |x| json!(x)),
                    "astro_token": opt(&n["astro"], |i| self.a[i as usize].info()),
                    "dev_fund_config": dev,
                }))
            }
            "Default" => self.settings(json!({"basic_asset": self.info(&v["i"])})),
            "Astro" => self.settings(json!({"astro_token": self.info(&v["i"])})),
            "Bridges" => {
                let add: Vec<Value> = v["add"].as_array().unwrap().iter().map(|b| json!([self.info(&b["of"]), self.info(&b["via"])])).collect();
                json!({"update_bridges": {"add": add, "remove": self.infos(&v["remove"])}})
            }
            "Another" => {
                let staking = if yes(&v["staking"]) { json!("staking") } else { Value::Null };
                let gov = if yes(&v["gov"]) { json!(self.gov) } else { Value::Null };
                let m = json!({"owner": "owner", "factory_contract": f, "astro_token": self.a[0].info(),
                    "default_bridge": opt(&v["base"], |i| self.a[i as usize].info()),
                    "staking_contract": staking, "governance_contract": gov, "governance_percent": opt(&v["percent"], s),
                    "max_spread": opt(&v["spread"], |x| s(dec(x))),
                    "second_receiver_params": opt(&v["cut"], |n| json!({"second_fee_receiver": "second", "second_receiver_cut": s(n)})),
                    "collect_cooldown": opt(&v["cooldown"], |x| json!(x))});
                let code = self.code;
                let c = self.w.h.inst(code, "bob", &m, &[], None)?;
                let got = self.w.h.smart(&c, &json!({"config": {}}))?;
                let spread = if int(&v["spread"]) < 0 { 5 * 10u128.pow(16) } else { amt(&v["spread"]) };
                return said(&got, &json!({"owner": "owner", "factory_contract": f, "astro_token": m["astro_token"], "default_bridge": m["default_bridge"],
                    "staking_contract": m["staking_contract"], "governance_contract": m["governance_contract"],
                    "governance_percent": s(int(&v["percent"]).max(0)), "max_spread": s(dec(spread)),
                    "second_receiver_cfg": m["second_receiver_params"],
                    "remainder_reward": "0", "pre_upgrade_astro_amount": "0"}));
            }
            "Enable" => json!({"enable_rewards": {"blocks": num(&v["blocks"])}}),
            "Seizable" => json!({"update_seize_config": {"receiver": if v["to"] == "" { Value::Null } else { v["to"].clone() },
                "seizable_assets": self.infos(&v["list"])}}),
            "Upgrade" => {
                let was = txt(&v["was"]["version"]);
                let msg = json!({"collect_cooldown": opt(&v["cooldown"], |x| json!(x)),
                    "second_receiver_params": opt(&v["cut"], |n| json!({"second_fee_receiver": "second", "second_receiver_cut": s(n)}))});
                return self.w.h.upgrade(&m, &v["was"], &msg, |h| {
                    h.remove(&m, "seize_config");
                    if was != "1.6.0" {
                        h.adjust(&m, "config", |c| {
                            let c = c.as_object_mut().unwrap();
                            c.remove("dev_fund_conf");
                            if was == "1.2.0" {
                                c.remove("collect_cooldown");
                            }
                        });
                    }
                    if was == "1.2.0" {
                        h.remove(&m, "last_collect_ts");
                    }
                });
            }
            t => return Err(format!("unknown message {t}")),
        };
        self.w.h.exec(&who, &m, &msg, &[]).map(|_| ())
    }
}

impl Driver for Maker {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = Obs::new();
        let h = &self.w.h;
        for i in 0..6 {
            for who in WHO {
                o.insert(format!("st.bal.{i}.{who}"), s(h.balance(&self.addr(who), &self.a[i])));
            }
        }
        let index = |v: &Value| (0..6).find(|i| self.a[*i].info() == *v).map(|i| i as i64).unwrap_or(-1);
        let c = h.smart(&self.m, &json!({"config": {}}))?;
        for (k, name) in [("remainder", "remainder_reward"), ("pre", "pre_upgrade_astro_amount"), ("percent", "governance_percent")] {
            o.insert(format!("st.cfg.{k}"), c[name].clone());
        }
        o.insert("st.cfg.spread".into(), atomics(&c["max_spread"]));
        o.insert("st.cfg.base".into(), s(index(&c["default_bridge"])));
        o.insert("st.cfg.astro".into(), s(index(&c["astro_token"])));
        o.insert("st.cfg.main".into(), json!(c["factory_contract"] == json!(self.w.factory)));
        o.insert("st.cfg.staking".into(), json!(c["staking_contract"] == "staking"));
        o.insert("st.cfg.gov".into(), json!(c["governance_contract"] == json!(self.gov)));
        let cut = &c["second_receiver_cfg"];
        o.insert("st.cfg.cut".into(), if cut["second_fee_receiver"] == "second" { cut["second_receiver_cut"].clone() } else { s(0) });
        let dev = &c["dev_fund_conf"];
        o.insert("st.cfg.dev.share".into(), if dev["address"] == "dev" { atomics(&dev["share"]) } else { s(0) });
        o.insert("st.cfg.dev.asset".into(), if dev.is_null() { s(0) } else { s(index(&dev["asset_info"])) });
        // bridges: asset -> what it is traded for
        let b = h.smart(&self.m, &json!({"bridges": {}}))?;
        let mut via = vec![-1i64; 6];
        for e in b.as_array().unwrap() {
            let f = |v: &Value| (0..6).find(|i| self.a[*i].id() == v.as_str().unwrap_or_default());
            match (f(&e[0]), f(&e[1])) {
                (Some(x), Some(y)) => via[x] = y as i64,
                _ => return Err(format!("unknown bridge {e}")),
            }
        }
        for (i, x) in via.iter().enumerate() {
            o.insert(format!("st.via.{i}"), s(*x));
        }
        let z = h.smart(&self.m, &json!({"query_seize_config": {}}))?;
        o.insert("st.seizer".into(), z["receiver"].clone());
        let l = z["seizable_assets"].as_array().unwrap();
        let want = st["st"]["seizable"].as_array().unwrap();
        if l.len() != want.len() {
            o.insert("st.seizable".into(), json!(l.iter().map(|v| s(index(v))).collect::<Vec<_>>()));
        }
        for (k, v) in l.iter().enumerate().take(want.len()) {
            o.insert(format!("st.seizable.{k}"), s(index(v)));
        }
        let p = &st["probe"];
        let r = h.smart(&self.m, &json!({"balances": {"assets": self.infos(&p["assets"])}}))?;
        let r = r["balances"].as_array().unwrap();
        let mut next = 0;
        for (k, i) in p["assets"].as_array().unwrap().iter().enumerate() {
            // what the maker does not hold is left out
            let n = if next < r.len() && r[next]["info"] == self.info(i) {
                next += 1;
                let n = r[next - 1]["amount"].clone();
                if n == "0" { json!("listed as 0") } else { n }
            } else {
                s(0)
            };
            o.insert(format!("probe.held.{k}"), n);
        }
        if next != r.len() {
            o.insert("probe.held".into(), json!(r));
        }
        Ok(o)
    }
    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}
