//! spec/factory.qnt on astroport-factory with real pairs, coin registry and incentives contract.
use super::*;
use crate::host::*;
use cosmwasm_std::{Addr, Coin};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Factory {
    h: Host,
    c: Addr,
    registry: Addr,
    inc: Addr,
    assets: Vec<Value>,
    names: Vec<String>,
    codes: BTreeMap<&'static str, u64>,
    tracker: u64,
    fcode: u64,
    /// pair number -> address, LP denom
    pairs: Vec<(String, String)>,
}

fn kind(k: &str) -> Value {
    match k {
        "xyk" => json!({"xyk": {}}),
        "stable" => json!({"stable": {}}),
        "trans" => json!({"custom": "transmuter"}),
        "extra" => json!({"custom": "concentrated"}),
        x => json!({ "custom": x }),
    }
}
fn kind_name(v: &Value) -> String {
    if v.get("xyk").is_some() {
        "xyk".into()
    } else if v.get("stable").is_some() {
        "stable".into()
    } else if v["custom"] == "transmuter" {
        "trans".into()
    } else if v["custom"] == "concentrated" {
        "extra".into()
    } else {
        txt(&v["custom"])
    }
}

impl Factory {
    pub fn new(init: &Value) -> Result<Factory, String> {
        let st = &init["st"];
        let mut h = Host::new(1_700_000_000, 100);
        let reg = h.store(coin_registry());
        let registry = h.inst(reg, "gov", &json!({"owner": "gov"}), &[], None)?;
        let t0 = h.new_cw20("AAA", 6, &[]);
        let t1 = h.new_cw20("BBB", 8, &[]);
        let native = ["uaa", "uaau", "uatom", "ubtc", "ueth", "uuu", "uuuu", "uva", "uvb", "uvc", "uvd", "uve", "uvf"];
        let coins: Vec<Value> = native.iter().map(|d| json!([d, 6])).collect();
        h.exec("gov", &registry, &json!({"add": {"native_coins": coins}}), &[])?;
        let mut assets = vec![A::Token(t0).info(), A::Token(t1).info(), A::native("factory/x/new").info(), A::Token(Addr::unchecked("nothing0")).info()];
        assets.extend(native.iter().map(|d| A::native(d).info()));
        let names = assets.iter().map(|a| a["token"]["contract_addr"].as_str().or(a["native_token"]["denom"].as_str()).unwrap().to_string()).collect::<Vec<_>>();
        assert!(names.windows(2).all(|w| w[0] < w[1]), "{names:?}");
        let codes = BTreeMap::from([
            ("pair", h.store(pair())),
            ("stable", h.store(pair_stable())),
            ("transmuter", h.store(pair_transmuter())),
            ("missing", 999),
        ]);
        let tracker = h.store(crate::host::tracker());
        let fcode = h.store(crate::host::factory());
        for w in ["owner", "alice", "bob", "maker", "carol"] {
            h.fund(w, 10u128.pow(12), "ufee");
        }
        let mut f = Factory { h, c: Addr::unchecked(""), registry, inc: Addr::unchecked(""), assets, names, codes, tracker, fcode, pairs: vec![] };
        let cfgs: Vec<Value> = st["kinds"].as_object().unwrap().iter().map(|(k, v)| f.kind_cfg(k, v)).collect();
        let t = &st["tracker"];
        let tc = if yes(&t["on"]) { json!({"code_id": f.tracker, "token_factory_addr": TF_MODULE}) } else { Value::Null };
        let fee = if txt(&st["cfg"]["fee"]).is_empty() { Value::Null } else { st["cfg"]["fee"].clone() };
        f.c = f.h.inst(
            f.fcode,
            "alice",
            &json!({"pair_configs": cfgs, "token_code_id": 1, "fee_address": fee, "generator_address": null, "owner": "owner",
                "whitelist_code_id": 1, "coin_registry_address": f.registry, "tracker_config": tc}),
            &[],
            Some("admin"),
        )?;
        let icode = f.h.store(incentives());
        f.inc = f.h.inst(
            icode,
            "gov",
            &json!({"owner": "gov", "factory": f.c, "astro_token": {"native_token": {"denom": "uastro"}}, "vesting_contract": "vesting",
                "incentivization_fee_info": null, "guardian": null}),
            &[],
            None,
        )?;
        if !txt(&st["cfg"]["generator"]).is_empty() {
            let (c, m) = (f.c.clone(), json!({"update_config": {"generator_address": f.inc}}));
            f.h.exec("owner", &c, &m, &[])?;
        }
        Ok(f)
    }
    fn kind_cfg(&self, k: &str, v: &Value) -> Value {
        json!({"code_id": self.codes[v["code"].as_str().unwrap()], "pair_type": kind(k), "total_fee_bps": num(&v["total"]), "maker_fee_bps": num(&v["maker"]),
            "is_disabled": v["disabled"], "is_generator_disabled": v["genOff"], "permissioned": v["permissioned"]})
    }
    fn infos(&self, l: &Value) -> Vec<Value> {
        l.as_array()
            .unwrap()
            .iter()
            .map(|i| self.assets.get(num(i) as usize).cloned().unwrap_or(json!({"native_token": {"denom": "1x"}})))
            .collect()
    }
    fn index(&self, info: &Value) -> Value {
        s(self.assets.iter().position(|a| a == info).map(|i| i as i64).unwrap_or(-1))
    }
    fn number(&self, addr: &Value) -> Value {
        s(self.pairs.iter().position(|p| addr == &json!(p.0)).map(|i| i as i64).unwrap_or(-7))
    }
    fn exec(&mut self, st: &Value) -> R<()> {
        let v = &st["msg"]["value"];
        let who = || txt(&v["who"]);
        let c = self.c.clone();
        // "" is not given; names of contracts are theirs
        let named = |f: &Self, x: &Value| match x.as_str().unwrap() {
            "" => Value::Null,
            "incentives" => json!(f.inc),
            "registry" => json!(f.registry),
            "bad" => json!("Not/An/Address"),
            "tf" => json!(TF_MODULE),
            x => json!(x),
        };
        match st["msg"]["tag"].as_str().unwrap() {
            "CreatePair" => {
                let params = match v["params"].as_str().unwrap() {
                    "none" => Value::Null,
                    "empty" => json!(""),
                    "amp" => json!(b64(&json!({"amp": 100, "owner": null}))),
                    "amp0" => json!(b64(&json!({"amp": 0, "owner": null}))),
                    "track" => json!(b64(&json!({"track_asset_balances": true}))),
                    "notrack" => json!(b64(&json!({"track_asset_balances": false}))),
                    _ => json!(b64(&json!("junk"))),
                };
                let fee = amt(&v["fee"]);
                let funds: Vec<Coin> = if fee > 0 { vec![coin(fee, "ufee")] } else { vec![] };
                let m = json!({"create_pair": {"pair_type": kind(v["kind"].as_str().unwrap()), "asset_infos": self.infos(&v["assets"]), "init_params": params}});
                let r = self.h.exec(&who(), &c, &m, &funds)?;
                let addr = r
                    .events
                    .iter()
                    .flat_map(|e| &e.attributes)
                    .find(|a| a.key == "pair_contract_addr")
                    .map(|a| a.value.clone())
                    .ok_or("no pair_contract_addr attribute")?;
                let info = self.h.smart(&Addr::unchecked(&addr), &json!({"pair": {}}))?;
                self.pairs.push((addr, txt(&info["liquidity_token"])));
                Ok(())
            }
            "Deregister" => {
                let m = json!({"deregister": {"asset_infos": self.infos(&v["assets"])}});
                self.h.exec(&who(), &c, &m, &[]).map(|_| ())
            }
            "UpdateKind" => {
                let m = json!({"update_pair_config": {"config": self.kind_cfg(v["kind"].as_str().unwrap(), &v["cfg"])}});
                self.h.exec(&who(), &c, &m, &[]).map(|_| ())
            }
            "UpdateConfig" => {
                let m = json!({"update_config": {"token_code_id": opt(&v["token"], |n| json!(n as u64)), "fee_address": named(self, &v["fee"]),
                    "generator_address": named(self, &v["generator"]), "whitelist_code_id": opt(&v["whitelist"], |n| json!(n as u64)),
                    "coin_registry_address": named(self, &v["registry"])}});
                self.h.exec(&who(), &c, &m, &[]).map(|_| ())
            }
            "UpdateTracker" => {
                let code = if yes(&v["good"]) { self.tracker } else { 998 };
                let m = json!({"update_tracker_config": {"tracker_code_id": code, "token_factory_addr": named(self, &v["tf"])}});
                self.h.exec(&who(), &c, &m, &[]).map(|_| ())
            }
            "Handover" => {
                self.h.exec(&who(), &c, &json!({"propose_new_owner": {"owner": v["next"], "expires_in": 100}}), &[])?;
                self.h.exec(&txt(&v["next"]), &c, &json!({"claim_ownership": {}}), &[]).map(|_| ())
            }
            "Reward" => {
                let l: Vec<Value> = v["pairs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|n| json!([self.pairs.get(num(n) as usize).map(|p| p.1.clone()).unwrap_or("factory/none/lp".into()), "100"]))
                    .collect();
                let inc = self.inc.clone();
                self.h.exec("gov", &inc, &json!({"setup_pools": {"pools": l}}), &[]).map(|_| ())
            }
            "Another" => {
                let cfgs: Vec<Value> = v["kinds"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|k| json!({"code_id": 1, "pair_type": kind(k.as_str().unwrap()), "total_fee_bps": num(&v["total"]), "maker_fee_bps": num(&v["maker"]), "is_disabled": v["off"], "is_generator_disabled": v["off"]}))
                    .collect();
                let tc = if txt(&v["tf"]).is_empty() { Value::Null } else { json!({"code_id": 1, "token_factory_addr": named(self, &v["tf"])}) };
                let m = json!({"pair_configs": cfgs, "token_code_id": 1, "fee_address": null, "generator_address": null, "owner": named(self, &v["owner"]),
                    "whitelist_code_id": 1, "coin_registry_address": self.registry, "tracker_config": tc});
                let new = self.h.inst(self.fcode, "alice", &m, &[], None)?;
                let got = self.h.smart(&new, &json!({"config": {}}))?;
                let kinds = got["pair_configs"].as_array().unwrap();
                let same = cfgs.iter().all(|c| kinds.iter().any(|k| c.as_object().unwrap().iter().all(|(f, v)| k[f] == *v) && k["permissioned"] == false));
                let tracked = self.h.smart(&new, &json!({"tracker_config": {}})).is_ok();
                if got["owner"] != m["owner"] || !got["fee_address"].is_null() || !got["generator_address"].is_null() || got["token_code_id"] != 1
                    || got["whitelist_code_id"] != 1 || got["coin_registry_address"] != m["coin_registry_address"] || kinds.len() != cfgs.len() || !same
                    || tracked == m["tracker_config"].is_null()
                {
                    return Err(format!("not the factory asked for: {got}"));
                }
                Ok(())
            }
            "Upgrade" => {
                let t = &v["tracker"];
                let cfg = json!({"code_id": if yes(&t["good"]) { self.tracker } else { 998 }, "token_factory_addr": named(self, &t["tf"])});
                let old = ["1.3.1", "1.5.1", "1.6.0"].contains(&v["was"]["version"].as_str().unwrap());
                self.h.upgrade(&c, &v["was"], &json!({"tracker_config": if yes(&t["on"]) { cfg } else { Value::Null }}), |h| {
                    if !old {
                        return;
                    }
                    // no tracker, no permissions; concentrated pools were a kind of their own
                    h.remove(&c, "tracker_config");
                    for (key, mut e) in h.entries(&c, "pair_configs") {
                        e.as_object_mut().unwrap().remove("permissioned");
                        if key == "custom-concentrated" {
                            h.forget(&c, "pair_configs", &key);
                            e["pair_type"] = json!({"concentrated": {}});
                        }
                        h.place(&c, "pair_configs", if key == "custom-concentrated" { "concentrated" } else { &key }, &e);
                    }
                })
            }
            t => Err(format!("unknown message {t}")),
        }
    }
}

impl Driver for Factory {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = Obs::new();
        let c = self.c.clone();
        let cfg = self.h.smart(&c, &json!({"config": {}}))?;
        let name = |v: &Value| match v.as_str() {
            None => json!(""),
            Some(x) if x == self.inc.as_str() => json!("incentives"),
            Some(x) if x == self.registry.as_str() => json!("registry"),
            Some(x) if x == TF_MODULE => json!("tf"),
            Some(x) if x.contains('/') => json!("bad"),
            Some(x) => json!(x),
        };
        for (k, f) in [("owner", "owner"), ("fee", "fee_address"), ("generator", "generator_address"), ("registry", "coin_registry_address")] {
            o.insert(format!("st.cfg.{k}"), name(&cfg[f]));
        }
        o.insert("st.cfg.token".into(), s(&cfg["token_code_id"]));
        o.insert("st.cfg.whitelist".into(), s(&cfg["whitelist_code_id"]));
        let mut kinds = Obs::new();
        for p in cfg["pair_configs"].as_array().unwrap() {
            let code = self.codes.iter().find(|(_, v)| p["code_id"] == json!(v)).map(|(k, _)| *k).unwrap_or("?");
            kinds.insert(
                kind_name(&p["pair_type"]),
                json!({"code": code, "total": s(&p["total_fee_bps"]), "maker": s(&p["maker_fee_bps"]), "disabled": p["is_disabled"],
                    "genOff": p["is_generator_disabled"], "permissioned": p["permissioned"]}),
            );
        }
        // (the same kinds, no more and no fewer)
        let want: Vec<&String> = st["st"]["kinds"].as_object().unwrap().keys().collect();
        if kinds.keys().collect::<Vec<_>>() != want {
            o.insert("st.kinds".into(), json!(kinds.keys().collect::<Vec<_>>()));
        } else {
            o.insert("st.kinds".into(), Value::Object(kinds));
        }
        let t = self.h.smart(&c, &json!({"tracker_config": {}}));
        o.insert("st.tracker.on".into(), json!(t.is_ok()));
        if let Ok(t) = t {
            o.insert("st.tracker.good".into(), json!(t["code_id"] == json!(self.tracker)));
            o.insert("st.tracker.tf".into(), name(&t["token_factory_addr"]));
        }

        // every page of the registry
        let mut pairs = vec![];
        let mut after = Value::Null;
        loop {
            let page = self.h.smart(&c, &json!({"pairs": {"start_after": after, "limit": 30}}))?;
            let l = page["pairs"].as_array().unwrap().clone();
            if l.is_empty() || pairs.len() > 100 {
                break;
            }
            after = l.last().unwrap()["asset_infos"].clone();
            pairs.extend(l);
        }
        let listed: Vec<Value> = pairs
            .iter()
            .map(|p| {
                let addr = txt(&p["contract_addr"]);
                let idx: Vec<Value> = p["asset_infos"].as_array().unwrap().iter().map(|i| self.index(i)).collect();
                let mut key = idx.clone();
                key.sort_by_key(|v| int(v));
                let admin = self.h.app.wrap().query_wasm_contract_info(&addr).ok().and_then(|i| i.admin).unwrap_or_default();
                json!({"n": self.number(&p["contract_addr"]), "assets": idx, "key": key, "kind": kind_name(&p["pair_type"]), "admin": admin,
                    "fee": s(self.h.bank(&addr, "ufee"))})
            })
            .collect();
        o.insert("st.pairs".into(), Value::Array(listed));
        let act = self.h.smart(&self.inc, &json!({"active_pools": {}}))?;
        let mut nums: Vec<i64> = act
            .as_array()
            .unwrap()
            .iter()
            .map(|p| self.pairs.iter().position(|q| p[0] == json!(q.1)).map(|i| i as i64).unwrap_or(-7))
            .collect();
        nums.sort();
        let mut want: Vec<i64> = st["st"]["active"].as_array().unwrap().iter().map(|x| int(x) as i64).collect();
        want.sort();
        let seen = if nums == want { st["st"]["active"].clone() } else { json!(nums) };
        o.insert("st.active".into(), seen);

        let p = &st["probe"];
        let q = self.h.smart(&c, &json!({"pair": {"asset_infos": self.infos(&p["assets"])}}));
        o.insert("probe.found".into(), q.map(|v| self.number(&v["contract_addr"])).unwrap_or(s(-1)));
        let after = if p["after"].as_array().unwrap().is_empty() { Value::Null } else { json!(self.infos(&p["after"])) };
        let q = self.h.smart(&c, &json!({"pairs": {"start_after": after, "limit": opt(&p["limit"], |n| json!(n as u32))}}))?;
        o.insert("probe.page".into(), q["pairs"].as_array().unwrap().iter().map(|v| self.number(&v["contract_addr"])).collect());
        let q = self.h.smart(&c, &json!({"fee_info": {"pair_type": kind(p["kind"].as_str().unwrap())}}));
        o.insert(
            "probe.fee".into(),
            match q {
                Ok(f) => json!({"who": name(&f["fee_address"]), "total": s(&f["total_fee_bps"]), "maker": s(&f["maker_fee_bps"])}),
                Err(_) => json!({"who": "none", "total": "-1", "maker": "-1"}),
            },
        );
        let q = self.h.smart(&c, &json!({"blacklisted_pair_types": {}}))?;
        let mut got: Vec<String> = q.as_array().unwrap().iter().map(kind_name).collect();
        got.sort();
        let mut want: Vec<String> = p["blocked"].as_array().unwrap().iter().map(txt).collect();
        want.sort();
        o.insert("probe.blocked".into(), if got == want { p["blocked"].clone() } else { json!(got) });
        Ok(o)
    }

    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}
