//! spec/router.qnt on astroport-router with constant-product pairs of the real factory.
use super::world::*;
use super::*;
use crate::host::*;
use cosmwasm_std::Addr;
use serde_json::{json, Value};

pub struct Router {
    w: World,
    r: Addr,
    a: Vec<A>,
    pairs: Vec<Addr>,
    data: Option<String>,
}

const KINDS: [&str; 5] = ["native", "native", "cw20", "native", "cw20"];
const PAIRS: [[usize; 2]; 5] = [[0, 1], [1, 2], [2, 3], [0, 2], [3, 4]];
const USERS: [&str; 3] = ["alice", "bob", "carol"];

impl Router {
    pub fn new(init: &Value) -> Result<Router, String> {
        let st = &init["st"];
        let ty = json!({"xyk": {}});
        let mut w = World::new(
            1_600_000_000,
            100,
            FactoryCfg { owner: "owner", fee_address: None, generator: false, pairs: vec![(ty.clone(), pair(), num(&st["fee"]), 0)] },
        )?;
        let mut a = vec![];
        for i in 0..5 {
            let name = format!("ucoin{i}");
            let mut bal: Vec<(&str, u128)> = USERS.iter().map(|u| (*u, amt(&st["bal"][i][*u]))).collect();
            let lp = (0..5).map(|k| amt(&st["bal"][i][format!("p{k}")])).sum();
            if lp > 0 {
                bal.push(("founder", lp));
            }
            a.push(w.token(KINDS[i], if KINDS[i] == "native" { &name } else { "TOKEN" }, 6, &bal));
            if KINDS[i] == "native" {
                w.register_coin("owner", &name, 6);
            }
        }
        let mut pairs = vec![];
        for (k, p) in PAIRS.iter().enumerate() {
            let assets = [a[p[0]].clone(), a[p[1]].clone()];
            let (pair, _) = w.create_pair("alice", &ty, &assets, None)?;
            let d: Vec<u128> = p.iter().map(|i| amt(&st["bal"][*i][format!("p{k}")])).collect();
            if d[0] > 0 {
                let mut funds = vec![];
                for i in 0..2 {
                    match &assets[i] {
                        A::Native(n) => funds.push(coin(d[i], n)),
                        A::Token(t) => w.h.allow("founder", t, pair.as_str()),
                    }
                }
                w.h.exec("founder", &pair, &json!({"provide_liquidity": {"assets": [assets[0].asset(d[0]), assets[1].asset(d[1])]}}), &funds)?;
            }
            pairs.push(pair);
        }
        let code = w.h.store(router());
        let r = w.h.inst(code, "bob", &json!({"astroport_factory": w.factory}), &[], Some("admin"))?;
        Ok(Router { w, r, a, pairs, data: None })
    }
    fn addr(&self, who: &str) -> String {
        match who {
            "router" => self.r.to_string(),
            p if p.len() == 2 && p.starts_with('p') => self.pairs[p[1..].parse::<usize>().unwrap()].to_string(),
            u => u.to_string(),
        }
    }
    fn op(&self, op: &Value) -> Value {
        let (o, a) = (&self.a[num(&op["o"]) as usize], &self.a[num(&op["a"]) as usize]);
        if op["kind"] == "native" {
            json!({"native_swap": {"offer_denom": o.id(), "ask_denom": a.id()}})
        } else {
            json!({"astro_swap": {"offer_asset_info": o.info(), "ask_asset_info": a.info()}})
        }
    }
    fn ops(&self, v: &Value) -> Value {
        v.as_array().unwrap().iter().map(|o| self.op(o)).collect()
    }
    fn exec(&mut self, st: &Value) -> R<()> {
        self.data = None;
        let m = &st["msg"];
        let v = &m["value"];
        let who = v["who"].as_str().unwrap_or("owner").to_string();
        let r = self.r.clone();
        let body = |this: &Router, dest: Value| {
            json!({"execute_swap_operations": {"operations": this.ops(&v["ops"]), "minimum_receive": opt(&v["min"], s), "to": dest,
                "max_spread": opt(&v["spread"], |x| s(dec(x)))}})
        };
        let res = match m["tag"].as_str().unwrap() {
            "Route" => {
                let i = num(&v["i"]) as usize;
                let dest = if v["dest"] == v["who"] { Value::Null } else { json!(self.addr(&txt(&v["dest"]))) };
                let msg = body(self, dest);
                let n = amt(&v["n"]);
                if n == 0 {
                    return Err("nothing".into());
                }
                let mut funds = vec![];
                let x = amt(&v["extra"]);
                if x > 0 {
                    funds.push(coin(x, if i == 3 { "ucoin0" } else { "ucoin3" }));
                }
                match self.a[i].clone() {
                    A::Native(d) => {
                        funds.push(coin(n, &d));
                        funds.sort_by(|a, b| a.denom.cmp(&b.denom));
                        self.w.h.exec(&who, &r, &msg, &funds)
                    }
                    A::Token(t) => {
                        // cw20 messages reach the router through the token; whatever comes along goes there first
                        let total = self.w.h.balance(&who, &self.a[i]);
                        let denom = if i == 3 { "ucoin0" } else { "ucoin3" };
                        if n > 0 && total >= n && x > 0 && self.w.h.bank(&who, denom) >= x {
                            let to = r.to_string();
                            self.w.h.send(&who, &to, x, denom)?;
                            let res = self.w.h.exec(&who, &t, &json!({"send": {"contract": r, "amount": s(n), "msg": b64(&msg)}}), &[]);
                            if res.is_err() {
                                self.w.h.send(&to, &who, x, denom)?;
                            }
                            res
                        } else {
                            self.w.h.exec(&who, &t, &json!({"send": {"contract": r, "amount": s(n), "msg": b64(&msg)}}), &[])
                        }
                    }
                }
            }
            "Claimed" => {
                let dest = if v["dest"] == "" { Value::Null } else { json!(self.addr(&txt(&v["dest"]))) };
                let msg = body(self, dest);
                self.w.h.exec(&who, &r, &json!({"receive": {"sender": v["sender"], "amount": "1000000", "msg": b64(&msg)}}), &[])
            }
            "Single" => {
                let msg = json!({"execute_swap_operation": {"operation": self.op(&v["op"]), "to": v["dest"], "max_spread": "0.5", "single": true}});
                self.w.h.exec(&who, &r, &msg, &[])
            }
            "Give" => {
                let to = self.addr(&txt(&v["dest"]));
                let n = amt(&v["n"]);
                if n == 0 {
                    return Err("nothing".into());
                }
                let a = self.a[num(&v["i"]) as usize].clone();
                self.w.h.transfer(&who, &to, &a, n).map(|_| ())?;
                return Ok(());
            }
            "Close" => {
                let f = self.w.factory.clone();
                let p = PAIRS[num(&v["k"]) as usize];
                self.w.h.exec(&who, &f, &json!({"deregister": {"asset_infos": [self.a[p[1]].info(), self.a[p[0]].info()]}}), &[])
            }
            "Fee" => {
                let f = self.w.factory.clone();
                let mut cfg = self.w.h.smart(&f, &json!({"config": {}}))?["pair_configs"][0].clone();
                cfg["total_fee_bps"] = json!(num(&v["bps"]));
                self.w.h.exec("owner", &f, &json!({"update_pair_config": {"config": cfg}}), &[])
            }
            "Upgrade" => return self.w.h.upgrade(&r, v, &json!({}), |_| {}),
            t => return Err(format!("unknown message {t}")),
        }?;
        if let Some(d) = res.data {
            if let Ok(x) = serde_json::from_slice::<Value>(d.as_slice()) {
                self.data = x["return_amount"].as_str().map(String::from);
            }
        }
        Ok(())
    }
}

impl Driver for Router {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = Obs::new();
        for i in 0..5 {
            for who in ["alice", "bob", "carol", "router", "p0", "p1", "p2", "p3", "p4"] {
                o.insert(format!("st.bal.{i}.{who}"), s(self.w.h.balance(&self.addr(who), &self.a[i])));
            }
        }
        if self.w.h.smart(&self.r, &json!({"config": {}}))?["astroport_factory"] != json!(self.w.factory) {
            o.insert("st.bal.0.router".into(), json!("another factory"));
        }
        let p = &st["probe"];
        let ops = self.ops(&p["ops"]);
        let sim = self.w.h.smart(&self.r, &json!({"simulate_swap_operations": {"offer_amount": p["n"], "operations": ops}}));
        o.insert("probe.sim".into(), sim.map(|v| v["amount"].clone()).unwrap_or(s(-1)));
        let rev = self.w.h.smart(&self.r, &json!({"reverse_simulate_swap_operations": {"ask_amount": p["n"], "operations": ops}}));
        o.insert("probe.rev".into(), rev.unwrap_or(s(-1)));
        o.insert("probe.data".into(), self.data.clone().map(s).unwrap_or(s(-1)));
        Ok(o)
    }
    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}
