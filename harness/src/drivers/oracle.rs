//! spec/oracle.qnt on astroport-oracle, looking at a real constant-product pair or at a stand-in that answers as told.
use super::world::*;
use super::*;
use crate::host::*;
use cosmwasm_std::{Addr, Binary, Deps, DepsMut, Env, MessageInfo, Response, StdError, StdResult};
use serde_json::{json, Value};

pub struct Oracle {
    w: World,
    pair: Addr,
    oracle: Addr,
    assets: Vec<A>,
    order: Vec<(usize, usize)>,
}

/// A pair that answers what it was told to.
fn stand_in() -> Box<dyn cw_multi_test::Contract<cosmwasm_std::Empty>> {
    fn instantiate(deps: DepsMut, _: Env, _: MessageInfo, msg: Value) -> StdResult<Response> {
        deps.storage.set(b"infos", msg["asset_infos"].to_string().as_bytes());
        deps.storage.set(b"answers", b"{}");
        Ok(Response::new())
    }
    fn execute(_: DepsMut, _: Env, _: MessageInfo, _: Value) -> StdResult<Response> {
        Err(StdError::generic_err("it only answers"))
    }
    fn query(deps: Deps, env: Env, msg: Value) -> StdResult<Binary> {
        let read = |k: &str| -> Value { serde_json::from_slice(&deps.storage.get(k.as_bytes()).unwrap()).unwrap() };
        let a = read("answers");
        let out = if msg.get("pair").is_some() {
            json!({"asset_infos": read("infos"), "contract_addr": env.contract.address, "liquidity_token": "factory/x/lp",
                "pair_type": {"custom": "standin"}})
        } else if msg.get("cumulative_prices").is_some() {
            json!({"assets": [], "total_share": "0", "cumulative_prices": a["cum"]})
        } else {
            let q = &msg["simulation"];
            let way = a["spot"].as_array().unwrap().iter().find(|w| w[0] == q["offer_asset"]["info"] && w[1] == q["ask_asset_info"]);
            let rate: u128 = way.ok_or(StdError::generic_err("no such way"))?[2].as_str().unwrap().parse().unwrap();
            let n: cosmwasm_std::Uint128 = q["offer_asset"]["amount"].as_str().unwrap().parse().unwrap();
            let r = n.checked_multiply_ratio(rate, 10u128.pow(18)).map_err(|e| StdError::generic_err(e.to_string()))?;
            json!({"return_amount": r, "spread_amount": "0", "commission_amount": "0"})
        };
        Ok(Binary(out.to_string().into_bytes()))
    }
    Box::new(cw_multi_test::ContractWrapper::new_with_empty(execute, instantiate, query))
}

impl Oracle {
    pub fn new(init: &Value) -> Result<Oracle, String> {
        let st = &init["st"];
        let real = yes(&st["real"]);
        let ty = if real { json!({"xyk": {}}) } else { json!({"custom": "standin"}) };
        let mut w = World::new(
            num(&st["now"]),
            num(&st["height"]),
            FactoryCfg {
                owner: "owner",
                fee_address: None,
                generator: false,
                pairs: vec![(ty.clone(), if real { pair() } else { stand_in() }, num(&st["fee"]), 0)],
            },
        )?;
        let mut assets = vec![];
        for i in 0..num(&st["n"]) as usize {
            let d = num(&st["decs"][i]) as u8;
            let name = ["ucoinzero", "ucoinone", "ucointwo"][i];
            assets.push(w.token(&txt(&st["kinds"][i]), name, d, &[("alice", 10u128.pow(30))]));
            if assets[i].is_native() {
                w.register_coin("owner", name, d);
            }
        }
        let (pair, _) = w.create_pair("alice", &ty, &assets, None)?;
        for a in &assets {
            if let A::Token(t) = a {
                w.h.allow("alice", t, pair.as_str());
            }
        }
        let order =
            st["order"].as_array().unwrap().iter().map(|x| (num(&x["a"]) as usize, num(&x["b"]) as usize)).collect();
        let mut o = Oracle { w, pair, oracle: Addr::unchecked("none"), assets, order };
        if real {
            // the accumulators may be about to wrap around
            o.w.h.adjust(&o.pair.clone(), "config", |c| {
                c["price0_cumulative_last"] = st["cum"][0].clone();
                c["price1_cumulative_last"] = st["cum"][1].clone();
            });
        } else {
            o.feed(&st["cum"], &st["spot"]);
        }
        let code = o.w.h.store(oracle());
        let mut infos: Vec<Value> = o.assets.iter().map(|a| a.info()).collect();
        if num(&st["fee"]) > 0 {
            infos.reverse(); // the order is of no importance
        }
        o.oracle = o.w.h.inst(code, "owner", &json!({"factory_contract": o.w.factory, "asset_infos": infos}), &[], Some("admin"))?;
        Ok(o)
    }
    fn feed(&mut self, cum: &Value, spot: &Value) {
        let way = |k: usize, v: &Value| json!([self.assets[self.order[k].0].info(), self.assets[self.order[k].1].info(), v]);
        let list = |l: &Value| -> Vec<Value> { l.as_array().unwrap().iter().enumerate().map(|(k, v)| way(k, v)).collect() };
        let v = json!({"cum": list(cum), "spot": list(spot)});
        self.w.h.poke(&self.pair, "answers", &v);
    }
    fn exec(&mut self, st: &Value) -> R<()> {
        let m = &st["msg"];
        let v = &m["value"];
        let pair = self.pair.clone();
        match m["tag"].as_str().unwrap() {
            "Fund" => {
                let d = [amt(&v["a0"]), amt(&v["a1"])];
                let funds: Vec<_> =
                    (0..2).filter_map(|i| if let A::Native(x) = &self.assets[i] { Some(coin(d[i], x)) } else { None }).collect();
                let assets: Vec<Value> = (0..2).map(|i| self.assets[i].asset(d[i])).collect();
                self.w.h.exec("alice", &pair, &json!({"provide_liquidity": {"assets": assets}}), &funds).map(|_| ())
            }
            "Trade" => {
                let a = self.assets[num(&v["i"]) as usize].clone();
                let n = amt(&v["n"]);
                let funds = if let A::Native(d) = &a { vec![coin(n, d)] } else { vec![] };
                swap_call(&mut self.w.h, "alice", &pair, &a, n, json!({"max_spread": "0.5"}), &funds)
            }
            "Feed" => {
                self.feed(&v["cum"], &v["spot"]);
                Ok(())
            }
            "Update" => {
                let o = self.oracle.clone();
                self.w.h.exec(&txt(&v["who"]), &o, &json!({"update": {}}), &[]).map(|_| ())
            }
            "Wait" => {
                let (t, b) = (self.w.h.time() + num(&v["seconds"]), self.w.h.height() + num(&v["blocks"]));
                self.w.h.set_block(t, b);
                Ok(())
            }
            "Upgrade" => {
                // the first release kept the two ways' prices apart, and no decimals
                let o = self.oracle.clone();
                let names: Vec<String> = self.assets.iter().map(|a| a.id()).collect();
                self.w.h.upgrade(&o.clone(), v, &json!({}), |h| {
                    let infos = h.peek(&o, "config")["asset_infos"].clone();
                    h.adjust(&o, "price_last", |p| {
                        let of = |l: &Value, a: usize| {
                            l.as_array().unwrap().iter().find(|x| x[0] == infos[a] && x[1] == infos[1 - a]).unwrap()[2].clone()
                        };
                        *p = json!({"price0_cumulative_last": of(&p["cumulative_prices"], 0), "price1_cumulative_last": of(&p["cumulative_prices"], 1),
                            "price_0_average": of(&p["average_prices"], 0), "price_1_average": of(&p["average_prices"], 1),
                            "block_timestamp_last": p["block_timestamp_last"]});
                    });
                    for n in &names {
                        h.forget(&o, "precisions", n);
                    }
                })
            }
            t => Err(format!("unknown message {t}")),
        }
    }
}

impl Driver for Oracle {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = Obs::new();
        if yes(&st["st"]["real"]) {
            for i in 0..2 {
                o.insert(format!("st.pool.{i}"), s(self.w.h.balance(self.pair.as_str(), &self.assets[i])));
            }
            let c = self.w.h.peek(&self.pair, "config");
            o.insert("st.cum.0".into(), c["price0_cumulative_last"].clone());
            o.insert("st.cum.1".into(), c["price1_cumulative_last"].clone());
        }
        let kept = self.w.h.peek(&self.oracle, "price_last");
        o.insert("st.o.at".into(), s(kept["block_timestamp_last"].as_u64().unwrap()));
        for (k, (a, b)) in self.order.iter().enumerate() {
            let of = |l: &Value| -> Result<Value, String> {
                l.as_array()
                    .and_then(|l| l.iter().find(|x| x[0] == self.assets[*a].info() && x[1] == self.assets[*b].info()))
                    .map(|x| x[2].clone())
                    .ok_or("a way is missing".to_string())
            };
            o.insert(format!("st.o.cum.{k}"), of(&kept["cumulative_prices"])?);
            let avg: cosmwasm_std::Decimal256 =
                of(&kept["average_prices"])?.as_str().unwrap().parse().map_err(|e| format!("{e}"))?;
            o.insert(format!("st.o.avg.{k}"), s(avg.atomics()));
        }
        let n = st["probe"]["amount"].clone();
        for (i, a) in self.assets.iter().enumerate() {
            let r = self.w.h.smart(&self.oracle, &json!({"consult": {"token": a.info(), "amount": n}}));
            let l = match r {
                Err(_) => vec![s(-1)],
                Ok(v) => {
                    // one answer per way, in the order of the pool's ways
                    let v = v.as_array().unwrap().clone();
                    let to: Vec<Value> =
                        self.order.iter().filter(|(x, _)| *x == i).map(|(_, b)| self.assets[*b].info()).collect();
                    if v.iter().map(|x| x[0].clone()).collect::<Vec<_>>() != to {
                        return Err(format!("other ways: {v:?}"));
                    }
                    v.iter().map(|x| x[1].clone()).collect()
                }
            };
            o.insert(format!("probe.worth.{i}"), Value::Array(l));
        }
        if self.w.h.smart(&self.oracle, &json!({"consult": {"token": A::native("uforeign").info(), "amount": n}})).is_ok() {
            return Err("a foreign coin has a price".into());
        }
        Ok(o)
    }
    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}
