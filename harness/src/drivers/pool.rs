//! What the two-asset pool drivers share: the pool in its surroundings, the common messages and observations.
use super::world::*;
use super::*;
use crate::host::*;
use cosmwasm_std::{Addr, Coin};
use serde_json::{json, Value};

pub struct Pool {
    pub w: World,
    pub pair: Addr,
    pub lp: String,
    pub a: [A; 2],
    pub ty: Value,
    pub accounts: &'static [&'static str],
    init: Option<Value>,
    /// the tracker of LP tokens
    tracker: Option<Addr>,
    /// leave assets out of a deposit that it has none of
    pub omit_zero: bool,
}

pub const USERS: [&str; 3] = ["alice", "bob", "carol"];

impl Pool {
    /// Tokens, factory and pair; `init` gets the assets.
    pub fn new(
        st: &Value,
        ty: Value,
        code: Box<dyn cw_multi_test::Contract<cosmwasm_std::Empty>>,
        decimals: [u8; 2],
        accounts: &'static [&'static str],
        init: impl Fn(&[A]) -> Option<Value>,
    ) -> Result<Pool, String> {
        let mut w = World::new(
            num(&st["now"]),
            num(&st["height"]),
            FactoryCfg {
                owner: "owner",
                fee_address: yes(&st["maker"]).then_some("maker"),
                generator: yes(&st["generator"]),
                pairs: vec![(ty.clone(), code, num(&st["totalFee"]), num(&st["makerFee"]))],
            },
        )?;
        let mut assets = vec![];
        for i in 0..2 {
            let bal: Vec<(String, u128)> =
                USERS.iter().map(|u| (u.to_string(), amt(&st["bal"][i][*u]))).collect();
            let refs: Vec<(&str, u128)> = bal.iter().map(|(u, n)| (u.as_str(), *n)).collect();
            let name = ["ucoinzero", "ucoinone"][i];
            assets.push(w.token(&txt(&st["kinds"][i]), name, decimals[i], &refs));
            if assets[i].is_native() {
                w.register_coin("owner", name, decimals[i]);
            }
        }
        for u in USERS {
            w.h.fund(u, 1_000_000, "uforeign");
        }
        let init = init(&assets);
        let (pair, lp) = w.create_pair("alice", &ty, &assets, init.clone())?;
        for u in USERS {
            for a in &assets {
                if let A::Token(t) = a {
                    w.h.allow(u, t, pair.as_str());
                }
            }
        }
        // a shorter memory of trade prices than the usual 3000, so that it fills up
        if st["series"]["cap"].is_string() && st["series"]["cap"] != "3000" {
            w.h.poke(&pair, "observations_state", &json!({"capacity": num(&st["series"]["cap"]), "head": 0}));
        }
        // accumulators that may be about to wrap around
        let cum = &st["cum"];
        if cum[0] != "0" || cum[1] != "0" {
            w.h.adjust(&pair, "config", |c| {
                if c["cumulative_prices"].is_array() {
                    c["cumulative_prices"][0][2] = cum[0].clone();
                    c["cumulative_prices"][1][2] = cum[1].clone();
                } else {
                    c["price0_cumulative_last"] = cum[0].clone();
                    c["price1_cumulative_last"] = cum[1].clone();
                }
            });
        }
        let a = [assets[0].clone(), assets[1].clone()];
        let c = w.h.smart(&pair, &json!({"config": {}}))?;
        let tracker = c["tracker_addr"].as_str().map(Addr::unchecked);
        Ok(Pool { w, pair, lp, a, ty, accounts, init, tracker, omit_zero: false })
    }

    pub fn addr(&self, who: &str) -> String {
        if who == "pair" {
            self.pair.to_string()
        } else {
            who.to_string()
        }
    }

    pub fn funds(&self, amounts: [u128; 2], mode: &str) -> Vec<Coin> {
        let natives: Vec<usize> = (0..2).filter(|i| matches!(self.a[*i], A::Native(_))).collect();
        let mut sent = amounts;
        if mode == "mismatch" && !natives.is_empty() {
            // coins not as declared: one of them short or over by one, by half, twice, missing; all missing; one for the other
            let h = amounts[0] % 1009 + amounts[1] % 997;
            let i = natives[h as usize % natives.len()];
            let n = amounts[i];
            match h / 2 % 7 {
                0 => sent[i] = n.saturating_sub(1),
                1 => sent[i] = n + 1,
                2 => sent[i] = 0,
                3 => sent[i] = n * 2,
                4 => natives.iter().for_each(|k| sent[*k] = 0),
                5 => sent[i] = n / 2,
                _ if natives.len() == 2 => sent.reverse(),
                _ => sent[i] = 0,
            }
            if natives.iter().all(|k| sent[*k] == amounts[*k]) {
                sent[i] = n + 1;
            }
        }
        let mut f: Vec<Coin> = natives.iter().map(|i| coin(sent[*i], &self.a[*i].id())).collect();
        if mode == "foreign" {
            f.push(coin(1, "uforeign"));
        }
        f
    }

    /// Who receives: not named if it is the sender.
    fn payee(&self, v: &Value) -> Value {
        if v["to"] == v["who"] { Value::Null } else { json!(self.addr(&txt(&v["to"]))) }
    }

    /// The messages all pools have; None: not one of them.
    pub fn exec(&mut self, st: &Value) -> Option<R<()>> {
        let m = &st["msg"];
        let v = &m["value"];
        let pair = self.pair.clone();
        Some(match m["tag"].as_str().unwrap() {
            "Provide" => {
                let d = [amt(&v["a0"]), amt(&v["a1"])];
                let mut assets = vec![self.a[0].asset(d[0]), self.a[1].asset(d[1])];
                if d[0] % 2 == 1 {
                    assets.reverse(); // the order of the assets is the caller's choice
                }
                let funds = self.funds(d, &txt(&v["funds"]));
                if self.omit_zero && (d[0] + d[1]) % 3 > 0 {
                    assets.retain(|a| a["amount"] != "0");
                }
                let mut funds = funds;
                if txt(&v["funds"]) == "malformed" {
                    let [a, b] = &self.a;
                    let foreign = A::native("uforeign");
                    // one asset twice (its coins sent once, or twice as many), another's in its place, three, a token's name as a coin
                    let (list, amounts) = match d[1] % 6 {
                        0 => (vec![a.asset(d[0]), a.asset(d[0])], [d[0], 0]),
                        1 => (vec![b.asset(d[1]), b.asset(d[1])], [0, d[1] * 2]),
                        2 => (vec![a.asset(d[0]), foreign.asset(7)], [d[0], 0]),
                        3 => (vec![a.asset(d[0]), b.asset(d[1]), foreign.asset(7)], d),
                        4 => (vec![], d),
                        _ => (vec![A::native(&a.id()).asset(d[0]), A::Token(Addr::unchecked(b.id())).asset(d[1])], d),
                    };
                    // (a list that happens to be right is none of these)
                    let right = self.a[0].is_native() && !self.a[1].is_native();
                    assets = if d[1] % 6 == 5 && right { vec![] } else { list };
                    funds = self.funds(amounts, if d[1] % 6 == 2 || d[1] % 6 == 3 { "foreign" } else { "exact" });
                    if let Some(c) = funds.iter_mut().find(|c| c.denom == "uforeign") {
                        c.amount = 7u128.into();
                    }
                }
                let msg = json!({"provide_liquidity": {"assets": assets, "slippage_tolerance": if v["slip"].is_null() { Value::Null } else { opt(&v["slip"], |x| s(dec(x))) },
                    "auto_stake": if yes(&v["stake"]) { json!(true) } else if d[1] % 2 == 1 { json!(false) } else { Value::Null },
                    "receiver": self.payee(v),
                    "min_lp_to_receive": opt(&v["minLp"], s)}});
                self.w.h.exec(&txt(&v["who"]), &pair, &msg, &funds).map(|_| ())
            }
            "Withdraw" => {
                let (n0, n1) = (amt(&v["min0"]), amt(&v["min1"]));
                let min = match txt(&v["minKind"]).as_str() {
                    "none" => Value::Null,
                    "both" => json!([self.a[0].asset(n0), self.a[1].asset(n1)]),
                    "swapped" => json!([self.a[1].asset(n1), self.a[0].asset(n0)]),
                    "one" => json!([self.a[0].asset(n0)]),
                    _ => json!([self.a[0].asset(n0), A::native("uforeign").asset(0)]),
                };
                let kind = txt(&v["funds"]);
                let assets = if kind == "imbalanced" { json!([self.a[0].asset(1)]) } else { json!([]) };
                let funds = if kind == "foreign" {
                    match &self.a[0] {
                        A::Native(d) => vec![coin(1, d)],
                        _ => vec![coin(1, "uforeign")],
                    }
                } else {
                    vec![coin(amt(&v["lp"]), &self.lp)]
                };
                let mut funds = funds;
                if kind == "extra" {
                    funds.push(coin(1, "uforeign"));
                }
                let msg = json!({"withdraw_liquidity": {"assets": assets, "min_assets_to_receive": min}});
                self.w.h.exec(&txt(&v["who"]), &pair, &msg, &funds).map(|_| ())
            }
            "Swap" => {
                let i = num(&v["i"]) as usize;
                let n = amt(&v["amount"]);
                let who = txt(&v["who"]);
                let mode = txt(&v["funds"]);
                let mut offer = self.a[i].clone();
                let mut funds = vec![];
                if mode == "foreign" {
                    if n % 2 == 0 {
                        // a coin, or a hook call, that is not from one of the pool's tokens
                        offer = A::native("uforeign");
                        funds = vec![coin(n.min(1_000_000).max(1), "uforeign")];
                        let body = json!({"belief_price": null, "max_spread": "0.5", "to": null});
                        return Some(swap_call(&mut self.w.h, &who, &pair, &offer, n.min(1_000_000).max(1), body, &funds));
                    }
                    let hook = json!({"receive": {"sender": who, "amount": n.to_string(),
                        "msg": b64(&json!({"swap": {"max_spread": "0.5"}}))}});
                    return Some(self.w.h.exec(&who, &pair, &hook, &[]).map(|_| ()));
                }
                if mode == "extra" {
                    // another coin besides the offer, or coins for a cw20 offer
                    let f = [A::native("uforeign"), offer.clone()].iter().filter_map(|a| if let A::Native(d) = a { Some(coin(if d == "uforeign" { 1 } else { n }, d)) } else { None }).collect::<Vec<_>>();
                    let m = json!({"swap": {"offer_asset": offer.asset(n), "max_spread": "0.5"}});
                    return Some(self.w.h.exec(&who, &pair, &m, &f).map(|_| ()));
                }
                let body = json!({"belief_price": opt(&v["belief"], |x| s(dec(x))),
                    // the other asset may be named
                    "ask_asset_info": if n % 3 == 0 { self.a[1 - i].info() } else { Value::Null },
                    "max_spread": opt(&v["spread"], |x| s(dec(x))),
                    "to": self.payee(v)});
                if let A::Native(d) = &offer {
                    // coins not as declared: over or short by one, none, one, the other asset's
                    let (sent, d) = match (mode == "mismatch", n % 5, &self.a[1 - i]) {
                        (false, ..) => (n, d),
                        (_, 1, _) => (n - 1, d),
                        (_, 2, _) => (0, d),
                        (_, 3, _) if n > 1 => (1, d),
                        (_, 4, A::Native(e)) => (n, e),
                        _ => (n + 1, d),
                    };
                    funds.push(coin(sent, d));
                } else if mode == "mismatch" {
                    // a cw20 offer must come through the token's Send
                    let mut b = body.clone();
                    b["offer_asset"] = offer.asset(n);
                    return Some(self.w.h.exec(&who, &pair, &json!({ "swap": b }), &[]).map(|_| ()));
                }
                swap_call(&mut self.w.h, &who, &pair, &offer, n, body, &funds)
            }
            "Donate" => {
                let a = self.a[num(&v["i"]) as usize].clone();
                self.w.h.transfer(&txt(&v["who"]), pair.as_str(), &a, amt(&v["amount"])).map(|_| ())
            }
            "Hand" => self.w.h.send(&txt(&v["who"]), &self.addr(&txt(&v["dest"])), amt(&v["lp"]), &self.lp).map(|_| ()),
            "FeeShare" => {
                let p = if int(&v["bps"]) < 0 {
                    json!("disable_fee_share")
                } else {
                    json!({"enable_fee_share": {"fee_share_bps": amt(&v["bps"]) as u64, "fee_share_address": v["to"]}})
                };
                self.w.h.exec(&txt(&v["who"]), &pair, &json!({"update_config": {"params": b64(&p)}}), &[]).map(|_| ())
            }
            "SetFees" => {
                let f = self.w.factory.clone();
                let c = match self.w.h.smart(&f, &json!({"config": {}})) {
                    Ok(c) => c,
                    Err(e) => return Some(Err(e)),
                };
                let code = c["pair_configs"][0]["code_id"].as_u64().unwrap();
                let cfg = pair_config(code, &self.ty, num(&v["total"]), num(&v["maker"]));
                self.w.h.exec(&txt(&v["who"]), &f, &json!({"update_pair_config": {"config": cfg}}), &[]).map(|_| ())
            }
            "Register" => {
                let who = txt(&v["who"]);
                let f = self.w.factory.clone();
                let mut infos = vec![self.a[0].info(), self.a[1].info()];
                if who == "alice" {
                    infos.reverse();
                }
                let m = if yes(&v["on"]) {
                    json!({"create_pair": {"pair_type": self.ty, "asset_infos": infos, "init_params": self.init.as_ref().map(|p| b64(p))}})
                } else {
                    json!({"deregister": {"asset_infos": infos}})
                };
                self.w.h.exec(&who, &f, &m, &[]).map(|_| ())
            }
            "Wait" => {
                let b = self.w.h.app.block_info();
                self.w.h.set_block(b.time.seconds() + num(&v["seconds"]), b.height + num(&v["blocks"]));
                Ok(())
            }
            _ => return None,
        })
    }

    /// Makes another pool of this kind, of some of the same assets, and gives its configuration.
    pub fn open(&mut self, v: &Value, params: Option<Value>) -> R<Value> {
        let f = self.w.factory.clone();
        let code = self.w.h.smart(&f, &json!({"config": {}}))?["pair_configs"][0]["code_id"].as_u64().unwrap();
        let foreign = A::native(&if v["coin"].is_null() { "uforeign".into() } else { denom(&v["coin"]) });
        let [a, b] = self.a.clone();
        let shape = txt(&v["shape"]);
        let assets: Vec<Value> = match shape.as_str() {
            "fine" => vec![a, b],
            "swapped" => vec![b, a],
            "one" => vec![a],
            "three" => vec![a, b, foreign],
            "doubled" => vec![a.clone(), a],
            "stranger" => vec![a, foreign],
            "unreadable" => vec![a, A::Token(Addr::unchecked("x"))],
            "none" => vec![],
            t => return Err(format!("unknown shape {t}")),
        }
        .iter()
        .map(|a| a.info())
        .collect();
        let params = if yes(&v["bare"]) { None } else { params };
        let m = json!({"asset_infos": assets, "token_code_id": 1, "factory_addr": f, "init_params": params.map(|p| b64(&p)), "pair_type": self.ty});
        let who = txt(&v["who"]);
        let c = self.w.h.inst(code, &who, &m, &[], None)?;
        let info = self.w.h.smart(&c, &json!({"pair": {}}))?;
        if info["asset_infos"] != json!(assets) || info["contract_addr"] != json!(c) || info["liquidity_token"] != json!(format!("factory/{c}/astroport/share")) {
            return Err(format!("the new pool says it is {info}"));
        }
        let mut c = self.w.h.smart(&c, &json!({"config": {}}))?;
        if let Some(p) = c["params"].as_str() {
            c["params"] = unb64(p);
        }
        Ok(c)
    }

    /// Balances, shares, and what the pool quotes.
    pub fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = Obs::new();
        let h = &self.w.h;
        for i in 0..2 {
            let mut m = serde_json::Map::new();
            for acc in self.accounts {
                m.insert(acc.to_string(), s(h.balance(&self.addr(acc), &self.a[i])));
            }
            o.insert(format!("st.bal.{i}"), Value::Object(m));
        }
        let mut m = serde_json::Map::new();
        for acc in self.accounts {
            m.insert(acc.to_string(), s(h.bank(&self.addr(acc), &self.lp)));
        }
        o.insert("st.lp".into(), Value::Object(m));
        o.insert("st.supply".into(), s(h.supply(&self.lp)));
        let infos = json!([self.a[0].info(), self.a[1].info()]);
        let named = h.smart(&self.w.factory, &json!({"pair": {"asset_infos": infos}})).map(|p| p["contract_addr"] == json!(self.pair));
        o.insert("st.listed".into(), json!(match named {
            Ok(true) => "own",
            Ok(false) => "other",
            Err(_) => "none",
        }));
        if let Some(inc) = &self.w.incentives {
            let mut m = serde_json::Map::new();
            for u in self.accounts {
                let v = h.smart(inc, &json!({"deposit": {"lp_token": self.lp, "user": self.addr(u)}}));
                m.insert(u.to_string(), v.unwrap_or(s(0)));
            }
            o.insert("st.staked".into(), Value::Object(m));
        }
        // what the pool answers
        let p = &st["probe"];
        let n = [amt(&p["amount"][0]), amt(&p["amount"][1])];
        let none = || s(-1);
        let q = |m: Value| h.smart(&self.pair, &m);
        for i in 0..2 {
            let asset = self.a[i].asset(n[i]);
            let named = |j: usize| if n[0] % 2 == 0 { self.a[j].info() } else { Value::Null };
            let v = q(json!({"simulation": {"offer_asset": asset, "ask_asset_info": named(1 - i)}}));
            o.insert(
                format!("probe.sim.{i}"),
                match &v {
                    Ok(v) => json!({"ret": v["return_amount"], "spread": v["spread_amount"], "fee": v["commission_amount"]}),
                    Err(_) => json!({"ret": none(), "spread": none(), "fee": none()}),
                },
            );
            // the specification indexes reverse quotes by the offer asset
            let asset = self.a[1 - i].asset(n[1 - i]);
            let v = q(json!({"reverse_simulation": {"ask_asset": asset, "offer_asset_info": named(i)}}));
            o.insert(
                format!("probe.rev.{i}"),
                match &v {
                    Ok(v) => json!({"offer": v["offer_amount"], "spread": v["spread_amount"], "fee": v["commission_amount"]}),
                    Err(_) => json!({"offer": none(), "spread": none(), "fee": none()}),
                },
            );
        }
        for key in ["share", "simulate_withdraw"] {
            let arg = if key == "share" { json!({"amount": s(n[0])}) } else { json!({"lp_amount": s(n[0])}) };
            if let Ok(v) = q(json!({ key: arg })) {
                let got = json!([v[0]["amount"], v[1]["amount"]]);
                if key == "share" || o.get("probe.share") == Some(&got) {
                    o.insert("probe.share".into(), got);
                } else {
                    o.insert("probe.share".into(), json!({"share and simulate_withdraw differ": got}));
                }
            }
        }
        let pr = &p["provide"];
        let mut given = vec![self.a[0].asset(txt(&pr["a0"])), self.a[1].asset(txt(&pr["a1"]))];
        if n[1] % 2 == 0 {
            given.reverse();
        }
        let v = q(json!({"simulate_provide": {"assets": given,
            "slippage_tolerance": if pr["slip"].is_null() { Value::Null } else { opt(&pr["slip"], |x| s(dec(x))) }}}));
        o.insert("probe.provide.lp".into(), v.unwrap_or(none()));
        if !p["cumAt"].is_null() {
            let v = q(json!({"cumulative_prices": {}}));
            o.insert(
                "probe.cumAt".into(),
                match v {
                    Ok(v) => json!([v["cumulative_prices"][0][2], v["cumulative_prices"][1][2]]),
                    Err(_) => json!([none(), none()]),
                },
            );
        }
        let v = q(json!({"pool": {}}))?;
        o.insert(
            "st.supply".into(),
            if v["total_share"] == s(h.supply(&self.lp)) { v["total_share"].clone() } else { json!("pool query disagrees with the bank") },
        );
        // everything else it says about itself
        let held: Vec<Value> = (0..2).map(|i| self.a[i].asset(h.balance(self.pair.as_str(), &self.a[i]))).collect();
        let stranger = A::native("uforeign").asset(1000);
        let pair = q(json!({"pair": {}}))?;
        let wrong = if v["assets"] != json!(held) {
            "pool"
        } else if q(json!({"cumulative_prices": {}})).is_ok_and(|c| c["assets"] != json!(held) || c["total_share"] != v["total_share"]) {
            "cumulative_prices"
        } else if q(json!({"simulation": {"offer_asset": stranger, "ask_asset_info": null}})).is_ok() {
            "simulation of a stranger"
        } else if q(json!({"reverse_simulation": {"ask_asset": stranger, "offer_asset_info": null}})).is_ok() {
            "reverse simulation of a stranger"
        } else if q(json!({"simulate_provide": {"assets": [self.a[0].asset(1000), stranger], "slippage_tolerance": null}})).is_ok() {
            "deposit of a stranger"
        } else if pair["asset_infos"] != infos || pair["contract_addr"] != json!(self.pair) || pair["liquidity_token"] != json!(self.lp) || pair["pair_type"] != self.ty {
            "pair"
        } else {
            ""
        };
        if !wrong.is_empty() {
            o.insert("st.supply".into(), json!(format!("wrong answer: {wrong}")));
        }
        let at = &p["lpAt"];
        if !at.is_null() {
            let who = if at["who"] == "inc" { self.w.incentives.as_ref().map(|a| a.to_string()).unwrap_or("nobody".into()) } else { self.addr(&txt(&at["who"])) };
            let ask = |m: Value| match &self.tracker {
                Some(t) => h.smart(t, &m),
                None => Ok(s(-1)),
            };
            let mut v = ask(json!({"balance_at": {"address": who, "unit": num(&at["h"])}}))?;
            // the pool's tracker: run by the factory's owner, for the pool's shares, told by the token factory alone, by blocks
            if let Some(t) = &self.tracker {
                let admin = h.app.wrap().query_wasm_contract_info(t).map_err(|e| e.to_string())?.admin;
                let k = h.smart(t, &json!({"config": {}}))?;
                if admin.as_deref() != Some("owner") || k != json!({"tracked_denom": self.lp, "token_factory_module": TF_MODULE, "track_over_seconds": false}) {
                    v = json!(format!("the tracker of {admin:?}: {k}"));
                }
            }
            o.insert("probe.lpAt.v".into(), v);
            o.insert("probe.lpAt.supply".into(), ask(json!({"total_supply_at": {"unit": num(&at["h"])}}))?);
        }
        let c = self.config()?;
        o.insert("st.last".into(), s(c["block_time_last"].as_u64().unwrap()));
        let f = &c["params"]["fee_share"];
        o.insert("st.share.bps".into(), s(f["bps"].as_u64().unwrap_or(0)));
        if !f.is_null() {
            o.insert("st.share.to".into(), f["recipient"].clone());
        }
        Ok(o)
    }
    pub fn config(&self) -> R<Value> {
        let mut c = self.w.h.smart(&self.pair, &json!({"config": {}}))?;
        if let Some(p) = c["params"].as_str() {
            c["params"] = unb64(p);
        }
        Ok(c)
    }
    pub fn update(&mut self, who: &str, params: &Value) -> R<()> {
        let pair = self.pair.clone();
        self.w.h.exec(who, &pair, &json!({"update_config": {"params": b64(params)}}), &[]).map(|_| ())
    }
}
