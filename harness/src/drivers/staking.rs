//! spec/staking.qnt on astroport-staking (with the tracker version it targets) and astroport-pair-xastro.
use super::*;
use crate::host::*;
use cosmwasm_std::{Addr, Coin};
use serde_json::{json, Value};

pub struct Staking {
    h: Host,
    c: Addr,
    pair: Addr,
    x: String,
    codes: [u64; 3],
}

const HOLDERS: [&str; 5] = ["alice", "bob", "carol", "staking", "pair"];

impl Staking {
    pub fn new(init: &Value) -> Result<Staking, String> {
        let st = &init["st"];
        let mut h = Host::new(num(&st["now"]), num(&st["h"]));
        for u in ["alice", "bob", "carol"] {
            h.fund(u, amt(&st["astro"][u]), "uastro");
            h.fund(u, 10u128.pow(30), "uother");
        }
        let (code, tracker, pcode) = (h.store(staking()), h.store(tracker_v1()), h.store(pair_xastro()));
        let c = h.inst(
            code,
            "owner",
            &json!({"deposit_token_denom": "uastro", "tracking_admin": "owner", "tracking_code_id": tracker,
                "token_factory_addr": TF_MODULE}),
            &[],
            Some("admin"),
        )?;
        let x = txt(&h.smart(&c, &json!({"config": {}}))?["xastro_denom"]);
        let pair = h.inst(
            pcode,
            "owner",
            &json!({"asset_infos": [A::native("uastro").info(), A::native(&x).info()], "token_code_id": 1, "factory_addr": "factory",
                "init_params": b64(&json!({ "staking": c })), "pair_type": {"custom": "pair_xastro"}}),
            &[],
            None,
        )?;
        Ok(Staking { h, c, pair, x, codes: [code, tracker, pcode] })
    }
    fn denom(&self, d: &Value) -> String {
        match d.as_str().unwrap() {
            "astro" => "uastro".into(),
            "x" => self.x.clone(),
            _ => "uother".into(),
        }
    }
    fn coins(&self, v: &Value) -> Vec<Coin> {
        v["coins"].as_array().unwrap().iter().map(|c| coin(amt(&c["amount"]), &self.denom(&c["denom"]))).collect()
    }
    fn addr(&self, n: &Value) -> String {
        match n.as_str().unwrap() {
            "staking" => self.c.to_string(),
            "pair" => self.pair.to_string(),
            "unreadable" => "uNot/An/Address".into(),
            x => x.to_string(),
        }
    }
    /// Another staking contract, or another pair for this one.
    fn begin(&mut self, what: &str) -> R<()> {
        let [code, tracker, pcode] = self.codes;
        let bad = "uNot/An/Address";
        let mut m = json!({"deposit_token_denom": "uastro", "tracking_admin": "owner", "tracking_code_id": tracker, "token_factory_addr": TF_MODULE});
        let mut a = vec![A::native("uastro").info(), A::native(&self.x).info()];
        let mut params = json!(b64(&json!({ "staking": self.c })));
        match what {
            "denom" => m["deposit_token_denom"] = json!("unobody"),
            "factory" => m["token_factory_addr"] = json!(bad),
            "admin" => m["tracking_admin"] = json!(bad),
            "reversed" => a.reverse(),
            "one" => a.truncate(1),
            "three" => a.push(A::native("uother").info()),
            "params" => params = Value::Null,
            "astro" => a[0] = A::native("uother").info(),
            "xastro" => a[1] = A::native("uother").info(),
            "elsewhere" => params = json!(b64(&json!({ "staking": self.pair }))),
            _ => {}
        }
        if ["staking", "denom", "factory", "admin"].contains(&what) {
            let c = self.h.inst(code, "bob", &m, &[], None)?;
            let (k, t) = (self.h.smart(&c, &json!({"config": {}}))?, self.h.smart(&c, &json!({"tracker_config": {}}))?);
            if k["astro_denom"] != "uastro" || k["xastro_denom"] != format!("factory/{c}/xASTRO") || t["code_id"] != tracker || t["admin"] != "owner" {
                return Err(format!("not what was asked for: {k} {t}"));
            }
            let at = txt(&t["tracker_addr"]);
            let admin = self.h.app.wrap().query_wasm_contract_info(&at).map_err(|e| e.to_string())?.admin;
            let of = self.h.smart(&cosmwasm_std::Addr::unchecked(at), &json!({"config": {}}))?;
            if admin.as_deref() != Some("owner") || of["tracked_denom"] != k["xastro_denom"] || of["token_factory_module"] != TF_MODULE {
                return Err(format!("not the tracker that was asked for: {admin:?} {of}"));
            }
            return Ok(());
        }
        let m = json!({"asset_infos": a, "token_code_id": 1, "factory_addr": "factory", "init_params": params, "pair_type": {"custom": "pair_xastro"}});
        let c = self.h.inst(pcode, "bob", &m, &[], None)?;
        let k = self.h.smart(&c, &json!({"pair": {}}))?;
        if k["asset_infos"] != json!(a) || k["contract_addr"] != c.as_str() || k["pair_type"] != m["pair_type"] {
            return Err(format!("not what was asked for: {k}"));
        }
        Ok(())
    }
    fn exec(&mut self, st: &Value) -> R<()> {
        let v = &st["msg"]["value"];
        let who = || txt(&v["who"]);
        let (c, pair) = (self.c.clone(), self.pair.clone());
        let dest = |me: &Self| if v["dest"] == v["who"] { Value::Null } else { json!(me.addr(&v["dest"])) };
        let r = match st["msg"]["tag"].as_str().unwrap() {
            "Enter" => {
                let (b, f) = (json!({"enter": {"receiver": dest(self)}}), self.coins(v));
                self.h.exec(&who(), &c, &b, &f)
            }
            "Leave" => {
                let (b, f) = (json!({"leave": {"receiver": dest(self)}}), self.coins(v));
                self.h.exec(&who(), &c, &b, &f)
            }
            "EnterHook" => {
                let (contract, inner) = if txt(&v["hook"]) == "swap" {
                    let a = A::native(&self.x).asset(amt(&v["amount"]));
                    (&pair, json!({"swap": {"offer_asset": a, "ask_asset_info": null, "belief_price": null, "max_spread": null, "to": self.addr(&v["dest"])}}))
                } else {
                    (&c, json!({"leave": {"receiver": self.addr(&v["dest"])}}))
                };
                let f = self.coins(v);
                self.h.exec(
                    &who(),
                    &c,
                    &json!({"enter_with_hook": {"contract_address": contract, "msg": b64(&inner)}}),
                    &f,
                )
            }
            "Swap" => {
                let a = A::native(&self.denom(&v["offer"])).asset(amt(&v["amount"]));
                let b = json!({"swap": {"offer_asset": a, "ask_asset_info": null, "belief_price": null, "max_spread": null, "to": dest(self)}});
                let f = self.coins(v);
                self.h.exec(&who(), &pair, &b, &f)
            }
            "NotSwap" => {
                let b = match v["what"].as_str().unwrap() {
                    "provide" => json!({"provide_liquidity": {"assets": [A::native("uastro").asset(1)]}}),
                    "withdraw" => json!({"withdraw_liquidity": {}}),
                    "receive" => json!({"receive": {"sender": "alice", "amount": "5", "msg": b64(&json!({"swap": {}}))}}),
                    _ => json!({"update_config": {"params": "e30="}}),
                };
                let f = if txt(&v["what"]) == "provide" { vec![coin(1, "uastro")] } else { vec![] };
                self.h.exec(&who(), &pair, &b, &f)
            }
            "Send" => {
                let (d, to) = (self.denom(&v["denom"]), self.addr(&v["dest"]));
                self.h.send(&who(), &to, amt(&v["amount"]), &d)
            }
            "Wait" => {
                let b = self.h.app.block_info();
                self.h.set_block(b.time.seconds() + num(&v["seconds"]), b.height + 1);
                return Ok(());
            }
            "Begin" => return self.begin(&txt(&v["what"])),
            "Upgrade" => return self.h.upgrade(&c, v, &json!({}), |_| {}),
            t => return Err(format!("unknown message {t}")),
        };
        r.map(|_| ())
    }
}

impl Driver for Staking {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = Obs::new();
        for n in HOLDERS {
            let who = self.addr(&json!(n));
            o.insert(format!("st.astro.{n}"), s(self.h.bank(&who, "uastro")));
            o.insert(format!("st.x.{n}"), s(self.h.bank(&who, &self.x)));
        }
        o.insert("st.supply".into(), s(self.h.supply(&self.x)));
        let p = &st["probe"];
        o.insert("probe.shares".into(), self.h.smart(&self.c, &json!({"total_shares": {}}))?);
        o.insert("probe.deposit".into(), self.h.smart(&self.c, &json!({"total_deposit": {}}))?);
        let (user, t) = (self.addr(&p["at"]["user"]), num(&p["at"]["t"]));
        o.insert("probe.at.balance".into(), self.h.smart(&self.c, &json!({"balance_at": {"address": user, "timestamp": t}}))?);
        o.insert("probe.at.supply".into(), self.h.smart(&self.c, &json!({"total_supply_at": {"timestamp": t}}))?);
        if t == self.h.time() {
            // without a moment: the bank's own figures
            let b = self.h.smart(&self.c, &json!({"balance_at": {"address": user, "timestamp": null}}))?;
            let n = self.h.smart(&self.c, &json!({"total_supply_at": {"timestamp": null}}))?;
            o.insert(format!("st.x.{}", txt(&p["at"]["user"])), b);
            o.insert("st.supply".into(), n);
        }
        let q = &p["quote"];
        let (offer, other) = if txt(&q["offer"]) == "astro" { ("uastro", self.x.as_str()) } else { (self.x.as_str(), "uastro") };
        let n = amt(&q["amount"]);
        let get = self.h.smart(&self.pair, &json!({"simulation": {"offer_asset": A::native(offer).asset(n)}}));
        o.insert("probe.quote.get".into(), get.map(|v| v["return_amount"].clone()).unwrap_or(s(-1)));
        if int(&q["give"]) >= 0 {
            let ask = if offer == "uastro" { other } else { "uastro" };
            let give = self.h.smart(&self.pair, &json!({"reverse_simulation": {"ask_asset": A::native(ask).asset(n)}}));
            o.insert("probe.quote.give".into(), give.map(|v| v["offer_amount"].clone()).unwrap_or(s(-1)));
        }
        // the pair holds nothing and knows its two coins only
        let empty = json!([A::native("uastro").asset(0), A::native(&self.x).asset(0)]);
        let other = A::native("uother").asset(n);
        let ask = |m: Value| self.h.smart(&self.pair, &m);
        if ask(json!({"pool": {}})).is_ok_and(|v| v["assets"] != empty || v["total_share"] != s(0))
            || ask(json!({"share": {"amount": s(n)}})).is_ok_and(|v| v != empty)
            || ask(json!({"simulation": {"offer_asset": other}})).is_ok()
            || ask(json!({"reverse_simulation": {"ask_asset": other}})).is_ok()
        {
            o.insert("probe.quote.get".into(), json!("an answer for what it does not hold"));
        }
        Ok(o)
    }

    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}
