//! spec/pcl.qnt on astroport-pair-concentrated, created through the real factory.
use super::pool::*;
use super::stable::observed;
use super::xyk::{said, share};
use super::*;
use crate::host::*;
use serde_json::{json, Value};

pub struct Pcl {
    p: Pool,
}

const ACCOUNTS: [&str; 6] = ["alice", "bob", "carol", "pair", "maker", "sharee"];

pub fn atomics(v: &Value) -> Value {
    match v.as_str().unwrap_or("").parse::<cosmwasm_std::Decimal256>() {
        Ok(d) => s(d.atomics()),
        Err(_) => v.clone(),
    }
}

impl Pcl {
    pub fn new(init: &Value) -> Result<Pcl, String> {
        let st = &init["st"];
        let decimals = [num(&st["dec"][0]) as u8, num(&st["dec"][1]) as u8];
        let (p, r) = (&st["params"], &st["ramp"]);
        let d = |v: &Value| dec(amt(v));
        let params = json!({"amp": d(&r["amp1"]), "gamma": d(&r["gamma1"]), "mid_fee": d(&p["mid"]), "out_fee": d(&p["out"]),
            "fee_gamma": d(&p["feeGamma"]), "repeg_profit_threshold": d(&p["threshold"]), "min_price_scale_delta": d(&p["step"]),
            "price_scale": d(&st["prices"]["scale"]), "ma_half_time": num(&p["half"]),
            "track_asset_balances": if yes(&st["track"]) { json!(true) } else { Value::Null }, "fee_share": null});
        let mut p = Pool::new(st, json!({"custom": "concentrated"}), pair_concentrated(), decimals, &ACCOUNTS, |_| Some(params.clone()))?;
        p.omit_zero = true;
        Ok(Pcl { p })
    }
    fn exec(&mut self, st: &Value) -> R<()> {
        if let Some(r) = self.p.exec(st) {
            return r;
        }
        let v = &st["msg"]["value"];
        let who = v["who"].as_str().unwrap_or_default().to_string();
        let d = |k: &str| opt(&v[k], |n| json!(dec(n)));
        let pair = self.p.pair.clone();
        let m = match st["msg"]["tag"].as_str().unwrap() {
            "Tune" => json!({"update": {"mid_fee": d("mid"), "out_fee": d("out"), "fee_gamma": d("feeGamma"),
                "repeg_profit_threshold": d("threshold"), "min_price_scale_delta": d("step"), "ma_half_time": opt(&v["half"], |n| json!(n as u64))}}),
            "Promote" => json!({"promote": {"next_amp": d("amp"), "next_gamma": d("gamma"), "future_time": num(&v["at"])}}),
            "StopRamp" => json!({"stop_changing_amp_gamma": {}}),
            "Open" => {
                let p = &v["params"];
                let d = |v: &Value| dec(amt(v));
                let mut m = json!({"amp": d(&v["amp"]), "gamma": d(&v["gamma"]), "mid_fee": d(&p["mid"]), "out_fee": d(&p["out"]),
                    "fee_gamma": d(&p["feeGamma"]), "repeg_profit_threshold": d(&p["threshold"]), "min_price_scale_delta": d(&p["step"]),
                    "price_scale": d(&v["scale"]), "ma_half_time": num(&p["half"]), "fee_share": null});
                if yes(&v["track"]) {
                    m["track_asset_balances"] = json!(true);
                }
                let c = self.p.open(v, Some(m.clone()))?;
                m["track_asset_balances"] = v["track"].clone();
                return said(&c, &json!({"params": m, "owner": "owner"}));
            }
            "Upgrade" => return self.p.w.h.upgrade(&pair, v, &json!({}), |_| {}),
            t => return Err(format!("unknown message {t}")),
        };
        self.p.update(&who, &m)
    }
}

impl Driver for Pcl {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = self.p.observe(st)?;
        let c = self.p.config()?;
        let q = &c["params"];
        share(q, &mut o);
        for (k, f) in [
            ("st.params.mid", "mid_fee"),
            ("st.params.out", "out_fee"),
            ("st.params.feeGamma", "fee_gamma"),
            ("st.params.threshold", "repeg_profit_threshold"),
            ("st.params.step", "min_price_scale_delta"),
            ("st.prices.scale", "price_scale"),
            ("probe.amp", "amp"),
            ("probe.gamma", "gamma"),
        ] {
            o.insert(k.into(), atomics(&q[f]));
        }
        o.insert("st.params.half".into(), s(q["ma_half_time"].as_u64().unwrap_or(0)));
        let h = &self.p.w.h;
        let ask = |m: Value| h.smart(&self.p.pair, &m);
        o.insert("probe.d".into(), ask(json!({"compute_d": {}})).map(|v| atomics(&v)).unwrap_or(s(-1)));
        o.insert("probe.lpPrice".into(), ask(json!({"lp_price": {}})).map(|v| atomics(&v)).unwrap_or(s(-1)));
        o.insert("probe.observe.price".into(), observed(h, &self.p.pair, &st["probe"]["observe"]["ago"]));
        for i in 0..2 {
            let v = ask(json!({"asset_balance_at": {"asset_info": self.p.a[i].info(), "block_height": st["probe"]["at"]["h"]}}))?;
            o.insert(format!("probe.at.v.{i}"), if v.is_null() { s(-1) } else { v });
        }
        Ok(o)
    }
    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}
