//! spec/xyk.qnt on astroport-pair / astroport-pair-xyk-sale-tax, created through the real factory.
use super::pool::*;
use super::*;
use crate::host::*;
use serde_json::{json, Value};

pub struct Xyk {
    p: Pool,
    tax: bool,
}

const ACCOUNTS: [&str; 7] = ["alice", "bob", "carol", "pair", "maker", "sharee", "taxman"];

impl Xyk {
    pub fn new(init: &Value, sale_tax: bool) -> Result<Xyk, String> {
        let st = &init["st"];
        let ty = if sale_tax { json!({"custom": "astroport-pair-xyk-sale-tax"}) } else { json!({"xyk": {}}) };
        let track = yes(&st["track"]);
        let p = Pool::new(st, ty, if sale_tax { pair_sale_tax() } else { pair() }, [6, 6], &ACCOUNTS, |assets| {
            if sale_tax {
                let mut cfgs = serde_json::Map::new();
                for i in 0..2 {
                    let rate = amt(&st["tax"][i]["rate"]);
                    if rate > 0 && assets[i].is_native() {
                        cfgs.insert(assets[i].id(), json!({"tax_rate": dec(rate), "tax_recipient": st["tax"][i]["to"]}));
                    }
                }
                Some(json!({"tax_configs": cfgs, "tax_config_admin": st["taxAdmin"], "track_asset_balances": track}))
            } else {
                track.then(|| json!({"track_asset_balances": true}))
            }
        })?;
        Ok(Xyk { p, tax: sale_tax })
    }

    fn exec(&mut self, st: &Value) -> R<()> {
        if let Some(r) = self.p.exec(st) {
            return r;
        }
        let v = &st["msg"]["value"];
        let tax = |p: &Pool| {
            let t = &v["tax"];
            let mut m = serde_json::Map::new();
            for i in 0..2 {
                if int(&t["rates"][i]) >= 0 {
                    m.insert(p.a[i].id(), json!({"tax_rate": dec(amt(&t["rates"][i])), "tax_recipient": t["to"][i]}));
                }
            }
            if yes(&t["stray"]) {
                m.insert("uelsewhere".into(), json!({"tax_rate": "0.1", "tax_recipient": "taxman"})); // of the pool next door
            }
            Value::Object(m)
        };
        match st["msg"]["tag"].as_str().unwrap() {
            "SetTax" => {
                let cfg = if yes(&v["change"]) { tax(&self.p) } else { Value::Null };
                let admin = if v["admin"] == "" { Value::Null } else { v["admin"].clone() };
                self.p.update(&txt(&v["who"]), &json!({"tax_configs": cfg, "tax_config_admin": admin}))
            }
            "Upgrade" => {
                let pair = self.p.pair.clone();
                let msg = json!({"tax_configs": tax(&self.p), "tax_config_admin": v["admin"]});
                self.p.w.h.upgrade(&pair, &v["was"], &msg, |h| {
                    // a pool without a sale tax
                    h.adjust(&pair, "config", |c| {
                        let c = c.as_object_mut().unwrap();
                        c.remove("tax_configs");
                        c.remove("tax_config_admin");
                        c.insert("fee_share".into(), Value::Null);
                    });
                })
            }
            "Open" => {
                let track = yes(&v["track"]);
                if !self.tax {
                    let c = self.p.open(v, Some(json!({"track_asset_balances": track})))?;
                    return said(&c, &json!({"params": {"track_asset_balances": track && !yes(&v["bare"]), "fee_share": null}}));
                }
                let m = json!({"tax_configs": tax(&self.p), "tax_config_admin": v["admin"], "track_asset_balances": track});
                let c = self.p.open(v, Some(m.clone()))?;
                said(&c, &json!({ "params": m }))
            }
            t => Err(format!("unknown message {t}")),
        }
    }
}

impl Driver for Xyk {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = self.p.observe(st)?;
        for i in 0..2 {
            let v = self.p.w.h.smart(
                &self.p.pair,
                &json!({"asset_balance_at": {"asset_info": self.p.a[i].info(), "block_height": st["probe"]["at"]["h"]}}),
            )?;
            o.insert(format!("probe.at.v.{i}"), if v.is_null() { s(-1) } else { v });
        }
        let params = self.p.config()?["params"].clone();
        if self.tax {
            o.insert("st.taxAdmin".into(), params["tax_config_admin"].clone());
            for i in 0..2 {
                let t = &params["tax_configs"][self.p.a[i].id()];
                let rate = t["tax_rate"].as_str().unwrap_or("0");
                let atomics: cosmwasm_std::Decimal = rate.parse().map_err(|e| format!("{e}"))?;
                o.insert(format!("st.tax.{i}.rate"), s(atomics.atomics()));
                // (who gets nothing, by a tax of nothing, is not compared)
                if !atomics.is_zero() {
                    o.insert(format!("st.tax.{i}.to"), t["tax_recipient"].clone());
                }
            }
        } else {
            share(&params, &mut o);
        }
        Ok(o)
    }

    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}

/// A new pool is what was asked for; numbers may be written differently.
pub fn said(got: &Value, asked: &Value) -> R<()> {
    let same = match (got, asked) {
        (Value::Object(g), Value::Object(a)) => {
            for (k, v) in a {
                said(g.get(k).unwrap_or(&Value::Null), v).map_err(|e| format!("{k}: {e}"))?;
            }
            true
        }
        (Value::String(g), Value::String(a)) => {
            g == a || matches!((g.parse::<cosmwasm_std::Decimal256>(), a.parse::<cosmwasm_std::Decimal256>()), (Ok(x), Ok(y)) if x == y)
        }
        _ => got == asked,
    };
    if same { Ok(()) } else { Err(format!("the new pool has {got}, not {asked}")) }
}

/// The fee share in a pool's parameters.
pub fn share(params: &Value, o: &mut Obs) {
    o.insert("st.share.bps".into(), s(params["fee_share"]["bps"].as_u64().unwrap_or(0)));
    if !params["fee_share"].is_null() {
        o.insert("st.share.to".into(), params["fee_share"]["recipient"].clone());
    }
}
