//! spec/stable.qnt on astroport-pair-stable, created through the real factory.
use super::pool::*;
use super::xyk::{said, share};
use super::*;
use crate::host::*;
use serde_json::{json, Value};

pub struct Stable {
    p: Pool,
}

const ACCOUNTS: [&str; 6] = ["alice", "bob", "carol", "pair", "maker", "sharee"];

impl Stable {
    pub fn new(init: &Value) -> Result<Stable, String> {
        let st = &init["st"];
        let decimals = [num(&st["dec"][0]) as u8, num(&st["dec"][1]) as u8];
        let owner = txt(&st["owner"]);
        let p = Pool::new(st, json!({"stable": {}}), pair_stable(), decimals, &ACCOUNTS, |_| {
            Some(json!({"amp": num(&st["amp"]["init"]) / 100, "owner": if owner.is_empty() { Value::Null } else { json!(owner) }}))
        })?;
        Ok(Stable { p })
    }
    fn exec(&mut self, st: &Value) -> R<()> {
        if let Some(r) = self.p.exec(st) {
            return r;
        }
        let v = &st["msg"]["value"];
        match st["msg"]["tag"].as_str().unwrap() {
            "StartAmp" => self.p.update(
                &txt(&v["who"]),
                &json!({"start_changing_amp": {"next_amp": num(&v["amp"]), "next_amp_time": num(&v["at"])}}),
            ),
            "StopAmp" => self.p.update(&txt(&v["who"]), &json!({"stop_changing_amp": {}})),
            "Open" => {
                let owner = txt(&v["owner"]);
                let amp = num(&v["amp"]);
                let c = self.p.open(v, Some(json!({"amp": amp, "owner": (!owner.is_empty()).then_some(&owner)})))?;
                let owner = if owner.is_empty() { "owner".to_string() } else { owner };
                said(&c, &json!({"params": {"amp": amp.to_string(), "fee_share": null}, "owner": owner}))
            }
            t => Err(format!("unknown message {t}")),
        }
    }
}

impl Driver for Stable {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = self.p.observe(st)?;
        let c = self.p.config()?;
        share(&c["params"], &mut o);
        let amp: cosmwasm_std::Decimal = c["params"]["amp"].as_str().unwrap_or("0").parse().map_err(|e| format!("{e}"))?;
        o.insert("probe.amp".into(), s(amp.atomics()));
        let owner = txt(&st["st"]["owner"]);
        if c["owner"] != json!(if owner.is_empty() { "owner".to_string() } else { owner }) {
            o.insert("st.owner".into(), c["owner"].clone());
        }
        let h = &self.p.w.h;
        let d = h.smart(&self.p.pair, &json!({"query_compute_d": {}}));
        o.insert("probe.d".into(), d.unwrap_or(s(-1)));
        o.insert("probe.observe.price".into(), observed(h, &self.p.pair, &st["probe"]["observe"]["ago"]));
        Ok(o)
    }
    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}

/// The price the pool's time series gives, in atomics; -1 when it refuses.
pub fn observed(h: &Host, pair: &cosmwasm_std::Addr, ago: &Value) -> Value {
    match h.smart(pair, &json!({"observe": {"seconds_ago": num(ago)}})) {
        Ok(v) => match v["price"].as_str().unwrap_or("").parse::<cosmwasm_std::Decimal>() {
            Ok(d) => s(d.atomics()),
            Err(_) => v,
        },
        Err(_) => s(-1),
    }
}
