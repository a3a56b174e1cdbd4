//! spec/registry.qnt on astroport-native-coin-registry.
use super::*;
use crate::host::*;
use cosmwasm_std::{Addr, Coin};
use serde_json::{json, Value};

pub struct Registry {
    h: Host,
    c: Addr,
}

fn name(n: i128) -> String {
    format!("u{:03}", n)
}
fn number(d: &Value) -> Value {
    s(d.as_str().unwrap()[1..].parse::<u32>().unwrap_or(999))
}

impl Registry {
    pub fn new(init: &Value) -> Result<Registry, String> {
        let st = &init["st"];
        let mut h = Host::new(1_700_000_000, 100);
        for n in 0..4 {
            h.fund("alice", 1000, &name(n));
        }
        let code = h.store(coin_registry());
        let c = h.inst(code, "bob", &json!({"owner": "owner"}), &[], Some("admin"))?;
        let l: Vec<Value> = st["decimals"].as_object().unwrap().iter().map(|(k, v)| json!([name(k.parse().unwrap()), num(v)])).collect();
        h.exec("owner", &c, &json!({"add": {"native_coins": l}}), &[])?;
        Ok(Registry { h, c })
    }
    fn exec(&mut self, st: &Value) -> R<()> {
        let v = &st["msg"]["value"];
        let who = v["who"].as_str().unwrap_or_default().to_string();
        let c = self.c.clone();
        let entries = || v["l"].as_array().unwrap().iter().map(|e| json!([name(int(&e["d"])), num(&e["n"])])).collect::<Vec<_>>();
        let (m, funds): (Value, Vec<Coin>) = match st["msg"]["tag"].as_str().unwrap() {
            "Add" => (json!({"add": {"native_coins": entries()}}), vec![]),
            "Register" => {
                let mut f: Vec<Coin> = v["coins"].as_array().unwrap().iter().map(|d| coin(1 + 3 * num(d) as u128, &name(int(d)))).collect();
                f.sort_by(|a, b| a.denom.cmp(&b.denom));
                (json!({"register": {"native_coins": entries()}}), f)
            }
            "Remove" => (json!({"remove": {"native_coins": v["l"].as_array().unwrap().iter().map(|d| name(int(d))).collect::<Vec<_>>()}}), vec![]),
            "Handover" => {
                self.h.exec(&who, &c, &json!({"propose_new_owner": {"owner": v["next"], "expires_in": 100}}), &[])?;
                return self.h.exec(&txt(&v["next"]), &c, &json!({"claim_ownership": {}}), &[]).map(|_| ());
            }
            "Upgrade" => return self.h.upgrade(&c, v, &json!({}), |_| {}),
            t => return Err(format!("unknown message {t}")),
        };
        self.h.exec(&who, &c, &m, &funds).map(|_| ())
    }
}

impl Driver for Registry {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = Obs::new();
        o.insert("st.owner".into(), self.h.smart(&self.c, &json!({"config": {}}))?["owner"].clone());
        let all = self.h.smart(&self.c, &json!({"native_tokens": {"limit": 1000}}))?;
        let mut m = Obs::new();
        for e in all.as_array().unwrap() {
            m.insert(txt(&number(&e["denom"])), s(&e["decimals"]));
        }
        // the same coins, no more and no fewer
        let want: Vec<&String> = st["st"]["decimals"].as_object().unwrap().keys().collect();
        let mut got: Vec<&String> = m.keys().collect();
        let (mut w2, _) = (want.clone(), got.sort());
        w2.sort();
        let same = got == w2;
        o.insert("st.decimals".into(), if same { Value::Object(m) } else { json!(got) });
        for n in 0..4 {
            o.insert(format!("st.held.{n}"), s(self.h.bank("alice", &name(n))));
        }
        let p = &st["probe"];
        let q = self.h.smart(&self.c, &json!({"native_token": {"denom": name(int(&p["coin"]))}}));
        o.insert("probe.n".into(), q.map(|v| s(&v)).unwrap_or(s(-1)));
        let after = opt(&p["after"], |n| json!(name(n as i128)));
        let q = self.h.smart(&self.c, &json!({"native_tokens": {"start_after": after, "limit": opt(&p["limit"], |n| json!(n as u32))}}))?;
        o.insert("probe.page".into(), q.as_array().unwrap().iter().map(|e| json!({"d": number(&e["denom"]), "n": s(&e["decimals"])})).collect());
        Ok(o)
    }
    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}
