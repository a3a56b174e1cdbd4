//! spec/granter.qnt on astroport-fee-granter and the chain's fee grants.
use super::*;
use crate::host::*;
use cosmwasm_std::{Addr, Coin};
use serde_json::{json, Value};

pub struct Granter {
    h: Host,
    c: Addr,
    code: u64,
}

const HOLDERS: [&str; 6] = ["owner", "alice", "bob", "carol", "granter", "dave"];
const GRANTEES: [&str; 4] = ["ka1x", "kb1x", "kc1x", "kd1x"];

fn addr(v: &Value) -> Value {
    if v == "bad" {
        json!("Not/An/Address")
    } else {
        v.clone()
    }
}
fn addrs(v: &Value) -> Value {
    v.as_array().unwrap().iter().map(addr).collect()
}

impl Granter {
    pub fn new(init: &Value) -> Result<Granter, String> {
        let st = &init["st"];
        let mut h = Host::new(1_700_000_000, 100);
        for u in &HOLDERS[..4] {
            h.fund(u, 1_000_000, "ugas");
            h.fund(u, 10u128.pow(18), "uother");
        }
        let code = h.store(fee_granter());
        let c = h.inst(code, "bob", &json!({"owner": "owner", "admins": st["admins"], "gas_denom": "ugas"}), &[], None)?;
        Ok(Granter { h, c, code })
    }
    fn exec(&mut self, st: &Value) -> R<()> {
        let v = &st["msg"]["value"];
        let c = self.c.clone();
        let me = self.c.to_string();
        let (m, funds): (Value, Vec<Coin>) = match st["msg"]["tag"].as_str().unwrap() {
            "Give" => (
                json!({"grant": {"grantee_contract": addr(&v["grantee"]), "amount": v["amount"], "bypass_amount_check": v["bypass"]}}),
                v["coins"].as_array().unwrap().iter().map(|c| coin(amt(&c["amount"]), if c["denom"] == "gas" { "ugas" } else { "uother" })).collect(),
            ),
            "Revoke" => (json!({"revoke": {"grantee_contract": addr(&v["grantee"])}}), vec![]),
            "Transfer" => {
                let dest = match v["dest"].as_str().unwrap() {
                    "" => Value::Null,
                    "granter" => json!(me),
                    x => json!(x),
                };
                (json!({"transfer_coins": {"amount": v["amount"], "receiver": dest}}), vec![])
            }
            "Admins" => (json!({"update_admins": {"add": addrs(&v["add"]), "remove": addrs(&v["remove"])}}), vec![]),
            "Handover" => {
                self.h.exec(&txt(&v["who"]), &c, &json!({"propose_new_owner": {"owner": v["next"], "expires_in": 100}}), &[])?;
                return self.h.exec(&txt(&v["next"]), &c, &json!({"claim_ownership": {}}), &[]).map(|_| ());
            }
            "Another" => {
                let d = denom(&v["coin"]);
                return self.h.inst(self.code, "bob", &json!({"owner": "owner", "admins": addrs(&v["admins"]), "gas_denom": d}), &[], None).map(|_| ());
            }
            t => return Err(format!("unknown message {t}")),
        };
        self.h.exec(&txt(&v["who"]), &c, &m, &funds).map(|_| ())
    }
}

impl Driver for Granter {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = Obs::new();
        let cfg = self.h.smart(&self.c, &json!({"config": {}}))?;
        o.insert("st.owner".into(), cfg["owner"].clone());
        let list = |v: &Value| {
            let mut l: Vec<String> = v.as_array().unwrap().iter().map(txt).collect();
            l.sort();
            l
        };
        let (got, want) = (list(&cfg["admins"]), &st["st"]["admins"]);
        o.insert("st.admins".into(), if got == list(want) { want.clone() } else { json!(got) });
        for n in HOLDERS {
            let who = if n == "granter" { self.c.to_string() } else { n.to_string() };
            o.insert(format!("st.bal.{n}"), s(self.h.bank(&who, "ugas")));
        }
        // the chain's grants, and what the contract says of them
        let mut chain = Obs::new();
        for g in GRANTEES {
            if let Some(t) = self.h.storage_get(&format!("host/feegrant/{g}")) {
                let v: Value = serde_json::from_str(&t).unwrap();
                let one = v.as_array().map(|l| l.len() == 1 && l[0]["denom"] == "ugas").unwrap_or(false);
                chain.insert(g.into(), if one { v[0]["amount"].clone() } else { v });
            }
        }
        let want: Vec<&String> = st["st"]["chain"].as_object().unwrap().keys().collect();
        let got: Vec<&String> = chain.keys().collect();
        o.insert("st.chain".into(), if got == want { Value::Object(chain) } else { json!(got) });
        let p = &st["probe"];
        let q = self.h.smart(&self.c, &json!({"grant_for": {"grantee_contract": p["one"]}}))?;
        o.insert("probe.n".into(), q["amount"].clone());
        let after = if txt(&p["after"]).is_empty() { Value::Null } else { p["after"].clone() };
        let q = self.h.smart(&self.c, &json!({"grants_list": {"start_after": after, "limit": opt(&p["limit"], |n| json!(n as u32))}}))?;
        o.insert("probe.page".into(), q.as_array().unwrap().iter().map(|g| json!({"who": g["grantee_contract"], "n": g["amount"]})).collect());
        Ok(o)
    }
    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}
