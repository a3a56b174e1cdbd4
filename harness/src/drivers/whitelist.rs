//! spec/whitelist.qnt on astroport-whitelist's entry points (its messages are a chain's own, which no simulated chain here knows).
use super::*;
use astroport_whitelist::contract::{execute, instantiate, query, sudo};
use cosmwasm_std::testing::{mock_dependencies, mock_env, mock_info, MockApi, MockQuerier, MockStorage};
use cosmwasm_std::{from_json, to_json_vec, OwnedDeps};
use serde_json::{json, Value};

pub struct Whitelist {
    deps: OwnedDeps<MockStorage, MockApi, MockQuerier>,
    sent: Value,
}

/// a proxied message by name
fn message(v: &Value) -> Value {
    match v.as_str().unwrap() {
        "send" => json!({"bank": {"send": {"to_address": "bob", "amount": [{"denom": "ucoin", "amount": "5"}]}}}),
        "wasm" => json!({"wasm": {"execute": {"contract_addr": "c", "msg": "e30=", "funds": []}}}),
        _ => json!({"custom": {"register_interchain_account": {"connection_id": "c", "interchain_account_id": "i", "register_fee": null}}}),
    }
}
fn addrs(v: &Value) -> Value {
    v.as_array().unwrap().iter().map(|a| if a == "bad" { json!("") } else { a.clone() }).collect()
}
fn cast<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T, String> {
    from_json(serde_json::to_vec(v).unwrap()).map_err(|e| e.to_string())
}

impl Whitelist {
    pub fn new(init: &Value) -> Result<Whitelist, String> {
        let st = &init["st"];
        let mut deps = mock_dependencies();
        let m = cast(&json!({"admins": st["admins"], "mutable": st["mutable"]}))?;
        instantiate(deps.as_mut(), mock_env(), mock_info("x", &[]), m).map_err(|e| e.to_string())?;
        Ok(Whitelist { deps, sent: json!([]) })
    }
    fn exec(&mut self, st: &Value) -> Result<Value, String> {
        let v = &st["msg"]["value"];
        let m = match st["msg"]["tag"].as_str().unwrap() {
            "Execute" => json!({"execute": {"msgs": v["msgs"].as_array().unwrap().iter().map(message).collect::<Vec<_>>()}}),
            "Freeze" => json!({"freeze": {}}),
            "Admins" => json!({"update_admins": {"admins": addrs(&v["admins"])}}),
            "Create" => {
                let m = cast(&json!({"admins": addrs(&v["admins"]), "mutable": v["mutable"]}))?;
                let mut d = mock_dependencies();
                return instantiate(d.as_mut(), mock_env(), mock_info("x", &[]), m).map(|_| json!([])).map_err(|e| e.to_string());
            }
            "Callback" => {
                let m = cast(&json!({"timeout": {"request": {}}}))?;
                return sudo(self.deps.as_mut(), mock_env(), m).map(|r| json!(r.messages.len() as u64)).map(|_| json!([])).map_err(|e| e.to_string());
            }
            t => return Err(format!("unknown message {t}")),
        };
        let r = execute(self.deps.as_mut(), mock_env(), mock_info(&txt(&v["who"]), &[]), cast(&m)?).map_err(|e| e.to_string())?;
        let l = r.messages.iter().map(|m| {
            let got: Value = serde_json::from_slice(&to_json_vec(&m.msg).unwrap()).unwrap();
            let plain = format!("{:?}", m.reply_on) == "Never" && m.gas_limit.is_none();
            ["send", "wasm", "neutron"].iter().find(|n| plain && message(&json!(n)) == got).map(|n| json!(n)).unwrap_or(got)
        });
        Ok(l.collect())
    }
    fn ask(&self, m: Value) -> Result<Value, String> {
        let b = query(self.deps.as_ref(), mock_env(), cast(&m)?).map_err(|e| e.to_string())?;
        serde_json::from_slice(&b).map_err(|e| e.to_string())
    }
}

impl Driver for Whitelist {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = Obs::new();
        let a = self.ask(json!({"admin_list": {}}))?;
        o.insert("st.admins".into(), a["admins"].clone());
        o.insert("st.mutable".into(), a["mutable"].clone());
        o.insert("st.sent".into(), self.sent.clone());
        let q = self.ask(json!({"can_execute": {"sender": st["probe"]["who"], "msg": message(&json!("send"))}}))?;
        o.insert("probe.can".into(), q["can_execute"].clone());
        Ok(o)
    }
    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        self.sent = r.clone().unwrap_or(json!([]));
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}
