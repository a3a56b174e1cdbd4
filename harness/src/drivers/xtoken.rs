//! spec/xtoken.qnt on astroport-xastro-token.
use super::*;
use crate::host::*;
use cosmwasm_std::Addr;
use serde_json::{json, Value};

pub struct XToken {
    h: Host,
    c: Addr,
    sink: Addr,
    code: u64,
}

const USERS: [&str; 4] = ["alice", "bob", "carol", "minter"];
const ALL: [&str; 5] = ["alice", "bob", "carol", "minter", "sink"];

fn expires(v: &Value) -> Value {
    match v["expires"].as_str().unwrap() {
        "" => Value::Null,
        "never" => json!({"never": {}}),
        "height" => json!({"at_height": num(&v["at"])}),
        _ => json!({"at_time": (num(&v["at"]) * 1_000_000_000).to_string()}),
    }
}

fn logo(kind: &str) -> Value {
    let png: Vec<u8> = vec![0x89, b'P', b'N', b'G', 0x0d, 0x0a, 0x1a, 0x0a];
    let fill = |start: &[u8], n: usize| {
        let mut v = start.to_vec();
        v.resize(n, b' ');
        cosmwasm_std::Binary(v).to_base64()
    };
    let xml = b"<?xml version=\"1.0\"?><svg></svg>";
    match kind {
        "none" => Value::Null,
        "url" => json!({"url": "https://x"}),
        "svg" => json!({"embedded": {"svg": fill(xml, 40)}}),
        "badsvg" => json!({"embedded": {"svg": fill(b"<svg></svg>", 40)}}),
        "bigsvg" => json!({"embedded": {"svg": fill(xml, 5121)}}),
        "png" => json!({"embedded": {"png": fill(&png, 9)}}),
        "badpng" => json!({"embedded": {"png": fill(b"PNG", 40)}}),
        "bigpng" => json!({"embedded": {"png": fill(&png, 5121)}}),
        _ => json!({"embedded": {"png": fill(&png, 5120)}}),
    }
}

impl XToken {
    pub fn new(init: &Value) -> Result<XToken, String> {
        let st = &init["st"];
        let mut h = Host::new(num(&st["now"]), num(&st["h"]));
        let (code, scode) = (h.store(xastro_token()), h.store(sink()));
        let sink = h.inst(scode, "owner", &json!({}), &[], None)?;
        let given: Vec<Value> = USERS
            .iter()
            .filter(|u| yes(&st["known"][*u]))
            .map(|u| json!({"address": u, "amount": st["bal"][*u]}))
            .collect();
        let mint = if yes(&st["minter"]) {
            json!({"minter": "minter", "cap": opt(&st["cap"], |n| s(n))})
        } else {
            Value::Null
        };
        let m = &st["market"];
        let given_or = |x: &Value| if txt(x).is_empty() { Value::Null } else { x.clone() };
        let market = if yes(&m["on"]) {
            json!({"project": given_or(&m["project"]), "description": given_or(&m["description"]), "marketing": given_or(&m["boss"]), "logo": logo(&txt(&m["logo"]))})
        } else {
            Value::Null
        };
        let c = h.inst(
            code,
            "owner",
            &json!({"name": "Staked Astro", "symbol": "xASTRO", "decimals": 6, "initial_balances": given, "mint": mint,
                "marketing": market}),
            &[],
            Some("admin"),
        )?;
        Ok(XToken { h, c, sink, code })
    }
    fn addr(&self, n: &Value) -> String {
        if n == "sink" {
            self.sink.to_string()
        } else {
            txt(n)
        }
    }
    fn exec(&mut self, st: &Value) -> R<()> {
        let v = &st["msg"]["value"];
        let n = &v["amount"];
        let hook = || b64(&json!(if yes(&v["accepts"]) { "take" } else { "reject" }));
        let body = match st["msg"]["tag"].as_str().unwrap() {
            "Transfer" => json!({"transfer": {"recipient": self.addr(&v["dest"]), "amount": n}}),
            "Send" => json!({"send": {"contract": self.sink, "amount": n, "msg": hook()}}),
            "Burn" => json!({"burn": {"amount": n}}),
            "Mint" => json!({"mint": {"recipient": self.addr(&v["dest"]), "amount": n}}),
            "Allow" => {
                let b = json!({"spender": self.addr(&v["spender"]), "amount": n, "expires": expires(v)});
                if yes(&v["up"]) {
                    json!({ "increase_allowance": b })
                } else {
                    json!({ "decrease_allowance": b })
                }
            }
            "TransferFrom" => json!({"transfer_from": {"owner": self.addr(&v["owner"]), "recipient": self.addr(&v["dest"]), "amount": n}}),
            "BurnFrom" => json!({"burn_from": {"owner": self.addr(&v["owner"]), "amount": n}}),
            "SendFrom" => json!({"send_from": {"owner": self.addr(&v["owner"]), "contract": self.sink, "amount": n, "msg": hook()}}),
            "NewToken" => {
                let given: Vec<Value> = v["balances"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|b| json!({"address": b["who"], "amount": b["amount"]}))
                    .collect();
                let m = json!({"name": "x".repeat(num(&v["name"]) as usize), "symbol": v["symbol"], "decimals": num(&v["decimals"]) as u8,
                    "initial_balances": given, "mint": {"minter": "minter", "cap": opt(&v["cap"], |n| s(n))},
                    "marketing": {"project": null, "description": null, "marketing": null, "logo": logo(&txt(&v["logo"]))}});
                let c = self.h.inst(self.code, "owner", &m, &[], None)?;
                let mut total = 0;
                for b in v["balances"].as_array().unwrap() {
                    total += amt(&b["amount"]);
                    let has = self.h.smart(&c, &json!({"balance": {"address": b["who"]}}))?["balance"].clone();
                    if has != b["amount"] {
                        // accepted, but not what was asked: neither the acceptance nor the refusal expected
                        return if st["res"] == "ok" { Err(format!("{} holds {has}", b["who"])) } else { Ok(()) };
                    }
                }
                let supply = self.h.smart(&c, &json!({"token_info": {}}))?["total_supply"].clone();
                let at = self.h.smart(&c, &json!({"total_supply_at": {"block": self.h.app.block_info().height}}))?;
                if supply != s(total) || at != s(total) {
                    return if st["res"] == "ok" { Err(format!("supply {supply}, recorded {at}")) } else { Ok(()) };
                }
                return Ok(());
            }
            "Describe" => {
                let told = |x: &Value| if txt(x) == "-" { Value::Null } else { json!(self.addr(x)) };
                json!({"update_marketing": {"project": told(&v["project"]), "description": told(&v["description"]), "marketing": told(&v["boss"])}})
            }
            "Logo" => json!({"upload_logo": logo(&txt(&v["kind"]))}),
            "Wait" => {
                let b = self.h.app.block_info();
                self.h.set_block(b.time.seconds() + num(&v["seconds"]), b.height + 1);
                return Ok(());
            }
            "Upgrade" => return self.h.upgrade(&self.c.clone(), v, &json!({}), |_| {}),
            t => return Err(format!("unknown message {t}")),
        };
        let c = self.c.clone();
        let who = self.addr(&v["who"]);
        self.h.exec(&who, &c, &body, &[]).map(|_| ())
    }
    fn names(&self, q: &Value, key: &str) -> Result<Vec<String>, String> {
        let v = self.h.smart(&self.c, q)?;
        Ok(v[key].as_array().unwrap().iter().map(|a| if *a == *self.sink.as_str() { "sink".into() } else { txt(a) }).collect())
    }
}

impl Driver for XToken {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = Obs::new();
        for u in ALL {
            let a = self.addr(&json!(u));
            o.insert(format!("st.bal.{u}"), self.h.smart(&self.c, &json!({"balance": {"address": a}}))?["balance"].clone());
        }
        o.insert("st.supply".into(), self.h.smart(&self.c, &json!({"token_info": {}}))?["total_supply"].clone());
        let mut got = self.h.smart(&self.sink, &json!("last"))?;
        if got["by"] == *self.sink.as_str() {
            got["by"] = json!("sink");
        }
        o.insert("st.got".into(), got);
        let p = &st["probe"];
        let (u, h) = (self.addr(&p["at"]["user"]), num(&p["at"]["h"]));
        o.insert(
            "probe.at.balance".into(),
            self.h.smart(&self.c, &json!({"balance_at": {"address": u, "block": h}}))?["balance"].clone(),
        );
        o.insert("probe.at.supply".into(), self.h.smart(&self.c, &json!({"total_supply_at": {"block": h}}))?);
        let a = &p["allow"];
        let v = self.h.smart(&self.c, &json!({"allowance": {"owner": self.addr(&a["owner"]), "spender": self.addr(&a["spender"])}}))?;
        o.insert("probe.allow.a.n".into(), v["allowance"].clone());
        if txt(&a["a"]["expires"]) != "none" {
            let e = &v["expires"];
            let (kind, at) = if !e["at_height"].is_null() {
                ("height", s(&e["at_height"]))
            } else if !e["at_time"].is_null() {
                ("time", s(e["at_time"].as_str().unwrap().trim_end_matches("000000000")))
            } else {
                ("never", p["allow"]["a"]["at"].clone())
            };
            o.insert("probe.allow.a.expires".into(), json!(kind));
            o.insert("probe.allow.a.at".into(), at);
        }
        let m = self.h.smart(&self.c, &json!({"minter": {}}))?;
        o.insert("probe.cap".into(), if m["cap"].is_null() { s(-1) } else { m["cap"].clone() });
        let g = &p["page"];
        let after = if txt(&g["after"]).is_empty() { Value::Null } else { json!(self.addr(&g["after"])) };
        let names = self.names(
            &json!({"all_accounts": {"start_after": after, "limit": opt(&g["limit"], |n| json!(n as u32))}}),
            "accounts",
        )?;
        o.insert("probe.page.names".into(), json!(names));
        let g = &p["spenders"];
        let asked = json!({"all_allowances": {"owner": self.addr(&g["owner"]), "start_after": after, "limit": opt(&g["limit"], |n| json!(n as u32))}});
        let names: Vec<String> = self.h.smart(&self.c, &asked)?["allowances"]
            .as_array()
            .unwrap()
            .iter()
            .map(|a| if a["spender"] == *self.sink.as_str() { "sink".into() } else { txt(&a["spender"]) })
            .collect();
        o.insert("probe.spenders.names".into(), json!(names));
        let m = self.h.smart(&self.c, &json!({"marketing_info": {}}))?;
        let or = |x: &Value| if x.is_null() { json!("") } else if *x == *self.sink.as_str() { json!("sink") } else { x.clone() };
        o.insert("st.market.project".into(), or(&m["project"]));
        o.insert("st.market.description".into(), or(&m["description"]));
        o.insert("st.market.boss".into(), or(&m["marketing"]));
        let kind = txt(&st["st"]["market"]["logo"]);
        let shown = self.h.smart(&self.c, &json!({"download_logo": {}}));
        let is = match (&m["logo"], shown) {
            (Value::Null, Err(_)) => "none".to_string(),
            (x, Err(_)) if *x == json!({"url": "https://x"}) => "url".into(),
            (x, Ok(l)) if *x == "embedded" && l["mime_type"] == "image/svg+xml" => "svg".into(),
            // which of the pictures, by its size
            (x, Ok(l)) if *x == "embedded" && l["mime_type"] == "image/png" => match txt(&l["data"]).len() {
                12 => "png".into(),
                6828 => "fullpng".into(),
                n => format!("png of {n}"),
            },
            (x, l) => format!("{x} {l:?}"),
        };
        o.insert("st.market.logo".into(), json!(if is == kind { kind } else { is }));
        Ok(o)
    }

    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}
