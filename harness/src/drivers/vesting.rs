//! spec/vesting.qnt on astroport-vesting with a native or a cw20 token.
use super::*;
use crate::host::*;
use cosmwasm_std::Addr;
use serde_json::{json, Value};

pub struct Vesting {
    h: Host,
    c: Addr,
    token: A,
    foreign: A,
}

const HOLDERS: [&str; 6] = ["owner", "alice", "bob", "carol", "dave", "vest"];
const USERS: [&str; 3] = ["alice", "bob", "carol"];

fn schedules(v: &Value) -> Value {
    Value::Array(
        v.as_array()
            .unwrap()
            .iter()
            .map(|c| {
                json!({"start_point": {"time": num(&c["start"]), "amount": c["first"]},
                    "end_point": opt(&c["end"], |t| json!({"time": t as u64, "amount": c["total"]}))})
            })
            .collect(),
    )
}

fn accounts(v: &Value) -> Value {
    let l: Vec<Value> =
        v.as_array().unwrap().iter().map(|a| json!({"address": a["who"], "schedules": schedules(&a["schedules"])})).collect();
    json!({"register_vesting_accounts": {"vesting_accounts": l}})
}

impl Vesting {
    pub fn new(init: &Value) -> Result<Vesting, String> {
        let st = &init["st"];
        let mut h = Host::new(num(&st["now"]), 100);
        let n = amt(&st["bal"]["owner"]);
        let (token, foreign) = if yes(&st["cw20"]) {
            (
                A::Token(h.new_cw20("astro", 6, &[("owner", n)])),
                A::Token(h.new_cw20("other", 6, &[("owner", n), ("alice", n)])),
            )
        } else {
            h.fund("owner", n, "uastro");
            h.fund("owner", n, "uother");
            h.fund("alice", n, "uother");
            (A::native("uastro"), A::native("uother"))
        };
        let code = h.store(vesting());
        let c = h.inst(code, "owner", &json!({"owner": "owner", "vesting_token": token.info()}), &[], None)?;
        Ok(Vesting { h, c, token, foreign })
    }

    fn exec(&mut self, st: &Value) -> R<()> {
        let v = &st["msg"]["value"];
        let who = || txt(&v["who"]);
        let to = |other: &str| if txt(&v["to"]) == other { Value::Null } else { v["to"].clone() };
        let c = self.c.clone();
        let r = match st["msg"]["tag"].as_str().unwrap() {
            "Register" => {
                let (body, n) = (accounts(&v["accounts"]), amt(&v["amount"]));
                let funds = txt(&v["funds"]);
                let a = if funds == "foreign" { &self.foreign } else { &self.token };
                match a.clone() {
                    A::Native(d) => {
                        let mut f = vec![coin(n, &d)];
                        if funds == "two" {
                            f.push(coin(1, "uother"));
                        }
                        self.h.exec(&who(), &c, &body, &f)
                    }
                    A::Token(_) if funds == "two" => self.h.exec(&who(), &c, &body, &[]),
                    A::Token(t) => self.h.exec(
                        &who(),
                        &t,
                        &json!({"send": {"contract": c, "amount": n.to_string(), "msg": b64(&body)}}),
                        &[],
                    ),
                }
            }
            "Spoof" => {
                let l = json!([{"who": "alice", "schedules": v["schedules"]}]);
                let n = v["schedules"][0]["total"].clone();
                self.h.exec(
                    &who(),
                    &c,
                    &json!({"receive": {"sender": "owner", "amount": n, "msg": b64(&accounts(&l))}}),
                    &[],
                )
            }
            "Claim" => self.h.exec(
                &who(),
                &c,
                &json!({"claim": {"recipient": to(&who()), "amount": opt(&v["amount"], |n| s(n))}}),
                &[],
            ),
            "Reclaim" => self.h.exec(
                &who(),
                &c,
                &json!({"withdraw_from_active_schedule": {"account": v["account"], "recipient": to(&who()),
                    "withdraw_amount": v["amount"]}}),
                &[],
            ),
            "Wait" => {
                let b = self.h.app.block_info();
                self.h.set_block(b.time.seconds() + num(&v["seconds"]), b.height + 1);
                return Ok(());
            }
            t => return Err(format!("unknown message {t}")),
        };
        r.map(|_| ())
    }
}

impl Driver for Vesting {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = Obs::new();
        for n in HOLDERS {
            let who = if n == "vest" { self.c.to_string() } else { n.to_string() };
            o.insert(format!("st.bal.{n}"), s(self.h.balance(&who, &self.token)));
        }
        for u in USERS {
            match self.h.smart(&self.c, &json!({"vesting_account": {"address": u}})) {
                Err(_) => {
                    o.insert(format!("st.accounts.{u}.on"), Value::Bool(false));
                }
                Ok(v) => {
                    let l: Vec<Value> = v["info"]["schedules"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|c| {
                            let e = &c["end_point"];
                            let first = c["start_point"]["amount"].clone();
                            json!({"start": c["start_point"]["time"].to_string(), "first": first,
                                "end": if e.is_null() { s(-1) } else { s(&e["time"]) },
                                "total": if e.is_null() { first } else { e["amount"].clone() }})
                        })
                        .collect();
                    o.insert(
                        format!("st.accounts.{u}"),
                        json!({"on": true, "schedules": l, "released": v["info"]["released_amount"]}),
                    );
                }
            }
        }
        let now = self.h.app.block_info().time.seconds();
        if self.h.smart(&self.c, &json!({"config": {}}))?["vesting_token"] != self.token.info() || self.h.smart(&self.c, &json!({"timestamp": {}}))? != json!(now) {
            o.insert("st.bal.vest".into(), json!("another token or time"));
        }
        let p = &st["probe"];
        let v = match self.h.smart(&self.c, &json!({"available_amount": {"address": p["user"]}})) {
            Ok(n) => json!({"ok": true, "n": n}),
            Err(_) => json!({"ok": false, "n": "0"}),
        };
        o.insert("probe.available".into(), v);
        let g = &p["page"];
        let after = if txt(&g["after"]).is_empty() { Value::Null } else { g["after"].clone() };
        let order = if !yes(&g["desc"]) {
            json!("asc")
        } else if after.is_null() {
            Value::Null
        } else {
            json!("desc")
        };
        let l = self.h.smart(
            &self.c,
            &json!({"vesting_accounts": {"start_after": after, "limit": opt(&g["limit"], |n| json!(n as u32)), "order_by": order}}),
        )?;
        let names: Vec<Value> = l["vesting_accounts"].as_array().unwrap().iter().map(|a| a["address"].clone()).collect();
        o.insert("probe.page.names".into(), Value::Array(names));
        Ok(o)
    }

    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}
