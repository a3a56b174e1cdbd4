//! spec/tracker.qnt on astroport-tokenfactory-tracker, behind a tokenfactory denom's bank hook.
use super::*;
use crate::host::*;
use cosmwasm_std::{Addr, CosmosMsg, Empty};
use cw_multi_test::Executor;
use osmosis_std::types::osmosis::tokenfactory::v1beta1::{MsgBurn, MsgCreateDenom, MsgMint, MsgSetBeforeSendHook};
use serde_json::{json, Value};

pub struct Tracker {
    h: Host,
    c: Addr,
    code: u64,
    release: u64,
}

const DENOM: &str = "factory/admin/tok";
const ALL: [&str; 4] = ["alice", "bob", "carol", "admin"];

impl Tracker {
    fn chain(&mut self, who: &str, m: impl Into<CosmosMsg<Empty>>) -> R<()> {
        let m = m.into();
        self.h.app.execute(Addr::unchecked(who), m).map(|_| ()).map_err(|e| format!("{e:#}"))
    }
    pub fn new(init: &Value) -> Result<Tracker, String> {
        let st = &init["st"];
        let mut h = Host::new(num(&st["now"]), num(&st["h"]));
        h.fund("alice", 10u128.pow(30), "uother");
        let (old, code) = (h.store(tracker_v1()), h.store(tracker()));
        let release = num(&st["release"]);
        let mut m = json!({"tokenfactory_module_address": TF_MODULE, "tracked_denom": DENOM});
        if release == 2 && yes(&st["seconds"]) {
            m["track_over_seconds"] = json!(true);
        }
        let c = h.inst(if release == 1 { old } else { code }, "admin", &m, &[], Some("admin"))?;
        let mut t = Tracker { h, c, code, release };
        t.chain("admin", MsgCreateDenom { sender: "admin".into(), subdenom: "tok".into() })?;
        let hook = MsgSetBeforeSendHook { sender: "admin".into(), denom: DENOM.into(), cosmwasm_address: t.c.to_string() };
        t.chain("admin", hook)?;
        Ok(t)
    }
    fn exec(&mut self, st: &Value) -> R<()> {
        let v = &st["msg"]["value"];
        let who = || txt(&v["who"]);
        let n = || amt(&v["amount"]);
        let c = || Some(coin(n(), DENOM).into());
        match st["msg"]["tag"].as_str().unwrap() {
            // (the chain refuses to mint and burn nothing)
            "Mint" if n() == 0 => Err("zero".into()),
            "Burn" if n() == 0 => Err("zero".into()),
            "Mint" => self.chain(&who(), MsgMint { sender: who(), amount: c(), mint_to_address: txt(&v["dest"]) }),
            "Burn" => self.chain(&who(), MsgBurn { sender: who(), amount: c(), burn_from_address: "".into() }),
            "Send" => self.h.send(&who(), &txt(&v["dest"]), n(), DENOM).map(|_| ()),
            "Other" => self.h.send(&who(), &txt(&v["dest"]), n(), "uother").map(|_| ()),
            "Hook" => {
                let denom = if txt(&v["denom"]) == "tracked" { DENOM } else { "factory/admin/other" };
                let kind = if txt(&v["kind"]) == "track" { "track_before_send" } else { "block_before_send" };
                let c = self.c.clone();
                self.h
                    .sudo_wasm(&c, &json!({kind: {"from": who(), "to": v["dest"], "amount": {"denom": denom, "amount": v["amount"]}}}))
                    .map(|_| ())
            }
            "Create" => {
                let denom = denom(&v["coin"]);
                let module = if txt(&v["tf"]) == "bad" { "NotAnAddress" } else { TF_MODULE };
                let m = json!({"tokenfactory_module_address": module, "tracked_denom": denom, "track_over_seconds": denom.len() % 2 == 0});
                let c = self.h.inst(self.code, "alice", &m, &[], None)?;
                let k = self.h.smart(&c, &json!({"config": {}}))?;
                let asked = json!({"tracked_denom": denom, "token_factory_module": TF_MODULE, "track_over_seconds": denom.len() % 2 == 0});
                if k == asked { Ok(()) } else { Err(format!("it says it tracks {k}")) }
            }
            "Migrate" => {
                let c = self.c.clone();
                self.h.migrate("admin", &c, self.code, &json!({"track_over_seconds": true})).map(|_| self.release = 2)
            }
            "Wait" => {
                let b = self.h.app.block_info();
                self.h.set_block(b.time.seconds() + num(&v["seconds"]), b.height + 1);
                Ok(())
            }
            t => Err(format!("unknown message {t}")),
        }
    }
}

impl Driver for Tracker {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let mut o = Obs::new();
        for u in ALL {
            o.insert(format!("st.bal.{u}"), s(self.h.bank(u, DENOM)));
        }
        o.insert("st.supply".into(), s(self.h.supply(DENOM)));
        let p = &st["probe"];
        let at = opt(&p["t"], |n| json!(n as u64));
        let key = if self.release == 1 { "timestamp" } else { "unit" };
        o.insert("probe.balance".into(), self.h.smart(&self.c, &json!({"balance_at": {"address": p["user"], key: at}}))?);
        o.insert("probe.supply".into(), self.h.smart(&self.c, &json!({"total_supply_at": {key: at}}))?);
        if self.release == 2 {
            let cfg = self.h.smart(&self.c, &json!({"config": {}}))?;
            o.insert("st.seconds".into(), cfg["track_over_seconds"].clone());
        }
        Ok(o)
    }

    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}
