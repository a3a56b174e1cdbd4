//! spec/buffer.qnt on astroport-circular-buffer.
use super::*;
use astroport_circular_buffer::{error::BufferError, BufferManager, CircularBuffer};
use cosmwasm_std::testing::MockStorage;
use serde_json::{json, Value};

const RING: CircularBuffer<u64> = CircularBuffer::new("ring_state", "ring");

pub struct Buffer {
    store: MockStorage,
}

fn why(e: BufferError) -> String {
    match e {
        BufferError::BufferAlreadyInitialized {} => "initialized",
        BufferError::BufferNotInitialized {} => "not_initialized",
        BufferError::ReadAheadError(_) => "ahead",
        BufferError::IndexNotFound(_) => "empty",
        _ => "other",
    }
    .into()
}

fn last(b: &BufferManager<u64>, store: &MockStorage) -> Result<Value, String> {
    Ok(b.read_last(store).map_err(why)?.map(s).unwrap_or(s(-1)))
}

impl Buffer {
    pub fn new(_: &Value) -> Result<Buffer, String> {
        Ok(Buffer { store: MockStorage::new() })
    }
    /// What the session saw before it was stored.
    fn exec(&mut self, st: &Value) -> Result<Option<(Value, Value)>, String> {
        let m = &st["msg"];
        let v = &m["value"];
        let vals: Vec<u64> = v["vals"].as_array().map(|l| l.iter().map(num).collect()).unwrap_or_default();
        match m["tag"].as_str().unwrap() {
            "Init" => BufferManager::init(&mut self.store, RING, num(&v["cap"]) as u32).map_err(why).map(|_| None),
            "Write" => {
                let mut b = BufferManager::new(&self.store, RING).map_err(why)?;
                match txt(&v["how"]).as_str() {
                    "instant" => {
                        for x in &vals {
                            b.instant_push(&mut self.store, x).map_err(why)?;
                        }
                        return Ok(None);
                    }
                    "many" => b.push_many(&vals),
                    _ => vals.iter().for_each(|x| b.push(x)),
                }
                let mid = (s(b.head()), last(&b, &self.store)?);
                if yes(&v["commit"]) {
                    b.commit(&mut self.store).map_err(why)?;
                    // nothing is left to store
                    b.commit(&mut self.store).map_err(why)?;
                }
                Ok((!vals.is_empty()).then_some(mid))
            }
            "Clear" => {
                let b = BufferManager::new(&self.store, RING).map_err(why)?;
                b.clear_buffer(&mut self.store);
                Ok(None)
            }
            t => Err(format!("unknown message {t}")),
        }
    }
}

impl Driver for Buffer {
    fn observe(&mut self, st: &Value) -> Result<Obs, String> {
        let p = &st["probe"];
        let mut o = Obs::new();
        let mut out = p.clone();
        match BufferManager::new(&self.store, RING) {
            Err(e) => {
                for (k, v) in [("head", s(-1)), ("cap", s(0)), ("every", json!([])), ("last", s(-1)), ("single", s(-1))] {
                    out[k] = v;
                }
                out["exists"] = json!(false);
                out["answer"] = json!([]);
                out["why"] = json!(why(e));
                out["mid"] = json!({"head": "-1", "last": "-1"});
            }
            Ok(b) => {
                let list = |l: Vec<u64>| -> Value { l.into_iter().map(s).collect() };
                out["head"] = s(b.head());
                out["cap"] = s(b.capacity());
                out["every"] = list(b.read_all(&self.store).map_err(why)?);
                out["last"] = last(&b, &self.store)?;
                let i = num(&p["index"]) as u32;
                out["single"] = b.read_single(&self.store, i).map_err(why)?.map(s).unwrap_or(s(-1));
                out["exists"] = json!(b.exists(&self.store, i));
                let at: Vec<u32> = p["ask"]["at"].as_array().unwrap().iter().map(|x| num(x) as u32).collect();
                match b.read(&self.store, at, yes(&p["ask"]["stop"])) {
                    Ok(l) => {
                        out["answer"] = list(l);
                        out["why"] = json!("ok");
                    }
                    Err(e) => {
                        out["answer"] = json!([]);
                        out["why"] = json!(why(e));
                    }
                }
                out["mid"] = json!({"head": out["head"], "last": out["last"]});
            }
        }
        for k in ["head", "cap", "every", "last", "single", "exists", "answer", "why"] {
            o.insert(format!("probe.{k}"), out[k].clone());
        }
        o.insert("probe.mid".into(), out["mid"].clone());
        Ok(o)
    }
    fn step(&mut self, st: &Value) -> Result<Obs, String> {
        let r = self.exec(st);
        let mut o = self.observe(st)?;
        if let Ok(Some((head, last))) = &r {
            o.insert("probe.mid".into(), json!({"head": head, "last": last}));
        }
        o.insert("res".into(), outcome(&r));
        Ok(o)
    }
}
