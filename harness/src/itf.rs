//! Reads Quint's ITF traces into plain JSON: integers become decimal strings, maps with string keys become objects
//! (other maps: sorted lists of pairs), sets become sorted lists, tuples become lists.
use serde_json::{Map, Value};

pub fn simplify(v: &Value) -> Value {
    match v {
        Value::Object(o) => {
            if let Some(b) = o.get("#bigint") {
                return match b {
                    Value::String(s) => Value::String(s.clone()),
                    n => Value::String(n.to_string()),
                };
            }
            if let Some(Value::Array(pairs)) = o.get("#map") {
                let ps: Vec<(Value, Value)> =
                    pairs.iter().map(|p| (simplify(&p[0]), simplify(&p[1]))).collect();
                if ps.iter().all(|(k, _)| k.is_string()) {
                    let mut m = Map::new();
                    for (k, v) in ps {
                        m.insert(k.as_str().unwrap().to_string(), v);
                    }
                    return Value::Object(m);
                }
                let mut l: Vec<Value> = ps.into_iter().map(|(k, v)| Value::Array(vec![k, v])).collect();
                l.sort_by_key(|x| x.to_string());
                return Value::Array(l);
            }
            if let Some(Value::Array(xs)) = o.get("#set") {
                let mut l: Vec<Value> = xs.iter().map(simplify).collect();
                l.sort_by_key(|x| x.to_string());
                return Value::Array(l);
            }
            if let Some(Value::Array(xs)) = o.get("#tup") {
                return Value::Array(xs.iter().map(simplify).collect());
            }
            Value::Object(o.iter().map(|(k, v)| (k.clone(), simplify(v))).collect())
        }
        Value::Array(a) => Value::Array(a.iter().map(simplify).collect()),
        Value::Number(n) => Value::String(n.to_string()),
        x => x.clone(),
    }
}

pub fn load(path: &std::path::Path) -> anyhow::Result<Vec<Value>> {
    let v: Value = serde_json::from_slice(&std::fs::read(path)?)?;
    let states = v["states"].as_array().ok_or_else(|| anyhow::anyhow!("no states in {path:?}"))?;
    Ok(states
        .iter()
        .map(|s| {
            // variables carry the instance they come from: `xyk_pair::xyk::st`
            match simplify(s) {
                Value::Object(m) => Value::Object(
                    m.into_iter()
                        .filter(|(k, _)| k != "#meta")
                        .map(|(k, v)| (k.rsplit("::").next().unwrap().to_string(), v))
                        .collect(),
                ),
                o => o,
            }
        })
        .collect())
}

/// `a.b[2].c` into a simplified state
pub fn at<'a>(v: &'a Value, path: &str) -> Option<&'a Value> {
    let mut cur = v;
    for part in path.split('.') {
        cur = match cur {
            Value::Object(o) => o.get(part)?,
            Value::Array(a) => a.get(part.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(cur)
}
