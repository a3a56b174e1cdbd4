//! Replays behaviours generated from the Quint specifications into the real contracts and compares, after every
//! step, what the contracts did with what the specification says.
mod drivers;
mod host;
mod itf;

use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

struct Args {
    driver: String,
    traces: PathBuf,
    report: PathBuf,
    out: PathBuf,
    ignore: Vec<String>,
    watch: Vec<String>,
    /// only steps of these messages are judged (queries are judged after every step)
    ops: Vec<String>,
    jobs: usize,
    verbose: bool,
}

fn args() -> Args {
    let mut a = Args {
        driver: String::new(),
        traces: PathBuf::new(),
        report: PathBuf::new(),
        out: PathBuf::new(),
        ignore: vec![],
        watch: vec![],
        ops: vec![],
        jobs: 8,
        verbose: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        if k == "--verbose" {
            a.verbose = true;
            continue;
        }
        let v = it.next().unwrap_or_else(|| panic!("{k} needs a value"));
        let list = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<Vec<_>>();
        match k.as_str() {
            "--driver" => a.driver = v,
            "--traces" => a.traces = v.into(),
            "--report" => a.report = v.into(),
            "--out" => a.out = v.into(),
            "--ignore" => a.ignore = list(&v),
            "--watch" => a.watch = list(&v),
            "--ops" => a.ops = list(&v),
            "--jobs" => a.jobs = v.parse().unwrap(),
            _ => panic!("unknown argument {k}"),
        }
    }
    a
}

/// Outcome of a step: both must be ok, or neither.
fn same_outcome(spec: &Value, got: &Value) -> bool {
    let ok = |v: &Value| v.as_str() == Some("ok");
    ok(spec) == ok(got)
}

fn diff(path: &str, spec: &Value, got: &Value, out: &mut Vec<(String, Value, Value)>) {
    match (spec, got) {
        (Value::Object(s), Value::Object(g)) => {
            // only what the driver observed is compared
            for (k, gv) in g {
                match s.get(k) {
                    Some(sv) => diff(&format!("{path}.{k}"), sv, gv, out),
                    None => out.push((format!("{path}.{k}"), Value::Null, gv.clone())),
                }
            }
        }
        (Value::Array(s), Value::Array(g)) if s.len() == g.len() => {
            for (i, (sv, gv)) in s.iter().zip(g).enumerate() {
                diff(&format!("{path}.{i}"), sv, gv, out)
            }
        }
        _ => {
            if spec != got {
                out.push((path.to_string(), spec.clone(), got.clone()))
            }
        }
    }
}

#[derive(Default)]
struct TraceReport {
    steps: usize,
    ops: BTreeMap<String, (usize, usize)>,
    reasons: BTreeMap<String, usize>,
    /// (step, message, differences)
    mismatch: Option<(usize, Value, Value)>,
    out_of_scope: Option<(usize, Value)>,
    sample: Vec<Value>,
    panics: usize,
    /// hashes of (message, resulting specification state) of the accepted messages
    seen: Vec<u64>,
}

fn replay(driver: &str, states: &[Value], a: &Args) -> Result<TraceReport, String> {
    let mut r = TraceReport::default();
    let mut d = drivers::make(driver, &states[0])?;
    for (i, st) in states.iter().enumerate() {
        let obs: Map<String, Value> = if i == 0 { d.observe(st)? } else { d.step(st)? };
        let op = d.op(st);
        if i > 0 {
            r.steps += 1;
            let want = st["res"].as_str().unwrap_or("ok").to_string();
            let e = r.ops.entry(op.clone()).or_default();
            if want == "ok" {
                e.0 += 1;
                if op != "Wait" {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    (st["msg"].to_string(), st["st"].to_string()).hash(&mut h);
                    r.seen.push(h.finish());
                }
            } else {
                e.1 += 1;
                *r.reasons.entry(want.clone()).or_default() += 1;
            }
            if r.sample.len() < 6 {
                r.sample.push(json!({"msg": st["msg"], "outcome": want}));
            }
        }
        let mut diffs = vec![];
        let mut hidden = vec![];
        for (path, got) in &obs {
            if path == "res" && i > 0 {
                let spec = st.get("res").cloned().unwrap_or(json!("ok"));
                if !same_outcome(&spec, got) {
                    diffs.push((format!("res.{op}.{}", spec.as_str().unwrap_or("?")), spec, got.clone()));
                }
                continue;
            }
            match itf::at(st, path) {
                Some(spec) => diff(path, spec, got, &mut diffs),
                None => return Err(format!("driver {driver} observes {path}, which the specification has not")),
            }
        }
        let hit = |p: &str, l: &[String]| l.iter().any(|x| p == x || p.starts_with(&format!("{x}.")));
        diffs.retain(|d| {
            let ours = a.ops.is_empty() || i == 0 || d.0.starts_with("probe.") || a.ops.contains(&op);
            let keep = ours && !hit(&d.0, &a.ignore) && (a.watch.is_empty() || hit(&d.0, &a.watch));
            if !keep {
                hidden.push(d.clone());
            }
            keep
        });
        let show = |l: &[(String, Value, Value)]| {
            Value::Array(l.iter().map(|(p, s, g)| json!({"at": p, "specification": s, "implementation": g})).collect())
        };
        if !diffs.is_empty() {
            r.mismatch = Some((i, st.get("msg").cloned().unwrap_or(Value::Null), show(&diffs)));
            return Ok(r);
        }
        if !hidden.is_empty() {
            // The code left the specification in something this property does not speak about: nothing after this
            // step can be judged on this trace.
            r.out_of_scope = Some((i, show(&hidden)));
            return Ok(r);
        }
    }
    Ok(r)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("REPLAY_PANICS").is_some() {
            eprintln!("{i}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
    let a = args();
    let mut files: Vec<PathBuf> = std::fs::read_dir(&a.traces)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.to_string_lossy().ends_with(".itf.json"))
        .collect();
    files.sort();
    let next = AtomicUsize::new(0);
    let done: Mutex<Vec<(PathBuf, Result<TraceReport, String>)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..a.jobs {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                let Some(f) = files.get(i) else { break };
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let st = itf::load(f).map_err(|e| e.to_string())?;
                    replay(&a.driver, &st, &a)
                }))
                .unwrap_or_else(|p| Err(format!("driver panicked: {}", host::panic_text(p))));
                done.lock().unwrap().push((f.clone(), res));
            });
        }
    });
    let mut done = done.into_inner().unwrap();
    done.sort_by(|x, y| x.0.cmp(&y.0));

    let mut steps = 0;
    let mut panics = 0;
    let mut ops: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    let mut reasons: BTreeMap<String, usize> = BTreeMap::new();
    let (mut validated, mut oos) = (0, 0);
    let mut seen = std::collections::BTreeSet::new();
    let mut oos_sample = Value::Null;
    let (mut mismatches, mut errors, mut samples) = (vec![], vec![], vec![]);
    for (f, r) in &done {
        match r {
            Err(e) => errors.push(json!({"trace": f, "error": e})),
            Ok(r) => {
                steps += r.steps;
                panics += r.panics;
                seen.extend(r.seen.iter().copied());
                for (k, v) in &r.ops {
                    let e = ops.entry(k.clone()).or_default();
                    e.0 += v.0;
                    e.1 += v.1;
                }
                for (k, v) in &r.reasons {
                    *reasons.entry(k.clone()).or_default() += v;
                }
                if samples.len() < 2 {
                    samples.push(json!({"trace": f.file_name().unwrap().to_string_lossy(), "first_steps": r.sample}));
                }
                if let Some((i, msg, d)) = &r.mismatch {
                    mismatches.push(json!({"trace": f, "step": i, "msg": msg, "differences": d}));
                } else if let Some((i, d)) = &r.out_of_scope {
                    oos += 1;
                    if oos_sample.is_null() {
                        oos_sample = json!({"trace": f, "step": i, "differences": d});
                    }
                } else {
                    validated += 1;
                }
            }
        }
    }
    let report = json!({
        "traces": done.len(), "validated": validated, "steps": steps, "distinct_accepted": seen.len(), "out_of_scope": oos,
        "out_of_scope_sample": oos_sample, "panics": panics,
        "ops": ops.iter().map(|(k, v)| (k.clone(), json!({"accepted": v.0, "rejected": v.1}))).collect::<Map<_, _>>(),
        "rejections": reasons, "mismatches": mismatches, "errors": errors, "samples": samples,
    });
    std::fs::write(&a.report, serde_json::to_string_pretty(&report).unwrap()).unwrap();
    if a.verbose {
        println!("{}", serde_json::to_string_pretty(&report).unwrap());
    }
    let _ = &a.out;
}
