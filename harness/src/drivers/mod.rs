use serde_json::{Map, Value};

pub mod buffer;
pub mod factory;
pub mod incentives;
pub mod granter;
pub mod maker;
pub mod oracle;
pub mod ownership;
pub mod registry;
pub mod router;
pub mod converter;
pub mod transmuter;
pub mod whitelist;
pub mod pcl;
pub mod pool;
pub mod stable;
pub mod staking;
pub mod tracker;
pub mod vesting;
pub mod world;
pub mod xtoken;
pub mod xyk;

pub type Obs = Map<String, Value>;

/// Runs one specification's messages on the real contracts.
pub trait Driver {
    /// What the contracts show right after set-up, by path into the specification's state.
    fn observe(&mut self, st: &Value) -> Result<Obs, String>;
    /// Executes `st.msg` and returns what the contracts show afterwards ("res" is the outcome).
    fn step(&mut self, st: &Value) -> Result<Obs, String>;
    fn op(&self, st: &Value) -> String {
        st["msg"]["tag"].as_str().unwrap_or("?").to_string()
    }
}

pub fn make(name: &str, init: &Value) -> Result<Box<dyn Driver>, String> {
    Ok(match name {
        "xyk" => Box::new(xyk::Xyk::new(init, false)?),
        "xyk_tax" => Box::new(xyk::Xyk::new(init, true)?),
        "buffer" => Box::new(buffer::Buffer::new(init)?),
        "factory" => Box::new(factory::Factory::new(init)?),
        "granter" => Box::new(granter::Granter::new(init)?),
        "maker" => Box::new(maker::Maker::new(init)?),
        "oracle" => Box::new(oracle::Oracle::new(init)?),
        "ownership" => Box::new(ownership::Ownership::new(init)?),
        "router" => Box::new(router::Router::new(init)?),
        "transmuter" => Box::new(transmuter::Transmuter::new(init)?),
        "converter" => Box::new(converter::Converter::new(init)?),
        "registry" => Box::new(registry::Registry::new(init)?),
        "whitelist" => Box::new(whitelist::Whitelist::new(init)?),
        "incentives" => Box::new(incentives::Incentives::new(init)?),
        "pcl" => Box::new(pcl::Pcl::new(init)?),
        "stable" => Box::new(stable::Stable::new(init)?),
        "vesting" => Box::new(vesting::Vesting::new(init)?),
        "tracker" => Box::new(tracker::Tracker::new(init)?),
        "xtoken" => Box::new(xtoken::XToken::new(init)?),
        "staking" => Box::new(staking::Staking::new(init)?),
        _ => return Err(format!("no driver {name}")),
    })
}

/// A specification integer.
pub fn int(v: &Value) -> i128 {
    v.as_str().unwrap_or_else(|| panic!("not an integer: {v}")).parse().unwrap_or_else(|_| panic!("too large: {v}"))
}
pub fn amt(v: &Value) -> u128 {
    v.as_str().unwrap_or_else(|| panic!("not an integer: {v}")).parse().unwrap_or_else(|_| panic!("not an amount: {v}"))
}
pub fn num(v: &Value) -> u64 {
    amt(v) as u64
}
pub fn txt(v: &Value) -> String {
    v.as_str().unwrap_or_else(|| panic!("not a string: {v}")).to_string()
}
pub fn yes(v: &Value) -> bool {
    v.as_bool().unwrap_or_else(|| panic!("not a boolean: {v}"))
}
pub fn s(n: impl ToString) -> Value {
    Value::String(n.to_string())
}
/// 18-decimal atomics to the contracts' decimal notation
pub fn dec(atomics: u128) -> String {
    cosmwasm_std::Decimal::new(atomics.into()).to_string()
}
/// The specification's -1 is "not given".
pub fn opt(v: &Value, f: impl Fn(u128) -> Value) -> Value {
    if v.as_str().map(|x| x.starts_with('-')).unwrap_or(false) {
        Value::Null
    } else {
        f(amt(v))
    }
}
pub fn outcome<T>(r: &Result<T, String>) -> Value {
    match r {
        Ok(_) => s("ok"),
        Err(e) => s(format!("error: {e}")),
    }
}

/// The coin name spec/denoms.qnt describes.
pub fn denom(v: &Value) -> String {
    let (len, first, other) = (num(&v["len"]) as usize, txt(&v["first"]), txt(&v["other"]));
    let rest = len.saturating_sub(first.len());
    let pad = rest.saturating_sub(other.len());
    let mut d = first + &"u".repeat(pad / 2);
    if rest >= other.len() {
        d += &other;
    }
    d + &"u".repeat(pad - pad / 2)
}
