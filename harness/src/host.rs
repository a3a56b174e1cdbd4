//! A small chain around the real contracts: cw-multi-test with a tokenfactory module, bank before-send hooks
//! and a fee-grant recorder. The contracts themselves are /repo's, linked natively.
use anyhow::{anyhow, bail, Result as AnyResult};
use cosmwasm_std::testing::{MockApi, MockStorage};
use cosmwasm_std::{
    coins, from_json, to_json_binary, Addr, Api, BankMsg, BankQuery, Binary, BlockInfo, CanonicalAddr, Coin, CustomMsg,
    CustomQuery, Empty, Querier, QuerierWrapper, RecoverPubkeyError, StdError, StdResult, Storage, SubMsgResponse,
    SupplyResponse, Timestamp, Uint128, VerificationError,
};
use cw_multi_test::{
    App, AppBuilder, AppResponse, Bank, BankKeeper, BankSudo, Contract, ContractWrapper, CosmosRouter,
    DistributionKeeper, Executor, FailingModule, GovFailingModule, IbcFailingModule, Module, StakeKeeper, Stargate,
    StargateMsg, StargateQuery, SudoMsg, WasmKeeper, WasmSudo,
};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const TF_MODULE: &str = "tokenfactory_module";

fn hook_key(denom: &str) -> Vec<u8> {
    [b"host/hook/", denom.as_bytes()].concat()
}

/// Bank keeper calling the registered tokenfactory hook before a coin moves, as the chain does.
pub struct HookBank(pub BankKeeper);

impl Bank for HookBank {}

impl Module for HookBank {
    type ExecT = BankMsg;
    type QueryT = BankQuery;
    type SudoT = BankSudo;

    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        msg: BankMsg,
    ) -> AnyResult<AppResponse>
    where
        ExecC: CustomMsg + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        if let BankMsg::Send { to_address, amount } = &msg {
            for c in amount {
                if let Some(hook) = storage.get(&hook_key(&c.denom)) {
                    let hook = Addr::unchecked(String::from_utf8(hook)?);
                    for kind in ["block_before_send", "track_before_send"] {
                        let m = json!({ kind: {"from": sender, "to": to_address,
                            "amount": {"denom": c.denom, "amount": c.amount.to_string()}}});
                        router.sudo(
                            api,
                            storage,
                            block,
                            SudoMsg::Wasm(WasmSudo {
                                contract_addr: hook.clone(),
                                message: to_json_binary(&m)?,
                            }),
                        )?;
                    }
                }
            }
        }
        self.0.execute(api, storage, router, block, sender, msg)
    }

    fn query(
        &self,
        api: &dyn Api,
        storage: &dyn Storage,
        querier: &dyn Querier,
        block: &BlockInfo,
        request: BankQuery,
    ) -> AnyResult<Binary> {
        self.0.query(api, storage, querier, block, request)
    }

    fn sudo<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        msg: BankSudo,
    ) -> AnyResult<AppResponse>
    where
        ExecC: CustomMsg + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        self.0.sudo(api, storage, router, block, msg)
    }
}

#[derive(Clone, PartialEq, prost::Message)]
struct ProtoCoin {
    #[prost(string, tag = "1")]
    denom: String,
    #[prost(string, tag = "2")]
    amount: String,
}
#[derive(Clone, PartialEq, prost::Message)]
struct ProtoCreateDenom {
    #[prost(string, tag = "1")]
    sender: String,
    #[prost(string, tag = "2")]
    subdenom: String,
}
#[derive(Clone, PartialEq, prost::Message)]
struct ProtoCreateDenomResponse {
    #[prost(string, tag = "1")]
    new_token_denom: String,
}
#[derive(Clone, PartialEq, prost::Message)]
struct ProtoMintBurn {
    #[prost(string, tag = "1")]
    sender: String,
    #[prost(message, optional, tag = "2")]
    amount: Option<ProtoCoin>,
    #[prost(string, tag = "3")]
    address: String,
}
#[derive(Clone, PartialEq, prost::Message)]
struct ProtoHook {
    #[prost(string, tag = "1")]
    sender: String,
    #[prost(string, tag = "2")]
    denom: String,
    #[prost(string, tag = "3")]
    contract: String,
}
#[derive(Clone, PartialEq, prost::Message)]
struct ProtoAny {
    #[prost(string, tag = "1")]
    type_url: String,
    #[prost(bytes = "vec", tag = "2")]
    value: Vec<u8>,
}
#[derive(Clone, PartialEq, prost::Message)]
struct ProtoGrant {
    #[prost(string, tag = "1")]
    granter: String,
    #[prost(string, tag = "2")]
    grantee: String,
    #[prost(message, optional, tag = "3")]
    allowance: Option<ProtoAny>,
}
#[derive(Clone, PartialEq, prost::Message)]
struct ProtoAllowance {
    #[prost(message, repeated, tag = "1")]
    spend_limit: Vec<ProtoCoin>,
}

/// tokenfactory + feegrant
pub struct TokenFactory;
impl Stargate for TokenFactory {}

impl TokenFactory {
    /// Only the creator may mint, burn or hook a denom: `factory/{creator}/{sub}`.
    fn admin(denom: &str, sender: &Addr) -> AnyResult<()> {
        if denom.starts_with(&format!("factory/{sender}/")) {
            Ok(())
        } else {
            bail!("tokenfactory: {sender} is not the admin of {denom}")
        }
    }
}

impl Module for TokenFactory {
    type ExecT = StargateMsg;
    type QueryT = StargateQuery;
    type SudoT = Empty;

    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        msg: StargateMsg,
    ) -> AnyResult<AppResponse>
    where
        ExecC: CustomMsg + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        use prost::Message;
        let url = msg.type_url.clone();
        let kind = url.rsplit('.').next().unwrap_or("");
        let body = msg.value.as_slice();
        let module = Addr::unchecked(TF_MODULE);
        match kind {
            "MsgCreateDenom" => {
                let m = ProtoCreateDenom::decode(body)?;
                let denom = format!("factory/{}/{}", sender, m.subdenom);
                let data = ProtoCreateDenomResponse { new_token_denom: denom }.encode_to_vec();
                Ok(SubMsgResponse { events: vec![], data: Some(data.into()) }.into())
            }
            "MsgMint" => {
                let m = ProtoMintBurn::decode(body)?;
                let c = m.amount.ok_or_else(|| anyhow!("no amount"))?;
                Self::admin(&c.denom, &sender)?;
                let to = if m.address.is_empty() { sender.to_string() } else { m.address };
                let amount = coins(c.amount.parse()?, c.denom);
                let mint = BankSudo::Mint { to_address: module.to_string(), amount: amount.clone() };
                router.sudo(api, storage, block, mint.into())?;
                router.execute(api, storage, block, module, BankMsg::Send { to_address: to, amount }.into())
            }
            "MsgBurn" => {
                let m = ProtoMintBurn::decode(body)?;
                let c = m.amount.ok_or_else(|| anyhow!("no amount"))?;
                Self::admin(&c.denom, &sender)?;
                let from = if m.address.is_empty() { sender.to_string() } else { m.address };
                if from != sender.as_str() {
                    bail!("tokenfactory: burning from another account is disabled");
                }
                let amount = coins(c.amount.parse()?, c.denom);
                let send = BankMsg::Send { to_address: module.to_string(), amount: amount.clone() };
                router.execute(api, storage, block, sender, send.into())?;
                router.execute(api, storage, block, module, BankMsg::Burn { amount }.into())
            }
            "MsgSetBeforeSendHook" => {
                let m = ProtoHook::decode(body)?;
                Self::admin(&m.denom, &sender)?;
                storage.set(&hook_key(&m.denom), m.contract.as_bytes());
                Ok(AppResponse::default())
            }
            "MsgLeave" => {
                let v: Value = serde_json::from_slice(body)?;
                let mut pay = |to: &str, c: &Value| -> AnyResult<()> {
                    let c: Coin = serde_json::from_value(c.clone())?;
                    if !c.amount.is_zero() {
                        let m = BankMsg::Send { to_address: to.into(), amount: vec![c] };
                        router.execute(api, storage, block, sender.clone(), m.into())?;
                    }
                    Ok(())
                };
                for f in v["fee"].as_array().into_iter().flatten() {
                    if f["for"] == "recv" || f["coin"]["denom"] != "untrn" {
                        bail!("no such fee");
                    }
                    pay("fees", &f["coin"])?;
                }
                if v["coin"]["amount"] == "0" {
                    bail!("nothing to transfer");
                }
                pay("abroad", &v["coin"])?;
                storage.set(b"host/left", v.to_string().as_bytes());
                Ok(AppResponse::default())
            }
            "MsgSetDenomMetadata" => Ok(AppResponse::default()),
            "MsgGrantAllowance" => {
                let m = ProtoGrant::decode(body)?;
                if m.granter != sender.as_str() {
                    bail!("feegrant: signer is not the granter");
                }
                let key = format!("host/feegrant/{}", m.grantee);
                if storage.get(key.as_bytes()).is_some() {
                    bail!("fee allowance already exists");
                }
                let any = m.allowance.unwrap_or_default();
                let a = ProtoAllowance::decode(any.value.as_slice())?;
                if m.grantee == m.granter {
                    bail!("feegrant: cannot self-grant fee authorization");
                }
                if a.spend_limit.iter().any(|c| c.amount == "0") {
                    bail!("feegrant: spend limit must be positive");
                }
                let v: Vec<Value> =
                    a.spend_limit.iter().map(|c| json!({"denom": c.denom, "amount": c.amount})).collect();
                storage.set(key.as_bytes(), serde_json::to_string(&v)?.as_bytes());
                Ok(AppResponse::default())
            }
            "MsgRevokeAllowance" => {
                let m = ProtoGrant::decode(body)?;
                if m.granter != sender.as_str() {
                    bail!("feegrant: signer is not the granter");
                }
                let key = format!("host/feegrant/{}", m.grantee);
                if storage.get(key.as_bytes()).is_none() {
                    bail!("fee-grant not found");
                }
                storage.remove(key.as_bytes());
                Ok(AppResponse::default())
            }
            _ => bail!("unexpected stargate message {url}"),
        }
    }

    fn query(&self, _: &dyn Api, _: &dyn Storage, _: &dyn Querier, _: &BlockInfo, r: StargateQuery) -> AnyResult<Binary> {
        bail!("unexpected stargate query {}", r.path)
    }

    fn sudo<ExecC, QueryC>(
        &self,
        _api: &dyn Api,
        _storage: &mut dyn Storage,
        _router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        _block: &BlockInfo,
        _msg: Empty,
    ) -> AnyResult<AppResponse>
    where
        ExecC: CustomMsg + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        bail!("no sudo")
    }
}

/// As on a chain, a denom is not an address: `MockApi` would take every lowercase string for one.
#[derive(Default)]
pub struct ChainApi(MockApi);

impl Api for ChainApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if human.contains('/') || human.starts_with('u') {
            return Err(StdError::generic_err(format!("{human} is a denom")));
        }
        self.0.addr_validate(human)
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        self.0.addr_canonicalize(human)
    }
    fn addr_humanize(&self, canonical: &CanonicalAddr) -> StdResult<Addr> {
        self.0.addr_humanize(canonical)
    }
    fn secp256k1_verify(&self, h: &[u8], s: &[u8], k: &[u8]) -> Result<bool, VerificationError> {
        self.0.secp256k1_verify(h, s, k)
    }
    fn secp256k1_recover_pubkey(&self, h: &[u8], s: &[u8], p: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        self.0.secp256k1_recover_pubkey(h, s, p)
    }
    fn ed25519_verify(&self, m: &[u8], s: &[u8], k: &[u8]) -> Result<bool, VerificationError> {
        self.0.ed25519_verify(m, s, k)
    }
    fn ed25519_batch_verify(&self, m: &[&[u8]], s: &[&[u8]], k: &[&[u8]]) -> Result<bool, VerificationError> {
        self.0.ed25519_batch_verify(m, s, k)
    }
    fn debug(&self, m: &str) {
        self.0.debug(m)
    }
}

pub type Chain = App<
    HookBank,
    ChainApi,
    MockStorage,
    FailingModule<Empty, Empty, Empty>,
    WasmKeeper<Empty, Empty>,
    StakeKeeper,
    DistributionKeeper,
    IbcFailingModule,
    GovFailingModule,
    TokenFactory,
>;

pub struct Host {
    pub app: Chain,
}

/// An asset of a pool, with the way to move it.
#[derive(Clone, Debug, PartialEq)]
pub enum A {
    Native(String),
    Token(Addr),
}

impl A {
    pub fn native(d: &str) -> A {
        A::Native(d.to_string())
    }
    pub fn info(&self) -> Value {
        match self {
            A::Native(d) => json!({"native_token": {"denom": d}}),
            A::Token(a) => json!({"token": {"contract_addr": a}}),
        }
    }
    pub fn asset(&self, amount: impl ToString) -> Value {
        json!({"info": self.info(), "amount": amount.to_string()})
    }
    pub fn is_native(&self) -> bool {
        matches!(self, A::Native(_))
    }
    pub fn id(&self) -> String {
        match self {
            A::Native(d) => d.clone(),
            A::Token(a) => a.to_string(),
        }
    }
}

pub type R<T> = Result<T, String>;

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

pub fn coin(amount: u128, denom: &str) -> Coin {
    Coin { denom: denom.to_string(), amount: Uint128::new(amount) }
}

impl Host {
    pub fn new(time: u64, height: u64) -> Host {
        let app = AppBuilder::new()
            .with_api(ChainApi::default())
            .with_bank(HookBank(BankKeeper::new()))
            .with_stargate(TokenFactory)
            .with_block(BlockInfo { height, time: Timestamp::from_seconds(time), chain_id: "chain-1".into() })
            .build(|_, _, _| {});
        Host { app }
    }
    pub fn set_block(&mut self, time: u64, height: u64) {
        let mut b = self.app.block_info();
        b.height = height;
        b.time = Timestamp::from_seconds(time);
        self.app.set_block(b);
    }
    pub fn height(&self) -> u64 {
        self.app.block_info().height
    }
    pub fn time(&self) -> u64 {
        self.app.block_info().time.seconds()
    }
    pub fn q(&self) -> QuerierWrapper<'_, Empty> {
        self.app.wrap()
    }
    fn guard<T>(f: impl FnOnce() -> AnyResult<T>) -> R<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) => Err(format!("{e:#}")),
            Err(p) => Err(format!("panic: {}", panic_text(p))),
        }
    }
    pub fn exec<T: Serialize + std::fmt::Debug>(&mut self, who: &str, contract: &Addr, msg: &T, funds: &[Coin]) -> R<AppResponse> {
        let funds: Vec<Coin> = funds.iter().filter(|c| !c.amount.is_zero()).cloned().collect();
        Self::guard(|| self.app.execute_contract(Addr::unchecked(who), contract.clone(), msg, &funds))
    }
    pub fn sudo_wasm<T: Serialize>(&mut self, contract: &Addr, msg: &T) -> R<AppResponse> {
        Self::guard(|| self.app.wasm_sudo(contract.clone(), msg))
    }
    pub fn store(&mut self, c: Box<dyn Contract<Empty>>) -> u64 {
        self.app.store_code(c)
    }
    pub fn inst(&mut self, code: u64, who: &str, msg: &Value, funds: &[Coin], admin: Option<&str>) -> R<Addr> {
        Self::guard(|| {
            self.app.instantiate_contract(code, Addr::unchecked(who), msg, funds, "x", admin.map(|s| s.to_string()))
        })
    }
    pub fn migrate(&mut self, who: &str, c: &Addr, code: u64, msg: &Value) -> R<AppResponse> {
        Self::guard(|| self.app.migrate_contract(Addr::unchecked(who), c.clone(), msg, code))
    }
    /// Makes `c` look like release `was` (`reshape` gives its storage the form that release left it in), and upgrades it.
    /// A refused upgrade leaves everything as it was before; a granted one must leave the release of the code behind.
    pub fn upgrade(&mut self, c: &Addr, was: &Value, msg: &Value, reshape: impl FnOnce(&mut Host)) -> R<()> {
        let of = self.app.contract_data(c).unwrap();
        let before = self.app.dump_wasm_raw(c);
        let current = self.peek(c, "contract_info");
        reshape(self);
        self.poke(c, "contract_info", &json!({"contract": was["name"], "version": was["version"]}));
        let r = self.migrate(of.admin.expect("no admin").as_str(), c, of.code_id, msg).map(|_| ());
        if r.is_err() {
            let keys: Vec<_> = self.app.dump_wasm_raw(c).into_iter().map(|(k, _)| k).collect();
            let mut store = self.app.contract_storage_mut(c);
            keys.iter().for_each(|k| store.remove(k));
            before.iter().for_each(|(k, v)| store.set(k, v));
        } else if self.peek(c, "contract_info") != current {
            return Err(format!("release after the upgrade: {}", self.peek(c, "contract_info")));
        }
        r
    }
    pub fn smart(&self, contract: &Addr, msg: &Value) -> R<Value> {
        Self::guard(|| {
            let raw: Value = self.app.wrap().query_wasm_smart(contract.to_string(), msg)?;
            Ok(raw)
        })
    }
    /// Mints genesis coins (no hook).
    pub fn fund(&mut self, who: &str, amount: u128, denom: &str) {
        if amount == 0 {
            return;
        }
        self.app
            .sudo(SudoMsg::Bank(BankSudo::Mint { to_address: who.into(), amount: coins(amount, denom) }))
            .unwrap();
    }
    pub fn send(&mut self, from: &str, to: &str, amount: u128, denom: &str) -> R<AppResponse> {
        Self::guard(|| self.app.send_tokens(Addr::unchecked(from), Addr::unchecked(to), &coins(amount, denom)))
    }
    pub fn bank(&self, who: &str, denom: &str) -> u128 {
        self.app.wrap().query_balance(who, denom).unwrap().amount.u128()
    }
    pub fn supply(&self, denom: &str) -> u128 {
        let r: SupplyResponse =
            self.app.wrap().query(&BankQuery::Supply { denom: denom.into() }.into()).unwrap();
        r.amount.amount.u128()
    }
    pub fn balance(&self, who: &str, a: &A) -> u128 {
        match a {
            A::Native(d) => self.bank(who, d),
            A::Token(t) => {
                let r = self.smart(t, &json!({"balance": {"address": who}})).unwrap();
                r["balance"].as_str().unwrap().parse().unwrap()
            }
        }
    }
    /// Moves an asset between accounts.
    pub fn transfer(&mut self, from: &str, to: &str, a: &A, amount: u128) -> R<AppResponse> {
        match a {
            A::Native(d) => {
                let d = d.clone();
                self.send(from, to, amount, &d)
            }
            A::Token(t) => {
                let t = t.clone();
                self.exec(from, &t, &json!({"transfer": {"recipient": to, "amount": amount.to_string()}}), &[])
            }
        }
    }
    /// Sends an asset to a contract with a message: cw20 hook or native execute.
    pub fn new_cw20(&mut self, symbol: &str, decimals: u8, balances: &[(&str, u128)]) -> Addr {
        let code = self.store(cw20());
        let init: Vec<Value> = balances.iter().map(|(a, b)| json!({"address": a, "amount": b.to_string()})).collect();
        self.inst(
            code,
            "minter",
            &json!({"name": format!("token {symbol}"), "symbol": symbol, "decimals": decimals,
                "initial_balances": init, "mint": {"minter": "minter"}}),
            &[],
            None,
        )
        .unwrap()
    }
    pub fn allow(&mut self, who: &str, token: &Addr, spender: &str) {
        self.exec(
            who,
            token,
            &json!({"increase_allowance": {"spender": spender, "amount": "1000000000000000000000000000000000000", "expires": null}}),
            &[],
        )
        .unwrap();
    }
    /// Overwrites an entry of a contract's storage, if it has it.
    pub fn poke(&mut self, contract: &Addr, key: &str, value: &Value) {
        let mut store = self.app.contract_storage_mut(contract);
        if store.get(key.as_bytes()).is_some() {
            store.set(key.as_bytes(), value.to_string().as_bytes());
        }
    }
    /// An entry of a contract's storage.
    pub fn peek(&self, contract: &Addr, key: &str) -> Value {
        let raw = self.app.wrap().query_wasm_raw(contract.to_string(), key.as_bytes()).unwrap();
        raw.map(|b| serde_json::from_slice(&b).unwrap()).unwrap_or(Value::Null)
    }
    pub fn remove(&mut self, contract: &Addr, key: &str) {
        self.app.contract_storage_mut(contract).remove(key.as_bytes());
    }
    fn under(map: &str, key: &str) -> Vec<u8> {
        [&[0, map.len() as u8], map.as_bytes(), key.as_bytes()].concat()
    }
    /// What a map in a contract's storage has.
    pub fn entries(&self, contract: &Addr, map: &str) -> Vec<(String, Value)> {
        let all = self.app.dump_wasm_raw(contract);
        let p = Self::under(map, "");
        all.iter()
            .filter_map(|(k, v)| Some((String::from_utf8(k.strip_prefix(p.as_slice())?.to_vec()).unwrap(), serde_json::from_slice(v).unwrap())))
            .collect()
    }
    pub fn place(&mut self, contract: &Addr, map: &str, key: &str, v: &Value) {
        self.app.contract_storage_mut(contract).set(&Self::under(map, key), v.to_string().as_bytes());
    }
    /// Takes an entry of a map in a contract's storage away; it must be there.
    pub fn forget(&mut self, contract: &Addr, map: &str, key: &str) {
        let k = Self::under(map, key);
        let mut store = self.app.contract_storage_mut(contract);
        assert!(store.get(&k).is_some(), "no {map}/{key}");
        store.remove(&k);
    }
    /// Changes an entry of a contract's storage.
    pub fn adjust(&mut self, contract: &Addr, key: &str, f: impl FnOnce(&mut Value)) {
        let mut v = self.peek(contract, key);
        f(&mut v);
        self.poke(contract, key, &v);
    }
    pub fn storage_get(&self, key: &str) -> Option<String> {
        self.app.storage().get(key.as_bytes()).map(|v| String::from_utf8(v).unwrap())
    }
}

pub fn b64<T: Serialize>(v: &T) -> String {
    to_json_binary(v).unwrap().to_base64()
}

pub fn unb64(s: &str) -> Value {
    from_json(Binary::from_base64(s).unwrap()).unwrap()
}

// ---- contract code ------------------------------------------------------------------------------------------

pub fn cw20() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new_with_empty(
        cw20_base::contract::execute,
        cw20_base::contract::instantiate,
        cw20_base::contract::query,
    ))
}
pub fn pair() -> Box<dyn Contract<Empty>> {
    use astroport_pair::contract::*;
    Box::new(ContractWrapper::new_with_empty(execute, instantiate, query).with_reply_empty(reply))
}
pub fn pair_sale_tax() -> Box<dyn Contract<Empty>> {
    use astroport_pair_xyk_sale_tax::contract::*;
    Box::new(ContractWrapper::new_with_empty(execute, instantiate, query).with_reply_empty(reply).with_migrate_empty(migrate))
}
pub fn pair_stable() -> Box<dyn Contract<Empty>> {
    use astroport_pair_stable::contract::*;
    Box::new(ContractWrapper::new_with_empty(execute, instantiate, query).with_reply_empty(reply))
}
pub fn pair_concentrated() -> Box<dyn Contract<Empty>> {
    use astroport_pair_concentrated::contract::*;
    Box::new(
        ContractWrapper::new_with_empty(execute, instantiate, astroport_pair_concentrated::queries::query)
            .with_reply_empty(reply)
            .with_migrate_empty(migrate),
    )
}
pub fn pair_transmuter() -> Box<dyn Contract<Empty>> {
    use astroport_pair_transmuter::contract::*;
    Box::new(
        ContractWrapper::new_with_empty(execute, instantiate, astroport_pair_transmuter::queries::query)
            .with_reply_empty(reply),
    )
}
pub fn pair_xastro() -> Box<dyn Contract<Empty>> {
    use astroport_pair_xastro::*;
    Box::new(ContractWrapper::new_with_empty(contract::execute, contract::instantiate, queries::query))
}
pub fn factory() -> Box<dyn Contract<Empty>> {
    use astroport_factory::contract::*;
    Box::new(ContractWrapper::new_with_empty(execute, instantiate, query).with_reply_empty(reply).with_migrate_empty(migrate))
}
pub fn coin_registry() -> Box<dyn Contract<Empty>> {
    use astroport_native_coin_registry::contract::*;
    Box::new(ContractWrapper::new_with_empty(execute, instantiate, query).with_migrate_empty(migrate))
}
pub fn tracker() -> Box<dyn Contract<Empty>> {
    use astroport_tokenfactory_tracker::*;
    Box::new(
        ContractWrapper::new_with_empty(
            |_, _, _, _: Empty| -> Result<cosmwasm_std::Response, cosmwasm_std::StdError> { unimplemented!() },
            contract::instantiate,
            query::query,
        )
        .with_sudo_empty(contract::sudo)
        .with_migrate_empty(contract::migrate),
    )
}
pub fn incentives() -> Box<dyn Contract<Empty>> {
    use astroport_incentives::*;
    Box::new(
        ContractWrapper::new_with_empty(execute::execute, instantiate::instantiate, query::query)
            .with_reply_empty(reply::reply)
            .with_migrate_empty(migrate::migrate),
    )
}
pub fn vesting() -> Box<dyn Contract<Empty>> {
    use astroport_vesting::contract::*;
    Box::new(ContractWrapper::new_with_empty(execute, instantiate, query).with_migrate_empty(migrate))
}
pub fn staking() -> Box<dyn Contract<Empty>> {
    use astroport_staking::contract::*;
    Box::new(
        ContractWrapper::new_with_empty(execute, instantiate, query)
            .with_reply_empty(reply)
            .with_migrate_empty(astroport_staking::migrate::migrate),
    )
}
pub fn maker() -> Box<dyn Contract<Empty>> {
    use astroport_maker::contract::*;
    Box::new(
        ContractWrapper::new_with_empty(execute, instantiate, query)
            .with_reply_empty(astroport_maker::reply::reply)
            .with_migrate_empty(migrate),
    )
}
pub fn router() -> Box<dyn Contract<Empty>> {
    use astroport_router::contract::*;
    Box::new(ContractWrapper::new_with_empty(execute, instantiate, query).with_reply_empty(reply).with_migrate_empty(migrate))
}
pub fn oracle() -> Box<dyn Contract<Empty>> {
    use astroport_oracle::contract::*;
    Box::new(ContractWrapper::new_with_empty(execute, instantiate, query).with_migrate_empty(migrate))
}
pub fn fee_granter() -> Box<dyn Contract<Empty>> {
    use astroport_fee_granter::contract::*;
    Box::new(ContractWrapper::new_with_empty(execute, instantiate, astroport_fee_granter::query::query))
}
pub fn xastro_token() -> Box<dyn Contract<Empty>> {
    use astroport_xastro_token::contract::*;
    Box::new(ContractWrapper::new_with_empty(execute, instantiate, query).with_migrate_empty(migrate))
}
/// Coins leaving the chain, as the converters ask for it: handed to the chain stand-in, which pays the fee and keeps a record.
fn leaving(v: Value) -> cosmwasm_std::CosmosMsg {
    cosmwasm_std::CosmosMsg::Stargate { type_url: "/host.MsgLeave".into(), value: to_json_binary(&v).unwrap() }
}
pub fn astro_converter() -> Box<dyn Contract<Empty>> {
    use astro_token_converter::contract::{execute, instantiate, query};
    use cosmwasm_std::{CosmosMsg, DepsMut, Env, IbcMsg, MessageInfo, Response};
    type E = astro_token_converter::error::ContractError;
    let exec = |deps: DepsMut, env: Env, info: MessageInfo, m| -> Result<Response, E> {
        let mut r = execute(deps, env, info, m)?;
        for m in r.messages.iter_mut() {
            if let CosmosMsg::Ibc(IbcMsg::Transfer { channel_id, to_address, amount, timeout }) = &m.msg {
                let at = timeout.timestamp().map(|t| t.nanos()).unwrap_or_default();
                m.msg = leaving(json!({"channel": channel_id, "to": to_address, "coin": amount, "at": at, "fee": []}));
            }
        }
        Ok(r)
    };
    Box::new(ContractWrapper::new_with_empty(exec, instantiate, query))
}
thread_local! {
    /// what a packet must pay on Neutron: for the acknowledgement and for the timeout
    pub static NEUTRON_FEE: std::cell::Cell<(u128, u128)> = const { std::cell::Cell::new((0, 0)) };
}
pub fn astro_converter_neutron() -> Box<dyn Contract<Empty>> {
    use astro_token_converter_neutron::contract::{execute, instantiate, query};
    use cosmwasm_std::{CosmosMsg, DepsMut, Env, MessageInfo, QuerierResult, QueryRequest, Response, SystemResult};
    use neutron_sdk::bindings::{msg::NeutronMsg, query::NeutronQuery};
    type E = astro_token_converter::error::ContractError;
    struct Fees<'a>(QuerierWrapper<'a, Empty>);
    impl Querier for Fees<'_> {
        fn raw_query(&self, b: &[u8]) -> QuerierResult {
            match from_json::<QueryRequest<NeutronQuery>>(b) {
                Ok(QueryRequest::Custom(_)) => {
                    let (ack, timeout) = NEUTRON_FEE.get();
                    // relayers take other coins as well
                    let fee = |n: u128| json!([{"denom": "uatom", "amount": "77"}, {"denom": "untrn", "amount": n.to_string()}]);
                    let v = json!({"min_fee": {"recv_fee": [], "ack_fee": fee(ack), "timeout_fee": fee(timeout)}});
                    SystemResult::Ok(cosmwasm_std::ContractResult::Ok(to_json_binary(&v).unwrap()))
                }
                _ => self.0.raw_query(b),
            }
        }
    }
    let exec = |deps: DepsMut, env: Env, info: MessageInfo, m| -> Result<Response, E> {
        let q = Fees(deps.querier);
        let d = DepsMut { storage: deps.storage, api: deps.api, querier: QuerierWrapper::<NeutronQuery>::new(&q) };
        let r = execute(d, env, info, m)?;
        let mut out = Response::new().add_attributes(r.attributes);
        for m in r.messages {
            out = out.add_message(match m.msg {
                CosmosMsg::Custom(NeutronMsg::IbcTransfer { source_port, source_channel, receiver, token, timeout_timestamp, fee, .. })
                    if source_port == "transfer" =>
                {
                    let all: Vec<Value> = [("ack", fee.ack_fee), ("timeout", fee.timeout_fee), ("recv", fee.recv_fee)]
                        .into_iter()
                        .flat_map(|(k, l)| l.into_iter().map(move |c| json!({"for": k, "coin": c})))
                        .collect();
                    leaving(json!({"channel": source_channel, "to": receiver, "coin": token, "at": timeout_timestamp, "fee": all}))
                }
                CosmosMsg::Bank(b) => CosmosMsg::Bank(b),
                CosmosMsg::Wasm(w) => CosmosMsg::Wasm(w),
                other => return Err(StdError::generic_err(format!("no such message here: {other:?}")).into()),
            });
        }
        Ok(out)
    };
    Box::new(ContractWrapper::new_with_empty(exec, instantiate, query))
}
pub fn pair_converter() -> Box<dyn Contract<Empty>> {
    use astroport_pair_converter::*;
    Box::new(
        ContractWrapper::new_with_empty(contract::execute, contract::instantiate, queries::query)
            .with_migrate_empty(contract::migrate),
    )
}
/// The tracker release the staking contract speaks to (it counts seconds).
pub fn tracker_v1() -> Box<dyn Contract<Empty>> {
    use tracker_v1::*;
    Box::new(
        ContractWrapper::new_with_empty(
            |_, _, _, _: Empty| -> Result<cosmwasm_std::Response, cosmwasm_std::StdError> { unimplemented!() },
            contract::instantiate,
            query::query,
        )
        .with_sudo_empty(contract::sudo),
    )
}
/// Takes cw20 tokens and coins sent with a message (unless the message is "reject") and remembers the last.
pub fn sink() -> Box<dyn Contract<Empty>> {
    use cosmwasm_std::{Deps, DepsMut, Env, MessageInfo, Response};
    fn instantiate(deps: DepsMut, _: Env, _: MessageInfo, _: Value) -> StdResult<Response> {
        deps.storage.set(b"last", br#"{"by":"","amount":"0"}"#);
        Ok(Response::new())
    }
    fn execute(deps: DepsMut, _: Env, _: MessageInfo, msg: Value) -> StdResult<Response> {
        let r = &msg["receive"];
        if r["msg"].as_str().is_some_and(|m| !m.is_empty() && unb64(m) == "reject") {
            return Err(StdError::generic_err("rejected"));
        }
        deps.storage.set(b"last", json!({"by": r["sender"], "amount": r["amount"]}).to_string().as_bytes());
        Ok(Response::new())
    }
    fn query(deps: Deps, _: Env, _: Value) -> StdResult<Binary> {
        Ok(Binary(deps.storage.get(b"last").unwrap()))
    }
    Box::new(ContractWrapper::new_with_empty(execute, instantiate, query))
}
