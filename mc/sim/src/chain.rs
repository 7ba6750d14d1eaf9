//! A miniature CosmWasm chain: real contract code, simulated bank / token-factory / wasm modules.
//! Everything a transaction can observe is owned by this file, so an execution is a deterministic
//! function of (chain state, message).
use crate::codes::{code_by_name, Code};
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    from_json, to_json_binary, to_json_vec, Addr, AllBalanceResponse, Api, BalanceResponse,
    BankMsg, BankQuery, Binary, BlockInfo, CanonicalAddr, Coin, ContractInfo,
    ContractInfoResponse, ContractResult, CosmosMsg, Deps, DepsMut, Empty, Env, Event, MessageInfo,
    Order, Querier, QuerierResult, QuerierWrapper, QueryRequest, Record, RecoverPubkeyError, Reply,
    ReplyOn, Response, StdError, StdResult, Storage, SubMsg, SubMsgResponse, SubMsgResult,
    SupplyResponse, SystemError, SystemResult, Timestamp, TransactionInfo, Uint128,
    VerificationError, WasmMsg, WasmQuery,
};
use serde_json::Value;
use sha3::{Digest, Keccak256};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, OnceLock};

pub fn keccak(data: &[u8]) -> [u8; 32] {
    Keccak256::digest(data).into()
}

/// for every four successive bytes of a hash, two numbers which, written behind the prefix (in four
/// bytes or in decimal), give hashes that agree in these bytes
pub fn collisions(prefix: &[u8], decimal: bool) -> Vec<(usize, u32, u32)> {
    let mut text = prefix.to_vec();
    let pool: Vec<[u8; 32]> = (0..400_000u32)
        .map(|k| {
            text.truncate(prefix.len());
            match decimal {
                true => text.extend_from_slice(k.to_string().as_bytes()),
                false => text.extend_from_slice(&k.to_be_bytes()),
            }
            keccak(&text)
        })
        .collect();
    let mut l: Vec<u64> = vec![];
    (0..29)
        .filter_map(|at| {
            l.clear();
            for (i, h) in pool.iter().enumerate() {
                let four = u32::from_be_bytes([h[at], h[at + 1], h[at + 2], h[at + 3]]);
                l.push((four as u64) << 32 | i as u64);
            }
            l.sort_unstable();
            l.windows(2).find(|w| w[0] >> 32 == w[1] >> 32).map(|w| (at, w[0] as u32, w[1] as u32))
        })
        .collect()
}

/// independent bech32 helpers of the harness
pub fn b32(hrp: &str, raw: &[u8]) -> String {
    use bech32::ToBase32;
    bech32::encode(hrp, raw.to_base32(), bech32::Variant::Bech32).unwrap()
}
pub fn unb32(s: &str) -> Result<(String, Vec<u8>), String> {
    use bech32::FromBase32;
    let (h, d, v) = bech32::decode(s).map_err(|e| e.to_string())?;
    if v != bech32::Variant::Bech32 {
        return Err("bech32m".into());
    }
    Ok((h, Vec::<u8>::from_base32(&d).map_err(|e| e.to_string())?))
}
/// 32-byte form of an account address
pub fn h256(addr: &str) -> [u8; 32] {
    let (_, raw) = unb32(addr).expect("address");
    let mut out = [0u8; 32];
    out[32 - raw.len()..].copy_from_slice(&raw);
    out
}

pub type Coins = Vec<(String, u128)>;

#[derive(Clone)]
pub struct Contract {
    pub code: &'static dyn Code,
    pub admin: Option<String>,
    pub store: BTreeMap<Vec<u8>, Vec<u8>>,
    h: OnceLock<u128>,
}

thread_local! {
    /// blocks that pass before every transaction and query of this thread
    pub static CLOCK: Cell<u64> = const { Cell::new(0) };
}

#[derive(Clone)]
pub struct Chain {
    pub hrp: Arc<str>,
    pub contracts: Arc<BTreeMap<Arc<str>, Arc<Contract>>>,
    pub bank: Arc<BTreeMap<(Arc<str>, Arc<str>), u128>>,
    /// token-factory denoms and their admin
    pub denoms: Arc<BTreeMap<String, String>>,
    /// their metadata
    pub meta: Arc<BTreeMap<String, PbMetadata>>,
    pub next: u32,
    pub height: u64,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Exec {
        depth: u32,
        from: String,
        to: String,
        msg: Vec<u8>,
        funds: Coins,
    },
    Reply {
        to: String,
    },
    Query {
        from: String,
        to: String,
        msg: Vec<u8>,
    },
    Send {
        from: String,
        to: String,
        coins: Coins,
    },
    Mint {
        by: String,
        denom: String,
        amount: u128,
    },
    Burn {
        by: String,
        denom: String,
        amount: u128,
    },
    Event {
        contract: String,
        ty: String,
        attrs: Vec<(String, String)>,
    },
}

#[derive(Clone, Debug)]
pub struct Item {
    pub ev: Ev,
    /// false when the enclosing (sub)call was rolled back
    pub live: bool,
}

pub struct TxOut {
    pub res: Result<Option<Vec<u8>>, String>,
    pub trace: Vec<Item>,
}

impl TxOut {
    pub fn ok(&self) -> bool {
        self.res.is_ok()
    }
    pub fn err(&self) -> &str {
        match &self.res {
            Ok(_) => "",
            Err(e) => e,
        }
    }
    pub fn live(&self) -> impl Iterator<Item = &Ev> {
        self.trace.iter().filter(|i| i.live).map(|i| &i.ev)
    }
    /// committed calls received by `to`: (from, msg, funds)
    pub fn calls_to(&self, to: &str) -> Vec<(String, Value, Coins)> {
        self.live()
            .filter_map(|e| match e {
                Ev::Exec {
                    from,
                    to: t,
                    msg,
                    funds,
                    ..
                } if t == to => Some((
                    from.clone(),
                    serde_json::from_slice(msg).unwrap_or(Value::Null),
                    funds.clone(),
                )),
                _ => None,
            })
            .collect()
    }
    /// all committed calls, in order: (from, to, msg, funds)
    pub fn calls(&self) -> Vec<(String, String, Value, Coins)> {
        self.live()
            .filter_map(|e| match e {
                Ev::Exec {
                    from,
                    to,
                    msg,
                    funds,
                    ..
                } => Some((
                    from.clone(),
                    to.clone(),
                    serde_json::from_slice(msg).unwrap_or(Value::Null),
                    funds.clone(),
                )),
                _ => None,
            })
            .collect()
    }
    pub fn queries_to(&self, to: &str) -> Vec<(String, Value)> {
        self.trace
            .iter()
            .filter_map(|i| match &i.ev {
                Ev::Query { from, to: t, msg } if t == to => Some((
                    from.clone(),
                    serde_json::from_slice(msg).unwrap_or(Value::Null),
                )),
                _ => None,
            })
            .collect()
    }
    pub fn sends(&self) -> Vec<(String, String, Coins)> {
        self.live()
            .filter_map(|e| match e {
                Ev::Send { from, to, coins } => Some((from.clone(), to.clone(), coins.clone())),
                _ => None,
            })
            .collect()
    }
    /// committed events of one contract with the given type
    pub fn events(&self, contract: &str, ty: &str) -> Vec<BTreeMap<String, String>> {
        self.live()
            .filter_map(|e| match e {
                Ev::Event {
                    contract: c,
                    ty: t,
                    attrs,
                } if c == contract && t == ty => Some(attrs.iter().cloned().collect()),
                _ => None,
            })
            .collect()
    }
    pub fn data(&self) -> Value {
        match &self.res {
            Ok(Some(d)) => serde_json::from_slice(d).unwrap_or(Value::Null),
            _ => Value::Null,
        }
    }
}

// ---------------------------------------------------------------- hashing

#[derive(Clone)]
pub struct H128(u64, u64);
impl Default for H128 {
    fn default() -> Self {
        H128(0xcbf2_9ce4_8422_2325, 0x9e37_79b9_7f4a_7c15)
    }
}
impl H128 {
    pub fn new() -> Self {
        Self::default()
    }
    #[inline]
    fn mix(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x2545_f491_4f6c_dd1d);
        self.0 ^= self.0 >> 29;
        self.1 = (self.1.rotate_left(23) ^ v).wrapping_mul(0xd6e8_feb8_6659_fd93);
        self.1 ^= self.1 >> 32;
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.mix(b.len() as u64 ^ 0xabcd_0000_0000);
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.mix(u64::from_le_bytes(x));
        }
    }
    pub fn u128(&mut self, v: u128) {
        self.mix(v as u64);
        self.mix((v >> 64) as u64);
    }
    pub fn fin(mut self) -> u128 {
        self.mix(0x1234_5678);
        self.mix(0x9abc_def0);
        ((self.0 as u128) << 64) | self.1 as u128
    }
}
pub fn hash_str(s: &str) -> u128 {
    let mut h = H128::new();
    h.bytes(s.as_bytes());
    h.fin()
}

impl Contract {
    fn hash(&self) -> u128 {
        *self.h.get_or_init(|| {
            let mut h = H128::new();
            h.bytes(self.code.name().as_bytes());
            h.bytes(self.admin.as_deref().unwrap_or("").as_bytes());
            for (k, v) in &self.store {
                h.bytes(k);
                h.bytes(v);
            }
            h.fin()
        })
    }
}

impl Chain {
    pub fn new(hrp: &str) -> Self {
        Chain {
            hrp: hrp.into(),
            contracts: Default::default(),
            bank: Default::default(),
            denoms: Default::default(),
            meta: Default::default(),
            next: 0,
            height: 1000,
        }
    }
    pub fn key(&self) -> u128 {
        let mut h = H128::new();
        for (a, c) in self.contracts.iter() {
            h.bytes(a.as_bytes());
            h.u128(c.hash());
        }
        for ((a, d), v) in self.bank.iter() {
            if *v != 0 {
                h.bytes(a.as_bytes());
                h.bytes(d.as_bytes());
                h.u128(*v);
            }
        }
        for (d, a) in self.denoms.iter() {
            h.bytes(d.as_bytes());
            h.bytes(a.as_bytes());
        }
        for (d, m) in self.meta.iter() {
            h.bytes(d.as_bytes());
            h.bytes(&prost::Message::encode_to_vec(m));
        }
        h.fin()
    }
    /// hash of one contract's storage
    pub fn store_key(&self, addr: &str) -> u128 {
        self.contracts.get(addr).map(|c| c.hash()).unwrap_or(0)
    }
    pub fn user(&self, name: &str) -> String {
        b32(&self.hrp, &keccak(format!("user:{name}").as_bytes())[..20])
    }
    pub fn fund(&mut self, addr: &str, denom: &str, amount: u128) {
        let m = Arc::make_mut(&mut self.bank);
        *m.entry((addr.into(), denom.into())).or_default() += amount;
    }
    /// coins put back where they came from, outside of any transaction
    pub fn put_back(&mut self, from: &str, to: &str, denom: &str, amount: u128) {
        let m = Arc::make_mut(&mut self.bank);
        let k = (from.into(), denom.into());
        let left = m.get(&k).copied().unwrap_or(0) - amount;
        m.remove(&k);
        if left > 0 {
            m.insert(k, left);
        }
        *m.entry((to.into(), denom.into())).or_default() += amount;
    }
    pub fn bal(&self, addr: &str, denom: &str) -> u128 {
        self.bank
            .get(&(Arc::<str>::from(addr), Arc::<str>::from(denom)))
            .copied()
            .unwrap_or(0)
    }
    pub fn balances(&self, addr: &str) -> Coins {
        self.bank
            .iter()
            .filter(|((a, _), v)| &**a == addr && **v != 0)
            .map(|((_, d), v)| (d.to_string(), *v))
            .collect()
    }
    /// complete bank state without zero entries
    pub fn bank_view(&self) -> BTreeMap<(String, String), u128> {
        self.bank
            .iter()
            .filter(|(_, v)| **v != 0)
            .map(|((a, d), v)| ((a.to_string(), d.to_string()), *v))
            .collect()
    }
    pub fn supply(&self, denom: &str) -> u128 {
        self.bank
            .iter()
            .filter(|((_, d), _)| &**d == denom)
            .map(|(_, v)| *v)
            .sum()
    }
    fn sub(&mut self, addr: &str, denom: &str, amount: u128) -> Result<(), String> {
        let m = Arc::make_mut(&mut self.bank);
        let e = m.entry((addr.into(), denom.into())).or_default();
        *e = e
            .checked_sub(amount)
            .ok_or_else(|| format!("insufficient balance: {denom}"))?;
        Ok(())
    }
    fn add(&mut self, addr: &str, denom: &str, amount: u128) -> Result<(), String> {
        let m = Arc::make_mut(&mut self.bank);
        let e = m.entry((addr.into(), denom.into())).or_default();
        *e = e
            .checked_add(amount)
            .ok_or_else(|| format!("balance overflow: {denom}"))?;
        Ok(())
    }
    fn transfer(&mut self, from: &str, to: &str, coins: &Coins) -> Result<(), String> {
        for (d, a) in coins {
            self.sub(from, d, *a)?;
            self.add(to, d, *a)?;
        }
        Ok(())
    }
    pub fn store_get(&self, addr: &str, key: &[u8]) -> Option<Vec<u8>> {
        self.contracts.get(addr)?.store.get(key).cloned()
    }
    pub fn store_set(&mut self, addr: &str, key: &[u8], val: Option<Vec<u8>>) {
        let m = Arc::make_mut(&mut self.contracts);
        let c = Arc::make_mut(m.get_mut(addr).expect("contract"));
        c.h = OnceLock::new();
        match val {
            Some(v) => c.store.insert(key.to_vec(), v),
            None => c.store.remove(key),
        };
    }
    /// put a contract with the given storage at a chosen address
    pub fn place(&mut self, addr: &str, code: &'static str, store: BTreeMap<Vec<u8>, Vec<u8>>) {
        Arc::make_mut(&mut self.contracts).insert(
            addr.into(),
            Arc::new(Contract {
                code: code_by_name(code),
                admin: None,
                store,
                h: OnceLock::new(),
            }),
        );
    }
    pub fn store_dump(&self, addr: &str) -> BTreeMap<Vec<u8>, Vec<u8>> {
        self.contracts
            .get(addr)
            .map(|c| c.store.clone())
            .unwrap_or_default()
    }

    /// address the next contract will get
    pub fn next_addr(&self) -> String {
        self.addr_at(self.next)
    }
    fn addr_at(&self, n: u32) -> String {
        b32(
            &self.hrp,
            &keccak(format!("contract:{}:{}", self.hrp, n).as_bytes()),
        )
    }

    fn with<R>(
        &mut self,
        f: impl FnOnce(&Exec) -> Result<R, String>,
    ) -> (Result<R, String>, Vec<Item>) {
        self.height += CLOCK.with(|c| c.get());
        let ex = Exec {
            chain: RefCell::new(self.clone()),
            trace: RefCell::new(vec![]),
            depth: Cell::new(0),
            qdepth: Cell::new(0),
        };
        let r = f(&ex);
        let mut tr = ex.trace.into_inner();
        match &r {
            Ok(_) => *self = ex.chain.into_inner(),
            Err(_) => tr.iter_mut().for_each(|i| i.live = false),
        }
        (r, tr)
    }

    pub fn instantiate(
        &mut self,
        code: &'static str,
        sender: &str,
        msg: &Value,
    ) -> Result<String, String> {
        self.instantiate_full(code, sender, msg, &[]).0
    }
    pub fn instantiate_full(
        &mut self,
        code: &'static str,
        sender: &str,
        msg: &Value,
        funds: &[(&str, u128)],
    ) -> (Result<String, String>, Vec<Item>) {
        let funds = norm(funds.iter().map(|(d, a)| (d.to_string(), *a)));
        self.with(|ex| {
            ex.instantiate(
                code_by_name(code),
                sender,
                Some(sender.to_string()),
                serde_json::to_vec(msg).unwrap(),
                funds,
            )
            .map(|(a, _, _)| a)
        })
    }
    pub fn exec(&mut self, sender: &str, to: &str, msg: &Value, funds: &[(&str, u128)]) -> TxOut {
        self.exec_bytes(sender, to, serde_json::to_vec(msg).unwrap(), funds)
    }
    pub fn exec_bytes(
        &mut self,
        sender: &str,
        to: &str,
        msg: Vec<u8>,
        funds: &[(&str, u128)],
    ) -> TxOut {
        let funds = norm(funds.iter().map(|(d, a)| (d.to_string(), *a)));
        let (res, trace) =
            self.with(|ex| ex.execute(sender, to, msg, funds).map(|(d, _)| d.map(|b| b.0)));
        TxOut { res, trace }
    }
    pub fn migrate(&mut self, sender: &str, addr: &str, code: &'static str, msg: &Value) -> TxOut {
        let (res, trace) = self.with(|ex| {
            ex.migrate(sender, addr, code_by_name(code), serde_json::to_vec(msg).unwrap())
                .map(|(d, _)| d.map(|b| b.0))
        });
        TxOut { res, trace }
    }
    pub fn query(&self, to: &str, msg: &Value) -> Result<Value, String> {
        let b = self.query_bytes(to, serde_json::to_vec(msg).unwrap())?;
        serde_json::from_slice(&b).map_err(|e| format!("query answer is not json: {e}"))
    }
    pub fn query_bytes(&self, to: &str, msg: Vec<u8>) -> Result<Vec<u8>, String> {
        self.query_traced(to, msg).0
    }
    pub fn query_traced(&self, to: &str, msg: Vec<u8>) -> (Result<Vec<u8>, String>, Vec<Item>) {
        let mut ch = self.clone();
        ch.height += CLOCK.with(|c| c.get());
        let ex = Exec {
            chain: RefCell::new(ch),
            trace: RefCell::new(vec![]),
            depth: Cell::new(0),
            qdepth: Cell::new(0),
        };
        let r = ex.smart("", to, &msg).map(|b| b.0);
        (r, ex.trace.into_inner())
    }
}

/// wasmd's ConvertWasmCoinsToSdkCoins: merge duplicates, drop zeroes, sort
fn norm(it: impl Iterator<Item = (String, u128)>) -> Coins {
    let mut m: BTreeMap<String, u128> = BTreeMap::new();
    for (d, a) in it {
        if a != 0 {
            *m.entry(d).or_default() += a;
        }
    }
    m.into_iter().collect()
}
fn norm_coins(c: &[Coin]) -> Coins {
    norm(c.iter().map(|c| (c.denom.clone(), c.amount.u128())))
}

pub struct Exec {
    pub chain: RefCell<Chain>,
    pub trace: RefCell<Vec<Item>>,
    depth: Cell<u32>,
    qdepth: Cell<u32>,
}

const MAX_DEPTH: u32 = 40;
const MAX_QDEPTH: u32 = 10;

struct View<'a> {
    ex: &'a Exec,
    addr: &'a str,
    ro: bool,
}
impl<'a> Storage for View<'a> {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.ex
            .chain
            .borrow()
            .contracts
            .get(self.addr)
            .and_then(|c| c.store.get(key).cloned())
    }
    fn range<'b>(
        &'b self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'b> {
        let ch = self.ex.chain.borrow();
        let lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |s| Bound::Excluded(s.to_vec()));
        if let (Some(s), Some(e)) = (start, end) {
            if s > e {
                return Box::new(std::iter::empty());
            }
        }
        let mut v: Vec<Record> = ch
            .contracts
            .get(self.addr)
            .map(|c| {
                c.store
                    .range((lo, hi))
                    .map(|(k, v)| (k.clone(), v.clone()))
                    .collect()
            })
            .unwrap_or_default();
        if order == Order::Descending {
            v.reverse();
        }
        Box::new(v.into_iter())
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        if self.ro {
            panic!("write in query");
        }
        if value.is_empty() {
            panic!("TL;DR: Value must not be empty in Storage::set");
        }
        self.ex
            .chain
            .borrow_mut()
            .store_set(self.addr, key, Some(value.to_vec()));
    }
    fn remove(&mut self, key: &[u8]) {
        if self.ro {
            panic!("write in query");
        }
        self.ex.chain.borrow_mut().store_set(self.addr, key, None);
    }
}

struct SimApi<'a> {
    hrp: &'a str,
}
impl<'a> Api for SimApi<'a> {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        let (h, raw) =
            unb32(human).map_err(|e| StdError::generic_err(format!("addr_validate: {e}")))?;
        if h != self.hrp || human.chars().any(|c| c.is_ascii_uppercase()) {
            return Err(StdError::generic_err("addr_validate: wrong prefix or case"));
        }
        if raw.len() != 20 && raw.len() != 32 {
            return Err(StdError::generic_err("addr_validate: length"));
        }
        Ok(Addr::unchecked(human))
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(human)?;
        Ok(unb32(human).unwrap().1.into())
    }
    fn addr_humanize(&self, canonical: &CanonicalAddr) -> StdResult<Addr> {
        if canonical.len() != 20 && canonical.len() != 32 {
            return Err(StdError::generic_err("addr_humanize: length"));
        }
        Ok(Addr::unchecked(b32(self.hrp, canonical)))
    }
    fn secp256k1_verify(&self, h: &[u8], s: &[u8], p: &[u8]) -> Result<bool, VerificationError> {
        MockApi::default().secp256k1_verify(h, s, p)
    }
    fn secp256k1_recover_pubkey(
        &self,
        h: &[u8],
        s: &[u8],
        r: u8,
    ) -> Result<Vec<u8>, RecoverPubkeyError> {
        MockApi::default().secp256k1_recover_pubkey(h, s, r)
    }
    fn ed25519_verify(&self, m: &[u8], s: &[u8], p: &[u8]) -> Result<bool, VerificationError> {
        MockApi::default().ed25519_verify(m, s, p)
    }
    fn ed25519_batch_verify(
        &self,
        m: &[&[u8]],
        s: &[&[u8]],
        p: &[&[u8]],
    ) -> Result<bool, VerificationError> {
        MockApi::default().ed25519_batch_verify(m, s, p)
    }
    fn debug(&self, _: &str) {}
}

struct Q<'a> {
    ex: &'a Exec,
    from: &'a str,
}
impl<'a> Querier for Q<'a> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: e.to_string(),
                    request: bin.into(),
                })
            }
        };
        fn ok<T: serde::Serialize>(v: &T) -> QuerierResult {
            SystemResult::Ok(ContractResult::Ok(to_json_binary(v).unwrap()))
        }
        match req {
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                if !self.ex.chain.borrow().contracts.contains_key(&*contract_addr) {
                    return SystemResult::Err(SystemError::NoSuchContract {
                        addr: contract_addr,
                    });
                }
                match self.ex.smart(self.from, &contract_addr, &msg) {
                    Ok(b) => SystemResult::Ok(ContractResult::Ok(b)),
                    Err(e) => SystemResult::Ok(ContractResult::Err(e)),
                }
            }
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => {
                SystemResult::Ok(ContractResult::Ok(
                    self.ex
                        .chain
                        .borrow()
                        .store_get(&contract_addr, &key)
                        .unwrap_or_default()
                        .into(),
                ))
            }
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => {
                match self.ex.chain.borrow().contracts.get(&*contract_addr) {
                    None => SystemResult::Err(SystemError::NoSuchContract {
                        addr: contract_addr,
                    }),
                    Some(c) => {
                        let mut r = ContractInfoResponse::new(1, "creator");
                        r.admin = c.admin.clone();
                        ok(&r)
                    }
                }
            }
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let a = self.ex.chain.borrow().bal(&address, &denom);
                let mut r = BalanceResponse::default();
                r.amount = Coin {
                    denom,
                    amount: a.into(),
                };
                ok(&r)
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let mut r = AllBalanceResponse::default();
                r.amount = to_coins(&self.ex.chain.borrow().balances(&address));
                ok(&r)
            }
            QueryRequest::Bank(BankQuery::Supply { denom }) => {
                let s = self.ex.chain.borrow().supply(&denom);
                let mut r = SupplyResponse::default();
                r.amount = Coin {
                    denom,
                    amount: s.into(),
                };
                ok(&r)
            }
            other => SystemResult::Err(SystemError::UnsupportedRequest {
                kind: format!("{other:?}"),
            }),
        }
    }
}

fn to_coins(c: &Coins) -> Vec<Coin> {
    c.iter()
        .map(|(d, a)| Coin {
            denom: d.clone(),
            amount: Uint128::new(*a),
        })
        .collect()
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        format!("panic: {s}")
    } else if let Some(s) = p.downcast_ref::<String>() {
        format!("panic: {s}")
    } else {
        "panic".into()
    }
}

#[derive(Clone, PartialEq, prost::Message)]
struct PbCoin {
    #[prost(string, tag = "1")]
    denom: String,
    #[prost(string, tag = "2")]
    amount: String,
}
#[derive(Clone, PartialEq, prost::Message)]
struct PbCreateDenom {
    #[prost(string, tag = "1")]
    sender: String,
    #[prost(string, tag = "2")]
    subdenom: String,
}
#[derive(Clone, PartialEq, prost::Message)]
struct PbStr {
    #[prost(string, tag = "1")]
    v: String,
}
#[derive(Clone, PartialEq, prost::Message)]
struct PbMintBurn {
    #[prost(string, tag = "1")]
    sender: String,
    #[prost(message, optional, tag = "2")]
    amount: Option<PbCoin>,
    #[prost(string, tag = "3")]
    other: String,
}
#[derive(Clone, PartialEq, prost::Message)]
struct PbExecResp {
    #[prost(bytes = "vec", tag = "1")]
    data: Vec<u8>,
}
#[derive(Clone, PartialEq, prost::Message)]
struct PbInstResp {
    #[prost(string, tag = "1")]
    address: String,
    #[prost(bytes = "vec", tag = "2")]
    data: Vec<u8>,
}

type CallOut = (Option<Binary>, Vec<Event>);

impl Exec {
    fn env(&self, addr: &str) -> Env {
        let h = self.chain.borrow().height;
        Env {
            block: BlockInfo {
                height: h,
                time: Timestamp::from_seconds(1_600_000_000 + (6 * h).min(15_000_000_000)),
                chain_id: "mc-1".into(),
            },
            transaction: Some(TransactionInfo { index: 0 }),
            contract: ContractInfo {
                address: Addr::unchecked(addr),
            },
        }
    }
    fn code(&self, addr: &str) -> Result<&'static dyn Code, String> {
        self.chain
            .borrow()
            .contracts
            .get(addr)
            .map(|c| c.code)
            .ok_or_else(|| format!("no such contract: {addr}"))
    }
    fn log(&self, ev: Ev) {
        self.trace.borrow_mut().push(Item { ev, live: true });
    }

    fn guarded<R>(&self, f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(p) => Err(panic_text(p)),
        }
    }

    /// run `f` with mutable deps of contract `addr`
    fn call<R>(
        &self,
        addr: &str,
        f: impl FnOnce(DepsMut, Env) -> Result<R, String>,
    ) -> Result<R, String> {
        let hrp = self.chain.borrow().hrp.clone();
        let env = self.env(addr);
        self.guarded(|| {
            let mut st = View {
                ex: self,
                addr,
                ro: false,
            };
            let api = SimApi { hrp: &hrp };
            let q = Q {
                ex: self,
                from: addr,
            };
            f(
                DepsMut {
                    storage: &mut st,
                    api: &api,
                    querier: QuerierWrapper::new(&q),
                },
                env,
            )
        })
    }

    pub fn smart(&self, from: &str, to: &str, msg: &[u8]) -> Result<Binary, String> {
        let code = self.code(to)?;
        self.log(Ev::Query {
            from: from.into(),
            to: to.into(),
            msg: msg.to_vec(),
        });
        if self.qdepth.get() >= MAX_QDEPTH {
            return Err("query depth exceeded".into());
        }
        self.qdepth.set(self.qdepth.get() + 1);
        let hrp = self.chain.borrow().hrp.clone();
        let env = self.env(to);
        let r = self.guarded(|| {
            let st = View {
                ex: self,
                addr: to,
                ro: true,
            };
            let api = SimApi { hrp: &hrp };
            let q = Q { ex: self, from: to };
            code.query(
                Deps {
                    storage: &st,
                    api: &api,
                    querier: QuerierWrapper::new(&q),
                },
                env,
                msg,
            )
        });
        self.qdepth.set(self.qdepth.get() - 1);
        r
    }

    pub fn execute(
        &self,
        sender: &str,
        to: &str,
        msg: Vec<u8>,
        funds: Coins,
    ) -> Result<CallOut, String> {
        let code = self.code(to)?;
        if self.depth.get() >= MAX_DEPTH {
            return Err("call depth exceeded".into());
        }
        self.chain.borrow_mut().transfer(sender, to, &funds)?;
        self.log(Ev::Exec {
            depth: self.depth.get(),
            from: sender.into(),
            to: to.into(),
            msg: msg.clone(),
            funds: funds.clone(),
        });
        self.depth.set(self.depth.get() + 1);
        let r = self
            .call(to, |deps, env| {
                code.execute(
                    deps,
                    env,
                    MessageInfo {
                        sender: Addr::unchecked(sender),
                        funds: to_coins(&funds),
                    },
                    &msg,
                )
            })
            .and_then(|resp| self.response(to, code, resp));
        self.depth.set(self.depth.get() - 1);
        r
    }

    pub fn instantiate(
        &self,
        code: &'static dyn Code,
        sender: &str,
        admin: Option<String>,
        msg: Vec<u8>,
        funds: Coins,
    ) -> Result<(String, Option<Binary>, Vec<Event>), String> {
        if self.depth.get() >= MAX_DEPTH {
            return Err("call depth exceeded".into());
        }
        let addr = {
            let mut ch = self.chain.borrow_mut();
            let addr = ch.next_addr();
            ch.next += 1;
            Arc::make_mut(&mut ch.contracts).insert(
                addr.as_str().into(),
                Arc::new(Contract {
                    code,
                    admin,
                    store: BTreeMap::new(),
                    h: OnceLock::new(),
                }),
            );
            ch.transfer(sender, &addr, &funds)?;
            addr
        };
        self.depth.set(self.depth.get() + 1);
        let r = self
            .call(&addr, |deps, env| {
                code.instantiate(
                    deps,
                    env,
                    MessageInfo {
                        sender: Addr::unchecked(sender),
                        funds: to_coins(&funds),
                    },
                    &msg,
                )
            })
            .and_then(|resp| self.response(&addr, code, resp));
        self.depth.set(self.depth.get() - 1);
        let (d, e) = r?;
        Ok((addr, d, e))
    }

    pub fn migrate(
        &self,
        sender: &str,
        addr: &str,
        code: &'static dyn Code,
        msg: Vec<u8>,
    ) -> Result<CallOut, String> {
        {
            let mut ch = self.chain.borrow_mut();
            let m = Arc::make_mut(&mut ch.contracts);
            let c = Arc::make_mut(m.get_mut(addr).ok_or("no such contract")?);
            if c.admin.as_deref() != Some(sender) {
                return Err("migrate: not the admin".into());
            }
            c.code = code;
            c.h = OnceLock::new();
        }
        self.call(addr, |deps, env| code.migrate(deps, env, &msg))
            .and_then(|resp| self.response(addr, code, resp))
    }

    fn response(
        &self,
        addr: &str,
        code: &'static dyn Code,
        resp: Response,
    ) -> Result<CallOut, String> {
        let mut events: Vec<Event> = vec![];
        if !resp.attributes.is_empty() {
            events.push(Event::new("wasm").add_attributes(resp.attributes.clone()));
        }
        events.extend(resp.events.iter().cloned());
        for e in &events {
            legal_event(e)?;
            self.log(Ev::Event {
                contract: addr.into(),
                ty: e.ty.clone(),
                attrs: e
                    .attributes
                    .iter()
                    .map(|a| (a.key.clone(), a.value.clone()))
                    .collect(),
            });
        }
        let mut data = resp.data;
        for sub in resp.messages {
            let (d, ev) = self.submsg(addr, code, sub)?;
            if d.is_some() {
                data = d;
            }
            events.extend(ev);
        }
        Ok((data, events))
    }

    fn submsg(&self, addr: &str, code: &'static dyn Code, sub: SubMsg) -> Result<CallOut, String> {
        let mark = self.trace.borrow().len();
        let SubMsg {
            id, msg, reply_on, ..
        } = sub;
        // an error that nobody catches reverts the whole transaction anyway
        let catches = matches!(reply_on, ReplyOn::Always | ReplyOn::Error);
        let snap = catches.then(|| self.chain.borrow().clone());
        match self.dispatch(addr, msg) {
            Ok((data, events)) => {
                if matches!(reply_on, ReplyOn::Always | ReplyOn::Success) {
                    let (d, ev) = self.reply(
                        addr,
                        code,
                        Reply {
                            id,
                            result: SubMsgResult::Ok(SubMsgResponse {
                                events: events.clone(),
                                data,
                            }),
                        },
                    )?;
                    return Ok((d, events.into_iter().chain(ev).collect()));
                }
                Ok((None, events))
            }
            Err(e) => {
                if let Some(snap) = snap {
                    *self.chain.borrow_mut() = snap;
                }
                self.trace.borrow_mut()[mark..]
                    .iter_mut()
                    .for_each(|i| i.live = false);
                if catches {
                    return self.reply(
                        addr,
                        code,
                        Reply {
                            id,
                            result: SubMsgResult::Err(e),
                        },
                    );
                }
                Err(e)
            }
        }
    }

    fn reply(&self, addr: &str, code: &'static dyn Code, reply: Reply) -> Result<CallOut, String> {
        self.log(Ev::Reply { to: addr.into() });
        self.call(addr, |deps, env| code.reply(deps, env, reply))
            .and_then(|resp| self.response(addr, code, resp))
    }

    fn dispatch(&self, from: &str, msg: CosmosMsg) -> Result<CallOut, String> {
        match msg {
            CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr,
                msg,
                funds,
            }) => {
                let (d, e) = self.execute(from, &contract_addr, msg.0, norm_coins(&funds))?;
                let pb = PbExecResp {
                    data: d.map(|b| b.0).unwrap_or_default(),
                };
                Ok((Some(prost::Message::encode_to_vec(&pb).into()), e))
            }
            CosmosMsg::Wasm(WasmMsg::Instantiate {
                admin,
                code_id,
                msg,
                funds,
                ..
            }) => {
                let code = crate::codes::code_by_id(code_id).ok_or("no such code id")?;
                let (a, d, e) =
                    self.instantiate(code, from, admin, msg.0, norm_coins(&funds))?;
                let pb = PbInstResp {
                    address: a,
                    data: d.map(|b| b.0).unwrap_or_default(),
                };
                Ok((Some(prost::Message::encode_to_vec(&pb).into()), e))
            }
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                let coins = norm_coins(&amount);
                if coins.is_empty() {
                    return Err("bank send: invalid coins".into());
                }
                let (h, raw) = unb32(&to_address)?;
                if h != *self.chain.borrow().hrp || raw.is_empty() {
                    return Err("bank send: invalid recipient".into());
                }
                self.chain.borrow_mut().transfer(from, &to_address, &coins)?;
                self.log(Ev::Send {
                    from: from.into(),
                    to: to_address,
                    coins,
                });
                Ok((None, vec![]))
            }
            CosmosMsg::Bank(BankMsg::Burn { amount }) => {
                for (d, a) in norm_coins(&amount) {
                    self.chain.borrow_mut().sub(from, &d, a)?;
                    self.log(Ev::Burn {
                        by: from.into(),
                        denom: d,
                        amount: a,
                    });
                }
                Ok((None, vec![]))
            }
            CosmosMsg::Stargate { type_url, value } => self.stargate(from, &type_url, &value),
            other => Err(format!("unsupported message {other:?}")),
        }
    }

    fn stargate(&self, from: &str, url: &str, value: &[u8]) -> Result<CallOut, String> {
        const P: &str = "/osmosis.tokenfactory.v1beta1.";
        let name = url
            .strip_prefix(P)
            .ok_or_else(|| format!("unsupported type url {url}"))?;
        let dec = |e: prost::DecodeError| e.to_string();
        match name {
            "MsgCreateDenom" => {
                let m: PbCreateDenom = prost::Message::decode(value).map_err(dec)?;
                if m.sender != from {
                    return Err("tokenfactory: wrong signer".into());
                }
                let denom = format!("factory/{}/{}", m.sender, m.subdenom);
                if m.subdenom.len() > 44 {
                    return Err("tokenfactory: subdenom too long".into());
                }
                let mut ch = self.chain.borrow_mut();
                if ch.denoms.contains_key(&denom) {
                    return Err("tokenfactory: denom exists".into());
                }
                Arc::make_mut(&mut ch.denoms).insert(denom.clone(), m.sender);
                Ok((
                    Some(prost::Message::encode_to_vec(&PbStr { v: denom }).into()),
                    vec![],
                ))
            }
            "MsgMint" | "MsgBurn" => {
                let m: PbMintBurn = prost::Message::decode(value).map_err(dec)?;
                if m.sender != from {
                    return Err("tokenfactory: wrong signer".into());
                }
                let c = m.amount.ok_or("tokenfactory: no amount")?;
                let amount: u128 = c
                    .amount
                    .parse()
                    .map_err(|_| "tokenfactory: amount out of range".to_string())?;
                if amount == 0 {
                    return Err("tokenfactory: zero amount".into());
                }
                let mut ch = self.chain.borrow_mut();
                match ch.denoms.get(&c.denom) {
                    None => return Err("tokenfactory: no such denom".into()),
                    Some(admin) if admin != from => {
                        return Err("tokenfactory: not the admin".into())
                    }
                    _ => {}
                }
                let target = if m.other.is_empty() {
                    from.to_string()
                } else {
                    m.other
                };
                if name == "MsgMint" {
                    ch.supply(&c.denom)
                        .checked_add(amount)
                        .ok_or("tokenfactory: supply overflow")?;
                    ch.add(&target, &c.denom, amount)?;
                    drop(ch);
                    self.log(Ev::Mint {
                        by: from.into(),
                        denom: c.denom,
                        amount,
                    });
                } else {
                    ch.sub(&target, &c.denom, amount)?;
                    drop(ch);
                    self.log(Ev::Burn {
                        by: from.into(),
                        denom: c.denom,
                        amount,
                    });
                }
                Ok((Some(Binary::default()), vec![]))
            }
            "MsgSetDenomMetadata" => {
                let m: PbSetMetadata = prost::Message::decode(value).map_err(dec)?;
                if m.sender != from {
                    return Err("tokenfactory: wrong signer".into());
                }
                let meta = m.metadata.ok_or("tokenfactory: no metadata")?;
                let mut ch = self.chain.borrow_mut();
                if ch.denoms.get(&meta.base).map(|a| a.as_str()) != Some(from) {
                    return Err("tokenfactory: not the admin of the base denomination".into());
                }
                Arc::make_mut(&mut ch.meta).insert(meta.base.clone(), meta);
                Ok((Some(Binary::default()), vec![]))
            }
            _ => Err(format!("unsupported type url {url}")),
        }
    }
}

#[derive(Clone, PartialEq, prost::Message)]
struct PbSetMetadata {
    #[prost(string, tag = "1")]
    sender: String,
    #[prost(message, optional, tag = "2")]
    metadata: Option<PbMetadata>,
}
/// cosmos.bank.v1beta1.Metadata
#[derive(Clone, PartialEq, prost::Message)]
pub struct PbMetadata {
    #[prost(string, tag = "1")]
    pub description: String,
    #[prost(message, repeated, tag = "2")]
    pub denom_units: Vec<PbDenomUnit>,
    #[prost(string, tag = "3")]
    pub base: String,
    #[prost(string, tag = "4")]
    pub display: String,
    #[prost(string, tag = "5")]
    pub name: String,
    #[prost(string, tag = "6")]
    pub symbol: String,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct PbDenomUnit {
    #[prost(string, tag = "1")]
    pub denom: String,
    #[prost(uint32, tag = "2")]
    pub exponent: u32,
    #[prost(string, repeated, tag = "3")]
    pub aliases: Vec<String>,
}

/// serialise with the same encoder contracts use
#[allow(dead_code)]
pub fn json_vec<T: serde::Serialize>(v: &T) -> Vec<u8> {
    to_json_vec(v).unwrap()
}

/// The rules of x/wasm for events of contracts: a call whose events break them
/// fails. (Empty attribute values are legal since wasmd 0.45, the release whose
/// chains this code base is made for; older ones and cw-multi-test refuse them.)
fn legal_event(e: &Event) -> Result<(), String> {
    if e.ty.trim().len() < 2 {
        return Err(format!("event type too short: {:?}", e.ty));
    }
    for a in &e.attributes {
        if a.key.trim().is_empty() {
            return Err(format!("empty attribute key, value {:?}", a.value));
        }
        if a.key.trim().starts_with('_') {
            return Err(format!("reserved attribute key {}", a.key));
        }
    }
    Ok(())
}
