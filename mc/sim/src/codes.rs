//! Registry of contract codes: the contracts of /repo, the reference cw20 token and probe contracts.
use cosmwasm_std::{
    from_json, to_json_binary, Binary, Coin, Deps, DepsMut, Empty, Env, MessageInfo, Reply,
    Response, SubMsg, WasmMsg,
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

pub trait Code: Sync + Send {
    fn name(&self) -> &'static str;
    fn instantiate(
        &self,
        deps: DepsMut,
        env: Env,
        info: MessageInfo,
        msg: &[u8],
    ) -> Result<Response, String>;
    fn execute(
        &self,
        deps: DepsMut,
        env: Env,
        info: MessageInfo,
        msg: &[u8],
    ) -> Result<Response, String>;
    fn query(&self, deps: Deps, env: Env, msg: &[u8]) -> Result<Binary, String>;
    fn migrate(&self, deps: DepsMut, env: Env, msg: &[u8]) -> Result<Response, String>;
    fn reply(&self, _deps: DepsMut, _env: Env, _r: Reply) -> Result<Response, String> {
        Err("no reply entry point".into())
    }
}

macro_rules! code {
    ($t:ident, $name:literal, $($m:ident)::+ $(, $reply:path)?) => {
        pub struct $t;
        impl Code for $t {
            fn name(&self) -> &'static str { $name }
            fn instantiate(&self, deps: DepsMut, env: Env, info: MessageInfo, msg: &[u8]) -> Result<Response, String> {
                let m = from_json(msg).map_err(|e| format!("parse: {e}"))?;
                $($m)::+::instantiate(deps, env, info, m).map_err(|e| e.to_string())
            }
            fn execute(&self, deps: DepsMut, env: Env, info: MessageInfo, msg: &[u8]) -> Result<Response, String> {
                let m = from_json(msg).map_err(|e| format!("parse: {e}"))?;
                $($m)::+::execute(deps, env, info, m).map_err(|e| e.to_string())
            }
            fn query(&self, deps: Deps, env: Env, msg: &[u8]) -> Result<Binary, String> {
                let m = from_json(msg).map_err(|e| format!("parse: {e}"))?;
                $($m)::+::query(deps, env, m).map_err(|e| e.to_string())
            }
            fn migrate(&self, deps: DepsMut, env: Env, msg: &[u8]) -> Result<Response, String> {
                let m: Empty = from_json(msg).map_err(|e| format!("parse: {e}"))?;
                $($m)::+::migrate(deps, env, m).map_err(|e| e.to_string())
            }
            $(fn reply(&self, deps: DepsMut, env: Env, r: Reply) -> Result<Response, String> {
                $reply(deps, env, r).map_err(|e| e.to_string())
            })?
        }
    };
}

code!(Mailbox, "mailbox", hpl_mailbox::contract);
code!(Va, "va", hpl_validator_announce::contract);
code!(HookAggregate, "hook_aggregate", hpl_hook_aggregate);
code!(HookFee, "hook_fee", hpl_hook_fee);
code!(HookMerkle, "hook_merkle", hpl_hook_merkle);
code!(HookPausable, "hook_pausable", hpl_hook_pausable);
code!(HookRouting, "hook_routing", hpl_hook_routing);
code!(HookRoutingCustom, "hook_routing_custom", hpl_hook_routing_custom);
code!(HookRoutingFallback, "hook_routing_fallback", hpl_hook_routing_fallback);
code!(Igp, "igp", hpl_igp::contract);
code!(IgpOracle, "igp_oracle", hpl_igp_oracle::contract);
code!(IsmAggregate, "ism_aggregate", hpl_ism_aggregate);
code!(IsmMultisig, "ism_multisig", hpl_ism_multisig::contract);
code!(IsmPausable, "ism_pausable", hpl_ism_pausable);
code!(IsmRouting, "ism_routing", hpl_ism_routing::contract);
code!(WarpCw20, "warp_cw20", hpl_warp_cw20::contract, hpl_warp_cw20::contract::reply);
code!(WarpNative, "warp_native", hpl_warp_native::contract, hpl_warp_native::contract::reply);

/// the reference token of the cw-plus project
pub struct Cw20;
impl Code for Cw20 {
    fn name(&self) -> &'static str {
        "cw20"
    }
    fn instantiate(
        &self,
        deps: DepsMut,
        env: Env,
        info: MessageInfo,
        msg: &[u8],
    ) -> Result<Response, String> {
        let m = from_json(msg).map_err(|e| format!("parse: {e}"))?;
        cw20_base::contract::instantiate(deps, env, info, m).map_err(|e| e.to_string())
    }
    fn execute(
        &self,
        deps: DepsMut,
        env: Env,
        info: MessageInfo,
        msg: &[u8],
    ) -> Result<Response, String> {
        let m = from_json(msg).map_err(|e| format!("parse: {e}"))?;
        cw20_base::contract::execute(deps, env, info, m).map_err(|e| e.to_string())
    }
    fn query(&self, deps: Deps, env: Env, msg: &[u8]) -> Result<Binary, String> {
        let m = from_json(msg).map_err(|e| format!("parse: {e}"))?;
        cw20_base::contract::query(deps, env, m).map_err(|e| e.to_string())
    }
    fn migrate(&self, _: DepsMut, _: Env, _: &[u8]) -> Result<Response, String> {
        Err("no migrate".into())
    }
}

// ------------------------------------------------------------------ probe

#[derive(Clone, Serialize, Deserialize, Default, Debug, PartialEq)]
#[serde(default)]
pub struct Emit {
    pub to: String,
    /// JSON text of the message
    pub msg: String,
    pub funds: Vec<(String, String)>,
    /// catch the error of this call
    pub swallow: bool,
    /// emit only when the probe's handle counter equals this (0 = always)
    pub once: bool,
}

/// Behaviour of a probe contract. It plays whatever counterparty a check needs: message receiver,
/// hook, security module, account contract.
#[derive(Clone, Serialize, Deserialize, Default, Debug, PartialEq)]
#[serde(default)]
pub struct ProbeCfg {
    /// answer of the recipient's ISM-specifier query
    pub ism: Option<String>,
    /// the specifier query itself fails
    pub ism_err: bool,
    /// the contract is not aware of the specifier query at all
    pub handle_fail: bool,
    pub handle_panic: bool,
    pub handle_emit: Vec<Emit>,
    /// takes dispatches, as a mailbox does
    pub dispatch: bool,

    /// quoted fees
    pub quote: Vec<(String, String)>,
    pub quote_fail: bool,
    /// quote (in this denom) depends on the exact metadata and message bytes, see `price`
    pub quote_hashed: Option<String>,
    /// post_dispatch requires exactly the quoted coins
    pub strict: bool,
    pub post_fail: bool,
    pub post_emit: Vec<Emit>,

    /// "accept" | "reject" | "error" | "panic" | "bytes" (see verify) | "exact"
    pub verify: String,
    /// for "exact": accepted metadata / message (hex)
    pub want_meta: String,
    pub want_msg: String,
}

pub const PROBE_KEY: &[u8] = b"probe_cfg";

/// fee of a `quote_hashed` probe
pub fn price(salt: &str, metadata: &str, message: &str) -> u128 {
    let h = crate::chain::keccak(format!("{salt}|{metadata}|{message}").as_bytes());
    1 + (h[0] as u128) % 50
}

pub struct Probe;

impl Probe {
    fn cfg(deps: Deps) -> ProbeCfg {
        deps.storage
            .get(PROBE_KEY)
            .map(|b| serde_json::from_slice(&b).expect("probe cfg"))
            .unwrap_or_default()
    }
    fn quote(cfg: &ProbeCfg, me: &str, metadata: &str, message: &str) -> Vec<Coin> {
        let mut v: Vec<Coin> = cfg
            .quote
            .iter()
            .map(|(d, a)| Coin {
                denom: d.clone(),
                amount: a.parse::<u128>().unwrap().into(),
            })
            .collect();
        if let Some(d) = &cfg.quote_hashed {
            v.push(Coin {
                denom: d.clone(),
                amount: price(me, metadata, message).into(),
            });
        }
        v
    }
    fn emit(resp: Response, list: &[Emit]) -> Response {
        list.iter().fold(resp, |r, e| {
            let m = WasmMsg::Execute {
                contract_addr: e.to.clone(),
                msg: Binary(e.msg.clone().into_bytes()),
                funds: e
                    .funds
                    .iter()
                    .map(|(d, a)| Coin {
                        denom: d.clone(),
                        amount: a.parse::<u128>().unwrap().into(),
                    })
                    .collect(),
            };
            r.add_submessage(if e.swallow {
                SubMsg::reply_on_error(m, 1)
            } else {
                SubMsg::new(m)
            })
        })
    }
}

impl Code for Probe {
    fn name(&self) -> &'static str {
        "probe"
    }
    fn instantiate(
        &self,
        deps: DepsMut,
        _: Env,
        _: MessageInfo,
        msg: &[u8],
    ) -> Result<Response, String> {
        let cfg: ProbeCfg = serde_json::from_slice(msg).map_err(|e| e.to_string())?;
        deps.storage
            .set(PROBE_KEY, &serde_json::to_vec(&cfg).unwrap());
        Ok(Response::new())
    }
    fn execute(
        &self,
        deps: DepsMut,
        env: Env,
        info: MessageInfo,
        msg: &[u8],
    ) -> Result<Response, String> {
        let v: Value = serde_json::from_slice(msg).map_err(|e| e.to_string())?;
        let cfg = Self::cfg(deps.as_ref());
        if v.get("handle").is_some() {
            if cfg.handle_panic {
                panic!("probe: handle panics");
            }
            if cfg.handle_fail {
                return Err("probe: handle fails".into());
            }
            return Ok(Self::emit(Response::new(), &cfg.handle_emit));
        }
        if let Some(pd) = v.get("post_dispatch") {
            if cfg.post_fail {
                return Err("probe: post_dispatch fails".into());
            }
            if cfg.strict {
                let want = Self::quote(
                    &cfg,
                    env.contract.address.as_str(),
                    pd["metadata"].as_str().unwrap_or("?"),
                    pd["message"].as_str().unwrap_or("?"),
                );
                let sum = |l: &[Coin]| {
                    let mut m = std::collections::BTreeMap::new();
                    for c in l.iter().filter(|c| !c.amount.is_zero()) {
                        *m.entry(c.denom.clone()).or_insert(0u128) += c.amount.u128();
                    }
                    m
                };
                let (got, want) = (sum(&info.funds), sum(&want));
                if got != want {
                    return Err(format!("probe: wanted {want:?} got {got:?}"));
                }
            }
            return Ok(Self::emit(Response::new(), &cfg.post_emit));
        }
        if cfg.dispatch && v.get("dispatch").is_some() {
            return Ok(Response::new());
        }
        // relay: {"relay":{"to":..,"msg":"json","funds":[[d,a]],"swallow":bool}} - acts as an account contract
        if let Some(r) = v.get("relay") {
            let list: Vec<Emit> = if r.is_array() {
                serde_json::from_value(r.clone()).map_err(|e| e.to_string())?
            } else {
                vec![serde_json::from_value(r.clone()).map_err(|e| e.to_string())?]
            };
            return Ok(Self::emit(Response::new(), &list));
        }
        Err("probe: unknown message".into())
    }
    fn query(&self, deps: Deps, env: Env, msg: &[u8]) -> Result<Binary, String> {
        let v: Value = serde_json::from_slice(msg).map_err(|e| e.to_string())?;
        let cfg = Self::cfg(deps);
        let out = if v.get("ism_specifier").is_some() {
            if cfg.ism_err {
                return Err("probe: specifier fails".into());
            }
            json!({ "ism": cfg.ism })
        } else if let Some(ism) = v.get("ism") {
            if let Some(ver) = ism.get("verify") {
                let meta = ver["metadata"].as_str().ok_or("probe: metadata")?;
                let message = ver["message"].as_str().ok_or("probe: message")?;
                let ok = match cfg.verify.as_str() {
                    "accept" => true,
                    "reject" => false,
                    "error" => return Err("probe: verify errors".into()),
                    "panic" => panic!("probe: verify panics"),
                    // first metadata byte: 01 accept, 00/empty reject, ee error, dd panic
                    "bytes" => match meta.get(0..2) {
                        Some("01") => true,
                        Some("ee") => return Err("probe: verify errors".into()),
                        Some("dd") => panic!("probe: verify panics"),
                        _ => false,
                    },
                    "exact" => meta == cfg.want_meta && message == cfg.want_msg,
                    // a reply that is not a verdict at all
                    "garbage" => return Ok(to_json_binary(&"?").unwrap()),
                    _ => return Err("probe: not a security module".into()),
                };
                json!({ "verified": ok })
            } else if ism.get("verify_info").is_some() {
                let t = env.contract.address.as_bytes()[10] as u64 % 7 + 1;
                json!({"threshold": t, "validators": [hex::encode(&crate::chain::keccak(env.contract.address.as_bytes())[..20])]})
            } else {
                json!({"type": "null"})
            }
        } else if let Some(q) = v.get("hook").and_then(|h| h.get("quote_dispatch")) {
            if cfg.quote_fail {
                return Err("probe: quote fails".into());
            }
            let meta = q["metadata"].as_str().ok_or("probe: metadata")?;
            let message = q["message"].as_str().ok_or("probe: message")?;
            let fees = Self::quote(&cfg, env.contract.address.as_str(), meta, message);
            return to_json_binary(&json!({ "fees": fees.iter().map(|c| json!({"denom": c.denom, "amount": c.amount.to_string()})).collect::<Vec<_>>() }))
                .map_err(|e| e.to_string());
        } else {
            return Err("probe: unknown query".into());
        };
        Ok(Binary(serde_json::to_vec(&out).unwrap()))
    }
    fn migrate(&self, _: DepsMut, _: Env, _: &[u8]) -> Result<Response, String> {
        Err("no migrate".into())
    }
    fn reply(&self, _: DepsMut, _: Env, _: Reply) -> Result<Response, String> {
        Ok(Response::new())
    }
}

static CODES: &[&dyn Code] = &[
    &Cw20,
    &Mailbox,
    &Va,
    &HookAggregate,
    &HookFee,
    &HookMerkle,
    &HookPausable,
    &HookRouting,
    &HookRoutingCustom,
    &HookRoutingFallback,
    &Igp,
    &IgpOracle,
    &IsmAggregate,
    &IsmMultisig,
    &IsmPausable,
    &IsmRouting,
    &WarpCw20,
    &WarpNative,
    &Probe,
];

pub const CW20_CODE_ID: u64 = 1;

pub fn code_by_name(name: &str) -> &'static dyn Code {
    CODES
        .iter()
        .copied()
        .find(|c| c.name() == name)
        .unwrap_or_else(|| panic!("no code {name}"))
}
pub fn code_by_id(id: u64) -> Option<&'static dyn Code> {
    CODES.get((id as usize).checked_sub(1)?).copied()
}

pub fn set_probe(ch: &mut crate::chain::Chain, addr: &str, cfg: &ProbeCfg) {
    ch.store_set(addr, PROBE_KEY, Some(serde_json::to_vec(cfg).unwrap()));
}
pub fn new_probe(ch: &mut crate::chain::Chain, cfg: &ProbeCfg) -> String {
    let who = ch.user("probe-deployer");
    ch.instantiate("probe", &who, &serde_json::to_value(cfg).unwrap())
        .expect("probe")
}
