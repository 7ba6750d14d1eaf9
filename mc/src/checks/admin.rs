//! A01 owner-only operations, A02 ownership, A03 route tables and listings, A04 migration
use super::warp::{deploy, enroll, transfer_msg, KINDS};
use crate::chain::{b32, unb32, Chain};
use crate::explore::{Cov, CovExt, Ctx, Model, Res, Step};
use crate::util::*;
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use crate::chain::keccak;
use std::sync::Arc;

const HRP: &str = "osmo";
const LOCAL: u32 = 26657;

/// one administrative operation of a contract
#[derive(Clone, Debug)]
struct Op {
    name: &'static str,
    msg: Value,
    /// applicable again and again whatever other operations have been applied
    again: bool,
}
fn op(name: &'static str, msg: Value) -> Op {
    Op {
        name,
        msg,
        again: true,
    }
}
fn once(name: &'static str, msg: Value) -> Op {
    Op {
        name,
        msg,
        again: false,
    }
}
#[derive(Clone, Debug)]
struct Owned {
    code: &'static str,
    label: &'static str,
    addr: String,
    ops: Vec<Op>,
}
#[derive(Clone)]
struct System {
    ch: Chain,
    owned: Arc<Vec<Owned>>,
    /// contracts without an owner
    free: Arc<Vec<(&'static str, String)>>,
}
fn route_ops(a: &Value, b: &Value) -> Vec<Op> {
    vec![
        op("set_route", json!({"router": {"set_route": {"set": {"domain": 7, "route": a}}}})),
        op("replace route", json!({"router": {"set_route": {"set": {"domain": 9, "route": b}}}})),
        op("clear route", json!({"router": {"set_route": {"set": {"domain": 9, "route": null}}}})),
        op(
            "set_routes",
            json!({"router": {"set_routes": {"set": [{"domain": 8, "route": a}, {"domain": 9, "route": b}]}}}),
        ),
    ]
}
/// every contract of the project on one chain, configured and in use
fn system() -> Res<System> {
    let mut ch = Chain::new(HRP);
    let dep = ch.user("deployer");
    let own = ch.user("owner0");
    let ben = ch.user("beneficiary");
    let mb = inst(&mut ch, "mailbox", &dep, json!({"hrp": HRP, "owner": own, "domain": LOCAL}))?;
    let h1 = quiet_hook(&mut ch);
    let h2 = quiet_hook(&mut ch);
    let i1 = probe(&mut ch, |p| p.verify = "accept".into());
    let i2 = probe(&mut ch, |p| p.verify = "accept".into());
    let mut owned = vec![];
    let mut free = vec![];
    let add = |owned: &mut Vec<Owned>, code, label, addr: &str, ops| {
        owned.push(Owned {
            code,
            label,
            addr: addr.to_string(),
            ops,
        })
    };
    add(
        &mut owned,
        "mailbox",
        "mailbox",
        &mb,
        vec![
            op("set_default_ism", json!({"set_default_ism": {"ism": i1}})),
            op("set_default_ism 2", json!({"set_default_ism": {"ism": i2}})),
            op("set_default_hook", json!({"set_default_hook": {"hook": h1}})),
            op("set_default_hook 2", json!({"set_default_hook": {"hook": h2}})),
            op("set_required_hook", json!({"set_required_hook": {"hook": h2}})),
            op("set_required_hook 2", json!({"set_required_hook": {"hook": h1}})),
        ],
    );
    let a = inst(&mut ch, "hook_aggregate", &dep, json!({"owner": own, "hooks": [h1]}))?;
    add(
        &mut owned,
        "hook_aggregate",
        "aggregate hook",
        &a,
        vec![
            op("set_hooks", json!({"set_hooks": {"hooks": [h1, h2]}})),
            op("set_hooks 2", json!({"set_hooks": {"hooks": [h2]}})),
        ],
    );
    let a = inst(
        &mut ch,
        "hook_fee",
        &dep,
        json!({"owner": own, "fee": {"denom": "fee", "amount": "5"}}),
    )?;
    ch.fund(&a, "fee", 1000);
    ch.fund(&a, "other", 10);
    add(
        &mut owned,
        "hook_fee",
        "fee hook",
        &a,
        vec![
            op("set_fee", json!({"fee_hook": {"set_fee": {"fee": {"denom": "fee", "amount": "6"}}}})),
            op("set_fee zero", json!({"fee_hook": {"set_fee": {"fee": {"denom": "other", "amount": "0"}}}})),
            once("claim", json!({"fee_hook": {"claim": {"recipient": null}}})),
            once("claim to another", json!({"fee_hook": {"claim": {"recipient": ben}}})),
        ],
    );
    let a = inst(&mut ch, "hook_pausable", &dep, json!({"owner": own, "paused": false}))?;
    add(
        &mut owned,
        "hook_pausable",
        "pausable hook",
        &a,
        vec![once("pause", json!({"pausable": {"pause": {}}}))],
    );
    let a = inst(&mut ch, "hook_pausable", &dep, json!({"owner": own, "paused": true}))?;
    add(
        &mut owned,
        "hook_pausable",
        "paused hook",
        &a,
        vec![once("release", json!({"pausable": {"release": {}}}))],
    );
    let a = inst(&mut ch, "hook_routing", &dep, json!({"owner": own}))?;
    add(&mut owned, "hook_routing", "routing hook", &a, route_ops(&json!(h1), &json!(h2)));
    let a = inst(&mut ch, "hook_routing_custom", &dep, json!({"owner": own}))?;
    let (r1, r2) = (hx(&fill32("r1")), hx(&fill32("r2")));
    let mut ops = route_ops(&json!(h1), &json!(h2));
    let reg = |d: u32, r: &str, h: &str| json!({"dest_domain": d, "recipient": r, "hook": h});
    let key = |d: u32, r: &str| json!({"dest_domain": d, "recipient": r});
    ops.extend([
        op("register_custom_hook", json!({"register_custom_hook": reg(7, &r1, &h1)})),
        op("replace custom hook", json!({"register_custom_hook": reg(7, &r1, &h2)})),
        op("register_custom_hooks", json!({"register_custom_hooks": [reg(7, &r1, &h1), reg(7, &r2, &h2)]})),
        once("clear_custom_hook", json!({"clear_custom_hook": key(9, &r1)})),
        once("clear_custom_hooks", json!({"clear_custom_hooks": [key(9, &r1), key(9, &r2)]})),
    ]);
    call(
        &mut ch,
        &own,
        &a,
        json!({"register_custom_hooks": [reg(9, &r1, &h1), reg(9, &r2, &h2)]}),
    )?;
    add(&mut owned, "hook_routing_custom", "custom routing hook", &a, ops);
    let a = inst(&mut ch, "hook_routing_fallback", &dep, json!({"owner": own}))?;
    let mut ops = route_ops(&json!(h1), &json!(h2));
    ops.extend([
        op("set_fallback_hook", json!({"set_fallback_hook": {"hook": h1}})),
        op("set_fallback_hook 2", json!({"set_fallback_hook": {"hook": h2}})),
    ]);
    add(&mut owned, "hook_routing_fallback", "fallback routing hook", &a, ops);
    let oracle = inst(&mut ch, "igp_oracle", &dep, json!({"owner": own}))?;
    let cfg = |d: u32, r: u128| json!({"remote_domain": d, "token_exchange_rate": r.to_string(), "gas_price": "11"});
    add(
        &mut owned,
        "igp_oracle",
        "gas oracle",
        &oracle,
        vec![
            op("set_remote_gas_data", json!({"set_remote_gas_data": {"config": cfg(7, 10_000_000_000)}})),
            op("set_remote_gas_data 2", json!({"set_remote_gas_data": {"config": cfg(7, 1)}})),
            op(
                "set_remote_gas_data_configs",
                json!({"set_remote_gas_data_configs": {"configs": [cfg(7, 3), cfg(8, 10_000_000_000)]}}),
            ),
        ],
    );
    let igp = inst(
        &mut ch,
        "igp",
        &dep,
        json!({"hrp": HRP, "owner": own, "gas_token": "fee", "beneficiary": ben, "default_gas_usage": "250000"}),
    )?;
    ch.fund(&igp, "fee", 77);
    let mut ops = route_ops(&json!(oracle), &json!(h1));
    ops.extend([
        op("set_default_gas", json!({"set_default_gas": {"gas": "1"}})),
        op("set_default_gas 2", json!({"set_default_gas": {"gas": "340282366920938463463374607431768211455"}})),
        op("set_gas_for_domain", json!({"set_gas_for_domain": {"config": [[7, "10"], [8, "20"]]}})),
        once("unset_gas_for_domain", json!({"unset_gas_for_domain": {"domains": [9]}})),
        op("set_beneficiary", json!({"set_beneficiary": {"beneficiary": own}})),
        op("set_beneficiary 2", json!({"set_beneficiary": {"beneficiary": ch.user("owner1")}})),
        op("set_beneficiary 3", json!({"set_beneficiary": {"beneficiary": ben}})),
    ]);
    call(&mut ch, &own, &igp, json!({"set_gas_for_domain": {"config": [[9, "10"]]}}))?;
    add(&mut owned, "igp", "gas paymaster", &igp, ops);
    let a = inst(&mut ch, "ism_aggregate", &dep, json!({"owner": own, "isms": [i1, i2], "threshold": 1}))?;
    add(
        &mut owned,
        "ism_aggregate",
        "aggregate module",
        &a,
        vec![
            op("set_isms", json!({"set_isms": {"isms": [i1], "threshold": 1}})),
            op("set_isms 2", json!({"set_isms": {"isms": [i1, i2], "threshold": 2}})),
        ],
    );
    let a = inst(&mut ch, "ism_multisig", &dep, json!({"owner": own}))?;
    let (v1, v2) = (hx(&fill("v1", 20)), hx(&fill("v2", 20)));
    call(
        &mut ch,
        &own,
        &a,
        json!({"set_validators": {"domain": 9, "threshold": 1, "validators": [v1]}}),
    )?;
    add(
        &mut owned,
        "ism_multisig",
        "multisig module",
        &a,
        vec![
            op(
                "set_validators",
                json!({"set_validators": {"domain": 7, "threshold": 1, "validators": [v1, v2]}}),
            ),
            op(
                "set_validators 2",
                json!({"set_validators": {"domain": 7, "threshold": 1, "validators": [v2]}}),
            ),
            once("unset_domain", json!({"unset_domain": {"domain": 9}})),
        ],
    );
    let a = inst(&mut ch, "ism_pausable", &dep, json!({"owner": own, "paused": false}))?;
    add(
        &mut owned,
        "ism_pausable",
        "pausable module",
        &a,
        vec![once("pause", json!({"pausable": {"pause": {}}}))],
    );
    let a = inst(&mut ch, "ism_pausable", &dep, json!({"owner": own, "paused": true}))?;
    add(
        &mut owned,
        "ism_pausable",
        "paused module",
        &a,
        vec![once("release", json!({"pausable": {"release": {}}}))],
    );
    let a = inst(
        &mut ch,
        "ism_routing",
        &dep,
        json!({"owner": own, "isms": [{"domain": 9, "address": i1}]}),
    )?;
    add(
        &mut owned,
        "ism_routing",
        "routing module",
        &a,
        vec![
            op("set", json!({"set": {"ism": {"domain": 7, "address": i1}}})),
            op("set 2", json!({"set": {"ism": {"domain": 7, "address": i2}}})),
            once("unset", json!({"unset": {"domains": [9]}})),
        ],
    );
    for (k, label) in [(0, "native collateral route"), (1, "native synthetic route"), (2, "cw20 collateral route"), (3, "cw20 synthetic route")] {
        let kind = KINDS[k];
        let code = if kind.cw20 { "warp_cw20" } else { "warp_native" };
        let alice = ch.user("alice");
        let hold: Vec<(&str, u128)> = vec![(alice.as_str(), 100)];
        let r = deploy(&mut ch, &own, kind, &mb, &hold)?;
        let mut ops = route_ops(&json!(r1), &json!(r2));
        ops.extend([
            op("set_mailbox", json!({"connection": {"set_mailbox": {"mailbox": mb}}})),
            op("set_mailbox 2", json!({"connection": {"set_mailbox": {"mailbox": h1}}})),
            op("set_hook", json!({"connection": {"set_hook": {"hook": h1}}})),
            op("set_hook 2", json!({"connection": {"set_hook": {"hook": h2}}})),
            op("set_ism", json!({"connection": {"set_ism": {"ism": i1}}})),
            op("set_ism 2", json!({"connection": {"set_ism": {"ism": i2}}})),
        ]);
        call(&mut ch, &own, &r.addr, enroll(9, Some(&fill32("r9"))))?;
        add(&mut owned, code, label, &r.addr, ops);
    }
    let a = inst(&mut ch, "hook_merkle", &dep, json!({"mailbox": mb}))?;
    free.push(("hook_merkle", a));
    let a = inst(&mut ch, "va", &dep, json!({"hrp": HRP, "mailbox": mb}))?;
    free.push(("va", a));
    Ok(System {
        ch,
        owned: Arc::new(owned),
        free: Arc::new(free),
    })
}

/// ownership messages; the oracle names the group differently
fn own_msg(code: &str, inner: Value) -> Value {
    if code == "igp_oracle" {
        json!({ "ownership": inner })
    } else {
        json!({ "ownable": inner })
    }
}
pub fn nominate(code: &str, next: &str) -> Value {
    own_msg(code, json!({"init_ownership_transfer": {"next_owner": next}}))
}
pub fn revoke(code: &str) -> Value {
    own_msg(code, json!({"revoke_ownership_transfer": {}}))
}
pub fn claim(code: &str) -> Value {
    own_msg(code, json!({"claim_ownership": {}}))
}

#[derive(Clone)]
struct SO {
    ch: Chain,
    owner: usize,
    pending: Option<usize>,
    /// administrative operations applied so far
    ops: u8,
}
#[derive(Clone, Debug)]
enum AO {
    Nominate(usize, usize),
    Invalid(usize, usize),
    Revoke(usize),
    Claim(usize),
    Op(usize),
}
/// ownership histories of one contract
struct MO {
    sys: System,
    c: usize,
    /// accounts which take part
    people: Vec<String>,
    others: Vec<String>,
    max_ops: u8,
    /// try all administrative operations as every caller in every state
    try_ops: bool,
    /// start with this many past handovers between the first two accounts
    past: usize,
}
impl MO {
    fn new(sys: &System, c: usize, max_ops: u8, try_ops: bool, past: usize) -> MO {
        let mut people: Vec<String> = (0..3).map(|i| sys.ch.user(&format!("owner{i}"))).collect();
        // a contract as owner: the mailbox (for the mailbox itself: its own address)
        people.push(sys.owned[0].addr.clone());
        let mut others: Vec<String> = ["deployer", "beneficiary", "alice", "nobody"]
            .iter()
            .map(|u| sys.ch.user(u))
            .collect();
        others.extend(sys.owned.iter().map(|o| o.addr.clone()));
        others.extend(sys.free.iter().map(|o| o.1.clone()));
        others.retain(|o| !people.contains(o));
        MO {
            sys: sys.clone(),
            c,
            people,
            others,
            max_ops,
            try_ops,
            past,
        }
    }
    fn o(&self) -> &Owned {
        &self.sys.owned[self.c]
    }
}
impl Model for MO {
    type S = SO;
    type A = AO;
    fn init(&self) -> Res<Vec<(String, SO)>> {
        // freshly deployed again: the addresses are the same
        let sys = system()?;
        let mut s = SO {
            ch: sys.ch,
            owner: 0,
            pending: None,
            ops: 0,
        };
        for i in 0..self.past {
            let (a, b) = (&self.people[i % 2], &self.people[1 - i % 2]);
            call(&mut s.ch, a, &self.o().addr, nominate(self.o().code, b))?;
            call(&mut s.ch, b, &self.o().addr, claim(self.o().code))?;
            s.owner = 1 - i % 2;
        }
        Ok(vec![("as created".into(), s)])
    }
    fn actions(&self, s: &SO) -> Vec<AO> {
        let n = self.people.len();
        let mut v = vec![];
        for by in 0..n {
            for who in 0..n {
                v.push(AO::Nominate(by, who));
            }
            for k in 0..3 {
                v.push(AO::Invalid(by, k));
            }
            v.push(AO::Revoke(by));
            v.push(AO::Claim(by));
        }
        if s.ops < self.max_ops {
            for (i, o) in self.o().ops.iter().enumerate() {
                if o.again {
                    v.push(AO::Op(i));
                }
            }
        }
        v
    }
    fn key(&self, s: &SO) -> u128 {
        s.ch.key() ^ dig(&(s.owner, s.pending, s.ops))
    }
    fn step(&self, s: &SO, a: &AO, cov: &mut Cov) -> Res<Step<SO>> {
        let o = self.o();
        let mut n = s.clone();
        let (by, m, want) = match a {
            AO::Nominate(by, who) => {
                n.pending = Some(*who);
                (
                    *by,
                    nominate(o.code, &self.people[*who]),
                    *by == s.owner && s.pending.is_none(),
                )
            }
            AO::Invalid(by, k) => {
                let bad = ["", "osmo1qqqq", "notanaddress"][*k];
                (*by, nominate(o.code, bad), false)
            }
            AO::Revoke(by) => {
                n.pending = None;
                (*by, revoke(o.code), *by == s.owner && s.pending.is_some())
            }
            AO::Claim(by) => {
                n.pending = None;
                n.owner = *by;
                (*by, claim(o.code), s.pending == Some(*by))
            }
            AO::Op(i) => {
                n.ops += 1;
                (s.owner, o.ops[*i].msg.clone(), true)
            }
        };
        let t = n.ch.exec(&self.people[by], &o.addr, &m, &[]);
        ensure_eq!(t.ok(), want, "{} {a:?} by {by} ({})", o.label, t.err());
        if !want {
            ensure_eq!(n.ch.key(), s.ch.key(), "state of {} after a refused {a:?}", o.label);
            cov.hit("refused");
            return Ok(Step::Same);
        }
        cov.hit(match a {
            AO::Nominate(..) => "nominated",
            AO::Revoke(_) => "revoked",
            AO::Claim(_) => "claimed",
            _ => "operated",
        });
        Ok(Step::Next(n))
    }
    fn check(&self, s: &SO, cov: &mut Cov) -> Res<()> {
        let o = self.o();
        let q = |k: &str| -> Res<Value> {
            let mut m = serde_json::Map::new();
            m.insert(k.to_string(), json!({}));
            s.ch
                .query(&o.addr, &json!({ "ownable": m }))
                .map_err(|e| format!("{} {k}: {e}", o.label))
        };
        ensure_eq!(q("get_owner")?["owner"], json!(self.people[s.owner]), "owner of {}", o.label);
        ensure_eq!(
            q("get_pending_owner")?["pending_owner"],
            json!(s.pending.map(|p| self.people[p].clone())),
            "nominee of {}",
            o.label
        );
        // nobody outside the game can take part in it
        for x in &self.others {
            for m in [nominate(o.code, x), revoke(o.code), claim(o.code)] {
                let mut ch = s.ch.clone();
                let t = ch.exec(x, &o.addr, &m, &[]);
                ensure!(!t.ok(), "{}: {m} by {x} succeeded", o.label);
                ensure_eq!(ch.key(), s.ch.key(), "state");
            }
        }
        if !self.try_ops {
            return Ok(());
        }
        for p in &o.ops {
            for (i, who) in self.people.iter().chain(&self.others).enumerate() {
                let mut ch = s.ch.clone();
                let t = ch.exec(who, &o.addr, &p.msg, &[]);
                let want = i == s.owner;
                ensure_eq!(
                    t.ok(),
                    want,
                    "{} {} by {who} (account {i}, owner {}) ({})",
                    o.label,
                    p.name,
                    s.owner,
                    t.err()
                );
                if want {
                    cov.hit("owner served");
                } else {
                    ensure_eq!(ch.key(), s.ch.key(), "state after a refused {}", p.name);
                    cov.hit("others refused");
                    // for whatever account they ask
                    for whom in [Some(i), Some(s.owner), s.pending].into_iter().flatten().take(if i < 6 { 3 } else { 0 }) {
                        let whom = self.people.iter().chain(&self.others).nth(whom).unwrap();
                        let m = aimed(&p.msg, whom);
                        if m == p.msg {
                            continue;
                        }
                        let mut ch = s.ch.clone();
                        ensure!(!ch.exec(who, &o.addr, &m, &[]).ok(), "{} {m} by {who} succeeded", o.label);
                        ensure_eq!(ch.key(), s.ch.key(), "state after a refused {m}");
                        cov.hit("asked for an account");
                    }
                    // nor can the right be bought
                    for (denom, amount) in [("fee", 1), ("other", 1_000_000)] {
                        let mut ch = s.ch.clone();
                        ch.fund(who, denom, amount);
                        let rich = ch.key();
                        let t = ch.exec(who, &o.addr, &p.msg, &[(denom, amount)]);
                        ensure!(!t.ok(), "{} {} by {who} with {amount}{denom} succeeded", o.label, p.name);
                        ensure_eq!(ch.key(), rich, "state after a refused {}", p.name);
                    }
                }
            }
        }
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        let mut v = vec!["refused", "nominated", "revoked", "claimed"];
        if self.try_ops {
            v.extend(["owner served", "others refused"]);
        }
        v
    }
}

/// the operation with other accounts named in it
fn aimed(m: &Value, whom: &str) -> Value {
    match m {
        Value::String(x) if unb32(x).is_ok() => json!(whom),
        Value::Null => json!(whom),
        Value::Array(l) => l.iter().map(|x| aimed(x, whom)).collect(),
        Value::Object(l) => l.iter().map(|(k, x)| (k.clone(), aimed(x, whom))).collect(),
        x => x.clone(),
    }
}

/// accounts whose bytes are close to those of `a`
fn near_accounts(a: &str) -> Vec<String> {
    let raw = unb32(a).unwrap().1;
    let mut v: Vec<Vec<u8>> = vec![];
    for i in 0..raw.len() {
        for x in [1u8, 0x80, 0xff] {
            let mut r = raw.clone();
            r[i] ^= x;
            v.push(r);
        }
    }
    let mut r = raw.clone();
    r.reverse();
    v.push(r);
    if raw.len() == 20 {
        v.push(pad32(&raw).to_vec());
        v.push([raw.clone(), vec![0; 12]].concat());
        v.push([raw.clone(), raw[..12].to_vec()].concat());
        v.push([raw[8..].to_vec(), raw.clone()].concat());
    } else {
        v.push(raw[..20].to_vec());
        v.push(raw[12..].to_vec());
        v.push([raw[16..].to_vec(), raw[..16].to_vec()].concat());
    }
    let mut seen = BTreeSet::from([raw]);
    v.retain(|x| seen.insert(x.clone()));
    v.iter().map(|x| b32(HRP, x)).collect()
}
/// contract, shape of the owner's account, 1: an operation, 2: the nomination of one close to the owner
fn near_case(sys: &System, (c, shape, what): &(usize, usize, u8), cov: &mut Cov) -> Res<u128> {
    let o = &sys.owned[*c];
    let mut ch = sys.ch.clone();
    let shapes = [fill("an account", 20), fill("a contract", 32), vec![0xff; 20], pad32(&[7; 3]).to_vec()];
    let own = b32(HRP, &shapes[*shape]);
    let first = ch.user("owner0");
    call(&mut ch, &first, &o.addr, nominate(o.code, &own))?;
    for x in near_accounts(&own) {
        let mut c2 = ch.clone();
        ensure!(!c2.exec(&x, &o.addr, &claim(o.code), &[]).ok(), "{} claimed by {x} instead of {own}", o.label);
        ensure_eq!(c2.key(), ch.key(), "state");
        cov.hit("others refused");
    }
    call(&mut ch, &own, &o.addr, claim(o.code))?;
    if *what == 1 {
        for x in near_accounts(&own) {
            for p in &o.ops {
                let mut c2 = ch.clone();
                ensure!(!c2.exec(&x, &o.addr, &p.msg, &[]).ok(), "{} {} by {x} instead of {own}", o.label, p.name);
                ensure_eq!(c2.key(), ch.key(), "state");
            }
            for m in [nominate(o.code, &x), nominate(o.code, &own), revoke(o.code), claim(o.code)] {
                let mut c2 = ch.clone();
                ensure!(!c2.exec(&x, &o.addr, &m, &[]).ok(), "{} {m} by {x} instead of {own}", o.label);
                ensure_eq!(c2.key(), ch.key(), "state");
            }
        }
        for p in &o.ops {
            let mut c2 = ch.clone();
            let t = c2.exec(&own, &o.addr, &p.msg, &[]);
            ensure!(t.ok(), "{} {} by the owner {own}: {}", o.label, p.name, t.err());
        }
        cov.hit("owner served");
        return Ok(ch.key());
    }
    let q = |ch: &Chain, k: &str, f: &str| -> Res<Value> { Ok(ch.query(&o.addr, &json!({"ownable": {k: {}}}))?[f].clone()) };
    for x in near_accounts(&own) {
        let mut c2 = ch.clone();
        call(&mut c2, &own, &o.addr, nominate(o.code, &x))?;
        ensure_eq!(q(&c2, "get_owner", "owner")?, json!(own), "owner of {} while {x} is nominated", o.label);
        ensure_eq!(q(&c2, "get_pending_owner", "pending_owner")?, json!(x), "nominee of {}", o.label);
        let mid = c2.key();
        for m in [nominate(o.code, &x), revoke(o.code)] {
            ensure!(!c2.exec(&x, &o.addr, &m, &[]).ok(), "{m} by the nominee {x}");
        }
        ensure!(!c2.exec(&own, &o.addr, &claim(o.code), &[]).ok(), "{own} claims for the nominee {x}");
        ensure_eq!(c2.key(), mid, "state");
        let mut c3 = c2.clone();
        call(&mut c3, &own, &o.addr, revoke(o.code))?;
        ensure_eq!(c3.key(), ch.key(), "state after a revocation");
        call(&mut c2, &x, &o.addr, claim(o.code))?;
        ensure_eq!(q(&c2, "get_owner", "owner")?, json!(x), "owner of {} after the handover from {own}", o.label);
        ensure_eq!(q(&c2, "get_pending_owner", "pending_owner")?, Value::Null, "nominee of {}", o.label);
        for m in [nominate(o.code, &own), claim(o.code), revoke(o.code)] {
            ensure!(!c2.exec(&own, &o.addr, &m, &[]).ok(), "{m} by the former owner {own}, now {x}");
        }
        if let Some(p) = o.ops.first() {
            let mut c3 = c2.clone();
            ensure!(!c3.exec(&own, &o.addr, &p.msg, &[]).ok(), "{} by the former owner {own}, now {x}", p.name);
            let t = c2.exec(&x, &o.addr, &p.msg, &[]);
            ensure!(t.ok(), "{} by the owner {x}: {}", p.name, t.err());
        }
        cov.hit("handed over");
    }
    Ok(ch.key() ^ 1)
}
/// every account the settings, the deployment or the chain mention: contract, configuring operations, what to try
#[derive(Clone, Debug)]
struct Named {
    c: usize,
    before: Vec<usize>,
    /// somebody is nominated
    pending: bool,
    /// 1: operations, 2: ownership
    what: u8,
    paid: bool,
}
fn addresses_in(v: &Value, out: &mut BTreeSet<String>) {
    match v {
        Value::String(s) => {
            if unb32(s).map_or(false, |(h, _)| h == HRP) {
                out.insert(s.clone());
            }
            let raw = s.strip_prefix("0x").unwrap_or(s);
            if raw.len() == 64 || raw.len() == 40 {
                let raw = unhx(raw);
                if raw.len() == 32 {
                    out.insert(b32(HRP, &raw));
                    out.insert(b32(HRP, &raw[12..]));
                    out.insert(b32(HRP, &raw[..20]));
                } else if raw.len() == 20 {
                    out.insert(b32(HRP, &raw));
                    out.insert(b32(HRP, &pad32(&raw)));
                }
            }
        }
        Value::Array(l) => l.iter().for_each(|x| addresses_in(x, out)),
        Value::Object(m) => m.values().for_each(|x| addresses_in(x, out)),
        _ => {}
    }
}
fn named_case(sys: &System, k: &Named, cov: &mut Cov) -> Res<u128> {
    let o = &sys.owned[k.c];
    let mut ch = sys.ch.clone();
    let own = ch.user("owner0");
    for i in &k.before {
        let t = ch.exec(&own, &o.addr, &o.ops[*i].msg, &[]);
        ensure!(t.ok() || !o.ops[*i].again, "{} {} by the owner: {}", o.label, o.ops[*i].name, t.err());
    }
    let mut who: BTreeSet<String> = ch.contracts.keys().map(|a| a.to_string()).collect();
    for u in ["deployer", "beneficiary", "alice", "owner1", "owner2", "nobody"] {
        who.insert(ch.user(u));
    }
    for x in [fill32("r9"), fill32("r1"), fill32("r2")] {
        addresses_in(&json!(hx(&x)), &mut who);
    }
    for p in &o.ops {
        addresses_in(&p.msg, &mut who);
    }
    // the chain's own accounts
    who.insert(b32(HRP, &[0; 20]));
    who.insert(b32(HRP, &[0; 32]));
    who.insert(b32(HRP, &[0xff; 20]));
    who.remove(&own);
    let next = ch.user("owner1");
    if k.pending {
        call(&mut ch, &own, &o.addr, nominate(o.code, &next))?;
    }
    let mut msgs: Vec<Value> = vec![];
    if k.what == 1 {
        msgs.extend(o.ops.iter().map(|p| p.msg.clone()));
    } else {
        msgs.extend([nominate(o.code, &next), nominate(o.code, &own), revoke(o.code), claim(o.code)]);
    }
    for x in &who {
        let mut c0 = ch.clone();
        if k.paid {
            c0.fund(x, "fee", 10);
        }
        let f: &[(&str, u128)] = if k.paid { &[("fee", 3)] } else { &[] };
        let was = c0.key();
        for m in &msgs {
            if k.pending && *x == next && *m == claim(o.code) {
                continue;
            }
            let mut c2 = c0.clone();
            let t = c2.exec(x, &o.addr, m, f);
            ensure!(!t.ok(), "{} accepted {m} from {x}, whose owner is {own}", o.label);
            ensure_eq!(c2.key(), was, "state of the {} after {m} from {x}", o.label);
        }
        cov.hit("refused");
    }
    Ok(ch.key() ^ k.what as u128)
}
fn named_accounts(c: &mut Ctx, what: u8) {
    let sys = c.setup(system);
    let mut v = vec![];
    for (i, o) in sys.owned.iter().enumerate() {
        let n = o.ops.len();
        for before in seqs(n, if what == 1 { c.pick(2, 3) } else { c.pick(1, 2) }) {
            for pending in [false, true] {
                for paid in [false, true] {
                    if before.len() > 1 && (pending || paid) {
                        continue;
                    }
                    v.push(Named { c: i, before: before.clone(), pending, what, paid });
                }
            }
        }
    }
    c.cases("accounts named in the settings", system, v, &["refused"], named_case);
}
fn near_owners(c: &mut Ctx, what: u8) {
    let n = c.setup(system).owned.len();
    let mut v = vec![];
    for i in 0..n {
        for s in 0..4 {
            v.push((i, s, what));
        }
    }
    let must: &[&'static str] = if what == 1 { &["others refused", "owner served"] } else { &["others refused", "handed over"] };
    c.cases("accounts close to the owner's", system, v, must, near_case);
}

pub fn a01(c: &mut Ctx) {
    let sys = c.setup(system);
    c.assume("operations are applied with valid arguments to a configured contract; chain-level administration (contract admin) is not modelled");
    for i in 0..sys.owned.len() {
        let depth = c.pick(4, 6);
        let ops = c.pick(2, 2);
        c.run(
            &format!("operations of the {}", sys.owned[i].label),
            &MO::new(&sys, i, ops, true, 0),
            depth,
            5_000_000,
        );
    }
    near_owners(c, 1);
    named_accounts(c, 1);
}
pub fn a02(c: &mut Ctx) {
    let sys = c.setup(system);
    c.assume("a second nomination while one is pending is refused");
    for i in 0..sys.owned.len() {
        let depth = c.pick(6, 10);
        c.run(
            &format!("ownership of the {}", sys.owned[i].label),
            &MO::new(&sys, i, 0, false, 0),
            depth,
            5_000_000,
        );
        let depth = c.pick(4, 6);
        c.run(
            &format!("ownership of the {} in use", sys.owned[i].label),
            &MO::new(&sys, i, 2, false, 0),
            depth,
            5_000_000,
        );
        let past = c.pick(41, 401);
        c.run(
            &format!("ownership of the {} after many handovers", sys.owned[i].label),
            &MO::new(&sys, i, 0, false, past),
            3,
            5_000_000,
        );
    }
    near_owners(c, 2);
    named_accounts(c, 2);
}

// ------------------------------------------------------------------ A03

#[derive(Clone)]
struct Tables {
    ch: Chain,
    owner: String,
    t: Arc<Vec<Table>>,
}
#[derive(Clone, Debug)]
struct Table {
    label: &'static str,
    addr: String,
    vals: Vec<Value>,
    kind: TKind,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum TKind {
    Router,
    Gas,
    /// custom hooks of one destination; the table's domains are used as recipients
    Custom,
    /// the routing module: no listing
    Ism,
    /// the multisig module's validator sets
    Multisig,
    Oracle,
}
fn tables() -> Res<Tables> {
    let mut ch = Chain::new(HRP);
    let own = ch.user("owner");
    let dep = ch.user("deployer");
    let mb = mailbox(&mut ch, &own, LOCAL)?;
    let hooks: Vec<Value> = (0..3).map(|_| json!(quiet_hook(&mut ch))).collect();
    let isms: Vec<Value> = (0..3)
        .map(|_| json!(probe(&mut ch, |p| p.verify = "accept".into())))
        .collect();
    let hex: Vec<Value> = ["a", "b", "c"].iter().map(|t| json!(hx(&fill32(t)))).collect();
    let mut t = vec![];
    for (code, label) in [
        ("hook_routing", "routing hook"),
        ("hook_routing_custom", "custom routing hook"),
        ("hook_routing_fallback", "fallback routing hook"),
    ] {
        let a = inst(&mut ch, code, &dep, json!({ "owner": own }))?;
        t.push(Table {
            label,
            addr: a.clone(),
            vals: hooks.clone(),
            kind: TKind::Router,
        });
        if code == "hook_routing_custom" {
            t.push(Table {
                label: "custom hooks",
                addr: a,
                vals: hooks.clone(),
                kind: TKind::Custom,
            });
        }
    }
    let a = inst(
        &mut ch,
        "igp",
        &dep,
        json!({"hrp": HRP, "owner": own, "gas_token": "fee", "beneficiary": own, "default_gas_usage": "1"}),
    )?;
    t.push(Table {
        label: "gas oracles of the paymaster",
        addr: a.clone(),
        vals: hooks.clone(),
        kind: TKind::Router,
    });
    t.push(Table {
        label: "gas overrides",
        addr: a,
        vals: vec![json!("1"), json!("250000"), json!("340282366920938463463374607431768211455")],
        kind: TKind::Gas,
    });
    for (k, label) in [(0, "native route"), (3, "cw20 route")] {
        let r = deploy(&mut ch, &own, KINDS[k], &mb, &[])?;
        t.push(Table {
            label,
            addr: r.addr,
            vals: hex.clone(),
            kind: TKind::Router,
        });
    }
    let a = inst(&mut ch, "ism_routing", &dep, json!({"owner": own, "isms": []}))?;
    t.push(Table {
        label: "routing module",
        addr: a,
        vals: isms,
        kind: TKind::Ism,
    });
    let a = inst(&mut ch, "ism_multisig", &dep, json!({"owner": own}))?;
    let v = |t: &str| hx(&fill(t, 20));
    t.push(Table {
        label: "validator sets",
        addr: a,
        vals: vec![
            json!({"threshold": 1, "validators": [v("a")]}),
            json!({"threshold": 2, "validators": [v("b"), v("c")]}),
            json!({"threshold": 2, "validators": [v("a"), v("b"), v("c")]}),
        ],
        kind: TKind::Multisig,
    });
    let a = inst(&mut ch, "igp_oracle", &dep, json!({"owner": own}))?;
    t.push(Table {
        label: "gas oracle data",
        addr: a,
        vals: vec![
            json!({"exchange_rate": "1", "gas_price": "5"}),
            json!({"exchange_rate": "5", "gas_price": "1"}),
            json!({"exchange_rate": "340282366920938463463374607431768211455", "gas_price": "0"}),
        ],
        kind: TKind::Oracle,
    });
    Ok(Tables {
        ch,
        owner: own,
        t: Arc::new(t),
    })
}
/// a recipient whose order is that of the number
fn rec_of(d: u32) -> String {
    let mut v = d.to_be_bytes().to_vec();
    v.extend(&fill32("rest")[4..]);
    hx(&v)
}
const CUSTOM_DOM: u32 = 77;
impl Table {
    /// message that applies the entries in order; None where there is no such operation
    fn set(&self, l: &[(u32, Option<usize>)], batch: bool) -> Option<Value> {
        let val = |v: &Option<usize>| v.map(|i| self.vals[i].clone());
        let sets = l.iter().all(|x| x.1.is_some());
        let clears = l.iter().all(|x| x.1.is_none());
        Some(match self.kind {
            TKind::Router => {
                if batch {
                    let s: Vec<Value> = l
                        .iter()
                        .map(|(d, v)| json!({"domain": d, "route": val(v)}))
                        .collect();
                    json!({"router": {"set_routes": {"set": s}}})
                } else {
                    json!({"router": {"set_route": {"set": {"domain": l[0].0, "route": val(&l[0].1)}}}})
                }
            }
            TKind::Gas => {
                if sets {
                    let s: Vec<Value> = l.iter().map(|(d, v)| json!([d, val(v)])).collect();
                    json!({"set_gas_for_domain": {"config": s}})
                } else if clears {
                    let s: Vec<u32> = l.iter().map(|x| x.0).collect();
                    json!({"unset_gas_for_domain": {"domains": s}})
                } else {
                    return None;
                }
            }
            TKind::Custom => {
                if sets {
                    let s: Vec<Value> = l
                        .iter()
                        .map(|(d, v)| json!({"dest_domain": CUSTOM_DOM, "recipient": rec_of(*d), "hook": val(v)}))
                        .collect();
                    if batch {
                        json!({ "register_custom_hooks": s })
                    } else {
                        json!({"register_custom_hook": s[0]})
                    }
                } else if clears {
                    let s: Vec<Value> = l
                        .iter()
                        .map(|(d, _)| json!({"dest_domain": CUSTOM_DOM, "recipient": rec_of(*d)}))
                        .collect();
                    if batch {
                        json!({ "clear_custom_hooks": s })
                    } else {
                        json!({"clear_custom_hook": s[0]})
                    }
                } else {
                    return None;
                }
            }
            TKind::Ism => {
                if clears {
                    let s: Vec<u32> = l.iter().map(|x| x.0).collect();
                    json!({"unset": {"domains": s}})
                } else if !batch {
                    json!({"set": {"ism": {"domain": l[0].0, "address": val(&l[0].1)}}})
                } else {
                    return None;
                }
            }
            TKind::Multisig => {
                if batch {
                    return None;
                }
                match &l[0].1 {
                    Some(i) => {
                        json!({"set_validators": {"domain": l[0].0, "threshold": self.vals[*i]["threshold"],
                            "validators": self.vals[*i]["validators"]}})
                    }
                    None => json!({"unset_domain": {"domain": l[0].0}}),
                }
            }
            TKind::Oracle => {
                let cfg = |d: u32, i: usize| {
                    json!({"remote_domain": d, "token_exchange_rate": self.vals[i]["exchange_rate"],
                        "gas_price": self.vals[i]["gas_price"]})
                };
                if !sets {
                    return None;
                }
                if batch {
                    let s: Vec<Value> = l.iter().map(|(d, v)| cfg(*d, v.unwrap())).collect();
                    json!({"set_remote_gas_data_configs": {"configs": s}})
                } else {
                    json!({"set_remote_gas_data": {"config": cfg(l[0].0, l[0].1.unwrap())}})
                }
            }
        })
    }
    /// the value the contract reports for a domain
    fn get(&self, ch: &Chain, d: u32) -> Res<Option<Value>> {
        let e = |e: String| format!("{}: query of {d:#x}: {e}", self.label);
        Ok(match self.kind {
            TKind::Router => {
                let v = ch
                    .query(&self.addr, &json!({"router": {"get_route": {"domain": d}}}))
                    .map_err(e)?;
                ensure_eq!(v["route"]["domain"], json!(d), "domain in the answer");
                Some(v["route"]["route"].clone()).filter(|v| !v.is_null())
            }
            // no answer where nothing is set
            TKind::Gas => ch
                .query(&self.addr, &json!({"igp": {"gas_for_domain": {"domains": [d]}}}))
                .ok()
                .and_then(|v| v["gas"][0][1].as_str().map(|s| json!(s))),
            TKind::Custom => ch
                .query(
                    &self.addr,
                    &json!({"custom_routing_hook": {"custom_hook": {"dest_domain": CUSTOM_DOM, "recipient": rec_of(d)}}}),
                )
                .ok()
                .map(|v| v["hook"].clone()),
            TKind::Ism => {
                let m = Msg {
                    version: 3,
                    nonce: 0,
                    origin: d,
                    sender: [1; 32],
                    dest: LOCAL,
                    recipient: [2; 32],
                    body: vec![],
                };
                ch.query(&self.addr, &json!({"routing_ism": {"route": {"message": hx(&m.enc())}}}))
                    .ok()
                    .map(|v| v["ism"].clone())
            }
            TKind::Multisig => ch
                .query(&self.addr, &json!({"multisig_ism": {"enrolled_validators": {"domain": d}}}))
                .ok()
                .map(|v| json!({"threshold": v["threshold"], "validators": v["validators"]}))
                .filter(|v| v["validators"] != json!([])),
            TKind::Oracle => ch
                .query(
                    &self.addr,
                    &json!({"oracle": {"get_exchange_rate_and_gas_price": {"dest_domain": d}}}),
                )
                .ok()
                .map(|v| json!({"exchange_rate": v["exchange_rate"], "gas_price": v["gas_price"]})),
        })
    }
    fn listed(&self) -> bool {
        matches!(self.kind, TKind::Router | TKind::Gas | TKind::Custom)
    }
    /// one page: (domain or recipient prefix, value)
    fn list(
        &self,
        ch: &Chain,
        offset: Option<u32>,
        limit: Option<u32>,
        order: Option<&str>,
    ) -> Result<Vec<(u32, Option<Value>)>, String> {
        let a = json!({"offset": offset, "limit": limit, "order": order});
        let num = |v: &Value| v.as_u64().unwrap_or(u64::MAX) as u32;
        match self.kind {
            TKind::Router => {
                let v = ch.query(&self.addr, &json!({"router": {"list_routes": a}}))?;
                Ok(v["routes"]
                    .as_array()
                    .ok_or("no routes")?
                    .iter()
                    .map(|x| (num(&x["domain"]), Some(x["route"].clone()).filter(|v| !v.is_null())))
                    .collect())
            }
            TKind::Gas => {
                let v = ch.query(&self.addr, &json!({"igp": {"list_gas_for_domains": a}}))?;
                Ok(v["gas"]
                    .as_array()
                    .ok_or("no gas")?
                    .iter()
                    .map(|x| (num(&x[0]), Some(x[1].clone())))
                    .collect())
            }
            TKind::Custom => {
                let a = json!({"dest_domain": CUSTOM_DOM, "offset": offset.map(rec_of), "limit": limit, "order": order});
                let v = ch.query(&self.addr, &json!({"custom_routing_hook": {"custom_hooks": a}}))?;
                v["custom_hooks"]
                    .as_array()
                    .ok_or("no custom hooks")?
                    .iter()
                    .map(|x| {
                        let r = str_of(x, "recipient");
                        let b = hex::decode(&r).map_err(|e| e.to_string())?;
                        if b.len() != 32 || x["dest_domain"] != json!(CUSTOM_DOM) {
                            return Err(format!("strange entry {x}"));
                        }
                        let d = u32::from_be_bytes(b[..4].try_into().unwrap());
                        if rec_of(d) != r {
                            return Err(format!("strange recipient {r}"));
                        }
                        Ok((d, Some(x["hook"].clone())))
                    })
                    .collect()
            }
            _ => Ok(vec![]),
        }
    }
    /// the domains of a router; cleared ones may be among them
    fn check_domains(&self, ch: &Chain, m: &BTreeMap<u32, Option<usize>>) -> Res<()> {
        if self.kind != TKind::Router {
            return Ok(());
        }
        let v = ch
            .query(&self.addr, &json!({"router": {"domains": {}}}))
            .map_err(|e| format!("domains: {e}"))?;
        let l: Vec<u32> = v["domains"]
            .as_array()
            .ok_or("no domains")?
            .iter()
            .map(|x| x.as_u64().unwrap() as u32)
            .collect();
        let set: BTreeSet<u32> = l.iter().cloned().collect();
        ensure_eq!(set.len(), l.len(), "{}: domain listed twice", self.label);
        for d in &set {
            ensure!(m.contains_key(d), "{}: unknown domain {d:#x}", self.label);
        }
        for (d, v) in m {
            ensure!(v.is_none() || set.contains(d), "{}: domain {d:#x} missing", self.label);
        }
        Ok(())
    }
    /// page after page of the whole table; cleared entries may be shown without a value
    fn check_walk(&self, ch: &Chain, m: &BTreeMap<u32, Option<usize>>, size: Option<u32>) -> Res<()> {
        if !self.listed() {
            return Ok(());
        }
        for order in [None, Some("desc")] {
            let mut got = vec![];
            let mut off = None;
            loop {
                let p = self.list(ch, off, size, order)?;
                let Some(l) = p.last() else { break };
                off = Some(l.0);
                got.extend(p);
                ensure!(got.len() <= m.len(), "{}: the pages {order:?} do not end", self.label);
            }
            for (d, v) in &got {
                ensure!(v.is_some() || matches!(m.get(d), Some(None)), "{}: {d:#x} without value", self.label);
            }
            got.retain(|x| x.1.is_some());
            let mut want: Vec<_> = m
                .iter()
                .filter_map(|(d, v)| v.map(|i| (*d, Some(self.vals[i].clone()))))
                .collect();
            if order.is_some() {
                want.reverse();
            }
            ensure_eq!(got, want, "{}: pages {order:?} of {size:?}", self.label);
        }
        Ok(())
    }
}
#[derive(Clone)]
struct S3 {
    ch: Chain,
    /// current values; None: cleared
    m: BTreeMap<u32, Option<usize>>,
}
#[derive(Clone, Debug)]
struct A3 {
    l: Vec<(u32, Option<usize>)>,
    batch: bool,
    /// a batch that must be refused as a whole
    bad: bool,
}
struct M3 {
    t: Tables,
    i: usize,
    doms: Vec<u32>,
    wide: bool,
}
impl Model for M3 {
    type S = S3;
    type A = A3;
    fn init(&self) -> Res<Vec<(String, S3)>> {
        Ok(vec![(
            "empty".into(),
            S3 {
                ch: tables()?.ch,
                m: BTreeMap::new(),
            },
        )])
    }
    fn actions(&self, s: &S3) -> Vec<A3> {
        let mut v = vec![];
        let mut push = |l: Vec<(u32, Option<usize>)>, batch| {
            v.push(A3 {
                l,
                batch,
                bad: false,
            })
        };
        let n = self.doms.len();
        let cur = |d: &u32| s.m.get(d).cloned().flatten();
        for (i, d) in self.doms.iter().enumerate() {
            let e = self.doms[(i + 1) % n];
            for x in [Some(0), Some(1)] {
                push(vec![(*d, x)], false);
                push(vec![(*d, x)], true);
                push(vec![(*d, x), (e, Some(2))], true);
                // the last entry counts
                push(vec![(*d, Some(2)), (*d, x)], true);
                if self.wide {
                    push(vec![(*d, x), (*d, None)], true);
                    push(vec![(*d, None), (*d, x)], true);
                    push(vec![(*d, None), (*d, x), (*d, None)], true);
                    push(vec![(e, x), (*d, None), (*d, x), (e, None)], true);
                    push(vec![(*d, x), (e, x), (*d, None)], true);
                }
            }
            // clearing something that is not there is nobody's concern
            if cur(d).is_some() || self.t.t[self.i].kind == TKind::Router {
                push(vec![(*d, None)], false);
                push(vec![(*d, None)], true);
                if cur(&e).is_some() || self.t.t[self.i].kind == TKind::Router {
                    push(vec![(*d, None), (e, None)], true);
                    push(vec![(e, None), (*d, None)], true);
                }
            }
        }
        let t = &self.t.t[self.i];
        v.retain(|a| t.set(&a.l, a.batch).is_some());
        if let Some(d) = self.doms.first() {
            v.push(A3 {
                l: vec![(*d, Some(1)), (self.doms[1], Some(1))],
                batch: true,
                bad: true,
            });
            v.retain(|a| t.set(&a.l, a.batch).is_some());
        }
        v
    }
    fn key(&self, s: &S3) -> u128 {
        s.ch.key() ^ dig(&s.m)
    }
    fn step(&self, s: &S3, a: &A3, cov: &mut Cov) -> Res<Step<S3>> {
        let t = &self.t.t[self.i];
        let mut n = s.clone();
        let mut m = t.set(&a.l, a.batch).unwrap();
        if a.bad {
            // break the last entry
            let ok = match t.kind {
                TKind::Custom => {
                    m["register_custom_hooks"][1]["recipient"] = json!("00ff");
                    true
                }
                TKind::Oracle => {
                    m["set_remote_gas_data_configs"]["configs"][1]["token_exchange_rate"] = json!("0");
                    true
                }
                _ => false,
            };
            let who = if ok { self.t.owner.clone() } else { s.ch.user("stranger") };
            let r = n.ch.exec(&who, &t.addr, &m, &[]);
            ensure!(!r.ok(), "{}: bad batch accepted", t.label);
            ensure_eq!(n.ch.key(), s.ch.key(), "state after a refused batch");
            cov.hit("refused");
            return Ok(Step::Same);
        }
        call(&mut n.ch, &self.t.owner, &t.addr, m)?;
        for (d, v) in &a.l {
            n.m.insert(*d, *v);
        }
        cov.hit(if a.l.iter().any(|x| x.1.is_none()) { "cleared" } else { "set" });
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S3, cov: &mut Cov) -> Res<()> {
        let t = &self.t.t[self.i];
        let mut all: BTreeSet<u32> = self.doms.iter().cloned().collect();
        for d in &self.doms {
            all.extend([d.wrapping_add(1), d.wrapping_sub(1), d.swap_bytes(), d << 8, d >> 8, d ^ 0x8000_0000]);
        }
        for d in &all {
            let want = s.m.get(d).cloned().flatten().map(|i| t.vals[i].clone());
            let got = t.get(&s.ch, *d)?;
            ensure_eq!(got, want, "{}: value of {d:#x}", t.label);
        }
        // no other table changes
        for (j, o) in self.t.t.iter().enumerate() {
            if j != self.i && o.addr == t.addr {
                for d in &self.doms {
                    ensure_eq!(o.get(&s.ch, *d)?, None, "{}: value of {d:#x}", o.label);
                }
            }
        }
        if !t.listed() {
            return Ok(());
        }
        // the listing is the table; cleared entries may be shown without a value
        for order in [None, Some("asc"), Some("desc")] {
            let got = t.list(&s.ch, None, Some(30), order)?;
            for w in got.windows(2) {
                ensure!(
                    (w[0].0 < w[1].0) == (order != Some("desc")) && w[0].0 != w[1].0,
                    "{}: listing {order:?} not in order: {got:?}",
                    t.label
                );
            }
            for (d, v) in &got {
                match s.m.get(d) {
                    None => return Err(format!("{}: {d:#x} listed but never set", t.label)),
                    Some(x) => {
                        ensure_eq!(*v, x.map(|i| t.vals[i].clone()), "{}: listed value of {d:#x}", t.label)
                    }
                }
            }
            for (d, v) in &s.m {
                if v.is_some() {
                    ensure!(got.iter().any(|x| x.0 == *d), "{}: {d:#x} missing in the listing", t.label);
                }
            }
            // page by page, of every size, gives the same
            for size in 1..=3u32 {
                let mut off = None;
                let mut acc = vec![];
                loop {
                    let p = t.list(&s.ch, off, Some(size), order)?;
                    ensure!(p.len() <= size as usize, "page too long");
                    if p.is_empty() || acc.len() > 40 {
                        break;
                    }
                    off = Some(p.last().unwrap().0);
                    acc.extend(p);
                }
                ensure_eq!(acc, got, "{}: pages of {size} {order:?}", t.label);
            }
        }
        t.check_domains(&s.ch, &s.m)?;
        cov.hit("listed");
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        let t = &self.t.t[self.i];
        let mut v = vec!["set"];
        if t.kind != TKind::Oracle {
            v.push("cleared");
        }
        if t.listed() {
            v.push("listed");
        }
        v
    }
}

/// n domains spread over the whole range, close together and far apart
fn spread(n: usize) -> Vec<u32> {
    let mut v: Vec<u32> = vec![
        0,
        1,
        255,
        256,
        257,
        0xffff,
        0x1_0000,
        0x1_0001,
        0xff_ffff,
        0x100_0000,
        0x7fff_ffff,
        0x8000_0000,
        0x8000_0001,
        0xffff_fffe,
        0xffff_ffff,
    ];
    let mut k = 3u32;
    while v.len() < n {
        k = k.wrapping_mul(0x9E37_79B1).wrapping_add(7);
        if !v.contains(&k) {
            v.push(k);
        }
    }
    // not in order
    let mut out = vec![];
    for i in 0..n {
        out.push(v[(i * 13 + 5) % v.len().max(1)]);
    }
    let mut seen = BTreeSet::new();
    out.retain(|d| seen.insert(*d));
    for d in v {
        if out.len() < n && seen.insert(d) {
            out.push(d);
        }
    }
    out
}

pub fn a03(c: &mut Ctx) {
    let ts = c.setup(tables);
    c.assume("cleared domains may still be named by the domain listing, without a value; clearing an absent entry of the other tables is not judged");
    for i in 0..ts.t.len() {
        let d = c.pick(3, 4);
        c.run(
            &format!("updates of the {}", ts.t[i].label),
            &M3 {
                t: ts.clone(),
                i,
                doms: vec![0x0a0b, 0, u32::MAX, 0x0b0a_0000],
                wide: true,
            },
            d,
            5_000_000,
        );
    }
    // pages of big tables
    #[derive(Clone, Debug)]
    struct P {
        t: usize,
        n: usize,
        limit: Option<u32>,
        order: Option<&'static str>,
    }
    let mut v = vec![];
    let sizes: Vec<usize> = c.pick(vec![0, 1, 2, 9, 10, 11, 29, 30, 31, 35, 61], (0..=65).collect());
    for (t, tb) in ts.t.iter().enumerate() {
        if !tb.listed() {
            continue;
        }
        for n in &sizes {
            for limit in [
                None,
                Some(0),
                Some(1),
                Some(2),
                Some(9),
                Some(10),
                Some(11),
                Some(29),
                Some(30),
                Some(31),
                Some(32),
                Some(40),
                Some(256 + 5),
                Some(1 << 16),
                Some(u32::MAX),
            ] {
                for order in [None, Some("asc"), Some("desc")] {
                    v.push(P {
                        t,
                        n: *n,
                        limit,
                        order,
                    });
                }
            }
        }
    }
    let sz = sizes.clone();
    c.cases(
        "pages",
        move || {
            let base = tables()?;
            // (table, size) -> chain with that many entries
            let mut m = BTreeMap::new();
            for t in 0..base.t.len() {
                if !base.t[t].listed() {
                    continue;
                }
                let mut ch = base.ch.clone();
                // entries of another destination do not show up
                if base.t[t].kind == TKind::Custom {
                    for d in [CUSTOM_DOM - 1, CUSTOM_DOM + 1, CUSTOM_DOM << 8] {
                        call(
                            &mut ch,
                            &base.owner,
                            &base.t[t].addr,
                            json!({"register_custom_hook": {"dest_domain": d, "recipient": rec_of(3), "hook": base.t[t].vals[0]}}),
                        )?;
                    }
                }
                let all = spread(66);
                let mut k = 0;
                for n in 0..=65usize {
                    while k < n {
                        let x = [(all[k], Some(k % 3))];
                        call(&mut ch, &base.owner, &base.t[t].addr, base.t[t].set(&x, k % 2 == 0).unwrap())?;
                        k += 1;
                    }
                    if sz.contains(&n) {
                        m.insert((t, n), ch.clone());
                    }
                }
            }
            Ok((base, m))
        },
        v,
        &["page", "refused", "empty page"],
        |(base, m): &(Tables, BTreeMap<(usize, usize), Chain>), p, cov| {
            let t = &base.t[p.t];
            let ch = &m[&(p.t, p.n)];
            let mut all: Vec<(u32, Option<Value>)> = spread(66)[..p.n]
                .iter()
                .enumerate()
                .map(|(k, d)| (*d, Some(t.vals[k % 3].clone())))
                .collect();
            all.sort_by_key(|x| x.0);
            if p.order == Some("desc") {
                all.reverse();
            }
            let mut offs: Vec<Option<u32>> = vec![None, Some(0), Some(u32::MAX), Some(5), Some(0x8000_0002)];
            offs.extend(all.iter().map(|x| Some(x.0)));
            for off in offs {
                let got = t.list(ch, off, p.limit, p.order);
                let lim = p.limit.unwrap_or(10);
                if lim > 30 {
                    ensure!(got.is_err(), "{}: {lim} entries allowed", t.label);
                    cov.hit("refused");
                    continue;
                }
                let got = got?;
                let want: Vec<_> = all
                    .iter()
                    .filter(|x| match (off, p.order) {
                        (None, _) => true,
                        (Some(o), Some("desc")) => x.0 < o,
                        (Some(o), _) => x.0 > o,
                    })
                    .take(lim as usize)
                    .cloned()
                    .collect();
                cov.hit(if want.is_empty() { "empty page" } else { "page" });
                ensure_eq!(got, want, "{}: page after {off:?}", t.label);
            }
            Ok(dig(&(p.t, p.n, p.limit, p.order)))
        },
    );
    // a listing shows the entries of its destination and no other
    let i = ts.t.iter().position(|t| t.kind == TKind::Custom).unwrap();
    let doms: Vec<u32> = {
        let mut v = domains(0x0102_0304);
        v.extend((0..32).map(|b| CUSTOM_DOM ^ (1 << b)));
        v.push(CUSTOM_DOM);
        v.sort();
        v.dedup();
        v
    };
    let recs: Vec<[u8; 32]> = {
        let mut v = vec![[0; 32], [0xff; 32], fill32("a"), fill32("b"), pad32(&fill("short", 20))];
        let mut x = [0; 32];
        x[31] = 1;
        v.push(x);
        x = [0; 32];
        x[0] = 1;
        v.push(x);
        let mut y = fill32("a");
        y[31] ^= 1;
        v.push(y);
        v
    };
    let cases: Vec<(usize, Option<usize>, Option<&'static str>)> = (0..=doms.len())
        .flat_map(|skip| {
            (0..3).flat_map(move |pat| {
                [None, Some("asc"), Some("desc")]
                    .into_iter()
                    .map(move |o| (pat, Some(skip).filter(|_| skip > 0).map(|s| s - 1), o))
            })
        })
        .collect();
    let (ds, rs) = (doms.clone(), recs.clone());
    c.cases(
        "custom hooks of every destination",
        move || {
            let base = tables()?;
            let t = base.t[i].clone();
            let mut out = vec![];
            // which recipients have a hook, by destination
            for pat in 0..3usize {
                let mut ch = base.ch.clone();
                let mut l = vec![];
                for (k, d) in ds.iter().enumerate() {
                    for (j, r) in rs.iter().enumerate() {
                        let set = match pat {
                            0 => true,
                            1 => (k + j) % 2 == 0,
                            _ => j % ds.len() == k % rs.len(),
                        };
                        if set {
                            l.push(json!({"dest_domain": d, "recipient": hx(r), "hook": t.vals[(k * 5 + j) % t.vals.len()]}));
                        }
                    }
                }
                if pat == 1 {
                    l.reverse();
                }
                call(&mut ch, &base.owner, &t.addr, json!({ "register_custom_hooks": l }))?;
                out.push((ch, l));
            }
            Ok((base, out))
        },
        cases,
        &["listed", "empty", "cleared"],
        move |(base, ws), (pat, clear, order), cov| {
            let t = &base.t[i];
            let (c0, l) = &ws[*pat];
            let mut ch = c0.clone();
            let mut l = l.clone();
            l.sort_by_key(|x| (x["dest_domain"].as_u64(), str_of(x, "recipient")));
            if *order == Some("desc") {
                l.reverse();
            }
            if let Some(k) = clear {
                // everything of one destination is cleared
                let gone: Vec<Value> = l
                    .iter()
                    .filter(|x| x["dest_domain"] == json!(doms[*k]))
                    .map(|x| json!({"dest_domain": x["dest_domain"], "recipient": x["recipient"]}))
                    .collect();
                if !gone.is_empty() {
                    call(&mut ch, &base.owner, &t.addr, json!({ "clear_custom_hooks": gone }))?;
                    cov.hit("cleared");
                }
                l.retain(|x| x["dest_domain"] != json!(doms[*k]));
            }
            for d in &doms {
                let want: Vec<Value> = l.iter().filter(|x| x["dest_domain"] == json!(d)).cloned().collect();
                let v = ch.query(
                    &t.addr,
                    &json!({"custom_routing_hook": {"custom_hooks": {"dest_domain": d, "limit": 30, "order": order}}}),
                )?;
                ensure_eq!(v["custom_hooks"], json!(want), "custom hooks of {d:#x}");
                cov.hit(if want.is_empty() { "empty" } else { "listed" });
                // continued after any of the recipients, known or not
                for r in &recs {
                    let h = hx(r);
                    let w: Vec<&Value> = want
                        .iter()
                        .filter(|x| {
                            let s = str_of(x, "recipient");
                            if *order == Some("desc") {
                                s < h
                            } else {
                                s > h
                            }
                        })
                        .take(2)
                        .collect();
                    let v = ch.query(
                        &t.addr,
                        &json!({"custom_routing_hook": {"custom_hooks": {"dest_domain": d, "offset": h, "limit": 2, "order": order}}}),
                    )?;
                    ensure_eq!(v["custom_hooks"], json!(w), "custom hooks of {d:#x} after {h}");
                }
                for r in &recs {
                    let want = l
                        .iter()
                        .find(|x| x["dest_domain"] == json!(d) && str_of(x, "recipient") == hx(r))
                        .map(|x| x["hook"].clone());
                    let got = ch
                        .query(
                            &t.addr,
                            &json!({"custom_routing_hook": {"custom_hook": {"dest_domain": d, "recipient": hx(r)}}}),
                        )
                        .ok()
                        .map(|v| v["hook"].clone());
                    ensure_eq!(got, want, "custom hook of {d:#x} for {}", hx(r));
                }
            }
            Ok(ch.key())
        },
    );
    // batches of every size, applied over a table that already holds some of the entries
    let mut v = vec![];
    for t in 0..ts.t.len() {
        for n in [1usize, 2, 9, 10, 11, 16, 17, 30, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257] {
            for pre in 0..3usize {
                for shape in 0..4u8 {
                    v.push((t, n, pre, shape));
                }
            }
        }
    }
    c.cases(
        "batches of every size",
        tables,
        v,
        &["set", "cleared"],
        |base, (t, n, pre, shape), cov| {
            let t = &base.t[*t];
            let all = spread(n + 4);
            let mut ch = base.ch.clone();
            let mut m: BTreeMap<u32, Option<usize>> = BTreeMap::new();
            let apply = |ch: &mut Chain, m: &mut BTreeMap<u32, Option<usize>>, l: Vec<(u32, Option<usize>)>| -> Res<bool> {
                match t.set(&l, true) {
                    Some(x) => call(ch, &base.owner, &t.addr, x)?,
                    None => {
                        for e in &l {
                            let Some(x) = t.set(&[*e], false).or_else(|| t.set(&[*e], true)) else {
                                return Ok(false);
                            };
                            call(ch, &base.owner, &t.addr, x)?;
                        }
                        return Ok({
                            for (d, v) in l {
                                m.insert(d, v);
                            }
                            true
                        });
                    }
                };
                for (d, v) in l {
                    m.insert(d, v);
                }
                Ok(true)
            };
            // before: nothing, every second entry with the same value, every third with another
            let val = |k: usize| (k * 7) % 3;
            let before: Vec<_> = match pre {
                0 => vec![],
                1 => (0..*n).step_by(2).map(|k| (all[k], Some(val(k)))).collect(),
                _ => (0..*n).step_by(3).map(|k| (all[k], Some((val(k) + 1) % 3))).collect(),
            };
            if !before.is_empty() {
                apply(&mut ch, &mut m, before)?;
            }
            // two bystanders
            apply(&mut ch, &mut m, vec![(all[n + 1], Some(0)), (all[n + 2], Some(1))])?;
            let mut l: Vec<(u32, Option<usize>)> = (0..*n).map(|k| (all[k], Some(val(k)))).collect();
            match shape {
                0 => {}
                1 => l.reverse(),
                // one entry twice, at both ends
                2 => l.push((all[0], Some((val(0) + 1) % 3))),
                _ => l.sort(),
            }
            apply(&mut ch, &mut m, l.clone())?;
            cov.hit("set");
            let judge = |ch: &Chain, m: &BTreeMap<u32, Option<usize>>| -> Res<()> {
                for d in &all {
                    let want = m.get(d).cloned().flatten().map(|i| t.vals[i].clone());
                    ensure_eq!(t.get(ch, *d)?, want, "{}: value of {d:#x}", t.label);
                }
                t.check_domains(ch, m)?;
                for size in [None, Some(7), Some(30)] {
                    t.check_walk(ch, m, size)?;
                }
                Ok(())
            };
            judge(&ch, &m)?;
            // and cleared again, all but the bystanders (those without an entry are not cleared)
            let mut l: Vec<(u32, Option<usize>)> = (0..*n).map(|k| (all[k], None)).collect();
            match shape {
                1 => l.reverse(),
                2 => {
                    l.pop();
                }
                3 => l.sort(),
                _ => {}
            }
            if !l.is_empty() && apply(&mut ch, &mut m, l)? {
                cov.hit("cleared");
                judge(&ch, &m)?;
            }
            Ok(ch.key())
        },
    );
}

// ------------------------------------------------------------------ A04

const CODES: [&str; 17] = [
    "mailbox",
    "va",
    "hook_aggregate",
    "hook_fee",
    "hook_merkle",
    "hook_pausable",
    "hook_routing",
    "hook_routing_custom",
    "hook_routing_fallback",
    "igp",
    "igp_oracle",
    "ism_aggregate",
    "ism_multisig",
    "ism_pausable",
    "ism_routing",
    "warp_cw20",
    "warp_native",
];

#[derive(Clone, Debug, PartialEq, Eq)]
struct Ver {
    core: [u64; 3],
    pre: Vec<String>,
}
/// semantic version by the rules of semver.org; None when malformed
fn parse_ver(s: &str) -> Option<Ver> {
    let ident = |x: &str| !x.is_empty() && x.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-');
    let numeric = |x: &str| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit());
    let lead = |x: &str| numeric(x) && x.len() > 1 && x.starts_with('0');
    let (rest, build) = match s.split_once('+') {
        Some((a, b)) => (a, Some(b)),
        None => (s, None),
    };
    if let Some(b) = build {
        if !b.split('.').all(ident) {
            return None;
        }
    }
    let (core, pre) = match rest.split_once('-') {
        Some((a, b)) => (a, Some(b)),
        None => (rest, None),
    };
    let c: Vec<&str> = core.split('.').collect();
    if c.len() != 3 || !c.iter().all(|x| numeric(x) && !lead(x)) {
        return None;
    }
    let n: Vec<u64> = c.iter().map_while(|x| x.parse().ok()).collect();
    let pre: Vec<String> = pre.map(|p| p.split('.').map(String::from).collect()).unwrap_or_default();
    if !pre.iter().all(|x| ident(x) && !lead(x)) {
        return None;
    }
    Some(Ver {
        core: n.try_into().ok()?,
        pre,
    })
}
fn older(a: &Ver, b: &Ver) -> bool {
    use std::cmp::Ordering::*;
    match a.core.cmp(&b.core) {
        Less => return true,
        Greater => return false,
        Equal => {}
    }
    match (a.pre.is_empty(), b.pre.is_empty()) {
        (true, _) => return false,
        (false, true) => return true,
        _ => {}
    }
    for i in 0..a.pre.len().max(b.pre.len()) {
        let (x, y) = match (a.pre.get(i), b.pre.get(i)) {
            (None, None) => return false,
            (None, _) => return true,
            (_, None) => return false,
            (Some(x), Some(y)) => (x, y),
        };
        let num = |s: &str| s.bytes().all(|b| b.is_ascii_digit());
        let o = match (num(x), num(y)) {
            (true, true) => (x.len(), x).cmp(&(y.len(), y)),
            (true, false) => Less,
            (false, true) => Greater,
            (false, false) => x.cmp(y),
        };
        if o != Equal {
            return o == Less;
        }
    }
    false
}
const INFO: &[u8] = b"contract_info";

#[derive(Clone)]
struct S5 {
    ch: Chain,
    /// every contract: code, address, name and version of that code
    l: Arc<Vec<(&'static str, String, String, String)>>,
}
fn versions(v: &str) -> Vec<String> {
    let mut out: Vec<String> = [
        "0.0.0", "0.0.1", "0.0.2", "0.0.5", "0.0.6", "0.0.7", "0.0.8", "0.0.9", "0.0.10", "0.0.11", "0.0.60", "0.0.70",
        "0.0.100", "0.1.0", "0.1.6", "0.1.7", "0.1.8", "0.2.0", "0.10.0", "0.10.1", "1.0.0", "1.0.6", "1.0.7", "1.0.8",
        "1.10.0", "2.0.0", "7.0.0", "10.0.0", "0.7.0", "99.99.99", "0.0.6-rc.1", "0.0.7-rc.1", "0.0.7-alpha", "0.0.7-0",
        "0.0.7-alpha.1", "0.0.7-alpha.beta", "0.0.7-rc.10", "0.0.7--", "0.0.8-rc.1", "0.0.8-alpha", "0.0.10-rc.1",
        "1.0.0-alpha", "0.0.6+build", "0.0.6+build.99", "0.0.6-rc.1+build", "0.0.7+build", "0.0.7+0", "0.0.7-rc.1+zzz",
        "0.0.8+build", "0.0.18446744073709551615", "0.0.18446744073709551616", "18446744073709551615.0.0", "", " ", "0",
        "0.0", "0.0.", "0.0.6.", ".0.0.6", "0.0.6.1", "0.0.06", "00.0.6", "0.0.6-", "0.0.6+", "0.0.6-01", "0.0.6-rc..1",
        "v0.0.6", "0.0.6 ", " 0.0.6", "0.0.x", "0,0,6", "-0.0.6", "0.0.-6", "0.0.6\n", "latest", "0.0.6-rc_1", "0.0.0x6",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    // around the version of the code itself
    if let Some(c) = parse_ver(v) {
        for i in 0..3 {
            for d in [-1i64, 1, 3, 10, 100] {
                let mut x = c.core;
                let Some(y) = x[i].checked_add_signed(d) else { continue };
                x[i] = y;
                out.push(format!("{}.{}.{}", x[0], x[1], x[2]));
                out.push(format!("{}.{}.{}-rc.1", x[0], x[1], x[2]));
            }
        }
        out.push(v.to_string());
        out.push(format!("{v}-rc.1"));
        out.push(format!("{v}+1"));
    }
    out.sort();
    out.dedup();
    out
}
fn migrate_base() -> Res<S5> {
    let sys = system()?;
    let mut l = vec![];
    for code in CODES {
        let a = sys
            .owned
            .iter()
            .map(|o| (o.code, o.addr.clone()))
            .chain(sys.free.iter().cloned())
            .find(|x| x.0 == code)
            .ok_or(format!("{code} not deployed"))?
            .1;
        let raw = sys.ch.store_get(&a, INFO).ok_or(format!("{code} records no version"))?;
        let v: Value = serde_json::from_slice(&raw).map_err(|e| e.to_string())?;
        l.push((code, a, str_of(&v, "contract"), str_of(&v, "version")));
    }
    Ok(S5 {
        ch: sys.ch,
        l: Arc::new(l),
    })
}
#[derive(Clone, Debug)]
struct Mig {
    /// the contract
    c: usize,
    /// the new code
    to: usize,
    name: Option<String>,
    ver: String,
}
fn migrate_case(s: &S5, m: &Mig, cov: &mut Cov) -> Res<u128> {
    let (mine, addr, _, _) = &s.l[m.c];
    let (code, _, name, ver) = &s.l[m.to];
    let mut ch = s.ch.clone();
    // the accounts which created them
    let admin = ch.user(if mine.starts_with("warp") { "owner0" } else { "deployer" });
    match &m.name {
        Some(n) => {
            let v = json!({"contract": n, "version": m.ver});
            ch.store_set(addr, INFO, Some(v.to_string().into_bytes()));
        }
        None => ch.store_set(addr, INFO, None),
    }
    let before = ch.clone();
    let t = ch.migrate(&admin, addr, code, &json!({}));
    let want = m.name.as_ref() == Some(name)
        && match (parse_ver(&m.ver), parse_ver(ver)) {
            (Some(a), Some(b)) => older(&a, &b),
            _ => false,
        };
    ensure_eq!(
        t.ok(),
        want,
        "migration of {:?} {} to {name} {ver} ({})",
        m.name,
        m.ver,
        t.err()
    );
    if !want {
        ensure_eq!(ch.key(), before.key(), "state after a refused migration");
        cov.hit("refused");
        return Ok(dig(m));
    }
    let (mut a, mut b) = (before.store_dump(addr), ch.store_dump(addr));
    let info: Value = b
        .remove(INFO)
        .and_then(|x| serde_json::from_slice(&x).ok())
        .ok_or("version record lost")?;
    a.remove(INFO);
    ensure_eq!(str_of(&info, "contract"), *name, "recorded name");
    ensure_eq!(str_of(&info, "version"), *ver, "recorded version");
    ensure_eq!(b, a, "stored state after the migration");
    ensure_eq!(ch.bank_view(), before.bank_view(), "balances");
    // everything else is untouched: putting the old record back gives the old state
    let mut back = ch.clone();
    back.store_set(addr, INFO, before.store_get(addr, INFO));
    ensure_eq!(back.key(), before.key(), "state of other contracts");
    ensure!(t.sends().is_empty(), "migration sends coins");
    // only once
    let done = ch.key();
    let t = ch.migrate(&admin, addr, code, &json!({}));
    ensure!(!t.ok(), "second migration to the same version succeeded");
    ensure_eq!(ch.key(), done, "state after the second migration");
    cov.hit("migrated");
    Ok(dig(m))
}

type Build = Box<dyn Fn(&mut Chain, &System) -> Res<String> + Sync + Send>;

/// contracts holding unusual values: what must survive a migration
fn unusual() -> Vec<(&'static str, String, Build)> {
    let mut v: Vec<(&'static str, String, Build)> = vec![];
    let at = |sys: &System, code: &str| sys.owned.iter().find(|o| o.code == code).unwrap().addr.clone();
    let denoms = [
        "u",
        "uosmo",
        "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2",
        "factory/osmo1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqmcn030/utoken",
        "gamm/pool/1",
        "erc20:0xdac17f958d2ee523a2206206994597c13d831ec7",
        "a-b.c_d",
        "UPPER",
    ];
    let amounts = [0u128, 1, 9, 1 << 32, u64::MAX as u128, 1 << 64, u128::MAX];
    let own = |ch: &Chain| ch.user("owner0");
    for d in denoms {
        for a in amounts {
            v.push((
                "hook_fee",
                format!("fee of {a} {d}"),
                Box::new(move |ch, sys| {
                    let (o, c) = (own(ch), at(sys, "hook_fee"));
                    let m = json!({"fee_hook": {"set_fee": {"fee": {"denom": d, "amount": a.to_string()}}}});
                    call(ch, &o, &c, m)?;
                    ch.fund(&c, d, 5);
                    Ok(c)
                }),
            ));
            v.push((
                "igp",
                format!("gas token {d}, default gas {a}"),
                Box::new(move |ch, _| {
                    let o = own(ch);
                    let dep = ch.user("deployer");
                    let m = json!({"hrp": HRP, "owner": o, "gas_token": d, "beneficiary": o, "default_gas_usage": a.to_string()});
                    let c = inst(ch, "igp", &dep, m)?;
                    let m = json!({"set_gas_for_domain": {"config": [[0, a.to_string()], [u32::MAX, "0"], [1, "1"]]}});
                    call(ch, &o, &c, m)?;
                    ch.fund(&c, d, 7);
                    Ok(c)
                }),
            ));
        }
    }
    let sizes = [1usize, 2, 3, 10, 11, 30, 31, 100, 257];
    let dom = |i: usize| (i as u32).wrapping_mul(0x9e37_79b1);
    for n in sizes {
        for code in ["hook_routing", "hook_routing_custom", "hook_routing_fallback", "igp", "warp_native", "warp_cw20"] {
            v.push((
                code,
                format!("{n} routes"),
                Box::new(move |ch, sys| {
                    let (o, c) = (own(ch), at(sys, code));
                    let hook = ch.user("h");
                    let to = |i: usize| {
                        if !code.starts_with("warp") {
                            json!(hook)
                        } else if i % 3 == 0 {
                            json!(hx(&fill(&format!("r{i}"), 20)))
                        } else {
                            json!(hx(&fill32(&format!("r{i}"))))
                        }
                    };
                    for i in 0..n {
                        let m = json!({"router": {"set_route": {"set": {"domain": dom(i), "route": to(i)}}}});
                        call(ch, &o, &c, m)?;
                    }
                    // some cleared again
                    for i in (0..n).step_by(4) {
                        let m = json!({"router": {"set_route": {"set": {"domain": dom(i), "route": null}}}});
                        call(ch, &o, &c, m)?;
                    }
                    Ok(c)
                }),
            ));
        }
        v.push((
            "hook_routing_custom",
            format!("{n} custom hooks"),
            Box::new(move |ch, sys| {
                let (o, c) = (own(ch), at(sys, "hook_routing_custom"));
                let h = sys.owned[0].addr.clone();
                for i in 0..n {
                    for d in [0, dom(i), u32::MAX] {
                        for r in [fill(&format!("r{i}"), 32), fill(&format!("r{i}"), i % 33)] {
                            let m = json!({"register_custom_hook": {"dest_domain": d, "recipient": hx(&r), "hook": h}});
                            let t = ch.exec(&o, &c, &m, &[]);
                            if r.len() == 32 {
                                ok(t, "custom hook")?;
                            }
                        }
                    }
                }
                Ok(c)
            }),
        ));
        v.push((
            "igp_oracle",
            format!("data for {n} domains"),
            Box::new(move |ch, sys| {
                let (o, c) = (own(ch), at(sys, "igp_oracle"));
                for i in 0..n {
                    let (x, y) = ([1u128, 1 << 64, u128::MAX][i % 3], [0u128, 1, u128::MAX, 1 << 100][i % 4]);
                    let m = json!({"set_remote_gas_data": {"config":
                        {"remote_domain": dom(i), "token_exchange_rate": x.to_string(), "gas_price": y.to_string()}}});
                    call(ch, &o, &c, m)?;
                }
                Ok(c)
            }),
        ));
        v.push((
            "igp",
            format!("gas for {n} domains"),
            Box::new(move |ch, sys| {
                let (o, c) = (own(ch), at(sys, "igp"));
                let l: Vec<Value> = (0..n).map(|i| json!([dom(i), amounts[i % 7].to_string()])).collect();
                call(ch, &o, &c, json!({"set_gas_for_domain": {"config": l}}))?;
                Ok(c)
            }),
        ));
        v.push((
            "ism_routing",
            format!("modules for {n} origins"),
            Box::new(move |ch, sys| {
                let (o, c) = (own(ch), at(sys, "ism_routing"));
                for i in 0..n {
                    let m = json!({"set": {"ism": {"domain": dom(i), "address": ch.user(&format!("m{}", i % 5))}}});
                    call(ch, &o, &c, m)?;
                }
                Ok(c)
            }),
        ));
        v.push((
            "ism_aggregate",
            format!("{n} members"),
            Box::new(move |ch, sys| {
                let (o, c) = (own(ch), at(sys, "ism_aggregate"));
                let l: Vec<String> = (0..n).map(|i| ch.user(&format!("m{i}"))).collect();
                let t = (n + 1) / 2;
                if n < 256 {
                    call(ch, &o, &c, json!({"set_isms": {"isms": l, "threshold": t}}))?;
                }
                Ok(c)
            }),
        ));
        v.push((
            "hook_aggregate",
            format!("{n} members"),
            Box::new(move |ch, sys| {
                let (o, c) = (own(ch), at(sys, "hook_aggregate"));
                let l: Vec<String> = (0..n).map(|i| ch.user(&format!("m{i}"))).collect();
                call(ch, &o, &c, json!({"set_hooks": {"hooks": l}}))?;
                Ok(c)
            }),
        ));
        v.push((
            "ism_multisig",
            format!("{n} validators, {n} domains"),
            Box::new(move |ch, sys| {
                let (o, c) = (own(ch), at(sys, "ism_multisig"));
                for d in 0..n {
                    let k = 1 + (d * 7) % n.min(255);
                    let l: Vec<String> = (0..k).map(|i| hx(&fill(&format!("v{i}"), 20))).collect();
                    let m = json!({"set_validators": {"domain": dom(d), "threshold": k, "validators": l}});
                    if d < 40 || d + 1 == n {
                        call(ch, &o, &c, m)?;
                    }
                }
                Ok(c)
            }),
        ));
        v.push((
            "mailbox",
            format!("{n} dispatches and deliveries"),
            Box::new(move |ch, _| {
                let o = own(ch);
                let dep = ch.user("deployer");
                let c = inst(ch, "mailbox", &dep, json!({"hrp": HRP, "owner": o, "domain": LOCAL}))?;
                let h = quiet_hook(ch);
                let i = probe(ch, |p| p.verify = "accept".into());
                let to = probe(ch, |_| {});
                call(ch, &o, &c, json!({"set_required_hook": {"hook": h}}))?;
                call(ch, &o, &c, json!({"set_default_hook": {"hook": h}}))?;
                call(ch, &o, &c, json!({"set_default_ism": {"ism": i}}))?;
                for k in 0..n {
                    call(ch, &o, &c, dispatch_msg(dom(k), &fill32("r"), &fill("b", k), None, None))?;
                    let m = Msg {
                        version: 3,
                        nonce: k as u32,
                        origin: dom(k),
                        sender: fill32("s"),
                        dest: LOCAL,
                        recipient: self_h256(&to),
                        body: fill("b", k),
                    };
                    call(ch, &dep, &c, process_msg(&fill("m", k), &m.enc()))?;
                    ensure!(delivered(ch, &c, &m.id())?, "delivered");
                }
                Ok(c)
            }),
        ));
        v.push((
            "hook_merkle",
            format!("{n} insertions"),
            Box::new(move |ch, _| {
                let o = own(ch);
                let dep = ch.user("deployer");
                let mb = inst(ch, "mailbox", &dep, json!({"hrp": HRP, "owner": o, "domain": LOCAL}))?;
                let c = inst(ch, "hook_merkle", &dep, json!({"mailbox": mb}))?;
                let h = quiet_hook(ch);
                call(ch, &o, &mb, json!({"set_required_hook": {"hook": h}}))?;
                call(ch, &o, &mb, json!({"set_default_hook": {"hook": c}}))?;
                for k in 0..n {
                    call(ch, &o, &mb, dispatch_msg(dom(k), &fill32("r"), &fill("b", k), None, None))?;
                }
                let got = ch.query(&c, &json!({"merkle_hook": {"count": {}}}))?;
                ensure_eq!(got["count"], json!(n), "count");
                Ok(c)
            }),
        ));
        v.push((
            "va",
            format!("{n} announcements"),
            Box::new(move |ch, sys| {
                let o = ch.user("deployer");
                let c = inst(ch, "va", &o, json!({"hrp": HRP, "mailbox": sys.owned[0].addr}))?;
                for k in 0..n {
                    let key = Key::new(&format!("v{}", k % 7));
                    let loc = format!("s3://bucket-{}/{}", k / 7, "x".repeat(k % 40));
                    let mut b = LOCAL.to_be_bytes().to_vec();
                    b.extend(self_h256(&sys.owned[0].addr));
                    b.extend(b"HYPERLANE_ANNOUNCEMENT");
                    let mut b = keccak(&b).to_vec();
                    b.extend(loc.as_bytes());
                    let sig = key.sign(&eth_hash(&keccak(&b)));
                    let m = json!({"announce": {"validator": hx(&key.addr), "storage_location": loc, "signature": hx(&sig)}});
                    call(ch, &o, &c, m)?;
                }
                Ok(c)
            }),
        ));
    }
    for code in ["hook_fee", "igp", "warp_native", "warp_cw20", "mailbox", "hook_merkle", "va", "ism_multisig", "hook_aggregate", "hook_routing"] {
        v.push((
            code,
            "given coins of many kinds".into(),
            Box::new(move |ch, sys| {
                let c = sys
                    .owned
                    .iter()
                    .map(|o| (o.code, o.addr.clone()))
                    .chain(sys.free.iter().cloned())
                    .find(|x| x.0 == code)
                    .unwrap()
                    .1;
                for (i, d) in denoms.iter().enumerate() {
                    ch.fund(&c, d, 1 + i as u128);
                }
                Ok(c)
            }),
        ));
    }
    // routes of every kind with transfers behind them
    for k in 0..4usize {
        for n in [0u128, 1, 40, 100] {
            let kind = KINDS[k];
            let code = if kind.cw20 { "warp_cw20" } else { "warp_native" };
            v.push((
                code,
                format!("{kind:?} with {n} transferred"),
                Box::new(move |ch, _| {
                    let o = own(ch);
                    let b = basic(ch, &o, LOCAL)?;
                    let alice = ch.user("alice");
                    let hold: Vec<(&str, u128)> = vec![(alice.as_str(), 100)];
                    let r = deploy(ch, &o, kind, &b.mb, &hold)?;
                    call(ch, &o, &r.addr, enroll(9, Some(&fill32("r9"))))?;
                    r.approve(ch, &alice, 100);
                    if kind.bridged {
                        r.give(ch, &alice, 100);
                    }
                    if n > 0 {
                        let t = try_call(ch, &alice, &r.addr, &transfer_msg(9, &fill32("x"), n, None, None), &r.funds(n, &vec![]));
                        ok(t, "transfer")?;
                    }
                    Ok(r.addr)
                }),
            ));
        }
    }
    v
}
fn migrate_used(ch: Chain, code: &'static str, addr: &str, cov: &mut Cov) -> Res<u128> {
    let raw = ch.store_get(addr, INFO).ok_or(format!("{code} records no version"))?;
    let v: Value = serde_json::from_slice(&raw).map_err(|e| e.to_string())?;
    let (name, ver) = (str_of(&v, "contract"), str_of(&v, "version"));
    let s = S5 {
        ch,
        l: Arc::new(vec![(code, addr.to_string(), name.clone(), ver.clone())]),
    };
    let mut out = 0;
    for from in ["0.0.1", "0.0.6-rc.1", &ver] {
        let m = Mig {
            c: 0,
            to: 0,
            name: Some(name.clone()),
            ver: from.to_string(),
        };
        out ^= migrate_case(&s, &m, cov)?;
    }
    Ok(out)
}

pub fn a04(c: &mut Ctx) {
    c.assume("who may migrate is decided by the chain; the recorded name and version are what the cw2 record says");
    let base = c.setup(migrate_base);
    let mut v = vec![];
    for i in 0..CODES.len() {
        let (_, _, name, ver) = base.l[i].clone();
        for x in versions(&ver) {
            v.push(Mig {
                c: i,
                to: i,
                name: Some(name.clone()),
                ver: x,
            });
        }
        let mut names: Vec<String> = base.l.iter().map(|x| x.2.clone()).filter(|n| *n != name).collect();
        names.extend([
            "".into(),
            name.to_uppercase(),
            format!("crates.io:{name}"),
            format!("{name} "),
            format!("{name}2"),
            name[..name.len() - 1].to_string(),
            name.replace('-', "_"),
            name.replace("hpl-", ""),
        ]);
        names.retain(|n| *n != name);
        names.sort();
        names.dedup();
        for n in names {
            for x in ["0.0.1", "0.0.6", &ver, "1.0.0"] {
                v.push(Mig {
                    c: i,
                    to: i,
                    name: Some(n.clone()),
                    ver: x.to_string(),
                });
            }
        }
        v.push(Mig {
            c: i,
            to: i,
            name: None,
            ver: "0.0.1".into(),
        });
        // to the code of another contract
        for j in 0..CODES.len() {
            if i == j {
                continue;
            }
            for x in ["0.0.1", &ver] {
                v.push(Mig {
                    c: i,
                    to: j,
                    name: Some(name.clone()),
                    ver: x.to_string(),
                });
            }
        }
    }
    c.cases("migrations", migrate_base, v, &["migrated", "refused"], migrate_case);
    // contracts with a history: up to two administrative operations, before, during and after a
    // handover
    let sys = c.setup(system);
    let mut v: Vec<(usize, Vec<usize>, u8)> = vec![];
    for (i, o) in sys.owned.iter().enumerate() {
        for seq in seqs(o.ops.len(), c.pick(2, 3)) {
            for own in 0..4u8 {
                v.push((i, seq.clone(), own));
            }
        }
    }
    c.cases(
        "migrations of configured contracts",
        system,
        v,
        &["migrated", "refused"],
        |sys: &System, (i, seq, own), cov| {
            let o = &sys.owned[*i];
            let mut ch = sys.ch.clone();
            let (a, b) = (ch.user("owner0"), ch.user("owner1"));
            let who = if *own == 3 {
                call(&mut ch, &a, &o.addr, nominate(o.code, &b))?;
                call(&mut ch, &b, &o.addr, claim(o.code))?;
                &b
            } else {
                &a
            };
            for k in seq {
                ch.exec(who, &o.addr, &o.ops[*k].msg, &[]);
            }
            if *own >= 1 {
                let other = if *own == 3 { &a } else { &b };
                call(&mut ch, who, &o.addr, nominate(o.code, other))?;
            }
            if *own == 2 {
                call(&mut ch, who, &o.addr, revoke(o.code))?;
            }
            // each its own execution: the state is what the migration starts from
            let start = ch.key();
            Ok(start ^ migrate_used(ch, o.code, &o.addr, cov)?)
        },
    );
    let list = unusual();
    c.cases(
        "migrations of contracts holding unusual values",
        system,
        (0..list.len()).map(|i| (list[i].0, list[i].1.clone(), i)).collect(),
        &["migrated", "refused"],
        |sys: &System, (code, _, i), cov| {
            let mut ch = sys.ch.clone();
            let addr = list[*i].2(&mut ch, sys)?;
            let start = ch.key();
            Ok(start ^ migrate_used(ch, code, &addr, cov)?)
        },
    );
    // the names are different for every contract, so that none can be taken for another
    c.cases(
        "names",
        migrate_base,
        (0..CODES.len()).collect(),
        &["distinct"],
        |s: &S5, i, cov| {
            for (j, x) in s.l.iter().enumerate() {
                ensure!(j == *i || x.2 != s.l[*i].2, "{} and {} are both called {}", x.0, s.l[*i].0, x.2);
            }
            cov.hit("distinct");
            Ok(*i as u128)
        },
    );
}
