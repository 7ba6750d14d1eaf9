//! E01 what the events of a transaction report to those who only watch the chain
use super::admin::{claim, nominate, revoke};
use super::igp::{igp, oracle, ref_price, set_route, to_u128};
use super::va::{announce, digest_of};
use super::messages::{kinds, message, K};
use super::warp::{body, deploy, enroll, transfer_msg, Route, KINDS};
use crate::chain::{b32, h256, Chain, Ev, TxOut};
use crate::codes::Emit;
use crate::explore::{Cov, CovExt, Ctx, Model, Res, Step};
use crate::util::*;
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const HRP: &str = "osmo";
const LOCAL: u32 = 0x0001_0203;
const DEST: u32 = 0x0a00_0b01;
const GAS: &str = "ugas";

/// an event that must be reported: by whom, which, with what (further attributes are not looked at)
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Want {
    by: String,
    ty: String,
    at: BTreeMap<String, String>,
}
fn want(by: &str, ty: &str, at: &[(&str, String)]) -> Want {
    Want {
        by: by.to_string(),
        ty: ty.to_string(),
        at: at.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(),
    }
}
/// the kinds of events somebody watches
fn watched(ty: &str) -> bool {
    ["mailbox_", "hpl_", "igp-core-", "validator-announcement", "set-gas-config", "ism_multisig_"]
        .iter()
        .any(|p| ty.starts_with(p))
        && !ty.ends_with("::instantiate")
        && !ty.ends_with("::initialize")
}
/// the committed events are exactly the wanted ones, per contract and kind in this order
fn reported(t: &TxOut, wants: &[Want], what: &str) -> Res<()> {
    let mut got: BTreeMap<(String, String), Vec<BTreeMap<String, String>>> = BTreeMap::new();
    for e in t.live() {
        if let Ev::Event { contract, ty, attrs } = e {
            if watched(ty) {
                let m: BTreeMap<String, String> = attrs.iter().cloned().collect();
                ensure_eq!(m.len(), attrs.len(), "attributes of {ty} with one name");
                got.entry((contract.to_string(), ty.to_string())).or_default().push(m);
            }
        }
    }
    let mut exp: BTreeMap<(String, String), Vec<&BTreeMap<String, String>>> = BTreeMap::new();
    for w in wants {
        exp.entry((w.by.clone(), w.ty.clone())).or_default().push(&w.at);
    }
    for k in got.keys().chain(exp.keys()).collect::<BTreeSet<_>>() {
        let (g, e) = (got.get(k).map_or(0, |v| v.len()), exp.get(k).map_or(0, |v| v.len()));
        ensure_eq!(g, e, "{what}: number of events {} of {}", k.1, k.0);
        for (i, w) in exp.get(k).into_iter().flatten().enumerate() {
            let h: BTreeMap<&String, Option<&String>> = w.keys().map(|n| (n, got[k][i].get(n))).collect();
            let w: BTreeMap<&String, Option<&String>> = w.iter().map(|(n, v)| (n, Some(v))).collect();
            ensure_eq!(h, w, "{what}: event {} number {i} of {}", k.1, k.0);
        }
    }
    Ok(())
}

// ------------------------------------------------------------ the world

#[derive(Debug)]
struct Net {
    mb: String,
    merkle: String,
    req: String,
    igp: String,
    oracle: String,
    va: String,
    fee: String,
    pause: String,
    routes: Vec<Route>,
    /// owner of everything, beneficiary; calls what it is told to and goes on when that fails
    agent: String,
    /// may do what anybody may do
    alice: String,
    recipient: String,
    module: String,
    quiet: String,
}
const ROUTER: &str = "remote router";
fn net() -> Res<(Chain, Net)> {
    let mut ch = Chain::new(HRP);
    let agent = probe(&mut ch, |_| {});
    let alice = ch.user("alice");
    let mb = mailbox(&mut ch, &agent, LOCAL)?;
    let merkle = inst(&mut ch, "hook_merkle", &agent, json!({ "mailbox": mb }))?;
    let fee = inst(
        &mut ch,
        "hook_fee",
        &agent,
        json!({"owner": agent, "fee": {"denom": "ufee", "amount": "3"}}),
    )?;
    let req = inst(&mut ch, "hook_aggregate", &agent, json!({"owner": agent, "hooks": [merkle, fee]}))?;
    let igp = igp(&mut ch, &agent, GAS, &agent, 50)?;
    let oracle = oracle(&mut ch, &agent)?;
    let module = probe(&mut ch, |p| p.verify = "accept".into());
    let quiet = quiet_hook(&mut ch);
    let pause = inst(&mut ch, "ism_pausable", &agent, json!({"owner": agent, "paused": false}))?;
    let va = inst(&mut ch, "va", &agent, json!({"hrp": HRP, "mailbox": mb}))?;
    let recipient = probe(&mut ch, |_| {});
    for (c, m) in [
        (&mb, json!({"set_required_hook": {"hook": req}})),
        (&mb, json!({"set_default_hook": {"hook": igp}})),
        (&mb, json!({"set_default_ism": {"ism": module}})),
        (&igp, set_route(DEST, Some(&oracle))),
    ] {
        call(&mut ch, &agent, c, m)?;
    }
    let mut routes = vec![];
    for k in KINDS {
        let h = ch.user("holder");
        let all = [(h.as_str(), 1u128 << 100)];
        let r = deploy(&mut ch, &agent, k, &mb, if k.bridged { &[] } else { &all })?;
        for who in [&agent, &alice] {
            r.give(&mut ch, who, 1 << 90);
            r.approve(&mut ch, who, 1 << 90);
        }
        if !k.bridged {
            r.give(&mut ch, &r.addr, 1 << 90);
        }
        call(&mut ch, &agent, &r.addr, enroll(DEST, Some(&fill32(ROUTER))))?;
        routes.push(r);
    }
    for who in [&agent, &alice] {
        ch.fund(who, GAS, 1 << 90);
        ch.fund(who, "ufee", 1 << 40);
    }
    Ok((
        ch,
        Net {
            mb,
            merkle,
            req,
            igp,
            oracle,
            va,
            fee,
            pause,
            routes,
            agent,
            alice,
            recipient,
            module,
            quiet,
        },
    ))
}
/// what has happened so far
#[derive(Clone, Debug, PartialEq, Eq)]
struct Past {
    nonce: u32,
    price: (u128, u128),
    held: u128,
    announced: BTreeSet<(usize, usize)>,
    delivered: BTreeSet<usize>,
    paused: bool,
    nominee: Option<bool>,
    default_gas: u128,
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum I {
    /// metadata with gas, units above (or below) the price
    Dispatch(Option<u128>, i8),
    /// with a hook that charges nothing
    Quiet,
    Pay(u128, i8),
    Collect,
    Price(u128, u128),
    Announce(usize, usize, bool),
    Out(usize, u128),
    In(usize),
    Pause,
    Release,
    Nominate(bool),
    Revoke,
    Claim,
    DefaultGas(u128),
}
fn items() -> Vec<I> {
    let mut v = vec![
        I::Dispatch(None, 0),
        I::Dispatch(Some(7), 2),
        I::Dispatch(Some(9), -1),
        I::Quiet,
        I::Pay(11, 0),
        I::Pay(13, 5),
        I::Pay(0, 1),
        I::Collect,
        I::Price(2, 10_000_000_000),
        I::Price(0, 10_000_000_000),
        I::Announce(0, 0, true),
        I::Announce(0, 1, true),
        I::Announce(1, 0, true),
        I::Announce(1, 1, false),
    ];
    for k in 0..KINDS.len() {
        v.extend([I::Out(k, 5 + k as u128), I::In(k)]);
    }
    v.extend([
        I::Pause,
        I::Release,
        I::Nominate(true),
        I::Revoke,
        I::Claim,
        I::DefaultGas(60),
    ]);
    v
}
const LOCS: [&str; 2] = ["s3://bucket/one", "gs://two/ü"];

fn price(p: (u128, u128), gas: u128) -> u128 {
    to_u128(&ref_price(&u256(gas), p.0, p.1)).expect("price")
}
fn incoming(n: &Net, k: usize) -> Msg {
    Msg {
        version: 3,
        nonce: k as u32,
        origin: DEST,
        sender: fill32(ROUTER),
        dest: LOCAL,
        recipient: h256(&n.routes[k].addr),
        body: body(&fill32("receiver"), &u256(70 + k as u128), b""),
    }
}
fn dispatch_wants(n: &Net, m: &Msg, out: &mut Vec<Want>) {
    let id = hx(&m.id());
    out.push(want(&n.mb, "mailbox_dispatch_id", &[("message_id", id.clone())]));
    out.push(want(
        &n.mb,
        "mailbox_dispatch",
        &[
            ("sender", hx(&m.sender)),
            ("destination", m.dest.to_string()),
            ("recipient", hx(&m.recipient)),
            ("message", hx(&m.enc())),
        ],
    ));
    // required: an aggregate of the tree and the fee
    out.push(want(&n.req, "hpl_hook_aggregate::post_dispatch", &[("message_id", id.clone())]));
    out.push(want(
        &n.merkle,
        "hpl_hook_merkle::post_dispatch",
        &[("message_id", id.clone()), ("index", m.nonce.to_string())],
    ));
    out.push(want(&n.merkle, "hpl_hook_merkle::inserted_into_tree", &[("index", m.nonce.to_string())]));
    out.push(want(
        &n.fee,
        "hpl_hook_fee::post_dispatch",
        &[("paid_denom", "ufee".into()), ("paid_amount", "3".into())],
    ));
}
struct Pay<'a> {
    by: &'a str,
    dest: u32,
    id: &'a [u8],
    gas: String,
    price: u128,
    paid: u128,
}
fn pay_want(igp: &str, p: &Pay) -> Want {
    want(
        igp,
        "igp-core-pay-for-gas",
        &[
            ("sender", p.by.to_string()),
            ("dest_domain", p.dest.to_string()),
            ("message_id", hx(p.id)),
            ("gas_amount", p.gas.clone()),
            ("gas_refunded", (p.paid - p.price).to_string()),
            ("gas_required", p.price.to_string()),
            ("payment", p.paid.to_string()),
        ],
    )
}
fn hook_wants(igp: &str, meta: &[u8], m: &Msg, p: &Pay, out: &mut Vec<Want>) {
    out.push(pay_want(igp, p));
    let mut at = vec![("message", hx(&m.enc()))];
    if !meta.is_empty() {
        at.push(("metadata", hx(meta)));
    }
    out.push(want(igp, "igp-core-post-dispatch", &at));
}
/// the call of one item by `who` and, when it must succeed, what is to be reported
fn plan(n: &Net, p: &mut Past, i: &I, who: &str) -> (String, Value, Vec<(String, u128)>, Option<Vec<Want>>) {
    let own = who == n.agent;
    let mut out = vec![];
    let msg = |p: &Past, recipient: [u8; 32], body: Vec<u8>, sender: &str| Msg {
        version: 3,
        nonce: p.nonce,
        origin: LOCAL,
        sender: h256(sender),
        dest: DEST,
        recipient,
        body,
    };
    let gone = |p: &mut Past, out: Vec<Want>| {
        p.nonce += 1;
        Some(out)
    };
    let simple = |c: &String, m: Value| (c.clone(), m, vec![], None::<()>);
    match i {
        I::Dispatch(gas, over) => {
            let m = msg(p, fill32("far away"), b"hello".to_vec(), who);
            let meta = gas.map(|g| [u256(g).to_vec(), fill("refund", 20)].concat()).unwrap_or_default();
            let g = gas.unwrap_or(p.default_gas);
            let c = price(p.price, g);
            let attached = c.checked_add_signed(*over as i128);
            let paid = attached.unwrap_or(0);
            let f = coins(&[("ufee", 3), (GAS, paid)]);
            let d = dispatch_msg(DEST, &m.recipient, &m.body, None, if meta.is_empty() { None } else { Some(&meta) });
            if paid < c {
                return (n.mb.clone(), d, f, None);
            }
            dispatch_wants(n, &m, &mut out);
            let pay = Pay {
                by: &n.mb,
                dest: DEST,
                id: &m.id(),
                gas: g.to_string(),
                price: c,
                paid,
            };
            hook_wants(&n.igp, &meta, &m, &pay, &mut out);
            p.held += c;
            (n.mb.clone(), d, f, gone(p, out))
        }
        I::Quiet => {
            let m = msg(p, fill32("elsewhere"), vec![], who);
            dispatch_wants(n, &m, &mut out);
            let d = dispatch_msg(DEST, &m.recipient, &m.body, Some(&n.quiet), None);
            (n.mb.clone(), d, coins(&[("ufee", 3)]), gone(p, out))
        }
        I::Pay(g, over) => {
            let c = price(p.price, *g);
            let paid = c.checked_add_signed(*over as i128).unwrap_or(0);
            let id = fill32("paid message");
            let m = json!({"pay_for_gas": {"message_id": hx(&id), "dest_domain": DEST,
                "gas_amount": g.to_string(), "refund_address": n.recipient}});
            let pay = Pay {
                by: who,
                dest: DEST,
                id: &id,
                gas: g.to_string(),
                price: c,
                paid,
            };
            let w = vec![pay_want(&n.igp, &pay)];
            p.held += c;
            (n.igp.clone(), m, coins(&[(GAS, paid)]), Some(w))
        }
        I::Collect => {
            let (c, m, f, _) = simple(&n.igp, json!({"claim": {}}));
            if !own {
                return (c, m, f, None);
            }
            let w = want(
                &n.igp,
                "igp-core-claim",
                &[("beneficiary", n.agent.clone()), ("collected", format!("{}{GAS}", p.held))],
            );
            p.held = 0;
            (c, m, f, Some(vec![w]))
        }
        I::Price(a, b) => {
            let (c, m, f, _) = simple(
                &n.oracle,
                json!({"set_remote_gas_data": {"config": {"remote_domain": DEST,
                    "token_exchange_rate": b.to_string(), "gas_price": a.to_string()}}}),
            );
            if !own {
                return (c, m, f, None);
            }
            p.price = (*a, *b);
            (c, m, f, Some(vec![want(&n.oracle, "set-gas-config", &[("domain", DEST.to_string())])]))
        }
        I::Announce(v, l, right) => {
            let k = Key::new(&format!("watched {v}"));
            let d = digest_of(LOCAL, &h256(&n.mb), LOCS[*l].as_bytes(), if *right { 0 } else { 10 });
            let (c, m, f, _) = simple(&n.va, announce(&k.addr, LOCS[*l], &k.sign(&d)));
            if !right || !p.announced.insert((*v, *l)) {
                return (c, m, f, None);
            }
            let w = want(
                &n.va,
                "validator-announcement",
                &[("sender", who.into()), ("validator", hx(&k.addr)), ("storage-location", LOCS[*l].into())],
            );
            (c, m, f, Some(vec![w]))
        }
        I::Out(k, a) => {
            let r = &n.routes[*k];
            let rec = fill32("receiver there");
            let m = msg(p, fill32(ROUTER), body(&rec, &u256(*a), b""), &r.addr);
            let c = price(p.price, p.default_gas);
            let mut w = vec![];
            dispatch_wants(n, &m, &mut w);
            let pay = Pay {
                by: &n.mb,
                dest: DEST,
                id: &m.id(),
                gas: p.default_gas.to_string(),
                price: c,
                paid: c,
            };
            hook_wants(&n.igp, b"", &m, &pay, &mut w);
            w.push(out_want(r, who, &rec, *a, None, None));
            p.held += c;
            let f = r.funds(*a, &coins(&[("ufee", 3), (GAS, c)]));
            (r.addr.clone(), transfer_msg(DEST, &rec, *a, None, None), f, gone(p, w))
        }
        I::In(k) => {
            let m = incoming(n, *k);
            let (c, x, f, _) = simple(&n.mb, process_msg(b"", &m.enc()));
            if !p.delivered.insert(*k) {
                return (c, x, f, None);
            }
            let w = in_wants(n, *k, &m);
            (c, x, f, Some(w))
        }
        I::Pause | I::Release => {
            let on = *i == I::Pause;
            let name = if on { "pause" } else { "release" };
            let (c, m, f, _) = simple(&n.pause, json!({"pausable": {name: {}}}));
            if !own || p.paused == on {
                return (c, m, f, None);
            }
            p.paused = on;
            let w = want(&n.pause, &format!("hpl_pausable::{name}"), &[("sender", who.into())]);
            (c, m, f, Some(vec![w]))
        }
        I::Nominate(_) => {
            // itself: so that the nomination can be accepted without losing the contract
            let (c, m, f, _) = simple(&n.pause, nominate("ism_pausable", &n.agent));
            if !own || p.nominee.is_some() {
                return (c, m, f, None);
            }
            p.nominee = Some(true);
            let w = want(
                &n.pause,
                "hpl_ownable::init",
                &[("owner", who.into()), ("next_owner", n.agent.clone())],
            );
            (c, m, f, Some(vec![w]))
        }
        I::Revoke => {
            let (c, m, f, _) = simple(&n.pause, revoke("ism_pausable"));
            if !own || p.nominee.take().is_none() {
                return (c, m, f, None);
            }
            (c, m, f, Some(vec![want(&n.pause, "hpl_ownable::revoke", &[("owner", who.into())])]))
        }
        I::Claim => {
            let (c, m, f, _) = simple(&n.pause, claim("ism_pausable"));
            if !own || p.nominee.take().is_none() {
                return (c, m, f, None);
            }
            (c, m, f, Some(vec![want(&n.pause, "hpl_ownable::claim", &[("owner", who.into())])]))
        }
        I::DefaultGas(g) => {
            let (c, m, f, _) = simple(&n.igp, json!({"set_default_gas": {"gas": g.to_string()}}));
            if !own {
                return (c, m, f, None);
            }
            p.default_gas = *g;
            let w = want(
                &n.igp,
                "igp-core-set-default-gas",
                &[("owner", who.into()), ("default-gas", g.to_string())],
            );
            (c, m, f, Some(vec![w]))
        }
    }
}
fn out_want(r: &Route, who: &str, rec: &[u8], a: u128, hook: Option<&str>, meta: Option<&[u8]>) -> Want {
    let name = if r.kind.cw20 { "cw20" } else { "native" };
    let mut w = want(
        &r.addr,
        &format!("hpl_warp_{name}::transfer-remote"),
        &[
            ("sender", who.into()),
            ("recipient", hx(rec)),
            ("token", r.token.clone()),
            ("amount", a.to_string()),
        ],
    );
    if let Some(h) = hook {
        w.at.insert("hook".into(), h.into());
    }
    if let Some(m) = meta {
        w.at.insert("metadata".into(), hx(m));
    }
    w
}
fn in_wants(n: &Net, k: usize, m: &Msg) -> Vec<Want> {
    let r = &n.routes[k];
    let name = if r.kind.cw20 { "cw20" } else { "native" };
    let rec: [u8; 32] = m.body[..32].try_into().unwrap();
    let amount = u128::from_be_bytes(m.body[48..64].try_into().unwrap());
    vec![
        want(&n.mb, "mailbox_process_id", &[("message_id", hx(&m.id()))]),
        want(
            &n.mb,
            "mailbox_process",
            &[
                ("origin", m.origin.to_string()),
                ("sender", hx(&m.sender)),
                ("recipient", hx(&m.recipient)),
            ],
        ),
        want(
            &r.addr,
            &format!("hpl_warp_{name}::handle"),
            &[
                ("recipient", addr_of(HRP, &rec)),
                ("token", r.token.clone()),
                ("amount", amount.to_string()),
            ],
        ),
    ]
}

// ------------------------------------------------------------ histories

#[derive(Clone)]
struct S {
    ch: Chain,
    n: Arc<Net>,
    p: Past,
}
#[derive(Clone, Debug)]
enum A {
    Alice(usize),
    /// one transaction of the agent doing all this
    Agent(Vec<usize>),
}
fn start() -> Res<S> {
    let (mut ch, n) = net()?;
    call(
        &mut ch,
        &n.agent,
        &n.oracle,
        json!({"set_remote_gas_data": {"config": {"remote_domain": DEST,
            "token_exchange_rate": "20000000000", "gas_price": "3"}}}),
    )?;
    // the paymaster has collected something
    ch.fund(&n.igp, GAS, 100);
    Ok(S {
        ch,
        n: Arc::new(n),
        p: Past {
            nonce: 0,
            price: (3, 20_000_000_000),
            held: 100,
            announced: BTreeSet::new(),
            delivered: BTreeSet::new(),
            paused: false,
            nominee: None,
            default_gas: 50,
        },
    })
}
fn step(s: &S, a: &A, all: &[I], cov: &mut Cov) -> Res<Option<S>> {
    let mut s = s.clone();
    let (who, list) = match a {
        A::Alice(i) => (s.n.alice.clone(), vec![*i]),
        A::Agent(l) => (s.n.agent.clone(), l.clone()),
    };
    let mut wants = vec![];
    let mut emits: Vec<Emit> = vec![];
    let mut failing = 0;
    for i in &list {
        // a claim of nothing is not judged
        if all[*i] == I::Collect && s.p.held == 0 {
            return Ok(None);
        }
        let mut p = s.p.clone();
        let (to, m, f, w) = plan(&s.n, &mut p, &all[*i], &who);
        let ff: Vec<(&str, u128)> = f.iter().map(|(d, a)| (d.as_str(), *a)).collect();
        match w {
            Some(w) => {
                wants.extend(w);
                s.p = p;
            }
            None => failing += 1,
        }
        if let A::Alice(_) = a {
            let t = s.ch.exec(&who, &to, &m, &ff);
            ensure_eq!(t.ok(), failing == 0, "{:?} by alice ({})", all[*i], t.err());
            reported(&t, &wants, &format!("{:?} by alice", all[*i]))?;
            cov.hit(if t.ok() { "reported" } else { "nothing" });
        } else {
            emits.push(emit_f(&to, &m, &ff, true));
        }
    }
    if let A::Agent(_) = a {
        let t = s.ch.exec(&s.n.alice.clone(), &who, &relay(&emits), &[]);
        let what = format!("{:?}", list.iter().map(|i| &all[*i]).collect::<Vec<_>>());
        ensure!(t.ok(), "{what}: {}", t.err());
        reported(&t, &wants, &what)?;
        cov.hit(if wants.is_empty() { "nothing" } else { "reported" });
        if failing > 0 && failing < list.len() {
            cov.hit("some fail");
        }
    }
    Ok(Some(s))
}
struct M {
    all: Vec<I>,
    pairs: bool,
}
impl Model for M {
    type S = S;
    type A = A;
    fn init(&self) -> Res<Vec<(String, S)>> {
        Ok(vec![("network".into(), start()?)])
    }
    fn actions(&self, _: &S) -> Vec<A> {
        let k = self.all.len();
        let mut v: Vec<A> = vec![];
        for i in 0..k {
            v.push(A::Alice(i));
            v.push(A::Agent(vec![i]));
        }
        if self.pairs {
            v.extend(seqs(k, 2).into_iter().filter(|l| l.len() == 2).map(A::Agent));
        }
        v
    }
    fn step(&self, s: &S, a: &A, cov: &mut Cov) -> Res<Step<S>> {
        Ok(match step(s, a, &self.all, cov)? {
            Some(s) => Step::Next(s),
            None => Step::Same,
        })
    }
    fn key(&self, s: &S) -> u128 {
        s.ch.key() ^ dig(&s.p)
    }
    fn check(&self, s: &S, _: &mut Cov) -> Res<()> {
        // the events made a tree: the one the contract has
        let v = s.ch.query(&s.n.merkle, &json!({"merkle_hook": {"count": {}}}))?;
        ensure_eq!(v["count"], json!(s.p.nonce), "leaves");
        ensure_eq!(s.ch.bal(&s.n.igp, GAS), s.p.held, "held by the paymaster");
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["reported", "nothing"]
    }
}

// ------------------------------------------------------------ values

#[derive(Clone, Debug)]
struct P {
    entry: u8,
    gas: u128,
    price: (u128, u128),
    over: u128,
    dest: u32,
    payer: u8,
    body: usize,
}
fn pays(b: &(Chain, Arc<Net>), k: &P, cov: &mut Cov) -> Res<u128> {
    let (mut ch, n) = (b.0.clone(), b.1.clone());
    call(
        &mut ch,
        &n.agent,
        &n.oracle,
        json!({"set_remote_gas_data": {"config": {"remote_domain": k.dest,
            "token_exchange_rate": k.price.1.to_string(), "gas_price": k.price.0.to_string()}}}),
    )?;
    call(&mut ch, &n.agent, &n.igp, set_route(k.dest, Some(&n.oracle)))?;
    call(&mut ch, &n.agent, &n.igp, json!({"set_default_gas": {"gas": k.gas.to_string()}}))?;
    let who = match k.payer {
        0 => n.alice.clone(),
        1 => b32(HRP, &fill("contract payer", 32)),
        _ => b32(HRP, &[0xff; 20]),
    };
    let c = price(k.price, k.gas);
    ensure!(k.entry < 6, "entry");
    let paid = c + k.over;
    ch.fund(&who, GAS, paid);
    ch.fund(&who, "ufee", 3);
    let m = Msg {
        version: 3,
        nonce: 0,
        origin: LOCAL,
        sender: h256(&who),
        dest: k.dest,
        recipient: fill32("far"),
        body: vec![0xab; k.body],
    };
    let id = m.id();
    let gas52 = [u256(k.gas).to_vec(), fill("refund", 20)].concat();
    let gas64 = [u256(k.gas).to_vec(), fill("refund", 32)].concat();
    let meta: &[u8] = match k.entry {
        1 | 3 => &gas52,
        4 => &gas64,
        5 => b"short",
        _ => b"",
    };
    let pay = |by: &str| {
        let p = Pay {
            by,
            dest: k.dest,
            id: &id,
            gas: k.gas.to_string(),
            price: c,
            paid,
        };
        let mut w = vec![];
        match k.entry {
            0 => w.push(pay_want(&n.igp, &p)),
            _ => hook_wants(&n.igp, meta, &m, &p, &mut w),
        }
        w
    };
    let (to, x, f, w) = match k.entry {
        0 => (
            &n.igp,
            json!({"pay_for_gas": {"message_id": hx(&id), "dest_domain": k.dest,
                "gas_amount": k.gas.to_string(), "refund_address": n.recipient}}),
            coins(&[(GAS, paid)]),
            pay(&who),
        ),
        // as a hook, called directly
        1 | 4 | 5 => (&n.igp, post_dispatch(meta, &m.enc()), coins(&[(GAS, paid)]), pay(&who)),
        // as a hook of the mailbox
        _ => {
            let mut w = vec![];
            dispatch_wants(&n, &m, &mut w);
            w.extend(pay(&n.mb));
            (
                &n.mb,
                dispatch_msg(k.dest, &m.recipient, &m.body, None, if meta.is_empty() { None } else { Some(meta) }),
                coins(&[("ufee", 3), (GAS, paid)]),
                w,
            )
        }
    };
    let t = try_call(&mut ch, &who, to, &x, &f);
    ensure!(t.ok(), "payment failed: {}", t.err());
    reported(&t, &w, "payment")?;
    cov.hit(["direct", "as a hook", "by the mailbox", "by the mailbox", "as a hook", "as a hook"][k.entry as usize]);
    // and what is claimed then
    let held = ch.bal(&n.igp, GAS);
    ensure_eq!(held, c, "held");
    if held > 0 {
        let t = ch.exec(&n.agent, &n.igp, &json!({"claim": {}}), &[]);
        ensure!(t.ok(), "claim: {}", t.err());
        let w = want(
            &n.igp,
            "igp-core-claim",
            &[("beneficiary", n.agent.clone()), ("collected", format!("{c}{GAS}"))],
        );
        reported(&t, &[w], "claim")?;
    }
    Ok(ch.key())
}

fn any_message(b: &(Chain, Arc<Net>), k: &K, cov: &mut Cov) -> Res<u128> {
    let n = &b.1;
    let mut m = Msg { version: 3, nonce: 0, ..message(k, &[n.alice.clone(), n.mb.clone(), n.merkle.clone(), n.agent.clone()]) };
    // any account may be the sender
    let (mut ch, who) = (b.0.clone(), addr_of(HRP, &m.sender));
    m.sender = h256(&who);
    m.origin = LOCAL;
    ch.fund(&who, "ufee", 3);
    let meta = fill("meta", k.4);
    let d = dispatch_msg(m.dest, &m.recipient, &m.body, Some(&n.quiet), (k.4 % 2 == 1).then_some(&meta[..]));
    let mut w = vec![];
    dispatch_wants(n, &m, &mut w);
    let t = ch.exec(&who, &n.mb, &d, &[("ufee", 3)]);
    ensure!(t.ok(), "dispatch: {}", t.err());
    reported(&t, &w, "dispatch")?;
    cov.hit("dispatched");
    // from anywhere, by and to the probes
    let mut m = message(k, &[n.recipient.clone(), n.mb.clone(), n.agent.clone(), n.quiet.clone()]);
    m.version = 3;
    m.dest = LOCAL;
    let to = if k.3 % 2 == 0 { &n.recipient } else { &n.agent };
    m.recipient = h256(to);
    let w = [
        want(&n.mb, "mailbox_process_id", &[("message_id", hx(&m.id()))]),
        want(
            &n.mb,
            "mailbox_process",
            &[("origin", m.origin.to_string()), ("sender", hx(&m.sender)), ("recipient", hx(&m.recipient))],
        ),
    ];
    let t = ch.exec(&who, &n.mb, &process_msg(&meta, &m.enc()), &[]);
    ensure!(t.ok(), "delivery: {}", t.err());
    reported(&t, &w, "delivery")?;
    cov.hit("delivered");
    Ok(ch.key())
}

#[derive(Clone, Debug)]
struct T {
    kind: usize,
    amount: u128,
    rec: usize,
    who: usize,
    hook: bool,
    meta: Option<usize>,
    dest: u32,
    /// attached beyond what is transferred and due: of the token, of another denomination
    over: (u128, u128),
}
fn recs() -> Vec<[u8; 32]> {
    vec![
        fill32("someone"),
        pad32(&fill("account", 20)),
        [0xff; 32],
        pad32(&[9]),
        {
            let mut z = fill32("low zeroes");
            z[20..].fill(0);
            z
        },
    ]
}
fn whos(ch: &Chain) -> Vec<String> {
    vec![ch.user("alice"), b32(HRP, &fill("a contract", 32)), b32(HRP, &[0xff; 20])]
}
fn transfers(b: &(Chain, Arc<Net>), k: &T, cov: &mut Cov) -> Res<u128> {
    let (mut ch, n) = (b.0.clone(), b.1.clone());
    let r = &n.routes[k.kind];
    let rec = recs()[k.rec];
    call(&mut ch, &n.agent, &r.addr, enroll(k.dest, Some(&fill32(ROUTER))))?;
    // in
    let m = Msg {
        version: 3,
        nonce: 9,
        origin: k.dest,
        sender: fill32(ROUTER),
        dest: LOCAL,
        recipient: h256(&r.addr),
        body: body(&rec, &u256(k.amount), b""),
    };
    let relayer = whos(&ch)[k.who].clone();
    let meta = k.meta.map(|n| vec![0x5a; n]);
    let mut c2 = ch.clone();
    if !r.kind.bridged && k.amount > 1 << 90 {
        return Ok(0);
    }
    let t = c2.exec(&relayer, &n.mb, &process_msg(meta.as_deref().unwrap_or(b""), &m.enc()), &[]);
    ensure!(t.ok(), "delivery: {}", t.err());
    reported(&t, &in_wants(&n, k.kind, &m), "delivery")?;
    // and out
    let who = &relayer;
    if k.amount <= 1 << 90 {
        if *who != n.alice {
            r.give(&mut ch, who, k.amount);
            r.approve(&mut ch, who, k.amount);
            ch.fund(who, "ufee", 3);
        }
        let m = Msg {
            version: 3,
            nonce: 0,
            origin: LOCAL,
            sender: h256(&r.addr),
            dest: k.dest,
            recipient: fill32(ROUTER),
            body: body(&rec, &u256(k.amount), b""),
        };
        let hook = if k.hook { &n.quiet } else { &n.module };
        let x = transfer_msg(k.dest, &rec, k.amount, Some(hook), meta.as_deref());
        let mut more = coins(&[("ufee", 3 + k.over.1)]);
        if !r.kind.cw20 {
            more.push((r.token.clone(), k.over.0));
            ch.fund(who, &r.token, k.over.0);
        }
        ch.fund(who, "ufee", k.over.1);
        let f = r.funds(k.amount, &coins_sum(&[more]));
        let t = try_call(&mut ch, who, &r.addr, &x, &f);
        ensure!(t.ok(), "transfer: {}", t.err());
        let mut w = vec![];
        dispatch_wants(&n, &m, &mut w);
        let mut o = out_want(r, who, &rec, k.amount, Some(hook), meta.as_deref());
        if r.kind.cw20 {
            o.at.insert("dest_domain".into(), k.dest.to_string());
        }
        w.push(o);
        reported(&t, &w, "transfer")?;
    }
    cov.hit(if r.kind.cw20 { "cw20" } else { "native" });
    Ok(ch.key() ^ c2.key().rotate_left(1))
}

#[derive(Clone, Debug)]
struct F {
    fee: u128,
    over: u128,
    denom: &'static str,
    /// called directly, default hook, requested hook
    entry: u8,
    payer: u8,
    body: usize,
}
fn protocol_fees(b: &(Chain, Arc<Net>), k: &F, cov: &mut Cov) -> Res<u128> {
    let (mut ch, n) = (b.0.clone(), b.1.clone());
    let h = inst(
        &mut ch,
        "hook_fee",
        &n.agent,
        json!({"owner": n.agent, "fee": {"denom": k.denom, "amount": k.fee.to_string()}}),
    )?;
    let who = whos(&ch)[k.payer as usize].clone();
    let paid = k.fee + k.over;
    ch.fund(&who, k.denom, paid);
    ch.fund(&who, "ufee", 3);
    let m = Msg {
        version: 3,
        nonce: 0,
        origin: LOCAL,
        sender: h256(&who),
        dest: DEST,
        recipient: fill32("far"),
        body: vec![1; k.body],
    };
    let mut w = vec![];
    let (to, x, f) = match k.entry {
        0 => (&h, post_dispatch(b"meta", &m.enc()), coins(&[(k.denom, paid)])),
        e => {
            if e == 1 {
                call(&mut ch, &n.agent, &n.mb, json!({"set_default_hook": {"hook": h}}))?;
            }
            dispatch_wants(&n, &m, &mut w);
            let d = dispatch_msg(DEST, &m.recipient, &m.body, (e == 2).then_some(h.as_str()), Some(b"meta"));
            (&n.mb, d, coins_sum(&[coins(&[(k.denom, paid)]), coins(&[("ufee", 3)])]))
        }
    };
    w.push(want(
        &h,
        "hpl_hook_fee::post_dispatch",
        &[("paid_denom", k.denom.into()), ("paid_amount", paid.to_string())],
    ));
    let t = try_call(&mut ch, &who, to, &x, &f);
    ensure!(t.ok(), "fee payment failed: {}", t.err());
    reported(&t, &w, "fee payment")?;
    cov.hit(if k.entry == 0 { "direct" } else { "by the mailbox" });
    Ok(ch.key())
}

fn announces(b: &(Chain, Arc<Net>), (v, l, who): &(usize, String, usize), cov: &mut Cov) -> Res<u128> {
    let (mut ch, n) = (b.0.clone(), b.1.clone());
    let k = Key::new(&format!("announcer {v}"));
    let sig = k.sign(&digest_of(LOCAL, &h256(&n.mb), l.as_bytes(), 0));
    let who = whos(&ch)[*who].clone();
    let t = ch.exec(&who, &n.va, &announce(&k.addr, l, &sig), &[]);
    ensure!(t.ok(), "announcement: {}", t.err());
    let w = want(
        &n.va,
        "validator-announcement",
        &[("sender", who.clone()), ("validator", hx(&k.addr)), ("storage-location", l.clone())],
    );
    reported(&t, &[w], "announcement")?;
    let t = ch.exec(&who, &n.va, &announce(&k.addr, l, &sig), &[]);
    ensure!(!t.ok(), "announced twice");
    reported(&t, &[], "repeated announcement")?;
    cov.hit("announced");
    Ok(ch.key())
}

/// one change of a setting: contract, message, event, attributes
type Change = (String, Value, String, Vec<(&'static str, String)>);
fn changes(ch: &mut Chain, n: &Net) -> Res<Vec<Change>> {
    let a = &n.agent;
    let mut v: Vec<Change> = vec![];
    let addrs = [n.quiet.clone(), ch.user("x"), b32(HRP, &[0xff; 20])];
    let list = |l: &[String]| l.join(",");
    for x in &addrs {
        for (m, e, k) in [
            ("set_default_ism", "mailbox_default_ism_set", "new_default_ism"),
            ("set_default_hook", "mailbox_default_hook_set", "new_default_hook"),
            ("set_required_hook", "mailbox_required_hook_set", "new_required_hook"),
        ] {
            let f = if m.ends_with("ism") { "ism" } else { "hook" };
            v.push((n.mb.clone(), json!({m: {f: x}}), e.into(), vec![("owner", a.clone()), (k, x.clone())]));
        }
        v.push((
            n.igp.clone(),
            json!({"set_beneficiary": {"beneficiary": x}}),
            "igp-core-set-beneficiary".into(),
            vec![("owner", a.clone()), ("beneficiary", x.clone())],
        ));
        for r in &n.routes {
            for (m, k) in [("set_mailbox", "mailbox"), ("set_hook", "hook"), ("set_ism", "ism")] {
                v.push((
                    r.addr.clone(),
                    json!({"connection": {m: {k: x}}}),
                    format!("hpl_connection::{m}"),
                    vec![(k, x.clone())],
                ));
            }
        }
    }
    for g in [0, 1, u64::MAX as u128, 1 << 64, u128::MAX] {
        v.push((
            n.igp.clone(),
            json!({"set_default_gas": {"gas": g.to_string()}}),
            "igp-core-set-default-gas".into(),
            vec![("owner", a.clone()), ("default-gas", g.to_string())],
        ));
        for d in ["ufee", "zzz"] {
            v.push((
                n.fee.clone(),
                json!({"fee_hook": {"set_fee": {"fee": {"denom": d, "amount": g.to_string()}}}}),
                "hpl_hook_fee::set_fee".into(),
                vec![("fee_denom", d.into()), ("fee_amount", g.to_string())],
            ));
        }
    }
    // contracts which are not part of the network
    let ri = inst(ch, "ism_routing", a, json!({"owner": a, "isms": []}))?;
    let ch_ = inst(ch, "hook_routing_custom", a, json!({ "owner": a }))?;
    let doms: Vec<Vec<u32>> = vec![vec![0], vec![u32::MAX], vec![DEST, 1], vec![1, DEST], vec![5, 5], (0..12).collect()];
    for l in &doms {
        let s = l.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(",");
        v.push((
            n.igp.clone(),
            json!({"unset_gas_for_domain": {"domains": l}}),
            "igp-core-unset-gas-for-domain".into(),
            vec![("owner", a.clone()), ("domains", s.clone())],
        ));
        v.push((
            ri.clone(),
            json!({"unset": {"domains": l}}),
            "hpl_ism_routing::unset".into(),
            vec![("sender", a.clone()), ("domains", s.clone())],
        ));
        let cfg: Vec<Value> = l.iter().map(|d| json!([d, "7"])).collect();
        v.push((
            n.igp.clone(),
            json!({"set_gas_for_domain": {"config": cfg}}),
            "igp-core-set-gas-for-domain".into(),
            vec![("owner", a.clone()), ("domains", s.clone())],
        ));
        let data: Vec<Value> = l
            .iter()
            .map(|d| json!({"remote_domain": d, "token_exchange_rate": "1", "gas_price": "1"}))
            .collect();
        v.push((
            n.oracle.clone(),
            json!({"set_remote_gas_data_configs": {"configs": data}}),
            "set-gas-configs".into(),
            vec![("owner", a.clone()), ("domains", s.clone())],
        ));
        v.push((
            n.oracle.clone(),
            json!({"set_remote_gas_data": {"config": data[0]}}),
            "set-gas-config".into(),
            vec![("domain", l[0].to_string())],
        ));
    }
    let ms = inst(ch, "ism_multisig", a, json!({ "owner": a }))?;
    let ai = inst(ch, "ism_aggregate", a, json!({"owner": a, "isms": [n.module], "threshold": 1}))?;
    let ah = inst(ch, "hook_aggregate", a, json!({"owner": a, "hooks": [n.quiet]}))?;
    let fh = inst(ch, "hook_routing_fallback", a, json!({ "owner": a }))?;
    for d in [0u32, 7, u32::MAX] {
        v.push((
            ms.clone(),
            json!({"unset_domain": {"domain": d}}),
            "ism_multisig_unset_domain".into(),
            vec![("domain", d.to_string())],
        ));
        for r in [fill32("custom recipient"), [0; 32], [0xff; 32]] {
            let keys = format!("[\"{d}:{}\"]", hx(&r));
            let two = format!("[\"{d}:{}\",\"{d}:{}\"]", hx(&r), hx(&[7; 32]));
            let reg = |r: &[u8]| json!({"dest_domain": d, "recipient": hx(r), "hook": n.quiet});
            let key = |r: &[u8]| json!({"dest_domain": d, "recipient": hx(r)});
            for (m, e, k) in [
                (json!({"register_custom_hook": reg(&r)}), "register", &keys),
                (json!({"register_custom_hooks": [reg(&r), reg(&[7; 32])]}), "register", &two),
                (json!({"clear_custom_hook": key(&r)}), "clear", &keys),
                (json!({"clear_custom_hooks": [key(&r), key(&[7; 32])]}), "clear", &two),
            ] {
                v.push((
                    ch_.clone(),
                    m,
                    format!("hpl_hook_routing_custom::{e}"),
                    vec![("sender", a.clone()), ("keys", k.clone())],
                ));
            }
        }
        for x in [Some(&addrs[0]), Some(&addrs[2]), None] {
            let j = x.map_or("null".to_string(), |x| format!("\"{x}\""));
            let one = format!("{{\"domain\":{d},\"route\":{j}}}");
            v.push((
                n.igp.clone(),
                set_route(d, x.map(|s| s.as_str())),
                "hpl_router::set_route".into(),
                vec![("sender", a.clone()), ("set", one.clone())],
            ));
            v.push((
                n.igp.clone(),
                json!({"router": {"set_routes": {"set": [{"domain": d, "route": x}, {"domain": 3, "route": null}]}}}),
                "hpl_router::set_routes".into(),
                vec![("sender", a.clone()), ("set", format!("[{one},{{\"domain\":3,\"route\":null}}]"))],
            ));
        }
        for (k, t) in [(1usize, 1u8), (3, 2), (12, 12)] {
            let vs: Vec<String> = (0..k).map(|i| hx(&fill(&format!("validator {i}"), 20))).collect();
            v.push((
                ms.clone(),
                json!({"set_validators": {"domain": d, "threshold": t, "validators": vs}}),
                "ism_multisig_set_validators".into(),
                vec![
                    ("sender", a.clone()),
                    ("domain", d.to_string()),
                    ("validators", k.to_string()),
                    ("threshold", t.to_string()),
                ],
            ));
        }
        for x in &addrs {
            v.push((
                ri.clone(),
                json!({"set": {"ism": {"domain": d, "address": x}}}),
                "hpl_ism_routing::set".into(),
                vec![("sender", a.clone()), ("domain", d.to_string()), ("ism", x.clone())],
            ));
        }
    }
    for n in 1..=3 {
        let l = addrs[..n].to_vec();
        v.push((
            ah.clone(),
            json!({"set_hooks": {"hooks": l}}),
            "hpl_hook_aggregate::set_hooks".into(),
            vec![("sender", a.clone()), ("hooks", list(&l))],
        ));
        v.push((
            ai.clone(),
            json!({"set_isms": {"isms": l, "threshold": 1}}),
            "hpl_ism_aggregate::set_isms".into(),
            vec![("isms", list(&l))],
        ));
        v.push((
            fh.clone(),
            json!({"set_fallback_hook": {"hook": addrs[n - 1]}}),
            "hpl_hook_routing::set_fallback_hook".into(),
            vec![("sender", a.clone()), ("fallback-hook", addrs[n - 1].clone())],
        ));
    }
    Ok(v)
}

type B = (Chain, Arc<Net>);
fn base() -> Res<B> {
    let (ch, n) = net()?;
    Ok((ch, Arc::new(n)))
}
fn base_settings() -> Res<(Chain, Arc<Net>, Arc<Vec<Change>>)> {
    let (mut ch, n) = net()?;
    let v = changes(&mut ch, &n)?;
    Ok((ch, Arc::new(n), Arc::new(v)))
}

pub fn e01(c: &mut Ctx) {
    c.assume("further attributes and events of other kinds are not judged; claims of an empty balance are left out");
    let all = items();
    // everything that can happen in one transaction
    let depth = c.pick(3, 4);
    let k = all.len();
    let few: Vec<Vec<usize>> = seqs(k, depth).into_iter().filter(|l| l.len() > 1).collect();
    // depth 4 only over the items that may influence one another
    let few: Vec<Vec<usize>> = few
        .into_iter()
        .filter(|l| l.len() < 4 || l.iter().all(|i| i % 3 == l[0] % 3))
        .collect();
    let a2 = all.clone();
    c.cases("one transaction", start, few, &["reported", "some fail"], move |s: &S, l, cov| {
        Ok(step(s, &A::Agent(l.clone()), &a2, cov)?.map_or(0, |s| s.ch.key()))
    });
    c.run(
        "histories",
        &M {
            all: all.clone(),
            pairs: false,
        },
        c.pick(3, 4),
        40_000_000,
    );
    c.run("histories of pairs", &M { all, pairs: true }, 2, 40_000_000);

    // messages whose fields take special values, out and in
    let v: Vec<K> = kinds(c).into_iter().filter(|k| c.thorough() || (k.0 + k.1 + k.4) % 3 == 0).collect();
    c.cases("messages of every kind", base, v, &["dispatched", "delivered"], any_message);

    let mut v = vec![];
    let top = 1u128 << 126;
    for gas in [0u128, 1, 50, 300_000, u64::MAX as u128, 1 << 64, (1 << 100) + 1] {
        for price in [(0, 10_000_000_000), (1, 10_000_000_000), (3, 20_000_000_001), (1 << 20, 1), (7, 1), (1_000, 10_000_000_000), (50_000, 1_000_000)] {
            for over in [0u128, 1, 99, 1_000_000, 1 << 64, 1 << 110] {
                for entry in 0..6u8 {
                    for dest in [DEST, 0, u32::MAX] {
                        for payer in 0..3u8 {
                            for body in [0usize, 1, 700] {
                                let Some(x) = to_u128(&ref_price(&u256(gas), price.0, price.1)) else { continue };
                                // the first values of each with all others
                                let odd = (dest != DEST) as u8 + (payer != 0) as u8 + (body != 1) as u8;
                                if x > top || odd > 1 && !c.thorough() {
                                    continue;
                                }
                                v.push(P {
                                    entry,
                                    gas,
                                    price,
                                    over,
                                    dest,
                                    payer,
                                    body,
                                });
                            }
                        }
                    }
                }
            }
        }
    }
    for n in sizes(c.thorough()) {
        for entry in [1, 2, 3] {
            v.push(P { entry, gas: 50, price: (1, 10_000_000_000), over: 1, dest: DEST, payer: 0, body: n });
        }
    }
    c.cases("payments", base, v, &["direct", "as a hook", "by the mailbox"], pays);

    let mut v = vec![];
    for kind in 0..KINDS.len() {
        for amount in [1u128, 10, 1000, 1_000_000, 1_000_000_000_000_000_000, 255, u32::MAX as u128 + 1, u64::MAX as u128, 1 << 64, (1 << 89) + 1, 1 << 100, 1 << 126] {
            for rec in 0..recs().len() {
                for who in 0..3 {
                    for hook in [true, false] {
                        for meta in [None, Some(1usize), Some(40), Some(700)] {
                            for dest in [DEST, 0, u32::MAX] {
                                let odd = (rec != 0) as u8 + (who != 0) as u8 + (meta.is_some()) as u8 + (dest != DEST) as u8;
                                if odd > 1 && !c.thorough() {
                                    continue;
                                }
                                for over in [(0, 0), (1, 0), (0, 1), (amount, 5), (1 << 64, 1 << 64)] {
                                    if odd > 0 && over.0 > 1 && !c.thorough() {
                                        continue;
                                    }
                                    v.push(T {
                                        kind,
                                        amount,
                                        rec,
                                        who,
                                        hook,
                                        meta,
                                        dest,
                                        over,
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    c.cases("transfers", base, v, &["cw20", "native"], transfers);

    let mut v = vec![];
    let top = 1u128 << 126;
    for fee in [1u128, 2, 3, 1000, 1_000_000, u64::MAX as u128, 1 << 64, top] {
        for over in [0u128, 1, 2, 999, 1 << 64, top] {
            for denom in ["ufee", "ufe", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2"] {
                for entry in 0..3u8 {
                    for payer in 0..3u8 {
                        for body in [0usize, 1, 700] {
                            v.push(F {
                                fee,
                                over,
                                denom,
                                entry,
                                payer,
                                body,
                            });
                        }
                    }
                }
            }
        }
    }
    c.cases("protocol fees", base, v, &["direct", "by the mailbox"], protocol_fees);

    let mut v = vec![];
    for k in 0..3 {
        for l in [
            "s3://bucket/a", "S3://BUCKET/A", " ", " a", "a ", "a,b", "a\nb", "\"quoted\"", "{}", "ü", "日本", "a//b/", "0x00", "\u{0}",
        ] {
            for who in 0..3 {
                v.push((k, l.to_string(), who));
            }
        }
        v.push((k, "x".repeat(5000), 0));
    }
    c.cases("announcements", base, v, &["announced"], announces);

    let n = c.setup(base_settings).2.len();
    let mut v = vec![];
    for i in 0..n {
        for j in 0..n + 1 {
            v.push((i, j));
        }
    }
    c.cases(
        "settings",
        base_settings,
        v,
        &["changed"],
        |(ch, n, l): &(Chain, Arc<Net>, Arc<Vec<Change>>), (i, j), cov: &mut Cov| {
            let mut ch = ch.clone();
            let mut both = vec![*i];
            if *j < l.len() {
                both.push(*j);
            }
            let mut wants = vec![];
            let mut emits = vec![];
            for k in both {
                let (to, m, ty, at) = &l[k];
                let t = ch.clone().exec(&n.alice, to, m, &[]);
                ensure!(!t.ok(), "{m} by a stranger");
                emits.push(emit(to, m, false));
                wants.push(want(to, ty, at));
            }
            let t = ch.exec(&n.alice, &n.agent, &relay(&emits), &[]);
            ensure!(t.ok(), "settings: {}", t.err());
            reported(&t, &wants, "settings")?;
            cov.hit("changed");
            Ok(ch.key() ^ dig(&(i, j)))
        },
    );
}
