//! X02: compositions of the provided security modules, and the relayer that follows their queries.
use crate::chain::{b32, h256, Chain};
use crate::explore::{Cov, CovExt, Ctx, Model, Res, Step};
use crate::util::*;
use crate::{ensure, ensure_eq};
use serde_json::json;
use std::sync::OnceLock;

const LOCAL: u32 = 0x01fe_0304;
/// two origins that modules are configured for, and one that none is
pub(super) const ORIGINS: [u32; 3] = [0x0a0b_0c0d, 0x0d0c_0b0a, 7];
pub(super) const KEYS: usize = 3;

/// a composition of modules
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub(super) enum I {
    /// validators (bits) and threshold; for the second origin the next validators
    Multi(u8, usize),
    Pause(bool),
    Agg(usize, Vec<I>),
    /// the module for each origin
    Route([Option<Box<I>>; 2]),
}

fn turned(mask: u8, o: usize) -> u8 {
    if o == 0 {
        mask
    } else {
        (mask << 1 | mask >> (KEYS - 1)) & ((1 << KEYS) - 1)
    }
}

/// whether the module accepts a message from origin o that `signers` signed, by definition
pub(super) fn accepts(i: &I, o: usize, signers: u8) -> bool {
    match i {
        I::Multi(mask, t) => o < 2 && (turned(*mask, o) & signers).count_ones() as usize >= *t,
        I::Pause(p) => !p,
        I::Agg(t, v) => v.iter().filter(|i| accepts(i, o, signers)).count() >= *t,
        I::Route(r) => r.get(o).and_then(|r| r.as_ref()).map_or(false, |i| accepts(i, o, signers)),
    }
}

fn message(o: usize, rec: &str) -> Msg {
    Msg {
        version: 3,
        nonce: 0x0102_0305 + o as u32,
        origin: ORIGINS[o],
        sender: fill32("sender"),
        dest: LOCAL,
        recipient: h256(rec),
        body: b"composed".to_vec(),
    }
}

pub(super) fn keys() -> &'static Vec<Key> {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| (0..KEYS).map(|i| Key::new(&format!("composed validator {i}"))).collect())
}

/// what the validators attest a message with
pub(super) struct Checkpoint {
    pub tree: [u8; 32],
    pub root: [u8; 32],
    pub index: u32,
}
fn some_checkpoint() -> Checkpoint {
    Checkpoint {
        tree: fill32("tree"),
        root: fill32("root"),
        index: 9,
    }
}
/// signatures of every validator over the checkpoint of this message
pub(super) fn signatures(m: &Msg, cp: &Checkpoint) -> Vec<[u8; 65]> {
    let d = checkpoint_digest(m.origin, &cp.tree, &cp.root, cp.index, &m.id());
    keys().iter().map(|k| k.sign(&d)).collect()
}

pub(super) fn put(ch: &mut Chain, owner: &str, i: &I) -> Res<String> {
    Ok(match i {
        I::Multi(mask, t) => {
            let a = inst(ch, "ism_multisig", owner, json!({"owner": owner}))?;
            for o in 0..2 {
                configure(ch, owner, &a, o, Some((*mask, *t)))?;
            }
            a
        }
        I::Pause(p) => inst(ch, "ism_pausable", owner, json!({"owner": owner, "paused": p}))?,
        I::Agg(t, v) => {
            let l = v.iter().map(|i| put(ch, owner, i)).collect::<Res<Vec<_>>>()?;
            inst(ch, "ism_aggregate", owner, json!({"owner": owner, "isms": l, "threshold": t}))?
        }
        I::Route(r) => {
            let mut l = vec![];
            for (o, i) in r.iter().enumerate() {
                if let Some(i) = i {
                    l.push(json!({"domain": ORIGINS[o], "address": put(ch, owner, i)?}));
                }
            }
            inst(ch, "ism_routing", owner, json!({"owner": owner, "isms": l}))?
        }
    })
}

fn configure(ch: &mut Chain, owner: &str, a: &str, o: usize, set: Option<(u8, usize)>) -> Res<()> {
    let m = match set {
        Some((mask, t)) => {
            let v: Vec<String> = (0..KEYS).filter(|k| turned(mask, o) >> k & 1 == 1).map(|k| hx(&keys()[k].addr)).collect();
            json!({"set_validators": {"domain": ORIGINS[o], "threshold": t, "validators": v}})
        }
        None => json!({"unset_domain": {"domain": ORIGINS[o]}}),
    };
    call(ch, owner, a, m)?;
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub(super) enum Way {
    /// members of an aggregate that would accept, from the first on, as many as needed
    First,
    /// the same from the last on
    Last,
    /// everything there is for every member, whether it suffices or not
    All,
}

/// The metadata a relayer makes who knows nothing but what the modules' queries tell, and holds
/// these signatures. None: it finds that they do not suffice.
pub(super) fn relayer(ch: &Chain, at: &str, m: &Msg, cp: &Checkpoint, sigs: &[[u8; 65]], signers: u8, way: Way) -> Res<Option<Vec<u8>>> {
    let bytes = m.enc();
    let ty = ch.query(at, &json!({"ism": {"module_type": {}}})).map_err(|e| format!("type of {at}: {e}"))?;
    let info = || ch.query(at, &json!({"ism": {"verify_info": {"message": hx(&bytes)}}}));
    let list = |v: &serde_json::Value| -> Res<(usize, Vec<Vec<u8>>)> {
        let t = v["threshold"].as_u64().ok_or(format!("verification info {v}"))? as usize;
        let l = v["validators"].as_array().ok_or(format!("verification info {v}"))?;
        Ok((t, l.iter().map(|x| unhx(x.as_str().unwrap_or(""))).collect()))
    };
    match ty["type"].as_str() {
        Some("null") => Ok(Some(vec![])),
        Some("message_id_multisig") => {
            let Ok(v) = info() else { return Ok(None) };
            let (t, vals) = list(&v)?;
            let mut have = vec![];
            for val in &vals {
                if let Some(k) = (0..KEYS).find(|k| keys()[*k].addr.as_slice() == val.as_slice()) {
                    if signers >> k & 1 == 1 {
                        have.push(sigs[k]);
                    }
                }
            }
            if way != Way::All {
                if have.len() < t {
                    return Ok(None);
                }
                if way == Way::Last {
                    have = have.split_off(have.len() - t);
                }
                have.truncate(t);
            }
            Ok(Some(multisig_meta(&cp.tree, &cp.root, cp.index, &have)))
        }
        Some("aggregation") => {
            let (t, members) = list(&info().map_err(|e| format!("verification info of the aggregate: {e}"))?)?;
            let n = members.len();
            let mut sec: Vec<Option<Vec<u8>>> = vec![];
            for a in &members {
                sec.push(relayer(ch, &b32(&ch.hrp, a), m, cp, sigs, signers, way)?);
            }
            if way != Way::All {
                // only members that accept, tried out one by one, and no more than needed
                let mut order: Vec<usize> = (0..n).collect();
                if way == Way::Last {
                    order.reverse();
                }
                let mut left = t;
                for i in order {
                    let fine = left > 0
                        && sec[i].as_ref().map_or(false, |s| verdict(ch, &b32(&ch.hrp, &members[i]), s, &bytes));
                    if fine {
                        left -= 1;
                    } else {
                        sec[i] = None;
                    }
                }
                if left > 0 {
                    return Ok(None);
                }
            }
            // sections left out have no place
            let (mut head, mut tail): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
            for s in &sec {
                let (a, b) = match s {
                    None => (0, 0),
                    Some(s) => {
                        let a = 8 * n + tail.len();
                        tail.extend(s);
                        (a, a + s.len())
                    }
                };
                head.extend((a as u32).to_be_bytes());
                head.extend((b as u32).to_be_bytes());
            }
            head.extend(tail);
            Ok(Some(head))
        }
        Some("routing") => {
            let r = ch.query(at, &json!({"routing_ism": {"route": {"message": hx(&bytes)}}}));
            let Ok(r) = r else { return Ok(None) };
            let to = str_of(&r, "ism");
            // the routed module's information is given through the routing module too
            let direct = ch.query(&to, &json!({"ism": {"verify_info": {"message": hx(&bytes)}}})).ok();
            ensure_eq!(info().ok(), direct, "verification info through the routing module");
            relayer(ch, &to, m, cp, sigs, signers, way)
        }
        _ => Err(format!("type of {at}: {ty}")),
    }
}

#[derive(Clone)]
struct W {
    ch: Chain,
    mb: String,
    owner: String,
    /// recipients that name no module, and one of their own
    plain: String,
    named: String,
}

fn world() -> Res<W> {
    let mut ch = Chain::new("osmo");
    let owner = ch.user("owner");
    let b = basic(&mut ch, &owner, LOCAL)?;
    let plain = probe(&mut ch, |_| ());
    let named = probe(&mut ch, |_| ());
    Ok(W {
        ch,
        mb: b.mb,
        owner,
        plain,
        named,
    })
}

/// every origin and every set of signers: what the relayer makes is accepted if and only if the
/// composition says so
fn judge(w: &W, rec: &str, deep: bool, cov: &mut Cov, accept: impl Fn(usize, u8) -> bool) -> Res<u128> {
    let mut seen = vec![];
    for o in 0..3 {
        let m = message(o, rec);
        let cp = some_checkpoint();
        let sigs = signatures(&m, &cp);
        for signers in 0..1u8 << KEYS {
            if o == 2 && signers != 0 && signers != 7 {
                continue;
            }
            let want = accept(o, signers);
            let what = format!("message from {:x} signed by {signers:03b}", m.origin);
            let at = str_of(
                &w.ch.query(&w.mb, &json!({"mailbox": {"recipient_ism": {"recipient_addr": rec}}}))?,
                "ism",
            );
            let ways: &[Way] = if deep { &[Way::First, Way::Last, Way::All] } else { &[Way::First, Way::All] };
            for way in ways {
                let meta = relayer(&w.ch, &at, &m, &cp, &sigs, signers, *way)?;
                if meta.is_none() {
                    ensure!(!want || *way == Way::All, "{what}: the queries say that the signatures do not suffice, and they do");
                    cov.hit("not enough");
                }
                let given = meta.clone().unwrap_or_default();
                let got = verdict(&w.ch, &at, &given, &m.enc());
                if *way == Way::All && meta.is_none() {
                    ensure!(!got || want, "{what}: empty metadata accepted");
                } else {
                    ensure_eq!(got, want, "{what}: verdict on what the relayer made ({way:?})");
                }
                if *way == Way::First {
                    let mut ch = w.ch.clone();
                    let t = ch.exec(&ch.user("relayer"), &w.mb, &process_msg(&given, &m.enc()), &[]);
                    ensure_eq!(t.ok(), want, "{what}: delivery ({})", t.err());
                    ensure_eq!(delivered(&ch, &w.mb, &m.id())?, want, "{what}: reported as delivered");
                }
                cov.hit(if want { "accepted" } else { "refused" });
                seen.push(got);
            }
        }
    }
    Ok(dig(&seen))
}

#[derive(Clone, Debug)]
struct K {
    i: I,
    named: bool,
}

fn case(w: &W, k: &K, deep: bool, cov: &mut Cov) -> Res<u128> {
    let mut w = w.clone();
    let owner = w.owner.clone();
    let root = put(&mut w.ch, &owner, &k.i)?;
    let rec = if k.named {
        // the default module accepts nothing
        let no = probe(&mut w.ch, |c| c.verify = "reject".into());
        let mb = w.mb.clone();
        call(&mut w.ch, &owner, &mb, json!({"set_default_ism": {"ism": no}}))?;
        let named = w.named.clone();
        reprobe(&mut w.ch, &named, |c| c.ism = Some(root.clone()));
        named
    } else {
        let mb = w.mb.clone();
        call(&mut w.ch, &owner, &mb, json!({"set_default_ism": {"ism": root}}))?;
        w.plain.clone()
    };
    judge(&w, &rec, deep, cov, |o, s| accepts(&k.i, o, s))
}

// ------------------------------------------------------------------ reconfiguration

/// what the modules of the second model are told
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct R {
    multi: [[Option<(u8, usize)>; 2]; 2],
    paused: bool,
    /// members (0, 1: multisig modules, 2: pausable, 3: inner routing) and threshold
    agg: (Vec<usize>, usize),
    /// routes of the outer (to 0..=4; 4: the aggregate) and the inner routing module
    outer: [Option<usize>; 2],
    inner: [Option<usize>; 2],
    default: usize,
    named: Option<usize>,
}
impl R {
    fn accepts(&self, x: usize, o: usize, s: u8) -> bool {
        match x {
            0 | 1 => o < 2 && self.multi[x][o].map_or(false, |(m, t)| (turned(m, o) & s).count_ones() as usize >= t),
            2 => !self.paused,
            3 => o < 2 && self.inner[o].map_or(false, |x| self.accepts(x, o, s)),
            4 => self.agg.0.iter().filter(|x| self.accepts(**x, o, s)).count() >= self.agg.1,
            _ => o < 2 && self.outer[o].map_or(false, |x| self.accepts(x, o, s)),
        }
    }
}
#[derive(Clone, Debug)]
enum A {
    Validators(usize, usize, Option<(u8, usize)>),
    Pause(bool),
    Members(Vec<usize>, usize),
    Outer(usize, Option<usize>),
    Inner(usize, Option<usize>),
    Default(usize),
    Named(Option<usize>),
    /// a stranger tries the same
    Stranger(u8),
}
#[derive(Clone)]
struct S {
    w: W,
    at: [String; 6],
    r: R,
}
struct M;
impl M {
    fn told(s: &S, a: &A) -> (usize, serde_json::Value) {
        match a {
            A::Validators(x, o, Some((mask, t))) => {
                let v: Vec<String> = (0..KEYS).filter(|k| turned(*mask, *o) >> k & 1 == 1).map(|k| hx(&keys()[k].addr)).collect();
                (*x, json!({"set_validators": {"domain": ORIGINS[*o], "threshold": t, "validators": v}}))
            }
            A::Validators(x, o, None) => (*x, json!({"unset_domain": {"domain": ORIGINS[*o]}})),
            A::Pause(true) => (2, json!({"pausable": {"pause": {}}})),
            A::Pause(false) => (2, json!({"pausable": {"release": {}}})),
            A::Members(l, t) => {
                let l: Vec<&String> = l.iter().map(|x| &s.at[*x]).collect();
                (4, json!({"set_isms": {"isms": l, "threshold": t}}))
            }
            A::Outer(o, x) | A::Inner(o, x) => (
                if matches!(a, A::Outer(..)) { 5 } else { 3 },
                match x {
                    Some(x) => json!({"set": {"ism": {"domain": ORIGINS[*o], "address": s.at[*x]}}}),
                    None => json!({"unset": {"domains": [ORIGINS[*o]]}}),
                },
            ),
            _ => (6, json!({})),
        }
    }
}
impl Model for M {
    type S = S;
    type A = A;
    fn init(&self) -> Res<Vec<(String, S)>> {
        let mut w = world()?;
        let owner = w.owner.clone();
        let ch = &mut w.ch;
        let m0 = put(ch, &owner, &I::Multi(0b011, 2))?;
        let m1 = put(ch, &owner, &I::Multi(0b100, 1))?;
        let p = put(ch, &owner, &I::Pause(false))?;
        let inner = inst(ch, "ism_routing", &owner, json!({"owner": owner, "isms": [{"domain": ORIGINS[0], "address": m1}]}))?;
        let agg = inst(ch, "ism_aggregate", &owner, json!({"owner": owner, "isms": [m0, p, inner], "threshold": 2}))?;
        let outer = inst(
            ch,
            "ism_routing",
            &owner,
            json!({"owner": owner, "isms": [{"domain": ORIGINS[0], "address": agg}, {"domain": ORIGINS[1], "address": m0}]}),
        )?;
        let mb = w.mb.clone();
        call(&mut w.ch, &owner, &mb, json!({"set_default_ism": {"ism": outer}}))?;
        let r = R {
            multi: [[Some((0b011, 2)); 2], [Some((0b100, 1)); 2]],
            paused: false,
            agg: (vec![0, 2, 3], 2),
            outer: [Some(4), Some(0)],
            inner: [Some(1), None],
            default: 5,
            named: None,
        };
        Ok(vec![(
            "a routing module over an aggregate".into(),
            S {
                w,
                at: [m0, m1, p, inner, agg, outer],
                r,
            },
        )])
    }
    fn actions(&self, _: &S) -> Vec<A> {
        vec![
            A::Validators(0, 0, Some((0b110, 1))),
            A::Validators(0, 0, Some((0b111, 3))),
            A::Validators(0, 1, None),
            A::Validators(1, 0, None),
            A::Validators(1, 0, Some((0b101, 2))),
            A::Pause(true),
            A::Pause(false),
            A::Members(vec![3, 0], 1),
            A::Members(vec![0, 2, 3], 3),
            A::Members(vec![1, 2], 2),
            A::Outer(0, Some(3)),
            A::Outer(0, None),
            A::Outer(1, Some(4)),
            A::Inner(0, Some(0)),
            A::Inner(0, None),
            A::Inner(1, Some(2)),
            A::Default(4),
            A::Default(5),
            A::Named(Some(3)),
            A::Named(None),
            A::Stranger(0),
            A::Stranger(1),
        ]
    }
    fn key(&self, s: &S) -> u128 {
        s.w.ch.key() ^ dig(&s.r)
    }
    fn step(&self, s: &S, a: &A, cov: &mut Cov) -> Res<Step<S>> {
        let mut n = s.clone();
        let owner = s.w.owner.clone();
        match a {
            A::Default(x) => {
                call(&mut n.w.ch, &owner, &s.w.mb, json!({"set_default_ism": {"ism": s.at[*x]}}))?;
                n.r.default = *x;
            }
            A::Named(x) => {
                let named = s.w.named.clone();
                reprobe(&mut n.w.ch, &named, |c| c.ism = x.map(|x| s.at[x].clone()));
                n.r.named = *x;
            }
            A::Stranger(k) => {
                let list: &[A] = if *k == 0 {
                    &[A::Validators(0, 0, Some((0b001, 1))), A::Members(vec![2], 1), A::Outer(0, Some(2))]
                } else {
                    &[A::Pause(!s.r.paused), A::Inner(0, Some(2)), A::Validators(1, 0, None)]
                };
                for a in list {
                    let (x, m) = M::told(s, a);
                    let t = n.w.ch.exec(&s.w.ch.user("mallory"), &s.at[x], &m, &[]);
                    ensure!(!t.ok(), "{m} by a stranger succeeded");
                }
                ensure_eq!(n.w.ch.key(), s.w.ch.key(), "state after a stranger's attempts");
                return Ok(Step::Same);
            }
            _ => {
                let (x, m) = M::told(s, a);
                let t = n.w.ch.exec(&owner, &s.at[x], &m, &[]);
                let want = match a {
                    A::Pause(p) => s.r.paused != *p,
                    // removing what is not there may be refused or not
                    A::Validators(x, o, None) if s.r.multi[*x][*o].is_none() => t.ok(),
                    A::Outer(o, None) if s.r.outer[*o].is_none() => t.ok(),
                    A::Inner(o, None) if s.r.inner[*o].is_none() => t.ok(),
                    _ => true,
                };
                ensure_eq!(t.ok(), want, "{m} by the owner ({})", t.err());
                if want {
                    match a {
                        A::Validators(x, o, v) => n.r.multi[*x][*o] = *v,
                        A::Pause(p) => n.r.paused = *p,
                        A::Members(l, t) => n.r.agg = (l.clone(), *t),
                        A::Outer(o, x) => n.r.outer[*o] = *x,
                        A::Inner(o, x) => n.r.inner[*o] = *x,
                        _ => (),
                    }
                }
            }
        }
        cov.hit("changed");
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S, cov: &mut Cov) -> Res<()> {
        judge(&s.w, &s.w.plain, false, cov, |o, k| s.r.accepts(s.r.default, o, k))?;
        judge(&s.w, &s.w.named, false, cov, |o, k| s.r.accepts(s.r.named.unwrap_or(s.r.default), o, k))?;
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["changed", "accepted", "refused", "not enough"]
    }
}

pub fn x02(c: &mut Ctx) {
    c.assume("the relayer uses nothing but the recipient-module, module-type, verification-info, route and verify queries");
    let leaves = vec![I::Multi(0b001, 1), I::Multi(0b110, 1), I::Multi(0b011, 2), I::Multi(0b111, 2), I::Pause(false), I::Pause(true)];
    let some = |i: &I| Some(Box::new(i.clone()));
    let mut l1 = leaves.clone();
    for a in &leaves {
        l1.push(I::Agg(1, vec![a.clone()]));
        l1.push(I::Route([some(a), None]));
        for b in &leaves {
            l1.push(I::Agg(1, vec![a.clone(), b.clone()]));
            l1.push(I::Agg(2, vec![a.clone(), b.clone()]));
            l1.push(I::Route([some(a), some(b)]));
        }
    }
    l1.push(I::Route([None, None]));
    let mut v: Vec<K> = l1.iter().flat_map(|i| [false, true].map(|named| K { i: i.clone(), named })).collect();
    // aggregates of three
    for (x, a) in leaves.iter().enumerate() {
        for (y, b) in leaves.iter().enumerate() {
            for (z, d) in leaves.iter().enumerate() {
                for t in 1..=3 {
                    if c.thorough() || (x + y + z + t) % 3 == 0 {
                        v.push(K {
                            i: I::Agg(t, vec![a.clone(), b.clone(), d.clone()]),
                            named: (x + t) % 2 == 0,
                        });
                    }
                }
            }
        }
    }
    let deep = c.thorough();
    let must = &["accepted", "refused", "not enough"];
    c.cases("one level", world, v, must, |w, k, cov| case(w, k, true, cov));
    // pairs of one-level compositions, in aggregates and behind routes
    let mut v = vec![];
    for (x, a) in l1.iter().enumerate() {
        for (y, b) in l1.iter().enumerate() {
            let all = [I::Agg(1, vec![a.clone(), b.clone()]), I::Agg(2, vec![a.clone(), b.clone()]), I::Route([some(a), some(b)])];
            for (z, i) in all.into_iter().enumerate() {
                if deep || (7 * x + 3 * y + 5 * z) % 29 == 0 {
                    v.push(K {
                        i,
                        named: (x + y + z) % 2 == 0,
                    });
                }
            }
        }
    }
    c.cases("two levels", world, v, must, move |w, k, cov| case(w, k, deep, cov));
    // deep chains of every kind of composition
    let wraps: Vec<fn(I) -> I> = vec![
        |i| I::Agg(1, vec![i, I::Pause(true)]),
        |i| I::Agg(2, vec![I::Pause(false), i]),
        |i| I::Route([Some(Box::new(i)), None]),
        |i| I::Route([Some(Box::new(I::Multi(0b010, 1))), Some(Box::new(i))]),
        |i| I::Agg(2, vec![I::Multi(0b100, 1), i, I::Multi(0b010, 1)]),
    ];
    let mut v = vec![];
    for n in 2..=c.pick(3, 5) {
        for s in seqs(wraps.len(), n).into_iter().filter(|s| s.len() == n) {
            for i in [I::Multi(0b001, 1), I::Multi(0b111, 2)] {
                let mut i = i;
                for w in &s {
                    i = wraps[*w](i);
                }
                v.push(K {
                    i,
                    named: s[0] % 2 == 0,
                });
            }
        }
    }
    c.cases("deep chains", world, v, must, move |w, k, cov| case(w, k, deep, cov));
    // wide aggregates
    let mut v = vec![];
    for n in [4usize, 8, 16, 33] {
        for t in [1, 2, n / 2, n - 1, n] {
            for kind in 0..3 {
                let l = (0..n)
                    .map(|i| match (kind + i) % 3 {
                        0 => I::Multi(1 << (i % KEYS), 1),
                        1 => I::Pause(i % 2 == 0),
                        _ if kind == 0 => I::Route([Some(Box::new(I::Multi(0b111, 1 + i % 3))), None]),
                        _ => I::Multi(0b111, 1 + i % 3),
                    })
                    .collect();
                v.push(K {
                    i: I::Agg(t, l),
                    named: n % 2 == 0,
                });
            }
        }
    }
    c.cases("wide aggregates", world, v, must, move |w, k, cov| case(w, k, deep, cov));
    c.run("reconfigured parts", &M, c.pick(2, 4), 50_000_000);
}
