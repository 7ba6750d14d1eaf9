//! W02 authorisation, W03 exactness, W04 connection settings of token routes
use super::warp::*;
use crate::chain::{b32, h256, Chain, Coins};
use crate::explore::{Cov, CovExt, Ctx, Model, Res, Step};
use crate::util::*;
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const HRP: &str = "osmo";
const LOCAL: u32 = 0x0001_0203;

fn flip(mut r: Vec<u8>, bit: usize) -> Vec<u8> {
    r[bit / 8] ^= 0x80 >> (bit % 8);
    r
}
/// remote routers: two accounts, a one-bit neighbour, a padded 20-byte account
fn routers() -> Vec<Vec<u8>> {
    let a = fill("remote router", 32);
    vec![
        a.clone(),
        flip(a, 255),
        fill("another router", 32),
        pad32(&fill("evm router", 20)).to_vec(),
    ]
}

#[derive(Clone)]
struct World {
    ch: Chain,
    r: Arc<Route>,
    b: Arc<Basic>,
    /// a second mailbox of the same domain which the route does not know
    other: Arc<Basic>,
    owner: String,
    user: String,
}
fn world(kind: Kind, start: u128) -> Res<World> {
    let mut ch = Chain::new(HRP);
    let owner = ch.user("owner");
    let user = ch.user("alice");
    let b = basic(&mut ch, &owner, LOCAL)?;
    let other = basic(&mut ch, &owner, LOCAL)?;
    let holder = ch.user("holder");
    let hold: Vec<(&str, u128)> = if kind.bridged {
        vec![]
    } else {
        vec![(user.as_str(), start), (holder.as_str(), start)]
    };
    let r = deploy(&mut ch, &owner, kind, &b.mb, &hold)?;
    if kind.bridged {
        r.give(&mut ch, &user, start);
    } else {
        // what the route holds for others
        let (h, x) = (ch.user("holder"), start);
        if kind.cw20 {
            let m = json!({"transfer": {"recipient": r.addr, "amount": x.to_string()}});
            ok(ch.exec(&h, &r.token, &m, &[]), "locking")?;
        } else {
            let mut bk = (*ch.bank).clone();
            bk.remove(&(h.as_str().into(), r.token.as_str().into()));
            bk.insert((r.addr.as_str().into(), r.token.as_str().into()), x);
            ch.bank = Arc::new(bk);
        }
    }
    r.approve(&mut ch, &user, start);
    for d in ["abc", "fee", "zzz"] {
        ch.fund(&user, d, 1_000_000);
    }
    Ok(World {
        ch,
        r: Arc::new(r),
        b: Arc::new(b),
        other: Arc::new(other),
        owner,
        user,
    })
}
fn kind_name(k: Kind) -> String {
    format!(
        "{} {}",
        if k.cw20 { "cw20" } else { "native" },
        if k.bridged { "synthetic" } else { "collateral" }
    )
}

// ------------------------------------------------------------------ W02

#[derive(Clone)]
struct S2 {
    w: World,
    routes: BTreeMap<u32, Option<Vec<u8>>>,
}
#[derive(Clone, Debug)]
enum A2 {
    Set(u32, Option<usize>),
    Batch(Vec<(u32, Option<usize>)>),
    /// somebody else tries
    Stranger(u32, usize),
    /// transfer and delivery for real, leaving the balances changed
    Send(u32),
    Receive(u32, usize),
}
struct M2 {
    kind: Kind,
    doms: Vec<u32>,
    rts: Vec<Vec<u8>>,
}
impl M2 {
    fn rt(&self, i: &Option<usize>) -> Option<Vec<u8>> {
        i.map(|i| self.rts[i].clone())
    }
}
fn probe_message(w: &World, origin: u32, sender: &[u8; 32]) -> Msg {
    Msg {
        version: 3,
        nonce: 77,
        origin,
        sender: *sender,
        dest: LOCAL,
        recipient: h256(&w.r.addr),
        body: body(&fill32("somebody"), &u256(5), b""),
    }
}
/// deliver through the mailbox; honoured exactly when `want`
fn incoming(w: &World, mb: &str, origin: u32, sender: &[u8; 32], want: bool, cov: &mut Cov) -> Res<Chain> {
    let mut ch = w.ch.clone();
    let rec = fill32("somebody");
    let who = addr_of(HRP, &rec);
    let m = probe_message(w, origin, sender);
    let (h0, s0, r0) = (w.r.bal(&ch, &who), w.r.supply(&ch), w.r.bal(&ch, &w.r.addr));
    let t = ch.exec(&w.user, mb, &process_msg(&[1], &m.enc()), &[]);
    ensure_eq!(
        t.ok(),
        want,
        "delivery from {origin:#x} sender {} ({})",
        hx(sender),
        t.err()
    );
    if want {
        ensure_eq!(w.r.bal(&ch, &who), h0 + 5, "credited");
        if w.r.kind.bridged {
            ensure_eq!(w.r.supply(&ch), s0 + 5, "minted");
        } else {
            ensure_eq!(w.r.supply(&ch), s0, "minted");
            ensure_eq!(w.r.bal(&ch, &w.r.addr), r0 - 5, "released");
        }
        cov.hit("honoured");
    } else {
        ensure_eq!(ch.key(), w.ch.key(), "state after a refused delivery");
        cov.hit("refused");
    }
    Ok(ch)
}
/// transfer out; goes exactly to `want` or fails
fn outgoing(w: &World, mb: &str, dest: u32, want: Option<&Vec<u8>>, cov: &mut Cov) -> Res<Chain> {
    let mut ch = w.ch.clone();
    let rec = fill("somebody", 32);
    let have = w.r.bal(&ch, &w.user);
    let t = try_call(
        &mut ch,
        &w.user,
        &w.r.addr,
        &transfer_msg(dest, &rec, 3, None, None),
        &w.r.funds(3, &vec![]),
    );
    let sendable = want.filter(|r| r.len() == 32);
    ensure_eq!(t.ok(), sendable.is_some(), "transfer to {dest:#x} ({})", t.err());
    match sendable {
        Some(r) => {
            let ms = dispatched(&t, mb)?;
            ensure_eq!(ms.len(), 1, "dispatched messages");
            ensure_eq!(hx(&ms[0].recipient), hx(r), "router addressed for {dest:#x}");
            ensure_eq!(ms[0].dest, dest, "destination");
            ensure_eq!(ms[0].sender, h256(&w.r.addr), "sender");
            ensure_eq!(w.r.bal(&ch, &w.user), have - 3, "taken");
            cov.hit("sent");
        }
        None => {
            ensure_eq!(ch.key(), w.ch.key(), "state after a refused transfer");
            cov.hit("unsendable");
        }
    }
    Ok(ch)
}
impl Model for M2 {
    type S = S2;
    type A = A2;
    fn init(&self) -> Res<Vec<(String, S2)>> {
        Ok(vec![(
            "nothing enrolled".into(),
            S2 {
                w: world(self.kind, 1_000_000)?,
                routes: BTreeMap::new(),
            },
        )])
    }
    fn actions(&self, _: &S2) -> Vec<A2> {
        let mut v = vec![];
        for (i, d) in self.doms.iter().enumerate() {
            v.push(A2::Set(*d, None));
            for r in 0..self.rts.len() {
                v.push(A2::Set(*d, Some(r)));
            }
            v.push(A2::Stranger(*d, i % self.rts.len()));
            v.push(A2::Batch(vec![(*d, Some(0)), (*d, Some(1))]));
            v.push(A2::Batch(vec![(*d, Some(1)), (self.doms[(i + 1) % self.doms.len()], None)]));
            v.push(A2::Send(*d));
            v.push(A2::Receive(*d, 0));
        }
        v
    }
    fn key(&self, s: &S2) -> u128 {
        s.w.ch.key() ^ dig(&s.routes)
    }
    fn step(&self, s: &S2, a: &A2, cov: &mut Cov) -> Res<Step<S2>> {
        let mut n = s.clone();
        let to = s.w.r.addr.clone();
        match a {
            A2::Set(d, r) => {
                let r = self.rt(r);
                call(&mut n.w.ch, &s.w.owner, &to, enroll(*d, r.as_deref()))?;
                n.routes.insert(*d, r);
            }
            A2::Batch(l) => {
                let set: Vec<Value> = l
                    .iter()
                    .map(|(d, r)| json!({"domain": d, "route": self.rt(r).map(|x| hx(&x))}))
                    .collect();
                call(&mut n.w.ch, &s.w.owner, &to, json!({"router": {"set_routes": {"set": set}}}))?;
                for (d, r) in l {
                    n.routes.insert(*d, self.rt(r));
                }
            }
            A2::Stranger(d, r) => {
                for who in [s.w.user.clone(), s.w.b.mb.clone(), to.clone()] {
                    let t = n.w.ch.exec(&who, &to, &enroll(*d, Some(&self.rts[*r])), &[]);
                    ensure!(!t.ok(), "{who} enrolled a router");
                    ensure_eq!(n.w.ch.key(), s.w.ch.key(), "state");
                }
                cov.hit("stranger refused");
                return Ok(Step::Same);
            }
            A2::Send(d) => {
                let want = s.routes.get(d).cloned().flatten();
                n.w.ch = outgoing(&s.w, &s.w.b.mb, *d, want.as_ref(), cov)?;
            }
            A2::Receive(d, r) => {
                let Ok(x) = self.rts[*r].clone().try_into() else {
                    return Ok(Step::Same);
                };
                let done = delivered(&s.w.ch, &s.w.b.mb, &probe_message(&s.w, *d, &x).id())?;
                let want = !done && s.routes.get(d).cloned().flatten().as_ref() == Some(&self.rts[*r]);
                n.w.ch = incoming(&s.w, &s.w.b.mb, *d, &x, want, cov)?;
                // a message is honoured once
                if want {
                    let mut w = n.w.clone();
                    w.ch = n.w.ch.clone();
                    incoming(&w, &s.w.b.mb, *d, &x, false, cov)?;
                }
                if !want {
                    return Ok(Step::Same);
                }
            }
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S2, cov: &mut Cov) -> Res<()> {
        let w = &s.w;
        let mut doms: BTreeSet<u32> = self.doms.iter().cloned().collect();
        for d in &self.doms {
            doms.insert(d.wrapping_add(1));
            doms.insert(d.swap_bytes());
        }
        doms.insert(LOCAL);
        let mut senders: Vec<[u8; 32]> = self
            .rts
            .iter()
            .filter_map(|r| r.clone().try_into().ok())
            .collect();
        // the account form of a short router and the route itself
        for r in &self.rts {
            if r.len() < 32 {
                senders.push(pad32(r));
            }
        }
        senders.push(h256(&w.r.addr));
        senders.push([0; 32]);
        let mut w2 = w.clone();
        for d in &doms {
            let cur = s.routes.get(d).cloned().flatten();
            outgoing(w, &w.b.mb, *d, cur.as_ref(), cov)?;
            for sd in &senders {
                let want = cur.as_deref() == Some(&sd[..]);
                // the delivery probe uses one message per (origin, sender)
                let done = delivered(&w.ch, &w.b.mb, &probe_message(w, *d, sd).id())?;
                incoming(w, &w.b.mb, *d, sd, want && !done, cov)?;
                // a genuine mailbox, but not the one of the route
                incoming(w, &w.other.mb, *d, sd, false, cov)?;
                if !want {
                    continue;
                }
                // the right words from the wrong callers
                let b = body(&fill32("mallory"), &u256(5), b"");
                let hm = handle_msg(*d, sd, &b);
                let mut callers = vec![
                    w.owner.clone(),
                    w.user.clone(),
                    w.r.addr.clone(),
                    w.other.mb.clone(),
                    w.b.ism.clone(),
                    w.b.required.clone(),
                    w.b.default.clone(),
                    addr_of(HRP, sd),
                ];
                if w.r.kind.cw20 {
                    callers.push(w.r.token.clone());
                }
                for who in callers {
                    let t = w2.ch.exec(&who, &w.r.addr, &hm, &[]);
                    ensure!(!t.ok(), "handle called by {who} succeeded");
                    ensure_eq!(w2.ch.key(), w.ch.key(), "state after a direct call by {who}");
                    // with coins attached, also as many as are to be paid out
                    let own = if w.r.kind.cw20 { "fee" } else { w.r.token.as_str() };
                    for (denom, amount) in [("fee", 1), (own, 5)] {
                        let mut ch = w.ch.clone();
                        ch.fund(&who, denom, amount);
                        let rich = ch.key();
                        let t = ch.exec(&who, &w.r.addr, &hm, &[(denom, amount)]);
                        ensure!(!t.ok(), "handle called by {who} with {amount}{denom} succeeded");
                        ensure_eq!(ch.key(), rich, "state after a direct call by {who} with coins");
                    }
                    cov.hit("caller refused");
                }
            }
        }
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["honoured", "refused", "sent", "unsendable", "caller refused", "stranger refused"]
    }
}

pub fn w02(c: &mut Ctx) {
    c.assume("the configured mailbox and its hooks are genuine; the delivered amount is available to the route");
    let d0 = 0x0a0b_0c0d;
    for kind in KINDS {
        c.run(
            &format!("enrolment histories, {}", kind_name(kind)),
            &M2 {
                kind,
                doms: vec![d0, d0 ^ 1, u32::MAX],
                rts: routers(),
            },
            c.pick(3, 5),
            5_000_000,
        );
        let short = fill("evm router", 20);
        c.run(
            &format!("zero and byte-swapped domains, short routers, {}", kind_name(kind)),
            &M2 {
                kind,
                doms: vec![0, d0.swap_bytes()],
                rts: vec![routers()[0].clone(), short, pad32(&fill("evm router", 20)).to_vec()],
            },
            c.pick(4, 6),
            5_000_000,
        );
    }
    // every one-bit deviation from an enrolled pair, in the sender and in the domain
    #[derive(Clone, Debug)]
    enum Dev {
        Domain(u32),
        SenderBit(usize),
        /// the enrolled router cut to n bytes, and the sender likewise
        Len(usize, usize),
    }
    let mut v = vec![];
    for k in 0..4 {
        for d in domains(d0) {
            v.push((k, Dev::Domain(d)));
        }
        for b in 0..256 {
            v.push((k, Dev::SenderBit(b)));
        }
        for a in [0, 1, 19, 20, 21, 31, 32, 33, 40] {
            for b in [0, 1, 19, 20, 21, 31, 32, 33, 40] {
                v.push((k, Dev::Len(a, b)));
            }
        }
    }
    c.cases(
        "deviations from an enrolled pair",
        || {
            let mut l = vec![];
            for k in KINDS {
                let mut w = world(k, 1_000_000)?;
                let (o, r) = (w.owner.clone(), w.r.addr.clone());
                call(&mut w.ch, &o, &r, enroll(0x0a0b_0c0d, Some(&routers()[0])))?;
                l.push(w);
            }
            Ok(l)
        },
        v,
        &["honoured", "refused", "sent", "unsendable", "length refused"],
        |l: &Vec<World>, (k, dev), cov| {
            let w = &l[*k];
            let r0 = routers()[0].clone();
            let a0: [u8; 32] = r0.clone().try_into().unwrap();
            match dev {
                Dev::Domain(d) => {
                    incoming(w, &w.b.mb, *d, &a0, *d == d0, cov)?;
                    outgoing(w, &w.b.mb, *d, if *d == d0 { Some(&r0) } else { None }, cov)?;
                }
                Dev::SenderBit(b) => {
                    let s: [u8; 32] = flip(r0.clone(), *b).try_into().unwrap();
                    incoming(w, &w.b.mb, d0, &s, false, cov)?;
                    let mut w2 = w.clone();
                    call(&mut w2.ch, &w.owner, &w.r.addr, enroll(d0, Some(&s)))?;
                    incoming(&w2, &w.b.mb, d0, &s, true, cov)?;
                    incoming(&w2, &w.b.mb, d0, &a0, false, cov)?;
                    outgoing(&w2, &w.b.mb, d0, Some(&s.to_vec()), cov)?;
                }
                Dev::Len(a, b) => {
                    let long = [r0.clone(), vec![0; 8]].concat();
                    let mut w2 = w.clone();
                    let t = w2.ch.exec(&w.owner, &w.r.addr, &enroll(d0, Some(&long[..*a])), &[]);
                    if !t.ok() {
                        cov.hit("length refused");
                        ensure!(*a != 32, "32-byte router refused");
                        return Ok(0);
                    }
                    let pre = w2.ch.key();
                    let t = w2.ch.exec(
                        &w.b.mb,
                        &w.r.addr,
                        &handle_msg(d0, &long[..*b], &body(&fill32("x"), &u256(5), b"")),
                        &[],
                    );
                    if a == b {
                        ensure!(*a != 32 || t.ok(), "exact pair refused: {}", t.err());
                        cov.hit("length refused");
                    } else {
                        ensure!(!t.ok(), "router of {a} bytes, sender of {b} bytes honoured");
                        ensure_eq!(w2.ch.key(), pre, "state");
                        cov.hit("length refused");
                    }
                }
            }
            Ok(dig(&(k, format!("{dev:?}"))))
        },
    );

    // one router after another for the same domain: only the last one counts
    let base = routers()[0].clone();
    let mut rs = vec![base.clone(), vec![0; 32], vec![255; 32], base.iter().rev().copied().collect()];
    for i in 0..32 {
        let mut r = base.clone();
        r[i] = !r[i];
        rs.push(r);
    }
    let mut v = vec![];
    for k in 0..4usize {
        for a in &rs {
            for b in &rs {
                v.push((k, a.clone(), b.clone()));
            }
        }
    }
    c.cases(
        "one router after another",
        || KINDS.iter().map(|k| world(*k, 1_000_000)).collect::<Res<Vec<World>>>(),
        v,
        &["honoured", "refused", "sent"],
        |l: &Vec<World>, (k, a, b), cov| {
            let mut w = l[*k].clone();
            let d = 0x0a0b_0c0d;
            for r in [a, b] {
                call(&mut w.ch, &w.owner, &w.r.addr, enroll(d, Some(r)))?;
            }
            let q = w.ch.query(&w.r.addr, &json!({"router": {"get_route": {"domain": d}}}))?;
            ensure_eq!(q["route"]["route"], json!(hx(b)), "reported router");
            incoming(&w, &w.b.mb, d, &b.clone().try_into().unwrap(), true, cov)?;
            if a != b {
                incoming(&w, &w.b.mb, d, &a.clone().try_into().unwrap(), false, cov)?;
            }
            outgoing(&w, &w.b.mb, d, Some(b), cov)?;
            Ok(dig(&(k, a, b)))
        },
    );
}

// ------------------------------------------------------------------ W03

#[derive(Clone, Debug)]
struct Out {
    k: usize,
    amount: u128,
    /// what the caller attaches of the token (native) or allows (cw20), relative to the amount
    given: i8,
    have: Have,
    extra: usize,
    /// 0 none, 1 requested, 2 configured, 3 both
    hook: u8,
    meta: usize,
    rec: usize,
    /// quote of the required hook
    req: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Have {
    /// the caller holds plenty
    Plenty,
    Exact,
    Less,
    Nothing,
}
const EXTRAS: [&[(&str, u128)]; 6] = [
    &[],
    &[("abc", 7)],
    &[("zzz", 1)],
    &[("fee", 9)],
    &[("abc", 7), ("fee", 9), ("zzz", 1)],
    &[("abc", 1), ("zzz", 300)],
];
const REQ: [&[(&str, u128)]; 4] = [&[], &[("fee", 4)], &[("abc", 7)], &[("TOKEN", 1)]];
fn metas() -> Vec<Option<Vec<u8>>> {
    vec![None, Some(vec![]), Some(vec![0]), Some(fill("meta", 33)), Some(fill("meta", 65))]
}

fn outgoing_case(w: &World, o: &Out, cov: &mut Cov) -> Res<u128> {
    let d0 = 0x0a0b_0c0d;
    let r = &w.r;
    let mut ch = w.ch.clone();
    // the caller's purse
    let user = ch.user("carol");
    let given = match o.given {
        0 => Some(o.amount),
        1 => o.amount.checked_add(1),
        2 => o.amount.checked_add(1 << 64),
        -1 => o.amount.checked_sub(1),
        -2 => Some(0),
        _ => unreachable!(),
    };
    let Some(given) = given else { return Ok(0) };
    let need = if r.kind.cw20 { o.amount } else { given.max(o.amount) };
    let purse = match o.have {
        Have::Plenty => match need.checked_add(1000) {
            Some(p) => p,
            None => return Ok(0),
        },
        Have::Exact => need,
        Have::Less => need - 1,
        Have::Nothing => 0,
    };
    r.give(&mut ch, &user, purse);
    for d in ["abc", "fee", "zzz"] {
        ch.fund(&user, d, 1_000_000);
    }
    if given > 0 {
        r.approve(&mut ch, &user, given);
    }
    let asked = quiet_hook(&mut ch);
    let configured = quiet_hook(&mut ch);
    let req: Coins = REQ[o.req]
        .iter()
        .map(|(d, a)| {
            (if *d == "TOKEN" { r.token.clone() } else { d.to_string() }, *a)
        })
        .collect();
    reprobe(&mut ch, &w.b.required, |p| {
        p.quote = req.iter().map(|(d, a)| (d.clone(), a.to_string())).collect()
    });
    if o.hook & 2 > 0 {
        call(&mut ch, &w.owner, &r.addr, json!({"connection": {"set_hook": {"hook": configured}}}))?;
    }
    let hook = match o.hook {
        0 => &w.b.default,
        2 => &configured,
        _ => &asked,
    };
    let meta = metas()[o.meta].clone();
    let rec = fill("beneficiary", o.rec);
    let extra: Coins = coins(EXTRAS[o.extra]);
    let attached = if r.kind.cw20 {
        extra.clone()
    } else {
        coins_sum(&[vec![(r.token.clone(), given)], extra.clone()])
    };
    let m = transfer_msg(
        d0,
        &rec,
        o.amount,
        if o.hook & 1 > 0 { Some(&asked) } else { None },
        meta.as_deref(),
    );
    let before = ch.clone();
    let t = try_call(&mut ch, &user, &r.addr, &m, &attached);

    // expectation
    let forwarded = if r.kind.cw20 {
        Some(extra.clone())
    } else if given >= o.amount {
        coins_sub(&attached, &vec![(r.token.clone(), o.amount)])
    } else {
        None
    };
    let have_all = if r.kind.cw20 {
        purse >= o.amount && given >= o.amount
    } else {
        purse >= given
    };
    let rest = forwarded.as_ref().and_then(|f| coins_sub(f, &req));
    let want = o.rec == 32 && have_all && rest.is_some();
    ensure_eq!(t.ok(), want, "transfer ({})", t.err());
    let (b0, b1) = (r.everything(&before), r.everything(&ch));
    if !want {
        ensure_eq!(b1, b0, "balances after a refused transfer");
        ensure_eq!(ch.key(), before.key(), "state after a refused transfer");
        cov.hit("refused");
        return Ok(dig(o));
    }
    let mut exp = b0.clone();
    let mut mv = |from: Option<&str>, to: Option<&str>, l: &Coins| {
        for (d, a) in l {
            if let Some(f) = from {
                *exp.entry((f.to_string(), d.clone())).or_default() -= a;
            }
            if let Some(t) = to {
                *exp.entry((t.to_string(), d.clone())).or_default() += a;
            }
        }
    };
    let take = vec![(r.token.clone(), o.amount)];
    mv(
        Some(&user),
        if r.kind.bridged { None } else { Some(r.addr.as_str()) },
        &take,
    );
    mv(Some(&user), Some(&w.b.required), &req);
    mv(Some(&user), Some(hook), rest.as_ref().unwrap());
    exp.retain(|_, v| *v > 0);
    let b1: BTreeMap<_, _> = b1.into_iter().filter(|x| x.1 > 0).collect();
    ensure_eq!(b1, exp, "balances after the transfer");
    ensure_eq!(
        r.supply(&ch),
        r.supply(&before) - if r.kind.bridged { o.amount } else { 0 },
        "supply"
    );
    let ms = dispatched(&t, &w.b.mb)?;
    ensure_eq!(ms.len(), 1, "dispatched messages");
    let msg = &ms[0];
    ensure_eq!(msg.dest, d0, "destination");
    ensure_eq!(hx(&msg.recipient), hx(&routers()[0]), "router");
    ensure_eq!(msg.sender, h256(&r.addr), "sender");
    ensure_eq!(
        hx(&msg.body),
        hx(&body(&rec.clone().try_into().unwrap(), &u256(o.amount), b"")),
        "dispatched body"
    );
    let pd = post_dispatch(&meta.unwrap_or_default(), &msg.enc());
    for (h, l) in [(hook, rest.as_ref().unwrap()), (&w.b.required, &req)] {
        let calls = t.calls_to(h);
        ensure_eq!(calls.len(), 1, "calls to the hook");
        ensure_eq!(calls[0].1, pd, "post dispatch call");
        ensure_eq!(coins_sum(&[calls[0].2.clone()]), coins_sum(&[l.clone()]), "payment of the hook");
    }
    for h in [&w.b.default, &asked, &configured] {
        if h != hook {
            ensure_eq!(t.calls_to(h).len(), 0, "calls to a hook which was not selected");
        }
    }
    if r.kind.cw20 {
        let v = ch
            .query(&r.token, &json!({"allowance": {"owner": user, "spender": r.addr}}))
            .unwrap_or(json!({"allowance": "0"}));
        ensure_eq!(str_of(&v, "allowance"), (given - o.amount).to_string(), "allowance left");
    }
    cov.hit("sent");
    Ok(dig(o))
}

#[derive(Clone, Debug)]
struct In {
    k: usize,
    amount: Amt,
    rec: usize,
    meta: usize,
    /// truncate the body to this length
    cut: Option<usize>,
    /// collateral the route holds relative to the amount
    held: i8,
}
#[derive(Clone, Debug)]
enum Amt {
    V(u128),
    Big(Vec<u8>),
}
fn recipients(w: &World) -> Vec<[u8; 32]> {
    let mut v = vec![];
    v.push(pad32(&fill("acct", 20)));
    v.push(fill32("contract acct"));
    for z in [10usize, 11, 12, 13, 14, 20, 31] {
        let mut x = fill32(&format!("zeros {z}"));
        x[..z].fill(0);
        x[z] |= 1;
        v.push(x);
    }
    v.push([0; 32]);
    v.push([0xff; 32]);
    let mut x = [0; 32];
    x[0] = 1;
    v.push(x);
    let mut x = [0; 32];
    x[11] = 1;
    v.push(x);
    // accounts that exist
    v.push(h256(&w.user));
    v.push(h256(&w.b.mb));
    v.push(h256(&w.owner));
    v
}
/// what may follow in a body
const TRAILING: usize = 20;
fn trailing(i: usize, v: u128) -> Vec<u8> {
    match i {
        0..=7 => fill("trailing", [0, 1, 31, 32, 33, 63, 64, 128][i]),
        8 => vec![0; 32],
        9 => vec![0xff; 32],
        10 => u256(v - 1).to_vec(),
        11 => u256(v).to_vec(),
        12 => u256(v.saturating_add(1)).to_vec(),
        13 => vec![0],
        14 => v.to_be_bytes().to_vec(),
        15 => body(&fill32("somebody else"), &u256(v / 2 + 1), b""),
        16 => body(&fill32("somebody else"), &u256(1), &[1]),
        17 => pad32(&fill("somebody else", 20)).to_vec(),
        18 => vec![b'{', b'}'],
        TRAILING.. => fill("trailing", i - TRAILING),
        _ => (v / 2).to_be_bytes().to_vec(),
    }
}
fn incoming_case(w: &World, i: &In, cov: &mut Cov) -> Res<u128> {
    let d0 = 0x0a0b_0c0d;
    let r = &w.r;
    let mut ch = w.ch.clone();
    let rec = recipients(w)[i.rec];
    let who = addr_of(HRP, &rec);
    let (amt, val) = match &i.amount {
        Amt::V(v) => (u256(*v), Some(*v)),
        Amt::Big(b) => (pad32(b), None),
    };
    let mut held = 0;
    if !r.kind.bridged {
        held = match (val, i.held) {
            (Some(v), 0) => v,
            (Some(v), 1) => match v.checked_add(1) {
                Some(x) => x,
                None => return Ok(0),
            },
            (Some(v), -1) => v - 1,
            _ => u128::MAX / 2,
        };
        if r.kind.cw20 {
            let h = ch.user("holder");
            let m = json!({"transfer": {"recipient": r.addr, "amount": held.to_string()}});
            if held > 0 {
                let have = r.bal(&ch, &h);
                if have < held {
                    return Ok(0);
                }
                ok(ch.exec(&h, &r.token, &m, &[]), "locking")?;
            }
        } else {
            ch.fund(&r.addr, &r.token, held);
        }
    }
    let mut b = body(&rec, &amt, &trailing(i.meta, val.unwrap_or(1)));
    if let Some(n) = i.cut {
        b.truncate(n);
    }
    let m = Msg {
        version: 3,
        nonce: 1,
        origin: d0,
        sender: routers()[0].clone().try_into().unwrap(),
        dest: LOCAL,
        recipient: h256(&r.addr),
        body: b,
    };
    let before = ch.clone();
    let t = ch.exec(&w.user, &w.b.mb, &process_msg(&[1], &m.enc()), &[]);
    let want = i.cut.is_none() && val.is_some() && (r.kind.bridged || held >= val.unwrap());
    ensure_eq!(t.ok(), want, "delivery ({})", t.err());
    let (b0, b1) = (r.everything(&before), r.everything(&ch));
    if !want {
        ensure_eq!(ch.key(), before.key(), "state after a refused delivery");
        cov.hit("refused");
        return Ok(dig(i));
    }
    let v = val.unwrap();
    let mut exp = b0.clone();
    if !r.kind.bridged {
        *exp.get_mut(&(r.addr.clone(), r.token.clone())).unwrap() -= v;
    }
    *exp.entry((who, r.token.clone())).or_default() += v;
    exp.retain(|_, v| *v > 0);
    ensure_eq!(b1, exp, "balances after the delivery");
    ensure_eq!(
        r.supply(&ch),
        r.supply(&before) + if r.kind.bridged { v } else { 0 },
        "supply"
    );
    cov.hit("credited");
    Ok(dig(i))
}

/// the mailbox a transfer goes to is a probe which shows what it is told
#[derive(Clone, Debug)]
struct Told {
    k: usize,
    requested: Option<usize>,
    configured: Option<usize>,
    meta: usize,
    amount: u128,
    dest: u32,
}
fn told_worlds() -> Res<Vec<(World, Vec<String>)>> {
    let mut l = vec![];
    for kind in KINDS {
        let mut w = world(kind, 1 << 100)?;
        let mb = probe(&mut w.ch, |p| p.dispatch = true);
        let owner = w.owner.clone();
        call(&mut w.ch, &owner, &w.r.addr, json!({"connection": {"set_mailbox": {"mailbox": mb}}}))?;
        let pool = vec![
            mb,
            w.r.addr.clone(),
            w.b.default.clone(),
            w.b.mb.clone(),
            w.owner.clone(),
            w.user.clone(),
            if kind.cw20 { w.r.token.clone() } else { w.b.required.clone() },
            w.ch.user("nobody"),
            b32(HRP, &[0; 20]),
            b32(HRP, &[0xff; 32]),
        ];
        l.push((w, pool));
    }
    Ok(l)
}
const TOLD: usize = 10;
fn told_case(l: &Vec<(World, Vec<String>)>, k: &Told, cov: &mut Cov) -> Res<u128> {
    let (w, pool) = &l[k.k];
    let mut ch = w.ch.clone();
    if let Some(x) = k.configured {
        call(&mut ch, &w.owner, &w.r.addr, set_conn(1, &pool[x]))?;
        let q = ch.query(&w.r.addr, &json!({"connection": {"get_hook": {}}}))?;
        ensure_eq!(q["hook"], json!(pool[x]), "hook query");
    }
    call(&mut ch, &w.owner, &w.r.addr, enroll(k.dest, Some(&routers()[0])))?;
    let meta = metas()[k.meta].clone();
    let rec = fill("beneficiary", 32);
    let m = transfer_msg(k.dest, &rec, k.amount, k.requested.map(|x| pool[x].as_str()), meta.as_deref());
    let along = coins(&[("abc", 7), ("fee", 2)]);
    let t = try_call(&mut ch, &w.user, &w.r.addr, &m, &w.r.funds(k.amount, &along));
    ensure!(t.ok(), "transfer: {}", t.err());
    let calls = t.calls_to(&pool[0]);
    ensure_eq!(calls.len(), 1, "calls of the mailbox");
    let (from, d, f) = &calls[0];
    let d = &d["dispatch"];
    ensure_eq!(from.as_str(), w.r.addr.as_str(), "caller of the mailbox");
    ensure_eq!(coins_sum(&[f.clone()]), along, "forwarded to the mailbox");
    ensure_eq!(d["dest_domain"], json!(k.dest), "destination");
    ensure_eq!(d["recipient_addr"], json!(hx(&routers()[0])), "router");
    ensure_eq!(
        d["msg_body"],
        json!(hx(&body(&rec.clone().try_into().unwrap(), &u256(k.amount), b""))),
        "body"
    );
    let hook = k.requested.or(k.configured).map(|x| pool[x].clone());
    ensure_eq!(d["hook"], json!(hook), "hook named to the mailbox");
    ensure_eq!(
        d["metadata"].as_str().unwrap_or(""),
        hx(&meta.unwrap_or_default()),
        "metadata handed to the mailbox"
    );
    cov.hit("told");
    Ok(ch.key() ^ dig(k))
}
fn told(c: &mut Ctx) {
    let mut v = vec![];
    let hooks: Vec<Option<usize>> = [None].into_iter().chain((0..TOLD).map(Some)).collect();
    for k in 0..4 {
        for requested in &hooks {
            for configured in &hooks {
                for meta in 0..metas().len() {
                    for amount in [1u128, 1000, 1_000_000_000_000_000_000] {
                        for dest in [0x0a0b_0c0d, 0, LOCAL, u32::MAX] {
                            if meta != 1 && (amount != 1000 || dest != 0x0a0b_0c0d) {
                                continue;
                            }
                            v.push(Told {
                                k,
                                requested: *requested,
                                configured: *configured,
                                meta,
                                amount,
                                dest,
                            });
                        }
                    }
                }
            }
        }
    }
    c.cases("what the mailbox is told", told_worlds, v, &["told"], told_case);
}

/// no tokens around except what a case gives out
fn bare(kind: Kind) -> Res<World> {
    let mut ch = Chain::new(HRP);
    let owner = ch.user("owner");
    let user = ch.user("alice");
    let b = basic(&mut ch, &owner, LOCAL)?;
    let other = basic(&mut ch, &owner, LOCAL)?;
    let holder = ch.user("holder");
    let hold: Vec<(&str, u128)> = if kind.cw20 && !kind.bridged {
        vec![(holder.as_str(), u128::MAX)]
    } else {
        vec![]
    };
    let r = deploy(&mut ch, &owner, kind, &b.mb, &hold)?;
    call(&mut ch, &owner, &r.addr, enroll(0x0a0b_0c0d, Some(&routers()[0])))?;
    call(&mut ch, &owner, &r.addr, enroll(0x0a0b_0c0c, Some(&routers()[1])))?;
    Ok(World {
        ch,
        r: Arc::new(r),
        b: Arc::new(b),
        other: Arc::new(other),
        owner,
        user,
    })
}
fn worlds() -> Res<Vec<World>> {
    KINDS.iter().map(|k| bare(*k)).collect()
}

/// destinations and origins of the role checks
fn roles_domains() -> Vec<u32> {
    vec![0x0a0b_0c0d, 0x0d0c_0b0a, 0, 1, LOCAL, LOCAL ^ 1, u32::MAX, 0x8000_0000]
}
/// every one of the domains has its own router
fn role_router(i: usize) -> [u8; 32] {
    match i {
        2 => [0; 32],
        6 => [0xff; 32],
        7 => pad32(&fill("evm router", 20)),
        i => fill32(&format!("router {i}")),
    }
}
fn role_worlds() -> Res<Vec<World>> {
    let mut l = worlds()?;
    for w in &mut l {
        for (i, d) in roles_domains().into_iter().enumerate() {
            let r = role_router(i);
            // one of them is the route itself
            let r = if i == 4 { h256(&w.r.addr) } else { r };
            let (o, a) = (w.owner.clone(), w.r.addr.clone());
            call(&mut w.ch, &o, &a, enroll(d, Some(&r)))?;
        }
    }
    Ok(l)
}
fn outgoing_roles(l: &Vec<World>, (k, who, rec, hook, dest): &(usize, usize, usize, u8, usize), cov: &mut Cov) -> Res<u128> {
    let w = &l[*k];
    let r = &w.r;
    let mut ch = w.ch.clone();
    let asked = quiet_hook(&mut ch);
    reprobe(&mut ch, &w.b.required, |p| p.quote = vec![("fee".into(), "2".into())]);
    let router = if *dest == 4 { h256(&r.addr) } else { role_router(*dest) };
    let user = match who {
        0 => ch.user("carol"),
        1 => w.owner.clone(),
        2 => addr_of(HRP, &fill32("a contract")),
        3 => addr_of(HRP, &router),
        4 => w.b.required.clone(),
        _ => addr_of(HRP, &[0xff; 32]),
    };
    // the route does not transfer to itself
    if user == r.addr {
        return Ok(0);
    }
    let rec: [u8; 32] = match rec {
        0 => fill32("somebody"),
        1 => h256(&user),
        2 => h256(&r.addr),
        3 => h256(&w.b.mb),
        4 => [0; 32],
        5 => [0xff; 32],
        6 => router,
        7 => h256(&w.owner),
        _ => {
            if r.kind.cw20 {
                h256(&r.token)
            } else {
                h256(&asked)
            }
        }
    };
    let amount = 1000 + *who as u128;
    r.give(&mut ch, &user, amount + 1);
    r.approve(&mut ch, &user, amount);
    ch.fund(&user, "fee", 10);
    let hk = match hook {
        0 => None,
        1 => Some(asked.clone()),
        2 => Some(w.b.required.clone()),
        3 => Some(w.b.default.clone()),
        _ => Some(probe(&mut ch, |_| {})),
    };
    let before = ch.clone();
    let t = try_call(
        &mut ch,
        &user,
        &r.addr,
        &transfer_msg(roles_domains()[*dest], &rec, amount, hk.as_deref(), Some(b"md")),
        &r.funds(amount, &coins(&[("fee", 5)])),
    );
    ensure!(t.ok(), "transfer: {}", t.err());
    let selected = hk.unwrap_or(w.b.default.clone());
    let mut exp = r.everything(&before);
    let mut mv = |from: &str, to: Option<&str>, d: &str, n: u128| {
        *exp.entry((from.into(), d.into())).or_default() -= n;
        if let Some(t) = to {
            *exp.entry((t.into(), d.into())).or_default() += n;
        }
    };
    mv(&user, if r.kind.bridged { None } else { Some(&r.addr) }, &r.token, amount);
    mv(&user, Some(&w.b.required), "fee", 2);
    mv(&user, Some(&selected), "fee", 3);
    exp.retain(|_, v| *v > 0);
    let b1: BTreeMap<_, _> = r.everything(&ch).into_iter().filter(|x| x.1 > 0).collect();
    ensure_eq!(b1, exp, "balances after the transfer");
    ensure_eq!(
        r.supply(&ch),
        r.supply(&before) - if r.kind.bridged { amount } else { 0 },
        "supply"
    );
    let ms = dispatched(&t, &w.b.mb)?;
    ensure_eq!(ms.len(), 1, "dispatched messages");
    ensure_eq!(
        (ms[0].dest, ms[0].recipient, ms[0].sender),
        (roles_domains()[*dest], router, h256(&r.addr)),
        "route of the message"
    );
    ensure_eq!(hx(&ms[0].body), hx(&body(&rec, &u256(amount), b"")), "dispatched body");
    let pd = post_dispatch(b"md", &ms[0].enc());
    let mut want = vec![(w.b.required.clone(), coins(&[("fee", 2)])), (selected, coins(&[("fee", 3)]))];
    let mut got = vec![];
    for h in [&asked, &w.b.required, &w.b.default, &want[1].0.clone()] {
        for c in t.calls_to(h) {
            ensure_eq!(c.1, pd, "hook call");
            if !got.contains(&(h.clone(), c.2.clone())) {
                got.push((h.clone(), c.2.clone()));
            }
        }
    }
    got.sort();
    want.sort();
    ensure_eq!(got, want, "hook calls");
    cov.hit("sent");
    Ok(dig(&(k, who, rec, hook, dest)))
}
fn incoming_roles(l: &Vec<World>, (k, origin, rec, relayer, shape): &(usize, usize, usize, u8, u8), cov: &mut Cov) -> Res<u128> {
    let w = &l[*k];
    let r = &w.r;
    let mut ch = w.ch.clone();
    let router = if *origin == 4 { h256(&r.addr) } else { role_router(*origin) };
    let rec: [u8; 32] = match rec {
        0 => fill32("somebody"),
        1 => h256(&w.user),
        2 => h256(&w.owner),
        3 => h256(&w.b.mb),
        4 => h256(&w.b.ism),
        5 => h256(&w.b.required),
        6 => h256(&w.b.default),
        7 => h256(&w.other.mb),
        8 => router,
        9 => [0; 32],
        10 => [0xff; 32],
        11 => h256(&ch.user("holder")),
        12 => pad32(&[0; 20]),
        _ => {
            if r.kind.cw20 {
                h256(&r.token)
            } else {
                h256(&ch.user("a user"))
            }
        }
    };
    // the route as a recipient is not judged here
    if rec == h256(&r.addr) {
        return Ok(0);
    }
    let who = addr_of(HRP, &rec);
    let amount = 77 + *shape as u128;
    if !r.kind.bridged {
        if r.kind.cw20 {
            let h = ch.user("holder");
            let m = json!({"transfer": {"recipient": r.addr, "amount": "500"}});
            ok(ch.exec(&h, &r.token, &m, &[]), "locking")?;
        } else {
            ch.fund(&r.addr, &r.token, 500);
        }
    }
    // something is there already
    ch.fund(&who, "fee", 3);
    let by = match relayer {
        0 => w.user.clone(),
        1 => w.owner.clone(),
        2 => who.clone(),
        _ => addr_of(HRP, &router),
    };
    let (nonce, meta): (u32, Vec<u8>) = match shape {
        0 => (0, vec![]),
        1 => (1, vec![0]),
        2 => (u32::MAX, fill("m", 31)),
        3 => (77, fill("m", 32)),
        4 => (1 << 31, fill("m", 33)),
        _ => (5, fill("m", 500)),
    };
    let m = Msg {
        version: 3,
        nonce,
        origin: roles_domains()[*origin],
        sender: router,
        dest: LOCAL,
        recipient: h256(&r.addr),
        body: body(&rec, &u256(amount), &meta),
    };
    let mut exp = r.everything(&ch);
    let s0 = r.supply(&ch);
    call(&mut ch, &by, &w.b.mb, process_msg(&[1], &m.enc()))?;
    *exp.entry((who, r.token.clone())).or_default() += amount;
    if !r.kind.bridged {
        *exp.get_mut(&(r.addr.clone(), r.token.clone())).unwrap() -= amount;
    }
    ensure_eq!(r.everything(&ch), exp, "balances after the delivery");
    ensure_eq!(r.supply(&ch), s0 + if r.kind.bridged { amount } else { 0 }, "supply");
    cov.hit("credited");
    Ok(dig(&(k, origin, rec, relayer, shape)))
}
fn coins_and_metadata(
    l: &Vec<World>,
    (k, len, n, fillb, hook, req): &(usize, usize, usize, usize, u8, u8),
    cov: &mut Cov,
) -> Res<u128> {
    let w = &l[*k];
    let r = &w.r;
    let mut ch = w.ch.clone();
    let user = ch.user("carol");
    let (asked, configured) = (quiet_hook(&mut ch), quiet_hook(&mut ch));
    if hook & 2 > 0 {
        call(&mut ch, &w.owner, &r.addr, set_conn(1, &configured))?;
    }
    // denominations around that of the token
    let extra: Coins = coins_sum(&[(0..*n)
        .map(|i| (format!("{}{i}", ["a", "u", "uat", "factory/", "z"][i % 5]), 10 + i as u128))
        .collect::<Vec<_>>()]);
    let fee: Coins = match req {
        0 => vec![],
        1 => extra.iter().take(1).map(|x| (x.0.clone(), 1)).collect(),
        _ => extra.iter().map(|x| (x.0.clone(), x.1 - 1)).collect(),
    };
    reprobe(&mut ch, &w.b.required, |p| {
        p.quote = fee.iter().map(|x| (x.0.clone(), x.1.to_string())).collect()
    });
    for (d, a) in &extra {
        ch.fund(&user, d, *a);
    }
    let amount = 40u128;
    r.give(&mut ch, &user, amount);
    r.approve(&mut ch, &user, amount);
    let md = match fillb {
        0 => fill("metadata", *len),
        1 => vec![0; *len],
        _ => vec![0xff; *len],
    };
    let d0 = 0x0a0b_0c0d;
    let before = ch.clone();
    let t = try_call(
        &mut ch,
        &user,
        &r.addr,
        &transfer_msg(d0, &fill32("r"), amount, if hook & 1 > 0 { Some(&asked) } else { None }, Some(&md)),
        &r.funds(amount, &extra),
    );
    ensure!(t.ok(), "transfer: {}", t.err());
    let selected = match hook {
        0 => &w.b.default,
        2 => &configured,
        _ => &asked,
    };
    let rest = coins_sub(&extra, &fee).ok_or("fee")?;
    let ms = dispatched(&t, &w.b.mb)?;
    ensure_eq!(ms.len(), 1, "dispatched messages");
    ensure_eq!(hx(&ms[0].body), hx(&body(&fill32("r"), &u256(amount), b"")), "dispatched body");
    let pd = post_dispatch(&md, &ms[0].enc());
    for h in [selected, &w.b.required] {
        let calls = t.calls_to(h);
        ensure_eq!(calls.len(), 1, "calls to the hook");
        ensure_eq!(calls[0].1, pd, "hook call");
    }
    let mut exp = r.everything(&before);
    for (h, l) in [(selected, &rest), (&w.b.required, &fee)] {
        for (d, a) in l {
            *exp.entry((user.clone(), d.clone())).or_default() -= a;
            *exp.entry((h.clone(), d.clone())).or_default() += a;
        }
    }
    *exp.entry((user.clone(), r.token.clone())).or_default() -= amount;
    if !r.kind.bridged {
        *exp.entry((r.addr.clone(), r.token.clone())).or_default() += amount;
    }
    exp.retain(|_, v| *v > 0);
    let b1: BTreeMap<_, _> = r.everything(&ch).into_iter().filter(|x| x.1 > 0).collect();
    ensure_eq!(b1, exp, "balances after the transfer");
    cov.hit("sent");
    Ok(dig(&(k, len, n, fillb, hook, req)))
}

pub fn w03(c: &mut Ctx) {
    c.assume("amounts are positive; the recipient is not the route itself; fees charged by the required hook are what its quote says");
    let edge: Vec<u128> = {
        let mut v = vec![1u128, 2, 3, 10, 99, 100, 1000, 1_000_000, 1_000_000_000_000_000_000, 255, 256, 257, 65535, 65536, 9_999_999, 1 << 32];
        for b in [31u32, 32, 53, 63, 64, 65, 96, 127] {
            v.push((1u128 << b) - 1);
            v.push(1u128 << b);
            v.push((1u128 << b) + 1);
        }
        v.push(u128::MAX - 1);
        v.push(u128::MAX);
        v.sort();
        v.dedup();
        v
    };
    let few: Vec<u128> = c.pick(vec![2, 100, 1 << 64], vec![1, 2, 100, (1 << 64) - 1, 1 << 64, u128::MAX - 2000]);
    let mut v = vec![];
    let base = Out {
        k: 0,
        amount: 100,
        given: 0,
        have: Have::Plenty,
        extra: 0,
        hook: 0,
        meta: 0,
        rec: 32,
        req: 0,
    };
    for k in 0..4 {
        for a in &edge {
            for have in [Have::Plenty, Have::Exact, Have::Less, Have::Nothing] {
                for given in [-2, -1, 0, 1, 2] {
                    v.push(Out {
                        k,
                        amount: *a,
                        given,
                        have,
                        ..base.clone()
                    });
                }
            }
        }
        for a in &few {
            for given in [-1, 0, 1] {
                for extra in 0..EXTRAS.len() {
                    for hook in 0..4 {
                        for meta in 0..metas().len() {
                            for req in 0..REQ.len() {
                                v.push(Out {
                                    k,
                                    amount: *a,
                                    given,
                                    extra,
                                    hook,
                                    meta,
                                    req,
                                    ..base.clone()
                                });
                            }
                        }
                    }
                }
            }
        }
        for rec in 0..=96 {
            for (extra, hook) in [(0, 0), (4, 3)] {
                v.push(Out {
                    k,
                    rec,
                    extra,
                    hook,
                    ..base.clone()
                });
            }
        }
    }
    c.cases("outgoing transfers", worlds, v, &["sent", "refused"], |l: &Vec<World>, o, cov| {
        outgoing_case(&l[o.k], o, cov)
    });

    let mut v = vec![];
    let w0 = bare(KINDS[0]).map(|w| recipients(&w).len()).unwrap_or(12);
    for k in 0..4 {
        let mut amts: Vec<Amt> = edge.iter().map(|a| Amt::V(*a)).collect();
        for b in 0..128 {
            amts.push(Amt::V(1 << b));
        }
        for b in 128..256usize {
            for low in [0u128, 5, u128::MAX] {
                let mut x = u256(low);
                x[31 - b / 8] |= 1 << (b % 8);
                amts.push(Amt::Big(x.to_vec()));
            }
        }
        amts.push(Amt::Big(vec![0xff; 32]));
        for a in amts {
            for held in [-1i8, 0, 1] {
                if held != 0 && (matches!(a, Amt::Big(_)) || KINDS[k].bridged) {
                    continue;
                }
                v.push(In {
                    k,
                    amount: a.clone(),
                    rec: 0,
                    meta: 0,
                    cut: None,
                    held,
                });
            }
        }
        for rec in 0..w0 {
            for a in [1u128, 7, 1 << 64, u128::MAX / 2] {
                for meta in 0..TRAILING {
                    v.push(In {
                        k,
                        amount: Amt::V(a),
                        rec,
                        meta,
                        cut: None,
                        held: 1,
                    });
                }
            }
        }
        for n in sizes(c.thorough()) {
            v.push(In {
                k,
                amount: Amt::V(7),
                rec: n % w0,
                meta: TRAILING + n,
                cut: None,
                held: 1,
            });
        }
        for cut in 0..64 {
            v.push(In {
                k,
                amount: Amt::V(1),
                rec: 1,
                meta: 0,
                cut: Some(cut),
                held: 1,
            });
        }
    }
    c.cases("incoming transfers", worlds, v, &["credited", "refused"], |l: &Vec<World>, i, cov| {
        incoming_case(&l[i.k], i, cov)
    });

    // what leaves one route is what arrives at another, for every pair of kinds, address form and
    // amount
    let mut v = vec![];
    for a in 0..4usize {
        for b in 0..4usize {
            for amt in &edge {
                for form in 0..3usize {
                    v.push((a, b, *amt, form));
                }
            }
        }
    }
    c.cases(
        "there and back",
        worlds,
        v,
        &["arrived"],
        |l: &Vec<World>, (a, b, amt, form), cov| {
            let (x, y) = (&l[*a], &l[*b]);
            let mut cx = x.ch.clone();
            let mut cy = y.ch.clone();
            let user = cx.user("carol");
            x.r.give(&mut cx, &user, *amt);
            x.r.approve(&mut cx, &user, *amt);
            let rec: [u8; 32] = match form {
                0 => h256(&cy.user("dave")),
                1 => fill32("a contract account"),
                _ => {
                    let mut r = fill32("leading zeros");
                    r[..11].fill(0);
                    r[11] = 1;
                    r
                }
            };
            let t = try_call(
                &mut cx,
                &user,
                &x.r.addr,
                &transfer_msg(0x0a0b_0c0d, &rec, *amt, None, None),
                &x.r.funds(*amt, &vec![]),
            );
            ensure!(t.ok(), "transfer: {}", t.err());
            let ms = dispatched(&t, &x.b.mb)?;
            ensure_eq!(ms.len(), 1, "messages");
            if !y.r.kind.bridged {
                if y.r.kind.cw20 {
                    let h = cy.user("holder");
                    let m = json!({"transfer": {"recipient": y.r.addr, "amount": amt.to_string()}});
                    ok(cy.exec(&h, &y.r.token, &m, &[]), "locking")?;
                } else {
                    cy.fund(&y.r.addr, &y.r.token, *amt);
                }
            }
            // carried over by an enrolled router of the other chain
            let m = Msg {
                origin: 0x0a0b_0c0d,
                sender: routers()[0].clone().try_into().unwrap(),
                dest: LOCAL,
                recipient: h256(&y.r.addr),
                ..ms[0].clone()
            };
            let t = cy.exec(&y.user, &y.b.mb, &process_msg(&[1], &m.enc()), &[]);
            ensure!(t.ok(), "delivery: {}", t.err());
            ensure_eq!(y.r.bal(&cy, &addr_of(HRP, &rec)), *amt, "credited");
            ensure_eq!(y.r.bal(&cy, &y.r.addr), 0, "left at the route");
            ensure_eq!(x.r.bal(&cx, &user), 0, "left at the sender");
            cov.hit("arrived");
            Ok(dig(&(a, b, amt, form)))
        },
    );

    // who sends, to whom, where to, with which hook
    let nw = 6usize;
    let nr = 9usize;
    let nd = roles_domains().len();
    let mut v = vec![];
    for k in 0..4usize {
        for who in 0..nw {
            for rec in 0..nr {
                for hook in 0..5u8 {
                    for dest in 0..nd {
                        v.push((k, who, rec, hook, dest));
                    }
                }
            }
        }
    }
    told(c);
    c.cases("roles of the sender, the recipient and the hook", role_worlds, v, &["sent"], outgoing_roles);
    let mut v = vec![];
    for k in 0..4usize {
        for origin in 0..nd {
            for rec in 0..14usize {
                for relayer in 0..4u8 {
                    for shape in 0..6u8 {
                        v.push((k, origin, rec, relayer, shape));
                    }
                }
            }
        }
    }
    c.cases("roles of the recipient and the relayer", role_worlds, v, &["credited"], incoming_roles);
    // more coins, longer metadata, other denominations
    let mut v = vec![];
    for k in 0..4usize {
        for n in 0..20usize {
            for hook in 0..4u8 {
                for req in 0..3u8 {
                    v.push((k, 0usize, n, 0usize, hook, req));
                }
            }
        }
        for len in sizes(c.thorough()) {
            for fillb in 0..3usize {
                v.push((k, len, 2, fillb, (len % 4) as u8, 1));
            }
        }
    }
    c.cases("coins and metadata", role_worlds, v, &["sent"], coins_and_metadata);
    let denoms = [
        "uatom",
        "abc",
        "zzzz",
        "a23",
        "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2",
        "factory/osmo1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqmcn030/uwarp",
        "gamm/pool/1",
        "Upper.Case-dash_and:colon",
        "x12345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678",
    ];
    let subs = ["uwarp", "a", "UPPER", "with/slash", "dots.and-dashes_1:2", "0numeric", "x2345678901234567890123456789012345678901234"];
    let mut v = vec![];
    for a in [1u128, 5, 1 << 64, (1 << 126) - 3] {
        for extra in 0..EXTRAS.len() {
            for d in denoms {
                v.push((false, d, a, extra));
            }
            for d in subs {
                v.push((true, d, a, extra));
            }
        }
    }
    c.cases("denominations", || Ok(()), v, &["sent", "credited"], |_, (bridged, denom, a, extra), cov| {
        let kind = Kind {
            cw20: false,
            bridged: *bridged,
        };
        let mut ch = Chain::new(HRP);
        let owner = ch.user("owner");
        let b = basic(&mut ch, &owner, LOCAL)?;
        let r = deploy_of(&mut ch, &owner, kind, &b.mb, &[], denom)?;
        call(&mut ch, &owner, &r.addr, enroll(0x0a0b_0c0d, Some(&routers()[0])))?;
        let al = ch.user("alice");
        r.give(&mut ch, &al, *a + 1);
        let ex: Coins = coins(EXTRAS[*extra]).into_iter().filter(|x| x.0 != r.token).collect();
        for (d, n) in &ex {
            ch.fund(&al, d, *n);
        }
        // as many as necessary of anything else do not help
        let near = [
            format!("{}x", r.token),
            format!("{}/x", r.token),
            format!("{}0", r.token),
            format!("a{}", r.token),
            format!("x/{}", r.token),
            r.token.replacen('a', "A", 1),
            r.token.rsplit('/').next().unwrap().to_string(),
        ];
        let near: Vec<&str> = near.iter().map(|x| x.as_str()).collect();
        for other in [["other", "factory/other/uwarp", &r.token.to_uppercase(), &r.token[..r.token.len() - 1]].as_slice(), &near].concat() {
            if other == r.token || ex.iter().any(|x| x.0 == other) {
                continue;
            }
            let mut c2 = ch.clone();
            c2.fund(&al, other, *a);
            let pre = c2.key();
            let att = coins_sum(&[vec![(other.to_string(), *a)], ex.clone()]);
            let t = try_call(&mut c2, &al, &r.addr, &transfer_msg(0x0a0b_0c0d, &fill32("r"), *a, None, None), &att);
            ensure!(!t.ok(), "paid with {other}");
            ensure_eq!(c2.key(), pre, "state");
            // nor does some of the token help
            let att = coins_sum(&[vec![(other.to_string(), *a), (r.token.clone(), *a - 1)], ex.clone()]);
            let t = try_call(&mut c2, &al, &r.addr, &transfer_msg(0x0a0b_0c0d, &fill32("r"), *a, None, None), &att);
            ensure!(!t.ok(), "paid with {other} and less than the amount of the token");
            ensure_eq!(c2.key(), pre, "state");
            // and it is forwarded when it comes along
            let att = coins_sum(&[vec![(other.to_string(), *a)], r.funds(*a, &ex)]);
            let t = try_call(&mut c2, &al, &r.addr, &transfer_msg(0x0a0b_0c0d, &fill32("r"), *a, None, None), &att);
            ensure!(t.ok(), "transfer with {other} along: {}", t.err());
            ensure_eq!(c2.bal(&b.default, other), *a, "{other} forwarded");
            ensure_eq!(c2.bal(&r.addr, other), 0, "{other} kept");
        }
        let before = ch.clone();
        let t = try_call(&mut ch, &al, &r.addr, &transfer_msg(0x0a0b_0c0d, &fill32("r"), *a, None, None), &r.funds(*a, &ex));
        ensure!(t.ok(), "transfer: {}", t.err());
        let x = |w: &str, d: &str, n: i128| ((w.to_string(), d.to_string()), n);
        let mut want = BTreeMap::from([x(&al, &r.token, -(*a as i128))]);
        if !bridged {
            want.extend([x(&r.addr, &r.token, *a as i128)]);
        }
        for (d, n) in &ex {
            want.extend([x(&al, d, -(*n as i128)), x(&b.default, d, *n as i128)]);
        }
        ensure_eq!(bank_delta(&before, &ch), want, "balance changes");
        cov.hit("sent");
        let rec = fill32("receiver");
        let m = Msg {
            version: 3,
            nonce: 5,
            origin: 0x0a0b_0c0d,
            sender: routers()[0].clone().try_into().unwrap(),
            dest: LOCAL,
            recipient: h256(&r.addr),
            body: body(&rec, &u256(*a), b""),
        };
        let before = ch.clone();
        call(&mut ch, &al, &b.mb, process_msg(&[1], &m.enc()))?;
        let mut want = BTreeMap::from([x(&addr_of(HRP, &rec), &r.token, *a as i128)]);
        if !bridged {
            want.extend([x(&r.addr, &r.token, -(*a as i128))]);
        }
        ensure_eq!(bank_delta(&before, &ch), want, "balance changes");
        cov.hit("credited");
        Ok(ch.key())
    });
}

// ------------------------------------------------------------------ W04

#[derive(Clone)]
struct S4 {
    w: World,
    mbs: Arc<Vec<Basic>>,
    hooks: Arc<Vec<String>>,
    isms: Arc<Vec<String>>,
    mb: usize,
    mb_set: bool,
    hook: Option<usize>,
    ism: Option<usize>,
    owner: usize,
}
#[derive(Clone, Debug)]
enum A4 {
    Mailbox(usize),
    Hook(usize),
    Ism(usize),
    /// somebody else sets (0 mailbox, 1 hook, 2 module)
    Stranger(u8, usize),
    /// hand the route over to the other owner
    Handover,
    /// the routes are changed, which concerns no setting
    Enroll,
    /// a transfer takes place
    Use,
}
struct M4 {
    kind: Kind,
    n: usize,
}
fn delivery(w: &World) -> Msg {
    probe_message(w, 0x0a0b_0c0d, &routers()[0].clone().try_into().unwrap())
}
fn set_conn(what: u8, addr: &str) -> Value {
    match what {
        0 => json!({"connection": {"set_mailbox": {"mailbox": addr}}}),
        1 => json!({"connection": {"set_hook": {"hook": addr}}}),
        _ => json!({"connection": {"set_ism": {"ism": addr}}}),
    }
}
const OWNERS: [&str; 2] = ["owner", "owner2"];
impl Model for M4 {
    type S = S4;
    type A = A4;
    fn init(&self) -> Res<Vec<(String, S4)>> {
        let mut w = world(self.kind, 1_000_000)?;
        let owner = w.owner.clone();
        call(&mut w.ch, &owner, &w.r.addr, enroll(0x0a0b_0c0d, Some(&routers()[0])))?;
        let mut mbs = vec![Basic {
            mb: w.b.mb.clone(),
            required: w.b.required.clone(),
            default: w.b.default.clone(),
            ism: w.b.ism.clone(),
        }];
        let mut hooks = vec![];
        let mut isms = vec![];
        for i in 0..self.n {
            mbs.push(basic(&mut w.ch, &owner, LOCAL)?);
            hooks.push(quiet_hook(&mut w.ch));
            // modules which accept different metadata
            let m = vec![0x10 + i as u8];
            let message = delivery(&w).enc();
            isms.push(probe(&mut w.ch, |p| {
                p.verify = "exact".into();
                p.want_meta = hx(&m);
                p.want_msg = hx(&message);
            }));
        }
        Ok(vec![(
            "as created".into(),
            S4 {
                w,
                mbs: Arc::new(mbs),
                hooks: Arc::new(hooks),
                isms: Arc::new(isms),
                mb: 0,
                mb_set: false,
                hook: None,
                ism: None,
                owner: 0,
            },
        )])
    }
    fn actions(&self, _: &S4) -> Vec<A4> {
        let mut v = vec![];
        for i in 0..=self.n {
            v.push(A4::Mailbox(i));
        }
        for i in 0..self.n {
            v.push(A4::Hook(i));
            v.push(A4::Ism(i));
            for k in 0..3 {
                v.push(A4::Stranger(k, i));
            }
        }
        v.push(A4::Handover);
        v.push(A4::Enroll);
        v.push(A4::Use);
        v
    }
    fn key(&self, s: &S4) -> u128 {
        s.w.ch.key() ^ dig(&(s.mb, s.mb_set, s.hook, s.ism, s.owner))
    }
    fn step(&self, s: &S4, a: &A4, cov: &mut Cov) -> Res<Step<S4>> {
        let mut n = s.clone();
        let to = s.w.r.addr.clone();
        let own = s.w.ch.user(OWNERS[s.owner]);
        match a {
            A4::Mailbox(i) => {
                call(&mut n.w.ch, &own, &to, set_conn(0, &s.mbs[*i].mb))?;
                n.mb = *i;
                n.mb_set = true;
            }
            A4::Hook(i) => {
                call(&mut n.w.ch, &own, &to, set_conn(1, &s.hooks[*i]))?;
                n.hook = Some(*i);
            }
            A4::Ism(i) => {
                call(&mut n.w.ch, &own, &to, set_conn(2, &s.isms[*i]))?;
                n.ism = Some(*i);
            }
            A4::Stranger(k, i) => {
                let addr = [&s.mbs[*i].mb, &s.hooks[*i], &s.isms[*i]][*k as usize];
                for who in [
                    s.w.ch.user(OWNERS[1 - s.owner]),
                    s.w.user.clone(),
                    s.mbs[s.mb].mb.clone(),
                    to.clone(),
                    addr.clone(),
                ] {
                    let t = n.w.ch.exec(&who, &to, &set_conn(*k, addr), &[]);
                    ensure!(!t.ok(), "setting changed by {who}");
                    ensure_eq!(n.w.ch.key(), s.w.ch.key(), "state");
                }
                cov.hit("stranger refused");
                return Ok(Step::Same);
            }
            A4::Handover => {
                let next = s.w.ch.user(OWNERS[1 - s.owner]);
                call(
                    &mut n.w.ch,
                    &own,
                    &to,
                    json!({"ownable": {"init_ownership_transfer": {"next_owner": next}}}),
                )?;
                call(&mut n.w.ch, &next, &to, json!({"ownable": {"claim_ownership": {}}}))?;
                n.owner = 1 - s.owner;
            }
            A4::Enroll => {
                let v = s
                    .w
                    .ch
                    .query(&to, &json!({"router": {"get_route": {"domain": 5}}}))
                    .map_err(|e| format!("route query {e}"))?;
                let r = routers()[1].clone();
                let on = v["route"]["route"].is_null();
                call(
                    &mut n.w.ch,
                    &own,
                    &to,
                    enroll(5, if on { Some(&r) } else { None }),
                )?;
            }
            A4::Use => {
                // at most two real transfers per history
                if s.w.r.bal(&s.w.ch, &s.w.user) < 1_000_000 - 4 {
                    return Ok(Step::Same);
                }
                n.w.ch = self.send(s, None, cov)?;
            }
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S4, cov: &mut Cov) -> Res<()> {
        let w = &s.w;
        let q = |v: Value, k: &str| -> Res<Value> {
            Ok(w.ch.query(&w.r.addr, &v).map_err(|e| format!("{v}: {e}"))?[k].clone())
        };
        let ism = s.ism.map(|i| s.isms[i].clone());
        let hook = s.hook.map(|i| s.hooks[i].clone());
        ensure_eq!(q(json!({"connection": {"get_ism": {}}}), "ism")?, json!(ism), "module query");
        ensure_eq!(q(json!({"connection": {"get_hook": {}}}), "hook")?, json!(hook), "hook query");
        ensure_eq!(
            q(json!({"ism_specifier": {"interchain_security_module": []}}), "ism")?,
            json!(ism),
            "module offered to the mailbox"
        );
        if s.mb_set {
            ensure_eq!(
                q(json!({"connection": {"get_mailbox": {}}}), "mailbox")?,
                json!(s.mbs[s.mb].mb),
                "mailbox query"
            );
        }
        // outgoing without and with an explicit hook
        self.send(s, None, cov)?;
        for h in s.hooks.iter() {
            self.send(s, Some(h), cov)?;
        }
        // incoming through every mailbox with the metadata of every module
        for (i, b) in s.mbs.iter().enumerate() {
            let v = w
                .ch
                .query(
                    &b.mb,
                    &json!({"mailbox": {"recipient_ism": {"recipient_addr": w.r.addr}}}),
                )
                .map_err(|e| format!("recipient_ism: {e}"))?;
            let used = ism.clone().unwrap_or(b.ism.clone());
            ensure_eq!(v["ism"], json!(used), "module for the route");
            let mut metas: Vec<Vec<u8>> = vec![vec![1], vec![0]];
            for j in 0..self.n {
                metas.push(vec![0x10 + j as u8]);
            }
            for m in metas {
                let accepted = match s.ism {
                    None => m == [1],
                    Some(j) => m == [0x10 + j as u8],
                };
                let mut ch = w.ch.clone();
                let rec = fill32("somebody");
                let msg = delivery(w);
                let t = ch.exec(&w.user, &b.mb, &process_msg(&m, &msg.enc()), &[]);
                let want = i == s.mb && accepted;
                ensure_eq!(
                    t.ok(),
                    want,
                    "delivery through mailbox {i} with metadata {} ({})",
                    hx(&m),
                    t.err()
                );
                if want {
                    ensure_eq!(w.r.bal(&ch, &addr_of(HRP, &rec)), 5, "credited");
                    cov.hit("honoured");
                } else {
                    ensure_eq!(ch.key(), w.ch.key(), "state after a refused delivery");
                    cov.hit("refused");
                }
            }
        }
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["honoured", "refused", "sent", "stranger refused"]
    }
}
impl M4 {
    fn send(&self, s: &S4, asked: Option<&str>, cov: &mut Cov) -> Res<Chain> {
        let w = &s.w;
        let mut ch = w.ch.clone();
        let t = try_call(
            &mut ch,
            &w.user,
            &w.r.addr,
            &transfer_msg(0x0a0b_0c0d, &fill("r", 32), 3, asked, Some(&[7])),
            &w.r.funds(3, &coins(&[("fee", 2)])),
        );
        ensure!(t.ok(), "transfer: {}", t.err());
        for (i, b) in s.mbs.iter().enumerate() {
            let ms = dispatched(&t, &b.mb)?;
            ensure_eq!(ms.len(), (i == s.mb) as usize, "messages through mailbox {i}");
            let hook = match (asked, s.hook) {
                (Some(h), _) => h,
                (None, Some(h)) => &s.hooks[h],
                _ => &b.default,
            };
            if i == s.mb {
                let pd = post_dispatch(&[7], &ms[0].enc());
                let calls = t.calls_to(hook);
                ensure_eq!(calls.len(), 1, "calls to the selected hook");
                ensure_eq!(calls[0].1, pd, "hook call");
                ensure_eq!(calls[0].2, coins(&[("fee", 2)]), "hook payment");
                for h in s.hooks.iter() {
                    if h != hook {
                        ensure!(t.calls_to(h).is_empty(), "another hook was called");
                    }
                }
            }
            if i != s.mb || hook != b.default {
                ensure!(t.calls_to(&b.default).is_empty(), "default hook of mailbox {i} called");
            }
        }
        cov.hit("sent");
        Ok(ch)
    }
}

pub fn w04(c: &mut Ctx) {
    c.assume("mailboxes, hooks and modules named in the settings exist");
    for kind in KINDS {
        let d = c.pick(5, 7);
        c.run(
            &format!("settings, {}", kind_name(kind)),
            &M4 { kind, n: 2 },
            d,
            5_000_000,
        );
    }
    told(c);
    // one address in several settings, in every order of setting them
    let names = ["mailbox", "mailbox 2", "module and hook", "module and hook 2", "default hook", "default module", "user", "route"];
    let n = names.len();
    let mut v = vec![];
    for k in 0..4usize {
        for a in 0..n {
            for b in 0..n {
                for i in 0..n {
                    for order in [[0u8, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
                        v.push((k, a, b, i, order));
                    }
                }
            }
        }
    }
    c.cases(
        "one address in several settings",
        || {
            let mut l = vec![];
            for kind in KINDS {
                let mut w = world(kind, 1_000_000)?;
                let owner = w.owner.clone();
                call(&mut w.ch, &owner, &w.r.addr, enroll(0x0a0b_0c0d, Some(&routers()[0])))?;
                let p = probe(&mut w.ch, |p| p.verify = "accept".into());
                let p2 = probe(&mut w.ch, |p| p.verify = "accept".into());
                let pool = vec![
                    w.b.mb.clone(),
                    w.other.mb.clone(),
                    p,
                    p2,
                    w.b.default.clone(),
                    w.b.ism.clone(),
                    w.user.clone(),
                    w.r.addr.clone(),
                ];
                l.push((w, pool));
            }
            Ok(l)
        },
        v,
        &["sent", "honoured", "refused"],
        |l: &Vec<(World, Vec<String>)>, (k, a, b, i, order), cov| {
            let (w, pool) = &l[*k];
            let mut ch = w.ch.clone();
            let to = &w.r.addr;
            let val = [&pool[*a], &pool[*b], &pool[*i]];
            for what in order {
                call(&mut ch, &w.owner, to, set_conn(*what, val[*what as usize]))?;
            }
            for (what, key) in [("get_mailbox", "mailbox"), ("get_hook", "hook"), ("get_ism", "ism")] {
                let v = ch.query(to, &json!({"connection": {what: {}}}))?;
                let want = val[["mailbox", "hook", "ism"].iter().position(|x| *x == key).unwrap()];
                ensure_eq!(v[key], json!(want), "{key} query");
            }
            let v = ch.query(to, &json!({"ism_specifier": {"interchain_security_module": []}}))?;
            ensure_eq!(v["ism"], json!(val[2]), "module offered to the mailbox");
            // a transfer goes through the mailbox with the hook
            let mut c2 = ch.clone();
            let t = try_call(
                &mut c2,
                &w.user,
                to,
                &transfer_msg(0x0a0b_0c0d, &fill("r", 32), 3, None, Some(&[7])),
                &w.r.funds(3, &coins(&[("fee", 2)])),
            );
            let hooks = [2usize, 3, 4, 5];
            let want = *a < 2 && hooks.contains(b);
            // a probe in place of the mailbox swallows the dispatch; such a mailbox is nobody's concern
            if *a < 2 || *a >= 6 {
                ensure_eq!(t.ok(), want, "transfer ({})", t.err());
            }
            if want {
                let ms = dispatched(&t, &pool[*a])?;
                ensure_eq!(ms.len(), 1, "dispatched messages");
                ensure_eq!(dispatched(&t, &pool[1 - *a])?.len(), 0, "messages of the other mailbox");
                let calls = t.calls_to(&pool[*b]);
                let pd = post_dispatch(&[7], &ms[0].enc());
                ensure_eq!(calls.iter().filter(|c| c.1 == pd && c.2 == coins(&[("fee", 2)])).count(), 1, "calls to the hook");
                cov.hit("sent");
            }
            // a delivery through either mailbox
            for (j, mb) in pool[..2].iter().enumerate() {
                let mut c2 = ch.clone();
                let m = delivery(w);
                let t = c2.exec(&w.user, mb, &process_msg(&[1], &m.enc()), &[]);
                let verdict = [2usize, 3, 5].contains(i);
                if *i == 4 {
                    continue; // the verdict of a mere hook is not judged
                }
                ensure_eq!(t.ok(), j == *a && verdict, "delivery through mailbox {j} ({})", t.err());
                if t.ok() {
                    ensure_eq!(w.r.bal(&c2, &addr_of(HRP, &fill32("somebody"))), 5, "credited");
                    cov.hit("honoured");
                } else {
                    ensure_eq!(c2.key(), ch.key(), "state");
                    cov.hit("refused");
                }
            }
            // the others have nothing to say
            for who in val {
                for what in 0..3u8 {
                    if *who == w.owner {
                        continue;
                    }
                    let mut c2 = ch.clone();
                    let t = c2.exec(who, to, &set_conn(what, &pool[2]), &[]);
                    ensure!(!t.ok(), "setting changed by {who}");
                }
            }
            Ok(ch.key())
        },
    );
}
