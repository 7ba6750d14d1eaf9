//! X03: token transfers through everything at once: routes, hooks that charge, validators, modules.
use super::compose::{accepts, put, relayer, signatures, Checkpoint, Way, I, KEYS, ORIGINS};
use super::dispatch::{build, Gas, T};
use super::warp::{deploy, dispatched, enroll, transfer_msg, Kind, Route, KINDS};
use crate::chain::{h256, Chain, Coins, TxOut};
use crate::explore::{Cov, CovExt, Ctx, Model, Res, Step};
use crate::util::*;
use crate::{ensure, ensure_eq};
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::Arc;

const HRPS: [&str; 2] = ["osmo", "neutron"];
/// what a route of existing tokens holds at the start
const POOL: u128 = 2_000_000;

type Money = BTreeMap<(String, String), u128>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    /// the default hook
    Default,
    /// a hook named with the transfer
    Named,
    /// a hook set on the route
    Set,
}

/// one chain
#[derive(Clone, Debug)]
struct Side {
    mb: String,
    merkle: String,
    owner: String,
    r: Route,
    users: [String; 2],
    /// contract and what it charges, for the hooks which every transfer passes
    required: Vec<(String, Coins)>,
    selected: Vec<(String, Coins)>,
    /// named with the transfer
    hook: Option<String>,
}
impl Side {
    fn charges(&self) -> Coins {
        coins_sum(&self.required.iter().chain(&self.selected).map(|c| c.1.clone()).collect::<Vec<_>>())
    }
}

#[derive(Clone, Debug)]
struct K {
    kinds: [usize; 2],
    required: T,
    selected: T,
    how: How,
    /// fees are charged in the token itself
    same: bool,
    gas: Option<u128>,
    i: I,
    amounts: [u128; 2],
}

/// the term with fees in another denomination
fn charged_in(t: &T, d: &'static str) -> T {
    let b = |x: &T| Box::new(charged_in(x, d));
    match t {
        T::Fee(_, n) => T::Fee(d, *n),
        T::Igp(_, n) => T::Igp(d, *n),
        T::Agg(l) => T::Agg(l.iter().map(|x| charged_in(x, d)).collect()),
        T::Route(x) => T::Route(b(x)),
        T::Custom(x) => T::Custom(b(x)),
        T::CustomRoute(x) => T::CustomRoute(b(x)),
        T::Fallback(x) => T::Fallback(b(x)),
        T::FallbackRoute(x) => T::FallbackRoute(b(x)),
        T::Merkle | T::Pausable => t.clone(),
    }
}

/// contract addresses do not depend on anything but the order of creation, so these are few
fn name_of(d: &str) -> &'static str {
    use std::sync::Mutex;
    static L: Mutex<BTreeMap<String, &'static str>> = Mutex::new(BTreeMap::new());
    let mut l = L.lock().unwrap();
    if let Some(x) = l.get(d) {
        return x;
    }
    let x: &'static str = Box::leak(d.to_string().into_boxed_str());
    l.insert(d.to_string(), x);
    x
}

/// two chains; hooks are built when both routes are there
fn sides(kinds: [Kind; 2]) -> Res<([Chain; 2], [Side; 2])> {
    let mut chains = vec![];
    let mut sides = vec![];
    for s in 0..2 {
        let mut ch = Chain::new(HRPS[s]);
        let owner = ch.user("owner");
        let mb = mailbox(&mut ch, &owner, ORIGINS[s])?;
        let merkle = inst(&mut ch, "hook_merkle", &owner, json!({ "mailbox": mb }))?;
        let holder = ch.user("holder");
        let hold: Vec<(&str, u128)> = if kinds[s].bridged { vec![] } else { vec![(holder.as_str(), 10 * POOL)] };
        let r = deploy(&mut ch, &owner, kinds[s], &mb, &hold)?;
        let users = [ch.user("alice"), ch.user("bob")];
        for u in &users {
            r.approve(&mut ch, u, u128::MAX);
        }
        chains.push(ch);
        sides.push(Side {
            mb,
            merkle,
            owner,
            r,
            users,
            required: vec![],
            selected: vec![],
            hook: None,
        });
    }
    for s in 0..2 {
        let far = h256(&sides[1 - s].r.addr);
        call(&mut chains[s], &sides[s].owner, &sides[s].r.addr, enroll(ORIGINS[1 - s], Some(&far)))?;
        // there is something to pay out of
        if !kinds[s].bridged {
            let a = sides[s].r.addr.clone();
            sides[s].r.give(&mut chains[s], &a, POOL);
        }
    }
    Ok((chains.try_into().map_err(|_| "two")?, sides.try_into().map_err(|_| "two")?))
}

fn furnish(ch: &mut Chain, s: &mut Side, me: usize, far: [u8; 32], k: &K) -> Res<()> {
    let owner = s.owner.clone();
    let g = Gas {
        default: 70,
        meta: k.gas,
        dest: ORIGINS[1 - me],
        rec: far,
    };
    let d = if k.same && !s.r.kind.cw20 { name_of(&s.r.token) } else { "fee" };
    let req = build(ch, &owner, &s.mb, &charged_in(&k.required, d), &g)?;
    let sel = build(ch, &owner, &s.mb, &charged_in(&k.selected, d), &g)?;
    let both = inst(ch, "hook_aggregate", &owner, json!({"owner": owner, "hooks": [s.merkle, req.addr]}))?;
    let bad = probe(ch, |c| {
        c.post_fail = true;
        c.quote_fail = true;
    });
    let ism = put(ch, &owner, &k.i)?;
    let default = if k.how == How::Default { &sel.addr } else { &bad };
    for m in [
        json!({"set_required_hook": {"hook": both}}),
        json!({"set_default_hook": {"hook": default}}),
        json!({"set_default_ism": {"ism": ism}}),
    ] {
        call(ch, &owner, &s.mb, m)?;
    }
    match k.how {
        How::Default => (),
        How::Named => s.hook = Some(sel.addr.clone()),
        How::Set => {
            let r = s.r.addr.clone();
            call(ch, &owner, &r, json!({"connection": {"set_hook": {"hook": sel.addr}}}))?;
        }
    }
    s.required = req.charge;
    s.selected = sel.charge;
    Ok(())
}

fn add(m: &mut Money, who: &str, d: &str, n: u128) {
    if n > 0 {
        *m.entry((who.to_string(), d.to_string())).or_default() += n;
    }
}
fn sub(m: &mut Money, who: &str, d: &str, n: u128) {
    if n > 0 {
        let e = m.entry((who.to_string(), d.to_string())).or_default();
        *e = e.checked_sub(n).unwrap_or_else(|| panic!("{who} has {e}{d}, not {n}"));
        if *e == 0 {
            m.remove(&(who.to_string(), d.to_string()));
        }
    }
}

/// what a transfer does to the sending chain
fn sent(m: &mut Money, s: &Side, who: &str, amount: u128) {
    sub(m, who, &s.r.token, amount);
    if !s.r.kind.bridged {
        add(m, &s.r.addr, &s.r.token, amount);
    }
    for (h, l) in s.required.iter().chain(&s.selected) {
        for (d, n) in l {
            sub(m, who, d, *n);
            add(m, h, d, *n);
        }
    }
}
/// what its delivery does to the receiving chain
fn received(m: &mut Money, s: &Side, who: &str, amount: u128) {
    add(m, who, &s.r.token, amount);
    if !s.r.kind.bridged {
        sub(m, &s.r.addr, &s.r.token, amount);
    }
}

#[derive(Clone, Debug)]
struct Sent {
    m: Msg,
    amount: u128,
    /// receiving user
    to: usize,
    tree: [u8; 32],
    root: [u8; 32],
    index: u32,
}
impl Sent {
    fn cp(&self) -> Checkpoint {
        Checkpoint {
            tree: self.tree,
            root: self.root,
            index: self.index,
        }
    }
}

/// what validators and relayers see of a transfer: events and queries
fn observed(ch: &Chain, s: &Side, t: &TxOut, amount: u128, to: usize) -> Res<Sent> {
    let l = dispatched(t, &s.mb)?;
    ensure_eq!(l.len(), 1, "messages of a transfer");
    let m = l.into_iter().next().unwrap();
    let e = t.events(&s.merkle, "hpl_hook_merkle::post_dispatch");
    ensure_eq!(e.len(), 1, "insertions of a transfer");
    ensure_eq!(e[0].get("message_id"), Some(&hx(&m.id())), "id inserted");
    let index: u32 = e[0].get("index").and_then(|x| x.parse().ok()).ok_or("index of the insertion")?;
    let cp = ch.query(&s.merkle, &json!({"merkle_hook": {"check_point": {}}}))?;
    ensure_eq!(cp["count"].as_u64(), Some(index as u64), "index of the checkpoint");
    let root: [u8; 32] = unhx(&str_of(&cp, "root")).try_into().map_err(|_| "root")?;
    Ok(Sent {
        m,
        amount,
        to,
        tree: self_h256(&s.merkle),
        root,
        index,
    })
}

fn send(ch: &mut Chain, s: &Side, who: &str, rec: &[u8; 32], amount: u128, hook: Option<&str>, meta: Option<&[u8]>, pay: &Coins, to: u32) -> TxOut {
    let m = transfer_msg(to, rec, amount, hook, meta);
    let f = s.r.funds(amount, pay);
    try_call(ch, who, &s.r.addr, &m, &f)
}

fn gas_meta(gas: Option<u128>) -> Option<Vec<u8>> {
    gas.map(|g| {
        let mut v = u256(g).to_vec();
        v.extend(fill("refund", 20));
        v
    })
}

/// two transfers from one side to the other, one by each user; so many were sent before
fn leg(ch: &mut [Chain; 2], sides: &[Side; 2], from: usize, k: &K, amounts: [u128; 2], base: u32, cov: &mut Cov) -> Res<bool> {
    let (s, d) = (&sides[from], &sides[1 - from]);
    let far = h256(&d.r.addr);
    let total = s.charges();
    let meta = gas_meta(k.gas);
    let mut fly = vec![];
    for u in 0..2 {
        let who = &s.users[u];
        let rec = h256(&d.users[1 - u]);
        let amount = amounts[u];
        // the quote which the route's transfer has to pay
        let hook = s.hook.as_deref().map(str::to_string);
        let asked = match k.how {
            How::Set => str_of(&ch[from].query(&s.r.addr, &json!({"connection": {"get_hook": {}}}))?, "hook"),
            _ => hook.clone().unwrap_or_default(),
        };
        let body = super::warp::body(&rec, &u256(amount), &[]);
        let q = dispatch_body(ORIGINS[1 - from], &far, &body, (!asked.is_empty()).then_some(asked.as_str()), meta.as_deref());
        let q = ch[from]
            .query(&s.mb, &json!({"hook": {"quote_dispatch": {"sender": s.r.addr, "msg": q}}}))
            .map_err(|e| format!("quote: {e}"))?;
        ensure_eq!(fees(&q)?, total, "quote for the transfer");
        for (c, n) in &total {
            ch[from].fund(who, c, *n);
        }
        let before = s.r.everything(&ch[from]);
        // one coin less pays for nothing
        for i in 0..total.len() {
            let mut less = total.clone();
            less[i].1 -= 1;
            less.retain(|c| c.1 > 0);
            let mut c2 = ch[from].clone();
            let t = send(&mut c2, s, who, &rec, amount, s.hook.as_deref(), meta.as_deref(), &less, ORIGINS[1 - from]);
            ensure!(!t.ok(), "a transfer of {amount} paying {less:?} instead of {total:?} succeeded");
            ensure_eq!(c2.key(), ch[from].key(), "state after an underpaid transfer");
            cov.hit("underpaid");
        }
        let t = send(&mut ch[from], s, who, &rec, amount, s.hook.as_deref(), meta.as_deref(), &total, ORIGINS[1 - from]);
        ensure!(t.ok(), "transfer of {amount} paying {total:?}: {}", t.err());
        let mut want = before;
        sent(&mut want, s, who, amount);
        ensure_eq!(s.r.everything(&ch[from]), want, "balances after the transfer");
        let x = observed(&ch[from], s, &t, amount, 1 - u)?;
        ensure_eq!(x.m.recipient, far, "recipient of the message");
        ensure_eq!(x.m.dest, ORIGINS[1 - from], "destination of the message");
        ensure_eq!(x.m.body, body, "body of the message");
        ensure_eq!(x.index, base + fly.len() as u32, "index of the transfer");
        fly.push(x);
    }
    // delivered in either order
    let start = ch[1 - from].clone();
    let mut any = true;
    for order in [[1, 0], [0, 1]] {
        let c = &mut ch[1 - from];
        *c = start.clone();
        for n in order {
            let x = &fly[n];
            let bytes = x.m.enc();
            let sigs = signatures(&x.m, &x.cp());
            let who = &d.users[x.to];
            let at = str_of(&c.query(&d.mb, &json!({"mailbox": {"recipient_ism": {"recipient_addr": d.r.addr}}}))?, "ism");
            let before = d.r.everything(c);
            let (mut done, mut last) = (None, vec![]);
            for signers in 0..1u8 << KEYS {
                let want = accepts(&k.i, from, signers);
                let given = relayer(c, &at, &x.m, &x.cp(), &sigs, signers, Way::First)?;
                ensure!(given.is_some() || !want, "signatures {signers:03b} suffice, and the queries say no");
                let given = given.unwrap_or_default();
                let mut c2 = c.clone();
                let t = c2.exec(&c2.user("relayer"), &d.mb, &process_msg(&given, &bytes), &[]);
                ensure_eq!(t.ok(), want, "delivery of {} signed by {signers:03b} ({})", x.amount, t.err());
                ensure_eq!(delivered(&c2, &d.mb, &x.m.id())?, want, "reported as delivered");
                if want {
                    let mut m = before.clone();
                    received(&mut m, d, who, x.amount);
                    ensure_eq!(d.r.everything(&c2), m, "balances after the delivery");
                    cov.hit("arrived");
                    last = given;
                    done = Some(c2);
                } else {
                    ensure_eq!(c2.key(), c.key(), "state after a refused delivery");
                    cov.hit("refused");
                }
            }
            // what attests the other transfer does not attest this one
            if !accepts(&k.i, from, 0) {
                let y = &fly[1 - n];
                if let Some(other) = relayer(c, &at, &y.m, &y.cp(), &signatures(&y.m, &y.cp()), 7, Way::First)? {
                    let t = c.clone().exec(&c.user("relayer"), &d.mb, &process_msg(&other, &bytes), &[]);
                    ensure!(!t.ok(), "a transfer was delivered with the attestation of another one");
                    cov.hit("other attestation");
                }
            }
            match done {
                None => any = false,
                Some(mut c2) => {
                    let key = c2.key();
                    let t = c2.exec(&c2.user("relayer"), &d.mb, &process_msg(&last, &bytes), &[]);
                    ensure!(!t.ok(), "a transfer arrived twice");
                    ensure_eq!(c2.key(), key, "state after a second delivery");
                    *c = c2;
                }
            }
        }
    }
    Ok(any)
}

fn case(k: &K, cov: &mut Cov) -> Res<u128> {
    let (mut ch, mut sd) = sides([KINDS[k.kinds[0]], KINDS[k.kinds[1]]])?;
    for me in 0..2 {
        let far = h256(&sd[1 - me].r.addr);
        furnish(&mut ch[me], &mut sd[me], me, far, k)?;
    }
    for u in 0..2 {
        let who = sd[0].users[u].clone();
        sd[0].r.give(&mut ch[0], &who, k.amounts[u]);
    }
    let start = [sd[0].r.everything(&ch[0]), sd[1].r.everything(&ch[1])];
    let there = leg(&mut ch, &sd, 0, k, k.amounts, 0, cov)?;
    if !there {
        return Ok(1);
    }
    // and back, half first
    let back = [k.amounts[1], k.amounts[0]];
    let half = back.map(|n| (n / 2).max(1));
    let mut runs = vec![half];
    let rest = [back[0] - half[0], back[1] - half[1]];
    if rest[0] > 0 && rest[1] > 0 {
        runs.push(rest);
    } else {
        runs = vec![back];
    }
    let mut legs = 0u128;
    for l in &runs {
        if !leg(&mut ch, &sd, 1, k, *l, legs as u32 * 2, cov)? {
            return Ok(2);
        }
        legs += 1;
    }
    // nothing is left but the fees, which the hooks hold
    let mut want = start;
    for me in 0..2 {
        let n = if me == 0 { 2 } else { 2 * legs };
        for (h, l) in sd[me].required.iter().chain(&sd[me].selected) {
            for (d, x) in l {
                add(&mut want[me], h, d, n * x);
            }
        }
        ensure_eq!(sd[me].r.everything(&ch[me]), want[me], "balances when everything has returned");
    }
    cov.hit("returned");
    Ok(dig(k))
}

// ------------------------------------------------------------------ histories

#[derive(Clone, Debug)]
enum A {
    /// from, user, everything the user has or a part, with the named hook
    Send(usize, usize, bool, bool),
    /// what is to arrive, signed by enough
    Deliver(usize, bool),
    /// the fee of the required hook changes, its amount and its denomination
    Fee(usize),
    /// what hooks have earned is paid out
    Claim(usize),
    /// the other route is enrolled, or no longer
    Enrol(usize),
    /// deliveries stop, or go on
    Pause(usize),
    /// the other validators
    Rotate(usize),
}
#[derive(Debug)]
struct Place {
    fee: String,
    igp: String,
    named: String,
    multisig: String,
    pause: String,
    beneficiary: String,
}
#[derive(Clone)]
struct St {
    ch: [Chain; 2],
    sides: Arc<[Side; 2]>,
    place: Arc<[Place; 2]>,
    fly: Vec<(usize, Sent, bool)>,
    want: [Money; 2],
    fee: [usize; 2],
    enrolled: [bool; 2],
    paused: [bool; 2],
    set: [bool; 2],
    inserted: [u32; 2],
}
const GAS: u128 = 40;
const PRICE: u128 = 2;
const NAMED: u128 = 11;
/// validators (two needed) before and after a change
const SETS: [u8; 2] = [0b011, 0b110];
struct M {
    pairs: Vec<[usize; 2]>,
    /// both chains send
    both: bool,
    users: usize,
    max: usize,
}
impl M {
    /// what the required hook charges, in turns
    const FEES: [(&'static str, u128); 2] = [("fee", 3), ("other", 8)];
    fn start(kinds: [usize; 2]) -> Res<St> {
        let (mut ch, mut sd) = sides([KINDS[kinds[0]], KINDS[kinds[1]]])?;
        let mut place = vec![];
        for me in 0..2 {
            let c = &mut ch[me];
            let s = &mut sd[me];
            let owner = s.owner.clone();
            let g = Gas {
                default: GAS,
                meta: None,
                dest: ORIGINS[1 - me],
                rec: [0; 32],
            };
            let fee = build(c, &owner, &s.mb, &T::Fee(Self::FEES[0].0, Self::FEES[0].1), &g)?;
            let igp = build(c, &owner, &s.mb, &T::Igp("fee", PRICE), &g)?;
            let named = build(c, &owner, &s.mb, &T::Fee("other", NAMED), &g)?;
            let both = inst(c, "hook_aggregate", &owner, json!({"owner": owner, "hooks": [fee.addr, s.merkle]}))?;
            let multisig = inst(c, "ism_multisig", &owner, json!({ "owner": owner }))?;
            let pause = inst(c, "ism_pausable", &owner, json!({"owner": owner, "paused": false}))?;
            let all = inst(c, "ism_aggregate", &owner, json!({"owner": owner, "isms": [pause, multisig], "threshold": 2}))?;
            let ism = inst(c, "ism_routing", &owner, json!({"owner": owner, "isms": [{"domain": ORIGINS[1 - me], "address": all}]}))?;
            for m in [
                json!({"set_required_hook": {"hook": both}}),
                json!({"set_default_hook": {"hook": igp.addr}}),
                json!({"set_default_ism": {"ism": ism}}),
            ] {
                call(c, &owner, &s.mb, m)?;
            }
            M::rotate(c, &owner, &multisig, 1 - me, SETS[0])?;
            for u in s.users.clone() {
                c.fund(&u, "fee", 10_000);
                c.fund(&u, "other", 10_000);
                if me == 0 {
                    s.r.give(c, &u, 9);
                }
            }
            place.push(Place {
                fee: fee.addr,
                igp: igp.addr,
                named: named.addr,
                multisig,
                pause,
                beneficiary: c.user("beneficiary"),
            });
        }
        let want = [sd[0].r.everything(&ch[0]), sd[1].r.everything(&ch[1])];
        Ok(St {
            ch,
            sides: Arc::new(sd),
            place: Arc::new(place.try_into().map_err(|_| "two")?),
            fly: vec![],
            want,
            fee: [0; 2],
            enrolled: [true; 2],
            paused: [false; 2],
            set: [false; 2],
            inserted: [0; 2],
        })
    }
    fn rotate(c: &mut Chain, owner: &str, multisig: &str, o: usize, mask: u8) -> Res<()> {
        let v: Vec<String> = (0..KEYS).filter(|k| mask >> k & 1 == 1).map(|k| hx(&super::compose::keys()[k].addr)).collect();
        let m = json!({"set_validators": {"domain": ORIGINS[o], "threshold": 2, "validators": v}});
        call(c, owner, multisig, m)?;
        Ok(())
    }
    fn pay(s: &St, from: usize, named: bool) -> Vec<(String, Coins)> {
        let p = &s.place[from];
        let mut l = vec![(p.fee.clone(), coins(&[(Self::FEES[s.fee[from]].0, Self::FEES[s.fee[from]].1)]))];
        l.push(match named {
            true => (p.named.clone(), coins(&[("other", NAMED)])),
            false => (p.igp.clone(), coins(&[("fee", GAS * PRICE)])),
        });
        l
    }
}
impl Model for M {
    type S = St;
    type A = A;
    fn init(&self) -> Res<Vec<(String, St)>> {
        self.pairs.iter().map(|k| Ok((format!("{:?} and {:?}", KINDS[k[0]], KINDS[k[1]]), M::start(*k)?))).collect()
    }
    fn actions(&self, s: &St) -> Vec<A> {
        let mut v = vec![];
        let n = if self.both { 2 } else { 1 };
        if s.fly.len() < self.max {
            for from in 0..n {
                for u in 0..self.users {
                    for all in [false, true] {
                        v.push(A::Send(from, u, all, false));
                        v.push(A::Send(from, u, all, true));
                    }
                }
            }
        }
        for i in 0..s.fly.len() {
            v.push(A::Deliver(i, true));
            v.push(A::Deliver(i, false));
        }
        for x in 0..n {
            v.extend([A::Fee(x), A::Claim(x), A::Enrol(x), A::Pause(1 - x), A::Rotate(1 - x)]);
        }
        if !self.both {
            v.push(A::Enrol(1));
        }
        v
    }
    fn key(&self, s: &St) -> u128 {
        let f: Vec<_> = s.fly.iter().map(|x| (x.0, x.1.m.id(), x.1.index, x.2)).collect();
        dig(&(f, s.ch[0].key(), s.ch[1].key(), &s.want, s.fee, s.enrolled, s.paused, s.set))
    }
    fn step(&self, s: &St, a: &A, cov: &mut Cov) -> Res<Step<St>> {
        let mut n = s.clone();
        match a {
            A::Send(from, u, all, named) => {
                let (f, t) = (&s.sides[*from], &s.sides[1 - from]);
                let who = &f.users[*u];
                let has = f.r.bal(&s.ch[*from], who);
                let amount = if *all { has } else { 4 };
                if amount == 0 || amount > has || (*all && has == 4) {
                    return Ok(Step::Same);
                }
                let pay = M::pay(s, *from, *named);
                let total = coins_sum(&pay.iter().map(|x| x.1.clone()).collect::<Vec<_>>());
                let hook = named.then_some(s.place[*from].named.as_str());
                let rec = h256(&t.users[1 - u]);
                for i in 0..total.len() {
                    let mut less = total.clone();
                    less[i].1 -= 1;
                    let mut c = s.ch[*from].clone();
                    let t = send(&mut c, f, who, &rec, amount, hook, None, &less, ORIGINS[1 - from]);
                    ensure!(!t.ok(), "a transfer paying {less:?} instead of {total:?} succeeded");
                    ensure_eq!(c.key(), s.ch[*from].key(), "state after an underpaid transfer");
                }
                let x = send(&mut n.ch[*from], f, who, &rec, amount, hook, None, &total, ORIGINS[1 - from]);
                ensure_eq!(x.ok(), s.enrolled[*from], "transfer paying {total:?} ({})", x.err());
                if !x.ok() {
                    ensure_eq!(n.ch[*from].key(), s.ch[*from].key(), "state after a refused transfer");
                    cov.hit("no route");
                    return Ok(Step::Same);
                }
                let w = &mut n.want[*from];
                sub(w, who, &f.r.token, amount);
                if !f.r.kind.bridged {
                    add(w, &f.r.addr, &f.r.token, amount);
                }
                for (h, l) in pay {
                    for (d, c) in l {
                        sub(w, who, &d, c);
                        add(w, &h, &d, c);
                    }
                }
                let y = observed(&n.ch[*from], f, &x, amount, 1 - u)?;
                ensure_eq!(y.index, s.inserted[*from], "index of the transfer");
                n.inserted[*from] += 1;
                n.fly.push((*from, y, false));
                cov.hit("sent");
            }
            A::Deliver(i, enough) => {
                let (from, x, done) = &s.fly[*i];
                let to = 1 - from;
                let (f, d) = (&s.sides[*from], &s.sides[to]);
                let mask = SETS[s.set[to] as usize];
                let signers = if *enough { mask } else { 0b111 & !mask | 0b010 };
                let at = str_of(
                    &s.ch[to].query(&d.mb, &json!({"mailbox": {"recipient_ism": {"recipient_addr": d.r.addr}}}))?,
                    "ism",
                );
                let sigs = signatures(&x.m, &x.cp());
                let way = if *enough { Way::First } else { Way::All };
                let given = relayer(&s.ch[to], &at, &x.m, &x.cp(), &sigs, signers, way)?.unwrap_or_default();
                let pool = d.r.kind.bridged || d.r.bal(&s.ch[to], &d.r.addr) >= x.amount;
                let want = *enough && !done && s.enrolled[to] && !s.paused[to] && pool;
                let c = &mut n.ch[to];
                let t = c.exec(&c.user("relayer"), &d.mb, &process_msg(&given, &x.m.enc()), &[]);
                ensure_eq!(t.ok(), want, "delivery of {} from {} ({})", x.amount, f.r.addr, t.err());
                ensure_eq!(delivered(c, &d.mb, &x.m.id())?, want || *done, "reported as delivered");
                if !want {
                    ensure_eq!(n.ch[to].key(), s.ch[to].key(), "state after a refused delivery");
                    cov.hit(if *done { "twice" } else { "refused" });
                    return Ok(Step::Same);
                }
                n.fly[*i].2 = true;
                received(&mut n.want[to], d, &d.users[x.to], x.amount);
                cov.hit("arrived");
            }
            A::Fee(x) => {
                n.fee[*x] = 1 - s.fee[*x];
                let (d, a) = Self::FEES[n.fee[*x]];
                let m = json!({"fee_hook": {"set_fee": {"fee": {"denom": d, "amount": a.to_string()}}}});
                call(&mut n.ch[*x], &s.sides[*x].owner, &s.place[*x].fee, m)?;
            }
            A::Claim(x) => {
                let p = &s.place[*x];
                let mut any = false;
                for (h, m, by, to) in [
                    (&p.fee, json!({"fee_hook": {"claim": {"recipient": p.beneficiary}}}), &s.sides[*x].owner, &p.beneficiary),
                    (&p.named, json!({"fee_hook": {"claim": {"recipient": null}}}), &s.sides[*x].owner, &s.sides[*x].owner),
                    (&p.igp, json!({"claim": {}}), &p.beneficiary, &p.beneficiary),
                ] {
                    let l: Vec<_> = s.want[*x].iter().filter(|x| x.0 .0 == *h).map(|x| (x.0 .1.clone(), *x.1)).collect();
                    if l.is_empty() {
                        continue;
                    }
                    any = true;
                    if l.len() > 1 {
                        cov.hit("claimed in two denominations");
                    }
                    call(&mut n.ch[*x], by, h, m)?;
                    for (d, c) in l {
                        sub(&mut n.want[*x], h, &d, c);
                        add(&mut n.want[*x], to, &d, c);
                    }
                    cov.hit("claimed");
                }
                if !any {
                    return Ok(Step::Same);
                }
            }
            A::Enrol(x) => {
                n.enrolled[*x] = !s.enrolled[*x];
                let far = h256(&s.sides[1 - x].r.addr);
                let m = enroll(ORIGINS[1 - x], n.enrolled[*x].then_some(&far[..]));
                call(&mut n.ch[*x], &s.sides[*x].owner, &s.sides[*x].r.addr, m)?;
            }
            A::Pause(x) => {
                n.paused[*x] = !s.paused[*x];
                let m = if n.paused[*x] { json!({"pausable": {"pause": {}}}) } else { json!({"pausable": {"release": {}}}) };
                call(&mut n.ch[*x], &s.sides[*x].owner, &s.place[*x].pause, m)?;
            }
            A::Rotate(x) => {
                n.set[*x] = !s.set[*x];
                M::rotate(&mut n.ch[*x], &s.sides[*x].owner, &s.place[*x].multisig, 1 - x, SETS[n.set[*x] as usize])?;
            }
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &St, _: &mut Cov) -> Res<()> {
        for x in 0..2 {
            ensure_eq!(s.sides[x].r.everything(&s.ch[x]), s.want[x], "balances of everyone");
            // what exists of a synthetic token is what was brought here and not sent back
            if s.sides[x].r.kind.bridged {
                let came: u128 = s.fly.iter().filter(|f| f.0 != x && f.2).map(|f| f.1.amount).sum();
                let went: u128 = s.fly.iter().filter(|f| f.0 == x).map(|f| f.1.amount).sum();
                let given = if x == 0 { 18 } else { 0 };
                ensure_eq!(s.sides[x].r.supply(&s.ch[x]), given + came - went, "supply of the synthetic token");
            }
        }
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["sent", "arrived", "refused", "no route", "claimed in two denominations"]
    }
}

pub fn x03(c: &mut Ctx) {
    c.assume("validators sign, and relayers deliver, what events and queries of the sending chain tell");
    let base = K {
        kinds: [0, 1],
        required: T::Fee("a", 7),
        selected: T::Igp("b", 3),
        how: How::Default,
        same: false,
        gas: None,
        i: I::Multi(0b011, 2),
        amounts: [1000, 33],
    };
    let ts = [
        T::Pausable,
        T::Fee("a", 7),
        T::Igp("a", 3),
        T::Agg(vec![T::Fee("a", 2), T::Igp("a", 5)]),
        T::Route(Box::new(T::Fee("a", 9))),
        T::Custom(Box::new(T::Igp("a", 1))),
        T::CustomRoute(Box::new(T::Fee("a", 4))),
        T::Fallback(Box::new(T::Agg(vec![T::Igp("a", 2), T::Pausable]))),
        T::FallbackRoute(Box::new(T::Fee("a", 1))),
    ];
    let b = |i: I| Some(Box::new(i));
    let is = [
        I::Multi(0b011, 2),
        I::Agg(2, vec![I::Multi(0b101, 1), I::Pause(false)]),
        I::Route([b(I::Multi(0b111, 2)), b(I::Agg(1, vec![I::Pause(true), I::Multi(0b110, 2)]))]),
        I::Agg(1, vec![I::Multi(0b100, 1), I::Route([b(I::Multi(0b011, 2)), b(I::Multi(0b001, 1))])]),
        I::Agg(2, vec![I::Multi(0b001, 1), I::Multi(0b110, 1), I::Pause(true)]),
        I::Pause(true),
        I::Pause(false),
    ];
    let hows = [How::Default, How::Named, How::Set];
    let amounts = [[1000, 33], [1, 1], [7, 999_999], [2, 3]];
    // kinds of both routes, ways to choose the hook, denominations, gas: all of them
    let mut v = vec![];
    for a in 0..4 {
        for z in 0..4 {
            for how in hows {
                for same in [false, true] {
                    for gas in [None, Some(13)] {
                        for l in &amounts {
                            if c.thorough() || l[0] == 1000 || (a + 2 * z + l[0] as usize) % 4 == 0 {
                                v.push(K {
                                    kinds: [a, z],
                                    how,
                                    same,
                                    gas,
                                    amounts: *l,
                                    ..base.clone()
                                });
                            }
                        }
                    }
                }
            }
        }
    }
    let must = &["underpaid", "arrived", "refused", "returned", "other attestation"];
    c.cases("routes", || Ok(()), v, must, |_, k, cov| case(k, cov));
    // hooks of every kind in both roles
    let mut v = vec![];
    for (x, r) in ts.iter().enumerate() {
        for (y, s) in ts.iter().enumerate() {
            for (h, how) in hows.iter().enumerate() {
                for (n, gas) in [None, Some(13), Some(200)].into_iter().enumerate() {
                    if c.thorough() || (x + 2 * y + h + n) % 3 == 0 {
                        v.push(K {
                            kinds: [(x + y) % 4, (x + h + 2 * n + 1) % 4],
                            required: r.clone(),
                            selected: s.clone(),
                            how: *how,
                            same: (x + y + n) % 2 == 0,
                            gas,
                            ..base.clone()
                        });
                    }
                }
            }
        }
    }
    c.cases("hooks", || Ok(()), v, must, |_, k, cov| case(k, cov));
    // modules of every kind
    let mut v = vec![];
    for (x, i) in is.iter().enumerate() {
        for a in 0..4 {
            for z in 0..4 {
                v.push(K {
                    kinds: [a, z],
                    how: hows[(x + a) % 3],
                    same: (a + z) % 2 == 0,
                    i: i.clone(),
                    amounts: amounts[(x + z) % 4],
                    ..base.clone()
                });
            }
        }
    }
    c.cases("modules", || Ok(()), v, must, |_, k, cov| case(k, cov));
    let all: Vec<[usize; 2]> = (0..4).flat_map(|a| (0..4).map(move |z| [a, z])).collect();
    let m = M {
        pairs: c.pick(vec![[0, 1], [2, 3], [1, 2]], all.clone()),
        both: true,
        users: 2,
        max: 3,
    };
    c.run("histories of both chains", &m, c.pick(4, 5), 50_000_000);
    let m = M {
        pairs: c.pick(vec![[0, 3], [3, 2]], all),
        both: false,
        users: 1,
        max: 2,
    };
    c.run("histories of one direction", &m, c.pick(5, 7), 50_000_000);
}
