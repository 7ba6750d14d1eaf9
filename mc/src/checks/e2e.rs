//! X01 the protocol as a whole: two chains, validators who see only the chain, relayers nobody trusts
use super::hooks::Inc;
use super::isms::{agg_meta, Lay};
use crate::chain::{Chain, TxOut};
use crate::explore::{Cov, CovExt, Ctx, Model, Res, Step};
use super::messages::{kinds, message};
use crate::util::*;
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex};

const DOM: [u32; 2] = [26657, 0x0068_2100];
const THIRD: u32 = 26658;
const FEE: u128 = 3;

#[derive(Debug)]
struct Site {
    mb: String,
    merkle: String,
    fee: String,
    multisig: String,
    pause: String,
    /// dispatches for others
    agent: String,
    recipient: String,
    owner: String,
}
struct Net {
    site: [Site; 2],
    keys: Vec<Key>,
    who: &'static Who,
    /// signatures made so far
    sigs: Mutex<HashMap<(usize, [u8; 32]), [u8; 65]>>,
    /// directions which have been examined
    seen: Mutex<HashSet<u128>>,
}
/// the validators
#[derive(Debug)]
struct Who {
    /// all there are
    n: usize,
    sets: [&'static [usize]; 2],
    threshold: usize,
    /// sign what they see in the tree, in the order given
    honest: &'static [usize],
    /// sign whatever is wanted
    corrupt: &'static [usize],
}
const THREE: Who = Who {
    n: 4,
    sets: [&[0, 1, 2], &[1, 2, 3]],
    threshold: 2,
    honest: &[0, 1],
    corrupt: &[2],
};
/// two may be corrupt
const FIVE: Who = Who {
    n: 6,
    sets: [&[4, 0, 1, 2, 3], &[1, 3, 5, 0, 4]],
    threshold: 3,
    honest: &[0, 1, 2],
    corrupt: &[3, 4],
};
/// one alone decides
const ONE: Who = Who {
    n: 2,
    sets: [&[0], &[0, 1]],
    threshold: 1,
    honest: &[0],
    corrupt: &[],
};

fn site(hrp: &str, me: usize, keys: &[Key], who: &Who) -> Res<(Chain, Site)> {
    let mut ch = Chain::new(hrp);
    let owner = ch.user("owner");
    let mb = mailbox(&mut ch, &owner, DOM[me])?;
    let merkle = inst(&mut ch, "hook_merkle", &owner, json!({ "mailbox": mb }))?;
    let fee = inst(
        &mut ch,
        "hook_fee",
        &owner,
        json!({"owner": owner, "fee": {"denom": "fee", "amount": FEE.to_string()}}),
    )?;
    let req = inst(&mut ch, "hook_aggregate", &owner, json!({"owner": owner, "hooks": [merkle, fee]}))?;
    let def = inst(&mut ch, "hook_pausable", &owner, json!({"owner": owner, "paused": false}))?;
    let multisig = inst(&mut ch, "ism_multisig", &owner, json!({ "owner": owner }))?;
    let pause = inst(&mut ch, "ism_pausable", &owner, json!({"owner": owner, "paused": false}))?;
    let both = inst(
        &mut ch,
        "ism_aggregate",
        &owner,
        json!({"owner": owner, "isms": [multisig, pause], "threshold": 2}),
    )?;
    let ism = inst(
        &mut ch,
        "ism_routing",
        &owner,
        json!({"owner": owner, "isms": [{"domain": DOM[1 - me], "address": both}]}),
    )?;
    for m in [
        json!({"set_required_hook": {"hook": req}}),
        json!({"set_default_hook": {"hook": def}}),
        json!({"set_default_ism": {"ism": ism}}),
    ] {
        call(&mut ch, &owner, &mb, m)?;
    }
    enrol(&mut ch, &owner, &multisig, DOM[1 - me], keys, who, 0)?;
    let agent = probe(&mut ch, |_| {});
    let recipient = probe(&mut ch, |_| {});
    for a in [&ch.user("alice"), &ch.user("bob"), &agent] {
        ch.fund(a, "fee", 1000);
    }
    Ok((
        ch,
        Site {
            mb,
            merkle,
            fee,
            multisig,
            pause,
            agent,
            recipient,
            owner,
        },
    ))
}
fn enrol(ch: &mut Chain, owner: &str, multisig: &str, origin: u32, keys: &[Key], who: &Who, set: usize) -> Res<()> {
    let l: Vec<String> = who.sets[set].iter().map(|i| hx(&keys[*i].addr)).collect();
    let m = json!({"set_validators": {"domain": origin, "threshold": who.threshold, "validators": l}});
    call(ch, owner, multisig, m).map(|_| ())
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum A {
    /// side, how
    Dispatch(usize, u8),
    /// the honest validator signs what side's tree holds so far
    Sign(usize, usize),
    /// to the side, the n-th message of the other one
    Deliver(usize, usize),
    Pause(usize),
    /// the side enrols the other set for the other chain
    Rotate(usize),
}
/// what is known about one chain as an origin
#[derive(Clone)]
struct Origin {
    /// every message that was dispatched, in order
    sent: Vec<Msg>,
    /// what the events tell: ids in the order of insertion, the root after each
    seen: Vec<([u8; 32], [u8; 32])>,
    tree: Inc,
    signed: Vec<usize>,
}
#[derive(Clone)]
struct S {
    ch: [Chain; 2],
    net: Arc<Net>,
    org: [Origin; 2],
    delivered: [BTreeSet<usize>; 2],
    paused: [bool; 2],
    set: [usize; 2],
}

/// what a validator or relayer learns from a transaction on `side`
fn observe(s: &mut S, side: usize, t: &TxOut) -> Res<()> {
    let site = &s.net.site[side];
    let o = &mut s.org[side];
    for e in t.events(&site.merkle, "hpl_hook_merkle::post_dispatch") {
        let id: [u8; 32] = unhx(&e["message_id"]).try_into().map_err(|_| "id length")?;
        ensure_eq!(e["index"], o.seen.len().to_string(), "index of an insertion");
        o.tree.insert(id);
        o.seen.push((id, o.tree.root()));
    }
    if let Some((_, root)) = o.seen.last() {
        let cp = s.ch[side].query(&site.merkle, &json!({"merkle_hook": {"check_point": {}}}))?;
        ensure_eq!(cp["root"], json!(hx(root)), "checkpoint root");
        ensure_eq!(cp["count"].as_u64(), Some(o.seen.len() as u64 - 1), "checkpoint index");
    }
    Ok(())
}
impl S {
    fn sig(&self, origin: usize, key: usize, n: usize, id: &[u8; 32]) -> [u8; 65] {
        let tree = self_h256(&self.net.site[origin].merkle);
        let root = self.org[origin].seen[n].1;
        let d = checkpoint_digest(DOM[origin], &tree, &root, n as u32, id);
        let hit = self.net.sigs.lock().unwrap().get(&(key, d)).copied();
        hit.unwrap_or_else(|| {
            let x = self.net.keys[key].sign(&d);
            self.net.sigs.lock().unwrap().insert((key, d), x);
            x
        })
    }
    fn meta(&self, origin: usize, n: usize, sigs: &[[u8; 65]]) -> Vec<u8> {
        let tree = self_h256(&self.net.site[origin].merkle);
        let root = self.org[origin].seen[n].1;
        agg_meta(&[multisig_meta(&tree, &root, n as u32, sigs), vec![0]], Lay::InOrder)
    }
    /// signatures of message n: by the corrupt validators, and by the honest ones who signed it
    fn available(&self, origin: usize, n: usize) -> Vec<usize> {
        let w = self.net.who;
        (0..w.n).filter(|v| w.corrupt.contains(v) || self.org[origin].signed[*v] > n).collect()
    }
    /// enrolled on the side
    fn enrolled(&self, side: usize) -> &'static [usize] {
        self.net.who.sets[self.set[side]]
    }
    fn enough(&self, side: usize, l: &[usize]) -> bool {
        let d: BTreeSet<usize> = l.iter().filter(|v| self.enrolled(side).contains(v)).copied().collect();
        d.len() >= self.net.who.threshold
    }
    fn attempt(&self, side: usize, meta: &[u8], m: &[u8]) -> (TxOut, Chain) {
        let mut c = self.ch[side].clone();
        let u = c.user("relayer");
        let t = c.exec(&u, &self.net.site[side].mb, &process_msg(meta, m), &[]);
        (t, c)
    }
    fn right_call(&self, side: usize, t: &TxOut, m: &Msg) -> Res<()> {
        let site = &self.net.site[side];
        let to = if m.recipient == self_h256(&site.agent) { &site.agent } else { &site.recipient };
        let got: Vec<(String, Value)> = t.calls_to(to).into_iter().map(|(f, m, _)| (f, m)).collect();
        let want = json!({"handle": {"origin": m.origin, "sender": hx(&m.sender), "body": hx(&m.body)}});
        ensure_eq!(got, vec![(site.mb.clone(), want)], "calls of the recipient");
        Ok(())
    }
}

struct M {
    who: &'static Who,
    /// both chains are origins
    both: bool,
    max_sent: usize,
    /// so many more signatures than needed
    longer: usize,
}
impl Model for M {
    type S = S;
    type A = A;
    fn init(&self) -> Res<Vec<(String, S)>> {
        let keys: Vec<Key> = (0..self.who.n).map(|i| Key::new(&format!("e2e{i}"))).collect();
        let (a, sa) = site("osmo", 0, &keys, self.who)?;
        let (b, sb) = site("inj", 1, &keys, self.who)?;
        let o = Origin {
            sent: vec![],
            seen: vec![],
            tree: Inc {
                branch: vec![[0; 32]; 32],
                count: 0,
            },
            signed: vec![0; self.who.n],
        };
        Ok(vec![(
            "two chains".into(),
            S {
                ch: [a, b],
                net: Arc::new(Net {
                    site: [sa, sb],
                    keys,
                    who: self.who,
                    sigs: Default::default(),
                    seen: Default::default(),
                }),
                org: [o.clone(), o],
                delivered: Default::default(),
                paused: [false; 2],
                set: [0, 0],
            },
        )])
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![];
        for side in 0..if self.both { 2 } else { 1 } {
            let to = 1 - side;
            let n = s.org[side].sent.len();
            if n < self.max_sent {
                v.extend((0..5).map(|k| A::Dispatch(side, k)));
            }
            for w in self.who.honest {
                if s.org[side].signed[*w] < n {
                    v.push(A::Sign(side, *w));
                }
            }
            for i in 0..n {
                v.push(A::Deliver(to, i));
            }
            v.push(A::Pause(to));
            v.push(A::Rotate(to));
        }
        v
    }
    fn key(&self, s: &S) -> u128 {
        let mut h = String::new();
        for o in &s.org {
            h += &format!("{:?} {:?} {:?}", o.sent.iter().map(|m| m.id()).collect::<Vec<_>>(), o.seen, o.signed);
        }
        dig(&(h, &s.delivered, s.paused, s.set, s.ch[0].key(), s.ch[1].key()))
    }
    fn step(&self, s: &S, a: &A, cov: &mut Cov) -> Res<Step<S>> {
        let mut n = s.clone();
        match a {
            A::Dispatch(side, how) => {
                let site = &s.net.site[*side];
                let c = &mut n.ch[*side];
                let rec = self_h256(&s.net.site[1 - side].recipient);
                let alice = c.user("alice");
                let to = DOM[1 - side];
                let d = |dom: u32, body: &[u8]| dispatch_msg(dom, &rec, body, None, None);
                let e = |amount: u128, swallow| emit_f(&site.mb, &d(to, b"agent"), &[("fee", amount)], swallow);
                let (t, want): (TxOut, Option<Vec<(&String, u32, &[u8])>>) = match how {
                    0 => (c.exec(&alice, &site.mb, &d(to, b"alice"), &[("fee", FEE)]), Some(vec![(&alice, to, b"alice")])),
                    1 => (
                        c.exec(&alice, &site.agent, &relay(&[e(FEE, false), e(FEE, false)]), &[]),
                        Some(vec![(&site.agent, to, b"agent"), (&site.agent, to, b"agent")]),
                    ),
                    2 => (c.exec(&alice, &site.mb, &d(THIRD, b"alice"), &[("fee", FEE)]), Some(vec![(&alice, THIRD, b"alice")])),
                    3 => (c.exec(&alice, &site.mb, &d(to, b"alice"), &[("fee", FEE - 1)]), None),
                    // a failing dispatch between two others
                    _ => (
                        c.exec(&alice, &site.agent, &relay(&[e(FEE, true), e(FEE - 1, true), e(FEE, true)]), &[]),
                        Some(vec![(&site.agent, to, b"agent"), (&site.agent, to, b"agent")]),
                    ),
                };
                ensure_eq!(t.ok(), want.is_some(), "dispatch ({})", t.err());
                let Some(want) = want else {
                    ensure_eq!(n.ch[*side].key(), s.ch[*side].key(), "state after a refused dispatch");
                    cov.hit("dispatch refused");
                    return Ok(Step::Same);
                };
                for (who, dest, body) in &want {
                    let m = Msg {
                        version: 3,
                        nonce: n.org[*side].sent.len() as u32,
                        origin: DOM[*side],
                        sender: self_h256(who),
                        dest: *dest,
                        recipient: rec,
                        body: body.to_vec(),
                    };
                    n.org[*side].sent.push(m);
                }
                observe(&mut n, *side, &t)?;
                let ids: Vec<[u8; 32]> = n.org[*side].seen.iter().map(|x| x.0).collect();
                let sent: Vec<[u8; 32]> = n.org[*side].sent.iter().map(|m| m.id()).collect();
                ensure_eq!(ids, sent, "messages in the tree");
                let f = &s.net.site[*side].fee;
                ensure_eq!(
                    n.ch[*side].bal(f, "fee"),
                    s.ch[*side].bal(f, "fee") + FEE * want.len() as u128,
                    "fees"
                );
                cov.hit("dispatched");
            }
            A::Sign(side, v) => {
                n.org[*side].signed[*v] = n.org[*side].seen.len();
            }
            A::Deliver(side, i) => {
                let o = 1 - side;
                let m = &s.org[o].sent[*i];
                let l = s.available(o, *i);
                let sigs: Vec<[u8; 65]> = l.iter().map(|v| s.sig(o, *v, *i, &m.id())).collect();
                let good = m.dest == DOM[*side]
                    && !s.paused[*side]
                    && !s.delivered[*side].contains(i)
                    && s.enough(*side, &l);
                let (t, c) = s.attempt(*side, &s.meta(o, *i, &sigs), &m.enc());
                ensure_eq!(t.ok(), good, "delivery of message {i} ({})", t.err());
                if !good {
                    ensure_eq!(c.key(), s.ch[*side].key(), "state after a refused delivery");
                    cov.hit("delivery refused");
                    return Ok(Step::Same);
                }
                s.right_call(*side, &t, m)?;
                n.ch[*side] = c;
                n.delivered[*side].insert(*i);
                cov.hit("delivered");
            }
            A::Pause(side) => {
                let site = &s.net.site[*side];
                let m = if s.paused[*side] { json!({"release": {}}) } else { json!({"pause": {}}) };
                call(&mut n.ch[*side], &site.owner, &site.pause, json!({ "pausable": m }))?;
                n.paused[*side] ^= true;
            }
            A::Rotate(side) => {
                let site = &s.net.site[*side];
                n.set[*side] ^= 1;
                enrol(&mut n.ch[*side], &site.owner, &site.multisig, DOM[1 - side], &s.net.keys, s.net.who, n.set[*side])?;
            }
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S, cov: &mut Cov) -> Res<()> {
        for side in 0..2 {
            let o = 1 - side;
            let site = &s.net.site[side];
            // everything below depends on the receiving chain and on what was sent and signed, and
            // on the sending chain only in the last step, whose outcome the message decides alone
            let g = &s.org[o];
            let part = dig(&(side, s.ch[side].key(), &g.signed, g.seen.iter().map(|x| x.1).collect::<Vec<_>>()));
            if !s.net.seen.lock().unwrap().insert(part) {
                continue;
            }
            for (i, m) in s.org[o].sent.iter().enumerate() {
                ensure_eq!(
                    delivered(&s.ch[side], &site.mb, &m.id())?,
                    s.delivered[side].contains(&i),
                    "message {i} is reported as delivered"
                );
                let l = s.available(o, i);
                let sigs: Vec<[u8; 65]> = (0..self.who.n)
                    .map(|v| if l.contains(&v) { s.sig(o, v, i, &m.id()) } else { [0; 65] })
                    .collect();
                // every selection of signatures, in every order, with repetitions
                for p in seqs(l.len(), self.who.threshold + self.longer) {
                    let p: Vec<usize> = p.into_iter().map(|x| l[x]).collect();
                    let good = m.dest == DOM[side]
                        && !s.paused[side]
                        && !s.delivered[side].contains(&i)
                        && s.enough(side, &p);
                    let x: Vec<[u8; 65]> = p.iter().map(|v| sigs[*v]).collect();
                    let (t, c) = s.attempt(side, &s.meta(o, i, &x), &m.enc());
                    ensure_eq!(t.ok(), good, "delivery of message {i} with signatures by {p:?} ({})", t.err());
                    if good {
                        s.right_call(side, &t, m)?;
                        let (again, _) = (S { ch: [c.clone(), c], ..s.clone() }).attempt(side, &s.meta(o, i, &x), &m.enc());
                        ensure!(!again.ok(), "message {i} delivered twice");
                        cov.hit("deliverable");
                    } else {
                        ensure_eq!(c.key(), s.ch[side].key(), "state after a refused delivery");
                        cov.hit("not deliverable");
                    }
                }
                let real: Vec<[u8; 65]> = l.iter().map(|v| sigs[*v]).collect();
                let any = |id: &[u8; 32]| -> Vec<[u8; 65]> {
                    self.who.corrupt.iter().map(|v| s.sig(o, *v, i, id)).collect()
                };
                // signatures of another message
                for j in 0..s.org[o].sent.len() {
                    if i != j {
                        let idj = s.org[o].sent[j].id();
                        let honest: Vec<[u8; 65]> = s
                            .available(o, j)
                            .iter()
                            .filter(|v| !self.who.corrupt.contains(v))
                            .map(|v| s.sig(o, *v, j, &idj))
                            .collect();
                        let mut x = honest.clone();
                        x.extend(self.who.corrupt.iter().map(|v| s.sig(o, *v, j, &m.id())));
                        let (t, _) = s.attempt(side, &s.meta(o, j, &x), &m.enc());
                        ensure!(!t.ok(), "message {i} delivered with the signatures of message {j}");
                        let mut x = honest;
                        x.extend(any(&m.id()));
                        let (t, _) = s.attempt(side, &s.meta(o, i, &x), &m.enc());
                        ensure!(!t.ok(), "message {i} delivered with the signatures of message {j} and corrupt ones of its own");
                    }
                }
                // nothing else than what was sent
                let bob = s.ch[o].user("bob");
                let forged = [
                    Msg { nonce: m.nonce + 1, ..m.clone() },
                    Msg { nonce: m.nonce ^ 0x0100_0000, ..m.clone() },
                    Msg { origin: THIRD, ..m.clone() },
                    Msg { origin: DOM[side], ..m.clone() },
                    Msg { sender: self_h256(&bob), ..m.clone() },
                    Msg { sender: [0; 32], ..m.clone() },
                    Msg { recipient: self_h256(&site.agent), ..m.clone() },
                    Msg { body: b"forged".to_vec(), ..m.clone() },
                    Msg { body: [m.body.as_slice(), &[0]].concat(), ..m.clone() },
                    Msg { body: m.body[..m.body.len() - 1].to_vec(), ..m.clone() },
                    Msg { dest: if m.dest == THIRD { DOM[side] } else { THIRD }, ..m.clone() },
                    Msg { version: 2, ..m.clone() },
                ];
                for f in forged {
                    if s.org[o].sent.contains(&f) {
                        continue;
                    }
                    let x = [any(&f.id()), real.clone(), any(&f.id())].concat();
                    let (t, c) = s.attempt(side, &s.meta(o, i, &x), &f.enc());
                    ensure!(!t.ok(), "a message which was never sent is delivered: {f:?}");
                    ensure_eq!(c.key(), s.ch[side].key(), "state after a refused delivery");
                    cov.hit("forgery refused");
                }
                // not where it comes from either
                let (t, _) = s.attempt(o, &s.meta(o, i, &real), &m.enc());
                ensure!(!t.ok(), "delivered on the chain it comes from");
            }
        }
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec![
            "dispatched",
            "dispatch refused",
            "delivered",
            "delivery refused",
            "deliverable",
            "not deliverable",
            "forgery refused",
        ]
    }
}

/// dispatched on one side and observed
fn send(s: &mut S, side: usize, who: &str, dest: u32, rec: [u8; 32], body: &[u8], meta: Option<&[u8]>) -> Res<Msg> {
    let net = s.net.clone();
    s.ch[side].fund(who, "fee", FEE);
    let d = dispatch_msg(dest, &rec, body, None, meta);
    let t = s.ch[side].exec(who, &net.site[side].mb, &d, &[("fee", FEE)]);
    ensure!(t.ok(), "dispatch: {}", t.err());
    let m = Msg {
        version: 3,
        nonce: s.org[side].sent.len() as u32,
        origin: DOM[side],
        sender: self_h256(who),
        dest,
        recipient: rec,
        body: body.to_vec(),
    };
    s.org[side].sent.push(m.clone());
    observe(s, side, &t)?;
    ensure_eq!(s.org[side].seen.last().map(|x| x.0), Some(m.id()), "message in the tree");
    Ok(m)
}
/// accepted once, and only with enough signatures
fn receive(s: &mut S, o: usize, i: usize, cov: &mut Cov) -> Res<()> {
    let side = 1 - o;
    let m = s.org[o].sent[i].clone();
    let t = s.net.who.threshold;
    let sig: Vec<[u8; 65]> = s.enrolled(side)[..t].iter().map(|v| s.sig(o, *v, i, &m.id())).collect();
    let few = s.meta(o, i, &sig[1..]);
    let all = s.meta(o, i, &sig);
    let (r, _) = s.attempt(side, &few, &m.enc());
    ensure!(!r.ok(), "message {i} delivered with too few signatures");
    let mut f = m.clone();
    f.body.push(0);
    let (r, _) = s.attempt(side, &all, &f.enc());
    ensure!(!r.ok(), "message {i} delivered with a longer body");
    let (r, c) = s.attempt(side, &all, &m.enc());
    let good = m.dest == DOM[side];
    ensure_eq!(r.ok(), good, "delivery of message {i} ({})", r.err());
    if !good {
        cov.hit("not deliverable");
        return Ok(());
    }
    s.right_call(side, &r, &m)?;
    s.ch[side] = c;
    let (r, _) = s.attempt(side, &all, &m.enc());
    ensure!(!r.ok(), "message {i} delivered twice");
    cov.hit("delivered");
    Ok(())
}
fn start() -> Res<S> {
    let m = M { who: &THREE, both: true, max_sent: 1, longer: 0 };
    Ok(m.init()?.remove(0).1)
}

pub fn x01(c: &mut Ctx) {
    let v = kinds(c);
    c.cases("messages of every kind", start, v, &["delivered", "not deliverable"], |s, k, cov| {
        let mut s = s.clone();
        let o = k.0 % 2;
        let (here, there) = (s.net.site[o].agent.clone(), &s.net.clone().site[1 - o]);
        let m = message(k, &[here, there.agent.clone(), there.recipient.clone(), there.mb.clone()]);
        let who = addr_of(if o == 0 { "osmo" } else { "inj" }, &m.sender);
        let rec = self_h256(if k.3 % 2 == 0 { &there.recipient } else { &there.agent });
        let dest = if (k.1 + k.4) % 6 == 5 { m.dest } else { DOM[1 - o] };
        // something before and after it
        if k.4 % 2 == 0 {
            send(&mut s, o, &who, DOM[1 - o], rec, b"first", None)?;
        }
        send(&mut s, o, &who, dest, rec, &m.body, None)?;
        if k.4 % 3 == 0 {
            send(&mut s, o, &who, DOM[1 - o], rec, &m.body, Some(b"meta"))?;
        }
        for i in (0..s.org[o].sent.len()).rev() {
            receive(&mut s, o, i, cov)?;
        }
        Ok(s.ch[1 - o].key())
    });
    let n = c.pick(70usize, 400);
    let v: Vec<(usize, usize)> = (0..3).flat_map(|a| (0..2).map(move |b| (a, b))).collect();
    c.cases("long histories", start, v, &["delivered"], move |s, (order, o), cov| {
        let mut s = s.clone();
        let net = s.net.clone();
        // both ways; the other chain answers now and then
        for i in 0..n {
            let side = if i % 5 == 4 { 1 - o } else { *o };
            let rec = self_h256(&net.site[1 - side].recipient);
            let who = s.ch[side].user(["alice", "bob"][i % 2]);
            send(&mut s, side, &who, DOM[1 - side], rec, &fill("b", i % 7), None)?;
        }
        for side in 0..2 {
            let l = s.org[side].sent.len();
            for k in 0..l {
                let i = match order {
                    0 => k,
                    1 => l - 1 - k,
                    _ => (k * 37 + 3) % l,
                };
                receive(&mut s, side, i, cov)?;
            }
        }
        Ok(s.ch[0].key() ^ s.ch[1].key())
    });

    c.assume("fewer enrolled validators than the threshold are corrupt (one of three with threshold two, two of five with threshold three, none of one): the others sign the root, index and id of each insertion they see in the events of the merkle hook, and nothing else; the corrupt ones sign anything");
    let m = |who, both, max_sent, longer| M { who, both, max_sent, longer };
    c.run("one direction", &m(&THREE, false, 3, 1), c.pick(6, 8), 3_000_000);
    c.run("both directions", &m(&THREE, true, 2, 0), c.pick(4, 6), 3_000_000);
    c.run("three of five", &m(&FIVE, false, 2, c.pick(0, 1)), c.pick(5, 7), 3_000_000);
    c.run("one validator", &m(&ONE, false, 3, 1), c.pick(6, 9), 3_000_000);
}
