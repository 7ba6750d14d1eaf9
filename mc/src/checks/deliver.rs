//! C01, C02, C03: delivery of messages by the mailbox.
use crate::chain::{b32, h256, Chain, Ev, TxOut};
use crate::codes::{ProbeCfg, PROBE_KEY};
use crate::explore::{Cov, CovExt, Ctx, Model, Res, Step};
use crate::util::*;
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const LOCAL: u32 = 0x01fe_0304;
const REMOTE: u32 = 0x0a0b_0c0d;

// ------------------------------------------------------------------ C01

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Plain,
    /// fails while the switch is on
    Fail,
    /// panics while the switch is on
    Panic,
    /// tries to deliver itself and message 0 again, ignoring failures
    Reenter,
    /// tries to deliver itself and fails if that fails
    ReenterStrict,
    /// delivers message 0 and insists
    Chain0,
}

struct W1 {
    b: Basic,
    alt_ism: String,
    acct: String,
    msgs: Vec<(Msg, Kind, bool)>, // bool: routable (version and destination right)
    users: Vec<String>,
    switchable: Vec<String>,
}

#[derive(Clone)]
struct S1 {
    ch: Chain,
    w: Arc<W1>,
    done: BTreeSet<usize>,
    failing: bool,
    alt: bool,
}

#[derive(Clone, Debug)]
enum A1 {
    /// message, first metadata byte, caller
    Process(usize, u8, usize),
    /// one transaction: (message, metadata byte, errors caught)
    Batch(Vec<(usize, u8, bool)>),
    Blocks(u64),
    Switch,
    SetIsm,
    /// this mailbox dispatches a message to its own chain (to the recipient of message 13)
    Dispatch(usize),
    /// an administrative operation unrelated to deliveries
    Admin(usize),
}

struct M1 {
    /// messages attempted; None = all
    only: Option<Vec<usize>>,
    admin: bool,
    batches: bool,
    callers: usize,
    metas: Vec<u8>,
}

fn c01_world() -> Res<S1> {
    let mut ch = Chain::new("osmo");
    let owner = ch.user("owner");
    let b = basic(&mut ch, &owner, LOCAL)?;
    let bytes = |c: &mut ProbeCfg| c.verify = "bytes".into();
    let alt_ism = probe(&mut ch, bytes);
    let own_ism = probe(&mut ch, bytes);
    let acct = probe(&mut ch, |_| {});
    let plain = probe(&mut ch, |_| {});
    let own = probe(&mut ch, |c| c.ism = Some(own_ism.clone()));
    let fail = probe(&mut ch, |_| {});
    let pan = probe(&mut ch, |_| {});
    let re = probe(&mut ch, |_| {});
    let res = probe(&mut ch, |_| {});
    let chn = probe(&mut ch, |_| {});
    let m = |to: &str, nonce: u32, body: &[u8]| Msg {
        version: 3,
        nonce,
        origin: REMOTE,
        sender: fill32("sender"),
        dest: LOCAL,
        recipient: h256(to),
        body: body.to_vec(),
    };
    // what alice would dispatch on this chain to this chain
    let alice = ch.user("alice");
    let looped = |nonce: u32, body: &[u8]| Msg {
        version: 3,
        nonce,
        origin: LOCAL,
        sender: h256(&alice),
        dest: LOCAL,
        recipient: h256(&plain),
        body: body.to_vec(),
    };
    let base = m(&plain, 7, b"hello world");
    let mut flip = base.clone();
    *flip.body.last_mut().unwrap() ^= 1;
    let mut nonce2 = base.clone();
    nonce2.nonce += 1;
    let mut origin2 = base.clone();
    origin2.origin ^= 1;
    let mut sender2 = base.clone();
    sender2.sender[31] ^= 1;
    let mut ver = base.clone();
    ver.version = 2;
    let mut dst = base.clone();
    dst.dest ^= 1;
    let msgs = vec![
        (base, Kind::Plain, true),
        (flip, Kind::Plain, true),
        (nonce2, Kind::Plain, true),
        (origin2, Kind::Plain, true),
        (sender2, Kind::Plain, true),
        (m(&own, 7, b"hello world"), Kind::Plain, true),
        (m(&fail, 8, b""), Kind::Fail, true),
        (m(&pan, 8, b"p"), Kind::Panic, true),
        (m(&re, 9, b"re"), Kind::Reenter, true),
        (m(&res, 10, b"res"), Kind::ReenterStrict, true),
        (m(&chn, 11, b"chain"), Kind::Chain0, true),
        (ver, Kind::Plain, false),
        (dst, Kind::Plain, false),
        (looped(0, b"loop"), Kind::Plain, true),
        (looped(1, b"loop"), Kind::Plain, true),
        (looped(0, b"other"), Kind::Plain, true),
    ];
    let e = |i: usize, sw: bool| emit(&b.mb, &process_msg(&[1], &msgs[i].0.enc()), sw);
    reprobe(&mut ch, &re, |c| {
        c.handle_emit = vec![e(8, true), e(0, true), e(8, true)]
    });
    reprobe(&mut ch, &res, |c| c.handle_emit = vec![e(9, false)]);
    reprobe(&mut ch, &chn, |c| c.handle_emit = vec![e(0, false)]);
    let users = vec![ch.user("alice"), ch.user("bob")];
    Ok(S1 {
        ch,
        w: Arc::new(W1 {
            b,
            alt_ism,
            acct,
            msgs,
            users,
            switchable: vec![fail, pan],
        }),
        done: BTreeSet::new(),
        failing: false,
        alt: false,
    })
}

impl S1 {
    /// reference: one delivery attempt
    fn attempt(&self, done: &mut BTreeSet<usize>, i: usize, meta: u8) -> bool {
        let (_, kind, routable) = &self.w.msgs[i];
        if !routable || meta != 1 || done.contains(&i) {
            return false;
        }
        let mut d = done.clone();
        d.insert(i);
        let good = match kind {
            Kind::Plain => true,
            Kind::Fail | Kind::Panic => !self.failing,
            Kind::Reenter => {
                let _ = self.attempt(&mut d, 8, 1);
                let _ = self.attempt(&mut d, 0, 1);
                let _ = self.attempt(&mut d, 8, 1);
                true
            }
            Kind::ReenterStrict => self.attempt(&mut d, 9, 1),
            Kind::Chain0 => self.attempt(&mut d, 0, 1),
        };
        if good {
            *done = d;
        }
        good
    }
}

/// what is not an identifier is not reported delivered, however close it is to one
fn not_ids(ch: &Chain, mb: &str, id: &[u8]) -> Res<()> {
    let mut odd: Vec<Vec<u8>> = vec![vec![], id[1..].to_vec(), id[..31].to_vec(), hx(id).into_bytes()];
    for x in [&[0u8][..], &[0; 32], id, &[0xff]] {
        odd.push([x, id].concat());
        odd.push([id, x].concat());
    }
    odd.push(id.iter().rev().copied().collect());
    odd.push([&id[..31], &[id[31].wrapping_add(1)]].concat());
    for o in odd {
        let q = ch.query(mb, &json!({"mailbox": {"message_delivered": {"id": hx(&o)}}}));
        ensure!(q.map_or(true, |v| v["delivered"] == json!(false)), "{} reported delivered", hx(&o));
    }
    Ok(())
}

fn handle_calls(t: &TxOut, to: &str) -> usize {
    t.calls_to(to)
        .iter()
        .filter(|c| c.1.get("handle").is_some())
        .count()
}

impl Model for M1 {
    type S = S1;
    type A = A1;
    fn init(&self) -> Res<Vec<(String, S1)>> {
        Ok(vec![("fresh".into(), c01_world()?)])
    }
    fn actions(&self, s: &S1) -> Vec<A1> {
        let mut v = vec![];
        for i in self.only.clone().unwrap_or_else(|| (0..13).collect()) {
            for m in &self.metas {
                for c in 0..self.callers {
                    if c == 0 || *m == 1 {
                        v.push(A1::Process(i, *m, c));
                    }
                }
            }
        }
        if self.batches {
            v.push(A1::Batch(vec![(0, 1, true), (0, 1, true)]));
            v.push(A1::Batch(vec![(0, 1, false), (0, 1, false)]));
            v.push(A1::Batch(vec![(0, 0, true), (0, 1, true), (0, 0xee, true)]));
            v.push(A1::Batch(vec![(6, 1, true), (0, 1, true), (6, 1, true)]));
            v.push(A1::Batch(vec![(9, 1, true), (8, 1, true)]));
            v.push(A1::Batch(vec![(10, 1, true), (10, 1, true)]));
            v.push(A1::Batch(vec![(0, 1, true), (10, 1, true), (6, 1, false)]));
        }
        if s.ch.height == 1000 {
            v.push(A1::Blocks(1));
            v.push(A1::Blocks(1_000_000));
        }
        v.push(A1::Switch);
        if !s.alt {
            v.push(A1::SetIsm);
        }
        if self.admin {
            v.push(A1::Dispatch(13));
            v.push(A1::Dispatch(15));
            v.extend((0..4).map(A1::Admin));
        }
        v
    }
    fn key(&self, s: &S1) -> u128 {
        s.ch.key() ^ dig(&(s.ch.height, &s.done, s.failing, s.alt))
    }
    fn step(&self, s: &S1, a: &A1, cov: &mut Cov) -> Res<Step<S1>> {
        let mut n = s.clone();
        let w = s.w.clone();
        let mb = w.b.mb.as_str();
        match a {
            A1::Blocks(k) => n.ch.height += k,
            A1::Switch => {
                n.failing = !n.failing;
                for (i, p) in w.switchable.iter().enumerate() {
                    reprobe(&mut n.ch, p, |c| {
                        if i == 0 {
                            c.handle_fail = n.failing
                        } else {
                            c.handle_panic = n.failing
                        }
                    });
                }
            }
            A1::SetIsm => {
                n.alt = true;
                let owner = n.ch.user("owner");
                call(&mut n.ch, &owner, mb, json!({"set_default_ism": {"ism": w.alt_ism}}))?;
            }
            A1::Dispatch(i) => {
                let m = &w.msgs[*i].0;
                let k = nonce(&n.ch, mb)?;
                let alice = w.users[0].clone();
                let d = dispatch_msg(m.dest, &m.recipient, &m.body, None, None);
                let t = call(&mut n.ch, &alice, mb, d)?;
                let mut m = m.clone();
                m.nonce = k as u32;
                ensure_eq!(latest_id(&n.ch, mb)?, Some(hx(&m.id())), "what was dispatched");
                ensure_eq!(t.calls_to(&addr_of("osmo", &w.msgs[*i].0.recipient)).len(), 0, "calls to the recipient by a dispatch");
                cov.hit("dispatched");
            }
            A1::Admin(k) => {
                let owner = n.ch.user("owner");
                let bob = n.ch.user("bob");
                let j = match k {
                    0 => json!({"set_default_hook": {"hook": w.b.required}}),
                    1 => json!({"set_required_hook": {"hook": w.b.default}}),
                    2 => json!({"set_default_ism": {"ism": w.b.ism}}),
                    _ => json!({"ownable": {"init_ownership_transfer": {"next_owner": bob}}}),
                };
                n.alt = n.alt && *k != 2;
                let _ = n.ch.exec(&owner, mb, &j, &[]);
            }
            A1::Process(..) | A1::Batch(..) => {
                let (t, want) = match a {
                    A1::Process(i, m, c) => {
                        let t = n.ch.exec(
                            &w.users[*c],
                            mb,
                            &process_msg(&[*m], &w.msgs[*i].0.enc()),
                            &[],
                        );
                        let mut d = n.done.clone();
                        let r = s.attempt(&mut d, *i, *m);
                        n.done = d;
                        (t, r)
                    }
                    A1::Batch(list) => {
                        let em: Vec<_> = list
                            .iter()
                            .map(|(i, m, sw)| emit(mb, &process_msg(&[*m], &w.msgs[*i].0.enc()), *sw))
                            .collect();
                        let t = n.ch.exec(&w.users[0], &w.acct, &relay(&em), &[]);
                        let mut d = n.done.clone();
                        let mut good = true;
                        for (i, m, sw) in list {
                            let r = s.attempt(&mut d, *i, *m);
                            if !r && !*sw {
                                good = false;
                                break;
                            }
                        }
                        if good {
                            n.done = d;
                        }
                        (t, good)
                    }
                    _ => unreachable!(),
                };
                ensure_eq!(t.ok(), want, "outcome of {a:?} ({})", t.err());
                cov.hit(if want { "delivered" } else { "refused" });
                // calls received by recipients = newly delivered messages
                let mut per: BTreeMap<String, usize> = BTreeMap::new();
                for i in n.done.difference(&s.done) {
                    *per.entry(addr_of("osmo", &w.msgs[*i].0.recipient)).or_default() += 1;
                }
                let recips: BTreeSet<String> = w
                    .msgs
                    .iter()
                    .map(|m| addr_of("osmo", &m.0.recipient))
                    .collect();
                for r in recips {
                    ensure_eq!(
                        handle_calls(&t, &r),
                        per.get(&r).copied().unwrap_or(0),
                        "handle calls received by {r}"
                    );
                }
                if !want {
                    ensure_eq!(n.ch.key(), s.ch.key(), "state after a failed attempt");
                }
                if n.done.len() > s.done.len() + 1 {
                    cov.hit("nested delivery");
                }
            }
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S1, _cov: &mut Cov) -> Res<()> {
        for (i, (m, _, _)) in s.w.msgs.iter().enumerate() {
            ensure_eq!(
                delivered(&s.ch, &s.w.b.mb, &m.id())?,
                s.done.contains(&i),
                "delivered status of message {i}"
            );
        }
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        match self.admin {
            true => vec!["delivered", "refused", "dispatched"],
            false => vec!["delivered", "refused", "nested delivery"],
        }
    }
}

pub fn c01(c: &mut Ctx) {
    c.assume("the chain rolls back a failed (sub)message, as the wasm module does; every other effect is produced by the contracts themselves");
    c.assume("13 messages pairwise at distance one field or one bit, 8 recipient behaviours (accepting, failing, panicking, re-entering), histories up to the stated depth");
    c.run(
        "histories with two callers, re-entrancy and batches",
        &M1 {
            only: None,
            admin: false,
            batches: true,
            callers: 2,
            metas: vec![1, 0, 0xee, 0xdd],
        },
        c.pick(3, 4),
        50_000_000,
    );
    c.run(
        "deep histories, one caller",
        &M1 {
            only: None,
            admin: false,
            batches: false,
            callers: 1,
            metas: vec![1, 0],
        },
        c.pick(4, 6),
        50_000_000,
    );
    c.run(
        "deliveries among dispatches of the same messages and administration",
        &M1 {
            only: Some(vec![0, 6, 13, 14, 15]),
            admin: true,
            batches: false,
            callers: 1,
            metas: vec![1, 0],
        },
        c.pick(4, 6),
        50_000_000,
    );
    // accounts in several roles, messages of every origin, coins attached
    #[derive(Clone, Debug)]
    struct R {
        origin: u32,
        sender: usize,
        rec: usize,
        body: usize,
        who: usize,
        again: usize,
        coins: bool,
    }
    let mut rs = vec![];
    for origin in [REMOTE, LOCAL, 0, u32::MAX] {
        for sender in 0..7 {
            for rec in 0..4 {
                for body in [0usize, 1, 33] {
                    for (who, again) in [(0, 0), (0, 1), (2, 2), (0, 3), (3, 0), (4, 4), (0, 4), (5, 5), (0, 5)] {
                        for coins in [false, true] {
                            rs.push(R { origin, sender, rec, body, who, again, coins });
                        }
                    }
                }
            }
        }
    }
    c.cases(
        "accounts in several roles",
        || {
            let mut s = c01_world()?;
            for u in s.w.users.clone() {
                s.ch.fund(&u, "uosmo", 100);
            }
            let o = s.ch.user("owner");
            s.ch.fund(&o, "uosmo", 100);
            // the roles: a plain recipient, the default module, the default hook, the account
            let w = &s.w;
            let rec = vec![
                addr_of("osmo", &w.msgs[0].0.recipient),
                w.b.ism.clone(),
                w.b.default.clone(),
                w.acct.clone(),
            ];
            for r in &rec {
                s.ch.fund(r, "uosmo", 100);
            }
            Ok((s, rec))
        },
        rs,
        &["refused the second time", "delivered with coins tried"],
        |(s, recs), r, cov| {
            let w = &s.w;
            let mb = w.b.mb.as_str();
            let mut ch = s.ch.clone();
            let owner = ch.user("owner");
            let rec = recs[r.rec].clone();
            let callers = [
                w.users[0].clone(),
                w.users[1].clone(),
                owner.clone(),
                w.acct.clone(),
                rec.clone(),
                w.b.ism.clone(),
            ];
            let sender = match r.sender {
                0 => fill32("sender"),
                1 => h256(&rec),
                2 => h256(mb),
                3 => h256(&w.users[0]),
                4 => h256(&owner),
                5 => h256(&w.b.ism),
                _ => [0; 32],
            };
            let m = Msg { version: 3, nonce: 0, origin: r.origin, sender, dest: LOCAL, recipient: h256(&rec), body: fill("b", r.body) };
            let (p, bad) = (process_msg(&[1], &m.enc()), process_msg(&[0], &m.enc()));
            let one = coins(&[("uosmo", 1)]);
            let none: Vec<(String, u128)> = vec![];
            fn send(ch: &mut Chain, who: &str, mb: &str, m: &Value, f: &[(String, u128)]) -> TxOut {
                let f: Vec<(&str, u128)> = f.iter().map(|c| (c.0.as_str(), c.1)).collect();
                ch.exec(who, mb, m, &f)
            }
            let (who, again) = (&callers[r.who], &callers[r.again]);
            let k = ch.key();
            for f in [&none, &one] {
                let t = send(&mut ch, who, mb, &bad, f);
                ensure!(!t.ok(), "delivered although the module refuses");
                ensure_eq!(ch.key(), k, "state after a failed attempt");
            }
            let mut done = false;
            if r.coins {
                let t = send(&mut ch, who, mb, &p, &one);
                done = t.ok();
                cov.hit("delivered with coins tried");
                ensure_eq!(handle_calls(&t, &rec), done as usize, "calls received by the recipient");
            }
            if !done {
                let t = send(&mut ch, who, mb, &p, &none);
                ensure!(t.ok(), "delivery fails: {}", t.err());
                ensure_eq!(handle_calls(&t, &rec), 1, "calls received by the recipient");
            }
            ensure!(delivered(&ch, mb, &m.id())?, "delivered but not reported");
            for step in [0u64, 1, 1_000_000] {
                ch.height += step;
                let k = ch.key();
                for who in [again, &callers[0]] {
                    for f in [&none, &one] {
                        for p in [&p, &bad, &process_msg(&[1, 2], &m.enc()), &process_msg(&[], &m.enc())] {
                            let t = send(&mut ch, who, mb, p, f);
                            ensure!(!t.ok(), "delivered twice");
                            ensure_eq!(handle_calls(&t, &rec), 0, "calls received again");
                            ensure_eq!(ch.key(), k, "state after the refused second delivery");
                        }
                    }
                }
            }
            cov.hit("refused the second time");
            Ok(dig(&done))
        },
    );
    // every message differing from a delivered one in one bit or one byte more / less
    #[derive(Clone, Debug)]
    enum V {
        Bit(usize),
        Cut,
        Add(u8),
    }
    let blen = 77 + 40;
    let mut vs: Vec<V> = (0..blen * 8).map(V::Bit).collect();
    vs.push(V::Cut);
    vs.extend([0u8, 1, 0xff].map(V::Add));
    c.cases(
        "every single-bit neighbour of a delivered message",
        || {
            let s = c01_world()?;
            Ok(s)
        },
        vs,
        &["neighbour delivered", "neighbour not routable"],
        |s, v, cov| {
            let w = &s.w;
            let mb = &w.b.mb;
            let mut base = w.msgs[0].0.clone();
            base.body = fill("body", 40);
            let be = base.enc();
            let mut nb = be.clone();
            match v {
                V::Bit(i) => nb[i / 8] ^= 0x80 >> (i % 8),
                V::Cut => {
                    nb.pop();
                }
                V::Add(b) => nb.push(*b),
            }
            let nm = Msg::dec(&nb).unwrap();
            let mut ch = s.ch.clone();
            // the neighbour's recipient exists and accepts
            let addr = addr_of("osmo", &nm.recipient);
            if !ch.contracts.contains_key(&*addr) {
                let mut st = BTreeMap::new();
                st.insert(
                    PROBE_KEY.to_vec(),
                    serde_json::to_vec(&ProbeCfg::default()).unwrap(),
                );
                ch.place(&addr, "probe", st);
            }
            let who = &w.users[0];
            let nid = nm.id();
            call(&mut ch, who, mb, process_msg(&[1], &be))?;
            ensure!(delivered(&ch, mb, &base.id())?, "message delivered but not reported");
            ensure!(!delivered(&ch, mb, &nid)?, "undelivered neighbour reported as delivered");
            not_ids(&ch, mb, &base.id())?;
            let t = ch.exec(who, mb, &process_msg(&[1], &nb), &[]);
            let routable = nm.version == 3 && nm.dest == LOCAL;
            ensure_eq!(t.ok(), routable, "delivery of the neighbour ({})", t.err());
            ensure_eq!(delivered(&ch, mb, &nid)?, routable, "status of the neighbour");
            cov.hit(if routable { "neighbour delivered" } else { "neighbour not routable" });
            for m in [&be, &nb] {
                let k = ch.key();
                let t = ch.exec(&w.users[1], mb, &process_msg(&[1], m), &[]);
                ensure!(!t.ok(), "delivered twice");
                ensure_eq!(ch.key(), k, "state after refused second delivery");
            }
            Ok(dig(&t.ok()))
        },
    );
    // messages whose ids have four bytes in common
    let mk = |w: &W1, k: u32| Msg { body: k.to_be_bytes().to_vec(), ..w.msgs[0].0.clone() };
    let w0 = c.setup(c01_world).w;
    let v = collisions(&mk(&w0, 0).enc()[..77], false);
    c.cases(
        "ids with bytes in common",
        c01_world,
        v,
        &["both delivered"],
        move |s, (_, i, j), cov| {
            let w = &s.w;
            let mb = &w.b.mb;
            let mut ch = s.ch.clone();
            for (k, m) in [mk(w, *i), mk(w, *j)].iter().enumerate() {
                ensure!(!delivered(&ch, mb, &m.id())?, "message {k} reported beforehand");
                call(&mut ch, &w.users[0], mb, process_msg(&[1], &m.enc()))?;
                ensure!(delivered(&ch, mb, &m.id())?, "message {k} not reported");
            }
            for m in [mk(w, *i), mk(w, *j)] {
                let t = ch.exec(&w.users[1], mb, &process_msg(&[1], &m.enc()), &[]);
                ensure!(!t.ok(), "delivered again");
            }
            cov.hit("both delivered");
            Ok(ch.key())
        },
    );
    // a long history: nothing delivered is ever forgotten
    let n = c.pick(150u32, 600);
    c.cases(
        "long histories",
        c01_world,
        vec![0u32, 1, 2, 3],
        &["long"],
        move |s, mode, cov| {
            let mut ch = s.ch.clone();
            let w = &s.w;
            let mb = &w.b.mb;
            let mk = |k: u32| {
                let mut m = w.msgs[0].0.clone();
                match mode {
                    0 => m.nonce = k,
                    1 => m.origin = k,
                    2 => m.body = fill("b", k as usize * 17),
                    _ => m.sender = fill32(&format!("s{k}")),
                }
                m
            };
            for k in 0..n {
                ch.height += (k as u64 % 7) * 1000;
                let m = mk(k);
                ensure!(!delivered(&ch, mb, &m.id())?, "message {k} delivered beforehand");
                call(&mut ch, &w.users[0], mb, process_msg(&[1], &m.enc()))?;
                ensure!(delivered(&ch, mb, &m.id())?, "message {k} not reported");
            }
            ch.height += 100_000_000;
            for k in 0..n {
                let m = mk(k);
                ensure!(delivered(&ch, mb, &m.id())?, "message {k} forgotten");
                let t = ch.exec(&w.users[1], mb, &process_msg(&[1], &m.enc()), &[]);
                ensure!(!t.ok(), "message {k} delivered again");
            }
            cov.hit("long");
            Ok(ch.key())
        },
    );
}

// ------------------------------------------------------------------ C02

const VERDICTS: &[&str] = &["accept", "reject", "error", "panic", "garbage", "exact"];

#[derive(Clone, Debug, PartialEq)]
enum Spec {
    None,
    Own(usize),
    /// own module address is not a contract
    OwnMissing,
    Errors,
}

#[derive(Clone)]
struct W2 {
    ch: Chain,
    /// mailboxes without / with default module
    mb: [String; 2],
    default: String,
    own: String,
    rec: String,
    users: Vec<String>,
}

fn c02_world() -> Res<W2> {
    let mut ch = Chain::new("osmo");
    let owner = ch.user("owner");
    let a = mailbox(&mut ch, &owner, LOCAL)?;
    let b = mailbox(&mut ch, &owner, LOCAL)?;
    let default = probe(&mut ch, |_| {});
    let own = probe(&mut ch, |_| {});
    let rec = probe(&mut ch, |_| {});
    call(&mut ch, &owner, &b, json!({"set_default_ism": {"ism": default}}))?;
    let users = vec![ch.user("alice"), owner, rec.clone()];
    Ok(W2 {
        ch,
        mb: [a, b],
        default,
        own,
        rec,
        users,
    })
}

/// what the module with verdict kind `k` says
fn says(k: usize, exact_hit: bool) -> bool {
    match VERDICTS[k] {
        "accept" => true,
        "exact" => exact_hit,
        _ => false,
    }
}

fn verify_queries(t: &TxOut, ism: &str) -> Vec<Value> {
    t.queries_to(ism)
        .into_iter()
        .filter_map(|(_, q)| q.get("ism").and_then(|i| i.get("verify")).cloned())
        .collect()
}

#[derive(Clone, Debug)]
struct K2 {
    /// truncate the packed message to this many bytes
    cut: Option<usize>,
    version: u8,
    /// domain of the mailbox
    local: u32,
    dest: u32,
    origin: u32,
    spec: Spec,
    /// None: mailbox without default module
    default: Option<usize>,
    handle_ok: bool,
    meta: Vec<u8>,
    body: usize,
    caller: usize,
    /// the "exact" module expects slightly different bytes: 0 same, 1 metadata, 2 message, 3 swapped
    skew: u8,
}

fn k2() -> K2 {
    K2 {
        cut: None,
        version: 3,
        local: LOCAL,
        dest: LOCAL,
        origin: REMOTE,
        spec: Spec::None,
        default: Some(0),
        handle_ok: true,
        meta: vec![0xab],
        body: 5,
        caller: 0,
        skew: 0,
    }
}

fn c02_case(w: &W2, k: &K2, cov: &mut Cov) -> Res<u128> {
    let mut ch = w.ch.clone();
    let m = Msg {
        version: k.version,
        nonce: 5,
        origin: k.origin,
        sender: fill32("remote sender"),
        dest: k.dest,
        recipient: h256(&w.rec),
        body: fill("c02", k.body),
    };
    let mut bytes = m.enc();
    if let Some(n) = k.cut {
        bytes.truncate(n);
    }
    let (mut wm, mut wb) = (k.meta.clone(), bytes.clone());
    match k.skew {
        1 => wm.push(0),
        2 => {
            let n = wb.len() - 1;
            wb[n] ^= 1
        }
        3 => std::mem::swap(&mut wm, &mut wb),
        _ => {}
    }
    let set = |c: &mut ProbeCfg, v: usize| {
        c.verify = VERDICTS[v].into();
        c.want_meta = hx(&wm);
        c.want_msg = hx(&wb);
    };
    if let Some(d) = k.default {
        reprobe(&mut ch, &w.default, |c| set(c, d));
    }
    let nowhere = ch.user("nowhere");
    reprobe(&mut ch, &w.rec, |c| {
        c.handle_fail = !k.handle_ok;
        match &k.spec {
            Spec::None => {}
            Spec::Own(_) => c.ism = Some(w.own.clone()),
            Spec::OwnMissing => c.ism = Some(nowhere.clone()),
            Spec::Errors => c.ism_err = true,
        }
    });
    if let Spec::Own(v) = k.spec {
        reprobe(&mut ch, &w.own, |c| set(c, v));
    }
    let mut mb = w.mb[k.default.is_some() as usize].clone();
    if k.local != LOCAL {
        mb = mailbox(&mut ch, &w.users[1], k.local)?;
        if k.default.is_some() {
            call(&mut ch, &w.users[1], &mb, json!({"set_default_ism": {"ism": w.default}}))?;
        }
    }
    let mb = &mb;
    let exact = k.skew == 0;
    let (verdict, named) = match &k.spec {
        Spec::Own(v) => (says(*v, exact), Some(&w.own)),
        Spec::None => match k.default {
            Some(d) => (says(d, exact), Some(&w.default)),
            None => (false, None),
        },
        _ => (false, None),
    };
    if let Some(n) = named {
        let q = ch
            .query(mb, &json!({"mailbox": {"recipient_ism": {"recipient_addr": w.rec}}}))
            .map_err(|e| format!("recipient_ism query: {e}"))?;
        ensure_eq!(q["ism"].as_str(), Some(n.as_str()), "recipient_ism query");
    }
    let well = bytes.len() >= 77 && k.version == 3 && k.dest == k.local;
    let want = well && verdict && k.handle_ok;
    let before = ch.key();
    let t = ch.exec(&w.users[k.caller], mb, &process_msg(&k.meta, &bytes), &[]);
    ensure_eq!(t.ok(), want, "delivery outcome ({})", t.err());
    if want {
        cov.hit("delivered");
        let q = verify_queries(&t, named.unwrap());
        ensure!(
            q.iter()
                .any(|v| v["metadata"] == hx(&k.meta) && v["message"] == hx(&bytes)),
            "the named module was not asked about exactly these bytes"
        );
    } else {
        cov.hit(match (well, verdict) {
            (false, _) => "refused: malformed",
            (true, false) => "refused: verdict",
            _ => "refused: recipient",
        });
        ensure_eq!(ch.key(), before, "state after refusal");
        ensure!(
            bytes.len() < 77 || !delivered(&ch, mb, &Msg::dec(&bytes).unwrap().id())?,
            "refused message reported delivered"
        );
    }
    Ok(dig(&(t.ok(), t.err())))
}

// settings histories
#[derive(Clone)]
struct S2 {
    w: W2,
    mods: Arc<Vec<String>>, // accept, reject, bytes
    default: Option<usize>,
    own: Option<usize>,
    next: u32,
}
#[derive(Clone, Debug)]
enum A2 {
    Default(usize),
    Own(Option<usize>),
    Attempt(u8),
}
struct M2;
impl Model for M2 {
    type S = S2;
    type A = A2;
    fn init(&self) -> Res<Vec<(String, S2)>> {
        let mut w = c02_world()?;
        let mods: Vec<String> = ["accept", "reject", "bytes"]
            .iter()
            .map(|k| probe(&mut w.ch, |c| c.verify = k.to_string()))
            .collect();
        Ok(vec![(
            "no default module".into(),
            S2 {
                w,
                mods: Arc::new(mods),
                default: None,
                own: None,
                next: 0,
            },
        )])
    }
    fn actions(&self, _: &S2) -> Vec<A2> {
        let mut v: Vec<A2> = (0..3).map(A2::Default).collect();
        v.extend([None, Some(0), Some(1), Some(2)].map(A2::Own));
        v.extend([1u8, 0, 0xee].map(A2::Attempt));
        v
    }
    fn key(&self, s: &S2) -> u128 {
        s.w.ch.key() ^ dig(&(s.default, s.own, s.next))
    }
    fn step(&self, s: &S2, a: &A2, cov: &mut Cov) -> Res<Step<S2>> {
        let mut n = s.clone();
        let mb = s.w.mb[0].clone();
        match a {
            A2::Default(i) => {
                let o = n.w.ch.user("owner");
                call(&mut n.w.ch, &o, &mb, json!({"set_default_ism": {"ism": s.mods[*i]}}))?;
                n.default = Some(*i);
            }
            A2::Own(o) => {
                n.own = *o;
                reprobe(&mut n.w.ch, &s.w.rec, |c| c.ism = o.map(|i| s.mods[i].clone()));
            }
            A2::Attempt(b) => {
                let m = Msg {
                    version: 3,
                    nonce: s.next,
                    origin: 1,
                    sender: [7; 32],
                    dest: LOCAL,
                    recipient: h256(&s.w.rec),
                    body: vec![],
                };
                let used = s.own.or(s.default);
                let want = match used {
                    Some(0) => true,
                    Some(2) => *b == 1,
                    _ => false,
                };
                let t = n.w.ch.exec(&s.w.users[0], &mb, &process_msg(&[*b], &m.enc()), &[]);
                ensure_eq!(t.ok(), want, "outcome with module {used:?} ({})", t.err());
                if want {
                    n.next += 1;
                    cov.hit("delivered");
                } else {
                    cov.hit("refused");
                }
            }
        }
        if let Some(u) = n.own.or(n.default) {
            let q = n
                .w
                .ch
                .query(&mb, &json!({"mailbox": {"recipient_ism": {"recipient_addr": s.w.rec}}}))?;
            ensure_eq!(q["ism"].as_str(), Some(s.mods[u].as_str()), "recipient_ism query");
        }
        if let Some(d) = n.default {
            let q = n.w.ch.query(&mb, &json!({"mailbox": {"default_ism": {}}}))?;
            ensure_eq!(q["default_ism"].as_str(), Some(s.mods[d].as_str()), "default_ism query");
        }
        Ok(Step::Next(n))
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["delivered", "refused"]
    }
}

pub fn c02(c: &mut Ctx) {
    c.assume("security modules and recipients are probe contracts that return every kind of answer (accept, reject, error, panic, non-verdict, byte-exact)");
    let versions = [3u8, 0, 1, 2, 4, 0x83, 0x13, 0x07, 0xff];
    let mut v = vec![];
    // full product of the decision inputs
    let mut specs = vec![Spec::None, Spec::OwnMissing, Spec::Errors];
    specs.extend((0..VERDICTS.len()).map(Spec::Own));
    let mut defaults: Vec<Option<usize>> = vec![None];
    defaults.extend((0..VERDICTS.len()).map(Some));
    for spec in &specs {
        for default in &defaults {
            for version in [3u8, 2, 4] {
                for dest in [LOCAL, LOCAL ^ 1, REMOTE] {
                    for handle_ok in [true, false] {
                        for caller in 0..3 {
                            for skew in 0..4 {
                                for meta in [vec![], vec![1u8]] {
                                    v.push(K2 {
                                        spec: spec.clone(),
                                        default: *default,
                                        version,
                                        dest,
                                        handle_ok,
                                        caller,
                                        skew,
                                        meta,
                                        ..k2()
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    c.cases(
        "decision product",
        c02_world,
        v,
        &[
            "delivered",
            "refused: malformed",
            "refused: verdict",
            "refused: recipient",
        ],
        c02_case,
    );
    // values: versions, domains, lengths
    let mut v = vec![];
    for spec in [Spec::None, Spec::Own(0)] {
        for version in 0..=255u8 {
            v.push(K2 {
                version,
                spec: spec.clone(),
                ..k2()
            });
        }
        for version in versions {
            for dest in domains(LOCAL) {
                v.push(K2 {
                    version,
                    dest,
                    spec: spec.clone(),
                    ..k2()
                });
            }
        }
        for origin in domains(LOCAL).into_iter().chain(domains(REMOTE)) {
            for dest in [LOCAL, origin] {
                v.push(K2 {
                    origin,
                    dest,
                    spec: spec.clone(),
                    ..k2()
                });
            }
        }
        for n in 0..77 + 5 {
            v.push(K2 {
                cut: Some(n),
                spec: spec.clone(),
                ..k2()
            });
        }
    }
    // local domains of every size
    for local in domains(LOCAL).into_iter().chain([LOCAL]) {
        let near = domains(local).into_iter().chain([LOCAL, REMOTE]).chain((0..32).map(|b| local ^ (1 << b)));
        for dest in near.chain([local, local.swap_bytes()]) {
            for (origin, spec) in [(REMOTE, Spec::None), (local, Spec::Own(0)), (dest, Spec::None)] {
                v.push(K2 {
                    local,
                    dest,
                    origin,
                    spec,
                    ..k2()
                });
            }
        }
    }
    let own_exact = Spec::Own(5);
    for (spec, default) in [(Spec::None, Some(5)), (own_exact.clone(), None), (own_exact, Some(1))] {
        for body in [0usize, 1, 2, 31, 32, 33, 63, 64, 65, 178, 179, 180, 255, 256, 257, 4096, 65536] {
            for ml in [0usize, 1, 31, 32, 33, 64, 68, 255, 256, 257, 1024, 5000] {
                for skew in 0..4 {
                    if skew == 2 || skew != 3 || body != ml {
                        v.push(K2 {
                            spec: spec.clone(),
                            default,
                            body,
                            meta: fill("meta", ml),
                            skew,
                            ..k2()
                        });
                    }
                }
            }
        }
        for n in sizes(c.thorough()) {
            for (body, meta) in [(n, 5), (5, n), (n, n)] {
                v.push(K2 {
                    spec: spec.clone(),
                    default,
                    body,
                    meta: fill("meta", meta),
                    skew: 0,
                    ..k2()
                });
            }
        }
        for x in 0..=255u8 {
            v.push(K2 {
                spec: spec.clone(),
                default,
                meta: vec![x, 0, x],
                ..k2()
            });
        }
    }
    c.cases(
        "versions, domains, lengths and exact bytes",
        c02_world,
        v,
        &["delivered", "refused: malformed", "refused: verdict"],
        c02_case,
    );
    // nobody's message passes without the module's consent, and everybody's passes with it
    #[derive(Clone, Debug)]
    struct KP {
        origin: u32,
        nonce: u32,
        sender: usize,
        body: usize,
        caller: usize,
        paid: usize,
        verdict: usize,
        own: bool,
    }
    const PAID: [&[(&str, u128)]; 4] = [&[], &[("fee", 1)], &[("fee", 1_000_000)], &[("fee", 3), ("other", 4)]];
    let mut v = vec![];
    for origin in c.pick(vec![REMOTE, LOCAL, 0], vec![REMOTE, LOCAL, 0, 1, u32::MAX]) {
        for nonce in c.pick(vec![0, 1], vec![0, 1, 0x8000_0000, u32::MAX]) {
            for sender in 0..8 {
                for body in 0..4 {
                    for caller in 0..7 {
                        for verdict in 0..4 {
                            for paid in 0..PAID.len() {
                                // whether coins are welcome is not settled
                                if paid != 0 && verdict == 0 {
                                    continue;
                                }
                                for own in [false, true] {
                                    v.push(KP {
                                        origin,
                                        nonce,
                                        sender,
                                        body,
                                        caller,
                                        paid,
                                        verdict,
                                        own,
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    c.cases(
        "senders and callers of every rank",
        c02_world,
        v,
        &["delivered", "refused", "refused with coins"],
        |w: &W2, k, cov| {
            let mut ch = w.ch.clone();
            let ids: Vec<[u8; 32]> = [&w.mb[1], &w.rec, &w.users[1], &w.default, &w.own, &w.users[0]]
                .iter()
                .map(|a| h256(a))
                .chain([[0; 32], [0xff; 32]])
                .collect();
            let rank = [&w.users[0], &w.users[1], &w.rec, &w.default, &w.own, &w.mb[0], &w.mb[1]];
            let mut m = Msg {
                version: 3,
                nonce: k.nonce,
                origin: k.origin,
                sender: ids[k.sender],
                dest: LOCAL,
                recipient: h256(&w.rec),
                body: vec![],
            };
            m.body = match k.body {
                0 => vec![],
                1 => fill("c02", 64),
                2 => m.enc(),
                _ => vec![0; 32],
            };
            reprobe(&mut ch, &w.default, |c| c.verify = VERDICTS[if k.own { 0 } else { k.verdict }].into());
            if k.own {
                reprobe(&mut ch, &w.own, |c| c.verify = VERDICTS[k.verdict].into());
                reprobe(&mut ch, &w.rec, |c| c.ism = Some(w.own.clone()));
            }
            let who = rank[k.caller];
            for (d, a) in PAID[k.paid] {
                ch.fund(who, d, *a);
            }
            let before = ch.key();
            let t = ch.exec(who, &w.mb[1], &process_msg(&[1, 2], &m.enc()), PAID[k.paid]);
            let want = k.verdict == 0;
            ensure_eq!(t.ok(), want, "delivery outcome ({})", t.err());
            if want {
                cov.hit("delivered");
            } else {
                ensure_eq!(ch.key(), before, "state after refusal");
                cov.hit(if k.paid == 0 { "refused" } else { "refused with coins" });
            }
            Ok(dig(k))
        },
    );
    // one contract as recipient, its module and the default module at once
    #[derive(Clone, Debug)]
    struct KR {
        /// what the recipient designates: nothing, itself, D, O, the mailbox, a user
        names: usize,
        /// default module: none, D, the recipient
        default: usize,
        /// verdicts of the recipient, D and O
        says: [usize; 3],
        origin: u32,
        caller: usize,
        /// who owns the mailbox: its creator, the recipient, D or O
        owns: usize,
    }
    let mut v = vec![];
    for names in 0..6 {
        for default in 0..3 {
            for a in 0..4 {
                for b in 0..4 {
                    for o in 0..4 {
                        for origin in [REMOTE, LOCAL] {
                            for caller in 0..5 {
                                for owns in 0..4 {
                                    v.push(KR { names, default, says: [a, b, o], origin, caller, owns });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    c.cases(
        "one contract in several roles",
        c02_world,
        v,
        &["delivered", "refused", "own module delivered", "own module refused"],
        |w: &W2, k, cov| {
            let mut ch = w.ch.clone();
            let mb = &w.mb[(k.default != 0) as usize];
            let owner = ch.user("owner");
            if k.default == 2 {
                call(&mut ch, &owner, mb, json!({"set_default_ism": {"ism": w.rec}}))?;
            }
            if k.owns > 0 {
                let to = [&w.rec, &w.default, &w.own][k.owns - 1];
                call(&mut ch, &owner, mb, json!({"ownable": {"init_ownership_transfer": {"next_owner": to}}}))?;
                call(&mut ch, to, mb, json!({"ownable": {"claim_ownership": {}}}))?;
            }
            let nowhere = ch.user("nowhere");
            let named = [None, Some(&w.rec), Some(&w.default), Some(&w.own), Some(mb), Some(&nowhere)][k.names];
            for (p, v) in [&w.rec, &w.default, &w.own].into_iter().zip(k.says) {
                reprobe(&mut ch, p, |c| c.verify = VERDICTS[v].into());
            }
            reprobe(&mut ch, &w.rec, |c| c.ism = named.cloned());
            let module = named.or([None, Some(&w.default), Some(&w.rec)][k.default]);
            let want = match module {
                Some(m) if *m == w.rec => k.says[0] == 0,
                Some(m) if *m == w.default => k.says[1] == 0,
                Some(m) if *m == w.own => k.says[2] == 0,
                _ => false,
            };
            if let Some(m) = module {
                let q = ch
                    .query(mb, &json!({"mailbox": {"recipient_ism": {"recipient_addr": w.rec}}}))
                    .map_err(|e| format!("recipient_ism query: {e}"))?;
                ensure_eq!(q["ism"].as_str(), Some(m.as_str()), "recipient_ism query");
            }
            let m = Msg {
                version: 3,
                nonce: 5,
                origin: k.origin,
                sender: fill32("remote sender"),
                dest: LOCAL,
                recipient: h256(&w.rec),
                body: fill("c02", 5),
            };
            let who = [&w.users[0], &owner, &w.rec, &w.default, &w.own][k.caller];
            let before = ch.key();
            let t = ch.exec(who, mb, &process_msg(&[1], &m.enc()), &[]);
            ensure_eq!(t.ok(), want, "delivery outcome ({})", t.err());
            if !want {
                ensure_eq!(ch.key(), before, "state after refusal");
            }
            cov.hit(match (module == Some(&w.rec), want) {
                (true, true) => "own module delivered",
                (true, false) => "own module refused",
                (_, true) => "delivered",
                _ => "refused",
            });
            Ok(dig(&(t.ok(), t.err())))
        },
    );
    c.run("changing modules", &M2, c.pick(9, 14), 50_000_000);
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug)]
struct K3 {
    hrp: &'static str,
    recipient: [u8; 32],
    sender: [u8; 32],
    origin: u32,
    nonce: u32,
    body: Vec<u8>,
    meta: usize,
    /// coins attached by the caller: one digit per denomination
    paid: u8,
    /// after this many earlier deliveries to other recipients
    warm: usize,
    /// there is no contract where the message goes, only at places that look like it
    absent: bool,
}

pub fn c03(c: &mut Ctx) {
    c.assume("recipients are probe contracts placed at 20- and 32-byte addresses, under four address prefixes");
    let mut v: Vec<K3> = vec![];
    let base = K3 {
        hrp: "osmo",
        recipient: fill32("recipient"),
        sender: fill32("sender"),
        origin: REMOTE,
        nonce: 77,
        body: b"payload".to_vec(),
        meta: 3,
        paid: 0,
        warm: 0,
        absent: false,
    };
    let mut ids: Vec<[u8; 32]> = vec![
        fill32("recipient"),
        pad32(&fill("acct", 20)),
        pad32(&fill("acct", 19)),
        pad32(&fill("acct", 12)),
        pad32(&[1]),
        [0; 32],
        [0xff; 32],
        pad32(&[0xff; 20]),
        pad32(&[0xff; 21]),
    ];
    // leading zeroes on either side of the 20-byte boundary
    for z in 1..=20 {
        let mut x = [0x5au8; 32];
        x[..z].fill(0);
        ids.push(x);
        let mut y = fill32("tail");
        y[32 - z..].fill(0);
        ids.push(y);
        let mut w = [0u8; 32];
        w[z] = 1;
        ids.push(w);
    }
    ids.sort();
    ids.dedup();
    for hrp in ["osmo", "inj", "neutron", "terra"] {
        for r in &ids {
            v.push(K3 {
                hrp,
                recipient: *r,
                ..base.clone()
            });
        }
    }
    for r in &ids {
        for hrp in ["osmo", "inj"] {
            v.push(K3 {
                hrp,
                recipient: *r,
                absent: true,
                ..base.clone()
            });
        }
    }
    for s in &ids {
        v.push(K3 {
            sender: *s,
            ..base.clone()
        });
        // a message to its own sender's address, and body equal to it
        v.push(K3 {
            sender: *s,
            recipient: *s,
            body: s.to_vec(),
            ..base.clone()
        });
    }
    for origin in domains(REMOTE).into_iter().chain(domains(LOCAL)) {
        v.push(K3 {
            origin,
            ..base.clone()
        });
        v.push(K3 {
            nonce: origin,
            ..base.clone()
        });
    }
    let lens: Vec<usize> = (0..300)
        .chain([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537])
        .collect();
    for l in lens {
        v.push(K3 {
            body: fill("body", l),
            ..base.clone()
        });
        v.push(K3 {
            body: vec![0; l],
            meta: l % 70,
            ..base.clone()
        });
    }
    for b in 0..=255u8 {
        v.push(K3 {
            body: vec![b],
            ..base.clone()
        });
        v.push(K3 {
            body: vec![b, b ^ 0x80, 0, b],
            ..base.clone()
        });
    }
    for paid in [1u8, 5, 10, 55] {
        for r in &ids {
            v.push(K3 {
                recipient: *r,
                paid,
                ..base.clone()
            });
        }
        for warm in 0..3 {
            v.push(K3 {
                paid,
                warm,
                ..base.clone()
            });
        }
    }
    for warm in 0..6 {
        v.push(K3 {
            warm,
            ..base.clone()
        });
    }
    c.cases(
        "delivered content",
        || Ok(()),
        v,
        &["delivered", "20-byte recipient", "nobody there"],
        |_, k, cov| {
            let mut ch = Chain::new(k.hrp);
            let owner = ch.user("owner");
            let b = basic(&mut ch, &owner, LOCAL)?;
            let short = k.recipient[..12].iter().all(|x| *x == 0);
            let addr = addr_of(k.hrp, &k.recipient);
            let mut st = BTreeMap::new();
            st.insert(
                PROBE_KEY.to_vec(),
                serde_json::to_vec(&ProbeCfg::default()).unwrap(),
            );
            // look-alike recipients that must not be called
            let mut rev = k.recipient;
            rev.reverse();
            for other in [
                b32(k.hrp, &k.recipient),
                b32(k.hrp, &k.recipient[12..]),
                addr_of(k.hrp, &rev),
                addr_of(k.hrp, &k.sender),
            ] {
                if other != addr || !k.absent {
                    ch.place(&other, "probe", st.clone());
                }
            }
            if !k.absent {
                ch.place(&addr, "probe", st.clone());
            }
            let m = Msg {
                version: 3,
                nonce: k.nonce,
                origin: k.origin,
                sender: k.sender,
                dest: LOCAL,
                recipient: k.recipient,
                body: k.body.clone(),
            };
            let mut meta = vec![1u8];
            meta.extend(fill("m", k.meta));
            let who = ch.user("relayer");
            for i in 0..k.warm {
                let mut o = m.clone();
                o.nonce += 1 + i as u32;
                o.body.push(i as u8);
                o.recipient = if i % 2 == 0 { k.sender } else { k.recipient };
                call(&mut ch, &who, &b.mb, process_msg(&meta, &o.enc()))?;
            }
            ch.fund(&b.mb, "uosmo", 12345);
            ch.fund(&who, "uosmo", 12345);
            ch.fund(&who, "a", 12345);
            let before = ch.clone();
            let paid: Vec<(String, u128)> = coins(&[("uosmo", (k.paid % 10) as u128), ("a", (k.paid / 10) as u128)])
                .into_iter()
                .filter(|c| c.1 > 0)
                .collect();
            let t = try_call(&mut ch, &who, &b.mb, &process_msg(&meta, &m.enc()), &paid);
            if !paid.is_empty() && !t.ok() {
                // a mailbox may refuse coins with a delivery
                ensure_eq!(ch.key(), before.key(), "state after a refused delivery");
                cov.hit("paid delivery refused");
                return Ok(dig(k));
            }
            if k.absent {
                ensure!(!t.ok(), "a message to nobody was delivered");
                ensure_eq!(ch.key(), before.key(), "state after a refused delivery");
                ensure!(!delivered(&ch, &b.mb, &m.id())?, "a message to nobody is reported as delivered");
                cov.hit("nobody there");
                return Ok(dig(k));
            }
            let t = ok(t, "delivery")?;
            // coins attached to a delivery never leave the mailbox
            let mut moved: BTreeMap<(String, String), i128> = BTreeMap::new();
            for (d, a) in &paid {
                moved.insert((who.clone(), d.clone()), -(*a as i128));
                moved.insert((b.mb.clone(), d.clone()), *a as i128);
            }
            ensure_eq!(bank_delta(&before, &ch), moved, "balances after delivery");
            let calls = t.calls();
            ensure_eq!(calls.len(), 2, "number of calls in the delivery transaction");
            let (from, to, msg, funds) = &calls[1];
            ensure_eq!(from, &b.mb, "caller of the recipient");
            ensure_eq!(to, &addr, "called account");
            ensure!(funds.is_empty(), "recipient got funds {funds:?}");
            let want = json!({"handle": {"origin": k.origin, "sender": hx(&k.sender), "body": hx(&k.body)}});
            ensure_eq!(msg, &want, "message given to the recipient");
            for e in t.live() {
                match e {
                    Ev::Send { .. } | Ev::Mint { .. } | Ev::Burn { .. } => {
                        return Err(format!("unexpected effect {e:?}"))
                    }
                    _ => {}
                }
            }
            let id = t.events(&b.mb, "mailbox_process_id");
            ensure_eq!(id.len(), 1, "process-id events");
            ensure_eq!(id[0].get("message_id"), Some(&hx(&m.id())), "id event");
            let ev = t.events(&b.mb, "mailbox_process");
            ensure_eq!(ev.len(), 1, "process events");
            ensure_eq!(ev[0].get("origin"), Some(&k.origin.to_string()), "origin in event");
            ensure_eq!(ev[0].get("sender"), Some(&hx(&k.sender)), "sender in event");
            ensure_eq!(ev[0].get("recipient"), Some(&hx(&k.recipient)), "recipient in event");
            ensure!(delivered(&ch, &b.mb, &m.id())?, "not reported as delivered");
            cov.hit("delivered");
            if short {
                cov.hit("20-byte recipient");
            }
            Ok(dig(&(addr, hx(&m.id()))))
        },
    );
}
