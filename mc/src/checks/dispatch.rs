//! C04, C05, C06: dispatch, hook payment, hook compositions.
use crate::chain::{b32, h256, Chain, Coins, TxOut};
use crate::codes::price;
use crate::explore::{Cov, CovExt, Ctx, Model, Res, Step};
use crate::util::*;
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

const LOCAL: u32 = 0x01fe_0304;

// ------------------------------------------------------------------ C04

#[derive(Clone, Copy, Debug, PartialEq)]
enum Hk {
    Default,
    Alt,
    Failing,
    /// dispatches another message itself
    Nest,
    /// not an account address
    Bad,
    /// no contract there
    Missing,
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct D4 {
    variant: u8,
    reclen: usize,
    hook: Hk,
    meta: u8,
}

#[derive(Clone, Debug)]
enum A4 {
    Disp(u8, D4),
    Batch(Vec<(D4, bool)>),
    Required(bool),
    QuoteFails(bool),
    Default(bool),
    /// the default (true) or required hook is configured
    Install(bool),
}

struct W4 {
    b: Basic,
    alt: String,
    failing: String,
    nest: String,
    acct: String,
    alice: String,
}

#[derive(Clone)]
struct S4 {
    ch: Chain,
    w: Arc<W4>,
    n: u32,
    last: Option<[u8; 32]>,
    req_ok: bool,
    quote_ok: bool,
    def_ok: bool,
    req_set: bool,
    def_set: bool,
}

fn body4(v: u8) -> (u32, [u8; 32], Vec<u8>) {
    match v {
        0 => (0x0a0b_0c0d, fill32("recipient"), b"body".to_vec()),
        1 => (LOCAL, [0; 32], vec![]),
        _ => (0xffff_ffff, [0xff; 32], fill("long", 200)),
    }
}

fn c04_world() -> Res<S4> {
    c04_start(true)
}
/// with or without the hooks of the mailbox configured
fn c04_start(installed: bool) -> Res<S4> {
    let mut ch = Chain::new("osmo");
    let owner = ch.user("owner");
    let b = if installed {
        basic(&mut ch, &owner, LOCAL)?
    } else {
        Basic {
            mb: mailbox(&mut ch, &owner, LOCAL)?,
            required: quiet_hook(&mut ch),
            default: quiet_hook(&mut ch),
            ism: ch.user("no module"),
        }
    };
    let alt = quiet_hook(&mut ch);
    let failing = probe(&mut ch, |c| c.post_fail = true);
    let acct = probe(&mut ch, |_| {});
    let (d, r, bd) = body4(2);
    let nest = probe(&mut ch, |c| {
        c.post_emit = vec![
            // a failing dispatch in between consumes nothing
            emit(&b.mb, &dispatch_msg(d, &r, &bd, Some(&failing), None), true),
            emit(&b.mb, &dispatch_msg(d, &r, &bd, Some(&alt), None), false),
        ]
    });
    let alice = ch.user("alice");
    Ok(S4 {
        ch,
        w: Arc::new(W4 {
            b,
            alt,
            failing,
            nest,
            acct,
            alice,
        }),
        n: 0,
        last: None,
        req_ok: true,
        quote_ok: true,
        def_ok: true,
        req_set: installed,
        def_set: installed,
    })
}

fn msg4(w: &W4, d: &D4) -> Value {
    let (dest, rec, body) = body4(d.variant);
    let mut r = rec.to_vec();
    r.resize(d.reclen, 7);
    let hook = match d.hook {
        Hk::Default => None,
        Hk::Alt => Some(w.alt.clone()),
        Hk::Failing => Some(w.failing.clone()),
        Hk::Nest => Some(w.nest.clone()),
        Hk::Bad => Some("osmo1notanaddress".to_string()),
        Hk::Missing => Some(w.alice.clone()),
    };
    let meta: Option<Vec<u8>> = match d.meta {
        0 => None,
        1 => Some(vec![]),
        _ => Some(fill("meta", 52)),
    };
    dispatch_msg(dest, &r, &body, hook.as_deref(), meta.as_deref())
}

impl S4 {
    /// reference: messages dispatched by one call, or failure
    fn dispatch(&self, n: &mut u32, out: &mut Vec<Msg>, sender: &str, d: &D4) -> bool {
        if d.reclen != 32 || !self.req_ok || !self.quote_ok || !self.req_set {
            return false;
        }
        match d.hook {
            Hk::Bad | Hk::Missing | Hk::Failing => return false,
            Hk::Default if !self.def_ok || !self.def_set => return false,
            _ => {}
        }
        let (dest, recipient, body) = body4(d.variant);
        out.push(Msg {
            version: 3,
            nonce: *n,
            origin: LOCAL,
            sender: h256(sender),
            dest,
            recipient,
            body,
        });
        *n += 1;
        if d.hook == Hk::Nest {
            let inner = D4 {
                variant: 2,
                reclen: 32,
                hook: Hk::Alt,
                meta: 0,
            };
            return self.dispatch(n, out, &self.w.nest, &inner);
        }
        true
    }
}

/// compare the observable traces of the dispatches in `t` with the expected messages
fn check_dispatched(t: &TxOut, mb: &str, exp: &[Msg]) -> Res<()> {
    let ids: Vec<String> = exp.iter().map(|m| hx(&m.id())).collect();
    let ev: Vec<String> = t
        .events(mb, "mailbox_dispatch_id")
        .iter()
        .map(|e| e.get("message_id").cloned().unwrap_or_default())
        .collect();
    ensure_eq!(ev, ids, "dispatch-id events");
    let ev = t.events(mb, "mailbox_dispatch");
    ensure_eq!(ev.len(), exp.len(), "dispatch events");
    for (e, m) in ev.iter().zip(exp) {
        ensure_eq!(e.get("message"), Some(&hx(&m.enc())), "dispatched message");
        ensure_eq!(e.get("sender"), Some(&hx(&m.sender)), "sender in event");
        ensure_eq!(e.get("recipient"), Some(&hx(&m.recipient)), "recipient in event");
        ensure_eq!(
            e.get("destination"),
            Some(&m.dest.to_string()),
            "destination in event"
        );
    }
    Ok(())
}

struct M4;
impl Model for M4 {
    type S = S4;
    type A = A4;
    fn init(&self) -> Res<Vec<(String, S4)>> {
        Ok(vec![("fresh".into(), c04_world()?), ("no hooks yet".into(), c04_start(false)?)])
    }
    fn actions(&self, _: &S4) -> Vec<A4> {
        let g = D4 {
            variant: 0,
            reclen: 32,
            hook: Hk::Default,
            meta: 0,
        };
        let mut v = vec![];
        for who in 0..2 {
            for variant in 0..3 {
                v.push(A4::Disp(who, D4 { variant, ..g }));
            }
            for hook in [Hk::Alt, Hk::Failing, Hk::Nest, Hk::Bad, Hk::Missing] {
                v.push(A4::Disp(who, D4 { hook, ..g }));
            }
        }
        for meta in [1, 2] {
            v.push(A4::Disp(0, D4 { meta, ..g }));
        }
        for reclen in [0, 20, 31, 33, 64] {
            v.push(A4::Disp(0, D4 { reclen, ..g }));
        }
        let bad = D4 { reclen: 31, ..g };
        let fail = D4 {
            hook: Hk::Failing,
            ..g
        };
        let nest = D4 {
            hook: Hk::Nest,
            ..g
        };
        v.push(A4::Batch(vec![(g, false), (g, false), (g, false)]));
        v.push(A4::Batch(vec![(g, true), (fail, true), (nest, true), (bad, true), (g, true)]));
        v.push(A4::Batch(vec![(g, true), (fail, false)]));
        for b in [true, false] {
            v.push(A4::Required(b));
            v.push(A4::QuoteFails(!b));
            v.push(A4::Default(b));
            v.push(A4::Install(b));
        }
        v
    }
    fn key(&self, s: &S4) -> u128 {
        s.ch.key() ^ dig(&(s.n, s.last, s.req_ok, s.quote_ok, s.def_ok, s.req_set, s.def_set))
    }
    fn step(&self, s: &S4, a: &A4, cov: &mut Cov) -> Res<Step<S4>> {
        let mut n = s.clone();
        let w = s.w.clone();
        let mb = w.b.mb.as_str();
        match a {
            A4::Required(b) => {
                n.req_ok = *b;
                reprobe(&mut n.ch, &w.b.required, |c| c.post_fail = !b);
            }
            A4::QuoteFails(b) => {
                n.quote_ok = !*b;
                reprobe(&mut n.ch, &w.b.required, |c| c.quote_fail = *b);
            }
            A4::Default(b) => {
                n.def_ok = *b;
                reprobe(&mut n.ch, &w.b.default, |c| c.post_fail = !b);
            }
            A4::Install(default) => {
                let owner = n.ch.user("owner");
                let (k, h) = match default {
                    true => ("set_default_hook", &w.b.default),
                    false => ("set_required_hook", &w.b.required),
                };
                call(&mut n.ch, &owner, mb, json!({k: {"hook": h}}))?;
                *(if *default { &mut n.def_set } else { &mut n.req_set }) = true;
            }
            A4::Disp(..) | A4::Batch(_) => {
                let mut exp = vec![];
                let mut cnt = s.n;
                let (t, want) = match a {
                    A4::Disp(0, d) => (
                        n.ch.exec(&w.alice, mb, &msg4(&w, d), &[]),
                        s.dispatch(&mut cnt, &mut exp, &w.alice, d),
                    ),
                    A4::Disp(_, d) => (
                        n.ch.exec(&w.alice, &w.acct, &relay(&[emit(mb, &msg4(&w, d), false)]), &[]),
                        s.dispatch(&mut cnt, &mut exp, &w.acct, d),
                    ),
                    A4::Batch(l) => {
                        let em: Vec<_> = l.iter().map(|(d, sw)| emit(mb, &msg4(&w, d), *sw)).collect();
                        let t = n.ch.exec(&w.alice, &w.acct, &relay(&em), &[]);
                        let mut good = true;
                        for (d, sw) in l {
                            let (mut c2, mut e2) = (cnt, exp.clone());
                            if s.dispatch(&mut c2, &mut e2, &w.acct, d) {
                                cnt = c2;
                                exp = e2;
                            } else if !sw {
                                good = false;
                                break;
                            }
                        }
                        (t, good)
                    }
                    _ => unreachable!(),
                };
                ensure_eq!(t.ok(), want, "outcome of {a:?} ({})", t.err());
                if want {
                    check_dispatched(&t, mb, &exp)?;
                    if let A4::Disp(0, _) = a {
                        ensure_eq!(
                            t.data()["message_id"].as_str(),
                            Some(hx(&exp[0].id()).as_str()),
                            "returned id"
                        );
                    }
                    if exp.len() > 1 {
                        cov.hit("several messages in one transaction");
                    }
                    cov.hit("dispatched");
                    n.n = cnt;
                    if let Some(m) = exp.last() {
                        n.last = Some(m.id());
                    }
                    let req: Vec<String> = t
                        .calls_to(&w.b.required)
                        .iter()
                        .map(|c| str_of(&c.1["post_dispatch"], "message"))
                        .collect();
                    let want: Vec<String> = exp.iter().map(|m| hx(&m.enc())).collect();
                    ensure_eq!(req, want, "messages handed to the required hook");
                } else {
                    cov.hit("refused");
                    ensure_eq!(n.ch.key(), s.ch.key(), "state after a failed dispatch");
                }
            }
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S4, _: &mut Cov) -> Res<()> {
        ensure_eq!(nonce(&s.ch, &s.w.b.mb)?, s.n as u64, "nonce query");
        if let Some(id) = s.last {
            ensure_eq!(
                latest_id(&s.ch, &s.w.b.mb)?,
                Some(hx(&id)),
                "latest-dispatched query"
            );
        }
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["dispatched", "refused", "several messages in one transaction"]
    }
}

#[derive(Clone, Debug)]
struct K4 {
    local: u32,
    dest: u32,
    rec: [u8; 32],
    body: usize,
    bodyfill: u8,
    meta: Option<usize>,
    /// raw address of the caller
    who: Vec<u8>,
    explicit: bool,
    warm: u32,
}

pub fn c04(c: &mut Ctx) {
    c.assume("hooks are probe contracts (accepting, failing, re-dispatching); callers are 20-byte accounts and 32-byte contract addresses");
    c.run("dispatch histories", &M4, c.pick(4, 5), 50_000_000);
    let base = K4 {
        local: LOCAL,
        dest: 0x0a0b_0c0d,
        rec: fill32("recipient"),
        body: 4,
        bodyfill: 1,
        meta: None,
        who: fill("who", 20),
        explicit: false,
        warm: 0,
    };
    let mut v = vec![];
    for local in domains(LOCAL) {
        v.push(K4 {
            local,
            ..base.clone()
        });
        v.push(K4 {
            local,
            dest: local,
            ..base.clone()
        });
    }
    for dest in domains(0x0a0b_0c0d).into_iter().chain(domains(LOCAL)) {
        v.push(K4 {
            dest,
            ..base.clone()
        });
    }
    for i in 0..256 {
        let mut rec = [0u8; 32];
        rec[i / 8] = 0x80 >> (i % 8);
        v.push(K4 {
            rec,
            ..base.clone()
        });
        v.push(K4 {
            rec: rec.map(|b| !b),
            bodyfill: i as u8,
            ..base.clone()
        });
    }
    for body in (0..300).chain([1023, 1024, 1025, 4095, 4096, 65535, 65536, 70000]) {
        for bodyfill in [0, 1, 0xff] {
            v.push(K4 {
                body,
                bodyfill,
                ..base.clone()
            });
        }
    }
    for meta in (0..70).chain([255, 256, 1024]) {
        for explicit in [false, true] {
            v.push(K4 {
                meta: Some(meta),
                explicit,
                ..base.clone()
            });
        }
    }
    for meta in [0usize, 1, 32, 33, 52, 64, 77, 255, 256, 257, 1000, 4096, 65536] {
        for body in [0usize, 1, 31, 32, 33, 64, 77, 255, 256, 257, 300, 1000, 4096, 65536] {
            for explicit in [false, true] {
                v.push(K4 {
                    meta: Some(meta),
                    body,
                    explicit,
                    ..base.clone()
                });
            }
        }
    }
    for n in [20usize, 32] {
        for z in 0..n {
            // leading and trailing zeroes of the caller's address
            let mut a = fill("a", n);
            a[..z].fill(0);
            if n == 32 && z >= 12 {
                continue;
            }
            v.push(K4 {
                who: a,
                ..base.clone()
            });
            let mut a = fill("a", n);
            a[n - z..].fill(0);
            v.push(K4 {
                who: a,
                ..base.clone()
            });
        }
    }
    for warm in [1, 2, 9, 255, 256, 257] {
        v.push(K4 {
            warm,
            ..base.clone()
        });
    }
    c.cases(
        "message fields",
        || Ok(()),
        v,
        &["dispatched"],
        |_, k, cov| {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let b = basic(&mut ch, &owner, k.local)?;
            let alt = quiet_hook(&mut ch);
            let who = b32("osmo", &k.who);
            let other = ch.user("other");
            for _ in 0..k.warm {
                call(&mut ch, &other, &b.mb, dispatch_msg(1, &[1; 32], b"x", None, None))?;
            }
            let body = vec![k.bodyfill; k.body];
            let meta = k.meta.map(|n| fill("m", n));
            let m = Msg {
                version: 3,
                nonce: k.warm,
                origin: k.local,
                sender: h256(&who),
                dest: k.dest,
                recipient: k.rec,
                body: body.clone(),
            };
            let db = dispatch_body(
                k.dest,
                &k.rec,
                &body,
                k.explicit.then_some(alt.as_str()),
                meta.as_deref(),
            );
            let t = call(&mut ch, &who, &b.mb, json!({ "dispatch": db }))?;
            check_dispatched(&t, &b.mb, &[m.clone()])?;
            ensure_eq!(
                t.data()["message_id"].as_str(),
                Some(hx(&m.id()).as_str()),
                "returned id"
            );
            ensure_eq!(latest_id(&ch, &b.mb)?, Some(hx(&m.id())), "latest id query");
            ensure_eq!(nonce(&ch, &b.mb)?, k.warm as u64 + 1, "nonce query");
            let sel = if k.explicit { &alt } else { &b.default };
            let pd = post_dispatch(&meta.unwrap_or_default(), &m.enc());
            for h in [&b.required, sel] {
                let calls = t.calls_to(h);
                ensure_eq!(calls.len(), 1, "calls of a hook");
                ensure_eq!(calls[0].1, pd, "message handed to a hook");
            }
            cov.hit("dispatched");
            Ok(dig(&hx(&m.id())))
        },
    );
    // refused recipient lengths
    let lens: Vec<usize> = (0..140).chain([255, 256, 288, 1024, 65536 + 32]).collect();
    c.cases("recipient lengths", c04_world, lens, &["refused", "accepted"], |s, n, cov| {
        let mut ch = s.ch.clone();
        let t = ch.exec(
            &s.w.alice,
            &s.w.b.mb,
            &dispatch_msg(1, &vec![0; *n], b"", None, None),
            &[],
        );
        ensure_eq!(t.ok(), *n == 32, "recipient of {n} bytes");
        cov.hit(if t.ok() { "accepted" } else { "refused" });
        Ok(dig(&t.err()))
    });
    // long runs: every nonce, across the 2^8 and 2^16 boundaries
    let n = c.pick(66_000u32, 140_000);
    c.cases("long run", c04_world, vec![n], &["long"], |s, n, cov| {
        let mut ch = s.ch.clone();
        let mb = &s.w.b.mb;
        for k in 0..*n {
            let t = call(&mut ch, &s.w.alice, mb, dispatch_msg(9, &[3; 32], b"", None, None))?;
            let m = Msg {
                version: 3,
                nonce: k,
                origin: LOCAL,
                sender: h256(&s.w.alice),
                dest: 9,
                recipient: [3; 32],
                body: vec![],
            };
            check_dispatched(&t, mb, &[m.clone()])?;
            if k % 64 == 0 || k + 2 > *n {
                ensure_eq!(nonce(&ch, mb)?, k as u64 + 1, "nonce query");
                ensure_eq!(latest_id(&ch, mb)?, Some(hx(&m.id())), "latest id query");
            }
        }
        cov.hit("long");
        Ok(ch.key())
    });
    // the same around every power of two: the counter found in the store is moved ahead. If the mailbox kept it in a
    // form this harness does not recognise, nothing is moved and the case ends early.
    let mut at: Vec<u32> = vec![];
    for k in 3..32u32 {
        at.extend([(1u32 << k) - 2, (1 << k) - 1, 1 << k, 0x5555_5555 >> (31 - k)]);
    }
    at.extend([u32::MAX - 3, u32::MAX - 2, u32::MAX - 1]);
    at.sort();
    at.dedup();
    c.cases("any number", c04_world, at, &["case"], |s, n, cov| {
        let mut ch = s.ch.clone();
        let mb = &s.w.b.mb;
        cov.hit("case");
        let num = |d: &std::collections::BTreeMap<Vec<u8>, Vec<u8>>, k: u64| -> Vec<Vec<u8>> {
            d.iter().filter(|(_, v)| **v == k.to_string().into_bytes()).map(|(k, _)| k.clone()).collect()
        };
        let mut keys: Option<Vec<Vec<u8>>> = None;
        for k in 1..=3u64 {
            call(&mut ch, &s.w.alice, mb, dispatch_msg(9, &[3; 32], b"", None, None))?;
            let l = num(&ch.store_dump(mb), k);
            keys = Some(match keys {
                None => l,
                Some(o) => o.into_iter().filter(|x| l.contains(x)).collect(),
            });
        }
        let keys = keys.unwrap_or_default();
        if keys.len() != 1 {
            return Ok(0);
        }
        ch.store_set(mb, &keys[0], Some(n.to_string().into_bytes()));
        if nonce(&ch, mb) != Ok(*n as u64) {
            return Ok(1);
        }
        cov.hit("moved ahead");
        for k in *n..n.saturating_add(4).min(u32::MAX) {
            let t = call(&mut ch, &s.w.alice, mb, dispatch_msg(9, &[3; 32], b"x", None, None))?;
            let m = Msg {
                version: 3,
                nonce: k,
                origin: LOCAL,
                sender: h256(&s.w.alice),
                dest: 9,
                recipient: [3; 32],
                body: b"x".to_vec(),
            };
            check_dispatched(&t, mb, &[m.clone()])?;
            ensure_eq!(nonce(&ch, mb)?, k as u64 + 1, "nonce query");
            ensure_eq!(latest_id(&ch, mb)?, Some(hx(&m.id())), "latest id query");
        }
        // at the end of the numbers: the last one may be given out or kept back, but none is given out again
        if *n >= u32::MAX - 4 {
            let mut given = 0;
            for _ in 0..3 {
                let t = ch.exec(&s.w.alice, mb, &dispatch_msg(9, &[3; 32], b"x", None, None), &[]);
                if !t.ok() {
                    continue;
                }
                given += 1;
                ensure!(given == 1, "a dispatch was accepted after the last nonce was given out");
                let m = Msg {
                    version: 3,
                    nonce: u32::MAX,
                    origin: LOCAL,
                    sender: h256(&s.w.alice),
                    dest: 9,
                    recipient: [3; 32],
                    body: b"x".to_vec(),
                };
                check_dispatched(&t, mb, &[m])?;
            }
            cov.hit("the end");
        }
        Ok(ch.key())
    });
}

// ------------------------------------------------------------------ C05

#[derive(Clone, Copy, Debug, PartialEq)]
enum Quote {
    None,
    A5,
    B3,
    A5B3,
    /// the same denomination twice
    A2A3,
    /// depends on metadata and message
    Hashed,
}
const QUOTES: &[Quote] = &[
    Quote::None,
    Quote::A5,
    Quote::B3,
    Quote::A5B3,
    Quote::A2A3,
    Quote::Hashed,
];
impl Quote {
    fn set(self, c: &mut crate::codes::ProbeCfg) {
        let l: &[(&str, u32)] = match self {
            Quote::None | Quote::Hashed => &[],
            Quote::A5 => &[("a", 5)],
            Quote::B3 => &[("b", 3)],
            Quote::A5B3 => &[("b", 3), ("a", 5)],
            Quote::A2A3 => &[("a", 2), ("a", 3)],
        };
        c.quote = l.iter().map(|(d, a)| (d.to_string(), a.to_string())).collect();
        c.quote_hashed = (self == Quote::Hashed).then(|| "a".into());
    }
    fn fee(self, addr: &str, meta: &[u8], msg: &[u8]) -> Coins {
        match self {
            Quote::None => vec![],
            Quote::A5 | Quote::A2A3 => coins(&[("a", 5)]),
            Quote::B3 => coins(&[("b", 3)]),
            Quote::A5B3 => coins(&[("a", 5), ("b", 3)]),
            Quote::Hashed => coins(&[("a", price(addr, &hx(meta), &hx(msg)))]),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sel {
    Default,
    ExplicitDefault,
    Explicit,
    SameAsRequired,
    /// default hook is the required hook
    DefaultIsRequired,
    /// no default hook configured at all, explicit one given
    ExplicitNoDefault,
}

#[derive(Clone, Debug)]
struct K5 {
    rq: Quote,
    sq: Quote,
    sel: Sel,
    strict: bool,
    rfail: bool,
    sfail: bool,
    meta: Option<Vec<u8>>,
    /// a, b, c relative to the sum of both quotes
    da: i64,
    db: i64,
    dc: u128,
    /// attach exactly these instead
    raw: Option<(u128, u128)>,
    body: usize,
    from_contract: bool,
    dest: u32,
    /// who the message is for and who dispatches it: see `PLACES5`
    rec: usize,
    by: usize,
}
/// 0: nobody special (the recipient) or alice / the account contract (the sender)
const PLACES5: usize = 7;

fn c05_case(k: &K5, cov: &mut Cov) -> Res<u128> {
    let mut ch = Chain::new("osmo");
    let owner = ch.user("owner");
    let mb = mailbox(&mut ch, &owner, LOCAL)?;
    let req = probe(&mut ch, |c| {
        k.rq.set(c);
        c.strict = k.strict;
        c.post_fail = k.rfail;
    });
    let def = probe(&mut ch, |c| k.sq.set(c));
    let exp = probe(&mut ch, |c| k.sq.set(c));
    let (sel, sq) = match k.sel {
        Sel::Default | Sel::ExplicitDefault => (def.clone(), k.sq),
        Sel::Explicit | Sel::ExplicitNoDefault => (exp.clone(), k.sq),
        Sel::SameAsRequired | Sel::DefaultIsRequired => (req.clone(), k.rq),
    };
    if sel != req {
        reprobe(&mut ch, &sel, |c| {
            c.strict = k.strict;
            c.post_fail = k.sfail;
        });
        // the hook that is not selected must not matter
        let unused = if sel == def { &exp } else { &def };
        reprobe(&mut ch, unused, |c| c.post_fail = true);
    }
    call(&mut ch, &owner, &mb, json!({"set_required_hook": {"hook": req}}))?;
    if k.sel != Sel::ExplicitNoDefault {
        let d = if k.sel == Sel::DefaultIsRequired { &req } else { &def };
        call(&mut ch, &owner, &mb, json!({"set_default_hook": {"hook": d}}))?;
    }
    let hook = match k.sel {
        Sel::Default | Sel::DefaultIsRequired => None,
        _ => Some(sel.clone()),
    };
    let acct = probe(&mut ch, |_| {});
    let places = [acct.clone(), req.clone(), def.clone(), exp.clone(), owner.clone(), mb.clone(), ch.user("alice")];
    let by_contract = k.from_contract || (1..4).contains(&k.by);
    let who = match k.by {
        0 if k.from_contract => acct.clone(),
        0 => ch.user("alice"),
        i => places[i].clone(),
    };
    let rec = if k.rec == 0 { [9; 32] } else { h256(&places[k.rec]) };
    let body = fill("c05", k.body);
    let m = Msg {
        version: 3,
        nonce: 0,
        origin: LOCAL,
        sender: h256(&who),
        dest: k.dest,
        recipient: rec,
        body: body.clone(),
    };
    let meta = k.meta.clone().unwrap_or_default();
    let rq = k.rq.fee(&req, &meta, &m.enc());
    let sq = sq.fee(&sel, &meta, &m.enc());
    let total = coins_sum(&[rq.clone(), sq.clone()]);
    let get = |d: &str| {
        total
            .iter()
            .find(|c| c.0 == d)
            .map(|c| c.1 as i64)
            .unwrap_or(0)
    };
    let (a, b) = k
        .raw
        .unwrap_or(((get("a") + k.da).max(0) as u128, (get("b") + k.db).max(0) as u128));
    let funds = coins(&[("a", a), ("b", b), ("c", k.dc)]);
    let start = [("a", 1000u128), ("b", 1000), ("c", 1000)];
    for (d, x) in start {
        ch.fund(&who, d, x);
        ch.fund(&mb, d, 500); // donations must stay untouched
        ch.fund(&req, d, 50);
    }
    let db = dispatch_body(k.dest, &rec, &body, hook.as_deref(), k.meta.as_deref());
    // (a hook that quotes one denomination twice has no well-formed total)
    if k.rq != Quote::A2A3 || sel != req {
        let q = ch.query(&mb, &json!({"hook": {"quote_dispatch": {"sender": who, "msg": db}}}));
        ensure_eq!(fees(&q?)?, total, "mailbox quote");
    }
    let rest = coins_sub(&funds, &rq);
    let want = match &rest {
        None => false,
        Some(r) => !k.rfail && !(k.sfail && sel != req) && (!k.strict || *r == sq),
    };
    let before = ch.clone();
    let dm = json!({ "dispatch": db });
    let t = if by_contract {
        let f: Vec<(&str, u128)> = funds.iter().map(|(d, a)| (d.as_str(), *a)).collect();
        let al = ch.user("alice");
        ch.exec(&al, &who, &relay(&[emit_f(&mb, &dm, &f, false)]), &[])
    } else {
        try_call(&mut ch, &who, &mb, &dm, &funds)
    };
    ensure_eq!(t.ok(), want, "dispatch outcome ({}), attached {funds:?}, required {rq:?}", t.err());
    if !want {
        ensure_eq!(ch.key(), before.key(), "state after a failed dispatch");
        cov.hit(if rest.is_none() { "short of the required fee" } else { "a hook refused" });
        return Ok(dig(&("fail", rest.is_none())));
    }
    cov.hit("dispatched");
    let rest = rest.unwrap();
    let calls: Vec<_> = t
        .calls()
        .into_iter()
        .filter(|c| c.2.get("post_dispatch").is_some())
        .collect();
    ensure_eq!(calls.len(), 2, "hook calls");
    let pd = post_dispatch(&meta, &m.enc());
    for (i, (to, f)) in [(&req, &rq), (&sel, &rest)].iter().enumerate() {
        ensure_eq!(&calls[i].0, &mb, "caller of hook {i}");
        ensure_eq!(&calls[i].1, *to, "hook {i}");
        ensure_eq!(calls[i].2, pd, "call of hook {i}");
        ensure_eq!(&calls[i].3, *f, "payment of hook {i}");
    }
    let mut want: BTreeMap<(String, String), i128> = BTreeMap::new();
    for (who, l, sgn) in [(&who, &funds, -1i128), (&req, &rq, 1), (&sel, &rest, 1)] {
        for (d, x) in l.iter() {
            *want.entry((who.clone(), d.clone())).or_default() += sgn * *x as i128;
        }
    }
    want.retain(|_, v| *v != 0);
    ensure_eq!(bank_delta(&before, &ch), want, "balance changes");
    ensure_eq!(nonce(&ch, &mb)?, 1, "nonce");
    if !rest.is_empty() {
        cov.hit("rest forwarded");
    }
    Ok(dig(&(rest, rq)))
}

// histories of hook settings
#[derive(Clone)]
struct S5 {
    ch: Chain,
    mb: String,
    hooks: Arc<Vec<String>>,
    req: Option<usize>,
    def: Option<usize>,
    n: u32,
}
#[derive(Clone, Debug)]
enum A5 {
    Req(usize),
    Def(usize),
    /// explicit hook, attached "a"
    Disp(Option<usize>, u128),
}
struct M5;
const M5_FEES: [u128; 3] = [0, 2, 5];
impl Model for M5 {
    type S = S5;
    type A = A5;
    fn init(&self) -> Res<Vec<(String, S5)>> {
        let mut ch = Chain::new("osmo");
        let owner = ch.user("owner");
        let mb = mailbox(&mut ch, &owner, LOCAL)?;
        let hooks = M5_FEES
            .iter()
            .map(|f| {
                probe(&mut ch, |c| {
                    if *f > 0 {
                        c.quote = vec![("a".into(), f.to_string())]
                    }
                })
            })
            .collect();
        let al = ch.user("alice");
        ch.fund(&al, "a", 10_000);
        Ok(vec![(
            "no hooks".into(),
            S5 {
                ch,
                mb,
                hooks: Arc::new(hooks),
                req: None,
                def: None,
                n: 0,
            },
        )])
    }
    fn actions(&self, _: &S5) -> Vec<A5> {
        let mut v: Vec<A5> = (0..3).map(A5::Req).collect();
        v.extend((0..3).map(A5::Def));
        for h in [None, Some(0), Some(1), Some(2)] {
            for f in [0, 1, 2, 4, 5, 9] {
                v.push(A5::Disp(h, f));
            }
        }
        v
    }
    fn key(&self, s: &S5) -> u128 {
        s.ch.key() ^ dig(&(s.req, s.def, s.n))
    }
    fn step(&self, s: &S5, a: &A5, cov: &mut Cov) -> Res<Step<S5>> {
        let mut n = s.clone();
        let o = s.ch.user("owner");
        let al = s.ch.user("alice");
        match a {
            A5::Req(i) => {
                call(&mut n.ch, &o, &s.mb, json!({"set_required_hook": {"hook": s.hooks[*i]}}))?;
                n.req = Some(*i);
            }
            A5::Def(i) => {
                call(&mut n.ch, &o, &s.mb, json!({"set_default_hook": {"hook": s.hooks[*i]}}))?;
                n.def = Some(*i);
            }
            A5::Disp(h, f) => {
                let sel = h.or(s.def);
                let m = dispatch_msg(1, &[1; 32], b"", h.map(|i| s.hooks[i].as_str()), None);
                let t = n.ch.exec(&al, &s.mb, &m, &[("a", *f)]);
                let want = match (s.req, sel) {
                    (Some(r), Some(_)) => M5_FEES[r] <= *f,
                    _ => false,
                };
                ensure_eq!(t.ok(), want, "dispatch ({})", t.err());
                if want {
                    let (r, sl) = (s.req.unwrap(), sel.unwrap());
                    let got: Vec<(String, Coins)> = t.calls().into_iter().skip(1).map(|c| (c.1, c.3)).collect();
                    let exp = vec![
                        (s.hooks[r].clone(), coins(&[("a", M5_FEES[r])])),
                        (s.hooks[sl].clone(), coins(&[("a", f - M5_FEES[r])])),
                    ];
                    ensure_eq!(got, exp, "hooks called and paid");
                    n.n += 1;
                    cov.hit("dispatched");
                } else {
                    ensure_eq!(n.ch.key(), s.ch.key(), "state after failure");
                    cov.hit("refused");
                }
            }
        }
        ensure_eq!(nonce(&n.ch, &s.mb)?, n.n as u64, "nonce");
        for (q, k, cur) in [
            ("required_hook", "required_hook", n.req),
            ("default_hook", "default_hook", n.def),
        ] {
            if let Some(i) = cur {
                let v = n.ch.query(&s.mb, &json!({"mailbox": {q: {}}}))?;
                ensure_eq!(v[k].as_str(), Some(s.hooks[i].as_str()), "{q} query");
            }
        }
        Ok(Step::Next(n))
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["dispatched", "refused"]
    }
}

pub fn c05(c: &mut Ctx) {
    c.assume("hooks are probe contracts whose quote may depend on every byte of metadata and message and which may insist on exact payment");
    let sels = [
        Sel::Default,
        Sel::ExplicitDefault,
        Sel::Explicit,
        Sel::SameAsRequired,
        Sel::DefaultIsRequired,
        Sel::ExplicitNoDefault,
    ];
    let base = K5 {
        rq: Quote::None,
        sq: Quote::None,
        sel: Sel::Default,
        strict: false,
        rfail: false,
        sfail: false,
        meta: None,
        da: 0,
        db: 0,
        dc: 0,
        raw: None,
        body: 5,
        from_contract: false,
        dest: 77,
        rec: 0,
        by: 0,
    };
    let mut v = vec![];
    for rq in QUOTES {
        for sq in QUOTES.iter().filter(|q| **q != Quote::A2A3) {
            for sel in sels {
                for strict in [false, true] {
                    for (rfail, sfail) in [(false, false), (true, false), (false, true)] {
                        for meta in [None, Some(vec![]), Some(fill("m", 40))] {
                            for (da, db) in [(0, 0), (-1, 0), (0, -1), (1, 0), (0, 1), (-60, 0), (0, -60), (7, 7)] {
                                for dc in [0, 1] {
                                    v.push(K5 {
                                        rq: *rq,
                                        sq: *sq,
                                        sel,
                                        strict,
                                        rfail,
                                        sfail,
                                        meta: meta.clone(),
                                        da,
                                        db,
                                        dc,
                                        ..base.clone()
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    c.cases(
        "quotes, selections and payments",
        || Ok(()),
        v,
        &["dispatched", "short of the required fee", "a hook refused", "rest forwarded"],
        |_, k, cov| c05_case(k, cov),
    );
    let mut v = vec![];
    for rq in QUOTES {
        for a in 0..9u128 {
            for b in 0..6u128 {
                for sel in [Sel::Default, Sel::Explicit, Sel::SameAsRequired] {
                    for from_contract in [false, true] {
                        v.push(K5 {
                            rq: *rq,
                            sel,
                            raw: Some((a, b)),
                            from_contract,
                            ..base.clone()
                        });
                    }
                }
            }
        }
    }
    for meta in 0..80usize {
        for body in [0usize, 1, 32, 33, 200] {
            v.push(K5 {
                rq: Quote::Hashed,
                sq: Quote::Hashed,
                strict: true,
                meta: Some(fill("mm", meta)),
                body,
                sel: if meta % 2 == 0 { Sel::Default } else { Sel::Explicit },
                ..base.clone()
            });
        }
    }
    for n in sizes(c.thorough()) {
        for (meta, body) in [(n, 5), (40, n), (n, n)] {
            v.push(K5 {
                rq: Quote::Hashed,
                sq: Quote::Hashed,
                strict: true,
                meta: Some(fill("mm", meta)),
                body,
                sel: if n % 2 == 0 { Sel::Default } else { Sel::Explicit },
                ..base.clone()
            });
        }
    }
    c.cases(
        "every small payment, byte-dependent quotes",
        || Ok(()),
        v,
        &["dispatched", "short of the required fee", "rest forwarded"],
        |_, k, cov| c05_case(k, cov),
    );
    // every destination, recipient and sender, this chain and the hooks themselves included
    let mut v = vec![];
    for dest in [LOCAL, 0, u32::MAX, LOCAL ^ 1, LOCAL.swap_bytes()] {
        for rec in 0..PLACES5 {
            for by in [0, 1, 2, 3, 4, 6] {
                for sel in sels {
                    for (rq, sq) in [(Quote::None, Quote::None), (Quote::A5, Quote::B3), (Quote::Hashed, Quote::A5B3)] {
                        for (da, dc) in [(0, 0), (-1, 0), (1, 1)] {
                            v.push(K5 { rq, sq, sel, da, dc, dest, rec, by, ..base.clone() });
                        }
                    }
                }
            }
        }
    }
    c.cases(
        "destinations, recipients and senders",
        || Ok(()),
        v,
        &["dispatched", "short of the required fee", "rest forwarded"],
        |_, k, cov| c05_case(k, cov),
    );
    // quotes of many denominations and of any amount, whoever dispatches
    let amounts = [1u128, (1 << 32) + 1, (1 << 63) - 1, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 1 << 100, u128::MAX / 16];
    let mut v = vec![];
    for rn in 0..=N5.len() {
        for sn in 0..=N5.len() {
            for same in [false, true] {
                for who in 0..5u8 {
                    v.push(L5 {
                        r: (0..rn).map(|i| (i, 3 + i as u128)).collect(),
                        extra: 0,
                        s: (0..sn).map(|i| if same { (i, 3 + i as u128) } else { (N5.len() - 1 - i, 100 + i as u128) }).collect(),
                        who,
                        explicit: (rn + sn) % 2 == 0,
                    });
                }
            }
        }
    }
    for a in amounts {
        for b in amounts {
            for (i, j) in [(0, 0), (0, 1), (6, 6), (6, 0), (7, 7), (1, 7), (2, 3)] {
                for explicit in [false, true] {
                    v.push(L5 { r: vec![(i, a)], s: vec![(j, b)], extra: 0, who: 0, explicit });
                    v.push(L5 { r: vec![(i, a), (5, 2)], s: vec![(4, 1), (j, b)], extra: 0, who: 1, explicit });
                }
            }
        }
    }
    // the largest amounts there are
    for a in [u128::MAX, u128::MAX - 1, u128::MAX / 2 + 1] {
        for (i, b) in [(0, 1u128), (0, u128::MAX - a), (1, 1), (1, 1 << 64), (1, u128::MAX)] {
            if b == 0 || (i == 0 && a.checked_add(b).is_none()) {
                continue;
            }
            for who in 0..5u8 {
                for explicit in [false, true] {
                    v.push(L5 { r: vec![(0, a)], s: vec![(i, b)], extra: 0, who, explicit });
                    v.push(L5 { r: vec![(i, b)], s: vec![(0, a)], extra: 0, who, explicit });
                }
            }
        }
        for explicit in [false, true] {
            v.push(L5 { r: vec![(0, a)], s: vec![], extra: 0, who: 0, explicit });
            v.push(L5 { r: vec![], s: vec![(0, a)], extra: 0, who: 0, explicit });
        }
    }
    // any number of coins
    for extra in (0..=40).chain([64, 100, 130, 257]) {
        for (rn, sn) in [(0, 0), (1, 0), (0, 1), (1, 1), (3, 2), (extra, 1), (1, extra), (extra, extra)] {
            if (rn + sn) > 40 && extra % 10 != 0 {
                continue;
            }
            v.push(L5 {
                r: (0..rn).map(|i| (i, 3 + i as u128)).collect(),
                s: (0..sn).map(|i| (i * 3 / 2, 100 + i as u128)).collect(),
                extra,
                who: (extra % 5) as u8,
                explicit: extra % 2 == 0,
            });
        }
    }
    c.cases(
        "denominations, amounts and callers",
        || Ok(()),
        v,
        &["dispatched", "short"],
        |_, k, cov| l5_case(k, cov),
    );
    c.run("hook settings histories", &M5, c.pick(4, 5), 50_000_000);
}

const N5: [&str; 8] = [
    "a",
    "b",
    "c",
    "d",
    "uatom",
    "e",
    "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2",
    "factory/osmo1xyz/sub:denom.x-y_z",
];
fn n5(i: usize) -> String {
    N5.get(i).map_or_else(|| format!("x{i:02}"), |d| d.to_string())
}
#[derive(Clone, Debug)]
struct L5 {
    r: Vec<(usize, u128)>,
    s: Vec<(usize, u128)>,
    /// so many denominations attached on top
    extra: usize,
    /// somebody, the owner, the required hook, the selected hook, a contract
    who: u8,
    explicit: bool,
}
fn l5_case(k: &L5, cov: &mut Cov) -> Res<u128> {
    let mut ch = Chain::new("osmo");
    let owner = ch.user("owner");
    let mb = mailbox(&mut ch, &owner, LOCAL)?;
    let list = |l: &[(usize, u128)]| coins_sum(&[l.iter().map(|(d, a)| (n5(*d), *a)).collect()]);
    let (rq, sq) = (list(&k.r), list(&k.s));
    let quoted = |l: &[(usize, u128)]| -> Vec<(String, String)> {
        l.iter().map(|(d, a)| (n5(*d), a.to_string())).collect()
    };
    let req = probe(&mut ch, |c| (c.quote, c.strict) = (quoted(&k.r), true));
    let sel = probe(&mut ch, |c| c.quote = quoted(&k.s));
    let bad = probe(&mut ch, |c| (c.quote_fail, c.post_fail) = (true, true));
    call(&mut ch, &owner, &mb, json!({"set_required_hook": {"hook": req}}))?;
    call(&mut ch, &owner, &mb, json!({"set_default_hook": {"hook": if k.explicit { &bad } else { &sel }}}))?;
    let who = match k.who {
        0 => ch.user("alice"),
        1 => owner.clone(),
        2 => req.clone(),
        3 => sel.clone(),
        _ => probe(&mut ch, |_| {}),
    };
    let total = coins_sum(&[rq.clone(), sq.clone()]);
    for (d, a) in &total {
        ch.fund(&who, d, a.saturating_add(5));
    }
    for d in 0..N5.len().max(k.extra) {
        let have = ch.bal(&who, &n5(d));
        ch.fund(&who, &n5(d), 5.min(u128::MAX - have));
    }
    let db = dispatch_body(77, &[9; 32], b"body", k.explicit.then_some(sel.as_str()), Some(b"m"));
    let q = ch.query(&mb, &json!({"hook": {"quote_dispatch": {"sender": who, "msg": db}}}))?;
    ensure_eq!(fees(&q)?, total, "mailbox quote");
    let m = Msg {
        version: 3,
        nonce: 0,
        origin: LOCAL,
        sender: h256(&who),
        dest: 77,
        recipient: [9; 32],
        body: b"body".to_vec(),
    };
    let mut pays = vec![total.clone(), rq.clone()];
    for (d, a) in &total {
        // one less, one more, only up to the required hook's fee, none
        let mut one = |n: u128| pays.push(coins_sum(&[total.iter().map(|c| if c.0 == *d { (d.clone(), n) } else { c.clone() }).collect()]));
        one(a - 1);
        one(a.saturating_add(1));
        one(0);
        let r = rq.iter().find(|c| c.0 == *d).map_or(0, |c| c.1);
        one(r);
        one(r.saturating_sub(1));
    }
    let room = |d: &String| total.iter().all(|c| c.0 != *d || c.1 < u128::MAX);
    for n in [N5.len(), k.extra] {
        let more: Coins = (0..n).map(|i| (n5(i), 1)).filter(|c| room(&c.0)).collect();
        pays.push(coins_sum(&[total.clone(), more.clone()]));
        pays.push(more);
    }
    for funds in pays {
        let mut c2 = ch.clone();
        let t = try_call(&mut c2, &who, &mb, &json!({ "dispatch": db }), &funds);
        let rest = coins_sub(&funds, &rq);
        ensure_eq!(t.ok(), rest.is_some(), "dispatch ({}) attaching {funds:?}, required {rq:?}", t.err());
        let Some(rest) = rest else {
            ensure_eq!(c2.key(), ch.key(), "state after a failed dispatch");
            cov.hit("short");
            continue;
        };
        let pd = post_dispatch(b"m", &m.enc());
        let calls: Vec<_> = t.calls().into_iter().filter(|c| c.2.get("post_dispatch").is_some()).collect();
        let want = vec![
            (mb.clone(), req.clone(), pd.clone(), rq.clone()),
            (mb.clone(), sel.clone(), pd, rest.clone()),
        ];
        ensure_eq!(calls, want, "hooks called and paid");
        let mut want: BTreeMap<(String, String), i128> = BTreeMap::new();
        for (who, l, sgn) in [(&who, &funds, -1i128), (&req, &rq, 1), (&sel, &rest, 1)] {
            for (d, x) in l.iter() {
                let e = want.entry((who.clone(), d.clone())).or_default();
                *e = e.wrapping_add((*x as i128).wrapping_mul(sgn));
            }
        }
        want.retain(|_, v| *v != 0);
        ensure_eq!(bank_delta(&ch, &c2), want, "balance changes");
        cov.hit("dispatched");
    }
    Ok(dig(k))
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Debug, PartialEq)]
pub(super) enum T {
    Merkle,
    Fee(&'static str, u128),
    /// gas token, price per gas (x10^-10 as exchange rate 1)
    Igp(&'static str, u128),
    Pausable,
    Agg(Vec<T>),
    Route(Box<T>),
    /// custom-routing hook, by registered recipient / by route
    Custom(Box<T>),
    CustomRoute(Box<T>),
    /// fallback hook, by fallback / by route
    Fallback(Box<T>),
    FallbackRoute(Box<T>),
}

const DEST: u32 = 0x0a0b_0c0d;
const REC: [u8; 32] = [0x5c; 32];

pub(super) struct Built {
    pub addr: String,
    /// expected charges: contract -> coins
    pub charge: Vec<(String, Coins)>,
}

pub struct Gas {
    pub default: u128,
    pub meta: Option<u128>,
    pub dest: u32,
    pub rec: [u8; 32],
}

pub(super) fn build(ch: &mut Chain, owner: &str, mb: &str, t: &T, g: &Gas) -> Res<Built> {
    let leaf = |addr: String, c: Coins| Built {
        charge: if c.is_empty() { vec![] } else { vec![(addr.clone(), c)] },
        addr,
    };
    Ok(match t {
        T::Merkle => leaf(inst(ch, "hook_merkle", owner, json!({"mailbox": mb}))?, vec![]),
        T::Fee(d, a) => {
            let h = inst(
                ch,
                "hook_fee",
                owner,
                json!({"owner": owner, "fee": {"denom": d, "amount": a.to_string()}}),
            )?;
            leaf(h, coins(&[(d, *a)]))
        }
        T::Igp(d, p) => {
            let hrp = ch.hrp.to_string();
            let ben = ch.user("beneficiary");
            let igp = inst(
                ch,
                "igp",
                owner,
                json!({"hrp": hrp, "owner": owner, "gas_token": d, "beneficiary": ben,
                    "default_gas_usage": g.default.to_string()}),
            )?;
            let or = inst(ch, "igp_oracle", owner, json!({"owner": owner}))?;
            call(
                ch,
                owner,
                &or,
                json!({"set_remote_gas_data": {"config": {"remote_domain": g.dest,
                    "token_exchange_rate": "5000000000", "gas_price": (2 * p).to_string()}}}),
            )?;
            call(
                ch,
                owner,
                &igp,
                json!({"router": {"set_route": {"set": {"domain": g.dest, "route": or}}}}),
            )?;
            let cost = g.meta.unwrap_or(g.default) * p;
            leaf(igp, coins(&[(d, cost)]))
        }
        T::Pausable => leaf(
            inst(ch, "hook_pausable", owner, json!({"owner": owner, "paused": false}))?,
            vec![],
        ),
        T::Agg(l) => {
            let mut b = vec![];
            for x in l {
                b.push(build(ch, owner, mb, x, g)?);
            }
            let hooks: Vec<&String> = b.iter().map(|x| &x.addr).collect();
            let addr = inst(ch, "hook_aggregate", owner, json!({"owner": owner, "hooks": hooks}))?;
            Built {
                addr,
                charge: b.into_iter().flat_map(|x| x.charge).collect(),
            }
        }
        T::Route(x) | T::Custom(x) | T::CustomRoute(x) | T::Fallback(x) | T::FallbackRoute(x) => {
            let b = build(ch, owner, mb, x, g)?;
            let code = match t {
                T::Route(_) => "hook_routing",
                T::Custom(_) | T::CustomRoute(_) => "hook_routing_custom",
                _ => "hook_routing_fallback",
            };
            let addr = inst(ch, code, owner, json!({"owner": owner}))?;
            // distractors on other paths: a hook that always fails
            let bad = probe(ch, |c| {
                c.post_fail = true;
                c.quote_fail = true;
            });
            let route = |d: u32, h: &str| json!({"router": {"set_route": {"set": {"domain": d, "route": h}}}});
            call(ch, owner, &addr, route(g.dest ^ 1, &bad))?;
            match t {
                T::Custom(_) => {
                    call(ch, owner, &addr, route(g.dest, &bad))?;
                    call(
                        ch,
                        owner,
                        &addr,
                        json!({"register_custom_hook": {"dest_domain": g.dest, "recipient": hx(&g.rec), "hook": b.addr}}),
                    )?;
                }
                T::Fallback(_) => {
                    call(ch, owner, &addr, json!({"set_fallback_hook": {"hook": b.addr}}))?;
                }
                T::FallbackRoute(_) => {
                    call(ch, owner, &addr, json!({"set_fallback_hook": {"hook": bad}}))?;
                    call(ch, owner, &addr, route(g.dest, &b.addr))?;
                }
                _ => {
                    call(ch, owner, &addr, route(g.dest, &b.addr))?;
                }
            }
            Built {
                addr,
                charge: b.charge,
            }
        }
    })
}

#[derive(Clone, Debug)]
struct K6 {
    required: T,
    selected: T,
    explicit: bool,
    /// gas limit in the metadata
    gas: Option<u128>,
    refund: usize,
    from_contract: bool,
    /// one contract in both roles
    same: bool,
    dest: u32,
    /// 0: an ordinary recipient, alice as the sender; see `c06_case`
    rec: u8,
    by: u8,
    body: usize,
    /// metadata of so many bytes, too short to name an amount of gas
    short: Option<usize>,
}

fn c06_case(k: &K6, cov: &mut Cov) -> Res<u128> {
    let mut ch = Chain::new("osmo");
    let owner = ch.user("owner");
    let mb = mailbox(&mut ch, &owner, LOCAL)?;
    let g = Gas {
        default: 70,
        meta: k.gas,
        dest: k.dest,
        rec: match k.rec {
            0 => REC,
            1 => [0; 32],
            2 => h256(&mb),
            3 => h256(&ch.user("alice")),
            4 => h256(&owner),
            _ => h256(&ch.user("beneficiary")),
        },
    };
    let r = build(&mut ch, &owner, &mb, &k.required, &g)?;
    let s = match k.same {
        true => Built {
            addr: r.addr.clone(),
            charge: r.charge.clone(),
        },
        false => build(&mut ch, &owner, &mb, &k.selected, &g)?,
    };
    call(&mut ch, &owner, &mb, json!({"set_required_hook": {"hook": r.addr}}))?;
    let bad = probe(&mut ch, |c| {
        c.post_fail = true;
        c.quote_fail = true;
    });
    // the default hook is not asked when another one is requested
    let d = if k.explicit { &bad } else { &s.addr };
    call(&mut ch, &owner, &mb, json!({"set_default_hook": {"hook": d}}))?;
    let acct = probe(&mut ch, |_| {});
    let alice = ch.user(["alice", "owner", "beneficiary"][k.by as usize]);
    let who = if k.from_contract { &acct } else { &alice };
    for d in ["a", "b", "c"] {
        ch.fund(who, d, 1_000_000);
    }
    for (d, a) in coins_sum(&r.charge.iter().chain(&s.charge).map(|c| c.1.clone()).collect::<Vec<_>>()) {
        ch.fund(who, &d, a);
    }
    let meta = k.gas.map(|gas| {
        let mut v = u256(gas).to_vec();
        v.extend(fill("refund", k.refund));
        v
    });
    let meta = meta.or(k.short.map(|n| fill("short", n)));
    let db = dispatch_body(
        k.dest,
        &g.rec,
        &fill("body", k.body),
        k.explicit.then_some(s.addr.as_str()),
        meta.as_deref(),
    );
    let charges: Vec<(String, Coins)> = r.charge.iter().chain(&s.charge).cloned().collect();
    let total = coins_sum(&charges.iter().map(|c| c.1.clone()).collect::<Vec<_>>());
    let q = ch
        .query(&mb, &json!({"hook": {"quote_dispatch": {"sender": who, "msg": db}}}))
        .map_err(|e| format!("quote: {e}"))?;
    ensure_eq!(fees(&q)?, total, "mailbox quote");
    let dm = json!({ "dispatch": db });
    let run = |ch: &mut Chain, f: &Coins| {
        if k.from_contract {
            let f: Vec<(&str, u128)> = f.iter().map(|(d, a)| (d.as_str(), *a)).collect();
            ch.exec(&alice, &acct, &relay(&[emit_f(&mb, &dm, &f, false)]), &[])
        } else {
            try_call(ch, &alice, &mb, &dm, f)
        }
    };
    // anything less in any denomination does not pay for all hooks
    for i in 0..total.len() {
        let mut f = total.clone();
        f[i].1 -= 1;
        let mut c2 = ch.clone();
        let t = run(&mut c2, &f);
        ensure!(!t.ok(), "underpaid dispatch succeeded with {f:?}, quote {total:?}");
        ensure_eq!(c2.key(), ch.key(), "state after underpaid dispatch");
        cov.hit("underpaid");
    }
    let before = ch.clone();
    let t = run(&mut ch, &total);
    ensure!(t.ok(), "dispatch with exactly the quote {total:?} failed: {}", t.err());
    let mut want: BTreeMap<(String, String), i128> = BTreeMap::new();
    for (d, a) in &total {
        *want.entry((who.clone(), d.clone())).or_default() -= *a as i128;
    }
    for (h, l) in &charges {
        for (d, a) in l {
            *want.entry((h.clone(), d.clone())).or_default() += *a as i128;
        }
    }
    ensure_eq!(bank_delta(&before, &ch), want, "balance changes");
    cov.hit(if total.is_empty() { "free" } else { "paid" });
    if total.len() > 1 {
        cov.hit("two denominations");
    }
    Ok(dig(&(total, charges.len())))
}

pub fn c06(c: &mut Ctx) {
    c.assume("compositions are all terms of the stated shapes over 8 leaves and 6 composers, up to nesting depth 3");
    let leaves = vec![
        T::Merkle,
        T::Fee("a", 0),
        T::Fee("a", 7),
        T::Fee("b", 11),
        T::Igp("a", 3),
        T::Igp("b", 2),
        T::Igp("a", 0),
        T::Pausable,
    ];
    let wraps: Vec<fn(T) -> T> = vec![
        |t| T::Route(Box::new(t)),
        |t| T::Custom(Box::new(t)),
        |t| T::CustomRoute(Box::new(t)),
        |t| T::Fallback(Box::new(t)),
        |t| T::FallbackRoute(Box::new(t)),
    ];
    let mut l1 = leaves.clone();
    l1.push(T::Agg(vec![]));
    for a in &leaves {
        l1.push(T::Agg(vec![a.clone()]));
        for w in &wraps {
            l1.push(w(a.clone()));
        }
        for b in &leaves {
            l1.push(T::Agg(vec![a.clone(), b.clone()]));
        }
    }
    let base = K6 {
        required: T::Merkle,
        selected: T::Merkle,
        explicit: false,
        gas: None,
        refund: 20,
        from_contract: false,
        same: false,
        dest: DEST,
        rec: 0,
        by: 0,
        body: 4,
        short: None,
    };
    // every pair of one-level terms
    let mut v = vec![];
    for (i, a) in l1.iter().enumerate() {
        for (j, b) in l1.iter().enumerate() {
            let combos: &[(bool, Option<u128>, bool)] = if c.thorough() {
                &[
                    (false, None, false),
                    (true, None, false),
                    (false, Some(13), false),
                    (true, Some(13), true),
                    (false, Some(0), true),
                ]
            } else {
                match (i + j) % 3 {
                    0 => &[(false, None, false), (true, Some(13), true)],
                    1 => &[(true, None, false), (false, Some(13), false)],
                    _ => &[(false, Some(0), true), (true, None, false)],
                }
            };
            for (explicit, gas, from_contract) in combos {
                v.push(K6 {
                    required: a.clone(),
                    selected: b.clone(),
                    explicit: *explicit,
                    gas: *gas,
                    refund: if (i + j) % 2 == 0 { 20 } else { 32 },
                    from_contract: *from_contract,
                    ..base.clone()
                });
            }
        }
        // the same contract as required hook and as default / requested hook
        for (explicit, gas) in [(false, None), (true, None), (true, Some(13)), (false, Some(13))] {
            v.push(K6 {
                required: a.clone(),
                selected: a.clone(),
                explicit,
                gas,
                same: true,
                ..base.clone()
            });
        }
    }
    c.cases(
        "all pairs of one-level compositions",
        || Ok(()),
        v,
        &["paid", "free", "underpaid", "two denominations"],
        |_, k, cov| c06_case(k, cov),
    );
    // every destination, recipient, sender and body, and metadata that names no gas
    let mut v = vec![];
    for (i, a) in l1.iter().enumerate() {
        let b = match i % 4 {
            0 => T::Merkle,
            1 => T::Igp("a", 3),
            2 => T::Fee("b", 11),
            _ => a.clone(),
        };
        for (dest, rec, by, body) in [
            (LOCAL, 0, 0, 4),
            (0, 1, 1, 0),
            (1, 5, 2, 1),
            (u32::MAX, 2, 0, 77),
            (0x8000_0000, 3, 0, 1000),
            (LOCAL, 4, 1, 32),
            (LOCAL, 5, 2, 20),
            (LOCAL, 2, 1, 0),
        ] {
            for (gas, short) in [(None, None), (Some(13), None), (None, Some(1)), (None, Some(20)), (None, Some(31))] {
                for swap in [false, true] {
                    let (required, selected) = if swap { (b.clone(), a.clone()) } else { (a.clone(), b.clone()) };
                    v.push(K6 {
                        required,
                        selected,
                        explicit: (i + body) % 3 == 0,
                        from_contract: body == 4,
                        gas,
                        short,
                        dest,
                        rec,
                        by,
                        body,
                        ..base.clone()
                    });
                }
            }
        }
    }
    for n in sizes(c.thorough()) {
        for (body, refund) in [(n, 20), (4, n), (n, n)] {
            if n > 70 && !c.thorough() && (n + refund) % 3 != 0 {
                continue;
            }
            v.push(K6 {
                required: T::Merkle,
                selected: T::Agg(vec![T::Igp("a", 3), T::Fee("b", 11)]),
                gas: Some(13),
                explicit: n % 2 == 0,
                body,
                refund,
                ..base.clone()
            });
        }
    }
    c.cases(
        "destinations, recipients, senders and bodies",
        || Ok(()),
        v,
        &["paid", "free", "underpaid", "two denominations"],
        |_, k, cov| c06_case(k, cov),
    );
    // the whole range of amounts, all sorts of denominations
    const IBC: &str = "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2";
    const IBC2: &str = "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB3";
    const FAC: &str = "factory/osmo1xyz/token";
    let amounts = [
        0u128,
        1,
        (1 << 31) - 1,
        1 << 32,
        (1 << 53) + 1,
        (1 << 63) - 1,
        (1 << 64) - 1,
        1 << 64,
        (1 << 64) + 1,
        1 << 100,
        u128::MAX / 8,
    ];
    let mut v = vec![];
    for a in amounts {
        for b in amounts {
            for (x, y) in [("a", "a"), ("a", "b"), (IBC, IBC), (IBC, IBC2), (FAC, "a"), ("b", FAC), ("A", "a"), ("uatom", "uatom2")] {
                let (fa, fb) = (T::Fee(x, a), T::Fee(y, b));
                let shapes = [
                    (fa.clone(), fb.clone()),
                    (T::Merkle, T::Agg(vec![fa.clone(), fb.clone()])),
                    (T::Agg(vec![fa.clone(), fb.clone()]), T::Route(Box::new(fa.clone()))),
                    (T::Igp(x, a / 80), T::Fallback(Box::new(fb.clone()))),
                    (T::Custom(Box::new(fa.clone())), T::Agg(vec![T::Igp(y, b / 80), fa.clone()])),
                ];
                for (i, (required, selected)) in shapes.into_iter().enumerate() {
                    v.push(K6 {
                        required,
                        selected,
                        explicit: i % 2 == 1,
                        ..base.clone()
                    });
                }
            }
        }
    }
    // small quotes with every form of gas metadata
    for p in 0..4u128 {
        for gas in [0u128, 1, 2, 69, 70, 71] {
            for refund in [0usize, 1, 19, 20, 21, 31, 32, 33, 64] {
                // only addresses of 20 and 32 bytes can be refunded; exact payments leave nothing to refund
                if ![0, 20, 32].contains(&refund) {
                    continue;
                }
                for w in [0, 1, 2] {
                    let igp = T::Igp("a", p);
                    let (required, selected) = match w {
                        0 => (T::Merkle, igp),
                        1 => (igp.clone(), T::Fee("a", 1)),
                        _ => (T::Fee("b", 1), T::Agg(vec![igp.clone(), T::Route(Box::new(igp))])),
                    };
                    for from_contract in [false, true] {
                        v.push(K6 {
                            required: required.clone(),
                            selected: selected.clone(),
                            explicit: w == 1,
                            gas: Some(gas),
                            refund,
                            from_contract,
                            ..base.clone()
                        });
                    }
                }
            }
        }
    }
    const MANY: [&str; 12] = ["a", "b", "c", "d", "e", "f", IBC, FAC, "uosmo", "x/y:z", "zz", "zzz"];
    for n in 1..=MANY.len() {
        let l: Vec<T> = (0..n).map(|i| T::Fee(MANY[(i * 5) % 12], 3 + i as u128)).collect();
        for m in [0, 1, n / 2, n] {
            let k: Vec<T> = l[..m].to_vec();
            for explicit in [false, true] {
                for from_contract in [false, true] {
                    v.push(K6 {
                        required: T::Agg(l.clone()),
                        selected: T::Agg(k.clone()),
                        explicit,
                        from_contract,
                        ..base.clone()
                    });
                    v.push(K6 {
                        required: T::Agg(k.clone()),
                        selected: T::Route(Box::new(T::Agg(l.clone()))),
                        explicit,
                        from_contract,
                        ..base.clone()
                    });
                }
            }
        }
    }
    c.cases(
        "amounts and denominations",
        || Ok(()),
        v,
        &["paid", "free", "underpaid", "two denominations"],
        |_, k, cov| c06_case(k, cov),
    );
    // nested compositions
    let mut l2 = vec![];
    for x in &l1[leaves.len()..] {
        for w in &wraps {
            l2.push(w(x.clone()));
        }
        for a in &leaves {
            l2.push(T::Agg(vec![x.clone(), a.clone()]));
            l2.push(T::Agg(vec![a.clone(), x.clone()]));
        }
    }
    if c.thorough() {
        let snapshot: Vec<T> = l2.clone();
        for x in &snapshot {
            for w in &wraps {
                l2.push(w(x.clone()));
            }
            for a in [T::Fee("a", 7), T::Igp("b", 2), T::Merkle] {
                l2.push(T::Agg(vec![x.clone(), a.clone()]));
                l2.push(T::Agg(vec![a.clone(), x.clone()]));
            }
        }
    }
    let mut v = vec![];
    for x in &l2 {
        for gas in [None, Some(13)] {
            v.push(K6 {
                required: x.clone(),
                selected: T::Fee("b", 11),
                gas,
                ..base.clone()
            });
            v.push(K6 {
                required: T::Fee("a", 7),
                selected: x.clone(),
                explicit: gas.is_some(),
                gas,
                ..base.clone()
            });
        }
    }
    // the same shapes in both roles
    for x in l2.iter().step_by(c.pick(7, 3)) {
        v.push(K6 {
            required: x.clone(),
            selected: x.clone(),
            gas: Some(4),
            ..base.clone()
        });
        for explicit in [false, true] {
            v.push(K6 {
                required: x.clone(),
                selected: x.clone(),
                gas: Some(4),
                explicit,
                same: true,
                ..base.clone()
            });
        }
    }
    // larger aggregates
    for n in [3usize, 5, 10, 20] {
        let l: Vec<T> = (0..n).map(|i| leaves[(i * 3 + 2) % leaves.len()].clone()).collect();
        for gas in [None, Some(1), Some(0)] {
            v.push(K6 {
                required: T::Agg(l.clone()),
                selected: T::Agg(l.iter().rev().cloned().collect()),
                gas,
                ..base.clone()
            });
        }
    }
    c.cases(
        "nested compositions",
        || Ok(()),
        v,
        &["paid", "free", "underpaid", "two denominations"],
        |_, k, cov| c06_case(k, cov),
    );
}
