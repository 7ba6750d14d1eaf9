//! Messages of every kind: modules and hooks treat a message whose fields take special values (this
//! chain as origin or destination, zero or full addresses, accounts of the system as sender or
//! recipient, bodies that look like something else) like any other.
use super::igp::{igp, oracle, pay, ref_meta, ref_price, set_data, set_route, to_u128};
use super::hooks::{check_forward, Var};
use crate::codes::price;
use crate::chain::{h256, Chain};
use crate::explore::{CovExt, Ctx};
use crate::util::*;
use crate::{ensure, ensure_eq};
use serde_json::json;
use std::collections::BTreeMap;

const LOCAL: u32 = 0x01fe_0304;
const REMOTE: u32 = 0x0a0b_0c0d;
const DOMS: [u32; 6] = [REMOTE, LOCAL, 0, 1, u32::MAX, 0x8000_0000];

/// which origin, destination, sender, recipient and body (see `message`)
pub type K = (usize, usize, usize, usize, usize);
const PLACES: usize = 7;
const BODIES: usize = 11;

pub fn kinds(c: &Ctx) -> Vec<K> {
    let mut v = vec![];
    for o in 0..DOMS.len() {
        for d in 0..DOMS.len() {
            for s in 0..PLACES {
                for r in 0..PLACES {
                    for b in 0..BODIES {
                        // quick: every pair of domains with every pair of places, every body with each of them
                        if c.thorough() || (o * 6 + d + s * 7 + r) % BODIES == b || (o == 0 && d == 1) || (s == 0 && r == 0) {
                            v.push((o, d, s, r, b));
                        }
                    }
                }
            }
        }
    }
    // bodies and metadata of any length
    for n in sizes(c.thorough()) {
        for what in 0..3 {
            if n < 64 || what == 2 || c.thorough() || n % 2 == what {
                v.push((0, 1, 0, 0, BODIES + 3 * n + what));
            }
        }
    }
    v
}
/// the lengths of body and metadata of one of the last kinds
fn lengths(k: &K) -> Option<(usize, usize)> {
    let n = k.4.checked_sub(BODIES)?;
    Some(([n / 3, 5, n / 3][n % 3], [40, n / 3, n / 3][n % 3]))
}

pub fn message(k: &K, places: &[String]) -> Msg {
    let place = |i: usize, tag: &str| match i {
        0 => fill32(tag),
        1 => [0; 32],
        2 => [0xff; 32],
        i => h256(&places[(i - 3) % places.len()]),
    };
    let (sender, recipient) = (place(k.2, "sender"), place(k.3, "recipient"));
    let mut m = Msg {
        version: [3, 3, 0, 255, 2][(k.0 + k.1 + k.4) % 5],
        nonce: [77, 0, 1, u32::MAX, 1 << 31][(k.2 + k.3 + k.4) % 5],
        origin: DOMS[k.0],
        sender,
        dest: DOMS[k.1],
        recipient,
        body: vec![],
    };
    if let Some((n, _)) = lengths(k) {
        m.body = fill("body", n);
        return m;
    }
    m.body = match k.4 {
        0 => b"an ordinary body".to_vec(),
        1 => vec![],
        2 => vec![0],
        3 => vec![0; 32],
        4 => sender.to_vec(),
        5 => recipient.to_vec(),
        6 => [&recipient[..], &u256(1000)].concat(),
        7 => m.enc(),
        8 => m.id().to_vec(),
        9 => br#"{"handle":{}}"#.to_vec(),
        _ => vec![0xff; 300],
    };
    m
}
fn meta(k: &K) -> Vec<u8> {
    if let Some((_, n)) = lengths(k) {
        return fill("meta", n);
    }
    fill("meta", [0, 1, 31, 32, 52, 64, 200][(k.0 + k.2 + k.4) % 7])
}

pub fn multisig(c: &mut Ctx) {
    let v = kinds(c);
    c.cases(
        "messages of every kind",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let ism = inst(&mut ch, "ism_multisig", &owner, json!({"owner": owner}))?;
            for d in DOMS {
                let vals: Vec<String> = (0..2).map(|i| hx(&Key::new(&format!("{i} of {d}")).addr)).collect();
                call(
                    &mut ch,
                    &owner,
                    &ism,
                    json!({"set_validators": {"domain": d, "threshold": 2, "validators": vals}}),
                )?;
            }
            Ok((ch, owner, ism))
        },
        v,
        &["accepted", "rejected"],
        |(ch, owner, ism), k, cov| {
            let places = [owner.clone(), ism.clone(), ch.user("alice")];
            let m = message(k, &places);
            let (tree, root) = (if k.4 % 2 == 0 { m.sender } else { fill32("tree") }, fill32("root"));
            let index = [m.nonce, 0, u32::MAX][k.4 % 3];
            let d = checkpoint_digest(m.origin, &tree, &root, index, &m.id());
            let sig = |o: u32| -> Vec<[u8; 65]> { (0..2).map(|i| Key::new(&format!("{i} of {o}")).sign(&d)).collect() };
            let own = sig(m.origin);
            ensure!(
                verdict_full(ch, ism, &multisig_meta(&tree, &root, index, &own), &m.enc())?,
                "signed by both validators of {:#x}",
                m.origin
            );
            cov.hit("accepted");
            let other = sig(DOMS[(k.0 + 1) % DOMS.len()]);
            for l in [vec![own[0]], vec![own[1], own[1]], other.clone(), vec![own[0], other[0]], vec![]] {
                let r = verdict_full(ch, ism, &multisig_meta(&tree, &root, index, &l), &m.enc());
                ensure!(!matches!(r, Ok(true)), "accepted with {} signatures, too few of validators", l.len());
                cov.hit("rejected");
            }
            // the same signatures under another message
            let mut n = m.clone();
            n.body.push(1);
            let r = verdict_full(ch, ism, &multisig_meta(&tree, &root, index, &own), &n.enc());
            ensure!(!matches!(r, Ok(true)), "accepted for another message");
            Ok(dig(k))
        },
    );
}

pub fn aggregate_ism(c: &mut Ctx) {
    let v = kinds(c);
    c.cases(
        "messages of every kind",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let mut mods: Vec<String> = (0..3).map(|_| probe(&mut ch, |c| c.verify = "reject".into())).collect();
            mods.sort();
            let ism = inst(&mut ch, "ism_aggregate", &owner, json!({"owner": owner, "isms": mods, "threshold": 2}))?;
            Ok((ch, owner, ism, mods))
        },
        v,
        &["accepted", "rejected"],
        |(c0, owner, ism, mods), k, cov| {
            let m = message(k, &[owner.clone(), ism.clone(), mods[0].clone()]).enc();
            let secs: Vec<Vec<u8>> = (0..3).map(|i| [vec![i as u8], meta(k)].concat()).collect();
            let am = super::isms::agg_meta(&secs, super::isms::Lay::InOrder);
            // which members accept exactly their section and the message
            for set in 0..8u8 {
                let mut ch = c0.clone();
                for i in 0..3 {
                    if set >> i & 1 == 1 {
                        reprobe(&mut ch, &mods[i], |c| {
                            c.verify = "exact".into();
                            c.want_meta = hx(&secs[i]);
                            c.want_msg = hx(&m);
                        });
                    }
                }
                let got = verdict_full(&ch, ism, &am, &m)?;
                let want = set.count_ones() >= 2;
                ensure_eq!(got, want, "verdict with members {set:03b} accepting");
                cov.hit(if want { "accepted" } else { "rejected" });
            }
            Ok(dig(k))
        },
    );
}

pub fn routing_ism(c: &mut Ctx) {
    let v = kinds(c);
    c.cases(
        "messages of every kind",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let mods: Vec<String> = DOMS.iter().map(|_| probe(&mut ch, |c| c.verify = "reject".into())).collect();
            // all but the last origin have a module
            let l: Vec<_> = (0..DOMS.len() - 1)
                .map(|i| json!({"domain": DOMS[i], "address": mods[i]}))
                .collect();
            let ism = inst(&mut ch, "ism_routing", &owner, json!({"owner": owner, "isms": l}))?;
            Ok((ch, owner, ism, mods))
        },
        v,
        &["accepted", "rejected", "no module"],
        |(c0, owner, ism, mods), k, cov| {
            let m = message(k, &[owner.clone(), ism.clone(), mods[k.1].clone()]).enc();
            let md = meta(k);
            let want = |ch: &mut Chain, i: usize| {
                reprobe(ch, &mods[i], |c| {
                    c.verify = "exact".into();
                    c.want_meta = hx(&md);
                    c.want_msg = hx(&m);
                })
            };
            let route = c0.query(ism, &json!({"routing_ism": {"route": {"message": hx(&m)}}}));
            let mut ch = c0.clone();
            want(&mut ch, k.0);
            if k.0 == DOMS.len() - 1 {
                ensure!(!matches!(verdict_full(&ch, ism, &md, &m), Ok(true)), "accepted without a module");
                ensure!(!matches!(&route, Ok(v) if v["ism"].as_str().map_or(false, |s| !s.is_empty())), "route {route:?}");
                cov.hit("no module");
                return Ok(dig(k));
            }
            ensure_eq!(route?["ism"], json!(mods[k.0]), "route");
            ensure!(verdict_full(&ch, ism, &md, &m)?, "the module of the origin accepts");
            cov.hit("accepted");
            let mut ch = c0.clone();
            for i in 0..mods.len() {
                if i != k.0 {
                    want(&mut ch, i);
                }
            }
            ensure!(!matches!(verdict_full(&ch, ism, &md, &m), Ok(true)), "the module of the origin does not accept");
            cov.hit("rejected");
            Ok(dig(k))
        },
    );
}

pub fn pausable(c: &mut Ctx) {
    let v = kinds(c);
    c.cases(
        "messages of every kind",
        || {
            let mut out = vec![];
            for paused in [false, true] {
                let mut ch = Chain::new("osmo");
                let owner = ch.user("owner");
                let a = json!({"owner": owner, "paused": paused});
                let ism = inst(&mut ch, "ism_pausable", &owner, a.clone())?;
                let hook = inst(&mut ch, "hook_pausable", &owner, a)?;
                out.push((ch, owner, ism, hook));
            }
            Ok(out)
        },
        v,
        &["released", "paused"],
        |l, k, cov| {
            for (i, (ch, owner, ism, hook)) in l.iter().enumerate() {
                let m = message(k, &[owner.clone(), ism.clone(), hook.clone()]).enc();
                let md = meta(k);
                let v = verdict_full(ch, ism, &md, &m);
                let mut ch = ch.clone();
                for who in [owner.clone(), ch.user("alice")] {
                    let t = ch.exec(&who, hook, &post_dispatch(&md, &m), &[]);
                    ensure_eq!(t.ok(), i == 0, "post-dispatch ({})", t.err());
                }
                if i == 0 {
                    ensure_eq!(v, Ok(true), "verdict when released");
                    ensure_eq!(hook_quote(&ch, hook, &md, &m)?, coins(&[]), "quote");
                    cov.hit("released");
                } else {
                    ensure!(!matches!(v, Ok(true)), "accepted when paused");
                    cov.hit("paused");
                }
            }
            Ok(dig(k))
        },
    );
}

pub fn routing_hooks(c: &mut Ctx) {
    let v: Vec<(Var, K)> = [Var::Plain, Var::Custom, Var::Fallback]
        .into_iter()
        .flat_map(|x| kinds(c).into_iter().map(move |k| (x, k)))
        .collect();
    c.cases(
        "messages of every kind",
        || {
            let mut out = vec![];
            for code in ["hook_routing", "hook_routing_custom", "hook_routing_fallback"] {
                let mut ch = Chain::new("osmo");
                let owner = ch.user("owner");
                let al = ch.user("alice");
                ch.fund(&al, "a", 1000);
                ch.fund(&al, "b", 1000);
                let hook = inst(&mut ch, code, &owner, json!({"owner": owner}))?;
                let h: Vec<String> = (0..DOMS.len() + 2)
                    .map(|_| probe(&mut ch, |c| c.quote_hashed = Some("a".into())))
                    .collect();
                // all but the last destination have a hook
                for i in 0..DOMS.len() - 1 {
                    call(&mut ch, &owner, &hook, set_route(DOMS[i], Some(&h[i])))?;
                }
                let places = vec![owner.clone(), hook.clone(), h[0].clone()];
                if code == "hook_routing_custom" {
                    // the places have a hook of their own at two of the destinations
                    for d in [DOMS[1], DOMS[2]] {
                        for r in 1..PLACES {
                            let m = message(&(0, 0, 0, r, 0), &places);
                            call(
                                &mut ch,
                                &owner,
                                &hook,
                                json!({"register_custom_hook": {"dest_domain": d, "recipient": hx(&m.recipient), "hook": h[DOMS.len()]}}),
                            )?;
                        }
                    }
                }
                if code == "hook_routing_fallback" {
                    call(&mut ch, &owner, &hook, json!({"set_fallback_hook": {"hook": h[DOMS.len() + 1]}}))?;
                }
                out.push((ch, hook, h, places));
            }
            Ok(out)
        },
        v,
        &["forwarded", "no hook"],
        |l, (var, k), cov| {
            let (ch, hook, h, places) = &l[*var as usize];
            let m = message(k, places);
            let n = DOMS.len();
            let want = match var {
                Var::Custom if (k.1 == 1 || k.1 == 2) && k.3 > 0 => Some(&h[n]),
                Var::Fallback if k.1 == n - 1 => Some(&h[n + 1]),
                _ if k.1 == n - 1 => None,
                _ => Some(&h[k.1]),
            };
            check_forward(ch, hook, &m, &meta(k), want.map(|s| s.as_str()), cov)?;
            Ok(dig(&(*var as u8, k)))
        },
    );
}

pub fn aggregate_hook(c: &mut Ctx) {
    let v = kinds(c);
    c.cases(
        "messages of every kind",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let al = ch.user("alice");
            ch.fund(&al, "a", 1_000_000);
            let h: Vec<String> = (0..3)
                .map(|_| {
                    probe(&mut ch, |c| {
                        c.quote_hashed = Some("a".into());
                        c.strict = true;
                    })
                })
                .collect();
            let hook = inst(&mut ch, "hook_aggregate", &owner, json!({"owner": owner, "hooks": h}))?;
            Ok((ch, owner, hook, h))
        },
        v,
        &["posted"],
        |(c0, owner, hook, h), k, cov| {
            let mut ch = c0.clone();
            let al = ch.user("alice");
            let m = message(k, &[owner.clone(), hook.clone(), h[1].clone()]).enc();
            let md = meta(k);
            let each: Vec<u128> = h.iter().map(|x| price(x, &hx(&md), &hx(&m))).collect();
            let total = coins(&[("a", each.iter().sum())]);
            ensure_eq!(hook_quote(&ch, hook, &md, &m)?, total, "quote");
            let t = try_call(&mut ch, &al, hook, &post_dispatch(&md, &m), &total);
            ensure!(t.ok(), "post-dispatch: {}", t.err());
            let want: Vec<_> = (0..3)
                .map(|i| (hook.clone(), h[i].clone(), post_dispatch(&md, &m), coins(&[("a", each[i])])))
                .collect();
            let calls: Vec<_> = t.calls().into_iter().skip(1).collect();
            ensure_eq!(calls, want, "members called");
            cov.hit("posted");
            Ok(dig(k))
        },
    );
}

pub fn fee_hook(c: &mut Ctx) {
    let v = kinds(c);
    c.cases(
        "messages of every kind",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let hook = inst(&mut ch, "hook_fee", &owner, json!({"owner": owner, "fee": {"denom": "a", "amount": "5"}}))?;
            for who in [ch.user("alice"), owner.clone()] {
                ch.fund(&who, "a", 1000);
                ch.fund(&who, "b", 1000);
            }
            Ok((ch, owner, hook))
        },
        v,
        &["paid", "refused"],
        |(ch, owner, hook), k, cov| {
            let al = ch.user("alice");
            let m = message(k, &[owner.clone(), hook.clone(), al.clone()]).enc();
            let md = meta(k);
            ensure_eq!(hook_quote(ch, hook, &md, &m)?, coins(&[("a", 5)]), "quote");
            for who in [&al, owner] {
                for (funds, ok) in [(vec![("a", 5u128)], true), (vec![("a", 4)], false), (vec![], false), (vec![("b", 5)], false), (vec![("a", 9)], true)] {
                    let mut c2 = ch.clone();
                    let t = try_call(&mut c2, who, hook, &post_dispatch(&md, &m), &coins(&funds));
                    ensure_eq!(t.ok(), ok, "post-dispatch with {funds:?} ({})", t.err());
                    let mut want: BTreeMap<(String, String), i128> = BTreeMap::new();
                    if ok {
                        want.insert((who.clone(), "a".into()), -(funds[0].1 as i128));
                        want.insert((hook.clone(), "a".into()), funds[0].1 as i128);
                    }
                    ensure_eq!(bank_delta(ch, &c2), want, "balances");
                    cov.hit(if ok { "paid" } else { "refused" });
                }
            }
            Ok(dig(k))
        },
    );
}

pub fn paymaster(c: &mut Ctx) {
    let v = kinds(c);
    const RATE: u128 = 20_000_000_000;
    c.cases(
        "messages of every kind",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let al = ch.user("alice");
            ch.fund(&al, "a", 1_000_000);
            let ben = ch.user("beneficiary");
            let p = igp(&mut ch, &owner, "a", &ben, 50)?;
            let or = oracle(&mut ch, &owner)?;
            for (i, d) in DOMS.iter().enumerate() {
                set_data(&mut ch, &owner, &or, *d, 3 + i as u128, RATE)?;
                call(&mut ch, &owner, &p, set_route(*d, Some(&or)))?;
            }
            // half of the destinations have an amount of gas of their own
            call(&mut ch, &owner, &p, json!({"set_gas_for_domain": {"config": [[DOMS[1], "7"], [DOMS[2], "50"], [DOMS[4], "0"]]}}))?;
            Ok((ch, owner, p, ben))
        },
        v,
        &["paid", "refunded", "refused", "free"],
        |(ch, owner, igp, ben), k, cov| {
            let al = ch.user("alice");
            let msg = message(k, &[owner.clone(), igp.clone(), ben.clone()]);
            let m = msg.enc();
            let mut md = meta(k);
            // keep the price payable
            let n = md.len().min(30);
            md[..n].fill(0);
            let gas = [50, 7, 50, 50, 0, 50][k.1];
            let (g, to) = ref_meta("osmo", &md, &msg.sender, gas);
            let p = to_u128(&ref_price(&g, 3 + k.1 as u128, RATE)).ok_or("price")?;
            let q = coins(&[("a", p)]);
            ensure_eq!(hook_quote(ch, igp, &md, &m)?, q, "quote");
            for n in [p, p + 9, p.wrapping_sub(1)] {
                if n <= 1_000_000 {
                    pay(ch, igp, "a", &al, &post_dispatch(&md, &m), &coins(&[("a", n)]), Some(p), &to, cov)?;
                }
            }
            Ok(dig(k))
        },
    );
}
