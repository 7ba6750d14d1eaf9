//! A05 what creating a contract establishes
use super::admin::{claim, nominate, revoke};
use super::warp::{body, enroll, handle_msg};
use crate::chain::{b32, keccak, Chain};
use crate::explore::{Cov, CovExt, Ctx, Res};
use crate::util::*;
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const LOCAL: u32 = 26657;

/// a chain with a mailbox, hooks and modules a creation can name
#[derive(Clone)]
struct World {
    ch: Chain,
    mb: String,
    /// accepts whatever it is asked
    yes: Vec<String>,
    no: Vec<String>,
    hooks: Vec<String>,
    token: String,
    holder: String,
}
fn world(hrp: &str, domain: u32) -> Res<World> {
    let mut ch = Chain::new(hrp);
    let o = ch.user("somebody");
    let mb = mailbox(&mut ch, &o, domain)?;
    let yes = (0..4).map(|_| probe(&mut ch, |p| p.verify = "accept".into())).collect();
    let no = (0..4).map(|_| probe(&mut ch, |p| p.verify = "reject".into())).collect();
    let hooks = (0..4).map(|_| quiet_hook(&mut ch)).collect();
    let holder = ch.user("holder");
    let token = inst(
        &mut ch,
        "cw20",
        &o,
        json!({"name": "token", "symbol": "TOK", "decimals": 6,
            "initial_balances": [{"address": holder, "amount": "1000"}]}),
    )?;
    ch.fund(&holder, "uatom", 1000);
    Ok(World {
        ch,
        mb,
        yes,
        no,
        hooks,
        token,
        holder,
    })
}

type Test = Box<dyn Fn(&World, &Chain, &str) -> Res<()> + Sync + Send>;
/// a creation that must succeed
struct Made {
    code: &'static str,
    what: String,
    init: Value,
    owner: Option<String>,
    test: Test,
}

/// accounts of every shape
fn accounts(ch: &Chain) -> Vec<String> {
    let h = &ch.hrp;
    vec![
        ch.user("owner"),
        ch.user("deployer"),
        b32(h, &fill("o", 32)),
        b32(h, &[0; 20]),
        b32(h, &[0xff; 20]),
        b32(h, &[0; 32]),
        b32(h, &[0xff; 32]),
        b32(h, &[vec![0; 12], fill("z", 20)].concat()),
        ch.next_addr(),
    ]
}
fn nothing(v: Result<Value, String>) -> bool {
    match v {
        Err(_) => true,
        Ok(Value::Object(m)) => m.values().all(|x| {
            x.is_null() || x.as_str() == Some("") || x.as_array().is_some_and(|l| l.is_empty())
        }),
        Ok(_) => false,
    }
}
const ASKED: [u32; 7] = [0, 1, 7, LOCAL, 0x0100_0000, u32::MAX - 1, u32::MAX];

fn no_routes(ch: &Chain, c: &str) -> Res<()> {
    for d in ASKED {
        let v = ch.query(c, &json!({"router": {"get_route": {"domain": d}}}))?;
        ensure!(v["route"]["route"].is_null() || v["route"].is_null(), "route of {d} in a new contract: {v}");
    }
    for o in ["asc", "desc"] {
        let v = ch.query(c, &json!({"router": {"list_routes": {"offset": null, "limit": 30, "order": o}}}))?;
        ensure_eq!(v["routes"], json!([]), "routes of a new contract");
    }
    let v = ch.query(c, &json!({"router": {"domains": {}}}))?;
    ensure_eq!(v["domains"], json!([]), "domains of a new contract");
    Ok(())
}
fn sample(d: u32) -> Msg {
    Msg {
        version: 3,
        nonce: 1,
        origin: d,
        sender: fill32("s"),
        dest: d,
        recipient: fill32("r"),
        body: fill("b", 9),
    }
}

fn list(w: &World) -> Vec<Made> {
    let mut v: Vec<Made> = vec![];
    let hrp = w.ch.hrp.to_string();
    let who = accounts(&w.ch);
    let o0 = who[0].clone();
    let mut add = |code, what: String, init: Value, test: Test| {
        let owner = init.get("owner").and_then(|o| o.as_str()).map(|s| s.to_string());
        v.push(Made {
            code,
            what,
            init,
            owner,
            test,
        })
    };
    for o in &who {
        // ---- mailbox
        for d in [0u32, 1, LOCAL, 0x8000_0000, u32::MAX] {
            let h = hrp.clone();
            add(
                "mailbox",
                format!("domain {d}"),
                json!({"hrp": h, "owner": o, "domain": d}),
                Box::new(move |w, ch, c| {
                    let q = |x: Value| ch.query(c, &json!({ "mailbox": x }));
                    ensure_eq!(q(json!({"hrp": {}}))?["hrp"], json!(h), "prefix");
                    ensure_eq!(q(json!({"local_domain": {}}))?["local_domain"], json!(d), "domain");
                    for x in ["default_ism", "default_hook", "required_hook", "latest_dispatch_id"] {
                        let r = q(json!({ x: {} }));
                        ensure!(nothing(r.clone()), "{x} of a new mailbox: {r:?}");
                    }
                    ensure_eq!(q(json!({"nonce": {}}))?["nonce"], json!(0), "nonce");
                    let m = Msg { dest: d, recipient: self_h256(&w.yes[0]), ..sample(d ^ 1) };
                    for id in [m.id(), [0; 32], [0xff; 32]] {
                        ensure!(!delivered(ch, c, &id)?, "a new mailbox reports a delivery");
                    }
                    let ri = q(json!({"recipient_ism": {"recipient_addr": w.hooks[0]}}));
                    ensure!(nothing(ri.clone()), "module of a recipient which designates none: {ri:?}");
                    // nothing can be sent or delivered before hooks and module are set
                    let mut x = ch.clone();
                    let u = x.user("somebody");
                    let t = x.exec(&u, c, &process_msg(&[], &m.enc()), &[]);
                    ensure!(!t.ok(), "delivered without a security module");
                    for hook in [None, Some(w.hooks[0].as_str())] {
                        let t = x.exec(&u, c, &dispatch_msg(7, &fill32("r"), b"x", hook, None), &[]);
                        ensure!(!t.ok(), "dispatched without a required hook");
                    }
                    Ok(())
                }),
            );
        }
        // ---- hooks and modules with an owner only
        for code in ["hook_routing", "hook_routing_custom", "hook_routing_fallback", "igp_oracle", "ism_multisig"] {
            add(
                code,
                "empty".into(),
                json!({ "owner": o }),
                Box::new(move |_, ch, c| {
                    if code.starts_with("hook_routing") {
                        no_routes(ch, c)?;
                        let m = sample(7);
                        let q = hook_quote(ch, c, &[], &m.enc());
                        ensure!(q.is_err(), "a new routing hook quotes {q:?}");
                        let mut x = ch.clone();
                        let u = x.user("somebody");
                        let t = x.exec(&u, c, &post_dispatch(&[], &m.enc()), &[]);
                        ensure!(!t.ok(), "a new routing hook lets a message through");
                    }
                    if code == "hook_routing_custom" {
                        for d in ASKED {
                            let q = json!({"custom_routing_hook": {"custom_hooks": {"dest_domain": d, "offset": null, "limit": 30, "order": "asc"}}});
                            let l = ch.query(c, &q);
                            ensure!(nothing(l.clone()), "custom hooks of a new contract: {l:?}");
                        }
                    }
                    for d in ASKED {
                        if code == "igp_oracle" {
                            let q = ch.query(c, &json!({"oracle": {"get_exchange_rate_and_gas_price": {"dest_domain": d}}}));
                            ensure!(q.is_err(), "a new oracle answers {q:?}");
                        }
                        if code == "ism_multisig" {
                            let q = ch.query(c, &json!({"multisig_ism": {"enrolled_validators": {"domain": d}}}));
                            let none = q.as_ref().map_or(true, |v| v["validators"] == json!([]));
                            ensure!(none, "validators of a new module: {q:?}");
                            let m = sample(d);
                            let k = Key::new("v");
                            let cd = checkpoint_digest(d, &[1; 32], &[2; 32], 3, &m.id());
                            for l in [vec![], vec![k.sign(&cd)]] {
                                let meta = multisig_meta(&[1; 32], &[2; 32], 3, &l);
                                ensure!(!verdict(ch, c, &meta, &m.enc()), "a new module accepts");
                            }
                        }
                    }
                    Ok(())
                }),
            );
        }
        // ---- pausable
        for code in ["hook_pausable", "ism_pausable"] {
            for paused in [false, true] {
                add(
                    code,
                    format!("paused: {paused}"),
                    json!({"owner": o, "paused": paused}),
                    Box::new(move |_, ch, c| {
                        let q = ch.query(c, &json!({"pausable": {"pause_info": {}}}))?;
                        ensure_eq!(q["paused"], json!(paused), "pause state");
                        let m = sample(7);
                        if code == "ism_pausable" {
                            ensure_eq!(verdict(ch, c, &[], &m.enc()), !paused, "verdict");
                        } else {
                            let mut x = ch.clone();
                            let u = x.user("somebody");
                            let t = x.exec(&u, c, &post_dispatch(&[], &m.enc()), &[]);
                            ensure_eq!(t.ok(), !paused, "post dispatch ({})", t.err());
                        }
                        Ok(())
                    }),
                );
            }
        }
        // ---- fee hook
        for den in ["uosmo", "a", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "factory/x/y"] {
            for n in [0u128, 1, 5, u64::MAX as u128, 1 << 64, u128::MAX] {
                if *o != o0 && (den.len() > 6 || n > 5) {
                    continue;
                }
                add(
                    "hook_fee",
                    format!("fee {n}{den}"),
                    json!({"owner": o, "fee": {"denom": den, "amount": n.to_string()}}),
                    Box::new(move |_, ch, c| {
                        let q = ch.query(c, &json!({"fee_hook": {"fee": {}}}))?;
                        ensure_eq!(q["fee"], json!({"denom": den, "amount": n.to_string()}), "fee");
                        let q: Vec<(String, u128)> =
                            hook_quote(ch, c, &[], &sample(7).enc())?.into_iter().filter(|x| x.1 > 0).collect();
                        let want = if n > 0 { coins(&[(den, n)]) } else { vec![] };
                        ensure_eq!(q, want, "quote");
                        ensure!(ch.balances(c).is_empty(), "a new hook holds coins");
                        Ok(())
                    }),
                );
            }
        }
        // ---- paymaster
        for den in ["uosmo", "factory/x/y"] {
            for n in [0u128, 1, 250_000, 1 << 64, u128::MAX] {
                for ben in [&o0, &who[2], &who[1], &w.mb] {
                    if *o != o0 && *o != who[2] && *o != who[8] && (n != 1 || den != "uosmo") {
                        continue;
                    }
                    let ben = ben.clone();
                    let others: BTreeSet<String> =
                        who.iter().chain([&w.mb, &w.holder]).filter(|x| **x != ben).cloned().collect();
                    add(
                        "igp",
                        format!("gas token {den}, default gas {n}, beneficiary {ben}"),
                        json!({"hrp": hrp, "owner": o, "gas_token": den, "beneficiary": ben, "default_gas_usage": n.to_string()}),
                        Box::new(move |_, ch, c| {
                            no_routes(ch, c)?;
                            let q = |x: Value| ch.query(c, &json!({ "igp": x }));
                            ensure_eq!(q(json!({"default_gas": {}}))?["gas"], json!(n.to_string()), "default gas");
                            ensure_eq!(q(json!({"beneficiary": {}}))?["beneficiary"], json!(ben), "beneficiary");
                            let l = q(json!({"list_gas_for_domains": {"offset": null, "limit": 30, "order": "asc"}}));
                            ensure!(nothing(l.clone()), "gas settings of a new paymaster: {l:?}");
                            let u = ch.user("somebody");
                            let p = q(json!({"quote_gas_payment": {"dest_domain": 7, "gas_amount": "1"}}));
                            ensure!(p.is_err(), "a new paymaster quotes {p:?}");
                            // claims go to the beneficiary, in the gas token
                            let mut x = ch.clone();
                            x.fund(c, den, 77);
                            x.fund(c, "other", 5);
                            for s in others.iter().chain([&u]) {
                                let k = x.key();
                                let t = x.exec(s, c, &json!({"claim": {}}), &[]);
                                ensure!(!t.ok(), "{s} claims");
                                ensure_eq!(x.key(), k, "state after a refused claim");
                            }
                            let had = x.bal(&ben, den);
                            call(&mut x, &ben, c, json!({"claim": {}}))?;
                            if ben != c {
                                ensure_eq!(x.bal(&ben, den), had + 77, "claimed");
                                ensure_eq!(x.bal(c, den), 0, "left");
                                ensure_eq!(x.bal(c, "other"), 5, "other coins");
                            }
                            // priced in the gas token with the default gas
                            Ok(())
                        }),
                    );
                }
            }
        }
        // ---- lists
        let hooks: Vec<Vec<usize>> = vec![vec![0], vec![3], vec![0, 1], vec![2, 1, 0], vec![3, 0, 2, 1]];
        for l in &hooks {
            let l: Vec<String> = l.iter().map(|i| w.hooks[*i].clone()).collect();
            add(
                "hook_aggregate",
                format!("{} hooks", l.len()),
                json!({"owner": o, "hooks": l}),
                Box::new(move |_, ch, c| {
                    let q = ch.query(c, &json!({"aggregate_hook": {"hooks": {}}}))?;
                    ensure_eq!(q["hooks"], json!(l), "members");
                    let mut x = ch.clone();
                    let u = x.user("somebody");
                    let m = sample(7).enc();
                    let t = ok(x.exec(&u, c, &post_dispatch(b"m", &m), &[]), "post dispatch")?;
                    let called: Vec<String> = t.calls().into_iter().filter(|k| k.0 == c).map(|k| k.1).collect();
                    ensure_eq!(called, l, "members called");
                    Ok(())
                }),
            );
        }
        for n in 1..=4usize {
            for t in 1..=n {
                for good in 0..(1u32 << n) {
                    if *o != o0 && (good != 1 || t != 1) {
                        continue;
                    }
                    let l: Vec<String> = (0..n)
                        .map(|i| if good >> i & 1 == 1 { w.yes[i].clone() } else { w.no[i].clone() })
                        .collect();
                    add(
                        "ism_aggregate",
                        format!("{t} of {n}, {good:b} accept"),
                        json!({"owner": o, "isms": l, "threshold": t}),
                        Box::new(move |_, ch, c| {
                            let q = ch.query(c, &json!({"aggregate_ism": {"isms": {}}}))?;
                            ensure_eq!(q["isms"], json!(l), "members");
                            ensure_eq!(q["threshold"], json!(t), "threshold");
                            let mut meta = vec![];
                            for i in 0..n {
                                for b in [8 * n + i, 8 * n + i + 1] {
                                    meta.extend((b as u32).to_be_bytes());
                                }
                            }
                            meta.extend(vec![1; n]);
                            let ok = good.count_ones() as usize >= t;
                            ensure_eq!(verdict(ch, c, &meta, &sample(7).enc()), ok, "verdict");
                            Ok(())
                        }),
                    );
                }
            }
        }
        let routes: Vec<Vec<(u32, usize)>> = vec![
            vec![],
            vec![(0, 0)],
            vec![(7, 0), (u32::MAX, 1)],
            vec![(7, 0), (7, 1)],
            vec![(7, 1), (1, 0), (7, 2), (1, 3), (0, 1), (7, 0)],
            (0..40).map(|i| (i * 3, i as usize % 4)).collect(),
        ];
        for l in &routes {
            let want: BTreeMap<u32, String> = l.iter().map(|(d, i)| (*d, w.yes[*i].clone())).collect();
            let isms: Vec<Value> = l.iter().map(|(d, i)| json!({"domain": d, "address": w.yes[*i]})).collect();
            add(
                "ism_routing",
                format!("{} modules", l.len()),
                json!({"owner": o, "isms": isms}),
                Box::new(move |_, ch, c| {
                    for d in want.keys().chain(&ASKED) {
                        let m = sample(*d).enc();
                        let r = ch.query(c, &json!({"routing_ism": {"route": {"message": hx(&m)}}}));
                        match want.get(d) {
                            Some(a) => {
                                ensure_eq!(r?["ism"], json!(a), "module of {d}");
                                ensure!(verdict(ch, c, &[1], &m), "message from {d} refused");
                            }
                            None => {
                                ensure!(nothing(r.clone()), "module of {d}: {r:?}");
                                ensure!(!verdict(ch, c, &[1], &m), "message from {d} accepted");
                            }
                        }
                    }
                    Ok(())
                }),
            );
        }
        // ---- warp routes
        let own = o.clone();
        let conn = move |w: &World, ch: &Chain, c: &str, mb: &str| -> Res<()> {
            let q = |x: &str| ch.query(c, &json!({"connection": {x: {}}}));
            // the query may say nothing before a mailbox is set; the one named is used all the same
            let r = q("get_mailbox")?["mailbox"].clone();
            ensure!(r.is_null() || r == json!(mb), "mailbox of a new route: {r}");
            for x in ["get_hook", "get_ism"] {
                let r = q(x);
                ensure!(nothing(r.clone()), "{x} of a new route: {r:?}");
            }
            let r = ch.query(c, &json!({"ism_specifier": {"interchain_security_module": []}}));
            ensure!(nothing(r.clone()), "module of a new route: {r:?}");
            no_routes(ch, c)?;
            // with something to release and a router, the mailbox named is the one listened to
            let mut x = ch.clone();
            let q = x.query(c, &json!({"token_default": {"token_type": {}}}))?;
            if let Some(d) = q["type"]["native"]["fungible"]["denom"].as_str() {
                x.fund(c, d, 5);
            } else if q["type"]["c_w20"]["contract"] == json!(w.token) {
                call(&mut x, &w.holder, &w.token, json!({"transfer": {"recipient": c, "amount": "5"}}))?;
            }
            call(&mut x, &own, c, enroll(7, Some(&fill32("r7"))))?;
            let m = handle_msg(7, &fill32("r7"), &body(&self_h256(&x.user("alice")), &u256(5), &[]));
            let mut others = vec![own.clone(), x.user("deployer"), x.user("somebody"), w.hooks[0].clone(), w.token.clone()];
            others.push(c.to_string());
            others.push(if mb == w.mb { w.holder.clone() } else { w.mb.clone() });
            for s in others {
                if s != mb {
                    let k = x.key();
                    ensure!(!x.exec(&s, c, &m, &[]).ok(), "a delivery by {s} is honoured, the mailbox is {mb}");
                    ensure_eq!(x.key(), k, "state after a refused delivery");
                }
            }
            call(&mut x, mb, c, m)?;
            Ok(())
        };
        for mb in [&w.mb, &who[2], &who[3]] {
            for den in ["uatom", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "factory/x/y"] {
                let (m, conn) = (mb.clone(), conn.clone());
                add(
                    "warp_native",
                    format!("collateral {den}"),
                    json!({"token": {"collateral": {"denom": den}}, "hrp": hrp, "owner": o, "mailbox": mb}),
                    Box::new(move |w, ch, c| {
                        conn(w, ch, c, &m)?;
                        let q = ch.query(c, &json!({"token_default": {"token_type": {}}}))?;
                        ensure_eq!(q["type"], json!({"native": {"fungible": {"denom": den}}}), "token");
                        let q = ch.query(c, &json!({"token_default": {"token_mode": {}}}))?;
                        ensure_eq!(q["mode"], json!("collateral"), "mode");
                        ensure_eq!(ch.denoms, w.ch.denoms, "denominations");
                        ensure!(ch.balances(c).is_empty(), "a new route holds coins");
                        Ok(())
                    }),
                );
            }
            // units (0: no metadata, otherwise one more than there are), texts: 0 empty, 1 usual, 2 unusual
            let mut shapes: Vec<(&str, usize, [u8; 5])> = vec![];
            for sub in ["uwarp", "a", "x123456789012345678901234567890123456789012"] {
                shapes.extend((0..4).map(|n| (sub, n, [1; 5])));
            }
            if *mb == w.mb {
                // the chain accepts no other base than the denomination itself
                for i in 0..3usize.pow(4) {
                    let mut t: [u8; 5] = std::array::from_fn(|k| (i / 3usize.pow(k as u32) % 3) as u8);
                    t[4] = t[1];
                    t[1] = 1;
                    shapes.extend([("uwarp", 1 + i % 6, t), ("uwarp", 1 + (i / 6 + 3) % 6, t)]);
                }
            }
            {
                for (sub, units, text) in shapes {
                    let (m, conn) = (mb.clone(), conn.clone());
                    let c0 = w.ch.next_addr();
                    let base = format!("factory/{c0}/{sub}");
                    let meta = (units > 0).then(|| {
                        let u: Vec<Value> = (0..units - 1)
                            .map(|i| {
                                let n = if i == 0 { base.clone() } else if i == 4 { "".to_string() } else { format!("unit{i}") };
                                let al: Vec<String> = (0..i).map(|k| format!("alias{k}")).collect();
                                let e = [0u32, 6, u32::MAX, 18, 1][i].to_string();
                                json!({"denom": n, "exponent": e, "aliases": al})
                            })
                            .collect();
                        let odd = ["ü \"quoted\"\n", "other", "factory/x/y", " ", "0"];
                        let usual = ["about it", base.as_str(), "shown", "the name", "SYM"];
                        let x: Vec<&str> = (0..5).map(|k| ["", usual[k], odd[k]][text[k] as usize]).collect();
                        json!({"description": x[0], "denom_units": u, "base": x[1], "display": x[2],
                            "name": x[3], "symbol": x[4]})
                    });
                    let mut bridged = json!({ "denom": sub });
                    if let Some(x) = &meta {
                        bridged["metadata"] = x.clone();
                    }
                    add(
                        "warp_native",
                        format!("synthetic {sub}, {units}, {text:?}"),
                        json!({"token": {"bridged": bridged}, "hrp": hrp, "owner": o, "mailbox": mb}),
                        Box::new(move |w, ch, c| {
                            conn(w, ch, c, &m)?;
                            let den = format!("factory/{c}/{sub}");
                            let q = ch.query(c, &json!({"token_default": {"token_type": {}}}))?;
                            ensure_eq!(q["type"], json!({"native": {"fungible": {"denom": den}}}), "token");
                            let q = ch.query(c, &json!({"token_default": {"token_mode": {}}}))?;
                            ensure_eq!(q["mode"], json!("bridged"), "mode");
                            let mut want = (*w.ch.denoms).clone();
                            want.insert(den.clone(), c.to_string());
                            ensure_eq!(*ch.denoms, want, "denominations and their admins");
                            ensure_eq!(ch.supply(&den), 0, "supply");
                            let got = ch.meta.get(&den).map(|p| {
                                let u: Vec<Value> = p
                                    .denom_units
                                    .iter()
                                    .map(|u| json!({"denom": u.denom, "exponent": u.exponent.to_string(), "aliases": u.aliases}))
                                    .collect();
                                json!({"description": p.description, "denom_units": u, "base": p.base,
                                    "display": p.display, "name": p.name, "symbol": p.symbol})
                            });
                            ensure_eq!(got, meta, "metadata");
                            ensure_eq!(ch.meta.len(), meta.is_some() as usize, "denominations with metadata");
                            Ok(())
                        }),
                    );
                }
            }
            let (m, conn1) = (mb.clone(), conn.clone());
            add(
                "warp_cw20",
                "collateral".into(),
                json!({"token": {"collateral": {"address": w.token}}, "hrp": hrp, "owner": o, "mailbox": mb}),
                Box::new(move |w, ch, c| {
                    conn1(w, ch, c, &m)?;
                    let q = ch.query(c, &json!({"token_default": {"token_type": {}}}))?;
                    ensure_eq!(q["type"], json!({"c_w20": {"contract": w.token}}), "token");
                    let q = ch.query(c, &json!({"token_default": {"token_mode": {}}}))?;
                    ensure_eq!(q["mode"], json!("collateral"), "mode");
                    ensure_eq!(ch.contracts.len(), w.ch.contracts.len() + 1, "contracts");
                    Ok(())
                }),
            );
            for (i, mint) in [
                json!(null),
                json!({"minter": who[1], "cap": null}),
                json!({"minter": who[1], "cap": "5"}),
                json!({"minter": o, "cap": "340282366920938463463374607431768211455"}),
                json!({"minter": "nobody at all", "cap": "0"}),
            ]
            .into_iter()
            .enumerate()
            {
                for dec in [0u8, 6, 18] {
                    let (m, conn) = (mb.clone(), conn.clone());
                    let mut im = json!({"name": "warped", "symbol": "WARP", "decimals": dec, "initial_balances": []});
                    if i != 0 || dec == 0 {
                        im["mint"] = mint.clone();
                    }
                    if dec == 18 {
                        im["marketing"] = json!({"project": "p", "description": "d", "marketing": null, "logo": null});
                    }
                    add(
                        "warp_cw20",
                        format!("synthetic, {dec} decimals, minter {mint}"),
                        json!({"token": {"bridged": {"code_id": 1, "init_msg": im}}, "hrp": hrp, "owner": o, "mailbox": mb}),
                        Box::new(move |w, ch, c| {
                            conn(w, ch, c, &m)?;
                            let q = ch.query(c, &json!({"token_default": {"token_type": {}}}))?;
                            let t = str_of(&q["type"]["c_w20"], "contract");
                            ensure!(!w.ch.contracts.contains_key(t.as_str()) && t != c, "token {t} is not a new one");
                            ensure_eq!(ch.contracts.len(), w.ch.contracts.len() + 2, "contracts");
                            let k = &ch.contracts[t.as_str()];
                            ensure_eq!(k.code.name(), "cw20", "code of the token");
                            ensure!(
                                k.admin.as_deref().map_or(true, |a| a == c),
                                "{:?} can replace the token's code",
                                k.admin
                            );
                            let q = ch.query(c, &json!({"token_default": {"token_mode": {}}}))?;
                            ensure_eq!(q["mode"], json!("bridged"), "mode");
                            let q = ch.query(&t, &json!({"minter": {}}))?;
                            ensure_eq!(q["minter"], json!(c), "minter");
                            ensure!(q["cap"].is_null(), "cap {}", q["cap"]);
                            let q = ch.query(&t, &json!({"token_info": {}}))?;
                            ensure_eq!(
                                q,
                                json!({"name": "warped", "symbol": "WARP", "decimals": dec, "total_supply": "0"}),
                                "token"
                            );
                            Ok(())
                        }),
                    );
                }
            }
        }
    }
    // ---- without owner
    let mb = w.mb.clone();
    add(
        "hook_merkle",
        "empty".into(),
        json!({ "mailbox": mb }),
        Box::new(move |w, ch, c| {
            let q = |x: &str| ch.query(c, &json!({"merkle_hook": {x: {}}}));
            ensure_eq!(q("count")?["count"], json!(0), "count");
            // the root of the empty tree
            let mut z = [0u8; 32];
            for _ in 0..32 {
                z = keccak(&[z, z].concat());
            }
            ensure_eq!(q("root")?["root"], json!(hx(&z)), "root");
            let v = ch.query(c, &json!({"hook": {"mailbox": {}}}))?;
            ensure_eq!(v["mailbox"], json!(w.mb), "mailbox");
            let mut x = ch.clone();
            let u = x.user("somebody");
            let t = x.exec(&u, c, &post_dispatch(&[], &sample(7).enc()), &[]);
            ensure!(!t.ok(), "a message which was not dispatched is inserted");
            Ok(())
        }),
    );
    add(
        "va",
        "empty".into(),
        json!({"hrp": hrp, "mailbox": w.mb}),
        Box::new(move |w, ch, c| {
            ensure_eq!(ch.query(c, &json!({"get_announced_validators": {}}))?["validators"], json!([]), "validators");
            let v = ch.query(c, &json!({"mailbox": {}}))?;
            ensure_eq!(v["mailbox"], json!(hx(&self_h256(&w.mb))), "mailbox");
            let d = ch.query(&w.mb, &json!({"mailbox": {"local_domain": {}}}))?["local_domain"].as_u64().unwrap_or(0) as u32;
            let v = ch.query(c, &json!({"local_domain": {}}))?;
            ensure_eq!(v["local_domain"], json!(d), "domain");
            let k = Key::new("v");
            for (dd, mm, good) in [
                (d, self_h256(&w.mb), true),
                (d ^ 1, self_h256(&w.mb), false),
                (d ^ 0x0100_0000, self_h256(&w.mb), false),
                (d, self_h256(&w.hooks[0]), false),
            ] {
                let mut b = dd.to_be_bytes().to_vec();
                b.extend(mm);
                b.extend(b"HYPERLANE_ANNOUNCEMENT");
                let mut b = keccak(&b).to_vec();
                b.extend(b"s3://x");
                let sig = k.sign(&eth_hash(&keccak(&b)));
                let mut x = ch.clone();
                let u = x.user("somebody");
                let m = json!({"announce": {"validator": hx(&k.addr), "storage_location": "s3://x", "signature": hx(&sig)}});
                let t = x.exec(&u, c, &m, &[]);
                ensure_eq!(t.ok(), good, "announcement for domain {dd} ({})", t.err());
            }
            Ok(())
        }),
    );
    v
}

fn owned(w: &World, ch: &Chain, c: &str, code: &'static str, owner: &str, creator: &str) -> Res<()> {
    let q = |x: &str| {
        let g = if code == "igp_oracle" { "ownable" } else { "ownable" };
        ch.query(c, &json!({g: {x: {}}}))
    };
    ensure_eq!(q("get_owner")?["owner"], json!(owner), "owner");
    let p = q("get_pending_owner");
    ensure!(nothing(p.clone()), "pending owner of a new contract: {p:?}");
    let mut others: BTreeSet<String> = accounts(ch).into_iter().collect();
    others.extend(w.yes.iter().chain(&w.hooks).cloned());
    others.extend([creator.to_string(), w.mb.clone(), w.token.clone(), w.holder.clone(), c.to_string()]);
    others.remove(owner);
    let heir = ch.user("heir");
    for o in &others {
        for m in [nominate(code, o), nominate(code, &heir), claim(code), revoke(code)] {
            let mut x = ch.clone();
            let t = x.exec(o, c, &m, &[]);
            ensure!(!t.ok(), "{o} does {m} although {owner} is the owner");
        }
    }
    let mut x = ch.clone();
    ensure!(!x.exec(owner, c, &claim(code), &[]).ok(), "claimed without a nomination");
    call(&mut x, owner, c, nominate(code, &heir))?;
    call(&mut x, &heir, c, claim(code))?;
    let v = x.query(c, &json!({"ownable": {"get_owner": {}}}))?;
    ensure_eq!(v["owner"], json!(heir), "owner after a handover");
    Ok(())
}

/// strings which are not addresses of the chain
fn bad(hrp: &str, good: &str) -> Vec<String> {
    let raw = crate::chain::unb32(good).map(|x| x.1).unwrap_or_default();
    let other = if hrp == "cosmos" { "osmo" } else { "cosmos" };
    let mut v = vec![
        "".to_string(),
        " ".into(),
        "nonsense".into(),
        hrp.to_string(),
        format!("{hrp}1"),
        format!("{hrp}1nonsense"),
        good.to_uppercase(),
        format!(" {good}"),
        format!("{good} "),
        format!("{good}\n"),
        format!("{good},{good}"),
        format!("{good}q"),
        format!("{hrp}{good}"),
        b32(other, &raw),
        b32(if hrp.len() > 1 { &hrp[1..] } else { "b" }, &raw),
        b32(&format!("{hrp}x"), &raw),
        b32(hrp, &[]),
        b32(hrp, &raw[..19]),
        b32(hrp, &[raw.as_slice(), &[1]].concat()),
        b32(hrp, &[0; 64]),
        hx(&raw),
        format!("0x{}", hx(&raw)),
    ];
    for cut in [1, 6, 8] {
        v.push(good[..good.len() - cut].to_string());
    }
    // every character changed
    for i in 0..good.len() {
        let mut b = good.as_bytes().to_vec();
        b[i] = if b[i] == b'q' { b'p' } else { b'q' };
        v.push(String::from_utf8(b).unwrap());
    }
    let mut first = good.to_string();
    first[..1].make_ascii_uppercase();
    v.push(first);
    v.retain(|x| x != good);
    v
}
/// places of the addresses in a creation message
fn places(v: &Value, hrp: &str, at: &str, out: &mut Vec<String>) {
    match v {
        Value::String(s) => {
            if crate::chain::unb32(s).is_ok_and(|(h, _)| h == hrp) {
                out.push(at.to_string());
            }
        }
        Value::Array(l) => {
            for (i, x) in l.iter().enumerate() {
                places(x, hrp, &format!("{at}/{i}"), out);
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                // the minter named for a synthetic token is replaced in any case
                if k != "init_msg" {
                    places(x, hrp, &format!("{at}/{k}"), out);
                }
            }
        }
        _ => {}
    }
}

fn unchanged(a: &Chain, b: &Chain, except: &str) -> Res<()> {
    for (x, _) in a.contracts.iter() {
        ensure!(**x == *except || a.store_key(x) == b.store_key(x), "the creation changed contract {x}");
    }
    ensure_eq!(a.bank_view(), b.bank_view(), "balances");
    Ok(())
}

pub fn a05(c: &mut Ctx) {
    c.assume("a prefix is lower case letters; a creation without coins attached; synthetic denominations of at most 44 characters");
    let worlds: Vec<(&'static str, u32)> = if c.thorough() {
        vec![("osmo", LOCAL), ("inj", 0), ("kujira", u32::MAX), ("a", 1)]
    } else {
        vec![("osmo", LOCAL), ("inj", 0)]
    };
    for (hrp, domain) in worlds {
        let w = c.setup(|| world(hrp, domain));
        let l = list(&w);
        let creators: Vec<String> = vec![w.ch.user("deployer"), w.ch.user("owner"), b32(hrp, &fill("o", 32)), w.mb.clone()];
        let mut v = vec![];
        for (i, m) in l.iter().enumerate() {
            for k in 0..creators.len() {
                v.push((i, m.code, m.what.clone(), k));
            }
        }
        let codes: Vec<&'static str> = l.iter().map(|m| m.code).collect::<BTreeSet<_>>().into_iter().collect();
        c.cases(
            &format!("creations on {hrp}"),
            move || world(hrp, domain),
            v,
            &codes,
            |w: &World, (i, code, _, k), cov: &mut Cov| {
                let m = &l[*i];
                let mut ch = w.ch.clone();
                let a = inst(&mut ch, m.code, &creators[*k], m.init.clone())?;
                if let Some(o) = &m.owner {
                    owned(w, &ch, &a, m.code, o, &creators[*k])?;
                }
                (m.test)(w, &ch, &a)?;
                unchanged(&w.ch, &ch, "")?;
                cov.hit(code);
                Ok(ch.key() ^ dig(&(i, k)))
            },
        );
        // one address is none
        let mut v: Vec<(usize, String, usize)> = vec![];
        let mut seen = BTreeSet::new();
        for (i, m) in l.iter().enumerate() {
            let mut p = vec![];
            places(&m.init, hrp, "", &mut p);
            // one creation of every shape
            let shape = (m.code, p.clone(), m.init.pointer("/token/bridged").is_some());
            if !seen.insert(shape) {
                continue;
            }
            for at in p {
                let n = bad(hrp, m.init.pointer(&at).unwrap().as_str().unwrap()).len();
                for b in 0..n {
                    v.push((i, at.clone(), b));
                }
            }
        }
        c.cases(
            &format!("creations with a bad address on {hrp}"),
            move || world(hrp, domain),
            v,
            &["refused"],
            |w: &World, (i, at, b), cov: &mut Cov| {
                let m = &l[*i];
                let mut init = m.init.clone();
                let x = init.pointer_mut(at).unwrap();
                let s = bad(hrp, x.as_str().unwrap())[*b].clone();
                *x = json!(s);
                let mut ch = w.ch.clone();
                let u = ch.user("deployer");
                let r = ch.instantiate(m.code, &u, &init);
                ensure!(r.is_err(), "{} created with {at} = {s:?}", m.code);
                ensure_eq!(ch.key(), w.ch.key(), "state after a refused creation");
                cov.hit("refused");
                Ok(dig(&(i, at, b)))
            },
        );
    }
    // values out of range
    let mut v: Vec<(&'static str, Value)> = vec![];
    let w = c.setup(|| world("osmo", LOCAL));
    let o = w.ch.user("owner");
    for h in ["Osmo", "osmO", "OSMO", "oSmo", "O"] {
        v.push(("mailbox", json!({"hrp": h, "owner": o, "domain": 1})));
        v.push(("igp", json!({"hrp": h, "owner": o, "gas_token": "uosmo", "beneficiary": o, "default_gas_usage": "1"})));
    }
    for n in 0..=4usize {
        for t in [0usize, n + 1, n + 2, 128, 255] {
            if t == 0 || t > n {
                v.push(("ism_aggregate", json!({"owner": o, "isms": w.yes[..n], "threshold": t})));
            }
        }
    }
    // 256 and more members: the threshold has one byte
    for x in [&w.hooks[0], &w.token, &w.holder] {
        v.push(("va", json!({"hrp": "osmo", "mailbox": x})));
    }
    c.cases(
        "creations with values out of range",
        || world("osmo", LOCAL),
        v,
        &["refused"],
        |w: &World, (code, init), cov: &mut Cov| {
            let mut ch = w.ch.clone();
            let u = ch.user("deployer");
            let r = ch.instantiate(code, &u, init);
            ensure!(r.is_err(), "{code} created with {init}");
            ensure_eq!(ch.key(), w.ch.key(), "state after a refused creation");
            cov.hit("refused");
            Ok(dig(&(code, init)))
        },
    );
    // several contracts of one kind on one chain do not share anything
    let l = list(&w);
    let mut v = vec![];
    let mut firsts: Vec<usize> = vec![];
    let mut per: BTreeMap<&str, usize> = BTreeMap::new();
    for (i, m) in l.iter().enumerate() {
        let n = per.entry(m.code).or_default();
        *n += 1;
        if *n <= 3 && !m.what.starts_with("synthetic uwarp, ") {
            firsts.push(i);
        }
    }
    for a in &firsts {
        for b in &firsts {
            if l[*a].code == l[*b].code {
                v.push((*a, *b));
            }
        }
    }
    c.cases(
        "two contracts of one kind",
        || world("osmo", LOCAL),
        v,
        &["created"],
        |w: &World, (i, j), cov: &mut Cov| {
            let mut ch = w.ch.clone();
            let u = ch.user("deployer");
            let a = inst(&mut ch, l[*i].code, &u, l[*i].init.clone())?;
            let mid = World {
                ch: ch.clone(),
                ..w.clone()
            };
            let b = inst(&mut ch, l[*j].code, &u, l[*j].init.clone())?;
            ensure!(a != b, "one address for two contracts");
            unchanged(&mid.ch, &ch, "")?;
            for (k, x) in [(i, &a), (j, &b)] {
                if let Some(o) = &l[*k].owner {
                    owned(w, &ch, x, l[*k].code, o, &u)?;
                }
            }
            (l[*j].test)(&mid, &ch, &b)?;
            cov.hit("created");
            Ok(ch.key())
        },
    );
}
