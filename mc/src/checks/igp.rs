//! G01–G03: gas paymaster and gas oracle
use crate::chain::{b32, h256, Chain, Coins};
use crate::explore::{Cov, CovExt, Ctx, Model, Res, Step};
use crate::util::*;
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::collections::BTreeMap;

// ------------------------------------------------------------ arithmetic
// schoolbook arithmetic on base-2^16 limbs, little endian

pub type Big = Vec<u64>;
fn big(mut v: u128) -> Big {
    let mut o = vec![];
    while v > 0 {
        o.push((v & 0xffff) as u64);
        v >>= 16;
    }
    o
}
fn big_be(b: &[u8]) -> Big {
    let mut o: Big = b
        .rchunks(2)
        .map(|c| c.iter().fold(0u64, |a, x| a << 8 | *x as u64))
        .collect();
    while o.last() == Some(&0) {
        o.pop();
    }
    o
}
fn mul(a: &Big, b: &Big) -> Big {
    let mut o = vec![0u64; a.len() + b.len() + 1];
    for (i, x) in a.iter().enumerate() {
        let mut c = 0;
        for (j, y) in b.iter().enumerate() {
            let t = o[i + j] + x * y + c;
            o[i + j] = t & 0xffff;
            c = t >> 16;
        }
        let mut k = i + b.len();
        while c > 0 {
            let t = o[k] + c;
            o[k] = t & 0xffff;
            c = t >> 16;
            k += 1;
        }
    }
    while o.last() == Some(&0) {
        o.pop();
    }
    o
}
fn div_small(a: &Big, d: u64) -> Big {
    let mut o = vec![0; a.len()];
    let mut r: u128 = 0;
    for i in (0..a.len()).rev() {
        let t = r << 16 | a[i] as u128;
        o[i] = (t / d as u128) as u64;
        r = t % d as u128;
    }
    while o.last() == Some(&0) {
        o.pop();
    }
    o
}
fn dec(a: &Big) -> String {
    let mut a = a.clone();
    let mut s = vec![];
    while !a.is_empty() {
        let q = div_small(&a, 10);
        // remainder
        let m = a.first().copied().unwrap_or(0) as i64 - (mul(&q, &big(10)).first().copied().unwrap_or(0)) as i64;
        s.push(b'0' + m.rem_euclid(65536) as u8);
        a = q;
    }
    if s.is_empty() {
        s.push(b'0');
    }
    s.reverse();
    String::from_utf8(s).unwrap()
}
pub fn to_u128(a: &Big) -> Option<u128> {
    if a.len() > 8 {
        return None;
    }
    Some(a.iter().rev().fold(0u128, |x, l| x << 16 | *l as u128))
}
/// gas x price x rate / 10^10, rounded down
pub fn ref_price(gas: &[u8; 32], price: u128, rate: u128) -> Big {
    div_small(
        &mul(&mul(&big_be(gas), &big(price)), &big(rate)),
        10_000_000_000,
    )
}

// ------------------------------------------------------------ deployment

const DEST: u32 = 0x0a0b_0c0d;
const ME: u32 = 0x0101_0203;

pub fn igp(ch: &mut Chain, owner: &str, token: &str, ben: &str, default: u128) -> Res<String> {
    let hrp = ch.hrp.to_string();
    inst(
        ch,
        "igp",
        owner,
        json!({"hrp": hrp, "owner": owner, "gas_token": token, "beneficiary": ben,
            "default_gas_usage": default.to_string()}),
    )
}
pub fn oracle(ch: &mut Chain, owner: &str) -> Res<String> {
    inst(ch, "igp_oracle", owner, json!({"owner": owner}))
}
fn data(d: u32, price: u128, rate: u128) -> Value {
    json!({"remote_domain": d, "token_exchange_rate": rate.to_string(), "gas_price": price.to_string()})
}
pub fn set_data(ch: &mut Chain, owner: &str, o: &str, d: u32, price: u128, rate: u128) -> Res<()> {
    call(ch, owner, o, json!({"set_remote_gas_data": {"config": data(d, price, rate)}})).map(|_| ())
}
pub fn set_route(d: u32, o: Option<&str>) -> Value {
    json!({"router": {"set_route": {"set": {"domain": d, "route": o}}}})
}
fn quote_gas(ch: &Chain, igp: &str, d: u32, gas: &[u8; 32]) -> Result<String, String> {
    let v = ch.query(
        igp,
        &json!({"igp": {"quote_gas_payment": {"dest_domain": d, "gas_amount": dec(&big_be(gas))}}}),
    )?;
    Ok(str_of(&v, "gas_needed"))
}
fn gmsg(dest: u32, sender: [u8; 32]) -> Msg {
    Msg {
        version: 3,
        nonce: 9,
        origin: ME,
        sender,
        dest,
        recipient: fill32("recipient"),
        body: b"gas".to_vec(),
    }
}

/// where the excess goes and how much gas is meant by `meta`
pub fn ref_meta(hrp: &str, meta: &[u8], sender: &[u8; 32], configured: u128) -> ([u8; 32], String) {
    let to_sender = addr_of(hrp, sender);
    if meta.len() < 32 {
        return (u256(configured), to_sender);
    }
    let gas: [u8; 32] = meta[..32].try_into().unwrap();
    let rest = &meta[32..];
    let to = match rest.len() {
        20 => b32(hrp, rest),
        32 => addr_of(hrp, rest.try_into().unwrap()),
        _ => to_sender,
    };
    (gas, to)
}

/// one payment through `m` with `funds`, price `p`, excess to `to`
#[allow(clippy::too_many_arguments)]
pub fn pay(
    ch: &Chain,
    igp: &str,
    token: &str,
    who: &str,
    m: &Value,
    funds: &Coins,
    p: Option<u128>,
    to: &str,
    cov: &mut Cov,
) -> Res<bool> {
    let mut c2 = ch.clone();
    let t = try_call(&mut c2, who, igp, m, funds);
    let attached = match funds.as_slice() {
        [] => Some(0),
        [(d, a)] if d == token => Some(*a),
        _ => None,
    };
    let want = matches!((attached, p), (Some(a), Some(p)) if a >= p);
    ensure_eq!(
        t.ok(),
        want,
        "payment of {funds:?} for a price of {p:?} {token} ({})",
        t.err()
    );
    if !want {
        ensure_eq!(c2.key(), ch.key(), "state after a refused payment");
        cov.hit(if p.is_none() { "no price" } else { "refused" });
        return Ok(false);
    }
    let (a, p) = (attached.unwrap(), p.unwrap());
    // changes as (plus, minus), to cover the whole 128-bit range
    let mut exp: BTreeMap<(String, String), u128> = ch.bank_view();
    let mut mv = |f: &str, g: &str, n: u128| {
        *exp.entry((f.into(), token.into())).or_default() -= n;
        *exp.entry((g.into(), token.into())).or_default() += n;
    };
    mv(who, igp, a);
    mv(igp, to, a - p);
    exp.retain(|_, v| *v > 0);
    ensure_eq!(c2.bank_view(), exp, "balances after paying {a} for {p}, refund to {to}");
    ensure_eq!(c2.store_key(igp), ch.store_key(igp), "stored state");
    cov.hit(if p == 0 { "free" } else { "paid" });
    if a > p {
        cov.hit("refunded");
    }
    Ok(true)
}

// ------------------------------------------------------------ G01

#[derive(Clone, Debug)]
struct K1 {
    gas: [u8; 32],
    price: u128,
    rate: u128,
}
/// the payer's funds: with everything else on the chain below 2^128
const TOP: u128 = u128::MAX - 100;
const TOKEN: &str = "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2";

#[derive(Clone)]
struct W1 {
    ch: Chain,
    igp: String,
    or: String,
    owner: String,
}
fn world1(token: &str, held: u128) -> Res<W1> {
    let mut ch = Chain::new("osmo");
    let owner = ch.user("owner");
    let ben = ch.user("beneficiary");
    ch.fund(&ben, token, 1);
    let igp = igp(&mut ch, &owner, token, &ben, 50)?;
    let or = oracle(&mut ch, &owner)?;
    // another oracle with other data for the same destination and one on a near destination
    let other = oracle(&mut ch, &owner)?;
    set_data(&mut ch, &owner, &other, DEST, 999, 77_000_000_000)?;
    set_data(&mut ch, &owner, &other, DEST ^ 1, 998, 78_000_000_000)?;
    set_data(&mut ch, &owner, &or, DEST ^ 1, 997, 79_000_000_000)?;
    call(&mut ch, &owner, &igp, set_route(DEST, Some(&or)))?;
    call(&mut ch, &owner, &igp, set_route(DEST ^ 1, Some(&other)))?;
    if held > 0 {
        ch.fund(&igp, token, held);
        ch.fund(&igp, "other", 5);
    }
    Ok(W1 { ch, igp, or, owner })
}

/// agreement of the three prices, and payments around the price
fn g01_amount(w: &W1, k: &K1, cov: &mut Cov) -> Res<u128> {
    let mut ch = w.ch.clone();
    set_data(&mut ch, &w.owner, &w.or, DEST, k.price, k.rate)?;
    let p = ref_price(&k.gas, k.price, k.rate);
    let p128 = to_u128(&p);
    let al = ch.user("alice");
    ch.fund(&al, TOKEN, TOP);
    ch.fund(&al, "b", 100);
    let q = quote_gas(&ch, &w.igp, DEST, &k.gas);
    match p128 {
        Some(x) => {
            ensure_eq!(q, Ok(x.to_string()), "payment quote");
            cov.hit("price");
        }
        None => {
            // may be answered (exactly) or refused
            if let Ok(v) = &q {
                ensure_eq!(*v, dec(&p), "payment quote of a huge price");
            }
            cov.hit("huge");
        }
    }
    let sender = h256(&al);
    let m = gmsg(DEST, sender).enc();
    let meta = [k.gas.to_vec(), fill("refund", 20)].concat();
    let hq = hook_quote(&ch, &w.igp, &meta, &m);
    match p128 {
        Some(x) => ensure_eq!(hq?, coins(&[(TOKEN, x)]), "hook quote"),
        None => ensure!(hq.is_err(), "hook quote of a huge price: {hq:?}"),
    }
    let to = b32("osmo", &fill("refund", 20));
    let pfg = json!({"pay_for_gas": {"message_id": hx(&fill32("id")), "dest_domain": DEST,
        "gas_amount": dec(&big_be(&k.gas)), "refund_address": to}});
    let pd = post_dispatch(&meta, &m);
    let mut amounts = vec![0, 1, TOP];
    if let Some(x) = p128 {
        for d in [-2i32, -1, 0, 1, 2] {
            amounts.extend(x.checked_add_signed(d as i128));
        }
        amounts.extend(x.checked_mul(2));
        amounts.push(x & u64::MAX as u128);
        amounts.push(x / 2);
    } else {
        // the price cut to 128 or 64 bits
        amounts.push(to_u128(&p[..8.min(p.len())].to_vec()).unwrap());
        amounts.push(to_u128(&p[..4.min(p.len())].to_vec()).unwrap());
    }
    amounts.retain(|a| *a <= TOP);
    amounts.sort();
    amounts.dedup();
    for a in amounts {
        for msg in [&pfg, &pd] {
            pay(&ch, &w.igp, TOKEN, &al, msg, &coins(&[(TOKEN, a)]), p128, &to, cov)?;
        }
    }
    for f in [coins(&[("b", 7)]), coins(&[("b", 1), (TOKEN, p128.unwrap_or(5).min(1 << 100))])] {
        for msg in [&pfg, &pd] {
            pay(&ch, &w.igp, TOKEN, &al, msg, &f, p128, &to, cov)?;
        }
    }
    Ok(dig(&dec(&p)))
}

#[derive(Clone, Debug)]
struct KM {
    len: usize,
    gas: u128,
    /// leading zero bytes of the refund part
    zeros: usize,
    /// the message sender is a 20-byte account / 32-byte contract / has zero bytes
    sender: u8,
    own_gas: Option<u128>,
    excess: u128,
    hrp: &'static str,
    price0: bool,
    /// refund address: 0 as above, else a special one
    special: u8,
}
fn g01_meta(k: &KM, cov: &mut Cov) -> Res<u128> {
    let mut ch = Chain::new(k.hrp);
    let owner = ch.user("owner");
    let al = ch.user("alice");
    ch.fund(&al, "a", 1_000_000);
    let igp = igp(&mut ch, &owner, "a", &owner, 50)?;
    let or = oracle(&mut ch, &owner)?;
    set_data(&mut ch, &owner, &or, DEST, if k.price0 { 0 } else { 3 }, 20_000_000_000)?;
    call(&mut ch, &owner, &igp, set_route(DEST, Some(&or)))?;
    if let Some(g) = k.own_gas {
        call(&mut ch, &owner, &igp, json!({"set_gas_for_domain": {"config": [[DEST, g.to_string()]]}}))?;
        call(&mut ch, &owner, &igp, json!({"set_gas_for_domain": {"config": [[DEST ^ 1, "5"]]}}))?;
    }
    let sender = match k.sender {
        0 => h256(&al),
        1 => fill32("a contract"),
        2 => {
            let mut s = fill32("short zeros");
            s[..11].fill(0);
            s[11] = 1;
            s
        }
        _ => {
            let mut s = pad32(&fill("zeros inside", 20));
            s[12..15].fill(0);
            s
        }
    };
    let mut meta = u256(k.gas).to_vec();
    let mut rest = fill("refund to", k.len.saturating_sub(32));
    for b in rest.iter_mut().take(k.zeros) {
        *b = 0;
    }
    let n = rest.len();
    match k.special {
        0 => {}
        1 => rest.fill(0),
        2 => rest.fill(0xff),
        3 => rest[n / 2..].fill(0),
        4 => rest[n - 1] = 0,
        s => {
            // an account of the system
            let a = match s {
                5 => h256(&al),
                6 => h256(&igp),
                7 => h256(&owner),
                8 => h256(&or),
                _ => sender,
            };
            rest.copy_from_slice(&a[32 - n..]);
        }
    }
    meta.extend(rest);
    meta.truncate(k.len);
    let (gas, to) = ref_meta(k.hrp, &meta, &sender, k.own_gas.unwrap_or(50));
    let p = to_u128(&ref_price(&gas, if k.price0 { 0 } else { 3 }, 20_000_000_000)).unwrap();
    let m = gmsg(DEST, sender).enc();
    ensure_eq!(hook_quote(&ch, &igp, &meta, &m)?, coins(&[("a", p)]), "hook quote");
    let done = pay(
        &ch,
        &igp,
        "a",
        &al,
        &post_dispatch(&meta, &m),
        &coins(&[("a", p + k.excess)]),
        Some(p),
        &to,
        cov,
    )?;
    if p > 0 {
        pay(
            &ch,
            &igp,
            "a",
            &al,
            &post_dispatch(&meta, &m),
            &coins(&[("a", p - 1)]),
            Some(p),
            &to,
            cov,
        )?;
    }
    cov.hit(if meta.len() < 32 { "configured gas" } else { "gas of the metadata" });
    Ok(dig(&(done, p, to)))
}

fn g01_roles((ben, who, to, sender, free): &(usize, usize, usize, usize, bool), cov: &mut Cov) -> Res<u128> {
    let mut ch = Chain::new("osmo");
    let owner = ch.user("owner");
    let al = ch.user("alice");
    let mb = basic(&mut ch, &owner, ME)?.mb;
    let b = match ben {
        0 => ch.user("beneficiary"),
        1 => owner.clone(),
        _ => al.clone(),
    };
    let i = igp(&mut ch, &owner, "a", &b, 50)?;
    let or = oracle(&mut ch, &owner)?;
    let p = if *free { 0 } else { 42 };
    set_data(&mut ch, &owner, &or, DEST, p, 10_000_000_000 / 21)?;
    call(&mut ch, &owner, &i, set_route(DEST, Some(&or)))?;
    ch.fund(&i, "a", 1000);
    let p = to_u128(&ref_price(&u256(21), p, 10_000_000_000 / 21)).unwrap();
    let part = |k: usize| match k {
        0 => al.clone(),
        1 => owner.clone(),
        2 => b.clone(),
        3 => i.clone(),
        4 => or.clone(),
        5 => mb.clone(),
        6 => addr_of("osmo", &[0; 32]),
        _ => addr_of("osmo", &fill32("somebody")),
    };
    let (who, to, sender) = (part(*who), part(*to), part(*sender));
    if who == i {
        return Ok(0);
    }
    ch.fund(&who, "a", 1_000);
    let m = gmsg(DEST, h256(&sender)).enc();
    let meta = [u256(21).to_vec(), h256(&to).to_vec()].concat();
    // the refund address of the metadata is the whole 32 bytes
    let whole = addr_of("osmo", &h256(&to));
    ensure_eq!(hook_quote(&ch, &i, &meta, &m)?, if p == 0 { vec![] } else { coins(&[("a", p)]) }, "hook quote");
    for n in [0, 1, p.saturating_sub(1), p, p + 1, 2 * p, 900] {
        let f = coins(&[("a", n)]);
        let f = if n == 0 { vec![] } else { f };
        for id in [fill32("id").to_vec(), vec![0; 32], unhx(&hx(&gmsg(DEST, h256(&sender)).id()))] {
            let pfg = json!({"pay_for_gas": {"message_id": hx(&id), "dest_domain": DEST,
                "gas_amount": "21", "refund_address": to}});
            pay(&ch, &i, "a", &who, &pfg, &f, Some(p), &to, cov)?;
        }
        pay(&ch, &i, "a", &who, &post_dispatch(&meta, &m), &f, Some(p), &whole, cov)?;
        // short metadata: the configured gas, refunded to the sender
        let p50 = to_u128(&ref_price(&u256(50), if *free { 0 } else { 42 }, 10_000_000_000 / 21)).unwrap();
        let back = addr_of("osmo", &h256(&sender));
        pay(&ch, &i, "a", &who, &post_dispatch(b"short", &m), &f, Some(p50), &back, cov)?;
    }
    Ok(dig(&(who, to, sender, free)))
}

// histories of routes, oracle data and gas settings
#[derive(Clone, Debug)]
enum A1 {
    Route(usize, Option<usize>),
    Data(usize, usize, usize),
    Gas(usize, usize),
    Unset(usize),
    Default(usize),
}
#[derive(Clone)]
struct S1 {
    ch: Chain,
    igp: String,
    or: [String; 2],
    route: [Option<usize>; 2],
    data: [[Option<usize>; 2]; 2],
    gas: [Option<u128>; 2],
    default: u128,
}
struct M1;
const DATA: [(u128, u128); 3] = [(3, 10_000_000_000), (7, 15_000_000_000), (0, 1)];
const GAS: [u128; 2] = [11, 0];
const DOM: [u32; 2] = [DEST, DEST ^ 0x100];
impl Model for M1 {
    type S = S1;
    type A = A1;
    fn init(&self) -> Res<Vec<(String, S1)>> {
        let mut ch = Chain::new("osmo");
        let owner = ch.user("owner");
        let al = ch.user("alice");
        ch.fund(&al, "a", 10_000);
        let i = igp(&mut ch, &owner, "a", &owner, 20)?;
        let or = [oracle(&mut ch, &owner)?, oracle(&mut ch, &owner)?];
        Ok(vec![(
            "nothing configured".into(),
            S1 {
                ch,
                igp: i,
                or,
                route: [None; 2],
                data: [[None; 2]; 2],
                gas: [None; 2],
                default: 20,
            },
        )])
    }
    fn actions(&self, _: &S1) -> Vec<A1> {
        let mut v = vec![];
        for d in 0..2 {
            for o in [None, Some(0), Some(1)] {
                v.push(A1::Route(d, o));
            }
            for o in 0..2 {
                for x in 0..DATA.len() {
                    v.push(A1::Data(o, d, x));
                }
            }
            v.push(A1::Gas(d, 0));
            v.push(A1::Gas(d, 1));
            v.push(A1::Unset(d));
        }
        v.push(A1::Default(20));
        v.push(A1::Default(40));
        v
    }
    fn key(&self, s: &S1) -> u128 {
        s.ch.key() ^ dig(&(s.route, s.data, s.gas, s.default))
    }
    fn step(&self, s: &S1, a: &A1, cov: &mut Cov) -> Res<Step<S1>> {
        let mut n = s.clone();
        let owner = s.ch.user("owner");
        match a {
            A1::Route(d, o) => {
                call(&mut n.ch, &owner, &s.igp, set_route(DOM[*d], o.map(|o| s.or[o].as_str())))?;
                n.route[*d] = *o;
            }
            A1::Data(o, d, x) => {
                set_data(&mut n.ch, &owner, &s.or[*o], DOM[*d], DATA[*x].0, DATA[*x].1)?;
                n.data[*o][*d] = Some(*x);
            }
            A1::Gas(d, g) => {
                call(
                    &mut n.ch,
                    &owner,
                    &s.igp,
                    json!({"set_gas_for_domain": {"config": [[DOM[*d], GAS[*g].to_string()]]}}),
                )?;
                n.gas[*d] = Some(GAS[*g]);
            }
            A1::Unset(d) => {
                let t = n.ch.exec(&owner, &s.igp, &json!({"unset_gas_for_domain": {"domains": [DOM[*d]]}}), &[]);
                ensure!(t.ok() || s.gas[*d].is_none(), "unset: {}", t.err());
                n.gas[*d] = None;
            }
            A1::Default(g) => {
                call(&mut n.ch, &owner, &s.igp, json!({"set_default_gas": {"gas": g.to_string()}}))?;
                n.default = *g as u128;
            }
        }
        cov.hit("configured");
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S1, cov: &mut Cov) -> Res<()> {
        let al = s.ch.user("alice");
        let to = s.ch.user("bob");
        for d in 0..2 {
            let x = s.route[d].and_then(|o| s.data[o][d]).map(|x| DATA[x]);
            let r = s.ch.query(
                &s.igp,
                &json!({"oracle": {"get_exchange_rate_and_gas_price": {"dest_domain": DOM[d]}}}),
            );
            match x {
                Some((p, e)) => {
                    let r = r?;
                    ensure_eq!(
                        (str_of(&r, "gas_price"), str_of(&r, "exchange_rate")),
                        (p.to_string(), e.to_string()),
                        "oracle data of {}",
                        DOM[d]
                    );
                }
                None => ensure!(r.is_err(), "oracle data of {} without any: {r:?}", DOM[d]),
            }
            let conf = s.gas[d].unwrap_or(s.default);
            for meta in [vec![], u256(13).to_vec()] {
                let g = if meta.is_empty() { conf } else { 13 };
                let p = x.map(|(p, e)| to_u128(&ref_price(&u256(g), p, e)).unwrap());
                let m = gmsg(DOM[d], h256(&to)).enc();
                let hq = hook_quote(&s.ch, &s.igp, &meta, &m);
                let gq = quote_gas(&s.ch, &s.igp, DOM[d], &u256(g));
                match p {
                    Some(p) => {
                        ensure_eq!(hq?, coins(&[("a", p)]), "hook quote");
                        ensure_eq!(gq?, p.to_string(), "payment quote");
                    }
                    None => {
                        ensure!(hq.is_err(), "quote without oracle: {hq:?}");
                        ensure!(gq.is_err(), "quote without oracle: {gq:?}");
                    }
                }
                let pfg = json!({"pay_for_gas": {"message_id": hx(&fill32("id")), "dest_domain": DOM[d],
                    "gas_amount": g.to_string(), "refund_address": to}});
                let mut am = vec![1000];
                if let Some(p) = p {
                    am.push(p);
                    am.extend(p.checked_sub(1));
                }
                for a in am {
                    for k in [&pfg, &post_dispatch(&meta, &m)] {
                        pay(&s.ch, &s.igp, "a", &al, k, &coins(&[("a", a)]), p, &to, cov)?;
                    }
                }
            }
        }
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["configured", "paid", "free", "refunded", "refused", "no price"]
    }
}

pub fn g01(c: &mut Ctx) {
    c.assume("the oracle is the repository's gas oracle; the gas token exists on the chain");
    c.assume("prices of 2^128 and more may be answered exactly or refused by the payment quote, and must be refused by the hook quote and by payments");
    let m = u128::MAX;
    let mut gases: Vec<[u8; 32]> = vec![];
    for g in [0u128, 1, 2, 3, 9, 10, 49, 50, 51, 255, 256, 65535, 65536, 200_000, 9_999_999_999, 10_000_000_000, 10_000_000_001,
        u32::MAX as u128, 1 << 32, u64::MAX as u128, 1 << 64, (1 << 64) + 1, 1 << 100, m - 1, m] {
        gases.push(u256(g));
    }
    for bit in [128usize, 129, 160, 192, 223, 224, 254, 255] {
        let mut g = [0u8; 32];
        g[31 - bit / 8] = 1 << (bit % 8);
        gases.push(g);
        g[31] |= 1;
        gases.push(g);
    }
    gases.push([0xff; 32]);
    let prices = [0u128, 1, 2, 3, 7, 99, 10_000_000_000, u64::MAX as u128, 1 << 64, 1 << 96, m / 2, m - 1, m];
    let rates = [1u128, 2, 3, 9_999_999_999, 10_000_000_000, 10_000_000_001, 15_000_000_000, u64::MAX as u128, 1 << 64, 1 << 94, m - 1, m];
    let mut v = vec![];
    for (i, g) in gases.iter().enumerate() {
        for (j, p) in prices.iter().enumerate() {
            for (k, r) in rates.iter().enumerate() {
                let simple = i < 12 || i % 3 == (j + k) % 3;
                if !c.thorough() && !simple {
                    continue;
                }
                v.push(K1 {
                    gas: *g,
                    price: *p,
                    rate: *r,
                });
            }
        }
    }
    // every small product around the rounding boundary
    for g in 0..c.pick(12u128, 40) {
        for p in 0..c.pick(6u128, 12) {
            for r in [1_000_000_000u128, 3_333_333_333, 3_333_333_334, 5_000_000_000, 9_999_999_999] {
                v.push(K1 {
                    gas: u256(g),
                    price: p,
                    rate: r,
                });
            }
        }
    }
    c.cases(
        "prices and payments over the whole range",
        || world1(TOKEN, 77),
        v,
        &["price", "huge", "paid", "free", "refunded", "refused", "no price"],
        g01_amount,
    );
    // metadata lengths, refund addresses
    let mut v = vec![];
    let mut lens: Vec<usize> = (0..110).collect();
    lens.extend([127, 128, 129, 255, 256, 288, 1000]);
    for len in &lens {
        for sender in 0..4 {
            for excess in [0u128, 1, 500] {
                for own_gas in [None, Some(0), Some(8)] {
                    for (price0, hrp) in [(false, "osmo"), (true, "osmo"), (false, "inj")] {
                        if !c.thorough() && (price0 || hrp != "osmo") && ![0, 31, 32, 52, 64].contains(len) {
                            continue;
                        }
                        if excess == 0 && sender > 0 {
                            continue;
                        }
                        v.push(KM {
                            len: *len,
                            gas: 21,
                            zeros: 0,
                            sender,
                            own_gas,
                            excess,
                            hrp,
                            price0,
                            special: 0,
                        });
                    }
                }
            }
        }
    }
    for len in [52usize, 64] {
        for special in 1..10 {
            for sender in 0..4 {
                for excess in [0u128, 1, 500] {
                    for price0 in [false, true] {
                        v.push(KM {
                            len,
                            gas: 21,
                            zeros: 0,
                            sender,
                            own_gas: None,
                            excess,
                            hrp: "osmo",
                            price0,
                            special,
                        });
                    }
                }
            }
        }
        for zeros in 0..=(len - 32) {
            for gas in [0u128, 21, 255, 256, 65_535] {
                for own_gas in [None, Some(8)] {
                    v.push(KM {
                        len,
                        gas,
                        zeros,
                        sender: 1,
                        own_gas,
                        excess: 9,
                        hrp: "osmo",
                        price0: false,
                        special: 0,
                    });
                }
            }
        }
    }
    c.cases(
        "metadata: gas, refund address, sender",
        || Ok(()),
        v,
        &["paid", "refunded", "refused", "configured gas", "gas of the metadata", "free"],
        |_, k, cov| g01_meta(k, cov),
    );
    // the payer, the one who is refunded and the sender of the message play parts of their own
    let mut v = vec![];
    for ben in 0..3usize {
        for who in 0..8usize {
            for to in 0..8usize {
                for sender in [0usize, 1, 2, 3, 7] {
                    for free in [false, true] {
                        v.push((ben, who, to, sender, free));
                    }
                }
            }
        }
    }
    c.cases(
        "roles of the payer, the refunded and the sender",
        || Ok(()),
        v,
        &["paid", "free", "refunded", "refused"],
        |_, k, cov| g01_roles(k, cov),
    );
    c.run("oracle, route and gas histories", &M1, c.pick(5, 20), 2_000_000);
    // every destination has its own oracle and gas
    c.cases(
        "many destinations",
        || Ok(()),
        vec![0usize, 1],
        &["paid", "no price"],
        |_, order, cov| {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let al = ch.user("alice");
            ch.fund(&al, "a", 1_000_000_000);
            let ig = igp(&mut ch, &owner, "a", &owner, 50)?;
            let ors = [oracle(&mut ch, &owner)?, oracle(&mut ch, &owner)?, oracle(&mut ch, &owner)?];
            let ds = domains(DEST);
            let n = ds.len();
            let mut cur: BTreeMap<u32, (u128, u128)> = BTreeMap::new();
            for (i, d) in ds.iter().enumerate() {
                for (k, o) in ors.iter().enumerate() {
                    set_data(&mut ch, &owner, o, *d, (1 + i * 3 + k) as u128, 10_000_000_000)?;
                }
            }
            for k in 0..2 * n {
                let i = if *order == 0 { k % n } else { (k * 7 + 3) % n };
                let d = ds[i];
                if k < n {
                    call(&mut ch, &owner, &ig, set_route(d, Some(&ors[i % 3])))?;
                    call(
                        &mut ch,
                        &owner,
                        &ig,
                        json!({"set_gas_for_domain": {"config": [[d, (100 + i).to_string()]]}}),
                    )?;
                    cur.insert(d, ((1 + i * 3 + i % 3) as u128, 100 + i as u128));
                } else {
                    call(&mut ch, &owner, &ig, set_route(d, None))?;
                    cur.remove(&d);
                }
                for (j, e) in ds.iter().enumerate() {
                    if (j + k) % 4 != 0 && j != i {
                        continue;
                    }
                    let m = gmsg(*e, h256(&al)).enc();
                    let p = cur.get(e).map(|(a, b)| a * b);
                    let q = hook_quote(&ch, &ig, &[], &m);
                    ensure_eq!(q.ok(), p.map(|p| coins(&[("a", p)])), "quote for {e}");
                    pay(
                        &ch,
                        &ig,
                        "a",
                        &al,
                        &post_dispatch(&[], &m),
                        &coins(&[("a", p.unwrap_or(9) + 1)]),
                        p,
                        &al,
                        cov,
                    )?;
                }
            }
            Ok(ch.key())
        },
    );
}

// ------------------------------------------------------------ G02

#[derive(Clone, Debug)]
enum A2 {
    Default(u8, u128),
    /// caller, entries
    Set(u8, Vec<(usize, u128)>),
    Unset(u8, Vec<usize>),
    Ben(u8, usize),
    BadBen,
    Claim(usize),
    /// alice pays for gas
    Pay(u128),
    Donate,
}
#[derive(Clone)]
struct S2 {
    ch: Chain,
    igp: String,
    default: u128,
    gas: BTreeMap<u32, u128>,
    ben: usize,
}
const WHO: [&str; 4] = ["owner", "mallory", "beneficiary", "second"];
const D2: [u32; 3] = [DEST, 0xffff_ffff, 0];
const SHARED: [u128; 3] = [20, 0, 7];
struct M2 {
    /// few values, which defaults and overrides share
    shared: bool,
}
fn page(ch: &Chain, igp: &str, off: Option<u32>, lim: Option<u32>, ord: Option<&str>) -> Result<Vec<(u32, u128)>, String> {
    let v = ch.query(
        igp,
        &json!({"igp": {"list_gas_for_domains": {"offset": off, "limit": lim, "order": ord}}}),
    )?;
    gas_list(&v)
}
fn num(v: &Value) -> Option<u128> {
    match v {
        Value::String(s) => s.parse().ok(),
        v => v.to_string().parse().ok(),
    }
}
fn gas_list(v: &Value) -> Res<Vec<(u32, u128)>> {
    v["gas"]
        .as_array()
        .ok_or(format!("no list in {v}"))?
        .iter()
        .map(|e| Ok((e[0].as_u64().ok_or("domain")? as u32, num(&e[1]).ok_or("gas")?)))
        .collect()
}
fn check_pages(ch: &Chain, igp: &str, all: &BTreeMap<u32, u128>, offs: &[Option<u32>], lims: &[Option<u32>], cov: &mut Cov) -> Res<()> {
    for off in offs {
        for lim in lims {
            for ord in [None, Some("asc"), Some("desc")] {
                let got = page(ch, igp, *off, *lim, ord);
                if matches!(lim, Some(l) if *l > 30) {
                    ensure!(got.is_err(), "page of {lim:?} answered");
                    cov.hit("page too long");
                    continue;
                }
                let desc = ord == Some("desc");
                let mut want: Vec<(u32, u128)> = all
                    .iter()
                    .map(|(d, g)| (*d, *g))
                    .filter(|(d, _)| match off {
                        None => true,
                        Some(o) if desc => d < o,
                        Some(o) => d > o,
                    })
                    .collect();
                if desc {
                    want.reverse();
                }
                want.truncate(lim.unwrap_or(10) as usize);
                ensure_eq!(got?, want, "page offset {off:?} limit {lim:?} order {ord:?}");
                cov.hit("page");
            }
        }
    }
    Ok(())
}
impl Model for M2 {
    type S = S2;
    type A = A2;
    fn init(&self) -> Res<Vec<(String, S2)>> {
        let mut out = vec![];
        for b in [2usize, 0] {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let al = ch.user("alice");
            ch.fund(&al, "a", 1_000);
            ch.fund(&al, "b", 1_000);
            let ben = ch.user(WHO[b]);
            let ig = igp(&mut ch, &owner, "a", &ben, 20)?;
            let or = oracle(&mut ch, &owner)?;
            for d in D2 {
                set_data(&mut ch, &owner, &or, d, 1, 10_000_000_000)?;
                call(&mut ch, &owner, &ig, set_route(d, Some(&or)))?;
            }
            out.push((
                format!("beneficiary {}", WHO[b]),
                S2 {
                    ch,
                    igp: ig,
                    default: 20,
                    gas: BTreeMap::new(),
                    ben: b,
                },
            ));
        }
        Ok(out)
    }
    fn actions(&self, _: &S2) -> Vec<A2> {
        let mut v = vec![];
        if self.shared {
            for g in SHARED {
                v.push(A2::Default(0, g));
                for d in 0..D2.len() {
                    v.push(A2::Set(0, vec![(d, g)]));
                }
                v.push(A2::Set(0, vec![(0, g), (1, g)]));
            }
            for d in 0..D2.len() {
                v.push(A2::Unset(0, vec![d]));
            }
            v.push(A2::Default(1, SHARED[0]));
            v.push(A2::Unset(0, vec![0, 1]));
            return v;
        }
        for w in 0..3 {
            v.push(A2::Default(w, 30));
            v.push(A2::Set(w, vec![(0, 5)]));
            v.push(A2::Unset(w, vec![0]));
            v.push(A2::Ben(w, 3));
        }
        v.push(A2::Default(0, 0));
        v.push(A2::Set(0, vec![(1, 7)]));
        v.push(A2::Set(0, vec![(2, 8), (0, 6), (2, 9)]));
        v.push(A2::Set(0, vec![]));
        v.push(A2::Unset(0, vec![1]));
        v.push(A2::Unset(0, vec![2, 0]));
        v.push(A2::Unset(0, vec![2, 2]));
        v.push(A2::Ben(0, 2));
        v.push(A2::Ben(0, 0));
        v.push(A2::BadBen);
        for w in 0..4 {
            v.push(A2::Claim(w));
        }
        v.push(A2::Pay(6));
        v.push(A2::Donate);
        v
    }
    fn key(&self, s: &S2) -> u128 {
        s.ch.key() ^ dig(&(s.default, &s.gas, s.ben))
    }
    fn step(&self, s: &S2, a: &A2, cov: &mut Cov) -> Res<Step<S2>> {
        let mut n = s.clone();
        let user = |w: usize| s.ch.user(WHO[w]);
        let mut refused = |n: &Chain, what: &str| -> Res<()> {
            ensure_eq!(n.key(), s.ch.key(), "state after refused {what}");
            cov.hit("refused");
            Ok(())
        };
        let (w, m) = match a {
            A2::Default(w, g) => {
                if *w == 0 {
                    n.default = *g;
                }
                (*w, json!({"set_default_gas": {"gas": g.to_string()}}))
            }
            A2::Set(w, l) => {
                if *w == 0 {
                    for (d, g) in l {
                        n.gas.insert(D2[*d], *g);
                    }
                }
                let l: Vec<Value> = l.iter().map(|(d, g)| json!([D2[*d], g.to_string()])).collect();
                (*w, json!({"set_gas_for_domain": {"config": l}}))
            }
            A2::Unset(w, l) => {
                if *w == 0 {
                    for d in l {
                        n.gas.remove(&D2[*d]);
                    }
                }
                let l: Vec<u32> = l.iter().map(|d| D2[*d]).collect();
                (*w, json!({"unset_gas_for_domain": {"domains": l}}))
            }
            A2::Ben(w, b) => {
                if *w == 0 {
                    n.ben = *b;
                }
                (*w, json!({"set_beneficiary": {"beneficiary": user(*b)}}))
            }
            A2::BadBen => {
                let t = n.ch.exec(&user(0), &s.igp, &json!({"set_beneficiary": {"beneficiary": "nonsense"}}), &[]);
                ensure!(!t.ok(), "nonsense accepted as a beneficiary");
                refused(&n.ch, "beneficiary")?;
                return Ok(Step::Same);
            }
            A2::Claim(w) => {
                let held = s.ch.bal(&s.igp, "a");
                if held == 0 && *w == s.ben {
                    return Ok(Step::Same);
                }
                let t = n.ch.exec(&user(*w), &s.igp, &json!({"claim": {}}), &[]);
                ensure_eq!(t.ok(), *w == s.ben, "claim by {} ({})", WHO[*w], t.err());
                if t.ok() {
                    let want: BTreeMap<(String, String), i128> = [
                        ((s.igp.clone(), "a".to_string()), -(held as i128)),
                        ((user(*w), "a".to_string()), held as i128),
                    ]
                    .into();
                    ensure_eq!(bank_delta(&s.ch, &n.ch), want, "balance changes of the claim");
                    ensure_eq!(n.ch.store_key(&s.igp), s.ch.store_key(&s.igp), "stored state");
                    cov.hit("claimed");
                } else {
                    refused(&n.ch, "claim")?;
                }
                return Ok(Step::Next(n));
            }
            A2::Pay(x) => {
                if s.ch.bal(&s.igp, "a") > 20 {
                    return Ok(Step::Same);
                }
                let al = s.ch.user("alice");
                let m = json!({"pay_for_gas": {"message_id": hx(&fill32("id")), "dest_domain": D2[1],
                    "gas_amount": x.to_string(), "refund_address": al}});
                let t = n.ch.exec(&al, &s.igp, &m, &[("a", x + 1)]);
                ensure!(t.ok(), "payment: {}", t.err());
                return Ok(Step::Next(n));
            }
            A2::Donate => {
                if s.ch.bal(&s.igp, "b") > 0 {
                    return Ok(Step::Same);
                }
                n.ch.fund(&s.igp, "b", 3);
                return Ok(Step::Next(n));
            }
        };
        let t = n.ch.exec(&user(w as usize), &s.igp, &m, &[]);
        if let A2::Unset(0, l) = a {
            // removing what is not there: refused or not, nothing changes
            if l.iter().any(|d| !s.gas.contains_key(&D2[*d])) && !t.ok() {
                ensure_eq!(n.ch.key(), s.ch.key(), "state after refusal");
                return Ok(Step::Same);
            }
        }
        ensure_eq!(t.ok(), w == 0, "{a:?} ({})", t.err());
        if w == 0 {
            ensure_eq!(bank_delta(&s.ch, &n.ch), BTreeMap::new(), "balances");
            cov.hit("set");
        } else {
            refused(&n.ch, &format!("{a:?}"))?;
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S2, cov: &mut Cov) -> Res<()> {
        let q = |m: Value| s.ch.query(&s.igp, &json!({ "igp": m }));
        ensure_eq!(num(&q(json!({"default_gas": {}}))?["gas"]), Some(s.default), "default gas");
        ensure_eq!(
            str_of(&q(json!({"beneficiary": {}}))?, "beneficiary"),
            s.ch.user(WHO[s.ben]),
            "beneficiary"
        );
        for d in D2 {
            let g = q(json!({"gas_for_domain": {"domains": [d]}})).and_then(|v| gas_list(&v));
            match s.gas.get(&d) {
                Some(x) => ensure_eq!(g?, vec![(d, *x)], "gas for {d}"),
                None => ensure!(
                    g.as_ref().map(|l| l.is_empty()).unwrap_or(true),
                    "gas for {d} which is not set: {g:?}"
                ),
            }
            let want = s.gas.get(&d).copied().unwrap_or(s.default);
            let m = gmsg(d, fill32("someone")).enc();
            ensure_eq!(hook_quote(&s.ch, &s.igp, &[], &m)?, coins(&[("a", want)]), "quote for {d}");
        }
        check_pages(
            &s.ch,
            &s.igp,
            &s.gas,
            &[None, Some(0), Some(DEST), Some(u32::MAX), Some(DEST - 1), Some(DEST + 1)],
            &[None, Some(1), Some(2), Some(30), Some(31)],
            cov,
        )
    }
    fn must_hit(&self) -> Vec<&'static str> {
        if self.shared {
            return vec!["set", "refused", "page"];
        }
        vec!["set", "refused", "claimed", "page", "page too long"]
    }
}

pub fn g02(c: &mut Ctx) {
    c.assume("claims with nothing to claim are not judged; removing an override that is not there may be refused or accepted");
    c.run("settings and claims histories", &M2 { shared: false }, c.pick(4, 6), 3_000_000);
    c.run("defaults and overrides with the same values", &M2 { shared: true }, c.pick(5, 12), 3_000_000);
    let m = u128::MAX;
    let mut v = vec![];
    for g in [0u128, 1, 255, 1 << 31, 1 << 32, u64::MAX as u128, 1 << 64, m / 2, m] {
        for dom in [false, true] {
            v.push((g, dom));
        }
    }
    c.cases(
        "gas amounts over the whole range",
        || Ok(()),
        v,
        &["set"],
        |_, (g, dom), cov| {
            // full-range numbers need exact JSON text
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let ig = igp(&mut ch, &owner, "a", &owner, if *dom { 1 } else { *g })?;
            let or = oracle(&mut ch, &owner)?;
            set_data(&mut ch, &owner, &or, DEST, 1, 10_000_000_000)?;
            call(&mut ch, &owner, &ig, set_route(DEST, Some(&or)))?;
            if *dom {
                let t = ch.exec_bytes(
                    &owner,
                    &ig,
                    format!("{{\"set_gas_for_domain\":{{\"config\":[[{DEST},\"{g}\"]]}}}}").into_bytes(),
                    &[],
                );
                ensure!(t.ok(), "set: {}", t.err());
                ensure_eq!(
                    ch.query_bytes(&ig, format!("{{\"igp\":{{\"gas_for_domain\":{{\"domains\":[{DEST}]}}}}}}").into_bytes())
                        .map(|b| String::from_utf8_lossy(&b).replace('"', "")),
                    Ok(format!("{{gas:[[{DEST},{g}]]}}")),
                    "gas query"
                );
            }
            ensure_eq!(
                hook_quote(&ch, &ig, &[], &gmsg(DEST, fill32("x")).enc())?,
                coins(&[("a", *g)]),
                "quote"
            );
            cov.hit("set");
            Ok(dig(&(g, dom)))
        },
    );
    let mut v = vec![];
    for n in (1usize..=12).chain([16, 20, 29, 30, 31, 32, 33, 64, 65, 100, 128, 255, 256, 257]) {
        for k in 0..4u8 {
            v.push((n, k));
        }
    }
    c.cases("batches", || Ok(()), v, &["set", "removed"], |_, (n, k), cov| {
        let mut ch = Chain::new("osmo");
        let owner = ch.user("owner");
        let ig = igp(&mut ch, &owner, "a", &owner, 7)?;
        let or = oracle(&mut ch, &owner)?;
        let d = |i: usize| match k {
            0 => i as u32,
            1 => u32::MAX - i as u32,
            _ => (i as u32).wrapping_mul(0x9e37_79b1),
        };
        let rd: Vec<Value> = (0..*n).map(|i| data(d(i), 1, 10_000_000_000)).collect();
        call(&mut ch, &owner, &or, json!({"set_remote_gas_data_configs": {"configs": rd}}))?;
        let routes: Vec<Value> = (0..*n).map(|i| json!({"domain": d(i), "route": or})).collect();
        call(&mut ch, &owner, &ig, json!({"router": {"set_routes": {"set": routes}}}))?;
        let check = |ch: &Chain, cur: &BTreeMap<u32, u128>| -> Res<()> {
            for i in 0..*n {
                let q = hook_quote(ch, &ig, &[], &gmsg(d(i), fill32("x")).enc())?;
                ensure_eq!(q, coins(&[("a", cur.get(&d(i)).copied().unwrap_or(7))]), "quote for entry {i} of {n}");
            }
            let some: Vec<u32> = cur.keys().copied().collect();
            let v = ch.query(&ig, &json!({"igp": {"gas_for_domain": {"domains": some}}}))?;
            ensure_eq!(gas_list(&v)?, cur.iter().map(|(d, g)| (*d, *g)).collect::<Vec<_>>(), "gas of {} destinations", cur.len());
            let mut got = vec![];
            let mut off = None;
            loop {
                let p = page(ch, &ig, off, Some(30), None)?;
                if p.is_empty() {
                    break;
                }
                off = p.last().map(|x| x.0);
                got.extend(p);
                ensure!(got.len() <= *n, "listing does not end");
            }
            ensure_eq!(got, cur.iter().map(|(d, g)| (*d, *g)).collect::<Vec<_>>(), "listing");
            Ok(())
        };
        let mut cur: BTreeMap<u32, u128> = BTreeMap::new();
        let mut set: Vec<Value> = (0..*n).map(|i| json!([d(i), (10 + i).to_string()])).collect();
        (0..*n).for_each(|i| {
            cur.insert(d(i), 10 + i as u128);
        });
        if *k == 3 {
            // the last entry counts
            for i in (0..*n).rev() {
                set.push(json!([d(i), (1000 + i).to_string()]));
                cur.insert(d(i), 1000 + i as u128);
            }
        }
        call(&mut ch, &owner, &ig, json!({"set_gas_for_domain": {"config": set}}))?;
        check(&ch, &cur)?;
        cov.hit("set");
        let del: Vec<u32> = (0..*n).filter(|i| *k < 2 || i % 2 == 0).map(d).collect();
        call(&mut ch, &owner, &ig, json!({"unset_gas_for_domain": {"domains": del}}))?;
        for x in del {
            cur.remove(&x);
        }
        check(&ch, &cur)?;
        cov.hit("removed");
        Ok(dig(&(n, k)))
    });
    let mut v = vec![];
    for a in [1u128, 2, 9, (1 << 32) + 5, (1 << 53) + 1, (1 << 63) - 1, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 100) + (1 << 50) + 3, (1 << 126) - 1] {
        for ben in 0..4u8 {
            for token in ["a", TOKEN, "factory/osmo1xyz/token"] {
                for others in [0usize, 1, 12] {
                    v.push((a, ben, token, others));
                }
            }
        }
    }
    c.cases("claims of any amount", || Ok(()), v, &["claimed", "refused"], |_, (a, ben, token, others), cov| {
        let mut ch = Chain::new("osmo");
        let owner = ch.user("owner");
        let b = match ben {
            0 => owner.clone(),
            1 => ch.user("beneficiary"),
            2 => probe(&mut ch, |_| {}),
            _ => addr_of("osmo", &[9; 32]),
        };
        let ig = igp(&mut ch, &owner, token, if ben % 2 == 0 { &b } else { &owner }, 1)?;
        if ben % 2 == 1 {
            call(&mut ch, &owner, &ig, json!({"set_beneficiary": {"beneficiary": b}}))?;
        }
        ch.fund(&ig, token, *a);
        ch.fund(&b, token, 3);
        for i in 0..*others {
            ch.fund(&ig, &format!("{token}{i}"), 100 + i as u128);
        }
        for who in [owner.clone(), ch.user("mallory"), ig.clone()] {
            if who == b {
                continue;
            }
            let mut c2 = ch.clone();
            let t = c2.exec(&who, &ig, &json!({"claim": {}}), &[]);
            ensure!(!t.ok(), "claim by {who}");
            ensure_eq!(c2.key(), ch.key(), "state after a refused claim");
            cov.hit("refused");
        }
        let before = ch.clone();
        call(&mut ch, &b, &ig, json!({"claim": {}}))?;
        let d = |w: &str, x: i128| ((w.to_string(), token.to_string()), x);
        ensure_eq!(bank_delta(&before, &ch), BTreeMap::from([d(&ig, -(*a as i128)), d(&b, *a as i128)]), "balance changes");
        cov.hit("claimed");
        Ok(dig(&(a, ben, token, others)))
    });
    // whoever the owner is and whoever is named, in any succession
    let mut v = vec![];
    for o in 0..7u8 {
        for b0 in 0..8u8 {
            for b1 in 0..8u8 {
                for b2 in 0..8u8 {
                    v.push([o, b0, b1, b2]);
                }
            }
        }
    }
    c.cases("successive beneficiaries", || Ok(()), v, &["claimed", "refused", "set"], |_, w, cov| {
        let mut ch = Chain::new("osmo");
        let mut a: Vec<String> = vec![
            ch.user("owner"),
            ch.user("other"),
            addr_of("osmo", &[9; 32]),
            probe(&mut ch, |_| {}),
            b32("osmo", &[0; 20]),
            b32("osmo", &[0xff; 32]),
            b32("osmo", &[0; 32]),
        ];
        let owner = a[w[0] as usize].clone();
        // the paymaster's own address is known beforehand
        let me = ch.next_addr();
        a.push(me.clone());
        let ig = igp(&mut ch, &owner, "a", &a[w[1] as usize], 7)?;
        ensure_eq!(ig, me, "address");
        ch.fund(&ig, "a", 50);
        let mut ben = a[w[1] as usize].clone();
        for k in 1..4 {
            if k > 1 {
                ben = a[w[k] as usize].clone();
                call(&mut ch, &owner, &ig, json!({"set_beneficiary": {"beneficiary": ben}}))?;
                cov.hit("set");
            }
            ensure_eq!(str_of(&ch.query(&ig, &json!({"igp": {"beneficiary": {}}}))?, "beneficiary"), ben, "beneficiary");
            for who in &a {
                let mut c2 = ch.clone();
                // a claim by the paymaster itself moves nothing anywhere
                if *who == me && ben == me {
                    continue;
                }
                let t = c2.exec(who, &ig, &json!({"claim": {}}), &[]);
                ensure_eq!(t.ok(), *who == ben, "claim by {who} ({})", t.err());
                if t.ok() {
                    let d = |w: &str, x: i128| ((w.to_string(), "a".to_string()), x);
                    ensure_eq!(bank_delta(&ch, &c2), BTreeMap::from([d(&ig, -50), d(&ben, 50)]), "balance changes");
                    cov.hit("claimed");
                } else {
                    ensure_eq!(c2.key(), ch.key(), "state after a refused claim");
                    cov.hit("refused");
                }
                if *who != owner {
                    for m in [
                        json!({"set_beneficiary": {"beneficiary": who}}),
                        json!({"set_default_gas": {"gas": "1"}}),
                        json!({"set_gas_for_domain": {"config": [[5, "1"]]}}),
                        json!({"unset_gas_for_domain": {"domains": [5]}}),
                    ] {
                        let t = c2.exec(who, &ig, &m, &[]);
                        ensure!(!t.ok(), "{m} by {who}");
                    }
                }
            }
        }
        // the other settings work for this owner too
        call(&mut ch, &owner, &ig, json!({"set_gas_for_domain": {"config": [[5, "11"]]}}))?;
        call(&mut ch, &owner, &ig, json!({"set_default_gas": {"gas": "8"}}))?;
        ensure_eq!(gas_list(&ch.query(&ig, &json!({"igp": {"gas_for_domain": {"domains": [5]}}}))?)?, vec![(5, 11)], "gas");
        call(&mut ch, &owner, &ig, json!({"unset_gas_for_domain": {"domains": [5]}}))?;
        Ok(dig(&w))
    });
    c.cases(
        "many destinations, every page",
        || Ok(()),
        vec![0usize, 1, 2],
        &["page", "page too long", "walked"],
        |_, order, cov| {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let ig = igp(&mut ch, &owner, "a", &owner, 50)?;
            let ds = domains(DEST);
            let n = ds.len();
            let mut all: BTreeMap<u32, u128> = BTreeMap::new();
            let mut offs: Vec<Option<u32>> = ds.iter().map(|d| Some(*d)).collect();
            offs.extend([None, Some(DEST + 2), Some(0x7000_0000), Some(2)]);
            let lims: Vec<Option<u32>> = [0u32, 1, 2, 3, 9, 10, 11, 29, 30, 31, 32, 100, 255, 256, u32::MAX]
                .iter()
                .map(|l| Some(*l))
                .chain([None])
                .collect();
            for k in 0..2 * n {
                let i = match order {
                    0 => k % n,
                    1 => n - 1 - k % n,
                    _ => (k * 7 + 3) % n,
                };
                if k < n {
                    call(&mut ch, &owner, &ig, json!({"set_gas_for_domain": {"config": [[ds[i], (10 + i).to_string()]]}}))?;
                    all.insert(ds[i], 10 + i as u128);
                } else {
                    call(&mut ch, &owner, &ig, json!({"unset_gas_for_domain": {"domains": [ds[i]]}}))?;
                    all.remove(&ds[i]);
                }
                if k % 9 == 5 || k == n - 1 {
                    check_pages(&ch, &ig, &all, &offs, &lims, cov)?;
                }
                // walking through all pages
                for (lim, ord) in [(None, "asc"), (Some(7), "desc"), (Some(30), "asc")] {
                    let mut got = vec![];
                    let mut off = None;
                    for _ in 0..60 {
                        let p = page(&ch, &ig, off, lim, Some(ord))?;
                        if p.is_empty() {
                            break;
                        }
                        off = p.last().map(|x| x.0);
                        got.extend(p);
                    }
                    if ord == "desc" {
                        got.reverse();
                    }
                    ensure_eq!(got, all.iter().map(|(d, g)| (*d, *g)).collect::<Vec<_>>(), "walk");
                    cov.hit("walked");
                }
                // queries of several domains at once
                let some: Vec<u32> = all.keys().copied().step_by(2).collect();
                let v = ch.query(&ig, &json!({"igp": {"gas_for_domain": {"domains": some}}}))?;
                ensure_eq!(
                    gas_list(&v)?,
                    some.iter().map(|d| (*d, all[d])).collect::<Vec<_>>(),
                    "gas of several destinations"
                );
            }
            Ok(ch.key())
        },
    );

    // one amount after another: only the last one counts, whatever it replaces
    let range = [0u128, 1, 2, 255, 1 << 31, 1 << 32, u64::MAX as u128, 1 << 64, m / 2, m - 1, m];
    let mut set: Vec<Option<u128>> = range.iter().map(|g| Some(*g)).collect();
    set.push(None);
    let mut v = vec![];
    for a in &set {
        for b in &set {
            for dom in [false, true] {
                if dom || (a.is_some() && b.is_some()) {
                    v.push((*a, *b, dom));
                }
            }
        }
    }
    c.cases(
        "one amount after another",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let ig = igp(&mut ch, &owner, "a", &owner, 77)?;
            let or = oracle(&mut ch, &owner)?;
            set_data(&mut ch, &owner, &or, DEST, 1, 10_000_000_000)?;
            call(&mut ch, &owner, &ig, set_route(DEST, Some(&or)))?;
            Ok((ch, ig))
        },
        v,
        &["default", "override"],
        |(c0, ig), (a, b, dom), cov| {
            let mut ch = c0.clone();
            let owner = ch.user("owner");
            let (mut def, mut over) = (77u128, None);
            for x in [a, b] {
                let m = match (dom, x) {
                    (false, Some(g)) => json!({"set_default_gas": {"gas": g.to_string()}}),
                    (true, Some(g)) => json!({"set_gas_for_domain": {"config": [[DEST, g.to_string()]]}}),
                    (_, None) => json!({"unset_gas_for_domain": {"domains": [DEST]}}),
                };
                let t = ch.exec(&owner, ig, &m, &[]);
                ensure!(t.ok() || x.is_none() && over.is_none(), "setting: {}", t.err());
                if *dom {
                    over = *x;
                } else {
                    def = x.unwrap();
                }
                let g = ch.query(ig, &json!({"igp": {"default_gas": {}}}))?;
                ensure_eq!(num(&g["gas"]), Some(def), "default gas");
                let l = page(&ch, ig, None, None, None)?;
                ensure_eq!(l, over.iter().map(|g| (DEST, *g)).collect::<Vec<_>>(), "listing");
                ensure_eq!(
                    hook_quote(&ch, ig, &[], &gmsg(DEST, fill32("x")).enc())?,
                    coins(&[("a", over.unwrap_or(def))]),
                    "quote"
                );
                cov.hit(if *dom { "override" } else { "default" });
            }
            Ok(dig(&(a, b, dom)))
        },
    );
}

// ------------------------------------------------------------ G03

#[derive(Clone, Debug)]
enum A3 {
    /// caller, domain, price, rate
    One(u8, usize, usize),
    Many(u8, Vec<(usize, usize)>),
}
const D3: [u32; 3] = [DEST, DEST ^ 0x0100_0000, 0];
/// price, rate
const X3: [(u128, u128); 7] = [(5, 7), (u128::MAX, 1), (0, u128::MAX), (9, 0), (5, 8), (4, 7), (5, 1)];
#[derive(Clone)]
struct S3 {
    ch: Chain,
    or: String,
    cur: BTreeMap<u32, usize>,
}
struct M3;
fn oracle_q(ch: &Chain, o: &str, d: u32) -> Option<(String, String)> {
    ch.query(o, &json!({"oracle": {"get_exchange_rate_and_gas_price": {"dest_domain": d}}}))
        .ok()
        .map(|v| (str_of(&v, "gas_price"), str_of(&v, "exchange_rate")))
}
impl Model for M3 {
    type S = S3;
    type A = A3;
    fn init(&self) -> Res<Vec<(String, S3)>> {
        let mut ch = Chain::new("osmo");
        let owner = ch.user("owner");
        let or = oracle(&mut ch, &owner)?;
        Ok(vec![(
            "empty".into(),
            S3 {
                ch,
                or,
                cur: BTreeMap::new(),
            },
        )])
    }
    fn actions(&self, _: &S3) -> Vec<A3> {
        let mut v = vec![];
        for w in 0..2 {
            for d in 0..3 {
                for x in 0..X3.len() {
                    v.push(A3::One(w, d, x));
                }
            }
            v.push(A3::Many(w, vec![]));
            // every batch of two entries
            for a in 0..6 {
                for b in 0..6 {
                    v.push(A3::Many(w, vec![(a % 2, [0, 1, 3][a / 2]), (b % 2, [0, 2, 3][b / 2])]));
                }
            }
            for bad in 0..3 {
                let mut l = vec![(0, 0), (1, 1), (2, 2)];
                l[bad].1 = 3;
                v.push(A3::Many(w, l));
            }
            v.push(A3::Many(w, vec![(0, 0), (1, 1), (2, 2)]));
            v.push(A3::Many(w, vec![(0, 3), (0, 0)]));
        }
        v
    }
    fn key(&self, s: &S3) -> u128 {
        s.ch.key() ^ dig(&s.cur)
    }
    fn step(&self, s: &S3, a: &A3, cov: &mut Cov) -> Res<Step<S3>> {
        let mut n = s.clone();
        let e = |(d, x): &(usize, usize)| data(D3[*d], X3[*x].0, X3[*x].1);
        let (w, m, l) = match a {
            A3::One(w, d, x) => (*w, json!({"set_remote_gas_data": {"config": e(&(*d, *x))}}), vec![(*d, *x)]),
            A3::Many(w, l) => (
                *w,
                json!({"set_remote_gas_data_configs": {"configs": l.iter().map(e).collect::<Vec<_>>()}}),
                l.clone(),
            ),
        };
        let who = s.ch.user(["owner", "mallory"][w as usize]);
        let t = n.ch.exec(&who, &s.or, &m, &[]);
        let want = w == 0 && l.iter().all(|x| X3[x.1].1 > 0);
        ensure_eq!(t.ok(), want, "update ({})", t.err());
        if want {
            for (d, x) in l {
                n.cur.insert(D3[d], x);
            }
            cov.hit("updated");
        } else {
            ensure_eq!(n.ch.key(), s.ch.key(), "state after refusal");
            cov.hit(if w == 0 { "zero rate refused" } else { "stranger refused" });
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S3, cov: &mut Cov) -> Res<()> {
        for d in D3.iter().chain(&[1, u32::MAX, DEST.swap_bytes()]) {
            let want = s.cur.get(d).map(|x| (X3[*x].0.to_string(), X3[*x].1.to_string()));
            ensure_eq!(oracle_q(&s.ch, &s.or, *d), want, "data of {d}");
            cov.hit(if want.is_some() { "answered" } else { "unknown" });
        }
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["updated", "zero rate refused", "stranger refused", "answered", "unknown"]
    }
}

pub fn g03(c: &mut Ctx) {
    c.assume("two callers: the owner and somebody else (further callers: A01)");
    c.run("update histories", &M3, 10, 1_000_000);
    // batches of any size: one zero rate anywhere refuses them whole
    let mut v = vec![];
    for n in (1usize..=20).chain([29, 30, 31, 32, 33, 63, 64, 65, 100, 128, 200, 255, 256, 257]) {
        let mut bad: Vec<usize> = (0..n).filter(|i| n <= 33 || i % 13 == 0 || i + 2 > n).collect();
        bad.push(usize::MAX);
        for b in bad {
            v.push((n, b));
        }
    }
    c.cases(
        "batches",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let or = oracle(&mut ch, &owner)?;
            set_data(&mut ch, &owner, &or, DEST, 4, 4)?;
            Ok((ch, or))
        },
        v,
        &["updated", "refused"],
        |(c0, or), (n, bad), cov| {
            let mut ch = c0.clone();
            let owner = ch.user("owner");
            let d = |i: usize| (i as u32).wrapping_mul(0x9e37_79b1);
            let l: Vec<Value> = (0..*n).map(|i| data(d(i), i as u128, if i == *bad { 0 } else { 1 + i as u128 })).collect();
            let t = ch.exec(&owner, or, &json!({"set_remote_gas_data_configs": {"configs": l}}), &[]);
            ensure_eq!(t.ok(), bad >= n, "batch of {n} ({})", t.err());
            if !t.ok() {
                ensure_eq!(ch.key(), c0.key(), "state after a refused batch");
                cov.hit("refused");
                return Ok(dig(&(n, bad)));
            }
            for i in 0..*n {
                ensure_eq!(oracle_q(&ch, or, d(i)), Some((i.to_string(), (1 + i).to_string())), "entry {i} of {n}");
            }
            ensure_eq!(oracle_q(&ch, or, DEST), Some(("4".into(), "4".into())), "data of another destination");
            cov.hit("updated");
            Ok(dig(&(n, bad)))
        },
    );
    let mut v = vec![];
    let m = u128::MAX;
    let edge = [0u128, 1, 9, 255, 256, u32::MAX as u128, 1 << 32, u64::MAX as u128, 1 << 64, (1 << 64) + 1, 1 << 96, 1 << 127, m - 1, m];
    for p in edge {
        for r in edge {
            for batch in [false, true] {
                v.push((p, r, batch));
            }
        }
    }
    c.cases(
        "prices and rates over the whole range",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let or = oracle(&mut ch, &owner)?;
            set_data(&mut ch, &owner, &or, DEST ^ 1, 4, 4)?;
            Ok((ch, or))
        },
        v,
        &["updated", "refused"],
        |(ch, or), (p, r, batch), cov| {
            let mut ch = ch.clone();
            let owner = ch.user("owner");
            let m = if *batch {
                json!({"set_remote_gas_data_configs": {"configs": [data(DEST ^ 2, 1, 1), data(DEST, *p, *r)]}})
            } else {
                json!({"set_remote_gas_data": {"config": data(DEST, *p, *r)}})
            };
            let t = ch.exec(&owner, or, &m, &[]);
            ensure_eq!(t.ok(), *r > 0, "update ({})", t.err());
            let want = t.ok().then(|| (p.to_string(), r.to_string()));
            ensure_eq!(oracle_q(&ch, or, DEST), want, "data");
            ensure_eq!(oracle_q(&ch, or, DEST ^ 1), Some(("4".into(), "4".into())), "data of another destination");
            let other = (t.ok() && *batch).then(|| ("1".to_string(), "1".to_string()));
            ensure_eq!(oracle_q(&ch, or, DEST ^ 2), other, "data of the batch's first entry");
            cov.hit(if t.ok() { "updated" } else { "refused" });
            Ok(ch.key())
        },
    );
    // one value after another
    let (ps, rs) = ([0u128, 1, 2, 3, 1 << 64, m], [0u128, 1, 2, 3, 1 << 64, m]);
    let pr: Vec<(u128, u128)> = ps.iter().flat_map(|p| rs.iter().map(move |r| (*p, *r))).collect();
    let mut v = vec![];
    for a in &pr {
        for b in &pr {
            for how in 0..5u8 {
                if a.1 > 0 || how == 4 {
                    v.push((*a, *b, how));
                }
            }
        }
    }
    c.cases(
        "successive values",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let or = oracle(&mut ch, &owner)?;
            set_data(&mut ch, &owner, &or, DEST ^ 1, 2, 2)?;
            Ok((ch, or))
        },
        v,
        &["updated", "refused"],
        |(ch, or), (a, b, how), cov| {
            let mut ch = ch.clone();
            let owner = ch.user("owner");
            let one = |x: &(u128, u128)| json!({"set_remote_gas_data": {"config": data(DEST, x.0, x.1)}});
            let many = |l: &[&(u128, u128)], other: bool| {
                let mut l: Vec<Value> = l.iter().map(|x| data(DEST, x.0, x.1)).collect();
                if other {
                    l.push(data(DEST ^ 2, 3, 3));
                }
                json!({"set_remote_gas_data_configs": {"configs": l}})
            };
            if *how < 4 {
                let first = if how & 1 == 0 { one(a) } else { many(&[a], true) };
                call(&mut ch, &owner, or, first)?;
            }
            let k = ch.key();
            let m = match how {
                0 | 1 => one(b),
                2 | 3 => many(&[b], how & 1 == 0),
                _ => many(&[a, b], true),
            };
            let t = ch.exec(&owner, or, &m, &[]);
            let good = b.1 > 0 && (*how < 4 || a.1 > 0);
            ensure_eq!(t.ok(), good, "update ({})", t.err());
            if !good {
                ensure_eq!(ch.key(), k, "state after a refused update");
            }
            let cur = if good { Some(b) } else { (*how < 4).then_some(a) };
            ensure_eq!(oracle_q(&ch, or, DEST), cur.map(|x| (x.0.to_string(), x.1.to_string())), "data");
            ensure_eq!(oracle_q(&ch, or, DEST ^ 1), Some(("2".into(), "2".into())), "data of another destination");
            cov.hit(if good { "updated" } else { "refused" });
            Ok(ch.key() ^ dig(&(a, b, how)))
        },
    );
    c.cases(
        "many destinations",
        || Ok(()),
        vec![0usize, 1, 2, 3],
        &["updated"],
        |_, order, cov| {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let or = oracle(&mut ch, &owner)?;
            let ds = domains(DEST);
            let n = ds.len();
            let mut cur: BTreeMap<u32, (String, String)> = BTreeMap::new();
            let at = |k: usize| if *order % 2 == 0 { k % n } else { (k * 7 + 3) % n };
            for k in 0..2 * n {
                let (d, p, r) = (ds[at(k)], k as u128, 1000 - k as u128);
                if *order < 2 {
                    set_data(&mut ch, &owner, &or, d, p, r)?;
                } else {
                    // pairs
                    let d2 = ds[at(k + 1)];
                    call(
                        &mut ch,
                        &owner,
                        &or,
                        json!({"set_remote_gas_data_configs": {"configs": [data(d, p, r), data(d2, 5000 + p, r)]}}),
                    )?;
                    cur.insert(d2, ((5000 + p).to_string(), r.to_string()));
                }
                cur.insert(d, (p.to_string(), r.to_string()));
                for e in &ds {
                    ensure_eq!(oracle_q(&ch, &or, *e), cur.get(e).cloned(), "data of {e}");
                }
                cov.hit("updated");
            }
            Ok(ch.key())
        },
    );
}
