//! V01: validator announcements
use crate::chain::{h256, keccak, Chain};
use crate::explore::{Cov, CovExt, Ctx, Model, Res, Step};
use crate::util::*;
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

/// announcement digest; `how` selects a wrong derivation (0 = right)
pub fn digest_of(domain: u32, mailbox: &[u8; 32], loc: &[u8], how: u8) -> [u8; 32] {
    let mut v = match how {
        1 => domain.to_le_bytes().to_vec(),
        2 => vec![],
        _ => domain.to_be_bytes().to_vec(),
    };
    let raw: Vec<u8> = mailbox.iter().copied().skip_while(|b| *b == 0).collect();
    match how {
        3 => v.extend(&raw[..20.min(raw.len())]),
        4 => {
            let mut m = raw.clone();
            m.resize(32, 0);
            m.rotate_left(1);
            v.extend(m)
        }
        5 => {}
        _ => v.extend(mailbox),
    }
    v.extend(match how {
        6 => &b"HYPERLANE"[..],
        7 => b"",
        _ => b"HYPERLANE_ANNOUNCEMENT",
    });
    let mut x = keccak(&v).to_vec();
    match how {
        8 => x.extend(keccak(loc)),
        9 => {}
        _ => x.extend(loc),
    }
    let h = keccak(&x);
    match how {
        10 => h,
        11 => keccak(&h),
        12 => eth_hash(&keccak(&h)),
        _ => eth_hash(&h),
    }
}
const HOWS: u8 = 12;

pub fn announce(validator: &[u8], loc: &str, sig: &[u8]) -> Value {
    json!({"announce": {"validator": hx(validator), "storage_location": loc, "signature": hx(sig)}})
}

type Recorded = Vec<([u8; 20], Vec<String>)>;

/// the queries show exactly `want` (validators in order of first announcement)
fn check_queries(ch: &Chain, va: &str, want: &Recorded, others: &[Vec<u8>]) -> Res<()> {
    let v = ch.query(va, &json!({"get_announced_validators": {}}))?;
    let mut got: Vec<String> = v["validators"]
        .as_array()
        .ok_or("no validators")?
        .iter()
        .map(|x| x.as_str().unwrap_or("?").to_string())
        .collect();
    got.sort();
    let mut exp: Vec<String> = want.iter().map(|w| hx(&w.0)).collect();
    exp.sort();
    ensure_eq!(got, exp, "announced validators");
    let mut ask: Vec<String> = want.iter().map(|w| hx(&w.0)).collect();
    ask.extend(others.iter().map(|o| hx(o)));
    let known: BTreeMap<String, &Vec<String>> = want.iter().map(|w| (hx(&w.0), &w.1)).collect();
    let none = vec![];
    for list in [
        ask.clone(),
        ask.iter().rev().cloned().collect(),
        vec![],
        ask.iter().take(1).cloned().collect::<Vec<_>>(),
    ] {
        let v = ch.query(va, &json!({"get_announce_storage_locations": {"validators": list}}))?;
        let exp: Vec<Value> = list
            .iter()
            .map(|a| json!([a, known.get(a).unwrap_or(&&none)]))
            .collect();
        ensure_eq!(v["storage_locations"], json!(exp), "storage locations");
    }
    // what is no address has no locations, however close it is to one
    let mut odd: Vec<Vec<u8>> = vec![vec![]];
    for w in want.iter().take(3) {
        let a = w.0.to_vec();
        for x in [&[0u8][..], &[0; 12], &a] {
            odd.push([x, &a].concat());
            odd.push([&a, x].concat());
        }
        odd.push(a[1..].to_vec());
        odd.push(a[..19].to_vec());
        odd.push([&a[1..], &a[..1]].concat());
        odd.push(a.iter().rev().copied().collect());
        odd.push([&[0], &a[1..]].concat());
        odd.push([&a[..19], &[0]].concat());
        odd.push(hx(&a).into_bytes());
    }
    let odd: Vec<String> = odd.iter().map(|o| hx(o)).filter(|o| !known.contains_key(o)).collect();
    let ask = |l: &[String]| ch.query(va, &json!({"get_announce_storage_locations": {"validators": l}}));
    let nothing = |l: &[String]| json!(l.iter().map(|a| json!([a, []])).collect::<Vec<_>>());
    match ask(&odd) {
        Ok(v) => ensure_eq!(v["storage_locations"], nothing(&odd), "storage locations of what is no address"),
        Err(_) => {
            for o in odd.chunks(1) {
                if let Ok(v) = ask(o) {
                    ensure_eq!(v["storage_locations"], nothing(o), "storage locations of what is no address");
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone)]
struct W {
    /// two announcement contracts of two mailboxes
    va: [String; 2],
    mb: [[u8; 32]; 2],
    dom: [u32; 2],
}
fn world(small_mailbox: bool) -> Res<(Chain, W)> {
    let mut ch = Chain::new("osmo");
    let owner = ch.user("owner");
    let dom = [0x0102_0304, 0x0102_0305];
    let mut mbs = vec![];
    for d in dom {
        let mut m = mailbox(&mut ch, &owner, d)?;
        if small_mailbox {
            let at = ch.user(&format!("mailbox {d}"));
            let st = ch.store_dump(&m);
            ch.place(&at, "mailbox", st);
            m = at;
        }
        mbs.push(m);
    }
    let mut va = vec![];
    for m in &mbs {
        let a = inst(&mut ch, "va", &owner, json!({"hrp": "osmo", "mailbox": m}))?;
        let v = ch.query(&a, &json!({"local_domain": {}}))?;
        ensure_eq!(v["local_domain"], json!(dom[va.len()]), "local domain");
        va.push(a);
    }
    let w = W {
        va: va.try_into().unwrap(),
        mb: [h256(&mbs[0]), h256(&mbs[1])],
        dom,
    };
    Ok((ch, w))
}

// ------------------------------------------------------------ histories

#[derive(Clone, Debug)]
struct A {
    to: usize,
    validator: usize,
    loc: usize,
    /// who signs, for which contract, which location
    signer: usize,
    mb: usize,
    dom: usize,
    sloc: usize,
    /// 0 right, 1 other recovery id, 2 cut, 3 other but equally valid signature
    form: u8,
    caller: u8,
}
#[derive(Clone)]
struct S {
    ch: Chain,
    w: Arc<W>,
    rec: [Recorded; 2],
}
struct M {
    small: bool,
    two: bool,
}
const LOC: [&str; 3] = ["s3://bucket/a", "s3://bucket/A", ""];
fn vkey(i: usize) -> Key {
    Key::new(&format!("announcer {i}"))
}
/// another valid signature (other nonce) of the same digest
fn second_signature(k: &Key, d: &[u8; 32]) -> [u8; 65] {
    use k256::ecdsa::hazmat::SignPrimitive;
    use k256::elliptic_curve::ops::Reduce;
    let z = k256::FieldBytes::from(*d);
    let nonce = <k256::Scalar as Reduce<k256::U256>>::reduce_bytes(&k256::FieldBytes::from(fill32("nonce")));
    let (s, r) = k
        .sk
        .as_nonzero_scalar()
        .try_sign_prehashed(nonce, &z)
        .expect("sign");
    let mut r = r.expect("recovery id");
    let s2 = match s.normalize_s() {
        Some(n) => {
            r = k256::ecdsa::RecoveryId::from_byte(r.to_byte() ^ 1).unwrap();
            n
        }
        None => s,
    };
    let mut o = [0u8; 65];
    o[..64].copy_from_slice(&s2.to_bytes());
    o[64] = 27 + r.to_byte();
    o
}
impl Model for M {
    type S = S;
    type A = A;
    fn init(&self) -> Res<Vec<(String, S)>> {
        let (ch, w) = world(self.small)?;
        Ok(vec![(
            "nothing announced".into(),
            S {
                ch,
                w: Arc::new(w),
                rec: Default::default(),
            },
        )])
    }
    fn actions(&self, _: &S) -> Vec<A> {
        let mut v = vec![];
        for to in 0..if self.two { 2 } else { 1 } {
            for validator in 0..2 {
                for loc in 0..LOC.len() {
                    let good = A {
                        to,
                        validator,
                        loc,
                        signer: validator,
                        mb: to,
                        dom: to,
                        sloc: loc,
                        form: 0,
                        caller: loc as u8 % 2,
                    };
                    v.push(good.clone());
                    v.push(A { form: 3, ..good.clone() });
                    v.push(A { form: 1, ..good.clone() });
                    v.push(A { form: 2, ..good.clone() });
                    v.push(A {
                        signer: 1 - validator,
                        ..good.clone()
                    });
                    v.push(A {
                        mb: 1 - to,
                        ..good.clone()
                    });
                    v.push(A {
                        dom: 1 - to,
                        ..good.clone()
                    });
                    v.push(A {
                        mb: 1 - to,
                        dom: 1 - to,
                        ..good.clone()
                    });
                    v.push(A {
                        sloc: (loc + 1) % 3,
                        ..good
                    });
                }
            }
        }
        v
    }
    fn key(&self, s: &S) -> u128 {
        s.ch.key() ^ dig(&s.rec)
    }
    fn step(&self, s: &S, a: &A, cov: &mut Cov) -> Res<Step<S>> {
        let mut n = s.clone();
        let k = vkey(a.signer);
        let d = digest_of(s.w.dom[a.dom], &s.w.mb[a.mb], LOC[a.sloc].as_bytes(), 0);
        let mut sig = if a.form == 3 { second_signature(&k, &d) } else { k.sign(&d) }.to_vec();
        match a.form {
            1 => sig[64] = 55 - sig[64],
            2 => sig.truncate(64),
            _ => {}
        }
        let val = vkey(a.validator).addr;
        let who = s.ch.user(["alice", "bob"][a.caller as usize]);
        let t = n.ch.exec(&who, &s.w.va[a.to], &announce(&val, LOC[a.loc], &sig), &[]);
        let signed = a.signer == a.validator && a.mb == a.to && a.dom == a.to && a.sloc == a.loc && (a.form == 0 || a.form == 3);
        let known = s.rec[a.to]
            .iter()
            .any(|r| r.0 == val && r.1.iter().any(|l| l == LOC[a.loc]));
        ensure_eq!(t.ok(), signed && !known, "announcement ({})", t.err());
        if t.ok() {
            let r = &mut n.rec[a.to];
            match r.iter_mut().find(|r| r.0 == val) {
                Some(e) => e.1.push(LOC[a.loc].into()),
                None => r.push((val, vec![LOC[a.loc].into()])),
            }
            ensure_eq!(t.calls().len(), 1, "calls");
            cov.hit("recorded");
        } else {
            ensure_eq!(n.ch.key(), s.ch.key(), "state after refusal");
            cov.hit(if signed { "repeat refused" } else { "refused" });
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S, _: &mut Cov) -> Res<()> {
        for i in 0..2 {
            let mut close = vkey(0).addr.to_vec();
            close[19] ^= 1;
            let others: Vec<Vec<u8>> = [0, 1]
                .iter()
                .map(|v| vkey(*v).addr)
                .filter(|v| !s.rec[i].iter().any(|r| r.0 == *v))
                .map(|v| v.to_vec())
                .chain([close, vec![0; 20]])
                .collect();
            check_queries(&s.ch, &s.w.va[i], &s.rec[i], &others)?;
        }
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["recorded", "refused", "repeat refused"]
    }
}

// ------------------------------------------------------------ inputs

#[derive(Clone, Debug)]
enum K {
    Good,
    Upper,
    SigBit(usize),
    ValBit(usize),
    LocBit(usize),
    /// signed with bit-flipped domain / mailbox
    DomBit(usize),
    MbBit(usize),
    How(u8),
    SigLen(usize),
    ValLen(usize),
    V(u8),
    /// signature by another key whose recovered address shares a prefix is infeasible; other keys
    Other(usize),
    Zero,
}
fn input(ch: &Chain, w: &W, k: &K, loc: &str, seed: usize, cov: &mut Cov) -> Res<u128> {
    let key = vkey(seed);
    let mut val = key.addr.to_vec();
    let mut l = loc.to_string();
    let (mut dom, mut mb, mut how) = (w.dom[0], w.mb[0], 0);
    let mut want = Some(false);
    match k {
        K::Good | K::Upper => want = Some(true),
        K::DomBit(b) => dom ^= 1 << b,
        K::MbBit(b) => mb[b / 8] ^= 0x80 >> (b % 8),
        K::How(h) => {
            how = *h;
        }
        _ => {}
    }
    let right = digest_of(w.dom[0], &w.mb[0], loc.as_bytes(), 0);
    let d = digest_of(dom, &mb, loc.as_bytes(), how);
    if d == right && !matches!(k, K::Good | K::Upper) && (dom, mb, how) != (w.dom[0], w.mb[0], 0) {
        return Ok(0); // this derivation coincides with the right one here
    }
    let mut sig = match k {
        K::Other(i) => vkey(100 + i).sign(&d),
        _ => key.sign(&d),
    }
    .to_vec();
    match k {
        K::SigBit(b) => sig[b / 8] ^= 0x80 >> (b % 8),
        K::ValBit(b) => val[b / 8] ^= 0x80 >> (b % 8),
        K::LocBit(b) => {
            let mut x = l.clone().into_bytes();
            if b / 8 >= x.len() {
                x.push(b'x');
            } else {
                x[b / 8] ^= 1 << (b % 8);
            }
            match String::from_utf8(x) {
                Ok(s) => l = s,
                Err(_) => return Ok(1),
            }
        }
        K::SigLen(n) => sig.truncate(*n),
        K::ValLen(n) => {
            if *n <= 20 {
                val.truncate(*n)
            } else {
                let mut p = vec![0; n - 20];
                p.extend(&val);
                val = if n % 2 == 0 { p } else { [val, vec![0; n - 20]].concat() };
            }
            want = Some(val == key.addr);
        }
        K::V(v) => {
            // recovery ids: only 27/28 with the right parity denote this signature
            want = match v {
                v if *v == sig[64] => Some(true),
                _ => Some(false),
            };
            sig[64] = *v;
        }
        K::Zero => {
            sig = vec![0; 65];
            sig[64] = 27;
            val = vec![0; 20];
        }
        _ => {}
    }
    let mut m = announce(&val, &l, &sig);
    if matches!(k, K::Upper) {
        m["announce"]["validator"] = json!(hx(&val).to_uppercase());
        m["announce"]["signature"] = json!(hx(&sig).to_uppercase());
    }
    let mut c2 = ch.clone();
    let al = ch.user("alice");
    let t = c2.exec(&al, &w.va[0], &m, &[]);
    let want = want.unwrap();
    ensure_eq!(t.ok(), want, "announcement ({})", t.err());
    if want {
        check_queries(&c2, &w.va[0], &vec![(key.addr, vec![loc.to_string()])], &[])?;
        cov.hit("recorded");
        let again = c2.clone();
        let t = c2.exec(&al, &w.va[0], &announce(&val, &l, &sig), &[]);
        ensure!(!t.ok(), "the same announcement twice");
        ensure_eq!(c2.key(), again.key(), "state after refusal");
    } else {
        ensure_eq!(c2.key(), ch.key(), "state after refusal");
        cov.hit("refused");
        // and a valid one still goes through
        let t = c2.exec(&al, &w.va[0], &announce(&key.addr, loc, &key.sign(&right)), &[]);
        ensure!(t.ok(), "valid announcement after a refused one: {}", t.err());
        check_queries(&c2, &w.va[0], &vec![(key.addr, vec![loc.to_string()])], &[])?;
    }
    Ok(c2.key())
}

pub fn v01(c: &mut Ctx) {
    c.assume("signatures longer than 65 bytes and the malleated (high-s) form of a valid signature are not judged");
    c.run(
        "histories, one contract",
        &M {
            small: false,
            two: false,
        },
        c.pick(8, 12),
        1_000_000,
    );
    c.run(
        "histories, two mailboxes",
        &M { small: true, two: true },
        c.pick(3, 5),
        1_000_000,
    );
    let locs: Vec<String> = vec![
        "s3://hyperlane-validator/eu-west-1/file.json".into(),
        String::new(),
        "x".into(),
        " s3 ".into(),
        "s3://\u{fc}ml\u{e4}ut/\u{1F600}\u{0}end".into(),
        "a\"b\\c\nd".into(),
        "l".repeat(300),
        "HYPERLANE_ANNOUNCEMENT".into(),
    ];
    let mut v = vec![];
    for small in [false, true] {
        for (li, _) in locs.iter().enumerate() {
            let mut ks = vec![K::Good, K::Upper, K::Zero];
            for h in 1..=HOWS {
                ks.push(K::How(h));
            }
            let all = c.thorough() || li == 0;
            let st = if all { 1 } else { 13 };
            ks.extend((0..520).step_by(st).filter(|b| *b < 512).map(K::SigBit));
            ks.extend((0..160).step_by(st).map(K::ValBit));
            ks.extend((0..32).step_by(if all { 1 } else { 5 }).map(K::DomBit));
            ks.extend((0..256).step_by(st).map(K::MbBit));
            ks.extend((0..=8 * locs[li].len()).filter(|b| b % 8 < 7).step_by(st.min(3)).map(K::LocBit));
            ks.extend((0..65).map(K::SigLen));
            ks.extend((0..48).map(K::ValLen));
            ks.extend((0..5).map(K::Other));
            if all {
                ks.extend((0..=255).map(K::V));
            } else {
                ks.extend([0u8, 1, 26, 27, 28, 29, 30, 31].map(K::V));
            }
            for k in ks {
                v.push((small, li, k));
            }
        }
    }
    // several keys: both recovery ids
    for seed in 0..8 {
        for form in [K::Good, K::V(27), K::V(28)] {
            v.push((seed % 2 == 0, 0, form));
        }
    }
    let n = v.len();
    let v: Vec<(usize, bool, usize, K)> = v
        .into_iter()
        .enumerate()
        .map(|(i, (a, b, k))| (if i + 24 >= n { i + 24 - n } else { b % 3 }, a, b, k))
        .collect();
    c.cases(
        "every single deviation of an announcement",
        || Ok([world(false)?, world(true)?]),
        v,
        &["recorded", "refused"],
        |ws, (seed, small, li, k), cov| {
            let (ch, w) = &ws[*small as usize];
            input(ch, w, k, &locs[*li], *seed, cov)
        },
    );
    // locations that are close to each other are different locations
    let long = "k".repeat(257);
    let mut close: Vec<String> = vec![
        "s3://b/a", "s3://b/a/", "s3://b/a//", "s3://b//a", "s3://b/A", "S3://b/a", " s3://b/a", "s3://b/a ", "s3://b/a\n", "s3://b/a\t",
        "s3://b/a\0", "\0s3://b/a", "s3://b/a?", "s3://b/a#", "s3://b/%61", "s3:/b/a", "s3://b/ab", "s3://b", "s3://b/", "s3://b/.",
        "s3://b/a/.", "s3://b/./a", "s3://b/a,s3://b/c", "s3://b/c", "file:///b/a", "", " ", "/", "0", "00", "a", "aa", "\u{e9}", "e\u{301}",
        "\u{c9}", "\"", "\\", "\\\"",
    ]
    .into_iter()
    .map(String::from)
    .collect();
    for n in [31usize, 32, 33, 63, 64, 65, 127, 128, 129, 135, 136, 137, 255, 256, 257] {
        close.push(long[..n].to_string());
        close.push(format!("{}l", &long[..n - 1]));
    }
    // hashes with four bytes in common: of the location, alone or with the validator
    let who = vkey(0).addr;
    let loc = "s3://c/";
    for l in [
        collisions(&[&who[..], loc.as_bytes()].concat(), true),
        collisions(loc.as_bytes(), true),
    ] {
        for (at, i, j) in l {
            if at % 14 == 0 {
                close.extend([format!("{loc}{i}"), format!("{loc}{j}")]);
            }
        }
    }
    let mut v = vec![];
    for i in 0..close.len() {
        for j in 0..close.len() {
            if i != j {
                v.push((i, j));
            }
        }
    }
    c.cases(
        "close locations",
        || world(false),
        v,
        &["recorded", "repeat refused"],
        |(c0, w), (i, j), cov| {
            let mut ch = c0.clone();
            let al = ch.user("alice");
            let mut rec: Recorded = vec![];
            for (step, (val, l)) in [(0, i), (1, j), (0, j), (1, i), (0, i), (1, j)].into_iter().enumerate() {
                let key = vkey(val);
                let loc = &close[*l];
                let sig = key.sign(&digest_of(w.dom[0], &w.mb[0], loc.as_bytes(), 0));
                let t = ch.exec(&al, &w.va[0], &announce(&key.addr, loc, &sig), &[]);
                ensure_eq!(t.ok(), step < 4, "announcement of {loc:?} by validator {val} ({})", t.err());
                if step >= 4 {
                    cov.hit("repeat refused");
                    continue;
                }
                cov.hit("recorded");
                match rec.iter_mut().find(|r| r.0 == key.addr) {
                    Some(e) => e.1.push(loc.clone()),
                    None => rec.push((key.addr, vec![loc.clone()])),
                }
            }
            check_queries(&ch, &w.va[0], &rec, &[])?;
            Ok(ch.key())
        },
    );
    // every length up to a bound, and lengths around the usual limits
    let mut lens: Vec<usize> = (0..c.pick(300, 1100)).collect();
    for k in [511usize, 1000, 1023, 2047, 2083, 4095, 8191, 16383, 32767, 65535, 100_000] {
        lens.extend([k - 1, k, k + 1, k + 2]);
    }
    c.cases(
        "location lengths",
        || world(false),
        lens,
        &["recorded"],
        |(c0, w), n, cov| {
            let mut ch = c0.clone();
            let al = ch.user("alice");
            let key = vkey(0);
            let loc: String = (0..*n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
            let sig = key.sign(&digest_of(w.dom[0], &w.mb[0], loc.as_bytes(), 0));
            let m = announce(&key.addr, &loc, &sig);
            let t = ch.exec(&al, &w.va[0], &m, &[]);
            ensure!(t.ok(), "announcement of {n} characters: {}", t.err());
            let t = ch.exec(&al, &w.va[0], &m, &[]);
            ensure!(!t.ok(), "the same announcement twice");
            check_queries(&ch, &w.va[0], &vec![(key.addr, vec![loc])], &[])?;
            cov.hit("recorded");
            Ok(ch.key())
        },
    );
    let many = c.pick(140usize, 1100);
    c.cases(
        "many validators and locations",
        || world(false),
        vec![0usize, 1, 2, 3, 4],
        &["recorded"],
        move |(ch, w), order, cov| {
            let mut ch = ch.clone();
            let al = ch.user("alice");
            let (nv, nl) = match order {
                0 => (40usize, 2usize),
                1 => (2, 70),
                2 => (9, 9),
                3 => (many, 1),
                _ => (1, many),
            };
            let every = nv.max(nl) / 10 + 1;
            let mut rec: Recorded = vec![];
            for k in 0..nv * nl {
                // validators interleaved
                let (i, j) = if *order == 2 { ((k * 5) % nv, k / nv) } else { (k % nv, k / nv) };
                let key = vkey(i);
                let loc = format!("s3://bucket{}/{}", j % 3, (j * 11) % 1009);
                let sig = key.sign(&digest_of(w.dom[0], &w.mb[0], loc.as_bytes(), 0));
                call(&mut ch, &al, &w.va[0], announce(&key.addr, &loc, &sig))?;
                match rec.iter_mut().find(|r| r.0 == key.addr) {
                    Some(e) => e.1.push(loc),
                    None => rec.push((key.addr, vec![loc])),
                }
                if k % every == 0 || k + 1 == nv * nl {
                    check_queries(&ch, &w.va[0], &rec, &[vec![7; 20]])?;
                }
                cov.hit("recorded");
            }
            // nothing can be repeated
            for (a, ls) in &rec {
                let i = (0..nv).find(|i| vkey(*i).addr == *a).unwrap();
                if (i + ls.len()) % 10 > 3 {
                    continue;
                }
                for l in ls {
                    let sig = vkey(i).sign(&digest_of(w.dom[0], &w.mb[0], l.as_bytes(), 0));
                    let t = ch.exec(&al, &w.va[0], &announce(a, l, &sig), &[]);
                    ensure!(!t.ok(), "repeated {l}");
                }
            }
            check_queries(&ch, &w.va[0], &rec, &[])?;
            Ok(ch.key())
        },
    );
}
