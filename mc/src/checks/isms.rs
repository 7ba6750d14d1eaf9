//! I01 - I05: interchain security modules (and the pausable hook).
use crate::chain::{h256, Chain, Ev};
use crate::explore::{Cov, CovExt, Ctx, Model, Res, Step};
use crate::util::*;
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const LOCAL: u32 = 0x01fe_0304;
const REMOTE: u32 = 0x0a0b_0c0d;

fn msg(origin: u32, body: &[u8]) -> Msg {
    Msg {
        version: 3,
        nonce: 0x0102_0305,
        origin,
        sender: fill32("sender"),
        dest: LOCAL,
        recipient: fill32("recipient"),
        body: body.to_vec(),
    }
}

// ------------------------------------------------------------------ I01

/// what a validator signed
#[derive(Clone, Debug)]
struct Cp {
    origin: u32,
    tree: [u8; 32],
    root: [u8; 32],
    index: u32,
    id: [u8; 32],
}
impl Cp {
    fn digest(&self) -> [u8; 32] {
        checkpoint_digest(self.origin, &self.tree, &self.root, self.index, &self.id)
    }
    fn meta(&self, sigs: &[[u8; 65]]) -> Vec<u8> {
        multisig_meta(&self.tree, &self.root, self.index, sigs)
    }
}
fn cp(m: &Msg) -> Cp {
    Cp {
        origin: m.origin,
        tree: fill32("tree"),
        root: fill32("root"),
        index: 0x0000_0107,
        id: m.id(),
    }
}

/// the other encoding (s -> n - s) of the same signature
fn twin(sig: &[u8; 65]) -> [u8; 65] {
    let order = hex::decode("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141").unwrap();
    let mut o = *sig;
    let mut borrow = 0i32;
    for i in (0..32).rev() {
        let x = order[i] as i32 - sig[32 + i] as i32 - borrow;
        borrow = (x < 0) as i32;
        o[32 + i] = (x & 0xff) as u8;
    }
    o[64] = 27 + (1 - (sig[64] - 27));
    o
}

fn key(i: usize) -> Key {
    Key::new(&format!("validator {i}"))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Slot {
    /// validator i signed this checkpoint
    Good(usize),
    /// the same signature in its other encoding
    Twin(usize),
    /// a key that is not enrolled anywhere
    Foreign,
    /// a key enrolled for another domain only
    Elsewhere,
    /// validator i signed a checkpoint that differs in one field
    Wrong(usize, u8),
    /// not a signature at all
    Junk(u8),
}

fn set_validators(domain: u32, threshold: usize, vals: &[Vec<u8>]) -> Value {
    json!({"set_validators": {"domain": domain, "threshold": threshold,
        "validators": vals.iter().map(|v| hx(v)).collect::<Vec<_>>()}})
}

fn slot_sig(s: Slot, c: &Cp) -> [u8; 65] {
    let wrong = |k: u8| -> [u8; 32] {
        let mut x = c.clone();
        match k {
            0 => x.origin = x.origin.swap_bytes(),
            1 => x.tree[0] ^= 1,
            2 => x.root[31] ^= 1,
            3 => x.index += 1,
            4 => x.id[31] ^= 1,
            5 => x.index = x.index.swap_bytes(),
            6 => x.origin = LOCAL,
            7 => std::mem::swap(&mut x.tree, &mut x.root),
            8 => {
                // no personal-message prefix
                let mut d = c.origin.to_be_bytes().to_vec();
                d.extend(c.tree);
                d.extend(b"HYPERLANE");
                let mut v = crate::chain::keccak(&d).to_vec();
                v.extend(c.root);
                v.extend(c.index.to_be_bytes());
                v.extend(c.id);
                return crate::chain::keccak(&v);
            }
            9 => {
                // the checkpoint without the message id
                let mut d = c.origin.to_be_bytes().to_vec();
                d.extend(c.tree);
                d.extend(b"HYPERLANE");
                let mut v = crate::chain::keccak(&d).to_vec();
                v.extend(c.root);
                v.extend(c.index.to_be_bytes());
                return eth_hash(&crate::chain::keccak(&v));
            }
            _ => return eth_hash(&c.id),
        }
        x.digest()
    };
    match s {
        Slot::Good(i) => key(i).sign(&c.digest()),
        Slot::Twin(i) => twin(&key(i).sign(&c.digest())),
        Slot::Foreign => Key::new("foreign").sign(&c.digest()),
        Slot::Elsewhere => Key::new("elsewhere").sign(&c.digest()),
        Slot::Wrong(i, k) => key(i).sign(&wrong(k)),
        Slot::Junk(k) => {
            let mut g = key(0).sign(&c.digest());
            match k {
                0 => return [0; 65],
                1 => return [0xff; 65],
                2 => g[64] += 2,
                3 => g[64] -= 27,
                4 => g[64] = 0xff,
                5 => g[..32].fill(0),
                6 => g[32..64].fill(0),
                _ => g[0] ^= 0x80,
            }
            g
        }
    }
}

#[derive(Clone, Debug)]
struct K1 {
    /// enrolled validators (may repeat)
    set: Vec<usize>,
    t: usize,
    slots: Vec<Slot>,
    /// bytes cut from (negative: appended to) the end of the metadata
    cut: isize,
}

#[derive(Clone)]
struct W1 {
    ch: Chain,
    ism: BTreeMap<(Vec<usize>, usize), String>,
    sigs: BTreeMap<Slot, [u8; 65]>,
    m: Msg,
    c: Cp,
}

fn i01_world(sets: &[(Vec<usize>, usize)], slots: &BTreeSet<Slot>) -> Res<W1> {
    let mut ch = Chain::new("osmo");
    let owner = ch.user("owner");
    let m = msg(REMOTE, b"multisig");
    let c = cp(&m);
    let mut ism = BTreeMap::new();
    for (set, t) in sets {
        let a = inst(&mut ch, "ism_multisig", &owner, json!({"owner": owner}))?;
        let vals: Vec<Vec<u8>> = set.iter().map(|i| key(*i).addr.to_vec()).collect();
        call(&mut ch, &owner, &a, set_validators(REMOTE, *t, &vals))?;
        // the same validators and more, threshold one, for other domains
        let mut more = vals.clone();
        more.push(Key::new("elsewhere").addr.to_vec());
        for d in [REMOTE.swap_bytes(), LOCAL, 0, REMOTE + 1] {
            call(&mut ch, &owner, &a, set_validators(d, 1, &more))?;
        }
        ism.insert((set.clone(), *t), a);
    }
    Ok(W1 {
        ch,
        ism,
        sigs: slots.iter().map(|s| (*s, slot_sig(*s, &c))).collect(),
        m,
        c,
    })
}

fn i01_case(w: &W1, k: &K1, cov: &mut Cov) -> Res<u128> {
    let ism = &w.ism[&(k.set.clone(), k.t)];
    let sigs: Vec<[u8; 65]> = k.slots.iter().map(|s| w.sigs[s]).collect();
    let mut meta = w.c.meta(&sigs);
    if k.cut >= 0 {
        meta.truncate(meta.len() - k.cut as usize);
    } else {
        meta.extend(fill("tail", -k.cut as usize));
    }
    // signatures that are completely there
    let whole = if k.cut > 0 {
        k.slots.len().saturating_sub((k.cut as usize).div_ceil(65))
    } else {
        k.slots.len()
    };
    let signed: BTreeSet<usize> = k.slots[..whole]
        .iter()
        .filter_map(|s| match s {
            Slot::Good(i) | Slot::Twin(i) if k.set.contains(i) => Some(*i),
            _ => None,
        })
        .collect();
    let strict: BTreeSet<usize> = k
        .slots
        .iter()
        .filter_map(|s| match s {
            Slot::Good(i) if k.set.contains(i) => Some(*i),
            _ => None,
        })
        .collect();
    let well_formed = k.cut == 0 && !k.slots.iter().any(|s| matches!(s, Slot::Junk(_) | Slot::Twin(_)));
    let r = verdict_full(&w.ch, ism, &meta, &w.m.enc());
    let v = *r.as_ref().unwrap_or(&false);
    if v {
        ensure!(
            signed.len() >= k.t,
            "accepted with signatures of {} of {} needed distinct validators",
            signed.len(),
            k.t
        );
        cov.hit("accepted");
    } else {
        ensure!(
            !(well_formed && strict.len() >= k.t),
            "refused ({r:?}) although {} distinct validators signed, threshold {}",
            strict.len(),
            k.t
        );
        cov.hit("refused");
        if k.slots.len() >= k.t {
            cov.hit("refused with enough signatures in number");
        }
    }
    Ok(dig(&(v, k)))
}

/// one deviation from an accepted verification
#[derive(Clone, Debug)]
enum Dev {
    None,
    MetaBit(usize),
    MsgBit(usize),
    /// message from another origin at which the same validators are enrolled; signatures for both
    /// (checked, signed)
    Origin(u32, u32),
    Index(u32, u32),
    /// signatures over the id of this other message
    Other(u8),
    MetaLen(usize),
    Large(usize, usize, u8),
    /// enrolled instead of the signer: an address that differs in this bit / this way
    Near(usize),
    /// trees and roots of unusual looks: checked, signed
    Fields([usize; 2], [usize; 2]),
}
/// 32-byte values of unusual looks
fn looks(k: usize) -> [u8; 32] {
    match k {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => pad32(&[1]),
        3 => pad32(&fill("account", 20)),
        4 => {
            let mut x = [0; 32];
            x[0] = 1;
            x
        }
        5 => {
            let mut x = fill32("tree");
            x[12..].fill(0);
            x
        }
        _ => fill32("tree"),
    }
}

/// addresses close to the given one
fn near(a: &[u8; 20], k: usize) -> Option<Vec<u8>> {
    let mut v = a.to_vec();
    match k {
        0..=159 => v[k / 8] ^= 0x80 >> (k % 8),
        160..=179 => v[k - 160] = 0,
        180..=199 => v[k - 180] ^= 0xff,
        200 => v.reverse(),
        201 => v.rotate_left(1),
        202 => v.rotate_right(1),
        203 => v[..10].fill(0),
        204 => v[10..].fill(0),
        205 => v[..10].fill(0xff),
        206 => v[10..].fill(0xff),
        _ => v.swap(0, 19),
    }
    (v != a).then_some(v)
}

pub fn i01(c: &mut Ctx) {
    c.assume("signatures are built from fixed secp256k1 keys; unforgeability of ECDSA and collision-freeness of keccak are assumed");
    let max = c.pick(3, 4);
    let mut sets: Vec<(Vec<usize>, usize)> = vec![];
    for n in 1..=max {
        for t in 1..=n {
            sets.push(((0..n).collect(), t));
        }
    }
    // enrolled twice, enrolled in another order
    for t in 1..=3 {
        sets.push((vec![0, 0, 1], t));
        sets.push((vec![2, 0, 1], t));
    }
    for t in 1..=2 {
        sets.push((vec![0, 0], t));
    }
    let mut alphabet: Vec<Slot> = (0..max).map(Slot::Good).collect();
    alphabet.extend([
        Slot::Twin(0),
        Slot::Twin(1),
        Slot::Foreign,
        Slot::Elsewhere,
        Slot::Wrong(0, 4),
        Slot::Wrong(1, 3),
        Slot::Junk(2),
    ]);
    let mut v = vec![];
    for (set, t) in &sets {
        for s in seqs(alphabet.len(), c.pick(3, 4)) {
            v.push(K1 {
                set: set.clone(),
                t: *t,
                slots: s.iter().map(|i| alphabet[*i]).collect(),
                cut: 0,
            });
        }
    }
    // every kind of wrong target and junk, next to good signatures
    let mut special: Vec<Slot> = vec![];
    for k in 0..=10 {
        special.push(Slot::Wrong(0, k));
        special.push(Slot::Wrong(1, k));
    }
    special.extend((0..=7).map(Slot::Junk));
    for (set, t) in &sets {
        for a in &special {
            v.push(K1 { set: set.clone(), t: *t, slots: vec![*a], cut: 0 });
            for b in special.iter().chain(&alphabet) {
                v.push(K1 { set: set.clone(), t: *t, slots: vec![*a, *b], cut: 0 });
                for x in [Slot::Good(0), Slot::Good(1)] {
                    for p in 0..3 {
                        let mut l = vec![*a, *b];
                        l.insert(p, x);
                        v.push(K1 { set: set.clone(), t: *t, slots: l, cut: 0 });
                    }
                }
            }
        }
        // many copies of one signature
        for n in [2usize, 3, 5, 20, 100, 256, 257] {
            for s in [Slot::Good(0), Slot::Foreign, Slot::Wrong(0, 4)] {
                v.push(K1 { set: set.clone(), t: *t, slots: vec![s; n], cut: 0 });
                let mut l = vec![s; n];
                l.extend([Slot::Good(1), Slot::Good(2)]);
                v.push(K1 { set: set.clone(), t: *t, slots: l, cut: 0 });
            }
        }
        // incomplete trailing bytes
        for cut in (1..140).chain([-1, -2, -32, -64, -66, -130]) {
            v.push(K1 {
                set: set.clone(),
                t: *t,
                slots: vec![Slot::Good(0), Slot::Good(1), Slot::Good(2)],
                cut,
            });
        }
    }
    let mut all: BTreeSet<Slot> = alphabet.iter().chain(&special).cloned().collect();
    all.extend((0..3).map(Slot::Good));
    let sets2 = sets.clone();
    c.cases(
        "signature lists",
        move || i01_world(&sets2, &all),
        v,
        &["accepted", "refused", "refused with enough signatures in number"],
        i01_case,
    );

    // deviations
    let nmeta = 68 + 2 * 65;
    let nmsg = 77 + 8;
    let mut v = vec![Dev::None];
    v.extend((0..nmeta * 8).map(Dev::MetaBit));
    v.extend((0..nmsg * 8).map(Dev::MsgBit));
    let ds = domains(REMOTE);
    for a in &ds {
        for b in &ds {
            v.push(Dev::Origin(*a, *b));
        }
    }
    let idx = [0u32, 1, 2, 255, 256, 257, 0x0107, 0x0701_0000, 0x0100_0000, 65535, 65536, u32::MAX, u32::MAX - 1];
    for a in idx {
        for b in idx {
            v.push(Dev::Index(a, b));
        }
    }
    for a in 0..49 {
        for b in 0..49 {
            v.push(Dev::Fields([a / 7, a % 7], [b / 7, b % 7]));
        }
    }
    v.extend((0..8).map(Dev::Other));
    v.extend((0..=nmeta + 70).map(Dev::MetaLen));
    for n in [1usize, 2, 3, 5, 8, 13, 20, 64, 127, 128, 129, 254, 255, 256, 257, 300] {
        let mut ts: Vec<usize> = vec![1, 2, 3, n / 2, n / 2 + 1, n.saturating_sub(1), n];
        ts.retain(|t| *t >= 1 && *t <= n && *t <= 255);
        ts.dedup();
        for t in ts {
            for k in 0..6 {
                v.push(Dev::Large(n, t, k));
            }
        }
    }
    v.extend((0..208).map(Dev::Near));
    let base = || -> Res<(Chain, String, Msg, Cp)> {
        let mut ch = Chain::new("osmo");
        let owner = ch.user("owner");
        let a = inst(&mut ch, "ism_multisig", &owner, json!({"owner": owner}))?;
        let vals: Vec<Vec<u8>> = (0..3).map(|i| key(i).addr.to_vec()).collect();
        // enrolled for every neighbouring domain as well
        for d in domains(REMOTE) {
            call(&mut ch, &owner, &a, set_validators(d, 2, &vals))?;
        }
        let m = msg(REMOTE, b"deviants");
        let c = cp(&m);
        Ok((ch, a, m, c))
    };
    c.cases(
        "deviations from an accepted checkpoint",
        base,
        v,
        &["accepted", "refused"],
        |(ch, ism, m, c), d, cov| {
            let good = |c: &Cp| [key(2).sign(&c.digest()), key(0).sign(&c.digest())];
            let check = |want: bool, meta: &[u8], m: &[u8], cov: &mut Cov| -> Res<u128> {
                let r = verdict_full(ch, ism, meta, m);
                ensure_eq!(*r.as_ref().unwrap_or(&false), want, "verdict ({r:?})");
                cov.hit(if want { "accepted" } else { "refused" });
                Ok(want as u128)
            };
            let r = match d {
                Dev::None => check(true, &c.meta(&good(c)), &m.enc(), cov)?,
                Dev::MetaBit(i) => {
                    let mut meta = c.meta(&good(c));
                    meta[i / 8] ^= 0x80 >> (i % 8);
                    check(false, &meta, &m.enc(), cov)?
                }
                Dev::MsgBit(i) => {
                    let mut e = m.enc();
                    e[i / 8] ^= 0x80 >> (i % 8);
                    check(false, &c.meta(&good(c)), &e, cov)?
                }
                Dev::Origin(a, b) => {
                    let x = msg(*a, b"deviants");
                    let cx = cp(&x);
                    let signed = Cp { origin: *b, ..cx.clone() };
                    check(a == b, &cx.meta(&good(&signed)), &x.enc(), cov)?
                }
                Dev::Index(a, b) => {
                    let cx = Cp { index: *a, ..c.clone() };
                    let signed = Cp { index: *b, ..c.clone() };
                    check(a == b, &cx.meta(&good(&signed)), &m.enc(), cov)?
                }
                Dev::Fields(a, b) => {
                    let f = |k: &[usize; 2]| Cp { tree: looks(k[0]), root: looks(k[1]), ..c.clone() };
                    check(a == b, &f(a).meta(&good(&f(b))), &m.enc(), cov)?
                }
                Dev::Other(k) => {
                    let mut o = m.clone();
                    match k {
                        0 => o.version = 0,
                        1 => o.nonce += 1,
                        2 => o.sender[0] ^= 1,
                        3 => o.dest += 1,
                        4 => o.recipient[0] ^= 1,
                        5 => o.body.push(0),
                        6 => {
                            o.body.pop();
                        }
                        _ => {
                            o.body.clear();
                        }
                    }
                    let signed = Cp { id: o.id(), ..c.clone() };
                    check(false, &c.meta(&good(&signed)), &m.enc(), cov)?;
                    check(false, &c.meta(&good(c)), &o.enc(), cov)?;
                    check(true, &c.meta(&good(&signed)), &o.enc(), cov)?
                }
                Dev::MetaLen(n) => {
                    let mut meta = c.meta(&good(c));
                    let full = meta.len();
                    meta.resize(*n, 0);
                    let r = verdict(ch, ism, &meta, &m.enc());
                    ensure!(!r || *n >= full, "accepted with only {n} bytes of metadata");
                    cov.hit(if r { "accepted" } else { "refused" });
                    (*n as u128) << 1 | r as u128
                }
                Dev::Near(k) => {
                    let a = key(0).addr;
                    let Some(n) = near(&a, *k) else { return Ok(dig(d)) };
                    let b = key(1).addr.to_vec();
                    let sig = |i: usize| key(i).sign(&c.digest());
                    let lists: [(Vec<Vec<u8>>, usize, bool); 6] = [
                        (vec![n.clone()], 1, false),
                        (vec![n.clone(), b.clone()], 2, false),
                        (vec![b.clone(), n.clone()], 2, false),
                        (vec![n.clone(), a.to_vec()], 2, false),
                        (vec![n.clone(), a.to_vec(), b.clone()], 2, true),
                        (vec![b.clone(), a.to_vec(), n.clone()], 3, false),
                    ];
                    for (vals, t, both) in lists {
                        let mut ch = ch.clone();
                        let owner = ch.user("owner");
                        call(&mut ch, &owner, ism, set_validators(REMOTE, t, &vals))?;
                        for sigs in [vec![sig(0)], vec![sig(0), sig(1)], vec![sig(1), sig(0), sig(0)]] {
                            let r = verdict_full(&ch, ism, &c.meta(&sigs), &m.enc());
                            let want = both && sigs.len() > 1;
                            ensure_eq!(*r.as_ref().unwrap_or(&false), want, "enrolled {vals:?}, threshold {t} ({r:?})");
                            cov.hit(if want { "accepted" } else { "refused" });
                        }
                    }
                    0
                }
                Dev::Large(n, t, k) => {
                    let mut ch = ch.clone();
                    let owner = ch.user("owner");
                    let keys: Vec<Key> = (0..*n).map(|i| Key::new(&format!("large {i}"))).collect();
                    let vals: Vec<Vec<u8>> = keys.iter().map(|k| k.addr.to_vec()).collect();
                    call(&mut ch, &owner, ism, set_validators(REMOTE, *t, &vals))?;
                    let sg = |i: usize| keys[i].sign(&c.digest());
                    let sigs: Vec<[u8; 65]> = match k {
                        // the first t, the last t in reverse, spread
                        0 => (0..*t).map(sg).collect(),
                        1 => (0..*t).map(|i| sg(n - 1 - i)).collect(),
                        2 => (0..*t).map(|i| sg(i * n / t)).collect(),
                        // one too few
                        3 => (0..*t - 1).map(sg).collect(),
                        // one too few, padded with repetitions
                        4 => (0..*t - 1).chain((0..*t).map(|i| i % (*t - 1).max(1)).take(if *t > 1 { *t } else { 0 })).map(sg).collect(),
                        // foreign ones first, the right ones at the very end
                        _ => (0..3)
                            .map(|i| Key::new(&format!("stranger {i}")).sign(&c.digest()))
                            .chain((0..*t).map(|i| sg(n - 1 - i)))
                            .collect(),
                    };
                    let want = !matches!(k, 3 | 4);
                    let r = verdict_full(&ch, ism, &c.meta(&sigs), &m.enc());
                    ensure_eq!(*r.as_ref().unwrap_or(&false), want, "{n} validators, threshold {t} ({r:?})");
                    cov.hit(if want { "accepted" } else { "refused" });
                    dig(&(n, t, k))
                }
            };
            Ok(r ^ dig(d))
        },
    );
}

// ------------------------------------------------------------------ I02

const D2: [u32; 4] = [REMOTE, 0x0d0c_0b0a, REMOTE ^ 1, 0];
#[derive(Clone, Debug)]
enum A2 {
    /// caller, domain, threshold, validators (indices; 9x = malformed)
    Set(u8, usize, usize, Vec<usize>),
    Unset(u8, usize),
}
struct W2 {
    ism: String,
    /// per domain: message, metadata per signer subset
    probe: Vec<(Msg, Vec<(Vec<usize>, Vec<u8>)>)>,
}
#[derive(Clone)]
struct S2 {
    ch: Chain,
    w: Arc<W2>,
    cfg: BTreeMap<u32, (usize, Vec<Vec<u8>>)>,
}
fn val(i: usize) -> Vec<u8> {
    match i {
        90 => fill("short", 19),
        91 => fill("long", 21),
        92 => vec![],
        93 => fill("wide", 32),
        _ => key(i).addr.to_vec(),
    }
}
struct M2 {
    doms: usize,
    wide: bool,
}
impl Model for M2 {
    type S = S2;
    type A = A2;
    fn init(&self) -> Res<Vec<(String, S2)>> {
        let mut ch = Chain::new("osmo");
        let owner = ch.user("owner");
        let ism = inst(&mut ch, "ism_multisig", &owner, json!({"owner": owner}))?;
        let probe = D2
            .iter()
            .map(|d| {
                let m = msg(*d, b"cfg");
                let c = cp(&m);
                let subsets: [&[usize]; 6] = [&[0], &[1], &[2], &[0, 1], &[2, 1], &[2, 0, 1]];
                let metas = subsets
                    .iter()
                    .map(|s| {
                        let sigs: Vec<_> = s.iter().map(|i| key(*i).sign(&c.digest())).collect();
                        (s.to_vec(), c.meta(&sigs))
                    })
                    .collect();
                (m, metas)
            })
            .collect();
        Ok(vec![(
            "no domain configured".into(),
            S2 {
                ch,
                w: Arc::new(W2 { ism, probe }),
                cfg: BTreeMap::new(),
            },
        )])
    }
    fn actions(&self, _: &S2) -> Vec<A2> {
        let mut v = vec![];
        for d in 0..self.doms {
            v.push(A2::Unset(0, d));
            v.push(A2::Unset(1, d));
            v.push(A2::Set(1, d, 1, vec![0]));
            v.push(A2::Set(0, d, 1, vec![0]));
            v.push(A2::Set(0, d, 2, vec![2, 1]));
            v.push(A2::Set(0, d, 2, vec![0, 1, 2]));
            v.push(A2::Set(0, d, 0, vec![1]));
            v.push(A2::Set(0, d, 3, vec![1, 0]));
            v.push(A2::Set(0, d, 1, vec![1, 90]));
            if self.wide {
                v.push(A2::Set(0, d, 3, vec![1, 0, 2]));
                v.push(A2::Set(0, d, 1, vec![1, 2]));
                // the same validators with another threshold
                v.push(A2::Set(0, d, 1, vec![0, 1, 2]));
                v.push(A2::Set(0, d, 1, vec![2, 1]));
                v.push(A2::Set(0, d, 0, vec![]));
                v.push(A2::Set(0, d, 1, vec![91]));
                v.push(A2::Set(0, d, 1, vec![92, 0]));
            }
        }
        v
    }
    fn key(&self, s: &S2) -> u128 {
        s.ch.key() ^ dig(&s.cfg)
    }
    fn step(&self, s: &S2, a: &A2, cov: &mut Cov) -> Res<Step<S2>> {
        let mut n = s.clone();
        let who = |w: u8| s.ch.user(if w == 0 { "owner" } else { "mallory" });
        let t = match a {
            A2::Set(w, d, t, l) => {
                let vals: Vec<Vec<u8>> = l.iter().map(|i| val(*i)).collect();
                let good = *w == 0 && *t >= 1 && *t <= l.len() && vals.iter().all(|v| v.len() == 20);
                let r = n.ch.exec(&who(*w), &s.w.ism, &set_validators(D2[*d], *t, &vals), &[]);
                ensure_eq!(r.ok(), good, "configuration ({})", r.err());
                if good {
                    n.cfg.insert(D2[*d], (*t, vals));
                }
                r
            }
            A2::Unset(w, d) => {
                let r = n.ch.exec(&who(*w), &s.w.ism, &json!({"unset_domain": {"domain": D2[*d]}}), &[]);
                ensure!(*w == 0 || !r.ok(), "a stranger removed a domain");
                // removing what is not there may succeed or not, but must not matter
                ensure!(
                    *w != 0 || r.ok() || !s.cfg.contains_key(&D2[*d]),
                    "owner cannot remove a domain: {}",
                    r.err()
                );
                if *w == 0 {
                    n.cfg.remove(&D2[*d]);
                }
                r
            }
        };
        if t.ok() {
            cov.hit("configured");
        } else {
            ensure_eq!(n.ch.key(), s.ch.key(), "state after a refused change");
            cov.hit("refused");
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S2, cov: &mut Cov) -> Res<()> {
        for (i, d) in D2.iter().enumerate() {
            let (m, metas) = &s.w.probe[i];
            let q = s.ch.query(&s.w.ism, &json!({"multisig_ism": {"enrolled_validators": {"domain": d}}}));
            let vi = s.ch.query(&s.w.ism, &json!({"ism": {"verify_info": {"message": hx(&m.enc())}}}));
            match s.cfg.get(d) {
                Some((t, vals)) => {
                    let want: Vec<String> = vals.iter().map(|v| hx(v)).collect();
                    for (what, r) in [("enrolled validators", q), ("verification info", vi)] {
                        let r = r.map_err(|e| format!("{what} of {d}: {e}"))?;
                        ensure_eq!(r["threshold"].as_u64(), Some(*t as u64), "threshold in {what} of {d}");
                        ensure_eq!(r["validators"], json!(want), "{what} of {d}");
                    }
                    for (signers, meta) in metas {
                        let cnt = signers.iter().filter(|k| vals.contains(&val(**k))).count();
                        ensure_eq!(
                            verdict(&s.ch, &s.w.ism, meta, &m.enc()),
                            cnt >= *t,
                            "verdict on a message from {d} signed by {signers:?}"
                        );
                    }
                    cov.hit("configured domain checked");
                }
                None => {
                    for (what, r) in [("enrolled validators", q), ("verification info", vi)] {
                        if let Ok(r) = r {
                            ensure!(
                                r["validators"].as_array().map_or(true, |l| l.is_empty()),
                                "{what} of the unconfigured domain {d}: {r}"
                            );
                        }
                    }
                    for (signers, meta) in metas {
                        ensure!(
                            !verdict(&s.ch, &s.w.ism, meta, &m.enc()),
                            "message from unconfigured domain {d} accepted, signed by {signers:?}"
                        );
                    }
                    ensure!(
                        !verdict(&s.ch, &s.w.ism, &cp(m).meta(&[]), &m.enc()),
                        "message from unconfigured domain {d} accepted without signatures"
                    );
                    cov.hit("unconfigured domain checked");
                }
            }
        }
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["configured", "refused", "configured domain checked", "unconfigured domain checked"]
    }
}

/// sizes of lists
const MANY: [usize; 26] = [
    1, 2, 3, 4, 7, 8, 9, 10, 11, 15, 16, 17, 30, 31, 32, 33, 40, 41, 64, 65, 100, 128, 129, 200, 255, 256,
];
pub fn i02(c: &mut Ctx) {
    c.run(
        "configuration histories, four domains",
        &M2 { doms: 4, wide: false },
        c.pick(6, 8),
        1_000_000,
    );
    c.run(
        "configuration histories, more configurations",
        &M2 { doms: c.pick(2, 3), wide: true },
        c.pick(6, 8),
        1_000_000,
    );
    // every size and threshold around the boundaries
    let mut v: Vec<(usize, usize, Option<(usize, usize)>)> = vec![];
    for n in (0..=6).chain([254, 255, 256, 257, 258, 511, 512, 513]) {
        for t in (0..=7).chain([127, 128, 254, 255]) {
            v.push((n, t, None));
            if n <= 4 {
                for p in 0..n {
                    for len in [0usize, 1, 19, 21, 22, 32, 33, 40, 64, 65] {
                        v.push((n, t, Some((p, len))));
                    }
                }
            }
        }
    }
    c.cases(
        "sizes and thresholds",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let a = inst(&mut ch, "ism_multisig", &owner, json!({"owner": owner}))?;
            call(&mut ch, &owner, &a, set_validators(REMOTE, 1, &[val(0)]))?;
            Ok((ch, a))
        },
        v,
        &["accepted", "refused"],
        |(c0, a), (n, t, bad), cov| {
            let mut ch = c0.clone();
            let owner = ch.user("owner");
            let mut vals: Vec<Vec<u8>> = (0..*n).map(|i| fill(&format!("v{i}"), 20)).collect();
            if let Some((p, len)) = bad {
                vals[*p] = fill("bad", *len);
            }
            let want = *t >= 1 && t <= n && bad.is_none();
            let r = ch.exec(&owner, a, &set_validators(REMOTE, *t, &vals), &[]);
            ensure_eq!(r.ok(), want, "{n} validators, threshold {t} ({})", r.err());
            if want {
                let vi = json!({"ism": {"verify_info": {"message": hx(&msg(REMOTE, b"cfg").enc())}}});
                let ev = json!({"multisig_ism": {"enrolled_validators": {"domain": REMOTE}}});
                for (what, q) in [("enrolled validators", ev), ("verification info", vi)] {
                    let q = ch.query(a, &q)?;
                    ensure_eq!(q["threshold"], json!(t), "threshold in {what}");
                    ensure_eq!(q["validators"], json!(vals.iter().map(|v| hx(v)).collect::<Vec<_>>()), "{what}");
                }
                cov.hit("accepted");
            } else {
                ensure_eq!(ch.key(), c0.key(), "state after refusal");
                cov.hit("refused");
            }
            Ok(dig(&(n, t, bad)))
        },
    );
    // lists of any size replaced by others and removed
    let sizes = MANY;
    let mut v = vec![];
    for a in sizes {
        for b in sizes {
            for same in [false, true] {
                v.push((a, b, same));
            }
        }
    }
    c.cases(
        "lists of any size replaced and removed",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let a = inst(&mut ch, "ism_multisig", &owner, json!({"owner": owner}))?;
            call(&mut ch, &owner, &a, set_validators(REMOTE ^ 1, 1, &[val(0)]))?;
            Ok((ch, a))
        },
        v,
        &["replaced", "removed"],
        |(c0, a), (n1, n2, same), cov| {
            let mut ch = c0.clone();
            let owner = ch.user("owner");
            let list = |n: usize, tag: &str| -> Vec<Vec<u8>> {
                (0..n).map(|i| fill(&format!("{}{i}", if *same { "" } else { tag }), 20)).collect()
            };
            let vi = json!({"ism": {"verify_info": {"message": hx(&msg(REMOTE, b"cfg").enc())}}});
            let ev = |d: u32| json!({"multisig_ism": {"enrolled_validators": {"domain": d}}});
            let told = |q: &Value, l: &[Vec<u8>], t: usize| -> Res<()> {
                ensure_eq!(q["threshold"], json!(t), "threshold");
                ensure_eq!(q["validators"], json!(l.iter().map(|v| hx(v)).collect::<Vec<_>>()), "validators");
                Ok(())
            };
            for _ in 0..2 {
                for (n, tag) in [(*n1, "a"), (*n2, "b")] {
                    let (l, t) = (list(n, tag), (n / 2 + 1).min(255));
                    call(&mut ch, &owner, a, set_validators(REMOTE, t, &l))?;
                    told(&ch.query(a, &ev(REMOTE))?, &l, t)?;
                    told(&ch.query(a, &vi)?, &l, t)?;
                    cov.hit("replaced");
                }
                call(&mut ch, &owner, a, json!({"unset_domain": {"domain": REMOTE}}))?;
                for q in [ev(REMOTE), vi.clone()] {
                    let none = ch.query(a, &q).map_or(true, |r| r["validators"].as_array().map_or(true, |l| l.is_empty()));
                    ensure!(none, "removed, yet there is {q}");
                }
                told(&ch.query(a, &ev(REMOTE ^ 1))?, &[val(0)], 1)?;
                cov.hit("removed");
            }
            Ok(dig(&(n1, n2, same)))
        },
    );
    // many domains at once, configured and removed one after another
    c.cases(
        "many domains",
        || Ok(()),
        vec![0usize, 1, 2],
        &["checked"],
        |_, order, cov| {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let a = inst(&mut ch, "ism_multisig", &owner, json!({"owner": owner}))?;
            let ds = domains(REMOTE);
            let mut cfg: BTreeMap<u32, usize> = BTreeMap::new();
            let verify = |ch: &Chain, cfg: &BTreeMap<u32, usize>| -> Res<()> {
                for d in &ds {
                    let q = ch.query(&a, &json!({"multisig_ism": {"enrolled_validators": {"domain": d}}}));
                    match cfg.get(d) {
                        Some(i) => {
                            let q = q?;
                            ensure_eq!(q["validators"], json!([hx(&fill(&format!("m{i}"), 20))]), "domain {d}");
                        }
                        None => ensure!(
                            q.map_or(true, |r| r["validators"].as_array().map_or(true, |l| l.is_empty())),
                            "domain {d} is not configured"
                        ),
                    }
                }
                Ok(())
            };
            let n = ds.len();
            let at = |k: usize| match order {
                0 => k,
                1 => n - 1 - k,
                _ => (k * 7 + 3) % n,
            };
            ensure!(n % 7 != 0, "stride");
            for k in 0..n {
                let i = at(k);
                call(&mut ch, &owner, &a, set_validators(ds[i], 1, &[fill(&format!("m{i}"), 20)]))?;
                cfg.insert(ds[i], i);
                verify(&ch, &cfg)?;
                cov.hit("checked");
            }
            for k in 0..n {
                let i = at((k * 5 + 1) % n);
                if cfg.remove(&ds[i]).is_some() {
                    call(&mut ch, &owner, &a, json!({"unset_domain": {"domain": ds[i]}}))?;
                    verify(&ch, &cfg)?;
                }
            }
            Ok(ch.key())
        },
    );

    // one configuration after another: only the last one counts, whatever it replaces
    let lists: Vec<Vec<usize>> = seqs(4, 3)
        .into_iter()
        .filter(|s| !s.is_empty() && (0..s.len()).all(|i| !s[..i].contains(&s[i])))
        .collect();
    let mut cfgs = vec![];
    for l in &lists {
        for t in 1..=l.len() {
            cfgs.push((l.clone(), t));
        }
    }
    let mut v = vec![];
    for a in &cfgs {
        for b in &cfgs {
            v.push((a.clone(), b.clone()));
        }
    }
    c.cases(
        "one configuration after another",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let a = inst(&mut ch, "ism_multisig", &owner, json!({"owner": owner}))?;
            let m = msg(REMOTE, b"again");
            let p = cp(&m);
            let sigs: Vec<[u8; 65]> = (0..4).map(|i| key(i).sign(&p.digest())).collect();
            Ok((ch, a, m.enc(), p, sigs))
        },
        v,
        &["accepted", "refused"],
        |(c0, ism, m, p, sigs), (a, b), cov| {
            let mut ch = c0.clone();
            let owner = ch.user("owner");
            for (l, t) in [a, b] {
                let vals: Vec<Vec<u8>> = l.iter().map(|i| val(*i)).collect();
                call(&mut ch, &owner, ism, set_validators(REMOTE, *t, &vals))?;
                for (what, q) in [
                    ("enrolled validators", json!({"multisig_ism": {"enrolled_validators": {"domain": REMOTE}}})),
                    ("verification info", json!({"ism": {"verify_info": {"message": hx(m)}}})),
                ] {
                    let q = ch.query(ism, &q)?;
                    ensure_eq!(q["threshold"], json!(t), "threshold in {what}");
                    ensure_eq!(q["validators"], json!(vals.iter().map(|v| hx(v)).collect::<Vec<_>>()), "{what}");
                }
            }
            // as many as needed, from the front and from the back; one too few; everybody else
            let (l, t) = b;
            let rest: Vec<usize> = (0..4).filter(|i| !l.contains(i)).collect();
            for (who, want) in [
                (l[..*t].to_vec(), true),
                (l[l.len() - t..].to_vec(), true),
                (l[..t - 1].iter().chain(&rest).copied().collect(), false),
                (l[l.len() - t + 1..].to_vec(), false),
                (rest.clone(), false),
            ] {
                let s: Vec<[u8; 65]> = who.iter().map(|i| sigs[*i]).collect();
                ensure_eq!(verdict(&ch, ism, &p.meta(&s), m), want, "verdict on signatures of {who:?}");
                cov.hit(if want { "accepted" } else { "refused" });
            }
            Ok(dig(&(a, b)))
        },
    );
}

// ------------------------------------------------------------------ I03

/// metadata layout of the aggregate module: (start, end) table, then the sections
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lay {
    InOrder,
    Reversed,
    Gaps,
    /// equal sections share their bytes
    Shared,
}
pub fn agg_meta(sections: &[Vec<u8>], lay: Lay) -> Vec<u8> {
    let n = sections.len();
    let mut body: Vec<u8> = vec![];
    let mut pos = vec![(0usize, 0usize); n];
    let order: Vec<usize> = match lay {
        Lay::Reversed => (0..n).rev().collect(),
        _ => (0..n).collect(),
    };
    for i in order {
        if lay == Lay::Gaps {
            body.extend([1, 1, 1]);
        }
        if lay == Lay::Shared {
            if let Some(j) = (0..i).find(|j| sections[*j] == sections[i]) {
                pos[i] = pos[j];
                continue;
            }
        }
        let s = 8 * n + body.len();
        body.extend(&sections[i]);
        pos[i] = (s, 8 * n + body.len());
    }
    let mut v = vec![];
    for (a, b) in pos {
        v.extend((a as u32).to_be_bytes());
        v.extend((b as u32).to_be_bytes());
    }
    v.extend(body);
    if lay == Lay::Gaps {
        v.extend([1; 9]);
    }
    v
}

#[derive(Clone, Debug)]
struct K3 {
    t: usize,
    /// first byte of each section (None: empty section)
    out: Vec<Option<u8>>,
    /// position of member i in the address order
    perm: Vec<usize>,
    lay: Lay,
    reconfigured: bool,
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

/// member addresses in ascending order
fn sorted_probes(ch: &mut Chain, n: usize, verify: &str) -> Vec<String> {
    let mut v: Vec<String> = (0..n).map(|_| probe(ch, |c| c.verify = verify.into())).collect();
    v.sort();
    v
}

fn agg(ch: &mut Chain, owner: &str, isms: &[String], t: usize) -> Res<String> {
    inst(ch, "ism_aggregate", owner, json!({"owner": owner, "isms": isms, "threshold": t}))
}

#[derive(Clone, Debug)]
enum A3 {
    Set(u8, Vec<usize>, usize),
}
#[derive(Clone)]
struct S3 {
    ch: Chain,
    a: String,
    members: Arc<Vec<String>>,
    cur: Vec<usize>,
    t: usize,
}
struct M3;
impl Model for M3 {
    type S = S3;
    type A = A3;
    fn init(&self) -> Res<Vec<(String, S3)>> {
        let mut ch = Chain::new("osmo");
        let owner = ch.user("owner");
        let members = sorted_probes(&mut ch, 3, "bytes");
        let a = agg(&mut ch, &owner, &members[..1], 1)?;
        Ok(vec![(
            "one of one".into(),
            S3 {
                ch,
                a,
                members: Arc::new(members),
                cur: vec![0],
                t: 1,
            },
        )])
    }
    fn actions(&self, _: &S3) -> Vec<A3> {
        let lists: Vec<Vec<usize>> = vec![vec![], vec![1], vec![0, 1], vec![1, 0], vec![2, 1], vec![2, 0, 1], vec![0, 1, 2]];
        let mut v = vec![];
        for l in &lists {
            for t in [0, 1, 2, 3, 4, 255] {
                v.push(A3::Set(0, l.clone(), t));
            }
            v.push(A3::Set(1, l.clone(), l.len().max(1)));
        }
        v
    }
    fn key(&self, s: &S3) -> u128 {
        s.ch.key() ^ dig(&(&s.cur, s.t))
    }
    fn step(&self, s: &S3, a: &A3, cov: &mut Cov) -> Res<Step<S3>> {
        let mut n = s.clone();
        let A3::Set(w, l, t) = a;
        let who = s.ch.user(if *w == 0 { "owner" } else { "mallory" });
        let isms: Vec<String> = l.iter().map(|i| s.members[*i].clone()).collect();
        let r = n.ch.exec(&who, &s.a, &json!({"set_isms": {"isms": isms, "threshold": t}}), &[]);
        let want = *w == 0 && *t >= 1 && *t <= l.len();
        ensure_eq!(r.ok(), want, "reconfiguration ({})", r.err());
        if want {
            n.cur = l.clone();
            n.t = *t;
            cov.hit("configured");
        } else {
            ensure_eq!(n.ch.key(), s.ch.key(), "state after a refused change");
            cov.hit("refused");
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S3, cov: &mut Cov) -> Res<()> {
        let q = s.ch.query(&s.a, &json!({"aggregate_ism": {"isms": {}}}))?;
        let want: Vec<&String> = s.cur.iter().map(|i| &s.members[*i]).collect();
        ensure_eq!(q["isms"], json!(want), "members");
        ensure_eq!(q["threshold"], json!(s.t), "threshold");
        let m = msg(REMOTE, b"agg").enc();
        let vi = s.ch.query(&s.a, &json!({"ism": {"verify_info": {"message": hx(&m)}}}))?;
        ensure_eq!(vi["threshold"], json!(s.t), "threshold in verification info");
        for bits in 0..1usize << s.cur.len() {
            let sec: Vec<Vec<u8>> = (0..s.cur.len()).map(|i| vec![(bits >> i & 1) as u8]).collect();
            let want = (bits.count_ones() as usize) >= s.t;
            let r = verdict_full(&s.ch, &s.a, &agg_meta(&sec, Lay::InOrder), &m);
            ensure_eq!(*r.as_ref().unwrap_or(&false), want, "verdict on {bits:b} ({r:?})");
            cov.hit(if want { "accepted" } else { "rejected" });
        }
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["configured", "refused", "accepted", "rejected"]
    }
}

#[derive(Clone, Debug)]
enum X3 {
    /// creation with n members and this threshold
    Create(usize, usize),
    /// sections of exact members, mapped by this function
    Exact(usize, Vec<usize>),
    /// member list with repetitions, which distinct members accept
    Repeat(Vec<usize>, usize, usize),
    /// a member that is (0) nobody, (1) garbage-answering, (2) not a module, (3) a contract that is
    /// no module, (4) a nested aggregate, (5) a routing module without a route, (6) paused module
    Odd(u8, usize, u8),
    /// members that answer whatever their section (accept, reject, error, panic), which sections are empty, threshold
    Plain(Vec<usize>, usize, usize),
    /// metadata cut to this length / replaced
    Cut(usize),
    /// which of two members has the section with these bounds, wherever they are
    Table(usize, u32, u32),
}

pub fn i03(c: &mut Ctx) {
    c.assume("members are probe modules that accept, reject, error or panic on their section, plus real modules; metadata that is not a well-formed section table is only required not to be accepted without a threshold of accepting members");
    let max = c.pick(4, 5);
    let outs = [Some(1u8), Some(0), Some(0xee), Some(0xdd), None];
    let mut v = vec![];
    for n in 1..=max {
        let all: Vec<Vec<Option<u8>>> = seqs(outs.len(), n)
            .into_iter()
            .filter(|s| s.len() == n)
            .map(|s| s.into_iter().map(|i| outs[i]).collect())
            .collect();
        let ps = if n <= 3 {
            perms(n)
        } else {
            let p: Vec<usize> = (0..n).collect();
            let mut r = p.clone();
            r.reverse();
            let mut rot = p.clone();
            rot.rotate_left(2);
            vec![p, r, rot]
        };
        for t in 1..=n {
            for o in &all {
                for (pi, p) in ps.iter().enumerate() {
                    for lay in [Lay::InOrder, Lay::Reversed, Lay::Gaps, Lay::Shared] {
                        if n >= 4 && (pi > 0) != (lay == Lay::Reversed) && !c.thorough() {
                            continue;
                        }
                        v.push(K3 {
                            t,
                            out: o.clone(),
                            perm: p.clone(),
                            lay,
                            reconfigured: (t + pi) % 2 == 1,
                        });
                    }
                }
            }
        }
    }
    c.cases(
        "members' verdicts",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let members = sorted_probes(&mut ch, 5, "bytes");
            let a = agg(&mut ch, &owner, &members, 5)?;
            Ok((ch, a, members))
        },
        v,
        &["accepted", "rejected", "accepted despite a failing member"],
        |(c0, a0, members), k, cov| {
            let mut ch = c0.clone();
            let owner = ch.user("owner");
            let isms: Vec<String> = k.perm.iter().map(|i| members[*i].clone()).collect();
            let a = if k.reconfigured {
                call(&mut ch, &owner, a0, json!({"set_isms": {"isms": isms, "threshold": k.t}}))?;
                a0.clone()
            } else {
                agg(&mut ch, &owner, &isms, k.t)?
            };
            let sec: Vec<Vec<u8>> = k
                .out
                .iter()
                .map(|b| b.map(|b| vec![b, 7, 7]).unwrap_or_default())
                .collect();
            let meta = agg_meta(&sec, k.lay);
            let acc = k.out.iter().filter(|b| **b == Some(1)).count();
            let m = msg(REMOTE, b"agg").enc();
            let r = verdict_full(&ch, &a, &meta, &m);
            ensure_eq!(
                *r.as_ref().unwrap_or(&false),
                acc >= k.t,
                "verdict with {acc} accepting members ({r:?})"
            );
            if acc >= k.t {
                cov.hit("accepted");
                if k.out.iter().any(|o| matches!(o, Some(0xee) | Some(0xdd))) {
                    cov.hit("accepted despite a failing member");
                }
            } else {
                cov.hit("rejected");
            }
            Ok(dig(&(acc >= k.t, k)))
        },
    );
    // many members: which accept, and how the others fail
    let mut v = vec![];
    for n in (5usize..=18).chain([20, 24, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 200, 254, 255]) {
        let mut ts: Vec<usize> = vec![1, 2, 3, 7, 8, 9, n / 2, n - 1, n];
        ts.extend([10, 16, 17, 32, 33, 64, 128]);
        ts.retain(|t| *t >= 1 && *t <= n);
        ts.sort();
        ts.dedup();
        for t in ts {
            for pat in 0..7u8 {
                // one short of the threshold, at it, one more
                for more in [-1isize, 0, 1] {
                    v.push((n, t, pat, more));
                }
            }
        }
    }
    c.cases(
        "many members",
        || {
            let mut ch = Chain::new("osmo");
            let members = sorted_probes(&mut ch, 255, "bytes");
            Ok((ch, members))
        },
        v,
        &["accepted", "rejected"],
        |(c0, members), (n, t, pat, more), cov| {
            let acc = (*t as isize + more).clamp(0, *n as isize) as usize;
            let mut ch = c0.clone();
            let owner = ch.user("owner");
            // the order of the list is not the order of the addresses
            let isms: Vec<String> = (0..*n).map(|i| members[if pat % 2 == 0 { i } else { n - 1 - i }].clone()).collect();
            let a = agg(&mut ch, &owner, &isms, *t)?;
            let mut yes = vec![false; *n];
            for i in 0..acc {
                let at = match pat {
                    0 | 1 => i,
                    2 | 3 => n - 1 - i,
                    4 => (i * n) / acc,
                    5 => (n - 1) - (i * n) / acc,
                    // both ends
                    _ => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 },
                };
                yes[at] = true;
            }
            let acc = yes.iter().filter(|b| **b).count();
            for no in [0u8, 0xee, 0xdd] {
                let sec: Vec<Vec<u8>> = yes.iter().map(|b| vec![if *b { 1 } else { no }; 3]).collect();
                let m = msg(REMOTE, b"many").enc();
                let r = verdict_full(&ch, &a, &agg_meta(&sec, Lay::InOrder), &m);
                ensure_eq!(*r.as_ref().unwrap_or(&false), acc >= *t, "{acc} of {n} members accept, threshold {t} ({r:?})");
                cov.hit(if acc >= *t { "accepted" } else { "rejected" });
            }
            let q = ch.query(&a, &json!({"aggregate_ism": {"isms": {}}}))?;
            ensure_eq!((&q["isms"], &q["threshold"]), (&json!(isms), &json!(t)), "members and threshold");
            Ok(dig(&(n, t, pat, more)))
        },
    );
    // one list of members after another, of any size
    let mut v = vec![];
    for a in MANY {
        for b in MANY {
            if a <= 255 && b <= 255 {
                v.push((a, b));
            }
        }
    }
    c.cases(
        "one list of members after another",
        || {
            let mut ch = Chain::new("osmo");
            let members = sorted_probes(&mut ch, 255, "bytes");
            Ok((ch, members))
        },
        v,
        &["accepted", "rejected"],
        |(c0, members), (a, b), cov| {
            let mut ch = c0.clone();
            let owner = ch.user("owner");
            let first: Vec<String> = members[..*a].to_vec();
            let ism = agg(&mut ch, &owner, &first, (*a + 1) / 2)?;
            let isms: Vec<String> = (0..*b).map(|i| members[254 - i].clone()).collect();
            let t = *b / 2 + 1;
            call(&mut ch, &owner, &ism, json!({"set_isms": {"isms": isms, "threshold": t}}))?;
            let q = ch.query(&ism, &json!({"aggregate_ism": {"isms": {}}}))?;
            ensure_eq!((&q["isms"], &q["threshold"]), (&json!(isms), &json!(t)), "members and threshold");
            let m = msg(REMOTE, b"after").enc();
            for acc in [0, t - 1, t, *b] {
                for last in [false, true] {
                    let sec: Vec<Vec<u8>> = (0..*b)
                        .map(|i| vec![if (if last { *b - 1 - i } else { i }) < acc { 1 } else { 0 }; 2])
                        .collect();
                    let r = verdict_full(&ch, &ism, &agg_meta(&sec, Lay::InOrder), &m);
                    ensure_eq!(*r.as_ref().unwrap_or(&false), acc >= t, "{acc} of {b} accept, threshold {t} ({r:?})");
                    cov.hit(if acc >= t { "accepted" } else { "rejected" });
                }
            }
            Ok(dig(&(a, b)))
        },
    );
    c.run("reconfiguration histories", &M3, c.pick(4, 6), 100_000);

    let mut v = vec![];
    for n in (0..=5).chain([254, 255, 256, 257, 258]) {
        for t in (0..=6).chain([128, 254, 255]) {
            v.push(X3::Create(n, t));
        }
    }
    for t in 1..=3 {
        for p in perms(3) {
            v.push(X3::Exact(t, p));
        }
        for a in 0..3 {
            for b in 0..3 {
                v.push(X3::Exact(t, vec![a, b, 0]));
                v.push(X3::Exact(t, vec![1, a, b]));
            }
        }
    }
    for s in seqs(2, 4) {
        for t in 1..=s.len() {
            for bits in 0..4 {
                v.push(X3::Repeat(s.clone(), t, bits));
            }
        }
    }
    for odd in 0..7 {
        for p in 0..3 {
            for b in [0u8, 1, 2] {
                v.push(X3::Odd(odd, p, b));
            }
        }
    }
    for s in seqs(4, 3) {
        for empty in 0..1usize << s.len() {
            for t in 1..=s.len() {
                v.push(X3::Plain(s.clone(), empty, t));
            }
        }
    }
    v.extend((0..40).map(X3::Cut));
    let bounds = || (0..=20).chain(255..=258).chain([272, 273, 274, u32::MAX]);
    for a in bounds() {
        for b in bounds() {
            v.push(X3::Table(0, a, b));
            v.push(X3::Table(1, a, b));
        }
    }
    c.cases(
        "creation, sections, repeated and odd members",
        || Ok(()),
        v,
        &["accepted", "rejected", "created", "not created"],
        |_, k, cov| {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let m = msg(REMOTE, b"agg").enc();
            match k {
                X3::Create(n, t) => {
                    let isms: Vec<String> = (0..*n).map(|i| ch.user(&format!("m{i}"))).collect();
                    let r = ch.instantiate(
                        "ism_aggregate",
                        &owner,
                        &json!({"owner": owner, "isms": isms, "threshold": t}),
                    );
                    let want = *t >= 1 && t <= n;
                    ensure_eq!(r.is_ok(), want, "creation with {n} members and threshold {t} ({r:?})");
                    cov.hit(if want { "created" } else { "not created" });
                }
                X3::Exact(t, map) => {
                    let mem: Vec<String> = sorted_probes(&mut ch, 3, "exact");
                    let isms = vec![mem[1].clone(), mem[2].clone(), mem[0].clone()];
                    for (i, a) in isms.iter().enumerate() {
                        reprobe(&mut ch, a, |c| {
                            c.want_meta = hx(&fill(&format!("section {i}"), 10 + i));
                            c.want_msg = hx(&m);
                        });
                    }
                    let a = agg(&mut ch, &owner, &isms, *t)?;
                    let sec: Vec<Vec<u8>> = map.iter().map(|i| fill(&format!("section {i}"), 10 + i)).collect();
                    let n = map.iter().enumerate().filter(|(i, j)| i == *j).count();
                    for lay in [Lay::InOrder, Lay::Reversed, Lay::Gaps, Lay::Shared] {
                        let r = verdict_full(&ch, &a, &agg_meta(&sec, lay), &m);
                        ensure_eq!(*r.as_ref().unwrap_or(&false), n >= *t, "{n} sections in place, {lay:?} ({r:?})");
                        cov.hit(if n >= *t { "accepted" } else { "rejected" });
                        // another message
                        let mut m2 = m.clone();
                        *m2.last_mut().unwrap() ^= 1;
                        ensure!(!verdict(&ch, &a, &agg_meta(&sec, lay), &m2), "another message accepted");
                    }
                }
                X3::Repeat(list, t, bits) => {
                    let mem = sorted_probes(&mut ch, 2, "bytes");
                    let isms: Vec<String> = list.iter().map(|i| mem[*i].clone()).collect();
                    // such a list may be refused; if it is not, a member counts once
                    let Ok(a) = ch.instantiate("ism_aggregate", &owner, &json!({"owner": owner, "isms": isms, "threshold": t})) else {
                        cov.hit("not created");
                        return Ok(dig(k));
                    };
                    let sec: Vec<Vec<u8>> = list.iter().map(|i| vec![(bits >> i & 1) as u8]).collect();
                    let acc: BTreeSet<usize> = list.iter().filter(|i| bits >> **i & 1 == 1).cloned().collect();
                    let distinct: BTreeSet<&usize> = list.iter().collect();
                    let r = verdict(&ch, &a, &agg_meta(&sec, Lay::InOrder), &m);
                    ensure!(
                        !r || acc.len() >= *t,
                        "accepted by {} distinct members, threshold {t}",
                        acc.len()
                    );
                    ensure!(
                        r || acc.len() < *t || distinct.len() < list.len(),
                        "refused although all needed members accept"
                    );
                    cov.hit(if r { "accepted" } else { "rejected" });
                }
                X3::Plain(kinds, empty, t) => {
                    let isms: Vec<String> = kinds
                        .iter()
                        .map(|i| probe(&mut ch, |c| c.verify = ["accept", "reject", "error", "panic"][*i].into()))
                        .collect();
                    let sec: Vec<Vec<u8>> =
                        (0..kinds.len()).map(|i| if empty >> i & 1 == 1 { vec![] } else { vec![i as u8; 3] }).collect();
                    let n = kinds.iter().filter(|i| **i == 0).count();
                    let a = agg(&mut ch, &owner, &isms, *t)?;
                    for lay in [Lay::InOrder, Lay::Reversed, Lay::Gaps, Lay::Shared] {
                        let r = verdict_full(&ch, &a, &agg_meta(&sec, lay), &m);
                        ensure_eq!(*r.as_ref().unwrap_or(&false), n >= *t, "{n} accepting members, {lay:?} ({r:?})");
                        cov.hit(if n >= *t { "accepted" } else { "rejected" });
                    }
                }
                X3::Odd(kind, p, byte) => {
                    let mut mem = sorted_probes(&mut ch, 3, "bytes");
                    let odd = match kind {
                        0 => ch.user("nobody"),
                        1 => probe(&mut ch, |c| c.verify = "garbage".into()),
                        2 => probe(&mut ch, |_| {}),
                        3 => mailbox(&mut ch, &owner, LOCAL)?,
                        4 => {
                            let l = vec![mem[0].clone(), mem[1].clone()];
                            agg(&mut ch, &owner, &l, 2)?
                        }
                        5 => inst(&mut ch, "ism_routing", &owner, json!({"owner": owner, "isms": []}))?,
                        _ => inst(&mut ch, "ism_pausable", &owner, json!({"owner": owner, "paused": true}))?,
                    };
                    mem[*p] = odd;
                    let sec = vec![vec![*byte; 2]; 3];
                    let a = agg(&mut ch, &owner, &mem, 2)?;
                    let r = verdict_full(&ch, &a, &agg_meta(&sec, Lay::InOrder), &m);
                    let want = *byte == 1;
                    ensure_eq!(*r.as_ref().unwrap_or(&false), want, "two of three, third odd ({r:?})");
                    call(&mut ch, &owner, &a, json!({"set_isms": {"isms": mem, "threshold": 3}}))?;
                    ensure!(!verdict(&ch, &a, &agg_meta(&sec, Lay::InOrder), &m), "odd member accepted");
                    cov.hit(if want { "accepted" } else { "rejected" });
                }
                X3::Cut(n) => {
                    let mem = sorted_probes(&mut ch, 2, "bytes");
                    let a = agg(&mut ch, &owner, &mem, 2)?;
                    let mut meta = agg_meta(&[vec![1], vec![1, 9]], Lay::InOrder);
                    let full = meta.len();
                    meta.resize(*n, 0);
                    let r = verdict(&ch, &a, &meta, &m);
                    ensure!(
                        *n + 1 == full || r == (*n >= full),
                        "metadata of {n} bytes, {full} needed: {r}"
                    );
                    cov.hit(if r { "accepted" } else { "rejected" });
                }
                X3::Table(who, x, y) => {
                    // the section of one of two members is given by (x, y) over the table (whose bytes
                    // 6 and 14 may be 1) and the bytes 01 00 01 ..
                    let mem = sorted_probes(&mut ch, 2, "bytes");
                    let a = agg(&mut ch, &owner, &mem, 2)?;
                    let mut bounds = [[16, 16 + 257], [16, 16 + 257]];
                    bounds[*who] = [*x, *y];
                    let mut meta = vec![];
                    for n in bounds.concat() {
                        meta.extend(n.to_be_bytes());
                    }
                    meta.extend([1, 0, 1]);
                    meta.resize(16 + 257, 2);
                    let wf = x <= y && *y as usize <= meta.len();
                    let acc = wf && x < y && meta[*x as usize] == 1;
                    let r = verdict(&ch, &a, &meta, &m);
                    if wf {
                        ensure_eq!(r, acc, "section {x}..{y}");
                    } else {
                        ensure!(!r, "accepted with a section {x}..{y} outside the metadata");
                    }
                    cov.hit(if r { "accepted" } else { "rejected" });
                }
            }
            Ok(dig(k))
        },
    );

    // one configuration after another: only the last one counts, whatever it replaces
    let mut cfgs = vec![];
    for l in seqs(4, 3).into_iter().filter(|s| !s.is_empty() && (0..s.len()).all(|i| !s[..i].contains(&s[i]))) {
        for t in 1..=l.len() {
            cfgs.push((l.clone(), t));
        }
    }
    let mut v = vec![];
    for a in &cfgs {
        for b in &cfgs {
            v.push((a.clone(), b.clone()));
        }
    }
    c.cases(
        "one configuration after another",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let mem = sorted_probes(&mut ch, 4, "bytes");
            let a = agg(&mut ch, &owner, &mem[..1], 1)?;
            Ok((ch, a, mem))
        },
        v,
        &["accepted", "refused"],
        |(c0, ism, mem), (a, b), cov| {
            let mut ch = c0.clone();
            let owner = ch.user("owner");
            for (l, t) in [a, b] {
                let isms: Vec<&String> = l.iter().map(|i| &mem[*i]).collect();
                call(&mut ch, &owner, ism, json!({"set_isms": {"isms": isms, "threshold": t}}))?;
                let q = ch.query(ism, &json!({"aggregate_ism": {"isms": {}}}))?;
                ensure_eq!(q["isms"], json!(isms), "members");
                ensure_eq!(q["threshold"], json!(t), "threshold");
            }
            let m = msg(REMOTE, b"agg").enc();
            for bits in 0..1usize << b.0.len() {
                let sec: Vec<Vec<u8>> = (0..b.0.len()).map(|i| vec![(bits >> i & 1) as u8]).collect();
                let want = bits.count_ones() as usize >= b.1;
                ensure_eq!(
                    verdict(&ch, ism, &agg_meta(&sec, Lay::InOrder), &m),
                    want,
                    "verdict on {bits:b}"
                );
                cov.hit(if want { "accepted" } else { "refused" });
            }
            Ok(dig(&(a, b)))
        },
    );
}

// ------------------------------------------------------------------ I04

const D4: [u32; 4] = [REMOTE, 0x0d0c_0b0a, REMOTE ^ 0x0100_0000, 0];
#[derive(Clone, Debug)]
enum A4 {
    Set(u8, usize, usize),
    Unset(u8, Vec<usize>),
    SetBad(usize),
}
#[derive(Clone)]
struct S4 {
    ch: Chain,
    r: String,
    mods: Arc<Vec<String>>,
    cur: BTreeMap<u32, usize>,
}
fn check_route(ch: &Chain, r: &str, d: u32, want: Option<&str>, cov: &mut Cov) -> Res<()> {
    let base = |first: u8| msg(d, &[first, 5]);
    let mut asks: Vec<(u8, Msg)> = [1u8, 0, 0xee].iter().map(|f| (*f, base(*f))).collect();
    // only the origin decides: every other part of the message may be anything
    for version in [0, 1, 2, 4, 255] {
        asks.push((1, Msg { version, ..base(1) }));
    }
    for dest in D4.iter().chain(&[d, u32::MAX]) {
        asks.push((1, Msg { dest: *dest, ..base(1) }));
        asks.push((1, Msg { nonce: *dest, ..base(1) }));
    }
    asks.push((1, Msg { sender: [0; 32], ..base(1) }));
    asks.push((1, Msg { recipient: [0; 32], ..base(1) }));
    asks.push((1, Msg { sender: [0xff; 32], recipient: [0xff; 32], ..base(1) }));
    for n in [0usize, 1, 31, 32, 200] {
        asks.push((1, Msg { body: fill("body", n), ..base(1) }));
    }
    for (first, m) in asks {
        let meta = [vec![first], fill("meta", 9)].concat();
        let (res, trace) = ch.query_traced(r, verify_query(&meta, &m.enc()).to_string().into_bytes());
        let asked: Vec<(String, Value)> = trace
            .iter()
            .filter_map(|i| match &i.ev {
                Ev::Query { from, to, msg } if from == r => {
                    Some((to.clone(), serde_json::from_slice(msg).unwrap_or(Value::Null)))
                }
                _ => None,
            })
            .collect();
        let route = ch.query(r, &json!({"routing_ism": {"route": {"message": hx(&m.enc())}}}));
        let vi = ch.query(r, &json!({"ism": {"verify_info": {"message": hx(&m.enc())}}}));
        match want {
            None => {
                let ok = res
                    .ok()
                    .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
                    .is_some_and(|v| v["verified"] == json!(true));
                ensure!(!ok, "message from unrouted origin {d} accepted");
                ensure!(
                    route.as_ref().map_or(true, |v| v["ism"].as_str().map_or(true, |s| s.is_empty())),
                    "route of unrouted origin {d}: {route:?}"
                );
                ensure!(vi.is_err(), "verification info of unrouted origin {d}: {vi:?}");
                cov.hit("no module");
            }
            Some(w) => {
                ensure_eq!(asked, vec![(w.to_string(), verify_query(&meta, &m.enc()))], "modules asked");
                let direct = verdict_full(ch, w, &meta, &m.enc());
                match direct {
                    Ok(b) => {
                        let v: Value = serde_json::from_slice(&res?).unwrap_or(Value::Null);
                        ensure_eq!(v["verified"], json!(b), "verdict for origin {d}");
                        cov.hit(if b { "accepted" } else { "rejected" });
                    }
                    Err(_) => {
                        let ok = res
                            .ok()
                            .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
                            .is_some_and(|v| v["verified"] == json!(true));
                        ensure!(!ok, "accepted although the module errors");
                        cov.hit("module error");
                    }
                }
                ensure_eq!(route?["ism"].as_str(), Some(w), "route of {d}");
                let dvi = ch.query(w, &json!({"ism": {"verify_info": {"message": hx(&m.enc())}}}))?;
                ensure_eq!(vi?, dvi, "verification info for origin {d}");
            }
        }
    }
    Ok(())
}
struct M4;
impl Model for M4 {
    type S = S4;
    type A = A4;
    fn init(&self) -> Res<Vec<(String, S4)>> {
        let mut out = vec![];
        for start in [vec![], vec![(0usize, 1usize)], vec![(2, 0), (3, 2), (2, 1)]] {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let mods = sorted_probes(&mut ch, 3, "bytes");
            let isms: Vec<Value> = start
                .iter()
                .map(|(d, i)| json!({"domain": D4[*d], "address": mods[*i]}))
                .collect();
            let r = inst(&mut ch, "ism_routing", &owner, json!({"owner": owner, "isms": isms}))?;
            out.push((
                format!("created with {start:?}"),
                S4 {
                    ch,
                    r,
                    mods: Arc::new(mods),
                    cur: start.iter().map(|(d, i)| (D4[*d], *i)).collect(),
                },
            ));
        }
        Ok(out)
    }
    fn actions(&self, _: &S4) -> Vec<A4> {
        let mut v = vec![];
        for d in 0..4 {
            for i in 0..3 {
                v.push(A4::Set(0, d, i));
            }
            v.push(A4::Set(1, d, 0));
            v.push(A4::SetBad(d));
            v.push(A4::Unset(0, vec![d]));
            v.push(A4::Unset(1, vec![d]));
        }
        v.push(A4::Unset(0, vec![]));
        v.push(A4::Unset(0, vec![0, 2]));
        v.push(A4::Unset(0, vec![3, 1, 3]));
        v
    }
    fn key(&self, s: &S4) -> u128 {
        s.ch.key() ^ dig(&s.cur)
    }
    fn step(&self, s: &S4, a: &A4, cov: &mut Cov) -> Res<Step<S4>> {
        let mut n = s.clone();
        let who = |w: u8| s.ch.user(if w == 0 { "owner" } else { "mallory" });
        let ok = match a {
            A4::Set(w, d, i) => {
                let r = n.ch.exec(
                    &who(*w),
                    &s.r,
                    &json!({"set": {"ism": {"domain": D4[*d], "address": s.mods[*i]}}}),
                    &[],
                );
                ensure_eq!(r.ok(), *w == 0, "set ({})", r.err());
                if r.ok() {
                    n.cur.insert(D4[*d], *i);
                }
                r.ok()
            }
            A4::SetBad(d) => {
                let r = n.ch.exec(
                    &who(0),
                    &s.r,
                    &json!({"set": {"ism": {"domain": D4[*d], "address": "osmo1nonsense"}}}),
                    &[],
                );
                ensure!(!r.ok(), "an address that is none was set");
                false
            }
            A4::Unset(w, l) => {
                let ds: Vec<u32> = l.iter().map(|i| D4[*i]).collect();
                let r = n.ch.exec(&who(*w), &s.r, &json!({"unset": {"domains": ds}}), &[]);
                if *w == 0 && l.iter().any(|i| s.cur.contains_key(&D4[*i])) {
                    ensure!(r.ok(), "unset by the owner: {}", r.err());
                }
                ensure!(*w == 0 || !r.ok(), "unset by a stranger");
                if r.ok() {
                    for d in ds {
                        n.cur.remove(&d);
                    }
                }
                r.ok()
            }
        };
        if ok {
            cov.hit("changed");
        } else {
            ensure_eq!(n.ch.key(), s.ch.key(), "state after a refused change");
            cov.hit("refused");
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S4, cov: &mut Cov) -> Res<()> {
        for d in D4.iter().chain(&[REMOTE + 1]) {
            let w = s.cur.get(d).map(|i| s.mods[*i].as_str());
            check_route(&s.ch, &s.r, *d, w, cov)?;
        }
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["changed", "refused", "accepted", "rejected", "module error", "no module"]
    }
}

pub fn i04(c: &mut Ctx) {
    c.run("route histories", &M4, c.pick(5, 6), 1_000_000);
    c.cases(
        "many origins",
        || Ok(()),
        vec![0usize, 1, 2],
        &["accepted", "rejected", "no module"],
        |_, order, cov| {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let ds = domains(REMOTE);
            let n = ds.len();
            ensure!(n % 7 != 0 && n % 5 != 0, "strides");
            let mods = sorted_probes(&mut ch, n, "bytes");
            let r = inst(&mut ch, "ism_routing", &owner, json!({"owner": owner, "isms": []}))?;
            let mut cur: BTreeMap<u32, usize> = BTreeMap::new();
            let at = |k: usize| match order {
                0 => k,
                1 => n - 1 - k,
                _ => (k * 7 + 3) % n,
            };
            let all = |ch: &Chain, cur: &BTreeMap<u32, usize>, cov: &mut Cov| -> Res<()> {
                for d in &ds {
                    check_route(ch, &r, *d, cur.get(d).map(|i| mods[*i].as_str()), cov)?;
                }
                Ok(())
            };
            for k in 0..n {
                let i = at(k);
                call(&mut ch, &owner, &r, json!({"set": {"ism": {"domain": ds[i], "address": mods[i]}}}))?;
                cur.insert(ds[i], i);
                check_route(&ch, &r, ds[i], Some(mods[i].as_str()), cov)?;
                if k % 3 == 0 || k + 1 == n {
                    all(&ch, &cur, cov)?;
                }
            }
            for k in 0..n {
                let i = at((k * 5 + 1) % n);
                call(&mut ch, &owner, &r, json!({"unset": {"domains": [ds[i]]}}))?;
                cur.remove(&ds[i]);
                check_route(&ch, &r, ds[i], None, cov)?;
                if k % 3 == 0 || k + 1 == n {
                    all(&ch, &cur, cov)?;
                }
            }
            Ok(ch.key())
        },
    );
    // many at once
    let mut v = vec![];
    for n in (0usize..=12).chain([15, 16, 17, 29, 30, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 255, 256, 257, 600]) {
        for k in 0..4u8 {
            v.push((n, k));
        }
    }
    c.cases(
        "batches",
        || {
            let mut ch = Chain::new("osmo");
            let mods = sorted_probes(&mut ch, 3, "bytes");
            Ok((ch, mods))
        },
        v,
        &["no module", "accepted"],
        |(c0, mods), (n, k), cov| {
            let mut ch = c0.clone();
            let owner = ch.user("owner");
            let d = |i: usize| (i as u32).wrapping_mul(0x9e37_79b1);
            // created with them all and one more
            let isms: Vec<Value> = (0..=*n).map(|i| json!({"domain": d(i), "address": mods[i % 3]})).collect();
            let r = inst(&mut ch, "ism_routing", &owner, json!({"owner": owner, "isms": isms}))?;
            let mut list: Vec<u32> = match k {
                0 => (0..*n).map(d).collect(),
                1 => (0..*n).rev().map(d).collect(),
                // every other one
                2 => (0..*n).filter(|i| i % 2 == 1).map(d).collect(),
                // with others that have none
                _ => (0..*n).flat_map(|i| [d(i), d(i) ^ 0x5555]).collect(),
            };
            let known: BTreeSet<u32> = (0..=*n).map(d).collect();
            if *k == 3 {
                list.retain(|x| !known.contains(x) || *x != d(*n));
            }
            let res = ch.exec(&owner, &r, &json!({"unset": {"domains": list}}), &[]);
            ensure!(res.ok() || *k == 3 || list.is_empty(), "unset of {} domains: {}", list.len(), res.err());
            for i in 0..=*n {
                let gone = res.ok() && list.contains(&d(i));
                let ms = msg(d(i), &[1, 5]);
                let asked = verdict_full(&ch, &r, &[1], &ms.enc());
                let route = ch.query(&r, &json!({"routing_ism": {"route": {"message": hx(&ms.enc())}}}));
                if gone {
                    ensure!(!*asked.as_ref().unwrap_or(&false), "accepted by the module of a removed domain ({i})");
                    ensure!(
                        route.as_ref().map_or(true, |v| v["ism"].as_str().map_or(true, |s| s.is_empty())),
                        "route of a removed domain ({i}): {route:?}"
                    );
                    cov.hit("no module");
                } else {
                    ensure!(*asked.as_ref().unwrap_or(&false), "domain {i} of {n} does not reach its module ({asked:?})");
                    ensure_eq!(route?["ism"].as_str(), Some(mods[i % 3].as_str()), "route of domain {i}");
                    cov.hit("accepted");
                }
            }
            Ok(dig(&(n, k)))
        },
    );
    // message and metadata shapes are passed on unchanged
    let mut v = vec![];
    for body in (0..80).chain([255, 256, 1000, 70000]) {
        for meta in [0usize, 1, 2, 31, 32, 33, 64, 65, 200] {
            v.push((body, meta));
        }
    }
    c.cases(
        "bytes passed on",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let m = probe(&mut ch, |c| c.verify = "exact".into());
            let r = inst(
                &mut ch,
                "ism_routing",
                &owner,
                json!({"owner": owner, "isms": [{"domain": REMOTE, "address": m}]}),
            )?;
            Ok((ch, m, r))
        },
        v,
        &["accepted"],
        |(c0, mo, r), (body, meta), cov| {
            let mut ch = c0.clone();
            let m = msg(REMOTE, &fill("b", *body)).enc();
            let meta = fill("m", *meta);
            reprobe(&mut ch, mo, |c| {
                c.want_meta = hx(&meta);
                c.want_msg = hx(&m);
            });
            let v = verdict_full(&ch, r, &meta, &m)?;
            ensure!(v, "the module was asked with other bytes");
            cov.hit("accepted");
            Ok(dig(&(body, meta)))
        },
    );
    // real modules behind the route, and routing modules nested
    c.cases(
        "real modules",
        || Ok(()),
        vec![0u8, 1, 2, 3],
        &["accepted", "rejected"],
        |_, k, cov| {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let ms = inst(&mut ch, "ism_multisig", &owner, json!({"owner": owner}))?;
            for d in D4 {
                let vals: Vec<Vec<u8>> = (0..2).map(|i| key(i).addr.to_vec()).collect();
                call(&mut ch, &owner, &ms, set_validators(d, 2, &vals))?;
            }
            let route = |ch: &mut Chain, d: u32, a: &str| {
                let o = ch.user("owner");
                inst(ch, "ism_routing", &o, json!({"owner": o, "isms": [{"domain": d, "address": a}]}))
            };
            let m = msg(REMOTE, b"real");
            let c = cp(&m);
            let sig = |i: usize| key(i).sign(&c.digest());
            let one = c.meta(&[sig(0)]);
            let two = c.meta(&[sig(1), sig(0)]);
            let (ism, wrap): (String, fn(Vec<u8>) -> Vec<u8>) = match k {
                0 => (route(&mut ch, REMOTE, &ms)?, |v| v),
                1 => {
                    let i = route(&mut ch, REMOTE, &ms)?;
                    (route(&mut ch, REMOTE, &i)?, |v| v)
                }
                2 => {
                    let r = route(&mut ch, REMOTE, &ms)?;
                    (agg(&mut ch, &owner, &[r], 1)?, |v| agg_meta(&[v], Lay::InOrder))
                }
                _ => {
                    let a = agg(&mut ch, &owner, &[ms.clone()], 1)?;
                    (route(&mut ch, REMOTE, &a)?, |v| agg_meta(&[v], Lay::InOrder))
                }
            };
            ensure!(verdict(&ch, &ism, &wrap(two.clone()), &m.enc()), "two of two signatures refused");
            cov.hit("accepted");
            ensure!(!verdict(&ch, &ism, &wrap(one), &m.enc()), "one of two signatures accepted");
            cov.hit("rejected");
            let mut m2 = m.clone();
            m2.origin = D4[1];
            ensure!(!verdict(&ch, &ism, &wrap(two), &m2.enc()), "another origin accepted");
            if *k != 2 {
                let v = ch.query(&ism, &json!({"ism": {"verify_info": {"message": hx(&m.enc())}}}))?;
                ensure_eq!(v["threshold"], json!(if *k == 3 { 1 } else { 2 }), "verification info");
            }
            Ok(*k as u128)
        },
    );
}

// ------------------------------------------------------------------ I05

#[derive(Clone, Debug)]
enum A5 {
    Pause(u8, bool),
    Release(u8, bool),
    Deliver,
    Dispatch,
    Blocks(u64),
    /// the owner of the module, the hook, nominates another
    Nominate(bool),
}
#[derive(Clone)]
struct S5 {
    ch: Chain,
    w: Arc<(Basic, String, String, String)>,
    /// module, hook paused
    p: (bool, bool),
    nominated: (bool, bool),
    n: u32,
    seq: u32,
    /// one of: pausable hook is required / default
    required: bool,
}
struct M5;
impl Model for M5 {
    type S = S5;
    type A = A5;
    fn init(&self) -> Res<Vec<(String, S5)>> {
        let mut out = vec![];
        for required in [true, false] {
            for (im, ih) in [(false, false), (true, false), (false, true), (true, true)] {
                let mut ch = Chain::new("osmo");
                let owner = ch.user("owner");
                let b = basic(&mut ch, &owner, LOCAL)?;
                let ism = inst(&mut ch, "ism_pausable", &owner, json!({"owner": owner, "paused": im}))?;
                let hook = inst(&mut ch, "hook_pausable", &owner, json!({"owner": owner, "paused": ih}))?;
                call(&mut ch, &owner, &b.mb, json!({"set_default_ism": {"ism": ism}}))?;
                let k = if required { "set_required_hook" } else { "set_default_hook" };
                call(&mut ch, &owner, &b.mb, json!({k: {"hook": hook}}))?;
                let rec = probe(&mut ch, |_| {});
                out.push((
                    format!("required={required} paused={im},{ih}"),
                    S5 {
                        ch,
                        w: Arc::new((b, ism, hook, rec)),
                        p: (im, ih),
                        nominated: (false, false),
                        n: 0,
                        seq: 0,
                        required,
                    },
                ));
            }
        }
        Ok(out)
    }
    fn actions(&self, _: &S5) -> Vec<A5> {
        let mut v = vec![A5::Deliver, A5::Dispatch, A5::Blocks(100_000), A5::Nominate(false), A5::Nominate(true)];
        for who in 0..4 {
            for hook in [false, true] {
                v.push(A5::Pause(who, hook));
                v.push(A5::Release(who, hook));
            }
        }
        v
    }
    fn key(&self, s: &S5) -> u128 {
        s.ch.key() ^ dig(&(s.p, s.nominated, s.n, s.seq, s.required))
    }
    fn step(&self, s: &S5, a: &A5, cov: &mut Cov) -> Res<Step<S5>> {
        let mut n = s.clone();
        let (b, ism, hook, rec) = &*s.w;
        let who = |w: u8| match w {
            0 => s.ch.user("owner"),
            1 => s.ch.user("mallory"),
            2 => b.mb.clone(),
            _ => ism.clone(),
        };
        match a {
            A5::Pause(w, h) | A5::Release(w, h) => {
                let on = matches!(a, A5::Pause(..));
                let (to, cur) = if *h { (hook, s.p.1) } else { (ism, s.p.0) };
                let m = if on { json!({"pausable": {"pause": {}}}) } else { json!({"pausable": {"release": {}}}) };
                let r = n.ch.exec(&who(*w), to, &m, &[]);
                let want = *w == 0 && cur != on;
                ensure_eq!(r.ok(), want, "{a:?} while paused={cur} ({})", r.err());
                if want {
                    if *h {
                        n.p.1 = on
                    } else {
                        n.p.0 = on
                    }
                    cov.hit(if on { "paused" } else { "released" });
                } else {
                    ensure_eq!(n.ch.key(), s.ch.key(), "state after refusal");
                    cov.hit("refused");
                }
            }
            A5::Deliver => {
                let mut m = msg(REMOTE, b"p");
                m.recipient = h256(rec);
                m.nonce = s.seq;
                let al = s.ch.user("alice");
                let r = n.ch.exec(&al, &b.mb, &process_msg(&[], &m.enc()), &[]);
                ensure_eq!(r.ok(), !s.p.0, "delivery while paused={} ({})", s.p.0, r.err());
                if r.ok() {
                    n.seq += 1;
                    cov.hit("delivered");
                } else {
                    ensure_eq!(n.ch.key(), s.ch.key(), "state after a blocked delivery");
                    cov.hit("delivery blocked");
                }
            }
            A5::Dispatch => {
                if s.p.1 {
                    // nobody is exempt
                    for who in [s.ch.user("owner"), b.mb.clone(), ism.clone(), hook.clone(), rec.clone()] {
                        for h in [None, Some(hook.as_str())] {
                            let mut c2 = s.ch.clone();
                            let r = c2.exec(&who, &b.mb, &dispatch_msg(1, &[1; 32], b"", h, None), &[]);
                            ensure!(!r.ok(), "dispatch by {who} while paused");
                        }
                    }
                }
                if s.p.0 {
                    for who in [s.ch.user("owner"), b.mb.clone(), ism.clone(), hook.clone(), rec.clone()] {
                        let mut m = msg(REMOTE, b"p");
                        m.recipient = h256(rec);
                        m.nonce = s.seq;
                        let mut c2 = s.ch.clone();
                        let r = c2.exec(&who, &b.mb, &process_msg(&[], &m.enc()), &[]);
                        ensure!(!r.ok(), "delivery by {who} while paused");
                    }
                }
                let al = s.ch.user("alice");
                let r = n.ch.exec(&al, &b.mb, &dispatch_msg(1, &[1; 32], b"", None, None), &[]);
                ensure_eq!(r.ok(), !s.p.1, "dispatch while paused={} ({})", s.p.1, r.err());
                if r.ok() {
                    n.n += 1;
                    cov.hit("dispatched");
                } else {
                    ensure_eq!(n.ch.key(), s.ch.key(), "state after a blocked dispatch");
                    cov.hit("dispatch blocked");
                    // paying does not help
                    for paid in [coins(&[("a", 1)]), coins(&[("a", 5), ("b", 1)])] {
                        let mut c2 = s.ch.clone();
                        for (d, x) in &paid {
                            c2.fund(&al, d, *x);
                        }
                        for hook in [None, Some(hook.as_str())] {
                            let r = try_call(&mut c2, &al, &b.mb, &dispatch_msg(1, &[1; 32], b"", hook, None), &paid);
                            ensure!(!r.ok(), "dispatch paying {paid:?} while paused");
                        }
                    }
                }
                // a dispatch that does not reach the paused hook is not affected
                if !s.required {
                    let mut c2 = s.ch.clone();
                    let r = c2.exec(&al, &b.mb, &dispatch_msg(1, &[1; 32], b"", Some(&b.required), None), &[]);
                    ensure!(r.ok(), "dispatch through another hook: {}", r.err());
                }
            }
            A5::Nominate(h) => {
                let (to, code, on) = match h {
                    true => (hook, "hook_pausable", &mut n.nominated.1),
                    false => (ism, "ism_pausable", &mut n.nominated.0),
                };
                if *on {
                    return Ok(Step::Same);
                }
                *on = true;
                call(&mut n.ch, &who(0), to, super::admin::nominate(code, &who(1)))?;
            }
            A5::Blocks(k) => {
                n.ch.height += k;
                if n.ch.height > 1_000_000 {
                    return Ok(Step::Same);
                }
            }
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S5, cov: &mut Cov) -> Res<()> {
        let (b, ism, hook, _) = &*s.w;
        let m = msg(REMOTE, b"x").enc();
        for (a, p) in [(ism, s.p.0), (hook, s.p.1)] {
            let q = s.ch.query(a, &json!({"pausable": {"pause_info": {}}}))?;
            ensure_eq!(q["paused"], json!(p), "reported pause state");
        }
        for meta in [&[][..], &[1], &[0; 100]] {
            for m in [&m[..], &m[..77]] {
                ensure_eq!(verdict(&s.ch, ism, meta, m), !s.p.0, "verdict of the module");
                let mut c2 = s.ch.clone();
                let r = c2.exec(&b.mb, hook, &post_dispatch(meta, m), &[]);
                ensure_eq!(r.ok(), !s.p.1, "post-dispatch through the hook ({})", r.err());
                for who in [s.ch.user("owner"), s.ch.user("mallory"), b.mb.clone(), ism.clone(), hook.clone(), b.required.clone()] {
                    if !s.p.1 {
                        break;
                    }
                    let mut c2 = s.ch.clone();
                    let r = c2.exec(&who, hook, &post_dispatch(meta, m), &[]);
                    ensure!(!r.ok(), "post-dispatch by {who} through the paused hook");
                }
                if s.p.1 {
                    let mut c2 = s.ch.clone();
                    c2.fund(&b.mb, "a", 3);
                    let r = try_call(&mut c2, &b.mb, hook, &post_dispatch(meta, m), &coins(&[("a", 3)]));
                    ensure!(!r.ok(), "paid post-dispatch through the paused hook");
                }
                if !s.p.1 {
                    ensure_eq!(hook_quote(&s.ch, hook, meta, m)?, vec![], "quote of the hook");
                }
            }
        }
        ensure_eq!(nonce(&s.ch, &b.mb)?, s.n as u64, "nonce");
        cov.hit("checked");
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec![
            "paused",
            "released",
            "refused",
            "delivered",
            "delivery blocked",
            "dispatched",
            "dispatch blocked",
        ]
    }
}

pub fn i05(c: &mut Ctx) {
    c.run("pause histories", &M5, c.pick(9, 11), 5_000_000);
}
