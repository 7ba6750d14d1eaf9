//! H01 - H04: merkle, routing, aggregate and fee hooks.
use crate::chain::{keccak, Chain, Coins, TxOut};
use crate::codes::price;
use crate::explore::{Cov, CovExt, Ctx, Model, Res, Step};
use crate::util::*;
use crate::{ensure, ensure_eq};
use hpl_interface::types::MerkleTree;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

const LOCAL: u32 = 0x01fe_0304;
const REMOTE: u32 = 0x0a0b_0c0d;

// ------------------------------------------------------------------ H01

fn pair(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    keccak(&[a.as_slice(), b.as_slice()].concat())
}
fn zero_hashes() -> Vec<[u8; 32]> {
    let mut z = vec![[0u8; 32]];
    for i in 0..32 {
        z.push(pair(&z[i], &z[i]));
    }
    z
}
/// root and (written) branch entries of the depth-32 tree over `leaves`, from the definition
fn full_tree(leaves: &[[u8; 32]]) -> ([u8; 32], Vec<Option<[u8; 32]>>) {
    let z = zero_hashes();
    let mut level: Vec<[u8; 32]> = leaves.to_vec();
    let mut branch = vec![None; 32];
    for h in 0..32 {
        // branch[h]: the last complete subtree of height h that is a left child
        let complete = leaves.len() >> h;
        if complete > 0 {
            let i = (complete - 1) & !1;
            branch[h] = Some(level[i]);
        }
        if level.len() % 2 == 1 {
            level.push(z[h]);
        }
        level = level.chunks(2).map(|c| pair(&c[0], &c[1])).collect();
    }
    (level.first().copied().unwrap_or(z[32]), branch)
}
/// the incremental form, for trees too large to write down
#[derive(Clone)]
pub struct Inc {
    pub branch: Vec<[u8; 32]>,
    pub count: u64,
}
impl Inc {
    pub fn insert(&mut self, leaf: [u8; 32]) {
        self.count += 1;
        let mut node = leaf;
        for i in 0..32 {
            if self.count >> i & 1 == 1 {
                self.branch[i] = node;
                return;
            }
            node = pair(&self.branch[i], &node);
        }
    }
    pub fn root(&self) -> [u8; 32] {
        let z = zero_hashes();
        let mut cur = [0u8; 32];
        for i in 0..32 {
            cur = if self.count >> i & 1 == 1 {
                pair(&self.branch[i], &cur)
            } else {
                pair(&cur, &z[i])
            };
        }
        cur
    }
}

fn check_tree(ch: &Chain, hook: &str, ids: &[[u8; 32]]) -> Res<()> {
    let (root, branch) = full_tree(ids);
    let n = ids.len() as u64;
    let q = |k: &str| ch.query(hook, &json!({"merkle_hook": {k: {}}}));
    ensure_eq!(q("count")?["count"].as_u64(), Some(n), "count");
    ensure_eq!(q("root")?["root"], json!(hx(&root)), "root over {n} ids");
    let cp = q("check_point")?;
    ensure_eq!(cp["root"], json!(hx(&root)), "root in the checkpoint over {n} ids");
    ensure_eq!(cp["count"].as_u64(), Some(n.saturating_sub(1)), "index in the checkpoint");
    let tree = q("tree")?;
    ensure_eq!(tree["count"].as_u64(), Some(n), "count in tree");
    for (what, v) in [("branch", q("branch")?), ("tree", tree)] {
        let b = v["branch"].as_array().cloned().unwrap_or_default();
        ensure_eq!(b.len(), 32, "entries of the branch");
        for (i, x) in branch.iter().enumerate() {
            if let Some(x) = x {
                ensure_eq!(b[i], json!(hx(x)), "branch entry {i} in {what} over {n} ids");
            }
        }
    }
    Ok(())
}
/// insertions reported by `hook` in a transaction
fn check_inserted(t: &TxOut, hook: &str, first: usize, ids: &[[u8; 32]]) -> Res<()> {
    let a = t.events(hook, "hpl_hook_merkle::post_dispatch");
    let b = t.events(hook, "hpl_hook_merkle::inserted_into_tree");
    let want: Vec<(String, String)> = ids
        .iter()
        .enumerate()
        .map(|(i, id)| (hx(id), (first + i).to_string()))
        .collect();
    let got: Vec<(String, String)> = a
        .iter()
        .map(|e| {
            (
                e.get("message_id").cloned().unwrap_or_default(),
                e.get("index").cloned().unwrap_or_default(),
            )
        })
        .collect();
    ensure_eq!(got, want, "reported insertions");
    let got: Vec<String> = b.iter().map(|e| e.get("index").cloned().unwrap_or_default()).collect();
    let want: Vec<String> = want.into_iter().map(|w| w.1).collect();
    ensure_eq!(got, want, "reported indices");
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sel {
    Quiet,
    Failing,
    /// the second merkle hook
    Second,
    /// the hook itself, again
    Again,
    /// dispatches another message
    Nest,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Which {
    Latest,
    Previous,
    First,
    Never,
    /// the latest message with one bit flipped
    Flip(usize),
    Short,
    Longer,
    /// latest message of the other mailbox
    OtherMailbox,
}
#[derive(Clone, Debug)]
enum A1 {
    Disp(u8, Sel),
    /// one transaction: (hook, errors caught)
    Batch(Vec<(Sel, bool)>),
    OtherDisp,
    Direct(u8, Which),
    Blocks(u64),
}
struct W1 {
    mb: String,
    mb2: String,
    hook: String,
    second: String,
    quiet: String,
    failing: String,
    nest: String,
    acct: String,
}
#[derive(Clone)]
struct S1 {
    ch: Chain,
    w: Arc<W1>,
    msgs: Vec<Msg>,
    other: Vec<Msg>,
    ids: Vec<[u8; 32]>,
    ids2: Vec<[u8; 32]>,
}
struct M1 {
    required: bool,
}
fn body1(v: u8) -> (u32, [u8; 32], Vec<u8>) {
    match v {
        0 => (REMOTE, fill32("recipient"), b"body".to_vec()),
        _ => (LOCAL, [0xff; 32], fill("long", 100)),
    }
}
impl S1 {
    fn dispatch(&self, out: &mut S1r, sender: &str, v: u8, sel: Sel) -> bool {
        if sel == Sel::Failing {
            return false;
        }
        let (dest, recipient, body) = body1(v);
        let m = Msg {
            version: 3,
            nonce: out.msgs.len() as u32,
            origin: LOCAL,
            sender: self_h256(sender),
            dest,
            recipient,
            body,
        };
        let id = m.id();
        out.msgs.push(m);
        if out.required {
            out.ids.push(id);
        }
        match sel {
            Sel::Second => out.ids2.push(id),
            Sel::Again => out.ids.push(id),
            Sel::Nest => return self.dispatch(out, &self.w.nest, 1, if out.required { Sel::Quiet } else { Sel::Again }),
            _ => {}
        }
        true
    }
}
#[derive(Clone)]
struct S1r {
    msgs: Vec<Msg>,
    ids: Vec<[u8; 32]>,
    ids2: Vec<[u8; 32]>,
    required: bool,
}
impl M1 {
    fn sel(&self, w: &W1, s: Sel) -> Option<String> {
        match s {
            Sel::Quiet => Some(w.quiet.clone()),
            Sel::Failing => Some(w.failing.clone()),
            Sel::Second => Some(w.second.clone()),
            Sel::Again => Some(w.hook.clone()),
            Sel::Nest => Some(w.nest.clone()),
        }
    }
}
impl Model for M1 {
    type S = S1;
    type A = A1;
    fn init(&self) -> Res<Vec<(String, S1)>> {
        let mut ch = Chain::new("osmo");
        let owner = ch.user("owner");
        let b = basic(&mut ch, &owner, LOCAL)?;
        let b2 = basic(&mut ch, &owner, LOCAL)?;
        let hook = inst(&mut ch, "hook_merkle", &owner, json!({"mailbox": b.mb}))?;
        let second = inst(&mut ch, "hook_merkle", &owner, json!({"mailbox": b.mb}))?;
        let quiet = quiet_hook(&mut ch);
        if self.required {
            call(&mut ch, &owner, &b.mb, json!({"set_required_hook": {"hook": hook}}))?;
        }
        let failing = probe(&mut ch, |c| c.post_fail = true);
        let acct = probe(&mut ch, |_| {});
        let (d, r, bd) = body1(1);
        let inner = if self.required { &quiet } else { &hook };
        let nest = probe(&mut ch, |c| {
            c.post_emit = vec![
                emit(&b.mb, &dispatch_msg(d, &r, &bd, Some(&failing), None), true),
                emit(&b.mb, &dispatch_msg(d, &r, &bd, Some(inner), None), false),
            ]
        });
        let q = ch.query(&hook, &json!({"hook": {"mailbox": {}}}))?;
        ensure_eq!(q["mailbox"].as_str(), Some(b.mb.as_str()), "mailbox of the hook");
        Ok(vec![(
            "empty trees".into(),
            S1 {
                ch,
                w: Arc::new(W1 {
                    mb: b.mb,
                    mb2: b2.mb,
                    hook,
                    second,
                    quiet,
                    failing,
                    nest,
                    acct,
                }),
                msgs: vec![],
                other: vec![],
                ids: vec![],
                ids2: vec![],
            },
        )])
    }
    fn actions(&self, _: &S1) -> Vec<A1> {
        let mut v = vec![];
        for s in [Sel::Quiet, Sel::Failing, Sel::Second, Sel::Again, Sel::Nest] {
            if s != Sel::Again || !self.required {
                v.push(A1::Disp(0, s));
            }
        }
        v.push(A1::Disp(1, Sel::Second));
        let a = if self.required { Sel::Quiet } else { Sel::Again };
        v.push(A1::Batch(vec![(a, false), (a, false)]));
        v.push(A1::Batch(vec![(a, true), (Sel::Failing, true), (Sel::Nest, true), (a, true)]));
        v.push(A1::Batch(vec![(a, true), (Sel::Failing, false)]));
        v.push(A1::OtherDisp);
        for w in [
            Which::Latest,
            Which::Previous,
            Which::First,
            Which::Never,
            Which::Flip(0),
            Which::Flip(4 * 8 + 7),
            Which::Flip(77 * 8),
            Which::Short,
            Which::Longer,
            Which::OtherMailbox,
        ] {
            v.push(A1::Direct(0, w));
        }
        v.push(A1::Direct(1, Which::Previous));
        v.push(A1::Direct(1, Which::Never));
        v.push(A1::Blocks(50_000));
        v
    }
    fn key(&self, s: &S1) -> u128 {
        s.ch.key() ^ dig(&(&s.ids, &s.ids2, s.msgs.len(), s.other.len()))
    }
    fn step(&self, s: &S1, a: &A1, cov: &mut Cov) -> Res<Step<S1>> {
        let mut n = s.clone();
        let w = s.w.clone();
        let al = s.ch.user("alice");
        let mut out = S1r {
            msgs: s.msgs.clone(),
            ids: s.ids.clone(),
            ids2: s.ids2.clone(),
            required: self.required,
        };
        match a {
            A1::Blocks(k) => {
                if s.ch.height > 100_000 {
                    return Ok(Step::Same);
                }
                n.ch.height += k;
            }
            A1::OtherDisp => {
                let (d, r, b) = body1(0);
                call(&mut n.ch, &al, &w.mb2, dispatch_msg(d, &r, &b, None, None))?;
                n.other.push(Msg {
                    version: 3,
                    nonce: n.other.len() as u32,
                    origin: LOCAL,
                    sender: self_h256(&al),
                    dest: d,
                    recipient: r,
                    body: b,
                });
            }
            A1::Disp(v, sel) => {
                let (d, r, b) = body1(*v);
                let m = dispatch_msg(d, &r, &b, self.sel(&w, *sel).as_deref(), None);
                let t = n.ch.exec(&al, &w.mb, &m, &[]);
                let want = s.dispatch(&mut out, &al, *v, *sel);
                self.finish(s, &mut n, &t, want, out, cov)?;
            }
            A1::Batch(l) => {
                let (d, r, b) = body1(0);
                let em: Vec<_> = l
                    .iter()
                    .map(|(sel, sw)| emit(&w.mb, &dispatch_msg(d, &r, &b, self.sel(&w, *sel).as_deref(), None), *sw))
                    .collect();
                let t = n.ch.exec(&al, &w.acct, &relay(&em), &[]);
                let mut good = true;
                for (sel, sw) in l {
                    let mut o2 = out.clone();
                    if s.dispatch(&mut o2, &w.acct, 0, *sel) {
                        out = o2;
                    } else if !sw {
                        good = false;
                        break;
                    }
                }
                self.finish(s, &mut n, &t, good, out, cov)?;
            }
            A1::Direct(who, which) => {
                let who = if *who == 0 { al } else { w.mb.clone() };
                let latest = s.msgs.last();
                let bytes = match which {
                    Which::Latest => latest.map(|m| m.enc()),
                    Which::Previous => s.msgs.len().checked_sub(2).map(|i| s.msgs[i].enc()),
                    Which::First => s.msgs.first().map(|m| m.enc()),
                    Which::Never => {
                        let mut m = latest.cloned().unwrap_or(Msg::dec(&[3; 90]).unwrap());
                        m.nonce = s.msgs.len() as u32;
                        Some(m.enc())
                    }
                    Which::Flip(i) => latest.map(|m| {
                        let mut e = m.enc();
                        e[i / 8] ^= 0x80 >> (i % 8);
                        e
                    }),
                    Which::Short => latest.map(|m| m.enc()[..76].to_vec()),
                    Which::Longer => latest.map(|m| [m.enc(), vec![0]].concat()),
                    Which::OtherMailbox => s.other.last().map(|m| m.enc()),
                };
                let Some(bytes) = bytes else { return Ok(Step::Same) };
                let id = keccak(&bytes);
                let is_latest = latest.map(|m| m.id()) == Some(id);
                let t = n.ch.exec(&who, &w.hook, &post_dispatch(b"", &bytes), &[]);
                ensure!(
                    is_latest || !t.ok(),
                    "a message that is not the latest dispatched one was inserted"
                );
                if t.ok() {
                    check_inserted(&t, &w.hook, s.ids.len(), &[id])?;
                    n.ids.push(id);
                } else {
                    ensure_eq!(n.ch.key(), s.ch.key(), "state after a refused insertion");
                    cov.hit("direct insertion refused");
                }
            }
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S1, _: &mut Cov) -> Res<()> {
        check_tree(&s.ch, &s.w.hook, &s.ids)?;
        check_tree(&s.ch, &s.w.second, &s.ids2)
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["inserted", "dispatch failed", "direct insertion refused", "several in one transaction"]
    }
}
impl M1 {
    fn finish(&self, s: &S1, n: &mut S1, t: &TxOut, want: bool, out: S1r, cov: &mut Cov) -> Res<()> {
        ensure_eq!(t.ok(), want, "dispatch ({})", t.err());
        if want {
            check_inserted(t, &s.w.hook, s.ids.len(), &out.ids[s.ids.len()..])?;
            check_inserted(t, &s.w.second, s.ids2.len(), &out.ids2[s.ids2.len()..])?;
            if out.ids.len() > s.ids.len() {
                cov.hit("inserted");
            }
            if out.ids.len() > s.ids.len() + 1 {
                cov.hit("several in one transaction");
            }
            n.msgs = out.msgs;
            n.ids = out.ids;
            n.ids2 = out.ids2;
        } else {
            ensure_eq!(n.ch.key(), s.ch.key(), "state after a failed dispatch");
            cov.hit("dispatch failed");
        }
        Ok(())
    }
}

pub fn h01(c: &mut Ctx) {
    c.assume("the reference tree is computed from its definition for histories and with an independent incremental form for counts up to 2^32-1");
    c.run("required hook", &M1 { required: true }, c.pick(4, 5), 10_000_000);
    c.run("requested hook", &M1 { required: false }, c.pick(4, 5), 10_000_000);
    // long linear history, checked at every step
    let n = c.pick(700u32, 5000);
    c.cases("long run", || Ok(()), vec![n], &["inserted"], |_, n, cov| {
        let mut ch = Chain::new("osmo");
        let owner = ch.user("owner");
        let b = basic(&mut ch, &owner, LOCAL)?;
        let hook = inst(&mut ch, "hook_merkle", &owner, json!({"mailbox": b.mb}))?;
        call(&mut ch, &owner, &b.mb, json!({"set_required_hook": {"hook": hook}}))?;
        let al = ch.user("alice");
        let mut ids = vec![];
        let mut inc = Inc {
            branch: vec![[0; 32]; 32],
            count: 0,
        };
        for k in 0..*n {
            let m = Msg {
                version: 3,
                nonce: k,
                origin: LOCAL,
                sender: self_h256(&al),
                dest: 9,
                recipient: [3; 32],
                body: k.to_be_bytes().to_vec(),
            };
            let t = call(&mut ch, &al, &b.mb, dispatch_msg(9, &[3; 32], &m.body, None, None))?;
            ids.push(m.id());
            inc.insert(m.id());
            check_inserted(&t, &hook, k as usize, &ids[k as usize..])?;
            let q = ch.query(&hook, &json!({"merkle_hook": {"check_point": {}}}))?;
            ensure_eq!(q["root"], json!(hx(&inc.root())), "root after {} messages", k + 1);
            ensure_eq!(q["count"].as_u64(), Some(k as u64), "index");
            if k % 61 == 0 || (k + 2).is_power_of_two() || (k + 1).is_power_of_two() || k.is_power_of_two() {
                check_tree(&ch, &hook, &ids)?;
            }
            cov.hit("inserted");
        }
        Ok(ch.key())
    });
    // every shape of message
    let mut v: Vec<(usize, u32, bool)> = vec![];
    for n in (0usize..=70).chain([100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8192, 16_384, 32_768, 65_535, 65_536, 70_000, 200_000]) {
        for required in [true, false] {
            v.push((n, REMOTE, required));
        }
    }
    for d in domains(REMOTE).into_iter().chain(domains(LOCAL)) {
        v.push((20, d, true));
        v.push((20, d, false));
    }
    c.cases("shapes of messages", || Ok(()), v, &["inserted"], |_, (n, dest, required), cov| {
        let mut ch = Chain::new("osmo");
        let owner = ch.user("owner");
        let b = basic(&mut ch, &owner, LOCAL)?;
        let hook = inst(&mut ch, "hook_merkle", &owner, json!({"mailbox": b.mb}))?;
        let k = if *required { "set_required_hook" } else { "set_default_hook" };
        call(&mut ch, &owner, &b.mb, json!({k: {"hook": hook}}))?;
        let al = ch.user("alice");
        let mut ids = vec![];
        for (k, r) in [[0u8; 32], [0xff; 32], self_h256(&al), self_h256(&b.mb), fill32("any")].into_iter().enumerate() {
            let m = Msg {
                version: 3,
                nonce: k as u32,
                origin: LOCAL,
                sender: self_h256(&al),
                dest: *dest,
                recipient: r,
                body: fill(&format!("b{k}"), *n),
            };
            let meta = fill("meta", [0, 1, 32, 60, 500][k]);
            let t = call(&mut ch, &al, &b.mb, dispatch_msg(*dest, &r, &m.body, None, Some(&meta)))?;
            ids.push(m.id());
            check_inserted(&t, &hook, k, &ids[k..])?;
        }
        check_tree(&ch, &hook, &ids)?;
        cov.hit("inserted");
        Ok(dig(&(n, dest, required)))
    });
    // a message whose id has four bytes in common with that of the latest one is not the latest one
    let mk = |k: u32| Msg {
        version: 3,
        nonce: 0,
        origin: LOCAL,
        sender: fill32("whose ids have bytes in common"),
        dest: 5,
        recipient: [7; 32],
        body: k.to_be_bytes().to_vec(),
    };
    let v = collisions(&mk(0).enc()[..77], false);
    c.cases("ids with bytes in common", || Ok(()), v, &["refused"], move |_, (_, i, j), cov| {
        let mut ch = Chain::new("osmo");
        let owner = ch.user("owner");
        let b = basic(&mut ch, &owner, LOCAL)?;
        let hook = inst(&mut ch, "hook_merkle", &owner, json!({"mailbox": b.mb}))?;
        call(&mut ch, &owner, &b.mb, json!({"set_required_hook": {"hook": hook}}))?;
        let al = addr_of("osmo", &mk(0).sender);
        let t = call(&mut ch, &al, &b.mb, dispatch_msg(5, &[7; 32], &mk(*i).body, None, None))?;
        let ids = [mk(*i).id()];
        check_inserted(&t, &hook, 0, &ids)?;
        let t = ch.exec(&al, &hook, &post_dispatch(b"", &mk(*j).enc()), &[]);
        ensure!(!t.ok(), "inserted a message that was not dispatched");
        check_tree(&ch, &hook, &ids)?;
        cov.hit("refused");
        Ok(ch.key())
    });
    // the tree itself, for every bit of the counter
    let mut counts: Vec<u64> = vec![0, 1, 2, 3, 5, 6, 7];
    for k in 2..=32u32 {
        let p = 1u64 << k;
        for d in [-2i64, -1, 0, 1, 2] {
            counts.push((p as i64 + d) as u64);
        }
        counts.push(p | p >> 1);
        counts.push(p | 1 | p >> 2);
        counts.push(0xaaaa_aaaa & (p - 1));
        counts.push(0x5555_5555 & (p - 1));
    }
    counts.sort();
    counts.dedup();
    counts.retain(|c| *c <= u32::MAX as u64);
    let mut v = vec![];
    for n in counts {
        for seed in 0..3u8 {
            v.push((n, seed));
        }
    }
    c.cases(
        "one insertion at any count",
        || Ok(()),
        v,
        &["inserted", "full"],
        |_, (n, seed), cov| {
            let branch: Vec<[u8; 32]> = (0..32).map(|i| fill32(&format!("{seed} {n} {i}"))).collect();
            let mut real = MerkleTree {
                branch: branch
                    .iter()
                    .map(|b| b.to_vec().into())
                    .collect::<Vec<cosmwasm_std::HexBinary>>()
                    .try_into()
                    .map_err(|_| "branch")?,
                count: *n as u128,
            };
            let mut inc = Inc { branch, count: *n };
            ensure_eq!(hx(&real.root().map_err(|e| e.to_string())?), hx(&inc.root()), "root before");
            let leaf = fill32(&format!("leaf {seed}"));
            let before = real.clone();
            let r = real.insert(leaf.to_vec().into());
            if *n >= u32::MAX as u64 {
                ensure!(r.is_err(), "insertion into a full tree");
                ensure!(real == before, "refused insertion changed the tree");
                cov.hit("full");
                return Ok(*n as u128);
            }
            r.map_err(|e| format!("insertion at {n}: {e}"))?;
            inc.insert(leaf);
            ensure_eq!(real.count, inc.count as u128, "count");
            for i in 0..32 {
                ensure_eq!(hx(&real.branch[i]), hx(&inc.branch[i]), "branch {i}");
            }
            ensure_eq!(hx(&real.root().map_err(|e| e.to_string())?), hx(&inc.root()), "root after");
            cov.hit("inserted");
            Ok(*n as u128 | (*seed as u128) << 40)
        },
    );
    // the same through the hook: the tree found in its store is replaced. If it is kept in a form this harness does
    // not recognise, nothing is replaced and the case ends early.
    let mut counts: Vec<u64> = vec![];
    for k in 2..32u32 {
        let p = 1u64 << k;
        counts.extend([p - 1, p, p | p >> 1, 0xaaaa_aaaa & (p - 1)]);
    }
    counts.extend([u32::MAX as u64 - 2, u32::MAX as u64 - 1]);
    counts.sort();
    counts.dedup();
    c.cases("the hook at any count", || Ok(()), counts, &["case"], |_, n, cov| {
        cov.hit("case");
        let mut ch = Chain::new("osmo");
        let owner = ch.user("owner");
        let b = basic(&mut ch, &owner, LOCAL)?;
        let hook = inst(&mut ch, "hook_merkle", &owner, json!({"mailbox": b.mb}))?;
        call(&mut ch, &owner, &b.mb, json!({"set_required_hook": {"hook": hook}}))?;
        let al = ch.user("alice");
        let branch: Vec<[u8; 32]> = (0..32).map(|i| fill32(&format!("{n} {i}"))).collect();
        let mut found = vec![];
        for (k, v) in ch.store_dump(&hook) {
            if let Ok(mut v) = serde_json::from_slice::<Value>(&v) {
                if v["branch"].as_array().map(Vec::len) == Some(32) && !v["count"].is_null() {
                    v["branch"] = branch.iter().map(|b| hx(b)).collect::<Vec<_>>().into();
                    v["count"] = match v["count"].is_string() {
                        true => json!(n.to_string()),
                        false => json!(n),
                    };
                    found.push((k, v));
                }
            }
        }
        if found.len() != 1 {
            return Ok(0);
        }
        ch.store_set(&hook, &found[0].0, Some(found[0].1.to_string().into_bytes()));
        let mut inc = Inc { branch, count: *n };
        let q = |ch: &Chain, k: &str| ch.query(&hook, &json!({"merkle_hook": {k: {}}}));
        if q(&ch, "count")?["count"].as_u64() != Some(*n) {
            return Ok(1);
        }
        cov.hit("moved ahead");
        for k in 0..2u32 {
            let m = Msg {
                version: 3,
                nonce: k,
                origin: LOCAL,
                sender: self_h256(&al),
                dest: 9,
                recipient: [3; 32],
                body: b"m".to_vec(),
            };
            ensure_eq!(q(&ch, "root")?["root"], json!(hx(&inc.root())), "root of {} ids", inc.count);
            let before = inc.count;
            let full = before >= u32::MAX as u64;
            let t = ch.exec(&al, &b.mb, &dispatch_msg(9, &[3; 32], &m.body, None, None), &[]);
            ensure_eq!(t.ok(), !full, "dispatch with {before} ids in the tree: {}", t.err());
            if full {
                cov.hit("full");
                continue;
            }
            check_inserted(&t, &hook, before as usize, &[m.id()])?;
            inc.insert(m.id());
            let cp = q(&ch, "check_point")?;
            ensure_eq!(cp["root"], json!(hx(&inc.root())), "root in the checkpoint of {} ids", inc.count);
            ensure_eq!(cp["count"].as_u64(), Some(before), "index in the checkpoint");
            ensure_eq!(q(&ch, "root")?["root"], json!(hx(&inc.root())), "root of {} ids", inc.count);
            ensure_eq!(q(&ch, "count")?["count"].as_u64(), Some(inc.count), "count");
            let tree = q(&ch, "tree")?;
            ensure_eq!(tree["count"].as_u64(), Some(inc.count), "count in the tree");
            let bare = q(&ch, "branch")?;
            for i in 0..32 {
                ensure_eq!(tree["branch"][i], json!(hx(&inc.branch[i])), "branch {i} in the tree");
                ensure_eq!(bare["branch"][i], json!(hx(&inc.branch[i])), "branch {i}");
            }
        }
        Ok(ch.key())
    });
    // inclusion paths: every position of every tree up to a size, and the last positions of synthetic ones
    let top = c.pick(34usize, 130);
    c.cases(
        "inclusion paths",
        || Ok(()),
        (1..=top).collect(),
        &["recomputed", "other position", "other leaf"],
        |_, n, cov| {
            let leaves: Vec<[u8; 32]> = (0..*n).map(|i| fill32(&format!("leaf {i}"))).collect();
            let mut real = MerkleTree::default();
            for l in &leaves {
                real.insert(l.to_vec().into()).map_err(|e| e.to_string())?;
            }
            let root = real.root().map_err(|e| e.to_string())?;
            ensure_eq!(hx(&root), hx(&full_tree(&leaves).0), "root of {n} leaves");
            for i in 0..*n {
                let mut path: Vec<[u8; 32]> = vec![];
                let (mut layer, mut at) = (leaves.clone(), i);
                for z in zero_hashes().into_iter().take(32) {
                    path.push(*layer.get(at ^ 1).unwrap_or(&z));
                    layer = layer.chunks(2).map(|p| pair(&p[0], p.get(1).unwrap_or(&z))).collect();
                    at /= 2;
                }
                let path: [cosmwasm_std::HexBinary; 32] = path
                    .iter()
                    .map(|b| b.to_vec().into())
                    .collect::<Vec<cosmwasm_std::HexBinary>>()
                    .try_into()
                    .map_err(|_| "path")?;
                let calc = |l: &[u8; 32], at: u128| hx(&MerkleTree::branch_root(l.to_vec().into(), path.clone(), at));
                ensure_eq!(calc(&leaves[i], i as u128), hx(&root), "path of leaf {i} of {n}");
                cov.hit("recomputed");
                for other in 0..*n {
                    if other != i {
                        ensure!(calc(&leaves[other], i as u128) != hx(&root), "leaf {other} proved at {i}");
                        cov.hit("other leaf");
                    }
                }
                for bit in 0..32 {
                    // the sibling path of two equal halves proves both positions
                    if path[bit].as_slice() != leaves[i] {
                        ensure!(calc(&leaves[i], i as u128 ^ 1 << bit) != hx(&root), "leaf {i} proved elsewhere");
                        cov.hit("other position");
                    }
                }
            }
            Ok(*n as u128)
        },
    );
}

// ------------------------------------------------------------------ H02

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Var {
    Plain,
    Custom,
    Fallback,
}
const DOM: [u32; 5] = [REMOTE, LOCAL, REMOTE ^ 1, 0, 0x0d0c_0b0a];
fn rec(i: usize) -> [u8; 32] {
    let mut r = fill32("recipient");
    match i {
        0 => {}
        1 => r[31] ^= 1,
        _ => r[0] ^= 0x80,
    }
    r
}
#[derive(Clone, Debug)]
enum A2 {
    Route(u8, usize, Option<usize>),
    Routes(Vec<(usize, Option<usize>)>),
    Reg(u8, usize, usize, usize),
    Regs(Vec<(usize, usize, usize)>),
    Clear(u8, usize, usize),
    Clears(Vec<(usize, usize)>),
    Fall(u8, usize),
    /// a batch by somebody else
    BadRoutes,
    /// a batch whose last entry is invalid
    BadRegs,
}
#[derive(Clone)]
struct S2 {
    ch: Chain,
    hook: String,
    hooks: Arc<Vec<String>>,
    routes: BTreeMap<u32, usize>,
    custom: BTreeMap<(u32, usize), usize>,
    fall: Option<usize>,
}
struct M2 {
    var: Var,
    doms: usize,
    recs: usize,
}
fn msg2(d: u32, r: &[u8; 32]) -> Msg {
    Msg {
        version: 3,
        nonce: 77,
        origin: LOCAL,
        sender: fill32("sender"),
        dest: d,
        recipient: *r,
        body: b"routed".to_vec(),
    }
}
/// the routing hook must quote and call exactly `want`
pub fn check_forward(ch: &Chain, hook: &str, m: &Msg, meta: &[u8], want: Option<&str>, cov: &mut Cov) -> Res<()> {
    let me = m.enc();
    let al = ch.user("alice");
    let (q, _) = ch.query_traced(
        hook,
        json!({"hook": {"quote_dispatch": {"metadata": hx(meta), "message": hx(&me)}}})
            .to_string()
            .into_bytes(),
    );
    let many = [("a", 1u128), ("b", 2), ("c", 3), ("d", 4), ("factory/x/y", 5), ("ibc/27394FB0", 6), ("z", 7)];
    for funds in [coins(&[]), coins(&[("a", 3)]), coins(&[("a", 3), ("b", 9)]), coins(&many)] {
        let mut c2 = ch.clone();
        if funds.len() > 2 {
            for (d, a) in &funds[2..] {
                c2.fund(&al, d, *a);
            }
        }
        let before = c2.clone();
        let t = try_call(&mut c2, &al, hook, &post_dispatch(meta, &me), &funds);
        match want {
            None => {
                ensure!(q.is_err(), "quote without a hook for {}: {:?}", m.dest, q);
                ensure!(!t.ok(), "post-dispatch without a hook for {}", m.dest);
                cov.hit("no hook");
            }
            Some(w) => {
                let v: Value = serde_json::from_slice(q.as_ref()?).map_err(|e| e.to_string())?;
                ensure_eq!(fees(&v)?, coins(&[("a", price(w, &hx(meta), &hx(&me)))]), "quote");
                ensure!(t.ok(), "post-dispatch: {}", t.err());
                let calls: Vec<_> = t.calls().into_iter().skip(1).collect();
                ensure_eq!(
                    calls,
                    vec![(hook.to_string(), w.to_string(), post_dispatch(meta, &me), funds.clone())],
                    "calls for destination {} recipient {}",
                    m.dest,
                    hx(&m.recipient[..4])
                );
                let mut exp: BTreeMap<(String, String), i128> = BTreeMap::new();
                for (d, a) in &funds {
                    exp.insert((al.clone(), d.clone()), -(*a as i128));
                    exp.insert((w.to_string(), d.clone()), *a as i128);
                }
                ensure_eq!(bank_delta(&before, &c2), exp, "balances");
                cov.hit("forwarded");
            }
        }
    }
    let Some(w) = want else {
        return Ok(());
    };
    // no other hook steps in for one that fails
    for (quoting, posting) in [(true, false), (false, true)] {
        let mut c2 = ch.clone();
        reprobe(&mut c2, w, |c| (c.quote_fail, c.post_fail) = (quoting, posting));
        let before = c2.key();
        let q = c2.query(hook, &json!({"hook": {"quote_dispatch": {"metadata": hx(meta), "message": hx(&me)}}}));
        ensure_eq!(q.is_ok(), !quoting, "quote while the quote of the hook fails");
        if posting {
            let t = try_call(&mut c2, &al, hook, &post_dispatch(meta, &me), &coins(&[("a", 3)]));
            ensure!(!t.ok(), "post-dispatch while the hook fails");
            ensure_eq!(c2.key(), before, "state after a failed post-dispatch");
        }
        cov.hit("failing hook");
    }
    Ok(())
}
impl M2 {
    fn code(&self) -> &'static str {
        match self.var {
            Var::Plain => "hook_routing",
            Var::Custom => "hook_routing_custom",
            Var::Fallback => "hook_routing_fallback",
        }
    }
}
impl S2 {
    fn want(&self, d: u32, r: usize) -> Option<&str> {
        self.custom
            .get(&(d, r))
            .or(self.routes.get(&d))
            .or(self.fall.as_ref())
            .map(|i| self.hooks[*i].as_str())
    }
}
fn hashed_hooks(ch: &mut Chain, n: usize) -> Vec<String> {
    (0..n).map(|_| probe(ch, |c| c.quote_hashed = Some("a".into()))).collect()
}
impl Model for M2 {
    type S = S2;
    type A = A2;
    fn init(&self) -> Res<Vec<(String, S2)>> {
        let mut ch = Chain::new("osmo");
        let owner = ch.user("owner");
        let hook = inst(&mut ch, self.code(), &owner, json!({"owner": owner}))?;
        let hooks = hashed_hooks(&mut ch, 3);
        let al = ch.user("alice");
        ch.fund(&al, "a", 1000);
        ch.fund(&al, "b", 1000);
        ch.fund(&hook, "a", 50); // stays where it is
        Ok(vec![(
            "nothing configured".into(),
            S2 {
                ch,
                hook,
                hooks: Arc::new(hooks),
                routes: BTreeMap::new(),
                custom: BTreeMap::new(),
                fall: None,
            },
        )])
    }
    fn actions(&self, _: &S2) -> Vec<A2> {
        let mut v = vec![];
        for d in 0..self.doms {
            for h in [None, Some(0), Some(1)] {
                v.push(A2::Route(0, d, h));
            }
            v.push(A2::Route(1, d, Some(0)));
        }
        v.push(A2::Routes(vec![(0, Some(0)), (1, Some(1)), (0, Some(1))]));
        v.push(A2::Routes(vec![(1, None), (0, Some(0))]));
        v.push(A2::BadRoutes);
        match self.var {
            Var::Custom => {
                for d in 0..self.doms {
                    for r in 0..self.recs {
                        for h in [0, 2] {
                            v.push(A2::Reg(0, d, r, h));
                        }
                        v.push(A2::Clear(0, d, r));
                    }
                    v.push(A2::Reg(1, d, 0, 1));
                    v.push(A2::Clear(1, d, 0));
                }
                v.push(A2::Regs(vec![(0, 0, 0), (1, 1, 2), (0, 0, 2)]));
                v.push(A2::Clears(vec![(0, 1), (1, 0)]));
                v.push(A2::BadRegs);
            }
            Var::Fallback => {
                for h in 0..3 {
                    v.push(A2::Fall(0, h));
                }
                v.push(A2::Fall(1, 0));
            }
            Var::Plain => {}
        }
        v
    }
    fn key(&self, s: &S2) -> u128 {
        s.ch.key() ^ dig(&(&s.routes, &s.custom, s.fall))
    }
    fn step(&self, s: &S2, a: &A2, cov: &mut Cov) -> Res<Step<S2>> {
        let mut n = s.clone();
        let who = |w: u8| s.ch.user(if w == 0 { "owner" } else { "mallory" });
        let hk = |i: &usize| s.hooks[*i].clone();
        let set = |(d, h): &(usize, Option<usize>)| json!({"domain": DOM[*d], "route": h.as_ref().map(hk)});
        let reg = |(d, r, h): &(usize, usize, usize)| json!({"dest_domain": DOM[*d], "recipient": hx(&rec(*r)), "hook": hk(h)});
        let clr = |(d, r): &(usize, usize)| json!({"dest_domain": DOM[*d], "recipient": hx(&rec(*r))});
        let (w, m, good) = match a {
            A2::Route(w, d, h) => {
                if *w == 0 {
                    match h {
                        Some(h) => n.routes.insert(DOM[*d], *h),
                        None => n.routes.remove(&DOM[*d]),
                    };
                }
                (*w, json!({"router": {"set_route": {"set": set(&(*d, *h))}}}), true)
            }
            A2::Routes(l) => {
                for (d, h) in l {
                    match h {
                        Some(h) => n.routes.insert(DOM[*d], *h),
                        None => n.routes.remove(&DOM[*d]),
                    };
                }
                let l: Vec<Value> = l.iter().map(set).collect();
                (0, json!({"router": {"set_routes": {"set": l}}}), true)
            }
            A2::BadRoutes => {
                let l = vec![set(&(0, Some(1))), set(&(1, Some(0)))];
                (1, json!({"router": {"set_routes": {"set": l}}}), false)
            }
            A2::Reg(w, d, r, h) => {
                if *w == 0 {
                    n.custom.insert((DOM[*d], *r), *h);
                }
                (*w, json!({"register_custom_hook": reg(&(*d, *r, *h))}), true)
            }
            A2::Regs(l) => {
                for (d, r, h) in l {
                    n.custom.insert((DOM[*d], *r), *h);
                }
                (0, json!({"register_custom_hooks": l.iter().map(reg).collect::<Vec<_>>()}), true)
            }
            A2::BadRegs => {
                let l = vec![
                    reg(&(0, 0, 1)),
                    json!({"dest_domain": DOM[1], "recipient": hx(&rec(0)[1..]), "hook": hk(&0)}),
                ];
                (0, json!({"register_custom_hooks": l}), false)
            }
            A2::Clear(w, d, r) => {
                if *w == 0 {
                    n.custom.remove(&(DOM[*d], *r));
                }
                (*w, json!({"clear_custom_hook": clr(&(*d, *r))}), true)
            }
            A2::Clears(l) => {
                for (d, r) in l {
                    n.custom.remove(&(DOM[*d], *r));
                }
                (0, json!({"clear_custom_hooks": l.iter().map(clr).collect::<Vec<_>>()}), true)
            }
            A2::Fall(w, h) => {
                if *w == 0 {
                    n.fall = Some(*h);
                }
                (*w, json!({"set_fallback_hook": {"hook": hk(h)}}), true)
            }
        };
        let r = n.ch.exec(&who(w), &s.hook, &m, &[]);
        let want = w == 0 && good;
        if matches!(a, A2::Clear(..) | A2::Clears(_)) && w == 0 && n.custom.len() == s.custom.len() {
            // clearing what is not there: either way nothing changes
            cov.hit("changed");
            return Ok(Step::Next(n));
        }
        ensure_eq!(r.ok(), want, "{a:?} ({})", r.err());
        if want {
            cov.hit("changed");
        } else {
            ensure_eq!(n.ch.key(), s.ch.key(), "state after refusal");
            cov.hit("refused");
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S2, cov: &mut Cov) -> Res<()> {
        for d in DOM {
            for r in 0..3 {
                if r > 0 && self.var != Var::Custom {
                    continue;
                }
                let m = msg2(d, &rec(r));
                check_forward(&s.ch, &s.hook, &m, b"meta", s.want(d, r), cov)?;
                if self.var == Var::Custom {
                    let q = s.ch.query(
                        &s.hook,
                        &json!({"custom_routing_hook": {"custom_hook": {"dest_domain": d, "recipient": hx(&rec(r))}}}),
                    );
                    let want = s.custom.get(&(d, r)).map(|i| s.hooks[*i].clone());
                    let got = q.ok().and_then(|v| v["hook"].as_str().map(|s| s.to_string()));
                    ensure_eq!(got, want, "registered hook of {d}");
                }
            }
        }
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["changed", "refused", "forwarded", "no hook"]
    }
}

pub fn h02(c: &mut Ctx) {
    c.assume("routed hooks are probe contracts whose quote depends on every byte of metadata and message");
    c.run(
        "routing hook",
        &M2 {
            var: Var::Plain,
            doms: 4,
            recs: 0,
        },
        c.pick(6, 10),
        1_000_000,
    );
    c.run(
        "fallback hook",
        &M2 {
            var: Var::Fallback,
            doms: c.pick(3, 4),
            recs: 0,
        },
        c.pick(6, 10),
        1_000_000,
    );
    c.run(
        "custom routing hook",
        &M2 {
            var: Var::Custom,
            doms: 2,
            recs: c.pick(2, 3),
        },
        c.pick(5, 6),
        10_000_000,
    );
    // many destinations and recipients, set and cleared one after another
    let mut v = vec![];
    for var in [Var::Plain, Var::Custom, Var::Fallback] {
        for order in 0..2usize {
            v.push((var, order));
        }
    }
    c.cases(
        "many destinations",
        || Ok(()),
        v,
        &["forwarded", "no hook"],
        |_, (var, order), cov| {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let m2 = M2 {
                var: *var,
                doms: 0,
                recs: 0,
            };
            let hook = inst(&mut ch, m2.code(), &owner, json!({"owner": owner}))?;
            let al = ch.user("alice");
            ch.fund(&al, "a", 1000);
            ch.fund(&al, "b", 1000);
            // keys: destination and recipient
            let mut ds = domains(REMOTE);
            ds.push(LOCAL);
            if *var == Var::Custom {
                ds.push(LOCAL + 1);
            }
            let mut keys: Vec<(u32, [u8; 32])> = ds.iter().map(|d| (*d, rec(0))).collect();
            if *var == Var::Custom {
                let mut rs = vec![[0; 32], [0xff; 32], rec(1), rec(2)];
                for i in (0..256).step_by(11) {
                    let mut r = rec(0);
                    r[i / 8] ^= 0x80 >> (i % 8);
                    rs.push(r);
                }
                keys.extend(rs.into_iter().map(|r| (REMOTE, r)));
            }
            let n = keys.len();
            ensure!(n % 7 != 0 && n % 5 != 0, "strides {n}");
            let hooks = hashed_hooks(&mut ch, n);
            let mut cur: BTreeMap<(u32, [u8; 32]), usize> = BTreeMap::new();
            let at = |k: usize| if *order == 0 { k } else { (k * 7 + 3) % n };
            for k in 0..2 * n {
                let i = if k < n { at(k) } else { at(((k - n) * 5 + 1) % n) };
                let (d, r) = keys[i];
                let m = match (*var, k < n) {
                    (Var::Custom, true) => json!({"register_custom_hook": {"dest_domain": d, "recipient": hx(&r), "hook": hooks[i]}}),
                    (Var::Custom, false) => json!({"clear_custom_hook": {"dest_domain": d, "recipient": hx(&r)}}),
                    (_, true) => json!({"router": {"set_route": {"set": {"domain": d, "route": hooks[i]}}}}),
                    (_, false) => json!({"router": {"set_route": {"set": {"domain": d, "route": null}}}}),
                };
                call(&mut ch, &owner, &hook, m)?;
                if k < n {
                    cur.insert(keys[i], i);
                } else {
                    cur.remove(&keys[i]);
                }
                for (j, (d, r)) in keys.iter().enumerate() {
                    if (j + k) % 3 != 0 && j != i {
                        continue;
                    }
                    check_forward(
                        &ch,
                        &hook,
                        &msg2(*d, r),
                        b"x",
                        cur.get(&(*d, *r)).map(|i| hooks[*i].as_str()),
                        cov,
                    )?;
                }
            }
            Ok(ch.key())
        },
    );
    // recipients that look alike
    let mut fam: Vec<[u8; 32]> = vec![];
    {
        let x = rec(0);
        let mut put = |r: [u8; 32]| {
            if !fam.contains(&r) {
                fam.push(r)
            }
        };
        put(x);
        for z in [4usize, 8, 11, 12, 13, 16, 20, 24, 31] {
            // zeroes before or after, of the same bytes
            let mut a = [0; 32];
            a[z..].copy_from_slice(&x[..32 - z]);
            put(a);
            let mut a = [0; 32];
            a[..32 - z].copy_from_slice(&x[..32 - z]);
            put(a);
            let mut a = [0; 32];
            a[z..].copy_from_slice(&x[z..]);
            put(a);
            let mut a = [0; 32];
            a[..32 - z].copy_from_slice(&x[z..]);
            put(a);
            let mut a = x;
            a.rotate_left(z);
            put(a);
            let mut a = x;
            a.rotate_right(z);
            put(a);
        }
        let mut a = x;
        a.reverse();
        put(a);
        put(x.map(|b| !b));
        put(x.map(|b| b & 0x7f));
        put(x.map(|b| b.swap_bytes().rotate_left(4)));
        put([0; 32]);
        put([0xff; 32]);
    }
    let fam = Arc::new(fam);
    let fam2 = fam.clone();
    c.cases(
        "recipients that look alike",
        move || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let hook = inst(&mut ch, "hook_routing_custom", &owner, json!({"owner": owner}))?;
            let hooks = hashed_hooks(&mut ch, fam2.len() + 1);
            let al = ch.user("alice");
            ch.fund(&al, "a", 1000);
            ch.fund(&al, "b", 1000);
            Ok((ch, hook, hooks, fam2.clone()))
        },
        (0..fam.len()).flat_map(|i| [(i, false), (i, true)]).collect(),
        &["forwarded", "no hook"],
        |(c0, hook, hooks, fam), (i, routed), cov| {
            let mut ch = c0.clone();
            let owner = ch.user("owner");
            let route = hooks.last().unwrap();
            if *routed {
                call(&mut ch, &owner, hook, json!({"router": {"set_route": {"set": {"domain": REMOTE, "route": route}}}}))?;
            }
            let reg = |j: usize| json!({"dest_domain": REMOTE, "recipient": hx(&fam[j]), "hook": hooks[j]});
            call(&mut ch, &owner, hook, json!({"register_custom_hook": reg(*i)}))?;
            for (j, r) in fam.iter().enumerate() {
                let want = if j == *i { Some(hooks[j].as_str()) } else { routed.then_some(route.as_str()) };
                check_forward(&ch, hook, &msg2(REMOTE, r), b"x", want, cov)?;
            }
            // all but this one
            let all: Vec<Value> = (0..fam.len()).filter(|j| j != i).map(reg).collect();
            call(&mut ch, &owner, hook, json!({"register_custom_hooks": all}))?;
            call(&mut ch, &owner, hook, json!({"clear_custom_hook": {"dest_domain": REMOTE, "recipient": hx(&fam[*i])}}))?;
            for (j, r) in fam.iter().enumerate() {
                let want = if j != *i { Some(hooks[j].as_str()) } else { routed.then_some(route.as_str()) };
                check_forward(&ch, hook, &msg2(REMOTE, r), b"x", want, cov)?;
            }
            Ok(dig(&(i, routed)))
        },
    );
    // registration arguments
    let mut v = vec![];
    for n in (0..70).chain([255, 256, 288]) {
        v.push(n);
    }
    c.cases(
        "recipient lengths",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let hook = inst(&mut ch, "hook_routing_custom", &owner, json!({"owner": owner}))?;
            let h = hashed_hooks(&mut ch, 1);
            Ok((ch, hook, h[0].clone()))
        },
        v,
        &["registered", "refused"],
        |(c0, hook, h), n, cov| {
            let owner = c0.user("owner");
            for batch in [false, true] {
                let mut ch = c0.clone();
                let r = json!({"dest_domain": 5, "recipient": hx(&vec![1; *n]), "hook": h});
                let m = if batch {
                    json!({"register_custom_hooks": [r]})
                } else {
                    json!({ "register_custom_hook": r })
                };
                let t = ch.exec(&owner, hook, &m, &[]);
                ensure_eq!(t.ok(), *n == 32, "recipient of {n} bytes");
                if !t.ok() {
                    ensure_eq!(ch.key(), c0.key(), "state after refusal");
                }
                cov.hit(if t.ok() { "registered" } else { "refused" });
            }
            Ok(*n as u128)
        },
    );
    // metadata and message are passed on unchanged
    let mut v = vec![];
    for var in [Var::Plain, Var::Custom, Var::Fallback] {
        for body in (0..70).chain([255, 256, 1000, 66_000]) {
            for meta in [0usize, 1, 31, 32, 33, 52, 64, 200] {
                v.push((var, body, meta));
            }
        }
    }
    c.cases(
        "bytes passed on",
        || Ok(()),
        v,
        &["forwarded"],
        |_, (var, body, meta), cov| {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let m2 = M2 {
                var: *var,
                doms: 0,
                recs: 0,
            };
            let hook = inst(&mut ch, m2.code(), &owner, json!({"owner": owner}))?;
            let h = hashed_hooks(&mut ch, 1);
            let al = ch.user("alice");
            ch.fund(&al, "a", 1000);
            ch.fund(&al, "b", 1000);
            let set = match var {
                Var::Plain => json!({"router": {"set_route": {"set": {"domain": REMOTE, "route": h[0]}}}}),
                Var::Custom => json!({"register_custom_hook": {"dest_domain": REMOTE, "recipient": hx(&rec(0)), "hook": h[0]}}),
                Var::Fallback => json!({"set_fallback_hook": {"hook": h[0]}}),
            };
            call(&mut ch, &owner, &hook, set)?;
            let mut m = msg2(REMOTE, &rec(0));
            m.body = fill("b", *body);
            check_forward(&ch, &hook, &m, &fill("m", *meta), Some(&h[0]), cov)?;
            Ok(dig(&(*var as u8, body, meta)))
        },
    );
}

// ------------------------------------------------------------------ H03

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mem {
    Free,
    A5,
    B3,
    A1B2,
    Hashed,
    PostFail,
    QuoteFail,
    Nobody,
    Merkle,
    Fee,
    /// six denominations
    Many,
}
#[derive(Clone, Debug)]
struct K3 {
    mem: Vec<Mem>,
    /// attached relative to the sum
    da: i64,
    db: i64,
    dc: u128,
    /// already held by the hook
    held: u128,
    meta: usize,
    set: bool,
    /// caller: somebody, the owner, the first member, the mailbox, the deployer of nothing
    who: u8,
}
const MANY: [(&str, u128); 6] = [("a", 1), ("b", 2), ("factory/osmo1x/y", 3), ("ibc/27394FB0", 4), ("uosmo", 5), ("z", 6)];

fn h03_case(k: &K3, cov: &mut Cov) -> Res<u128> {
    let mut ch = Chain::new("osmo");
    let owner = ch.user("owner");
    let b = basic(&mut ch, &owner, LOCAL)?;
    let al = ch.user("alice");
    // a dispatched message, so that a merkle member can take part
    let meta = fill("meta", k.meta);
    let m = Msg {
        version: 3,
        nonce: 0,
        origin: LOCAL,
        sender: self_h256(&al),
        dest: REMOTE,
        recipient: [4; 32],
        body: b"agg".to_vec(),
    };
    call(&mut ch, &al, &b.mb, dispatch_msg(REMOTE, &[4; 32], b"agg", None, None))?;
    let me = m.enc();
    let mut hooks: Vec<String> = vec![];
    for x in &k.mem {
        let q = |l: &[(&str, u32)]| -> Vec<(String, String)> { l.iter().map(|(d, a)| (d.to_string(), a.to_string())).collect() };
        hooks.push(match x {
            Mem::Free => quiet_hook(&mut ch),
            Mem::Many => probe(&mut ch, |c| {
                (c.quote, c.strict) = (MANY.iter().rev().map(|(d, a)| (d.to_string(), a.to_string())).collect(), true)
            }),
            Mem::A5 => probe(&mut ch, |c| (c.quote, c.strict) = (q(&[("a", 5)]), true)),
            Mem::B3 => probe(&mut ch, |c| (c.quote, c.strict) = (q(&[("b", 3)]), true)),
            Mem::A1B2 => probe(&mut ch, |c| (c.quote, c.strict) = (q(&[("b", 2), ("a", 1)]), true)),
            Mem::Hashed => probe(&mut ch, |c| (c.quote_hashed, c.strict) = (Some("a".into()), true)),
            Mem::PostFail => probe(&mut ch, |c| c.post_fail = true),
            Mem::QuoteFail => probe(&mut ch, |c| c.quote_fail = true),
            Mem::Nobody => ch.user("nobody"),
            Mem::Merkle => inst(&mut ch, "hook_merkle", &owner, json!({"mailbox": b.mb}))?,
            Mem::Fee => inst(
                &mut ch,
                "hook_fee",
                &owner,
                json!({"owner": owner, "fee": {"denom": "b", "amount": "7"}}),
            )?,
        });
    }
    let quote = |i: usize| -> Coins {
        match k.mem[i] {
            Mem::A5 => coins(&[("a", 5)]),
            Mem::B3 => coins(&[("b", 3)]),
            Mem::A1B2 => coins(&[("a", 1), ("b", 2)]),
            Mem::Hashed => coins(&[("a", price(&hooks[i], &hx(&meta), &hx(&me)))]),
            Mem::Fee => coins(&[("b", 7)]),
            Mem::Many => coins(&MANY),
            _ => vec![],
        }
    };
    let agg = if k.set {
        let first = quiet_hook(&mut ch);
        let a = inst(&mut ch, "hook_aggregate", &owner, json!({"owner": owner, "hooks": [first]}))?;
        call(&mut ch, &owner, &a, json!({"set_hooks": {"hooks": hooks}}))?;
        a
    } else {
        inst(&mut ch, "hook_aggregate", &owner, json!({"owner": owner, "hooks": hooks}))?
    };
    ensure_eq!(
        ch.query(&agg, &json!({"aggregate_hook": {"hooks": {}}}))?["hooks"],
        json!(hooks),
        "member list"
    );
    let quotes: Vec<Coins> = (0..k.mem.len()).map(quote).collect();
    let total = coins_sum(&quotes);
    let noq = k.mem.iter().any(|m| matches!(m, Mem::QuoteFail | Mem::Nobody));
    let q = hook_quote(&ch, &agg, &meta, &me);
    if noq {
        ensure!(q.is_err(), "quote although a member gives none: {q:?}");
    } else {
        ensure_eq!(q?, total, "quote of the aggregate");
    }
    let get = |d: &str| total.iter().find(|c| c.0 == d).map_or(0, |c| c.1 as i64);
    let mut funds = coins(&[
        ("a", (get("a") + k.da).max(0) as u128),
        ("b", (get("b") + k.db).max(0) as u128),
        ("c", k.dc),
    ]);
    funds.extend(total.iter().filter(|c| !["a", "b", "c"].contains(&c.0.as_str())).cloned());
    let funds = coins_sum(&[funds]);
    let al = match k.who {
        0 => al,
        1 => owner.clone(),
        2 => hooks.first().cloned().unwrap_or(al),
        _ => b.mb.clone(),
    };
    for (d, a) in &funds {
        ch.fund(&al, d, *a);
    }
    for d in ["a", "b", "c"] {
        ch.fund(&al, d, 10_000);
        ch.fund(&agg, d, k.held);
        for h in &hooks {
            ch.fund(h, d, 100);
        }
    }
    let before = ch.clone();
    let t = try_call(&mut ch, &al, &agg, &post_dispatch(&meta, &me), &funds);
    let avail = coins_sum(&[funds.clone(), coins(&[("a", k.held), ("b", k.held), ("c", k.held)])]);
    let can_pay = coins_sub(&avail, &total).is_some();
    let bad = noq || k.mem.contains(&Mem::PostFail);
    ensure_eq!(
        t.ok(),
        can_pay && !bad,
        "post-dispatch ({}) attaching {funds:?} for {total:?}",
        t.err()
    );
    if !t.ok() {
        ensure_eq!(ch.key(), before.key(), "state after failure");
        cov.hit(if bad { "a member failed" } else { "not enough" });
        return Ok(dig(k));
    }
    let calls: Vec<_> = t.calls().into_iter().skip(1).collect();
    let want: Vec<_> = hooks
        .iter()
        .zip(&quotes)
        .map(|(h, q)| (agg.clone(), h.clone(), post_dispatch(&meta, &me), q.clone()))
        .collect();
    ensure_eq!(calls, want, "calls of the members");
    let mut d: BTreeMap<(String, String), i128> = BTreeMap::new();
    for (who, l, s) in [(&al, &funds, -1i128), (&agg, &funds, 1), (&agg, &total, -1)] {
        for (x, a) in l {
            *d.entry((who.clone(), x.clone())).or_default() += s * *a as i128;
        }
    }
    for (h, q) in hooks.iter().zip(&quotes) {
        for (x, a) in q {
            *d.entry((h.clone(), x.clone())).or_default() += *a as i128;
        }
    }
    d.retain(|_, v| *v != 0);
    ensure_eq!(bank_delta(&before, &ch), d, "balance changes");
    cov.hit(if total.is_empty() { "free" } else { "paid" });
    Ok(dig(k))
}

#[derive(Clone, Debug)]
enum A3 {
    Set(u8, Vec<usize>),
    SetBad,
    Post,
}
#[derive(Clone)]
struct S3 {
    ch: Chain,
    agg: String,
    hooks: Arc<Vec<String>>,
    cur: Vec<usize>,
}
struct M3;
impl Model for M3 {
    type S = S3;
    type A = A3;
    fn init(&self) -> Res<Vec<(String, S3)>> {
        let mut out = vec![];
        for start in [vec![], vec![1usize, 0]] {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let hooks = hashed_hooks(&mut ch, 3);
            let l: Vec<&String> = start.iter().map(|i| &hooks[*i]).collect();
            let agg = inst(&mut ch, "hook_aggregate", &owner, json!({"owner": owner, "hooks": l}))?;
            let al = ch.user("alice");
            ch.fund(&al, "a", 1_000_000);
            out.push((
                format!("members {start:?}"),
                S3 {
                    ch,
                    agg,
                    hooks: Arc::new(hooks),
                    cur: start,
                },
            ));
        }
        Ok(out)
    }
    fn actions(&self, _: &S3) -> Vec<A3> {
        let mut v = vec![A3::SetBad, A3::Post];
        for l in [vec![], vec![0], vec![1], vec![0, 1], vec![1, 0], vec![2, 1, 0], vec![0, 1, 2]] {
            v.push(A3::Set(0, l.clone()));
            v.push(A3::Set(1, l));
        }
        v
    }
    fn key(&self, s: &S3) -> u128 {
        s.ch.key() ^ dig(&s.cur)
    }
    fn step(&self, s: &S3, a: &A3, cov: &mut Cov) -> Res<Step<S3>> {
        let mut n = s.clone();
        let al = s.ch.user("alice");
        let m = msg2(REMOTE, &rec(0)).enc();
        match a {
            A3::Set(w, l) => {
                let who = s.ch.user(if *w == 0 { "owner" } else { "mallory" });
                let hs: Vec<&String> = l.iter().map(|i| &s.hooks[*i]).collect();
                let t = n.ch.exec(&who, &s.agg, &json!({"set_hooks": {"hooks": hs}}), &[]);
                ensure_eq!(t.ok(), *w == 0, "set_hooks ({})", t.err());
                if t.ok() {
                    n.cur = l.clone();
                    cov.hit("set");
                } else {
                    ensure_eq!(n.ch.key(), s.ch.key(), "state after refusal");
                    cov.hit("refused");
                }
            }
            A3::SetBad => {
                let who = s.ch.user("owner");
                let t = n.ch.exec(&who, &s.agg, &json!({"set_hooks": {"hooks": [s.hooks[2], "nonsense"]}}), &[]);
                ensure!(!t.ok(), "nonsense accepted as a hook");
                ensure_eq!(n.ch.key(), s.ch.key(), "state after refusal");
            }
            A3::Post => {
                let q: u128 = s.cur.iter().map(|i| price(&s.hooks[*i], "", &hx(&m))).sum();
                ensure_eq!(hook_quote(&s.ch, &s.agg, b"", &m)?, coins(&[("a", q)]), "quote");
                let t = n.ch.exec(&al, &s.agg, &post_dispatch(b"", &m), &[("a", q)]);
                ensure!(t.ok(), "post-dispatch: {}", t.err());
                let calls: Vec<String> = t.calls().into_iter().skip(1).map(|c| c.1).collect();
                let want: Vec<String> = s.cur.iter().map(|i| s.hooks[*i].clone()).collect();
                ensure_eq!(calls, want, "members called");
                cov.hit("posted");
                return Ok(Step::Leaf(dig(&s.cur)));
            }
        }
        let want: Vec<&String> = n.cur.iter().map(|i| &s.hooks[*i]).collect();
        ensure_eq!(
            n.ch.query(&s.agg, &json!({"aggregate_hook": {"hooks": {}}}))?["hooks"],
            json!(want),
            "member list"
        );
        Ok(Step::Next(n))
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["set", "refused", "posted"]
    }
}

pub fn h03(c: &mut Ctx) {
    c.assume("members are probe hooks that insist on exactly their quote, failing hooks, an address without contract, and real merkle and fee hooks; no member is listed twice");
    let kinds = [
        Mem::Free,
        Mem::A5,
        Mem::B3,
        Mem::A1B2,
        Mem::Hashed,
        Mem::PostFail,
        Mem::QuoteFail,
        Mem::Nobody,
        Mem::Merkle,
        Mem::Fee,
        Mem::Many,
    ];
    let mut v = vec![];
    for s in seqs(kinds.len(), 3) {
        let mem: Vec<Mem> = s.iter().map(|i| kinds[*i]).collect();
        let full = mem.len() < 3 || c.thorough();
        for (da, db, dc) in [(0, 0, 0), (-1, 0, 0), (0, -1, 0), (1, 0, 0), (0, 2, 1), (-100, -100, 0)] {
            for held in [0, 3] {
                for set in [false, true] {
                    for meta in [0usize, 33] {
                        if !full && ((meta == 0) == set || (held > 0) != (dc > 0) || da == 1) {
                            continue;
                        }
                        let k = K3 {
                            mem: mem.clone(),
                            da,
                            db,
                            dc,
                            held,
                            meta,
                            set,
                            who: 0,
                        };
                        if mem.len() < 3 && da == 0 && db == 0 {
                            for who in 1..4 {
                                v.push(K3 { who, ..k.clone() });
                            }
                        }
                        v.push(k);
                    }
                }
            }
        }
    }
    for n in [5usize, 10, 20, 40] {
        let mem: Vec<Mem> = (0..n).map(|i| kinds[(i * 7) % 5]).collect();
        for da in [0, -1] {
            v.push(K3 {
                mem: mem.clone(),
                da,
                db: 0,
                dc: 0,
                held: 0,
                meta: 10,
                set: true,
                who: 0,
            });
        }
    }
    c.cases(
        "member lists and payments",
        || Ok(()),
        v,
        &["free", "paid", "not enough", "a member failed"],
        |_, k, cov| h03_case(k, cov),
    );
    c.run("member list histories", &M3, c.pick(5, 8), 100_000);

    // one list after another: only the last one counts, whatever it replaces
    let lists: Vec<Vec<usize>> = seqs(4, 3)
        .into_iter()
        .filter(|s| (0..s.len()).all(|i| !s[..i].contains(&s[i])))
        .collect();
    let mut v = vec![];
    for a in &lists {
        for b in &lists {
            v.push((a.clone(), b.clone()));
        }
    }
    c.cases(
        "one list after another",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let mut hooks = hashed_hooks(&mut ch, 4);
            hooks.sort();
            let agg = inst(&mut ch, "hook_aggregate", &owner, json!({"owner": owner, "hooks": [hooks[3]]}))?;
            let al = ch.user("alice");
            ch.fund(&al, "a", 1_000_000);
            Ok((ch, agg, hooks))
        },
        v,
        &["posted"],
        |(c0, agg, hooks), (a, b), cov| {
            let mut ch = c0.clone();
            let owner = ch.user("owner");
            let al = ch.user("alice");
            let m = msg2(REMOTE, &rec(0)).enc();
            for l in [a, b] {
                let hs: Vec<&String> = l.iter().map(|i| &hooks[*i]).collect();
                call(&mut ch, &owner, agg, json!({"set_hooks": {"hooks": hs}}))?;
                ensure_eq!(
                    ch.query(agg, &json!({"aggregate_hook": {"hooks": {}}}))?["hooks"],
                    json!(hs),
                    "member list"
                );
            }
            let q: u128 = b.iter().map(|i| price(&hooks[*i], "", &hx(&m))).sum();
            ensure_eq!(hook_quote(&ch, agg, b"", &m)?, coins(&[("a", q)]), "quote");
            let t = try_call(&mut ch, &al, agg, &post_dispatch(b"", &m), &coins(&[("a", q)]));
            ensure!(t.ok(), "post-dispatch: {}", t.err());
            let calls: Vec<String> = t.calls().into_iter().skip(1).map(|c| c.1).collect();
            let want: Vec<String> = b.iter().map(|i| hooks[*i].clone()).collect();
            ensure_eq!(calls, want, "members called");
            cov.hit("posted");
            Ok(dig(&(a, b)))
        },
    );
}

// ------------------------------------------------------------------ H04

const FEES: [(&str, u128); 6] = [
    ("a", 0),
    ("a", 1),
    ("a", 5),
    ("b", 5),
    ("b", 0),
    ("ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", 3),
];
#[derive(Clone, Debug)]
enum A4 {
    Set(u8, usize),
    Post(u8, Vec<(usize, u128)>),
    /// caller, recipient
    Claim(u8, u8),
    Donate(usize),
}
#[derive(Clone)]
struct S4 {
    ch: Chain,
    hook: String,
    fee: (String, u128),
    /// everything that came in since the last claim
    held: Coins,
}
struct M4;
const DEN: [&str; 3] = ["a", "b", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2"];
impl Model for M4 {
    type S = S4;
    type A = A4;
    fn init(&self) -> Res<Vec<(String, S4)>> {
        let mut out = vec![];
        for i in [2usize, 4] {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let (d, a) = FEES[i];
            let hook = inst(
                &mut ch,
                "hook_fee",
                &owner,
                json!({"owner": owner, "fee": {"denom": d, "amount": a.to_string()}}),
            )?;
            for u in ["alice", "owner", "mallory"] {
                for d in DEN {
                    let u = ch.user(u);
                    ch.fund(&u, d, 1000);
                }
            }
            out.push((
                format!("fee {a}{d}"),
                S4 {
                    ch,
                    hook,
                    fee: (d.into(), a),
                    held: vec![],
                },
            ));
        }
        Ok(out)
    }
    fn actions(&self, _: &S4) -> Vec<A4> {
        let mut v = vec![];
        for i in 0..FEES.len() {
            v.push(A4::Set(0, i));
        }
        v.push(A4::Set(1, 0));
        v.push(A4::Post(0, vec![]));
        for d in 0..3 {
            for a in [1, 3, 4, 5, 6] {
                v.push(A4::Post(0, vec![(d, a)]));
            }
        }
        v.push(A4::Post(1, vec![(0, 5)]));
        v.push(A4::Post(0, vec![(0, 5), (1, 5)]));
        v.push(A4::Post(0, vec![(0, 9), (2, 1)]));
        for w in 0..3 {
            for r in 0..3 {
                v.push(A4::Claim(w, r));
            }
        }
        v.push(A4::Donate(0));
        v.push(A4::Donate(2));
        v
    }
    fn key(&self, s: &S4) -> u128 {
        s.ch.key() ^ dig(&(&s.fee, &s.held))
    }
    fn step(&self, s: &S4, a: &A4, cov: &mut Cov) -> Res<Step<S4>> {
        let mut n = s.clone();
        let user = |w: u8| s.ch.user(["owner", "mallory", "alice"][w as usize]);
        let m = msg2(REMOTE, &rec(0)).enc();
        match a {
            A4::Set(w, i) => {
                let (d, x) = FEES[*i];
                let t = n.ch.exec(
                    &user(*w),
                    &s.hook,
                    &json!({"fee_hook": {"set_fee": {"fee": {"denom": d, "amount": x.to_string()}}}}),
                    &[],
                );
                ensure_eq!(t.ok(), *w == 0, "set_fee ({})", t.err());
                if t.ok() {
                    n.fee = (d.into(), x);
                    cov.hit("fee set");
                } else {
                    ensure_eq!(n.ch.key(), s.ch.key(), "state after refusal");
                }
            }
            A4::Post(w, l) => {
                let funds = coins_sum(&[l.iter().map(|(d, a)| (DEN[*d].to_string(), *a)).collect()]);
                let who = user(2 - *w);
                let t = try_call(&mut n.ch, &who, &s.hook, &post_dispatch(b"", &m), &funds);
                let (fd, fa) = &s.fee;
                let want = match funds.as_slice() {
                    [] => *fa == 0,
                    [(d, x)] => d == fd && x >= fa,
                    _ => false,
                };
                ensure_eq!(t.ok(), want, "post-dispatch with {funds:?}, fee {:?} ({})", s.fee, t.err());
                if want {
                    n.held = coins_sum(&[s.held.clone(), funds.clone()]);
                    ensure_eq!(t.calls().len(), 1, "calls");
                    cov.hit("paid");
                } else {
                    ensure_eq!(n.ch.key(), s.ch.key(), "state after refusal");
                    cov.hit("refused");
                }
            }
            A4::Claim(w, r) => {
                if s.held.is_empty() && *w == 0 {
                    return Ok(Step::Same);
                }
                let to = match r {
                    0 => None,
                    1 => Some(user(2)),
                    _ => Some(s.ch.user("treasury")),
                };
                let t = n.ch.exec(&user(*w), &s.hook, &json!({"fee_hook": {"claim": {"recipient": to}}}), &[]);
                ensure_eq!(t.ok(), *w == 0, "claim by {} ({})", user(*w), t.err());
                if *w == 0 {
                    let to = to.unwrap_or(user(0));
                    let mut d: BTreeMap<(String, String), i128> = BTreeMap::new();
                    for (x, a) in &s.held {
                        d.insert((s.hook.clone(), x.clone()), -(*a as i128));
                        d.insert((to.clone(), x.clone()), *a as i128);
                    }
                    ensure_eq!(bank_delta(&s.ch, &n.ch), d, "balance changes of the claim");
                    n.held = vec![];
                    cov.hit("claimed");
                } else {
                    ensure_eq!(n.ch.key(), s.ch.key(), "state after refusal");
                    cov.hit("claim refused");
                }
            }
            A4::Donate(d) => {
                n.ch.fund(&s.hook, DEN[*d], 2);
                n.held = coins_sum(&[s.held.clone(), coins(&[(DEN[*d], 2)])]);
            }
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S4, _: &mut Cov) -> Res<()> {
        let q = s.ch.query(&s.hook, &json!({"fee_hook": {"fee": {}}}))?;
        ensure_eq!(
            q["fee"],
            json!({"denom": s.fee.0, "amount": s.fee.1.to_string()}),
            "reported fee"
        );
        for (meta, m) in [(vec![], msg2(REMOTE, &rec(0)).enc()), (fill("m", 40), msg2(0, &rec(1)).enc())] {
            ensure_eq!(hook_quote(&s.ch, &s.hook, &meta, &m)?, coins(&[(&s.fee.0, s.fee.1)]), "quote");
        }
        ensure_eq!(s.ch.balances(&s.hook), s.held, "balance of the hook");
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["fee set", "paid", "refused", "claimed", "claim refused"]
    }
}

pub fn h04(c: &mut Ctx) {
    c.run("fee histories", &M4, c.pick(4, 5), 10_000_000);
    // claims of many denominations by and for anyone
    let mut v = vec![];
    for n in (1usize..=12).chain([20, 29, 30, 31, 32, 33, 50, 99, 100, 101, 200]) {
        for amount in [1u128, 1000, u64::MAX as u128 + 7, u128::MAX / 3] {
            for to in 0..6u8 {
                v.push((n, amount, to));
            }
        }
    }
    c.cases("claims", || Ok(()), v, &["claimed", "refused", "kept"], |_, (n, amount, to), cov| {
        let mut ch = Chain::new("osmo");
        let owner = ch.user("owner");
        let b = basic(&mut ch, &owner, LOCAL)?;
        let hook = inst(&mut ch, "hook_fee", &owner, json!({"owner": owner, "fee": {"denom": "d3", "amount": "2"}}))?;
        let mut held: Coins = vec![];
        for i in 0..*n {
            let d = if i % 5 == 4 { format!("ibc/{i}") } else { format!("d{i}") };
            ch.fund(&hook, &d, amount + i as u128);
            held.push((d, amount + i as u128));
        }
        let r = match to {
            0 => None,
            1 => Some(owner.clone()),
            2 => Some(hook.clone()),
            3 => Some(b.mb.clone()),
            4 => Some(ch.user("mallory")),
            _ => Some(addr_of("osmo", &[7; 32])),
        };
        for who in [ch.user("mallory"), hook.clone(), b.mb.clone()] {
            let mut c2 = ch.clone();
            let t = c2.exec(&who, &hook, &json!({"fee_hook": {"claim": {"recipient": r}}}), &[]);
            ensure!(!t.ok(), "claim by {who}");
            ensure_eq!(c2.key(), ch.key(), "state after a refused claim");
            cov.hit("refused");
        }
        let before = ch.clone();
        call(&mut ch, &owner, &hook, json!({"fee_hook": {"claim": {"recipient": r}}}))?;
        let r = r.unwrap_or(owner);
        let mut want: BTreeMap<(String, String), i128> = BTreeMap::new();
        if r != hook {
            for (d, a) in &held {
                want.insert((hook.clone(), d.clone()), -(*a as i128));
                want.insert((r.clone(), d.clone()), *a as i128);
            }
            cov.hit("claimed");
        } else {
            cov.hit("kept");
        }
        ensure_eq!(bank_delta(&before, &ch), want, "balance changes of a claim for {r}");
        Ok(dig(&(n, amount, to)))
    });
    let big = [
        0u128,
        1,
        2,
        9,
        10,
        255,
        256,
        u64::MAX as u128 - 1,
        u64::MAX as u128,
        u64::MAX as u128 + 1,
        1 << 100,
        u128::MAX - 1,
        u128::MAX,
    ];
    let mut v = vec![];
    for fee in big {
        for paid in big {
            for same in [true, false] {
                for other in [0u128, 1] {
                    v.push((fee, paid, same, other));
                }
            }
        }
    }
    c.cases(
        "fees and payments over the whole range",
        || Ok(()),
        v,
        &["paid", "refused"],
        |_, (fee, paid, same, other), cov| {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let hook = inst(
                &mut ch,
                "hook_fee",
                &owner,
                json!({"owner": owner, "fee": {"denom": "zzz", "amount": "5"}}),
            )?;
            call(
                &mut ch,
                &owner,
                &hook,
                json!({"fee_hook": {"set_fee": {"fee": {"denom": "uosmo", "amount": fee.to_string()}}}}),
            )?;
            let m = msg2(REMOTE, &rec(0)).enc();
            ensure_eq!(hook_quote(&ch, &hook, b"", &m)?, coins(&[("uosmo", *fee)]), "quote");
            let al = ch.user("alice");
            let d = if *same { "uosmo" } else { "uosmp" };
            ch.fund(&al, d, *paid);
            ch.fund(&al, "x", 1);
            let f = coins(&[(d, *paid), ("x", *other)]);
            let t = try_call(&mut ch, &al, &hook, &post_dispatch(b"", &m), &f);
            let want = *other == 0 && if *paid == 0 { *fee == 0 } else { *same && paid >= fee };
            ensure_eq!(t.ok(), want, "payment ({})", t.err());
            if want {
                ensure_eq!(ch.bal(&hook, "uosmo"), *paid, "held by the hook");
                if *paid > 0 {
                    call(&mut ch, &owner, &hook, json!({"fee_hook": {"claim": {}}}))?;
                    ensure_eq!(ch.bal(&owner, "uosmo"), *paid, "claimed");
                    ensure_eq!(ch.bal(&hook, "uosmo"), 0, "left after the claim");
                }
                cov.hit("paid");
            } else {
                cov.hit("refused");
            }
            Ok(dig(&(fee, paid, same, other)))
        },
    );

    // one fee after another: only the last one counts, whatever it replaces
    let mut all = vec![];
    for d in ["uosmo", "uosmp", "a"] {
        for a in big {
            all.push((d, a));
        }
    }
    let mut v = vec![];
    for x in &all {
        for y in &all {
            v.push((*x, *y));
        }
    }
    c.cases(
        "one fee after another",
        || {
            let mut ch = Chain::new("osmo");
            let owner = ch.user("owner");
            let hook = inst(
                &mut ch,
                "hook_fee",
                &owner,
                json!({"owner": owner, "fee": {"denom": "zzz", "amount": "5"}}),
            )?;
            Ok((ch, hook))
        },
        v,
        &["paid", "refused"],
        |(c0, hook), (x, y), cov| {
            let mut ch = c0.clone();
            let owner = ch.user("owner");
            for (d, a) in [x, y] {
                let set = json!({"fee_hook": {"set_fee": {"fee": {"denom": d, "amount": a.to_string()}}}});
                call(&mut ch, &owner, hook, set)?;
                let q = ch.query(hook, &json!({"fee_hook": {"fee": {}}}))?;
                ensure_eq!(q["fee"], json!({"denom": d, "amount": a.to_string()}), "reported fee");
            }
            let m = msg2(REMOTE, &rec(0)).enc();
            ensure_eq!(hook_quote(&ch, hook, b"", &m)?, coins(&[*y]), "quote");
            for (f, want) in [
                (coins(&[*y]), true),
                (coins(&[(y.0, y.1.saturating_sub(1))]), y.1 == 0),
                (coins(&[*x]), y.1 == 0 && x.1 == 0 || x.1 > 0 && x.0 == y.0 && x.1 >= y.1),
            ] {
                let mut c2 = ch.clone();
                let al = ch.user("alice");
                for (d, a) in &f {
                    c2.fund(&al, d, *a);
                }
                let t = try_call(&mut c2, &al, hook, &post_dispatch(b"", &m), &f);
                ensure_eq!(t.ok(), want, "payment of {f:?} ({})", t.err());
                cov.hit(if want { "paid" } else { "refused" });
            }
            Ok(dig(&(x, y)))
        },
    );
}
