//! C07, C08: encodings and address conversion.
use crate::chain::{b32, keccak};
use crate::explore::{Cov, CovExt, Ctx, Res};
use crate::util::*;
use crate::{ensure, ensure_eq};
use cosmwasm_std::{Addr, HexBinary, Uint256};
use hpl_interface::types::{
    bech32_decode, bech32_encode, bech32_to_h256, AggregateMetadata, IGPMetadata, Message,
    MerkleRootMultisigIsmMetadata, MessageIdMultisigIsmMetadata,
};
use hpl_interface::warp;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn hb(b: &[u8]) -> HexBinary {
    b.to_vec().into()
}
/// None when the function panics
fn total<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

#[derive(Clone, Debug)]
enum Case {
    Msg(Msg),
    MsgTrunc(usize),
    Warp([u8; 32], [u8; 32], Vec<u8>),
    WarpTrunc(usize),
    IdMeta([u8; 32], [u8; 32], u32, usize),
    RootMeta([u8; 32], u32, [u8; 32], u8, usize),
    /// section lengths, input order reversed?
    Agg(Vec<usize>, bool),
    /// hand-made layout: (start, end) relative to the header, body length
    AggRaw(Vec<(usize, usize)>, usize),
    Igp([u8; 32], usize),
    /// contents of the parts of variable length: signatures of message-id metadata, signature bytes of
    /// merkle-root metadata (any length), refund address, transfer metadata, sections
    IdSigs(Vec<usize>),
    RootSigs(usize, usize),
    Refund(usize, usize),
    WarpMeta(usize, usize),
    Sections(Vec<usize>),
}

/// contents by kind: arbitrary, zeroes, ones, zero first, zero last, one byte repeated
fn content(kind: usize, n: usize) -> Vec<u8> {
    let mut v = match kind {
        1 => vec![0; n],
        2 => vec![0xff; n],
        5 => vec![27; n],
        _ => fill("content", n).iter().map(|b| b | 1).collect(),
    };
    if n > 0 && kind == 3 {
        v[0] = 0;
    }
    if n > 0 && kind == 4 {
        v[n - 1] = 0;
    }
    v
}

fn u32s() -> Vec<u32> {
    let mut v = vec![0, 1, 2, 255, 256, 257, 65535, 65536, 0xff_ffff, 0x100_0000, u32::MAX, u32::MAX - 1, 0x0102_0304, 0x0403_0201];
    v.extend((0..32).map(|b| 1u32 << b));
    v
}
fn w32s() -> Vec<[u8; 32]> {
    let mut v = vec![[0; 32], [0xff; 32], fill32("w"), pad32(&fill("x", 20)), pad32(&[1])];
    let mut asc = [0u8; 32];
    for (i, b) in asc.iter_mut().enumerate() {
        *b = i as u8 + 1;
    }
    v.push(asc);
    for i in 0..256 {
        let mut x = [0u8; 32];
        x[i / 8] = 0x80 >> (i % 8);
        v.push(x);
    }
    v
}
fn lens() -> Vec<usize> {
    sizes(false)
}

fn base() -> Msg {
    Msg {
        version: 3,
        nonce: 0x0102_0304,
        origin: 0x0506_0708,
        sender: fill32("sender"),
        dest: 0x090a_0b0c,
        recipient: fill32("recipient"),
        body: b"body!".to_vec(),
    }
}

fn to_real(m: &Msg) -> Message {
    Message {
        version: m.version,
        nonce: m.nonce,
        origin_domain: m.origin,
        sender: hb(&m.sender),
        dest_domain: m.dest,
        recipient: hb(&m.recipient),
        body: hb(&m.body),
    }
}

fn case(k: &Case, cov: &mut Cov) -> Res<u128> {
    let enc: Vec<u8> = match k {
        Case::Msg(m) => {
            let real = to_real(m);
            let e: Vec<u8> = HexBinary::from(real.clone()).into();
            ensure!(e == m.enc(), "encoding {} differs from the packed layout {}", hx(&e), hx(&m.enc()));
            ensure_eq!(real.id().to_vec(), keccak(&e).to_vec(), "message id");
            let back: Message = hb(&e).into();
            ensure!(back == real, "decoded {back:?}, encoded {real:?}");
            ensure_eq!(Msg::dec(&e).as_ref(), Some(m), "reference decoder");
            cov.hit("message");
            e
        }
        Case::MsgTrunc(n) => {
            let mut e = base().enc();
            e.resize(77, 0);
            e.truncate(*n);
            let r = total(|| Message::from(hb(&e)));
            ensure_eq!(r.is_some(), *n >= 77, "decoding a message of {n} bytes");
            cov.hit("truncated");
            vec![*n as u8, 1]
        }
        Case::Warp(r, a, meta) => {
            let real = warp::Message {
                recipient: hb(r),
                amount: Uint256::from_be_bytes(*a),
                metadata: hb(meta),
            };
            let e: Vec<u8> = HexBinary::from(real.clone()).into();
            let mut want = r.to_vec();
            want.extend(a);
            want.extend(meta);
            ensure!(e == want, "warp body {} differs from the packed layout {}", hx(&e), hx(&want));
            let back: warp::Message = hb(&e).into();
            ensure!(back == real, "decoded {back:?}, encoded {real:?}");
            cov.hit("warp body");
            e
        }
        Case::WarpTrunc(n) => {
            let r = total(|| warp::Message::from(hb(&vec![7; *n])));
            ensure_eq!(r.is_some(), *n >= 64, "decoding a transfer body of {n} bytes");
            cov.hit("truncated");
            vec![*n as u8, 2]
        }
        Case::IdMeta(tree, root, idx, n) => {
            let sigs: Vec<[u8; 65]> = (0..*n)
                .map(|i| fill(&format!("sig{i}"), 65).try_into().unwrap())
                .collect();
            let real = MessageIdMultisigIsmMetadata {
                origin_merkle_tree: hb(tree),
                merkle_root: hb(root),
                merkle_index: hb(&idx.to_be_bytes()),
                signatures: sigs.iter().map(|s| hb(s)).collect(),
            };
            let e: Vec<u8> = HexBinary::from(real.clone()).into();
            ensure!(e == multisig_meta(tree, root, *idx, &sigs), "multisig metadata layout");
            let back: MessageIdMultisigIsmMetadata = hb(&e).into();
            ensure!(back == real, "multisig metadata round trip");
            ensure_eq!(back.merkle_index(), *idx, "merkle index");
            cov.hit("multisig metadata");
            e
        }
        Case::RootMeta(mb, idx, id, p, n) => {
            let proof = vec![*p; 1024];
            let sigs = fill("sigs", 65 * n);
            let real = MerkleRootMultisigIsmMetadata {
                origin_mailbox: hb(mb),
                checkpoint_index: *idx,
                message_id: hb(id),
                proof: hb(&proof),
                signatures: hb(&sigs),
            };
            let e: Vec<u8> = HexBinary::from(real.clone()).into();
            let mut want = mb.to_vec();
            want.extend(idx.to_be_bytes());
            want.extend(id);
            want.extend(&proof);
            want.extend(&sigs);
            ensure!(e == want, "merkle-root multisig metadata layout");
            let back: MerkleRootMultisigIsmMetadata = hb(&e).into();
            ensure!(back == real, "merkle-root multisig metadata round trip");
            ensure_eq!(back.signatures_len().ok(), Some(*n), "signature count");
            for i in 0..*n {
                ensure_eq!(
                    back.signature_at(i).to_vec(),
                    sigs[i * 65..(i + 1) * 65].to_vec(),
                    "signature {i}"
                );
            }
            cov.hit("multisig metadata");
            e
        }
        Case::Agg(l, rev) => {
            let mut set: Vec<(Addr, HexBinary)> = l
                .iter()
                .enumerate()
                .map(|(i, n)| {
                    (
                        Addr::unchecked(b32("osmo", &keccak(&[i as u8]))),
                        hb(&fill(&format!("section{i}"), *n)),
                    )
                })
                .collect();
            if *rev {
                set.reverse();
            }
            let real = AggregateMetadata::new(set.clone());
            let e: Vec<u8> = HexBinary::from(real).into();
            set.sort_by(|a, b| a.0.as_str().cmp(b.0.as_str()));
            let mut head = vec![];
            let mut pos = 8 * l.len();
            for (_, m) in &set {
                head.extend((pos as u32).to_be_bytes());
                pos += m.len();
                head.extend((pos as u32).to_be_bytes());
            }
            for (_, m) in &set {
                head.extend(m.iter());
            }
            ensure!(e == head, "aggregate metadata {} differs from the layout {}", hx(&e), hx(&head));
            let back: Vec<(Addr, HexBinary)> =
                AggregateMetadata::from_hex(hb(&e), set.iter().map(|x| x.0.clone()).collect()).collect();
            ensure!(back == set, "aggregate metadata round trip");
            cov.hit("aggregate metadata");
            e
        }
        Case::AggRaw(rs, n) => {
            let addrs: Vec<Addr> = {
                let mut v: Vec<_> = (0..rs.len())
                    .map(|i| Addr::unchecked(b32("osmo", &keccak(&[i as u8, 9]))))
                    .collect();
                v.sort_by(|a, b| a.as_str().cmp(b.as_str()));
                v
            };
            let h = rs.len() * 8;
            let mut e = vec![];
            for (s, t) in rs {
                e.extend(((h + s) as u32).to_be_bytes());
                e.extend(((h + t) as u32).to_be_bytes());
            }
            e.extend(fill("raw", *n));
            let ok = rs.iter().all(|(s, t)| s <= t && *t <= *n);
            let r = total(|| {
                AggregateMetadata::from_hex(hb(&e), addrs.clone())
                    .map(|x| (x.0, x.1.to_vec()))
                    .collect::<Vec<_>>()
            });
            if ok {
                let want: Vec<(Addr, Vec<u8>)> = addrs
                    .into_iter()
                    .zip(rs)
                    .map(|(a, (s, t))| (a, e[h + s..h + t].to_vec()))
                    .collect();
                ensure!(r == Some(want), "sections of a hand-made aggregate metadata");
            } else {
                ensure!(r.is_none(), "sections outside the metadata were decoded");
            }
            cov.hit("aggregate metadata");
            e
        }
        Case::Igp(gas, n) => {
            let refund = fill("refund", *n);
            let real = IGPMetadata {
                gas_limit: Uint256::from_be_bytes(*gas),
                refund_address: hb(&refund),
            };
            let e: Vec<u8> = HexBinary::from(real.clone()).into();
            let mut want = gas.to_vec();
            want.extend(&refund);
            ensure!(e == want, "gas metadata layout");
            let back: IGPMetadata = hb(&e).into();
            ensure!(back == real, "gas metadata round trip");
            cov.hit("gas metadata");
            e
        }
        Case::IdSigs(kinds) => {
            let sigs: Vec<[u8; 65]> = kinds.iter().map(|k| content(*k, 65).try_into().unwrap()).collect();
            let real = MessageIdMultisigIsmMetadata {
                origin_merkle_tree: hb(&fill32("t")),
                merkle_root: hb(&fill32("r")),
                merkle_index: hb(&[0, 0, 0, 9]),
                signatures: sigs.iter().map(|s| hb(s)).collect(),
            };
            let e: Vec<u8> = HexBinary::from(real.clone()).into();
            ensure!(e == multisig_meta(&fill32("t"), &fill32("r"), 9, &sigs), "multisig metadata layout");
            let back: MessageIdMultisigIsmMetadata = hb(&e).into();
            ensure!(back == real, "signatures of kinds {kinds:?}: decoded {} of them differently", back.signatures.len());
            cov.hit("multisig metadata");
            e
        }
        Case::RootSigs(kind, n) => {
            let sigs = content(*kind, *n);
            let proof: Vec<u8> = fill("proof", 1024);
            let real = MerkleRootMultisigIsmMetadata {
                origin_mailbox: hb(&fill32("m")),
                checkpoint_index: 5,
                message_id: hb(&fill32("i")),
                proof: hb(&proof),
                signatures: hb(&sigs),
            };
            let e: Vec<u8> = HexBinary::from(real.clone()).into();
            let mut want = fill32("m").to_vec();
            want.extend(5u32.to_be_bytes());
            want.extend(fill32("i"));
            want.extend(&proof);
            want.extend(&sigs);
            ensure!(e == want, "merkle-root multisig metadata layout");
            let back: MerkleRootMultisigIsmMetadata = hb(&e).into();
            ensure!(back == real, "merkle-root multisig metadata with {n} bytes of signatures");
            ensure_eq!(back.signatures_len().ok(), (n % 65 == 0).then_some(n / 65), "signature count of {n} bytes");
            cov.hit("multisig metadata");
            e
        }
        Case::Refund(kind, n) => {
            let real = IGPMetadata {
                gas_limit: Uint256::from_u128(77),
                refund_address: hb(&content(*kind, *n)),
            };
            let e: Vec<u8> = HexBinary::from(real.clone()).into();
            ensure!(e == [&u256(77)[..], &content(*kind, *n)].concat(), "gas metadata layout");
            let back: IGPMetadata = hb(&e).into();
            ensure!(back == real, "gas metadata round trip of {}", hx(&e));
            cov.hit("gas metadata");
            e
        }
        Case::WarpMeta(kind, n) => {
            let real = warp::Message {
                recipient: hb(&fill32("r")),
                amount: Uint256::from_u128(77),
                metadata: hb(&content(*kind, *n)),
            };
            let e: Vec<u8> = HexBinary::from(real.clone()).into();
            ensure!(e == [&fill32("r")[..], &u256(77), &content(*kind, *n)].concat(), "warp body layout");
            let back: warp::Message = hb(&e).into();
            ensure!(back == real, "warp body round trip of {}", hx(&e));
            cov.hit("warp body");
            e
        }
        Case::Sections(kinds) => {
            let mut set: Vec<(Addr, HexBinary)> = kinds
                .iter()
                .enumerate()
                .map(|(i, k)| (Addr::unchecked(b32("osmo", &keccak(&[i as u8]))), hb(&content(k / 2, [9, 65][k % 2]))))
                .collect();
            let e: Vec<u8> = HexBinary::from(AggregateMetadata::new(set.clone())).into();
            set.sort_by(|a, b| a.0.as_str().cmp(b.0.as_str()));
            let back: Vec<(Addr, HexBinary)> =
                AggregateMetadata::from_hex(hb(&e), set.iter().map(|x| x.0.clone()).collect()).collect();
            ensure!(back == set, "sections of kinds {kinds:?}");
            cov.hit("aggregate metadata");
            e
        }
    };
    Ok(dig(&(std::mem::discriminant(k), hx(&enc))))
}

pub fn c07(c: &mut Ctx) {
    c.assume("the reference layouts are those of the published Hyperlane message and metadata libraries, re-implemented in mc/src/util.rs");
    let b = base();
    let mut v = vec![];
    for version in 0..=255u8 {
        v.push(Case::Msg(Msg {
            version,
            ..b.clone()
        }));
    }
    for x in u32s() {
        for f in 0..3 {
            let mut m = b.clone();
            match f {
                0 => m.nonce = x,
                1 => m.origin = x,
                _ => m.dest = x,
            }
            v.push(Case::Msg(m));
        }
    }
    for w in w32s() {
        for f in 0..3 {
            let mut m = b.clone();
            match f {
                0 => m.sender = w,
                1 => m.recipient = w,
                _ => m.body = w.to_vec(),
            }
            v.push(Case::Msg(m));
        }
    }
    for n in lens() {
        for x in [0u8, 0xff] {
            v.push(Case::Msg(Msg {
                body: vec![x; n],
                ..b.clone()
            }));
        }
        v.push(Case::Msg(Msg {
            body: fill("b", n),
            ..b.clone()
        }));
    }
    // neighbouring fields: pairs of values that only differ in where the bits are
    let small = [0u32, 1, 256, 0x0100_0000, u32::MAX];
    let small_w = [[0u8; 32], pad32(&[1]), { let mut x = [0u8; 32]; x[0] = 1; x }, [0xff; 32]];
    for version in [0u8, 1, 3, 255] {
        for nonce in small {
            for origin in small {
                for dest in small {
                    for s in small_w {
                        for r in small_w {
                            for body in [vec![], vec![0], vec![1]] {
                                v.push(Case::Msg(Msg {
                                    version,
                                    nonce,
                                    origin,
                                    sender: s,
                                    dest,
                                    recipient: r,
                                    body,
                                }));
                            }
                        }
                    }
                }
            }
        }
    }
    for n in 0..80 {
        v.push(Case::MsgTrunc(n));
        v.push(Case::WarpTrunc(n));
    }
    let ws = w32s();
    for w in &ws {
        v.push(Case::Warp(*w, u256(5), vec![]));
        v.push(Case::Warp(fill32("r"), *w, vec![]));
        v.push(Case::Warp(fill32("r"), *w, b"meta".to_vec()));
        v.push(Case::Igp(*w, 0));
        v.push(Case::Igp(*w, 20));
        v.push(Case::Igp(*w, 32));
        for n in 0..4 {
            v.push(Case::IdMeta(*w, fill32("root"), 7, n));
            v.push(Case::IdMeta(fill32("tree"), *w, 7, n));
        }
        v.push(Case::RootMeta(*w, 7, fill32("id"), 3, 2));
        v.push(Case::RootMeta(fill32("m"), 7, *w, 3, 1));
    }
    for n in lens() {
        v.push(Case::Warp(fill32("r"), u256(u128::MAX), fill("meta", n)));
        v.push(Case::Igp(u256(100_000), n));
        if n <= 40 {
            v.push(Case::IdMeta(fill32("t"), fill32("r"), 1, n));
            v.push(Case::RootMeta(fill32("m"), 1, fill32("i"), 0xff, n));
        }
    }
    for n in (41..70).chain([96, 100, 127, 128, 129, 192, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 2048]) {
        v.push(Case::IdMeta(fill32("t"), fill32("r"), 1, n));
        v.push(Case::RootMeta(fill32("m"), 1, fill32("i"), 0xff, n));
    }
    for x in u32s() {
        v.push(Case::IdMeta(fill32("t"), fill32("r"), x, 1));
        v.push(Case::RootMeta(fill32("m"), x, fill32("i"), 0, 1));
    }
    for s in seqs(5, 4) {
        for rev in [false, true] {
            let l: Vec<usize> = s.iter().map(|i| [0, 1, 65, 256, 70_000][*i]).collect();
            v.push(Case::Agg(l, rev));
        }
    }
    for n in [6usize, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256] {
        v.push(Case::Agg((0..n).collect(), false));
        v.push(Case::Agg(vec![0; n], false));
        v.push(Case::Agg(vec![65; n], false));
    }
    v.extend(seqs(6, 4).into_iter().map(Case::IdSigs));
    v.extend(seqs(12, 3).into_iter().map(Case::Sections));
    for kind in 0..6 {
        for n in 0..=200 {
            v.push(Case::RootSigs(kind, n));
            v.push(Case::Refund(kind, n));
            v.push(Case::WarpMeta(kind, n));
        }
        for n in [256, 257, 64 * 65, 64 * 65 + 1, 256 * 65, 256 * 65 + 64] {
            v.push(Case::RootSigs(kind, n));
        }
    }
    let ranges: Vec<(usize, usize)> = (0..5)
        .flat_map(|a| (0..6).map(move |b| (a, b)))
        .collect();
    for a in &ranges {
        v.push(Case::AggRaw(vec![*a], 4));
        for b in &ranges {
            v.push(Case::AggRaw(vec![*a, *b], 4));
        }
    }
    c.cases(
        "layouts and round trips",
        || Ok(()),
        v,
        &[
            "message",
            "truncated",
            "warp body",
            "multisig metadata",
            "aggregate metadata",
            "gas metadata",
        ],
        |_, k, cov| case(k, cov),
    );
    // every single-bit change of a packed message decodes to a different value with a different id
    let full = base().enc();
    let bits: Vec<usize> = (0..full.len() * 8).collect();
    c.cases("single-bit neighbours", move || Ok(full.clone()), bits, &["differs"], |f, i, cov| {
        let mut g = f.clone();
        g[i / 8] ^= 0x80 >> (i % 8);
        let (a, b) = (Message::from(hb(f)), Message::from(hb(&g)));
        ensure!(a != b, "different bytes decode to the same message");
        ensure!(a.id() != b.id(), "different messages share an id");
        ensure_eq!(HexBinary::from(b).to_vec(), g, "re-encoding");
        cov.hit("differs");
        Ok(*i as u128)
    });
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Debug)]
enum C8 {
    Raw(&'static str, Vec<u8>),
    /// any length
    Len(&'static str, usize, u8),
    /// address, position, replacement character
    Corrupt(usize, usize, char),
    Drop(usize, usize),
    Swap(usize, usize),
    /// something put before / after / inside
    Insert(usize, usize, &'static str),
}

fn samples() -> Vec<String> {
    vec![
        b32("osmo", &fill("acct", 20)),
        b32("osmo", &fill("contract", 32)),
        b32("neutron", &[0; 20]),
        b32("inj", &[0xff; 32]),
    ]
}

fn c08_case(k: &C8, cov: &mut Cov) -> Res<u128> {
    match k {
        C8::Raw(hrp, raw) => {
            let a = b32(hrp, raw);
            let id = bech32_to_h256(&a).map_err(|e| format!("{a}: {e}"))?;
            ensure_eq!(id, pad32(raw), "identifier of {a}");
            let dec = bech32_decode(&a).map_err(|e| format!("{a}: {e}"))?;
            ensure_eq!(&dec, raw, "raw form of {a}");
            let back = bech32_encode(hrp, &id).map_err(|e| format!("{a}: {e}"))?;
            ensure_eq!(back.as_str(), addr_of(hrp, &id), "address of identifier {}", hx(&id));
            if raw.len() == 20 || raw[..12].iter().any(|b| *b != 0) {
                ensure_eq!(back.as_str(), a, "round trip");
                cov.hit("round trip");
            } else {
                cov.hit("zero-padded form");
            }
            let e = bech32_encode(hrp, raw).map_err(|e| format!("{a}: {e}"))?;
            ensure_eq!(e.as_str(), addr_of(hrp, &pad32(raw)), "encoding of the raw form");
            ensure!(e.as_str().starts_with(&format!("{hrp}1")), "prefix of {e}");
            // the identifier does not depend on the prefix
            for other in ["cosmos", "terra", "kujira"] {
                ensure_eq!(
                    bech32_to_h256(&b32(other, raw)).map_err(|e| e.to_string())?,
                    id,
                    "identifier under prefix {other}"
                );
                ensure_eq!(
                    bech32_encode(other, &id).map_err(|e| e.to_string())?.as_str(),
                    addr_of(other, &id),
                    "address under prefix {other}"
                );
            }
            Ok(dig(&(a, hx(&id))))
        }
        C8::Len(hrp, n, x) => {
            let raw = vec![*x; *n];
            let good = *n == 20 || *n == 32;
            let r = total(|| bech32_encode(hrp, &raw).is_ok()).unwrap_or(false);
            ensure_eq!(r, good, "encoding {n} bytes");
            let a = b32(hrp, &raw);
            let r = total(|| bech32_to_h256(&a).is_ok()).unwrap_or(false);
            ensure_eq!(r, good, "identifier of an address of {n} bytes");
            cov.hit(if good { "accepted length" } else { "refused length" });
            Ok(dig(&(n, good)))
        }
        C8::Corrupt(..) | C8::Drop(..) | C8::Swap(..) | C8::Insert(..) => {
            let (i, s) = match k {
                C8::Corrupt(i, p, ch) => {
                    let a = &samples()[*i];
                    let mut v: Vec<char> = a.chars().collect();
                    if v[*p] == *ch {
                        return Ok(1);
                    }
                    v[*p] = *ch;
                    (*i, v.into_iter().collect::<String>())
                }
                C8::Insert(i, p, x) => {
                    let mut s = samples()[*i].clone();
                    s.insert_str(*p, x);
                    (*i, s)
                }
                C8::Drop(i, p) => {
                    let mut v: Vec<char> = samples()[*i].chars().collect();
                    v.remove(*p);
                    (*i, v.into_iter().collect())
                }
                C8::Swap(i, p) => {
                    let mut v: Vec<char> = samples()[*i].chars().collect();
                    if v[*p] == v[p + 1] {
                        return Ok(1);
                    }
                    v.swap(*p, p + 1);
                    (*i, v.into_iter().collect())
                }
                _ => unreachable!(),
            };
            let a = &samples()[i];
            let r = total(|| bech32_to_h256(&s).ok()).flatten();
            ensure!(r.is_none(), "corrupted address {s} (from {a}) was accepted");
            let r = total(|| bech32_decode(&s).ok()).flatten();
            ensure!(r.is_none(), "corrupted address {s} (from {a}) was decoded");
            cov.hit("corruption refused");
            Ok(dig(&s))
        }
    }
}

pub fn c08(c: &mut Ctx) {
    c.assume("the reference conversion uses the bech32 crate's checksum");
    let hrps = ["osmo", "inj", "neutron", "cosmos", "a", "stargaze", "verylonghumanreadable"];
    let mut raws: Vec<Vec<u8>> = vec![];
    for n in [20usize, 32] {
        for b in 0..n * 8 {
            let mut x = vec![0u8; n];
            x[b / 8] = 0x80 >> (b % 8);
            raws.push(x.clone());
            raws.push(x.iter().map(|y| !y).collect());
        }
        for z in 0..=n {
            let mut x = fill("z", n);
            x[..z].fill(0);
            raws.push(x);
            let mut x = fill("z", n);
            x[n - z..].fill(0);
            raws.push(x);
            let mut x = vec![0xff; n];
            x[..z].fill(0);
            raws.push(x);
            let mut x = vec![0; n];
            x[..z].fill(0xff);
            raws.push(x);
        }
        for x in 0..=255u8 {
            raws.push(vec![x; n]);
            let mut y = fill("first", n);
            y[0] = x;
            raws.push(y);
            let mut y = fill("mid", n);
            y[n - 20] = x;
            raws.push(y);
        }
    }
    let mut v = vec![];
    for h in hrps {
        for r in &raws {
            v.push(C8::Raw(h, r.clone()));
        }
        for n in 0..70 {
            for x in [0u8, 1, 0xff] {
                v.push(C8::Len(h, n, x));
            }
        }
    }
    c.cases(
        "conversions",
        || Ok(()),
        v,
        &["round trip", "zero-padded form", "accepted length", "refused length"],
        |_, k, cov| c08_case(k, cov),
    );
    let mut v = vec![];
    for (i, a) in samples().iter().enumerate() {
        for p in 0..a.len() {
            for ch in "qpzry9x8gf2tvdw0s3jn54khce6mua7lbio1-QZ _".chars() {
                v.push(C8::Corrupt(i, p, ch));
            }
            for x in ["q", "qq", "p", "1", " ", "\t", "\n", "\0", "Q", "é", "/", "osmo1"] {
                v.push(C8::Insert(i, p, x));
                if p == 0 {
                    v.push(C8::Insert(i, a.len(), x));
                }
            }
            v.push(C8::Drop(i, p));
            if p + 1 < a.len() {
                v.push(C8::Swap(i, p));
            }
        }
    }
    c.cases("corrupted addresses", || Ok(()), v, &["corruption refused"], |_, k, cov| c08_case(k, cov));
}
