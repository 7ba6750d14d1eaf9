//! Independent reference encodings and deployment helpers shared by the checks.
pub use crate::chain::collisions;
use crate::chain::{b32, h256, keccak, Chain, Coins, TxOut, H128};
use crate::codes::{new_probe, set_probe, Emit, ProbeCfg};
use crate::explore::Res;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn hx(b: &[u8]) -> String {
    hex::encode(b)
}
pub fn unhx(s: &str) -> Vec<u8> {
    hex::decode(s).expect("hex")
}

/// reference form of an interchain message
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Msg {
    pub version: u8,
    pub nonce: u32,
    pub origin: u32,
    pub sender: [u8; 32],
    pub dest: u32,
    pub recipient: [u8; 32],
    pub body: Vec<u8>,
}
impl Msg {
    pub fn enc(&self) -> Vec<u8> {
        let mut v = vec![self.version];
        v.extend(self.nonce.to_be_bytes());
        v.extend(self.origin.to_be_bytes());
        v.extend(self.sender);
        v.extend(self.dest.to_be_bytes());
        v.extend(self.recipient);
        v.extend(&self.body);
        v
    }
    pub fn id(&self) -> [u8; 32] {
        keccak(&self.enc())
    }
    pub fn dec(b: &[u8]) -> Option<Msg> {
        if b.len() < 77 {
            return None;
        }
        let u = |i: usize| u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
        let w = |i: usize| -> [u8; 32] { b[i..i + 32].try_into().unwrap() };
        Some(Msg {
            version: b[0],
            nonce: u(1),
            origin: u(5),
            sender: w(9),
            dest: u(41),
            recipient: w(45),
            body: b[77..].to_vec(),
        })
    }
}

/// reference conversion of an identifier to an account address
pub fn addr_of(hrp: &str, id: &[u8; 32]) -> String {
    if id[..12].iter().all(|b| *b == 0) {
        b32(hrp, &id[12..])
    } else {
        b32(hrp, id)
    }
}

pub fn pad32(b: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    o[32 - b.len()..].copy_from_slice(b);
    o
}
pub fn u256(v: u128) -> [u8; 32] {
    pad32(&v.to_be_bytes())
}
pub fn fill(tag: &str, n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut k = keccak(tag.as_bytes());
    while v.len() < n {
        v.extend(k);
        k = keccak(&k);
    }
    v.truncate(n);
    v
}
pub fn fill32(tag: &str) -> [u8; 32] {
    keccak(tag.as_bytes())
}

/// interesting domain numbers around `d`
pub fn domains(d: u32) -> Vec<u32> {
    let mut v = vec![
        d,
        0,
        1,
        u32::MAX,
        0x8000_0000,
        0x7fff_ffff,
        d.swap_bytes(),
        d.wrapping_add(1),
        d.wrapping_sub(1),
        d & 0xffff,
        d & 0xff,
        d << 8,
        d >> 8,
        !d,
        0x1_0000 | (d & 0xffff),
    ];
    for b in 0..32 {
        v.push(d ^ (1 << b));
    }
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|x| seen.insert(*x));
    v
}

pub fn ok(t: TxOut, what: &str) -> Res<TxOut> {
    match &t.res {
        Ok(_) => Ok(t),
        Err(e) => Err(format!("{what} failed: {e}")),
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => {
        if !$c { return Err(format!($($a)+)); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)+) => {{
        match (&$a, &$b) {
            (a, b) => if a != b {
                return Err(format!("{}: got {:?}, expected {:?}", format!($($m)+), a, b));
            }
        }
    }};
}

pub fn digest(parts: &[&str]) -> u128 {
    let mut h = H128::new();
    for p in parts {
        h.bytes(p.as_bytes());
    }
    h.fin()
}
pub fn dig<T: std::fmt::Debug>(v: &T) -> u128 {
    crate::chain::hash_str(&format!("{v:?}"))
}

// ------------------------------------------------------------- deployment

pub fn inst(ch: &mut Chain, code: &'static str, who: &str, msg: Value) -> Res<String> {
    ch.instantiate(code, who, &msg)
        .map_err(|e| format!("instantiate {code}: {e}"))
}
pub fn mailbox(ch: &mut Chain, owner: &str, domain: u32) -> Res<String> {
    let hrp = ch.hrp.to_string();
    inst(
        ch,
        "mailbox",
        owner,
        json!({"hrp": hrp, "owner": owner, "domain": domain}),
    )
}
pub fn call(ch: &mut Chain, who: &str, to: &str, msg: Value) -> Res<TxOut> {
    let what = msg.to_string();
    let t = ch.exec(who, to, &msg, &[]);
    ok(t, &what)
}
pub fn try_call(ch: &mut Chain, who: &str, to: &str, msg: &Value, funds: &Coins) -> TxOut {
    let f: Vec<(&str, u128)> = funds.iter().map(|(d, a)| (d.as_str(), *a)).collect();
    ch.exec(who, to, msg, &f)
}
pub fn quiet_hook(ch: &mut Chain) -> String {
    new_probe(ch, &ProbeCfg::default())
}
/// a mailbox with probe hooks and an accepting default module
pub struct Basic {
    pub mb: String,
    pub required: String,
    pub default: String,
    pub ism: String,
}
pub fn basic(ch: &mut Chain, owner: &str, domain: u32) -> Res<Basic> {
    let mb = mailbox(ch, owner, domain)?;
    let required = quiet_hook(ch);
    let default = quiet_hook(ch);
    let ism = new_probe(
        ch,
        &ProbeCfg {
            verify: "bytes".into(),
            ..Default::default()
        },
    );
    call(ch, owner, &mb, json!({"set_required_hook": {"hook": required}}))?;
    call(ch, owner, &mb, json!({"set_default_hook": {"hook": default}}))?;
    call(ch, owner, &mb, json!({"set_default_ism": {"ism": ism}}))?;
    Ok(Basic {
        mb,
        required,
        default,
        ism,
    })
}

pub fn process_msg(meta: &[u8], message: &[u8]) -> Value {
    json!({"process": {"metadata": hx(meta), "message": hx(message)}})
}
pub fn delivered(ch: &Chain, mb: &str, id: &[u8; 32]) -> Res<bool> {
    let v = ch
        .query(mb, &json!({"mailbox": {"message_delivered": {"id": hx(id)}}}))
        .map_err(|e| format!("message_delivered query: {e}"))?;
    v["delivered"]
        .as_bool()
        .ok_or_else(|| format!("message_delivered answered {v}"))
}
pub fn dispatch_msg(
    dest: u32,
    recipient: &[u8],
    body: &[u8],
    hook: Option<&str>,
    meta: Option<&[u8]>,
) -> Value {
    json!({"dispatch": dispatch_body(dest, recipient, body, hook, meta)})
}
pub fn dispatch_body(
    dest: u32,
    recipient: &[u8],
    body: &[u8],
    hook: Option<&str>,
    meta: Option<&[u8]>,
) -> Value {
    json!({"dest_domain": dest, "recipient_addr": hx(recipient), "msg_body": hx(body),
        "hook": hook, "metadata": meta.map(hx)})
}
pub fn nonce(ch: &Chain, mb: &str) -> Res<u64> {
    let v = ch
        .query(mb, &json!({"mailbox": {"nonce": {}}}))
        .map_err(|e| format!("nonce query: {e}"))?;
    v["nonce"].as_u64().ok_or(format!("nonce query: {v}"))
}
/// latest dispatched id, `None` when nothing was dispatched
pub fn latest_id(ch: &Chain, mb: &str) -> Res<Option<String>> {
    match ch.query(mb, &json!({"mailbox": {"latest_dispatch_id": {}}})) {
        Ok(v) => {
            let s = v["message_id"].as_str().unwrap_or("").to_string();
            Ok(if s.is_empty() { None } else { Some(s) })
        }
        // the query has no answer before the first dispatch
        Err(_) => Ok(None),
    }
}
pub fn str_of(v: &Value, k: &str) -> String {
    v[k].as_str().unwrap_or("<none>").to_string()
}
pub fn fees(v: &Value) -> Res<Coins> {
    let mut m: BTreeMap<String, u128> = BTreeMap::new();
    for c in v["fees"]
        .as_array()
        .ok_or_else(|| format!("no fees in {v}"))?
    {
        let a: u128 = c["amount"]
            .as_str()
            .and_then(|s| s.parse().ok())
            .ok_or_else(|| format!("bad fees {v}"))?;
        if a > 0 {
            *m.entry(c["denom"].as_str().unwrap_or("?").into())
                .or_default() += a;
        }
    }
    Ok(m.into_iter().collect())
}
pub fn hook_quote(ch: &Chain, hook: &str, meta: &[u8], message: &[u8]) -> Result<Coins, String> {
    fees(&ch.query(
        hook,
        &json!({"hook": {"quote_dispatch": {"metadata": hx(meta), "message": hx(message)}}}),
    )?)
}
pub fn post_dispatch(meta: &[u8], message: &[u8]) -> Value {
    json!({"post_dispatch": {"metadata": hx(meta), "message": hx(message)}})
}
pub fn verify_query(meta: &[u8], message: &[u8]) -> Value {
    json!({"ism": {"verify": {"metadata": hx(meta), "message": hx(message)}}})
}
/// verdict of a module; errors and panics are refusals
pub fn verdict(ch: &Chain, ism: &str, meta: &[u8], message: &[u8]) -> bool {
    verdict_full(ch, ism, meta, message).unwrap_or(false)
}
pub fn verdict_full(ch: &Chain, ism: &str, meta: &[u8], message: &[u8]) -> Result<bool, String> {
    let v = ch.query(ism, &verify_query(meta, message))?;
    v["verified"].as_bool().ok_or(format!("no verdict in {v}"))
}
pub fn coins_add(a: &mut BTreeMap<String, u128>, b: &Coins) {
    for (d, x) in b {
        *a.entry(d.clone()).or_default() += x;
    }
}
pub fn coins_sum(list: &[Coins]) -> Coins {
    let mut m = BTreeMap::new();
    for c in list {
        coins_add(&mut m, c);
    }
    m.into_iter().filter(|x| x.1 > 0).collect()
}
/// `a - b`, None if any denomination would go negative
pub fn coins_sub(a: &Coins, b: &Coins) -> Option<Coins> {
    let mut m: BTreeMap<String, u128> = a.iter().cloned().collect();
    for (d, x) in b {
        if *x == 0 {
            continue;
        }
        let e = m.get_mut(d)?;
        *e = e.checked_sub(*x)?;
    }
    Some(m.into_iter().filter(|x| x.1 > 0).collect())
}
pub fn coins(list: &[(&str, u128)]) -> Coins {
    list.iter()
        .filter(|c| c.1 > 0)
        .map(|(d, a)| (d.to_string(), *a))
        .collect()
}
/// balance changes between two chain states
pub fn bank_delta(a: &Chain, b: &Chain) -> BTreeMap<(String, String), i128> {
    let (x, y) = (a.bank_view(), b.bank_view());
    let mut out = BTreeMap::new();
    for k in x.keys().chain(y.keys()) {
        // modulo 2^128: together with the balance before, it still fixes the balance after
        let d = y.get(k).copied().unwrap_or(0).wrapping_sub(x.get(k).copied().unwrap_or(0)) as i128;
        if d != 0 {
            out.insert(k.clone(), d);
        }
    }
    out
}
pub fn probe(ch: &mut Chain, f: impl FnOnce(&mut ProbeCfg)) -> String {
    let mut c = ProbeCfg::default();
    f(&mut c);
    new_probe(ch, &c)
}
pub fn reprobe(ch: &mut Chain, addr: &str, f: impl FnOnce(&mut ProbeCfg)) {
    let mut c: ProbeCfg =
        serde_json::from_slice(&ch.store_get(addr, crate::codes::PROBE_KEY).unwrap()).unwrap();
    f(&mut c);
    set_probe(ch, addr, &c);
}
pub fn emit(to: &str, msg: &Value, swallow: bool) -> Emit {
    Emit {
        to: to.into(),
        msg: msg.to_string(),
        funds: vec![],
        swallow,
        once: false,
    }
}
pub fn emit_f(to: &str, msg: &Value, funds: &[(&str, u128)], swallow: bool) -> Emit {
    Emit {
        to: to.into(),
        msg: msg.to_string(),
        funds: funds
            .iter()
            .map(|(d, a)| (d.to_string(), a.to_string()))
            .collect(),
        swallow,
        once: false,
    }
}
pub fn relay(list: &[Emit]) -> Value {
    json!({ "relay": list })
}
pub fn self_h256(a: &str) -> [u8; 32] {
    h256(a)
}
/// lengths of bodies and metadata: every small one, and those around powers of two and ten
pub fn sizes(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..if thorough { 2100 } else { 300 }).collect();
    for p in 8..if thorough { 20 } else { 18 } {
        v.extend([(1 << p) - 1, 1 << p, (1 << p) + 1, 3 << (p - 1)]);
    }
    for p in [100, 1000, 10_000, 100_000] {
        v.extend([p, p + 1, 2 * p, 3 * p, 4 * p, 5 * p, 7 * p].into_iter().filter(|n| thorough || *n < 200_000));
    }
    v.sort();
    v.dedup();
    v
}
/// all sequences (with repetition) of length 0..=n over `0..k`
pub fn seqs(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..n {
        let mut nx = vec![];
        for s in &last {
            for i in 0..k {
                let mut t = s.clone();
                t.push(i);
                nx.push(t);
            }
        }
        out.extend(nx.clone());
        last = nx;
    }
    out
}

// ------------------------------------------------------------- keys

pub struct Key {
    pub sk: k256::ecdsa::SigningKey,
    pub addr: [u8; 20],
    pub pubkey: Vec<u8>,
}
impl Key {
    pub fn new(tag: &str) -> Key {
        let sk = k256::ecdsa::SigningKey::from_slice(&keccak(tag.as_bytes())).unwrap();
        let pk = sk.verifying_key().to_encoded_point(false);
        let addr = keccak(&pk.as_bytes()[1..])[12..].try_into().unwrap();
        Key {
            addr,
            pubkey: pk.as_bytes().to_vec(),
            sk,
        }
    }
    /// r | s | v with v = 27 / 28
    pub fn sign(&self, digest: &[u8; 32]) -> [u8; 65] {
        let (s, r) = self.sk.sign_prehash_recoverable(digest).unwrap();
        let mut o = [0u8; 65];
        o[..64].copy_from_slice(&s.to_bytes());
        o[64] = 27 + r.to_byte();
        o
    }
}
pub fn eth_hash(h: &[u8; 32]) -> [u8; 32] {
    let mut v = b"\x19Ethereum Signed Message:\n32".to_vec();
    v.extend(h);
    keccak(&v)
}
/// the digest a validator signs for a checkpoint
pub fn checkpoint_digest(
    origin: u32,
    tree: &[u8; 32],
    root: &[u8; 32],
    index: u32,
    id: &[u8; 32],
) -> [u8; 32] {
    let mut d = origin.to_be_bytes().to_vec();
    d.extend(tree);
    d.extend(b"HYPERLANE");
    let dh = keccak(&d);
    let mut v = dh.to_vec();
    v.extend(root);
    v.extend(index.to_be_bytes());
    v.extend(id);
    eth_hash(&keccak(&v))
}
pub fn multisig_meta(tree: &[u8; 32], root: &[u8; 32], index: u32, sigs: &[[u8; 65]]) -> Vec<u8> {
    let mut v = tree.to_vec();
    v.extend(root);
    v.extend(index.to_be_bytes());
    for s in sigs {
        v.extend(s);
    }
    v
}
