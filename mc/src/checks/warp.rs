//! W01–W04: token routes
use crate::chain::{h256, Chain, Coins, TxOut};
use crate::explore::{Cov, CovExt, Ctx, Model, Res, Step};
use crate::util::*;
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Kind {
    pub cw20: bool,
    pub bridged: bool,
}
pub const KINDS: [Kind; 4] = [
    Kind {
        cw20: false,
        bridged: false,
    },
    Kind {
        cw20: false,
        bridged: true,
    },
    Kind {
        cw20: true,
        bridged: false,
    },
    Kind {
        cw20: true,
        bridged: true,
    },
];
#[derive(Clone, Debug)]
pub struct Route {
    pub kind: Kind,
    pub addr: String,
    /// denomination or token contract
    pub token: String,
}
pub const COLL: &str = "uatom";

/// deploy a token route; a collateral cw20 gets `holders` as initial balances
pub fn deploy(ch: &mut Chain, owner: &str, kind: Kind, mb: &str, holders: &[(&str, u128)]) -> Res<Route> {
    deploy_of(ch, owner, kind, mb, holders, if kind.bridged { "uwarp" } else { COLL })
}
/// native routes: of the denomination, or of the synthetic denomination with that last part
pub fn deploy_of(ch: &mut Chain, owner: &str, kind: Kind, mb: &str, holders: &[(&str, u128)], denom: &str) -> Res<Route> {
    let hrp = ch.hrp.to_string();
    let code = if kind.cw20 { "warp_cw20" } else { "warp_native" };
    let token = match (kind.cw20, kind.bridged) {
        (false, true) => json!({"bridged": {"denom": denom}}),
        (false, false) => {
            for (a, n) in holders {
                ch.fund(a, denom, *n);
            }
            json!({"collateral": {"denom": denom}})
        }
        (true, true) => json!({"bridged": {"code_id": 1, "init_msg": {"name": "warped", "symbol": "WARP",
            "decimals": 6, "initial_balances": []}}}),
        (true, false) => {
            let l: Vec<Value> = holders
                .iter()
                .map(|(a, n)| json!({"address": a, "amount": n.to_string()}))
                .collect();
            let t = inst(
                ch,
                "cw20",
                owner,
                json!({"name": "token", "symbol": "TOK", "decimals": 6, "initial_balances": l}),
            )?;
            json!({"collateral": {"address": t}})
        }
    };
    let addr = inst(
        ch,
        code,
        owner,
        json!({"token": token, "hrp": hrp, "owner": owner, "mailbox": mb}),
    )?;
    let v = ch.query(&addr, &json!({"token_default": {"token_type": {}}}))?;
    // the one string in the answer is the denomination or the contract
    fn leaf(v: &Value) -> Option<String> {
        match v {
            Value::String(s) => Some(s.clone()),
            Value::Object(m) => m.values().find_map(leaf),
            _ => None,
        }
    }
    let t = leaf(&v).ok_or(format!("token type {v}"))?;
    match (kind.cw20, kind.bridged) {
        (false, true) => ensure_eq!(t, format!("factory/{addr}/{denom}"), "denomination"),
        (false, false) => ensure_eq!(t, denom.to_string(), "denomination"),
        (true, false) => ensure_eq!(json!(t), token["collateral"]["address"], "token"),
        (true, true) => {}
    }
    let v = ch.query(&addr, &json!({"token_default": {"token_mode": {}}}))?;
    ensure_eq!(
        v["mode"],
        json!(if kind.bridged { "bridged" } else { "collateral" }),
        "token mode"
    );
    Ok(Route {
        kind,
        addr,
        token: t,
    })
}
pub fn enroll(d: u32, r: Option<&[u8]>) -> Value {
    json!({"router": {"set_route": {"set": {"domain": d, "route": r.map(hx)}}}})
}
impl Route {
    pub fn bal(&self, ch: &Chain, who: &str) -> u128 {
        if !self.kind.cw20 {
            return ch.bal(who, &self.token);
        }
        ch.query(&self.token, &json!({"balance": {"address": who}}))
            .ok()
            .and_then(|v| v["balance"].as_str().and_then(|s| s.parse().ok()))
            .unwrap_or(0)
    }
    pub fn supply(&self, ch: &Chain) -> u128 {
        if !self.kind.cw20 {
            return ch.supply(&self.token);
        }
        ch.query(&self.token, &json!({"token_info": {}}))
            .ok()
            .and_then(|v| v["total_supply"].as_str().and_then(|s| s.parse().ok()))
            .unwrap_or(0)
    }
    /// every holder of the token
    pub fn holders(&self, ch: &Chain) -> BTreeMap<String, u128> {
        if !self.kind.cw20 {
            return ch
                .bank_view()
                .into_iter()
                .filter(|((_, d), _)| *d == self.token)
                .map(|((a, _), v)| (a, v))
                .collect();
        }
        let mut out = BTreeMap::new();
        let mut after: Option<String> = None;
        loop {
            let v = ch
                .query(&self.token, &json!({"all_accounts": {"limit": 30, "start_after": after}}))
                .expect("accounts");
            let l = v["accounts"].as_array().cloned().unwrap_or_default();
            if l.is_empty() {
                return out;
            }
            for a in &l {
                let a = a.as_str().unwrap().to_string();
                let b = self.bal(ch, &a);
                if b > 0 {
                    out.insert(a.clone(), b);
                }
                after = Some(a);
            }
        }
    }
    /// all balances of everything: bank and (cw20) token
    pub fn everything(&self, ch: &Chain) -> BTreeMap<(String, String), u128> {
        let mut m = ch.bank_view();
        if self.kind.cw20 {
            for (a, v) in self.holders(ch) {
                m.insert((a, self.token.clone()), v);
            }
        }
        m
    }
    pub fn give(&self, ch: &mut Chain, who: &str, amount: u128) {
        if amount == 0 {
            return;
        }
        if !self.kind.cw20 {
            ch.fund(who, &self.token, amount);
            return;
        }
        // minting through the token's minter is only possible for bridged routes; for a collateral
        // token the initial holder transfers
        if self.kind.bridged {
            let m = json!({"mint": {"recipient": who, "amount": amount.to_string()}});
            let a = self.addr.clone();
            let t = ch.exec(&a, &self.token, &m, &[]);
            assert!(t.ok(), "mint {}", t.err());
        } else {
            let a = ch.user("holder");
            let m = json!({"transfer": {"recipient": who, "amount": amount.to_string()}});
            let t = ch.exec(&a, &self.token, &m, &[]);
            assert!(t.ok(), "give {}", t.err());
        }
    }
    pub fn approve(&self, ch: &mut Chain, who: &str, amount: u128) {
        if self.kind.cw20 && amount > 0 {
            let m = json!({"increase_allowance": {"spender": self.addr, "amount": amount.to_string()}});
            let t = ch.exec(who, &self.token, &m, &[]);
            assert!(t.ok(), "approve {}", t.err());
        }
    }
    /// remove all allowances given by `who`
    pub fn disapprove(&self, ch: &mut Chain, who: &str) {
        if self.kind.cw20 {
            let m = json!({"decrease_allowance": {"spender": self.addr, "amount": u128::MAX.to_string()}});
            ch.exec(who, &self.token, &m, &[]);
        }
    }
    /// coins a caller attaches for a transfer of `amount` with `extra`
    pub fn funds(&self, amount: u128, extra: &Coins) -> Coins {
        if self.kind.cw20 {
            return extra.clone();
        }
        coins_sum(&[vec![(self.token.clone(), amount)], extra.clone()])
    }
}
pub fn transfer_msg(dest: u32, rec: &[u8], amount: u128, hook: Option<&str>, meta: Option<&[u8]>) -> Value {
    json!({"transfer_remote": {"dest_domain": dest, "recipient": hx(rec), "amount": amount.to_string(),
        "hook": hook, "metadata": meta.map(hx)}})
}
pub fn handle_msg(origin: u32, sender: &[u8], body: &[u8]) -> Value {
    json!({"handle": {"origin": origin, "sender": hx(sender), "body": hx(body)}})
}
pub fn body(rec: &[u8; 32], amount: &[u8; 32], meta: &[u8]) -> Vec<u8> {
    [rec.to_vec(), amount.to_vec(), meta.to_vec()].concat()
}
/// messages dispatched by a transaction through mailbox `mb`
pub fn dispatched(t: &TxOut, mb: &str) -> Res<Vec<Msg>> {
    t.events(mb, "mailbox_dispatch")
        .into_iter()
        .map(|e| {
            Msg::dec(&unhx(e.get("message").map(|s| s.as_str()).unwrap_or("")))
                .ok_or("malformed dispatched message".to_string())
        })
        .collect()
}

// ------------------------------------------------------------------ W01

/// several chains with one route each
#[derive(Clone)]
struct Net {
    chains: Vec<Chain>,
    r: Arc<Vec<Route>>,
    mb: Arc<Vec<String>>,
    ism: Arc<Vec<String>>,
    quiet: Arc<Vec<String>>,
    default: Arc<Vec<String>>,
    users: Arc<Vec<[String; 2]>>,
}
const HRPS: [&str; 3] = ["osmo", "neutron", "inj"];
const DOMS: [u32; 3] = [0x0001_0203, 0x0203_0100, 0x0001_0202];
/// who the two users of every chain are
#[derive(Clone, Copy, PartialEq)]
enum Users {
    /// nobody in particular
    Plain,
    /// the owner of the route and the relayer
    Roles,
    /// the mailbox, and the token contract or the security module
    Contracts,
}

fn net(kinds: &[Kind], start: u128, who: Users) -> Res<Net> {
    let mut chains = vec![];
    let (mut rs, mut mbs, mut isms, mut us, mut quiet) = (vec![], vec![], vec![], vec![], vec![]);
    let mut default = vec![];
    for (i, k) in kinds.iter().enumerate() {
        let mut ch = Chain::new(HRPS[i]);
        let owner = ch.user("owner");
        let b = basic(&mut ch, &owner, DOMS[i])?;
        // the address of the token contract is known only once there is one, so balances are handed out by the owner
        let mut users = match who {
            Users::Plain => [ch.user("alice"), ch.user("bob")],
            Users::Roles => [owner.clone(), ch.user("relayer")],
            Users::Contracts => [b.mb.clone(), b.ism.clone()],
        };
        let hold: Vec<(&str, u128)> = if k.bridged {
            vec![]
        } else {
            users.iter().map(|u| (u.as_str(), start)).collect()
        };
        let r = deploy(&mut ch, &owner, *k, &b.mb, &hold)?;
        if who == Users::Contracts && k.cw20 {
            if !k.bridged {
                let m = json!({"transfer": {"recipient": r.token, "amount": start.to_string()}});
                call(&mut ch, &users[1], &r.token, m)?;
            }
            users[1] = r.token.clone();
        }
        for u in &users {
            for d in FEES {
                ch.fund(u, d, 1_000_000);
            }
            r.approve(&mut ch, u, u128::MAX);
        }
        rs.push(r);
        mbs.push(b.mb);
        isms.push(b.ism);
        quiet.push(quiet_hook(&mut ch));
        default.push(b.default);
        us.push(users);
        chains.push(ch);
    }
    for i in 0..kinds.len() {
        for j in 0..kinds.len() {
            if i != j {
                let owner = chains[i].user("owner");
                let r = h256(&rs[j].addr);
                call(&mut chains[i], &owner, &rs[i].addr, enroll(DOMS[j], Some(&r)))?;
            }
        }
    }
    Ok(Net {
        chains,
        r: Arc::new(rs),
        mb: Arc::new(mbs),
        ism: Arc::new(isms),
        quiet: Arc::new(quiet),
        default: Arc::new(default),
        users: Arc::new(us),
    })
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Fly {
    from: usize,
    to: usize,
    amount: u128,
    user: usize,
    msg: Vec<u8>,
    delivered: bool,
}
#[derive(Clone)]
struct S1 {
    n: Net,
    fly: Vec<Fly>,
    /// expected token balances of the users, per chain
    bal: Vec<[u128; 2]>,
    reject: Vec<bool>,
    /// tokens given to the route outside a transfer, synthetic tokens destroyed by their holder, per chain
    gift: Vec<u128>,
    burnt: Vec<u128>,
}
#[derive(Clone, Debug)]
enum A1 {
    /// chain, user, to chain, receiving user, amount
    Transfer(usize, usize, usize, usize, u128),
    /// everything the user has
    All(usize, usize, usize, usize),
    /// more than the user has
    Over(usize, usize, usize),
    /// to a domain without a router / with a failing hook / with a bad recipient
    NoRouter(usize),
    BadHook(usize),
    BadRec(usize),
    Deliver(usize),
    /// a message from somebody else, an altered copy of an existing one, a direct call
    Forge(usize, u8),
    Reject(usize),
    /// the same transfer twice in one transaction, the second one caught
    Twice(usize, usize),
    /// several deliveries of the same message in one transaction
    DeliverTwice(usize),
    /// tokens change hands on their chain
    Local(usize),
    /// a user gives tokens to the route / destroys tokens
    Gift(usize),
    Burn(usize),
    /// users act on the token itself
    Token(usize, u8),
}
/// what hooks are paid in
const FEES: [&str; 3] = ["another", "fee", "other"];
struct M1 {
    kinds: Vec<Kind>,
    start: u128,
    amounts: Vec<u128>,
    full: bool,
    max_fly: usize,
    users: Users,
}
impl M1 {
    fn transfer(&self, n: &mut S1, c: usize, u: usize, to: usize, v: usize, amount: u128, cov: &mut Cov) -> Res<()> {
        let who = n.n.users[c][u].clone();
        let rec = h256(&n.n.users[to][v]);
        let r = &n.n.r[c];
        let have = n.bal[c][u];
        let before = n.n.chains[c].key();
        // with and without a hook and metadata of its own, and with coins for the hook
        let style = n.fly.len() + 2 * u + c + n.bal[c][1 - u] as usize % 2;
        let hook = (style & 1 == 1).then(|| n.n.quiet[c].clone());
        let meta = (style & 2 == 2).then(|| fill("meta", 20 * (style % 5)));
        let m = transfer_msg(DOMS[to], &rec, amount, hook.as_deref(), meta.as_deref());
        let fee = match (style + to) % 5 {
            0 => coins(&[]),
            1 => coins(&[("fee", 1)]),
            2 => coins(&[("fee", 700)]),
            3 => coins(&[("fee", 2), ("other", 1)]),
            _ => coins(&[("another", 3), ("fee", 1), ("other", 900)]),
        };
        let f = r.funds(amount, &fee);
        let t = try_call(&mut n.n.chains[c], &who, &r.addr, &m, &f);
        ensure_eq!(t.ok(), amount <= have, "transfer of {amount} ({})", t.err());
        if !t.ok() {
            ensure_eq!(n.n.chains[c].key(), before, "state after a refused transfer");
            cov.hit("refused");
            return Ok(());
        }
        // the hook gives the coins back
        let at = hook.unwrap_or(n.n.default[c].clone());
        for d in FEES {
            let given = fee.iter().find(|x| x.0 == d).map_or(0, |x| x.1);
            ensure_eq!(n.n.chains[c].bal(&at, d), given, "coins given to the hook");
            if given > 0 {
                n.n.chains[c].put_back(&at, &who, d, given);
            }
        }
        // always the same allowance, and never the limiting one
        let r = r.clone();
        r.disapprove(&mut n.n.chains[c], &who);
        r.approve(&mut n.n.chains[c], &who, u128::MAX);
        n.bal[c][u] -= amount;
        let ms = dispatched(&t, &n.n.mb[c])?;
        ensure_eq!(ms.len(), 1, "messages dispatched");
        n.fly.push(Fly {
            from: c,
            to,
            amount,
            user: v,
            msg: ms[0].enc(),
            delivered: false,
        });
        cov.hit("sent");
        Ok(())
    }
}
impl Model for M1 {
    type S = S1;
    type A = A1;
    fn init(&self) -> Res<Vec<(String, S1)>> {
        let n = net(&self.kinds, self.start, self.users)?;
        let bal = self
            .kinds
            .iter()
            .map(|k| if k.bridged { [0; 2] } else { [self.start; 2] })
            .collect();
        Ok(vec![(
            "fresh routes".into(),
            S1 {
                n,
                fly: vec![],
                bal,
                reject: vec![false; self.kinds.len()],
                gift: vec![0; self.kinds.len()],
                burnt: vec![0; self.kinds.len()],
            },
        )])
    }
    fn actions(&self, s: &S1) -> Vec<A1> {
        let mut v = vec![];
        let k = self.kinds.len();
        for i in 0..s.fly.len() {
            v.push(A1::Deliver(i));
            if self.full {
                v.push(A1::DeliverTwice(i));
            }
        }
        for c in 0..k {
            for to in 0..k {
                if c == to || s.fly.iter().filter(|f| !f.delivered).count() >= self.max_fly {
                    continue;
                }
                for a in &self.amounts {
                    v.push(A1::Transfer(c, 0, to, 1, *a));
                }
                v.push(A1::All(c, 1, to, 0));
                if self.full {
                    v.push(A1::All(c, 0, to, 0));
                    v.push(A1::Twice(c, to));
                }
            }
            v.push(A1::Over(c, 0, (c + 1) % k));
            v.push(A1::BadHook(c));
            for f in 0..6 {
                v.push(A1::Forge(c, f));
            }
            if self.full {
                v.push(A1::NoRouter(c));
                v.push(A1::BadRec(c));
                v.push(A1::Reject(c));
                v.push(A1::Local(c));
                if s.gift[c] + s.burnt[c] < 2 {
                    v.push(A1::Gift(c));
                    v.push(A1::Burn(c));
                }
                for x in 0..4 {
                    v.push(A1::Token(c, x));
                }
            }
        }
        v
    }
    fn key(&self, s: &S1) -> u128 {
        let mut f = s.fly.clone();
        f.sort();
        let mut k = dig(&(f, &s.bal, &s.reject, &s.gift, &s.burnt));
        for (i, c) in s.n.chains.iter().enumerate() {
            k ^= c.key().rotate_left(7 * i as u32);
        }
        k
    }
    fn step(&self, s: &S1, a: &A1, cov: &mut Cov) -> Res<Step<S1>> {
        let mut n = s.clone();
        match a {
            A1::Transfer(c, u, to, v, x) => self.transfer(&mut n, *c, *u, *to, *v, *x, cov)?,
            A1::All(c, u, to, v) => {
                if s.bal[*c][*u] == 0 {
                    return Ok(Step::Same);
                }
                self.transfer(&mut n, *c, *u, *to, *v, s.bal[*c][*u], cov)?
            }
            A1::Over(c, u, to) => {
                if s.bal[*c][*u] == u128::MAX {
                    return Ok(Step::Same);
                }
                self.transfer(&mut n, *c, *u, *to, 0, s.bal[*c][*u] + 1, cov)?
            }
            A1::Twice(c, to) => {
                let x = self.amounts[0];
                let r = &s.n.r[*c];
                let who = s.n.users[*c][0].clone();
                // a contract that holds the tokens and transfers twice, ignoring errors
                if s.bal[*c][0] < x {
                    return Ok(Step::Same);
                }
                let ch = &mut n.n.chains[*c];
                let acct = probe(ch, |_| {});
                let give = if r.kind.cw20 {
                    let m = json!({"transfer": {"recipient": acct, "amount": x.to_string()}});
                    ch.exec(&who, &r.token, &m, &[])
                } else {
                    ch.exec(&who, &acct, &relay(&[]), &[(r.token.as_str(), x)])
                };
                ensure!(give.ok(), "giving: {}", give.err());
                let rec = h256(&s.n.users[*to][1]);
                let m = transfer_msg(DOMS[*to], &rec, x, None, None);
                let f: Vec<(&str, u128)> = if r.kind.cw20 { vec![] } else { vec![(r.token.as_str(), x)] };
                let mut l = vec![];
                if r.kind.cw20 {
                    let ap = json!({"increase_allowance": {"spender": r.addr, "amount": (2 * x).to_string()}});
                    l.push(emit_f(&r.token, &ap, &[], false));
                }
                for _ in 0..2 {
                    l.push(emit_f(&r.addr, &m, &f, true));
                }
                let t = ch.exec(&who, &acct, &relay(&l), &[]);
                ensure!(t.ok(), "relay: {}", t.err());
                let ms = dispatched(&t, &s.n.mb[*c])?;
                ensure_eq!(ms.len(), 1, "messages for one amount");
                n.bal[*c][0] -= x;
                n.fly.push(Fly {
                    from: *c,
                    to: *to,
                    amount: x,
                    user: 1,
                    msg: ms[0].enc(),
                    delivered: false,
                });
                cov.hit("sent");
            }
            A1::NoRouter(c) | A1::BadHook(c) | A1::BadRec(c) => {
                if s.bal[*c][0] == 0 {
                    return Ok(Step::Same);
                }
                let who = s.n.users[*c][0].clone();
                let r = &s.n.r[*c];
                let to = (*c + 1) % self.kinds.len();
                let mut rec = h256(&s.n.users[to][0]).to_vec();
                let mut d = DOMS[to];
                let mut base = s.n.chains[*c].clone();
                let bad = probe(&mut base, |p| p.post_fail = true);
                let mut hook = None;
                match a {
                    A1::NoRouter(_) => d ^= 0x80,
                    A1::BadHook(_) => hook = Some(bad.as_str()),
                    _ => rec.truncate(20),
                }
                let mut c2 = base.clone();
                let t = try_call(
                    &mut c2,
                    &who,
                    &r.addr,
                    &transfer_msg(d, &rec, 1, hook, None),
                    &r.funds(1, &vec![]),
                );
                ensure!(!t.ok(), "{a:?} succeeded");
                ensure_eq!(c2.key(), base.key(), "state after {a:?}");
                cov.hit("refused");
                return Ok(Step::Same);
            }
            A1::Deliver(i) | A1::DeliverTwice(i) => {
                let f = &s.fly[*i];
                let c = f.to;
                let who = s.n.chains[c].user("relayer");
                let ch = &mut n.n.chains[c];
                let p = process_msg(&[1], &f.msg);
                let t = if matches!(a, A1::DeliverTwice(_)) {
                    let acct = probe(ch, |_| {});
                    ch.exec(
                        &who,
                        &acct,
                        &relay(&[emit(&s.n.mb[c], &p, true), emit(&s.n.mb[c], &p, true), emit(&s.n.mb[c], &p, true)]),
                        &[],
                    )
                } else {
                    ch.exec(&who, &s.n.mb[c], &p, &[])
                };
                let want = !f.delivered && !s.reject[c];
                if matches!(a, A1::Deliver(_)) {
                    ensure_eq!(t.ok(), want, "delivery ({})", t.err());
                }
                if want {
                    n.bal[c][f.user] += f.amount;
                    n.fly[*i].delivered = true;
                    cov.hit("delivered");
                } else {
                    if matches!(a, A1::Deliver(_)) {
                        ensure_eq!(ch.key(), s.n.chains[c].key(), "state after a refused delivery");
                    }
                    cov.hit(if f.delivered { "repeat refused" } else { "rejected" });
                }
            }
            A1::Forge(c, how) => {
                let o = (*c + 1) % self.kinds.len();
                let bob = h256(&s.n.chains[*c].user("mallory"));
                let b = body(&bob, &u256(3), b"");
                let ch = &mut n.n.chains[*c];
                let mallory = ch.user("mallory");
                let remote = h256(&s.n.r[o].addr);
                let mut m = Msg {
                    version: 3,
                    nonce: 1000,
                    origin: DOMS[o],
                    sender: remote,
                    dest: DOMS[*c],
                    recipient: h256(&s.n.r[*c].addr),
                    body: b.clone(),
                };
                let t = match how {
                    // call the route directly, as oneself or as the remote router
                    0 => ch.exec(&mallory, &s.n.r[*c].addr, &handle_msg(DOMS[o], &remote, &b), &[]),
                    // a message of a stranger
                    1 => {
                        m.sender = bob;
                        ch.exec(&mallory, &s.n.mb[*c], &process_msg(&[1], &m.enc()), &[])
                    }
                    // the local route itself as sender
                    2 => {
                        m.sender = h256(&s.n.r[*c].addr);
                        m.origin = DOMS[*c];
                        ch.exec(&mallory, &s.n.mb[*c], &process_msg(&[1], &m.enc()), &[])
                    }
                    // the remote router under another domain
                    3 => {
                        m.origin = DOMS[o] ^ 0x10;
                        ch.exec(&mallory, &s.n.mb[*c], &process_msg(&[1], &m.enc()), &[])
                    }
                    // not accepted by the security module
                    4 => {
                        m.sender = remote;
                        ch.exec(&mallory, &s.n.mb[*c], &process_msg(&[0], &m.enc()), &[])
                    }
                    // an existing message for another chain
                    _ => match s.fly.iter().find(|f| f.to != *c) {
                        Some(f) => ch.exec(&mallory, &s.n.mb[*c], &process_msg(&[1], &f.msg), &[]),
                        None => return Ok(Step::Same),
                    },
                };
                ensure!(!t.ok(), "forged delivery {how} succeeded");
                ensure_eq!(n.n.chains[*c].key(), s.n.chains[*c].key(), "state after a forged delivery");
                cov.hit("forgery refused");
                return Ok(Step::Same);
            }
            A1::Reject(c) => {
                n.reject[*c] = !s.reject[*c];
                let v = if n.reject[*c] { "reject" } else { "bytes" };
                reprobe(&mut n.n.chains[*c], &s.n.ism[*c], |p| p.verify = v.into());
            }
            A1::Local(c) => {
                // alice hands one token to bob
                if s.bal[*c][0] == 0 || s.bal[*c][1] == u128::MAX {
                    return Ok(Step::Same);
                }
                let (al, bo) = (s.n.users[*c][0].clone(), s.n.users[*c][1].clone());
                let r = &s.n.r[*c];
                let ch = &mut n.n.chains[*c];
                if r.kind.cw20 {
                    call(ch, &al, &r.token, json!({"transfer": {"recipient": bo, "amount": "1"}}))?;
                } else {
                    // through a relay contract at bob's
                    let acct = probe(ch, |_| {});
                    let _ = acct;
                    let mut b = (*ch.bank).clone();
                    *b.entry((al.as_str().into(), r.token.as_str().into())).or_default() -= 1;
                    *b.entry((bo.as_str().into(), r.token.as_str().into())).or_default() += 1;
                    ch.bank = Arc::new(b);
                }
                n.bal[*c][0] -= 1;
                n.bal[*c][1] += 1;
            }
            A1::Gift(c) | A1::Burn(c) => {
                let r = &s.n.r[*c];
                if s.bal[*c][0] == 0 || (matches!(a, A1::Burn(_)) && r.kind != KINDS[3]) {
                    return Ok(Step::Same);
                }
                let ch = &mut n.n.chains[*c];
                let al = s.n.users[*c][0].clone();
                if matches!(a, A1::Burn(_)) {
                    call(ch, &al, &r.token, json!({"burn": {"amount": "1"}}))?;
                    n.burnt[*c] += 1;
                    cov.hit("burnt outside");
                } else {
                    if r.kind.cw20 {
                        call(ch, &al, &r.token, json!({"transfer": {"recipient": r.addr, "amount": "1"}}))?;
                    } else {
                        let mut b = (*ch.bank).clone();
                        *b.entry((al.as_str().into(), r.token.as_str().into())).or_default() -= 1;
                        *b.entry((r.addr.as_str().into(), r.token.as_str().into())).or_default() += 1;
                        ch.bank = Arc::new(b);
                    }
                    n.gift[*c] += 1;
                    cov.hit("given outside");
                }
                n.bal[*c][0] -= 1;
            }
            A1::Token(c, x) => {
                let r = &s.n.r[*c];
                let ch = &mut n.n.chains[*c];
                let al = s.n.users[*c][0].clone();
                let mal = ch.user("mallory");
                let t = match x {
                    // nobody but the route mints
                    0 if r.kind.cw20 => ch.exec(&al, &r.token, &json!({"mint": {"recipient": al, "amount": "5"}}), &[]),
                    // nobody spends what belongs to the route
                    1 if r.kind.cw20 => ch.exec(
                        &mal,
                        &r.token,
                        &json!({"transfer_from": {"owner": r.addr, "recipient": mal, "amount": "1"}}),
                        &[],
                    ),
                    2 if r.kind.cw20 => ch.exec(
                        &mal,
                        &r.token,
                        &json!({"burn_from": {"owner": r.addr, "amount": "1"}}),
                        &[],
                    ),
                    // the route does not take tokens it was not asked to transfer
                    3 if r.kind.cw20 => ch.exec(
                        &mal,
                        &r.addr,
                        &transfer_msg(DOMS[(*c + 1) % self.kinds.len()], &[9; 32], 1, None, None),
                        &[],
                    ),
                    3 => ch.exec(
                        &al,
                        &r.addr,
                        &transfer_msg(DOMS[(*c + 1) % self.kinds.len()], &[9; 32], 1, None, None),
                        &[("fee", 5)],
                    ),
                    _ => return Ok(Step::Same),
                };
                ensure!(!t.ok(), "token operation {x} succeeded");
                ensure_eq!(n.n.chains[*c].key(), s.n.chains[*c].key(), "state");
                cov.hit("refused");
                return Ok(Step::Same);
            }
        }
        Ok(Step::Next(n))
    }
    fn check(&self, s: &S1, cov: &mut Cov) -> Res<()> {
        let mut locked = 0u128;
        let mut synth = 0u128;
        for (c, k) in self.kinds.iter().enumerate() {
            let r = &s.n.r[c];
            let ch = &s.n.chains[c];
            for (u, name) in s.n.users[c].iter().enumerate() {
                ensure_eq!(r.bal(ch, name), s.bal[c][u], "balance of user {u} on chain {c}");
            }
            if k.bridged {
                let sup = r.supply(ch);
                ensure_eq!(sup, s.bal[c].iter().sum::<u128>() + s.gift[c], "synthetic supply on chain {c}");
                ensure_eq!(r.bal(ch, &r.addr), s.gift[c], "synthetic tokens kept by the route");
                synth += sup + s.burnt[c];
            } else {
                locked += r.bal(ch, &r.addr) - s.gift[c].min(r.bal(ch, &r.addr));
            }
            // fees are nobody's business here
            ensure_eq!(ch.bal(&r.addr, "fee"), 0, "fees kept by the route");
        }
        let flying: u128 = s.fly.iter().filter(|f| !f.delivered).map(|f| f.amount).sum();
        ensure_eq!(
            locked,
            synth + flying,
            "locked collateral versus synthetic supply {synth} plus in flight {flying}"
        );
        cov.hit(if flying > 0 { "in flight" } else { "settled" });
        Ok(())
    }
    fn must_hit(&self) -> Vec<&'static str> {
        vec!["sent", "delivered", "repeat refused", "refused", "forgery refused", "in flight", "settled"]
    }
}

pub fn w01(c: &mut Ctx) {
    c.assume("hooks are probe contracts that charge nothing; security modules accept metadata starting with 1");
    let name = |k: &[Kind]| {
        k.iter()
            .map(|k| match (k.cw20, k.bridged) {
                (false, false) => "native collateral",
                (false, true) => "native synthetic",
                (true, false) => "cw20 collateral",
                (true, true) => "cw20 synthetic",
            })
            .collect::<Vec<_>>()
            .join(" / ")
    };
    for a in [0, 2] {
        for b in [1, 3] {
            let kinds = vec![KINDS[a], KINDS[b]];
            c.run(
                &format!("two chains, {}", name(&kinds)),
                &M1 {
                    kinds: kinds.clone(),
                    start: 10,
                    amounts: vec![4, 7],
                    full: true,
                    max_fly: 3,
                    users: Users::Plain,
                },
                c.pick(6, 7),
                20_000_000,
            );
            c.run(
                &format!("two chains, deep, {}", name(&kinds)),
                &M1 {
                    kinds: kinds.clone(),
                    start: 5,
                    amounts: vec![5],
                    full: false,
                    max_fly: 2,
                    users: Users::Plain,
                },
                c.pick(20, 28),
                20_000_000,
            );
            c.run(
                &format!("two chains, whole range, {}", name(&kinds)),
                &M1 {
                    kinds,
                    start: u128::MAX / 2,
                    amounts: vec![u128::MAX / 2, 1 << 64],
                    full: false,
                    max_fly: 3,
                    users: Users::Plain,
                },
                c.pick(9, 11),
                20_000_000,
            );
        }
    }
    // the users play parts of their own in the system
    for a in [0, 2] {
        for b in [1, 3] {
            for (users, what) in [(Users::Roles, "owner and relayer"), (Users::Contracts, "contracts")] {
                let kinds = vec![KINDS[a], KINDS[b]];
                c.run(
                    &format!("two chains, {what}, {}", name(&kinds)),
                    &M1 {
                        kinds,
                        start: 5,
                        amounts: vec![3],
                        full: true,
                        max_fly: 1,
                        users,
                    },
                    c.pick(6, 8),
                    20_000_000,
                );
            }
        }
    }
    for (a, b, d) in [(0, 1, 1), (2, 3, 1), (0, 3, 3)] {
        let kinds = vec![KINDS[a], KINDS[b], KINDS[d]];
        c.run(
            &format!("three chains, {}", name(&kinds)),
            &M1 {
                kinds,
                start: 6,
                amounts: vec![6],
                full: false,
                max_fly: 2,
                    users: Users::Plain,
            },
            c.pick(10, 13),
            20_000_000,
        );
    }
    // a long history: many transfers in flight, delivered out of order
    let mut v = vec![];
    for a in [0usize, 2] {
        for b in [1usize, 3] {
            for order in 0..3usize {
                v.push((a, b, order));
            }
        }
    }
    let rounds = c.pick(60usize, 400);
    c.cases(
        "many transfers delivered out of order",
        || Ok(()),
        v,
        &["delivered"],
        |_, (a, b, order), cov| {
            let m = M1 {
                kinds: vec![KINDS[*a], KINDS[*b]],
                start: 1_000_000,
                amounts: vec![1],
                full: false,
                max_fly: 1000,
                users: Users::Plain,
            };
            let mut s = m.init()?.remove(0).1;
            let mut go = |s: &mut S1, a: A1| -> Res<()> {
                let mut c: Cov = Default::default();
                if let Step::Next(n) = m.step(s, &a, &mut c)? {
                    m.check(&n, &mut c)?;
                    *s = n;
                }
                for (k, v) in c {
                    *cov.entry(k).or_default() += v;
                }
                Ok(())
            };
            for round in 0..3 {
                for i in 0..rounds {
                    let from = if round == 0 { 0 } else { (i + round) % 2 };
                    let amount = if from == 0 { 1 + (i * i) as u128 % 977 } else { 1 + i as u128 % 3 };
                    let u = i % 2;
                    if s.bal[from][u] >= amount {
                        go(&mut s, A1::Transfer(from, u, 1 - from, (i / 2) % 2, amount))?;
                    }
                }
                let n = s.fly.len();
                for k in 0..n {
                    let i = match order {
                        0 => k,
                        1 => n - 1 - k,
                        _ => (k * 7 + 3) % n,
                    };
                    if !s.fly[i].delivered {
                        go(&mut s, A1::Deliver(i))?;
                    }
                }
                for i in 0..n {
                    if i % 5 == 0 && s.fly[i].delivered {
                        go(&mut s, A1::Deliver(i))?;
                    }
                }
            }
            Ok(m.key(&s))
        },
    );
}
