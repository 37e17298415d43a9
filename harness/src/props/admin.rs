//! C15 ownership, C16 administrative operations, C28 migration.
use super::igp::gas_data;
use super::isms::gen_domains;
use super::{Prop, SIM};
use crate::chain::Chain;
use crate::codes::*;
use crate::engine::{Sub, G};
use crate::world::*;
use cosmwasm_std::Storage;
use std::cmp::Ordering;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            assumptions: vec![SIM],
            subs: vec![Sub { name: "ownership-history", cases: (160_000, 600_000), rule: "the ownership was handed over, an offer was revoked, and an attempt was refused", run: c15 }],
        },
        Prop {
            id: "C16",
            assumptions: vec![SIM],
            subs: vec![Sub { name: "operations-by-role", cases: (160_000, 600_000), rule: "the owner changed something, and someone who is not the owner but has or had a role was refused", run: c16 }],
        },
        Prop {
            id: "C28",
            assumptions: vec![SIM],
            subs: vec![
                Sub { name: "contracts", cases: (180_000, 400_000), rule: "the stored name is its own and the version is well-formed but not the usual one", run: c28 },
                Sub { name: "helper", cases: (360_000, 1_000_000), rule: "both versions are well-formed and one has a pre-release or build part", run: c28_helper },
            ],
        },
    ]
}

/// Contracts that have an owner.
pub const OWNED: [usize; 15] = [
    MAILBOX, HOOK_FEE, HOOK_PAUSABLE, HOOK_ROUTING, HOOK_CUSTOM, HOOK_FALLBACK, HOOK_AGGREGATE, IGP, ORACLE, ISM_MULTISIG, ISM_ROUTING, ISM_AGGREGATE,
    ISM_PAUSABLE, WARP_CW20, WARP_NATIVE,
];

/// One contract with what it needs around it.
pub struct Rig {
    pub code: usize,
    pub addr: String,
    /// mailbox the contract is connected to (mock hooks and module), if any
    pub mailbox: Option<String>,
    pub beneficiary: String,
}

pub fn deploy(g: &mut G, c: &Chain, code: usize, deployer: &str, owner: &str) -> Rig {
    let admin = c.acc("mailbox-owner");
    let needs = matches!(code, VA | HOOK_MERKLE | WARP_CW20 | WARP_NATIVE);
    let mailbox = needs.then(|| full_mailbox(c, &admin, 7).0);
    let m = mailbox.clone().unwrap_or_default();
    let beneficiary = c.acc("beneficiary");
    let accounts = |g: &mut G| -> Vec<String> { (0..1 + g.idx(3)).map(|_| gen_account(g, c)).collect() };
    let domains = gen_domains(g, 2);
    let cw20 = if code == WARP_CW20 { c.make(CW20, deployer, json!({"name": "token", "symbol": "TOK", "decimals": 6, "initial_balances": []})) } else { String::new() };
    odd_address(g, c);
    let msg = match code {
        MAILBOX => json!({"hrp": c.hrp(), "owner": owner, "domain": g.domain()}),
        VA => json!({"hrp": c.hrp(), "mailbox": m}),
        HOOK_MERKLE => json!({"mailbox": m}),
        HOOK_FEE => json!({"owner": owner, "fee": jcoin(&coin(g.amount(u128::MAX), "uatom"))}),
        HOOK_PAUSABLE | ISM_PAUSABLE => json!({"owner": owner, "paused": g.bool()}),
        HOOK_AGGREGATE => json!({"owner": owner, "hooks": accounts(g)}),
        IGP => {
            let addr = c_new_igp(c, deployer, owner, &beneficiary, g.amount(1 << 80));
            return Rig { code, addr, mailbox, beneficiary };
        }
        ISM_ROUTING => json!({"owner": owner, "isms": accounts(g).iter().zip(&domains).map(|(a, d)| json!({"domain": d, "address": a})).collect::<Vec<_>>()}),
        ISM_AGGREGATE => {
            let a = accounts(g);
            json!({"owner": owner, "threshold": 1 + g.idx(a.len()), "isms": a})
        }
        WARP_CW20 => {
            let token = if g.bool() { json!({"collateral": {"address": cw20}}) } else { json!({"bridged": {"code_id": CW20, "init_msg": {"name": "token", "symbol": "TOK", "decimals": 6, "initial_balances": []}}}) };
            json!({"token": token, "hrp": c.hrp(), "owner": owner, "mailbox": m})
        }
        WARP_NATIVE => {
            let token = if g.bool() { json!({"collateral": {"denom": "uatom"}}) } else { json!({"bridged": {"denom": "tok", "metadata": null}}) };
            json!({"token": token, "hrp": c.hrp(), "owner": owner, "mailbox": m})
        }
        _ => json!({"owner": owner}),
    };
    Rig { code, addr: c.make(code, deployer, msg), mailbox, beneficiary }
}

fn c_new_igp(c: &Chain, deployer: &str, owner: &str, beneficiary: &str, gas: u128) -> String {
    c.make(IGP, deployer, json!({"hrp": c.hrp(), "owner": owner, "gas_token": "uatom", "beneficiary": beneficiary, "default_gas_usage": gas.to_string()}))
}

pub fn ownable(code: usize, m: V) -> V {
    if code == ORACLE {
        json!({"ownership": m})
    } else {
        json!({"ownable": m})
    }
}

type Effect = Box<dyn Fn(&Chain) -> Result<(), String>>;

/// A valid administrative request, with the check that it took effect.
pub struct Op {
    pub msg: V,
    pub effect: Effect,
}

/// Expects a query to have the answer (`None`: to fail or report nothing under `key`).
fn shows(addr: &str, query: V, key: &'static str, want: Option<V>) -> Effect {
    let a = addr.to_string();
    Box::new(move |c| {
        let got = c.q(&a, query.clone());
        match (&want, got) {
            (Some(w), Ok(v)) => check_eq!(if key.is_empty() { v.clone() } else { v[key].clone() }, w.clone(), "answer to {query}"),
            (Some(w), Err(e)) => return Err(format!("{query} fails ({e}) instead of reporting {w}")),
            (None, Ok(v)) => check!(v[key].is_null() || v[key].as_array().is_some_and(|l| l.is_empty()), "{query} still reports {v}"),
            (None, Err(_)) => {}
        }
        Ok(())
    })
}

fn all(v: Vec<Effect>) -> Effect {
    Box::new(move |c| v.iter().try_for_each(|f| f(c)))
}

/// A number below `n`, sometimes far above.
fn some(g: &mut G, n: usize) -> usize {
    if g.chance(1, 6) { n + g.idx(36) } else { g.idx(n) }
}

/// Distinct domains other than the given ones, mostly none.
fn more(g: &mut G, not: &[u32]) -> Vec<u32> {
    let n = if g.chance(1, 4) { g.idx(40) } else { 0 };
    let mut out = vec![];
    for _ in 0..n {
        let d = g.domain();
        if !not.contains(&d) && !out.contains(&d) {
            out.push(d);
        }
    }
    out
}

pub fn gen_op(g: &mut G, c: &Chain, rig: &Rig, domains: &[u32]) -> Op {
    let a = rig.addr.clone();
    let who = gen_account(g, c);
    let d = *g.pick(domains);
    let router = matches!(rig.code, HOOK_ROUTING | HOOK_CUSTOM | HOOK_FALLBACK | IGP | WARP_CW20 | WARP_NATIVE);
    if router && g.chance(1, 3) {
        let hex = matches!(rig.code, WARP_CW20 | WARP_NATIVE);
        let route = |g: &mut G| {
            if g.chance(1, 5) {
                V::Null
            } else if hex {
                json!(hx(&gen_wire(g)))
            } else {
                json!(gen_account(g, c))
            }
        };
        let n = if g.bool() { 1 } else { domains.len() };
        let set: Vec<(u32, V)> = if n == 1 { vec![(d, route(g))] } else { domains.iter().cloned().chain(more(g, domains)).map(|d| (d, route(g))).collect() };
        let j: Vec<V> = set.iter().map(|(d, r)| json!({"domain": d, "route": r})).collect();
        let effect = all(j.iter().map(|r| shows(&a, json!({"router": {"get_route": {"domain": r["domain"]}}}), "route", Some(r.clone()))).collect());
        let msg = if n == 1 { json!({"router": {"set_route": {"set": j[0]}}}) } else { json!({"router": {"set_routes": {"set": j}}}) };
        return Op { msg, effect };
    }
    let (msg, effect): (V, Effect) = match rig.code {
        MAILBOX => match g.below(3) {
            0 => (json!({"set_default_ism": {"ism": who}}), shows(&a, json!({"mailbox": {"default_ism": {}}}), "default_ism", Some(json!(who)))),
            1 => (json!({"set_default_hook": {"hook": who}}), shows(&a, json!({"mailbox": {"default_hook": {}}}), "default_hook", Some(json!(who)))),
            _ => (json!({"set_required_hook": {"hook": who}}), shows(&a, json!({"mailbox": {"required_hook": {}}}), "required_hook", Some(json!(who)))),
        },
        HOOK_FEE => {
            if g.bool() {
                let fee = jcoin(&coin(g.amount(u128::MAX), g.pick::<&str>(&["uatom", "uosmo"])));
                (json!({"fee_hook": {"set_fee": {"fee": fee}}}), shows(&a, json!({"fee_hook": {"fee": {}}}), "fee", Some(fee)))
            } else {
                if c.balances(&a).is_empty() {
                    c.mint(&a, "uatom", 1 + g.amount(1 << 60));
                }
                let (held, had) = (c.bag(&a), c.bag(&who));
                let to = who.clone();
                (
                    json!({"fee_hook": {"claim": {"recipient": who}}}),
                    Box::new(move |c| {
                        let mut want = had.clone();
                        bag_add(&mut want, &held);
                        check_eq!(c.bag(&to), want, "holdings of the recipient of a claim");
                        check!(c.balances(&a).is_empty(), "the hook kept fees");
                        Ok(())
                    }),
                )
            }
        }
        HOOK_PAUSABLE | ISM_PAUSABLE => {
            let q = json!({"pausable": {"pause_info": {}}});
            let paused = c.q(&a, q.clone()).ok().and_then(|v| v["paused"].as_bool()).unwrap_or(false);
            (if paused { json!({"pausable": {"release": {}}}) } else { json!({"pausable": {"pause": {}}}) }, shows(&a, q, "paused", Some(json!(!paused))))
        }
        HOOK_ROUTING => {
            let r = json!({"domain": d, "route": who});
            (json!({"router": {"set_route": {"set": r}}}), shows(&a, json!({"router": {"get_route": {"domain": d}}}), "route", Some(r.clone())))
        }
        HOOK_CUSTOM => {
            let n = 1 + some(g, 3);
            let rs: Vec<String> = (0..n).map(|_| hx(&gen_wire(g))).collect();
            let q = |r: &str| json!({"custom_routing_hook": {"custom_hook": {"dest_domain": d, "recipient": r}}});
            let reg: Vec<V> = rs.iter().map(|r| json!({"dest_domain": d, "recipient": r, "hook": who})).collect();
            match g.below(4) {
                0 => (json!({"register_custom_hook": reg[0]}), shows(&a, q(&rs[0]), "hook", Some(json!(who)))),
                1 => (json!({"register_custom_hooks": reg}), all(rs.iter().map(|r| shows(&a, q(r), "hook", Some(json!(who)))).collect())),
                k => {
                    // something to clear: an existing entry, if there is one
                    let have = c.q(&a, json!({"custom_routing_hook": {"custom_hooks": {"dest_domain": d, "offset": null, "limit": null, "order": null}}}));
                    let mut rs = rs;
                    if let Some(l) = have.ok().and_then(|v| v["custom_hooks"].as_array().cloned()) {
                        for (i, h) in l.iter().take(n).enumerate() {
                            rs[i] = h["recipient"].as_str().unwrap_or_default().to_string();
                        }
                    }
                    let clr: Vec<V> = rs.iter().map(|r| json!({"dest_domain": d, "recipient": r})).collect();
                    if k == 2 {
                        (json!({"clear_custom_hook": clr[0]}), shows(&a, q(&rs[0]), "hook", None))
                    } else {
                        (json!({"clear_custom_hooks": clr}), all(rs.iter().map(|r| shows(&a, q(r), "hook", None)).collect()))
                    }
                }
            }
        }
        HOOK_FALLBACK => {
            // observed by asking for the price of an unrouted domain
            let fee = coin(1 + g.amount(1 << 70), "uosmo");
            let h = c.mock(&Cfg { quote: vec![fee.clone()], ..Default::default() });
            let free = domains.iter().fold(1, |a: u32, b| a ^ b.rotate_left(7));
            let msg = crate::refs::RefMsg { version: 3, nonce: 0, origin: 1, sender: g.bytes32(), dest: free, recipient: g.bytes32(), body: vec![] }.encode();
            (
                json!({"set_fallback_hook": {"hook": h}}),
                Box::new(move |c| {
                    if domains_contain(c, &a, free) {
                        return Ok(());
                    }
                    check_eq!(quote_hook(c, &a, &[], &msg), Ok(vec![fee.clone()]), "quote of the fallback hook");
                    Ok(())
                }),
            )
        }
        HOOK_AGGREGATE => {
            let n = some(g, 4);
            let h: Vec<String> = (0..n).map(|_| gen_account(g, c)).collect();
            (json!({"set_hooks": {"hooks": h}}), shows(&a, json!({"aggregate_hook": {"hooks": {}}}), "hooks", Some(json!(h))))
        }
        IGP => {
            let v = g.amount(u128::MAX).to_string();
            let q = json!({"igp": {"gas_for_domain": {"domains": [d]}}});
            match g.below(4) {
                0 => (json!({"set_default_gas": {"gas": v}}), shows(&a, json!({"igp": {"default_gas": {}}}), "gas", Some(json!(v)))),
                1 => (json!({"set_gas_for_domain": {"config": more(g, domains).into_iter().map(|x| (x, g.below(9).to_string())).chain([(d, v.clone())]).collect::<Vec<_>>()}}), shows(&a, q, "gas", Some(json!([[d, v]])))),
                2 => (json!({"unset_gas_for_domain": {"domains": more(g, domains).into_iter().chain([d]).collect::<Vec<_>>()}}), shows(&a, q, "gas", None)),
                _ => {
                    let b = if g.bool() { rig.beneficiary.clone() } else { who };
                    (json!({"set_beneficiary": {"beneficiary": b}}), shows(&a, json!({"igp": {"beneficiary": {}}}), "beneficiary", Some(json!(b))))
                }
            }
        }
        ORACLE => {
            let n = 1 + g.idx(domains.len());
            let long = if n > 1 { more(g, domains) } else { vec![] };
            let cfg: Vec<(u32, u128, u128)> = domains[..n].iter().cloned().chain(long).map(|d| (d, 1 + g.amount(u128::MAX - 1), g.amount(u128::MAX))).collect();
            let j: Vec<V> = cfg.iter().map(|(d, r, p)| gas_data(*d, *r, *p)).collect();
            (
                if n == 1 { json!({"set_remote_gas_data": {"config": j[0]}}) } else { json!({"set_remote_gas_data_configs": {"configs": j}}) },
                all(cfg
                    .iter()
                    .map(|(d, r, p)| shows(&a, json!({"oracle": {"get_exchange_rate_and_gas_price": {"dest_domain": d}}}), "", Some(json!({"gas_price": p.to_string(), "exchange_rate": r.to_string()}))))
                    .collect()),
            )
        }
        ISM_MULTISIG => {
            let q = json!({"multisig_ism": {"enrolled_validators": {"domain": d}}});
            if g.chance(1, 3) {
                (json!({"unset_domain": {"domain": d}}), shows(&a, q, "validators", None))
            } else {
                let n = 1 + some(g, 5);
                let v: Vec<String> = (0..n).map(|i| hx(&{ let mut b = g.bytes(20); b[0] = i as u8; b })).collect();
                let t = 1 + g.idx(n);
                (
                    json!({"set_validators": {"domain": d, "threshold": t, "validators": v}}),
                    all(vec![shows(&a, q.clone(), "threshold", Some(json!(t))), shows(&a, q, "validators", Some(json!(v)))]),
                )
            }
        }
        ISM_ROUTING => {
            let msg = crate::refs::RefMsg { version: 3, nonce: 0, origin: d, sender: g.bytes32(), dest: 1, recipient: g.bytes32(), body: vec![] }.encode();
            let q = json!({"routing_ism": {"route": {"message": hx(&msg)}}});
            if g.chance(1, 3) {
                (json!({"unset": {"domains": more(g, domains).into_iter().chain([d]).collect::<Vec<_>>()}}), shows(&a, q, "ism", None))
            } else {
                (json!({"set": {"ism": {"domain": d, "address": who}}}), shows(&a, q, "ism", Some(json!(who))))
            }
        }
        ISM_AGGREGATE => {
            let n = 1 + some(g, 4);
            let v: Vec<String> = (0..n).map(|_| gen_account(g, c)).collect();
            let t = 1 + g.idx(n);
            (json!({"set_isms": {"isms": v, "threshold": t}}), shows(&a, json!({"aggregate_ism": {"isms": {}}}), "", Some(json!({"isms": v, "threshold": t}))))
        }
        WARP_CW20 | WARP_NATIVE => {
            let k = *g.pick(&["mailbox", "ism", "hook"]);
            (json!({"connection": {format!("set_{k}"): {k: who}}}), shows(&a, json!({"connection": {format!("get_{k}"): {}}}), k, Some(json!(who))))
        }
        c => unreachable!("harness: code {c}"),
    };
    Op { msg, effect }
}

/// Replaces one of the addresses in a request by something that is no address.
fn spoil(g: &mut G, c: &Chain, v: &mut V) -> bool {
    fn places<'a>(c: &Chain, v: &'a mut V, out: &mut Vec<&'a mut V>) {
        match v {
            V::Array(l) => l.iter_mut().for_each(|x| places(c, x, out)),
            V::Object(m) => m.iter_mut().for_each(|(_, x)| places(c, x, out)),
            V::String(s) if crate::refs::acc_bytes(c.hrp(), s).is_some() => out.push(v),
            _ => {}
        }
    }
    let mut at = vec![];
    places(c, v, &mut at);
    if at.is_empty() {
        return false;
    }
    let i = g.idx(at.len());
    *at[i] = json!(super::init::bad_address(g, c));
    true
}

/// Every address that appears in the storage of a contract.
fn mentioned(c: &Chain, a: &str) -> std::collections::BTreeSet<String> {
    let mut out = std::collections::BTreeSet::new();
    for (_, v) in c.store_of(a) {
        for w in String::from_utf8_lossy(&v).split(|x: char| !x.is_ascii_alphanumeric()) {
            if crate::refs::acc_bytes(c.hrp(), w).is_some() {
                out.insert(w.to_string());
            }
        }
    }
    out
}

fn domains_contain(c: &Chain, a: &str, d: u32) -> bool {
    c.q(a, json!({"router": {"domains": {}}})).is_ok_and(|v| v["domains"].as_array().is_some_and(|l| l.contains(&json!(d))))
}

fn check_owner(c: &Chain, a: &str, own: &str, pending: Option<&String>) -> Result<(), String> {
    check_eq!(owner(c, a)?, own, "owner query");
    check_eq!(pending_owner(c, a)?.as_ref(), pending, "pending owner query");
    Ok(())
}

// ---------------------------------------------------------------- C15

fn c15(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let code = *g.pick(&OWNED);
    let deployer = c.acc("deployer");
    let mut own = if g.chance(1, 4) { deployer.clone() } else { gen_account(g, &c) };
    let rig = deploy(g, &c, code, &deployer, &own);
    let a = rig.addr.clone();
    g.log(|| format!("{} with owner {own}", CODES[code].name));
    let domains = gen_domains(g, 2);
    let mut accounts: Vec<String> = vec![own.clone(), gen_account(g, &c), gen_account(g, &c), deployer, a.clone()];
    if let Some(m) = &rig.mailbox {
        accounts.push(m.clone());
    }
    // an account whose address is one bit away from the first owner's
    let mut near = crate::refs::acc_bytes(c.hrp(), &own).unwrap();
    let k = g.idx(near.len());
    near[k] ^= 2;
    accounts.push(c.addr(&near));
    let mut pending: Option<String> = None;
    check_owner(&c, &a, &own, None)?;
    let (mut moved, mut revoked, mut refused) = (0, 0, 0);
    let ops = g.list(14, 50, |g| (g.weighted(&[5, 3, 5, 2]), g.bool()));
    for (op, helpful) in ops {
        // half of the attempts are made by the account that may make them
        let mut who = g.pick(&accounts).clone();
        if helpful {
            who = if op == 2 { pending.clone().unwrap_or(who) } else { own.clone() };
        }
        let before = c.state();
        let allowed = match op {
            0 => {
                let invalid = g.chance(1, 6);
                let next = if invalid { g.pick::<&str>(&["", "x", "cosmos1invalid", "OWNER"]).to_string() } else { g.pick(&accounts).clone() };
                let r = c.x(&who, &a, ownable(code, json!({"init_ownership_transfer": {"next_owner": next}})), &[]);
                g.log(|| format!("{who} offers the ownership to {next}: {}", short_err(&r)));
                let may = who == own && pending.is_none() && !invalid;
                check_eq!(r.is_ok(), may, "success of an offer by {who} to {next} (owner {own}, pending {pending:?}): {}", short_err(&r));
                if may {
                    pending = Some(next);
                }
                may
            }
            1 => {
                let r = c.x(&who, &a, ownable(code, json!({"revoke_ownership_transfer": {}})), &[]);
                g.log(|| format!("{who} revokes the offer: {}", short_err(&r)));
                let may = who == own && pending.is_some();
                check_eq!(r.is_ok(), may, "success of a revocation by {who} (owner {own}, pending {pending:?}): {}", short_err(&r));
                if may {
                    pending = None;
                    revoked += 1;
                }
                may
            }
            2 => {
                let r = c.x(&who, &a, ownable(code, json!({"claim_ownership": {}})), &[]);
                g.log(|| format!("{who} claims: {}", short_err(&r)));
                let may = pending.as_ref() == Some(&who);
                check_eq!(r.is_ok(), may, "success of a claim by {who} (owner {own}, pending {pending:?}): {}", short_err(&r));
                if may {
                    moved += (own != who) as u32;
                    own = who.clone();
                    pending = None;
                }
                may
            }
            _ => {
                // other administration does not touch the ownership
                let o = gen_op(g, &c, &rig, &domains);
                let before = c.state();
                let r = c.x(&who, &a, o.msg.clone(), &[]);
                g.log(|| format!("{who} sends {}: {}", o.msg, short_err(&r)));
                if r.is_err() {
                    c.unchanged(&before, "a refused operation")?;
                }
                check_owner(&c, &a, &own, pending.as_ref())?;
                continue;
            }
        };
        if !allowed {
            c.unchanged(&before, "a refused attempt")?;
            refused += 1;
        }
        check_owner(&c, &a, &own, pending.as_ref())?;
    }
    if moved > 0 && revoked > 0 && refused > 0 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

fn c16(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let code = *g.pick(&OWNED);
    let deployer = c.acc("deployer");
    let mut own = gen_account(g, &c);
    let rig = deploy(g, &c, code, &deployer, &own);
    let a = rig.addr.clone();
    g.log(|| format!("{} with owner {own}", CODES[code].name));
    let domains = gen_domains(g, 3);
    let mut accounts: Vec<String> = (0..3).map(|_| gen_account(g, &c)).collect();
    accounts.push(own.clone());
    let mut former: Vec<String> = vec![];
    let mut pending: Option<String> = None;
    let mut beneficiary = rig.beneficiary.clone();
    if code == IGP {
        c.mint(&a, "uatom", 1 + g.amount(1 << 90));
    }
    let mut near = crate::refs::acc_bytes(c.hrp(), &own).unwrap();
    let k = g.idx(near.len());
    near[k] ^= 2;
    let near = c.addr(&near);
    let (mut done, mut refused) = (0, 0);
    let ops = g.list(9, 40, |g| g.weighted(&[5, 5, 2, 1, if code == IGP { 3 } else { 0 }]));
    for op in ops {
        match op {
            0 | 1 => {
                let o = gen_op(g, &c, &rig, &domains);
                let (who, role) = if op == 0 {
                    (own.clone(), 0)
                } else {
                    match g.below(12) {
                        9 | 10 => {
                            // an account the contract has been told about
                            let known: Vec<String> = mentioned(&c, &a).into_iter().filter(|x| *x != own).collect();
                            if known.is_empty() { (deployer.clone(), 2) } else { (g.pick(&known).clone(), 2) }
                        }
                        11 => {
                            // an account the request itself names
                            let text = o.msg.to_string();
                            let named: Vec<String> = text.split('"').filter(|x| crate::refs::acc_bytes(c.hrp(), x).is_some() && **x != own).map(|x| x.to_string()).collect();
                            if named.is_empty() { (deployer.clone(), 2) } else { (g.pick(&named).clone(), 2) }
                        }
                        0 => (gen_account(g, &c), 1),
                        1 => (deployer.clone(), 2),
                        2 => (former.last().cloned().unwrap_or_else(|| deployer.clone()), 2),
                        3 | 4 => (pending.clone().unwrap_or_else(|| deployer.clone()), 2),
                        5 => (a.clone(), 2),
                        6 => (rig.mailbox.clone().unwrap_or_else(|| c.acc("mailbox-owner")), 2),
                        7 => (if code == IGP { beneficiary.clone() } else { c.acc("mailbox-owner") }, 2),
                        _ => (near.clone(), 2),
                    }
                };
                let before = c.state();
                if who == own && g.chance(1, 6) {
                    // routes and the recipient of a claim are the owner's to get right
                    let mut bad = o.msg.clone();
                    if bad["router"].is_null() && bad["fee_hook"].is_null() && spoil(g, &c, &mut bad) {
                        let r = c.x(&who, &a, bad.clone(), &[]);
                        g.log(|| format!("{who}: {bad} -> {}", short_err(&r)));
                        check!(r.is_err(), "{bad} was accepted");
                        c.unchanged(&before, "a refused operation")?;
                        continue;
                    }
                }
                let r = c.x(&who, &a, o.msg.clone(), &[]);
                g.log(|| format!("{who}: {} -> {}", o.msg, short_err(&r)));
                if who == own {
                    let _ = r.map_err(|e| format!("the owner's request {} was refused: {e}", o.msg))?;
                    (o.effect)(&c)?;
                    done += 1;
                    if let Some(b) = o.msg["set_beneficiary"]["beneficiary"].as_str() {
                        beneficiary = b.into();
                    }
                } else {
                    check!(r.is_err(), "{} accepted from {who}, the owner is {own} (pending {pending:?}, deployer {deployer}, former {former:?})", o.msg);
                    c.unchanged(&before, "a refused operation")?;
                    refused += (role == 2) as u32;
                }
            }
            2 => match &pending {
                None => {
                    let next = if g.chance(1, 4) { deployer.clone() } else { g.pick(&accounts).clone() };
                    c.ok(&own, &a, ownable(code, json!({"init_ownership_transfer": {"next_owner": next}})));
                    g.log(|| format!("offered to {next}"));
                    pending = Some(next);
                }
                Some(p) => {
                    c.ok(p, &a, ownable(code, json!({"claim_ownership": {}})));
                    g.log(|| format!("claimed by {p}"));
                    if *p != own {
                        former.push(own.clone());
                    }
                    own = p.clone();
                    pending = None;
                }
            },
            3 => {
                if pending.is_some() {
                    c.ok(&own, &a, ownable(code, json!({"revoke_ownership_transfer": {}})));
                    former.push(pending.take().unwrap());
                    g.log(|| "offer revoked".into());
                }
            }
            _ => {
                // the paymaster's earnings go to the beneficiary only
                let who = match g.below(4) {
                    0 => beneficiary.clone(),
                    1 => own.clone(),
                    2 => rig.beneficiary.clone(),
                    _ => g.pick(&accounts).clone(),
                };
                if c.balances(&a).is_empty() {
                    c.mint(&a, "uatom", 1 + g.amount(1 << 90));
                }
                let before = c.state();
                let (held, had) = (c.balance(&a, "uatom"), c.balance(&who, "uatom"));
                let r = c.x(&who, &a, json!({"claim": {}}), &[]);
                g.log(|| format!("{who} claims {held}: {}", short_err(&r)));
                if who == beneficiary {
                    let _ = r.map_err(|e| format!("the beneficiary's claim was refused: {e}"))?;
                    check_eq!(c.balance(&who, "uatom"), had + held, "holdings of the beneficiary");
                    check_eq!(c.balance(&a, "uatom"), 0, "what the paymaster kept");
                } else {
                    check!(r.is_err(), "{who} claimed the earnings of {beneficiary}");
                    c.unchanged(&before, "a refused claim")?;
                }
            }
        }
    }
    if done > 0 && refused > 0 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C28

/// A semantic version (semver.org 2.0.0), `None` if malformed.
#[derive(Clone, Debug)]
struct Ver {
    core: [u64; 3],
    pre: Vec<String>,
    build: bool,
}

fn parse_ver(s: &str) -> Option<Ver> {
    let ident = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-');
    let number = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) && (s == "0" || !s.starts_with('0'));
    let (s, build) = match s.split_once('+') {
        Some((s, b)) => (s, Some(b)),
        None => (s, None),
    };
    if let Some(b) = build {
        if !b.split('.').all(ident) {
            return None;
        }
    }
    let (s, pre) = match s.split_once('-') {
        Some((s, p)) => (s, Some(p)),
        None => (s, None),
    };
    let pre: Vec<String> = pre.map(|p| p.split('.').map(|v| v.to_string()).collect()).unwrap_or_default();
    if !pre.iter().all(|p| ident(p) && (!p.bytes().all(|b| b.is_ascii_digit()) || number(p))) {
        return None;
    }
    let c: Vec<&str> = s.split('.').collect();
    if c.len() != 3 || !c.iter().all(|n| number(n)) {
        return None;
    }
    let mut core = [0; 3];
    for (o, n) in core.iter_mut().zip(c) {
        *o = n.parse().ok()?;
    }
    Some(Ver { core, pre, build: build.is_some() })
}

/// Precedence by the specification (build parts ignored).
fn precedence(a: &Ver, b: &Ver) -> Ordering {
    a.core.cmp(&b.core).then_with(|| match (a.pre.is_empty(), b.pre.is_empty()) {
        (true, true) => Ordering::Equal,
        (true, false) => Ordering::Greater,
        (false, true) => Ordering::Less,
        _ => {
            for (x, y) in a.pre.iter().zip(&b.pre) {
                let num = |s: &str| s.bytes().all(|b| b.is_ascii_digit());
                let o = match (num(x), num(y)) {
                    (true, true) => x.len().cmp(&y.len()).then_with(|| x.cmp(y)),
                    (true, false) => Ordering::Less,
                    (false, true) => Ordering::Greater,
                    _ => x.cmp(y),
                };
                if o != Ordering::Equal {
                    return o;
                }
            }
            a.pre.len().cmp(&b.pre.len())
        }
    })
}

fn gen_ver(g: &mut G, base: &Ver) -> String {
    let mut core = base.core;
    for i in 0..3 {
        match g.below(5) {
            0 => core[i] = core[i].wrapping_sub(1).min(1 << 40),
            1 => core[i] += 1,
            2 => core[i] = *g.pick(&[0, 1, 2, 7, 8, 10, 99, 1 << 33, u64::MAX]),
            _ => {}
        }
    }
    let ident = |g: &mut G| match g.below(4) {
        0 => g.below(12).to_string(),
        1 => g.pick::<&str>(&["rc", "rc8", "rc10", "alpha", "beta", "a-b", "-", "0a", "RC", "99999999999999999999999"]).to_string(),
        _ => g.pick::<&str>(&["rc1", "1", "x"]).to_string(),
    };
    let mut s = format!("{}.{}.{}", core[0], core[1], core[2]);
    if g.chance(1, 3) {
        let n = 1 + g.idx(3);
        s += &format!("-{}", (0..n).map(|_| ident(g)).collect::<Vec<_>>().join("."));
    }
    if g.chance(1, 5) {
        let n = 1 + g.idx(2);
        s += &format!("+{}", (0..n).map(|_| ident(g)).collect::<Vec<_>>().join("."));
    }
    if g.chance(1, 5) {
        // damage
        let i = g.idx(s.len() + 1);
        match g.below(3) {
            0 if i < s.len() => {
                s.remove(i);
            }
            1 => s.insert(i, *g.pick(&['.', '-', '+', '0', ' ', 'v', 'é'])),
            _ => s = g.pick::<&str>(&["", "0", "0.0", "0.0.6.1", "v0.0.6", "0.0.06", "latest", "0.0.6-", "0.0.6+", " 0.0.6", "0.0.6\n", "*", "0.0.x", "18446744073709551616.0.0"]).to_string(),
        }
    }
    s
}

fn c28(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let (code, package) = *g.pick(&REPO);
    let deployer = c.acc("deployer");
    let own = c.acc("owner");
    let rig = deploy(g, &c, code, &deployer, &own);
    let a = rig.addr.clone();
    let info = |c: &Chain| -> Result<(String, String), String> {
        let raw = c.raw(&a, b"contract_info").ok_or("no contract info")?;
        let v: V = serde_json::from_slice(&raw).map_err(|e| e.to_string())?;
        Ok((v["contract"].as_str().unwrap_or("").into(), v["version"].as_str().unwrap_or("").into()))
    };
    let (name, version) = info(&c)?;
    check_eq!(name, package, "recorded contract name");
    let new = parse_ver(&version).ok_or("the code's own version is malformed")?;
    // some history
    if OWNED.contains(&code) {
        let domains = gen_domains(g, 2);
        for _ in 0..g.below(4) {
            let o = gen_op(g, &c, &rig, &domains);
            c.ok(&own, &a, o.msg);
        }
        if g.chance(1, 4) {
            c.ok(&own, &a, ownable(code, json!({"init_ownership_transfer": {"next_owner": deployer}})));
        }
    }
    for _ in 0..g.below(3) {
        let (k, v) = (g.blob(20), g.blob(40));
        if !k.is_empty() && k != b"contract_info" {
            c.set_raw(&a, &k, Some(v));
        }
    }
    let stored_name = match g.below(8) {
        0 => REPO[g.idx(REPO.len())].1.to_string(),
        1 => g.pick::<String>(&[String::new(), format!("crates.io:{name}"), format!("{name} "), name.to_uppercase(), name.replace('-', "_"), name[1..].to_string(), name[..name.len() - 1].to_string()]).clone(),
        _ => name.clone(),
    };
    let mut stored = gen_ver(g, &new);
    if g.chance(1, 3) {
        stored = g.pick::<String>(&["0.0.6".into(), "0.0.6-rc8".into(), version.clone(), format!("{version}-rc0"), format!("{version}+b"), "0.0.10".into(), "0.1.0".into()]).clone();
    }
    match g.below(12) {
        0 => c.set_raw(&a, b"contract_info", None),
        1 => {
            let bad = g.pick::<&[u8]>(&[b"", b"{}", b"null", b"{\"contract\":\"hpl-mailbox\"}", b"\"0.0.1\""]).to_vec();
            c.set_raw(&a, b"contract_info", Some(bad))
        }
        k => {
            c.set_raw(&a, b"contract_info", Some(json!({"contract": stored_name, "version": stored}).to_string().into_bytes()));
            let old = parse_ver(&stored);
            let may = stored_name == name && old.as_ref().is_some_and(|o| precedence(o, &new) == Ordering::Less);
            g.label(if may { "upgrade" } else if old.is_none() { "malformed" } else { "not older or other name" });
            let before = c.state();
            let mut want = c.store_of(&a);
            let r = c.migrate(&a);
            g.log(|| format!("{} {version} over {stored_name} {stored}: {}", CODES[code].name, short_err(&r)));
            check_eq!(r.is_ok(), may, "success of a migration of {stored_name} {stored} to {name} {version}: {}", short_err(&r));
            if !may {
                c.unchanged(&before, "a refused migration")?;
            } else {
                check_eq!(info(&c)?, (name.clone(), version.clone()), "recorded name and version");
                let mut got = c.store_of(&a);
                got.remove(b"contract_info".as_slice());
                want.remove(b"contract_info".as_slice());
                check_eq!(got, want, "storage besides the contract info");
                let now = c.state();
                let others = |s: &crate::chain::State| s.contracts.iter().filter(|v| *v.0 != a).map(|v| (v.0.clone(), v.1.clone())).collect::<Vec<_>>();
                check!(now.bank == before.bank && others(&now) == others(&before), "a migration changed something else: {}", before.diff(&now));
                check!(c.migrate(&a).is_err(), "the same version was migrated to twice");
            }
            if stored_name == name && old.is_some() && k > 2 && stored != version && stored != "0.0.6" {
                g.nontrivial();
            }
            return Ok(());
        }
    }
    let before = c.state();
    check!(c.migrate(&a).is_err(), "a contract without a readable name and version was migrated");
    c.unchanged(&before, "a refused migration")
}

fn c28_helper(g: &mut G) -> Result<(), String> {
    let mut s = cosmwasm_std::testing::MockStorage::new();
    let base = Ver { core: [g.below(3), g.below(12), g.below(12)], pre: vec![], build: false };
    let (old, new) = (gen_ver(g, &base), gen_ver(g, &base));
    let name = g.string(12);
    let stored = if g.chance(1, 6) { g.string(12) } else { name.clone() };
    cw2::set_contract_version(&mut s, stored.clone(), old.clone()).map_err(|e| e.to_string())?;
    s.set(b"other", b"kept");
    let r = hpl_utils::migrate(&mut s, &name, &new);
    let (o, n) = (parse_ver(&old), parse_ver(&new));
    g.log(|| format!("{new} over {old}: {r:?}"));
    let got = cw2::get_contract_version(&s).map_err(|e| e.to_string())?;
    check_eq!(s.get(b"other"), Some(b"kept".to_vec()), "other storage");
    if let (Some(o), Some(n)) = (&o, &n) {
        if o.build || n.build || !o.pre.is_empty() || !n.pre.is_empty() {
            g.nontrivial();
        }
        if precedence(o, n) == Ordering::Equal && (o.build || n.build) {
            // versions that differ in their build part only: either answer is fine
            return Ok(());
        }
    }
    let may = stored == name && o.as_ref().zip(n.as_ref()).is_some_and(|(o, n)| precedence(o, n) == Ordering::Less);
    check_eq!(r.is_ok(), may, "success of a migration from {stored:?} {old:?} to {name:?} {new:?}: {r:?}");
    let want = if may { (name, new) } else { (stored, old) };
    check_eq!((got.contract, got.version), want, "recorded name and version");
    Ok(())
}
