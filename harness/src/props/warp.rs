//! Token routes: C24 outbound transfers, C25 inbound transfers, C26 conservation across chains, C27 connections.
use super::isms::gen_domains;
use super::mailbox::{gen_hook_cfg, DENOMS};
use super::{Prop, SIM};
use crate::chain::{Chain, State, Tx};
use crate::codes::*;
use crate::engine::{Sub, G};
use crate::refs::{self, RefMsg};
use crate::world::*;
use cosmwasm_std::Uint256;
use std::collections::{BTreeMap, BTreeSet};

const BANK: &str = "tokenfactory messages follow the Osmosis module (mint to and burn from the sender), zero amounts are refused by bank and tokenfactory; cw20 tokens are cw20-base";

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            assumptions: vec![SIM, BANK],
            subs: vec![Sub { name: "outbound-history", cases: (24_000, 200_000), rule: "a transfer that also paid fees succeeded and one was refused", run: c24 }],
        },
        Prop {
            id: "C25",
            assumptions: vec![SIM, BANK],
            subs: vec![Sub { name: "inbound-history", cases: (40_000, 300_000), rule: "a genuine message was paid and one that differs in one respect was refused", run: c25 }],
        },
        Prop {
            id: "C26",
            assumptions: vec![SIM, BANK, "holders do not burn bridged cw20 tokens themselves"],
            subs: vec![Sub { name: "connected-chains", cases: (4_000, 60_000), rule: "transfers were delivered in both directions and a repeated or forged delivery was refused", run: c26 }],
        },
        Prop {
            id: "C27",
            assumptions: vec![SIM, BANK],
            subs: vec![Sub { name: "connection-history", cases: (24_000, 200_000), rule: "the mailbox was replaced, then a transfer was sent and a delivery attempted through a former one", run: c27 }],
        },
    ]
}

#[derive(Clone, Debug)]
struct Route {
    addr: String,
    cw20: bool,
    bridged: bool,
    /// denomination or token contract
    token: String,
}

impl Route {
    fn bal(&self, c: &Chain, who: &str) -> Result<u128, String> {
        if self.cw20 {
            let v = c.q(&self.token, json!({"balance": {"address": who}}))?;
            v["balance"].as_str().and_then(|s| s.parse().ok()).ok_or("no balance".into())
        } else {
            Ok(c.balance(who, &self.token))
        }
    }
    fn supply(&self, c: &Chain) -> Result<u128, String> {
        if self.cw20 {
            let v = c.q(&self.token, json!({"token_info": {}}))?;
            v["total_supply"].as_str().and_then(|s| s.parse().ok()).ok_or("no supply".into())
        } else {
            Ok(c.supply(&self.token))
        }
    }
    fn describe(&self) -> String {
        format!("{} {} route", if self.bridged { "bridged" } else { "collateral" }, if self.cw20 { "cw20" } else { "native" })
    }
}

/// Instantiates a token route; for collateral the given accounts hold the token.
fn new_route(g: &mut G, c: &Chain, cw20: bool, bridged: bool, owner: &str, mailbox: &str, holders: &[(String, u128)]) -> Route {
    let init = |name: &str, b: &[(String, u128)]| json!({"name": name, "symbol": "TOK", "decimals": 6, "initial_balances": b.iter().map(|(a, v)| json!({"address": a, "amount": v.to_string()})).collect::<Vec<_>>()});
    let mut token = String::new();
    let spec = match (cw20, bridged) {
        (true, true) => json!({"bridged": {"code_id": CW20, "init_msg": init("bridged", &[])}}),
        (true, false) => {
            token = c.make(CW20, owner, init("token", holders));
            json!({"collateral": {"address": token}})
        }
        (false, true) => {
            let metadata = if g.bool() { V::Null } else { json!({"description": "d", "denom_units": [{"denom": "tok", "exponent": "6", "aliases": []}], "base": "b", "display": "d", "name": "n", "symbol": "s"}) };
            json!({"bridged": {"denom": "tok", "metadata": metadata}})
        }
        (false, false) => {
            // some of them resemble those that pay for fees
            token = g.pick::<&str>(&["uatom", "utoken", "ibc/AB12", "uato", "uatomxy", "UATOM", "factory/x/uatom"]).to_string();
            for (a, v) in holders {
                c.mint(a, &token, *v);
            }
            json!({"collateral": {"denom": token}})
        }
    };
    odd_address(g, c);
    let addr = c.make(if cw20 { WARP_CW20 } else { WARP_NATIVE }, owner, json!({"token": spec, "hrp": c.hrp(), "owner": owner, "mailbox": mailbox}));
    if bridged {
        token = match c.q(&addr, json!({"token_default": {"token_type": {}}})) {
            Ok(v) if cw20 => v["type"]["c_w20"]["contract"].as_str().unwrap_or("?").to_string(),
            Ok(v) => v["type"]["native"]["fungible"]["denom"].as_str().unwrap_or("?").to_string(),
            Err(e) => panic!("the token of a bridged route is not known: {e}"),
        };
    }
    Route { addr, cw20, bridged, token }
}

fn payload(recipient: &[u8], amount: Uint256, rest: &[u8]) -> Vec<u8> {
    [recipient, &amount.to_be_bytes(), rest].concat()
}

/// Delivers a genuine transfer through a mailbox whose module approves everything.
#[allow(clippy::too_many_arguments)]
fn deliver(c: &Chain, m: &str, local: u32, r: &Route, origin: u32, router: &[u8], nonce: u32, body: Vec<u8>) -> Result<Tx, String> {
    let msg = RefMsg { version: 3, nonce, origin, sender: router.try_into().unwrap(), dest: local, recipient: c.wire(&r.addr), body };
    c.x(&c.acc("relayer"), m, process(&[], &msg.encode()), &[])
}

/// Accounts whose holdings differ, with the denomination.
fn moved(a: &State, b: &State) -> BTreeSet<(String, String)> {
    a.bank.keys().chain(b.bank.keys()).filter(|k| a.bank.get(*k).copied().unwrap_or(0) != b.bank.get(*k).copied().unwrap_or(0)).cloned().collect()
}

fn allowance(c: &Chain, r: &Route, user: &str) -> Result<u128, String> {
    let v = c.q(&r.token, json!({"allowance": {"owner": user, "spender": r.addr}}))?;
    v["allowance"].as_str().and_then(|s| s.parse().ok()).ok_or("no allowance".into())
}

fn set_allowance(c: &Chain, r: &Route, user: &str, want: u128) -> Result<(), String> {
    let have = allowance(c, r, user)?;
    if have > want {
        c.ok(user, &r.token, json!({"decrease_allowance": {"spender": r.addr, "amount": (have - want).to_string(), "expires": null}}));
    } else if have < want {
        c.ok(user, &r.token, json!({"increase_allowance": {"spender": r.addr, "amount": (want - have).to_string(), "expires": null}}));
    }
    Ok(())
}

fn transfer(dest: u32, recipient: &[u8], amount: u128, hook: Option<&str>, metadata: Option<&[u8]>) -> V {
    json!({"transfer_remote": {"dest_domain": dest, "recipient": hx(recipient), "amount": amount.to_string(), "hook": hook, "metadata": metadata.map(hx)}})
}

// ---------------------------------------------------------------- C24

fn c24(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    c.strict_events();
    let owner = c.acc("owner");
    let local = g.domain();
    let (m, _, default, required) = full_mailbox(&c, &owner, local);
    let third = c.mock(&Cfg::default());
    let hooks = [required.clone(), default.clone(), third];
    let mut users: Vec<String> = gen_accounts(g, &c, 3);
    if g.chance(1, 3) {
        // the owner is a user like any other
        users[2] = owner.clone();
    }
    let holders: Vec<(String, u128)> = users.iter().map(|u| (u.clone(), 1 << 100)).collect();
    let (cw20, bridged) = (g.bool(), g.bool());
    let r = new_route(g, &c, cw20, bridged, &owner, &m, &holders);
    g.log(|| r.describe());
    let domains = gen_domains(g, 4);
    let mut routes: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
    for d in &domains[..3] {
        let w = gen_wire(g);
        c.ok(&owner, &r.addr, set_route(*d, Some(&hx(&w))));
        routes.insert(*d, w);
    }
    for u in &users {
        for d in DENOMS {
            c.mint(u, d, 1 << 90);
        }
    }
    if bridged {
        for (i, u) in users.iter().enumerate() {
            let res = deliver(&c, &m, local, &r, domains[0], &routes[&domains[0]], i as u32, payload(&c.wire(u), Uint256::from(1u128 << 100), &[]));
            let _ = res.map_err(|e| format!("a genuine delivery was refused: {e}"))?;
        }
    }
    if g.bool() {
        // coins and tokens the route happens to hold are not touched
        if cw20 {
            c.ok(&users[0], &r.token, json!({"transfer": {"recipient": r.addr, "amount": "1000000"}}));
        } else {
            c.send(&users[0], &r.addr, &[coin(1_000_000, &r.token)]).map_err(|e| format!("harness: {e}"))?;
        }
        for d in DENOMS {
            c.mint(&r.addr, d, g.below(100_000) as u128);
        }
    }
    let cfg0 = |g: &mut G, i: usize| {
        let mut cfg = gen_hook_cfg(g, i);
        if g.chance(1, 3) {
            cfg.quote.push(coin(g.below(5000) as u128, &r.token));
        }
        cfg
    };
    for (i, h) in hooks.iter().enumerate() {
        if g.bool() {
            let cfg = cfg0(g, i);
            c.set_mock(h, &cfg);
        }
    }
    let mut conn_hook: Option<String> = None;
    let mut n = nonce(&c, &m) as u32;
    let (mut with_fees, mut refused, mut plain) = (0, 0, 0);
    let ops = g.list(8, 30, |g| g.weighted(&[10, 2, 2, 1]));
    for op in ops {
        match op {
            1 => {
                let d = *g.pick(&domains);
                if g.chance(1, 3) {
                    c.ok(&owner, &r.addr, set_route(d, None));
                    routes.remove(&d);
                } else {
                    let w = gen_wire(g);
                    c.ok(&owner, &r.addr, set_route(d, Some(&hx(&w))));
                    routes.insert(d, w);
                }
                g.log(|| format!("route of {d}: {:?}", routes.get(&d).map(|w| hx(w))));
                continue;
            }
            2 => {
                let i = g.idx(3);
                let cfg = cfg0(g, i);
                g.log(|| format!("hook {i} reconfigured (fails: {})", cfg.fail));
                c.set_mock(&hooks[i], &cfg);
                continue;
            }
            3 => {
                let i = g.idx(3);
                c.ok(&owner, &r.addr, json!({"connection": {"set_hook": {"hook": hooks[i]}}}));
                conn_hook = Some(hooks[i].clone());
                g.log(|| format!("hook {i} configured"));
                continue;
            }
            _ => {}
        }
        let user = &users[g.idx(3)];
        let dest = if g.chance(1, 8) { domains[3] } else { *g.pick(&domains) };
        let recipient = if g.chance(1, 8) {
            let len = *g.pick(&[0usize, 20, 31, 33, 64, 1]);
            g.bytes(len)
        } else {
            gen_wire(g)
        };
        let have = r.bal(&c, user)?;
        let amount = match g.below(8) {
            0 => have,
            1 => have.saturating_add(1),
            2 => g.below(2) as u128,
            _ => g.amount(have.max(1)),
        };
        let mut hook_ok = true;
        let hook = match g.below(6) {
            0 | 1 => Some(hooks[g.idx(3)].clone()),
            2 if g.chance(1, 3) => {
                hook_ok = false;
                Some(g.pick::<&str>(&["", "hook", "osmo1invalid"]).to_string())
            }
            _ => None,
        };
        let metadata = if g.bool() { Some(gen_body(g, 40)) } else { None };
        let router = routes.get(&dest).cloned();
        let d = Disp {
            dest,
            recipient: router.clone().unwrap_or_else(|| vec![0; 32]),
            body: payload(&recipient, Uint256::from(amount), &[]),
            hook: hook.clone().or(conn_hook.clone()),
            metadata: metadata.clone(),
        };
        // fees: what the mailbox asks for, more, or too little
        let mut fees = Bag::new();
        match c.q(&m, d.quote(&r.addr)).and_then(|v| parse_coins(&v["fees"])) {
            Ok(v) if g.chance(7, 8) => fees = bag(&v),
            _ => {}
        }
        if g.chance(1, 4) {
            let e = [(DENOMS[g.idx(4)].to_string(), 1 + g.below(5000) as u128)].into_iter().collect();
            bag_add(&mut fees, &e);
        }
        // what is attached, and what of it is left for the dispatch
        let mut attached = fees.clone();
        let mut covered = true;
        if cw20 {
            let allow = match g.below(8) {
                0 => amount.saturating_sub(1),
                1 => 0,
                2 | 3 => amount.saturating_add(g.amount(1 << 60)),
                _ => amount,
            };
            set_allowance(&c, &r, user, allow)?;
            covered = allow >= amount && have >= amount;
        } else {
            match g.below(10) {
                0 => {
                    // less than announced
                    let short = g.amount(amount.max(1)).min(amount.saturating_sub(1));
                    attached.remove(&r.token);
                    if short > 0 {
                        attached.insert(r.token.clone(), short);
                    }
                }
                1 => {
                    attached.remove(&r.token);
                }
                _ => {
                    let t = attached.entry(r.token.clone()).or_insert(0);
                    // sometimes exactly twice the amount
                    *t = t.saturating_add(if g.chance(1, 6) { amount.saturating_mul(2) } else { amount });
                    attached.retain(|_, v| *v > 0);
                }
            }
            covered = attached.get(&r.token).is_some_and(|v| *v >= amount) && covered;
        }
        let mut pass = attached.clone();
        if !cw20 {
            if let Some(t) = pass.get_mut(&r.token) {
                *t = t.saturating_sub(amount);
            }
            pass.retain(|_, v| *v > 0);
        }
        let affordable = bag_sub(&c.bag(user), &attached).is_some();
        let dispatchable = {
            let f = c.fork();
            for k in bag_coins(&pass) {
                f.mint(&r.addr, &k.denom, k.amount.u128());
            }
            f.x(&r.addr, &m, d.msg(), &bag_coins(&pass)).is_ok()
        };
        let valid = recipient.len() == 32 && router.is_some() && hook_ok && covered && affordable && dispatchable;
        let before = c.state();
        let (user_had, route_had, supply) = (r.bal(&c, user)?, r.bal(&c, &r.addr)?, r.supply(&c)?);
        let (user_bag, route_bag) = (c.bag(user), c.bag(&r.addr));
        let res = c.x(user, &r.addr, transfer(dest, &recipient, amount, hook.as_deref(), metadata.as_deref()), &bag_coins(&attached));
        g.log(|| format!("transfer of {amount} to {dest} with {attached:?} (recipient of {} bytes, dispatch {dispatchable}): {}", recipient.len(), short_err(&res)));
        let tx = match res {
            Err(e) => {
                check!(!valid || amount == 0, "a valid transfer of {amount} was refused: {e}");
                c.unchanged(&before, "a refused transfer")?;
                refused += 1;
                continue;
            }
            Ok(tx) => tx,
        };
        check!(valid, "an invalid transfer succeeded (recipient of {} bytes, routed {}, valid hook {hook_ok}, funds cover {covered}, dispatch possible {dispatchable})", recipient.len(), router.is_some());
        // the message
        let calls: Vec<_> = tx.calls(&m);
        check_eq!(calls.len(), 1, "calls of the mailbox");
        check_eq!(calls[0].0, r.addr, "sender of the dispatch");
        check_eq!(bag(&calls[0].2), pass, "coins passed on with the dispatch");
        let sent = Disp::parse(&calls[0].1).ok_or("the mailbox was called with something else than a dispatch")?;
        check_eq!((sent.dest, hx(&sent.recipient), hx(&sent.body)), (dest, hx(&d.recipient), hx(&d.body)), "dispatched destination, router and payload");
        check_eq!(sent.hook, d.hook, "hook of the dispatch");
        check_eq!(sent.metadata.unwrap_or_default(), d.metadata.clone().unwrap_or_default(), "metadata of the dispatch");
        n += 1;
        check_eq!(nonce(&c, &m), n as u64, "messages dispatched by the mailbox");
        let want = d.expect(&c, &r.addr, n - 1, local)?;
        check_eq!(latest(&c, &m).map(|v| hx(&v)), Some(hx(&want.id())), "dispatched message");
        // the money
        check_eq!(Some(c.bag(user)), bag_sub(&user_bag, &attached), "coins of the sender");
        if cw20 {
            check_eq!(r.bal(&c, user)?, user_had - amount, "tokens of the sender");
            check_eq!(r.bal(&c, &r.addr)?, route_had + if bridged { 0 } else { amount }, "tokens of the route");
            check_eq!(c.bag(&r.addr), route_bag, "coins of the route");
        } else {
            let mut want = route_bag.clone();
            if !bridged && amount > 0 {
                bag_add(&mut want, &[(r.token.clone(), amount)].into_iter().collect());
            }
            check_eq!(c.bag(&r.addr), want, "coins of the route");
        }
        check_eq!(r.supply(&c)?, supply - if bridged { amount } else { 0 }, "supply of the token");
        for (who, denom) in moved(&before, &c.state()) {
            check!(who == *user || who == r.addr || hooks.contains(&who), "a transfer moved {denom} of {who}");
        }
        for u in users.iter().filter(|u| *u != user) {
            check_eq!(r.bal(&c, u)?, r.bal(&c.fork_at(&before), u)?, "tokens of another user");
        }
        if pass.is_empty() {
            plain += 1;
        } else {
            with_fees += 1;
        }
    }
    if plain > 0 {
        g.label("transfer without fees");
    }
    if with_fees > 0 && refused > 0 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C25

fn c25(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    c.strict_events();
    let owner = c.acc("owner");
    let local = g.domain();
    let (m, _, _, _) = full_mailbox(&c, &owner, local);
    let (cw20, bridged) = (g.bool(), g.bool());
    let users: Vec<String> = gen_accounts(g, &c, 3);
    let r = new_route(g, &c, cw20, bridged, &owner, &m, &[(owner.clone(), 1 << 120)]);
    g.log(|| r.describe());
    let domains = gen_domains(g, 4);
    let mut routes: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
    for d in &domains[..3] {
        let w = gen_wire(g);
        c.ok(&owner, &r.addr, set_route(*d, Some(&hx(&w))));
        routes.insert(*d, w);
    }
    if !bridged {
        // lock something
        let a = g.amount(1 << 110);
        if a > 0 {
            if cw20 {
                c.ok(&owner, &r.token, json!({"transfer": {"recipient": r.addr, "amount": a.to_string()}}));
            } else {
                c.send(&owner, &r.addr, &[coin(a, &r.token)]).map_err(|e| format!("harness: {e}"))?;
            }
        }
    }
    let mut n = 0u32;
    let (mut paid, mut near) = (0, 0);
    let ops = g.list(8, 30, |g| g.weighted(&[10, 2]));
    for op in ops {
        if op == 1 {
            let d = *g.pick(&domains);
            if g.chance(1, 3) {
                c.ok(&owner, &r.addr, set_route(d, None));
                routes.remove(&d);
            } else {
                let w = gen_wire(g);
                c.ok(&owner, &r.addr, set_route(d, Some(&hx(&w))));
                routes.insert(d, w);
            }
            g.log(|| format!("route of {d}: {:?}", routes.get(&d).map(|w| hx(w))));
            continue;
        }
        // mostly genuine, wrong in at most two respects
        let bad = match g.below(5) {
            0 | 1 => [0, 0],
            2 | 3 => [1 + g.below(6), 0],
            _ => [1 + g.below(6), 1 + g.below(6)],
        };
        let is = |k: u64| bad.contains(&k);
        let mut origin = domains[g.idx(3)];
        if is(1) {
            origin = if g.bool() { domains[3] } else { g.domain() };
        }
        let mut sender = routes.get(&origin).cloned().unwrap_or_else(|| routes.values().next().cloned().unwrap_or_else(|| vec![0; 32]));
        if is(2) {
            match g.below(4) {
                0 => {
                    let k = g.idx(sender.len());
                    sender[k] ^= 1 << g.below(8)
                }
                1 => sender = routes.get(g.pick(&domains)).cloned().unwrap_or_else(|| vec![0; 32]),
                2 => sender = c.wire(&owner).to_vec(),
                _ => sender = c.wire(&r.addr).to_vec(),
            }
        }
        let locked = r.bal(&c, &r.addr)?;
        let amount = if is(3) {
            match g.below(5) {
                0 => Uint256::from(u128::MAX) + Uint256::from(1u128 + g.below(5) as u128),
                1 => Uint256::MAX,
                2 => Uint256::from_be_bytes(g.bytes32()),
                // the low half alone would be payable
                3 => (Uint256::from(u128::MAX) + Uint256::one()) * Uint256::from(1u128 + g.below(3) as u128) + Uint256::from(g.amount(locked.max(1))),
                _ => Uint256::from(locked) + Uint256::from(1u128),
            }
        } else if bridged {
            Uint256::from(if g.chance(1, 12) { g.amount(u128::MAX) } else { g.amount(1 << 100) })
        } else {
            match g.below(4) {
                0 => Uint256::from(locked),
                _ => Uint256::from(g.amount(locked.min(1 << 100).max(1))),
            }
        };
        let recipient: [u8; 32] = match g.below(6) {
            0 => g.bytes32(),
            1 => c.wire(&r.addr),
            2 => c.wire(&m),
            3 => gen_wire(g).try_into().unwrap(),
            _ => c.wire(&users[g.idx(3)]),
        };
        let extra = if g.chance(1, 3) { gen_body(g, 40) } else { vec![] };
        let mut body = payload(&recipient, amount, &extra);
        if is(4) {
            // cut short, at the end or within the address or the amount
            body.truncate(64);
            match g.below(4) {
                0 => drop(body.drain(..*g.pick(&[12usize, 32, 1, 4, 24, 31]))),
                1 => drop(body.drain(32..32 + *g.pick(&[16usize, 24, 1, 28, 31]))),
                2 => body.truncate(*g.pick(&[0, 20, 32, 36, 40, 48, 52])),
                _ => body.truncate(g.idx(64)),
            }
        }
        let caller = if is(5) {
            match g.below(5) {
                0 => owner.clone(),
                1 => r.addr.clone(),
                2 => c.acc("relayer"),
                3 => refs::wire_to_addr(c.hrp(), &sender.clone().try_into().unwrap()),
                _ if cw20 => r.token.clone(),
                _ => c.acc("other"),
            }
        } else {
            m.clone()
        };
        let through = caller == m && !is(6) && g.bool();
        if is(6) && !through {
            // not the 32-byte sender
            match g.below(3) {
                0 => {
                    sender.remove(0);
                }
                1 => sender.push(0),
                _ => sender = vec![],
            }
        }
        let genuine = caller == m && routes.get(&origin) == Some(&sender) && body.len() >= 64;
        let payable = fits(amount);
        let supply = r.supply(&c)?;
        let ok = genuine && payable.is_some_and(|a| if bridged { supply.checked_add(a).is_some() } else { a <= locked });
        let to = refs::wire_to_addr(c.hrp(), &recipient);
        let before = c.state();
        let had = r.bal(&c, &to)?;
        let res = if through {
            n += 1;
            let s: [u8; 32] = sender.clone().try_into().unwrap();
            let msg = RefMsg { version: 3, nonce: n, origin, sender: s, dest: local, recipient: c.wire(&r.addr), body: body.clone() };
            c.x(&c.acc("relayer"), &m, process(&g.blob(8), &msg.encode()), &[])
        } else {
            c.x(&caller, &r.addr, json!({"handle": {"origin": origin, "sender": hx(&sender), "body": hx(&body)}}), &[])
        };
        g.log(|| format!("message from {origin} with {} bytes for {amount} to {to} (faults {bad:?}, through the mailbox {through}, locked {locked}): {}", body.len(), short_err(&res)));
        if let Err(e) = res {
            check!(!ok || amount.is_zero(), "a genuine message for {amount} was refused: {e}");
            c.unchanged(&before, "a refused message")?;
            if routes.contains_key(&origin) {
                near += 1;
            }
            continue;
        }
        check!(ok, "paid {amount} (genuine {genuine}, caller {caller}, locked {locked}, faults {bad:?})");
        let a = payable.unwrap();
        paid += (a > 0) as u32;
        let own = to == r.addr;
        match (bridged, own) {
            (true, _) => {
                check_eq!(r.bal(&c, &to)?, had + a, "tokens of the recipient");
                check_eq!(r.supply(&c)?, supply + a, "supply");
                check!(own || r.bal(&c, &r.addr)? == locked, "the route kept tokens");
            }
            (false, true) => check_eq!(r.bal(&c, &to)?, had, "locked tokens"),
            (false, false) => {
                check_eq!(r.bal(&c, &to)?, had + a, "tokens of the recipient");
                check_eq!(r.bal(&c, &r.addr)?, locked - a, "locked tokens");
            }
        }
        if !bridged {
            check_eq!(r.supply(&c)?, supply, "supply");
        }
        for (who, denom) in moved(&before, &c.state()) {
            check!(!cw20 && denom == r.token && (who == to || who == r.addr), "a delivery moved {denom} of {who}");
        }
        if cw20 {
            let old = c.fork_at(&before);
            for u in users.iter().chain([&owner, &m]).filter(|u| **u != to) {
                check_eq!(r.bal(&c, u)?, r.bal(&old, u)?, "tokens of a bystander");
            }
        }
    }
    if paid > 0 && near > 0 {
        g.nontrivial();
    }
    Ok(())
}

/// The amount if it fits 128 bits.
fn fits(v: Uint256) -> Option<u128> {
    let b = v.to_be_bytes();
    b[..16].iter().all(|x| *x == 0).then(|| u128::from_be_bytes(b[16..].try_into().unwrap()))
}

// ---------------------------------------------------------------- C27

fn c27(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    c.strict_events();
    let owner = c.acc("owner");
    let local = g.domain();
    let (cw20, bridged) = (g.bool(), g.bool());
    let user = gen_account(g, &c);
    // three mailboxes with their own hooks and modules
    let boxes: Vec<(String, String, String, String)> = (0..3).map(|_| full_mailbox(&c, &owner, local)).collect();
    for (i, b) in boxes.iter().enumerate() {
        c.set_mock(&b.1, &Cfg { verdict: Verdict::Keyed(format!("default{i}")), ..Default::default() });
    }
    let isms: Vec<String> = (0..2).map(|i| c.mock(&Cfg { verdict: Verdict::Keyed(format!("module{i}")), ..Default::default() })).collect();
    // the same contract may be a hook and a module
    let hooks: Vec<String> = (0..2).map(|i| if g.chance(1, 3) { isms[i].clone() } else { c.mock(&Cfg::default()) }).collect();
    let r = new_route(g, &c, cw20, bridged, &owner, &boxes[0].0, &[(user.clone(), 1 << 100)]);
    let (origin, dest) = (g.domain(), g.domain());
    let router = gen_wire(g);
    c.ok(&owner, &r.addr, json!({"router": {"set_routes": {"set": [{"domain": origin, "route": hx(&router)}, {"domain": dest, "route": hx(&router)}]}}}));
    let mut n = 0u32;
    let mut receive = |c: &Chain, k: usize, to: &str, amount: u128, tag: &str| -> Result<Tx, String> {
        n += 1;
        let msg = RefMsg { version: 3, nonce: n, origin, sender: router.clone().try_into().unwrap(), dest: local, recipient: c.wire(&r.addr), body: payload(&c.wire(to), Uint256::from(amount), &[]) }.encode();
        c.x(&c.acc("relayer"), &boxes[k].0, process(&key_for(tag, &msg), &msg), &[])
    };
    if bridged {
        let _ = receive(&c, 0, &user, 1 << 100, "default0").map_err(|e| format!("a delivery through the first mailbox was refused: {e}"))?;
    } else {
        // something to release
        if cw20 {
            c.ok(&user, &r.token, json!({"transfer": {"recipient": r.addr, "amount": (1u128 << 90).to_string()}}));
        } else {
            c.send(&user, &r.addr, &[coin(1 << 90, &r.token)]).map_err(|e| format!("harness: {e}"))?;
        }
    }
    g.log(|| r.describe());
    let (mut mb, mut mb_set) = (0usize, false);
    let (mut ism, mut hook): (Option<usize>, Option<usize>) = (None, None);
    let mut former: BTreeSet<usize> = BTreeSet::new();
    let (mut sent_after, mut refused_former) = (0, 0);
    let ops = g.list(12, 40, |g| g.weighted(&[3, 2, 2, 1, 4, 5]));
    for op in ops {
        match op {
            0..=2 => {
                let what = ["mailbox", "hook", "ism"][op];
                let k = g.idx(if op == 0 { 3 } else { 2 });
                let v = [&boxes.iter().map(|b| b.0.clone()).collect::<Vec<_>>(), &hooks, &isms][op][k].clone();
                c.ok(&owner, &r.addr, json!({"connection": {format!("set_{what}"): {what: v}}}));
                g.log(|| format!("{what} := {k}"));
                match op {
                    0 => {
                        if mb != k {
                            former.insert(mb);
                            former.remove(&k);
                        }
                        mb = k;
                        mb_set = true;
                    }
                    1 => hook = Some(k),
                    _ => ism = Some(k),
                }
            }
            3 => {
                let what = *g.pick(&["mailbox", "hook", "ism"]);
                let invalid = g.bool();
                let v = if invalid { g.pick::<&str>(&["", "mailbox", "osmo1qqqq", "COSMOS1"]).to_string() } else { boxes[g.idx(3)].0.clone() };
                let who = if invalid { owner.clone() } else { g.pick(&[user.clone(), boxes[0].0.clone(), c.acc("other")]).clone() };
                let before = c.state();
                let res = c.x(&who, &r.addr, json!({"connection": {format!("set_{what}"): {what: v}}}), &[]);
                check!(res.is_err(), "set_{what} to {v:?} by {who} was accepted");
                c.unchanged(&before, "a refused setting")?;
            }
            4 => {
                // outbound
                let choice = match g.below(4) {
                    0 => Some(hooks[g.idx(2)].clone()),
                    1 => Some(boxes[g.idx(3)].2.clone()),
                    _ => None,
                };
                let amount = 1 + g.below(1000) as u128;
                let meta = if g.bool() { Some(gen_body(g, 20)) } else { None };
                let mut funds = vec![];
                if cw20 {
                    set_allowance(&c, &r, &user, amount)?;
                } else {
                    funds.push(coin(amount, &r.token));
                }
                let tx = c
                    .x(&user, &r.addr, transfer(dest, &gen_wire(g), amount, choice.as_deref(), meta.as_deref()), &funds)
                    .map_err(|e| format!("a valid transfer was refused: {e}"))?;
                g.log(|| format!("transfer with hook {choice:?}"));
                let used: Vec<usize> = (0..3).filter(|k| !tx.calls(&boxes[*k].0).is_empty()).collect();
                check_eq!(used, vec![mb], "mailboxes a transfer was dispatched through");
                let want_hook = choice.clone().or(hook.map(|h| hooks[h].clone())).unwrap_or(boxes[mb].2.clone());
                let mut called: Vec<String> = tx.calls_by(&boxes[mb].0).into_iter().map(|v| v.0).collect();
                called.sort();
                let mut want = vec![want_hook, boxes[mb].3.clone()];
                want.sort();
                check_eq!(called, want, "hooks called for a transfer");
                if !former.is_empty() {
                    sent_after += 1;
                }
            }
            _ => {
                // inbound
                let k = if g.bool() { mb } else { g.idx(3) };
                let right = match ism {
                    Some(i) => format!("module{i}"),
                    None => format!("default{k}"),
                };
                let tag = match g.below(4) {
                    0 => format!("module{}", g.idx(2)),
                    1 => format!("default{}", g.idx(3)),
                    _ => right.clone(),
                };
                let to = gen_account(g, &c);
                let amount = 1 + g.below(1000) as u128;
                let may = k == mb && tag == right;
                let before = c.state();
                let (had, res, may) = if g.chance(1, 4) {
                    // as if by the mailbox itself
                    let m = json!({"handle": {"origin": origin, "sender": hx(&router), "body": hx(&payload(&c.wire(&to), Uint256::from(amount), &[]))}});
                    (r.bal(&c, &to)?, c.x(&boxes[k].0, &r.addr, m, &[]), k == mb)
                } else {
                    (r.bal(&c, &to)?, receive(&c, k, &to, amount, &tag), may)
                };
                g.log(|| format!("delivery of {amount} through mailbox {k} approved by {tag}: {}", short_err(&res)));
                check_eq!(res.is_ok(), may, "success of a delivery through mailbox {k} approved by {tag} (mailbox {mb}, module {ism:?})");
                if may {
                    check_eq!(r.bal(&c, &to)?, had + amount, "tokens of the recipient");
                } else {
                    c.unchanged(&before, "a refused delivery")?;
                    if former.contains(&k) {
                        refused_former += 1;
                    }
                }
            }
        }
        let q = |k: &str| c.q(&r.addr, json!({"connection": {format!("get_{k}"): {}}})).map(|v| v[k].clone());
        let got = q("mailbox")?;
        check!(got == json!(boxes[mb].0) || (!mb_set && got.is_null()), "the route reports mailbox {got} instead of {}", boxes[mb].0);
        check_eq!(q("hook")?, json!(hook.map(|h| hooks[h].clone())), "reported hook");
        check_eq!(q("ism")?, json!(ism.map(|h| isms[h].clone())), "reported module");
        let spec = c.q(&r.addr, json!({"ism_specifier": {"interchain_security_module": []}}))?;
        check_eq!(spec["ism"], json!(ism.map(|h| isms[h].clone())), "verification module named by the route");
    }
    // the three settings do not influence each other, even with equal values
    let all: Vec<String> = boxes.iter().map(|b| b.0.clone()).chain(hooks).chain(isms).collect();
    let mut now: BTreeMap<&str, String> = BTreeMap::new();
    for _ in 0..4 {
        let what = *g.pick(&["mailbox", "hook", "ism"]);
        let v = all[if g.chance(3, 4) { 0 } else { g.idx(all.len()) }].clone();
        c.ok(&owner, &r.addr, json!({"connection": {format!("set_{what}"): {what: v}}}));
        now.insert(what, v);
        for (k, v) in &now {
            check_eq!(c.q(&r.addr, json!({"connection": {format!("get_{k}"): {}}}))?[*k], json!(v), "reported {k} after setting the {what}");
        }
    }
    if sent_after > 0 && refused_former > 0 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C26

struct Node {
    c: Chain,
    domain: u32,
    m: String,
    merkle: String,
    r: Route,
    users: Vec<String>,
    /// model: holdings of every account that ever held tokens
    held: BTreeMap<String, u128>,
    leaves: Vec<[u8; 32]>,
}

struct Sent {
    from: usize,
    to: usize,
    msg: RefMsg,
    index: u32,
    root: [u8; 32],
    recipient: String,
    amount: u128,
    delivered: bool,
}

fn c26(g: &mut G) -> Result<(), String> {
    let count = 2 + g.below(2) as usize;
    let domains = gen_domains(g, count);
    let keys: Vec<refs::Key> = (0..4u8).map(|i| refs::key(&[i])).collect();
    let fee = if g.bool() { 1 + g.below(50) as u128 } else { 0 };
    let mut nodes: Vec<Node> = vec![];
    for i in 0..count {
        let c = gen_chain(g);
        c.strict_events();
        let owner = c.acc("owner");
        let m = mailbox(&c, &owner, domains[i]);
        let merkle = c.make(HOOK_MERKLE, &owner, json!({"mailbox": m}));
        let ism = c.make(ISM_MULTISIG, &owner, json!({"owner": owner}));
        for d in &domains {
            c.ok(&owner, &ism, json!({"set_validators": {"domain": d, "threshold": 2, "validators": keys[..3].iter().map(|k| hx(&k.addr)).collect::<Vec<_>>()}}));
        }
        let toll = c.mock(&Cfg { quote: coins(&[(fee, "ufee")]), enforce: true, ..Default::default() });
        let swap = g.bool();
        c.ok(&owner, &m, json!({"set_required_hook": {"hook": if swap { &toll } else { &merkle }}}));
        c.ok(&owner, &m, json!({"set_default_hook": {"hook": if swap { &merkle } else { &toll }}}));
        let users: Vec<String> = gen_accounts(g, &c, 2);
        let mut held = BTreeMap::new();
        let holders: Vec<(String, u128)> = if i == 0 { users.iter().map(|u| (u.clone(), 1 + g.amount(1 << 100))).collect() } else { vec![] };
        for (u, a) in &holders {
            held.insert(u.clone(), *a);
        }
        for u in &users {
            c.mint(u, "ufee", 1 << 40);
        }
        let cw20 = g.bool();
        let r = new_route(g, &c, cw20, i > 0, &owner, &m, &holders);
        if g.bool() {
            c.ok(&owner, &m, json!({"set_default_ism": {"ism": ism}}));
        } else {
            c.ok(&owner, &m, json!({"set_default_ism": {"ism": c.mock(&Cfg { verdict: Verdict::No, ..Default::default() })}}));
            c.ok(&owner, &r.addr, json!({"connection": {"set_ism": {"ism": ism}}}));
        }
        g.log(|| format!("chain {i}: {} at domain {}", r.describe(), domains[i]));
        nodes.push(Node { c, domain: domains[i], m, merkle, r, users, held, leaves: vec![] });
    }
    for i in 0..count {
        for j in 0..count {
            if i != j {
                let w = nodes[j].c.wire(&nodes[j].r.addr);
                let n = &nodes[i];
                n.c.ok(&n.c.acc("owner"), &n.r.addr, set_route(nodes[j].domain, Some(&hx(&w))));
            }
        }
    }
    let mut sent: Vec<Sent> = vec![];
    let (mut out, mut back, mut refused) = (0, 0, 0);
    let ops = g.list(24, 70, |g| g.weighted(&[6, 7, 4, 1]));
    for op in ops {
        match op {
            0 => {
                let i = g.idx(count);
                let j = (i + 1 + g.idx(count - 1)) % count;
                let (n, p) = (&nodes[i], &nodes[j]);
                let user = n.users[g.idx(2)].clone();
                let have = n.held.get(&user).copied().unwrap_or(0);
                let amount = match g.below(6) {
                    0 => have.saturating_add(1 + g.below(3) as u128),
                    1 => have,
                    _ => g.amount(have.max(1)),
                };
                let wire = match g.below(12) {
                    0 | 1 => gen_wire(g).try_into().unwrap(),
                    // a contract of the other side
                    2 => p.c.wire(*g.pick(&[&p.r.addr, &p.r.addr, &p.m, &p.merkle])),
                    _ => p.c.wire(&p.users[g.idx(2)]),
                };
                let mut funds = coins(&[(fee, "ufee")]);
                if n.r.cw20 {
                    set_allowance(&n.c, &n.r, &user, amount)?;
                } else if amount > 0 {
                    funds.push(coin(amount, &n.r.token));
                }
                let before = n.c.state();
                let res = n.c.x(&user, &n.r.addr, transfer(p.domain, &wire, amount, None, None), &funds);
                g.log(|| format!("transfer of {amount} of {have} from {i} to {j}: {}", short_err(&res)));
                match res {
                    Err(e) => {
                        check!(amount > have || amount == 0, "a valid transfer of {amount} was refused: {e}");
                        n.c.unchanged(&before, "a refused transfer")?;
                    }
                    Ok(tx) => {
                        check!(amount <= have, "a transfer of {amount} succeeded with {have} tokens");
                        let ev = tx.ev(&n.m, "mailbox_dispatch");
                        check_eq!(ev.len(), 1, "dispatched messages");
                        let raw = parse_hex(ev[0].attr("message").unwrap_or("")).ok_or("no message")?;
                        let msg = RefMsg::decode(&raw).ok_or("a malformed message was dispatched")?;
                        // fees leave the sender and nobody else
                        for (who, denom) in moved(&before, &n.c.state()) {
                            let ours = who == user || who == n.r.addr;
                            check!(denom == "ufee" || ours, "a transfer moved {denom} of {who}");
                            check!(denom != "ufee" || who != n.r.addr, "the route kept fees");
                        }
                        let c = n.c.clone();
                        let merkle = n.merkle.clone();
                        let n = &mut nodes[i];
                        n.leaves.push(msg.id());
                        let cp = c.q(&merkle, json!({"merkle_hook": {"check_point": {}}}))?;
                        let root = refs::tree_root(&n.leaves);
                        check_eq!(cp["root"], json!(hx(&root)), "root of the tree of dispatched messages");
                        let index = n.leaves.len() as u32 - 1;
                        check_eq!(cp["count"], json!(index), "index of the last message");
                        *n.held.get_mut(&user).unwrap() -= amount;
                        sent.push(Sent { from: i, to: j, msg, index, root, recipient: refs::wire_to_addr(nodes[j].c.hrp(), &wire), amount, delivered: false });
                    }
                }
            }
            1 | 2 if !sent.is_empty() => {
                // delivery of something sent: first or repeated (1), forged or insufficiently signed (2)
                let waiting: Vec<usize> = (0..sent.len()).filter(|k| !sent[*k].delivered).collect();
                let k = if !waiting.is_empty() && g.chance(2, 3) { *g.pick(&waiting) } else { g.idx(sent.len()) };
                let s = &sent[k];
                let mut to = s.to;
                let mut raw = s.msg.encode();
                let tree = nodes[s.from].c.wire(&nodes[s.from].merkle);
                let digest = refs::checkpoint_digest(s.msg.origin, &tree, &s.root, s.index, &s.msg.id());
                let mut order = [0usize, 1, 2];
                for i in 0..3 {
                    let j = i + g.idx(3 - i);
                    order.swap(i, j);
                }
                let mut sigs: Vec<Vec<u8>> = order[..2 + g.idx(2)].iter().map(|i| refs::sign(&keys[*i], &digest)).collect();
                let mut head = [&tree[..], &s.root, &s.index.to_be_bytes()].concat();
                let mut fault = 0;
                if op == 2 {
                    fault = 1 + g.below(8);
                    match fault {
                        1 => {
                            // another amount
                            let at = 77 + 32 + g.idx(32);
                            raw[at] ^= 1 << g.below(8);
                        }
                        2 => {
                            // another recipient
                            let at = 77 + g.idx(32);
                            raw[at] ^= 1 << g.below(8);
                        }
                        3 => raw[1 + g.idx(4)] ^= 1 << g.below(8),
                        4 => sigs.truncate(1),
                        5 => {
                            sigs.truncate(1);
                            let again = sigs[0].clone();
                            sigs.push(again);
                        }
                        6 => {
                            sigs.truncate(1);
                            sigs.push(refs::sign(&keys[3], &digest));
                        }
                        7 => {
                            // the message of another chain, signed for the wrong one
                            to = (s.to + 1) % count;
                        }
                        _ => {
                            let at = g.idx(head.len());
                            head[at] ^= 1 << g.below(8);
                        }
                    }
                }
                sigs.iter().for_each(|s| head.extend(s));
                let n = &nodes[to];
                let before = n.c.state();
                let res = n.c.x(&n.c.acc("relayer"), &n.m, process(&head, &raw), &[]);
                g.log(|| format!("delivery of #{k} ({} of {}) to {to}, fault {fault}: {}", s.msg.nonce, s.from, short_err(&res)));
                let may = fault == 0 && !s.delivered;
                if !may {
                    check!(res.is_err(), "a {} delivery was accepted (fault {fault})", if fault == 0 { "repeated" } else { "forged" });
                    n.c.unchanged(&before, "a refused delivery")?;
                    refused += 1;
                } else {
                    match res {
                        Err(e) => {
                            // nothing to pay: bank and tokenfactory refuse to move zero
                            check!(s.amount == 0, "a genuine delivery of {} was refused: {e}", s.amount);
                            n.c.unchanged(&before, "a refused delivery")?;
                        }
                        Ok(_) => {
                            let (recipient, amount) = (s.recipient.clone(), s.amount);
                            for (who, denom) in moved(&before, &n.c.state()) {
                                check!(!n.r.cw20 && denom == n.r.token && (who == recipient || who == n.r.addr), "a delivery moved {denom} of {who}");
                            }
                            if to == 0 {
                                back += 1;
                            } else {
                                out += 1;
                            }
                            *nodes[to].held.entry(recipient).or_insert(0) += amount;
                            sent[k].delivered = true;
                        }
                    }
                }
            }
            3 => {
                // someone claims to be the mailbox
                let n = &nodes[g.idx(count)];
                let o = &nodes[g.idx(count)];
                let before = n.c.state();
                let body = payload(&n.c.wire(&n.users[0]), Uint256::from(1u32), &[]);
                let res = n.c.x(&n.users[0], &n.r.addr, json!({"handle": {"origin": o.domain, "sender": hx(&o.c.wire(&o.r.addr)), "body": hx(&body)}}), &[]);
                check!(res.is_err(), "a user delivered a message to the route");
                n.c.unchanged(&before, "a refused message")?;
                refused += 1;
            }
            _ => {}
        }
        // conservation
        let inflight: u128 = sent.iter().filter(|s| !s.delivered).map(|s| s.amount).sum();
        let mut bridged = 0u128;
        for n in &nodes[1..] {
            bridged += n.r.supply(&n.c)?;
        }
        let locked = nodes[0].r.bal(&nodes[0].c, &nodes[0].r.addr)?;
        // deliveries to the route itself stay locked there
        let stuck = nodes[0].held.get(&nodes[0].r.addr).copied().unwrap_or(0);
        check_eq!(locked, bridged + inflight + stuck, "locked tokens against bridged supply {bridged} and transfers under way {inflight}");
        for (i, n) in nodes.iter().enumerate() {
            for (a, v) in &n.held {
                if i > 0 || *a != n.r.addr {
                    check_eq!(n.r.bal(&n.c, a)?, *v, "tokens of {a}");
                }
            }
        }
    }
    if out > 0 && back > 0 && refused > 0 {
        g.nontrivial();
    }
    Ok(())
}
