//! C18 gas payments, C19 gas configuration.
use super::isms::gen_domains;
use super::mailbox::DENOMS;
use super::{Prop, SIM};
use crate::chain::Chain;
use crate::codes::*;
use crate::engine::{Sub, G};
use crate::refs::{self, RefMsg};
use crate::world::*;
use cosmwasm_std::{Uint128, Uint256, Uint512};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            assumptions: vec![SIM, "a cost whose 256-bit intermediate product overflows may be refused", "a refund address that is no account may be refused"],
            subs: vec![Sub { name: "payment-history", cases: (80_000, 500_000), rule: "a payment with a refund, a refused payment and a claim", run: c18 }],
        },
        Prop {
            id: "C19",
            assumptions: vec![SIM],
            subs: vec![Sub { name: "configuration-history", cases: (40_000, 250_000), rule: "a value was overwritten or removed and both a quoted and an unquoted destination were asked for", run: c19 }],
        },
    ]
}

/// floor(gas * price * rate / 10^10), computed exactly.
pub fn exact(gas: Uint256, price: u128, rate: u128) -> (Uint512, bool) {
    let product = Uint512::from(gas) * Uint512::from(price) * Uint512::from(rate);
    (product / Uint512::from(10_000_000_000u128), Uint256::try_from(product).is_ok())
}

/// The cost, `None` if the product does not fit 256 bits.
pub fn cost(gas: Uint256, price: u128, rate: u128) -> Option<Uint256> {
    match exact(gas, price, rate) {
        (c, true) => Some(Uint256::try_from(c).unwrap()),
        _ => None,
    }
}

pub fn gas_data(domain: u32, rate: u128, price: u128) -> V {
    json!({"remote_domain": domain, "token_exchange_rate": rate.to_string(), "gas_price": price.to_string()})
}

pub fn new_igp(c: &Chain, owner: &str, beneficiary: &str, token: &str, gas: u128) -> String {
    c.make(IGP, owner, json!({"hrp": c.hrp(), "owner": owner, "gas_token": token, "beneficiary": beneficiary, "default_gas_usage": gas.to_string()}))
}

fn gen_price(g: &mut G) -> (u128, u128) {
    // exchange rate, gas price
    if g.chance(1, 8) {
        // gas beyond 128 bits is affordable
        return (1 + g.below(3) as u128, 1 + g.below(3) as u128);
    }
    let rate = match g.below(4) {
        0 => 10_000_000_000,
        1 => 1 + g.amount(1 << 40),
        2 => 1,
        _ => 1 + g.amount(u128::MAX - 1),
    };
    let price = match g.below(3) {
        0 => g.amount(1000),
        1 => g.amount(1 << 40),
        _ => g.amount(u128::MAX),
    };
    (rate, price)
}

fn gen_gas(g: &mut G) -> Uint256 {
    match g.below(6) {
        0..=3 => Uint256::from(g.amount(1 << 40)),
        4 => Uint256::from(g.amount(u128::MAX)),
        5 if g.bool() => Uint256::from(u128::MAX) + Uint256::from(g.amount(u128::MAX)) * Uint256::from(1 + g.below(5000)),
        _ => Uint256::from_be_bytes(g.bytes32()),
    }
}

// ---------------------------------------------------------------- C18

fn c18(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let owner = c.acc("owner");
    let mut users = gen_accounts(g, &c, 4);
    users.push(owner.clone());
    let token = DENOMS[g.idx(2)];
    for u in &users {
        for d in DENOMS {
            c.mint(u, d, 1 << 100);
        }
    }
    let mut beneficiary = 3usize;
    let mut default_gas = g.amount(1 << 40);
    odd_address(g, &c);
    let igp = new_igp(&c, &owner, &users[beneficiary], token, default_gas);
    let local = g.domain();
    let (m, _, _, required) = full_mailbox(&c, &owner, local);
    c.ok(&owner, &m, json!({"set_default_hook": {"hook": igp}}));
    let domains = gen_domains(g, 3);
    let mut data: BTreeMap<u32, (u128, u128)> = BTreeMap::new();
    let mut domain_gas: BTreeMap<u32, u128> = BTreeMap::new();
    let oracle = c.make(ORACLE, &owner, json!({"owner": owner}));
    for d in &domains[..2] {
        c.ok(&owner, &igp, set_route(*d, Some(&oracle)));
        let (rate, price) = gen_price(g);
        c.ok(&owner, &oracle, json!({"set_remote_gas_data": {"config": gas_data(*d, rate, price)}}));
        data.insert(*d, (rate, price));
    }
    let mut held = Bag::new();
    let (mut refunds, mut refused, mut claims) = (0, 0, 0);
    let ops = g.list(12, 40, |g| g.weighted(&[6, 6, 5, 3, 1, 1, 1, 1]));
    for op in ops {
        let who = g.idx(users.len());
        match op {
            0..=2 => {
                let dest = *g.pick(&domains);
                let mut recipient = g.bytes32();
                recipient[0] |= 1;
                let mut d = Disp { dest, recipient: recipient.to_vec(), body: gen_body(g, 30), hook: None, metadata: None };
                let mut gas = Uint256::from(*domain_gas.get(&dest).unwrap_or(&default_gas));
                // message sender of a direct post_dispatch need not be the caller
                let sender_acc = g.idx(4);
                let sender = if op == 2 { c.wire(&users[who]) } else { c.wire(&users[sender_acc]) };
                let mut refund = if op == 2 { users[who].clone() } else { users[sender_acc].clone() };
                if op == 0 {
                    gas = gen_gas(g);
                    refund = match g.below(6) {
                        0 => users[g.idx(4)].clone(),
                        1 => users[who].clone(),
                        2 => igp.clone(),
                        3 => c.acc("refund"),
                        4 => g.pick::<&str>(&["", "nobody", "osmo1xyz"]).to_string(),
                        _ => refs::bech32("other", &g.bytes(20)),
                    };
                } else {
                    match g.below(6) {
                        0 => {}
                        1 => d.metadata = Some(g.blob(31)),
                        k => {
                            gas = gen_gas(g);
                            let mut b = gas.to_be_bytes().to_vec();
                            match k {
                                2 => {
                                    let a = if g.bool() { g.bytes(20) } else { refs::acc_bytes(c.hrp(), &users[g.idx(4)]).unwrap() };
                                    if a.len() == 20 || a.len() == 32 {
                                        refund = refs::wire_to_addr(c.hrp(), &refs::pad32(&a));
                                    }
                                    b.extend(a);
                                }
                                3 => {
                                    let mut a = g.bytes32();
                                    if g.bool() {
                                        a[..12].fill(0);
                                    }
                                    if g.chance(1, 4) {
                                        a[..11].fill(0);
                                    }
                                    refund = refs::wire_to_addr(c.hrp(), &a);
                                    b.extend(a);
                                }
                                4 => {
                                    let n = *g.pick(&[1usize, 19, 21, 31, 33, 40, 64, 300, 5000]);
                                    b.extend(g.bytes(n));
                                }
                                _ => {}
                            }
                            d.metadata = Some(b);
                        }
                    }
                }
                let (amount, sure) = match data.get(&dest) {
                    Some((rate, price)) => {
                        let (c, in_range) = exact(gas, *price, *rate);
                        (Uint128::try_from(c).ok().map(|v| v.u128()), in_range)
                    }
                    None => (None, true),
                };
                let have = c.balance(&users[who], token);
                let mut funds = Bag::new();
                let base = amount.unwrap_or(1000);
                let pay = match g.below(7) {
                    0 => base,
                    1 => base.saturating_add(1 + g.amount(1000)),
                    2 => base.saturating_add(g.amount(1 << 90)),
                    3 => base.saturating_sub(1),
                    4 => 0,
                    5 => g.amount(base.max(1)),
                    _ => base,
                };
                if pay > 0 {
                    funds.insert(token.to_string(), pay.min(have));
                }
                match g.below(8) {
                    6 => bag_add(&mut funds, &bag(&[coin(1 + g.amount(100), g.pick::<&str>(&DENOMS))])),
                    7 => {
                        let v = funds.remove(token).unwrap_or(1);
                        bag_add(&mut funds, &bag(&[coin(v.min(1 << 80), DENOMS[2])]));
                    }
                    _ => {}
                }
                funds.retain(|_, v| *v > 0);
                if bag_sub(&c.bag(&users[who]), &funds).is_none() {
                    continue;
                }
                let paid = funds.get(token).copied().unwrap_or(0);
                let only = funds.keys().all(|k| k == token);
                let valid_refund = refs::acc_bytes(c.hrp(), &refund).is_some();
                let before = c.state();
                let msg_nonce = nonce(&c, &m) as u32;
                let direct = RefMsg { version: 3, nonce: msg_nonce, origin: local, sender, dest, recipient, body: d.body.clone() };
                let meta = d.metadata.clone().unwrap_or_default();
                // the quotes
                if op == 0 {
                    let q = c.q(&igp, json!({"igp": {"quote_gas_payment": {"dest_domain": dest, "gas_amount": gas.to_string()}}}));
                    check_quote(q.map(|v| v["gas_needed"].clone()), &data, dest, gas)?;
                } else {
                    let q = quote_hook(&c, &igp, &meta, &direct.encode());
                    match (&q, amount) {
                        (Ok(v), Some(a)) => check_eq!(bag(v), bag(&[coin(a, token)]), "quote for gas {gas} to {dest}"),
                        (Ok(v), None) => return Err(format!("quoted {v:?} for a destination without data or an unpayable cost")),
                        (Err(e), Some(_)) => check!(!sure, "no quote for gas {gas} to {dest}: {e}"),
                        (Err(_), None) => {}
                    }
                }
                let mut want: BTreeMap<String, Bag> = BTreeMap::new();
                for a in users.iter().chain([&igp, &refund, &m]) {
                    want.insert(a.clone(), c.bag(a));
                }
                let r = match op {
                    0 => c.x(&users[who], &igp, json!({"pay_for_gas": {"message_id": hx(&g.bytes(32)), "dest_domain": dest, "gas_amount": gas.to_string(), "refund_address": refund}}), &bag_coins(&funds)),
                    1 => c.x(&users[who], &igp, post_dispatch(&meta, &direct.encode()), &bag_coins(&funds)),
                    _ => c.x(&users[who], &m, d.msg(), &bag_coins(&funds)),
                };
                g.log(|| format!("payment (variant {op}) of {funds:?} for gas {gas} to {dest} costing {amount:?}, refund to {refund} -> {}", short_err(&r)));
                let covers = only && amount.is_some_and(|a| paid >= a);
                match r {
                    Ok(tx) => {
                        check!(covers, "a payment of {funds:?} for a cost of {amount:?} was accepted");
                        let a = amount.unwrap();
                        check!(valid_refund || paid == a, "an excess was refunded to no account");
                        let sub = bag_sub(&want[&users[who]], &funds).unwrap();
                        want.insert(users[who].clone(), sub);
                        bag_add(want.get_mut(&igp).unwrap(), &bag(&[coin(a, token)]));
                        bag_add(want.get_mut(&refund).unwrap(), &bag(&[coin(paid - a, token)]));
                        for (acc, w) in &want {
                            check_eq!(c.bag(acc), *w, "balance of {acc} after paying {paid} for a cost of {a} with refund address {refund} (payer {}, paymaster {igp})", users[who]);
                        }
                        if refund == igp {
                            bag_add(&mut held, &bag(&[coin(paid - a, token)]));
                        }
                        bag_add(&mut held, &bag(&[coin(a, token)]));
                        if paid > a {
                            refunds += 1;
                        }
                        if op == 2 {
                            let q = tx.calls(&igp);
                            check_eq!(q.len(), 1usize, "calls of the paymaster");
                        }
                        g.label(["direct payment", "post dispatch", "through a mailbox"][op]);
                    }
                    Err(e) => {
                        check!(!(covers && sure && valid_refund), "a payment of {funds:?} for a cost of {amount:?} was refused: {e}");
                        c.unchanged(&before, "a refused payment")?;
                        refused += 1;
                    }
                }
            }
            3 => {
                let before = c.state();
                let ub: Vec<Bag> = users.iter().map(|u| c.bag(u)).collect();
                let r = c.x(&users[who], &igp, json!({"claim": {}}), &[]);
                let due = held.get(token).copied().unwrap_or(0);
                g.log(|| format!("account {who} claims {due} -> {}", short_err(&r)));
                if who != beneficiary {
                    check!(r.is_err(), "account {who} claimed instead of the beneficiary {beneficiary}");
                    c.unchanged(&before, "a refused claim")?;
                } else if due > 0 {
                    if let Err(e) = r {
                        return Err(format!("the beneficiary's claim of {due} was refused: {e}"));
                    }
                    held.remove(token);
                    claims += 1;
                    for (i, u) in users.iter().enumerate() {
                        let mut w = ub[i].clone();
                        if i == who {
                            bag_add(&mut w, &bag(&[coin(due, token)]));
                        }
                        check_eq!(c.bag(u), w, "balance of account {i} after the claim");
                    }
                }
            }
            4 => {
                beneficiary = who;
                c.ok(&owner, &igp, json!({"set_beneficiary": {"beneficiary": users[who]}}));
            }
            5 => {
                let d = *g.pick(&domains[..2]);
                let (rate, price) = gen_price(g);
                c.ok(&owner, &oracle, json!({"set_remote_gas_data": {"config": gas_data(d, rate, price)}}));
                data.insert(d, (rate, price));
            }
            6 => {
                let d = *g.pick(&domains);
                if g.bool() {
                    let v = g.amount(1 << 50);
                    c.ok(&owner, &igp, json!({"set_gas_for_domain": {"config": [[d, v.to_string()]]}}));
                    domain_gas.insert(d, v);
                } else {
                    default_gas = g.amount(1 << 50);
                    c.ok(&owner, &igp, json!({"set_default_gas": {"gas": default_gas.to_string()}}));
                }
            }
            _ => {
                let b = bag(&[coin(1 + g.amount(1000), g.pick::<&str>(&DENOMS))]);
                c.send(&users[who], &igp, &bag_coins(&b)).expect("harness: send");
                bag_add(&mut held, &b);
            }
        }
        check_eq!(c.bag(&igp), held, "balance of the paymaster");
        check_eq!(c.bag(&m), Bag::new(), "balance of the mailbox");
        check_eq!(c.bag(&required), Bag::new(), "balance of the other hook");
    }
    if refunds > 0 && refused > 0 && claims > 0 {
        g.nontrivial();
    }
    Ok(())
}

fn check_quote(q: Result<V, String>, data: &BTreeMap<u32, (u128, u128)>, dest: u32, gas: Uint256) -> Result<(), String> {
    match (q, data.get(&dest)) {
        (Ok(v), Some((rate, price))) => {
            let (want, _) = exact(gas, *price, *rate);
            check_eq!(v.as_str().unwrap_or("?"), want.to_string(), "quote for gas {gas} at price {price} and rate {rate}");
        }
        (Ok(v), None) => return Err(format!("quoted {v} for domain {dest} without data")),
        (Err(e), Some((rate, price))) => check!(!exact(gas, *price, *rate).1, "no quote for gas {gas} at price {price} and rate {rate}: {e}"),
        (Err(_), None) => {}
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

fn c19(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let owner = c.acc("owner");
    let stranger = gen_account(g, &c);
    let user = gen_account(g, &c);
    let token = DENOMS[0];
    c.mint(&user, token, u128::MAX >> 1);
    let mut default_gas = g.amount(u128::MAX);
    let igp = new_igp(&c, &owner, &owner, token, default_gas);
    // now and then a large configuration
    let big = g.chance(1, 20);
    let domains = gen_domains(g, if big { 40 } else { 4 });
    let oracles: Vec<String> = (0..2).map(|_| c.make(ORACLE, &owner, json!({"owner": owner}))).collect();
    let mut data: [BTreeMap<u32, (u128, u128)>; 2] = Default::default();
    let mut routes: BTreeMap<u32, usize> = BTreeMap::new();
    let mut gas_for: BTreeMap<u32, u128> = BTreeMap::new();
    let (mut overwritten, mut quoted, mut unquoted) = (0, 0, 0);
    let ops = g.list(if big { 6 } else { 16 }, if big { 12 } else { 50 }, |g| g.weighted(&[3, 4, 3, 2, 2, 2, 1]));
    for op in ops {
        let as_owner = g.chance(9, 10);
        let by = if as_owner { &owner } else { &stranger };
        let before = c.state();
        let (r, what) = match op {
            0 => {
                let d = *g.pick(&domains);
                let t = if g.chance(1, 5) { None } else { Some(g.idx(2)) };
                let r = c.x(by, &igp, set_route(d, t.map(|t| oracles[t].as_str())), &[]);
                if as_owner {
                    match t {
                        Some(t) => overwritten += routes.insert(d, t).is_some() as u32,
                        None => overwritten += routes.remove(&d).is_some() as u32,
                    }
                }
                (r, format!("route of {d} := {t:?}"))
            }
            1 | 2 => {
                let o = g.idx(2);
                let n = if op == 1 { 1 } else { g.below(if big { 60 } else { 5 }) as usize };
                let mut set = vec![];
                for _ in 0..n {
                    let (mut rate, price) = gen_price(g);
                    if g.chance(1, if big { 60 } else { 6 }) {
                        rate = 0;
                    }
                    set.push((*g.pick(&domains), rate, price));
                }
                let j: Vec<V> = set.iter().map(|v| gas_data(v.0, v.1, v.2)).collect();
                let r = if op == 1 { c.x(by, &oracles[o], json!({"set_remote_gas_data": {"config": j[0]}}), &[]) } else { c.x(by, &oracles[o], json!({"set_remote_gas_data_configs": {"configs": j}}), &[]) };
                g.log(|| format!("oracle {o} := {set:?} by {} -> {}", if as_owner { "owner" } else { "stranger" }, short_err(&r)));
                if set.iter().any(|v| v.1 == 0) {
                    check!(r.is_err(), "a zero exchange rate was accepted: {set:?}");
                    c.unchanged(&before, "a refused gas configuration")?;
                    g.label("zero rate");
                    continue;
                }
                if as_owner {
                    for (d, rate, price) in &set {
                        overwritten += data[o].insert(*d, (*rate, *price)).is_some() as u32;
                    }
                }
                (r, format!("oracle {o} := {set:?}"))
            }
            3 => {
                let v = g.amount(u128::MAX);
                let r = c.x(by, &igp, json!({"set_default_gas": {"gas": v.to_string()}}), &[]);
                if as_owner {
                    default_gas = v;
                }
                (r, format!("default gas := {v}"))
            }
            4 => {
                let set: Vec<(u32, u128)> = g.list(if big { 30 } else { 2 }, if big { 60 } else { 4 }, |g| (*g.pick(&domains), g.amount(u128::MAX)));
                let r = c.x(by, &igp, json!({"set_gas_for_domain": {"config": set.iter().map(|v| json!([v.0, v.1.to_string()])).collect::<Vec<_>>()}}), &[]);
                if as_owner {
                    for (d, v) in &set {
                        overwritten += gas_for.insert(*d, *v).is_some() as u32;
                    }
                }
                (r, format!("gas := {set:?}"))
            }
            5 => {
                let set: Vec<u32> = g.list(if big { 20 } else { 1 }, if big { 40 } else { 3 }, |g| *g.pick(&domains));
                let r = c.x(by, &igp, json!({"unset_gas_for_domain": {"domains": set}}), &[]);
                if as_owner {
                    for d in &set {
                        overwritten += gas_for.remove(d).is_some() as u32;
                    }
                }
                (r, format!("gas unset for {set:?}"))
            }
            _ => {
                let set: Vec<(u32, Option<usize>)> = g.list(if big { 30 } else { 2 }, if big { 60 } else { 4 }, |g| (*g.pick(&domains), if g.chance(1, 3) { None } else { Some(g.idx(2)) }));
                let r = c.x(by, &igp, json!({"router": {"set_routes": {"set": set.iter().map(|(d, t)| json!({"domain": d, "route": t.map(|t| oracles[t].clone())})).collect::<Vec<_>>()}}}), &[]);
                if as_owner {
                    for (d, t) in &set {
                        match t {
                            Some(t) => overwritten += routes.insert(*d, *t).is_some() as u32,
                            None => overwritten += routes.remove(d).is_some() as u32,
                        }
                    }
                }
                (r, format!("routes := {set:?}"))
            }
        };
        g.log(|| format!("{what} by {} -> {}", if as_owner { "owner" } else { "stranger" }, short_err(&r)));
        if as_owner {
            if let Err(e) = r {
                return Err(format!("the owner's valid update ({what}) was refused: {e}"));
            }
        } else {
            check!(r.is_err(), "a stranger's update ({what}) was accepted");
            c.unchanged(&before, "a stranger's update")?;
        }
        // everything reported
        check_eq!(c.q(&igp, json!({"igp": {"default_gas": {}}}))?["gas"], json!(default_gas.to_string()), "default gas");
        // several domains in one question, in any order
        let mut several: Vec<u32> = gas_for.keys().copied().collect();
        let by = g.u64();
        several.sort_by_key(|d| (*d as u64 ^ by).wrapping_mul(0x9e37_79b9_7f4a_7c15));
        let want: Vec<V> = several.iter().map(|d| json!([d, gas_for[d].to_string()])).collect();
        check_eq!(c.q(&igp, json!({"igp": {"gas_for_domain": {"domains": several}}}))?["gas"], json!(want), "gas for domains {several:?}");
        for d in &domains {
            let q = c.q(&igp, json!({"igp": {"gas_for_domain": {"domains": [d]}}}));
            match (q, gas_for.get(d)) {
                (Ok(v), Some(w)) => check_eq!(v["gas"], json!([[d, w.to_string()]]), "gas for domain {d}"),
                (Ok(v), None) => check!(v["gas"].as_array().is_some_and(|a| a.is_empty()), "gas for domain {d} reported although unset: {v}"),
                (Err(e), Some(_)) => return Err(format!("gas for domain {d} is not reported: {e}")),
                (Err(_), None) => {}
            }
            for (i, o) in oracles.iter().enumerate() {
                let q = c.q(o, json!({"oracle": {"get_exchange_rate_and_gas_price": {"dest_domain": d}}}));
                match (q, data[i].get(d)) {
                    (Ok(v), Some((rate, price))) => check_eq!(v, json!({"gas_price": price.to_string(), "exchange_rate": rate.to_string()}), "data of oracle {i} for {d}"),
                    (Ok(v), None) => return Err(format!("oracle {i} reports {v} for domain {d} without data")),
                    (Err(e), Some(_)) => return Err(format!("oracle {i} does not report domain {d}: {e}")),
                    (Err(_), None) => {}
                }
            }
            let have = routes.get(d).and_then(|o| data[*o].get(d));
            let q = c.q(&igp, json!({"oracle": {"get_exchange_rate_and_gas_price": {"dest_domain": d}}}));
            match (q, have) {
                (Ok(v), Some((rate, price))) => check_eq!(v, json!({"gas_price": price.to_string(), "exchange_rate": rate.to_string()}), "data the paymaster reports for {d}"),
                (Ok(v), None) => return Err(format!("the paymaster reports {v} for domain {d} without oracle or data")),
                (Err(e), Some(_)) => return Err(format!("the paymaster does not report domain {d}: {e}")),
                (Err(_), None) => {}
            }
            // a message without gas metadata uses the default gas
            let msg = RefMsg { version: 3, nonce: 0, origin: 1, sender: c.wire(&user), dest: *d, recipient: [1; 32], body: vec![] }.encode();
            let gas = Uint256::from(*gas_for.get(d).unwrap_or(&default_gas));
            let q = quote_hook(&c, &igp, &[], &msg);
            match (&q, have) {
                (Ok(v), Some((rate, price))) => {
                    let want = exact(gas, *price, *rate).0;
                    let got = bag(v);
                    check!(got.keys().all(|k| k == token), "quoted in {got:?}");
                    check_eq!(Uint512::from(got.get(token).copied().unwrap_or(0)), want, "default quote for {d}: gas {gas} price {price} rate {rate}");
                    quoted += 1;
                }
                (Ok(v), None) => return Err(format!("quoted {v:?} for domain {d} without oracle or data")),
                (Err(e), Some((rate, price))) => {
                    let (w, sure) = exact(gas, *price, *rate);
                    check!(!sure || Uint128::try_from(w).is_err(), "no default quote for {d}: gas {gas} price {price} rate {rate}: {e}");
                }
                (Err(_), None) => unquoted += 1,
            }
        }
        if g.chance(1, 3) {
            let d = *g.pick(&domains);
            if routes.get(&d).and_then(|o| data[*o].get(&d)).is_none() {
                let before = c.state();
                let funds = if g.bool() { vec![coin(1 + g.amount(u128::MAX >> 2), token)] } else { vec![] };
                let gas = gen_gas(g).to_string();
                let r = c.x(&user, &igp, json!({"pay_for_gas": {"message_id": hx(&[0; 32]), "dest_domain": d, "gas_amount": if g.bool() { gas } else { "0".into() }, "refund_address": user}}), &funds);
                check!(r.is_err(), "a payment for domain {d} without oracle or data was accepted");
                c.unchanged(&before, "a refused payment")?;
            }
        }
    }
    if overwritten > 0 && quoted > 0 && unquoted > 0 {
        g.nontrivial();
    }
    Ok(())
}
