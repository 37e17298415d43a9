//! C05 sufficient quotes, C09 merkle hook, C20 routing hooks, C21 aggregate hook, C22 fee hook.
use super::igp::cost;
use super::isms::gen_domains;
use super::mailbox::{any_denom, gen_hook_cfg, DENOMS, MORE};
use super::{Prop, SIM};
use crate::chain::{Act, Chain};
use crate::codes::*;
use crate::engine::{Sub, G};
use crate::refs::{self, RefMsg};
use crate::world::*;
use cosmwasm_std::{Uint128, Uint256};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            assumptions: vec![SIM, "a paymaster whose cost does not fit its arithmetic may have no quote"],
            subs: vec![Sub { name: "hook-graphs", cases: (80_000, 500_000), rule: "a quoted, non-zero fee was paid through at least one composed hook", run: c05 }],
        },
        Prop {
            id: "C09",
            assumptions: vec![SIM],
            subs: vec![
                Sub { name: "merkle-history", cases: (4_000, 50_000), rule: "at least three insertions and one refused direct call", run: c09 },
                Sub { name: "long-history", cases: (300, 4_000), rule: "at least 64 insertions", run: c09_long },
            ],
        },
        Prop {
            id: "C20",
            assumptions: vec![SIM],
            subs: vec![Sub { name: "routing-hook-history", cases: (100_000, 600_000), rule: "messages were forwarded to two different hooks and one was refused", run: c20 }],
        },
        Prop {
            id: "C21",
            assumptions: vec![SIM],
            subs: vec![Sub { name: "aggregate-hook-history", cases: (40_000, 500_000), rule: "a call reached at least two children and one was refused", run: c21 }],
        },
        Prop {
            id: "C22",
            assumptions: vec![SIM, "a claim of an empty balance is not asserted"],
            subs: vec![Sub { name: "fee-hook-history", cases: (80_000, 900_000), rule: "a payment was accepted, one refused and a claim made", run: c22 }],
        },
    ]
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug)]
enum Kind {
    Fee(String, u128),
    Igp { denom: String, oracles: BTreeMap<u32, BTreeMap<u32, (u128, u128)>>, default: u128, domain: BTreeMap<u32, u128> },
    Merkle,
    Pausable,
    Aggregate(Vec<usize>),
    Route { routes: BTreeMap<u32, usize>, custom: BTreeMap<(u32, Vec<u8>), usize>, fallback: Option<usize> },
    /// a contract charging by the content of the message
    Mock(Cfg),
}

#[derive(Clone, Debug)]
struct Node {
    addr: String,
    kind: Kind,
}

enum Quote {
    Known(Bag),
    /// arithmetic out of range: nothing is asserted about the quote
    Unknown,
    None,
}

/// What `node` charges for a message; what each leaf receives is added to `paid`.
fn charge(nodes: &[Node], i: usize, msg: &RefMsg, meta: &[u8], paid: &mut BTreeMap<usize, Bag>) -> Quote {
    let leaf = |d: &str, a: u128, paid: &mut BTreeMap<usize, Bag>| {
        let b = bag(&[coin(a, d)]);
        bag_add(paid.entry(i).or_default(), &b);
        Quote::Known(b)
    };
    match &nodes[i].kind {
        Kind::Fee(d, a) => leaf(d, *a, paid),
        Kind::Merkle | Kind::Pausable => Quote::Known(Bag::new()),
        Kind::Mock(cfg) => {
            let b = bag(&mock_quote(cfg, meta, &msg.encode()));
            bag_add(paid.entry(i).or_default(), &b);
            Quote::Known(b)
        }
        Kind::Igp { denom, oracles, default, domain } => {
            let Some((rate, price)) = oracles.get(&msg.dest).and_then(|o| o.get(&msg.dest)) else { return Quote::None };
            let gas = if meta.len() >= 32 { Uint256::from_be_bytes(meta[..32].try_into().unwrap()) } else { Uint256::from(*domain.get(&msg.dest).unwrap_or(default)) };
            match cost(gas, *price, *rate) {
                Some(c) => match Uint128::try_from(c) {
                    Ok(c) => leaf(denom, c.u128(), paid),
                    Err(_) => Quote::None,
                },
                None => Quote::Unknown,
            }
        }
        Kind::Aggregate(v) => {
            let mut sum = Bag::new();
            let mut unknown = false;
            for c in v {
                match charge(nodes, *c, msg, meta, paid) {
                    Quote::Known(b) => {
                        for (d, a) in b {
                            let e = sum.entry(d).or_insert(0u128);
                            match e.checked_add(a) {
                                Some(v) => *e = v,
                                None => return Quote::None,
                            }
                        }
                    }
                    Quote::Unknown => unknown = true,
                    Quote::None => return Quote::None,
                }
            }
            if unknown {
                Quote::Unknown
            } else {
                Quote::Known(sum)
            }
        }
        Kind::Route { routes, custom, fallback } => {
            match custom.get(&(msg.dest, msg.recipient.to_vec())).or(routes.get(&msg.dest)).copied().or(*fallback) {
                Some(t) => charge(nodes, t, msg, meta, paid),
                None => Quote::None,
            }
        }
    }
}

fn c05(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let origin = g.domain();
    let owner = c.acc("owner");
    let m = mailbox(&c, &owner, origin);
    c.ok(&owner, &m, json!({"set_default_ism": {"ism": c.mock(&Cfg::default())}}));
    let dests = gen_domains(g, 3);
    let recipients: Vec<Vec<u8>> = (0..3).map(|_| gen_wire(g)).collect();
    for d in DENOMS.iter().chain(&MORE) {
        c.mint(&c.acc("whale"), d, 1);
    }
    let mut nodes: Vec<Node> = vec![];
    // calls a node leads to: what a transaction can pay for is bounded
    let mut weight: Vec<usize> = vec![];
    // seldom a wide graph: many leaves under aggregates of many hooks
    let wide = g.chance(1, 12);
    let n = if wide { g.range(12, 30) } else { g.range(2, 9) } as usize;
    for i in 0..n {
        let leaf = if wide { i < n - 3 } else { i < 2 || g.chance(1, 3) };
        let which = if leaf { [0, 1, 2, 3, 8][g.weighted(&[4, if wide { 1 } else { 4 }, 2, 1, 2])] } else { 4 + g.weighted(&[3, 2, 2, 2]) };
        odd_address(g, &c);
        let (addr, kind) = match which {
            0 => {
                let (d, a) = (any_denom(g).to_string(), if g.chance(1, 5) { 0 } else { g.amount(1 << 100) });
                (c.make(HOOK_FEE, &owner, json!({"owner": owner, "fee": jcoin(&coin(a, &d))})), Kind::Fee(d, a))
            }
            1 => {
                let denom = any_denom(g).to_string();
                let default = g.amount(1_000_000_000);
                let a = c.make(IGP, &owner, json!({"hrp": c.hrp(), "owner": owner, "gas_token": denom, "beneficiary": owner, "default_gas_usage": default.to_string()}));
                let mut domain = BTreeMap::new();
                let mut oracles = BTreeMap::new();
                for d in &dests {
                    if g.chance(1, 3) {
                        let v = g.amount(1 << 60);
                        c.ok(&owner, &a, json!({"set_gas_for_domain": {"config": [[d, v.to_string()]]}}));
                        domain.insert(*d, v);
                    }
                    if g.chance(11, 12) {
                        let o = c.make(ORACLE, &owner, json!({"owner": owner}));
                        c.ok(&owner, &a, set_route(*d, Some(&o)));
                        let mut data = BTreeMap::new();
                        if g.chance(11, 12) {
                            let rate = 1 + if g.bool() { g.amount(1 << 44) } else { g.amount(u128::MAX - 1) };
                            let price = if g.bool() { g.amount(1 << 20) } else { g.amount(1 << 90) };
                            c.ok(&owner, &o, json!({"set_remote_gas_data": {"config": {"remote_domain": d, "token_exchange_rate": rate.to_string(), "gas_price": price.to_string()}}}));
                            data.insert(*d, (rate, price));
                        }
                        oracles.insert(*d, data);
                    }
                }
                (a, Kind::Igp { denom, oracles, default, domain })
            }
            2 => (c.make(HOOK_MERKLE, &owner, json!({"mailbox": m})), Kind::Merkle),
            3 => (c.make(HOOK_PAUSABLE, &owner, json!({"owner": owner, "paused": false})), Kind::Pausable),
            8 => {
                let mut cfg = Cfg { fail: false, ..gen_hook_cfg(g, i) };
                cfg.keyed.retain(|d| cfg.quote.iter().all(|q| q.denom != *d));
                (c.mock(&cfg), Kind::Mock(cfg))
            }
            4 => {
                let v = if wide { g.list(12, 24, |g| if g.chance(1, 5) { i - 1 } else { g.idx(i) }) } else { g.list(2, 4, |g| g.idx(i)) };
                let mut total = 0;
                let v: Vec<usize> = v.into_iter().take_while(|c| { total += weight[*c]; total < 120 }).collect();
                (c.make(HOOK_AGGREGATE, &owner, json!({"owner": owner, "hooks": v.iter().map(|i| nodes[*i].addr.clone()).collect::<Vec<_>>()})), Kind::Aggregate(v))
            }
            w => {
                let code = [HOOK_ROUTING, HOOK_CUSTOM, HOOK_FALLBACK][w - 5];
                let a = c.make(code, &owner, json!({"owner": owner}));
                let (mut routes, mut custom, mut fallback) = (BTreeMap::new(), BTreeMap::new(), None);
                for d in &dests {
                    if g.chance(8, 9) {
                        let t = g.idx(i);
                        c.ok(&owner, &a, set_route(*d, Some(&nodes[t].addr)));
                        routes.insert(*d, t);
                    }
                    if code == HOOK_CUSTOM && g.bool() {
                        let (t, r) = (g.idx(i), g.pick(&recipients).clone());
                        c.ok(&owner, &a, json!({"register_custom_hook": {"dest_domain": d, "recipient": hx(&r), "hook": nodes[t].addr}}));
                        custom.insert((*d, r), t);
                    }
                }
                if code == HOOK_FALLBACK && g.chance(3, 4) {
                    let t = g.idx(i);
                    c.ok(&owner, &a, json!({"set_fallback_hook": {"hook": nodes[t].addr}}));
                    fallback = Some(t);
                }
                (a, Kind::Route { routes, custom, fallback })
            }
        };
        g.log(|| format!("hook {i}: {kind:?}"));
        weight.push(1 + match &kind {
            Kind::Aggregate(v) => v.iter().map(|c| weight[*c]).sum(),
            Kind::Route { routes, custom, fallback } => routes.values().chain(custom.values()).chain(fallback).map(|c| weight[*c]).max().unwrap_or(0),
            _ => 0,
        });
        nodes.push(Node { addr, kind });
    }
    let (req, def) = (n - 1 - g.idx(n), n - 1 - g.idx(n));
    c.ok(&owner, &m, json!({"set_default_hook": {"hook": nodes[def].addr}}));
    c.ok(&owner, &m, json!({"set_required_hook": {"hook": nodes[req].addr}}));
    let users = [gen_account(g, &c), gen_account(g, &c), owner.clone(), c.mock(&Cfg::default())];
    let rounds = g.range(1, 4);
    for r in 0..rounds {
        let mut d = gen_disp(g);
        let user = g.pick(&users).clone();
        if r == 1 && g.chance(1, 4) {
            let next = gen_account(g, &c);
            c.ok(&owner, &m, json!({"ownable": {"init_ownership_transfer": {"next_owner": next}}}));
        }
        d.dest = *g.pick(&dests);
        d.recipient = g.pick(&recipients).clone();
        if g.chance(1, 3) {
            // gas limit of a paymaster
            let mut b = vec![0; 16];
            b.extend_from_slice(&g.amount(1 << 70).to_be_bytes());
            match g.below(4) {
                0 => {}
                1 => b.extend(g.bytes(20)),
                2 => b.extend(gen_wire(g)),
                _ => b.extend(gen_body(g, 70)),
            }
            d.metadata = Some(b);
        } else if d.metadata.as_ref().is_some_and(|m| m.len() >= 32) && g.bool() {
            d.metadata = None;
        }
        if g.chance(1, 3) {
            d.hook = Some(nodes[g.idx(n)].addr.clone());
        }
        let chosen = d.hook.as_ref().map(|h| nodes.iter().position(|x| x.addr == *h).unwrap()).unwrap_or(def);
        let msg = d.expect(&c, &user, r as u32, origin);
        let meta = d.metadata.clone().unwrap_or_default();
        // earlier rounds may not have dispatched: the nonce is the mailbox's
        let msg = RefMsg { nonce: nonce(&c, &m) as u32, ..msg? };
        let mut paid = BTreeMap::new();
        let (a, b) = (charge(&nodes, req, &msg, &meta, &mut paid), charge(&nodes, chosen, &msg, &meta, &mut paid));
        let quote = c.q(&m, d.quote(&user)).and_then(|v| parse_coins(&v["fees"]));
        g.log(|| format!("message to {} with {} bytes of metadata, required hook {req}, chosen {chosen}: quote {quote:?}", d.dest, meta.len()));
        let model = match (a, b) {
            (Quote::None, _) | (_, Quote::None) => None,
            (Quote::Known(mut a), Quote::Known(b)) => {
                let over = b.iter().any(|(d, v)| a.get(d).copied().unwrap_or(0).checked_add(*v).is_none());
                if over {
                    None
                } else {
                    bag_add(&mut a, &b);
                    Some(Some(a))
                }
            }
            _ => Some(None),
        };
        let Ok(quote) = quote else {
            check!(!matches!(model, Some(Some(_))), "the mailbox quotes no fee although every hook does: {:?}", quote);
            g.label("no quote");
            continue;
        };
        let q = bag(&quote);
        check_eq!(quote.len(), q.len(), "number of non-zero, distinct coins quoted");
        match &model {
            None => return Err(format!("the mailbox quotes {q:?} although a hook has no quote")),
            Some(Some(w)) => check_eq!(q, *w, "quoted fee"),
            Some(None) => {}
        }
        for (d, a) in &q {
            if c.supply(d).checked_add(*a).is_none() {
                return Ok(());
            }
            c.mint(&user, d, *a);
        }
        let before: Vec<Bag> = nodes.iter().map(|n| c.bag(&n.addr)).collect();
        let (mb, ub) = (c.bag(&m), c.bag(&user));
        let tx = c.x(&user, &m, d.msg(), &quote);
        if let Err(e) = tx {
            return Err(format!("a dispatch paying exactly the quoted {q:?} was refused: {e}"));
        }
        check_eq!(c.bag(&m), mb, "mailbox balance");
        check_eq!(c.bag(&user), bag_sub(&ub, &q).unwrap(), "balance of the caller after paying {q:?}");
        for (i, node) in nodes.iter().enumerate() {
            let mut w = before[i].clone();
            bag_add(&mut w, paid.get(&i).unwrap_or(&Bag::new()));
            if matches!(model, Some(Some(_))) {
                check_eq!(c.bag(&node.addr), w, "balance of hook {i} ({:?})", node.kind);
            }
        }
        if !q.is_empty() && [req, chosen].iter().any(|i| matches!(nodes[*i].kind, Kind::Aggregate(_) | Kind::Route { .. })) {
            g.nontrivial();
        }
        g.label(if q.is_empty() { "free dispatch" } else { "paid dispatch" });
        if q.len() > 1 {
            g.label("several denominations");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

struct TreeModel {
    hook: String,
    leaves: Vec<[u8; 32]>,
}

impl TreeModel {
    fn check(&self, c: &Chain) -> Result<(), String> {
        let n = self.leaves.len();
        let layers = refs::layers(&self.leaves);
        let root = hx(&refs::tree_root(&self.leaves));
        let q = |k: &str| c.q(&self.hook, json!({"merkle_hook": {k: {}}}));
        check_eq!(q("count")?["count"], json!(n), "leaf count");
        check_eq!(q("root")?["root"], json!(root), "root over {n} leaves");
        check_eq!(q("check_point")?, json!({"root": root, "count": n.saturating_sub(1)}), "checkpoint over {n} leaves");
        let tree = q("tree")?;
        check_eq!(tree["count"], json!(n), "leaf count of the tree query");
        check_eq!(q("branch")?["branch"], tree["branch"], "branch query against tree query");
        let b = tree["branch"].as_array().ok_or("no branch")?;
        check_eq!(b.len(), 32usize, "length of the branch");
        for (i, v) in b.iter().enumerate() {
            if n >> i & 1 == 1 {
                // the last complete subtree of 2^i leaves
                let want = layers[i][(n >> i) - 1];
                check_eq!(*v, json!(hx(&want)), "branch {i} over {n} leaves");
            }
        }
        Ok(())
    }
}

fn c09(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let owner = c.acc("owner");
    let origin = g.domain();
    let (m, ism, mock_a, mock_b) = full_mailbox(&c, &owner, origin);
    let other = full_mailbox(&c, &owner, if g.bool() { origin } else { g.domain() }).0;
    let _ = ism;
    let mut t: Vec<TreeModel> = (0..2).map(|i| TreeModel { hook: c.make(HOOK_MERKLE, &owner, json!({"mailbox": if i == 0 { &m } else { &other }})), leaves: vec![] }).collect();
    for (t, w) in t.iter().zip([&m, &other]) {
        check_eq!(c.q(&t.hook, json!({"hook": {"mailbox": {}}}))?["mailbox"], json!(w), "mailbox of the hook");
        t.check(&c)?;
    }
    if g.bool() {
        c.ok(&owner, &m, json!({"set_required_hook": {"hook": t[0].hook}}));
    } else {
        c.ok(&owner, &m, json!({"set_default_hook": {"hook": t[0].hook}}));
    }
    c.ok(&owner, &other, json!({"set_required_hook": {"hook": t[1].hook}}));
    let user = gen_account(g, &c);
    c.mint(&user, "uatom", 1_000_000);
    let boxes = [m.clone(), other.clone()];
    // messages dispatched through each mailbox, in order
    let mut sent: [Vec<RefMsg>; 2] = Default::default();
    let (mut inserted, mut refused) = (0, 0);
    let origins = [origin, c.q(&other, json!({"mailbox": {"local_domain": {}}}))?["local_domain"].as_u64().unwrap_or(0) as u32];
    let ops = g.list(16, 60, |g| g.weighted(&[10, 6, 1, 1, 2]));
    for op in ops {
        match op {
            0 | 2 | 3 => {
                let w = if g.chance(1, 4) { 1 } else { 0 };
                let mut d = gen_disp(g);
                match g.below(5) {
                    3 => d.hook = Some(t[w].hook.clone()),
                    4 => d.hook = Some(t[1 - w].hook.clone()),
                    _ => {}
                }
                if op == 2 {
                    // a hook dispatches another message while it is called
                    let nested = gen_disp(g);
                    let a = Action::new(&boxes[w], &nested.msg(), &[], g.bool());
                    let which = if g.bool() { &mock_a } else { &mock_b };
                    c.set_mock(which, &Cfg { reenter: vec![a], ..Default::default() });
                }
                if op == 3 {
                    c.set_mock(if g.bool() { &mock_a } else { &mock_b }, &Cfg { fail: true, ..Default::default() });
                }
                let before = c.state();
                let r = c.x(&user, &boxes[w], d.msg(), &[]);
                g.log(|| format!("dispatch through mailbox {w} (variant {op}, hook {:?}) -> {}", d.hook, short_err(&r)));
                match r {
                    Ok(tx) => {
                        // follow the calls in the order they were made
                        for s in &tx.steps {
                            let Act::Exec { sender, contract, msg, .. } = &s.act else { continue };
                            let v: V = serde_json::from_slice(msg).unwrap_or(V::Null);
                            if let Some(b) = boxes.iter().position(|b| b == contract) {
                                if let Some(d) = Disp::parse(&v) {
                                    let msg = d.expect(&c, sender, sent[b].len() as u32, origins[b])?;
                                    sent[b].push(msg);
                                }
                            }
                            if let Some(b) = t.iter().position(|t| t.hook == *contract) {
                                let got = parse_hex(v["post_dispatch"]["message"].as_str().unwrap_or("!")).unwrap_or_default();
                                let id = refs::keccak(&[&got]);
                                check!(sent[b].last().map(|m| m.id()) == Some(id), "a message that was not the latest one dispatched was inserted");
                                t[b].leaves.push(id);
                                inserted += 1;
                                let want = (t[b].leaves.len() - 1).to_string();
                                check!(
                                    tx.ev(contract, "hpl_hook_merkle::post_dispatch").iter().any(|e| e.attr("index") == Some(&want) && e.attr("message_id") == Some(&hx(&id))),
                                    "no post_dispatch event with index {want} for the inserted message"
                                );
                                check!(tx.ev(contract, "hpl_hook_merkle::inserted_into_tree").iter().any(|e| e.attr("index") == Some(&want)), "index {want} was not announced");
                            }
                        }
                        // the hook chain was called for the outer message
                        let calls: usize = t.iter().map(|t| tx.calls(&t.hook).len()).sum();
                        let required = w == 1 || c.q(&m, json!({"mailbox": {"required_hook": {}}}))?["required_hook"] == json!(t[0].hook);
                        check!(!required || calls > 0, "the merkle hook was not called");
                        let announced: usize = t.iter().map(|t| tx.ev(&t.hook, "hpl_hook_merkle::inserted_into_tree").len()).sum();
                        check_eq!(announced, calls, "number of announced insertions");
                    }
                    Err(_) => {
                        c.unchanged(&before, "a refused dispatch")?;
                        if op == 0 && d.hook.as_deref() != Some(&t[1 - w].hook) {
                            return Err("a valid dispatch through a merkle hook was refused".into());
                        }
                        g.label("refused dispatch");
                    }
                }
                c.set_mock(&mock_a, &Cfg::default());
                c.set_mock(&mock_b, &Cfg::default());
            }
            1 => {
                // a direct call
                let w = g.idx(2);
                let all = &sent[if g.chance(1, 5) { 1 - w } else { w }];
                let mut bytes = match g.below(4) {
                    0 if !all.is_empty() => all.last().unwrap().encode(),
                    1 if all.len() > 1 => all[g.idx(all.len() - 1)].encode(),
                    2 if !all.is_empty() => {
                        let mut m = all.last().unwrap().clone();
                        match g.below(5) {
                            0 => m.nonce = m.nonce.wrapping_add(1),
                            1 => m.body.push(0),
                            2 => m.version ^= 1,
                            3 => m.recipient[31] ^= 1,
                            _ => m.origin ^= 1,
                        }
                        m.encode()
                    }
                    _ => g.blob(120),
                };
                if g.chance(1, 6) && !bytes.is_empty() {
                    bytes.truncate(bytes.len() - 1);
                }
                let caller = match g.below(3) {
                    0 => user.clone(),
                    1 => boxes[w].clone(),
                    _ => owner.clone(),
                };
                let latest = sent[w].last().map(|m| m.encode());
                let before = c.state();
                let r = c.x(&caller, &t[w].hook, post_dispatch(&[], &bytes), &[]);
                g.log(|| format!("direct call of hook {w} with {} bytes -> {}", bytes.len(), short_err(&r)));
                if latest.as_ref() == Some(&bytes) {
                    // still the latest message: may be inserted once more
                    match r {
                        Ok(_) => t[w].leaves.push(refs::keccak(&[&bytes])),
                        Err(_) => c.unchanged(&before, "a refused direct call")?,
                    }
                    g.label("latest again");
                } else {
                    check!(r.is_err(), "a message that is not the latest dispatched one was accepted");
                    c.unchanged(&before, "a refused direct call")?;
                    refused += 1;
                }
            }
            _ => {
                let which = g.idx(2);
                let k = if which == 0 { "set_required_hook" } else { "set_default_hook" };
                let h = if g.bool() { t[0].hook.clone() } else { [mock_a.clone(), mock_b.clone()][which].clone() };
                c.ok(&owner, &m, json!({k: {"hook": h}}));
            }
        }
        for t in &t {
            t.check(&c)?;
        }
    }
    if inserted >= 3 && refused > 0 {
        g.nontrivial();
    }
    Ok(())
}

/// Many insertions.
fn c09_long(g: &mut G) -> Result<(), String> {
    merkle_long(g, true)
}

/// Many insertions; the announcements are checked, and the tree where wanted.
pub fn merkle_long(g: &mut G, tree: bool) -> Result<(), String> {
    let c = gen_chain(g);
    let owner = c.acc("owner");
    let origin = g.domain();
    let (m, ..) = full_mailbox(&c, &owner, origin);
    let mut t = TreeModel { hook: c.make(HOOK_MERKLE, &owner, json!({"mailbox": m})), leaves: vec![] };
    c.ok(&owner, &m, json!({"set_required_hook": {"hook": t.hook}}));
    let user = gen_account(g, &c);
    let n = if g.chance(1, 8) { g.range(250, 900) } else { g.range(10, 140) };
    g.log(|| format!("{n} dispatches through a merkle hook"));
    for i in 0..n {
        let dest = g.domain();
        let d = Disp { dest, recipient: g.fill(32), body: vec![i as u8], hook: None, metadata: None };
        let tx = c.x(&user, &m, d.msg(), &[]).map_err(|e| format!("a valid dispatch through a merkle hook was refused: {e}"))?;
        let id = d.expect(&c, &user, i as u32, origin)?.id();
        t.leaves.push(id);
        let want = i.to_string();
        check!(
            tx.ev(&t.hook, "hpl_hook_merkle::post_dispatch").iter().any(|e| e.attr("index") == Some(&want) && e.attr("message_id") == Some(&hx(&id))),
            "no post_dispatch event with index {want} for the inserted message"
        );
        let inserted = tx.ev(&t.hook, "hpl_hook_merkle::inserted_into_tree");
        check!(inserted.len() == 1 && inserted[0].attr("index") == Some(&want), "no inserted_into_tree event with index {want} alone");
        if tree && (g.chance(1, 24) || (i + 1).is_power_of_two() || i.is_power_of_two()) {
            t.check(&c)?;
        }
        if tree && g.chance(1, 24) {
            // an earlier message again
            let old = Disp { dest: g.domain(), recipient: g.fill(32), body: vec![], hook: None, metadata: None }.expect(&c, &user, i as u32, origin)?.encode();
            let before = c.state();
            check!(c.x(&user, &t.hook, post_dispatch(&[], &old), &[]).is_err(), "a message that is not the latest dispatched one was accepted");
            c.unchanged(&before, "a refused direct call")?;
        }
    }
    if tree {
        t.check(&c)?;
    }
    if n >= 64 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

fn gen_funds(g: &mut G) -> Bag {
    let mut b = Bag::new();
    for d in DENOMS {
        if g.chance(2, 5) {
            bag_add(&mut b, &bag(&[coin(1 + g.amount(1_000_000), d)]));
        }
    }
    b
}

fn c20(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let owner = c.acc("owner");
    let code = [HOOK_ROUTING, HOOK_CUSTOM, HOOK_FALLBACK][g.idx(3)];
    odd_address(g, &c);
    let hook = c.make(code, &owner, json!({"owner": owner}));
    let domains = if g.chance(1, 25) { gen_domains(g, 50) } else { gen_domains(g, 4) };
    let mut recips: Vec<Vec<u8>> = vec![gen_wire(g), gen_wire(g)];
    let mut near = recips[0].clone();
    near[31] ^= 1;
    recips.push(near);
    let mut cfgs = vec![];
    let mut targets = vec![];
    for i in 0..4 {
        let mut cfg = gen_hook_cfg(g, i);
        cfg.fail = i == 3 && g.bool();
        odd_address(g, &c);
        targets.push(c.mock(&cfg));
        cfgs.push(cfg);
    }
    let user = gen_account(g, &c);
    for d in DENOMS.iter().chain(&MORE) {
        c.mint(&user, d, 1 << 110);
        if g.chance(1, 3) {
            c.mint(&hook, d, g.below(5000) as u128);
        }
    }
    let mut routes: BTreeMap<u32, usize> = BTreeMap::new();
    let mut custom: BTreeMap<(u32, Vec<u8>), usize> = BTreeMap::new();
    let mut fallback: Option<usize> = None;
    let mut used = std::collections::BTreeSet::new();
    let mut refused = 0;
    let ops = g.list(14, 50, |g| g.weighted(&[8, 3, 1, 2, 1, 1, 1]));
    for op in ops {
        match op {
            1 => {
                let (d, t) = (*g.pick(&domains), g.idx(4));
                if g.chance(1, 4) {
                    c.ok(&owner, &hook, set_route(d, None));
                    routes.remove(&d);
                } else {
                    c.ok(&owner, &hook, set_route(d, Some(&targets[t])));
                    routes.insert(d, t);
                }
            }
            2 => {
                let set: Vec<(u32, Option<usize>)> = g.list(if domains.len() > 4 { 40 } else { 2 }, 2 * domains.len(), |g| (*g.pick(&domains), if g.chance(1, 3) { None } else { Some(g.idx(4)) }));
                c.ok(&owner, &hook, json!({"router": {"set_routes": {"set": set.iter().map(|(d, t)| json!({"domain": d, "route": t.map(|t| targets[t].clone())})).collect::<Vec<_>>()}}}));
                for (d, t) in set {
                    match t {
                        Some(t) => routes.insert(d, t),
                        None => routes.remove(&d),
                    };
                }
            }
            3 if code == HOOK_CUSTOM => {
                let set: Vec<(u32, Vec<u8>, usize)> = (0..g.range(1, 3)).map(|_| (*g.pick(&domains), g.pick(&recips).clone(), g.idx(4))).collect();
                let j: Vec<V> = set.iter().map(|(d, r, t)| json!({"dest_domain": d, "recipient": hx(r), "hook": targets[*t]})).collect();
                if j.len() == 1 {
                    c.ok(&owner, &hook, json!({"register_custom_hook": j[0]}));
                } else {
                    c.ok(&owner, &hook, json!({"register_custom_hooks": j}));
                }
                for (d, r, t) in set {
                    custom.insert((d, r), t);
                }
            }
            4 if code == HOOK_CUSTOM => {
                let set: Vec<(u32, Vec<u8>)> = (0..g.range(1, 2)).map(|_| (*g.pick(&domains), g.pick(&recips).clone())).collect();
                let j: Vec<V> = set.iter().map(|(d, r)| json!({"dest_domain": d, "recipient": hx(r)})).collect();
                if j.len() == 1 {
                    c.ok(&owner, &hook, json!({"clear_custom_hook": j[0]}));
                } else {
                    c.ok(&owner, &hook, json!({"clear_custom_hooks": j}));
                }
                for k in set {
                    custom.remove(&k);
                }
            }
            5 if code == HOOK_FALLBACK => {
                let t = g.idx(4);
                c.ok(&owner, &hook, json!({"set_fallback_hook": {"hook": targets[t]}}));
                fallback = Some(t);
            }
            6 => {
                let i = g.idx(4);
                cfgs[i] = gen_hook_cfg(g, i);
                cfgs[i].quote_fail = g.chance(1, 10);
                c.set_mock(&targets[i], &cfgs[i]);
            }
            _ => {
                let msg = RefMsg {
                    version: 3,
                    nonce: g.below(100) as u32,
                    origin: *g.pick(&domains),
                    sender: g.bytes32(),
                    dest: *g.pick(&domains),
                    recipient: g.pick(&recips).clone().try_into().unwrap(),
                    body: gen_body(g, 50),
                };
                let meta = gen_body(g, 60);
                let bytes = msg.encode();
                let target = custom.get(&(msg.dest, msg.recipient.to_vec())).or(routes.get(&msg.dest)).copied().or(fallback);
                let quote = quote_hook(&c, &hook, &meta, &bytes);
                let want = target.filter(|t| !cfgs[*t].quote_fail).map(|t| mock_quote(&cfgs[t], &meta, &bytes));
                match (&quote, &want) {
                    (Ok(q), Some(w)) => check_eq!(bag(q), bag(w), "quote for a message to {} routed to hook {target:?}", msg.dest),
                    (Ok(q), None) => return Err(format!("quoted {q:?} although no hook is configured or it has no quote")),
                    (Err(e), Some(_)) => return Err(format!("no quote although hook {target:?} is configured: {e}")),
                    (Err(_), None) => {}
                }
                let mut funds = gen_funds(g);
                if let (true, Some(w)) = (g.bool(), &want) {
                    funds = bag(w);
                }
                let (hb, ub, before) = (c.bag(&hook), c.bag(&user), c.state());
                let r = c.x(&user, &hook, post_dispatch(&meta, &bytes), &bag_coins(&funds));
                g.log(|| format!("message to {} for hook {target:?} with {funds:?} -> {}", msg.dest, short_err(&r)));
                let pays = |t: usize| !cfgs[t].enforce || bag_sub(&funds, &bag(&mock_quote(&cfgs[t], &meta, &bytes))).is_some();
                let expect = target.is_some_and(|t| !cfgs[t].fail && pays(t));
                match r {
                    Ok(tx) => {
                        check!(expect, "a call that had to be refused succeeded (target {target:?})");
                        let t = target.unwrap();
                        check_eq!(tx.calls_by(&hook), vec![(targets[t].clone(), post_dispatch(&meta, &bytes), bag_coins(&funds))], "calls of the routing hook");
                        check_eq!(c.bag(&hook), hb, "balance of the routing hook");
                        check_eq!(c.bag(&user), bag_sub(&ub, &funds).unwrap(), "balance of the caller");
                        used.insert(t);
                        if custom.contains_key(&(msg.dest, msg.recipient.to_vec())) {
                            g.label("custom hook");
                        } else if !routes.contains_key(&msg.dest) {
                            g.label("fallback hook");
                        } else {
                            g.label("domain hook");
                        }
                    }
                    Err(e) => {
                        check!(!expect, "the call for hook {target:?} was refused: {e}");
                        c.unchanged(&before, "a refused call")?;
                        refused += 1;
                        if target.is_none() {
                            g.label("no hook configured");
                        }
                    }
                }
            }
        }
    }
    if used.len() > 1 && refused > 0 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

fn c21(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let owner = c.acc("owner");
    let mut cfgs = vec![];
    let mut mocks = vec![];
    for i in 0..4 {
        let mut cfg = gen_hook_cfg(g, i);
        cfg.fail = false;
        odd_address(g, &c);
        mocks.push(c.mock(&cfg));
        cfgs.push(cfg);
    }
    let gen_list = |g: &mut G| if g.chance(1, 12) { g.list(12, 30, |g| g.idx(4)) } else { g.list(3, 6, |g| g.idx(4)) };
    let mut list: Vec<usize> = gen_list(g);
    odd_address(g, &c);
    let names = |l: &[usize]| -> Vec<String> { l.iter().map(|i| mocks[*i].clone()).collect() };
    let hook = c.make(HOOK_AGGREGATE, &owner, json!({"owner": owner, "hooks": names(&list)}));
    let user = gen_account(g, &c);
    for d in DENOMS.iter().chain(&MORE) {
        c.mint(&user, d, 1 << 110);
        if g.chance(1, 5) {
            c.mint(&hook, d, g.below(5000) as u128);
        }
    }
    let (mut many, mut refused) = (false, 0);
    let ops = g.list(8, 30, |g| g.weighted(&[8, 2, 2, 1]));
    for op in ops {
        match op {
            1 => {
                list = gen_list(g);
                c.ok(&owner, &hook, json!({"set_hooks": {"hooks": names(&list)}}));
            }
            2 => {
                let i = g.idx(4);
                cfgs[i] = gen_hook_cfg(g, i);
                cfgs[i].quote_fail = g.chance(1, 10);
                c.set_mock(&mocks[i], &cfgs[i]);
            }
            3 => {
                let before = c.state();
                let mut v = names(&list);
                let bad = g.pick::<&str>(&["", "x", "osmo1", "COSMOS1ABC"]).to_string();
                v.insert(g.idx(v.len() + 1), bad);
                check!(c.x(&owner, &hook, json!({"set_hooks": {"hooks": v}}), &[]).is_err(), "an invalid hook address was accepted");
                c.unchanged(&before, "a refused hook list")?;
            }
            _ => {
                let msg = RefMsg { version: 3, nonce: 1, origin: g.domain(), sender: g.bytes32(), dest: g.domain(), recipient: g.bytes32(), body: gen_body(g, 50) };
                let (meta, bytes) = (gen_body(g, 60), msg.encode());
                let quotes: Vec<Bag> = list.iter().map(|i| bag(&mock_quote(&cfgs[*i], &meta, &bytes))).collect();
                let mut total = Bag::new();
                quotes.iter().for_each(|q| bag_add(&mut total, q));
                let quotable = list.iter().all(|i| !cfgs[*i].quote_fail);
                match quote_hook(&c, &hook, &meta, &bytes) {
                    Ok(q) => {
                        check!(quotable, "quoted {q:?} although a child has no quote");
                        check_eq!(bag(&q), total, "quote of {} hooks", list.len());
                    }
                    Err(e) => check!(!quotable, "no quote although every child has one: {e}"),
                }
                let mut funds = total.clone();
                match g.below(5) {
                    1 => {
                        let k: Vec<String> = funds.keys().cloned().collect();
                        if !k.is_empty() {
                            *funds.get_mut(g.pick(&k)).unwrap() -= 1;
                        }
                    }
                    2 => bag_add(&mut funds, &gen_funds(g)),
                    3 => funds = gen_funds(g),
                    _ => {}
                }
                funds.retain(|_, v| *v > 0);
                let mut have = c.bag(&hook);
                bag_add(&mut have, &funds);
                let covered = bag_sub(&have, &total).is_some();
                let expect = quotable && covered && list.iter().all(|i| !cfgs[*i].fail);
                let (ub, before) = (c.bag(&user), c.state());
                let r = c.x(&user, &hook, post_dispatch(&meta, &bytes), &bag_coins(&funds));
                g.log(|| format!("call through {list:?} quoting {quotes:?} with {funds:?} -> {}", short_err(&r)));
                match r {
                    Ok(tx) => {
                        check!(expect, "a call that a child refuses or that does not cover the quotes succeeded");
                        let want: Vec<_> = list.iter().zip(&quotes).map(|(i, q)| (mocks[*i].clone(), post_dispatch(&meta, &bytes), bag_coins(q))).collect();
                        check_eq!(tx.calls_by(&hook), want, "calls of the aggregate hook");
                        check_eq!(c.bag(&user), bag_sub(&ub, &funds).unwrap(), "balance of the caller");
                        check_eq!(c.bag(&hook), bag_sub(&have, &total).unwrap(), "balance of the aggregate hook");
                        many |= list.len() > 1 && !total.is_empty();
                    }
                    Err(e) => {
                        check!(!expect, "a paid call was refused: {e}");
                        c.unchanged(&before, "a refused call")?;
                        refused += 1;
                    }
                }
            }
        }
        check_eq!(c.q(&hook, json!({"aggregate_hook": {"hooks": {}}}))?["hooks"], json!(names(&list)), "configured hooks");
    }
    if many && refused > 0 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

fn c22(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let accounts = gen_accounts(g, &c, 4);
    for a in &accounts {
        for d in DENOMS.iter().chain(&MORE) {
            c.mint(a, d, 1 << 90);
        }
    }
    let (mut owner, mut pending) = (0usize, None);
    let gen_fee = |g: &mut G| (any_denom(g).to_string(), if g.chance(1, 4) { 0 } else { g.amount(1 << 80) });
    let mut fee = gen_fee(g);
    odd_address(g, &c);
    let hook = c.make(HOOK_FEE, &accounts[1], json!({"owner": accounts[0], "fee": jcoin(&coin(fee.1, &fee.0))}));
    let mut held = Bag::new();
    let (mut good, mut bad, mut claims) = (0, 0, 0);
    let ops = g.list(14, 50, |g| g.weighted(&[10, 3, 3, 1, 1]));
    for op in ops {
        let who = g.idx(4);
        let before = c.state();
        match op {
            1 => {
                let f = gen_fee(g);
                let r = c.x(&accounts[who], &hook, json!({"fee_hook": {"set_fee": {"fee": jcoin(&coin(f.1, &f.0))}}}), &[]);
                g.log(|| format!("{who} sets fee {f:?} -> {}", short_err(&r)));
                check_eq!(r.is_ok(), who == owner, "whether account {who} may set the fee of owner {owner}");
                if r.is_ok() {
                    fee = f;
                } else {
                    c.unchanged(&before, "a refused fee")?;
                }
            }
            2 => {
                if who == owner && g.chance(1, 6) {
                    // to the hook itself: nobody else gets anything
                    let ub: Vec<Bag> = accounts.iter().map(|a| c.bag(a)).collect();
                    let r = c.x(&accounts[who], &hook, json!({"fee_hook": {"claim": {"recipient": hook}}}), &[]);
                    g.log(|| format!("{who} claims to the hook -> {}", short_err(&r)));
                    check_eq!(accounts.iter().map(|a| c.bag(a)).collect::<Vec<_>>(), ub, "balances of the accounts after a claim to the hook");
                    check_eq!(c.bag(&hook), held, "balance of the hook after a claim to itself");
                    continue;
                }
                let to = if g.bool() { Some(g.idx(4)) } else { None };
                let ub: Vec<Bag> = accounts.iter().map(|a| c.bag(a)).collect();
                let r = c.x(&accounts[who], &hook, json!({"fee_hook": {"claim": {"recipient": to.map(|t| accounts[t].clone())}}}), &[]);
                g.log(|| format!("{who} claims to {to:?} -> {}", short_err(&r)));
                if who != owner {
                    check!(r.is_err(), "account {who} claimed the fees of owner {owner}");
                    c.unchanged(&before, "a refused claim")?;
                } else if !held.is_empty() {
                    if let Err(e) = r {
                        return Err(format!("the owner's claim of {held:?} was refused: {e}"));
                    }
                    for (i, a) in accounts.iter().enumerate() {
                        let mut w = ub[i].clone();
                        if i == to.unwrap_or(owner) {
                            bag_add(&mut w, &held);
                        }
                        check_eq!(c.bag(a), w, "balance of account {i} after a claim of {held:?} to {to:?} by {who}");
                    }
                    held = Bag::new();
                    claims += 1;
                }
            }
            3 => {
                // hand over
                let next = pending.unwrap_or_else(|| {
                    let next = g.idx(4);
                    c.ok(&accounts[owner], &hook, json!({"ownable": {"init_ownership_transfer": {"next_owner": accounts[next]}}}));
                    next
                });
                match g.below(5) {
                    0 | 1 => {
                        c.ok(&accounts[next], &hook, json!({"ownable": {"claim_ownership": {}}}));
                        (owner, pending) = (next, None);
                    }
                    2 => {
                        c.ok(&accounts[owner], &hook, json!({"ownable": {"revoke_ownership_transfer": {}}}));
                        pending = None;
                    }
                    // the nominee has no say yet
                    _ => pending = Some(next),
                }
            }
            4 => {
                let b = gen_funds(g);
                if !b.is_empty() {
                    c.send(&accounts[who], &hook, &bag_coins(&b)).expect("harness: send");
                    bag_add(&mut held, &b);
                }
            }
            _ => {
                let mut funds = bag(&[coin(fee.1, &fee.0)]);
                match g.below(8) {
                    0 => {}
                    1 => funds = bag(&[coin(fee.1.saturating_sub(1), &fee.0)]),
                    2 => funds = bag(&[coin(fee.1 + 1 + g.amount(1 << 60), &fee.0)]),
                    3 => funds = bag(&[coin(fee.1.max(1), any_denom(g))]),
                    4 => bag_add(&mut funds, &bag(&[coin(1 + g.amount(100), any_denom(g))])),
                    5 => funds = gen_funds(g),
                    6 => funds = Bag::new(),
                    _ => funds = bag(&[coin(g.amount(1 << 81), &fee.0)]),
                }
                let msg = RefMsg { version: 3, nonce: 1, origin: g.domain(), sender: g.bytes32(), dest: g.domain(), recipient: g.bytes32(), body: gen_body(g, 20) };
                let meta = gen_body(g, 40);
                check_eq!(bag(&quote_hook(&c, &hook, &meta, &msg.encode())?), bag(&[coin(fee.1, &fee.0)]), "quote");
                let expect = funds.keys().all(|d| *d == fee.0) && funds.get(&fee.0).copied().unwrap_or(0) >= fee.1;
                let ub = c.bag(&accounts[who]);
                let r = c.x(&accounts[who], &hook, post_dispatch(&meta, &msg.encode()), &bag_coins(&funds));
                g.log(|| format!("dispatch paying {funds:?} for a fee of {fee:?} -> {}", short_err(&r)));
                match r {
                    Ok(_) => {
                        check!(expect, "funds {funds:?} were accepted for a fee of {fee:?}");
                        bag_add(&mut held, &funds);
                        check_eq!(c.bag(&accounts[who]), bag_sub(&ub, &funds).unwrap(), "balance of the caller");
                        good += 1;
                    }
                    Err(e) => {
                        check!(!expect, "funds {funds:?} were refused for a fee of {fee:?}: {e}");
                        c.unchanged(&before, "a refused payment")?;
                        bad += 1;
                    }
                }
            }
        }
        check_eq!(c.bag(&hook), held, "balance of the fee hook");
        check_eq!(c.q(&hook, json!({"fee_hook": {"fee": {}}}))?["fee"], jcoin(&coin(fee.1, &fee.0)), "fee");
    }
    if good > 0 && bad > 0 && claims > 0 {
        g.nontrivial();
    }
    Ok(())
}

