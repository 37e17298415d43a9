//! C30 malformed and hostile input against a fully deployed chain.
use super::admin::{gen_op, ownable, Rig};
use super::igp::gas_data;
use super::isms::signers;
use super::{Prop, SIM};
use crate::chain::{Act, Chain, Tx};
use crate::codes::*;
use crate::engine::{Sub, G};
use crate::refs::{self, announcement_digest, checkpoint_digest, key, sign, Key, RefMsg};
use crate::world::*;
use cosmwasm_std::{Coin, Uint256};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        assumptions: vec![SIM, "whether a request with extra or missing JSON fields is refused or read with defaults is not asserted, only that it has no effect its sender may not have"],
        subs: vec![
            Sub { name: "attacks", cases: (4_000, 80_000), rule: "a genuine delivery was accepted, and forged, mutated and malformed requests were refused", run: attacks },
            Sub { name: "garbage", cases: (6_000, 100_000), rule: "a mutated valid request reached a handler and was refused", run: garbage },
        ],
    }]
}

pub(super) struct World {
    pub(super) c: Chain,
    pub(super) owner: String,
    pub(super) local: u32,
    pub(super) domains: Vec<u32>,
    pub(super) keys: Vec<Key>,
    pub(super) m: String,
    pub(super) agg_first: bool,
    pub(super) ms: String,
    pub(super) merkle: String,
    pub(super) va: String,
    pub(super) recipient: String,
    pub(super) wn: String,
    pub(super) wc: String,
    pub(super) cw20: String,
    pub(super) rigs: Vec<Rig>,
    pub(super) victims: Vec<String>,
    pub(super) attackers: Vec<String>,
    pub(super) routers: BTreeMap<u32, Vec<u8>>,
    pub(super) hooks: Vec<String>,
    pub(super) enrolled: BTreeMap<u32, (u64, Vec<Vec<u8>>)>,
    pub(super) tree: [u8; 32],
    pub(super) custom: Vec<u8>,
}

pub(super) fn world(g: &mut G) -> World {
    let c = gen_chain(g);
    c.strict_events();
    let owner = c.acc("owner");
    let domains = super::isms::gen_domains(g, 3);
    let local = domains[2];
    let domains = domains[..2].to_vec();
    let keys: Vec<Key> = (0..5u8).map(|i| key(&[0x60 + i])).collect();
    let beneficiary = c.acc("beneficiary");
    let mk = |code: usize, msg: V| c.make(code, &owner, msg);
    let own = json!({"owner": owner});
    let victims = gen_accounts(g, &c, 2);
    let attackers: Vec<String> = vec![c.acc("attacker"), c.acc("mallory")];
    let m = mk(MAILBOX, json!({"hrp": c.hrp(), "owner": owner, "domain": local}));
    // modules
    let ms = mk(ISM_MULTISIG, own.clone());
    let mut enrolled = BTreeMap::new();
    for d in &domains {
        let v: Vec<Vec<u8>> = keys[..3].iter().map(|k| k.addr.to_vec()).collect();
        c.ok(&owner, &ms, json!({"set_validators": {"domain": d, "threshold": 2, "validators": v.iter().map(|b| hx(b)).collect::<Vec<_>>()}}));
        enrolled.insert(*d, (2, v));
    }
    let pausable = mk(ISM_PAUSABLE, json!({"owner": owner, "paused": false}));
    let agg_first = g.bool();
    let isms = if agg_first { [&ms, &pausable] } else { [&pausable, &ms] };
    let agg = mk(ISM_AGGREGATE, json!({"owner": owner, "threshold": 2, "isms": isms}));
    let routing = mk(ISM_ROUTING, json!({"owner": owner, "isms": [{"domain": domains[0], "address": ms}, {"domain": domains[1], "address": agg}]}));
    // hooks
    let merkle = mk(HOOK_MERKLE, json!({"mailbox": m}));
    let oracle = mk(ORACLE, own.clone());
    let igp = mk(IGP, json!({"hrp": c.hrp(), "owner": owner, "gas_token": "uatom", "beneficiary": beneficiary, "default_gas_usage": "100000"}));
    for d in &domains {
        c.ok(&owner, &oracle, json!({"set_remote_gas_data": {"config": gas_data(*d, 10_000_000_000, 2)}}));
        c.ok(&owner, &igp, set_route(*d, Some(&oracle)));
    }
    let fee = mk(HOOK_FEE, json!({"owner": owner, "fee": {"denom": "uosmo", "amount": "7"}}));
    let hp = mk(HOOK_PAUSABLE, json!({"owner": owner, "paused": false}));
    let ha = mk(HOOK_AGGREGATE, json!({"owner": owner, "hooks": [igp, fee, hp]}));
    let hr = mk(HOOK_ROUTING, own.clone());
    let hc = mk(HOOK_CUSTOM, own.clone());
    let hf = mk(HOOK_FALLBACK, own.clone());
    for h in [&hr, &hc, &hf] {
        c.ok(&owner, h, set_route(domains[0], Some(&hp)));
    }
    let custom = g.bytes(32);
    c.ok(&owner, &hc, json!({"register_custom_hook": {"dest_domain": domains[0], "recipient": hx(&custom), "hook": fee}}));
    c.ok(&owner, &hf, json!({"set_fallback_hook": {"hook": hp}}));
    c.ok(&owner, &m, json!({"set_default_ism": {"ism": routing}}));
    c.ok(&owner, &m, json!({"set_required_hook": {"hook": merkle}}));
    c.ok(&owner, &m, json!({"set_default_hook": {"hook": ha}}));
    let va = mk(VA, json!({"hrp": c.hrp(), "mailbox": m}));
    let recipient = c.mock(&Cfg::default());
    // routes
    let wn = mk(WARP_NATIVE, json!({"token": {"collateral": {"denom": "utoken"}}, "hrp": c.hrp(), "owner": owner, "mailbox": m}));
    let wc = mk(WARP_CW20, json!({"token": {"bridged": {"code_id": CW20, "init_msg": {"name": "token", "symbol": "TOK", "decimals": 6, "initial_balances": []}}}, "hrp": c.hrp(), "owner": owner, "mailbox": m}));
    let mut routers = BTreeMap::new();
    for d in &domains {
        let w = gen_wire(g);
        for r in [&wn, &wc] {
            c.ok(&owner, r, set_route(*d, Some(&hx(&w))));
        }
        routers.insert(*d, w);
    }
    for a in victims.iter().chain(&attackers) {
        for d in ["uatom", "uosmo", "utoken"] {
            c.mint(a, d, 1 << 100);
        }
    }
    c.mint(&wn, "utoken", 1 << 110);
    c.mint(&igp, "uatom", 12345);
    c.mint(&fee, "uosmo", 777);
    let cw20 = c.q(&wc, json!({"token_default": {"token_type": {}}})).ok().and_then(|v| v["type"]["c_w20"]["contract"].as_str().map(|s| s.to_string())).expect("token of the route");
    let rig = |code: usize, addr: &str| Rig { code, addr: addr.into(), mailbox: Some(m.clone()), beneficiary: beneficiary.clone() };
    let rigs = vec![
        rig(MAILBOX, &m),
        rig(ISM_MULTISIG, &ms),
        rig(ISM_PAUSABLE, &pausable),
        rig(ISM_AGGREGATE, &agg),
        rig(ISM_ROUTING, &routing),
        rig(ORACLE, &oracle),
        rig(IGP, &igp),
        rig(HOOK_FEE, &fee),
        rig(HOOK_PAUSABLE, &hp),
        rig(HOOK_AGGREGATE, &ha),
        rig(HOOK_ROUTING, &hr),
        rig(HOOK_CUSTOM, &hc),
        rig(HOOK_FALLBACK, &hf),
        rig(WARP_NATIVE, &wn),
        rig(WARP_CW20, &wc),
    ];
    let tree = c.wire(&merkle);
    let hooks = vec![merkle.clone(), igp, fee, hp, ha, hr, hc, hf];
    let w = World { c, owner, local, domains, keys, m, agg_first, ms, merkle, va, recipient, wn, wc, cw20, rigs, victims, attackers, routers, hooks, enrolled, tree, custom };
    // bridged tokens in circulation, an announced validator, a pending transfer of ownership
    for (i, v) in w.victims.iter().chain(&w.attackers).enumerate() {
        let s = w.message(g, w.domains[0], i as u32, &w.wc, [&w.c.wire(v)[..], &Uint256::from(1u128 << 100).to_be_bytes()].concat());
        let _ = w.c.x(&w.owner, &w.m, process(&w.metadata(&s, &[0, 1]), &s), &[]).map_err(|e| panic!("a genuine delivery was refused: {e}"));
    }
    for v in &w.victims {
        w.c.ok(v, &w.cw20, json!({"increase_allowance": {"spender": w.wc, "amount": "1000000", "expires": null}}));
    }
    let d = announcement_digest(w.local, &w.c.wire(&w.m), "s3://0");
    w.c.ok(&w.owner, &w.va, json!({"announce": {"validator": hx(&w.keys[0].addr), "storage_location": "s3://0", "signature": hx(&sign(&w.keys[0], &d))}}));
    let r = &w.rigs[g.idx(w.rigs.len())];
    w.c.ok(&w.owner, &r.addr, ownable(r.code, json!({"init_ownership_transfer": {"next_owner": w.victims[0]}})));
    // something dispatched
    w.c.x(&w.victims[0], &w.m, Disp { dest: w.domains[0], recipient: g.bytes(32), body: vec![1, 2, 3], hook: None, metadata: None }.msg(), &[coin(1_000_000, "uatom"), coin(7, "uosmo")])
        .map(|_| ())
        .unwrap_or_else(|e| panic!("a paid dispatch was refused: {e}"));
    w
}

impl World {
    pub(super) fn message(&self, g: &mut G, origin: u32, nonce: u32, to: &str, body: Vec<u8>) -> Vec<u8> {
        let sender = self.routers.get(&origin).cloned().unwrap_or_else(|| g.bytes(32));
        RefMsg { version: 3, nonce, origin, sender: sender.try_into().unwrap(), dest: self.local, recipient: self.c.wire(to), body }.encode()
    }
    pub(super) fn signed(&self, raw: &[u8], who: &[usize]) -> Vec<u8> {
        let msg = RefMsg::decode(raw).unwrap();
        let root = refs::keccak(&[b"root", raw]);
        let d = checkpoint_digest(msg.origin, &self.tree, &root, msg.nonce, &msg.id());
        let mut o = [&self.tree[..], &root, &msg.nonce.to_be_bytes()].concat();
        who.iter().for_each(|k| o.extend(sign(&self.keys[*k], &d)));
        o
    }
    /// Metadata for the module of the message's origin, signed by the given validators.
    pub(super) fn metadata(&self, raw: &[u8], who: &[usize]) -> Vec<u8> {
        let s = self.signed(raw, who);
        if RefMsg::decode(raw).unwrap().origin != self.domains[1] {
            return s;
        }
        let (a, b) = (16u32, 16 + s.len() as u32);
        let (ms, p) = ([a, b], [b, b]);
        let t = if self.agg_first { [ms, p] } else { [p, ms] };
        let mut o: Vec<u8> = t.iter().flatten().flat_map(|v| v.to_be_bytes()).collect();
        o.extend(s);
        o
    }
    /// Whether metadata proves the message, by the reference.
    pub(super) fn proven(&self, metadata: &[u8], raw: &[u8]) -> bool {
        let Some(msg) = RefMsg::decode(raw) else { return false };
        if msg.version != 3 || msg.dest != self.local {
            return false;
        }
        let part = if msg.origin == self.domains[0] {
            metadata
        } else if msg.origin == self.domains[1] {
            let at = |i: usize| metadata.get(i..i + 4).map(|b| u32::from_be_bytes(b.try_into().unwrap()) as usize);
            let k = if self.agg_first { 0 } else { 8 };
            match (at(k), at(k + 4)) {
                (Some(a), Some(b)) if a <= b && b <= metadata.len() => &metadata[a..b],
                _ => return false,
            }
        } else {
            return false;
        };
        signers(part, raw, &self.enrolled).is_some_and(|(n, _, t)| n as u64 >= t)
    }
    pub(super) fn cw20_bal(&self, who: &str) -> u128 {
        self.c.q(&self.cw20, json!({"balance": {"address": who}})).ok().and_then(|v| v["balance"].as_str().and_then(|s| s.parse().ok())).unwrap_or(0)
    }
    pub(super) fn supply(&self) -> u128 {
        self.c.q(&self.cw20, json!({"token_info": {}})).ok().and_then(|v| v["total_supply"].as_str().and_then(|s| s.parse().ok())).unwrap_or(0)
    }
    /// Everything configured or promised that no outsider may change.
    pub(super) fn protected(&self, ids: &BTreeSet<Vec<u8>>) -> Vec<(String, V)> {
        let mut out = vec![];
        let mut put = |a: &str, q: V| {
            let v = self.c.q(a, q.clone());
            out.push((format!("{} {q}", crate::chain::short(a)), v.unwrap_or_else(|_| json!("error"))));
        };
        let page = json!({"offset": null, "limit": 30, "order": null});
        for r in &self.rigs {
            let a = &r.addr;
            put(a, json!({"ownable": {"get_owner": {}}}));
            put(a, json!({"ownable": {"get_pending_owner": {}}}));
            if matches!(r.code, HOOK_ROUTING | HOOK_CUSTOM | HOOK_FALLBACK | IGP | WARP_NATIVE | WARP_CW20) {
                put(a, json!({"router": {"list_routes": page}}));
            }
            match r.code {
                MAILBOX => {
                    for k in ["default_ism", "default_hook", "required_hook", "local_domain"] {
                        put(a, json!({"mailbox": {k: {}}}));
                    }
                }
                ISM_PAUSABLE | HOOK_PAUSABLE => put(a, json!({"pausable": {"pause_info": {}}})),
                ISM_AGGREGATE => put(a, json!({"aggregate_ism": {"isms": {}}})),
                HOOK_AGGREGATE => put(a, json!({"aggregate_hook": {"hooks": {}}})),
                HOOK_FEE => put(a, json!({"fee_hook": {"fee": {}}})),
                HOOK_CUSTOM => {
                    for d in &self.domains {
                        let mut p = page.clone();
                        p["dest_domain"] = json!(d);
                        put(a, json!({"custom_routing_hook": {"custom_hooks": p}}));
                    }
                }
                IGP => {
                    put(a, json!({"igp": {"beneficiary": {}}}));
                    put(a, json!({"igp": {"default_gas": {}}}));
                    put(a, json!({"igp": {"list_gas_for_domains": page}}));
                }
                WARP_NATIVE | WARP_CW20 => {
                    for k in ["mailbox", "hook", "ism"] {
                        put(a, json!({"connection": {format!("get_{k}"): {}}}));
                    }
                    put(a, json!({"token_default": {"token_type": {}}}));
                    put(a, json!({"token_default": {"token_mode": {}}}));
                }
                _ => {}
            }
            for d in &self.domains {
                match r.code {
                    ISM_MULTISIG => put(a, json!({"multisig_ism": {"enrolled_validators": {"domain": d}}})),
                    ORACLE => put(a, json!({"oracle": {"get_exchange_rate_and_gas_price": {"dest_domain": d}}})),
                    ISM_ROUTING => put(a, json!({"routing_ism": {"route": {"message": hx(&RefMsg { version: 3, nonce: 0, origin: *d, sender: [0; 32], dest: 0, recipient: [0; 32], body: vec![] }.encode())}}})),
                    _ => {}
                }
            }
        }
        put(&self.cw20, json!({"minter": {}}));
        for v in &self.victims {
            put(&self.cw20, json!({"allowance": {"owner": v, "spender": self.wc}}));
        }
        for id in ids {
            put(&self.m, json!({"mailbox": {"message_delivered": {"id": hx(id)}}}));
        }
        out
    }
    pub(super) fn announced(&self) -> BTreeMap<String, Vec<String>> {
        let v = self.c.q(&self.va, json!({"get_announced_validators": {}})).unwrap_or(V::Null);
        let names: Vec<String> = v["validators"].as_array().map(|l| l.iter().filter_map(|s| s.as_str().map(|s| s.to_string())).collect()).unwrap_or_default();
        names
            .into_iter()
            .map(|n| {
                let q = self.c.q(&self.va, json!({"get_announce_storage_locations": {"validators": [n]}})).unwrap_or(V::Null);
                let l = q["storage_locations"][0][1].as_array().cloned().unwrap_or_default();
                (n, l.iter().filter_map(|s| s.as_str().map(|s| s.to_string())).collect())
            })
            .collect()
    }
    pub(super) fn merkle_count(&self) -> u64 {
        self.c.q(&self.merkle, json!({"merkle_hook": {"count": {}}})).ok().and_then(|v| v["count"].as_u64()).unwrap_or(u64::MAX)
    }
}

// ---------------------------------------------------------------- the attacks

/// A hex field replaced by something near it.
fn mutate_bytes(g: &mut G, b: &mut Vec<u8>, pool: &[Vec<u8>]) {
    match g.below(8) {
        0 | 1 if !b.is_empty() => {
            let i = g.idx(b.len());
            b[i] ^= 1 << g.below(8);
        }
        2 => {
            let n = g.idx(b.len() + 1);
            b.truncate(n);
        }
        3 => {
            let n = 1 + g.idx(70);
            b.extend(g.bytes(n));
        }
        4 if !b.is_empty() => {
            let n = g.idx(b.len().min(80));
            b.drain(..n);
        }
        5 if !pool.is_empty() => {
            // spliced from two
            let o = g.pick(pool).clone();
            let (i, j) = (g.idx(b.len() + 1), g.idx(o.len() + 1));
            b.truncate(i);
            b.extend(&o[j..]);
        }
        6 if b.len() > 4 => {
            let i = g.idx(b.len() - 3);
            let v = *g.pick(&[0u32, 1, u32::MAX, 0x8000_0000, 16, 77]);
            b[i..i + 4].copy_from_slice(&v.to_be_bytes());
        }
        _ => {
            let n = g.idx(200);
            *b = g.bytes(n);
        }
    }
}

/// Places in a JSON value.
fn paths(v: &V, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        V::Object(o) => {
            for (k, v) in o {
                at.push(k.clone());
                out.push(at.clone());
                paths(v, at, out);
                at.pop();
            }
        }
        V::Array(l) => {
            for (i, v) in l.iter().enumerate() {
                at.push(i.to_string());
                out.push(at.clone());
                paths(v, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn at_mut<'a>(v: &'a mut V, p: &[String]) -> Option<&'a mut V> {
    p.iter().try_fold(v, |v, k| match v {
        V::Object(o) => o.get_mut(k),
        V::Array(l) => l.get_mut(k.parse::<usize>().ok()?),
        _ => None,
    })
}

/// Changes a request's JSON in one place.
fn mutate_json(g: &mut G, v: &mut V, w: &World, pool: &[Vec<u8>]) {
    let mut ps = vec![];
    paths(v, &mut vec![], &mut ps);
    if ps.is_empty() {
        *v = json!({"claim": {}});
        return;
    }
    let p = g.pick(&ps).clone();
    // byte fields mostly change as bytes
    if let Some(V::String(s)) = at_mut(v, &p) {
        if let (Some(mut b), true) = (parse_hex(s).filter(|b| b.len() > 3), g.chance(3, 4)) {
            mutate_bytes(g, &mut b, pool);
            *s = hx(&b);
            return;
        }
    }
    match g.below(8) {
        0 => {
            let (last, head) = p.split_last().unwrap();
            if let Some(V::Object(o)) = at_mut(v, head) {
                o.remove(last);
            }
        }
        1 => {
            let (last, head) = p.split_last().unwrap();
            let name = g.pick::<&str>(&["process", "claim", "owner", "handle", "extra", "set_default_ism", "dispatch", "post_dispatch", "ownable", "router", "set_route"]).to_string();
            if let Some(V::Object(o)) = at_mut(v, head) {
                if let Some(x) = o.remove(last) {
                    o.insert(name, x);
                }
            }
        }
        2 => {
            if let Some(V::Object(o)) = at_mut(v, &p) {
                o.insert(g.pick::<&str>(&["extra", "sender", "owner", "admin", "force"]).to_string(), json!(w.attackers[0]));
            }
        }
        _ => {
            let n = match g.below(12) {
                0 => V::Null,
                1 => json!(0),
                2 => json!(-1),
                3 => json!(u64::MAX),
                4 => json!("340282366920938463463374607431768211456"),
                5 => json!(""),
                6 => json!(w.attackers[0]),
                7 => json!(w.owner),
                8 => json!([]),
                9 => json!({}),
                10 => json!(true),
                _ => json!(hx(g.pick(&[w.routers[&w.domains[0]].clone(), w.tree.to_vec(), vec![0; 32], vec![]]))),
            };
            if let Some(x) = at_mut(v, &p) {
                *x = n;
            }
        }
    }
}

fn mutate_text(g: &mut G, b: &mut Vec<u8>) {
    for _ in 0..1 + g.below(3) {
        let i = g.idx(b.len() + 1);
        match g.below(6) {
            0 if i < b.len() => b[i] ^= 1 << g.below(8),
            1 if i < b.len() => {
                b.remove(i);
            }
            2 => b.insert(i, *g.pick(b"\"{}[]:,0123456789abcdef\\\0 -.eE\xff")),
            3 => b.truncate(i),
            4 => {
                let t = b[i..].to_vec();
                b.extend(t);
            }
            _ => b.extend(*g.pick(&[&b"}"[..], b"{}", b" ", b"\n", b"null"])),
        }
    }
}

pub(super) struct Request {
    pub(super) to: String,
    pub(super) msg: V,
    pub(super) funds: Vec<Coin>,
    pub(super) what: &'static str,
}

pub(super) fn gen_request(g: &mut G, w: &World, signed: &[(Vec<u8>, Vec<u8>)]) -> Request {
    let r = |to: &str, msg: V, what: &'static str| Request { to: to.into(), msg, funds: vec![], what };
    let me = w.attackers[0].clone();
    let origin = *g.pick(&w.domains);
    let wire_me = w.c.wire(&me);
    match g.weighted(&[8, 4, 4, 5, 3, 3, 2, 6, 3, 3]) {
        0 => {
            // a message the attacker has seen
            let (raw, meta) = signed[if g.chance(1, 5) { 4 + g.idx(2) } else { g.idx(4) }].clone();
            r(&w.m, process(&meta, &raw), "process")
        }
        1 => {
            // a message of his own making
            let to = g.pick(&[w.recipient.clone(), w.wn.clone(), w.wc.clone()]).clone();
            let n = 1000 + g.below(50) as u32;
            let amount = Uint256::from(1 + g.amount(1 << 90));
            let raw = w.message(g, origin, n, &to, [&wire_me[..], &amount.to_be_bytes()].concat());
            let (_, seen) = g.pick(signed).clone();
            let meta = match g.below(5) {
                0 => seen,
                1 => w.metadata(&raw, &[0]),
                2 => w.metadata(&raw, &[0, 0]),
                3 => w.metadata(&raw, &[3, 4, 0]),
                _ => w.metadata(&raw, &[]),
            };
            r(&w.m, process(&meta, &raw), "forged process")
        }
        2 => {
            let k = g.idx(5);
            let loc = format!("s3://{}", g.below(4));
            let d = announcement_digest(w.local, &w.c.wire(&w.m), &loc);
            let by = if g.bool() { k } else { 4 };
            let s = sign(&w.keys[by], &d);
            r(&w.va, json!({"announce": {"validator": hx(&w.keys[k].addr), "storage_location": loc, "signature": hx(&s)}}), "announce")
        }
        3 => {
            // a hook called without the mailbox
            let h = g.pick(&w.hooks).clone();
            let raw = match g.below(3) {
                0 => g.pick(signed).0.clone(),
                _ => RefMsg { version: 3, nonce: g.below(3) as u32, origin: w.local, sender: wire_me, dest: w.domains[0], recipient: w.custom.clone().try_into().unwrap(), body: g.blob(20) }.encode(),
            };
            let mut q = r(&h, post_dispatch(&g.blob(80), &raw), "post_dispatch");
            if g.bool() {
                q.funds = vec![coin(1 << 30, "uatom"), coin(7, "uosmo")];
            }
            q
        }
        4 => {
            let to = g.pick(&[w.wn.clone(), w.wc.clone(), w.recipient.clone()]).clone();
            let body = [&wire_me[..], &Uint256::from(1 + g.amount(1 << 90)).to_be_bytes()].concat();
            r(&to, json!({"handle": {"origin": origin, "sender": hx(&w.routers[&origin]), "body": hx(&body)}}), "handle")
        }
        5 => {
            let d = Disp { dest: origin, recipient: g.bytes(32), body: g.blob(60), hook: if g.bool() { Some(g.pick(&w.hooks).clone()) } else { None }, metadata: Some(g.blob(70)) };
            let mut q = r(&w.m, d.msg(), "dispatch");
            q.funds = vec![coin(1 << 30, "uatom"), coin(g.below(10) as u128, "uosmo")];
            q
        }
        6 => {
            let native = g.bool();
            let a = 1 + g.below(1 << 30) as u128;
            let msg = json!({"transfer_remote": {"dest_domain": origin, "recipient": hx(&wire_me), "amount": a.to_string(), "hook": null, "metadata": null}});
            let mut q = r(if native { &w.wn } else { &w.wc }, msg, "transfer");
            q.funds = coins(&[(1 << 30, "uatom"), (7, "uosmo")]);
            if native {
                q.funds.push(coin(a - g.below(2) as u128 % a, "utoken"));
            } else {
                w.c.ok(&me, &w.cw20, json!({"increase_allowance": {"spender": w.wc, "amount": a.to_string(), "expires": null}}));
            }
            q
        }
        7 => {
            // administration
            let rig = g.pick(&w.rigs);
            if g.chance(1, 4) {
                let m = g.pick(&[json!({"claim_ownership": {}}), json!({"init_ownership_transfer": {"next_owner": me}}), json!({"revoke_ownership_transfer": {}})]).clone();
                r(&rig.addr, ownable(rig.code, m), "ownership")
            } else {
                r(&rig.addr, gen_op(g, &w.c, rig, &w.domains).msg, "administration")
            }
        }
        8 => {
            let igp = &w.hooks[1];
            match g.below(3) {
                0 => r(igp, json!({"claim": {}}), "claim"),
                1 => r(&w.hooks[2], json!({"fee_hook": {"claim": {"recipient": me}}}), "claim"),
                _ => {
                    let mut q = r(igp, json!({"pay_for_gas": {"message_id": hx(&g.bytes(32)), "dest_domain": origin, "gas_amount": g.amount(1 << 40).to_string(), "refund_address": me}}), "gas payment");
                    q.funds = vec![coin(1 << 45, "uatom")];
                    q
                }
            }
        }
        _ => {
            let v = &w.victims[g.idx(2)];
            let m = match g.below(4) {
                0 => json!({"mint": {"recipient": me, "amount": "5"}}),
                1 => json!({"transfer_from": {"owner": v, "recipient": me, "amount": "5"}}),
                2 => json!({"burn_from": {"owner": v, "amount": "5"}}),
                _ => json!({"update_minter": {"new_minter": me}}),
            };
            r(&w.cw20, m, "token contract")
        }
    }
}

struct Before {
    state: crate::chain::State,
    protected: Vec<(String, V)>,
    announced: BTreeMap<String, Vec<String>>,
    nonce: u64,
    count: u64,
    supply: u128,
    loot: BTreeMap<&'static str, u128>,
}

const LOOT: [&str; 4] = ["uatom", "uosmo", "utoken", "cw20"];

fn holdings(w: &World, who: &str, d: &str) -> u128 {
    if d == "cw20" {
        w.cw20_bal(who)
    } else {
        w.c.balance(who, d)
    }
}

fn loot(w: &World) -> BTreeMap<&'static str, u128> {
    LOOT.iter().map(|d| (*d, w.attackers.iter().map(|a| holdings(w, a, d)).sum())).collect()
}

fn snapshot(w: &World, ids: &BTreeSet<Vec<u8>>) -> Before {
    Before { state: w.c.state(), protected: w.protected(ids), announced: w.announced(), nonce: nonce(&w.c, &w.m), count: w.merkle_count(), supply: w.supply(), loot: loot(w) }
}

/// Judges an accepted request of an outsider.
fn judge(w: &World, b: &Before, tx: &Tx, ids: &mut BTreeSet<Vec<u8>>, delivered: &mut BTreeSet<Vec<u8>>) -> Result<bool, String> {
    // deliveries
    let mut genuine = 0;
    let mut fresh = vec![];
    for (_, v, _) in tx.calls(&w.m) {
        if let Some(p) = v.get("process") {
            let (meta, raw) = (unhex(&p["metadata"]), unhex(&p["message"]));
            check!(w.proven(&meta, &raw), "a message that is not proven was processed");
            let id = refs::keccak(&[&raw]).to_vec();
            check!(delivered.insert(id.clone()), "a message was delivered twice");
            let m = RefMsg::decode(&raw).unwrap();
            let route = [&w.wn, &w.wc].iter().any(|a| w.c.wire(a) == m.recipient);
            check!(!route || m.body.len() >= 64, "a transfer of {} bytes was accepted", m.body.len());
            ids.insert(id.clone());
            fresh.push(id);
            genuine += 1;
        }
    }
    let handles: usize = tx.calls_by(&w.m).iter().filter(|v| v.1.get("handle").is_some()).count();
    check_eq!(handles, genuine, "deliveries made by the mailbox");
    // what was paid for genuine transfers
    let after = w.protected(&b.protected_ids(ids));
    check_eq!(after.len(), b.protected.len(), "number of protected values");
    for (x, y) in b.protected.iter().zip(&after) {
        if fresh.iter().any(|id| x.0.contains(&hx(id))) {
            continue;
        }
        check!(x == y, "an outsider changed {}: {} -> {}", x.0, x.1, y.1);
    }
    // announcements
    let mut want = b.announced.clone();
    for (_, v, _) in tx.calls(&w.va) {
        if let Some(a) = v.get("announce") {
            let (val, loc, sig) = (unhex(&a["validator"]), a["storage_location"].as_str().unwrap_or("").to_string(), unhex(&a["signature"]));
            let d = announcement_digest(w.local, &w.c.wire(&w.m), &loc);
            let by = if sig.len() >= 65 { refs::recover(&d, &sig[..65]) } else { None };
            check!(by.is_some_and(|k| k[..] == val[..]), "an announcement not signed by its validator was accepted");
            let l = want.entry(hx(&val)).or_default();
            check!(!l.contains(&loc), "an announcement was accepted twice");
            l.push(loc);
        }
    }
    check_eq!(w.announced(), want, "announcements");
    // dispatches and insertions
    let dispatches = tx.calls(&w.m).iter().filter(|v| v.1.get("dispatch").is_some()).count() as u64;
    check_eq!(nonce(&w.c, &w.m), b.nonce + dispatches, "nonce of the mailbox");
    let chosen = tx.calls(&w.m).iter().filter(|v| v.1["dispatch"]["hook"] == json!(w.merkle)).count() as u64;
    let direct = tx.calls(&w.merkle).iter().filter(|v| v.0 != w.m).count() as u64;
    let now = w.merkle_count();
    check!(now >= b.count + dispatches && now <= b.count + dispatches + chosen + direct, "insertions into the merkle tree: {} -> {now} with {dispatches} dispatches", b.count);
    for (sender, v, _) in tx.calls(&w.merkle) {
        if sender != w.m {
            let id = refs::keccak(&[&unhex(&v["post_dispatch"]["message"])]).to_vec();
            check_eq!(latest(&w.c, &w.m), Some(id), "message inserted into the tree by an outsider");
        }
    }
    // money
    if genuine == 0 {
        check!(w.supply() <= b.supply, "tokens were minted: {} -> {}", b.supply, w.supply());
        for (d, v) in loot(w) {
            check!(v <= b.loot[d], "the attackers gained {d}: {} -> {v}", b.loot[d]);
        }
        check!(!tx.steps.iter().any(|s| matches!(s.act, Act::Mint { .. })), "something was minted");
        let old = w.c.fork_at(&b.state);
        for ((who, d), v) in b.state.bank.iter() {
            // excess left in the aggregate hook belongs to nobody: it pays for later dispatches
            if !w.attackers.contains(who) && *who != w.hooks[4] {
                let now = w.c.balance(who, d);
                check!(now >= *v, "{who} lost {d}: {v} -> {now}");
            }
        }
        for v in &w.victims {
            let q = json!({"balance": {"address": v}});
            check_eq!(w.c.q(&w.cw20, q.clone()), old.q(&w.cw20, q), "tokens of a bystander");
        }
    }
    Ok(genuine > 0)
}

impl Before {
    /// The ids queried in the earlier snapshot.
    fn protected_ids(&self, ids: &BTreeSet<Vec<u8>>) -> BTreeSet<Vec<u8>> {
        let known: BTreeSet<Vec<u8>> = ids.iter().filter(|id| self.protected.iter().any(|p| p.0.contains(&hx(id)))).cloned().collect();
        known
    }
}

pub(super) fn prepare(g: &mut G, w: &World) -> (Vec<(Vec<u8>, Vec<u8>)>, BTreeSet<Vec<u8>>) {
    let mut signed = vec![];
    for i in 0..4u32 {
        let origin = w.domains[i as usize % 2];
        let to = g.pick(&[w.recipient.clone(), w.wn.clone(), w.wc.clone()]).clone();
        let body = if to == w.recipient { g.blob(60) } else { [&w.c.wire(&w.victims[0])[..], &Uint256::from(1 + if g.bool() { g.below(1000) as u128 } else { g.amount(1 << 90) }).to_be_bytes()].concat() };
        let raw = w.message(g, origin, 100 + i, &to, body);
        let who: &[usize] = if g.bool() { &[0, 2] } else { &[2, 1, 0] };
        let meta = w.metadata(&raw, who);
        signed.push((raw, meta));
    }
    // what an enrolled router has really sent, though it is no transfer
    for i in 0..2 {
        let to = g.pick(&[w.wn.clone(), w.wc.clone()]).clone();
        let mut body = [&w.c.wire(&w.victims[0])[..], &Uint256::from(1u64 + g.below(1000)).to_be_bytes()].concat();
        match g.below(4) {
            // a short address or a short amount
            0 => drop(body.drain(..*g.pick(&[12, 32, 1, 4, 31]))),
            1 => drop(body.drain(32..32 + *g.pick(&[16usize, 24, 1, 28, 31]))),
            _ => body.truncate(*g.pick(&[0, 1, 4, 20, 31, 32, 33, 36, 40, 48, 52, 63])),
        }
        let raw = w.message(g, w.domains[i as usize], 110 + i, &to, body);
        let meta = w.metadata(&raw, &[0, 2]);
        signed.push((raw, meta));
    }
    let ids = signed.iter().map(|s| refs::keccak(&[&s.0]).to_vec()).collect();
    (signed, ids)
}

fn attacks(g: &mut G) -> Result<(), String> {
    let w = world(g);
    let (signed, mut ids) = prepare(g, &w);
    let pool: Vec<Vec<u8>> = signed.iter().flat_map(|s| [s.0.clone(), s.1.clone()]).collect();
    let mut delivered = BTreeSet::new();
    let (mut accepted, mut refused) = (0, 0);
    let ops = g.list(9, 30, |g| g.u64());
    for _ in &ops {
        let mut q = gen_request(g, &w, &signed);
        let level = g.weighted(&[3, 6, 1]);
        if level == 1 {
            for _ in 0..1 + g.below(2) {
                // bytes of messages and signatures change most of the time
                let fields: &[[&str; 2]] = &[["process", "metadata"], ["process", "message"], ["announce", "signature"], ["announce", "validator"], ["post_dispatch", "message"], ["post_dispatch", "metadata"], ["handle", "body"], ["handle", "sender"]];
                let have: Vec<&[&str; 2]> = fields.iter().filter(|f| q.msg.get(f[0]).is_some_and(|v| v.get(f[1]).is_some())).collect();
                if !have.is_empty() && g.chance(3, 4) {
                    let f = **g.pick(&have);
                    let mut b = unhex(&q.msg[f[0]][f[1]]);
                    mutate_bytes(g, &mut b, &pool);
                    q.msg[f[0]][f[1]] = json!(hx(&b));
                } else {
                    mutate_json(g, &mut q.msg, &w, &pool);
                }
            }
        }
        let mut bytes = q.msg.to_string().into_bytes();
        if level == 2 {
            mutate_text(g, &mut bytes);
        }
        let who = w.attackers[g.idx(2)].clone();
        let before = w.c.state();
        let r = w.c.exec_raw(&who, &q.to, &bytes, &q.funds);
        g.log(|| format!("{} ({}) by {}: {} -> {}", q.what, ["as is", "changed", "garbled"][level], crate::chain::short(&who), String::from_utf8_lossy(&bytes), short_err(&r)));
        match r {
            Err(_) => {
                w.c.unchanged(&before, "a refused request")?;
                refused += (level > 0) as u32;
            }
            Ok(tx) => {
                // the snapshot of what was before, taken only now that it is needed
                let now = w.c.state();
                if now != before {
                    w.c.reset(&before);
                    let b = snapshot(&w, &ids);
                    w.c.reset(&now);
                    if judge(&w, &b, &tx, &mut ids, &mut delivered)? {
                        accepted += 1;
                    }
                }
            }
        }
    }
    if accepted > 0 && refused > 2 {
        g.nontrivial();
    }
    Ok(())
}

/// Byte strings on every entry point of every contract.
fn garbage(g: &mut G) -> Result<(), String> {
    let w = world(g);
    let (signed, mut ids) = prepare(g, &w);
    let pool: Vec<Vec<u8>> = signed.iter().flat_map(|s| [s.0.clone(), s.1.clone()]).collect();
    let mut delivered = BTreeSet::new();
    let mut all: Vec<String> = w.rigs.iter().map(|r| r.addr.clone()).collect();
    all.extend([w.va.clone(), w.merkle.clone(), w.cw20.clone(), w.ms.clone()]);
    let mut reached = false;
    let ops = g.list(9, 30, |g| g.weighted(&[5, 3, 2]));
    for op in ops {
        let who = w.attackers[g.idx(2)].clone();
        match op {
            0 => {
                // someone else's request, changed
                let q = gen_request(g, &w, &signed);
                let to = if g.chance(1, 3) { g.pick(&all).clone() } else { q.to.clone() };
                let mut v = q.msg.clone();
                for _ in 0..1 + g.below(3) {
                    mutate_json(g, &mut v, &w, &pool);
                }
                let mut bytes = v.to_string().into_bytes();
                if g.chance(1, 3) {
                    mutate_text(g, &mut bytes);
                }
                if g.chance(1, 12) {
                    bytes = g.blob(100);
                }
                let before = w.c.state();
                let r = w.c.exec_raw(&who, &to, &bytes, &q.funds);
                g.log(|| format!("{} at {}: {} -> {}", q.what, crate::chain::short(&to), String::from_utf8_lossy(&bytes), short_err(&r)));
                match r {
                    Err(e) => {
                        w.c.unchanged(&before, "a refused request")?;
                        reached |= !e.contains("Error parsing");
                    }
                    Ok(tx) => {
                        let now = w.c.state();
                        if now != before {
                            w.c.reset(&before);
                            let b = snapshot(&w, &ids);
                            w.c.reset(&now);
                            judge(&w, &b, &tx, &mut ids, &mut delivered)?;
                        }
                    }
                }
            }
            1 => {
                // queries have no effect and, where they vouch for a message, tell the truth
                let before = w.c.state();
                let (raw, meta) = g.pick(&signed).clone();
                let rig = &w.rigs[1 + g.idx(4)];
                let (mut raw, mut meta) = (raw, meta);
                // each module reads its own format
                if g.bool() {
                    meta = w.signed(&raw, &[0, 1]);
                }
                if g.bool() {
                    mutate_bytes(g, &mut meta, &pool);
                } else if g.bool() {
                    mutate_bytes(g, &mut raw, &pool);
                }
                let r = verify(&w.c, &rig.addr, &meta, &raw);
                w.c.unchanged(&before, "a query")?;
                g.log(|| format!("{} asked to verify: {r:?}", CODES[rig.code].name));
                if r == Ok(true) && rig.code != ISM_PAUSABLE {
                    let direct = signers(&meta, &raw, &w.enrolled).is_some_and(|(n, _, t)| n as u64 >= t);
                    let ok = match rig.code {
                        ISM_MULTISIG => direct,
                        _ => {
                            // as the module of the second domain would read it
                            let at = |i: usize| meta.get(i..i + 4).map(|b| u32::from_be_bytes(b.try_into().unwrap()) as usize);
                            let k = if w.agg_first { 0 } else { 8 };
                            let part = match (at(k), at(k + 4)) {
                                (Some(a), Some(b)) if a <= b && b <= meta.len() => meta[a..b].to_vec(),
                                _ => vec![],
                            };
                            let nested = signers(&part, &raw, &w.enrolled).is_some_and(|(n, _, t)| n as u64 >= t);
                            let origin = RefMsg::decode(&raw).map(|m| m.origin);
                            match rig.code {
                                ISM_AGGREGATE => nested,
                                _ if origin == Some(w.domains[0]) => direct,
                                _ => nested,
                            }
                        }
                    };
                    check!(ok, "{} vouches for a message that is not proven", CODES[rig.code].name);
                }
                if r.is_err() {
                    reached = true;
                }
                let mut v = json!({"ism": {"verify": {"metadata": hx(&meta), "message": hx(&raw)}}});
                mutate_json(g, &mut v, &w, &pool);
                let mut b = v.to_string().into_bytes();
                mutate_text(g, &mut b);
                let _ = w.c.query_raw(g.pick::<String>(&all), &b);
                w.c.unchanged(&before, "a query")?;
            }
            _ => {
                // instantiation with a damaged request never yields a contract owned by nobody
                let (code, _) = *g.pick(&REPO);
                let mut v = match code {
                    MAILBOX => json!({"hrp": w.c.hrp(), "owner": who, "domain": 5}),
                    VA => json!({"hrp": w.c.hrp(), "mailbox": w.m}),
                    HOOK_MERKLE => json!({"mailbox": w.m}),
                    HOOK_FEE => json!({"owner": who, "fee": {"denom": "x", "amount": "5"}}),
                    HOOK_PAUSABLE | ISM_PAUSABLE => json!({"owner": who, "paused": true}),
                    HOOK_AGGREGATE => json!({"owner": who, "hooks": [w.merkle]}),
                    IGP => json!({"hrp": w.c.hrp(), "owner": who, "gas_token": "x", "beneficiary": who, "default_gas_usage": "5"}),
                    ISM_ROUTING => json!({"owner": who, "isms": [{"domain": 5, "address": w.ms}]}),
                    ISM_AGGREGATE => json!({"owner": who, "threshold": 1, "isms": [w.ms]}),
                    WARP_CW20 => json!({"token": {"collateral": {"address": w.cw20}}, "hrp": w.c.hrp(), "owner": who, "mailbox": w.m}),
                    WARP_NATIVE => json!({"token": {"collateral": {"denom": "uatom"}}, "hrp": w.c.hrp(), "owner": who, "mailbox": w.m}),
                    _ => json!({"owner": who}),
                };
                mutate_json(g, &mut v, &w, &pool);
                let mut b = v.to_string().into_bytes();
                if g.chance(1, 4) {
                    mutate_text(g, &mut b);
                }
                let before = w.c.state();
                let r = w.c.inst_raw(code, &who, &b, &[]);
                g.log(|| format!("new {} with {}: {}", CODES[code].name, String::from_utf8_lossy(&b), if r.is_ok() { "ok" } else { "refused" }));
                match r {
                    Err(_) => w.c.unchanged(&before, "a refused instantiation")?,
                    Ok((a, _)) => {
                        if !matches!(code, VA | HOOK_MERKLE) {
                            let o = owner(&w.c, &a)?;
                            check!(refs::acc_bytes(w.c.hrp(), &o).is_some(), "a contract was instantiated with owner {o:?}");
                        }
                        for (k, v) in before.contracts.iter() {
                            check!(w.c.state().contracts.get(k) == Some(v), "an instantiation changed another contract");
                        }
                        check!(w.c.state().bank == before.bank, "an instantiation moved coins");
                    }
                }
            }
        }
    }
    if reached {
        g.nontrivial();
    }
    Ok(())
}
