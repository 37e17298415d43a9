//! C32: accepted operations announce what they did.
use super::admin::{gen_op, ownable};
use super::hostile::{gen_request, prepare, world, World};
use super::{Prop, SIM};
use crate::chain::{Act, Chain, State, Tx};
use crate::codes::*;
use crate::engine::{Sub, G};
use crate::refs::{self, RefMsg};
use crate::world::*;
use cosmwasm_std::Uint256;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        assumptions: vec![SIM, "attributes other than the ones listed in harness/src/props/events.rs are not compared, nor is the order of events of different types"],
        subs: vec![
            Sub { name: "announcements", cases: (3_000, 50_000), rule: "accepted operations of at least six kinds announced themselves", run: c32 },
            Sub { name: "many-insertions", cases: (300, 4_000), rule: "at least 64 insertions", run: |g| super::hooks::merkle_long(g, false) },
        ],
    }]
}

type Attrs = Vec<(&'static str, String)>;

/// What is announced by the calls of one transaction, per contract and event type.
struct Expect<'a> {
    w: &'a World,
    /// the chain before the transaction
    old: Chain,
    out: BTreeMap<(String, &'static str), Vec<Attrs>>,
    inserted: u64,
    dispatched: u64,
}

/// Every event type that is compared, by kind of contract.
const OWNED_TYPES: [&str; 3] = ["hpl_ownable::init", "hpl_ownable::revoke", "hpl_ownable::claim"];
fn types(code: usize) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = match code {
        MAILBOX => vec!["mailbox_dispatch_id", "mailbox_dispatch", "mailbox_process_id", "mailbox_process", "mailbox_default_ism_set", "mailbox_default_hook_set", "mailbox_required_hook_set"],
        HOOK_MERKLE => vec!["hpl_hook_merkle::post_dispatch", "hpl_hook_merkle::inserted_into_tree"],
        IGP => vec!["igp-core-pay-for-gas", "igp-core-post-dispatch", "igp-core-claim", "igp-core-set-default-gas", "igp-core-set-gas-for-domain", "igp-core-unset-gas-for-domain", "igp-core-set-beneficiary"],
        ORACLE => vec!["set-gas-configs", "set-gas-config"],
        HOOK_FEE => vec!["hpl_hook_fee::post_dispatch", "hpl_hook_fee::set_fee", "hpl_hook_fee::claim"],
        HOOK_ROUTING | HOOK_FALLBACK => vec!["hpl_hook_routing::post_dispatch", "hpl_hook_routing::set_fallback_hook"],
        HOOK_CUSTOM => vec!["hpl_hook_routing_custom::post_dispatch", "hpl_hook_routing_custom::register", "hpl_hook_routing_custom::clear"],
        HOOK_AGGREGATE => vec!["hpl_hook_aggregate::post_dispatch", "hpl_hook_aggregate::set_hooks"],
        VA => vec!["validator-announcement"],
        WARP_NATIVE => vec!["hpl_warp_native::transfer-remote", "hpl_warp_native::handle"],
        WARP_CW20 => vec!["hpl_warp_cw20::transfer-remote", "hpl_warp_cw20::handle"],
        ISM_ROUTING => vec!["hpl_ism_routing::set", "hpl_ism_routing::unset"],
        ISM_AGGREGATE => vec!["hpl_ism_aggregate::set_isms"],
        ISM_MULTISIG => vec!["ism_multisig_set_validators", "ism_multisig_unset_domain"],
        _ => vec![],
    };
    if matches!(code, HOOK_PAUSABLE | ISM_PAUSABLE) {
        v.extend(["hpl_pausable::pause", "hpl_pausable::release"]);
    }
    if matches!(code, HOOK_ROUTING | HOOK_FALLBACK | HOOK_CUSTOM | IGP | WARP_NATIVE | WARP_CW20) {
        v.extend(["hpl_router::set_route", "hpl_router::set_routes"]);
    }
    if matches!(code, WARP_NATIVE | WARP_CW20) {
        v.extend(["hpl_connection::set_mailbox", "hpl_connection::set_ism", "hpl_connection::set_hook"]);
    }
    v.extend(OWNED_TYPES);
    v
}

fn text(v: &V) -> String {
    match v {
        V::String(s) => s.clone(),
        V::Null => String::new(),
        v => v.to_string(),
    }
}

fn joined(v: &V, f: impl Fn(&V) -> String) -> String {
    v.as_array().map(|l| l.iter().map(f).collect::<Vec<_>>().join(",")).unwrap_or_default()
}

/// A route table entry as announced: compared as JSON, not as text.
fn routes(v: &V) -> String {
    let norm = |r: &V| json!({"domain": r["domain"], "route": r["route"]});
    match v {
        V::Array(l) => V::Array(l.iter().map(norm).collect()).to_string(),
        v => norm(v).to_string(),
    }
}

impl Expect<'_> {
    fn add(&mut self, a: &str, ty: &'static str, attrs: Attrs) {
        self.out.entry((a.to_string(), ty)).or_default().push(attrs);
    }
    fn q(&self, a: &str, q: V) -> Result<V, String> {
        self.old.q(a, q)
    }

    fn gas(&mut self, a: &str, sender: &str, id: Vec<u8>, dest: &V, gas: String, funds: &[cosmwasm_std::Coin]) -> Result<(), String> {
        let need: Uint256 = text(&self.q(a, json!({"igp": {"quote_gas_payment": {"dest_domain": dest, "gas_amount": gas}}}))?["gas_needed"]).parse().map_err(|e| format!("harness: {e}"))?;
        let paid: Uint256 = funds.iter().filter(|c| c.denom == "uatom").map(|c| Uint256::from(c.amount)).sum();
        let back = paid.checked_sub(need).map_err(|_| format!("gas was paid with {paid}, less than {need}"))?;
        self.add(a, "igp-core-pay-for-gas", vec![
            ("sender", sender.into()),
            ("dest_domain", text(dest)),
            ("message_id", hx(&id)),
            ("gas_amount", gas),
            ("gas_refunded", back.to_string()),
            ("gas_required", need.to_string()),
            ("payment", paid.to_string()),
        ]);
        Ok(())
    }

    fn call(&mut self, code: usize, sender: &str, a: &str, v: &V, funds: &[cosmwasm_std::Coin]) -> Result<(), String> {
        let Some((name, b)) = v.as_object().and_then(|o| o.iter().next()) else { return Ok(()) };
        let s = |x: &V| text(x);
        match name.as_str() {
            "ownable" | "ownership" => {
                let (k, b) = b.as_object().and_then(|o| o.iter().next()).ok_or("harness: ownership")?;
                match k.as_str() {
                    "init_ownership_transfer" => self.add(a, "hpl_ownable::init", vec![("owner", sender.into()), ("next_owner", s(&b["next_owner"]))]),
                    "revoke_ownership_transfer" => self.add(a, "hpl_ownable::revoke", vec![("owner", sender.into())]),
                    _ => self.add(a, "hpl_ownable::claim", vec![("owner", sender.into())]),
                }
            }
            "pausable" => {
                let ty = if b.get("pause").is_some() { "hpl_pausable::pause" } else { "hpl_pausable::release" };
                self.add(a, ty, vec![("sender", sender.into())])
            }
            "router" => match b.get("set_route") {
                Some(r) => self.add(a, "hpl_router::set_route", vec![("sender", sender.into()), ("set", routes(&r["set"]))]),
                None => self.add(a, "hpl_router::set_routes", vec![("sender", sender.into()), ("set", routes(&b["set_routes"]["set"]))]),
            },
            "connection" => {
                for (k, ty) in [("mailbox", "hpl_connection::set_mailbox"), ("ism", "hpl_connection::set_ism"), ("hook", "hpl_connection::set_hook")] {
                    if let Some(x) = b.get(format!("set_{k}")) {
                        self.add(a, ty, vec![(k, s(&x[k]))]);
                    }
                }
            }
            "dispatch" => {
                let d = Disp::parse(v).ok_or("an unreadable dispatch was accepted")?;
                let n = nonce(&self.old, a) + self.dispatched;
                self.dispatched += 1;
                let m = d.expect(&self.old, sender, n as u32, self.w.local)?;
                self.add(a, "mailbox_dispatch_id", vec![("message_id", hx(&m.id()))]);
                self.add(a, "mailbox_dispatch", vec![("sender", hx(&m.sender)), ("destination", m.dest.to_string()), ("recipient", hx(&m.recipient)), ("message", hx(&m.encode()))]);
            }
            "process" => {
                let m = RefMsg::decode(&unhex(&b["message"])).ok_or("an unreadable message was delivered")?;
                self.add(a, "mailbox_process_id", vec![("message_id", hx(&m.id()))]);
                self.add(a, "mailbox_process", vec![("origin", m.origin.to_string()), ("sender", hx(&m.sender)), ("recipient", hx(&m.recipient))]);
            }
            "set_default_ism" => self.add(a, "mailbox_default_ism_set", vec![("owner", sender.into()), ("new_default_ism", s(&b["ism"]))]),
            "set_default_hook" => self.add(a, "mailbox_default_hook_set", vec![("owner", sender.into()), ("new_default_hook", s(&b["hook"]))]),
            "set_required_hook" => self.add(a, "mailbox_required_hook_set", vec![("owner", sender.into()), ("new_required_hook", s(&b["hook"]))]),
            "post_dispatch" => {
                let (raw, meta) = (unhex(&b["message"]), unhex(&b["metadata"]));
                let Some(m) = RefMsg::decode(&raw) else { return Ok(()) };
                let route = |e: &Self| -> Result<Option<V>, String> { Ok(Some(e.q(a, json!({"router": {"get_route": {"domain": m.dest}}}))?["route"]["route"].clone()).filter(|v| !v.is_null())) };
                match code {
                    HOOK_MERKLE => {
                        let i = self.q(a, json!({"merkle_hook": {"count": {}}}))?["count"].as_u64().unwrap_or(u64::MAX) + self.inserted;
                        self.inserted += 1;
                        self.add(a, "hpl_hook_merkle::post_dispatch", vec![("message_id", hx(&m.id())), ("index", i.to_string())]);
                        self.add(a, "hpl_hook_merkle::inserted_into_tree", vec![("index", i.to_string())]);
                    }
                    HOOK_FEE => {
                        let fee = self.q(a, json!({"fee_hook": {"fee": {}}}))?["fee"].clone();
                        let paid: u128 = funds.iter().filter(|c| json!(c.denom) == fee["denom"]).map(|c| c.amount.u128()).sum();
                        self.add(a, "hpl_hook_fee::post_dispatch", vec![("paid_denom", s(&fee["denom"])), ("paid_amount", paid.to_string())]);
                    }
                    HOOK_AGGREGATE => self.add(a, "hpl_hook_aggregate::post_dispatch", vec![("message_id", hx(&m.id()))]),
                    HOOK_ROUTING => {
                        let r = route(self)?.ok_or("a message without route was accepted")?;
                        self.add(a, "hpl_hook_routing::post_dispatch", vec![("domain", m.dest.to_string()), ("route", s(&r)), ("message_id", hx(&m.id()))]);
                    }
                    HOOK_FALLBACK => {
                        // the fallback hook of the world is its pausable hook
                        let r = route(self)?.unwrap_or(json!(self.w.hooks[3]));
                        self.add(a, "hpl_hook_routing::post_dispatch", vec![("domain", m.dest.to_string()), ("route", s(&r)), ("message_id", hx(&m.id()))]);
                    }
                    HOOK_CUSTOM => {
                        let own = self.q(a, json!({"custom_routing_hook": {"custom_hook": {"dest_domain": m.dest, "recipient": hx(&m.recipient)}}})).ok().map(|v| v["hook"].clone()).filter(|v| !v.is_null());
                        let r = match own {
                            Some(h) => h,
                            None => route(self)?.ok_or("a message without route was accepted")?,
                        };
                        self.add(a, "hpl_hook_routing_custom::post_dispatch", vec![("domain", m.dest.to_string()), ("route", s(&r)), ("message_id", hx(&m.id()))]);
                    }
                    IGP => {
                        let gas = if meta.len() >= 32 {
                            Uint256::from_be_bytes(meta[..32].try_into().unwrap()).to_string()
                        } else {
                            let own = self.q(a, json!({"igp": {"gas_for_domain": {"domains": [m.dest]}}})).ok().and_then(|v| v["gas"].as_array().and_then(|l| l.iter().find(|e| e[0] == json!(m.dest)).map(|e| text(&e[1]))));
                            match own {
                                Some(g) => g,
                                None => text(&self.q(a, json!({"igp": {"default_gas": {}}}))?["gas"]),
                            }
                        };
                        self.gas(a, sender, m.id().to_vec(), &json!(m.dest), gas, funds)?;
                        self.add(a, "igp-core-post-dispatch", vec![("metadata", if meta.is_empty() { "0x".into() } else { hx(&meta) }), ("message", hx(&raw))]);
                    }
                    _ => {}
                }
            }
            "pay_for_gas" => self.gas(a, sender, unhex(&b["message_id"]), &b["dest_domain"], s(&b["gas_amount"]), funds)?,
            "claim" if code == IGP => {
                let held = self.old.balance(a, "uatom");
                self.add(a, "igp-core-claim", vec![("beneficiary", sender.into()), ("collected", format!("{held}uatom"))]);
            }
            "set_default_gas" => self.add(a, "igp-core-set-default-gas", vec![("owner", sender.into()), ("default-gas", s(&b["gas"]))]),
            "set_gas_for_domain" => self.add(a, "igp-core-set-gas-for-domain", vec![("owner", sender.into()), ("domains", joined(&b["config"], |e| text(&e[0])))]),
            "unset_gas_for_domain" => self.add(a, "igp-core-unset-gas-for-domain", vec![("owner", sender.into()), ("domains", joined(&b["domains"], text))]),
            "set_beneficiary" => self.add(a, "igp-core-set-beneficiary", vec![("owner", sender.into()), ("beneficiary", s(&b["beneficiary"]))]),
            "set_remote_gas_data" => self.add(a, "set-gas-config", vec![("domain", s(&b["config"]["remote_domain"]))]),
            "set_remote_gas_data_configs" => self.add(a, "set-gas-configs", vec![("owner", sender.into()), ("domains", joined(&b["configs"], |e| text(&e["remote_domain"])))]),
            "fee_hook" => match b.get("set_fee") {
                Some(f) => self.add(a, "hpl_hook_fee::set_fee", vec![("fee_denom", s(&f["fee"]["denom"])), ("fee_amount", s(&f["fee"]["amount"]))]),
                None => self.add(a, "hpl_hook_fee::claim", vec![]),
            },
            "set_fallback_hook" => self.add(a, "hpl_hook_routing::set_fallback_hook", vec![("sender", sender.into()), ("fallback-hook", s(&b["hook"]))]),
            "set_hooks" => self.add(a, "hpl_hook_aggregate::set_hooks", vec![("sender", sender.into()), ("hooks", joined(&b["hooks"], text))]),
            "register_custom_hook" | "register_custom_hooks" | "clear_custom_hook" | "clear_custom_hooks" => {
                let list = if b.is_array() { b.clone() } else { json!([b]) };
                let keys: Vec<V> = list.as_array().unwrap().iter().map(|e| json!(format!("{}:{}", e["dest_domain"], s(&e["recipient"])))).collect();
                let ty = if name.starts_with("register") { "hpl_hook_routing_custom::register" } else { "hpl_hook_routing_custom::clear" };
                self.add(a, ty, vec![("sender", sender.into()), ("keys", json!(keys).to_string())]);
            }
            "announce" => self.add(a, "validator-announcement", vec![("sender", sender.into()), ("validator", hx(&unhex(&b["validator"]))), ("storage-location", s(&b["storage_location"]))]),
            "transfer_remote" => {
                let native = code == WARP_NATIVE;
                let token = if native { "utoken".to_string() } else { self.w.cw20.clone() };
                let mut v = vec![("sender", sender.to_string()), ("recipient", hx(&unhex(&b["recipient"]))), ("token", token), ("amount", s(&b["amount"]))];
                if !native {
                    v.push(("dest_domain", s(&b["dest_domain"])));
                }
                if !b["hook"].is_null() {
                    v.push(("hook", s(&b["hook"])));
                }
                if b["metadata"].as_str().is_some_and(|m| !m.is_empty()) {
                    v.push(("metadata", hx(&unhex(&b["metadata"]))));
                }
                self.add(a, if native { "hpl_warp_native::transfer-remote" } else { "hpl_warp_cw20::transfer-remote" }, v);
            }
            "handle" if matches!(code, WARP_NATIVE | WARP_CW20) => {
                let body = unhex(&b["body"]);
                check!(body.len() >= 64, "a transfer of {} bytes was accepted", body.len());
                let to = refs::wire_to_addr(self.w.c.hrp(), &body[..32].try_into().unwrap());
                let n = Uint256::from_be_bytes(body[32..64].try_into().unwrap());
                let (ty, token) = if code == WARP_NATIVE { ("hpl_warp_native::handle", "utoken".to_string()) } else { ("hpl_warp_cw20::handle", self.w.cw20.clone()) };
                self.add(a, ty, vec![("recipient", to), ("token", token), ("amount", n.to_string())]);
            }
            "set" if code == ISM_ROUTING => self.add(a, "hpl_ism_routing::set", vec![("sender", sender.into()), ("domain", s(&b["ism"]["domain"])), ("ism", s(&b["ism"]["address"]))]),
            "unset" if code == ISM_ROUTING => self.add(a, "hpl_ism_routing::unset", vec![("sender", sender.into()), ("domains", joined(&b["domains"], text))]),
            "set_isms" => self.add(a, "hpl_ism_aggregate::set_isms", vec![("isms", joined(&b["isms"], text))]),
            "set_validators" => self.add(a, "ism_multisig_set_validators", vec![
                ("sender", sender.into()),
                ("domain", s(&b["domain"])),
                ("validators", b["validators"].as_array().map_or(0, |l| l.len()).to_string()),
                ("threshold", s(&b["threshold"])),
            ]),
            "unset_domain" => self.add(a, "ism_multisig_unset_domain", vec![("domain", s(&b["domain"]))]),
            _ => {}
        }
        Ok(())
    }
}

/// Compares the events of an accepted transaction; returns how many kinds were seen.
fn compare(w: &World, codes: &BTreeMap<String, usize>, before: &State, tx: &Tx, kinds: &mut std::collections::BTreeSet<&'static str>) -> Result<(), String> {
    let mut e = Expect { w, old: w.c.fork_at(before), out: BTreeMap::new(), inserted: 0, dispatched: 0 };
    for s in &tx.steps {
        if let Act::Exec { sender, contract, msg, funds } = &s.act {
            if let (Some(code), Ok(v)) = (codes.get(contract), serde_json::from_slice::<V>(msg)) {
                e.call(*code, sender, contract, &v, funds)?;
            }
        }
    }
    for (a, code) in codes {
        for ty in types(*code) {
            let want = e.out.remove(&(a.clone(), ty)).unwrap_or_default();
            let got = tx.ev(a, ty);
            check!(got.len() == want.len(), "{} {} events by {}, expected {}: {got:?}", got.len(), ty, crate::chain::short(a), want.len());
            for (g, attrs) in got.iter().zip(&want) {
                kinds.insert(ty);
                for (k, v) in attrs {
                    let all: Vec<&String> = g.attrs.iter().filter(|x| x.0 == *k).map(|x| &x.1).collect();
                    check!(all.len() == 1, "{ty} has the attribute {k} {} times", all.len());
                    let same = if *k == "set" || *k == "keys" {
                        serde_json::from_str::<V>(all[0]).ok().map(|x| if *k == "set" { routes(&x) } else { x.to_string() }).as_ref() == Some(v)
                    } else {
                        all[0] == v
                    };
                    check!(same, "{ty} announces {k} = {:?} instead of {v:?}", all[0]);
                }
            }
        }
    }
    check!(e.out.is_empty(), "harness: unlisted event types {:?}", e.out.keys());
    Ok(())
}

fn c32(g: &mut G) -> Result<(), String> {
    let w = world(g);
    let (signed, _) = prepare(g, &w);
    let mut codes: BTreeMap<String, usize> = w.rigs.iter().map(|r| (r.addr.clone(), r.code)).collect();
    codes.insert(w.merkle.clone(), HOOK_MERKLE);
    codes.insert(w.va.clone(), VA);
    let beneficiary = w.c.acc("beneficiary");
    for v in &w.victims {
        w.c.ok(v, &w.cw20, json!({"increase_allowance": {"spender": w.wc, "amount": (1u128 << 99).to_string(), "expires": null}}));
    }
    let mut kinds = Default::default();
    let ops = g.list(14, 40, |g| g.weighted(&[5, 4, 3, 2, 2, 1]));
    for op in ops {
        let before = w.c.state();
        let mut restore = false;
        let (sender, to, msg, funds) = match op {
            0 => {
                // everyday requests
                let q = gen_request(g, &w, &signed);
                (w.attackers[0].clone(), q.to, q.msg, q.funds)
            }
            1 => {
                // administration, undone afterwards
                restore = true;
                let r = g.pick(&w.rigs);
                let o = gen_op(g, &w.c, r, &w.domains);
                (w.owner.clone(), r.addr.clone(), o.msg, vec![])
            }
            2 => {
                let d = Disp {
                    dest: *g.pick(&w.domains),
                    recipient: if g.bool() { w.custom.clone() } else { g.bytes(32) },
                    body: gen_body(g, 60),
                    hook: if g.chance(3, 4) { Some(g.pick(&w.hooks).clone()) } else { None },
                    metadata: match g.below(4) {
                        0 => Some([&Uint256::from(g.below(1 << 30)).to_be_bytes()[..], &w.c.wire(&w.victims[0])].concat()),
                        1 => Some(gen_body(g, 70)),
                        _ => None,
                    },
                };
                let v = &w.victims[g.idx(2)];
                let mut funds = w.c.q(&w.m, d.quote(v)).ok().and_then(|q| parse_coins(&q["fees"]).ok()).unwrap_or_default();
                if g.chance(1, 4) && funds.iter().all(|c| c.denom != "uatom") {
                    funds.push(coin(g.amount(1 << 90), "uatom"));
                } else if g.chance(1, 3) {
                    for c in &mut funds {
                        c.amount += cosmwasm_std::Uint128::from(g.amount(1 << 90));
                    }
                }
                (v.clone(), w.m.clone(), d.msg(), funds)
            }
            3 => {
                // transfers with every combination of options
                let native = g.bool();
                let a = 1 + if g.bool() { g.below(1000) as u128 } else { g.amount(1 << 90) };
                let v = &w.victims[g.idx(2)];
                let hook = if g.bool() { Some(g.pick(&w.hooks).clone()) } else { None };
                let metadata = match g.below(3) {
                    0 => V::Null,
                    1 => json!(""),
                    _ => json!(hx(&g.blob(40))),
                };
                let msg = json!({"transfer_remote": {"dest_domain": g.pick(&w.domains), "recipient": hx(&g.bytes(32)), "amount": a.to_string(), "hook": hook, "metadata": metadata}});
                let mut funds = vec![coin(1 << 90, "uatom"), coin(7, "uosmo")];
                if hook.is_some_and(|h| h != w.hooks[1] && h != w.hooks[4]) {
                    funds.remove(0);
                }
                if native {
                    funds.push(coin(a, "utoken"));
                }
                (v.clone(), if native { &w.wn } else { &w.wc }.clone(), msg, funds)
            }
            4 => {
                let (who, a, m) = match g.below(3) {
                    0 => (beneficiary.clone(), w.hooks[1].clone(), json!({"claim": {}})),
                    1 => (w.owner.clone(), w.hooks[2].clone(), json!({"fee_hook": {"claim": {"recipient": if g.bool() { V::Null } else { json!(w.victims[1]) }}}})),
                    _ => (w.owner.clone(), w.hooks[1].clone(), json!({"unset_gas_for_domain": {"domains": w.domains}})),
                };
                (who, a, m, vec![])
            }
            _ => {
                // ownership; offers are taken back by the restored state
                restore = true;
                let r = g.pick(&w.rigs);
                let offer = ownable(r.code, json!({"init_ownership_transfer": {"next_owner": w.victims[1]}}));
                match g.below(3) {
                    0 => (w.owner.clone(), r.addr.clone(), offer, vec![]),
                    k => {
                        let _ = w.c.x(&w.owner, &r.addr, offer, &[]);
                        let claim = k == 1;
                        let m = ownable(r.code, if claim { json!({"claim_ownership": {}}) } else { json!({"revoke_ownership_transfer": {}}) });
                        let who = match pending_owner(&w.c, &r.addr)? {
                            Some(p) if claim => p,
                            _ => w.owner.clone(),
                        };
                        (who, r.addr.clone(), m, vec![])
                    }
                }
            }
        };
        let start = w.c.state();
        let res = w.c.x(&sender, &to, msg.clone(), &funds);
        g.log(|| format!("{} calls {} with {msg} and {funds:?} -> {}", crate::chain::short(&sender), crate::chain::short(&to), short_err(&res)));
        if let Ok(tx) = res {
            compare(&w, &codes, &start, &tx, &mut kinds)?;
        }
        if restore {
            w.c.reset(&before);
        }
    }
    if kinds.len() >= 6 {
        g.nontrivial();
    }
    Ok(())
}
