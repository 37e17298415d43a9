//! C01 dispatch numbering, C02 at-most-once delivery, C03 approval, C04 fee splitting.
use super::{Prop, SIM};
use crate::chain::{Chain, Tx};
use crate::codes::*;
use crate::engine::{Sub, G};
use crate::refs::{self, sh, RefMsg};
use crate::world::*;
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            assumptions: vec![SIM],
            subs: vec![
                Sub { name: "dispatch-history", cases: (40_000, 250_000), rule: "at least two successful dispatches plus a nested or a refused one", run: c01 },
                Sub { name: "long-history", cases: (1_500, 20_000), rule: "the number of dispatches passed a power of two or at least 60 were made", run: c01_long },
            ],
        },
        Prop {
            id: "C02",
            assumptions: vec![SIM],
            subs: vec![
                Sub { name: "process-history", cases: (20_000, 250_000), rule: "a delivered message was processed again, or a failed delivery was retried", run: c02 },
                Sub { name: "long-history", cases: (400, 5_000), rule: "at least 40 messages were delivered and tried again later", run: c02_long },
            ],
        },
        Prop {
            id: "C03",
            assumptions: vec![SIM],
            subs: vec![Sub { name: "process-outcome", cases: (60_000, 250_000), rule: "at least one delivery and one refusal", run: c03 }],
        },
        Prop {
            id: "C04",
            assumptions: vec![SIM],
            subs: vec![Sub { name: "fee-split", cases: (90_000, 400_000), rule: "the required hook charged something and at least one dispatch succeeded", run: c04 }],
        },
    ]
}

/// Denominations that resemble each other.
pub const DENOMS: [&str; 4] = ["uatom", "uatomx", "UATOM", "factory/x/uatom"];
/// Further denominations, charged by few hooks that then charge many.
pub const MORE: [&str; 12] = ["a", "aa", "b", "ibc/AB13", "ibc/ab12", "uatom2", "uatoma", "uosm", "v", "x/y", "ya", "z"];

/// Checks every dispatch of a successful transaction against the next nonces.
pub fn check_dispatches(c: &Chain, m: &str, tx: &Tx, nonce: &mut u32, origin: u32, required: &str, default: &str) -> Result<Vec<RefMsg>, String> {
    let mut out = vec![];
    let mut want_calls: Vec<(String, String, String)> = vec![];
    for (sender, v, _) in tx.calls(m) {
        let Some(d) = Disp::parse(&v) else { continue };
        let msg = d.expect(c, &sender, *nonce, origin)?;
        *nonce += 1;
        let meta = hx(d.metadata.as_deref().unwrap_or_default());
        want_calls.push((required.to_string(), meta.clone(), hx(&msg.encode())));
        want_calls.push((d.hook.clone().unwrap_or(default.to_string()), meta, hx(&msg.encode())));
        out.push(msg);
    }
    let ids: Vec<_> = tx.ev(m, "mailbox_dispatch_id").iter().map(|e| e.attr("message_id").unwrap_or("").to_string()).collect();
    check_eq!(ids, out.iter().map(|m| hx(&m.id())).collect::<Vec<_>>(), "emitted dispatch ids");
    let evs: Vec<_> = tx
        .ev(m, "mailbox_dispatch")
        .iter()
        .map(|e| ["sender", "destination", "recipient", "message"].map(|k| e.attr(k).unwrap_or("").to_string()))
        .collect();
    let want: Vec<_> = out.iter().map(|m| [hx(&m.sender), m.dest.to_string(), hx(&m.recipient), hx(&m.encode())]).collect();
    check_eq!(evs, want, "dispatch events");
    let mut calls: Vec<(String, String, String)> = tx
        .calls_by(m)
        .into_iter()
        .filter(|(_, v, _)| v.get("handle").is_none())
        .map(|(to, v, _)| {
            let p = &v["post_dispatch"];
            (to, p["metadata"].as_str().unwrap_or("?").to_string(), p["message"].as_str().unwrap_or("?").to_string())
        })
        .collect();
    calls.sort();
    want_calls.sort();
    check_eq!(calls, want_calls, "hook calls of the mailbox");
    Ok(out)
}

// ---------------------------------------------------------------- C01

fn c01(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let origin = g.domain();
    let owner = c.acc("owner");
    let m = {
        odd_address(g, &c);
        mailbox(&c, &owner, origin)
    };
    let mut hooks = vec![];
    for _ in 0..4 {
        odd_address(g, &c);
        hooks.push(c.mock(&Cfg::default()));
    }
    let ism = c.mock(&Cfg::default());
    c.ok(&owner, &m, json!({"set_default_ism": {"ism": ism}}));
    let (mut required, mut default) = (0usize, 1usize);
    c.ok(&owner, &m, json!({"set_default_hook": {"hook": hooks[default]}}));
    c.ok(&owner, &m, json!({"set_required_hook": {"hook": hooks[required]}}));
    let mut cfgs = vec![Cfg::default(); 4];
    let mut users = gen_accounts(g, &c, 3);
    users.push(owner.clone());
    for u in &users {
        c.mint(u, "uatom", 1_000_000);
    }
    for h in &hooks {
        c.mint(h, "uatom", 1_000);
    }
    check_eq!(nonce(&c, &m), 0u64, "nonce of a fresh mailbox");
    let mut n = 0u32;
    let mut last: Option<Vec<u8>> = None;
    let mut ids = BTreeSet::new();
    let (mut good, mut refused, mut nested) = (0, 0, 0);
    let mut pool: Vec<Disp> = vec![];
    let ops = g.list(12, 40, |g| g.u64());
    for _ in &ops {
        match g.weighted(&[10, 2, 2, 2, 1, 1]) {
            0 => {
                // dispatch, possibly of an earlier request, possibly invalid
                let mut d = if !pool.is_empty() && g.chance(1, 3) { g.pick(&pool).clone() } else { gen_disp(g) };
                pool.push(d.clone());
                if g.chance(1, 3) {
                    d.hook = Some(hooks[g.idx(hooks.len())].clone());
                }
                let mut valid = true;
                match g.below(10) {
                    7 => {
                        let len = *g.pick(&[0usize, 1, 20, 31, 33, 64]);
                        d.recipient = g.bytes(len);
                        valid = false;
                    }
                    8 => {
                        d.hook = Some(g.pick::<&str>(&["", "notanaddress", "OSMO1XYZ"]).to_string());
                        valid = false;
                    }
                    9 => {
                        // a hook that is not a contract
                        d.hook = Some(users[0].clone());
                        valid = false;
                    }
                    _ => {}
                }
                // as an account, or as a contract
                let via = g.chance(1, 4);
                let funds = if g.bool() { coins(&[(g.below(20) as u128, "uatom")]) } else { vec![] };
                let chosen = d.hook.as_ref().and_then(|h| hooks.iter().position(|x| x == h)).unwrap_or(default);
                let troubled = |i: usize| cfgs[i].fail || cfgs[i].quote_fail || !cfgs[i].reenter.is_empty() || !cfgs[i].quote.is_empty();
                let sure_ok = valid && !troubled(required) && !troubled(chosen);
                let sure_bad = !valid || cfgs[required].fail || cfgs[required].quote_fail || cfgs[chosen].fail;
                let before = c.state();
                let r = if via {
                    let acc = &hooks[3];
                    c.exec(&users[0], acc, &MockExec::Run { actions: vec![Action { contract: m.clone(), msg: d.msg().to_string().into_bytes().into(), funds: funds.clone(), swallow: false }] }, &[])
                } else {
                    let u = g.pick(&users).clone();
                    c.x(&u, &m, d.msg(), &funds)
                };
                g.log(|| format!("dispatch to {} recipient {} body {}B hook {:?} metadata {:?}B{} -> {}", d.dest, sh(&d.recipient), d.body.len(), d.hook.as_ref().map(|_| chosen), d.metadata.as_ref().map(|v| v.len()), if via { " by a contract" } else { "" }, short_err(&r)));
                match r {
                    Ok(tx) => {
                        check!(!sure_bad, "a dispatch that has to be refused succeeded");
                        let msgs = check_dispatches(&c, &m, &tx, &mut n, origin, &hooks[required], &hooks[default])?;
                        check!(!msgs.is_empty(), "no dispatch in the transaction");
                        if !via {
                            let v: V = serde_json::from_slice(tx.data.as_ref().map(|b| b.as_slice()).unwrap_or(b"{}")).unwrap_or_default();
                            check_eq!(v["message_id"].as_str().unwrap_or("none").to_string(), hx(&msgs[0].id()), "returned message id");
                        }
                        good += msgs.len();
                        nested += msgs.len() - 1;
                        for x in &msgs {
                            check!(ids.insert(x.id()), "two dispatches share the id {}", hx(&x.id()));
                        }
                        last = msgs.last().map(|x| x.id().to_vec());
                        // the mocks have spent their calls if they were reached
                        for i in [required, chosen] {
                            cfgs[i].reenter.clear();
                        }
                    }
                    Err(e) => {
                        check!(!sure_ok, "a valid dispatch was refused: {e}");
                        refused += 1;
                        c.unchanged(&before, "a refused dispatch")?;
                    }
                }
            }
            1 => {
                // a hook that dispatches itself when called
                let i = g.idx(4);
                let k = g.range(1, 2);
                let reenter = (0..k)
                    .map(|_| {
                        let mut d = gen_disp(g);
                        if g.chance(1, 5) {
                            d.recipient.pop();
                        }
                        if g.chance(1, 3) {
                            d.hook = Some(hooks[g.idx(4)].clone());
                        }
                        let swallow = g.bool();
                        Action { contract: m.clone(), msg: d.msg().to_string().into_bytes().into(), funds: vec![], swallow }
                    })
                    .collect();
                cfgs[i] = Cfg { reenter, ..Default::default() };
                g.log(|| format!("hook {i} will dispatch {k} message(s) when called"));
                c.set_mock(&hooks[i], &cfgs[i]);
            }
            2 => {
                let i = g.idx(4);
                cfgs[i] = Cfg { fail: g.bool(), quote_fail: g.chance(1, 4), quote: if g.bool() { coins(&[(g.range(1, 12) as u128, "uatom")]) } else { vec![] }, ..Default::default() };
                g.log(|| format!("hook {i}: fail={} quote_fail={} quote={:?}", cfgs[i].fail, cfgs[i].quote_fail, cfgs[i].quote.first().map(|v| v.amount.u128())));
                c.set_mock(&hooks[i], &cfgs[i]);
            }
            3 => {
                let i = g.idx(4);
                cfgs[i] = Cfg::default();
                c.set_mock(&hooks[i], &cfgs[i]);
            }
            4 => {
                let (i, req) = (g.idx(4), g.bool());
                g.log(|| format!("{} hook := {i}", if req { "required" } else { "default" }));
                if req {
                    required = i;
                    c.ok(&owner, &m, json!({"set_required_hook": {"hook": hooks[i]}}));
                } else {
                    default = i;
                    c.ok(&owner, &m, json!({"set_default_hook": {"hook": hooks[i]}}));
                }
            }
            _ => {
                // processing a message does not touch dispatch state
                let to = c.mock(&Cfg::default());
                let msg = RefMsg { version: 3, nonce: g.below(3) as u32, origin: 9, sender: [7; 32], dest: origin, recipient: c.wire(&to), body: vec![] };
                let r = c.x(&users[0], &m, process(b"", &msg.encode()), &[]);
                check!(r.is_ok(), "a valid message was refused: {}", short_err(&r));
            }
        }
        // the mocks drop their calls only when the transaction is kept; resynchronise
        for i in 0..4 {
            if !cfgs[i].reenter.is_empty() {
                let v = c.raw(&hooks[i], b"cfg").unwrap();
                let s: Cfg = serde_json::from_slice(&v).expect("harness: cfg");
                cfgs[i].reenter = s.reenter;
            }
        }
        check_eq!(nonce(&c, &m), n as u64, "nonce query");
        if let Some(id) = &last {
            check_eq!(latest(&c, &m).unwrap_or_default(), id.clone(), "latest dispatched id query");
        }
    }
    if nested > 0 {
        g.label("nested dispatch");
    }
    if refused > 0 {
        g.label("refused dispatch");
    }
    if good >= 2 && (nested > 0 || refused > 0) {
        g.nontrivial();
    }
    Ok(())
}

/// Many dispatches, and dispatches near the ends of ranges of the counter.
fn c01_long(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let origin = g.domain();
    let owner = c.acc("owner");
    let (m, _, default, required) = full_mailbox(&c, &owner, origin);
    let users = gen_accounts(g, &c, 2);
    let mut n = 0u64;
    let mut ids = BTreeSet::new();
    let mut seen = vec![];
    let go = |g: &mut G, n: &mut u64, ids: &mut BTreeSet<[u8; 32]>, seen: &mut Vec<RefMsg>| -> Result<bool, String> {
        let mut d = gen_disp(g);
        if !seen.is_empty() && g.chance(1, 3) {
            // the same request again
            let o: &RefMsg = g.pick(seen);
            d = Disp { dest: o.dest, recipient: o.recipient.to_vec(), body: o.body.clone(), hook: None, metadata: None };
        }
        let u = g.pick(&users).clone();
        let before = c.state();
        let r = c.x(&u, &m, d.msg(), &[]);
        match r {
            Ok(tx) => {
                check!(*n <= u32::MAX as u64, "a dispatch after number {} succeeded", *n - 1);
                let mut k = *n as u32;
                // the model adds one, which the last number does not survive
                let msgs = if k == u32::MAX {
                    vec![d.expect(&c, &u, k, origin)?]
                } else {
                    check_dispatches(&c, &m, &tx, &mut k, origin, &required, &default)?
                };
                check_eq!(msgs.len(), 1usize, "dispatches");
                let v: V = serde_json::from_slice(tx.data.as_ref().map(|b| b.as_slice()).unwrap_or(b"{}")).unwrap_or_default();
                check_eq!(v["message_id"].as_str().unwrap_or("none").to_string(), hx(&msgs[0].id()), "returned message id of dispatch {n}");
                check!(ids.insert(msgs[0].id()), "two dispatches share an id");
                check_eq!(latest(&c, &m).unwrap_or_default(), msgs[0].id().to_vec(), "latest dispatched id query");
                *n += 1;
                seen.extend(msgs);
                if *n <= u32::MAX as u64 {
                    check_eq!(nonce(&c, &m), *n, "nonce query");
                }
                Ok(true)
            }
            Err(e) => {
                // the last number may be kept back
                check!(*n >= u32::MAX as u64, "dispatch number {n} was refused: {e}");
                c.unchanged(&before, "a refused dispatch")?;
                Ok(false)
            }
        }
    };
    let first = g.range(1, 3);
    for _ in 0..first {
        go(g, &mut n, &mut ids, &mut seen)?;
    }
    if g.chance(3, 4) {
        // continue from a large number, as after that many dispatches
        let to = match g.below(4) {
            0 => *g.pick(&[254u64, 255, 256, 510, 1023]),
            1 => *g.pick(&[65_534u64, 65_535, 65_536, 0xff_fffe, 0x100_0000]),
            2 => *g.pick(&[0x7fff_fffeu64, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_fffd, 0xffff_fffe]),
            _ => g.below(1 << 32),
        };
        // the stored counter: the one value that follows the dispatches
        let at = |n: u64, c: &Chain| c.store_of(&m).into_iter().filter(|(_, v)| *v == n.to_string().into_bytes()).map(|v| v.0).collect::<BTreeSet<_>>();
        let a = at(n, &c);
        go(g, &mut n, &mut ids, &mut seen)?;
        let keys: Vec<_> = at(n, &c).intersection(&a).cloned().collect();
        if let [key] = &keys[..] {
            c.set_raw(&m, key, Some(to.to_string().into_bytes()));
            if nonce(&c, &m) == to {
                n = to;
                g.label("counter moved ahead");
            } else {
                c.set_raw(&m, key, Some(n.to_string().into_bytes()));
            }
        }
    }
    let start = n;
    let k = if g.chance(1, 10) { g.range(200, 600) } else { g.range(2, 40) };
    g.log(|| format!("{k} dispatches from number {n}"));
    let mut stuck = 0;
    for _ in 0..k {
        if !go(g, &mut n, &mut ids, &mut seen)? {
            stuck += 1;
            g.label("counter exhausted");
            if stuck > 3 {
                break;
            }
        }
    }
    if start / 256 != n / 256 || n - start >= 60 || stuck > 0 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

/// Many deliveries, each tried again after a long time.
fn c02_long(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let local = g.domain();
    let owner = c.acc("owner");
    let (m, ..) = full_mailbox(&c, &owner, local);
    let rec: Vec<String> = (0..2).map(|_| c.mock(&Cfg::default())).collect();
    let n = if g.chance(1, 6) { g.range(200, 500) } else { g.range(3, 80) };
    let start = *g.pick(&[0u32, 250, 65_530, u32::MAX - 700]);
    let origins = super::isms::gen_domains(g, 2);
    let sender = g.bytes32();
    let relayer = gen_account(g, &c);
    let insiders = [owner.clone(), rec[0].clone(), m.clone()];
    let mut all: Vec<RefMsg> = vec![];
    let mut again = 0;
    let retry = |g: &mut G, msg: &RefMsg| -> Result<(), String> {
        let before = c.state();
        let meta = gen_body(g, 20);
        let relayer = if g.chance(1, 6) { g.pick(&insiders) } else { &relayer };
        let r = c.x(relayer, &m, process(&meta, &msg.encode()), &[]);
        check!(r.is_err(), "a message was delivered twice (number {} from {}, {} bytes)", msg.nonce, msg.origin, msg.body.len());
        c.unchanged(&before, "a refused process")?;
        check!(delivered(&c, &m, &msg.id())?, "a delivered message is not reported as delivered");
        Ok(())
    };
    for i in 0..n {
        let msg = RefMsg { version: 3, nonce: start + i as u32 / 2, origin: origins[i as usize % 2], sender, dest: local, recipient: c.wire(g.pick(&rec)), body: gen_body(g, 40) };
        check!(!delivered(&c, &m, &msg.id())?, "an undelivered message is reported as delivered");
        let r = c.x(&relayer, &m, process(&[], &msg.encode()), &[]);
        check!(r.is_ok(), "an undelivered, approved message was refused: {}", short_err(&r));
        check!(delivered(&c, &m, &msg.id())?, "a delivered message is not reported as delivered");
        all.push(msg);
        if g.chance(1, 8) {
            let j = g.idx(all.len());
            retry(g, &all[j])?;
            again += 1;
        }
        if g.chance(1, 40) {
            let n = *g.pick(&[1u64, 100_000, 50_000_000]);
            c.advance(n);
        }
    }
    g.log(|| format!("{n} deliveries, numbers from {start}, from {origins:?}; all tried again"));
    for msg in &all {
        retry(g, msg)?;
    }
    if n >= 40 && again > 0 {
        g.nontrivial();
    }
    Ok(())
}

/// Messages processed in a transaction that was kept, in order.
fn processed(tx: &Tx, m: &str) -> Vec<Vec<u8>> {
    tx.calls(m).iter().filter_map(|(_, v, _)| v.get("process").and_then(|p| p["message"].as_str()).and_then(parse_hex)).collect()
}

fn c02(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let local = g.domain();
    let owner = c.acc("owner");
    let (m, ..) = full_mailbox(&c, &owner, local);
    // verification modules the owner switches between, recipients with or without a choice of their own
    let isms: Vec<String> = [Verdict::Yes, Verdict::Yes, Verdict::No, Verdict::Error].into_iter().map(|verdict| c.mock(&Cfg { verdict, ..Default::default() })).collect();
    let mut isms_ok = vec![true, true, false, false];
    let mut default = 0;
    c.ok(&owner, &m, json!({"set_default_ism": {"ism": isms[0]}}));
    let mut rec = vec![];
    let mut rcfg = vec![];
    for _ in 0..3 {
        odd_address(g, &c);
        let ism = g.chance(1, 3).then(|| isms[g.idx(2)].clone());
        let cfg = Cfg { ism, ..Default::default() };
        rec.push(c.mock(&cfg));
        rcfg.push(cfg);
    }
    let n = g.range(2, 5) as usize;
    let mut pool: Vec<(RefMsg, usize)> = vec![];
    for _ in 0..n {
        let r = g.idx(3);
        let mut msg = RefMsg { version: 3, nonce: g.below(4) as u32, origin: g.domain(), sender: g.bytes32(), dest: local, recipient: c.wire(&rec[r]), body: gen_body(g, 60) };
        if !pool.is_empty() && g.bool() {
            // a near duplicate of the previous message
            msg = pool.last().unwrap().0.clone();
            match g.below(4) {
                0 => msg.nonce ^= 1 << g.below(32),
                1 => msg.origin ^= 1 << g.below(32),
                2 => msg.body.push(0),
                _ => msg.sender[g.idx(32)] ^= 1,
            }
        }
        let r = rec.iter().position(|x| c.wire(x) == msg.recipient).unwrap();
        if pool.iter().all(|p| p.0 != msg) {
            pool.push((msg, r));
        }
    }
    let mut done: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut failed: BTreeSet<Vec<u8>> = BTreeSet::new();
    let (mut again, mut retried) = (0, 0);
    // anyone may deliver: strangers, the owner, the modules, the recipients, the mailbox
    let relayers: Vec<String> = (0..4).map(|_| gen_account(g, &c)).chain([&owner, &rec[0], &isms[0], &m].map(|v| v.clone())).collect();
    let ops = g.list(14, 40, |g| g.u64());
    for step in 0..ops.len() + pool.len() {
        let closing = step >= ops.len();
        if closing && step == ops.len() {
            // finally everything is made deliverable
            for i in 0..3 {
                rcfg[i] = Cfg { ism: None, ..Default::default() };
                c.set_mock(&rec[i], &rcfg[i]);
            }
            isms_ok[0] = true;
            c.set_mock(&isms[0], &Cfg::default());
            c.ok(&owner, &m, json!({"set_default_ism": {"ism": isms[0]}}));
            default = 0;
        }
        let op = if closing { 0 } else { g.weighted(&[10, 2, 2, 2, 2]) };
        match op {
            0 => {
                let i = if closing { step - ops.len() } else { g.idx(pool.len()) };
                let (msg, r) = pool[i].clone();
                let meta = if closing { vec![] } else { gen_body(g, 40) };
                let relayer = g.pick(&relayers).clone();
                let bytes = msg.encode();
                let was = done.contains(&bytes);
                let before = c.state();
                let res = c.x(&relayer, &m, process(&meta, &bytes), &[]);
                g.log(|| format!("process message {i} (delivered before: {was}, recipient {r}, {}B metadata) -> {}", meta.len(), short_err(&res)));
                match res {
                    Ok(tx) => {
                        for b in processed(&tx, &m) {
                            let id = refs::keccak(&[&b]);
                            check!(done.insert(b.clone()), "message {} was delivered twice", hx(&id));
                            if failed.remove(&b) {
                                retried += 1;
                            }
                            // exactly one call of the recipient per delivery
                            let want = RefMsg::decode(&b).ok_or("a short message was delivered")?;
                            let n = tx.calls_by(&m).iter().filter(|(_, v, _)| v.get("handle").is_some_and(|h| h["body"] == hx(&want.body) && h["origin"] == want.origin && h["sender"] == hx(&want.sender))).count();
                            let total = processed(&tx, &m).iter().filter(|o| RefMsg::decode(o).is_some_and(|o| o.body == want.body && o.origin == want.origin && o.sender == want.sender)).count();
                            check_eq!(n, total, "calls of the recipient for one delivery");
                        }
                        check!(done.contains(&bytes), "the processed message is missing from the trace");
                        for i in 0..3 {
                            let v = c.raw(&rec[i], b"cfg").unwrap();
                            rcfg[i] = serde_json::from_slice(&v).expect("harness: cfg");
                        }
                    }
                    Err(e) => {
                        c.unchanged(&before, "a refused process")?;
                        if was {
                            again += 1;
                        } else {
                            let ism_ok = match &rcfg[r].ism {
                                Some(i) => isms_ok[isms.iter().position(|x| x == i).unwrap()],
                                None => isms_ok[default],
                            };
                            let plain = !rcfg[r].fail && !rcfg[r].ism_fail && rcfg[r].reenter.iter().all(|a| a.swallow);
                            check!(!(ism_ok && plain), "an undelivered, approved message was refused: {e}");
                            failed.insert(bytes);
                        }
                    }
                }
                if was {
                    g.label("replay attempt");
                }
            }
            1 => {
                default = g.idx(4);
                g.log(|| format!("default module := {default}"));
                c.ok(&owner, &m, json!({"set_default_ism": {"ism": isms[default]}}));
            }
            2 => {
                let i = g.idx(3);
                rcfg[i].fail = !rcfg[i].fail;
                rcfg[i].ism = g.chance(1, 3).then(|| isms[g.idx(4)].clone());
                g.log(|| format!("recipient {i}: fail={} own module={:?}", rcfg[i].fail, rcfg[i].ism.as_ref().and_then(|a| isms.iter().position(|x| x == a))));
                c.set_mock(&rec[i], &rcfg[i]);
            }
            3 => {
                // a recipient that re-enters the mailbox while handling
                let i = g.idx(3);
                rcfg[i].fail = false;
                let k = g.range(1, 3);
                rcfg[i].reenter = (0..k)
                    .map(|_| {
                        let target = pool[g.idx(pool.len())].0.encode();
                        let meta = g.blob(10);
                        let swallow = g.chance(3, 4);
                        Action { contract: m.clone(), msg: process(&meta, &target).to_string().into_bytes().into(), funds: vec![], swallow }
                    })
                    .collect();
                g.log(|| format!("recipient {i} will process {k} message(s) while handling"));
                g.label("re-entrant recipient");
                c.set_mock(&rec[i], &rcfg[i]);
            }
            _ => {
                let i = g.idx(4);
                isms_ok[i] = g.bool();
                let verdict = if isms_ok[i] { Verdict::Yes } else { Verdict::No };
                g.log(|| format!("module {i} answers {verdict:?}"));
                c.set_mock(&isms[i], &Cfg { verdict, ..Default::default() });
            }
        }
        for (msg, _) in &pool {
            check_eq!(delivered(&c, &m, &msg.id())?, done.contains(&msg.encode()), "delivered query");
        }
        if closing {
            let b = pool[step - ops.len()].0.encode();
            check!(done.contains(&b), "a deliverable message was never delivered");
        }
    }
    if again > 0 || retried > 0 {
        g.nontrivial();
    }
    if retried > 0 {
        g.label("retry of a failed delivery");
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

fn c03(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let local = g.domain();
    let owner = c.acc("owner");
    let (m, ..) = full_mailbox(&c, &owner, local);
    // the last one always fails
    let tags = ["a", "b", "c", "-"];
    let isms: Vec<String> = tags.iter().map(|t| c.mock(&Cfg { verdict: if *t == "-" { Verdict::Error } else { Verdict::Keyed(t.to_string()) }, ..Default::default() })).collect();
    let gen_own = |g: &mut G| match g.weighted(&[5, 4, 1]) {
        0 => None,
        1 => Some(isms[g.idx(3)].clone()),
        _ => Some(isms[3].clone()),
    };
    let mut default = g.idx(3);
    c.ok(&owner, &m, json!({"set_default_ism": {"ism": isms[default]}}));
    // recipients: (address, own module, answers, refuses)
    let mut recs: Vec<(String, Cfg)> = vec![];
    for _ in 0..4 {
        odd_address(g, &c);
        let ism = gen_own(g);
        let cfg = Cfg { ism, ism_fail: g.chance(1, 8), fail: g.chance(1, 8), ..Default::default() };
        recs.push((c.mock(&cfg), cfg));
    }
    if g.chance(1, 3) {
        // a module can be a recipient, too
        let i = g.idx(3);
        recs[0].0 = isms[i].clone();
        recs[0].1.verdict = Verdict::Keyed(tags[i].to_string());
        c.set_mock(&recs[0].0, &recs[0].1);
        g.label("module as recipient");
    }
    let nobody = gen_account(g, &c);
    let plain = c.make(HOOK_FEE, &owner, json!({"owner": owner, "fee": {"denom": "x", "amount": "0"}}));
    let mut done: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut pool: Vec<RefMsg> = vec![];
    let (mut ok, mut no) = (0, 0);
    let relayer = gen_account(g, &c);
    c.mint(&relayer, "uatom", 100);
    let ops = g.list(14, 40, |g| g.u64());
    for _ in &ops {
        match g.weighted(&[12, 1, 2]) {
            0 => {
                let mut msg = if !pool.is_empty() && g.chance(1, 4) {
                    g.pick(&pool).clone()
                } else {
                    let r = g.idx(4);
                    let (sender, body) = (gen_wire(g).try_into().unwrap(), gen_body(g, 90));
                    RefMsg { version: 3, nonce: g.below(1 << 32) as u32, origin: g.domain(), sender, dest: local, recipient: c.wire(&recs[r].0), body }
                };
                // possibly spoil one thing
                match g.below(14) {
                    8 => msg.version = if g.bool() { *g.pick(&[0u8, 1, 2, 4, 255]) } else { 3 ^ 1 << g.below(8) },
                    9 => {
                        let bit = g.below(32);
                        msg.dest ^= 1 << bit
                    }
                    10 => msg.recipient = c.wire(&nobody),
                    11 => msg.recipient = c.wire(&plain),
                    12 => msg.recipient = g.bytes32(),
                    13 => msg.dest = msg.origin,
                    _ => {}
                }
                let mut bytes = msg.encode();
                if g.chance(1, 20) {
                    let keep = g.idx(77);
                    bytes.truncate(keep);
                    g.label("short message");
                } else {
                    pool.push(msg.clone());
                }
                let rec = recs.iter().position(|r| c.wire(&r.0) == msg.recipient);
                let module = rec.and_then(|r| if recs[r].1.ism_fail { None } else { Some(recs[r].1.ism.as_ref().map(|i| isms.iter().position(|x| x == i).unwrap()).unwrap_or(default)) });
                // metadata: the one the responsible module approves, or a wrong one
                let (mut good_meta, meta) = match g.below(10) {
                    9 => (Some(default) == module, key_for(tags[default], &bytes)),
                    6 => (false, g.blob(40)),
                    7 => {
                        // approved by another module
                        let t = g.idx(3);
                        (Some(t) == module, key_for(tags[t], &bytes))
                    }
                    8 => {
                        // approved for another message, or with a byte changed
                        let mut b = bytes.clone();
                        if !b.is_empty() {
                            let i = g.idx(b.len());
                            b[i] ^= 1;
                        } else {
                            b.push(1);
                        }
                        (false, key_for(tags[module.unwrap_or(0)], &b))
                    }
                    5 => {
                        let mut k = key_for(tags[module.unwrap_or(0)], &bytes);
                        if g.bool() {
                            k.push(0);
                        } else {
                            k.pop();
                        }
                        (false, k)
                    }
                    _ => (module.is_some(), key_for(tags[module.unwrap_or(0)], &bytes)),
                };
                good_meta &= bytes.len() >= 77 && module != Some(3);
                if module == Some(3) {
                    g.label("failing module");
                }
                let expect = good_meta && msg.version == 3 && msg.dest == local && !done.contains(&bytes) && rec.map(|r| !recs[r].1.fail).unwrap_or(false);
                let funds = if g.chance(1, 10) { coins(&[(1, "uatom")]) } else { vec![] };
                // anyone may deliver, with the same outcome
                let relayer = match g.below(8) {
                    0 => owner.clone(),
                    1 => recs[g.idx(4)].0.clone(),
                    2 => isms[default].clone(),
                    _ => relayer.clone(),
                };
                if !funds.is_empty() {
                    c.mint(&relayer, "uatom", 1);
                }
                let before = c.state();
                let res = c.x(&relayer, &m, process(&meta, &bytes), &funds);
                g.log(|| format!("process v{} to domain {} ({} local) recipient {rec:?} module {module:?} approved={good_meta} seen={} -> {}", msg.version, msg.dest, local, done.contains(&bytes), short_err(&res)));
                match res {
                    Ok(tx) => {
                        check!(expect, "a message that must not be delivered was delivered (version {}, destination ok {}, approved {good_meta}, delivered before {})", msg.version, msg.dest == local, done.contains(&bytes));
                        ok += 1;
                        let to = &recs[rec.unwrap()].0;
                        let calls = tx.calls_by(&m);
                        let want = vec![(to.clone(), json!({"handle": {"origin": msg.origin, "sender": hx(&msg.sender), "body": hx(&msg.body)}}), vec![])];
                        check_eq!(calls, want, "calls of the mailbox");
                        let e = tx.ev(&m, "mailbox_process_id");
                        check_eq!(e.iter().map(|e| e.attr("message_id").unwrap_or("")).collect::<Vec<_>>(), vec![hx(&msg.id())], "process id events");
                        let e: Vec<_> = tx.ev(&m, "mailbox_process").iter().map(|e| ["origin", "sender", "recipient"].map(|k| e.attr(k).unwrap_or("").to_string())).collect();
                        check_eq!(e, vec![[msg.origin.to_string(), hx(&msg.sender), hx(&msg.recipient)]], "process events");
                        check!(delivered(&c, &m, &msg.id())?, "a delivered message is not reported as delivered");
                        done.insert(bytes);
                    }
                    Err(e) => {
                        check!(!expect, "an approved message was not delivered: {e}");
                        no += 1;
                        c.unchanged(&before, "a refused process")?;
                        check_eq!(delivered(&c, &m, &refs::keccak(&[&bytes]))?, done.contains(&bytes), "delivered query");
                    }
                }
            }
            1 => {
                default = g.idx(3);
                g.log(|| format!("default module := {default}"));
                c.ok(&owner, &m, json!({"set_default_ism": {"ism": isms[default]}}));
            }
            _ => {
                let r = g.idx(4);
                let ism = gen_own(g);
                recs[r].1 = Cfg { ism, ism_fail: g.chance(1, 8), fail: g.chance(1, 6), verdict: recs[r].1.verdict.clone(), ..Default::default() };
                c.set_mock(&recs[r].0, &recs[r].1);
            }
        }
        let r = g.idx(4);
        let q = c.q(&m, json!({"mailbox": {"recipient_ism": {"recipient_addr": recs[r].0}}}));
        if recs[r].1.ism_fail {
            check!(q.is_err(), "a module is reported for a recipient that does not answer: {q:?}");
        } else {
            check_eq!(q?["ism"].as_str().unwrap_or("none").to_string(), recs[r].1.ism.clone().unwrap_or(isms[default].clone()), "recipient module query");
        }
    }
    // a recipient's own choice does not depend on the mailbox default
    if g.chance(1, 6) {
        let m2 = mailbox(&c, &owner, local);
        let to = c.mock(&Cfg { ism: Some(isms[0].clone()), ..Default::default() });
        let msg = RefMsg { version: 3, nonce: 1, origin: 4, sender: g.bytes32(), dest: local, recipient: c.wire(&to), body: vec![1] };
        let r = c.x(&relayer, &m2, process(&key_for("a", &msg.encode()), &msg.encode()), &[]);
        check!(r.is_ok(), "a message approved by its recipient's module was refused by a mailbox without default: {}", short_err(&r));
        let msg = RefMsg { nonce: 2, ..msg };
        let r = c.x(&relayer, &m2, process(&key_for("b", &msg.encode()), &msg.encode()), &[]);
        check!(r.is_err(), "delivered without approval");
        g.label("mailbox without default module");
    }
    if ok > 0 && no > 0 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

pub fn any_denom(g: &mut G) -> &'static str {
    if g.chance(1, 4) {
        g.pick::<&'static str>(&MORE)
    } else {
        g.pick::<&'static str>(&DENOMS)
    }
}

pub fn gen_hook_cfg(g: &mut G, salt: usize) -> Cfg {
    let mut quote = vec![];
    for d in DENOMS {
        if g.chance(1, 4) {
            let a = match g.below(6) {
                0 => 0,
                1 | 2 => g.below(20) as u128,
                3 => g.amount(1 << 100),
                _ => g.below(100_000) as u128,
            };
            quote.push(coin(a, d));
        }
    }
    if g.chance(1, 12) {
        for d in MORE {
            if g.chance(3, 4) {
                quote.push(coin(g.range(1, 90) as u128, d));
            }
        }
    }
    let mut keyed = vec![];
    for d in DENOMS {
        if g.chance(1, 3) {
            keyed.push(d.to_string());
        }
    }
    Cfg { quote, keyed, salt: format!("{salt}"), fail: g.chance(1, 12), enforce: g.bool(), ..Default::default() }
}

fn c04(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let origin = g.domain();
    let owner = c.acc("owner");
    let m = mailbox(&c, &owner, origin);
    c.ok(&owner, &m, json!({"set_default_ism": {"ism": c.mock(&Cfg::default())}}));
    let mut hooks: Vec<(String, Cfg)> = vec![];
    for i in 0..4 {
        let cfg = gen_hook_cfg(g, i);
        hooks.push((c.mock(&cfg), cfg));
    }
    let (mut required, mut default) = (0, 1);
    c.ok(&owner, &m, json!({"set_default_hook": {"hook": hooks[1].0}}));
    c.ok(&owner, &m, json!({"set_required_hook": {"hook": hooks[0].0}}));
    // whatever the mailbox happens to hold must not be spent
    for d in DENOMS {
        if g.bool() {
            c.mint(&m, d, if g.bool() { g.below(200_000) as u128 } else { 1 << 110 });
        }
    }
    let caller = c.mock(&Cfg::default());
    let users = [gen_account(g, &c), gen_account(g, &c), owner.clone(), caller.clone()];
    for d in DENOMS.iter().chain(&MORE) {
        for u in &users {
            c.mint(u, d, 1 << 110);
        }
    }
    let mut n = 0u32;
    let (mut charged, mut good) = (false, 0);
    let ops = g.list(6, 20, |g| g.u64());
    for _ in &ops {
        match g.weighted(&[8, 1, 1]) {
            0 => {
                let mut d = gen_disp(g);
                let user = g.pick(&users).clone();
                if g.bool() {
                    d.hook = Some(hooks[g.idx(4)].0.clone());
                }
                if user == caller && g.chance(1, 4) {
                    // a contract that is its own hook
                    let itself = c.x(&user, &m, Disp { hook: Some(user.clone()), ..d.clone() }.msg(), &[]);
                    g.log(|| format!("dispatch naming the sender as hook, without funds -> {}", short_err(&itself)));
                    let msg = d.expect(&c, &user, n, origin)?;
                    let meta = d.metadata.clone().unwrap_or_default();
                    let req = bag(&mock_quote(&hooks[required].1, &meta, &msg.encode()));
                    let expect = req.is_empty() && !hooks[required].1.fail;
                    check_eq!(itself.is_ok(), expect, "acceptance of a dispatch without funds whose required fee is {req:?}");
                    if let Ok(tx) = itself {
                        n += 1;
                        let body = post_dispatch(&meta, &msg.encode());
                        check_eq!(tx.calls_by(&m), vec![(hooks[required].0.clone(), body.clone(), vec![]), (user, body, vec![])], "hook calls of the mailbox");
                    }
                    continue;
                }
                let chosen = d.hook.as_ref().map(|h| hooks.iter().position(|x| x.0 == *h).unwrap()).unwrap_or(default);
                let msg = d.expect(&c, &user, n, origin)?;
                let meta = d.metadata.clone().unwrap_or_default();
                let req = bag(&mock_quote(&hooks[required].1, &meta, &msg.encode()));
                let cho = bag(&mock_quote(&hooks[chosen].1, &meta, &msg.encode()));
                let mut funds = req.clone();
                bag_add(&mut funds, &cho);
                match g.below(6) {
                    1 => funds = req.clone(),
                    2 => {
                        // one unit short in one denomination of the required fee
                        let k: Vec<String> = req.keys().cloned().collect();
                        if !k.is_empty() {
                            let d = g.pick(&k).clone();
                            funds = req.clone();
                            if g.bool() {
                                bag_add(&mut funds, &cho);
                                funds.insert(d, req[g.pick(&k)].saturating_sub(1));
                            } else {
                                *funds.get_mut(&d).unwrap() -= 1;
                            }
                            funds.retain(|_, v| *v > 0);
                        }
                    }
                    3 => {
                        for d in DENOMS {
                            if g.bool() {
                                bag_add(&mut funds, &bag(&[coin(g.below(50_000) as u128, d)]));
                            }
                        }
                    }
                    4 => {
                        funds = Bag::new();
                        for d in DENOMS {
                            if g.bool() {
                                bag_add(&mut funds, &bag(&[coin(g.below(3_000) as u128, d)]));
                            }
                        }
                    }
                    5 => {
                        // a denomination of the fee swapped for another
                        let k: Vec<String> = req.keys().cloned().collect();
                        if !k.is_empty() {
                            let a = funds.remove(g.pick(&k)).unwrap_or(0);
                            let to = g.pick::<&str>(&DENOMS).to_string();
                            *funds.entry(to).or_insert(0) += a;
                        }
                    }
                    _ => {}
                }
                funds.retain(|_, v| *v > 0);
                let rest = bag_sub(&funds, &req);
                let enough = |i: usize, paid: &Bag, q: &Bag| !hooks[i].1.fail && (!hooks[i].1.enforce || bag_sub(paid, q).is_some());
                let expect = rest.as_ref().is_some_and(|r| enough(required, &req, &req) && enough(chosen, r, &cho));
                let before = c.state();
                let (mb, ub) = (c.bag(&m), c.bag(&user));
                let r = c.x(&user, &m, d.msg(), &bag_coins(&funds));
                g.log(|| format!("dispatch with {funds:?}; required hook {required} quotes {req:?}, chosen {chosen} quotes {cho:?} -> {}", short_err(&r)));
                match r {
                    Ok(tx) => {
                        check!(rest.is_some(), "funds {funds:?} do not cover the required fee {req:?} but the dispatch succeeded");
                        check!(expect, "a dispatch a hook has to refuse succeeded");
                        let rest = rest.unwrap();
                        n += 1;
                        good += 1;
                        charged |= !req.is_empty();
                        let body = post_dispatch(&meta, &msg.encode());
                        let want = vec![(hooks[required].0.clone(), body.clone(), bag_coins(&req)), (hooks[chosen].0.clone(), body, bag_coins(&rest))];
                        check_eq!(tx.calls_by(&m), want, "hook calls of the mailbox");
                        check_eq!(c.bag(&m), mb, "mailbox balance");
                        check_eq!(c.bag(&user), bag_sub(&ub, &funds).unwrap(), "caller balance");
                    }
                    Err(e) => {
                        check!(!expect, "a dispatch whose funds {funds:?} cover the required fee {req:?} was refused: {e}");
                        c.unchanged(&before, "a refused dispatch")?;
                        g.label("refused");
                    }
                }
                if required == chosen {
                    g.label("same hook twice");
                }
            }
            1 => {
                let i = g.idx(4);
                hooks[i].1 = gen_hook_cfg(g, i);
                c.set_mock(&hooks[i].0, &hooks[i].1);
            }
            _ => {
                let i = g.idx(4);
                if g.bool() {
                    required = i;
                    c.ok(&owner, &m, json!({"set_required_hook": {"hook": hooks[i].0}}));
                } else {
                    default = i;
                    c.ok(&owner, &m, json!({"set_default_hook": {"hook": hooks[i].0}}));
                }
            }
        }
    }
    if charged && good > 0 {
        g.nontrivial();
    }
    Ok(())
}
