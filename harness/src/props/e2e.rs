//! C31: messages dispatched on one chain and attested by its validators are deliverable on another.
use super::isms::gen_domains;
use super::{Prop, SIM};
use crate::chain::Chain;
use crate::codes::*;
use crate::engine::{Sub, G};
use crate::refs::{self, checkpoint_digest, Key, RefMsg};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C34",
        assumptions: vec![SIM, "relayers know the mailboxes, the merkle hook and the announcement contract by address, and the attestations they find at the announced locations"],
        subs: vec![Sub { name: "served-by-reports", cases: (5_000, 80_000), rule: "a message was delivered through a composed module on the reports alone, and one could not be served", run: c34 }],
    }, Prop {
        id: "C31",
        assumptions: vec![SIM, "validators sign the checkpoint a merkle hook reports right after it inserted a message"],
        subs: vec![Sub { name: "attested-delivery", cases: (5_000, 40_000), rule: "two messages were delivered through a composed module and one delivery was refused", run: c31 }],
    }]
}

#[derive(Clone, Debug)]
enum Mk {
    /// per origin domain: threshold and enrolled keys
    Multisig(BTreeMap<u32, (u64, Vec<usize>)>),
    Aggregate(u64, Vec<usize>),
    Routing(BTreeMap<u32, usize>),
    Pausable(bool),
}

#[derive(Clone, Debug)]
struct Module {
    addr: String,
    kind: Mk,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Verd {
    Yes,
    /// answers false
    No,
    /// does not approve, possibly by failing
    Fails,
    /// enough approvals, but some module may fail
    Open,
}

struct Sent {
    from: usize,
    to: usize,
    rec: usize,
    msg: RefMsg,
    tree: [u8; 32],
    root: Vec<u8>,
    index: u32,
}

impl Sent {
    fn digest(&self) -> [u8; 32] {
        checkpoint_digest(self.msg.origin, &self.tree, &self.root, self.index, &self.msg.id())
    }
}

struct Node {
    c: Chain,
    domain: u32,
    m: String,
    merkle: String,
    leaves: Vec<[u8; 32]>,
    modules: Vec<Module>,
    default: usize,
    /// recipient and the module it names
    recs: Vec<(String, Option<usize>)>,
    extra_hook: String,
    merkle_required: bool,
    users: Vec<String>,
    delivered: BTreeSet<[u8; 32]>,
}

fn validators(g: &mut G) -> (u64, Vec<usize>) {
    let n = g.range(1, 5) as usize;
    let v = g.subset(6, n);
    (g.range(1, n as u64), v)
}

fn enrol(c: &Chain, addr: &str, keys: &[Key], d: u32, e: &(u64, Vec<usize>)) {
    let v: Vec<String> = e.1.iter().map(|i| hx(&keys[*i].addr)).collect();
    c.ok(&c.acc("owner"), addr, json!({"set_validators": {"domain": d, "threshold": e.0, "validators": v}}));
}

/// A hook in front of `inner`, which is called once by it.
fn wrap_hook(g: &mut G, c: &Chain, inner: String, dests: &[u32], leaves: &[String]) -> String {
    let owner = c.acc("owner");
    match g.below(4) {
        0 => {
            let mut v: Vec<String> = g.list(1, 3, |g| g.pick(leaves).clone());
            let at = g.idx(v.len() + 1);
            v.insert(at, inner);
            c.make(HOOK_AGGREGATE, &owner, json!({"owner": owner, "hooks": v}))
        }
        k => {
            let code = [HOOK_ROUTING, HOOK_CUSTOM, HOOK_FALLBACK][k as usize - 1];
            let a = c.make(code, &owner, json!({"owner": owner}));
            for d in dests {
                if k != 3 || g.bool() {
                    c.ok(&owner, &a, set_route(*d, Some(&inner)));
                }
            }
            if k == 3 {
                c.ok(&owner, &a, json!({"set_fallback_hook": {"hook": inner}}));
            }
            a
        }
    }
}

fn gen_hook_leaf(g: &mut G, c: &Chain, dests: &[u32]) -> String {
    let owner = c.acc("owner");
    match g.below(3) {
        0 => c.make(HOOK_FEE, &owner, json!({"owner": owner, "fee": {"denom": "uatom", "amount": g.below(50).to_string()}})),
        1 => {
            let a = c.make(IGP, &owner, json!({"hrp": c.hrp(), "owner": owner, "gas_token": "ugas", "beneficiary": owner, "default_gas_usage": g.below(100_000).to_string()}));
            for d in dests {
                let o = c.make(ORACLE, &owner, json!({"owner": owner}));
                c.ok(&owner, &o, json!({"set_remote_gas_data": {"config": {"remote_domain": d, "token_exchange_rate": (1 + g.below(1 << 34)).to_string(), "gas_price": g.below(100).to_string()}}}));
                c.ok(&owner, &a, set_route(*d, Some(&o)));
            }
            a
        }
        _ => c.make(HOOK_PAUSABLE, &owner, json!({"owner": owner, "paused": false})),
    }
}

/// Metadata for module `i` and what the module has to say to it.
#[allow(clippy::too_many_arguments)]
fn attest(g: &mut G, n: &Node, keys: &[Key], i: usize, msg: &RefMsg, signed: &Sent, quality: u64) -> (Vec<u8>, Verd) {
    match &n.modules[i].kind {
        Mk::Pausable(p) => (g.blob(8), if *p { Verd::Fails } else { Verd::Yes }),
        Mk::Multisig(e) => {
            let mut meta = [&signed.tree[..], &signed.root, &signed.index.to_be_bytes()].concat();
            let Some((t, v)) = e.get(&msg.origin) else { return (meta, Verd::Fails) };
            let digest = signed.digest();
            // quality 0: always enough signatures
            let good = quality == 0 || g.chance(2, 3);
            let count = if good { g.range(*t, v.len() as u64) } else { g.below(*t) } as usize;
            let mut order = v.clone();
            for i in 0..order.len() {
                let j = i + g.idx(order.len() - i);
                order.swap(i, j);
            }
            let mut sigs: Vec<Vec<u8>> = order[..count].iter().map(|k| refs::sign(&keys[*k], &digest)).collect();
            // others, repeated ones and outsiders add nothing
            let more = if g.chance(1, 3) { g.range(1, 2) } else { 0 };
            for _ in 0..more {
                let s = match g.below(2) {
                    0 if !sigs.is_empty() => g.pick(&sigs).clone(),
                    _ => refs::sign(&keys[6], &digest),
                };
                let at = g.idx(sigs.len() + 1);
                sigs.insert(at, s);
            }
            sigs.iter().for_each(|s| meta.extend(s));
            (meta, if good && signed.msg == *msg { Verd::Yes } else { Verd::No })
        }
        Mk::Routing(r) => match r.get(&msg.origin) {
            Some(t) => attest(g, n, keys, *t, msg, signed, quality),
            None => (g.blob(8), Verd::Fails),
        },
        Mk::Aggregate(t, v) => {
            let mut parts: Vec<(Vec<u8>, Verd)> = v.iter().map(|i| attest(g, n, keys, *i, msg, signed, quality)).collect();
            // a relayer may leave out modules it does not need
            let mut spare = (parts.iter().filter(|p| p.1 == Verd::Yes).count() as u64).saturating_sub(*t);
            let thrifty = g.bool();
            let mut left_out = vec![];
            for p in &mut parts {
                let out = thrifty && if p.1 == Verd::Yes { spare > 0 && g.bool() } else { g.chance(3, 4) };
                if out && p.1 == Verd::Yes {
                    spare -= 1;
                }
                if out {
                    *p = (vec![], Verd::No);
                }
                left_out.push(out);
            }
            let base = 8 * v.len();
            let (mut table, mut rest): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
            for ((p, _), out) in parts.iter().zip(left_out) {
                if out {
                    table.extend([0; 8]);
                    continue;
                }
                table.extend(((base + rest.len()) as u32).to_be_bytes());
                rest.extend(p);
                table.extend(((base + rest.len()) as u32).to_be_bytes());
            }
            table.extend(rest);
            let yes = parts.iter().filter(|p| p.1 == Verd::Yes).count() as u64;
            let maybe = parts.iter().filter(|p| p.1 == Verd::Open).count() as u64;
            let fails = parts.iter().any(|p| p.1 == Verd::Fails) || maybe > 0;
            let v = if yes + maybe < *t {
                if fails {
                    Verd::Fails
                } else {
                    Verd::No
                }
            } else if fails {
                Verd::Open
            } else {
                Verd::Yes
            };
            (table, v)
        }
    }
}

fn new_node(g: &mut G, keys: &[Key], domains: &[u32], me: usize) -> Node {
    let c = gen_chain(g);
    c.strict_events();
    let owner = c.acc("owner");
    let m = {
        odd_address(g, &c);
        mailbox(&c, &owner, domains[me])
    };
    // hooks: the merkle hook is reached exactly once by every dispatch
    odd_address(g, &c);
    let merkle = c.make(HOOK_MERKLE, &owner, json!({"mailbox": m}));
    let leaves: Vec<String> = (0..3).map(|_| gen_hook_leaf(g, &c, domains)).collect();
    let mut with = merkle.clone();
    for _ in 0..g.below(4) {
        with = wrap_hook(g, &c, with, domains, &leaves);
    }
    let mut without = leaves[0].clone();
    for _ in 0..g.below(3) {
        without = wrap_hook(g, &c, without, domains, &leaves);
    }
    let merkle_required = g.chance(2, 3);
    let (req, def) = if merkle_required { (with, without) } else { (without, with) };
    c.ok(&owner, &m, json!({"set_required_hook": {"hook": req}}));
    c.ok(&owner, &m, json!({"set_default_hook": {"hook": def}}));
    // verification modules
    let mut modules: Vec<Module> = vec![];
    let n = g.range(1, 7) as usize;
    for i in 0..n {
        let which = if i < 2 || g.chance(1, 4) { g.weighted(&[5, 1]) } else { 2 + g.idx(2) };
        odd_address(g, &c);
        let md = match which {
            0 => {
                let addr = c.make(ISM_MULTISIG, &owner, json!({"owner": owner}));
                let mut e = BTreeMap::new();
                // the own domain only as a decoy
                for d in domains {
                    if if *d == domains[me] { g.bool() } else { g.chance(9, 10) } {
                        let v = validators(g);
                        enrol(&c, &addr, keys, *d, &v);
                        e.insert(*d, v);
                    }
                }
                Module { addr, kind: Mk::Multisig(e) }
            }
            1 => Module { addr: c.make(ISM_PAUSABLE, &owner, json!({"owner": owner, "paused": false})), kind: Mk::Pausable(false) },
            2 => {
                let k = g.range(1, (i as u64).min(4)) as usize;
                let v = g.subset(i, k);
                let t = g.range(1, k as u64);
                let addr = c.make(ISM_AGGREGATE, &owner, json!({"owner": owner, "threshold": t, "isms": v.iter().map(|i| modules[*i].addr.clone()).collect::<Vec<_>>()}));
                Module { addr, kind: Mk::Aggregate(t, v) }
            }
            _ => {
                let mut r = BTreeMap::new();
                for d in domains {
                    if if *d == domains[me] { g.bool() } else { g.chance(5, 6) } {
                        r.insert(*d, g.idx(i));
                    }
                }
                let list: Vec<V> = r.iter().map(|(d, i)| json!({"domain": d, "address": modules[*i].addr})).collect();
                Module { addr: c.make(ISM_ROUTING, &owner, json!({"owner": owner, "isms": list})), kind: Mk::Routing(r) }
            }
        };
        g.log(|| format!("chain {me} module {i}: {:?}", md.kind));
        modules.push(md);
    }
    let default = n - 1 - g.idx(n.min(2));
    c.ok(&owner, &m, json!({"set_default_ism": {"ism": modules[default].addr}}));
    let recs = (0..3)
        .map(|_| {
            let own = if g.chance(1, 3) { Some(g.idx(n)) } else { None };
            odd_address(g, &c);
            (c.mock(&Cfg { ism: own.map(|i| modules[i].addr.clone()), ..Default::default() }), own)
        })
        .collect();
    let users = gen_accounts(g, &c, 2);
    for u in &users {
        for d in ["uatom", "ugas"] {
            c.mint(u, d, 1 << 60);
        }
    }
    let extra_hook = leaves[1].clone();
    Node { c, domain: domains[me], m, merkle, leaves: vec![], modules, default, recs, extra_hook, merkle_required, users, delivered: BTreeSet::new() }
}

fn deliver(g: &mut G, n: &mut Node, keys: &[Key], sent: &Sent, msg: &RefMsg, signed: &Sent, quality: u64, what: &str) -> Result<Verd, String> {
    let known = n.recs.iter().position(|r| n.c.wire(&r.0) == msg.recipient);
    let module = known.and_then(|r| n.recs[r].1).unwrap_or(n.default);
    let (meta, verdict) = attest(g, n, keys, module, msg, signed, quality);
    let fit = msg.version == 3 && msg.dest == n.domain && known.is_some() && !n.delivered.contains(&msg.id());
    let before = n.c.state();
    let r = n.c.x(&n.c.acc("relayer"), &n.m, process(&meta, &msg.encode()), &[]);
    g.log(|| format!("{what}: message {} of chain {} to domain {} through module {module}, verdict {verdict:?}, otherwise fit {fit} -> {}", sent.msg.nonce, sent.from, n.domain, short_err(&r)));
    match r {
        Ok(tx) => {
            check!(fit, "{what}: a message that must not be delivered was delivered");
            check!(verdict == Verd::Yes || verdict == Verd::Open, "{what}: a message the modules do not approve was delivered");
            let want = vec![(n.recs[known.unwrap()].0.clone(), json!({"handle": {"origin": msg.origin, "sender": hx(&msg.sender), "body": hx(&msg.body)}}), vec![])];
            check_eq!(tx.calls_by(&n.m), want, "call of the recipient");
            n.delivered.insert(msg.id());
        }
        Err(e) => {
            check!(!fit || verdict != Verd::Yes, "{what}: an attested message was refused: {e}");
            n.c.unchanged(&before, "a refused delivery")?;
        }
    }
    check_eq!(delivered(&n.c, &n.m, &msg.id())?, n.delivered.contains(&msg.id()), "delivered query");
    Ok(if !fit { Verd::No } else { verdict })
}

fn keys() -> &'static [Key] {
    static KEYS: std::sync::OnceLock<Vec<Key>> = std::sync::OnceLock::new();
    KEYS.get_or_init(|| (100..107u8).map(|i| refs::key(&[i])).collect())
}

/// What a relayer finds at the announced locations: attestations by location.
type Found = BTreeMap<String, Vec<u8>>;

struct Relay<'a> {
    /// the chain of the recipient
    c: &'a Chain,
    /// the chain of the sender and its announcement contract
    from: &'a Chain,
    va: &'a str,
    found: &'a Found,
    sent: &'a Sent,
    raw: Vec<u8>,
    /// attestations still to be left out, counted from the first one used
    skip: Option<usize>,
}

impl Relay<'_> {
    /// Metadata for the module at `a`, by its reports alone; none if what is available does not suffice.
    fn build(&mut self, a: &str, depth: usize) -> Result<Option<Vec<u8>>, String> {
        check!(depth < 12, "the reported modules do not end");
        let ty = self.c.q(a, json!({"ism": {"module_type": {}}})).map_err(|e| format!("no type of module {a}: {e}"))?;
        match ty["type"].as_str().unwrap_or("?") {
            "message_id_multisig" => {
                let Ok((t, vals)) = verify_info(self.c, a, &self.raw) else { return Ok(None) };
                check!(t > 0, "module {a} reports the threshold 0");
                let ask: Vec<String> = vals.iter().map(|v| hx(v)).collect();
                let got = self.from.q(self.va, json!({"get_announce_storage_locations": {"validators": ask}})).map_err(|e| format!("no announced locations: {e}"))?;
                let rows = got["storage_locations"].as_array().cloned().unwrap_or_default();
                check_eq!(rows.len(), vals.len(), "number of reported validators with locations");
                let mut sigs: Vec<Vec<u8>> = vec![];
                for (v, row) in ask.iter().zip(&rows) {
                    check_eq!(row[0], json!(v), "validator of the reported locations");
                    // the attestation can be at any of the locations, most likely at the last one
                    let at = row[1].as_array().cloned().unwrap_or_default();
                    if let Some(s) = at.iter().rev().filter_map(|l| l.as_str()).find_map(|l| self.found.get(l)) {
                        if (sigs.len() as u64) < t {
                            sigs.push(s.clone());
                        }
                    }
                }
                if (sigs.len() as u64) < t {
                    return Ok(None);
                }
                let mut meta = [&self.sent.tree[..], &self.sent.root, &self.sent.index.to_be_bytes()].concat();
                for s in sigs {
                    match &mut self.skip {
                        Some(0) => self.skip = None,
                        Some(k) => {
                            *k -= 1;
                            meta.extend(s)
                        }
                        None => meta.extend(s),
                    }
                }
                Ok(Some(meta))
            }
            "routing" => match self.c.q(a, json!({"routing_ism": {"route": {"message": hx(&self.raw)}}})) {
                Ok(r) => {
                    let to = r["ism"].as_str().unwrap_or("?").to_string();
                    self.build(&to, depth + 1)
                }
                Err(_) => Ok(None),
            },
            "aggregation" => {
                let r = self.c.q(a, json!({"aggregate_ism": {"isms": {}}})).map_err(|e| format!("no modules of {a}: {e}"))?;
                let (t, list) = (r["threshold"].as_u64().unwrap_or(0), r["isms"].as_array().cloned().unwrap_or_default());
                let list: Vec<String> = list.iter().map(|v| v.as_str().unwrap_or("?").to_string()).collect();
                let info = verify_info(self.c, a, &self.raw).map_err(|e| format!("no report of module {a}: {e}"))?;
                check_eq!(info.0, t, "reported thresholds of module {a}");
                let wire: Vec<[u8; 32]> = info.1.iter().map(|v| refs::pad32(v)).collect();
                check_eq!(wire, list.iter().map(|l| self.c.wire(l)).collect::<Vec<_>>(), "reported modules of {a}");
                let base = 8 * list.len();
                let (mut table, mut rest): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
                let mut got = 0;
                for l in &list {
                    let keep = self.skip;
                    let meta = if got < t { self.build(l, depth + 1)? } else { None };
                    let Some(meta) = meta else {
                        self.skip = keep;
                        table.extend([0; 8]);
                        continue;
                    };
                    got += 1;
                    table.extend(((base + rest.len()) as u32).to_be_bytes());
                    rest.extend(meta);
                    table.extend(((base + rest.len()) as u32).to_be_bytes());
                }
                table.extend(rest);
                Ok(if got < t { None } else { Some(table) })
            }
            "null" => {
                // approves without metadata unless it is paused
                let p = self.c.q(a, json!({"pausable": {"pause_info": {}}})).map_err(|e| format!("no pause state of {a}: {e}"))?;
                Ok(if p["paused"] == json!(false) { Some(vec![]) } else { None })
            }
            t => Err(format!("module {a} is of the unknown type {t}")),
        }
    }
}

/// Whether module `i` would approve with the attestations of `have`.
fn can(n: &Node, i: usize, origin: u32, have: &BTreeSet<usize>) -> bool {
    match &n.modules[i].kind {
        Mk::Pausable(p) => !p,
        Mk::Multisig(e) => e.get(&origin).is_some_and(|(t, v)| v.iter().filter(|k| have.contains(k)).count() as u64 >= *t),
        Mk::Routing(r) => r.get(&origin).is_some_and(|t| can(n, *t, origin, have)),
        Mk::Aggregate(t, v) => v.iter().filter(|k| can(n, **k, origin, have)).count() as u64 >= *t,
    }
}

fn c34(g: &mut G) -> Result<(), String> {
    let keys = keys();
    let domains = gen_domains(g, 2);
    let mut nodes: Vec<Node> = (0..2).map(|i| new_node(g, keys, &domains, i)).collect();
    // who announced what on which chain, in order
    let mut vas = vec![];
    for n in &nodes {
        vas.push(n.c.make(VA, &n.c.acc("owner"), json!({"hrp": n.c.hrp(), "mailbox": n.m})));
    }
    let mut at: Vec<BTreeMap<usize, Vec<String>>> = vec![BTreeMap::new(), BTreeMap::new()];
    let mut sent: Vec<(Sent, BTreeSet<usize>)> = vec![];
    let (mut served, mut short, mut unserved) = (0, 0, 0);
    let ops = g.list(10, 24, |g| g.weighted(&[4, 5, 7, 2]));
    for op in ops {
        match op {
            0 => {
                // validators announce where their attestations are
                let i = g.idx(2);
                let many = g.range(1, 12);
                for _ in 0..many {
                    let k = g.idx(6);
                    let l = format!("s3://v{k}/{}", g.below(1000));
                    let n = &nodes[i];
                    let sig = refs::sign(&keys[k], &refs::announcement_digest(n.domain, &n.c.wire(&n.m), &l));
                    let msg = json!({"announce": {"validator": hx(&keys[k].addr), "signature": hx(&sig), "storage_location": l}});
                    if n.c.x(&n.c.acc("relayer"), &vas[i], msg, &[]).is_ok() {
                        at[i].entry(k).or_default().push(l);
                    }
                }
            }
            1 => {
                let i = g.idx(2);
                let rec = g.idx(3);
                let d = Disp { dest: domains[1 - i], recipient: nodes[1 - i].c.wire(&nodes[1 - i].recs[rec].0).to_vec(), body: gen_body(g, 60), hook: None, metadata: None };
                let n = &mut nodes[i];
                let user = g.pick(&n.users).clone();
                let fees = parse_coins(&n.c.q(&n.m, d.quote(&user)).map_err(|e| format!("no quote: {e}"))?["fees"])?;
                let next = nonce(&n.c, &n.m) as u32;
                n.c.x(&user, &n.m, d.msg(), &fees).map_err(|e| format!("a dispatch paying the quoted {fees:?} was refused: {e}"))?;
                let msg = d.expect(&n.c, &user, next, domains[i])?;
                n.leaves.push(msg.id());
                let cp = n.c.q(&n.merkle, json!({"merkle_hook": {"check_point": {}}}))?;
                let s = Sent { from: i, to: 1 - i, rec, msg, tree: n.c.wire(&n.merkle), root: unhex(&cp["root"]), index: cp["count"].as_u64().unwrap_or(0) as u32 };
                let who = g.range(0, 6) as usize;
                let who: BTreeSet<usize> = if g.bool() { (0..6).collect() } else { g.subset(6, who).into_iter().collect() };
                g.log(|| format!("message {next} of chain {i} to recipient {rec}, attested by {who:?}"));
                sent.push((s, who));
            }
            2 if !sent.is_empty() => {
                let (s, who) = g.pick(&sent);
                let (from, to) = (&nodes[s.from], &nodes[s.to]);
                if to.delivered.contains(&s.msg.id()) {
                    continue;
                }
                let mut found = Found::new();
                for (k, l) in at[s.from].iter().filter(|(k, _)| who.contains(k)) {
                    let l = if g.chance(1, 3) { g.pick(l) } else { &l[l.len() - 1] };
                    found.insert(l.clone(), refs::sign(&keys[*k], &s.digest()));
                }
                let have: BTreeSet<usize> = at[s.from].keys().copied().filter(|k| who.contains(k)).collect();
                let module = to.recs[s.rec].1.unwrap_or(to.default);
                let enough = can(to, module, s.msg.origin, &have);
                let rep = to.c.q(&to.m, json!({"mailbox": {"recipient_ism": {"recipient_addr": to.recs[s.rec].0}}})).map_err(|e| format!("no report of the recipient's module: {e}"))?;
                let root = rep["ism"].as_str().unwrap_or("?").to_string();
                let mut r = Relay { c: &to.c, from: &from.c, va: &vas[s.from], found: &found, sent: s, raw: s.msg.encode(), skip: None };
                let meta = r.build(&root, 0)?;
                // the same with one attestation left out
                r.skip = Some(g.below(3) as usize);
                let less = r.build(&root, 0)?.filter(|_| r.skip.is_none());
                check_eq!(meta.is_some(), enough, "whether the reports show how message {} is to be served (attestations of {have:?})", s.msg.nonce);
                g.log(|| format!("message {} of chain {}: attestations of {have:?} through module {module}: {enough}", s.msg.nonce, s.from));
                let id = s.msg.id();
                if let Some(less) = less {
                    let before = to.c.state();
                    let r = to.c.x(&to.c.acc("relayer"), &to.m, process(&less, &s.msg.encode()), &[]);
                    check!(r.is_err(), "a message was delivered with one attestation less than reported as needed");
                    to.c.unchanged(&before, "a refused delivery")?;
                    short += 1;
                }
                match meta {
                    Some(meta) => {
                        let tx = to.c.x(&to.c.acc("relayer"), &to.m, process(&meta, &s.msg.encode()), &[]).map_err(|e| format!("metadata built from what the modules report was refused: {e}"))?;
                        let want = vec![(to.recs[s.rec].0.clone(), json!({"handle": {"origin": s.msg.origin, "sender": hx(&s.msg.sender), "body": hx(&s.msg.body)}}), vec![])];
                        check_eq!(tx.calls_by(&to.m), want, "call of the recipient");
                        check!(delivered(&to.c, &to.m, &id)?, "a served message is not reported as delivered");
                        if matches!(to.modules[module].kind, Mk::Aggregate(..) | Mk::Routing(..)) {
                            served += 1;
                        }
                        let to = s.to;
                        nodes[to].delivered.insert(id);
                    }
                    None => unserved += 1,
                }
            }
            3 => {
                let i = g.idx(2);
                reconfigure(g, &mut nodes[i], keys, &domains, i);
            }
            _ => {}
        }
    }
    if served > 0 && unserved > 0 {
        g.nontrivial();
    }
    if short > 0 {
        g.label("one attestation less was refused");
    }
    Ok(())
}

/// The owner of a chain changes one of its modules.
fn reconfigure(g: &mut G, n: &mut Node, keys: &[Key], domains: &[u32], i: usize) {
    let owner = n.c.acc("owner");
    let k = g.idx(n.modules.len());
    let origins: Vec<u32> = domains.iter().copied().filter(|d| *d != n.domain).collect();
    let d = *g.pick(&origins);
    let addrs: Vec<String> = n.modules.iter().map(|m| m.addr.clone()).collect();
    let md = &mut n.modules[k];
    match &mut md.kind {
        Mk::Multisig(e) => {
            let v = validators(g);
            enrol(&n.c, &md.addr, keys, d, &v);
            e.insert(d, v);
        }
        Mk::Pausable(p) => {
            n.c.ok(&owner, &md.addr, json!({"pausable": {if *p { "release" } else { "pause" }: {}}}));
            *p = !*p;
        }
        Mk::Aggregate(t, v) => {
            let c = g.range(1, (k as u64).min(4)) as usize;
            *v = g.subset(k, c);
            *t = g.range(1, c as u64);
            n.c.ok(&owner, &md.addr, json!({"set_isms": {"threshold": *t, "isms": v.iter().map(|i| addrs[*i].clone()).collect::<Vec<_>>()}}));
        }
        Mk::Routing(r) => {
            let to = g.idx(k);
            n.c.ok(&owner, &md.addr, json!({"set": {"ism": {"domain": d, "address": addrs[to]}}}));
            r.insert(d, to);
        }
    }
    g.log(|| format!("chain {i} module {k} is now {:?}", md.kind));
}

fn c31(g: &mut G) -> Result<(), String> {
    let keys = keys();
    let count = 2 + g.below(2) as usize;
    let domains = gen_domains(g, count);
    let mut nodes: Vec<Node> = (0..count).map(|i| new_node(g, keys, &domains, i)).collect();
    let mut sent: Vec<Sent> = vec![];
    let mut refused = 0;
    let ops = g.list(12, 30, |g| g.weighted(&[6, 6, 2, 1, 1]));
    for op in ops {
        match op {
            0 => {
                let i = g.idx(count);
                let j = (i + 1 + g.idx(count - 1)) % count;
                let rec = g.idx(3);
                let (body, metadata) = (gen_body(g, 80), if g.chance(1, 3) { Some(g.blob(24)) } else { None });
                let recipient = nodes[j].c.wire(&nodes[j].recs[rec].0).to_vec();
                let n = &mut nodes[i];
                // another hook may only be chosen when the tree does not depend on it
                let hook = if n.merkle_required && g.chance(1, 4) { Some(n.extra_hook.clone()) } else { None };
                let d = Disp { dest: domains[j], recipient, body, hook, metadata };
                let user = g.pick(&n.users).clone();
                let fees = parse_coins(&n.c.q(&n.m, d.quote(&user)).map_err(|e| format!("no quote: {e}"))?["fees"])?;
                let next = nonce(&n.c, &n.m) as u32;
                let tx = n.c.x(&user, &n.m, d.msg(), &fees).map_err(|e| format!("a dispatch paying the quoted {fees:?} was refused: {e}"))?;
                let msg = d.expect(&n.c, &user, next, domains[i])?;
                // what relayers and validators see
                let seen: Vec<&str> = tx.ev(&n.m, "mailbox_dispatch").iter().map(|e| e.attr("message").unwrap_or("")).collect();
                check_eq!(seen, vec![hx(&msg.encode())], "announced message");
                n.leaves.push(msg.id());
                let ins: Vec<_> = tx.ev(&n.merkle, "hpl_hook_merkle::post_dispatch").iter().map(|e| (e.attr("message_id").unwrap_or("").to_string(), e.attr("index").unwrap_or("").to_string())).collect();
                check_eq!(ins, vec![(hx(&msg.id()), (n.leaves.len() - 1).to_string())], "announced insertion");
                let cp = n.c.q(&n.merkle, json!({"merkle_hook": {"check_point": {}}}))?;
                check_eq!(cp["root"], json!(hx(&refs::tree_root(&n.leaves))), "root of the checkpoint");
                check_eq!(cp["count"], json!(n.leaves.len() - 1), "index of the checkpoint");
                g.log(|| format!("dispatch {next} from {i} to {j} recipient {rec} for {fees:?}"));
                sent.push(Sent { from: i, to: j, rec, msg, tree: n.c.wire(&n.merkle), root: unhex(&cp["root"]), index: cp["count"].as_u64().unwrap_or(0) as u32 });
            }
            1 if !sent.is_empty() => {
                let s = g.pick(&sent);
                let q = g.below(2);
                let again = nodes[s.to].delivered.contains(&s.msg.id());
                let v = deliver(g, &mut nodes[s.to], keys, s, &s.msg, s, q, "delivery")?;
                if again || v != Verd::Yes {
                    refused += 1;
                }
            }
            2 if !sent.is_empty() => {
                // something nobody attested
                let s = g.pick(&sent);
                let mut msg = s.msg.clone();
                let (mut to, mut signed) = (s.to, s);
                match g.below(7) {
                    0 => msg.nonce ^= 1 << g.below(32),
                    1 => msg.origin = *g.pick(&domains),
                    2 => msg.sender[g.idx(32)] ^= 1 << g.below(8),
                    3 => {
                        let r = g.idx(3);
                        msg.recipient = nodes[s.to].c.wire(&nodes[s.to].recs[r].0)
                    }
                    4 => msg.body.push(g.byte()),
                    5 => to = g.idx(count),
                    _ => signed = g.pick(&sent),
                }
                if deliver(g, &mut nodes[to], keys, s, &msg, signed, 0, "forgery")? != Verd::Yes {
                    refused += 1;
                }
            }
            3 | 4 => {
                let i = g.idx(count);
                reconfigure(g, &mut nodes[i], keys, &domains, i);
            }
            _ => {}
        }
    }
    // in the end everything whose modules are in order gets through, in any order
    let mut order: Vec<usize> = (0..sent.len()).collect();
    for i in 0..order.len() {
        let j = i + g.idx(order.len() - i);
        order.swap(i, j);
    }
    let mut through = 0;
    for k in order {
        let s = &sent[k];
        let n = &mut nodes[s.to];
        if !n.delivered.contains(&s.msg.id()) {
            deliver(g, n, keys, s, &s.msg, s, 0, "final delivery")?;
        }
        let module = n.recs[s.rec].1.unwrap_or(n.default);
        if n.delivered.contains(&s.msg.id()) && matches!(n.modules[module].kind, Mk::Aggregate(..) | Mk::Routing(..)) {
            through += 1;
        }
    }
    if through >= 2 && refused > 0 {
        g.nontrivial();
    }
    if through > 0 {
        g.label("delivered through a composed module");
    }
    Ok(())
}
