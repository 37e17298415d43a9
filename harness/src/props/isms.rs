//! C10 multisig verification, C11 enrolment, C12 aggregate module, C13 routing module, C14 pausing.
use super::mailbox::DENOMS;
use super::{Prop, SIM};
use crate::chain::Chain;
use crate::codes::*;
use crate::engine::{Sub, G};
use crate::refs::{self, checkpoint_digest, key, keccak, recover, sh, sign, Key, RefMsg};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            assumptions: vec![SIM, "when a 65-byte signature does not recover or has a high s, only soundness (no verification without enough signers) is asserted"],
            subs: vec![Sub { name: "multisig-verify", cases: (16_000, 120_000), rule: "a verification answered true and one was refused", run: c10 }],
        },
        Prop {
            id: "C11",
            assumptions: vec![SIM],
            subs: vec![Sub { name: "enrolment-history", cases: (8_000, 120_000), rule: "an enrolment replaced another and one was refused or removed", run: c11 }],
        },
        Prop {
            id: "C12",
            assumptions: vec![SIM, "with repeated or failing modules only soundness is asserted"],
            subs: vec![Sub { name: "aggregate-history", cases: (45_000, 200_000), rule: "at least two modules, a verification answered true and one refused", run: c12 }],
        },
        Prop {
            id: "C13",
            assumptions: vec![SIM],
            subs: vec![Sub { name: "routing-history", cases: (80_000, 250_000), rule: "messages with and without a module were asked about, after a change of route", run: c13 }],
        },
        Prop {
            id: "C14",
            assumptions: vec![SIM],
            subs: vec![Sub { name: "pause-history", cases: (120_000, 400_000), rule: "paused and released at least once each", run: c14 }],
        },
    ]
}

/// Domains that are easily confused with each other.
pub fn gen_domains(g: &mut G, n: usize) -> Vec<u32> {
    let mut v = vec![g.domain()];
    while v.len() < n {
        let d = match g.below(4) {
            0 => v[0].wrapping_add(1),
            1 => v[0] ^ (1 << g.below(32)),
            2 => v[0].swap_bytes(),
            _ => g.domain(),
        };
        if v.contains(&d) {
            let mut d = g.domain().wrapping_add(v.len() as u32 * 7919);
            while v.contains(&d) {
                d = d.wrapping_add(1);
            }
            v.push(d);
        } else {
            v.push(d);
        }
        v.sort();
    }
    v
}

/// Keys of possible validators; the last one is never enrolled.
fn keys() -> &'static [Key] {
    static KEYS: std::sync::OnceLock<Vec<Key>> = std::sync::OnceLock::new();
    KEYS.get_or_init(|| (0..41u8).map(|i| key(&[i])).collect())
}

fn set_validators(domain: u32, threshold: u64, v: &[Vec<u8>]) -> V {
    json!({"set_validators": {"domain": domain, "threshold": threshold, "validators": v.iter().map(|b| hx(b)).collect::<Vec<_>>()}})
}

// ---------------------------------------------------------------- C10

/// Distinct enrolled signers of exactly this message's checkpoint; (count, all signatures plain).
pub fn signers(metadata: &[u8], message: &[u8], enrolled: &BTreeMap<u32, (u64, Vec<Vec<u8>>)>) -> Option<(usize, bool, u64)> {
    let msg = RefMsg::decode(message)?;
    if metadata.len() < 68 {
        return None;
    }
    let (t, vals) = enrolled.get(&msg.origin)?;
    let index = u32::from_be_bytes(metadata[64..68].try_into().unwrap());
    let digest = checkpoint_digest(msg.origin, &metadata[..32], &metadata[32..64], index, &msg.id());
    let mut found = BTreeSet::new();
    let mut plain = (metadata.len() - 68) % 65 == 0;
    for s in metadata[68..].chunks_exact(65) {
        match recover(&digest, s) {
            Some(a) => {
                let high = k256::ecdsa::Signature::from_slice(&s[..64]).map(|s| s.normalize_s().is_some()).unwrap_or(true);
                plain &= !high;
                if vals.iter().any(|v| v[..] == a) {
                    found.insert(a);
                }
            }
            None => plain = false,
        }
    }
    Some((found.len(), plain, *t))
}

fn c10(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let owner = c.acc("owner");
    let ism = c.make(ISM_MULTISIG, &owner, json!({"owner": owner}));
    let ks = keys();
    let domains = gen_domains(g, 3);
    let mut enrolled: BTreeMap<u32, (u64, Vec<Vec<u8>>)> = BTreeMap::new();
    let (mut yes, mut no) = (0, 0);
    // seldom many validators and signatures
    let pool = if g.chance(1, 12) { 40 } else { 8 };
    let ks = if pool == 8 { [&ks[..8], &ks[40..]].concat() } else { ks.to_vec() };
    let shadow = g.chance(1, 3);
    let enrol = |g: &mut G, c: &Chain, enrolled: &mut BTreeMap<u32, (u64, Vec<Vec<u8>>)>, d: u32| {
        let n = if pool == 8 { g.range(1, 6) } else { g.range(7, 39) } as usize;
        let v = g.subset(pool, n + 1);
        let mut vals: Vec<Vec<u8>> = v[..n].iter().map(|i| ks[*i].addr.to_vec()).collect();
        let t = if g.chance(1, 4) { n as u64 } else { g.range(1, n as u64) };
        if shadow && n > 1 {
            // a validator nobody here is, whose address is nearly that of one who signs
            let mut a = ks[v[n]].addr.to_vec();
            let k = *g.pick(&[0usize, 19, 10, 1, 18, 3, 15]);
            a[k] ^= 1 << g.below(8);
            let at = g.idx(n);
            vals[at] = a;
        }
        g.log(|| format!("domain {d}: validators {:?} threshold {t}", &v[..n]));
        c.ok(&owner, &ism, set_validators(d, t, &vals));
        enrolled.insert(d, (t, vals));
    };
    for d in &domains[..2] {
        enrol(g, &c, &mut enrolled, *d);
    }
    let rounds = g.range(1, 6);
    for _ in 0..rounds {
        match g.below(6) {
            4 => {
                let d = *g.pick(&domains);
                enrol(g, &c, &mut enrolled, d);
            }
            5 => {
                let d = *g.pick(&domains);
                g.log(|| format!("domain {d} unenrolled"));
                c.ok(&owner, &ism, json!({"unset_domain": {"domain": d}}));
                enrolled.remove(&d);
            }
            _ => {}
        }
        let (sender, recipient) = (g.bytes32(), g.bytes32());
        let msg = RefMsg { version: 3, nonce: g.below(1 << 32) as u32, origin: *g.pick(&domains), sender, dest: if g.bool() { *g.pick(&domains) } else { g.domain() }, recipient, body: gen_body(g, 40) };
        let (tree, root, index) = (gen_wire(g), gen_wire(g), g.domain());
        let digest = checkpoint_digest(msg.origin, &tree, &root, index, &msg.id());
        let (t, vals) = enrolled.get(&msg.origin).cloned().unwrap_or((1, vec![ks[0].addr.to_vec()]));
        let mine: Vec<&Key> = ks.iter().filter(|k| vals.iter().any(|v| v[..] == k.addr)).collect();
        // a number of genuine signatures around the threshold, by distinct validators
        let want = match g.below(4) {
            0 => t.saturating_sub(1),
            1 => g.below(mine.len() as u64 + 1),
            _ => t,
        } as usize;
        let mut order: Vec<usize> = (0..mine.len()).collect();
        for i in 0..mine.len() {
            let j = i + g.idx(mine.len() - i);
            order.swap(i, j);
        }
        let mut sigs: Vec<Vec<u8>> = order.iter().take(want.min(mine.len())).map(|i| sign(mine[*i], &digest)).collect();
        let mut kinds = vec![];
        let extra = if g.bool() { 0 } else { g.range(1, 4) };
        for _ in 0..extra {
            let kind = g.below(16);
            kinds.push(kind);
            let k = if mine.is_empty() { &ks[0] } else { *g.pick(&mine) };
            let mut o = msg.clone();
            o.nonce ^= 1;
            let other_dom = *g.pick(&domains);
            let s = match kind {
                0 | 1 => sigs.first().cloned().unwrap_or_else(|| sign(k, &digest)),
                2 => sign(ks.last().unwrap(), &digest),
                3 | 15 => sign(g.pick(&ks[..]), &digest),
                4 => sign(k, &checkpoint_digest(msg.origin ^ 1, &tree, &root, index, &msg.id())),
                5 => sign(k, &checkpoint_digest(other_dom, &tree, &root, index, &msg.id())),
                6 => sign(k, &checkpoint_digest(msg.origin, &keccak(&[&tree]), &root, index, &msg.id())),
                7 => sign(k, &checkpoint_digest(msg.origin, &tree, &keccak(&[&root]), index, &msg.id())),
                8 => sign(k, &checkpoint_digest(msg.origin, &tree, &root, index.wrapping_add(1), &msg.id())),
                9 => sign(k, &checkpoint_digest(msg.origin, &tree, &root, index, &o.id())),
                10 => {
                    // without the ethereum prefix
                    let dh = keccak(&[&msg.origin.to_be_bytes(), &tree, b"HYPERLANE"]);
                    sign(k, &keccak(&[&dh, &root, &index.to_be_bytes(), &msg.id()]))
                }
                11 => {
                    let mut s = sign(k, &digest);
                    s[64] = *g.pick(&[0u8, 1, 26, 29, 30, 255]);
                    s
                }
                12 => {
                    let mut s = sign(k, &digest);
                    s[64] ^= 27 ^ 28;
                    s
                }
                13 => {
                    // the other s
                    let s = sign(k, &digest);
                    let (r, sv) = k256::ecdsa::Signature::from_slice(&s[..64]).unwrap().split_scalars();
                    let f = k256::ecdsa::Signature::from_scalars(r, -sv).unwrap();
                    let mut o = f.to_bytes().to_vec();
                    o.push(s[64] ^ 27 ^ 28);
                    o
                }
                _ => g.bytes(65),
            };
            let at = g.idx(sigs.len() + 1);
            sigs.insert(at, s);
        }
        let mut metadata = [&tree[..], &root, &index.to_be_bytes()].concat();
        sigs.iter().for_each(|s| metadata.extend(s));
        let mut message = msg.encode();
        match g.below(16) {
            12 => {
                let n = g.idx(metadata.len() + 1);
                metadata.truncate(n);
            }
            13 => {
                let n = g.idx(message.len() + 1);
                message.truncate(n);
            }
            14 => {
                let i = g.idx(metadata.len());
                metadata[i] ^= 1 << g.below(8);
            }
            15 => {
                let i = g.idx(message.len());
                message[i] ^= 1 << g.below(8);
            }
            11 => {
                let n = g.range(1, 64) as usize;
                metadata.extend(g.bytes(n));
            }
            _ => {}
        }
        let res = verify(&c, &ism, &metadata, &message);
        let verified = res == Ok(true);
        let exp = signers(&metadata, &message, &enrolled);
        g.log(|| format!("verify message from {} with {} signatures (extra kinds {kinds:?}), {}B metadata, {}B message: distinct enrolled signers {exp:?} -> {res:?}", msg.origin, sigs.len(), metadata.len(), message.len()));
        match exp {
            None => check!(!verified, "verified although malformed or not enrolled"),
            Some((n, plain, t)) => {
                check!(!verified || n as u64 >= t, "verified with {n} distinct enrolled signers of {t} needed");
                check!(verified || !plain || (n as u64) < t, "not verified with {n} distinct enrolled signers of {t} needed: {res:?}");
                if plain && (n as u64) < t {
                    g.label("not enough signers");
                }
            }
        }
        if verified {
            yes += 1;
        } else {
            no += 1;
        }
    }
    if yes > 0 {
        g.label("verified");
    }
    if yes > 0 && no > 0 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

fn c11(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let owner = c.acc("owner");
    let ism = c.make(ISM_MULTISIG, &owner, json!({"owner": owner}));
    let ks = &keys()[..9];
    let domains = gen_domains(g, 4);
    let mut model: BTreeMap<u32, (u64, Vec<Vec<u8>>)> = BTreeMap::new();
    let (mut replaced, mut refused) = (0, 0);
    let ops = g.list(10, 30, |g| g.u64());
    for _ in &ops {
        let d = *g.pick(&domains);
        if g.chance(1, 6) {
            let before = c.state();
            let r = c.x(&owner, &ism, json!({"unset_domain": {"domain": d}}), &[]);
            g.log(|| format!("unset {d} -> {}", short_err(&r)));
            if model.remove(&d).is_some() {
                check!(r.is_ok(), "the owner's removal was refused: {}", short_err(&r));
                refused += 1;
            } else if r.is_err() {
                c.unchanged(&before, "a refused removal")?;
            }
        } else {
            let n = match g.below(12) {
                0 => 0,
                11 => g.range(250, 270) as usize,
                _ => g.range(1, 6) as usize,
            };
            let mut vals: Vec<Vec<u8>> = (0..n)
                .map(|i| {
                    if n < 10 && g.bool() {
                        ks[g.idx(9)].addr.to_vec()
                    } else {
                        keccak(&[&(i as u32).to_be_bytes()])[..20].to_vec()
                    }
                })
                .collect();
            let t = match g.below(6) {
                0 => 0,
                1 => (n as u64 + g.range(1, 3)).min(255),
                2 => g.below(256),
                _ => g.range(1, (n as u64).clamp(1, 255)),
            };
            if n > 0 && g.chance(1, 4) {
                let len = *g.pick(&[0usize, 1, 19, 21, 32, 64, 65]);
                let at = g.idx(n);
                vals[at] = g.bytes(len);
            }
            let by_owner = g.chance(9, 10);
            let valid = t >= 1 && t <= n as u64 && vals.iter().all(|v| v.len() == 20);
            let who = if by_owner { owner.clone() } else { gen_account(g, &c) };
            let before = c.state();
            let r = c.x(&who, &ism, set_validators(d, t, &vals), &[]);
            g.log(|| format!("set {d}: {n} validators threshold {t} lengths ok {} by owner {by_owner} -> {}", vals.iter().all(|v| v.len() == 20), short_err(&r)));
            if valid && by_owner {
                check!(r.is_ok(), "a valid enrolment was refused: {}", short_err(&r));
                if model.insert(d, (t, vals)).is_some() {
                    replaced += 1;
                }
            } else {
                check!(r.is_err(), "an invalid enrolment was accepted: {n} validators, threshold {t}, by owner {by_owner}");
                refused += 1;
                c.unchanged(&before, "a refused enrolment")?;
            }
        }
        for d in &domains {
            let q = c.q(&ism, json!({"multisig_ism": {"enrolled_validators": {"domain": d}}}));
            let msg = RefMsg { version: g.byte(), nonce: g.domain(), origin: *d, sender: [1; 32], dest: if g.bool() { *g.pick(&domains) } else { g.domain() }, recipient: [2; 32], body: vec![] };
            let i = verify_info(&c, &ism, &msg.encode());
            match model.get(d) {
                Some((t, v)) => {
                    let q = q?;
                    check_eq!(q["threshold"].as_u64().unwrap_or(999), *t, "threshold of {d}");
                    check_eq!(q["validators"].as_array().map(|a| a.iter().map(unhex).collect::<Vec<_>>()).unwrap_or_default(), v.clone(), "validators of {d}");
                    check_eq!(i?, (*t, v.clone()), "verify info of {d}");
                }
                None => {
                    let empty = |t: u64, n: usize| t == 0 && n == 0;
                    check!(q.as_ref().map_or(true, |q| empty(q["threshold"].as_u64().unwrap_or(1), q["validators"].as_array().map_or(1, |a| a.len()))), "validators are reported for {d}, which is not enrolled: {q:?}");
                    check!(i.as_ref().map_or(true, |i| empty(i.0, i.1.len())), "verify info is reported for {d}, which is not enrolled: {i:?}");
                }
            }
        }
        // messages of a domain verify with its own validators, and not at all when unenrolled
        let d = *g.pick(&domains);
        let msg = RefMsg { version: 3, nonce: 1, origin: d, sender: [1; 32], dest: *g.pick(&domains), recipient: [2; 32], body: vec![9] };
        let (tree, root) = ([3u8; 32], [4u8; 32]);
        let digest = checkpoint_digest(d, &tree, &root, 6, &msg.id());
        let mut metadata = [&tree[..], &root, &6u32.to_be_bytes()].concat();
        let mut n = 0;
        if let Some((t, v)) = model.get(&d) {
            for k in ks.iter().filter(|k| v.iter().any(|a| a[..] == k.addr)).take(*t as usize) {
                metadata.extend(sign(k, &digest));
                n += 1;
            }
            let r = verify(&c, &ism, &metadata, &msg.encode());
            if n as u64 >= *t {
                check_eq!(r, Ok(true), "verification with the enrolled validators");
                g.label("verified with enrolled validators");
            } else {
                check!(r != Ok(true), "verified with {n} of {t} signatures");
            }
        } else {
            for k in ks {
                metadata.extend(sign(k, &digest));
            }
            check!(verify(&c, &ism, &metadata, &msg.encode()) != Ok(true), "a message of the unenrolled domain {d} verified");
            check!(verify(&c, &ism, &metadata[..68], &msg.encode()) != Ok(true), "a message of the unenrolled domain {d} verified without signatures");
        }
    }
    if replaced > 0 && refused > 0 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

fn c12(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let own = c.acc("owner");
    // seldom many modules
    let total = if g.chance(1, 15) { 40 } else { 6 };
    let mods: Vec<(String, Verdict)> = (0..total)
        .map(|i| {
            odd_address(g, &c);
            let v = match g.weighted(if total == 6 { &[8, 2, 2, 1] } else { &[30, 4, 4, 0] }) {
                0 => Verdict::Keyed(format!("m{i}")),
                1 => Verdict::Yes,
                2 => Verdict::No,
                _ => Verdict::Error,
            };
            (c.mock(&Cfg { verdict: v.clone(), ..Default::default() }), v)
        })
        .collect();
    let gen_list = |g: &mut G| -> Vec<usize> {
        let n = g.idx(total);
        let mut v = g.subset(total, n);
        if n > 0 && g.chance(1, 10) {
            let x = v[g.idx(n)];
            v.push(x);
        }
        v
    };
    let gen_threshold = |g: &mut G, n: usize| match g.below(6) {
        0 => 0,
        1 => n as u64 + 1,
        2 => g.below(256),
        _ => g.range(1, (n as u64).max(1)),
    };
    let addrs = |l: &[usize]| l.iter().map(|i| mods[*i].0.clone()).collect::<Vec<_>>();
    // instantiation is validated too
    let (mut list, mut t);
    let ism = loop {
        list = gen_list(g);
        t = gen_threshold(g, list.len());
        let r = c.new_contract(ISM_AGGREGATE, &own, json!({"owner": own, "isms": addrs(&list), "threshold": t}));
        let valid = t >= 1 && t <= list.len() as u64;
        g.log(|| format!("instantiate with {list:?} threshold {t} -> {}", r.is_ok()));
        match r {
            Ok(a) => {
                check!(valid, "instantiated with threshold {t} of {} modules", list.len());
                break a;
            }
            Err(e) => {
                check!(!valid, "valid configuration refused at instantiation: {e}");
                g.label("refused instantiation");
                if g.used.len() > 300 {
                    list = vec![0];
                    t = 1;
                    break c.make(ISM_AGGREGATE, &own, json!({"owner": own, "isms": addrs(&list), "threshold": t}));
                }
            }
        }
    };
    let (mut yes, mut no) = (0, 0);
    let ops = g.list(8, 24, |g| g.u64());
    for _ in &ops {
        match g.weighted(&[6, 2]) {
            0 => {
                let body = if g.chance(1, 40) { g.fill(3000) } else { g.blob(40) };
                let msg = RefMsg { version: 3, nonce: 7, origin: g.domain(), sender: g.bytes32(), dest: g.domain(), recipient: g.bytes32(), body }.encode();
                // each position gets its own slice: right, another module's, another message's or junk
                let mut slices = vec![];
                let target = match g.below(3) {
                    0 => g.idx(list.len() + 1),
                    1 => (t as usize).saturating_sub(1),
                    _ => (t as usize).min(list.len()),
                };
                let mut pos: Vec<usize> = (0..list.len()).collect();
                for i in 0..list.len() {
                    let j = i + g.idx(list.len() - i);
                    pos.swap(i, j);
                }
                let good: BTreeSet<usize> = pos[..target.min(list.len())].iter().cloned().collect();
                for (p, i) in list.iter().enumerate() {
                    slices.push(if good.contains(&p) {
                        key_for(&format!("m{i}"), &msg)
                    } else {
                        match g.below(4) {
                            0 => vec![],
                            1 => key_for(&format!("m{}", (i + 1) % total), &msg),
                            2 => key_for(&format!("m{i}"), &msg[1..]),
                            _ => g.blob(40),
                        }
                    });
                }
                // table of ranges, slices in any place
                let n = list.len();
                let mut table = vec![0u8; 8 * n];
                let mut rest = vec![];
                for p in pos.iter() {
                    // without metadata for some modules that are not needed
                    if !good.contains(p) && g.chance(1, 3) {
                        if g.chance(1, 4) {
                            let v = g.u64() as u32;
                            table[8 * p + 4..8 * p + 8].copy_from_slice(&v.to_be_bytes());
                        }
                        continue;
                    }
                    if g.chance(1, 4) {
                        let k = g.idx(4);
                        rest.extend(g.bytes(k));
                    }
                    let s = (8 * n + rest.len()) as u32;
                    rest.extend(&slices[*p]);
                    let e = (8 * n + rest.len()) as u32;
                    table[8 * p..8 * p + 4].copy_from_slice(&s.to_be_bytes());
                    table[8 * p + 4..8 * p + 8].copy_from_slice(&e.to_be_bytes());
                }
                let mut meta = [table, rest].concat();
                match g.below(8) {
                    6 if !meta.is_empty() => {
                        let k = g.idx(meta.len());
                        meta.truncate(k);
                    }
                    7 if n > 0 => {
                        let p = g.idx(2 * n);
                        let v: u32 = match g.below(3) {
                            0 => meta.len() as u32 + 1,
                            1 => u32::MAX,
                            _ => g.below(meta.len() as u64 + 1) as u32,
                        };
                        meta[4 * p..4 * p + 4].copy_from_slice(&v.to_be_bytes());
                    }
                    _ => {}
                }
                // what each position's slice actually is
                let mut ranges_ok = meta.len() >= 8 * n;
                let mut approving = BTreeSet::new();
                let mut failing = false;
                let mut skipped = 0;
                if ranges_ok {
                    for (p, i) in list.iter().enumerate() {
                        let at = |k: usize| u32::from_be_bytes(meta[k..k + 4].try_into().unwrap()) as usize;
                        let (s, e) = (at(8 * p), at(8 * p + 4));
                        if s == 0 {
                            // it is not asked
                            skipped += 1;
                            continue;
                        }
                        if s > e || e > meta.len() {
                            ranges_ok = false;
                            break;
                        }
                        let ok = match &mods[*i].1 {
                            Verdict::Yes => true,
                            Verdict::No => false,
                            Verdict::Error => {
                                failing = true;
                                false
                            }
                            Verdict::Keyed(tag) => meta[s..e] == key_for(tag, &msg),
                        };
                        if ok {
                            approving.insert(*i);
                        }
                    }
                }
                let distinct = list.iter().collect::<BTreeSet<_>>().len() == list.len();
                let res = verify(&c, &ism, &meta, &msg);
                let verified = res == Ok(true);
                g.log(|| format!("verify with modules {list:?} threshold {t}: approving {approving:?}, failing module {failing}, {skipped} without metadata, ranges ok {ranges_ok} -> {res:?}"));
                if !ranges_ok {
                    check!(!verified, "verified with out-of-range metadata");
                    g.label("out-of-range metadata");
                } else {
                    check!(!verified || approving.len() as u64 >= t, "verified with {} approving modules of {t} needed", approving.len());
                    if distinct && !failing {
                        check!(verified || (approving.len() as u64) < t, "not verified with {} approving modules of {t} needed: {res:?}", approving.len());
                    }
                }
                if verified {
                    yes += 1
                } else {
                    no += 1
                }
            }
            _ => {
                let l = gen_list(g);
                let th = gen_threshold(g, l.len());
                let mut a = addrs(&l);
                let mut valid = th >= 1 && th <= l.len() as u64;
                if g.chance(1, 10) && !a.is_empty() {
                    a[0] = "nonsense".into();
                    valid = false;
                }
                let by = g.chance(9, 10);
                let who = if by { own.clone() } else { gen_account(g, &c) };
                let before = c.state();
                let r = c.x(&who, &ism, json!({"set_isms": {"isms": a, "threshold": th}}), &[]);
                g.log(|| format!("set {l:?} threshold {th} by owner {by} -> {}", short_err(&r)));
                if valid && by {
                    check!(r.is_ok(), "a valid configuration was refused: {}", short_err(&r));
                    list = l;
                    t = th;
                } else {
                    check!(r.is_err(), "an invalid configuration was accepted: {} modules, threshold {th}, by owner {by}", l.len());
                    c.unchanged(&before, "a refused configuration")?;
                }
            }
        }
        let q = c.q(&ism, json!({"aggregate_ism": {"isms": {}}}))?;
        check_eq!(q, json!({"isms": addrs(&list), "threshold": t}), "isms query");
        let vi = verify_info(&c, &ism, &[0; 80])?;
        check_eq!(vi, (t, addrs(&list).iter().map(|a| refs::acc_bytes(c.hrp(), a).unwrap()).collect::<Vec<_>>()), "verify info");
    }
    if list.len() >= 2 && yes > 0 && no > 0 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

fn c13(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let own = c.acc("owner");
    let mods: Vec<(String, Verdict)> = (0..4)
        .map(|i| {
            odd_address(g, &c);
            let v = match g.weighted(&[8, 1, 1, 1]) {
                0 => Verdict::Keyed(format!("m{i}")),
                1 => Verdict::Yes,
                2 => Verdict::No,
                _ => Verdict::Error,
            };
            (c.mock(&Cfg { verdict: v.clone(), ..Default::default() }), v)
        })
        .collect();
    let many = g.chance(1, 25);
    let domains = if many { gen_domains(g, 60) } else { gen_domains(g, 4) };
    let mut model: BTreeMap<u32, usize> = BTreeMap::new();
    let init = g.list(if many { 50 } else { 2 }, if many { 90 } else { 5 }, |g| (*g.pick(&domains), g.idx(4)));
    let isms: Vec<V> = init.iter().map(|(d, m)| json!({"domain": d, "address": mods[*m].0})).collect();
    let ism = c.make(ISM_ROUTING, &own, json!({"owner": own, "isms": isms}));
    for (d, m) in init {
        model.insert(d, m);
    }
    g.log(|| format!("routes {model:?}, verdicts {:?}", mods.iter().map(|m| &m.1).collect::<Vec<_>>()));
    let (mut with, mut without, mut changed) = (0, 0, 0);
    let ops = g.list(10, 30, |g| g.u64());
    for _ in &ops {
        match g.weighted(&[6, 2, 2]) {
            0 => {
                let body = gen_body(g, 40);
                let origin = *g.pick(&domains);
                let msg = RefMsg { version: g.byte(), nonce: g.domain(), origin, sender: g.bytes32(), dest: *g.pick(&domains), recipient: g.bytes32(), body }.encode();
                let route = model.get(&origin).copied();
                let meta = match g.below(4) {
                    0 => g.blob(40),
                    1 => key_for(&format!("m{}", g.idx(4)), &msg),
                    _ => key_for(&format!("m{}", route.unwrap_or(0)), &msg),
                };
                let res = verify(&c, &ism, &meta, &msg);
                let info = verify_info(&c, &ism, &msg);
                let r = c.q(&ism, json!({"routing_ism": {"route": {"message": hx(&msg)}}}));
                g.log(|| format!("message from {origin}: route {route:?}, {} metadata -> {res:?}", sh(&meta)));
                match route {
                    None => {
                        check!(res != Ok(true), "a message of the unrouted domain {origin} verified");
                        check!(r.is_err(), "a route is reported for the unrouted domain {origin}: {r:?}");
                        check!(info.is_err(), "verify info is reported for the unrouted domain {origin}: {info:?}");
                        without += 1;
                    }
                    Some(m) => {
                        let a = &mods[m].0;
                        let want = match &mods[m].1 {
                            Verdict::Yes => Some(true),
                            Verdict::No => Some(false),
                            Verdict::Error => None,
                            Verdict::Keyed(t) => Some(meta == key_for(t, &msg)),
                        };
                        check_eq!(res.clone().ok(), want, "verdict of the module routed for {origin} ({res:?})");
                        check_eq!(r?["ism"].as_str().unwrap_or("none").to_string(), a.clone(), "route of {origin}");
                        let direct = verify_info(&c, a, &msg);
                        check_eq!(info.ok(), direct.ok(), "verify info of {origin}");
                        with += 1;
                    }
                }
                let cut = g.idx(77);
                check!(verify(&c, &ism, &meta, &msg[..cut]) != Ok(true), "a message of {cut} bytes verified");
            }
            1 => {
                let (d, m) = (*g.pick(&domains), g.idx(4));
                let kind = g.below(8);
                let (who, addr) = match kind {
                    6 => (gen_account(g, &c), mods[m].0.clone()),
                    7 => (own.clone(), "not an address".to_string()),
                    _ => (own.clone(), mods[m].0.clone()),
                };
                let before = c.state();
                let r = c.x(&who, &ism, json!({"set": {"ism": {"domain": d, "address": addr}}}), &[]);
                g.log(|| format!("set {d} := module {m} (kind {kind}) -> {}", short_err(&r)));
                if kind < 6 {
                    check!(r.is_ok(), "setting a route was refused: {}", short_err(&r));
                    model.insert(d, m);
                    changed += 1;
                } else {
                    check!(r.is_err(), "a route was set by someone else or to an invalid address");
                    c.unchanged(&before, "a refused route")?;
                }
            }
            _ => {
                let ds = g.list(if many { 20 } else { 2 }, if many { 40 } else { 4 }, |g| *g.pick(&domains));
                let by = g.chance(7, 8);
                let who = if by { own.clone() } else { gen_account(g, &c) };
                let before = c.state();
                let r = c.x(&who, &ism, json!({"unset": {"domains": ds}}), &[]);
                g.log(|| format!("unset {ds:?} by owner {by} -> {}", short_err(&r)));
                if by {
                    check!(r.is_ok(), "removing routes was refused: {}", short_err(&r));
                    for d in &ds {
                        changed += model.remove(d).is_some() as u32;
                    }
                } else {
                    check!(r.is_err(), "routes were removed by someone else");
                    c.unchanged(&before, "a refused removal")?;
                }
            }
        }
    }
    if with > 0 && without > 0 && changed > 0 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn c14(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let hook_kind = g.bool();
    let deployer = c.acc("deployer");
    let users = gen_accounts(g, &c, 3);
    let mut owner = users[0].clone();
    let mut pending: Option<String> = None;
    let mut paused = g.bool();
    let code = if hook_kind { HOOK_PAUSABLE } else { ISM_PAUSABLE };
    let a = c.make(code, &deployer, json!({"owner": owner, "paused": paused}));
    let mut mb = None;
    if g.bool() {
        // behind a mailbox
        let admin = c.acc("admin");
        let (m, ..) = full_mailbox(&c, &admin, 5);
        if hook_kind {
            let which = if g.bool() { "set_required_hook" } else { "set_default_hook" };
            c.ok(&admin, &m, json!({which: {"hook": a}}));
        } else {
            c.ok(&admin, &m, json!({"set_default_ism": {"ism": a}}));
        }
        mb = Some((m, c.mock(&Cfg::default())));
    }
    g.log(|| format!("{} initially paused={paused}", if hook_kind { "hook" } else { "module" }));
    let (mut pauses, mut releases) = (0, 0);
    let mut seq = 0u32;
    let ops = g.list(12, 40, |g| g.u64());
    for _ in &ops {
        let who = match g.below(10) {
            6 => deployer.clone(),
            7 => g.pick(&users).clone(),
            8 => pending.clone().unwrap_or_else(|| deployer.clone()),
            9 => mb.as_ref().map(|m| m.0.clone()).unwrap_or_else(|| a.clone()),
            _ => owner.clone(),
        };
        if g.chance(1, 10) {
            let n = *g.pick(&[1u64, 1_000, 10_000_000]);
            c.advance(n);
        }
        let op = g.weighted(&[4, 4, 1, 1]);
        let before = c.state();
        match op {
            0 | 1 => {
                let r = c.x(&who, &a, if op == 0 { json!({"pausable": {"pause": {}}}) } else { json!({"pausable": {"release": {}}}) }, &[]);
                let expect = who == owner && paused == (op == 1);
                g.log(|| format!("{} by owner {} while paused={paused} -> {}", if op == 0 { "pause" } else { "release" }, who == owner, short_err(&r)));
                check_eq!(r.is_ok(), expect, "{} by owner={} while paused={paused}", if op == 0 { "pause" } else { "release" }, who == owner);
                if expect {
                    paused = op == 0;
                    if paused {
                        pauses += 1
                    } else {
                        releases += 1
                    }
                } else {
                    c.unchanged(&before, "a refused pause or release")?;
                }
            }
            2 => {
                let next = g.pick(&users).clone();
                let r = c.x(&who, &a, json!({"ownable": {"init_ownership_transfer": {"next_owner": next}}}), &[]);
                if r.is_ok() {
                    check!(who == owner, "ownership was offered by someone else");
                    pending = Some(next);
                }
            }
            _ => {
                let who = pending.clone().unwrap_or(who);
                let r = c.x(&who, &a, json!({"ownable": {"claim_ownership": {}}}), &[]);
                g.log(|| format!("claim of ownership -> {}", short_err(&r)));
                if r.is_ok() {
                    check!(Some(&who) == pending.as_ref(), "ownership was claimed by someone else");
                    owner = who;
                    pending = None;
                    g.label("ownership moved");
                }
            }
        }
        check_eq!(c.q(&a, json!({"pausable": {"pause_info": {}}}))?["paused"].as_bool(), Some(paused), "reported pause state");
        let msg = RefMsg { version: 3, nonce: seq, origin: g.domain(), sender: g.bytes32(), dest: g.domain(), recipient: g.bytes32(), body: gen_body(g, 20) }.encode();
        let meta = gen_body(g, 20);
        if hook_kind {
            let from = match g.below(6) {
                0 => owner.clone(),
                1 => deployer.clone(),
                2 => mb.as_ref().map(|m| m.0.clone()).unwrap_or_else(|| a.clone()),
                _ => g.pick(&users).clone(),
            };
            let funds = if g.chance(1, 4) { coins(&[(1 + g.amount(1000), DENOMS[g.idx(2)])]) } else { vec![] };
            for f in &funds {
                c.mint(&from, &f.denom, f.amount.u128());
            }
            let before = c.state();
            let r = c.x(&from, &a, post_dispatch(&meta, &msg), &funds);
            if paused || funds.is_empty() {
                check_eq!(r.is_ok(), !paused, "dispatch through a hook with paused={paused}");
            }
            if paused {
                c.unchanged(&before, "a refused dispatch")?;
            }
            if !paused {
                check_eq!(quote_hook(&c, &a, &meta, &msg)?, vec![], "quote of a released hook");
            }
            if let Some((m, _)) = &mb {
                let d = gen_disp(g);
                let before = c.state();
                let r = c.x(&users[1], m, d.msg(), &[]);
                check_eq!(r.is_ok(), !paused, "dispatch by a mailbox through a hook with paused={paused} ({})", short_err(&r));
                if r.is_err() {
                    c.unchanged(&before, "a refused dispatch")?;
                }
            }
        } else {
            check_eq!(verify(&c, &a, &meta, &msg) == Ok(true), !paused, "approval of a module with paused={paused}");
            if let Some((m, rec)) = &mb {
                seq += 1;
                let x = RefMsg { version: 3, nonce: seq, origin: 4, sender: [1; 32], dest: 5, recipient: c.wire(rec), body: vec![] };
                let r = c.x(&users[1], m, process(&meta, &x.encode()), &[]);
                check_eq!(r.is_ok(), !paused, "delivery with a module with paused={paused} ({})", short_err(&r));
            }
        }
    }
    if pauses > 0 && releases > 0 {
        g.nontrivial();
    }
    Ok(())
}
