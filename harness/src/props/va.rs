//! C17 validator announcements.
use super::{Prop, SIM};
use crate::codes::*;
use crate::engine::{Sub, G};
use crate::refs::{self, announcement_digest, eth_prefixed, key, keccak, sign};
use crate::world::*;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        assumptions: vec![SIM, "signatures with a high s, or with bytes after the first 65, are not asserted to be refused"],
        subs: vec![Sub { name: "announcement-history", cases: (9_000, 120_000), rule: "an announcement was accepted, a replay refused and a wrong signature refused", run: c17 }],
    }]
}

fn gen_location(g: &mut G, pool: &[String]) -> String {
    match g.below(6) {
        0 => format!("s3://bucket-{}/eu", g.below(3)),
        1 => format!("file:///tmp/{}", g.below(3)),
        2 => g.string(30),
        3 if !pool.is_empty() => {
            // easily confused with an earlier one
            let mut s = g.pick(pool).clone();
            match g.below(4) {
                0 => s.push(' '),
                1 => s.push('/'),
                2 => s = s.to_uppercase(),
                _ => {
                    s.pop();
                }
            }
            s
        }
        4 => String::new(),
        _ if !pool.is_empty() => g.pick(pool).clone(),
        _ => "s3://x".into(),
    }
}

fn c17(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let owner = c.acc("owner");
    let domains = super::isms::gen_domains(g, 2);
    let mut vas = vec![];
    // two announcement contracts for different mailboxes, sometimes of the same domain
    for i in 0..2usize {
        odd_address(g, &c);
        let d = if g.chance(1, 3) { domains[0] } else { domains[i] };
        let m = mailbox(&c, &owner, d);
        odd_address(g, &c);
        let va = c.make(VA, &owner, json!({"hrp": c.hrp(), "mailbox": m}));
        check_eq!(c.q(&va, json!({"local_domain": {}}))?["local_domain"], json!(d), "domain of the announcement contract");
        let raw = refs::acc_bytes(c.hrp(), &m).unwrap();
        check_eq!(c.q(&va, json!({"mailbox": {}}))?["mailbox"], json!(hx(&raw)), "mailbox of the announcement contract");
        vas.push((va, d, c.wire(&m)));
    }
    // seldom a long history: many locations of few validators, or of many
    let long = g.chance(1, 30);
    let nkeys = if long && g.bool() { 36 } else { 4 };
    let keys: Vec<_> = (0..nkeys as u8).map(|i| key(&[0x50 + i])).collect();
    let mut known: [BTreeMap<Vec<u8>, Vec<String>>; 2] = Default::default();
    let mut pool: Vec<String> = vec![];
    let mut sigs: Vec<(usize, usize, String, Vec<u8>)> = vec![];
    let callers: Vec<String> = (0..2).map(|_| gen_account(g, &c)).collect();
    let (mut good, mut replayed, mut wrong) = (0, 0, 0);
    let ops = if long { g.list(150, 260, |g| g.weighted(&[20, 2, 0, 1])) } else { g.list(12, 40, |g| g.weighted(&[6, 2, 1, 5])) };
    for op in ops {
        let w = g.idx(2);
        let (va, domain, mb) = vas[w].clone();
        let mut k = g.idx(nkeys);
        let mut location = if long && g.bool() { format!("s3://bucket/{}", pool.len()) } else { gen_location(g, &pool) };
        if g.chance(1, 150) {
            let n = *g.pick(&[255usize, 256, 300, 1024, 5000]);
            location = hx(&g.fill(n / 2 + 1))[..n].to_string();
        }
        let digest = announcement_digest(domain, &mb, &location);
        let mut sig = sign(&keys[k], &digest);
        let mut validator = keys[k].addr.to_vec();
        // what the caller got wrong, if anything
        let mut valid = true;
        let mut asserted = true;
        let mut why = "";
        match op {
            0 => {}
            1 if !sigs.is_empty() => {
                // an earlier call again, perhaps at the other contract
                let (v, kk, l, s) = g.pick(&sigs).clone();
                k = kk;
                location = l;
                sig = s;
                validator = keys[k].addr.to_vec();
                valid = v == w || (vas[0].1 == vas[1].1 && vas[0].2 == vas[1].2);
                why = "earlier call";
                if g.chance(1, 3) {
                    // another signature of the same validator over the same announcement
                    if let Some(s) = refs::malleate(&sig) {
                        sig = s;
                        asserted = false;
                        why = "earlier call, other signature";
                    }
                }
            }
            2 => {
                let n = *g.pick(&[0usize, 19, 21, 32]);
                let mut v = validator.clone();
                v.resize(n, 0);
                if n == 32 {
                    v = refs::pad32(&keys[k].addr).to_vec();
                }
                validator = v;
                valid = false;
                why = "validator length";
            }
            _ => {
                valid = false;
                match g.below(12) {
                    0 => {
                        sig = sign(&keys[(k + 1) % nkeys], &digest);
                        why = "signed by another validator";
                    }
                    1 => {
                        let (_, d2, m2) = &vas[1 - w];
                        if (*d2, *m2) == (domain, mb) {
                            continue;
                        }
                        sig = sign(&keys[k], &announcement_digest(*d2, m2, &location));
                        why = "signed for another contract";
                    }
                    2 => {
                        sig = sign(&keys[k], &announcement_digest(domain ^ (1 << g.below(32)), &mb, &location));
                        why = "signed for another domain";
                    }
                    3 => {
                        let mut m2 = mb;
                        m2[g.idx(32)] ^= 1 << g.below(8);
                        sig = sign(&keys[k], &announcement_digest(domain, &m2, &location));
                        why = "signed for another mailbox";
                    }
                    4 => {
                        let other = format!("{location}x");
                        sig = sign(&keys[k], &announcement_digest(domain, &mb, &other));
                        why = "signed for another location";
                    }
                    5 => {
                        let n = g.idx(65);
                        sig.truncate(n);
                        why = "truncated signature";
                    }
                    6 => {
                        let i = g.idx(64);
                        sig[i] ^= 1 << g.below(8);
                        // an altered signature recovers some other key, if any
                        why = "altered signature";
                    }
                    7 => {
                        let v = match g.below(3) {
                            0 => g.byte(),
                            1 => sig[64] ^ 7,
                            _ => *g.pick(&[0u8, 1, 26, 29, 255]),
                        };
                        if v == sig[64] {
                            continue;
                        }
                        sig[64] = v;
                        why = "altered recovery id";
                    }
                    8 => {
                        // the digest without the signed-message prefix, or hashed once more
                        let mut pre = domain.to_be_bytes().to_vec();
                        pre.extend(mb);
                        pre.extend(b"HYPERLANE_ANNOUNCEMENT");
                        let inner = keccak(&[&keccak(&[&pre]), location.as_bytes()]);
                        let d = if g.bool() { inner } else { eth_prefixed(&digest) };
                        sig = sign(&keys[k], &d);
                        why = "other digest";
                    }
                    9 => {
                        sig = vec![0; 65];
                        sig[64] = 27;
                        why = "zero signature";
                    }
                    10 => {
                        let b = g.bytes(65);
                        sig = b;
                        why = "random signature";
                    }
                    _ => {
                        // accepted or refused, as it recovers the validator
                        let n = 1 + g.idx(3);
                        sig.extend(g.bytes(n));
                        asserted = false;
                        valid = true;
                        why = "trailing bytes";
                    }
                }
            }
        }
        let before = c.state();
        let msg = json!({"announce": {"validator": hx(&validator), "signature": hx(&sig), "storage_location": location}});
        let r = c.x(g.pick(&callers), &va, msg, &[]);
        let replay = known[w].get(&validator).is_some_and(|l| l.contains(&location));
        g.log(|| format!("contract {w}: validator {k} announces {location:?} ({}) {} -> {}", if valid { "signed" } else { "not signed" }, why, short_err(&r)));
        match r {
            Ok(_) => {
                check!(valid, "an announcement of {location:?} was accepted ({why})");
                check!(!replay, "the announcement of {location:?} was accepted twice");
                known[w].entry(validator.clone()).or_default().push(location.clone());
                sigs.push((w, k, location.clone(), sig));
                good += 1;
            }
            Err(e) => {
                check!(!(valid && !replay && asserted), "a validator's own announcement of {location:?} was refused: {e}");
                c.unchanged(&before, "a refused announcement")?;
                if valid && replay {
                    replayed += 1;
                } else {
                    wrong += 1;
                }
            }
        }
        if !pool.contains(&location) {
            pool.push(location);
        }
        // the queries, for a random selection of validators in random order
        for w in 0..2 {
            let ask: Vec<Vec<u8>> = g.list(4, if long { 40 } else { 8 }, |g| match g.idx(nkeys + 1) {
                i if i == nkeys => g.bytes(20),
                i => keys[i].addr.to_vec(),
            });
            let want: Vec<V> = ask.iter().map(|v| json!([hx(v), known[w].get(v).cloned().unwrap_or_default()])).collect();
            let got = c.q(&vas[w].0, json!({"get_announce_storage_locations": {"validators": ask.iter().map(|v| hx(v)).collect::<Vec<_>>()}}))?;
            check_eq!(got["storage_locations"], V::Array(want), "storage locations at contract {w}");
            let mut got: Vec<String> = c.q(&vas[w].0, json!({"get_announced_validators": {}}))?["validators"].as_array().ok_or("no list")?.iter().map(|v| v.as_str().unwrap_or("?").to_string()).collect();
            got.sort();
            check_eq!(got, known[w].keys().map(|k| hx(k)).collect::<Vec<_>>(), "announced validators at contract {w}");
        }
    }
    if good > 0 && replayed > 0 && wrong > 0 {
        g.nontrivial();
    }
    Ok(())
}
