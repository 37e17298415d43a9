//! C23 route tables and paginated listings.
use super::{Prop, SIM};
use crate::chain::Chain;
use crate::codes::*;
use crate::engine::{Sub, G};
use crate::world::*;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        assumptions: vec![SIM],
        subs: vec![
            Sub { name: "route-tables", cases: (20_000, 250_000), rule: "an entry was overwritten, one cleared, and a listing spanned several pages", run: tables },
            Sub { name: "gas-and-custom-hooks", cases: (20_000, 250_000), rule: "an entry was overwritten, one removed, and a listing spanned several pages", run: others },
        ],
    }]
}

/// Domains drawn from a few clusters, so that orders and neighbours matter.
fn gen_pool(g: &mut G) -> Vec<u32> {
    let n = *g.pick(&[4usize, 12, 33, 70]);
    let base = g.domain();
    let mut v: Vec<u32> = (0..n)
        .map(|_| match g.below(5) {
            0 => base.wrapping_add(g.below(40) as u32),
            1 => (g.below(40) as u32) << 24 | g.below(3) as u32,
            2 => (g.below(40) as u32) << 8,
            _ => g.domain(),
        })
        .collect();
    v.sort();
    v.dedup();
    v
}

type Listing<'a, K> = dyn Fn(Option<&K>, Option<u32>, Option<&str>) -> Result<Vec<(K, V)>, String> + 'a;

/// Checks pages of a listing against the table.
fn check_pages<K: Ord + Clone + std::fmt::Debug>(g: &mut G, table: &BTreeMap<K, V>, off: Option<K>, list: &Listing<'_, K>) -> Result<bool, String> {
    let desc = g.bool();
    let order = if desc {
        Some("desc")
    } else if g.bool() {
        Some("asc")
    } else {
        None
    };
    let limit = match g.below(6) {
        0 => None,
        1 => Some(30),
        2 => Some(31 + g.below(10) as u32 * g.below(1000) as u32),
        3 => Some(1),
        4 => Some(if g.chance(1, 4) { u32::MAX } else { 0 }),
        _ => Some(g.below(31) as u32),
    };
    let mut all: Vec<(K, V)> = table.iter().filter(|(k, _)| off.as_ref().is_none_or(|o| if desc { *k < o } else { *k > o })).map(|(k, v)| (k.clone(), v.clone())).collect();
    if desc {
        all.reverse();
    }
    let got = list(off.as_ref(), limit, order);
    if limit.unwrap_or(10) > 30 {
        check!(got.is_err(), "a page of {limit:?} entries was answered");
        return Ok(false);
    }
    let l = limit.unwrap_or(10) as usize;
    let want: Vec<_> = all.iter().take(l).cloned().collect();
    check_eq!(got?, want, "page after {off:?} of {limit:?} entries in order {order:?}");
    if l == 0 {
        return Ok(false);
    }
    // page by page
    let mut seen: Vec<(K, V)> = vec![];
    let mut at = off;
    for pages in 0.. {
        check!(pages <= all.len() + 1, "walking the listing does not end");
        let page = list(at.as_ref(), limit, order)?;
        if page.is_empty() {
            break;
        }
        at = Some(page.last().unwrap().0.clone());
        seen.extend(page);
    }
    check_eq!(seen, all, "entries visited page by page in order {order:?}");
    Ok(all.len() > l)
}

fn page_query(off: V, limit: Option<u32>, order: Option<&str>) -> V {
    json!({"offset": off, "limit": limit, "order": order})
}

fn tables(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let owner = c.acc("owner");
    let kind = g.idx(6);
    let hex = kind >= 4;
    let m = mailbox(&c, &owner, 1);
    let a = match kind {
        0..=2 => c.make([HOOK_ROUTING, HOOK_CUSTOM, HOOK_FALLBACK][kind], &owner, json!({"owner": owner})),
        3 => super::igp::new_igp(&c, &owner, &owner, "uatom", 1),
        4 => c.make(WARP_NATIVE, &owner, json!({"token": {"collateral": {"denom": "uatom"}}, "hrp": c.hrp(), "owner": owner, "mailbox": m})),
        _ => {
            let t = c.make(CW20, &owner, json!({"name": "token", "symbol": "TOK", "decimals": 6, "initial_balances": []}));
            c.make(WARP_CW20, &owner, json!({"token": {"collateral": {"address": t}}, "hrp": c.hrp(), "owner": owner, "mailbox": m}))
        }
    };
    let pool = gen_pool(g);
    let mut table: BTreeMap<u32, V> = BTreeMap::new();
    let gen_route = |g: &mut G| -> V {
        if g.chance(1, 5) {
            V::Null
        } else if hex {
            json!(hx(&gen_wire(g)))
        } else {
            json!(gen_account(g, &c))
        }
    };
    let (mut over, mut cleared, mut paged) = (false, false, false);
    let mut put = |table: &mut BTreeMap<u32, V>, d: u32, r: V| {
        let old = table.insert(d, r.clone());
        if let Some(o) = old {
            over |= o != r && !r.is_null();
            cleared |= !o.is_null() && r.is_null();
        }
    };
    let list = |off: Option<&u32>, limit: Option<u32>, order: Option<&str>| -> Result<Vec<(u32, V)>, String> {
        let v = c.q(&a, json!({"router": {"list_routes": page_query(json!(off), limit, order)}}))?;
        v["routes"].as_array().ok_or("no routes")?.iter().map(|r| Ok((r["domain"].as_u64().ok_or("no domain")? as u32, r["route"].clone()))).collect()
    };
    let ops = g.list(10, 40, |g| g.weighted(&[4, 5, 2]));
    for op in ops {
        match op {
            0 => {
                let (d, r) = (*g.pick(&pool), gen_route(g));
                c.ok(&owner, &a, json!({"router": {"set_route": {"set": {"domain": d, "route": r}}}}));
                g.log(|| format!("{d} := {r}"));
                put(&mut table, d, r);
            }
            1 => {
                let n = g.idx(30);
                let set: Vec<(u32, V)> = (0..n).map(|_| (*g.pick(&pool), gen_route(g))).collect();
                c.ok(&owner, &a, json!({"router": {"set_routes": {"set": set.iter().map(|(d, r)| json!({"domain": d, "route": r})).collect::<Vec<_>>()}}}));
                g.log(|| format!("{} routes set at once", set.len()));
                for (d, r) in set {
                    put(&mut table, d, r);
                }
            }
            _ => {
                // someone else
                let before = c.state();
                let r = c.x(&c.acc("other"), &a, json!({"router": {"set_routes": {"set": [{"domain": g.pick(&pool), "route": gen_route(g)}]}}}), &[]);
                check!(r.is_err(), "a stranger set a route");
                c.unchanged(&before, "a refused route")?;
            }
        }
        let off = if g.bool() { Some(if g.bool() { *g.pick(&pool) } else { g.domain() }) } else { None };
        paged |= check_pages(g, &table, off, &list)?;
        check_eq!(c.q(&a, json!({"router": {"domains": {}}}))?["domains"], json!(table.keys().collect::<Vec<_>>()), "domains");
        for _ in 0..3 {
            let d = if g.chance(4, 5) { *g.pick(&pool) } else { g.domain() };
            let got = c.q(&a, json!({"router": {"get_route": {"domain": d}}}))?;
            check_eq!(got["route"], json!({"domain": d, "route": table.get(&d).cloned().unwrap_or(V::Null)}), "route of {d}");
        }
    }
    for d in &pool {
        let got = c.q(&a, json!({"router": {"get_route": {"domain": d}}}))?;
        check_eq!(got["route"]["route"], table.get(d).cloned().unwrap_or(V::Null), "route of {d} at the end");
    }
    if over && cleared && paged {
        g.nontrivial();
    }
    Ok(())
}

fn gas_of(c: &Chain, igp: &str, q: V) -> Result<Vec<(u32, V)>, String> {
    let v = c.q(igp, json!({"igp": q}))?;
    v["gas"].as_array().ok_or("no gas")?.iter().map(|p| Ok((p[0].as_u64().ok_or("no domain")? as u32, p[1].clone()))).collect()
}

fn others(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let owner = c.acc("owner");
    let (mut over, mut removed, mut paged) = (false, false, false);
    if g.bool() {
        let igp = super::igp::new_igp(&c, &owner, &owner, "uatom", 77);
        let pool = gen_pool(g);
        let mut table: BTreeMap<u32, V> = BTreeMap::new();
        let list = |off: Option<&u32>, limit: Option<u32>, order: Option<&str>| gas_of(&c, &igp, json!({"list_gas_for_domains": page_query(json!(off), limit, order)}));
        let ops = g.list(10, 40, |g| g.weighted(&[5, 2]));
        for op in ops {
            if op == 0 {
                let n = g.idx(30);
                let set: Vec<(u32, V)> = (0..n).map(|_| (*g.pick(&pool), json!(g.amount(u128::MAX).to_string()))).collect();
                c.ok(&owner, &igp, json!({"set_gas_for_domain": {"config": set}}));
                g.log(|| format!("gas of {} domains set", set.len()));
                for (d, v) in set {
                    over |= table.insert(d, v).is_some();
                }
            } else {
                let set: Vec<u32> = g.list(4, 12, |g| *g.pick(&pool));
                c.ok(&owner, &igp, json!({"unset_gas_for_domain": {"domains": set}}));
                g.log(|| format!("gas of {} domains unset", set.len()));
                for d in set {
                    removed |= table.remove(&d).is_some();
                }
            }
            let off = if g.bool() { Some(if g.bool() { *g.pick(&pool) } else { g.domain() }) } else { None };
            paged |= check_pages(g, &table, off, &list)?;
            let have: Vec<u32> = table.keys().cloned().collect();
            if !have.is_empty() {
                let ask: Vec<u32> = g.list(3, 8, |g| *g.pick(&have));
                check_eq!(gas_of(&c, &igp, json!({"gas_for_domain": {"domains": ask}}))?, ask.iter().map(|d| (*d, table[d].clone())).collect::<Vec<_>>(), "gas for {ask:?}");
            }
        }
    } else {
        let hook = c.make(HOOK_CUSTOM, &owner, json!({"owner": owner}));
        let domains = super::isms::gen_domains(g, 2);
        let n = *g.pick(&[3usize, 12, 33]);
        let mut pool: Vec<Vec<u8>> = (0..n).map(|_| gen_wire(g)).collect();
        for i in 0..3.min(n) {
            let mut p = pool[i].clone();
            let k = g.idx(32);
            p[k] ^= 1 << g.below(8);
            pool.push(p);
        }
        let mut tables: [BTreeMap<Vec<u8>, V>; 2] = Default::default();
        let ops = g.list(10, 40, |g| g.weighted(&[5, 2, 1]));
        for op in ops {
            if op == 0 {
                let n = 1 + g.idx(25);
                let set: Vec<(usize, Vec<u8>, String)> = (0..n).map(|_| (g.idx(2), g.pick(&pool).clone(), gen_account(g, &c))).collect();
                let j: Vec<V> = set.iter().map(|(d, r, h)| json!({"dest_domain": domains[*d], "recipient": hx(r), "hook": h})).collect();
                c.ok(&owner, &hook, if n == 1 { json!({"register_custom_hook": j[0]}) } else { json!({"register_custom_hooks": j}) });
                g.log(|| format!("{n} hooks registered"));
                for (d, r, h) in set {
                    over |= tables[d].insert(r, json!(h)).is_some();
                }
            } else if op == 1 {
                let n = 1 + g.idx(6);
                let set: Vec<(usize, Vec<u8>)> = (0..n).map(|_| (g.idx(2), g.pick(&pool).clone())).collect();
                let j: Vec<V> = set.iter().map(|(d, r)| json!({"dest_domain": domains[*d], "recipient": hx(r)})).collect();
                c.ok(&owner, &hook, if n == 1 { json!({"clear_custom_hook": j[0]}) } else { json!({"clear_custom_hooks": j}) });
                g.log(|| format!("{n} hooks cleared"));
                for (d, r) in set {
                    removed |= tables[d].remove(&r).is_some();
                }
            } else {
                // a recipient that is not 32 bytes
                let before = c.state();
                let len = *g.pick(&[0usize, 20, 31, 33, 64]);
                let bad = g.bytes(len);
                let good = json!({"dest_domain": domains[0], "recipient": hx(&pool[0]), "hook": owner});
                let r = c.x(&owner, &hook, json!({"register_custom_hooks": [good, {"dest_domain": domains[0], "recipient": hx(&bad), "hook": owner}]}), &[]);
                check!(r.is_err(), "a hook for a recipient of {} bytes was registered", bad.len());
                c.unchanged(&before, "a refused registration")?;
            }
            let w = g.idx(2);
            let list = |off: Option<&Vec<u8>>, limit: Option<u32>, order: Option<&str>| -> Result<Vec<(Vec<u8>, V)>, String> {
                let mut q = page_query(json!(off.map(|o| hx(o))), limit, order);
                q["dest_domain"] = json!(domains[w]);
                let v = c.q(&hook, json!({"custom_routing_hook": {"custom_hooks": q}}))?;
                v["custom_hooks"]
                    .as_array()
                    .ok_or("no hooks")?
                    .iter()
                    .map(|h| {
                        check_eq!(h["dest_domain"], json!(domains[w]), "domain of a listed hook");
                        Ok((unhex(&h["recipient"]), h["hook"].clone()))
                    })
                    .collect()
            };
            let off = if g.bool() { Some(if g.bool() { g.pick(&pool).clone() } else { gen_wire(g) }) } else { None };
            paged |= check_pages(g, &tables[w], off, &list)?;
            for _ in 0..3 {
                let (w, r) = (g.idx(2), g.pick(&pool).clone());
                let got = c.q(&hook, json!({"custom_routing_hook": {"custom_hook": {"dest_domain": domains[w], "recipient": hx(&r)}}}));
                match (got, tables[w].get(&r)) {
                    (Ok(v), Some(h)) => check_eq!(v, json!({"dest_domain": domains[w], "recipient": hx(&r), "hook": h}), "custom hook"),
                    (Ok(v), None) => check!(v["hook"].is_null(), "an unregistered custom hook is reported: {v}"),
                    (Err(e), Some(_)) => return Err(format!("a registered custom hook is not reported: {e}")),
                    (Err(_), None) => {}
                }
            }
        }
    }
    if over && removed && paged {
        g.nontrivial();
    }
    Ok(())
}
