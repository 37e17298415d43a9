//! C33: a new contract reports and uses exactly the configuration it was given.
use super::isms::gen_domains;
use super::{Prop, SIM};
use crate::chain::{pb_parse, Act, Chain};
use crate::codes::*;
use crate::engine::{Sub, G};
use crate::refs::{self, RefMsg};
use crate::world::*;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        assumptions: vec![SIM, "an address is valid if it is lower case bech32 with the prefix of the chain; bridged denominations are those of the osmosis token factory"],
        subs: vec![
            Sub { name: "instantiation", cases: (48_000, 200_000), rule: "a contract with a configuration other than the simplest was created, or a faulty one was refused", run: c33 },
            Sub { name: "bridged-token", cases: (12_000, 50_000), rule: "the token of a bridged route was created with more than its name", run: c33_token },
        ],
    }]
}

/// Something that is not an address of the chain.
pub fn bad_address(g: &mut G, c: &Chain) -> String {
    let good = gen_account(g, c);
    let mut b = good.clone().into_bytes();
    match g.below(6) {
        0 => String::new(),
        1 => {
            // one changed character of the data part: the checksum fails
            let from = c.hrp().len() + 1;
            let i = from + g.idx(b.len() - from);
            b[i] = if b[i] == b'q' { b'p' } else { b'q' };
            String::from_utf8(b).unwrap()
        }
        2 => refs::bech32(if c.hrp() == "osmo" { "cosmos" } else { "osmo" }, &g.bytes(20)),
        3 => {
            b.pop();
            String::from_utf8(b).unwrap()
        }
        4 => g.pick::<&str>(&["owner", "0x", "osmo", "factory/a/b", "1", "osmo1"]).to_string(),
        _ => hx(&c.wire(&good)),
    }
}

/// The values an instantiation is given, some of them faulty.
struct Fields<'a> {
    c: &'a Chain,
    faults: Vec<&'static str>,
    odds: u64,
}

impl Fields<'_> {
    fn fault(&mut self, g: &mut G, what: &'static str) -> bool {
        let f = g.chance(self.odds, 12);
        if f {
            self.faults.push(what);
        }
        f
    }
    fn addr(&mut self, g: &mut G, what: &'static str) -> String {
        if self.fault(g, what) {
            bad_address(g, self.c)
        } else {
            gen_account(g, self.c)
        }
    }
}

fn probe(g: &mut G, origin: u32, dest: u32) -> Vec<u8> {
    RefMsg { version: 3, nonce: 0, origin, sender: g.bytes32(), dest, recipient: g.bytes32(), body: vec![] }.encode()
}

fn c33(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let code = REPO[g.idx(REPO.len())].0;
    let sender = gen_account(g, &c);
    let mut f = Fields { c: &c, faults: vec![], odds: if g.chance(2, 5) { 2 } else { 0 } };
    let domains = gen_domains(g, 4);
    let real = matches!(code, VA).then(|| (mailbox(&c, &sender, domains[0]), domains[0]));
    // (query, key, expected answer)
    let mut want: Vec<(V, &str, V)> = vec![];
    let mut fails: Vec<V> = vec![];
    let mut rich = false;
    let owned = !matches!(code, VA | HOOK_MERKLE);
    let owner = if owned { f.addr(g, "owner") } else { String::new() };
    let list = |g: &mut G, f: &mut Fields, what, least: usize| -> Vec<String> {
        let n = least + g.idx(5);
        (0..n).map(|_| f.addr(g, what)).collect()
    };
    let lower = |g: &mut G, f: &mut Fields| {
        if f.fault(g, "prefix") {
            g.pick::<&str>(&["Osmo", "OSMO", "oSmo", "osmO"]).to_string()
        } else if g.chance(1, 4) {
            g.pick::<&str>(&["osmo", "a", "abcdefghijklmnop"]).to_string()
        } else {
            c.hrp().to_string()
        }
    };
    let empty_page = json!({"router": {"list_routes": {"offset": null, "limit": null, "order": null}}});
    let msg = match code {
        MAILBOX => {
            let (hrp, d) = (lower(g, &mut f), g.domain());
            rich = d > 1;
            want.extend([
                (json!({"mailbox": {"hrp": {}}}), "hrp", json!(hrp)),
                (json!({"mailbox": {"local_domain": {}}}), "local_domain", json!(d)),
                (json!({"mailbox": {"nonce": {}}}), "nonce", json!(0)),
                (json!({"mailbox": {"message_delivered": {"id": hx(&g.bytes(32))}}}), "delivered", json!(false)),
            ]);
            // nothing is configured yet, so nothing can be sent or received
            for k in ["default_ism", "default_hook", "required_hook"] {
                fails.push(json!({"mailbox": {k: {}}}));
            }
            json!({"hrp": hrp, "owner": owner, "domain": d})
        }
        VA => {
            let (m, d) = real.clone().unwrap();
            let m = if f.fault(g, "mailbox") {
                if g.bool() {
                    bad_address(g, &c)
                } else {
                    // an account without a mailbox
                    gen_account(g, &c)
                }
            } else {
                m
            };
            rich = d > 1;
            want.extend([
                (json!({"mailbox": {}}), "mailbox", refs::bech32_parse(&m).map_or(V::Null, |p| json!(hx(&p.1)))),
                (json!({"local_domain": {}}), "local_domain", json!(d)),
                (json!({"get_announced_validators": {}}), "validators", json!([])),
            ]);
            json!({"hrp": c.hrp(), "mailbox": m})
        }
        HOOK_MERKLE => {
            let m = f.addr(g, "mailbox");
            rich = true;
            let root = hx(&refs::tree_root(&[]));
            want.extend([
                (json!({"hook": {"mailbox": {}}}), "mailbox", json!(m)),
                (json!({"merkle_hook": {"count": {}}}), "count", json!(0)),
                (json!({"merkle_hook": {"root": {}}}), "root", json!(root)),
                (json!({"merkle_hook": {"check_point": {}}}), "root", json!(root)),
            ]);
            json!({"mailbox": m})
        }
        HOOK_FEE => {
            let fee = coin(g.amount(u128::MAX), g.pick::<&str>(&["uatom", "uosmo", "ibc/27"]));
            rich = !fee.amount.is_zero();
            want.push((json!({"fee_hook": {"fee": {}}}), "fee", jcoin(&fee)));
            want.push((json!({"hook": {"quote_dispatch": {"metadata": "", "message": hx(&probe(g, 1, 2))}}}), "fees", if rich { json!([jcoin(&fee)]) } else { json!([]) }));
            json!({"owner": owner, "fee": jcoin(&fee)})
        }
        HOOK_PAUSABLE | ISM_PAUSABLE => {
            let p = g.bool();
            rich = p;
            want.push((json!({"pausable": {"pause_info": {}}}), "paused", json!(p)));
            if code == ISM_PAUSABLE {
                let q = json!({"ism": {"verify": {"metadata": "", "message": hx(&probe(g, 1, 2))}}});
                want.push((json!({"ism": {"module_type": {}}}), "type", json!("null")));
                if p {
                    fails.push(q);
                } else {
                    want.push((q, "verified", json!(true)));
                }
            }
            json!({"owner": owner, "paused": p})
        }
        HOOK_ROUTING | HOOK_CUSTOM | HOOK_FALLBACK => {
            want.push((empty_page, "routes", json!([])));
            want.push((json!({"router": {"domains": {}}}), "domains", json!([])));
            fails.push(json!({"hook": {"quote_dispatch": {"metadata": "", "message": hx(&probe(g, 1, 2))}}}));
            json!({"owner": owner})
        }
        HOOK_AGGREGATE => {
            let h = list(g, &mut f, "hook", 0);
            rich = h.len() > 1;
            want.push((json!({"aggregate_hook": {"hooks": {}}}), "hooks", json!(h)));
            json!({"owner": owner, "hooks": h})
        }
        IGP => {
            let (hrp, b, n) = (lower(g, &mut f), f.addr(g, "beneficiary"), g.amount(u128::MAX));
            rich = n > 1;
            want.extend([
                (json!({"igp": {"beneficiary": {}}}), "beneficiary", json!(b)),
                (json!({"igp": {"default_gas": {}}}), "gas", json!(n.to_string())),
                (json!({"igp": {"list_gas_for_domains": {"offset": null, "limit": null, "order": null}}}), "gas", json!([])),
                (empty_page, "routes", json!([])),
            ]);
            fails.push(json!({"igp": {"quote_gas_payment": {"dest_domain": domains[0], "gas_amount": "1"}}}));
            json!({"hrp": hrp, "owner": owner, "gas_token": g.pick::<&str>(&["uatom", "ugas"]), "beneficiary": b, "default_gas_usage": n.to_string()})
        }
        ORACLE => {
            for d in &domains {
                fails.push(json!({"oracle": {"get_exchange_rate_and_gas_price": {"dest_domain": d}}}));
            }
            json!({"owner": owner})
        }
        ISM_MULTISIG => {
            want.push((json!({"ism": {"module_type": {}}}), "type", json!("message_id_multisig")));
            for d in &domains {
                fails.push(json!({"ism": {"verify": {"metadata": hx(&[0; 133]), "message": hx(&probe(g, *d, 2))}}}));
            }
            json!({"owner": owner})
        }
        ISM_ROUTING => {
            let mods = list(g, &mut f, "module", 0);
            let set: Vec<(u32, String)> = mods.into_iter().map(|m| (*g.pick(&domains), m)).collect();
            let last: BTreeMap<u32, String> = set.iter().cloned().collect();
            rich = last.len() > 1;
            for d in &domains {
                let q = json!({"routing_ism": {"route": {"message": hx(&probe(g, *d, 2))}}});
                match last.get(d) {
                    Some(m) => want.push((q, "ism", json!(m))),
                    None => fails.push(q),
                }
            }
            want.push((json!({"ism": {"module_type": {}}}), "type", json!("routing")));
            json!({"owner": owner, "isms": set.iter().map(|(d, m)| json!({"domain": d, "address": m})).collect::<Vec<_>>()})
        }
        ISM_AGGREGATE => {
            let least = g.below(2) as usize;
            let mods = list(g, &mut f, "module", least);
            let t = match g.below(8) {
                0 => 0,
                1 => mods.len() as u64 + 1,
                2 => g.below(256),
                _ => 1 + g.below((mods.len() as u64).max(1)),
            };
            if t == 0 || t > mods.len() as u64 {
                f.faults.push("threshold");
            }
            rich = mods.len() > 1;
            want.push((json!({"aggregate_ism": {"isms": {}}}), "isms", json!(mods)));
            want.push((json!({"aggregate_ism": {"isms": {}}}), "threshold", json!(t)));
            want.push((json!({"ism": {"module_type": {}}}), "type", json!("aggregation")));
            json!({"owner": owner, "isms": mods, "threshold": t})
        }
        WARP_NATIVE | WARP_CW20 => {
            let m = f.addr(g, "mailbox");
            rich = true;
            let (token, reported) = if code == WARP_NATIVE {
                let d = g.pick::<&str>(&["uatom", "ibc/27", "factory/x/y"]).to_string();
                (json!({"denom": d}), json!({"native": {"fungible": {"denom": d}}}))
            } else {
                let t = f.addr(g, "token");
                (json!({"address": t}), json!({"c_w20": {"contract": t}}))
            };
            want.extend([
                (json!({"token_default": {"token_type": {}}}), "type", reported),
                (json!({"token_default": {"token_mode": {}}}), "mode", json!("collateral")),
                (empty_page, "routes", json!([])),
                (json!({"ism_specifier": {"interchain_security_module": []}}), "ism", V::Null),
                (json!({"connection": {"get_ism": {}}}), "ism", V::Null),
                (json!({"connection": {"get_hook": {}}}), "hook", V::Null),
            ]);
            json!({"token": {"collateral": token}, "hrp": c.hrp(), "owner": owner, "mailbox": m})
        }
        _ => unreachable!("harness: code"),
    };
    odd_address(g, &c);
    let before = c.state();
    let r = c.new_contract(code, &sender, msg.clone());
    g.log(|| format!("{} sends {} {msg}, faulty: {:?} -> {}", crate::chain::short(&sender), CODES[code].name, f.faults, r.as_ref().map_or_else(|e| e.clone(), |_| "created".into())));
    let a = match r {
        Err(e) => {
            check!(!f.faults.is_empty(), "{} was refused a valid configuration: {e}", CODES[code].name);
            c.unchanged(&before, "a refused instantiation")?;
            g.nontrivial();
            return Ok(());
        }
        Ok(a) => a,
    };
    check!(f.faults.is_empty(), "{} accepted a faulty {:?}", CODES[code].name, f.faults);
    if owned {
        want.push((json!({"ownable": {"get_owner": {}}}), "owner", json!(owner)));
        want.push((json!({"ownable": {"get_pending_owner": {}}}), "pending_owner", V::Null));
    }
    for (q, k, v) in &want {
        let got = c.q(&a, q.clone()).map_err(|e| format!("{q} of a new {} fails: {e}", CODES[code].name))?;
        check_eq!(got[*k], *v, "{k} in the answer of a new {} to {q}", CODES[code].name);
    }
    for q in &fails {
        let got = c.q(&a, q.clone());
        check!(got.is_err(), "a new {} answers {q} with {got:?}", CODES[code].name);
    }
    // and it is the owner it was given who is in charge
    if owned {
        let next = gen_account(g, &c);
        let offer = super::admin::ownable(code, json!({"init_ownership_transfer": {"next_owner": next}}));
        if sender != owner {
            check!(c.x(&sender, &a, offer.clone(), &[]).is_err(), "the creator of a {} rules it instead of its owner", CODES[code].name);
        }
        check!(c.x(&owner, &a, offer, &[]).is_ok(), "the owner given to a new {} has no power over it", CODES[code].name);
    }
    if rich || owned && sender != owner {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- tokens of bridged routes

fn strings(f: &[(u64, Vec<u8>)], n: u64) -> Vec<String> {
    f.iter().filter(|v| v.0 == n).map(|v| String::from_utf8_lossy(&v.1).to_string()).collect()
}

fn one(f: &[(u64, Vec<u8>)], n: u64) -> String {
    strings(f, n).pop().unwrap_or_default()
}

/// Bank metadata as JSON, from its protobuf form.
fn metadata(b: &[u8]) -> Option<V> {
    let f = pb_parse(b)?;
    let units: Vec<V> = f
        .iter()
        .filter(|v| v.0 == 2)
        .map(|u| {
            let u = pb_parse(&u.1)?;
            let e = u.iter().find(|v| v.0 == 2).map(|v| u64::from_be_bytes(v.1.clone().try_into().unwrap_or_default())).unwrap_or(0);
            Some(json!({"denom": one(&u, 1), "exponent": e.to_string(), "aliases": strings(&u, 3)}))
        })
        .collect::<Option<_>>()?;
    Some(json!({"description": one(&f, 1), "denom_units": units, "base": one(&f, 3), "display": one(&f, 4), "name": one(&f, 5), "symbol": one(&f, 6)}))
}

fn c33_token(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    c.strict_events();
    let (sender, owner) = (gen_account(g, &c), gen_account(g, &c));
    let m = mailbox(&c, &sender, g.domain());
    let native = g.bool();
    let word = |g: &mut G| g.string(12);
    let mut rich = false;
    odd_address(g, &c);
    if native {
        let sub = g.pick::<&str>(&["tok", "u", "usdc", "a/b", "hyp.ETH"]).to_string();
        let meta = if g.bool() {
            rich = true;
            let n = g.below(4);
            let units: Vec<V> = (0..n)
                .map(|_| {
                    let e = *g.pick(&[0u64, 1, 6, 18, 300, u32::MAX as u64]);
                    let k = g.below(3);
                    let aliases: Vec<String> = (0..k).map(|_| word(g)).collect();
                    json!({"denom": word(g), "exponent": e.to_string(), "aliases": aliases})
                })
                .collect();
            json!({"description": word(g), "denom_units": units, "base": word(g), "display": word(g), "name": word(g), "symbol": word(g)})
        } else {
            V::Null
        };
        let msg = json!({"token": {"bridged": {"denom": sub, "metadata": meta}}, "hrp": c.hrp(), "owner": owner, "mailbox": m});
        let (a, tx) = c.inst_raw(WARP_NATIVE, &sender, msg.to_string().as_bytes(), &[]).map_err(|e| format!("a bridged route was refused: {e}"))?;
        g.log(|| format!("{msg} -> {:?}", tx.steps));
        let denom = format!("factory/{a}/{sub}");
        check_eq!(c.q(&a, json!({"token_default": {"token_type": {}}}))?["type"], json!({"native": {"fungible": {"denom": denom}}}), "token of the route");
        check_eq!(c.q(&a, json!({"token_default": {"token_mode": {}}}))?["mode"], json!("bridged"), "mode");
        check_eq!(c.state().factory.get(&denom).cloned(), Some(a.clone()), "administrator of the new denomination");
        check_eq!(c.state().factory.len(), 1, "denominations created");
        check_eq!(c.supply(&denom), 0, "supply of a new token");
        let set: Vec<V> = tx
            .steps
            .iter()
            .filter_map(|s| match &s.act {
                Act::DenomMetadata { by, value } => Some((by == &a, pb_parse(value).and_then(|f| f.iter().find(|v| v.0 == 2).and_then(|v| metadata(&v.1))))),
                _ => None,
            })
            .map(|(mine, m)| if mine { m.unwrap_or(json!("unreadable")) } else { json!("foreign") })
            .collect();
        check_eq!(set, if meta.is_null() { vec![] } else { vec![meta] }, "metadata given to the bank");
    } else {
        let (name, symbol, decimals) = (g.pick::<&str>(&["bridged token", "wETH", "abc"]), g.pick::<&str>(&["TOK", "wETH", "hyUSDC"]), g.below(19));
        let n = g.below(3) as usize;
        rich = decimals > 0;
        let with: BTreeMap<String, u128> = (0..n).map(|_| (gen_account(g, &c), g.amount(1 << 100))).collect();
        let code = *g.pick(&[CW20]);
        let mint = match g.below(3) {
            // a minter of somebody's choice is not accepted as such
            0 => json!({"minter": sender, "cap": "5"}),
            1 => json!({"minter": owner, "cap": null}),
            _ => V::Null,
        };
        let init = json!({"name": name, "symbol": symbol, "decimals": decimals, "mint": mint, "initial_balances": with.iter().map(|(a, v)| json!({"address": a, "amount": v.to_string()})).collect::<Vec<_>>()});
        let msg = json!({"token": {"bridged": {"code_id": code, "init_msg": init}}, "hrp": c.hrp(), "owner": owner, "mailbox": m});
        let r = c.inst_raw(WARP_CW20, &sender, msg.to_string().as_bytes(), &[]);
        g.log(|| format!("{msg} -> {:?}", r.as_ref().map(|x| &x.1.steps)));
        let (a, tx) = match r {
            Ok(v) => v,
            // whether a proposed minter is read at all is not asserted
            Err(_) if !mint.is_null() => return Ok(()),
            Err(e) => return Err(format!("a bridged route was refused: {e}")),
        };
        let ty = c.q(&a, json!({"token_default": {"token_type": {}}}))?;
        let token = ty["type"]["c_w20"]["contract"].as_str().ok_or("no token")?.to_string();
        check_eq!(c.q(&a, json!({"token_default": {"token_mode": {}}}))?["mode"], json!("bridged"), "mode");
        let made: Vec<&String> = tx.steps.iter().filter_map(|s| match &s.act { Act::Inst { sender, contract } if *sender == a => Some(contract), _ => None }).collect();
        check_eq!(made, vec![&token], "contracts created by the route");
        check_eq!(c.q(&token, json!({"minter": {}}))?, json!({"minter": a, "cap": null}), "minter of the new token");
        let info = c.q(&token, json!({"token_info": {}}))?;
        let total: u128 = with.values().sum();
        check_eq!(info, json!({"name": name, "symbol": symbol, "decimals": decimals, "total_supply": total.to_string()}), "description of the new token");
        for (who, v) in &with {
            check_eq!(c.q(&token, json!({"balance": {"address": who}}))?["balance"], json!(v.to_string()), "initial balance");
        }
        // nobody but the route mints
        for who in [&sender, &owner, &m] {
            check!(c.x(who, &token, json!({"mint": {"recipient": who, "amount": "1"}}), &[]).is_err(), "somebody else mints the bridged token");
        }
    }
    if rich {
        g.nontrivial();
    }
    Ok(())
}
