//! Helpers shared by the properties: JSON requests, standard set-ups and common queries.
use crate::chain::{Chain, State, Tx};
use crate::codes::*;
use crate::engine::G;
use crate::refs;
use cosmwasm_std::{Coin, Uint128};
pub use serde_json::{json, Value as V};

pub fn hx(b: &[u8]) -> String {
    refs::hex(b)
}
pub fn unhex(v: &V) -> Vec<u8> {
    let s = v.as_str().unwrap_or("!");
    parse_hex(s).unwrap_or_else(|| format!("<not hex: {v}>").into_bytes())
}
pub fn parse_hex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
pub fn coin(a: u128, d: &str) -> Coin {
    Coin { denom: d.into(), amount: Uint128::new(a) }
}
pub fn coins(v: &[(u128, &str)]) -> Vec<Coin> {
    v.iter().filter(|c| c.0 > 0).map(|c| coin(c.0, c.1)).collect()
}
pub fn jcoin(c: &Coin) -> V {
    json!({"denom": c.denom, "amount": c.amount.to_string()})
}
pub fn jcoins(c: &[Coin]) -> V {
    V::Array(c.iter().map(jcoin).collect())
}
/// Amounts per denomination, zeroes dropped.
pub type Bag = std::collections::BTreeMap<String, u128>;
pub fn bag(c: &[Coin]) -> Bag {
    let mut b = Bag::new();
    for c in c {
        if !c.amount.is_zero() {
            *b.entry(c.denom.clone()).or_insert(0) += c.amount.u128();
        }
    }
    b
}
pub fn bag_coins(b: &Bag) -> Vec<Coin> {
    b.iter().filter(|v| *v.1 > 0).map(|(d, a)| coin(*a, d)).collect()
}
pub fn bag_add(a: &mut Bag, b: &Bag) {
    for (d, v) in b {
        let e = a.entry(d.clone()).or_insert(0);
        *e = e.saturating_add(*v);
    }
    a.retain(|_, v| *v > 0);
}
/// a - b, `None` if not covered.
pub fn bag_sub(a: &Bag, b: &Bag) -> Option<Bag> {
    let mut a = a.clone();
    for (d, v) in b {
        if *v == 0 {
            continue;
        }
        let e = a.get_mut(d)?;
        *e = e.checked_sub(*v)?;
    }
    a.retain(|_, v| *v > 0);
    Some(a)
}
pub fn parse_coins(v: &V) -> Result<Vec<Coin>, String> {
    v.as_array()
        .ok_or("not a coin list")?
        .iter()
        .map(|c| {
            let a = c["amount"].as_str().and_then(|s| s.parse().ok()).ok_or("bad amount")?;
            Ok(coin(a, c["denom"].as_str().ok_or("bad denom")?))
        })
        .collect()
}

impl Chain {
    pub fn x(&self, sender: &str, contract: &str, msg: V, funds: &[Coin]) -> Result<Tx, String> {
        self.exec_raw(sender, contract, msg.to_string().as_bytes(), funds)
    }
    /// Execution that every contract has to accept.
    pub fn ok(&self, sender: &str, contract: &str, msg: V) -> Tx {
        let m = msg.to_string();
        match self.x(sender, contract, msg, &[]) {
            Ok(t) => t,
            Err(e) => panic!("valid request {m} refused: {e}"),
        }
    }
    pub fn q(&self, contract: &str, msg: V) -> Result<V, String> {
        let b = self.query_raw(contract, msg.to_string().as_bytes())?;
        serde_json::from_slice(&b).map_err(|e| format!("undecodable answer: {e}"))
    }
    pub fn new_contract(&self, code: usize, sender: &str, msg: V) -> Result<String, String> {
        self.inst_raw(code, sender, msg.to_string().as_bytes(), &[]).map(|v| v.0)
    }
    /// Instantiation with arguments every contract has to accept.
    pub fn make(&self, code: usize, sender: &str, msg: V) -> String {
        let m = msg.to_string();
        match self.new_contract(code, sender, msg) {
            Ok(a) => a,
            Err(e) => panic!("instantiating {} with {m} failed: {e}", CODES[code].name),
        }
    }
    pub fn mock(&self, cfg: &Cfg) -> String {
        self.inst(MOCK, &self.acc("deployer"), cfg)
    }
    pub fn set_mock(&self, mock: &str, cfg: &Cfg) {
        self.exec(&self.acc("deployer"), mock, &MockExec::SetCfg(Box::new(cfg.clone())), &[]).expect("harness: set mock");
    }
    pub fn wire(&self, addr: &str) -> [u8; 32] {
        refs::addr_to_wire(self.hrp(), addr)
    }
    pub fn bag(&self, addr: &str) -> Bag {
        bag(&self.balances(addr))
    }
    /// `Err` describing what differs if the state is not the given one.
    pub fn unchanged(&self, before: &State, what: &str) -> Result<(), String> {
        let now = self.state();
        if &now == before {
            Ok(())
        } else {
            Err(format!("{what} changed state: {}", before.diff(&now)))
        }
    }
}

pub const HRPS: [&str; 6] = ["osmo", "cosmos", "neutron", "a", "inj", "dydx"];

pub fn gen_chain(g: &mut G) -> Chain {
    Chain::new(g.pick::<&str>(&HRPS))
}

/// Address of the next contract: usually 32 bytes, sometimes 20, sometimes with leading zeroes.
pub fn odd_address(g: &mut G, c: &Chain) {
    match g.below(6) {
        4 => {
            let mut b = g.bytes(20);
            b[19] |= 1;
            c.set_next_addr(b)
        }
        5 => {
            let mut b = g.bytes(32);
            let n = g.range(1, 11) as usize;
            b[..n].fill(0);
            b[11] |= 1;
            b[31] |= 1;
            c.set_next_addr(b)
        }
        _ => {}
    }
}

/// Account of 20 or 32 bytes, sometimes with leading zeroes; never the address of a contract.
pub fn gen_account(g: &mut G, c: &Chain) -> String {
    let n = if g.bool() { 32 } else { 20 };
    let mut b = g.bytes(n);
    b[n - 1] &= 0xfe;
    if g.chance(1, 4) {
        let z = g.range(1, if n == 32 { 11 } else { 12 }) as usize;
        b[..z].fill(0);
    }
    if n == 32 {
        b[11] |= 1;
    }
    c.addr(&b)
}

/// Different accounts.
pub fn gen_accounts(g: &mut G, c: &Chain, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for i in 0..n {
        let mut a = gen_account(g, c);
        if v.contains(&a) {
            a = c.addr(&refs::keccak(&[&[i as u8]])[..20]);
        }
        v.push(a);
    }
    v
}

pub fn mailbox(c: &Chain, owner: &str, domain: u32) -> String {
    c.make(MAILBOX, owner, json!({"hrp": c.hrp(), "owner": owner, "domain": domain}))
}

/// Mailbox with mock hooks and module installed (in this order: ism, default hook, required hook).
pub fn full_mailbox(c: &Chain, owner: &str, domain: u32) -> (String, String, String, String) {
    let m = mailbox(c, owner, domain);
    let (i, d, r) = (c.mock(&Cfg::default()), c.mock(&Cfg::default()), c.mock(&Cfg::default()));
    c.ok(owner, &m, json!({"set_default_ism": {"ism": i}}));
    c.ok(owner, &m, json!({"set_default_hook": {"hook": d}}));
    c.ok(owner, &m, json!({"set_required_hook": {"hook": r}}));
    (m, i, d, r)
}

#[derive(Clone, Debug)]
pub struct Disp {
    pub dest: u32,
    pub recipient: Vec<u8>,
    pub body: Vec<u8>,
    pub hook: Option<String>,
    pub metadata: Option<Vec<u8>>,
}
impl Disp {
    pub fn inner(&self) -> V {
        json!({
            "dest_domain": self.dest,
            "recipient_addr": hx(&self.recipient),
            "msg_body": hx(&self.body),
            "hook": self.hook,
            "metadata": self.metadata.as_ref().map(|m| hx(m)),
        })
    }
    pub fn msg(&self) -> V {
        json!({"dispatch": self.inner()})
    }
    pub fn quote(&self, sender: &str) -> V {
        json!({"hook": {"quote_dispatch": {"sender": sender, "msg": self.inner()}}})
    }
    /// The message a dispatch of this request has to produce.
    pub fn expect(&self, c: &Chain, sender: &str, nonce: u32, origin: u32) -> Result<refs::RefMsg, String> {
        Ok(refs::RefMsg {
            version: 3,
            nonce,
            origin,
            sender: c.wire(sender),
            dest: self.dest,
            recipient: self.recipient.clone().try_into().map_err(|_| format!("a recipient of {} bytes was accepted", self.recipient.len()))?,
            body: self.body.clone(),
        })
    }
    /// The request as found in a trace.
    pub fn parse(v: &V) -> Option<Disp> {
        let d = v.get("dispatch")?;
        Some(Disp {
            dest: d["dest_domain"].as_u64()? as u32,
            recipient: parse_hex(d["recipient_addr"].as_str()?)?,
            body: parse_hex(d["msg_body"].as_str()?)?,
            hook: d.get("hook").and_then(|h| h.as_str()).map(|s| s.to_string()),
            metadata: d.get("metadata").and_then(|h| h.as_str()).and_then(parse_hex),
        })
    }
}

/// Message body, seldom a very long one.
pub fn gen_body(g: &mut G, max: usize) -> Vec<u8> {
    if g.chance(1, 250) {
        let n = *g.pick(&[255usize, 256, 1024, 4096, 65_535, 65_536, 70_001]);
        return g.fill(n);
    }
    g.blob(max)
}

/// Request with a 32-byte recipient.
pub fn gen_disp(g: &mut G) -> Disp {
    Disp {
        dest: g.domain(),
        recipient: gen_wire(g),
        body: gen_body(g, 120),
        hook: None,
        metadata: if g.bool() { Some(gen_body(g, 80)) } else { None },
    }
}

/// 32 bytes, sometimes with leading zeroes or repeated bytes.
pub fn gen_wire(g: &mut G) -> Vec<u8> {
    let mut b = g.bytes(32);
    match g.below(4) {
        1 => {
            let n = g.range(1, 32) as usize;
            b[..n].fill(0)
        }
        2 => {
            let v = g.byte();
            b.fill(v)
        }
        _ => {}
    }
    b
}

pub fn nonce(c: &Chain, m: &str) -> u64 {
    c.q(m, json!({"mailbox": {"nonce": {}}})).ok().and_then(|v| v["nonce"].as_u64()).unwrap_or(u64::MAX)
}
/// Latest dispatched id, `None` if the query fails (nothing dispatched).
pub fn latest(c: &Chain, m: &str) -> Option<Vec<u8>> {
    c.q(m, json!({"mailbox": {"latest_dispatch_id": {}}})).ok().map(|v| unhex(&v["message_id"]))
}
pub fn delivered(c: &Chain, m: &str, id: &[u8]) -> Result<bool, String> {
    c.q(m, json!({"mailbox": {"message_delivered": {"id": hx(id)}}}))?["delivered"].as_bool().ok_or("no answer".into())
}
pub fn process(metadata: &[u8], message: &[u8]) -> V {
    json!({"process": {"metadata": hx(metadata), "message": hx(message)}})
}
pub fn post_dispatch(metadata: &[u8], message: &[u8]) -> V {
    json!({"post_dispatch": {"metadata": hx(metadata), "message": hx(message)}})
}
pub fn quote_hook(c: &Chain, hook: &str, metadata: &[u8], message: &[u8]) -> Result<Vec<Coin>, String> {
    let v = c.q(hook, json!({"hook": {"quote_dispatch": {"metadata": hx(metadata), "message": hx(message)}}}))?;
    parse_coins(&v["fees"])
}
pub fn verify(c: &Chain, ism: &str, metadata: &[u8], message: &[u8]) -> Result<bool, String> {
    let v = c.q(ism, json!({"ism": {"verify": {"metadata": hx(metadata), "message": hx(message)}}}))?;
    v["verified"].as_bool().ok_or_else(|| "no answer".into())
}
pub fn verify_info(c: &Chain, ism: &str, message: &[u8]) -> Result<(u64, Vec<Vec<u8>>), String> {
    let v = c.q(ism, json!({"ism": {"verify_info": {"message": hx(message)}}}))?;
    let t = v["threshold"].as_u64().ok_or("no threshold")?;
    Ok((t, v["validators"].as_array().ok_or("no validators")?.iter().map(unhex).collect()))
}
pub fn owner(c: &Chain, a: &str) -> Result<String, String> {
    let v = c.q(a, json!({"ownable": {"get_owner": {}}}))?;
    Ok(v["owner"].as_str().unwrap_or("").to_string())
}
pub fn pending_owner(c: &Chain, a: &str) -> Result<Option<String>, String> {
    let v = c.q(a, json!({"ownable": {"get_pending_owner": {}}}))?;
    Ok(v["pending_owner"].as_str().map(|s| s.to_string()))
}
/// Route administration of hooks and the paymaster (address) or warp routes (hex).
pub fn set_route(domain: u32, route: Option<&str>) -> V {
    json!({"router": {"set_route": {"set": {"domain": domain, "route": route}}}})
}
pub fn short_err(r: &Result<Tx, String>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => format!("refused ({})", e.chars().take(90).collect::<String>()),
    }
}
