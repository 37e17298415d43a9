//! A small deterministic CosmWasm chain: accounts, bank, contracts with storage, messages,
//! sub-messages with replies, queries, atomic transactions, and the token factory messages the
//! native warp route uses.  A panic inside a contract aborts the message, as a wasm trap does.
use crate::engine::guarded;
use crate::refs;
use cosmwasm_std::{
    from_json, to_json_binary, Addr, Api, BankMsg, BankQuery, Binary, BlockInfo, CanonicalAddr, Coin, ContractInfo,
    ContractResult, CosmosMsg, Deps, DepsMut, Empty, Env, Event, MessageInfo, Order, Querier, QuerierResult,
    QuerierWrapper, QueryRequest, Record, RecoverPubkeyError, Reply, ReplyOn, Response, StdError, StdResult, Storage,
    SubMsg, SubMsgResponse, SubMsgResult, SystemError, SystemResult, Timestamp, Uint128, VerificationError, WasmMsg,
    WasmQuery,
};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

pub type CResult = Result<Response, String>;

pub struct Code {
    pub name: &'static str,
    pub instantiate: fn(DepsMut, Env, MessageInfo, &[u8]) -> CResult,
    pub execute: fn(DepsMut, Env, MessageInfo, &[u8]) -> CResult,
    pub query: fn(Deps, Env, &[u8]) -> Result<Binary, String>,
    pub migrate: Option<fn(DepsMut, Env) -> CResult>,
    pub reply: Option<fn(DepsMut, Env, Reply) -> CResult>,
}

type Store = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Contract {
    pub code: usize,
    pub store: Rc<Store>,
}

/// Whole state of the chain; comparing two of them decides "nothing changed".
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct State {
    pub bank: Rc<BTreeMap<(String, String), u128>>,
    pub contracts: Rc<BTreeMap<String, Contract>>,
    pub factory: Rc<BTreeMap<String, String>>,
    pub instances: u64,
}

impl State {
    pub fn diff(&self, o: &State) -> String {
        let mut out = vec![];
        if self.bank != o.bank {
            let keys: std::collections::BTreeSet<_> = self.bank.keys().chain(o.bank.keys()).collect();
            for k in keys {
                let (a, b) = (self.bank.get(k), o.bank.get(k));
                if a != b {
                    out.push(format!("balance {}/{}: {a:?} -> {b:?}", short(&k.0), k.1));
                }
            }
        }
        if self.contracts != o.contracts {
            for (a, c) in o.contracts.iter() {
                match self.contracts.get(a) {
                    None => out.push(format!("new contract {}", short(a))),
                    Some(p) if p != c => {
                        let keys: std::collections::BTreeSet<_> = p.store.keys().chain(c.store.keys()).collect();
                        for k in keys {
                            let (x, y) = (p.store.get(k), c.store.get(k));
                            if x != y {
                                let s = |v: Option<&Vec<u8>>| v.map(|v| String::from_utf8_lossy(v).chars().take(80).collect::<String>());
                                out.push(format!("storage of {} key {:?}: {:?} -> {:?}", short(a), String::from_utf8_lossy(k), s(x), s(y)));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        out.truncate(8);
        out.join("; ")
    }
}

pub fn short(a: &str) -> String {
    if a.len() > 20 {
        format!("{}..{}", &a[..8.min(a.len())], &a[a.len() - 5..])
    } else {
        a.to_string()
    }
}

/// Something a contract or account did in a transaction that was not rolled back.
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Exec { sender: String, contract: String, msg: Vec<u8>, funds: Vec<Coin> },
    Inst { sender: String, contract: String },
    Send { from: String, to: String, coins: Vec<Coin> },
    Mint { by: String, coin: Coin },
    Burn { by: String, coin: Coin },
    DenomMetadata { by: String, value: Vec<u8> },
}

#[derive(Clone, Debug)]
pub struct Step {
    pub depth: u32,
    pub act: Act,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub contract: String,
    pub ty: String,
    pub attrs: Vec<(String, String)>,
}
impl Ev {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(a, _)| a == k).map(|v| v.1.as_str())
    }
}

#[derive(Clone, Debug, Default)]
pub struct Tx {
    pub events: Vec<Ev>,
    pub data: Option<Binary>,
    pub steps: Vec<Step>,
}
impl Tx {
    /// Calls executed on a contract, in order.
    pub fn calls(&self, contract: &str) -> Vec<(String, serde_json::Value, Vec<Coin>)> {
        self.steps
            .iter()
            .filter_map(|s| match &s.act {
                Act::Exec { sender, contract: c, msg, funds } if c == contract => {
                    Some((sender.clone(), serde_json::from_slice(msg).unwrap_or(serde_json::Value::Null), funds.clone()))
                }
                _ => None,
            })
            .collect()
    }
    /// Direct calls made by the given contract, in order.
    pub fn calls_by(&self, sender: &str) -> Vec<(String, serde_json::Value, Vec<Coin>)> {
        self.steps
            .iter()
            .filter_map(|s| match &s.act {
                Act::Exec { sender: f, contract, msg, funds } if f == sender => {
                    Some((contract.clone(), serde_json::from_slice(msg).unwrap_or(serde_json::Value::Null), funds.clone()))
                }
                _ => None,
            })
            .collect()
    }
    pub fn ev(&self, contract: &str, ty: &str) -> Vec<&Ev> {
        self.events.iter().filter(|e| e.contract == contract && e.ty == ty).collect()
    }
}

struct Inner {
    hrp: String,
    state: RefCell<State>,
    steps: RefCell<Vec<Step>>,
    height: Cell<u64>,
    txs: Cell<u64>,
    qdepth: Cell<u32>,
    calls: Cell<u32>,
    next_addr: RefCell<Option<Vec<u8>>>,
    strict: Cell<bool>,
}

#[derive(Clone)]
pub struct Chain(Rc<Inner>);

const MAX_DEPTH: u32 = 40;
const MAX_CALLS: u32 = 10_000;

impl Chain {
    pub fn new(hrp: &str) -> Chain {
        Chain(Rc::new(Inner {
            hrp: hrp.to_string(),
            state: RefCell::new(State::default()),
            steps: RefCell::new(vec![]),
            height: Cell::new(1000),
            txs: Cell::new(0),
            qdepth: Cell::new(0),
            calls: Cell::new(0),
            next_addr: RefCell::new(None),
            strict: Cell::new(false),
        }))
    }
    /// Independent copy of the chain.
    pub fn fork(&self) -> Chain {
        let c = Chain::new(&self.0.hrp);
        *c.0.state.borrow_mut() = self.0.state.borrow().clone();
        c.0.height.set(self.0.height.get());
        c.0.txs.set(self.0.txs.get());
        c.0.strict.set(self.0.strict.get());
        c
    }
    /// Independent copy of the chain in an earlier state.
    pub fn fork_at(&self, s: &State) -> Chain {
        let c = self.fork();
        *c.0.state.borrow_mut() = s.clone();
        c
    }
    /// From now on events are refused as wasmd (before 0.51) and cw-multi-test refuse them: empty
    /// attribute keys or values, keys starting with an underscore, event types of less than two
    /// characters.
    pub fn strict_events(&self) {
        self.0.strict.set(true);
    }
    pub fn hrp(&self) -> &str {
        &self.0.hrp
    }
    pub fn state(&self) -> State {
        self.0.state.borrow().clone()
    }
    /// Puts the chain into the given state.
    pub fn reset(&self, s: &State) {
        *self.0.state.borrow_mut() = s.clone();
    }
    pub fn advance(&self, n: u64) {
        self.0.height.set(self.0.height.get() + n);
    }
    pub fn addr(&self, raw: &[u8]) -> String {
        refs::bech32(&self.0.hrp, raw)
    }
    /// Deterministic account; every third name is a 32-byte account.
    pub fn acc(&self, name: &str) -> String {
        let h = refs::keccak(&[b"account", name.as_bytes()]);
        if h[31] % 3 == 0 {
            self.addr(&h)
        } else {
            self.addr(&h[..20])
        }
    }
    pub fn set_next_addr(&self, raw: Vec<u8>) {
        *self.0.next_addr.borrow_mut() = Some(raw);
    }
    pub fn mint(&self, addr: &str, denom: &str, amt: u128) {
        let mut s = self.0.state.borrow_mut();
        let bank = Rc::make_mut(&mut s.bank);
        let e = bank.entry((addr.into(), denom.into())).or_insert(0);
        *e = e.checked_add(amt).expect("harness: mint overflow");
        if *e == 0 {
            bank.remove(&(addr.to_string(), denom.to_string()));
        }
    }
    pub fn balance(&self, addr: &str, denom: &str) -> u128 {
        self.0.state.borrow().bank.get(&(addr.to_string(), denom.to_string())).copied().unwrap_or(0)
    }
    pub fn balances(&self, addr: &str) -> Vec<Coin> {
        self.0
            .state
            .borrow()
            .bank
            .iter()
            .filter(|(k, v)| k.0 == addr && **v > 0)
            .map(|(k, v)| Coin { denom: k.1.clone(), amount: Uint128::new(*v) })
            .collect()
    }
    pub fn supply(&self, denom: &str) -> u128 {
        self.0.state.borrow().bank.iter().filter(|(k, _)| k.1 == denom).fold(0u128, |a, (_, v)| a.saturating_add(*v))
    }
    pub fn raw(&self, contract: &str, key: &[u8]) -> Option<Vec<u8>> {
        self.0.state.borrow().contracts.get(contract).and_then(|c| c.store.get(key).cloned())
    }
    pub fn set_raw(&self, contract: &str, key: &[u8], v: Option<Vec<u8>>) {
        let mut s = self.0.state.borrow_mut();
        let c = Rc::make_mut(&mut s.contracts).get_mut(contract).expect("harness: no contract");
        let st = Rc::make_mut(&mut c.store);
        match v {
            Some(v) => {
                st.insert(key.to_vec(), v);
            }
            None => {
                st.remove(key);
            }
        }
    }
    pub fn store_of(&self, contract: &str) -> BTreeMap<Vec<u8>, Vec<u8>> {
        (*self.0.state.borrow().contracts[contract].store).clone()
    }

    // ------------------------------------------------------------ transactions

    fn begin(&self) -> State {
        self.0.steps.borrow_mut().clear();
        self.0.calls.set(0);
        self.state()
    }
    fn end(&self, before: State, r: Result<(Vec<Ev>, Option<Binary>), String>) -> Result<Tx, String> {
        // several transactions per block, and now and then a long time without any
        let n = self.0.txs.get() + 1;
        self.0.txs.set(n);
        let step = match n % 12 {
            2 | 3 | 6 => 0,
            5 => 97,
            8 => 20_011,
            11 => 3_000_017,
            _ => 1,
        };
        self.0.height.set(self.0.height.get() + step);
        match r {
            Ok((events, data)) => Ok(Tx { events, data, steps: std::mem::take(&mut *self.0.steps.borrow_mut()) }),
            Err(e) => {
                *self.0.state.borrow_mut() = before;
                self.0.steps.borrow_mut().clear();
                Err(e)
            }
        }
    }
    pub fn exec_raw(&self, sender: &str, contract: &str, msg: &[u8], funds: &[Coin]) -> Result<Tx, String> {
        let b = self.begin();
        let r = self.do_exec(0, sender, contract, msg, funds);
        self.end(b, r)
    }
    pub fn exec(&self, sender: &str, contract: &str, msg: &impl Serialize, funds: &[Coin]) -> Result<Tx, String> {
        let m = to_json_binary(msg).map_err(|e| format!("harness: {e}")).unwrap();
        self.exec_raw(sender, contract, &m, funds)
    }
    /// Like exec, discarding every effect.
    pub fn dry(&self, sender: &str, contract: &str, msg: &impl Serialize, funds: &[Coin]) -> Result<Tx, String> {
        self.fork().exec(sender, contract, msg, funds)
    }
    pub fn inst_raw(&self, code: usize, sender: &str, msg: &[u8], funds: &[Coin]) -> Result<(String, Tx), String> {
        let b = self.begin();
        let r = self.do_inst(0, sender, code, msg, funds);
        let mut addr = String::new();
        let r = r.map(|(a, ev, d)| {
            addr = a;
            (ev, d)
        });
        self.end(b, r).map(|t| (addr, t))
    }
    pub fn try_inst(&self, code: usize, sender: &str, msg: &impl Serialize) -> Result<String, String> {
        self.inst_raw(code, sender, &to_json_binary(msg).unwrap(), &[]).map(|v| v.0)
    }
    /// Instantiation with arguments every contract has to accept.
    pub fn inst(&self, code: usize, sender: &str, msg: &impl Serialize) -> String {
        match self.try_inst(code, sender, msg) {
            Ok(a) => a,
            Err(e) => panic!("instantiating {} with valid arguments failed: {e}", crate::codes::CODES[code].name),
        }
    }
    pub fn send(&self, from: &str, to: &str, coins: &[Coin]) -> Result<Tx, String> {
        let b = self.begin();
        let r = self.do_send(0, from, to, coins, false).map(|_| (vec![], None));
        self.end(b, r)
    }
    pub fn migrate(&self, contract: &str) -> Result<Tx, String> {
        let b = self.begin();
        let r = (|| {
            let code = self.code_of(contract)?;
            let f = code.migrate.ok_or("no migrate")?;
            let env = self.env(contract);
            let resp = self.call(contract, |d| f(d, env))?;
            self.finish(0, contract, resp)
        })();
        self.end(b, r)
    }

    fn code_of(&self, contract: &str) -> Result<&'static Code, String> {
        let s = self.0.state.borrow();
        let c = s.contracts.get(contract).ok_or_else(|| format!("no such contract: {contract}"))?;
        Ok(&crate::codes::CODES[c.code])
    }
    pub fn is_contract(&self, a: &str) -> bool {
        self.0.state.borrow().contracts.contains_key(a)
    }
    fn env(&self, contract: &str) -> Env {
        Env {
            block: BlockInfo {
                height: self.0.height.get(),
                time: Timestamp::from_seconds(1_600_000_000 + self.0.height.get() * 6),
                chain_id: "sim".into(),
            },
            transaction: None,
            contract: ContractInfo { address: Addr::unchecked(contract) },
        }
    }
    fn call(&self, contract: &str, f: impl FnOnce(DepsMut) -> CResult) -> Result<Response, String> {
        let n = self.0.calls.get() + 1;
        self.0.calls.set(n);
        if n > MAX_CALLS {
            return Err("out of gas".into());
        }
        let mut st = SimStore { chain: self.clone(), contract: contract.to_string() };
        let api = SimApi { hrp: self.0.hrp.clone() };
        let q = SimQuerier { chain: self.clone() };
        let qd = self.0.qdepth.get();
        let r = guarded(|| f(DepsMut { storage: &mut st, api: &api, querier: QuerierWrapper::new(&q) }));
        self.0.qdepth.set(qd);
        r?
    }
    fn push(&self, depth: u32, act: Act) {
        self.0.steps.borrow_mut().push(Step { depth, act });
    }

    fn do_exec(&self, depth: u32, sender: &str, contract: &str, msg: &[u8], funds: &[Coin]) -> Result<(Vec<Ev>, Option<Binary>), String> {
        if depth > MAX_DEPTH {
            return Err("call depth exceeded".into());
        }
        let code = self.code_of(contract)?;
        let funds = normalize(funds)?;
        self.push(depth, Act::Exec { sender: sender.into(), contract: contract.into(), msg: msg.to_vec(), funds: funds.clone() });
        if !funds.is_empty() {
            self.do_send(depth, sender, contract, &funds, true)?;
        }
        let env = self.env(contract);
        let info = MessageInfo { sender: Addr::unchecked(sender), funds };
        let resp = self.call(contract, |d| (code.execute)(d, env, info, msg))?;
        self.finish(depth, contract, resp)
    }
    fn do_inst(&self, depth: u32, sender: &str, code: usize, msg: &[u8], funds: &[Coin]) -> Result<(String, Vec<Ev>, Option<Binary>), String> {
        let c = crate::codes::CODES.get(code).ok_or("no such code")?;
        let addr = {
            let mut s = self.0.state.borrow_mut();
            s.instances += 1;
            let raw = self.0.next_addr.borrow_mut().take().unwrap_or_else(|| refs::keccak(&[b"contract", &s.instances.to_be_bytes()]).to_vec());
            let mut addr = refs::bech32(&self.0.hrp, &raw);
            if s.contracts.contains_key(&addr) {
                addr = refs::bech32(&self.0.hrp, &refs::keccak(&[b"contract", &s.instances.to_be_bytes()]));
            }
            Rc::make_mut(&mut s.contracts).insert(addr.clone(), Contract { code, store: Rc::default() });
            addr
        };
        let funds = normalize(funds)?;
        self.push(depth, Act::Inst { sender: sender.into(), contract: addr.clone() });
        if !funds.is_empty() {
            self.do_send(depth, sender, &addr, &funds, true)?;
        }
        let env = self.env(&addr);
        let info = MessageInfo { sender: Addr::unchecked(sender), funds };
        let resp = self.call(&addr, |d| (c.instantiate)(d, env, info, msg))?;
        let (ev, data) = self.finish(depth, &addr, resp)?;
        Ok((addr, ev, data))
    }
    fn do_send(&self, depth: u32, from: &str, to: &str, coins: &[Coin], silent: bool) -> Result<(), String> {
        let coins = normalize(coins)?;
        if coins.is_empty() {
            return Err("invalid coins".into());
        }
        refs::acc_bytes(&self.0.hrp, to).ok_or_else(|| format!("invalid address {to}"))?;
        let mut s = self.0.state.borrow_mut();
        let bank = Rc::make_mut(&mut s.bank);
        for c in &coins {
            let k = (from.to_string(), c.denom.clone());
            let have = bank.get(&k).copied().unwrap_or(0);
            let rest = have.checked_sub(c.amount.u128()).ok_or_else(|| format!("insufficient funds: {} of {} < {}", have, c.denom, c.amount))?;
            if rest == 0 {
                bank.remove(&k);
            } else {
                bank.insert(k, rest);
            }
            let e = bank.entry((to.to_string(), c.denom.clone())).or_insert(0);
            *e = e.checked_add(c.amount.u128()).ok_or("overflow")?;
        }
        drop(s);
        if !silent {
            self.push(depth, Act::Send { from: from.into(), to: to.into(), coins });
        }
        Ok(())
    }

    fn finish(&self, depth: u32, contract: &str, resp: Response) -> Result<(Vec<Ev>, Option<Binary>), String> {
        let mut events = vec![];
        if self.0.strict.get() {
            let attrs = resp.attributes.iter().chain(resp.events.iter().flat_map(|e| &e.attributes));
            if let Some(a) = attrs.filter(|a| a.key.trim().is_empty() || a.value.trim().is_empty() || a.key.trim().starts_with('_')).next() {
                return Err(format!("event attribute {:?} = {:?} is not allowed", a.key, a.value));
            }
            if let Some(e) = resp.events.iter().find(|e| e.ty.trim().len() < 2) {
                return Err(format!("event type {:?} is not allowed", e.ty));
            }
        }
        if !resp.attributes.is_empty() {
            events.push(Ev { contract: contract.into(), ty: "wasm".into(), attrs: resp.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect() });
        }
        for e in resp.events {
            events.push(to_ev(contract, e));
        }
        let mut data = resp.data;
        for sub in resp.messages {
            let SubMsg { id, msg, reply_on, .. } = sub;
            let snap = self.state();
            let nsteps = self.0.steps.borrow().len();
            let r = self.do_msg(depth + 1, contract, msg);
            let (reply, evs) = match r {
                Ok((evs, d)) => {
                    let reply = matches!(reply_on, ReplyOn::Always | ReplyOn::Success).then(|| {
                        SubMsgResult::Ok(SubMsgResponse { events: evs.iter().map(|e| { let mut v = Event::new(e.ty.clone()); v.attributes = e.attrs.iter().map(|(k, v)| cosmwasm_std::Attribute { key: k.clone(), value: v.clone() }).collect(); v }).collect(), data: d })
                    });
                    (reply, evs)
                }
                Err(e) => {
                    *self.0.state.borrow_mut() = snap;
                    self.0.steps.borrow_mut().truncate(nsteps);
                    if matches!(reply_on, ReplyOn::Always | ReplyOn::Error) && e != "out of gas" {
                        (Some(SubMsgResult::Err(e)), vec![])
                    } else {
                        return Err(e);
                    }
                }
            };
            events.extend(evs);
            if let Some(result) = reply {
                let code = self.code_of(contract)?;
                let f = code.reply.ok_or("contract has no reply")?;
                let env = self.env(contract);
                let resp = self.call(contract, |d| f(d, env, Reply { id, result }))?;
                let (ev, d) = self.finish(depth, contract, resp)?;
                events.extend(ev);
                if d.is_some() {
                    data = d;
                }
            }
        }
        Ok((events, data))
    }

    fn do_msg(&self, depth: u32, sender: &str, msg: CosmosMsg) -> Result<(Vec<Ev>, Option<Binary>), String> {
        match msg {
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                let (ev, d) = self.do_exec(depth, sender, &contract_addr, &msg, &funds)?;
                Ok((ev, Some(Binary(pb_bytes(1, d.map(|v| v.0).unwrap_or_default().as_slice())))))
            }
            CosmosMsg::Wasm(WasmMsg::Instantiate { code_id, msg, funds, .. }) => {
                let (addr, ev, d) = self.do_inst(depth, sender, code_id as usize, &msg, &funds)?;
                let mut data = pb_bytes(1, addr.as_bytes());
                if let Some(d) = d {
                    data.extend(pb_bytes(2, &d.0));
                }
                Ok((ev, Some(Binary(data))))
            }
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                self.do_send(depth, sender, &to_address, &amount, false)?;
                Ok((vec![], None))
            }
            CosmosMsg::Bank(BankMsg::Burn { amount }) => {
                for c in normalize(&amount)? {
                    self.burn(depth, sender, &c)?;
                }
                Ok((vec![], None))
            }
            CosmosMsg::Stargate { type_url, value } => self.stargate(depth, sender, &type_url, &value),
            m => Err(format!("unsupported message {m:?}")),
        }
    }

    fn burn(&self, depth: u32, from: &str, c: &Coin) -> Result<(), String> {
        let mut s = self.0.state.borrow_mut();
        let bank = Rc::make_mut(&mut s.bank);
        let k = (from.to_string(), c.denom.clone());
        let rest = bank.get(&k).copied().unwrap_or(0).checked_sub(c.amount.u128()).ok_or("insufficient funds to burn")?;
        if rest == 0 {
            bank.remove(&k);
        } else {
            bank.insert(k, rest);
        }
        drop(s);
        self.push(depth, Act::Burn { by: from.into(), coin: c.clone() });
        Ok(())
    }

    fn stargate(&self, depth: u32, sender: &str, url: &str, value: &[u8]) -> Result<(Vec<Ev>, Option<Binary>), String> {
        let f = pb_parse(value).ok_or("bad protobuf")?;
        let str_at = |n: u64| -> String { f.iter().rev().find(|v| v.0 == n).map(|v| String::from_utf8_lossy(&v.1).to_string()).unwrap_or_default() };
        if str_at(1) != sender {
            return Err("stargate message not signed by its sender".into());
        }
        let coin = || -> Result<Coin, String> {
            let c = f.iter().find(|v| v.0 == 2).ok_or("no coin")?;
            let c = pb_parse(&c.1).ok_or("bad coin")?;
            let g = |n: u64| c.iter().find(|v| v.0 == n).map(|v| String::from_utf8_lossy(&v.1).to_string()).unwrap_or_default();
            let amount: u128 = g(2).parse().map_err(|_| "bad amount")?;
            if amount == 0 {
                return Err("invalid coins".to_string());
            }
            Ok(Coin { denom: g(1), amount: Uint128::new(amount) })
        };
        match url {
            "/osmosis.tokenfactory.v1beta1.MsgCreateDenom" => {
                let denom = format!("factory/{sender}/{}", str_at(2));
                let mut s = self.0.state.borrow_mut();
                let fac = Rc::make_mut(&mut s.factory);
                if fac.contains_key(&denom) {
                    return Err("denom exists".into());
                }
                fac.insert(denom.clone(), sender.to_string());
                Ok((vec![], Some(Binary(pb_bytes(1, denom.as_bytes())))))
            }
            "/osmosis.tokenfactory.v1beta1.MsgMint" => {
                let c = coin()?;
                if self.0.state.borrow().factory.get(&c.denom).map(|v| v.as_str()) != Some(sender) {
                    return Err("not the denom admin".into());
                }
                let to = match str_at(3) {
                    s if s.is_empty() => sender.to_string(),
                    s => s,
                };
                self.supply(&c.denom).checked_add(c.amount.u128()).ok_or("overflow")?;
                let mut s = self.0.state.borrow_mut();
                let bank = Rc::make_mut(&mut s.bank);
                let e = bank.entry((to, c.denom.clone())).or_insert(0);
                *e = e.checked_add(c.amount.u128()).ok_or("overflow")?;
                drop(s);
                self.push(depth, Act::Mint { by: sender.into(), coin: c });
                Ok((vec![], Some(Binary(vec![]))))
            }
            "/osmosis.tokenfactory.v1beta1.MsgBurn" => {
                let c = coin()?;
                if self.0.state.borrow().factory.get(&c.denom).map(|v| v.as_str()) != Some(sender) {
                    return Err("not the denom admin".into());
                }
                let from = match str_at(3) {
                    s if s.is_empty() => sender.to_string(),
                    s => s,
                };
                self.burn(depth, &from, &c)?;
                Ok((vec![], Some(Binary(vec![]))))
            }
            "/osmosis.tokenfactory.v1beta1.MsgSetDenomMetadata" => {
                self.push(depth, Act::DenomMetadata { by: sender.into(), value: value.to_vec() });
                Ok((vec![], Some(Binary(vec![]))))
            }
            _ => Err(format!("unsupported stargate message {url}")),
        }
    }

    // ------------------------------------------------------------ queries

    pub fn query_bin(&self, contract: &str, msg: &[u8]) -> Result<Binary, String> {
        let depth = self.0.qdepth.get();
        if depth > 30 {
            return Err("query depth exceeded".into());
        }
        self.0.calls.set(self.0.calls.get() + 1);
        if self.0.calls.get() > MAX_CALLS {
            return Err("out of gas".into());
        }
        self.0.qdepth.set(depth + 1);
        let r = (|| {
            let code = self.code_of(contract)?;
            let st = SimStore { chain: self.clone(), contract: contract.to_string() };
            let api = SimApi { hrp: self.0.hrp.clone() };
            let q = SimQuerier { chain: self.clone() };
            let env = self.env(contract);
            guarded(|| (code.query)(Deps { storage: &st, api: &api, querier: QuerierWrapper::new(&q) }, env, msg))?
        })();
        self.0.qdepth.set(depth);
        r
    }
    pub fn query_raw(&self, contract: &str, msg: &[u8]) -> Result<Binary, String> {
        self.0.calls.set(0);
        self.query_bin(contract, msg)
    }
    pub fn query<T: DeserializeOwned>(&self, contract: &str, msg: &impl Serialize) -> Result<T, String> {
        let b = self.query_raw(contract, &to_json_binary(msg).unwrap())?;
        from_json(&b).map_err(|e| format!("undecodable answer: {e}"))
    }

    fn answer(&self, req: QueryRequest<Empty>) -> Result<Binary, String> {
        let enc = |v: StdResult<Binary>| v.map_err(|e| e.to_string());
        match req {
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => self.query_bin(&contract_addr, &msg),
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => Ok(Binary(self.raw(&contract_addr, &key).unwrap_or_default())),
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let amount = Coin { amount: Uint128::new(self.balance(&address, &denom)), denom };
                enc(to_json_binary(&serde_json::json!({ "amount": amount })))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => enc(to_json_binary(&serde_json::json!({ "amount": self.balances(&address) }))),
            QueryRequest::Bank(BankQuery::Supply { denom }) => {
                let amount = Coin { amount: Uint128::new(self.supply(&denom)), denom };
                enc(to_json_binary(&serde_json::json!({ "amount": amount })))
            }
            q => Err(format!("unsupported query {q:?}")),
        }
    }
}

fn to_ev(contract: &str, e: Event) -> Ev {
    Ev { contract: contract.into(), ty: e.ty, attrs: e.attributes.into_iter().map(|a| (a.key, a.value)).collect() }
}

/// Drops zero coins, merges duplicates and sorts by denomination, as the SDK does.
pub fn normalize(coins: &[Coin]) -> Result<Vec<Coin>, String> {
    let mut m: BTreeMap<String, u128> = BTreeMap::new();
    for c in coins {
        let e = m.entry(c.denom.clone()).or_insert(0);
        *e = e.checked_add(c.amount.u128()).ok_or("overflow")?;
    }
    Ok(m.into_iter().filter(|v| v.1 > 0).map(|(denom, a)| Coin { denom, amount: Uint128::new(a) }).collect())
}

// ---------------------------------------------------------------- protobuf (the little needed)

fn varint(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    while v >= 128 {
        o.push((v as u8 & 127) | 128);
        v >>= 7;
    }
    o.push(v as u8);
    o
}
fn pb_bytes(field: u64, b: &[u8]) -> Vec<u8> {
    let mut o = varint(field << 3 | 2);
    o.extend(varint(b.len() as u64));
    o.extend_from_slice(b);
    o
}
pub fn pb_parse(b: &[u8]) -> Option<Vec<(u64, Vec<u8>)>> {
    let mut i = 0;
    let rd = |i: &mut usize| -> Option<u64> {
        let (mut v, mut s) = (0u64, 0);
        loop {
            let c = *b.get(*i)?;
            *i += 1;
            v |= ((c & 127) as u64).checked_shl(s)?;
            if c < 128 {
                return Some(v);
            }
            s += 7;
        }
    };
    let mut out = vec![];
    while i < b.len() {
        let k = rd(&mut i)?;
        match k & 7 {
            0 => {
                let v = rd(&mut i)?;
                out.push((k >> 3, v.to_be_bytes().to_vec()));
            }
            2 => {
                let n = rd(&mut i)? as usize;
                out.push((k >> 3, b.get(i..i.checked_add(n)?)?.to_vec()));
                i += n;
            }
            _ => return None,
        }
    }
    Some(out)
}

// ---------------------------------------------------------------- environment of a contract

struct SimStore {
    chain: Chain,
    contract: String,
}

impl Storage for SimStore {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.chain.raw(&self.contract, key)
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        if let (Some(a), Some(b)) = (start, end) {
            if a >= b {
                return Box::new(std::iter::empty());
            }
        }
        use std::ops::Bound::*;
        let lo = start.map(|v| Included(v.to_vec())).unwrap_or(Unbounded);
        let hi = end.map(|v| Excluded(v.to_vec())).unwrap_or(Unbounded);
        let store = self.chain.0.state.borrow().contracts.get(&self.contract).map(|c| c.store.clone()).unwrap_or_default();
        let v: Vec<Record> = store.range((lo, hi)).map(|(k, v)| (k.clone(), v.clone())).collect();
        match order {
            Order::Ascending => Box::new(v.into_iter()),
            Order::Descending => Box::new(v.into_iter().rev()),
        }
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        if value.is_empty() {
            panic!("value must not be empty");
        }
        self.chain.set_raw(&self.contract, key, Some(value.to_vec()));
    }
    fn remove(&mut self, key: &[u8]) {
        self.chain.set_raw(&self.contract, key, None);
    }
}

struct SimQuerier {
    chain: Chain,
}
impl Querier for SimQuerier {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(v) => v,
            Err(e) => return SystemResult::Err(SystemError::InvalidRequest { error: e.to_string(), request: bin.into() }),
        };
        SystemResult::Ok(match self.chain.answer(req) {
            Ok(b) => ContractResult::Ok(b),
            Err(e) => ContractResult::Err(e),
        })
    }
}

struct SimApi {
    hrp: String,
}
impl Api for SimApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        refs::acc_bytes(&self.hrp, human).ok_or_else(|| StdError::generic_err("invalid address"))?;
        Ok(Addr::unchecked(human))
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        let b = refs::acc_bytes(&self.hrp, human).ok_or_else(|| StdError::generic_err("invalid address"))?;
        Ok(b.into())
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        if c.len() != 20 && c.len() != 32 {
            return Err(StdError::generic_err("invalid length"));
        }
        Ok(Addr::unchecked(refs::bech32(&self.hrp, c)))
    }
    fn secp256k1_verify(&self, h: &[u8], s: &[u8], k: &[u8]) -> Result<bool, VerificationError> {
        Ok(cosmwasm_crypto::secp256k1_verify(h, s, k)?)
    }
    fn secp256k1_recover_pubkey(&self, h: &[u8], s: &[u8], p: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        Ok(cosmwasm_crypto::secp256k1_recover_pubkey(h, s, p)?)
    }
    fn ed25519_verify(&self, m: &[u8], s: &[u8], k: &[u8]) -> Result<bool, VerificationError> {
        Ok(cosmwasm_crypto::ed25519_verify(m, s, k)?)
    }
    fn ed25519_batch_verify(&self, m: &[&[u8]], s: &[&[u8]], k: &[&[u8]]) -> Result<bool, VerificationError> {
        Ok(cosmwasm_crypto::ed25519_batch_verify(m, s, k)?)
    }
    fn debug(&self, _: &str) {}
}
