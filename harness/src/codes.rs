//! The contracts that can be instantiated on the simulated chain: every contract of the
//! repository, `cw20-base`, and one configurable mock (hook, verification module, recipient).
use crate::chain::{CResult, Code};
use crate::refs;
use cosmwasm_std::{
    from_json, to_json_binary, Addr, Binary, Coin, CosmosMsg, Deps, DepsMut, Env, Event, HexBinary, MessageInfo, Reply, Response, SubMsg,
    Uint128, WasmMsg,
};
use hpl_interface::{
    core::HandleMsg,
    hook::{HookQueryMsg, MailboxResponse, PostDispatchMsg, QuoteDispatchResponse},
    ism::{IsmQueryMsg, IsmSpecifierQueryMsg, IsmType, InterchainSecurityModuleResponse, ModuleTypeResponse, VerifyInfoResponse, VerifyResponse},
};
use serde::{Deserialize, Serialize};

fn s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

macro_rules! code {
    ($name:literal, $($m:ident)::+, $inst:ty, $exec:ty, $query:ty, $reply:expr) => {
        Code {
            name: $name,
            instantiate: |d, e, i, m| $($m)::+::instantiate(d, e, i, from_json::<$inst>(m).map_err(s)?).map_err(s),
            execute: |d, e, i, m| $($m)::+::execute(d, e, i, from_json::<$exec>(m).map_err(s)?).map_err(s),
            query: |d, e, m| $($m)::+::query(d, e, from_json::<$query>(m).map_err(s)?).map_err(s),
            migrate: Some(|d, e| $($m)::+::migrate(d, e, cosmwasm_std::Empty {}).map_err(s)),
            reply: $reply,
        }
    };
}

pub const MAILBOX: usize = 0;
pub const VA: usize = 1;
pub const HOOK_MERKLE: usize = 2;
pub const HOOK_FEE: usize = 3;
pub const HOOK_PAUSABLE: usize = 4;
pub const HOOK_ROUTING: usize = 5;
pub const HOOK_CUSTOM: usize = 6;
pub const HOOK_FALLBACK: usize = 7;
pub const HOOK_AGGREGATE: usize = 8;
pub const IGP: usize = 9;
pub const ORACLE: usize = 10;
pub const ISM_MULTISIG: usize = 11;
pub const ISM_ROUTING: usize = 12;
pub const ISM_AGGREGATE: usize = 13;
pub const ISM_PAUSABLE: usize = 14;
pub const WARP_CW20: usize = 15;
pub const WARP_NATIVE: usize = 16;
pub const CW20: usize = 17;
pub const MOCK: usize = 18;

/// Contracts of the repository: (code, package name).
pub const REPO: [(usize, &str); 17] = [
    (MAILBOX, "hpl-mailbox"),
    (VA, "hpl-validator-announce"),
    (HOOK_MERKLE, "hpl-hook-merkle"),
    (HOOK_FEE, "hpl-hook-fee"),
    (HOOK_PAUSABLE, "hpl-hook-pausable"),
    (HOOK_ROUTING, "hpl-hook-routing"),
    (HOOK_CUSTOM, "hpl-hook-routing-custom"),
    (HOOK_FALLBACK, "hpl-hook-routing-fallback"),
    (HOOK_AGGREGATE, "hpl-hook-aggregate"),
    (IGP, "hpl-igp"),
    (ORACLE, "hpl-igp-oracle"),
    (ISM_MULTISIG, "hpl-ism-multisig"),
    (ISM_ROUTING, "hpl-ism-routing"),
    (ISM_AGGREGATE, "hpl-ism-aggregate"),
    (ISM_PAUSABLE, "hpl-ism-pausable"),
    (WARP_CW20, "hpl-warp-cw20"),
    (WARP_NATIVE, "hpl-warp-native"),
];

use hpl_interface::{core as ic, hook as ih, igp as ig, ism as ii, warp as iw};

pub static CODES: [Code; 19] = [
    code!("mailbox", hpl_mailbox::contract, ic::mailbox::InstantiateMsg, ic::mailbox::ExecuteMsg, ic::mailbox::QueryMsg, None),
    code!("va", hpl_validator_announce::contract, ic::va::InstantiateMsg, ic::va::ExecuteMsg, ic::va::QueryMsg, None),
    code!("hook-merkle", hpl_hook_merkle, ih::merkle::InstantiateMsg, ih::merkle::ExecuteMsg, ih::merkle::QueryMsg, None),
    code!("hook-fee", hpl_hook_fee, ih::fee::InstantiateMsg, ih::fee::ExecuteMsg, ih::fee::QueryMsg, None),
    code!("hook-pausable", hpl_hook_pausable, ih::pausable::InstantiateMsg, ih::pausable::ExecuteMsg, ih::pausable::QueryMsg, None),
    code!("hook-routing", hpl_hook_routing, ih::routing::InstantiateMsg, ih::routing::ExecuteMsg, ih::routing::QueryMsg, None),
    code!("hook-routing-custom", hpl_hook_routing_custom, ih::routing_custom::InstantiateMsg, ih::routing_custom::ExecuteMsg, ih::routing_custom::QueryMsg, None),
    code!("hook-routing-fallback", hpl_hook_routing_fallback, ih::routing_fallback::InstantiateMsg, ih::routing_fallback::ExecuteMsg, ih::routing_fallback::QueryMsg, None),
    code!("hook-aggregate", hpl_hook_aggregate, ih::aggregate::InstantiateMsg, ih::aggregate::ExecuteMsg, ih::aggregate::QueryMsg, None),
    code!("igp", hpl_igp::contract, ig::core::InstantiateMsg, ig::core::ExecuteMsg, ig::core::QueryMsg, None),
    code!("igp-oracle", hpl_igp_oracle::contract, ig::oracle::InstantiateMsg, ig::oracle::ExecuteMsg, ig::oracle::QueryMsg, None),
    code!("ism-multisig", hpl_ism_multisig::contract, ii::multisig::InstantiateMsg, ii::multisig::ExecuteMsg, ii::multisig::QueryMsg, None),
    code!("ism-routing", hpl_ism_routing::contract, ii::routing::InstantiateMsg, ii::routing::ExecuteMsg, ii::routing::QueryMsg, None),
    code!("ism-aggregate", hpl_ism_aggregate, ii::aggregate::InstantiateMsg, ii::aggregate::ExecuteMsg, ii::aggregate::QueryMsg, None),
    code!("ism-pausable", hpl_ism_pausable, ii::pausable::InstantiateMsg, ii::pausable::ExecuteMsg, ii::pausable::QueryMsg, None),
    code!("warp-cw20", hpl_warp_cw20::contract, iw::cw20::InstantiateMsg, iw::cw20::ExecuteMsg, iw::cw20::QueryMsg, Some(|d, e, r| hpl_warp_cw20::contract::reply(d, e, r).map_err(s))),
    code!("warp-native", hpl_warp_native::contract, iw::native::InstantiateMsg, iw::native::ExecuteMsg, iw::native::QueryMsg, Some(|d, e, r| hpl_warp_native::contract::reply(d, e, r).map_err(s))),
    Code {
        name: "cw20",
        instantiate: |d, e, i, m| cw20_base::contract::instantiate(d, e, i, from_json(m).map_err(s)?).map_err(s),
        execute: |d, e, i, m| cw20_base::contract::execute(d, e, i, from_json(m).map_err(s)?).map_err(s),
        query: |d, e, m| cw20_base::contract::query(d, e, from_json(m).map_err(s)?).map_err(s),
        migrate: None,
        reply: None,
    },
    Code { name: "mock", instantiate: mock_inst, execute: mock_exec, query: mock_query, migrate: None, reply: Some(mock_reply) },
];

// ---------------------------------------------------------------- the mock

/// A call a mock makes when it is invoked.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Action {
    pub contract: String,
    pub msg: Binary,
    pub funds: Vec<Coin>,
    /// whether a failure of the call is ignored
    pub swallow: bool,
}

impl Action {
    pub fn new(contract: &str, msg: &impl Serialize, funds: &[Coin], swallow: bool) -> Action {
        Action { contract: contract.into(), msg: to_json_binary(msg).unwrap(), funds: funds.to_vec(), swallow }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub enum Verdict {
    #[default]
    Yes,
    No,
    Error,
    /// approves exactly the metadata [`key_for`] its tag and the message
    Keyed(String),
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Cfg {
    /// fixed part of the hook's quote
    pub quote: Vec<Coin>,
    /// denominations of the part of the quote that depends on message and metadata
    pub keyed: Vec<String>,
    pub salt: String,
    pub quote_fail: bool,
    /// refuse to be called (as a hook or a recipient)
    pub fail: bool,
    /// demand the quoted fee when called as a hook
    pub enforce: bool,
    /// calls made the next time it is invoked
    pub reenter: Vec<Action>,
    pub verdict: Verdict,
    /// module named as a recipient
    pub ism: Option<String>,
    pub ism_fail: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum MockExec {
    PostDispatch(PostDispatchMsg),
    Handle(HandleMsg),
    SetCfg(Box<Cfg>),
    Run { actions: Vec<Action> },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum MockQuery {
    Hook(HookQueryMsg),
    Ism(IsmQueryMsg),
    IsmSpecifier(IsmSpecifierQueryMsg),
}

/// Metadata a keyed module approves for a message.
pub fn key_for(tag: &str, message: &[u8]) -> Vec<u8> {
    let mut k = refs::keccak(&[b"approve", tag.as_bytes(), message]).to_vec();
    // long ones now and then
    if k[0] < 3 {
        let n = 1 << (8 + (k[1] & 7));
        k = k.iter().cycle().take(n).zip(0..).map(|(b, i)| b ^ (i >> 5) as u8).collect();
    }
    k
}

/// Quote of a mock hook.
pub fn mock_quote(c: &Cfg, metadata: &[u8], message: &[u8]) -> Vec<Coin> {
    let mut v = c.quote.clone();
    for d in &c.keyed {
        let h = refs::keccak(&[c.salt.as_bytes(), d.as_bytes(), &(metadata.len() as u32).to_be_bytes(), metadata, message]);
        let a = u16::from_be_bytes([h[0], h[1]]) as u128 % 997;
        if a > 0 {
            v.push(Coin { denom: d.clone(), amount: Uint128::new(a) });
        }
    }
    v
}

pub fn mock_verify_info(tag: &str, message: &[u8]) -> VerifyInfoResponse {
    let h = refs::keccak(&[b"info", tag.as_bytes(), message]);
    VerifyInfoResponse { threshold: h[0], validators: vec![HexBinary::from(h[..20].to_vec())] }
}

fn load(d: &dyn cosmwasm_std::Storage) -> Cfg {
    from_json(d.get(b"cfg").expect("harness: mock cfg")).expect("harness: mock cfg")
}

fn mock_inst(d: DepsMut, _: Env, _: MessageInfo, m: &[u8]) -> CResult {
    let c: Cfg = from_json(m).expect("harness: mock cfg");
    d.storage.set(b"cfg", &to_json_binary(&c).unwrap());
    Ok(Response::new())
}

fn run(actions: Vec<Action>) -> Response {
    let mut r = Response::new();
    for a in actions {
        let m: CosmosMsg = WasmMsg::Execute { contract_addr: a.contract, msg: a.msg, funds: a.funds }.into();
        r = r.add_submessage(if a.swallow { SubMsg::reply_always(m, 7) } else { SubMsg::new(m) });
    }
    r
}

fn mock_exec(d: DepsMut, _: Env, info: MessageInfo, m: &[u8]) -> CResult {
    let m: MockExec = from_json(m).map_err(s)?;
    if let MockExec::SetCfg(c) = m {
        d.storage.set(b"cfg", &to_json_binary(&*c).unwrap());
        return Ok(Response::new());
    }
    if let MockExec::Run { actions } = m {
        return Ok(run(actions));
    }
    let mut c = load(d.storage);
    if c.fail {
        return Err("mock refuses".into());
    }
    if let (MockExec::PostDispatch(p), true) = (&m, c.enforce) {
        for q in crate::chain::normalize(&mock_quote(&c, &p.metadata, &p.message))? {
            if !info.funds.iter().any(|f| f.denom == q.denom && f.amount >= q.amount) {
                return Err("mock was not paid".into());
            }
        }
    }
    let actions = std::mem::take(&mut c.reenter);
    if !actions.is_empty() {
        d.storage.set(b"cfg", &to_json_binary(&c).unwrap());
    }
    // the data is set so that a caller using replies sees some
    Ok(run(actions).set_data(b"mock").add_event(Event::new("mock_called")))
}

fn mock_reply(_: DepsMut, _: Env, r: Reply) -> CResult {
    Ok(Response::new().add_event(Event::new("mock_reply").add_attribute("ok", r.result.is_ok().to_string())))
}

fn mock_query(d: Deps, _: Env, m: &[u8]) -> Result<Binary, String> {
    let c = load(d.storage);
    match from_json::<MockQuery>(m).map_err(s)? {
        MockQuery::Hook(HookQueryMsg::Mailbox {}) => to_json_binary(&MailboxResponse { mailbox: "mock".into() }).map_err(s),
        MockQuery::Hook(HookQueryMsg::QuoteDispatch(q)) => {
            if c.quote_fail {
                return Err("mock does not quote".into());
            }
            to_json_binary(&QuoteDispatchResponse { fees: mock_quote(&c, &q.metadata, &q.message) }).map_err(s)
        }
        MockQuery::Ism(IsmQueryMsg::ModuleType {}) => to_json_binary(&ModuleTypeResponse { typ: IsmType::Null }).map_err(s),
        MockQuery::Ism(IsmQueryMsg::Verify { metadata, message }) => {
            let verified = match &c.verdict {
                Verdict::Yes => true,
                Verdict::No => false,
                Verdict::Error => return Err("mock module fails".into()),
                Verdict::Keyed(t) => metadata.to_vec() == key_for(t, &message),
            };
            to_json_binary(&VerifyResponse { verified }).map_err(s)
        }
        MockQuery::Ism(IsmQueryMsg::VerifyInfo { message }) => {
            let tag = match &c.verdict {
                Verdict::Keyed(t) => t.clone(),
                Verdict::Error => return Err("mock module fails".into()),
                _ => String::new(),
            };
            to_json_binary(&mock_verify_info(&tag, &message)).map_err(s)
        }
        MockQuery::IsmSpecifier(_) => {
            if c.ism_fail {
                return Err("mock does not answer".into());
            }
            to_json_binary(&InterchainSecurityModuleResponse { ism: c.ism.map(Addr::unchecked) }).map_err(s)
        }
    }
}
