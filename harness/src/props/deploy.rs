//! C35 deployment and C36 operation by the scripts (script/**/*.ts), run by harness/ts/worker.cjs against the simulated chain.
use super::{Prop, SIM};
use crate::chain::Chain;
use crate::codes::*;
use crate::engine::{Sub, G};
use crate::refs::{self, RefMsg};
use crate::world::*;
use serde_json::{json, Value as V};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub fn props() -> Vec<Prop> {
    let assumptions = || {
        vec![
            SIM,
            "the scripts are bundled from the working tree and run by Node; the chain clients, the file system, the prompt, the dependency container and fetch are stand-ins, and the command line parser is commander 7 instead of 11",
            "the account that signs for injective and the one that signs for the other clients are the same",
            "numbers of a configuration are below 2^53",
        ]
    };
    vec![
        Prop {
            id: "C35",
            assumptions: assumptions(),
            subs: vec![
                Sub { name: "modules", cases: (10_000, 150_000), rule: "the tree had at least two kinds of modules and at least one list or map of modules", run: modules },
                Sub { name: "systems", cases: (8_000, 100_000), rule: "a part of the system was there already at a later deployment", run: systems },
            ],
        },
        Prop { id: "C36", assumptions: assumptions(), subs: vec![Sub { name: "commands", cases: (8_000, 100_000), rule: "at least three commands did what they are for", run: commands }] },
    ]
}

// ---------------------------------------------------------------- the worker

struct Worker {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

fn start() -> Worker {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let mut child = Command::new("node")
        .arg(format!("{root}/harness/ts/worker.cjs"))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("harness: node");
    let stdin = child.stdin.take().unwrap();
    let stdout = BufReader::new(child.stdout.take().unwrap());
    Worker { child, stdin, stdout }
}

/// Answer to a call of the scripts.
enum Say {
    Ok(V),
    Err(String),
    /// give up on the scripts
    Stop(String),
}

/// Lets the worker do `task`, answering its calls; its last word, or why there is none.
fn work(task: &V, mut answer: impl FnMut(&str, &V) -> Say) -> Result<V, String> {
    WORKER.with(|w| {
        let mut w = w.borrow_mut();
        let wk = w.get_or_insert_with(start);
        let mut line = task.to_string();
        let mut stopped = None;
        loop {
            line.push('\n');
            let sent = wk.stdin.write_all(line.as_bytes()).and_then(|_| wk.stdin.flush());
            let mut got = String::new();
            if sent.is_err() || (&mut wk.stdout).take(1 << 25).read_line(&mut got).unwrap_or(0) == 0 || !got.ends_with('\n') {
                *w = None;
                return Err("the scripts ended without an outcome".into());
            }
            let v: V = serde_json::from_str(&got).expect("harness: line of the worker");
            let Some(call) = v.get("call").and_then(|c| c.as_str()) else {
                return match stopped {
                    Some(e) => Err(e),
                    None => Ok(v),
                };
            };
            line = match answer(call, &v["args"]) {
                Say::Ok(v) => json!({"ok": v}).to_string(),
                Say::Err(e) => json!({"err": e}).to_string(),
                Say::Stop(e) => {
                    stopped = Some(e);
                    json!({"stop": true}).to_string()
                }
            };
        }
    })
}

// ---------------------------------------------------------------- the chain behind it

const NAMES: [(&str, usize); 20] = [
    ("hpl_mailbox", MAILBOX),
    ("hpl_validator_announce", VA),
    ("hpl_ism_aggregate", ISM_AGGREGATE),
    ("hpl_ism_multisig", ISM_MULTISIG),
    ("hpl_ism_pausable", ISM_PAUSABLE),
    ("hpl_ism_routing", ISM_ROUTING),
    ("hpl_igp", IGP),
    ("hpl_hook_aggregate", HOOK_AGGREGATE),
    ("hpl_hook_fee", HOOK_FEE),
    ("hpl_hook_merkle", HOOK_MERKLE),
    ("hpl_hook_pausable", HOOK_PAUSABLE),
    ("hpl_hook_routing", HOOK_ROUTING),
    ("hpl_hook_routing_custom", HOOK_CUSTOM),
    ("hpl_hook_routing_fallback", HOOK_FALLBACK),
    ("hpl_test_mock_hook", MOCK),
    ("hpl_test_mock_ism", MOCK),
    ("hpl_test_mock_msg_receiver", MOCK),
    ("hpl_igp_oracle", ORACLE),
    ("hpl_warp_cw20", WARP_CW20),
    ("hpl_warp_native", WARP_NATIVE),
];

struct Net {
    c: Chain,
    signer: String,
    signer_eth: String,
    network: V,
    denom: String,
    local: u32,
    /// contract name by the code it was uploaded as
    names: BTreeMap<u64, &'static str>,
    artifacts: V,
    /// what the scripts instantiated: (address, name, admin)
    made: Vec<(String, &'static str, Option<String>)>,
    /// code of every contract
    codes: BTreeMap<String, u64>,
    migrated: Vec<(String, u64)>,
    sums: BTreeMap<u64, String>,
    uploads: Vec<String>,
    /// who may instantiate the uploaded codes
    perms: Vec<V>,
    refusals: usize,
    /// the transaction with this number fails once
    fault: Option<u64>,
    faulted: Option<&'static str>,
    txs: u64,
    /// a transaction of the wasm client is included, but fails
    sour: Option<u64>,
    soured: Option<String>,
    /// or is refused by the client
    thrown: bool,
    /// what is answered when the scripts ask
    reply: &'static str,
    wasm_txs: u64,
    calls: usize,
    /// rest endpoint of the network, which may not answer
    rest: String,
    deaf: bool,
    /// endpoints of the network for agents
    rpc: String,
    grpc: String,
    /// releases with their artifacts
    releases: BTreeMap<String, V>,
    /// how often the outcome of a transaction is not there yet
    late: u64,
    last: String,
}

impl Net {
    fn new(g: &mut G, c: Chain) -> Net {
        let local = g.domain();
        let signer = c.acc("signer");
        let denom = g.pick::<&str>(&["uosmo", "inj", "factory/a/b"]).to_string();
        let first = 1 + g.below(5000);
        let (mut names, mut artifacts, mut sums) = (BTreeMap::new(), json!({}), BTreeMap::new());
        for (i, (n, _)) in NAMES.iter().enumerate() {
            // neither in order nor without gaps
            let id = first + (i as u64 * 7) % 20 * 2;
            names.insert(id, *n);
            artifacts[*n] = json!(id);
            sums.insert(id, sum(n, 0));
        }
        let mut network = json!({"id": "test-net-1", "signer": "00".repeat(32), "hrp": c.hrp(), "gas": {"price": "0.025", "denom": denom}, "domain": local});
        let [rpc, rest, grpc] = if g.chance(2, 3) {
            let of = |k: &str, port: u64| format!("http://{k}.test:{port}");
            let v = [of("rpc", 26657), of("rest", 1317), of("grpc", 9090)];
            network["endpoint"] = json!({"rpc": v[0], "rest": v[1], "grpc": v[2]});
            v
        } else {
            // behind a session
            network["is_cradle"] = json!(true);
            network["cradle_session_id"] = json!("s0");
            for k in ["rpc", "rest", "grpc"] {
                network[format!("cradle_{k}_base_url")] = json!(format!("http://{k}.test/{{session_id}}/x"));
            }
            ["rpc", "rest", "grpc"].map(|k| format!("http://{k}.test/s0/x"))
        };
        let signer_eth = refs::keccak(&[b"signer"])[12..].iter().map(|b| format!("{b:02x}")).collect();
        Net { c, signer, signer_eth, network, denom, local, names, artifacts, made: vec![], codes: BTreeMap::new(), migrated: vec![], sums, uploads: vec![], perms: vec![], refusals: 0, fault: None, faulted: None, txs: 0, sour: None, soured: None, thrown: false, reply: "y", wasm_txs: 0, calls: 0, late: 0, last: String::new(), rest, deaf: false, rpc, grpc, releases: BTreeMap::new() }
    }
    fn code(&self, id: u64) -> Option<usize> {
        let n = self.names.get(&id)?;
        NAMES.iter().find(|(k, _)| k == n).map(|v| v.1)
    }
    /// Messages of one transaction, all or nothing; addresses of the new contracts.
    fn tx(&mut self, sender: Option<&str>, msgs: &[V]) -> Result<Vec<String>, String> {
        self.txs += 1;
        let inst = msgs.iter().any(|m| m["message"] == "instantiate");
        if self.fault == Some(self.txs) {
            self.faulted = Some(if inst { "instantiate" } else { "execute" });
            return Err("connection reset".into());
        }
        let before = self.c.state();
        let made = self.made.len();
        let r: Result<Vec<String>, String> = msgs.iter().map(|m| self.one(sender, m)).collect();
        if let Err(e) = &r {
            self.c.reset(&before);
            self.made.truncate(made);
            self.last = e.clone();
            if inst {
                self.refusals += 1;
            }
        }
        r
    }
    fn one(&mut self, sender: Option<&str>, m: &V) -> Result<String, String> {
        let by = sender.or(m["sender"].as_str()).unwrap_or_default().to_string();
        if by != self.signer {
            return Err(format!("a message of {by:?} is signed by {}", self.signer));
        }
        let body = m["msg"].to_string();
        match m["message"].as_str() {
            Some("execute") => {
                let to = m["contractAddress"].as_str().unwrap_or_default();
                let funds = parse_coins(m.get("funds").unwrap_or(&json!([]))).map_err(|e| format!("funds: {e}"))?;
                for w in funds.windows(2) {
                    if w[0].denom >= w[1].denom {
                        return Err("funds are not sorted, or not distinct".into());
                    }
                }
                self.c.exec_raw(&by, to, body.as_bytes(), &funds).map(|_| String::new())
            }
            Some("instantiate") => {
                let id = m["codeId"].as_u64().ok_or("no code")?;
                let code = self.code(id).ok_or_else(|| format!("no such code: {id}"))?;
                let body = if code == MOCK { "{}".to_string() } else { body };
                let (a, _) = if code == MOCK { (self.c.mock(&Cfg::default()), ()) } else { self.c.inst_raw(code, &by, body.as_bytes(), &[]).map(|v| (v.0, ()))? };
                self.made.push((a.clone(), self.names[&id], m["admin"].as_str().map(|s| s.to_string())));
                self.codes.insert(a.clone(), id);
                Ok(a)
            }
            k => Err(format!("unsupported message {k:?}")),
        }
    }
    fn answer(&mut self, call: &str, args: &V) -> Say {
        self.calls += 1;
        if self.calls > 4_000 {
            return Say::Stop("the scripts do not come to an end".into());
        }
        let s = |i: usize| args[i].as_str().unwrap_or_default().to_string();
        let say = |r: Result<V, String>| match r {
            Ok(v) => Say::Ok(v),
            Err(e) => Say::Err(e),
        };
        if let ("wasm.execute" | "wasm.upload" | "wasm.migrate", Some(nth)) = (call, self.sour) {
            self.wasm_txs += 1;
            if self.wasm_txs == nth {
                if self.thrown || call == "wasm.migrate" {
                    self.soured = Some(String::from_utf8(unhex(&args[1]["hex"])).unwrap_or_default());
                    return Say::Err("the transaction failed: out of gas".into());
                }
                self.soured = Some(String::from_utf8(unhex(&args[1]["hex"])).unwrap_or_default());
                return Say::Ok(json!({"transactionHash": "bad", "codeId": 77_777, "events": [], "logs": [], "height": 7, "gasUsed": 1, "gasWanted": 1}));
            }
        }
        let r = match call {
            "injective.broadcast" => {
                let msgs = match &args[0]["msgs"] {
                    V::Array(v) => v.clone(),
                    v => vec![v.clone()],
                };
                self.tx(None, &msgs).map(|made| {
                    let ev = |a: &String| {
                        json!({"type": "cosmwasm.wasm.v1.EventContractInstantiated", "attributes": [
                            ["admin", json!(self.signer).to_string()], ["code_id", "\"1\""], ["contract_address", json!(a).to_string()],
                            ["creator", json!(self.signer).to_string()], ["funds", "[]"], ["label", "\"\""], ["msg", "{}"],
                        ]})
                    };
                    let mut events = vec![json!({"type": "tx", "attributes": [["fee", "1inj"]]}), json!({"type": "message", "attributes": [["action", "x"], ["sender", self.signer], ["module", "wasm"]]})];
                    events.extend(made.iter().filter(|a| !a.is_empty()).map(ev));
                    json!({"code": 0, "txHash": "00", "height": 7, "typed_events": events})
                })
            }
            "wasm.execute" | "wasm.executeMultiple" => {
                let list = if call == "wasm.execute" { vec![json!({"contractAddress": args[1], "msg": args[2], "funds": args.get(5).filter(|v| !v.is_null()).cloned().unwrap_or(json!([]))})] } else { args[1].as_array().cloned().unwrap_or_default() };
                let msgs: Vec<V> = list
                    .into_iter()
                    .map(|mut m| {
                        m["message"] = json!("execute");
                        m
                    })
                    .collect();
                self.tx(Some(&s(0)), &msgs).map(|_| json!({"transactionHash": "00", "events": [], "logs": [], "height": 7, "gasUsed": 1, "gasWanted": 1}))
            }
            "wasm.instantiate" => {
                let m = json!({"message": "instantiate", "codeId": args[1], "msg": args[2], "admin": args[5]["admin"]});
                self.tx(Some(&s(0)), &[m]).map(|a| json!({"transactionHash": "00", "contractAddress": a[0], "events": [], "logs": [], "height": 7}))
            }
            "wasm.migrate" => {
                let (a, id) = (s(1), args[2].as_u64().unwrap_or(0));
                match self.codes.get_mut(&a) {
                    Some(c) if s(0) == self.signer && self.sums.contains_key(&id) => {
                        *c = id;
                        self.migrated.push((a, id));
                        Ok(json!({"transactionHash": "00", "events": [], "logs": [], "height": 7}))
                    }
                    _ => Err(format!("migration of {a:?} to {id} by {}", s(0))),
                }
            }
            "wasm.upload" => {
                let code = String::from_utf8(unhex(&args[1]["hex"])).unwrap_or_default();
                let id = 90_000 + self.uploads.len() as u64;
                self.perms.push(args[4].clone());
                self.uploads.push(code.clone());
                self.sums.insert(id, refs::sha256(code.as_bytes()).iter().map(|b| format!("{b:02x}")).collect());
                Ok(json!({"transactionHash": "00", "codeId": id, "originalSize": 1, "checksum": "", "height": 7}))
            }
            "wasm.getContract" => match self.codes.get(&s(0)) {
                Some(id) => Ok(json!({"address": s(0), "codeId": id, "creator": self.signer, "admin": self.signer, "label": ""})),
                None => Err(format!("no such contract: {}", s(0))),
            },
            "wasm.getCodeDetails" => match args[0].as_u64().and_then(|id| self.sums.get(&id).map(|sum| (id, sum))) {
                Some((id, sum)) => Ok(json!({"id": id, "creator": self.signer, "checksum": sum})),
                None => Err(format!("no such code: {}", args[0])),
            },
            "wasm.queryContractSmart" => self.c.q(&s(0), args[1].clone()),
            "wasm.getHeight" | "stargate.getHeight" => Ok(json!(7)),
            "stargate.getTx" | "wasm.getTx" if self.late > 0 => {
                self.late -= 1;
                Ok(V::Null)
            }
            "stargate.getTx" | "wasm.getTx" if args[0] == "bad" => Ok(json!({"code": 5, "hash": "bad", "height": 7, "events": []})),
            "stargate.getTx" | "wasm.getTx" => Ok(json!({"code": 0, "hash": "00", "height": 7, "events": []})),
            "fetch" => {
                // slashes behind the scheme do not matter to fetch
                let flat = |u: &str| u.replacen(":///", ":/", 1).replacen("://", ":/", 1);
                let u = s(0);
                if let Some(tag) = self.releases.keys().find(|t| u.contains(&format!("/releases/download/{t}/")) && u.contains("many-things/cw-hyperlane")) {
                    return Say::Ok(self.releases[tag].clone());
                }
                if u == "https://api.github.com/repos/many-things/cw-hyperlane/releases" {
                    return Say::Ok(self.releases.keys().map(|t| json!({"tag_name": t, "name": t})).collect());
                }
                let a = u.rsplit('/').next().unwrap_or_default().to_string();
                match !self.deaf && flat(&u).starts_with(&flat(&self.rest)) && u.contains("/cosmwasm/wasm/v1/contract/") && self.codes.contains_key(&a) {
                    true => Ok(json!({"address": a, "contract_info": {"code_id": "1", "creator": "", "label": "", "created": {"block_height": "1234", "tx_index": "0"}}})),
                    false => Err(format!("no answer from {u}")),
                }
            }
            k => return Say::Stop(format!("harness: call {k} of the scripts is not provided for")),
        };
        if self.refusals > 2 {
            return Say::Stop(format!("a contract of a valid configuration cannot be instantiated: {}", self.last));
        }
        say(r)
    }
    fn run(&mut self, op: &str, arg: V, ctx: &V, deploy: V, files: V) -> Result<V, String> {
        let client = json!({"signer": self.signer, "injective_signer": self.signer, "signer_addr": self.signer_eth, "signer_pubkey": "00"});
        let config = json!({"networks": [{"id": "other", "hrp": "other", "gas": {"price": "1", "denom": "other"}, "domain": 4, "endpoint": {"rpc": "", "rest": "", "grpc": ""}}, self.network], "evm_networks": [], "deploy": deploy});
        (self.wasm_txs, self.calls, self.soured) = (0, 0, None);
        let t = json!({"op": op, "arg": arg, "ctx": ctx, "config": config, "network": self.network, "client": client, "files": files, "answer": self.reply});
        let r = work(&t, |k, a| self.answer(k, a));
        (self.sour, self.late, self.thrown, self.reply) = (None, 0, false, "y");
        match r {
            Err(e) if e.starts_with("harness:") => panic!("{e}"),
            r => r,
        }
    }
    fn ctx(&self) -> V {
        json!({"artifacts": self.artifacts, "deployments": {}})
    }
    fn who(&self, v: &V) -> String {
        match v.as_str() {
            Some("<signer>") => self.signer.clone(),
            s => s.unwrap_or_default().to_string(),
        }
    }
    fn hexed(&self, a: &str) -> String {
        format!("0x{}", hx(&self.c.wire(a)))
    }
    /// That the record names a contract of this type, deployed by the scripts, with these administrators.
    fn check_contract(&self, rec: &V, name: &str, owner: Option<&V>) -> Result<String, String> {
        check_eq!(rec["type"], json!(name), "type of a recorded module ({rec})");
        let a = rec["address"].as_str().unwrap_or_default().to_string();
        let found = self.made.iter().filter(|m| m.0 == a).collect::<Vec<_>>();
        check!(found.len() == 1, "the record of a {name} names {a:?}, which the scripts did not deploy");
        check_eq!(found[0].1, name, "code of the contract recorded as {name}");
        check_eq!(found[0].2, Some(self.signer.clone()), "account that may migrate a {name}");
        check_eq!(rec["hexed"], json!(self.hexed(&a)), "hex address of a {name}");
        if let Some(o) = owner {
            check_eq!(owner_of(&self.c, &a)?, self.who(o), "owner of a {name}");
            let p = self.c.q(&a, json!({"ownable": {"get_pending_owner": {}}}))?;
            check_eq!(p["pending_owner"], V::Null, "nominated owner of a {name}");
        }
        Ok(a)
    }
}

fn owner_of(c: &Chain, a: &str) -> Result<String, String> {
    owner(c, a)
}

fn sum(name: &str, version: u64) -> String {
    refs::sha256(format!("{name} {version}").as_bytes()).iter().map(|b| format!("{b:02x}")).collect()
}

// ---------------------------------------------------------------- configurations

const SAFE: u128 = (1 << 53) - 1;

struct Gen<'a> {
    c: &'a Chain,
    signer_eth: String,
    domains: Vec<u32>,
    kinds: BTreeSet<String>,
    nested: bool,
    nodes: usize,
}

impl<'a> Gen<'a> {
    fn new(g: &mut G, n: &'a Net) -> Gen<'a> {
        Gen { c: &n.c, signer_eth: n.signer_eth.clone(), domains: super::isms::gen_domains(g, 5), kinds: BTreeSet::new(), nested: false, nodes: 0 }
    }
    /// Any account, where the signer need not be the owner.
    fn owner(&self, g: &mut G, free: bool) -> V {
        if free && g.chance(1, 3) {
            json!(gen_account(g, self.c))
        } else {
            json!("<signer>")
        }
    }
    fn map(&mut self, g: &mut G, min: u64, mut f: impl FnMut(&mut Self, &mut G) -> V) -> V {
        let n = g.range(min, 3) as usize;
        let mut o = json!({});
        for i in g.subset(self.domains.len(), n) {
            let d = self.domains[i].to_string();
            o[d] = f(self, g);
        }
        o
    }
    fn hook(&mut self, g: &mut G, depth: u64) -> V {
        self.nodes += 1;
        let kind = if depth == 0 || self.nodes > 12 { g.idx(5) } else { g.weighted(&[1, 1, 1, 1, 2, 3, 2, 3, 3]) };
        let kind = ["fee", "merkle", "mock", "pausable", "igp", "aggregate", "routing", "routing-custom", "routing-fallback"][kind];
        self.kinds.insert(kind.into());
        let mut v = json!({"type": kind});
        match kind {
            "fee" => {
                v["owner"] = self.owner(g, true);
                v["fee"] = json!({"amount": g.amount(SAFE) as u64});
                if g.bool() {
                    v["fee"]["denom"] = json!(*g.pick(&["uatom", "ibc/27", "x"]));
                }
            }
            "pausable" => {
                v["owner"] = self.owner(g, true);
                v["paused"] = json!(g.bool());
            }
            "igp" => {
                v["default_gas_usage"] = json!(g.amount(SAFE) as u64);
                if g.bool() {
                    v["token"] = json!(*g.pick(&["uatom", "ibc/27", "x"]));
                }
                v["configs"] = self.map(g, 1, |_, g| json!({"exchange_rate": 1 + g.amount(SAFE - 1) as u64, "gas_price": 1 + g.amount(SAFE - 1) as u64}));
                v["owner"] = json!("<signer>");
            }
            "aggregate" => {
                self.nested = true;
                v["owner"] = self.owner(g, true);
                let n = g.range(1, 4);
                v["hooks"] = (0..n).map(|_| self.hook(g, depth - 1)).collect::<Vec<_>>().into();
            }
            "routing" | "routing-custom" | "routing-fallback" => {
                self.nested = true;
                v["hooks"] = self.map(g, 0, |s, g| s.hook(g, depth - 1));
                let mut free = v["hooks"] == json!({});
                if kind == "routing-custom" && g.chance(4, 5) {
                    v["custom_hooks"] = self.map(g, 0, |s, g| json!({"recipient": hx(&gen_wire(g)), "hook": s.hook(g, depth - 1)}));
                    free = free && v["custom_hooks"] == json!({});
                }
                if kind == "routing-fallback" {
                    v["fallback_hook"] = self.hook(g, depth - 1);
                    free = false;
                }
                v["owner"] = self.owner(g, free);
            }
            _ => {}
        }
        v
    }
    fn validators(&mut self, g: &mut G, many: bool) -> V {
        let one = |s: &Self, g: &mut G| {
            let n = g.range(1, 5);
            let mut addrs: Vec<String> = vec![];
            for _ in 0..n {
                let a = match g.below(6) {
                    0 => "<signer>".to_string(),
                    1 => hx(&g.bytes(20)).to_uppercase(),
                    _ => hx(&g.bytes(20)),
                };
                if addrs.iter().all(|b| !b.eq_ignore_ascii_case(&a)) && !a.eq_ignore_ascii_case(&s.signer_eth) {
                    addrs.push(a);
                }
            }
            if addrs.is_empty() {
                addrs.push("<signer>".into());
            }
            let t = g.range(1, addrs.len() as u64);
            json!({"addrs": addrs, "threshold": t})
        };
        if many {
            // more than fit in one transaction
            let n = g.range(19, 45);
            let mut o = json!({});
            for i in 0..n {
                o[(1000 + i * 3).to_string()] = one(self, g);
            }
            return o;
        }
        self.map(g, 0, |s, g| one(s, g))
    }
    fn ism(&mut self, g: &mut G, depth: u64) -> V {
        self.nodes += 1;
        let kind = if depth == 0 || self.nodes > 12 { g.weighted(&[3, 1]) } else { g.weighted(&[2, 1, 3, 3]) };
        let kind = ["multisig", "mock", "aggregate", "routing"][kind];
        self.kinds.insert(kind.into());
        let mut v = json!({"type": kind});
        match kind {
            "multisig" => {
                let many = g.chance(1, 12);
                v["validators"] = self.validators(g, many);
                v["owner"] = self.owner(g, v["validators"] == json!({}));
            }
            "aggregate" => {
                self.nested = true;
                v["owner"] = self.owner(g, true);
                let n = g.range(1, 4);
                v["isms"] = (0..n).map(|_| self.ism(g, depth - 1)).collect::<Vec<_>>().into();
                if g.chance(4, 5) {
                    v["threshold"] = json!(g.range(1, n));
                }
            }
            "routing" => {
                self.nested = true;
                v["owner"] = self.owner(g, true);
                v["isms"] = self.map(g, 0, |s, g| s.ism(g, depth - 1));
            }
            _ => {}
        }
        v
    }
}

// ---------------------------------------------------------------- what has to be there

fn keys(v: &V) -> Vec<String> {
    v.as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default()
}

impl Net {
    fn routes(&self, a: &str) -> Result<BTreeMap<u64, String>, String> {
        let v = self.c.q(a, json!({"router": {"list_routes": {"offset": null, "limit": 30, "order": null}}}))?;
        Ok(v["routes"].as_array().cloned().unwrap_or_default().iter().map(|r| (r["domain"].as_u64().unwrap_or(0), r["route"].as_str().unwrap_or_default().to_string())).collect())
    }
    /// Checks a recorded hook against its configuration; number of contracts it is made of.
    fn check_hook(&self, conf: &V, rec: &V, mailbox: &str) -> Result<usize, String> {
        let kind = conf["type"].as_str().unwrap();
        let owner = conf.get("owner");
        match kind {
            "fee" => {
                let a = self.check_contract(rec, "hpl_hook_fee", owner)?;
                let denom = conf["fee"]["denom"].as_str().unwrap_or(&self.denom);
                check_eq!(self.c.q(&a, json!({"fee_hook": {"fee": {}}}))?["fee"], json!({"denom": denom, "amount": conf["fee"]["amount"].to_string()}), "fee of a fee hook");
                Ok(1)
            }
            "merkle" => {
                let a = self.check_contract(rec, "hpl_hook_merkle", None)?;
                check_eq!(self.c.q(&a, json!({"hook": {"mailbox": {}}}))?["mailbox"], json!(mailbox), "mailbox of a tree hook");
                Ok(1)
            }
            "mock" => {
                self.check_contract(rec, "hpl_test_mock_hook", None)?;
                Ok(1)
            }
            "pausable" => {
                let a = self.check_contract(rec, "hpl_hook_pausable", owner)?;
                check_eq!(self.c.q(&a, json!({"pausable": {"pause_info": {}}}))?["paused"], conf["paused"], "whether a pausable hook is paused");
                Ok(1)
            }
            "igp" => {
                let a = self.check_contract(rec, "hpl_igp", owner)?;
                let o = self.check_contract(&rec["oracle"], "hpl_igp_oracle", Some(&json!("<signer>")))?;
                check_eq!(self.c.q(&a, json!({"igp": {"beneficiary": {}}}))?["beneficiary"], json!(self.signer), "beneficiary of a gas paymaster");
                check_eq!(self.c.q(&a, json!({"igp": {"default_gas": {}}}))?["gas"], json!(conf["default_gas_usage"].to_string()), "default gas of a gas paymaster");
                let want: BTreeMap<u64, String> = keys(&conf["configs"]).iter().map(|d| (d.parse().unwrap(), o.clone())).collect();
                check_eq!(self.routes(&a)?, want, "oracles of a gas paymaster");
                for (d, e) in conf["configs"].as_object().unwrap() {
                    let d: u32 = d.parse().unwrap();
                    let got = self.c.q(&o, json!({"oracle": {"get_exchange_rate_and_gas_price": {"dest_domain": d}}}))?;
                    check_eq!(got, json!({"gas_price": e["gas_price"].to_string(), "exchange_rate": e["exchange_rate"].to_string()}), "oracle data for {d}");
                    let token = conf["token"].as_str().unwrap_or(&self.denom);
                    let msg = RefMsg { version: 3, nonce: 1, origin: 1, sender: [1; 32], dest: d, recipient: [2; 32], body: vec![] };
                    if let Ok(fees) = quote_hook(&self.c, &a, &[], &msg.encode()) {
                        check!(fees.iter().all(|f| f.denom == token), "a gas paymaster for {token} asks for {fees:?}");
                    }
                }
                Ok(2)
            }
            "aggregate" => {
                let a = self.check_contract(rec, "hpl_hook_aggregate", owner)?;
                let (confs, recs) = (conf["hooks"].as_array().unwrap(), rec["hooks"].as_array().cloned().unwrap_or_default());
                check_eq!(recs.len(), confs.len(), "recorded hooks of an aggregate");
                let mut n = 1;
                for (k, r) in confs.iter().zip(&recs) {
                    n += self.check_hook(k, r, mailbox)?;
                }
                let want: Vec<V> = recs.iter().map(|r| r["address"].clone()).collect();
                check_eq!(self.c.q(&a, json!({"aggregate_hook": {"hooks": {}}}))?["hooks"], json!(want), "hooks of an aggregate");
                Ok(n)
            }
            "routing" | "routing-custom" | "routing-fallback" => {
                let name = format!("hpl_hook_{}", kind.replace('-', "_"));
                let a = self.check_contract(rec, &name, owner)?;
                let mut n = 1;
                let mut want = BTreeMap::new();
                let mut names: BTreeSet<String> = keys(&conf["hooks"]).into_iter().collect();
                for (d, k) in conf["hooks"].as_object().unwrap() {
                    let r = if kind == "routing-custom" { &rec["hooks"][d]["default"] } else { &rec["hooks"][d] };
                    n += self.check_hook(k, r, mailbox)?;
                    want.insert(d.parse().unwrap(), r["address"].as_str().unwrap().to_string());
                }
                check_eq!(self.routes(&a)?, want, "routes of a {name}");
                if kind == "routing-custom" {
                    for (d, k) in conf.get("custom_hooks").and_then(|v| v.as_object()).cloned().unwrap_or_default() {
                        names.insert(d.clone());
                        let to = k["recipient"].as_str().unwrap();
                        let r = &rec["hooks"][&d][to];
                        n += self.check_hook(&k["hook"], r, mailbox)?;
                    }
                    for d in &names {
                        let got = self.c.q(&a, json!({"custom_routing_hook": {"custom_hooks": {"dest_domain": d.parse::<u32>().unwrap(), "offset": null, "limit": 30, "order": null}}}))?["custom_hooks"].clone();
                        let want = match conf["custom_hooks"].get(d) {
                            Some(k) => {
                                let to = k["recipient"].as_str().unwrap();
                                json!([{"dest_domain": d.parse::<u32>().unwrap(), "recipient": to, "hook": rec["hooks"][d][to]["address"]}])
                            }
                            None => json!([]),
                        };
                        check_eq!(got, want, "custom hooks for {d}");
                        let entries: BTreeSet<String> = keys(&rec["hooks"][d]).into_iter().collect();
                        let want: BTreeSet<String> = conf["hooks"].get(d).map(|_| "default".to_string()).into_iter().chain(conf["custom_hooks"].get(d).map(|k| k["recipient"].as_str().unwrap().to_string())).collect();
                        check_eq!(entries, want, "recorded hooks for {d}");
                    }
                }
                if kind == "routing-fallback" {
                    names.insert("fallback".into());
                    let r = &rec["hooks"]["fallback"];
                    n += self.check_hook(&conf["fallback_hook"], r, mailbox)?;
                    // a destination without a route is served by the fallback
                    let d = (1..).find(|d| conf["hooks"].get(d.to_string()).is_none()).unwrap();
                    let msg = RefMsg { version: 3, nonce: 1, origin: 1, sender: [1; 32], dest: d, recipient: [2; 32], body: vec![] }.encode();
                    let got = quote_hook(&self.c, &a, &[], &msg);
                    let want = quote_hook(&self.c, r["address"].as_str().unwrap(), &[], &msg);
                    check_eq!(got.as_ref().ok(), want.as_ref().ok(), "quote of the fallback hook ({got:?}, {want:?})");
                    let f = self.c.fork();
                    let funds = got.unwrap_or_default();
                    for k in &funds {
                        f.mint(&self.signer, &k.denom, k.amount.u128());
                    }
                    let tx = f.exec_raw(&self.signer, &a, post_dispatch(&[], &msg).to_string().as_bytes(), &normal(&funds));
                    if let Ok(tx) = tx {
                        let called: Vec<String> = tx.calls_by(&a).into_iter().map(|v| v.0).collect();
                        check_eq!(called, vec![r["address"].as_str().unwrap().to_string()], "hook called for a destination without a route");
                    } else {
                        check!(f.exec_raw(&a, r["address"].as_str().unwrap(), post_dispatch(&[], &msg).to_string().as_bytes(), &normal(&funds)).is_err(), "the fallback is not used: {}", short_err(&tx));
                    }
                }
                let got: BTreeSet<String> = keys(&rec["hooks"]).into_iter().collect();
                check_eq!(got, names, "recorded domains of a {name}");
                Ok(n)
            }
            _ => unreachable!(),
        }
    }
    fn check_validators(&self, conf: &V, a: &str) -> Result<(), String> {
        for (d, s) in conf.as_object().cloned().unwrap_or_default() {
            let got = self.c.q(a, json!({"multisig_ism": {"enrolled_validators": {"domain": d.parse::<u32>().unwrap()}}}))?;
            let mut have: Vec<String> = got["validators"].as_array().cloned().unwrap_or_default().iter().map(|v| v.as_str().unwrap_or_default().to_string()).collect();
            let mut want: Vec<String> = s["addrs"].as_array().unwrap().iter().map(|v| if v == "<signer>" { self.signer_eth.clone() } else { v.as_str().unwrap().to_lowercase() }).collect();
            have.sort();
            want.sort();
            check_eq!(have, want, "validators for {d}");
            check_eq!(got["threshold"], s["threshold"], "threshold for {d}");
        }
        Ok(())
    }
    fn check_ism(&self, conf: &V, rec: &V, domains: &[u32]) -> Result<usize, String> {
        let owner = conf.get("owner");
        match conf["type"].as_str().unwrap() {
            "multisig" => {
                let a = self.check_contract(rec, "hpl_ism_multisig", owner)?;
                self.check_validators(&conf["validators"], &a)?;
                for d in domains.iter().filter(|d| conf["validators"].get(d.to_string()).is_none()) {
                    let got = self.c.q(&a, json!({"multisig_ism": {"enrolled_validators": {"domain": d}}}));
                    check!(got.as_ref().map_or(true, |v| v["validators"] == json!([])), "validators are enrolled for {d}: {got:?}");
                }
                Ok(1)
            }
            "mock" => {
                self.check_contract(rec, "hpl_test_mock_ism", None)?;
                Ok(1)
            }
            "aggregate" => {
                let a = self.check_contract(rec, "hpl_ism_aggregate", owner)?;
                let (confs, recs) = (conf["isms"].as_array().unwrap(), rec["isms"].as_array().cloned().unwrap_or_default());
                check_eq!(recs.len(), confs.len(), "recorded modules of an aggregate");
                let mut n = 1;
                for (k, r) in confs.iter().zip(&recs) {
                    n += self.check_ism(k, r, domains)?;
                }
                let want: Vec<V> = recs.iter().map(|r| r["address"].clone()).collect();
                let got = self.c.q(&a, json!({"aggregate_ism": {"isms": {}}}))?;
                check_eq!(got["isms"], json!(want), "modules of an aggregate");
                check_eq!(got["threshold"], conf.get("threshold").cloned().unwrap_or(json!(confs.len())), "threshold of an aggregate");
                Ok(n)
            }
            "routing" => {
                let a = self.check_contract(rec, "hpl_ism_routing", owner)?;
                let mut n = 1;
                for (d, k) in conf["isms"].as_object().unwrap() {
                    n += self.check_ism(k, &rec["isms"][d], domains)?;
                }
                for d in domains {
                    let msg = RefMsg { version: 3, nonce: 0, origin: *d, sender: [0; 32], dest: 0, recipient: [0; 32], body: vec![] };
                    let got = self.c.q(&a, json!({"routing_ism": {"route": {"message": hx(&msg.encode())}}})).ok().map(|v| v["ism"].clone());
                    let want = conf["isms"].get(d.to_string()).map(|_| rec["isms"][d.to_string()]["address"].clone());
                    check_eq!(got, want, "module for messages from {d}");
                }
                check_eq!(keys(&rec["isms"]), keys(&conf["isms"]), "recorded domains of a routing module");
                Ok(n)
            }
            _ => unreachable!(),
        }
    }
}

fn normal(c: &[cosmwasm_std::Coin]) -> Vec<cosmwasm_std::Coin> {
    crate::chain::normalize(c).unwrap_or_default()
}

/// What the scripts said last.
fn why(v: &V) -> String {
    format!("{} [{}]", v["fail"].as_str().unwrap_or("no failure"), v["said"].as_array().map(|l| l.iter().rev().take(3).map(|s| s.as_str().unwrap_or_default()).collect::<Vec<_>>().join("; ")).unwrap_or_default())
}

fn contracts_in(v: &V) -> Vec<(String, String)> {
    let mut out = vec![];
    if let (Some(t), Some(a)) = (v["type"].as_str(), v["address"].as_str()) {
        out.push((t.to_string(), a.to_string()));
    }
    match v {
        V::Object(o) => o.values().for_each(|x| out.extend(contracts_in(x))),
        V::Array(l) => l.iter().for_each(|x| out.extend(contracts_in(x))),
        _ => {}
    }
    out
}

// ---------------------------------------------------------------- sub-checks

fn modules(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let mut n = Net::new(g, c);
    let mailbox_addr = mailbox(&n.c, &n.signer, n.local);
    let mut ctx = n.ctx();
    ctx["deployments"]["core"] = json!({"mailbox": {"type": "hpl_mailbox", "address": mailbox_addr, "hexed": n.hexed(&mailbox_addr)}});
    let is_hook = g.chance(2, 3);
    let (conf, domains, kinds, nested) = {
        let mut k = Gen::new(g, &n);
        let conf = if is_hook { k.hook(g, 3) } else { k.ism(g, 3) };
        (conf, k.domains.clone(), k.kinds.len(), k.nested)
    };
    g.log(|| format!("configuration {conf}"));
    if g.chance(1, 5) {
        n.fault = Some(g.range(1, 10));
    }
    let out = n.run(if is_hook { "hook" } else { "ism" }, conf.clone(), &ctx, json!({}), json!({}))?;
    g.log(|| format!("{} contracts; {}", n.made.len(), if out.get("done").is_some() { "done".into() } else { why(&out) }));
    if n.faulted == Some("execute") {
        // half a configuration is no success
        check!(out.get("done").is_none(), "a transaction failed, and the deployment is reported as done");
        g.label("failed transaction");
        return Ok(());
    }
    if n.faulted.is_some() {
        g.label("instantiation repeated");
    }
    check!(out.get("done").is_some(), "a valid configuration was not deployed: {}", why(&out));
    let count = if is_hook { n.check_hook(&conf, &out["done"], &mailbox_addr)? } else { n.check_ism(&conf, &out["done"], &domains)? };
    check_eq!(n.made.len(), count, "contracts instantiated");
    if kinds > 1 && nested {
        g.nontrivial();
    }
    Ok(())
}

/// The first module of a type, depth first.
fn has(v: &V, name: &str) -> Vec<String> {
    contracts_in(v).into_iter().filter(|c| c.0 == name).map(|c| c.1).collect()
}

struct System {
    ctx: V,
    mailbox: String,
    va: String,
    contracts: usize,
}

/// What `deploy` left behind is what was configured.
fn check_system(n: &Net, out: &V, deploy: &V, domains: &[u32]) -> Result<System, String> {
    check!(out.get("done").is_some(), "deploying a valid configuration failed: {}", why(out));
    let ctx: V = out["files"]["/work/context/test-net-1.json"].as_str().and_then(|s| serde_json::from_str(s).ok()).ok_or("no context was saved")?;
    let agent: V = out["files"]["/work/context/test-net-1.config.json"].as_str().and_then(|s| serde_json::from_str(s).ok()).ok_or("no agent configuration was saved")?;
    let d = &ctx["deployments"];
    let m = n.check_contract(&d["core"]["mailbox"], "hpl_mailbox", Some(&json!("<signer>")))?;
    let va = n.check_contract(&d["core"]["validator_announce"], "hpl_validator_announce", None)?;
    let (default, required) = (&deploy["hooks"]["default"], &deploy["hooks"]["required"]);
    let mut contracts = 2 + n.check_ism(&deploy["ism"], &d["isms"], domains)?;
    contracts += n.check_hook(default, &d["hooks"]["default"], &m)?;
    contracts += n.check_hook(required, &d["hooks"]["required"], &m)?;
    for (k, r) in [("default_ism", &d["isms"]), ("default_hook", &d["hooks"]["default"]), ("required_hook", &d["hooks"]["required"])] {
        check_eq!(n.c.q(&m, json!({"mailbox": {k: {}}}))?[k], r["address"], "{k} of the mailbox");
    }
    check_eq!(n.c.q(&m, json!({"mailbox": {"local_domain": {}}}))?["local_domain"], json!(n.local), "domain of the mailbox");
    check_eq!(n.c.q(&m, json!({"mailbox": {"hrp": {}}}))?["hrp"], json!(n.c.hrp()), "prefix of the mailbox");
    check_eq!(n.c.q(&va, json!({"mailbox": {}}))?["mailbox"], json!(hx(&n.c.wire(&m))), "mailbox of the announcements");
    check_eq!(ctx["artifacts"], n.artifacts, "recorded artifacts");
    check_agent(n, &agent, d, &m, &va)?;
    Ok(System { ctx, mailbox: m, va, contracts })
}

/// A hook tree somewhere in which there is what the agents need.
fn gen_hooks(g: &mut G, k: &mut Gen) -> (V, V) {
    let mut trees = [k.hook(g, 2), k.hook(g, 2)];
    for kind in ["igp", "merkle"] {
        if trees.iter().all(|t| !kinds_in(t).contains(kind)) {
            let i = g.idx(2);
            let new = if kind == "igp" { loop_igp(k, g) } else { json!({"type": kind}) };
            let other = trees[i].take();
            let mut hooks = vec![other, new];
            if g.bool() {
                hooks.reverse();
            }
            trees[i] = match g.below(3) {
                0 => {
                    let d = g.subset(k.domains.len(), 2);
                    let mut o = json!({});
                    for (i, h) in d.into_iter().zip(hooks) {
                        o[k.domains[i].to_string()] = h;
                    }
                    json!({"type": "routing", "owner": "<signer>", "hooks": o})
                }
                1 => json!({"type": "routing-fallback", "owner": "<signer>", "hooks": {k.domains[0].to_string(): hooks[0]}, "fallback_hook": hooks[1]}),
                _ => json!({"type": "aggregate", "owner": k.owner(g, true), "hooks": hooks}),
            };
        }
    }
    let [a, b] = trees;
    (a, b)
}

fn kinds_in(v: &V) -> BTreeSet<String> {
    let mut out: BTreeSet<String> = v["type"].as_str().map(|s| s.to_string()).into_iter().collect();
    match v {
        V::Object(o) => o.values().for_each(|x| out.extend(kinds_in(x))),
        V::Array(l) => l.iter().for_each(|x| out.extend(kinds_in(x))),
        _ => {}
    }
    out
}

fn systems(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let mut n = Net::new(g, c);
    let (mut deploy, domains) = {
        let mut k = Gen::new(g, &n);
        let ism = k.ism(g, 2);
        k.nodes = 0;
        let (default, required) = gen_hooks(g, &mut k);
        (json!({"ism": ism, "hooks": {"default": default, "required": required}}), k.domains.clone())
    };
    if g.chance(1, 6) {
        n.fault = Some(g.range(1, 20));
    }
    let mut ctx = n.ctx();
    n.deaf = g.chance(1, 10);
    if g.bool() {
        ctx.as_object_mut().unwrap().remove("deployments");
    }
    let out = n.run("cli", json!(["deploy"]), &ctx, deploy.clone(), json!({}))?;
    g.log(|| format!("deploy {deploy}: {} contracts, {}", n.made.len(), why(&out)));
    if n.faulted == Some("execute") {
        check!(out.get("done").is_none(), "a transaction failed, and the deployment is reported as done");
        check!(out["files"]["/work/context/test-net-1.json"].is_null(), "half a deployment was saved");
        g.label("failed transaction");
        return Ok(());
    }
    n.fault = None;
    let s = check_system(&n, &out, &deploy, &domains)?;
    check_eq!(n.made.len(), s.contracts, "contracts instantiated");
    ctx = s.ctx;
    // what is there already stays, what is not is added
    let mut kept = 0;
    for _ in 0..g.below(3) {
        let before = ctx.clone();
        let mut ctx2 = ctx.clone();
        let mut new = vec![];
        for part in [["core", "validator_announce"], ["isms", ""], ["hooks", "default"], ["hooks", "required"]] {
            if g.chance(1, 3) {
                if part[1].is_empty() {
                    ctx2["deployments"].as_object_mut().unwrap().remove(part[0]);
                } else {
                    ctx2["deployments"][part[0]].as_object_mut().unwrap().remove(part[1]);
                }
                new.push(part);
            }
        }
        let mut k = Gen::new(g, &n);
        k.domains = domains.clone();
        // a configuration counts for what is deployed
        let other = {
            let ism = k.ism(g, 1);
            let (default, required) = gen_hooks(g, &mut k);
            json!({"ism": ism, "hooks": {"default": default, "required": required}})
        };
        let mut want = deploy.clone();
        for part in &new {
            match *part {
                ["isms", _] => want["ism"] = other["ism"].clone(),
                ["hooks", w] => want["hooks"][w] = other["hooks"][w].clone(),
                _ => {}
            }
        }
        let all = [&want["hooks"]["default"], &want["hooks"]["required"]].iter().flat_map(|t| kinds_in(t)).collect::<BTreeSet<_>>();
        if !all.contains("igp") || !all.contains("merkle") {
            // nothing to tell the agents
            continue;
        }
        n.made.retain(|m| contracts_in(&before).iter().any(|c| c.1 == m.0));
        let out = n.run("cli", json!(["deploy"]), &ctx2, other.clone(), json!({}))?;
        g.log(|| format!("deploy {other} without {new:?}: {}", why(&out)));
        let s = check_system(&n, &out, &want, &domains)?;
        let mut keep = before["deployments"].clone();
        for [a, b] in &new {
            if b.is_empty() {
                keep[*a] = s.ctx["deployments"][*a].clone();
            } else {
                keep[*a][*b] = s.ctx["deployments"][*a][*b].clone();
            }
        }
        check_eq!(s.ctx["deployments"], keep, "deployments after adding {new:?}");
        let (a, b) = (contracts_in(&before["deployments"]), contracts_in(&s.ctx["deployments"]));
        for [x, y] in &new {
            let fresh = if y.is_empty() { &s.ctx["deployments"][*x] } else { &s.ctx["deployments"][*x][*y] };
            check!(contracts_in(fresh).iter().all(|c| !a.contains(c)), "a missing part was not deployed anew");
        }
        check_eq!(n.made.len(), a.iter().chain(b.iter()).collect::<BTreeSet<_>>().len(), "contracts instantiated");
        deploy = want;
        ctx = s.ctx;
        kept += 4 - new.len();
        g.label(if new.is_empty() { "deployed again" } else { "deployed in part" });
    }
    if kept > 0 {
        g.nontrivial();
    }
    Ok(())
}

fn commands(g: &mut G) -> Result<(), String> {
    let c = gen_chain(g);
    let mut n = Net::new(g, c);
    let mut good = 0;
    // deploy
    let (ism, default, required, domains) = {
        let mut k = Gen::new(g, &n);
        let ism = if g.chance(2, 3) {
            json!({"type": "multisig", "owner": "<signer>", "validators": k.validators(g, false)})
        } else {
            k.ism(g, 2)
        };
        let igp = loop_igp(&mut k, g);
        let mut hooks = vec![json!({"type": "merkle"}), igp];
        if g.bool() {
            hooks.reverse();
        }
        let low = g.chance(2, 3);
        if g.chance(1, 3) {
            hooks.insert(g.idx(3), k.hook(g, !low as u64));
        }
        let mut default = json!({"type": "aggregate", "owner": "<signer>", "hooks": hooks});
        let mut required = k.hook(g, if low { 0 } else { 2 });
        if low {
            // fees which the scripts can pay
            cheap(g, &mut default);
            cheap(g, &mut required);
        }
        (ism, default, required, k.domains.clone())
    };
    let mut deploy = json!({"ism": ism, "hooks": {"default": default, "required": required}});
    let out = n.run("cli", json!(["deploy"]), &n.ctx(), deploy.clone(), json!({}))?;
    g.log(|| format!("deploy {deploy}: {} contracts, {}", n.made.len(), why(&out)));
    let s = check_system(&n, &out, &deploy, &domains)?;
    check_eq!(n.made.len(), s.contracts, "contracts instantiated");
    let (mut ctx, m, va) = (s.ctx, s.mailbox, s.va);
    let served: Vec<u32> = deploy["hooks"]["default"]["hooks"].as_array().unwrap().iter().find(|h| h["type"] == "igp").map(|h| keys(&h["configs"]).iter().map(|d| d.parse().unwrap()).collect()).unwrap_or_default();
    if g.bool() {
        // a receiver for tests, recorded by hand
        let id = ctx["artifacts"]["hpl_test_mock_msg_receiver"].as_u64().unwrap();
        let a = n.c.mock(&Cfg::default());
        n.codes.insert(a.clone(), id);
        ctx["deployments"]["test"] = json!({"msg_receiver": {"type": "hpl_test_mock_msg_receiver", "address": a, "hexed": n.hexed(&a)}});
    }
    let ops = g.list(8, 14, |g| g.below(10));
    for op in ops {
        match op {
            0 => {
                // new prices
                let Some(i) = deploy["hooks"]["default"]["hooks"].as_array().unwrap().iter().position(|h| h["type"] == "igp") else { continue };
                let mut k = Gen::new(g, &n);
                k.domains = domains.clone();
                let new = k.map(g, 1, |_, g| json!({"exchange_rate": 1 + g.amount(SAFE - 1) as u64, "gas_price": 1 + g.amount(SAFE - 1) as u64}));
                let h = &mut deploy["hooks"]["default"]["hooks"][i]["configs"];
                let old = h.clone();
                *h = new.clone();
                if g.chance(1, 6) {
                    failing(&mut n, &["update", "igp-oracle"], &ctx, &deploy)?;
                }
                let out = n.run("cli", json!(["update", "igp-oracle"]), &ctx, deploy.clone(), json!({}))?;
                g.log(|| format!("update igp-oracle {new}: {}", why(&out)));
                check!(out.get("done").is_some(), "updating the oracle failed: {}", why(&out));
                let mut all = old.as_object().unwrap().clone();
                all.extend(new.as_object().unwrap().clone());
                deploy["hooks"]["default"]["hooks"][i]["configs"] = V::Object(all);
                n.check_hook(&deploy["hooks"]["default"], &ctx["deployments"]["hooks"]["default"], &m)?;
                good += 1;
            }
            1 => {
                let mut k = Gen::new(g, &n);
                k.domains = domains.clone();
                let many = g.chance(1, 6);
                let new = k.validators(g, many);
                if deploy["ism"]["type"] != "multisig" || deploy["ism"]["owner"] != "<signer>" {
                    let mut other = deploy.clone();
                    if deploy["ism"]["type"] == "multisig" {
                        if new == json!({}) {
                            continue;
                        }
                        other["ism"]["validators"] = new;
                    }
                    let before = n.c.state();
                    let out = n.run("cli", json!(["update", "ism-multisig"]), &ctx, other, json!({}))?;
                    check!(out.get("done").is_none(), "validators of a {} of another owner were updated", deploy["ism"]["type"]);
                    n.c.unchanged(&before, "a refused update")?;
                    continue;
                }
                let mut all = deploy["ism"]["validators"].as_object().unwrap().clone();
                deploy["ism"]["validators"] = new.clone();
                if new != json!({}) && g.chance(1, 6) {
                    failing(&mut n, &["update", "ism-multisig"], &ctx, &deploy)?;
                }
                let out = n.run("cli", json!(["update", "ism-multisig"]), &ctx, deploy.clone(), json!({}))?;
                g.log(|| format!("update ism-multisig {new}: {}", why(&out)));
                check!(out.get("done").is_some(), "updating the validators failed: {}", why(&out));
                all.extend(new.as_object().unwrap().clone());
                deploy["ism"]["validators"] = V::Object(all);
                n.check_ism(&deploy["ism"], &ctx["deployments"]["isms"], &domains)?;
                good += 1;
            }
            2 | 3 => good += warp(g, &mut n, &mut ctx, &m, &served)?,
            4 | 5 => good += migrate(g, &mut n, &mut ctx)?,
            6 => {
                n.deaf = g.chance(1, 10);
                let out = n.run("cli", json!(["context", "make-agent-config", "--output", "/work/elsewhere"]), &ctx, json!({}), json!({}))?;
                check!(out.get("done").is_some(), "making the agent configuration failed: {}", why(&out));
                let agent: V = out["files"]["/work/elsewhere/test-net-1.config.json"].as_str().and_then(|s| serde_json::from_str(s).ok()).ok_or("no agent configuration was saved")?;
                check_agent(&n, &agent, &ctx["deployments"], &m, &va)?;
                good += 1;
            }
            7 => good += upload(g, &mut n, &mut ctx)?,
            8 => good += dispatch(g, &mut n, &ctx, &m, &served)?,
            _ => {
                let len = *g.pick(&[20usize, 32]);
                let raw = g.bytes(len);
                let (args, want) = if g.bool() {
                    (json!(["wallet", "convert-cosmos-to-eth", refs::bech32(&n.c.hrp(), &raw)]), hx(&[vec![0; 32 - len], raw].concat()))
                } else {
                    (json!(["wallet", "zero-pad", format!("{}{}", if g.bool() { "0x" } else { "" }, hx(&raw))]), hx(&[vec![0; 32 - len], raw].concat()))
                };
                let out = n.run("cli", args.clone(), &ctx, json!({}), json!({}))?;
                check_eq!(out["said"], json!([format!("0x{want}")]), "what {args} prints");
            }
        }
    }
    if good > 2 {
        g.nontrivial();
    }
    Ok(())
}

/// A command whose first transaction fails.
fn failing(n: &mut Net, args: &[&str], ctx: &V, deploy: &V) -> Result<(), String> {
    let before = n.c.state();
    (n.fault, n.faulted) = (Some(n.txs + 1), None);
    let out = n.run("cli", json!(args), ctx, deploy.clone(), json!({}))?;
    n.fault = None;
    if n.faulted.is_some() {
        check!(out.get("done").is_none(), "the transaction failed, and {args:?} is reported as done");
    }
    n.faulted = None;
    n.c.unchanged(&before, "a failed update")
}

fn cheap(g: &mut G, v: &mut V) {
    match v["type"].as_str() {
        Some("fee") => v["fee"] = json!({"amount": 1 + g.below(30)}),
        Some("pausable") => v["paused"] = json!(false),
        Some("igp") => {
            v["default_gas_usage"] = json!(g.below(30));
            v.as_object_mut().unwrap().remove("token");
            for e in v["configs"].as_object_mut().unwrap().values_mut() {
                *e = json!({"exchange_rate": 1 + g.below(10_000_000_000), "gas_price": 1 + g.below(3)});
            }
        }
        _ => {}
    }
    match v {
        V::Object(o) => o.values_mut().for_each(|x| cheap(g, x)),
        V::Array(l) => l.iter_mut().for_each(|x| cheap(g, x)),
        _ => {}
    }
}

fn loop_igp(k: &mut Gen, g: &mut G) -> V {
    let configs = k.map(g, 1, |_, g| json!({"exchange_rate": 1 + g.amount(SAFE - 1) as u64, "gas_price": 1 + g.amount(SAFE - 1) as u64}));
    json!({"type": "igp", "owner": "<signer>", "configs": configs, "default_gas_usage": g.amount(SAFE) as u64})
}

fn check_agent(n: &Net, agent: &V, d: &V, m: &str, va: &str) -> Result<(), String> {
    let a = &agent["chains"]["testnet1"];
    let w = |a: &str| json!(n.hexed(a));
    check_eq!(a["mailbox"], w(m), "mailbox in the agent configuration");
    check_eq!(a["validatorAnnounce"], w(va), "announcements in the agent configuration");
    for (k, name) in [("interchainGasPaymaster", "hpl_igp"), ("merkleTreeHook", "hpl_hook_merkle")] {
        let mut all = has(&d["hooks"]["default"], name);
        if all.is_empty() {
            all = has(&d["hooks"]["required"], name);
        }
        check!(all.iter().any(|x| a[k] == w(x)), "{k} in the agent configuration is {}, deployed are {all:?}", a[k]);
    }
    check_eq!(a["domainId"], json!(n.local), "domain in the agent configuration");
    check_eq!(a["chainId"], json!("test-net-1"), "chain in the agent configuration");
    check_eq!(a["bech32Prefix"], json!(n.c.hrp()), "prefix in the agent configuration");
    check_eq!(a["canonicalAsset"], json!(n.denom), "asset in the agent configuration");
    check_eq!(a["gasPrice"], json!({"amount": "0.025", "denom": n.denom}), "gas price in the agent configuration");
    check_eq!(a["contractAddressBytes"], json!(32), "address size in the agent configuration");
    check_eq!(a["protocol"], json!("cosmos"), "protocol in the agent configuration");
    check_eq!(a["rpcUrls"], json!([{"http": n.rpc}]), "endpoints in the agent configuration");
    check_eq!(a["grpcUrls"], json!([{"http": n.grpc}]), "endpoints in the agent configuration");
    if !n.deaf {
        check_eq!(a["index"]["from"], json!(1233), "first block in the agent configuration");
    }
    Ok(())
}

fn warp(g: &mut G, n: &mut Net, ctx: &mut V, m: &str, domains: &[u32]) -> Result<usize, String> {
    let known: Vec<V> = ["native", "cw20"].iter().flat_map(|k| ctx["deployments"]["warp"][*k].as_array().cloned().unwrap_or_default()).collect();
    if known.is_empty() || g.chance(1, 3) {
        let cw20 = g.bool();
        let kind = if cw20 { "cw20" } else { "native" };
        let id = format!("token{}", g.below(4));
        let bridged = g.bool();
        let config = match (cw20, bridged) {
            (false, false) => json!({"collateral": {"denom": "uosmo"}}),
            (false, true) => json!({"bridged": {"denom": "tok"}}),
            (true, false) => {
                let t = n.c.make(CW20, &n.signer, json!({"name": "token", "symbol": "TOK", "decimals": 6, "initial_balances": [], "mint": null, "marketing": null}));
                json!({"collateral": {"address": t}})
            }
            (true, true) => json!({"bridged": {"code_id": CW20, "init_msg": {"name": "token", "symbol": "TOK", "decimals": 6, "initial_balances": []}}}),
        };
        let owner = if g.chance(3, 4) { json!("<signer>") } else { json!(gen_account(g, &n.c)) };
        let with_ism = owner == json!("<signer>") && g.bool();
        let ism = gen_account(g, &n.c);
        let mut args = vec!["warp".to_string(), "create".into(), "warp.json".into()];
        if with_ism {
            args.extend(["--ism".into(), ism.clone()]);
        }
        let file = json!({"type": kind, "mode": if bridged { "bridged" } else { "collateral" }, "id": id, "owner": owner, "config": config});
        let before = n.c.state();
        let made = n.made.len();
        let exists = known.iter().any(|k| k["id"] == json!(id) && k["type"] == json!(format!("hpl_warp_{kind}")));
        if g.chance(1, 6) {
            // repeated
            n.fault = Some(n.txs + 1);
        }
        if with_ism && g.chance(1, 6) {
            (n.sour, n.thrown) = (Some(1), g.bool());
        }
        let out = n.run("cli", json!(args), ctx, json!({}), json!({"/work/warp.json": file.to_string()}))?;
        (n.fault, n.faulted) = (None, None);
        g.log(|| format!("warp create {file} (ism {with_ism}): {}", why(&out)));
        if n.soured.is_some() {
            check!(out.get("done").is_none(), "the module of a route could not be set, and the route is reported as created");
            return Ok(0);
        }
        if exists {
            n.c.unchanged(&before, "creating a route that exists")?;
            check_eq!(out["ctx"], *ctx, "context after creating a route that exists");
            return Ok(0);
        }
        check!(out.get("done").is_some(), "creating a route failed: {}", why(&out));
        let saved: V = out["files"]["/work/context/test-net-1.json"].as_str().and_then(|s| serde_json::from_str(s).ok()).ok_or("no context was saved")?;
        let list = saved["deployments"]["warp"][kind].as_array().cloned().unwrap_or_default();
        let rec = list.iter().find(|r| r["id"] == json!(id)).ok_or("the new route is not recorded")?;
        let a = n.check_contract(rec, &format!("hpl_warp_{kind}"), Some(&owner))?;
        check_eq!(n.made.len(), made + 1, "contracts instantiated");
        let conn = |k: &str| n.c.q(&a, json!({"connection": {format!("get_{k}"): {}}})).map(|v| v[k].clone());
        // only what comes from the mailbox is taken for a message
        let f = n.c.fork();
        f.ok(&n.who(&owner), &a, json!({"router": {"set_route": {"set": {"domain": 7, "route": hx(&[3; 32])}}}}));
        let body = hx(&[vec![0; 12], vec![5; 20], vec![0; 31], vec![1]].concat());
        let [by, other] = [m, &n.signer].map(|who| f.fork().exec_raw(who, &a, json!({"handle": {"origin": 7, "sender": hx(&[3; 32]), "body": body}}).to_string().as_bytes(), &[]));
        check!(other.is_err() && short_err(&by) != short_err(&other), "the route does not listen to the mailbox: {}", short_err(&by));
        check_eq!(conn("ism")?, if with_ism { json!(ism) } else { V::Null }, "verification module of the route");
        let mode = n.c.q(&a, json!({"token_default": {"token_mode": {}}}))?;
        check_eq!(mode["mode"], json!(if bridged { "bridged" } else { "collateral" }), "mode of the route");
        // nothing else was touched
        let mut want = ctx.clone();
        if want["deployments"].get("warp").is_none() {
            want["deployments"]["warp"] = json!({"native": [], "cw20": []});
        }
        want["deployments"]["warp"][kind].as_array_mut().ok_or("harness: list of routes")?.push(rec.clone());
        check_eq!(saved, want, "saved context");
        *ctx = saved;
        return Ok(1);
    }
    let rec = g.pick(&known).clone();
    let kind = rec["type"].as_str().unwrap().trim_start_matches("hpl_warp_").to_string();
    let a = rec["address"].as_str().unwrap().to_string();
    let dest = if g.chance(1, 4) { g.domain() } else { *g.pick(domains) };
    let len = *g.pick(&[20usize, 32]);
    let remote = g.bytes(len);
    let text = format!("{}{}", if g.bool() { "0x" } else { "" }, hx(&remote));
    let padded = [vec![0; 32 - len], remote].concat();
    let mine = owner(&n.c, &a)? == n.signer;
    let before = n.c.state();
    let id = if g.chance(1, 8) { "unknown" } else { rec["id"].as_str().unwrap() };
    n.late = g.below(6);
    let lost = g.chance(1, 16);
    if lost {
        n.late = 1_000;
    } else if g.chance(1, 8) {
        (n.sour, n.thrown) = (Some(1), g.bool());
    }
    let out = n.run("cli", json!(["warp", "link", "--asset-type", kind, "--asset-id", id, "--target-domain", dest.to_string(), "--warp-address", text]), ctx, json!({}), json!({}))?;
    g.log(|| format!("warp link {kind} {id} to {text} on {dest}: {}", why(&out)));
    if id == "unknown" || !mine {
        return n.c.unchanged(&before, "a refused link").map(|_| 0);
    }
    if n.soured.is_some() {
        check!(out.get("done").is_none(), "the transaction failed, and the link is reported as done");
        return Ok(0);
    }
    if lost {
        check!(out.get("done").is_none(), "the transaction was never found, and the link is reported as done");
        return Ok(0);
    }
    check!(out.get("done").is_some(), "linking a route failed: {}", why(&out));
    let got = n.c.q(&a, json!({"router": {"get_route": {"domain": dest}}}))?;
    check_eq!(got["route"]["route"], json!(hx(&padded)), "router enrolled for {dest}");
    if kind == "native" && g.chance(3, 4) {
        // a transfer over it: the mailbox has to be usable, its fees are paid by more than enough
        let denom = if n.c.q(&a, json!({"token_default": {"token_type": {}}}))?["type"]["native"]["fungible"]["denom"].is_string() { n.c.q(&a, json!({"token_default": {"token_type": {}}}))?["type"]["native"]["fungible"]["denom"].as_str().unwrap().to_string() } else { "uosmo".into() };
        let amount = 1 + g.below(1_000_000);
        let fee = if g.bool() { n.denom.clone() } else { g.pick::<&str>(&["uosmo", "inj", "zzz"]).to_string() };
        let f = n.c.fork();
        let mut funds = bag(&[coin(50, &fee)]);
        bag_add(&mut funds, &bag(&[coin(amount as u128, &denom)]));
        for k in bag_coins(&funds) {
            n.c.mint(&n.signer, &k.denom, k.amount.u128());
            f.mint(&n.signer, &k.denom, k.amount.u128());
        }
        let eth = parse_hex(&n.signer_eth).unwrap();
        let want = f.exec_raw(&n.signer, &a, json!({"transfer_remote": {"dest_domain": dest, "recipient": hx(&[vec![0; 12], eth].concat()), "amount": amount.to_string()}}).to_string().as_bytes(), &bag_coins(&funds));
        let out = n.run("cli", json!(["warp", "transfer", "--asset-type", kind, "--asset-id", id, "--target-domain", dest.to_string(), "--amount", amount.to_string(), "--bridged-denom", denom, "--fee-denom", fee]), ctx, json!({}), json!({}))?;
        g.log(|| format!("warp transfer of {amount}{denom} to {dest} with a fee in {fee}: {} ({})", why(&out), short_err(&want)));
        check_eq!(out.get("done").is_some(), want.is_ok(), "whether the transfer of {amount}{denom} with 50{fee} went through: {} ({})", why(&out), short_err(&want));
        check_eq!(n.c.state() == f.state(), true, "effect of a transfer: {}", f.state().diff(&n.c.state()));
        if want.is_ok() {
            g.label("transfer");
        }
    }
    Ok(1)
}

fn dispatch(g: &mut G, n: &mut Net, ctx: &V, m: &str, domains: &[u32]) -> Result<usize, String> {
    let dest = if g.chance(1, 4) { g.domain() } else { *g.pick(domains) };
    let len = *g.pick(&[20usize, 32]);
    let to = g.bytes(len);
    let body: String = (0..g.below(20)).map(|_| *g.pick(&['a', '0', ' ', 'é', '宝', '\n', '"'])).collect();
    let body = format!("m{body}");
    let fee = coin(500, &n.denom);
    n.c.mint(&n.signer, &n.denom, 500);
    let f = n.c.fork();
    let padded = [vec![0; 32 - len], to.clone()].concat();
    let want = f.exec_raw(&n.signer, m, json!({"dispatch": {"dest_domain": dest, "recipient_addr": hx(&padded), "msg_body": hx(body.as_bytes())}}).to_string().as_bytes(), &[fee]);
    if g.chance(1, 8) {
        (n.sour, n.thrown) = (Some(1), g.bool());
    }
    n.late = g.below(6);
    let before = n.c.state();
    let out = n.run("cli", json!(["contract", "test-dispatch", dest.to_string(), format!("{}{}", if g.bool() { "0x" } else { "" }, hx(&to)), body]), ctx, json!({}), json!({}))?;
    g.log(|| format!("contract test-dispatch: {}", why(&out)));
    if n.soured.is_some() {
        check!(out.get("done").is_none(), "the transaction failed, and the dispatch is reported as done");
        n.c.unchanged(&before, "a failed dispatch")?;
        return Ok(0);
    }
    check_eq!(out.get("done").is_some(), want.is_ok(), "whether a message was dispatched: {} ({})", why(&out), short_err(&want));
    check!(n.c.state() == f.state(), "effect of a dispatch: {}", f.state().diff(&n.c.state()));
    if want.is_ok() {
        g.label("dispatch");
    }
    Ok(want.is_ok() as usize)
}

fn migrate(g: &mut G, n: &mut Net, ctx: &mut V) -> Result<usize, String> {
    // some artifacts were uploaded anew, with or without a change
    let mut ctx2 = ctx.clone();
    for _ in 0..g.below(4) {
        let name = NAMES[g.idx(20)].0;
        let id = 10_000 + n.sums.len() as u64;
        let old = ctx2["artifacts"][name].as_u64().unwrap();
        let s = if g.chance(1, 4) { n.sums[&old].clone() } else { sum(name, id) };
        n.sums.insert(id, s);
        n.names.insert(id, name);
        ctx2["artifacts"][name] = json!(id);
    }
    let filter: Option<Vec<&str>> = g.chance(1, 3).then(|| (0..1 + g.idx(3)).map(|_| NAMES[g.idx(20)].0).collect());
    let mut args = vec!["migrate".to_string()];
    if let Some(f) = &filter {
        args.push("--contracts".into());
        args.extend(f.iter().map(|s| s.to_string()));
    }
    let mut want = BTreeMap::new();
    for (t, a) in contracts_in(&ctx2["deployments"]) {
        let (have, new) = (n.codes[&a], ctx2["artifacts"][&t].as_u64().unwrap());
        if n.sums[&have] != n.sums[&new] && filter.as_ref().is_none_or(|f| f.contains(&t.as_str())) {
            want.insert(a, new);
        }
    }
    n.migrated.clear();
    let before = n.c.state();
    let mut lost = false;
    if g.chance(1, 6) {
        n.reply = "n";
    } else if g.chance(1, 5) {
        n.sour = Some(g.range(1, 3));
    } else if g.chance(1, 10) {
        lost = !want.is_empty();
        n.late = 1_000;
    }
    let declined = n.reply == "n";
    let out = n.run("cli", json!(args), &ctx2, json!({}), json!({}))?;
    g.log(|| format!("{args:?} (declined: {declined}, failed: {:?}): {:?}, {}", n.soured, n.migrated, why(&out)));
    if declined {
        check_eq!(n.migrated, vec![], "migrated although the operator declined");
        want.clear();
    }
    if n.soured.is_some() || lost {
        check!(out.get("done").is_none(), "a migration failed, and is reported as done");
        for (a, id) in &n.migrated {
            check_eq!(want.get(a), Some(id), "migration of {a}");
        }
        n.c.unchanged(&before, "migrating")?;
        n.artifacts = ctx2["artifacts"].clone();
        *ctx = ctx2;
        return Ok(0);
    }
    check!(out.get("done").is_some(), "migrating failed: {}", why(&out));
    check_eq!(n.migrated.len(), want.len(), "migrations ({:?}, due {want:?})", n.migrated);
    check_eq!(n.migrated.iter().cloned().collect::<BTreeMap<_, _>>(), want, "migrated contracts");
    n.c.unchanged(&before, "migrating")?;
    n.artifacts = ctx2["artifacts"].clone();
    *ctx = ctx2;
    Ok(!want.is_empty() as usize)
}

/// v1.2.3-rc4 as [1, 2, 3, 4]; what is no candidate comes after its candidates.
fn tag_of(s: &str) -> Option<[u64; 4]> {
    let (v, rc) = match s.strip_prefix('v')?.split_once("-rc") {
        Some((v, rc)) => (v, rc.parse().ok()?),
        None => (s.strip_prefix('v')?, u64::MAX),
    };
    let v: Vec<u64> = v.split('.').map(|x| x.parse().ok()).collect::<Option<_>>()?;
    Some([*v.first()?, *v.get(1)?, *v.get(2)?, rc])
}
fn show_tag(t: &[u64; 4]) -> String {
    let rc = if t[3] == u64::MAX { String::new() } else { format!("-rc{}", t[3]) };
    format!("v{}.{}.{}{rc}", t[0], t[1], t[2])
}
fn gen_tag(g: &mut G, min: &[u64; 4]) -> [u64; 4] {
    let mut t = *min;
    for i in 0..4 {
        if g.chance(1, 3) {
            t[i] = match g.below(4) {
                0 => t[i].saturating_add(1),
                1 => t[i].saturating_sub(1),
                2 => g.below(120),
                _ => g.below(12),
            };
            if i == 3 && g.bool() {
                t[i] = u64::MAX;
            }
        }
    }
    if t[3] != u64::MAX {
        t[3] %= 1000;
    }
    t
}

fn upload(g: &mut G, n: &mut Net, ctx: &mut V) -> Result<usize, String> {
    // artifacts on disk: as uploaded, changed, or not uploaded yet
    let mut files = json!({});
    let mut ctx2 = ctx.clone();
    let mut due = BTreeMap::new();
    let version = 1 + g.below(1 << 40);
    let filter: Option<Vec<&str>> = g.chance(1, 3).then(|| (0..1 + g.idx(3)).map(|_| NAMES[g.idx(20)].0).collect());
    // some were not built
    let lacking = g.chance(1, 6);
    let mut missing = 0;
    for (name, _) in NAMES {
        let mut text = format!("{name} {version}");
        match g.below(6) {
            0 => {}
            1 => {
                ctx2["artifacts"].as_object_mut().unwrap().remove(name);
            }
            _ => {
                // what is on the chain
                let id = 10_000 + n.sums.len() as u64;
                text = format!("{name} {id}");
                n.sums.insert(id, sum(name, id));
                n.names.insert(id, name);
                ctx2["artifacts"][name] = json!(id);
            }
        }
        let digest: String = refs::sha256(text.as_bytes()).iter().map(|b| format!("{b:02x}")).collect();
        let known = ctx2["artifacts"].get(name).and_then(|v| v.as_u64()).map(|id| n.sums[&id].clone());
        if known != Some(digest) && filter.as_ref().is_none_or(|f| f.contains(&name)) {
            due.insert(name, text.clone());
        }
        if lacking && g.chance(1, 8) {
            due.remove(name);
            missing += 1;
            continue;
        }
        files[format!("/work/artifacts/{name}.wasm")] = json!(text);
    }
    files["/work/artifacts/checksums.txt"] = json!("none");
    let mut args = vec!["upload".to_string(), "local".into()];
    if g.chance(1, 4) {
        // the same from a release, where an older one was looked at before
        let min = n.run("min", V::Null, ctx, json!({}), json!({}))?["done"].as_str().unwrap_or_default().to_string();
        let Some(min) = tag_of(&min) else { return Ok(0) };
        let tags: BTreeSet<[u64; 4]> = (0..g.range(1, 4)).map(|_| gen_tag(g, &min)).collect();
        let tags: Vec<[u64; 4]> = tags.into_iter().collect();
        let tag = *g.pick(&tags);
        let mut all = json!({});
        for (k, v) in files.as_object().unwrap() {
            all[k.rsplit('/').next().unwrap()] = v.clone();
        }
        for t in &tags {
            n.releases.insert(show_tag(t), if *t == tag { all.clone() } else { json!({"hpl_mailbox.wasm": "another"}) });
        }
        let known = !g.chance(1, 8);
        if !known {
            n.releases.remove(&show_tag(&tag));
        }
        files = json!({"/work/artifacts/hpl_mailbox.wasm": "local"});
        if g.bool() {
            for (name, _) in NAMES {
                files[format!("/work/tmp/codes/{name}.wasm")] = json!("an older release");
            }
            files["/work/tmp/codes.zip"] = json!("{}");
        }
        args = vec!["upload".to_string(), "remote".into(), show_tag(&tag)];
        if g.bool() {
            args.extend(["--out".into(), "/work/tmp".into()]);
        }
        // a listing names what can be uploaded
        let list = n.run("cli", json!(["upload", "remote-list"]), ctx, json!({}), json!({}))?;
        check!(list.get("done").is_some(), "listing the releases failed: {}", why(&list));
        let said = list["said"].to_string();
        for t in n.releases.keys() {
            check_eq!(said.contains(&format!("[{t}]")), tag_of(t).unwrap() >= min, "whether {t} is listed, where the oldest is {}", show_tag(&min));
        }
        if tag < min || !known {
            n.uploads.clear();
            let out = n.run("cli", json!(args), &ctx2, json!({}), files)?;
            n.releases.clear();
            check!(out.get("done").is_none() && n.uploads.is_empty(), "{args:?} uploaded {:?}, where the oldest is {} (published: {known})", n.uploads, show_tag(&min));
            g.label("release not to be had");
            return Ok(0);
        }
        g.label("release");
    }
    if let Some(f) = &filter {
        args.push("-c".into());
        args.extend(f.iter().map(|s| s.to_string()));
    }
    let restricted = g.chance(1, 3);
    if restricted {
        args.push("--set-instantiate-admin".into());
    }
    n.uploads.clear();
    n.perms.clear();
    if g.chance(1, 4) {
        (n.sour, n.thrown) = (Some(g.range(1, 4)), g.bool());
    }
    if g.chance(1, 6) {
        n.reply = "n";
    }
    let declined = n.reply == "n";
    let out = n.run("cli", json!(args), &ctx2, json!({}), files)?;
    n.releases.clear();
    g.log(|| format!("{args:?} (declined: {declined}, not built: {missing}, failed: {:?}): {:?}, {}", n.soured, n.uploads, why(&out)));
    if let Some(t) = &n.soured {
        g.label("failed upload");
        let len = due.len();
        due.retain(|_, v| v != t);
        check_eq!(due.len(), len - 1, "an upload of {t:?}, which is not due");
    }
    let done = out.get("done").is_some();
    if missing == 0 && n.soured.is_none() {
        check!(done, "uploading failed: {}", why(&out));
    }
    if declined {
        check_eq!(n.uploads, Vec::<String>::new(), "uploaded although the operator declined");
        due.clear();
    }
    // one that stopped may have left some, but what it stored is recorded
    let stored: BTreeSet<&String> = n.uploads.iter().collect();
    if !done {
        g.label("upload that stopped");
        due.retain(|_, t| stored.contains(t));
    }
    let mut up = n.uploads.clone();
    let mut want: Vec<String> = due.values().cloned().collect();
    let ids: BTreeMap<String, u64> = n.uploads.iter().enumerate().map(|(i, t)| (t.clone(), 90_000 + i as u64)).collect();
    up.sort();
    want.sort();
    check_eq!(up, want, "uploaded artifacts");
    for p in &n.perms {
        let kind = p["permission"].as_u64();
        let who = if kind == Some(2) { json!([p["address"]]) } else { p["addresses"].clone() };
        let only = matches!(kind, Some(2 | 4)) && who == json!([n.signer]);
        let free = p.is_null() || kind == Some(3);
        check!(if restricted { only } else { free }, "who may instantiate an uploaded code (to be restricted: {restricted}): {p}");
    }
    let mut art = ctx2["artifacts"].clone();
    for (name, text) in &due {
        art[*name] = json!(ids[text]);
    }
    if done {
        check_eq!(out["ctx"]["artifacts"], art, "recorded codes");
    }
    if !due.is_empty() {
        let saved: V = out["files"]["/work/context/test-net-1.json"].as_str().and_then(|s| serde_json::from_str(s).ok()).ok_or("no context was saved")?;
        check_eq!(saved["artifacts"], art, "saved codes");
        check_eq!(saved["deployments"], ctx["deployments"], "saved deployments");
    }
    // the codes of this upload are not used any further
    for id in ids.values() {
        n.sums.remove(id);
    }
    Ok(!due.is_empty() as usize)
}
