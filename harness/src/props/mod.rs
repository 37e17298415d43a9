use crate::engine::Sub;

pub struct Prop {
    pub id: &'static str,
    pub subs: Vec<Sub>,
    pub assumptions: Vec<&'static str>,
}

mod admin;
mod codec;
mod deploy;
mod e2e;
mod events;
pub mod hooks;
mod hostile;
mod igp;
mod init;
mod isms;
mod router;
mod va;
mod warp;
mod mailbox;

pub const SIM: &str = "contracts run natively on a simulated chain (harness/src/chain.rs): atomic transactions, sub-messages and replies, bank, smart queries; a panic aborts like a wasm trap; gas is not modelled";

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(mailbox::props());
    v.extend(codec::props());
    v.extend(isms::props());
    v.extend(hooks::props());
    v.extend(igp::props());
    v.extend(va::props());
    v.extend(router::props());
    v.extend(admin::props());
    v.extend(warp::props());
    v.extend(hostile::props());
    v.extend(e2e::props());
    v.extend(events::props());
    v.extend(init::props());
    v.extend(deploy::props());
    v
}
