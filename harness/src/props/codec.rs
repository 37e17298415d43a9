//! C06 message format, C07 addresses, C08 merkle tree, C29 metadata formats.
use super::Prop;
use crate::engine::{guarded, Sub, G};
use crate::refs::{self, bech32, bech32_parse, keccak, pad32, sh, RefMsg, Variant};
use crate::world::*;
use cosmwasm_std::{Addr, HexBinary, Uint256};
use hpl_interface::types::{
    self, bech32_decode, bech32_encode, bech32_to_h256, AggregateMetadata, IGPMetadata, MerkleRootMultisigIsmMetadata, MerkleTree, Message,
    MessageIdMultisigIsmMetadata,
};
use hpl_interface::warp;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            assumptions: vec!["a panic while decoding is a rejection, as it aborts the contract"],
            subs: vec![
                Sub { name: "encode-decode", cases: (900_000, 6_000_000), rule: "a body or a field at a boundary", run: c06_fields },
                Sub { name: "decode-encode", cases: (900_000, 6_000_000), rule: "a byte string within 3 bytes of the 77-byte minimum or with a body", run: c06_bytes },
            ],
        },
        Prop {
            id: "C07",
            assumptions: vec!["bech32m strings and encodings of other than 20 or 32 bytes are not asserted either way when decoding"],
            subs: vec![
                Sub { name: "round-trip", cases: (1_000_000, 4_000_000), rule: "an address with leading zero bytes or of an invalid length", run: c07_roundtrip },
                Sub { name: "decode", cases: (1_000_000, 4_000_000), rule: "a string altered from a valid one", run: c07_decode },
            ],
        },
        Prop {
            id: "C08",
            assumptions: vec!["keccak256 is collision free on the generated values"],
            subs: vec![
                Sub { name: "small-trees", cases: (12_000, 30_000), rule: "at least three leaves", run: c08_small },
                Sub { name: "huge-trees", cases: (48_000, 150_000), rule: "more than 2^16 leaves", run: c08_huge },
            ],
        },
        Prop {
            id: "C29",
            assumptions: vec!["a panic while decoding is a rejection, as it aborts the contract"],
            subs: vec![
                Sub { name: "multisig", cases: (100_000, 2_000_000), rule: "at least one signature", run: c29_multisig },
                Sub { name: "merkle-root-multisig", cases: (30_000, 500_000), rule: "at least one signature", run: c29_merkle_root },
                Sub { name: "aggregate", cases: (150_000, 3_000_000), rule: "at least two modules", run: c29_aggregate },
                Sub { name: "gas-and-transfer", cases: (150_000, 3_000_000), rule: "a payload longer than its fixed part", run: c29_gas },
            ],
        },
    ]
}

fn hb(b: &[u8]) -> HexBinary {
    HexBinary::from(b.to_vec())
}

fn lib(m: &RefMsg) -> Message {
    Message { version: m.version, nonce: m.nonce, origin_domain: m.origin, sender: hb(&m.sender), dest_domain: m.dest, recipient: hb(&m.recipient), body: hb(&m.body) }
}

fn gen_msg(g: &mut G) -> RefMsg {
    let sender = gen_wire(g).try_into().unwrap();
    let recipient = gen_wire(g).try_into().unwrap();
    RefMsg { version: g.byte(), nonce: g.domain(), origin: g.domain(), sender, dest: g.domain(), recipient, body: if g.chance(1, 1500) { let n = *g.pick(&[65_535usize, 65_536, 70_000, 5000]); g.fill(n) } else { g.blob(300) } }
}

fn c06_fields(g: &mut G) -> Result<(), String> {
    let m = gen_msg(g);
    g.log(|| format!("{m:?}"));
    let enc: HexBinary = lib(&m).into();
    check_eq!(hx(&enc), hx(&m.encode()), "encoding of {m:?}");
    let dec: Message = enc.clone().into();
    check_eq!(dec, lib(&m), "decoding an encoding");
    check_eq!(hx(&lib(&m).id()), hx(&m.id()), "message id");
    check_eq!(hx(&types::keccak256_hash(&enc)), hx(&m.id()), "keccak256");
    // a message differing in one place has another encoding and id
    let mut o = m.clone();
    match g.below(7) {
        0 => o.version = o.version.wrapping_add(g.range(1, 255) as u8),
        1 => o.nonce ^= 1 << g.below(32),
        2 => o.origin ^= 1 << g.below(32),
        3 => {
            let i = g.idx(32);
            o.sender[i] ^= g.range(1, 255) as u8
        }
        4 => o.dest ^= 1 << g.below(32),
        5 => {
            let i = g.idx(32);
            o.recipient[i] ^= g.range(1, 255) as u8
        }
        _ => {
            if o.body.is_empty() || g.bool() {
                o.body.push(g.byte())
            } else if g.bool() {
                o.body.pop();
            } else {
                let i = g.idx(o.body.len());
                o.body[i] ^= g.range(1, 255) as u8
            }
        }
    }
    check!(HexBinary::from(lib(&o)) != enc, "two messages share an encoding: {m:?} {o:?}");
    check!(lib(&o).id() != lib(&m).id(), "two messages share an id: {m:?} {o:?}");
    // fields exchanged
    let mut s = m.clone();
    std::mem::swap(&mut s.sender, &mut s.recipient);
    std::mem::swap(&mut s.origin, &mut s.dest);
    check_eq!(hx(&HexBinary::from(lib(&s))), hx(&s.encode()), "encoding with sender and recipient exchanged");
    if !m.body.is_empty() || [m.nonce, m.origin, m.dest].iter().any(|v| *v == 0 || *v == u32::MAX) {
        g.nontrivial();
    }
    Ok(())
}

fn c06_bytes(g: &mut G) -> Result<(), String> {
    let n = match g.below(4) {
        0 => g.range(74, 80) as usize,
        1 => g.idx(77),
        _ => g.range(77, 400) as usize,
    };
    let mut b = g.bytes(n);
    match g.below(12) {
        0 => b.fill(0),
        1 => b.iter_mut().for_each(|v| *v &= 1),
        2 => {
            // the encoding of a message as text
            b = hx(&b).into_bytes();
        }
        _ => {}
    }
    if g.chance(1, 2000) {
        let n = 65_536 + 77 + g.idx(2000);
        b = g.fill(n);
    }
    let n = b.len();
    g.log(|| format!("{} bytes", b.len()));
    let r = guarded(|| Message::from(hb(&b)));
    match RefMsg::decode(&b) {
        None => check!(r.is_err(), "{} bytes were accepted as a message", b.len()),
        Some(m) => {
            let d = r.map_err(|e| format!("{} bytes were not decoded: {e}", b.len()))?;
            check_eq!(d, lib(&m), "decoded message");
            check_eq!(hx(&HexBinary::from(d.clone())), hx(&b), "decode then encode");
            check_eq!(hx(&d.id()), hx(&keccak(&[&b])), "id of a decoded message");
        }
    }
    if n > 77 || n >= 74 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

fn gen_hrp(g: &mut G) -> String {
    match g.below(4) {
        0..=1 => g.pick::<&str>(&HRPS).to_string(),
        _ => {
            let n = g.range(1, 20);
            (0..n).map(|_| (b'a' + g.below(26) as u8) as char).collect()
        }
    }
}

fn c07_roundtrip(g: &mut G) -> Result<(), String> {
    let hrp = gen_hrp(g);
    let n = match g.below(8) {
        0..=2 => 20,
        3..=5 => 32,
        6 => *g.pick(&[0usize, 1, 19, 21, 31, 33, 40, 52, 64]),
        _ => g.idx(70),
    };
    let mut raw = g.bytes(n);
    let z = if g.bool() { 0 } else { g.idx(n + 1) };
    raw[..z].fill(0);
    if n == 32 && g.chance(1, 4) {
        // exactly around the boundary of 12 zero bytes
        raw[..12].fill(0);
        if g.bool() {
            let i = g.idx(12);
            raw[i] = g.range(1, 255) as u8;
        }
    }
    g.log(|| format!("prefix {hrp}, raw {}", hx(&raw)));
    let enc = bech32_encode(&hrp, &raw);
    if n != 20 && n != 32 {
        check!(enc.is_err(), "a raw address of {n} bytes was accepted: {enc:?}");
        g.nontrivial();
        return Ok(());
    }
    let enc = enc.map_err(|e| format!("a raw address of {n} bytes was refused: {e}"))?.to_string();
    let wire = pad32(&raw);
    check_eq!(enc, refs::wire_to_addr(&hrp, &wire), "address of {}", hx(&raw));
    // into the wire form and back
    let w = bech32_to_h256(&enc).map_err(|e| format!("own address refused: {e}"))?;
    check_eq!(hx(&w), hx(&wire), "wire form of {enc}");
    let back = bech32_encode(&hrp, &w).map_err(|e| format!("wire form refused: {e}"))?;
    check_eq!(back.to_string(), enc, "address to wire form and back");
    let canon: &[u8] = if wire[..12].iter().all(|v| *v == 0) { &wire[12..] } else { &wire };
    check_eq!(hx(&bech32_decode(&enc).map_err(|e| e.to_string())?), hx(canon), "raw bytes of {enc}");
    // injective: a different wire value has a different address
    let mut other = wire;
    let i = g.idx(32);
    other[i] ^= g.range(1, 255) as u8;
    let o = bech32_encode(&hrp, &other).map_err(|e| format!("wire form refused: {e}"))?.to_string();
    check!(o != enc, "{} and {} share the address {enc}", hx(&wire), hx(&other));
    check_eq!(o, refs::wire_to_addr(&hrp, &other), "address of {}", hx(&other));
    // members that use it
    let m = Message { version: 3, nonce: 0, origin_domain: 1, sender: hb(&other), dest_domain: 2, recipient: hb(&raw), body: hb(&[]) };
    check_eq!(m.recipient_addr(&hrp).map_err(|e| e.to_string())?.to_string(), enc, "recipient address");
    check_eq!(m.sender_addr(&hrp).map_err(|e| e.to_string())?.to_string(), o, "sender address");
    if z > 0 || wire[0] == 0 {
        g.nontrivial();
    }
    Ok(())
}

fn c07_decode(g: &mut G) -> Result<(), String> {
    let hrp = gen_hrp(g);
    let n = if g.chance(3, 4) { *g.pick(&[20usize, 32]) } else { g.idx(40) };
    let raw = g.bytes(n);
    let mut s = bech32(&hrp, &raw);
    let edits = g.idx(4);
    for _ in 0..edits {
        let mut b: Vec<char> = s.chars().collect();
        if b.is_empty() {
            break;
        }
        match g.below(7) {
            0 => {
                let i = g.idx(b.len());
                b[i] = *g.pick(&['q', 'p', 'z', '1', 'b', 'i', 'o', 'Q', '0', ' ', 'é', 'l']);
            }
            1 => {
                let i = g.idx(b.len());
                b.remove(i);
            }
            2 => {
                let i = g.idx(b.len() + 1);
                b.insert(i, *g.pick(&['q', 'p', '1', 'x']));
            }
            3 => {
                let (i, j) = (g.idx(b.len()), g.idx(b.len()));
                b.swap(i, j);
            }
            4 => b = b.into_iter().map(|c| c.to_ascii_uppercase()).collect(),
            5 => {
                let i = g.idx(b.len());
                b[i] = b[i].to_ascii_uppercase();
            }
            _ => {
                let k = g.idx(b.len() + 1);
                b.truncate(k);
            }
        }
        s = b.into_iter().collect();
    }
    if edits == 0 && g.chance(1, 4) {
        s = refs::bech32m(&hrp, &raw);
    }
    if edits > 0 && g.chance(1, 4) {
        // non-zero or too many padding bits with a correct checksum
        let k = g.range(1, 60) as usize;
        let d5: Vec<u8> = (0..k).map(|_| g.below(32) as u8).collect();
        s = refs::bech32_of5(&hrp, &d5, 1);
    }
    g.log(|| format!("decode {s:?}"));
    let want = bech32_parse(&s);
    let got = guarded(|| bech32_decode(&s)).and_then(|r| r.map_err(|e| e.to_string()));
    let got32 = guarded(|| bech32_to_h256(&s)).and_then(|r| r.map_err(|e| e.to_string()));
    match want {
        None => {
            check!(got.is_err(), "malformed address {s:?} was decoded to {}", sh(&got.unwrap()));
            check!(got32.is_err(), "malformed address {s:?} was converted");
        }
        Some((_, raw, Variant::Bech32)) if raw.len() == 20 || raw.len() == 32 => {
            check_eq!(got.map(|v| hx(&v)), Ok(hx(&raw)), "decoding {s:?}");
            check_eq!(got32.map(|v| hx(&v)), Ok(hx(&pad32(&raw))), "wire form of {s:?}");
        }
        Some((_, raw, _)) => {
            if let Ok(v) = got {
                check_eq!(hx(&v), hx(&raw), "decoding {s:?}");
            }
            if let Ok(v) = got32 {
                check!(raw.len() <= 32, "an address of {} bytes was converted", raw.len());
                check_eq!(hx(&v), hx(&pad32(&raw)), "wire form of {s:?}");
            }
            g.label("other valid string");
        }
    }
    if edits > 0 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

fn arr(b: &[u8; 32]) -> HexBinary {
    hb(b)
}

fn c08_small(g: &mut G) -> Result<(), String> {
    let mut t = MerkleTree::default();
    let mut leaves: Vec<[u8; 32]> = vec![];
    check_eq!(hx(&t.root().map_err(|e| e.to_string())?), hx(&refs::tree_root(&[])), "root of the empty tree");
    let n = match g.below(8) {
        0 => g.idx(4),
        7 => {
            if g.chance(1, 20) {
                g.range(500, 2200) as usize
            } else {
                g.range(64, 300) as usize
            }
        }
        _ => g.idx(40),
    };
    let every = if n > 400 { 97 } else if n > 60 { 17 } else { 1 };
    for i in 0..n {
        let leaf = match g.below(6) {
            0 if i > 0 => leaves[g.idx(i)],
            1 => refs::zero_hashes()[g.idx(33)],
            _ => g.bytes32(),
        };
        t.insert(arr(&leaf)).map_err(|e| format!("leaf {i} refused: {e}"))?;
        leaves.push(leaf);
        check_eq!(t.count, leaves.len() as u128, "count");
        if i % every == 0 || i + 1 == n {
            check_eq!(hx(&t.root().map_err(|e| e.to_string())?), hx(&refs::tree_root(&leaves)), "root after {} leaves", leaves.len());
        }
    }
    g.log(|| format!("{n} leaves"));
    if n > 0 {
        // inclusion proofs
        let layers = refs::layers(&leaves);
        let root = hx(&layers[32][0]);
        for _ in 0..3 {
            let i = g.idx(n);
            let path = refs::tree_path(&layers, i);
            let branch: [HexBinary; 32] = path.iter().map(arr).collect::<Vec<_>>().try_into().unwrap();
            check_eq!(hx(&MerkleTree::branch_root(arr(&leaves[i]), branch.clone(), i as u128)), root, "branch root of leaf {i} of {n}");
            match g.below(3) {
                0 => {
                    let k = g.idx(32);
                    let mut p = path[k];
                    p[g.idx(32)] ^= g.range(1, 255) as u8;
                    let mut b = branch.clone();
                    b[k] = arr(&p);
                    check!(hx(&MerkleTree::branch_root(arr(&leaves[i]), b, i as u128)) != root, "a branch with sibling {k} altered yields the root");
                }
                1 => {
                    let mut l = leaves[i];
                    l[g.idx(32)] ^= g.range(1, 255) as u8;
                    check!(hx(&MerkleTree::branch_root(arr(&l), branch, i as u128)) != root, "an altered leaf yields the root");
                }
                _ => {
                    let k = g.idx(32);
                    let sym = if k < 5 { layers[k].get(i >> k) == layers[k].get((i >> k) ^ 1) } else { false };
                    let node = layers[k].get(i >> k).copied().unwrap();
                    if !sym && node != path[k] {
                        check!(hx(&MerkleTree::branch_root(arr(&leaves[i]), branch, (i ^ (1 << k)) as u128)) != root, "an altered index yields the root");
                    }
                }
            }
        }
    }
    if n >= 3 {
        g.nontrivial();
    }
    Ok(())
}

fn c08_huge(g: &mut G) -> Result<(), String> {
    const MAX: u128 = (1 << 32) - 1;
    let count: u128 = match g.below(5) {
        0 => MAX - g.below(5) as u128,
        1 => {
            let b = g.range(1, 31);
            ((1u128 << b) + g.below(4) as u128).saturating_sub(g.below(4) as u128)
        }
        _ => g.below(1 << 32) as u128,
    }
    .min(MAX);
    let mut peaks = [[0u8; 32]; 32];
    for p in peaks.iter_mut() {
        *p = g.bytes32();
    }
    let mut t = MerkleTree { branch: peaks.iter().map(arr).collect::<Vec<_>>().try_into().unwrap(), count };
    let mut n = count;
    let k = g.range(1, 6);
    g.log(|| format!("{k} insertions into a tree of {count} leaves"));
    for _ in 0..k {
        check_eq!(hx(&t.root().map_err(|e| e.to_string())?), hx(&refs::root_from_peaks(n, &peaks)), "root of a tree of {n} leaves");
        let leaf = g.bytes32();
        let before = t.clone();
        let r = guarded(|| t.insert(arr(&leaf))).and_then(|r| r.map_err(|e| e.to_string()));
        if n >= MAX {
            check!(r.is_err(), "a full tree accepted a leaf");
            check_eq!(t, before, "a full tree after a refused leaf");
            g.label("full tree");
        } else {
            r.map_err(|e| format!("leaf refused at {n} leaves: {e}"))?;
            // carry
            let mut node = leaf;
            let mut d = 0;
            while (n >> d) & 1 == 1 {
                node = keccak(&[&peaks[d], &node]);
                d += 1;
            }
            peaks[d] = node;
            n += 1;
            check_eq!(t.count, n, "count");
        }
    }
    check_eq!(hx(&t.root().map_err(|e| e.to_string())?), hx(&refs::root_from_peaks(n, &peaks)), "root of a tree of {n} leaves");
    if count > 1 << 16 {
        g.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C29

fn few(g: &mut G, max: usize) -> usize {
    if g.chance(1, 15) {
        *g.pick(&[7usize, 8, 9, 15, 16, 17, 32, 33, 64, 70])
    } else {
        g.idx(max)
    }
}

fn c29_multisig(g: &mut G) -> Result<(), String> {
    let k = few(g, 5);
    let tree_len = if g.chance(3, 4) { 32 } else { 20 };
    let (tree, root, index) = (g.bytes(tree_len), g.bytes(32), g.domain());
    let sigs: Vec<Vec<u8>> = (0..k).map(|_| g.bytes(65)).collect();
    g.log(|| format!("{k} signatures, tree of {} bytes, index {index}", tree.len()));
    let mut want = pad32(&tree).to_vec();
    want.extend(&root);
    want.extend(index.to_be_bytes());
    sigs.iter().for_each(|s| want.extend(s));
    let m = MessageIdMultisigIsmMetadata { origin_merkle_tree: hb(&tree), merkle_root: hb(&root), merkle_index: hb(&index.to_be_bytes()), signatures: sigs.iter().map(|s| hb(s)).collect() };
    check_eq!(m.merkle_index(), index, "merkle index");
    let enc: HexBinary = m.into();
    check_eq!(hx(&enc), hx(&want), "multisig metadata encoding");
    let d: MessageIdMultisigIsmMetadata = hb(&want).into();
    check_eq!((hx(&d.origin_merkle_tree), hx(&d.merkle_root), hx(&d.merkle_index)), (hx(&pad32(&tree)), hx(&root), hx(&index.to_be_bytes())), "multisig metadata fields");
    check_eq!(d.signatures.iter().map(|s| hx(s)).collect::<Vec<_>>(), sigs.iter().map(|s| hx(s)).collect::<Vec<_>>(), "multisig metadata signatures");
    check_eq!(hx(&HexBinary::from(d)), hx(&want), "decode then encode");
    let cut = g.idx(68);
    check!(guarded(|| MessageIdMultisigIsmMetadata::from(hb(&want[..cut]))).is_err(), "{cut} bytes were decoded as multisig metadata");
    // an incomplete last signature is not a signature
    let extra = g.range(1, 64) as usize;
    let mut longer = want.clone();
    longer.extend(g.bytes(extra));
    if let Ok(d) = guarded(|| MessageIdMultisigIsmMetadata::from(hb(&longer))) {
        check_eq!(d.signatures.iter().filter(|s| s.len() == 65).map(|s| hx(s)).collect::<Vec<_>>(), sigs.iter().map(|s| hx(s)).collect::<Vec<_>>(), "signatures followed by {extra} bytes");
    }
    if k > 0 {
        g.nontrivial();
    }
    Ok(())
}

fn c29_merkle_root(g: &mut G) -> Result<(), String> {
    let k = few(g, 5);
    let (tree, index, id, proof, sigs) = (g.bytes(32), g.domain(), g.bytes(32), g.bytes(1024), g.bytes(65 * k));
    g.log(|| format!("{k} signatures, index {index}"));
    let want: Vec<u8> = [&tree[..], &index.to_be_bytes(), &id, &proof, &sigs].concat();
    let m = MerkleRootMultisigIsmMetadata { origin_mailbox: hb(&tree), checkpoint_index: index, message_id: hb(&id), proof: hb(&proof), signatures: hb(&sigs) };
    check_eq!(hx(&HexBinary::from(m.clone())), hx(&want), "merkle-root metadata encoding");
    let d: MerkleRootMultisigIsmMetadata = hb(&want).into();
    check_eq!(d, m, "merkle-root metadata");
    check_eq!(d.signatures_len(), Ok(k), "number of signatures");
    for i in 0..k {
        check_eq!(hx(&d.signature_at(i)), hx(&sigs[65 * i..65 * (i + 1)]), "signature {i}");
    }
    let cut = if g.bool() { g.idx(1092) } else { 1091 };
    check!(guarded(|| MerkleRootMultisigIsmMetadata::from(hb(&want[..cut]))).is_err(), "{cut} bytes were decoded as merkle-root metadata");
    let mut bad = d.clone();
    let n = g.range(1, 64) as usize;
    bad.signatures = hb(&g.bytes(65 * k + n));
    check!(bad.signatures_len().is_err(), "{} bytes of signatures were accepted", 65 * k + n);
    if k > 0 {
        g.nontrivial();
    }
    Ok(())
}

fn c29_aggregate(g: &mut G) -> Result<(), String> {
    let k = few(g, 6);
    let mut addrs: Vec<String> = (0..k).map(|_| bech32("osmo", &g.bytes(20))).collect();
    addrs.sort();
    addrs.dedup();
    let k = addrs.len();
    let slices: Vec<Vec<u8>> = (0..k).map(|_| if g.chance(1, 400) { let n = *g.pick(&[256usize, 1000, 65_536, 70_000]); g.fill(n) } else { g.blob(90) }).collect();
    g.log(|| format!("{k} slices of {:?} bytes", slices.iter().map(|s| s.len()).collect::<Vec<_>>()));
    let mut want = vec![];
    let mut at = 8 * k as u32;
    for s in &slices {
        want.extend(at.to_be_bytes());
        at += s.len() as u32;
        want.extend(at.to_be_bytes());
    }
    slices.iter().for_each(|s| want.extend(s));
    let list: Vec<(Addr, HexBinary)> = addrs.iter().zip(&slices).map(|(a, s)| (Addr::unchecked(a), hb(s))).collect();
    // with the modules in address order, as the encoder lays them out
    let m = AggregateMetadata::new(list.clone());
    let enc: HexBinary = m.clone().into();
    check_eq!(hx(&enc), hx(&want), "aggregate metadata encoding");
    let al: Vec<Addr> = addrs.iter().map(Addr::unchecked).collect();
    let d = AggregateMetadata::from_hex(enc, al.clone());
    check_eq!(d, m, "aggregate metadata");
    check_eq!(d.collect::<Vec<_>>(), list, "decoded slices");
    // slices anywhere, for modules in any order: the i-th range belongs to the i-th module
    let mut order: Vec<usize> = (0..k).collect();
    for i in (1..k).rev() {
        order.swap(i, g.idx(i + 1));
    }
    let len = 8 * k + g.idx(60);
    let mut raw = g.bytes(len);
    if g.chance(1, 300) {
        raw = g.fill(70_000);
    }
    let len = raw.len();
    let mut fine = true;
    let mut expect = vec![];
    for (i, o) in order.iter().enumerate() {
        let (mut s, mut e) = (g.idx(len + 1), g.idx(len + 1));
        if s > e {
            std::mem::swap(&mut s, &mut e);
        }
        if g.chance(1, 12) {
            match g.below(3) {
                0 if s != e => std::mem::swap(&mut s, &mut e),
                1 => e = len + 1 + g.idx(3),
                _ => {
                    s = u32::MAX as usize - g.idx(3);
                    e = u32::MAX as usize
                }
            }
        }
        // nothing for this module
        if g.chance(1, 6) {
            s = 0;
            if g.bool() {
                e = 0;
            }
        }
        fine &= s == 0 || s <= e && e <= len;
        raw[8 * i..8 * i + 4].copy_from_slice(&(s as u32).to_be_bytes());
        raw[8 * i + 4..8 * i + 8].copy_from_slice(&(e as u32).to_be_bytes());
        expect.push((*o, s, e));
    }
    let pos: Vec<Addr> = order.iter().map(|o| al[*o].clone()).collect();
    let r = guarded(|| AggregateMetadata::from_hex(hb(&raw), pos.clone()).collect::<Vec<_>>());
    if fine {
        let mut want: Vec<(Addr, HexBinary)> = expect.iter().filter(|v| v.1 != 0).map(|(o, s, e)| (al[*o].clone(), hb(&raw[*s..*e]))).collect();
        want.sort_by(|a, b| a.0.cmp(&b.0));
        let mut got = r.map_err(|e| format!("well-formed aggregate metadata refused: {e}"))?;
        got.sort_by(|a, b| a.0.cmp(&b.0));
        check_eq!(got, want, "slices by position");
    } else {
        check!(r.is_err(), "out-of-range aggregate metadata was decoded");
        g.label("out of range");
    }
    if k > 0 {
        let cut = g.idx(8 * k);
        check!(guarded(|| AggregateMetadata::from_hex(hb(&raw[..cut]), pos)).is_err(), "{cut} bytes were decoded as metadata of {k} modules");
    }
    if k > 1 {
        g.nontrivial();
    }
    Ok(())
}

fn c29_gas(g: &mut G) -> Result<(), String> {
    let limit = if g.bool() { gen_wire(g) } else { g.bytes(32) };
    let refund = if g.chance(1, 500) { g.fill(70_000) } else { g.blob(80) };
    g.log(|| format!("limit {} refund {} bytes", hx(&limit), refund.len()));
    let want = [&limit[..], &refund].concat();
    let lim = Uint256::from_be_bytes(limit.clone().try_into().unwrap());
    let m = IGPMetadata { gas_limit: lim, refund_address: hb(&refund) };
    check_eq!(hx(&HexBinary::from(m.clone())), hx(&want), "gas metadata encoding");
    let d: IGPMetadata = hb(&want).into();
    check_eq!(d, m, "gas metadata");
    check_eq!(hx(&d.gas_limit.to_be_bytes()), hx(&limit), "gas limit");
    let cut = g.idx(32);
    check!(guarded(|| IGPMetadata::from(hb(&want[..cut]))).is_err(), "{cut} bytes were decoded as gas metadata");
    let default = Addr::unchecked("someone");
    let n = *g.pick(&[20usize, 32, 0, 19, 21, 31, 33, 64]);
    let mut r = g.bytes(n);
    if g.bool() && n > 12 {
        r[..12].fill(0);
    }
    let got = IGPMetadata { gas_limit: lim, refund_address: hb(&r) }.get_refund_address("osmo", default.clone());
    let exp = if n == 20 || n == 32 { refs::wire_to_addr("osmo", &pad32(&r)) } else { default.to_string() };
    check_eq!(got.to_string(), exp, "refund address of {}", hx(&r));
    // token transfer payload
    let meta = if g.chance(1, 500) { g.fill(70_000) } else { g.blob(60) };
    let rec = gen_wire(g);
    let want = [&rec[..], &limit, &meta].concat();
    let m = warp::Message { recipient: hb(&rec), amount: lim, metadata: hb(&meta) };
    check_eq!(hx(&HexBinary::from(m.clone())), hx(&want), "transfer payload encoding");
    let d: warp::Message = hb(&want).into();
    check_eq!(d, m, "transfer payload");
    let cut = g.idx(64);
    check!(guarded(|| warp::Message::from(hb(&want[..cut]))).is_err(), "{cut} bytes were decoded as a transfer payload");
    if !meta.is_empty() || !refund.is_empty() {
        g.nontrivial();
    }
    Ok(())
}
