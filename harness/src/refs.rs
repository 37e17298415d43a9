//! Independent reference implementations used as oracles: wire formats, digests, bech32 and the
//! merkle tree.  Nothing here calls into the code under test.
use k256::ecdsa::{RecoveryId, Signature, SigningKey, VerifyingKey};
use sha3::{Digest, Keccak256};

pub fn keccak(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Keccak256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|v| format!("{v:02x}")).collect()
}
/// Hex shortened for logs.
pub fn sh(b: &[u8]) -> String {
    let h = hex(b);
    if h.len() > 20 {
        format!("{}..{}({}B)", &h[..8], &h[h.len() - 6..], b.len())
    } else {
        h
    }
}

// ---------------------------------------------------------------- message

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RefMsg {
    pub version: u8,
    pub nonce: u32,
    pub origin: u32,
    pub sender: [u8; 32],
    pub dest: u32,
    pub recipient: [u8; 32],
    pub body: Vec<u8>,
}

impl RefMsg {
    pub fn encode(&self) -> Vec<u8> {
        let mut o = Vec::with_capacity(77 + self.body.len());
        o.push(self.version);
        for v in [self.nonce, self.origin] {
            o.extend_from_slice(&[(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]);
        }
        o.extend_from_slice(&self.sender);
        let v = self.dest;
        o.extend_from_slice(&[(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]);
        o.extend_from_slice(&self.recipient);
        o.extend_from_slice(&self.body);
        o
    }
    pub fn id(&self) -> [u8; 32] {
        keccak(&[&self.encode()])
    }
    pub fn decode(b: &[u8]) -> Option<RefMsg> {
        if b.len() < 77 {
            return None;
        }
        let be = |i: usize| b[i..i + 4].iter().fold(0u32, |a, v| (a << 8) | *v as u32);
        let a32 = |i: usize| {
            let mut o = [0u8; 32];
            o.copy_from_slice(&b[i..i + 32]);
            o
        };
        Some(RefMsg { version: b[0], nonce: be(1), origin: be(5), sender: a32(9), dest: be(41), recipient: a32(45), body: b[77..].to_vec() })
    }
}

// ---------------------------------------------------------------- bech32

const CHARSET: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";

fn polymod(values: impl Iterator<Item = u8>) -> u32 {
    let gen = [0x3b6a57b2u32, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3];
    let mut chk = 1u32;
    for v in values {
        let top = chk >> 25;
        chk = ((chk & 0x1ffffff) << 5) ^ v as u32;
        for (i, g) in gen.iter().enumerate() {
            if (top >> i) & 1 == 1 {
                chk ^= g;
            }
        }
    }
    chk
}

fn hrp_expand(hrp: &str) -> Vec<u8> {
    let b = hrp.as_bytes();
    b.iter().map(|c| c >> 5).chain([0]).chain(b.iter().map(|c| c & 31)).collect()
}

fn to5(data: &[u8]) -> Vec<u8> {
    let (mut acc, mut bits, mut out) = (0u32, 0, vec![]);
    for b in data {
        acc = (acc << 8) | *b as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            out.push(((acc >> bits) & 31) as u8);
        }
        acc &= 0xfff;
    }
    if bits > 0 {
        out.push(((acc << (5 - bits)) & 31) as u8);
    }
    out
}

pub fn bech32_of5(hrp: &str, d5: &[u8], konst: u32) -> String {
    let pm = polymod(hrp_expand(hrp).into_iter().chain(d5.iter().cloned()).chain([0; 6])) ^ konst;
    let mut s = format!("{hrp}1");
    for v in d5 {
        s.push(CHARSET[*v as usize] as char);
    }
    for i in 0..6 {
        s.push(CHARSET[((pm >> (5 * (5 - i))) & 31) as usize] as char);
    }
    s
}

/// BIP-173 encoding of raw bytes.
pub fn bech32(hrp: &str, data: &[u8]) -> String {
    bech32_of5(hrp, &to5(data), 1)
}
pub fn bech32m(hrp: &str, data: &[u8]) -> String {
    bech32_of5(hrp, &to5(data), 0x2bc830a3)
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Variant {
    Bech32,
    Bech32m,
}

/// Decodes any bech32/bech32m string (no length limit): (hrp, raw bytes, variant).
pub fn bech32_parse(s: &str) -> Option<(String, Vec<u8>, Variant)> {
    let pos = s.rfind('1')?;
    let (hrp, data) = (&s[..pos], &s[pos + 1..]);
    if hrp.is_empty() || data.len() < 6 || hrp.len() > 83 {
        return None;
    }
    if !hrp.bytes().all(|b| (33..=126).contains(&b)) || !data.is_ascii() {
        return None;
    }
    let lower = s.bytes().any(|b| b.is_ascii_lowercase());
    let upper = s.bytes().any(|b| b.is_ascii_uppercase());
    if lower && upper {
        return None;
    }
    let hrp = hrp.to_ascii_lowercase();
    let mut d5 = vec![];
    for b in data.bytes() {
        let c = b.to_ascii_lowercase();
        d5.push(CHARSET.iter().position(|v| *v == c)? as u8);
    }
    let variant = match polymod(hrp_expand(&hrp).into_iter().chain(d5.iter().cloned())) {
        1 => Variant::Bech32,
        0x2bc830a3 => Variant::Bech32m,
        _ => return None,
    };
    d5.truncate(d5.len() - 6);
    let (mut acc, mut bits, mut out) = (0u32, 0, vec![]);
    for v in &d5 {
        acc = ((acc << 5) | *v as u32) & 0xfff;
        bits += 5;
        if bits >= 8 {
            bits -= 8;
            out.push(((acc >> bits) & 255) as u8);
        }
    }
    if bits >= 5 || (acc & ((1 << bits) - 1)) != 0 {
        return None;
    }
    Some((hrp, out, variant))
}

/// Raw bytes of an account address of the given chain (20 or 32 bytes, BIP-173, lower case).
pub fn acc_bytes(hrp: &str, s: &str) -> Option<Vec<u8>> {
    if s.bytes().any(|b| b.is_ascii_uppercase()) {
        return None;
    }
    let (h, raw, v) = bech32_parse(s)?;
    (h == hrp && v == Variant::Bech32 && (raw.len() == 20 || raw.len() == 32)).then_some(raw)
}

/// 32-byte wire form of raw address bytes.
pub fn pad32(raw: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    o[32 - raw.len()..].copy_from_slice(raw);
    o
}

/// Address a 32-byte wire value denotes on the chain with this prefix.
pub fn wire_to_addr(hrp: &str, w: &[u8; 32]) -> String {
    if w[..12].iter().all(|v| *v == 0) {
        bech32(hrp, &w[12..])
    } else {
        bech32(hrp, w)
    }
}

pub fn addr_to_wire(hrp: &str, addr: &str) -> [u8; 32] {
    pad32(&acc_bytes(hrp, addr).expect("harness: bad address"))
}

// ---------------------------------------------------------------- merkle tree

pub fn zero_hashes() -> Vec<[u8; 32]> {
    let mut z = vec![[0u8; 32]];
    for i in 0..32 {
        let v = z[i];
        z.push(keccak(&[&v, &v]));
    }
    z
}

/// All layers of the depth-32 tree over the given leaves (layer 0 = leaves), without padding.
pub fn layers(leaves: &[[u8; 32]]) -> Vec<Vec<[u8; 32]>> {
    let z = zero_hashes();
    let mut out = vec![leaves.to_vec()];
    for d in 0..32 {
        let cur = &out[d];
        let mut next = vec![];
        for p in cur.chunks(2) {
            next.push(keccak(&[&p[0], p.get(1).unwrap_or(&z[d])]));
        }
        out.push(next);
    }
    out
}

pub fn tree_root(leaves: &[[u8; 32]]) -> [u8; 32] {
    layers(leaves)[32].first().copied().unwrap_or(zero_hashes()[32])
}

/// Sibling path of a leaf.
pub fn tree_path(layers: &[Vec<[u8; 32]>], idx: usize) -> Vec<[u8; 32]> {
    let z = zero_hashes();
    (0..32).map(|d| layers[d].get((idx >> d) ^ 1).copied().unwrap_or(z[d])).collect()
}

/// Root of subtree of `count` leaves given the complete-subtree roots ("peaks") of its set bits.
pub fn root_from_peaks(count: u128, peaks: &[[u8; 32]; 32]) -> [u8; 32] {
    let z = zero_hashes();
    let mut cur = z[0];
    for d in 0..32 {
        cur = if (count >> d) & 1 == 1 { keccak(&[&peaks[d], &cur]) } else { keccak(&[&cur, &z[d]]) };
    }
    cur
}

// ---------------------------------------------------------------- signatures

pub fn eth_prefixed(digest: &[u8; 32]) -> [u8; 32] {
    keccak(&[b"\x19Ethereum Signed Message:\n32", digest])
}

/// Digest a validator signs for a checkpoint of a message (already wrapped as an eth message).
pub fn checkpoint_digest(origin: u32, tree: &[u8], root: &[u8], index: u32, id: &[u8]) -> [u8; 32] {
    let dh = keccak(&[&origin.to_be_bytes(), tree, b"HYPERLANE"]);
    eth_prefixed(&keccak(&[&dh, root, &index.to_be_bytes(), id]))
}

pub fn announcement_digest(domain: u32, mailbox: &[u8; 32], location: &str) -> [u8; 32] {
    let dh = keccak(&[&domain.to_be_bytes(), mailbox, b"HYPERLANE_ANNOUNCEMENT"]);
    eth_prefixed(&keccak(&[&dh, location.as_bytes()]))
}

#[derive(Clone)]
pub struct Key {
    pub sk: SigningKey,
    pub addr: [u8; 20],
}

pub fn key(seed: &[u8]) -> Key {
    let mut h = keccak(&[b"key", seed]);
    let sk = loop {
        match SigningKey::from_slice(&h) {
            Ok(k) => break k,
            Err(_) => h = keccak(&[&h]),
        }
    };
    let addr = eth_address(sk.verifying_key());
    Key { sk, addr }
}

pub fn eth_address(vk: &VerifyingKey) -> [u8; 20] {
    let p = vk.to_encoded_point(false);
    keccak(&[&p.as_bytes()[1..]])[12..].try_into().unwrap()
}

/// 65-byte signature r‖s‖v with v in {27, 28}.
pub fn sign(k: &Key, digest: &[u8; 32]) -> Vec<u8> {
    let (sig, rid) = k.sk.sign_prehash_recoverable(digest).expect("harness: sign");
    let mut o = sig.to_bytes().to_vec();
    o.push(27 + rid.to_byte());
    o
}

/// The same signature with the other value of s (and so the other recovery id).
pub fn malleate(sig: &[u8]) -> Option<Vec<u8>> {
    let s = Signature::from_slice(sig.get(..64)?).ok()?;
    let m = Signature::from_scalars(s.r().to_bytes(), (-*s.s()).to_bytes()).ok()?;
    let mut o = m.to_bytes().to_vec();
    o.push(27 + (sig[64].wrapping_sub(27) ^ 1));
    Some(o)
}

/// Address an Ethereum-style signature recovers to (low or high s), `None` if it does not.
pub fn recover(digest: &[u8; 32], sig: &[u8]) -> Option<[u8; 20]> {
    if sig.len() != 65 {
        return None;
    }
    let v = sig[64].checked_sub(27)?;
    if v > 1 {
        return None;
    }
    let s = Signature::from_slice(&sig[..64]).ok()?;
    let (s, v) = match s.normalize_s() {
        Some(n) => (n, v ^ 1),
        None => (s, v),
    };
    let vk = VerifyingKey::recover_from_prehash(digest, &s, RecoveryId::from_byte(v)?).ok()?;
    Some(eth_address(&vk))
}

pub fn sha256(b: &[u8]) -> [u8; 32] {
    use sha2::Digest;
    sha2::Sha256::digest(b).into()
}
