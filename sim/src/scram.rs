//! An independent model of SCRAM (RFC 5802), working on the raw bytes that were on the wire.
//!
//! Nothing here is shared with rsasl: HMAC and PBKDF2 are written out below on top of the hash functions, messages are
//! parsed strictly by the grammar.
use crate::app::Stored;
use crate::sess::Hash;
use base64::engine::general_purpose::{GeneralPurpose, STANDARD};
use base64::engine::{DecodePaddingMode, GeneralPurposeConfig};
use base64::Engine;
use digest::Digest;

pub fn b64(d: &[u8]) -> String {
    STANDARD.encode(d)
}
pub fn unb64(d: &[u8]) -> Option<Vec<u8>> {
    STANDARD.decode(d).ok()
}
/// Whatever any decoder could make out of it
pub fn unb64_lenient(d: &[u8]) -> Option<Vec<u8>> {
    let e = GeneralPurpose::new(
        &base64::alphabet::STANDARD,
        GeneralPurposeConfig::new()
            .with_decode_allow_trailing_bits(true)
            .with_decode_padding_mode(DecodePaddingMode::Indifferent),
    );
    e.decode(d).ok()
}

pub fn hash(h: Hash, parts: &[&[u8]]) -> Vec<u8> {
    fn go<D: Digest>(parts: &[&[u8]]) -> Vec<u8> {
        let mut d = D::new();
        for p in parts {
            d.update(p);
        }
        d.finalize().to_vec()
    }
    match h {
        Hash::Sha1 => go::<sha1::Sha1>(parts),
        Hash::Sha256 => go::<sha2::Sha256>(parts),
        Hash::Sha512 => go::<sha2::Sha512>(parts),
    }
}
pub fn size(h: Hash) -> usize {
    match h {
        Hash::Sha1 => 20,
        Hash::Sha256 => 32,
        Hash::Sha512 => 64,
    }
}
fn block(h: Hash) -> usize {
    match h {
        Hash::Sha1 | Hash::Sha256 => 64,
        Hash::Sha512 => 128,
    }
}
pub fn hmac(h: Hash, key: &[u8], data: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > block(h) {
        hash(h, &[key])
    } else {
        key.to_vec()
    };
    k.resize(block(h), 0);
    let ipad: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    let opad: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    let inner = hash(h, &[&ipad, data]);
    hash(h, &[&opad, &inner])
}
/// Iteration counts above this are not computed.  Whoever uses them has to be given the salted password.
pub const DEEP: u32 = 100_000;

pub fn hi(h: Hash, password: &[u8], salt: &[u8], iter: u32) -> Vec<u8> {
    if iter > DEEP {
        // stands for the result of the real function
        let id = [salt, b"/deep/", &iter.to_be_bytes()[..]].concat();
        return hmac(h, password, &id);
    }
    let mut first = salt.to_vec();
    first.extend_from_slice(&[0, 0, 0, 1]);
    let mut u = hmac(h, password, &first);
    let mut out = u.clone();
    for _ in 1..iter {
        u = hmac(h, password, &u);
        for (o, x) in out.iter_mut().zip(&u) {
            *o ^= x;
        }
    }
    out
}
pub fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Keys {
    pub salted: Vec<u8>,
    pub client: Vec<u8>,
    pub stored: Vec<u8>,
    pub server: Vec<u8>,
}
impl Keys {
    pub fn from_salted(h: Hash, salted: Vec<u8>) -> Keys {
        let client = hmac(h, &salted, b"Client Key");
        Keys {
            stored: hash(h, &[&client]),
            server: hmac(h, &salted, b"Server Key"),
            client,
            salted,
        }
    }
    pub fn derive(h: Hash, password: &[u8], salt: &[u8], iter: u32) -> Keys {
        Self::from_salted(h, hi(h, password, salt, iter))
    }
    pub fn record(&self, salt: &[u8], iter: u32) -> Stored {
        Stored {
            iter,
            salt: salt.to_vec(),
            stored_key: self.stored.clone(),
            server_key: self.server.clone(),
        }
    }
}

pub fn escape(name: &str) -> String {
    let mut o = String::new();
    for c in name.chars() {
        match c {
            ',' => o.push_str("=2C"),
            '=' => o.push_str("=3D"),
            c => o.push(c),
        }
    }
    o
}
pub fn unescape(raw: &[u8]) -> Option<String> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < raw.len() {
        match raw[i] {
            b'=' => {
                match raw.get(i + 1..i + 3) {
                    Some(b"2C") => o.push(b','),
                    Some(b"3D") => o.push(b'='),
                    _ => return None,
                }
                i += 3;
            }
            0 | b',' => return None,
            c => {
                o.push(c);
                i += 1;
            }
        }
    }
    if o.is_empty() {
        return None;
    }
    String::from_utf8(o).ok()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Flag {
    N,
    Y,
    P(String),
}

#[derive(Clone, Debug)]
pub struct ClientFirst {
    /// Up to and including the second comma, as received
    pub gs2: Vec<u8>,
    pub flag: Flag,
    pub authzid: Option<String>,
    pub bare: Vec<u8>,
    pub user: String,
    pub nonce: Vec<u8>,
    /// There's more than the grammar's required parts
    pub extended: bool,
}

fn nonce_ok(n: &[u8]) -> bool {
    !n.is_empty() && n.iter().all(|b| (0x21..=0x7e).contains(b) && *b != b',')
}

/// Is this an `attr-val` with a letter for a name?
fn attr_ok(a: &[u8]) -> bool {
    a.len() >= 3
        && a[0].is_ascii_alphabetic()
        && a[1] == b'='
        && !a.contains(&0)
        && std::str::from_utf8(a).is_ok()
}

impl ClientFirst {
    /// By the grammar; `Err` holds why not
    pub fn parse(raw: &[u8]) -> Result<ClientFirst, &'static str> {
        let c1 = raw.iter().position(|b| *b == b',').ok_or("no gs2 header")?;
        let c2 = c1 + 1 + raw[c1 + 1..].iter().position(|b| *b == b',').ok_or("no gs2 header")?;
        let flag = match &raw[..c1] {
            b"n" => Flag::N,
            b"y" => Flag::Y,
            x if x.starts_with(b"p=") && x.len() > 2 => {
                let n = &x[2..];
                if !n.iter().all(|b| b.is_ascii_alphanumeric() || *b == b'.' || *b == b'-') {
                    return Err("cb name");
                }
                Flag::P(String::from_utf8(n.to_vec()).unwrap())
            }
            _ => return Err("cb flag"),
        };
        let az = &raw[c1 + 1..c2];
        let authzid = if az.is_empty() {
            None
        } else {
            Some(
                az.strip_prefix(b"a=")
                    .and_then(unescape)
                    .ok_or("authzid")?,
            )
        };
        let bare = raw[c2 + 1..].to_vec();
        let parts: Vec<&[u8]> = bare.split(|b| *b == b',').collect();
        if parts[0].starts_with(b"m=") {
            return Err("mandatory extension");
        }
        if parts.len() < 2 {
            return Err("missing attributes");
        }
        let user = parts[0].strip_prefix(b"n=").and_then(unescape).ok_or("username")?;
        let nonce = parts[1].strip_prefix(b"r=").ok_or("nonce")?.to_vec();
        if !nonce_ok(&nonce) {
            return Err("nonce");
        }
        if !parts[2..].iter().all(|p| attr_ok(p)) {
            return Err("extension");
        }
        Ok(ClientFirst {
            gs2: raw[..=c2].to_vec(),
            flag,
            authzid,
            extended: parts.len() > 2,
            bare,
            user,
            nonce,
        })
    }
}

#[derive(Clone, Debug)]
pub struct ServerFirst {
    pub nonce: Vec<u8>,
    pub salt: Vec<u8>,
    pub iter: u32,
    pub extended: bool,
}
impl ServerFirst {
    pub fn parse(raw: &[u8]) -> Result<ServerFirst, &'static str> {
        let parts: Vec<&[u8]> = raw.split(|b| *b == b',').collect();
        if parts[0].starts_with(b"m=") {
            return Err("mandatory extension");
        }
        if parts.len() < 3 {
            return Err("missing attributes");
        }
        let nonce = parts[0].strip_prefix(b"r=").ok_or("nonce")?.to_vec();
        if !nonce_ok(&nonce) {
            return Err("nonce");
        }
        let salt64 = parts[1].strip_prefix(b"s=").ok_or("salt")?;
        let salt = unb64(salt64).ok_or("salt base64")?;
        let it = parts[2].strip_prefix(b"i=").ok_or("iterations")?;
        if it.is_empty() || !it.iter().all(u8::is_ascii_digit) || it[0] == b'0' {
            return Err("iterations");
        }
        let iter: u32 = std::str::from_utf8(it)
            .unwrap()
            .parse()
            .map_err(|_| "iterations")?;
        if !parts[3..].iter().all(|p| attr_ok(p)) {
            return Err("extension");
        }
        Ok(ServerFirst {
            nonce,
            salt,
            iter,
            extended: parts.len() > 3,
        })
    }
}

#[derive(Clone, Debug)]
pub struct ClientFinal {
    pub cbind: Vec<u8>,
    pub nonce: Vec<u8>,
    pub proof: Vec<u8>,
    pub without_proof: Vec<u8>,
    pub extended: bool,
}
impl ClientFinal {
    pub fn parse(raw: &[u8]) -> Result<ClientFinal, &'static str> {
        Self::parse_any_nonce(raw).and_then(|f| if nonce_ok(&f.nonce) { Ok(f) } else { Err("nonce") })
    }
    /// A client echoes the server's nonce, whether or not it's well-formed
    pub fn parse_any_nonce(raw: &[u8]) -> Result<ClientFinal, &'static str> {
        let parts: Vec<&[u8]> = raw.split(|b| *b == b',').collect();
        if parts.len() < 3 {
            return Err("missing attributes");
        }
        let c = parts[0].strip_prefix(b"c=").ok_or("cbind")?;
        let cbind = unb64(c).ok_or("cbind base64")?;
        let nonce = parts[1].strip_prefix(b"r=").ok_or("nonce")?.to_vec();
        let last = parts[parts.len() - 1];
        let proof64 = last.strip_prefix(b"p=").ok_or("proof")?;
        let proof = unb64(proof64).ok_or("proof base64")?;
        let ext = &parts[2..parts.len() - 1];
        if ext.iter().any(|p| p.starts_with(b"m=")) {
            return Err("mandatory extension");
        }
        if !ext.iter().all(|p| attr_ok(p) && !p.starts_with(b"p=")) {
            return Err("extension");
        }
        Ok(ClientFinal {
            cbind,
            nonce,
            proof,
            without_proof: raw[..raw.len() - last.len() - 1].to_vec(),
            extended: !ext.is_empty(),
        })
    }
}

pub fn auth_message(bare: &[u8], server_first: &[u8], without_proof: &[u8]) -> Vec<u8> {
    let mut m = bare.to_vec();
    m.push(b',');
    m.extend_from_slice(server_first);
    m.push(b',');
    m.extend_from_slice(without_proof);
    m
}

/// What the server knows and is configured for
#[derive(Clone, Debug)]
pub struct ServerView<'a> {
    pub hash: Hash,
    pub plus: bool,
    /// Its configuration also holds the PLUS variant
    pub can_cb: bool,
    pub cbdata: &'a [(String, Vec<u8>)],
    pub users: &'a [(String, Stored)],
}

#[derive(Clone, Debug)]
pub enum Verdict {
    /// Everything is by the book, the server has to accept and answer with that signature
    Accept {
        user: String,
        authzid: Option<String>,
        signature: Vec<u8>,
    },
    /// Not by the grammar, but the proof is right: whatever the server does with it, it must be this user and signature
    Either {
        user: String,
        authzid: Option<String>,
        signature: Vec<u8>,
        why: &'static str,
    },
    Reject(&'static str),
}

/// Judge one complete exchange from the bytes the server received and sent
pub fn judge(v: &ServerView, cf_raw: &[u8], sf_raw: &[u8], fin_raw: &[u8]) -> Verdict {
    use Verdict::*;
    // --- what is needed to make sense of the messages at all ---
    let Some(c1) = cf_raw.iter().position(|b| *b == b',') else {
        return Reject("no gs2 header");
    };
    let Some(c2) = cf_raw[c1 + 1..].iter().position(|b| *b == b',').map(|p| p + c1 + 1) else {
        return Reject("no gs2 header");
    };
    let gs2 = &cf_raw[..=c2];
    let bare = &cf_raw[c2 + 1..];
    let strict_first = ClientFirst::parse(cf_raw);
    let mut parts = bare.split(|b| *b == b',');
    let Some(user) = parts.next().and_then(|p| p.strip_prefix(b"n=")).and_then(unescape) else {
        return Reject("username");
    };
    let Some(nonce) = parts.next().and_then(|p| p.strip_prefix(b"r=")) else {
        return Reject("nonce");
    };
    let az = &cf_raw[c1 + 1..c2];
    let authzid = if az.is_empty() {
        None
    } else {
        match az.strip_prefix(b"a=").and_then(unescape) {
            Some(a) => Some(a),
            None => return Reject("authzid"),
        }
    };
    let Some((_, rec)) = v.users.iter().find(|(n, _)| *n == user) else {
        return Reject("unknown user");
    };
    if rec.stored_key.len() != size(v.hash) || rec.server_key.len() != size(v.hash) {
        return Reject("stored credentials unusable");
    }
    let mut expected_cb = gs2.to_vec();
    match &cf_raw[..c1] {
        b"n" => {
            if v.plus {
                return Reject("binding required");
            }
        }
        b"y" => {
            if v.plus || v.can_cb {
                return Reject("binding downgraded");
            }
        }
        f => {
            let Some(name) = f.strip_prefix(b"p=") else {
                return Reject("cb flag");
            };
            let Some((_, d)) = v.cbdata.iter().find(|(n, _)| n.as_bytes() == name) else {
                return Reject("no binding data");
            };
            expected_cb.extend_from_slice(d);
        }
    }
    // --- server first ---
    let Ok(sf) = ServerFirst::parse(sf_raw) else {
        return Reject("server first");
    };
    let Some(snonce) = sf.nonce.strip_prefix(nonce) else {
        return Reject("server nonce");
    };
    if snonce.is_empty() {
        return Reject("server nonce empty");
    }
    // --- client final ---
    let strict_final = ClientFinal::parse(fin_raw);
    let Some(pos) = fin_raw.windows(3).rposition(|w| w == b",p=") else {
        return Reject("no proof");
    };
    let without_proof = &fin_raw[..pos];
    let mut fp = without_proof.split(|b| *b == b',');
    let Some(c) = fp.next().and_then(|p| p.strip_prefix(b"c=")).and_then(unb64_lenient) else {
        return Reject("cbind");
    };
    if c != expected_cb {
        return Reject("cbind mismatch");
    }
    let Some(r) = fp.next().and_then(|p| p.strip_prefix(b"r=")) else {
        return Reject("final nonce");
    };
    if r != sf.nonce {
        return Reject("final nonce");
    }
    if without_proof.split(|b| *b == b',').skip(2).any(|p| p.starts_with(b"m=")) {
        return Reject("mandatory extension");
    }
    if bare.split(|b| *b == b',').any(|p| p.starts_with(b"m=")) {
        return Reject("mandatory extension");
    }
    let Some(mut proof) = unb64_lenient(&fin_raw[pos + 3..]) else {
        return Reject("proof base64");
    };
    let short = proof.len() < size(v.hash);
    if proof.len() > size(v.hash) {
        return Reject("proof too long");
    }
    // A shortened proof is equivalent to one padded with zeros; knowing it needs the key all the same
    proof.resize(size(v.hash), 0);
    let am = auth_message(bare, sf_raw, without_proof);
    let sig = hmac(v.hash, &rec.stored_key, &am);
    let ckey = xor(&proof, &sig);
    if hash(v.hash, &[&ckey]) != rec.stored_key {
        return Reject("proof");
    }
    let signature = hmac(v.hash, &rec.server_key, &am);
    let why = if short {
        Some("short proof")
    } else if let Err(e) = strict_first {
        Some(e)
    } else if let Err(e) = strict_final {
        Some(e)
    } else {
        None
    };
    match why {
        None => Accept {
            user,
            authzid,
            signature,
        },
        Some(why) => Either {
            user,
            authzid,
            signature,
            why,
        },
    }
}

/// Judge from the client's side: may the client be satisfied with what it received?
/// `keys`: from (salt, iterations) to the keys the client has to use.
pub fn judge_client(
    h: Hash,
    cf_raw: &[u8],
    sf_raw: &[u8],
    fin_raw: &[u8],
    sfin_raw: &[u8],
    keys: impl FnOnce(&[u8], u32) -> Option<Vec<u8>>,
) -> Result<&'static str, &'static str> {
    let cf = ClientFirst::parse(cf_raw).map_err(|_| "client first malformed")?;
    let sf = lenient_server_first(sf_raw)?;
    let rest = sf.0.strip_prefix(cf.nonce.as_slice()).ok_or("foreign nonce")?;
    if rest.is_empty() {
        return Err("no server nonce");
    }
    let fin = ClientFinal::parse_any_nonce(fin_raw).map_err(|_| "client final malformed")?;
    let v = sfin_raw.strip_prefix(b"v=").ok_or("no verifier")?;
    let mut p = v.split(|b| *b == b',');
    let v64 = p.next().unwrap();
    let mut odd = false;
    for p in p {
        if p.starts_with(b"m=") {
            return Err("mandatory extension");
        }
        odd |= !attr_ok(p) || p.first().is_some_and(|n| b"anrcsipve".contains(n));
    }
    let v = unb64_lenient(v64).ok_or("verifier base64")?;
    let server_key = keys(&sf.1, sf.2).ok_or("no key")?;
    let am = auth_message(&cf.bare, sf_raw, &fin.without_proof);
    if v != hmac(h, &server_key, &am) {
        return Err("wrong signature");
    }
    if ServerFirst::parse(sf_raw).is_err() || unb64(v64).is_none() || odd {
        return Ok("lenient");
    }
    Ok("strict")
}

/// (nonce, salt, iterations) the way the most lenient reader would take them
pub fn lenient_server_first(raw: &[u8]) -> Result<(Vec<u8>, Vec<u8>, u32), &'static str> {
    if raw.split(|b| *b == b',').any(|p| p.starts_with(b"m=")) {
        return Err("mandatory extension");
    }
    let mut parts = raw.split(|b| *b == b',');
    let nonce = parts.next().and_then(|p| p.strip_prefix(b"r=")).ok_or("nonce")?;
    let salt = parts
        .next()
        .and_then(|p| p.strip_prefix(b"s="))
        .and_then(unb64_lenient)
        .ok_or("salt")?;
    let it = parts.next().and_then(|p| p.strip_prefix(b"i=")).ok_or("iterations")?;
    let iter: u32 = std::str::from_utf8(it)
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .ok_or("iterations")?;
    if iter == 0 {
        return Err("zero iterations");
    }
    Ok((nonce.to_vec(), salt, iter))
}

/// The messages of a client written after the RFC, independent of rsasl
pub struct RefClient {
    pub hash: Hash,
    pub flag: Flag,
    pub cbdata: Vec<u8>,
    pub authzid: Option<String>,
    pub user: String,
    pub nonce: String,
    pub password: Vec<u8>,
    /// Extensions behind the nonce in the first and in the final message, e.g. ",x=1"
    pub ext_first: String,
    pub ext_final: String,
}
impl RefClient {
    pub fn gs2(&self) -> String {
        let f = match &self.flag {
            Flag::N => "n".to_string(),
            Flag::Y => "y".to_string(),
            Flag::P(n) => format!("p={n}"),
        };
        let a = self
            .authzid
            .as_ref()
            .map(|a| format!("a={}", escape(a)))
            .unwrap_or_default();
        format!("{f},{a},")
    }
    pub fn bare(&self) -> String {
        format!("n={},r={}{}", escape(&self.user), self.nonce, self.ext_first)
    }
    pub fn first(&self) -> Vec<u8> {
        format!("{}{}", self.gs2(), self.bare()).into_bytes()
    }
    pub fn without_proof(&self, nonce: &[u8]) -> Vec<u8> {
        let mut c = self.gs2().into_bytes();
        if matches!(self.flag, Flag::P(_)) {
            c.extend_from_slice(&self.cbdata);
        }
        let mut m = format!("c={},r=", b64(&c)).into_bytes();
        m.extend_from_slice(nonce);
        m.extend_from_slice(self.ext_final.as_bytes());
        m
    }
    /// The final message and the server signature to expect
    pub fn last(&self, server_first: &[u8]) -> Result<(Vec<u8>, Vec<u8>), &'static str> {
        let sf = ServerFirst::parse(server_first)?;
        if !sf.nonce.starts_with(self.nonce.as_bytes()) || sf.nonce.len() == self.nonce.len() {
            return Err("server nonce");
        }
        let k = Keys::derive(self.hash, &self.password, &sf.salt, sf.iter);
        Ok(self.last_with(&k, server_first, &sf.nonce))
    }
    pub fn last_with(&self, k: &Keys, server_first: &[u8], nonce: &[u8]) -> (Vec<u8>, Vec<u8>) {
        let wp = self.without_proof(nonce);
        let am = auth_message(self.bare().as_bytes(), server_first, &wp);
        let proof = xor(&k.client, &hmac(self.hash, &k.stored, &am));
        let mut m = wp;
        m.extend_from_slice(b",p=");
        m.extend_from_slice(b64(&proof).as_bytes());
        (m, hmac(self.hash, &k.server, &am))
    }
}

/// A server written after the RFC, independent of rsasl
pub struct RefServer {
    pub hash: Hash,
    pub rec: Stored,
    pub nonce: String,
    pub cbdata: Vec<(String, Vec<u8>)>,
    pub plus: bool,
    pub first_in: Vec<u8>,
    pub first_out: Vec<u8>,
    /// Extensions behind the attributes of the first and of the final message, e.g. ",x=1"
    pub ext: (String, String),
}
impl RefServer {
    pub fn on_first(&mut self, raw: &[u8]) -> Result<(Vec<u8>, ClientFirst), &'static str> {
        let cf = ClientFirst::parse(raw)?;
        if self.plus != matches!(cf.flag, Flag::P(_)) {
            return Err("binding flag");
        }
        let mut m = b"r=".to_vec();
        m.extend_from_slice(&cf.nonce);
        m.extend_from_slice(
            format!("{},s={},i={}{}", self.nonce, b64(&self.rec.salt), self.rec.iter, self.ext.0).as_bytes(),
        );
        self.first_in = raw.to_vec();
        self.first_out = m.clone();
        Ok((m, cf))
    }
    pub fn on_final(&self, raw: &[u8]) -> Result<Vec<u8>, &'static str> {
        let cf = ClientFirst::parse(&self.first_in)?;
        let users = [(cf.user.clone(), self.rec.clone())];
        let v = ServerView {
            hash: self.hash,
            plus: self.plus,
            can_cb: self.plus,
            cbdata: &self.cbdata,
            users: &users,
        };
        match judge(&v, &self.first_in, &self.first_out, raw) {
            Verdict::Accept { signature, .. } => Ok(format!("v={}{}", b64(&signature), self.ext.1).into_bytes()),
            Verdict::Either { why, .. } | Verdict::Reject(why) => Err(why),
        }
    }
}
