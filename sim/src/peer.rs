//! Peers written after the mechanisms' specifications, independent of rsasl
use crate::app::Script;
use crate::gss::{self, PeerCtx};
use crate::props::expect;
use crate::scram::{unescape, Flag, RefClient, RefServer};
use crate::sess::{show, Mech};

#[derive(Debug)]
pub enum Says {
    /// A message, an answer is expected
    Send(Vec<u8>),
    /// The last message: what follows is the outcome
    Last(Vec<u8>),
    /// Content, nothing to send
    Done,
}
type Reply = Result<Says, String>;

pub struct RefPeer {
    m: Mech,
    c: Script,
    s: Script,
    cb: Vec<(String, Vec<u8>)>,
    nonce: String,
    n: usize,
    client: Option<RefClient>,
    cf: Vec<u8>,
    signature: Vec<u8>,
    server: Option<RefServer>,
    ctx: Option<PeerCtx>,
    seq: u64,
    /// Names of the fields LOGIN servers use
    pub prompts: (String, String),
    /// Optional extensions of the two SCRAM messages
    pub ext: (String, String),
    /// The GSS-API layers offered or wanted
    pub layers: u8,
    pub chosen: Option<u8>,
}

fn text(b: &[u8]) -> Result<String, String> {
    String::from_utf8(b.to_vec()).map_err(|_| format!("not UTF-8: \"{}\"", show(b)))
}

/// Attributes of an OAUTHBEARER / XOAUTH2 message
fn kvsep(b: &[u8]) -> Result<Vec<(String, String)>, String> {
    let t = text(b)?;
    let t = t.strip_suffix('\u{1}').ok_or("no end")?;
    if t.is_empty() {
        return Ok(Vec::new());
    }
    let t = t.strip_suffix('\u{1}').ok_or("no end of the last pair")?;
    t.split('\u{1}')
        .map(|p| p.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())).ok_or_else(|| format!("pair {p:?}")))
        .collect()
}

impl RefPeer {
    pub fn new(m: Mech, c: &Script, s: &Script, cb: &[(String, Vec<u8>)], nonce: String) -> RefPeer {
        RefPeer {
            m,
            c: c.clone(),
            s: s.clone(),
            cb: cb.to_vec(),
            nonce,
            n: 0,
            client: None,
            cf: Vec::new(),
            signature: Vec::new(),
            server: None,
            ctx: None,
            seq: 0,
            prompts: ("User Name\0".into(), "Password\0".into()),
            ext: (String::new(), String::new()),
            layers: 7,
            chosen: None,
        }
    }
    /// An initiator whose context takes that many tokens
    pub fn initiator(&mut self, tokens: u8, flags: u32, key: u64) {
        self.ctx = Some(PeerCtx::initiator(tokens, flags, key));
    }

    pub fn client(&mut self, input: Option<&[u8]>) -> Reply {
        self.n += 1;
        let n = self.n;
        let c = &self.c;
        let authid = c.authid.clone().unwrap_or_default();
        match self.m {
            Mech::Plain => {
                let mut b = c.authzid.clone().unwrap_or_default().into_bytes();
                b.push(0);
                b.extend(authid.bytes());
                b.push(0);
                b.extend_from_slice(c.password.as_deref().unwrap_or_default());
                Ok(Says::Last(b))
            }
            Mech::Login => {
                // draft-murchison-sasl-login: "User Name" and "Password", each with a NUL; some say it otherwise
                let prompt = text(input.ok_or("no prompt")?)?.to_ascii_lowercase();
                if !prompt.starts_with(if n == 1 { "user" } else { "pass" }) {
                    return Err(format!("prompt {prompt:?}"));
                }
                if n == 1 {
                    Ok(Says::Send(authid.into_bytes()))
                } else {
                    Ok(Says::Last(c.password.clone().unwrap_or_default()))
                }
            }
            Mech::Anon => Ok(Says::Last(c.anon.clone().unwrap_or_default().into_bytes())),
            Mech::Ext => Ok(Says::Last(c.authzid.clone().unwrap_or_default().into_bytes())),
            Mech::Xoa => Ok(Says::Last(
                format!("user={authid}\u{1}auth=Bearer {}\u{1}\u{1}", c.token.clone().unwrap_or_default()).into_bytes(),
            )),
            Mech::Oab => {
                let mut t = String::from("n,");
                if let Some(a) = &c.authzid {
                    t += &format!("a={}", crate::scram::escape(a));
                }
                t += ",\u{1}";
                for (k, v) in c.kv.iter().flatten() {
                    t += &format!("{k}={v}\u{1}");
                }
                t += &format!("auth=Bearer {}\u{1}\u{1}", c.token.clone().unwrap_or_default());
                Ok(Says::Last(t.into_bytes()))
            }
            Mech::Gss => {
                let ctx = self.ctx.as_mut().expect("harness: initiator");
                if !ctx.done() {
                    if n > 1 {
                        // the acceptor's token
                        let t = input.ok_or("no token")?;
                        let mut want = *ctx;
                        if want.make() != t {
                            return Err(format!("token \"{}\"", show(t)));
                        }
                        ctx.took();
                    }
                    return Ok(Says::Send(if ctx.done() { Vec::new() } else { ctx.make() }));
                }
                let (_, _, d) = gss::open(ctx.key, false, input.ok_or("no offer")?).map_err(|e| format!("offer: {e}"))?;
                if d.len() != 4 {
                    return Err(format!("offer of {} bytes", d.len()));
                }
                let pick = [4, 2, 1].into_iter().find(|b| d[0] & self.layers & b != 0).ok_or("no layer in common")?;
                if d[0] & 6 == 0 && d[1..] != [0, 0, 0] {
                    return Err("offer without a layer but with a size".into());
                }
                self.chosen = Some(pick);
                let size = if pick == 1 { [0; 3] } else { [0, 0x10, 0] };
                let r = gss::seal(ctx.key, true, self.seq, false, &[pick, size[0], size[1], size[2]]);
                self.seq += 1;
                Ok(Says::Last(r))
            }
            _ => {
                let h = self.m.hash().unwrap();
                match n {
                    1 => {
                        let r = RefClient {
                            hash: h,
                            flag: if self.m.plus() { Flag::P(self.cb[0].0.clone()) } else { Flag::N },
                            cbdata: self.cb.first().map(|c| c.1.clone()).unwrap_or_default(),
                            authzid: c.authzid.clone(),
                            user: authid,
                            nonce: self.nonce.clone(),
                            password: c.password.clone().unwrap_or_default(),
                            ext_first: self.ext.0.clone(),
                            ext_final: self.ext.1.clone(),
                        };
                        let b = r.first();
                        self.client = Some(r);
                        Ok(Says::Send(b))
                    }
                    2 => {
                        let (b, sig) = self.client.as_ref().unwrap().last(input.ok_or("no message")?)?;
                        self.signature = sig;
                        Ok(Says::Send(b))
                    }
                    _ => {
                        let want = format!("v={}", crate::scram::b64(&self.signature));
                        if input != Some(want.as_bytes()) {
                            return Err(format!("server signature: {}, expected {want}", crate::sess::show_opt(input)));
                        }
                        Ok(Says::Done)
                    }
                }
            }
        }
    }

    fn same(&self, what: &str, got: Option<String>, want: Option<String>) -> Result<(), String> {
        let f = |o: Option<String>| o.filter(|s| !s.is_empty());
        let (got, want) = (f(got), f(want));
        if got == want {
            Ok(())
        } else {
            Err(format!("{what} {got:?} instead of {want:?}"))
        }
    }

    pub fn server(&mut self, input: Option<&[u8]>) -> Reply {
        self.n += 1;
        let n = self.n;
        let (_, want) = expect(self.m, &self.c);
        if self.m == Mech::Login {
            return match n {
                1 => Ok(Says::Send(self.prompts.0.clone().into_bytes())),
                2 => {
                    self.same("user", Some(text(input.unwrap_or_default())?), want.authid)?;
                    Ok(Says::Send(self.prompts.1.clone().into_bytes()))
                }
                _ => {
                    if input != want.password.as_deref() {
                        return Err(format!("password {}", crate::sess::show_opt(input)));
                    }
                    Ok(Says::Done)
                }
            };
        }
        let input = input.ok_or("no message")?;
        match self.m {
            Mech::Plain => {
                let p: Vec<&[u8]> = input.split(|b| *b == 0).collect();
                if p.len() != 3 {
                    return Err(format!("{} fields", p.len()));
                }
                self.same("authzid", Some(text(p[0])?), want.authzid)?;
                self.same("authid", Some(text(p[1])?), want.authid)?;
                if Some(p[2]) != want.password.as_deref() {
                    return Err(format!("password \"{}\"", show(p[2])));
                }
                Ok(Says::Done)
            }
            Mech::Anon => self.same("trace", Some(text(input)?), want.anon).map(|()| Says::Done),
            Mech::Ext => self.same("authzid", Some(text(input)?), want.authzid).map(|()| Says::Done),
            Mech::Xoa => {
                let kv = kvsep(input)?;
                let get = |k: &str| kv.iter().find(|e| e.0 == k).map(|e| e.1.clone());
                if kv.len() != 2 {
                    return Err(format!("{kv:?}"));
                }
                self.same("user", get("user"), want.authid.clone())?;
                self.same("auth", get("auth"), want.token.as_ref().map(|t| format!("Bearer {t}")))?;
                Ok(Says::Done)
            }
            Mech::Oab => {
                let at = input.iter().position(|b| *b == 1).ok_or("no gs2 header")?;
                let gs2 = text(&input[..at])?;
                let f: Vec<&str> = gs2.split(',').collect();
                if f.len() != 3 || !matches!(f[0], "n" | "y") || !f[2].is_empty() {
                    return Err(format!("gs2 header {gs2:?}"));
                }
                let az = match f[1] {
                    "" => None,
                    a => Some(a.strip_prefix("a=").and_then(|a| unescape(a.as_bytes())).ok_or("authzid")?),
                };
                self.same("authzid", az, want.authzid.clone())?;
                let mut kv = kvsep(&input[at + 1..])?;
                let i = kv.iter().position(|e| e.0 == "auth").ok_or("no auth")?;
                let auth = kv.remove(i).1;
                self.same("auth", Some(auth), want.token.as_ref().map(|t| format!("Bearer {t}")))?;
                if kv != want.kv.clone().unwrap_or_default() {
                    return Err(format!("pairs {kv:?} instead of {:?}", want.kv));
                }
                Ok(Says::Done)
            }
            Mech::Gss => {
                if self.ctx.is_none() {
                    self.ctx = Some(PeerCtx::acceptor(input).ok_or("first token")?);
                    let ctx = self.ctx.as_mut().unwrap();
                    if !ctx.done() {
                        let t = ctx.make();
                        return Ok(Says::Send(t));
                    }
                } else if self.chosen.is_none() && self.seq == 0 {
                    let ctx = self.ctx.as_mut().unwrap();
                    if ctx.done() {
                        // we sent the last token, the client has none left
                        if !input.is_empty() {
                            return Err(format!("\"{}\" instead of an empty message", show(input)));
                        }
                    } else {
                        let mut w = *ctx;
                        if w.make() != input {
                            return Err(format!("token \"{}\"", show(input)));
                        }
                        ctx.took();
                        if !ctx.done() {
                            let t = ctx.make();
                            return Ok(Says::Send(t));
                        }
                    }
                }
                let ctx = self.ctx.as_mut().unwrap();
                if self.seq == 0 {
                    self.seq = 1;
                    let size = if self.layers & 6 == 0 { [0; 3] } else { [1, 0, 0] };
                    let o = gss::seal(ctx.key, false, 0, false, &[self.layers, size[0], size[1], size[2]]);
                    return Ok(Says::Send(o));
                }
                let (_, _, d) = gss::open(ctx.key, true, input).map_err(|e| format!("choice: {e}"))?;
                if d.len() < 4 || d[0].count_ones() != 1 || d[0] & self.layers == 0 {
                    return Err(format!("choice \"{}\"", show(&d)));
                }
                if d[0] == 1 && d[1..4] != [0, 0, 0] {
                    return Err("no layer but a size".into());
                }
                self.chosen = Some(d[0]);
                Ok(Says::Done)
            }
            _ => {
                if n == 1 {
                    let user = self.c.authid.clone().unwrap_or_default();
                    let rec = self.s.users.iter().find(|u| u.0 == user).ok_or("harness: no record")?.1.clone();
                    let mut r = RefServer {
                        hash: self.m.hash().unwrap(),
                        rec,
                        nonce: self.nonce.clone(),
                        cbdata: self.cb.clone(),
                        plus: self.m.plus(),
                        first_in: Vec::new(),
                        first_out: Vec::new(),
                        ext: self.ext.clone(),
                    };
                    let (m, f) = r.on_first(input)?;
                    self.same("user", Some(f.user), want.authid)?;
                    self.same("authzid", f.authzid, want.authzid)?;
                    self.cf = input.to_vec();
                    self.server = Some(r);
                    Ok(Says::Send(m))
                } else {
                    let m = self.server.as_ref().unwrap().on_final(input)?;
                    Ok(Says::Last(m))
                }
            }
        }
    }
}
