//! Small helpers shared by the demonstrations.
#![allow(dead_code)]
pub use rsasl::callback::{CallbackError, Context, Request, SessionCallback, SessionData};

pub use rsasl::mechanisms::scram::properties::*;
pub use rsasl::mechname::Mechname;
pub use rsasl::prelude::*;
pub use rsasl::property::*;
pub use rsasl::validate::{Validate, Validation, ValidationError};
pub use std::sync::{Arc, Mutex};
use base64::{engine::general_purpose::STANDARD, Engine};
use hmac::{Hmac, Mac};
use sha2::{Digest, Sha256};

pub struct V;
impl Validation for V {
    type Value = String;
}

type CbF = dyn Fn(&SessionData, &Context, &mut Request) -> Result<(), SessionError> + Send + Sync;
type ValF = dyn Fn(&SessionData, &Context, &mut Validate<'_>) -> Result<(), ValidationError> + Send + Sync;
pub struct App {
    pub cb: Box<CbF>,
    pub val: Box<ValF>,
    pub bind: bool,
}
impl SessionCallback for App {
    fn callback(&self, s: &SessionData, c: &Context, r: &mut Request) -> Result<(), SessionError> {
        (self.cb)(s, c, r)
    }
    fn validate(&self, s: &SessionData, c: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        (self.val)(s, c, v)
    }
    fn enable_channel_binding(&self) -> bool {
        self.bind
    }
}
pub fn app(
    cb: impl Fn(&SessionData, &Context, &mut Request) -> Result<(), SessionError> + Send + Sync + 'static,
    val: impl Fn(&SessionData, &Context, &mut Validate<'_>) -> Result<(), ValidationError> + Send + Sync + 'static,
    bind: bool,
) -> Arc<SASLConfig> {
    use rsasl::mechanisms::*;
    use rsasl::prelude::Registry;
    use rsasl::registry::Mechanism;
    static ALL: &[Mechanism] = &[
        scram::SCRAM_SHA512_PLUS, scram::SCRAM_SHA256_PLUS, scram::SCRAM_SHA1_PLUS, scram::SCRAM_SHA512,
        scram::SCRAM_SHA256, scram::SCRAM_SHA1, plain::PLAIN, login::LOGIN, anonymous::ANONYMOUS,
        external::EXTERNAL, xoauth2::XOAUTH2, oauthbearer::OAUTHBEARER,
    ];
    SASLConfig::builder()
        .with_registry(Registry::with_mechanisms(if bind { ALL } else { &ALL[3..] }))
        .with_callback(App { cb: Box::new(cb), val: Box::new(val), bind })
        .unwrap()
}
/// accepts everything, the validation value describes who was accepted
pub fn accept(_: &SessionData, c: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> {
    let authid = c.get_ref::<AuthId>().unwrap_or("-").to_string();
    let authzid = c.get_ref::<AuthzId>().unwrap_or("-").to_string();
    let pw = String::from_utf8_lossy(c.get_ref::<Password>().unwrap_or(b"-")).into_owned();
    let tok = c.get_ref::<OAuthBearerToken>().unwrap_or("-").to_string();
    v.finalize::<V>(format!("{authid}|{authzid}|{pw}|{tok}"));
    Ok(())
}
pub fn nothing(_: &SessionData, _: &Context, _: &mut Request) -> Result<(), SessionError> {
    Ok(())
}
pub struct Cb(pub &'static str, pub Vec<u8>);
impl rsasl::prelude::ChannelBindingCallback for Cb {
    fn get_cb_data(&self, name: &str) -> Option<&[u8]> {
        (name == self.0).then_some(&self.1[..])
    }
}
pub fn client(cfg: &Arc<SASLConfig>, mech: &str) -> Session {
    SASLClient::new(cfg.clone()).start_suggested(&[Mechname::parse(mech.as_bytes()).unwrap()]).unwrap()
}
pub fn server(cfg: &Arc<SASLConfig>, mech: &str) -> Session<V> {
    SASLServer::<V>::new(cfg.clone()).start_suggested(Mechname::parse(mech.as_bytes()).unwrap()).unwrap()
}
pub fn b64(x: &[u8]) -> String {
    STANDARD.encode(x)
}
pub fn unb64(x: &str) -> Vec<u8> {
    STANDARD.decode(x).unwrap()
}
pub fn mac(k: &[u8], d: &[u8]) -> Vec<u8> {
    let mut m = Hmac::<Sha256>::new_from_slice(k).unwrap();
    m.update(d);
    m.finalize().into_bytes().to_vec()
}
/// (salted, client key, stored key, server key), SHA-256
pub fn keys(pw: &[u8], salt: &[u8], iter: u32) -> (Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>) {
    let mut salted = vec![0; 32];
    pbkdf2::pbkdf2::<Hmac<Sha256>>(pw, salt, iter, &mut salted).unwrap();
    let ck = mac(&salted, b"Client Key");
    let sk = Sha256::digest(&ck).to_vec();
    let svk = mac(&salted, b"Server Key");
    (salted, ck, sk, svk)
}
pub fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}
/// value of an attribute such as "r=" of a message
pub fn attr(msg: &[u8], name: &str) -> String {
    let msg = std::str::from_utf8(msg).unwrap();
    msg.split(',').find_map(|p| p.strip_prefix(name)).unwrap().to_string()
}
/// configuration with an authid and a password for clients; a stored record for servers (SHA-256)
pub fn scram_client(user: &'static str, pw: &'static [u8], bind: bool) -> Arc<SASLConfig> {
    app(
        move |_, _, r| {
            r.satisfy::<AuthId>(user)?.satisfy::<Password>(pw)?;
            Ok(())
        },
        accept,
        bind,
    )
}
pub fn scram_server(user: &'static str, pw: &'static [u8], salt: &'static [u8], iter: u32, bind: bool) -> Arc<SASLConfig> {
    app(
        move |_, c, r| {
            if c.get_ref::<AuthId>() == Some(user) {
                let (_, _, sk, svk) = keys(pw, salt, iter);
                r.satisfy::<ScramStoredPassword>(&ScramStoredPassword::new(iter, salt, &sk, &svk))?;
            }
            Ok(())
        },
        accept,
        bind,
    )
}
