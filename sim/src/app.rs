//! The simulated applications on both ends: credentials, policies, scripted misbehaviour and a log of everything they were
//! asked and told.
use crate::alloc::recording;
use crate::sched;
use rsasl::callback::{CallbackError, Context, Request, SessionCallback, SessionData};
use rsasl::mechanisms::anonymous::AnonymousToken;
use rsasl::mechanisms::gssapi::properties::{GssSecurityLayer, GssService, SecurityLayer};
use rsasl::mechanisms::oauthbearer::properties::{
    OAuthBearerError, OAuthBearerErrored, OAuthBearerValidate,
};
use rsasl::mechanisms::scram::properties::{
    Iterations, Salt, SaltedPassword, ScramCachedPassword, ScramStoredPassword,
};
use rsasl::mechanisms::xoauth2::properties::{XOAuth2Error, XOAuth2Validate};
use rsasl::prelude::*;
use rsasl::property::{
    AuthId, AuthzId, ChannelBindingName, ChannelBindings, Hostname, OAuthBearerKV,
    OAuthBearerToken, OverrideCBType, Password, Realm, Service,
};
use rsasl::validate::{Validate, ValidationError};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, MutexGuard};

thread_local! {
    /// Which session is being stepped on this thread
    pub static CUR_SID: Cell<u32> = const { Cell::new(u32::MAX) };
}

/// Everything an application can read from a context
#[derive(Debug, Default, PartialEq, Eq)]
pub struct View {
    pub authid: Option<String>,
    pub authzid: Option<String>,
    pub password: Option<Vec<u8>>,
    pub token: Option<String>,
    pub kv: Option<Vec<(String, String)>>,
    pub anon: Option<String>,
    pub salt: Option<Vec<u8>>,
    pub iterations: Option<u32>,
    pub cbname: Option<String>,
    pub host: Option<String>,
}
impl Clone for View {
    fn clone(&self) -> Self {
        recording(|| View {
            authid: self.authid.clone(),
            authzid: self.authzid.clone(),
            password: self.password.clone(),
            token: self.token.clone(),
            kv: self.kv.clone(),
            anon: self.anon.clone(),
            salt: self.salt.clone(),
            iterations: self.iterations,
            cbname: self.cbname.clone(),
            host: self.host.clone(),
        })
    }
}
impl View {
    pub fn of(c: &Context) -> View {
        recording(|| View {
            authid: c.get_ref::<AuthId>().map(Into::into),
            authzid: c.get_ref::<AuthzId>().map(Into::into),
            password: c.get_ref::<Password>().map(Into::into),
            token: c.get_ref::<OAuthBearerToken>().map(Into::into),
            kv: c.get_ref::<OAuthBearerKV>().map(|kv| {
                kv.iter()
                    .map(|(k, v)| ((*k).to_string(), (*v).to_string()))
                    .collect()
            }),
            anon: c.get_ref::<AnonymousToken>().map(Into::into),
            salt: c.get_ref::<Salt>().map(Into::into),
            iterations: c.get_ref::<Iterations>().copied(),
            cbname: c.get_ref::<ChannelBindingName>().map(Into::into),
            host: c.get_ref::<Hostname>().map(Into::into),
        })
    }
}

/// What the server application hands to the protocol code
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Val {
    pub sid: u32,
    pub serial: u32,
    pub view: View,
}
pub struct RecVal;
impl Validation for RecVal {
    type Value = Val;
}
/// A validation type nobody asks for
pub struct OtherVal;
impl Validation for OtherVal {
    type Value = String;
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum AppEv {
    /// A callback for a value
    Req {
        prop: &'static str,
        ctx: View,
        answered: bool,
        side: &'static str,
        mech: String,
    },
    /// A callback with an action and the value it carried
    Act {
        prop: &'static str,
        ctx: View,
        val: String,
        keys: Option<(Vec<u8>, Vec<u8>)>,
        taken: bool,
    },
    Validate {
        ctx: View,
        ours: bool,
        set: bool,
        ok: bool,
    },
    CbData {
        name: String,
        found: bool,
    },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hit {
    /// Return without answering
    Decline,
    NoValue,
    NoCallback,
    Boxed,
    Io,
    /// Answer, but don't hand on the early return
    Swallow,
    /// Answer, swallow, answer again with something else
    Twice,
    /// Answer with values of many other types first
    WrongTypes,
    /// Answer and then return an own error
    ErrAfter,
    Panic,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum ValPolicy {
    #[default]
    Accept,
    /// Ok(()) without a result
    Decline,
    Missing,
    Boxed,
    /// Set a result twice, with different values
    Twice,
    /// Set a result of a type nobody asked for, then the right one
    WrongType,
    FinalizeThenErr,
    Panic,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Stored {
    pub iter: u32,
    pub salt: Vec<u8>,
    pub stored_key: Vec<u8>,
    pub server_key: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cached {
    /// `None`: offered whatever the server announced
    pub params: Option<(Vec<u8>, u32)>,
    pub client_key: Vec<u8>,
    pub server_key: Vec<u8>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct OErr {
    pub status: String,
    pub scope: Option<String>,
    pub conf: Option<String>,
}

/// The application data of one session
#[derive(Clone, Debug, Default)]
pub struct Script {
    // client
    pub authid: Option<String>,
    pub authzid: Option<String>,
    pub password: Option<Vec<u8>>,
    pub token: Option<String>,
    pub kv: Option<Vec<(String, String)>>,
    pub anon: Option<String>,
    pub cached: Vec<Cached>,
    pub salted: Option<Vec<u8>>,
    pub cbtype: Option<String>,
    pub cbdata: Vec<(String, Vec<u8>)>,
    pub refuse_actions: bool,
    pub gss_service: Option<(String, String)>,
    pub gss_layer: Option<u8>,
    // server
    pub users: Vec<(String, Stored)>,
    /// Token refusal of OAUTHBEARER / XOAUTH2
    pub refuse: Option<OErr>,
    pub refuse_x: Option<String>,
    pub no_oauth_answer: bool,
    pub validate: ValPolicy,
    // misbehaviour
    pub hits: Vec<(u32, Hit)>,
}

#[derive(Default)]
pub struct SessApp {
    pub script: Script,
    pub log: Vec<AppEv>,
    pub ncb: u32,
    pub nval: u32,
    /// (hits done)
    pub hit: Vec<(Hit, &'static str)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Prefer {
    #[default]
    Default,
    /// By the table in `ranks`
    Table,
}

#[derive(Default)]
pub struct App {
    sessions: Mutex<BTreeMap<u32, SessApp>>,
    pub cb_enabled: bool,
    pub prefer: Prefer,
    /// mechanism name -> rank; rank 0 is rejected even without alternative
    pub ranks: BTreeMap<String, u32>,
}

impl App {
    pub fn with_cb(cb: bool) -> Arc<App> {
        Arc::new(App {
            cb_enabled: cb,
            ..App::default()
        })
    }
    fn lock(&self) -> MutexGuard<'_, BTreeMap<u32, SessApp>> {
        self.sessions.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn set(&self, sid: u32, script: Script) {
        self.lock().insert(
            sid,
            SessApp {
                script,
                ..SessApp::default()
            },
        );
    }
    pub fn script<T>(&self, sid: u32, f: impl FnOnce(&mut Script) -> T) -> T {
        f(&mut self.lock().entry(sid).or_default().script)
    }
    pub fn log(&self, sid: u32) -> Vec<AppEv> {
        self.lock().get(&sid).map(|s| s.log.clone()).unwrap_or_default()
    }
    pub fn log_len(&self, sid: u32) -> usize {
        self.lock().get(&sid).map_or(0, |s| s.log.len())
    }
    /// Number of callbacks so far
    pub fn ncb(&self, sid: u32) -> u32 {
        self.lock().get(&sid).map_or(0, |s| s.ncb)
    }
    pub fn hits(&self, sid: u32) -> Vec<(Hit, &'static str)> {
        self.lock().get(&sid).map(|s| s.hit.clone()).unwrap_or_default()
    }
    pub fn validations(&self, sid: u32) -> Vec<View> {
        self.log(sid)
            .into_iter()
            .filter_map(|e| match e {
                AppEv::Validate { ctx, .. } => Some(ctx),
                _ => None,
            })
            .collect()
    }
    pub fn push(&self, sid: u32, ev: AppEv) {
        self.lock().entry(sid).or_default().log.push(ev);
    }
}

#[derive(Debug)]
pub struct AppError(pub &'static str);
impl std::fmt::Display for AppError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "application error: {}", self.0)
    }
}
impl std::error::Error for AppError {}

pub const BOXED_MARK: &str = "simulated application failure 0xB0";

/// The callback object; shared by all sessions of a configuration
pub struct Handle(pub Arc<App>);

struct Asked<'c> {
    sid: u32,
    hit: Option<Hit>,
    ctx: View,
    side: &'static str,
    mech: String,
    app: &'c App,
}

impl Asked<'_> {
    fn log(&self, prop: &'static str, answered: bool) {
        self.app.push(
            self.sid,
            AppEv::Req {
                prop,
                ctx: self.ctx.clone(),
                answered,
                side: self.side,
                mech: self.mech.clone(),
            },
        );
        if let Some(h) = self.hit {
            self.app.lock().entry(self.sid).or_default().hit.push((h, prop));
        }
    }

    fn give<P: for<'p> Property<'p>>(
        &self,
        prop: &'static str,
        request: &mut Request,
        value: Option<&<P as Property<'_>>::Value>,
        alt: &<P as Property<'_>>::Value,
    ) -> Result<(), SessionError> {
        match self.hit {
            Some(Hit::Decline) => {
                self.log(prop, false);
                return Ok(());
            }
            Some(Hit::NoValue) => {
                self.log(prop, false);
                return Err(CallbackError::NoValue.into());
            }
            Some(Hit::NoCallback) => {
                self.log(prop, false);
                return Err(CallbackError::NoCallback("simulated").into());
            }
            Some(Hit::Boxed) => {
                self.log(prop, false);
                return Err(SessionError::Boxed(Box::new(AppError(BOXED_MARK))));
            }
            Some(Hit::Io) => {
                self.log(prop, false);
                return Err(SessionError::Io {
                    source: std::io::Error::new(std::io::ErrorKind::Other, BOXED_MARK),
                });
            }
            Some(Hit::Panic) => {
                self.log(prop, false);
                panic!("simulated crash of the application");
            }
            Some(Hit::WrongTypes) => {
                request
                    .satisfy::<Realm>("wrong-realm")?
                    .satisfy::<Hostname>("wrong-host")?
                    .satisfy::<Service>("wrong-service")?;
                if prop != "AuthId" {
                    request.satisfy::<AuthId>("wrong-authid")?;
                }
                if prop != "AuthzId" {
                    request.satisfy::<AuthzId>("wrong-authzid")?;
                }
                if prop != "Password" {
                    request.satisfy::<Password>(b"wrong-password")?;
                }
                if prop != "OAuthBearerToken" {
                    request.satisfy::<OAuthBearerToken>("wrong-token")?;
                }
                if prop != "SaltedPassword" {
                    request.satisfy::<SaltedPassword>(b"wrong-salted")?;
                }
            }
            _ => {}
        }
        self.log(prop, value.is_some());
        let Some(value) = value else {
            return match self.hit {
                Some(Hit::ErrAfter) => Err(SessionError::Boxed(Box::new(AppError(BOXED_MARK)))),
                _ => Ok(()),
            };
        };
        match self.hit {
            Some(Hit::Swallow) => {
                let r = request.satisfy::<P>(value).map(|_| ());
                sched::yield_point("answered");
                match r {
                    Err(SessionError::CallbackError(ref e)) if is_early(e) => Ok(()),
                    Err(e) => Err(e),
                    Ok(_) => Ok(()),
                }
            }
            Some(Hit::Twice) => {
                let r = request.satisfy::<P>(value).map(|_| ());
                match r {
                    Err(SessionError::CallbackError(ref e)) if is_early(e) => {}
                    Err(e) => return Err(e),
                    Ok(_) => {}
                }
                request.satisfy::<P>(alt)?;
                Ok(())
            }
            Some(Hit::ErrAfter) => {
                let r = request.satisfy::<P>(value).map(|_| ());
                match r {
                    Err(SessionError::CallbackError(ref e)) if is_early(e) => {}
                    Err(e) => return Err(e),
                    Ok(_) => {}
                }
                Err(SessionError::Boxed(Box::new(AppError(BOXED_MARK))))
            }
            _ => {
                let r = request.satisfy::<P>(value).map(|_| ());
                sched::yield_point("answered");
                r
            }
        }
    }
}

/// The hidden early return value: neither of the two others
pub fn is_early(e: &CallbackError) -> bool {
    !matches!(e, CallbackError::NoValue | CallbackError::NoCallback(_))
}

impl SessionCallback for Handle {
    fn callback(
        &self,
        session_data: &SessionData,
        context: &Context,
        request: &mut Request,
    ) -> Result<(), SessionError> {
        let sid = CUR_SID.with(Cell::get);
        sched::yield_point("callback");
        let (script, hit) = {
            let mut g = self.0.lock();
            let sa = g.entry(sid).or_default();
            let n = sa.ncb;
            sa.ncb += 1;
            let hit = sa
                .script
                .hits
                .iter()
                .find(|(at, _)| *at == n)
                .map(|(_, h)| *h);
            (sa.script.clone(), hit)
        };
        let a = Asked {
            sid,
            hit,
            ctx: View::of(context),
            side: match session_data.side() {
                rsasl::registry::Side::Client => "client",
                rsasl::registry::Side::Server => "server",
            },
            mech: session_data.mechanism().mechanism.as_str().to_string(),
            app: &self.0,
        };
        let act = |prop: &'static str, val: String, keys: Option<(Vec<u8>, Vec<u8>)>, taken: bool| {
            self.0.push(
                sid,
                AppEv::Act {
                    prop,
                    ctx: a.ctx.clone(),
                    val,
                    keys,
                    taken,
                },
            );
        };

        // Actions
        if request.is::<XOAuth2Error>() {
            if script.refuse_actions {
                act("XOAuth2Error", String::new(), None, false);
                return Ok(());
            }
            let v = request.get_action::<XOAuth2Error>().map(str::to_string);
            act("XOAuth2Error", v.clone().unwrap_or_default(), None, v.is_some());
            return fail_after_action(hit);
        }
        if request.is::<OAuthBearerErrored>() {
            if script.refuse_actions {
                act("OAuthBearerErrored", String::new(), None, false);
                return Ok(());
            }
            let v = request.get_action::<OAuthBearerErrored>().map(|e| {
                format!("{:?}", (e.status, e.scope, e.openid_config))
            });
            act("OAuthBearerErrored", v.clone().unwrap_or_default(), None, v.is_some());
            return fail_after_action(hit);
        }
        if request.is::<ScramCachedPassword>() {
            let v = if script.refuse_actions {
                None
            } else {
                request
                    .get_action::<ScramCachedPassword>()
                    .map(|k| (k.client_key.to_vec(), k.server_key.to_vec()))
            };
            if let Some(keys) = v {
                act("ScramCachedPassword", String::new(), Some(keys), true);
                return fail_after_action(hit);
            }
            // not an action, so a request
            let found = script.cached.iter().find(|c| match &c.params {
                None => true,
                Some((salt, iter)) => {
                    a.ctx.salt.as_ref() == Some(salt) && a.ctx.iterations == Some(*iter)
                }
            });
            let v = found.map(|c| ScramCachedPassword::new(&c.client_key, &c.server_key));
            return a.give::<ScramCachedPassword>(
                "ScramCachedPassword",
                request,
                v.as_ref(),
                &ScramCachedPassword::new(b"", b""),
            );
        }

        macro_rules! give {
            ($p:ty, $name:literal, $v:expr, $alt:expr) => {
                if request.is::<$p>() {
                    return a.give::<$p>($name, request, $v, $alt);
                }
            };
        }
        give!(AuthId, "AuthId", script.authid.as_deref(), "second-authid");
        give!(AuthzId, "AuthzId", script.authzid.as_deref(), "second-authzid");
        give!(Password, "Password", script.password.as_deref(), b"second-password");
        give!(SaltedPassword, "SaltedPassword", script.salted.as_deref(), b"second-salted");
        give!(OAuthBearerToken, "OAuthBearerToken", script.token.as_deref(), "second-token");
        give!(AnonymousToken, "AnonymousToken", script.anon.as_deref(), "second-trace");
        give!(OverrideCBType, "OverrideCBType", script.cbtype.as_deref(), "second-cbtype");
        if request.is::<OAuthBearerKV>() {
            let kv: Option<Vec<(&str, &str)>> = script
                .kv
                .as_ref()
                .map(|v| v.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect());
            return a.give::<OAuthBearerKV>(
                "OAuthBearerKV",
                request,
                kv.as_deref(),
                &[("second", "kv")],
            );
        }
        if request.is::<ChannelBindings>() {
            let v = script
                .cbdata
                .iter()
                .find(|(n, _)| Some(n) == a.ctx.cbname.as_ref())
                .map(|(_, d)| d.as_slice());
            return a.give::<ChannelBindings>("ChannelBindings", request, v, b"second-cbdata");
        }
        if request.is::<ScramStoredPassword>() {
            let u = script
                .users
                .iter()
                .find(|(n, _)| Some(n) == a.ctx.authid.as_ref())
                .map(|(_, s)| s);
            let v = u.map(|s| {
                ScramStoredPassword::new(s.iter, &s.salt, &s.stored_key, &s.server_key)
            });
            return a.give::<ScramStoredPassword>(
                "ScramStoredPassword",
                request,
                v.as_ref(),
                &ScramStoredPassword::new(1, b"", b"", b""),
            );
        }
        if request.is::<XOAuth2Validate>() {
            let v: Option<Result<(), &str>> = if script.no_oauth_answer {
                None
            } else {
                Some(script.refuse_x.as_deref().map_or(Ok(()), Err))
            };
            return a.give::<XOAuth2Validate>(
                "XOAuth2Validate",
                request,
                v.as_ref(),
                &Err("second"),
            );
        }
        if request.is::<OAuthBearerValidate>() {
            let v: Option<Result<(), OAuthBearerError>> = if script.no_oauth_answer {
                None
            } else {
                Some(script.refuse.as_ref().map_or(Ok(()), |e| {
                    Err(OAuthBearerError::new(
                        &e.status,
                        e.scope.as_deref(),
                        e.conf.as_deref(),
                    ))
                }))
            };
            return a.give::<OAuthBearerValidate>(
                "OAuthBearerValidate",
                request,
                v.as_ref(),
                &Err(OAuthBearerError::new("second", None, None)),
            );
        }
        if request.is::<GssService>() {
            let v = script.gss_service.as_ref().map(|(s, _)| s.as_str());
            return a.give::<GssService>("GssService", request, v, "second-service");
        }
        give!(
            Hostname,
            "Hostname",
            script.gss_service.as_ref().map(|(_, h)| h.as_str()),
            "second-host"
        );
        if request.is::<GssSecurityLayer>() {
            let v = script.gss_layer.map(SecurityLayer::from_bits_truncate);
            return a.give::<GssSecurityLayer>(
                "GssSecurityLayer",
                request,
                v.as_ref(),
                &SecurityLayer::empty(),
            );
        }
        a.log("unknown", false);
        Ok(())
    }

    fn enable_channel_binding(&self) -> bool {
        sched::yield_point("enable-cb");
        self.0.cb_enabled
    }

    fn prefer<'a>(&self, a: Option<&'a Mechanism>, b: &'a Mechanism) -> Ordering {
        sched::yield_point("prefer");
        match self.0.prefer {
            Prefer::Default => Dflt.prefer(a, b),
            Prefer::Table => {
                let rank = |m: &Mechanism| {
                    self.0.ranks.get(m.mechanism.as_str()).copied().unwrap_or(0)
                };
                let rb = rank(b);
                if rb == 0 {
                    // rejected, even if there is nothing else
                    return Ordering::Greater;
                }
                a.map_or(Ordering::Less, |a| rank(a).cmp(&rb))
            }
        }
    }

    fn validate(
        &self,
        _session_data: &SessionData,
        context: &Context,
        validate: &mut Validate<'_>,
    ) -> Result<(), ValidationError> {
        let sid = CUR_SID.with(Cell::get);
        sched::yield_point("validate");
        let ctx = View::of(context);
        let (policy, serial) = {
            let mut g = self.0.lock();
            let sa = g.entry(sid).or_default();
            sa.nval += 1;
            (sa.script.validate, sa.nval)
        };
        let ours = validate.is::<RecVal>();
        let by_closure = format!("{ctx:?}").len() % 2 == 0;
        let val = |serial| Val {
            sid,
            serial,
            view: ctx.clone(),
        };
        let (set, ok) = match policy {
            ValPolicy::Accept => (true, true),
            ValPolicy::Decline => (false, true),
            ValPolicy::Missing | ValPolicy::Boxed => (false, false),
            ValPolicy::Twice | ValPolicy::WrongType => (true, true),
            ValPolicy::FinalizeThenErr => (true, false),
            ValPolicy::Panic => (false, false),
        };
        self.0.push(
            sid,
            AppEv::Validate {
                ctx: ctx.clone(),
                ours,
                set,
                ok,
            },
        );
        match policy {
            ValPolicy::Accept => {
                validate.with::<RecVal, _>(|| Ok(val(serial)))?;
            }
            ValPolicy::Decline => {}
            // one way to fail is the closure that computes the value
            ValPolicy::Missing if by_closure && validate.is::<RecVal>() => {
                validate.with::<RecVal, _>(|| Err(ValidationError::MissingRequiredProperty))?;
            }
            ValPolicy::Boxed if by_closure && validate.is::<RecVal>() => {
                validate.with::<RecVal, _>(|| Err(ValidationError::Boxed(Box::new(AppError(BOXED_MARK)))))?;
            }
            ValPolicy::Missing => return Err(ValidationError::MissingRequiredProperty),
            ValPolicy::Boxed => return Err(ValidationError::Boxed(Box::new(AppError(BOXED_MARK)))),
            ValPolicy::Twice => {
                validate.finalize::<RecVal>(val(serial));
                validate.finalize::<RecVal>(val(serial + 1000));
                validate.with::<RecVal, _>(|| Ok(val(serial + 2000)))?;
            }
            ValPolicy::WrongType => {
                validate.finalize::<OtherVal>("nobody asked".into());
                validate.with::<OtherVal, _>(|| Ok("still nobody".into()))?;
                validate.finalize::<RecVal>(val(serial));
            }
            ValPolicy::FinalizeThenErr => {
                validate.finalize::<RecVal>(val(serial));
                return Err(ValidationError::Boxed(Box::new(AppError(BOXED_MARK))));
            }
            ValPolicy::Panic => panic!("simulated crash of the application"),
        }
        sched::yield_point("validated");
        Ok(())
    }
}

fn fail_after_action(hit: Option<Hit>) -> Result<(), SessionError> {
    match hit {
        Some(Hit::Boxed | Hit::ErrAfter) => {
            Err(SessionError::Boxed(Box::new(AppError(BOXED_MARK))))
        }
        Some(Hit::Panic) => panic!("simulated crash of the application"),
        _ => Ok(()),
    }
}

struct Dflt;
impl SessionCallback for Dflt {}
