//! Real rsasl sessions as simulated endpoints.
use crate::alloc::peak_of;
use crate::app::{App, AppEv, Handle, RecVal, Val, CUR_SID};
use crate::io::{SimWriter, WCfg};
use crate::sched;
use crate::sim::{mix, viol, Res};
use base64::engine::general_purpose::STANDARD;
use base64::Engine;
use rsasl::callback::CallbackError;
use rsasl::mechanism::MechanismErrorKind;
use rsasl::mechanisms;
use rsasl::prelude::*;
use rsasl::validate::{NoValidation, ValidationError};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Mech {
    Plain,
    Login,
    Anon,
    Ext,
    Xoa,
    Oab,
    S1,
    S256,
    S512,
    S1P,
    S256P,
    S512P,
    Gss,
}
use Mech::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Hash {
    Sha1,
    Sha256,
    Sha512,
}

pub const ALL: &[Mech] = &[Plain, Login, Anon, Ext, Xoa, Oab, S1, S256, S512, S1P, S256P, S512P];
pub const SCRAM: &[Mech] = &[S1, S256, S512, S1P, S256P, S512P];

impl Mech {
    pub fn name(self) -> &'static str {
        match self {
            Plain => "PLAIN",
            Login => "LOGIN",
            Anon => "ANONYMOUS",
            Ext => "EXTERNAL",
            Xoa => "XOAUTH2",
            Oab => "OAUTHBEARER",
            S1 => "SCRAM-SHA-1",
            S256 => "SCRAM-SHA-256",
            S512 => "SCRAM-SHA-512",
            S1P => "SCRAM-SHA-1-PLUS",
            S256P => "SCRAM-SHA-256-PLUS",
            S512P => "SCRAM-SHA-512-PLUS",
            Gss => "GSSAPI",
        }
    }
    pub fn by_name(n: &str) -> Option<Mech> {
        ALL.iter().chain(&[Gss]).copied().find(|m| m.name() == n)
    }
    pub fn desc(self) -> Mechanism {
        match self {
            Plain => mechanisms::plain::PLAIN,
            Login => mechanisms::login::LOGIN,
            Anon => mechanisms::anonymous::ANONYMOUS,
            Ext => mechanisms::external::EXTERNAL,
            Xoa => mechanisms::xoauth2::XOAUTH2,
            Oab => mechanisms::oauthbearer::OAUTHBEARER,
            S1 => mechanisms::scram::SCRAM_SHA1,
            S256 => mechanisms::scram::SCRAM_SHA256,
            S512 => mechanisms::scram::SCRAM_SHA512,
            S1P => mechanisms::scram::SCRAM_SHA1_PLUS,
            S256P => mechanisms::scram::SCRAM_SHA256_PLUS,
            S512P => mechanisms::scram::SCRAM_SHA512_PLUS,
            Gss => mechanisms::gssapi::GSSAPI,
        }
    }
    pub fn hash(self) -> Option<Hash> {
        match self {
            S1 | S1P => Some(Hash::Sha1),
            S256 | S256P => Some(Hash::Sha256),
            S512 | S512P => Some(Hash::Sha512),
            _ => None,
        }
    }
    pub fn plus(self) -> bool {
        matches!(self, S1P | S256P | S512P)
    }
    pub fn plus_of(self) -> Option<Mech> {
        match self {
            S1 => Some(S1P),
            S256 => Some(S256P),
            S512 => Some(S512P),
            _ => None,
        }
    }
    pub fn server_first(self) -> bool {
        self == Login
    }
}

pub fn mechname(s: &str) -> &Mechname {
    // names this harness made itself; whether they parse is C10's concern
    Mechname::parse(s.as_bytes()).unwrap_or_else(|_| Mechname::const_new_unchecked(s.as_bytes()))
}

static LEAKED: Mutex<BTreeMap<Vec<Mech>, &'static [Mechanism]>> = Mutex::new(BTreeMap::new());

pub fn registry(mechs: &[Mech]) -> Registry {
    let mut g = LEAKED.lock().unwrap();
    let s = *g.entry(mechs.to_vec()).or_insert_with(|| {
        Box::leak(
            mechs
                .iter()
                .map(|m| m.desc())
                .collect::<Vec<_>>()
                .into_boxed_slice(),
        )
    });
    Registry::with_mechanisms(s)
}

/// A configuration and the application behind it
#[derive(Clone)]
pub struct Config {
    pub cfg: Arc<SASLConfig>,
    pub app: Arc<App>,
}
impl Config {
    pub fn new(app: &Arc<App>, mechs: &[Mech]) -> Config {
        Self::with_registry(app, registry(mechs))
    }
    pub fn with_registry(app: &Arc<App>, r: Registry) -> Config {
        let cfg = SASLConfig::builder()
            .with_registry(r)
            .with_callback(Handle(app.clone()))
            .expect("harness: configuration");
        Config {
            cfg,
            app: app.clone(),
        }
    }
}

pub struct SimCb {
    pub app: Arc<App>,
    pub sid: u32,
    pub data: Vec<(String, Vec<u8>)>,
}
impl ChannelBindingCallback for SimCb {
    fn get_cb_data(&self, name: &str) -> Option<&[u8]> {
        sched::yield_point("cbdata");
        let r = self.data.iter().find(|(n, _)| n == name).map(|(_, d)| d.as_slice());
        self.app.push(
            self.sid,
            AppEv::CbData {
                name: name.into(),
                found: r.is_some(),
            },
        );
        r
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ErrKind {
    Input,
    Io,
    Base64,
    NoSec,
    Done,
    Mech,
    CbNoValue,
    CbNoCallback(String),
    CbEarly,
    ValMissing,
    ValBoxed,
    Boxed,
    NoValidate,
    Mutual,
    MissingCb(String),
    Other,
}

/// An error as observed: kind, and everything it says about itself
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ObsErr {
    pub kind: ErrKind,
    pub text: String,
    pub io: Option<std::io::ErrorKind>,
    pub mech: Option<MechKind>,
    /// `is_mechanism_error`, `is_missing_prop`
    pub helpers: (bool, bool),
}

/// How an error of a mechanism classifies itself
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MechKind {
    Parse,
    Protocol,
    Outcome,
    Other,
}

impl ObsErr {
    pub fn of(e: &SessionError) -> ObsErr {
        let kind = match e {
            SessionError::Io { .. } => ErrKind::Io,
            SessionError::Base64 { .. } => ErrKind::Base64,
            SessionError::NoSecurityLayer => ErrKind::NoSec,
            SessionError::InputDataRequired => ErrKind::Input,
            SessionError::MechanismDone => ErrKind::Done,
            SessionError::MechanismError(_) => ErrKind::Mech,
            SessionError::CallbackError(CallbackError::NoValue) => ErrKind::CbNoValue,
            SessionError::CallbackError(CallbackError::NoCallback(n)) => {
                ErrKind::CbNoCallback((*n).to_string())
            }
            SessionError::CallbackError(_) => ErrKind::CbEarly,
            SessionError::ValidationError(ValidationError::MissingRequiredProperty) => {
                ErrKind::ValMissing
            }
            SessionError::ValidationError(_) => ErrKind::ValBoxed,
            SessionError::Boxed(_) => ErrKind::Boxed,
            SessionError::NoValidate => ErrKind::NoValidate,
            SessionError::MutualAuthenticationFailed => ErrKind::Mutual,
            SessionError::MissingChannelBindingData(n) => ErrKind::MissingCb(n.clone()),
            _ => ErrKind::Other,
        };
        let mut text = format!("{e} | {e:?} | {e:#?}");
        let mut src = std::error::Error::source(e);
        while let Some(s) = src {
            text.push_str(&format!(" <- {s} | {s:?}"));
            src = s.source();
        }
        let io = match e {
            SessionError::Io { source } => Some(source.kind()),
            _ => None,
        };
        let mech = match e {
            SessionError::MechanismError(m) => Some(match m.kind() {
                MechanismErrorKind::Parse => MechKind::Parse,
                MechanismErrorKind::Protocol => MechKind::Protocol,
                MechanismErrorKind::Outcome => MechKind::Outcome,
                _ => MechKind::Other,
            }),
            _ => None,
        };
        ObsErr { kind, text, io, mech, helpers: (e.is_mechanism_error(), e.is_missing_prop()) }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum R {
    Running,
    FinYes,
    FinNo,
    Err(ObsErr),
    Panic(String),
}
impl R {
    pub fn ok(&self) -> bool {
        matches!(self, R::Running | R::FinYes | R::FinNo)
    }
    pub fn finished(&self) -> bool {
        matches!(self, R::FinYes | R::FinNo)
    }
    pub fn kind(&self) -> Option<&ErrKind> {
        match self {
            R::Err(e) => Some(&e.kind),
            _ => None,
        }
    }
    pub fn is_input_required(&self) -> bool {
        self.kind() == Some(&ErrKind::Input)
    }
    pub fn short(&self) -> String {
        match self {
            R::Running => "Running".into(),
            R::FinYes => "Finished(Yes)".into(),
            R::FinNo => "Finished(No)".into(),
            R::Err(e) => {
                let t: String = e.text.chars().take(120).collect();
                format!("Err({:?}: {t})", e.kind)
            }
            R::Panic(p) => format!("PANIC({p})"),
        }
    }
    pub fn label(&self) -> String {
        match self {
            R::Err(e) => format!("Err({:?})", e.kind),
            R::Panic(_) => "Panic".into(),
            r => r.short(),
        }
    }
}

pub struct Out {
    pub res: R,
    /// What arrived in the writer, exactly
    pub bytes: Vec<u8>,
    pub peak: usize,
    pub refused: usize,
    /// Return value of encode/decode
    pub n: usize,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        // only the file name: paths of the build must not end up in a trace
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit('/').next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn forget_panic() {
    LAST_PANIC.with(|p| *p.borrow_mut() = String::new());
}

/// Run library code; a panic is an observation
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

enum Inner {
    C(Session<NoValidation, SimCb>),
    S(Session<RecVal, SimCb>),
}

pub struct Sess {
    pub sid: u32,
    inner: Inner,
    pub app: Arc<App>,
    pub nsteps: u32,
    /// Stepping on is documented as undefined: an error other than "input required" or a panic happened
    pub dead: bool,
    pub fin: Option<R>,
    pub last: Option<R>,
    /// Seed from which the randomness of every step follows, independent of everything else on the thread
    pub entropy: Option<u64>,
    /// Steps that were not refused for missing input
    pub effective: u32,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum StartErr {
    NoMechanism,
    Panic(String),
}

pub fn start_client(
    cfg: &Config,
    sid: u32,
    offered: &[&Mechname],
    cb: Vec<(String, Vec<u8>)>,
) -> Result<Sess, StartErr> {
    CUR_SID.with(|c| c.set(sid));
    let app = cfg.app.clone();
    let r = guarded(|| {
        SASLClient::with_cb(
            cfg.cfg.clone(),
            SimCb {
                app: app.clone(),
                sid,
                data: cb,
            },
        )
        .start_suggested(offered)
    });
    match r {
        Ok(Ok(s)) => Ok(Sess::new(sid, Inner::C(s), app)),
        Ok(Err(_)) => Err(StartErr::NoMechanism),
        Err(p) => Err(StartErr::Panic(p)),
    }
}

pub fn start_server(
    cfg: &Config,
    sid: u32,
    selected: &Mechname,
    cb: Vec<(String, Vec<u8>)>,
) -> Result<Sess, StartErr> {
    CUR_SID.with(|c| c.set(sid));
    let app = cfg.app.clone();
    let r = guarded(|| {
        SASLServer::<RecVal, _>::with_cb(
            cfg.cfg.clone(),
            SimCb {
                app: app.clone(),
                sid,
                data: cb,
            },
        )
        .start_suggested(selected)
    });
    match r {
        Ok(Ok(s)) => Ok(Sess::new(sid, Inner::S(s), app)),
        Ok(Err(_)) => Err(StartErr::NoMechanism),
        Err(p) => Err(StartErr::Panic(p)),
    }
}

/// Start one side for one mechanism; used wherever negotiation is not the point
pub fn client_for(cfg: &Config, sid: u32, m: Mech, cb: Vec<(String, Vec<u8>)>) -> Res<Sess> {
    match start_client(cfg, sid, &[mechname(m.name())], cb) {
        Ok(s) => Ok(s),
        Err(e) => viol(
            "start-failed",
            format!("client does not start for the only configured and offered mechanism {}: {e:?}", m.name()),
        ),
    }
}
pub fn server_for(cfg: &Config, sid: u32, m: Mech, cb: Vec<(String, Vec<u8>)>) -> Res<Sess> {
    match start_server(cfg, sid, mechname(m.name()), cb) {
        Ok(s) => Ok(s),
        Err(e) => viol(
            "start-failed",
            format!("server does not start for the configured mechanism {}: {e:?}", m.name()),
        ),
    }
}

/// Create what sessions are made from and drop it unused
pub fn unused(cfg: &Config, sid: u32, cb: &[(String, Vec<u8>)]) {
    let data = || SimCb { app: cfg.app.clone(), sid, data: cb.to_vec() };
    drop(SASLClient::with_cb(cfg.cfg.clone(), data()));
    let s = SASLServer::<RecVal, _>::with_cb(cfg.cfg.clone(), data());
    let n = s.get_available().into_iter().count();
    let _ = n;
    drop(s);
}

impl Sess {
    fn new(sid: u32, inner: Inner, app: Arc<App>) -> Sess {
        Sess {
            sid,
            inner,
            app,
            nsteps: 0,
            dead: false,
            fin: None,
            last: None,
            entropy: None,
            effective: 0,
        }
    }
    pub fn is_client(&self) -> bool {
        matches!(self.inner, Inner::C(_))
    }
    pub fn mech(&self) -> String {
        match &self.inner {
            Inner::C(s) => s.get_mechname().as_str().to_string(),
            Inner::S(s) => s.get_mechname().as_str().to_string(),
        }
    }
    pub fn first(&self) -> bool {
        match &self.inner {
            Inner::C(s) => s.are_we_first(),
            Inner::S(s) => s.are_we_first(),
        }
    }
    pub fn has_layer(&self) -> bool {
        match &self.inner {
            Inner::C(s) => s.has_security_layer(),
            Inner::S(s) => s.has_security_layer(),
        }
    }
    pub fn validation(&mut self) -> Option<Val> {
        match &mut self.inner {
            Inner::C(s) => {
                let _ = s.validation();
                None
            }
            Inner::S(s) => s.validation(),
        }
    }
    /// Can be stepped on according to the documentation
    pub fn alive(&self) -> bool {
        !self.dead && self.fin.is_none()
    }

    fn run(
        &mut self,
        w: &WCfg,
        f: impl FnOnce(&mut Inner, &mut SimWriter) -> Result<(State, usize), SessionError>,
    ) -> Out {
        CUR_SID.with(|c| c.set(self.sid));
        let mut writer = SimWriter::new(w.clone());
        writer.out.reserve(512);
        let inner = &mut self.inner;
        let (r, peak) = peak_of(|| guarded(|| f(inner, &mut writer)));
        let mut n = 0;
        let res = match r {
            Ok(Ok((s, k))) => {
                n = k;
                match s {
                    State::Running => R::Running,
                    State::Finished(MessageSent::Yes) => R::FinYes,
                    State::Finished(MessageSent::No) => R::FinNo,
                }
            }
            Ok(Err(e)) => R::Err(ObsErr::of(&e)),
            Err(p) => R::Panic(p),
        };
        Out {
            res,
            bytes: writer.out,
            peak,
            refused: writer.refused,
            n,
        }
    }

    /// One step; with `b64` the input is base64 already and so is what the writer got.
    pub fn step_as(&mut self, input: Option<&[u8]>, b64: bool, w: &WCfg) -> Out {
        if let Some(e) = self.entropy {
            crate::entropy::reset(mix(e ^ (u64::from(self.sid) << 32) ^ u64::from(self.effective)));
        }
        let o = self.run(w, |inner, wr| {
            match (inner, b64) {
                (Inner::C(s), false) => s.step(input, wr),
                (Inner::C(s), true) => s.step64(input, wr),
                (Inner::S(s), false) => s.step(input, wr),
                (Inner::S(s), true) => s.step64(input, wr),
            }
            .map(|s| (s, 0))
        });
        self.nsteps += 1;
        if !o.res.is_input_required() {
            self.effective += 1;
        }
        match &o.res {
            R::Err(e) if e.kind != ErrKind::Input => self.dead = true,
            R::Panic(_) => self.dead = true,
            r if r.finished() => self.fin = Some(r.clone()),
            _ => {}
        }
        self.last = Some(o.res.clone());
        o
    }
    pub fn step(&mut self, input: Option<&[u8]>, w: &WCfg) -> Out {
        self.step_as(input, false, w)
    }
    /// A step with raw data on the outside whichever way the session is driven
    pub fn step_via(&mut self, input: Option<&[u8]>, b64: bool, w: &WCfg) -> Out {
        if b64 {
            let enc = input.map(|i| STANDARD.encode(i));
            let mut o = self.step_as(enc.as_deref().map(str::as_bytes), true, w);
            if o.res.ok() {
                match STANDARD.decode(&o.bytes) {
                    Ok(b) => o.bytes = b,
                    Err(_) => {
                        o.res = R::Panic(format!(
                            "base64 step wrote something that is not base64: {}",
                            show(&o.bytes)
                        ))
                    }
                }
            }
            o
        } else {
            self.step(input, w)
        }
    }
    pub fn encode(&mut self, data: &[u8], w: &WCfg) -> Out {
        self.run(w, |inner, wr| {
            match inner {
                Inner::C(s) => s.encode(data, wr),
                Inner::S(s) => s.encode(data, wr),
            }
            .map(|n| (State::Running, n))
        })
    }
    pub fn decode(&mut self, data: &[u8], w: &WCfg) -> Out {
        self.run(w, |inner, wr| {
            match inner {
                Inner::C(s) => s.decode(data, wr),
                Inner::S(s) => s.decode(data, wr),
            }
            .map(|n| (State::Running, n))
        })
    }
}

/// Printable rendering for traces
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.iter().take(240) {
        match c {
            0x20..=0x7e if *c != b'\\' => s.push(*c as char),
            _ => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    if b.len() > 240 {
        s.push_str(&format!("...({} bytes, {:016x})", b.len(), crate::sim::fnv(b)));
    }
    s
}
pub fn show_opt(b: Option<&[u8]>) -> String {
    b.map_or("<none>".into(), |b| format!("\"{}\"", show(b)))
}
