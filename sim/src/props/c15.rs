//! C15: application callbacks are asked, answered and failed as documented.
//!
//! Two shapes.  `scripted`: a mechanism of our own asks a random program of requests of an application that misbehaves at
//! random, against a reference model of the request/answer protocol.  `builtin`: an exchange of a built-in mechanism is told
//! twice, the second time with one callback answered differently.
use super::*;
use crate::app::{AppError, AppEv, Hit, Script, BOXED_MARK};
use crate::ensure;
use crate::exch::Who;
use crate::gen;
use crate::gss::GssCfg;
use crate::io::WCfg;
use crate::sess::*;
use crate::sim::{Res, Sim, Violation};
use crate::twin::{differs, Rec, Story, EVERY};
use rsasl::callback::{CallbackError, Context, Request, SessionCallback, SessionData};
use rsasl::mechanism::{
    Authentication, Demand, DemandReply, EmptyProvider, MechanismData, Provider, ProviderExt, ThisProvider,
};
use rsasl::prelude::*;
use rsasl::property::{AuthId, ChannelBindingName, ChannelBindings, Password, Property, SizedProperty};
use rsasl::registry::{Matches, Named, Side};
use rsasl::validate::{Validate, ValidationError};
use std::cell::RefCell;
use std::sync::{Arc, Mutex};

pub const PROP: Prop = Prop {
    id: "C15",
    run,
    quick: 300_000,
    thorough: 7_000_000,
    hang_s: 30,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: &[
        "search, not enumeration: absence of a violation in the explored runs is no proof",
        "the SCRAM client documents that keys need not be cached, so what the application makes of that action is not looked at",
        "an application that answers NoCallback to an optional request, or NoValue after answering, may see either outcome",
    ],
};

fn viol(class: &'static str, msg: String) -> Violation {
    Violation { class: class.into(), msg }
}

fn run(sim: &mut Sim) -> Res {
    if sim.chance(3, 5) {
        scripted(sim)
    } else {
        builtin(sim)
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// Properties of a third party
// ---------------------------------------------------------------------------------------------------------------------

struct TextA;
impl Property<'_> for TextA {
    type Value = str;
}
/// Same value type, other property
struct TextB;
impl Property<'_> for TextB {
    type Value = str;
}
struct Bytes;
impl Property<'_> for Bytes {
    type Value = [u8];
}
struct Num;
impl SizedProperty<'_> for Num {
    type Value = u32;
}
#[derive(Debug)]
struct Rich<'a> {
    t: &'a str,
    n: u32,
}
struct Record;
impl<'a> SizedProperty<'a> for Record {
    type Value = Rich<'a>;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum P {
    A,
    B,
    Y,
    N,
    R,
    /// properties of the library
    Id,
    Pw,
    Cb,
    CbName,
}
const ASKED: &[P] = &[P::A, P::B, P::Y, P::N, P::R, P::Id, P::Pw];
const READ: &[P] = &[P::A, P::B, P::Y, P::N, P::R, P::Id, P::Pw, P::CbName];
const EVERYP: &[P] = &[P::A, P::B, P::Y, P::N, P::R, P::Id, P::Pw, P::Cb];

impl P {
    fn name(self) -> &'static str {
        match self {
            P::A => "TextA",
            P::B => "TextB",
            P::Y => "Bytes",
            P::N => "Num",
            P::R => "Record",
            P::Id => "AuthId",
            P::Pw => "Password",
            P::Cb => "ChannelBindings",
            P::CbName => "ChannelBindingName",
        }
    }
    fn sized(self) -> bool {
        matches!(self, P::N | P::R)
    }
}

/// A value of any property
#[derive(Clone, Debug, PartialEq, Eq)]
struct Va {
    t: String,
    n: u32,
}
impl Va {
    fn draw(sim: &mut Sim) -> Va {
        let t = match sim.weighted(&[4, 1, 1]) {
            0 => format!("v{}", sim.below(1000)),
            1 => String::new(),
            _ => gen::hostile(sim),
        };
        Va { t, n: sim.below(1000) as u32 }
    }
    /// What arrives of it
    fn seen(&self, p: P) -> String {
        match p {
            P::N => format!("{}", self.n),
            P::R => format!("{}/{}", self.n, self.t),
            _ => self.t.clone(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Bad {
    Boxed,
    Io,
    NoValue,
    NoCallback,
    Mech,
}
impl Bad {
    fn error(self) -> SessionError {
        match self {
            Bad::Boxed => SessionError::Boxed(Box::new(AppError(BOXED_MARK))),
            Bad::Io => SessionError::Io { source: std::io::Error::new(std::io::ErrorKind::Other, BOXED_MARK) },
            Bad::NoValue => CallbackError::NoValue.into(),
            Bad::NoCallback => CallbackError::NoCallback("own name").into(),
            Bad::Mech => SessionError::MutualAuthenticationFailed,
        }
    }
    fn text(self) -> String {
        text(&self.error())
    }
}

/// An error as far as it can be told apart
fn text(e: &SessionError) -> String {
    match e {
        SessionError::CallbackError(CallbackError::NoCallback(n)) => format!("NoCallback({n})"),
        SessionError::CallbackError(CallbackError::NoValue) => "NoValue".into(),
        SessionError::MissingChannelBindingData(n) => format!("MissingCb({n})"),
        SessionError::Io { source } => format!("Io({source})"),
        SessionError::Boxed(b) => format!("Boxed({b})"),
        SessionError::ValidationError(ValidationError::MissingRequiredProperty) => "ValMissing".into(),
        SessionError::ValidationError(ValidationError::Boxed(b)) => format!("ValBoxed({b})"),
        e => format!("{e:?}"),
    }
}

/// How a mechanism offers values along with a request
#[derive(Clone, Debug)]
enum Ctx {
    Empty,
    One(P, Va),
    Many(Vec<(P, Va)>),
    /// one after the other
    Both(Box<(P, Va)>, Vec<(P, Va)>),
    Chain(Vec<(P, Va)>, Vec<(P, Va)>),
}
impl Ctx {
    fn list(&self) -> Vec<(P, Va)> {
        match self {
            Ctx::Empty => vec![],
            Ctx::One(p, v) => vec![(*p, v.clone())],
            Ctx::Many(l) => l.clone(),
            Ctx::Both(o, l) => std::iter::once((o.0, o.1.clone())).chain(l.iter().cloned()).collect(),
            Ctx::Chain(a, b) => a.iter().chain(b).cloned().collect(),
        }
    }
    fn draw(sim: &mut Sim) -> Ctx {
        fn list(sim: &mut Sim) -> Vec<(P, Va)> {
            let n = sim.below(5);
            (0..n).map(|_| (*sim.pick(READ), Va::draw(sim))).collect()
        }
        match sim.below(5) {
            0 => Ctx::Empty,
            1 => Ctx::One(*sim.pick(READ), Va::draw(sim)),
            2 => Ctx::Many(list(sim)),
            3 => Ctx::Both(Box::new((*sim.pick(READ), Va::draw(sim))), list(sim)),
            _ => Ctx::Chain(list(sim), list(sim)),
        }
    }
}

/// The values of a list with a place for those that are not text
struct Held<'a> {
    list: &'a [(P, Va)],
    rich: Vec<Rich<'a>>,
}
impl<'a> Held<'a> {
    fn new(list: &'a [(P, Va)]) -> Self {
        Held { list, rich: list.iter().map(|(_, v)| Rich { t: &v.t, n: v.n }).collect() }
    }
}
struct Offer<'a>(&'a Held<'a>);
impl<'a> Provider<'a> for Offer<'a> {
    fn provide(&self, req: &mut Demand<'a>) -> DemandReply<()> {
        for (i, (p, v)) in self.0.list.iter().enumerate() {
            match p {
                P::A => req.provide_ref::<TextA>(&v.t)?,
                P::B => req.provide_ref::<TextB>(&v.t)?,
                P::Y => req.provide_ref::<Bytes>(v.t.as_bytes())?,
                P::N => req.provide_ref::<Num>(&v.n)?,
                P::R => req.provide_ref::<Record>(&self.0.rich[i])?,
                P::Id => req.provide_ref::<AuthId>(&v.t)?,
                P::Pw => req.provide_ref::<Password>(v.t.as_bytes())?,
                P::Cb => req.provide_ref::<ChannelBindings>(v.t.as_bytes())?,
                P::CbName => req.provide_ref::<ChannelBindingName>(&v.t)?,
            };
        }
        req.done()
    }
}

/// What a mechanism does in one step
#[derive(Clone, Debug)]
enum Op {
    Need { p: P, required: bool, ctx: Ctx, own: bool, catch: bool },
    Act { p: P, v: Va, ctx: Ctx, catch: bool },
    Cb { name: String, required: bool, ctx: Ctx, catch: bool },
    Validate { ctx: Ctx, catch: bool },
}
impl Op {
    fn ctx(&self) -> &Ctx {
        match self {
            Op::Need { ctx, .. } | Op::Act { ctx, .. } | Op::Cb { ctx, .. } | Op::Validate { ctx, .. } => ctx,
        }
    }
    fn catch(&self) -> bool {
        match self {
            Op::Need { catch, .. } | Op::Act { catch, .. } | Op::Cb { catch, .. } | Op::Validate { catch, .. } => *catch,
        }
    }
}

/// What an application does in one callback
#[derive(Clone, Debug)]
enum AOp {
    Answer { p: P, v: Va, with: bool, fail: Option<Bad>, pass: bool },
    Take { p: P },
    Is { p: P },
    Read { p: P },
}
#[derive(Clone, Debug)]
struct Behave {
    ops: Vec<AOp>,
    end: Option<Bad>,
    /// for validation: answers in order (of the right type?, value)
    vals: Vec<(bool, u32, bool)>,
    vend: Option<bool>,
}

/// What happened, in words
type Seen = Vec<String>;

#[derive(Default)]
struct Shared {
    behave: Vec<Behave>,
    at: usize,
    seen: Seen,
}
struct Host(Arc<Mutex<Shared>>);
struct NumVal;
impl rsasl::validate::Validation for NumVal {
    type Value = u32;
}
struct StrangeVal;
impl rsasl::validate::Validation for StrangeVal {
    type Value = u32;
}

macro_rules! by_prop {
    ($p:expr, $f:ident) => {
        match $p {
            P::A => $f!(TextA),
            P::B => $f!(TextB),
            P::Y => $f!(Bytes),
            P::N => $f!(Num),
            P::R => $f!(Record),
            P::Id => $f!(AuthId),
            P::Pw => $f!(Password),
            P::Cb => $f!(ChannelBindings),
            P::CbName => $f!(ChannelBindingName),
        }
    };
}
trait Render {
    fn render(&self) -> String;
}
impl Render for str {
    fn render(&self) -> String {
        self.into()
    }
}
impl Render for [u8] {
    fn render(&self) -> String {
        String::from_utf8_lossy(self).into_owned()
    }
}
impl Render for u32 {
    fn render(&self) -> String {
        self.to_string()
    }
}
impl Render for Rich<'_> {
    fn render(&self) -> String {
        format!("{}/{}", self.n, self.t)
    }
}

impl Host {
    fn next(&self) -> Behave {
        let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        let b = g.behave.get(g.at).cloned().unwrap_or(Behave { ops: vec![], end: None, vals: vec![], vend: None });
        g.at += 1;
        b
    }
    fn saw(&self, s: String) {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).seen.push(s);
    }
}
impl SessionCallback for Host {
    fn callback(&self, sd: &SessionData, context: &Context, request: &mut Request) -> Result<(), SessionError> {
        let b = self.next();
        self.saw(format!("asked {} {:?}", sd.mechanism().mechanism.as_str(), sd.side()));
        for op in b.ops {
            match op {
                AOp::Answer { p, v, with, fail, pass } => {
                    let rich = Rich { t: &v.t, n: v.n };
                    let r: Result<(), SessionError> = match p {
                        P::A => request.satisfy::<TextA>(&v.t).map(|_| ()),
                        P::B => request.satisfy::<TextB>(&v.t).map(|_| ()),
                        P::Y => request.satisfy::<Bytes>(v.t.as_bytes()).map(|_| ()),
                        P::N if with => request
                            .satisfy_with::<Num, _>(|| {
                                self.saw("computed".into());
                                fail.map_or(Ok(v.n), |b| Err(b.error()))
                            })
                            .map(|_| ()),
                        P::R if with => request
                            .satisfy_with::<Record, _>(|| {
                                self.saw("computed".into());
                                fail.map_or(Ok(Rich { t: &v.t, n: v.n }), |b| Err(b.error()))
                            })
                            .map(|_| ()),
                        P::N => request.satisfy::<Num>(&v.n).map(|_| ()),
                        P::R => request.satisfy::<Record>(&rich).map(|_| ()),
                        P::Id => request.satisfy::<AuthId>(&v.t).map(|_| ()),
                        P::Pw => request.satisfy::<Password>(v.t.as_bytes()).map(|_| ()),
                        P::Cb => request.satisfy::<ChannelBindings>(v.t.as_bytes()).map(|_| ()),
                        P::CbName => Ok(()),
                    };
                    self.saw(match &r {
                        Ok(()) => "unused".into(),
                        Err(SessionError::CallbackError(e)) if crate::app::is_early(e) => "used".into(),
                        Err(e) => format!("error {}", text(e)),
                    });
                    if pass {
                        r?;
                    }
                }
                AOp::Take { p } => {
                    macro_rules! take {
                        ($t:ty) => {
                            request.get_action::<$t>().map(Render::render)
                        };
                    }
                    let v = by_prop!(p, take);
                    self.saw(format!("took {v:?}"));
                }
                AOp::Is { p } => {
                    macro_rules! is {
                        ($t:ty) => {
                            request.is::<$t>()
                        };
                    }
                    let v = by_prop!(p, is);
                    self.saw(format!("is {} {v}", p.name()));
                }
                AOp::Read { p } => {
                    macro_rules! read {
                        ($t:ty) => {
                            context.get_ref::<$t>().map(Render::render)
                        };
                    }
                    let v = by_prop!(p, read);
                    self.saw(format!("read {} {v:?}", p.name()));
                }
            }
        }
        match b.end {
            None => Ok(()),
            Some(b) => Err(b.error()),
        }
    }

    fn validate(&self, sd: &SessionData, context: &Context, validate: &mut Validate<'_>) -> Result<(), ValidationError> {
        let b = self.next();
        self.saw(format!("validate {} {:?}", sd.mechanism().mechanism.as_str(), sd.side()));
        for op in &b.ops {
            if let AOp::Read { p } = op {
                macro_rules! read {
                    ($t:ty) => {
                        context.get_ref::<$t>().map(Render::render)
                    };
                }
                let p = *p;
                let v = by_prop!(p, read);
                self.saw(format!("read {} {v:?}", p.name()));
            }
        }
        for (right, v, with) in b.vals {
            match (right, with) {
                (true, false) => validate.finalize::<NumVal>(v),
                (false, false) => validate.finalize::<StrangeVal>(v),
                (true, true) => {
                    validate.with::<NumVal, _>(|| {
                        self.saw("computed".into());
                        Ok(v)
                    })?;
                }
                (false, true) => {
                    validate.with::<StrangeVal, _>(|| {
                        self.saw("computed".into());
                        Ok(v)
                    })?;
                }
            }
        }
        match b.vend {
            None => Ok(()),
            Some(false) => Err(ValidationError::MissingRequiredProperty),
            Some(true) => Err(ValidationError::Boxed(Box::new(AppError(BOXED_MARK)))),
        }
    }
}

thread_local! {
    static PROGRAM: RefCell<Vec<Op>> = const { RefCell::new(Vec::new()) };
    static HAPPENED: RefCell<Seen> = const { RefCell::new(Vec::new()) };
}

/// The mechanism: one program per step
struct Asks;
impl Asks {
    const fn desc() -> Mechanism {
        Mechanism::build(
            Mechname::const_new_unchecked(b"X-ASKS"),
            300,
            Some(|| Ok(Box::new(Asks))),
            Some(|_| Ok(Box::new(Asks))),
            Side::Client,
            |_| Some(Matches::<Asks>::name()),
            |_| true,
        )
    }
}
impl Named for Asks {
    fn mech() -> &'static Mechanism {
        static M: Mechanism = Asks::desc();
        &M
    }
}

fn perform<'a>(op: &Op, d: &mut MechanismData, prov: impl Provider<'a> + 'a) -> Result<Option<String>, SessionError> {
    match op {
        Op::Need { p, required, own, .. } => {
            macro_rules! need {
                ($t:ty) => {{
                    let f = |v: &<$t as Property<'_>>::Value| {
                        let v = v.render();
                        HAPPENED.with(|h| h.borrow_mut().push(format!("given {v:?}")));
                        if *own {
                            Err(Bad::Mech.error())
                        } else {
                            Ok(v)
                        }
                    };
                    if *required {
                        d.need_with::<$t, _, _>(&prov, f).map(Some)
                    } else {
                        d.maybe_need_with::<$t, _, _>(&prov, f)
                    }
                }};
            }
            let p = *p;
            by_prop!(p, need)
        }
        Op::Act { p, v, .. } => {
            let rich = Rich { t: &v.t, n: v.n };
            match p {
                P::A => d.action::<TextA>(&prov, &v.t),
                P::B => d.action::<TextB>(&prov, &v.t),
                P::Y => d.action::<Bytes>(&prov, v.t.as_bytes()),
                P::N => d.action::<Num>(&prov, &v.n),
                P::R => d.action::<Record>(&prov, &rich),
                P::Id => d.action::<AuthId>(&prov, &v.t),
                _ => d.action::<Password>(&prov, v.t.as_bytes()),
            }
            .map(|()| None)
        }
        Op::Validate { .. } => d.validate(&prov).map(|()| None).map_err(Into::into),
        Op::Cb { .. } => unreachable!(),
    }
}

impl Authentication for Asks {
    fn step(
        &mut self,
        d: &mut MechanismData,
        _input: Option<&[u8]>,
        w: &mut dyn std::io::Write,
    ) -> Result<State, SessionError> {
        let program = PROGRAM.with(|p| p.borrow().clone());
        w.write_all(b"token")?;
        for op in &program {
            let list = op.ctx().list();
            let (n, r) = match op.ctx() {
                Ctx::Empty => (0, 0),
                Ctx::One(..) => (1, 0),
                Ctx::Many(l) => (0, l.len()),
                Ctx::Both(_, l) => (1, l.len()),
                Ctx::Chain(a, _) => (a.len(), list.len() - a.len()),
            };
            let (l1, l2) = list.split_at(n);
            let (h1, h2) = (Held::new(l1), Held::new(l2));
            let _ = r;
            let out = match op {
                Op::Cb { name, required, .. } => {
                    let f = |v: &[u8]| {
                        let v = v.render();
                        HAPPENED.with(|h| h.borrow_mut().push(format!("given {v:?}")));
                        Ok(v)
                    };
                    let prov = Offer(&h1).and(Offer(&h2));
                    if *required {
                        d.need_cb_data(name, prov, f).map(Some)
                    } else {
                        d.maybe_need_cb_data(name, prov, f)
                    }
                }
                op => match op.ctx() {
                    Ctx::Empty => perform(op, d, EmptyProvider),
                    Ctx::One(P::A, v) => perform(op, d, ThisProvider::<TextA>::with(&v.t)),
                    Ctx::One(P::N, v) => perform(op, d, ThisProvider::<Num>::with(&v.n)),
                    Ctx::Both(o, _) if o.0 == P::A => {
                        perform(op, d, ThisProvider::<TextA>::with(&o.1.t).and(Offer(&h2)))
                    }
                    Ctx::Both(o, _) if o.0 == P::Id => {
                        perform(op, d, ThisProvider::<AuthId>::with(&o.1.t).and(Offer(&h2)))
                    }
                    Ctx::Many(_) => perform(op, d, Offer(&h2)),
                    _ => perform(op, d, Offer(&h1).and(Offer(&h2))),
                },
            };
            HAPPENED.with(|h| {
                h.borrow_mut().push(match &out {
                    Ok(v) => format!("got {v:?}"),
                    Err(e) => format!("failed {}", text(e)),
                });
            });
            if let Err(e) = out {
                if !op.catch() {
                    return Err(e);
                }
            }
        }
        Ok(State::Running)
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// What has to happen
// ---------------------------------------------------------------------------------------------------------------------

/// Result of an operation: one of several permitted
#[derive(Clone, Debug)]
struct Want {
    /// what the application sees
    app: Seen,
    /// values the mechanism's closure is given
    given: Option<String>,
    /// permitted outcomes ("got ..", "failed ..")
    outcome: Vec<String>,
}

fn missing(p: P, s: &str) -> bool {
    s.starts_with("failed NoCallback(") && s.contains(p.name())
}

fn model(op: &Op, b: &Behave, side: Side, store: &mut Option<u32>, channel: &[(String, Vec<u8>)]) -> Want {
    let mut offered = op.ctx().list();
    let mut w = Want { app: vec![], given: None, outcome: vec![] };
    let absent = "got None".to_string();
    let (asked, required, own, act) = match op {
        Op::Need { p, required, own, .. } => (*p, *required, *own, None),
        Op::Act { p, v, .. } => (*p, true, false, Some(v)),
        Op::Cb { name, required, .. } => {
            if let Some((_, d)) = channel.iter().find(|(n, _)| n == name) {
                let v = String::from_utf8_lossy(d).into_owned();
                w.given = Some(v.clone());
                w.outcome = vec![format!("got {:?}", Some(v))];
                return w;
            }
            offered.insert(0, (P::CbName, Va { t: name.clone(), n: 0 }));
            (P::Cb, *required, false, None)
        }
        Op::Validate { .. } => {
            w.app.push(format!("validate X-ASKS {side:?}"));
            for op in &b.ops {
                if let AOp::Read { p } = op {
                    let v = offered.iter().find(|(q, _)| q == p).map(|(_, v)| v.seen(*p));
                    w.app.push(format!("read {} {v:?}", p.name()));
                }
            }
            for (right, v, with) in &b.vals {
                if *right && store.is_none() {
                    if *with {
                        w.app.push("computed".into());
                    }
                    *store = Some(*v);
                }
            }
            w.outcome = vec![match b.vend {
                None => absent,
                Some(false) => "failed ValMissing".into(),
                Some(true) => format!("failed ValBoxed(application error: {BOXED_MARK})"),
            }];
            return w;
        }
    };
    let mut open = act.is_none();
    let mut taken = false;
    let mut swallowed = false;
    let mut ret: Option<Option<String>> = None; // how the callback ended: None = ran to its end
    w.app.push(format!("asked X-ASKS {side:?}"));
    for op in &b.ops {
        match op {
            AOp::Answer { p, v, with, fail, pass } => {
                let mut seen = "unused".to_string();
                let mut ends = None;
                if *p == asked && open && *p != P::CbName {
                    let with = *with && p.sized();
                    if with {
                        w.app.push("computed".into());
                    }
                    if let (true, Some(bad)) = (with, fail) {
                        seen = format!("error {}", bad.text());
                        ends = Some(Some(bad.text()));
                    } else {
                        open = false;
                        w.given = Some(v.seen(*p));
                        if own {
                            seen = format!("error {}", Bad::Mech.text());
                            ends = Some(Some(Bad::Mech.text()));
                        } else {
                            seen = "used".into();
                            ends = Some(None);
                        }
                    }
                }
                w.app.push(seen);
                if let Some(e) = ends {
                    if *pass {
                        ret = Some(e);
                        break;
                    }
                    if e.is_some() && !open {
                        swallowed = true;
                    }
                }
            }
            AOp::Take { p } => {
                let v = act.filter(|_| *p == asked && !taken).map(|v| v.seen(*p));
                taken |= v.is_some();
                w.app.push(format!("took {v:?}"));
            }
            AOp::Is { p } => w.app.push(format!("is {} {}", p.name(), *p == asked)),
            AOp::Read { p } => {
                let v = offered.iter().find(|(q, _)| q == p).map(|(_, v)| v.seen(*p));
                w.app.push(format!("read {} {v:?}", p.name()));
            }
        }
    }
    let ended_early = ret.is_some();
    let err: Option<String> = match ret {
        Some(e) => e,
        None => b.end.map(|b| b.text()),
    };
    // which error does nobody answering mean?
    let none = |w: &mut Want| match (op, required) {
        (Op::Cb { name, .. }, true) => w.outcome.push(format!("failed MissingCb({name})")),
        (_, true) => w.outcome.push(format!("missing {}", asked.name())),
        (_, false) => w.outcome.push(absent.clone()),
    };
    if act.is_some() {
        match err {
            None if taken => w.outcome.push(absent.clone()),
            None => none(&mut w),
            Some(e) => {
                if e == "NoValue" {
                    // declined
                    if taken {
                        w.outcome.push(absent.clone());
                    } else {
                        none(&mut w);
                    }
                }
                w.outcome.push(format!("failed {e}"));
            }
        }
        return w;
    }
    let value = w.given.clone().filter(|_| !own).map(|v| format!("got {:?}", Some(v)));
    match err {
        None => match value {
            Some(v) => w.outcome.push(v),
            None => {
                if swallowed {
                    w.outcome.push(format!("failed {}", Bad::Mech.text()));
                }
                none(&mut w);
            }
        },
        Some(e) if e == "NoValue" => {
            // declining; after an answer nobody can tell
            if let Some(v) = value {
                w.outcome.push(v);
            }
            none(&mut w);
            w.outcome.push(format!("failed {e}"));
            if !required && w.given.is_none() {
                // optional and declined: absent, nothing else
                w.outcome = vec![absent];
            }
        }
        Some(e) => {
            if e.starts_with("NoCallback") && !ended_early {
                if let Some(v) = value {
                    w.outcome.push(v);
                }
                none(&mut w);
            }
            w.outcome.push(format!("failed {e}"));
        }
    }
    w
}

fn behave(sim: &mut Sim, about: Option<P>) -> Behave {
    let n = if sim.chance(1, 12) { 0 } else { sim.range(1, 5) };
    let mut ops = Vec::new();
    for _ in 0..n {
        let p = match about {
            Some(p) if sim.chance(1, 2) => p,
            _ => *sim.pick(EVERYP),
        };
        ops.push(match sim.weighted(&[6, 2, 1, 2]) {
            0 => AOp::Answer {
                p,
                v: Va::draw(sim),
                with: sim.chance(1, 2),
                fail: sim.chance(1, 6).then(|| *sim.pick(&[Bad::Boxed, Bad::Io, Bad::NoValue, Bad::NoCallback])),
                pass: sim.chance(2, 3),
            },
            1 => AOp::Take { p },
            2 => AOp::Is { p },
            _ => AOp::Read { p: *sim.pick(READ) },
        });
    }
    let end = sim
        .chance(1, 5)
        .then(|| *sim.pick(&[Bad::Boxed, Bad::Io, Bad::NoValue, Bad::NoCallback, Bad::Mech]));
    let vals = (0..sim.below(4)).map(|_| (sim.chance(2, 3), sim.below(1000) as u32, sim.chance(1, 2))).collect();
    let vend = sim.chance(1, 5).then(|| sim.chance(1, 2));
    if end.is_some() || vend.is_some() {
        sim.fault("callback_error");
    }
    Behave { ops, end, vals, vend }
}

fn text_name(sim: &mut Sim) -> String {
    (*sim.pick(&["tls-exporter", "tls-unique", "x-own"])).to_string()
}

enum Any {
    C(rsasl::prelude::Session<rsasl::validate::NoValidation, Chan>),
    S(rsasl::prelude::Session<NumVal, Chan>),
}
struct Chan(Vec<(String, Vec<u8>)>);
impl rsasl::prelude::ChannelBindingCallback for Chan {
    fn get_cb_data(&self, name: &str) -> Option<&[u8]> {
        self.0.iter().find(|(n, _)| n == name).map(|(_, d)| &d[..])
    }
}

fn scripted(sim: &mut Sim) -> Res {
    static REG: &[Mechanism] = &[Asks::desc()];
    let shared = Arc::new(Mutex::new(Shared::default()));
    let cfg = SASLConfig::builder()
        .with_registry(Registry::with_mechanisms(REG))
        .with_callback(Host(shared.clone()))
        .map_err(|e| format!("{e}"));
    let cfg = match cfg {
        Ok(c) => c,
        Err(e) => return Err(viol("start", format!("configuration refused: {e}"))),
    };
    let client = sim.chance(1, 2);
    let channel: Vec<(String, Vec<u8>)> = if sim.chance(1, 2) {
        vec![(text_name(sim), b"from the channel".to_vec())]
    } else {
        vec![]
    };
    let name = mechname("X-ASKS");
    let mut sess = if client {
        match SASLClient::with_cb(cfg, Chan(channel.clone())).start_suggested(&[name]) {
            Ok(s) => Any::C(s),
            Err(e) => return Err(viol("start", format!("client not started: {e}"))),
        }
    } else {
        match SASLServer::<NumVal, Chan>::with_cb(cfg, Chan(channel.clone())).start_suggested(name) {
            Ok(s) => Any::S(s),
            Err(e) => return Err(viol("start", format!("server not started: {e}"))),
        }
    };
    let side = if client { Side::Client } else { Side::Server };
    let mut store: Option<u32> = None;
    let steps = sim.range(1, 3);
    for step in 0..steps {
        let n = sim.range(1, 4);
        let mut program = Vec::new();
        let mut plans = Vec::new();
        for _ in 0..n {
            let ctx = Ctx::draw(sim);
            let catch = sim.chance(3, 4);
            let op = match sim.weighted(&[6, 2, 2, 1]) {
                0 => Op::Need { p: *sim.pick(ASKED), required: sim.chance(1, 2), ctx, own: sim.chance(1, 8), catch },
                1 => Op::Act { p: *sim.pick(ASKED), v: Va::draw(sim), ctx, catch },
                2 => Op::Cb { name: text_name(sim), required: sim.chance(1, 2), ctx, catch },
                _ => Op::Validate { ctx, catch },
            };
            program.push(op);
        }
        // behaviour is used up by those operations that reach the application
        let mut wants = Vec::new();
        let mut fatal = None;
        for op in &program {
            let direct = matches!(op, Op::Cb { name, .. } if channel.iter().any(|(n, _)| n == name));
            let about = match op {
                Op::Need { p, .. } | Op::Act { p, .. } => Some(*p),
                Op::Cb { .. } => Some(P::Cb),
                Op::Validate { .. } => None,
            };
            let b = behave(sim, about);
            let before = store;
            let mut s = if client { Some(0) } else { store };
            let w = model(op, &b, side, &mut s, &channel);
            if !client {
                store = s;
            }
            // a failing step may keep a result set by a validation before; what happens then is C09's
            let _ = before;
            sim.ev(format!("{op:?}"));
            if !direct {
                sim.ev(format!("  application: {b:?}"));
                plans.push(b);
            }
            wants.push((op.clone(), w));
        }
        {
            let mut g = shared.lock().unwrap();
            g.behave = plans;
            g.at = 0;
            g.seen.clear();
        }
        PROGRAM.with(|p| *p.borrow_mut() = program);
        HAPPENED.with(|h| h.borrow_mut().clear());
        let mut out = Vec::new();
        let r = guarded(|| match &mut sess {
            Any::C(s) => s.step(Some(b"x"), &mut out).map(|_| ()),
            Any::S(s) => s.step(Some(b"x"), &mut out).map(|_| ()),
        });
        let happened = HAPPENED.with(|h| h.borrow().clone());
        let seen = shared.lock().unwrap().seen.clone();
        for l in &happened {
            sim.ev(format!("  mechanism {l}"));
        }
        for l in &seen {
            sim.ev(format!("  application {l}"));
        }
        let r = match r {
            Err(p) => return Err(viol("panic", format!("step {step}: {p}"))),
            Ok(r) => r,
        };
        let mut hi = 0;
        let mut si = 0;
        for (op, w) in &wants {
            for a in &w.app {
                let got = seen.get(si);
                ensure!(
                    got == Some(a),
                    "application",
                    "during {op:?} the application should see \"{a}\", it sees {got:?}"
                );
                si += 1;
            }
            if let Some(v) = &w.given {
                let want = format!("given {v:?}");
                ensure!(
                    happened.get(hi) == Some(&want),
                    "value",
                    "{op:?} should be given {v:?}, there is {:?}",
                    happened.get(hi)
                );
                hi += 1;
            }
            let Some(got) = happened.get(hi) else {
                return Err(viol("lost", format!("{op:?} was not performed: {happened:?}")));
            };
            hi += 1;
            let ok = w.outcome.iter().any(|o| match o.strip_prefix("missing ") {
                Some(n) => ASKED.iter().any(|p| p.name() == n && missing(*p, got)),
                None => o == got,
            });
            ensure!(
                ok,
                "outcome",
                "{op:?} {got}, permitted: {:?} (application: {:?})",
                w.outcome,
                w.app
            );
            let how = if w.outcome.len() > 1 { "either" } else { got.split([' ', '(']).take(2).last().unwrap_or("") };
            sim.mark(how);
            if got.starts_with("failed") && !op.catch() {
                fatal = got.strip_prefix("failed ").map(str::to_string);
                break;
            }
        }
        ensure!(happened.len() == hi, "extra", "the mechanism saw more: {:?}", &happened[hi..]);
        ensure!(seen.len() == si, "extra", "the application was asked more: {:?}", &seen[si..]);
        match (&r, &fatal) {
            (Ok(()), None) => {}
            (Err(e), Some(f)) if text(e) == *f => {
                sim.probe("step_failed_with_the_error");
            }
            (r, f) => {
                return Err(viol(
                    "step",
                    format!("step returned {:?}, the mechanism {:?}", r.as_ref().map_err(text), f),
                ));
            }
        }
        if fatal.is_some() {
            break;
        }
        if let Any::S(s) = &mut sess {
            let got = s.validation();
            ensure!(got == store, "validation", "validation result {got:?}, the application set {store:?}");
            store = None;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------------------
// Built-in mechanisms
// ---------------------------------------------------------------------------------------------------------------------

fn draw(sim: &mut Sim) -> Story {
    let m = *sim.pick(EVERY);
    let (mut c, mut s, mut cb) = gen::honest(sim, m);
    let mut g = GssCfg { seed: 11, ..GssCfg::default() };
    if m == Mech::Gss {
        g.tokens = 1 + sim.below(4) as u8;
        if sim.chance(1, 2) {
            c.gss_layer = Some(7);
            s.gss_layer = Some(7);
        }
    }
    if !cb.is_empty() && sim.chance(1, 2) {
        c.cbdata = std::mem::take(&mut cb);
        s.cbdata = c.cbdata.clone();
    }
    if m.hash().is_some() && sim.chance(1, 3) {
        let (_, rec) = &s.users[0];
        let k = crate::scram::Keys::derive(m.hash().unwrap(), c.password.as_ref().unwrap(), &rec.salt, rec.iter);
        if sim.chance(1, 2) {
            c.salted = Some(k.salted.clone());
        } else {
            c.cached = vec![crate::app::Cached { params: None, client_key: k.client.clone(), server_key: k.server.clone() }];
        }
    }
    if sim.chance(1, 4) {
        s.refuse = Some(crate::app::OErr { status: "invalid_token".into(), scope: Some("scope".into()), conf: None });
        s.refuse_x = Some("eyJzdGF0dXMiOiI0MDEifQ==".into());
    }
    Story { m, c, s, cb, gss: g, entropy: sim.next_entropy() }
}

/// One telling; everything follows from the story
fn play(st: &Story) -> Res<(Vec<Rec>, Vec<AppEv>, Vec<AppEv>)> {
    let mut p = st.begin()?;
    let mut out: Vec<Rec> = Vec::new();
    let mut turn = if p.client.first() { Who::Client } else { Who::Server };
    let mut msg: Option<Vec<u8>> = None;
    while out.len() < 14 {
        if !p.get(turn).alive() {
            break;
        }
        let n = p.log_len(turn);
        let o = p.get(turn).step(msg.as_deref(), &WCfg::default());
        let rec = Rec { who: turn, input: msg.take(), bytes: o.bytes, res: o.res, log: p.log_from(turn, n) };
        let res = rec.res.clone();
        msg = Some(rec.bytes.clone());
        out.push(rec);
        match res {
            R::Running | R::FinYes => turn = turn.other(),
            R::FinNo => {
                turn = turn.other();
                if !p.get(turn).alive() {
                    break;
                }
                msg = Some(Vec::new());
            }
            R::Err(_) | R::Panic(_) => break,
        }
    }
    Ok((out, p.log_from(Who::Client, 0), p.log_from(Who::Server, 0)))
}

fn script(st: &mut Story, w: Who) -> &mut Script {
    match w {
        Who::Client => &mut st.c,
        Who::Server => &mut st.s,
    }
}

/// Is the property required there?  If not, the same application without it
fn without(st: &Story, w: Who, prop: &str, ctx_cbname: Option<&String>) -> Option<Story> {
    let mut t = Story { m: st.m, c: st.c.clone(), s: st.s.clone(), cb: st.cb.clone(), gss: st.gss, entropy: st.entropy };
    let s = script(&mut t, w);
    match prop {
        "AuthzId" => s.authzid = None,
        "AnonymousToken" => s.anon = None,
        "OAuthBearerKV" => s.kv = None,
        "OverrideCBType" => s.cbtype = None,
        "ScramCachedPassword" => s.cached.clear(),
        "SaltedPassword" => s.salted = None,
        "GssSecurityLayer" => s.gss_layer = None,
        "ScramStoredPassword" => s.users.clear(),
        "ChannelBindings" => s.cbdata.retain(|(n, _)| Some(n) != ctx_cbname),
        _ => return None,
    }
    Some(t)
}

/// (property, answered, is action, name of the binding) of every callback of a log
fn asked(log: &[AppEv]) -> Vec<(&'static str, bool, bool, Option<String>)> {
    log.iter()
        .filter_map(|e| match e {
            AppEv::Req { prop, answered, ctx, .. } => Some((*prop, *answered, false, ctx.cbname.clone())),
            AppEv::Act { prop, taken, ctx, .. } => Some((*prop, *taken, true, ctx.cbname.clone())),
            _ => None,
        })
        .collect()
}

/// Compare two tellings of `who` and what follows from it
fn same(what: &str, want: &[Rec], got: &[Rec]) -> Res {
    for (i, w) in want.iter().enumerate() {
        let Some(g) = got.get(i) else {
            return Err(viol("effect", format!("{what}: the exchange ends after {i} steps: {:?}", got.last().map(Rec::line))));
        };
        if let Some(d) = differs(w, &g.bytes, &g.res, &g.log) {
            return Err(viol("effect", format!("{what}: step {i} ({}) has {d}", w.line())));
        }
    }
    ensure!(got.len() == want.len(), "effect", "{what}: the exchange goes on with {}", got[want.len()].line());
    Ok(())
}

fn builtin(sim: &mut Sim) -> Res {
    let st = draw(sim);
    let (base, clog, slog) = play(&st)?;
    sim.ev(format!("{} honest:", st.m.name()));
    for r in &base {
        sim.ev(format!("  {}", r.line()));
        if let R::Panic(p) = &r.res {
            return Err(viol("panic", format!("{}: {p}", r.line())));
        }
    }
    let who = if asked(&slog).is_empty() || sim.chance(3, 5) { Who::Client } else { Who::Server };
    let calls = asked(if who == Who::Client { &clog } else { &slog });
    if calls.is_empty() {
        return Ok(());
    }
    let n = sim.usize(calls.len());
    let (prop, answered, action, cbname) = calls[n].clone();
    sim.probe(prop);
    if action {
        if prop == "ScramCachedPassword" {
            return Ok(());
        }
        let mut t = Story { m: st.m, c: st.c.clone(), s: st.s.clone(), cb: st.cb.clone(), gss: st.gss, entropy: st.entropy };
        let refuse = sim.chance(1, 2);
        if refuse {
            sim.fault("action_refused");
            script(&mut t, who).refuse_actions = true;
        } else {
            sim.fault("callback_error");
            script(&mut t, who).hits.push((n as u32, Hit::Boxed));
        }
        let (got, ..) = play(&t)?;
        for r in &got {
            sim.ev(format!("  again {}", r.line()));
        }
        let last = got.last().expect("harness: steps");
        let at = got.iter().position(|r| r.log.iter().any(|e| matches!(e, AppEv::Act { .. })));
        let Some(at) = at else {
            return Err(viol("effect", format!("{prop} is not delivered any more")));
        };
        ensure!(at + 1 == got.len(), "error", "{prop}: the exchange goes on: {}", last.line());
        sim.mark(&format!("{prop}{refuse}"));
        return match (&last.res, refuse) {
            (R::Err(e), true) => match &e.kind {
                ErrKind::CbNoCallback(name) if name.contains(prop) => Ok(()),
                _ => Err(viol("error", format!("{prop} is not taken but the step ends in {}", last.res.short()))),
            },
            (R::Err(e), false) if e.kind == ErrKind::Boxed && e.text.contains(BOXED_MARK) => Ok(()),
            _ => Err(viol("error", format!("{prop} is not taken ({refuse}) but the step ends in {}", last.res.short()))),
        };
    }
    let hit = *sim.pick(&[
        Hit::Decline,
        Hit::Decline,
        Hit::NoValue,
        Hit::NoCallback,
        Hit::Boxed,
        Hit::Io,
        Hit::ErrAfter,
        Hit::Swallow,
        Hit::Twice,
        Hit::WrongTypes,
    ]);
    if hit == Hit::WrongTypes && prop == "Hostname" {
        return Ok(());
    }
    sim.fault(match hit {
        Hit::Decline | Hit::NoValue | Hit::NoCallback => "callback_declines",
        Hit::Boxed | Hit::Io | Hit::ErrAfter => "callback_error",
        _ => "callback_misbehaves",
    });
    let mut t = Story { m: st.m, c: st.c.clone(), s: st.s.clone(), cb: st.cb.clone(), gss: st.gss, entropy: st.entropy };
    script(&mut t, who).hits.push((n as u32, hit));
    let (got, gc, gs) = play(&t)?;
    let what = format!("{} {}: {hit:?} at callback {n} ({prop})", st.m.name(), who.name());
    sim.ev(what.clone());
    for r in &got {
        sim.ev(format!("  again {}", r.line()));
        if let R::Panic(p) = &r.res {
            return Err(viol("panic", format!("{what}: {p}")));
        }
    }
    sim.mark(&format!("{}{prop}{hit:?}", who.name()));
    let mine = asked(if who == Who::Client { &gc } else { &gs });
    ensure!(
        mine.get(n).is_some_and(|a| a.0 == prop),
        "effect",
        "{what}: the callback asks for {:?} instead",
        mine.get(n)
    );
    // the step in which it happened
    let mut left = n;
    let mut at = None;
    for (i, r) in got.iter().enumerate().filter(|(_, r)| r.who == who) {
        let k = asked(&r.log).len();
        if left < k {
            at = Some(i);
            break;
        }
        left -= k;
    }
    let at = at.expect("harness: callback belongs to a step");
    let step = &got[at];
    let failed = |class: &'static str, f: &dyn Fn(&ObsErr) -> bool| -> Res {
        match &step.res {
            R::Err(e) if f(e) => {
                ensure!(at + 1 == got.len(), "error", "{what}: the exchange goes on after the error");
                ensure!(
                    mine.len() == n + 1,
                    class,
                    "{what}: the application is asked on after it failed: {:?}",
                    &mine[n + 1..]
                );
                Ok(())
            }
            r => Err(viol(class, format!("{what}: the step ends in {}", r.short()))),
        }
    };
    match hit {
        Hit::Swallow | Hit::Twice | Hit::WrongTypes => {
            sim.probe("no_effect_expected");
            same(&what, &base, &got)
        }
        Hit::Boxed => failed("error", &|e| e.kind == ErrKind::Boxed && e.text.contains(BOXED_MARK)),
        Hit::ErrAfter => failed("error", &|e| e.kind == ErrKind::Boxed && e.text.contains(BOXED_MARK)),
        Hit::Io => failed("error", &|e| e.kind == ErrKind::Io),
        _ => match without(&st, who, prop, cbname.as_ref()) {
            // optional: absent
            Some(other) => {
                if hit == Hit::NoCallback && matches!(step.res, R::Err(_)) {
                    return failed("error", &|e| matches!(&e.kind, ErrKind::CbNoCallback(n) if n == "simulated"));
                }
                sim.probe("absent_expected");
                let (want, ..) = play(&other)?;
                same(&format!("{what}, compared with an application without it"), &want, &got)
            }
            None => {
                let _ = answered;
                sim.probe("required_expected");
                failed("missing", &|e| match &e.kind {
                    ErrKind::CbNoCallback(n) => n.contains(prop) || (hit == Hit::NoCallback && n == "simulated"),
                    _ => false,
                })
            }
        },
    }
}
