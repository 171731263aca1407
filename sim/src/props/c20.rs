//! C20: a failed step says truthfully why it failed.
//!
//! Exchanges in any condition, with disturbances at any step.  The simulator knows everything that went wrong in a step: what the
//! writer refused, what the application returned, what was missing, what the message was.  Every error has to be explained
//! by something that really happened, and whatever happened that must fail the step has to be the error.
use super::c14::CODES;
use super::*;
use crate::adv::{cap_iterations, mutate, Corpus};
use crate::app::{AppEv, Cached, Hit, ValPolicy, BOXED_MARK};
use crate::ensure;
use crate::exch::Who;
use crate::gen;
use crate::io::{Refusal, WCfg};
use crate::scram::{auth_message, b64, hmac, judge_client, unb64, ClientFinal, ClientFirst, Keys, ServerFirst};
use crate::sess::*;
use crate::sim::{viol, Res, Sim};
use crate::twin::{Pair, Story};
use base64::engine::general_purpose::STANDARD;
use base64::Engine;
use std::io::ErrorKind;

pub const PROP: Prop = Prop {
    id: "C20",
    run,
    quick: 250_000,
    thorough: 5_000_000,
    hang_s: 60,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

/// Everything about one step that could be a reason to fail
struct Facts<'a> {
    m: Mech,
    who: Who,
    b64: bool,
    /// As given to the session
    given: Option<&'a [u8]>,
    /// What it says, unless it's not base64
    input: Option<Vec<u8>>,
    out: &'a Out,
    w: &'a WCfg,
    ev: &'a [AppEv],
    hits: &'a [Hit],
    val: ValPolicy,
    /// Messages of a SCRAM client's exchange so far: client first, server first, client final
    scram: Option<Scram<'a>>,
}

#[derive(Clone, Copy)]
struct Scram<'a> {
    said: &'a [Vec<u8>],
    heard: &'a [Vec<u8>],
    keys: Option<&'a KeySrc>,
}

/// What the client's application derives its keys from
enum KeySrc {
    Password(Vec<u8>),
    Salted(Vec<u8>),
    /// The cached server key
    Cached(Vec<u8>),
}
impl KeySrc {
    fn server_key(&self, h: Hash, salt: &[u8], iter: u32) -> Option<Vec<u8>> {
        match self {
            KeySrc::Password(p) => (iter <= 20_000).then(|| Keys::derive(h, p, salt, iter).server),
            KeySrc::Salted(s) => Some(Keys::from_salted(h, s.clone()).server),
            KeySrc::Cached(k) => Some(k.clone()),
        }
    }
}

impl Facts<'_> {
    fn bad_b64(&self) -> bool {
        self.b64 && self.given.is_some_and(|g| STANDARD.decode(g).is_err())
    }
    fn refused(&self) -> Option<ErrorKind> {
        match self.w.fail_at {
            Some((_, Refusal::Zero)) if self.out.refused > 0 => Some(ErrorKind::WriteZero),
            Some((_, Refusal::Err(k))) if self.out.refused > 0 => Some(k),
            _ => None,
        }
    }
    fn hit(&self, h: &[Hit]) -> bool {
        self.hits.iter().any(|x| h.contains(x))
    }
    fn validated(&self, p: &[ValPolicy]) -> bool {
        p.contains(&self.val) && self.ev.iter().any(|e| matches!(e, AppEv::Validate { .. }))
    }
    /// A property that was asked for in vain
    fn unanswered(&self, name: &str) -> bool {
        let short = name.rsplit("::").next().unwrap_or(name).split('<').next().unwrap_or("");
        self.ev.iter().any(|e| match e {
            AppEv::Req { prop, answered, .. } => *prop == short && !*answered,
            AppEv::Act { prop, taken, .. } => *prop == short && !*taken,
            _ => false,
        })
    }

    /// Did the reason it gives really happen?
    fn justified(&self, e: &ObsErr) -> Result<(), String> {
        let ok = match &e.kind {
            ErrKind::Io => {
                e.io.is_some_and(|k| self.refused() == Some(k))
                    || self.hit(&[Hit::Io]) && e.io == Some(ErrorKind::Other) && e.text.contains(BOXED_MARK)
            }
            ErrKind::Base64 => self.bad_b64(),
            ErrKind::Input => self.given.map_or(true, <[u8]>::is_empty),
            ErrKind::NoSec => false,
            ErrKind::Done => false,
            ErrKind::Mech => {
                if self.bad_b64() || self.refused().is_some() {
                    return Err("something else failed before the mechanism could".into());
                }
                match e.mech {
                    Some(MechKind::Outcome) => return self.outcome(e),
                    Some(MechKind::Parse | MechKind::Protocol) => true,
                    _ => false,
                }
            }
            ErrKind::CbNoValue => self.hit(&[Hit::NoValue]),
            ErrKind::CbNoCallback(n) => self.hit(&[Hit::NoCallback]) && n == "simulated" || self.unanswered(n),
            ErrKind::CbEarly => false,
            ErrKind::ValMissing => self.validated(&[ValPolicy::Missing]),
            ErrKind::ValBoxed => {
                self.validated(&[ValPolicy::Boxed, ValPolicy::FinalizeThenErr]) && e.text.contains(BOXED_MARK)
            }
            ErrKind::Boxed => self.hit(&[Hit::Boxed, Hit::ErrAfter]) && e.text.contains(BOXED_MARK),
            ErrKind::NoValidate => self.ev.iter().any(|e| matches!(e, AppEv::Validate { set: false, .. })),
            ErrKind::Mutual => return self.mutual(),
            ErrKind::MissingCb(n) => {
                self.ev.iter().any(|e| matches!(e, AppEv::CbData { name, found: false } if name == n))
                    && !self.ev.iter().any(|e| matches!(e, AppEv::CbData { name, found: true } if name == n))
            }
            ErrKind::Other => false,
        };
        if ok {
            Ok(())
        } else {
            Err("nothing of that kind happened in this step".into())
        }
    }

    /// The peer refused, and this is what it said
    fn outcome(&self, e: &ObsErr) -> Result<(), String> {
        let Some(said) = self.input.as_deref().and_then(|i| i.strip_prefix(b"e=")) else {
            return Err("the peer did not refuse".into());
        };
        if self.m.hash().is_none() || self.who != Who::Client {
            return Err("not a SCRAM client".into());
        }
        let said = String::from_utf8_lossy(said.split(|b| *b == b',').next().unwrap()).to_string();
        let squash = |s: &str| s.chars().filter(char::is_ascii_alphanumeric).collect::<String>().to_ascii_lowercase();
        if CODES.contains(&said.as_str()) && !squash(&e.text).contains(&squash(&said)) {
            return Err(format!("the reason given was {said:?}"));
        }
        Ok(())
    }

    /// Is there a readable signature that is wrong?
    fn mutual(&self) -> Result<(), String> {
        let Some(s) = self.scram.filter(|s| s.said.len() == 2) else {
            return Err("this is not the end of a SCRAM client's exchange".into());
        };
        let Some(v) = self.input.as_deref().and_then(|i| i.strip_prefix(b"v=")) else {
            return Err("there is no signature in the last message".into());
        };
        let v64 = v.split(|b| *b == b',').next().unwrap();
        if crate::scram::unb64_lenient(v64).is_none() {
            return Err("the signature is not readable".into());
        }
        if self.genuine(s) == Some(true) {
            return Err("the signature is right".into());
        }
        Ok(())
    }

    /// Is the last message the genuine one?  `None` if that can't be told
    fn genuine(&self, s: Scram) -> Option<bool> {
        let h = self.m.hash()?;
        let k = s.keys?;
        let r = judge_client(h, &s.said[0], &s.heard[0], &s.said[1], self.input.as_deref()?, |salt, iter| {
            k.server_key(h, salt, iter)
        });
        match r {
            Ok("strict") => Some(true),
            Ok(_) => None,
            Err("no key") => None,
            Err(_) => Some(false),
        }
    }

    /// What has to be reported, if that's certain
    fn due(&self) -> Option<(&'static str, Box<dyn Fn(&ObsErr) -> bool>)> {
        if self.bad_b64() {
            return Some(("a base64 error", Box::new(|e| e.kind == ErrKind::Base64)));
        }
        if self.hits.len() == 1 {
            let h = self.hits[0];
            let d: Option<(&'static str, Box<dyn Fn(&ObsErr) -> bool>)> = match h {
                Hit::Boxed | Hit::ErrAfter => {
                    Some(("the application's error", Box::new(|e| e.kind == ErrKind::Boxed && e.text.contains(BOXED_MARK))))
                }
                _ => None,
            };
            // the client's offer to cache its keys, whatever comes of it
            let ignored = self.scram.is_some_and(|s| s.said.len() == 2);
            if d.is_some() && !ignored && self.refused().is_none() {
                return d;
            }
        }
        if let Some(k) = self.refused() {
            if self.hits.is_empty() {
                return Some(("the writer's error", Box::new(move |e| e.kind == ErrKind::Io && e.io == Some(k))));
            }
        }
        if self.validated(&[ValPolicy::Boxed, ValPolicy::FinalizeThenErr]) {
            return Some(("the validation's error", Box::new(|e| e.kind == ErrKind::ValBoxed)));
        }
        if self.validated(&[ValPolicy::Missing]) {
            return Some(("a missing property", Box::new(|e| e.kind == ErrKind::ValMissing)));
        }
        if !self.hits.is_empty() {
            return None;
        }
        let s = self.scram?;
        let i = self.input.as_deref()?;
        let h = self.m.hash()?;
        if s.said.len() == 2 {
            if i.starts_with(b"e=") && CODES.iter().any(|c| c.as_bytes() == &i[2..]) {
                return Some(("the server's refusal", Box::new(|e| e.mech == Some(MechKind::Outcome))));
            }
            let v = i.strip_prefix(b"v=")?;
            let sig = unb64(v)?;
            if sig.is_empty() {
                return None;
            }
            // the model's own calculation
            let sf = ServerFirst::parse(&s.heard[0]).ok()?;
            let cf = ClientFirst::parse(&s.said[0]).ok()?;
            let fin = ClientFinal::parse(&s.said[1]).ok()?;
            let key = s.keys?.server_key(h, &sf.salt, sf.iter)?;
            if sig != hmac(h, &key, &auth_message(&cf.bare, &s.heard[0], &fin.without_proof)) {
                return Some(("failed mutual authentication", Box::new(|e| e.kind == ErrKind::Mutual)));
            }
        } else if s.said.len() == 1 {
            let cf = ClientFirst::parse(&s.said[0]).ok()?;
            if i.iter().filter(|b| **b == b',').count() != 2 {
                // extensions may be a reason of their own
                return None;
            }
            let zero = i.windows(4).any(|w| w == b",i=0") && i.ends_with(b",i=0");
            let sane = if zero { [&i[..i.len() - 1], b"1"].concat() } else { i.to_vec() };
            let sf = ServerFirst::parse(&sane).ok()?;
            if zero || !sf.nonce.starts_with(&cf.nonce) {
                return Some(("a violation of the protocol", Box::new(|e| e.mech == Some(MechKind::Protocol))));
            }
        }
        None
    }

    fn check(&self) -> Res {
        let e = match &self.out.res {
            R::Err(e) => Some(e),
            R::Panic(_) => return Ok(()),
            _ => None,
        };
        let at = || {
            format!(
                "{} {} ({}, {:?}, application {:?}): {}",
                self.m.name(),
                self.who.name(),
                show_opt(self.given),
                self.w,
                self.hits,
                self.out.res.short()
            )
        };
        if let Some(e) = e {
            if let Err(why) = self.justified(e) {
                return viol("untrue", format!("{}: {why}", at()));
            }
            let missing = matches!(e.kind, ErrKind::CbNoCallback(_));
            ensure!(
                e.helpers == (e.kind == ErrKind::Mech, missing),
                "classification",
                "{}: is_mechanism_error, is_missing_prop: {:?}",
                at(),
                e.helpers
            );
            // what is named is named in words, too
            if let ErrKind::CbNoCallback(n) | ErrKind::MissingCb(n) = &e.kind {
                ensure!(e.text.split(" | ").next().unwrap().contains(n.as_str()) || e.text.contains(" <- "), "nameless", "{}", at());
            }
        }
        if let Some((what, is)) = self.due() {
            ensure!(e.is_some_and(|e| is(e)), "not-reported", "{}: due is {what}", at());
        }
        Ok(())
    }
}

/// A message a server may come up with for a SCRAM client
fn server_says(sim: &mut Sim, s: &Scram, msg: &[u8], h: Hash) -> Vec<u8> {
    let txt = String::from_utf8_lossy(msg).to_string();
    if s.said.len() == 1 {
        match sim.below(4) {
            0 => txt.replacen("r=", "r=x", 1).into_bytes(),
            1 => match txt.find(",i=") {
                Some(p) => format!("{},i=0", &txt[..p]).into_bytes(),
                None => msg.to_vec(),
            },
            2 => {
                let cut = txt.find(",s=").unwrap_or(txt.len());
                format!("r={}{}", "abcdefgh", &txt[cut..]).into_bytes()
            }
            _ => format!("e={}", *sim.pick(CODES)).into_bytes(),
        }
    } else {
        match sim.below(6) {
            0 => format!("e={}", *sim.pick(CODES)).into_bytes(),
            1 => {
                let n = crate::scram::size(h);
                let mut b = vec![0; n];
                b[sim.usize(n)] = 1 + sim.below(255) as u8;
                format!("v={}", b64(&b)).into_bytes()
            }
            2 => match txt.strip_prefix("v=").and_then(|v| unb64(v.as_bytes())) {
                Some(mut v) if !v.is_empty() => {
                    let at = *sim.pick(&[0, v.len() - 1, v.len() / 2]);
                    v[at] ^= 1 << sim.below(8);
                    format!("v={}", b64(&v)).into_bytes()
                }
                _ => b"v=".to_vec(),
            },
            3 => {
                let n = sim.usize(70);
                let v = sim.bytes(n);
                format!("v={}", b64(&v)).into_bytes()
            }
            4 => format!("v={}", gen::ext(sim)).into_bytes(),
            _ => b"v=*not*base64*".to_vec(),
        }
    }
}

fn run(sim: &mut Sim) -> Res {
    let mut story = Story::draw(sim);
    let scram = story.m.hash().is_some();
    // one thing is not there at all
    if sim.chance(1, 5) {
        sim.fault("missing_value");
        match sim.below(5) {
            0 => story.cb.clear(),
            1 => story.c.authid = None,
            2 => story.c.password = None,
            3 => story.c.token = None,
            _ => story.c.gss_service = None,
        }
    }
    if sim.chance(1, 8) {
        story.c.refuse_actions = true;
    }
    let m = story.m;
    let mut keys = story.c.password.clone().map(KeySrc::Password);
    if let (Some(h), Some((_, r))) = (m.hash(), story.s.users.first()) {
        // from a cache, which may be outdated
        let fresh = sim.chance(1, 2);
        let pw = story.c.password.clone().unwrap_or_default();
        let k = Keys::derive(h, if fresh { &pw } else { b"an earlier one" }, &r.salt, if fresh { r.iter } else { 4 });
        match sim.below(6) {
            0 => {
                keys = Some(KeySrc::Salted(k.salted.clone()));
                story.c.salted = Some(k.salted);
            }
            1 => {
                let right = Keys::derive(h, &pw, &r.salt, r.iter);
                // as if the server had been replaced, or the client's password changed
                let (ck, sk) = match sim.below(3) {
                    0 => (right.client, k.server),
                    1 => (k.client, right.server),
                    _ => (right.client, right.server),
                };
                keys = Some(KeySrc::Cached(sk.clone()));
                story.c.cached = vec![Cached { params: None, client_key: ck, server_key: sk }];
            }
            _ => {}
        }
        if story.c.hits.iter().any(|_| true) && !matches!(keys, Some(KeySrc::Password(_))) {
            // whichever source is used in the end
            keys = None;
        }
    }
    let mut p: Pair = story.begin()?;
    sim.ev(format!("{} {:?}{:?}", m.name(), story.c.hits, story.s.hits));
    let rate = sim.below(4);
    let mut corpus = Corpus::default();
    let mut turn = if p.client.first() { Who::Client } else { Who::Server };
    let mut msg: Option<Vec<u8>> = None;
    let mut said: Vec<Vec<u8>> = Vec::new();
    let mut heard: Vec<Vec<u8>> = Vec::new();
    for step in 0..14 {
        if !p.get(turn).alive() {
            break;
        }
        let view = (scram && turn == Who::Client).then(|| Scram { said: &said, heard: &heard, keys: keys.as_ref() });
        if let Some(b) = &mut msg {
            if sim.chance(rate, 10) {
                *b = match &view {
                    Some(v) if !v.said.is_empty() && sim.chance(3, 4) => {
                        sim.fault("forged_message");
                        server_says(sim, v, b, m.hash().unwrap())
                    }
                    _ => mutate(sim, b, &corpus),
                };
                cap_iterations(b, 20_000);
            }
        }
        let b64 = sim.chance(1, 2);
        let mut given = msg.as_ref().map(|v| if b64 { STANDARD.encode(v).into_bytes() } else { v.clone() });
        if let (true, Some(g)) = (b64 && sim.chance(rate, 20), &mut given) {
            sim.fault("bad_base64");
            let at = sim.usize(g.len() + 1);
            match sim.below(3) {
                0 => g.insert(at, b'*'),
                1 => g.truncate(at.saturating_sub(1)),
                _ => g.insert(at, b'\n'),
            }
        }
        let withheld = given.is_some() && sim.chance(1, 12);
        if withheld {
            sim.fault("absent_message");
        }
        let w = if sim.chance(rate, 15) {
            let at = *sim.pick(&[0usize, 1, 2, 5, 12, 30, 60]);
            WCfg::failing(sim, at)
        } else if sim.chance(1, 4) {
            WCfg::transparent(sim)
        } else {
            WCfg::default()
        };
        // once without what it needs, then with it
        let rounds: &[bool] = if withheld { &[true, false] } else { &[false] };
        let mut o = None;
        for away in rounds {
            let g = if *away { None } else { given.as_deref() };
            let (n, k) = (p.log_len(turn), ncb(&p, turn));
            let r = p.get(turn).step_as(g, b64, &w);
            let (ev, k2) = (p.log_from(turn, n), ncb(&p, turn));
            let script = if turn == Who::Client { &story.c } else { &story.s };
            let hits: Vec<Hit> = script.hits.iter().filter(|(at, _)| (k..k2).contains(at)).map(|(_, h)| *h).collect();
            sim.ev(format!("{} b64={b64} {} {w:?} -> {} \"{}\"", turn.name(), show_opt(g), r.res.short(), show(&r.bytes)));
            sim.mark(&format!("{}{step}{}", turn.name(), r.res.label()));
            let f = Facts {
                m,
                who: turn,
                b64,
                given: g,
                input: g.and_then(|g| if b64 { STANDARD.decode(g).ok() } else { Some(g.to_vec()) }),
                out: &r,
                w: &w,
                ev: &ev,
                hits: &hits,
                val: script.validate,
                scram: view,
            };
            f.check()?;
            if let R::Err(e) = &r.res {
                sim.probe(label(e));
            }
            let goes_on = r.res.is_input_required();
            let Facts { input, .. } = f;
            o = Some((r, input));
            if !goes_on {
                break;
            }
        }
        let (o, input) = o.unwrap();
        let raw = if b64 && o.res.ok() { STANDARD.decode(&o.bytes).unwrap_or_default() } else { o.bytes };
        if turn == Who::Client {
            if let Some(i) = input {
                heard.push(i);
            }
            said.push(raw.clone());
        }
        corpus.add(&raw);
        msg = Some(raw);
        match o.res {
            R::Running | R::FinYes => turn = turn.other(),
            R::FinNo => {
                if turn == Who::Client && p.server.alive() {
                    msg = Some(Vec::new());
                } else if turn == Who::Server && p.client.alive() {
                    msg = if sim.chance(1, 4) { Some(Vec::new()) } else { None };
                } else {
                    break;
                }
                turn = turn.other();
            }
            R::Err(_) | R::Panic(_) => break,
        }
    }
    layers(sim, m, &mut p)
}

/// "No security layer" is said exactly where there is none
fn layers(sim: &mut Sim, m: Mech, p: &mut Pair) -> Res {
    for who in [Who::Client, Who::Server] {
        let s = p.get(who);
        if matches!(s.last, Some(R::Panic(_))) {
            continue;
        }
        let has = s.has_layer();
        let junk = sim.bytes(20);
        let o = if sim.chance(1, 2) { s.encode(&junk, &WCfg::default()) } else { s.decode(&junk, &WCfg::default()) };
        sim.ev(format!("{} layer {has}: {}", who.name(), o.res.short()));
        let nosec = o.res.kind() == Some(&ErrKind::NoSec);
        ensure!(
            nosec != has,
            "layer",
            "{} {}: a layer is {}installed and using it gives {}",
            m.name(),
            who.name(),
            if has { "" } else { "not " },
            o.res.short()
        );
    }
    Ok(())
}

fn ncb(p: &Pair, w: Who) -> u32 {
    match w {
        Who::Client => p.capp.ncb(1),
        Who::Server => p.sapp.ncb(2),
    }
}

fn label(e: &ObsErr) -> &'static str {
    match (&e.kind, e.mech) {
        (ErrKind::Io, _) => "io",
        (ErrKind::Base64, _) => "base64",
        (ErrKind::Input, _) => "input_required",
        (_, Some(MechKind::Parse)) => "mechanism_parse",
        (_, Some(MechKind::Protocol)) => "mechanism_protocol",
        (_, Some(MechKind::Outcome)) => "mechanism_outcome",
        (ErrKind::CbNoValue, _) => "no_value",
        (ErrKind::CbNoCallback(_), _) => "no_callback",
        (ErrKind::ValMissing | ErrKind::ValBoxed, _) => "validation",
        (ErrKind::Boxed, _) => "application",
        (ErrKind::Mutual, _) => "mutual",
        (ErrKind::MissingCb(_), _) => "missing_binding",
        _ => "other",
    }
}
