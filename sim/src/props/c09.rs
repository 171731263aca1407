//! C09: a validation result exists only after this very exchange was really validated.
use super::c01;
use super::c05::SEEDS;
use super::*;
use crate::adv::{cap_iterations, mutate, Corpus};
use crate::app::{App, AppEv, Hit, OErr, Script, Val, ValPolicy, View};
use crate::ensure;
use crate::gen;
use crate::gss::{self, GssCfg};
use crate::io::WCfg;
use crate::scram::{judge, ServerView, Verdict};
use crate::sess::*;
use crate::sim::{viol, Res, Sim};
use crate::twin::EVERY;

pub const PROP: Prop = Prop {
    id: "C09",
    run,
    quick: 250_000,
    thorough: 5_000_000,
    hang_s: 30,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

/// What the messages a server received say, read independently
#[derive(Debug)]
pub enum Said {
    /// By the grammar: the application has to see exactly this
    Clear(View),
    /// Not quite by the grammar
    Unclear,
    Malformed(&'static str),
}

fn prep(s: &str) -> Result<String, ()> {
    stringprep::saslprep(s).map(|s| s.into_owned()).map_err(|_| ())
}

/// The non-SCRAM mechanisms.  `got`: all messages taken so far, `None` for an absent one
pub fn said(m: Mech, got: &[Option<Vec<u8>>]) -> Said {
    use Said::*;
    let mut v = View::default();
    let one = || got.first().and_then(Option::as_deref);
    match m {
        Mech::Plain => {
            let Some(b) = one() else { return Malformed("absent") };
            let p: Vec<&[u8]> = b.split(|c| *c == 0).collect();
            if p.len() != 3 {
                return Malformed("not three parts");
            }
            let (Ok(z), Ok(a)) = (std::str::from_utf8(p[0]), std::str::from_utf8(p[1])) else {
                return Malformed("not UTF-8");
            };
            if a.is_empty() || p[2].is_empty() {
                return Malformed("empty identity or password");
            }
            let Ok(a) = prep(a) else { return Malformed("identity prohibited") };
            let pw = match std::str::from_utf8(p[2]) {
                Ok(s) => match prep(s) {
                    Ok(s) => s.into_bytes(),
                    Err(()) => return Malformed("password prohibited"),
                },
                Err(_) => p[2].to_vec(),
            };
            if a.is_empty() || pw.is_empty() {
                return Malformed("identity or password prepared to nothing");
            }
            v.authid = Some(a);
            v.authzid = Some(z.into());
            v.password = Some(pw);
        }
        Mech::Login => {
            let (Some(Some(u)), Some(Some(p))) = (got.get(1), got.get(2)) else {
                return Malformed("absent");
            };
            let Ok(u) = std::str::from_utf8(u) else { return Malformed("not UTF-8") };
            v.authid = Some(u.into());
            v.password = Some(p.clone());
        }
        Mech::Anon | Mech::Ext => {
            let b = one().unwrap_or(b"");
            let Ok(s) = std::str::from_utf8(b) else { return Malformed("not UTF-8") };
            if m == Mech::Anon {
                v.anon = Some(s.into());
                if s.chars().count() > 255 {
                    return Unclear;
                }
            } else {
                v.authzid = Some(s.into());
            }
        }
        Mech::Xoa => {
            let Some(b) = one() else { return Malformed("absent") };
            let Some(r) = b.strip_prefix(b"user=") else { return Malformed("no user") };
            let Some(r) = r.strip_suffix(b"\x01\x01") else { return Malformed("no end") };
            let Some(i) = r.iter().position(|c| *c == 1) else { return Malformed("no token") };
            let Some(t) = r[i + 1..].strip_prefix(b"auth=Bearer ") else { return Malformed("no token") };
            let (Ok(u), Ok(t)) = (std::str::from_utf8(&r[..i]), std::str::from_utf8(t)) else {
                return Malformed("not UTF-8");
            };
            if t.contains('\u{1}') {
                return Unclear;
            }
            v.authid = Some(u.into());
            v.token = Some(t.into());
        }
        Mech::Oab => {
            let Some(b) = one() else { return Malformed("absent") };
            let Some(r) = b.strip_suffix(b"\x01\x01") else { return Malformed("no end") };
            let mut it = r.split(|c| *c == 1);
            let gs2: Vec<&[u8]> = it.next().unwrap_or(b"").split(|c| *c == b',').collect();
            if gs2[0].starts_with(b"p") || !matches!(gs2[0], b"n" | b"y") || gs2.len() < 2 {
                return Malformed("gs2 header");
            }
            if !gs2[1].is_empty() {
                let Some(a) = gs2[1].strip_prefix(b"a=") else { return Malformed("gs2 authzid") };
                match crate::scram::unescape(a) {
                    Some(a) => v.authzid = Some(a),
                    // not a saslname; an empty one is a matter of taste
                    None if a.is_empty() || a.contains(&0) => return Unclear,
                    None => return Malformed("gs2 authzid"),
                }
            }
            let mut unclear = gs2.len() != 3 || !gs2[2].is_empty() || gs2[0] != b"n";
            let mut kv = Vec::new();
            let mut tokens = 0;
            for p in it {
                let Some(i) = p.iter().position(|c| *c == b'=') else { return Malformed("key without value") };
                let (Ok(k), Ok(x)) = (std::str::from_utf8(&p[..i]), std::str::from_utf8(&p[i + 1..])) else {
                    return Malformed("not UTF-8");
                };
                if k == "auth" {
                    tokens += 1;
                    unclear |= x.get(..7).is_some_and(|s| s.eq_ignore_ascii_case("bearer ") && s != "Bearer ");
                    v.token = Some(x.strip_prefix("Bearer ").unwrap_or(x).into());
                } else {
                    unclear |= k.is_empty();
                    kv.push((k.to_string(), x.to_string()));
                }
            }
            if tokens == 0 {
                return Malformed("no token");
            }
            if unclear || tokens > 1 {
                return Unclear;
            }
            v.kv = Some(kv);
        }
        _ => return Malformed("mechanism has no validation of this kind"),
    }
    Clear(v)
}

struct Conn {
    m: Mech,
    client: Sess,
    server: Sess,
    script: Script,
    cb: Vec<(String, Vec<u8>)>,
    /// what goes to the server next
    wire: Option<Vec<u8>>,
    got: Vec<Option<Vec<u8>>>,
    sent: Vec<Vec<u8>>,
    b64: bool,
    /// result is only fetched at the end
    late: bool,
    nval: usize,
    fetched: Vec<Val>,
    steps: u32,
    done: bool,
}

const HITS: &[Hit] = &[
    Hit::Boxed,
    Hit::Io,
    Hit::ErrAfter,
    Hit::Decline,
    Hit::NoValue,
    Hit::NoCallback,
    Hit::Swallow,
    Hit::Twice,
    Hit::WrongTypes,
    Hit::Panic,
];

fn connect(sim: &mut Sim, ccfg: &[Config; 2], scfg: &Config, sid: u32) -> Res<Conn> {
    let m = *sim.pick(EVERY);
    let (mut c, mut s, cb) = gen::honest(sim, m);
    // hostile values, wrong secrets, unwilling applications
    for _ in 0..sim.usize(3) {
        match sim.below(7) {
            0 if c.authid.is_some() => c.authid = Some(gen::hostile(sim)),
            1 if c.password.is_some() => c.password = Some(gen::password(sim)),
            2 if c.authzid.is_some() => c.authzid = Some(gen::hostile(sim)),
            3 => {
                s.refuse = Some(OErr { status: "invalid_token".into(), scope: None, conf: None });
                s.refuse_x = Some("e30=".into());
            }
            4 => {
                s.hits.push((sim.below(2), *sim.pick(HITS)));
                sim.fault("callback_misbehaves");
            }
            5 if m == Mech::Anon => c.anon = Some(gen::hostile(sim)),
            _ => {
                if let Some((_, r)) = s.users.first_mut() {
                    if sim.chance(1, 2) {
                        r.stored_key.truncate(7);
                        sim.fault("unusable_credentials");
                    } else {
                        s.users.clear();
                        sim.fault("unknown_user");
                    }
                }
            }
        }
    }
    s.validate = match sim.weighted(&[8, 1, 1, 1, 2, 1, 1, 1]) {
        0 => ValPolicy::Accept,
        1 => ValPolicy::Decline,
        2 => ValPolicy::Missing,
        3 => ValPolicy::Boxed,
        4 => ValPolicy::Twice,
        5 => ValPolicy::WrongType,
        6 => ValPolicy::FinalizeThenErr,
        _ => ValPolicy::Panic,
    };
    if s.validate != ValPolicy::Accept {
        sim.fault("validation_misbehaves");
    }
    for id in [sid, sid + 1] {
        gss::configure(id, GssCfg { tokens: 1 + sim.below(3) as u8, seed: u64::from(sid), ..GssCfg::default() });
    }
    let ccfg = &ccfg[usize::from(m.plus())];
    ccfg.app.set(sid, c);
    scfg.app.set(sid + 1, s.clone());
    let client = client_for(ccfg, sid, m, cb.clone())?;
    let server = server_for(scfg, sid + 1, m, cb.clone())?;
    sim.ev(format!("session {} {} policy {:?} hits {:?}", sid + 1, m.name(), s.validate, s.hits));
    Ok(Conn {
        m,
        client,
        server,
        script: s,
        cb,
        wire: None,
        got: Vec::new(),
        sent: Vec::new(),
        b64: sim.chance(1, 3),
        late: sim.chance(1, 2),
        nval: 0,
        fetched: Vec::new(),
        steps: 0,
        done: false,
    })
}

/// The answer the application gives to the request for the stored keys
fn users(c: &Conn) -> Vec<(String, crate::app::Stored)> {
    let lost = c
        .server
        .app
        .hits(c.server.sid)
        .iter()
        .any(|(h, p)| *p == "ScramStoredPassword" && matches!(h, Hit::Decline | Hit::NoValue | Hit::NoCallback));
    if lost {
        Vec::new()
    } else {
        c.script.users.clone()
    }
}

fn fetch(sim: &mut Sim, c: &mut Conn) -> Res {
    for _ in 0..2 {
        if let Some(v) = c.server.validation() {
            sim.ev(format!("session {} result {}", c.server.sid, v.serial));
            c.fetched.push(v);
        }
    }
    let vals = c.server.app.validations(c.server.sid);
    ensure!(
        c.fetched.len() <= 1,
        "result-twice",
        "{}: {} results delivered",
        c.m.name(),
        c.fetched.len()
    );
    if let Some(v) = c.fetched.first() {
        let Some(ctx) = vals.first() else {
            return viol("result-unvalidated", format!("{}: a result without validation: {v:?}", c.m.name()));
        };
        let want = Val { sid: c.server.sid, serial: 1, view: ctx.clone() };
        ensure!(*v == want, "result-changed", "{}: result {v:?} instead of {want:?}", c.m.name());
    }
    Ok(())
}

fn server_step(sim: &mut Sim, c: &mut Conn, input: Option<Vec<u8>>) -> Res<R> {
    let m = c.m;
    let sid = c.server.sid;
    let w = match sim.weighted(&[8, 2, 2]) {
        0 => WCfg::default(),
        1 => WCfg::transparent(sim),
        _ => {
            let at = sim.usize(70);
            WCfg::failing(sim, at)
        }
    };
    let before = c.server.app.log_len(sid);
    let hits = c.server.app.hits(sid).len();
    let o = c.server.step_via(input.as_deref(), c.b64, &w);
    c.steps += 1;
    sim.mark(&format!("{}:{}:{}", m.name(), c.steps, o.res.label()));
    sim.ev(format!("session {sid} step({}) -> {} \"{}\"", show_opt(input.as_deref()), o.res.short(), show(&o.bytes)));
    let log = c.server.app.log(sid)[before..].to_vec();
    let hit: Vec<_> = c.server.app.hits(sid)[hits..].to_vec();
    if !o.res.is_input_required() {
        c.got.push(input.clone());
    }
    let vals: Vec<&View> = log
        .iter()
        .filter_map(|e| match e {
            AppEv::Validate { ctx, .. } => Some(ctx),
            _ => None,
        })
        .collect();
    c.nval += vals.len();
    ensure!(c.nval <= 1, "validated-twice", "{}: validation ran {} times", m.name(), c.nval);
    if let Some(ctx) = vals.first() {
        sim.probe("validated");
        ensure!(
            input.is_some() || matches!(m, Mech::Anon | Mech::Ext),
            "validated-without-message",
            "{}: validation ran on a step without message: {ctx:?}",
            m.name()
        );
        if m.hash().is_none() {
            ensure!(m != Mech::Gss, "validated-gssapi", "GSSAPI calls validation: {ctx:?}");
            match said(m, &c.got) {
                Said::Malformed(why) => {
                    return viol(
                        "validated-malformed",
                        format!("{}: malformed message ({why}) was validated as {ctx:?}", m.name()),
                    )
                }
                Said::Unclear => sim.probe("unclear_message"),
                Said::Clear(want) => {
                    let want = View {
                        token: want.token.map(|t| t.strip_prefix("Bearer ").map_or(t.clone(), Into::into)),
                        ..want
                    };
                    if let Some(d) = c01::differs(m, &want, ctx) {
                        return viol("validated-other-data", format!("{}: {d}", m.name()));
                    }
                }
            }
        } else {
            let cf = c.got.first().cloned().flatten().unwrap_or_default();
            let sf = c.sent.first().cloned().unwrap_or_default();
            let fin = input.clone().unwrap_or_default();
            let users = users(c);
            let view = ServerView {
                hash: m.hash().unwrap(),
                plus: m.plus(),
                can_cb: true,
                cbdata: &c.cb,
                users: &users,
            };
            let verdict = if c.got.len() < 2 { Verdict::Reject("first message") } else { judge(&view, &cf, &sf, &fin) };
            match verdict {
                Verdict::Reject(why) => {
                    return viol("validated-unproven", format!("{}: validated although {why}: {ctx:?}", m.name()))
                }
                Verdict::Accept { user, authzid, .. } | Verdict::Either { user, authzid, .. } => {
                    let want = View { authid: Some(user), authzid, ..View::default() };
                    if let Some(d) = c01::differs(m, &want, ctx) {
                        return viol("validated-other-data", format!("{}: {d}", m.name()));
                    }
                }
            }
            // the announcement was complete before
            ensure!(
                o.bytes.starts_with(b"v=") || (c.b64 && !o.res.ok()),
                "validated-unannounced",
                "{}: validated without the server signature written: \"{}\"",
                m.name(),
                show(&o.bytes)
            );
        }
        // what the application said about it
        let p = c.script.validate;
        if matches!(p, ValPolicy::Missing | ValPolicy::Boxed | ValPolicy::FinalizeThenErr) {
            ensure!(
                matches!(o.res, R::Err(_)),
                "error-swallowed",
                "{}: validation failed ({p:?}), the step says {}",
                m.name(),
                o.res.short()
            );
        }
    }
    if !matches!(o.res, R::Err(_) | R::Panic(_)) {
        if let Some((h, p)) = hit.iter().find(|(h, _)| matches!(h, Hit::Boxed | Hit::Io | Hit::ErrAfter)) {
            return viol(
                "error-swallowed",
                format!("{}: callback for {p} failed ({h:?}), the step says {}", m.name(), o.res.short()),
            );
        }
    }
    // outcome and validation belong together
    match &o.res {
        R::FinNo | R::FinYes => {
            let success = match m {
                Mech::Gss => false,
                _ if m.hash().is_some() => o.bytes.starts_with(b"v="),
                // the refused token mechanisms have been validated in the step before
                _ => true,
            };
            ensure!(
                (c.nval == 1) == success,
                "outcome-without-validation",
                "{}: {} \"{}\" after {} validations",
                m.name(),
                o.res.short(),
                show(&o.bytes),
                c.nval
            );
            if success {
                sim.probe("succeeded");
            }
        }
        R::Running => {
            if c.nval == 1 {
                ensure!(
                    matches!(m, Mech::Xoa | Mech::Oab) && vals.len() == 1 && c.got.len() == 1 || m == Mech::Gss,
                    "validated-early",
                    "{}: validated although the exchange goes on",
                    m.name()
                );
                sim.probe("refused_token");
            }
        }
        R::Err(e) => {
            if c.script.validate != ValPolicy::FinalizeThenErr || vals.is_empty() {
                if vals.len() == 1 {
                    sim.probe("failed_after_validation");
                }
                if let Some(v) = c.server.validation() {
                    // a result of an earlier step of this exchange may still be waiting
                    ensure!(
                        c.nval == 1 && vals.is_empty() && c.late,
                        "result-of-failed-step",
                        "{}: step failed ({:?}), but there is a result {v:?}",
                        m.name(),
                        e.kind
                    );
                    c.fetched.push(v);
                }
            } else {
                let _ = c.server.validation();
            }
        }
        R::Panic(p) => {
            ensure!(
                c.server.validation().is_none(),
                "result-of-crashed-step",
                "{}: crashed ({p}), but there is a result",
                m.name()
            );
        }
    }
    if o.res.ok() {
        if matches!(o.res, R::Running | R::FinYes) {
            c.sent.push(o.bytes.clone());
        }
        if !c.late || o.res.finished() {
            let had = c.fetched.len();
            fetch(sim, c)?;
            // it is there as soon as the application set it
            let sets = matches!(c.script.validate, ValPolicy::Accept | ValPolicy::Twice | ValPolicy::WrongType);
            ensure!(
                c.fetched.len() == usize::from(sets && c.nval == 1),
                "result-lost",
                "{}: application {:?}, {} validations, {} results ({had} before)",
                m.name(),
                c.script.validate,
                c.nval,
                c.fetched.len()
            );
        }
    }
    Ok(o.res)
}

fn turn(sim: &mut Sim, c: &mut Conn, corpus: &mut Corpus) -> Res {
    // the server's step first, if it is its turn
    let mut input = c.wire.take();
    if !(c.server.first() && c.server.nsteps == 0) && input.is_none() {
        // nothing from the client: let it talk
        let prev = c.sent.last().cloned();
        if c.client.alive() && !(c.client.first() && c.client.nsteps > 0 && prev.is_none()) {
            let mut prev = if c.client.nsteps == 0 && c.client.first() { None } else { prev };
            if let Some(p) = &mut prev {
                cap_iterations(p, 4096);
            }
            let o = c.client.step(prev.as_deref(), &WCfg::default());
            ensure!(
                c.client.validation().is_none() && c.client.app.validations(c.client.sid).is_empty(),
                "client-validated",
                "{}: a client session has a validation result",
                c.m.name()
            );
            if matches!(o.res, R::Running | R::FinYes) {
                corpus.add(&o.bytes);
                input = Some(o.bytes);
            }
        }
    }
    // the adversary
    match sim.weighted(&[18, 5, 3, 2, 1, 1]) {
        0 => {}
        1 => {
            if let Some(b) = &mut input {
                for _ in 0..sim.range(1, 2) {
                    *b = mutate(sim, b, corpus);
                }
            }
        }
        2 => {
            input = corpus.any(sim);
            sim.fault("message_of_other_session");
        }
        3 => {
            input = Some(sim.pick(SEEDS).to_vec());
            sim.fault("garbage");
        }
        4 => {
            // no data first
            sim.fault("spurious_step");
            let r = server_step(sim, c, None)?;
            if !r.is_input_required() {
                c.done = !c.server.alive();
                c.wire = input;
                return Ok(());
            }
        }
        _ => {
            sim.fault("connection_lost");
            c.done = true;
            return fetch(sim, c);
        }
    }
    let r = server_step(sim, c, input)?;
    if !c.server.alive() || r.is_input_required() && !c.client.alive() || c.steps > 12 {
        c.done = true;
    }
    Ok(())
}

fn run(sim: &mut Sim) -> Res {
    gss::reset();
    let n = sim.range(1, 4);
    let mut corpus = Corpus::default();
    let mut conns: Vec<Conn> = Vec::new();
    // a client that could bind but isn't offered to is refused by a server that can: that is C04
    let ccfg = [Config::new(&App::with_cb(false), EVERY), Config::new(&App::with_cb(true), EVERY)];
    let scfg = Config::new(&App::with_cb(true), EVERY);
    for i in 0..n {
        let c = connect(sim, &ccfg, &scfg, 2 * i + 1)?;
        conns.push(c);
    }
    sim.nontrivial |= n > 1;
    for _ in 0..60 {
        let live: Vec<usize> = (0..conns.len()).filter(|i| !conns[*i].done).collect();
        if live.is_empty() {
            break;
        }
        let i = live[sim.usize(live.len())];
        turn(sim, &mut conns[i], &mut corpus)?;
    }
    for c in &mut conns {
        fetch(sim, c)?;
    }
    Ok(())
}
