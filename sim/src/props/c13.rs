//! Honest exchanges complete in the fixed number of turns, and do so again after whatever happened to earlier ones.
use super::*;
use crate::app::{App, Script};
use crate::ensure;
use crate::exch::{carry, Opts, Who};
use crate::gen;
use crate::gss::{self, GssCfg};
use crate::io::WCfg;
use crate::peer::{RefPeer, Says};
use crate::props::c01::differs;
use crate::scram;
use crate::sess::*;
use crate::sim::{viol, Res, Sim};
use crate::twin::EVERY;

pub const PROP: Prop = Prop {
    id: "C13",
    run,
    quick: 180_000,
    thorough: 5_000_000,
    hang_s: 60,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

enum Side {
    Real(Sess),
    Ref(Box<RefPeer>),
}

/// Two parties which keep trying until they succeed
struct Pair {
    m: Mech,
    c: Script,
    s: Script,
    cb: Vec<(String, Vec<u8>)>,
    tokens: u8,
    refs: (bool, bool),
    ccfg: Config,
    scfg: Config,
    o: Opts,
    attempts: u32,
    cur: Option<Attempt>,
    done: bool,
}
struct Attempt {
    sid: u32,
    client: Side,
    server: Side,
    turn: Who,
    msg: Option<Vec<u8>>,
    sent: (usize, usize),
    cdone: bool,
    sdone: bool,
    log: Vec<String>,
}

/// Messages of client and server in a complete exchange
fn counts(m: Mech, tokens: u8) -> (usize, usize) {
    let t = usize::from(tokens);
    match m {
        Mech::Plain | Mech::Anon | Mech::Ext | Mech::Xoa | Mech::Oab => (1, 0),
        Mech::Login => (2, 2),
        // tokens, an empty message if the server had the last token, the choice of the layer
        Mech::Gss => (t.div_ceil(2) + usize::from(t % 2 == 0) + 1, t / 2 + 1),
        _ => (2, 2),
    }
}

fn config(m: Mech, plus: bool) -> Config {
    Config::new(&App::with_cb(plus), &[m])
}

impl Pair {
    fn draw(sim: &mut Sim) -> Pair {
        let m = *sim.pick(EVERY);
        let (mut c, s, cb) = gen::honest(sim, m);
        let mut s = s;
        if m == Mech::Gss {
            c.gss_layer = None;
            if sim.chance(1, 2) {
                let service = *sim.pick(&["smtp", "host", "x-Svc", "sieve", "\u{fc}"]);
                let n = sim.below(40) as usize;
                let host = ["mx1.example.net", "localhost", "a", "MAIL.example.org", "xn--bcher-kva.example", &"h".repeat(n + 1)]
                    [sim.usize(6)]
                .to_string();
                c.gss_service = Some((service.into(), host));
                s.gss_service = c.gss_service.clone();
            }
        }
        for _ in 0..sim.below(3) {
            let was = (c.clone(), s.clone());
            match sim.below(5) {
                0 if c.authid.is_some() => c.authid = Some(gen::hostile(sim)),
                1 if !matches!(m, Mech::Xoa | Mech::Login | Mech::Anon | Mech::Gss) => c.authzid = Some(gen::hostile(sim)),
                2 if c.password.is_some() => c.password = Some(gen::password(sim)),
                3 if c.token.is_some() => c.token = Some(gen::token(sim)),
                4 if m == Mech::Anon => c.anon = Some(gen::hostile(sim)),
                _ => {}
            }
            if let Some(h) = m.hash() {
                let (rec, _) = gen::record(sim, h, c.password.as_deref().unwrap());
                s.users = vec![(c.authid.clone().unwrap(), rec)];
            }
            let ok = m == Mech::Gss || {
                let (e, v) = expect(m, &c);
                // a client that does not prepare strings has to send prepared ones
                e == c01::Exp::Carry && (m != Mech::Plain || (v.authid == c.authid && v.password == c.password))
            };
            if ok {
                sim.nontrivial = true;
            } else {
                (c, s) = was;
            }
        }
        if let Some(h) = m.hash() {
            let pw = c.password.clone().unwrap();
            let it = if sim.chance(1, 10) {
                gen::deep(sim)
            } else if sim.chance(1, 2500) {
                *sim.pick(&[65_535, 65_536, 70_000])
            } else {
                0
            };
            if it > 0 {
                sim.probe(if it > scram::DEEP { "deep_iterations" } else { "many_iterations" });
                let salt = gen::salt(sim);
                let k = scram::Keys::derive(h, &pw, &salt, it);
                s.users[0].1 = k.record(&salt, it);
                if it > scram::DEEP {
                    c.salted = Some(k.salted);
                }
            }
        }
        let refs = match sim.weighted(&[3, 2, 2]) {
            0 => (false, false),
            1 => (true, false),
            _ => (false, true),
        };
        Pair {
            m,
            c,
            s,
            cb,
            tokens: 1 + sim.below(5) as u8,
            refs,
            ccfg: config(m, m.plus()),
            scfg: config(m, m.plus()),
            o: Opts::draw(sim),
            attempts: 0,
            cur: None,
            done: false,
        }
    }
    fn begin(&mut self, sim: &mut Sim, sid: u32) -> Res {
        self.attempts += 1;
        let m = self.m;
        let g = GssCfg { tokens: self.tokens, seed: u64::from(sid), ..GssCfg::default() };
        gss::configure(sid, g);
        gss::configure(sid + 1, g);
        let reference = |sim: &mut Sim, client: bool| {
            let nonce = crate::props::c02::nonce(sim);
            let mut p = RefPeer::new(m, &self.c, &self.s, &self.cb, nonce);
            if client {
                p.initiator(self.tokens, gss::ALLF, u64::from(sid));
            }
            p.layers = 1 + sim.below(7) as u8;
            if m.hash().is_some() {
                p.ext = (gen::ext(sim), gen::ext(sim));
            }
            p.prompts = match sim.below(4) {
                0 => p.prompts,
                1 => ("Username:".into(), "Password:".into()),
                2 => (String::new(), String::new()),
                _ => ("VXNlcm5hbWU6".into(), "\u{1f511}".into()),
            };
            Box::new(p)
        };
        let client = if self.refs.0 {
            Side::Ref(reference(sim, true))
        } else {
            self.ccfg.app.set(sid, self.c.clone());
            Side::Real(client_for(&self.ccfg, sid, m, self.cb.clone())?)
        };
        let server = if self.refs.1 {
            Side::Ref(reference(sim, false))
        } else {
            self.scfg.app.set(sid + 1, self.s.clone());
            Side::Real(server_for(&self.scfg, sid + 1, m, self.cb.clone())?)
        };
        let first = if m == Mech::Login { Who::Server } else { Who::Client };
        let mut a = Attempt {
            sid,
            client,
            server,
            turn: first,
            msg: None,
            sent: (0, 0),
            cdone: false,
            sdone: false,
            log: Vec::new(),
        };
        for (who, s) in [(Who::Client, &mut a.client), (Who::Server, &mut a.server)] {
            if let Side::Real(s) = s {
                ensure!(
                    s.first() == (who == first),
                    "turn-order",
                    "{} {}: are_we_first() is {}",
                    m.name(),
                    who.name(),
                    s.first()
                );
                // asked to go first nonetheless; EXTERNAL and ANONYMOUS take that for an empty message, by their tests,
                // and the LOGIN client does not look at prompts
                if who != first && !matches!(m, Mech::Anon | Mech::Ext | Mech::Login) && sim.chance(1, 5) {
                    let r = s.step_via(None, self.o.b64, &WCfg::default());
                    ensure!(
                        r.res.is_input_required() && r.bytes.is_empty(),
                        "turn-order",
                        "{} {} goes second, stepped without data: {} \"{}\"",
                        m.name(),
                        who.name(),
                        r.res.short(),
                        show(&r.bytes)
                    );
                }
            }
        }
        sim.ev(format!(
            "#{sid}: {} attempt {} refs {:?} tokens {}",
            m.name(),
            self.attempts,
            self.refs,
            self.tokens
        ));
        self.cur = Some(a);
        Ok(())
    }

    /// One message is taken by the side whose turn it is
    fn advance(&mut self, sim: &mut Sim, refusing: bool) -> Res<bool> {
        let m = self.m;
        let o = self.o;
        let a = self.cur.as_mut().unwrap();
        let who = a.turn;
        let input = a.msg.take();
        let s = match who {
            Who::Client => &mut a.client,
            Who::Server => &mut a.server,
        };
        // (message, expects an answer, finished)
        let (bytes, fin): (Option<Vec<u8>>, bool) = match s {
            Side::Real(s) => {
                let w = if refusing {
                    WCfg::failing(sim, 0)
                } else if o.writers {
                    WCfg::transparent(sim)
                } else {
                    WCfg::default()
                };
                let r = s.step_via(input.as_deref(), o.b64, &w);
                sim.mark(&format!("{}{}", who.name(), r.res.label()));
                let line = format!(
                    "{}({}) -> {} \"{}\"",
                    who.name(),
                    show_opt(input.as_deref()),
                    r.res.short(),
                    show(&r.bytes)
                );
                sim.ev(format!("#{}: {line}", a.sid));
                a.log.push(line);
                if refusing && r.refused > 0 {
                    return Ok(false);
                }
                match r.res {
                    R::Running => (Some(r.bytes), false),
                    R::FinYes => (Some(r.bytes), true),
                    R::FinNo => {
                        ensure!(
                            r.bytes.is_empty(),
                            "state",
                            "{} {}: Finished(No) but \"{}\" was written",
                            m.name(),
                            who.name(),
                            show(&r.bytes)
                        );
                        (None, true)
                    }
                    ref e => {
                        return viol(
                            "refused",
                            format!("{} {}, everything is in order: {}; {}", m.name(), who.name(), e.short(), a.log.join("; ")),
                        )
                    }
                }
            }
            Side::Ref(p) => {
                let r = match who {
                    Who::Client => p.client(input.as_deref()),
                    Who::Server => p.server(input.as_deref()),
                };
                let line = format!("reference {}({}) -> {r:?}", who.name(), show_opt(input.as_deref()));
                sim.ev(format!("#{}: {line}", a.sid));
                a.log.push(line);
                match r {
                    Ok(Says::Send(b)) => (Some(b), false),
                    Ok(Says::Last(b)) => (Some(b), true),
                    Ok(Says::Done) => (None, true),
                    Err(e) => {
                        return viol(
                            "not-understood",
                            format!("{}: the reference {} does not understand: {e}; {}", m.name(), who.name(), a.log.join("; ")),
                        )
                    }
                }
            }
        };
        let (cnt, done) = match who {
            Who::Client => (&mut a.sent.0, &mut a.cdone),
            Who::Server => (&mut a.sent.1, &mut a.sdone),
        };
        *done = fin;
        if let Some(b) = bytes {
            *cnt += 1;
            a.msg = Some(carry(sim, &b, o.fragment));
            a.turn = who.other();
            let peer_done = if who == Who::Client { a.sdone } else { a.cdone };
            ensure!(
                !peer_done,
                "turns",
                "{}: {} sends one more message than expected: {}",
                m.name(),
                who.name(),
                a.log.join("; ")
            );
            let want = counts(m, self.tokens);
            ensure!(
                a.sent.0 <= want.0 && a.sent.1 <= want.1,
                "turns",
                "{}: {:?} messages instead of {want:?}: {}",
                m.name(),
                a.sent,
                a.log.join("; ")
            );
            return Ok(true);
        }
        // nothing to say
        if who == Who::Server && !a.cdone {
            // success without data
            if let Side::Real(c) = &mut a.client {
                let i: Option<&[u8]> = if o.confirm_empty { Some(b"") } else { None };
                let r = c.step_via(i, o.b64, &WCfg::default());
                let line = format!("client(success, {}) -> {}", show_opt(i), r.res.short());
                sim.ev(format!("#{}: {line}", a.sid));
                a.log.push(line);
                ensure!(
                    matches!(r.res, R::FinNo) && r.bytes.is_empty(),
                    "refused",
                    "{}: the client does not take success: {}",
                    m.name(),
                    a.log.join("; ")
                );
                a.cdone = true;
            } else {
                a.cdone = true;
            }
        }
        self.complete(sim)?;
        Ok(true)
    }

    fn complete(&mut self, sim: &mut Sim) -> Res {
        let m = self.m;
        let mut a = self.cur.take().unwrap();
        ensure!(
            a.cdone && a.sdone && a.sent == counts(m, self.tokens),
            "turns",
            "{} with {} tokens: client done {}, server done {}, {:?} messages instead of {:?}: {}",
            m.name(),
            self.tokens,
            a.cdone,
            a.sdone,
            a.sent,
            counts(m, self.tokens),
            a.log.join("; ")
        );
        if let (Side::Real(_), Some((service, host))) = (&a.client, &self.c.gss_service) {
            let (got, want) = (gss::target(a.sid).unwrap_or_default(), format!("{service}@{host}"));
            ensure!(
                got == want.as_bytes(),
                "altered",
                "the application wants to reach {want}, the context is made for {}",
                show(&got)
            );
        }
        if let Side::Real(s) = &mut a.server {
            let val = s.validation();
            let views = self.scfg.app.validations(a.sid + 1);
            if m != Mech::Gss {
                ensure!(
                    val.is_some() && views.len() == 1,
                    "not-validated",
                    "{}: server finished with result {val:?} after {} validations: {}",
                    m.name(),
                    views.len(),
                    a.log.join("; ")
                );
                let (_, want) = expect(m, &self.c);
                if let Some(d) = differs(m, &want, &views[0]) {
                    return viol("altered", format!("{}: {d}: {}", m.name(), a.log.join("; ")));
                }
            }
        }
        sim.probe("completed");
        if self.attempts > 1 {
            sim.probe("completed_after_faults");
        }
        self.done = true;
        Ok(())
    }
}

fn run(sim: &mut Sim) -> Res {
    gss::reset();
    let n = sim.range(1, 4) as usize;
    let mut pairs: Vec<Pair> = (0..n).map(|_| Pair::draw(sim)).collect();
    // some of them are clients of the same process, or even the same party
    for i in 1..pairs.len() {
        if sim.chance(1, 3) {
            let j = sim.usize(i);
            let (ccfg, scfg, m, c, s, cb) = {
                let p = &pairs[j];
                (
                    Config { cfg: p.ccfg.cfg.clone(), app: p.ccfg.app.clone() },
                    Config { cfg: p.scfg.cfg.clone(), app: p.scfg.app.clone() },
                    p.m,
                    p.c.clone(),
                    p.s.clone(),
                    p.cb.clone(),
                )
            };
            let p = &mut pairs[i];
            p.ccfg = ccfg;
            p.scfg = scfg;
            p.m = m;
            p.c = c;
            p.s = s;
            p.cb = cb;
        }
    }
    let mut faults = sim.range(0, 8);
    let mut sid = 10;
    let mut ticks = 0;
    let mut half_open: Vec<Attempt> = Vec::new();
    let bound = 12 * (n as u32) + 14 * faults + 4;
    while pairs.iter().any(|p| !p.done) {
        ticks += 1;
        ensure!(
            ticks <= bound,
            "no-progress",
            "{} of {n} exchanges unfinished after {ticks} turns, {faults} faults left",
            pairs.iter().filter(|p| !p.done).count()
        );
        let open: Vec<usize> = (0..n).filter(|i| !pairs[*i].done).collect();
        let i = *sim.pick(&open);
        let p = &mut pairs[i];
        if p.cur.is_none() {
            p.begin(sim, sid)?;
            sid += 10;
            continue;
        }
        if faults > 0 && sim.chance(1, 4) {
            faults -= 1;
            match sim.below(6) {
                0 => {
                    sim.fault("connection_lost");
                    p.cur = None;
                }
                1 => {
                    sim.fault("client_crash");
                    p.cur = None;
                    p.ccfg = config(p.m, p.m.plus());
                }
                2 => {
                    sim.fault("server_crash");
                    p.cur = None;
                    p.scfg = config(p.m, p.m.plus());
                }
                3 => {
                    sim.fault("stalled");
                    sim.advance(30_000_000);
                }
                4 => {
                    sim.fault("write_refused");
                    if !p.advance(sim, true)? {
                        p.cur = None;
                    }
                }
                _ => {
                    // the client gives up, the server keeps its half-open session
                    sim.fault("half_open");
                    half_open.extend(p.cur.take());
                }
            }
            continue;
        }
        p.advance(sim, false)?;
    }
    Ok(())
}
