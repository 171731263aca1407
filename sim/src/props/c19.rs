//! C19: an ended or abandoned session leaves nothing behind.
//!
//! Whole lives of sessions, with everything the harness made for them, happen between two readings of the thread's allocator.
//! Content changes from life to life and lengths do not, so buffers that are kept for reuse settle while anything that is
//! kept per session, per name or per exchange goes on growing.
use super::*;
use crate::alloc::live;
use crate::app::{App, Hit, OErr, Script, ValPolicy};
use crate::ensure;
use crate::gen;
use crate::gss::{self, GssCfg};
use crate::io::{Refusal, WCfg};
use crate::scram::Keys;
use crate::sess::*;
use crate::sim::{mix, Res, Sim};
use crate::twin::EVERY;
use std::sync::{Arc, Weak};

pub const PROP: Prop = Prop {
    id: "C19",
    run,
    quick: 30_000,
    thorough: 900_000,
    hang_s: 60,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

#[derive(Clone, Debug)]
enum Cond {
    Honest,
    WrongPassword,
    Refused { noted: bool },
    UnknownUser,
    Validation(ValPolicy),
    Hit { client: bool, at: u32, hit: Hit },
    /// A record or cached keys of the wrong size
    BadKeys,
}

#[derive(Clone, Debug)]
struct Life {
    m: Mech,
    c: Script,
    s: Script,
    cb: Vec<(String, Vec<u8>)>,
    gss: GssCfg,
    cond: Cond,
    /// Number of steps after which both ends are dropped
    stop: usize,
    /// The peer never sees it, what is left is one session that waits
    lone: bool,
    b64: u32,
    /// (step, position) of a writer that refuses
    full: Option<(usize, usize)>,
    /// (step, how) a message is damaged
    bend: Option<(usize, u64)>,
    /// Number of calls without input before a step
    absent: Option<usize>,
    take: bool,
    /// Data through the security layer, or an attempt to
    layer: bool,
    /// Contexts that are never used, negotiations that fail
    idle: bool,
    /// The application's handle to the configuration is gone before the first step
    early: bool,
}

fn turn(s: &str, n: u64) -> String {
    let mut n = n;
    s.chars()
        .map(|c| {
            let base = match c {
                'a'..='z' => b'a',
                'A'..='Z' => b'A',
                _ => return c,
            };
            let d = (n % 26) as u8;
            n /= 26;
            ((c as u8 - base + d) % 26 + base) as char
        })
        .collect()
}

impl Life {
    fn draw(sim: &mut Sim) -> Life {
        let m = *sim.pick(EVERY);
        let (mut c, mut s, cb) = gen::honest(sim, m);
        // cheap derivation, there are many lives
        for (_, r) in &mut s.users {
            r.iter = r.iter.min(4);
        }
        let mut g = GssCfg { seed: 11, ..GssCfg::default() };
        if m == Mech::Gss {
            g.tokens = 1 + sim.below(4) as u8;
            if sim.chance(1, 4) {
                g.flags = sim.below(64);
            }
            if sim.chance(1, 2) {
                c.gss_layer = Some(sim.below(8) as u8);
                s.gss_layer = Some(sim.below(8) as u8);
            }
            if sim.chance(1, 4) {
                g.fail = Some(sim.below(10));
                sim.fault("security_provider_failure");
            }
        }
        let cond = match sim.weighted(&[5, 1, 2, 1, 2, 3, 1]) {
            0 => Cond::Honest,
            1 => Cond::WrongPassword,
            2 => Cond::Refused { noted: sim.chance(2, 3) },
            3 => Cond::UnknownUser,
            4 => {
                let v = [ValPolicy::Decline, ValPolicy::Missing, ValPolicy::Boxed, ValPolicy::FinalizeThenErr, ValPolicy::Panic];
                Cond::Validation(*sim.pick(&v))
            }
            5 => {
                let h = *sim.pick(&[
                    Hit::Decline,
                    Hit::Boxed,
                    Hit::NoValue,
                    Hit::Io,
                    Hit::Swallow,
                    Hit::Twice,
                    Hit::WrongTypes,
                    Hit::ErrAfter,
                    Hit::Panic,
                ]);
                sim.fault(if h == Hit::Panic { "application_crash" } else { "callback_misbehaves" });
                Cond::Hit { client: sim.chance(1, 2), at: sim.below(5), hit: h }
            }
            _ => Cond::BadKeys,
        };
        let stop = if sim.chance(1, 2) {
            sim.fault("abandoned");
            sim.usize(6)
        } else {
            16
        };
        let b64 = match sim.below(3) {
            0 => 0,
            1 => u32::MAX,
            _ => sim.below(u32::MAX),
        };
        let full = sim.chance(1, 5).then(|| {
            sim.fault("write_error");
            (sim.usize(5), sim.usize(40))
        });
        let bend = sim.chance(1, 4).then(|| {
            sim.fault("altered_message");
            (1 + sim.usize(4), u64::from(sim.below(u32::MAX)))
        });
        let absent = sim.chance(1, 6).then(|| {
            sim.fault("absent_message");
            sim.usize(5)
        });
        Life {
            m,
            c,
            s,
            cb,
            gss: g,
            cond,
            stop,
            lone: sim.chance(1, 10),
            b64,
            full,
            bend,
            absent,
            take: sim.chance(1, 2),
            layer: sim.chance(1, 3),
            idle: sim.chance(1, 6),
            early: sim.chance(1, 2),
        }
    }

    /// The same life of somebody else: as long in everything, but with other names, tokens, passwords and salts
    fn turned(&self, n: u64) -> Life {
        let mut l = self.clone();
        for x in [&mut l.c.authid, &mut l.c.authzid, &mut l.c.token, &mut l.c.anon].into_iter().flatten() {
            *x = turn(x, n);
        }
        for (_, v) in l.c.kv.iter_mut().flatten() {
            *v = turn(v, n);
        }
        if let Some((_, h)) = &mut l.c.gss_service {
            *h = turn(h, n);
        }
        l.s.gss_service = l.c.gss_service.clone();
        if let Some(p) = &mut l.c.password {
            let t = turn(&String::from_utf8_lossy(p), n);
            *p = t.into_bytes();
        }
        for (_, d) in &mut l.cb {
            for (i, b) in d.iter_mut().enumerate().take(8) {
                *b = b.wrapping_add((n >> (8 * i)) as u8);
            }
        }
        if let Some(h) = l.m.hash() {
            let pw = l.c.password.clone().unwrap_or_default();
            for (name, r) in &mut l.s.users {
                *name = turn(name, n);
                for (i, b) in r.salt.iter_mut().enumerate().take(8) {
                    *b = b.wrapping_add((n >> (8 * i)) as u8);
                }
                *r = Keys::derive(h, &pw, &r.salt, r.iter).record(&r.salt, r.iter);
            }
        }
        match &l.cond {
            Cond::Honest => {}
            Cond::WrongPassword => {
                if let Some(p) = &mut l.c.password {
                    p.reverse();
                    p.push(b'!');
                }
            }
            Cond::Refused { noted } => {
                l.s.refuse = Some(OErr {
                    status: turn("invalid_token", n),
                    scope: Some(turn("scope", n)),
                    conf: None,
                });
                l.s.refuse_x = Some(turn("eyJzdGF0dXMiOiI0MDEifQ==", n));
                l.c.refuse_actions = !noted;
                l.s.validate = ValPolicy::Decline;
            }
            Cond::UnknownUser => l.s.users.clear(),
            Cond::Validation(v) => l.s.validate = *v,
            Cond::Hit { client, at, hit } => {
                let s = if *client { &mut l.c } else { &mut l.s };
                s.hits.push((*at, *hit));
            }
            Cond::BadKeys => {
                for (_, r) in &mut l.s.users {
                    r.stored_key.pop();
                }
            }
        }
        l
    }

    fn line(&self) -> String {
        format!(
            "{} {:?}, {} steps{}{}{}{}{}{}{}",
            self.m.name(),
            self.cond,
            self.stop,
            if self.lone { ", alone" } else { "" },
            self.full.map_or(String::new(), |(s, n)| format!(", writer of step {s} refuses byte {n}")),
            self.bend.map_or(String::new(), |(s, _)| format!(", message {s} altered")),
            self.absent.map_or(String::new(), |s| format!(", step {s} first without data")),
            if self.layer { ", data through the layer" } else { "" },
            if self.idle { ", unused contexts" } else { "" },
            if self.early { ", configuration let go early" } else { "" },
        )
    }
}

fn bend(seed: u64, b: &mut Vec<u8>) {
    let r = mix(seed);
    let at = (r >> 8) as usize % b.len().max(1);
    match r % 5 {
        0 => b.truncate(at),
        1 => b.insert(at.min(b.len()), (r >> 40) as u8),
        2 if !b.is_empty() => b[at] ^= 1 << (r >> 40 & 7),
        3 if !b.is_empty() => b[at] = (r >> 40) as u8,
        _ => b.clear(),
    }
    // no long derivations
    if b.len() > 3 && b.windows(3).any(|w| w == b",i=") && r % 5 != 0 {
        b.clear();
    }
}

#[derive(Clone, Copy, Default, PartialEq, Eq)]
struct Ended {
    steps: usize,
    client_ok: bool,
    server_ok: bool,
    panics: usize,
    layer: bool,
}

/// Everything made for a life is gone when this returns, unless the library keeps it
fn live_it(l: &Life) -> Res<(Ended, [Weak<App>; 2])> {
    gss::reset();
    gss::configure(1, l.gss);
    gss::configure(2, GssCfg { fail: None, ..l.gss });
    let capp = App::with_cb(true);
    let sapp = App::with_cb(true);
    let weak = [Arc::downgrade(&capp), Arc::downgrade(&sapp)];
    capp.set(1, l.c.clone());
    sapp.set(2, l.s.clone());
    let ccfg = Config::new(&capp, &[l.m]);
    let scfg = Config::new(&sapp, &[l.m]);
    let mut e = Ended::default();
    if l.idle {
        unused(&ccfg, 1, &l.cb);
        unused(&scfg, 2, &l.cb);
        let other = mechname("X-NOT-THERE");
        let _ = start_client(&ccfg, 1, &[other], l.cb.clone());
        let _ = start_server(&scfg, 2, other, l.cb.clone());
    }
    let mut client = client_for(&ccfg, 1, l.m, l.cb.clone())?;
    let mut server = server_for(&scfg, 2, l.m, l.cb.clone())?;
    let mut kept = Some((ccfg, scfg));
    if l.early {
        kept = None;
    }
    let mut clients_turn = client.first();
    let mut msg: Option<Vec<u8>> = None;
    while e.steps < l.stop {
        let s = if clients_turn { &mut client } else { &mut server };
        if !s.alive() {
            break;
        }
        let b64 = l.b64 >> (e.steps % 32) & 1 == 1;
        if let (Some((at, seed)), Some(m)) = (l.bend, &mut msg) {
            if at == e.steps {
                bend(seed, m);
            }
        }
        let mut w = WCfg::default();
        if let Some((at, n)) = l.full {
            if at == e.steps {
                w.fail_at = Some((n, Refusal::Err(std::io::ErrorKind::Other)));
            }
        }
        if l.absent == Some(e.steps) && msg.is_some() {
            let o = s.step_as(None, b64, &w);
            e.panics += usize::from(matches!(o.res, R::Panic(_)));
            if !s.alive() || o.res.ok() {
                break;
            }
        }
        let o = s.step_via(msg.as_deref(), b64, &w);
        e.steps += 1;
        e.panics += usize::from(matches!(o.res, R::Panic(_)));
        msg = Some(o.bytes);
        match o.res {
            R::Running | R::FinYes => clients_turn = !clients_turn,
            R::FinNo => {
                let other = if clients_turn { &server } else { &client };
                if !other.alive() {
                    break;
                }
                if !clients_turn {
                    msg = None;
                }
                clients_turn = !clients_turn;
            }
            _ => break,
        }
        if l.lone {
            break;
        }
    }
    e.client_ok = client.fin.is_some();
    e.server_ok = server.fin.is_some();
    if l.take {
        drop(server.validation());
    }
    if l.layer {
        e.layer = client.has_layer() && server.has_layer();
        let o = client.encode(b"data through the layer", &WCfg::default());
        let o = server.decode(&o.bytes, &WCfg::default());
        let _ = server.encode(&o.bytes, &WCfg::default());
        let _ = client.decode(b"something else", &WCfg::default());
    }
    drop((client, server, kept, capp, sapp));
    forget_panic();
    gss::reset();
    Ok((e, weak))
}

/// Bytes this life left behind
fn weigh(l: &Life) -> Res<(isize, Ended)> {
    let before = live();
    let (e, weak) = live_it(l)?;
    for (w, who) in weak.iter().zip(["client", "server"]) {
        ensure!(
            w.strong_count() == 0,
            "application-kept",
            "the {who} application is still referred to after its sessions and its configuration are gone: {}",
            l.line()
        );
    }
    drop(weak);
    Ok((live() - before, e))
}

fn run(sim: &mut Sim) -> Res {
    let soak = sim.chance(1, 12);
    let n = if soak { 1 } else { sim.range(1, 5) as usize };
    let lives: Vec<Life> = (0..n).map(|_| Life::draw(sim)).collect();
    for l in &lives {
        sim.ev(format!("life: {}", l.line()));
    }
    for l in &lives {
        let (_, e) = weigh(&l.turned(0))?;
        note(sim, l, e);
    }
    for l in &lives {
        if !soak {
            // what is set up once per process, thread or mechanism has been set up by the first life
            let mut grew = true;
            for pass in 1..5 {
                grew &= weigh(&l.turned(pass))?.0 > 0;
            }
            if !grew {
                continue;
            }
        }
        sim.probe("soak");
        kept(l)?;
    }
    Ok(())
}

/// A store that is bounded, or a container that still has room, does not grow in every one of ever larger batches
fn kept(l: &Life) -> Res {
    let mut k = 100;
    let mut grown = Vec::new();
    for batch in [40, 80, 160, 320] {
        let mut total = 0;
        for _ in 0..batch {
            k += 1;
            total += weigh(&l.turned(k))?.0;
        }
        grown.push(total);
    }
    ensure!(
        grown[1..].iter().any(|b| *b <= 0),
        "memory-kept",
        "80, 160 and 320 further sessions of this kind leave {:?} bytes behind: {}",
        &grown[1..],
        l.line()
    );
    Ok(())
}

fn note(sim: &mut Sim, l: &Life, e: Ended) {
    sim.mark(&format!("{}{}{}{}{}", l.m.name(), e.steps, e.client_ok, e.server_ok, e.panics));
    sim.ev(format!(
        "  {} steps, client {}, server {}{}",
        e.steps,
        if e.client_ok { "finished" } else { "not finished" },
        if e.server_ok { "finished" } else { "not finished" },
        if e.panics > 0 { ", application crashed" } else { "" }
    ));
    if e.client_ok && e.server_ok {
        sim.probe("both_finished");
    }
    if e.panics > 0 {
        sim.probe("crashed_sessions_dropped");
    }
    if e.layer {
        sim.probe("layers_dropped");
    }
}
