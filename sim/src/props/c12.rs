//! Nonces: fresh, of full length, from the system's randomness, never good for a second exchange.
use super::*;
use crate::app::{App, Script};
use crate::ensure;
use crate::exch::{exchange, Opts, Who};
use crate::gen;
use crate::io::WCfg;
use crate::runner::in_process;
use crate::scram::{ClientFirst, ServerFirst};
use crate::sess::*;
use crate::sim::{Res, Sim, Violation};
use std::collections::HashSet;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C12",
    run,
    quick: 100_000,
    thorough: 3_000_000,
    hang_s: 60,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: &[
        "a panic of the random number generator when the system has no randomness counts as a failed session",
        "randomness kept in process-wide statics would be shared by the simulated processes of a run",
    ],
};

/// A world that can be taken into another simulated process
#[derive(Clone)]
struct World {
    m: Mech,
    client: Script,
    server: Script,
    cb: Vec<(String, Vec<u8>)>,
}
impl World {
    fn draw(sim: &mut Sim) -> World {
        let m = *sim.pick(SCRAM);
        let (client, server, cb) = gen::honest(sim, m);
        World { m, client, server, cb }
    }
    fn cfg(&self) -> (Arc<App>, Config) {
        let app = App::with_cb(self.m.plus());
        let cfg = Config::new(&app, &[self.m]);
        (app, cfg)
    }
    fn start(&self, cfg: &Config, who: Who, sid: u32) -> Res<Sess> {
        let app = &cfg.app;
        match who {
            Who::Client => {
                app.set(sid, self.client.clone());
                client_for(cfg, sid, self.m, self.cb.clone())
            }
            Who::Server => {
                app.set(sid, self.server.clone());
                server_for(cfg, sid, self.m, self.cb.clone())
            }
        }
    }
    /// A client's first message
    fn first(&self, user: &str, nonce: &str) -> Vec<u8> {
        let gs2 = if self.m.plus() { format!("p={}", self.cb[0].0) } else { "n".into() };
        format!("{gs2},,n={user},r={nonce}").into_bytes()
    }
}

fn bad(class: &'static str, msg: String) -> Violation {
    Violation { class: class.into(), msg }
}

/// The client's nonce of a fresh session
fn client_nonce(w: &World, cfg: &Config, sid: u32) -> Res<(Vec<u8>, R)> {
    let mut c = w.start(cfg, Who::Client, sid)?;
    let o = c.step(None, &WCfg::default());
    if !o.res.ok() {
        return Ok((o.bytes, o.res));
    }
    let f = ClientFirst::parse(&o.bytes)
        .map_err(|e| bad("message", format!("client sends \"{}\": {e:?}", show(&o.bytes))))?;
    Ok((f.nonce, o.res))
}

/// The part of the nonce the server adds, and the salt it announces
fn server_nonce(w: &World, cfg: &Config, sid: u32, first: &[u8]) -> Res<(Vec<u8>, Vec<u8>, R)> {
    let cn = ClientFirst::parse(first).expect("harness: own message").nonce;
    let mut s = w.start(cfg, Who::Server, sid)?;
    let o = s.step(Some(first), &WCfg::default());
    if !o.res.ok() {
        return Ok((o.bytes, Vec::new(), o.res));
    }
    let f = ServerFirst::parse(&o.bytes)
        .map_err(|e| bad("message", format!("server sends \"{}\": {e:?}", show(&o.bytes))))?;
    ensure!(
        f.nonce.starts_with(&cn),
        "not-extended",
        "server answers nonce \"{}\" with \"{}\"",
        show(&cn),
        show(&f.nonce)
    );
    Ok((f.nonce[cn.len()..].to_vec(), f.salt, o.res))
}

fn permitted(who: &str, n: &[u8]) -> Res {
    ensure!(n.len() >= 20, "short", "{who} contributes only \"{}\"", show(n));
    ensure!(
        n.iter().all(|b| (0x21..=0x7e).contains(b) && *b != b','),
        "characters",
        "{who} sends the nonce \"{}\"",
        show(n)
    );
    Ok(())
}

/// Values of one kind: every position varies, none follows another or its predecessor
fn varies(what: &str, all: &[Vec<u8>], min: usize) -> Res {
    let mut seen = HashSet::new();
    for n in all {
        ensure!(seen.insert(n), "repeated", "{what} \"{}\" appears twice within {} sessions", show(n), all.len());
    }
    // 8 characters in a row only come again if they were kept
    let mut parts: HashSet<&[u8]> = HashSet::new();
    for v in all {
        for part in v.windows(8) {
            ensure!(
                parts.insert(part),
                "repeated",
                "{what}: \"{}\" of \"{}\" appeared before within {} sessions",
                show(part),
                show(v),
                all.len()
            );
        }
    }
    let n = all.len();
    if n < 200 {
        return Ok(());
    }
    let len = all.iter().map(Vec::len).min().unwrap();
    for p in 0..len.min(64) {
        let mut count = [0usize; 256];
        for v in all {
            count[usize::from(v[p])] += 1;
        }
        let used = count.iter().filter(|c| **c > 0).count();
        let most = *count.iter().max().unwrap();
        ensure!(used >= min, "constant", "{what}: position {p} has {used} different values in {n} sessions");
        ensure!(
            most * 5 < n,
            "constant",
            "{what}: position {p} has the same value in {most} of {n} sessions"
        );
        let same = all.windows(2).filter(|w| w[0][p] == w[1][p]).count();
        ensure!(same * 4 < n, "repeated", "{what}: position {p} stays the same in {same} of {n} sessions");
        for q in 0..p {
            let same = all.iter().filter(|v| v[p] == v[q]).count();
            ensure!(
                same * 4 < n,
                "repeated",
                "{what}: positions {q} and {p} are equal in {same} of {n} sessions"
            );
        }
    }
    Ok(())
}

/// Many sessions in several processes and on several threads
fn collect(sim: &mut Sim) -> Res {
    let procs = sim.range(1, 4);
    let total = if sim.chance(1, 8) { 320 } else { sim.range(8, 48) };
    let per = (total / procs).max(1);
    let shared_user = sim.chance(1, 2);
    let worlds: Vec<World> = (0..sim.range(1, 3)).map(|_| World::draw(sim)).collect();
    let known = sim.chance(1, 2);
    // what an impatient client sends over and over
    let fixed = sim.chance(1, 2).then(|| crate::props::c02::nonce(sim));
    let mut cn = Vec::new();
    let mut sn = Vec::new();
    let mut salts = Vec::new();
    sim.mark(&format!("p{procs}k{known}"));
    let make = |w: &[World]| -> Vec<(Config, Config)> {
        w.iter().map(|w| (w.cfg().1, w.cfg().1)).collect()
    };
    // threads of one process share its configuration
    let threads = sim.chance(1, 3).then(|| make(&worlds));
    for p in 0..procs {
        if p > 0 && threads.is_some() {
            sim.probe("threads_share_configuration");
        } else if p > 0 {
            sim.fault("process_restart");
        }
        sim.advance(1_000_000);
        let e = sim.next_entropy();
        let reuse = sim.chance(1, 2);
        let plan: Vec<(usize, bool)> = (0..per).map(|_| (sim.usize(worlds.len()), sim.chance(1, 2))).collect();
        let (w, fixed, threads, make) = (&worlds, &fixed, &threads, &make);
        type Got = (Vec<Vec<u8>>, Vec<Vec<u8>>, Vec<Vec<u8>>);
        let r: Res<Got> = in_process(e, || {
            let mut out: Got = Default::default();
            let own;
            let cfgs = match threads {
                Some(t) => t,
                None => {
                    own = make(w);
                    &own
                }
            };
            for (i, (k, both)) in plan.iter().enumerate() {
                let sid = 10 + i as u32;
                let w = &w[*k];
                let own;
                let (cc, sc) = if reuse {
                    (&cfgs[*k].0, &cfgs[*k].1)
                } else {
                    own = (w.cfg().1, w.cfg().1);
                    (&own.0, &own.1)
                };
                let (n, res) = client_nonce(w, cc, sid)?;
                ensure!(res.ok(), "refused", "{} client with everything it needs: {}", w.m.name(), res.short());
                permitted("client", &n)?;
                let first = if let Some(f) = fixed {
                    f.clone()
                } else {
                    String::from_utf8_lossy(&n).into_owned()
                };
                out.0.push(n);
                if !both && !known {
                    continue;
                }
                let user = match (known, shared_user) {
                    (true, _) => w.server.users[0].0.replace('=', "=3D").replace(',', "=2C"),
                    (false, true) => "nobody-here".to_string(),
                    (false, false) => format!("nobody-{i}"),
                };
                let (n, salt, res) = server_nonce(w, sc, sid, &w.first(&user, &first))?;
                ensure!(res.ok(), "refused", "{} server: {}", w.m.name(), res.short());
                permitted("server", &n)?;
                out.1.push(n);
                if !known {
                    ensure!(
                        salt.len() >= 8,
                        "short",
                        "{}: the salt invented for an unknown user is \"{}\"",
                        w.m.name(),
                        show(&salt)
                    );
                    out.2.push(salt);
                }
            }
            Ok(out)
        });
        let (a, b, c) = r?;
        sim.ev(format!("process {p}: {} client nonces, {} server nonces, {} salts", a.len(), b.len(), c.len()));
        if let Some(n) = a.first() {
            sim.ev(format!("first \"{}\"", show(n)));
        }
        cn.extend(a);
        sn.extend(b);
        salts.extend(c);
    }
    let mut both = cn.clone();
    both.extend(sn.iter().cloned());
    if both.len() >= 200 {
        sim.probe("positions_looked_at");
    }
    varies("client nonce", &cn, 32)?;
    varies("server nonce", &sn, 32)?;
    varies("nonce", &both, 32)?;
    varies("invented salt", &salts, 64)?;
    Ok(())
}

/// The system has no randomness to give, from the start or later
fn starved(sim: &mut Sim) -> Res {
    let w = World::draw(sim);
    let who = if sim.chance(1, 2) { Who::Client } else { Who::Server };
    let unknown = sim.chance(1, 2);
    let e = sim.next_entropy();
    let before = sim.below(3);
    let at_step = sim.chance(1, 2);
    let recover = sim.chance(1, 2);
    sim.fault("entropy_failure");
    sim.mark(&format!("starved{who:?}{unknown}{before}"));
    let cn = crate::props::c02::nonce(sim);
    let w = &w;
    let r: Res<Vec<String>> = in_process(e, move || {
        let mut log = Vec::new();
        let mut seen = HashSet::new();
        let cfg = w.cfg().1;
        let user = if unknown {
            "nobody".to_string()
        } else {
            w.server.users[0].0.replace('=', "=3D").replace(',', "=2C")
        };
        let first = w.first(&user, &cn);
        let mut one = |sid: u32, starve: bool, log: &mut Vec<String>| -> Res<bool> {
            if starve && !at_step {
                getrandom::sim::set_fail(true);
            }
            let mut s = w.start(&cfg, who, sid)?;
            if starve {
                getrandom::sim::set_fail(true);
            }
            let had = getrandom::sim::bytes();
            let o = match who {
                Who::Client => s.step(None, &WCfg::default()),
                Who::Server => s.step(Some(&first), &WCfg::default()),
            };
            log.push(format!(
                "{} starved={starve} -> {} \"{}\" ({} bytes drawn)",
                who.name(),
                o.res.short(),
                show(&o.bytes),
                getrandom::sim::bytes() - had
            ));
            if !o.res.ok() {
                ensure!(
                    o.bytes.is_empty(),
                    "wrote",
                    "{} {} fails for want of randomness ({}) but wrote \"{}\"",
                    w.m.name(),
                    who.name(),
                    o.res.short(),
                    show(&o.bytes)
                );
                return Ok(false);
            }
            let n = match who {
                Who::Client => ClientFirst::parse(&o.bytes).map(|f| f.nonce),
                Who::Server => ServerFirst::parse(&o.bytes).map(|f| f.nonce[cn.len().min(f.nonce.len())..].to_vec()),
            }
            .map_err(|e| bad("message", format!("{} sends \"{}\": {e:?}", who.name(), show(&o.bytes))))?;
            permitted(who.name(), &n)?;
            ensure!(seen.insert(n.clone()), "repeated", "nonce \"{}\" sent twice", show(&n));
            Ok(true)
        };
        for i in 0..before {
            let ok = one(i + 1, false, &mut log)?;
            ensure!(ok, "refused", "{} fails although there is randomness: {log:?}", w.m.name());
        }
        let drawn = getrandom::sim::bytes();
        let ok = one(10, true, &mut log)?;
        ensure!(
            !ok || before > 0 && drawn >= 16,
            "predictable",
            "{} {} sends a nonce although the system never supplied enough randomness ({drawn} bytes): {}",
            w.m.name(),
            who.name(),
            log.join("; ")
        );
        for i in 0..3 {
            if recover {
                getrandom::sim::set_fail(false);
            }
            let ok = one(20 + i, !recover, &mut log)?;
            ensure!(
                !ok || recover || drawn >= 16,
                "predictable",
                "{} {} sends a nonce although the system never supplied enough randomness: {}",
                w.m.name(),
                who.name(),
                log.join("; ")
            );
        }
        Ok(log)
    });
    for l in r? {
        sim.ev(l);
    }
    Ok(())
}

/// What is sent is a function of the system's randomness, and of enough of it
fn source(sim: &mut Sim) -> Res {
    let w = World::draw(sim);
    let who = if sim.chance(1, 2) { Who::Client } else { Who::Server };
    let (e, e2) = (sim.next_entropy(), sim.next_entropy());
    let cn = crate::props::c02::nonce(sim);
    sim.mark(&format!("source{who:?}"));
    let w = &w;
    let cn = &cn;
    let go = |e: u64, wait: bool| -> Res<(Vec<u8>, u64)> {
        in_process(e, move || {
            if wait {
                std::thread::sleep(std::time::Duration::from_millis(2));
            }
            let cfg = w.cfg().1;
            let n = match who {
                Who::Client => client_nonce(w, &cfg, 1)?.0,
                Who::Server => server_nonce(w, &cfg, 1, &w.first("nobody", cn))?.0,
            };
            Ok((n, getrandom::sim::bytes()))
        })
    };
    let (a, drawn) = go(e, false)?;
    sim.fault("process_restart");
    let (b, _) = go(e2, false)?;
    sim.fault("process_restart");
    let (c, _) = go(e, true)?;
    sim.ev(format!("{}: \"{}\", \"{}\", \"{}\" of {drawn} bytes", who.name(), show(&a), show(&b), show(&c)));
    ensure!(a != b, "repeated", "{} {}: different processes send the nonce \"{}\"", w.m.name(), who.name(), show(&a));
    ensure!(
        a == c,
        "not-from-system",
        "{} {}: the same randomness gives \"{}\" and \"{}\"",
        w.m.name(),
        who.name(),
        show(&a),
        show(&c)
    );
    ensure!(
        drawn >= 16,
        "weak-seed",
        "{} {}: a nonce made from {drawn} bytes of randomness",
        w.m.name(),
        who.name()
    );
    Ok(())
}

/// Recorded messages, played to other sessions of the same parties
fn replayed(sim: &mut Sim) -> Res {
    let w = World::draw(sim);
    let o = Opts::draw(sim);
    let e = sim.next_entropy();
    let one = sim.chance(1, 2);
    let (ca, cc) = w.cfg();
    let (_, sc) = w.cfg();
    let mut c = w.start(&cc, Who::Client, 1)?;
    let mut s = w.start(&sc, Who::Server, 2)?;
    let x = exchange(sim, &mut c, &mut s, &o)?;
    if !(x.client_ok() && x.server_ok()) {
        return Err(bad("refused", format!("honest {} exchange fails: {}", w.m.name(), x.summary())));
    }
    let _ = ca;
    let cm: Vec<Vec<u8>> = x.messages(Who::Client).into_iter().map(<[u8]>::to_vec).collect();
    let sm: Vec<Vec<u8>> = x.messages(Who::Server).into_iter().map(<[u8]>::to_vec).collect();
    let rounds = sim.range(1, 4);
    sim.mark(&format!("replay{}{}", one, rounds));
    for i in 0..rounds {
        let who = if sim.chance(1, 2) { Who::Client } else { Who::Server };
        let fresh = !one || sim.chance(1, 3);
        let msgs: Vec<Option<Vec<u8>>> = match who {
            // an attacker with the recording of the client
            Who::Server => cm.iter().cloned().map(Some).collect(),
            Who::Client => std::iter::once(None).chain(sm.iter().cloned().map(Some)).collect(),
        };
        // sometimes something of the fresh session is mixed in
        let adapt = sim.chance(1, 3);
        sim.fault("replayed_recording");
        let play = |w: &World, cfg: &Config, log: &mut Vec<String>| -> Res {
            let mut v = w.start(cfg, who, 50 + i)?;
            let mut last: Vec<u8> = Vec::new();
            for (k, m) in msgs.iter().enumerate() {
                if !v.alive() {
                    break;
                }
                let mut m = m.clone();
                if adapt {
                    m = m.map(|m| splice(who, &m, &last));
                }
                let r = v.step(m.as_deref(), &WCfg::default());
                log.push(format!("{} <- {} -> {} \"{}\"", who.name(), show_opt(m.as_deref()), r.res.short(), show(&r.bytes)));
                last = r.bytes;
                let val = v.validation();
                let won = match who {
                    Who::Client => r.res.finished(),
                    Who::Server => val.is_some(),
                };
                ensure!(
                    !won,
                    "replay-accepted",
                    "{} {} accepts a recorded exchange at message {k}: {}",
                    w.m.name(),
                    who.name(),
                    log.join("; ")
                );
            }
            Ok(())
        };
        let mut log = Vec::new();
        let r = if fresh {
            sim.fault("process_restart");
            let w = &w;
            let (r, l) = in_process(if sim.chance(1, 2) { e ^ u64::from(i) } else { sim.next_entropy() }, || {
                let cfg = w.cfg().1;
                let mut log = Vec::new();
                let r = play(w, &cfg, &mut log);
                (r, log)
            });
            log = l;
            r
        } else {
            play(&w, if who == Who::Client { &cc } else { &sc }, &mut log)
        };
        for l in log {
            sim.ev(l);
        }
        r?;
    }
    Ok(())
}

/// Put the nonce of the present exchange in the place of the recorded one
fn splice(who: Who, msg: &[u8], last: &[u8]) -> Vec<u8> {
    let fresh = match who {
        Who::Client => ClientFirst::parse(last).map(|f| f.nonce).ok(),
        Who::Server => ServerFirst::parse(last).map(|f| f.nonce).ok(),
    };
    let Some(fresh) = fresh else { return msg.to_vec() };
    let text = String::from_utf8_lossy(msg).into_owned();
    text.split(',')
        .map(|f| if f.starts_with("r=") { format!("r={}", String::from_utf8_lossy(&fresh)) } else { f.to_string() })
        .collect::<Vec<_>>()
        .join(",")
        .into_bytes()
}

/// So many sessions that values made from a few random bits meet again
fn mass(sim: &mut Sim) -> Res {
    const MANY: usize = 150_000;
    let mut w = World::draw(sim);
    // short values, this is about the nonce
    w.client.authid = Some("a".into());
    let server = sim.chance(1, 2);
    let e = sim.next_entropy();
    sim.probe("very_many_sessions");
    sim.mark(&format!("mass{server}"));
    let w = &w;
    let r: Res<(Vec<Vec<u8>>, Vec<Vec<u8>>)> = in_process(e, move || {
        let cfg = w.cfg().1;
        let mut salts = Vec::new();
        let first = w.first("nobody", "abc");
        let mut all = Vec::with_capacity(MANY);
        for _ in 0..MANY {
            let (n, res) = if server {
                let (n, salt, res) = server_nonce(w, &cfg, 1, &first)?;
                salts.push(salt);
                (n, res)
            } else {
                client_nonce(w, &cfg, 1)?
            };
            ensure!(res.ok(), "refused", "{}: {}", w.m.name(), res.short());
            all.push(n);
        }
        Ok((all, salts))
    });
    let (all, salts) = r?;
    sim.ev(format!("{} nonces, the last \"{}\"", all.len(), show(&all[all.len() - 1])));
    let mut seen = HashSet::with_capacity(all.len());
    for n in &all {
        ensure!(seen.insert(n), "repeated", "nonce \"{}\" appears twice within {} sessions", show(n), all.len());
    }
    let mut seen = HashSet::with_capacity(salts.len());
    for n in &salts {
        ensure!(seen.insert(n), "repeated", "invented salt \"{}\" appears twice within {} sessions", show(n), salts.len());
    }
    Ok(())
}

fn run(sim: &mut Sim) -> Res {
    if sim.below(20_000) == 19_999 {
        return mass(sim);
    }
    match sim.weighted(&[6, 3, 2, 5]) {
        0 => collect(sim),
        1 => starved(sim),
        2 => source(sim),
        _ => replayed(sim),
    }
}
