//! Every SCRAM key source is equivalent; keys are cached only once proven and stay good across crashes and rotations.
use super::*;
use crate::adv::{cap_iterations, mutate, Corpus};
use crate::app::{App, AppEv, Cached, Hit, Script, Stored, View};
use crate::ensure;
use crate::exch::{exchange, Opts, Who};
use crate::gen;
use crate::io::WCfg;
use crate::scram::{
    auth_message, b64, hash, hmac, judge, lenient_server_first, size, unb64_lenient, xor, ClientFinal, ClientFirst, Keys,
    ServerFirst, ServerView, Verdict,
};
use crate::sess::*;
use crate::sim::{Res, Sim, Violation};
use std::collections::BTreeMap;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C17",
    run,
    quick: 120_000,
    thorough: 2_000_000,
    hang_s: 60,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: &[
        "the application looks its cache up by the announced salt and iteration count, as documented, unless the run has it offer foreign keys",
        "what the application's callback does with the keys it is handed is ignored by the client",
    ],
};

fn bad(class: &'static str, msg: String) -> Violation {
    Violation { class: class.into(), msg }
}

fn run(sim: &mut Sim) -> Res {
    match sim.weighted(&[3, 2, 1]) {
        0 => history(sim),
        1 => sources(sim),
        _ => unusable(sim),
    }
}

/// Keys a client has to use, by what its application supplies
enum Source {
    Keys(Vec<u8>, Vec<u8>),
    Unusable,
    Nothing,
}

fn source(h: Hash, s: &Script, salt: &[u8], iter: u32) -> Source {
    let hit = s.cached.iter().find(|c| c.params.as_ref().is_none_or(|(a, i)| a == salt && *i == iter));
    if let Some(c) = hit {
        if c.client_key.len() != size(h) || c.server_key.len() != size(h) {
            return Source::Unusable;
        }
        return Source::Keys(c.client_key.clone(), c.server_key.clone());
    }
    let k = match (&s.salted, &s.password) {
        (Some(x), _) if !x.is_empty() => Keys::from_salted(h, x.clone()),
        (_, Some(p)) => Keys::derive(h, p, salt, iter),
        _ => return Source::Nothing,
    };
    Source::Keys(k.client, k.server)
}

// ---------------------------------------------------------------- equivalence of the sources

#[derive(Clone, Debug, PartialEq, Eq)]
struct Told {
    /// (who, message, result)
    steps: Vec<(Who, Vec<u8>, String)>,
    cached: Vec<(Vec<u8>, Vec<u8>, Option<Vec<u8>>, Option<u32>)>,
    validated: Vec<View>,
    client_ok: bool,
    server_ok: bool,
    panic: Option<String>,
}

fn acts(log: &[AppEv]) -> Vec<(Vec<u8>, Vec<u8>, Option<Vec<u8>>, Option<u32>)> {
    log.iter()
        .filter_map(|e| match e {
            AppEv::Act { prop: "ScramCachedPassword", keys: Some(k), ctx, .. } => {
                Some((k.0.clone(), k.1.clone(), ctx.salt.clone(), ctx.iterations))
            }
            _ => None,
        })
        .collect()
}

fn tell(sim: &mut Sim, what: &str, m: Mech, c: &Script, s: &Script, cb: &[(String, Vec<u8>)], entropy: u64) -> Res<Told> {
    let (capp, sapp) = (App::with_cb(m.plus()), App::with_cb(m.plus()));
    let (ccfg, scfg) = (Config::new(&capp, &[m]), Config::new(&sapp, &[m]));
    capp.set(1, c.clone());
    sapp.set(2, s.clone());
    let mut cl = client_for(&ccfg, 1, m, cb.to_vec())?;
    let mut sv = server_for(&scfg, 2, m, cb.to_vec())?;
    cl.entropy = Some(entropy);
    sv.entropy = Some(entropy);
    sim.ev(format!("-- {} with {what}", m.name()));
    let x = exchange(sim, &mut cl, &mut sv, &Opts::default())?;
    Ok(Told {
        steps: x.steps.iter().map(|r| (r.who, r.bytes.clone(), r.res.label())).collect(),
        cached: acts(&capp.log(1)),
        validated: sapp.validations(2),
        client_ok: x.client_ok(),
        server_ok: x.server_ok(),
        panic: x.panicked().map(|r| r.res.short()),
    })
}

/// Someone with an account, on both ends
struct Fixture {
    m: Mech,
    h: Hash,
    c: Script,
    s: Script,
    cb: Vec<(String, Vec<u8>)>,
    pw: Vec<u8>,
    keys: Keys,
    rec: Stored,
}
fn fixture(sim: &mut Sim) -> Fixture {
    let m = *sim.pick(SCRAM);
    let h = m.hash().unwrap();
    let (mut c, mut s, cb) = gen::honest(sim, m);
    let pw = gen::password(sim);
    let (rec, keys) = gen::record(sim, h, &pw);
    s.users[0].1 = rec.clone();
    c.password = None;
    Fixture { m, h, c, s, cb, pw, keys, rec }
}

fn cached_as(f: &Fixture, own: bool) -> Cached {
    Cached {
        params: own.then(|| (f.rec.salt.clone(), f.rec.iter)),
        client_key: f.keys.client.clone(),
        server_key: f.keys.server.clone(),
    }
}

fn sources(sim: &mut Sim) -> Res {
    let mut f = fixture(sim);
    let entropy = sim.next_entropy();
    let deep = sim.chance(1, 8);
    if deep {
        // nobody computes that, everyone has the results
        let (salt, iter) = (f.rec.salt.clone(), gen::deep(sim));
        f.keys = Keys::derive(f.h, &f.pw, &salt, iter);
        f.rec = f.keys.record(&salt, iter);
        f.s.users[0].1 = f.rec.clone();
        sim.probe("deep_iterations");
    }
    let base = if deep {
        Script { salted: Some(f.keys.salted.clone()), ..f.c.clone() }
    } else {
        Script { password: Some(f.pw.clone()), ..f.c.clone() }
    };
    let want = tell(sim, if deep { "the salted password" } else { "the password" }, f.m, &base, &f.s, &f.cb, entropy)?;
    ensure!(
        want.client_ok && want.server_ok,
        "refused",
        "{}: password \"{}\", salt \"{}\", {} iterations: {:?}",
        f.m.name(),
        show(&f.pw),
        show(&f.rec.salt),
        f.rec.iter,
        want.steps.last()
    );
    handed(&f, &want, "the password")?;
    let wrong = b"not the password".to_vec();
    for _ in 0..sim.range(2, 5) {
        let (what, c) = match sim.below(8) {
            0 => ("the salted password", Script { salted: Some(f.keys.salted.clone()), ..f.c.clone() }),
            1 => ("cached keys", Script { cached: vec![cached_as(&f, true)], ..f.c.clone() }),
            2 => ("cached keys for anything", Script { cached: vec![cached_as(&f, false)], ..f.c.clone() }),
            3 => (
                "cached keys and outdated others",
                Script {
                    cached: vec![cached_as(&f, true)],
                    salted: Some(b"outdated".to_vec()),
                    password: Some(wrong.clone()),
                    ..f.c.clone()
                },
            ),
            4 => (
                "the salted password and an outdated one",
                Script { salted: Some(f.keys.salted.clone()), password: Some(wrong.clone()), ..f.c.clone() },
            ),
            5 => (
                "the password, keys for another salt, no salted password",
                Script {
                    cached: vec![Cached {
                        params: Some((b"another salt".to_vec(), f.rec.iter)),
                        client_key: vec![1; size(f.h)],
                        server_key: vec![2; size(f.h)],
                    }],
                    salted: if deep { base.salted.clone() } else { sim.chance(1, 2).then(Vec::new) },
                    ..base.clone()
                },
            ),
            6 => (
                "the password, keys for another iteration count",
                Script {
                    cached: vec![Cached {
                        params: Some((f.rec.salt.clone(), f.rec.iter ^ 1)),
                        client_key: vec![1; size(f.h)],
                        server_key: vec![2; size(f.h)],
                    }],
                    ..base.clone()
                },
            ),
            _ => (
                "everything",
                Script { cached: vec![cached_as(&f, true)], salted: Some(f.keys.salted.clone()), ..base.clone() },
            ),
        };
        sim.fault("other_key_source");
        let got = tell(sim, what, f.m, &c, &f.s, &f.cb, entropy)?;
        sim.probe("sources_compared");
        ensure!(
            got == want,
            "differs",
            "{}: with {what} the exchange goes {:?} {:?}, with the password {:?} {:?}",
            f.m.name(),
            brief(&got),
            got.cached,
            brief(&want),
            want.cached
        );
    }
    Ok(())
}

fn brief(t: &Told) -> Vec<String> {
    t.steps.iter().map(|(w, b, r)| format!("{} \"{}\" {r}", w.name(), show(b))).collect()
}

fn handed(f: &Fixture, t: &Told, what: &str) -> Res {
    let want = vec![(f.keys.client.clone(), f.keys.server.clone(), Some(f.rec.salt.clone()), Some(f.rec.iter))];
    ensure!(
        t.cached == want,
        "cached",
        "{}: after success with {what} the application is handed {:?} instead of {:?}",
        f.m.name(),
        t.cached,
        want
    );
    Ok(())
}

// ---------------------------------------------------------------- unusable keys

fn resized(sim: &mut Sim, k: &[u8]) -> Vec<u8> {
    let mut k = k.to_vec();
    match sim.below(6) {
        0 => k.clear(),
        1 => {
            k.pop();
        }
        2 => k.push(0),
        3 => {
            let n = *sim.pick(&[20, 32, 64, 1, 128]);
            if n == k.len() {
                k.push(7);
            } else {
                k.resize(n, 0);
            }
        }
        4 => {
            let o = k.clone();
            k.extend_from_slice(&o);
        }
        _ if k.is_empty() => k.push(1),
        _ => {
            k.remove(0);
        }
    }
    k
}

/// Same size, other content
fn altered(sim: &mut Sim, k: &[u8]) -> Vec<u8> {
    let mut k = k.to_vec();
    match sim.below(4) {
        0 => {
            let i = sim.usize(k.len());
            k[i] ^= 1 << sim.below(8);
        }
        1 => {
            // only one end is wrong
            let i = if sim.chance(1, 2) { 0 } else { k.len() - 1 };
            k[i] = k[i].wrapping_add(1);
        }
        2 => {
            let n = k.len() / 2;
            for b in &mut k[n..] {
                *b = !*b;
            }
        }
        _ => {
            for b in &mut k {
                *b = 0;
            }
            k[0] = 1;
        }
    }
    k
}

fn unusable(sim: &mut Sim) -> Res {
    let f = fixture(sim);
    let entropy = sim.next_entropy();
    let mut c = f.c.clone();
    let mut s = f.s.clone();
    let mut k = cached_as(&f, sim.chance(1, 2));
    // whatever comes later in the order must not save the exchange
    if sim.chance(1, 2) {
        c.password = Some(f.pw.clone());
    }
    if sim.chance(1, 2) {
        c.salted = Some(f.keys.salted.clone());
    }
    let mut server_accepts = false;
    let what = match sim.below(11) {
        9 | 10 => {
            // nothing else to fall back to
            c.cached.clear();
            c.password = None;
            let bad = if sim.chance(1, 2) { resized(sim, &f.keys.salted) } else { altered(sim, &f.keys.salted) };
            // as a key of an HMAC, what is padded with zeros is the same
            if Keys::from_salted(f.h, bad.clone()).client == f.keys.client {
                return Ok(());
            }
            // an empty one counts as not given
            if !bad.is_empty() && sim.chance(1, 2) {
                c.password = Some(f.pw.clone());
            }
            c.salted = Some(bad);
            "another salted password"
        }
        0 => {
            k.client_key = resized(sim, &k.client_key);
            "a client key of the wrong size"
        }
        1 => {
            k.server_key = resized(sim, &k.server_key);
            "a server key of the wrong size"
        }
        2 => {
            k.client_key = altered(sim, &k.client_key);
            "another client key"
        }
        3 => {
            k.server_key = altered(sim, &k.server_key);
            server_accepts = true;
            "another server key"
        }
        4 => {
            let o = Keys::derive(f.h, &f.pw, &[&f.rec.salt[..], b"x"].concat(), f.rec.iter);
            k.client_key = o.client;
            k.server_key = o.server;
            "keys for another salt"
        }
        5 => {
            let o = Keys::derive(f.h, &f.pw, &f.rec.salt, f.rec.iter + 1);
            k.client_key = o.client;
            k.server_key = o.server;
            "keys for another iteration count"
        }
        6 => {
            let o = Keys::derive(f.h, &[&f.pw[..], b"1"].concat(), &f.rec.salt, f.rec.iter);
            k.client_key = o.client;
            k.server_key = o.server;
            "keys of another password"
        }
        7 => {
            k.client_key = f.keys.stored.clone();
            "the stored key for the client key"
        }
        _ => {
            // the server's own records
            c.cached.clear();
            c.salted = None;
            c.password = Some(f.pw.clone());
            let r = &mut s.users[0].1;
            if sim.chance(1, 2) {
                r.stored_key = resized(sim, &r.stored_key);
                "a stored key of the wrong size at the server"
            } else {
                r.server_key = resized(sim, &r.server_key);
                "a server key of the wrong size at the server"
            }
        }
    };
    let at_client = !what.ends_with("at the server");
    if at_client && what != "another salted password" {
        c.cached = vec![k];
    }
    sim.fault("unusable_keys");
    let t = tell(sim, what, f.m, &c, &s, &f.cb, entropy)?;
    if let Some(p) = &t.panic {
        return Err(bad("panic", format!("{}: {what}: {p}", f.m.name())));
    }
    ensure!(!t.client_ok, "accepted", "{}: the client succeeds with {what}: {:?}", f.m.name(), brief(&t));
    ensure!(
        !t.server_ok || server_accepts,
        "accepted",
        "{}: the server succeeds with {what}: {:?}",
        f.m.name(),
        brief(&t)
    );
    ensure!(
        t.cached.is_empty(),
        "cached-unproven",
        "{}: keys are cached although the exchange with {what} failed: {:?}",
        f.m.name(),
        brief(&t)
    );
    sim.probe("unusable_refused");
    Ok(())
}

// ---------------------------------------------------------------- histories

struct Account {
    user: String,
    m: Mech,
    pw: Vec<u8>,
    rec: Stored,
    /// Intact: what the server's store holds follows from `pw`
    intact: bool,
    // the client's durable state
    known: Vec<u8>,
    cache: Vec<Cached>,
    salted: Option<Vec<u8>>,
    /// Every parameter set the keys of which were proven, and the keys
    proven: BTreeMap<(Vec<u8>, u32), (Vec<u8>, Vec<u8>)>,
}

struct Conn {
    acc: usize,
    sid: u32,
    script: Script,
    client: Option<Sess>,
    server: Option<Sess>,
    turn: Who,
    wire: Option<Vec<u8>>,
    cstage: u32,
    sstage: u32,
    /// As the client has them
    cf: Vec<u8>,
    sf: Vec<u8>,
    fin: Vec<u8>,
    used: Option<(Vec<u8>, Vec<u8>)>,
    announced: Option<(Vec<u8>, u32)>,
    /// As the server has them
    scf: Vec<u8>,
    ssf: Vec<u8>,
    rec: Option<Stored>,
    tampered: bool,
    done: bool,
    client_ok: bool,
    server_ok: bool,
}

struct World {
    accounts: Vec<Account>,
    /// Configurations by process: (client, server) for every mechanism
    client: BTreeMap<Mech, Config>,
    server: BTreeMap<Mech, Config>,
    cb: Vec<(String, Vec<u8>)>,
    conns: Vec<Conn>,
    corpus: Corpus,
    sid: u32,
}

fn cfg(m: Mech, map: &mut BTreeMap<Mech, Config>) -> Config {
    map.entry(m)
        .or_insert_with(|| {
            let app: Arc<App> = App::with_cb(m.plus());
            Config::new(&app, &[m])
        })
        .clone()
}

fn new_record(sim: &mut Sim, a: &mut Account) {
    let h = a.m.hash().unwrap();
    let (rec, _) = gen::record(sim, h, &a.pw);
    a.rec = Stored { iter: rec.iter.min(64), ..rec };
    let k = Keys::derive(h, &a.pw, &a.rec.salt, a.rec.iter);
    a.rec = k.record(&a.rec.salt.clone(), a.rec.iter);
    a.intact = true;
}

fn history(sim: &mut Sim) -> Res {
    let mut w = World {
        accounts: Vec::new(),
        client: BTreeMap::new(),
        server: BTreeMap::new(),
        cb: vec![("tls-exporter".into(), gen::cbdata(sim))],
        conns: Vec::new(),
        corpus: Corpus::default(),
        sid: 0,
    };
    let m0 = *sim.pick(SCRAM);
    for i in 0..sim.range(1, 3) {
        let m = if sim.chance(2, 3) { m0 } else { *sim.pick(SCRAM) };
        let pw = if i > 0 && sim.chance(1, 2) { w.accounts[0].pw.clone() } else { gen::password(sim) };
        let mut a = Account {
            user: format!("{}{i}", gen::plain_name(sim)),
            m,
            known: pw.clone(),
            pw,
            rec: Stored { iter: 1, salt: Vec::new(), stored_key: Vec::new(), server_key: Vec::new() },
            intact: true,
            cache: Vec::new(),
            salted: None,
            proven: BTreeMap::new(),
        };
        new_record(sim, &mut a);
        if i > 0 && sim.chance(1, 3) {
            // same salt and count as the other account
            let (s, n) = (w.accounts[0].rec.salt.clone(), w.accounts[0].rec.iter);
            a.rec = Keys::derive(m.hash().unwrap(), &a.pw, &s, n).record(&s, n);
        }
        w.accounts.push(a);
    }
    let events = sim.range(12, if sim.thorough { 120 } else { 60 });
    for _ in 0..events {
        let live: Vec<usize> = (0..w.conns.len()).filter(|i| !w.conns[*i].done).collect();
        match sim.weighted(&[24, 6, 1, 1, 1, 1, 2]) {
            0 if !live.is_empty() => {
                let i = *sim.pick(&live);
                turn(sim, &mut w, i, true)?;
            }
            0 | 1 => {
                if live.len() < 3 {
                    let acc = sim.usize(w.accounts.len());
                    let how = sim.weighted(&[4, 2, 2, 2, 1, 1, 1]);
                    open(sim, &mut w, acc, how, true)?;
                }
            }
            2 => {
                sim.fault("client_crash");
                sim.ev("the client crashes and restarts");
                w.client.clear();
                for c in &mut w.conns {
                    c.client = None;
                }
            }
            3 => {
                sim.fault("server_crash");
                sim.ev("the server crashes and restarts");
                w.server.clear();
                for c in &mut w.conns {
                    c.server = None;
                }
            }
            4 => {
                let a = sim.usize(w.accounts.len());
                rotate(sim, &mut w, a);
            }
            5 => {
                let a = sim.usize(w.accounts.len());
                spoil(sim, &mut w, a);
            }
            _ => {
                // a connection breaks
                if !live.is_empty() {
                    let i = *sim.pick(&live);
                    sim.fault("connection_lost");
                    sim.ev(format!("connection {} breaks", w.conns[i].sid));
                    w.conns[i].done = true;
                }
            }
        }
    }
    // the faults stop: every account works again, from every source, across another restart
    for acc in 0..w.accounts.len() {
        {
            let a = &mut w.accounts[acc];
            if !a.intact {
                new_record(sim, a);
                sim.ev(format!("the record of {:?} is restored", a.user));
            }
            a.known = a.pw.clone();
            let p = (a.rec.salt.clone(), a.rec.iter);
            // what doesn't work with these parameters was noticed and dropped
            let k = Keys::derive(a.m.hash().unwrap(), &a.pw, &p.0, p.1);
            a.cache.retain(|c| c.params.as_ref() == Some(&p) && c.client_key == k.client && c.server_key == k.server);
            a.salted = Some(k.salted);
        }
        for how in [1, 4, 3, 0] {
            let i = open(sim, &mut w, acc, how, false)?;
            for _ in 0..8 {
                if w.conns[i].done {
                    break;
                }
                turn(sim, &mut w, i, false)?;
            }
            let c = &w.conns[i];
            ensure!(
                c.client_ok && c.server_ok,
                "no-recovery",
                "{} account {:?}, key source {how}: no success after the faults stopped (client {}, server {})",
                w.accounts[acc].m.name(),
                w.accounts[acc].user,
                c.client_ok,
                c.server_ok
            );
            sim.probe("recovered");
            if sim.chance(1, 2) {
                w.client.clear();
                w.server.clear();
            }
        }
    }
    Ok(())
}

fn rotate(sim: &mut Sim, w: &mut World, acc: usize) {
    let other = sim.usize(w.accounts.len());
    let foreign = (w.accounts[other].rec.clone(), w.accounts[other].m);
    let a = &mut w.accounts[acc];
    match sim.below(5) {
        0 => {
            new_record(sim, a);
            sim.fault("credential_rotation");
        }
        1 => {
            // same parameters, new password
            a.pw = gen::password(sim);
            let (s, i) = (a.rec.salt.clone(), a.rec.iter);
            a.rec = Keys::derive(a.m.hash().unwrap(), &a.pw, &s, i).record(&s, i);
            a.intact = true;
            if sim.chance(1, 2) {
                a.known = a.pw.clone();
            }
            sim.fault("password_change");
        }
        2 => {
            // same salt, other count
            let (s, i) = (a.rec.salt.clone(), 1 + a.rec.iter % 7);
            a.rec = Keys::derive(a.m.hash().unwrap(), &a.pw, &s, i).record(&s, i);
            a.intact = true;
            sim.fault("credential_rotation");
        }
        3 => {
            // the store is damaged
            match sim.below(4) {
                0 => a.rec.stored_key = resized(sim, &a.rec.stored_key.clone()),
                1 => a.rec.server_key = resized(sim, &a.rec.server_key.clone()),
                2 if !a.rec.stored_key.is_empty() => a.rec.stored_key = altered(sim, &a.rec.stored_key.clone()),
                _ if !a.rec.server_key.is_empty() => a.rec.server_key = altered(sim, &a.rec.server_key.clone()),
                _ => {}
            }
            a.intact = false;
            sim.fault("damaged_record");
        }
        _ => {
            // someone else's record under this name
            a.rec = foreign.0;
            a.intact = foreign.1.hash() == a.m.hash() && {
                let k = Keys::derive(a.m.hash().unwrap(), &a.pw, &a.rec.salt, a.rec.iter);
                a.rec.stored_key == k.stored && a.rec.server_key == k.server
            };
            sim.fault("swapped_record");
        }
    }
    let a = &w.accounts[acc];
    sim.ev(format!("the server's record of {:?} changes: salt \"{}\", {} iterations, intact {}", a.user, show(&a.rec.salt), a.rec.iter, a.intact));
}

fn spoil(sim: &mut Sim, w: &mut World, acc: usize) {
    let other = sim.usize(w.accounts.len());
    let foreign = w.accounts[other].cache.clone();
    let a = &mut w.accounts[acc];
    let h = a.m.hash().unwrap();
    let n = a.cache.len();
    match sim.below(7) {
        0 if n > 0 => {
            let i = sim.usize(n);
            a.cache[i].client_key = resized(sim, &[a.cache[i].client_key.as_slice(), b"x"].concat());
        }
        1 if n > 0 => {
            let i = sim.usize(n);
            a.cache[i].server_key = altered(sim, &[a.cache[i].server_key.as_slice(), b"x"].concat());
            a.cache[i].server_key.pop();
        }
        2 if n > 0 => {
            let i = sim.usize(n);
            let c = &mut a.cache[i];
            std::mem::swap(&mut c.client_key, &mut c.server_key);
        }
        3 if n > 0 => {
            // looked up by nothing at all
            let i = sim.usize(n);
            a.cache[i].params = None;
        }
        4 => a.cache.extend(foreign),
        5 => {
            // derived for other parameters
            let k = Keys::derive(h, &a.known, b"elsewhere", 3);
            a.cache.insert(
                0,
                Cached { params: Some((a.rec.salt.clone(), a.rec.iter)), client_key: k.client, server_key: k.server },
            );
        }
        _ => a.cache.clear(),
    }
    a.cache.truncate(6);
    sim.fault("damaged_cache");
    sim.ev(format!("the client's cache for {:?} is damaged", a.user));
}

/// `how`: which sources the application has: 0 cache and password, 1 password, 2 cache and salted password, 3 salted password,
/// 4 cache, 5 all, 6 an old password
fn open(sim: &mut Sim, w: &mut World, acc: usize, how: usize, faults: bool) -> Res<usize> {
    w.sid += 2;
    let sid = w.sid;
    let a = &mut w.accounts[acc];
    let h = a.m.hash().unwrap();
    if faults && (a.salted.is_none() || sim.chance(1, 2)) {
        a.salted = Some(Keys::derive(h, &a.known, &a.rec.salt, a.rec.iter).salted);
    }
    let mut c = Script { authid: Some(a.user.clone()), ..Script::default() };
    if matches!(how, 2 | 3 | 5) {
        c.salted = a.salted.clone();
    }
    match how {
        0 | 1 | 5 => c.password = Some(a.known.clone()),
        6 => c.password = Some(b"an old password".to_vec()),
        _ => {}
    }
    let uses_cache = matches!(how, 0 | 2 | 4 | 5);
    if uses_cache {
        c.cached = a.cache.clone();
    }
    if faults {
        if sim.chance(1, 8) {
            c.refuse_actions = true;
        }
        if sim.chance(1, 12) {
            sim.fault("crash_in_callback");
            c.hits.push((sim.below(8), Hit::Panic));
        }
    }
    let m = a.m;
    let cb = if m.plus() { w.cb.clone() } else { Vec::new() };
    let (ccfg, scfg) = (cfg(m, &mut w.client), cfg(m, &mut w.server));
    ccfg.app.set(sid, c.clone());
    let client = client_for(&ccfg, sid, m, cb.clone())?;
    scfg.app.set(sid + 1, Script::default());
    let server = server_for(&scfg, sid + 1, m, cb)?;
    sim.ev(format!("connection {sid}: {} for {:?}, key source {how}", m.name(), w.accounts[acc].user));
    sim.mark(&format!("open{how}"));
    w.conns.push(Conn {
        acc,
        sid,
        script: c,
        client: Some(client),
        server: Some(server),
        turn: Who::Client,
        wire: None,
        cstage: 0,
        sstage: 0,
        cf: Vec::new(),
        sf: Vec::new(),
        fin: Vec::new(),
        used: None,
        announced: None,
        scf: Vec::new(),
        ssf: Vec::new(),
        rec: None,
        tampered: false,
        done: false,
        client_ok: false,
        server_ok: false,
    });
    Ok(w.conns.len() - 1)
}

fn turn(sim: &mut Sim, w: &mut World, i: usize, faults: bool) -> Res {
    if faults && w.conns[i].wire.is_some() && sim.chance(1, 12) {
        let m = w.conns[i].wire.clone().unwrap();
        let mut n = if sim.chance(1, 4) {
            sim.fault("replayed_message");
            w.corpus.any(sim).unwrap_or_default()
        } else {
            mutate(sim, &m, &w.corpus)
        };
        cap_iterations(&mut n, 300);
        if n != m {
            w.conns[i].tampered = true;
            w.conns[i].wire = Some(n);
        }
    }
    let failing = faults && sim.chance(1, 30);
    let wr = if failing {
        let at = sim.usize(40);
        WCfg::failing(sim, at)
    } else {
        WCfg::transparent(sim)
    };
    match w.conns[i].turn {
        Who::Client => client_turn(sim, w, i, &wr, failing),
        Who::Server => server_turn(sim, w, i, &wr, failing),
    }
}

fn client_turn(sim: &mut Sim, w: &mut World, i: usize, wr: &WCfg, failing: bool) -> Res {
    let World { accounts, conns, corpus, .. } = w;
    let c = &mut conns[i];
    let a = &mut accounts[c.acc];
    let h = a.m.hash().unwrap();
    let Some(s) = c.client.as_mut() else {
        c.done = true;
        return Ok(());
    };
    let sid = c.sid;
    // the application looks into its durable cache when asked
    if !c.script.cached.is_empty() {
        c.script.cached = a.cache.clone();
        let now = c.script.cached.clone();
        s.app.script(sid, |x| x.cached = now);
    }
    let input = c.wire.take();
    let n0 = s.app.log_len(sid);
    let o = s.step(input.as_deref(), wr);
    let log = s.app.log(sid)[n0..].to_vec();
    let crashed = s.app.hits(sid).iter().any(|(h, _)| *h == Hit::Panic) || {
        // an action is not answered, so it isn't among the hits
        matches!(&o.res, R::Panic(p) if p.starts_with("simulated crash of the application"))
    };
    sim.ev(format!("client#{sid}({}) -> {} \"{}\"", show_opt(input.as_deref()), o.res.short(), show(&o.bytes)));
    sim.mark(&format!("c{}{}", c.cstage, o.res.label()));
    let given = acts(&log);
    if let R::Panic(p) = &o.res {
        ensure!(crashed, "panic", "client#{sid}: {p}");
    }
    let disturbed = crashed || failing;
    let stage = c.cstage;
    c.cstage += 1;
    match stage {
        0 => {
            ensure!(given.is_empty(), "cached-unproven", "client#{sid}: keys are handed over by the first step");
            ensure!(o.res == R::Running || disturbed, "refused", "client#{sid} does not start: {}", o.res.short());
            c.cf = o.bytes.clone();
        }
        1 => {
            ensure!(
                given.is_empty(),
                "cached-unproven",
                "client#{sid}: keys are handed over before the server proved anything, on \"{}\"",
                show_opt(input.as_deref())
            );
            let sf = input.unwrap_or_default();
            c.sf = sf.clone();
            let params = lenient_server_first(&sf).ok().map(|(_, s, i)| (s, i));
            let src = params.as_ref().map(|(s, i)| source(h, &c.script, s, *i));
            c.announced = params;
            match (&o.res, src) {
                (R::Running, Some(Source::Keys(ck, sk))) => {
                    let cf = ClientFirst::parse(&c.cf).map_err(|e| bad("message", format!("client first: {e}")))?;
                    let f = ClientFinal::parse_any_nonce(&o.bytes)
                        .map_err(|e| bad("message", format!("client final \"{}\": {e}", show(&o.bytes))))?;
                    let am = auth_message(&cf.bare, &sf, &f.without_proof);
                    let proof = xor(&ck, &hmac(h, &hash(h, &[&ck]), &am));
                    ensure!(
                        f.proof == proof,
                        "wrong-keys",
                        "client#{sid}: the proof on \"{}\" is not made from the keys its application has for it (\"{}\")",
                        show(&sf),
                        show(&o.bytes)
                    );
                    c.fin = o.bytes.clone();
                    c.used = Some((ck, sk));
                    sim.probe("proof_checked");
                }
                (R::Running, Some(Source::Unusable)) => {
                    return Err(bad("accepted", format!("client#{sid} goes on with keys of the wrong size: \"{}\"", show(&o.bytes))));
                }
                (R::Running, _) => {
                    return Err(bad("accepted", format!("client#{sid} has no keys for \"{}\" and sends \"{}\"", show(&sf), show(&o.bytes))));
                }
                (_, Some(Source::Keys(..))) => {
                    ensure!(
                        disturbed || c.tampered,
                        "refused",
                        "client#{sid} has keys for \"{}\" but: {}",
                        show(&sf),
                        o.res.short()
                    );
                }
                _ => sim.probe("no_usable_keys"),
            }
        }
        _ => {
            let sfin = input.unwrap_or_default();
            let (ck, sk) = c.used.clone().expect("harness: a client in its third step has sent a proof");
            let cf = ClientFirst::parse(&c.cf).map_err(|e| bad("message", format!("client first: {e}")))?;
            let f = ClientFinal::parse_any_nonce(&c.fin).map_err(|e| bad("message", format!("client final: {e}")))?;
            let sig = hmac(h, &sk, &auth_message(&cf.bare, &c.sf, &f.without_proof));
            let exact = sfin == format!("v={}", b64(&sig)).into_bytes();
            // extensions may follow the verifier
            let v = sfin.strip_prefix(b"v=").and_then(|v| v.split(|b| *b == b',').next());
            let proven = exact || v.and_then(unb64_lenient) == Some(sig);
            ensure!(
                proven || (given.is_empty() && !o.res.ok()),
                "cached-unproven",
                "client#{sid}: the server proved nothing with \"{}\": {}, {} keys handed over",
                show(&sfin),
                o.res.short(),
                given.len()
            );
            let p = c.announced.clone().expect("harness: announced");
            for g in &given {
                ensure!(
                    g.0 == ck && g.1 == sk && g.2.as_ref() == Some(&p.0) && g.3 == Some(p.1),
                    "cached-wrong",
                    "client#{sid}: handed over for caching: client key {} server key {} salt {:?} iterations {:?}; used were {} and {} for {p:?}",
                    b64(&g.0),
                    b64(&g.1),
                    g.2,
                    g.3,
                    b64(&ck),
                    b64(&sk)
                );
            }
            if o.res.ok() {
                c.client_ok = true;
                let want = usize::from(!c.script.refuse_actions);
                ensure!(
                    given.len() == want,
                    "not-cached",
                    "client#{sid}: success, keys handed over {} times",
                    given.len()
                );
                sim.probe("client_success");
            } else {
                ensure!(!exact || disturbed, "refused", "client#{sid} refuses the right signature: {}", o.res.short());
            }
            for g in given {
                // durable before anything else happens
                a.cache.retain(|x| x.params.as_ref() != Some(&p));
                a.cache.push(Cached { params: Some(p.clone()), client_key: g.0.clone(), server_key: g.1.clone() });
                a.proven.insert(p.clone(), (g.0, g.1));
                sim.probe("keys_cached");
            }
        }
    }
    if o.res == R::Running {
        corpus.add(&o.bytes);
        c.wire = Some(o.bytes);
        c.turn = Who::Server;
    } else {
        c.done = true;
    }
    Ok(())
}

fn server_turn(sim: &mut Sim, w: &mut World, i: usize, wr: &WCfg, failing: bool) -> Res {
    let cb = w.cb.clone();
    let users: Vec<(Mech, String, Stored)> =
        w.accounts.iter().map(|a| (a.m, a.user.clone(), a.rec.clone())).collect();
    let World { accounts, conns, corpus, .. } = w;
    let c = &mut conns[i];
    let a = &accounts[c.acc];
    let h = a.m.hash().unwrap();
    let Some(s) = c.server.as_mut() else {
        c.done = true;
        return Ok(());
    };
    let sid = c.sid + 1;
    // the store as it is now
    let users: Vec<(String, Stored)> =
        users.into_iter().filter(|(m, _, _)| m.hash() == Some(h)).map(|(_, u, r)| (u, r)).collect();
    let now = users.clone();
    s.app.script(sid, |x| x.users = now);
    let input = c.wire.take().unwrap_or_default();
    let o = s.step(Some(&input), wr);
    let val = s.validation();
    sim.ev(format!("server#{sid}(\"{}\") -> {} \"{}\"", show(&input), o.res.short(), show(&o.bytes)));
    sim.mark(&format!("s{}{}", c.sstage, o.res.label()));
    if let R::Panic(p) = &o.res {
        return Err(bad("panic", format!("server#{sid}: {p}")));
    }
    let stage = c.sstage;
    c.sstage += 1;
    if stage == 0 {
        c.scf = input;
        c.ssf = o.bytes.clone();
        ensure!(val.is_none(), "accepted", "server#{sid} hands out a result after the first message");
        let who = ClientFirst::parse(&c.scf).ok().map(|f| f.user);
        c.rec = users.iter().find(|(u, _)| Some(u) == who.as_ref()).map(|(_, r)| r.clone());
        if let Some(r) = &c.rec {
            let usable = r.stored_key.len() == size(h) && r.server_key.len() == size(h);
            if o.res == R::Running {
                ensure!(usable, "accepted", "server#{sid} goes on with keys of the wrong size");
                let f = ServerFirst::parse(&o.bytes)
                    .map_err(|e| bad("message", format!("server#{sid} sends \"{}\": {e}", show(&o.bytes))))?;
                ensure!(
                    f.salt == r.salt && f.iter == r.iter,
                    "announced",
                    "server#{sid} announces \"{}\", its record says salt \"{}\", {} iterations",
                    show(&o.bytes),
                    show(&r.salt),
                    r.iter
                );
            } else {
                ensure!(
                    !usable || c.tampered || failing,
                    "refused",
                    "server#{sid} refuses \"{}\": {}",
                    show(&c.scf),
                    o.res.short()
                );
            }
        }
    } else {
        // only its own snapshot of the store counts
        let view_users: Vec<(String, Stored)> = match (&c.rec, ClientFirst::parse(&c.scf)) {
            (Some(r), Ok(f)) => vec![(f.user, r.clone())],
            (None, Ok(_)) => Vec::new(),
            // not by the grammar: by whatever reading, it's a user of the store
            (_, Err(_)) => users,
        };
        let v = ServerView { hash: h, plus: a.m.plus(), can_cb: a.m.plus(), cbdata: &cb, users: &view_users };
        let verdict = judge(&v, &c.scf, &c.ssf, &input);
        c.server_ok = o.res.ok() && val.is_some();
        match verdict {
            Verdict::Accept { signature, .. } => {
                ensure!(
                    c.server_ok || failing,
                    "refused",
                    "server#{sid} refuses a right proof \"{}\": {}",
                    show(&input),
                    o.res.short()
                );
                ensure!(
                    failing || o.bytes == format!("v={}", b64(&signature)).into_bytes(),
                    "signature",
                    "server#{sid} answers \"{}\"",
                    show(&o.bytes)
                );
                sim.probe("server_success");
            }
            Verdict::Either { .. } => {}
            Verdict::Reject(why) => {
                let odd = ClientFirst::parse(&c.scf).is_err();
                ensure!(
                    odd || val.is_none(),
                    "accepted",
                    "server#{sid} accepts although {why}: \"{}\"",
                    show(&input)
                );
                sim.probe("server_refusal");
            }
        }
    }
    match o.res {
        R::Running | R::FinYes => {
            corpus.add(&o.bytes);
            c.wire = Some(o.bytes);
            c.turn = Who::Client;
        }
        _ => c.done = true,
    }
    Ok(())
}
