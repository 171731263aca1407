//! SCRAM never discloses a reusable secret; errors and debug output contain neither password nor token.
use super::*;
use crate::adv::{cap_iterations, mutate, Corpus};
use crate::app::{App, Cached, Hit, OErr, Script, Stored, ValPolicy};
use crate::ensure;
use crate::exch::Who;
use crate::gen;
use crate::io::WCfg;
use crate::scram::{auth_message, b64, hash, hmac, lenient_server_first, xor, ClientFinal, ClientFirst, Keys};
use crate::sess::*;
use crate::sim::{Res, Sim, Violation};
use std::sync::{Arc, Mutex};

pub const PROP: Prop = Prop {
    id: "C18",
    run,
    quick: 180_000,
    thorough: 4_000_000,
    hang_s: 60,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: &[
        "a peer that knows the secret and sends it back may be quoted in the error about its message",
        "eight consecutive bytes of a secret (in a known encoding) count as disclosed, fewer do not, except where two runs with different secrets are compared",
    ],
};

fn bad(class: &'static str, msg: String) -> Violation {
    Violation { class: class.into(), msg }
}

fn run(sim: &mut Sim) -> Res {
    match sim.weighted(&[4, 5, 3]) {
        0 => twins(sim),
        1 => hostile(sim),
        _ => texts(sim),
    }
}

// ---------------------------------------------------------------- the search for secrets

struct Secrets {
    /// (name, encoding, window)
    needles: Vec<(&'static str, &'static str, Vec<u8>)>,
}

const W: usize = 8;

impl Secrets {
    fn new() -> Secrets {
        Secrets { needles: Vec::new() }
    }
    fn add(&mut self, name: &'static str, s: &[u8]) {
        if s.len() < W {
            return;
        }
        let mut at: Vec<usize> = (0..=s.len() - W).step_by(4).collect();
        at.push(s.len() - W);
        at.dedup();
        for i in at {
            let w = &s[i..i + W];
            let rev: Vec<u8> = w.iter().rev().copied().collect();
            let not: Vec<u8> = w.iter().map(|b| !b).collect();
            let hex: String = w.iter().map(|b| format!("{b:02x}")).collect();
            let list = w.iter().map(u8::to_string).collect::<Vec<_>>().join(", ");
            for (e, n) in [
                ("as it is", w.to_vec()),
                ("reversed", rev),
                ("inverted", not),
                ("hexadecimal", hex.clone().into_bytes()),
                ("hexadecimal", hex.to_uppercase().into_bytes()),
                ("as a list", list.into_bytes()),
                ("escaped", w.escape_ascii().to_string().into_bytes()),
                ("percent-encoded", w.iter().map(|b| format!("%{b:02X}")).collect::<String>().into_bytes()),
            ] {
                self.needles.push((name, e, n));
            }
        }
        // base64 at every alignment
        for off in 0..3 {
            let t = b64(&s[off.min(s.len())..]);
            let t = t.trim_end_matches('=');
            let n = t.len() - t.len() % 4;
            let mut i = 0;
            while i + 12 <= n {
                self.needles.push((name, "base64", t.as_bytes()[i..i + 12].to_vec()));
                let url = t[i..i + 12].replace('+', "-").replace('/', "_");
                if url != t[i..i + 12] {
                    self.needles.push((name, "base64", url.into_bytes()));
                }
                i += 4;
            }
        }
    }
    fn keys(&mut self, k: &Keys) {
        self.add("salted password", &k.salted);
        self.add("client key", &k.client);
        self.add("stored key", &k.stored);
        self.add("server key", &k.server);
    }
    fn find(&self, hay: &[u8]) -> Option<(&'static str, &'static str)> {
        if hay.is_empty() {
            return None;
        }
        let here = |hay: &[u8]| {
            let mut index = [false; 65536];
            for w in hay.windows(2) {
                index[usize::from(w[0]) << 8 | usize::from(w[1])] = true;
            }
            self.needles
                .iter()
                .find(|(_, _, n)| {
                    index[usize::from(n[0]) << 8 | usize::from(n[1])] && hay.windows(n.len()).any(|w| w == n.as_slice())
                })
                .map(|(a, b, _)| (*a, *b))
        };
        here(hay).or_else(|| {
            // whatever is base64 in there, seen as what it stands for
            hay.split(|b| !(b.is_ascii_alphanumeric() || matches!(b, b'+' | b'/')))
                .filter(|p| p.len() >= 8)
                .filter_map(|p| crate::scram::unb64_lenient(&p[..p.len() - usize::from(p.len() % 4 == 1)]))
                .find_map(|d| here(&d))
        })
    }
    fn none_in(&self, what: &str, hay: &[u8]) -> Res {
        if let Some((name, enc)) = self.find(hay) {
            return Err(bad("disclosed", format!("the {name} is found ({enc}) in {what}: \"{}\"", show(hay))));
        }
        Ok(())
    }
    /// Nothing in the bytes, nothing in the error
    fn step(&self, what: &str, o: &Out) -> Res {
        self.none_in(&format!("what {what} writes"), &o.bytes)?;
        self.text(what, o)
    }
    fn text(&self, what: &str, o: &Out) -> Res {
        match &o.res {
            R::Err(e) => self.none_in(&format!("the error of {what}"), e.text.as_bytes()),
            R::Panic(p) => self.none_in(&format!("the panic of {what}"), p.as_bytes()),
            _ => Ok(()),
        }
    }
}

/// Recognisable, and accepted everywhere
fn secret(sim: &mut Sim) -> Vec<u8> {
    let n = sim.range(12, 30);
    let mut p = b"Sq".to_vec();
    p.extend((0..n).map(|_| *sim.pick(b"abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789#$%&*+-./:;<>?@^_`~")));
    p
}

fn hits(sim: &mut Sim, s: &mut Script, n: u32) {
    if sim.chance(1, 5) {
        let h = *sim.pick(&[
            Hit::Decline,
            Hit::NoValue,
            Hit::NoCallback,
            Hit::Boxed,
            Hit::Io,
            Hit::ErrAfter,
            Hit::Twice,
            Hit::WrongTypes,
            Hit::Swallow,
        ]);
        let at = sim.below(n);
        s.hits.push((at, h));
        sim.fault("callback_misbehaves");
    }
}

fn writer(sim: &mut Sim) -> (WCfg, bool) {
    if sim.chance(1, 10) {
        let at = sim.usize(120);
        (WCfg::failing(sim, at), true)
    } else {
        (WCfg::transparent(sim), false)
    }
}

fn debug_of(cfg: &Config) -> Res<String> {
    guarded(|| format!("{0:?} {0:#?}", cfg.cfg)).map_err(|p| bad("panic", format!("formatting the configuration: {p}")))
}

// ---------------------------------------------------------------- SCRAM against anyone

/// Everything an attacker may come up with to a client, without knowing a secret
fn crafted(sim: &mut Sim, cnonce: &[u8], deep: bool) -> Vec<u8> {
    let salt = b64(&gen::salt(sim));
    let iter = if deep && sim.chance(1, 2) { gen::deep(sim) } else { 1 + sim.below(12) };
    let n = String::from_utf8_lossy(cnonce).into_owned();
    let cut = n.len() - 1;
    match sim.below(14) {
        0 => format!("r={n}evil,s={salt},i={iter}"),
        1 => format!("r={n},s={salt},i={iter}"),
        2 => format!("r={},s={salt},i={iter}", &n[..cut]),
        3 => format!("r={n}evil,i={iter}"),
        4 => format!("r={n}evil,s={salt}"),
        5 => format!("r={n}evil"),
        6 => format!("r={}evilevilevilevil,s={salt},i={iter}", &n[..n.len() / 2]),
        7 => format!("r=evil{n},s={salt},i={iter}"),
        8 => format!("s={salt},i={iter},r={n}evil"),
        9 => format!("r={n}evil,s={salt},i=0"),
        10 => format!("m=x,r={n}evil,s={salt},i={iter}"),
        11 => format!("r={}evil,s={salt},i={iter}", n.to_ascii_lowercase()),
        12 => format!("r={n}evil,s=,i={iter}"),
        _ => format!("r={n}evil,s={salt},i={iter},x=y"),
    }
    .into_bytes()
}

struct Known {
    gs2: Vec<u8>,
    first: ClientFirst,
    cb: Vec<u8>,
}

/// The client's message after the server's first must be exactly this
fn last_message(k: &Known, h: Hash, sf: &[u8], keys: &(Vec<u8>, Vec<u8>)) -> Vec<u8> {
    let (nonce, _, _) = lenient_server_first(sf).expect("harness: parsed before");
    let mut m = format!("c={},r=", b64(&[&k.gs2[..], &k.cb[..]].concat())).into_bytes();
    m.extend_from_slice(&nonce);
    let am = auth_message(&k.first.bare, sf, &m);
    let proof = xor(&keys.0, &hmac(h, &hash(h, &[&keys.0]), &am));
    m.extend_from_slice(format!(",p={}", b64(&proof)).as_bytes());
    m
}

fn hostile(sim: &mut Sim) -> Res {
    let m = *sim.pick(SCRAM);
    let h = m.hash().unwrap();
    let (mut c0, mut s0, cb) = gen::honest(sim, m);
    let pw = secret(sim);
    let (rec, keys) = gen::record(sim, h, &pw);
    let user = c0.authid.clone().unwrap_or_default();
    c0.password = None;
    s0.users[0].1 = rec.clone();
    let mut secrets = Secrets::new();
    secrets.add("password", &pw);
    secrets.keys(&keys);
    match sim.below(5) {
        0 => c0.salted = Some(keys.salted.clone()),
        1 => {
            c0.cached = vec![Cached {
                params: None,
                client_key: keys.client.clone(),
                server_key: keys.server.clone(),
            }];
        }
        2 => {
            // of the wrong size: an error about them must not quote them
            let cut = sim.range(9, 19) as usize;
            let mut k = Cached { params: None, client_key: keys.client.clone(), server_key: keys.server.clone() };
            if sim.chance(1, 2) {
                k.client_key.truncate(cut);
            } else {
                k.server_key.truncate(cut);
            }
            c0.cached = vec![k];
            sim.fault("unusable_keys");
        }
        _ => c0.password = Some(pw.clone()),
    }
    // who has no password never computes anything from it
    let deep = c0.password.is_none();
    match sim.below(8) {
        0 => {
            s0.users[0].1.stored_key.push(0);
            sim.fault("damaged_record");
        }
        1 => {
            s0.users[0].1.server_key.truncate(10);
            sim.fault("damaged_record");
        }
        2 => s0.users.clear(),
        3 => s0.validate = *sim.pick(&[ValPolicy::Decline, ValPolicy::Missing, ValPolicy::Boxed, ValPolicy::FinalizeThenErr]),
        _ => {}
    }
    let (capp, sapp) = (App::with_cb(m.plus()), App::with_cb(m.plus()));
    let (ccfg, scfg) = (Config::new(&capp, &[m]), Config::new(&sapp, &[m]));
    let mut corpus = Corpus::default();
    for round in 0..sim.range(1, 4) {
        let sid = round * 2 + 1;
        let mut c = c0.clone();
        let mut s = s0.clone();
        hits(sim, &mut c, 8);
        hits(sim, &mut s, 6);
        capp.set(sid, c.clone());
        sapp.set(sid + 1, s.clone());
        let mut cl = client_for(&ccfg, sid, m, cb.clone())?;
        let mut sv = server_for(&scfg, sid + 1, m, cb.clone())?;
        let mut wire: Option<Vec<u8>> = None;
        let mut turn = if sim.chance(1, 6) {
            // a client of its own
            sim.fault("hostile_client");
            let gs2 = if m.plus() { format!("p={}", cb[0].0) } else { "n".into() };
            wire = Some(format!("{gs2},,n={},r={}", crate::scram::escape(&user), c02_nonce(sim)).into_bytes());
            Who::Server
        } else {
            Who::Client
        };
        let own_client = turn == Who::Server;
        let mut known: Option<Known> = None;
        let mut cstage = 0;
        for _ in 0..6 {
            let input = wire.take();
            let (w, failing) = writer(sim);
            if turn == Who::Client {
                if !cl.alive() {
                    break;
                }
                // keys for whatever is announced are secrets, too
                if cstage == 1 && !deep {
                    if let Some((_, salt, i)) = input.as_deref().and_then(|i| lenient_server_first(i).ok()) {
                        secrets.keys(&Keys::derive(h, &pw, &salt, i));
                    }
                }
                let o = cl.step(input.as_deref(), &w);
                sim.ev(format!("client#{sid}({}) -> {} \"{}\"", show_opt(input.as_deref()), o.res.short(), show(&o.bytes)));
                sim.mark(&format!("c{cstage}{}", o.res.label()));
                secrets.step(&format!("client#{sid}"), &o)?;
                match cstage {
                    0 => {
                        ensure!(!has_proof(&o.bytes), "early-proof", "client#{sid} starts with \"{}\"", show(&o.bytes));
                        if o.res == R::Running {
                            let first = ClientFirst::parse(&o.bytes)
                                .map_err(|e| bad("message", format!("client#{sid} sends \"{}\": {e}", show(&o.bytes))))?;
                            ensure!(!first.extended, "message", "client#{sid} sends \"{}\"", show(&o.bytes));
                            let name = o.bytes[2..].split(|b| *b == b',').next().unwrap_or_default();
                            let data = if m.plus() {
                                cb.iter().find(|(n, _)| n.as_bytes() == name).map(|(_, d)| d.clone()).unwrap_or_default()
                            } else {
                                Vec::new()
                            };
                            known = Some(Known { gs2: first.gs2.clone(), first, cb: data });
                        }
                    }
                    1 => {
                        let sf = input.clone().unwrap_or_default();
                        let k = known.as_ref().expect("harness: first message");
                        let ann = lenient_server_first(&sf).ok();
                        let extends = ann.as_ref().is_some_and(|(n, _, _)| {
                            n.strip_prefix(k.first.nonce.as_slice()).is_some_and(|r| !r.is_empty())
                        });
                        ensure!(
                            extends || (o.bytes.is_empty() && o.res != R::Running),
                            "early-proof",
                            "client#{sid} answers \"{}\", which lacks something, with \"{}\" ({})",
                            show(&sf),
                            show(&o.bytes),
                            o.res.short()
                        );
                        if extends && !o.bytes.is_empty() {
                            let (_, salt, i) = ann.unwrap();
                            // a misbehaving application may have given something else
                            let odd = !c.hits.is_empty();
                            let kk = c
                                .cached
                                .first()
                                .map(|x| (x.client_key.clone(), x.server_key.clone()))
                                .or_else(|| c.salted.clone().map(|x| pair(&Keys::from_salted(h, x))))
                                .unwrap_or_else(|| pair(&Keys::derive(h, &pw, &salt, i)));
                            let want = last_message(k, h, &sf, &kk);
                            if !odd {
                                ensure!(
                                    if failing { want.starts_with(&o.bytes) } else { o.bytes == want },
                                    "message",
                                    "client#{sid} sends \"{}\" instead of \"{}\"",
                                    show(&o.bytes),
                                    show(&want)
                                );
                                sim.probe("exact_final");
                            } else if o.res == R::Running {
                                let f = ClientFinal::parse_any_nonce(&o.bytes)
                                    .map_err(|e| bad("message", format!("client#{sid} sends \"{}\": {e}", show(&o.bytes))))?;
                                ensure!(!f.extended, "message", "client#{sid} sends \"{}\"", show(&o.bytes));
                            }
                        }
                    }
                    _ => ensure!(o.bytes.is_empty(), "message", "client#{sid} says \"{}\" at the end", show(&o.bytes)),
                }
                cstage += 1;
                if o.res != R::Running {
                    break;
                }
                wire = Some(o.bytes);
                turn = Who::Server;
            } else {
                if !sv.alive() {
                    break;
                }
                let o = sv.step(input.as_deref(), &w);
                sim.ev(format!("server#{}({}) -> {} \"{}\"", sid + 1, show_opt(input.as_deref()), o.res.short(), show(&o.bytes)));
                sim.mark(&format!("s{}", o.res.label()));
                secrets.step(&format!("server#{}", sid + 1), &o)?;
                shape(&format!("server#{}", sid + 1), &o, failing)?;
                if matches!(o.res, R::Running) && own_client {
                    // an attacker's next message
                    let nonce = lenient_server_first(&o.bytes).map(|x| x.0).unwrap_or_default();
                    let proof = match sim.below(4) {
                        0 => Vec::new(),
                        1 => vec![0; crate::scram::size(h)],
                        2 => sim.bytes(70),
                        _ => hash(h, &[&nonce]),
                    };
                    let gs2 = if m.plus() { format!("p={},,", cb[0].0) } else { "n,,".into() };
                    let mut c = gs2.into_bytes();
                    if m.plus() {
                        c.extend_from_slice(&cb[0].1);
                    }
                    let mut f = format!("c={},r=", b64(&c)).into_bytes();
                    f.extend_from_slice(&nonce);
                    f.extend_from_slice(format!(",p={}", b64(&proof)).as_bytes());
                    wire = Some(f);
                    continue;
                }
                if !matches!(o.res, R::Running | R::FinYes) {
                    break;
                }
                corpus.add(&o.bytes);
                wire = Some(o.bytes);
                turn = Who::Client;
                if own_client {
                    break;
                }
            }
            // on the way
            if let Some(x) = wire.as_mut() {
                corpus.add(x);
                if turn == Who::Client && cstage == 1 && sim.chance(1, 3) {
                    sim.fault("hostile_server");
                    *x = crafted(sim, &known.as_ref().unwrap().first.nonce, deep);
                } else if sim.chance(1, 5) {
                    let y = x.clone();
                    *x = mutate(sim, &y, &corpus);
                }
                if !deep {
                    cap_iterations(x, 60);
                }
            }
        }
    }
    for cfg in [&ccfg, &scfg] {
        let d = debug_of(cfg)?;
        secrets.none_in("the debug output of a configuration", d.as_bytes())?;
    }
    sim.probe("searched");
    Ok(())
}

fn pair(k: &Keys) -> (Vec<u8>, Vec<u8>) {
    (k.client.clone(), k.server.clone())
}

fn c02_nonce(sim: &mut Sim) -> String {
    (0..10).map(|_| *sim.pick(b"abcdefghijklmnop0123456789") as char).collect()
}

fn has_proof(m: &[u8]) -> bool {
    m.split(|b| *b == b',').any(|p| p.starts_with(b"p=") && crate::scram::unb64(&p[2..]).is_some_and(|d| d.len() >= 20))
}

/// A SCRAM server says one of three things
fn shape(what: &str, o: &Out, failing: bool) -> Res {
    if failing || o.bytes.is_empty() {
        return Ok(());
    }
    let ok = match o.res {
        R::Running => crate::scram::ServerFirst::parse(&o.bytes).is_ok_and(|f| !f.extended),
        _ => {
            let t = String::from_utf8_lossy(&o.bytes).into_owned();
            t.strip_prefix("e=").is_some_and(|e| e.bytes().all(|b| b.is_ascii_lowercase() || b == b'-'))
                || t.strip_prefix("v=").is_some_and(|v| crate::scram::unb64(v.as_bytes()).is_some())
        }
    };
    ensure!(ok, "message", "{what} says \"{}\"", show(&o.bytes));
    Ok(())
}

// ---------------------------------------------------------------- two secrets, one public world

struct Line {
    who: Who,
    res: String,
    text: String,
    /// With proof and verifier blanked
    public: Vec<u8>,
}

fn blank(m: &[u8]) -> Vec<u8> {
    let mut p: Vec<Vec<u8>> = m.split(|b| *b == b',').map(<[u8]>::to_vec).collect();
    let n = p.len();
    for (i, a) in p.iter_mut().enumerate() {
        let last = i + 1 == n && n >= 3 && a.starts_with(b"p=");
        let verifier = n == 1 && a.starts_with(b"v=");
        if last || verifier {
            let l = a.len();
            a.truncate(2);
            a.extend(std::iter::repeat(b'#').take(l - 2));
        }
    }
    p.join(&b","[..])
}

#[derive(Clone)]
struct Public {
    m: Mech,
    c: Script,
    s: Script,
    cb: Vec<(String, Vec<u8>)>,
    source: u32,
    damage: u32,
    right: bool,
    rec: Stored,
    user: String,
    entropy: u64,
    /// Decides the faults, the same way in both lives
    seed: u64,
}

fn live(p: &Public, pw: &[u8], other: &[u8]) -> Res<(Vec<Line>, String)> {
    let h = p.m.hash().unwrap();
    let known = if p.right { pw } else { other };
    let k = Keys::derive(h, pw, &p.rec.salt, p.rec.iter);
    let mut sim = Sim::search(p.seed, p.entropy, Arc::new(Mutex::new(Vec::new())));
    let (mut c, mut s) = (p.c.clone(), p.s.clone());
    let mine = Keys::derive(h, known, &p.rec.salt, p.rec.iter);
    match p.source {
        0 => c.salted = Some(mine.salted),
        1 | 2 => {
            c.cached = vec![Cached { params: None, client_key: mine.client, server_key: mine.server }];
            if p.source == 2 {
                c.cached[0].server_key.pop();
            }
        }
        _ => c.password = Some(known.to_vec()),
    }
    let mut rec = k.record(&p.rec.salt, p.rec.iter);
    match p.damage {
        0 => rec.stored_key.truncate(12),
        1 => rec.server_key.push(1),
        _ => {}
    }
    if p.damage != 2 {
        s.users = vec![(p.user.clone(), rec)];
    }
    let (capp, sapp) = (App::with_cb(p.m.plus()), App::with_cb(p.m.plus()));
    let (ccfg, scfg) = (Config::new(&capp, &[p.m]), Config::new(&sapp, &[p.m]));
    capp.set(1, c);
    sapp.set(2, s);
    let mut cl = client_for(&ccfg, 1, p.m, p.cb.clone())?;
    let mut sv = server_for(&scfg, 2, p.m, p.cb.clone())?;
    cl.entropy = Some(p.entropy);
    sv.entropy = Some(p.entropy);
    let mut lines = Vec::new();
    let corpus = Corpus::default();
    let mut turn = Who::Client;
    let mut wire: Option<Vec<u8>> = None;
    for n in 0..5 {
        let s = if turn == Who::Client { &mut cl } else { &mut sv };
        if !s.alive() {
            break;
        }
        let (w, _) = writer(&mut sim);
        let o = s.step(wire.as_deref(), &w);
        lines.push(Line {
            who: turn,
            res: o.res.label(),
            text: match &o.res {
                R::Err(e) => e.text.clone(),
                R::Panic(p) => p.clone(),
                _ => String::new(),
            },
            public: blank(&o.bytes),
        });
        if !matches!(o.res, R::Running | R::FinYes) {
            break;
        }
        let mut m = o.bytes;
        // only messages that are the same in both lives are changed
        if n < 2 && sim.chance(1, 4) {
            m = mutate(&mut sim, &m, &corpus);
            cap_iterations(&mut m, 60);
        }
        wire = Some(m);
        turn = turn.other();
    }
    Ok((lines, format!("{}{}", debug_of(&ccfg)?, debug_of(&scfg)?)))
}

fn twins(sim: &mut Sim) -> Res {
    let m = *sim.pick(SCRAM);
    let (mut c, mut s, cb) = gen::honest(sim, m);
    c.password = None;
    let rec = s.users[0].1.clone();
    s.users.clear();
    hits(sim, &mut c, 8);
    hits(sim, &mut s, 6);
    if sim.chance(1, 6) {
        s.validate = *sim.pick(&[ValPolicy::Decline, ValPolicy::Missing, ValPolicy::Boxed]);
    }
    let p = Public {
        m,
        user: c.authid.clone().unwrap_or_default(),
        c,
        s,
        cb,
        source: sim.below(6),
        damage: sim.below(9),
        right: sim.chance(3, 4),
        rec,
        entropy: sim.next_entropy(),
        seed: u64::from(sim.below(1 << 31)),
    };
    let a = secret(sim);
    // of any other length, except that what is wrong stays wrong
    let mut b = secret(sim);
    b.insert(0, b'!');
    let wrong = b"neither of them";
    let (x, dx) = live(&p, &a, wrong)?;
    let (y, dy) = live(&p, &b, wrong)?;
    sim.fault("other_secret");
    for (i, l) in x.iter().enumerate() {
        sim.ev(format!("{} -> {} \"{}\" {}", l.who.name(), l.res, show(&l.public), l.text));
        sim.mark(&format!("{}{}", l.who.name(), l.res));
        let Some(r) = y.get(i) else { continue };
        ensure!(
            l.public == r.public && l.res == r.res && l.text == r.text,
            "depends",
            "{}, message {i}: with password \"{}\" the {} says \"{}\" ({} {}), with \"{}\" \"{}\" ({} {})",
            m.name(),
            show(&a),
            l.who.name(),
            show(&l.public),
            l.res,
            l.text,
            show(&b),
            show(&r.public),
            r.res,
            r.text
        );
    }
    ensure!(x.len() == y.len(), "depends", "{}: the number of messages depends on the password", m.name());
    ensure!(dx == dy, "depends", "the debug output of a configuration depends on the password: {dx} / {dy}");
    sim.probe("twins_compared");
    Ok(())
}

// ---------------------------------------------------------------- errors and debug output of everything else

fn texts(sim: &mut Sim) -> Res {
    let m = *sim.pick(&[Mech::Plain, Mech::Login, Mech::Xoa, Mech::Oab]);
    let pw = secret(sim);
    let mut secrets = Secrets::new();
    let token = matches!(m, Mech::Xoa | Mech::Oab);
    secrets.add(if token { "token" } else { "password" }, &pw);
    // the finished configuration for credentials
    if !token && sim.chance(1, 4) {
        let cfg = rsasl::config::SASLConfig::with_credentials(
            sim.chance(1, 2).then(|| "other".to_string()),
            "user".into(),
            String::from_utf8(pw.clone()).unwrap(),
        )
        .map_err(|e| bad("start-failed", format!("with_credentials: {e}")))?;
        let d = guarded(|| format!("{cfg:?} {cfg:#?}")).map_err(|p| bad("panic", format!("formatting the configuration: {p}")))?;
        secrets.none_in("the debug output of the configuration", d.as_bytes())?;
    }
    let (mut c, mut s, cb) = gen::honest(sim, m);
    let odd = sim.chance(1, 3);
    let mut shown = pw.clone();
    if odd {
        // something that a mechanism can't carry, next to the secret
        let x: &[u8] = *sim.pick(&[&b"\x00"[..], b"\xff\xfe", b"\x01", b"\xc3", b"\r\n", b" ", b"\xe2\x80\x8b", b"\x07"]);
        let at = if sim.chance(1, 2) { shown.len() } else { 0 };
        let tail = shown.split_off(at);
        shown.extend_from_slice(x);
        shown.extend_from_slice(&tail);
        sim.fault("unusual_secret");
    }
    if token {
        c.token = Some(String::from_utf8_lossy(&shown).into_owned());
    } else {
        c.password = Some(shown);
    }
    if sim.chance(1, 4) {
        s.validate = *sim.pick(&[ValPolicy::Decline, ValPolicy::Missing, ValPolicy::Boxed, ValPolicy::FinalizeThenErr]);
        sim.fault("refusal");
    }
    if sim.chance(1, 4) {
        s.refuse = Some(OErr { status: "invalid_token".into(), scope: None, conf: None });
        s.refuse_x = Some("eyJzdGF0dXMiOiI0MDEifQ==".into());
        c.refuse_actions = sim.chance(1, 3);
        sim.fault("refusal");
    }
    hits(sim, &mut c, 5);
    hits(sim, &mut s, 5);
    let (capp, sapp) = (App::with_cb(false), App::with_cb(false));
    let (ccfg, scfg) = (Config::new(&capp, &[m]), Config::new(&sapp, &[m]));
    capp.set(1, c);
    sapp.set(2, s);
    let mut cl = client_for(&ccfg, 1, m, cb.clone())?;
    let mut sv = server_for(&scfg, 2, m, cb)?;
    let mut turn = if cl.first() { Who::Client } else { Who::Server };
    let mut wire: Option<Vec<u8>> = None;
    let corpus = Corpus::default();
    for _ in 0..8 {
        let s = if turn == Who::Client { &mut cl } else { &mut sv };
        if !s.alive() {
            break;
        }
        let (w, _) = writer(sim);
        let b64 = sim.chance(1, 4);
        let o = s.step_via(wire.as_deref(), b64, &w);
        sim.ev(format!("{}({}) -> {} \"{}\"", turn.name(), show_opt(wire.as_deref()), o.res.short(), show(&o.bytes)));
        sim.mark(&format!("{}{}", turn.name(), o.res.label()));
        secrets.text(turn.name(), &o)?;
        if let R::Err(_) = o.res {
            sim.probe("error_searched");
        }
        if turn == Who::Server {
            // a server has no reason to repeat it either
            secrets.none_in("what the server writes", &o.bytes)?;
        }
        match o.res {
            R::Running | R::FinYes => {}
            _ => break,
        }
        let mut x = o.bytes;
        if sim.chance(1, 4) {
            x = mutate(sim, &x, &corpus);
        }
        wire = Some(x);
        turn = turn.other();
    }
    for cfg in [&ccfg, &scfg] {
        let d = debug_of(cfg)?;
        secrets.none_in("the debug output of a configuration", d.as_bytes())?;
    }
    Ok(())
}
