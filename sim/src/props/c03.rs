//! A SCRAM client finishes only with a server that proved it knows the key.
use super::{Prop, ASSUME, DISTINCT, REAL, STUB};
use crate::adv::{cap_iterations, mutate, Corpus};
use crate::app::{App, Cached, Script, Stored};
use crate::ensure;
use crate::gen;
use crate::io::WCfg;
use crate::props::c02::nonce;
use crate::props::c14::CODES;
use crate::scram::{
    auth_message, b64, hmac, judge_client, lenient_server_first, xor, ClientFinal, ClientFirst, Keys, RefServer,
};
use crate::sess::{client_for, server_for, show, show_opt, Config, Hash, Mech, Sess, R, SCRAM};
use crate::sim::{Res, Sim};

pub const PROP: Prop = Prop {
    id: "C03",
    run,
    quick: 80_000,
    thorough: 3_000_000,
    hang_s: 60,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

enum Server {
    Real(Sess),
    Ref(RefServer),
    /// Knows nothing, invents
    Rogue(u32),
    Replay,
    /// Knows the keys and signs what it sent, but doesn't keep to the protocol
    Sloppy(Sloppy),
}

struct Sloppy {
    rec: Stored,
    first: u32,
    fin: u32,
    sent: Vec<u8>,
    seen: Vec<u8>,
}
const SLOPPY_FIRST: u32 = 23;
const SLOPPY_FINAL: u32 = 20;

fn sloppy_first(sim: &mut Sim, s: &Sloppy, own: &[u8]) -> Vec<u8> {
    let own = String::from_utf8_lossy(own).into_owned();
    let ext = nonce(sim);
    let salt = b64(&s.rec.salt);
    let it = s.rec.iter;
    let n = format!("{own}{ext}");
    let part = |k: usize| own.get(..k.min(own.len())).unwrap_or("").to_string();
    match s.first {
        1 => format!("r={own},s={salt},i={it}"),
        2 => format!("r={ext},s={salt},i={it}"),
        3 => format!("r={ext}{own},s={salt},i={it}"),
        4 => format!("r={}{ext},s={salt},i={it}", part(own.len().saturating_sub(1))),
        5 => format!("r={}{ext},s={salt},i={it}", own.to_ascii_uppercase()),
        6 => format!("r={}{ext},s={salt},i={it}", part(own.len() / 2)),
        7 => format!("r=,s={salt},i={it}"),
        8 => format!("r={n},s={salt},i={it},m=x"),
        9 => format!("m=x,r={n},s={salt},i={it}"),
        10 => format!("r={n},s={salt},i={it},x=1"),
        11 => format!("R={n},S={salt},I={it}"),
        12 => format!("s={salt},r={n},i={it}"),
        13 => format!("r={n},i={it},s={salt}"),
        14 => format!("r={n},s={salt},i=+{it}"),
        15 => format!("r={n},s={salt},i=00{it}"),
        16 => format!("r={n},s={salt},i= {it} "),
        17 => format!("r={n},s={salt},i={it}x"),
        18 => format!("r={n},s={},i={it}", salt.trim_end_matches('=')),
        19 => format!("r={n},s={salt}=,i={it}"),
        20 => format!("r={n} ,s={salt},i={it}"),
        21 => format!("r={n},s={salt},i={it},"),
        22 => format!("r={n},s={salt},i={}", u64::from(it) + (1 << 32)),
        23 => format!("r={n},x=1,s={salt},i={it}"),
        _ => format!("r={n},s={salt},i={it}"),
    }
    .into_bytes()
}

fn sloppy_final(sim: &mut Sim, h: Hash, s: &Sloppy, fin: &[u8]) -> Option<Vec<u8>> {
    let bare = ClientFirst::parse(&s.seen).ok()?.bare;
    let wp = ClientFinal::parse_any_nonce(fin).ok()?.without_proof;
    let sign = |b: &[u8], sf: &[u8], wp: &[u8]| hmac(h, &s.rec.server_key, &auth_message(b, sf, wp));
    let mut sig = sign(&bare, &s.sent, &wp);
    let n = sig.len();
    match s.fin {
        1 => sig.push(0),
        2 => drop(sig.pop()),
        3 => sig.truncate(1),
        4 => sig.clear(),
        5 => sig[n - 1] ^= 1,
        6 => sig[0] ^= 0x80,
        7 => sig.truncate(n / 2),
        // over something else
        8 => sig = sign(&s.seen, &s.sent, &wp),
        9 => sig = sign(&bare, &s.sent, fin),
        10 => sig = sign(&bare, &[], &wp),
        11 => sig = sign(b"", b"", b""),
        12 => sig = hmac(h, &s.rec.stored_key, &auth_message(&bare, &s.sent, &wp)),
        13 => sig = s.rec.server_key.clone(),
        _ => {}
    }
    let v = b64(&sig);
    Some(
        match s.fin {
            14 => format!("V={v}"),
            15 => format!("v={}", v.trim_end_matches('=')),
            16 => format!("v={v},x=1"),
            17 => format!("e={},v={v}", sim.pick(CODES)),
            18 => format!("v={v},e={}", sim.pick(CODES)),
            19 => format!("x=1,v={v}"),
            20 => v,
            _ => format!("v={v}"),
        }
        .into_bytes(),
    )
}

struct Conn {
    sid: u32,
    m: Mech,
    h: Hash,
    client: Sess,
    script: Script,
    server: Server,
    honest: bool,
    tampered: bool,
    b64: bool,
    cf: Option<Vec<u8>>,
    sf: Option<Vec<u8>>,
    fin: Option<Vec<u8>>,
    /// What the server would say next, raw
    to_client: Option<Option<Vec<u8>>>,
    to_server: Option<Vec<u8>>,
    done: bool,
    steps: u32,
}

/// Does this client never have to compute anything, so that any iteration count is affordable?
fn deep(s: &Script) -> bool {
    s.password.is_none() || s.cached.iter().any(|c| c.params.is_none())
}

/// Keys the client has to use for these parameters
fn keys(h: Hash, s: &Script, salt: &[u8], iter: u32) -> Option<Keys> {
    for c in &s.cached {
        if c.params.as_ref().map_or(true, |(a, b)| a == salt && *b == iter) {
            return Some(Keys {
                salted: Vec::new(),
                stored: crate::scram::hash(h, &[&c.client_key]),
                client: c.client_key.clone(),
                server: c.server_key.clone(),
            });
        }
    }
    if let Some(p) = s.salted.as_ref().filter(|p| !p.is_empty()) {
        return Some(Keys::from_salted(h, p.clone()));
    }
    s.password.as_ref().map(|p| Keys::derive(h, p, salt, iter))
}

fn server_step(sim: &mut Sim, w: &Corpus, c: &mut Conn, input: &[u8]) -> Option<Vec<u8>> {
    match &mut c.server {
        Server::Real(s) => {
            if !s.alive() {
                return None;
            }
            let o = s.step(Some(input), &WCfg::default());
            sim.ev(format!("server#{} -> {} \"{}\"", s.sid, o.res.short(), show(&o.bytes)));
            matches!(o.res, R::Running | R::FinYes).then_some(o.bytes)
        }
        Server::Ref(r) => {
            if r.first_in.is_empty() {
                r.on_first(input).ok().map(|(m, _)| m)
            } else {
                match r.on_final(input) {
                    Ok(m) => Some(m),
                    Err(_) => Some(format!("e={}", sim.pick(CODES)).into_bytes()),
                }
            }
        }
        Server::Rogue(n) => {
            *n += 1;
            sim.fault("rogue_server_message");
            if *n == 1 {
                let own = ClientFirst::parse(input).map(|c| c.nonce).unwrap_or_default();
                let ext = nonce(sim);
                let mut m = b"r=".to_vec();
                match sim.below(8) {
                    // the usual attempt
                    0..=2 => {
                        m.extend_from_slice(&own);
                        m.extend_from_slice(ext.as_bytes());
                    }
                    3 => m.extend_from_slice(&own),
                    4 => m.extend_from_slice(ext.as_bytes()),
                    5 => {
                        // the client's nonce, but not at the front
                        m.extend_from_slice(ext.as_bytes());
                        m.extend_from_slice(&own);
                    }
                    6 => {
                        m.extend_from_slice(&own[..own.len().saturating_sub(1)]);
                        m.extend_from_slice(ext.as_bytes());
                    }
                    _ => {
                        let mut o = own.clone();
                        if !o.is_empty() {
                            let i = sim.usize(o.len());
                            o[i] = if o[i] == b'A' { b'B' } else { b'A' };
                        }
                        m.extend_from_slice(&o);
                        m.extend_from_slice(ext.as_bytes());
                    }
                }
                let d = gen::deep(sim).to_string();
                let it: &str = *sim.pick(&[if deep(&c.script) { &d } else { "3" }, "1", "2", "17", "0", "00", "-1", "4294967296", "", "1x", "+3", " 4", "007"]);
                let salt = match sim.below(4) {
                    0 => String::new(),
                    1 => "c2FsdA".into(),
                    2 => "!!!".into(),
                    _ => b64(&gen::salt(sim)),
                };
                m.extend_from_slice(format!(",s={salt},i={it}").as_bytes());
                if sim.chance(1, 5) {
                    m.extend_from_slice(*sim.pick(&[&b",m=ext"[..], b",x=1", b",", b",v=YQ=="]));
                }
                if sim.chance(1, 8) {
                    let mut n = b"m=must,".to_vec();
                    n.extend_from_slice(&m);
                    m = n;
                }
                return Some(m);
            }
            // a verifier without the key
            let size = crate::scram::size(c.h);
            let zero = vec![0u8; size];
            let am = match (&c.cf, &c.sf, ClientFinal::parse(input)) {
                (Some(cf), Some(sf), Ok(f)) => {
                    ClientFirst::parse(cf).ok().map(|x| auth_message(&x.bare, sf, &f.without_proof))
                }
                _ => None,
            }
            .unwrap_or_default();
            let proof = ClientFinal::parse(input).map(|f| f.proof).unwrap_or_default();
            let v: Vec<u8> = match sim.below(9) {
                0 => zero.clone(),
                1 => Vec::new(),
                2 => proof,
                3 => hmac(c.h, &[], &am),
                4 => hmac(c.h, &zero, &am),
                5 => hmac(c.h, &hmac(c.h, b"", b"Server Key"), &am),
                6 => sim.bytes(size),
                7 => {
                    // wrong by one bit, for a server that has seen the right one elsewhere
                    let mut k = proof;
                    if !k.is_empty() {
                        k[0] ^= 1;
                    }
                    k
                }
                _ => match w.any(sim) {
                    Some(m) => return Some(m),
                    None => zero,
                },
            };
            Some(match sim.below(8) {
                0 => b"v=".to_vec(),
                1 => format!("e={}", sim.pick(CODES)).into_bytes(),
                2 => Vec::new(),
                3 => input.to_vec(),
                _ => format!("v={}", b64(&v)).into_bytes(),
            })
        }
        Server::Sloppy(s) => {
            if s.seen.is_empty() {
                s.seen = input.to_vec();
                let own = ClientFirst::parse(input).ok()?.nonce;
                let m = sloppy_first(sim, s, &own);
                s.sent.clone_from(&m);
                Some(m)
            } else {
                sloppy_final(sim, c.h, s, input)
            }
        }
        Server::Replay => {
            sim.fault("replaying_server");
            w.any(sim)
        }
    }
}

fn client_turn(sim: &mut Sim, w: &mut Corpus, c: &mut Conn) -> Res {
    let orig = c.to_client.take().unwrap();
    let mut msg = orig.clone();
    if c.cf.is_some() {
        match sim.weighted(&[20, 6, 3, 2, 1, 2]) {
            0 => {}
            1 => {
                let n = sim.range(1, 3);
                let mut m = msg.unwrap_or_default();
                for _ in 0..n {
                    m = mutate(sim, &m, w);
                }
                msg = Some(m);
            }
            2 => {
                if let Some(m) = w.any(sim) {
                    msg = Some(m);
                    sim.fault("replay");
                }
            }
            3 => {
                // nothing at all, then the message
                sim.fault("spurious_step");
                let o = c.client.step(None, &WCfg::default());
                ensure!(
                    !o.res.ok(),
                    "finished-without-proof",
                    "client stepped without data: {} \"{}\"",
                    o.res.short(),
                    show(&o.bytes)
                );
                ensure!(o.bytes.is_empty(), "wrote-without-input", "client wrote {}", show(&o.bytes));
                if !o.res.is_input_required() {
                    c.done = true;
                    return Ok(());
                }
            }
            4 => {
                sim.fault("connection_lost");
                c.done = true;
                return Ok(());
            }
            _ => {
                // its own words
                sim.fault("reflect");
                msg = Some(if c.fin.is_some() && sim.chance(1, 2) { c.fin.clone() } else { c.cf.clone() }.unwrap());
            }
        }
        if let Some(m) = &mut msg {
            if !deep(&c.script) {
                cap_iterations(m, 9000);
            }
        }
    }
    if msg != orig {
        c.tampered = true;
    }
    let o = c.client.step_via(msg.as_deref(), c.b64, &WCfg::default());
    c.steps += 1;
    sim.mark(&format!("c{}:{}", c.steps, o.res.label()));
    sim.ev(format!(
        "client#{} {} step({}) -> {} \"{}\"",
        c.sid,
        c.m.name(),
        show_opt(msg.as_deref()),
        o.res.short(),
        show(&o.bytes)
    ));
    let undisturbed = c.honest && !c.tampered;
    let mut again = false;
    if c.cf.is_none() {
        ensure!(
            o.res == R::Running,
            "no-first-message",
            "client does not start: {}",
            o.res.short()
        );
        c.cf = Some(o.bytes.clone());
    } else if c.fin.is_none() {
        // what came is a server-first message
        let sf = msg.clone().unwrap_or_default();
        ensure!(
            !o.res.finished(),
            "finished-early",
            "client finishes on the first server message \"{}\"",
            show(&sf)
        );
        let own = ClientFirst::parse(c.cf.as_ref().unwrap());
        let readable = lenient_server_first(&sf);
        if !o.bytes.is_empty() {
            // Whatever it wrote, it may only be a proof for what it was asked
            let Ok((n, salt, iter)) = &readable else {
                return crate::sim::viol(
                    "answered-unusable",
                    format!(
                        "client answers \"{}\" ({}) with \"{}\"",
                        show(&sf),
                        readable.unwrap_err(),
                        show(&o.bytes)
                    ),
                );
            };
            let Ok(own) = &own else {
                return crate::sim::viol("first-malformed", format!("\"{}\"", show(c.cf.as_ref().unwrap())));
            };
            ensure!(
                n.strip_prefix(own.nonce.as_slice()).is_some_and(|r| !r.is_empty()),
                "foreign-nonce",
                "client releases a proof for nonce {} which does not extend its own {}",
                show(n),
                show(&own.nonce)
            );
            if o.res == R::Running {
                // and has to be the right proof: otherwise the signature it waits for is not one over this exchange
                let k = keys(c.h, &c.script, salt, *iter);
                let f = ClientFinal::parse_any_nonce(&o.bytes);
                let ok = match (&k, &f) {
                    (Some(k), Ok(f)) => {
                        let am = auth_message(&own.bare, &sf, &f.without_proof);
                        f.nonce == *n && f.proof == xor(&k.client, &hmac(c.h, &k.stored, &am))
                    }
                    _ => false,
                };
                ensure!(
                    ok,
                    "bad-proof",
                    "client answers \"{}\" with a proof that doesn't belong to it: \"{}\"",
                    show(&sf),
                    show(&o.bytes)
                );
            }
        }
        ensure!(
            !undisturbed || o.res == R::Running,
            "honest-refused",
            "client refuses an honest server's first message: {}",
            o.res.short()
        );
        if o.res == R::Running {
            sim.probe("proof_released");
            c.sf = Some(sf);
            c.fin = Some(o.bytes.clone());
        } else if matches!(o.res, R::Err(_)) && sim.chance(1, 4) {
            again = true;
        }
    } else {
        let last = msg.clone().unwrap_or_default();
        let v = judge_client(
            c.h,
            c.cf.as_ref().unwrap(),
            c.sf.as_ref().unwrap(),
            c.fin.as_ref().unwrap(),
            &last,
            |salt, iter| keys(c.h, &c.script, salt, iter).map(|k| k.server),
        );
        sim.probe(match v {
            Ok(_) => "final_genuine",
            Err(_) => "final_not_genuine",
        });
        ensure!(o.bytes.is_empty(), "wrote-after-final", "client wrote \"{}\"", show(&o.bytes));
        if o.res.ok() {
            ensure!(
                o.res == R::FinNo,
                "state",
                "client ends with {} having nothing to say",
                o.res.short()
            );
            if let Err(why) = v {
                return crate::sim::viol(
                    "finished-without-proof",
                    format!("client finishes on \"{}\": {why}", show(&last)),
                );
            }
            sim.probe("finished");
        } else {
            ensure!(
                v != Ok("strict") || c.steps > 3 || c.tampered,
                "honest-refused",
                "client refuses a genuine server signature: {}",
                o.res.short()
            );
            if matches!(o.res, R::Err(_)) && sim.chance(1, 4) {
                again = true;
            }
        }
        ensure!(
            !undisturbed || o.res == R::FinNo,
            "honest-refused",
            "client refuses an honest server: {}",
            o.res.short()
        );
    }
    if matches!(o.res, R::Running) {
        w.add(&o.bytes);
        c.to_server = Some(o.bytes);
    } else if again && c.steps < 6 {
        // a careless application steps on after an error; it mustn't gain anything
        sim.fault("step_after_error");
        c.tampered = true;
        c.to_client = Some(orig);
    } else {
        c.done = true;
    }
    Ok(())
}

fn server_turn(sim: &mut Sim, w: &mut Corpus, c: &mut Conn) {
    let orig = c.to_server.take().unwrap();
    let mut msg = orig.clone();
    match sim.weighted(&[14, 2, 1]) {
        0 => {}
        1 => msg = mutate(sim, &msg, w),
        _ => {
            if let Some(m) = w.any(sim) {
                msg = m;
                sim.fault("replay");
            }
        }
    }
    if msg != orig {
        c.tampered = true;
    }
    match server_step(sim, w, c, &msg) {
        Some(m) => {
            w.add(&m);
            c.to_client = Some(Some(m));
        }
        None => {
            // the server is gone; the adversary may still answer
            c.tampered = true;
            match w.any(sim) {
                Some(m) if sim.chance(1, 2) => c.to_client = Some(Some(m)),
                _ => c.done = true,
            }
        }
    }
}

fn connect(sim: &mut Sim, users: &[(String, Vec<u8>, Vec<(Hash, Stored)>)], next: &mut u32) -> Res<Conn> {
    let m = *sim.pick(SCRAM);
    let h = m.hash().unwrap();
    let sid = *next;
    *next += 2;
    let ui = sim.usize(users.len());
    let (user, pw, recs) = &users[ui];
    let rec = recs.iter().find(|(x, _)| *x == h).unwrap().1.clone();
    let mut script = Script {
        authid: Some(user.clone()),
        password: Some(pw.clone()),
        authzid: sim.chance(1, 4).then(|| gen::plain_name(sim)),
        ..Script::default()
    };
    let mut honest = true;
    let right = Keys::derive(h, pw, &rec.salt, rec.iter);
    match sim.weighted(&[8, 2, 2, 1, 1]) {
        0 => {}
        1 => {
            script.salted = Some(right.salted.clone());
            script.password = None;
        }
        2 => {
            script.cached = vec![Cached {
                params: sim.chance(1, 2).then(|| (rec.salt.clone(), rec.iter)),
                client_key: right.client.clone(),
                server_key: right.server.clone(),
            }];
        }
        3 => {
            // cached before the password was changed
            let (_, k) = gen::record(sim, h, b"old");
            script.cached = vec![Cached {
                params: None,
                client_key: k.client,
                server_key: k.server,
            }];
            honest = false;
            sim.fault("stale_keys");
        }
        _ => {
            // right client key, wrong server key
            script.cached = vec![Cached {
                params: None,
                client_key: right.client.clone(),
                server_key: vec![0; right.server.len()],
            }];
            honest = false;
            sim.fault("stale_keys");
        }
    }
    let name = "tls-exporter";
    let cb: Vec<(String, Vec<u8>)> = if m.plus() {
        vec![(name.to_string(), gen::cbdata(sim))]
    } else {
        Vec::new()
    };
    let capp = App::with_cb(m.plus() || sim.chance(1, 2));
    capp.set(sid, script.clone());
    let ccfg = Config::new(&capp, &[m]);
    let client = client_for(&ccfg, sid, m, cb.clone())?;
    let server = match sim.weighted(&[6, 5, 2, 4, 2, 3]) {
        0 => {
            let sapp = App::with_cb(m.plus());
            sapp.set(
                sid + 1,
                Script {
                    users: vec![(user.clone(), rec)],
                    ..Script::default()
                },
            );
            Server::Real(server_for(&Config::new(&sapp, &[m]), sid + 1, m, cb)?)
        }
        k @ (1 | 2) => {
            let mut rec = rec;
            if k == 2 {
                honest = false;
                sim.fault("server_without_key");
                match sim.below(3) {
                    0 => {
                        // knows the stored key but not the server key
                        rec.server_key = vec![0; rec.server_key.len()];
                    }
                    1 => rec.server_key = rec.stored_key.clone(),
                    _ => {
                        let other = Keys::derive(h, b"guess", &rec.salt, rec.iter);
                        rec = other.record(&rec.salt, rec.iter);
                    }
                }
            }
            Server::Ref(RefServer {
                hash: h,
                rec,
                nonce: nonce(sim),
                cbdata: cb,
                plus: m.plus(),
                first_in: Vec::new(),
                first_out: Vec::new(),
                ext: (gen::ext(sim), gen::ext(sim)),
            })
        }
        3 => {
            honest = false;
            Server::Rogue(0)
        }
        4 => {
            honest = false;
            Server::Replay
        }
        _ => {
            honest = false;
            sim.fault("sloppy_server");
            let (first, fin) = match sim.below(3) {
                0 => (1 + sim.below(SLOPPY_FIRST), 0),
                1 => (0, 1 + sim.below(SLOPPY_FINAL)),
                _ => (1 + sim.below(SLOPPY_FIRST), 1 + sim.below(SLOPPY_FINAL)),
            };
            Server::Sloppy(Sloppy { rec, first, fin, sent: Vec::new(), seen: Vec::new() })
        }
    };
    Ok(Conn {
        sid,
        m,
        h,
        client,
        script,
        server,
        honest,
        tampered: false,
        b64: sim.chance(1, 4),
        cf: None,
        sf: None,
        fin: None,
        to_client: Some(None),
        to_server: None,
        done: false,
        steps: 0,
    })
}

fn run(sim: &mut Sim) -> Res {
    let mut users = Vec::new();
    for _ in 0..sim.range(1, 2) {
        let n = gen::plain_name(sim);
        let p = gen::plain_password(sim);
        let mut recs = Vec::new();
        for h in [Hash::Sha1, Hash::Sha256, Hash::Sha512] {
            recs.push((h, gen::record(sim, h, &p).0));
        }
        users.push((n, p, recs));
    }
    let mut w = Corpus::default();
    let mut next = 1;
    let total = sim.range(1, 5);
    let conc = sim.range(1, 3) as usize;
    let mut started = 0;
    let mut conns: Vec<Conn> = Vec::new();
    loop {
        let live: Vec<usize> = (0..conns.len()).filter(|i| !conns[*i].done).collect();
        if started < total && live.len() < conc {
            let c = connect(sim, &users, &mut next)?;
            conns.push(c);
            started += 1;
            continue;
        }
        if live.is_empty() {
            return Ok(());
        }
        let i = live[sim.usize(live.len())];
        sim.advance(1000);
        let c = &mut conns[i];
        if c.to_client.is_some() {
            client_turn(sim, &mut w, c)?;
        } else if c.to_server.is_some() {
            server_turn(sim, &mut w, c);
        } else {
            c.done = true;
        }
        if let Some(R::Panic(p)) = &c.client.last {
            sim.ev(format!("client panicked: {p}"));
            c.done = true;
        }
    }
}
