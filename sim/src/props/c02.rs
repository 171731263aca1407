//! A SCRAM server accepts only a proof of the stored key over its own exchange.
use super::{Prop, ASSUME, DISTINCT, REAL, STUB};
use crate::adv::{cap_iterations, mutate, Corpus};
use crate::app::{App, AppEv, Script, Stored, ValPolicy};
use crate::ensure;
use crate::gen;
use crate::io::WCfg;
use crate::scram::{judge, ClientFirst, Flag, Keys, RefClient, ServerFirst, ServerView, Verdict};
use crate::sess::{client_for, server_for, show, Config, ErrKind, Mech, Sess, R, SCRAM};
use crate::sim::{viol, Res, Sim};
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C02",
    run,
    quick: 80_000,
    thorough: 3_000_000,
    hang_s: 60,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

pub struct RefState {
    c: RefClient,
    /// Use these keys instead of deriving them from the password
    keys: Option<Keys>,
    sig: Option<Vec<u8>>,
    stage: u32,
    accepted: bool,
    /// Knows the password, proves what it sent, but does not keep to the grammar: (first message, final message)
    sloppy: Option<(u32, u32)>,
    sent: Vec<u8>,
}

enum Actor {
    Real(Sess),
    Ref(RefState),
    /// Sends whatever was sent before
    Replay(u32),
}

struct Conn {
    sid: u32,
    m: Mech,
    actor: Actor,
    server: Sess,
    script: Script,
    cb: Vec<(String, Vec<u8>)>,
    /// What waits for whom
    to_server: Option<Vec<u8>>,
    to_client: Option<Option<Vec<u8>>>,
    cf: Option<Vec<u8>>,
    sf: Option<Vec<u8>>,
    honest: bool,
    tampered: bool,
    b64: bool,
    judged: bool,
    done: bool,
    delivered: u32,
}

struct World {
    corpus: Corpus,
    users: Vec<(String, Vec<u8>)>,
    with_plus: bool,
    next: u32,
}

pub fn nonce(sim: &mut Sim) -> String {
    let n = if sim.chance(1, 30) { gen::edge(sim) as u32 } else { sim.range(1, 24) };
    (0..n)
        .map(|_| {
            let c = sim.range(0x21, 0x7e) as u8;
            if c == b',' {
                'k'
            } else {
                c as char
            }
        })
        .collect()
}

fn connect(sim: &mut Sim, w: &mut World, apps: &[Arc<App>; 2], scfg: &Config) -> Res<Conn> {
    let m = if w.with_plus { *sim.pick(SCRAM) } else { *sim.pick(&[Mech::S256, Mech::S1, Mech::S512]) };
    // a client that could bind but uses a bare mechanism is rightly refused by a server that can bind
    let can_bind = m.plus() || (!w.with_plus && sim.chance(1, 2));
    let ccfg = &Config::new(&apps[usize::from(can_bind)], SCRAM);
    let h = m.hash().unwrap();
    let csid = w.next;
    let sid = w.next + 1;
    w.next += 2;
    // the server's view: every user has a record, freshly made for this mechanism's hash
    let mut script = Script::default();
    let target = sim.usize(w.users.len());
    let mut unusable = false;
    for (i, (u, p)) in w.users.iter().enumerate() {
        let (mut rec, _) = gen::record(sim, h, p);
        if i == target && sim.chance(1, 12) {
            unusable = true;
            match sim.below(8) {
                // of the right size, but not the client's any more
                4 => *rec.stored_key.last_mut().unwrap() ^= 1 << sim.below(8),
                5 => rec.stored_key[0] ^= 1 << sim.below(8),
                6 => {
                    let n = rec.stored_key.len();
                    rec.stored_key[sim.usize(n)] ^= 1 << sim.below(8);
                }
                7 => std::mem::swap(&mut rec.stored_key, &mut rec.server_key),
                0 => {
                    rec.stored_key.pop();
                }
                1 => rec.server_key.push(0),
                2 => rec.stored_key.clear(),
                _ => {
                    rec.stored_key.truncate(20);
                    rec.server_key.truncate(20);
                    if h == crate::sess::Hash::Sha1 {
                        rec.stored_key.push(1);
                    }
                }
            }
            sim.fault("unusable_credentials");
        }
        script.users.push((u.clone(), rec));
    }
    let name = "tls-exporter";
    let data = gen::cbdata(sim);
    let cb = if w.with_plus { vec![(name.to_string(), data.clone())] } else { Vec::new() };
    if sim.chance(1, 8) {
        script.validate = *sim.pick(&[ValPolicy::Decline, ValPolicy::Boxed]);
    }
    scfg.app.set(sid, script.clone());
    let server = server_for(scfg, sid, m, cb.clone())?;

    let (user, pw) = w.users[target].clone();
    let authzid = sim.chance(1, 4).then(|| gen::plain_name(sim));
    let mut honest = !unusable;
    let kind = sim.weighted(&[6, 6, 2]);
    let mut password = pw.clone();
    let mut name_used = user.clone();
    match sim.weighted(&[10, 3, 2, 1]) {
        0 => {}
        1 => {
            password.push(b'x');
            honest = false;
            sim.fault("wrong_password");
        }
        2 => {
            // password of somebody else
            let o = sim.usize(w.users.len());
            if w.users[o].1 != pw {
                password = w.users[o].1.clone();
                honest = false;
                sim.fault("wrong_password");
            }
        }
        _ => {
            name_used = format!("{user}-unknown");
            honest = false;
            sim.fault("unknown_user");
        }
    }
    let actor = match kind {
        0 => {
            let c = Script {
                authid: Some(name_used),
                authzid,
                password: Some(password),
                ..Script::default()
            };
            ccfg.app.set(csid, c);
            Actor::Real(client_for(ccfg, csid, m, cb.clone())?)
        }
        1 => {
            let mut flag = match (m.plus(), w.with_plus) {
                (true, _) => Flag::P(name.into()),
                (false, true) => Flag::N,
                (false, false) => if sim.chance(1, 2) { Flag::Y } else { Flag::N },
            };
            let mut cbdata = data;
            if sim.chance(1, 10) {
                flag = match sim.below(4) {
                    0 => Flag::N,
                    1 => Flag::Y,
                    2 => Flag::P("tls-unique".into()),
                    _ => Flag::P(name.into()),
                };
                honest = false;
                sim.fault("other_binding_flag");
            }
            if sim.chance(1, 10) {
                cbdata.push(1);
                if matches!(flag, Flag::P(_)) {
                    honest = false;
                    sim.fault("other_binding_data");
                }
            }
            let ext = |sim: &mut Sim| {
                if sim.chance(1, 8) {
                    sim.fault("extension");
                    sim.pick(&[",x=1", ",e=,f=2", ",t=a=b", ",m=x", ",x=\u{e9}", ",p=YQ==", ",r=abc"]).to_string()
                } else {
                    String::new()
                }
            };
            let (e1, e2) = (ext(sim), ext(sim));
            if !e1.is_empty() || !e2.is_empty() {
                honest = false;
            }
            let sloppy = if sim.chance(1, 6) {
                honest = false;
                sim.fault("sloppy_client");
                Some(match sim.below(3) {
                    0 => (1 + sim.below(SLOPPY_FIRST), 0),
                    1 => (0, 1 + sim.below(SLOPPY_FINAL)),
                    _ => (1 + sim.below(SLOPPY_FIRST), 1 + sim.below(SLOPPY_FINAL)),
                })
            } else {
                None
            };
            // keys somebody could try without knowing the password
            let keys = sim.chance(1, 8).then(|| {
                sim.fault("forged_keys");
                let rec = script.users[target].1.clone();
                let zero = vec![0; rec.stored_key.len()];
                let (client, stored) = match sim.below(5) {
                    0 => (zero.clone(), rec.stored_key.clone()),
                    1 => (rec.stored_key.clone(), rec.stored_key.clone()),
                    2 => (rec.server_key.clone(), rec.stored_key.clone()),
                    3 => (zero.clone(), zero),
                    _ => (rec.server_key.clone(), crate::scram::hash(h, &[&rec.server_key])),
                };
                Keys { salted: Vec::new(), client, stored, server: rec.server_key }
            });
            if keys.is_some() {
                honest = false;
            }
            Actor::Ref(RefState {
                c: RefClient {
                    hash: h,
                    flag,
                    cbdata,
                    authzid,
                    user: name_used,
                    nonce: nonce(sim),
                    password,
                    ext_first: e1,
                    ext_final: e2,
                },
                keys,
                sig: None,
                stage: 0,
                accepted: false,
                sloppy,
                sent: Vec::new(),
            })
        }
        _ => {
            honest = false;
            sim.fault("replaying_client");
            Actor::Replay(0)
        }
    };
    Ok(Conn {
        sid,
        m,
        actor,
        server,
        script,
        cb,
        to_server: None,
        to_client: Some(None),
        cf: None,
        sf: None,
        honest,
        tampered: false,
        b64: sim.chance(1, 4),
        judged: false,
        done: false,
        delivered: 0,
    })
}

const SLOPPY_FIRST: u32 = 22;
const SLOPPY_FINAL: u32 = 26;

/// A first message with one thing wrong
fn sloppy_first(sim: &mut Sim, c: &RefClient, kind: u32) -> Vec<u8> {
    let (flag, az) = {
        let g = c.gs2();
        let mut p = g.split(',');
        (p.next().unwrap().to_string(), p.next().unwrap().to_string())
    };
    let user = crate::scram::escape(&c.user);
    let lower = |s: &str| s.replace("=2C", "=2c").replace("=3D", "=3d");
    let bare = c.bare();
    let pad = *sim.pick(&["=2C", "=3D", "=2c", "=3d", "=41", "=", "=2", "==2C", "=00"]);
    match kind {
        1 => format!("{flag},{az},n={},r={}{}", lower(&user), c.nonce, c.ext_first),
        2 => format!("{flag},{},{bare}", lower(&az)),
        3 => format!("{flag},{az},n={},r={}{}", c.user, c.nonce, c.ext_first),
        4 => format!("{flag},{az},n={user}{pad},r={}", c.nonce),
        5 => format!("{flag},{az},m=x,{bare}"),
        6 => format!("{},{az},{bare}", flag.to_uppercase()),
        7 => format!("{flag},a=,{bare}"),
        8 => format!("{flag},{},{bare}", c.user),
        9 => format!("{flag},{az},r={},n={user}", c.nonce),
        10 => format!("{flag},{az},N={user},R={}", c.nonce),
        11 => format!("{flag},{az},n={user},r={}{}", c.nonce, sim.pick(&[" ", "\t", "\u{7f}", "\u{e9}", "\0"])),
        12 => format!("{flag},{az},n={user},r="),
        13 => format!("p=,{az},{bare}"),
        14 => format!("p={},{az},{bare}", sim.pick(&["tls_exporter", "tls exporter", "TLS-EXPORTER", "tls-exporter=", "tls", "tls-exporter2"])),
        15 => format!("{flag},{az},n=,r={}", c.nonce),
        16 => format!("{flag},{az},n={user} ,r={}", c.nonce),
        17 => format!("{flag},{az},n= {user},r={}", c.nonce),
        18 => format!("{flag},A={user},{bare}"),
        19 => format!("{flag}{},{az},{bare}", sim.pick(&["=", "x", " ", "n", "y"])),
        20 => format!("{flag},a={user}{pad},{bare}"),
        21 => format!("{flag},{az},n={user},x={user},r={}", c.nonce),
        22 => format!("{flag},{az},n={user}\0,r={}", c.nonce),
        _ => format!("{flag},{az},{bare}"),
    }
    .into_bytes()
}

/// A final message with one thing wrong, but with the right proof over it
fn sloppy_final(sim: &mut Sim, r: &mut RefState, sf: &[u8]) -> Option<Vec<u8>> {
    let kind = r.sloppy?.1;
    let p = ServerFirst::parse(sf).ok()?;
    let mut commas = (0..r.sent.len()).filter(|i| r.sent[*i] == b',');
    let c2 = commas.nth(1)?;
    let gs2 = r.sent[..=c2].to_vec();
    let bare = r.sent[c2 + 1..].to_vec();
    let mut cbind = gs2.clone();
    if gs2.starts_with(b"p") {
        cbind.extend_from_slice(&r.c.cbdata);
    }
    let own = r.c.nonce.as_bytes().to_vec();
    let mut nonce = p.nonce.clone();
    match kind {
        1 => nonce.extend_from_slice(sim.pick(&["x", "A", " ", "abcdefgh", "="]).as_bytes()),
        2 => {
            for b in &mut nonce {
                *b = if b.is_ascii_lowercase() { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() };
            }
        }
        3 => {
            nonce.pop();
        }
        4 => nonce.clone_from(&own),
        5 => nonce.drain(..own.len().min(p.nonce.len())).for_each(drop),
        6 => nonce.extend_from_slice(&p.nonce),
        7 => nonce.clear(),
        8 => {
            let i = sim.usize(nonce.len());
            nonce[i] = if nonce[i] == b'k' { b'j' } else { b'k' };
        }
        9 => cbind.push(0),
        10 => {
            cbind.pop();
        }
        11 => cbind = [b"n,,".as_slice(), &cbind[gs2.len()..]].concat(),
        12 => cbind = [b"y,,".as_slice(), &cbind[gs2.len()..]].concat(),
        13 => {
            if let Some(b) = cbind.first_mut() {
                *b ^= 0x20;
            }
        }
        14 => cbind = gs2,
        15 => cbind.clear(),
        _ => {}
    }
    let mut c64 = crate::scram::b64(&cbind);
    match kind {
        16 => c64 = c64.trim_end_matches('=').to_string(),
        17 => c64.push('='),
        18 => c64.insert(c64.len() / 2, '\n'),
        _ => {}
    }
    let mut wp = format!("c={c64},r=").into_bytes();
    wp.extend_from_slice(&nonce);
    match kind {
        19 => wp.extend_from_slice(b",m=x"),
        20 => wp.extend_from_slice(b",p=YWJj"),
        21 => wp = [b"r=".as_slice(), &nonce, format!(",c={c64}").as_bytes()].concat(),
        22 => wp = [b"m=x,".as_slice(), &wp].concat(),
        _ => wp.extend_from_slice(r.c.ext_final.as_bytes()),
    }
    let k = match &r.keys {
        Some(k) => k.clone(),
        None => Keys::derive(r.c.hash, &r.c.password, &p.salt, if p.iter > 8000 { 1 } else { p.iter }),
    };
    let am = crate::scram::auth_message(&bare, sf, &wp);
    let mut proof = crate::scram::xor(&k.client, &crate::scram::hmac(r.c.hash, &k.stored, &am));
    match kind {
        23 => proof.push(0),
        24 => {
            // as good as one ending with zero, unless it ended with zero
            proof.pop();
        }
        _ => {}
    }
    let mut p64 = crate::scram::b64(&proof);
    match kind {
        25 => p64 = p64.trim_end_matches('=').to_string(),
        26 => p64.push_str(",x=1"),
        _ => {}
    }
    r.sig = Some(crate::scram::hmac(r.c.hash, &k.server, &am));
    let mut m = wp;
    m.extend_from_slice(b",p=");
    m.extend_from_slice(p64.as_bytes());
    Some(m)
}

/// The client side reacts; what it sends is put on the wire
fn client_turn(sim: &mut Sim, w: &mut World, c: &mut Conn) {
    let input = c.to_client.take().unwrap();
    let out: Option<Vec<u8>> = match &mut c.actor {
        Actor::Real(s) => {
            if !s.alive() {
                None
            } else {
                let o = s.step(input.as_deref(), &WCfg::default());
                sim.ev(format!("client#{} -> {} \"{}\"", s.sid, o.res.short(), show(&o.bytes)));
                match o.res {
                    R::Running | R::FinYes => Some(o.bytes),
                    _ => None,
                }
            }
        }
        Actor::Ref(r) => {
            r.stage += 1;
            match r.stage {
                1 => {
                    let m = match r.sloppy {
                        Some((k, _)) => sloppy_first(sim, &r.c, k),
                        None => r.c.first(),
                    };
                    r.sent.clone_from(&m);
                    Some(m)
                }
                2 if r.sloppy.is_some() => sloppy_final(sim, r, &input.unwrap_or_default()),
                2 => {
                    let sf = input.unwrap_or_default();
                    let p = ServerFirst::parse(&sf);
                    let last = match (&r.keys, &p) {
                        (Some(k), Ok(p)) => Some(r.c.last_with(k, &sf, &p.nonce)),
                        (None, Ok(p)) if p.iter > 8000 => {
                            // an invented record: don't burn the rounds, any proof will do
                            let k = Keys::derive(r.c.hash, &r.c.password, &p.salt, 1);
                            Some(r.c.last_with(&k, &sf, &p.nonce))
                        }
                        (None, _) => r.c.last(&sf).ok(),
                        _ => None,
                    };
                    last.map(|(m, sig)| {
                        r.sig = Some(sig);
                        m
                    })
                }
                _ => {
                    let v = input.unwrap_or_default();
                    let want = r.sig.clone().unwrap_or_default();
                    r.accepted = v == format!("v={}", crate::scram::b64(&want)).into_bytes();
                    None
                }
            }
        }
        Actor::Replay(n) => {
            *n += 1;
            if *n > 2 {
                None
            } else {
                w.corpus.any(sim).or_else(|| Some(b"n,,n=user,r=abc".to_vec()))
            }
        }
    };
    match out {
        Some(m) => {
            w.corpus.add(&m);
            c.to_server = Some(m);
        }
        None => c.done = true,
    }
}

/// Deliver to the server and judge what it makes of it
fn server_turn(sim: &mut Sim, w: &mut World, c: &mut Conn) -> Res {
    let orig = c.to_server.take().unwrap();
    let mut msg = orig.clone();
    let mut again = false;
    match sim.weighted(&[20, 5, 2, 2, 1, 1]) {
        0 => {}
        1 => {
            let n = sim.range(1, 3);
            for _ in 0..n {
                msg = mutate(sim, &msg, &w.corpus);
            }
        }
        2 => {
            if let Some(o) = w.corpus.any(sim) {
                msg = o;
                sim.fault("replay");
            }
        }
        3 => {
            // the server is stepped without data first
            sim.fault("spurious_step");
            let o = c.server.step(None, &WCfg::default());
            ensure!(o.bytes.is_empty(), "wrote-without-input", "server wrote {} without input", show(&o.bytes));
            if !o.res.is_input_required() {
                c.done = true;
                return Ok(());
            }
        }
        4 => {
            sim.fault("connection_lost");
            c.done = true;
            return Ok(());
        }
        _ => {
            // delivered twice: the second copy arrives instead of the client's next message
            again = true;
            sim.fault("duplicate");
        }
    }
    if msg != orig || again {
        c.tampered = true;
    }
    let before = c.server.app.log_len(c.sid);
    let o = c.server.step_via(Some(&msg), c.b64, &WCfg::default());
    c.delivered += 1;
    sim.mark(&format!("s{}:{}", c.delivered, o.res.label()));
    sim.ev(format!(
        "server#{} {} step(\"{}\") -> {} \"{}\"",
        c.sid,
        c.m.name(),
        show(&msg),
        o.res.short(),
        show(&o.bytes)
    ));
    let log = c.server.app.log(c.sid)[before..].to_vec();
    let validated: Vec<_> = log
        .iter()
        .filter_map(|e| match e {
            AppEv::Validate { ctx, .. } => Some(ctx.clone()),
            _ => None,
        })
        .collect();
    let val = c.server.validation();
    let view = ServerView {
        hash: c.m.hash().unwrap(),
        plus: c.m.plus(),
        can_cb: w.with_plus,
        cbdata: &c.cb,
        users: &c.script.users,
    };
    let claims = o.bytes.starts_with(b"v=");
    if c.cf.is_none() {
        // first message
        ensure!(
            validated.is_empty() && val.is_none() && !claims && !o.res.finished(),
            "accepted-without-proof",
            "server reports success after the first message: {} \"{}\"",
            o.res.short(),
            show(&o.bytes)
        );
        let strict = ClientFirst::parse(&msg);
        for e in &log {
            if let AppEv::Req { prop, ctx, .. } = e {
                if *prop == "ScramStoredPassword" {
                    if let Ok(s) = &strict {
                        ensure!(
                            ctx.authid.as_ref() == Some(&s.user) && ctx.authzid == s.authzid,
                            "misattributed",
                            "message names {:?}/{:?}, application was asked for {:?}/{:?}",
                            s.user,
                            s.authzid,
                            ctx.authid,
                            ctx.authzid
                        );
                    }
                }
            }
        }
        if o.res != R::Running {
            c.done = true;
            let usable = strict.as_ref().ok().is_some_and(|s| {
                c.script.users.iter().find(|(n, _)| *n == s.user).map_or(true, |(_, r)| usable(&view, r))
            });
            if c.honest && !c.tampered && usable {
                return viol(
                    "honest-refused",
                    format!("first message of an honest client refused: {}", o.res.short()),
                );
            }
            return Ok(());
        }
        c.cf = Some(msg);
        c.sf = Some(o.bytes.clone());
        if let (Ok(s), Ok(sf)) = (&strict, ServerFirst::parse(&o.bytes)) {
            ensure!(
                sf.nonce.starts_with(&s.nonce) && sf.nonce.len() > s.nonce.len(),
                "nonce",
                "server nonce does not extend the client's: {}",
                show(&o.bytes)
            );
        }
    } else {
        // final message
        c.done = true;
        c.judged = true;
        let verdict = judge(&view, c.cf.as_ref().unwrap(), c.sf.as_ref().unwrap(), &msg);
        sim.ev(format!("model: {verdict:?}"));
        let success = claims && o.res.finished();
        let any_success = success || !validated.is_empty() || val.is_some();
        match verdict {
            Verdict::Reject(why) => {
                sim.probe("final_rejected");
                ensure!(
                    !any_success && !claims,
                    "accepted-bad-proof",
                    "server accepts although: {why}; wrote \"{}\", {} validations, result {}",
                    show(&o.bytes),
                    validated.len(),
                    val.is_some()
                );
            }
            Verdict::Accept { ref user, ref authzid, ref signature } | Verdict::Either { ref user, ref authzid, ref signature, .. } => {
                let must = matches!(verdict, Verdict::Accept { .. });
                sim.probe(if must { "final_accepted" } else { "final_unspecified" });
                if must {
                    ensure!(
                        validated.len() == 1,
                        "good-proof-refused",
                        "a correct proof of {user:?} is refused: {} \"{}\"",
                        o.res.short(),
                        show(&o.bytes)
                    );
                    let policy_ok = c.script.validate != ValPolicy::Boxed;
                    ensure!(
                        success == policy_ok,
                        "outcome",
                        "application says {:?}, server says {} \"{}\"",
                        c.script.validate,
                        o.res.short(),
                        show(&o.bytes)
                    );
                }
                if any_success {
                    ensure!(
                        validated.len() == 1 && validated[0].authid.as_ref() == Some(user) && validated[0].authzid == *authzid,
                        "misattributed",
                        "proof is for {user:?}/{authzid:?}, application was told {:?}",
                        validated
                    );
                }
                if success {
                    let want = format!("v={}", crate::scram::b64(signature)).into_bytes();
                    ensure!(
                        o.bytes == want,
                        "wrong-signature",
                        "server signature is \"{}\", should be \"{}\"",
                        show(&o.bytes),
                        show(&want)
                    );
                    ensure!(
                        val.is_some() == (c.script.validate == ValPolicy::Accept),
                        "validation-value",
                        "application policy {:?}, validation value {:?}",
                        c.script.validate,
                        val
                    );
                    if c.script.validate == ValPolicy::Accept {
                        sim.probe("accepted");
                    }
                }
            }
        }
        if c.honest && !c.tampered && c.script.validate == ValPolicy::Accept {
            ensure!(
                success && val.is_some(),
                "honest-refused",
                "an undisturbed honest client is refused: {} \"{}\"",
                o.res.short(),
                show(&o.bytes)
            );
        }
    }
    if matches!(o.res, R::Running | R::FinYes) {
        w.corpus.add(&o.bytes);
        let mut b = o.bytes.clone();
        if sim.chance(1, 16) {
            b = mutate(sim, &b, &w.corpus);
            if b != o.bytes {
                c.tampered = true;
            }
        }
        cap_iterations(&mut b, 9000);
        if b != o.bytes {
            c.tampered = true;
        }
        if again && !c.done {
            c.to_server = Some(orig);
        } else {
            c.to_client = Some(Some(b));
        }
    } else if !matches!(o.res.kind(), Some(ErrKind::Input)) {
        c.done = true;
    }
    Ok(())
}

fn usable(v: &ServerView, r: &Stored) -> bool {
    let n = crate::scram::size(v.hash);
    r.stored_key.len() == n && r.server_key.len() == n
}

fn run(sim: &mut Sim) -> Res {
    let with_plus = sim.chance(1, 2);
    let nu = sim.range(1, 4) as usize;
    let mut users: Vec<(String, Vec<u8>)> = Vec::new();
    for _ in 0..nu {
        let mut n = match sim.below(4) {
            0 => gen::hostile(sim).replace('\0', "0"),
            _ => gen::plain_name(sim),
        };
        if n.is_empty() {
            n.push('u');
        }
        let p = if sim.chance(1, 5) { gen::password(sim) } else { gen::plain_password(sim) };
        if !users.iter().any(|(u, _)| *u == n) {
            users.push((n, p));
        }
    }
    // names that look like an escaped or shortened form of another one
    let base = users[0].0.clone();
    let alias = match sim.below(4) {
        0 => crate::scram::escape(&base),
        1 => base.replace("=2C", ",").replace("=3D", "="),
        2 => format!("{base},"),
        _ => base.to_uppercase(),
    };
    if !alias.is_empty() && !users.iter().any(|(u, _)| *u == alias) {
        users.push((alias, gen::plain_password(sim)));
    }
    let mut w = World {
        corpus: Corpus::default(),
        users,
        with_plus,
        next: 1,
    };
    let sapp = App::with_cb(with_plus);
    let scfg = Config::new(&sapp, if with_plus { SCRAM } else { &[Mech::S1, Mech::S256, Mech::S512] });
    let capps = [App::with_cb(false), App::with_cb(true)];
    let total = sim.range(1, 6);
    let conc = sim.range(1, 3) as usize;
    let mut started = 0;
    let mut conns: Vec<Conn> = Vec::new();
    loop {
        let live: Vec<usize> = (0..conns.len()).filter(|i| !conns[*i].done).collect();
        if started < total && (live.len() < conc) {
            let c = connect(sim, &mut w, &capps, &scfg)?;
            conns.push(c);
            started += 1;
            continue;
        }
        if live.is_empty() {
            break;
        }
        let i = live[sim.usize(live.len())];
        sim.advance(1000);
        let mut c = conns.swap_remove(i);
        let r = if c.to_client.is_some() {
            client_turn(sim, &mut w, &mut c);
            Ok(())
        } else if c.to_server.is_some() {
            server_turn(sim, &mut w, &mut c)
        } else {
            c.done = true;
            Ok(())
        };
        if let Some(R::Panic(p)) = &c.server.last {
            // a matter of C05; here the connection is just dead, but must not have reported success
            sim.ev(format!("server panicked: {p}"));
            c.done = true;
        }
        conns.push(c);
        let k = conns.len() - 1;
        conns.swap(i, k);
        r?;
    }
    for c in &conns {
        let n = sapp.validations(c.sid).len();
        ensure!(n <= 1, "validated-twice", "session {} validated {n} times", c.sid);
        ensure!(
            n == 0 || c.judged,
            "validated-unjudged",
            "session {} validated without a final message",
            c.sid
        );
    }
    Ok(())
}
