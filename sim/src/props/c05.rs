//! C05: whatever the peer sends and the application answers, stepping returns, in time and within memory.
use super::*;
use crate::adv::{cap_iterations, mutate, Corpus};
use crate::app::{App, Cached, Hit, OErr, Script, Stored, ValPolicy};
use crate::ensure;
use crate::exch::Who;
use crate::gen;
use crate::gss::{self, GssCfg, PeerCtx};
use crate::io::WCfg;
use crate::scram::{b64, unb64_lenient};
use crate::sess::*;
use crate::sim::{viol, Res, Sim};
use base64::engine::general_purpose::STANDARD;
use base64::Engine;
use rsasl::prelude::Mechname;

pub const PROP: Prop = Prop {
    id: "C05",
    run,
    quick: 600_000,
    thorough: 12_000_000,
    hang_s: 30,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

/// What a call may take at most, for `n` bytes of input and `app` bytes of application data
fn allowance(n: usize, app: usize) -> usize {
    (256 << 10) + 64 * n + 64 * app
}

fn weight(s: &Script) -> usize {
    let o = |x: &Option<String>| x.as_ref().map_or(0, String::len);
    o(&s.authid)
        + o(&s.authzid)
        + o(&s.token)
        + o(&s.anon)
        + o(&s.cbtype)
        + o(&s.refuse_x)
        + s.password.as_ref().map_or(0, Vec::len)
        + s.salted.as_ref().map_or(0, Vec::len)
        + s.kv.as_ref().map_or(0, |k| k.iter().map(|(a, b)| a.len() + b.len()).sum())
        + s.users.iter().map(|(n, r)| n.len() + r.salt.len() + r.stored_key.len() + r.server_key.len()).sum::<usize>()
        + s.cbdata.iter().map(|(n, r)| n.len() + r.len()).sum::<usize>()
        + s.refuse.as_ref().map_or(0, |e| e.status.len() + o(&e.scope) + o(&e.conf))
}

/// Make an application that is not careful
pub fn spoil(sim: &mut Sim, m: Mech, s: &mut Script) {
    for _ in 0..sim.usize(4) {
        sim.nontrivial = true;
        match sim.below(14) {
            0 => s.authid = Some(gen::hostile(sim)),
            1 => s.authzid = Some(gen::hostile(sim)),
            2 => s.password = Some(gen::password(sim)),
            3 => s.token = Some(gen::token(sim)),
            4 => s.anon = Some(gen::hostile(sim)),
            5 => s.authid = None,
            6 => s.password = None,
            7 => {
                let at = sim.below(8);
                let h = *sim.pick(&[
                    Hit::Decline,
                    Hit::NoValue,
                    Hit::NoCallback,
                    Hit::Boxed,
                    Hit::Io,
                    Hit::Swallow,
                    Hit::Twice,
                    Hit::WrongTypes,
                    Hit::ErrAfter,
                ]);
                s.hits.push((at, h));
                sim.fault("callback_misbehaves");
            }
            8 => {
                s.validate = *sim.pick(&[
                    ValPolicy::Decline,
                    ValPolicy::Missing,
                    ValPolicy::Boxed,
                    ValPolicy::Twice,
                    ValPolicy::WrongType,
                    ValPolicy::FinalizeThenErr,
                ])
            }
            9 => {
                let n = sim.usize(4);
                s.kv = Some((0..n).map(|_| (gen::hostile(sim), gen::hostile(sim))).collect());
            }
            10 => {
                // Keys and records of any size and content
                let k = |sim: &mut Sim| {
                    let n = *sim.pick(&[0usize, 1, 19, 20, 21, 31, 32, 33, 63, 64, 65, 128, 4096]);
                    vec![sim.below(256) as u8; n]
                };
                let (a, b) = (k(sim), k(sim));
                if sim.chance(1, 2) {
                    s.cached.push(Cached { params: None, client_key: a, server_key: b });
                } else {
                    let salt = k(sim);
                    let iter = *sim.pick(&[0, 1, 4096, u32::MAX]);
                    let name = s
                        .users
                        .first()
                        .map_or_else(|| "user".to_string(), |(n, _)| n.clone());
                    s.users = vec![(name, Stored { iter, salt, stored_key: a, server_key: b })];
                }
                sim.fault("unusable_keys");
            }
            11 => {
                let n = *sim.pick(&[0usize, 1, 20, 32, 64, 1000]);
                s.salted = Some(vec![7; n]);
                sim.fault("unusable_keys");
            }
            12 => {
                s.refuse = Some(OErr {
                    status: gen::hostile(sim),
                    scope: Some(gen::hostile(sim)),
                    conf: None,
                });
                s.refuse_x = Some(gen::hostile(sim));
                s.no_oauth_answer = sim.chance(1, 5);
            }
            _ => {
                s.cbdata = vec![(gen::cbname(sim).to_string(), gen::cbdata(sim))];
                s.cbtype = Some(if sim.chance(1, 2) {
                    gen::hostile(sim)
                } else {
                    gen::cbname(sim).to_string()
                });
                s.gss_layer = Some(sim.below(256) as u8);
                s.refuse_actions = sim.chance(1, 4);
            }
        }
    }
    if m == Mech::Gss && sim.chance(1, 4) {
        s.gss_service = Some((gen::hostile(sim), gen::hostile(sim)));
    }
}

pub const SEEDS: &[&[u8]] = &[
    b"",
    b"\0",
    b"\0\0",
    b"\0\0\0\0",
    b"\0user\0pass",
    b"a\0\0",
    b"user",
    b"user\0",
    b"n,,",
    b"n,,n=",
    b"n,,n=,r=",
    b"n,,n=user,r=",
    b"n,,n=user,r=abc",
    b"y,a=x,n=user,r=abc",
    b"p=tls-unique,,n=user,r=abc",
    b"p=,,n=user,r=abc",
    b"p=\xc3,,n=\xff,r=\xfe",
    b"n,a=,n=user,r=abc",
    b"n,,n=us=er,r=abc",
    b"n,,n=us=2,r=abc",
    b"n,,n==,r=abc",
    b"n,,m=x,n=user,r=abc",
    b",",
    b",,",
    b",,,",
    b",,,,,,,,",
    b"=",
    b"r=,s=,i=",
    b"r=x,s=x,i=1",
    b"r=x,s=YWFh,i=0",
    b"i=1,s=YWFh,r=x",
    b"s=YWFh",
    b"v=",
    b"v=!",
    b"v=YWFh",
    b"e=",
    b"e=other-error",
    b"e=\xff",
    b"c=biws",
    b"c=biws,r=",
    b"c=biws,r=abc,p=",
    b"c=biws,r=abc,p=YWFh",
    b"c=,r=,p=",
    b"c=!,r=!,p=!",
    b"p=YWFh",
    b"user=\x01auth=Bearer \x01\x01",
    b"user=a\x01auth=Bearer t\x01\x01",
    b"auth=Bearer t\x01\x01",
    b"n,,\x01auth=Bearer t\x01\x01",
    b"n,,\x01auth=\x01\x01",
    b"n,,\x01\x01",
    b"n,,\x01a\x01\x01",
    b"n,,\x01=\x01\x01",
    b"n,,\x01",
    b"n,a=x\x01",
    b"n,a=user,\x01host=h\x01port=1\x01auth=Bearer t\x01\x01",
    b"\x01",
    b"\x01\x01",
    b"{}",
    b"{\"status\":\"invalid_token\"}",
    b"{\"status\":1}",
    b"{\"status\":\"\\ud800\"}",
    b"{\"status\":\"\\u0000\",\"scope\":null,\"openid-configuration\":[]}",
    b"null",
    b"1e999",
    b"\"",
    b"\xef\xbb\xbf",
    b"\xff\xfe",
    b"User Name\0",
    b"Password\0",
    b"W\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0",
];

/// Something long or deep
fn huge(sim: &mut Sim) -> Vec<u8> {
    sim.fault("huge_message");
    let n = *sim.pick(&[1000usize, 5_000, 20_000, 70_000, 70_001, 200_000]);
    let rep = |b: &[u8], n: usize| b.repeat(n / b.len() + 1);
    let cat = |a: &[u8], b: Vec<u8>, c: &[u8]| [a, &b, c].concat();
    match sim.below(20) {
        0 => rep(b"[", n),
        1 => cat(b"{\"a\":", rep(b"[", n), b""),
        2 => rep(b"{\"a\":", n),
        3 => cat(b"{\"status\":\"", rep(b"x", n), b"\"}"),
        4 => rep(b",", n),
        5 => cat(b"n,,n=", rep(b"a", n), b",r=abc"),
        6 => cat(b"n,,n=", rep(b"=2C", n), b",r=abc"),
        7 => cat(b"n,,n=user,r=", rep(b"a", n), b""),
        8 => cat(b"n,,n=user,r=abc", rep(b",x=1", n), b""),
        9 => rep(b"\0", n),
        10 => cat(b"\0", rep(b"a", n), b"\0pw"),
        11 => cat(b"n,,\x01auth=Bearer t\x01", rep(b"a=b\x01", n), b"\x01"),
        12 => cat(b"user=a\x01auth=Bearer ", rep(b"t", n), b"\x01\x01"),
        13 => rep("\u{e9}".as_bytes(), n),
        14 => rep("e\u{301}".as_bytes(), n),
        15 => rep("\u{fdfa}".as_bytes(), n),
        16 => cat(b"r=", rep(b"a", n), b",s=YWFh,i=1"),
        17 => cat(b"r=abc,s=", rep(b"YWFh", n / 4 * 4), b",i=1"),
        18 => cat(b"v=", rep(b"YWFh", n / 4 * 4), b""),
        _ => cat(b"\0", rep("\u{fdfa}".as_bytes(), n), b"\0pw"),
    }
}

fn garbage(sim: &mut Sim) -> Vec<u8> {
    match sim.weighted(&[6, 3, 2, 1]) {
        0 => {
            sim.fault("garbage");
            sim.pick(SEEDS).to_vec()
        }
        1 => {
            sim.fault("garbage");
            sim.bytes(60)
        }
        2 => {
            let a = sim.pick(SEEDS).to_vec();
            let c = Corpus { msgs: SEEDS.iter().map(|s| s.to_vec()).collect() };
            mutate(sim, &a, &c)
        }
        _ => huge(sim),
    }
}

/// The peer's messages: from a real session as long as it talks, otherwise made up
struct Peer {
    real: Option<Sess>,
    gss: Option<PeerCtx>,
    seq: u64,
}

/// A server-first that fits the nonce the victim just sent
fn crafted(sim: &mut Sim, m: Mech, victim_client: bool, sent: &[Vec<u8>], peer: &mut Peer) -> Option<Vec<u8>> {
    if m == Mech::Gss {
        let p = peer.gss.as_mut()?;
        if !p.done() {
            return Some(p.make());
        }
        let payload = match sim.below(4) {
            0 => vec![7, 0xff, 0xff, 0xff],
            1 => vec![sim.below(256) as u8, sim.below(256) as u8, 0, 0],
            2 => sim.bytes(8),
            _ => vec![1 << sim.below(3), 0, 0, 0],
        };
        let conf = sim.chance(1, 4);
        let r = gss::seal(p.key, !victim_client, peer.seq, conf, &payload);
        peer.seq += 1;
        sim.fault("crafted_message");
        return Some(r);
    }
    m.hash()?;
    let last = sent.last()?;
    let nonce = last
        .split(|b| *b == b',')
        .find_map(|a| a.strip_prefix(b"r="))
        .unwrap_or(b"abc")
        .to_vec();
    sim.fault("crafted_message");
    if victim_client {
        let ext: &[u8] = *sim.pick(&[&b"ext"[..], b"", b"\xff", b"=", b"\x7f"]);
        let salt: String = match sim.below(5) {
            0 => String::new(),
            1 => b64(&vec![1; 5000]),
            2 => "YWFh".into(),
            3 => "YW".into(),
            _ => b64(&gen::salt(sim)),
        };
        let iter = *sim.pick(&["1", "2", "0", "-1", "4294967295", "4294967296", "99999999999999999999", "", "1e3", "+1"]);
        Some([b"r=".to_vec(), nonce, ext.to_vec(), format!(",s={salt},i={iter}").into_bytes()].concat())
    } else {
        let cb: String = match sim.below(5) {
            0 => "biws".into(),
            1 => b64(b"p=tls-unique,,x"),
            2 => String::new(),
            3 => b64(&vec![b'n'; 3000]),
            _ => b64(b"y,,"),
        };
        let plen = *sim.pick(&[0usize, 1, 19, 20, 21, 32, 33, 64, 65, 1000]);
        let proof = b64(&vec![sim.below(256) as u8; plen]);
        let x: &str = *sim.pick(&["", ",x=1", ",m=1", ","]);
        Some([format!("c={cb},r=").into_bytes(), nonce, format!("{x},p={proof}").into_bytes()].concat())
    }
}

fn check(sim: &mut Sim, m: Mech, who: Who, what: &str, o: &Out, n: usize, app: usize) -> Res {
    sim.mark(&format!("{}:{}", what, o.res.label()));
    ensure!(
        !matches!(o.res, R::Panic(_)),
        "panic",
        "{} {} {what}: {}",
        m.name(),
        who.name(),
        o.res.short()
    );
    let lim = allowance(n, app);
    ensure!(
        o.peak <= lim,
        "memory",
        "{} {} {what}: {} bytes allocated for an input of {n} bytes",
        m.name(),
        who.name(),
        o.peak
    );
    Ok(())
}

fn names(sim: &mut Sim) -> Res {
    // mechanism names and lists as a server may announce them
    let n = sim.usize(12);
    let mut offer: Vec<Vec<u8>> = Vec::new();
    for _ in 0..n {
        offer.push(match sim.below(4) {
            0 => sim.pick(ALL).name().as_bytes().to_vec(),
            1 => sim.bytes(24),
            2 => {
                let mut b = sim.pick(ALL).name().as_bytes().to_vec();
                let l = b.len();
                b[sim.usize(l)] = sim.below(256) as u8;
                b
            }
            _ => b"A".repeat(*sim.pick(&[19usize, 20, 21, 0, 100, 5000])),
        });
    }
    sim.fault("hostile_mechanism_list");
    let parsed = match guarded(|| offer.iter().filter_map(|o| Mechname::parse(o).ok()).collect::<Vec<_>>()) {
        Ok(p) => p,
        Err(p) => return viol("panic", format!("parsing a mechanism name: {p}")),
    };
    let app = App::with_cb(sim.chance(1, 2));
    let cfg = Config::new(&app, ALL);
    match start_client(&cfg, 1, &parsed, Vec::new()) {
        Err(StartErr::Panic(p)) => return viol("panic", format!("starting a client for {parsed:?}: {p}")),
        Ok(_) => sim.probe("started_from_hostile_list"),
        Err(_) => {}
    }
    if let Some(p) = parsed.first() {
        if let Err(StartErr::Panic(e)) = start_server(&cfg, 2, p, Vec::new()) {
            return viol("panic", format!("starting a server for {p:?}: {e}"));
        }
    }
    sim.ev(format!("mechanism list of {} entries, {} valid", offer.len(), parsed.len()));
    Ok(())
}

fn run(sim: &mut Sim) -> Res {
    if sim.chance(1, 30) {
        return names(sim);
    }
    gss::reset();
    let mechs: Vec<Mech> = ALL.iter().chain(&[Mech::Gss]).copied().collect();
    let m = *sim.pick(&mechs);
    let who = if sim.chance(1, 2) { Who::Client } else { Who::Server };
    let (mut c, mut s, cb) = gen::honest(sim, m);
    let (vs, _) = match who {
        Who::Client => (&mut c, &s),
        Who::Server => (&mut s, &c),
    };
    if sim.chance(2, 3) {
        spoil(sim, m, vs);
    }
    // no keys are derived, so the iteration count need not be bounded for the sake of the run
    let keyed = c.hits.is_empty() && (!c.cached.is_empty() || c.password.is_none() || c.salted.as_ref().is_some_and(|s| !s.is_empty()));
    let cap = |m: &mut Vec<u8>| {
        if who == Who::Client && !keyed {
            cap_iterations(m, 20_000);
        }
    };
    let w = match who {
        Who::Client => weight(&c),
        Who::Server => weight(&s),
    };
    if m == Mech::Gss {
        for sid in [1, 2] {
            let g = GssCfg {
                tokens: 1 + sim.below(4) as u8,
                flags: if sim.chance(1, 2) { gss::ALLF } else { sim.below(64) },
                fail: (sid == 1 && sim.chance(1, 3)).then(|| sim.below(12)),
                seed: 5,
            };
            if g.fail.is_some() {
                sim.fault("security_provider_failure");
            }
            gss::configure(sid, g);
        }
    }
    let vapp = App::with_cb(true);
    let papp = App::with_cb(true);
    let vcfg = Config::new(&vapp, &[m]);
    let pcfg = Config::new(&papp, &[m]);
    let (mut v, p) = match who {
        Who::Client => {
            vapp.set(1, c);
            papp.set(2, s);
            (client_for(&vcfg, 1, m, cb.clone())?, server_for(&pcfg, 2, m, cb))
        }
        Who::Server => {
            vapp.set(1, s);
            papp.set(2, c);
            (server_for(&vcfg, 1, m, cb.clone())?, client_for(&pcfg, 2, m, cb))
        }
    };
    let mut peer = Peer { real: p.ok(), gss: None, seq: 0 };
    if m == Mech::Gss && who == Who::Server {
        peer.gss = Some(PeerCtx::initiator(1 + sim.below(3) as u8, if sim.chance(1, 2) { gss::ALLF } else { sim.below(64) }, 99));
    }
    sim.ev(format!("C05 {} victim {}", m.name(), who.name()));
    let mut corpus = Corpus::default();
    let mut sent: Vec<Vec<u8>> = Vec::new();
    // what the victim sent last and the peer has not seen yet
    let mut pending: Option<Vec<u8>> = None;
    let mut from_peer: Option<Vec<u8>> = None;
    if v.first() {
        // nothing to wait for
    } else if let Some(p) = peer.real.as_mut() {
        if p.first() {
            let o = p.step(None, &WCfg::default());
            if o.res.ok() {
                corpus.add(&o.bytes);
                from_peer = Some(o.bytes);
            }
        }
    }
    let faithful = sim.chance(1, 3);
    // everything said so far; a session may keep what it was told
    let mut told = 0;
    let n = sim.range(1, 9);
    for i in 0..n {
        // the honest continuation
        if let (Some(mut msg), Some(p)) = (pending.take(), peer.real.as_mut()) {
            cap_iterations(&mut msg, 20_000);
            if p.alive() {
                let o = p.step(Some(&msg), &WCfg::default());
                if let R::Panic(x) = &o.res {
                    return viol("panic", format!("{} peer of the {}: {x}", m.name(), who.name()));
                }
                if matches!(o.res, R::Running | R::FinYes) {
                    corpus.add(&o.bytes);
                    from_peer = Some(o.bytes);
                }
            }
        }
        if sim.chance(1, 6) || !v.alive() {
            let d = match sim.below(3) {
                0 => Vec::new(),
                1 => sim.bytes(40),
                _ => corpus.any(sim).unwrap_or_default(),
            };
            let wc = WCfg::transparent(sim);
            let enc = sim.chance(1, 2);
            let o = if enc { v.encode(&d, &wc) } else { v.decode(&d, &wc) };
            sim.ev(format!("{} -> {}", if enc { "encode" } else { "decode" }, o.res.short()));
            told += d.len();
            check(sim, m, who, if enc { "encode" } else { "decode" }, &o, told, w)?;
            if let Err(p) = guarded(|| {
                let _ = v.has_layer();
                let _ = v.validation();
            }) {
                return viol("panic", format!("{} {}: asking the session: {p}", m.name(), who.name()));
            }
            if !v.alive() {
                continue;
            }
        }
        let (fw, cw) = if faithful { (12, 3) } else { (4, 4) };
        let mut input: Option<Vec<u8>> = match sim.weighted(&[fw, 4, 4, cw, 2, 1]) {
            0 => from_peer.take().or_else(|| (i > 0).then(|| garbage(sim))),
            1 => {
                let b = from_peer.clone().or_else(|| corpus.any(sim)).unwrap_or_else(|| sim.pick(SEEDS).to_vec());
                let mut b = mutate(sim, &b, &corpus);
                if sim.chance(1, 3) {
                    b = mutate(sim, &b, &corpus);
                }
                Some(b)
            }
            2 => Some(garbage(sim)),
            3 => {
                if m == Mech::Gss && who == Who::Client && peer.gss.is_none() {
                    peer.gss = sent.first().and_then(|t| PeerCtx::acceptor(t));
                }
                crafted(sim, m, who == Who::Client, &sent, &mut peer).or_else(|| Some(garbage(sim)))
            }
            4 => {
                sim.fault("absent_message");
                None
            }
            _ => {
                sim.fault("empty_message");
                Some(Vec::new())
            }
        };
        if let Some(i) = input.as_mut() {
            cap(i);
        }
        let wc = if sim.chance(1, 8) {
            let at = sim.usize(120);
            WCfg::failing(sim, at)
        } else {
            WCfg::transparent(sim)
        };
        let raw_len = input.as_ref().map_or(0, Vec::len);
        let b64 = sim.chance(1, 2);
        let (o, shown) = if b64 {
            let mut t = input.as_ref().map(|i| STANDARD.encode(i).into_bytes());
            if let Some(t) = t.as_mut() {
                if sim.chance(1, 4) {
                    sim.fault("tamper_base64_text");
                    match sim.below(5) {
                        0 => *t = input.clone().unwrap_or_default(),
                        1 => {
                            t.pop();
                        }
                        2 => t.push(b'='),
                        3 if !t.is_empty() => {
                            let k = sim.usize(t.len());
                            t[k] = sim.below(256) as u8;
                        }
                        _ => {
                            let k = sim.usize(t.len() + 1);
                            t.insert(k, *sim.pick(b"\n =A\xff\0"));
                        }
                    }
                    // what came out of it may be well-formed and just say something else
                    if let Some(mut d) = unb64_lenient(t) {
                        let before = d.clone();
                        cap(&mut d);
                        if d != before {
                            *t = STANDARD.encode(&d).into_bytes();
                        }
                    }
                }
            }
            let n = t.as_ref().map_or(0, Vec::len);
            told += n;
            let o = v.step_as(t.as_deref(), true, &wc);
            check(sim, m, who, "step64", &o, told, w)?;
            (o, t)
        } else {
            let o = v.step(input.as_deref(), &wc);
            told += raw_len;
            check(sim, m, who, "step", &o, told, w)?;
            (o, input)
        };
        sim.ev(format!(
            "{} step{}({}) -> {} \"{}\"",
            who.name(),
            if b64 { "64" } else { "" },
            show_opt(shown.as_deref()),
            o.res.short(),
            show(&o.bytes)
        ));
        if matches!(o.res, R::Running | R::FinYes) {
            let bytes = if b64 { STANDARD.decode(&o.bytes).unwrap_or_default() } else { o.bytes };
            corpus.add(&bytes);
            sent.push(bytes.clone());
            if let Some(g) = peer.gss.as_mut() {
                if !g.done() && who == Who::Server {
                    g.took();
                }
            }
            pending = Some(bytes);
            sim.probe("victim_went_on");
        }
        if o.res.finished() {
            sim.probe("victim_finished");
        }
    }
    Ok(())
}
