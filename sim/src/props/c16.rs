//! C16: a security layer is used exactly as both sides agreed, and only then.
use super::*;
use crate::adv::{cap_iterations, mutate, Corpus};
use crate::app::{App, Script};
use crate::ensure;
use crate::exch::Who;
use crate::gss::{self, GssCfg, PeerCtx, ALLF, CONF, INTEG, MUTUAL};
use crate::io::WCfg;
use crate::sess::*;
use crate::sim::{Res, Sim, Violation};
use crate::twin::{Story, EVERY};

pub const PROP: Prop = Prop {
    id: "C16",
    run,
    quick: 600_000,
    thorough: 12_000_000,
    hang_s: 30,
    rule: DISTINCT,
    real: "rsasl's GSSAPI mechanism of both sides and the libgssapi binding; for mechanisms without layers their sessions of both sides",
    stub: "the system's GSS-API library (a simulated implementation at the C interface: no Kerberos here), network, writers, applications, system randomness",
    assumptions: &[
        "search, not enumeration: absence of a violation in the explored runs is no proof",
        "a context supports encryption if it has the confidentiality flag, integrity protection if it has the integrity flag; rsasl additionally wants mutual authentication for encryption, contexts in between may succeed or fail",
        "the maximum message sizes exchanged are not looked at",
    ],
};

const NONE: u8 = 1;
const INT: u8 = 2;
const ENC: u8 = 4;

fn bad(class: &'static str, msg: String) -> Violation {
    Violation { class: class.into(), msg }
}

fn run(sim: &mut Sim) -> Res {
    match sim.weighted(&[6, 3, 3, 3]) {
        0 => pair(sim),
        1 => hostile_client(sim),
        2 => hostile_server(sim),
        _ => none(sim),
    }
}

/// Without a layer both operations are refused and nothing is written
fn refused(sim: &mut Sim, what: &str, s: &mut Sess, corpus: &Corpus) -> Res {
    ensure!(!s.has_layer(), "claims", "{what}: a security layer is said to be installed");
    let data = match sim.below(4) {
        0 => Vec::new(),
        1 => corpus.any(sim).unwrap_or_default(),
        2 => gss::seal(7, s.is_client(), 0, true, b"data"),
        _ => sim.bytes(60),
    };
    let encode = sim.chance(1, 2);
    let w = if sim.chance(1, 6) { WCfg::failing(sim, 0) } else { WCfg::transparent(sim) };
    let o = if encode { s.encode(&data, &w) } else { s.decode(&data, &w) };
    let op = if encode { "encode" } else { "decode" };
    sim.probe("refusal_expected");
    match &o.res {
        R::Err(e) if e.kind == ErrKind::NoSec => {}
        r => return Err(bad("unprotected", format!("{what}: {op}(\"{}\") without a layer: {}", show(&data), r.short()))),
    }
    ensure!(
        o.bytes.is_empty() && o.refused == 0,
        "wrote",
        "{what}: {op} without a layer wrote \"{}\"",
        show(&o.bytes)
    );
    ensure!(!s.has_layer(), "claims", "{what}: {op} installed a security layer");
    Ok(())
}

/// What an application accepts
fn accepts(mask: Option<u8>, client: bool) -> u8 {
    match mask {
        None => 7,
        Some(0) if client => NONE,
        Some(m) => m & 7,
    }
}
/// Layers the context provides at most, and for sure
fn provided(flags: u32) -> (u8, u8) {
    let mut most = NONE;
    let mut sure = NONE;
    if flags & INTEG != 0 {
        most |= INT;
        sure |= INT;
    }
    if flags & CONF != 0 {
        most |= ENC;
    }
    if flags & (CONF | MUTUAL | INTEG) == CONF | MUTUAL | INTEG {
        sure |= ENC;
    }
    (most, sure)
}

fn mask(sim: &mut Sim) -> Option<u8> {
    if sim.chance(1, 4) {
        None
    } else {
        Some(sim.below(8) as u8)
    }
}

fn flags(sim: &mut Sim) -> u32 {
    match sim.weighted(&[3, 3]) {
        0 => ALLF,
        _ => {
            let mut f = 0;
            for b in [MUTUAL, CONF, INTEG, gss::REPLAY | gss::SEQUENCE] {
                if sim.chance(2, 3) {
                    f |= b;
                }
            }
            f
        }
    }
}

fn scripts(c: Option<u8>, s: Option<u8>) -> (Script, Script) {
    let service = Some(("imap".to_string(), "mail.example.org".to_string()));
    (
        Script { gss_service: service.clone(), gss_layer: c, ..Script::default() },
        Script { gss_service: service, gss_layer: s, ..Script::default() },
    )
}

struct Two {
    client: Sess,
    server: Sess,
}
impl Two {
    fn get(&mut self, w: Who) -> &mut Sess {
        match w {
            Who::Client => &mut self.client,
            Who::Server => &mut self.server,
        }
    }
}

fn start(sid: u32, g: GssCfg, c: &Script, s: &Script) -> Res<Two> {
    gss::configure(sid, g);
    gss::configure(sid + 1, GssCfg { fail: None, ..g });
    let capp = App::with_cb(false);
    let sapp = App::with_cb(false);
    let ccfg = Config::new(&capp, &[Mech::Gss]);
    let scfg = Config::new(&sapp, &[Mech::Gss]);
    capp.set(sid, c.clone());
    sapp.set(sid + 1, s.clone());
    Ok(Two {
        client: client_for(&ccfg, sid, Mech::Gss, vec![])?,
        server: server_for(&scfg, sid + 1, Mech::Gss, vec![])?,
    })
}

/// Step on until nothing goes on; returns whether both finished
fn talk(sim: &mut Sim, t: &mut Two, what: &str, tamper: bool, corpus: &mut Corpus) -> Res<(bool, bool)> {
    let mut turn = Who::Client;
    let mut msg: Option<Vec<u8>> = None;
    let mut tampered = false;
    for _ in 0..14 {
        for w in [Who::Client, Who::Server] {
            if t.get(w).fin.is_none() && sim.chance(1, 3) {
                let d = format!("{what} {} before completion", w.name());
                refused(sim, &d, t.get(w), corpus)?;
            }
        }
        if !t.get(turn).alive() {
            break;
        }
        if tamper && msg.is_some() && sim.chance(1, 4) {
            let b = mutate(sim, msg.as_ref().unwrap(), corpus);
            tampered |= Some(&b) != msg.as_ref();
            msg = Some(b);
        }
        let w = WCfg::transparent(sim);
        let o = t.get(turn).step(msg.as_deref(), &w);
        sim.ev(format!("{what} {}({}) -> {} \"{}\"", turn.name(), show_opt(msg.as_deref()), o.res.short(), show(&o.bytes)));
        sim.mark(&format!("{}{}", turn.name(), o.res.label()));
        match o.res {
            R::Running | R::FinYes => {
                corpus.add(&o.bytes);
                msg = Some(o.bytes);
                turn = turn.other();
            }
            R::FinNo => {
                turn = turn.other();
                msg = Some(Vec::new());
                if !t.get(turn).alive() {
                    break;
                }
            }
            R::Err(_) => break,
            R::Panic(p) => return Err(bad("panic", format!("{what}: {p}"))),
        }
    }
    let done = |s: &Sess| matches!(s.fin, Some(R::FinYes | R::FinNo)) && !s.dead;
    Ok((done(&t.client) && done(&t.server), tampered))
}

/// The protection an end uses, found out by protecting something
fn uses(sim: &mut Sim, what: &str, s: &mut Sess, key: u64, data: &[u8]) -> Res<(u8, Vec<u8>)> {
    if !s.has_layer() {
        return Ok((NONE, Vec::new()));
    }
    let before = gss::wraps().len();
    let w = WCfg::transparent(sim);
    let o = s.encode(data, &w);
    ensure!(o.res.ok(), "encode", "{what}: encode(\"{}\") fails: {}", show(data), o.res.short());
    ensure!(o.n == data.len(), "encode", "{what}: encode took {} of {} bytes", o.n, data.len());
    let (_, conf, inner) = gss::open(key, s.is_client(), &o.bytes)
        .map_err(|_| bad("encode", format!("{what}: encode wrote \"{}\", no protected message of its context", show(&o.bytes))))?;
    ensure!(inner == data, "encode", "{what}: encode(\"{}\") protected \"{}\"", show(data), show(&inner));
    ensure!(gss::wraps().len() == before + 1 || before >= 200, "encode", "{what}: not exactly one frame");
    Ok((if conf { ENC } else { INT }, o.bytes))
}

fn deliver(sim: &mut Sim, what: &str, s: &mut Sess, frame: &[u8], want: &[u8]) -> Res {
    let w = WCfg::transparent(sim);
    let o = s.decode(frame, &w);
    ensure!(o.res.ok(), "decode", "{what}: decode(\"{}\") fails: {}", show(frame), o.res.short());
    ensure!(o.n == frame.len(), "decode", "{what}: decode took {} of {} bytes", o.n, frame.len());
    ensure!(o.bytes == want, "decode", "{what}: \"{}\" arrives as \"{}\"", show(want), show(&o.bytes));
    Ok(())
}

fn pair(sim: &mut Sim) -> Res {
    gss::reset();
    let (cm, sm) = (mask(sim), mask(sim));
    let f = flags(sim);
    let mut g = GssCfg { tokens: 1 + sim.below(5) as u8, flags: f, fail: None, seed: 41 };
    let failing = sim.chance(1, 6);
    if failing {
        g.fail = Some(sim.below(12));
        sim.fault("security_provider_failure");
    }
    if f != ALLF {
        sim.fault("context_lacks_protection");
    }
    let tamper = sim.chance(1, 4);
    let (c, s) = scripts(cm, sm);
    let mut corpus = Corpus::default();
    // messages of another exchange of the same applications
    if sim.chance(1, 3) {
        let mut t = start(11, GssCfg { seed: 77, fail: None, ..g }, &c, &s)?;
        talk(sim, &mut t, "other", false, &mut corpus)?;
        if t.client.has_layer() {
            let o = t.client.encode(b"of another exchange", &WCfg::default());
            corpus.add(&o.bytes);
        }
    }
    let mut t = start(1, g, &c, &s)?;
    sim.ev(format!("client accepts {cm:?}, server {sm:?}, flags {f:06b}, {} tokens, fail {:?}", g.tokens, g.fail));
    let before = corpus.msgs.len();
    let (done, tampered) = talk(sim, &mut t, "pair", tamper, &mut corpus)?;
    // what the ends did say: the context decides whether it may come again
    let said = corpus.msgs[before.min(corpus.msgs.len())..].to_vec();
    let (most, sure) = provided(f);
    let common = accepts(cm, true) & accepts(sm, false);
    sim.mark(&format!("{cm:?}{sm:?}{f}{done}"));
    if !done {
        let disturbed = tampered || gss::failed() > 0;
        ensure!(
            disturbed || common & sure == 0,
            "no-layer",
            "no layer agreed on although client accepts {cm:?}, server {sm:?} and the context provides {sure:03b}"
        );
        for w in [Who::Client, Who::Server] {
            let s = t.get(w);
            if !matches!(s.fin, Some(R::FinYes | R::FinNo)) {
                let d = format!("{} after a failed exchange", w.name());
                refused(sim, &d, s, &corpus)?;
            }
        }
        if common & most == 0 {
            sim.probe("nothing_in_common");
        }
        return Ok(());
    }
    ensure!(
        common & most != 0,
        "no-common",
        "both finish although client accepts {cm:?}, server {sm:?} and the context provides {most:03b}"
    );
    // what do they use?
    let key = crate::sim::mix(41 ^ 0x6b65_7900);
    let (mut cs, mut ss) = (Vec::new(), Vec::new());
    let mut layers = Vec::new();
    for w in [Who::Client, Who::Server] {
        let data = sim.bytes(80);
        let fails = gss::failed();
        if t.get(w).has_layer() && g.fail.is_some() && fails == 0 && gss::calls(1) <= g.fail.unwrap() {
            // the call that fails may still come
            return late_failure(sim, &mut t, g.fail.unwrap());
        }
        let (l, frame) = uses(sim, w.name(), t.get(w), key, &data)?;
        layers.push(l);
        if l != NONE {
            match w {
                Who::Client => cs.push((frame, data)),
                Who::Server => ss.push((frame, data)),
            }
        }
    }
    ensure!(
        layers[0] == layers[1],
        "disagree",
        "the client uses layer {:03b}, the server {:03b}",
        layers[0],
        layers[1]
    );
    let l = layers[0];
    ensure!(
        l & accepts(cm, true) != 0 && l & accepts(sm, false) != 0,
        "unacceptable",
        "layer {l:03b} is used, client accepts {cm:?}, server {sm:?}"
    );
    ensure!(l & most != 0, "unsupported", "layer {l:03b} is used, the context (flags {f:06b}) provides {most:03b}");
    sim.probe(match l {
        NONE => "no_layer_agreed",
        INT => "integrity_agreed",
        _ => "confidentiality_agreed",
    });
    if l == NONE {
        for w in [Who::Client, Who::Server] {
            let d = format!("{} without a layer", w.name());
            refused(sim, &d, t.get(w), &corpus)?;
        }
        return Ok(());
    }
    for (b, _) in cs.iter().chain(&ss) {
        corpus.add(b);
    }
    // traffic in both directions
    let mut next = [0usize; 2];
    for _ in 0..sim.range(2, 10) {
        let w = if sim.chance(1, 2) { Who::Client } else { Who::Server };
        let i = usize::from(w == Who::Server);
        match sim.weighted(&[3, 4, 3]) {
            0 => {
                let data = if sim.chance(1, 8) { vec![b'x'; 3000] } else { sim.bytes(120) };
                let (m, frame) = uses(sim, w.name(), t.get(w), key, &data)?;
                ensure!(m == l, "changes", "the {} changes from {l:03b} to {m:03b}", w.name());
                if m == ENC && data.len() >= 8 {
                    ensure!(
                        !frame.windows(data.len()).any(|x| x == data),
                        "exposed",
                        "confidentiality agreed, but \"{}\" is readable in the frame",
                        show(&data)
                    );
                }
                corpus.add(&frame);
                if w == Who::Client { &mut cs } else { &mut ss }.push((frame, data));
            }
            1 => {
                let q = if w == Who::Client { &cs } else { &ss };
                if let Some((frame, data)) = q.get(next[i]) {
                    let (frame, data) = (frame.clone(), data.clone());
                    next[i] += 1;
                    let o = w.other();
                    deliver(sim, &format!("{} to {}", w.name(), o.name()), t.get(o), &frame, &data)?;
                    sim.probe("delivered");
                }
            }
            _ => {
                // something else arrives
                let q = if w == Who::Client { &cs } else { &ss };
                let Some((frame, _)) = q.get(next[i]) else { continue };
                let frame = frame.clone();
                let foreign = match sim.below(4) {
                    // its own message comes back
                    0 => {
                        let own = if w == Who::Client { &ss } else { &cs };
                        sim.fault("reflection");
                        own.first().map(|f| f.0.clone()).unwrap_or_default()
                    }
                    1 => {
                        sim.fault("plain_data");
                        b"A1 DELETE everything\r\n".to_vec()
                    }
                    _ => mutate(sim, &frame, &corpus),
                };
                let own = if w == Who::Client { &cs } else { &ss };
                if own.iter().any(|(f, _)| *f == foreign) || said.contains(&foreign) {
                    // a genuine one, out of turn: left to the context
                    continue;
                }
                let o = w.other();
                let wr = WCfg::transparent(sim);
                let out = t.get(o).decode(&foreign, &wr);
                sim.probe("altered_data");
                ensure!(
                    !out.res.ok() && out.bytes.is_empty(),
                    "altered",
                    "the {} decodes \"{}\", which the {} never sent, as \"{}\" ({})",
                    o.name(),
                    show(&foreign),
                    w.name(),
                    show(&out.bytes),
                    out.res.short()
                );
                if let R::Panic(p) = &out.res {
                    return Err(bad("panic", format!("decode(\"{}\"): {p}", show(&foreign))));
                }
            }
        }
    }
    Ok(())
}

/// The security provider fails while the layer is in use: that call fails and nothing is written
fn late_failure(sim: &mut Sim, t: &mut Two, _n: u32) -> Res {
    let key = crate::sim::mix(41 ^ 0x6b65_7900);
    for i in 0..24u32 {
        let data = format!("data {i}").into_bytes();
        let before = gss::failed();
        let w = WCfg::transparent(sim);
        let o = t.client.encode(&data, &w);
        if gss::failed() > before {
            sim.probe("failed_while_in_use");
            ensure!(
                !o.res.ok() && o.bytes.is_empty(),
                "failure",
                "wrapping failed but encode returns {} and wrote \"{}\"",
                o.res.short(),
                show(&o.bytes)
            );
            return Ok(());
        }
        ensure!(o.res.ok(), "encode", "encode fails: {}", o.res.short());
        ensure!(gss::open(key, true, &o.bytes).is_ok(), "encode", "encode wrote \"{}\"", show(&o.bytes));
    }
    Ok(())
}

/// The four octets of a selection or announcement, in any condition
fn octets(sim: &mut Sim, proper: u8) -> Vec<u8> {
    let mut v = vec![proper, 0xff, 0xff, 0xff];
    match sim.weighted(&[4, 4, 2, 1]) {
        0 => {}
        1 => v[0] = sim.below(8) as u8,
        2 => {
            v[0] = sim.below(256) as u8;
            sim.fault("unknown_layers");
        }
        _ => {
            let n = sim.usize(8);
            v.resize(n, b'u');
            sim.fault("wrong_length");
        }
    }
    if sim.chance(1, 4) && v.len() >= 4 {
        v[1..4].copy_from_slice(&[0, 0, 0]);
    }
    v
}

/// Octets, sealed or not quite
fn sealed(sim: &mut Sim, key: u64, from_initiator: bool, o: &[u8]) -> (Vec<u8>, bool) {
    match sim.weighted(&[12, 1, 1, 1]) {
        0 => (gss::seal(key, from_initiator, 0, sim.chance(1, 4), o), true),
        1 => {
            sim.fault("wrong_key");
            (gss::seal(key ^ 1, from_initiator, 0, false, o), false)
        }
        2 => {
            sim.fault("reflection");
            (gss::seal(key, !from_initiator, 0, false, o), false)
        }
        _ => {
            sim.fault("not_protected");
            (o.to_vec(), false)
        }
    }
}

/// A peer that holds the context but selects what it likes
fn hostile_client(sim: &mut Sim) -> Res {
    gss::reset();
    let sm = mask(sim);
    let f = flags(sim);
    let tokens = 1 + sim.below(4) as u8;
    let key = 1 + sim.below(1 << 30);
    let key = u64::from(key);
    let (_, s) = scripts(None, sm);
    let mut t = start(1, GssCfg { tokens, flags: f, fail: None, seed: 5 }, &Script::default(), &s)?;
    let srv = &mut t.server;
    let corpus = Corpus::default();
    let mut ctx = PeerCtx::initiator(tokens, f, key);
    let (most, sure) = provided(f);
    sim.ev(format!("server accepts {sm:?}, flags {f:06b}, {tokens} tokens"));
    let mut msg = ctx.make();
    loop {
        refused(sim, "server before completion", srv, &corpus)?;
        let o = srv.step(Some(&msg), &WCfg::default());
        sim.ev(format!("server(\"{}\") -> {} \"{}\"", show(&msg), o.res.short(), show(&o.bytes)));
        match &o.res {
            R::Running => {}
            R::Err(_) => {
                ensure!(
                    accepts(sm, false) & sure == 0,
                    "no-layer",
                    "the server accepts {sm:?}, the context provides {sure:03b}, but it ends in {}",
                    o.res.short()
                );
                return refused(sim, "server after refusing the context", srv, &corpus);
            }
            r => return Err(bad("early", format!("the server ends before a layer is selected: {}", r.short()))),
        }
        if !ctx.done() {
            ctx.took();
            if !ctx.done() {
                msg = ctx.make();
                continue;
            }
            // it wants to hear something before it announces its layers
            msg = Vec::new();
            continue;
        }
        // the announcement
        let (_, conf, offer) = gss::open(key, false, &o.bytes)
            .map_err(|_| bad("announce", format!("the server announces \"{}\"", show(&o.bytes))))?;
        // RFC 4752: four octets, integrity only, and a size of zero exactly if there is nothing to protect
        ensure!(
            offer.len() == 4 && !conf && (offer[0] & !NONE == 0) == (offer[1..] == [0; 3]),
            "announce",
            "the server announces \"{}\" (encrypted: {conf})",
            show(&offer)
        );
        ensure!(
            offer[0] != 0 && offer[0] & !(accepts(sm, false) & most) == 0,
            "announce",
            "the server announces {:03b}, its application accepts {sm:?}, the context provides {most:03b}",
            offer[0]
        );
        let proper = 1 << sim.below(3);
        let oct = octets(sim, proper);
        let (m, genuine) = sealed(sim, key, true, &oct);
        refused(sim, "server before completion", srv, &corpus)?;
        let o2 = srv.step(Some(&m), &WCfg::default());
        sim.ev(format!("selection \"{}\" ({genuine}) -> {}", show(&oct), o2.res.short()));
        sim.mark(&format!("sel{:?}{genuine}{}", oct.first(), o2.res.label()));
        let sel = oct.first().copied().unwrap_or(0);
        // what follows the four octets is the identity the client wants to act as; nothing here passes it on
        let fine = genuine && oct.len() == 4 && sel.count_ones() == 1 && sel & offer[0] != 0;
        return match &o2.res {
            R::FinYes | R::FinNo => {
                ensure!(
                    fine,
                    "selection",
                    "the server announced {:03b} and accepts the selection \"{}\" (genuine: {genuine})",
                    offer[0],
                    show(&oct)
                );
                let (l, _) = uses(sim, "server", srv, key, b"some data")?;
                ensure!(l == sel, "disagree", "{sel:03b} was selected, the server uses {l:03b}");
                if l == NONE {
                    refused(sim, "server without a layer", srv, &corpus)?;
                } else {
                    let frame = gss::seal(key, true, 1, l == ENC, b"from the peer");
                    deliver(sim, "server", srv, &frame, b"from the peer")?;
                }
                sim.probe("selection_accepted");
                Ok(())
            }
            R::Err(_) => {
                ensure!(
                    !fine,
                    "refused",
                    "the server announced {:03b} and refuses the selection \"{}\": {}",
                    offer[0],
                    show(&oct),
                    o2.res.short()
                );
                sim.probe("selection_refused");
                refused(sim, "server after refusing the selection", srv, &corpus)
            }
            R::Running => Err(bad("selection", "the server goes on after a selection".into())),
            R::Panic(p) => Err(bad("panic", p.clone())),
        };
    }
}

/// A peer that holds the context but announces what it likes
fn hostile_server(sim: &mut Sim) -> Res {
    gss::reset();
    let cm = mask(sim);
    let f = flags(sim);
    let tokens = 1 + sim.below(4) as u8;
    let (c, _) = scripts(cm, None);
    let mut t = start(1, GssCfg { tokens, flags: f, fail: None, seed: 5 }, &c, &Script::default())?;
    let cli = &mut t.client;
    let corpus = Corpus::default();
    let (most, sure) = provided(f);
    sim.ev(format!("client accepts {cm:?}, flags {f:06b}, {tokens} tokens"));
    let mut ctx: Option<PeerCtx> = None;
    let mut msg: Option<Vec<u8>> = None;
    loop {
        refused(sim, "client before completion", cli, &corpus)?;
        let o = cli.step(msg.as_deref(), &WCfg::default());
        sim.ev(format!("client({}) -> {} \"{}\"", show_opt(msg.as_deref()), o.res.short(), show(&o.bytes)));
        match &o.res {
            R::Running => {}
            R::Err(_) => {
                ensure!(
                    accepts(cm, true) & sure == 0,
                    "no-layer",
                    "the client accepts {cm:?}, the context provides {sure:03b}, but it ends in {}",
                    o.res.short()
                );
                return refused(sim, "client after refusing the context", cli, &corpus);
            }
            r => return Err(bad("early", format!("the client ends before a layer is announced: {}", r.short()))),
        }
        match &mut ctx {
            None => ctx = Some(PeerCtx::acceptor(&o.bytes).ok_or_else(|| bad("token", "no context token".into()))?),
            Some(c) if !c.done() => c.took(),
            Some(_) => {}
        }
        let c = ctx.as_mut().unwrap();
        if !c.done() {
            msg = Some(c.make());
            if !c.done() || o.bytes.is_empty() {
                continue;
            }
            // the last token is ours; the client then waits for the announcement
            let o = cli.step(msg.as_deref(), &WCfg::default());
            sim.ev(format!("client({}) -> {} \"{}\"", show_opt(msg.as_deref()), o.res.short(), show(&o.bytes)));
            match &o.res {
                R::Running => {}
                R::Err(_) => {
                    ensure!(
                        accepts(cm, true) & sure == 0,
                        "no-layer",
                        "the client accepts {cm:?}, the context provides {sure:03b}, but it ends in {}",
                        o.res.short()
                    );
                    return refused(sim, "client after refusing the context", cli, &corpus);
                }
                r => return Err(bad("early", format!("the client ends before a layer is announced: {}", r.short()))),
            }
        }
        let key = c.key;
        let proper = 1 + sim.below(7) as u8;
        let oct = octets(sim, proper);
        let (m, genuine) = sealed(sim, key, false, &oct);
        refused(sim, "client before completion", cli, &corpus)?;
        let o = cli.step(Some(&m), &WCfg::default());
        sim.ev(format!("announcement \"{}\" ({genuine}) -> {} \"{}\"", show(&oct), o.res.short(), show(&o.bytes)));
        sim.mark(&format!("ann{:?}{genuine}{}", oct.first(), o.res.label()));
        let ann = oct.first().copied().unwrap_or(0);
        let can = ann & accepts(cm, true);
        return match &o.res {
            R::FinYes | R::FinNo => {
                ensure!(genuine, "announcement", "the client accepts the announcement \"{}\", which is not genuine", show(&m));
                ensure!(oct.len() == 4, "announcement", "the client accepts the announcement \"{}\"", show(&oct));
                let (_, conf, sel) = gss::open(key, true, &o.bytes)
                    .map_err(|_| bad("selection", format!("the client selects \"{}\"", show(&o.bytes))))?;
                ensure!(
                    sel.len() == 4 && !conf && (sel[0] == NONE) == (sel[1..] == [0; 3]),
                    "selection",
                    "the client selects \"{}\" (encrypted: {conf})",
                    show(&sel)
                );
                ensure!(
                    sel[0].count_ones() == 1 && sel[0] & can & most != 0,
                    "selection",
                    "announced {ann:08b}, accepted {cm:?}, provided {most:03b}: the client selects \"{}\"",
                    show(&sel)
                );
                let (l, _) = uses(sim, "client", cli, key, b"some data")?;
                ensure!(l == sel[0], "disagree", "the client selected {:03b} and uses {l:03b}", sel[0]);
                if l == NONE {
                    refused(sim, "client without a layer", cli, &corpus)?;
                } else {
                    let frame = gss::seal(key, false, 1, l == ENC, b"from the peer");
                    deliver(sim, "client", cli, &frame, b"from the peer")?;
                }
                sim.probe("announcement_accepted");
                Ok(())
            }
            R::Err(_) => {
                ensure!(
                    !genuine || oct.len() != 4 || can & sure == 0 || ann > 7,
                    "refused",
                    "announced {ann:08b}, accepted {cm:?}, provided {sure:03b}: the client ends in {}",
                    o.res.short()
                );
                ensure!(o.bytes.is_empty(), "wrote", "the client refuses but wrote \"{}\"", show(&o.bytes));
                sim.probe("announcement_refused");
                refused(sim, "client after refusing the announcement", cli, &corpus)
            }
            R::Running => Err(bad("selection", "the client goes on after the announcement".into())),
            R::Panic(p) => Err(bad("panic", p.clone())),
        };
    }
}

/// Mechanisms without layers, at any point
fn none(sim: &mut Sim) -> Res {
    let mut st = Story::draw(sim);
    while st.m == Mech::Gss {
        st = Story::draw(sim);
    }
    debug_assert!(EVERY.contains(&st.m));
    let mut p = st.begin()?;
    let mut corpus = Corpus::default();
    let mut turn = if p.client.first() { Who::Client } else { Who::Server };
    let mut msg: Option<Vec<u8>> = None;
    let tamper = sim.chance(1, 3);
    let name = st.m.name();
    for i in 0..14 {
        for w in [Who::Client, Who::Server] {
            if sim.chance(1, 2) {
                let d = format!("{name} {} before step {i}", w.name());
                refused(sim, &d, p.get(w), &corpus)?;
            }
        }
        if !p.get(turn).alive() {
            break;
        }
        if tamper && i > 0 && sim.chance(1, 4) {
            if let Some(b) = msg.take() {
                let mut b = mutate(sim, &b, &corpus);
                cap_iterations(&mut b, 20_000);
                msg = Some(b);
            }
        }
        let o = p.get(turn).step(msg.as_deref(), &WCfg::default());
        sim.ev(format!("{name} {}({}) -> {} \"{}\"", turn.name(), show_opt(msg.as_deref()), o.res.short(), show(&o.bytes)));
        sim.mark(&format!("{}{}", turn.name(), o.res.label()));
        corpus.add(&o.bytes);
        match o.res {
            R::Running | R::FinYes => {
                msg = Some(o.bytes);
                turn = turn.other();
            }
            R::FinNo => {
                turn = turn.other();
                msg = Some(Vec::new());
            }
            R::Err(_) | R::Panic(_) => break,
        }
    }
    for w in [Who::Client, Who::Server] {
        for _ in 0..2 {
            let d = format!("{name} {} in the end", w.name());
            refused(sim, &d, p.get(w), &corpus)?;
        }
    }
    Ok(())
}
