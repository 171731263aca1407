//! C10: negotiation picks the preferred usable mechanism, whatever the offer looks like.
use super::*;
use crate::app::{App, AppEv, Handle, Prefer, Script};
use crate::ensure;
use crate::exch::{exchange, Opts};
use crate::gen;
use crate::gss;
use crate::io::WCfg;
use crate::sess::*;
use crate::sim::{viol, Res, Sim};
use rsasl::mechanism::{Authentication, MechanismData};
use rsasl::prelude::*;
use rsasl::registry::{Matches, Named, Side};
use std::collections::BTreeSet;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C10",
    run,
    quick: 500_000,
    thorough: 8_000_000,
    hang_s: 30,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

/// Mechanisms of a third party: one message from the client, their name
struct Own {
    client: bool,
    name: &'static str,
    done: bool,
}
impl Authentication for Own {
    fn step(
        &mut self,
        _d: &mut MechanismData,
        input: Option<&[u8]>,
        w: &mut dyn std::io::Write,
    ) -> Result<State, SessionError> {
        if self.done {
            return Err(SessionError::MechanismDone);
        }
        if self.client {
            w.write_all(self.name.as_bytes())?;
            self.done = true;
            return Ok(State::Finished(MessageSent::Yes));
        }
        let i = input.ok_or(SessionError::InputDataRequired)?;
        self.done = true;
        if i == self.name.as_bytes() {
            Ok(State::Finished(MessageSent::No))
        } else {
            Err(SessionError::MutualAuthenticationFailed)
        }
    }
}

macro_rules! own {
    ($id:ident, $name:literal, $prio:literal, $c:expr, $s:expr, $sel:expr) => {
        struct $id;
        impl $id {
            const fn desc() -> Mechanism {
                Mechanism::build(
                    Mechname::const_new_unchecked($name.as_bytes()),
                    $prio,
                    if $c { Some(|| Ok(Box::new(Own { client: true, name: $name, done: false }))) } else { None },
                    if $s { Some(|_| Ok(Box::new(Own { client: false, name: $name, done: false }))) } else { None },
                    Side::Client,
                    $sel,
                    |_| true,
                )
            }
        }
        impl Named for $id {
            fn mech() -> &'static Mechanism {
                static M: Mechanism = $id::desc();
                &M
            }
        }
    };
}
own!(Strong, "X-STRONG", 900, true, true, |_| Some(Matches::<Strong>::name()));
own!(Weak, "X-WEAK", 0, true, true, |_| Some(Matches::<Weak>::name()));
own!(Bind, "X-BIND-PLUS", 950, true, true, |cb| if cb { Some(Matches::<Bind>::name()) } else { None });
own!(SrvOnly, "X-SERVER-ONLY", 999, false, true, |_| None);
own!(CliOnly, "X-CLIENT-ONLY", 800, true, false, |_| Some(Matches::<CliOnly>::name()));

/// What there is: name, default priority, needs binding, has client, has server
#[derive(Clone, Copy)]
struct Kind {
    name: &'static str,
    prio: u32,
    binds: bool,
    client: bool,
    server: bool,
    m: Option<Mech>,
}

fn kinds() -> Vec<Kind> {
    let std = |m: Mech, prio| Kind { name: m.name(), prio, binds: m.plus(), client: true, server: true, m: Some(m) };
    let own = |name, prio, binds, client, server| Kind { name, prio, binds, client, server, m: None };
    vec![
        std(Mech::Plain, 300),
        std(Mech::S256, 600),
        std(Mech::S256P, 700),
        std(Mech::S1, 400),
        std(Mech::S1P, 500),
        std(Mech::S512, 600),
        std(Mech::S512P, 700),
        std(Mech::Login, 200),
        std(Mech::Anon, 100),
        std(Mech::Ext, 100),
        std(Mech::Xoa, 300),
        std(Mech::Oab, 300),
        std(Mech::Gss, 300),
        own("X-STRONG", 900, false, true, true),
        own("X-WEAK", 0, false, true, true),
        own("X-BIND-PLUS", 950, true, true, true),
        own("X-SERVER-ONLY", 999, false, false, true),
        own("X-CLIENT-ONLY", 800, false, true, false),
    ]
}

fn desc(k: &Kind) -> Mechanism {
    match (k.m, k.name) {
        (Some(m), _) => m.desc(),
        (_, "X-STRONG") => Strong::desc(),
        (_, "X-WEAK") => Weak::desc(),
        (_, "X-BIND-PLUS") => Bind::desc(),
        (_, "X-SERVER-ONLY") => SrvOnly::desc(),
        _ => CliOnly::desc(),
    }
}

/// A configuration with any choice of mechanisms in any order.  The list is given back when the run is over.
struct Choice {
    kinds: Vec<Kind>,
    ptr: Option<*mut [Mechanism]>,
}
impl Choice {
    fn draw(sim: &mut Sim) -> Choice {
        let all = kinds();
        let n = match sim.below(4) {
            0 => all.len(),
            1 => sim.usize(4),
            _ => sim.usize(all.len() + 1),
        };
        let mut left: Vec<usize> = (0..all.len()).collect();
        let mut out = Vec::new();
        for _ in 0..n {
            let i = if n == all.len() && sim.chance(1, 2) { 0 } else { sim.usize(left.len()) };
            out.push(all[left.remove(i)]);
        }
        Choice { kinds: out, ptr: None }
    }
    fn config(&mut self, app: &Arc<App>) -> Config {
        let v: Box<[Mechanism]> = self.kinds.iter().map(desc).collect();
        let p = Box::into_raw(v);
        self.ptr = Some(p);
        Config::with_registry(app, Registry::with_mechanisms(unsafe { &*p }))
    }
    fn has(&self, n: &str) -> bool {
        self.kinds.iter().any(|k| k.name == n)
    }
}
impl Drop for Choice {
    fn drop(&mut self) {
        if let Some(p) = self.ptr {
            // declared before (so dropped after) every configuration and session that uses it
            drop(unsafe { Box::from_raw(p) });
        }
    }
}

const STRANGERS: &[&str] = &[
    "X-UNKNOWN", "CRAM-MD5", "DIGEST-MD5", "SCRAM-SHA-256-PLU", "SCRAM-SHA-25", "SCRAM-SHA-", "PLAI", "PLAIN-", "PLAIN2",
    "SCRAM-SHA-256-PLUS-PLUS", "SCRAM-SHA-512-256", "GSS-SPNEGO", "A", "-", "_", "LOGIN-PLUS", "SCRAM-SHA-1-PLUSX",
    "EXACTLY_21_CHARS_LONG", "X-OAUTH2", "OAUTHBEARE",
];

fn shuffle(sim: &mut Sim, v: &mut [String]) {
    for i in (1..v.len()).rev() {
        let j = sim.usize(i + 1);
        v.swap(i, j);
    }
}

/// Repeat, reorder and surround with unknown entries.  The set of known names stays.
fn disguise(sim: &mut Sim, offer: &[String]) -> Vec<String> {
    let mut o = offer.to_vec();
    for _ in 0..sim.usize(4) {
        if !o.is_empty() && sim.chance(1, 2) {
            let d = o[sim.usize(o.len())].clone();
            o.push(d);
            sim.fault("repeated_entry");
        } else {
            o.push(sim.pick(STRANGERS).to_string());
            sim.fault("unknown_entry");
        }
    }
    if sim.chance(1, 12) {
        // a very long list
        let n = gen::edge(sim).min(1100);
        let step = sim.usize(STRANGERS.len());
        let known = !o.is_empty() && sim.chance(1, 2);
        let pad = (0..n).map(|i| match known {
            true if i % 3 == 0 => o[i % o.len()].clone(),
            _ => STRANGERS[(i + step) % STRANGERS.len()].to_string(),
        });
        let pad: Vec<String> = pad.collect();
        sim.fault("long_offer");
        match sim.below(3) {
            0 => o.extend(pad),
            1 => o.splice(0..0, pad).for_each(drop),
            _ => {
                let i = sim.usize(o.len() + 1);
                o.splice(i..i, pad).for_each(drop);
            }
        }
        return o;
    }
    shuffle(sim, &mut o);
    o
}

/// A name as it may arrive on the wire, close to a known one
fn wire_name(sim: &mut Sim) -> Vec<u8> {
    let k = kinds();
    let mut b = k[sim.usize(k.len())].name.as_bytes().to_vec();
    const ODD: &[u8] = b"\0\t\n\r !\"#+,./:;<=>?@[\\]^`abyz{|}~\x7f\x80\xc3\xdf\xff*AZ09-_";
    let odd = if sim.chance(1, 4) { sim.below(256) as u8 } else { *sim.pick(ODD) };
    match sim.below(9) {
        0 => b.push(odd),
        1 => b.insert(0, odd),
        2 => {
            let i = sim.usize(b.len());
            b[i] = odd;
        }
        3 => b.make_ascii_lowercase(),
        4 => {
            let i = sim.usize(b.len());
            b[i] = b[i].to_ascii_lowercase();
        }
        5 => b.insert(sim.usize(b.len() + 1), odd),
        6 => b.clear(),
        7 => b = sim.bytes(3),
        _ => {
            let n = gen::edge(sim).min(2000);
            b = vec![b'A'; n];
            if n > 0 && sim.chance(1, 2) {
                b[sim.usize(n)] = odd;
            }
        }
    }
    b
}

/// A name equals its own text, and nothing else, from whichever side it is asked
fn equal(n: &Mechname, b: &[u8]) -> bool {
    let (own, text) = (n.as_bytes(), n.as_str());
    let other = if b.last() == Some(&b'A') { "B" } else { "A" };
    let other = [&text[..text.len() - 1], other].concat();
    let eq = |o: &str| [*n == *o, *o == *n, *n == *o.as_bytes(), *o.as_bytes() == *n];
    own == b
        && eq(text) == [true; 4]
        && [&other, "", &text[1..]].iter().all(|o| eq(o) == [false; 4])
        && n.to_string() == text
        && format!("{n:?}").contains(text)
}

/// Every way to turn received bytes into a name takes exactly the names RFC 4422 permits, unchanged; length aside
fn parse(b: &[u8]) -> Res<Option<String>> {
    let ok = !b.is_empty() && b.iter().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || *c == b'-' || *c == b'_');
    let via: [(&str, Option<&Mechname>); 2] =
        [("parse", Mechname::parse(b).ok()), ("try_from", <&Mechname>::try_from(b).ok())];
    let text = std::str::from_utf8(b).ok().map(|s| ("try_from str", <&Mechname>::try_from(s).ok()));
    for (how, r) in via.into_iter().chain(text) {
        ensure!(
            r.is_some() == ok
                && r.map_or(true, |n| n.as_bytes() == b && n.as_str().as_bytes() == b && &**n == n.as_str() && equal(n, b)),
            "name",
            "a mechanism name \"{}\" arrives: {how} makes it {:?}",
            show(b),
            r.map(|n| show(n.as_bytes()))
        );
    }
    Ok(ok.then(|| String::from_utf8(b.to_vec()).unwrap()))
}

fn rank_fn<'a>(app: &'a App) -> impl Fn(&Kind) -> u32 + 'a {
    move |k: &Kind| match app.prefer {
        // never 0: nothing is rejected by default
        Prefer::Default => k.prio + 1,
        Prefer::Table => app.ranks.get(k.name).copied().unwrap_or(0),
    }
}

fn run(sim: &mut Sim) -> Res {
    gss::reset();
    let mut cchoice = Choice::draw(sim);
    let mut schoice = Choice::draw(sim);
    let mut app = App::default();
    app.cb_enabled = sim.chance(1, 2);
    if sim.chance(1, 2) {
        app.prefer = Prefer::Table;
        for k in kinds() {
            let r = if sim.chance(1, 4) { 0 } else { sim.range(1, 6) };
            app.ranks.insert(k.name.to_string(), r);
        }
        sim.nontrivial = true;
        sim.probe("own_preference");
    }
    let capp = Arc::new(app);
    let sapp = App::with_cb(true);
    // also the configurations the crate builds by itself
    let kind = sim.weighted(&[8, 1, 1, 1]);
    let authzid = sim.chance(1, 2);
    let empty = kind == 1 && sim.chance(1, 3);
    let by_name = |n: &[&str]| kinds().into_iter().filter(|k| n.contains(&k.name)).collect::<Vec<_>>();
    let mut creds = false;
    let ccfg = match kind {
        0 => cchoice.config(&capp),
        1 => {
            creds = true;
            let cfg = SASLConfig::with_credentials(authzid.then(|| if empty { String::new() } else { "zed".to_string() }), "user".into(), "secret".into());
            let Ok(cfg) = cfg else { return viol("config", "with_credentials fails") };
            cchoice.kinds = by_name(&["SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1", "PLAIN", "LOGIN"]);
            if authzid {
                cchoice.kinds.retain(|k| k.name != "LOGIN");
            }
            sim.probe("with_credentials");
            Config { cfg, app: capp.clone() }
        }
        n => {
            let b = SASLConfig::builder();
            let b = if n == 2 { b.with_defaults() } else { b.with_default_mechanisms() };
            let Ok(cfg) = b.with_callback(Handle(capp.clone())) else { return viol("config", "with_defaults fails") };
            cchoice.kinds = by_name(&[
                "SCRAM-SHA-512",
                "SCRAM-SHA-256",
                "SCRAM-SHA-1",
                "PLAIN",
                "LOGIN",
                "ANONYMOUS",
                "EXTERNAL",
                "XOAUTH2",
                "OAUTHBEARER",
            ]);
            sim.probe("with_defaults");
            Config { cfg, app: capp.clone() }
        }
    };
    // a configuration by credentials prefers as the default does, and doesn't bind
    let default_app = App::default();
    let (rank_app, cb): (&App, bool) = if creds { (&default_app, false) } else { (&capp, capp.cb_enabled) };
    let rank = rank_fn(rank_app);
    let scfg = schoice.config(&sapp);
    sapp.set(2, Script::default());
    capp.set(1, Script::default());

    // --- what the server lists ---
    let listed: Vec<String> = {
        let s = SASLServer::<crate::app::RecVal>::new(scfg.cfg.clone());
        let l = s.get_available().into_iter().map(|m| m.mechanism.as_str().to_string()).collect();
        l
    };
    let want: BTreeSet<String> = schoice.kinds.iter().filter(|k| k.server).map(|k| k.name.to_string()).collect();
    ensure!(
        listed.len() == want.len() && listed.iter().cloned().collect::<BTreeSet<_>>() == want,
        "server-list",
        "server lists {listed:?}, its configuration makes {want:?} available"
    );

    // --- the offer as it arrives ---
    let mut offer = listed.clone();
    let mut honest = true;
    match sim.weighted(&[6, 4, 3]) {
        0 => {}
        1 => {
            // entries lost on the way
            let n = sim.usize(offer.len() + 1);
            shuffle(sim, &mut offer);
            offer.truncate(n);
            honest = n == listed.len();
            sim.fault("entries_dropped");
        }
        _ => {
            // an offer of another server altogether
            honest = false;
            offer = kinds().iter().map(|k| k.name.to_string()).collect();
            shuffle(sim, &mut offer);
            let n = sim.usize(offer.len() + 1);
            offer.truncate(n);
            sim.fault("forged_offer");
        }
    }
    let mut dis = disguise(sim, &offer);
    let mut odd = Vec::new();
    for _ in 0..sim.usize(4) {
        sim.fault("odd_name");
        let b = wire_name(sim);
        odd.extend(parse(&b)?);
    }
    odd.retain(|n| !kinds().iter().any(|k| k.name == n));
    for n in &odd {
        sim.probe("odd_name_valid");
        dis.insert(sim.usize(dis.len() + 1), n.clone());
    }
    let set: BTreeSet<&str> = dis.iter().map(String::as_str).collect();
    sim.ev(format!(
        "client {:?} cb={cb} preference {:?} {:?}; server {listed:?}; offer {dis:?}",
        cchoice.kinds.iter().map(|k| k.name).collect::<Vec<_>>(),
        rank_app.prefer,
        rank_app.ranks,
    ));

    for n in &offer {
        // every name a server lists is one it accepts on the wire
        ensure!(
            matches!(Mechname::parse(n.as_bytes()), Ok(m) if m.as_str() == n),
            "listed-name",
            "{n:?} names a mechanism of this crate, but isn't parsed as a mechanism name"
        );
    }

    // --- what has to come out ---
    let usable: Vec<&Kind> = cchoice
        .kinds
        .iter()
        .filter(|k| k.client && set.contains(k.name) && (!k.binds || cb) && rank(k) > 0)
        .collect();
    let best = usable.iter().map(|k| rank(k)).max();
    let winners: Vec<&str> =
        usable.iter().filter(|k| Some(rank(k)) == best).map(|k| k.name).collect();
    let cbdata = vec![("tls-exporter".to_string(), b"data".to_vec())];
    let start = |list: &[String]| {
        let names: Vec<&Mechname> = list.iter().map(|s| mechname(s)).collect();
        start_client(&ccfg, 1, &names, cbdata.clone())
    };
    let mut got: Vec<Option<String>> = Vec::new();
    let mut session = None;
    let mut lists = vec![dis.clone()];
    for _ in 0..sim.usize(3) {
        let d = disguise(sim, &offer);
        lists.push(d);
    }
    for (i, l) in lists.iter().enumerate() {
        let r = match start(l) {
            Ok(s) => {
                let n = s.mech();
                if i == 0 {
                    session = Some(s);
                }
                Some(n)
            }
            Err(StartErr::NoMechanism) => None,
            Err(StartErr::Panic(p)) => return viol("panic", format!("starting a client for {l:?}: {p}")),
        };
        sim.ev(format!("offer {l:?} -> {r:?}, best {winners:?}"));
        sim.mark(&format!("{r:?}"));
        match &r {
            Some(n) => {
                let known = set.contains(n.as_str());
                ensure!(known, "not-offered", "client starts with {n}, which was not offered in {l:?}");
                ensure!(cchoice.has(n), "not-enabled", "client starts with {n}, which is not enabled");
                ensure!(
                    usable.iter().any(|k| k.name == n),
                    "unusable",
                    "client starts with {n}, which it must not use (binding {cb}, ranks {:?})",
                    rank_app.ranks
                );
                ensure!(
                    winners.contains(&n.as_str()),
                    "not-preferred",
                    "client starts with {n} of {l:?}, preferred: {winners:?}"
                );
                sim.probe("started");
            }
            None => {
                ensure!(
                    winners.is_empty(),
                    "not-started",
                    "client does not start for {l:?}, {winners:?} would be fine"
                );
                sim.probe("nothing_usable");
            }
        }
        got.push(r);
    }
    if winners.len() == 1 {
        ensure!(
            got.iter().all(|g| *g == got[0]),
            "order-dependent",
            "the same offer in other order or with repetitions selects {got:?}"
        );
    }

    // --- the server starts for what it lists, and nothing else ---
    for k in kinds().iter().map(|k| k.name).chain(STRANGERS.iter().copied()).chain(odd.iter().map(String::as_str)) {
        if !sim.chance(1, 6) {
            continue;
        }
        let r = start_server(&scfg, 2, mechname(k), cbdata.clone());
        let ok = match &r {
            Ok(s) => {
                ensure!(s.mech() == k, "server-other", "server asked to start {k} speaks {}", s.mech());
                true
            }
            Err(StartErr::NoMechanism) => false,
            Err(StartErr::Panic(p)) => return viol("panic", format!("starting a server for {k}: {p}")),
        };
        ensure!(
            ok == want.contains(k),
            "server-start",
            "server starts for {k}: {ok}, available {want:?}"
        );
    }

    // --- and then both speak it ---
    let Some(mut client) = session else { return Ok(()) };
    if empty {
        // not every mechanism can say an empty identity; here it is about the choice
        sim.probe("empty_authzid");
        return Ok(());
    }
    let name = client.mech();
    let offers = |n: &str| set.contains(n);
    if let Some(m) = Mech::by_name(&name) {
        let (mut c, mut s, _) = gen::honest(sim, m);
        c.cbtype = None;
        c.cbdata = Vec::new();
        if creds {
            c.authid = Some("user".into());
            c.password = Some(b"secret".to_vec());
            if let Some(h) = m.hash() {
                let (r, _) = gen::record(sim, h, b"secret");
                s.users = vec![("user".into(), r)];
            }
        }
        capp.set(1, c);
        sapp.set(2, s);
        if !want.contains(&name) {
            // only look at what it says first
            if let (Some(_), false) = (m.hash(), m.server_first()) {
                let o = client.step(None, &WCfg::default());
                return flag(m, cb, &o.bytes, offers(m.plus_of().unwrap_or(m).name()));
            }
            return Ok(());
        }
    } else if !want.contains(&name) {
        return Ok(());
    }
    let mut server = match start_server(&scfg, 2, mechname(&name), cbdata.clone()) {
        Ok(s) => s,
        Err(e) => return viol("server-start", format!("server does not start for the chosen {name}: {e:?}")),
    };
    let o = Opts::draw(sim);
    let x = exchange(sim, &mut client, &mut server, &o)?;
    if let Some(m) = Mech::by_name(&name) {
        if m.hash().is_some() {
            let first = x.steps.first().map(|s| s.bytes.clone()).unwrap_or_default();
            flag(m, cb, &first, offers(m.plus_of().unwrap_or(m).name()))?;
        }
    }
    for (log, side) in [(capp.log(1), "client"), (sapp.log(2), "server")] {
        for e in log {
            if let AppEv::Req { mech, side: s, prop, .. } = e {
                ensure!(
                    mech == name && s == side,
                    "session-data",
                    "callback for {prop} on the {side} of {name} says {s} of {mech}"
                );
            }
        }
    }
    // a stripped offer may rightly be refused: C04
    if honest {
        let ok = x.client.as_ref().is_some_and(R::finished) && x.server.as_ref().is_some_and(R::finished);
        let validated = Mech::by_name(&name).map_or(true, |m| m == Mech::Gss || x.val.is_some());
        ensure!(
            ok && validated,
            "not-spoken",
            "both ends chose {name}, but the exchange fails: {}",
            x.summary()
        );
        sim.probe("spoken");
    }
    Ok(())
}

/// What a SCRAM client announces about binding follows from the offer
fn flag(m: Mech, cb: bool, first: &[u8], plus_offered: bool) -> Res {
    let want: &[u8] = match (m.plus(), cb, plus_offered) {
        (true, _, _) => b"p=tls-exporter,",
        (_, true, false) => b"y,",
        _ => b"n,",
    };
    ensure!(
        first.starts_with(want),
        "binding-flag",
        "{} with binding {cb} and PLUS offered {plus_offered}: \"{}\"",
        m.name(),
        show(first)
    );
    Ok(())
}
