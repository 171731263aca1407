//! Channel binding is enforced and cannot be stripped or downgraded.
use super::{Prop, ASSUME, DISTINCT, REAL, STUB};
use crate::app::{App, AppEv, Script};
use crate::ensure;
use crate::gen;
use crate::io::WCfg;
use crate::props::c02::nonce;
use crate::scram::{b64, unb64, ClientFinal, ClientFirst, Flag, RefClient};
use crate::sess::{mechname, server_for, show, start_client, start_server, Config, Hash, Mech, Sess, StartErr, R};
use crate::sim::{viol, Res, Sim};

pub const PROP: Prop = Prop {
    id: "C04",
    run,
    quick: 400_000,
    thorough: 10_000_000,
    hang_s: 60,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

const BARE: &[Mech] = &[Mech::S1, Mech::S256, Mech::S512];

/// What one end knows about the channel and through which door
#[derive(Clone, Debug, Default)]
struct Knows {
    callback: Vec<(String, Vec<u8>)>,
    property: Vec<(String, Vec<u8>)>,
}
impl Knows {
    fn get(&self, name: &str) -> Option<&Vec<u8>> {
        self.callback
            .iter()
            .chain(&self.property)
            .find(|(n, _)| n == name)
            .map(|(_, d)| d)
    }
}

const NAMES: &[&str] = &["tls-exporter", "tls-unique", "tls-server-end-point", "x-own.1", "TLS-EXPORTER"];

fn channel(sim: &mut Sim) -> Vec<(String, Vec<u8>)> {
    let n = sim.range(1, 3);
    let mut v: Vec<(String, Vec<u8>)> = Vec::new();
    let first = gen::cbdata(sim);
    for i in 0..n {
        let name = if i == 0 && sim.chance(2, 3) { NAMES[0] } else { *sim.pick(NAMES) };
        if v.iter().any(|(x, _)| x == name) {
            continue;
        }
        // the same data under several names must still not be mixed up
        let d = if sim.chance(1, 3) { first.clone() } else { gen::cbdata(sim) };
        v.push((name.to_string(), d));
    }
    v
}

fn knows(sim: &mut Sim, ch: &[(String, Vec<u8>)]) -> Knows {
    let mut k = Knows::default();
    for e in ch {
        if sim.chance(1, 8) {
            sim.fault("binding_data_unavailable");
            continue;
        }
        if sim.chance(1, 3) {
            k.property.push(e.clone());
        } else {
            k.callback.push(e.clone());
        }
    }
    k
}

fn registry(sim: &mut Sim) -> Vec<Mech> {
    let mut v = Vec::new();
    match sim.weighted(&[4, 2, 2, 4]) {
        0 => {
            let h = *sim.pick(BARE);
            v.push(h);
            v.push(h.plus_of().unwrap());
        }
        1 => v.extend_from_slice(BARE),
        2 => v.extend(BARE.iter().filter_map(|m| m.plus_of())),
        _ => {
            for b in BARE {
                if sim.chance(2, 3) {
                    v.push(*b);
                }
                if sim.chance(1, 2) {
                    v.push(b.plus_of().unwrap());
                }
            }
            if v.is_empty() {
                v.push(Mech::S256);
                v.push(Mech::S256P);
            }
        }
    }
    for i in (1..v.len()).rev() {
        let j = sim.usize(i + 1);
        v.swap(i, j);
    }
    v
}

fn shuffle<T>(sim: &mut Sim, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = sim.usize(i + 1);
        v.swap(i, j);
    }
}

/// Which binding names an endpoint asked for and whether it got data
fn bound(app: &App, sid: u32) -> Vec<(String, bool)> {
    let mut v: Vec<(String, bool)> = Vec::new();
    for e in app.log(sid) {
        match e {
            AppEv::CbData { name, found } => v.push((name, found)),
            AppEv::Req {
                prop: "ChannelBindings",
                ctx,
                answered: true,
                ..
            } => v.push((ctx.cbname.unwrap_or_default(), true)),
            _ => {}
        }
    }
    v
}

struct Parties {
    capp: std::sync::Arc<App>,
    sapp: std::sync::Arc<App>,
    ck: Knows,
    sk: Knows,
    creg: Vec<Mech>,
    sreg: Vec<Mech>,
    user: String,
    password: Vec<u8>,
    authzid: Option<String>,
    cbtype: Option<String>,
}

fn parties(sim: &mut Sim) -> Parties {
    let user = gen::plain_name(sim);
    let password = gen::plain_password(sim);
    let authzid = sim.chance(1, 4).then(|| gen::plain_name(sim));
    let ch = channel(sim);
    let ck = knows(sim, &ch);
    let mut sch = ch.clone();
    match sim.weighted(&[6, 3, 1, 1]) {
        0 => {}
        1 => {
            // the endpoint in the middle has one channel with either side
            sim.fault("endpoint_in_the_middle");
            for e in &mut sch {
                e.1 = gen::cbdata(sim);
            }
        }
        2 => {
            // differs in one place only
            sim.fault("binding_data_differs");
            for e in &mut sch {
                match sim.below(4) {
                    0 => e.1.push(0),
                    1 => {
                        e.1.pop();
                    }
                    2 => {
                        let i = sim.usize(e.1.len().max(1));
                        if let Some(b) = e.1.get_mut(i) {
                            *b ^= 1 << sim.below(8);
                        }
                    }
                    _ => e.1.reverse(),
                }
            }
        }
        _ => {
            // same data, but known under other names
            sim.fault("binding_type_differs");
            for (i, e) in sch.iter_mut().enumerate() {
                e.0 = NAMES[(i + 2) % NAMES.len()].to_string();
            }
        }
    }
    let sk = knows(sim, &sch);
    let cbtype = sim.chance(1, 4).then(|| sim.pick(NAMES).to_string());
    let capp = App::with_cb(sim.chance(4, 5));
    let sapp = App::with_cb(sim.chance(4, 5));
    Parties {
        capp,
        sapp,
        ck,
        sk,
        creg: registry(sim),
        sreg: registry(sim),
        user,
        password,
        authzid,
        cbtype,
    }
}

fn server_script(sim: &mut Sim, p: &Parties, h: Hash) -> Script {
    let (rec, _) = gen::record(sim, h, &p.password);
    Script {
        users: vec![(p.user.clone(), rec)],
        cbdata: p.sk.property.clone(),
        ..Script::default()
    }
}

fn step(sim: &mut Sim, s: &mut Sess, input: Option<&[u8]>) -> (R, Vec<u8>) {
    let o = s.step(input, &WCfg::default());
    let who = if s.is_client() { "client" } else { "server" };
    sim.mark(&format!("{who}:{}", o.res.label()));
    sim.ev(format!(
        "{who} step({}) -> {} \"{}\"",
        crate::sess::show_opt(input),
        o.res.short(),
        show(&o.bytes)
    ));
    sim.advance(1000);
    (o.res, o.bytes)
}

/// Exchange the flag of a client-first message
fn reflag(sim: &mut Sim, m: &[u8]) -> Vec<u8> {
    let at = m.iter().position(|b| *b == b',').unwrap_or(m.len());
    let f: String = match sim.below(5) {
        0 => "n".into(),
        1 => "y".into(),
        2 => "p=tls-unique".into(),
        3 => "p=tls-exporter".into(),
        _ => format!("p={}", sim.pick(NAMES)),
    };
    let mut o = f.into_bytes();
    o.extend_from_slice(&m[at..]);
    o
}

fn run(sim: &mut Sim) -> Res {
    if sim.chance(1, 3) {
        return forged(sim);
    }
    let p = parties(sim);
    let mut offer: Vec<Mech> = p.sreg.clone();
    shuffle(sim, &mut offer);
    let true_offer = offer.clone();
    let strip = match sim.weighted(&[4, 3, 1, 1]) {
        0 => false,
        1 => {
            offer.retain(|m| !m.plus());
            true
        }
        2 => {
            let h = *sim.pick(BARE);
            offer.retain(|m| *m != h.plus_of().unwrap());
            true
        }
        _ => {
            // the bare ones go, or something is added
            if sim.chance(1, 2) {
                offer.retain(|m| m.plus());
            } else {
                let h = *sim.pick(BARE);
                offer.push(h);
            }
            true
        }
    } && offer != true_offer;
    if strip {
        sim.fault("offer_edited");
    }
    let names: Vec<_> = offer.iter().map(|m| mechname(m.name())).collect();
    p.capp.set(
        1,
        Script {
            authid: Some(p.user.clone()),
            authzid: p.authzid.clone(),
            password: Some(p.password.clone()),
            cbtype: p.cbtype.clone(),
            cbdata: p.ck.property.clone(),
            ..Script::default()
        },
    );
    let ccfg = Config::new(&p.capp, &p.creg);
    let scfg = Config::new(&p.sapp, &p.sreg);
    sim.ev(format!(
        "client {:?} cb={} knows {:?} type {:?}; server {:?} knows {:?}; offered {:?}",
        p.creg, p.capp.cb_enabled, p.ck, p.cbtype, p.sreg, p.sk, offer
    ));
    let mut client = match start_client(&ccfg, 1, &names, p.ck.callback.clone()) {
        Ok(s) => s,
        Err(StartErr::NoMechanism) => {
            sim.probe("nothing_in_common");
            return Ok(());
        }
        Err(e) => return viol("start-failed", format!("{e:?}")),
    };
    let m = Mech::by_name(&client.mech()).unwrap();
    let h = m.hash().unwrap();
    ensure!(
        !m.plus() || p.capp.cb_enabled,
        "binding-without-consent",
        "{} selected although the application did not enable binding",
        m.name()
    );
    p.sapp.set(2, server_script(sim, &p, h));
    let mut server = match start_server(&scfg, 2, mechname(m.name()), p.sk.callback.clone()) {
        Ok(s) => s,
        Err(StartErr::NoMechanism) => {
            ensure!(
                !p.sreg.contains(&m),
                "start-failed",
                "server does not start for its own mechanism {}",
                m.name()
            );
            return Ok(());
        }
        Err(e) => return viol("start-failed", format!("{e:?}")),
    };

    // --- what has to come out ---
    let cname = match &p.cbtype {
        Some(t) => Some(t.clone()),
        None => ["tls-exporter", "tls-unique"]
            .iter()
            .find(|n| p.ck.get(n).is_some())
            .map(|n| (*n).to_string()),
    };
    let cdata = cname.as_ref().and_then(|n| p.ck.get(n));
    let sdata = cname.as_ref().and_then(|n| p.sk.get(n));
    let server_binds = m.plus() || p.sreg.contains(&m.plus_of().unwrap());
    let client_binds = p.capp.cb_enabled && p.creg.contains(&if m.plus() { m } else { m.plus_of().unwrap() });
    let offered_plus = m.plus() || offer.contains(&m.plus_of().unwrap());

    let (r, mut cf) = step(sim, &mut client, None);
    if m.plus() && cdata.is_none() {
        sim.probe("client_without_data");
        ensure!(
            matches!(r, R::Err(_)) && cf.is_empty(),
            "bound-without-data",
            "client has no binding data for {cname:?}, still: {} \"{}\"",
            r.short(),
            show(&cf)
        );
        return Ok(());
    }
    ensure!(r == R::Running, "client-failed", "client does not start: {}", r.short());
    let parsed = match ClientFirst::parse(&cf) {
        Ok(x) => x,
        Err(e) => return viol("first-malformed", format!("\"{}\": {e}", show(&cf))),
    };
    if m.plus() {
        ensure!(
            parsed.flag == Flag::P(cname.clone().unwrap()),
            "not-bound",
            "client under {} says {:?}, should bind with {cname:?}",
            m.name(),
            parsed.flag
        );
    } else {
        ensure!(
            !matches!(parsed.flag, Flag::P(_)),
            "bound-under-bare",
            "client under {} says {:?}",
            m.name(),
            parsed.flag
        );
        if client_binds && !offered_plus {
            ensure!(
                parsed.flag == Flag::Y,
                "downgrade-hidden",
                "client could bind, was not offered it and says {:?}",
                parsed.flag
            );
        }
    }
    // --- the wire ---
    let mut tampered = false;
    if sim.chance(1, 4) {
        let e = reflag(sim, &cf);
        if e != cf {
            sim.fault("flag_edited");
            cf = e;
            tampered = true;
        }
    }
    let flag = cf[..cf.iter().position(|b| *b == b',').unwrap()].to_vec();
    let (r, mut sf) = step(sim, &mut server, Some(&cf));
    let must_refuse_flag = match &flag[..] {
        b"y" => server_binds,
        b"n" => m.plus(),
        f => p.sk.get(std::str::from_utf8(&f[2..]).unwrap()).is_none(),
    };
    if must_refuse_flag {
        sim.probe("server_must_refuse_flag");
        ensure!(
            matches!(r, R::Err(_)),
            "downgrade-accepted",
            "server with {:?} and binding data {:?} answers \"{}\" to \"{}\": {}",
            p.sreg,
            p.sk,
            show(&sf),
            show(&cf),
            r.short()
        );
    }
    if r != R::Running {
        ensure!(
            must_refuse_flag,
            "honest-refused",
            "server refuses \"{}\": {}",
            show(&cf),
            r.short()
        );
        ensure!(p.sapp.validations(2).is_empty(), "validated", "refused, but validated");
        return Ok(());
    }
    // a nonce doesn't help the one in the middle, but let it try
    if sim.chance(1, 16) {
        sf.extend_from_slice(b" ");
        sim.fault("server_first_edited");
        tampered = true;
    }
    let (r, mut fin) = step(sim, &mut client, Some(&sf));
    if r != R::Running {
        ensure!(tampered, "honest-refused", "client refuses \"{}\": {}", show(&sf), r.short());
        return Ok(());
    }
    let pf = match ClientFinal::parse_any_nonce(&fin) {
        Ok(x) => x,
        Err(e) => return viol("final-malformed", format!("\"{}\": {e}", show(&fin))),
    };
    let mut want = parsed.gs2.clone();
    if m.plus() {
        want.extend_from_slice(cdata.unwrap());
    }
    ensure!(
        pf.cbind == want,
        "not-bound",
        "client sends c={} instead of {}",
        show(&pf.cbind),
        show(&want)
    );
    if tampered || sim.chance(1, 6) {
        // make c= fit what the server expects, or something else
        let mut c: Vec<u8> = match sim.below(3) {
            0 => pf.cbind.clone(),
            1 => {
                let c2 = cf.iter().enumerate().filter(|(_, b)| **b == b',').nth(1).map_or(cf.len() - 1, |x| x.0);
                let mut c = cf[..=c2].to_vec();
                if let Some(n) = flag.strip_prefix(b"p=") {
                    c.extend_from_slice(p.sk.get(std::str::from_utf8(n).unwrap()).unwrap());
                }
                c
            }
            _ => parsed.gs2.clone(),
        };
        if sim.chance(1, 8) {
            c.pop();
        }
        let at = fin.iter().position(|b| *b == b',').unwrap();
        let mut n = format!("c={}", b64(&c)).into_bytes();
        n.extend_from_slice(&fin[at..]);
        if n != fin {
            sim.fault("final_edited");
            tampered = true;
            fin = n;
        }
    }
    let (r, sfin) = step(sim, &mut server, Some(&fin));
    let validated = p.sapp.validations(2).len();
    let server_ok = validated > 0 || server.validation().is_some() || sfin.starts_with(b"v=");
    // deliver whatever the server says
    let client_ok = if matches!(r, R::Running | R::FinYes) {
        step(sim, &mut client, Some(&sfin)).0.finished()
    } else {
        false
    };
    if server_ok || client_ok {
        sim.probe("succeeded");
        let what = format!(
            "{} succeeds (server {server_ok}, client {client_ok}), client flag {:?}, data {:?}, server data {:?}",
            m.name(),
            parsed.flag,
            cdata,
            sdata
        );
        ensure!(!tampered, "tampering-unnoticed", "{what} although edited in transit");
        if m.plus() {
            sim.probe("succeeded_bound");
            ensure!(cdata.is_some() && cdata == sdata, "binding-mismatch", "{what}");
            for (app, sid, who) in [(&p.capp, 1, "client"), (&p.sapp, 2, "server")] {
                let n = cname.clone().unwrap();
                ensure!(
                    bound(app, sid).contains(&(n.clone(), true)),
                    "binding-not-used",
                    "{what}: {who} never looked at its data for {n}"
                );
            }
            let c = unb64(&fin[2..fin.iter().position(|b| *b == b',').unwrap()]).unwrap_or_default();
            ensure!(
                c.ends_with(sdata.unwrap()),
                "binding-not-sent",
                "{what}: sent {}",
                show(&c)
            );
        } else {
            ensure!(
                !(client_binds && !offered_plus && true_offer.contains(&m.plus_of().unwrap())),
                "stripped",
                "{what} although {} was removed from the offer",
                m.plus_of().unwrap().name()
            );
        }
    }
    // and nothing else stands in the way
    let fine = !tampered && if m.plus() { cdata == sdata } else { true };
    if fine {
        ensure!(
            validated == 1 && client_ok,
            "honest-refused",
            "{} refused without reason: server {} \"{}\"",
            m.name(),
            r.short(),
            show(&sfin)
        );
    }
    Ok(())
}

/// A client that knows the password and lies about binding as it likes
fn forged(sim: &mut Sim) -> Res {
    let p = parties(sim);
    let m = *sim.pick(&p.sreg.clone());
    let h = m.hash().unwrap();
    p.sapp.set(2, server_script(sim, &p, h));
    let scfg = Config::new(&p.sapp, &p.sreg);
    let mut server = server_for(&scfg, 2, m, p.sk.callback.clone())?;
    let name = sim.pick(NAMES).to_string();
    let flag = match sim.below(4) {
        0 | 1 => Flag::P(name.clone()),
        2 => Flag::N,
        _ => Flag::Y,
    };
    let data = match sim.below(4) {
        0 | 1 => p.sk.get(&name).cloned().unwrap_or_default(),
        2 => Vec::new(),
        _ => gen::cbdata(sim),
    };
    sim.fault("lying_client");
    let c = RefClient {
        hash: h,
        flag: flag.clone(),
        cbdata: data.clone(),
        authzid: p.authzid.clone(),
        user: p.user.clone(),
        nonce: nonce(sim),
        password: p.password.clone(),
        ext_first: String::new(),
        ext_final: String::new(),
    };
    sim.ev(format!(
        "client lies {flag:?} data {}; server {} of {:?} knows {:?}",
        show(&data),
        m.name(),
        p.sreg,
        p.sk
    ));
    let server_binds = m.plus() || p.sreg.contains(&m.plus_of().unwrap());
    let ok = match &flag {
        Flag::N => !m.plus(),
        Flag::Y => !server_binds,
        Flag::P(n) => p.sk.get(n).is_some(),
    };
    let (r, sf) = step(sim, &mut server, Some(&c.first()));
    if !ok {
        sim.probe("server_must_refuse_flag");
        ensure!(
            matches!(r, R::Err(_)),
            "downgrade-accepted",
            "server {} of {:?} knowing {:?} goes on with flag {flag:?}: {}",
            m.name(),
            p.sreg,
            p.sk,
            r.short()
        );
        return Ok(());
    }
    if r != R::Running {
        // a bare mechanism need not support binding
        ensure!(
            !m.plus() && matches!(flag, Flag::P(_)),
            "honest-refused",
            "server refuses {flag:?}: {}",
            r.short()
        );
        return Ok(());
    }
    let Ok((mut fin, _)) = c.last(&sf) else {
        return viol("server-first", format!("\"{}\"", show(&sf)));
    };
    let mut right = match &flag {
        Flag::P(n) => p.sk.get(n) == Some(&data),
        _ => true,
    };
    if sim.chance(1, 4) {
        // bound after all, or not: c= of its own choice, with a proof that fits
        let over = match sim.below(3) {
            0 => c.gs2().replace("p=", "x=").into_bytes(),
            1 => [b"n,,".to_vec(), data.clone()].concat(),
            _ => b"p=tls-unique,,".to_vec(),
        };
        let honest = [
            c.gs2().into_bytes(),
            match &flag {
                Flag::P(_) => data.clone(),
                _ => Vec::new(),
            },
        ]
        .concat();
        if over != honest {
            sim.fault("final_forged");
            right = false;
            let n = crate::scram::ServerFirst::parse(&sf).unwrap();
            let wp = [
                format!("c={},r=", b64(&over)).into_bytes(),
                n.nonce.clone(),
            ]
            .concat();
            let k = crate::scram::Keys::derive(h, &p.password, &n.salt, n.iter);
            let am = crate::scram::auth_message(c.bare().as_bytes(), &sf, &wp);
            let proof = crate::scram::xor(&k.client, &crate::scram::hmac(h, &k.stored, &am));
            fin = [wp, format!(",p={}", b64(&proof)).into_bytes()].concat();
            // by chance what the server expects?
            let expect = match &flag {
                Flag::P(n) => [c.gs2().into_bytes(), p.sk.get(n).cloned().unwrap_or_default()].concat(),
                _ => c.gs2().into_bytes(),
            };
            right = right || over == expect;
        }
    }
    let (r, out) = step(sim, &mut server, Some(&fin));
    let n = p.sapp.validations(2).len();
    if right {
        sim.probe("succeeded_bound");
        ensure!(
            n == 1 && out.starts_with(b"v="),
            "honest-refused",
            "server refuses equal binding data: {} \"{}\"",
            r.short(),
            show(&out)
        );
    } else {
        ensure!(
            n == 0 && !out.starts_with(b"v=") && server.validation().is_none(),
            "binding-mismatch",
            "server {} accepts flag {flag:?} with data {} knowing {:?}: {} \"{}\"",
            m.name(),
            show(&data),
            p.sk,
            r.short(),
            show(&out)
        );
    }
    Ok(())
}
