//! Identities and secrets reach the server application unaltered.
use super::{Prop, ASSUME, DISTINCT, REAL, STUB};
use crate::app::{App, AppEv, Script, View};
use crate::ensure;
use crate::exch::{exchange, Opts};
use crate::gen;
use crate::scram;
use crate::sess::{client_for, server_for, Config, Mech, ALL, R};
use crate::sim::{viol, Res, Sim};
use rsasl::prelude::SASLConfig;

pub const PROP: Prop = Prop {
    id: "C01",
    run,
    quick: 400_000,
    thorough: 8_000_000,
    hang_s: 30,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Exp {
    /// Has to arrive
    Carry,
    /// May be refused, but if it arrives then unaltered
    Either,
    /// Can't be carried
    Reject,
}

/// What the server application has to see
pub fn expect(m: Mech, c: &Script) -> (Exp, View) {
    let mut v = View::default();
    let mut e = Exp::Carry;
    let nul = |s: &str| s.contains('\0');
    let soh = |s: &str| s.contains('\u{1}');
    let mut lower = |x: Exp| {
        e = match (e, x) {
            (Exp::Reject, _) | (_, Exp::Reject) => Exp::Reject,
            (Exp::Either, _) | (_, Exp::Either) => Exp::Either,
            _ => Exp::Carry,
        }
    };
    let prep = |s: &str| stringprep::saslprep(s).ok().map(|s| s.into_owned()).filter(|s| !s.is_empty());
    match m {
        Mech::Plain => {
            let authid = c.authid.clone().unwrap();
            let pw = c.password.clone().unwrap();
            if authid.is_empty() || nul(&authid) || pw.is_empty() || pw.contains(&0) {
                lower(Exp::Reject);
            }
            match prep(&authid) {
                Some(a) => v.authid = Some(a),
                None => lower(Exp::Reject),
            }
            v.password = match std::str::from_utf8(&pw) {
                Ok(s) => match prep(s) {
                    Some(p) => Some(p.into_bytes()),
                    None => {
                        lower(Exp::Reject);
                        None
                    }
                },
                Err(_) => Some(pw),
            };
            v.authzid = c.authzid.clone();
            if c.authzid.as_deref().is_some_and(nul) {
                lower(Exp::Reject);
            }
        }
        Mech::Login => {
            v.authid = c.authid.clone();
            v.password = c.password.clone();
        }
        Mech::Anon => {
            v.anon = c.anon.clone();
            if c.anon.as_ref().is_some_and(|a| a.len() > 255) {
                lower(Exp::Either);
            }
        }
        Mech::Ext => v.authzid = c.authzid.clone(),
        Mech::Xoa => {
            v.authid = c.authid.clone();
            v.token = c.token.clone();
            if soh(v.authid.as_ref().unwrap()) {
                lower(Exp::Reject);
            }
            if soh(v.token.as_ref().unwrap()) {
                lower(Exp::Either);
            }
        }
        Mech::Oab => {
            v.authzid = c.authzid.clone();
            v.token = c.token.clone();
            v.kv = c.kv.clone();
            let t = c.token.as_ref().unwrap();
            if soh(t) {
                lower(Exp::Reject);
            } else if t.is_empty() || !t.bytes().all(|b| (0x20..0x7f).contains(&b)) {
                lower(Exp::Either);
            }
            if let Some(a) = &c.authzid {
                if soh(a) || nul(a) {
                    lower(Exp::Reject);
                }
                if a.is_empty() {
                    lower(Exp::Either);
                }
            }
            for (k, val) in c.kv.iter().flatten() {
                if soh(k) || soh(val) || k.contains('=') || k == "auth" {
                    lower(Exp::Reject);
                } else if k.is_empty()
                    || !k.bytes().all(|b| b.is_ascii_alphabetic())
                    || !val.bytes().all(|b| (0x20..0x7f).contains(&b) || b"\t\r\n".contains(&b))
                {
                    lower(Exp::Either);
                }
            }
        }
        Mech::Gss => {}
        _ => {
            v.authid = c.authid.clone();
            v.authzid = c.authzid.clone();
            let a = c.authid.as_ref().unwrap();
            if a.is_empty() || nul(a) {
                lower(Exp::Reject);
            }
            if let Some(a) = &c.authzid {
                if nul(a) {
                    lower(Exp::Reject);
                }
                if a.is_empty() {
                    lower(Exp::Either);
                }
            }
        }
    }
    (e, v)
}

/// `None`, if what the application saw is what it should have seen
pub fn differs(m: Mech, want: &View, got: &View) -> Option<String> {
    let empty_is_none = |o: &Option<String>| o.clone().filter(|s| !s.is_empty());
    let mut d = Vec::new();
    let mut cmp = |name: &str, same: bool, w: String, g: String| {
        if !same {
            d.push(format!("{name}: sent {w}, application saw {g}"));
        }
    };
    let f = |o: &Option<String>| format!("{o:?}");
    cmp("authid", want.authid == got.authid, f(&want.authid), f(&got.authid));
    cmp(
        "authzid",
        empty_is_none(&want.authzid) == empty_is_none(&got.authzid),
        f(&want.authzid),
        f(&got.authzid),
    );
    cmp(
        "password",
        want.password == got.password,
        format!("{:?}", want.password),
        format!("{:?}", got.password),
    );
    cmp("token", want.token == got.token, f(&want.token), f(&got.token));
    let kv = |o: &Option<Vec<(String, String)>>| o.clone().unwrap_or_default();
    cmp(
        "key/value pairs",
        kv(&want.kv) == kv(&got.kv),
        format!("{:?}", want.kv),
        format!("{:?}", got.kv),
    );
    cmp(
        "trace token",
        empty_is_none(&want.anon) == empty_is_none(&got.anon),
        f(&want.anon),
        f(&got.anon),
    );
    (!d.is_empty()).then(|| d.join("; "))
}

fn run(sim: &mut Sim) -> Res {
    let m = *sim.pick(ALL);
    let (mut c, mut s, cb) = gen::honest(sim, m);
    // hostile values in any of the fields
    let nfields = sim.range(0, 6);
    for _ in 0..nfields {
        sim.nontrivial = true;
        match sim.below(6) {
            0 if c.authid.is_some() => c.authid = Some(gen::hostile(sim)),
            1 if !matches!(m, Mech::Xoa | Mech::Login | Mech::Anon) => {
                c.authzid = if sim.chance(1, 6) {
                    Some(String::new())
                } else {
                    Some(gen::hostile(sim))
                }
            }
            2 if c.password.is_some() => c.password = Some(gen::password(sim)),
            3 if c.token.is_some() => c.token = Some(gen::token(sim)),
            4 if m == Mech::Oab => {
                // many plain pairs, or a few odd ones
                let many = sim.chance(1, 8);
                let n = if many { sim.usize(80) } else { sim.usize(4) };
                let mut kv = Vec::new();
                for i in 0..n {
                    if many {
                        kv.push((format!("k{}", if sim.chance(1, 8) { 0 } else { i }), format!("{i}")));
                        continue;
                    }
                    let k = match sim.below(4) {
                        0 => "host".to_string(),
                        1 => "port".to_string(),
                        2 => sim.pick(&["auth", "Auth", "autho", "a=b", "user", "x", "mthd"]).to_string(),
                        _ => gen::hostile(sim),
                    };
                    let v = if sim.chance(1, 2) { gen::hostile(sim) } else { "1=2,3".to_string() };
                    kv.push((k, v));
                }
                c.kv = Some(kv);
            }
            5 if m == Mech::Anon => {
                c.anon = Some(if sim.chance(1, 8) {
                    String::new()
                } else {
                    gen::hostile(sim)
                })
            }
            _ => {}
        }
    }
    if sim.chance(1, 12) {
        // the shortest messages there are
        sim.probe("shortest");
        for f in [&mut c.authid, &mut c.token, &mut c.anon] {
            if f.is_some() {
                *f = Some(gen::tiny(sim).chars().take(1).collect());
            }
        }
        c.authzid = c.authzid.take().filter(|_| sim.chance(1, 3)).map(|_| gen::tiny(sim));
        if c.password.is_some() {
            c.password = Some(gen::tiny(sim).bytes().take(1).collect());
        }
    }
    if m == Mech::Anon && c.anon.is_none() && sim.chance(1, 2) {
        c.anon = Some(gen::hostile(sim));
    }
    if let Some(h) = m.hash() {
        // the record belongs to exactly this user; others nearby in name own the same password
        let user = c.authid.clone().unwrap();
        let pw = c.password.clone().unwrap();
        let (rec, _) = gen::record(sim, h, &pw);
        s.users = vec![(user.clone(), rec.clone())];
        let mut decoys = vec![
            scram::escape(&user),
            user.replace("=2C", ",").replace("=3D", "="),
            user.replace([',', '='], ""),
            user.trim().to_string(),
            user.to_lowercase(),
            user.chars().take(user.chars().count().saturating_sub(1)).collect(),
            format!("{user},"),
            user.split(',').next().unwrap_or("").to_string(),
            stringprep::saslprep(&user).map(|s| s.into_owned()).unwrap_or_default(),
        ];
        if let Some(a) = &c.authzid {
            decoys.push(a.clone());
        }
        for d in decoys {
            if d != user {
                s.users.push((d, rec.clone()));
            }
        }
    }
    let builtin = matches!(m, Mech::Plain | Mech::Login | Mech::S1 | Mech::S256 | Mech::S512)
        && c.password.as_ref().is_some_and(|p| std::str::from_utf8(p).is_ok())
        && sim.chance(1, 4);
    let (exp, want) = expect(m, &c);
    sim.probe(match exp {
        Exp::Carry => "must_arrive",
        Exp::Either => "may_be_refused",
        Exp::Reject => "must_be_refused",
    });

    let capp = App::with_cb(true);
    let sapp = App::with_cb(true);
    let mut ccfg = Config::new(&capp, &[m]);
    if builtin {
        sim.probe("builtin_credentials");
        let pw = String::from_utf8(c.password.clone().unwrap()).unwrap();
        match SASLConfig::with_credentials(c.authzid.clone(), c.authid.clone().unwrap(), pw) {
            Ok(cfg) => ccfg.cfg = cfg,
            Err(e) => return viol("config", format!("with_credentials refuses: {e}")),
        }
    }
    let scfg = Config::new(&sapp, &[m]);
    capp.set(1, c.clone());
    sapp.set(2, s.clone());
    sim.ev(format!(
        "C01 {} builtin={builtin} authid={:?} authzid={:?} password={:?} token={:?} kv={:?} anon={:?} expect {exp:?}",
        m.name(),
        c.authid,
        c.authzid,
        c.password.as_ref().map(|p| String::from_utf8_lossy(p).into_owned()),
        c.token,
        c.kv,
        c.anon
    ));
    let mut client = client_for(&ccfg, 1, m, cb.clone())?;
    let mut server = server_for(&scfg, 2, m, cb)?;
    let mut o = Opts::draw(sim);
    o.max_steps = 10;
    let x = exchange(sim, &mut client, &mut server, &o)?;
    if let Some(p) = x.panicked() {
        return viol("panic", format!("{} panicked: {}", p.who.name(), p.res.short()));
    }
    // whatever is shown to the application along the way has to be right too
    for ev in sapp.log(2) {
        let (ctx, what) = match &ev {
            AppEv::Validate { ctx, .. } => (ctx, "validation"),
            AppEv::Req { ctx, prop, .. }
                if matches!(*prop, "ScramStoredPassword" | "OAuthBearerValidate" | "XOAuth2Validate") =>
            {
                (ctx, *prop)
            }
            _ => continue,
        };
        if exp == Exp::Reject && what == "validation" {
            return viol(
                "unfaithful",
                format!("{}: a value that cannot be carried arrived as {ctx:?}", m.name()),
            );
        }
        if exp != Exp::Reject {
            if let Some(d) = differs(m, &want, ctx) {
                return viol("altered", format!("{} in {what}: {d}", m.name()));
            }
        }
    }
    let nval = sapp.validations(2).len();
    match exp {
        Exp::Carry => {
            ensure!(
                x.client_ok() && x.server_ok() && nval == 1,
                "refused",
                "{}: valid values refused ({nval} validations): {}",
                m.name(),
                x.summary()
            );
        }
        Exp::Reject => {
            ensure!(
                x.first_error().is_some() || matches!(x.server, Some(R::FinYes)),
                "no-error",
                "{}: a value that cannot be carried did not end the exchange with an error: {}",
                m.name(),
                x.summary()
            );
        }
        Exp::Either => {
            ensure!(
                nval == 1 || x.first_error().is_some() || matches!(x.server, Some(R::FinYes)),
                "no-outcome",
                "{}: neither validated nor refused: {}",
                m.name(),
                x.summary()
            );
        }
    }
    Ok(())
}
