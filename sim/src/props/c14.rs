//! Refusals are reported as refusals, unaltered, on both sides.
use super::*;
use crate::app::{App, AppEv, OErr, Script, Val, ValPolicy};
use crate::ensure;
use crate::exch::{carry, do_step, Opts, Who};
use crate::gen;
use crate::peer::{RefPeer, Says};
use crate::sess::*;
use crate::sim::{viol, Res, Sim};

pub const PROP: Prop = Prop {
    id: "C14",
    run,
    quick: 200_000,
    thorough: 5_000_000,
    hang_s: 60,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: &[
        "an XOAUTH2 refusal carries the non-empty document the application is required to supply",
        "a client is only told of success (stepped without data) if the server did not refuse",
    ],
};

pub const CODES: &[&str] = &[
    "invalid-encoding",
    "extensions-not-supported",
    "invalid-proof",
    "channel-bindings-dont-match",
    "server-does-support-channel-binding",
    "channel-binding-not-supported",
    "unsupported-channel-binding-type",
    "unknown-user",
    "invalid-username-encoding",
    "no-resources",
    "other-error",
];

fn anything(sim: &mut Sim) -> String {
    match sim.weighted(&[3, 5, 3]) {
        0 => sim.pick(&["invalid_token", "insufficient_scope", "invalid_request", ""]).to_string(),
        1 => gen::hostile(sim),
        _ => {
            let n = sim.range(1, 6);
            (0..n)
                .map(|_| {
                    *sim.pick(&[
                        "\"", "\\", "/", "\n", "\r", "\t", "\u{8}", "\u{c}", "\u{0}", "\u{1}", "\u{1f}", "\u{7f}", "\\u0041", "{",
                        "}", ",", ":", "null", "\u{2028}", "\u{1f600}", "\u{e9}", " ", "x", "\\\"", "https://a/?b=c&d",
                    ])
                })
                .collect()
        }
    }
}

fn oerr(sim: &mut Sim) -> OErr {
    OErr {
        status: anything(sim),
        scope: sim.chance(1, 2).then(|| anything(sim)),
        conf: sim.chance(1, 2).then(|| anything(sim)),
    }
}

/// What the client application logs for this error
fn noted(e: &OErr) -> String {
    format!("{:?}", (e.status.as_str(), e.scope.as_deref(), e.conf.as_deref()))
}

/// A JSON string the way some other server may write it
fn json_str(sim: &mut Sim, s: &str) -> String {
    let all = sim.chance(1, 3);
    let mut o = String::from("\"");
    for c in s.chars() {
        let must = c < ' ' || c == '"' || c == '\\';
        if must || all || sim.chance(1, 12) {
            match c {
                '"' if sim.chance(1, 2) => o += "\\\"",
                '\\' if sim.chance(1, 2) => o += "\\\\",
                '/' if sim.chance(1, 2) => o += "\\/",
                '\n' if sim.chance(1, 2) => o += "\\n",
                _ => {
                    let mut b = [0; 2];
                    for u in c.encode_utf16(&mut b) {
                        o += &if sim.chance(1, 2) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") };
                    }
                }
            }
        } else {
            o.push(c);
        }
    }
    o.push('"');
    o
}

fn json(sim: &mut Sim, e: &OErr) -> Vec<u8> {
    let mut f = vec![format!("\"status\":{}", json_str(sim, &e.status))];
    for (k, v) in [("scope", &e.scope), ("openid-configuration", &e.conf)] {
        match v {
            Some(v) => {
                let v = json_str(sim, v);
                f.push(format!("\"{k}\":{v}"));
            }
            None if sim.chance(1, 6) => f.push(format!("\"{k}\":null")),
            None => {}
        }
    }
    // members this client need not know; later revisions and vendors add such
    if sim.chance(1, 3) {
        for _ in 0..1 + sim.usize(3) {
            let k: &str = *sim.pick(&[
                "error", "error_description", "error_uri", "error_codes", "schemes", "code", "realm", "message", "reason",
                "timestamp", "trace_id", "scopes", "Status", "SCOPE", "openid_configuration", "openid_config", "x", "",
            ]);
            if f.iter().any(|m| m.starts_with(&format!("\"{k}\":"))) {
                continue;
            }
            let v: &str = *sim.pick(&[
                "\"x\"", "\"\"", "null", "true", "0", "401", "-1.5e3", "18446744073709551616", "[]", "[\"bearer\",{}]",
                "[50126,null]", "{}", "{\"status\":\"200\"}", "{\"a\":{\"b\":[[]]}}",
            ]);
            f.push(format!("\"{k}\":{v}"));
        }
    }
    for i in (1..f.len()).rev() {
        let j = sim.usize(i + 1);
        f.swap(i, j);
    }
    let ws: &str = *sim.pick(&["", "", " ", "\n\t"]);
    format!("{ws}{{{ws}{}{ws}}}{ws}", f.join(&format!("{ws},{ws}"))).into_bytes()
}

/// The fields as another client reads them
fn unjson(b: &[u8]) -> Option<OErr> {
    let v: serde_json::Value = serde_json::from_slice(b).ok()?;
    let get = |k: &str| match v.get(k) {
        None | Some(serde_json::Value::Null) => Some(None),
        Some(serde_json::Value::String(s)) => Some(Some(s.clone())),
        _ => None,
    };
    Some(OErr { status: get("status")??, scope: get("scope")?, conf: get("openid-configuration")? })
}

/// A refusal that is not quite one, but not empty either
fn garble(sim: &mut Sim, m: &[u8]) -> Vec<u8> {
    let mut b = m.to_vec();
    match sim.below(10) {
        0 => b.truncate(sim.usize(m.len().max(1))),
        1 => b.push(*sim.pick(b"x}\0\xff")),
        2 => b = b"\xff\xfe".to_vec(),
        3 => b = b"{}".to_vec(),
        4 => b = b"null".to_vec(),
        5 => b = b"\"invalid_token\"".to_vec(),
        6 => b = b"[{\"status\":\"400\"}]".to_vec(),
        7 => b = b"{\"status\":401}".to_vec(),
        8 => b = vec![*sim.pick(&[0u8, 1, 10, 32, b'{', b'"', 0x80])],
        _ => {
            if !b.is_empty() {
                let i = sim.usize(b.len());
                b[i] = sim.below(256) as u8;
            }
        }
    }
    if b.is_empty() {
        b.push(b'{');
    }
    b
}

struct Conn {
    m: Mech,
    sid: u32,
    c: Script,
    o: Opts,
    client: Option<Sess>,
    server: Option<Sess>,
    reference: RefPeer,
    /// The server's refusal
    err: OErr,
    msg: Option<Vec<u8>>,
    n: u32,
    done: bool,
    refused: Option<Vec<u8>>,
    log: Vec<String>,
}

impl Conn {
    fn story(&self) -> String {
        format!("{}: {}", self.m.name(), self.log.join("; "))
    }
    fn step(&mut self, sim: &mut Sim, who: Who, input: Option<&[u8]>) -> crate::exch::StepRec {
        let o = self.o;
        let s = match who {
            Who::Client => self.client.as_mut().unwrap(),
            Who::Server => self.server.as_mut().unwrap(),
        };
        let r = do_step(sim, s, input, &o);
        self.log.push(format!("{}({}) -> {} \"{}\"", who.name(), show_opt(input), r.res.short(), show(&r.bytes)));
        r
    }
    fn value(&mut self) -> Option<Val> {
        self.server.as_mut().and_then(Sess::validation)
    }

    /// Messages the server may still receive once it has refused: none of them may change its mind
    fn after(&mut self, sim: &mut Sim, good: &[u8]) -> Res {
        ensure!(self.value().is_none(), "refusal-lost", "the server refused and has a validation result: {}", self.story());
        let mut left = 3;
        while left > 0 && self.server.as_ref().is_some_and(Sess::alive) {
            left -= 1;
            let i = match sim.below(7) {
                0 => {
                    sim.fault("lost_message");
                    None
                }
                1 => Some(Vec::new()),
                2 => Some(vec![1]),
                3 => {
                    sim.fault("repeated_message");
                    self.refused.clone()
                }
                4 => {
                    sim.fault("late_good_message");
                    Some(good.to_vec())
                }
                5 => Some(sim.bytes(40)),
                _ => Some(b"{}".to_vec()),
            };
            self.server.as_ref().unwrap().app.script(self.sid + 1, |s| {
                s.refuse = None;
                s.refuse_x = None;
                s.validate = ValPolicy::Accept;
            });
            let r = self.step(sim, Who::Server, i.as_deref());
            ensure!(
                !matches!(r.res, R::Panic(_)),
                "panic",
                "{}",
                self.story()
            );
            ensure!(
                self.value().is_none(),
                "refusal-lost",
                "a refused client was accepted after all: {}",
                self.story()
            );
            if matches!(r.res, R::Running | R::FinYes) {
                ensure!(left > 0, "no-end", "the server does not come to an end after its refusal: {}", self.story());
            }
        }
        ensure!(
            !self.server.as_ref().is_some_and(Sess::alive),
            "no-end",
            "the server does not come to an end after its refusal: {}",
            self.story()
        );
        Ok(())
    }

    fn oauth(&mut self, sim: &mut Sim) -> Res {
        let m = self.m;
        match self.n {
            // the client's message
            0 => {
                let b = if self.client.is_some() {
                    let r = self.step(sim, Who::Client, None);
                    ensure!(matches!(r.res, R::Running | R::FinYes), "refused", "{}", self.story());
                    r.bytes
                } else {
                    match self.reference.client(None) {
                        Ok(Says::Last(b)) => b,
                        e => panic!("harness: {e:?}"),
                    }
                };
                self.msg = Some(carry(sim, &b, self.o.fragment));
            }
            // the server's answer
            1 => {
                let i = self.msg.take().unwrap();
                let b = if self.server.is_some() {
                    self.refused = Some(i.clone());
                    let r = self.step(sim, Who::Server, Some(&i));
                    ensure!(
                        matches!(r.res, R::Running | R::FinYes),
                        "not-reported",
                        "the server application refuses the token with {:?}: {}",
                        self.err,
                        self.story()
                    );
                    r.bytes
                } else if m == Mech::Oab {
                    json(sim, &self.err)
                } else {
                    self.err.status.clone().into_bytes()
                };
                self.msg = Some(carry(sim, &b, self.o.fragment));
            }
            // the client takes note
            2 => {
                let mut i = self.msg.take().unwrap();
                let garbled = self.client.is_some() && sim.chance(1, 5);
                if garbled {
                    sim.fault("garbled_refusal");
                    i = garble(sim, &i);
                }
                let answer = if garbled {
                    // no longer what the server chose, but still a refusal
                    let r = self.step(sim, Who::Client, Some(&i));
                    ensure!(!matches!(r.res, R::Panic(_)), "panic", "{}", self.story());
                    let told = self.client.as_ref().unwrap().app.log(self.sid).iter().any(|e| matches!(e, AppEv::Act { taken: true, .. }));
                    ensure!(
                        told || !r.res.ok(),
                        "refusal-lost",
                        "the client finishes on a refusal its application never heard of: {}",
                        self.story()
                    );
                    sim.probe(if told { "garbled_noted" } else { "garbled_refused" });
                    vec![1]
                } else if self.client.is_some() {
                    let r = self.step(sim, Who::Client, Some(&i));
                    let app = self.client.as_ref().unwrap().app.clone();
                    let acts: Vec<(String, bool)> = app
                        .log(self.sid)
                        .into_iter()
                        .filter_map(|e| match e {
                            AppEv::Act { val, taken, .. } => Some((val, taken)),
                            _ => None,
                        })
                        .collect();
                    let want = if m == Mech::Oab { noted(&self.err) } else { self.err.status.clone() };
                    if self.c.refuse_actions {
                        sim.probe("error_ignored");
                        ensure!(
                            matches!(r.res, R::Err(_)),
                            "ignored",
                            "the application ignores the error and the client does not fail: {}",
                            self.story()
                        );
                    } else {
                        ensure!(
                            acts == [(want.clone(), true)],
                            "altered",
                            "server chose {want}, the client application was told {acts:?}: {}",
                            self.story()
                        );
                        ensure!(
                            r.res.finished(),
                            "no-end",
                            "the client has taken note of the error and does not end: {}",
                            self.story()
                        );
                        // the server waits for that, be it empty
                        ensure!(
                            r.res == R::FinYes,
                            "no-end",
                            "the client does not answer the refusal, the server is left waiting: {}",
                            self.story()
                        );
                        sim.probe("error_noted");
                    }
                    r.bytes
                } else {
                    let same = if m == Mech::Oab {
                        unjson(&i).as_ref() == Some(&self.err)
                    } else {
                        i == self.err.status.as_bytes()
                    };
                    ensure!(
                        same,
                        "altered",
                        "the server application chose {:?}, another client reads \"{}\" as {:?}: {}",
                        self.err,
                        show(&i),
                        unjson(&i),
                        self.story()
                    );
                    sim.probe("error_read_by_reference");
                    vec![1]
                };
                if self.server.is_some() {
                    // the same party with a token that is good
                    let mut c2 = self.c.clone();
                    c2.token = Some("good".into());
                    let good = match RefPeer::new(m, &c2, &Script::default(), &[], String::new()).client(None) {
                        Ok(Says::Last(b)) => b,
                        e => panic!("harness: {e:?}"),
                    };
                    if sim.chance(1, 2) {
                        let r = self.step(sim, Who::Server, Some(&answer));
                        ensure!(
                            matches!(r.res, R::FinNo | R::Err(_)) && self.value().is_none(),
                            "no-end",
                            "the server does not end after its refusal: {}",
                            self.story()
                        );
                    }
                    self.after(sim, &good)?;
                }
                self.done = true;
            }
            _ => unreachable!(),
        }
        self.n += 1;
        Ok(())
    }

    /// A client waiting for the end of an exchange gets something else first
    fn disturb(&mut self, sim: &mut Sim, sf: &[u8]) -> Res {
        for _ in 0..sim.below(3) {
            if !self.client.as_ref().unwrap().alive() {
                return Ok(());
            }
            let i = match sim.below(4) {
                0 => {
                    sim.fault("lost_message");
                    None
                }
                1 => {
                    sim.fault("empty_message");
                    Some(Vec::new())
                }
                2 => {
                    sim.fault("repeated_message");
                    Some(sf.to_vec())
                }
                _ => {
                    sim.fault("empty_message");
                    Some(b"e=".to_vec())
                }
            };
            let r = self.step(sim, Who::Client, i.as_deref());
            ensure!(
                !r.res.ok(),
                "refusal-lost",
                "a client goes on without the server's final message: {}",
                self.story()
            );
        }
        Ok(())
    }

    fn scram_end(&mut self, sim: &mut Sim, e: &[u8]) -> Res {
        let r = self.step(sim, Who::Client, Some(e));
        let R::Err(err) = &r.res else {
            return viol("refusal-lost", format!("the server refuses, the client does not fail: {}", self.story()));
        };
        let code = String::from_utf8_lossy(&e[2..]).into_owned();
        let squash = |s: &str| s.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>().to_ascii_lowercase();
        let known = CODES.contains(&code.as_str());
        let want = if known { squash(&code) } else { "othererror".into() };
        sim.probe(if known { "scram_code_known" } else { "scram_code_unknown" });
        if !code.contains(',') {
            let got = squash(&err.text);
            let others: Vec<&str> =
                CODES.iter().copied().filter(|c| squash(c) != want && !want.contains(&squash(c)) && got.contains(&squash(c))).collect();
            ensure!(
                (got.contains(&want) || !known && got.contains(&squash(&code))) && others.is_empty(),
                "reason",
                "the server's reason is {code:?}, the client reports {}: {}",
                err.text,
                self.story()
            );
        }
        ensure!(r.bytes.is_empty(), "answer", "the client answers a refusal: {}", self.story());
        Ok(())
    }
}

fn oauth(sim: &mut Sim) -> Res {
    let n = sim.range(1, 3);
    let capp = App::with_cb(true);
    let sapp = App::with_cb(true);
    let ccfg = Config::new(&capp, &[Mech::Oab, Mech::Xoa]);
    let scfg = Config::new(&sapp, &[Mech::Oab, Mech::Xoa]);
    let mut conns = Vec::new();
    for k in 0..n {
        let m = if sim.chance(2, 3) { Mech::Oab } else { Mech::Xoa };
        let (mut c, mut s, _) = gen::honest(sim, m);
        c.refuse_actions = sim.chance(1, 4);
        let mut err = oerr(sim);
        if m == Mech::Xoa {
            err.scope = None;
            err.conf = None;
            if err.status.is_empty() {
                err.status = "{}".into();
            }
        }
        s.refuse = Some(err.clone());
        s.refuse_x = Some(err.status.clone());
        s.validate = ValPolicy::Decline;
        let sid = 10 + 10 * k;
        let (rc, rs) = match sim.weighted(&[4, 2, 3]) {
            0 => (true, true),
            1 => (false, true),
            _ => (true, false),
        };
        capp.set(sid, c.clone());
        sapp.set(sid + 1, s.clone());
        sim.nontrivial = true;
        sim.ev(format!("#{sid}: {} refusal {err:?}, ignored: {}", m.name(), c.refuse_actions));
        conns.push(Conn {
            m,
            sid,
            o: Opts::draw(sim),
            client: if rc { Some(client_for(&ccfg, sid, m, Vec::new())?) } else { None },
            server: if rs { Some(server_for(&scfg, sid + 1, m, Vec::new())?) } else { None },
            reference: RefPeer::new(m, &c, &s, &[], String::new()),
            c,
            err,
            msg: None,
            n: 0,
            done: false,
            refused: None,
            log: Vec::new(),
        });
    }
    loop {
        let open: Vec<usize> = (0..conns.len()).filter(|i| !conns[*i].done).collect();
        if open.is_empty() {
            return Ok(());
        }
        let i = *sim.pick(&open);
        conns[i].oauth(sim)?;
    }
}

fn scram(sim: &mut Sim) -> Res {
    let m = *sim.pick(SCRAM);
    let (mut c, mut s, cb) = gen::honest(sim, m);
    let mut scb = cb.clone();
    let reference = sim.chance(1, 2);
    let mut why = "";
    if !reference {
        let n = if m.plus() { 4 } else { 3 };
        why = match sim.below(n) {
            0 => {
                c.password = Some(gen::password(sim)).filter(|p| Some(p) != c.password.as_ref() && !p.is_empty()).or(Some(b"other".to_vec()));
                "wrong password"
            }
            1 => {
                s.users.clear();
                "unknown user"
            }
            2 => {
                // the record belongs to other keys
                let k = sim.usize(s.users[0].1.stored_key.len());
                s.users[0].1.stored_key[k] ^= 1 << sim.below(8);
                "wrong record"
            }
            _ => {
                let d = &mut scb[0].1;
                let k = sim.usize(d.len());
                d[k] ^= 1;
                "other channel"
            }
        };
    }
    sim.nontrivial = true;
    sim.ev(format!("{} refused: {why} (reference server {reference})", m.name()));
    let capp = App::with_cb(m.plus());
    let sapp = App::with_cb(m.plus());
    let ccfg = Config::new(&capp, &[m]);
    let scfg = Config::new(&sapp, &[m]);
    capp.set(10, c.clone());
    sapp.set(11, s.clone());
    let mut k = Conn {
        m,
        sid: 10,
        o: Opts::draw(sim),
        client: Some(client_for(&ccfg, 10, m, cb.clone())?),
        server: if reference { None } else { Some(server_for(&scfg, 11, m, scb)?) },
        reference: RefPeer::new(m, &c, &s, &cb, crate::props::c02::nonce(sim)),
        c,
        err: OErr::default(),
        msg: None,
        n: 0,
        done: false,
        refused: None,
        log: Vec::new(),
    };
    let cf = k.step(sim, Who::Client, None);
    ensure!(cf.res.ok(), "refused", "{}", k.story());
    let mut early = None;
    let sf = if reference {
        if sim.chance(1, 6) {
            // refused before the proof
            early = Some(());
            b"e=unknown-user".to_vec()
        } else {
            match k.reference.server(Some(&cf.bytes)) {
                Ok(Says::Send(b)) => b,
                e => return viol("not-understood", format!("{e:?}: {}", k.story())),
            }
        }
    } else {
        let r = k.step(sim, Who::Server, Some(&cf.bytes));
        ensure!(matches!(r.res, R::Running), "not-reported", "no answer to the first message: {}", k.story());
        r.bytes
    };
    let fin = k.step(sim, Who::Client, Some(&sf));
    if early.is_some() {
        ensure!(!fin.res.ok(), "refusal-lost", "the client goes on after a refusal: {}", k.story());
        return Ok(());
    }
    ensure!(matches!(fin.res, R::Running), "refused", "{}", k.story());
    let e = if reference {
        match sim.weighted(&[5, 2, 2, 1]) {
            0 => format!("e={}", *sim.pick(CODES)).into_bytes(),
            1 => {
                let c: &str = *sim.pick(&["invalid-proof2", "Invalid-Proof", "custom-error", "x", "", "unknown user", "proof", "v=YQ=="]);
                format!("e={c}").into_bytes()
            }
            2 => format!("e={},ext=1", *sim.pick(CODES)).into_bytes(),
            _ => [b"e=".to_vec(), sim.bytes(20)].concat(),
        }
    } else {
        let r = k.step(sim, Who::Server, Some(&fin.bytes));
        ensure!(
            matches!(r.res, R::FinYes | R::Running) && r.bytes.starts_with(b"e="),
            "not-reported",
            "the server does not say that it refuses ({why}): {}",
            k.story()
        );
        let code = String::from_utf8_lossy(&r.bytes[2..]).into_owned();
        let fits: &[&str] = match why {
            "unknown user" => &["unknown-user", "invalid-proof", "other-error"],
            "other channel" => &["channel-bindings-dont-match", "other-error"],
            _ => &["invalid-proof", "other-error"],
        };
        ensure!(fits.contains(&code.as_str()), "reason", "{why}, the server says {code:?}: {}", k.story());
        ensure!(
            sapp.validations(11).is_empty(),
            "refusal-lost",
            "the server application was asked to accept a client it refused ({why}): {}",
            k.story()
        );
        k.refused = Some(fin.bytes.clone());
        k.after(sim, &fin.bytes)?;
        r.bytes
    };
    k.disturb(sim, &sf)?;
    if k.client.as_ref().unwrap().alive() {
        let e = carry(sim, &e, k.o.fragment);
        k.scram_end(sim, &e)?;
    }
    Ok(())
}

fn run(sim: &mut Sim) -> Res {
    if sim.chance(3, 5) {
        oauth(sim)
    } else {
        scram(sim)
    }
}
