//! Twin runs: a recorded exchange ("story") that can be told again, to the same sessions in another life, with a disturbance.
//!
//! Every effective step draws its randomness from (story, session, number of the step), so a second telling produces the very
//! same bytes unless the disturbance had an effect.
use crate::adv::{cap_iterations, mutate, Corpus};
use crate::app::{App, AppEv, Hit, OErr, Script, ValPolicy};
use crate::exch::Who;
use crate::gen;
use crate::gss::{self, GssCfg};
use crate::io::WCfg;
use crate::sess::*;
use crate::sim::{Res, Sim};
use std::sync::Arc;

pub struct Story {
    pub m: Mech,
    pub c: Script,
    pub s: Script,
    pub cb: Vec<(String, Vec<u8>)>,
    pub gss: GssCfg,
    pub entropy: u64,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub who: Who,
    pub input: Option<Vec<u8>>,
    pub bytes: Vec<u8>,
    pub res: R,
    pub log: Vec<AppEv>,
}
impl Rec {
    pub fn line(&self) -> String {
        format!("{}({}) -> {} \"{}\"", self.who.name(), show_opt(self.input.as_deref()), self.res.short(), show(&self.bytes))
    }
}

pub const EVERY: &[Mech] = &[
    Mech::Plain,
    Mech::Login,
    Mech::Anon,
    Mech::Ext,
    Mech::Xoa,
    Mech::Oab,
    Mech::S1,
    Mech::S256,
    Mech::S512,
    Mech::S1P,
    Mech::S256P,
    Mech::S512P,
    Mech::Gss,
];

pub struct Pair {
    pub client: Sess,
    pub server: Sess,
    pub capp: Arc<App>,
    pub sapp: Arc<App>,
}
impl Pair {
    pub fn get(&mut self, w: Who) -> &mut Sess {
        match w {
            Who::Client => &mut self.client,
            Who::Server => &mut self.server,
        }
    }
    pub fn log_len(&self, w: Who) -> usize {
        match w {
            Who::Client => self.capp.log_len(1),
            Who::Server => self.sapp.log_len(2),
        }
    }
    pub fn log_from(&self, w: Who, n: usize) -> Vec<AppEv> {
        let l = match w {
            Who::Client => self.capp.log(1),
            Who::Server => self.sapp.log(2),
        };
        l[n.min(l.len())..].to_vec()
    }
}

impl Story {
    /// An exchange in any condition: honest, refused, with a wrong password, with failing applications
    pub fn draw(sim: &mut Sim) -> Story {
        let m = *sim.pick(EVERY);
        let (mut c, mut s, cb) = gen::honest(sim, m);
        let mut g = GssCfg { seed: 11, ..GssCfg::default() };
        if m == Mech::Gss {
            g.tokens = 1 + sim.below(4) as u8;
            if sim.chance(1, 3) {
                g.flags = sim.below(64);
            }
            if sim.chance(1, 2) {
                c.gss_layer = Some(sim.below(8) as u8);
                s.gss_layer = Some(sim.below(8) as u8);
            }
            if sim.chance(1, 6) {
                g.fail = Some(sim.below(10));
                sim.fault("security_provider_failure");
            }
        }
        match sim.weighted(&[5, 1, 1, 1, 1, 1]) {
            0 => {}
            1 => {
                if c.password.is_some() {
                    c.password = Some(b"not the password".to_vec());
                }
            }
            2 => {
                s.refuse = Some(OErr { status: "invalid_token".into(), scope: Some("scope".into()), conf: None });
                s.refuse_x = Some("eyJzdGF0dXMiOiI0MDEifQ==".into());
                c.refuse_actions = sim.chance(1, 3);
                s.validate = ValPolicy::Decline;
            }
            3 => s.users.clear(),
            4 => {
                s.validate = *sim.pick(&[ValPolicy::Decline, ValPolicy::Missing, ValPolicy::Boxed]);
            }
            _ => {
                let h = *sim.pick(&[Hit::Decline, Hit::Boxed, Hit::NoValue, Hit::Io, Hit::Swallow, Hit::Twice]);
                let at = sim.below(4);
                if sim.chance(1, 2) {
                    c.hits.push((at, h));
                } else {
                    s.hits.push((at, h));
                }
                sim.fault("callback_misbehaves");
            }
        }
        if m == Mech::Anon && sim.chance(1, 4) {
            c.anon = Some(String::new());
        }
        Story { m, c, s, cb, gss: g, entropy: sim.next_entropy() }
    }

    /// A fresh pair of sessions at the start of the story
    pub fn begin(&self) -> Res<Pair> {
        gss::reset();
        gss::configure(1, self.gss);
        gss::configure(2, GssCfg { fail: None, ..self.gss });
        let capp = App::with_cb(true);
        let sapp = App::with_cb(true);
        let ccfg = Config::new(&capp, &[self.m]);
        let scfg = Config::new(&sapp, &[self.m]);
        capp.set(1, self.c.clone());
        sapp.set(2, self.s.clone());
        let mut client = client_for(&ccfg, 1, self.m, self.cb.clone())?;
        let mut server = server_for(&scfg, 2, self.m, self.cb.clone())?;
        client.entropy = Some(self.entropy);
        server.entropy = Some(self.entropy);
        Ok(Pair { client, server, capp, sapp })
    }

    /// Tell it for the first time, undisturbed except for what the network makes of the messages
    pub fn tell(&self, sim: &mut Sim, tamper: bool) -> Res<Vec<Rec>> {
        let mut p = self.begin()?;
        let mut corpus = Corpus::default();
        let mut out: Vec<Rec> = Vec::new();
        let mut turn = if p.client.first() { Who::Client } else { Who::Server };
        let mut msg: Option<Vec<u8>> = None;
        sim.ev(format!("story: {}", self.m.name()));
        while out.len() < 14 {
            if !p.get(turn).alive() {
                break;
            }
            if tamper && !out.is_empty() && sim.chance(1, 6) {
                if let Some(b) = msg.take() {
                    let mut b = mutate(sim, &b, &corpus);
                    cap_iterations(&mut b, 20_000);
                    msg = Some(b);
                }
            }
            let n = p.log_len(turn);
            let o = p.get(turn).step(msg.as_deref(), &WCfg::default());
            let rec = Rec {
                who: turn,
                input: msg.take(),
                bytes: o.bytes,
                res: o.res,
                log: p.log_from(turn, n),
            };
            sim.ev(format!("  {}", rec.line()));
            sim.mark(&format!("{}{}", turn.name(), rec.res.label()));
            let res = rec.res.clone();
            corpus.add(&rec.bytes);
            msg = Some(rec.bytes.clone());
            out.push(rec);
            match res {
                R::Running | R::FinYes => turn = turn.other(),
                R::FinNo => {
                    if turn == Who::Client && p.server.alive() {
                        msg = Some(Vec::new());
                        turn = Who::Server;
                    } else if turn == Who::Server && p.client.alive() {
                        msg = if sim.chance(1, 4) { Some(Vec::new()) } else { None };
                        turn = Who::Client;
                    } else {
                        break;
                    }
                }
                R::Err(_) | R::Panic(_) => break,
            }
        }
        Ok(out)
    }
}

/// How a second telling of one step differs, if it does
pub fn differs(want: &Rec, bytes: &[u8], res: &R, log: &[AppEv]) -> Option<String> {
    let same = match (&want.res, res) {
        (R::Err(a), R::Err(b)) => a.kind == b.kind,
        (a, b) => a == b,
    };
    if !same {
        return Some(format!("result {} instead of {}", res.short(), want.res.short()));
    }
    if res.ok() && bytes != want.bytes {
        return Some(format!("wrote \"{}\" instead of \"{}\"", show(bytes), show(&want.bytes)));
    }
    if log != want.log {
        return Some(format!("application saw {log:?} instead of {:?}", want.log));
    }
    None
}
