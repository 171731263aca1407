//! C11: concurrent sessions never influence each other.
//!
//! Several conversations (client and server session each) share their configurations and run on a pool of threads, any step on
//! any thread.  The scheduler decides at every callback, write, lookup and step end which thread goes on.  Every conversation is
//! also run alone; it has to do the same.
use super::c05::SEEDS;
use super::*;
use crate::app::{App, AppEv, Hit, OErr, Script, Val, ValPolicy, View};
use crate::exch::Who;
use crate::gen;
use crate::gss::{self, GssCfg};
use crate::io::{Refusal, WCfg};
use crate::sched::{yield_point, Board};
use crate::sess::*;
use crate::sim::{viol, Res, Sim};
use crate::twin::EVERY;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Duration;

pub const PROP: Prop = Prop {
    id: "C11",
    run,
    quick: 60_000,
    thorough: 1_000_000,
    hang_s: 60,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

/// A thread that does not come back within this time waits for another one
const PATIENCE: Duration = Duration::from_secs(15);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Flip(u32),
    Truncate(u32),
    Garbage(u32),
    FailWriter(u32),
    Abandon,
    NoData,
}

#[derive(Clone, Debug)]
struct Plan {
    m: Mech,
    c: Script,
    s: Script,
    cb: Vec<(String, Vec<u8>)>,
    gss: GssCfg,
    ops: Vec<(usize, Op)>,
    entropy: u64,
    b64: bool,
}

#[derive(Clone, Debug)]
struct Note {
    who: Who,
    input: Option<Vec<u8>>,
    bytes: Vec<u8>,
    res: R,
    log: Vec<AppEv>,
    val: Option<Val>,
}

/// Something odd that is a violation by itself
struct Conv {
    plan: Plan,
    csid: u32,
    ccfg: Option<Config>,
    scfg: Option<Config>,
    client: Option<Sess>,
    server: Option<Sess>,
    turn: Who,
    msg: Option<Vec<u8>>,
    notes: Vec<Note>,
    layer: Vec<String>,
    failed: Option<String>,
    done: bool,
}

impl Conv {
    fn new(plan: &Plan, csid: u32, ccfg: &Config, scfg: &Config) -> Conv {
        ccfg.app.set(csid, plan.c.clone());
        scfg.app.set(csid + 1, plan.s.clone());
        Conv {
            plan: plan.clone(),
            csid,
            ccfg: Some(ccfg.clone()),
            scfg: Some(scfg.clone()),
            client: None,
            server: None,
            turn: Who::Client,
            msg: None,
            notes: Vec::new(),
            layer: Vec::new(),
            failed: None,
            done: false,
        }
    }

    /// One move: start a session or make a step
    fn advance(&mut self) {
        let m = self.plan.m;
        if self.client.is_none() {
            if let Some(cfg) = self.ccfg.take() {
                match client_for(&cfg, self.csid, m, self.plan.cb.clone()) {
                    Ok(mut s) => {
                        s.entropy = Some(self.plan.entropy);
                        self.client = Some(s);
                    }
                    Err(v) => {
                        self.failed = Some(v.msg);
                        self.done = true;
                    }
                }
                return;
            }
        }
        if self.server.is_none() {
            if let Some(cfg) = self.scfg.take() {
                match server_for(&cfg, self.csid + 1, m, self.plan.cb.clone()) {
                    Ok(mut s) => {
                        s.entropy = Some(self.plan.entropy ^ 0x5eed);
                        if s.first() {
                            self.turn = Who::Server;
                        }
                        self.server = Some(s);
                    }
                    Err(v) => {
                        self.failed = Some(v.msg);
                        self.done = true;
                    }
                }
                return;
            }
        }
        let turn = self.turn;
        let n = self.notes.len();
        let mut input = self.msg.take();
        let mut w = WCfg::default();
        w.chunks = vec![1 + (n % 7), 64];
        for (at, op) in &self.plan.ops {
            if *at != n {
                continue;
            }
            match op {
                Op::Flip(k) => {
                    if let Some(b) = input.as_mut().filter(|b| !b.is_empty()) {
                        let i = *k as usize % b.len();
                        // not an iteration count
                        if !b[i].is_ascii_digit() {
                            b[i] ^= 1;
                        }
                    }
                }
                Op::Truncate(k) => {
                    if let Some(b) = input.as_mut() {
                        let i = *k as usize % (b.len() + 1);
                        b.truncate(i);
                    }
                }
                Op::Garbage(k) => input = Some(SEEDS[*k as usize % SEEDS.len()].to_vec()),
                Op::FailWriter(k) => w.fail_at = Some((*k as usize, Refusal::Err(std::io::ErrorKind::BrokenPipe))),
                Op::NoData => input = None,
                Op::Abandon => {
                    self.client = None;
                    self.server = None;
                    self.done = true;
                    return;
                }
            }
        }
        let (sess, other) = match turn {
            Who::Client => (self.client.as_mut().unwrap(), self.server.as_ref().unwrap()),
            Who::Server => (self.server.as_mut().unwrap(), self.client.as_ref().unwrap()),
        };
        let before = sess.app.log_len(sess.sid);
        let o = sess.step_via(input.as_deref(), self.plan.b64, &w);
        let val = sess.validation();
        let note = Note {
            who: turn,
            input,
            bytes: o.bytes.clone(),
            res: o.res.clone(),
            log: sess.app.log(sess.sid)[before..].to_vec(),
            val,
        };
        self.notes.push(note);
        match o.res {
            R::Running | R::FinYes => {
                if other.alive() {
                    self.msg = Some(o.bytes);
                    self.turn = turn.other();
                } else {
                    self.done = true;
                }
            }
            R::FinNo => {
                if other.alive() {
                    self.msg = (turn == Who::Client).then(Vec::new);
                    self.turn = turn.other();
                } else {
                    self.done = true;
                }
            }
            R::Err(_) | R::Panic(_) => self.done = true,
        }
        if self.notes.len() > 12 {
            self.done = true;
        }
        if self.done {
            // the layer, if there is one, protects this conversation's data only
            let (Some(c), Some(s)) = (self.client.as_mut(), self.server.as_mut()) else { return };
            if c.fin.is_some() && s.fin.is_some() {
                let e = c.encode(format!("data of {}", self.csid).as_bytes(), &w);
                self.layer.push(format!("{} {}", e.res.label(), show(&e.bytes)));
                if e.res.ok() {
                    let d = s.decode(&e.bytes, &w);
                    self.layer.push(format!("{} {}", d.res.label(), show(&d.bytes)));
                }
            }
        }
    }
}

fn draw(sim: &mut Sim) -> Plan {
    let m = *sim.pick(EVERY);
    let (mut c, mut s, cb) = gen::honest(sim, m);
    for _ in 0..sim.usize(3) {
        match sim.below(7) {
            0 => {
                if c.password.is_some() {
                    c.password = Some(b"not the password".to_vec());
                }
            }
            1 => {
                s.refuse = Some(OErr { status: "invalid_token".into(), scope: None, conf: None });
                s.refuse_x = Some("e30=".into());
            }
            2 => {
                let h = *sim.pick(&[Hit::Boxed, Hit::Io, Hit::Decline, Hit::NoValue, Hit::Swallow, Hit::Twice, Hit::Panic]);
                let at = sim.below(4);
                if sim.chance(1, 2) {
                    c.hits.push((at, h));
                } else {
                    s.hits.push((at, h));
                }
                sim.fault("callback_misbehaves");
            }
            3 => {
                s.validate = *sim.pick(&[
                    ValPolicy::Decline,
                    ValPolicy::Missing,
                    ValPolicy::Boxed,
                    ValPolicy::Twice,
                    ValPolicy::Panic,
                ])
            }
            _ => {}
        }
    }
    let mut ops = Vec::new();
    if sim.chance(1, 3) {
        let at = sim.usize(5);
        let k = sim.below(100);
        let op = match sim.below(6) {
            0 => Op::Flip(k),
            1 => Op::Truncate(k),
            2 => Op::Garbage(k),
            3 => Op::FailWriter(k % 30),
            4 => Op::Abandon,
            _ => Op::NoData,
        };
        sim.fault(match op {
            Op::Flip(_) => "tamper_bit",
            Op::Truncate(_) => "truncate",
            Op::Garbage(_) => "garbage",
            Op::FailWriter(_) => "write_error",
            Op::Abandon => "session_abandoned",
            Op::NoData => "spurious_step",
        });
        ops.push((at, op));
    }
    Plan {
        m,
        c,
        s,
        cb,
        gss: GssCfg { tokens: 1 + sim.below(3) as u8, seed: u64::from(sim.below(1000)), ..GssCfg::default() },
        ops,
        entropy: sim.next_entropy(),
        b64: sim.chance(1, 3),
    }
}

/// Client side with and without binding, so that the bare mechanisms don't announce what they can't keep
fn configs() -> [Config; 3] {
    [
        Config::new(&App::with_cb(false), EVERY),
        Config::new(&App::with_cb(true), EVERY),
        Config::new(&App::with_cb(true), EVERY),
    ]
}

/// The same message, apart from what is drawn at random
fn alike(m: Mech, a: &[u8], b: &[u8]) -> bool {
    if a == b {
        return true;
    }
    if m.hash().is_none() {
        return false;
    }
    let p: Vec<&[u8]> = a.split(|c| *c == b',').collect();
    let q: Vec<&[u8]> = b.split(|c| *c == b',').collect();
    p.len() == q.len()
        && p.iter().zip(&q).all(|(x, y)| {
            let random = matches!(x.get(..2), Some(b"r=" | b"s=" | b"p=" | b"v="));
            x == y || random && x.len() == y.len() && x[..2] == y[..2]
        })
}
fn alike_log(m: Mech, a: &[AppEv], b: &[AppEv]) -> bool {
    let strip = |v: &View| {
        let mut v = v.clone();
        v.salt = None;
        v
    };
    a == b
        || m.hash().is_some()
            && a.len() == b.len()
            && a.iter().zip(b).all(|(x, y)| match (x, y) {
                (
                    AppEv::Req { prop: p, ctx: c, answered: r, .. },
                    AppEv::Req { prop: p2, ctx: c2, answered: r2, .. },
                ) => p == p2 && r == r2 && strip(c) == strip(c2),
                (AppEv::Act { prop: p, ctx: c, .. }, AppEv::Act { prop: p2, ctx: c2, .. }) => {
                    p == p2 && strip(c) == strip(c2)
                }
                _ => x == y,
            })
}

fn compare(alone: &Conv, here: &Conv) -> Res {
    let m = alone.plan.m;
    for (i, (a, b)) in alone.notes.iter().zip(&here.notes).enumerate() {
        let what = |d: String| {
            viol(
                "influenced",
                format!(
                    "{} conversation {} step {i} ({}): {d}",
                    m.name(),
                    alone.csid,
                    a.who.name()
                ),
            )
        };
        if a.who != b.who {
            return what(format!("{} instead of {} is stepped", b.who.name(), a.who.name()));
        }
        let same = match (&a.res, &b.res) {
            (R::Err(x), R::Err(y)) => x.kind == y.kind,
            (R::Panic(_), R::Panic(_)) => true,
            (x, y) => x == y,
        };
        if !same {
            return what(format!("{} instead of {} when alone", b.res.short(), a.res.short()));
        }
        let same_in = match (&a.input, &b.input) {
            (Some(x), Some(y)) => alike(m, x, y),
            (x, y) => x == y,
        };
        if !same_in || (a.res.ok() && !alike(m, &a.bytes, &b.bytes)) {
            return what(format!(
                "{} -> \"{}\" instead of {} -> \"{}\" when alone",
                show_opt(b.input.as_deref()),
                show(&b.bytes),
                show_opt(a.input.as_deref()),
                show(&a.bytes)
            ));
        }
        if !alike_log(m, &a.log, &b.log) {
            return what(format!("application saw {:?} instead of {:?} when alone", b.log, a.log));
        }
        if a.val != b.val {
            return what(format!("result {:?} instead of {:?} when alone", b.val, a.val));
        }
    }
    if alone.notes.len() != here.notes.len() || alone.failed != here.failed || alone.layer != here.layer {
        return viol(
            "influenced",
            format!(
                "{} conversation {}: {} steps {:?} {:?} instead of {} {:?} {:?} when alone",
                m.name(),
                alone.csid,
                here.notes.len(),
                here.failed,
                here.layer,
                alone.notes.len(),
                alone.failed,
                alone.layer
            ),
        );
    }
    Ok(())
}

fn run(sim: &mut Sim) -> Res {
    let n = sim.range(2, 5);
    let workers = sim.range(2, 4) as usize;
    let plans: Vec<Plan> = (0..n).map(|_| draw(sim)).collect();
    sim.nontrivial = true;
    let sid = |i: usize| 2 * i as u32 + 1;
    let setup = |plans: &[Plan]| {
        gss::reset();
        for (i, p) in plans.iter().enumerate() {
            gss::configure(sid(i), p.gss);
            gss::configure(sid(i) + 1, p.gss);
        }
    };
    // --- each alone ---
    let mut alone = Vec::new();
    for (i, p) in plans.iter().enumerate() {
        setup(&plans);
        let [c0, c1, s] = configs();
        let mut c = Conv::new(p, sid(i), if p.m.plus() { &c1 } else { &c0 }, &s);
        while !c.done {
            c.advance();
        }
        sim.ev(format!("conversation {} {} {:?}", sid(i), p.m.name(), p.ops));
        for n in &c.notes {
            sim.ev(format!("  alone {}({}) -> {} \"{}\"", n.who.name(), show_opt(n.input.as_deref()), n.res.short(), show(&n.bytes)));
        }
        if c.notes.last().is_some_and(|n| n.res.finished()) {
            sim.probe("completes");
        }
        alone.push(c);
    }
    // --- together ---
    let board = Board::new(workers);
    let quit = AtomicBool::new(false);
    let slots: Vec<Mutex<Option<Box<Conv>>>> = (0..workers).map(|_| Mutex::new(None)).collect();
    let mut pool: Vec<Box<Conv>> = {
        let [c0, c1, s] = configs();
        // the configurations themselves are gone before the first step: sessions keep them alive
        plans
            .iter()
            .enumerate()
            .map(|(i, p)| Box::new(Conv::new(p, sid(i), if p.m.plus() { &c1 } else { &c0 }, &s)))
            .collect()
    };
    let mut finished: Vec<Box<Conv>> = Vec::new();
    let mut stuck: Option<String> = None;
    std::thread::scope(|scope| {
        for i in 0..workers {
            let (board, slots, quit, plans, setup) = (&board, &slots, &quit, &plans, &setup);
            let spawned = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(scope, move || {
                setup(plans);
                board.enter(i);
                while !quit.load(Ordering::SeqCst) {
                    let c = slots[i].lock().unwrap().take();
                    if let Some(mut c) = c {
                        c.advance();
                        *slots[i].lock().unwrap() = Some(c);
                    }
                    yield_point("idle");
                }
                board.leave(i);
            });
            spawned.expect("harness: thread");
        }
        let mut busy = vec![false; workers];
        let mut last = usize::MAX;
        loop {
            let Some(ready) = board.settle(PATIENCE) else {
                stuck = Some(format!("worker {last} does not come back while others are in the middle of a step"));
                break;
            };
            let mut idle = Vec::new();
            let mut inside = Vec::new();
            for (i, label) in ready {
                if label == "idle" || label == "enter" {
                    if busy[i] {
                        busy[i] = false;
                        let c = slots[i].lock().unwrap().take().expect("harness: conversation comes back");
                        if c.done {
                            finished.push(c);
                        } else {
                            pool.push(c);
                        }
                    }
                    idle.push(i);
                } else {
                    inside.push((i, label));
                }
            }
            let fresh = if idle.is_empty() { 0 } else { pool.len() };
            if inside.is_empty() && fresh == 0 {
                break;
            }
            if inside.len() > 1 {
                sim.probe("several_sessions_inside_a_step");
            }
            let k = sim.usize(inside.len() + fresh);
            if k < inside.len() {
                let (i, label) = inside[k];
                sim.mark(&format!("{i}{label}"));
                if i != last {
                    sim.fault("thread_switch");
                }
                last = i;
                board.release(i);
            } else {
                let c = pool.remove(k - inside.len());
                let i = idle[sim.usize(idle.len())];
                sim.mark(&format!("{i}<-{}", c.csid));
                sim.ev(format!("worker {i} takes conversation {}", c.csid));
                *slots[i].lock().unwrap() = Some(c);
                busy[i] = true;
                if i != last {
                    sim.fault("thread_switch");
                }
                last = i;
                board.release(i);
            }
        }
        quit.store(true, Ordering::SeqCst);
        board.open();
    });
    if let Some(s) = stuck {
        return viol("waits", s);
    }
    if finished.len() != plans.len() {
        return viol("incomplete", format!("{} of {} conversations came to an end", finished.len(), plans.len()));
    }
    for c in &finished {
        let a = &alone[(c.csid as usize - 1) / 2];
        compare(a, c)?;
        // and nothing of it belongs to somebody else
        for n in &c.notes {
            if let Some(v) = &n.val {
                if v.sid != c.csid + 1 {
                    return viol("foreign-result", format!("conversation {} got the result of session {}", c.csid, v.sid));
                }
            }
        }
    }
    Ok(())
}
