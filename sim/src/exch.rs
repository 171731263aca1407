//! A protocol exchange between a real client and a real server session over a simulated connection.
use crate::app::Val;
use crate::io::WCfg;
use crate::sess::{show, show_opt, Sess, R};
use crate::sim::{viol, Res, Sim};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Who {
    Client,
    Server,
}
impl Who {
    pub fn other(self) -> Who {
        match self {
            Who::Client => Who::Server,
            Who::Server => Who::Client,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Who::Client => "client",
            Who::Server => "server",
        }
    }
}

#[derive(Clone, Debug)]
pub struct StepRec {
    pub who: Who,
    pub input: Option<Vec<u8>>,
    pub bytes: Vec<u8>,
    pub res: R,
}

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    pub b64: bool,
    /// Writers that write short and get interrupted
    pub writers: bool,
    /// Frames cut to pieces and delayed on the way
    pub fragment: bool,
    /// Tell the client of a success without data by stepping it with an empty instead of no message
    pub confirm_empty: bool,
    pub max_steps: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            b64: false,
            writers: false,
            fragment: false,
            confirm_empty: false,
            max_steps: 12,
        }
    }
}
impl Opts {
    pub fn draw(sim: &mut Sim) -> Opts {
        Opts {
            b64: sim.chance(1, 2),
            writers: sim.chance(1, 2),
            fragment: sim.chance(1, 2),
            confirm_empty: sim.chance(1, 4),
            max_steps: 12,
        }
    }
}

pub struct Xr {
    pub steps: Vec<StepRec>,
    pub client: Option<R>,
    pub server: Option<R>,
    /// Result the server application gave
    pub val: Option<Val>,
}
impl Xr {
    pub fn messages(&self, who: Who) -> Vec<&[u8]> {
        self.steps
            .iter()
            .filter(|s| s.who == who && matches!(s.res, R::Running | R::FinYes))
            .map(|s| s.bytes.as_slice())
            .collect()
    }
    pub fn panicked(&self) -> Option<&StepRec> {
        self.steps.iter().find(|s| matches!(s.res, R::Panic(_)))
    }
    pub fn client_ok(&self) -> bool {
        self.client.as_ref().is_some_and(R::finished)
    }
    pub fn server_ok(&self) -> bool {
        self.server.as_ref().is_some_and(R::finished) && self.val.is_some()
    }
    pub fn first_error(&self) -> Option<&StepRec> {
        self.steps.iter().find(|s| !s.res.ok())
    }
    pub fn summary(&self) -> String {
        self.steps
            .iter()
            .map(|s| format!("{}({})->{}", s.who.name(), show_opt(s.input.as_deref()), s.res.short()))
            .collect::<Vec<_>>()
            .join("; ")
    }
}

/// Carry a message over the connection: cut in frames, delayed, put together again
pub fn carry(sim: &mut Sim, msg: &[u8], fragment: bool) -> Vec<u8> {
    let mut out = Vec::with_capacity(msg.len());
    if !fragment || msg.is_empty() {
        sim.advance(500);
        out.extend_from_slice(msg);
        return out;
    }
    let mut at = 0;
    let mut frames = 0;
    while at < msg.len() {
        let left = msg.len() - at;
        let n = if frames > 8 {
            left
        } else {
            1 + sim.usize(left)
        };
        let d = sim.range(1, 200_000);
        sim.advance(u64::from(d));
        out.extend_from_slice(&msg[at..at + n]);
        at += n;
        frames += 1;
    }
    if frames > 1 {
        sim.fault("fragmented_message");
    } else {
        sim.fault("delayed_message");
    }
    out
}

pub fn do_step(sim: &mut Sim, s: &mut Sess, input: Option<&[u8]>, o: &Opts) -> StepRec {
    let w = if o.writers {
        WCfg::transparent(sim)
    } else {
        WCfg::default()
    };
    let out = s.step_via(input, o.b64, &w);
    let who = if s.is_client() { Who::Client } else { Who::Server };
    sim.mark(&format!("{}:{}", who.name(), out.res.label()));
    sim.ev(format!(
        "{}#{} step({}) -> {} wrote \"{}\"",
        who.name(),
        s.sid,
        show_opt(input),
        out.res.short(),
        show(&out.bytes)
    ));
    StepRec {
        who,
        input: input.map(<[u8]>::to_vec),
        bytes: out.bytes,
        res: out.res,
    }
}

/// Run the whole exchange without an adversary
pub fn exchange(sim: &mut Sim, client: &mut Sess, server: &mut Sess, o: &Opts) -> Res<Xr> {
    let mut x = Xr {
        steps: Vec::new(),
        client: None,
        server: None,
        val: None,
    };
    if client.first() == server.first() {
        return viol(
            "both-first",
            format!("client and server of {} both claim first={}", client.mech(), client.first()),
        );
    }
    let mut turn = if client.first() { Who::Client } else { Who::Server };
    let mut msg: Option<Vec<u8>> = None;
    loop {
        if x.steps.len() >= o.max_steps {
            return viol("too-many-turns", format!("exchange does not come to an end: {}", x.summary()));
        }
        let s = match turn {
            Who::Client => &mut *client,
            Who::Server => &mut *server,
        };
        let rec = do_step(sim, s, msg.as_deref(), o);
        let res = rec.res.clone();
        let bytes = rec.bytes.clone();
        x.steps.push(rec);
        match turn {
            Who::Client => x.client = Some(res.clone()),
            Who::Server => {
                x.server = Some(res.clone());
                if x.val.is_none() {
                    x.val = server.validation();
                }
            }
        }
        match res {
            R::Running | R::FinYes => {
                let peer_alive = match turn {
                    Who::Client => server.alive(),
                    Who::Server => client.alive(),
                };
                if !peer_alive {
                    // nobody left to read it
                    break;
                }
                msg = Some(carry(sim, &bytes, o.fragment));
                turn = turn.other();
            }
            R::FinNo => {
                if turn == Who::Client {
                    if server.alive() {
                        // The client has nothing to say, the server still expects something: an empty response
                        msg = Some(Vec::new());
                        turn = Who::Server;
                        // a server that has given its verdict already isn't asked again
                        if x.val.is_some() {
                            break;
                        }
                    } else {
                        break;
                    }
                } else {
                    if client.alive() && x.val.is_some() {
                        // success without data
                        msg = if o.confirm_empty && !client.mech().starts_with("SCRAM") {
                            Some(Vec::new())
                        } else {
                            None
                        };
                        let rec = do_step(sim, client, msg.as_deref(), o);
                        x.client = Some(rec.res.clone());
                        x.steps.push(rec);
                    }
                    break;
                }
            }
            R::Err(_) | R::Panic(_) => break,
        }
    }
    Ok(x)
}
