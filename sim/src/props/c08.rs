//! C08: stepping without required input is refused harmlessly.
use super::*;
use crate::ensure;
use crate::exch::Who;
use crate::io::WCfg;
use crate::sess::*;
use crate::sim::{viol, Res, Sim};
use crate::twin::{differs, Rec, Story};

pub const PROP: Prop = Prop {
    id: "C08",
    run,
    quick: 150_000,
    thorough: 3_000_000,
    hang_s: 60,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

/// Does the mechanism need data for its `nth` step on that side?
fn needs(m: Mech, who: Who, nth: usize, tokens: usize) -> bool {
    match (m, who) {
        (Mech::Plain | Mech::Xoa | Mech::Oab, Who::Server) => nth == 0,
        (Mech::Login, Who::Server) => nth > 0,
        // after the last context token the client only says that it's its turn
        (Mech::Gss, Who::Server) => tokens % 2 == 1 || nth != tokens / 2,
        (Mech::Gss, Who::Client) => nth > 0,
        (m, Who::Client) if m.hash().is_some() => nth > 0,
        (m, Who::Server) if m.hash().is_some() => true,
        // no input is as good as an empty one, or the input does not matter
        _ => false,
    }
}

fn run(sim: &mut Sim) -> Res {
    let story = Story::draw(sim);
    let tamper = sim.chance(1, 6);
    let base = story.tell(sim, tamper)?;
    if base.iter().any(|r| matches!(r.res, R::Panic(_))) {
        return viol("panic", base.iter().map(Rec::line).collect::<Vec<_>>().join("; "));
    }
    let m = story.m;
    let mut p = story.begin()?;
    let mut nth = [0usize; 2];
    for r in &base {
        let k = usize::from(r.who == Who::Server);
        let required = r.input.is_some() && needs(m, r.who, nth[k], story.gss.tokens as usize);
        let dense = sim.chance(1, 2);
        if r.input.is_some() && (dense || sim.chance(1, 3)) {
            for _ in 0..sim.range(1, 3) {
                if !required && !sim.chance(1, 4) {
                    break;
                }
                sim.fault("absent_message");
                let b64 = sim.chance(1, 2);
                let w = if sim.chance(1, 6) { WCfg::failing(sim, 0) } else { WCfg::transparent(sim) };
                let n = p.log_len(r.who);
                let o = p.get(r.who).step_as(None, b64, &w);
                let log = p.log_from(r.who, n);
                sim.ev(format!("{} step(<none>) -> {} \"{}\"", r.who.name(), o.res.short(), show(&o.bytes)));
                if !o.res.is_input_required() {
                    ensure!(
                        !required,
                        "not-refused",
                        "{} {} needs data for its step {} and without returns {}",
                        m.name(),
                        r.who.name(),
                        nth[k],
                        o.res.short()
                    );
                    sim.probe("none_is_input");
                    return Ok(());
                }
                sim.probe("refused_for_input");
                ensure!(
                    o.bytes.is_empty() && o.refused == 0,
                    "wrote",
                    "{} {}: wrote \"{}\" although input is required",
                    m.name(),
                    r.who.name(),
                    show(&o.bytes)
                );
                ensure!(
                    log.is_empty(),
                    "callback",
                    "{} {}: asked the application {log:?} although input is required",
                    m.name(),
                    r.who.name()
                );
                ensure!(
                    p.get(r.who).validation().is_none() && !p.get(r.who).has_layer(),
                    "effect",
                    "{} {}: a refused step left a result",
                    m.name(),
                    r.who.name()
                );
            }
        }
        nth[k] += 1;
        let w = WCfg::default();
        let n = p.log_len(r.who);
        let o = p.get(r.who).step(r.input.as_deref(), &w);
        let log = p.log_from(r.who, n);
        sim.ev(format!("again {} -> {} \"{}\"", r.who.name(), o.res.short(), show(&o.bytes)));
        if let Some(d) = differs(r, &o.bytes, &o.res, &log) {
            return viol(
                "not-harmless",
                format!("{} {} after a step refused for missing input: {d}", m.name(), r.who.name()),
            );
        }
    }
    Ok(())
}
