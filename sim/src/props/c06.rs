//! C06: a step succeeds only if its whole message was written, exactly once.
use super::*;
use crate::ensure;
use crate::exch::Who;
use crate::io::WCfg;
use crate::sess::*;
use crate::sim::{viol, Res, Sim};
use crate::twin::{differs, Pair, Rec, Story};
use base64::engine::general_purpose::STANDARD;
use base64::Engine;

pub const PROP: Prop = Prop {
    id: "C06",
    run,
    quick: 150_000,
    thorough: 3_000_000,
    hang_s: 60,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

fn give(sim: &mut Sim, m: Mech, who: Who, op: &str, want: &[u8], ok: bool, o: &Out, at: Option<usize>) -> Res<bool> {
    ensure!(
        !matches!(o.res, R::Panic(_)),
        "panic",
        "{} {} {op}: {}",
        m.name(),
        who.name(),
        o.res.short()
    );
    if !ok {
        return Ok(true);
    }
    match at {
        Some(at) if at < want.len() => {
            sim.probe("write_refused");
            ensure!(
                !o.res.ok(),
                "lost-write",
                "{} {} {op}: the writer refused byte {at} of {} and the call reports {}; written: \"{}\"",
                m.name(),
                who.name(),
                want.len(),
                o.res.short(),
                show(&o.bytes)
            );
            Ok(false)
        }
        _ => {
            ensure!(
                o.bytes == want && o.res.ok(),
                "bytes",
                "{} {} {op}: writer got \"{}\", the message is \"{}\" ({})",
                m.name(),
                who.name(),
                show(&o.bytes),
                show(want),
                o.res.short()
            );
            Ok(true)
        }
    }
}

/// Where the writer will start to refuse, mostly within the message and at its edges
fn place(sim: &mut Sim, len: usize) -> usize {
    match sim.below(4) {
        0 => sim.usize(len + 3),
        1 => 0,
        2 => len.saturating_sub(1),
        _ => len.saturating_sub(1 + sim.usize(4)),
    }
}

fn run(sim: &mut Sim) -> Res {
    let story = Story::draw(sim);
    let tamper = sim.chance(1, 5);
    let base = story.tell(sim, tamper)?;
    if base.iter().any(|r| matches!(r.res, R::Panic(_))) {
        return viol("panic", base.iter().map(Rec::line).collect::<Vec<_>>().join("; "));
    }
    let m = story.m;
    let fail_step = if sim.chance(2, 3) { Some(sim.usize(base.len())) } else { None };
    let mut p: Pair = story.begin()?;
    for (i, r) in base.iter().enumerate() {
        let b64 = sim.chance(1, 2);
        let want = if b64 { STANDARD.encode(&r.bytes).into_bytes() } else { r.bytes.clone() };
        let mut at = None;
        let w = if fail_step == Some(i) {
            let a = place(sim, want.len());
            at = Some(a);
            WCfg::failing(sim, a)
        } else {
            WCfg::transparent(sim)
        };
        let input = r.input.as_ref().map(|v| if b64 { STANDARD.encode(v).into_bytes() } else { v.clone() });
        let n = p.log_len(r.who);
        let o = p.get(r.who).step_as(input.as_deref(), b64, &w);
        sim.ev(format!(
            "again {} b64={b64} {w:?} -> {} \"{}\"",
            r.who.name(),
            o.res.short(),
            show(&o.bytes)
        ));
        let op = if b64 { "step64" } else { "step" };
        if r.res.ok() {
            if !give(sim, m, r.who, op, &want, true, &o, at)? {
                return Ok(());
            }
        }
        let log = p.log_from(r.who, n);
        // the exchange failed here anyway, a refusing writer may fail it for another reason
        if at.is_some() && !r.res.ok() {
            ensure!(!o.res.ok(), "outcome", "{} {}: {} with a refusing writer, {} without", m.name(), r.who.name(), o.res.short(), r.res.short());
            return Ok(());
        }
        let bytes = if r.res.ok() { r.bytes.clone() } else { Vec::new() };
        if let Some(d) = differs(r, &bytes, &o.res, &log) {
            return viol("outcome", format!("{} {} {op} with an inconvenient writer: {d}", m.name(), r.who.name()));
        }
    }
    // the security layer's output has to arrive as well
    if p.client.has_layer() && p.server.has_layer() {
        sim.probe("layer");
        crate::gss::configure(1, crate::gss::GssCfg::default());
        crate::gss::configure(2, crate::gss::GssCfg::default());
        for _ in 0..sim.range(1, 3) {
            let from = if sim.chance(1, 2) { Who::Client } else { Who::Server };
            let data = sim.bytes(100);
            // 3 byte header, sequence number, MAC
            let len = data.len() + 19;
            let (w, at) = if sim.chance(1, 3) {
                let a = place(sim, len);
                (WCfg::failing(sim, a), Some(a))
            } else {
                (WCfg::transparent(sim), None)
            };
            let o = p.get(from).encode(&data, &w);
            sim.ev(format!("encode {} bytes {w:?} -> {}", data.len(), o.res.short()));
            if let Some(a) = at.filter(|a| *a < len) {
                ensure!(!o.res.ok(), "lost-write", "encode: the writer refused byte {a} of {len} and the call reports {}", o.res.short());
                return Ok(());
            }
            ensure!(
                o.res.ok() && o.bytes.len() == len && o.n == data.len(),
                "bytes",
                "encode of {} bytes: wrote {} bytes, reports {} ({})",
                data.len(),
                o.bytes.len(),
                o.n,
                o.res.short()
            );
            let (w, at) = if sim.chance(1, 3) {
                let a = place(sim, data.len());
                (WCfg::failing(sim, a), Some(a))
            } else {
                (WCfg::transparent(sim), None)
            };
            let d = p.get(from.other()).decode(&o.bytes, &w);
            sim.ev(format!("decode {w:?} -> {}", d.res.short()));
            if let Some(a) = at.filter(|a| *a < data.len()) {
                ensure!(
                    !d.res.ok(),
                    "lost-write",
                    "decode: the writer refused byte {a} of {} and the call reports {}",
                    data.len(),
                    d.res.short()
                );
                return Ok(());
            }
            ensure!(
                d.res.ok() && d.bytes == data && d.n == o.bytes.len(),
                "bytes",
                "decode: writer got \"{}\" of \"{}\", reports {} of {} ({})",
                show(&d.bytes),
                show(&data),
                d.n,
                o.bytes.len(),
                d.res.short()
            );
        }
    }
    Ok(())
}
