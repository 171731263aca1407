//! C07: base64 stepping is raw stepping in base64.
use super::*;
use crate::ensure;
use crate::io::WCfg;
use crate::sess::*;
use crate::sim::{viol, Res, Sim};
use crate::twin::{differs, Rec, Story};
use base64::engine::general_purpose::STANDARD;
use base64::Engine;

pub const PROP: Prop = Prop {
    id: "C07",
    run,
    quick: 150_000,
    thorough: 3_000_000,
    hang_s: 60,
    rule: DISTINCT,
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
};

const ABC: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

/// RFC 4648 section 4, canonical and padded; written out so that it does not depend on the library under test
pub fn strict(t: &[u8]) -> Option<Vec<u8>> {
    if t.len() % 4 != 0 {
        return None;
    }
    let mut out = Vec::new();
    for (i, q) in t.chunks(4).enumerate() {
        let last = (i + 1) * 4 == t.len();
        let pad = q.iter().rev().take_while(|b| **b == b'=').count();
        if pad > 2 || (pad > 0 && !last) {
            return None;
        }
        let mut v = 0u32;
        for b in &q[..4 - pad] {
            v = (v << 6) | ABC.iter().position(|a| a == b)? as u32;
        }
        v <<= 6 * pad;
        let bytes = v.to_be_bytes();
        if bytes[4 - pad..].iter().any(|b| *b != 0) {
            return None;
        }
        out.extend_from_slice(&bytes[1..4 - pad]);
    }
    Some(out)
}

fn encode(d: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    for c in d.chunks(3) {
        let mut v = 0u32;
        for i in 0..3 {
            v = (v << 8) | u32::from(*c.get(i).unwrap_or(&0));
        }
        for i in 0..4 {
            out.push(if i <= c.len() { ABC[(v >> (18 - 6 * i)) as usize & 63] } else { b'=' });
        }
    }
    out
}

/// Not base64, but often nearly
fn invalid(sim: &mut Sim, near: &[u8]) -> Option<Vec<u8>> {
    let mut t = encode(near);
    match sim.below(10) {
        0 => {
            let k = sim.usize(t.len() + 1);
            t.insert(k, *sim.pick(b"\n \r\t-_,.\0\x80\xff="));
        }
        1 => {
            t.pop();
        }
        2 => t.extend_from_slice(b"="),
        3 => t.extend_from_slice(b"===="),
        4 if !t.is_empty() => {
            let k = sim.usize(t.len());
            t[k] = *sim.pick(b"\n -_=\0\xc3!~");
        }
        5 => t.extend_from_slice(b"\r\n"),
        6 => {
            // bits that do not belong to any byte
            if let Some(k) = t.iter().position(|b| *b == b'=') {
                let v = ABC.iter().position(|a| *a == t[k - 1]).unwrap_or(0);
                t[k - 1] = ABC[v | 1];
            }
        }
        7 => {
            while t.last() == Some(&b'=') {
                t.pop();
            }
        }
        8 => t = near.to_vec(),
        _ => t = sim.bytes(12),
    }
    strict(&t).is_none().then_some(t)
}

fn run(sim: &mut Sim) -> Res {
    let story = Story::draw(sim);
    let tamper = sim.chance(1, 4);
    let base = story.tell(sim, tamper)?;
    if base.iter().any(|r| matches!(r.res, R::Panic(_))) {
        return viol("panic", base.iter().map(Rec::line).collect::<Vec<_>>().join("; "));
    }
    let m = story.m;
    let mut p = story.begin()?;
    let bad_at = if sim.chance(1, 2) { Some(sim.usize(base.len())) } else { None };
    let mixed = sim.chance(1, 2);
    for (i, r) in base.iter().enumerate() {
        let w = WCfg::transparent(sim);
        if bad_at == Some(i) {
            let near = r.input.clone().unwrap_or_else(|| b"input".to_vec());
            if let Some(t) = invalid(sim, &near) {
                sim.fault("invalid_base64");
                let n = p.log_len(r.who);
                let o = p.get(r.who).step_as(Some(&t), true, &w);
                let log = p.log_from(r.who, n);
                sim.ev(format!("{} step64(\"{}\") -> {}", r.who.name(), show(&t), o.res.short()));
                ensure!(
                    matches!(o.res, R::Err(_)),
                    "accepted",
                    "{} {}: \"{}\" is not base64 and step64 returns {}",
                    m.name(),
                    r.who.name(),
                    show(&t),
                    o.res.short()
                );
                ensure!(
                    o.bytes.is_empty() && log.is_empty(),
                    "effect",
                    "{} {}: step64 rejected \"{}\" but wrote \"{}\" and the application saw {log:?}",
                    m.name(),
                    r.who.name(),
                    show(&t),
                    show(&o.bytes)
                );
                ensure!(
                    p.get(r.who).validation().is_none(),
                    "effect",
                    "{}: a rejected step64 left a validation result",
                    m.name()
                );
                return Ok(());
            }
        }
        let b64 = !mixed || sim.chance(1, 2);
        let n = p.log_len(r.who);
        let (o, bytes) = if b64 {
            let t = r.input.as_ref().map(|i| encode(i));
            if let Some(t) = &t {
                assert_eq!(STANDARD.encode(r.input.as_ref().unwrap()).as_bytes(), t, "harness: base64");
            }
            let o = p.get(r.who).step_as(t.as_deref(), true, &w);
            if o.res.ok() {
                let Some(b) = strict(&o.bytes) else {
                    return viol(
                        "not-base64",
                        format!("{} {}: step64 wrote \"{}\"", m.name(), r.who.name(), show(&o.bytes)),
                    );
                };
                (o, b)
            } else {
                (o, Vec::new())
            }
        } else {
            let o = p.get(r.who).step(r.input.as_deref(), &w);
            let b = o.bytes.clone();
            (o, b)
        };
        let log = p.log_from(r.who, n);
        sim.ev(format!(
            "again {} b64={b64} -> {} \"{}\"",
            r.who.name(),
            o.res.short(),
            show(&o.bytes)
        ));
        if r.input.as_ref().is_some_and(Vec::is_empty) {
            sim.probe("empty_input");
        }
        if r.input.is_none() {
            sim.probe("absent_input");
        }
        if r.res.ok() && r.bytes.is_empty() {
            sim.probe("empty_output");
        }
        if let Some(d) = differs(r, &bytes, &o.res, &log) {
            return viol(
                "differs",
                format!("{} {} {}: {d}", m.name(), r.who.name(), if b64 { "in base64" } else { "after base64 steps" }),
            );
        }
    }
    Ok(())
}
