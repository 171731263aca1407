//! The adversary on the wire: message mutation, splicing and replay.
use crate::scram::{b64, unb64_lenient};
use crate::sim::Sim;

/// Everything the adversary has seen so far
#[derive(Default)]
pub struct Corpus {
    pub msgs: Vec<Vec<u8>>,
}
impl Corpus {
    pub fn add(&mut self, m: &[u8]) {
        if self.msgs.len() < 60 {
            self.msgs.push(m.to_vec());
        }
    }
    pub fn any(&self, sim: &mut Sim) -> Option<Vec<u8>> {
        if self.msgs.is_empty() {
            None
        } else {
            Some(self.msgs[sim.usize(self.msgs.len())].clone())
        }
    }
}

fn join(parts: &[Vec<u8>]) -> Vec<u8> {
    parts.join(&b',')
}

const ATTRS: &[&[u8]] = &[
    b"m=ext", b"x=1", b"a=other", b"n=user", b"r=", b"p=", b"s=", b"i=1", b"c=biws", b"v=", b"e=other-error", b"m=", b"x",
    b"=", b"", b"t=\xff", b"z=\x00", b"n", b"y", b"p=tls-unique", b"p=tls-exporter", b"q=a=b",
];

/// One change to a message.  May turn out to be no change at all.
pub fn mutate(sim: &mut Sim, msg: &[u8], corpus: &Corpus) -> Vec<u8> {
    let mut m = msg.to_vec();
    match sim.weighted(&[3, 3, 2, 2, 5, 4, 4, 3, 4, 2, 2, 1, 2]) {
        0 => {
            // flip a bit
            if !m.is_empty() {
                let i = sim.usize(m.len());
                m[i] ^= 1 << sim.below(8);
            }
            sim.fault("tamper_bit");
        }
        1 => {
            if !m.is_empty() {
                let i = sim.usize(m.len());
                m[i] = *sim.pick(b",=\x00\x01 aAnpry09/+\xff\n-.");
            }
            sim.fault("tamper_byte");
        }
        2 => {
            let n = sim.usize(m.len() + 1);
            m.truncate(n);
            sim.fault("truncate");
        }
        3 => {
            if !m.is_empty() {
                let a = sim.usize(m.len());
                let b = a + sim.usize((m.len() - a).min(8) + 1);
                m.drain(a..b);
            }
            sim.fault("cut");
        }
        4 => {
            // insert, drop, duplicate or reorder attributes
            let mut p: Vec<Vec<u8>> = m.split(|b| *b == b',').map(<[u8]>::to_vec).collect();
            let i = sim.usize(p.len());
            match sim.below(5) {
                0 => {
                    let a = sim.pick(ATTRS).to_vec();
                    p.insert(i, a);
                }
                1 => {
                    p.remove(i);
                }
                2 => {
                    let a = p[i].clone();
                    p.insert(i, a);
                }
                3 => {
                    let j = sim.usize(p.len());
                    p.swap(i, j);
                }
                _ => {
                    let a = sim.pick(ATTRS).to_vec();
                    p[i] = a;
                }
            }
            m = join(&p);
            sim.fault("tamper_attribute");
        }
        5 => {
            // take one attribute from another message
            if let Some(o) = corpus.any(sim) {
                let mut p: Vec<Vec<u8>> = m.split(|b| *b == b',').map(<[u8]>::to_vec).collect();
                let q: Vec<&[u8]> = o.split(|b| *b == b',').collect();
                let i = sim.usize(p.len());
                let same: Vec<&&[u8]> = q.iter().filter(|a| a.first() == p[i].first()).collect();
                if same.is_empty() {
                    let j = sim.usize(q.len());
                    p[i] = q[j].to_vec();
                } else {
                    let j = sim.usize(same.len());
                    p[i] = same[j].to_vec();
                }
                m = join(&p);
                sim.fault("splice_attribute");
            }
        }
        6 => {
            // change the value of an attribute
            let mut p: Vec<Vec<u8>> = m.split(|b| *b == b',').map(<[u8]>::to_vec).collect();
            let i = sim.usize(p.len());
            let a = &mut p[i];
            match sim.below(6) {
                0 => a.push(*sim.pick(b"a0=+ \x00")),
                1 => {
                    a.pop();
                }
                2 => {
                    let n = a.len().min(2);
                    a.truncate(n);
                }
                3 => {
                    let k = sim.usize(a.len() + 1);
                    a.insert(k, *sim.pick(b"zZ5=+/ "));
                }
                4 => a.make_ascii_uppercase(),
                _ => {
                    let n = a.len();
                    if n > 3 {
                        let k = sim.range(2, n as u32 - 1) as usize;
                        a[k] = if a[k] == b'A' { b'B' } else { b'A' };
                    }
                }
            }
            m = join(&p);
            sim.fault("tamper_value");
        }
        7 => {
            // change a base64 value as bytes
            let mut p: Vec<Vec<u8>> = m.split(|b| *b == b',').map(<[u8]>::to_vec).collect();
            let i = sim.usize(p.len());
            if p[i].len() > 2 {
                let head = p[i][..2].to_vec();
                if let Some(mut d) = unb64_lenient(&p[i][2..]) {
                    match sim.below(5) {
                        0 => {
                            d.pop();
                        }
                        1 => d.push(0),
                        2 if !d.is_empty() => {
                            let k = sim.usize(d.len());
                            d[k] ^= 1 << sim.below(8);
                        }
                        3 => {
                            let n = d.len() / 2;
                            d.truncate(n);
                        }
                        _ => d.clear(),
                    }
                    p[i] = head;
                    p[i].extend_from_slice(b64(&d).as_bytes());
                }
            }
            m = join(&p);
            sim.fault("tamper_base64_value");
        }
        8 => {
            // head of this message, tail of another
            if let Some(o) = corpus.any(sim) {
                let p: Vec<&[u8]> = m.split(|b| *b == b',').collect();
                let q: Vec<&[u8]> = o.split(|b| *b == b',').collect();
                let i = sim.usize(p.len() + 1);
                let j = sim.usize(q.len() + 1);
                let mut r: Vec<Vec<u8>> = p[..i].iter().map(|a| a.to_vec()).collect();
                r.extend(q[j..].iter().map(|a| a.to_vec()));
                m = join(&r);
                sim.fault("splice_messages");
            }
        }
        9 => {
            let tail: &[u8] = *sim.pick(&[&b"\n"[..], b"\r\n", b" ", b",", b"\x00", b",x=1", b",m=1", b"=", b"\x01"]);
            m.extend_from_slice(tail);
            sim.fault("append");
        }
        10 => {
            m = sim.bytes(40);
            sim.fault("garbage");
        }
        11 => {
            m.clear();
            sim.fault("empty_message");
        }
        _ => {
            // insert anything anywhere
            let at = sim.usize(m.len() + 1);
            let ins: &[u8] = *sim.pick(&[
                &b"=2C"[..],
                b"=3D",
                b"\xc3",
                b"\xe2\x82\xac",
                b"==",
                b",,",
                b"a=x",
                b"\x01\x01",
                b"\x00",
                b"auth=",
            ]);
            let tail = m.split_off(at);
            m.extend_from_slice(ins);
            m.extend_from_slice(&tail);
            sim.fault("insert");
        }
    }
    m
}

/// A client really does as many PBKDF2 rounds as the server demands; keep that affordable
pub fn cap_iterations(m: &mut Vec<u8>, max: u32) {
    let mut p: Vec<Vec<u8>> = m.split(|b| *b == b',').map(<[u8]>::to_vec).collect();
    let mut changed = false;
    for a in &mut p {
        if let Some(v) = a.strip_prefix(b"i=") {
            if let Some(n) = std::str::from_utf8(v).ok().and_then(|s| s.trim().parse::<u64>().ok()) {
                if n > u64::from(max) && n <= u64::from(u32::MAX) {
                    *a = format!("i={max}").into_bytes();
                    changed = true;
                }
            }
        }
    }
    if changed {
        *m = join(&p);
    }
}
