//! Workload generators: hostile strings, credentials, stored records.
use crate::app::{Script, Stored};
use crate::scram::Keys;
use crate::sess::{Hash, Mech};
use crate::sim::Sim;

const PIECES: &[&str] = &[
    "user", "a", "Z9", ",", "=", "=2C", "=3D", "2C", "3D", "=2c", "a=", "n=", "r=", "m=x", ",m=", "auth=", "Bearer ",
    "user=", "=,=", ",,", "n,,", "\u{1}", "\u{0}", " ", "\u{e9}", "e\u{301}", "\u{ad}", "\u{a0}", "\u{2168}", "\u{aa}",
    "\u{7}", "\u{627}", "\u{5d0}1", "\u{221}", "\u{1f600}", "\u{fffd}", "\"", "\\", "{", "\t", "\n", "\u{7f}", "\u{200b}",
    "\u{e000}", "%00", "\u{ff11}", "admin", "@example.org", "\u{feff}", "\r\n", "\u{2028}", "+", "'", "&amp;",
];

/// A length at the edge of what someone may have had in mind
pub fn edge(sim: &mut Sim) -> usize {
    let base = match sim.weighted(&[6, 4, 3, 2, 1]) {
        0 => *sim.pick(&[32usize, 64, 128]),
        1 => 256,
        2 => *sim.pick(&[512usize, 1024]),
        3 => *sim.pick(&[2048usize, 4096]),
        _ => *sim.pick(&[8192usize, 16384]),
    };
    (base + sim.usize(4)).saturating_sub(2)
}

/// Optional SCRAM extensions, e.g. ",x=1", which receivers have to ignore
pub fn ext(sim: &mut Sim) -> String {
    if !sim.chance(1, 4) {
        return String::new();
    }
    let n = sim.range(1, 5);
    let mut o = String::new();
    for _ in 0..n {
        // names the specification does not define
        let name = *sim.pick(&[b'x', b'b', b'd', b'f', b'z', b'A', b'M', b'P', b'R', b'V', b'l']) as char;
        let value: &str = *sim.pick(&["1", "=", "a=b", "m=x", "p=YQ==", "\u{e9}", " ", "r=abc", "64", "+/="]);
        o.push_str(&format!(",{name}={value}"));
    }
    o
}

/// As little as can be
pub fn tiny(sim: &mut Sim) -> String {
    let n = if sim.chance(1, 4) { 2 } else { 1 };
    (0..n).map(|_| sim.range(0x30, 0x7a) as u8 as char).collect()
}

/// Any string, likely a troublesome one; simplest is "user"
pub fn hostile(sim: &mut Sim) -> String {
    match sim.weighted(&[3, 10, 3, 1, 2]) {
        4 => tiny(sim),
        0 => sim.pick(&["user", "alice", "bob", "x"]).to_string(),
        1 => {
            let n = sim.range(1, 6);
            (0..n).map(|_| *sim.pick(PIECES)).collect()
        }
        2 => {
            let n = sim.usize(20);
            (0..n)
                .map(|_| {
                    let c = match sim.below(4) {
                        0 => sim.range(0x20, 0x7e),
                        1 => sim.below(0x100),
                        2 => sim.below(0x3000),
                        _ => sim.below(0x11_0000),
                    };
                    char::from_u32(c).unwrap_or('?')
                })
                .collect()
        }
        _ => {
            let p = *sim.pick(PIECES);
            if sim.chance(1, 2) {
                let n = edge(sim);
                let mut s = p.repeat(n / p.len());
                s.push_str(&"l".repeat(n - s.len()));
                return s;
            }
            let n = sim.range(1, 1500) as usize;
            p.repeat(n / p.len().max(1) + 1)
        }
    }
}

/// Something every mechanism can carry
pub fn plain_name(sim: &mut Sim) -> String {
    let base = *sim.pick(&["user", "alice", "bob", "carol", "x"]);
    if sim.chance(1, 40) {
        let n = edge(sim);
        return format!("{base}{}", "n".repeat(n.saturating_sub(base.len())));
    }
    match sim.below(6) {
        2 if sim.chance(1, 5) => tiny(sim),
        0..=2 => base.to_string(),
        3 => format!("{base}=2C{}", sim.below(10)),
        4 => format!("{base},{}=", sim.below(10)),
        _ => format!("{base}\u{e9}{}", sim.below(100)),
    }
}

pub fn password(sim: &mut Sim) -> Vec<u8> {
    match sim.weighted(&[4, 2, 2, 1, 1]) {
        4 => tiny(sim).into_bytes(),
        0 => sim.pick(&["pencil", "secret", "pa ss", "hunter2"]).as_bytes().to_vec(),
        1 => hostile(sim).into_bytes(),
        2 => {
            let mut b = sim.bytes(24);
            if b.is_empty() {
                b.push(0xff);
            }
            b
        }
        _ => {
            let n = if sim.chance(1, 3) { edge(sim) } else { sim.range(60, 300) as usize };
            vec![b'p'; n]
        }
    }
}

/// Password that is not empty and usable everywhere
pub fn plain_password(sim: &mut Sim) -> Vec<u8> {
    if sim.chance(1, 20) {
        return tiny(sim).into_bytes();
    }
    let n = sim.range(1, 12);
    let mut p = b"pw-".to_vec();
    p.extend((0..n).map(|_| sim.range(0x21, 0x7e) as u8));
    p
}

pub fn salt(sim: &mut Sim) -> Vec<u8> {
    if sim.chance(1, 25) {
        let n = edge(sim);
        return (0..n).map(|i| (i % 251) as u8).collect();
    }
    match sim.below(5) {
        0 => b"saltsalt".to_vec(),
        1 => vec![sim.below(256) as u8],
        2 => {
            let mut s = sim.bytes(40);
            s.push(1);
            s
        }
        3 => vec![0; 16],
        _ => (0..16).map(|_| sim.below(256) as u8).collect(),
    }
}

pub fn iterations(sim: &mut Sim) -> u32 {
    match sim.weighted(&[6, 4, 2, 1]) {
        0 => 1 + sim.below(8),
        1 => sim.range(1, 64),
        2 => *sim.pick(&[10, 100, 99, 128, 255, 256]),
        _ => *sim.pick(&[1000, 1024, 4096]),
    }
}

/// More iterations than anyone wants to compute in a simulation; see `scram::DEEP`
pub fn deep(sim: &mut Sim) -> u32 {
    match sim.below(8) {
        0 => 100_001,
        1 => 131_072,
        2 => 1_000_000,
        3 => i32::MAX as u32,
        4 => i32::MAX as u32 + 1,
        5 => u32::MAX,
        6 => 999_999_999,
        _ => sim.range(100_001, u32::MAX - 1),
    }
}

pub fn record(sim: &mut Sim, h: Hash, password: &[u8]) -> (Stored, Keys) {
    let s = salt(sim);
    let i = iterations(sim);
    let k = Keys::derive(h, password, &s, i);
    (k.record(&s, i), k)
}

pub fn cbdata(sim: &mut Sim) -> Vec<u8> {
    let mut d = match sim.below(3) {
        0 => b"channel".to_vec(),
        1 => sim.bytes(40),
        _ if sim.chance(1, 12) => vec![0xcb; edge(sim)],
        _ => (0..32).map(|_| sim.below(256) as u8).collect(),
    };
    if d.is_empty() {
        d.push(b'x');
    }
    d
}

pub fn cbname(sim: &mut Sim) -> &'static str {
    *sim.pick(&["tls-exporter", "tls-unique", "tls-server-end-point", "x-own.1"])
}

pub fn token(sim: &mut Sim) -> String {
    match sim.weighted(&[4, 2, 3]) {
        0 => sim.pick(&["vF9dft4qmTc2Nvb3RlckBhbHRhdmlzdGEuY29tCg==", "tok", "a.b.c", "T"]).to_string(),
        1 => {
            let n = if sim.chance(1, 6) { edge(sim) as u32 } else { sim.range(1, 400) };
            (0..n).map(|_| sim.range(0x21, 0x7e) as u8 as char).collect()
        }
        _ => hostile(sim),
    }
}

/// A matching pair of applications that has to succeed with `m`.  Returns (client, server, binding data of both).
pub fn honest(sim: &mut Sim, m: Mech) -> (Script, Script, Vec<(String, Vec<u8>)>) {
    let mut c = Script::default();
    let mut s = Script::default();
    let mut cb = Vec::new();
    let user = plain_name(sim);
    match m {
        Mech::Plain => {
            c.authid = Some(user);
            c.password = Some(plain_password(sim));
            if sim.chance(1, 3) {
                c.authzid = Some(plain_name(sim));
            }
        }
        Mech::Login => {
            c.authid = Some(user);
            c.password = Some(plain_password(sim));
        }
        Mech::Anon => {
            if sim.chance(3, 4) {
                c.anon = Some(user);
            }
        }
        Mech::Ext => {
            if sim.chance(3, 4) {
                c.authzid = Some(user);
            }
        }
        Mech::Xoa => {
            c.authid = Some(user);
            c.token = Some("token-1".into());
        }
        Mech::Oab => {
            c.token = Some("token-1".into());
            if sim.chance(1, 2) {
                c.authzid = Some(user);
            }
            if sim.chance(1, 2) {
                c.kv = Some(vec![("host".into(), "server.example.com".into()), ("port".into(), "143".into())]);
            }
        }
        Mech::Gss => {
            c.gss_service = Some(("imap".into(), "mail.example.org".into()));
            s.gss_service = c.gss_service.clone();
        }
        _ => {
            let h = m.hash().unwrap();
            let pw = plain_password(sim);
            let (rec, _) = record(sim, h, &pw);
            s.users = vec![(user.clone(), rec)];
            c.authid = Some(user);
            c.password = Some(pw);
            if sim.chance(1, 3) {
                c.authzid = Some(plain_name(sim));
            }
            if m.plus() {
                let name = cbname(sim);
                cb = vec![(name.to_string(), cbdata(sim))];
                if !matches!(name, "tls-exporter" | "tls-unique") {
                    c.cbtype = Some(name.to_string());
                }
            }
        }
    }
    (c, s, cb)
}
