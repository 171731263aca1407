//! A simulated GSS-API implementation, standing in for the system's Kerberos library (needs a KDC) at the C interface, so the
//! GSSAPI mechanism and the `libgssapi` binding above it run for real.
//!
//! Names, credentials and mechanisms have to be of the kind the call needs. A context takes a scripted number of tokens, ends up with scripted flags, numbers and authenticates the messages it
//! wraps and optionally encrypts them, and can be told to fail at any call.
#![allow(clippy::missing_safety_doc)]
use crate::app::CUR_SID;
use crate::sim::{fnv, mix};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::os::raw::{c_int, c_void};
use std::ptr;

pub const MUTUAL: u32 = 2;
pub const REPLAY: u32 = 4;
pub const SEQUENCE: u32 = 8;
pub const CONF: u32 = 16;
pub const INTEG: u32 = 32;
pub const ALLF: u32 = MUTUAL | REPLAY | SEQUENCE | CONF | INTEG;

const COMPLETE: u32 = 0;
const CONTINUE: u32 = 1;
const DUPLICATE: u32 = 2;
const GAP: u32 = 16;
const BAD_SIG: u32 = 6 << 16;
const NO_CONTEXT: u32 = 8 << 16;
const DEFECTIVE: u32 = 9 << 16;
const FAILURE: u32 = 13 << 16;
const BAD_MECH: u32 = 1 << 16;
const BAD_NAME: u32 = 2 << 16;
const BAD_NAMETYPE: u32 = 3 << 16;
const NO_CRED: u32 = 7 << 16;

const KRB5: &[u8] = b"\x2a\x86\x48\x86\xf7\x12\x01\x02\x02";
const HOSTBASED: &[u8] = b"\x2a\x86\x48\x86\xf7\x12\x01\x02\x01\x04";
/// The service contexts are made for where nothing else is said
const USUAL: &[u8] = b"imap@mail.example.org";
const INITIATE: c_int = 1;
const ACCEPT: c_int = 2;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct GssCfg {
    /// Number of context tokens of both sides together
    pub tokens: u8,
    /// What the context provides in the end
    pub flags: u32,
    /// The n-th call fails
    pub fail: Option<u32>,
    pub seed: u64,
}
impl Default for GssCfg {
    fn default() -> Self {
        GssCfg { tokens: 2, flags: ALLF, fail: None, seed: 0 }
    }
}

thread_local! {
    static CFG: RefCell<BTreeMap<u32, GssCfg>> = const { RefCell::new(BTreeMap::new()) };
    static CALLS: RefCell<BTreeMap<u32, u32>> = const { RefCell::new(BTreeMap::new()) };
    static WRAPS: RefCell<Vec<Wrap>> = const { RefCell::new(Vec::new()) };
    static FAILED: Cell<u32> = const { Cell::new(0) };
    static TARGETS: RefCell<BTreeMap<u32, Vec<u8>>> = const { RefCell::new(BTreeMap::new()) };
}

/// Every protected message made, as the context saw it
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Wrap {
    pub sid: u32,
    pub conf: bool,
    pub data: Vec<u8>,
}

pub fn configure(sid: u32, c: GssCfg) {
    CFG.with(|m| m.borrow_mut().insert(sid, c));
    CALLS.with(|m| m.borrow_mut().remove(&sid));
}
pub fn reset() {
    CFG.with(|m| m.borrow_mut().clear());
    CALLS.with(|m| m.borrow_mut().clear());
    WRAPS.with(|w| *w.borrow_mut() = Vec::new());
    FAILED.with(|f| f.set(0));
    TARGETS.with(|t| *t.borrow_mut() = BTreeMap::new());
}
/// The service the session's context was asked for
pub fn target(sid: u32) -> Option<Vec<u8>> {
    TARGETS.with(|t| t.borrow().get(&sid).cloned())
}
pub fn wraps() -> Vec<Wrap> {
    WRAPS.with(|w| w.borrow().clone())
}
pub fn failed() -> u32 {
    FAILED.with(Cell::get)
}
pub fn calls(sid: u32) -> u32 {
    CALLS.with(|m| m.borrow().get(&sid).copied().unwrap_or(0))
}
fn cfg() -> GssCfg {
    let sid = CUR_SID.with(Cell::get);
    CFG.with(|m| m.borrow().get(&sid).copied().unwrap_or(GssCfg { seed: u64::from(sid), ..GssCfg::default() }))
}
fn fails() -> bool {
    // the system's security library may talk to the network or to other processes
    crate::sched::yield_point("gss");
    let sid = CUR_SID.with(Cell::get);
    let n = CALLS.with(|m| {
        let mut m = m.borrow_mut();
        let e = m.entry(sid).or_insert(0);
        *e += 1;
        *e - 1
    });
    let f = cfg().fail == Some(n);
    if f {
        FAILED.with(|c| c.set(c.get() + 1));
    }
    f
}

#[repr(C)]
pub struct Buf {
    length: usize,
    value: *mut c_void,
}
#[repr(C)]
pub struct Oid {
    length: u32,
    elements: *mut c_void,
}
unsafe fn oid<'a>(o: *const Oid) -> Option<&'a [u8]> {
    (!o.is_null()).then(|| std::slice::from_raw_parts((*o).elements.cast::<u8>(), (*o).length as usize))
}
#[repr(C)]
pub struct OidSet {
    count: usize,
    elements: *mut c_void,
}

unsafe fn get<'a>(b: *const Buf) -> &'a [u8] {
    if b.is_null() || (*b).length == 0 {
        &[]
    } else {
        std::slice::from_raw_parts((*b).value.cast(), (*b).length)
    }
}
unsafe fn put(b: *mut Buf, d: &[u8]) {
    if d.is_empty() {
        (*b).length = 0;
        (*b).value = ptr::null_mut();
    } else {
        let bx: Box<[u8]> = d.into();
        (*b).length = bx.len();
        (*b).value = Box::into_raw(bx).cast();
    }
}

pub struct Ctx {
    initiator: bool,
    tokens: u8,
    /// Tokens made or taken so far
    leg: u8,
    flags: u32,
    key: u64,
    send: u64,
    recv: u64,
    sid: u32,
}

fn token(leg: u8, tokens: u8, flags: u32, key: u64) -> Vec<u8> {
    let mut t = b"GSSCTX".to_vec();
    t.extend([leg, tokens]);
    t.extend(flags.to_be_bytes());
    t.extend(key.to_be_bytes());
    let sum = mix(fnv(&t));
    t.extend(sum.to_be_bytes());
    t
}
/// (flags, key)
fn parse(t: &[u8], leg: u8) -> Option<(u8, u32, u64)> {
    if t.len() != 28 || &t[..6] != b"GSSCTX" || t[6] != leg {
        return None;
    }
    if mix(fnv(&t[..20])).to_be_bytes() != t[20..28] {
        return None;
    }
    Some((
        t[7],
        u32::from_be_bytes(t[8..12].try_into().unwrap()),
        u64::from_be_bytes(t[12..20].try_into().unwrap()),
    ))
}

/// The protected form of a message; also used by simulated peers
pub fn seal(key: u64, from_initiator: bool, seq: u64, conf: bool, data: &[u8]) -> Vec<u8> {
    let mut t = vec![b'W', u8::from(from_initiator), u8::from(conf)];
    t.extend(seq.to_be_bytes());
    t.extend(data.iter().enumerate().map(|(i, b)| if conf { b ^ (mix(key ^ seq ^ ((i as u64) << 20)) as u8) } else { *b }));
    let mac = mix(key ^ mix(fnv(&t)));
    t.extend(mac.to_be_bytes());
    t
}
pub fn open(key: u64, from_initiator: bool, t: &[u8]) -> Result<(u64, bool, Vec<u8>), u32> {
    if t.len() < 19 || t[0] != b'W' {
        return Err(DEFECTIVE);
    }
    let (body, mac) = t.split_at(t.len() - 8);
    if mix(key ^ mix(fnv(body))).to_be_bytes() != mac || body[1] != u8::from(from_initiator) {
        return Err(BAD_SIG);
    }
    let seq = u64::from_be_bytes(body[3..11].try_into().unwrap());
    let conf = body[2] == 1;
    let d = body[11..]
        .iter()
        .enumerate()
        .map(|(i, b)| if conf { b ^ (mix(key ^ seq ^ ((i as u64) << 20)) as u8) } else { *b })
        .collect();
    Ok((seq, conf, d))
}

#[no_mangle]
pub unsafe extern "C" fn gss_create_empty_oid_set(_m: *mut u32, set: *mut *mut OidSet) -> u32 {
    if fails() {
        return FAILURE;
    }
    *set = Box::into_raw(Box::new(OidSet { count: 0, elements: ptr::null_mut() }));
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_add_oid_set_member(_m: *mut u32, _oid: *mut c_void, _set: *mut *mut OidSet) -> u32 {
    if fails() {
        return FAILURE;
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_release_oid_set(_m: *mut u32, set: *mut *mut OidSet) -> u32 {
    if !(*set).is_null() {
        drop(Box::from_raw(*set));
        *set = ptr::null_mut();
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_import_name(_m: *mut u32, b: *mut Buf, kind: *mut Oid, name: *mut *mut Vec<u8>) -> u32 {
    if fails() {
        return FAILURE;
    }
    // only names of services are known here
    if oid(kind) != Some(HOSTBASED) {
        return BAD_NAMETYPE;
    }
    *name = Box::into_raw(Box::new(get(b).to_vec()));
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_release_name(_m: *mut u32, name: *mut *mut Vec<u8>) -> u32 {
    if !(*name).is_null() {
        drop(Box::from_raw(*name));
        *name = ptr::null_mut();
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_acquire_cred(
    _m: *mut u32,
    _name: *mut c_void,
    _time: u32,
    _set: *mut OidSet,
    usage: c_int,
    cred: *mut *mut c_int,
    set: *mut *mut OidSet,
    _t: *mut u32,
) -> u32 {
    if fails() {
        return FAILURE;
    }
    *cred = Box::into_raw(Box::new(usage));
    if !set.is_null() {
        *set = ptr::null_mut();
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_release_cred(_m: *mut u32, cred: *mut *mut c_int) -> u32 {
    if !(*cred).is_null() {
        drop(Box::from_raw(*cred));
        *cred = ptr::null_mut();
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_release_buffer(_m: *mut u32, b: *mut Buf) -> u32 {
    if !b.is_null() && !(*b).value.is_null() {
        drop(Box::from_raw(ptr::slice_from_raw_parts_mut((*b).value.cast::<u8>(), (*b).length)));
        (*b).value = ptr::null_mut();
        (*b).length = 0;
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_delete_sec_context(_m: *mut u32, ctx: *mut *mut Ctx, _b: *mut Buf) -> u32 {
    if !(*ctx).is_null() {
        drop(Box::from_raw(*ctx));
        *ctx = ptr::null_mut();
    }
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_display_status(
    _m: *mut u32,
    code: u32,
    _t: c_int,
    _oid: *mut c_void,
    ctx: *mut u32,
    b: *mut Buf,
) -> u32 {
    *ctx = 0;
    put(b, format!("simulated status {code}").as_bytes());
    COMPLETE
}
#[no_mangle]
pub unsafe extern "C" fn gss_inquire_context(
    _m: *mut u32,
    ctx: *mut Ctx,
    _s: *mut *mut Vec<u8>,
    _t: *mut *mut Vec<u8>,
    life: *mut u32,
    _oid: *mut *mut c_void,
    flags: *mut u32,
    local: *mut c_int,
    open: *mut c_int,
) -> u32 {
    if ctx.is_null() {
        return NO_CONTEXT;
    }
    if fails() {
        return FAILURE;
    }
    if !flags.is_null() {
        *flags = (*ctx).flags;
    }
    if !life.is_null() {
        *life = u32::MAX;
    }
    if !local.is_null() {
        *local = c_int::from((*ctx).initiator);
    }
    if !open.is_null() {
        *open = c_int::from((*ctx).leg >= (*ctx).tokens);
    }
    COMPLETE
}

#[no_mangle]
pub unsafe extern "C" fn gss_init_sec_context(
    _m: *mut u32,
    cred: *mut c_int,
    ctx: *mut *mut Ctx,
    name: *mut Vec<u8>,
    mech: *mut Oid,
    req: u32,
    _time: u32,
    _bindings: *mut c_void,
    input: *mut Buf,
    _o: *mut c_void,
    out: *mut Buf,
    ret: *mut u32,
    _t: *mut u32,
) -> u32 {
    *ret = 0;
    if fails() {
        return FAILURE;
    }
    if !cred.is_null() && *cred == ACCEPT {
        return NO_CRED;
    }
    if name.is_null() {
        return BAD_NAME;
    }
    if oid(mech).is_some_and(|m| m != KRB5) {
        return BAD_MECH;
    }
    let made_for = (*name).clone();
    if (*ctx).is_null() {
        let c = cfg();
        let sid = CUR_SID.with(Cell::get);
        TARGETS.with(|t| t.borrow_mut().insert(sid, made_for.clone()));
        *ctx = Box::into_raw(Box::new(Ctx {
            initiator: true,
            tokens: c.tokens.max(1),
            leg: 0,
            flags: req & c.flags,
            key: mix(c.seed ^ 0x6b65_7900) ^ fnv(&made_for) ^ fnv(USUAL),
            send: 0,
            recv: 0,
            sid,
        }));
    } else {
        let c = &mut **ctx;
        match parse(get(input), c.leg + 1) {
            Some((n, f, k)) if n == c.tokens && f == c.flags && k == mix(c.key) => c.leg += 1,
            _ => return DEFECTIVE,
        }
    }
    let c = &mut **ctx;
    *ret = c.flags;
    if c.leg < c.tokens {
        c.leg += 1;
        let t = token(c.leg, c.tokens, c.flags, if c.leg == 1 { c.key } else { mix(c.key) });
        put(out, &t);
    }
    if c.leg >= c.tokens {
        COMPLETE
    } else {
        CONTINUE
    }
}

#[no_mangle]
pub unsafe extern "C" fn gss_accept_sec_context(
    _m: *mut u32,
    ctx: *mut *mut Ctx,
    cred: *mut c_int,
    input: *mut Buf,
    _bindings: *mut c_void,
    _name: *mut *mut Vec<u8>,
    _oid: *mut c_void,
    out: *mut Buf,
    ret: *mut u32,
    _t: *mut u32,
    _del: *mut *mut u64,
) -> u32 {
    *ret = 0;
    if fails() {
        return FAILURE;
    }
    if !cred.is_null() && *cred == INITIATE {
        return NO_CRED;
    }
    let tok = get(input);
    if (*ctx).is_null() {
        let Some((n, f, k)) = parse(tok, 1) else {
            return DEFECTIVE;
        };
        if n == 0 {
            return DEFECTIVE;
        }
        let sid = CUR_SID.with(Cell::get);
        *ctx = Box::into_raw(Box::new(Ctx {
            initiator: false,
            tokens: n,
            leg: 1,
            flags: f,
            key: k,
            send: 0,
            recv: 0,
            sid,
        }));
    } else {
        let c = &mut **ctx;
        match parse(tok, c.leg + 1) {
            Some((n, f, k)) if n == c.tokens && f == c.flags && k == mix(c.key) => c.leg += 1,
            _ => return DEFECTIVE,
        }
    }
    let c = &mut **ctx;
    *ret = c.flags;
    if c.leg < c.tokens {
        c.leg += 1;
        put(out, &token(c.leg, c.tokens, c.flags, mix(c.key)));
    }
    if c.leg >= c.tokens {
        COMPLETE
    } else {
        CONTINUE
    }
}

#[no_mangle]
pub unsafe extern "C" fn gss_wrap(
    _m: *mut u32,
    ctx: *mut Ctx,
    conf: c_int,
    _qop: u32,
    input: *mut Buf,
    state: *mut c_int,
    out: *mut Buf,
) -> u32 {
    if ctx.is_null() || (*ctx).leg < (*ctx).tokens {
        return NO_CONTEXT;
    }
    if fails() {
        return FAILURE;
    }
    let c = &mut *ctx;
    let encrypt = conf != 0 && c.flags & CONF != 0;
    if !state.is_null() {
        *state = c_int::from(encrypt);
    }
    let d = get(input);
    WRAPS.with(|w| {
        let mut w = w.borrow_mut();
        if w.len() < 200 {
            w.push(Wrap { sid: c.sid, conf: encrypt, data: d.to_vec() });
        }
    });
    put(out, &seal(c.key, c.initiator, c.send, encrypt, d));
    c.send += 1;
    COMPLETE
}

#[no_mangle]
pub unsafe extern "C" fn gss_unwrap(
    _m: *mut u32,
    ctx: *mut Ctx,
    input: *mut Buf,
    out: *mut Buf,
    state: *mut c_int,
    _qop: *mut u32,
) -> u32 {
    if ctx.is_null() || (*ctx).leg < (*ctx).tokens {
        return NO_CONTEXT;
    }
    if fails() {
        return FAILURE;
    }
    let c = &mut *ctx;
    match open(c.key, !c.initiator, get(input)) {
        Ok((seq, conf, d)) => {
            if !state.is_null() {
                *state = c_int::from(conf);
            }
            let r = if c.flags & (REPLAY | SEQUENCE) == 0 || seq == c.recv {
                COMPLETE
            } else if seq < c.recv {
                DUPLICATE
            } else {
                GAP
            };
            c.recv = c.recv.max(seq + 1);
            put(out, &d);
            r
        }
        Err(e) => e,
    }
}

/// A simulated peer's view of the context, for adversarial peers
#[derive(Clone, Copy, Debug)]
pub struct PeerCtx {
    pub key: u64,
    pub flags: u32,
    pub tokens: u8,
    pub leg: u8,
}
impl PeerCtx {
    pub fn initiator(tokens: u8, flags: u32, key: u64) -> PeerCtx {
        PeerCtx { key, flags, tokens, leg: 0 }
    }
    /// Acceptor from the first token
    pub fn acceptor(t: &[u8]) -> Option<PeerCtx> {
        parse(t, 1).map(|(tokens, flags, key)| PeerCtx { key, flags, tokens, leg: 1 })
    }
    pub fn done(&self) -> bool {
        self.leg >= self.tokens
    }
    /// Count a token of the other side in
    pub fn took(&mut self) {
        self.leg += 1;
    }
    pub fn make(&mut self) -> Vec<u8> {
        self.leg += 1;
        token(self.leg, self.tokens, self.flags, if self.leg == 1 { self.key } else { mix(self.key) })
    }
}
