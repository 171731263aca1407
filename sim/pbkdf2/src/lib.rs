//! `pbkdf2` 0.12.2 (Copyright (c) 2017 Artyom Pavlov, MIT OR Apache-2.0), the part rsasl uses, unchanged but for the calls of
//! [`sim::pause`]: deriving keys takes long, and that is where a real system runs other threads.
use digest::{generic_array::typenum::Unsigned, FixedOutput, InvalidLength, KeyInit, Update};

/// Simulator API.
pub mod sim {
    use std::sync::OnceLock;
    static HOOK: OnceLock<fn()> = OnceLock::new();
    /// What to do while keys are derived
    pub fn hook(f: fn()) {
        let _ = HOOK.set(f);
    }
    pub(crate) fn pause() {
        if let Some(f) = HOOK.get() {
            f();
        }
    }
}

#[inline(always)]
fn xor(res: &mut [u8], salt: &[u8]) {
    debug_assert!(salt.len() >= res.len(), "length mismatch in xor");
    res.iter_mut().zip(salt.iter()).for_each(|(a, b)| *a ^= b);
}

#[inline(always)]
fn pbkdf2_body<PRF>(i: u32, chunk: &mut [u8], prf: &PRF, salt: &[u8], rounds: u32)
where
    PRF: Update + FixedOutput + Clone,
{
    for v in chunk.iter_mut() {
        *v = 0;
    }

    let mut salt = {
        let mut prfc = prf.clone();
        prfc.update(salt);
        prfc.update(&(i + 1).to_be_bytes());

        let salt = prfc.finalize_fixed();
        xor(chunk, &salt);
        salt
    };
    sim::pause();

    for _ in 1..rounds {
        let mut prfc = prf.clone();
        prfc.update(&salt);
        salt = prfc.finalize_fixed();

        xor(chunk, &salt);
    }
}

/// Generic implementation of PBKDF2 algorithm which accepts an arbitrary keyed PRF.
#[inline]
pub fn pbkdf2<PRF>(password: &[u8], salt: &[u8], rounds: u32, res: &mut [u8]) -> Result<(), InvalidLength>
where
    PRF: KeyInit + Update + FixedOutput + Clone + Sync,
{
    let n = PRF::OutputSize::to_usize();
    // note: HMAC can be initialized with keys of any size,
    // so this panic never happens with it
    let prf = PRF::new_from_slice(password)?;

    for (i, chunk) in res.chunks_mut(n).enumerate() {
        pbkdf2_body(i as u32, chunk, &prf, salt, rounds);
    }

    Ok(())
}

/// A variant of the [`pbkdf2`][crate::pbkdf2] function which returns an array
/// instead of filling an input slice.
#[inline]
pub fn pbkdf2_array<PRF, const N: usize>(password: &[u8], salt: &[u8], rounds: u32) -> Result<[u8; N], InvalidLength>
where
    PRF: KeyInit + Update + FixedOutput + Clone + Sync,
{
    let mut buf = [0u8; N];
    pbkdf2::<PRF>(password, salt, rounds, &mut buf).map(|()| buf)
}
