//! C13: procedures and chains of procedures, failing for every cause at every step.
use crate::fw::*;
use crate::w::*;
use crypto::ciphers::{aes_gcm::Aes256Gcm, aes_kw::Aes256Kw, chacha::XChaCha20Poly1305, traits::Aead};
use iota_stronghold::procedures as pr;
use iota_stronghold::procedures::StrongholdProcedure as SP;
use iota_stronghold::Client;
use simrt::sched::PhaseEnd;
use simrt::{sched, vfs, Rng, Sh};
use std::collections::{BTreeMap, BTreeSet};

/// Numbers of a step: kind, vault and record of the first source, of the second source, of the
/// target, two parameters.
pub const W: usize = 9;
pub const KINDS: i64 = 21;
pub fn steps(a: &[i64]) -> Vec<&[i64]> {
    a.chunks_exact(W).collect()
}
fn hash(p: i64) -> pr::Sha2Hash {
    match p % 3 {
        0 => pr::Sha2Hash::Sha256,
        1 => pr::Sha2Hash::Sha384,
        _ => pr::Sha2Hash::Sha512,
    }
}
fn keyty(p: i64) -> pr::KeyType {
    if p % 2 == 0 {
        pr::KeyType::Ed25519
    } else {
        pr::KeyType::X25519
    }
}
/// Secrets of steps: those of the table, keys of every length and the empty one.
pub fn bytes_of(p: i64) -> Vec<u8> {
    match p {
        -1 => vec![],
        p => secret(p),
    }
}
/// A value whose length fits what keys are used for.
pub const KEY32: [i64; 3] = [2, 12, 22];
pub const KEY64: [i64; 2] = [3, 13];
/// The last number of a step has two parts: a choice among 21, on which also depends whether the
/// step can succeed, and a variant of everything else.
pub const Q: i64 = 21;
pub const VARIANTS: i64 = 12;
fn path(q: i64, x: i64) -> &'static [u32] {
    match (q % 4, x % 3) {
        (2, _) => &[],
        (0, 0) => &[0, 1],
        (1, 0) => &[44, 4218, 0],
        (0, 1) => &[0x7fff_ffff],
        (1, 1) => &[44, 4218, 0, 0, 1],
        (0, _) => &[1, 0],
        _ => &[256, 65536, 1 << 24],
    }
}
fn chain(q: i64, x: i64) -> pr::Chain {
    match q % 4 {
        2 => pr::Chain::empty(),
        // not supported by this curve: the step fails
        3 => pr::Chain::from_u32(vec![1]),
        _ => pr::Chain::from_u32_hardened(path(q, x).to_vec()),
    }
}
/// Free-form bytes of a step: the usual ones, none, and many.
fn free(usual: &[u8], x: i64) -> Vec<u8> {
    match x % 3 {
        0 => usual.to_vec(),
        1 => vec![],
        _ => usual.iter().cycle().take(150).copied().collect(),
    }
}
fn key_len(q: i64, x: i64) -> usize {
    match x % 2 {
        0 => [32, 64, 50, 1][(q % 4) as usize],
        _ => [48, 65, 200, 0][(q % 4) as usize],
    }
}
fn algorithm(x: i64) -> &'static str {
    ["ECDH-ES+A256KW", "A256GCM", ""][(x % 3) as usize]
}
/// Both parties and the public and private information.
fn parties(x: i64) -> [Vec<u8>; 4] {
    [free(b"Alice", x), free(b"Bob", x / 2), free(&[0, 1], x / 3), free(&[9, 8, 7], x / 4 + 1)]
}
fn count(x: i64) -> core::num::NonZeroU32 {
    core::num::NonZeroU32::new([2, 1, 7][(x % 3) as usize]).unwrap()
}
fn phrase(q: i64, x: i64) -> Option<String> {
    match (q % 3, x % 4) {
        (0, _) => None,
        (1, 0) => Some("a passphrase".into()),
        (1, 1) => Some(" Padded\t".into()),
        (1, 2) => Some("Pa\u{df}wort \u{30d1}\u{30b9}".into()),
        (1, _) => Some("long ".repeat(60)),
        _ => Some(String::new()),
    }
}
/// What is recovered need not be words of a list.
fn mnemonic(p: i64, x: i64) -> String {
    match x % 3 {
        0 => format!("abandon ability able about above absent {p}"),
        1 => format!("Abandon  ability {p} "),
        _ => format!("\u{3042}\u{3044}\u{3053}\u{304f}\u{3057}\u{3093} {p}"),
    }
}
fn x_public(p: i64) -> [u8; 32] {
    let mut k = [0u8; 32];
    k.copy_from_slice(&secret(KEY32[(p % 3) as usize]));
    crypto::keys::x25519::SecretKey::from_bytes(k).public_key().to_bytes()
}
fn msg(q: i64) -> Vec<u8> {
    sval(q % 20)
}
fn cipher(p: i64) -> pr::AeadCipher {
    if p % 2 == 0 {
        pr::AeadCipher::Aes256Gcm
    } else {
        pr::AeadCipher::XChaCha20Poly1305
    }
}
fn nonce(p: i64, bad: bool) -> Vec<u8> {
    vec![7; if bad { 5 } else if p % 2 == 0 { 12 } else { 24 }]
}
fn aead(p: i64, x: i64, key: &[u8], m: &[u8]) -> Option<Vec<u8>> {
    let mut ct = vec![0; m.len()];
    let mut tag = vec![0; 16];
    let f = if p % 2 == 0 { Aes256Gcm::try_encrypt } else { XChaCha20Poly1305::try_encrypt };
    f(key, &nonce(p, false), &free(b"ad", x), m, &mut ct, &mut tag).ok()?;
    tag.extend(ct);
    Some(tag)
}
fn wrap(key: &[u8], m: &[u8]) -> Option<Vec<u8>> {
    if key.len() != 32 || m.len() % 8 != 0 {
        return None;
    }
    let mut ct = vec![0; m.len() + 8];
    Aes256Kw::new(key).wrap_key(m, &mut ct).ok()?;
    Some(ct)
}
/// The wrapped key a step is to unwrap.
fn wrapped(p: i64, q: i64) -> Vec<u8> {
    match q % 5 {
        3 => vec![1, 2, 3],
        4 => vec![0x33; 40],
        q => wrap(&secret(KEY32[q as usize]), &secret(if p % 2 == 0 { 3 } else { 12 })).expect("lengths fit"),
    }
}
pub fn build(s: &[i64]) -> SP {
    let (a, b, t) = (loc(s[1], s[2]), loc(s[3], s[4]), loc(s[5], s[6]));
    let (p, q, x) = (s[7], s[8] % Q, s[8] / Q);
    match s[0] {
        0 => pr::WriteVault { data: bytes_of(p), location: t }.into(),
        1 => pr::RevokeData { location: a, should_gc: p == 1 }.into(),
        2 => pr::GarbageCollect { vault_path: vpath(s[1]) }.into(),
        3 => pr::CopyRecord { source: a, target: t }.into(),
        4 => pr::Slip10Generate { size_bytes: [None, Some(16), Some(32), Some(100)][(p % 4) as usize], output: t }.into(),
        5 => {
            let input = if p % 2 == 0 { pr::Slip10DeriveInput::Seed(a) } else { pr::Slip10DeriveInput::Key(a) };
            pr::Slip10Derive { chain: chain(q, x), input, output: t }.into()
        }
        6 => {
            let language = if p % 2 == 0 { pr::MnemonicLanguage::English } else { pr::MnemonicLanguage::Japanese };
            pr::BIP39Generate { passphrase: phrase(q, x), language, output: t }.into()
        }
        7 => pr::BIP39Recover { passphrase: phrase(q, x), mnemonic: mnemonic(p, x), output: t }.into(),
        8 => pr::PublicKey { ty: keyty(p), private_key: a }.into(),
        9 => pr::GenerateKey { ty: keyty(p), output: t }.into(),
        10 => pr::Ed25519Sign { msg: msg(q), private_key: a }.into(),
        11 => pr::X25519DiffieHellman { public_key: x_public(p), private_key: a, shared_key: t }.into(),
        12 => pr::Hmac { hash_type: hash(p), msg: msg(q), key: a }.into(),
        13 => pr::Hkdf { hash_type: hash(p), salt: msg(q), label: free(b"label", x), ikm: a, okm: t }.into(),
        14 => {
            let [apu, apv, pub_info, priv_info] = parties(x);
            pr::ConcatKdf { hash: hash(p), algorithm_id: algorithm(x).into(), shared_secret: a, key_len: key_len(q, x), apu, apv, pub_info, priv_info, output: t }.into()
        }
        15 => pr::AesKeyWrapEncrypt { cipher: pr::AesKeyWrapCipher::Aes256, encryption_key: a, wrap_key: b }.into(),
        16 => pr::AesKeyWrapDecrypt { cipher: pr::AesKeyWrapCipher::Aes256, decryption_key: a, wrapped_key: wrapped(p, q), output: t }.into(),
        17 => pr::Pbkdf2Hmac { hash_type: hash(p), password: msg(q), salt: free(b"salt", x), count: count(x), output: t }.into(),
        18 => pr::AeadEncrypt { cipher: cipher(p), associated_data: free(b"ad", x), plaintext: msg(q), nonce: nonce(p, q % 7 == 6), key: a }.into(),
        19 => {
            let mut c = aead(p, x, &secret(KEY32[(q % 3) as usize]), &msg(q)).expect("lengths fit");
            if q % 7 == 5 {
                c[3] ^= 1;
            }
            let tag = if q % 7 == 6 { vec![0; 4] } else { c[..16].to_vec() };
            pr::AeadDecrypt { cipher: cipher(p), associated_data: free(b"ad", x), ciphertext: c[16..].to_vec(), tag, nonce: nonce(p, false), key: a }.into()
        }
        _ => pr::ConcatSecret { location_a: a, location_b: b, output_location: t }.into(),
    }
}
pub fn kind_name(k: i64) -> &'static str {
    [
        "WriteVault", "RevokeData", "GarbageCollect", "CopyRecord", "Slip10Generate", "Slip10Derive", "BIP39Generate", "BIP39Recover", "PublicKey", "GenerateKey", "Ed25519Sign", "X25519DiffieHellman", "Hmac", "Hkdf",
        "ConcatKdf", "AesKeyWrapEncrypt", "AesKeyWrapDecrypt", "Pbkdf2Hmac", "AeadEncrypt", "AeadDecrypt", "ConcatSecret",
    ][k.clamp(0, 20) as usize]
}
pub fn show(a: &[i64]) -> String {
    let l: Vec<String> = steps(a)
        .iter()
        .map(|s| format!("{}(from {}/{} and {}/{} to {}/{}; {},{})", kind_name(s[0]), s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8]))
        .collect();
    format!("[{}]", l.join(", "))
}
/// Runs a chain; a chain of one step runs as a single procedure if `single`.
pub fn run_chain(c: &Client, a: &[i64], single: bool) -> Result<Vec<Vec<u8>>, String> {
    let mut l: Vec<SP> = sched::inert(|| steps(a).into_iter().map(build).collect());
    let e = |e: pr::ProcedureError| format!("{e:?}").chars().take(90).collect::<String>();
    if single && l.len() == 1 {
        return c.execute_procedure(l.remove(0)).map(|o| vec![o.into()]).map_err(e);
    }
    c.execute_procedure_chained(l).map(|v| v.into_iter().map(|o| o.into()).collect()).map_err(e)
}
pub fn gen_step(r: &mut Rng, nv: i64, nr: i64, x: &mut i64) -> Vec<i64> {
    let l = |r: &mut Rng| [r.below(nv as u64) as i64, r.below(nr as u64) as i64];
    let (a, b, t) = (l(r), l(r), l(r));
    let k = match r.weighted(&[22, 5, 3, 8, 3, 6, 2, 2, 5, 4, 4, 6, 3, 5, 4, 4, 6, 3, 4, 5, 7]) {
        k => k as i64,
    };
    let p = match k {
        0 => {
            *x += 1;
            match r.below(8) {
                0 | 1 => *r.pick(&KEY32),
                2 => *r.pick(&KEY64),
                3 => 1,
                4 if r.chance(1, 4) => -1,
                _ => *x % NVAL,
            }
        }
        1 => r.below(2) as i64,
        _ => r.below(12) as i64,
    };
    vec![k, a[0], a[1], b[0], b[1], t[0], t[1], p, r.below((Q * VARIANTS) as u64) as i64]
}
pub fn gen_chain(r: &mut Rng, nv: i64, nr: i64, x: &mut i64) -> Vec<i64> {
    let n = *r.pick(&[1, 1, 1, 2, 2, 3, 3, 4, 5, 6]);
    let mut v: Vec<i64> = (0..n).flat_map(|_| gen_step(r, nv, nr, x)).collect();
    // often the last step cannot succeed
    if n > 1 && r.chance(1, 3) {
        v.extend([3, nv, 0, 0, 0, 0, 0, 0, 0]);
    }
    v
}

// ---------------------------------------------------------------- model
#[derive(Clone, Debug, PartialEq)]
struct Val {
    len: usize,
    bytes: Option<Vec<u8>>,
    /// HMAC of the probe message, once seen.
    fp: Option<Vec<u8>>,
    /// Same number: same unknown bytes.
    id: u64,
}
impl Val {
    fn known(b: Vec<u8>) -> Val {
        Val { len: b.len(), fp: Some(hmac(&b)), bytes: Some(b), id: 0 }
    }
    fn unknown(len: usize, id: &mut u64) -> Val {
        *id += 1;
        Val { len, bytes: None, fp: None, id: *id }
    }
}
type L = (i64, i64);
#[derive(Clone, Default)]
struct M {
    recs: BTreeMap<L, Val>,
    revoked: BTreeSet<L>,
    /// Revoked or gone.
    maybe: BTreeSet<L>,
    next: u64,
    /// Others collect garbage whenever they like.
    shared: bool,
}
enum Out {
    Exact(Vec<u8>),
    Any(usize),
}
/// None: cannot tell. Some(Err): the step must fail. Some(Ok): it must succeed.
enum Step {
    Fails,
    Works(Out),
    Open,
}
fn hm(p: i64, key: &[u8], m: &[u8]) -> Vec<u8> {
    use crypto::macs::hmac::*;
    match p % 3 {
        0 => {
            let mut o = [0; 32];
            HMAC_SHA256(m, key, &mut o);
            o.to_vec()
        }
        1 => {
            let mut o = [0; 48];
            HMAC_SHA384(m, key, &mut o);
            o.to_vec()
        }
        _ => {
            let mut o = [0; 64];
            HMAC_SHA512(m, key, &mut o);
            o.to_vec()
        }
    }
}
fn sha(p: i64, m: &[u8]) -> Vec<u8> {
    use crypto::hashes::{sha::*, Digest};
    match p % 3 {
        0 => Sha256::digest(m).to_vec(),
        1 => Sha384::digest(m).to_vec(),
        _ => Sha512::digest(m).to_vec(),
    }
}
fn hlen(p: i64) -> usize {
    [32, 48, 64][(p % 3) as usize]
}
fn slip(k: &[u8], p: i64, q: i64, x: i64) -> Option<(Vec<u8>, Vec<u8>)> {
    if q % 4 == 3 {
        return None;
    }
    let mut i = if p % 2 == 0 {
        hm(2, b"ed25519 seed", k)
    } else if k.len() == 64 {
        k.to_vec()
    } else {
        return None;
    };
    for s in path(q, x) {
        let mut d = vec![0];
        d.extend(&i[..32]);
        d.extend((s | 1 << 31).to_be_bytes());
        i = hm(2, &i[32..], &d);
    }
    let cc = i[32..].to_vec();
    Some((i, cc))
}
fn bip_seed(m: &str, q: i64, x: i64) -> Vec<u8> {
    let mut s = [0u8; 64];
    crypto::keys::bip39::mnemonic_to_seed(m, &phrase(q, x).unwrap_or_default(), &mut s);
    s.to_vec()
}
impl M {
    /// Stores at a location; false: it must fail there; None: open.
    fn put(&mut self, t: L, v: Val) -> Option<bool> {
        if self.revoked.contains(&t) {
            return Some(false);
        }
        let m = self.maybe.remove(&t);
        self.recs.insert(t, v);
        if m {
            None
        } else {
            Some(true)
        }
    }
    /// One step, with what it returned if the whole chain returned something.
    fn step(&mut self, s: &[i64], seen: Option<&Vec<u8>>) -> Step {
        let (a, b, t) = ((s[1], s[2]), (s[3], s[4]), (s[5], s[6]));
        let (p, q, x) = (s[7], s[8] % Q, s[8] / Q);
        let src = self.recs.get(&a).cloned();
        let src2 = self.recs.get(&b).cloned();
        let unit = || Out::Exact(vec![]);
        // sources have to exist
        let needs_a = matches!(s[0], 3 | 5 | 8 | 10..=16 | 18..=20);
        let needs_b = matches!(s[0], 15 | 20);
        if needs_a && src.is_none() || needs_b && src2.is_none() {
            return Step::Fails;
        }
        let mut id = self.next;
        let r: Option<Result<(Val, Out), ()>> = match s[0] {
            0 => Some(Ok((Val::known(bytes_of(p)), unit()))),
            1 => {
                if self.recs.remove(&a).is_some() {
                    if self.shared {
                        self.maybe.insert(a);
                    } else {
                        self.revoked.insert(a);
                    }
                }
                if p == 1 {
                    self.revoked.retain(|l| l.0 != a.0);
                    self.maybe.retain(|l| l.0 != a.0);
                }
                return Step::Works(unit());
            }
            2 => {
                self.revoked.retain(|l| l.0 != a.0);
                self.maybe.retain(|l| l.0 != a.0);
                return Step::Works(unit());
            }
            3 => Some(Ok((src.unwrap(), unit()))),
            4 => Some(Ok((Val::unknown([64, 16, 32, 100][(p % 4) as usize], &mut id), unit()))),
            5 => {
                let v = src.unwrap();
                match &v.bytes {
                    Some(k) => Some(slip(k, p, q, x).map(|(k, c)| (Val::known(k), Out::Exact(c))).ok_or(())),
                    None if q % 4 == 3 || p % 2 == 1 && v.len != 64 => Some(Err(())),
                    None => Some(Ok((Val::unknown(64, &mut id), Out::Any(32)))),
                }
            }
            6 => match seen {
                Some(m) => match String::from_utf8(m.clone()) {
                    Ok(m) => Some(Ok((Val::known(bip_seed(&m, q, x)), Out::Any(m.len())))),
                    Err(_) => Some(Err(())),
                },
                None => Some(Ok((Val::unknown(64, &mut id), Out::Any(0)))),
            },
            7 => Some(Ok((Val::known(bip_seed(&mnemonic(p, x), q, x)), unit()))),
            8 => {
                let v = src.unwrap();
                if p % 2 == 0 && v.len < 32 || p % 2 == 1 && v.len != 32 {
                    return Step::Fails;
                }
                return Step::Works(match &v.bytes {
                    Some(k) => {
                        let mut kk = [0u8; 32];
                        kk.copy_from_slice(&k[..32]);
                        Out::Exact(if p % 2 == 0 {
                            crypto::signatures::ed25519::SecretKey::from_bytes(kk).public_key().to_bytes().to_vec()
                        } else {
                            crypto::keys::x25519::SecretKey::from_bytes(kk).public_key().to_bytes().to_vec()
                        })
                    }
                    None => Out::Any(32),
                });
            }
            9 => Some(Ok((Val::unknown(32, &mut id), unit()))),
            10 => {
                let v = src.unwrap();
                if v.len < 32 {
                    return Step::Fails;
                }
                return Step::Works(match &v.bytes {
                    Some(k) => {
                        let mut kk = [0u8; 32];
                        kk.copy_from_slice(&k[..32]);
                        Out::Exact(crypto::signatures::ed25519::SecretKey::from_bytes(kk).sign(&msg(q)).to_bytes().to_vec())
                    }
                    None => Out::Any(64),
                });
            }
            11 => {
                let v = src.unwrap();
                if v.len != 32 {
                    return Step::Fails;
                }
                Some(Ok((
                    match &v.bytes {
                        Some(k) => {
                            let mut kk = [0u8; 32];
                            kk.copy_from_slice(k);
                            let sk = crypto::keys::x25519::SecretKey::from_bytes(kk);
                            Val::known(sk.diffie_hellman(&crypto::keys::x25519::PublicKey::from_bytes(x_public(p))).to_bytes().to_vec())
                        }
                        None => Val::unknown(32, &mut id),
                    },
                    unit(),
                )))
            }
            12 => {
                return Step::Works(match &src.unwrap().bytes {
                    Some(k) => Out::Exact(hm(p, k, &msg(q))),
                    None => Out::Any(hlen(p)),
                })
            }
            13 => Some(Ok((
                match &src.unwrap().bytes {
                    Some(k) => {
                        let prk = hm(p, &msg(q), k);
                        Val::known(hm(p, &prk, &[free(b"label", x), vec![1]].concat()))
                    }
                    None => Val::unknown(hlen(p), &mut id),
                },
                unit(),
            ))),
            14 => {
                let n = key_len(q, x);
                Some(Ok((
                    match &src.unwrap().bytes {
                        Some(z) => {
                            let mut o = vec![];
                            let mut i = 1u32;
                            while o.len() < n {
                                let mut m = i.to_be_bytes().to_vec();
                                m.extend(z);
                                let [apu, apv, public, private] = parties(x);
                                for part in [algorithm(x).as_bytes().to_vec(), apu, apv] {
                                    m.extend((part.len() as u32).to_be_bytes());
                                    m.extend(part);
                                }
                                m.extend(public);
                                m.extend(private);
                                o.extend(sha(p, &m));
                                i += 1;
                            }
                            o.truncate(n);
                            Val::known(o)
                        }
                        None => Val::unknown(n, &mut id),
                    },
                    unit(),
                )))
            }
            15 => {
                let (k, m) = (src.unwrap(), src2.unwrap());
                if k.len != 32 || m.len % 8 != 0 {
                    return Step::Fails;
                }
                return Step::Works(match (&k.bytes, &m.bytes) {
                    (Some(k), Some(m)) => Out::Exact(wrap(k, m).unwrap()),
                    _ => Out::Any(m.len + 8),
                });
            }
            16 => {
                let k = src.unwrap();
                let i = q % 5;
                if k.len != 32 || i >= 3 || k.bytes.is_none() || k.bytes.as_deref() != Some(&secret(KEY32[i as usize])) {
                    return Step::Fails;
                }
                Some(Ok((Val::known(secret(if p % 2 == 0 { 3 } else { 12 })), unit())))
            }
            17 => {
                let mut o = vec![0; hlen(p)];
                let n = count(x);
                match p % 3 {
                    0 => crypto::keys::pbkdf::PBKDF2_HMAC_SHA256(&msg(q), &free(b"salt", x), n, (&mut o[..]).try_into().unwrap()),
                    1 => crypto::keys::pbkdf::PBKDF2_HMAC_SHA384(&msg(q), &free(b"salt", x), n, (&mut o[..]).try_into().unwrap()),
                    _ => crypto::keys::pbkdf::PBKDF2_HMAC_SHA512(&msg(q), &free(b"salt", x), n, (&mut o[..]).try_into().unwrap()),
                }
                Some(Ok((Val::known(o), unit())))
            }
            18 => {
                let k = src.unwrap();
                if k.len != 32 || q % 7 == 6 {
                    return Step::Fails;
                }
                return Step::Works(match &k.bytes {
                    Some(k) => Out::Exact(aead(p, x, k, &msg(q)).unwrap()),
                    None => Out::Any(16 + msg(q).len()),
                });
            }
            19 => {
                let k = src.unwrap();
                if k.len != 32 || q % 7 >= 5 || k.bytes.as_deref() != Some(&secret(KEY32[(q % 3) as usize])) {
                    return Step::Fails;
                }
                return Step::Works(Out::Exact(msg(q)));
            }
            _ => {
                let (x, y) = (src.unwrap(), src2.unwrap());
                Some(Ok((
                    match (&x.bytes, &y.bytes) {
                        (Some(x), Some(y)) => Val::known([&x[..], &y[..]].concat()),
                        _ => Val::unknown(x.len + y.len, &mut id),
                    },
                    unit(),
                )))
            }
        };
        self.next = id;
        match r {
            None => Step::Open,
            Some(Err(())) => Step::Fails,
            Some(Ok((v, o))) => match self.put(t, v) {
                Some(true) => Step::Works(o),
                Some(false) => Step::Fails,
                None => Step::Open,
            },
        }
    }
}

/// What is at every location: record_exists and the fingerprint of a readable secret.
type Seen = BTreeMap<L, (bool, Option<Vec<u8>>)>;
fn look(c: &Client, nv: i64, mine: &[i64]) -> Result<Seen, String> {
    let mut m = Seen::new();
    for v in 0..nv {
        for q in mine.iter().copied() {
            let l = loc(v, q);
            let e = c.record_exists(&l).map_err(|e| format!("record_exists: {e}"))?;
            let f = c.execute_procedure(pr::Hmac { hash_type: pr::Sha2Hash::Sha256, msg: b"probe".to_vec(), key: l }).ok();
            m.insert((v, q), (e, f));
        }
    }
    Ok(m)
}
type Rec = (Vec<i64>, Result<Vec<Vec<u8>>, String>, bool, Result<Seen, String>);

pub struct Chains;
impl Chains {
    fn verify(cx: &mut Cx, log: &[Rec], nv: i64, mine: &[i64], shared: bool) {
        let mut m = M { shared, ..M::default() };
        for (a, res, faulty, seen) in log {
            let what = || format!("{} = {:?}", show(a), res);
            let kinds = || steps(a).iter().map(|s| kind_name(s[0])).collect::<Vec<_>>().join("+");
            let seen = match seen {
                Ok(s) => s,
                Err(e) => return cx.violate("unusable-after", format!("after {}: {e}", what())),
            };
            let before = m.clone();
            let mut open = false;
            let mut fails = false;
            let outs = res.as_ref().ok();
            if let Some(o) = outs {
                if o.len() != steps(a).len() {
                    return cx.violate("outputs:number", format!("{} outputs of {}", o.len(), what()));
                }
            }
            for (i, s) in steps(a).iter().enumerate() {
                let got = outs.map(|o| &o[i]);
                match m.step(s, got) {
                    Step::Fails => {
                        fails = true;
                        break;
                    }
                    Step::Open => open = true,
                    Step::Works(o) => {
                        if let Some(g) = got {
                            let good = match &o {
                                Out::Exact(b) => b == g,
                                Out::Any(n) => *n == 0 || *n == g.len(),
                            };
                            if !good {
                                return cx.violate(&format!("output:{}", kind_name(s[0])), format!("step {i} of {} returned other bytes than its inputs give", what()));
                            }
                        }
                    }
                }
            }
            match res {
                Ok(_) if fails => return cx.violate(&format!("succeeded:{}", kinds()), format!("a chain with a step that must fail succeeded: {}", what())),
                Err(_) if !fails && !open && !faulty => return cx.violate(&format!("failed:{}", kinds()), format!("a chain in which every step must succeed failed: {}", what())),
                _ => {}
            }
            cx.count(match (res.is_ok(), faulty) {
                (true, _) => "chains_ok",
                (false, false) => "chains_failed",
                (false, true) => "chains_failed_by_fault",
            });
            if steps(a).len() > 1 && res.is_err() {
                cx.count("nontrivial");
            }
            if res.is_err() {
                // nothing but garbage may be gone
                let mut b = before.clone();
                for s in steps(a) {
                    let gc: BTreeSet<L> = match s[0] {
                        1 | 2 => b.revoked.iter().filter(|l| l.0 == s[1]).copied().collect(),
                        _ => continue,
                    };
                    b.revoked.retain(|l| !gc.contains(l));
                    b.maybe.extend(gc);
                }
                b.next = m.next;
                b.shared = shared;
                m = b;
            }
            let failed = if res.is_err() { "after-failure" } else { "after-success" };
            for v in 0..nv {
                for q in mine.iter().copied() {
                    let l = (v, q);
                    let (e, f) = &seen[&l];
                    let had = before.recs.contains_key(&l);
                    match (m.recs.get_mut(&l), f) {
                        (Some(_), None) => {
                            return cx.violate(&format!("{failed}:lost"), format!("the secret at {v}/{q} cannot be used {} {}", if had { "any more after" } else { "after" }, what()));
                        }
                        (None, Some(_)) => return cx.violate(&format!("{failed}:usable"), format!("a secret at {v}/{q} can be used after {}", what())),
                        (Some(x), Some(f)) => match &x.fp {
                            Some(w) if w != f => return cx.violate(&format!("{failed}:changed"), format!("the secret at {v}/{q} has another value after {}", what())),
                            Some(_) => {}
                            None => {
                                let id = x.id;
                                for y in m.recs.values_mut().filter(|y| y.id == id) {
                                    match &y.fp {
                                        Some(w) if w != f => return cx.violate(&format!("{failed}:changed"), format!("copies of one secret differ after {}", what())),
                                        _ => y.fp = Some(f.clone()),
                                    }
                                }
                            }
                        },
                        (None, None) => {}
                    }
                    if *e != f.is_some() {
                        return cx.violate(&format!("{failed}:exists"), format!("record_exists says {e} at {v}/{q}, using it says otherwise, after {}", what()));
                    }
                }
            }
        }
    }
}
impl Scenario for Chains {
    fn property(&self) -> &'static str {
        "C13"
    }
    fn name(&self) -> &'static str {
        "chains"
    }
    fn quick_runs(&self) -> u64 {
        5000
    }
    fn real(&self) -> &'static str {
        "procedures, client, key store, engine vault and runtime as compiled from /repo; random source and memory locking simulated and made to fail"
    }
    fn rule(&self) -> &'static str {
        "3-14 chains of 1-7 procedures of all 21 kinds over 1-3 vaults of 2-4 locations with fitting and unfitting sources, revoked targets, bad parameters, failing random bytes; after every chain all locations, outputs and the result are compared with a model that knows the plaintexts"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C13", "chains", r.next() >> 1);
        let nv = 1 + r.below(3) as i64;
        let nr = 2 + r.below(3) as i64;
        p.cfg.insert("nv".into(), nv);
        p.cfg.insert("nr".into(), nr);
        let mut x = 0;
        // the first one also sets up the generator for hints
        p.setup.push(op("chain", &[0, 0, 0, 0, 0, 0, 0, 5, 0]));
        // some values of useful lengths to begin with
        for _ in 0..r.below(5) {
            let v = *r.pick(&[2, 12, 22, 3, 13, 1, 4]);
            p.setup.push(op("chain", &[0, 0, 0, 0, 0, r.below(nv as u64) as i64, r.below(nr as u64) as i64, v, 0]));
        }
        let n = 3 + r.below(12);
        p.threads.push((0..n).map(|_| op(if r.chance(1, 2) { "chain" } else { "proc" }, &gen_chain(r, nv, nr, &mut x))).collect());
        if r.chance(1, 3) {
            p.faults.push(FaultSpec { cls: "rand".into(), nth: r.below(60), err: r.pick(&["EIO", "ENOSYS", "EINTR", "short"]).to_string(), count: *r.pick(&[1, 1, 2, 1000]) });
        }
        if r.chance(1, 8) {
            p.cfg.insert("mlock".into(), 1 + r.below(20) as i64);
        }
        p.sched = SchedSpec::Seq;
        p
    }
    fn run(&self, cx: &mut Cx) {
        let (nv, nr) = (cx.plan.c("nv"), cx.plan.c("nr"));
        let mine: Vec<i64> = (0..nr).collect();
        let mine2 = mine.clone();
        let log: Sh<Vec<Rec>> = Sh::new(vec![]);
        let plan = cx.plan;
        let (setup, ops) = (plan.setup.clone(), plan.threads.first().cloned().unwrap_or_default());
        let l2 = log.clone();
        // while a chain runs: how many faults had been injected when it began
        let inside: Sh<Option<u64>> = Sh::new(None);
        let in2 = inside.clone();
        let hard = || vfs::v().fired.iter().filter(|(k, _)| k.starts_with("rand:") && *k != "rand:EINTR" && *k != "rand:short").map(|(_, n)| *n).sum::<u64>();
        let mlock = plan.c("mlock");
        sched::activate(true);
        cx.arm();
        vfs::v().armed = false;
        if mlock > 0 {
            crate::memory::mem_faults(plan);
        }
        // without random bytes the program may stop, but not go on with something else
        let mut end = cx.phase_raw(vec![(
            "user".to_string(),
            Box::new(move || {
                let mut s = Sess::new();
                s.exec(&op("create", &[0]));
                let c = s.h[&0].clone();
                for (i, o) in setup.iter().chain(ops.iter()).enumerate() {
                    let fired = || vfs::v().fired.values().sum::<u64>();
                    let n = fired();
                    in2.with(|x| *x = Some(hard()));
                    vfs::v().armed = i >= setup.len();
                    let r = run_chain(&c, &o.a, o.k == "proc");
                    vfs::v().armed = false;
                    in2.with(|x| *x = None);
                    let faulty = fired() > n;
                    let seen = look(&c, nv, &mine2);
                    l2.with(|l| l.push((o.a.clone(), r, faulty, seen)));
                }
                drop(c);
                drop(s);
            }),
        )]);
        if end == PhaseEnd::Panic && inside.with(|x| x.map(|n| hard() > n).unwrap_or(false)) {
            cx.count("stopped_without_random_bytes");
            end = PhaseEnd::AllDone;
        }
        cx.judge(end);
        cx.disarm();
        crate::memory::mem_faults_end();
        sched::activate(false);
        let log = log.with(|l| l.clone());
        cx.sample = log.iter().map(|(a, r, f, _)| format!("{}{} = {}", if *f { "(random bytes fail) " } else { "" }, show(a), match r { Ok(_) => "Ok".into(), Err(e) => e.clone() })).collect();
        if cx.ok() {
            Self::verify(cx, &log, nv, &mine, false);
        }
    }
}

fn hard() -> u64 {
    vfs::v().fired.iter().filter(|(k, _)| k.starts_with("rand:") && *k != "rand:EINTR" && *k != "rand:short").map(|(_, n)| *n).sum::<u64>()
}
/// Chains of several threads at once in the same vaults, each thread with records of its own.
pub struct Together;
impl Together {
    fn own(nt: i64, per: i64, t: i64) -> Vec<i64> {
        (0..per).map(|k| k * nt + t).collect()
    }
}
impl Scenario for Together {
    fn property(&self) -> &'static str {
        "C13"
    }
    fn name(&self) -> &'static str {
        "chains-together"
    }
    fn quick_runs(&self) -> u64 {
        2000
    }
    fn real(&self) -> &'static str {
        Chains.real()
    }
    fn rule(&self) -> &'static str {
        "2-3 threads run chains that fail and succeed in the same 1-2 vaults of one client at once, each on 2-3 records of its own; what each of them sees of its records, outputs and results is compared with the model that knows the plaintexts, as if it were alone"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C13", "chains-together", r.next() >> 1);
        let nv = 1 + r.below(2) as i64;
        let nt = 2 + r.below(2) as i64;
        let per = 2 + r.below(2) as i64;
        for (k, v) in [("nv", nv), ("nt", nt), ("per", per)] {
            p.cfg.insert(k.into(), v);
        }
        for _ in 0..1 + r.below(6) {
            let v = *r.pick(&[2, 12, 22, 3, 13, 1, 4]);
            p.setup.push(op("chain", &[0, 0, 0, 0, 0, r.below(nv as u64) as i64, r.below((nt * per) as u64) as i64, v, 0]));
        }
        let mut x = 0;
        for t in 0..nt {
            let n = 1 + r.below(4);
            p.threads.push(
                (0..n)
                    .map(|_| {
                        let mut a = gen_chain(r, nv, per, &mut x);
                        for s in a.chunks_exact_mut(W) {
                            for i in [2, 4, 6] {
                                s[i] = s[i] % per * nt + t;
                            }
                        }
                        op(if r.chance(1, 2) { "chain" } else { "proc" }, &a)
                    })
                    .collect(),
            );
        }
        if r.chance(1, 5) {
            p.faults.push(FaultSpec { cls: "rand".into(), nth: r.below(60), err: r.pick(&["EIO", "ENOSYS", "EINTR", "short"]).to_string(), count: *r.pick(&[1, 1, 2]) });
        }
        p.sched = gen_sched(r, 4000);
        p
    }
    fn run(&self, cx: &mut Cx) {
        let plan = cx.plan;
        let (nv, nt, per) = (plan.c("nv"), plan.c("nt"), plan.c("per"));
        let logs: Sh<Vec<Vec<Rec>>> = Sh::new((0..nt).map(|_| vec![]).collect());
        let (l2, setup) = (logs.clone(), plan.setup.clone());
        let made = cx.solo("setup", move || {
            let mut s = Sess::new();
            s.exec(&op("create", &[0]));
            let c = s.h[&0].clone();
            for o in &setup {
                let t = o.n(6) % nt;
                let r = run_chain(&c, &o.a, false);
                let seen = look(&c, nv, &Together::own(nt, per, t));
                l2.with(|l| l[t as usize].push((o.a.clone(), r, false, seen)));
            }
            (s, c)
        });
        let Some((sess, client)) = made else { return };
        let inside: Sh<BTreeMap<usize, u64>> = Sh::new(BTreeMap::new());
        let tasks: Vec<(String, TaskFn)> = plan
            .threads
            .iter()
            .enumerate()
            .filter(|(_, o)| !o.is_empty())
            .map(|(t, ops)| {
                let (ops, logs, inside, c) = (ops.clone(), logs.clone(), inside.clone(), client.clone());
                let mine = Together::own(nt, per, t as i64);
                let f: TaskFn = Box::new(move || {
                    for o in &ops {
                        let fired = || vfs::v().fired.values().sum::<u64>();
                        let n = sched::inert(fired);
                        inside.with(|x| x.insert(t, hard()));
                        let r = run_chain(&c, &o.a, o.k == "proc");
                        let faulty = sched::inert(fired) > n;
                        // (looking may be hit by a fault, too)
                        let mut seen;
                        loop {
                            let n = sched::inert(fired);
                            seen = look(&c, nv, &mine);
                            if sched::inert(fired) == n {
                                break;
                            }
                        }
                        inside.with(|x| x.remove(&t));
                        logs.with(|l| l[t].push((o.a.clone(), r, faulty, seen)));
                    }
                });
                (format!("user{t}"), f)
            })
            .collect();
        cx.arm();
        sched::activate(true);
        let mut end = cx.phase_raw(tasks);
        sched::activate(false);
        cx.disarm();
        if end == PhaseEnd::Panic && inside.with(|x| x.values().any(|n| hard() > *n)) {
            cx.count("stopped_without_random_bytes");
            end = PhaseEnd::AllDone;
        }
        let whole = end == PhaseEnd::AllDone && inside.with(|x| x.is_empty());
        cx.judge(end);
        if whole {
            // nobody harmed anybody afterwards either
            let (c, l2) = (client.clone(), logs.clone());
            cx.solo("look", move || {
                for t in 0..nt {
                    let seen = look(&c, nv, &Together::own(nt, per, t));
                    l2.with(|l| l[t as usize].push((vec![], Ok(vec![]), false, seen)));
                }
            });
        }
        let logs = logs.with(|l| l.clone());
        for (t, log) in logs.iter().enumerate() {
            cx.sample.extend(log.iter().map(|(a, r, f, _)| format!("user{t}: {}{} = {}", if *f { "(random bytes fail) " } else { "" }, show(a), match r { Ok(_) => "Ok".into(), Err(e) => e.clone() })));
            if cx.ok() {
                Chains::verify(cx, log, nv, &Together::own(nt, per, t as i64), true);
            }
        }
        if whole {
            cx.solo("drop", move || drop((client, sess)));
        } else {
            std::mem::forget((client, sess));
        }
    }
}
