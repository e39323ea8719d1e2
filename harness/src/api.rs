//! The public calls of the library, on integers: arguments and results are projected by
//! `Dl`.  Panics of the code under test are data.
use crate::{dl::*, oracle::RO, toy::*};
use ark_dh_commitments::{
    afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
    identity::{HomomorphicPlaceholderValue, IdentityCommitment, IdentityOutput},
    pedersen::PedersenCommitment,
    DoublyHomomorphicCommitment as Dhc,
};
use ark_ec::{
    pairing::{Pairing, PairingOutput},
    CurveGroup,
};
use ark_inner_products::*;
use ark_ip_proofs::{
    applications::{groth16_aggregation as agg, poly_commit as tpc, poly_commit::transparent as npc},
    gipa::*,
    tipa::{structured_scalar_message::*, *},
};
use ark_poly::{univariate::DensePolynomial, DenseUVPolynomial};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_sipp::SIPP;
use ark_std::{
    rand::{RngCore, SeedableRng},
    One,
};
use rand_chacha::ChaCha8Rng;
use std::{
    cell::RefCell,
    panic::{catch_unwind, AssertUnwindSafe},
};

pub type Ints = Vec<i64>;
pub type R = ChaCha8Rng;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct AProof {
    pub steps: Vec<[i64; 6]>,
    pub base: [i64; 2],
    pub fck: Ints,
    pub fpi: Ints,
}
#[derive(Clone, Debug, Default)]
pub struct Srs {
    pub ga: Ints,
    pub hb: Ints,
    pub gb: i64,
    pub ha: i64,
}
#[derive(Clone, Debug, Default)]
pub struct Vk {
    pub g: i64,
    pub h: i64,
    pub gb: i64,
    pub ha: i64,
}
/// arguments of the inner-product argument's prover
#[derive(Clone, Debug, Default)]
pub struct PIn {
    pub ma: Ints,
    pub mb: Ints,
    pub cka: Ints,
    pub ckb: Ints,
    pub ckt: i64,
    pub t: i64,
    pub com: [i64; 3],
    pub srs: Srs,
    pub shift: i64,
}
/// ... and of its verifier (com[1] is the scalar of a structured message)
#[derive(Clone, Debug, Default)]
pub struct VIn {
    pub cka: Ints,
    pub ckb: Ints,
    pub ckt: i64,
    pub com: [i64; 3],
    pub vk: Vk,
    pub shift: i64,
    pub proof: AProof,
}
/// result of a call: a value, an error or a panic
#[derive(Clone, Debug)]
pub enum Out<T> {
    Ok(T),
    Err,
    Panic(String),
}
impl<T> Out<T> {
    pub fn name(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err => "err",
            Out::Panic(_) => "panic",
        }
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
        match self {
            Out::Ok(x) => Out::Ok(f(x)),
            Out::Err => Out::Err,
            Out::Panic(s) => Out::Panic(s),
        }
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(x) => Some(x),
            _ => None,
        }
    }
}
impl Out<bool> {
    pub fn verdict(&self) -> &'static str {
        match self {
            Out::Ok(true) => "acc",
            Out::Ok(false) => "rej",
            Out::Err => "err",
            Out::Panic(_) => "panic",
        }
    }
}
pub fn guard<T, E>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(x)) => Out::Ok(x),
        Ok(Err(_)) => Out::Err,
        Err(e) => Out::Panic(
            e.downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default(),
        ),
    }
}
pub fn guard1<T>(f: impl FnOnce() -> T) -> Out<T> {
    guard(|| Ok::<T, ()>(f()))
}

pub struct Transport {
    pub mode: &'static str,
    pub b1: String,
    pub b2: String,
    pub proof2: AProof,
    /// truncated encodings that were read back without an error
    pub truncated_ok: usize,
    /// corrupted encodings that a checked read turned into a proof with values that are no
    /// elements of the groups
    pub alien_ok: usize,
    pub res: Out<bool>,
}
pub struct Commits {
    pub com: [i64; 3],
    pub t: i64,
}
pub trait ArgApi {
    fn op(&self) -> &'static str;
    fn setup(&self, rng: &mut R, n: usize) -> Out<PIn>;
    fn commit(&self, p: &PIn) -> Out<Commits>;
    fn prove(&self, p: &PIn) -> Out<AProof>;
    /// stored: use the proof the last `prove` returned instead of the one given
    fn verify(&self, v: &VIn, stored: bool) -> Out<bool>;
    fn transport(&self, v: &VIn) -> Vec<Transport>;
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn ser<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_uncompressed(&mut v).unwrap();
    v
}
fn de<T: CanonicalDeserialize>(b: &[u8]) -> T {
    let mut r = b;
    let x = T::deserialize_uncompressed_unchecked(&mut r).expect("layout of proofs");
    assert!(r.is_empty(), "layout of proofs");
    x
}
fn read_all<T: CanonicalDeserialize>(b: &[u8], compressed: bool) -> Option<T> {
    let mut r = b;
    let x = if compressed { T::deserialize_compressed(&mut r) } else { T::deserialize_uncompressed(&mut r) };
    match x {
        Ok(x) if r.is_empty() => Some(x),
        _ => None,
    }
}
type Round<L, R, T> = ((L, R, T), (L, R, T));
type GRaw<LM, RM, LO, RO_, TO> = (Vec<Round<LO, RO_, TO>>, (LM, RM));
fn g_dec<LM: Dl, RM: Dl, L: Dl, R_: Dl, T: Dl>(p: &GRaw<LM, RM, L, R_, T>) -> AProof {
    AProof {
        steps: p
            .0
            .iter()
            .map(|(l, r)| [l.0.get(), l.1.get(), l.2.get(), r.0.get(), r.1.get(), r.2.get()])
            .collect(),
        base: [p.1 .0.get(), p.1 .1.get()],
        fck: vec![],
        fpi: vec![],
    }
}
fn g_enc<LM: Dl, RM: Dl, L: Dl, R_: Dl, T: Dl>(p: &AProof) -> GRaw<LM, RM, L, R_, T> {
    (
        p.steps
            .iter()
            .map(|s| {
                (
                    (L::put(s[0]), R_::put(s[1]), T::put(s[2])),
                    (L::put(s[3]), R_::put(s[4]), T::put(s[5])),
                )
            })
            .collect(),
        (LM::put(p.base[0]), RM::put(p.base[1])),
    )
}

/// serialise, read back, truncate, and verify what was read back
fn transport_of<T: CanonicalSerialize + CanonicalDeserialize>(
    p: &T,
    project: impl Fn(&T) -> AProof,
    clone: impl Fn(&T) -> T,
    verify: impl Fn(&T) -> Out<bool>,
) -> Vec<Transport> {
    let mut out = vec![];
    for mode in ["compressed", "uncompressed", "clone"] {
        let w = |x: &T| {
            let mut v = vec![];
            if mode == "compressed" {
                x.serialize_compressed(&mut v).map(|_| v)
            } else {
                x.serialize_uncompressed(&mut v).map(|_| v)
            }
        };
        let r = guard(|| -> Result<Transport, ark_serialize::SerializationError> {
            let b1 = w(p)?;
            let (mut truncated_ok, mut alien_ok) = (0, 0);
            let q = if mode == "clone" {
                clone(p)
            } else {
                // all places of a short encoding, a selection of those of a long one
                let places = |few: usize| -> Vec<usize> {
                    let n = b1.len();
                    let step = if n <= 1000 { 1 } else { n / few + 1 };
                    let mut v: Vec<usize> = (0..n).step_by(step).collect();
                    if step > 1 {
                        v.extend((0..8).chain(n - 40..n));
                    }
                    v
                };
                for cut in places(20) {
                    if read_all::<T>(&b1[..cut], mode == "compressed").is_some() {
                        truncated_ok += 1;
                    }
                }
                for at in places(36) {
                    for flip in [0x01u8, 0x1e, 0x80] {
                        let mut b = b1.clone();
                        b[at] ^= flip;
                        if let Some(q) = read_all::<T>(&b, mode == "compressed") {
                            let fine = match guard1(|| project(&q)) {
                                Out::Ok(a) => !a.steps.iter().flatten().chain(&a.base).chain(&a.fck).chain(&a.fpi).any(|x| *x == -2 || *x == -8),
                                _ => false,
                            };
                            if !fine {
                                alien_ok += 1;
                            }
                        }
                    }
                }
                let mut r = &b1[..];
                if mode == "compressed" {
                    T::deserialize_compressed(&mut r)?
                } else {
                    T::deserialize_uncompressed(&mut r)?
                }
            };
            let b2 = w(&q)?;
            Ok(Transport {
                mode,
                b1: hex(&b1),
                b2: hex(&b2),
                proof2: project(&q),
                truncated_ok,
                alien_ok,
                res: verify(&q),
            })
        });
        out.push(match r {
            Out::Ok(t) => t,
            Out::Err => Transport {
                mode,
                b1: "written".into(),
                b2: "unreadable".into(),
                proof2: Default::default(),
                truncated_ok: 0,
                alien_ok: 0,
                res: Out::Err,
            },
            Out::Panic(s) => Transport {
                mode,
                b1: "written".into(),
                b2: "panic".into(),
                proof2: Default::default(),
                truncated_ok: 0,
                alien_ok: 0,
                res: Out::Panic(s),
            },
        });
    }
    out
}

fn srs_get<E: Pairing>(s: &SRS<E>) -> Srs
where
    E::G1: Dl,
    E::G2: Dl,
{
    Srs { ga: gets(&s.g_alpha_powers), hb: gets(&s.h_beta_powers), gb: s.g_beta.get(), ha: s.h_alpha.get() }
}
fn srs_put<E: Pairing>(s: &Srs) -> SRS<E>
where
    E::G1: Dl,
    E::G2: Dl,
{
    SRS {
        g_alpha_powers: puts(&s.ga),
        h_beta_powers: puts(&s.hb),
        g_beta: E::G1::put(s.gb),
        h_alpha: E::G2::put(s.ha),
    }
}
fn vk_get<E: Pairing>(s: &VerifierSRS<E>) -> Vk
where
    E::G1: Dl,
    E::G2: Dl,
{
    Vk { g: s.g.get(), h: s.h.get(), gb: s.g_beta.get(), ha: s.h_alpha.get() }
}
fn vk_put<E: Pairing>(s: &Vk) -> VerifierSRS<E>
where
    E::G1: Dl,
    E::G2: Dl,
{
    VerifierSRS { g: E::G1::put(s.g), h: E::G2::put(s.h), g_beta: E::G1::put(s.gb), h_alpha: E::G2::put(s.ha) }
}

macro_rules! commits {
    ($p:ident, $ip:ty, $l:ty, $r:ty, $t:ty, $b:expr) => {{
        let (ma, mb): (Vec<<$l as Dhc>::Message>, Vec<<$r as Dhc>::Message>) = (puts(&$p.ma), puts(&$p.mb));
        let ka: Vec<<$l as Dhc>::Key> = puts(&$p.cka);
        let kt = <$t as Dhc>::Key::put($p.ckt);
        guard(|| -> Result<Commits, Error> {
            let t = <$ip>::inner_product(&ma, &mb)?;
            let b: Result<i64, Error> = $b(&mb);
            Ok(Commits {
                com: [<$l>::commit(&ka, &ma)?.get(), b?, <$t>::commit(&[kt.clone()], &[t.clone()])?.get()],
                t: t.get(),
            })
        })
    }};
}
macro_rules! kind {
    ($name:ident, $m:ident, gipa, $ip:ty, $l:ty, $r:ty, $t:ty) => {
        #[derive(Default)]
        pub struct $name(RefCell<Option<GIPAProof<$ip, $l, $r, $t, RO>>>);
        const _: () = {
            type G = GIPA<$ip, $l, $r, $t, RO>;
            type Proof = GIPAProof<$ip, $l, $r, $t, RO>;
            type Raw = GRaw<
                <$l as Dhc>::Message,
                <$r as Dhc>::Message,
                <$l as Dhc>::Output,
                <$r as Dhc>::Output,
                <$t as Dhc>::Output,
            >;
            fn verify(v: &VIn, p: &Proof) -> Out<bool> {
                let ka: Vec<<$l as Dhc>::Key> = puts(&v.cka);
                let kb: Vec<<$r as Dhc>::Key> = puts(&v.ckb);
                let kt = <$t as Dhc>::Key::put(v.ckt);
                let com = (
                    <$l as Dhc>::Output::put(v.com[0]),
                    <$r as Dhc>::Output::put(v.com[1]),
                    <$t as Dhc>::Output::put(v.com[2]),
                );
                guard(|| G::verify((&ka, &kb, &kt), (&com.0, &com.1, &com.2), p))
            }
            impl ArgApi for $name {
                fn op(&self) -> &'static str {
                    "gipa"
                }
                fn setup(&self, rng: &mut R, n: usize) -> Out<PIn> {
                    guard(|| G::setup(rng, n)).map(|(a, b, t)| PIn {
                        cka: gets(&a),
                        ckb: gets(&b),
                        ckt: t.get(),
                        ..Default::default()
                    })
                }
                fn commit(&self, p: &PIn) -> Out<Commits> {
                    let kb: Vec<<$r as Dhc>::Key> = puts(&p.ckb);
                    commits!(p, $ip, $l, $r, $t, |mb: &[<$r as Dhc>::Message]| Ok(<$r>::commit(&kb, mb)?.get()))
                }
                fn prove(&self, p: &PIn) -> Out<AProof> {
                    let ma: Vec<<$l as Dhc>::Message> = puts(&p.ma);
                    let mb: Vec<<$r as Dhc>::Message> = puts(&p.mb);
                    let ka: Vec<<$l as Dhc>::Key> = puts(&p.cka);
                    let kb: Vec<<$r as Dhc>::Key> = puts(&p.ckb);
                    let kt = <$t as Dhc>::Key::put(p.ckt);
                    let t = <$t as Dhc>::Message::put(p.t);
                    let com = (
                        <$l as Dhc>::Output::put(p.com[0]),
                        <$r as Dhc>::Output::put(p.com[1]),
                        <$t as Dhc>::Output::put(p.com[2]),
                    );
                    guard(|| G::prove((&ma, &mb, &t), (&ka, &kb, &kt), (&com.0, &com.1, &com.2))).map(|x| {
                        let p = g_dec(&de::<Raw>(&ser(&x)));
                        *self.0.borrow_mut() = Some(x);
                        p
                    })
                }
                fn verify(&self, v: &VIn, stored: bool) -> Out<bool> {
                    if stored {
                        verify(v, self.0.borrow().as_ref().unwrap())
                    } else {
                        let raw: Raw = g_enc(&v.proof);
                        verify(v, &de::<Proof>(&ser(&raw)))
                    }
                }
                fn transport(&self, v: &VIn) -> Vec<Transport> {
                    let g = self.0.borrow();
                    transport_of(
                        g.as_ref().unwrap(),
                        |x| g_dec(&de::<Raw>(&ser(x))),
                        |x| x.clone(),
                        |x| verify(v, x),
                    )
                }
            }
        };
    };
    ($name:ident, $m:ident, ssm, $ip:ty, $l:ty, $t:ty) => {
        #[derive(Default)]
        pub struct $name(RefCell<Option<GIPAProof<$ip, $l, SSMPlaceholderCommitment<$m::Fr>, $t, RO>>>);
        const _: () = {
            type G = GIPAWithSSM<$ip, $l, $t, RO>;
            type Proof = GIPAProof<$ip, $l, SSMPlaceholderCommitment<$m::Fr>, $t, RO>;
            type Raw = GRaw<<$l as Dhc>::Message, $m::Fr, <$l as Dhc>::Output, $m::Fr, <$t as Dhc>::Output>;
            fn verify(v: &VIn, p: &Proof) -> Out<bool> {
                let ka: Vec<<$l as Dhc>::Key> = puts(&v.cka);
                let kt = <$t as Dhc>::Key::put(v.ckt);
                let (ca, ct) = (<$l as Dhc>::Output::put(v.com[0]), <$t as Dhc>::Output::put(v.com[2]));
                let b = $m::Fr::put(v.com[1]);
                guard(|| G::verify_with_structured_scalar_message((&ka, &kt), (&ca, &ct), &b, p))
            }
            impl ArgApi for $name {
                fn op(&self) -> &'static str {
                    "ssm"
                }
                fn setup(&self, rng: &mut R, n: usize) -> Out<PIn> {
                    guard(|| G::setup(rng, n)).map(|(a, t)| PIn { cka: gets(&a), ckt: t.get(), ..Default::default() })
                }
                fn commit(&self, p: &PIn) -> Out<Commits> {
                    commits!(p, $ip, $l, SSMPlaceholderCommitment<$m::Fr>, $t, |mb: &[$m::Fr]| Ok(mb
                        .get(1)
                        .map_or(0, |x| x.get())))
                }
                fn prove(&self, p: &PIn) -> Out<AProof> {
                    let ma: Vec<<$l as Dhc>::Message> = puts(&p.ma);
                    let mb: Vec<$m::Fr> = puts(&p.mb);
                    let ka: Vec<<$l as Dhc>::Key> = puts(&p.cka);
                    let kt = <$t as Dhc>::Key::put(p.ckt);
                    guard(|| G::prove_with_structured_scalar_message((&ma, &mb), (&ka, &kt))).map(|x| {
                        let p = g_dec(&de::<Raw>(&ser(&x)));
                        *self.0.borrow_mut() = Some(x);
                        p
                    })
                }
                fn verify(&self, v: &VIn, stored: bool) -> Out<bool> {
                    if stored {
                        verify(v, self.0.borrow().as_ref().unwrap())
                    } else {
                        let raw: Raw = g_enc(&v.proof);
                        verify(v, &de::<Proof>(&ser(&raw)))
                    }
                }
                fn transport(&self, v: &VIn) -> Vec<Transport> {
                    let g = self.0.borrow();
                    transport_of(
                        g.as_ref().unwrap(),
                        |x| g_dec(&de::<Raw>(&ser(x))),
                        |x| x.clone(),
                        |x| verify(v, x),
                    )
                }
            }
        };
    };
    ($name:ident, $m:ident, tipa, $ip:ty, $l:ty, $r:ty, $t:ty) => {
        #[derive(Default)]
        pub struct $name(RefCell<Option<TIPAProof<$ip, $l, $r, $t, $m::E, RO>>>);
        const _: () = {
            type G = TIPA<$ip, $l, $r, $t, $m::E, RO>;
            type Proof = TIPAProof<$ip, $l, $r, $t, $m::E, RO>;
            type Raw = (
                GRaw<
                    <$l as Dhc>::Message,
                    <$r as Dhc>::Message,
                    <$l as Dhc>::Output,
                    <$r as Dhc>::Output,
                    <$t as Dhc>::Output,
                >,
                ($m::G2, $m::G1),
                ($m::G2, $m::G1),
            );
            fn dec(p: &Proof) -> AProof {
                let r: Raw = de(&ser(p));
                AProof {
                    fck: vec![r.1 .0.get(), r.1 .1.get()],
                    fpi: vec![r.2 .0.get(), r.2 .1.get()],
                    ..g_dec(&r.0)
                }
            }
            fn verify(v: &VIn, p: &Proof) -> Out<bool> {
                let kt = <$t as Dhc>::Key::put(v.ckt);
                let com = (
                    <$l as Dhc>::Output::put(v.com[0]),
                    <$r as Dhc>::Output::put(v.com[1]),
                    <$t as Dhc>::Output::put(v.com[2]),
                );
                let vk = vk_put(&v.vk);
                let com = (&com.0, &com.1, &com.2);
                guard(|| {
                    if v.shift == 1 {
                        G::verify(&vk, &kt, com, p)
                    } else {
                        G::verify_with_srs_shift(&vk, &kt, com, p, &$m::Fr::put(v.shift))
                    }
                })
            }
            impl ArgApi for $name {
                fn op(&self) -> &'static str {
                    "tipa"
                }
                fn setup(&self, rng: &mut R, n: usize) -> Out<PIn> {
                    guard(|| G::setup(rng, n)).map(|(s, t)| PIn {
                        srs: srs_get(&s),
                        cka: gets(&s.get_commitment_keys().0),
                        ckb: gets(&s.get_commitment_keys().1),
                        ckt: t.get(),
                        ..Default::default()
                    })
                }
                fn commit(&self, p: &PIn) -> Out<Commits> {
                    let kb: Vec<<$r as Dhc>::Key> = puts(&p.ckb);
                    commits!(p, $ip, $l, $r, $t, |mb: &[<$r as Dhc>::Message]| Ok(<$r>::commit(&kb, mb)?.get()))
                }
                fn prove(&self, p: &PIn) -> Out<AProof> {
                    let ma: Vec<<$l as Dhc>::Message> = puts(&p.ma);
                    let mb: Vec<<$r as Dhc>::Message> = puts(&p.mb);
                    let ka: Vec<<$l as Dhc>::Key> = puts(&p.cka);
                    let kb: Vec<<$r as Dhc>::Key> = puts(&p.ckb);
                    let kt = <$t as Dhc>::Key::put(p.ckt);
                    let srs = srs_put(&p.srs);
                    guard(|| {
                        if p.shift == 1 {
                            G::prove(&srs, (&ma, &mb), (&ka, &kb, &kt))
                        } else {
                            G::prove_with_srs_shift(&srs, (&ma, &mb), (&ka, &kb, &kt), &$m::Fr::put(p.shift))
                        }
                    })
                    .map(|x| {
                        let p = dec(&x);
                        *self.0.borrow_mut() = Some(x);
                        p
                    })
                }
                fn verify(&self, v: &VIn, stored: bool) -> Out<bool> {
                    if stored {
                        verify(v, self.0.borrow().as_ref().unwrap())
                    } else {
                        let p = &v.proof;
                        let raw: Raw = (
                            g_enc(p),
                            ($m::G2::put(p.fck[0]), $m::G1::put(p.fck[1])),
                            ($m::G2::put(p.fpi[0]), $m::G1::put(p.fpi[1])),
                        );
                        verify(v, &de::<Proof>(&ser(&raw)))
                    }
                }
                fn transport(&self, v: &VIn) -> Vec<Transport> {
                    let g = self.0.borrow();
                    transport_of(g.as_ref().unwrap(), dec, |x| x.clone(), |x| verify(v, x))
                }
            }
        };
    };
    ($name:ident, $m:ident, tssm, $ip:ty, $l:ty, $t:ty) => {
        #[derive(Default)]
        pub struct $name(RefCell<Option<TIPAWithSSMProof<$ip, $l, $t, $m::E, RO>>>);
        const _: () = {
            type G = TIPAWithSSM<$ip, $l, $t, $m::E, RO>;
            type Proof = TIPAWithSSMProof<$ip, $l, $t, $m::E, RO>;
            type Raw = (
                GRaw<<$l as Dhc>::Message, $m::Fr, <$l as Dhc>::Output, $m::Fr, <$t as Dhc>::Output>,
                $m::G2,
                $m::G2,
            );
            fn dec(p: &Proof) -> AProof {
                let r: Raw = de(&ser(p));
                AProof { fck: vec![r.1.get()], fpi: vec![r.2.get()], ..g_dec(&r.0) }
            }
            fn verify(v: &VIn, p: &Proof) -> Out<bool> {
                let kt = <$t as Dhc>::Key::put(v.ckt);
                let (ca, ct) = (<$l as Dhc>::Output::put(v.com[0]), <$t as Dhc>::Output::put(v.com[2]));
                let b = $m::Fr::put(v.com[1]);
                let vk = vk_put(&v.vk);
                guard(|| G::verify_with_structured_scalar_message(&vk, &kt, (&ca, &ct), &b, p))
            }
            impl ArgApi for $name {
                fn op(&self) -> &'static str {
                    "tssm"
                }
                fn setup(&self, rng: &mut R, n: usize) -> Out<PIn> {
                    guard(|| G::setup(rng, n)).map(|(s, t)| PIn {
                        srs: srs_get(&s),
                        cka: gets(&s.get_commitment_keys().0),
                        ckt: t.get(),
                        ..Default::default()
                    })
                }
                fn commit(&self, p: &PIn) -> Out<Commits> {
                    commits!(p, $ip, $l, SSMPlaceholderCommitment<$m::Fr>, $t, |mb: &[$m::Fr]| Ok(mb
                        .get(1)
                        .map_or(0, |x| x.get())))
                }
                fn prove(&self, p: &PIn) -> Out<AProof> {
                    let ma: Vec<<$l as Dhc>::Message> = puts(&p.ma);
                    let mb: Vec<$m::Fr> = puts(&p.mb);
                    let ka: Vec<<$l as Dhc>::Key> = puts(&p.cka);
                    let kt = <$t as Dhc>::Key::put(p.ckt);
                    let srs = srs_put(&p.srs);
                    guard(|| G::prove_with_structured_scalar_message(&srs, (&ma, &mb), (&ka, &kt))).map(|x| {
                        let p = dec(&x);
                        *self.0.borrow_mut() = Some(x);
                        p
                    })
                }
                fn verify(&self, v: &VIn, stored: bool) -> Out<bool> {
                    if stored {
                        verify(v, self.0.borrow().as_ref().unwrap())
                    } else {
                        let p = &v.proof;
                        let raw: Raw = (g_enc(p), $m::G2::put(p.fck[0]), $m::G2::put(p.fpi[0]));
                        verify(v, &de::<Proof>(&ser(&raw)))
                    }
                }
                fn transport(&self, v: &VIn) -> Vec<Transport> {
                    let g = self.0.borrow();
                    transport_of(g.as_ref().unwrap(), dec, |x| x.clone(), |x| verify(v, x))
                }
            }
        };
    };
}

#[derive(Clone, Debug, Default)]
pub struct PolyKeys {
    /// trusted: all powers of beta; transparent: the second-tier key
    pub xk: Ints,
    pub yk: Ints,
    pub vk: Vk,
}
#[derive(Clone, Debug)]
pub enum Poly {
    Uni(Ints),
    Bi(Vec<Ints>),
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct OProof {
    pub ip: AProof,
    pub yc: i64,
    pub kp: i64,
    pub ip1: AProof,
}
pub trait PolyApi {
    fn op(&self) -> &'static str;
    fn setup_uni(&self, rng: &mut R, degree: usize) -> Out<PolyKeys>;
    fn setup_bi(&self, rng: &mut R, xd: usize, yd: usize) -> Out<PolyKeys>;
    fn commit(&self, k: &PolyKeys, f: &Poly) -> Out<(i64, Ints)>;
    fn open(&self, k: &PolyKeys, f: &Poly, coms: &[i64], point: &[i64]) -> Out<OProof>;
    #[allow(clippy::too_many_arguments)]
    fn verify(
        &self,
        k: &PolyKeys,
        degree: Option<usize>,
        com: i64,
        point: &[i64],
        eval: i64,
        proof: &OProof,
        stored: bool,
    ) -> Out<bool>;
    fn evaluate(&self, f: &Poly, point: &[i64]) -> Out<i64>;
}

#[derive(Clone, Debug, Default)]
pub struct Gvk {
    pub alpha: i64,
    pub beta: i64,
    pub gamma: i64,
    pub delta: i64,
    pub abc: Ints,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct GProof {
    pub com: [i64; 4],
    pub aggc: i64,
    pub ab: AProof,
    pub c: AProof,
}
pub trait AggApi {
    fn setup(&self, rng: &mut R, n: usize) -> Out<Srs>;
    fn prove(&self, srs: &Srs, pfs: &[[i64; 3]]) -> Out<GProof>;
    fn verify(&self, vk: &Vk, gvk: &Gvk, inputs: &[Ints], proof: &GProof, stored: bool) -> Out<bool>;
}
pub trait PureApi {
    fn ip(&self, kind: &str, a: &[i64], b: &[i64]) -> Out<i64>;
    fn csetup(&self, kind: &str, rng: &mut R, n: usize) -> Out<Ints>;
    fn commit(&self, kind: &str, k: &[i64], m: &[i64]) -> Out<i64>;
    fn cverify(&self, kind: &str, k: &[i64], m: &[i64], com: i64) -> Out<bool>;
    /// x + y and x * s in the commitment space
    fn out_ops(&self, kind: &str, x: i64, y: i64, s: i64) -> Out<(i64, i64)>;
    /// identity commitment of a list: the commitment, whether `other` is accepted as one, x + y and x * s
    #[allow(clippy::too_many_arguments)]
    fn id_list(&self, kind: &str, m: &[i64], other: &[i64], x: &[i64], y: &[i64], s: i64) -> Out<(Ints, bool, Ints, Ints)>;
    fn spowers(&self, kind: &str, n: usize, g: i64, s: i64) -> Out<Ints>;
    fn srs_keys(&self, s: &Srs) -> Out<(Ints, Ints, Vk)>;
    /// key openings of the trusted-setup arguments
    fn ckopen(&self, kind: &str, powers: &[i64], ts: &[i64], r: i64, z: i64) -> Out<i64>;
    #[allow(clippy::too_many_arguments)]
    fn ckverify(&self, kind: &str, vk: &Vk, fk: i64, pi: i64, ts: &[i64], r: i64, z: i64) -> Out<bool>;
    fn kzg_setup(&self, rng: &mut R, d: usize) -> Out<(Ints, Vk)>;
    fn kzg_commit(&self, powers: &[i64], f: &[i64]) -> Out<i64>;
    fn kzg_open(&self, powers: &[i64], f: &[i64], z: i64) -> Out<i64>;
    fn kzg_verify(&self, vk: &Vk, com: i64, z: i64, v: i64, pi: i64) -> Out<bool>;
    fn sipp_prod(&self, a: &[i64], b: &[i64], r: Option<&[i64]>) -> Out<i64>;
    fn sipp_prove(&self, a: &[i64], b: &[i64], r: &[i64], v: i64) -> Out<Vec<[i64; 2]>>;
    fn sipp_verify(&self, a: &[i64], b: &[i64], r: &[i64], v: i64, p: &[[i64; 2]]) -> Out<bool>;
}
pub trait Curve {
    fn p(&self) -> i64;
    fn z_of(&self) -> fn(&[u8]) -> i64;
    fn arg(&self, op: &str, kind: &str) -> Box<dyn ArgApi>;
    fn poly(&self, op: &str) -> Box<dyn PolyApi>;
    fn agg(&self) -> Box<dyn AggApi>;
    fn pure(&self) -> Box<dyn PureApi>;
}

macro_rules! curve {
    ($m:ident, $mm:ident) => {
        pub mod $mm {
            use super::*;
            type E = $m::E;
            type Fr = $m::Fr;
            type G1 = $m::G1;
            type G2 = $m::G2;
            type A1 = <E as Pairing>::G1Affine;
            type A2 = <E as Pairing>::G2Affine;
            type Gt = PairingOutput<E>;
            type IdT = IdentityCommitment<Gt, Fr>;
            type Id1 = IdentityCommitment<G1, Fr>;
            type Id2 = IdentityCommitment<G2, Fr>;
            type IdF = IdentityCommitment<Fr, Fr>;
            type Pair = PairingInnerProduct<E>;
            type Mexp1 = MultiexponentiationInnerProduct<G1>;
            type Mexp2 = MultiexponentiationInnerProduct<G2>;
            type Scal = ScalarInnerProduct<Fr>;
            type AG1 = AFGHOCommitmentG1<E>;
            type AG2 = AFGHOCommitmentG2<E>;
            type P1 = PedersenCommitment<G1>;
            type P2 = PedersenCommitment<G2>;
            kind!(GipaPair, $m, gipa, Pair, AG1, AG2, IdT);
            kind!(GipaMexp, $m, gipa, Mexp1, AG1, P1, Id1);
            kind!(GipaMexp2, $m, gipa, Mexp2, AG2, P2, Id2);
            kind!(GipaScalar, $m, gipa, Scal, P2, P1, IdF);
            kind!(GipaScalarP, $m, gipa, Scal, P1, P1, P1);
            kind!(TipaPair, $m, tipa, Pair, AG1, AG2, IdT);
            kind!(TipaMexp, $m, tipa, Mexp1, AG1, P1, Id1);
            kind!(TipaScalar, $m, tipa, Scal, P2, P1, IdF);
            kind!(TipaScalarP, $m, tipa, Scal, P2, P1, P2);
            kind!(SsmMexp, $m, ssm, Mexp1, AG1, Id1);
            kind!(SsmScalar, $m, ssm, Scal, P1, IdF);
            kind!(SsmScalarP, $m, ssm, Scal, P1, P1);
            kind!(TssmMexp, $m, tssm, Mexp1, AG1, Id1);
            kind!(TssmScalar, $m, tssm, Scal, P2, IdF);

            fn aff1(v: &[i64]) -> Vec<A1> {
                G1::normalize_batch(&puts::<G1>(v))
            }
            fn aff2(v: &[i64]) -> Vec<A2> {
                G2::normalize_batch(&puts::<G2>(v))
            }
            fn dl_aff1(v: &[A1]) -> Ints {
                v.iter().map(|x| G1::from(*x).get()).collect()
            }
            fn dense(v: &[i64]) -> DensePolynomial<Fr> {
                DensePolynomial::from_coefficients_vec(puts(v))
            }

            type Top = TIPAWithSSMProof<Mexp1, AG1, Id1, E, RO>;
            type TopRaw = (GRaw<G1, Fr, Gt, Fr, IdentityOutput<G1>>, G2, G2);
            fn top_dec(p: &Top) -> AProof {
                let r: TopRaw = de(&ser(p));
                AProof { fck: vec![r.1.get()], fpi: vec![r.2.get()], ..g_dec(&r.0) }
            }
            fn top_enc(p: &AProof) -> Top {
                let raw: TopRaw = (g_enc(p), G2::put(p.fck[0]), G2::put(p.fpi[0]));
                de(&ser(&raw))
            }
            #[derive(Default)]
            pub struct Trusted(RefCell<Option<tpc::OpeningProof<E, RO>>>);
            impl Trusted {
                fn keys(k: &PolyKeys) -> (SRS<E>, Vec<A1>) {
                    (
                        SRS {
                            g_alpha_powers: vec![G1::put(k.vk.g)],
                            h_beta_powers: puts(&k.xk),
                            g_beta: G1::put(k.vk.gb),
                            h_alpha: G2::put(k.vk.ha),
                        },
                        aff1(&k.yk),
                    )
                }
                fn got((s, y): (SRS<E>, Vec<A1>)) -> PolyKeys {
                    PolyKeys { xk: gets(&s.h_beta_powers), yk: dl_aff1(&y), vk: vk_get(&s.get_verifier_key()) }
                }
            }
            impl PolyApi for Trusted {
                fn op(&self) -> &'static str {
                    "tpc"
                }
                fn setup_uni(&self, rng: &mut R, degree: usize) -> Out<PolyKeys> {
                    guard(|| tpc::UnivariatePolynomialCommitment::<E, RO>::setup(rng, degree)).map(Self::got)
                }
                fn setup_bi(&self, rng: &mut R, xd: usize, yd: usize) -> Out<PolyKeys> {
                    guard(|| tpc::BivariatePolynomialCommitment::<E, RO>::setup(rng, xd, yd)).map(Self::got)
                }
                fn commit(&self, k: &PolyKeys, f: &Poly) -> Out<(i64, Ints)> {
                    let k = Self::keys(k);
                    match f {
                        Poly::Uni(f) => {
                            let f = dense(f);
                            guard(|| tpc::UnivariatePolynomialCommitment::<E, RO>::commit(&k, &f))
                        }
                        Poly::Bi(f) => {
                            let f = tpc::BivariatePolynomial::verif_from_parts(f.iter().map(|x| dense(x)).collect());
                            guard(|| tpc::BivariatePolynomialCommitment::<E, RO>::commit(&k, &f))
                        }
                    }
                    .map(|(c, v)| (c.get(), gets(&v)))
                }
                fn open(&self, k: &PolyKeys, f: &Poly, coms: &[i64], point: &[i64]) -> Out<OProof> {
                    let k = Self::keys(k);
                    let coms: Vec<G1> = puts(coms);
                    match f {
                        Poly::Uni(f) => {
                            let f = dense(f);
                            guard(|| {
                                tpc::UnivariatePolynomialCommitment::<E, RO>::open(&k, &f, &coms, &Fr::put(point[0]))
                            })
                        }
                        Poly::Bi(f) => {
                            let f = tpc::BivariatePolynomial::verif_from_parts(f.iter().map(|x| dense(x)).collect());
                            let pt = (Fr::put(point[0]), Fr::put(point[1]));
                            guard(|| tpc::BivariatePolynomialCommitment::<E, RO>::open(&k, &f, &coms, &pt))
                        }
                    }
                    .map(|p| {
                        let (ip, yc, kp) = p.verif_parts();
                        let o = OProof { ip: top_dec(ip), yc: yc.get(), kp: kp.get(), ..Default::default() };
                        *self.0.borrow_mut() = Some(p);
                        o
                    })
                }
                fn verify(
                    &self,
                    k: &PolyKeys,
                    degree: Option<usize>,
                    com: i64,
                    point: &[i64],
                    eval: i64,
                    proof: &OProof,
                    stored: bool,
                ) -> Out<bool> {
                    let made = tpc::OpeningProof::verif_from_parts(
                        top_enc(&proof.ip),
                        G1::put(proof.yc),
                        G1::put(proof.kp),
                    );
                    let g = self.0.borrow();
                    let p = if stored { g.as_ref().unwrap() } else { &made };
                    let (vk, com, eval) = (vk_put(&k.vk), Gt::put(com), Fr::put(eval));
                    guard(|| match degree {
                        Some(d) => tpc::UnivariatePolynomialCommitment::<E, RO>::verify(
                            &vk,
                            d,
                            &com,
                            &Fr::put(point[0]),
                            &eval,
                            p,
                        ),
                        None => tpc::BivariatePolynomialCommitment::<E, RO>::verify(
                            &vk,
                            &com,
                            &(Fr::put(point[0]), Fr::put(point[1])),
                            &eval,
                            p,
                        ),
                    })
                }
                fn evaluate(&self, f: &Poly, point: &[i64]) -> Out<i64> {
                    match f {
                        Poly::Uni(_) => Out::Err,
                        Poly::Bi(f) => {
                            let f = tpc::BivariatePolynomial::verif_from_parts(f.iter().map(|x| dense(x)).collect());
                            guard1(|| f.evaluate(&(Fr::put(point[0]), Fr::put(point[1]))).get())
                        }
                    }
                }
            }

            type NTop = GIPAProof<Mexp1, AG1, SSMPlaceholderCommitment<Fr>, Id1, RO>;
            type NTopRaw = GRaw<G1, Fr, Gt, Fr, IdentityOutput<G1>>;
            type NLow = GIPAProof<Scal, P1, SSMPlaceholderCommitment<Fr>, IdF, RO>;
            type NLowRaw = GRaw<Fr, Fr, G1, Fr, IdentityOutput<Fr>>;
            #[derive(Default)]
            pub struct Transparent(RefCell<Option<npc::OpeningProof<E, RO>>>);
            impl Transparent {
                fn keys(k: &PolyKeys) -> (Vec<G1>, Vec<G2>) {
                    (puts(&k.yk), puts(&k.xk))
                }
                fn got((y, x): (Vec<G1>, Vec<G2>)) -> PolyKeys {
                    PolyKeys { xk: gets(&x), yk: gets(&y), vk: Vk::default() }
                }
            }
            impl PolyApi for Transparent {
                fn op(&self) -> &'static str {
                    "npc"
                }
                fn setup_uni(&self, rng: &mut R, degree: usize) -> Out<PolyKeys> {
                    guard(|| npc::UnivariatePolynomialCommitment::<E, RO>::setup(rng, degree)).map(Self::got)
                }
                fn setup_bi(&self, rng: &mut R, xd: usize, yd: usize) -> Out<PolyKeys> {
                    guard(|| npc::BivariatePolynomialCommitment::<E, RO>::setup(rng, xd, yd)).map(Self::got)
                }
                fn commit(&self, k: &PolyKeys, f: &Poly) -> Out<(i64, Ints)> {
                    let k = Self::keys(k);
                    match f {
                        Poly::Uni(f) => {
                            let f = dense(f);
                            guard(|| npc::UnivariatePolynomialCommitment::<E, RO>::commit(&k, &f))
                        }
                        Poly::Bi(f) => {
                            let f = npc::BivariatePolynomial::verif_from_parts(f.iter().map(|x| dense(x)).collect());
                            guard(|| npc::BivariatePolynomialCommitment::<E, RO>::commit(&k, &f))
                        }
                    }
                    .map(|(c, v)| (c.get(), gets(&v)))
                }
                fn open(&self, k: &PolyKeys, f: &Poly, coms: &[i64], point: &[i64]) -> Out<OProof> {
                    let k = Self::keys(k);
                    let coms: Vec<G1> = puts(coms);
                    match f {
                        Poly::Uni(f) => {
                            let f = dense(f);
                            guard(|| {
                                npc::UnivariatePolynomialCommitment::<E, RO>::open(&k, &f, &coms, &Fr::put(point[0]))
                            })
                        }
                        Poly::Bi(f) => {
                            let f = npc::BivariatePolynomial::verif_from_parts(f.iter().map(|x| dense(x)).collect());
                            let pt = (Fr::put(point[0]), Fr::put(point[1]));
                            guard(|| npc::BivariatePolynomialCommitment::<E, RO>::open(&k, &f, &coms, &pt))
                        }
                    }
                    .map(|p| {
                        let (ip, yc, ip1) = p.verif_parts();
                        let o = OProof {
                            ip: g_dec(&de::<NTopRaw>(&ser(ip))),
                            yc: yc.get(),
                            kp: 0,
                            ip1: g_dec(&de::<NLowRaw>(&ser(ip1))),
                        };
                        *self.0.borrow_mut() = Some(p);
                        o
                    })
                }
                fn verify(
                    &self,
                    k: &PolyKeys,
                    degree: Option<usize>,
                    com: i64,
                    point: &[i64],
                    eval: i64,
                    proof: &OProof,
                    stored: bool,
                ) -> Out<bool> {
                    let (t, l): (NTopRaw, NLowRaw) = (g_enc(&proof.ip), g_enc(&proof.ip1));
                    let made = npc::OpeningProof::verif_from_parts(
                        de::<NTop>(&ser(&t)),
                        G1::put(proof.yc),
                        de::<NLow>(&ser(&l)),
                    );
                    let g = self.0.borrow();
                    let p = if stored { g.as_ref().unwrap() } else { &made };
                    let (k, com, eval) = (Self::keys(k), Gt::put(com), Fr::put(eval));
                    guard(|| match degree {
                        Some(_) => npc::UnivariatePolynomialCommitment::<E, RO>::verify(
                            &k,
                            &com,
                            &Fr::put(point[0]),
                            &eval,
                            p,
                        ),
                        None => npc::BivariatePolynomialCommitment::<E, RO>::verify(
                            &k,
                            &com,
                            &(Fr::put(point[0]), Fr::put(point[1])),
                            &eval,
                            p,
                        ),
                    })
                }
                fn evaluate(&self, f: &Poly, point: &[i64]) -> Out<i64> {
                    match f {
                        Poly::Uni(_) => Out::Err,
                        Poly::Bi(f) => {
                            let f = npc::BivariatePolynomial::verif_from_parts(f.iter().map(|x| dense(x)).collect());
                            guard1(|| f.evaluate(&(Fr::put(point[0]), Fr::put(point[1]))).get())
                        }
                    }
                }
            }

            type AbProof = TIPAProof<Pair, AG1, AG2, IdT, E, RO>;
            type AbRaw = (GRaw<G1, G2, Gt, Gt, IdentityOutput<Gt>>, (G2, G1), (G2, G1));
            fn ab_dec(p: &AbProof) -> AProof {
                let r: AbRaw = de(&ser(p));
                AProof {
                    fck: vec![r.1 .0.get(), r.1 .1.get()],
                    fpi: vec![r.2 .0.get(), r.2 .1.get()],
                    ..g_dec(&r.0)
                }
            }
            fn ab_enc(p: &AProof) -> AbProof {
                let raw: AbRaw = (
                    g_enc(p),
                    (G2::put(p.fck[0]), G1::put(p.fck[1])),
                    (G2::put(p.fpi[0]), G1::put(p.fpi[1])),
                );
                de(&ser(&raw))
            }
            #[derive(Default)]
            pub struct Agg(RefCell<Option<agg::AggregateProof<E, RO>>>);
            impl AggApi for Agg {
                fn setup(&self, rng: &mut R, n: usize) -> Out<Srs> {
                    guard(|| agg::setup_inner_product::<E, RO, _>(rng, n)).map(|s| srs_get(&s))
                }
                fn prove(&self, srs: &Srs, pfs: &[[i64; 3]]) -> Out<GProof> {
                    let srs = srs_put(srs);
                    let pfs: Vec<_> = pfs
                        .iter()
                        .map(|x| ark_groth16::Proof::<E> {
                            a: G1::put(x[0]).into_affine(),
                            b: G2::put(x[1]).into_affine(),
                            c: G1::put(x[2]).into_affine(),
                        })
                        .collect();
                    guard(|| agg::aggregate_proofs::<E, RO>(&srs, &pfs)).map(|p| {
                        let (com, aggc, ab, c) = p.verif_parts();
                        let o = GProof {
                            com: [com[0].get(), com[1].get(), com[2].get(), com[3].get()],
                            aggc: aggc.get(),
                            ab: ab_dec(ab),
                            c: top_dec(c),
                        };
                        *self.0.borrow_mut() = Some(p);
                        o
                    })
                }
                fn verify(&self, vk: &Vk, gvk: &Gvk, inputs: &[Ints], proof: &GProof, stored: bool) -> Out<bool> {
                    let made = agg::AggregateProof::verif_from_parts(
                        [
                            Gt::put(proof.com[0]),
                            Gt::put(proof.com[1]),
                            Gt::put(proof.com[2]),
                            Gt::put(proof.com[3]),
                        ],
                        G1::put(proof.aggc),
                        ab_enc(&proof.ab),
                        top_enc(&proof.c),
                    );
                    let g = self.0.borrow();
                    let p = if stored { g.as_ref().unwrap() } else { &made };
                    let vk = vk_put(vk);
                    let gvk = ark_groth16::VerifyingKey::<E> {
                        alpha_g1: G1::put(gvk.alpha).into_affine(),
                        beta_g2: G2::put(gvk.beta).into_affine(),
                        gamma_g2: G2::put(gvk.gamma).into_affine(),
                        delta_g2: G2::put(gvk.delta).into_affine(),
                        gamma_abc_g1: aff1(&gvk.abc),
                    };
                    let inputs: Vec<Vec<Fr>> = inputs.iter().map(|x| puts(x)).collect();
                    guard(|| agg::verify_aggregate_proof::<E, RO>(&vk, &gvk, &inputs, p))
                }
            }

            pub struct Pure;
            macro_rules! with_scheme {
                ($kind:expr, $C:ident, $body:expr) => {
                    match $kind {
                        "ag1" => {
                            type $C = AG1;
                            $body
                        }
                        "ag2" => {
                            type $C = AG2;
                            $body
                        }
                        "ped1" => {
                            type $C = P1;
                            $body
                        }
                        "ped2" => {
                            type $C = P2;
                            $body
                        }
                        "idf" => {
                            type $C = IdF;
                            $body
                        }
                        "id1" => {
                            type $C = Id1;
                            $body
                        }
                        "idt" => {
                            type $C = IdT;
                            $body
                        }
                        "ssm" => {
                            type $C = SSMPlaceholderCommitment<Fr>;
                            $body
                        }
                        k => panic!("scheme {k}"),
                    }
                };
            }
            impl PureApi for Pure {
                fn ip(&self, kind: &str, a: &[i64], b: &[i64]) -> Out<i64> {
                    match kind {
                        "pair" => {
                            let (a, b) = (puts(a), puts(b));
                            guard(|| Pair::inner_product(&a, &b)).map(|x| x.get())
                        }
                        "cmp" => {
                            let (a, b): (Vec<G1>, Vec<G2>) = (puts(a), puts(b));
                            guard(|| cfg_multi_pairing::<E>(&a, &b).ok_or(())).map(|x| x.get())
                        }
                        "mexp1" => {
                            let (a, b) = (puts(a), puts(b));
                            guard(|| Mexp1::inner_product(&a, &b)).map(|x| x.get())
                        }
                        "mexp2" => {
                            let (a, b) = (puts(a), puts(b));
                            guard(|| Mexp2::inner_product(&a, &b)).map(|x| x.get())
                        }
                        "scal" => {
                            let (a, b) = (puts(a), puts(b));
                            guard(|| Scal::inner_product(&a, &b)).map(|x| x.get())
                        }
                        k => panic!("ip {k}"),
                    }
                }
                fn csetup(&self, kind: &str, rng: &mut R, n: usize) -> Out<Ints> {
                    with_scheme!(kind, C, guard(|| <C as Dhc>::setup(rng, n)).map(|v| gets(&v)))
                }
                fn commit(&self, kind: &str, k: &[i64], m: &[i64]) -> Out<i64> {
                    with_scheme!(kind, C, {
                        let (k, m): (Vec<<C as Dhc>::Key>, Vec<<C as Dhc>::Message>) = (puts(k), puts(m));
                        guard(|| C::commit(&k, &m)).map(|x| x.get())
                    })
                }
                fn cverify(&self, kind: &str, k: &[i64], m: &[i64], com: i64) -> Out<bool> {
                    with_scheme!(kind, C, {
                        let (k, m): (Vec<<C as Dhc>::Key>, Vec<<C as Dhc>::Message>) = (puts(k), puts(m));
                        let com = <C as Dhc>::Output::put(com);
                        guard(|| C::verify(&k, &m, &com))
                    })
                }
                fn out_ops(&self, kind: &str, x: i64, y: i64, s: i64) -> Out<(i64, i64)> {
                    with_scheme!(kind, C, {
                        guard1(|| {
                            let a = <C as Dhc>::Output::put(x);
                            let b = <C as Dhc>::Output::put(y);
                            let sum = (a.clone() + b).get();
                            let mut a = a;
                            a *= Fr::put(s);
                            (sum, a.get())
                        })
                    })
                }
                fn id_list(&self, kind: &str, m: &[i64], other: &[i64], x: &[i64], y: &[i64], s: i64) -> Out<(Ints, bool, Ints, Ints)> {
                    macro_rules! go {
                        ($t:ty) => {{
                            let k = [HomomorphicPlaceholderValue];
                            let m: Vec<$t> = puts(m);
                            let out = |v: &[i64]| IdentityOutput::<$t>(puts(v));
                            guard(|| -> Result<(Ints, bool, Ints, Ints), Error> {
                                type C = IdentityCommitment<$t, Fr>;
                                let com = C::commit(&k, &m)?;
                                let v = C::verify(&k, &m, &out(other))?;
                                let sum = out(x) + out(y);
                                let mut scaled = out(x);
                                scaled *= E::fr(s as u64);
                                Ok((gets(&com.0), v, gets(&sum.0), gets(&scaled.0)))
                            })
                        }};
                    }
                    match kind {
                        "idf" => go!(Fr),
                        "id1" => go!(G1),
                        _ => go!(PairingOutput<E>),
                    }
                }
                fn spowers(&self, kind: &str, n: usize, g: i64, s: i64) -> Out<Ints> {
                    match kind {
                        "g1" => guard1(|| {
                            gets(&structured_generators_scalar_power(n, &G1::put(g), &Fr::put(s)))
                        }),
                        "g2" => guard1(|| {
                            gets(&structured_generators_scalar_power(n, &G2::put(g), &Fr::put(s)))
                        }),
                        _ => guard1(|| gets(&structured_scalar_power(n, &Fr::put(s)))),
                    }
                }
                fn srs_keys(&self, s: &Srs) -> Out<(Ints, Ints, Vk)> {
                    let s: SRS<E> = srs_put(s);
                    guard1(|| {
                        let (a, b) = s.get_commitment_keys();
                        (gets(&a), gets(&b), vk_get(&s.get_verifier_key()))
                    })
                }
                fn ckopen(&self, kind: &str, powers: &[i64], ts: &[i64], r: i64, z: i64) -> Out<i64> {
                    let ts: Vec<Fr> = puts(ts);
                    if kind == "g1" {
                        let k: Vec<G1> = puts(powers);
                        guard(|| prove_commitment_key_kzg_opening(&k, &ts, &Fr::put(r), &Fr::put(z)))
                            .map(|x| x.get())
                    } else {
                        let k: Vec<G2> = puts(powers);
                        guard(|| prove_commitment_key_kzg_opening(&k, &ts, &Fr::put(r), &Fr::put(z)))
                            .map(|x| x.get())
                    }
                }
                fn ckverify(&self, kind: &str, vk: &Vk, fk: i64, pi: i64, ts: &[i64], r: i64, z: i64) -> Out<bool> {
                    let (vk, ts, r, z): (VerifierSRS<E>, Vec<Fr>, _, _) = (vk_put(vk), puts(ts), Fr::put(r), Fr::put(z));
                    if kind == "g1" {
                        guard(|| {
                            verify_commitment_key_g1_kzg_opening(&vk, &G1::put(fk), &G1::put(pi), &ts, &r, &z)
                        })
                    } else {
                        guard(|| {
                            verify_commitment_key_g2_kzg_opening(&vk, &G2::put(fk), &G2::put(pi), &ts, &r, &z)
                        })
                    }
                }
                fn kzg_setup(&self, rng: &mut R, d: usize) -> Out<(Ints, Vk)> {
                    guard(|| tpc::KZG::<E>::setup(rng, d)).map(|(p, v)| (dl_aff1(&p), vk_get(&v)))
                }
                fn kzg_commit(&self, powers: &[i64], f: &[i64]) -> Out<i64> {
                    let (k, f) = (aff1(powers), dense(f));
                    guard(|| tpc::KZG::<E>::commit(&k, &f)).map(|x| x.get())
                }
                fn kzg_open(&self, powers: &[i64], f: &[i64], z: i64) -> Out<i64> {
                    let (k, f) = (aff1(powers), dense(f));
                    guard(|| tpc::KZG::<E>::open(&k, &f, &Fr::put(z))).map(|x| x.get())
                }
                fn kzg_verify(&self, vk: &Vk, com: i64, z: i64, v: i64, pi: i64) -> Out<bool> {
                    let vk = vk_put(vk);
                    guard(|| {
                        tpc::KZG::<E>::verify(&vk, &G1::put(com), &Fr::put(z), &Fr::put(v), &G1::put(pi))
                    })
                }
                fn sipp_prod(&self, a: &[i64], b: &[i64], r: Option<&[i64]>) -> Out<i64> {
                    let (a, b) = (aff1(a), aff2(b));
                    match r {
                        None => guard1(|| ark_sipp::product_of_pairings::<E>(&a, &b).get()),
                        Some(r) => {
                            let r: Vec<Fr> = puts(r);
                            guard1(|| ark_sipp::product_of_pairings_with_coeffs::<E>(&a, &b, &r).get())
                        }
                    }
                }
                fn sipp_prove(&self, a: &[i64], b: &[i64], r: &[i64], v: i64) -> Out<Vec<[i64; 2]>> {
                    let (a, b, r, v) = (aff1(a), aff2(b), puts::<Fr>(r), Gt::put(v));
                    guard(|| SIPP::<E, RO>::prove(&a, &b, &r, v))
                        .map(|p| p.verif_parts().iter().map(|(x, y)| [x.get(), y.get()]).collect())
                }
                fn sipp_verify(&self, a: &[i64], b: &[i64], r: &[i64], v: i64, p: &[[i64; 2]]) -> Out<bool> {
                    let (a, b, r, v) = (aff1(a), aff2(b), puts::<Fr>(r), Gt::put(v));
                    let p = ark_sipp::Proof::<E>::verif_from_parts(
                        p.iter().map(|x| (Gt::put(x[0]), Gt::put(x[1]))).collect(),
                    );
                    guard(|| SIPP::<E, RO>::verify(&a, &b, &r, v, &p))
                }
            }

            pub struct C;
            impl Curve for C {
                fn p(&self) -> i64 {
                    E::P as i64
                }
                fn z_of(&self) -> fn(&[u8]) -> i64 {
                    |d| <Fr as ark_ff::Field>::from_random_bytes(d).map_or(-1, |x| x.get())
                }
                fn arg(&self, op: &str, kind: &str) -> Box<dyn ArgApi> {
                    match (op, kind) {
                        ("gipa", "pair") => Box::<GipaPair>::default(),
                        ("gipa", "mexp") => Box::<GipaMexp>::default(),
                        ("gipa", "mexp2") => Box::<GipaMexp2>::default(),
                        ("gipa", "scalar") => Box::<GipaScalar>::default(),
                        ("gipa", "scalarp") => Box::<GipaScalarP>::default(),
                        ("tipa", "pair") => Box::<TipaPair>::default(),
                        ("tipa", "mexp") => Box::<TipaMexp>::default(),
                        ("tipa", "scalar") => Box::<TipaScalar>::default(),
                        ("tipa", "scalarp") => Box::<TipaScalarP>::default(),
                        ("ssm", "mexp") => Box::<SsmMexp>::default(),
                        ("ssm", "scalar") => Box::<SsmScalar>::default(),
                        ("ssm", "scalarp") => Box::<SsmScalarP>::default(),
                        ("tssm", "mexp") => Box::<TssmMexp>::default(),
                        ("tssm", "scalar") => Box::<TssmScalar>::default(),
                        k => panic!("kind {k:?}"),
                    }
                }
                fn poly(&self, op: &str) -> Box<dyn PolyApi> {
                    match op {
                        "tpc" => Box::<Trusted>::default(),
                        _ => Box::<Transparent>::default(),
                    }
                }
                fn agg(&self) -> Box<dyn AggApi> {
                    Box::<Agg>::default()
                }
                fn pure(&self) -> Box<dyn PureApi> {
                    Box::new(Pure)
                }
            }
            #[allow(dead_code)]
            fn unused(_: HomomorphicPlaceholderValue) -> Fr {
                Fr::one()
            }
        }
    };
}
curve!(e7, c7);
curve!(e46337, c46337);

pub fn curve(p: i64) -> Box<dyn Curve> {
    match p {
        7 => Box::new(c7::C),
        46337 => Box::new(c46337::C),
        _ => panic!("no curve of order {p}"),
    }
}
pub fn rng_of(seed: u64, id: u64) -> R {
    ChaCha8Rng::seed_from_u64(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ id)
}
pub fn below(rng: &mut R, p: i64) -> i64 {
    (rng.next_u64() % p as u64) as i64
}
