//! Toy bilinear groups of small prime order P, in which every discrete logarithm is
//! known: G1 and G2 are short-Weierstrass curves of order P (arkworks' own curve
//! code), GT is the order-P subgroup of the norm-1 subgroup of F_{l^2}, and the
//! pairing is e(aG, bH) = T^(ab).  The specification works on discrete logarithms.
use ark_ec::{
    models::short_weierstrass::{Affine, Projective, SWCurveConfig},
    pairing::{MillerLoopOutput, Pairing, PairingOutput},
    AffineRepr, CurveConfig, CurveGroup, Group,
};
use crate::wide;
use ark_ff::fields::*;
use ark_serialize::*;
use ark_std::Zero;
use std::collections::HashMap;
use std::hash::Hash;
use std::sync::OnceLock;

/// A pairing whose discrete logarithms can be read off.
pub trait Toy: Pairing {
    const P: u64;
    const NAME: &'static str;
    fn fr(x: u64) -> Self::ScalarField {
        Self::ScalarField::from(x)
    }
    fn dl1(x: &Self::G1) -> u64;
    fn dl2(x: &Self::G2) -> u64;
    /// None: the value is not an element of the order-P subgroup
    fn dlt(x: &PairingOutput<Self>) -> Option<u64>;
    fn g1(x: u64) -> Self::G1 {
        Self::G1::generator().mul_bigint([x])
    }
    fn g2(x: u64) -> Self::G2 {
        Self::G2::generator().mul_bigint([x])
    }
    fn gt(x: u64) -> PairingOutput<Self>;
    fn fe(x: &Self::ScalarField) -> u64 {
        let mut v = 0;
        for limb in x.into_bigint().as_ref().iter().rev() {
            v = (((v as u128) << 64 | *limb as u128) % Self::P as u128) as u64;
        }
        v
    }
}

/// all multiples of a generator, and their logarithms by coordinates
pub struct Table<G> {
    pub elems: Vec<G>,
    logs: Vec<Vec<(u64, u64)>>,
}
/// the point at infinity has no coordinates; it is filed behind all others
type Coords = Option<(u64, u64)>;
impl<G: Clone> Table<G> {
    fn new(p: u64, q: u64, zero: G, step: impl Fn(&G) -> G, key: impl Fn(&G) -> Coords) -> Self {
        let mut t = Table { elems: vec![], logs: vec![vec![]; q as usize + 1] };
        let mut cur = zero;
        for i in 0..p {
            let (x, y) = key(&cur).unwrap_or((q, 0));
            assert!(t.logs[x as usize].iter().all(|e| e.0 != y));
            t.logs[x as usize].push((y, i));
            t.elems.push(cur.clone());
            cur = step(&cur);
        }
        t
    }
    fn log(&self, c: Coords) -> Option<u64> {
        let (x, y) = c.unwrap_or((self.logs.len() as u64 - 1, 0));
        self.logs[x as usize].iter().find(|e| e.0 == y).map(|e| e.1)
    }
}
fn reduced(limbs: &[u64], p: u64) -> u64 {
    limbs.iter().rev().fold(0, |r, l| (((r as u128) << 64 | *l as u128) % p as u128) as u64)
}

macro_rules! toy {
    ($m:ident,
     $p:literal, $pg:literal, $pn:literal, $pf:literal, $ps:literal,
     $q1:literal, $q1g:literal, $q1n:literal, $q1f:literal, $q1s:literal, $a1:literal, $b1:literal, $x1:literal, $y1:literal,
     $q2:literal, $q2g:literal, $q2n:literal, $q2f:literal, $q2s:literal, $a2:literal, $b2:literal, $x2:literal, $y2:literal,
     $l:literal, $lg:literal, $ln:literal, $lf:literal, $ls:literal, $t0:literal, $t1:literal) => {
        pub mod $m {
            use super::*;
            use super::wide::elem;
            pub struct FrLooks;
            impl wide::Looks for FrLooks { const Q: u64 = $p; const G: u64 = $pg; const F: u64 = $pf; const S: usize = $ps; }
            pub type Fr = wide::F<FrLooks, $pn>;
            pub struct Fq1Looks;
            impl wide::Looks for Fq1Looks { const Q: u64 = $q1; const G: u64 = $q1g; const F: u64 = $q1f; const S: usize = $q1s; }
            pub type Fq1 = wide::F<Fq1Looks, $q1n>;
            pub struct Fq2Looks;
            impl wide::Looks for Fq2Looks { const Q: u64 = $q2; const G: u64 = $q2g; const F: u64 = $q2f; const S: usize = $q2s; }
            pub type Fq2 = wide::F<Fq2Looks, $q2n>;
            pub struct FlLooks;
            impl wide::Looks for FlLooks { const Q: u64 = $l; const G: u64 = $lg; const F: u64 = $lf; const S: usize = $ls; }
            pub type Fl = wide::F<FlLooks, $ln>;

            #[derive(Clone, Default, PartialEq, Eq)]
            pub struct G1Config;
            impl CurveConfig for G1Config {
                type BaseField = Fq1;
                type ScalarField = Fr;
                const COFACTOR: &'static [u64] = &[1];
                const COFACTOR_INV: Fr = Fr::ONE;
            }
            impl SWCurveConfig for G1Config {
                // by table
                fn mul_projective(base: &G1, scalar: &[u64]) -> G1 { Self::mul_affine(&base.into_affine(), scalar) }
                fn mul_affine(base: &Affine<Self>, scalar: &[u64]) -> G1 {
                    t1().elems[(d1(base) * reduced(scalar, $p) % $p) as usize].into()
                }
                fn msm(bases: &[Affine<Self>], scalars: &[Fr]) -> Result<G1, usize> {
                    if bases.len() != scalars.len() { return Err(bases.len().min(scalars.len())); }
                    let s = bases.iter().zip(scalars).fold(0, |s, (b, x)| (s + d1(b) * wide::val(x)) % $p);
                    Ok(t1().elems[s as usize].into())
                }
                const COEFF_A: Fq1 = elem($a1);
                const COEFF_B: Fq1 = elem($b1);
                const GENERATOR: Affine<Self> = Affine::new_unchecked(elem($x1), elem($y1));
                // the whole curve has order P
                fn is_in_correct_subgroup_assuming_on_curve(_: &Affine<Self>) -> bool { true }
            }
            #[derive(Clone, Default, PartialEq, Eq)]
            pub struct G2Config;
            impl CurveConfig for G2Config {
                type BaseField = Fq2;
                type ScalarField = Fr;
                const COFACTOR: &'static [u64] = &[1];
                const COFACTOR_INV: Fr = Fr::ONE;
            }
            impl SWCurveConfig for G2Config {
                // by table
                fn mul_projective(base: &G2, scalar: &[u64]) -> G2 { Self::mul_affine(&base.into_affine(), scalar) }
                fn mul_affine(base: &Affine<Self>, scalar: &[u64]) -> G2 {
                    t2().elems[(d2(base) * reduced(scalar, $p) % $p) as usize].into()
                }
                fn msm(bases: &[Affine<Self>], scalars: &[Fr]) -> Result<G2, usize> {
                    if bases.len() != scalars.len() { return Err(bases.len().min(scalars.len())); }
                    let s = bases.iter().zip(scalars).fold(0, |s, (b, x)| (s + d2(b) * wide::val(x)) % $p);
                    Ok(t2().elems[s as usize].into())
                }
                const COEFF_A: Fq2 = elem($a2);
                const COEFF_B: Fq2 = elem($b2);
                const GENERATOR: Affine<Self> = Affine::new_unchecked(elem($x2), elem($y2));
                // the whole curve has order P
                fn is_in_correct_subgroup_assuming_on_curve(_: &Affine<Self>) -> bool { true }
            }
            pub type G1 = Projective<G1Config>;
            pub type G2 = Projective<G2Config>;
            pub struct GtConfig;
            impl Fp2Config for GtConfig {
                type Fp = Fl;
                const NONRESIDUE: Fl = elem($l - 1);
                const FROBENIUS_COEFF_FP2_C1: &'static [Fl] = &[Fl::ONE, elem($l - 1)];
            }
            pub type Ft = ark_ff::Fp2<GtConfig>;
            const T: Ft = Ft::new(elem($t0), elem($t1));

            #[derive(Clone, Default, Debug, CanonicalSerialize, CanonicalDeserialize)]
            pub struct Prep1(pub Affine<G1Config>);
            #[derive(Clone, Default, Debug, CanonicalSerialize, CanonicalDeserialize)]
            pub struct Prep2(pub Affine<G2Config>);
            impl From<G1> for Prep1 { fn from(x: G1) -> Self { Prep1(x.into_affine()) } }
            impl<'a> From<&'a G1> for Prep1 { fn from(x: &'a G1) -> Self { Prep1(x.into_affine()) } }
            impl From<Affine<G1Config>> for Prep1 { fn from(x: Affine<G1Config>) -> Self { Prep1(x) } }
            impl<'a> From<&'a Affine<G1Config>> for Prep1 { fn from(x: &'a Affine<G1Config>) -> Self { Prep1(*x) } }
            impl From<G2> for Prep2 { fn from(x: G2) -> Self { Prep2(x.into_affine()) } }
            impl<'a> From<&'a G2> for Prep2 { fn from(x: &'a G2) -> Self { Prep2(x.into_affine()) } }
            impl From<Affine<G2Config>> for Prep2 { fn from(x: Affine<G2Config>) -> Self { Prep2(x) } }
            impl<'a> From<&'a Affine<G2Config>> for Prep2 { fn from(x: &'a Affine<G2Config>) -> Self { Prep2(*x) } }

            static T1: OnceLock<Table<Affine<G1Config>>> = OnceLock::new();
            fn at1(a: &Affine<G1Config>) -> Coords { if a.infinity { None } else { Some((wide::val(&a.x), wide::val(&a.y))) } }
            fn t1() -> &'static Table<Affine<G1Config>> {
                T1.get_or_init(|| Table::new($p, $q1, Affine::identity(), |g| (*g + G1Config::GENERATOR).into_affine(), at1))
            }
            fn d1(a: &Affine<G1Config>) -> u64 { t1().log(at1(a)).expect("point of the curve") }
            static T2: OnceLock<Table<Affine<G2Config>>> = OnceLock::new();
            fn at2(a: &Affine<G2Config>) -> Coords { if a.infinity { None } else { Some((wide::val(&a.x), wide::val(&a.y))) } }
            fn t2() -> &'static Table<Affine<G2Config>> {
                T2.get_or_init(|| Table::new($p, $q2, Affine::identity(), |g| (*g + G2Config::GENERATOR).into_affine(), at2))
            }
            fn d2(a: &Affine<G2Config>) -> u64 { t2().log(at2(a)).expect("point of the curve") }
            static TT: OnceLock<Table<Ft>> = OnceLock::new();
            fn att(a: &Ft) -> Coords { Some((wide::val(&a.c0), wide::val(&a.c1))) }
            fn tt() -> &'static Table<Ft> { TT.get_or_init(|| Table::new($p, $l, Ft::ONE, |g| *g * T, att)) }

            #[derive(Copy, Clone, Debug, PartialEq, Eq)]
            pub struct E;
            impl Pairing for E {
                type BaseField = Fq1;
                type ScalarField = Fr;
                type G1 = G1;
                type G1Affine = Affine<G1Config>;
                type G1Prepared = Prep1;
                type G2 = G2;
                type G2Affine = Affine<G2Config>;
                type G2Prepared = Prep2;
                type TargetField = Ft;
                fn multi_miller_loop(
                    a: impl IntoIterator<Item = impl Into<Prep1>>,
                    b: impl IntoIterator<Item = impl Into<Prep2>>,
                ) -> MillerLoopOutput<Self> {
                    // like the real engines: pairs up to the shorter side
                    let mut s = 0;
                    for (x, y) in a.into_iter().zip(b) {
                        let (x, y): (Prep1, Prep2) = (x.into(), y.into());
                        s = (s + d1(&x.0) * d2(&y.0)) % $p;
                    }
                    MillerLoopOutput(tt().elems[s as usize])
                }
                fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
                    if m.0.is_zero() { None } else { Some(PairingOutput(m.0)) }
                }
            }
            impl Toy for E {
                const P: u64 = $p;
                const NAME: &'static str = stringify!($m);
                fn dl1(x: &G1) -> u64 { d1(&x.into_affine()) }
                fn dl2(x: &G2) -> u64 { d2(&x.into_affine()) }
                fn dlt(x: &PairingOutput<Self>) -> Option<u64> { tt().log(att(&x.0)) }
                fn gt(x: u64) -> PairingOutput<Self> { PairingOutput(tt().elems[(x % $p) as usize]) }
            }
        }
    };
}

toy!(e7, 7, 3, 1, 0, 0,
    11, 2, 1, 0, 0, 2, 7, 6, 2,
    13, 2, 1, 0, 0, 0, 6, 2, 1,
    83, 2, 1, 0, 0, 70, 9);
// encodings as long as those of BLS12-381: scalars 32 bytes, G1 48 or 96, G2 96 or 192, GT 576
toy!(e46337, 46337, 3, 4, 29, 218,
    46649, 15, 6, 1, 348, 40031, 23765, 0, 22317,
    46301, 2, 12, 1, 730, 4972, 7153, 0, 16170,
    556043, 2, 36, 1, 2260, 435766, 441783);

/// builds the tables of discrete logarithms
pub fn warm(p: i64) {
    fn tables<E: Toy>() {
        E::dl1(&E::g1(1));
        E::dl2(&E::g2(1));
        E::dlt(&E::gt(1));
    }
    if p == 7 {
        tables::<e7::E>()
    } else {
        tables::<e46337::E>()
    }
}
