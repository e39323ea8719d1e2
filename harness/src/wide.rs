//! Prime fields of small order Q with the looks of large ones: the canonical integer of an
//! element is as long as in a pairing-friendly curve, and all of it that distinguishes elements
//! is in the most significant limb (even elements, other limbs zero) or in the least significant
//! one (odd elements).  Code which handles only a part of an element, or only the beginning
//! of a list of them, cannot tell elements apart here, as it could not in a large field for
//! elements chosen by an adversary.
//!
//! Every integer below the announced modulus, a multiple of Q, stands for its residue modulo Q.
use ark_ff::{BigInt, Fp, FpConfig, SqrtPrecomputation};
use std::marker::PhantomData;

/// order, a generator, and how the announced modulus Q + 2Q(Q-1)*F*2^S is built
/// (F = 0: the field looks like what it is)
pub trait Looks: Send + Sync + Sized + 'static {
    const Q: u64;
    const G: u64;
    const F: u64 = 0;
    const S: usize = 0;
    const TWOS: u32 = (Self::Q - 1).trailing_zeros();
    const TRACE: u64 = (Self::Q - 1) >> Self::TWOS;
    const HALF_TRACE: &'static [u64] = &[(Self::TRACE - 1) / 2];
}
pub struct Wide<T>(PhantomData<T>);
pub type F<T, const N: usize> = Fp<Wide<T>, N>;

/// the used part of the top limb
const UP: usize = 36;

pub const fn pow(q: u64, mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % q;
        }
        b = b * b % q;
        e >>= 1;
    }
    r
}
const fn modulus<const N: usize>(q: u64, f: u64, s: usize) -> BigInt<N> {
    let mut v = [0u64; N];
    v[0] = q;
    if f > 0 {
        // congruent to q modulo 2(q-1), so that Legendre symbols come out right
        let w = 2 * (q as u128) * (q as u128 - 1) * f as u128;
        let (i, r) = (s / 64, s % 64);
        v[i] += (w << r) as u64;
        if i + 1 < N {
            v[i + 1] = (w >> (64 - r)) as u64;
        }
    }
    BigInt(v)
}
pub const fn elem<T: Looks, const N: usize>(x: u64) -> F<T, N> {
    let mut v = [0; N];
    v[0] = x;
    Fp(BigInt(v), PhantomData)
}
/// the residue
pub fn val<T: Looks, const N: usize>(x: &F<T, N>) -> u64 {
    let v = &x.0 .0;
    if v[1..] == [0; N][1..] {
        v[0] % T::Q
    } else {
        v.iter().rev().fold(0, |r, l| (((r as u128) << 64 | *l as u128) % T::Q as u128) as u64)
    }
}
impl<T: Looks, const N: usize> FpConfig<N> for Wide<T> {
    const MODULUS: BigInt<N> = modulus(T::Q, T::F, T::S);
    const GENERATOR: F<T, N> = elem(T::G);
    const ZERO: F<T, N> = elem(0);
    const ONE: F<T, N> = elem(1);
    const TWO_ADICITY: u32 = T::TWOS;
    const TWO_ADIC_ROOT_OF_UNITY: F<T, N> = elem(pow(T::Q, T::G, T::TRACE));
    const SQRT_PRECOMP: Option<SqrtPrecomputation<F<T, N>>> = Some(SqrtPrecomputation::TonelliShanks {
        two_adicity: T::TWOS,
        quadratic_nonresidue_to_trace: elem(pow(T::Q, T::G, T::TRACE)),
        trace_of_modulus_minus_one_div_two: T::HALF_TRACE,
    });
    fn add_assign(a: &mut F<T, N>, b: &F<T, N>) {
        *a = elem((val(a) + val(b)) % T::Q)
    }
    fn sub_assign(a: &mut F<T, N>, b: &F<T, N>) {
        *a = elem((val(a) + T::Q - val(b)) % T::Q)
    }
    fn double_in_place(a: &mut F<T, N>) {
        *a = elem(2 * val(a) % T::Q)
    }
    fn neg_in_place(a: &mut F<T, N>) {
        *a = elem((T::Q - val(a)) % T::Q)
    }
    fn mul_assign(a: &mut F<T, N>, b: &F<T, N>) {
        *a = elem(val(a) * val(b) % T::Q)
    }
    fn sum_of_products<const M: usize>(a: &[F<T, N>; M], b: &[F<T, N>; M]) -> F<T, N> {
        elem(a.iter().zip(b).fold(0, |s, (x, y)| (s + val(x) * val(y)) % T::Q))
    }
    fn square_in_place(a: &mut F<T, N>) {
        let x = val(a);
        *a = elem(x * x % T::Q)
    }
    fn inverse(a: &F<T, N>) -> Option<F<T, N>> {
        match val(a) {
            0 => None,
            x => Some(elem(pow(T::Q, x, T::Q - 2))),
        }
    }
    fn from_bigint(v: BigInt<N>) -> Option<F<T, N>> {
        if v < Self::MODULUS {
            Some(elem(val::<T, N>(&Fp(v, PhantomData))))
        } else {
            None
        }
    }
    fn into_bigint(x: F<T, N>) -> BigInt<N> {
        let x = val(&x);
        let mut v = [0; N];
        if T::F == 0 || x % 2 == 1 || x == 0 {
            v[0] = x;
        } else {
            let unit = pow(T::Q, 2, (64 * (N - 1) + UP) as u64);
            v[N - 1] = (x * pow(T::Q, unit, T::Q - 2) % T::Q) << UP;
        }
        BigInt(v)
    }
}
