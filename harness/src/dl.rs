//! Projection between the library's types and the specification's integers (discrete
//! logarithms modulo P).  Negative numbers stand for values that are no group element.
use crate::toy::*;
use ark_dh_commitments::identity::{HomomorphicPlaceholderValue, IdentityOutput};
use ark_ec::pairing::PairingOutput;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};

pub trait Dl: Sized {
    fn get(&self) -> i64;
    fn put(v: i64) -> Self;
}
macro_rules! dl_curve {
    ($m:ident) => {
        impl Dl for $m::Fr {
            fn get(&self) -> i64 {
                <$m::E as Toy>::fe(self) as i64
            }
            fn put(v: i64) -> Self {
                <$m::E as Toy>::fr(v.max(0) as u64)
            }
        }
        impl Dl for $m::G1 {
            fn get(&self) -> i64 {
                <$m::E as Toy>::dl1(self) as i64
            }
            fn put(v: i64) -> Self {
                <$m::E as Toy>::g1(v.max(0) as u64)
            }
        }
        impl Dl for $m::G2 {
            fn get(&self) -> i64 {
                <$m::E as Toy>::dl2(self) as i64
            }
            fn put(v: i64) -> Self {
                <$m::E as Toy>::g2(v.max(0) as u64)
            }
        }
        impl Dl for PairingOutput<$m::E> {
            fn get(&self) -> i64 {
                <$m::E as Toy>::dlt(self).map_or(-2, |x| x as i64)
            }
            fn put(v: i64) -> Self {
                <$m::E as Toy>::gt(v.max(0) as u64)
            }
        }
    };
}
dl_curve!(e7);
dl_curve!(e46337);

impl Dl for HomomorphicPlaceholderValue {
    fn get(&self) -> i64 {
        1
    }
    fn put(_: i64) -> Self {
        HomomorphicPlaceholderValue
    }
}
/// -1: no element at all; -2: outside the group; -(10 + v): v followed by a surplus element
impl<T: Dl + CanonicalSerialize + CanonicalDeserialize + Clone + Default + Eq> Dl for IdentityOutput<T> {
    fn get(&self) -> i64 {
        match self.0.len() {
            0 => -1,
            1 => self.0[0].get(),
            _ => -10 - self.0[0].get(),
        }
    }
    fn put(v: i64) -> Self {
        IdentityOutput(if v >= 0 {
            vec![T::put(v)]
        } else if v > -10 {
            vec![]
        } else {
            vec![T::put(-10 - v), T::put(1)]
        })
    }
}
pub fn gets<T: Dl>(v: &[T]) -> Vec<i64> {
    v.iter().map(Dl::get).collect()
}
pub fn puts<T: Dl>(v: &[i64]) -> Vec<T> {
    v.iter().map(|x| T::put(*x)).collect()
}
