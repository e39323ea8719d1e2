//! Arithmetic modulo P on integers, used to construct inputs (never to judge results).
#[derive(Clone, Copy)]
pub struct Fld(pub i64);
impl Fld {
    pub fn r(self, x: i64) -> i64 {
        x.rem_euclid(self.0)
    }
    pub fn mul(self, a: i64, b: i64) -> i64 {
        self.r(a * b)
    }
    pub fn pow(self, x: i64, mut e: i64) -> i64 {
        let (mut r, mut b) = (1, self.r(x));
        while e > 0 {
            if e & 1 == 1 {
                r = self.mul(r, b);
            }
            b = self.mul(b, b);
            e >>= 1;
        }
        r
    }
    pub fn inv(self, x: i64) -> i64 {
        self.pow(x, self.0 - 2)
    }
    pub fn dot(self, a: &[i64], b: &[i64]) -> i64 {
        a.iter().zip(b).fold(0, |s, (x, y)| self.r(s + x * y))
    }
    pub fn powers(self, b: i64, n: usize) -> Vec<i64> {
        let mut v = vec![1; n.min(1)];
        while v.len() < n {
            v.push(self.mul(v[v.len() - 1], b));
        }
        v
    }
    /// coefficients of a key in the folded key (ts: last round first)
    pub fn key_coefs(self, ts: &[i64]) -> Vec<i64> {
        let mut c = vec![1];
        for x in ts {
            let m: Vec<i64> = c.iter().map(|y| self.mul(*y, *x)).collect();
            c.extend(m);
        }
        c
    }
    /// prod (1 + ts_i * p^(2^i)), p = first
    pub fn prod_form(self, ts: &[i64], first: i64) -> i64 {
        let (mut v, mut p) = (1, first);
        for x in ts {
            v = self.mul(v, self.r(1 + x * p));
            p = self.mul(p, p);
        }
        v
    }
    pub fn poly_at(self, f: &[i64], x: i64) -> i64 {
        f.iter().rev().fold(0, |s, c| self.r(s * x + c))
    }
}
