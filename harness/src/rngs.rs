//! The Fiat-Shamir generator: several generators are driven through the operation
//! sequences of the scenario; outputs are interned so that the trace only carries which
//! of them are equal.
use crate::{api::*, oracle, oracle::RO, sess::*};
use ark_sipp::rng::FiatShamirRng;
use ark_std::rand::RngCore;
use serde_json::{json, Value};
use std::collections::HashMap;

/// the seed material named by a number: several lengths, also prefixes of each other
pub fn material(k: i64) -> Vec<u8> {
    match k {
        0 => vec![],
        1 => vec![0],
        2 => vec![0, 0],
        3 => vec![1],
        4 => (0..32).collect(),
        5 => (0..31).collect(),
        6 => (0..64).collect(),
        7 => (0..200).map(|x| x as u8).collect(),
        100..=199 => long((k - 100) as usize / 10, k % 10),
        k => format!("material {k}").into_bytes(),
    }
}
/// long material, and what differs from it in one place
fn long(i: usize, variant: i64) -> Vec<u8> {
    let n = [33, 65, 129, 257, 1025, 4097, 16385, 65537, 70000, 100][i];
    let mut v: Vec<u8> = (0..n).map(|x: usize| (x ^ x >> 8) as u8).collect();
    (v[0], v[n - 1]) = (77, 33);
    match variant {
        0 => {}
        1 => v[n - 1] ^= 1,
        2 => v[0] ^= 1,
        3 => v[n / 2] ^= 0x80,
        4 => v.push(0),
        5 => v.insert(0, 0),
        6 => v.swap(0, n - 1),
        _ => v.truncate(n - 1),
    }
    v
}
/// seed material made of a digest the generator used earlier
fn spliced(o: &str, k: i64, digest: &[u8]) -> Option<(&'static str, Vec<u8>)> {
    let m = material(k);
    match o {
        "seedmd" => Some(("seed", [&m[..], digest].concat())),
        "seeddm" => Some(("seed", [digest, &m[..]].concat())),
        "seedmd0" => Some(("seed", [&m[..], digest, &[0]].concat())),
        "seedmd1" => Some(("seed", [&m[..], digest, &[1]].concat())),
        "absorbmd" => Some(("absorb", [&m[..], digest].concat())),
        "absorbdm" => Some(("absorb", [digest, &m[..]].concat())),
        _ => None,
    }
}
/// `salt`: what the buffer holds beforehand
fn drawn(r: &mut FiatShamirRng<RO>, op: &str, n: usize, salt: usize) -> Vec<u8> {
    let prefilled = || (0..n).map(|i| (salt * 41 + i * 7) as u8).collect::<Vec<u8>>();
    match op {
        "u32" => r.next_u32().to_le_bytes().to_vec(),
        "u64" => r.next_u64().to_le_bytes().to_vec(),
        "try" => {
            let mut v = prefilled();
            r.try_fill_bytes(&mut v).unwrap();
            v
        }
        _ => {
            let mut v = prefilled();
            r.fill_bytes(&mut v);
            v
        }
    }
}
pub fn run(cx: &mut Ctx) {
    let mut interned: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut splices: HashMap<Vec<u8>, i64> = HashMap::new();
    let mut salt = 0;
    let mut digest: Vec<u8> = vec![];
    for (g, seq) in ga(cx.sc, "gens").iter().enumerate() {
        let mut r: Option<FiatShamirRng<RO>> = None;
        for op in seq.as_array().unwrap() {
            let (o, k) = (gs(op, "o"), gi(op, "k"));
            let (o, k, bytes) = match spliced(o, k, &digest) {
                Some((o, bytes)) => {
                    // logged under a number of its own
                    let next = 1000 + splices.len() as i64;
                    (o, *splices.entry(bytes.clone()).or_insert(next), bytes)
                }
                None => (o, k, material(k)),
            };
            oracle::begin_call();
            let mut out = -1i64;
            let mut head: Vec<u8> = vec![];
            salt += 1;
            let res = match o {
                "seed" => guard1(|| FiatShamirRng::<RO>::from_seed(&bytes)).map(|x| {
                    r = Some(x);
                }),
                "absorb" => {
                    let r = r.as_mut().unwrap();
                    guard1(|| r.absorb(&bytes))
                }
                _ => {
                    let r = r.as_mut().unwrap();
                    guard1(|| drawn(r, o, k as usize, salt)).map(|v| {
                        head = v[..v.len().min(8)].to_vec();
                        let next = interned.len() + 1;
                        out = *interned.entry(v).or_insert(next) as i64;
                    })
                }
            };
            if o == "seed" || o == "absorb" {
                digest = oracle::last_answer();
            }
            let ids: Vec<Value> =
                oracle::queries().as_array().unwrap().iter().map(|q| q["id"].clone()).collect();
            cx.log.ev(json!({"e": "rng", "g": g + 1, "op": o, "k": k, "ids": ids, "out": out, "head": head, "res": res.name()}));
        }
    }
}
