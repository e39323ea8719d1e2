//! A recorded, scriptable random oracle behind the `digest::Digest` interface.
//! Equal inputs get equal answers; a new input gets the next scripted answer, or a
//! pseudo-random one.  Every distinct input of a session has a number, in the order of
//! first appearance; per library call the distinct numbers asked are recorded in order.
use crate::api::Out;
use crate::fld::Fld;
use ark_ff::UniformRand;
use std::io::{Read, Write};
use ark_std::rand::{RngCore, SeedableRng};
use digest::{
    generic_array::{typenum::U32, GenericArray},
    BlockInput, FixedOutput, Reset, Update,
};
use rand_chacha::{ChaChaRng, ChaCha8Rng};
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::sync::Mutex;

/// what a scripted answer should decode to
#[derive(Clone, Copy, Default)]
pub struct Ans {
    pub c: Option<u64>,
    /// Some(-1): bytes that encode no scalar
    pub z: Option<i64>,
}

#[derive(Clone, Copy, Debug)]
pub struct Known {
    pub c: i64,
    pub z: i64,
    pub x: i64,
}

pub struct State {
    p: u64,
    z_of: fn(&[u8]) -> i64,
    seen: HashMap<Vec<u8>, (usize, [u8; 32])>,
    rng: ChaCha8Rng,
    script: VecDeque<[u8; 32]>,
    /// answers before the script is looked at: every new input is first refused (c = 0,
    /// no scalar) this often
    pub retries: u32,
    /// how often the first new input of a call is refused
    pub first_retries: u32,
    first: bool,
    /// avoid z in {0, 1}
    pub avoid01: bool,
    pub avoid_x0: bool,
    /// all challenges equal to this
    pub always_c: Option<u64>,
    refused: u32,
    asked: Vec<usize>,
    calls: usize,
    /// inputs in the order they were asked
    journal: Vec<Vec<u8>>,
}
/// Sessions run side by side in one process, each on threads of its own; a thread belongs
/// to the session of its lane.
pub const LANES: usize = 16;
static ST: [Mutex<Option<State>>; LANES] = [const { Mutex::new(None) }; LANES];
thread_local! {
    static LANE: std::cell::Cell<usize> = const { std::cell::Cell::new(LANES) };
}
/// a single session at a time: threads of unknown origin belong to it
pub static ALONE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn this_lane() -> usize {
    let l = LANE.with(|x| x.get());
    if l < LANES {
        return l;
    }
    if !ALONE.load(std::sync::atomic::Ordering::Relaxed) {
        // the code under test made threads of its own: start again with one session at a time
        std::process::exit(4);
    }
    0
}
pub fn enter_lane(lane: usize) {
    LANE.with(|x| x.set(lane))
}
/// a thread pool of this thread's lane
pub fn pool(threads: usize) -> rayon::ThreadPool {
    let lane = this_lane();
    rayon::ThreadPoolBuilder::new()
        .num_threads(threads)
        .stack_size(64 << 20)
        .start_handler(move |_| enter_lane(lane))
        .build()
        .unwrap()
}

/// one scenario at a time, each verification in a process of its own
pub static APART: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(status: i32) -> !;
}
/// a call of a verifier: leaves no trace in this process if it has to be apart from the others
pub fn verdict(f: impl FnOnce() -> Out<bool>) -> Out<bool> {
    if !APART.load(std::sync::atomic::Ordering::Relaxed) {
        return f();
    }
    let (mut r, mut w) = std::io::pipe().unwrap();
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        let (code, s) = match f() {
            Out::Ok(true) => (0u8, String::new()),
            Out::Ok(false) => (1, String::new()),
            Out::Err => (2, String::new()),
            Out::Panic(s) => (3, s),
        };
        let asked = lock().as_ref().map(|s| s.journal.clone()).unwrap_or_default();
        let text = json!([code, s, asked]).to_string();
        let _ = w.write_all(text.as_bytes());
        unsafe { _exit(0) }
    }
    drop(w);
    let mut text = String::new();
    let _ = r.read_to_string(&mut text);
    let mut status = 0;
    unsafe { waitpid(pid, &mut status, 0) };
    let Ok(v) = serde_json::from_str::<Value>(&text) else { return Out::Panic("died".into()) };
    for q in v[2].as_array().unwrap() {
        let q: Vec<u8> = q.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        if let Some(s) = lock().as_mut() {
            s.ask(&q);
        }
    }
    match v[0].as_u64() {
        Some(0) => Out::Ok(true),
        Some(1) => Out::Ok(false),
        Some(2) => Out::Err,
        _ => Out::Panic(v[1].as_str().unwrap_or("").into()),
    }
}

fn lock() -> std::sync::MutexGuard<'static, Option<State>> {
    ST[this_lane()].lock().unwrap_or_else(|e| e.into_inner())
}
pub fn c_of(d: &[u8], p: u64) -> u64 {
    let mut b = [0u8; 16];
    b.copy_from_slice(&d[..16]);
    (u128::from_be_bytes(b) % p as u128) as u64
}
pub fn x_of(d: &[u8; 32], p: u64) -> u64 {
    (u128::rand(&mut ChaChaRng::from_seed(*d)) % p as u128) as u64
}
impl State {
    fn make(&mut self, a: Ans) -> [u8; 32] {
        for _ in 0..100_000 {
            let mut d = [0u8; 32];
            self.rng.fill_bytes(&mut d);
            if let Some(z) = a.z {
                if z >= 0 {
                    // scalars are read little-endian from the low bits
                    if self.p < 256 {
                        d[..8].copy_from_slice(&(z as u64).to_le_bytes());
                    }
                } else {
                    d[16..].fill(0xff);
                }
            }
            if let Some(c) = a.c {
                // room for the low 32 bits of the big-endian 128-bit integer
                d[12..16].copy_from_slice(&[0; 4]);
                let base = c_of(&d, self.p);
                let low = ((c + self.p - base) % self.p) as u32;
                d[12..16].copy_from_slice(&low.to_be_bytes());
            }
            if let (Some(want @ 0..), true) = (a.z, self.p >= 256) {
                // room for 24 bits in the upper half
                d[26..29].fill(0);
                let (p, unit) = (Fld(self.p as i64), Fld(self.p as i64).pow(2, 208));
                let low = p.mul(p.r(want - (self.z_of)(&d)), p.inv(unit)) as u32;
                d[26..29].copy_from_slice(&low.to_le_bytes()[..3]);
            }
            let z = (self.z_of)(&d);
            if let Some(want) = a.z {
                if z != want {
                    continue;
                }
            } else if self.avoid01 && (z == 0 || z == 1) {
                continue;
            }
            if let Some(want) = a.c {
                if c_of(&d, self.p) != want {
                    continue;
                }
            }
            if self.avoid_x0 && x_of(&d, self.p) == 0 {
                continue;
            }
            return d;
        }
        panic!("oracle: no answer of the wanted form")
    }
    fn ask(&mut self, input: &[u8]) -> [u8; 32] {
        self.calls += 1;
        self.journal.push(input.to_vec());
        if self.calls > 20_000 {
            panic!("oracle: livelock, the same queries are repeated forever");
        }
        if let Some((id, d)) = self.seen.get(input) {
            let (id, d) = (*id, *d);
            if !self.asked.contains(&id) {
                self.asked.push(id);
            }
            return d;
        }
        let wanted = if self.first { self.retries + self.first_retries } else { self.retries };
        let d = if self.refused < wanted {
            self.refused += 1;
            self.make(Ans { c: Some(0), z: Some(-1) })
        } else {
            self.refused = 0;
            self.first = false;
            match self.script.pop_front() {
                Some(d) => d,
                None => self.make(Ans { c: self.always_c, z: None }),
            }
        };
        let id = self.seen.len() + 1;
        self.seen.insert(input.to_vec(), (id, d));
        self.asked.push(id);
        d
    }
}

pub fn begin_session(seed: u64, p: u64, z_of: fn(&[u8]) -> i64) {
    *lock() = Some(State {
        p,
        z_of,
        seen: HashMap::new(),
        rng: ChaCha8Rng::seed_from_u64(seed),
        script: VecDeque::new(),
        retries: 0,
        first_retries: 0,
        first: true,
        avoid01: false,
        avoid_x0: false,
        always_c: None,
        refused: 0,
        asked: vec![],
        calls: 0,
        journal: vec![],
    });
}
pub fn configure(f: impl FnOnce(&mut State)) {
    f(lock().as_mut().unwrap())
}
pub fn begin_call() {
    let mut g = lock();
    let s = g.as_mut().unwrap();
    s.asked.clear();
    s.calls = 0;
    s.refused = 0;
    s.first = true;
    s.journal.clear();
}
/// fixes the answers to the next n new inputs and tells what they decode to
pub fn predraw(n: usize) -> Vec<Known> {
    let mut g = lock();
    let s = g.as_mut().unwrap();
    s.script.clear();
    (0..n)
        .map(|_| {
            let c = s.always_c;
            let d = loop {
                let d = s.make(Ans { c, z: None });
                // usable whatever it is used for
                if c_of(&d, s.p) != 0 && (s.z_of)(&d) >= 0 {
                    break d;
                }
            };
            s.script.push_back(d);
            Known { c: c_of(&d, s.p) as i64, z: (s.z_of)(&d), x: x_of(&d, s.p) as i64 }
        })
        .collect()
}
/// what the last distinct input of the current call was answered
pub fn last_answer() -> Vec<u8> {
    let g = lock();
    let s = g.as_ref().unwrap();
    s.asked.last().and_then(|id| s.seen.values().find(|x| x.0 == *id)).map(|x| x.1.to_vec()).unwrap_or_default()
}
/// distinct queries of the current call
pub fn queries() -> Value {
    let mut g = lock();
    let s = g.as_mut().unwrap();
    s.script.clear();
    let by_id: HashMap<usize, [u8; 32]> = s.seen.values().cloned().collect();
    let v: Vec<Value> = s
        .asked
        .iter()
        .map(|id| {
            let d = by_id[id];
            json!({"id": id, "c": c_of(&d, s.p), "z": (s.z_of)(&d), "x": x_of(&d, s.p)})
        })
        .collect();
    Value::Array(v)
}

#[derive(Clone, Default)]
pub struct RO(Vec<u8>);
impl Update for RO {
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.0.extend_from_slice(data.as_ref())
    }
}
impl Reset for RO {
    fn reset(&mut self) {
        self.0.clear()
    }
}
impl BlockInput for RO {
    type BlockSize = U32;
}
impl FixedOutput for RO {
    type OutputSize = U32;
    fn finalize_into(self, out: &mut GenericArray<u8, U32>) {
        let d = lock().as_mut().expect("oracle session").ask(&self.0);
        out.copy_from_slice(&d)
    }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, U32>) {
        let d = lock().as_mut().expect("oracle session").ask(&self.0);
        out.copy_from_slice(&d);
        self.0.clear()
    }
}
