//! Scenario interpreter: executes the scenarios enumerated by the specification on the
//! real code and records one event per library call.
use crate::{api::*, fld::Fld, oracle, oracle::Known};
use ark_std::rand::RngCore;
use serde_json::{json, Map, Value};

pub struct Log {
    pub out: Vec<String>,
    pub id: i64,
    pub calls: usize,
}
impl Log {
    pub fn ev(&mut self, mut v: Value) {
        v.as_object_mut().unwrap().insert("n".into(), json!(self.id));
        self.out.push(v.to_string());
        self.calls += 1;
    }
}
pub struct Ctx<'a> {
    pub c: Box<dyn Curve>,
    pub f: Fld,
    pub p: i64,
    pub rng: R,
    pub log: &'a mut Log,
    pub sc: &'a Value,
}
pub fn gs<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}
pub fn gi(v: &Value, k: &str) -> i64 {
    v.get(k).and_then(|x| x.as_i64()).unwrap_or(0)
}
pub fn ga<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v.get(k).and_then(|x| x.as_array()).map_or(&[], |x| &x[..])
}
fn merge(mut a: Value, b: Value) -> Value {
    let m: &mut Map<String, Value> = a.as_object_mut().unwrap();
    for (k, v) in b.as_object().unwrap() {
        m.insert(k.clone(), v.clone());
    }
    a
}
pub fn jp(p: &AProof) -> Value {
    json!({"steps": p.steps.iter().map(|s| s.to_vec()).collect::<Vec<_>>(), "base": p.base, "fck": p.fck, "fpi": p.fpi})
}
pub fn jsrs(s: &Srs) -> Value {
    json!({"ga": s.ga, "hb": s.hb, "gb": s.gb, "ha": s.ha})
}
pub fn jvk(s: &Vk) -> Value {
    json!({"g": s.g, "h": s.h, "gb": s.gb, "ha": s.ha})
}
fn jo(op: &str, p: &OProof) -> Value {
    if op == "tpc" {
        json!({"ip": jp(&p.ip), "yc": p.yc, "kp": p.kp})
    } else {
        json!({"ip": jp(&p.ip), "yc": p.yc, "ip1": jp(&p.ip1)})
    }
}
fn jg(p: &GProof) -> Value {
    json!({"com": p.com, "aggc": p.aggc, "ab": jp(&p.ab), "c": jp(&p.c)})
}

impl<'a> Ctx<'a> {
    pub fn rnd(&mut self) -> i64 {
        below(&mut self.rng, self.p)
    }
    pub fn nz(&mut self) -> i64 {
        loop {
            let x = self.rnd();
            if x != 0 {
                return x;
            }
        }
    }
    pub fn scalar(&mut self, pat: &str) -> i64 {
        match pat {
            "zero" => 0,
            "one" => 1,
            "two" => 2,
            "neg" => self.p - 1,
            "half" => self.f.inv(2),
            _ => self.nz(),
        }
    }
    pub fn vec(&mut self, pat: &str, n: usize) -> Ints {
        let mut v: Ints = (0..n).map(|_| self.nz()).collect();
        match pat {
            "zero" => v = vec![0; n],
            "one" => v = vec![1; n],
            "neg" => v = vec![self.p - 1; n],
            "rep" => v = vec![v.first().copied().unwrap_or(0); n],
            "sparse" => v.iter_mut().enumerate().for_each(|(i, x)| {
                if i % 3 != 1 {
                    *x = 0
                }
            }),
            "head0" => v.iter_mut().take(n / 2).for_each(|x| *x = 0),
            "tail0" => v.iter_mut().skip(n / 2).for_each(|x| *x = 0),
            "first0" => v.iter_mut().take(1).for_each(|x| *x = 0),
            "last0" => v.iter_mut().rev().take(1).for_each(|x| *x = 0),
            "onlylast" => v.iter_mut().rev().skip(1).for_each(|x| *x = 0),
            "onlyfirst" => v.iter_mut().skip(1).for_each(|x| *x = 0),
            "alt" => v.iter_mut().enumerate().for_each(|(i, x)| *x = if i % 2 == 0 { 1 } else { self.p - 1 }),
            "halves" => {
                for i in n / 2..n {
                    v[i] = v[i - n / 2]
                }
            }
            "anti" => {
                for i in n / 2..n {
                    v[i] = self.f.r(-v[i - n / 2])
                }
            }
            "seq" => v = (0..n as i64).map(|i| self.f.r(i)).collect(),
            _ => {}
        }
        v
    }
    fn plan(&self) {
        let plan = gs(self.sc, "plan").to_string();
        let p = self.p;
        let fam = gs(self.sc, "fam").to_string();
        oracle::configure(|s| {
            s.retries = match &plan[..] {
                "retryall" => 1,
                "retry2" => 2,
                "retry3" => 3,
                _ => 0,
            };
            s.first_retries = match &plan[..] {
                "retry1" => 1,
                "retry1x3" => 3,
                "retry300" => 300,
                _ => 0,
            };
            s.always_c = match &plan[..] {
                "cneg" => Some(p as u64 - 1),
                "c1" => Some(1),
                "c2" => Some(2),
                _ => None,
            };
            s.avoid01 = fam == "agg";
            s.avoid_x0 = fam == "sipp";
        });
    }
    fn no_plan(&self) {
        oracle::configure(|s| {
            s.retries = 0;
            s.first_retries = 0;
        })
    }
    fn mutate_int(&mut self, x: &mut i64, m: &str) {
        let old = *x;
        *x = match m {
            "add1" => self.f.r(old + 1),
            "sub1" => self.f.r(old - 1),
            "zero" => 0,
            "neg" => self.f.r(-old),
            "dbl" => self.f.r(2 * old),
            "inv" => self.f.inv(old),
            "bad" => -1,
            "surplus" => -10 - old,
            _ => self.rnd(),
        };
    }
    fn mutate_vec(&mut self, v: &mut Ints, i: i64, m: &str) {
        match m {
            "all" => *v = v.iter().map(|_| 0).map(|x: i64| x + below(&mut self.rng, self.p)).collect(),
            "drop" => {
                v.pop();
            }
            "push" => v.push(1),
            "rev" => v.reverse(),
            "swap" if v.len() > 1 => {
                let k = (i.max(1) as usize - 1) % (v.len() - 1);
                v.swap(k, k + 1)
            }
            _ => {
                if !v.is_empty() {
                    let k = (i.max(1) as usize - 1) % v.len();
                    self.mutate_int(&mut v[k], m)
                }
            }
        }
    }
    /// sites inside an argument's proof; false: not applicable
    fn mutate_proof(&mut self, p: &mut AProof, s: &str, i: i64, j: i64, m: &str) -> bool {
        let n = p.steps.len();
        match s {
            "step" => {
                if n == 0 {
                    return false;
                }
                let k = (i.max(1) as usize - 1) % n;
                let mut x = p.steps[k][(j - 1) as usize];
                self.mutate_int(&mut x, m);
                p.steps[k][(j - 1) as usize] = x;
            }
            "rounds" => match m {
                "none" => p.steps.clear(),
                "dropfirst" if n > 0 => {
                    p.steps.remove(0);
                }
                "droplast" if n > 0 => {
                    p.steps.pop();
                }
                "duplast" if n > 0 => p.steps.push(p.steps[n - 1]),
                "dupfirst" if n > 0 => p.steps.insert(0, p.steps[0]),
                "swap" if n > 1 => p.steps.swap(0, n - 1),
                "swaplr" if n > 0 => {
                    for s in p.steps.iter_mut() {
                        *s = [s[3], s[4], s[5], s[0], s[1], s[2]]
                    }
                }
                "addzero" => p.steps.push([0; 6]),
                "addzerofirst" => p.steps.insert(0, [0; 6]),
                "double" => {
                    let c = p.steps.clone();
                    p.steps.extend(c)
                }
                "many" => {
                    for _ in 0..20 {
                        p.steps.push([0; 6])
                    }
                }
                _ => return false,
            },
            "base" => {
                let mut x = p.base[(i - 1) as usize];
                self.mutate_int(&mut x, m);
                p.base[(i - 1) as usize] = x;
            }
            "fck" | "fpi" => {
                let v = if s == "fck" { &mut p.fck } else { &mut p.fpi };
                if v.len() < i as usize {
                    return false;
                }
                let mut x = v[(i - 1) as usize];
                self.mutate_int(&mut x, m);
                if s == "fck" {
                    p.fck[(i - 1) as usize] = x
                } else {
                    p.fpi[(i - 1) as usize] = x
                }
            }
            _ => return false,
        }
        true
    }
    fn mutate_vk(&mut self, vk: &mut Vk, i: i64, m: &str) {
        let r = match i {
            1 => &mut vk.g,
            2 => &mut vk.h,
            3 => &mut vk.gb,
            _ => &mut vk.ha,
        };
        let mut x = *r;
        let q: &mut i64 = &mut x;
        self.mutate_int(q, m);
        match i {
            1 => vk.g = x,
            2 => vk.h = x,
            3 => vk.gb = x,
            _ => vk.ha = x,
        }
    }

    // ------------------------------------------------------------------ arguments
    fn arg_verify(&mut self, api: &dyn ArgApi, v: &VIn, stored: bool, why: &str) {
        oracle::begin_call();
        let r = oracle::verdict(|| api.verify(v, stored));
        self.log.ev(json!({"e": "verify", "op": api.op(), "why": why, "res": r.verdict(), "qs": oracle::queries(),
            "cka": v.cka, "ckb": v.ckb, "ckt": v.ckt, "com": v.com, "vk": jvk(&v.vk), "shift": v.shift,
            "proof": jp(&v.proof)}));
    }
    fn arg_prove(&mut self, api: &dyn ArgApi, p: &PIn, why: &str) -> Option<AProof> {
        oracle::begin_call();
        let r = api.prove(p);
        let name = r.name();
        let pf = r.ok();
        self.log.ev(json!({"e": "prove", "op": api.op(), "why": why, "res": name, "qs": oracle::queries(),
            "ma": p.ma, "mb": p.mb, "cka": p.cka, "ckb": p.ckb, "ckt": p.ckt, "t": p.t, "com": p.com,
            "srs": jsrs(&p.srs), "shift": p.shift, "proof": jp(pf.as_ref().unwrap_or(&AProof::default()))}));
        pf
    }
    /// reference string with chosen trapdoors
    fn chosen_srs(&mut self, pat: &str, n: usize) -> Srs {
        let (a, b) = match pat {
            "t0" => (0, 0),
            "ta0" => (0, self.nz()),
            "tb0" => (self.nz(), 0),
            "t1" => (1, 1),
            "tneg" => (self.p - 1, self.p - 1),
            "tsame" => {
                let x = self.nz();
                (x, x)
            }
            _ => (self.nz(), self.nz()),
        };
        let (g, h) = if pat == "tgen" { (self.nz(), self.nz()) } else { (1, 1) };
        let f = self.f;
        Srs {
            ga: f.powers(a, 2 * n - 1).iter().map(|x| f.mul(g, *x)).collect(),
            hb: f.powers(b, 2 * n - 1).iter().map(|x| f.mul(h, *x)).collect(),
            gb: f.mul(g, b),
            ha: f.mul(h, a),
        }
    }
    pub fn run_arg(&mut self) {
        let (op, kind) = (gs(self.sc, "op"), gs(self.sc, "kind"));
        let n = gi(self.sc, "n") as usize;
        let tipa = op == "tipa" || op == "tssm";
        let ssm = op == "ssm" || op == "tssm";
        let api = self.c.arg(op, kind);
        let f = self.f;
        let s = {
            let mut rng = self.rng.clone();
            let r = api.setup(&mut rng, n);
            self.rng.next_u64();
            r
        };
        let name = s.name();
        let mut p = s.ok().unwrap_or_default();
        self.log.ev(json!({"e": "setup", "op": op, "kind": kind, "size": n, "res": name, "cka": p.cka, "ckb": p.ckb,
            "ckt": p.ckt, "srs": jsrs(&p.srs)}));
        if name != "ok" {
            return;
        }
        let pk = gs(self.sc, "pk");
        if pk != "setup" && !pk.is_empty() {
            if tipa {
                p.srs = self.chosen_srs(pk, n);
                p.cka = p.srs.hb.iter().step_by(2).copied().collect();
                p.ckb = if ssm { vec![] } else { p.srs.ga.iter().step_by(2).copied().collect() };
            } else {
                p.cka = self.vec(pk, n);
                p.ckb = if ssm { vec![] } else { self.vec(pk, n) };
                if p.ckt != 1 {
                    p.ckt = self.nz();
                }
            }
        }
        let shift = gs(self.sc, "shift").to_string();
        p.shift = if op == "tipa" && !shift.is_empty() { self.scalar(&shift) } else { 1 };
        if p.shift != 1 {
            let pw = f.powers(f.inv(p.shift), n);
            p.cka = p.cka.iter().zip(&pw).map(|(x, y)| f.mul(*x, *y)).collect();
        }
        p.ma = self.vec(gs(self.sc, "pa"), n);
        p.mb = if ssm {
            let b = self.scalar(gs(self.sc, "pb"));
            // the message as the library builds it for its callers
            let r = self.c.pure().spowers("f", n, 1, b);
            let name = r.name();
            self.log.ev(json!({"e": "message", "op": op, "s": b, "num": n, "res": name, "powers": r.ok().unwrap_or_default()}));
            f.powers(b, n)
        } else {
            self.vec(gs(self.sc, "pb"), n)
        };
        let cm = api.commit(&p);
        let name = cm.name();
        if let Some(c) = cm.ok() {
            p.com = c.com;
            p.t = c.t;
        }
        self.log.ev(json!({"e": "acommit", "op": op, "res": name, "ma": p.ma, "mb": p.mb, "cka": p.cka, "ckb": p.ckb,
            "ckt": p.ckt, "com": p.com, "t": p.t}));
        if name != "ok" {
            return;
        }
        self.plan();
        let ver = |pf: &AProof, p: &PIn| VIn {
            cka: if tipa { vec![] } else { p.cka.clone() },
            ckb: if tipa || ssm { vec![] } else { p.ckb.clone() },
            ckt: p.ckt,
            com: p.com,
            vk: if tipa { Vk { g: p.srs.ga[0], h: p.srs.hb[0], gb: p.srs.gb, ha: p.srs.ha } } else { Vk::default() },
            shift: p.shift,
            proof: pf.clone(),
        };
        let honest = self.arg_prove(&*api, &p, "honest");
        if let Some(pf) = &honest {
            let v = ver(pf, &p);
            self.arg_verify(&*api, &v, true, "honest");
            self.arg_verify(&*api, &v, false, "honest, proof rebuilt");
            if gi(self.sc, "transport") == 1 {
                oracle::begin_call();
                let ts = api.transport(&v);
                for t in ts {
                    self.log.ev(json!({"e": "transport", "op": op, "mode": t.mode, "b1": t.b1, "b2": t.b2,
                        "proof": jp(pf), "proof2": jp(&t.proof2), "trunc": t.truncated_ok, "alien": t.alien_ok, "res": t.res.verdict()}));
                }
            }
            self.no_plan();
            for m in ga(self.sc, "muts") {
                let mut w = v.clone();
                let (s, i, j, md) = (gs(m, "s"), gi(m, "i"), gi(m, "j"), gs(m, "m"));
                let ok = match s {
                    "com" if i == 0 => {
                        w.com = [self.rnd(), self.rnd(), self.rnd()];
                        true
                    }
                    "com" => {
                        let mut x = w.com[(i - 1) as usize];
                        self.mutate_int(&mut x, md);
                        w.com[(i - 1) as usize] = x;
                        true
                    }
                    "cka" => {
                        self.mutate_vec(&mut w.cka, i, md);
                        !tipa
                    }
                    "ckb" => {
                        self.mutate_vec(&mut w.ckb, i, md);
                        op == "gipa"
                    }
                    "keys" => {
                        // both keys shortened or lengthened alike
                        self.mutate_vec(&mut w.cka, i, md);
                        self.mutate_vec(&mut w.ckb, i, md);
                        !tipa
                    }
                    "ckt" => {
                        let mut x = w.ckt;
                        self.mutate_int(&mut x, md);
                        w.ckt = x;
                        kind == "scalarp"
                    }
                    "vk" => {
                        self.mutate_vk(&mut w.vk, i, md);
                        tipa
                    }
                    "shift" => {
                        let mut x = w.shift;
                        self.mutate_int(&mut x, md);
                        if x == 0 {
                            x = 2
                        }
                        w.shift = x;
                        op == "tipa"
                    }
                    _ => self.mutate_proof(&mut w.proof, s, i, j, md),
                };
                if ok {
                    self.arg_verify(&*api, &w, false, &format!("altered {s}[{i},{j}] {md}"));
                }
            }
        }
        self.no_plan();
        for b in ga(self.sc, "forge") {
            let b = b.as_str().unwrap().to_string();
            let tmpl = ver(&AProof::default(), &p);
            let rounds = n.trailing_zeros() as usize;
            if let Some(v) = self.forge_arg(op, &tmpl, rounds, &b, None) {
                self.arg_verify(&*api, &v, false, &format!("constructed, broken: {b}"));
            }
        }
        for m in ga(self.sc, "fprove") {
            let mut q = p.clone();
            let (s, i, md) = (gs(m, "s"), gi(m, "i"), gs(m, "m"));
            match s {
                "t" => self.mutate_int(&mut q.t, md),
                "tcom" => {
                    self.mutate_int(&mut q.t, md);
                    q.com[2] = f.mul(q.ckt, q.t);
                }
                "com" => {
                    let mut x = q.com[(i - 1) as usize];
                    self.mutate_int(&mut x, md);
                    q.com[(i - 1) as usize] = x
                }
                "ma" => self.mutate_vec(&mut q.ma, i, md),
                "mb" => self.mutate_vec(&mut q.mb, i, md),
                "cka" => self.mutate_vec(&mut q.cka, i, md),
                "ckb" => self.mutate_vec(&mut q.ckb, i, md),
                "ckt" if kind == "scalarp" => self.mutate_int(&mut q.ckt, md),
                "msgs" => {
                    self.mutate_vec(&mut q.ma, i, md);
                    self.mutate_vec(&mut q.mb, i, md)
                }
                "keys" => {
                    self.mutate_vec(&mut q.cka, i, md);
                    self.mutate_vec(&mut q.ckb, i, md)
                }
                // a consistent statement of another length
                "len" => {
                    let k = i as usize;
                    q.ma = self.vec("rand", k);
                    q.mb = self.vec("rand", k);
                    q.cka = self.vec("rand", k);
                    q.ckb = self.vec("rand", k);
                    q.t = f.dot(&q.ma, &q.mb);
                    q.com = [f.dot(&q.ma, &q.cka), f.dot(&q.mb, &q.ckb), f.mul(q.ckt, q.t)];
                }
                // another message with the same commitments but another product, claimed product adjusted
                "adjust" => {
                    self.mutate_vec(&mut q.ma, i, "rand");
                    q.t = f.dot(&q.ma, &q.mb);
                    q.com[2] = f.mul(q.ckt, q.t);
                }
                _ => continue,
            }
            self.arg_prove(&*api, &q, &format!("altered {s}[{i}] {md}"));
        }
    }
    /// A proof built backwards from challenges that are already known: it satisfies every
    /// verification equation except the one named.
    /// fixed: commitments that must not change (None: random ones)
    /// brk may carry a style, as in "t/twin": the shape of the values that are free to choose
    fn forge_arg(&mut self, op: &str, v: &VIn, rounds: usize, brk: &str, known: Option<(&[Known], Option<[i64; 3]>)>) -> Option<VIn> {
        let f = self.f;
        let (brk, style) = brk.split_once('/').unwrap_or((brk, ""));
        let tipa = op == "tipa" || op == "tssm";
        let ssm = op == "ssm" || op == "tssm";
        let mut v = v.clone();
        let own;
        let (ks, fixed) = match known {
            Some((k, x)) => (k, x),
            None => {
                own = oracle::predraw(rounds + tipa as usize);
                (&own[..], None)
            }
        };
        v.com = match fixed {
            Some(c) => c,
            None if style == "com0" => [0, 0, 0],
            None if style == "eq" => [self.rnd(); 3],
            None => [self.rnd(), self.rnd(), self.rnd()],
        };
        let cs: Ints = ks[..rounds].iter().map(|k| k.c).collect();
        let xs: Ints = cs.iter().map(|c| f.inv(*c)).collect();
        let ts: Ints = xs.iter().rev().copied().collect();
        let tis: Ints = cs.iter().rev().copied().collect();
        let mut pf = AProof { base: [self.rnd(), self.rnd()], ..Default::default() };
        match style {
            "a0" => pf.base[0] = 0,
            "b0" => pf.base[1] = 0,
            "ab0" => pf.base = [0, 0],
            "one" => pf.base = [1, 1],
            _ => {}
        }
        let (fa, fb);
        if tipa {
            let z = ks[rounds].z;
            let pa = f.prod_form(&tis, f.mul(f.mul(z, z), f.inv(v.shift)));
            let da = f.r(v.vk.gb - z * v.vk.g);
            let mut a = self.rnd();
            if da == 0 || brk == "honestkey" {
                a = f.mul(v.vk.h, pa)
            } else if style == "fk0" {
                a = 0
            }
            fa = a;
            pf.fck.push(fa);
            pf.fpi.push(f.mul(f.mul(v.vk.g, f.r(fa - v.vk.h * pa)), f.inv(da)));
            if ssm {
                fb = 0
            } else {
                let pb = f.prod_form(&ts, f.mul(z, z));
                let db = f.r(v.vk.ha - z * v.vk.h);
                let mut b = self.rnd();
                if db == 0 {
                    b = f.mul(v.vk.g, pb)
                } else if style == "fk0" {
                    b = 0
                }
                fb = b;
                pf.fck.push(fb);
                pf.fpi.push(f.mul(f.mul(v.vk.h, f.r(fb - v.vk.g * pb)), f.inv(db)));
            }
        } else {
            fa = f.dot(&v.cka, &f.key_coefs(&tis));
            fb = if ssm { 0 } else { f.dot(&v.ckb, &f.key_coefs(&ts)) };
        }
        let b = if ssm { f.prod_form(&tis, v.com[1]) } else { pf.base[1] };
        // "tbase": the claim fits the value which the proof names, not the scalar's
        if ssm && brk != "redbase" && brk != "tbase" {
            pf.base[1] = b;
        }
        if ssm && brk == "tbase" && pf.base[1] == b {
            pf.base[1] = f.r(b + 1);
        }
        let mut target = [
            f.mul(fa, pf.base[0]),
            if ssm { v.com[1] } else { f.mul(fb, pf.base[1]) },
            f.mul(v.ckt, f.mul(pf.base[0], if brk == "tbase" { pf.base[1] } else { b })),
        ];
        let d = self.nz();
        for (eq, err) in breaks(brk, d) {
            // the equation's left side exceeds its right side by err
            match eq {
                "a" => target[0] = f.r(target[0] + err),
                "b" if !ssm => target[1] = f.r(target[1] + err),
                "redcom" if ssm => target[1] = f.r(target[1] + err),
                "t" => target[2] = f.r(target[2] + err),
                "cka" if tipa => {
                    let x = f.r(v.vk.gb - ks[rounds].z * v.vk.g);
                    pf.fpi[0] = f.r(pf.fpi[0] - if x == 0 { err } else { f.mul(err, f.inv(x)) })
                }
                "ckb" if tipa && !ssm => {
                    let x = f.r(v.vk.ha - ks[rounds].z * v.vk.h);
                    pf.fpi[1] = f.r(pf.fpi[1] - if x == 0 { err } else { f.mul(err, f.inv(x)) })
                }
                "none" | "honestkey" | "redbase" => {}
                "tbase" if ssm => {}
                _ => return None,
            }
        }
        let zeroed = brk == "none" && style.is_empty() && self.rnd() % 4 == 0;
        let same = self.rnd();
        for _ in 0..rounds {
            let mut s = [0; 6];
            if !zeroed {
                for x in s.iter_mut() {
                    *x = self.rnd()
                }
            }
            match style {
                "twin" => s = [s[0], s[1], s[2], s[0], s[1], s[2]],
                "l0" => s = [0, 0, 0, s[3], s[4], s[5]],
                "r0" => s = [s[0], s[1], s[2], 0, 0, 0],
                "same" => s = [same; 6],
                "steps0" => s = [0; 6],
                "anti" => s = [s[0], s[1], s[2], f.r(-s[0]), f.r(-s[1]), f.r(-s[2])],
                _ => {}
            }
            if ssm && brk != "redcom" {
                s[1] = 0;
                s[4] = 0;
            }
            pf.steps.push(s);
        }
        if rounds == 0 {
            if fixed.is_some() {
                return None;
            }
            for i in 0..3 {
                if !(ssm && i == 1) {
                    v.com[i] = target[i]
                }
            }
        } else {
            // solve the last round's right messages (stored first), or both messages alike
            let (cl, xl) = (cs[rounds - 1], xs[rounds - 1]);
            let twin = style == "twin" && f.r(cl + xl) != 0;
            for i in 0..3 {
                if twin {
                    pf.steps[0][i] = 0;
                }
                let mut s = v.com[i];
                for k in 0..rounds {
                    let st = pf.steps[rounds - 1 - k];
                    s = f.r(s + st[i] * xs[k]);
                    if k != rounds - 1 {
                        s = f.r(s + st[i + 3] * cs[k]);
                    }
                }
                if twin {
                    let w = f.mul(f.r(target[i] - s), f.inv(f.r(cl + xl)));
                    pf.steps[0][i] = w;
                    pf.steps[0][i + 3] = w;
                } else {
                    pf.steps[0][i + 3] = f.mul(f.r(target[i] - s), xl);
                }
            }
        }
        // uncommitted inner products: not a single element, but a list
        let last = pf.steps.len().saturating_sub(1);
        for (i, s) in pf.steps.iter_mut().enumerate() {
            for j in [2, 5] {
                match style {
                    "xall" | "xsteps" => s[j] = -10 - s[j],
                    "xleft" if j == 2 && i == last => s[j] = -10 - s[j],
                    "eall" => s[j] = -1,
                    _ => {}
                }
            }
        }
        match style {
            "xall" | "xcom" => v.com[2] = -10 - v.com[2],
            "eall" | "ecom" => v.com[2] = -1,
            _ => {}
        }
        v.proof = pf;
        Some(v)
    }

    // ----------------------------------------------------------------------- SIPP
    pub fn run_sipp(&mut self) {
        let n = gi(self.sc, "n") as usize;
        let api = self.c.pure();
        let f = self.f;
        let a = self.vec(gs(self.sc, "pa"), n);
        let b = self.vec(gs(self.sc, "pb"), n);
        let r = self.vec(gs(self.sc, "pr"), n + gi(self.sc, "extra") as usize);
        let prod = api.sipp_prod(&a, &b, Some(&r));
        let name = prod.name();
        let real = prod.ok();
        self.log.ev(json!({"e": "sprod", "res": name, "a": a, "b": b, "r": r, "value": real.unwrap_or(-1)}));
        let value = real.unwrap_or_else(|| {
            let ar: Ints = a.iter().zip(&r).map(|(x, y)| f.mul(*x, *y)).collect();
            f.dot(&ar, &b)
        });
        self.plan();
        oracle::begin_call();
        let pr = api.sipp_prove(&a, &b, &r, value);
        let name = pr.name();
        let pf = pr.ok();
        self.log.ev(json!({"e": "prove", "op": "sipp", "why": "honest", "res": name, "qs": oracle::queries(),
            "a": a, "b": b, "r": r, "value": value, "proof": pf.clone().unwrap_or_default()}));
        let pf = match pf {
            Some(p) => p,
            None => return,
        };
        self.sipp_verify(&*api, &a, &b, &r, value, &pf, "honest");
        for m in ga(self.sc, "muts") {
            let (s, i, j, md) = (gs(m, "s"), gi(m, "i"), gi(m, "j"), gs(m, "m"));
            let (mut a, mut b, mut r, mut v, mut pf) = (a.clone(), b.clone(), r.clone(), value, pf.clone());
            match s {
                "a" => self.mutate_vec(&mut a, i, md),
                "b" => self.mutate_vec(&mut b, i, md),
                "r" => self.mutate_vec(&mut r, i, md),
                "value" => self.mutate_int(&mut v, md),
                "gt" => {
                    if pf.is_empty() {
                        continue;
                    }
                    let k = (i.max(1) as usize - 1) % pf.len();
                    let mut x = pf[k][(j - 1) as usize];
                    self.mutate_int(&mut x, md);
                    pf[k][(j - 1) as usize] = x
                }
                "rounds" => match md {
                    "none" => pf.clear(),
                    "droplast" => {
                        pf.pop();
                    }
                    "dropfirst" => {
                        pf.remove(0);
                    }
                    "addzero" => pf.push([0, 0]),
                    "duplast" => pf.push(pf[pf.len() - 1]),
                    "swap" if pf.len() > 1 => pf.swap(0, 1),
                    "swaplr" => pf.iter_mut().for_each(|x| x.swap(0, 1)),
                    _ => continue,
                },
                _ => continue,
            }
            self.sipp_verify(&*api, &a, &b, &r, v, &pf, &format!("altered {s}[{i},{j}] {md}"));
        }
        for brk in ga(self.sc, "forge") {
            let brk = brk.as_str().unwrap().to_string();
            let (brk, style) = brk.split_once('/').unwrap_or((&brk, ""));
            let rounds = n.trailing_zeros() as usize;
            let ks = oracle::predraw(rounds + 1);
            let v = if style == "com0" { 0 } else { self.rnd() };
            let (mut fa, mut fb): (Ints, Ints) =
                (a.iter().zip(&r).map(|(x, y)| f.mul(*x, *y)).collect(), b.clone());
            let mut pf: Vec<[i64; 2]> = (0..rounds).map(|_| [self.rnd(), self.rnd()]).collect();
            for p in pf.iter_mut() {
                match style {
                    "twin" => p[1] = p[0],
                    "l0" => p[0] = 0,
                    "r0" => p[1] = 0,
                    "steps0" => *p = [0, 0],
                    "anti" => p[1] = f.r(-p[0]),
                    _ => {}
                }
            }
            let mut s = v;
            for k in 0..rounds {
                let x = ks[k + 1].x;
                let xi = f.inv(x);
                let h = fa.len() / 2;
                fa = (0..h).map(|i| f.r(fa[i] + x * fa[i + h])).collect();
                fb = (0..h).map(|i| f.r(fb[i] + xi * fb[i + h])).collect();
                if k + 1 < rounds {
                    s = f.r(s + pf[k][0] * x + f.mul(pf[k][1], xi));
                } else {
                    let target = f.r(fa[0] * fb[0] + if brk == "none" { 0 } else { self.nz() });
                    if style == "twin" && f.r(x + xi) != 0 {
                        let w = f.mul(f.r(target - s), f.inv(f.r(x + xi)));
                        pf[k] = [w, w];
                    } else {
                        pf[k][1] = f.mul(f.r(target - s - f.mul(pf[k][0], x)), x);
                    }
                }
            }
            self.sipp_verify(&*api, &a, &b, &r, v, &pf, &format!("constructed, broken: {brk}"));
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn sipp_verify(&mut self, api: &dyn PureApi, a: &[i64], b: &[i64], r: &[i64], v: i64, pf: &[[i64; 2]], why: &str) {
        oracle::begin_call();
        let res = oracle::verdict(|| api.sipp_verify(a, b, r, v, pf));
        self.log.ev(json!({"e": "verify", "op": "sipp", "why": why, "res": res.verdict(), "qs": oracle::queries(),
            "a": a, "b": b, "r": r, "value": v, "proof": pf}));
    }

    // ------------------------------------------------------ polynomial commitments
    #[allow(clippy::too_many_arguments)]
    fn poly_verify(
        &mut self,
        api: &dyn PolyApi,
        k: &PolyKeys,
        deg: Option<usize>,
        ny: usize,
        com: i64,
        point: &[i64],
        eval: i64,
        pf: &OProof,
        stored: bool,
        why: &str,
    ) {
        oracle::begin_call();
        let r = oracle::verdict(|| api.verify(k, deg, com, point, eval, pf, stored));
        let tr = api.op() == "npc";
        self.log.ev(json!({"e": "verify", "op": api.op(), "why": why, "res": r.verdict(), "qs": oracle::queries(),
            "uni": deg.is_some(), "ny": ny, "xk": if tr { k.xk.clone() } else { vec![] },
            "yk": if tr { k.yk.clone() } else { vec![] }, "vk": jvk(&k.vk),
            "com": com, "point": point, "eval": eval, "proof": jo(api.op(), pf)}));
    }
    pub fn run_poly(&mut self) {
        let op = gs(self.sc, "op").to_string();
        let api = self.c.poly(&op);
        let uni = gi(self.sc, "uni") == 1;
        let deg = gi(self.sc, "deg") as usize;
        let (xd, yd) = (gi(self.sc, "xd") as usize, gi(self.sc, "yd") as usize);
        let f = self.f;
        let s = {
            let mut rng = self.rng.clone();
            self.rng.next_u64();
            if uni {
                api.setup_uni(&mut rng, deg)
            } else {
                api.setup_bi(&mut rng, xd, yd)
            }
        };
        let name = s.name();
        let k = s.ok().unwrap_or_default();
        self.log.ev(json!({"e": "psetup", "op": op, "uni": uni, "deg": deg, "xd": xd, "yd": yd, "res": name,
            "xk": k.xk, "yk": k.yk, "vk": jvk(&k.vk)}));
        if name != "ok" || k.yk.is_empty() || k.xk.is_empty() || gi(self.sc, "commitonly") == 2 {
            return;
        }
        let (nx, ny) = (if op == "tpc" { (k.xk.len() + 1) / 2 } else { k.xk.len() }, k.yk.len());
        let degree = if uni { Some(deg) } else { None };
        // the polynomial: flen coefficients (or rows x flen)
        let pat = gs(self.sc, "pf").to_string();
        let flen = gi(self.sc, "flen").max(0) as usize;
        let (poly, jf) = if uni {
            let v = self.vec(&pat, flen);
            (Poly::Uni(v.clone()), json!(v))
        } else {
            let rows = gi(self.sc, "rows") as usize;
            let v: Vec<Ints> = (0..rows)
                .map(|i| {
                    let l = if gi(self.sc, "ragged") == 1 { (flen + rows - i) % (flen + 1) } else { flen };
                    self.vec(&pat, l)
                })
                .collect();
            (Poly::Bi(v.clone()), json!(v))
        };
        let c = api.commit(&k, &poly);
        let name = c.name();
        let c = c.ok();
        self.log.ev(json!({"e": "pcommit", "op": op, "uni": uni, "f": jf, "xk": k.xk, "yk": k.yk, "res": name,
            "com": c.as_ref().map_or(0, |x| x.0), "coms": c.as_ref().map_or(vec![], |x| x.1.clone())}));
        let (com, coms) = match c {
            Some(c) => c,
            None => return,
        };
        if gi(self.sc, "commitonly") == 1 {
            return;
        }
        let pts = ga(self.sc, "points");
        for (pi, pt) in pts.iter().enumerate() {
            let px = pt.get(0).and_then(|x| x.as_str()).unwrap_or("rand").to_string();
            let py = pt.get(1).and_then(|x| x.as_str()).unwrap_or("rand").to_string();
            let point: Ints = if uni { vec![self.scalar(&px)] } else { vec![self.scalar(&px), self.scalar(&py)] };
            let eval = match &poly {
                Poly::Uni(v) => f.poly_at(v, point[0]),
                Poly::Bi(v) => {
                    let r: Ints = v.iter().map(|w| f.poly_at(w, point[1])).collect();
                    f.poly_at(&r, point[0])
                }
            };
            if !uni {
                let r = api.evaluate(&poly, &point);
                let name = r.name();
                self.log.ev(json!({"e": "peval", "f": jf, "point": point, "res": name, "value": r.ok().unwrap_or(-1)}));
            }
            self.plan();
            oracle::begin_call();
            let r = api.open(&k, &poly, &coms, &point);
            let name = r.name();
            let pf = r.ok();
            self.log.ev(json!({"e": "prove", "op": op, "why": "honest", "res": name, "qs": oracle::queries(), "uni": uni,
                "f": jf, "coms": coms, "point": point, "xk": k.xk, "yk": k.yk, "vk": jvk(&k.vk),
                "proof": jo(&op, pf.as_ref().unwrap_or(&OProof::default()))}));
            let pf = match pf {
                Some(p) => p,
                None => continue,
            };
            self.poly_verify(&*api, &k, degree, ny, com, &point, eval, &pf, true, "honest");
            self.poly_verify(&*api, &k, degree, ny, com, &point, eval, &pf, false, "honest, proof rebuilt");
            self.no_plan();
            if pi > 0 {
                continue;
            }
            for m in ga(self.sc, "muts") {
                let (s, i, j, md) = (gs(m, "s"), gi(m, "i"), gi(m, "j"), gs(m, "m"));
                let (mut k2, mut com2, mut pt2, mut ev2, mut pf2) = (k.clone(), com, point.clone(), eval, pf.clone());
                let part = gs(m, "part");
                let ok = match s {
                    "com" => {
                        self.mutate_int(&mut com2, md);
                        true
                    }
                    "point" => {
                        if i as usize > pt2.len() {
                            false
                        } else {
                            self.mutate_vec(&mut pt2, i, md);
                            true
                        }
                    }
                    "eval" => {
                        self.mutate_int(&mut ev2, md);
                        true
                    }
                    "yc" => {
                        self.mutate_int(&mut pf2.yc, md);
                        true
                    }
                    "kp" => {
                        self.mutate_int(&mut pf2.kp, md);
                        op == "tpc"
                    }
                    "vk" => {
                        self.mutate_vk(&mut k2.vk, i, md);
                        op == "tpc"
                    }
                    "xk" => {
                        self.mutate_vec(&mut k2.xk, i, md);
                        op == "npc"
                    }
                    "yk" => {
                        self.mutate_vec(&mut k2.yk, i, md);
                        op == "npc"
                    }
                    _ => {
                        if part == "low" {
                            op == "npc" && self.mutate_proof(&mut pf2.ip1, s, i, j, md)
                        } else {
                            self.mutate_proof(&mut pf2.ip, s, i, j, md)
                        }
                    }
                };
                if ok {
                    self.poly_verify(
                        &*api,
                        &k2,
                        degree,
                        ny,
                        com2,
                        &pt2,
                        ev2,
                        &pf2,
                        false,
                        &format!("altered {part}{s}[{i},{j}] {md}"),
                    );
                }
            }
            for b in ga(self.sc, "forge") {
                let b = b.as_str().unwrap().to_string();
                self.forge_poly(&*api, &op, &k, degree, nx, ny, &point, &b);
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn forge_poly(
        &mut self,
        api: &dyn PolyApi,
        op: &str,
        k: &PolyKeys,
        degree: Option<usize>,
        nx: usize,
        ny: usize,
        point: &[i64],
        brk: &str,
    ) {
        let f = self.f;
        if !nx.is_power_of_two() || nx < 2 || (op == "npc" && (!ny.is_power_of_two() || ny < 2)) {
            return;
        }
        let (x, y) =
            if degree.is_some() { (f.pow(point[0], ny as i64), point[0]) } else { (point[0], point[1]) };
        let (rx, ry) = (nx.trailing_zeros() as usize, ny.trailing_zeros() as usize);
        // "yc0:..." and the like: this value is zero
        let (zero, brk) = brk.split_once(':').unwrap_or(("", brk));
        let (part, which) = brk.split_once('.').unwrap_or(("", brk));
        let d = self.nz();
        let pair = breaks(brk, d);
        let crossed = pair.len() > 1;
        let of = |part: &str| pair.iter().filter_map(|(e, x)| Some(format!("{}={x}", e.strip_prefix(part)?))).collect::<Vec<_>>().join(",");
        let (ptop, plow) = (of("top."), of("low."));
        let top_brk = if crossed { &ptop } else if part == "top" { which } else { "none" };
        let low_brk = if crossed { &plow } else if part == "low" { which } else { "none" };
        let (mut com, mut yc, mut eval) = (self.rnd(), self.rnd(), self.rnd());
        match zero {
            "com0" => com = 0,
            "yc0" => yc = 0,
            "eval0" => eval = 0,
            "all0" => (com, yc, eval) = (0, 0, 0),
            _ => {}
        }
        let ks = oracle::predraw(rx + if op == "tpc" { 1 } else { ry });
        let base = VIn { ckt: 1, shift: 1, vk: k.vk.clone(), ..Default::default() };
        let mut pf = OProof { yc, ..Default::default() };
        let cut = rx + (op == "tpc") as usize;
        let t = VIn { cka: if op == "npc" { k.xk.clone() } else { vec![] }, ..base.clone() };
        let top = self.forge_arg(
            if op == "tpc" { "tssm" } else { "ssm" },
            &t,
            rx,
            top_brk,
            Some((&ks[..cut], Some([com, x, yc]))),
        );
        pf.ip = match top {
            Some(v) => v.proof,
            None => return,
        };
        if op == "tpc" {
            let d = f.r(k.vk.ha - y * k.vk.h);
            if d == 0 {
                eval = f.mul(yc, f.inv(k.vk.g))
            }
            pf.kp = f.mul(f.mul(f.r(yc - k.vk.g * eval), k.vk.h), f.inv(d));
            for (e, x) in &pair {
                if *e == "kp" {
                    pf.kp = f.r(pf.kp - if d == 0 { *x } else { f.mul(*x, f.inv(d)) })
                }
            }
            if brk == "eval" {
                eval = f.r(eval + 1)
            }
        } else {
            let t = VIn { cka: k.yk.clone(), ..base };
            let low = self.forge_arg("ssm", &t, ry, low_brk, Some((&ks[cut..], Some([yc, y, eval]))));
            pf.ip1 = match low {
                Some(v) => v.proof,
                None => return,
            };
        }
        self.poly_verify(api, k, degree, ny, com, point, eval, &pf, false, &format!("constructed, broken: {brk}"));
    }

    // ------------------------------------------------------------------------ KZG
    pub fn run_kzg(&mut self) {
        let api = self.c.pure();
        let f = self.f;
        let deg = gi(self.sc, "deg") as usize;
        let flen = gi(self.sc, "flen") as usize;
        let s = {
            let mut rng = self.rng.clone();
            self.rng.next_u64();
            api.kzg_setup(&mut rng, deg)
        };
        let name = s.name();
        let (powers, vk) = s.ok().unwrap_or_default();
        self.log.ev(json!({"e": "ksetup", "deg": deg, "res": name, "powers": powers, "vk": jvk(&vk)}));
        if name != "ok" {
            return;
        }
        let poly = self.vec(gs(self.sc, "pf"), flen);
        let c = api.kzg_commit(&powers, &poly);
        let name = c.name();
        let com = c.ok();
        self.log.ev(json!({"e": "kcommit", "powers": powers, "f": poly, "res": name, "com": com.unwrap_or(-1)}));
        for pt in ga(self.sc, "points") {
            let z = match pt.as_str().unwrap_or("") {
                "trapdoor" => vk.ha,
                s => self.scalar(&s.to_string()),
            };
            let pi = api.kzg_open(&powers, &poly, z);
            let name = pi.name();
            let pi = pi.ok();
            self.log.ev(json!({"e": "kopen", "powers": powers, "f": poly, "z": z, "res": name, "pi": pi.unwrap_or(-1)}));
            let (com, pi) = match (com, pi) {
                (Some(c), Some(p)) => (c, p),
                _ => continue,
            };
            let v = f.poly_at(&poly, z);
            let honest = (vk.clone(), com, z, v, pi);
            let mut cases = vec![("honest".to_string(), honest.clone())];
            for m in ga(self.sc, "muts") {
                let (s, i, md) = (gs(m, "s"), gi(m, "i"), gs(m, "m"));
                let mut h = honest.clone();
                match s {
                    "com" => self.mutate_int(&mut h.1, md),
                    "point" => self.mutate_int(&mut h.2, md),
                    "eval" => self.mutate_int(&mut h.3, md),
                    "pi" => self.mutate_int(&mut h.4, md),
                    "vk" => self.mutate_vk(&mut h.0, i, md),
                    // a valid opening of another value
                    "solve" => {
                        h.3 = self.rnd();
                        h.1 = self.rnd();
                        let d = f.r(h.0.ha - h.2 * h.0.h);
                        h.4 = f.mul(f.mul(f.r(h.1 - h.0.g * h.3), h.0.h), f.inv(d));
                    }
                    _ => continue,
                }
                cases.push((format!("altered {s}[{i}] {md}"), h));
            }
            for (why, h) in cases {
                let r = oracle::verdict(|| api.kzg_verify(&h.0, h.1, h.2, h.3, h.4));
                self.log.ev(json!({"e": "kverify", "why": why, "vk": jvk(&h.0), "com": h.1, "z": h.2, "v": h.3, "pi": h.4,
                    "powers": powers, "f": poly, "res": r.verdict()}));
            }
        }
    }

    // ---------------------------------------------------------------- aggregation
    #[allow(clippy::too_many_arguments)]
    fn agg_verify(
        &mut self,
        api: &dyn AggApi,
        vk: &Vk,
        gvk: &Gvk,
        inputs: &[Ints],
        pf: &GProof,
        stored: bool,
        why: &str,
        adaptive: bool,
    ) {
        oracle::begin_call();
        let r = oracle::verdict(|| api.verify(vk, gvk, inputs, pf, stored));
        self.log.ev(json!({"e": "verify", "op": "agg", "why": why, "res": r.verdict(), "qs": oracle::queries(), "vk": jvk(vk),
            "gvk": {"alpha": gvk.alpha, "beta": gvk.beta, "gamma": gvk.gamma, "delta": gvk.delta, "abc": gvk.abc},
            "inputs": inputs, "proof": jg(pf), "adaptive": adaptive}));
    }
    // a Groth16 verifying key of the given shape; delta is never zero, so every
    // statement has a proof
    fn groth_key(&mut self, pat: &str, nin: usize) -> Gvk {
        let mut g = Gvk { alpha: self.nz(), beta: self.nz(), gamma: self.nz(), delta: self.nz(), abc: self.vec("rand", nin + 1) };
        for part in pat.split('+') {
            let (name, arg) = part.split_once(':').unwrap_or((part, ""));
            match name {
                "alpha0" => g.alpha = 0,
                "beta0" => g.beta = 0,
                "gamma0" => g.gamma = 0,
                "unit" => (g.alpha, g.beta, g.gamma, g.delta) = (1, 1, 1, 1),
                "gd" => g.gamma = g.delta,
                "bd" => g.beta = g.delta,
                "anti" => g.gamma = self.f.r(-g.delta),
                "abc" => g.abc = self.vec(arg, nin + 1),
                "abc0" => {
                    let i = arg.parse::<usize>().unwrap_or(0) % (nin + 1);
                    g.abc[i] = 0
                }
                "abcrep" => {
                    let i = arg.parse::<usize>().unwrap_or(0) % (nin + 1);
                    g.abc[i] = g.abc[nin - i]
                }
                _ => {}
            }
        }
        g
    }
    pub fn run_agg(&mut self) {
        let api = self.c.agg();
        let f = self.f;
        let n = gi(self.sc, "n") as usize;
        let nin = gi(self.sc, "nin") as usize;
        let s = {
            let mut rng = self.rng.clone();
            self.rng.next_u64();
            api.setup(&mut rng, n)
        };
        let name = s.name();
        let mut srs = s.ok().unwrap_or_default();
        self.log.ev(json!({"e": "setup", "op": "agg", "kind": "", "size": n, "res": name, "cka": [], "ckb": [], "ckt": 1,
            "srs": jsrs(&srs)}));
        if name != "ok" {
            return;
        }
        let pk = gs(self.sc, "pk");
        if pk != "setup" && !pk.is_empty() {
            srs = self.chosen_srs(pk, n);
        }
        let vk = Vk { g: srs.ga[0], h: srs.hb[0], gb: srs.gb, ha: srs.ha };
        let gvk = self.groth_key(gs(self.sc, "pv"), nin);
        let mut inputs: Vec<Ints> = (0..n).map(|_| self.vec(gs(self.sc, "pi"), nin)).collect();
        if gs(self.sc, "pi") == "same" {
            for i in 1..n {
                inputs[i] = inputs[0].clone()
            }
        }
        let make = |s: &mut Self, inp: &Ints, pat: &str| {
            let (a, b) = match pat {
                "zeroa" => (0, s.nz()),
                "zerob" => (s.nz(), 0),
                "zero" => (0, 0),
                _ => (s.nz(), s.nz()),
            };
            let public = f.r(gvk.abc[0] + f.dot(inp, &gvk.abc[1..]));
            let c = f.mul(f.r(a * b - f.mul(gvk.alpha, gvk.beta) - f.mul(public, gvk.gamma)), f.inv(gvk.delta));
            [a, b, c]
        };
        let pp = gs(self.sc, "pp").to_string();
        let mut pfs: Vec<[i64; 3]> = vec![];
        for i in 0..n {
            let x = make(self, &inputs[i], &pp);
            pfs.push(x);
        }
        if pp == "same" {
            for i in 1..n {
                pfs[i] = pfs[0];
                inputs[i] = inputs[0].clone();
            }
        }
        // proofs whose last element is zero, at every second place
        if pp == "zeroc" {
            for i in (0..n).step_by(2) {
                let b = pfs[i][1];
                let want = f.r(f.mul(pfs[i][0], b) - f.mul(gvk.delta, pfs[i][2]));
                pfs[i] = [f.mul(want, f.inv(b)), b, 0];
            }
        }
        // one proof twice, at neighbouring places
        if pp == "twin" {
            for i in (1..n).step_by(2) {
                pfs[i] = pfs[i - 1];
                inputs[i] = inputs[i - 1].clone();
            }
        }
        // invalid proofs in the batch
        for m in ga(self.sc, "badpf") {
            let i = (gi(m, "i").max(1) as usize - 1) % n;
            let j = (gi(m, "j") - 1) as usize;
            let mut x = pfs[i][j];
            self.mutate_int(&mut x, gs(m, "m"));
            pfs[i][j] = x;
        }
        self.plan();
        oracle::begin_call();
        let r = api.prove(&srs, &pfs);
        let name = r.name();
        let pf = r.ok();
        let qs = oracle::queries();
        let rscalar = qs.as_array().and_then(|q| q.iter().map(|x| gi(x, "z")).find(|z| *z >= 0));
        self.log.ev(json!({"e": "prove", "op": "agg", "why": "honest", "res": name, "qs": qs,
            "srs": jsrs(&srs), "pfs": pfs, "proof": jg(pf.as_ref().unwrap_or(&GProof::default()))}));
        let pf = match pf {
            Some(p) => p,
            None => return,
        };
        self.agg_verify(&*api, &vk, &gvk, &inputs, &pf, true, "aggregated", false);
        self.agg_verify(&*api, &vk, &gvk, &inputs, &pf, false, "aggregated, rebuilt", false);
        self.no_plan();
        for m in ga(self.sc, "muts") {
            let (s, i, j, md) = (gs(m, "s"), gi(m, "i"), gi(m, "j"), gs(m, "m"));
            let part = gs(m, "part");
            let (mut vk2, mut g2, mut in2, mut pf2) = (vk.clone(), gvk.clone(), inputs.clone(), pf.clone());
            let k = (i.max(1) as usize - 1) % n;
            let ok = match s {
                "input" => {
                    if nin == 0 {
                        false
                    } else {
                        self.mutate_vec(&mut in2[k], j, md);
                        true
                    }
                }
                "len" => {
                    self.mutate_vec(&mut in2[k], 1, md);
                    true
                }
                "alllen" => {
                    for v in in2.iter_mut() {
                        self.mutate_vec(v, 1, md)
                    }
                    true
                }
                "batch" => match md {
                    "drop" => {
                        in2.pop();
                        true
                    }
                    "dropfirst" => {
                        in2.remove(0);
                        true
                    }
                    "empty" => {
                        in2.clear();
                        true
                    }
                    "dup" => {
                        in2.push(inputs[n - 1].clone());
                        true
                    }
                    "rev" => {
                        in2.reverse();
                        n > 1
                    }
                    "swap" => {
                        if n > 1 {
                            in2.swap(k, (k + 1) % n)
                        }
                        n > 1
                    }
                    "same" => {
                        for v in in2.iter_mut() {
                            *v = inputs[0].clone()
                        }
                        n > 1
                    }
                    _ => false,
                },
                "gvk" => {
                    match i {
                        1 => self.mutate_int(&mut g2.alpha, md),
                        2 => self.mutate_int(&mut g2.beta, md),
                        3 => self.mutate_int(&mut g2.gamma, md),
                        4 => self.mutate_int(&mut g2.delta, md),
                        _ => self.mutate_vec(&mut g2.abc, j, md),
                    }
                    true
                }
                "com" => {
                    let mut x = pf2.com[(i - 1) as usize];
                    self.mutate_int(&mut x, md);
                    pf2.com[(i - 1) as usize] = x;
                    true
                }
                "aggc" => {
                    self.mutate_int(&mut pf2.aggc, md);
                    true
                }
                // the claimed products changed so that the product equation still holds
                "pair" => {
                    let d = self.nz();
                    pf2.aggc = f.r(pf2.aggc + d);
                    pf2.com[3] = f.r(pf2.com[3] + d * gvk.delta);
                    true
                }
                "vk" => {
                    self.mutate_vk(&mut vk2, i, md);
                    true
                }
                _ => {
                    if part == "c" {
                        self.mutate_proof(&mut pf2.c, s, i, j, md)
                    } else {
                        self.mutate_proof(&mut pf2.ab, s, i, j, md)
                    }
                }
            };
            if ok {
                self.agg_verify(&*api, &vk2, &g2, &in2, &pf2, false, &format!("altered {part}{s}[{i},{j}] {md}"), false);
            }
        }
        for b in ga(self.sc, "forge") {
            let b = b.as_str().unwrap().to_string();
            self.forge_agg(&*api, &vk, &gvk, &inputs, &b);
        }
        if gi(self.sc, "adaptive") == 1 && n > 1 && nin > 0 {
            // public inputs chosen after the combination scalar is known
            if let Some(r) = rscalar {
                let d = self.nz();
                let mut in2 = inputs.clone();
                in2[0][0] = f.r(in2[0][0] + r * d);
                in2[1][0] = f.r(in2[1][0] - d);
                self.agg_verify(&*api, &vk, &gvk, &in2, &pf, false, "public inputs chosen after r", true);
            }
        }
    }
    fn forge_agg(&mut self, api: &dyn AggApi, vk: &Vk, gvk: &Gvk, inputs: &[Ints], brk: &str) {
        let f = self.f;
        let n = inputs.len();
        if !n.is_power_of_two() || n < 2 {
            return;
        }
        let k = n.trailing_zeros() as usize;
        let (zero, brk) = brk.split_once(':').unwrap_or(("", brk));
        let (part, which) = brk.split_once('.').unwrap_or(("", brk));
        let d = self.nz();
        let pair = breaks(brk, d);
        let crossed = pair.len() > 1;
        let of = |part: &str| pair.iter().filter_map(|(e, x)| Some(format!("{}={x}", e.strip_prefix(part)?))).collect::<Vec<_>>().join(",");
        let (pab, pc) = (of("ab."), of("c."));
        let ks = loop {
            let ks = oracle::predraw(1 + 2 * (k + 1));
            if ks[0].z > 1 {
                break ks;
            }
        };
        let r = ks[0].z;
        let rv = f.powers(r, n);
        let rs = rv.iter().fold(0, |s, x| f.r(s + x));
        let mut gic = f.mul(gvk.abc[0], rs);
        for j in 1..gvk.abc.len() {
            let col: Ints = inputs.iter().map(|x| x[j - 1]).collect();
            gic = f.r(gic + f.mul(gvk.abc[j], f.dot(&col, &rv)));
        }
        let mut pf = GProof { com: [self.rnd(), self.rnd(), self.rnd(), 0], aggc: self.rnd(), ..Default::default() };
        match zero {
            "com0" => pf.com = [0; 4],
            "aggc0" => pf.aggc = 0,
            "eqcom" => pf.com = [pf.com[0]; 4],
            "all0" => {
                pf.com = [0; 4];
                pf.aggc = 0
            }
            _ => {}
        }
        pf.com[3] = f.r(f.mul(f.mul(gvk.alpha, rs), gvk.beta) + f.mul(gic, gvk.gamma) + f.mul(pf.aggc, gvk.delta));
        for (e, x) in &pair {
            if *e == "ppe" {
                pf.com[3] = f.r(pf.com[3] + x)
            }
        }
        let base = VIn { ckt: 1, vk: vk.clone(), ..Default::default() };
        let ab = self.forge_arg(
            "tipa",
            &VIn { shift: r, ..base.clone() },
            k,
            if crossed { &pab } else if part == "ab" { which } else { "none" },
            Some((&ks[1..k + 2], Some([pf.com[0], pf.com[1], pf.com[3]]))),
        );
        let c = self.forge_arg(
            "tssm",
            &VIn { shift: 1, ..base },
            k,
            if crossed { &pc } else if part == "c" { which } else { "none" },
            Some((&ks[k + 2..], Some([pf.com[2], r, pf.aggc]))),
        );
        if let (Some(ab), Some(c)) = (ab, c) {
            pf.ab = ab.proof;
            pf.c = c.proof;
            self.agg_verify(api, vk, gvk, inputs, &pf, false, &format!("constructed, broken: {brk}"), false);
        }
    }

    // --------------------------------------------------------------- pure functions
    fn pooled<T: Send>(&self, f: impl FnOnce() -> T + Send) -> T {
        match gi(self.sc, "threads") {
            0 => f(),
            t => oracle::pool(t as usize).install(f),
        }
    }
    pub fn run_pure(&mut self) {
        let api = self.c.pure();
        let f = self.f;
        let what = gs(self.sc, "op").to_string();
        let kind = gs(self.sc, "kind").to_string();
        let n = gi(self.sc, "n") as usize;
        let m = self.sc.get("m").and_then(|x| x.as_i64()).map_or(n, |x| x as usize);
        let (pa, pb) = (gs(self.sc, "pa").to_string(), gs(self.sc, "pb").to_string());
        let a = self.vec(&pa, n);
        let b = self.vec(&pb, m);
        let p = self.p;
        match &what[..] {
            "ip" => {
                let r = self.pooled(|| curve(p).pure().ip(&kind, &a, &b));
                let name = r.name();
                self.log.ev(json!({"e": "ip", "kind": kind, "a": a, "b": b, "res": name, "value": r.ok().unwrap_or(-1),
                    "threads": gi(self.sc, "threads")}));
            }
            "sprod" => {
                let c = self.vec(gs(self.sc, "pr"), n);
                let r = self.pooled(|| curve(p).pure().sipp_prod(&a, &b, Some(&c)));
                let name = r.name();
                self.log.ev(json!({"e": "sprod", "res": name, "a": a, "b": b, "r": c, "value": r.ok().unwrap_or(-1)}));
                let r = self.pooled(|| curve(p).pure().sipp_prod(&a, &b, None));
                let name = r.name();
                self.log.ev(json!({"e": "sprod", "res": name, "a": a, "b": b, "r": vec![1; n], "value": r.ok().unwrap_or(-1)}));
            }
            "commit" => {
                let s = {
                    let mut rng = self.rng.clone();
                    self.rng.next_u64();
                    api.csetup(&kind, &mut rng, n)
                };
                let name = s.name();
                let k0 = s.ok().unwrap_or_default();
                self.log.ev(json!({"e": "csetup", "kind": kind, "size": n, "res": name, "k": k0}));
                let key = if gs(self.sc, "pk") == "setup" { k0 } else { self.vec(gs(self.sc, "pk"), n) };
                let key2 = self.vec("rand", n);
                let msg2 = self.vec("rand", m);
                let s = self.nz();
                let add = |x: &Ints, y: &Ints| x.iter().zip(y).map(|(x, y)| f.r(x + y)).collect::<Ints>();
                let scale = |x: &Ints| x.iter().map(|x| f.mul(*x, s)).collect::<Ints>();
                let mut cases = vec![
                    (key.clone(), b.clone()),
                    (key.clone(), msg2.clone()),
                    (key.clone(), add(&b, &msg2)),
                    (key.clone(), scale(&b)),
                ];
                if kind != "ssm" && !kind.starts_with("id") {
                    cases.push((key2.clone(), b.clone()));
                    cases.push((add(&key, &key2), b.clone()));
                    cases.push((scale(&key), b.clone()));
                }
                for (k, m) in cases {
                    let c = self.pooled(|| curve(p).pure().commit(&kind, &k, &m));
                    let name = c.name();
                    let com = c.ok().unwrap_or(-1);
                    self.log.ev(json!({"e": "commit", "kind": kind, "k": k, "m": m, "res": name, "com": com}));
                    let truth = if kind.starts_with("id") {
                        m.first().copied().unwrap_or(-1)
                    } else if kind == "ssm" {
                        0
                    } else {
                        f.dot(&k, &m)
                    };
                    // the commitment itself, and values close to it: its negative, its double, the neutral one
                    for d in [0, 1, self.nz(), f.r(-2 * truth.max(0)), truth.max(0), f.r(-truth.max(0))] {
                        let cc = if truth < 0 { truth } else { f.r(truth + d) };
                        let r = oracle::verdict(|| api.cverify(&kind, &k, &m, cc));
                        self.log.ev(json!({"e": "cverify", "kind": kind, "k": k, "m": m, "com": cc, "res": r.verdict()}));
                    }
                }
                for (x, y) in [(self.rnd(), self.rnd()), (0, self.rnd()), (self.rnd(), 0), (5, f.r(-5))] {
                    for s in [self.rnd(), 0, 1, p - 1] {
                        let r = api.out_ops(&kind, x, y, s);
                        let name = r.name();
                        let v = r.ok().unwrap_or((-1, -1));
                        self.log.ev(json!({"e": "outops", "kind": kind, "x": x, "y": y, "s": s, "res": name, "sum": v.0,
                            "scaled": v.1}));
                    }
                }
            }
            "idlist" => {
                for d in 0..5 {
                    let x = self.vec("rand", n);
                    let y = self.vec("rand", n);
                    let s = if d == 4 { 0 } else { self.rnd() };
                    let mut other = a.clone();
                    match d {
                        0 => (),
                        1 => other.push(1),
                        2 => {
                            other.pop();
                        }
                        3 => other.iter_mut().rev().take(1).for_each(|v| *v = f.r(*v + 1)),
                        _ => other.iter_mut().take(1).for_each(|v| *v = f.r(*v + 1)),
                    }
                    let r = api.id_list(&kind, &a, &other, &x, &y, s);
                    let name = r.name();
                    let (com, ver, sum, scaled) = r.ok().unwrap_or_default();
                    self.log.ev(json!({"e": "idlist", "kind": kind, "m": a, "other": other, "x": x, "y": y, "s": s, "res": name,
                        "com": com, "ver": ver, "sum": sum, "scaled": scaled}));
                }
            }
            "keys" => {
                let mut all: Vec<Vec<Ints>> = vec![];
                for i in 0..gi(self.sc, "m") {
                    let mut rng = rng_of(self.rng.next_u64(), i as u64);
                    let c = &self.c;
                    let srs = |s: &Srs| vec![s.ga.clone(), s.hb.clone()];
                    let lists: Option<Vec<Ints>> = match &kind[..] {
                        "kzg" => api.kzg_setup(&mut rng, n - 1).ok().map(|x| vec![x.0]),
                        "agg" => c.agg().setup(&mut rng, n).ok().map(|s| srs(&s)),
                        "tpc" | "npc" => c.poly(&kind).setup_bi(&mut rng, n - 1, n - 1).ok().map(|k| vec![k.xk, k.yk]),
                        "tpcu" => c.poly("tpc").setup_uni(&mut rng, n * n - 1).ok().map(|k| vec![k.xk, k.yk]),
                        "npcu" => c.poly("npc").setup_uni(&mut rng, n * n - 1).ok().map(|k| vec![k.xk, k.yk]),
                        k => match k.split_once('.') {
                            Some((op, kd)) => c.arg(op, kd).setup(&mut rng, n).ok().map(|p| match op {
                                "gipa" => vec![p.cka, p.ckb],
                                "ssm" => vec![p.cka],
                                _ => srs(&p.srs),
                            }),
                            None => api.csetup(k, &mut rng, n).ok().map(|x| vec![x]),
                        },
                    };
                    all.push(lists.unwrap_or_default());
                }
                self.log.ev(json!({"e": "keys", "kind": kind, "size": n, "res": "ok", "all": all}));
            }
            "spowers" => {
                let (g, s) = (self.scalar(&pa), self.scalar(&pb));
                let g = if kind == "f" { 1 } else { g };
                let r = api.spowers(&kind, n, g, s);
                let name = r.name();
                self.log.ev(json!({"e": "spowers", "kind": kind, "num": n, "g": g, "s": s, "res": name,
                    "powers": r.ok().unwrap_or_default()}));
            }
            "srskeys" => {
                let s = self.chosen_srs(&pa, n);
                let r = api.srs_keys(&s);
                let name = r.name();
                let (x, y, v) = r.ok().unwrap_or_default();
                self.log.ev(json!({"e": "srskeys", "srs": jsrs(&s), "res": name, "cka": x, "ckb": y, "vk": jvk(&v)}));
            }
            "ckopen" => {
                // n = 2^rounds keys
                let rounds = n.trailing_zeros() as usize;
                let ts = self.vec(&pa, rounds);
                let srs = self.chosen_srs(gs(self.sc, "pk"), n);
                let r = self.scalar(&pb);
                let mut zs = vec![self.nz(), 0, 1];
                zs.push(srs.ha);
                for z in zs {
                    let (powers, fk) = if kind == "g1" {
                        (srs.ga.clone(), f.mul(srs.ga[0], f.prod_form(&ts, f.mul(f.mul(self.ratio(&srs.ha, &srs.hb), self.ratio(&srs.ha, &srs.hb)), r))))
                    } else {
                        (srs.hb.clone(), f.mul(srs.hb[0], f.prod_form(&ts, f.mul(f.mul(self.ratio(&srs.gb, &srs.ga), self.ratio(&srs.gb, &srs.ga)), r))))
                    };
                    let o = api.ckopen(&kind, &powers, &ts, r, z);
                    let name = o.name();
                    let pi = o.ok().unwrap_or(-1);
                    self.log.ev(json!({"e": "ckopen", "kind": kind, "powers": powers, "ts": ts, "r": r, "z": z, "res": name,
                        "pi": pi}));
                    if pi < 0 {
                        continue;
                    }
                    let vk = Vk { g: srs.ga[0], h: srs.hb[0], gb: srs.gb, ha: srs.ha };
                    let mut cases = vec![(vk.clone(), fk, pi, ts.clone(), r, z)];
                    for i in 1..=4 {
                        let mut c = cases[0].clone();
                        self.mutate_vk(&mut c.0, i, "add1");
                        cases.push(c);
                    }
                    for (i, md) in [(0, "add1"), (1, "add1"), (2, "add1"), (3, "dbl"), (4, "add1"), (0, "zero"), (1, "zero")] {
                        let mut c = cases[0].clone();
                        match i {
                            0 => self.mutate_int(&mut c.1, md),
                            1 => self.mutate_int(&mut c.2, md),
                            2 => self.mutate_vec(&mut c.3, 1, md),
                            3 => self.mutate_int(&mut c.4, md),
                            _ => self.mutate_int(&mut c.5, md),
                        }
                        cases.push(c);
                    }
                    for c in cases {
                        let v = oracle::verdict(|| api.ckverify(&kind, &c.0, c.1, c.2, &c.3, c.4, c.5));
                        self.log.ev(json!({"e": "ckverify", "kind": kind, "vk": jvk(&c.0), "fk": c.1, "pi": c.2, "ts": c.3,
                            "r": c.4, "z": c.5, "res": v.verdict()}));
                    }
                }
            }
            k => panic!("pure {k}"),
        }
    }
    fn ratio(&self, x: &i64, v: &[i64]) -> i64 {
        self.f.mul(*x, self.f.inv(v[0]))
    }
}

/// in a thread pool of the size the scenario asks for
pub fn run_pooled(sc: &Value, seed: u64, log: &mut Log) {
    let t = gi(sc, "threads") as usize;
    if t == 0 || gs(sc, "fam") == "pure" {
        return run(sc, seed, log);
    }
    oracle::pool(t).install(|| run(sc, seed, log))
}
pub fn run(sc: &Value, seed: u64, log: &mut Log) {
    let p = gi(sc, "P");
    let id = gi(sc, "id");
    log.id = id;
    let c = curve(p);
    oracle::begin_session(seed.wrapping_mul(1_000_003).wrapping_add(id as u64), p as u64, c.z_of());
    log.ev(json!({"e": "begin", "fam": gs(sc, "fam"), "P": p}));
    let mut cx = Ctx { f: Fld(p), p, rng: rng_of(seed, id as u64), c, log, sc };
    match gs(sc, "fam") {
        "arg" => cx.run_arg(),
        "sipp" => cx.run_sipp(),
        "poly" => cx.run_poly(),
        "kzg" => cx.run_kzg(),
        "agg" => cx.run_agg(),
        "pure" => cx.run_pure(),
        "rng" => crate::rngs::run(&mut cx),
        k => panic!("family {k}"),
    }
}

/// the equations to break and by how much: "a", "a=5,b=7", or "a+b" and "a-b" (two at once,
/// so that an unweighted combination of them still holds)
fn breaks(brk: &str, d: i64) -> Vec<(&str, i64)> {
    if brk.is_empty() {
        return vec![("none", 0)];
    }
    if brk.contains('=') {
        return brk.split(',').map(|x| x.split_once('=').unwrap()).map(|(e, x)| (e, x.parse().unwrap())).collect();
    }
    if let Some((x, y)) = brk.split_once('+') {
        return vec![(x, d), (y, d)];
    }
    if let Some((x, y)) = brk.split_once('-') {
        return vec![(x, d), (y, -d)];
    }
    vec![(brk, d)]
}
