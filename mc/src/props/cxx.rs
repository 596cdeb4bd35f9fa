//! The C++ interface: what it computes and records (C18), and who owns what (C19).
//!
//! Every call is mirrored by the Rust type in a context of its own. The C++ contexts are found
//! through the global map. Allocations inside the C++ calls are counted, and the address sanitizer
//! watches both sides.
use crate::engine::*;
use advantage::{AContext, ADouble, DVector, Float, Tape};

extern "C" {
    fn sh_init() -> i32;
    fn sh_live() -> i64;
    fn sh_reset();
    fn sh_default(i: i32);
    fn sh_from(i: i32, x: f64);
    fn sh_copy(i: i32, j: i32);
    fn sh_move(i: i32, j: i32);
    fn sh_assign(i: i32, j: i32);
    fn sh_massign(i: i32, j: i32);
    fn sh_assign_double(i: i32, x: f64);
    fn sh_swap(i: i32, j: i32);
    fn sh_pass(i: i32, j: i32);
    fn sh_pass_move(i: i32, j: i32);
    fn sh_named(i: i32, j: i32, w: i32);
    fn sh_vector(i: i32, j: i32);
    fn sh_del(i: i32);
    fn sh_cnew(k: i32);
    fn sh_cmove(k: i32, l: i32);
    fn sh_cmassign(k: i32, l: i32);
    fn sh_creset(k: i32);
    fn sh_cswap(k: i32, l: i32);
    fn sh_cdel(k: i32);
    fn sh_indep(i: i32, k: i32);
    fn sh_dep(k: i32, i: i32);
    fn sh_vv(op: i32, i: i32, a: i32, b: i32);
    fn sh_vd(op: i32, i: i32, a: i32, y: f64);
    fn sh_dv(op: i32, i: i32, x: f64, b: i32);
    fn sh_un(f: i32, i: i32, a: i32);
    fn sh_expr(e: i32, i: i32, a: i32, b: i32);
    fn sh_dun(f: i32, x: f64) -> f64;
    fn sh_dbin(f: i32, x: f64, y: f64) -> f64;
}

const NOBS: i32 = 12;

#[derive(Clone, Copy, Debug)]
enum Act {
    Default(usize),
    From(usize, f64),
    Copy(usize, usize),
    Move(usize, usize),
    Assign(usize, usize),
    MAssign(usize, usize),
    AssignDouble(usize, f64),
    Swap(usize, usize),
    Pass(usize, usize),
    PassMove(usize, usize),
    Named(usize, usize, bool),
    Vector(usize, usize),
    Del(usize),
    CNew(usize),
    CMove(usize, usize),
    CMAssign(usize, usize),
    CReset(usize),
    CSwap(usize, usize),
    CDel(usize),
    Indep(usize, usize),
    Dep(usize, usize),
    VV(i32, usize, usize, usize),
    VD(i32, usize, usize, f64),
    DV(i32, usize, f64, usize),
    Un(i32, usize, usize),
    Expr(i32, usize, usize, usize),
}
use Act::*;

fn vv(op: i32, x: ADouble, y: ADouble) -> ADouble {
    match op {
        0 => x + y,
        1 => x - y,
        2 => x * y,
        3 => x / y,
        4 => Float::min(x, y),
        _ => Float::max(x, y),
    }
}
fn un(f: i32, x: ADouble) -> ADouble {
    match f {
        0 => Float::sin(x),
        1 => Float::cos(x),
        2 => Float::tan(x),
        3 => Float::abs(x),
        4 => Float::exp(x),
        _ => Float::ln(x),
    }
}
fn con(x: f64) -> ADouble {
    ADouble::new(x, 0.0)
}
fn expr(e: i32, x: ADouble, y: ADouble) -> ADouble {
    match e {
        0 => (x + y) * (x - y),
        1 => con(2.0) * x - y / con(4.0),
        2 => Float::max(x * y, Float::min(x, con(0.5))) + con(1.0),
        _ => Float::exp(Float::sin(x) * y) - Float::cos(con(1.0) - x),
    }
}

/// A variable: the mirror and the recording it belongs to; what a moved-from one holds is not
/// specified
#[derive(Clone, Copy)]
enum Var {
    Known(ADouble, Option<usize>),
    Moved,
}

struct Rec {
    cid: usize,
    mirror: Option<AContext>,
    deps: usize,
    /// assigned over, and now held by the object that was moved from
    linger: bool,
}

struct World {
    v: Vec<Option<Var>>,
    /// None: no object. Some(None): moved from
    c: Vec<Option<Option<usize>>>,
    recs: Vec<Rec>,
}

impl World {
    fn new(nv: usize, nc: usize) -> World {
        unsafe {
            if sh_init() <= 0 {
                panic!("engine: no allocation hooks");
            }
            sh_reset();
        }
        World { v: vec![None; nv], c: vec![None; nc], recs: vec![] }
    }
    fn alive(&self, t: Option<usize>) -> Option<usize> {
        t.filter(|r| self.recs[*r].mirror.is_some())
    }
    fn var(&self, i: usize) -> Var {
        self.v[i].unwrap()
    }
    /// can be operands of one operation
    fn compatible(&self, a: usize, b: usize) -> bool {
        match (self.var(a), self.var(b)) {
            (Var::Known(_, s), Var::Known(_, t)) => s.is_none() || t.is_none() || s == t,
            _ => a == b,
        }
    }
    fn tag(&self, a: Option<usize>, b: Option<usize>) -> Option<usize> {
        self.alive(a.or(b)).or(self.lingering(a)).or(self.lingering(b))
    }
    fn lingering(&self, t: Option<usize>) -> Option<usize> {
        t.filter(|r| self.recs[*r].linger)
    }
    fn set(&mut self, i: usize, x: Option<(ADouble, Option<usize>)>) {
        self.v[i] = Some(match x {
            Some((x, t)) => Var::Known(x, t),
            None => Var::Moved,
        });
    }
    /// a recording begins: finds the context that the C++ side made
    fn begin(&mut self, make: impl FnOnce()) -> Result<usize, String> {
        let before = AContext::new().cid();
        make();
        let mut found = None;
        for d in 1..=16 {
            if let Some(h) = AContext::from_cid(before + d) {
                if found.is_some() {
                    return Err("more than one context was created".into());
                }
                found = Some(h.cid());
            }
        }
        let Some(cid) = found else {
            return Err("no context was created".into());
        };
        self.recs.push(Rec { cid, mirror: Some(AContext::new()), deps: 0, linger: false });
        Ok(self.recs.len() - 1)
    }
    fn end(&mut self, r: Option<usize>) -> Res {
        if let Some(r) = r {
            self.recs[r].mirror = None;
            if AContext::from_cid(self.recs[r].cid).is_some() {
                return Err("a context whose C++ object is gone is still alive".into());
            }
        }
        Ok(())
    }
    fn alive_check(&self) -> Res {
        for (k, c) in self.c.iter().enumerate() {
            if let Some(Some(r)) = c {
                if AContext::from_cid(self.recs[*r].cid).is_none() {
                    return Err(format!("the context of C++ object {} is gone", k));
                }
            }
        }
        Ok(())
    }

    fn apply(&mut self, a: Act) -> Res {
        unsafe {
            match a {
                Default(i) => {
                    sh_default(i as i32);
                    self.set(i, Some((con(0.0), None)));
                }
                From(i, x) => {
                    sh_from(i as i32, x);
                    self.set(i, Some((con(x), None)));
                }
                Copy(i, j) => {
                    sh_copy(i as i32, j as i32);
                    self.v[i] = self.v[j];
                }
                Move(i, j) => {
                    sh_move(i as i32, j as i32);
                    self.v[i] = self.v[j];
                    self.v[j] = Some(Var::Moved);
                }
                Assign(i, j) => {
                    sh_assign(i as i32, j as i32);
                    self.v[i] = self.v[j];
                }
                MAssign(i, j) => {
                    sh_massign(i as i32, j as i32);
                    self.v[i] = self.v[j];
                    if i != j {
                        self.v[j] = Some(Var::Moved);
                    }
                }
                AssignDouble(i, x) => {
                    sh_assign_double(i as i32, x);
                    self.set(i, Some((con(x), None)));
                }
                Swap(i, j) => {
                    sh_swap(i as i32, j as i32);
                    self.v.swap(i, j);
                }
                Pass(i, j) => {
                    sh_pass(i as i32, j as i32);
                    self.v[i] = self.v[j];
                }
                PassMove(i, j) => {
                    sh_pass_move(i as i32, j as i32);
                    self.v[i] = self.v[j];
                    if i != j {
                        self.v[j] = Some(Var::Moved);
                    }
                }
                Named(i, j, w) => {
                    sh_named(i as i32, j as i32, w as i32);
                    self.v[i] = self.v[j];
                }
                Vector(i, j) => {
                    sh_vector(i as i32, j as i32);
                    self.v[i] = self.v[j];
                }
                Del(i) => {
                    sh_del(i as i32);
                    self.v[i] = None;
                }
                CNew(k) => {
                    let r = self.begin(|| sh_cnew(k as i32))?;
                    self.c[k] = Some(Some(r));
                }
                CMove(k, l) => {
                    sh_cmove(k as i32, l as i32);
                    self.c[k] = self.c[l];
                    self.c[l] = Some(None);
                }
                CMAssign(k, l) => {
                    sh_cmassign(k as i32, l as i32);
                    if k != l {
                        let old = self.c[k].unwrap();
                        self.c[k] = self.c[l];
                        self.c[l] = Some(None);
                        // what was there goes at once, or with the moved-from object
                        if let Some(r) = old {
                            self.recs[r].mirror = None;
                            self.recs[r].linger = AContext::from_cid(self.recs[r].cid).is_some();
                        }
                    }
                }
                CReset(k) => {
                    let old = self.c[k].unwrap();
                    let r = self.begin(|| sh_creset(k as i32))?;
                    self.c[k] = Some(Some(r));
                    self.end(old)?;
                }
                CSwap(k, l) => {
                    sh_cswap(k as i32, l as i32);
                    self.c.swap(k, l);
                }
                CDel(k) => {
                    let old = self.c[k].unwrap();
                    sh_cdel(k as i32);
                    self.c[k] = None;
                    self.end(old)?;
                }
                Indep(i, k) => {
                    sh_indep(i as i32, k as i32);
                    let r = self.c[k].unwrap().unwrap();
                    let x: ADouble = self.recs[r].mirror.as_mut().unwrap().new_indep(0.0);
                    self.set(i, Some((x, Some(r))));
                }
                Dep(k, i) => {
                    sh_dep(k as i32, i as i32);
                    let r = self.c[k].unwrap().unwrap();
                    let Var::Known(x, _) = self.var(i) else { unreachable!() };
                    self.recs[r].mirror.as_mut().unwrap().set_dep(&x);
                    self.recs[r].deps += 1;
                }
                VV(op, i, a, b) => {
                    sh_vv(op, i as i32, a as i32, b as i32);
                    let r = match (self.var(a), self.var(b)) {
                        (Var::Known(x, s), Var::Known(y, t)) => Some((vv(op, x, y), self.tag(s, t))),
                        _ => None,
                    };
                    self.set(i, r);
                }
                VD(op, i, a, y) => {
                    sh_vd(op, i as i32, a as i32, y);
                    let r = match self.var(a) {
                        Var::Known(x, s) => Some((vv(op, x, con(y)), self.tag(s, s))),
                        _ => None,
                    };
                    self.set(i, r);
                }
                DV(op, i, x, b) => {
                    sh_dv(op, i as i32, x, b as i32);
                    let r = match self.var(b) {
                        Var::Known(y, s) => Some((vv(op, con(x), y), self.tag(s, s))),
                        _ => None,
                    };
                    self.set(i, r);
                }
                Un(f, i, a) => {
                    sh_un(f, i as i32, a as i32);
                    let r = match self.var(a) {
                        Var::Known(x, s) => Some((un(f, x), self.tag(s, s))),
                        _ => None,
                    };
                    self.set(i, r);
                }
                Expr(e, i, a, b) => {
                    sh_expr(e, i as i32, a as i32, b as i32);
                    let r = match (self.var(a), self.var(b)) {
                        (Var::Known(x, s), Var::Known(y, t)) => Some((expr(e, x, y), self.tag(s, t))),
                        _ => None,
                    };
                    self.set(i, r);
                }
            }
        }
        Ok(())
    }

    /// Everything that can be seen of all variables and recordings, with additional calls
    fn observe(&mut self) -> Res {
        self.alive_check()?;
        for i in 0..self.v.len() {
            let Some(Var::Known(x, t)) = self.v[i] else { continue };
            if let Some(r) = self.alive(t) {
                let k = self.c.iter().position(|c| *c == Some(Some(r))).ok_or("engine: recording without a context")?;
                self.apply(Dep(k, i))?;
            } else if self.lingering(t).is_none() {
                // a constant: its value shows in a fresh recording
                let before = AContext::new().cid();
                unsafe {
                    sh_cnew(NOBS);
                    sh_vd(2, NOBS, i as i32, 1.0);
                    sh_dep(NOBS, NOBS);
                }
                let h = (1..=16).filter_map(|d| AContext::from_cid(before + d)).next().ok_or("no context was created")?;
                let y = h.tape().y();
                let ok = y.nrows() == 1 && same(y[0], x.value() * 1.0, 0.0);
                drop(h);
                unsafe {
                    sh_del(NOBS);
                    sh_cdel(NOBS);
                }
                if !ok {
                    return Err(format!("variable {} is {:?} instead of {}", i, y.as_slice(), x.value()));
                }
            }
        }
        for r in &self.recs {
            let Some(m) = &r.mirror else { continue };
            let h = AContext::from_cid(r.cid).ok_or("a recording is gone")?;
            compare(&h.tape(), &m.tape())?;
        }
        Ok(())
    }

    fn destroy(&mut self, contexts_first: bool, forward: bool) -> Res {
        let mut acts = vec![];
        for i in 0..self.v.len() {
            if self.v[i].is_some() {
                acts.push(Del(i));
            }
        }
        let n = acts.len();
        for k in 0..self.c.len() {
            if self.c[k].is_some() {
                acts.push(CDel(k));
            }
        }
        if contexts_first {
            acts.rotate_left(n);
        }
        if !forward {
            acts.reverse();
        }
        for a in acts {
            self.apply(a)?;
        }
        for r in &mut self.recs {
            if r.linger && AContext::from_cid(r.cid).is_some() {
                return Err("an assigned-over context is alive after everything was destroyed".into());
            }
            r.mirror = None;
        }
        let l = unsafe { sh_live() };
        if l != 0 {
            return Err(format!("{} allocations are left after everything was destroyed", l));
        }
        Ok(())
    }
}

fn same(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || b.is_finite() && (a - b).abs() <= tol * b.abs().max(1.0)
}
fn vecs(what: &str, a: &DVector<f64>, b: &DVector<f64>) -> Res {
    if a.nrows() != b.nrows() || a.iter().zip(b.iter()).any(|(a, b)| !same(*a, *b, 1e-12)) {
        return Err(format!("{}: {:?} instead of {:?}", what, a.as_slice(), b.as_slice()));
    }
    Ok(())
}

/// Both recordings are the same function
fn compare(t: &(impl Tape + Clone), m: &(impl Tape + Clone)) -> Res {
    vecs("recorded inputs", &t.x(), &m.x())?;
    vecs("recorded outputs", &t.y(), &m.y())?;
    let n = t.num_indeps();
    let (mut t, mut m) = (t.clone(), m.clone());
    let smooth = m.num_abs() == 0 && t.num_abs() == 0;
    for p in [[0.5, -1.25, 2.0, 1.5], [2.0, 3.0, -0.75, 0.25], [-1.5, 0.75, 0.375, -3.0], [1.0, 1.0, 1.0, 1.0]] {
        let x = DVector::from_fn(n, |i, _| p[i % 4] + (i / 4) as f64);
        t.zero_order(&x);
        m.zero_order(&x);
        vecs(&format!("outputs at {:?}", x.as_slice()), &t.y(), &m.y())?;
        if smooth {
            let d = DVector::from_fn(n, |i, _| 1.0 + 0.5 * i as f64);
            vecs(&format!("derivatives at {:?}", x.as_slice()), &t.first_order_forward(&d), &m.first_order_forward(&d))?;
            let w = DVector::from_fn(t.num_deps(), |i, _| 1.0 - 0.75 * i as f64);
            vecs(&format!("gradients at {:?}", x.as_slice()), &t.first_order_reverse(&w), &m.first_order_reverse(&w))?;
        }
    }
    Ok(())
}

/// All actions on these objects that are defined behaviour
struct Alphabet {
    /// passing through functions and containers
    calls: bool,
    /// operations
    ops: bool,
    /// default construction and doubles
    constants: bool,
    dep: bool,
}

fn actions(w: &World, al: &Alphabet) -> Vec<Act> {
    let mut a = vec![];
    let nv = w.v.len();
    let live: Vec<usize> = (0..nv).filter(|i| w.v[*i].is_some()).collect();
    // of equal free slots the first is used
    let free = (0..nv).find(|i| w.v[*i].is_none());
    let recording: Vec<usize> = (0..w.c.len()).filter(|k| matches!(w.c[*k], Some(Some(_)))).collect();
    if let Some(i) = free {
        if al.constants {
            a.push(Default(i));
        }
        a.push(From(i, 1.5));
        for &j in &live {
            a.push(Copy(i, j));
            a.push(Move(i, j));
        }
        for &k in &recording {
            a.push(Indep(i, k));
        }
    }
    for &i in &live {
        a.push(Del(i));
        if al.constants {
            a.push(AssignDouble(i, -2.25));
        }
        for &j in &live {
            a.push(Assign(i, j));
            a.push(MAssign(i, j));
            if i < j {
                a.push(Swap(i, j));
            }
            if al.calls {
                a.push(Pass(i, j));
                a.push(PassMove(i, j));
                a.push(Named(i, j, true));
                a.push(Vector(i, j));
            }
            if al.ops && w.compatible(i, j) {
                a.push(VV(2, i, i, j));
            }
        }
        if al.ops {
            a.push(VD(0, i, i, 0.5));
        }
        for &k in &recording {
            if al.constants {
                a.push(Indep(i, k));
            }
            if let Var::Known(_, t) = w.var(i) {
                let r = w.c[k].unwrap();
                if al.dep && (t.is_none() || t == r) {
                    a.push(Dep(k, i));
                }
            }
        }
    }
    let nc = w.c.len();
    let obj: Vec<usize> = (0..nc).filter(|k| w.c[*k].is_some()).collect();
    if let Some(k) = (0..nc).find(|k| w.c[*k].is_none()) {
        a.push(CNew(k));
        for &l in &obj {
            a.push(CMove(k, l));
        }
    }
    for &k in &obj {
        a.push(CDel(k));
        a.push(CReset(k));
        for &l in &obj {
            a.push(CMAssign(k, l));
            if k < l {
                a.push(CSwap(k, l));
            }
        }
    }
    a
}

fn history(nv: usize, nc: usize, depth: usize, al: Alphabet, prefix: Vec<Act>) -> impl Fn(&mut Ex, usize) -> Res {
    move |ex, unit| {
        let mut w = World::new(nv, nc);
        for a in &prefix {
            w.apply(*a)?;
        }
        let mut trail: Vec<Act> = vec![];
        for d in 0..depth {
            let acts = actions(&w, &al);
            if d == 0 && acts.len() > 60 {
                panic!("engine: too few units");
            }
            let k = if d == 0 {
                // the first action comes from the unit
                if unit >= acts.len() {
                    ex.skip();
                    break;
                }
                unit + 1
            } else {
                ex.choose(acts.len() + 1)
            };
            if k == 0 {
                break;
            }
            let a = acts[k - 1];
            ex.note(|| format!("{:?}", a));
            ex.step();
            w.apply(a).map_err(|e| format!("{} at {:?}", e, a))?;
            w.alive_check().map_err(|e| format!("{} at {:?}", e, a))?;
            trail.push(a);
            ex.state(&format!("{:?}", trail));
        }
        let both = w.v.iter().any(|v| v.is_some()) && w.c.iter().any(|c| c.is_some());
        let cf = both && ex.flag();
        ex.note(|| format!("then observe everything and destroy {} first", if cf { "the contexts" } else { "the variables" }));
        w.observe()?;
        ex.outcome(&w.recs.iter().map(|r| r.deps).collect::<Vec<_>>());
        w.destroy(cf, trail.len() % 2 == 0)
    }
}

pub fn c19(t: bool) -> Check {
    let d = |a: usize, b: usize| if t { b } else { a };
    let (dv, dc, dm, dx) = (d(5, 6), d(5, 6), d(4, 5), d(3, 4));
    let vars = || Alphabet { calls: false, ops: false, constants: true, dep: false };
    Check {
        property: "C19",
        harnesses: vec![
            Harness {
                name: "variables",
                bound: format!("3 variables, no context: all histories up to {} actions", dv),
                units: 60,
                run: Box::new(history(3, 0, dv, vars(), vec![])),
            },
            Harness {
                name: "contexts",
                bound: format!("3 contexts and 1 variable: all histories up to {} actions", dc),
                units: 60,
                run: Box::new(history(1, 3, dc, Alphabet { calls: false, ops: false, constants: false, dep: false }, vec![])),
            },
            Harness {
                name: "recorded variables",
                bound: format!("2 variables, 1 context, an input and its square: all histories up to {} further actions", dm),
                units: 60,
                run: Box::new(history(2, 1, dm, Alphabet { calls: false, ops: true, constants: true, dep: true }, vec![CNew(0), Indep(0, 0), VV(2, 1, 0, 0)])),
            },
            Harness {
                name: "two recordings",
                bound: format!("2 variables, 2 contexts, an input of each: all histories up to {} further actions", dm),
                units: 60,
                run: Box::new(history(2, 2, dm, Alphabet { calls: false, ops: false, constants: false, dep: true }, vec![CNew(0), CNew(1), Indep(0, 0), Indep(1, 1)])),
            },
            Harness {
                name: "calls",
                bound: format!("3 variables, 1 context, as arguments, results and in containers: all histories up to {} further actions", dx),
                units: 60,
                run: Box::new(history(3, 1, dx, Alphabet { calls: true, ops: true, constants: false, dep: false }, vec![CNew(0), Indep(0, 0), From(1, 1.5)])),
            },
        ],
        assumptions: vec![
            "allocations in the C++ calls are counted by hooks of the allocator; a growing table of the library counts as freed when replaced".into(),
            "what a moved-from object holds is not specified; it is used, assigned and destroyed".into(),
        ],
    }
}

const CONS: [f64; 3] = [2.0, -0.75, 0.5];

/// One operation with given operands, into a new slot
fn op_choice(ex: &mut Ex, w: &World, i: usize, full: bool) -> Act {
    let n = i;
    let kind = ex.choose(5);
    let last = n - 1;
    match kind {
        0 => {
            let op = ex.choose(6) as i32;
            if full {
                let a = ex.choose(n);
                let b = ex.choose(n);
                VV(op, i, a, b)
            } else {
                // one of the operands is the newest
                let a = ex.choose(n);
                if ex.flag() {
                    VV(op, i, a, last)
                } else {
                    VV(op, i, last, a)
                }
            }
        }
        1 => {
            let op = ex.choose(6) as i32;
            let a = if full { ex.choose(n) } else { last };
            let k = if full { ex.choose(CONS.len()) } else { 0 };
            VD(op, i, a, CONS[k])
        }
        2 => {
            let op = ex.choose(6) as i32;
            let a = if full { ex.choose(n) } else { last };
            let k = if full { ex.choose(CONS.len()) } else { 0 };
            DV(op, i, CONS[k], a)
        }
        3 => {
            let f = ex.choose(6) as i32;
            let a = if full { ex.choose(n) } else { last };
            Un(f, i, a)
        }
        _ => {
            let e = ex.choose(4) as i32;
            let a = ex.choose(n.min(2));
            let _ = w;
            Expr(e, i, a, last)
        }
    }
}

/// inputs, constants, then operations; outputs are marked at the end or in between
fn programs(depth: usize, full: bool) -> impl Fn(&mut Ex, usize) -> Res {
    move |ex, unit| {
        let mut w = World::new(2 + depth, 1);
        let mut acts = vec![CNew(0)];
        match unit % 3 {
            0 => acts.extend([Indep(0, 0), Indep(1, 0)]),
            1 => acts.extend([Indep(0, 0), From(1, -1.5)]),
            _ => acts.extend([From(0, 0.25), Indep(1, 0)]),
        }
        for a in &acts {
            w.apply(*a)?;
        }
        let mut trail = vec![format!("{}", unit % 3)];
        for d in 0..depth {
            let i = 2 + d;
            let a = op_choice(ex, &w, i, full);
            ex.note(|| format!("{:?}", a));
            ex.step();
            w.apply(a).map_err(|e| format!("{} at {:?}", e, a))?;
            trail.push(format!("{:?}", a));
            ex.state(&trail);
        }
        // outputs: the results in order, an input twice
        let mut deps = vec![Dep(0, 1 + depth), Dep(0, 0)];
        if unit / 3 == 1 {
            deps = vec![Dep(0, 1), Dep(0, 1 + depth), Dep(0, 1), Dep(0, 2)];
        }
        for a in deps {
            w.apply(a)?;
        }
        for r in &w.recs {
            let h = AContext::from_cid(r.cid).ok_or("a recording is gone")?;
            compare(&h.tape(), &r.mirror.as_ref().unwrap().tape())?;
            ex.outcome(&h.tape().y().iter().map(|y| y.to_bits()).collect::<Vec<_>>());
        }
        w.destroy(false, true)
    }
}

/// Values of constants: everything without recording, at all combinations of values
fn constants() -> impl Fn(&mut Ex, usize) -> Res {
    let g = [0.0, -0.0, 0.5, -1.5, 3.0, 1e-300, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
    move |ex, unit| {
        let mut w = World::new(3, 0);
        let x = g[unit];
        let kind = ex.choose(5);
        let acts = match kind {
            0 => {
                let (op, y) = (ex.choose(6) as i32, ex.pick(&g));
                vec![From(0, x), From(1, y), VV(op, 2, 0, 1)]
            }
            1 => {
                let (op, y) = (ex.choose(6) as i32, ex.pick(&g));
                vec![From(0, x), VD(op, 2, 0, y)]
            }
            2 => {
                let (op, y) = (ex.choose(6) as i32, ex.pick(&g));
                vec![From(0, x), DV(op, 2, y, 0)]
            }
            3 => {
                let f = ex.choose(6) as i32;
                vec![From(0, x), Un(f, 2, 0)]
            }
            _ => {
                // an operation over an existing variable, and with itself
                let op = ex.choose(6) as i32;
                vec![From(0, x), VV(op, 0, 0, 0)]
            }
        };
        for a in acts {
            ex.note(|| format!("{:?}", a));
            ex.step();
            w.apply(a)?;
        }
        ex.state(&(unit, kind, w.v.iter().flatten().map(|v| if let Var::Known(x, _) = v { x.value().to_bits() } else { 0 }).collect::<Vec<_>>()));
        w.observe()?;
        w.destroy(false, false)
    }
}

/// The overloads for plain doubles
fn plain() -> impl Fn(&mut Ex, usize) -> Res {
    let g = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 2.0, -3.25, 10.0, -100.0, 1e-300, -1e-300, 1e300, -1e300, 5e-324, f64::MAX, f64::MIN, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
    move |ex, unit| {
        let f = unit;
        let x = ex.pick(&g);
        ex.step();
        let (r, e, d) = if f < 6 {
            let r = unsafe { sh_dun(f as i32, x) };
            let e = [f64::sin, f64::cos, f64::tan, f64::abs, f64::exp, f64::ln][f](x);
            (r, e, format!("{} of {}", ["sin", "cos", "tan", "abs", "exp", "ln"][f], x))
        } else {
            let y = ex.pick(&g);
            if x.is_nan() || y.is_nan() {
                // the standard functions differ from each other
                ex.skip();
                return Ok(());
            }
            let r = unsafe { sh_dbin(f as i32 - 6, x, y) };
            (r, if f == 6 { x.min(y) } else { x.max(y) }, format!("{} of {} and {}", ["min", "max"][f - 6], x, y))
        };
        ex.note(|| d.clone());
        ex.state(&d);
        ex.outcome(&r.to_bits());
        // a zero keeps its sign; that of equal zeros of min and max is open
        if f < 6 && e == 0.0 && r == 0.0 && r.is_sign_negative() != e.is_sign_negative() {
            return Err(format!("{} is {:?} instead of {:?}", d, r, e));
        }
        if !same(r, e, 0.0) && !(f < 6 && e.is_finite() && (r - e).abs() <= 1e-15 * e.abs()) {
            return Err(format!("{} is {} instead of {}", d, r, e));
        }
        Ok(())
    }
}

pub fn c18(t: bool) -> Check {
    let (f, p) = if t { (3, 3) } else { (2, 3) };
    Check {
        property: "C18",
        harnesses: vec![
            Harness { name: "full", bound: format!("all programs of {} operations over all operands and 3 doubles, inputs and constants in 3 arrangements, outputs in 2", f), units: 6, run: Box::new(programs(f, true)) },
            Harness { name: "deep", bound: format!("all programs of {} operations that use the newest result", p), units: 6, run: Box::new(programs(p, false)) },
            Harness { name: "constants", bound: "all operations on all pairs of 10 special values".into(), units: 10, run: Box::new(constants()) },
            Harness { name: "doubles", bound: "all overloads for doubles at all (pairs of) 21 values; min and max without NaN".into(), units: 8, run: Box::new(plain()) },
        ],
        assumptions: vec!["recordings are compared with those of the Rust operations as functions at four points, derivatives where no abs occurs".into()],
    }
}
