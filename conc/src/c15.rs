//! C15 threads sharing one context record a consistent tape
use crate::rt::*;
use crate::wf::well_formed;
use crate::{Check, Group};
use advantage::{AContext, ADouble, DVector, Float, OpCode, Operation, Tape};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

/// A small number type of its own for the expected values: value and gradient
#[derive(Clone, Copy, Debug)]
struct Dual {
    v: f64,
    d: f64,
}

/// The operations of a script, on the shared inputs and the thread's results so far. All are exact
/// at the points used.
fn op_a(a: char, x: &[ADouble], r: &[ADouble]) -> ADouble {
    let l = *r.last().unwrap_or(&x[0]);
    match a {
        'a' => x[0] + x[1],
        'm' => l * x[1],
        'q' => l * l,
        's' => x[0] - l,
        'c' => l + 2.0,
        'k' => 3.0 - l,
        'K' => ADouble::new(4.0, 0.0) * l,
        'n' => -l,
        'b' => Float::abs(l),
        'z' => Float::max(l, x[1]),
        'A' => {
            let mut y = l;
            y += x[1];
            y
        }
        'e' => Float::powi(x[1], 2),
        _ => unreachable!(),
    }
}
fn op_f(a: char, x: &[Dual], r: &[Dual]) -> Dual {
    let l = *r.last().unwrap_or(&x[0]);
    let c = |v: f64| Dual { v, d: 0.0 };
    let add = |a: Dual, b: Dual| Dual { v: a.v + b.v, d: a.d + b.d };
    let sub = |a: Dual, b: Dual| Dual { v: a.v - b.v, d: a.d - b.d };
    let mul = |a: Dual, b: Dual| Dual { v: a.v * b.v, d: a.v * b.d + a.d * b.v };
    let abs = |a: Dual| Dual { v: a.v.abs(), d: (a.v + a.d).abs() - a.v.abs() };
    match a {
        'a' => add(x[0], x[1]),
        'm' => mul(l, x[1]),
        'q' => mul(l, l),
        's' => sub(x[0], l),
        'c' => add(l, c(2.0)),
        'k' => sub(c(3.0), l),
        'K' => mul(c(4.0), l),
        'n' => sub(c(0.0), l),
        'b' => abs(l),
        'z' => {
            let d = abs(sub(l, x[1]));
            mul(c(0.5), add(add(l, x[1]), d))
        }
        'A' => add(l, x[1]),
        'e' => mul(x[1], x[1]),
        _ => unreachable!(),
    }
}
const OPS: &str = "amqsckKnbzAe";

const X: [[f64; 2]; 3] = [[1.0, 2.0], [-3.0, 4.0], [5.0, -0.5]];
const DX: [f64; 2] = [1.0, 0.5];

struct Out {
    res: Vec<ADouble>,
    snaps: Vec<Box<dyn Snap>>,
    indeps: Vec<ADouble>,
    looks: Vec<bool>,
    sizes: Vec<usize>,
}

/// a tape together with how many results of its thread precede it
trait Snap {
    fn check(&mut self) -> Result<usize, String>;
    fn before(&self) -> usize;
    fn contains(&self, v: f64) -> bool;
}
struct S<T: Tape>(T, usize);
impl<T: Tape> Snap for S<T> {
    fn check(&mut self) -> Result<usize, String> {
        let n = well_formed(&self.0)?.len();
        // the values are those of its own operations
        let old = self.0.values().to_vec();
        let x = self.0.x();
        self.0.zero_order(&x);
        if self.0.values().iter().map(|v| v.to_bits()).ne(old.iter().map(|v| v.to_bits())) {
            return Err(format!("a snapshot holds the values {:?}, its operations give {:?}", old, self.0.values()));
        }
        self.0.first_order_forward(&x);
        Ok(n)
    }
    fn before(&self) -> usize {
        self.1
    }
    fn contains(&self, v: f64) -> bool {
        self.0.values().iter().any(|w| w.to_bits() == v.to_bits())
    }
}

/// Actions besides operations: T take a tape, I mark another input, D mark the last result as
/// output, X drop the handle, L take a handle by look-up, V query the values, Q query everything else
fn script(s: &str, mut h: Option<AContext>, cid: usize, x: &[ADouble], k: f64) -> Result<Out, String> {
    let mut o = Out { res: vec![], snaps: vec![], indeps: vec![], looks: vec![], sizes: vec![] };
    for a in s.chars() {
        match a {
            'T' => {
                if let Some(c) = &h {
                    o.snaps.push(Box::new(S(c.tape(), o.res.len())));
                }
            }
            'I' => {
                if let Some(c) = &mut h {
                    o.indeps.push(c.new_indep(k));
                }
            }
            'D' => {
                if let Some(c) = &mut h {
                    c.set_dep(o.res.last().unwrap_or(&x[0]));
                }
            }
            'Q' => {
                if let Some(c) = &h {
                    let (d, i, o) = (c.deps(), c.indeps(), c.operations());
                    let n = c.values().len();
                    if c.cid() != cid || d.iter().chain(&i).any(|v| *v >= n) || o.iter().any(|o| o.vid >= n) {
                        return Err("the recording lacks values".into());
                    }
                }
            }
            'X' => h = None,
            'L' => {
                h = AContext::from_cid(cid);
                if let Some(h) = &h {
                    if h.cid() != cid {
                        return Err(format!("context {} is found under {}", h.cid(), cid));
                    }
                }
                o.looks.push(h.is_some());
            }
            'V' => {
                if let Some(c) = &h {
                    let n = c.values().len();
                    let m = c.operations().len();
                    // values never disappear; every operation has one
                    if o.sizes.last().map_or(false, |l| n < *l) {
                        return Err("values disappear from the recording".into());
                    }
                    if c.values().len() < m {
                        return Err("an operation has no value".into());
                    }
                    o.sizes.push(n);
                }
            }
            _ => {
                let r = op_a(a, x, &o.res);
                o.res.push(r);
            }
        }
    }
    Ok(o)
}

fn expected(s: &str, at: &[f64; 2]) -> Vec<Dual> {
    let x: Vec<Dual> = (0..2).map(|i| Dual { v: at[i], d: DX[i] }).collect();
    let mut r = vec![];
    for a in s.chars().filter(|a| OPS.contains(*a)) {
        let y = op_f(a, &x, &r);
        r.push(y);
    }
    r
}

/// the operations one thread alone records
fn alone(s: &str) -> Vec<OpCode> {
    let mut c = AContext::new();
    let x: Vec<ADouble> = (0..2).map(|i| c.new_indep(X[0][i])).collect();
    let mut r = vec![];
    for a in s.chars().filter(|a| OPS.contains(*a)) {
        let y = op_a(a, &x, &r);
        r.push(y);
    }
    c.operations().iter().map(|o: &Operation| o.opcode).collect()
}

fn count(v: &[OpCode]) -> Vec<(String, usize)> {
    let mut n: Vec<String> = v.iter().map(|o| format!("{:?}", o)).collect();
    n.sort();
    let mut r: Vec<(String, usize)> = vec![];
    for o in n {
        match r.last_mut() {
            Some(l) if l.0 == o => l.1 += 1,
            _ => r.push((o, 1)),
        }
    }
    r
}

/// `own`: the body keeps the context to the end; otherwise the first thread holds the only handle
fn shared(group: &'static str, ss: Vec<String>, keep: bool, bound: i32, limit: i64) -> Scenario {
    filled(group, ss, keep, bound, limit, 0)
}
/// `fill` operations are recorded before the threads start
fn filled(group: &'static str, ss: Vec<String>, keep: bool, bound: i32, limit: i64, fill: usize) -> Scenario {
    let name = format!("{}{}{}", ss.join(" | "), if keep { "" } else { " (first thread owns)" }, if fill > 0 { format!(" after {} operations", fill) } else { String::new() });
    let want: Vec<Vec<Vec<Dual>>> = X.iter().map(|x| ss.iter().map(|s| expected(s, x)).collect()).collect();
    let all: Vec<OpCode> = ss.iter().flat_map(|s| alone(s)).chain((0..fill).map(|_| OpCode::Add)).collect();
    let all = count(&all);
    Scenario {
        group,
        name,
        pool: 1,
        bound,
        delays: -1,
        limit,
        body: Box::new(move || {
            let mut c = AContext::new();
            let cid = c.cid();
            // seeds let the derivatives be seen without a tape
            let x: Vec<ADouble> = (0..2)
                .map(|i| {
                    let mut v = ADouble::new(X[0][i], DX[i]);
                    c.set_indep(&mut v);
                    v
                })
                .collect();
            for _ in 0..fill {
                let _ = x[0] + x[1];
            }
            let mut keepc = Some(c);
            let mut fs: Vec<Box<dyn FnOnce() -> Result<Out, String>>> = vec![];
            for (i, s) in ss.iter().enumerate() {
                let s = s.clone();
                let x = x.clone();
                let h = if keep {
                    None
                } else if i == 0 {
                    keepc.take()
                } else {
                    None
                };
                fs.push(Box::new(move || {
                    let h = if keep { AContext::from_cid(cid) } else { h };
                    if keep && h.is_none() {
                        return Err("the context is not found while it lives".into());
                    }
                    script(&s, h, cid, &x, 10.0 + i as f64)
                }));
            }
            let outs: Vec<Out> = par(fs)?.into_iter().collect::<Result<_, _>>()?;
            let mut hash = DefaultHasher::new();
            // values and derivatives, whatever happened to the context
            for (i, o) in outs.iter().enumerate() {
                for (j, r) in o.res.iter().enumerate() {
                    let w = &want[0][i][j];
                    if r.value() != w.v || r.dvalue() != w.d {
                        return Err(format!("result {} of thread {} is {}/{} instead of {}/{}", j, i, r.value(), r.dvalue(), w.v, w.d));
                    }
                }
                o.looks.hash(&mut hash);
                o.sizes.hash(&mut hash);
            }
            let mut outs = outs;
            for (i, o) in outs.iter_mut().enumerate() {
                let res = o.res.clone();
                for s in o.snaps.iter_mut() {
                    let n = s.check().map_err(|e| format!("snapshot of thread {}: {}", i, e))?;
                    n.hash(&mut hash);
                    for r in &res[..s.before()] {
                        if !s.contains(r.value()) {
                            return Err(format!("a snapshot of thread {} lacks its own earlier result {}", i, r.value()));
                        }
                    }
                }
            }
            let Some(mut c) = keepc else {
                drop(outs);
                if AContext::from_cid(cid).is_some() {
                    return Err("the context is found after its end".into());
                }
                return Ok(hash.finish());
            };
            // the whole recording
            let codes: Vec<OpCode> = c.operations().iter().map(|o| o.opcode).collect();
            if count(&codes) != all {
                return Err(format!("recorded {:?} instead of {:?}", count(&codes), all));
            }
            for o in c.operations() {
                (format!("{:?}", o.opcode), o.arg1, o.arg2).hash(&mut hash);
            }
            let marked: Vec<f64> = ss
                .iter()
                .enumerate()
                .flat_map(|(i, s)| {
                    let mut r = vec![];
                    let mut last = X[0][0];
                    let mut n = 0;
                    for a in s.chars() {
                        if OPS.contains(a) {
                            last = want[0][i][n].v;
                            n += 1;
                        }
                        if a == 'D' {
                            r.push(last);
                        }
                    }
                    r
                })
                .collect();
            let first = c.deps().len();
            if first != marked.len() {
                return Err(format!("{} outputs instead of {}", first, marked.len()));
            }
            let mut order = vec![];
            for (i, o) in outs.iter().enumerate() {
                for (j, r) in o.res.iter().enumerate() {
                    c.set_dep(r);
                    order.push((i, j));
                }
            }
            for o in &outs {
                for r in &o.indeps {
                    c.set_dep(r);
                }
            }
            let extra: Vec<f64> = outs.iter().flat_map(|o| o.indeps.iter().map(|v| v.value())).collect();
            let mut t = c.tape();
            well_formed(&t)?;
            if t.num_indeps() != 2 + extra.len() {
                return Err(format!("{} inputs instead of {}", t.num_indeps(), 2 + extra.len()));
            }
            let mut got: Vec<f64> = t.x().iter().skip(2).cloned().collect();
            got.sort_by(|a, b| a.total_cmp(b));
            let mut ex = extra.clone();
            ex.sort_by(|a, b| a.total_cmp(b));
            if got != ex {
                return Err(format!("inputs {:?} instead of {:?}", got, ex));
            }
            let mut y0: Vec<f64> = t.y().iter().take(first).cloned().collect();
            y0.sort_by(|a, b| a.total_cmp(b));
            let mut m0 = marked.clone();
            m0.sort_by(|a, b| a.total_cmp(b));
            if y0 != m0 {
                return Err(format!("outputs {:?} instead of {:?}", y0, m0));
            }
            let rest: Vec<f64> = t.x().iter().skip(2).cloned().collect();
            for (k, at) in X.iter().enumerate().rev() {
                let mut xs = at.to_vec();
                xs.extend(rest.iter().map(|v| v + k as f64));
                t.zero_order(&DVector::from_vec(xs));
                let mut dx = DX.to_vec();
                dx.extend(rest.iter().map(|_| 0.0));
                let dy = t.first_order_forward(&DVector::from_vec(dx));
                let y = t.y();
                for (p, (i, j)) in order.iter().enumerate() {
                    let w = &want[k][*i][*j];
                    if y[first + p] != w.v || dy[first + p] != w.d {
                        return Err(format!("replayed at {:?}, result {} of thread {} is {}/{} instead of {}/{}", at, j, i, y[first + p], dy[first + p], w.v, w.d));
                    }
                }
                for (p, v) in extra.iter().enumerate() {
                    let g = y[first + order.len() + p];
                    if g != v + k as f64 {
                        return Err(format!("replayed at {:?}, an input is {} instead of {}", at, g, v + k as f64));
                    }
                }
            }
            drop(c);
            drop(outs);
            if AContext::from_cid(cid).is_some() {
                return Err("the context is found after its end".into());
            }
            Ok(hash.finish())
        }),
    }
}

/// a handle behind a mutex, as programs share one
fn guarded(group: &'static str, n: usize, bound: i32, limit: i64) -> Scenario {
    Scenario {
        group,
        name: format!("{} threads mark inputs and outputs through a mutex", n),
        pool: 1,
        bound,
        delays: -1,
        limit,
        body: Box::new(move || {
            let c = Mutex::new(AContext::new());
            let cr = &c;
            let fs: Vec<Box<dyn FnOnce() -> (f64, f64) + '_>> = (0..n)
                .map(|i| {
                    Box::new(move || {
                        let mut x: ADouble = cr.lock().unwrap().new_indep(1.0 + i as f64);
                        x *= 2.0;
                        let y = x * x;
                        cr.lock().unwrap().set_dep(&y);
                        (1.0 + i as f64, y.value())
                    }) as Box<dyn FnOnce() -> (f64, f64)>
                })
                .collect();
            let r = par(fs)?;
            let c = c.into_inner().unwrap();
            let mut t = c.tape();
            well_formed(&t)?;
            let (x, y) = (t.x(), t.y());
            let mut h = DefaultHasher::new();
            if x.len() != n || y.len() != n {
                return Err("inputs or outputs are missing".into());
            }
            for (a, b) in &r {
                if !x.iter().any(|v| v == a) || !y.iter().any(|v| v == b) {
                    return Err(format!("input {} or output {} is missing", a, b));
                }
                x.iter().position(|v| v == a).hash(&mut h);
                y.iter().position(|v| v == b).hash(&mut h);
            }
            let perm: Vec<usize> = y.iter().map(|v| x.iter().position(|a| 4.0 * a * a == *v).unwrap_or(99)).collect();
            t.zero_order(&DVector::from_fn(n, |i, _| 5.0 + i as f64));
            let y = t.y();
            for (k, p) in perm.iter().enumerate() {
                let v = 5.0 + *p as f64;
                if y[k] != 4.0 * v * v {
                    return Err(format!("output {} is {} instead of {}", k, y[k], 4.0 * v * v));
                }
            }
            Ok(h.finish())
        }),
    }
}

pub fn check(t: bool) -> Check {
    let b = if t { 4 } else { 3 };
    let lim = if t { 5_000_000 } else { 600_000 };
    let mut sc = vec![];
    // one operation each: all pairs
    let ops: Vec<String> = OPS.chars().map(|c| c.to_string()).collect();
    for i in 0..ops.len() {
        for j in i..ops.len() {
            sc.push(shared("single operations", vec![ops[i].clone(), ops[j].clone()], true, b, lim));
        }
    }
    // with queries, marks, snapshots and look-ups
    let acts: Vec<&str> = if t { vec!["T", "aT", "Tc", "I", "D", "mD", "ID", "V", "LX", "cm", "qk", "TmT", "aTX", "XLa", "VmV", "Q", "aQ"] } else { vec!["T", "aT", "I", "mD", "V", "XLa", "cm", "TmT", "Q"] };
    for i in 0..acts.len() {
        for j in i..acts.len() {
            sc.push(shared("mixed", vec![acts[i].into(), acts[j].into()], true, b, lim));
        }
    }
    // the context ends while others compute
    let owner: Vec<&str> = vec!["X", "mX", "TX", "DX", "aTX"];
    let other: Vec<&str> = if t { vec!["a", "c", "cm", "z", "La", "LaT", "LcX", "LIa", "LDX", "LVT", "LTmT"] } else { vec!["a", "c", "z", "LaT", "LIa", "LDX"] };
    for o in &owner {
        for p in &other {
            sc.push(shared("ending", vec![o.to_string(), p.to_string()], false, b, lim));
        }
    }
    for (p, q) in [("a", "a"), ("La", "c"), ("LX", "LX"), ("LT", "m")] {
        sc.push(shared("ending", vec!["X".into(), p.into(), q.into()], false, if t { 2 } else { 1 }, lim));
    }
    // three threads
    let tri: Vec<&str> = if t { vec!["a", "c", "T", "I", "mD", "LX"] } else { vec!["a", "c", "T", "I"] };
    for i in 0..tri.len() {
        for j in i..tri.len() {
            for k in j..tri.len() {
                sc.push(shared("three threads", vec![tri[i].into(), tri[j].into(), tri[k].into()], true, if t { 2 } else { 1 }, lim));
            }
        }
    }
    // recordings that are long already: around the sizes at which storage grows
    let mut sizes: Vec<usize> = vec![14, 30, 62, 126, 254, 510, 1022, 2046, 4094];
    if t {
        sizes.extend([6, 8190, 10_000, 16_382, 32_766, 65_534]);
    }
    let long: Vec<(&str, &str)> = if t { vec![("am", "am"), ("cm", "cm"), ("aT", "cm"), ("aI", "cD"), ("aV", "aQ")] } else { vec![("am", "am"), ("aT", "cm"), ("aI", "cD")] };
    for &z in &sizes {
        for (p, q) in &long {
            // one before, at and one after
            for f in if t || z > 1000 { z - 1..z + 2 } else { z..z + 1 } {
                let nb = if z > 20_000 || !t && f > z { 1 } else { 2 };
                sc.push(filled("long recordings", vec![p.to_string(), q.to_string()], true, nb, lim, f));
            }
        }
    }
    sc.push(guarded("mutex", 2, b, lim));
    sc.push(guarded("mutex", 3, 1, lim));
    sc.sort_by_key(|s| s.group != "long recordings");
    Check {
        groups: vec![
            Group { name: "single operations", bound: format!("all pairs of {} operations on shared variables, at most {} preemptions", ops.len(), b) },
            Group { name: "mixed", bound: format!("all pairs of {} scripts with operations, snapshots, marks, queries and look-ups, at most {} preemptions", acts.len(), b) },
            Group { name: "ending", bound: format!("{} owners dropping the only handle against {} computing threads, at most {} preemptions, and some triples", owner.len(), other.len(), b) },
            Group { name: "three threads", bound: format!("all triples of {} scripts, at most {} preemptions", tri.len(), if t { 2 } else { 1 }) },
            Group { name: "long recordings", bound: format!("{} pairs of scripts on contexts that already hold {:?} operations, for the larger ones also one less and one more, at most 2 preemptions (1 for some)", long.len(), sizes) },
            Group { name: "mutex", bound: "2 and 3 threads marking inputs and outputs through a mutex".into() },
        ],
        scenarios: sc,
    }
}
