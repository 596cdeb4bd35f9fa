//! C14 concurrent recordings in separate contexts do not interfere
use crate::rt::*;
use crate::wf::well_formed;
use crate::{Check, Group};
use advantage::{adv_fn, AContext, ADouble, AFloat, DVector, Float, Function, Operation, SimpleFunction, Tape};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// Everything a thread can see of its own recording
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Seen {
    pub ops: Vec<Vec<Operation>>,
    pub nums: Vec<u64>,
    pub ids: Vec<Vec<usize>>,
}

impl Seen {
    fn num(&mut self, x: f64) {
        self.nums.push(x.to_bits());
    }
    fn var(&mut self, x: &ADouble) {
        self.num(x.value());
        self.num(x.dvalue());
    }
    fn tape(&mut self, t: &mut dyn Tape) -> Result<(), String> {
        self.ops.push(well_formed(t)?);
        self.ids.push(t.indeps().to_vec());
        self.ids.push(t.deps().to_vec());
        for v in t.values() {
            self.nums.push(v.to_bits());
        }
        let n = t.num_indeps();
        t.zero_order(&DVector::from_fn(n, |i, _| 3.0 + i as f64));
        for v in t.y().iter() {
            self.num(*v);
        }
        for v in t.first_order_forward(&DVector::from_fn(n, |i, _| 1.0 + 2.0 * i as f64)).iter() {
            self.num(*v);
        }
        let m = t.num_deps();
        for v in t.first_order_reverse(&DVector::from_fn(m, |i, _| 1.0 + i as f64)).iter() {
            self.num(*v);
        }
        Ok(())
    }
}

adv_fn! {
    fn poly(x: [[2]]) -> [[2]] {
        let u = x[0] * x[1];
        DVector::from_vec(vec![u + x[0], u * 2.0])
    }
}

/// The actions of a script:
/// n new context  i input  o operations  c operation with a number  d mark output  t tape
/// h look up the own context and record through it  x drop the context  u use the variables after
/// the drop  g the dropped context is not found  f record a function object  s new single
/// precision input
/// Contexts are a stack; c1 and c2 are not mixed.
fn script(s: &str, k: f64, cids: &mut Vec<usize>) -> Result<Seen, String> {
    let mut seen = Seen::default();
    struct Ctx {
        c: Option<AContext>,
        cid: usize,
        v: Vec<ADouble>,
    }
    let mut cs: Vec<Ctx> = vec![];
    for a in s.chars() {
        match a {
            'n' => {
                let c = AContext::new();
                let cid = c.cid();
                cids.push(cid);
                if !c.values().is_empty() {
                    return Err("a new context is not empty".into());
                }
                cs.push(Ctx { c: Some(c), cid, v: vec![] });
            }
            'f' => {
                let f = SimpleFunction::new(2, 2, |x: DVector<ADouble>| poly(x));
                let mut t = f.tape(&DVector::from_vec(vec![k, 2.0]));
                seen.tape(&mut *t)?;
            }
            'x' => {
                let top = cs.iter_mut().rev().find(|c| c.c.is_some()).unwrap();
                top.c = None;
            }
            'g' => {
                let dead = cs.iter().rev().find(|c| c.c.is_none()).unwrap();
                if AContext::from_cid(dead.cid).is_some() {
                    return Err(format!("context {} is found after its end", dead.cid));
                }
            }
            _ => {
                let dead = a == 'u';
                let top = cs.iter_mut().rev().find(|c| c.c.is_none() == dead).unwrap();
                let cid = top.cid;
                match a {
                    'i' => {
                        let v = top.c.as_mut().unwrap().new_indep(k + top.v.len() as f64);
                        seen.var(&v);
                        top.v.push(v);
                    }
                    's' => {
                        let v: AFloat<f32> = top.c.as_mut().unwrap().new_indep(k as f32);
                        let w = v * v;
                        seen.num(w.value() as f64);
                        top.c.as_mut().unwrap().set_dep(&w);
                    }
                    'o' | 'u' => {
                        let x = top.v[0];
                        let y = *top.v.last().unwrap();
                        let r = x * y;
                        seen.var(&r);
                        top.v.push(r);
                    }
                    'c' | 'v' => {
                        let x = *top.v.last().unwrap();
                        let r = x + 1.5;
                        seen.var(&r);
                        top.v.push(r);
                    }
                    'p' => {
                        let r = Float::powi(*top.v.last().unwrap(), 2);
                        seen.var(&r);
                        top.v.push(r);
                    }
                    'd' => {
                        let x = *top.v.last().unwrap();
                        top.c.as_mut().unwrap().set_dep(&x);
                    }
                    't' => {
                        let mut t = top.c.as_ref().unwrap().tape();
                        seen.tape(&mut t)?;
                    }
                    'h' => {
                        let Some(mut h) = AContext::from_cid(cid) else {
                            return Err("the own context is not found".into());
                        };
                        if h.cid() != cid {
                            return Err(format!("context {} is found under {}", h.cid(), cid));
                        }
                        let v: ADouble = h.new_indep(k);
                        seen.var(&v);
                        top.v.push(v);
                    }
                    _ => unreachable!(),
                }
                // what the own context holds after every step
                if let Some(c) = &top.c {
                    seen.ids.push(vec![c.values().len()]);
                }
            }
        }
    }
    for c in &cs {
        if let Some(ctx) = &c.c {
            if ctx.cid() != c.cid {
                return Err("a context changed its identity".into());
            }
        }
    }
    drop(cs);
    Ok(seen)
}

fn scripts(group: &'static str, ss: Vec<String>, bound: i32, limit: i64) -> Scenario {
    crowded(group, ss, bound, limit, 0)
}
/// `crowd` other contexts are alive meanwhile
fn crowded(group: &'static str, ss: Vec<String>, bound: i32, limit: i64, crowd: usize) -> Scenario {
    let mut name = ss.join(" | ");
    if crowd > 0 {
        name += &format!(" among {} others", crowd);
    }
    let expect: Vec<Seen> = ss.iter().enumerate().map(|(i, s)| script(s, 1.0 + i as f64 * 0.5, &mut vec![]).unwrap_or_default()).collect();
    Scenario {
        group,
        name,
        pool: 1,
        bound,
        delays: -1,
        limit,
        body: Box::new(move || {
            let others: Vec<AContext> = (0..crowd).map(|_| AContext::new()).collect();
            let fs: Vec<Box<dyn FnOnce() -> (Result<Seen, String>, Vec<usize>)>> = ss
                .iter()
                .enumerate()
                .map(|(i, s)| {
                    let s = s.clone();
                    Box::new(move || {
                        let mut cids = vec![];
                        let r = script(&s, 1.0 + i as f64 * 0.5, &mut cids);
                        (r, cids)
                    }) as Box<dyn FnOnce() -> _>
                })
                .collect();
            let rs = par(fs)?;
            let mut all: Vec<usize> = vec![];
            let mut order = vec![];
            for (i, (r, cids)) in rs.into_iter().enumerate() {
                let r = r.map_err(|e| format!("thread {}: {}", i, e))?;
                if r != expect[i] {
                    return Err(format!("thread {} sees {:?} instead of {:?}", i, r, expect[i]));
                }
                order.push(cids.iter().map(|c| *c).collect::<Vec<_>>());
                all.extend(cids);
            }
            for (i, o) in others.iter().enumerate() {
                let cid = o.cid();
                all.push(cid);
                if !o.values().is_empty() {
                    return Err(format!("context {} of {} others holds {:?}", i, crowd, o.operations()));
                }
                match AContext::from_cid(cid) {
                    Some(h) if h.cid() == cid => {}
                    _ => return Err(format!("context {} of {} others is not found", i, crowd)),
                }
            }
            drop(others);
            let mut s = all.clone();
            s.sort();
            s.dedup();
            if s.len() != all.len() {
                return Err(format!("context identities are not unique: {:?}", order));
            }
            for c in &all {
                if AContext::from_cid(*c).is_some() {
                    return Err(format!("context {} is found after its end", c));
                }
            }
            // the order in which the contexts were created
            let mut h = DefaultHasher::new();
            for o in &order {
                for c in o {
                    s.iter().position(|x| x == c).hash(&mut h);
                }
                0xffusize.hash(&mut h);
            }
            Ok(h.finish())
        }),
    }
}

/// Threads own a context each and look each other's up while they end
fn lookups(group: &'static str, ss: Vec<String>, bound: i32, limit: i64) -> Scenario {
    let name = ss.join(" | ");
    Scenario {
        group,
        name,
        pool: 1,
        bound,
        delays: -1,
        limit,
        body: Box::new(move || {
            let n = ss.len();
            let mut own: Vec<(AContext, ADouble)> = (0..n)
                .map(|i| {
                    let mut c = AContext::new();
                    let v = c.new_indep(1.0 + i as f64);
                    (c, v)
                })
                .collect();
            let cids: Vec<usize> = own.iter().map(|c| c.0.cid()).collect();
            let mut fs: Vec<Box<dyn FnOnce() -> Result<Vec<usize>, String>>> = vec![];
            for (i, s) in ss.iter().enumerate().rev() {
                let (c, v) = own.pop().unwrap();
                let s = s.clone();
                let other = cids[(i + 1) % n];
                let all = cids.clone();
                fs.push(Box::new(move || {
                    let mut c = Some(c);
                    let mut held: Option<AContext> = None;
                    let mut out = vec![];
                    for a in s.chars() {
                        match a {
                            // drop the own context
                            'x' => c = None,
                            // look up the other one for a moment
                            'l' => match AContext::from_cid(other) {
                                Some(h) => {
                                    if h.cid() != other {
                                        return Err(format!("context {} is found under {}", h.cid(), other));
                                    }
                                    out.push(1);
                                }
                                None => out.push(0),
                            },
                            // and keep it
                            'k' => {
                                held = AContext::from_cid(other);
                                out.push(held.is_some() as usize);
                            }
                            'r' => {
                                held = None;
                            }
                            // while it is kept it can be found
                            'a' => {
                                if held.is_some() && AContext::from_cid(other).is_none() {
                                    return Err("a context is not found while it is in use".into());
                                }
                            }
                            // the own context is untouched by the other thread
                            'o' => {
                                let w = v * v;
                                let e = (v.value() * v.value()).to_bits();
                                if w.value().to_bits() != e {
                                    return Err("wrong value".into());
                                }
                                if let Some(c) = &c {
                                    if c.operations().len() != 1 || c.values().len() != 2 {
                                        return Err("the own recording is wrong".into());
                                    }
                                }
                            }
                            'n' => {
                                let d = AContext::new();
                                if all.contains(&d.cid()) {
                                    return Err("an identity is used twice".into());
                                }
                            }
                            _ => unreachable!(),
                        }
                    }
                    Ok(out)
                }) as Box<dyn FnOnce() -> _>);
            }
            let rs = par(fs)?;
            let mut h = DefaultHasher::new();
            for r in rs {
                r?.hash(&mut h);
            }
            for c in &cids {
                if AContext::from_cid(*c).is_some() {
                    return Err(format!("context {} is found after its end", c));
                }
            }
            Ok(h.finish())
        }),
    }
}
/// Identities stay unique over many contexts, created by one thread after the other, most of them
/// dropped, some alive throughout
pub fn sequential(total: usize) -> Result<(), String> {
    let mut seen = std::collections::HashSet::new();
    let mut alive: Vec<(AContext, ADouble)> = vec![];
    let mut recent = std::collections::VecDeque::new();
    let per = total / 4;
    for th in 0..4 {
        let r = std::thread::spawn(move || {
            let mut seen = seen;
            let mut alive: Vec<(AContext, ADouble)> = alive;
            let mut recent: std::collections::VecDeque<AContext> = recent;
            for i in 0..per {
                let mut c = AContext::new();
                let id = c.cid();
                if !seen.insert(id) {
                    return Err(format!("identity {} is used again by context number {} of thread {}", id, i, th));
                }
                let v: ADouble = c.new_indep(i as f64);
                let w = v * v;
                if w.value() != (i as f64) * (i as f64) || c.operations().len() != 1 {
                    return Err(format!("context number {} of thread {} records {:?}", i, th, c.operations()));
                }
                if i < 2 {
                    alive.push((c, v));
                } else {
                    recent.push_back(c);
                    if recent.len() > 20_000 {
                        let id = recent.pop_front().unwrap().cid();
                        if AContext::from_cid(id).is_some() {
                            return Err(format!("context {} is found after its end", id));
                        }
                    }
                }
            }
            for (c, v) in &alive {
                let n = c.operations().len();
                let _ = *v * *v;
                if c.operations().len() != n + 1 {
                    return Err(format!("context {} does not record any more", c.cid()));
                }
                match AContext::from_cid(c.cid()) {
                    Some(h) if h.cid() == c.cid() && h.operations().len() == n + 1 => {}
                    _ => return Err(format!("context {} is not found", c.cid())),
                }
            }
            Ok((seen, alive, recent))
        })
        .join()
        .map_err(|_| "a thread panicked".to_string())??;
        seen = r.0;
        alive = r.1;
        recent = r.2;
    }
    Ok(())
}

pub fn check(t: bool) -> Check {
    let b = if t { 4 } else { 3 };
    let lim = if t { 5_000_000 } else { 600_000 };
    let mut sc = vec![];
    let single: Vec<&str> = if t {
        vec!["nx", "niodtxug", "nicdtx", "nihodt", "nnioxiodtx", "f", "ff", "nsdtx", "nipdtx", "nixugniodt", "nxgnxg"]
    } else {
        vec!["nx", "niodtxug", "nicdt", "nihdt", "nnioxidt", "f", "nixug"]
    };
    for i in 0..single.len() {
        for j in i..single.len() {
            sc.push(scripts("pairs", vec![single[i].into(), single[j].into()], b, lim));
        }
    }
    let tri: Vec<&str> = vec!["nx", "nio", "nixg", "f"];
    for i in 0..tri.len() {
        for j in i..tri.len() {
            for k in j..tri.len() {
                sc.push(scripts("triples", vec![tri[i].into(), tri[j].into(), tri[k].into()], if t { 2 } else { 1 }, lim));
            }
        }
    }
    let sizes: Vec<usize> = if t { vec![3, 6, 13, 14, 27, 28, 55, 56, 111, 112, 223, 224, 447, 448, 511, 512, 895, 896, 1023, 1024, 1791, 1792] } else { vec![6, 13, 27, 55, 111, 223, 447, 511, 895, 1023] };
    let small: Vec<(&str, &str)> = if t { vec![("nio", "nio"), ("nixug", "niodt"), ("nx", "nihdt"), ("f", "nx")] } else { vec![("nio", "nixg"), ("nx", "nihdt")] };
    for &z in &sizes {
        for (p, q) in &small {
            sc.push(crowded("crowds", vec![p.to_string(), q.to_string()], if t { 2 } else { 1 }, lim, z));
        }
    }
    let look: Vec<&str> = vec!["x", "xl", "lx", "kxr", "kar", "ol", "oxo", "kaxr", "nx", "lo"];
    for i in 0..look.len() {
        for j in i..look.len() {
            sc.push(lookups("lookups", vec![look[i].into(), look[j].into()], b, lim));
        }
    }
    for (a, b2, c) in [("x", "l", "l"), ("kxr", "kxr", "kxr"), ("xl", "lx", "o"), ("x", "kar", "kar")] {
        sc.push(lookups("lookups", vec![a.into(), b2.into(), c.into()], b, lim));
    }
    Check {
        groups: vec![
            Group { name: "sequence", bound: "before the schedules: 150000 (thorough: 2^20) contexts created by four threads one after the other, 20000 alive at a time, some throughout: identities unique, dead ones not found, living ones record".into() },
            Group { name: "pairs", bound: format!("all pairs of {} scripts (create, record, mark, tape, look up, drop, use after), at most {} preemptions", single.len(), b) },
            Group { name: "triples", bound: format!("all triples of {} short scripts, at most {} preemptions", tri.len(), if t { 2 } else { 1 }) },
            Group { name: "crowds", bound: format!("{} pairs of scripts while {:?} other contexts are alive, at most {} preemptions", small.len(), sizes, if t { 2 } else { 1 }) },
            Group { name: "lookups", bound: format!("all pairs of {} scripts that look up, keep and drop each other's contexts, at most {} preemptions, and some triples", look.len(), b) },
        ],
        scenarios: sc,
    }
}
