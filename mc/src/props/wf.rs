//! C22 recorded tapes are well-formed and describe themselves correctly
use crate::engine::*;
use crate::gen::*;
use crate::prog::*;
use crate::rec::*;
use advantage::{AContext, ADouble, OpCode, Operation, Tape};

fn arity(o: OpCode) -> usize {
    match o {
        OpCode::Nop | OpCode::Const => 0,
        OpCode::Add | OpCode::Sub | OpCode::Mul | OpCode::Div | OpCode::Powf => 2,
        _ => 1,
    }
}

/// the recorded value of an operation, from its definition
fn plain(o: OpCode, a: f64, b: f64) -> f64 {
    match o {
        OpCode::Add => a + b,
        OpCode::Sub => a - b,
        OpCode::Mul => a * b,
        OpCode::Div => a / b,
        OpCode::Sin => a.sin(),
        OpCode::Cos => a.cos(),
        OpCode::Tan => a.tan(),
        OpCode::Abs => a.abs(),
        OpCode::Exp => a.exp(),
        OpCode::Ln => a.ln(),
        OpCode::Asin => a.asin(),
        OpCode::Acos => a.acos(),
        OpCode::Atan => a.atan(),
        OpCode::Cbrt => a.cbrt(),
        OpCode::Powf => a.powf(b),
        OpCode::Nop | OpCode::Const => unreachable!(),
    }
}

/// The structural part: definitions, uses, order, queries
pub fn well_formed(t: &dyn Tape) -> Result<Vec<Operation>, String> {
    let ops: Vec<Operation> = t.ops_iter().collect();
    let rev: Vec<usize> = t.ops_iter().rev().map(|o| o.vid).collect();
    if rev.iter().rev().ne(ops.iter().map(|o| &o.vid)) {
        return Err("operations differ between forward and backward iteration".into());
    }
    let v = t.values();
    let n = v.len();
    // 0 undefined, 1 input, 2 operation
    let mut def = vec![0u8; n];
    for i in t.indeps() {
        if *i >= n {
            return Err(format!("input value {} does not exist", i));
        }
        if def[*i] != 0 {
            return Err(format!("value {} is defined twice", i));
        }
        def[*i] = 1;
    }
    for (k, o) in ops.iter().enumerate() {
        let args: Vec<usize> = [o.arg1, o.arg2].iter().flatten().cloned().collect();
        if o.opcode == OpCode::Nop {
            return Err(format!("operation {} is a no-operation", k));
        }
        if args.len() != arity(o.opcode) || (o.arg1.is_none() && o.arg2.is_some()) {
            return Err(format!("operation {} ({:?}) has operands {:?} {:?}", k, o.opcode, o.arg1, o.arg2));
        }
        if o.vid >= n {
            return Err(format!("operation {} defines value {} which does not exist", k, o.vid));
        }
        for a in &args {
            if *a >= n || def[*a] == 0 {
                return Err(format!("operation {} ({:?}) uses value {} before it is defined", k, o.opcode, a));
            }
        }
        if def[o.vid] != 0 {
            return Err(format!("value {} is defined twice", o.vid));
        }
        def[o.vid] = 2;
        if o.opcode != OpCode::Const {
            let w = plain(o.opcode, v[args[0]], *args.get(1).map(|i| &v[*i]).unwrap_or(&0.0));
            let g = v[o.vid];
            if !(g == w || (g.is_nan() && w.is_nan()) || w.is_finite() && (g - w).abs() <= 1e-14 * w.abs()) {
                return Err(format!("value {} is {:e}, but {:?} of its operands is {:e}", o.vid, g, o.opcode, w));
            }
        }
    }
    for d in t.deps() {
        if *d >= n || def[*d] == 0 {
            return Err(format!("output value {} is not defined", d));
        }
    }
    if let Some(i) = def.iter().position(|d| *d == 0) {
        return Err(format!("value {} is never defined", i));
    }
    // queries
    if t.num_indeps() != t.indeps().len() || t.num_deps() != t.deps().len() {
        return Err(format!("reports {} inputs and {} outputs, lists {} and {}", t.num_indeps(), t.num_deps(), t.indeps().len(), t.deps().len()));
    }
    let abs = ops.iter().filter(|o| o.opcode == OpCode::Abs).count();
    if t.num_abs() != abs {
        return Err(format!("reports {} abs operations, contains {}", t.num_abs(), abs));
    }
    let max = t.indeps().iter().chain(t.deps()).cloned().chain(ops.iter().map(|o| o.vid)).max().unwrap_or(0);
    if t.max_id() != max {
        return Err(format!("reports largest value id {} instead of {}", t.max_id(), max));
    }
    let eq = |a: &[f64], ids: &[usize]| a.len() == ids.len() && a.iter().zip(ids).all(|(a, i)| a.to_bits() == v[*i].to_bits());
    if !eq(t.x().as_slice(), t.indeps()) {
        return Err(format!("stored inputs {:?} are not the values of {:?}", t.x().as_slice(), t.indeps()));
    }
    if !eq(t.y().as_slice(), t.deps()) {
        return Err(format!("stored outputs {:?} are not the values of {:?}", t.y().as_slice(), t.deps()));
    }
    Ok(ops)
}

fn programs(name: &'static str, n: usize, levels: &[u8], npts: usize) -> Harness {
    let g = Gen::new(n, levels, |_| true);
    let pts = points(n, 3)[..npts].to_vec();
    Harness {
        name,
        bound: format!("{}; {} recording styles, {} points", g.bound(), STYLES.len(), npts),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            let style = ex.pick(&STYLES);
            let x = ex.pick(&pts);
            let f = ProgFn::all(n, p);
            ex.note(|| format!("{:?} {} at {:?}", style, show(&f.nodes, n), x));
            let r = record(&f, &x, style);
            let t = &r.tape;
            let fail = |e: String| Err(format!("{} (recorded {:?}: {} at {:?})", e, style, show(&f.nodes, n), x));
            let ops = match well_formed(&**t) {
                Ok(o) => o,
                Err(e) => return fail(e),
            };
            ex.transitions += ops.len() as u64;
            // inputs and outputs in the order of their declaration
            let xs: Vec<u64> = r.order.iter().map(|i| x[*i].to_bits()).collect();
            if t.x().iter().map(|v| v.to_bits()).collect::<Vec<_>>() != xs {
                return fail(format!("inputs {:?} in a different order than declared", t.x().as_slice()));
            }
            let want = r.want(&r.vals);
            if t.y().len() != want.len() || !t.y().iter().zip(&want).all(|(a, b)| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())) {
                return fail(format!("outputs {:?} instead of {:?} in the order marked", t.y().as_slice(), want));
            }
            // results of the steps appear in evaluation order
            let pos = |vid: usize| ops.iter().position(|o| o.vid == vid);
            let mut last = 0;
            for k in 0..f.nodes.len() {
                if active(&f.nodes, n, k) {
                    let slot = r.outs.iter().position(|o| *o == Out::Val(n + k)).unwrap();
                    let Some(p) = pos(t.deps()[slot]) else {
                        return fail(format!("step {} is not an operation of the tape", k));
                    };
                    if p + 1 <= last {
                        return fail(format!("step {} is recorded before an earlier one", k));
                    }
                    last = p + 1;
                }
            }
            // number of abs operations
            if f.nodes.iter().all(|n| !n.has_abs() || matches!(n, Node::Un(Un::Abs, _))) {
                let a = (0..f.nodes.len()).filter(|k| f.nodes[*k].has_abs() && active(&f.nodes, n, *k)).count();
                if t.num_abs() != a {
                    return fail(format!("{} abs operations instead of {}", t.num_abs(), a));
                }
            }
            ex.state(&(&f.nodes, style));
            ex.outcome(&format!("{:?}", ops.iter().map(|o| o.opcode).collect::<Vec<_>>()));
            Ok(())
        }),
    }
}

/// does step k depend on an input
fn active(p: &[Node], n: usize, k: usize) -> bool {
    p[k].args().iter().any(|a| *a < n || active(p, n, *a - n))
}

#[derive(Clone, Copy, Debug)]
enum Act {
    New,
    Vec(usize),
    Declare(usize),
    Add(usize, usize),
    Const(usize),
    Abs(usize),
    Dep(usize),
    DepConst,
    Slice,
    Tape,
}

fn acts(vars: usize) -> Vec<Act> {
    let mut r = vec![Act::New, Act::Vec(0), Act::Vec(2), Act::DepConst, Act::Slice, Act::Tape];
    for a in 0..vars {
        r.push(Act::Declare(a));
        r.push(Act::Dep(a));
        r.push(Act::Const(a));
        r.push(Act::Abs(a));
        for b in a..vars {
            r.push(Act::Add(a, b));
        }
    }
    r
}

fn histories(name: &'static str, start: usize, depth: usize) -> Harness {
    Harness {
        name,
        bound: format!("one context, {} plain variables, then all histories of {} declarations, operations, output markings and queries", start, depth),
        units: acts(start).len(),
        run: Box::new(move |ex, u| {
            let mut c = AContext::new();
            let mut vars: Vec<ADouble> = (0..start).map(|i| ADouble::new(i as f64 - 1.0, 0.0)).collect();
            let mut xs: Vec<f64> = vec![];
            let mut ys: Vec<f64> = vec![];
            let mut log: Vec<Act> = vec![];
            for k in 0..depth {
                let list = acts(vars.len());
                let act = list[if k == 0 { u } else { ex.choose(list.len()) }];
                log.push(act);
                ex.step();
                match act {
                    Act::New => {
                        let v = 10.0 + k as f64;
                        vars.push(c.new_indep(v));
                        xs.push(v);
                    }
                    Act::Vec(l) => {
                        let v = 20.0 + k as f64;
                        let w: Vec<ADouble> = c.new_indep_vec(l, v);
                        if w.len() != l || w.iter().any(|x| x.value() != v) {
                            return Err(format!("new_indep_vec({}, {}) gives {:?}", l, v, w));
                        }
                        vars.extend(w);
                        xs.extend(vec![v; l]);
                    }
                    Act::Declare(a) => {
                        c.set_indep(&mut vars[a]);
                        xs.push(vars[a].value());
                    }
                    Act::Add(a, b) => vars.push(vars[a] + vars[b]),
                    Act::Const(a) => vars.push(2.0 - vars[a]),
                    Act::Abs(a) => vars.push(num::Float::abs(vars[a])),
                    Act::Dep(a) => {
                        c.set_dep(&vars[a]);
                        ys.push(vars[a].value());
                    }
                    Act::DepConst => {
                        c.set_dep(&ADouble::new(0.125, 0.0));
                        ys.push(0.125);
                    }
                    Act::Slice => {
                        c.set_dep_slice(&vars);
                        ys.extend(vars.iter().map(|v| v.value()));
                    }
                    Act::Tape => {
                        drop(c.tape());
                    }
                }
                let t = c.tape();
                let fail = |e: String| Err(format!("{} after {:?}", e, log));
                let ops = match well_formed(&t) {
                    Ok(o) => o,
                    Err(e) => return fail(e),
                };
                if t.x().as_slice() != xs || t.y().as_slice() != ys {
                    return fail(format!("inputs {:?} and outputs {:?} instead of {:?} and {:?} as declared", t.x().as_slice(), t.y().as_slice(), xs, ys));
                }
                let same = c.indeps() == t.indeps() && c.deps() == t.deps() && c.values() == t.values() && {
                    let o = c.operations();
                    o.len() == ops.len() && o.iter().zip(&ops).all(|(a, b)| a.opcode == b.opcode && a.vid == b.vid && a.arg1 == b.arg1 && a.arg2 == b.arg2)
                };
                if !same {
                    return fail("the context and its tape describe different recordings".into());
                }
                ex.state(&(xs.len(), ys.len(), ops.iter().map(|o| (o.opcode as usize, o.vid, o.arg1, o.arg2)).collect::<Vec<_>>(), t.deps().to_vec()));
                ex.outcome(&ops.len());
            }
            ex.note(|| format!("{:?}", log));
            Ok(())
        }),
    }
}

fn long(thorough: bool) -> Harness {
    let sz = crate::props::tapes::sizes(thorough);
    Harness {
        name: "long",
        bound: format!("linear recurrences of {:?} steps on 1, 3 and 300 inputs", sz),
        units: sz.len() * 3,
        run: Box::new(move |ex, u| {
            let len = sz[sz.len() - 1 - u / 3];
            let n = [1, 3, 300][u % 3];
            let l = crate::props::tapes::Long { n, len };
            ex.note(|| format!("{} steps, {} inputs", len, n));
            let mut c = AContext::new();
            let x: Vec<ADouble> = (0..n).map(|i| c.new_indep(i as f64)).collect();
            let y = l.eval(&x);
            c.set_dep_slice(&y);
            let t = c.tape();
            let ops = well_formed(&t).map_err(|e| format!("{} steps, {} inputs: {}", len, n, e))?;
            ex.transitions += ops.len() as u64;
            ex.state(&(n, len));
            ex.outcome(&ops.len());
            if t.num_indeps() != n || t.num_deps() != 3 || t.y()[0] != y[0].value() {
                return Err(format!("{} steps, {} inputs: {} inputs and {} outputs", len, n, t.num_indeps(), t.num_deps()));
            }
            Ok(())
        }),
    }
}

pub fn c22(t: bool) -> Check {
    let mut hs = vec![
        programs("one_step", 2, &[2], 14),
        programs("two_steps", 2, &[1, 1], 1),
        programs("three_steps", 2, &[0, 0, 0], 1),
        histories("declarations", 1, if t { 6 } else { 5 }),
        histories("declarations2", 2, if t { 5 } else { 4 }),
        long(t),
    ];
    if t {
        hs.push(programs("two_steps_wide", 2, &[2, 1], 3));
        hs.push(programs("three_inputs", 3, &[1, 0], 2));
    }
    Check { property: "C22", harnesses: hs, assumptions: vec![] }
}
