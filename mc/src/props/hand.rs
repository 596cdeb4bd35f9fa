//! C24 tapes put together from operations by hand
use crate::engine::*;
use crate::gen::*;
use crate::jet::*;
use crate::prog::*;
use crate::props::pl::{check_ops, Model};
use crate::rec::*;
use advantage::drivers::{jacobian_reverse, AbsNormalTape};
use advantage::{AContext, ADouble, DVector, OpCode, Operation, Tape};

type J = Jet<ND, false>;

/// A tape as a user of the library may write one
#[derive(Debug, Clone)]
struct Hand {
    indeps: Vec<usize>,
    deps: Vec<usize>,
    ops: Vec<Operation>,
    vals: Vec<f64>,
}
impl Tape for Hand {
    fn indeps(&self) -> &[usize] {
        &self.indeps
    }
    fn deps(&self) -> &[usize] {
        &self.deps
    }
    fn values(&self) -> &[f64] {
        &self.vals
    }
    fn values_mut(&mut self) -> &mut [f64] {
        &mut self.vals
    }
    fn ops_iter<'a>(&'a self) -> Box<dyn DoubleEndedIterator<Item = Operation> + 'a> {
        Box::new(self.ops.iter().cloned())
    }
}

const LAYOUTS: usize = 5;

/// Where the values of a program are kept: slot of each value, number of slots
fn slots(layout: usize, n: usize, total: usize) -> (Vec<usize>, usize) {
    match layout {
        // as recorded
        0 => ((0..total).collect(), total),
        // backwards
        1 => ((0..total).rev().collect(), total),
        // with unused slots before, between and after
        2 => ((0..total).map(|i| 3 * i + 2).collect(), 3 * total + 4),
        // inputs behind the results
        3 => ((0..total).map(|i| if i < n { total - n + i } else { i - n }).collect(), total),
        // scattered
        _ => ((0..total).map(|i| (i * 5 + 3) % 11 + 11 * (i / 11)).collect(), total + 11),
    }
}

fn operation(nd: &Node, vid: usize, at: &[usize]) -> Option<(Operation, OpCode)> {
    Some(match *nd {
        Node::Un(u, x) => {
            let x = at[x];
            match u {
                Un::Sin => (Operation::sin(vid, x), OpCode::Sin),
                Un::Cos => (Operation::cos(vid, x), OpCode::Cos),
                Un::Tan => (Operation::tan(vid, x), OpCode::Tan),
                Un::Abs => (Operation::abs(vid, x), OpCode::Abs),
                Un::Exp => (Operation::exp(vid, x), OpCode::Exp),
                Un::Ln => (Operation::ln(vid, x), OpCode::Ln),
                Un::Asin => (Operation::asin(vid, x), OpCode::Asin),
                Un::Acos => (Operation::acos(vid, x), OpCode::Acos),
                Un::Atan => (Operation::atan(vid, x), OpCode::Atan),
                Un::Cbrt => (Operation::cbrt(vid, x), OpCode::Cbrt),
                _ => return None,
            }
        }
        Node::Bin(b, x, y) => {
            let (x, y) = (at[x], at[y]);
            match b {
                Bin::Add => (Operation::add(vid, x, y), OpCode::Add),
                Bin::Sub => (Operation::sub(vid, x, y), OpCode::Sub),
                Bin::Mul => (Operation::mul(vid, x, y), OpCode::Mul),
                Bin::Div => (Operation::div(vid, x, y), OpCode::Div),
                Bin::Powf => (Operation::powf(vid, x, y), OpCode::Powf),
                _ => return None,
            }
        }
        _ => return None,
    })
}

fn elementary(nd: &Node) -> bool {
    operation(nd, 0, &[0; 64]).is_some()
}

/// program `p` on `n` values of which the last `konst` are constants of the values given
fn assemble(p: &[Node], n: usize, konst: &[f64], layout: usize, nops: bool) -> Hand {
    let total = n + p.len();
    let (at, size) = slots(layout, n, total);
    let mut ops = vec![];
    let mut vals = vec![f64::NAN; size];
    let k0 = n - konst.len();
    let nop = |ops: &mut Vec<Operation>| {
        if nops {
            ops.push(Operation::nop());
        }
    };
    nop(&mut ops);
    for (i, k) in konst.iter().enumerate() {
        ops.push(Operation::constant(at[k0 + i]));
        vals[at[k0 + i]] = *k;
        nop(&mut ops);
    }
    for (i, nd) in p.iter().enumerate() {
        ops.push(operation(nd, at[n + i], &at).unwrap().0);
        nop(&mut ops);
    }
    let mut deps: Vec<usize> = at[n..].iter().rev().cloned().collect();
    deps.push(at[0]);
    deps.push(at[total - 1]);
    if !konst.is_empty() {
        deps.push(at[k0]);
    }
    Hand { indeps: at[..k0].to_vec(), deps, ops, vals }
}

/// what the outputs of `assemble` are
fn outs(n: usize, konst: usize, steps: usize) -> Vec<usize> {
    let mut r: Vec<usize> = (n..n + steps).rev().collect();
    r.extend([0, n + steps - 1]);
    if konst > 0 {
        r.push(n - konst);
    }
    r
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}

fn sweeps(name: &'static str, n: usize, levels: &[u8], npts: usize, nlay: usize) -> Harness {
    let g = Gen::new(n, levels, elementary);
    let pts = points(n, 3)[..npts].to_vec();
    Harness {
        name,
        bound: format!("{} (elementary operations only); {} layouts of the values, with and without no-operations and a constant; {} points, 6 directions", g.bound(), nlay, npts),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            let layout = ex.choose(nlay);
            let nops = ex.flag();
            let nk = if n > 1 { ex.choose(2) } else { 0 };
            ex.note(|| format!("{} in layout {}{}{}", show(&p, n), layout, if nops { " with no-operations" } else { "" }, if nk > 0 { ", the last input a constant" } else { "" }));
            ex.state(&(&p, layout, nops, nk));
            let fail = |x: &[f64], e: String| format!("[{}] in layout {} (no-operations: {}, constants: {}) at {:?}: {}", show(&p, n), layout, nops, nk, x, e);
            let konst: Vec<f64> = pts[0][n - nk..].to_vec();
            let mut t = assemble(&p, n, &konst, layout, nops);
            let at = slots(layout, n, n + p.len()).0;
            let os = outs(n, nk, p.len());
            let abs = p.iter().filter(|s| s.has_abs()).count();
            // queries
            let max = t.indeps.iter().chain(&t.deps).cloned().chain(t.ops.iter().map(|o| o.vid)).max().unwrap();
            if t.num_abs() != abs || t.max_id() != max || t.num_indeps() != n - nk || t.num_deps() != os.len() {
                return Err(fail(&[], format!("{} inputs, {} outputs, {} absolute values, largest id {}; expected {}, {}, {}, {}", t.num_indeps(), t.num_deps(), t.num_abs(), t.max_id(), n - nk, os.len(), abs, max)));
            }
            let before = (t.indeps.clone(), t.deps.clone(), t.ops.clone());
            for x in &pts {
                let mut x = x.clone();
                x[n - nk..].copy_from_slice(&konst);
                ex.step();
                t.zero_order(&DVector::from_vec(x[..n - nk].to_vec()));
                let want = eval_all::<f64>(&p, &x);
                let mut slots: Vec<f64> = vec![f64::NAN; t.vals.len()];
                for (i, w) in want.iter().enumerate() {
                    slots[at[i]] = *w;
                }
                if let Some(i) = (0..slots.len()).find(|i| !same(slots[*i], t.vals[*i])) {
                    return Err(fail(&x, format!("replayed value {} is {:e} instead of {:e}", i, t.vals[i], slots[i])));
                }
                if !t.x().iter().zip(&x[..n - nk]).all(|(a, b)| same(*a, *b)) || !t.y().iter().zip(&os).all(|(a, b)| same(*a, want[*b])) {
                    return Err(fail(&x, format!("stored inputs {:?} and outputs {:?}", t.x().as_slice(), t.y().as_slice())));
                }
                ex.outcome(&want.iter().map(|v| v.to_bits()).collect::<Vec<_>>());
                // sweeps
                let nf = n - nk;
                let ds = dirs(nf);
                let jets = eval_all(&p, &(0..n).map(|k| if k < nf { J::input(x[k], std::array::from_fn(|q| ds[q][k])) } else { J::lift(x[k]) }).collect::<Vec<_>>());
                for (q, d) in ds.iter().enumerate() {
                    let dy = t.first_order_forward(&DVector::from_vec(d.clone()));
                    for (i, o) in os.iter().enumerate() {
                        let j = &jets[*o];
                        if j.dok && !close(dy[i], j.d[q], j.ed[q], J::ABS) {
                            return Err(fail(&x, format!("forward sweep along {:?} gives {:e} for v{} instead of {:e}", d, dy[i], o, j.d[q])));
                        }
                    }
                }
                if abs > 0 {
                    if panics(|| t.first_order_reverse(&DVector::from_element(os.len(), 1.0))).is_ok() {
                        return Err(fail(&x, "the reverse sweep passes an absolute value".into()));
                    }
                } else {
                    let units = eval_all(&p, &(0..n).map(|k| if k < nf { J::input(x[k], std::array::from_fn(|q| if q == k { 1.0 } else { 0.0 })) } else { J::lift(x[k]) }).collect::<Vec<_>>());
                    if units.iter().all(|j| j.dok) {
                        let jac = jacobian_reverse(&t);
                        for (i, o) in os.iter().enumerate() {
                            for k in 0..nf {
                                if !close(jac[(i, k)], units[*o].d[k], units[*o].ed[k], J::ABS) {
                                    return Err(fail(&x, format!("reverse sweep gives {:e} for v{} by v{} instead of {:e}", jac[(i, k)], o, k, units[*o].d[k])));
                                }
                            }
                        }
                        let w: Vec<f64> = (0..os.len()).map(|i| [1.0, -2.0, 0.5][i % 3]).collect();
                        let xb = t.first_order_reverse(&DVector::from_vec(w.clone()));
                        for k in 0..nf {
                            let want: f64 = os.iter().zip(&w).map(|(o, w)| w * units[*o].d[k]).sum();
                            let err: f64 = os.iter().zip(&w).map(|(o, w)| w.abs() * (units[*o].ed[k] + 1e-15 * units[*o].d[k].abs())).sum();
                            if !close(xb[k], want, err, J::ABS) {
                                return Err(fail(&x, format!("reverse sweep with weights {:?} gives {:e} by v{} instead of {:e}", w, xb[k], k, want)));
                            }
                        }
                    }
                }
                if abs > 0 && nk == 0 {
                    let f = ProgFn { n, nodes: p.clone(), outs: os.iter().map(|o| Out::Val(*o)).collect() };
                    if let Some(md) = Model::of(&f, &x, false) {
                        let a = AbsNormalTape::new(Box::new(t.clone()));
                        check_ops(ex, &a, &md, &x, &[1]).map_err(|e| fail(&x, format!("decomposed: {}", e)))?;
                    }
                }
                if (&t.indeps, &t.deps, &t.ops) != (&before.0, &before.1, &before.2) {
                    return Err(fail(&x, "the tape has changed".into()));
                }
            }
            Ok(())
        }),
    }
}

/// The constructors, and recording through them
fn constructors() -> Harness {
    let ids = [0usize, 1, 2, 7, 255, 256, 65535, 65536, usize::MAX];
    Harness {
        name: "constructors",
        bound: format!("all operations with all result and argument ids from {:?}", ids),
        units: 17,
        run: Box::new(move |ex, u| {
            let (v, a, b) = (ex.pick(&ids), ex.pick(&ids), ex.pick(&ids));
            use OpCode::*;
            let all = [Nop, Const, Add, Sub, Mul, Div, Sin, Cos, Tan, Abs, Exp, Ln, Asin, Acos, Atan, Cbrt, Powf];
            let got = match all[u] {
                Nop => Operation::nop(),
                Const => Operation::constant(v),
                Add => Operation::add(v, a, b),
                Sub => Operation::sub(v, a, b),
                Mul => Operation::mul(v, a, b),
                Div => Operation::div(v, a, b),
                Sin => Operation::sin(v, a),
                Cos => Operation::cos(v, a),
                Tan => Operation::tan(v, a),
                Abs => Operation::abs(v, a),
                Exp => Operation::exp(v, a),
                Ln => Operation::ln(v, a),
                Asin => Operation::asin(v, a),
                Acos => Operation::acos(v, a),
                Atan => Operation::atan(v, a),
                Cbrt => Operation::cbrt(v, a),
                Powf => Operation::powf(v, a, b),
            };
            ex.state(&(u, v, a, b));
            ex.step();
            let (arg1, arg2) = match all[u] {
                Nop | Const => (None, None),
                Add | Sub | Mul | Div | Powf => (Some(a), Some(b)),
                _ => (Some(a), None),
            };
            let want = Operation { opcode: all[u], vid: if u == 0 { got.vid } else { v }, arg1, arg2 };
            if got.opcode != want.opcode || got.vid != want.vid || got.arg1 != want.arg1 || got.arg2 != want.arg2 {
                return Err(format!("{:?} of {} and {} into {} is {:?}", all[u], a, b, v, got));
            }
            // equality sees every part
            for other in [
                Operation { vid: want.vid.wrapping_add(1), ..want },
                Operation { opcode: all[(u + 1) % 17], ..want },
                Operation { arg1: Some(arg1.unwrap_or(0).wrapping_add(1)), ..want },
                Operation { arg2: Some(arg2.unwrap_or(0).wrapping_add(1)), ..want },
            ] {
                if got == other || got != want {
                    return Err(format!("{:?} equals {:?}, or not {:?}", got, other, want));
                }
            }
            Ok(())
        }),
    }
}

/// AContext::record: the same tape entry by entry
fn entries(name: &'static str, n: usize, levels: &[u8]) -> Harness {
    let g = Gen::new(n, levels, elementary);
    let pts = points(n, 3)[..2].to_vec();
    Harness {
        name,
        bound: format!("{} (elementary operations only) recorded by AContext::record, with and without a constant in between; swept at 2 points; another variable recorded on behind", g.bound()),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            let konst = ex.flag();
            ex.note(|| format!("{}{}", show(&p, n), if konst { " with a constant" } else { "" }));
            ex.state(&(&p, konst));
            let fail = |e: String| format!("[{}]: {}", show(&p, n), e);
            let vals = eval_all::<f64>(&p, &pts[0]);
            let mut c = AContext::new();
            let inp: Vec<ADouble> = pts[0].iter().map(|v| c.new_indep(*v)).collect();
            let mut at: Vec<usize> = c.indeps();
            let mut want = vec![];
            for (i, nd) in p.iter().enumerate() {
                if konst && i + 1 == p.len() {
                    let id = c.record(OpCode::Const, 0.25, None, None);
                    want.push(Operation { opcode: OpCode::Const, vid: id, arg1: None, arg2: None });
                }
                let (op, code) = operation(nd, 0, &at).unwrap();
                let id = c.record(code, vals[n + i], op.arg1, op.arg2);
                want.push(Operation { opcode: code, vid: id, arg1: op.arg1, arg2: op.arg2 });
                at.push(id);
            }
            // recording goes on
            let mut y = inp[0] + inp[n - 1];
            c.set_dep(&y);
            if c.operations()[..want.len()] != want[..] {
                return Err(fail(format!("recorded {:?} instead of {:?}", c.operations(), want)));
            }
            ex.step();
            y *= 2.0;
            c.set_dep(&y);
            let mut t = c.tape();
            super::wf::well_formed(&t).map_err(fail)?;
            if t.ops_iter().collect::<Vec<_>>() != c.operations() || t.indeps() != c.indeps() || t.deps() != c.deps() || t.values().iter().zip(c.values()).any(|(a, b)| !same(*a, b)) || t.values().len() != c.values().len() {
                return Err(fail("tape and context differ".into()));
            }
            for x in pts.iter().rev() {
                t.zero_order(&DVector::from_vec(x.clone()));
                let w = eval_all::<f64>(&p, x);
                if let Some(i) = (0..w.len()).find(|i| !same(t.values()[at[*i]], w[*i])) {
                    return Err(fail(format!("at {:?} v{} is {:e} instead of {:e}", x, i, t.values()[at[i]], w[i])));
                }
                let s = x[0] + x[n - 1];
                if t.y().as_slice() != [s, 2.0 * s] {
                    return Err(fail(format!("at {:?} the outputs are {:?}", x, t.y().as_slice())));
                }
                let d = t.first_order_forward(&DVector::from_element(n, 1.0));
                if w.iter().all(|v| v.is_finite()) && d.as_slice() != [2.0, 4.0] {
                    return Err(fail(format!("at {:?} the forward sweep gives {:?}", x, d.as_slice())));
                }
            }
            ex.outcome(&t.y().as_slice()[0].to_bits());
            Ok(())
        }),
    }
}

pub fn check(thorough: bool) -> Check {
    let mut hs = vec![
        constructors(),
        sweeps("one_step", 3, &[2], 14, LAYOUTS),
        sweeps("two_steps", 2, &[2, 2], 4, LAYOUTS),
        sweeps("two_steps_1", 1, &[2, 2], 6, LAYOUTS),
        sweeps("three_steps", 2, &[0, 0, 0], 2, if thorough { LAYOUTS } else { 3 }),
        entries("entries", 2, &[2, 2]),
    ];
    if thorough {
        hs.push(sweeps("three_steps_wide", 2, &[2, 2, 2], 2, LAYOUTS));
        hs.push(sweeps("three_inputs", 3, &[2, 2], 10, LAYOUTS));
        hs.push(entries("entries_3", 2, &[2, 2, 2]));
    }
    Check {
        property: "C24",
        harnesses: hs,
        assumptions: vec!["hand-made tapes define every value before it is used and do not use a slot twice".into()],
    }
}
