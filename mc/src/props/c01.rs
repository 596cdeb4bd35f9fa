//! Tapeless forward mode: the first-order part of every composition
use crate::engine::*;
use crate::gen::*;
use crate::jet::*;
use crate::prog::*;
use advantage::ADouble;

type J = Jet<ND, false>;

fn verify(ex: &mut Ex, nodes: &[Node], n: usize, x: &[f64], dirs: &[Vec<f64>; ND]) -> Res {
    ex.note(|| format!("x = {:?}, directions {:?}: {}", x, dirs, show(nodes, n)));
    let ji: Vec<J> = (0..n).map(|i| J::input(x[i], std::array::from_fn(|k| dirs[k][i]))).collect();
    let jets = eval_all(nodes, &ji);
    for i in 0..nodes.len() {
        ex.state(&(&nodes[..=i], x.iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
    }
    if !jets[n..].iter().any(|j| j.dok) {
        ex.skip();
        // still evaluated: it must not panic
    }
    for (k, d) in dirs.iter().enumerate() {
        let inp: Vec<ADouble> = (0..n).map(|i| ADouble::new(x[i], d[i])).collect();
        let got = eval_all(nodes, &inp);
        for (i, (g, j)) in got.iter().zip(&jets).enumerate() {
            ex.step();
            if j.vok && !close(g.value(), j.v, j.ev, J::ABS) {
                return Err(format!("value v{} of [{}] at {:?} is {:e}, expected {:e} +- {:e}", i, show(nodes, n), x, g.value(), j.v, j.ev * FACTOR));
            }
            if j.dok && !close(g.dvalue(), j.d[k], j.ed[k], J::ABS) {
                return Err(format!(
                    "derivative of v{} of [{}] at {:?} along {:?} is {:e}, expected {:e} +- {:e}",
                    i, show(nodes, n), x, d, g.dvalue(), j.d[k], j.ed[k] * FACTOR
                ));
            }
            if j.dok && i >= n {
                ex.outcome(&g.dvalue().to_bits());
            }
        }
    }
    Ok(())
}

fn one_step() -> Harness {
    let steps = single_steps(2);
    let two = |s: &Node| s.args().iter().collect::<std::collections::HashSet<_>>().len() > 1;
    Harness {
        name: "one_step",
        bound: format!("{} single steps x {} coordinates (squared for two operands) x directions", steps.len(), WIDE.len()),
        units: steps.len(),
        run: Box::new(move |ex, u| {
            let s = steps[u];
            let x0 = ex.pick(&WIDE);
            let x1 = if two(&s) || s.args().contains(&1) { ex.pick(&WIDE) } else { 1.25 };
            let d0 = ex.choose(2);
            let dirs = if d0 == 0 {
                dirs(2)
            } else {
                [vec![1e-3, -1e-3], vec![0.0, 0.0], vec![1e5, 1e4], vec![-4.0 * x0 - 1.0, 3.0 * x1 + 2.0], vec![1e-30, 1e-9], vec![1e-100, -1e60]]
            };
            verify(ex, &[s], 2, &[x0, x1], &dirs)
        }),
    }
}

fn programs(name: &'static str, n: usize, levels: &[u8], plevel: u8) -> Harness {
    let g = Gen::new(n, levels, |_| true);
    let pts = points(n, plevel);
    Harness {
        name,
        bound: format!("{}; {} points, 6 directions", g.bound(), pts.len()),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            let x = ex.pick(&pts);
            verify(ex, &p, n, &x, &dirs(n))
        }),
    }
}

/// One operation repeated many times, as recurrences and reductions do
fn chains(thorough: bool) -> Harness {
    let steps: Vec<Node> = alphabet(2, 1).into_iter().filter(|n| n.uses(1)).collect();
    let lens: Vec<usize> = if thorough { vec![5, 17, 100, 1000] } else { vec![5, 17, 100] };
    let pts = points(1, 2);
    Harness {
        name: "repeated_step",
        bound: format!("{} steps repeated {:?} times on the running value", steps.len(), lens),
        units: steps.len(),
        run: Box::new(move |ex, u| {
            let len = ex.pick(&lens);
            let x = ex.pick(&pts);
            let mut nodes = vec![Node::Un(Un::Sin, 0)];
            for i in 1..len {
                // value 1 of the template is the last value
                let m = |k: usize| if k == 1 { i } else { 0 };
                nodes.push(match steps[u] {
                    Node::Un(a, x) => Node::Un(a, m(x)),
                    Node::Bin(b, x, y) => Node::Bin(b, m(x), m(y)),
                    Node::BinC(b, x, k) => Node::BinC(b, m(x), k),
                    Node::CBin(b, k, x) => Node::CBin(b, k, m(x)),
                    Node::BinF(b, x, k) => Node::BinF(b, m(x), k),
                    Node::FBin(b, k, x) => Node::FBin(b, k, m(x)),
                    Node::Asg(b, x, y) => Node::Asg(b, m(x), m(y)),
                    Node::AsgF(b, x, k) => Node::AsgF(b, m(x), k),
                    Node::MulAdd(x, y, z) => Node::MulAdd(m(x), m(y), m(z)),
                    c => c,
                });
            }
            verify(ex, &nodes, 1, &x, &dirs(1))
        }),
    }
}

pub fn check(thorough: bool) -> Check {
    let mut hs = vec![one_step(), programs("two_steps", 2, &[2, 2], 2), programs("three_steps", 2, &[0, 0, 0], 1), chains(thorough)];
    if thorough {
        hs.push(programs("two_steps_1", 1, &[2, 2], 9));
        hs.push(programs("two_steps_3", 3, &[1, 1], 9));
        hs.push(programs("three_steps_wide", 2, &[1, 1, 1], 2));
        hs.push(programs("four_steps", 1, &[0, 0, 0, 0], 1));
    } else {
        hs.push(programs("two_steps_1", 1, &[2, 2], 9));
        hs.push(programs("two_steps_3", 3, &[0, 1], 1));
    }
    Check {
        property: "C01",
        harnesses: hs,
        assumptions: vec![
            "reference: closed-form partials with running error analysis; comparison where every step is differentiable and no intermediate is huge, tiny or ill-conditioned".into(),
            "real-valued operands are drawn from the listed grids".into(),
        ],
    }
}
