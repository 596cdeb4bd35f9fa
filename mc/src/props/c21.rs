//! C21 single precision and nested active numbers
use crate::engine::*;
use crate::gen::*;
use crate::jet::*;
use crate::prog::*;
use crate::rec::*;
use advantage::{AContext, ADouble, AFloat, ASingle, DVector, Tape};

type J = Jet<ND, true>;
type A2 = AFloat<ADouble>;

// ---- single precision ------------------------------------------------------------------------

fn f32_tapeless(name: &'static str, n: usize, levels: &[u8], npts: usize) -> Harness {
    f32_tapeless_at(name, (Gen::new(n, levels, |_| true), points(n, 3)[..npts].to_vec()))
}
fn f32_tapeless_at(name: &'static str, (g, pts): (Gen, Vec<Vec<f64>>)) -> Harness {
    let (n, npts) = (g.n, pts.len());
    Harness {
        name,
        bound: format!("single precision: {}; {} points, 4 directions", g.bound(), npts),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            let x = ex.pick(&pts);
            let ds = dirs(n);
            ex.note(|| format!("{} at {:?}", show(&p, n), x));
            ex.state(&(&p, x.iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
            let ji: Vec<J> = (0..n).map(|i| J::input(x[i], std::array::from_fn(|k| ds[k][i]))).collect();
            let jets = eval_all(&p, &ji);
            if !jets[n..].iter().any(|j| j.dok) {
                ex.skip();
            }
            for (k, d) in ds.iter().enumerate() {
                let inp: Vec<ASingle> = (0..n).map(|i| ASingle::new(x[i] as f32, d[i] as f32)).collect();
                let got = eval_all(&p, &inp);
                for (i, (g, j)) in got.iter().zip(&jets).enumerate() {
                    ex.step();
                    if j.vok && !close(g.value() as f64, j.v, j.ev, J::ABS) {
                        return Err(format!("single precision value v{} of [{}] at {:?} is {:e}, expected {:e} +- {:e}", i, show(&p, n), x, g.value(), j.v, j.ev * FACTOR));
                    }
                    if j.dok && !close(g.dvalue() as f64, j.d[k], j.ed[k], J::ABS) {
                        return Err(format!(
                            "single precision derivative of v{} of [{}] at {:?} along {:?} is {:e}, expected {:e} +- {:e}",
                            i, show(&p, n), x, d, g.dvalue(), j.d[k], j.ed[k] * FACTOR
                        ));
                    }
                }
                ex.outcome(&got[got.len() - 1].dvalue().to_bits());
            }
            Ok(())
        }),
    }
}

fn recorded<S: num::Float + 'static>(name: &'static str, n: usize, levels: &[u8], npts: usize) -> Harness {
    recorded_at::<S>(name, (Gen::new(n, levels, |_| true), points(n, 3)[..npts].to_vec()))
}
fn recorded_at<S: num::Float + 'static>(name: &'static str, (g, pts): (Gen, Vec<Vec<f64>>)) -> Harness {
    let (n, npts) = (g.n, pts.len());
    Harness {
        name,
        bound: format!("recorded: {}; 3 recording styles, recorded at the first and replayed at {} points with forward and reverse sweeps", g.bound(), npts),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            let style = STYLES[1 + ex.choose(3)];
            let x0 = ex.choose(2);
            let f = ProgFn::all(n, p);
            ex.note(|| format!("{} recorded {:?}", show(&f.nodes, n), style));
            ex.state(&(&f.nodes, style, x0));
            let mut r = record_s::<S>(&f, &pts[x0], style);
            let ds = dirs(n);
            for (pi, x) in std::iter::once(&pts[x0]).chain(pts.iter()).enumerate() {
                if pi > 0 {
                    let a = r.arrange(x);
                    r.tape.zero_order(&a);
                }
                ex.step();
                let ji: Vec<J> = (0..n).map(|i| J::input(x[i], std::array::from_fn(|k| ds[k][i]))).collect();
                let jets = eval_all(&f.nodes, &ji);
                let y = r.tape.y();
                let dy: Vec<DVector<f64>> = ds.iter().map(|d| r.tape.first_order_forward(&r.arrange(d))).collect();
                for (i, o) in r.outs.iter().enumerate() {
                    let j = match o {
                        Out::Val(k) => jets[*k],
                        Out::Konst(k) => J::lift(*k),
                    };
                    // (inputs are stored in double precision here)
                    let tol = j.ev + 2.0 * J::U * j.v.abs();
                    if j.vok && !close(y[i], j.v, tol, J::ABS) {
                        return Err(format!("{} of [{}] at {:?}: output {} is {:e} instead of {:e}", if pi == 0 { "recording" } else { "replay" }, show(&f.nodes, n), x, i, y[i], j.v));
                    }
                    if j.dok {
                        for k in 0..4 {
                            if !close(dy[k][i], j.d[k], j.ed[k] + 4.0 * J::U * j.d[k].abs(), J::ABS) {
                                return Err(format!("forward sweep of the recording of [{}] at {:?}: derivative {} of output {} is {:e} instead of {:e}", show(&f.nodes, n), x, k, i, dy[k][i], j.d[k]));
                            }
                        }
                    }
                }
                ex.outcome(&y[0].to_bits());
            }
            Ok(())
        }),
    }
}

// ---- second derivatives ----------------------------------------------------------------------

/// value, two first derivatives, mixed second derivative, and majorants of all
#[derive(Clone, Copy, Debug)]
struct H {
    v: f64,
    d: [f64; 2],
    dd: f64,
    mv: f64,
    m: [f64; 2],
    mm: f64,
    ok: bool,
    active: bool,
}

impl H {
    fn input(v: f64, a: f64, b: f64) -> H {
        H { v, d: [a, b], dd: 0.0, mv: v.abs(), m: [a.abs(), b.abs()], mm: 0.0, ok: true, active: true }
    }
    fn range(mut self) -> H {
        let bad = |x: f64| !x.is_finite() || x.abs() > 1e8;
        if bad(self.v) || bad(self.d[0]) || bad(self.d[1]) || bad(self.dd) || bad(self.mm) || (self.mv > 1e3 * self.v.abs() && self.mv > 1e-2) {
            self.ok = false;
        }
        self
    }
    fn f1(a: H, v: f64, f: f64, ff: f64) -> H {
        let mut r = a;
        r.v = v;
        r.mv = (f * a.mv).abs() + v.abs();
        for k in 0..2 {
            r.d[k] = f * a.d[k];
            r.m[k] = f.abs() * a.m[k] + (ff * a.mv).abs() * a.m[k] * 1e-4;
        }
        r.dd = ff * a.d[0] * a.d[1] + f * a.dd;
        r.mm = ff.abs() * a.m[0] * a.m[1] + f.abs() * a.mm;
        r.range()
    }
    fn f2(a: H, b: H, v: f64, f: [f64; 2], ff: [f64; 3]) -> H {
        let p = |x: f64, y: f64| if y == 0.0 { 0.0 } else { x * y };
        let q = |a: H, b: H, g: [f64; 2], h: [f64; 3]| -> ([f64; 2], f64) {
            (
                [p(g[0], a.d[0]) + p(g[1], b.d[0]), p(g[0], a.d[1]) + p(g[1], b.d[1])],
                p(h[0], a.d[0] * a.d[1]) + p(h[1], a.d[0] * b.d[1] + b.d[0] * a.d[1]) + p(h[2], b.d[0] * b.d[1]) + p(g[0], a.dd) + p(g[1], b.dd),
            )
        };
        let (d, dd) = q(a, b, f, ff);
        let maj = |x: H| H { d: x.m, dd: x.mm, ..x };
        let (m, mm) = q(maj(a), maj(b), f.map(|x| x.abs()), ff.map(|x| x.abs()));
        H { v, d, dd, mv: p(f[0].abs(), a.mv) + p(f[1].abs(), b.mv) + v.abs(), m, mm, ok: a.ok && b.ok, active: a.active || b.active }.range()
    }
    fn no(mut self) -> H {
        self.ok = false;
        self
    }
    fn k(v: f64) -> H {
        H { v, d: [0.0; 2], dd: 0.0, mv: v.abs(), m: [0.0; 2], mm: 0.0, ok: true, active: false }
    }
    fn span(&self) -> f64 {
        2.0 * (self.d[0].abs() + self.d[1].abs() + self.dd.abs()) + 1e-9
    }
    fn powf(a: H, b: H) -> H {
        let (x, y) = (a.v, b.v);
        let v = x.powf(y);
        if b.active {
            if x < 1e-3 {
                return H::f2(a, b, v, [0.0; 2], [0.0; 3]).no();
            }
            let l = x.ln();
            return H::f2(a, b, v, [y * x.powf(y - 1.0), l * v], [y * (y - 1.0) * x.powf(y - 2.0), x.powf(y - 1.0) * (1.0 + y * l), l * l * v]);
        }
        let int = y.fract() == 0.0;
        if x == 0.0 && int && y >= 0.0 {
            let f = if y == 1.0 { 1.0 } else { 0.0 };
            let ff = if y == 2.0 { 2.0 } else { 0.0 };
            return H::f1(a, v, f, ff);
        }
        if x.abs() < 1e-3 || (x < 0.0 && !int) {
            return H::f1(a, v, 0.0, 0.0).no();
        }
        H::f1(a, v, y * x.powf(y - 1.0), y * (y - 1.0) * x.powf(y - 2.0))
    }
    fn abs(a: H) -> H {
        let r = H::f1(a, a.v.abs(), if a.v > 0.0 { 1.0 } else { -1.0 }, 0.0);
        if a.v.abs() < a.span() {
            r.no()
        } else {
            r
        }
    }
}

impl Alg for H {
    fn lift(k: f64) -> H {
        H::k(k)
    }
    fn bin(b: Bin, x: H, y: H) -> H {
        let (p, q) = (x.v, y.v);
        match b {
            Bin::Add => H::f2(x, y, p + q, [1.0, 1.0], [0.0; 3]),
            Bin::Sub => H::f2(x, y, p - q, [1.0, -1.0], [0.0; 3]),
            Bin::Mul => H::f2(x, y, p * q, [q, p], [0.0, 1.0, 0.0]),
            Bin::Div => {
                if q.abs() < 1e-3 {
                    return H::f2(x, y, p, [0.0; 2], [0.0; 3]).no();
                }
                H::f2(x, y, p / q, [1.0 / q, -p / (q * q)], [0.0, -1.0 / (q * q), 2.0 * p / (q * q * q)])
            }
            Bin::Powf => H::powf(x, y),
            Bin::Max | Bin::Min => {
                let t = H::abs(H::bin(Bin::Sub, x, y));
                let t = if b == Bin::Max { t } else { H::un(Un::Neg, t) };
                H::bin(Bin::Mul, H::bin(Bin::Add, H::bin(Bin::Add, x, y), t), H::k(0.5))
            }
            Bin::AbsSub => H::bin(Bin::Max, H::bin(Bin::Sub, x, y), H::k(0.0)),
            Bin::Hypot => H::powf(H::bin(Bin::Add, H::bin(Bin::Mul, x, x), H::bin(Bin::Mul, y, y)), H::k(0.5)),
            Bin::Log => H::bin(Bin::Div, H::un(Un::Ln, x), H::un(Un::Ln, y)),
        }
    }
    fn un(u: Un, a: H) -> H {
        let x = a.v;
        let (s, c) = x.sin_cos();
        match u {
            Un::Neg => H::f1(a, -x, -1.0, 0.0),
            Un::Sin | Un::SinCosS => H::f1(a, s, c, -s),
            Un::Cos | Un::SinCosC => H::f1(a, c, -s, -c),
            Un::Tan => {
                let r = H::f1(a, x.tan(), 1.0 / (c * c), 2.0 * s / (c * c * c));
                if c.abs() < 1e-2 {
                    r.no()
                } else {
                    r
                }
            }
            Un::Abs => H::abs(a),
            Un::Exp => H::f1(a, x.exp(), x.exp(), x.exp()),
            Un::Ln => {
                if x < 1e-3 {
                    return H::f1(a, x, 0.0, 0.0).no();
                }
                H::f1(a, x.ln(), 1.0 / x, -1.0 / (x * x))
            }
            Un::Asin | Un::Acos => {
                let w = 1.0 - x * x;
                if w < 1e-2 {
                    return H::f1(a, x, 0.0, 0.0).no();
                }
                let k = if u == Un::Asin { 1.0 } else { -1.0 };
                H::f1(a, if u == Un::Asin { x.asin() } else { x.acos() }, k / w.sqrt(), k * x / (w * w.sqrt()))
            }
            Un::Atan => H::f1(a, x.atan(), 1.0 / (1.0 + x * x), -2.0 * x / (1.0 + x * x).powi(2)),
            Un::Sqrt => H::powf(a, H::k(0.5)),
            Un::Recip => H::bin(Bin::Div, H::k(1.0), a),
            Un::Exp2 => H::un(Un::Exp, H::bin(Bin::Mul, a, H::k(std::f64::consts::LN_2))),
            Un::Log2 => H::bin(Bin::Mul, H::un(Un::Ln, a), H::k(1.0 / std::f64::consts::LN_2)),
            Un::Log10 => H::bin(Bin::Mul, H::un(Un::Ln, a), H::k(1.0 / std::f64::consts::LN_10)),
            Un::Cbrt => {
                if x.abs() < 1e-3 {
                    return H::f1(a, x, 0.0, 0.0).no();
                }
                let c = x.cbrt();
                H::f1(a, c, 1.0 / (3.0 * c * c), -2.0 / (9.0 * c * c * x))
            }
            Un::Powi(n) => H::powf(a, H::k(n as f64)),
        }
    }
    fn mul_add(x: H, y: H, z: H) -> H {
        H::bin(Bin::Add, H::bin(Bin::Mul, x, y), z)
    }
}

fn like(g: f64, w: f64, m: f64) -> bool {
    g == w || w.is_finite() && (g - w).abs() <= 1e-8 * (m.abs() + w.abs()) + 1e-13
}

fn near_points(n: usize) -> Vec<Vec<f64>> {
    let p = [[0.5, 2.0, 1.25], [-0.75, 1.5, 0.25], [2.5, -1.25, 0.5], [0.0, 0.375, -2.0], [1.0, 3.0, 0.75], [-2.0, -0.5, 1.5]];
    p.iter().map(|p| p[..n].to_vec()).collect()
}
const SEEDS: [[[f64; 3]; 2]; 3] = [
    [[0.015625, 0.0, 0.0], [0.015625, 0.0, 0.0]],
    [[0.015625, -0.03125, 0.0078125], [0.0, 0.0625, -0.015625]],
    [[-0.03125, 0.0625, 0.03125], [0.0625, 0.046875, 0.0]],
];

fn nested(name: &'static str, n: usize, levels: &[u8], npts: usize) -> Harness {
    let g = Gen::new(n, levels, |_| true);
    let pts = near_points(n)[..npts].to_vec();
    Harness {
        name,
        bound: format!("active numbers nested in active numbers: {}; {} points, 3 pairs of directions", g.bound(), npts),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            let x = ex.pick(&pts);
            ex.note(|| format!("{} at {:?}", show(&p, n), x));
            ex.state(&(&p, x.iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
            let mut any = false;
            for s in &SEEDS {
                let want = eval_all(&p, &(0..n).map(|i| H::input(x[i], s[0][i], s[1][i])).collect::<Vec<_>>());
                let got = eval_all(&p, &(0..n).map(|i| A2::new(ADouble::new(x[i], s[0][i]), ADouble::new(s[1][i], 0.0))).collect::<Vec<_>>());
                for (i, (w, g)) in want.iter().zip(&got).enumerate() {
                    ex.step();
                    if !w.ok {
                        continue;
                    }
                    any |= i >= n;
                    let all = [
                        ("value", g.value().value(), w.v, w.mv),
                        ("first inner derivative", g.value().dvalue(), w.d[0], w.m[0]),
                        ("first outer derivative", g.dvalue().value(), w.d[1], w.m[1]),
                        ("second derivative", g.dvalue().dvalue(), w.dd, w.mm + w.m[0] * w.m[1]),
                    ];
                    for (what, a, b, m) in all {
                        if !like(a, b, m) {
                            return Err(format!("{} of v{} of [{}] at {:?} along {:?} is {:e} instead of {:e}", what, i, show(&p, n), x, s, a, b));
                        }
                    }
                    ex.outcome(&g.dvalue().dvalue().to_bits());
                }
            }
            if !any {
                ex.skip();
            }
            Ok(())
        }),
    }
}

/// The inner numbers are recorded: the tape computes function and derivative
fn inner_recorded(name: &'static str, n: usize, levels: &[u8], npts: usize) -> Harness {
    let g = Gen::new(n, levels, |nd| !nd.has_abs());
    let pts: Vec<Vec<f64>> = [[0.5, 2.0], [0.75, 0.25], [2.5, 1.25], [0.3, 0.9]][..npts].iter().map(|p| p[..n].to_vec()).collect();
    Harness {
        name,
        bound: format!("inner numbers recorded, value and derivative as outputs: {}; {} points, bases of powers positive", g.bound(), npts),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            ex.note(|| show(&p, n));
            ex.state(&p);
            let s = &SEEDS[1];
            let mut c = AContext::new();
            let inp: Vec<A2> = (0..n).map(|i| A2::new(c.new_indep(pts[0][i]), ADouble::new(s[1][i], 0.0))).collect();
            let v = eval_all(&p, &inp);
            let r = v[v.len() - 1];
            c.set_dep(&r.value());
            c.set_dep(&r.dvalue());
            let mut t = c.tape();
            let mut any = false;
            let reference = |x: &[f64]| {
                let w = eval_all(&p, &(0..n).map(|i| H::input(x[i], s[0][i], s[1][i])).collect::<Vec<_>>());
                // the derivative of a power uses the logarithm of its base
                let base = |i: usize| w[i].v > 0.0;
                let bases = p.iter().all(|nd| match *nd {
                    Node::Un(Un::Powi(_) | Un::Sqrt | Un::Cbrt, i) | Node::BinC(Bin::Powf, i, _) | Node::BinF(Bin::Powf, i, _) => base(i),
                    Node::Bin(Bin::Powf, i, _) => base(i),
                    Node::Bin(Bin::Hypot, i, j) => base(i) && base(j),
                    Node::BinC(Bin::Hypot, i, k) | Node::CBin(Bin::Hypot, k, i) => base(i) && k > 0.0,
                    Node::CBin(Bin::Powf, k, _) | Node::FBin(Bin::Powf, k, _) => k > 0.0,
                    _ => true,
                });
                if w.iter().all(|w| w.ok) && bases {
                    Some(w[w.len() - 1])
                } else {
                    None
                }
            };
            if reference(&pts[0]).is_none() {
                ex.skip();
                return Ok(());
            }
            for x in &pts {
                let Some(w) = reference(x) else { continue };
                any = true;
                t.zero_order(&DVector::from_vec(x.clone()));
                let dy = t.first_order_forward(&DVector::from_iterator(n, s[0][..n].iter().cloned()));
                let rev = t.first_order_reverse(&DVector::from_vec(vec![0.0, 1.0]));
                let second: f64 = rev.iter().zip(s[0]).map(|(a, b)| a * b).sum();
                ex.step();
                let all = [("value", t.y()[0], w.v, w.mv), ("derivative", t.y()[1], w.d[1], w.m[1]), ("swept derivative", dy[0], w.d[0], w.m[0]), ("second derivative", dy[1], w.dd, w.mm + w.m[0] * w.m[1]), ("second derivative in reverse", second, w.dd, w.mm + w.m[0] * w.m[1])];
                for (what, a, b, m) in all {
                    if !like(a, b, m) {
                        return Err(format!("{} from the recorded derivative of [{}] at {:?} is {:e} instead of {:e}", what, show(&p, n), x, a, b));
                    }
                }
                ex.outcome(&dy[1].to_bits());
            }
            if !any {
                ex.skip();
            }
            Ok(())
        }),
    }
}

// ---- conversions -----------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
enum Num {
    D(ADouble),
    S(ASingle),
    N(A2),
}

fn casts(depth: usize) -> Harness {
    Harness {
        name: "conversions",
        bound: format!("a recorded and a plain variable: all sequences of {} steps (convert to double, single or nested, 2-x, x*x0, x+1.5), then replay at 3 points", depth),
        units: 3 * 2 * 3,
        run: Box::new(move |ex, u| {
            let x0 = [1.5, -2.0, 0.25][u % 3];
            let recorded = u / 3 % 2 == 0;
            let d0 = 0.5;
            let mut c = AContext::new();
            let mut v = ADouble::new(x0, d0);
            if recorded {
                c.set_indep(&mut v);
            }
            let mut cur = match u / 6 {
                0 => Num::D(v),
                1 => Num::S(ASingle::cast(v)),
                _ => Num::N(A2::cast(v)),
            };
            let orig = v;
            let mut log = vec![];
            // values stay exact in single precision
            let mut ops: Vec<usize> = vec![];
            for _ in 0..depth {
                let a = ex.choose(6);
                log.push(a);
                ex.step();
                macro_rules! each {
                    ($x:ident => $e:expr) => {
                        match cur {
                            Num::D($x) => Num::D($e),
                            Num::S($x) => Num::S($e),
                            Num::N($x) => Num::N($e),
                        }
                    };
                }
                cur = match a {
                    0 => match cur {
                        Num::D(x) => Num::D(ADouble::cast(x)),
                        Num::S(x) => Num::D(ADouble::cast(x)),
                        Num::N(x) => Num::D(ADouble::cast(x)),
                    },
                    1 => match cur {
                        Num::D(x) => Num::S(ASingle::cast(x)),
                        Num::S(x) => Num::S(ASingle::cast(x)),
                        Num::N(x) => Num::S(ASingle::cast(x)),
                    },
                    2 => match cur {
                        Num::D(x) => Num::N(A2::cast(x)),
                        Num::S(x) => Num::N(A2::cast(x)),
                        Num::N(x) => Num::N(A2::cast(x)),
                    },
                    3 => each!(x => 2.0 - x),
                    4 => match cur {
                        Num::D(x) => Num::D(x * orig),
                        Num::S(x) => Num::S(x * ASingle::cast(orig)),
                        Num::N(x) => Num::N(x * A2::cast(orig)),
                    },
                    _ => each!(x => x + 1.5),
                };
                if a >= 3 {
                    ops.push(a);
                }
            }
            let run = |x: f64, d: f64| {
                let (mut v, mut dv) = (x, d);
                for o in &ops {
                    (v, dv) = match o {
                        3 => (2.0 - v, -dv),
                        4 => (v * x, dv * x + v * d),
                        _ => (v + 1.5, dv),
                    };
                }
                (v, dv)
            };
            ex.note(|| format!("steps {:?} from {}", log, x0));
            ex.state(&(u, &log));
            let (gv, gd) = match cur {
                Num::D(x) => (x.value(), x.dvalue()),
                Num::S(x) => (x.value() as f64, x.dvalue() as f64),
                Num::N(x) => (x.value().value(), x.dvalue().value()),
            };
            let w = run(x0, d0);
            if (gv, gd) != w {
                return Err(format!("steps {:?} from {}/{}: {}/{} instead of {}/{}", log, x0, d0, gv, gd, w.0, w.1));
            }
            ex.outcome(&gv.to_bits());
            if recorded {
                let before = c.values().len();
                match cur {
                    Num::D(x) => c.set_dep(&x),
                    Num::S(x) => c.set_dep(&x),
                    Num::N(x) => c.set_dep(&x),
                }
                if c.values().len() != before {
                    return Err(format!("steps {:?}: the variable lost its recording position", log));
                }
                let mut t = c.tape();
                for x in [x0, 3.0, -0.5] {
                    t.zero_order(&DVector::from_vec(vec![x]));
                    let w = run(x, d0);
                    let dy = t.first_order_forward(&DVector::from_vec(vec![d0]));
                    if t.y()[0] != w.0 || dy[0] != w.1 {
                        return Err(format!("steps {:?}: the recording gives {}/{} at {} instead of {}/{}", log, t.y()[0], dy[0], x, w.0, w.1));
                    }
                }
            } else if !c.values().is_empty() {
                return Err("a plain variable is recorded".into());
            }
            Ok(())
        }),
    }
}

/// Every value of a set converted both ways
fn cast_values() -> Harness {
    Harness {
        name: "converted_values",
        bound: "all pairs of 47 values and derivatives converted from double to single and back, and to nested".into(),
        units: WIDE.len(),
        run: Box::new(|ex, u| {
            for d in WIDE.iter().chain(&[1.0 / 3.0, 16777217.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]) {
                let v = WIDE[u];
                ex.step();
                let x = ADouble::new(v, *d);
                let s = ASingle::cast(x);
                let b = ADouble::cast(s);
                let n = A2::cast(x);
                let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
                let ok = same(s.value() as f64, v as f32 as f64)
                    && same(s.dvalue() as f64, *d as f32 as f64)
                    && same(b.value(), v as f32 as f64)
                    && same(b.dvalue(), *d as f32 as f64)
                    && same(n.value().value(), v)
                    && same(n.dvalue().value(), *d)
                    && same(n.value().dvalue(), 0.0);
                if !ok {
                    return Err(format!("{}/{} converts to {:?}, back to {:?}, nested {:?}", v, d, s, b, n));
                }
            }
            ex.note(|| format!("{}", WIDE[u]));
            ex.state(&u);
            Ok(())
        }),
    }
}

/// (inputs that single precision takes for zero are not the same inputs)
fn grid32(n: usize) -> (Gen, Vec<Vec<f64>>) {
    let (g, mut pts) = grid(n);
    pts.retain(|p| p.iter().all(|x| (*x as f32 == 0.0) == (*x == 0.0)));
    (g, pts)
}

pub fn check(t: bool) -> Check {
    let mut hs = vec![
        f32_tapeless("single1", 2, &[2], 14),
        f32_tapeless("single2", 2, &[1, 1], 3),
        f32_tapeless("single3", 2, &[0, 0, 0], 1),
        recorded::<f32>("single_recorded1", 2, &[2], 14),
        recorded::<f32>("single_recorded2", 2, &[0, 1], 3),
        recorded::<ADouble>("nested_recorded1", 2, &[2], 14),
        recorded::<ADouble>("nested_recorded2", 2, &[0, 1], 3),
        nested("nested1", 2, &[2], 6),
        nested("nested2", 2, &[1, 1], 3),
        inner_recorded("inner1", 2, &[2], 4),
        inner_recorded("inner2", 2, &[0, 0], 3),
        f32_tapeless("single2w", 2, &[2, 2], 10),
        f32_tapeless("single3w", 2, &[1, 0, 0], 3),
        recorded::<f32>("single_recorded2w", 2, &[1, 1], 5),
        recorded::<ADouble>("nested_recorded2w", 2, &[1, 1], 5),
        recorded::<ASingle>("nested_single_recorded", 2, &[1, 0], 5),
        nested("nested2w", 2, &[2, 2], 6),
        nested("nested3", 2, &[0, 0, 0], 3),
        inner_recorded("inner2w", 2, &[1, 1], 3),
        casts(if t { 7 } else { 6 }),
        cast_values(),
        f32_tapeless_at("single_grid", grid32(1)),
        f32_tapeless_at("single_grid_2", grid32(2)),
        recorded_at::<f32>("single_recorded_grid", grid32(1)),
        recorded_at::<f32>("single_recorded_grid_2", grid32(2)),
        recorded_at::<ADouble>("nested_recorded_grid", grid32(1)),
        recorded_at::<ADouble>("nested_recorded_grid_2", grid32(2)),
    ];
    if t {
        hs.extend([
            f32_tapeless("single4", 1, &[0, 0, 0, 0], 3),
            nested("nested4", 1, &[0, 0, 0, 0], 3),
            recorded::<ADouble>("nested_recorded3w", 2, &[1, 0, 0], 2),
            f32_tapeless("single3ww", 2, &[1, 1, 0], 3),
            recorded::<f32>("single_recorded3", 2, &[0, 0, 0], 3),
            recorded::<ADouble>("nested_recorded3", 2, &[0, 0, 0], 3),
            nested("nested3w", 2, &[1, 0, 0], 3),
            inner_recorded("inner3", 2, &[0, 0, 0], 3),
        ]);
    }
    Check {
        property: "C21",
        harnesses: hs,
        assumptions: vec!["second derivatives are compared where all values are moderate and no absolute value changes sign within the seeds".into()],
    }
}
