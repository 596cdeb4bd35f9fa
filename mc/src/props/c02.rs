//! Values agree with plain floats: operations, constants, predicates, comparisons, conversions
use crate::engine::*;
use crate::gen::*;
use crate::jet::*;
use crate::prog::*;
use advantage::{AContext, AFloat};
use num::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::rc::Rc;

/// How a value under test came to be
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Plain,
    Seeded,
    Recorded,
    Dead,
}
const KINDS: [Kind; 4] = [Kind::Plain, Kind::Seeded, Kind::Recorded, Kind::Dead];

trait Flt: Float + std::fmt::LowerExp + std::fmt::Debug + Alg + 'static {
    const NAME: &'static str;
    fn specials() -> Vec<Self>;
    fn ulp(x: Self) -> f64;
    fn bits(x: Self) -> u64;
    fn f64(self) -> f64 {
        <Self as ToPrimitive>::to_f64(&self).unwrap()
    }
}
impl Flt for f64 {
    const NAME: &'static str = "f64";
    fn specials() -> Vec<f64> {
        let mut v = vec![];
        for x in [
            0.0,
            1.0,
            0.5,
            2.0,
            3.0,
            0.1,
            0.75,
            0.999999,
            1.0000001,
            10.0,
            std::f64::consts::PI,
            std::f64::consts::FRAC_PI_2,
            100.25,
            1e5,
            1e15,
            9007199254740993.0,
            1e30,
            1e160,
            1e300,
            f64::MAX,
            1e-5,
            1e-30,
            1e-160,
            f64::MIN_POSITIVE,
            5e-324,
            1e-310,
            f64::INFINITY,
            f64::EPSILON,
            709.0,
            710.5,
            745.5,
        ] {
            v.push(x);
            v.push(-x);
        }
        v.push(f64::NAN);
        v
    }
    fn ulp(x: f64) -> f64 {
        (x.abs() * f64::EPSILON).max(5e-324)
    }
    fn bits(x: f64) -> u64 {
        x.to_bits()
    }
}
impl Flt for f32 {
    const NAME: &'static str = "f32";
    fn specials() -> Vec<f32> {
        let mut v = vec![];
        for x in [
            0.0f32, 1.0, 0.5, 2.0, 3.0, 0.1, 0.75, 0.9999, 1.0001, 10.0, std::f32::consts::PI, 100.25, 1e5, 16777216.0, 1e15, 1e30, f32::MAX, 1e-5, 1e-15,
            1e-30, f32::MIN_POSITIVE, 1e-45, 1e-40, f32::INFINITY, f32::EPSILON, 88.0, 89.5,
        ] {
            v.push(x);
            v.push(-x);
        }
        v.push(f32::NAN);
        v
    }
    fn ulp(x: f32) -> f64 {
        ((x as f64).abs() * f32::EPSILON as f64).max(1.5e-45)
    }
    fn bits(x: f32) -> u64 {
        x.to_bits() as u64
    }
}

/// Makes an operand of a kind; keeps the context in `ctx` alive for recorded ones
fn operand<S: Flt>(k: Kind, v: S, seed: f64, ctx: &mut AContext) -> AFloat<S> {
    match k {
        Kind::Plain => AFloat::new(v, S::zero()),
        Kind::Seeded => AFloat::new(v, S::from(seed).unwrap()),
        Kind::Recorded => {
            let mut a = AFloat::new(v, S::from(seed).unwrap());
            ctx.set_indep(&mut a);
            a
        }
        Kind::Dead => {
            let mut c = AContext::new();
            let mut a = AFloat::new(v, S::zero());
            c.set_indep(&mut a);
            a
        }
    }
}

/// operand kinds that may be combined (not two contexts)
const PAIRS: [(Kind, Kind); 8] = [
    (Kind::Plain, Kind::Plain),
    (Kind::Seeded, Kind::Seeded),
    (Kind::Recorded, Kind::Recorded),
    (Kind::Recorded, Kind::Plain),
    (Kind::Seeded, Kind::Recorded),
    (Kind::Dead, Kind::Plain),
    (Kind::Plain, Kind::Dead),
    (Kind::Plain, Kind::Seeded),
];

fn same<S: Flt>(got: S, want: S, tol: f64, zero_sign: bool) -> bool {
    if want.is_nan() {
        return got.is_nan();
    }
    if want.is_infinite() || got.is_infinite() || got.is_nan() {
        return got == want;
    }
    if zero_sign && want.is_zero() && got.is_zero() {
        return got.is_sign_negative() == want.is_sign_negative();
    }
    got == want || (got.f64() - want.f64()).abs() <= tol
}

/// 0: direct operation, anything goes; 1: composite, moderate operands
fn direct(n: &Node) -> bool {
    match *n {
        Node::Un(u, _) => matches!(
            u,
            Un::Neg | Un::Sin | Un::Cos | Un::Tan | Un::Abs | Un::Exp | Un::Ln | Un::Asin | Un::Acos | Un::Atan | Un::Cbrt | Un::Recip | Un::SinCosS | Un::SinCosC
        ),
        Node::Bin(b, ..) | Node::BinC(b, ..) | Node::CBin(b, ..) | Node::BinF(b, ..) | Node::FBin(b, ..) | Node::Asg(b, ..) | Node::AsgF(b, ..) => {
            matches!(b, Bin::Add | Bin::Sub | Bin::Mul | Bin::Div | Bin::Powf)
        }
        _ => false,
    }
}

fn moderate<S: Flt>(x: S) -> bool {
    let (lo, hi) = if S::NAME == "f64" { (1e-100, 1e100) } else { (1e-12, 1e12) };
    let a = x.f64().abs();
    x.is_zero() || (a >= lo && a <= hi)
}

fn ops<S: Flt>(name: &'static str) -> Harness {
    let mut steps = alphabet(3, 2).into_iter().filter(|s| {
        let a = s.args();
        match s {
            Node::MulAdd(x, y, z) => (*x, *y, *z) == (0, 1, 2) || (*x, *y, *z) == (0, 0, 0),
            _ => a.iter().enumerate().all(|(i, v)| *v == i || a.iter().all(|w| *w == 0)),
        }
    }).collect::<Vec<_>>();
    for n in [-30, -13, -4, 6, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 100, 101, 127, 128, 129, 255, 256, 257, -255, 1000, -1001, 32767, 32768, 40000, -40001, 65535, 65536, 65537, 16777215, 16777216, 16777217, -16777217, 33554433, i32::MAX, i32::MIN, i32::MIN + 1] {
        steps.push(Node::Un(Un::Powi(n), 0));
    }
    let sp = Rc::new(S::specials());
    Harness {
        name,
        bound: format!("{} single steps x {} special values per operand x ways an operand came to be", steps.len(), sp.len()),
        units: steps.len(),
        run: Box::new(move |ex, u| {
            let s = steps[u];
            let nargs = s.args().iter().max().unwrap() + 1;
            let mut v = vec![S::one(); 3];
            for x in v.iter_mut().take(nargs) {
                *x = if nargs == 3 { let k = ex.choose(15); sp[k * 2 % sp.len()] } else { let k = ex.choose(sp.len()); sp[k] };
            }
            let (k0, k1) = if nargs > 1 { ex.pick(&PAIRS) } else { let k = ex.pick(&KINDS); (k, k) };
            ex.state(&(u, v.iter().map(|x| S::bits(*x)).collect::<Vec<_>>()));
            ex.step();
            let want: S = match s {
                Node::Bin(Bin::AbsSub, x, y) => pdiff(v[x], v[y]),
                Node::BinC(Bin::AbsSub, x, k) => pdiff(v[x], S::lift(k)),
                Node::CBin(Bin::AbsSub, k, x) => pdiff(S::lift(k), v[x]),
                _ => eval_node(&s, &v),
            };
            ex.note(|| format!("{} {:?} at {:?} ({:?}, {:?})", S::NAME, s, v, k0, k1));
            let mut ctx = AContext::new();
            let a: Vec<AFloat<S>> = vec![operand(k0, v[0], 3.0, &mut ctx), operand(k1, v[1], -0.5, &mut ctx), AFloat::new(v[2], S::zero())];
            let got = eval_node(&s, &a).value();
            // a value never depends on how operands are recorded or seeded
            let plain: Vec<AFloat<S>> = v.iter().map(|x| AFloat::new(*x, S::zero())).collect();
            let base = eval_node(&s, &plain).value();
            if !(S::bits(got) == S::bits(base) || (got.is_nan() && base.is_nan())) {
                return Err(format!("{} {:?} at {:?} is {:e} for {:?}/{:?} operands and {:e} for plain ones", S::NAME, s, v, got, k0, k1, base));
            }
            ex.outcome(&S::bits(got));
            let mut tol = 8.0 * S::ulp(want);
            let mut zs = direct(&s);
            if !direct(&s) {
                if !v.iter().take(nargs).all(|x| moderate(*x)) {
                    ex.skip();
                    return Ok(());
                }
                zs = false;
                let eps = S::epsilon().f64();
                tol = match s {
                    Node::MulAdd(x, y, z) => 4.0 * eps * ((v[x].f64() * v[y].f64()).abs() + v[z].f64().abs()) + 1e-300,
                    Node::Un(Un::Powi(n), _) => ((8.0 + 2.0 * n.unsigned_abs() as f64) * S::ulp(want)).min(0.5 * want.f64().abs()),
                    Node::Bin(Bin::Max | Bin::Min | Bin::AbsSub, x, y) => 4.0 * eps * (v[x].f64().abs() + v[y].f64().abs()),
                    Node::BinC(Bin::Max | Bin::Min | Bin::AbsSub, x, k) | Node::CBin(Bin::Max | Bin::Min | Bin::AbsSub, k, x) => {
                        4.0 * eps * (v[x].f64().abs() + k.abs())
                    }
                    _ => 16.0 * S::ulp(want),
                };
                // results at the edge of the range may overflow or underflow in between
                if want.f64() != 0.0 && !want.is_nan() && !want.is_infinite() && !moderate(want) && !matches!(s, Node::Un(..)) {
                    ex.skip();
                    return Ok(());
                }
                if let Node::Un(Un::Powi(_), _) = s {
                    if !want.is_normal() && !want.is_zero() || want.f64().abs() > 1e250 || want.f64().abs() < 1e-250 {
                        ex.skip();
                        return Ok(());
                    }
                }
            }
            if !same(got, want, tol, zs) {
                return Err(format!("{} {:?} at {:?} gives {:e}, the plain float gives {:e}", S::NAME, s, v, got, want));
            }
            Ok(())
        }),
    }
}

fn pdiff<S: Float>(x: S, y: S) -> S {
    if x.is_nan() || y.is_nan() {
        S::nan()
    } else if x > y {
        x - y
    } else {
        S::zero()
    }
}

fn unsupported<S: Flt>(name: &'static str) -> Harness {
    let names = [
        "floor", "ceil", "round", "trunc", "fract", "signum", "exp_m1", "ln_1p", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "atan2", "rem",
    ];
    let sp = S::specials();
    Harness {
        name,
        bound: format!("{} unsupported operations x {} values x 4 kinds", names.len(), sp.len()),
        units: names.len(),
        run: Box::new(move |ex, u| {
            let v = ex.pick(&sp);
            let k = ex.pick(&KINDS);
            let mut ctx = AContext::new();
            let x = operand(k, v, 1.0, &mut ctx);
            ex.step();
            ex.state(&(u, S::bits(v)));
            ex.note(|| format!("{} of {:e} {:?}", names[u], v, k));
            let r = panics(|| match u {
                0 => x.floor(),
                1 => x.ceil(),
                2 => x.round(),
                3 => x.trunc(),
                4 => x.fract(),
                5 => x.signum(),
                6 => x.exp_m1(),
                7 => x.ln_1p(),
                8 => x.sinh(),
                9 => x.cosh(),
                10 => x.tanh(),
                11 => x.asinh(),
                12 => x.acosh(),
                13 => x.atanh(),
                14 => x.atan2(AFloat::new(S::one(), S::zero())),
                _ => x % AFloat::new(S::one(), S::zero()),
            });
            match r {
                Ok(y) => Err(format!("unsupported {} of {:e} returned {:e}", names[u], v, y.value())),
                Err(_) => Ok(()),
            }
        }),
    }
}

macro_rules! eq {
    ($what:expr, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        if a != b {
            return Err(format!("{}: {:?} instead of {:?}", $what, a, b));
        }
    }};
}

/// Predicates, comparisons and conversions of one or two values
fn observers<S: Flt>(name: &'static str) -> Harness {
    let mut sp = S::specials();
    for k in [127.0, 127.5, 128.0, 255.9, 256.0, -128.0, -128.9, -129.0, 32767.5, 65535.0, 65536.0, 2147483647.0, 2147483648.0, -2147483649.0, 4294967296.0, 9.3e18, 1.9e19, 1.8e38, 3.5e38] {
        sp.push(<S as NumCast>::from(k).unwrap());
    }
    Harness {
        name,
        bound: format!("all pairs of {} values x kinds", sp.len()),
        units: sp.len(),
        run: Box::new(move |ex, u| {
            let x = sp[u];
            let k = ex.choose(sp.len());
            let y = sp[k];
            let (k0, k1) = ex.pick(&PAIRS);
            let mut ctx = AContext::new();
            let a = operand(k0, x, 2.0, &mut ctx);
            let b = operand(k1, y, -7.0, &mut ctx);
            ex.step();
            ex.state(&(S::bits(x), S::bits(y)));
            ex.note(|| format!("{:e} and {:e} {:?} {:?}", x, y, k0, k1));
            let w = format!("{} {:e}, {:e}", S::NAME, x, y);
            eq!(format!("== {}", w), a == b, x == y);
            eq!(format!("!= {}", w), a != b, x != y);
            eq!(format!("< {}", w), a < b, x < y);
            eq!(format!("<= {}", w), a <= b, x <= y);
            eq!(format!("> {}", w), a > b, x > y);
            eq!(format!(">= {}", w), a >= b, x >= y);
            eq!(format!("partial_cmp {}", w), a.partial_cmp(&b), x.partial_cmp(&y));
            eq!(format!("is_nan {}", w), a.is_nan(), x.is_nan());
            eq!(format!("is_infinite {}", w), a.is_infinite(), x.is_infinite());
            eq!(format!("is_finite {}", w), a.is_finite(), x.is_finite());
            eq!(format!("is_normal {}", w), a.is_normal(), x.is_normal());
            eq!(format!("is_subnormal {}", w), a.is_subnormal(), x.is_subnormal());
            eq!(format!("is_sign_positive {}", w), a.is_sign_positive(), x.is_sign_positive());
            eq!(format!("is_sign_negative {}", w), a.is_sign_negative(), x.is_sign_negative());
            eq!(format!("classify {}", w), a.classify(), x.classify());
            eq!(format!("is_zero {}", w), a.is_zero(), x.is_zero());
            eq!(format!("is_one {}", w), a.is_one(), x.is_one());
            eq!(format!("integer_decode {}", w), a.integer_decode(), x.integer_decode());
            eq!(format!("to_i8 {}", w), a.to_i8(), x.to_i8());
            eq!(format!("to_u8 {}", w), a.to_u8(), x.to_u8());
            eq!(format!("to_i16 {}", w), a.to_i16(), x.to_i16());
            eq!(format!("to_u16 {}", w), a.to_u16(), x.to_u16());
            eq!(format!("to_i32 {}", w), a.to_i32(), x.to_i32());
            eq!(format!("to_u32 {}", w), a.to_u32(), x.to_u32());
            eq!(format!("to_i64 {}", w), a.to_i64(), x.to_i64());
            eq!(format!("to_u64 {}", w), a.to_u64(), x.to_u64());
            eq!(format!("to_i128 {}", w), a.to_i128(), x.to_i128());
            eq!(format!("to_u128 {}", w), a.to_u128(), x.to_u128());
            eq!(format!("to_isize {}", w), a.to_isize(), x.to_isize());
            eq!(format!("to_usize {}", w), a.to_usize(), x.to_usize());
            eq!(format!("to_f32 {}", w), a.to_f32().map(f32::to_bits), x.to_f32().map(f32::to_bits));
            eq!(format!("to_f64 {}", w), a.to_f64().map(f64::to_bits), x.to_f64().map(f64::to_bits));
            // conversions of the value itself
            let c: AFloat<f64> = AFloat::cast(a);
            eq!(format!("cast {}", w), c.value().to_bits(), x.f64().to_bits());
            let d: AFloat<f32> = AFloat::cast(a);
            eq!(format!("cast {}", w), d.value().to_bits(), <f32 as NumCast>::from(x).unwrap().to_bits());
            let e: AFloat<S> = <AFloat<S> as NumCast>::from(a).unwrap();
            eq!(format!("NumCast {}", w), S::bits(e.value()), S::bits(x));
            let f: AFloat<S> = x.into();
            eq!(format!("From {}", w), S::bits(f.value()), S::bits(x));
            let m = num::clamp(a, AFloat::new(S::zero(), S::zero()), AFloat::new(S::one(), S::zero()));
            let mw = num::clamp(x, S::zero(), S::one());
            eq!(format!("clamp {}", w), S::bits(m.value()), S::bits(mw));
            let mut g = a;
            *g.value_mut() = y;
            eq!(format!("value_mut {}", w), S::bits(g.value()), S::bits(y));
            *g.dvalue_mut() = x;
            eq!(format!("dvalue_mut {}", w), (S::bits(g.value()), S::bits(g.dvalue())), (S::bits(y), S::bits(x)));
            if !x.is_nan() && !y.is_nan() {
                eq!(format!("copysign {}", w), S::bits(a.copysign(b).value()), S::bits(x.copysign(y)));
            }
            if moderate(x) {
                if !same(a.to_degrees().value(), x.to_degrees(), 8.0 * S::ulp(x.to_degrees()), false) {
                    return Err(format!("to_degrees {}", w));
                }
                if !same(a.to_radians().value(), x.to_radians(), 8.0 * S::ulp(x.to_radians()), false) {
                    return Err(format!("to_radians {}", w));
                }
            }
            ex.outcome(&(a == b, a < b, a > b, a.classify() as u8, a.to_i32(), a.to_u64()));
            Ok(())
        }),
    }
}

fn konst<S: Flt>(name: &'static str) -> Harness
where
    AFloat<S>: Num,
{
    Harness {
        name,
        bound: "every named constant, NumCast from boundary values of every primitive type, all i8, u8, i16, u16, all 2^k + d and -2^k + d; parsing all strings of up to 4 characters out of 11 in radix 2, 8, 10, 16, 36".into(),
        units: 3 + 11,
        run: Box::new(move |ex, u| {
            ex.step();
            ex.state(&(name, u));
            ex.note(|| format!("constants of AFloat<{}>, group {}", S::NAME, u));
            macro_rules! k {
                ($($n:ident)*) => {$(
                    eq!(stringify!($n), S::bits(AFloat::<S>::$n().value()), S::bits(S::$n()));
                    eq!(concat!(stringify!($n), " derivative"), AFloat::<S>::$n().dvalue(), S::zero());
                )*}
            }
            match u {
                0 => {
                    k!(infinity neg_infinity neg_zero min_value min_positive_value max_value epsilon zero one);
                    if !AFloat::<S>::nan().is_nan() {
                        return Err("nan".into());
                    }
                }
                1 => {
                    macro_rules! c {
                        ($($t:ty: $($v:expr),*;)*) => {$($(
                            let v: $t = $v;
                            let want: Option<S> = <S as NumCast>::from(v);
                            let got = <AFloat<S> as NumCast>::from(v);
                            eq!(format!("from {} {:?}", stringify!($t), v), got.map(|x| S::bits(x.value())), want.map(|x| S::bits(x)));
                            eq!(format!("derivative of {:?}", v), got.map(|x| x.dvalue().is_zero()), Some(true));
                        )*)*}
                    }
                    c! {
                        i8: i8::MIN, -1, 0, i8::MAX;
                        u8: 0, 200, u8::MAX;
                        i16: i16::MIN, -300, i16::MAX;
                        u16: 0, u16::MAX;
                        i32: i32::MIN, -70000, 0, 16777217, i32::MAX;
                        u32: 0, 16777217, u32::MAX;
                        i64: i64::MIN, -9007199254740993, 4294967297, i64::MAX;
                        u64: 0, 9007199254740993, u64::MAX;
                        i128: i128::MIN, -1, i128::MAX;
                        u128: 0, u128::MAX;
                        isize: isize::MIN, isize::MAX;
                        usize: 0, usize::MAX;
                        f32: 0.1, -2.5, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY;
                        f64: 0.1, -2.5, 1e-7, 1e300, 0.5, 1e-320, f64::NEG_INFINITY;
                    }
                    macro_rules! all {
                        ($($t:ty: $it:expr;)*) => {$(
                            for v in $it {
                                let v = v as $t;
                                let want: Option<S> = <S as NumCast>::from(v);
                                let got = <AFloat<S> as NumCast>::from(v);
                                eq!(format!("from {} {:?}", stringify!($t), v), got.map(|x| S::bits(x.value())), want.map(|x| S::bits(x)));
                                eq!(format!("derivative of {:?}", v), got.map(|x| x.dvalue().is_zero()), Some(true));
                            }
                        )*}
                    }
                    let around = |bits: u32| (0..bits).flat_map(|k| (-2i128..3).flat_map(move |d| [(1i128 << k.min(126)).wrapping_add(d), (-1i128 << k.min(126)).wrapping_add(d)]));
                    all! {
                        i8: i8::MIN..=i8::MAX; u8: 0..=u8::MAX; i16: i16::MIN..=i16::MAX; u16: 0..=u16::MAX;
                        i32: around(32); u32: around(33); i64: around(64); u64: around(65); i128: around(127); u128: around(127);
                        isize: around(64); usize: around(65);
                        f64: around(127).map(|k| k as f64 * 0.75); f32: around(120).map(|k| k as f32 * 0.75);
                    }
                }
                3.. => {
                    const C: [char; 11] = ['0', '1', '7', 'a', 'z', 'e', '.', '-', '+', ' ', '_'];
                    for r in [2, 8, 10, 16, 36] {
                        for len in 1..=4u32 {
                            for k in 0..11usize.pow(len - 1) {
                                let mut s = String::from(C[u - 3]);
                                let mut k = k;
                                for _ in 1..len {
                                    s.push(C[k % 11]);
                                    k /= 11;
                                }
                                let a = AFloat::<S>::from_str_radix(&s, r).ok();
                                let b = S::from_str_radix(&s, r).ok();
                                eq!(format!("parse {:?} radix {}", s, r), a.map(|x| S::bits(x.value())), b.map(|x| S::bits(x)));
                                if let Some(a) = a {
                                    eq!(format!("derivative of {:?}", s), a.dvalue().is_zero(), true);
                                }
                            }
                        }
                    }
                }
                _ => {
                    for (s, r) in [("1", 10), ("-2.5", 10), ("0.1", 10), ("1e3", 10), ("ff", 16), ("-1010.1", 2), ("x", 10), ("", 10), ("inf", 10), ("7.25", 10), ("3.4028236e38", 10)] {
                        let a = AFloat::<S>::from_str_radix(s, r).ok();
                        let b = S::from_str_radix(s, r).ok();
                        eq!(format!("parse {:?} radix {}", s, r), a.map(|x| S::bits(x.value())), b.map(|x| S::bits(x)));
                    }
                }
            }
            Ok(())
        }),
    }
}

/// Compositions: value against the reference
fn programs(name: &'static str, n: usize, levels: &[u8], plevel: u8) -> Harness {
    let g = Gen::new(n, levels, |_| true);
    let pts = points(n, plevel);
    type J = Jet<1, false>;
    Harness {
        name,
        bound: format!("{}; {} points, plain, recorded and seeded", g.bound(), pts.len()),
        units: g.units(),
        run: Box::new(move |ex, u| {
            let Some(p) = g.program(ex, u) else {
                ex.skip();
                return Ok(());
            };
            let x = ex.pick(&pts);
            ex.note(|| format!("x = {:?}: {}", x, show(&p, n)));
            let jets = eval_all(&p, &x.iter().map(|v| J::input(*v, [0.0])).collect::<Vec<_>>());
            let plain: Vec<f64> = eval_all(&p, &x);
            let mut ctx = AContext::new();
            let rec = eval_all(&p, &x.iter().map(|v| ctx.new_indep(*v)).collect::<Vec<_>>());
            let seeded = eval_all(&p, &x.iter().map(|v| AFloat::new(*v, -1.5)).collect::<Vec<_>>());
            for i in n..jets.len() {
                ex.step();
                ex.state(&(&p[..=i - n], x.iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
                let (r, s) = (rec[i].value(), seeded[i].value());
                if r.to_bits() != s.to_bits() && !(r.is_nan() && s.is_nan()) {
                    return Err(format!("v{} of [{}] at {:?} is {:e} recorded and {:e} seeded", i, show(&p, n), x, r, s));
                }
                ex.outcome(&r.to_bits());
                if jets[i].vok && !close(r, plain[i], jets[i].ev, 1e-220) {
                    return Err(format!("v{} of [{}] at {:?} is {:e}, plain floats give {:e}", i, show(&p, n), x, r, plain[i]));
                }
            }
            Ok(())
        }),
    }
}

pub fn check(thorough: bool) -> Check {
    let mut hs = vec![
        ops::<f64>("ops_f64"),
        ops::<f32>("ops_f32"),
        unsupported::<f64>("unsupported_f64"),
        unsupported::<f32>("unsupported_f32"),
        observers::<f64>("observers_f64"),
        observers::<f32>("observers_f32"),
        konst::<f64>("constants_f64"),
        konst::<f32>("constants_f32"),
        programs("two_steps", 2, &[1, 2], 2),
    ];
    if thorough {
        hs.push(programs("two_steps_wide", 2, &[2, 2], 9));
        hs.push(programs("three_steps", 2, &[1, 0, 1], 1));
    }
    Check {
        property: "C02",
        harnesses: hs,
        assumptions: vec!["operands are drawn from the listed special values; composite operations are compared for operands of moderate size".into()],
    }
}
