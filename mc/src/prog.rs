//! Straight-line programs over the supported operations, and their evaluation in any number type
use advantage::AFloat;
use num::{Float, NumCast};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    Div,
    Powf,
    Max,
    Min,
    Hypot,
    AbsSub,
    Log,
}
use Bin::*;
pub const ARITH: [Bin; 4] = [Add, Sub, Mul, Div];
pub const BINS: [Bin; 10] = [Add, Sub, Mul, Div, Powf, Max, Min, Hypot, AbsSub, Log];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Un {
    Neg,
    Sin,
    Cos,
    Tan,
    Abs,
    Exp,
    Ln,
    Asin,
    Acos,
    Atan,
    Sqrt,
    Recip,
    Exp2,
    Log2,
    Log10,
    Cbrt,
    SinCosS,
    SinCosC,
    Powi(i32),
}
pub const UNS: [Un; 18] = [
    Un::Neg,
    Un::Sin,
    Un::Cos,
    Un::Tan,
    Un::Abs,
    Un::Exp,
    Un::Ln,
    Un::Asin,
    Un::Acos,
    Un::Atan,
    Un::Sqrt,
    Un::Recip,
    Un::Exp2,
    Un::Log2,
    Un::Log10,
    Un::Cbrt,
    Un::SinCosS,
    Un::SinCosC,
];

/// One step of a program. `x`, `y`, `z` are indices of earlier values.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Node {
    Un(Un, usize),
    /// active with active
    Bin(Bin, usize, usize),
    /// active with a constant lifted to an active number
    BinC(Bin, usize, f64),
    CBin(Bin, f64, usize),
    /// active with a plain f64 (operators of mixed type)
    BinF(Bin, usize, f64),
    FBin(Bin, f64, usize),
    /// compound assignment
    Asg(Bin, usize, usize),
    AsgF(Bin, usize, f64),
    MulAdd(usize, usize, usize),
    /// a constant active number
    Const(f64),
}

impl std::hash::Hash for Node {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        std::mem::discriminant(self).hash(h);
        match *self {
            Node::Un(u, x) => (u, x).hash(h),
            Node::Bin(b, x, y) | Node::Asg(b, x, y) => (b, x, y).hash(h),
            Node::BinC(b, x, k) | Node::CBin(b, k, x) | Node::BinF(b, x, k) | Node::FBin(b, k, x) | Node::AsgF(b, x, k) => {
                (b, x, k.to_bits()).hash(h)
            }
            Node::MulAdd(x, y, z) => (x, y, z).hash(h),
            Node::Const(k) => k.to_bits().hash(h),
        }
    }
}

impl Node {
    pub fn uses(&self, i: usize) -> bool {
        match *self {
            Node::Un(_, x) | Node::BinC(_, x, _) | Node::CBin(_, _, x) | Node::BinF(_, x, _) | Node::FBin(_, _, x) | Node::AsgF(_, x, _) => x == i,
            Node::Bin(_, x, y) | Node::Asg(_, x, y) => x == i || y == i,
            Node::MulAdd(x, y, z) => x == i || y == i || z == i,
            Node::Const(_) => false,
        }
    }
    pub fn args(&self) -> Vec<usize> {
        match *self {
            Node::Un(_, x) | Node::BinC(_, x, _) | Node::CBin(_, _, x) | Node::BinF(_, x, _) | Node::FBin(_, _, x) | Node::AsgF(_, x, _) => vec![x],
            Node::Bin(_, x, y) | Node::Asg(_, x, y) => vec![x, y],
            Node::MulAdd(x, y, z) => vec![x, y, z],
            Node::Const(_) => vec![],
        }
    }
    /// contains an absolute value
    pub fn has_abs(&self) -> bool {
        match *self {
            Node::Un(u, _) => u == Un::Abs,
            Node::Bin(b, ..) | Node::BinC(b, ..) | Node::CBin(b, ..) => matches!(b, Max | Min | AbsSub),
            _ => false,
        }
    }
}

/// A number type programs can be evaluated in
pub trait Alg: Copy {
    fn lift(k: f64) -> Self;
    fn bin(b: Bin, x: Self, y: Self) -> Self;
    fn un(u: Un, x: Self) -> Self;
    fn bin_f(b: Bin, x: Self, y: f64) -> Self {
        Self::bin(b, x, Self::lift(y))
    }
    fn f_bin(b: Bin, x: f64, y: Self) -> Self {
        Self::bin(b, Self::lift(x), y)
    }
    fn asg(b: Bin, x: Self, y: Self) -> Self {
        Self::bin(b, x, y)
    }
    fn asg_f(b: Bin, x: Self, y: f64) -> Self {
        Self::bin(b, x, Self::lift(y))
    }
    fn mul_add(x: Self, y: Self, z: Self) -> Self;
}

fn fbin<T: Float>(b: Bin, x: T, y: T) -> T {
    match b {
        Add => x + y,
        Sub => x - y,
        Mul => x * y,
        Div => x / y,
        Powf => x.powf(y),
        Max => x.max(y),
        Min => x.min(y),
        Hypot => x.hypot(y),
        AbsSub => {
            // the positive difference; deprecated in std, spelled out
            #[allow(deprecated)]
            x.abs_sub(y)
        }
        Log => x.log(y),
    }
}

fn fun<T: Float>(u: Un, x: T) -> T {
    match u {
        Un::Neg => -x,
        Un::Sin => x.sin(),
        Un::Cos => x.cos(),
        Un::Tan => x.tan(),
        Un::Abs => x.abs(),
        Un::Exp => x.exp(),
        Un::Ln => x.ln(),
        Un::Asin => x.asin(),
        Un::Acos => x.acos(),
        Un::Atan => x.atan(),
        Un::Sqrt => x.sqrt(),
        Un::Recip => x.recip(),
        Un::Exp2 => x.exp2(),
        Un::Log2 => x.log2(),
        Un::Log10 => x.log10(),
        Un::Cbrt => x.cbrt(),
        Un::SinCosS => x.sin_cos().0,
        Un::SinCosC => x.sin_cos().1,
        Un::Powi(n) => x.powi(n),
    }
}

macro_rules! plain {
    ($t:ty) => {
        impl Alg for $t {
            fn lift(k: f64) -> Self {
                k as $t
            }
            fn bin(b: Bin, x: Self, y: Self) -> Self {
                fbin(b, x, y)
            }
            fn un(u: Un, x: Self) -> Self {
                fun(u, x)
            }
            fn mul_add(x: Self, y: Self, z: Self) -> Self {
                x.mul_add(y, z)
            }
        }
    };
}
plain!(f64);
plain!(f32);

impl<S: Float> Alg for AFloat<S> {
    fn lift(k: f64) -> Self {
        <Self as NumCast>::from(k).unwrap()
    }
    fn bin(b: Bin, x: Self, y: Self) -> Self {
        fbin(b, x, y)
    }
    fn un(u: Un, x: Self) -> Self {
        fun(u, x)
    }
    fn bin_f(b: Bin, x: Self, y: f64) -> Self {
        match b {
            Add => x + y,
            Sub => x - y,
            Mul => x * y,
            Div => x / y,
            _ => unreachable!(),
        }
    }
    fn f_bin(b: Bin, x: f64, y: Self) -> Self {
        match b {
            Add => x + y,
            Sub => x - y,
            Mul => x * y,
            Div => x / y,
            _ => unreachable!(),
        }
    }
    fn asg(b: Bin, mut x: Self, y: Self) -> Self {
        match b {
            Add => x += y,
            Sub => x -= y,
            Mul => x *= y,
            Div => x /= y,
            _ => unreachable!(),
        }
        x
    }
    fn asg_f(b: Bin, mut x: Self, y: f64) -> Self {
        match b {
            Add => x += y,
            Sub => x -= y,
            Mul => x *= y,
            Div => x /= y,
            _ => unreachable!(),
        }
        x
    }
    fn mul_add(x: Self, y: Self, z: Self) -> Self {
        Float::mul_add(x, y, z)
    }
}

pub fn eval_node<T: Alg>(n: &Node, v: &[T]) -> T {
    match *n {
        Node::Un(u, x) => T::un(u, v[x]),
        Node::Bin(b, x, y) => T::bin(b, v[x], v[y]),
        Node::BinC(b, x, k) => T::bin(b, v[x], T::lift(k)),
        Node::CBin(b, k, x) => T::bin(b, T::lift(k), v[x]),
        Node::BinF(b, x, k) => T::bin_f(b, v[x], k),
        Node::FBin(b, k, x) => T::f_bin(b, k, v[x]),
        Node::Asg(b, x, y) => T::asg(b, v[x], v[y]),
        Node::AsgF(b, x, k) => T::asg_f(b, v[x], k),
        Node::MulAdd(x, y, z) => T::mul_add(v[x], v[y], v[z]),
        Node::Const(k) => T::lift(k),
    }
}

/// All values of a program: inputs first, then one per step
pub fn eval_all<T: Alg>(nodes: &[Node], inputs: &[T]) -> Vec<T> {
    let mut v = inputs.to_vec();
    for n in nodes {
        let r = eval_node(n, &v);
        v.push(r);
    }
    v
}

/// The steps possible after `nv` values. `wide` adds every form and constant.
pub fn alphabet(nv: usize, wide: u8) -> Vec<Node> {
    let mut r = vec![];
    let pairs: Vec<(usize, usize)> = (0..nv).flat_map(|x| (0..nv).map(move |y| (x, y))).collect();
    match wide {
        2 => {
            for x in 0..nv {
                for u in UNS {
                    r.push(Node::Un(u, x));
                }
                for n in [-3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 8] {
                    r.push(Node::Un(Un::Powi(n), x));
                }
            }
            for b in BINS {
                for &(x, y) in &pairs {
                    r.push(Node::Bin(b, x, y));
                }
                for x in 0..nv {
                    for k in [2.0, -1.5, 0.0, 1.0, 0.5, 3.0] {
                        r.push(Node::BinC(b, x, k));
                        r.push(Node::CBin(b, k, x));
                    }
                }
            }
            for b in ARITH {
                for &(x, y) in &pairs {
                    r.push(Node::Asg(b, x, y));
                }
                for x in 0..nv {
                    for k in [2.0, -1.5, 0.0, 1.0] {
                        r.push(Node::BinF(b, x, k));
                        r.push(Node::FBin(b, k, x));
                        r.push(Node::AsgF(b, x, k));
                    }
                }
            }
            for &(x, y) in &pairs {
                for z in 0..nv {
                    r.push(Node::MulAdd(x, y, z));
                }
            }
        }
        // piecewise linear, exact on small dyadic numbers
        3 => {
            for x in 0..nv {
                r.push(Node::Un(Un::Abs, x));
                r.push(Node::FBin(Sub, 1.0, x));
                r.push(Node::BinF(Mul, x, -0.5));
            }
            for &(x, y) in &pairs {
                if x <= y {
                    r.push(Node::Bin(Add, x, y));
                }
                if x != y {
                    r.push(Node::Bin(Sub, x, y));
                }
                if x < y {
                    r.push(Node::Bin(Max, x, y));
                    r.push(Node::Bin(Min, y, x));
                }
            }
        }
        // the same with every form of the operations
        4 => {
            for x in 0..nv {
                r.push(Node::Un(Un::Abs, x));
                r.push(Node::Un(Un::Neg, x));
                for k in [2.0, -0.5] {
                    r.push(Node::FBin(Sub, k, x));
                    r.push(Node::BinF(Add, x, k));
                    r.push(Node::BinF(Mul, x, k));
                    r.push(Node::FBin(Mul, k, x));
                    r.push(Node::BinF(Div, x, k));
                    r.push(Node::BinC(Max, x, k));
                    r.push(Node::CBin(Min, k, x));
                    r.push(Node::CBin(Sub, k, x));
                    r.push(Node::AsgF(Sub, x, k));
                }
                r.push(Node::BinC(AbsSub, x, 1.0));
                r.push(Node::CBin(AbsSub, 1.0, x));
            }
            for &(x, y) in &pairs {
                r.push(Node::Bin(Add, x, y));
                r.push(Node::Bin(Sub, x, y));
                r.push(Node::Asg(Sub, x, y));
                r.push(Node::Bin(Max, x, y));
                r.push(Node::Bin(Min, x, y));
                r.push(Node::Bin(AbsSub, x, y));
            }
        }
        1 => {
            for x in 0..nv {
                for u in UNS {
                    if !matches!(u, Un::SinCosS | Un::SinCosC) {
                        r.push(Node::Un(u, x));
                    }
                }
                for n in [-1, 0, 2, 3] {
                    r.push(Node::Un(Un::Powi(n), x));
                }
            }
            for b in BINS {
                for &(x, y) in &pairs {
                    r.push(Node::Bin(b, x, y));
                }
                for x in 0..nv {
                    r.push(Node::BinC(b, x, 2.0));
                    r.push(Node::CBin(b, 2.0, x));
                }
            }
            for b in ARITH {
                for x in 0..nv {
                    r.push(Node::BinF(b, x, -1.5));
                    r.push(Node::FBin(b, -1.5, x));
                    r.push(Node::AsgF(b, x, 2.0));
                }
                if nv >= 2 {
                    r.push(Node::Asg(b, nv - 1, 0));
                }
            }
            if nv >= 2 {
                r.push(Node::MulAdd(0, nv - 1, 1));
                r.push(Node::MulAdd(nv - 1, 0, nv - 1));
            }
        }
        _ => {
            for x in 0..nv {
                for u in [Un::Neg, Un::Sin, Un::Abs, Un::Exp, Un::Ln, Un::Atan, Un::Sqrt, Un::Cbrt, Un::Powi(2)] {
                    r.push(Node::Un(u, x));
                }
                r.push(Node::FBin(Sub, 2.0, x));
                r.push(Node::FBin(Div, 1.0, x));
                r.push(Node::BinF(Mul, x, -1.5));
            }
            for &(x, y) in &pairs {
                for b in [Sub, Mul, Div, Powf, Max] {
                    r.push(Node::Bin(b, x, y));
                }
            }
        }
    }
    r
}

pub fn show(nodes: &[Node], n: usize) -> String {
    let mut s = String::new();
    for (i, nd) in nodes.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(&format!("v{} = {:?}", n + i, nd));
    }
    s
}
