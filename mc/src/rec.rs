//! Recording programs in the different ways the library offers
use crate::prog::*;
use advantage::{AContext, ADouble, AFloat, DVector, Function, Tape};
use num::Float;

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Style {
    /// Function::tape
    Func,
    /// inputs declared first with new_indep, outputs one by one
    Upfront,
    /// new_indep_vec / set_dep_slice, values set afterwards by set_indep
    Vectors,
    /// inputs declared just before their first use, outputs marked as soon as they exist
    Lazy,
}
pub const STYLES: [Style; 4] = [Style::Func, Style::Upfront, Style::Vectors, Style::Lazy];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Out {
    Val(usize),
    Konst(f64),
}

/// A program as a Function
#[derive(Clone, Debug)]
pub struct ProgFn {
    pub n: usize,
    pub nodes: Vec<Node>,
    pub outs: Vec<Out>,
}

impl Function for ProgFn {
    fn n(&self) -> usize {
        self.n
    }
    fn m(&self) -> usize {
        self.outs.len()
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        let v = eval_all(&self.nodes, x.as_slice());
        DVector::from_vec(
            self.outs
                .iter()
                .map(|o| match o {
                    Out::Val(i) => v[*i],
                    Out::Konst(k) => ADouble::new(*k, 0.0),
                })
                .collect(),
        )
    }
}

impl ProgFn {
    /// every value, an input twice, a constant and the last value again
    pub fn all(n: usize, nodes: Vec<Node>) -> ProgFn {
        let t = n + nodes.len();
        let mut outs: Vec<Out> = (n..t).map(Out::Val).collect();
        outs.push(Out::Val(0));
        outs.push(Out::Konst(7.5));
        outs.push(Out::Val(t - 1));
        ProgFn { n, nodes, outs }
    }
    pub fn out_of(&self, v: &[f64]) -> Vec<f64> {
        self.outs
            .iter()
            .map(|o| match o {
                Out::Val(i) => v[*i],
                Out::Konst(k) => *k,
            })
            .collect()
    }
}

pub struct Rec {
    pub tape: Box<dyn Tape>,
    /// program input of each tape input
    pub order: Vec<usize>,
    /// what each tape output is
    pub outs: Vec<Out>,
    /// values during recording
    pub vals: Vec<f64>,
}

pub fn record(f: &ProgFn, x: &[f64], style: Style) -> Rec {
    record_s::<f64>(f, x, style)
}

pub fn record_s<S: Float>(f: &ProgFn, x: &[f64], style: Style) -> Rec {
    let n = f.n;
    let g = |v: f64| S::from(v).unwrap();
    let back = |v: &[AFloat<S>]| v.iter().map(|a| a.value().to_f64().unwrap()).collect::<Vec<f64>>();
    match style {
        Style::Func => {
            let vals = back(&eval_all(&f.nodes, &x.iter().map(|v| AFloat::new(g(*v), S::zero())).collect::<Vec<_>>()));
            Rec { tape: f.tape(&DVector::from_vec(x.to_vec())), order: (0..n).collect(), outs: f.outs.clone(), vals }
        }
        Style::Upfront | Style::Vectors => {
            let mut c = AContext::new();
            let inp: Vec<AFloat<S>> = if style == Style::Upfront {
                x.iter().map(|v| c.new_indep(g(*v))).collect()
            } else if x.iter().all(|v| *v == x[0]) {
                c.new_indep_vec(n, g(x[0]))
            } else {
                let mut v: Vec<AFloat<S>> = x.iter().map(|v| AFloat::new(g(*v), S::zero())).collect();
                for a in v.iter_mut() {
                    c.set_indep(a);
                }
                v
            };
            let v = eval_all(&f.nodes, &inp);
            let outs: Vec<AFloat<S>> = f
                .outs
                .iter()
                .map(|o| match o {
                    Out::Val(i) => v[*i],
                    Out::Konst(k) => AFloat::new(g(*k), S::zero()),
                })
                .collect();
            if style == Style::Upfront {
                for o in &outs {
                    c.set_dep(o);
                }
            } else {
                c.set_dep_slice(&outs);
            }
            Rec { tape: Box::new(c.tape()), order: (0..n).collect(), outs: f.outs.clone(), vals: back(&v) }
        }
        Style::Lazy => {
            let mut c = AContext::new();
            let mut order = vec![];
            let mut outs = vec![];
            let mut v: Vec<AFloat<S>> = x.iter().map(|v| AFloat::new(g(*v), S::zero())).collect();
            for (k, nd) in f.nodes.iter().enumerate() {
                for a in nd.args() {
                    if a < n && !order.contains(&a) {
                        c.set_indep(&mut v[a]);
                        order.push(a);
                    }
                }
                let r = eval_node(nd, &v);
                v.push(r);
                for o in &f.outs {
                    if *o == Out::Val(n + k) {
                        c.set_dep(&v[n + k]);
                        outs.push(*o);
                    }
                }
            }
            for a in 0..n {
                if !order.contains(&a) {
                    c.set_indep(&mut v[a]);
                    order.push(a);
                }
            }
            for o in &f.outs {
                match *o {
                    Out::Val(i) if i < n => {
                        c.set_dep(&v[i]);
                        outs.push(*o);
                    }
                    Out::Konst(k) => {
                        c.set_dep(&AFloat::new(g(k), S::zero()));
                        outs.push(*o);
                    }
                    _ => {}
                }
            }
            let vals = back(&v);
            Rec { tape: Box::new(c.tape()), order, outs, vals }
        }
    }
}

impl Rec {
    pub fn arrange(&self, x: &[f64]) -> DVector<f64> {
        DVector::from_vec(self.order.iter().map(|i| x[*i]).collect())
    }
    pub fn want(&self, vals: &[f64]) -> Vec<f64> {
        self.outs
            .iter()
            .map(|o| match o {
                Out::Val(i) => vals[*i],
                Out::Konst(k) => *k,
            })
            .collect()
    }
}
