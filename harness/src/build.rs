//! Building library expressions from specification trees through the public API,
//! and reading library expressions back as specification trees.
use serde_json::{Value as J, json};
use std::collections::HashMap;
use std::sync::Arc;
use symb_anafis::visitor::ExprView;
use symb_anafis::{ArcExprExt, Context, Expr, Symbol, symb};

pub fn hex(x: f64) -> String {
    format!("0x{:016x}", x.to_bits())
}
pub fn lit(s: &str) -> f64 {
    if let Some(h) = s.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
    } else {
        s.parse::<f64>().unwrap()
    }
}

pub const MAX_VIEW: usize = 6000;

/// Read an expression as a specification tree (public `view`).
pub fn tree(e: &Expr) -> J {
    let mut budget = MAX_VIEW;
    tree_b(e, &mut budget)
}
fn tree_b(e: &Expr, b: &mut usize) -> J {
    if *b == 0 {
        return json!(["big"]);
    }
    *b -= 1;
    match e.view() {
        ExprView::Number(n) => json!(["n", hex(n)]),
        ExprView::Symbol(s) => json!(["s", s.as_ref()]),
        ExprView::Function { name, args } => {
            let a: Vec<J> = args.iter().map(|x| tree_b(x, b)).collect();
            json!(["f", name, a])
        }
        ExprView::Sum(t) => {
            let a: Vec<J> = t.iter().map(|x| tree_b(x, b)).collect();
            json!(["+", a])
        }
        ExprView::Product(t) => {
            let a: Vec<J> = t.iter().map(|x| tree_b(x, b)).collect();
            json!(["*", a])
        }
        ExprView::Div(l, r) => {
            let l = tree_b(l, b);
            let r = tree_b(r, b);
            json!(["/", l, r])
        }
        ExprView::Pow(l, r) => {
            let l = tree_b(l, b);
            let r = tree_b(r, b);
            json!(["^", l, r])
        }
        ExprView::Derivative { inner, var, order } => {
            let i = tree_b(inner, b);
            json!(["d", i, var, order])
        }
    }
}

macro_rules! methods1 {
    ($name:expr, $v:expr; $($m:ident),*) => {
        match $name { $(stringify!($m) => Some($v.$m()),)* _ => None }
    };
}
/// Named one-argument method, if the API has one.
pub fn method1(name: &str, v: &Expr) -> Option<Expr> {
    let v = v.clone();
    methods1!(name, v; sin, cos, tan, cot, sec, csc, asin, acos, atan, acot, asec, acsc, sinh, cosh, tanh, coth, sech,
        csch, asinh, acosh, atanh, acoth, asech, acsch, exp, ln, log10, log2, sqrt, cbrt, floor, ceil, round, abs,
        signum, sinc, erf, erfc, gamma, digamma, trigamma, tetragamma, zeta, lambertw, elliptic_k, elliptic_e, exp_polar)
}
pub fn method1_sym(name: &str, v: Symbol) -> Option<Expr> {
    methods1!(name, v; sin, cos, tan, cot, sec, csc, asin, acos, atan, acot, asec, acsc, sinh, cosh, tanh, coth, sech,
        csch, asinh, acosh, atanh, acoth, asech, acsch, exp, ln, log10, log2, sqrt, cbrt, floor, ceil, round, abs,
        signum, sinc, erf, erfc, gamma, digamma, trigamma, tetragamma, zeta, lambertw, elliptic_k, elliptic_e, exp_polar)
}
pub fn method1_arc(name: &str, v: &Arc<Expr>) -> Option<Expr> {
    methods1!(name, v; sin, cos, tan, cot, sec, csc, asin, acos, atan, acot, asec, acsc, sinh, cosh, tanh, coth, sech,
        csch, asinh, acosh, atanh, acoth, asech, acsch, exp, ln, log10, log2, sqrt, cbrt, floor, ceil, round, abs,
        signum, sinc, erf, erfc, gamma, digamma, trigamma, tetragamma, zeta, lambertw, elliptic_k, elliptic_e, exp_polar)
}
pub fn method_n(name: &str, a: &[Expr]) -> Option<Expr> {
    let c = |i: usize| a[i].clone();
    Some(match (name, a.len()) {
        ("log", 2) => c(1).log(c(0)),
        ("polygamma", 2) => c(1).polygamma(c(0)),
        ("beta", 2) => c(0).beta(c(1)),
        ("besselj", 2) => c(1).besselj(c(0)),
        ("bessely", 2) => c(1).bessely(c(0)),
        ("besseli", 2) => c(1).besseli(c(0)),
        ("besselk", 2) => c(1).besselk(c(0)),
        ("zeta_deriv", 2) => c(1).zeta_deriv(c(0)),
        ("hermite", 2) => c(1).hermite(c(0)),
        ("atan2", 2) => c(0).atan2(c(1)),
        ("assoc_legendre", 3) => c(2).assoc_legendre(c(0), c(1)),
        ("spherical_harmonic", 4) => c(2).spherical_harmonic(c(0), c(1), c(3)),
        ("ynm", 4) => c(2).ynm(c(0), c(1), c(3)),
        _ => return None,
    })
}
pub fn method_n_sym(name: &str, s: Symbol, a: &[Expr]) -> Option<Expr> {
    let c = |i: usize| a[i].clone();
    Some(match (name, a.len()) {
        ("log", 2) => s.log(c(0)),
        ("polygamma", 2) => s.polygamma(c(0)),
        ("beta", 2) => s.beta(c(1)),
        ("besselj", 2) => s.besselj(c(0)),
        ("bessely", 2) => s.bessely(c(0)),
        ("besseli", 2) => s.besseli(c(0)),
        ("besselk", 2) => s.besselk(c(0)),
        ("zeta_deriv", 2) => s.zeta_deriv(c(0)),
        ("hermite", 2) => s.hermite(c(0)),
        ("atan2", 2) => s.atan2(c(1)),
        ("assoc_legendre", 3) => s.assoc_legendre(c(0), c(1)),
        ("spherical_harmonic", 4) => s.spherical_harmonic(c(0), c(1), c(3)),
        ("ynm", 4) => s.ynm(c(0), c(1), c(3)),
        _ => return None,
    })
}
pub fn self_arg(name: &str) -> usize {
    match name {
        "beta" | "atan2" => 0,
        "assoc_legendre" | "spherical_harmonic" | "ynm" => 2,
        _ => 1,
    }
}

/// What an operand is, so that every typed operator overload can be exercised.
pub enum Opd {
    E(Expr),
    S(Symbol),
    F(f64),
}

macro_rules! all_ops {
    ($a:expr, $b:expr, $op:expr, $out:expr) => {
        match $op {
            "+" => $out.push(Box::new(move || $a + $b)),
            "-" => $out.push(Box::new(move || $a - $b)),
            "*" => $out.push(Box::new(move || $a * $b)),
            _ => $out.push(Box::new(move || $a / $b)),
        }
    };
}
type Thunk<'a> = Box<dyn FnOnce() -> Expr + 'a>;

/// All overloads of `op` that apply to these operands.
pub fn overloads<'a>(op: &'a str, a: &'a Opd, b: &'a Opd, ae: &'a Expr, be: &'a Expr) -> Vec<Thunk<'a>> {
    let mut v: Vec<Thunk<'a>> = Vec::new();
    all_ops!(ae.clone(), be.clone(), op, v);
    all_ops!(ae, be, op, v);
    all_ops!(ae.clone(), be, op, v);
    all_ops!(ae, be.clone(), op, v);
    all_ops!(ae.clone(), Arc::new(be.clone()), op, v);
    all_ops!(ae.clone(), &Arc::new(be.clone()), op, v);
    if let Opd::S(s) = a {
        all_ops!(*s, be.clone(), op, v);
        all_ops!(s, be.clone(), op, v);
        all_ops!(*s, be, op, v);
        match b {
            Opd::S(t) => {
                all_ops!(*s, *t, op, v);
                all_ops!(s, t, op, v);
                all_ops!(s, *t, op, v);
                all_ops!(*s, t, op, v);
            }
            Opd::F(n) => {
                let n = *n;
                all_ops!(*s, n, op, v);
                all_ops!(s, n, op, v);
                if n == n.trunc() && n.abs() < 1e9 {
                    let i = n as i32;
                    all_ops!(*s, i, op, v);
                    all_ops!(s, i, op, v);
                }
            }
            Opd::E(_) => {}
        }
    }
    match b {
        Opd::S(t) => {
            all_ops!(ae.clone(), *t, op, v);
            all_ops!(ae.clone(), t, op, v);
            all_ops!(ae, *t, op, v);
            all_ops!(ae, t, op, v);
        }
        Opd::F(n) => {
            let n = *n;
            all_ops!(ae.clone(), n, op, v);
            all_ops!(ae, n, op, v);
            if n == n.trunc() && n.abs() < 1e9 {
                let i = n as i32;
                all_ops!(ae.clone(), i, op, v);
                all_ops!(ae, i, op, v);
            }
        }
        Opd::E(_) => {}
    }
    if let Opd::F(n) = a {
        let n = *n;
        all_ops!(n, be.clone(), op, v);
        all_ops!(n, be, op, v);
        let int = n == n.trunc() && n.abs() < 1e9;
        let i = if int { n as i32 } else { 0 };
        if int {
            all_ops!(i, be.clone(), op, v);
            all_ops!(i, be, op, v);
        }
        if let Opd::S(t) = b {
            all_ops!(n, *t, op, v);
            all_ops!(n, t, op, v);
            if int {
                all_ops!(i, *t, op, v);
            }
        }
    }
    v
}

/// Style of construction.
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Ops,    // operators and methods on owned expressions
    Ctor,   // explicit constructors, n-ary where available
    Arc,    // *_from_arcs constructors
    Mix(u64), // typed overloads chosen by a counter
}

pub struct B<'a> {
    pub mode: Mode,
    pub args: &'a [Arc<Expr>],
    pub ctxs: &'a HashMap<String, Context>,
    pub regs: &'a HashMap<u64, Expr>,
    pub anon: &'a HashMap<i64, Symbol>,
    pub count: u64,
}

impl B<'_> {
    fn next(&mut self, n: usize) -> usize {
        self.count = self.count.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.count >> 33) as usize) % n
    }
    fn opd(&mut self, j: &J) -> Opd {
        match j[0].as_str().unwrap() {
            "n" => Opd::F(lit(j[1].as_str().unwrap())),
            "s" => Opd::S(symb(j[1].as_str().unwrap())),
            _ => Opd::E(self.build(j)),
        }
    }
    fn to_e(o: &Opd) -> Expr {
        match o {
            Opd::E(e) => e.clone(),
            Opd::S(s) => s.to_expr(),
            Opd::F(n) => Expr::number(*n),
        }
    }
    fn bin(&mut self, op: &str, l: &J, r: &J) -> Expr {
        let (a, b) = (self.opd(l), self.opd(r));
        let (ae, be) = (Self::to_e(&a), Self::to_e(&b));
        self.bin_o(op, a, b, ae, be)
    }
    fn bin_o(&mut self, op: &str, a: Opd, b: Opd, ae: Expr, be: Expr) -> Expr {
        match self.mode {
            Mode::Ops => match op {
                "+" => ae + be,
                "-" => ae - be,
                "*" => ae * be,
                _ => ae / be,
            },
            Mode::Ctor => match op {
                "+" => Expr::add_expr(ae, be),
                "-" => Expr::sub_expr(ae, be),
                "*" => Expr::mul_expr(ae, be),
                _ => Expr::div_expr(ae, be),
            },
            Mode::Arc => match op {
                "+" => Expr::sum_from_arcs(vec![Arc::new(ae), Arc::new(be)]),
                "-" => Expr::sub_expr(ae, be),
                "*" => Expr::product_from_arcs(vec![Arc::new(ae), Arc::new(be)]),
                _ => Expr::div_from_arcs(Arc::new(ae), Arc::new(be)),
            },
            Mode::Mix(_) => {
                let n = overloads(op, &a, &b, &ae, &be).len();
                let k = self.next(n);
                let mut v = overloads(op, &a, &b, &ae, &be);
                let t = v.swap_remove(k);
                drop(v);
                t()
            }
        }
    }
    fn fold(&mut self, op: &str, ks: &[J]) -> Expr {
        if ks.is_empty() {
            return if op == "+" { Expr::sum(vec![]) } else { Expr::product(vec![]) };
        }
        let mut acc = self.build(&ks[0]);
        for k in &ks[1..] {
            let b = self.opd(k);
            let be = Self::to_e(&b);
            let a = Opd::E(acc.clone());
            acc = self.bin_o(op, a, b, acc, be);
        }
        acc
    }
    pub fn build(&mut self, j: &J) -> Expr {
        let op = j[0].as_str().expect("op");
        match op {
            "n" => Expr::number(lit(j[1].as_str().unwrap())),
            "s" => match self.mode {
                Mode::Ctor => Expr::symbol(j[1].as_str().unwrap()),
                _ => symb(j[1].as_str().unwrap()).to_expr(),
            },
            "cs" => self.ctxs[j[1].as_str().unwrap()].symb(j[2].as_str().unwrap()).to_expr(),
            "an" => self.anon[&j[1].as_i64().unwrap()].to_expr(),
            "a" => Expr::from(&self.args[j[1].as_u64().unwrap() as usize]),
            "r" => self.regs[&j[1].as_u64().unwrap()].clone(),
            "+" | "*" => {
                let ks = j[1].as_array().unwrap().clone();
                match self.mode {
                    Mode::Ctor => {
                        let v: Vec<Expr> = ks.iter().map(|k| self.build(k)).collect();
                        if op == "+" { Expr::sum(v) } else { Expr::product(v) }
                    }
                    Mode::Arc => {
                        let v: Vec<Arc<Expr>> = ks.iter().map(|k| Arc::new(self.build(k))).collect();
                        if op == "+" { Expr::sum_from_arcs(v) } else { Expr::product_from_arcs(v) }
                    }
                    Mode::Ops => self.fold(op, &ks),
                    Mode::Mix(_) => {
                        if ks.len() == 2 {
                            return self.bin(op, &ks[0], &ks[1]);
                        }
                        if self.next(4) == 0 && op == "*" {
                            let v: Vec<Arc<Expr>> = ks.iter().map(|k| Arc::new(self.build(k))).collect();
                            return Expr::mul_from_arcs(v);
                        }
                        self.fold(op, &ks)
                    }
                }
            }
            "-" | "/" => self.bin(op, &j[1], &j[2]),
            "neg" => {
                let e = self.build(&j[1]);
                match self.mode {
                    Mode::Ctor => e.negate(),
                    Mode::Mix(_) => match self.next(4) {
                        0 => -e,
                        1 => -&e,
                        2 => e.negate(),
                        _ => {
                            if j[1][0] == "s" {
                                let s = symb(j[1][1].as_str().unwrap());
                                if self.next(2) == 0 { -s } else { -&s }
                            } else {
                                -e
                            }
                        }
                    },
                    _ => -e,
                }
            }
            "^" => {
                let a = self.opd(&j[1]);
                let b = self.opd(&j[2]);
                let (ae, be) = (Self::to_e(&a), Self::to_e(&b));
                match self.mode {
                    Mode::Ops => ae.pow(be),
                    Mode::Ctor => Expr::pow_static(ae, be),
                    Mode::Arc => Expr::pow_from_arcs(Arc::new(ae), Arc::new(be)),
                    Mode::Mix(_) => {
                        let k = self.next(4);
                        match (&a, &b, k) {
                            (Opd::S(s), Opd::F(n), 0) => s.pow(*n),
                            (Opd::S(s), Opd::S(t), 0) => s.pow(*t),
                            (Opd::S(s), _, 0) => s.pow(be),
                            (_, Opd::F(n), 1) if *n == n.trunc() => ae.pow(*n as i32),
                            (_, Opd::F(n), 1) => ae.pow(*n),
                            (_, _, 2) => ArcExprExt::pow(&Arc::new(ae), be),
                            _ => ae.pow(be),
                        }
                    }
                }
            }
            "f" => {
                let name = j[1].as_str().unwrap().to_owned();
                let ks = j[2].as_array().unwrap().clone();
                let v: Vec<Expr> = ks.iter().map(|k| self.build(k)).collect();
                let viamethod = match self.mode {
                    Mode::Ops => true,
                    Mode::Mix(_) => self.next(3) > 0,
                    _ => false,
                };
                if viamethod {
                    let var = if let Mode::Mix(_) = self.mode { self.next(3) } else { 0 };
                    if v.len() == 1 {
                        let r = if var == 1 && ks[0][0] == "s" {
                            method1_sym(&name, symb(ks[0][1].as_str().unwrap()))
                        } else if var == 2 {
                            method1_arc(&name, &Arc::new(v[0].clone()))
                        } else {
                            method1(&name, &v[0])
                        };
                        if let Some(e) = r {
                            return e;
                        }
                    } else {
                        let sa = self_arg(&name);
                        if var == 1 && sa < ks.len() && ks[sa][0] == "s" {
                            if let Some(e) = method_n_sym(&name, symb(ks[sa][1].as_str().unwrap()), &v) {
                                return e;
                            }
                        }
                        if let Some(e) = method_n(&name, &v) {
                            return e;
                        }
                    }
                }
                if self.mode == Mode::Arc {
                    Expr::func_multi_from_arcs(&name, v.into_iter().map(Arc::new).collect())
                } else if v.len() == 1 {
                    Expr::func(&name, v.into_iter().next().unwrap())
                } else {
                    Expr::func_multi(&name, v)
                }
            }
            "d" => {
                let i = self.build(&j[1]);
                Expr::derivative(i, j[2].as_str().unwrap(), j[3].as_u64().unwrap() as u32)
            }
            _ => panic!("harness: unknown node {op}"),
        }
    }
}
