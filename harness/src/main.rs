//! Runs jobs written by the TLA+ generator specifications against the real
//! library and records what happened, one JSON line per job.
//! Nothing here decides whether a result is right.
mod build;
use build::{B, Mode, hex, lit, tree};
use serde_json::{Map, Value as J, json};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use symb_anafis::parallel::{EvalResult, ExprInput, Value, VarInput, evaluate_parallel};
use symb_anafis::visitor::{ExprVisitor, ExprView, NodeCounter, VariableCollector, walk_expr};
use symb_anafis::{
    CompiledEvaluator, Context, CovEntry, CovarianceMatrix, Diff, DiffError, Dual, Expr, Simplify, Symbol, SymbolError,
    UserFunction, clear_symbols, remove_symbol, symb, symb_get, symb_new, symbol_count, symbol_exists, symbol_names,
};

type R = Result<J, J>;

/// Every heap block sits between two guard zones that are checked when it is
/// freed or resized, so that a write outside of a buffer ends the process.
struct Guard;
const ZONE: usize = 64;
const FILL: u8 = 0xA5;
impl Guard {
    fn pad(l: &Layout) -> usize {
        l.align().max(ZONE)
    }
    unsafe fn check(p: *mut u8, l: &Layout) {
        unsafe {
            let pad = Self::pad(l);
            let bad = (0..ZONE).any(|i| *p.sub(pad).add(pad - ZONE + i) != FILL || *p.add(l.size() + i) != FILL);
            if bad {
                eprintln!("heap block of {} bytes overrun", l.size());
                std::process::abort();
            }
        }
    }
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            let pad = Self::pad(&l);
            let q = System.alloc(Layout::from_size_align_unchecked(l.size() + pad + ZONE, l.align()));
            if q.is_null() {
                return q;
            }
            let p = q.add(pad);
            std::ptr::write_bytes(p.sub(ZONE), FILL, ZONE);
            std::ptr::write_bytes(p.add(l.size()), FILL, ZONE);
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            Self::check(p, &l);
            let pad = Self::pad(&l);
            System.dealloc(p.sub(pad), Layout::from_size_align_unchecked(l.size() + pad + ZONE, l.align()));
        }
    }
}
#[global_allocator]
static GUARD: Guard = Guard;

fn errk(e: &DiffError) -> J {
    let d = format!("{e:?}");
    let k: String = d.chars().take_while(|c| c.is_alphanumeric()).collect();
    json!({"t": "err", "k": k, "m": format!("{e}")})
}
fn de<T>(r: Result<T, DiffError>) -> Result<T, J> {
    r.map_err(|e| errk(&e))
}
fn strs(j: &J) -> Vec<String> {
    j.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_owned()).collect()).unwrap_or_default()
}
fn st<'a>(j: &'a J, k: &str) -> &'a str {
    j[k].as_str().unwrap_or("")
}
fn nums(j: &J) -> Vec<f64> {
    j.as_array().map(|a| a.iter().map(|x| lit(x.as_str().unwrap())).collect()).unwrap_or_default()
}

static CLOCK: AtomicU64 = AtomicU64::new(1);
fn now() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}

#[derive(Default, Clone)]
struct St {
    regs: HashMap<u64, Expr>,
    ctxs: HashMap<String, Context>,
    evs: HashMap<String, Arc<CompiledEvaluator>>,
    anon: HashMap<i64, Symbol>,
    held: HashMap<String, Expr>,
    simd: Vec<wide::f64x4>,
    covs: HashMap<String, CovarianceMatrix>,
}

fn userfn(f: &J) -> Result<UserFunction, J> {
    let lo = f["ar"][0].as_u64().unwrap() as usize;
    let hi = f["ar"][1].as_u64().unwrap() as usize;
    let mut u = if hi >= 99 { UserFunction::any_arity() } else { UserFunction::new(lo..=hi) };
    if let Some(b) = f.get("body").filter(|b| b.is_array() && b[0] != "none") {
        let b = b.clone();
        u = u.body(move |args| ubuild(&b, args));
    }
    if let Some(ps) = f.get("parts").and_then(J::as_array) {
        for p in ps {
            let t = p[1].clone();
            u = de(u.partial(p[0].as_u64().unwrap() as usize, move |args| ubuild(&t, args)))?;
        }
    }
    Ok(u)
}
fn ubuild(t: &J, args: &[Arc<Expr>]) -> Expr {
    let (c, r, a) = (HashMap::new(), HashMap::new(), HashMap::new());
    let mut b = B { mode: Mode::Ops, args, ctxs: &c, regs: &r, anon: &a, count: 1 };
    b.build(t)
}

struct Rec(Vec<String>);
impl ExprVisitor for Rec {
    fn visit_number(&mut self, n: f64) -> bool {
        self.0.push(format!("n{}", hex(n)));
        true
    }
    fn visit_symbol(&mut self, n: &str) -> bool {
        self.0.push(format!("s{n}"));
        true
    }
    fn visit_function(&mut self, n: &str, a: &[Arc<Expr>]) -> bool {
        self.0.push(format!("f{n}/{}", a.len()));
        true
    }
    fn visit_binary(&mut self, op: &str, _: &Expr, _: &Expr) -> bool {
        self.0.push(op.to_owned());
        true
    }
    fn visit_sum(&mut self, t: &[Arc<Expr>]) -> bool {
        self.0.push(format!("+/{}", t.len()));
        true
    }
    fn visit_product(&mut self, t: &[Arc<Expr>]) -> bool {
        self.0.push(format!("*/{}", t.len()));
        true
    }
    fn visit_derivative(&mut self, _: &Expr, v: &str, k: u32) -> bool {
        self.0.push(format!("d{v}/{k}"));
        true
    }
}

fn sorted(h: HashSet<String>) -> Vec<String> {
    let mut v: Vec<String> = h.into_iter().collect();
    v.sort();
    v
}
/// Structural counts recomputed through the public view.
fn view_counts(e: &Expr, names: &mut HashSet<String>, budget: &mut u64) -> (u64, u64) {
    if *budget == 0 {
        return (0, 0);
    }
    *budget -= 1;
    let kids: Vec<Expr> = match e.view() {
        ExprView::Number(_) => vec![],
        ExprView::Symbol(s) => {
            names.insert(s.to_string());
            vec![]
        }
        ExprView::Function { args, .. } => args.iter().map(|a| (**a).clone()).collect(),
        ExprView::Sum(t) => t.iter().map(|a| (**a).clone()).collect(),
        ExprView::Product(t) => t.iter().map(|a| (**a).clone()).collect(),
        ExprView::Div(a, b) | ExprView::Pow(a, b) => vec![a.clone(), b.clone()],
        ExprView::Derivative { inner, var, .. } => {
            names.insert(var.to_owned());
            vec![inner.clone()]
        }
    };
    let (mut n, mut d) = (1, 0);
    for k in &kids {
        let (kn, kd) = view_counts(k, names, budget);
        n += kn;
        d = d.max(kd);
    }
    (n, d + 1)
}

impl St {
    fn builder<'a>(&'a self, mode: &str, seed: u64, args: &'a [Arc<Expr>]) -> B<'a> {
        let m = match mode {
            "ctor" => Mode::Ctor,
            "arc" => Mode::Arc,
            "mix" => Mode::Mix(seed),
            _ => Mode::Ops,
        };
        B { mode: m, args, ctxs: &self.ctxs, regs: &self.regs, anon: &self.anon, count: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) + 1 }
    }
    fn reg(&self, j: &J) -> Result<Expr, J> {
        self.regs.get(&j.as_u64().unwrap()).cloned().ok_or_else(|| json!({"t": "skip"}))
    }
    fn put(&mut self, c: &J, e: Expr) -> R {
        let out = if c.get("notree").is_some() { json!({"t": "e"}) } else { json!({"t": "e", "e": tree(&e)}) };
        if let Some(k) = c.get("to").and_then(J::as_u64) {
            self.regs.insert(k, e);
        }
        Ok(out)
    }
    fn cx(&self, c: &J) -> Option<Context> {
        c.get("cx").and_then(J::as_str).filter(|s| !s.is_empty()).map(|n| self.ctxs.get(n).cloned().unwrap_or_default())
    }
    fn diff_builder(&self, c: &J) -> Result<Diff, J> {
        let mut d = Diff::new();
        if let Some(x) = self.cx(c) {
            d = d.with_context(&x);
        }
        if c["safe"] == true {
            d = d.domain_safe(true);
        }
        if c["raw"] == true {
            d = d.skip_simplification(true);
        }
        if let Some(n) = c.get("maxd").and_then(J::as_u64) {
            d = d.max_depth(n as usize);
        }
        if let Some(n) = c.get("maxn").and_then(J::as_u64) {
            d = d.max_nodes(n as usize);
        }
        if let Some(fs) = c.get("fns").and_then(J::as_array) {
            for f in fs {
                d = d.user_fn(st(f, "n"), userfn(f)?);
            }
        }
        for v in strs(&c["fixed"]) {
            d = d.fixed_var(&v);
        }
        Ok(d)
    }
    fn simp_builder(&self, c: &J) -> Result<Simplify, J> {
        let mut d = Simplify::new();
        if let Some(x) = self.cx(c) {
            d = d.with_context(&x);
        }
        if c["safe"] == true {
            d = d.domain_safe(true);
        }
        if let Some(n) = c.get("maxd").and_then(J::as_u64) {
            d = d.max_depth(n as usize);
        }
        if let Some(n) = c.get("maxn").and_then(J::as_u64) {
            d = d.max_nodes(n as usize);
        }
        if let Some(fs) = c.get("fns").and_then(J::as_array) {
            for f in fs {
                d = d.user_fn(st(f, "n"), userfn(f)?);
            }
        }
        for v in strs(&c["fixed"]) {
            d = d.fixed_var(&v);
        }
        Ok(d)
    }
    fn sym(&self, j: &J) -> Symbol {
        if let Some(s) = j.as_str() {
            symb(s)
        } else if j[0] == "an" {
            self.anon[&j[1].as_i64().unwrap()]
        } else if j[0] == "cs" {
            self.ctxs[j[1].as_str().unwrap()].symb(j[2].as_str().unwrap())
        } else {
            symb(j[1].as_str().unwrap())
        }
    }

    fn run(&mut self, c: &J) -> R {
        match st(c, "c") {
            "build" => {
                let e = self.builder(st(c, "m"), c["seed"].as_u64().unwrap_or(1), &[]).build(&c["e"]);
                self.put(c, e)
            }
            "tree" => Ok(json!({"t": "e", "e": tree(&self.reg(&c["r"])?)})),
            "parse" => {
                let known: HashSet<String> = strs(&c["known"]).into_iter().collect();
                let fns: HashSet<String> = strs(&c["fns"]).into_iter().collect();
                let x = self.cx(c);
                let e = de(symb_anafis::parse(st(c, "s"), &known, &fns, x.as_ref()))?;
                self.put(c, e)
            }
            "show" => {
                let e = self.reg(&c["r"])?;
                Ok(json!({"t": "show", "d": e.to_string(), "l": e.to_latex(), "u": e.to_unicode()}))
            }
            // display, then parse the text again (round trip)
            "reparse" => {
                let e = self.reg(&c["r"])?;
                let known: HashSet<String> = strs(&c["known"]).into_iter().collect();
                let fns: HashSet<String> = strs(&c["fns"]).into_iter().collect();
                let s = e.to_string();
                match symb_anafis::parse(&s, &known, &fns, self.cx(c).as_ref()) {
                    Ok(p) => {
                        let mut o = self.put(c, p)?;
                        o["s"] = json!(s);
                        Ok(o)
                    }
                    Err(er) => {
                        let mut o = errk(&er);
                        o["s"] = json!(s);
                        Ok(o)
                    }
                }
            }
            "q" => {
                let e = self.reg(&c["r"])?;
                let mut nc = NodeCounter::default();
                walk_expr(&e, &mut nc);
                let mut vc = VariableCollector::default();
                walk_expr(&e, &mut vc);
                let mut rec = Rec(vec![]);
                walk_expr(&e, &mut rec);
                let fold = e.fold(0_u64, |a, _| a + 1);
                let cl = e.deep_clone();
                let mp = e.map(Expr::clone);
                let mut names = HashSet::new();
                let mut budget = 20000;
                let (vn, vd) = view_counts(&e, &mut names, &mut budget);
                let mut cont = Map::new();
                for v in strs(&c["vars"]) {
                    cont.insert(v.clone(), json!(e.contains_var(&v)));
                }
                let ex: HashSet<String> = strs(&c["excl"]).into_iter().collect();
                Ok(json!({"t": "q", "nodes": e.node_count(), "depth": e.max_depth(), "vars": sorted(e.variables()),
                    "vcount": nc.count, "walk": rec.0, "vvars": sorted(vc.variable_names()), "fold": fold, "viewn": vn, "viewd": vd,
                    "viewvars": sorted(names), "cont": cont, "free": e.has_free_variables(&ex),
                    "cleq": cl == e, "clhash": cl.structural_hash() == e.structural_hash(), "clsame": tree(&cl) == tree(&e),
                    "mapsame": tree(&mp)}))
            }
            "visit" => {
                let e = self.reg(&c["r"])?;
                let mut r = Rec(vec![]);
                walk_expr(&e, &mut r);
                Ok(json!({"t": "visit", "v": r.0}))
            }
            "eq" => {
                let (a, b) = (self.reg(&c["a"])?, self.reg(&c["b"])?);
                use std::hash::{BuildHasher, RandomState};
                let s = RandomState::new();
                Ok(json!({"t": "eq", "eq": a == b, "qe": b == a, "h": a.structural_hash() == b.structural_hash(),
                    "hh": s.hash_one(&a) == s.hash_one(&b), "aa": a == a.clone(), "bb": b == b.deep_clone()}))
            }
            "diff" => {
                let e = self.reg(&c["r"])?;
                let r = if c["via"] == "method" {
                    e.diff(st(c, "x"))
                } else {
                    let d = self.diff_builder(c)?;
                    d.differentiate(&e, &self.sym(c.get("xt").unwrap_or(&c["x"])))
                };
                let e = de(r)?;
                self.put(c, e)
            }
            "diffstr" => {
                let k = strs(&c["known"]);
                let kr: Vec<&str> = k.iter().map(String::as_str).collect();
                let s = if c["via"] == "free" {
                    let f = strs(&c["ufns"]);
                    let fr: Vec<&str> = f.iter().map(String::as_str).collect();
                    symb_anafis::diff(st(c, "s"), st(c, "x"), &kr, if fr.is_empty() { None } else { Some(&fr) })
                } else {
                    self.diff_builder(c)?.diff_str(st(c, "s"), st(c, "x"), &kr)
                };
                Ok(json!({"t": "s", "s": de(s)?}))
            }
            "simp" => {
                let e = self.reg(&c["r"])?;
                let r = if c["via"] == "method" { e.simplified() } else { self.simp_builder(c)?.simplify(&e) };
                let e = de(r)?;
                self.put(c, e)
            }
            "simpstr" => {
                let k = strs(&c["known"]);
                let kr: Vec<&str> = k.iter().map(String::as_str).collect();
                let s = if c["via"] == "free" {
                    let f = strs(&c["ufns"]);
                    let fr: Vec<&str> = f.iter().map(String::as_str).collect();
                    symb_anafis::simplify(st(c, "s"), &kr, if fr.is_empty() { None } else { Some(&fr) })
                } else {
                    self.simp_builder(c)?.simplify_str(st(c, "s"), &kr)
                };
                Ok(json!({"t": "s", "s": de(s)?}))
            }
            "subst" => {
                let e = self.reg(&c["r"])?.substitute(st(c, "x"), &self.reg(&c["by"])?);
                self.put(c, e)
            }
            "eval" => {
                let e = self.reg(&c["r"])?;
                let o = c["env"].as_object().cloned().unwrap_or_default();
                let m: HashMap<&str, f64> = o.iter().map(|(k, v)| (k.as_str(), lit(v.as_str().unwrap()))).collect();
                let mut cu: HashMap<String, Arc<dyn Fn(&[f64]) -> Option<f64> + Send + Sync>> = HashMap::new();
                if let Some(fs) = c.get("fns").and_then(J::as_array) {
                    for f in fs {
                        let b = f["body"].clone();
                        cu.insert(st(f, "n").to_owned(), Arc::new(move |xs: &[f64]| plain(&b, xs)));
                    }
                }
                let e = if c["via"] == "id" {
                    let m2: HashMap<u64, f64> = m.iter().map(|(k, v)| (symb(k).id(), *v)).collect();
                    e.evaluate(&m2, &cu)
                } else {
                    e.evaluate(&m, &cu)
                };
                self.put(c, e)
            }
            "evalstr" => {
                let o = c["env"].as_object().cloned().unwrap_or_default();
                let m: Vec<(&str, f64)> = o.iter().map(|(k, v)| (k.as_str(), lit(v.as_str().unwrap()))).collect();
                Ok(json!({"t": "s", "s": de(symb_anafis::evaluate_str(st(c, "s"), &m))?}))
            }
            // many points of the tree evaluator at once
            "evalpts" => {
                let e = self.reg(&c["r"])?;
                let ps = strs(&c["params"]);
                let cu = HashMap::new();
                let mut out = vec![];
                for p in c["pts"].as_array().unwrap() {
                    let v = nums(p);
                    let m: HashMap<&str, f64> = ps.iter().map(String::as_str).zip(v).collect();
                    let r = e.evaluate(&m, &cu);
                    out.push(r.as_number().map_or_else(|| "sym".to_owned(), hex));
                }
                Ok(json!({"t": "v", "v": out}))
            }
            "both" => {
                let e = self.reg(&c["r"])?;
                let ps = strs(&c["params"]);
                let pr: Vec<&str> = ps.iter().map(String::as_str).collect();
                let ev = de(CompiledEvaluator::compile(&e, &pr, None))?;
                let cu = HashMap::new();
                let (mut a, mut b) = (vec![], vec![]);
                for p in c["pts"].as_array().unwrap() {
                    let v = nums(p);
                    a.push(hex(ev.evaluate(&v)));
                    let m: HashMap<&str, f64> = pr.iter().copied().zip(v).collect();
                    b.push(e.evaluate(&m, &cu).as_number().map_or_else(|| "sym".to_owned(), hex));
                }
                Ok(json!({"t": "both", "comp": a, "interp": b}))
            }
            "comp" => {
                let e = self.reg(&c["r"])?;
                let x = self.cx(c);
                let ev = if c["auto"] == true {
                    if x.is_none() && c["via"] == "method" { e.compile() } else { CompiledEvaluator::compile_auto(&e, x.as_ref()) }
                } else if c["via"] == "sym" {
                    let ps: Vec<Symbol> = c["params"].as_array().unwrap().iter().map(|p| self.sym(p)).collect();
                    CompiledEvaluator::compile(&e, &ps, x.as_ref())
                } else if c["via"] == "method" {
                    e.compile_with_params(&strs(&c["params"]))
                } else {
                    CompiledEvaluator::compile(&e, &strs(&c["params"]), x.as_ref())
                };
                let ev = de(ev)?;
                let o = json!({"t": "ev", "params": ev.param_names(), "n": ev.param_count(),
                    "ins": ev.instruction_count(), "stack": ev.stack_size()});
                self.evs.insert(st(c, "ev").to_owned(), Arc::new(ev));
                Ok(o)
            }
            "cev" => {
                let ev = self.ev(c)?;
                let v: Vec<String> = c["pts"].as_array().unwrap().iter().map(|p| hex(ev.evaluate(&nums(p)))).collect();
                Ok(json!({"t": "v", "v": v}))
            }
            "batch" => {
                let ev = self.ev(c)?;
                let cols = columns(c);
                let cr: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
                let n = c["n"].as_u64().unwrap() as usize;
                let mut out = vec![-777.25_f64; n];
                let r = match st(c, "buf") {
                    "shared" => {
                        let mut b = std::mem::take(&mut self.simd);
                        let r = ev.eval_batch(&cr, &mut out, Some(&mut b));
                        self.simd = b;
                        r
                    }
                    "fresh" => ev.eval_batch(&cr, &mut out, Some(&mut Vec::new())),
                    _ => ev.eval_batch(&cr, &mut out, None),
                };
                de(r)?;
                Ok(json!({"t": "v", "v": out.iter().map(|x| hex(*x)).collect::<Vec<_>>()}))
            }
            "pbatch" => {
                let ev = self.ev(c)?;
                let cols = columns(c);
                let cr: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
                let out = de(ev.eval_batch_parallel(&cr))?;
                Ok(json!({"t": "v", "v": out.iter().map(|x| hex(*x)).collect::<Vec<_>>()}))
            }
            "evalf64" => {
                let es: Vec<Expr> = c["rs"].as_array().unwrap().iter().map(|r| self.reg(r)).collect::<Result<_, _>>()?;
                let er: Vec<&Expr> = es.iter().collect();
                let vn: Vec<Vec<String>> = c["vars"].as_array().unwrap().iter().map(strs).collect();
                let vr: Vec<&[String]> = vn.iter().map(Vec::as_slice).collect();
                let dt: Vec<Vec<Vec<f64>>> = c["data"].as_array().unwrap().iter().map(|d| d.as_array().unwrap().iter().map(nums).collect()).collect();
                let d2: Vec<Vec<&[f64]>> = dt.iter().map(|d| d.iter().map(Vec::as_slice).collect()).collect();
                let d3: Vec<&[&[f64]]> = d2.iter().map(Vec::as_slice).collect();
                let out = de(symb_anafis::eval_f64(&er, &vr, &d3))?;
                let o: Vec<Vec<String>> = out.iter().map(|r| r.iter().map(|x| hex(*x)).collect()).collect();
                Ok(json!({"t": "vv", "v": o}))
            }
            // one evaluator at many points through every entry point
            "allways" => {
                let ev = self.ev(c)?;
                let cols = columns(c);
                let cr: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
                let n = c["n"].as_u64().unwrap() as usize;
                let m = if c["cyc"] == true { nums(&c["cols"][0]).len().max(1).min(n) } else { n };
                let scalar: Vec<String> = (0..m).map(|i| hex(ev.evaluate(&cols.iter().map(|c| c[i]).collect::<Vec<_>>()))).collect();
                let mut b = vec![-777.25; n];
                let batch = ev.eval_batch(&cr, &mut b, None).map(|()| hexes(&b)).map_err(|e| errk(&e));
                let mut b2 = vec![-777.25; n];
                let mut sb = std::mem::take(&mut self.simd);
                let shared = ev.eval_batch(&cr, &mut b2, Some(&mut sb)).map(|()| hexes(&b2)).map_err(|e| errk(&e));
                self.simd = sb;
                let par = ev.eval_batch_parallel(&cr).map(|v| hexes(&v)).map_err(|e| errk(&e));
                let f = |r: Result<Vec<String>, J>| match r { Ok(v) => json!({"t": "v", "v": v}), Err(e) => e };
                Ok(json!({"t": "all", "scalar": {"t": "v", "v": scalar}, "batch": f(batch), "shared": f(shared), "par": f(par)}))
            }
            "evp" => {
                let mut ex = vec![];
                for e in c["exprs"].as_array().unwrap() {
                    ex.push(if e[0] == "str" { ExprInput::from(e[1].as_str().unwrap()) } else { ExprInput::from(self.reg(&e[1])?) });
                }
                let vars: Vec<Vec<VarInput>> = c["vars"].as_array().unwrap().iter().map(|vs| {
                    vs.as_array().unwrap().iter().map(|v| match v.as_str() { Some(s) if c["via"] != "sym" => VarInput::from(s), _ => VarInput::from(&self.sym(v)) }).collect()
                }).collect();
                let mut vals = vec![];
                for e in c["vals"].as_array().unwrap() {
                    let mut row = vec![];
                    for col in e.as_array().unwrap() {
                        let mut cc = vec![];
                        for v in col.as_array().unwrap() {
                            cc.push(match v[0].as_str().unwrap() {
                                "n" => Value::Num(lit(v[1].as_str().unwrap())),
                                "skip" => Value::Skip,
                                "r" => Value::Expr(self.reg(&v[1])?),
                                _ => Value::Expr(self.builder("ops", 1, &[]).build(v)),
                            });
                        }
                        row.push(cc);
                    }
                    vals.push(row);
                }
                let out = de(evaluate_parallel(ex, vars, vals))?;
                let o: Vec<Vec<J>> = out.iter().map(|r| r.iter().map(|x| match x {
                    EvalResult::Expr(e) => json!({"k": "e", "e": tree(e)}),
                    EvalResult::String(s) => json!({"k": "s", "s": s}),
                }).collect()).collect();
                Ok(json!({"t": "evp", "v": o}))
            }
            "grad" | "hess" | "jac" => {
                let es: Vec<Expr> = c["rs"].as_array().unwrap().iter().map(|r| self.reg(r)).collect::<Result<_, _>>()?;
                let sy: Vec<Symbol> = c["vars"].as_array().unwrap().iter().map(|v| self.sym(v)).collect();
                let sr: Vec<&Symbol> = sy.iter().collect();
                let o: Vec<Vec<Expr>> = match st(c, "c") {
                    "grad" => vec![de(symb_anafis::gradient(&es[0], &sr))?],
                    "hess" => de(symb_anafis::hessian(&es[0], &sr))?,
                    _ => de(symb_anafis::jacobian(&es, &sr))?,
                };
                Ok(json!({"t": "m", "m": o.iter().map(|r| r.iter().map(tree).collect::<Vec<_>>()).collect::<Vec<_>>()}))
            }
            "gradstr" | "hessstr" | "jacstr" => {
                let fs = strs(&c["ss"]);
                let fr: Vec<&str> = fs.iter().map(String::as_str).collect();
                let vs = strs(&c["vars"]);
                let vr: Vec<&str> = vs.iter().map(String::as_str).collect();
                let o: Vec<Vec<String>> = match st(c, "c") {
                    "gradstr" => vec![de(symb_anafis::gradient_str(fr[0], &vr))?],
                    "hessstr" => de(symb_anafis::hessian_str(fr[0], &vr))?,
                    _ => de(symb_anafis::jacobian_str(&fr, &vr))?,
                };
                Ok(json!({"t": "ms", "m": o}))
            }
            "cov" => {
                let ent = |v: &J| -> CovEntry {
                    if v[0] == "n" { CovEntry::Num(lit(v[1].as_str().unwrap())) } else { CovEntry::Symbolic(self.builder("ops", 1, &[]).build(v)) }
                };
                let m = match st(c, "k") {
                    "diag" => CovarianceMatrix::diagonal(c["m"].as_array().unwrap().iter().map(ent).collect()),
                    "sym" => {
                        let v = strs(&c["m"]);
                        let r: Vec<&str> = v.iter().map(String::as_str).collect();
                        CovarianceMatrix::diagonal_symbolic(&r)
                    }
                    _ => de(CovarianceMatrix::new(c["m"].as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(ent).collect()).collect()))?,
                };
                let n = m.dim();
                let rows: Vec<Vec<J>> = (0..n).map(|i| (0..n).map(|k| tree(&m.get(i, k).unwrap().to_expr())).collect()).collect();
                let oob = m.get(n, 0).is_none() && m.get(0, n).is_none();
                self.covs.insert(st(c, "cov").to_owned(), m);
                Ok(json!({"t": "cov", "n": n, "m": rows, "oob": oob}))
            }
            "unc" | "rel" => {
                let e = self.reg(&c["r"])?;
                let v = strs(&c["vars"]);
                let vr: Vec<&str> = v.iter().map(String::as_str).collect();
                let m = match c.get("cov").and_then(J::as_str).filter(|s| !s.is_empty()) {
                    None => None,
                    Some(n) => Some(self.covs.get(n).ok_or_else(|| json!({"t": "skip"}))?.clone()),
                };
                let r = if st(c, "c") == "unc" {
                    symb_anafis::uncertainty_propagation(&e, &vr, m.as_ref())
                } else {
                    symb_anafis::relative_uncertainty(&e, &vr, m.as_ref())
                };
                let e = de(r)?;
                self.put(c, e)
            }
            "dual" => {
                let o = c["env"].as_object().cloned().unwrap_or_default();
                let m: BTreeMap<String, f64> = o.iter().map(|(k, v)| (k.clone(), lit(v.as_str().unwrap()))).collect();
                match dual(&c["e"], st(c, "x"), &m) {
                    Some(d) => Ok(json!({"t": "dual", "v": hex(d.val), "d": hex(d.eps)})),
                    None => Ok(json!({"t": "dnone"})),
                }
            }
            "dual2" => {
                let o = c["env"].as_object().cloned().unwrap_or_default();
                let m: BTreeMap<String, f64> = o.iter().map(|(k, v)| (k.clone(), lit(v.as_str().unwrap()))).collect();
                match dual2(&c["e"], st(c, "x"), &m) {
                    Some(d) => Ok(json!({"t": "dual2", "v": hex(d.val.val), "d": hex(d.val.eps), "d1": hex(d.eps.val), "dd": hex(d.eps.eps)})),
                    None => Ok(json!({"t": "dnone"})),
                }
            }
            "rg" => self.registry(c),
            "cx" => self.context(c),
            "anon" => {
                let s = Symbol::anon();
                self.anon.insert(c["k"].as_i64().unwrap(), s);
                Ok(json!({"t": "sym", "id": s.id().to_string(), "name": s.name().unwrap_or_else(|| "<anon>".into())}))
            }
            "par" => {
                let ts = c["threads"].as_array().unwrap().clone();
                if c["step"] == true {
                    return Ok(self.storm(&ts));
                }
                let bar = Arc::new(Barrier::new(ts.len()));
                let log = Arc::new(Mutex::new(Vec::new()));
                let hs: Vec<_> = ts.into_iter().enumerate().map(|(ti, cmds)| {
                    let mut s = self.clone();
                    let (bar, log) = (bar.clone(), log.clone());
                    std::thread::Builder::new().stack_size(32 << 20).spawn(move || {
                        bar.wait();
                        for (i, c) in cmds.as_array().unwrap().iter().enumerate() {
                            let a = now();
                            let o = guarded(&mut s, c);
                            let b = now();
                            log.lock().unwrap().push((a, b, ti, i, o));
                        }
                    }).unwrap()
                }).collect();
                for h in hs {
                    let _ = h.join();
                }
                let mut l = std::mem::take(&mut *log.lock().unwrap());
                l.sort_by_key(|x| x.0);
                // ranks instead of raw clock values
                let mut all: Vec<u64> = l.iter().flat_map(|x| [x.0, x.1]).collect();
                all.sort_unstable();
                let rank = |v: u64| all.binary_search(&v).unwrap() + 1;
                let ev: Vec<J> = l.iter().map(|x| json!({"a": rank(x.0), "b": rank(x.1), "th": x.2 + 1, "i": x.3 + 1, "o": x.4})).collect();
                Ok(json!({"t": "par", "ev": ev}))
            }
            // run on a fresh OS thread (own thread-local caches)
            "thr" => {
                let mut s = self.clone();
                let cmds = c["cmds"].clone();
                let (s, o) = std::thread::Builder::new().stack_size(32 << 20).spawn(move || {
                    let o: Vec<J> = cmds.as_array().unwrap().iter().map(|c| guarded(&mut s, c)).collect();
                    (s, o)
                }).unwrap().join().unwrap();
                *self = s;
                Ok(json!({"t": "thr", "o": o}))
            }
            o => panic!("harness: unknown command {o}"),
        }
    }
    /// Registry and context calls of all threads in lock step: call i of every thread starts at
    /// (nearly) the same moment.
    fn storm(&self, ts: &[J]) -> J {
        let n = ts.len();
        let gate = Arc::new(AtomicU64::new(0));
        let log = Arc::new(Mutex::new(Vec::new()));
        let hs: Vec<_> = ts.iter().enumerate().map(|(ti, cmds)| {
            let (gate, log) = (gate.clone(), log.clone());
            let cmds = cmds.as_array().unwrap().clone();
            let ctxs = self.ctxs.clone();
            std::thread::spawn(move || {
                let mut mine = Vec::new();
                for (i, c) in cmds.iter().enumerate() {
                    let name = st(c, "n").to_owned();
                    let cx = ctxs.get(st(c, "cx"));
                    let id = |s: Symbol| (s.id().to_string(), s);
                    let mut f: Box<dyn FnMut() -> (J, Option<(String, Symbol)>)> = match (cx, st(c, "op")) {
                        (None, "symb") => Box::new(|| (J::Null, Some(id(symb(&name))))),
                        (None, "symb_new") => Box::new(|| match symb_new(&name) { Ok(s) => (J::Null, Some(id(s))), Err(_) => (json!({"t": "err", "k": "DuplicateName"}), None) }),
                        (None, "symb_get") => Box::new(|| match symb_get(&name) { Ok(s) => (J::Null, Some(id(s))), Err(_) => (json!({"t": "err", "k": "NotFound"}), None) }),
                        (None, "exists") => Box::new(|| (json!({"t": "b", "b": symbol_exists(&name)}), None)),
                        (None, "remove") => Box::new(|| (json!({"t": "b", "b": remove_symbol(&name)}), None)),
                        (None, "count") => Box::new(|| (json!({"t": "i", "i": symbol_count()}), None)),
                        (None, "names") => Box::new(|| (json!({"t": "names", "v": symbol_names()}), None)),
                        (Some(x), "symb") => Box::new(|| (J::Null, Some(id(x.symb(&name))))),
                        (Some(x), "get") => Box::new(|| match x.get_symbol(&name) { Some(s) => (J::Null, Some(id(s))), None => (json!({"t": "none"}), None) }),
                        (Some(x), "contains") => Box::new(|| (json!({"t": "b", "b": x.contains_symbol(&name)}), None)),
                        (Some(x), "names") => Box::new(|| (json!({"t": "names", "v": x.symbol_names()}), None)),
                        (Some(x), "count") => Box::new(|| (json!({"t": "i", "i": x.symbol_count()}), None)),
                        (_, o) => panic!("harness: storm op {o}"),
                    };
                    gate.fetch_add(1, Ordering::SeqCst);
                    let mut spins = 0_u32;
                    while gate.load(Ordering::SeqCst) < ((i + 1) * n) as u64 {
                        spins += 1;
                        if spins > 2000 {
                            std::thread::yield_now();
                        }
                        std::hint::spin_loop();
                    }
                    let a = now();
                    let r = catch_unwind(AssertUnwindSafe(|| f()));
                    let b = now();
                    mine.push((a, b, ti, i, r));
                }
                log.lock().unwrap().extend(mine);
            })
        }).collect();
        for h in hs {
            let _ = h.join();
        }
        let mut l = std::mem::take(&mut *log.lock().unwrap());
        l.sort_by_key(|x| x.0);
        let mut all: Vec<u64> = l.iter().flat_map(|x| [x.0, x.1]).collect();
        all.sort_unstable();
        let rank = |v: u64| all.binary_search(&v).unwrap() + 1;
        let ev: Vec<J> = l.into_iter().map(|(a, b, ti, i, r)| {
            let o = match r {
                Ok((_, Some((id, _)))) => json!({"t": "sym", "id": id, "name": st(&ts[ti][i], "n")}),
                Ok((o, None)) => o,
                Err(_) => json!({"t": "panic", "m": "in storm"}),
            };
            json!({"a": rank(a), "b": rank(b), "th": ti + 1, "i": i + 1, "o": o})
        }).collect();
        json!({"t": "par", "ev": ev})
    }
    fn ev(&self, c: &J) -> Result<Arc<CompiledEvaluator>, J> {
        self.evs.get(st(c, "ev")).cloned().ok_or_else(|| json!({"t": "skip"}))
    }
    fn registry(&mut self, c: &J) -> R {
        let n = st(c, "n");
        let sy = |s: Symbol| json!({"t": "sym", "id": s.id().to_string(), "name": s.name().unwrap_or_else(|| "<anon>".into())});
        let se = |e: SymbolError| { let d = format!("{e:?}"); json!({"t": "err", "k": d.chars().take_while(|c| c.is_alphanumeric()).collect::<String>()}) };
        Ok(match st(c, "op") {
            "symb" => sy(symb(n)),
            "symb_new" => match symb_new(n) { Ok(s) => sy(s), Err(e) => se(e) },
            "symb_get" => match symb_get(n) { Ok(s) => sy(s), Err(e) => se(e) },
            "exists" => json!({"t": "b", "b": symbol_exists(n)}),
            "remove" => json!({"t": "b", "b": remove_symbol(n)}),
            "clear" => { clear_symbols(); json!({"t": "u"}) }
            "count" => json!({"t": "i", "i": symbol_count()}),
            "names" => { let mut v = symbol_names(); v.sort(); json!({"t": "names", "v": v}) }
            // symbol through an expression and its printed form
            "expr" => { let e = Expr::symbol(n); json!({"t": "xs", "s": e.to_string(), "v": sorted(e.variables()), "id": symb_get(n).map_or_else(|_| String::new(), |s| s.id().to_string())}) }
            // is the symbol still usable after other operations
            "keepsym" => { let s = symb(n); self.anon.insert(c["k"].as_i64().unwrap(), s); sy(s) }
            "usesym" => {
                let s = self.anon[&c["k"].as_i64().unwrap()];
                let e = s.to_expr() + 1.0;
                json!({"t": "sym", "id": s.id().to_string(), "name": s.name().unwrap_or_else(|| "<anon>".into()), "s": e.to_string()})
            }
            o => panic!("harness: registry op {o}"),
        })
    }
    /// What a call of a context's function means where the context is supplied
    fn use_fn(&mut self, x: &Context, n: &str) -> J {
        let parse = |s: &str| symb_anafis::parse(s, &HashSet::new(), &HashSet::new(), Some(x));
        let val = |e: &Expr| match CompiledEvaluator::compile::<&str>(e, &[], Some(x)) {
            Ok(ev) => format!("{}", ev.evaluate(&[])),
            Err(_) => "none".into(),
        };
        let Ok(e) = parse(&format!("{n}(2)")) else { return json!({"t": "none"}) };
        if x.has_function(n) {
            self.held.entry(n.to_owned()).or_insert_with(|| e.clone());
        }
        let num = |r: Result<Expr, DiffError>| r.map_or("none".into(), |e| if e.as_number().is_some() { e.to_string() } else { "none".to_owned() });
        let par = parse(&format!("{n}(qx)")).map(|e| match CompiledEvaluator::compile(&e, &["qx"], Some(x)) {
            Ok(ev) => format!("{}", ev.evaluate(&[2.0])),
            Err(_) => "none".into(),
        });
        let held = self.held.get(n).cloned();
        let simp = || match x.get_user_fn(n) {
            Some(f) => Simplify::new().user_fn(n, f.clone()),
            None => Simplify::new().with_context(x),
        };
        json!({"t": "use", "v": val(&e), "p": par.unwrap_or("none".into()),
            "s": num(simp().simplify(&e)),
            "d": num(Diff::new().with_context(x).diff_str(&format!("{n}(qx)"), "qx", &[]).and_then(|s| symb_anafis::parse(&s, &HashSet::new(), &HashSet::new(), None))),
            "hv": held.as_ref().map_or("none".into(), val),
            "hs": held.as_ref().map_or("none".into(), |e| num(simp().simplify(e))),
            "h": held.is_some()})
    }
    fn context(&mut self, c: &J) -> R {
        let k = st(c, "cx").to_owned();
        let n = st(c, "n");
        let sy = |s: Symbol| json!({"t": "sym", "id": s.id().to_string(), "name": s.name().unwrap_or_else(|| "<anon>".into())});
        if st(c, "op") == "new" {
            self.ctxs.insert(k, Context::new());
            return Ok(json!({"t": "u"}));
        }
        if st(c, "op") == "clone" {
            let x = self.ctxs[&k].clone();
            self.ctxs.insert(st(c, "as").to_owned(), x);
            return Ok(json!({"t": "u"}));
        }
        let x = self.ctxs.entry(k).or_default();
        Ok(match st(c, "op") {
            "with" => { *x = std::mem::take(x).with_symbol(n); json!({"t": "u"}) }
            "symb" => sy(x.symb(n)),
            "get" => match x.get_symbol(n) { Some(s) => sy(s), None => json!({"t": "none"}) },
            "contains" => json!({"t": "b", "b": x.contains_symbol(n)}),
            "remove" => json!({"t": "b", "b": x.remove_symbol(n)}),
            "clear" => { x.clear_symbols(); json!({"t": "u"}) }
            "clearfns" => { x.clear_functions(); json!({"t": "u"}) }
            "clearall" => { x.clear_all(); json!({"t": "u"}) }
            "count" => json!({"t": "i", "i": x.symbol_count()}),
            "empty" => json!({"t": "b", "b": x.is_empty()}),
            "names" => { let mut v = x.symbol_names(); v.sort(); json!({"t": "names", "v": v}) }
            "fn" => { let u = userfn(c)?; *x = std::mem::take(x).with_function(n, u); json!({"t": "u"}) }
            "fnname" => { *x = std::mem::take(x).with_function_name(n); json!({"t": "u"}) }
            "use" => { let x = x.clone(); self.use_fn(&x, n) }
            "hasfn" => json!({"t": "b", "b": x.has_function(n)}),
            "rmfn" => json!({"t": "b", "b": x.remove_function(n)}),
            "fnnames" => json!({"t": "names", "v": sorted(x.function_names())}),
            "hasbody" => json!({"t": "b", "b": x.get_body(n).is_some()}),
            o => panic!("harness: context op {o}"),
        })
    }
}

fn hexes(v: &[f64]) -> Vec<String> {
    v.iter().map(|x| hex(*x)).collect()
}
/// Columns; "cyc": the given values are repeated up to n points.
fn columns(c: &J) -> Vec<Vec<f64>> {
    let cyc = c["cyc"] == true;
    c["cols"].as_array().unwrap().iter().map(nums).map(|v| {
        if cyc && !v.is_empty() { v.iter().copied().cycle().take(c["n"].as_u64().unwrap() as usize).collect() } else { v }
    }).collect()
}

/// Plain f64 interpretation of a closed user function body (custom evaluator callbacks).
fn plain(t: &J, xs: &[f64]) -> Option<f64> {
    let k = |i: usize| plain(&t[i], xs);
    Some(match t[0].as_str()? {
        "n" => lit(t[1].as_str()?),
        "a" => *xs.get(t[1].as_u64()? as usize)?,
        "+" => t[1].as_array()?.iter().map(|e| plain(e, xs)).sum::<Option<f64>>()?,
        "*" => t[1].as_array()?.iter().map(|e| plain(e, xs)).product::<Option<f64>>()?,
        "-" => k(1)? - k(2)?,
        "/" => k(1)? / k(2)?,
        "neg" => -k(1)?,
        "^" => k(1)?.powf(k(2)?),
        "f" => {
            let a = plain(&t[2][0], xs)?;
            match t[1].as_str()? { "sin" => a.sin(), "cos" => a.cos(), "exp" => a.exp(), "ln" => a.ln(), "sqrt" => a.sqrt(), "abs" => a.abs(), _ => return None }
        }
        _ => return None,
    })
}

macro_rules! dual_body {
    ($fname:ident, $rec:ident, $t:expr, $x:expr, $env:expr, $c:expr, $v:expr, $T:ty) => {{
        use num_traits::Float;
        let t: &J = $t;
        let k = |j: &J| $rec(j, $x, $env);
        let cst = $c;
        Some(match t[0].as_str()? {
            "n" => cst(lit(t[1].as_str()?)),
            "s" => { let n = t[1].as_str()?; let v = if n == "pi" { std::f64::consts::PI } else if n == "e" { std::f64::consts::E } else { *$env.get(n)? }; if n == $x { $v(v) } else { cst(v) } }
            "+" => { let mut a: Option<$T> = None; for e in t[1].as_array()? { let b = k(e)?; a = Some(match a { None => b, Some(a) => a + b }); } a? }
            "*" => { let mut a: Option<$T> = None; for e in t[1].as_array()? { let b = k(e)?; a = Some(match a { None => b, Some(a) => a * b }); } a? }
            "-" => k(&t[1])? - k(&t[2])?,
            "/" => k(&t[1])? / k(&t[2])?,
            "neg" => -k(&t[1])?,
            "^" => {
                let a = k(&t[1])?;
                if t[2][0] == "n" { let n = lit(t[2][1].as_str()?); if n == n.trunc() && n.abs() < 1e6 { return Some(a.powi(n as i32)); } }
                a.powf(k(&t[2])?)
            }
            "f" => {
                let a = k(&t[2][0])?;
                match t[1].as_str()? {
                    "sin" => a.sin(), "cos" => a.cos(), "tan" => a.tan(), "asin" => a.asin(), "acos" => a.acos(), "atan" => a.atan(),
                    "sinh" => a.sinh(), "cosh" => a.cosh(), "tanh" => a.tanh(), "asinh" => a.asinh(), "acosh" => a.acosh(), "atanh" => a.atanh(),
                    "exp" => a.exp(), "ln" => a.ln(), "log10" => a.log10(), "log2" => a.log2(), "sqrt" => a.sqrt(), "cbrt" => a.cbrt(),
                    "abs" => Float::abs(a), "floor" => a.floor(), "ceil" => a.ceil(), "round" => a.round(), "signum" => Float::signum(a),
                    "exp2" => a.exp2(), "expm1" => a.exp_m1(), "ln1p" => a.ln_1p(), "recip" => a.recip(), "trunc" => a.trunc(), "fract" => a.fract(),
                    "log" => k(&t[2][1])?.log(a), "atan2" => a.atan2(k(&t[2][1])?), "hypot" => a.hypot(k(&t[2][1])?),
                    "max" => a.max(k(&t[2][1])?), "min" => a.min(k(&t[2][1])?), "absdiff" => a.abs_sub(k(&t[2][1])?),
                    "muladd" => a.mul_add(k(&t[2][1])?, k(&t[2][2])?), "rem" => a % k(&t[2][1])?,
                    "sincos" => { let (s, c) = a.sin_cos(); s * c }
                    "erf" => a.erf(), "erfc" => a.erfc(), "gamma" => return a.gamma(), "digamma" => return a.digamma(), "trigamma" => return a.trigamma(),
                    "zeta" => return a.zeta(), "lambertw" => return a.lambert_w(), "sinc" => a.sinc(), "sign" => a.sign(),
                    "elliptic_k" => return a.elliptic_k(), "elliptic_e" => return a.elliptic_e(), "beta" => return a.beta(k(&t[2][1])?),
                    "polygamma" => return k(&t[2][1])?.polygamma(lit(t[2][0][1].as_str()?) as i32),
                    "besselj" => return k(&t[2][1])?.bessel_j(lit(t[2][0][1].as_str()?) as i32),
                    _ => return None,
                }
            }
            _ => return None,
        })
    }};
}
fn dual(t: &J, x: &str, env: &BTreeMap<String, f64>) -> Option<Dual<f64>> {
    dual_body!(dual, dual, t, x, env, |v: f64| Dual::constant(v), |v: f64| Dual::new(v, 1.0), Dual<f64>)
}
fn dual2(t: &J, x: &str, env: &BTreeMap<String, f64>) -> Option<Dual<Dual<f64>>> {
    dual_body!(dual2, dual2, t, x, env, |v: f64| Dual::constant(Dual::constant(v)), |v: f64| Dual::new(Dual::new(v, 1.0), Dual::new(1.0, 0.0)), Dual<Dual<f64>>)
}

fn guarded(s: &mut St, c: &J) -> J {
    match catch_unwind(AssertUnwindSafe(|| s.run(c))) {
        Ok(Ok(j)) | Ok(Err(j)) => j,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_default();
            if m.starts_with("harness:") {
                eprintln!("{m} in {c}");
                std::process::exit(3);
            }
            json!({"t": "panic", "m": m})
        }
    }
}

fn run_job(job: J) -> J {
    let mut s = St::default();
    let out: Vec<J> = job["cmds"].as_array().unwrap().iter().map(|c| guarded(&mut s, c)).collect();
    let mut o = job;
    o["out"] = json!(out);
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("VERIF_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    // harness JOBS OUT SKIP : results are appended to OUT, the first SKIP jobs are left out
    let skip: usize = a.get(3).map_or(0, |s| s.parse().unwrap());
    let f = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&a[2]).unwrap();
    for line in f.lines().skip(skip) {
        let line = line.unwrap();
        let job: J = serde_json::from_str(&line).unwrap_or_else(|e| {
            eprintln!("bad job: {e}: {line}");
            std::process::exit(3)
        });
        let stack = job.get("stack").and_then(J::as_u64).unwrap_or(64) << 20;
        let h = std::thread::Builder::new().stack_size(stack as usize).spawn(move || run_job(job)).unwrap();
        let r = h.join().unwrap_or_else(|_| std::process::exit(3));
        let mut s = serde_json::to_string(&r).unwrap();
        s.push('\n');
        out.write_all(s.as_bytes()).unwrap();
    }
}
