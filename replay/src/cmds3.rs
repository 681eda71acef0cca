use crate::*;
use symb_anafis::parallel::{evaluate_parallel, EvalResult, ExprInput, Value, VarInput};

fn er<E: std::fmt::Debug>(e: E) -> String { format!("ERR {}", esc(&format!("{e:?}"))) }
fn names(t: &mut Toks) -> Vec<String> { let k = t.usize(); (0..k).map(|_| t.name()).collect() }
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * (1.0 + a.abs() + b.abs()) }
fn fl(v: &[f64]) -> String { v.iter().map(|x| hx(*x)).collect::<Vec<_>>().join(" ") }

/// the body tree with the parameters $0, $1, ... replaced
fn inst(b: &Tree, a: &[std::sync::Arc<Expr>]) -> Tree {
    let m = |v: &Vec<Tree>| v.iter().map(|x| inst(x, a)).collect::<Vec<_>>();
    match b {
        Tree::Sym(s) if s.starts_with('$') => vh::view(&a[s[1..].parse::<usize>().expect("param")]),
        Tree::Sum(v) => Tree::Sum(m(v)),
        Tree::Prod(v) => Tree::Prod(m(v)),
        Tree::Fun(n, v) => Tree::Fun(n.clone(), m(v)),
        Tree::Div(x, y) => Tree::Div(Box::new(inst(x, a)), Box::new(inst(y, a))),
        Tree::Pow(x, y) => Tree::Pow(Box::new(inst(x, a)), Box::new(inst(y, a))),
        Tree::Poly(x, t) => Tree::Poly(Box::new(inst(x, a)), t.clone()),
        Tree::Der(x, v, k) => Tree::Der(Box::new(inst(x, a)), v.clone(), *k),
        t => match t { Tree::Num(n) => Tree::Num(*n), Tree::Sym(s) => Tree::Sym(s.clone()), _ => Tree::Num(0.0) },
    }
}
/// context of functions: k, then per function name, arity, body flag (1 body / 0 none), body tree
pub fn context(t: &mut Toks) -> Context {
    let mut c = Context::new();
    for _ in 0..t.usize() {
        let n = t.name(); let a = t.usize(); let hb = t.usize();
        let mut f = UserFunction::new(a..=a);
        if hb == 1 { let b = t.tree(); f = f.body(move |x| vh::build(&inst(&b, x))); }
        c = c.with_function(&n, f);
    }
    c
}
pub fn run(c: &str, t: &mut Toks) -> String {
    match c {
        // compile with user functions: functions, params, npts, values, tree
        "cevu" => {
            let ctx = context(t); let ps = names(t); let n = t.usize();
            let cols: Vec<Vec<f64>> = (0..ps.len()).map(|_| (0..n).map(|_| t.f()).collect()).collect();
            let e = t.expr();
            let ev = match CompiledEvaluator::compile(&e, &ps, Some(&ctx)) { Ok(v) => v, Err(e) => return er(e) };
            let mut s = vec![];
            for i in 0..n { let p: Vec<f64> = cols.iter().map(|c| c[i]).collect(); s.push(ev.evaluate(&p)); }
            fl(&s)
        }
        // every multi-point entry against single evaluation: params, points, first values, step, tree
        "cevbig" => {
            let ps = names(t); let n = t.usize();
            let cols: Vec<Vec<f64>> = (0..ps.len()).map(|_| { let a = t.f(); let h = t.f(); (0..n).map(|i| a + h * i as f64).collect() }).collect();
            let e = t.expr();
            let ev = match CompiledEvaluator::compile(&e, &ps, None) { Ok(v) => v, Err(e) => return er(e) };
            let single: Vec<f64> = (0..n).map(|i| { let p: Vec<f64> = cols.iter().map(|c| c[i]).collect(); ev.evaluate(&p) }).collect();
            let cr: Vec<&[f64]> = cols.iter().map(|c| c.as_slice()).collect();
            let cmp = |w: &str, v: &[f64]| -> Option<String> {
                if v.len() != n { return Some(format!("DIFF {w} length {} {n}", v.len())); }
                (0..n).find(|&i| !same(v[i], single[i])).map(|i| format!("DIFF {w} {i} {} {}", hx(v[i]), hx(single[i])))
            };
            let mut out = vec![0.0; n];
            if let Err(e) = ev.eval_batch(&cr, &mut out, None) { return format!("DIFF batch-error 0 {}", er(e)); }
            if let Some(s) = cmp("eval_batch", &out) { return s; }
            match ev.eval_batch_parallel(&cr) { Ok(v) => if let Some(s) = cmp("eval_batch_parallel", &v) { return s; }, Err(e) => return format!("DIFF eval_batch_parallel-error 0 {}", er(e)) }
            if !ps.is_empty() {
                let pr: Vec<&str> = ps.iter().map(|s| s.as_str()).collect();
                match symb_anafis::eval_f64(&[&e, &e], &[&pr[..], &pr[..]], &[&cr[..], &cr[..]]) {
                    Ok(v) => for x in &v { if let Some(s) = cmp("eval_f64", x) { return s; } },
                    Err(e) => return format!("DIFF eval_f64-error 0 {}", er(e)),
                }
                let vals: Vec<Vec<Value>> = cols.iter().map(|c| c.iter().map(|x| Value::Num(*x)).collect()).collect();
                match evaluate_parallel(vec![ExprInput::from(&e)], vec![ps.iter().map(|s| VarInput::from(s.as_str())).collect()], vec![vals]) {
                    Ok(v) => {
                        let w: Vec<f64> = v[0].iter().map(|r| match r { EvalResult::Expr(e) => match vh::view(e) { Tree::Num(x) => x, _ => f64::NAN }, _ => f64::NAN }).collect();
                        if let Some(s) = cmp("evaluate_parallel", &w) { return s; }
                    }
                    Err(e) => return format!("DIFF evaluate_parallel-error 0 {}", er(e)),
                }
            }
            "OK".into()
        }
        // mixed evaluate_parallel: params, per param a count and items (n<bits> | s | e <tree>), tree -> results
        "evpar" => {
            let ps = names(t);
            let mut vals = vec![];
            for _ in 0..ps.len() {
                let k = t.usize();
                let mut v = vec![];
                for _ in 0..k {
                    match t.next() { "n" => v.push(Value::Num(t.f())), "s" => v.push(Value::Skip), _ => v.push(Value::Expr(t.expr())) }
                }
                vals.push(v);
            }
            let e = t.expr();
            match evaluate_parallel(vec![ExprInput::from(&e)], vec![ps.iter().map(|s| VarInput::from(s.as_str())).collect()], vec![vals]) {
                Ok(v) => v[0].iter().map(|r| match r { EvalResult::Expr(e) => show(e), EvalResult::String(s) => esc(s) }).collect::<Vec<_>>().join(" | "),
                Err(e) => er(e),
            }
        }
        // batch with one buffer shared by two programs: params, npts, values, tree, tree
        "cevbuf" => {
            let ps = names(t); let n = t.usize();
            let cols: Vec<Vec<f64>> = (0..ps.len()).map(|_| (0..n).map(|_| t.f()).collect()).collect();
            let mut buf = Vec::new(); let mut o = vec![];
            for _ in 0..2 {
                let e = t.expr();
                let ev = match CompiledEvaluator::compile(&e, &ps, None) { Ok(v) => v, Err(e) => return er(e) };
                let cr: Vec<&[f64]> = cols.iter().map(|c| c.as_slice()).collect();
                let mut out = vec![-7.25; n + 2];
                if let Err(e) = ev.eval_batch(&cr, &mut out, Some(&mut buf)) { return er(e); }
                if out[n..].iter().any(|x| *x != -7.25) { return "TAIL".into(); }
                for i in 0..n { let p: Vec<f64> = cols.iter().map(|c| c[i]).collect(); let s = ev.evaluate(&p); if !same(s, out[i]) { return format!("DIFF shared-buffer {i} {} {}", hx(out[i]), hx(s)); } }
                o.push("OK");
            }
            o.join(" ")
        }
        _ => format!("UNKNOWN {c}"),
    }
}
