use crate::*;
use std::collections::{HashMap, HashSet};
use symb_anafis::{CovEntry, CovarianceMatrix, relative_uncertainty, uncertainty_propagation};

fn er<E: std::fmt::Debug>(e: E) -> String { format!("ERR {}", esc(&format!("{e:?}"))) }
fn names(t: &mut Toks) -> Vec<String> { let k = t.usize(); (0..k).map(|_| t.name()).collect() }
fn refs(v: &[String]) -> Vec<&str> { v.iter().map(|s| s.as_str()).collect() }
fn lim(t: &mut Toks) -> Option<usize> { t.next().parse().ok() }
fn set(v: &[String]) -> HashSet<String> { v.iter().cloned().collect() }
fn res(r: Result<Expr, DiffError>) -> String { match r { Ok(e) => show(&e), Err(e) => er(e) } }
fn list(v: &[Expr]) -> String { v.iter().map(show).collect::<Vec<_>>().join(" | ") }
fn fl(v: &[f64]) -> String { v.iter().map(|x| hx(*x)).collect::<Vec<_>>().join(" ") }

/// operator combinations: every impl of core::symbol::operators the type system offers here
fn ops(op: &str, shape: &str, a: &Expr, b: &Expr) -> Option<Expr> {
    let num = |e: &Expr| match vh::view(e) { Tree::Num(n) => Some(n), _ => None };
    let sy = |e: &Expr| match vh::view(e) { Tree::Sym(s) => Some(symb(&s)), _ => None };
    macro_rules! bin { ($x:expr, $y:expr) => {{ let (x, y) = ($x, $y); match op { "+" => x + y, "-" => x - y, "*" => x * y, "/" => x / y, _ => return None } }} }
    Some(match shape {
        "ee" => bin!(a.clone(), b.clone()), "er" => bin!(a.clone(), b), "re" => bin!(a, b.clone()), "rr" => bin!(a, b),
        "ef" => bin!(a.clone(), num(b)?), "fe" => bin!(num(a)?, b.clone()), "rf" => bin!(a, num(b)?), "fr" => bin!(num(a)?, b),
        "es" => bin!(a.clone(), sy(b)?), "se" => bin!(sy(a)?, b.clone()), "rs" => bin!(a, sy(b)?), "sr" => bin!(sy(a)?, b),
        "ss" => bin!(sy(a)?, sy(b)?), "sS" => bin!(&sy(a)?, &sy(b)?), "sf" => bin!(sy(a)?, num(b)?), "fs" => bin!(num(a)?, sy(b)?),
        "Sf" => bin!(&sy(a)?, num(b)?), "fS" => bin!(num(a)?, &sy(b)?), "eS" => bin!(a.clone(), &sy(b)?), "Se" => bin!(&sy(a)?, b.clone()),
        "ei" => bin!(a.clone(), num(b)? as i32), "ie" => bin!(num(a)? as i32, b.clone()), "si" => bin!(sy(a)?, num(b)? as i32), "is" => bin!(num(a)? as i32, sy(b)?),
        "n" => -a.clone(), "rn" => -a, "sn" => { let s = sy(a)?; -s } "Sn" => { let s = sy(a)?; -&s }
        "sp" => sy(a)?.pow(b.clone()), "ep" => a.clone().pow(b.clone()), "spf" => sy(a)?.pow(num(b)?), "epf" => a.clone().pow(num(b)?),
        _ => return None,
    })
}

pub fn run(c: &str, t: &mut Toks) -> String {
    match c {
        // compile: params, npts, column-major values, tree
        "cev" => {
            let ps = names(t); let n = t.usize();
            let cols: Vec<Vec<f64>> = (0..ps.len()).map(|_| (0..n).map(|_| t.f()).collect()).collect();
            let e = t.expr();
            let ev = match CompiledEvaluator::compile(&e, &ps, None) { Ok(v) => v, Err(e) => return er(e) };
            let mut s = vec![];
            for i in 0..n { let p: Vec<f64> = cols.iter().map(|c| c[i]).collect(); s.push(ev.evaluate(&p)); }
            let cr: Vec<&[f64]> = cols.iter().map(|c| c.as_slice()).collect();
            let mut out = vec![-7.25; n + 3];
            let b = match ev.eval_batch(&cr, &mut out[..n], None) { Ok(()) => fl(&out[..n]), Err(e) => er(e) };
            let tail = out[n..].iter().all(|x| *x == -7.25);
            // larger output buffer: only the batch may be written
            let mut out2 = vec![-7.25; n + 5];
            let b2 = ev.eval_batch(&cr, &mut out2, None).is_ok() && (ps.is_empty() || (out2[n..].iter().all(|x| *x == -7.25)
                && out2[..n].iter().zip(&out[..n]).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))));
            format!("{} {} {} {} {} {} ; {} ; {} ; {} ; {}", ev.stack_size, ev.cache_size, ev.param_count, ev.constants.len(), u8::from(tail), u8::from(b2), fl(&s), b,
                ev.instructions.iter().map(|i| format!("{i:?}").replace(' ', "")).collect::<Vec<_>>().join(" "), fl(&ev.constants))
        }
        // raw program: stack cache params | consts | instructions are only reachable through compile; report its text
        "cauto" => {
            let e = t.expr();
            match CompiledEvaluator::compile_auto(&e, None) { Ok(v) => v.param_names.iter().map(|s| esc(s)).collect::<Vec<_>>().join(" "), Err(e) => er(e) }
        }
        "batcherr" => {
            let ps = names(t); let ncol = t.usize();
            let lens: Vec<usize> = (0..ncol).map(|_| t.usize()).collect();
            let outn = t.usize(); let e = t.expr();
            let ev = match CompiledEvaluator::compile(&e, &ps, None) { Ok(v) => v, Err(e) => return er(e) };
            let cols: Vec<Vec<f64>> = lens.iter().map(|&l| (0..l).map(|i| 0.5 + i as f64 / 8.0).collect()).collect();
            let cr: Vec<&[f64]> = cols.iter().map(|c| c.as_slice()).collect();
            let mut out = vec![0.0; outn];
            match ev.eval_batch(&cr, &mut out, None) { Ok(()) => "OK".into(), Err(e) => er(e) }
        }
        "parse" => {
            let s = t.name(); let sy = names(t); let fu = names(t);
            match parse(&s, &set(&sy), &set(&fu), None) { Ok(e) => show(&e), Err(e) => er(e) }
        }
        "disp" => esc(&t.expr().to_string()),
        "cdisp" => esc(&t.cexpr().to_string()),
        "latex" => esc(&t.expr().to_latex()),
        "unicode" => esc(&t.expr().to_unicode()),
        "rt" => {
            let fu = names(t); let sy = names(t); let e = t.expr(); let s = e.to_string();
            match parse(&s, &set(&sy), &set(&fu), None) { Ok(r) => format!("{} {}", esc(&s), show(&r)), Err(e) => format!("{} {}", esc(&s), er(e)) }
        }
        "evaluate" => {
            let k = t.usize();
            let v: Vec<(String, f64)> = (0..k).map(|_| { let n = t.name(); (n, t.f()) }).collect();
            let m: HashMap<&str, f64> = v.iter().map(|(n, x)| (n.as_str(), *x)).collect();
            show(&t.expr().evaluate(&m, &HashMap::new()))
        }
        "evalid" => {
            let k = t.usize();
            let m: HashMap<u64, f64> = (0..k).map(|_| { let n = t.name(); (symb(&n).id(), t.f()) }).collect();
            show(&t.expr().evaluate(&m, &HashMap::new()))
        }
        "evalstr" => {
            let s = t.name(); let k = t.usize();
            let v: Vec<(String, f64)> = (0..k).map(|_| { let n = t.name(); (n, t.f()) }).collect();
            let m: Vec<(&str, f64)> = v.iter().map(|(n, x)| (n.as_str(), *x)).collect();
            match evaluate_str(&s, &m) { Ok(s) => esc(&s), Err(e) => er(e) }
        }
        "subst" => { let v = t.name(); let e = t.expr(); let r = t.expr(); show(&e.substitute(&v, &r)) }
        "vars" => { let e = t.expr(); let mut v: Vec<String> = e.variables().into_iter().map(|s| esc(&s)).collect(); v.sort(); v.join(" ") }
        "contains" => { let v = t.name(); let e = t.expr(); format!("{} {}", e.contains_var(&v), e.contains_var_id(symb(&v).id())) }
        "hasfree" => { let x = names(t); let e = t.expr(); e.has_free_variables(&set(&x)).to_string() }
        "stats" => { let e = t.expr(); format!("{} {}", e.node_count(), e.max_depth()) }
        "clone" => { let e = t.expr(); let d = e.deep_clone(); format!("{} {} {}", e == d, e.structural_hash() == d.structural_hash(), show(&d)) }
        // differentiate: var ds skip maxdepth maxnodes fixed tree
        "diff" => {
            let v = t.name(); let ds = t.next() == "1"; let sk = t.next() == "1"; let md = lim(t); let mn = lim(t); let fx = names(t);
            let e = t.expr();
            let mut d = Diff::new().domain_safe(ds).skip_simplification(sk).fixed_vars(&fx);
            if let Some(x) = md { d = d.max_depth(x); }
            if let Some(x) = mn { d = d.max_nodes(x); }
            res(d.differentiate(&e, &symb(&v)))
        }
        "diffstr" => {
            let s = t.name(); let v = t.name(); let known = names(t); let fx = names(t); let fns = names(t); let md = lim(t); let mn = lim(t);
            let mut d = Diff::new().fixed_vars(&fx);
            for f in &fns { d = d.user_fn(f.as_str(), UserFunction::any_arity()); }
            if let Some(x) = md { d = d.max_depth(x); }
            if let Some(x) = mn { d = d.max_nodes(x); }
            match d.diff_str(&s, &v, &refs(&known)) { Ok(s) => esc(&s), Err(e) => er(e) }
        }
        "simpstr" => {
            let s = t.name(); let known = names(t); let fx = names(t); let fns = names(t); let md = lim(t); let mn = lim(t);
            let mut d = Simplify::new().fixed_vars(&fx);
            for f in &fns { d = d.user_fn(f.as_str(), UserFunction::any_arity()); }
            if let Some(x) = md { d = d.max_depth(x); }
            if let Some(x) = mn { d = d.max_nodes(x); }
            match d.simplify_str(&s, &refs(&known)) { Ok(s) => esc(&s), Err(e) => er(e) }
        }
        "simpo" => {
            let ds = t.next() == "1"; let md = lim(t); let mn = lim(t); let fx = names(t); let e = t.expr();
            let mut d = Simplify::new().domain_safe(ds).fixed_vars(&fx);
            if let Some(x) = md { d = d.max_depth(x); }
            if let Some(x) = mn { d = d.max_nodes(x); }
            res(d.simplify(&e))
        }
        "edif" => { let v = t.name(); res(t.expr().diff(&v)) }
        "grad" => {
            let v = names(t); let e = t.expr(); let s: Vec<Symbol> = v.iter().map(|n| symb(n)).collect(); let r: Vec<&Symbol> = s.iter().collect();
            match gradient(&e, &r) { Ok(v) => list(&v), Err(e) => er(e) }
        }
        "hess" => {
            let v = names(t); let e = t.expr(); let s: Vec<Symbol> = v.iter().map(|n| symb(n)).collect(); let r: Vec<&Symbol> = s.iter().collect();
            match hessian(&e, &r) { Ok(v) => v.iter().map(|r| list(r)).collect::<Vec<_>>().join(" ; "), Err(e) => er(e) }
        }
        "jac" => {
            let v = names(t); let k = t.usize(); let es: Vec<Expr> = (0..k).map(|_| t.expr()).collect();
            let s: Vec<Symbol> = v.iter().map(|n| symb(n)).collect(); let r: Vec<&Symbol> = s.iter().collect();
            match jacobian(&es, &r) { Ok(v) => v.iter().map(|r| list(r)).collect::<Vec<_>>().join(" ; "), Err(e) => er(e) }
        }
        "gradstr" => { let s = t.name(); let v = names(t); match gradient_str(&s, &refs(&v)) { Ok(r) => r.iter().map(|x| esc(x)).collect::<Vec<_>>().join(" "), Err(e) => er(e) } }
        "hessstr" => { let s = t.name(); let v = names(t); match hessian_str(&s, &refs(&v)) { Ok(r) => r.iter().map(|x| x.iter().map(|y| esc(y)).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" ; "), Err(e) => er(e) } }
        "jacstr" => { let k = names(t); let v = names(t); match jacobian_str(&refs(&k), &refs(&v)) { Ok(r) => r.iter().map(|x| x.iter().map(|y| esc(y)).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" ; "), Err(e) => er(e) } }
        // unc rel vars covkind entries tree
        "unc" => {
            let rel = t.next() == "1"; let v = names(t); let k = t.next();
            let cov = match k {
                "none" => None,
                "diag" => { let n = t.usize(); Some(CovarianceMatrix::diagonal((0..n).map(|_| CovEntry::Num(t.f())).collect())) }
                "num" => { let n = t.usize(); match CovarianceMatrix::new((0..n).map(|_| (0..n).map(|_| CovEntry::Num(t.f())).collect()).collect()) { Ok(c) => Some(c), Err(e) => return er(e) } }
                "sym" => { let n = t.usize(); match CovarianceMatrix::new((0..n).map(|_| (0..n).map(|_| CovEntry::Symbolic(t.expr())).collect()).collect()) { Ok(c) => Some(c), Err(e) => return er(e) } }
                _ => return "UNKNOWN".into(),
            };
            let e = t.expr(); let r = refs(&v);
            res(if rel { relative_uncertainty(&e, &r, cov.as_ref()) } else { uncertainty_propagation(&e, &r, cov.as_ref()) })
        }
        "cmp" => { let a = t.expr(); let b = t.expr(); format!("{} {} {} {:?}", a == b, a.structural_hash() == b.structural_hash(), vh::kind_hash(&a).1 == vh::kind_hash(&b).1, vh::cmp(&a, &b)) }
        "stale" => { let s = std::mem::take(&mut *crate::STALE.lock().expect("stale")); if s.is_empty() { "-".into() } else { s } }
        "hash" => { let a = t.expr(); let (x, y) = vh::kind_hash(&a); format!("{x} {y} {}", a.structural_hash()) }
        // poly: op base k (pow coeff).. k (pow coeff)..
        "poly" => {
            let op = t.next(); let base = t.expr();
            let mut rd = || -> Vec<(u32, f64)> { let k = t.usize(); (0..k).map(|_| { let p: u32 = t.next().parse().expect("u32"); (p, t.f()) }).collect() };
            let a = rd(); let b = rd();
            match vh::poly_op(op, &base, &a, &b) {
                None => "-".into(),
                Some(v) => v.iter().map(|p| p.iter().map(|(k, c)| format!("{k},{}", hx(*c))).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" ; "),
            }
        }
        "polyexpr" => {
            let op = t.next(); let v = t.name(); let base = t.expr(); let k = t.usize();
            let a: Vec<(u32, f64)> = (0..k).map(|_| { let p: u32 = t.next().parse().expect("u32"); (p, t.f()) }).collect();
            show(&vh::poly_expr(op, &base, &a, &v))
        }
        "polyfrom" => match vh::poly_from_expr(&t.expr()) {
            None => "-".into(),
            Some((b, p)) => { let mut o = String::new(); put(&b, &mut o); format!("{o} ; {}", p.iter().map(|(k, c)| format!("{k},{}", hx(*c))).collect::<Vec<_>>().join(" ")) }
        },
        "ops" => { let op = t.next(); let sh = t.next(); let a = t.expr(); let b = t.expr(); opt(ops(op, sh, &a, &b)) }
        // constructors over several operands: sum/product of trees built as-is
        "mk" => {
            let op = t.next(); let k = t.usize(); let v: Vec<Expr> = (0..k).map(|_| t.expr()).collect();
            show(&match op {
                "sum" => Expr::sum(v), "product" => Expr::product(v), "sumiter" => v.into_iter().fold(Expr::number(0.0), |a, b| a + b),
                "div" => Expr::div_expr(v[0].clone(), v[1].clone()), "pow" => Expr::pow_static(v[0].clone(), v[1].clone()),
                "neg" => v[0].clone().negate(), "sub" => Expr::sub_expr(v[0].clone(), v[1].clone()), "add" => Expr::add_expr(v[0].clone(), v[1].clone()),
                "mul" => Expr::mul_expr(v[0].clone(), v[1].clone()), "sumarcs" => Expr::sum_from_arcs(v.into_iter().map(std::sync::Arc::new).collect()),
                "prodarcs" => Expr::product_from_arcs(v.into_iter().map(std::sync::Arc::new).collect()),
                // the same with operands that other owners keep alive
                "sumshared" => { let a: Vec<_> = v.into_iter().map(std::sync::Arc::new).collect(); let e = Expr::sum_from_arcs(a.clone()); drop(a); e }
                "prodshared" => { let a: Vec<_> = v.into_iter().map(std::sync::Arc::new).collect(); let e = Expr::product_from_arcs(a.clone()); drop(a); e }
                _ => return "UNKNOWN".into(),
            })
        }
        "symscript" => symscript(t),
        "limits" => { let e = t.expr(); format!("{} {}", e.node_count(), e.max_depth()) }
        _ => crate::cmds3::run(c, t),
    }
}

type Any = Box<dyn std::any::Any + Send>;
fn other(f: impl FnOnce() -> Any + Send + 'static) -> Any {
    use std::sync::{LazyLock, Mutex, mpsc::{channel, Sender}};
    type Job = (Box<dyn FnOnce() -> Any + Send>, Sender<std::thread::Result<Any>>);
    static W: LazyLock<Mutex<Sender<Job>>> = LazyLock::new(|| {
        let (s, r) = channel::<Job>();
        std::thread::spawn(move || { for (j, back) in r { let _ = back.send(std::panic::catch_unwind(std::panic::AssertUnwindSafe(j))); } });
        Mutex::new(s)
    });
    let (s, r) = channel();
    W.lock().unwrap().send((Box::new(f), s)).unwrap();
    match r.recv().unwrap() { Ok(v) => v, Err(e) => std::panic::resume_unwind(e) }
}
/// a history over the global table and several contexts; prints the observation of each step
fn symscript(t: &mut Toks) -> String {
    let mut ctx: Vec<Context> = vec![Context::new(), Context::new()];
    let mut syms: HashMap<String, Symbol> = HashMap::new();
    let mut out = vec![];
    while !t.done() {
        let op = t.next();
        let o = match op {
            "new" => { let n = t.name(); let k = t.name(); match symb_new(&n) { Ok(s) => { let i = s.id(); syms.insert(k, s); format!("id{i}") } Err(e) => format!("E:{}", esc(&format!("{e:?}"))) } }
            "get" => { let n = t.name(); match symb_get(&n) { Ok(s) => format!("id{}", s.id()), Err(_) => "E".into() } }
            "symb" => { let n = t.name(); let k = t.name(); let s = symb(&n); let i = s.id(); syms.insert(k, s); format!("id{i}") }
            "exists" => { let n = t.name(); symbol_exists(&n).to_string() }
            "remove" => { let n = t.name(); remove_symbol(&n).to_string() }
            "anon" => { let k = t.name(); let s = Symbol::anon(); let i = s.id(); let nm = s.name(); syms.insert(k, s); format!("id{i}:{}", nm.is_some()) }
            "name" => { let k = t.name(); syms.get(&k).map_or("?".into(), |s| s.name().map_or("-".into(), |n| esc(&n))) }
            "idname" => { let k = t.name(); syms.get(&k).map_or("?".into(), |s| vh::symbol_name_of_id(s.id()).map_or("-".into(), |n| esc(&n))) }
            "has" => { let n = t.name(); symbol_names().contains(&n).to_string() }
            "count" => symbol_count().to_string(),
            "nnames" => symbol_names().len().to_string(),
            "clear" => { clear_symbols(); "ok".into() }
            "cs" => { let i = t.usize(); let n = t.name(); let k = t.name(); let s = ctx[i].symb(&n); let id = s.id(); syms.insert(k, s); format!("id{id}") }
            "chas" => { let i = t.usize(); let n = t.name(); ctx[i].contains_symbol(&n).to_string() }
            "cget" => { let i = t.usize(); let n = t.name(); ctx[i].get_symbol(&n).map_or("-".into(), |s| format!("id{}", s.id())) }
            "crm" => { let i = t.usize(); let n = t.name(); ctx[i].remove_symbol(&n).to_string() }
            "ccl" => { let i = t.usize(); ctx[i].clear_symbols(); "ok".into() }
            "ccla" => { let i = t.usize(); ctx[i].clear_all(); "ok".into() }
            "ccount" => { let i = t.usize(); ctx[i].symbol_count().to_string() }
            "cempty" => { let i = t.usize(); ctx[i].is_empty().to_string() }
            "cnames" => { let i = t.usize(); let mut v = ctx[i].symbol_names(); v.sort(); v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",") }
            "cclone" => { let i = t.usize(); let c = ctx[i].clone(); ctx.push(c); format!("{}", ctx.len() - 1) }
            "cwith" => { let i = t.usize(); let n = t.name(); let c = std::mem::take(&mut ctx[i]); ctx[i] = c.with_symbol(&n); "ok".into() }
            "cfn" => { let i = t.usize(); let n = t.name(); let a = t.usize(); let c = std::mem::take(&mut ctx[i]); ctx[i] = c.with_function(&n, UserFunction::new(a..=a)); "ok".into() }
            "cfnn" => { let i = t.usize(); let n = t.name(); let c = std::mem::take(&mut ctx[i]); ctx[i] = c.with_function_name(&n); "ok".into() }
            "chf" => { let i = t.usize(); let n = t.name(); ctx[i].has_function(&n).to_string() }
            "cfid" => { let i = t.usize(); let n = t.name(); let id = symb(&n).id(); format!("{} {}", ctx[i].get_user_fn(&n).is_some(), ctx[i].get_user_fn_by_id(id).is_some()) }
            "crf" => { let i = t.usize(); let n = t.name(); ctx[i].remove_function(&n).to_string() }
            "cclf" => { let i = t.usize(); ctx[i].clear_functions(); "ok".into() }
            "cfns" => { let i = t.usize(); let mut v: Vec<String> = ctx[i].function_names().into_iter().collect(); v.sort(); v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",") }
            // the same on another, long-lived thread (its caches are its own)
            "tsymb" => { let n = t.name(); let k = t.name(); let s = *other(move || Box::new(symb(&n))).downcast::<Symbol>().unwrap(); let i = s.id(); syms.insert(k, s); format!("id{i}") }
            "tget" => { let n = t.name(); *other(move || Box::new(symb_get(&n).map_or("E".to_string(), |s| format!("id{}", s.id())))).downcast::<String>().unwrap() }
            "tremove" => { let n = t.name(); *other(move || Box::new(remove_symbol(&n).to_string())).downcast::<String>().unwrap() }
            "tclear" => { other(|| { clear_symbols(); Box::new(()) }); "ok".into() }
            "tname" => { let k = t.name(); match syms.get(&k).copied() { None => "?".into(), Some(s) => *other(move || Box::new(s.name().map_or("-".to_string(), |n| esc(&n)))).downcast::<String>().unwrap() } }
            "builtin" => { let x = symb("bx_probe").to_expr(); match Diff::new().differentiate(&Expr::func("sin", x), &symb("bx_probe")) { Ok(e) => esc(&e.to_string()), Err(e) => er(e) } }
            "eqs" => { let a = t.name(); let b = t.name(); match (syms.get(&a), syms.get(&b)) { (Some(x), Some(y)) => (x == y).to_string(), _ => "?".into() } }
            "exeq" => { let a = t.name(); let b = t.name(); match (syms.get(&a), syms.get(&b)) { (Some(x), Some(y)) => (x.to_expr() == y.to_expr()).to_string(), _ => "?".into() } }
            _ => return format!("UNKNOWN {op}"),
        };
        out.push(o);
    }
    out.join(" ")
}
