use crate::*;
use num_traits::Float;

fn dual_out(d: Dual<f64>) -> String { format!("{} {}", hx(d.val), hx(d.eps)) }
fn od(d: Option<Dual<f64>>) -> String { d.map_or("-".into(), dual_out) }

fn dual(name: &str, a: &[Dual<f64>], n: i32) -> String {
    let x = a[0];
    let y = || a[1];
    let r = match name {
        "add" => x + y(), "sub" => x - y(), "mul" => x * y(), "div" => x / y(), "neg" => -x, "rem" => x % y(),
        "add_assign" => { let mut z = x; z += y(); z }
        "sub_assign" => { let mut z = x; z -= y(); z }
        "mul_assign" => { let mut z = x; z *= y(); z }
        "div_assign" => { let mut z = x; z /= y(); z }
        "floor" => x.floor(), "ceil" => x.ceil(), "round" => x.round(), "trunc" => x.trunc(), "fract" => x.fract(),
        "abs" => Float::abs(x), "signum" => Float::signum(x), "mul_add" => x.mul_add(y(), a[2]), "recip" => x.recip(),
        "powi" => x.powi(n), "powf" => x.powf(y()), "sqrt" => x.sqrt(), "exp" => x.exp(), "exp2" => x.exp2(), "ln" => x.ln(),
        "log" => x.log(y()), "log2" => x.log2(), "log10" => x.log10(), "max" => x.max(y()), "min" => x.min(y()),
        "abs_sub" => Float::abs_sub(x, y()), "cbrt" => x.cbrt(), "hypot" => x.hypot(y()), "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(),
        "asin" => x.asin(), "acos" => x.acos(), "atan" => x.atan(), "atan2" => x.atan2(y()), "exp_m1" => x.exp_m1(), "ln_1p" => x.ln_1p(),
        "sin_cos0" => x.sin_cos().0, "sin_cos1" => x.sin_cos().1,
        "sinh" => x.sinh(), "cosh" => x.cosh(), "tanh" => x.tanh(), "asinh" => x.asinh(), "acosh" => x.acosh(), "atanh" => x.atanh(),
        "erf" => x.erf(), "erfc" => x.erfc(), "sinc" => x.sinc(), "sign" => x.sign(),
        "sabs" => num_traits::Signed::abs(&x), "ssignum" => num_traits::Signed::signum(&x), "sabs_sub" => num_traits::Signed::abs_sub(&x, &y()),
        "gamma" => return od(x.gamma()), "digamma" => return od(x.digamma()), "trigamma" => return od(x.trigamma()),
        "polygamma" => return od(x.polygamma(n)), "zeta" => return od(x.zeta()), "lambert_w" => return od(x.lambert_w()),
        "bessel_j" => return od(x.bessel_j(n)), "elliptic_k" => return od(x.elliptic_k()), "elliptic_e" => return od(x.elliptic_e()),
        "beta" => return od(x.beta(y())),
        _ => return "UNKNOWN".into(),
    };
    dual_out(r)
}

pub fn run(t: &mut Toks) -> String {
    let c = t.next();
    match c {
        "ping" => "pong".into(),
        "rules" => vh::rules().iter().map(|(n, a, p)| format!("{}|{}|{}", esc(n), u8::from(*a), p)).collect::<Vec<_>>().join(" "),
        "rule" => { let i = t.usize(); let ds = t.next() == "1"; let e = t.expr(); opt(vh::apply_rule(i, &e, ds)) }
        "raw" => show(&t.expr()),
        "canon" => show(&t.cexpr()),
        "simp" => {
            let ds = t.next() == "1";
            let e = t.expr();
            match Simplify::new().domain_safe(ds).simplify(&e) { Ok(r) => show(&r), Err(e) => format!("ERR {}", esc(&format!("{e:?}"))) }
        }
        "draw" => { let v = t.name(); let e = t.expr(); show(&vh::derive_raw(&e, &v)) }
        "fns" => vh::fn_names().iter().map(|(n, a, b)| format!("{}|{}|{}", escn_(n), a, b)).collect::<Vec<_>>().join(" "),
        "fneval" => {
            let n = t.name();
            let mut a = vec![];
            while !t.done() { a.push(t.f()); }
            match vh::fn_eval(&n, &a) { None => "UNKNOWN".into(), Some(None) => "-".into(), Some(Some(x)) => hx(x) }
        }
        "fnderiv" => {
            let n = t.name();
            let k = t.usize();
            let a: Vec<Expr> = (0..k).map(|_| t.expr()).collect();
            let p: Vec<Expr> = (0..k).map(|_| t.expr()).collect();
            opt(vh::fn_derivative(&n, &a, &p))
        }
        "dual" => {
            let n = t.next();
            let k = t.usize();
            let a: Vec<Dual<f64>> = (0..k).map(|_| { let v = t.f(); let e = t.f(); Dual::new(v, e) }).collect();
            let i: i32 = if t.done() { 0 } else { t.next().parse().expect("i32") };
            dual(n, &a, i)
        }
        _ => crate::cmds2::run(c, t),
    }
}
fn escn_(s: &str) -> String { s.to_string() }
