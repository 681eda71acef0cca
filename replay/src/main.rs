//! Replay server: executes the real library on inputs given as text, one request per line.
//! Tree syntax (prefix, space separated): #<hex bits>  @name  f:name:k ...  +k ...  *k ...  / a b  ^ a b
//! d:var:order a   P:k:pow,bits,pow,bits,... base
#![allow(unexpected_cfgs)]
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use symb_anafis::verif_hooks as vh;
use symb_anafis::verif_hooks::Tree;
use symb_anafis::*;

mod cmds;
mod cmds2;
mod cmds3;

pub struct Toks<'a> {
    pub t: Vec<&'a str>,
    pub i: usize,
}
impl<'a> Toks<'a> {
    pub fn next(&mut self) -> &'a str {
        let r = self.t.get(self.i).copied().unwrap_or("");
        self.i += 1;
        r
    }
    pub fn usize(&mut self) -> usize { self.next().parse().expect("usize") }
    pub fn f(&mut self) -> f64 { bits(self.next()) }
    pub fn name(&mut self) -> String { unesc(self.next()) }
    pub fn done(&self) -> bool { self.i >= self.t.len() }
    pub fn tree(&mut self) -> Tree {
        let w = self.next();
        let (h, rest) = w.split_at(1);
        let n = |t: &mut Self, k: usize| (0..k).map(|_| t.tree()).collect::<Vec<_>>();
        match h {
            "#" => Tree::Num(bits(rest)),
            "@" => Tree::Sym(unesc(rest)),
            "+" => { let k = rest.parse().expect("k"); Tree::Sum(n(self, k)) }
            "*" => { let k = rest.parse().expect("k"); Tree::Prod(n(self, k)) }
            "/" => { let a = self.tree(); let b = self.tree(); Tree::Div(Box::new(a), Box::new(b)) }
            "^" => { let a = self.tree(); let b = self.tree(); Tree::Pow(Box::new(a), Box::new(b)) }
            "f" => {
                let p: Vec<&str> = rest[1..].rsplitn(2, ':').collect();
                let k: usize = p[0].parse().expect("k");
                Tree::Fun(unesc(p[1]), n(self, k))
            }
            "d" => {
                let p: Vec<&str> = rest[1..].rsplitn(2, ':').collect();
                let k: u32 = p[0].parse().expect("k");
                let a = self.tree();
                Tree::Der(Box::new(a), unesc(p[1]), k)
            }
            "P" => {
                let v: Vec<&str> = rest[1..].split(',').filter(|s| !s.is_empty()).collect();
                let terms = v.chunks(2).map(|c| (c[0].parse::<u32>().expect("pow"), bits(c[1]))).collect();
                let a = self.tree();
                Tree::Poly(Box::new(a), terms)
            }
            _ => panic!("bad tree token {w}"),
        }
    }
    pub fn expr(&mut self) -> Expr { vh::build(&self.tree()) }
    /// an expression built through the public constructors
    pub fn cexpr(&mut self) -> Expr { canon(&self.tree()) }
}
pub fn canon(t: &Tree) -> Expr {
    let m = |v: &Vec<Tree>| v.iter().map(canon).collect::<Vec<_>>();
    match t {
        Tree::Sum(v) => Expr::sum(m(v)),
        Tree::Prod(v) => Expr::product(m(v)),
        Tree::Div(a, b) => Expr::div_expr(canon(a), canon(b)),
        Tree::Pow(a, b) => Expr::pow_static(canon(a), canon(b)),
        Tree::Fun(n, v) => Expr::func_multi(n, m(v)),
        Tree::Der(a, v, k) => Expr::derivative(canon(a), v, *k),
        t => vh::build(t),
    }
}
pub fn bits(s: &str) -> f64 { f64::from_bits(u64::from_str_radix(s, 16).expect("bits")) }
pub fn hx(x: f64) -> String { format!("{:016x}", x.to_bits()) }
pub fn unesc(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).expect("esc")); i += 3; } else { o.push(b[i]); i += 1; }
    }
    String::from_utf8(o).expect("utf8")
}
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for &c in s.as_bytes() {
        if c.is_ascii_alphanumeric() || b"_+-*/^().,[]<>=!'\"{}\\&|;?~".contains(&c) { o.push(c as char); } else { o.push_str(&format!("%{c:02x}")); }
    }
    if o.is_empty() { o.push_str("%20"); }
    o
}
fn escn(s: &str) -> String {
    let mut o = String::new();
    for &c in s.as_bytes() {
        if c.is_ascii_alphanumeric() || c == b'_' { o.push(c as char); } else { o.push_str(&format!("%{c:02x}")); }
    }
    o
}
pub fn put(t: &Tree, o: &mut String) {
    if !o.is_empty() { o.push(' '); }
    let many = |v: &Vec<Tree>, o: &mut String| for x in v { put(x, o) };
    match t {
        Tree::Num(n) => { o.push('#'); o.push_str(&hx(*n)); }
        Tree::Sym(s) => { o.push('@'); o.push_str(&escn(s)); }
        Tree::Sum(v) => { o.push_str(&format!("+{}", v.len())); many(v, o); }
        Tree::Prod(v) => { o.push_str(&format!("*{}", v.len())); many(v, o); }
        Tree::Div(a, b) => { o.push('/'); put(a, o); put(b, o); }
        Tree::Pow(a, b) => { o.push('^'); put(a, o); put(b, o); }
        Tree::Fun(n, v) => { o.push_str(&format!("f:{}:{}", escn(n), v.len())); many(v, o); }
        Tree::Der(a, v, k) => { o.push_str(&format!("d:{}:{}", escn(v), k)); put(a, o); }
        Tree::Poly(b, t) => {
            o.push_str("P:");
            o.push_str(&t.iter().map(|(k, c)| format!("{k},{}", hx(*c))).collect::<Vec<_>>().join(","));
            put(b, o);
        }
    }
}
/// The last shown expression whose carried hash is not the hash of the same expression built anew.
pub static STALE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn show(e: &Expr) -> String {
    let v = vh::view(e);
    let mut o = String::new(); put(&v, &mut o);
    if vh::build(&v).structural_hash() != e.structural_hash() { *STALE.lock().expect("stale") = o.clone(); }
    o
}
pub fn opt(e: Option<Expr>) -> String { e.map_or("-".to_string(), |e| show(&e)) }

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    let th = std::thread::Builder::new().stack_size(512 << 20);
    let h = th.spawn(move || {
        for line in stdin.lock().lines() {
            let line = line.expect("line");
            let mut t = Toks { t: line.split(' ').filter(|s| !s.is_empty()).collect(), i: 0 };
            let r = catch_unwind(AssertUnwindSafe(|| cmds::run(&mut t)));
            let s = match r {
                Ok(s) => s,
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    format!("PANIC {}", esc(&m))
                }
            };
            writeln!(out, "{s}").expect("write");
            out.flush().expect("flush");
        }
    }).expect("spawn");
    h.join().expect("join");
    let _ = HashMap::<u8, u8>::new();
}
