//! Mechanical extraction of functions of /repo into a Verus file.
//!
//! usage: extract REPO TEMPLATE OUT.rs OUT.json [--stub f,g,...]
//!
//! A template is Verus text with directives (lines starting with `//@`):
//!
//!   //@ item PATH NAME [opt..]          copy a struct / enum / const (attributes dropped, fields made pub)
//!                                     NAME only a, b: keep these fields of a struct
//!       //@ derive PartialEq, Eq        derives to put back
//!   //@ fn PATH [Type::]NAME            copy a function; then, up to `//@ end`:
//!       (lines)                         requires / ensures / decreases of the contract
//!       //@ ret NAME                    name of the result (default r)
//!       //@ attr #[...]                 Verus attribute for the function
//!       //@ param w: &mut Ghost<T>      additional ghost parameter
//!       //@ recv &mut self              receiver (for state behind a lock)
//!       //@ rename NAME                 name of the extracted function
//!       //@ loop N [it]                 invariant / decreases of the N-th loop (pre-order); it names the iterator of a for loop
//!       //@ loop N top|bottom|before|after   ghost code at that place of the loop
//!       //@ top | bottom                ghost code at the start / before the result expression
//!       //@ after CALL K                ghost code after the statement with the K-th call of CALL
//!       //@ before CALL K               the same, before it
//!       //@ ahead PATTERN | behind PATTERN  ghost code before / after the first statement that matches
//!       //@ from PATTERN, to PATTERN    take only the statements from the first to the second match (same block) ...
//!       //@ sig (ARGS) -> T             ... as a function with this signature, in which the variables of the
//!       //@ yields EXPR                 rest of the function are parameters, and this result
//!   //@ rw  PATTERN => TEXT             rewrite an expression ($x matches any token trees); inside a fn: for it only
//!   //@ rwstmt PATTERN => TEXT          the same for a statement (TEXT may be empty)
//!   //@ rwtype PATTERN => TEXT          the same for a type
//!   in a rewrite, closure«CONTRACT»(|x| ..) gives a closure a contract and proof«..» is ghost code
//!   //@ use FILE                        include another template (path relative to this one), once
//!
//! Nothing else of the function body is touched. Rewrites that always apply are listed in
//! DESIGN.md and counted in OUT.json.
use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
type Path_ = syn::Path;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---------------------------------------------------------------- token patterns
#[derive(Clone, PartialEq, Debug)]
enum Tok { T(String), V(String) }

fn flat(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", ""),
                };
                if !o.is_empty() { out.push(o.into()); }
                flat(g.stream(), out);
                if !c.is_empty() { out.push(c.into()); }
            }
            TokenTree::Punct(p) => out.push(p.as_char().to_string()),
            TokenTree::Ident(i) => out.push(i.to_string()),
            TokenTree::Literal(l) => out.push(l.to_string()),
        }
    }
    // trailing commas in front of a closing bracket carry no meaning
}
fn norm(v: Vec<String>) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    for t in v {
        if (t == ")" || t == "]" || t == "}") && o.last().map(|x| x == ",").unwrap_or(false) { o.pop(); }
        o.push(t);
    }
    o
}
fn toks(ts: TokenStream) -> Vec<String> { let mut v = vec![]; flat(ts, &mut v); norm(v) }

#[derive(Clone)]
struct Rule { pat: Vec<Tok>, rep: String, text: String, hits: std::rc::Rc<std::cell::Cell<usize>> }
fn parse_rule(s: &str) -> Rule {
    let (p, r) = s.split_once("=>").unwrap_or_else(|| die(&format!("rule without =>: {s}")));
    let p2 = p.replace('$', "__mv_");
    let ts: TokenStream = p2.parse().unwrap_or_else(|_| die(&format!("bad pattern {p}")));
    let pat = toks(ts).into_iter().map(|t| match t.strip_prefix("__mv_") { Some(n) => Tok::V(n.into()), None => Tok::T(t) }).collect();
    Rule { pat, rep: r.trim().to_string(), text: s.trim().to_string(), hits: Default::default() }
}
fn closes(s: &str) -> i32 { match s { "(" | "[" | "{" => 1, ")" | "]" | "}" => -1, _ => 0 } }
fn matches(p: &[Tok], t: &[String], env: &mut BTreeMap<String, Vec<String>>) -> bool {
    match p.split_first() {
        None => t.is_empty(),
        Some((Tok::T(x), rest)) => !t.is_empty() && &t[0] == x && matches(rest, &t[1..], env),
        Some((Tok::V(n), rest)) => {
            if let Some(b) = env.get(n).cloned() {
                return t.len() >= b.len() && t[..b.len()] == b[..] && matches(rest, &t[b.len()..], env);
            }
            let mut depth = 0i32;
            for k in 0..t.len() {
                depth += closes(&t[k]);
                if depth < 0 { break; }
                if depth == 0 {
                    env.insert(n.clone(), t[..=k].to_vec());
                    if matches(rest, &t[k + 1..], env) { return true; }
                    env.remove(n);
                }
            }
            false
        }
    }
}
fn subst(rep: &str, env: &BTreeMap<String, Vec<String>>) -> String {
    let mut s = rep.to_string();
    let mut names: Vec<_> = env.keys().cloned().collect();
    names.sort_by_key(|n| std::cmp::Reverse(n.len()));
    for n in names { s = s.replace(&format!("${n}"), &untok(&env[&n])); }
    // ghost text inside a rewrite: closure«contract»(closure) and proof«ghost code»
    while let Some(p) = s.find("closure«") {
        let e = p + s[p..].find('»').unwrap_or_else(|| die("closure« without »"));
        let t = s[p + "closure«".len()..e].to_string();
        s = format!("{}__vx_cl_{}{}", &s[..p], ghost_text(t), &s[e + '»'.len_utf8()..]);
    }
    while let Some(p) = s.find("proof«") {
        let e = p + s[p..].find('»').unwrap_or_else(|| die("proof« without »"));
        let t = s[p + "proof«".len()..e].to_string();
        s = format!("{}__vx_pf_{}!();{}", &s[..p], ghost_text(t), &s[e + '»'.len_utf8()..]);
    }
    s
}
thread_local! { static GHOST: std::cell::RefCell<Vec<String>> = Default::default(); }
fn ghost_text(t: String) -> usize { GHOST.with(|g| { let mut g = g.borrow_mut(); g.push(t); g.len() - 1 }) }
/// puts the ghost text back into the printed body
fn unghost(mut body: String) -> String {
    let texts = GHOST.with(|g| g.borrow().clone());
    for (n, t) in texts.iter().enumerate() {
        let key = format!("__vx_pf_{n}!();");
        body = body.replace(&key, &format!("proof {{ {t} }}"));
        let key = format!("__vx_cl_{n}(");
        while let Some(p) = body.find(&key) {
            let rest = &body[p + key.len()..];
            let mut depth = 1; let mut e = 0;
            for (k, ch) in rest.char_indices() { match ch { '(' => depth += 1, ')' => { depth -= 1; if depth == 0 { e = k; break; } } _ => {} } }
            let cl = &rest[..e];
            let a = cl.find('|').expect("closure"); let b = a + 1 + cl[a + 1..].find('|').expect("closure");
            body = format!("{}{} {t} {{ {} }}{}", &body[..p], cl[..=b].trim(), cl[b + 1..].trim().trim_end_matches(','), &rest[e + 1..]);
        }
    }
    body
}
fn untok(v: &[String]) -> String {
    // puts tokens back together so that multi-character operators stay glued
    let glue = ["::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "..", "<<", ">>", "|=", "&="];
    let mut s = String::new();
    for (i, t) in v.iter().enumerate() {
        if i > 0 {
            let pair = format!("{}{}", v[i - 1], t);
            let punct = |x: &str| x.len() == 1 && !x.chars().next().unwrap().is_alphanumeric() && x != "_";
            let g = punct(&v[i - 1]) && punct(t) && glue.contains(&pair.as_str());
            let life = v[i - 1] == "'";
            if !g && !life { s.push(' '); }
            if pair == "==" && false { }
        }
        s.push_str(t);
    }
    // ..= and &mut style leftovers
    s.replace(".. =", "..=")
}

fn die(m: &str) -> ! { eprintln!("extract: {m}"); std::process::exit(3) }

struct Rw<'a> { expr: &'a [Rule], stmt: &'a [Rule], ty: &'a [Rule], err: Vec<String> }
impl VisitMut for Rw<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        for _ in 0..20 {
            let t = toks(e.to_token_stream());
            let mut hit = false;
            for r in self.expr {
                let mut env = BTreeMap::new();
                if matches(&r.pat, &t, &mut env) {
                    let s = subst(&r.rep, &env);
                    let mac = std::matches!(e, Expr::Macro(_));
                    match parse_str::<Expr>(&s) {
                        Ok(mut n) => { if mac { visit_mut::visit_expr_mut(self, &mut n); } *e = n; r.hits.set(r.hits.get() + 1); hit = true; }
                        Err(x) => self.err.push(format!("rewrite `{}` gives unparsable `{s}`: {x}", r.text)),
                    }
                    break;
                }
            }
            if !hit { break; }
            if let Expr::Paren(_) | Expr::Block(_) = e { break; }
        }
    }
    fn visit_type_mut(&mut self, e: &mut Type) {
        visit_mut::visit_type_mut(self, e);
        let t = toks(e.to_token_stream());
        for r in self.ty {
            let mut env = BTreeMap::new();
            if matches(&r.pat, &t, &mut env) {
                let s = subst(&r.rep, &env);
                match parse_str::<Type>(&s) {
                    Ok(n) => { *e = n; r.hits.set(r.hits.get() + 1); }
                    Err(x) => self.err.push(format!("rewrite `{}` gives unparsable `{s}`: {x}", r.text)),
                }
                break;
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let t = toks(s.to_token_stream());
            let mut done = false;
            for r in self.stmt {
                let mut env = BTreeMap::new();
                if matches(&r.pat, &t, &mut env) {
                    let x = subst(&r.rep, &env);
                    match parse_str::<Block>(&format!("{{ {x} }}")) {
                        Ok(n) => { out.extend(n.stmts); r.hits.set(r.hits.get() + 1); done = true; }
                        Err(x) => self.err.push(format!("rewrite `{}`: {x}", r.text)),
                    }
                    break;
                }
            }
            if !done { out.push(s); }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}

// ---------------------------------------------------------------- standing rewrites
#[derive(Default)]
struct Std { counts: BTreeMap<&'static str, usize> }
impl Std { fn hit(&mut self, k: &'static str) { *self.counts.entry(k).or_default() += 1; } }

/// statements whose `continue` can be turned into an else branch
fn has_continue(b: &Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true; }
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}
fn is_continue(s: &Stmt) -> bool { matches!(s, Stmt::Expr(Expr::Continue(_), _)) }
/// `stmts; rest` where a branch ends in `continue`: move the rest into the other branch.
fn desugar_continue(stmts: Vec<Stmt>, n: &mut usize) -> Vec<Stmt> {
    let mut out = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        if is_continue(&s) { *n += 1; return out; }
        if let Stmt::Expr(Expr::If(i), semi) = &s {
            let then_c = has_continue(&i.then_branch);
            let else_c = match &i.else_branch { Some((_, e)) => match &**e { Expr::Block(b) => has_continue(&b.block), Expr::If(x) => has_continue(&parse_quote!({ #x })), _ => false }, None => false };
            if then_c || else_c {
                let rest: Vec<Stmt> = it.collect();
                let mut i = i.clone();
                let ends = |b: &Block| b.stmts.last().map(is_continue).unwrap_or(false);
                let tb = if ends(&i.then_branch) { i.then_branch.stmts.clone() } else { let mut v = seal(i.then_branch.stmts.clone()); v.extend(rest.clone()); v };
                i.then_branch.stmts = desugar_continue(tb, n);
                let eb: Vec<Stmt> = match &i.else_branch {
                    None => rest,
                    Some((_, e)) => match &**e {
                        Expr::Block(b) => if ends(&b.block) { b.block.stmts.clone() } else { let mut v = seal(b.block.stmts.clone()); v.extend(rest); v },
                        other => { let mut v = vec![Stmt::Expr(other.clone(), None)]; v.extend(rest); v }
                    },
                };
                let eb = desugar_continue(eb, n);
                if eb.is_empty() { i.else_branch = None; } else { i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: eb } })))); }
                out.push(Stmt::Expr(Expr::If(i), *semi));
                return out;
            }
        }
        // let P = e else { continue };
        if let Stmt::Local(l) = &s
            && let Some(init) = &l.init
            && let Some((_, d)) = &init.diverge
            && let Expr::Block(b) = &**d
            && b.block.stmts.len() == 1
            && is_continue(&b.block.stmts[0])
        {
            *n += 1;
            let pat = &l.pat;
            let e = &init.expr;
            let rest = desugar_continue(it.collect(), n);
            out.push(parse_quote!(if let #pat = #e { #(#rest)* }));
            return out;
        }
        out.push(s);
    }
    out
}
fn seal(mut v: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(_, semi)) = v.last_mut() && semi.is_none() { *semi = Some(Default::default()); }
    v
}

impl VisitMut for Std {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Macro(m) = &s {
                let n = m.mac.path.to_token_stream().to_string().replace(' ', "");
                if n.starts_with("debug_assert") { self.hit("debug_assert dropped"); continue; }
                if n.starts_with("log::") || n.starts_with("tracing::") { self.hit("log statement dropped"); continue; }
            }
            if let Stmt::Item(Item::Use(u)) = &s && !u.to_token_stream().to_string().contains(" as ") { self.hit("import inside a body dropped (names are global here)"); continue; }
            if matches!(&s, Stmt::Item(Item::Fn(_))) { self.hit("nested function left to its own contract"); continue; }
            if let Stmt::Expr(e, Some(_)) = &s && matches!(e, Expr::Path(_) | Expr::Lit(_)) { self.hit("statement without effect dropped"); continue; }
            if let Stmt::Expr(Expr::Tuple(t), Some(_)) = &s && t.elems.is_empty() { self.hit("statement without effect dropped"); continue; }
            // let _ = <literal or path>;
            if let Stmt::Local(l) = &s && matches!(l.pat, Pat::Wild(_)) && let Some(i) = &l.init && i.diverge.is_none()
                && (matches!(&*i.expr, Expr::Path(_) | Expr::Lit(_)) || matches!(&*i.expr, Expr::Tuple(t) if t.elems.is_empty())
                    || matches!(&*i.expr, Expr::Reference(r) if matches!(&*r.expr, Expr::Path(_)))) {
                self.hit("statement without effect dropped"); continue;
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
        // a loop that held nothing but dropped assertions
        let before = b.stmts.len();
        b.stmts.retain(|s| !matches!(s, Stmt::Expr(Expr::ForLoop(f), _) if f.body.stmts.is_empty() && !has_call(&f.expr)));
        if b.stmts.len() < before { self.hit("empty loop dropped"); }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let mut n = 0;
        match e {
            Expr::ForLoop(f) if has_continue(&f.body) => { f.body.stmts = desugar_continue(std::mem::take(&mut f.body.stmts), &mut n); }
            Expr::While(f) if has_continue(&f.body) => { f.body.stmts = desugar_continue(std::mem::take(&mut f.body.stmts), &mut n); }
            _ => {}
        }
        if n > 0 { self.hit("continue turned into else"); }
        // for &P in E { .. }  =>  for item in E { let P = *item; .. }
        if let Expr::ForLoop(f) = e && let Pat::Reference(r) = &*f.pat {
            let inner = r.pat.clone();
            f.body.stmts.insert(0, parse_quote!(let #inner = *__item;));
            *f.pat = parse_quote!(__item);
            self.hit("reference pattern of a for loop read through the reference");
        }
        // for (i, x) in E.iter().enumerate()  =>  for i in 0..E.len() { let x = &E[i]; .. }
        if let Expr::ForLoop(f) = e {
            if let (Pat::Tuple(p), Expr::MethodCall(m)) = (&*f.pat, &*f.expr)
                && m.method == "enumerate" && p.elems.len() == 2
                && let Expr::MethodCall(m2) = &*m.receiver
                && m2.method == "iter"
            {
                let (i, x, src) = (p.elems[0].clone(), p.elems[1].clone(), m2.receiver.clone());
                if let Pat::Ident(_) = &i {
                    let body = &f.body.stmts;
                    let (x, pre): (Pat, Option<Expr>) = (x, None);
                    let _ = pre;
                    let ne: Expr = match &x {
                        Pat::Reference(r) => { let x = &r.pat; parse_quote!(for #i in 0..#src.len() { let #x = #src[#i]; #(#body)* }) }
                        _ => parse_quote!(for #i in 0..#src.len() { let #x = &#src[#i]; #(#body)* }),
                    };
                    *e = ne;
                    self.hit("enumerate loop turned into index loop");
                }
            }
        }
        // if let P = E && c { A }  =>  nested if
        if let Expr::If(i) = e {
            if let Expr::Binary(b) = &*i.cond
                && matches!(b.op, BinOp::And(_))
                && contains_let(&i.cond)
                && i.else_branch.is_none()
            {
                let (l, r, th) = (&b.left, &b.right, &i.then_branch);
                let ne: Expr = parse_quote!(if #l { if #r #th });
                *e = ne;
                self.hit("let chain nested");
                self.visit_expr_mut(e);
            }
        }
    }
}
/// calls other than iter() / len()
fn has_call(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_call(&mut self, _: &'a ExprCall) { self.0 = true; }
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) { if m.method != "iter" && m.method != "len" { self.0 = true; } syn::visit::visit_expr_method_call(self, m); }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}
fn contains_let(e: &Expr) -> bool {
    match e { Expr::Let(_) => true, Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => contains_let(&b.left) || contains_let(&b.right), _ => false }
}

// ---------------------------------------------------------------- ghost code anchors
struct Marker { loops: usize, calls: BTreeMap<String, usize>, want: HashSet<String>, placed: HashSet<String>, its: HashSet<usize>, pats: Vec<Rule> }
fn mark(id: &str) -> Stmt { let i = Ident::new(&format!("__vx_{}", id.replace([' ', ':'], "_")), Span::call_site()); parse_quote!(#i!();) }
struct CallCounter<'a> { m: &'a mut BTreeMap<String, usize>, found: Vec<(String, usize)> }
impl<'a, 'b> syn::visit::Visit<'b> for CallCounter<'a> {
    fn visit_expr_call(&mut self, c: &'b ExprCall) {
        syn::visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func { let n = p.path.segments.last().unwrap().ident.to_string(); let k = self.m.entry(n.clone()).or_default(); self.found.push((n, *k)); *k += 1; }
    }
    fn visit_expr_method_call(&mut self, c: &'b ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, c);
        let n = c.method.to_string(); let k = self.m.entry(n.clone()).or_default(); self.found.push((n, *k)); *k += 1;
    }
    fn visit_block(&mut self, _: &'b Block) {} // inner statements are anchored themselves
    fn visit_expr_closure(&mut self, _: &'b ExprClosure) {}
}
impl VisitMut for Marker {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let lp = match &s { Stmt::Expr(e, _) => matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)), _ => false };
            let mut cc = CallCounter { m: &mut self.calls, found: vec![] };
            if !lp { syn::visit::Visit::visit_stmt(&mut cc, &s); }
            let found = cc.found;
            for (n, k) in &found { let id = format!("before {n} {k}"); if self.want.contains(&id) { out.push(mark(&id)); self.placed.insert(id); } }
            let tk = toks(s.to_token_stream());
            let pat_hits: Vec<usize> = (0..self.pats.len()).filter(|&n| (self.want.contains(&format!("ahead {n}")) || self.want.contains(&format!("behind {n}"))) && !self.placed.contains(&format!("ahead {n}")) && !self.placed.contains(&format!("behind {n}")) && matches(&self.pats[n].pat, &tk, &mut BTreeMap::new())).collect();
            for &n in &pat_hits { let id = format!("ahead {n}"); if self.want.contains(&id) { out.push(mark(&id)); self.placed.insert(id); } }
            let no = self.loops;
            if lp { let id = format!("loop {no} before"); if self.want.contains(&id) { out.push(mark(&id)); self.placed.insert(id); } }
            self.visit_stmt_mut(&mut s);
            out.push(s);
            if lp { let id = format!("loop {no} after"); if self.want.contains(&id) { out.push(mark(&id)); self.placed.insert(id); } }
            for &n in &pat_hits { let id = format!("behind {n}"); if self.want.contains(&id) { out.push(mark(&id)); self.placed.insert(id); } }
            for (n, k) in &found { let id = format!("after {n} {k}"); if self.want.contains(&id) { out.push(mark(&id)); self.placed.insert(id); } }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let lp = matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_));
        let no = self.loops;
        if lp { self.loops += 1; }
        visit_mut::visit_expr_mut(self, e);
        if lp {
            let (t, bo) = (format!("loop {no} top"), format!("loop {no} bottom"));
            let inv = format!("loop {no}");
            let body = match e { Expr::ForLoop(f) => &mut f.body, Expr::While(w) => &mut w.body, Expr::Loop(l) => &mut l.body, _ => unreachable!() };
            if self.want.contains(&t) { body.stmts.insert(0, mark(&t)); self.placed.insert(t); }
            if self.want.contains(&bo) {
                body.stmts = seal(std::mem::take(&mut body.stmts));
                body.stmts.push(mark(&bo)); self.placed.insert(bo);
            }
            if self.want.contains(&inv) { body.stmts.insert(0, mark(&inv)); self.placed.insert(inv); }
            if let Expr::ForLoop(f) = e && self.its.contains(&no) {
                let m = Ident::new(&format!("__vx_it{no}"), Span::call_site());
                let ex = &f.expr;
                *f.expr = parse_quote!(#m!(#ex));
            }
        }
    }
}

// ---------------------------------------------------------------- finding items
fn parse_src(repo: &Path, p: &str) -> Option<File> {
    let s = std::fs::read_to_string(repo.join(p)).ok()?;
    parse_file(&s).ok()
}
fn self_name(t: &Type) -> String { match t { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), Type::Reference(r) => self_name(&r.elem), _ => String::new() } }
fn find_fn(items: &[Item], ty: Option<&str>, name: &str) -> Option<ItemFn> {
    for i in items {
        match i {
            Item::Fn(f) if ty.is_none() && f.sig.ident == name => return Some(f.clone()),
            Item::Impl(im) if ty.is_some() => {
                let t = ty.unwrap();
                let ok = match t.split_once(" for ") {
                    Some((tr, st)) => self_name(&im.self_ty) == st && im.trait_.as_ref().map(|x| { let g = x.1.segments.last().unwrap(); g.ident == tr || g.to_token_stream().to_string().replace(' ', "") == tr }).unwrap_or(false),
                    None => self_name(&im.self_ty) == t,
                };
                if ok { for ii in &im.items { if let ImplItem::Fn(f) = ii && f.sig.ident == name {
                    return Some(ItemFn { attrs: vec![], vis: f.vis.clone(), sig: f.sig.clone(), block: Box::new(f.block.clone()) });
                } } }
            }
            Item::Mod(m) if !is_test(&m.attrs) => if let Some((_, its)) = &m.content && let Some(f) = find_fn(its, ty, name) { return Some(f) },
            _ => {}
        }
    }
    None
}
fn is_test(a: &[Attribute]) -> bool { a.iter().any(|x| x.to_token_stream().to_string().contains("test")) }
fn crate_root(p: &str) -> PathBuf { let mut b = PathBuf::from(p); while b.pop() { if b.ends_with("src") { return b; } } PathBuf::from(p).parent().unwrap().into() }
fn rs_files(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v { if p.is_dir() { rs_files(&p, out) } else if p.extension().map(|e| e == "rs").unwrap_or(false) { out.push(p) } }
}
fn locate_fn(repo: &Path, path: &str, spec: &str) -> Option<(String, ItemFn)> {
    let (ty, name) = match spec.rsplit_once("::") { Some((t, n)) => (Some(t), n), None => (None, spec) };
    if let Some(f) = parse_src(repo, path).and_then(|f| find_fn(&f.items, ty, name)) { return Some((path.into(), f)); }
    // moved within its crate
    let mut fs = vec![];
    rs_files(&repo.join(crate_root(path)), &mut fs);
    let mut hits = vec![];
    for p in fs {
        let rel = p.strip_prefix(repo).unwrap().to_string_lossy().to_string();
        if let Some(f) = parse_src(repo, &rel).and_then(|f| find_fn(&f.items, ty, name)) { hits.push((rel, f)); }
    }
    if hits.len() == 1 { hits.pop() } else { None }
}
/// `fn name(..) {..}` or `let name = |a: T, ..| {..};` inside f
fn inner_fn(f: &ItemFn, name: &str) -> Option<ItemFn> {
    struct F<'a> { name: &'a str, out: Option<ItemFn> }
    impl<'a, 'b> syn::visit::Visit<'b> for F<'a> {
        fn visit_item_fn(&mut self, g: &'b ItemFn) { if self.out.is_none() && g.sig.ident == self.name { self.out = Some(g.clone()); } }
        fn visit_local(&mut self, l: &'b Local) {
            if let Pat::Ident(p) = &l.pat && p.ident == self.name && let Some(i) = &l.init && let Expr::Closure(k) = &*i.expr && self.out.is_none() {
                let mut g: ItemFn = parse_quote!(fn closure() { });
                for a in &k.inputs { if let Pat::Type(t) = a { g.sig.inputs.push(FnArg::Typed(t.clone())); } else { return; } }
                g.sig.output = k.output.clone();
                g.block = match &*k.body { Expr::Block(b) => Box::new(b.block.clone()), e => Box::new(parse_quote!({ #e })) };
                self.out = Some(g);
            }
        }
    }
    let mut v = F { name, out: None };
    syn::visit::Visit::visit_block(&mut v, &f.block);
    v.out
}
fn find_item(items: &[Item], name: &str) -> Option<Item> {
    for i in items {
        let hit = match i {
            Item::Struct(s) => s.ident == name, Item::Enum(s) => s.ident == name, Item::Const(s) => s.ident == name, Item::Type(s) => s.ident == name,
            Item::Mod(m) if !is_test(&m.attrs) => { if let Some((_, its)) = &m.content && let Some(x) = find_item(its, name) { return Some(x) } false }
            _ => false,
        };
        if hit { return Some(i.clone()); }
    }
    None
}

// ---------------------------------------------------------------- templates
struct FnDir { recv: Option<String>, param: String, path: String, spec: String, contract: String, ret: String, attr: String, rename: Option<String>, ghost: BTreeMap<String, String>, its: BTreeMap<usize, String>, rw: Vec<Rule>, rws: Vec<Rule>, rwt: Vec<Rule>, from: Option<Rule>, to: Option<Rule>, sig: String, yields: String, pats: Vec<Rule> }

struct Ctx { repo: PathBuf, stubs: HashSet<String>, out: String, rw: Vec<Rule>, rws: Vec<Rule>, rwt: Vec<Rule>, used: HashSet<PathBuf>, report: Vec<serde_json::Value>, }

fn strip_attrs_fn(f: &mut ItemFn) {
    struct S;
    impl VisitMut for S { fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); } }
    S.visit_item_fn_mut(f);
}
fn strip_attrs_item(f: &mut Item) {
    struct S;
    impl VisitMut for S {
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
        fn visit_visibility_mut(&mut self, v: &mut Visibility) { *v = parse_quote!(pub); }
        fn visit_fields_named_mut(&mut self, f: &mut FieldsNamed) { for x in f.named.iter_mut() { x.vis = parse_quote!(pub); } visit_mut::visit_fields_named_mut(self, f); }
        fn visit_variant_mut(&mut self, v: &mut Variant) { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); } }
    }
    S.visit_item_mut(f);
}
fn indent(s: &str, n: usize) -> String { s.lines().map(|l| format!("{}{}\n", " ".repeat(n), l)).collect() }

/// the statements from the first match of `from` to the next match of `to` in the same block
fn find_stmts(b: &Block, from: &Rule, to: &Rule) -> Option<Vec<Stmt>> {
    struct F<'a> { from: &'a Rule, to: &'a Rule, out: Option<Vec<Stmt>> }
    impl<'a, 'b> syn::visit::Visit<'b> for F<'a> {
        fn visit_block(&mut self, b: &'b Block) {
            if self.out.is_some() { return; }
            let hit = |r: &Rule, s: &Stmt| matches(&r.pat, &toks(s.to_token_stream()), &mut BTreeMap::new());
            if let Some(i) = b.stmts.iter().position(|s| hit(self.from, s)) && let Some(k) = b.stmts[i..].iter().position(|s| hit(self.to, s)) {
                self.out = Some(b.stmts[i..=i + k].to_vec());
                return;
            }
            syn::visit::visit_block(self, b);
        }
    }
    let mut f = F { from, to, out: None };
    syn::visit::Visit::visit_block(&mut f, b);
    f.out
}

fn emit_fn(c: &mut Ctx, d: FnDir) {
    let name = d.rename.clone().unwrap_or_else(|| d.spec.rsplit([':', '>']).next().unwrap().to_string());
    let found = match (if d.spec.contains('<') { None } else { d.spec.split_once('>') }) {
        // a function or closure defined inside another one (or moved out of it)
        Some((o, n)) => locate_fn(&c.repo, &d.path, o).and_then(|(p, f)| inner_fn(&f, n).map(|g| (p, g))).or_else(|| locate_fn(&c.repo, &d.path, n)),
        None => locate_fn(&c.repo, &d.path, &d.spec),
    };
    let Some((path, mut f)) = found else {
        c.report.push(serde_json::json!({"fn": d.spec, "as": name, "path": d.path, "status": "lost", "why": "function not found"}));
        return;
    };
    if let Some(from) = &d.from {
        let Some(stmts) = find_stmts(&f.block, from, d.to.as_ref().unwrap_or(from)) else {
            c.report.push(serde_json::json!({"fn": d.spec, "as": name, "path": d.path, "status": "lost", "why": "statements not found"}));
            return;
        };
        let mut g: ItemFn = parse_str(&format!("fn frag{} {{ }}", d.sig)).unwrap_or_else(|e| die(&format!("bad sig {}: {e}", d.sig)));
        g.block.stmts = stmts;
        if !d.yields.is_empty() { g.block.stmts.push(Stmt::Expr(parse_str(&d.yields).unwrap_or_else(|_| die("bad yields")), None)); }
        f = g;
    }
    let raw = toks(f.block.to_token_stream()).join(" ");
    strip_attrs_fn(&mut f);
    let mut std = Std::default();
    std.visit_item_fn_mut(&mut f);
    if let Some(FnArg::Receiver(r)) = f.sig.inputs.first_mut() && r.reference.is_none() && r.mutability.is_some() {
        r.mutability = None;
        struct T;
        impl VisitMut for T { fn visit_path_mut(&mut self, p: &mut Path_) { visit_mut::visit_path_mut(self, p); if p.is_ident("self") { *p = parse_quote!(this); } } }
        T.visit_block_mut(&mut f.block);
        f.block.stmts.insert(0, parse_quote!(let mut this = self;));
        *std.counts.entry("mut self -> let mut this = self".into()).or_default() += 1;
    }
    let mut errs = vec![];
    for (e, s, t) in [(&d.rw, &d.rws, &d.rwt), (&c.rw, &c.rws, &c.rwt)] {
        let mut rw = Rw { expr: e, stmt: s, ty: t, err: vec![] };
        rw.visit_item_fn_mut(&mut f);
        errs.extend(rw.err);
    }
    std.visit_item_fn_mut(&mut f); // what the rewrites left behind
    let mut m = Marker { loops: 0, calls: Default::default(), want: d.ghost.keys().cloned().collect(), placed: Default::default(), its: d.its.keys().cloned().collect(), pats: d.pats.clone() };
    m.visit_block_mut(&mut f.block);
    if d.ghost.contains_key("top") { f.block.stmts.insert(0, mark("top")); m.placed.insert("top".into()); }
    if d.ghost.contains_key("bottom") {
        let n = f.block.stmts.len();
        let tail = matches!(f.block.stmts.last(), Some(Stmt::Expr(_, None))) && !matches!(f.sig.output, ReturnType::Default);
        f.block.stmts.insert(if tail { n - 1 } else { n }, mark("bottom")); m.placed.insert("bottom".into());
    }
    let missing: Vec<String> = d.ghost.keys().filter(|k| !m.placed.contains(*k)).cloned().collect();
    let stub = c.stubs.contains(&name);
    // signature
    f.sig.ident = Ident::new(&name, Span::call_site());
    let ret = match &f.sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => format!(" -> ({}: {})", d.ret, t.to_token_stream()) };
    f.sig.output = ReturnType::Default;
    let (wh, mut sig) = (f.sig.generics.where_clause.clone(), f.sig.clone());
    sig.generics.where_clause = None;
    if let Some(r) = &d.recv {
        if let (Some(a @ FnArg::Receiver(_)), Ok(n)) = (sig.inputs.first_mut(), parse_str::<FnArg>(r)) { *a = n; } else { die(&format!("{}: no receiver", d.spec)) }
    }
    if !d.param.is_empty() {
        for p in syn::parse::Parser::parse_str(syn::punctuated::Punctuated::<FnArg, Token![,]>::parse_terminated, &d.param).unwrap_or_else(|_| die("bad param")) { sig.inputs.push(p); }
    }
    let sig_s = sig.to_token_stream().to_string();
    let wh_s = wh.map(|w| w.to_token_stream().to_string()).unwrap_or_default();
    let head = format!("{}pub {}{} {}\n{}", if d.attr.is_empty() { String::new() } else { format!("{}\n", d.attr) }, sig_s, ret, wh_s, indent(&d.contract, 4));
    let line0 = c.out.matches('\n').count() + 1;
    let mut contract_line = 0;
    if stub {
        c.out.push_str(&format!("#[verifier::external_body]\n{head}{{ unimplemented!() }}\n"));
    } else {
        let dummy: ItemFn = { let b = &f.block; parse_quote!(fn __vx_body() #b) };
        let text = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![Item::Fn(dummy)] });
        let mut body = text.trim_start().strip_prefix("fn __vx_body()").expect("body").trim_start().to_string();
        for (n, it) in &d.its {
            let key = format!("__vx_it{n}!(");
            if let Some(p) = body.find(&key) {
                let rest = &body[p + key.len()..];
                let mut depth = 1; let mut e = 0;
                for (k, ch) in rest.char_indices() { match ch { '(' => depth += 1, ')' => { depth -= 1; if depth == 0 { e = k; break; } } _ => {} } }
                body = format!("{}{}: {}{}", &body[..p], it, &rest[..e], &rest[e + 1..]);
            }
        }
        for (k, g) in &d.ghost {
            let key = format!("__vx_{}!();", k.replace([' ', ':'], "_"));
            let is_inv = k.starts_with("loop ") && k.split(' ').count() == 2;
            if let Some(p) = body.find(&key) {
                if is_inv {
                    let open = body[..p].rfind('{').unwrap();
                    body = format!("{}\n{}    {{{}", &body[..open], indent(g, 8), &body[p + key.len()..]);
                } else {
                    let g2 = if let Some(r) = g.trim_start().strip_prefix("//raw") { r.trim_start().to_string() } else { format!("proof {{\n{g}}}\n") };
                    body = format!("{}\n{}{}", &body[..p], indent(&g2, 8), &body[p + key.len()..]);
                }
            }
        }
        body = unghost(body);
        contract_line = line0 + head.matches('\n').count();
        c.out.push_str(&head);
        c.out.push_str(&body);
        if !body.ends_with('\n') { c.out.push('\n'); }
    }
    let line1 = c.out.matches('\n').count();
    let mut rws: Vec<String> = d.rw.iter().chain(&d.rws).chain(&d.rwt).filter(|r| r.hits.get() > 0).map(|r| r.text.clone()).collect();
    rws.extend(std.counts.iter().map(|(k, v)| format!("{k} x{v}")));
    for r in c.rw.iter().chain(&c.rws).chain(&c.rwt) { if r.hits.get() > 0 { rws.push(r.text.clone()); r.hits.set(0); } }
    let mut h = std::collections::hash_map::DefaultHasher::new();
    std::hash::Hash::hash(&raw, &mut h);
    c.report.push(serde_json::json!({"fn": d.spec, "as": name, "path": path, "status": if stub { "stub" } else if !missing.is_empty() { "lost" } else { "ok" },
        "why": if !missing.is_empty() { format!("no place for ghost code: {}", missing.join(", ")) } else { errs.join("; ") },
        "lines": [line0, line1], "body_line": contract_line, "rewrites": rws, "tokens": raw.split(' ').count(), "body_hash": format!("{:x}", std::hash::Hasher::finish(&h)), "trusted": d.attr.contains("external_body")}));
}

fn emit_item(c: &mut Ctx, path: &str, name: &str, derives: &str) {
    let (name, only) = match name.split_once(" only ") { Some((n, o)) => (n.trim(), Some(o)), None => (name, None) };
    let found = parse_src(&c.repo, path).and_then(|f| find_item(&f.items, name));
    let Some(mut i) = found else {
        c.report.push(serde_json::json!({"item": name, "path": path, "status": "lost", "why": "item not found"}));
        return;
    };
    strip_attrs_item(&mut i);
    if let Some(o) = only && let Item::Struct(s) = &mut i && let Fields::Named(f) = &mut s.fields {
        let keep: Vec<&str> = o.split(',').map(|x| x.trim()).collect();
        f.named = f.named.iter().filter(|x| keep.contains(&x.ident.as_ref().unwrap().to_string().as_str())).cloned().collect();
    }
    let mut rw = Rw { expr: &c.rw, stmt: &c.rws, ty: &c.rwt, err: vec![] };
    rw.visit_item_mut(&mut i);
    if !derives.is_empty() { c.out.push_str(&format!("#[derive({derives})]\n")); }
    c.out.push_str(&prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![i] }));
    c.report.push(serde_json::json!({"item": name, "path": path, "status": "ok"}));
}

fn process(c: &mut Ctx, tpl: &Path) { process_with(c, tpl, &[]) }
fn process_with(c: &mut Ctx, tpl: &Path, subst: &[(String, String)]) {
    let full = tpl.canonicalize().unwrap_or_else(|_| die(&format!("no template {}", tpl.display())));
    if !c.used.insert(full.clone()) { return; }
    let mut text = std::fs::read_to_string(&full).unwrap();
    for (k, v) in subst { text = text.replace(k.as_str(), v); }
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let Some(dir) = l.trim_start().strip_prefix("//@ ") else { c.out.push_str(l); c.out.push('\n'); i += 1; continue };
        let (k, arg) = dir.trim().split_once(' ').map(|(a, b)| (a, b.trim())).unwrap_or((dir.trim(), ""));
        match k {
            "use" => {
                let mut ws = arg.split_whitespace();
                let p = full.parent().unwrap().join(ws.next().unwrap());
                let sub: Vec<(String, String)> = ws.map(|w| { let (a, b) = w.split_once('=').unwrap_or_else(|| die(w)); (a.to_string(), b.to_string()) }).collect();
                process_with(c, &p, &sub);
            }
            "rw" => c.rw.push(parse_rule(arg)),
            "rwstmt" => c.rws.push(parse_rule(arg)),
            "rwtype" => c.rwt.push(parse_rule(arg)),
            "item" => {
                let (p, n) = arg.split_once(' ').unwrap();
                let mut dv = String::new();
                if i + 1 < lines.len() && let Some(x) = lines[i + 1].trim_start().strip_prefix("//@ derive ") { dv = x.trim().into(); i += 1; }
                emit_item(c, p, n.trim(), &dv);
            }
            "fn" => {
                let (p, n) = arg.split_once(' ').unwrap();
                let mut d = FnDir { recv: None, param: String::new(), path: p.into(), spec: n.trim().into(), contract: String::new(), ret: "r".into(), attr: String::new(), rename: None, ghost: Default::default(), its: Default::default(), rw: vec![], rws: vec![], rwt: vec![], from: None, to: None, sig: String::new(), yields: String::new(), pats: vec![] };
                let mut cur: Option<String> = None;
                i += 1;
                loop {
                    if i >= lines.len() { die(&format!("{}: fn {} without end", tpl.display(), n)); }
                    let l = lines[i];
                    if let Some(dir) = l.trim_start().strip_prefix("//@ ") {
                        let (k, arg) = dir.trim().split_once(' ').map(|(a, b)| (a, b.trim())).unwrap_or((dir.trim(), ""));
                        match k {
                            "end" => break,
                            "ret" => d.ret = arg.into(),
                            "attr" => { if !d.attr.is_empty() { d.attr.push('\n'); } d.attr.push_str(arg); }
                            "rename" => d.rename = Some(arg.into()),
                            "from" => d.from = Some(parse_rule(&format!("{arg} => x"))),
                            "to" => d.to = Some(parse_rule(&format!("{arg} => x"))),
                            "sig" => d.sig = arg.into(),
                            "yields" => d.yields = arg.into(),
                            "ahead" | "behind" => { let key = format!("{k} {}", d.pats.len()); d.pats.push(parse_rule(&format!("{arg} => x"))); d.ghost.insert(key.clone(), String::new()); cur = Some(key); }
                            "recv" => d.recv = Some(arg.to_string()),
                            "param" => { if !d.param.is_empty() { d.param.push_str(", "); } d.param.push_str(arg); }
                            "rw" => d.rw.push(parse_rule(arg)),
                            "rwstmt" => d.rws.push(parse_rule(arg)),
                            "rwtype" => d.rwt.push(parse_rule(arg)),
                            "loop" => {
                                let w: Vec<&str> = arg.split_whitespace().collect();
                                let key = match w.get(1).copied() {
                                    Some(x @ ("top" | "bottom" | "before" | "after")) => format!("loop {} {}", w[0], x),
                                    Some(it) => { d.its.insert(w[0].parse().unwrap(), it.into()); format!("loop {}", w[0]) }
                                    None => format!("loop {}", w[0]),
                                };
                                d.ghost.entry(key.clone()).or_default();
                                cur = Some(key);
                            }
                            "top" | "bottom" => { d.ghost.entry(k.into()).or_default(); cur = Some(k.into()); }
                            "after" | "before" => { let key = format!("{k} {arg}"); d.ghost.entry(key.clone()).or_default(); cur = Some(key); }
                            _ => die(&format!("unknown directive {l}")),
                        }
                    } else {
                        let t = match &cur { None => &mut d.contract, Some(k) => d.ghost.get_mut(k).unwrap() };
                        t.push_str(l.trim_end()); t.push('\n');
                    }
                    i += 1;
                }
                emit_fn(c, d);
            }
            _ => die(&format!("unknown directive {l}")),
        }
        i += 1;
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 { die("usage: extract REPO TEMPLATE OUT.rs OUT.json [--stub f,g]"); }
    let stubs = a.iter().position(|x| x == "--stub").and_then(|k| a.get(k + 1)).map(|s| s.split(',').filter(|x| !x.is_empty()).map(String::from).collect()).unwrap_or_default();
    let mut c = Ctx { repo: PathBuf::from(&a[1]), stubs, out: String::new(), rw: vec![], rws: vec![], rwt: vec![], used: Default::default(), report: vec![] };
    process(&mut c, Path::new(&a[2]));
    let _ = quote!();
    std::fs::write(&a[3], &c.out).unwrap();
    std::fs::write(&a[4], serde_json::to_string_pretty(&c.report).unwrap()).unwrap();
}
