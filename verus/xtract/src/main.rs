//! Mechanical extraction of functions from /repo/src into a Verus file.
//!
//! usage: xtract <repo src dir> <spec file> <out file>
//!
//! The spec file names the types and functions to take and carries their contracts.  Everything
//! executable in the output comes from the repository's current source; the rewrites made on the
//! way are the ones listed in DESIGN.md ("extraction").  stdout reports one line per function and
//! per lost anchor.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{ToTokens, quote};
use std::collections::{BTreeMap, HashMap};
use syn::visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default, Clone)]
struct FnSpec {
    file: String,
    self_ty: String,
    trait_: Option<String>,
    name: String,
    ret: String,
    rename: Option<String>,
    props: String,
    spec: String,
    head: String,
    closures: BTreeMap<usize, (String, String)>,
    loops: BTreeMap<usize, String>,
    anchors: Vec<(String, String)>,
    shape: Option<String>,
    retty: Option<String>,
    free: bool,
    inside: bool,
    tparams: Vec<String>,
    /// parameters whose `Clone` bound is left out (closures are not known to be `Clone`)
    noclone: Vec<String>,
    /// the file of the trait whose provided method is used when the implementation does not define the function
    provided: Option<String>,
    /// ... also when the implementation does define it (what another implementation would inherit)
    default: bool,
    hoist: Vec<usize>,
    /// `calls m=n`: the method `m` is called `n`, in this function only
    calls: Vec<(String, String)>,
}
enum Entry {
    Raw(String),
    Type { file: String, name: String, attr: String },
    Const { file: String, name: String },
    Open { file: String, self_ty: String, trait_: String, text: String },
    Fn(Box<FnSpec>),
}
#[derive(Default)]
struct Settings {
    methods: HashMap<String, String>,
    paths: HashMap<String, String>,
    ctors: HashMap<String, (String, Vec<String>)>,
    bounds: HashMap<String, String>,
    assoc: HashMap<(String, String), String>,
    /// `dyn Fn` becomes `dyn FunN`: "" (off), "val", or "ref" (single reference arguments take FunR1)
    dynfn: String,
}

/// The text of a spec file with its `//@ include NAME` lines replaced.
fn include(path: &str) -> String {
    let dir = std::path::Path::new(path).parent().unwrap();
    let mut s = String::new();
    for l in std::fs::read_to_string(path).unwrap().lines() {
        match l.trim().strip_prefix("//@ include ") {
            Some(n) => s.push_str(&include(dir.join(n.trim()).to_str().unwrap())),
            None => s.push_str(l),
        }
        s.push('\n');
    }
    s
}

/// The control structure of a function, as the annotations of its proof refer to it.
struct Skeleton(String);
impl Skeleton {
    fn within(&mut self, open: &str, f: impl FnOnce(&mut Self)) {
        self.0.push_str(open);
        self.0.push('{');
        f(self);
        self.0.push('}');
    }
}
impl<'a> visit::Visit<'a> for Skeleton {
    fn visit_expr_if(&mut self, e: &'a ExprIf) {
        let neg = matches!(&*e.cond, Expr::Unary(u) if matches!(u.op, UnOp::Not(_)));
        let lets = matches!(&*e.cond, Expr::Let(_));
        self.visit_expr(&e.cond);
        self.within(if neg { "if!" } else if lets { "iflet" } else { "if" }, |s| s.visit_block(&e.then_branch));
        if let Some((_, b)) = &e.else_branch {
            self.within("else", |s| s.visit_expr(b));
        }
    }
    fn visit_expr_match(&mut self, e: &'a ExprMatch) {
        self.visit_expr(&e.expr);
        self.within("match", |s| {
            for a in &e.arms {
                s.visit_pat(&a.pat);
                s.0.push_str(if a.guard.is_some() { "if>" } else { ">" });
                s.visit_expr(&a.body);
            }
        });
    }
    fn visit_pat(&mut self, p: &'a Pat) {
        match p {
            Pat::TupleStruct(t) => self.0.push_str(&t.path.segments.last().unwrap().ident.to_string()),
            Pat::Struct(t) => self.0.push_str(&t.path.segments.last().unwrap().ident.to_string()),
            Pat::Wild(_) => self.0.push('_'),
            _ => {},
        }
        visit::visit_pat(self, p);
    }
    fn visit_local(&mut self, l: &'a Local) {
        // the pattern of a plain `let` is not structure
        if let Some(i) = &l.init {
            self.visit_expr(&i.expr);
            if let Some((_, d)) = &i.diverge {
                self.within("letelse", |s| s.visit_expr(d));
            }
        }
    }
    fn visit_expr_for_loop(&mut self, e: &'a ExprForLoop) {
        self.visit_expr(&e.expr);
        self.within("for", |s| s.visit_block(&e.body));
    }
    fn visit_expr_while(&mut self, e: &'a ExprWhile) {
        self.visit_expr(&e.cond);
        self.within("while", |s| s.visit_block(&e.body));
    }
    fn visit_expr_loop(&mut self, e: &'a ExprLoop) {
        self.within("loop", |s| s.visit_block(&e.body));
    }
    fn visit_expr_closure(&mut self, e: &'a ExprClosure) {
        self.within("fn", |s| s.visit_expr(&e.body));
    }
    fn visit_expr_try(&mut self, e: &'a ExprTry) {
        visit::visit_expr_try(self, e);
        self.0.push('?');
    }
    fn visit_expr_return(&mut self, e: &'a ExprReturn) {
        visit::visit_expr_return(self, e);
        self.0.push_str("return;");
    }
    fn visit_expr_break(&mut self, e: &'a ExprBreak) {
        visit::visit_expr_break(self, e);
        self.0.push_str("break;");
    }
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.0.push_str("continue;");
    }
}

fn parse_spec(text: &str) -> (Vec<Entry>, Settings) {
    let mut entries = Vec::new();
    let mut st = Settings::default();
    enum Cur {
        None,
        Raw,
        Open,
        Spec,
        Closure(usize),
        Loop(usize),
        Anchor(usize),
    }
    let mut cur = Cur::None;
    for line in text.lines() {
        let t = line.trim();
        if let Some(d) = t.strip_prefix("//@") {
            let w: Vec<&str> = d.split_whitespace().collect();
            match w[0] {
                "raw" => {
                    entries.push(Entry::Raw(String::new()));
                    cur = Cur::Raw;
                },
                "type" => {
                    entries.push(Entry::Type { file: w[1].into(), name: w[2].into(), attr: w[3..].join(" ") });
                    cur = Cur::None;
                },
                "const" => {
                    entries.push(Entry::Const { file: w[1].into(), name: w[2].into() });
                    cur = Cur::None;
                },
                // the header of a trait implementation, followed by the text up to the next directive
                "open" => {
                    let (ty, tr) = w[2].split_once('[').expect("TYPE[TRAIT]");
                    entries.push(Entry::Open { file: w[1].into(), self_ty: ty.into(), trait_: tr.strip_suffix(']').unwrap().into(), text: String::new() });
                    cur = Cur::Open;
                },
                "method" => {
                    st.methods.insert(w[1].into(), w[2].into());
                },
                "ctor" => {
                    st.ctors.insert(w[1].into(), (w[2].into(), w[3..].iter().map(|x| x.to_string()).collect()));
                },
                "path" => {
                    st.paths.insert(w[1].into(), w[2].into());
                },
                "bound" => {
                    st.bounds.insert(w[1].into(), w[2].into());
                },
                "assoc" => {
                    st.assoc.insert((w[1].into(), w[2].into()), w[3..].join(" "));
                },
                "dyn" => st.dynfn = w.get(1).unwrap_or(&"val").to_string(),
                "fn" => {
                    // fn FILE TYPE[TRAIT]::NAME ret r [as NAME2] [props C01,C02]
                    let mut f = FnSpec { file: w[1].into(), ret: "r".into(), ..Default::default() };
                    let (ty, name) = w[2].rsplit_once("::").unwrap_or(("-", w[2]));
                    f.name = name.into();
                    match ty.split_once('[') {
                        Some((a, b)) if !a.is_empty() => {
                            f.self_ty = a.into();
                            f.trait_ = Some(b.strip_suffix(']').unwrap_or(b).into());
                        },
                        Some(_) => f.self_ty = ty.into(),
                        None => f.self_ty = ty.into(),
                    }
                    let mut i = 3;
                    while i < w.len() {
                        if w[i] == "free" || w[i] == "inside" {
                            if w[i] == "free" { f.free = true } else { f.inside = true }
                            i += 1;
                            continue;
                        }
                        match w[i] {
                            "ret" => f.ret = w[i + 1].into(),
                            "as" => f.rename = Some(w[i + 1].into()),
                            "provided" => f.provided = Some(w[i + 1].into()),
                            "default" => {
                                f.provided = Some(w[i + 1].into());
                                f.default = true;
                            }
                            "props" => f.props = w[i + 1].into(),
                            "noclone" => f.noclone = w[i + 1].split(',').map(|x| x.to_string()).collect(),
                            "calls" => f.calls = w[i + 1].split(',').map(|x| { let (a, b) = x.split_once('=').unwrap(); (a.into(), b.into()) }).collect(),
                            "tparams" => f.tparams = w[i + 1].split(',').map(|x| x.to_string()).collect(),
                            x => panic!("unknown word {x} in {line}"),
                        }
                        i += 2;
                    }
                    entries.push(Entry::Fn(Box::new(f)));
                    cur = Cur::Spec;
                },
                "closure" | "loop" | "shape" | "at" | "attr" | "retty" | "hoist" => {
                    let Some(Entry::Fn(f)) = entries.last_mut() else { panic!("directive outside fn: {line}") };
                    match w[0] {
                        "closure" => {
                            let k: usize = w[1].parse().unwrap();
                            f.closures.insert(k, (w[2..].join(" "), String::new()));
                            cur = Cur::Closure(k);
                        },
                        "loop" => {
                            let k: usize = w[1].parse().unwrap();
                            f.loops.insert(k, String::new());
                            cur = Cur::Loop(k);
                        },
                        // the closure is bound to `__cK` just before its statement, so that proofs can name it
                        "hoist" => f.hoist.push(w[1].parse().unwrap()),
                        "shape" => f.shape = Some(w[1..].join(" ")),
                        "retty" => f.retty = Some(w[1..].join(" ")),
                        "attr" => f.head.push_str(&w[1..].join(" ")),
                        _ => {
                            f.anchors.push((w[1..].join(" "), String::new()));
                            cur = Cur::Anchor(f.anchors.len() - 1);
                        },
                    }
                },
                "end" => cur = Cur::None,
                x => panic!("unknown directive {x}"),
            }
            continue;
        }
        let add = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match &cur {
            Cur::None => assert!(t.is_empty() || t.starts_with("//"), "stray text: {line}"),
            Cur::Raw => {
                if let Some(Entry::Raw(s)) = entries.last_mut() {
                    add(s)
                }
            },
            Cur::Open => {
                if let Some(Entry::Open { text, .. }) = entries.last_mut() {
                    add(text)
                }
            },
            c => {
                let Some(Entry::Fn(f)) = entries.last_mut() else { unreachable!() };
                match c {
                    Cur::Spec => add(&mut f.spec),
                    Cur::Closure(k) => add(&mut f.closures.get_mut(k).unwrap().1),
                    Cur::Loop(k) => add(f.loops.get_mut(k).unwrap()),
                    Cur::Anchor(k) => add(&mut f.anchors[*k].1),
                    _ => unreachable!(),
                }
            },
        }
    }
    (entries, st)
}

fn norm(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

/// Texts spliced into the output, addressed by the number in a `__vp!(n)` marker.
#[derive(Default)]
struct Texts(Vec<String>);
impl Texts {
    fn add(&mut self, s: String) -> TokenStream {
        self.0.push(s);
        let n = proc_macro2::Literal::usize_unsuffixed(self.0.len() - 1);
        quote!(__vp!(#n);)
    }
}

struct Rewrite<'a> {
    st: &'a Settings,
    f: &'a FnSpec,
    texts: &'a mut Texts,
    lost: Vec<String>,
    closures: usize,
    loops: usize,
    ifs: usize,
    arms: usize,
    lets: HashMap<String, usize>,
    used: Vec<bool>,
    fresh: usize,
    hoisted: Vec<(Ident, Expr)>,
    /// names bound in the function by `let`, a pattern or a closure
    bound: std::collections::HashSet<String>,
    /// locals holding a fresh pointer to a closure
    unsize: std::collections::HashSet<String>,
    /// the type keeps functions that are called once: calls of its fields stay as they are
    once: bool,
}
/// The names patterns bind.
#[derive(Default)]
struct Bound(std::collections::HashSet<String>);
impl<'a> visit::Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}
fn bare_type(s: &str) -> String {
    s.split('<').next().unwrap().into()
}
fn ident(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}
fn stmts(ts: TokenStream) -> Vec<Stmt> {
    let b: Block = parse2(quote!({ #ts })).unwrap();
    b.stmts
}
impl Rewrite<'_> {
    fn anchor(&mut self, name: &str) -> Option<Vec<Stmt>> {
        let mut out = Vec::new();
        for i in 0..self.f.anchors.len() {
            if self.f.anchors[i].0 == name {
                self.used[i] = true;
                let t = self.f.anchors[i].1.clone();
                let m = self.texts.add(t);
                out.extend(stmts(m));
            }
        }
        if out.is_empty() { None } else { Some(out) }
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        ident(&format!("__{}{}", p, self.fresh))
    }
    /// Takes reference subpatterns out of a pattern: `&x` becomes a fresh name and `let x = *fresh;`.
    fn unref(&mut self, p: &mut Pat, lets: &mut Vec<Stmt>) {
        match p {
            Pat::Reference(r) => {
                let n = self.fresh("r");
                let inner = &r.pat;
                lets.extend(stmts(quote!(let #inner = *#n;)));
                *p = parse_pat(quote!(#n));
            },
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|e| self.unref(e, lets)),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|e| self.unref(e, lets)),
            Pat::Paren(t) => self.unref(&mut t.pat, lets),
            _ => {},
        }
    }
    fn closure(&mut self, c: &mut ExprClosure) -> Expr {
        let k = self.closures;
        self.closures += 1;
        let mut pre = Vec::new();
        let mut names: Vec<(Ident, Pat)> = Vec::new();
        let mut params: Vec<TokenStream> = Vec::new();
        for (i, p) in c.inputs.iter_mut().enumerate() {
            let (pat, ty) = match p {
                Pat::Type(t) => ((*t.pat).clone(), Some(t.ty.clone())),
                p => (p.clone(), None),
            };
            let n = match &pat {
                Pat::Ident(x) if x.subpat.is_none() => x.ident.clone(),
                Pat::Wild(_) => ident(&format!("__p{i}")),
                _ => {
                    let n = ident(&format!("__p{i}"));
                    let mut pat = pat.clone();
                    if let Pat::Reference(r) = &pat {
                        let inner = &r.pat;
                        pre.extend(stmts(quote!(let #inner = *#n;)));
                    } else {
                        let mut lets = Vec::new();
                        self.unref(&mut pat, &mut lets);
                        pre.extend(stmts(quote!(let #pat = #n;)));
                        pre.extend(lets);
                    }
                    n
                },
            };
            names.push((n.clone(), pat.clone()));
            params.push(match ty {
                Some(t) => quote!(#n: #t),
                None => quote!(#n),
            });
        }
        let tail = self.anchor(&format!("closure {k} tail"));
        if (tail.is_some() || self.f.hoist.iter().any(|h| *h > k)) && !matches!(&*c.body, Expr::Block(b) if b.attrs.is_empty() && b.label.is_none()) {
            let b = &c.body;
            *c.body = parse_quote!({ #b });
        }
        self.visit_expr_mut(&mut c.body);
        if let Some(p) = tail
            && let Expr::Block(b) = &mut *c.body
        {
            let s = &mut b.block.stmts;
            let at = if matches!(s.last(), Some(Stmt::Expr(_, None))) { s.len() - 1 } else { s.len() };
            s.splice(at..at, p);
        }
        let body = &c.body;
        let mv = &c.capture;
        let mut inner = quote!(#(#pre)*);
        match &**body {
            Expr::Block(b) if b.attrs.is_empty() && b.label.is_none() => {
                let s = &b.block.stmts;
                inner.extend(quote!(#(#s)*));
            },
            e => inner.extend(quote!(#e)),
        }
        let head = match self.f.closures.get(&k) {
            Some((head, spec)) => format!("{head}\n{spec}"),
            None => String::new(),
        };
        if head.is_empty() {
            let out = &c.output;
            let body = if matches!(out, ReturnType::Default) && pre.is_empty() && !matches!(**body, Expr::Block(_)) { quote!(#body) } else { quote!({#inner}) };
            return self.place(k, Expr::Verbatim(quote!(#mv |#(#params),*| #out #body)));
        }
        // the code may name its parameters otherwise than the contract
        let given = head_params(&head);
        if given.len() == names.len() {
            let differ: Vec<(&str, &Ident, &Pat)> = given.iter().zip(&names).filter(|(g, (n, p))| n != *g && !matches!(p, Pat::Wild(_))).map(|(g, (n, p))| (g.as_str(), n, p)).collect();
            if !differ.is_empty() {
                let text = inner.to_string();
                let used = |x: &str| text.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == x);
                if differ.iter().any(|(g, _, _)| used(g) && !names.iter().any(|(n, _)| n == g)) {
                    self.lost.push("a closure's parameter".into());
                }
                let to = differ.iter().map(|(_, n, p)| match p {
                    Pat::Ident(i) if i.mutability.is_some() => quote!(mut #n),
                    _ => quote!(#n),
                });
                let from = differ.iter().map(|(g, _, _)| ident(g));
                inner = if differ.len() == 1 { quote!(let #(#to)* = #(#from)*; #inner) } else { quote!(let (#(#to),*) = (#(#from),*); #inner) };
            }
        }
        let m = self.texts.add(head);
        self.place(k, Expr::Verbatim(quote!(#mv #m {#inner})))
    }
    fn place(&mut self, k: usize, e: Expr) -> Expr {
        if !self.f.hoist.contains(&k) {
            return e;
        }
        let n = ident(&format!("__c{k}"));
        self.hoisted.push((n.clone(), e));
        parse_quote!(#n)
    }
    fn loop_spec(&mut self, k: usize, b: &mut Block) {
        if let Some(mut s) = self.anchor(&format!("loop {k} start")) {
            s.append(&mut b.stmts);
            b.stmts = s;
        }
        if let Some(s) = self.anchor(&format!("loop {k} end")) {
            b.stmts.extend(s);
        }
        if let Some(t) = self.f.loops.get(&k) {
            let m = self.texts.add(t.clone());
            let mut s = stmts(quote!(__vp_head!{#m}));
            s.append(&mut b.stmts);
            b.stmts = s;
        }
    }
}
/// The names of the parameters in `|a: A, b: B| -> ..`.
fn head_params(head: &str) -> Vec<String> {
    let Some(i) = head.find('|') else { return Vec::new() };
    let (mut depth, mut cur, mut out) = (0, String::new(), Vec::new());
    let mut prev = ' ';
    for c in head[i + 1..].chars() {
        match c {
            '|' if depth == 0 => break,
            '(' | '[' | '<' => depth += 1,
            ')' | ']' => depth -= 1,
            '>' if prev != '-' => depth -= 1,
            _ => {},
        }
        if c == ',' && depth == 0 {
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push(c);
        }
        prev = c;
    }
    out.push(cur);
    out.iter().map(|x| x.split(':').next().unwrap().trim().trim_start_matches("mut ").to_string()).filter(|x| !x.is_empty()).collect()
}
fn parse_pat(ts: TokenStream) -> Pat {
    syn::parse::Parser::parse2(Pat::parse_single, ts).unwrap()
}
/// Splits `a && let P = e && b` into its parts.
fn conj(e: &Expr, out: &mut Vec<Expr>) {
    match e {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
            conj(&b.left, out);
            conj(&b.right, out);
        },
        e => out.push(e.clone()),
    }
}
const DROP: &[&str] = &["doc", "inline", "must_use", "allow", "deprecated", "derive", "repr", "track_caller", "cold", "expect"];
impl VisitMut for Rewrite<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        for x in a.iter() {
            let n = norm(x.path());
            // the feature under which the function exists is the configuration that is verified
            let feature = n == "cfg" && norm(&x.meta).replace(' ', "") == "cfg(feature=\"async\")";
            if !DROP.contains(&n.as_str()) && !feature {
                self.lost.push(format!("attribute {n}"));
            }
        }
        a.clear();
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = Vec::new();
        for mut s in std::mem::take(&mut b.stmts) {
            if matches!(s, Stmt::Item(Item::Use(_))) {
                continue;
            }
            let mut after = None;
            let mut lets = Vec::new();
            if let Stmt::Local(l) = &mut s {
                if let Pat::Ident(p) = &l.pat
                    && let Some(i) = &l.init
                    && let Expr::Call(c) = &*i.expr
                    && matches!(norm(&c.func).as_str(), "Box::new" | "Arc::new" | "Rc::new")
                    && matches!(c.args.first(), Some(Expr::Closure(_)))
                {
                    self.unsize.insert(p.ident.to_string());
                }
                self.unref(&mut l.pat, &mut lets);
                let n = match &l.pat {
                    Pat::Type(t) => norm(&t.pat),
                    p => norm(p),
                };
                let n = n.trim_start_matches("mut").to_string();
                let c = self.lets.entry(n.clone()).or_insert(0);
                let name = if *c == 0 { format!("let {n}") } else { format!("let {n} {c}") };
                *c += 1;
                after = Some(name);
            }
            let before = self.loops;
            let is_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
            let outer = std::mem::take(&mut self.hoisted);
            visit_mut::visit_stmt_mut(self, &mut s);
            if !self.st.dynfn.is_empty()
                && let Stmt::Local(l) = &mut s
                && matches!(&l.pat, Pat::Type(_))
                && let Some(i) = &mut l.init
                && let Expr::Call(c) = &*i.expr
                && matches!(norm(&c.func).as_str(), "Box::new" | "Arc::new" | "Rc::new")
            {
                // the unsized value, with its type known to the verifier
                let x = &i.expr;
                *i.expr = Expr::Verbatim(quote!(kept_(#x)));
            }
            for (n, c) in std::mem::replace(&mut self.hoisted, outer) {
                out.push(parse_quote!(let #n = 0;));
                if let Some(Stmt::Local(l)) = out.last_mut() && let Some(i) = &mut l.init {
                    *i.expr = c;
                }
            }
            if is_loop && let Some(p) = self.anchor(&format!("before loop {before}")) {
                out.extend(p);
            }
            out.push(s);
            out.extend(lets);
            if let Some(a) = after
                && let Some(p) = self.anchor(&a)
            {
                out.extend(p);
            }
            if is_loop && let Some(p) = self.anchor(&format!("after loop {before}")) {
                out.extend(p);
            }
        }
        b.stmts = out;
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let k = self.arms;
        self.arms += 1;
        let mut lets = Vec::new();
        if a.guard.is_none() {
            self.unref(&mut a.pat, &mut lets);
        }
        visit_mut::visit_arm_mut(self, a);
        let p = self.anchor(&format!("arm {k}")).unwrap_or_default();
        if !lets.is_empty() || !p.is_empty() {
            let body = &a.body;
            a.body = match &**body {
                Expr::Block(b) if b.label.is_none() => {
                    let s = &b.block.stmts;
                    Box::new(parse2(quote!({ #(#lets)* #(#p)* #(#s)* })).unwrap_or_else(|_| Expr::Verbatim(quote!({ #(#lets)* #(#p)* #(#s)* }))))
                },
                b => Box::new(Expr::Verbatim(quote!({ #(#lets)* #(#p)* #b }))),
            };
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `method + plus_`: the operator as the method it stands for
        if let Expr::Binary(b) = e
            && matches!(b.op, BinOp::Add(_))
            && let Some(n) = self.st.methods.get("+")
        {
            let (l, r, n) = (&b.left, &b.right, ident(n));
            *e = parse_quote!((#l).#n(#r));
        }
        match e {
            Expr::Closure(c) => {
                *e = self.closure(c);
                return;
            },
            Expr::If(i) => {
                let k = self.ifs;
                self.ifs += 1;
                let mut lets = Vec::new();
                if let Expr::Let(l) = &mut *i.cond {
                    self.unref(&mut l.pat, &mut lets);
                }
                visit_mut::visit_expr_if_mut(self, i);
                let mut s = lets;
                s.extend(self.anchor(&format!("then {k}")).unwrap_or_default());
                s.append(&mut i.then_branch.stmts);
                i.then_branch.stmts = s;
                if let Some(p) = self.anchor(&format!("else {k}"))
                    && let Some((_, b)) = &mut i.else_branch
                    && let Expr::Block(b) = &mut **b
                {
                    let mut s = p;
                    s.append(&mut b.block.stmts);
                    b.block.stmts = s;
                }
                let mut parts = Vec::new();
                conj(&i.cond, &mut parts);
                if parts.len() > 1 && parts.iter().any(|p| matches!(p, Expr::Let(_))) && i.else_branch.is_none() {
                    let mut body = i.then_branch.to_token_stream();
                    for p in parts.iter().rev() {
                        let c = if matches!(p, Expr::Let(_)) { quote!(#p) } else { quote!((#p)) };
                        body = quote!({ if #c #body });
                    }
                    *e = Expr::Verbatim(body);
                }
                return;
            },
            Expr::ForLoop(f) => {
                let k = self.loops;
                self.loops += 1;
                let mut lets = Vec::new();
                let mut pat = (*f.pat).clone();
                let range = matches!(*f.expr, Expr::Range(_)) || matches!(&*f.expr, Expr::Paren(p) if matches!(*p.expr, Expr::Range(_)));
                self.visit_expr_mut(&mut f.expr);
                self.visit_block_mut(&mut f.body);
                if range {
                    if norm(&pat) == "_" {
                        let i = ident(&format!("__i{k}"));
                        *f.pat = parse_quote!(#i);
                    }
                    self.loop_spec(k, &mut f.body);
                    return;
                }
                self.unref(&mut pat, &mut lets);
                let it = ident(&format!("__it{k}"));
                let x = ident(&format!("__x{k}"));
                let expr = &f.expr;
                let mut body = f.body.clone();
                let mut s = lets;
                s.append(&mut body.stmts);
                body.stmts = s;
                self.loop_spec(k, &mut body);
                let mut it_s = body.stmts.into_iter();
                // the loop head marker must stay first
                let mut head = Vec::new();
                let mut rest: Vec<Stmt> = Vec::new();
                for (n, st) in it_s.by_ref().enumerate() {
                    if n == 0 && norm(&st).starts_with("__vp_head!") { head.push(st) } else { rest.push(st) }
                }
                let bind = if norm(&pat) == "_" { quote!() } else { quote!(let #pat = #x;) };
                let label = &f.label;
                let before = self.anchor(&format!("iter {k}")).unwrap_or_default();
                *e = Expr::Verbatim(quote!({ let mut #it = (#expr).into_iter_(); #(#before)* #label while let Some(#x) = #it.next() { #(#head)* #bind #(#rest)* } }));
                return;
            },
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_while_mut(self, w);
                self.loop_spec(k, &mut w.body);
                return;
            },
            Expr::Loop(l) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_loop_mut(self, l);
                self.loop_spec(k, &mut l.body);
                return;
            },
            Expr::Reference(r) => {
                if let Expr::Index(ix) = &*r.expr
                    && let Expr::Range(rg) = &*ix.index
                {
                    let mut b = (*ix.expr).clone();
                    self.visit_expr_mut(&mut b);
                    let mut conv = |o: &Option<Box<Expr>>| {
                        o.as_ref().map(|x| {
                            let mut x = (**x).clone();
                            self.visit_expr_mut(&mut x);
                            x
                        })
                    };
                    let (lo, hi) = (conv(&rg.start), conv(&rg.end));
                    if matches!(rg.limits, RangeLimits::HalfOpen(_)) {
                        *e = match (lo, hi) {
                            (Some(l), Some(h)) => parse_quote!(#b.slice_range_(#l, #h)),
                            (Some(l), None) => parse_quote!(#b.slice_from_(#l)),
                            (None, Some(h)) => parse_quote!(#b.slice_to_(#h)),
                            (None, None) => parse_quote!(#b.slice_from_(0)),
                        };
                        return;
                    }
                    self.lost.push("inclusive range index".into());
                }
            },
            _ => {},
        }
        if let Expr::Index(ix) = &*e
            && matches!(&*ix.index, Expr::Range(_))
        {
            let mut r: Expr = parse_quote!(&#e);
            self.visit_expr_mut(&mut r);
            if !matches!(r, Expr::Reference(_)) {
                *e = Expr::Verbatim(quote!((*#r)));
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if !self.st.dynfn.is_empty() {
            match e {
                // a call of a function value
                Expr::Call(c) => {
                    let mut callee = &*c.func;
                    while let Expr::Paren(p) = callee {
                        callee = &p.expr;
                    }
                    let value = match callee {
                        Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.bound.contains(&i.to_string())),
                        Expr::Field(_) => !self.once,
                        _ => true,
                    };
                    if value {
                        let m = ident(match c.args.len() { 0 => "ca0_", 1 => "ca_", 2 => "ca2_", _ => "ca3_" });
                        let a: Vec<TokenStream> = c.args.iter().map(|x| {
                            let ptr = match x {
                                Expr::Call(c) => matches!(norm(&c.func).as_str(), "Box::new" | "Arc::new" | "Rc::new"),
                                x => self.unsize.contains(&norm(x)),
                            };
                            if ptr { quote!(kept_(#x)) } else { quote!(#x) }
                        }).collect();
                        *e = Expr::Verbatim(quote!(#callee.#m(#(#a),*)));
                    } else if c.args.iter().any(fresh_closure) {
                        let (f, a) = (&c.func, c.args.iter().map(|x| if fresh_closure(x) { quote!(kept_(#x)) } else { quote!(#x) }));
                        *e = Expr::Verbatim(quote!(#f(#(#a),*)));
                    }
                },
                Expr::Cast(c) if norm(&c.ty).contains("dyn") => {
                    let (x, t) = (&c.expr, &c.ty);
                    *e = Expr::Verbatim(quote!({ let __d: #t = kept_(#x); __d }));
                },
                _ => {},
            }
        }
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some(n) = self.f.calls.iter().find(|x| x.0 == name).map(|x| &x.1).or(self.st.methods.get(&name)) {
                    m.method = ident(n);
                    m.turbofish = None;
                }
            },
            Expr::Struct(s) => {
                if let Some((f, names)) = self.st.ctors.get(&norm(&s.path).replace("Self", &self.f.self_ty))
                    && s.rest.is_none()
                    && s.fields.len() == names.len()
                {
                    let f = ident(f);
                    let order: Vec<String> = s.fields.iter().map(|x| norm(&x.member)).collect();
                    let vals: Vec<Expr> = s.fields.iter().map(|x| x.expr.clone()).collect();
                    if order == *names {
                        *e = parse_quote!(#f(#(#vals),*));
                    } else {
                        // keep the order of evaluation
                        let tmp: Vec<Ident> = order.iter().map(|n| ident(&format!("__f_{n}"))).collect();
                        let args: Vec<Ident> = names.iter().map(|n| ident(&format!("__f_{n}"))).collect();
                        *e = Expr::Verbatim(quote!({ #(let #tmp = #vals;)* #f(#(#args),*) }));
                    }
                }
            },
            Expr::Path(p) => {
                let n = norm(&*p);
                let own = bare_type(&self.f.self_ty);
                let bare = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::").replace("Self::", &format!("{own}::"));
                if let Some(r) = self.st.paths.get(&n).or_else(|| self.st.paths.get(&bare)) {
                    *e = parse_str(r).unwrap();
                }
            },
            Expr::Macro(m) => {
                let n = norm(&m.mac.path);
                if n == "vec" {
                    let t: punct = parse2(m.mac.tokens.clone()).unwrap_or_else(|_| {
                        self.lost.push("vec![x; n]".into());
                        punct(Default::default())
                    });
                    let mut es: Vec<Expr> = t.0.into_iter().collect();
                    es.iter_mut().for_each(|x| self.visit_expr_mut(x));
                    *e = parse_quote!(vec_of_([#(#es),*]));
                } else if n == "smallvec" {
                    let t: punct = parse2(m.mac.tokens.clone()).unwrap_or(punct(Default::default()));
                    let mut es: Vec<Expr> = t.0.into_iter().collect();
                    es.iter_mut().for_each(|x| self.visit_expr_mut(x));
                    *e = parse_quote!(vec_of_([#(#es),*]));
                } else if n == "format" {
                    let t: punct = parse2(m.mac.tokens.clone()).unwrap_or(punct(Default::default()));
                    let mut es: Vec<Expr> = t.0.into_iter().collect();
                    es.iter_mut().for_each(|x| self.visit_expr_mut(x));
                    match formatted(&es) {
                        Some(x) => *e = x,
                        None => self.lost.push("format!".into()),
                    }
                }
            },
            _ => {},
        }
    }
}
/// `format!` with `{}`, `{name}` and `{:?}` placeholders, as a chain of pieces
fn formatted(es: &[Expr]) -> Option<Expr> {
    let Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) = es.first() else { return None };
    let text = l.value();
    if text.contains("{{") || text.contains("}}") {
        return None;
    }
    let mut out = quote!(fmt_());
    let mut args = es[1..].iter();
    for (i, part) in text.split('{').enumerate() {
        let mut lit = part;
        if i > 0 {
            let (hole, rest) = part.split_once('}')?;
            lit = rest;
            let (name, how) = hole.split_once(':').unwrap_or((hole, ""));
            let put = ident(match how {
                "" => "val_",
                "?" => "dbg_",
                _ => return None,
            });
            if name.is_empty() {
                let a = args.next()?;
                out = quote!(#out.#put(&#a));
            } else {
                let a: Ident = parse_str(name).ok()?;
                out = quote!(#out.#put(&#a));
            }
        }
        if !lit.is_empty() {
            out = quote!(#out.lit_(#lit));
        }
    }
    if args.next().is_some() {
        return None;
    }
    parse2(quote!(#out.done_())).ok()
}
#[allow(non_camel_case_types)]
struct punct(punctuated::Punctuated<Expr, Token![,]>);
impl syn::parse::Parse for punct {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        Ok(punct(i.parse_terminated(Expr::parse, Token![,])?))
    }
}
/// `Box::new(|x| ...)`
fn fresh_closure(e: &Expr) -> bool {
    matches!(e, Expr::Call(c) if matches!(norm(&c.func).as_str(), "Box::new" | "Arc::new" | "Rc::new") && matches!(c.args.first(), Some(Expr::Verbatim(_) | Expr::Closure(_))))
}
/// `crate::module::Name::x` -> `Name::x`: the extracted items are all in one module.
struct FromRoot;
impl VisitMut for FromRoot {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() > 1 && (p.segments[0].ident == "crate" || p.segments[0].ident == "smallvec") {
            let n = p.segments.len();
            let named = p.segments.iter().position(|s| s.ident.to_string().starts_with(|c: char| c.is_uppercase())).unwrap_or(n - 1);
            p.segments = std::mem::take(&mut p.segments).into_iter().skip(named).collect();
        }
        visit_mut::visit_path_mut(self, p);
    }
}
/// Renames in types and bounds; drops attributes in signatures.
struct Types<'a> {
    st: &'a Settings,
    self_ty: String,
    assoc: HashMap<String, (Vec<String>, Type)>,
    self_as: Option<Type>,
}
/// Type parameters for types.
struct Subst(HashMap<String, Type>);
impl VisitMut for Subst {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t
            && let Some(i) = p.path.get_ident()
            && let Some(x) = self.0.get(&i.to_string())
        {
            *t = x.clone();
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
}
impl Types<'_> {
    /// Drops `Send` and `Sync`, which have no behaviour, where `dyn Fn` is replaced.
    fn no_auto(&self, b: &mut punctuated::Punctuated<TypeParamBound, Token![+]>) {
        if self.st.dynfn.is_empty() {
            return;
        }
        *b = std::mem::take(b).into_iter().filter(|x| !matches!(norm(x).as_str(), "Send" | "Sync")).collect();
    }
}
impl VisitMut for Types<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.retain(|x| !DROP.contains(&norm(x.path()).as_str()));
    }
    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        let last = b.path.segments.last_mut().unwrap();
        // `HKT<Output<B> = M>` -> `HKT`: generic associated types are outside the verifier's subset
        if let PathArguments::AngleBracketed(a) = &mut last.arguments {
            a.args = std::mem::take(&mut a.args).into_iter().filter(|g| !matches!(g, GenericArgument::AssocType(t) if t.generics.is_some())).collect();
            if a.args.is_empty() {
                last.arguments = PathArguments::None;
            }
        }
        if let Some(n) = self.st.bounds.get(&last.ident.to_string()) {
            let renamed = last.ident != ident(n);
            last.ident = ident(n);
            // `IntoIterator<Item = T>` -> `IntoIt<T>`
            if renamed && let PathArguments::AngleBracketed(a) = &mut last.arguments {
                for g in a.args.iter_mut() {
                    if let GenericArgument::AssocType(t) = g {
                        *g = GenericArgument::Type(t.ty.clone());
                    }
                }
            }
            let l = b.path.segments.last().unwrap().clone();
            b.path.segments.clear();
            b.path.segments.push(l);
        }
        visit_mut::visit_trait_bound_mut(self, b);
    }
    fn visit_where_clause_mut(&mut self, w: &mut WhereClause) {
        // `I::IntoIter: ...` says nothing about the items
        let keep: Vec<WherePredicate> = w.predicates.iter().filter(|p| !matches!(p, WherePredicate::Type(t) if norm(&t.bounded_ty).ends_with("::IntoIter"))).cloned().collect();
        w.predicates = keep.into_iter().collect();
        visit_mut::visit_where_clause_mut(self, w);
    }
    fn visit_type_param_mut(&mut self, p: &mut TypeParam) {
        self.no_auto(&mut p.bounds);
        visit_mut::visit_type_param_mut(self, p);
    }
    fn visit_predicate_type_mut(&mut self, p: &mut PredicateType) {
        self.no_auto(&mut p.bounds);
        visit_mut::visit_predicate_type_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(i) = t {
            self.no_auto(&mut i.bounds);
        }
        if !self.st.dynfn.is_empty()
            && let Type::TraitObject(o) = t
            && let Some(TypeParamBound::Trait(b)) = o.bounds.first()
            && let Some(last) = b.path.segments.last()
            && last.ident == "Fn"
            && let PathArguments::Parenthesized(a) = &last.arguments
        {
            let out = match &a.output {
                ReturnType::Type(_, o) => (**o).clone(),
                ReturnType::Default => parse_quote!(()),
            };
            let refs: Vec<Type> = a.inputs.iter().filter_map(|x| if let Type::Reference(r) = x && r.lifetime.is_none() { Some((*r.elem).clone()) } else { None }).collect();
            let n = a.inputs.len();
            let args: Vec<Type> = if !refs.is_empty() && refs.len() == n { refs } else { a.inputs.iter().cloned().collect() };
            let f = ident(&format!("Fun{}{n}", if n > 0 && args[0] != a.inputs[0] { "R" } else { "" }));
            *t = parse_quote!(dyn #f<#(#args,)* #out>);
        }
        if let Type::ImplTrait(i) = t
            && i.bounds.len() == 1
            && let TypeParamBound::Trait(b) = &i.bounds[0]
            && let Some(last) = b.path.segments.last()
            && last.ident == "Iterator"
            && let PathArguments::AngleBracketed(a) = &last.arguments
            && let Some(GenericArgument::AssocType(x)) = a.args.first()
        {
            let x = &x.ty;
            *t = parse_quote!(It<#x>);
        }
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t
            && p.path.segments.len() == 2
            && p.path.segments[0].ident == "Self"
            && p.qself.is_none()
        {
            let n = p.path.segments[1].ident.to_string();
            if let Some((ps, x)) = self.assoc.get(&n) {
                let mut y = x.clone();
                if let PathArguments::AngleBracketed(a) = &p.path.segments[1].arguments {
                    let m = ps.iter().cloned().zip(a.args.iter().filter_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None })).collect();
                    Subst(m).visit_type_mut(&mut y);
                }
                *t = y;
            } else if let Some(x) = self.st.assoc.get(&(self.self_ty.clone(), n)) {
                let mut s = x.clone();
                if let PathArguments::AngleBracketed(a) = &p.path.segments[1].arguments {
                    for (i, g) in a.args.iter().enumerate() {
                        s = s.replace(&format!("${i}"), &norm(g));
                    }
                }
                *t = parse_str(&s).unwrap();
            }
        } else if let Type::Path(p) = t
            && p.path.is_ident("Self")
            && let Some(x) = &self.self_as
        {
            *t = x.clone();
        }
    }
}

fn emit(ts: TokenStream, texts: &Texts, out: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut glue = true;
    let mut alone = false;
    while i < v.len() {
        // __vp!(n);
        if let TokenTree::Ident(x) = &v[i]
            && x == "__vp"
            && let Some(TokenTree::Group(g)) = v.get(i + 2)
        {
            let n: usize = g.stream().to_string().parse().unwrap();
            out.push('\n');
            out.push_str(&texts.0[n]);
            out.push('\n');
            i += 3;
            if let Some(TokenTree::Punct(p)) = v.get(i)
                && p.as_char() == ';'
            {
                i += 1;
            }
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{\n", "\n}\n"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if let Some(TokenTree::Ident(x)) = inner.first()
                    && x == "__vp_head"
                {
                    let Some(TokenTree::Group(h)) = inner.get(2) else { unreachable!() };
                    emit(h.stream(), texts, out);
                    let mut k = 3;
                    if let Some(TokenTree::Punct(p)) = inner.get(3)
                        && p.as_char() == ';'
                    {
                        k = 4;
                    }
                    inner.drain(..k);
                }
                if !glue && g.delimiter() != Delimiter::Parenthesis && g.delimiter() != Delimiter::Bracket {
                    out.push(' ');
                }
                out.push_str(o);
                emit(inner.into_iter().collect(), texts, out);
                out.push_str(c);
                glue = false;
            },
            TokenTree::Punct(p) => {
                // `a && &b`: three in a row are another operator for the verifier
                let three = matches!(p.as_char(), '&' | '|') && out.ends_with(p.as_char()) && alone;
                if three || !glue && !matches!(p.as_char(), '.' | ',' | ';' | '?') {
                    out.push(' ');
                }
                out.push(p.as_char());
                alone = p.spacing() == Spacing::Alone;
                if p.as_char() == ';' {
                    out.push('\n');
                }
                glue = p.spacing() == Spacing::Joint || matches!(p.as_char(), '.' | '&' | '*' | '\'' | '!' | '#');
                if p.as_char() == ':' && p.spacing() == Spacing::Alone {
                    glue = false;
                }
            },
            t => {
                if !glue {
                    out.push(' ');
                }
                out.push_str(&t.to_string());
                glue = false;
            },
        }
        i += 1;
    }
}

/// An `async` block is the computation of its value, deferred (`fut_`), and `.await` its value (`wait_`);
/// joined futures are awaited one after the other.
struct Async;
impl VisitMut for Async {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Async(a) => {
                let b = &a.block;
                *e = if a.capture.is_some() { parse_quote!(fut_(move || #b)) } else { parse_quote!(fut_(|| #b)) };
            },
            Expr::Await(a) => {
                let b = &a.base;
                *e = parse_quote!(#b.wait_());
            },
            Expr::Macro(m) if m.mac.path.segments.last().is_some_and(|s| s.ident == "join") => {
                if let Ok(xs) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    let mut xs: Vec<Expr> = xs.into_iter().collect();
                    xs.iter_mut().for_each(|x| self.visit_expr_mut(x));
                    *e = parse_quote!((#(#xs.wait_()),*));
                }
            },
            _ => {},
        }
    }
}

struct RenameTy(HashMap<String, String>);
impl VisitMut for RenameTy {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.leading_colon.is_none()
            && let Some(s) = p.segments.first_mut()
            && s.arguments.is_none()
            && let Some(n) = self.0.get(&s.ident.to_string())
        {
            s.ident = ident(n);
        }
        visit_mut::visit_path_mut(self, p);
    }
}
/// `self` as an ordinary parameter.
struct SelfParam;
impl VisitMut for SelfParam {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") {
            p.path = ident("self_").into();
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = renamed_self(m.tokens.clone());
    }
}
fn renamed_self(t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenTree};
    t.into_iter()
        .map(|x| match x {
            TokenTree::Ident(i) if i == "self" => TokenTree::Ident(ident("self_")),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), renamed_self(g.stream()))),
            x => x,
        })
        .collect()
}

struct Found {
    imp: Option<ItemImpl>,
    sig: Signature,
    block: Block,
    attrs: Vec<Attribute>,
}
fn matches(im: &ItemImpl, self_ty: &str, trait_: &Option<String>) -> bool {
    let full = norm(&im.self_ty);
    let ty = match &*im.self_ty {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => full.clone(),
    };
    let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
    let trf = im.trait_.as_ref().map(|(_, p, _)| norm(p.segments.last().unwrap()));
    (ty == *self_ty || full == *self_ty) && (tr == *trait_ || trf == *trait_)
}
fn find(file: &File, f: &FnSpec) -> Option<Found> {
    for it in &file.items {
        match it {
            Item::Fn(x) if f.self_ty == "-" && x.sig.ident == f.name => {
                return Some(Found { imp: None, sig: x.sig.clone(), block: (*x.block).clone(), attrs: x.attrs.clone() });
            },
            Item::Impl(im) => {
                if !matches(im, &f.self_ty, &f.trait_) {
                    continue;
                }
                for x in &im.items {
                    if let ImplItem::Fn(x) = x
                        && x.sig.ident == f.name
                    {
                        return Some(Found { imp: Some(im.clone()), sig: x.sig.clone(), block: x.block.clone(), attrs: x.attrs.clone() });
                    }
                }
            },
            Item::Trait(t) if t.ident == f.self_ty => {
                // a provided method of a trait, as a function of its receiver
                for x in &t.items {
                    if let TraitItem::Fn(x) = x
                        && x.sig.ident == f.name
                        && let Some(b) = &x.default
                    {
                        return Some(Found { imp: None, sig: x.sig.clone(), block: b.clone(), attrs: x.attrs.clone() });
                    }
                }
            },
            _ => {},
        }
    }
    None
}
/// The provided method of the trait, with the header of the implementation of the trait for the type.
fn provided(file: &File, traits: &File, f: &FnSpec) -> Option<Found> {
    let im = file.items.iter().find_map(|i| match i {
        Item::Impl(im) if matches(im, &f.self_ty, &f.trait_) => Some(im.clone()),
        _ => None,
    })?;
    let name = f.trait_.as_ref()?.split('<').next()?.to_string();
    let mut found = find(traits, &FnSpec { self_ty: name, trait_: None, name: f.name.clone(), ..Default::default() })?;
    found.imp = Some(im);
    if let Some(w) = &mut found.sig.generics.where_clause {
        w.predicates = std::mem::take(&mut w.predicates).into_iter().filter(|p| !matches!(p, WherePredicate::Type(p) if norm(&p.bounded_ty) == "Self")).collect();
    }
    Some(found)
}
fn type_args(t: &Type) -> Vec<GenericArgument> {
    if let Type::Path(p) = t
        && let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments
    {
        return a.args.iter().cloned().collect();
    }
    Vec::new()
}
/// In a provided method of a trait: calls of the other methods of the type, as the functions they are emitted as.
struct FreeCalls<'a> {
    owned: bool,
    base: String,
    args: Vec<GenericArgument>,
    entries: &'a [Entry],
    files: &'a HashMap<String, File>,
}
impl FreeCalls<'_> {
    /// the path of the function `name`, and whether it takes its receiver by reference
    fn target(&self, name: &str) -> Option<(Expr, bool)> {
        self.entries.iter().find_map(|e| {
            let Entry::Fn(g) = e else { return None };
            if !g.free || g.name != name || g.trait_.is_none() || bare_type(&g.self_ty) != self.base {
                return None;
            }
            let file = self.files.get(&g.file)?;
            let t = find(file, g).or_else(|| provided(file, self.files.get(g.provided.as_ref()?)?, g))?;
            let im = t.imp?;
            let own = type_args(&im.self_ty);
            let n = ident(g.rename.as_ref().unwrap_or(&g.name));
            let mut ga: Vec<TokenStream> = im
                .generics
                .type_params()
                .map(|p| match own.iter().position(|a| norm(a) == p.ident.to_string()) {
                    Some(k) if k < self.args.len() => self.args[k].to_token_stream(),
                    _ => quote!(_),
                })
                .collect();
            ga.extend(t.sig.generics.type_params().map(|_| quote!(_)));
            let by_ref = matches!(t.sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_some());
            Some((parse_quote!(#n::<#(#ga),*>), by_ref))
        })
    }
}
impl VisitMut for FreeCalls<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) if norm(&m.receiver) == "self_" => {
                if let Some((p, by_ref)) = self.target(&m.method.to_string()) {
                    let a = m.args.iter();
                    let r = if by_ref && self.owned { quote!(&self_) } else { quote!(self_) };
                    *e = parse_quote!(#p(#r, #(#a),*));
                }
            },
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func
                    && p.path.segments.len() == 2
                    && (p.path.segments[0].ident == "Self" || p.path.segments[0].ident == self.base)
                    && let Some((t, _)) = self.target(&p.path.segments[1].ident.to_string())
                {
                    *c.func = t;
                }
            },
            _ => {},
        }
    }
}
fn named_fns(b: &Block) -> bool {
    b.stmts.iter().any(|s| matches!(s, Stmt::Item(Item::Fn(_))))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, spec, outp) = (&a[1], &a[2], &a[3]);
    // --assume i,j: these functions keep their contract and lose their body; --smoke: every body starts with assert(false)
    let mut assume: Vec<usize> = Vec::new();
    let mut smoke = false;
    let mut k = 4;
    while k < a.len() {
        match a[k].as_str() {
            "--assume" => {
                assume = a[k + 1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                k += 1;
            },
            "--smoke" => smoke = true,
            x => panic!("unknown option {x}"),
        }
        k += 1;
    }
    let mut index = 0;
    let (entries, st) = parse_spec(&include(spec));
    let mut files: HashMap<String, File> = HashMap::new();
    let mut out = String::new();
    for e in &entries {
        let fname = match e {
            Entry::Raw(s) => {
                out.push_str(s);
                continue;
            },
            Entry::Type { file, .. } | Entry::Const { file, .. } | Entry::Open { file, .. } => file.clone(),
            Entry::Fn(f) => f.file.clone(),
        };
        let mut need = vec![fname.clone()];
        if let Entry::Fn(f) = e {
            need.extend(f.provided.clone());
        }
        let mut broken = false;
        for fname in need.into_iter() {
            if files.contains_key(&fname) {
                continue;
            }
            let t = std::fs::read_to_string(format!("{src}/{fname}")).unwrap_or_default();
            match parse_file(&t) {
                Ok(mut f) => {
                    FromRoot.visit_file_mut(&mut f);
                    files.insert(fname.clone(), f);
                },
                Err(er) => {
                    println!("LOST\t-\tcannot parse {fname}: {er}");
                    broken = true;
                },
            }
        }
        if broken {
            continue;
        }
        let file = &files[&fname];
        let texts = Texts::default();
        match e {
            Entry::Type { name, attr, .. } => {
                let mut ok = false;
                for it in &file.items {
                    let mut it = it.clone();
                    let mut t = Types { st: &st, self_ty: name.clone(), assoc: HashMap::new(), self_as: None };
                    match &mut it {
                        Item::Struct(x) if x.ident == name => {
                            x.vis = parse_quote!(pub);
                            x.fields.iter_mut().for_each(|f| f.vis = parse_quote!(pub));
                            t.visit_item_struct_mut(x);
                        },
                        Item::Enum(x) if x.ident == name => {
                            x.vis = parse_quote!(pub);
                            t.visit_item_enum_mut(x);
                        },
                        Item::Type(x) if x.ident == name => {
                            x.vis = parse_quote!(pub);
                            t.visit_item_type_mut(x);
                        },
                        _ => continue,
                    }
                    out.push_str(attr);
                    out.push('\n');
                    emit(it.to_token_stream(), &texts, &mut out);
                    out.push('\n');
                    ok = true;
                }
                if !ok {
                    println!("LOST\t-\ttype {name} not found in {fname}");
                }
            },
            Entry::Const { name, .. } => {
                let mut ok = false;
                for it in &file.items {
                    if let Item::Const(c) = it
                        && c.ident == name
                    {
                        let (ty, ex) = (&c.ty, &c.expr);
                        let n = &c.ident;
                        emit(quote!(pub const #n: #ty = #ex;), &texts, &mut out);
                        ok = true;
                    }
                }
                if !ok {
                    println!("LOST\t-\tconst {name} not found in {fname}");
                }
            },
            Entry::Open { self_ty, trait_, text, .. } => {
                let im = file.items.iter().find_map(|i| match i {
                    Item::Impl(im) if matches(im, self_ty, &Some(trait_.clone())) => Some(im.clone()),
                    _ => None,
                });
                let Some(mut im) = im else {
                    println!("LOST\t-\timpl {trait_} for {self_ty} not found in {fname}");
                    continue;
                };
                let mut ty = Types { st: &st, self_ty: self_ty.clone(), assoc: HashMap::new(), self_as: None };
                ty.visit_generics_mut(&mut im.generics);
                ty.visit_type_mut(&mut im.self_ty);
                let (ig, _, wh) = im.generics.split_for_impl();
                let (tr, t) = (im.trait_.as_ref().unwrap().1.segments.last().unwrap(), &im.self_ty);
                let mut h = String::new();
                emit(quote!(impl #ig #tr for #t #wh), &texts, &mut h);
                out.push_str(&format!("\n{} {{\n{text}", h.trim()));
            },
            Entry::Fn(f) => {
                let me = index;
                index += 1;
                let label = if f.self_ty == "-" { f.name.clone() } else { format!("{}::{}", f.self_ty, f.name) };
                let Some(mut found) = find(file, f).filter(|_| !f.default).or_else(|| provided(file, files.get(f.provided.as_ref()?)?, f)) else {
                    println!("LOST\t{label}\tfunction not found in {fname}");
                    continue;
                };
                if named_fns(&found.block) {
                    println!("LOST\t{label}\tnested functions\t{me}");
                }
                let mut skeleton = Skeleton(String::new());
                visit::Visit::visit_block(&mut skeleton, &found.block);
                let mut assoc = HashMap::new();
                if let Some(im) = &found.imp {
                    for x in &im.items {
                        if let ImplItem::Type(t) = x {
                            assoc.insert(t.ident.to_string(), (t.generics.type_params().map(|p| p.ident.to_string()).collect(), t.ty.clone()));
                        }
                    }
                }
                let self_as = if f.free { found.imp.as_ref().map(|i| (*i.self_ty).clone()) } else { None };
                let mut ty = Types { st: &st, self_ty: f.self_ty.clone(), assoc, self_as };
                // type parameters by the names the trait declares them with
                let old: Vec<String> = found.sig.generics.type_params().map(|p| p.ident.to_string()).collect();
                if !f.tparams.is_empty() && old.len() == f.tparams.len() {
                    let mut r = RenameTy(old.into_iter().zip(f.tparams.iter().cloned()).collect());
                    for p in found.sig.generics.type_params_mut() {
                        p.ident = ident(&r.0[&p.ident.to_string()]);
                    }
                    r.visit_signature_mut(&mut found.sig);
                    r.visit_block_mut(&mut found.block);
                }
                ty.visit_signature_mut(&mut found.sig);
                if !f.noclone.is_empty() {
                    let strip = |b: &mut punctuated::Punctuated<TypeParamBound, Token![+]>| {
                        *b = std::mem::take(b).into_iter().filter(|x| norm(x) != "Clone").collect();
                    };
                    for p in found.sig.generics.type_params_mut() {
                        if f.noclone.contains(&p.ident.to_string()) {
                            strip(&mut p.bounds);
                        }
                    }
                    for p in found.sig.generics.where_clause.iter_mut().flat_map(|w| w.predicates.iter_mut()) {
                        if let WherePredicate::Type(p) = p && f.noclone.contains(&norm(&p.bounded_ty)) {
                            strip(&mut p.bounds);
                        }
                    }
                }
                ty.visit_block_mut(&mut found.block);
                Async.visit_block_mut(&mut found.block);
                found.sig.asyncness = None;
                // `mut self` as an ordinary mutable variable
                let mut self_var = false;
                if let Some(FnArg::Receiver(r)) = found.sig.inputs.first_mut()
                    && r.reference.is_none()
                    && r.mutability.is_some()
                    && !f.free
                {
                    r.mutability = None;
                    self_var = true;
                }
                if f.free || self_var {
                    SelfParam.visit_block_mut(&mut found.block);
                }
                if f.provided.is_some()
                    && f.free
                    && let Some(im) = &found.imp
                {
                    let owned = matches!(found.sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_none());
                    FreeCalls { owned, base: bare_type(&norm(&im.self_ty)).to_string(), args: type_args(&im.self_ty), entries: &entries, files: &files }.visit_block_mut(&mut found.block);
                }
                let mut texts = Texts::default();
                let mut bound = Bound::default();
                visit::Visit::visit_block(&mut bound, &found.block);
                for a in &found.sig.inputs {
                    // a parameter whose type is bounded by `FnOnce` or `FnMut` stays as it is
                    if let FnArg::Typed(t) = a {
                        let ty = norm(&t.ty);
                        let g = &found.sig.generics;
                        let b: String = g.type_params().filter(|p| p.ident == ty).map(|p| norm(&p.bounds)).chain(g.where_clause.iter().flat_map(|w| w.predicates.iter()).filter_map(|p| match p {
                            WherePredicate::Type(p) if norm(&p.bounded_ty) == ty => Some(norm(&p.bounds)),
                            _ => None,
                        })).collect();
                        if !(b.contains("FnOnce") || b.contains("FnMut")) {
                            visit::Visit::visit_pat(&mut bound, &t.pat);
                        }
                    }
                }
                let mut rw = Rewrite {
                    bound: bound.0, st: &st, f, texts: &mut texts, lost: Vec::new(), closures: 0, loops: 0, ifs: 0, arms: 0,
                    lets: HashMap::new(), used: vec![false; f.anchors.len()], fresh: 0, hoisted: Vec::new(), unsize: Default::default(),
                    once: found.imp.as_ref().is_some_and(|i| i.generics.to_token_stream().to_string().contains("FnOnce") || norm(&i.generics.where_clause).contains("FnOnce")),
                };
                rw.visit_attributes_mut(&mut found.attrs);
                rw.visit_block_mut(&mut found.block);
                if let Some(mut p) = rw.anchor("start") {
                    p.append(&mut found.block.stmts);
                    found.block.stmts = p;
                }
                if let Some(p) = rw.anchor("tail") {
                    let n = found.block.stmts.len();
                    let at = if n > 0 && matches!(found.block.stmts[n - 1], Stmt::Expr(_, None)) { n - 1 } else { n };
                    found.block.stmts.splice(at..at, p);
                }
                if self_var {
                    found.block.stmts.insert(0, parse_quote!(let mut self_ = self;));
                }
                for (i, u) in rw.used.iter().enumerate() {
                    if !u {
                        rw.lost.push(format!("anchor '{}'", f.anchors[i].0));
                    }
                }
                let shape = format!("closures={} loops={} ifs={} arms={}", rw.closures, rw.loops, rw.ifs, rw.arms);
                if f.closures.keys().any(|k| *k >= rw.closures) || (!f.closures.is_empty() && f.closures.len() > rw.closures) {
                    rw.lost.push("a closure".into());
                }
                if f.loops.keys().any(|k| *k >= rw.loops) || (rw.loops > f.loops.len() && !f.loops.is_empty()) {
                    rw.lost.push("a loop".into());
                }
                if f.loops.is_empty() && rw.loops > 0 && f.shape.is_none() {
                    rw.lost.push("a loop without an invariant".into());
                }
                if let Some(s) = &f.shape
                    && *s != shape
                {
                    rw.lost.push(format!("shape {shape}, expected {s}"));
                }
                for l in &rw.lost {
                    println!("LOST\t{label}\t{l}\t{me}");
                }
                let mut sig = found.sig.clone();
                if let (Some(t), ReturnType::Type(_, o)) = (&f.retty, &mut sig.output) {
                    **o = parse_str(t).unwrap();
                }
                if let Some(n) = &f.rename {
                    sig.ident = ident(n);
                }
                let start = out.lines().count() + 1;
                out.push_str(&format!("\n// ==== {label}\n"));
                if f.free && let Some(im) = &mut found.imp {
                    let mut g = im.generics.clone();
                    ty.visit_generics_mut(&mut g);
                    let mut st2 = (*im.self_ty).clone();
                    ty.visit_type_mut(&mut st2);
                    for p in g.params.iter().rev() {
                        sig.generics.params.insert(0, p.clone());
                    }
                    if let Some(w) = g.where_clause {
                        sig.generics.make_where_clause().predicates.extend(w.predicates);
                    }
                    if let Some(FnArg::Receiver(r)) = sig.inputs.first().cloned() {
                        let a: FnArg = match (&r.reference, r.mutability.is_some()) {
                            (Some((_, lt)), m) => {
                                let m = if m { quote!(mut) } else { quote!() };
                                parse_quote!(self_: & #lt #m #st2)
                            },
                            (None, true) => parse_quote!(mut self_: #st2),
                            (None, false) => parse_quote!(self_: #st2),
                        };
                        sig.inputs[0] = a;
                    }
                }
                let close = if f.free || f.inside {
                    false
                } else if let Some(im) = &mut found.imp {
                    let mut g = im.generics.clone();
                    ty.visit_generics_mut(&mut g);
                    let (ig, _, wh) = g.split_for_impl();
                    let mut st2 = (*im.self_ty).clone();
                    ty.visit_type_mut(&mut st2);
                    let mut h = String::new();
                    emit(quote!(impl #ig #st2 #wh), &texts, &mut h);
                    out.push_str(h.trim());
                    out.push_str(" {\n");
                    true
                } else {
                    false
                };
                out.push_str(&f.head);
                out.push('\n');
                if assume.contains(&me) {
                    out.push_str("#[verifier::external_body]\n");
                }
                let g = &sig.generics;
                let n = &sig.ident;
                let inputs = &sig.inputs;
                let mut h = String::new();
                let (ig, _, wh) = g.split_for_impl();
                let gen_full = &g.params;
                let _ = ig;
                let gen_ts = if gen_full.is_empty() { quote!() } else { quote!(<#gen_full>) };
                let vis = if f.inside { quote!() } else { quote!(pub) };
                emit(quote!(#vis fn #n #gen_ts (#inputs)), &texts, &mut h);
                if let ReturnType::Type(_, t) = &sig.output {
                    h.push_str(&format!(" -> ({}: ", f.ret));
                    emit(quote!(#t), &texts, &mut h);
                    h.push(')');
                }
                h.push(' ');
                emit(quote!(#wh), &texts, &mut h);
                out.push_str(h.trim_start());
                out.push('\n');
                out.push_str(&f.spec);
                let b = &found.block;
                if assume.contains(&me) {
                    out.push_str("{ unimplemented!() }\n");
                } else if smoke {
                    out.push_str("{ assert(false);\n");
                    emit(quote!(#b), &texts, &mut out);
                    out.push_str("}\n");
                } else {
                    emit(quote!(#b), &texts, &mut out);
                }
                if close {
                    out.push_str("}\n");
                }
                let end = out.lines().count();
                println!("FN\t{label}\t{start}\t{end}\t{}\t{}\t{shape}\t{me}\t{}", f.props, fname, skeleton.0);
            },
            _ => {},
        }
    }
    std::fs::write(outp, out).unwrap();
}
