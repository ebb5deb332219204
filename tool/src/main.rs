//! vx: mechanical extraction of functions from /repo into Verus units.
//!
//! usage: vx REPO TEMPLATE OUT.rs REPORT.json [--vacuity] [--prop ID]
//!
//! The template is Verus text; `//@` directives pull in items of REPO, with
//! contract text attached at places identified by structure (function, loop
//! ordinal, closure ordinal, statement prefix).  The executable text of every
//! extracted function is the repository's, after the rewriting rules listed in
//! DESIGN.md ("What the extraction drops"); every application of a rule is
//! counted in REPORT.json.
use proc_macro2::Span;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

type R = Range<usize>;

#[derive(Debug, Clone)]
enum Piece {
    Text(String),
    Sub(R),
}
#[derive(Debug, Clone)]
struct Edit {
    range: R,
    pieces: Vec<Piece>,
    seq: usize,
    rule: &'static str,
}

#[derive(Default, Debug, Clone)]
struct Directive {
    kind: String, // fn | struct | item
    file: String,
    path: String,
    spec: String,
    loops: BTreeMap<usize, String>,
    closures: BTreeMap<usize, (String, String, String)>, // params, ret, spec
    ats: Vec<(String, String)>,
    substs: Vec<(String, String, bool)>, // from tokens, to, required
    sig: Option<String>,
    attrs: String,
    line: usize,
    methods: Vec<(String, String)>,
    noformat: bool,
    // Option methods whose closures are inlined (an equivalent match)
    option: Vec<String>,
}

fn die(kind: &str, msg: String) -> ! {
    // exit code 3: the template could not be matched to the source (undecided)
    println!("VX-{kind}: {msg}");
    std::process::exit(3)
}

/// the tokens of a text and where they are in it
fn flat(s: &str) -> Vec<(String, R)> {
    fn go(ts: proc_macro2::TokenStream, out: &mut Vec<(String, R)>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        proc_macro2::Delimiter::None => ("", ""),
                    };
                    out.push((o.into(), g.span_open().byte_range()));
                    go(g.stream(), out);
                    out.push((c.into(), g.span_close().byte_range()));
                }
                t => out.push((t.to_string(), t.span().byte_range())),
            }
        }
    }
    let mut out = vec![];
    if let Ok(t) = s.parse::<proc_macro2::TokenStream>() {
        go(t, &mut out);
    }
    out
}
/// match a token pattern with `$0`, `$1`.. standing for balanced, non-empty token sequences
fn wild(pat: &str, text: &str) -> Option<BTreeMap<String, R>> {
    fn go(p: &[(String, R)], t: &[(String, R)], caps: &mut BTreeMap<String, R>) -> bool {
        if p.is_empty() {
            return t.is_empty();
        }
        if p[0].0 == "$" && p.len() > 1 {
            let mut depth = 0i32;
            for n in 0..t.len() {
                match t[n].0.as_str() {
                    "(" | "[" | "{" => depth += 1,
                    ")" | "]" | "}" => depth -= 1,
                    _ => {}
                }
                if depth < 0 {
                    return false;
                }
                if depth == 0 && go(&p[2..], &t[n + 1..], caps) {
                    caps.insert(p[1].0.clone(), t[0].1.start..t[n].1.end);
                    return true;
                }
            }
            return false;
        }
        !t.is_empty() && p[0].0 == t[0].0 && go(&p[1..], &t[1..], caps)
    }
    let mut caps = BTreeMap::new();
    go(&flat(pat), &flat(text), &mut caps).then_some(caps)
}

fn norm(s: &str) -> String {
    // whitespace-insensitive token text
    match s.parse::<proc_macro2::TokenStream>() {
        Ok(t) => t.to_string().split_whitespace().collect::<Vec<_>>().join(" "),
        Err(_) => s.split_whitespace().collect::<Vec<_>>().join(" "),
    }
}

fn br(s: Span) -> R {
    s.byte_range()
}

fn cfg_eval(tokens: &str) -> Option<bool> {
    let t = tokens.replace(' ', "");
    fn ev(m: &str) -> Option<bool> {
        if let Some(x) = m.strip_prefix("not(").and_then(|x| x.strip_suffix(')')) {
            return ev(x).map(|b| !b);
        }
        if let Some(x) = m.strip_prefix("all(").and_then(|x| x.strip_suffix(')')) {
            let mut r = true;
            for p in x.split(',') {
                r &= ev(p)?;
            }
            return Some(r);
        }
        if let Some(x) = m.strip_prefix("any(").and_then(|x| x.strip_suffix(')')) {
            let mut r = false;
            for p in x.split(',') {
                r |= ev(p)?;
            }
            return Some(r);
        }
        match m {
            "target_arch=\"wasm32\"" | "windows" | "test" | "debug_assertions" | "verif" => Some(false),
            "unix" => Some(true),
            "target_os=\"windows\"" => Some(false),
            "target_os=\"linux\"" => Some(true),
            "target_os=\"macos\"" => Some(false),
            _ => None,
        }
    }
    ev(&t)
}

/// Some(true/false) if attrs contain a cfg
fn cfg_of(attrs: &[syn::Attribute]) -> Option<bool> {
    let mut out = None;
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let syn::Meta::List(l) = &a.meta {
                let v = cfg_eval(&l.tokens.to_string())?;
                out = Some(out.unwrap_or(true) && v);
            }
        }
    }
    out
}

struct Collector<'a> {
    src: &'a str,
    edits: Vec<Edit>,
    dir: &'a Directive,
    nloops: usize,
    nclosures: usize,
    used_ats: Vec<bool>,
    used_substs: Vec<usize>,
    nit: usize,
    dropmac: &'a [String],
    methods: &'a [(String, String)],
    skip: Vec<R>,
    mut_self: bool,
    fn_body: R,
}

impl<'a> Collector<'a> {
    fn push(&mut self, range: R, pieces: Vec<Piece>, rule: &'static str) {
        let seq = self.edits.len();
        self.edits.push(Edit { range, pieces, seq, rule });
    }
    fn t(s: impl Into<String>) -> Piece {
        Piece::Text(s.into())
    }
    fn text(&self, r: R) -> &'a str {
        &self.src[r]
    }
    /// the range and the comma after it, if there is one
    fn with_comma(&self, r: R) -> R {
        let rest = &self.src[r.end..];
        let t = rest.trim_start();
        if t.starts_with(',') { r.start..r.end + (rest.len() - t.len()) + 1 } else { r }
    }
    fn cfg_args(&mut self, args: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>) {
        let v: Vec<&syn::Expr> = args.iter().collect();
        for (i, a) in v.iter().enumerate() {
            let at = expr_attrs(a);
            if at.is_empty() { continue; }
            let start = br(at[0].span()).start.min(br(a.span()).start);
            if cfg_of(at) == Some(false) {
                let end = if i + 1 < v.len() {
                    let n = v[i + 1];
                    expr_attrs(n).first().map(|x| br(x.span()).start).unwrap_or(br(n.span()).start)
                } else { br(a.span()).end };
                self.push(start..end, vec![], "cfg-off");
            } else {
                self.del_attrs(at);
            }
        }
    }
    fn del_attrs(&mut self, attrs: &[syn::Attribute]) {
        for a in attrs {
            self.push(br(a.span()), vec![], "attr");
        }
    }
    fn try_subst(&mut self, range: R) -> bool {
        if self.dir.substs.is_empty() {
            return false;
        }
        let n = norm(self.text(range.clone()));
        for (i, (from, to, _)) in self.dir.substs.clone().iter().enumerate() {
            if *from == n {
                self.used_substs[i] += 1;
                self.push(range, vec![Self::t(to.clone())], "subst");
                return true;
            }
            if from.contains('$') {
                if let Some(caps) = wild(from, self.text(range.clone())) {
                    self.used_substs[i] += 1;
                    // what `$n` stands for is rewritten like everything else: keep visiting
                    let mut pieces = vec![];
                    let mut rest = to.as_str();
                    while let Some(at) = rest.find('$') {
                        let k = &rest[at + 1..at + 2];
                        let Some(r) = caps.get(k) else { die("TEMPLATE", format!("no ${k} in {from}")) };
                        pieces.push(Self::t(&rest[..at]));
                        pieces.push(Piece::Sub(range.start + r.start..range.start + r.end));
                        rest = &rest[at + 2..];
                    }
                    pieces.push(Self::t(rest));
                    self.push(range, pieces, "subst");
                    return false;
                }
            }
        }
        false
    }
    fn is_dropmac(&self, path: &syn::Path) -> bool {
        let p = norm(&quote::quote!(#path).to_string()).replace(' ', "");
        self.dropmac.iter().any(|d| p == *d || (d.ends_with("::") && p.starts_with(d.as_str())))
    }
    fn spec_at(&mut self, what: &str) -> Option<String> {
        let mut out = String::new();
        for (i, (w, s)) in self.dir.ats.iter().enumerate() {
            if w == what {
                self.used_ats[i] = true;
                out.push_str(s);
            }
        }
        if out.is_empty() { None } else { Some(out) }
    }
    fn format_mac(&mut self, mac: &syn::Macro, range: R) {
        // format!("lit", args...) => vx_fmtN(...)
        let parsed = mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated);
        let Ok(args) = parsed else { die("UNSUPPORTED", format!("format! arguments: {}", norm(&mac.tokens.to_string()))) };
        let mut it = args.iter();
        // write!(f, "lit", args...) => vx_write(f, ...)
        let to = if mac.path.is_ident("write") { it.next() } else { None };
        let Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. })) = it.next() else {
            die("UNSUPPORTED", "format! without literal".into())
        };
        let mut pos: Vec<&syn::Expr> = vec![];
        let mut named: BTreeMap<String, &syn::Expr> = BTreeMap::new();
        for a in it {
            if let syn::Expr::Assign(asn) = a {
                if let syn::Expr::Path(p) = &*asn.left {
                    named.insert(p.path.get_ident().map(|i| i.to_string()).unwrap_or_default(), &asn.right);
                    continue;
                }
            }
            pos.push(a);
        }
        let s = l.value();
        let mut parts: Vec<Vec<Piece>> = vec![];
        let mut lit = String::new();
        let mut nextpos = 0;
        let cs: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if i + 1 < cs.len() && cs[i + 1] == '{' => { lit.push('{'); i += 2; }
                '}' if i + 1 < cs.len() && cs[i + 1] == '}' => { lit.push('}'); i += 2; }
                '{' => {
                    let j = (i..cs.len()).find(|&j| cs[j] == '}').unwrap_or_else(|| die("UNSUPPORTED", "format! braces".into()));
                    let inner: String = cs[i + 1..j].iter().collect();
                    i = j + 1;
                    if !lit.is_empty() {
                        parts.push(vec![Self::t(format!("vx_lit({:?})", lit))]);
                        lit.clear();
                    }
                    let (name, spec) = match inner.split_once(':') { Some((a, b)) => (a.trim().to_string(), b.to_string()), None => (inner.trim().to_string(), String::new()) };
                    let f = if spec.is_empty() { "vx_disp" } else if spec.ends_with('?') { "vx_debug" } else if spec == "x" || spec == "08x" { "vx_hex" } else { "vx_fmtopaque" };
                    let expr: Option<&syn::Expr> = if name.is_empty() {
                        nextpos += 1;
                        pos.get(nextpos - 1).copied()
                    } else if let Ok(k) = name.parse::<usize>() {
                        pos.get(k).copied()
                    } else {
                        named.get(&name).copied()
                    };
                    match expr {
                        Some(e) => parts.push(vec![Self::t(format!("{f}(&(")), Piece::Sub(br(e.span())), Self::t("))")]),
                        None if !name.is_empty() => parts.push(vec![Self::t(format!("{f}(&{name})"))]),
                        None => die("UNSUPPORTED", "format! arity".into()),
                    }
                }
                c => { lit.push(c); i += 1; }
            }
        }
        if !lit.is_empty() || parts.is_empty() {
            parts.push(vec![Self::t(format!("vx_lit({:?})", lit))]);
        }
        let mut out = vec![];
        if let Some(e) = to { out.extend([Self::t("vx_write("), Piece::Sub(br(e.span())), Self::t(", ")]); }
        let n = parts.len();
        for (k, p) in parts.into_iter().enumerate() {
            if k + 1 < n { out.push(Self::t("vx_cat(")); }
            out.extend(p);
            if k + 1 < n { out.push(Self::t(", ")); }
        }
        out.push(Self::t(")".repeat(n - 1)));
        if to.is_some() { out.push(Self::t(")")); }
        self.push(range, out, "format");
        if let Some(e) = to { self.visit_expr(e); }
        for a in args.iter().skip(if to.is_some() { 2 } else { 1 }) {
            if let syn::Expr::Assign(asn) = a { self.visit_expr(&asn.right); } else { self.visit_expr(a); }
        }
    }
    /// `o.and_then(|p| e)` is `match o { Some(p) => e, None => None }`, and so on; not for closures that return early
    fn inline_option<'ast>(&mut self, m: &'ast syn::ExprMethodCall, range: R) -> bool {
        struct Early(bool);
        impl<'a> Visit<'a> for Early {
            fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true; }
            fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
            // (what a closure further in returns is its own)
            fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        }
        let name = m.method.to_string();
        let k = if name == "map_or" { 1 } else { 0 };
        if m.args.len() != k + 1 { return false; }
        let syn::Expr::Closure(c) = &m.args[k] else { return false };
        let mut early = Early(false);
        early.visit_expr(&c.body);
        if early.0 || c.inputs.len() > 1 || c.asyncness.is_some() { return false; }
        let (recv, body) = (br(m.receiver.span()), br(c.body.span()));
        let pat = |s: &Self| -> Piece { match &c.inputs[0] { syn::Pat::Type(t) => Self::t(s.text(br(t.pat.span()))), p => Self::t(s.text(br(p.span()))) } };
        let two = |s: &Self, yes: &str, yes2: &str, no: Vec<Piece>| -> Vec<Piece> {
            let mut v = vec![Self::t("(match "), Piece::Sub(recv.clone()), Self::t(" { Some("), pat(s), Self::t(format!(") => {yes}")), Piece::Sub(body.clone()), Self::t(format!("{yes2}, None => "))];
            v.extend(no);
            v.push(Self::t(" })"));
            v
        };
        let pieces = match (name.as_str(), c.inputs.len()) {
            ("and_then", 1) => two(self, "", "", vec![Self::t("None")]),
            ("map", 1) => two(self, "Some(", ")", vec![Self::t("None")]),
            ("is_some_and", 1) => two(self, "", "", vec![Self::t("false")]),
            ("is_none_or", 1) => two(self, "", "", vec![Self::t("true")]),
            ("then", 0) => vec![Self::t("(if "), Piece::Sub(recv.clone()), Self::t(" { Some("), Piece::Sub(body.clone()), Self::t(") } else { None })")],
            ("map_or", 1) if matches!(m.args[0], syn::Expr::Lit(_) | syn::Expr::Path(_)) => two(self, "", "", vec![Piece::Sub(br(m.args[0].span()))]),
            ("unwrap_or_else", 0) => vec![Self::t("(match "), Piece::Sub(recv.clone()), Self::t(" { Some(vx_x) => vx_x, None => "), Piece::Sub(body.clone()), Self::t(" })")],
            ("or_else", 0) => vec![Self::t("(match "), Piece::Sub(recv.clone()), Self::t(" { Some(vx_x) => Some(vx_x), None => "), Piece::Sub(body.clone()), Self::t(" })")],
            _ => return false,
        };
        self.push(range, pieces, "option-match");
        self.visit_expr(&m.receiver);
        self.nclosures += 1;
        self.visit_expr(&c.body);
        true
    }
    fn do_loop(&mut self, range: R, body: &syn::Block, ) -> (usize, String) {
        let n = self.nloops;
        self.nloops += 1;
        let inv = self.dir.loops.get(&n).cloned().unwrap_or_default();
        let b = br(body.span());
        let it = format!("vx_it{}", self.nit);
        if let Some(s) = self.spec_at(&format!("loop {n} body_start")) {
            let s = s.replace("$it", &it);
            self.push(b.start + 1..b.start + 1, vec![Self::t(format!("\n{s}\n"))], "ghost");
        }
        if let Some(s) = self.spec_at(&format!("loop {n} body_end")) {
            let s = s.replace("$it", &it);
            self.push(b.end - 1..b.end - 1, vec![Self::t(format!("\n{s}\n"))], "ghost");
        }
        if let Some(s) = self.spec_at(&format!("loop {n} before")) {
            self.push(range.start..range.start, vec![Self::t(format!("{s}\n"))], "ghost");
        }
        if let Some(s) = self.spec_at(&format!("loop {n} after")) {
            self.push(range.end..range.end, vec![Self::t(format!("\n{s}\n"))], "ghost");
        }
        (n, inv)
    }
}

impl<'a, 'ast> Visit<'ast> for Collector<'a> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        self.push(br(a.span()), vec![], "attr");
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let range = br(s.span());
        if self.skip.iter().any(|r| *r == range) { return; }
        let attrs: &[syn::Attribute] = match s {
            syn::Stmt::Local(l) => &l.attrs,
            syn::Stmt::Macro(m) => &m.attrs,
            syn::Stmt::Expr(e, _) => expr_attrs(e),
            syn::Stmt::Item(i) => item_attrs(i),
        };
        if cfg_of(attrs) == Some(false) {
            self.push(range, vec![], "cfg-off");
            return;
        }
        if self.try_subst(range.clone()) {
            return;
        }
        // ghost anchors
        let n = self.text(range.clone()).split_whitespace().collect::<String>();
        for i in 0..self.dir.ats.len() {
            let (w, sp) = self.dir.ats[i].clone();
            if let Some(p) = w.strip_prefix("before ") {
                if !self.used_ats[i] && n.starts_with(&norm_prefix(p)) {
                    self.used_ats[i] = true;
                    self.push(range.start..range.start, vec![Self::t(format!("{sp}\n"))], "ghost");
                }
            } else if let Some(p) = w.strip_prefix("after ") {
                if !self.used_ats[i] && n.starts_with(&norm_prefix(p)) {
                    self.used_ats[i] = true;
                    self.push(range.end..range.end, vec![Self::t(format!("\n{sp}\n"))], "ghost");
                }
            }
        }
        match s {
            // extracted as a function of its own (//@fn outer::inner); a call to it that is not mapped to that fails to resolve
            syn::Stmt::Item(syn::Item::Fn(_)) => {
                self.push(range, vec![], "nested-fn");
                return;
            }
            syn::Stmt::Macro(m) if self.is_dropmac(&m.mac.path) => {
                self.del_attrs(&m.attrs);
                let a = br(m.mac.span());
                self.push(a.start..range.end, vec![Self::t("{}")], "drop-macro");
                return;
            }
            _ => {}
        }
        if let syn::Stmt::Expr(syn::Expr::While(_), None) = s {
            self.push(range.end..range.end, vec![Self::t(";")], "while-semicolon");
        }
        visit::visit_stmt(self, s);
    }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        self.del_attrs(&m.attrs);
        self.visit_macro(&m.mac);
    }
    fn visit_type(&mut self, t: &'ast syn::Type) {
        if self.try_subst(br(t.span())) { return; }
        visit::visit_type(self, t);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        if self.try_subst(br(p.span())) { return; }
        // the unit is one flat module: `crate::a::B::c` is `B::c` there
        if p.leading_colon.is_none() && p.segments.len() > 1 && (p.segments[0].ident == "crate" || p.segments[0].ident == "super") {
            let keep = p.segments.iter().position(|s| s.ident.to_string().starts_with(|c: char| c.is_uppercase())).unwrap_or(p.segments.len() - 1);
            let a = br(p.segments[0].span()).start;
            let b = br(p.segments[keep].span()).start;
            self.push(a..b, vec![], "module-path");
        }
        visit::visit_path(self, p);
    }
    fn visit_pat(&mut self, p: &'ast syn::Pat) {
        if self.try_subst(br(p.span())) { return; }
        visit::visit_pat(self, p);
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        let range = br(e.span());
        if self.try_subst(range.clone()) { return; }
        match e {
            syn::Expr::Path(p) if self.mut_self && p.path.is_ident("self") => {
                self.push(range, vec![Self::t("vx_self")], "mut-self");
                return;
            }
            syn::Expr::Await(a) => {
                let b = br(a.base.span());
                self.push(b.end..range.end, vec![], "await");
                // keep attrs none
                self.visit_expr(&a.base);
                return;
            }
            syn::Expr::Async(a) => {
                let b = br(a.block.span());
                self.push(range.start..b.start, vec![], "async-block");
                self.visit_block(&a.block);
                return;
            }
            syn::Expr::ForLoop(f) => {
                self.del_attrs(&f.attrs);
                let b = br(f.body.span());
                let (n, inv) = self.do_loop(range.clone(), &f.body);
                let k = self.nit;
                self.nit += 1;
                let lab = f.label.as_ref().map(|l| self.text(br(l.span())).to_string()).unwrap_or_default();
                let start = f.label.as_ref().map(|l| br(l.span()).start).unwrap_or(br(f.for_token.span()).start);
                let inv = inv.replace("$it", &format!("vx_it{k}"));
                let mid = self.spec_at(&format!("loop {n} iter")).unwrap_or_default().replace("$it", &format!("vx_it{k}"));
                self.push(
                    start..b.start,
                    vec![
                        Self::t(format!("{{ let mut vx_it{k} = vx_iter(")),
                        Piece::Sub(br(f.expr.span())),
                        Self::t(format!(");\n{mid}\n{lab} while let Some(")),
                        Piece::Sub(br(f.pat.span())),
                        Self::t(format!(") = vx_it{k}.next()\n{inv}\n")),
                    ],
                    "for",
                );
                self.push(b.end..b.end, vec![Self::t(" }")], "for");
                self.visit_expr(&f.expr);
                self.visit_pat(&f.pat);
                self.visit_block(&f.body);
                return;
            }
            syn::Expr::While(w) => {
                self.del_attrs(&w.attrs);
                let b = br(w.body.span());
                let (_n, inv) = self.do_loop(range, &w.body);
                if !inv.is_empty() {
                    self.push(b.start..b.start, vec![Self::t(format!("\n{inv}\n"))], "ghost");
                }
                self.visit_expr(&w.cond);
                self.visit_block(&w.body);
                return;
            }
            syn::Expr::Loop(w) => {
                self.del_attrs(&w.attrs);
                let b = br(w.body.span());
                let (_n, inv) = self.do_loop(range, &w.body);
                if !inv.is_empty() {
                    self.push(b.start..b.start, vec![Self::t(format!("\n{inv}\n"))], "ghost");
                }
                self.visit_block(&w.body);
                return;
            }
            syn::Expr::Closure(c) => {
                let n = self.nclosures;
                self.nclosures += 1;
                let body = br(c.body.span());
                let hdr_start = range.start;
                if let Some((params, ret, spec)) = self.dir.closures.get(&n).cloned() {
                    // params: comma separated type ascriptions, aligned with the closure's parameters
                    let mut pieces = vec![Self::t("|")];
                    let names: Vec<String> = c.inputs.iter().map(|p| match p {
                        syn::Pat::Type(t) => self.text(br(t.pat.span())).to_string(),
                        _ => self.text(br(p.span())).to_string(),
                    }).collect();
                    let tys = split_top(&params);
                    if tys.len() != names.len() {
                        die("ANCHOR", format!("closure {n} of {} has {} parameters, the contract expects {}", self.dir.path, names.len(), tys.len()));
                    }
                    let mut pre = String::new();
                    let mut pnames = vec![];
                    for (i, (nm, ty)) in names.iter().zip(tys.iter()).enumerate() {
                        let simple = nm.chars().all(|c| c.is_alphanumeric() || c == '_') && nm != "_";
                        let pn = if simple { nm.clone() } else { format!("vx_p{i}") };
                        if !simple && nm != "_" { let _ = write!(pre, "let {nm} = {pn}; "); }
                        pieces.push(Self::t(format!("{}{}: {}", if i > 0 { ", " } else { "" }, pn, ty)));
                        pnames.push(pn);
                    }
                    // `$body` in a contract: the closure's own body, for bodies that are plain expressions
                    let mut spec = spec.replace("$body", self.text(body.clone()));
                    for (i, nm) in pnames.iter().enumerate() {
                        spec = spec.replace(&format!("${i}"), nm);
                    }
                    pieces.push(Self::t(format!("| -> {ret}\n{spec}\n{{ {pre}")));
                    self.push(hdr_start..body.start, pieces, "closure-header");
                    self.push(body.end..body.end, vec![Self::t(" }")], "closure-header");
                } else if c.capture.is_some() && false {
                }
                if c.asyncness.is_some() && !self.dir.closures.contains_key(&n) {
                    let a = br(c.asyncness.as_ref().unwrap().span());
                    self.push(a, vec![], "async-closure");
                }
                if !self.dir.closures.contains_key(&n) {
                    for p in &c.inputs { self.visit_pat(p); }
                }
                self.visit_expr(&c.body);
                return;
            }
            syn::Expr::Macro(m) => {
                self.del_attrs(&m.attrs);
                if self.is_dropmac(&m.mac.path) {
                    self.push(range, vec![Self::t("()")], "drop-macro");
                    return;
                }
                if (m.mac.path.is_ident("format") || m.mac.path.is_ident("write")) && !self.dir.noformat {
                    self.format_mac(&m.mac, range);
                    return;
                }
                self.visit_macro(&m.mac);
                return;
            }
            syn::Expr::Call(c) => self.cfg_args(&c.args),
            syn::Expr::MethodCall(m) => {
                self.cfg_args(&m.args);
                let name = m.method.to_string();
                // (methods that only Option and bool have go the same way, where the contract says nothing of the closure)
                let plain = matches!((name.as_str(), closure_arity(m)), ("is_some_and" | "is_none_or", Some(1)) | ("or_else" | "unwrap_or_else" | "then", Some(0)))
                    && !self.methods.iter().chain(self.dir.methods.iter()).any(|(a, _)| *a == name)
                    && !self.dir.closures.contains_key(&(self.nclosures + closures_in(&m.receiver)));
                if (plain || self.dir.option.contains(&name)) && self.inline_option(m, range.clone()) { return; }
                for (a, b) in self.methods.iter().chain(self.dir.methods.iter()) {
                    if *a == name {
                        self.push(br(m.method.span()), vec![Self::t(b.clone())], "method-redirect");
                        break;
                    }
                }
            }
            syn::Expr::Match(m) => {
                if str_match(m) {
                    // match on string literals => if chain
                    let mut pieces = vec![Self::t("{ let vx_m = "), Piece::Sub(br(m.expr.span())), Self::t("; ")];
                    let mut closed = false;
                    for arm in &m.arms {
                        if cfg_of(&arm.attrs) == Some(false) { continue; }
                        let mut lits = vec![];
                        flatten_or(&arm.pat, &mut lits);
                        let body = br(arm.body.span());
                        let is_lit = matches!(lits[0], syn::Pat::Lit(_));
                        let mut cond = String::new();
                        let mut bind = String::new();
                        if is_lit {
                            for (i, l) in lits.iter().enumerate() {
                                let _ = write!(cond, "{}vx_streq(vx_m, {})", if i > 0 { " || " } else { "" }, self.text(br(l.span())));
                            }
                        } else if let syn::Pat::Ident(i) = lits[0] {
                            bind = format!("let {} = vx_m; ", i.ident);
                        }
                        if let Some((_, g)) = &arm.guard {
                            if !is_lit && !bind.is_empty() { die("UNSUPPORTED", "guarded binding arm in string match".into()); }
                            pieces.push(Self::t(if is_lit { format!("if ({cond}) && (") } else { "if (".to_string() }));
                            pieces.push(Piece::Sub(br(g.span())));
                            pieces.push(Self::t(") { "));
                        } else if is_lit {
                            pieces.push(Self::t(format!("if {cond} {{ ")));
                        } else {
                            pieces.push(Self::t(format!("{{ {bind}")));
                            closed = true;
                        }
                        pieces.push(Piece::Sub(body));
                        pieces.push(Self::t(" }"));
                        if closed { break; }
                        pieces.push(Self::t(" else "));
                    }
                    if !closed { pieces.push(Self::t("{ vx_unreachable() }")); }
                    pieces.push(Self::t(" }"));
                    self.push(range, pieces, "str-match");
                    self.visit_expr(&m.expr);
                    for arm in &m.arms {
                        if cfg_of(&arm.attrs) == Some(false) { continue; }
                        if let Some((_, g)) = &arm.guard { self.visit_expr(g); }
                        self.visit_expr(&arm.body);
                    }
                    return;
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        if cfg_of(&a.attrs) == Some(false) {
            self.push(br(a.span()), vec![], "cfg-off");
            return;
        }
        visit::visit_arm(self, a);
    }
    fn visit_field(&mut self, f: &'ast syn::Field) {
        if cfg_of(&f.attrs) == Some(false) {
            let r = self.with_comma(br(f.span()));
            self.push(r, vec![], "cfg-off");
            return;
        }
        visit::visit_field(self, f);
    }
    fn visit_field_value(&mut self, f: &'ast syn::FieldValue) {
        if cfg_of(&f.attrs) == Some(false) {
            let r = self.with_comma(br(f.span()));
            self.push(r, vec![], "cfg-off");
            return;
        }
        visit::visit_field_value(self, f);
    }
    fn visit_field_pat(&mut self, f: &'ast syn::FieldPat) {
        if cfg_of(&f.attrs) == Some(false) {
            let r = self.with_comma(br(f.span()));
            self.push(r, vec![], "cfg-off");
            return;
        }
        visit::visit_field_pat(self, f);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        if (m.path.is_ident("format") || m.path.is_ident("write")) && !self.dir.noformat {
            let r = br(m.span());
            self.format_mac(m, r);
            return;
        }
        // futures::try_join!(a, b) => vx_try_join2(a, b): async is dropped, so these are results already
        if m.path.segments.last().map(|l| l.ident == "try_join").unwrap_or(false) {
            if let Ok(args) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                let args: &'static _ = Box::leak(Box::new(args));
                let a: R = br(m.path.span()).start..br(m.bang_token.span()).end;
                self.push(a, vec![Self::t(format!("vx_try_join{}", args.len()))], "try-join");
                for a in args.iter() { self.visit_expr(a); }
            }
            return;
        }
        if m.path.is_ident("vec") || m.path.is_ident("assert") || m.path.is_ident("matches") {
            if let Ok(args) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                // expressions inside are visited; note lifetimes force a leak (short-lived process)
                let args: &'static _ = Box::leak(Box::new(args));
                for a in args.iter() { self.visit_expr(a); }
            }
        }
    }
    fn visit_visibility(&mut self, v: &'ast syn::Visibility) {
        if let syn::Visibility::Restricted(r) = v {
            self.push(br(r.span()), vec![Self::t("pub")], "visibility");
        }
    }
    fn visit_item_fn(&mut self, i: &'ast syn::ItemFn) {
        // nested fn: leave as is but strip attrs
        visit::visit_item_fn(self, i);
    }
}

fn norm_prefix(p: &str) -> String {
    p.trim().trim_matches('`').split_whitespace().collect::<String>()
}

fn split_top(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut depth = 0i32;
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | '<' | '[' | '{' => depth += 1,
            ')' | '>' | ']' | '}' => depth -= 1,
            ',' if depth == 0 => {
                out.push(cur.trim().to_string());
                cur.clear();
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() { out.push(cur.trim().to_string()); }
    out
}

fn flatten_or<'p>(p: &'p syn::Pat, out: &mut Vec<&'p syn::Pat>) {
    match p {
        syn::Pat::Or(o) => for c in &o.cases { flatten_or(c, out); },
        _ => out.push(p),
    }
}

fn str_match(m: &syn::ExprMatch) -> bool {
    let mut any = false;
    for a in &m.arms {
        let mut ls = vec![];
        flatten_or(&a.pat, &mut ls);
        for l in ls {
            match l {
                syn::Pat::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. }) => any = true,
                syn::Pat::Wild(_) => {}
                syn::Pat::Ident(i) if i.subpat.is_none() => {}
                _ => return false,
            }
        }
    }
    any
}

fn expr_attrs(e: &syn::Expr) -> &[syn::Attribute] {
    use syn::Expr::*;
    match e {
        Block(x) => &x.attrs, Call(x) => &x.attrs, If(x) => &x.attrs, ForLoop(x) => &x.attrs, Match(x) => &x.attrs,
        MethodCall(x) => &x.attrs, Macro(x) => &x.attrs, While(x) => &x.attrs, Loop(x) => &x.attrs, Assign(x) => &x.attrs,
        Return(x) => &x.attrs, Try(x) => &x.attrs, Await(x) => &x.attrs, Binary(x) => &x.attrs, Path(x) => &x.attrs,
        Unsafe(x) => &x.attrs, Let(x) => &x.attrs, Lit(x) => &x.attrs, Struct(x) => &x.attrs, Tuple(x) => &x.attrs,
        _ => &[],
    }
}
fn item_attrs(i: &syn::Item) -> &[syn::Attribute] {
    use syn::Item::*;
    match i {
        Const(x) => &x.attrs, Fn(x) => &x.attrs, Struct(x) => &x.attrs, Enum(x) => &x.attrs, Impl(x) => &x.attrs,
        Static(x) => &x.attrs, Type(x) => &x.attrs, Use(x) => &x.attrs, Mod(x) => &x.attrs, Trait(x) => &x.attrs, Macro(x) => &x.attrs,
        _ => &[],
    }
}

struct Renderer<'a> {
    src: &'a str,
    edits: Vec<Edit>,
}
impl<'a> Renderer<'a> {
    fn render(&self, range: R, min_seq: Option<usize>) -> String {
        // outermost edits inside `range`, ordered; for equal ranges lower seq is outermost
        let mut c: Vec<&Edit> = self.edits.iter().filter(|e| e.range.start >= range.start && e.range.end <= range.end && min_seq.map_or(true, |m| e.seq > m)).collect();
        c.sort_by_key(|e| (e.range.start, if e.range.is_empty() { 0 } else { 1 }, usize::MAX - e.range.end, e.seq));
        let mut out = String::new();
        let mut at = range.start;
        for e in c {
            if e.range.start < at { continue; }
            out.push_str(&self.src[at..e.range.start]);
            for p in &e.pieces {
                match p {
                    Piece::Text(t) => out.push_str(t),
                    Piece::Sub(r) => out.push_str(&self.render(r.clone(), Some(e.seq))),
                }
            }
            at = e.range.end;
        }
        out.push_str(&self.src[at..range.end]);
        out
    }
}

enum Found<'a> {
    Fn { attrs: &'a [syn::Attribute], sig: &'a syn::Signature, block: &'a syn::Block, vis: Option<&'a syn::Visibility> },
    Item(&'a syn::Item),
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => String::new(),
    }
}

fn find<'a>(items: &'a [syn::Item], path: &str) -> Vec<Found<'a>> {
    let mut out = vec![];
    // forms: name | Type::name | Trait@Type::name | mod::...
    let (trait_, rest) = match path.split_once('@') { Some((t, r)) => (Some(t), r), None => (None, path) };
    let (ty, name) = match rest.rsplit_once("::") { Some((t, n)) => (Some(t), n), None => (None, rest) };
    for i in items {
        if cfg_of(item_attrs(i)) == Some(false) { continue; }
        match i {
            syn::Item::Fn(f) if ty.is_none() && f.sig.ident == name => {
                out.push(Found::Fn { attrs: &f.attrs, sig: &f.sig, block: &f.block, vis: Some(&f.vis) })
            }
            syn::Item::Struct(s) if ty.is_none() && s.ident == name => out.push(Found::Item(i)),
            syn::Item::Enum(s) if ty.is_none() && s.ident == name => out.push(Found::Item(i)),
            syn::Item::Const(s) if ty.is_none() && s.ident == name => out.push(Found::Item(i)),
            syn::Item::Static(s) if ty.is_none() && s.ident == name => out.push(Found::Item(i)),
            syn::Item::Type(s) if ty.is_none() && s.ident == name => out.push(Found::Item(i)),
            syn::Item::Mod(m) if m.ident != "tests" && m.ident != "test" => {
                if let Some((_, its)) = &m.content {
                    out.extend(find(its, path));
                }
            }
            syn::Item::Impl(im) => {
                let Some(t) = ty else { continue };
                if type_name(&im.self_ty) != t { continue; }
                match (&im.trait_, trait_) {
                    (Some((_, p, _)), Some(tr)) => {
                        let seg = p.segments.last().unwrap();
                        let full = norm(&quote::quote!(#seg).to_string()).replace(' ', "");
                        if seg.ident != tr && full != tr.replace(' ', "") { continue; }
                    }
                    (None, None) => {}
                    (Some(_), None) => {}
                    (None, Some(_)) => continue,
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == name && cfg_of(&f.attrs) != Some(false) {
                            out.push(Found::Fn { attrs: &f.attrs, sig: &f.sig, block: &f.block, vis: if im.trait_.is_some() { None } else { Some(&f.vis) } });
                        }
                    }
                }
            }
            syn::Item::Trait(tr) => {
                if ty != Some(&tr.ident.to_string()) { continue; }
                for ii in &tr.items {
                    if let syn::TraitItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            if let Some(b) = &f.default {
                                out.push(Found::Fn { attrs: &f.attrs, sig: &f.sig, block: b, vis: None });
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    out
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: vx REPO TEMPLATE OUT REPORT [--vacuity]");
        std::process::exit(2);
    }
    let repo = &args[1];
    let tdir = std::path::Path::new(&args[2]).parent().unwrap().to_path_buf();
    let vac = args.iter().any(|a| a == "--vacuity");
    let tpl = std::fs::read_to_string(&args[2]).expect("template");
    let mut out = String::new();
    let mut report: Vec<String> = vec![];
    let mut dropmac: Vec<String> = vec!["tracing::".into(), "println".into(), "eprintln".into()];
    let mut methods: Vec<(String, String)> = vec![];
    // expand includes
    // `//@if C01,C02 text`: only in those properties' contracts (all of them without --prop)
    let prop: Option<String> = args.iter().position(|a| a == "--prop").map(|i| args[i + 1].clone());
    fn load(tdir: &std::path::Path, text: &str, out: &mut Vec<String>, prop: &Option<String>) {
        for l in text.lines() {
            let mut l = l;
            if let Some(r) = l.trim().strip_prefix("//@if ") {
                let (ids, t) = r.split_once(' ').expect("//@if IDS TEXT");
                if prop.is_some() && !ids.split(',').any(|i| Some(i) == prop.as_deref()) { continue; }
                l = t;
            }
            if let Some(f) = l.trim().strip_prefix("//@include ") {
                let t = std::fs::read_to_string(tdir.join(f.trim())).expect("include");
                load(tdir, &t, out, prop);
            } else {
                out.push(l.to_string());
            }
        }
    }
    let mut lines = vec![];
    load(&tdir, &tpl, &mut lines, &prop);
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim().to_string();
        if let Some(r) = l.strip_prefix("//@dropmac ") {
            dropmac.extend(r.split_whitespace().map(|s| s.to_string()));
            i += 1;
            continue;
        }
        if let Some(r) = l.strip_prefix("//@method ") {
            let (a, b) = r.split_once("=>").expect("method redirect");
            methods.push((a.trim().into(), b.trim().into()));
            i += 1;
            continue;
        }
        let is_fn = l.starts_with("//@fn ");
        let is_item = l.starts_with("//@item ");
        if !is_fn && !is_item {
            if l.starts_with("//@") {
                eprintln!("template error: stray directive at {}: {}", i + 1, l);
                std::process::exit(2);
            }
            out.push_str(&lines[i]);
            out.push('\n');
            i += 1;
            continue;
        }
        let mut d = Directive { line: i + 1, ..Default::default() };
        d.kind = if is_fn { "fn".into() } else { "item".into() };
        let rest = l.splitn(2, ' ').nth(1).unwrap();
        let mut ws = rest.split_whitespace();
        d.file = ws.next().unwrap().to_string();
        d.path = ws.collect::<Vec<_>>().join(" ");
        i += 1;
        let mut cur: Box<dyn FnMut(&mut Directive, &str)> = Box::new(|d, s| { d.spec.push_str(s); d.spec.push('\n'); });
        loop {
            if i >= lines.len() {
                eprintln!("template error: unterminated directive at line {}", d.line);
                std::process::exit(2);
            }
            let raw = lines[i].clone();
            let l = raw.trim();
            i += 1;
            if l == "//@end" { break; }
            if let Some(r) = l.strip_prefix("//@loop ") {
                let n: usize = r.trim().parse().unwrap();
                cur = Box::new(move |d, s| { let e = d.loops.entry(n).or_default(); e.push_str(s); e.push('\n'); });
                d.loops.entry(n).or_default();
            } else if let Some(r) = l.strip_prefix("//@closure ") {
                // //@closure N (types) -> (ret: T)
                let (n, rest) = r.trim().split_once(' ').unwrap();
                let n: usize = n.parse().unwrap();
                let (p, ret) = rest.split_once("->").unwrap();
                let p = p.trim().strip_prefix('(').unwrap().strip_suffix(')').unwrap().to_string();
                d.closures.insert(n, (p, ret.trim().to_string(), String::new()));
                cur = Box::new(move |d, s| { let e = d.closures.get_mut(&n).unwrap(); e.2.push_str(s); e.2.push('\n'); });
            } else if let Some(r) = l.strip_prefix("//@at ") {
                d.ats.push((r.trim().to_string(), String::new()));
                let k = d.ats.len() - 1;
                cur = Box::new(move |d, s| { d.ats[k].1.push_str(s); d.ats[k].1.push('\n'); });
            } else if let Some(r) = l.strip_prefix("//@subst? ") {
                let (a, b) = r.split_once("=>>").unwrap();
                d.substs.push((norm(a.trim().trim_matches('`')), b.trim().trim_matches('`').to_string(), false));
            } else if let Some(r) = l.strip_prefix("//@subst ") {
                let (a, b) = r.split_once("=>>").unwrap();
                d.substs.push((norm(a.trim().trim_matches('`')), b.trim().trim_matches('`').to_string(), true));
            } else if let Some(r) = l.strip_prefix("//@m ") {
                let (a, b) = r.split_once("=>").unwrap();
                d.methods.push((a.trim().into(), b.trim().into()));
            } else if let Some(r) = l.strip_prefix("//@sig ") {
                d.sig = Some(r.to_string());
            } else if let Some(r) = l.strip_prefix("//@attr ") {
                d.attrs.push_str(r);
                d.attrs.push('\n');
            } else if let Some(r) = l.strip_prefix("//@option ") {
                d.option.extend(r.split_whitespace().map(String::from));
            } else if l == "//@noformat" {
                d.noformat = true;
            } else if l.starts_with("//@") {
                eprintln!("template error: unknown directive at {}: {}", i, l);
                std::process::exit(2);
            } else {
                cur(&mut d, &raw);
            }
        }
        emit(repo, &d, &mut out, &mut report, &dropmac, &methods, vac);
    }
    std::fs::write(&args[3], out).expect("write out");
    std::fs::write(&args[4], format!("[{}]\n", report.join(",\n"))).expect("write report");
}

fn emit(repo: &str, d: &Directive, out: &mut String, report: &mut Vec<String>, dropmac: &[String], methods: &[(String, String)], vac: bool) {
    let full = format!("{repo}/{}", d.file);
    let Ok(src) = std::fs::read_to_string(&full) else { die("ANCHOR", format!("{} is gone", d.file)) };
    let file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => die("UNSUPPORTED", format!("{}: {e}", d.file)),
    };
    let mut found = find(&file.items, &d.path);
    if found.is_empty() {
        // a function declared inside another one: outer::path::inner
        if let Some((outer, name)) = d.path.rsplit_once("::") {
            for f in find(&file.items, outer) {
                let Found::Fn { block, .. } = f else { continue };
                for st in &block.stmts {
                    if let syn::Stmt::Item(syn::Item::Fn(g)) = st {
                        if g.sig.ident == name && cfg_of(&g.attrs) != Some(false) {
                            found.push(Found::Fn { attrs: &g.attrs, sig: &g.sig, block: &g.block, vis: Some(&g.vis) });
                        }
                    }
                }
            }
        }
    }
    if found.len() != 1 {
        die("ANCHOR", format!("{} {}: found {} definitions", d.file, d.path, found.len()));
    }
    let mut col = Collector {
        src: &src, edits: vec![], dir: d, nloops: 0, nclosures: 0, used_ats: vec![false; d.ats.len()],
        used_substs: vec![0; d.substs.len()], nit: 0, dropmac, methods, skip: vec![], fn_body: 0..0, mut_self: false,
    };
    let _ = &col.fn_body;
    let line;
    match &found[0] {
        Found::Item(it) => {
            let r = br(it.span());
            line = it.span().start().line;
            col.visit_item(it);
            // make the item and its fields public for specs
            let (iv, fields): (Option<&syn::Visibility>, Vec<&syn::Field>) = match it {
                syn::Item::Struct(s) => (Some(&s.vis), s.fields.iter().collect()),
                syn::Item::Enum(s) => (Some(&s.vis), vec![]),
                syn::Item::Const(s) => (Some(&s.vis), vec![]),
                syn::Item::Type(s) => (Some(&s.vis), vec![]),
                _ => (None, vec![]),
            };
            if let (Some(syn::Visibility::Inherited), Some(kw)) = (iv, match it {
                syn::Item::Struct(s) => Some(s.struct_token.span),
                syn::Item::Enum(s) => Some(s.enum_token.span),
                syn::Item::Const(s) => Some(s.const_token.span),
                syn::Item::Type(s) => Some(s.type_token.span),
                _ => None,
            }) {
                let k = br(kw).start;
                col.push(k..k, vec![Piece::Text("pub ".into())], "visibility");
            }
            // `const X: &str` is `&'static str`: the verifier's rendering of constants as functions needs it said
            if let syn::Item::Const(c) = it {
                if let syn::Type::Reference(t) = &*c.ty {
                    if t.lifetime.is_none() {
                        let k = br(t.and_token.span).end;
                        col.push(k..k, vec![Piece::Text("'static ".into())], "lifetime");
                    }
                }
            }
            for f in fields {
                if cfg_of(&f.attrs) == Some(false) { continue; }
                if let syn::Visibility::Inherited = f.vis {
                    let k = match &f.ident { Some(i) => br(i.span()).start, None => br(f.ty.span()).start };
                    col.push(k..k, vec![Piece::Text("pub ".into())], "visibility");
                }
            }
            let ren = Renderer { src: &src, edits: col.edits.clone() };
            let _ = writeln!(out, "/*VX-ITEM {} {}:{}*/", d.path, d.file, line);
            out.push_str(&d.attrs);
            out.push_str(&ren.render(r, None));
            out.push('\n');
        }
        Found::Fn { attrs, sig, block, vis } => {
            line = sig.fn_token.span().start().line;
            for a in attrs.iter() { col.visit_attribute(a); }
            if let Some(v) = vis {
                col.visit_visibility(v);
                if let syn::Visibility::Inherited = v {
                    let k = br(sig.span()).start;
                    col.push(k..k, vec![Piece::Text("pub ".into())], "visibility");
                }
            }
            if let Some(a) = &sig.asyncness {
                col.push(br(a.span()), vec![], "async");
            }
            let b = br(block.span());
            // `mut self` => `self`, rebound in the body
            if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first() {
                if let (None, Some(m)) = (&r.reference, &r.mutability) {
                    col.push(br(m.span()), vec![], "mut-self");
                    col.mut_self = true;
                }
            }
            // return type name
            match &sig.output {
                syn::ReturnType::Type(_, t) => {
                    let tr = br(t.span());
                    col.push(tr.start..tr.start, vec![Piece::Text("(ret: ".into())], "ret-name");
                    col.push(tr.end..tr.end, vec![Piece::Text(")".into())], "ret-name");
                    col.visit_type(t);
                }
                _ => {}
            }
            for p in &sig.generics.params { col.visit_generic_param(p); }
            for a in &sig.inputs { col.visit_fn_arg(a); }
            if !d.spec.trim().is_empty() {
                col.push(b.start..b.start, vec![Piece::Text(format!("\n{}\n", d.spec))], "contract");
            }
            let mut bs = col.spec_at("body_start").unwrap_or_default();
            if vac { bs.push_str("proof { assert(false); /*VX-VACUITY*/ }\n"); }
            if col.mut_self { bs.push_str("let mut vx_self = self;\n"); }
            if !bs.is_empty() {
                col.push(b.start + 1..b.start + 1, vec![Piece::Text(format!("\n{bs}\n"))], "ghost");
            }
            if let Some(s) = col.spec_at("body_end") {
                col.push(b.end - 1..b.end - 1, vec![Piece::Text(format!("\n{s}\n"))], "ghost");
            }
            if let Some(s) = col.spec_at("before_tail") {
                let at = match block.stmts.last() {
                    Some(st) => br(st.span()).start,
                    None => b.end - 1,
                };
                col.push(at..at, vec![Piece::Text(format!("{s}\n"))], "ghost");
            }
            for st in &block.stmts { col.visit_stmt(st); }
            for (k, _) in d.loops.iter() {
                if *k >= col.nloops { die("ANCHOR", format!("{}: contract names loop {k}, the function has {}", d.path, col.nloops)); }
            }
            for (k, _) in d.closures.iter() {
                if *k >= col.nclosures { die("ANCHOR", format!("{}: contract names closure {k}, the function has {}", d.path, col.nclosures)); }
            }
            for (k, u) in col.used_ats.iter().enumerate() {
                if !u { die("ANCHOR", format!("{}: no anchor `{}`", d.path, d.ats[k].0)); }
            }
            for (k, u) in col.used_substs.iter().enumerate() {
                if *u == 0 && d.substs[k].2 { die("ANCHOR", format!("{}: nothing matches `{}`", d.path, d.substs[k].0)); }
            }
            let mut start = br(sig.span()).start;
            if let Some(v) = vis { let vr = br(v.span()); if !vr.is_empty() { start = start.min(vr.start); } }
            let ren = Renderer { src: &src, edits: col.edits.clone() };
            let _ = writeln!(out, "/*VX-FN {} {}:{}*/", d.path, d.file, line);
            if col.nloops > 0 { out.push_str("#[verifier::loop_isolation(false)]\n"); }
            out.push_str(&d.attrs);
            if let Some(s) = &d.sig {
                out.push_str(s);
                out.push('\n');
                out.push_str(&d.spec);
                let nospec = Renderer { src: &src, edits: col.edits.iter().filter(|e| e.rule != "contract").cloned().collect() };
                out.push_str(&nospec.render(b, None));
            } else {
                out.push_str(&ren.render(start..b.end, None));
            }
            out.push_str("\n/*VX-END*/\n");
        }
    }
    let mut rules: BTreeMap<&str, usize> = BTreeMap::new();
    for e in &col.edits { *rules.entry(e.rule).or_default() += 1; }
    let rj: Vec<String> = rules.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    let sj: Vec<String> = d.substs.iter().zip(&col.used_substs).map(|((a, b, _), n)| format!("[{},{},{}]", json_str(a), json_str(b), n)).collect();
    report.push(format!(
        "{{\"kind\":{},\"file\":{},\"path\":{},\"line\":{},\"loops\":{},\"rules\":{{{}}},\"substs\":[{}],\"sig_override\":{}}}",
        json_str(&d.kind), json_str(&d.file), json_str(&d.path), line, col.nloops, rj.join(","), sj.join(","), d.sig.is_some()
    ));
}
fn closure_arity(m: &syn::ExprMethodCall) -> Option<usize> {
    match m.args.iter().collect::<Vec<_>>()[..] {
        [syn::Expr::Closure(c)] => Some(c.inputs.len()),
        _ => None,
    }
}
fn closures_in(e: &syn::Expr) -> usize {
    struct N(usize);
    impl<'a> Visit<'a> for N {
        fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) { self.0 += 1; syn::visit::visit_expr_closure(self, c); }
    }
    let mut n = N(0);
    n.visit_expr(e);
    n.0
}
