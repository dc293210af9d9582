//! Put contracts into a copy of the source: annot CONTRACT_FILE... -- SRC_DIR
//!
//! The program text is kept; what is inserted are attributes and ghost blocks, and what is rewritten is listed in the
//! report on standard output (JSON): let-chains, logging statements, and the method names given by `@rename`.
use proc_macro2::{LineColumn, Span};
use quote::ToTokens;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Default, Clone, Debug)]
struct FnContract {
    key: String,
    params: Vec<String>,
    props: Vec<String>,
    spec: String,
    attr: String,
    closures: Vec<(usize, String, String)>, // which, return type, spec
    closure_types: Vec<Vec<String>>,
    loops: Vec<(usize, String)>,
    tails: Vec<(usize, String)>,
    start: String,
    end: String,
    before: Vec<(String, String)>,
    ghosts: Vec<(String, String)>,
    after: Vec<(String, String)>,
    rewrites: Vec<(String, String)>,
    opaque: Vec<(String, String)>,
    calls: Vec<(String, String)>,
}

#[derive(Default)]
struct FileContracts {
    append: String,
    prepend: String,
    structs: Vec<(String, String)>,
    fns: Vec<FnContract>,
    renames: Vec<(String, String)>,
    replaces: Vec<(String, String)>,
    /// `map` of an Option written out
    options: bool,
    texts: bool,
    /// what is printed is shown to be meant for printing
    shows: bool,
    /// methods copied out as functions
    derived: Vec<(String, String)>,
    lifts: Vec<(String, String)>,
    /// lemmas over the contracts, in what is appended
    lemmas: Vec<(String, Vec<String>)>,
}

fn parse_contracts(text: &str, out: &mut BTreeMap<String, FileContracts>) {
    let mut file = String::new();
    #[derive(Clone, Copy, PartialEq)]
    enum In {
        None,
        Append,
        Prepend,
        Struct,
        Spec,
        Closure,
        Loop,
        Tail,
        Start,
        End,
        Before,
        After,
    }
    let mut at = In::None;
    for line in text.lines() {
        if let Some(d) = line.strip_prefix('@') {
            let (word, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            if word == "file" {
                file = rest.into();
                out.entry(file.clone()).or_default();
                at = In::None;
                continue;
            }
            let f = out.get_mut(&file).expect("@file first");
            match word {
                "#" => {}
                "append" => at = In::Append,
                "prepend" => at = In::Prepend,
                "struct" => {
                    let (n, a) = rest.split_once(' ').unwrap_or((rest, ""));
                    f.structs.push((n.into(), a.into()));
                    at = In::Struct
                }
                "rename" => {
                    let (a, b) = rest.split_once(' ').unwrap();
                    f.renames.push((a.into(), b.trim().into()));
                }
                "fn" => {
                    let (sig, props) = rest.split_once(" : ").unwrap_or((rest, ""));
                    let open = sig.rfind('(').expect("params");
                    let key: String = sig[..open].chars().filter(|c| !c.is_whitespace()).collect();
                    let params = sig[open + 1..]
                        .trim_end_matches(')')
                        .split(',')
                        .map(|s| s.trim().to_string())
                        .filter(|s| !s.is_empty())
                        .collect();
                    f.fns.push(FnContract {
                        key,
                        params,
                        props: props.split_whitespace().map(Into::into).collect(),
                        ..Default::default()
                    });
                    at = In::Spec
                }
                "lemma" => {
                    let (n, props) = rest.split_once(" : ").unwrap_or((rest, ""));
                    f.lemmas.push((n.trim().into(), props.split_whitespace().map(Into::into).collect()));
                    at = In::None;
                }
                // what a derive makes, as a function of its own: TRAIT for TYPE
                "derived" => {
                    let (a, b) = rest.split_once(" => ").unwrap();
                    f.derived.push((a.chars().filter(|c| !c.is_whitespace()).collect(), b.trim().into()));
                    at = In::None;
                }
                "lift" => {
                    let (a, b) = rest.split_once(" => ").unwrap();
                    f.lifts.push((a.chars().filter(|c| !c.is_whitespace()).collect(), b.trim().into()));
                    at = In::None;
                }
                // calls of a function, whatever the arguments
                "call" => {
                    let (a, b) = rest.split_once(" => ").unwrap();
                    f.fns.last_mut().unwrap().calls.push((a.into(), b.into()));
                }
                "options" => f.options = true,
                "texts" => f.texts = true,
                "shows" => f.shows = true,
                "attr" => f.fns.last_mut().unwrap().attr += &format!("{rest}\n"),
                "rewrite" => {
                    let (a, b) = rest.split_once(" => ").unwrap();
                    f.fns.last_mut().unwrap().rewrites.push((a.into(), b.into()));
                }
                "opaque" => {
                    let (a, b) = rest.split_once(" => ").unwrap();
                    f.fns.last_mut().unwrap().opaque.push((a.into(), b.into()));
                }
                "replace" => {
                    let (a, b) = rest.split_once(" => ").unwrap();
                    f.replaces.push((a.into(), b.into()));
                }
                "closure" => {
                    // which [: types of the parameters, split by ;] [-> result]
                    let (i, t) = rest.split_once("->").unwrap_or((rest, ""));
                    let (i, types) = i.split_once(':').unwrap_or((i, ""));
                    let f = f.fns.last_mut().unwrap();
                    f.closures.push((i.trim().parse().unwrap(), t.trim().into(), String::new()));
                    f.closure_types.push(types.split(';').map(|t| t.trim().to_string()).collect());
                    at = In::Closure
                }
                "loop" => {
                    f.fns.last_mut().unwrap().loops.push((rest.parse().unwrap(), String::new()));
                    at = In::Loop
                }
                // at the end of the body of a loop
                "tail" => {
                    f.fns.last_mut().unwrap().tails.push((rest.parse().unwrap(), String::new()));
                    at = In::Tail
                }
                // ghost variables, declared before a statement
                "ghost" => {
                    let (a, b) = rest.split_once(" => ").unwrap();
                    f.fns.last_mut().unwrap().ghosts.push((a.into(), b.into()));
                    at = In::None;
                }
                "start" => at = In::Start,
                "end" => at = In::End,
                "before" => {
                    f.fns.last_mut().unwrap().before.push((rest.into(), String::new()));
                    at = In::Before
                }
                "after" => {
                    f.fns.last_mut().unwrap().after.push((rest.into(), String::new()));
                    at = In::After
                }
                w => panic!("unknown @{w}"),
            }
            continue;
        }
        if at == In::None {
            continue;
        }
        let f = out.get_mut(&file).unwrap();
        let t: &mut String = match at {
            In::Append => &mut f.append,
            In::Prepend => &mut f.prepend,
            In::Struct => continue,
            In::Spec => &mut f.fns.last_mut().unwrap().spec,
            In::Closure => &mut f.fns.last_mut().unwrap().closures.last_mut().unwrap().2,
            In::Loop => &mut f.fns.last_mut().unwrap().loops.last_mut().unwrap().1,
            In::Tail => &mut f.fns.last_mut().unwrap().tails.last_mut().unwrap().1,
            In::Start => &mut f.fns.last_mut().unwrap().start,
            In::End => &mut f.fns.last_mut().unwrap().end,
            In::Before => &mut f.fns.last_mut().unwrap().before.last_mut().unwrap().1,
            In::After => &mut f.fns.last_mut().unwrap().after.last_mut().unwrap().1,
            In::None => unreachable!(),
        };
        t.push_str(line);
        t.push('\n');
    }
}

fn squash(t: impl ToTokens) -> String {
    // without white space and lifetimes
    let s = t.to_token_stream().to_string();
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while it.peek().is_some_and(|c| c.is_alphanumeric() || *c == '_') {
                it.next();
            }
            // a comma or space after it
            while it.peek() == Some(&' ') {
                it.next();
            }
            if it.peek() == Some(&',') && !o.ends_with(')') {
                it.next();
            }
            continue;
        }
        if !c.is_whitespace() {
            o.push(c);
        }
    }
    o.replace("<>", "")
}

struct Lines(Vec<usize>);
impl Lines {
    fn new(s: &str) -> Self {
        let mut v = vec![0];
        for (i, c) in s.char_indices() {
            if c == '\n' {
                v.push(i + 1);
            }
        }
        Lines(v)
    }
    fn at(&self, s: &str, lc: LineColumn) -> usize {
        let start = self.0[lc.line - 1];
        // columns count characters
        s[start..].char_indices().nth(lc.column).map(|(i, _)| start + i).unwrap_or(s.len())
    }
}

struct Src {
    text: String,
    lines: Lines,
    edits: Vec<(usize, usize, String, u8)>,
}
impl Src {
    fn new(text: String) -> Self {
        let lines = Lines::new(&text);
        Src {
            text,
            lines,
            edits: vec![],
        }
    }
    fn start(&self, s: Span) -> usize {
        self.lines.at(&self.text, s.start())
    }
    fn end(&self, s: Span) -> usize {
        self.lines.at(&self.text, s.end())
    }
    fn slice(&self, s: Span) -> &str {
        &self.text[self.start(s)..self.end(s)]
    }
    fn insert(&mut self, at: usize, t: String) {
        self.edits.push((at, at, t, 1));
    }
    fn replace(&mut self, s: Span, t: String) {
        let e = (self.start(s), self.end(s), t, 0);
        self.edits.push(e);
    }
    fn apply(mut self) -> String {
        let mut order: Vec<usize> = (0..self.edits.len()).collect();
        order.sort_by_key(|i| (self.edits[*i].0, *i));
        let mut o = String::new();
        let mut at = 0;
        for i in order {
            let (s, e, t, _) = std::mem::take(&mut self.edits[i]);
            if s < at {
                continue; // inside something already replaced
            }
            o.push_str(&self.text[at..s]);
            o.push_str(&t);
            at = e;
        }
        o.push_str(&self.text[at..]);
        o
    }
}

enum FnRef<'a> {
    Free(&'a syn::ItemFn),
    Method(&'a syn::ImplItemFn, &'a syn::ItemImpl),
}
impl<'a> FnRef<'a> {
    fn sig(&self) -> &'a syn::Signature {
        match self {
            FnRef::Free(f) => &f.sig,
            FnRef::Method(f, _) => &f.sig,
        }
    }
    fn block(&self) -> &'a syn::Block {
        match self {
            FnRef::Free(f) => &f.block,
            FnRef::Method(f, _) => &f.block,
        }
    }
    fn vis_start(&self) -> Span {
        let (vis, sig) = match self {
            FnRef::Free(f) => (&f.vis, &f.sig),
            FnRef::Method(f, _) => (&f.vis, &f.sig),
        };
        match vis {
            syn::Visibility::Inherited => sig.span(),
            v => v.span(),
        }
    }
}

fn all_fns<'a>(items: &'a [syn::Item], prefix: &str, out: &mut Vec<(String, FnRef<'a>)>) {
    for i in items {
        match i {
            syn::Item::Fn(f) => out.push((format!("{prefix}{}", f.sig.ident), FnRef::Free(f))),
            syn::Item::Impl(im) => {
                let ty = squash(&im.self_ty);
                let base = match &im.trait_ {
                    Some((_, p, _)) => format!("{}for{}", squash(p), ty),
                    None => ty.split('<').next().unwrap().to_string(),
                };
                for it in &im.items {
                    if let syn::ImplItem::Fn(f) = it {
                        out.push((format!("{base}::{}", f.sig.ident), FnRef::Method(f, im)));
                    }
                }
            }
            syn::Item::Mod(m) => {
                if m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) {
                    continue;
                }
                if let Some((_, items)) = &m.content {
                    all_fns(items, &format!("{prefix}{}::", m.ident), out);
                }
            }
            _ => {}
        }
    }
}

#[derive(Default)]
struct Finds<'a> {
    closures: Vec<&'a syn::ExprClosure>,
    loops: Vec<&'a syn::Expr>,
    exprs: Vec<&'a syn::Expr>,
    calls: BTreeSet<String>,
    chains: Vec<&'a syn::ExprIf>,
    logs: Vec<&'a syn::Stmt>,
    prints: Vec<&'a syn::Stmt>,
    methods: Vec<&'a syn::ExprMethodCall>,
    stmts: Vec<&'a syn::Stmt>,
    macros: Vec<&'a syn::Macro>,
}
fn is_chain(e: &syn::Expr) -> bool {
    fn has_let(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Let(_) => true,
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => has_let(&b.left) || has_let(&b.right),
            _ => false,
        }
    }
    matches!(e, syn::Expr::Binary(_)) && has_let(e)
}
impl<'a> Visit<'a> for Finds<'a> {
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.closures.push(c);
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        self.exprs.push(e);
        if matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_)) {
            self.loops.push(e);
        }
        syn::visit::visit_expr(self, e);
    }
    fn visit_expr_if(&mut self, e: &'a syn::ExprIf) {
        if is_chain(&e.cond) {
            self.chains.push(e);
        }
        syn::visit::visit_expr_if(self, e);
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        let mac = match s {
            syn::Stmt::Macro(m) => Some(&m.mac),
            syn::Stmt::Expr(syn::Expr::Macro(m), Some(_)) => Some(&m.mac),
            _ => None,
        };
        if mac.is_some_and(|m| squash(&m.path).starts_with("tracing::") || m.path.is_ident("eprintln")) {
            self.logs.push(s);
        }
        // setting up the log
        let starts = match s {
            syn::Stmt::Local(l) => l.init.as_ref().map(|i| squash(&i.expr)),
            syn::Stmt::Expr(e, Some(_)) => Some(squash(e)),
            _ => None,
        };
        if starts.is_some_and(|t| ["tracing_subscriber::", "tracing::subscriber::", "tracing_appender::", "EnvFilter::"].iter().any(|p| t.starts_with(p))) {
            self.logs.push(s);
        }
        if mac.is_some_and(|m| m.path.is_ident("println")) {
            self.prints.push(s);
        }
        self.stmts.push(s);
        syn::visit::visit_stmt(self, s);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        self.macros.push(m);
        if m.path.is_ident("vec") {
            if let Ok(es) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for e in es {
                    self.visit_expr(Box::leak(Box::new(e)));
                }
            }
        }
        syn::visit::visit_macro(self, m);
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        self.calls.insert(m.method.to_string());
        self.methods.push(m);
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if let Some(s) = p.path.segments.last() {
            self.calls.insert(s.ident.to_string());
        }
        syn::visit::visit_expr_path(self, p);
    }
}

/// the methods that are given closures
fn given(finds: &Finds) -> Vec<String> {
    let mut out: Vec<String> = finds
        .methods
        .iter()
        .flat_map(|m| m.args.iter().filter(|a| matches!(a, syn::Expr::Closure(_))).map(|_| m.method.to_string()))
        .collect();
    out.sort();
    out
}

fn plain(p: &syn::Pat) -> bool {
    match p {
        syn::Pat::Ident(i) => i.by_ref.is_none() && i.subpat.is_none(),
        syn::Pat::Type(t) => plain(&t.pat),
        _ => false,
    }
}

fn chain_parts<'a>(e: &'a syn::Expr, out: &mut Vec<&'a syn::Expr>) {
    match e {
        syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
            chain_parts(&b.left, out);
            chain_parts(&b.right, out);
        }
        e => out.push(e),
    }
}

/// a call of `map`, unless of an iterator, written out
fn option_map(finds: &Finds, src: &Src) -> Option<(Span, String)> {
    const ITERATES: [&str; 26] = [
        "iter", "into_iter", "iter_mut", "flatten", "filter", "filter_map", "flat_map", "enumerate", "zip", "chain", "values", "keys", "postings",
        "currencies", "tags", "links", "key_values", "documents", "operating_currency", "contexts", "related", "args", "collect", "sum", "chars", "copied_iter",
    ];
    let iterates = |m: &syn::ExprMethodCall| ITERATES.contains(&m.method.to_string().as_str());
    let consumes = |m: &syn::ExprMethodCall| ["collect", "sum", "for_each", "count", "fold", "any", "all", "extend", "rev", "chain", "zip", "enumerate", "flat_map", "peekable"].contains(&m.method.to_string().as_str());
    for m in &finds.methods {
        if m.method == "then" && m.args.len() == 1 {
            if let syn::Expr::Closure(c) = &m.args[0] {
                if c.inputs.is_empty() {
                    let t = format!(
                        "(if {} {{ ::core::option::Option::Some({}) }} else {{ ::core::option::Option::None }})",
                        src.slice(m.receiver.span()),
                        src.slice(c.body.span())
                    );
                    return Some((m.span(), t));
                }
            }
        }
        if m.method != "map" || m.args.len() != 1 {
            continue;
        }
        // what is made of it
        let consumed = finds
            .methods
            .iter()
            .any(|o| matches!(&*o.receiver, syn::Expr::MethodCall(r) if std::ptr::eq(r, *m)) && consumes(o));
        if consumed || matches!(&*m.receiver, syn::Expr::MethodCall(r) if iterates(r)) {
            return Some((m.method.span(), "mapped".into()));
        }
        let of = src.slice(m.receiver.span());
        let t = match &m.args[0] {
            syn::Expr::Closure(c) => {
                struct Leaves(bool);
                impl<'a> Visit<'a> for Leaves {
                    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
                        self.0 = true;
                    }
                    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
                        self.0 = true;
                    }
                }
                let mut l = Leaves(false);
                l.visit_expr(&c.body);
                if l.0 || c.inputs.len() != 1 {
                    continue;
                }
                let p = match &c.inputs[0] {
                    syn::Pat::Type(t) => &*t.pat,
                    p => p,
                };
                format!("(match {of} {{ ::core::option::Option::Some({}) => ::core::option::Option::Some({}), ::core::option::Option::None => ::core::option::Option::None }})", src.slice(p.span()), src.slice(c.body.span()))
            }
            f => format!("(match {of} {{ ::core::option::Option::Some(it__) => ::core::option::Option::Some({}(it__)), ::core::option::Option::None => ::core::option::Option::None }})", src.slice(f.span())),
        };
        return Some((m.span(), t));
    }
    None
}

/// what goes into a formatted text: expressions, or names in the literal
fn said_args(m: &syn::Macro) -> Option<Vec<Result<syn::Expr, String>>> {
    let all = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).ok()?;
    let mut it = all.into_iter();
    let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(lit), .. }) = it.next()? else {
        return None;
    };
    let mut out: Vec<Result<syn::Expr, String>> = vec![];
    for e in it {
        if matches!(e, syn::Expr::Assign(_)) {
            return None;
        }
        out.push(Ok(e));
    }
    let t = lit.value().replace("{{", "");
    for part in t.split('{').skip(1) {
        let name: String = part.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        if !name.is_empty() && !name.starts_with(|c: char| c.is_ascii_digit()) {
            out.push(Err(name));
        }
    }
    Some(out)
}

/// the parts of a text made by `format!`: what is between the arguments, and these
fn text_parts(m: &syn::Macro) -> Option<(Vec<String>, Vec<Result<syn::Expr, String>>)> {
    let all = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).ok()?;
    let mut it = all.into_iter();
    let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(lit), .. }) = it.next()? else {
        return None;
    };
    let (mut lits, mut args) = (vec![String::new()], vec![]);
    let t: Vec<char> = lit.value().chars().collect();
    let mut i = 0;
    while i < t.len() {
        match t[i] {
            c @ ('{' | '}') if t.get(i + 1) == Some(&c) => {
                lits.last_mut()?.push(c);
                i += 2;
            }
            '{' => {
                let n = t[i..].iter().position(|c| *c == '}')?;
                let name: String = t[i + 1..i + n].iter().collect();
                if name.is_empty() {
                    args.push(Ok(it.next()?));
                } else {
                    syn::parse_str::<syn::Ident>(&name).ok()?;
                    args.push(Err(name));
                }
                lits.push(String::new());
                i += n + 1;
            }
            c => {
                lits.last_mut()?.push(c);
                i += 1;
            }
        }
    }
    (it.next().is_none() && args.len() <= 4).then_some((lits, args))
}

/// where `writeln!(to, "{}", text)` writes, and what
fn line_args(m: &syn::Macro) -> Option<(Span, Result<Span, String>)> {
    let all = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).ok()?;
    let all: Vec<_> = all.iter().collect();
    let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(lit), .. }) = all.get(1)? else { return None };
    let fmt = lit.value();
    match all.len() {
        3 if fmt == "{}" => Some((all[0].span(), Ok(all[2].span()))),
        2 if fmt.starts_with('{') && fmt.ends_with('}') && syn::parse_str::<syn::Ident>(&fmt[1..fmt.len() - 1]).is_ok() => {
            Some((all[0].span(), Err(format!("&{}", &fmt[1..fmt.len() - 1]))))
        }
        _ => None,
    }
}

/// what `println!("{}", value)` prints
fn shown_arg(m: &syn::Macro) -> Option<Result<Span, String>> {
    let all = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated).ok()?;
    let all: Vec<_> = all.iter().collect();
    let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(lit), .. }) = all.first()? else { return None };
    let fmt = lit.value();
    match all.len() {
        2 if fmt == "{}" => Some(Ok(all[1].span())),
        1 if fmt.starts_with('{') && fmt.ends_with('}') && syn::parse_str::<syn::Ident>(&fmt[1..fmt.len() - 1]).is_ok() => Some(Err(fmt[1..fmt.len() - 1].into())),
        _ => None,
    }
}

fn subst(text: &str, from: &str, to: &str) -> String {
    if from == to {
        return text.into();
    }
    let mut o = String::new();
    let mut rest = text;
    while let Some(i) = rest.find(from) {
        let before = rest[..i].chars().next_back();
        let after = rest[i + from.len()..].chars().next();
        let word = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
        o.push_str(&rest[..i]);
        o.push_str(if word(before) || word(after) || before == Some('.') {
            from
        } else {
            to
        });
        rest = &rest[i + from.len()..];
    }
    o + rest
}

/// where a pattern occurs, white space aside
fn loose(text: &str, pat: &str) -> Vec<(usize, usize)> {
    let chars: Vec<(usize, char)> = text.char_indices().filter(|(_, c)| !c.is_whitespace()).collect();
    let pat: Vec<char> = pat.chars().filter(|c| !c.is_whitespace()).collect();
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = vec![];
    let mut i = 0;
    while i + pat.len() <= chars.len() && !pat.is_empty() {
        let (s, e) = (chars[i].0, chars[i + pat.len() - 1]);
        let end = e.0 + e.1.len_utf8();
        if (0..pat.len()).all(|k| chars[i + k].1 == pat[k])
            && !(word(pat[0]) && text[..s].ends_with(word))
            && !(word(pat[pat.len() - 1]) && text[end..].starts_with(word))
        {
            out.push((s, end));
            i += pat.len();
        } else {
            i += 1;
        }
    }
    out
}

/// a method as a function of its own: the implementations of traits for types inside functions included
fn lift(text: &str, key: &str, name: &str) -> Option<String> {
    struct Impls<'a>(Vec<&'a syn::ItemImpl>, Vec<&'a syn::ItemStruct>, usize);
    impl<'a> Visit<'a> for Impls<'a> {
        fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
            self.0.push(i);
            self.2 += 1;
            syn::visit::visit_item_impl(self, i);
            self.2 -= 1;
        }
        fn visit_item_struct(&mut self, i: &'a syn::ItemStruct) {
            if self.2 > 0 {
                self.1.push(i);
            }
        }
    }
    let ast = syn::parse_file(text).ok()?;
    let mut all = Impls(vec![], vec![], 0);
    all.visit_file(&ast);
    let src = Src::new(text.into());
    for im in &all.0 {
        let ty = squash(&im.self_ty);
        let base = match &im.trait_ {
            Some((_, p, _)) => format!("{}for{}", squash(p), ty),
            None => ty.clone(),
        };
        for it in &im.items {
            let syn::ImplItem::Fn(f) = it else { continue };
            if format!("{base}::{}", f.sig.ident) != key {
                continue;
            }
            let of: Vec<(String, String)> = im
                .items
                .iter()
                .filter_map(|i| match i {
                    syn::ImplItem::Type(t) => Some((format!("Self::{}", t.ident), src.slice(t.ty.span()).to_string())),
                    _ => None,
                })
                .collect();
            let fix = |t: &str| {
                let mut t = subst(t, "self", "this");
                for (a, b) in &of {
                    t = subst(&t, a, b);
                }
                subst(&t, "Self", src.slice(im.self_ty.span()))
            };
            let gens: Vec<String> = im.generics.params.iter().chain(&f.sig.generics.params).map(|p| src.slice(p.span()).to_string()).collect();
            let wheres: Vec<String> = [&im.generics, &f.sig.generics]
                .iter()
                .filter_map(|g| g.where_clause.as_ref())
                .flat_map(|w| w.predicates.iter().map(|p| src.slice(p.span()).to_string()))
                .collect();
            let params: Vec<String> = f
                .sig
                .inputs
                .iter()
                .map(|a| match a {
                    syn::FnArg::Receiver(r) => {
                        let by = match (&r.reference, &r.mutability) {
                            (Some(_), Some(_)) => "&mut ",
                            (Some(_), None) => "&",
                            _ => "",
                        };
                        format!("this: {by}{}", src.slice(im.self_ty.span()))
                    }
                    syn::FnArg::Typed(t) => fix(src.slice(t.span())),
                })
                .collect();
            let ret = match &f.sig.output {
                syn::ReturnType::Default => String::new(),
                syn::ReturnType::Type(_, t) => format!("-> {}", fix(src.slice(t.span()))),
            };
            let mut out = String::new();
            // what it is a method of, where that is inside a function
            if let Some(s) = all.1.iter().find(|s| ty == s.ident.to_string()) {
                let decl = format!("\n{}\n", src.slice(s.span()));
                if !text.contains(&format!("\n// copied: {ty}\n")) {
                    out += &format!("\n// copied: {ty}{decl}");
                }
            }
            let wheres = if wheres.is_empty() { String::new() } else { format!("where {}", fix(&wheres.join(", "))) };
            out += &format!("\nfn {name}<{}>({}) {ret} {wheres} {}\n", gens.join(", "), params.join(", "), fix(src.slice(f.block.span())));
            return Some(out);
        }
    }
    None
}

/// the contents of a module of the expanded crate
fn module(all: proc_macro2::TokenStream, path: &[&str]) -> Option<proc_macro2::TokenStream> {
    use proc_macro2::TokenTree as T;
    let Some((first, more)) = path.split_first() else { return Some(all) };
    let toks: Vec<T> = all.into_iter().collect();
    toks.windows(3).find_map(|w| match w {
        [T::Ident(m), T::Ident(n), T::Group(g)] if *m == "mod" && *n == *first => module(g.stream(), more),
        _ => None,
    })
}

/// the implementation of a trait for a type which a derive made there
fn derived_impl(all: proc_macro2::TokenStream, of: &str) -> Option<syn::ItemImpl> {
    use proc_macro2::TokenTree as T;
    let toks: Vec<T> = all.into_iter().collect();
    for w in toks.windows(4) {
        // _ : () = { … }
        let [T::Punct(_), T::Group(_), T::Punct(e), T::Group(g)] = w else { continue };
        if e.as_char() != '=' {
            continue;
        }
        let Ok(stmts) = syn::parse::Parser::parse2(syn::Block::parse_within, g.stream()) else { continue };
        for s in stmts {
            let syn::Stmt::Item(syn::Item::Impl(im)) = s else { continue };
            let Some((_, p, _)) = &im.trait_ else { continue };
            let (Some(tr), syn::Type::Path(ty)) = (p.segments.last(), &*im.self_ty) else { continue };
            if ty.path.segments.last().is_some_and(|t| format!("{}for{}", tr.ident, t.ident) == of) {
                return Some(im);
            }
        }
    }
    None
}

/// what serde's derives write, in what the verifier takes
struct Plain;
fn ends(e: &syn::Expr, with: &str) -> bool {
    matches!(e, syn::Expr::Path(p) if squash(p).ends_with(with))
}
fn call_to(name: &str, args: Vec<syn::Expr>) -> syn::Expr {
    let f: syn::Path = syn::parse_str(name).unwrap();
    syn::parse_quote!(#f(#(#args),*))
}
impl syn::visit_mut::VisitMut for Plain {
    fn visit_ident_mut(&mut self, i: &mut proc_macro2::Ident) {
        if *i == "self" {
            *i = proc_macro2::Ident::new("this", i.span());
        }
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.segments.len() > 1 && p.segments[0].ident == "_serde" {
            if p.segments.len() == 3 && p.segments[1].ident.to_string().starts_with("__private") {
                let last = p.segments[2].clone();
                p.segments = std::iter::once(last).collect();
            } else {
                p.segments[0].ident = proc_macro2::Ident::new("serde", p.segments[0].ident.span());
            }
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        if let syn::Pat::Ident(i) = p {
            i.by_ref = None;
        }
        syn::visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        match e {
            syn::Expr::Match(m) => {
                if let syn::Expr::Unary(syn::ExprUnary { op: syn::UnOp::Deref(_), expr, .. }) = &*m.expr {
                    if squash(expr) == "self" {
                        let inner = (**expr).clone();
                        *m.expr = inner;
                    }
                }
            }
            // a field left out under a condition
            syn::Expr::If(i) => {
                fn tried(b: &syn::Block) -> Option<&syn::ExprCall> {
                    match &b.stmts[..] {
                        [syn::Stmt::Expr(syn::Expr::Try(t), Some(_))] => match &*t.expr {
                            syn::Expr::Call(c) => Some(c),
                            _ => None,
                        },
                        _ => None,
                    }
                }
                if let (syn::Expr::Unary(syn::ExprUnary { op: syn::UnOp::Not(_), expr: skip, .. }), Some(put), Some((_, other))) = (&*i.cond, tried(&i.then_branch), &i.else_branch) {
                    if let syn::Expr::Block(b) = &**other {
                        if let Some(left) = tried(&b.block) {
                            if ends(&put.func, "SerializeStruct::serialize_field")
                                && ends(&left.func, "SerializeStruct::skip_field")
                                && put.args.len() == 3
                                && left.args.len() == 2
                                && squash(&put.args[0]) == squash(&left.args[0])
                            {
                                let args = vec![put.args[0].clone(), (**skip).clone(), put.args[1].clone(), put.args[2].clone()];
                                let c = call_to("crate::se::field_unless", args);
                                *e = syn::parse_quote!({ #c?; });
                            }
                        }
                    }
                }
            }
            // the wrapper made for `with`
            syn::Expr::Block(b) if matches!(b.block.stmts.first(), Some(syn::Stmt::Item(syn::Item::Struct(s))) if s.ident == "__SerializeWith") => {
                struct By(Option<String>);
                impl<'a> Visit<'a> for By {
                    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
                        if let syn::Expr::Path(p) = &*c.func {
                            self.0.get_or_insert(squash(p));
                        }
                    }
                }
                let mut by = By(None);
                let mut given = None;
                for s in &b.block.stmts {
                    match s {
                        syn::Stmt::Item(syn::Item::Impl(im)) => by.visit_item_impl(im),
                        syn::Stmt::Expr(syn::Expr::Struct(s), None) => {
                            given = s.fields.iter().find_map(|f| match (&f.member, &f.expr) {
                                (syn::Member::Named(n), syn::Expr::Tuple(t)) if n == "values" => t.elems.first().cloned(),
                                _ => None,
                            })
                        }
                        _ => {}
                    }
                }
                if let (Some(by), Some(given)) = (by.0, given) {
                    let by = by.trim_end_matches("::serialize").replace("crate::", "").replace("super::", "").replace("::", "_");
                    *e = call_to(&format!("crate::se::by_{by}"), vec![given]);
                }
            }
            syn::Expr::Call(c) => {
                let args: Vec<syn::Expr> = c.args.iter().cloned().collect();
                if ends(&c.func, "Serializer::serialize_struct") && args.len() == 3 {
                    c.args[2] = syn::parse_quote!(0usize);
                } else if ends(&c.func, "::serialize_tagged_newtype") {
                    *e = call_to("crate::se::tagged", args);
                } else if ends(&c.func, "Serialize::serialize") && args.len() == 2 {
                    *e = match &args[1] {
                        syn::Expr::Call(f) if ends(&f.func, "::FlatMapSerializer") => {
                            call_to("crate::se::flattened", vec![args[0].clone(), f.args[0].clone()])
                        }
                        _ => call_to("crate::se::through", args),
                    };
                } else if ends(&c.func, "ops::Not::not") && args.len() == 1 {
                    if let syn::Expr::Reference(r) = &args[0] {
                        let x = &r.expr;
                        *e = syn::parse_quote!((!#x));
                    }
                }
            }
            _ => {}
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

/// code as text, a statement to a line
fn lines_of(t: proc_macro2::TokenStream) -> String {
    use proc_macro2::{Delimiter, Spacing, TokenTree as T};
    let mut o = String::new();
    for t in t {
        match t {
            T::Group(g) => {
                let (a, b, nl) = match g.delimiter() {
                    Delimiter::Brace => ("{\n", "}\n", true),
                    Delimiter::Parenthesis => ("(", ") ", false),
                    Delimiter::Bracket => ("[", "] ", false),
                    Delimiter::None => ("", "", false),
                };
                o += a;
                o += &lines_of(g.stream());
                if nl && !o.ends_with('\n') {
                    o.push('\n');
                }
                o += b;
            }
            T::Punct(p) => {
                o.push(p.as_char());
                if p.as_char() == ';' {
                    o.push('\n');
                } else if p.spacing() == Spacing::Alone {
                    o.push(' ');
                }
            }
            t => {
                o += &t.to_string();
                o.push(' ');
            }
        }
    }
    o
}

/// what a derive makes, as a function of its own
fn derived(all: &proc_macro2::TokenStream, file: &str, of: &str, name: &str) -> Option<String> {
    use syn::visit_mut::VisitMut;
    let path: Vec<&str> = file.trim_end_matches(".rs").split('/').filter(|p| *p != "mod").collect();
    let im = derived_impl(module(all.clone(), &path)?, of)?;
    let f = im.items.iter().find_map(|i| match i {
        syn::ImplItem::Fn(f) => Some(f),
        _ => None,
    })?;
    let mut f = f.clone();
    Plain.visit_impl_item_fn_mut(&mut f);
    let (ty, id) = (&im.self_ty, proc_macro2::Ident::new(name, proc_macro2::Span::call_site()));
    let gens: Vec<_> = im.generics.params.iter().chain(&f.sig.generics.params).collect();
    let mut wheres = vec![];
    for g in [&im.generics, &f.sig.generics] {
        for mut w in g.where_clause.iter().flat_map(|w| w.predicates.clone()) {
            Plain.visit_where_predicate_mut(&mut w);
            wheres.push(w);
        }
    }
    let rest = f.sig.inputs.iter().skip(1);
    let (ret, body) = (&f.sig.output, &f.block);
    Some(lines_of(quote::quote!(fn #id<#(#gens),*>(this: &#ty, #(#rest),*) #ret where #(#wheres),* #body)))
}

/// what serde's derives make of a decoder, in what the verifier takes
struct PlainIn {
    /// the enumeration of the names
    names: String,
    /// the variables by field
    fields: BTreeMap<String, String>,
    /// the type which is decoded
    ty: syn::Type,
    /// by which of its variants fits
    untagged: bool,
}
impl PlainIn {
    fn collect(&self, e: &syn::Expr) -> Option<syn::Expr> {
        // __collect.push(Some((__name, next_value_seed(&mut __map, …)?)))
        let syn::Expr::MethodCall(m) = e else { return None };
        if m.method != "push" || squash(&m.receiver) != "__collect" || m.args.len() != 1 {
            return None;
        }
        let t = squash(&m.args[0]);
        (t.contains("Some((__name,") && t.contains("next_value_seed(&mut__map,") && t.contains("ContentVisitor::new()"))
            .then(|| syn::parse_quote!(crate::se::collect(&mut __collect, __name, &mut __map)?))
    }
}
impl syn::visit_mut::VisitMut for PlainIn {
    fn visit_ident_mut(&mut self, i: &mut proc_macro2::Ident) {
        let to = if *i == "__Field" { Some(&self.names) } else { self.fields.get(&i.to_string()) };
        if let Some(n) = to {
            *i = proc_macro2::Ident::new(n, i.span());
        } else if *i == "__other" || *i == "__ignore" {
            *i = proc_macro2::Ident::new("other", i.span());
        }
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if squash(&*t) == "Self::Value" {
            *t = self.ty.clone();
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.segments.len() > 1 && p.segments[0].ident == "_serde" {
            if p.segments.len() > 2 && p.segments[1].ident.to_string().starts_with("__private") {
                p.segments = p.segments.iter().skip(2).cloned().collect();
            } else {
                p.segments[0].ident = proc_macro2::Ident::new("serde", p.segments[0].ident.span());
            }
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        match e {
            syn::Expr::While(w) => {
                if let syn::Expr::Let(l) = &*w.cond {
                    let (p, x, b) = (&l.pat, &l.expr, &w.body);
                    *e = syn::parse_quote!(loop {
                        let __next = #x;
                        match __next { #p => #b, _ => break }
                    });
                }
            }
            syn::Expr::Block(b) if matches!(b.block.stmts.first(), Some(syn::Stmt::Item(syn::Item::Struct(s))) if s.ident == "__DeserializeWith") => {
                struct By(Option<String>);
                impl<'a> Visit<'a> for By {
                    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
                        match &*c.func {
                            syn::Expr::Path(p) if squash(p).ends_with("::deserialize") || squash(p).ends_with("::borrow_cow_str") => {
                                self.0.get_or_insert(squash(p));
                            }
                            _ => syn::visit::visit_expr_call(self, c),
                        }
                    }
                }
                let mut by = By(None);
                for s in &b.block.stmts {
                    if let syn::Stmt::Item(syn::Item::Impl(im)) = s {
                        by.visit_item_impl(im)
                    }
                }
                let last = b.block.stmts.last().map(|s| squash(s)).unwrap_or_default();
                if let Some(by) = by.0.filter(|_| last.contains("MapAccess::next_value::<__DeserializeWith")) {
                    let by = if by.ends_with("::borrow_cow_str") { "borrow_cow_str".to_string() } else { by };
                    let by = by.trim_end_matches("::deserialize").replace("crate::", "").replace("super::", "").replace("::", "_");
                    let f: syn::Path = syn::parse_str(&format!("crate::se::next_by_{by}")).unwrap();
                    *e = syn::parse_quote!(#f(&mut __map)?);
                }
            }
            syn::Expr::Call(c) => {
                let args: Vec<syn::Expr> = c.args.iter().cloned().collect();
                let f = squash(&c.func);
                if f.starts_with('<') && (f.ends_with("::duplicate_field") || f.ends_with("::missing_field")) || f.ends_with("Error::unknown_variant") {
                    *e = call_to("crate::se::refused", vec![]);
                } else if self.untagged && f.ends_with("Error::custom") {
                    *e = call_to("crate::se::refused", vec![]);
                } else if f.ends_with("DeserializeSeed::deserialize") && args.len() == 2 && squash(&args[0]).ends_with("ContentVisitor::new()") {
                    let d = args[1].clone();
                    *e = syn::parse_quote!(crate::se::content_of::<__D>(#d));
                } else if f.contains("ContentRefDeserializer::<") && f.ends_with("::new") && args.len() == 1 {
                    *e = args[0].clone();
                } else if f.ends_with("::borrow_cow_str") && args.len() == 1 {
                    *e = call_to("crate::se::untagged_by_borrow_cow_str::<__D::Error>", args);
                } else if f.ends_with("::de::missing_field") {
                    *e = call_to("crate::se::missing::<_, __A::Error>", args);
                } else if f.ends_with("::Default::default") {
                    *e = call_to("crate::se::default_of", vec![]);
                } else if f.contains("Vec::<") && f.contains("::Content,") && f.ends_with("::new") {
                    *e = call_to("crate::se::collected", vec![]);
                } else if f.ends_with("EnumAccess::variant") && args.len() == 1 {
                    *e = call_to("crate::se::variant::<_, __A>", args);
                } else if f.ends_with("VariantAccess::unit_variant") && args.len() == 1 {
                    *e = call_to("crate::se::no_more", args);
                } else if f.ends_with("Deserialize::deserialize") && args.len() == 1 && squash(&args[0]).contains("FlatMapDeserializer(&mut__collect,") {
                    *e = syn::parse_quote!(crate::se::flat_in::<_, __A::Error>(&mut __collect));
                } else if f.ends_with("Deserializer::deserialize_any") && args.len() == 2 {
                    // the tag of an enumeration and what is beside it
                    if let syn::Expr::Call(t) = &args[1] {
                        if squash(&t.func).contains("TaggedContentVisitor::<__Field>::new") {
                            let (d, tag) = (args[0].clone(), t.args[0].clone());
                            *e = syn::parse_quote!(crate::se::tag_and_content::<__Field, __D>(#tag, #d));
                        } else if squash(&t.func).ends_with("InternallyTaggedUnitVisitor::new") {
                            let d = args[0].clone();
                            *e = syn::parse_quote!(crate::se::nothing_in::<__D::Error>(#d));
                        }
                    }
                } else if f.contains("ContentDeserializer::<") && f.ends_with("::new") && args.len() == 1 {
                    *e = args[0].clone();
                } else if f.ends_with("Result::map") && args.len() == 2 {
                    if let (syn::Expr::Path(r), syn::Expr::Path(v)) = (&args[0], &args[1]) {
                        *e = syn::parse_quote!(match #r {
                            Ok(__value) => Ok(#v(__value)),
                            Err(__error) => Err(__error),
                        });
                    } else if let (syn::Expr::Call(d), syn::Expr::Path(v)) = (&args[0], &args[1]) {
                        if let syn::Expr::Path(p) = &*d.func {
                            if let (Some(q), true) = (&p.qself, squash(&p.path).ends_with("Deserialize::deserialize")) {
                                let (ty, from) = (&q.ty, &d.args[0]);
                                let by: syn::Path = if self.untagged { syn::parse_quote!(crate::se::untagged_in::<#ty, __D::Error>) } else { syn::parse_quote!(crate::se::content_in::<#ty, __D::Error>) };
                                *e = syn::parse_quote!(match #by(#from) {
                                    Ok(__value) => Ok(#v(__value)),
                                    Err(__error) => Err(__error),
                                });
                            }
                        }
                    }
                }
            }
            _ => {
                if let Some(to) = self.collect(e) {
                    *e = to;
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

/// which name each of the names stands for: (literals, name), and whether others are taken
fn names_in(f: &syn::ImplItemFn) -> Option<(Vec<(Vec<String>, String)>, Option<bool>)> {
    let m = f.block.stmts.iter().find_map(|s| match s {
        syn::Stmt::Expr(syn::Expr::Match(m), _) => Some(m),
        _ => None,
    })?;
    let (mut names, mut others) = (vec![], None);
    for a in &m.arms {
        let lits: Option<Vec<String>> = match &a.pat {
            syn::Pat::Lit(l) => Some(vec![squash(l)]),
            syn::Pat::Or(o) => o.cases.iter().map(|c| matches!(c, syn::Pat::Lit(_)).then(|| squash(c))).collect(),
            syn::Pat::Wild(_) => {
                let t = squash(&a.body);
                // whether the name is kept
                others = if t.contains("__Field::__other(") {
                    Some(true)
                } else if t.contains("__Field::__ignore") {
                    Some(false)
                } else {
                    None
                };
                continue;
            }
            _ => return None,
        };
        let t = squash(&a.body);
        let at = t.find("__Field::")? + "__Field::".len();
        names.push((lits?, t[at..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()));
    }
    Some((names, others))
}

/// the type of a field of a structure
fn field_type(all: proc_macro2::TokenStream, of: &str, name: &syn::Ident) -> Option<syn::Type> {
    use proc_macro2::TokenTree as T;
    let toks: Vec<T> = all.into_iter().collect();
    let at = toks.windows(2).position(|w| matches!(w, [T::Ident(s), T::Ident(n)] if *s == "struct" && *n == of))?;
    let fields = toks[at..].iter().find_map(|t| match t {
        T::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace => syn::parse2::<syn::FieldsNamed>(proc_macro2::TokenStream::from(t.clone())).ok(),
        _ => None,
    })?;
    let f = fields.named.iter().find(|f| f.ident.as_ref() == Some(name))?;
    Some(f.ty.clone())
}

/// what a derive makes of a decoder, as a function of its own
fn derived_in(all: &proc_macro2::TokenStream, file: &str, of: &str, name: &str) -> Option<String> {
    use syn::visit_mut::VisitMut;
    let path: Vec<&str> = file.trim_end_matches(".rs").split('/').filter(|p| *p != "mod").collect();
    let im = derived_impl(module(all.clone(), &path)?, of)?;
    let f = im.items.iter().find_map(|i| match i {
        syn::ImplItem::Fn(f) => Some(f),
        _ => None,
    })?;
    let visitor = |of: &str, method: &str| {
        f.block.stmts.iter().find_map(|s| match s {
            syn::Stmt::Item(syn::Item::Impl(v)) if v.trait_.as_ref().is_some_and(|t| t.1.segments.last().is_some_and(|s| s.ident == "Visitor")) => match &*v.self_ty {
                syn::Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == of) => v.items.iter().find_map(|i| match i {
                    syn::ImplItem::Fn(m) if m.sig.ident == method => Some(m.clone()),
                    _ => None,
                }),
                _ => None,
            },
            _ => None,
        })
    };
    // an enumeration without tags has no names
    let untagged = squash(&f.block).contains("ContentRefDeserializer::<");
    let (names, others) = if untagged { (vec![], None) } else { names_in(&visitor("__FieldVisitor", "visit_str")?)? };
    let syn::Type::Path(tp) = &*im.self_ty else { return None };
    let ident = tp.path.segments.last()?.ident.to_string();
    let mut to = PlainIn { names: format!("{ident}Name__"), fields: BTreeMap::new(), ty: (*im.self_ty).clone(), untagged };
    let mut g = match visitor("__Visitor", "visit_map") {
        Some(g) => g,
        None => match visitor("__Visitor", "visit_enum") {
            Some(g) => g,
            // the function itself, without the items within
            None => {
                let mut g = f.clone();
                g.block.stmts.retain(|s| !matches!(s, syn::Stmt::Item(_)));
                g.sig.output = syn::parse_quote!(-> Result<Self::Value, __D::Error>);
                g
            }
        },
    };
    let mut left_out: Vec<(proc_macro2::Ident, syn::Type)> = vec![];
    if let Some(syn::Stmt::Expr(syn::Expr::Call(c), None)) = g.block.stmts.last() {
        if let Some(syn::Expr::Struct(s)) = c.args.first() {
            for x in &s.fields {
                if let syn::Member::Named(n) = &x.member {
                    if matches!(x.expr, syn::Expr::Path(_)) {
                        to.fields.insert(squash(&x.expr), format!("f_{n}"));
                    } else if let Some(t) = field_type(module(all.clone(), &path)?, &ident, n) {
                        // one which is never read
                        left_out.push((proc_macro2::Ident::new(&format!("f_{n}"), n.span()), t));
                    }
                }
            }
        }
    }
    for (v, t) in left_out {
        g.block.stmts.insert(0, syn::parse_quote!(let #v: Option<#t> = None;));
    }
    // what is given, apart from what is left of it
    for a in &mut g.sig.inputs {
        if let syn::FnArg::Typed(t) = a {
            if squash(&t.pat) == "mut__map" {
                t.pat = syn::parse_quote!(__given);
                g.block.stmts.insert(0, syn::parse_quote!(let mut __map = __given;));
            }
        }
    }
    to.visit_impl_item_fn_mut(&mut g);
    let called = |f: &String| to.fields.get(f).unwrap_or(f).clone();
    // the names
    let en = &to.names;
    let mut named = format!("\n#[verus_verify]\n#[allow(non_camel_case_types)]\nenum {en} {{ ");
    for (_, n) in &names {
        named += &format!("{}, ", called(n));
    }
    named += match others {
        Some(true) => "other(crate::se::Name)",
        Some(false) => "other",
        None => "",
    };
    named += &format!(" }}\nimpl<'de> serde::Deserialize<'de> for {en} {{\nfn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {{ unimplemented!() }}\n}}\n");
    named += &format!("verus! {{\nspec fn {name}_name(s: Seq<char>, n: {en}) -> bool {{\nmatch n {{\n");
    let mut seen: Vec<String> = vec![];
    for (lits, n) in &names {
        let ts: Vec<String> = lits.iter().filter(|l| !seen.contains(l)).map(|l| format!("s == {l}@")).collect();
        seen.extend(lits.iter().cloned());
        named += &format!("{en}::{} => {},\n", called(n), if ts.is_empty() { "false".into() } else { ts.join(" || ") });
    }
    let none: Vec<String> = seen.iter().map(|l| format!("s != {l}@")).chain([String::from("true")]).collect();
    match others {
        Some(true) => named += &format!("{en}::other(n) => n.text() == s && {},\n", none.join(" && ")),
        Some(false) => named += &format!("{en}::other => {},\n", none.join(" && ")),
        None => {}
    }
    let any: Vec<String> = seen.iter().map(|l| format!("s == {l}@")).chain([others.is_some().to_string()]).collect();
    named += &format!("}}\n}}\nspec fn {name}_known(s: Seq<char>) -> bool {{ {} }}\n", any.join(" || "));
    named += &format!(
        "broadcast axiom fn {name}_name_read(t: crate::se::Tree, n: {en}) ensures #[trigger] crate::se::reads::<{en}>(t, n) ==> (t matches crate::se::Tree::Text(s) ==> {name}_name(s, n));\n\
         broadcast axiom fn {name}_name_kept(t: crate::se::Tree) ensures (t matches crate::se::Tree::Text(s) && {name}_known(s)) ==> #[trigger] crate::se::kept::<{en}>(t);\n\
         broadcast group {name}_names {{ {name}_name_read, {name}_name_kept }}\n}}\n"
    );
    let mut out = if untagged { String::new() } else { named };
    let more = &g.sig.generics.params;
    let mut wheres = vec![];
    for w in [&im.generics, &f.sig.generics, &g.sig.generics].iter().flat_map(|g| g.where_clause.iter()).flat_map(|w| w.predicates.iter()) {
        let mut w = w.clone();
        to.visit_where_predicate_mut(&mut w);
        let t = squash(&w);
        if wheres.iter().all(|x: &syn::WherePredicate| squash(x) != t) && (!t.starts_with("__D:") || squash(more).contains("__D")) {
            wheres.push(w);
        }
    }
    let own: Vec<_> = im.generics.params.iter().collect();
    let more: Vec<_> = more.iter().collect();
    let params = g.sig.inputs.iter().filter(|a| !matches!(a, syn::FnArg::Receiver(_)));
    let (id, ret, body) = (proc_macro2::Ident::new(name, proc_macro2::Span::call_site()), &g.sig.output, &g.block);
    out += &lines_of(quote::quote!(fn #id<#(#own,)* #(#more),*>(#(#params),*) #ret where #(#wheres),* #body));
    Some(out)
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let vacuity = args.first().is_some_and(|a| a == "--vacuity");
    if vacuity {
        args.remove(0);
    }
    // functions to be taken on their contracts alone: the verifier cannot read their bodies
    let mut alone: BTreeSet<String> = BTreeSet::new();
    // functions whose bodies are to be read without hints: those no longer fit
    let mut bare: BTreeSet<String> = BTreeSet::new();
    while let Some(a) = args.first().filter(|a| *a == "--isolate" || *a == "--bare").cloned() {
        args.remove(0);
        if a == "--bare" { &mut bare } else { &mut alone }.insert(args.remove(0));
    }
    // the crate as the compiler expands it
    let mut expanded = proc_macro2::TokenStream::new();
    if args.first().is_some_and(|a| a == "--expanded") {
        args.remove(0);
        expanded = std::fs::read_to_string(args.remove(0)).ok().and_then(|t| t.parse().ok()).unwrap_or_default();
    }
    let cut = args.iter().position(|a| a == "--").expect("--");
    let dir = PathBuf::from(&args[cut + 1]);
    let mut files: BTreeMap<String, FileContracts> = BTreeMap::new();
    for a in &args[..cut] {
        parse_contracts(&std::fs::read_to_string(a).unwrap(), &mut files);
    }
    let mut report_fns: Vec<Value> = vec![];
    let mut lost: Vec<Value> = vec![];
    let mut report_spans: Vec<Value> = vec![];
    let mut rewritten: Vec<String> = vec![];
    for (name, fc) in &files {
        let path = dir.join(name);
        let Ok(mut text) = std::fs::read_to_string(&path) else {
            for c in &fc.fns {
                lost.push(json!({"fn": c.key, "file": name, "what": "file", "props": c.props}));
            }
            continue;
        };
        for (key, to) in &fc.lifts {
            match lift(&text, key, to) {
                Some(t) => {
                    text.push_str(&t);
                    rewritten.push(format!("{name} {key}: copied as the function {to}"));
                }
                // reported by what is said of that function
                None => {}
            }
        }
        for (of, to) in &fc.derived {
            // where there is none, what is said of that function reports it
            let made = if of.starts_with("Deserialize") { derived_in(&expanded, name, of, to) } else { derived(&expanded, name, of, to) };
            if let Some(t) = made {
                text.push('\n');
                text.push_str(&t);
                rewritten.push(format!("{name} {of}: what the derive makes, copied as the function {to}"));
            }
        }
        // what the verifier does not take, rewritten until none is left
        for pass in 0..400 {
            let Ok(ast) = syn::parse_file(&text) else {
                break;
            };
            let mut fns = vec![];
            all_fns(&ast.items, "", &mut fns);
            let mut src = Src::new(text.clone());
            'fns: for (key, f) in &fns {
                let Some(con) = fc.fns.iter().find(|c| c.key == *key) else {
                    continue;
                };
                let mut finds = Finds::default();
                if alone.contains(&format!("{name} {key}")) {
                    // only its signature matters
                    if pass <= 1 {
                        continue;
                    }
                } else {
                    finds.visit_block(f.block());
                }
                if pass > 1 {
                    if fc.texts {
                        finds.logs.append(&mut finds.prints);
                    }
                    for l in &finds.logs {
                        src.replace(l.span(), String::new());
                        rewritten.push(format!("{name} {key}: logging statement dropped"));
                    }
                    if !finds.logs.is_empty() {
                        break 'fns;
                    }
                    let texts: Vec<_> = finds.macros.iter().filter(|m| m.path.is_ident("format")).collect();
                    for m in &texts {
                        if let Some((lits, args)) = text_parts(m).filter(|_| fc.texts) {
                            let show: String = lits.iter().map(|l| format!("reveal_strlit({l:?}); ")).collect();
                            let mut all = vec![];
                            for (i, l) in lits.iter().enumerate() {
                                all.push(format!("{l:?}"));
                                match args.get(i) {
                                    Some(Ok(e)) => all.push(format!("&({})", src.slice(e.span()))),
                                    Some(Err(n)) => all.push(format!("&{n}")),
                                    None => {}
                                }
                            }
                            src.replace(m.span(), format!("{{ proof!{{ {show} }} crate::ln::text{}({}) }}", args.len(), all.join(", ")));
                            rewritten.push(format!("{name} {key}: format! as a text made of its literal parts and arguments"));
                            continue;
                        }
                        let args: Vec<String> = said_args(m)
                            .unwrap_or_default()
                            .iter()
                            .map(|e| match e {
                                Ok(e) => format!("&({})", src.slice(e.span())),
                                Err(i) => format!("&{i}"),
                            })
                            .collect();
                        let n = args.len();
                        let t = if n <= 3 { format!("crate::vspec::said{n}({})", args.join(", ")) } else { "crate::vspec::said0()".into() };
                        src.replace(m.span(), t);
                        rewritten.push(format!("{name} {key}: format! as an arbitrary text that states its arguments"));
                    }
                    if !texts.is_empty() {
                        break 'fns;
                    }
                    // something printed
                    if fc.shows {
                        let shown = finds.macros.iter().filter(|m| m.path.is_ident("println")).find_map(|m| Some((m, shown_arg(m)?)));
                        if let Some((m, e)) = shown {
                            let e = match e { Ok(e) => src.slice(e).to_string(), Err(i) => i };
                            src.replace(m.span(), format!("crate::tb::show(&({e}))"));
                            rewritten.push(format!("{name} {key}: println! of one value as show"));
                            break 'fns;
                        }
                    }
                    // a line written out
                    let lines: Vec<_> = finds.macros.iter().filter(|m| m.path.is_ident("writeln")).collect();
                    for m in &lines {
                        let Some((to, said)) = line_args(m) else { continue };
                        let t = format!("crate::sv::written_line({}, {})", src.slice(to), match said {
                            Ok(s) if src.slice(s).starts_with('&') => src.slice(s).to_string(),
                            Ok(s) => format!("&({})", src.slice(s)),
                            Err(i) => i,
                        });
                        src.replace(m.span(), t);
                        rewritten.push(format!("{name} {key}: writeln! of one text as written_line"));
                        break 'fns;
                    }
                    if let Some(c) = finds.chains.first() {
                        let mut parts = vec![];
                        chain_parts(&c.cond, &mut parts);
                        let then = src.slice(c.then_branch.span()).to_string();
                        let els = c.else_branch.as_ref().map(|(_, e)| {
                            let e = src.slice(e.span()).to_string();
                            if e.starts_with('{') { e } else { format!("{{ {e} }}") }
                        });
                        let mut t = then;
                        for p in parts.iter().rev() {
                            t = format!(
                                "{{ if {} {t}{} }}",
                                src.slice(p.span()),
                                els.as_ref().map(|e| format!(" else {e}")).unwrap_or_default()
                            );
                        }
                        src.replace(c.span(), t[1..t.len() - 1].trim().to_string());
                        rewritten.push(format!("{name} {key}: let-chain as nested ifs"));
                        break 'fns;
                    }
                    if fc.options {
                        if let Some((m, t)) = option_map(&finds, &src) {
                            src.replace(m, t);
                            rewritten.push(format!("{name} {key}: Option::map or bool::then written out, or Iterator::map called as mapped"));
                            break 'fns;
                        }
                    }
                    // parameters taken as mutable variables
                    for a in &f.sig().inputs {
                        let at = src.start(f.block().span()) + 1;
                        match a {
                            syn::FnArg::Receiver(r) if r.reference.is_none() && r.mutability.is_some() => {
                                src.replace(r.mutability.unwrap().span(), String::new());
                                let (s, e) = (at, src.end(f.block().span()));
                                let body = subst(&src.text[s..e], "self", "this__");
                                src.edits.push((s, e, format!(" let mut this__ = self; {body}"), 0));
                            }
                            syn::FnArg::Typed(t) => match &*t.pat {
                                syn::Pat::Ident(i) if i.mutability.is_some() && i.by_ref.is_none() => {
                                    src.replace(i.mutability.unwrap().span(), String::new());
                                    src.insert(at, format!(" let mut {0} = {0}; ", i.ident));
                                }
                                _ => continue,
                            },
                            _ => continue,
                        }
                        rewritten.push(format!("{name} {key}: a parameter is made a mutable variable in the body"));
                        break 'fns;
                    }
                    // closures take plain parameters, and those under contract borrow
                    for (i, c) in finds.closures.iter().enumerate() {
                        if let Some(m) = c.capture.as_ref().filter(|_| con.closures.iter().any(|(n, _, _)| *n == i)) {
                            src.replace(m.span(), String::new());
                            rewritten.push(format!("{name} {key}: closure {i} borrows instead of moving"));
                            break 'fns;
                        }
                        if c.inputs.iter().any(|p| !plain(p)) {
                            let mut lets = String::new();
                            let params: Vec<String> = c
                                .inputs
                                .iter()
                                .enumerate()
                                .map(|(n, p)| {
                                    if plain(p) {
                                        return src.slice(p.span()).to_string();
                                    }
                                    match p {
                                        syn::Pat::Type(t) => {
                                            lets += &format!("let {} = arg{n}; ", src.slice(t.pat.span()));
                                            format!("arg{n}: {}", src.slice(t.ty.span()))
                                        }
                                        p => {
                                            lets += &format!("let {} = arg{n}; ", src.slice(p.span()));
                                            format!("arg{n}")
                                        }
                                    }
                                })
                                .collect();
                            let body = src.slice(c.body.span()).to_string();
                            let head = format!("{}|{}| ", if c.capture.is_some() { "move " } else { "" }, params.join(", "));
                            src.replace(c.span(), format!("{head}{{ {lets}{body} }}"));
                            rewritten.push(format!("{name} {key}: closure {i} takes its parameter apart in its body"));
                            break 'fns;
                        }
                    }
                }
                if pass == 1 {
                    let mut gone = vec![];
                    for (a, b) in &con.opaque {
                        let p: String = a.chars().filter(|c| !c.is_whitespace()).collect();
                        let hit = finds
                            .exprs
                            .iter()
                            .filter(|e| {
                                let t: String = src.slice(e.span()).chars().filter(|c| !c.is_whitespace()).collect();
                                t.starts_with(&p)
                            })
                            .min_by_key(|e| src.slice(e.span()).len());
                        if let Some(e) = hit {
                            gone.push((src.start(e.span()), src.end(e.span())));
                            src.replace(e.span(), b.clone());
                            rewritten.push(format!("{name} {key}: the expression beginning `{a}` left out, as `{b}`"));
                        }
                    }
                    for e in &finds.exprs {
                        let syn::Expr::Call(c) = e else { continue };
                        for (a, b) in con.calls.iter().filter(|(a, _)| *a == squash(&c.func)) {
                            gone.push((src.start(e.span()), src.end(e.span())));
                            src.replace(e.span(), b.clone());
                            rewritten.push(format!("{name} {key}: calls of {a} as `{b}`"));
                        }
                    }
                    for m in &finds.methods {
                        let at = src.start(m.method.span());
                        if gone.iter().any(|(s, e)| *s <= at && at < *e) {
                            continue;
                        }
                        for (a, b) in &fc.renames {
                            if m.method == a {
                                src.replace(m.method.span(), b.clone());
                                rewritten.push(format!("{name} {key}: method {a} called as {b}"));
                            }
                        }
                    }
                }
                if pass == 0 {
                    let (s, e) = (src.start(f.block().span()), src.end(f.block().span()));
                    for (a, b) in &con.rewrites {
                        let body = &src.text[s..e];
                        for (i, j) in loose(body, a) {
                            let (i, j) = (s + i, s + j);
                            src.edits.push((i, j, b.clone(), 0));
                            rewritten.push(format!("{name} {key}: `{a}` as `{b}`"));
                        }
                    }
                }
            }
            if pass == 0 {
                for (a, b) in &fc.replaces {
                    for (i, j) in loose(&src.text, a) {
                        src.edits.push((i, j, b.clone(), 0));
                        rewritten.push(format!("{name}: `{a}` as `{b}`"));
                    }
                }
            }
            let changed = !src.edits.is_empty();
            text = src.apply();
            if !changed && pass > 1 {
                break;
            }
        }
        let ast = match syn::parse_file(&text) {
            Ok(a) => a,
            Err(e) => {
                for c in &fc.fns {
                    lost.push(json!({"fn": c.key, "file": name, "what": format!("does not parse: {e}"), "props": c.props}));
                }
                continue;
            }
        };
        let mut src = Src::new(text);
        let mut stubs = String::new();
        for (n, attr) in &fc.structs {
            let mut found = false;
            for i in &ast.items {
                let (ident, vis, kw, attrs, generics) = match i {
                    syn::Item::Struct(s) => (&s.ident, &s.vis, s.struct_token.span(), &s.attrs, &s.generics),
                    syn::Item::Enum(s) => (&s.ident, &s.vis, s.enum_token.span(), &s.attrs, &s.generics),
                    _ => continue,
                };
                if ident == n {
                    let at = match vis {
                        syn::Visibility::Inherited => src.start(kw),
                        v => src.start(v.span()),
                    };
                    src.insert(at, format!("#[verus_verify]{attr} "));
                    found = true;
                    // what serde or clap derives is more than the verifier takes
                    let item = i;
                    let mut derived = false;
                    for a in attrs.iter().filter(|a| a.path().is_ident("derive")) {
                        let mut t = src.slice(a.span()).to_string();
                        let (ig, tg, wc) = generics.split_for_impl();
                        let mut with_de = (*generics).clone();
                        let outlives: Vec<String> = generics.lifetimes().map(|l| l.lifetime.to_string()).collect();
                        let de = if outlives.is_empty() { "'de".to_string() } else { format!("'de: {}", outlives.join(" + ")) };
                        with_de.params.insert(0, syn::parse_str(&de).unwrap());
                        let (dg, _, _) = with_de.split_for_impl();
                        let show = |t: &dyn Fn() -> proc_macro2::TokenStream| t().to_string();
                        let (ig, tg, wc, dg) = (
                            show(&|| ig.to_token_stream()),
                            show(&|| tg.to_token_stream()),
                            show(&|| wc.to_token_stream()),
                            show(&|| dg.to_token_stream()),
                        );
                        for d in ["Deserialize", "Serialize", "Parser", "Subcommand", "Args", "ValueEnum"] {
                            if subst(&t, d, "") == t {
                                continue;
                            }
                            derived = true;
                            t = subst(&subst(&t, &format!("{d},"), ""), d, "");
                            if !d.ends_with("erialize") {
                                continue;
                            }
                            stubs += &if d == "Serialize" {
                                format!("\nimpl{ig} serde::Serialize for {ident}{tg} {wc} {{ fn serialize<SS: serde::Serializer>(&self, _: SS) -> Result<SS::Ok, SS::Error> {{ unimplemented!() }} }}\n")
                            } else {
                                format!("\nimpl{dg} serde::Deserialize<'de> for {ident}{tg} {wc} {{ fn deserialize<DD: serde::Deserializer<'de>>(_: DD) -> Result<Self, DD::Error> {{ unimplemented!() }} }}\n")
                            };
                        }
                        if derived {
                            src.replace(a.span(), t);
                        }
                    }
                    if derived {
                        struct Attrs(Vec<Span>);
                        impl<'a> Visit<'a> for Attrs {
                            fn visit_attribute(&mut self, a: &'a syn::Attribute) {
                                if ["serde", "command", "arg", "clap"].iter().any(|n| a.path().is_ident(n)) {
                                    self.0.push(a.span());
                                }
                            }
                        }
                        let mut found = Attrs(vec![]);
                        found.visit_item(item);
                        for s in found.0 {
                            src.replace(s, String::new());
                        }
                        rewritten.push(format!("{name} {n}: what serde or clap derives left out"));
                    }
                }
            }
            if !found {
                let props: BTreeSet<&String> = fc.fns.iter().flat_map(|f| &f.props).collect();
                lost.push(json!({"fn": "", "file": name, "what": format!("type {n}"), "props": props}));
            }
        }
        let mut fns = vec![];
        all_fns(&ast.items, "", &mut fns);
        let contracted: BTreeSet<&String> = fc.fns.iter().map(|c| &c.key).collect();
        for (key, f) in &fns {
            let mut finds = Finds::default();
            finds.visit_block(f.block());
            report_fns.push(
                json!({"fn": key, "file": name, "contract": contracted.contains(key), "calls": finds.calls,
                "closures": finds.closures.len(), "loops": finds.loops.len(), "given": given(&finds)}),
            );
        }
        let mut verified_impls = BTreeSet::new();
        for con in &fc.fns {
            let Some((_, f)) = fns.iter().find(|(k, _)| *k == con.key) else {
                lost.push(json!({"fn": con.key, "file": name, "what": "function", "props": con.props}));
                continue;
            };
            let lose = |what: String| json!({"fn": con.key, "file": name, "what": what, "props": con.props});
            let stale = |what: String| json!({"fn": con.key, "file": name, "what": what, "props": con.props, "hint": true});
            let mut names: Vec<(String, String)> = vec![];
            let sig = f.sig();
            let actual: Vec<String> = sig
                .inputs
                .iter()
                .map(|a| match a {
                    syn::FnArg::Receiver(_) => "self".into(),
                    syn::FnArg::Typed(t) => match &*t.pat {
                        syn::Pat::Ident(i) => i.ident.to_string(),
                        p => squash(p),
                    },
                })
                .collect();
            if actual.len() != con.params.len() {
                lost.push(lose("parameters".into()));
                continue;
            }
            for (a, b) in con.params.iter().zip(&actual) {
                if a != b {
                    names.push((a.clone(), b.clone()));
                }
            }
            let fix = |t: &str| {
                // via placeholders, so that swapped names do not collide
                let mut t = t.to_string();
                for (i, (a, _)) in names.iter().enumerate() {
                    t = subst(&t, a, &format!("__param{i}__"));
                }
                for (i, (_, b)) in names.iter().enumerate() {
                    t = t.replace(&format!("__param{i}__"), b);
                }
                t
            };
            let at = src.start(f.vis_start());
            let mut head = con.attr.clone();
            let isolated = alone.contains(&format!("{name} {}", con.key));
            if isolated {
                head += "#[verifier::external_body]\n";
            }
            if con.spec.trim().is_empty() {
                head += "#[verus_spec]\n";
            } else {
                head += &format!("#[verus_spec({})]\n", fix(&con.spec));
            }
            src.insert(at, head);
            // the whole impl takes part if it is of a trait, or the function is without a receiver
            if let FnRef::Method(m, im) = f {
                let at = src.start(im.span());
                if (im.trait_.is_some() || m.sig.receiver().is_none()) && verified_impls.insert(at) {
                    src.insert(at, "#[verus_verify] ".into());
                }
            }
            if isolated {
                continue;
            }
            let without = bare.contains(&format!("{name} {}", con.key));
            let mut finds = Finds::default();
            finds.visit_block(f.block());
            for ((i, ty, spec), types) in con.closures.iter().zip(&con.closure_types).filter(|_| !without) {
                match finds.closures.get(*i) {
                    None => lost.push(stale(format!("closure {i}"))),
                    Some(c) => {
                        let at = src.start(c.span());
                        let r = match ty.split_once(':') {
                            Some((n, t)) => format!("{n}: ({})", t.trim()),
                            None => ty.clone(),
                        };
                        let mut spec = fix(spec);
                        for (n, p) in c.inputs.iter().enumerate() {
                            let id = match p {
                                syn::Pat::Type(t) => t.pat.to_token_stream().to_string(),
                                p => p.to_token_stream().to_string(),
                            };
                            spec = subst(&spec, &format!("arg{n}"), &id);
                            if let (syn::Pat::Ident(_), Some(t)) = (p, types.get(n).filter(|t| !t.is_empty())) {
                                src.insert(src.end(p.span()), format!(": {t}"));
                            }
                        }
                        src.insert(at, format!("#[verus_spec({r} => {})] ", spec));
                    }
                }
            }
            let open = src.start(f.block().span()) + 1;
            if vacuity {
                src.insert(open, " proof!{ assert(false); } ".into());
            }
            if !con.start.trim().is_empty() {
                src.insert(open, format!(" proof!{{ {} }} ", fix(&con.start)));
            }
            if !con.end.trim().is_empty() && !without {
                match f.block().stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) => {
                        let (s, t) = (src.start(e.span()), src.end(e.span()));
                        src.insert(s, "let result__ = ".into());
                        src.insert(t, format!("; proof!{{ {} }} result__", fix(&con.end)));
                    }
                    _ => {
                        let t = src.end(f.block().span()) - 1;
                        src.insert(t, format!(" proof!{{ {} }} ", fix(&con.end)));
                    }
                }
            }
            if without {
                continue;
            }
            for (what, list) in [("ghost", &con.ghosts), ("before", &con.before), ("after", &con.after)] {
                for (pat, proof) in list {
                    // the innermost statement whose text starts with, or contains, the pattern
                    let hit = finds
                        .stmts
                        .iter()
                        .filter(|s| {
                            let t: String = src.slice(s.span()).chars().filter(|c| !c.is_whitespace()).collect();
                            let p: String = pat.chars().filter(|c| !c.is_whitespace()).collect();
                            t.contains(&p)
                        })
                        .min_by_key(|s| src.slice(s.span()).len());
                    match hit {
                        None => lost.push(stale(format!("{what} {pat}"))),
                        Some(s) => {
                            let at = if what == "after" { src.end(s.span()) } else { src.start(s.span()) };
                            let m = if what == "ghost" { "proof_decl" } else { "proof" };
                            src.insert(at, format!(" {m}!{{ {} }} ", fix(proof)));
                        }
                    }
                }
            }
            for (i, proof) in &con.tails {
                match finds.loops.get(*i) {
                    None => lost.push(stale(format!("loop {i}"))),
                    Some(l) => {
                        let at = src.end(l.span()) - 1;
                        src.insert(at, format!(" proof!{{ {} }} ", fix(proof)));
                    }
                }
            }
            for (i, spec) in &con.loops {
                match finds.loops.get(*i) {
                    None => lost.push(stale(format!("loop {i}"))),
                    Some(l) => {
                        let at = src.start(l.span());
                        src.insert(at, format!("#[verus_spec({})] ", fix(spec)));
                    }
                }
            }
        }
        let mut o = String::new();
        // inner attributes and module docs first
        let body = src.apply();
        let mut rest = body.as_str();
        loop {
            let l = rest.split_inclusive('\n').next().unwrap_or("");
            if l.starts_with("//!") || l.starts_with("#![") || (l.trim().is_empty() && !l.is_empty()) {
                o.push_str(l);
                rest = &rest[l.len()..];
            } else {
                break;
            }
        }
        o.push_str("#[allow(unused_imports)] use vstd::prelude::*;\n");
        o.push_str(&fc.prepend);
        o.push_str(rest);
        o.push_str(&stubs);
        o.push_str(&fc.append);
        if let Ok(ast) = syn::parse_file(&o) {
            let mut fns = vec![];
            all_fns(&ast.items, "", &mut fns);
            for (key, f) in &fns {
                let b = f.block().span();
                report_spans.push(json!({"file": name, "fn": key, "from": f.sig().span().start().line, "to": b.end().line}));
            }
        }
        let lines: Vec<&str> = o.lines().collect();
        for (i, l) in lines.iter().enumerate() {
            let Some((before, after)) = l.split_once("proof fn ") else { continue };
            let word: String = after.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            let indent = before.len() - before.trim_start().len();
            let close = format!("{}}}", " ".repeat(indent));
            let end = lines[i..].iter().position(|l| *l == close).unwrap_or(0);
            let key = fc.lemmas.iter().find(|(n, _)| n.rsplit("::").next() == Some(&word)).map(|(n, _)| n.clone()).unwrap_or(format!("lemma {word}"));
            report_spans.push(json!({"file": name, "fn": key, "from": i + 1, "to": i + 1 + end}));
        }
        std::fs::write(&path, o).unwrap();
    }
    println!(
        "{}",
        json!({"functions": report_fns, "spans": report_spans, "lost": lost, "rewritten": rewritten,
        "contracts": files.iter().flat_map(|(n, f)| f.fns.iter().map(move |c| json!({"file": n, "fn": c.key, "props": c.props,
            "closures": c.closures.len(), "loops": c.loops.len(),
            "kind": if c.attr.contains("external_body") { "assumed" } else { "function" }}))
            .chain(f.lemmas.iter().map(move |(l, p)| json!({"file": n, "fn": l, "props": p, "closures": 0, "loops": 0, "kind": "lemma"})))).collect::<Vec<_>>()})
    );
}
