use proc_macro2::Span;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Pretty-printed expansions hold a few things that are not stable Rust syntax.
pub fn fix_expanded(t: &str) -> String {
    t.replace("#![feature(", "#![vx_feature(")
}

const PRIMS: &[&str] = &[
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "str", "char",
    "f32", "f64",
];

thread_local! { pub static HEAP_MODE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
thread_local! { pub static FLAT_MODE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
fn flat() -> bool { FLAT_MODE.with(|h| h.get()) }
/// Shared objects: `Arc<RwLock<Session>>` is a handle into the heap; a lock or a reference count around
/// anything else is transparent.
fn unshare(t: &mut Type) {
    if !HEAP_MODE.with(|h| h.get()) && !flat() { return; }
    let s = t.to_token_stream().to_string().replace(' ', "");
    if s == "Arc<RwLock<Session>>" { *t = parse_quote!(Ref); return; }
    if let Type::Path(p) = t {
        let g = p.path.segments.last().unwrap().clone();
        if ["Arc", "RwLock", "Mutex"].contains(&g.ident.to_string().as_str()) {
            if let PathArguments::AngleBracketed(a) = &g.arguments {
                if let Some(GenericArgument::Type(x)) = a.args.first() { let x = x.clone(); *t = x; return; }
            }
        }
    }
    if let Type::Reference(r) = t {
        if r.mutability.is_none() && r.elem.to_token_stream().to_string() == "BrokerState" { r.mutability = Some(Default::default()); }
    }
}
/// Drops module prefixes: every item is emitted into one flat module.
pub struct Flatten;
impl VisitMut for Flatten {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let n = p.segments.len();
        // the client's own Result
        if n == 2 && p.segments[0].ident == "crate" && p.segments[1].ident == "Result" {
            if let PathArguments::AngleBracketed(a) = &mut p.segments[1].arguments {
                if a.args.len() == 1 { a.args.push(parse_quote!(MqttError)); }
            }
        }
        if n > 1 {
            let mut k = 0;
            while k < n - 1 {
                let s = p.segments[k].ident.to_string();
                let lower = s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false);
                if lower && !PRIMS.contains(&s.as_str()) {
                    k += 1;
                } else {
                    break;
                }
            }
            // the errors of std::io are not those of the codec
            if k > 0 && p.segments[k - 1].ident == "io" && (p.segments[k].ident == "Error" || p.segments[k].ident == "ErrorKind") {
                p.segments[k].ident = Ident::new(&format!("Io{}", p.segments[k].ident), Span::call_site());
            }
            if k > 0 {
                let segs: Vec<PathSegment> = p.segments.iter().skip(k).cloned().collect();
                p.segments = segs.into_iter().collect();
            }
        }
        p.leading_colon = None;
        // the verified text has one string type
        if p.segments.len() >= 1 && p.segments[0].ident == "str" {
            p.segments[0].ident = Ident::new("String", Span::call_site());
        }
        // Box<str> is a string
        if p.segments.len() == 1 && p.segments[0].ident == "Box" {
            if p.segments[0].arguments.to_token_stream().to_string().replace(' ', "") == "<String>" {
                let a = p.segments[0].arguments.to_token_stream().to_string();
                if a.contains("String") {
                    p.segments[0] = parse_quote!(String);
                }
            }
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        // from the outside in: a handle is recognised as a whole
        unshare(t);
        visit_mut::visit_type_mut(self, t);
        unshare(t);
        // the verified text has one sequence type
        if let Type::Slice(s) = t {
            let e = &s.elem;
            *t = parse_quote!(Vec<#e>);
        }
    }
}

#[derive(Default)]
pub struct Rewriter {
    pub opts: BTreeMap<String, String>,
    pub notes: BTreeSet<String>,
    pub unsupported: Vec<String>,
    pub heap: BTreeSet<String>,
    counter: usize,
    pub state_cloned: bool,
}

impl Rewriter {
    pub fn note(&mut self, s: &str) {
        self.notes.insert(s.to_string());
    }
    fn fresh(&mut self, s: &str) -> Ident {
        self.counter += 1;
        format_ident!("vx_{}{}", s, self.counter)
    }
}

/// let d: &mut [u8] = &mut V[a..b];  ...  X.try_copy_to_slice(d)   ->   X.vx_try_copy_to_range(&mut V, a, b)
struct CopyInto {
    name: Ident,
    v: Expr,
    a: Expr,
    b: Expr,
    hits: usize,
    other: usize,
}
impl VisitMut for CopyInto {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(mc) = e {
            if mc.method == "try_copy_to_slice" && mc.args.len() == 1 && mc.args[0].to_token_stream().to_string() == self.name.to_string() {
                let (r, v, a, b) = (&mc.receiver, &self.v, &self.a, &self.b);
                let v: Expr = if v.to_token_stream().to_string() == "self" { v.clone() } else { parse_quote!(&mut #v) };
                *e = parse_quote!(#r.vx_try_copy_to_range(#v, #a, #b));
                self.hits += 1;
                self.other -= 1;
            }
        } else if path_last(e).map(|s| s == self.name.to_string()).unwrap_or(false) {
            self.other += 1;
        }
    }
}
impl Rewriter {
    fn slice_alias(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut found = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                let name = match &l.pat {
                    Pat::Ident(p) => Some(p.ident.clone()),
                    Pat::Type(t) => match &*t.pat {
                        Pat::Ident(p) => Some(p.ident.clone()),
                        _ => None,
                    },
                    _ => None,
                };
                if let (Some(name), Some(init)) = (name, &l.init) {
                    if let Expr::Reference(r) = &*init.expr {
                        if let (true, Expr::Index(ix)) = (r.mutability.is_some(), &*r.expr) {
                            if let Expr::Range(rg) = &*ix.index {
                                if let (Some(a), Some(e), RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                                    found = Some(CopyInto { name, v: (*ix.expr).clone(), a: (**a).clone(), b: (**e).clone(), hits: 0, other: 0 });
                                }
                            }
                        }
                    }
                }
            }
            if let Some(mut c) = found {
                let mut rest = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
                c.visit_block_mut(&mut rest);
                if c.hits == 1 && c.other == 0 {
                    b.stmts.truncate(i);
                    b.stmts.extend(rest.stmts);
                    self.note("copy-into-slice-as-range");
                    continue;
                }
            }
            i += 1;
        }
    }
}

/// the branches of an expanded select!: pattern, future, handler, condition
fn select_branches(b: &Block) -> Option<Vec<(Pat, Expr, Expr, Expr)>> {
    struct Find(Option<Vec<Expr>>);
    impl VisitMut for Find {
        fn visit_local_mut(&mut self, l: &mut Local) {
            if let (Pat::Ident(i), Some(x)) = (&l.pat, &l.init) {
                if i.ident == "futures_init" {
                    if let Expr::Tuple(t) = &*x.expr { self.0 = Some(t.elems.iter().cloned().collect()); }
                    if let Expr::Paren(t) = &*x.expr { self.0 = Some(vec![(*t.expr).clone()]); }
                }
            }
            visit_mut::visit_local_mut(self, l);
        }
    }
    let mut f = Find(None);
    f.visit_block_mut(&mut b.clone());
    let futs = f.0?;
    // `if !COND { disabled }`, one for each branch, in order
    let mut conds = vec![];
    for s in &b.stmts {
        if let Stmt::Expr(Expr::If(i), _) = s {
            if let Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) = &*i.cond { conds.push((**expr).clone()); } else { return None; }
        }
    }
    if conds.len() != futs.len() { return None; }
    let m = b.stmts.iter().rev().find_map(|s| if let Stmt::Expr(Expr::Match(m), _) = s { Some(m) } else { None })?;
    let mut out = vec![];
    for (k, (fu, cond)) in futs.into_iter().zip(conds).enumerate() {
        let want = format!("_{k}");
        let arm = m.arms.iter().find(|a| matches!(&a.pat, Pat::TupleStruct(t) if t.path.segments.last().map_or(false, |s| s.ident == want.as_str())))?;
        if let Pat::TupleStruct(t) = &arm.pat { out.push((t.elems.first()?.clone(), fu, (*arm.body).clone(), cond)); }
    }
    // one branch that can always be taken stands last
    let always = out.iter().rposition(|x| x.3.to_token_stream().to_string() == "true")?;
    let last = out.remove(always);
    out.push(last);
    Some(out)
}

fn path_last(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        p.path.segments.last().map(|s| s.ident.to_string())
    } else {
        None
    }
}

fn is_text_expr(e: &Expr) -> bool {
    match e {
        Expr::Call(c) => match path_last(&c.func).as_deref() {
            Some("must_use") | Some("format") => true,
            _ => false,
        },
        Expr::Macro(m) => m.mac.path.is_ident("format"),
        _ => false,
    }
}

/// `&x` inside a pattern binds a fresh reference; the caller emits `let x = *fresh;`
struct RefPats<'a> {
    n: &'a mut usize,
    binds: Vec<(Ident, Ident)>,
}
impl<'a> VisitMut for RefPats<'a> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if let (Pat::Ident(i), None) = (&*r.pat, r.mutability) {
                *self.n += 1;
                let f = format_ident!("vx_p{}", *self.n);
                self.binds.push((i.ident.clone(), f.clone()));
                *p = parse_quote!(#f);
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
}
impl Rewriter {
    fn ref_pats(&mut self, p: &mut Pat) -> Vec<Stmt> {
        let mut v = RefPats { n: &mut self.counter, binds: vec![] };
        v.visit_pat_mut(p);
        let b: Vec<Stmt> = v.binds.iter().map(|(x, f)| -> Stmt { parse_quote!(let #x = *#f;) }).collect();
        if !b.is_empty() {
            self.note("reference-pattern-as-deref");
        }
        b
    }
}

impl Rewriter {
    /// the expansion of a tracing event
    fn log_block(&mut self, e: &mut Expr) -> bool {
        if let Expr::Block(b) = e {
            if b.block.stmts.iter().any(|s| matches!(s, Stmt::Item(Item::Static(i)) if i.ident == "__CALLSITE")) {
                *e = parse_quote!({ vx_nop(); });
                self.note("logging-dropped");
                return true;
            }
        }
        false
    }
    /// locks, handles and the heap; true when the expression has been dealt with
    fn shared(&mut self, e: &mut Expr) -> bool {
        if self.heap.is_empty() && !flat() { return false; }
        // E? with a conversion of the error
        if let Expr::Try(t) = e {
            if self.opts.contains_key("try") {
                let x = &t.expr;
                *e = parse_quote!((match #x { Ok(vx_ok) => vx_ok, Err(vx_err) => { return Err(vx_from_err(vx_err)); } }));
                self.note("question-mark-as-match");
                self.visit_expr_mut(e);
                return true;
            }
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() && path_last(&r.expr).as_deref() == Some("state") {
                r.mutability = Some(Default::default());
                if self.state_cloned { r.expr = parse_quote!(*state); }
            }
        }
        // spawn(async move { .. }): the task runs later and elsewhere
        if let Expr::Call(c) = e {
            if path_last(&c.func).as_deref() == Some("spawn") && c.args.len() == 1 && matches!(&c.args[0], Expr::Async(_)) {
                // it may run to its end, here, or not at all
                let b = if let Expr::Async(a) = &c.args[0] { a.block.clone() } else { unreachable!() };
                *e = parse_quote!(if vx_later() #b);
                self.note("spawned-task-runs-here-or-never");
                self.visit_expr_mut(e);
                return true;
            }
        }
        // select! { P0 = E0 => B0, .. }: one of the branches completes, any of them
        if let Expr::Block(b) = e {
            if b.block.stmts.iter().any(|s| matches!(s, Stmt::Item(Item::Mod(m)) if m.ident == "__tokio_select_util")) {
                if let Some(x) = select_branches(&b.block) {
                    let n = x.len();
                    let mut arms: Vec<Arm> = vec![];
                    for (k, (p, f, body, cond)) in x.into_iter().enumerate() {
                        let body = match body { Expr::Block(bb) => bb.block.stmts, o => vec![Stmt::Expr(o, None)] };
                        let pat: Pat = if k + 1 == n { parse_quote!(_) } else { let l = proc_macro2::Literal::usize_unsuffixed(k); parse_quote!(#l) };
                        if cond.to_token_stream().to_string() == "true" { arms.push(parse_quote!(#pat => { let #p = #f; #(#body)* })); }
                        else { arms.push(parse_quote!(#pat if #cond => { let #p = #f; #(#body)* })); }
                    }
                    *e = parse_quote!(match vx_choose(#n) { #(#arms)* });
                    self.note("select-as-any-branch");
                    self.visit_expr_mut(e);
                    return true;
                }
            }
        }
        // (A as f32 * FACTOR) as T
        if let Expr::Cast(c) = e {
            let mut x = &*c.expr;
            while let Expr::Paren(p) = x { x = &p.expr; }
            if let Expr::Binary(b) = x {
                if let (BinOp::Mul(_), Expr::Cast(l), Some(n)) = (&b.op, &*b.left, path_last(&b.right)) {
                    if l.ty.to_token_stream().to_string() == "f32" && n == "BROKER_KEEP_ALIVE_FACTOR" {
                        let a = &l.expr;
                        *e = parse_quote!(vx_scale(#a));
                        self.note("float-scaling-opaque");
                        return true;
                    }
                }
            }
        }
        if let Expr::Call(c) = e {
            let full = c.func.to_token_stream().to_string().replace(' ', "");
            if (flat() || self.opts.contains_key("noheap")) && ["Arc::new", "RwLock::new", "Mutex::new"].contains(&full.as_str()) && c.args.len() == 1 {
                let mut x = c.args[0].clone();
                self.visit_expr_mut(&mut x);
                *e = x;
                self.note("lock-erased");
                return true;
            }
            if full == "Arc::new" && c.args.len() == 1 {
                if let Expr::Call(l) = &c.args[0] {
                    if path_last(&l.func).as_deref() == Some("new") && l.func.to_token_stream().to_string().starts_with("RwLock") && l.args.len() == 1 {
                        let mut x = l.args[0].clone();
                        self.visit_expr_mut(&mut x);
                        *e = parse_quote!(vx_heap.vx_alloc(#x));
                        self.note("shared-object-on-heap");
                        return true;
                    }
                }
            }
            if full == "drop" {
                *e = parse_quote!(vx_nop());
                self.note("drop-of-a-guard");
                return true;
            }
            if let Some(n) = path_last(&c.func) {
                if self.heap.contains(&n) { c.args.push(parse_quote!(vx_heap)); self.note("heap-passed"); }
            }
        }
        if let Expr::MethodCall(mc) = e {
            let m = mc.method.to_string();
            if flat() && (m == "read" || m == "write" || m == "lock") && mc.args.is_empty() && (matches!(&*mc.receiver, Expr::Field(f) if f.member.to_token_stream().to_string() != "packet_stream") || matches!(&*mc.receiver, Expr::Paren(p) if matches!(&*p.expr, Expr::Unary(_)))) {
                let mut r = (*mc.receiver).clone();
                self.visit_expr_mut(&mut r);
                *e = if m == "write" || m == "lock" { parse_quote!((&mut #r)) } else { parse_quote!((&#r)) };
                self.note("lock-erased");
                return true;
            }
            if m == "map" && mc.args.len() == 1 && mc.args[0].to_token_stream().to_string().replace(' ', "") == "Arc::clone" {
                let mut r = (*mc.receiver).clone();
                self.visit_expr_mut(&mut r);
                *e = parse_quote!(vx_map_ref(#r));
                self.note("handle-copied");
                return true;
            }
            if !flat() && (m == "read" || m == "write") && mc.args.is_empty() && path_last(&mc.receiver).as_deref() != Some("stream") {
                let mut r = (*mc.receiver).clone();
                let field = match &r { Expr::Field(f) => f.member.to_token_stream().to_string(), _ => String::new() };
                if field == "session_pool" || field == "topic_tree" {
                    *e = if m == "write" { parse_quote!((&mut #r)) } else { parse_quote!((&#r)) };
                    self.note("lock-erased");
                    return true;
                }
                if is_place(&r) {
                    self.visit_expr_mut(&mut r);
                    *e = if m == "write" || self.opts.contains_key("readmut") { parse_quote!((&mut vx_heap.v[#r.ix])) } else { parse_quote!((&vx_heap.v[#r.ix])) };
                    self.note("lock-erased");
                    return true;
                }
                self.unsupported.push("lock of a computed handle".into());
            }
            if self.heap.contains(&format!("m:{m}")) && !mc.args.iter().any(|a| path_last(a).as_deref() == Some("vx_heap")) {
                mc.args.push(parse_quote!(vx_heap)); self.note("heap-passed");
            }
        }
        false
    }
}

/// a place that may be named twice: a variable, its fields, or a constant index into them
fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Index(i) => is_place(&i.expr) && (is_place(&i.index) || matches!(&*i.index, Expr::Cast(c) if is_place(&c.expr))),
        _ => false,
    }
}
fn str_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}

fn has_continue(b: &Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

impl VisitMut for Rewriter {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // dropped statements
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            match &s {
                // _ = E;  ->  let _ = E;
                Stmt::Expr(Expr::Assign(a), Some(_)) if matches!(&*a.left, Expr::Infer(_)) => {
                    let r = &a.right;
                    out.push(parse_quote!(let _ = #r;));
                    self.note("assignment-to-underscore-as-let");
                    continue;
                }
                // a clone of the shared state is the shared state
                Stmt::Local(l) if !self.heap.is_empty() && l.to_token_stream().to_string() == "let state = state . clone () ;" => {
                    self.note("state-clone-is-shared");
                    self.state_cloned = true;
                    continue;
                }
                Stmt::Item(Item::Use(_)) => {
                    self.note("inner-use-dropped");
                    continue;
                }
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if ["debug", "info", "warn", "error", "trace", "println", "eprintln"].contains(&n.as_str()) {
                        self.note("logging-dropped");
                        continue;
                    }
                    // `matches!` and friends in statement position are expressions
                    let mac = m.mac.clone();
                    out.push(Stmt::Expr(
                        Expr::Macro(ExprMacro { attrs: vec![], mac }),
                        m.semi_token,
                    ));
                    continue;
                }
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
        self.slice_alias(b);
        let mut out = vec![];
        for mut s in b.stmts.drain(..) {
            let mut after = vec![];
            if let Stmt::Local(l) = &mut s {
                if let Pat::Reference(r) = &l.pat {
                    // let &x = E;  ->  let x = *E;
                    if let (Pat::Ident(_), Some(i)) = (&*r.pat, &mut l.init) {
                        let (x, e) = ((*r.pat).clone(), i.expr.clone());
                        i.expr = parse_quote!(*#e);
                        l.pat = x;
                        self.note("reference-pattern-as-deref");
                    }
                } else if !matches!(l.pat, Pat::Ident(_) | Pat::Wild(_) | Pat::Type(_)) {
                    after = self.ref_pats(&mut l.pat);
                }
            }
            out.push(s);
            out.extend(after);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Local(l) = s {
            l.attrs.clear();
            // let=NAME:TYPE: a type the compiler would infer, needed earlier by the invariant
            if let Some((n, ty)) = self.opts.get("let").and_then(|x| x.split_once(':')) {
                let hit = matches!(&l.pat, Pat::Ident(p) if p.ident == n);
                if hit {
                    let p = l.pat.clone();
                    let t: Type = syn::parse_str(ty).unwrap();
                    l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(t) });
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        // literals in patterns are kept
        if let Pat::Lit(_) = p {
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // if A && let P = E { .. }: one condition inside the other
        if let Expr::If(i) = e {
            fn parts(e: &Expr, out: &mut Vec<Expr>) {
                if let Expr::Binary(ExprBinary { op: BinOp::And(_), left, right, .. }) = e { parts(left, out); parts(right, out); } else { out.push(e.clone()); }
            }
            let mut ps = vec![];
            parts(&i.cond, &mut ps);
            if i.else_branch.is_none() && ps.len() > 1 && ps.iter().any(|p| matches!(p, Expr::Let(_))) {
                let mut b: Block = i.then_branch.clone();
                while let Some(c) = ps.pop() { b = parse_quote!({ if #c #b }); }
                if let Some(Stmt::Expr(x, _)) = b.stmts.pop() { *e = x; }
                self.note("let-chain-nested");
            }
        }
        if self.log_block(e) { return; }
        if self.shared(e) { return; }
        // reference patterns
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &mut *i.cond {
                let mut p = (*l.pat).clone();
                let b = self.ref_pats(&mut p);
                if !b.is_empty() {
                    *l.pat = p;
                    let old = std::mem::take(&mut i.then_branch.stmts);
                    i.then_branch.stmts = b.into_iter().chain(old).collect();
                }
            }
        }
        if let Expr::Match(m) = e {
            for a in m.arms.iter_mut() {
                if a.guard.is_some() {
                    continue;
                }
                let b = self.ref_pats(&mut a.pat);
                if !b.is_empty() {
                    let x = &a.body;
                    *a.body = parse_quote!({ #(#b)* #x });
                    a.comma = Some(Default::default());
                }
            }
        }
        // text comparison
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) {
                let deref = |x: &Expr| match x {
                    Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => Some((*u.expr).clone()),
                    _ => None,
                };
                let (dl, dr) = (deref(&b.left), deref(&b.right));
                let text = str_lit(&b.left) || str_lit(&b.right) || (self.opts.contains_key("texteq") && (dl.is_some() || dr.is_some()));
                if text {
                    let l = dl.unwrap_or((*b.left).clone());
                    let r = dr.unwrap_or((*b.right).clone());
                    let ne = matches!(b.op, BinOp::Ne(_));
                    *e = if ne { parse_quote!(!vx_eq(&#l, &#r)) } else { parse_quote!(vx_eq(&#l, &#r)) };
                    self.note("text-comparison-as-function");
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        if let Expr::MethodCall(mc) = e {
            let m = mc.method.to_string();
            // V.retain(|s| C)  ->  loop
            if m == "retain" && mc.args.len() == 1 && is_place(&mc.receiver) {
                if let Expr::Closure(c) = &mc.args[0] {
                    if let (1, Some(Pat::Ident(p))) = (c.inputs.len(), c.inputs.first()) {
                        let (r, p, b) = (&mc.receiver, &p.ident, &c.body);
                        let k = self.fresh("k");
                        *e = parse_quote!({ let mut #k: usize = 0; while #k < #r.len() { let vx_keep = { let #p = &#r[#k]; #b }; if vx_keep { #k += 1; } else { #r.remove(#k); } } });
                        self.note("retain-as-loop");
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            // V.iter_mut().find(|s| C), V.iter().find(|s| C)  ->  loop; the closure's reference level does not matter to the field accesses in C
            if m == "find" && mc.args.len() == 1 {
                if let (Expr::Closure(c), Expr::MethodCall(it)) = (&mc.args[0], &*mc.receiver) {
                    if (it.method == "iter_mut" || it.method == "iter") && is_place(&it.receiver) {
                        if let (1, Some(Pat::Ident(p))) = (c.inputs.len(), c.inputs.first()) {
                            let (r, p, b) = (&it.receiver, &p.ident, &c.body);
                            let k = self.fresh("k");
                            let got: Expr = if it.method == "iter" { parse_quote!(&#r[#k]) } else { parse_quote!(&mut #r[#k]) };
                            *e = parse_quote!({ let mut #k: usize = 0; let mut vx_found = false; while #k < #r.len() && !vx_found { let vx_hit = { let #p = &#r[#k]; #b }; if vx_hit { vx_found = true; } else { #k += 1; } } if vx_found { Some(#got) } else { None } });
                            self.note("find-as-loop");
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
            }
            // V.extend(X.iter().cloned())
            if m == "extend" && mc.args.len() == 1 {
                if let Expr::MethodCall(cl) = &mc.args[0] {
                    if cl.method == "cloned" {
                        if let Expr::MethodCall(it) = &*cl.receiver {
                            if it.method == "iter" {
                                let (r, x) = (&mc.receiver, &it.receiver);
                                *e = parse_quote!(#r.vx_extend_cloned(&#x));
                                self.note("extend-iter-cloned-as-method");
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                    }
                }
            }
            // X.split('c').collect()
            if m == "collect" {
                if let Expr::MethodCall(sp) = &*mc.receiver {
                    if sp.method == "split" && sp.args.len() == 1 {
                        if let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = &sp.args[0] {
                            if c.value().is_ascii() {
                                let r = &sp.receiver;
                                let b = LitInt::new(&format!("{}u8", c.value() as u32), Span::call_site());
                                *e = parse_quote!(vx_split(&#r, #b));
                                self.note("split-collect-as-function");
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                    }
                }
            }
        }
        // for x in &mut V  ->  index loop
        // for (a, b) in &mut V: the parts by reference
        if let Expr::ForLoop(f) = e {
            if let (Expr::Reference(r), Pat::Tuple(t)) = (&*f.expr, &*f.pat) {
                if r.mutability.is_some() && is_place(&r.expr) && !has_continue(&f.body) && t.elems.iter().all(|x| matches!(x, Pat::Ident(_) | Pat::Wild(_))) {
                    let x = self.fresh("e");
                    let mut pre: Vec<Stmt> = vec![];
                    for (n, p) in t.elems.iter().enumerate() {
                        if let Pat::Ident(i) = p {
                            let (i, n) = (&i.ident, syn::Index::from(n));
                            pre.push(parse_quote!(let #i = &mut #x.#n;));
                        }
                    }
                    let (v, body, label) = (&f.expr, f.body.stmts.clone(), f.label.clone());
                    *e = parse_quote!(#label for #x in #v { #(#pre)* #(#body)* });
                    self.note("tuple-of-references-by-field");
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            if let (Expr::Reference(r), Pat::Ident(p)) = (&*f.expr, &*f.pat) {
                if r.mutability.is_some() && is_place(&r.expr) && !has_continue(&f.body) {
                    let (v, p) = (&r.expr, &p.ident);
                    let k = self.fresh("k");
                    let body = f.body.stmts.clone();
                    let label = f.label.clone();
                    *e = parse_quote!({ let mut #k: usize = 0; #label while #k < #v.len() { let #p = &mut #v[#k]; #(#body)* #k += 1; } });
                    self.note("mutable-for-as-while");
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        // attributes
        if let Expr::Match(m) = e {
            m.attrs.clear();
            for a in m.arms.iter_mut() {
                a.attrs.clear();
            }
            // P1 | P2 if G => B   ->   one guarded arm per alternative
            if m.arms.iter().any(|a| a.guard.is_some() && matches!(a.pat, Pat::Or(_))) {
                let mut arms = vec![];
                for a in m.arms.drain(..) {
                    match (&a.pat, &a.guard) {
                        (Pat::Or(o), Some(_)) => {
                            for c in &o.cases {
                                let mut b = a.clone();
                                b.pat = c.clone();
                                b.comma = Some(Default::default());
                                arms.push(b);
                            }
                        }
                        _ => arms.push(a),
                    }
                }
                m.arms = arms;
                self.notes.insert("guarded-or-pattern-split".into());
            }
        }
        // matches!
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if n == "matches" {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>();
                        Ok(M(e, p, g))
                    }
                }
                if let Ok(M(x, p, g)) = m.mac.parse_body::<M>() {
                    let mut ne: Expr = match g {
                        Some(g) => parse_quote!(match #x { #p if #g => true, _ => false }),
                        None => parse_quote!(match #x { #p => true, _ => false }),
                    };
                    Flatten.visit_expr_mut(&mut ne);
                    self.note("matches!-expanded");
                    *e = ne;
                }
            } else if n == "vec" {
                let t = m.mac.tokens.clone();
                if t.is_empty() {
                    *e = parse_quote!(Vec::new());
                } else if let Ok(r) = syn::parse2::<ExprRepeat>(quote!([#t])) {
                    let (x, n) = (r.expr, r.len);
                    *e = parse_quote!(vx_from_elem(#x, #n));
                    self.note("vec!-from_elem");
                } else if let Ok(a) = syn::parse2::<ExprArray>(quote!([#t])) {
                    let mut ne: Expr = parse_quote!({ let mut vx_v = Vec::new(); vx_v });
                    if let Expr::Block(b) = &mut ne {
                        let tail = b.block.stmts.pop().unwrap();
                        for x in a.elems {
                            b.block.stmts.push(parse_quote!(vx_v.push(#x);));
                        }
                        b.block.stmts.push(tail);
                    }
                    *e = ne;
                    self.note("vec!-literal");
                }
            } else if n == "format" {
                *e = parse_quote!(vx_text());
                self.note("format!-text-dropped");
            } else if ["debug", "info", "warn", "error", "trace", "println", "eprintln"].contains(&n.as_str()) {
                self.note("logging-dropped");
                *e = parse_quote!(());
            } else if !n.starts_with("vx_") {
                self.unsupported.push(format!("macro {n}"));
            }
        }
        if is_text_expr(e) {
            self.note("format!-text-dropped");
            *e = parse_quote!(vx_text());
            return;
        }
        // .await
        if let Expr::Await(a) = e {
            self.note("await-erased");
            let b = (*a.base).clone();
            *e = b;
            self.visit_expr_mut(e);
            return;
        }
        // E.map_err(|x| Y)?   ->  match
        if let Expr::Try(t) = e {
            if let Expr::MethodCall(mc) = &*t.expr {
                if mc.method == "map_err" && mc.args.len() == 1 {
                    if let Expr::Closure(c) = &mc.args[0] {
                        if c.inputs.len() == 1 {
                            let r = &mc.receiver;
                            let p = &c.inputs[0];
                            let b = &c.body;
                            *e = parse_quote!((match #r { Ok(vx_ok) => vx_ok, Err(#p) => { return Err(#b); } }));
                            self.note("map_err-question-mark-as-match");
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
            }
        }
        if flat() || self.opts.contains_key("mapres") {
            if let Expr::MethodCall(mc) = e {
                if let (1, Some(Expr::Closure(c))) = (mc.args.len(), mc.args.first()) {
                    if c.inputs.len() == 1 && (mc.method == "map_err" || mc.method == "map") {
                        let (r, p, b) = (&mc.receiver, &c.inputs[0], &c.body);
                        *e = if mc.method == "map_err" { parse_quote!((match #r { Ok(vx_ok) => Ok(vx_ok), Err(#p) => Err(#b) })) } else if self.opts.contains_key("mapres") { parse_quote!((match #r { Ok(#p) => Ok(#b), Err(vx_err) => Err(vx_err) })) } else { parse_quote!((match #r { Some(#p) => Some(#b), None => None })) };
                        self.note("map-as-match");
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        if let Expr::MethodCall(mc) = e {
            if let (1, "is_some_and", Some(Expr::Closure(c))) = (mc.args.len(), mc.method.to_string().as_str(), mc.args.first()) {
                if c.inputs.len() == 1 {
                    let (r, p, b) = (&mc.receiver, &c.inputs[0], &c.body);
                    *e = parse_quote!((match #r { Some(#p) => #b, None => false }));
                    self.note("is_some_and-as-match");
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        // E.iter().map(|x| f).sum::<T>()  ->  loop;  E.iter().for_each(|x| f) -> for
        if let Expr::MethodCall(mc) = e {
            let m = mc.method.to_string();
            if m == "sum" {
                if let (Some(tf), Expr::MethodCall(mp)) = (&mc.turbofish, &*mc.receiver) {
                    if mp.method == "map" && mp.args.len() == 1 {
                        if let (Expr::Closure(c), Expr::MethodCall(it)) = (&mp.args[0], &*mp.receiver) {
                            if it.method == "iter" {
                                let ty = &tf.args;
                                let r = &it.receiver;
                                let p = &c.inputs[0];
                                let b = &c.body;
                                *e = parse_quote!({ let mut vx_sum: #ty = 0; for #p in #r.vx_seq() { vx_sum += #b; } vx_sum });
                                self.note("iter-map-sum-as-loop");
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                    }
                }
            }
            if m == "for_each" && mc.args.len() == 1 {
                if let (Expr::Closure(c), Expr::MethodCall(it)) = (&mc.args[0], &*mc.receiver) {
                    if it.method == "iter" {
                        let r = &it.receiver;
                        let p = &c.inputs[0];
                        let b = &c.body;
                        *e = parse_quote!({ for #p in #r.vx_seq() { #b; } });
                        self.note("iter-for_each-as-loop");
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        // for loops
        if let Expr::ForLoop(f) = e {
            let early = has_continue(&f.body);
            let pat = (*f.pat).clone();
            let label = f.label.clone();
            let mut inner = (*f.expr).clone();
            while let Expr::Paren(p) = inner {
                inner = *p.expr;
            }
            if let Expr::MethodCall(mc) = &inner {
                if mc.method == "iter" && mc.args.is_empty() {
                    let r = &mc.receiver;
                    inner = parse_quote!(#r.vx_seq());
                    self.note("iter-as-sequence");
                }
            }
            if let (Expr::Range(r), false) = (&inner, early) {
                if let (Some(a), Some(b)) = (&r.start, &r.end) {
                    let it = self.fresh("r");
                    let body = f.body.stmts.clone();
                    let end = self.fresh("e");
                    let cmp: Expr = match r.limits {
                        RangeLimits::HalfOpen(_) => parse_quote!(#it < #end),
                        RangeLimits::Closed(_) => parse_quote!(#it <= #end),
                    };
                    let ty: TokenStreamTy = match (&**a, &**b) {
                        (Expr::Lit(_), Expr::Lit(_)) => quote!(: usize),
                        _ => quote!(),
                    };
                    let bind: Stmt = match &pat {
                        Pat::Wild(_) => parse_quote!(vx_nop();),
                        p => parse_quote!(let #p = #it;),
                    };
                    *e = parse_quote!({ let mut #it #ty = #a; let #end #ty = #b; #label while #cmp { #bind #(#body)* #it += 1; } });
                    self.note("range-for-as-while");
                    self.visit_expr_mut(e);
                    return;
                }
            }
            let it = self.fresh("it");
            let ix = self.fresh("i");
            let body = f.body.stmts.clone();
            if early {
                // the counter moves on before the body, so that `continue` reaches the next element
                self.note("collection-for-as-while");
                *e = parse_quote!({ let #it = vx_iter(#inner); let mut #ix: usize = 0; #label while #ix < vx_iter_len(&#it) { let #pat = vx_iter_get(&#it, #ix); #ix += 1; #(#body)* } });
                self.visit_expr_mut(e);
                return;
            }
            *e = parse_quote!({ let #it = vx_iter(#inner); let mut #ix: usize = 0; #label while #ix < vx_iter_len(&#it) { let #pat = vx_iter_get(&#it, #ix); #(#body)* #ix += 1; } });
            self.note("collection-for-as-while");
            self.visit_expr_mut(e);
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                match path_last(&c.func).as_deref() {
                    Some("clone") if self.opts.contains_key("clone") && c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "") == "Clone::clone" => {
                        c.func = parse_quote!(VxClone::vx_clone);
                        self.note("clone-as-own-trait");
                    }
                    Some("default") if c.args.is_empty() => {
                        if let Expr::Path(p) = &mut *c.func {
                            p.path.segments.last_mut().unwrap().ident = Ident::new("vx_default", Span::call_site());
                            self.note("default-own-trait");
                        }
                    }
                    Some("box_assume_init_into_vec_unsafe") => {
                        // the expansion of vec![a, b, ..]
                        let arr = match c.args.first() {
                            Some(Expr::Call(w)) => w.args.last().cloned(),
                            _ => None,
                        };
                        if let Some(Expr::Array(a)) = arr {
                            let mut ne: Expr = parse_quote!({ let mut vx_v = Vec::new(); vx_v });
                            if let Expr::Block(b) = &mut ne {
                                let tail = b.block.stmts.pop().unwrap();
                                for x in a.elems {
                                    b.block.stmts.push(parse_quote!(vx_v.push(#x);));
                                }
                                b.block.stmts.push(tail);
                            }
                            *e = ne;
                            self.note("vec!-literal");
                        }
                    }
                    Some("min") if c.func.to_token_stream().to_string().replace(' ', "") == "usize::min" => {
                        c.func = parse_quote!(vx_min);
                        self.note("min-as-function");
                    }
                    Some("from_elem") => {
                        c.func = parse_quote!(vx_from_elem);
                        self.note("vec!-from_elem");
                    }
                    Some("try_from") => {
                        if let Expr::Path(p) = &mut *c.func {
                            p.path.segments.last_mut().unwrap().ident = Ident::new("vx_try_from", Span::call_site());
                            self.note("try_from-own-trait");
                        }
                    }
                    Some("size_of") => {
                        let s = c.func.to_token_stream().to_string().replace(' ', "");
                        let v = match s.as_str() {
                            "size_of::<u8>" => Some(1),
                            "size_of::<bool>" => Some(1),
                            "size_of::<u16>" => Some(2),
                            "size_of::<u32>" => Some(4),
                            "size_of::<u64>" => Some(8),
                            _ => None,
                        };
                        if let Some(v) = v {
                            let l = LitInt::new(&format!("{v}usize"), Span::call_site());
                            *e = parse_quote!(#l);
                            self.note("size_of-constant");
                        }
                    }
                    _ => {}
                }
            }
            Expr::MethodCall(mc) => {
                let m = mc.method.to_string();
                if self.opts.contains_key("slices") && (m == "read" || m == "copy_within" || m == "resize") && !mc.args.is_empty() {
                    // a range of a vector is handed over as the vector and the bounds
                    let mut out: Vec<Expr> = vec![];
                    for a in mc.args.iter() {
                        match a {
                            Expr::Reference(r) if r.mutability.is_some() => match &*r.expr {
                                Expr::Index(ix) => match &*ix.index {
                                    Expr::Range(ExprRange { start: Some(f), end: None, .. }) => { let b = &ix.expr; out.push(parse_quote!(&mut #b)); out.push((**f).clone()); }
                                    _ => out.push(a.clone()),
                                },
                                _ => out.push(a.clone()),
                            },
                            Expr::Range(ExprRange { start: Some(f), end: Some(t), limits: RangeLimits::HalfOpen(_), .. }) => { out.push((**f).clone()); out.push((**t).clone()); }
                            _ => out.push(a.clone()),
                        }
                    }
                    if m != "read" {
                        let r = &mc.receiver;
                        let f = Ident::new(&format!("vx_{m}"), Span::call_site());
                        *e = parse_quote!(#f(&mut #r, #(#out),*));
                    } else {
                        mc.args = out.into_iter().collect();
                    }
                    self.note("range-as-bounds");
                } else if m == "clone" && mc.args.is_empty() && self.opts.contains_key("clone") {
                    mc.method = Ident::new("vx_clone", Span::call_site());
                    self.note("clone-as-own-trait");
                } else if m == "try_into" {
                    mc.method = Ident::new("vx_try_into", Span::call_site());
                    self.note("try_into-own-trait");
                } else if m == "unwrap_or" && (!self.heap.is_empty() || matches!(&*mc.receiver, Expr::MethodCall(x) if x.method == "vx_try_into")) {
                    let (r, d) = (&mc.receiver, &mc.args[0]);
                    *e = parse_quote!(vx_ok_or(#r, #d));
                    self.note("unwrap_or-as-function");
                } else if m == "into" && mc.args.is_empty() {
                    mc.method = Ident::new("vx_into", Span::call_site());
                    self.note("into-own-trait");
                } else if m == "unwrap_or_default" {
                    let r = &mc.receiver;
                    *e = parse_quote!(vx_unwrap_or_default(#r));
                    self.note("unwrap_or_default-as-function");
                } else if m == "push" {
                    // X.entry(k).or_default().push(v)
                    if let Expr::MethodCall(od) = &*mc.receiver {
                        if od.method == "or_default" {
                            if let Expr::MethodCall(en) = &*od.receiver {
                                if en.method == "entry" {
                                    let r = &en.receiver;
                                    let k = &en.args[0];
                                    let v = &mc.args[0];
                                    *e = parse_quote!(#r.vx_entry_push(#k, #v));
                                    self.note("entry-or_default-push-as-method");
                                }
                            }
                        }
                    }
                }
            }
            Expr::Reference(r) if self.opts.contains_key("slices") && r.mutability.is_none() && matches!(&*r.expr, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_))) => {
                if let Expr::Index(ix) = &*r.expr {
                    let b = &ix.expr;
                    if let Expr::Range(ExprRange { start: Some(f), end: Some(t), limits: RangeLimits::HalfOpen(_), .. }) = &*ix.index {
                        *e = parse_quote!(vx_sub(&#b, #f, #t));
                        self.note("range-as-bounds");
                    }
                }
            }
            Expr::Index(ix) => {
                if self.opts.contains_key("index") {
                    if let Expr::Range(_) = &*ix.index {
                    } else {
                        let b = &ix.expr;
                        let i = &ix.index;
                        *e = parse_quote!((*#b.vx_index(#i)));
                        self.note("index-as-method");
                    }
                }
            }
            Expr::Lit(l) => {
                if let Lit::Str(s) = &l.lit {
                    let v = s.value();
                    if v.len() <= 2 {
                        let bytes: Vec<LitInt> = v
                            .bytes()
                            .map(|b| LitInt::new(&format!("{b}u8"), Span::call_site()))
                            .collect();
                        *e = parse_quote!(vx_str(&[#(#bytes),*]));
                        self.note("string-literal-as-bytes");
                    } else {
                        *e = parse_quote!(vx_lit());
                        self.note("literal-text-dropped");
                    }
                }
            }
            _ => {}
        }
    }
}
type TokenStreamTy = proc_macro2::TokenStream;

/// Numbers the loops and leaves marks that the emitter replaces by invariants and proof text.
pub struct LoopMarker {
    pub n: usize,
    /// What each loop runs over (its condition, without spaces).
    pub heads: std::collections::BTreeMap<usize, String>,
}

impl LoopMarker {
    fn mark_body(&mut self, b: &mut Block, n: usize) {
        let l = LitInt::new(&n.to_string(), Span::call_site());
        if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
            if semi.is_none() && !matches!(e, Expr::Match(_) | Expr::If(_) | Expr::While(_) | Expr::Block(_) | Expr::Loop(_)) {
                *semi = Some(Default::default());
            }
        }
        b.stmts.insert(0, parse_quote!(vx_loop_mark!(#l);));
        b.stmts.push(parse_quote!(vx_bot_mark!(#l);));
    }
}

impl VisitMut for LoopMarker {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in b.stmts.drain(..) {
            let mut after = None;
            if let Stmt::Expr(e, _) = &mut s {
                if matches!(e, Expr::While(_) | Expr::Loop(_)) {
                    after = Some(self.n);
                    let l = LitInt::new(&self.n.to_string(), Span::call_site());
                    out.push(parse_quote!(vx_before_mark!(#l);));
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
            if let Some(n) = after {
                let l = LitInt::new(&n.to_string(), Span::call_site());
                out.push(parse_quote!(vx_after_mark!(#l);));
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => {
                let n = self.n;
                self.n += 1;
                self.heads.insert(n, w.cond.to_token_stream().to_string().split_whitespace().collect());
                visit_mut::visit_expr_mut(self, &mut w.cond);
                self.visit_block_mut(&mut w.body);
                self.mark_body(&mut w.body, n);
            }
            Expr::Loop(w) => {
                let n = self.n;
                self.n += 1;
                self.visit_block_mut(&mut w.body);
                self.mark_body(&mut w.body, n);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
