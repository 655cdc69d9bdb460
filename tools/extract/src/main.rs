//! vx-extract: mechanical extraction of functions from the crates under /repo into a
//! Verus source file.  A template holds the contracts; every executable function body comes
//! from the source given with --src on every run.  See /verif/DESIGN.md, "Extraction".
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod rewrite;
use rewrite::*;

#[derive(Clone)]
pub struct FnItem {
    pub sig: Signature,
    pub block: Option<Block>,
    pub in_trait_impl: bool,
    pub selfty: Option<String>,
}

#[derive(Default)]
struct Source {
    fns: HashMap<String, Vec<FnItem>>,
    items: HashMap<String, Vec<Item>>,
    /// associated constants of inherent impls, by type
    assoc: BTreeMap<String, Vec<ImplItemConst>>,
}

pub fn ty_string(t: &Type) -> String {
    let mut t = t.clone();
    Flatten.visit_type_mut(&mut t);
    t.to_token_stream().to_string().replace(' ', "")
}

fn cfg_out(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let s = a.meta.to_token_stream().to_string().replace(' ', "");
        s == "cfg(test)" || s.contains("vaux_verif")
    })
}

fn collect(items: &[Item], src: &mut Source) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if cfg_out(&m.attrs) {
                    continue;
                }
                if let Some((_, items)) = &m.content {
                    collect(items, src);
                }
            }
            Item::Fn(f) => {
                if cfg_out(&f.attrs) {
                    continue;
                }
                src.fns.entry(f.sig.ident.to_string()).or_default().push(FnItem {
                    sig: f.sig.clone(),
                    block: Some((*f.block).clone()),
                    in_trait_impl: false,
                    selfty: None,
                });
            }
            Item::Impl(i) => {
                if cfg_out(&i.attrs) {
                    continue;
                }
                let st = ty_string(&i.self_ty);
                let head = match &i.trait_ {
                    Some((_, p, _)) => {
                        let mut p = p.clone();
                        Flatten.visit_path_mut(&mut p);
                        format!("{} for {}", p.to_token_stream().to_string().replace(' ', ""), st)
                    }
                    None => st.clone(),
                };
                for ii in &i.items {
                    match ii {
                        ImplItem::Const(c) if i.trait_.is_none() => src.assoc.entry(st.clone()).or_default().push(c.clone()),
                        ImplItem::Fn(f) => {
                            src.fns.entry(format!("{}::{}", head, f.sig.ident)).or_default().push(FnItem {
                                sig: f.sig.clone(),
                                block: Some(f.block.clone()),
                                in_trait_impl: i.trait_.is_some(),
                                selfty: Some(st.clone()),
                            });
                        }
                        _ => {}
                    }
                }
            }
            Item::Struct(s) => src.items.entry(s.ident.to_string()).or_default().push(it.clone()),
            Item::Enum(s) => src.items.entry(s.ident.to_string()).or_default().push(it.clone()),
            Item::Const(s) => src.items.entry(s.ident.to_string()).or_default().push(it.clone()),
            Item::Type(s) => src.items.entry(s.ident.to_string()).or_default().push(it.clone()),
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- printing

fn print_tokens(ts: TokenStream, out: &mut String, in_brace: bool) {
    let mut joint = false;
    for tt in ts {
        let needs_space = !out.is_empty() && !out.ends_with('\n') && !joint;
        match tt {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("(", ")"),
                };
                if needs_space && g.delimiter() == Delimiter::Brace {
                    out.push(' ');
                }
                out.push_str(o);
                let brace = g.delimiter() == Delimiter::Brace;
                if brace {
                    out.push('\n');
                }
                print_tokens(g.stream(), out, brace);
                if brace && !out.ends_with('\n') {
                    out.push('\n');
                }
                out.push_str(c);
                if brace && in_brace {
                    out.push('\n');
                }
                joint = false;
            }
            TokenTree::Punct(p) => {
                if needs_space {
                    out.push(' ');
                }
                out.push(p.as_char());
                joint = p.spacing() == Spacing::Joint;
                if (p.as_char() == ';' || p.as_char() == ',') && in_brace {
                    out.push('\n');
                }
            }
            TokenTree::Ident(i) => {
                if needs_space {
                    out.push(' ');
                }
                out.push_str(&i.to_string());
                joint = false;
            }
            TokenTree::Literal(l) => {
                if needs_space {
                    out.push(' ');
                }
                out.push_str(&l.to_string());
                joint = false;
            }
        }
    }
}

pub fn pretty(ts: TokenStream) -> String {
    let mut s = String::new();
    print_tokens(ts, &mut s, false);
    s
}

// ---------------------------------------------------------------- template

#[derive(Default, Debug)]
struct FnDirective {
    src: String,
    key: String,
    opts: BTreeMap<String, String>,
    sections: BTreeMap<String, String>,
}

fn replace_marks(mut text: String, d: &FnDirective, nloops: usize) -> String {
    for n in 0..nloops {
        let g = |k: &str| d.sections.get(&format!("{k} {n}")).cloned().unwrap_or_default();
        for (tag, repl) in [("vx_bot_mark", g("bot")), ("vx_after_mark", g("after")), ("vx_before_mark", g("before"))] {
            let pat = format!("{tag} !( {n}) ;");
            text = text.replace(&pat, &format!("\n{repl}\n"));
        }
        // the loop mark is the first statement of the body
        let pat = format!("vx_loop_mark !( {n}) ;");
        if let Some(p) = text.find(&pat) {
            let brace = text[..p].rfind('{').unwrap();
            let inv = g("loop");
            let top = g("top");
            let head = text[..brace].to_string();
            let tail = text[p + pat.len()..].to_string();
            text = format!("{head}\n{inv}\n{{\n{top}\n{tail}");
        }
    }
    text
}

/// Field hints: `//@pre F` / `//@post F` go around the one top-level statement that mentions
/// self.F and no other field of self, wherever it stands; `$acc` is the variable the function returns.
fn field_hints(block: &mut Block, d: &FnDirective) {
    if !d.sections.keys().any(|k| k.starts_with("post ")) { return; }
    struct V(BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_field(&mut self, f: &'a ExprField) {
            if f.base.to_token_stream().to_string() == "self" { self.0.insert(f.member.to_token_stream().to_string()); }
            syn::visit::visit_expr_field(self, f);
        }
    }
    let sets: Vec<BTreeSet<String>> = block.stmts.iter().map(|s| { let mut v = V(Default::default()); syn::visit::Visit::visit_stmt(&mut v, s); v.0 }).collect();
    let last = block.stmts.len().saturating_sub(1);
    let mut out = vec![];
    for (i, s) in block.stmts.drain(..).enumerate() {
        let mut f = None;
        if let Stmt::Expr(e, semi) = &s {
            if sets[i].len() == 1 && i != last && (semi.is_some() || matches!(e, Expr::If(_) | Expr::Match(_))) {
                let n = sets[i].iter().next().unwrap();
                if sets.iter().filter(|x| x.contains(n)).count() == 1 { f = Some(n.clone()); }
            }
        }
        if let Some(n) = f {
            let id = Ident::new(&n, proc_macro2::Span::call_site());
            out.push(parse_quote!(vx_pre_mark!(#id);));
            out.push(s);
            out.push(parse_quote!(vx_post_mark!(#id);));
        } else { out.push(s); }
    }
    block.stmts = out;
}
/// `//@await` goes before every statement that waits (outside the blocks nested in it): a caller
/// may abandon the call there.
fn await_marks(block: &mut Block) {
    struct Waits(bool);
    impl<'a> syn::visit::Visit<'a> for Waits {
        fn visit_expr_await(&mut self, _: &'a ExprAwait) { self.0 = true; }
        fn visit_block(&mut self, _: &'a Block) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_async(&mut self, _: &'a ExprAsync) {}
    }
    struct Put;
    impl VisitMut for Put {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut out = vec![];
            for s in b.stmts.drain(..) {
                let mut w = Waits(false);
                syn::visit::Visit::visit_stmt(&mut w, &s);
                if w.0 { out.push(parse_quote!(vx_await_mark;)); }
                out.push(s);
            }
            b.stmts = out;
        }
    }
    Put.visit_block_mut(block);
}
/// `//@aftercall NAME` goes after the first statement, at any depth, in which NAME is called.
fn call_anchors(block: &mut Block, d: &FnDirective) -> Vec<String> {
    struct Has<'x>(&'x str, bool);
    impl<'a, 'x> syn::visit::Visit<'a> for Has<'x> {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            if m.method == self.0 { self.1 = true; }
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if let Expr::Path(p) = &*c.func { if p.path.segments.last().unwrap().ident == self.0 { self.1 = true; } }
            syn::visit::visit_expr_call(self, c);
        }
    }
    struct Put<'x>(&'x str, Ident, bool);
    impl<'x> VisitMut for Put<'x> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            if self.2 { return; }
            visit_mut::visit_block_mut(self, b);
            if self.2 { return; }
            for i in 0..b.stmts.len() {
                let mut h = Has(self.0, false);
                syn::visit::Visit::visit_stmt(&mut h, &b.stmts[i]);
                if h.1 {
                    let id = &self.1;
                    let tail = i + 1 == b.stmts.len() && matches!(&b.stmts[i], Stmt::Expr(_, None));
                    if !tail { b.stmts.insert(i + 1, parse_quote!(vx_call_mark!(#id);)); self.2 = true; }
                    return;
                }
            }
        }
    }
    let mut missing = vec![];
    for k in d.sections.keys() {
        if let Some(n) = k.strip_prefix("aftercall ") {
            let mut p = Put(n, Ident::new(n, proc_macro2::Span::call_site()), false);
            p.visit_block_mut(block);
            if !p.2 { missing.push(n.to_string()); }
        }
    }
    missing
}
fn put_hints(mut text: String, block: &Block, d: &FnDirective) -> String {
    let acc = match block.stmts.last() { Some(Stmt::Expr(Expr::Path(p), None)) => Some(p.path.to_token_stream().to_string()), _ => None };
    for tag in ["pre", "post"] {
        let pat = format!("vx_{tag}_mark !( ");
        while let Some(p) = text.find(&pat) {
            let e = p + text[p..].find(';').unwrap() + 1;
            let name = text[p + pat.len()..e].trim_end_matches(';').trim().trim_end_matches(')').trim().to_string();
            let mut r = d.sections.get(&format!("{tag} {name}")).cloned().unwrap_or_default();
            if r.contains("$acc") { r = match &acc { Some(a) => r.replace("$acc", a), None => String::new() }; }
            let r = if r.is_empty() { r } else { format!("\n{r}\n") };
            text.replace_range(p..e, &r);
        }
    }
    let pat = "vx_call_mark !( ";
    while let Some(p) = text.find(pat) {
        let e = p + text[p..].find(';').unwrap() + 1;
        let name = text[p + pat.len()..e].trim_end_matches(';').trim().trim_end_matches(')').trim().to_string();
        let r = d.sections.get(&format!("aftercall {name}")).cloned().unwrap_or_default();
        text.replace_range(p..e, &format!("\n{r}\n"));
    }
    text
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut template = String::new();
    let mut out_path = String::new();
    let mut map_path = String::new();
    let mut srcs: Vec<(String, String)> = vec![];
    let mut externals: BTreeSet<String> = BTreeSet::new();
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--template" => { template = args[i + 1].clone(); i += 2 }
            "--out" => { out_path = args[i + 1].clone(); i += 2 }
            "--map" => { map_path = args[i + 1].clone(); i += 2 }
            "--external" => { externals.insert(args[i + 1].clone()); i += 2 }
            "--src" => {
                let (a, b) = args[i + 1].split_once('=').unwrap();
                srcs.push((a.into(), b.into()));
                i += 2
            }
            x => panic!("bad arg {x}"),
        }
    }
    let mut sources: HashMap<String, Source> = HashMap::new();
    for (n, p) in &srcs {
        let text = std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{p}: {e}"));
        let text = fix_expanded(&text);
        match syn::parse_file(&text) {
            Ok(f) => collect(&f.items, sources.entry(n.clone()).or_default()),
            Err(e) => {
                eprintln!("PARSE-ERROR {p}: {e} at {:?}", e.span().start());
                std::process::exit(3);
            }
        }
    }
    let tdir = std::path::Path::new(&template).parent().unwrap().to_path_buf();
    let mut lines: Vec<String> = vec![];
    fn load(path: &std::path::Path, dir: &std::path::Path, lines: &mut Vec<String>) {
        let t = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path:?}: {e}"));
        for l in t.lines() {
            if let Some(inc) = l.trim().strip_prefix("//@include ") {
                load(&dir.join(inc.trim()), dir, lines);
            } else {
                lines.push(l.to_string());
            }
        }
    }
    load(std::path::Path::new(&template), &tdir, &mut lines);

    let mut out = String::new();
    let mut report: Vec<serde_json::Value> = vec![];
    let mut lost: Vec<String> = vec![];
    let mut heap: BTreeSet<String> = BTreeSet::new();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].clone();
        let t = l.trim();
        if let Some(rest) = t.strip_prefix("//@item ") {
            // //@item SRC NAME [| attrs]
            let (head, attrs) = rest.split_once('|').unwrap_or((rest, ""));
            let mut w = head.split_whitespace();
            let s = w.next().unwrap();
            let name = w.next().unwrap();
            match sources.get(s).and_then(|x| x.items.get(name)) {
                Some(v) if v.len() == 1 => {
                    out.push_str(attrs.trim());
                    out.push('\n');
                    out.push_str(&emit_item(&v[0]));
                    out.push('\n');
                    report.push(serde_json::json!({"kind":"item","src":s,"key":name}));
                }
                _ => lost.push(format!("item {name}")),
            }
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@heap ") {
            // functions that reach shared objects through handles: they take the heap as a parameter
            heap.extend(rest.split_whitespace().map(|x| x.to_string()));
            HEAP_MODE.with(|h| h.set(!heap.is_empty()));
            i += 1;
        } else if t == "//@flat" {
            // single-task code: locks and reference counts are transparent
            FLAT_MODE.with(|h| h.set(true));
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@log ") {
            // functions whose calls are recorded: they take the record as a parameter
            heap.extend(rest.split_whitespace().map(|x| x.to_string()));
            out.push_str("// log\n");
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@assoc ") {
            let (s, ty) = rest.trim().split_once(' ').unwrap();
            if let Some(l) = sources.get(s).and_then(|x| x.assoc.get(ty)) {
                out.push_str(&format!("impl {ty} {{\n"));
                for c in l {
                    let (n, t, e) = (&c.ident, ty_string(&c.ty), c.expr.to_token_stream());
                    out.push_str(&format!("    pub const {n}: {t} = {e};\n"));
                }
                out.push_str("}\n");
            }
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@consts ") {
            // every constant of a primitive integer type
            let s = rest.trim();
            let mut names: Vec<_> = sources.get(s).map(|x| x.items.keys().cloned().collect()).unwrap_or_default();
            names.sort();
            for n in names {
                let v = &sources[s].items[&n];
                // durations of so many seconds
                if let (Item::Const(c), true) = (&v[0], v.iter().all(|x| x.to_token_stream().to_string() == v[0].to_token_stream().to_string())) {
                    if let (true, Expr::Call(k)) = (ty_string(&c.ty) == "Duration", &*c.expr) {
                        let f = k.func.to_token_stream().to_string().replace(' ', "");
                        if let (true, 1, Some(Expr::Lit(l))) = (f.ends_with("Duration::from_secs"), k.args.len(), k.args.first()) {
                            let l = l.to_token_stream();
                            out.push_str(&format!("pub exec const {n}: Duration ensures {n} == (Duration {{ secs: {l}, nanos: 0 }}) {{ Duration {{ secs: {l}, nanos: 0 }} }}\n"));
                            report.push(serde_json::json!({"kind":"item","src":s,"key":n}));
                            continue;
                        }
                    }
                }
                if let (1, Item::Const(c)) = (v.len(), &v[0]) {
                    // text constants become arrays of their UTF-8 bytes
                    if ["&str", "&String", "&'staticstr"].contains(&c.ty.to_token_stream().to_string().replace(' ', "").as_str()) {
                        if let Expr::Lit(ExprLit { lit: Lit::Str(t), .. }) = &*c.expr {
                            let b: Vec<u8> = t.value().into_bytes();
                            out.push_str(&format!("pub const {}: [u8; {}] = {:?};\n", n, b.len(), b));
                            report.push(serde_json::json!({"kind":"item","src":s,"key":n}));
                        }
                    }
                    if ["u8", "u16", "u32", "u64", "usize", "bool"].contains(&ty_string(&c.ty).as_str()) {
                        out.push_str(&emit_item(&v[0]));
                        out.push('\n');
                    }
                }
            }
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@fn ") {
            let mut d = FnDirective::default();
            let (head, opts) = rest.split_once('|').unwrap_or((rest, ""));
            let (s, key) = head.trim().split_once(' ').unwrap();
            d.src = s.into();
            d.key = key.trim().into();
            for o in opts.split_whitespace() {
                let (a, b) = o.split_once('=').unwrap_or((o, ""));
                d.opts.insert(a.into(), b.into());
            }
            let mut cur = "spec".to_string();
            i += 1;
            while lines[i].trim() != "//@end" {
                if let Some(sec) = lines[i].trim().strip_prefix("//@") {
                    cur = sec.trim().to_string();
                    d.sections.entry(cur.clone()).or_default();
                } else {
                    let e = d.sections.entry(cur.clone()).or_default();
                    e.push_str(&lines[i]);
                    e.push('\n');
                }
                i += 1;
                if i >= lines.len() {
                    panic!("unterminated //@fn {}", d.key);
                }
            }
            i += 1;
            let start = out.matches('\n').count() + 1;
            let items = sources.get(&d.src).and_then(|x| x.fns.get(&d.key)).cloned();
            let (text, mut info) = match items {
                Some(v) if v.len() == 1 => emit_fn(&v[0], &d, &externals, &heap),
                _ => {
                    lost.push(d.key.clone());
                    (format!("// LOST {}\n", d.key), serde_json::json!({"status":"lost"}))
                }
            };
            out.push_str(&text);
            let end = out.matches('\n').count() + 1;
            info["kind"] = "fn".into();
            info["key"] = d.key.clone().into();
            info["src"] = d.src.clone().into();
            info["start"] = start.into();
            info["end"] = end.into();
            info["name"] = d.opts.get("as").cloned().unwrap_or(d.key.clone()).into();
            report.push(info);
        } else {
            out.push_str(&l);
            out.push('\n');
            i += 1;
        }
    }
    std::fs::write(&out_path, out).unwrap();
    let map = serde_json::json!({"functions": report, "lost": lost});
    std::fs::write(&map_path, serde_json::to_string_pretty(&map).unwrap()).unwrap();
}

struct SelfLocal;
impl VisitMut for SelfLocal {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.is_ident("self") { *p = parse_quote!(vx_self); } else { syn::visit_mut::visit_path_mut(self, p); }
    }
}
fn emit_item(it: &Item) -> String {
    let mut it = it.clone();
    match &mut it {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
            }
        }
        Item::Enum(e) => {
            e.attrs.retain(|a| a.path().is_ident("repr"));
            e.vis = parse_quote!(pub);
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
        }
        Item::Const(c) => {
            c.attrs.clear();
            c.vis = parse_quote!(pub);
        }
        Item::Type(c) => {
            c.attrs.clear();
            c.vis = parse_quote!(pub);
        }
        _ => {}
    }
    Flatten.visit_item_mut(&mut it);
    let mut rw = Rewriter::default();
    rw.visit_item_mut(&mut it);
    pretty(it.to_token_stream())
}

fn emit_fn(f: &FnItem, d: &FnDirective, externals: &BTreeSet<String>, heap: &BTreeSet<String>) -> (String, serde_json::Value) {
    let mut sig = f.sig.clone();
    let mut block = f.block.clone().unwrap();
    let mut rw = Rewriter::default();
    // `task`: the body of the task this function spawns, as a function of the variables it captures;
    // without it `//@spawn E` says what stands for the spawned task where it is started
    if d.opts.contains_key("task") || d.sections.contains_key("spawn") {
        struct Spawned { with: Option<Expr>, found: Option<Block> }
        impl VisitMut for Spawned {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Call(c) = e {
                    let n = if let Expr::Path(p) = &*c.func { p.path.segments.last().unwrap().ident.to_string() } else { String::new() };
                    if let (true, Some(Expr::Async(a))) = (n == "spawn", c.args.first()) {
                        if self.found.is_none() { self.found = Some(a.block.clone()); }
                        if let Some(w) = &self.with { *e = w.clone(); }
                        return;
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let with = d.sections.get("spawn").map(|t| syn::parse_str::<Expr>(t).expect("//@spawn"));
        let mut sp = Spawned { with, found: None };
        sp.visit_block_mut(&mut block);
        match sp.found {
            None => rw.unsupported.push("no task is spawned".into()),
            Some(b) => if d.opts.contains_key("task") { block = b; rw.note("task-as-function"); } else { rw.note("spawned-task-called"); },
        }
        if let (true, Some(t)) = (d.opts.contains_key("task"), d.sections.get("sig")) {
            sig = syn::parse_str::<Signature>(t).expect("//@sig");
            // variables the task owns, shown by reference: what they end as can be stated
            let shown: BTreeSet<String> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { if let (Pat::Ident(i), Type::Reference(_)) = (&*t.pat, &*t.ty) { return Some(i.ident.to_string()); } None } else { None }).collect();
            struct Deref(BTreeSet<String>);
            impl VisitMut for Deref {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if let Expr::Path(p) = e {
                        if let Some(i) = p.path.get_ident() { if self.0.contains(&i.to_string()) { let i = i.clone(); *e = parse_quote!((*#i)); return; } }
                    }
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            Deref(shown).visit_block_mut(&mut block);
        }
    }
    if d.sections.contains_key("await") { await_marks(&mut block); }
    rw.opts = d.opts.clone();
    rw.heap = heap.clone();
    // `mut self` by value: a local of the body
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            SelfLocal.visit_block_mut(&mut block);
            block.stmts.insert(0, parse_quote!(let mut vx_self = self;));
            rw.note("mut-self-as-local");
        }
    }
    // async erased
    if sig.asyncness.is_some() {
        sig.asyncness = None;
        rw.note("async-erased");
    }
    if d.opts.contains_key("mutself") {
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() { *r = parse_quote!(&mut self); }
        rw.note("interior-mutability-as-mut-self");
    }
    // the shared state passed by value (it is a bundle of handles)
    if !heap.is_empty() {
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                if t.ty.to_token_stream().to_string() == "BrokerState" {
                    t.ty = parse_quote!(&mut BrokerState);
                    rw.state_cloned = true;
                    rw.note("state-clone-is-shared");
                }
            }
        }
    }
    // a method name is listed as m:NAME, a function as NAME
    let name = sig.ident.to_string();
    let has_self = matches!(sig.inputs.first(), Some(FnArg::Receiver(_)));
    let key = if has_self { format!("m:{name}") } else { name };
    if heap.contains(&key) && !d.opts.contains_key("noheap") { sig.inputs.push(parse_quote!(vx_heap: &mut Heap)); }
    Flatten.visit_signature_mut(&mut sig);
    Flatten.visit_block_mut(&mut block);
    rw.visit_signature_mut(&mut sig);
    rw.visit_block_mut(&mut block);
    let mut lm = LoopMarker { n: 0, heads: Default::default() };
    lm.visit_block_mut(&mut block);
    field_hints(&mut block, d);
    let mut missing = call_anchors(&mut block, d);
    for (k, v) in d.sections.iter().filter_map(|(k, v)| Some((k.strip_prefix("over ")?, v))) {
        let want: String = v.split_whitespace().collect();
        let head = k.parse::<usize>().ok().and_then(|n| lm.heads.get(&n)).cloned().unwrap_or_default();
        if !head.contains(&want) { missing.push(format!("loop {k} over {want}")); }
    }
    let nloops = lm.n;
    let declared = d.sections.keys().filter(|k| k.starts_with("loop ")).count();
    let mut status = "ok";
    if declared != nloops {
        status = "loop-shape-changed";
    }
    if !missing.is_empty() {
        status = "anchor-lost";
        rw.unsupported.extend(missing.iter().map(|m| if m.starts_with("loop ") { format!("no {m}") } else { format!("no statement calls {m}") }));
    }
    if !rw.unsupported.is_empty() && missing.is_empty() {
        status = "unsupported";
    }
    if externals.contains(&d.key) {
        status = "external";
    }
    if let Some(n) = d.opts.get("as") {
        sig.ident = Ident::new(n, proc_macro2::Span::call_site());
    }
    // signature text
    let ret = d.sections.get("ret").map(|s| s.trim().to_string()).unwrap_or("r".into());
    let out_ty = match &sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some(t.to_token_stream()),
    };
    sig.output = ReturnType::Default;
    let wh = sig.generics.where_clause.take();
    let mut text = String::new();
    if let Some(a) = d.sections.get("attrs") {
        text.push_str(a);
    }
    if status != "ok" {
        text.push_str("#[verifier::external_body]\n");
    }
    if !f.in_trait_impl || d.opts.contains_key("free") {
        text.push_str("pub ");
    }
    text.push_str(&pretty(sig.to_token_stream()));
    if let Some(t) = &out_ty {
        text.push_str(&format!(" -> ({ret}: {})", pretty(t.clone())));
    }
    if let Some(w) = wh {
        text.push_str(&format!(" {}", pretty(w.to_token_stream())));
    }
    text.push('\n');
    if let Some(s) = d.sections.get("spec") {
        text.push_str(s);
    }
    if status != "ok" {
        text.push_str("{ unimplemented!() }\n");
    } else {
        let stmts = &block.stmts;
        let tail_txt = d.sections.get("tail").cloned();
        let body = if let (Some(_), Some(Stmt::Expr(e, None))) = (&tail_txt, stmts.last()) {
            let init = &stmts[..stmts.len() - 1];
            let t = out_ty.clone().unwrap_or(quote!(()));
            quote!({ #(#init)* let vx_ret: #t = #e; vx_tail_mark!(); vx_ret })
        } else if tail_txt.is_some() {
            quote!({ #(#stmts)* vx_tail_mark!(); })
        } else {
            quote!({ #(#stmts)* })
        };
        let mut b = pretty(body);
        b = replace_marks(b, d, nloops);
        b = put_hints(b, &block, d);
        if let Some(t) = d.sections.get("await") { b = b.replace("vx_await_mark ;", &format!("\n{t}\n")); }
        if let Some(t) = tail_txt {
            b = b.replace("vx_tail_mark !() ;", &format!("\n{t}\n"));
        }
        if let Some(s) = d.sections.get("start") {
            b = format!("{{\n{s}\n{}", &b[1..]);
        }
        // ad hoc named anchors:  //@before TEXT / //@after-text TEXT are not supported on purpose
        text.push_str(&b);
        text.push('\n');
    }
    let info = serde_json::json!({"status": status, "loops": nloops,
        "rewrites": rw.notes.iter().cloned().collect::<Vec<_>>(),
        "unsupported": rw.unsupported});
    (text, info)
}
