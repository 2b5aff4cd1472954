//! vx: mechanical extractor.  Reads a unit file (Verus text with //@ directives),
//! pulls the named items out of the repository's current source, applies the
//! documented dialect rewrites, splices the contracts in, and writes one file.
//! Exit: 0 ok, 3 lost anchor / unsupported shape (stderr says which), 2 usage.
mod rewrite;
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit_mut::VisitMut;

pub fn lost(msg: &str) -> ! {
    eprintln!("LOST-ANCHOR: {msg}");
    std::process::exit(3)
}

struct Ctx {
    repo: String,
    files: BTreeMap<String, syn::File>,
    modules: Vec<String>,
    verus: bool,
    metas: Vec<serde_json::Value>,
    dropped: Vec<String>,
    subs: Vec<(String, String)>,
    all_subs: Vec<String>,
    enum_codec: bool,
    trust: bool,
}

fn cfg_false(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && !rewrite::cfg_true(a))
}

impl Ctx {
    fn file(&mut self, p: &str) -> syn::File {
        if !self.files.contains_key(p) {
            let full = format!("{}/{}", self.repo, p);
            let text = std::fs::read_to_string(&full).unwrap_or_else(|_| lost(&format!("file {p} is gone")));
            let mut f = syn::parse_file(&text).unwrap_or_else(|e| lost(&format!("{p} does not parse: {e}")));
            expand_macros(&mut f, &mut self.dropped, p);
            self.files.insert(p.to_string(), f);
        }
        self.files[p].clone()
    }
}

/// `macro_rules! m( ($a:ident, $b:ty) => { items } )` with one rule and plain metavariables: textual expansion of its item invocations
fn expand_macros(f: &mut syn::File, dropped: &mut Vec<String>, p: &str) {
    use proc_macro2::{TokenStream, TokenTree};
    fn subst(ts: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
        let mut out = TokenStream::new();
        let mut it = ts.into_iter().peekable();
        while let Some(t) = it.next() {
            match t {
                TokenTree::Punct(ref pu) if pu.as_char() == '$' => match it.peek() {
                    Some(TokenTree::Ident(id)) if m.contains_key(&id.to_string()) => {
                        out.extend(m[&id.to_string()].clone());
                        it.next();
                    }
                    _ => out.extend([t]),
                },
                TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), m));
                    n.set_span(g.span());
                    out.extend([TokenTree::Group(n)]);
                }
                t => out.extend([t]),
            }
        }
        out
    }
    let mut rules: BTreeMap<String, (Vec<String>, TokenStream)> = BTreeMap::new();
    for it in &f.items {
        let syn::Item::Macro(m) = it else { continue };
        let Some(id) = &m.ident else { continue };
        let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
        // pattern => body [;]
        if toks.len() < 4 || toks.len() > 5 {
            continue;
        }
        let (TokenTree::Group(pat), TokenTree::Group(body)) = (&toks[0], &toks[3]) else { continue };
        let ps = pat.stream().to_string();
        let re = regex::Regex::new(r"^\$\s*(\w+)\s*:\s*\w+$").unwrap();
        let mut vars = vec![];
        let mut ok = true;
        for part in ps.split(',') {
            match re.captures(part.trim()) {
                Some(c) => vars.push(c[1].to_string()),
                None => ok = false,
            }
        }
        if ok {
            rules.insert(id.to_string(), (vars, body.stream()));
        }
    }
    let mut items = vec![];
    for it in f.items.drain(..) {
        if let syn::Item::Macro(m) = &it {
            if let (None, Some(id)) = (&m.ident, m.mac.path.get_ident()) {
                if let Some((vars, body)) = rules.get(&id.to_string()) {
                    let mut args: Vec<TokenStream> = vec![TokenStream::new()];
                    for t in m.mac.tokens.clone() {
                        match &t {
                            TokenTree::Punct(pu) if pu.as_char() == ',' => args.push(TokenStream::new()),
                            _ => args.last_mut().unwrap().extend([t]),
                        }
                    }
                    if args.len() == vars.len() {
                        let map = vars.iter().cloned().zip(args).collect();
                        if let Ok(ex) = syn::parse2::<syn::File>(subst(body.clone(), &map)) {
                            dropped.push(format!("{p}: {id}! expanded textually"));
                            items.extend(ex.items);
                            continue;
                        }
                    }
                }
            }
        }
        items.push(it);
    }
    f.items = items;
}

fn all_items(items: &[syn::Item], out: &mut Vec<syn::Item>) {
    for it in items {
        let attrs: &[syn::Attribute] = match it {
            syn::Item::Mod(m) => &m.attrs,
            syn::Item::Fn(f) => &f.attrs,
            syn::Item::Impl(i) => &i.attrs,
            syn::Item::Struct(i) => &i.attrs,
            syn::Item::Enum(i) => &i.attrs,
            syn::Item::Const(i) => &i.attrs,
            _ => &[],
        };
        if cfg_false(attrs) {
            continue;
        }
        if let syn::Item::Mod(m) = it {
            if let Some((_, its)) = &m.content {
                all_items(its, out);
            }
        } else {
            out.push(it.clone());
            // items declared inside function bodies
            let mut blocks: Vec<&syn::Block> = vec![];
            match it {
                syn::Item::Fn(f) => blocks.push(&f.block),
                syn::Item::Impl(im) => {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if !cfg_false(&f.attrs) {
                                blocks.push(&f.block)
                            }
                        }
                    }
                }
                _ => {}
            }
            for b in blocks {
                let its: Vec<syn::Item> = b.stmts.iter().filter_map(|s| if let syn::Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
                all_items(&its, out);
            }
        }
    }
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        other => other.to_token_stream().to_string(),
    }
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub enum Found {
    Fn(syn::ItemFn),
    Method(syn::ImplItemFn),
    TraitMethod(syn::TraitItemFn),
}

/// path forms: `name`, `Type::name`, `Trait for Type::name`, `trait Trait::name`
fn find_fn(file: &syn::File, path: &str) -> Option<(Found, Span)> {
    // `outer//inner`: a function declared inside a function body
    if let Some((o, n)) = path.rsplit_once("//") {
        let block = match find_fn(file, o)?.0 {
            Found::Fn(f) => *f.block,
            Found::Method(m) => m.block,
            Found::TraitMethod(m) => m.default?,
        };
        for s in block.stmts {
            if let syn::Stmt::Item(syn::Item::Fn(f)) = s {
                if f.sig.ident == n.trim() {
                    let sp = f.span();
                    return Some((Found::Fn(f), sp));
                }
            }
        }
        return None;
    }
    let mut items = vec![];
    all_items(&file.items, &mut items);
    let (owner, name) = match path.rsplit_once("::") {
        Some((o, n)) => (Some(o.trim().to_string()), n.trim().to_string()),
        None => (None, path.trim().to_string()),
    };
    let Some(owner) = owner else {
        for it in items {
            if let syn::Item::Fn(f) = it {
                if f.sig.ident == name {
                    let sp = f.span();
                    return Some((Found::Fn(f), sp));
                }
            }
        }
        return None;
    };
    if let Some(tr) = owner.strip_prefix("trait ") {
        for it in items {
            if let syn::Item::Trait(t) = it {
                if t.ident == tr.trim() {
                    for ti in t.items {
                        if let syn::TraitItem::Fn(f) = ti {
                            if f.sig.ident == name {
                                let sp = f.span();
                                return Some((Found::TraitMethod(f), sp));
                            }
                        }
                    }
                }
            }
        }
        return None;
    }
    let (tr, ty) = match owner.split_once(" for ") {
        Some((t, ty)) => (Some(norm(t)), norm(ty)),
        None => (None, norm(&owner)),
    };
    for it in items {
        if let syn::Item::Impl(im) = it {
            let full = norm(&im.self_ty.to_token_stream().to_string());
            if type_name(&im.self_ty) != ty && full != ty {
                continue;
            }
            match (&tr, &im.trait_) {
                (None, None) => {}
                (Some(t), Some((_, p, _))) => {
                    let last = p.segments.last().unwrap();
                    if norm(&last.to_token_stream().to_string()) != *t && last.ident != t.as_str() {
                        continue;
                    }
                }
                _ => continue,
            }
            for ii in im.items {
                if let syn::ImplItem::Fn(f) = ii {
                    if f.sig.ident == name && !cfg_false(&f.attrs) {
                        let sp = f.span();
                        return Some((Found::Method(f), sp));
                    }
                }
            }
        }
    }
    None
}

struct FnSpec {
    ret: String,
    spec: String,
    loops: BTreeMap<usize, (String, String, String, String, String)>, // kind, iter, inv, begin, end
    begin: String,
    tail: String,
    afters: Vec<(String, usize, String)>,
    befores: Vec<(String, usize, String)>,
    subs: Vec<(String, String)>,
    subreqs: Vec<(String, String)>,
    closures: String,
    panics: bool,
    rename: Option<String>,
    pubvis: bool,
    attrs: String,
    external_body: bool,
}

fn splice_fn(ctx: &mut Ctx, file: &str, path: &str, sp: FnSpec) -> String {
    let f = ctx.file(file);
    let Some((found, span)) = find_fn(&f, path) else { lost(&format!("fn {path} not found in {file}")) };
    let (vis, mut sig, block) = match found {
        Found::Fn(f) => (true, f.sig, Some(*f.block)),
        Found::Method(m) => (!path.contains(" for "), m.sig, Some(m.block)),
        Found::TraitMethod(m) => (false, m.sig, m.default),
    };
    let mut block = block.unwrap_or_else(|| lost(&format!("fn {path} has no body")));
    let src_hash = {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        norm(&block.to_token_stream().to_string()).hash(&mut h);
        format!("{:016x}", h.finish())
    };
    let mut rw = rewrite::Rw {
        modules: ctx.modules.clone(),
        verus: ctx.verus,
        closures: sp.closures.clone(),
        panics: sp.panics,
        notes: vec![],
    };
    rw.visit_signature_mut(&mut sig);
    rw.visit_block_mut(&mut block);
    let mut notes = rw.notes.clone();
    if ctx.verus {
        // `mut self` by value: bind a mutable local
        if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
                rewrite::SelfName.visit_block_mut(&mut block);
                block.stmts.insert(0, syn::parse_quote!(let mut vx_self = self;));
                notes.push("mut self".into());
            }
        }
    }
    if let Some(n) = &sp.rename {
        sig.ident = syn::Ident::new(n, Span::call_site());
    }
    let mut n_obl = 0usize;
    let mut text = String::new();
    if ctx.verus {
        // loops
        let mut lv = rewrite::LoopMark { next: 0, kinds: vec![] };
        lv.visit_block_mut(&mut block);
        n_obl += lv.kinds.len();
        for (i, k) in lv.kinds.iter().enumerate() {
            match sp.loops.get(&i) {
                None => lost(&format!("{path}: loop {i} ({k}) has no contract (loop structure changed)")),
                Some((want, ..)) if want != k => lost(&format!("{path}: loop {i} is `{k}`, contract written for `{want}`")),
                _ => {}
            }
        }
        if sp.loops.len() != lv.kinds.len() {
            lost(&format!("{path}: {} loop contracts, {} loops in source", sp.loops.len(), lv.kinds.len()));
        }
        for (name, k, _) in &sp.afters {
            let mut m = rewrite::CallMark { name: name.clone(), k: *k, seen: 0, done: false, after: true };
            m.visit_block_mut(&mut block);
            if !m.done {
                lost(&format!("{path}: proof anchor call `{name}` #{k} is gone"));
            }
        }
        for (name, k, _) in &sp.befores {
            let mut m = rewrite::CallMark { name: name.clone(), k: *k, seen: 0, done: false, after: false };
            m.visit_block_mut(&mut block);
            if !m.done {
                lost(&format!("{path}: proof anchor call `{name}` #{k} is gone"));
            }
        }
        let mk: syn::Stmt = syn::parse_quote!(__vx_fn_begin!(););
        block.stmts.insert(0, mk);
        if !sp.tail.is_empty() {
            // turn the tail expression into `let __r = e; proof {..} __r`
            let loop_tail = matches!(block.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_), None)));
            if let (Some(syn::Stmt::Expr(e, None)), false) = (block.stmts.last().cloned(), loop_tail) {
                block.stmts.pop();
                block.stmts.push(syn::parse_quote!(let __r = #e;));
                block.stmts.push(syn::parse_quote!(__vx_tail!();));
                block.stmts.push(syn::Stmt::Expr(syn::parse_quote!(__r), None));
            } else {
                block.stmts.push(syn::parse_quote!(__vx_tail!();));
            }
        }
        let item = syn::File {
            shebang: None,
            attrs: vec![],
            items: vec![syn::Item::Fn(syn::ItemFn {
                attrs: vec![],
                vis: syn::Visibility::Inherited,
                sig: {
                    // receiver-less placeholder signature; real one printed by hand
                    let mut s: syn::Signature = syn::parse_quote!(fn __vx_placeholder());
                    s.generics = Default::default();
                    s
                },
                block: Box::new(block),
            })],
        };
        let mut body = prettyplease::unparse(&item);
        let start = body.find('{').unwrap();
        body = body[start..].to_string();
        // loops
        for (i, (_, iter, inv, b, e)) in &sp.loops {
            let mk = format!("__vx_loop!({i});");
            let pos = body.find(&mk).unwrap_or_else(|| lost(&format!("{path}: loop marker {i}")));
            let brace = body[..pos].rfind('{').unwrap();
            let mut head = body[..brace].to_string();
            if !iter.is_empty() {
                // `for pat in expr` -> `for pat in iter: expr`
                let fpos = head.rfind(" in ").unwrap();
                head.insert_str(fpos + 4, &format!("{iter}: "));
            }
            let rest = body[pos + mk.len()..].to_string();
            body = format!("{head}\n{inv}\n{{ {b}\n{rest}");
            let mke = format!("__vx_loop_end!({i});");
            body = body.replace(&mke, e);
        }
        for (name, k, proof) in &sp.afters {
            body = body.replace(&format!("__vx_after!({}, {k});", rewrite::ident_safe(name)), proof);
        }
        for (name, k, proof) in &sp.befores {
            body = body.replace(&format!("__vx_before!({}, {k});", rewrite::ident_safe(name)), proof);
        }
        let begin = if std::env::var("VX_VACUITY").is_ok() { format!("{}\nproof {{ assert(false); }}\n", sp.begin) } else { sp.begin.clone() };
        body = body.replacen("__vx_fn_begin!();", &begin, 1);
        body = body.replace("__vx_tail!();", &sp.tail);
        body = body.replace("__vx_drop!();", "");
        for (re, to) in sp.subreqs.iter() {
            let r = regex::Regex::new(re).unwrap_or_else(|e| panic!("bad regex {re}: {e}"));
            if !r.is_match(&body) {
                if std::env::var("VX_DEBUG").is_ok() { eprintln!("{body}"); }
                lost(&format!("{path}: proof anchor text /{re}/ is gone"));
            }
            body = r.replace_all(&body, to.as_str()).to_string();
        }
        for (re, to) in sp.subs.iter().chain(ctx.subs.iter()) {
            let r = regex::Regex::new(re).unwrap_or_else(|e| panic!("bad regex {re}: {e}"));
            body = r.replace_all(&body, to.as_str()).to_string();
        }
        // signature
        let ret = match &sig.output {
            syn::ReturnType::Default => String::new(),
            syn::ReturnType::Type(_, t) => format!(" -> ({}: {})", sp.ret, t.to_token_stream()),
        };
        sig.output = syn::ReturnType::Default;
        let ret0 = ret;
        let wc = sig.generics.where_clause.take();
        let mut wc_s = wc.map(|w| w.to_token_stream().to_string()).unwrap_or_default();
        for (re, to) in sp.subs.iter().chain(ctx.subs.iter()) {
            let r = regex::Regex::new(re).unwrap();
            wc_s = r.replace_all(&wc_s, to.as_str()).to_string();
        }
        sig.asyncness = None; // async functions are read as their body (see rewrite.rs)
        let mut sigs = sig.to_token_stream().to_string() + &ret0;
        for (re, to) in sp.subs.iter().chain(ctx.subs.iter()) {
            let r = regex::Regex::new(re).unwrap();
            sigs = r.replace_all(&sigs, to.as_str()).to_string();
        }
        let _ = write!(text, "// vx:{file}:{}:{path}\n{}", span.start().line, sp.attrs);
        if sp.external_body {
            text.push_str("#[verifier::external_body]\n");
        }
        if vis && sp.pubvis {
            text.push_str("pub ");
        }
        let pf = text.contains("pub \u{1}");
        text = text.replace("pub \u{1}", "");
        if pf {
            text.push_str("pub ");
        }
        let body = if sp.external_body { "{ unimplemented!() }".to_string() } else { body };
        let _ = write!(text, "{sigs} {wc_s}\n{}\n{body}\n", sp.spec);
    } else {
        let toks = {
            let v = if vis { quote::quote!(pub) } else { quote::quote!() };
            quote::quote!(#v #sig #block)
        };
        let mut b = toks.to_string();
        for (re, to) in sp.subs.iter().chain(ctx.subs.iter()) {
            let r = regex::Regex::new(re).unwrap();
            b = r.replace_all(&b, to.as_str()).to_string();
        }
        text.push_str(&b);
        text.push('\n');
    }
    ctx.metas.push(serde_json::json!({
        "fn": path, "file": file, "line": span.start().line, "end_line": span.end().line,
        "hash": src_hash, "rewrites": notes, "loops": n_obl, "subs": sp.subs.iter().map(|s| s.0.clone()).collect::<Vec<_>>(),
        "has_requires": sp.spec.contains("requires"), "external_body": sp.external_body, "trusted_import": ctx.trust,
        "name": sig.ident.to_string(),
    }));
    text
}

fn strip_item(ctx: &Ctx, it: &mut syn::Item, keep_derives: bool) {
    let mut rw = rewrite::Rw { modules: ctx.modules.clone(), verus: ctx.verus, closures: String::new(), notes: vec![], panics: false };
    rw.keep_derives(keep_derives);
    rw.visit_item_mut(it);
}

/// the type of a static or const, with the elided `'static` of its references written out
fn static_refs(t: &syn::Type) -> String {
    regex::Regex::new(r"&\s*([^'\s])").unwrap().replace_all(&t.to_token_stream().to_string(), "&'static $1").to_string()
}
fn emit_item(ctx: &mut Ctx, file: &str, kind: &str, name: &str) -> String {
    let f = ctx.file(file);
    let mut items = vec![];
    all_items(&f.items, &mut items);
    let pubv: syn::Visibility = syn::parse_quote!(pub);
    for it in items {
        match it {
            syn::Item::Struct(mut s) if kind == "struct" && s.ident == name => {
                s.attrs.clear();
                s.vis = pubv.clone();
                for fl in s.fields.iter_mut() {
                    fl.vis = pubv.clone();
                    fl.attrs.clear();
                }
                let mut i = syn::Item::Struct(s);
                strip_item(ctx, &mut i, false);
                return i.to_token_stream().to_string() + "\n";
            }
            syn::Item::Enum(mut e) if kind == "enum" && e.ident == name => {
                e.attrs.clear();
                e.vis = pubv.clone();
                for v in e.variants.iter_mut() {
                    v.attrs.clear();
                    for fl in v.fields.iter_mut() {
                        fl.attrs.clear();
                    }
                }
                let mut i = syn::Item::Enum(e);
                strip_item(ctx, &mut i, false);
                return i.to_token_stream().to_string() + "\n";
            }
            syn::Item::Type(mut c) if kind == "alias" && c.ident == name => {
                c.attrs.clear();
                c.vis = pubv.clone();
                let mut i = syn::Item::Type(c);
                strip_item(ctx, &mut i, false);
                return i.to_token_stream().to_string() + "\n";
            }
            syn::Item::Static(mut c) if kind == "static" && c.ident == name => {
                c.attrs.clear();
                c.vis = pubv.clone();
                let mut i = syn::Item::Static(c);
                strip_item(ctx, &mut i, false);
                let syn::Item::Static(c) = i else { unreachable!() };
                // an immutable static (or const): an exec constant whose contract is proved from its initialiser
                return format!("// vx:{file}:{}:{name}\npub exec const {name}: {}\n    ensures @ENS@\n{{ let __r = {}; proof {{ @PROOF@ }} __r }}\n", c.span().start().line, static_refs(&c.ty), c.expr.to_token_stream());
            }
            syn::Item::Const(mut c) if kind == "static" && c.ident == name => {
                c.attrs.clear();
                c.vis = pubv.clone();
                let mut i = syn::Item::Const(c);
                strip_item(ctx, &mut i, false);
                let syn::Item::Const(c) = i else { unreachable!() };
                return format!("// vx:{file}:{}:{name}\npub exec const {name}: {}\n    ensures @ENS@\n{{ let __r = {}; proof {{ @PROOF@ }} __r }}\n", c.span().start().line, static_refs(&c.ty), c.expr.to_token_stream());
            }
            syn::Item::Const(mut c) if kind == "const" && c.ident == name => {
                c.attrs.clear();
                c.vis = pubv.clone();
                let mut i = syn::Item::Const(c);
                strip_item(ctx, &mut i, false);
                return i.to_token_stream().to_string() + "\n";
            }
            syn::Item::Impl(im) if kind == "static" && name.contains("::") => {
                // an associated constant: emitted as a free exec constant of its own name
                let (ty, cn) = name.split_once("::").unwrap();
                if im.trait_.is_none() && type_name(&im.self_ty) == ty {
                    for ii in im.items {
                        if let syn::ImplItem::Const(mut c) = ii {
                            if c.ident == cn {
                                if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) = &c.expr {
                                    let bytes = b.value().iter().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", ");
                                    c.expr = syn::parse_str(&format!("&[{bytes}]")).unwrap();
                                }
                                return format!("// vx:{file}:{}:{name}\npub exec const {cn}: {}\n    ensures @ENS@\n{{ let __r = {}; proof {{ @PROOF@ }} __r }}\n", c.span().start().line, static_refs(&c.ty), c.expr.to_token_stream());
                            }
                        }
                    }
                }
            }
            syn::Item::Impl(im) if kind == "assoc" => {
                // name = Type::CONST
                let (ty, cn) = name.split_once("::").unwrap();
                if im.trait_.is_none() && type_name(&im.self_ty) == ty {
                    for ii in im.items {
                        if let syn::ImplItem::Const(mut c) = ii {
                            if c.ident == cn {
                                c.attrs.clear();
                                c.vis = pubv.clone();
                                return c.to_token_stream().to_string() + "\n";
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    lost(&format!("{kind} {name} not found in {file}"))
}

/// Expands `enum_builder!{ @U8/@U16 EnumName: X; EnumVal { A => e, .. } }` the way the repo's macro does.
/// Real expansion of the repository's `enum_builder!` (macros.rs beside the file): the transcriber of the arm whose
/// matcher carries the invocation's width marker, with `$( .. ),*` repeated over the values.
fn expand_enum_builder(ctx: &mut Ctx, file: &str, name: &str) -> (String, Vec<(String, String)>, Vec<syn::Item>) {
    use proc_macro2::{TokenStream, TokenTree};
    let f = ctx.file(file);
    let mfile = format!("{}macros.rs", &file[..file.rfind('/').map(|x| x + 1).unwrap_or(0)]);
    let mf = ctx.file(&mfile);
    let re = regex::Regex::new(r"@\s*(U8|U16)\s+EnumName\s*:\s*(\w+)\s*;\s*EnumVal\s*\{([^}]*)\}").unwrap();
    for it in &f.items {
        let syn::Item::Macro(m) = it else { continue };
        if !m.mac.path.is_ident("enum_builder") {
            continue;
        }
        let s = m.mac.tokens.to_string();
        let Some(c) = re.captures(&s) else { lost("enum_builder! invocation shape changed") };
        if &c[2] != name {
            continue;
        }
        let mark = c[1].to_string();
        let vals: Vec<(String, String)> = c[3]
            .split(',')
            .filter(|x| !x.trim().is_empty())
            .map(|x| {
                let (a, b) = x.split_once("=>").unwrap_or_else(|| lost("enum_builder! arm"));
                (a.trim().to_string(), b.trim().to_string())
            })
            .collect();
        let mut body = None;
        for it in &mf.items {
            let syn::Item::Macro(r) = it else { continue };
            if r.ident.as_ref().map(|i| i == "enum_builder") != Some(true) {
                continue;
            }
            let toks: Vec<TokenTree> = r.mac.tokens.clone().into_iter().collect();
            for k in 0..toks.len().saturating_sub(3) {
                if let (TokenTree::Group(p), TokenTree::Group(b)) = (&toks[k], &toks[k + 3]) {
                    let ps = norm(&p.stream().to_string());
                    if ps.contains(&norm(&format!("@{mark} EnumName"))) {
                        body.get_or_insert(b.stream());
                    }
                }
            }
        }
        let Some(body) = body else { lost("enum_builder! definition shape changed") };
        fn tr(ts: TokenStream, name: &str, vals: &[(String, String)], cur: Option<&(String, String)>) -> TokenStream {
            let v: Vec<TokenTree> = ts.into_iter().collect();
            let mut out = TokenStream::new();
            let mut i = 0;
            while i < v.len() {
                let dollar = matches!(&v[i], TokenTree::Punct(p) if p.as_char() == '$');
                match (&v[i], v.get(i + 1)) {
                    (_, Some(TokenTree::Group(g))) if dollar => {
                        // $( .. ) sep? *
                        let mut sep = None;
                        let mut j = i + 2;
                        if let Some(TokenTree::Punct(p)) = v.get(j) {
                            if p.as_char() != '*' {
                                sep = Some(v[j].clone());
                                j += 1;
                            }
                        }
                        let star = matches!(v.get(j), Some(TokenTree::Punct(p)) if p.as_char() == '*');
                        if !star {
                            lost("enum_builder! repetition shape changed");
                        }
                        let t = g.stream().to_string();
                        if !t.contains("comment") {
                            for (n, val) in vals.iter().enumerate() {
                                if n > 0 {
                                    if let Some(s) = &sep {
                                        out.extend([s.clone()]);
                                    }
                                }
                                out.extend(tr(g.stream(), name, vals, Some(val)));
                            }
                        }
                        i = j + 1;
                    }
                    (_, Some(TokenTree::Ident(id))) if dollar => {
                        let r = match (id.to_string().as_str(), cur) {
                            ("enum_name", _) => name.to_string(),
                            ("enum_var", Some(c)) => c.0.clone(),
                            ("enum_val", Some(c)) => c.1.clone(),
                            (x, _) => lost(&format!("enum_builder! metavariable {x}")),
                        };
                        out.extend(r.parse::<TokenStream>().unwrap());
                        i += 2;
                    }
                    (TokenTree::Group(g), _) => {
                        out.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), tr(g.stream(), name, vals, cur)))]);
                        i += 1;
                    }
                    (t, _) => {
                        out.extend([t.clone()]);
                        i += 1;
                    }
                }
            }
            out
        }
        let ts = tr(body, name, &vals, None);
        let ex = syn::parse2::<syn::File>(ts).unwrap_or_else(|e| lost(&format!("enum_builder!({name}) expansion: {e}")));
        return (if mark == "U8" { "u8".into() } else { "u16".into() }, vals, ex.items);
    }
    lost(&format!("enum_builder! {name} not found in {file}"))
}

fn emit_enum_macro(ctx: &mut Ctx, dir: &std::path::Path, file: &str, name: &str, out: &mut String) {
    let (w, vals, items) = expand_enum_builder(ctx, file, name);
    // the expansion becomes a pseudo-file the //@fn directives below read
    let pf = format!("{file}#{name}");
    ctx.files.insert(pf.clone(), syn::File { shebang: None, attrs: vec![], items: items.clone() });
    ctx.dropped.push(format!("{file}: enum_builder!({name}) expanded from macros.rs; the enum's derives are replaced by (Clone, Copy, PartialEq, Eq, Structural)"));
    let Some(en) = items.iter().find_map(|i| if let syn::Item::Enum(e) = i { Some(e) } else { None }) else { lost("enum_builder! no longer defines an enum") };
    let big = vals.len() > 100;
    let op = if big { "#[verifier::opaque] " } else { "" };
    let rv = if big { format!("//@begin\n    proof {{ reveal({name}::code); reveal({name}::canon); }}\n") } else { String::new() };
    let vars: String = en.variants.iter().map(|v| format!("{}, ", v.to_token_stream())).collect();
    let mut o = String::new();
    let _ = writeln!(o, "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub enum {name} {{ {vars} }}");
    let _ = writeln!(o, "impl {name} {{ {op}pub open spec fn code(&self) -> {w} {{ match *self {{ {} {name}::Unknown(x) => x }} }}",
        vals.iter().map(|v| format!("{name}::{} => {}, ", v.0, v.1)).collect::<String>());
    let _ = writeln!(o, "{op}pub open spec fn canon(c: {w}) -> {name} {{ {} {{ {name}::Unknown(c) }} }}",
        vals.iter().map(|v| format!("if c == {} {{ {name}::{} }} else", v.1, v.0)).collect::<Vec<_>>().join(" "));
    let _ = writeln!(o, "//@fn {pf} {name}::get_{w}\n    ensures r == self.code(),\n{rv}//@end");
    let _ = writeln!(o, "//@fn {pf} \"From<{w}> for {name}::from\" rename=vx_from\n    ensures r == {name}::canon(x), r.code() == x,\n{rv}//@end\n}}");
    if ctx.enum_codec {
        let encs = match w.as_str() { "u8" => "seq![self.code()]", _ => "be16(self.code())" };
        let n = if w == "u8" { 1 } else { 2 };
        let hint = if w == "u8" { "let s = r.tailv(); if s.len() >= 1 { assert(s.take(1)[0] == s[0]); assert(seq![s[0]][0] == s[0]); }" } else { "" };
        let _ = writeln!(o, "impl Codec for {name} {{
    open spec fn wfv(&self) -> bool {{ true }}
    open spec fn decoded(&self) -> bool {{ *self == {name}::canon(self.code()) }}
    open spec fn rtv(&self, last: bool) -> bool {{ true }}
    open spec fn prog() -> bool {{ true }}
    open spec fn enc(&self) -> Seq<u8> {{ {encs} }}
    open spec fn plen(s: Seq<u8>) -> Option<nat> {{ fixed_plen(s, {n}) }}
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) {{ }}
    proof fn lemma_plen(s: Seq<u8>) {{ }}
//@fn {pf} \"Codec for {name}::encode\"
//@end
//@fn {pf} \"Codec for {name}::read\" ret=res
//@begin
    proof {{ {hint} }}
//@subreq {name}\\s*::\\s*from =>> {name}::vx_from
//@end
}}");
    }
    process(ctx, dir, &o, out);
}

fn words(s: &str) -> Vec<String> {
    // space-separated, "..." groups
    let mut out = vec![];
    let mut cur = String::new();
    let mut q = false;
    for c in s.chars() {
        match c {
            '"' => q = !q,
            c if c.is_whitespace() && !q => {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

/// contract of a type made by declare_uN_vec!: an N-bit length-prefixed vector of Item
fn gen_codecvec(file: &str, name: &str, item: &str, width: &str) -> String {
    let (w, be, max, hdr) = match width {
        "8" => ("8", "seq![enc_all(self@).len() as u8]".to_string(), "0xff", 1),
        "16" => ("16", "be16(enc_all(self@).len() as u16)".to_string(), "0xffff", 2),
        "24" => ("24", "be24(enc_all(self@).len() as u32)".to_string(), "0xff_ffff", 3),
        _ => panic!("width"),
    };
    // 24-bit vectors carry the limit of their read function
    let (pl, rt) = if w == "24" {
        (format!("vec24_plen::<{item}>(s, 0x10000)"), format!("lemma_vec24_rt::<{item}>(v@, tail, 0x10000);"))
    } else {
        (format!("vec{w}_plen::<{item}>(s)"), format!("lemma_vec{w}_rt::<{item}>(v@, tail);"))
    };
    let wfmax = if w == "24" { "0x10000" } else { max };
    format!(r#"impl Codec for {name} {{
    open spec fn wfv(&self) -> bool {{ all_wf(self@) && enc_all(self@).len() <= {wfmax} }}
    open spec fn decoded(&self) -> bool {{ true }}
    open spec fn rtv(&self, last: bool) -> bool {{ all_rt(self@) }}
    open spec fn prog() -> bool {{ true }}
    open spec fn enc(&self) -> Seq<u8> {{ {be} + enc_all(self@) }}
    open spec fn plen(s: Seq<u8>) -> Option<nat> {{ {pl} }}
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) {{ {rt} }}
    proof fn lemma_plen(s: Seq<u8>) {{ }}
//@fn {file} "Codec for {name}::encode"
//@end
//@fn {file} "Codec for {name}::read" ret=res
//@begin
    let ghost s0 = r.tailv();
    proof {{ lemma_nats(s0); }}
//@tail
    proof {{ if __r is Some {{ lemma_vec_hdr{w}(s0, enc_all(__r->0@)); }} }}
//@end
}}
"#).replace("lemma_vec_hdr", "lemma_vec_hdr").replace("{hdr}", &hdr.to_string())
}

/// contract of a struct that is its fields' encodings in order
fn gen_codecstruct(file: &str, name: &str, fields: &[String]) -> String {
    let mut extra_dec = String::new();
    let mut fs: Vec<(String, String)> = vec![];
    let (mut ok, mut bx) = (String::new(), String::new());
    for f in fields {
        if let Some(x) = f.strip_prefix("wf=") {
            extra_dec = x.to_string();
            continue;
        }
        if let Some(x) = f.strip_prefix("ok=") {
            ok = x.to_string();
            continue;
        }
        if let Some(x) = f.strip_prefix("begin=") {
            bx = x.to_string();
            continue;
        }
        let (a, b) = f.split_once(':').unwrap();
        let b = if b.contains('<') { format!("<{b} as Codec>") } else { b.to_string() };
        fs.push((a.to_string(), b));
    }
    let k = fs.len();
    let j = |sep: &str, f: &dyn Fn(usize) -> String| (0..k).map(|i| f(i)).collect::<Vec<_>>().join(sep);
    let enc = j(" + ", &|i| format!("self.{}.enc()", fs[i].0));
    let wf = j(" && ", &|i| format!("self.{}.wfv()", fs[i].0));
    let dec = j(" && ", &|i| format!("self.{}.decoded()", fs[i].0));
    // every field but the last is followed by something or nothing: demand both
    let rt = j(" && ", &|i| if i + 1 == k { format!("self.{}.rtv(last)", fs[i].0) } else { format!("self.{0}.rtv(false) && self.{0}.rtv(true)", fs[i].0) });
    let prog = j(" || ", &|i| format!("{}::prog()", fs[i].1));
    let sum = |i: usize| if i == 0 { "0".to_string() } else { (0..i).map(|x| format!("n{x}")).collect::<Vec<_>>().join(" + ") };
    let skip = |i: usize| if i == 0 { "s".to_string() } else { format!("s.skip(({}) as int)", sum(i)) };
    let mut plen = String::new();
    for i in 0..k {
        plen += &format!("match {}::plen({}) {{ None => None, Some(n{i}) => ", fs[i].1, skip(i));
    }
    plen += &if ok.is_empty() { format!("Some({})", sum(k)) } else { format!("if {ok} {{ Some({}) }} else {{ None }}", sum(k)) };
    plen += &" }".repeat(k);
    // lemma_plen / begin-proof share one walk
    let mut walk = String::new();
    for i in 0..k {
        walk += &format!("if let Some(n{i}) = {}::plen({}) {{ {0}::lemma_plen({1}); ", fs[i].1, skip(i));
        if i > 0 {
            walk += &format!("lemma_skip_take(s, ({}) as int, n{i} as int); ", sum(i));
        }
    }
    walk += &" }".repeat(k);
    // lemma_rt
    let mut rtp = String::new();
    for i in 0..k {
        let rest = {
            let mut r = "tail".to_string();
            for x in (i + 1..k).rev() {
                r = format!("(v.{}.enc() + {r})", fs[x].0);
            }
            r
        };
        rtp += &format!("let n{i} = v.{}.enc().len(); let t{i} = {rest}; ", fs[i].0);
    }
    rtp += "let s = v.enc() + tail; ";
    for i in 0..k {
        if i == 0 {
            rtp += &format!("assert(s =~= v.{}.enc() + t0); ", fs[0].0);
        } else {
            rtp += &format!("assert(s.skip(({}) as int) =~= v.{}.enc() + t{i}); ", sum(i), fs[i].0);
        }
        rtp += &format!("{}::lemma_rt(&v.{}, t{i}); ", fs[i].1, fs[i].0);
    }
    let (ewf, edec) = if extra_dec.is_empty() { (String::new(), String::new()) } else { (format!(" && ({extra_dec})"), String::new()) };
    format!(r#"impl Codec for {name} {{
    open spec fn wfv(&self) -> bool {{ {wf}{ewf} }}
    open spec fn decoded(&self) -> bool {{ {dec}{edec} }}
    open spec fn rtv(&self, last: bool) -> bool {{ {rt} }}
    open spec fn prog() -> bool {{ {prog} }}
    open spec fn enc(&self) -> Seq<u8> {{ {enc} }}
    open spec fn plen(s: Seq<u8>) -> Option<nat> {{ {plen} }}
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) {{ {rtp} }}
    proof fn lemma_plen(s: Seq<u8>) {{ {walk} }}
//@fn {file} "Codec for {name}::encode"
//@tail
    proof {{ assert(bytes@ =~= old(bytes)@ + self.enc()); }}
//@end
//@fn {file} "Codec for {name}::read" ret=res
//@begin
    let ghost s = r.tailv();
    proof {{ {bx} {walk} }}
//@end
}}
"#)
}

/// contract of an extension enum: 16-bit type, 16-bit length, body by type; the body must be consumed whole
fn gen_codecext(ctx: &mut Ctx, file: &str, name: &str, vs: &[Vec<String>]) -> String {
    let (_, evals, _) = expand_enum_builder(ctx, &format!("{}enums.rs", &file[..file.rfind('/').unwrap() + 1]), "ExtensionType");
    let hx = |t: &str| i64::from_str_radix(t.trim_start_matches("0x"), 16).unwrap_or(-1);
    let mut known = String::new();
    // rows: Variant code kind ; kind: Type | - (empty) | * (rest, Vec<u8>) | ? (empty, otherwise Unknown) | ticket | Type!N (body longer than N)
    let mut tcode = String::new();
    let mut body = String::new();
    let mut wf = String::new();
    let mut rt = String::new();
    let mut body_ok = String::new();
    let mut unk = String::new();
    let mut lem = String::new();
    let mut rtp = String::new();
    let mut hides = String::new();
    let mut okrows = String::new();
    let mut nomatch = String::new();
    for v in vs {
        let (n, c, k) = (&v[0], &v[1], &v[2]);
        nomatch += &format!("typ.code() != {c} && ");
        match evals.iter().find(|e| hx(&e.1) == hx(c)) {
            Some(e) => known += &format!("(typ.code() == {c}) == (typ == ExtensionType::{}), ", e.0),
            None => known += &format!("typ.code() == {c} ==> typ is Unknown, "),
        }
        let (ty, min) = match k.split_once('!') { Some((a, b)) => (a.to_string(), Some(b.to_string())), None => (k.clone(), None) };
        match k.as_str() {
            "-" => {
                tcode += &format!("{name}::{n} => {c}, ");
                body += &format!("{name}::{n} => Seq::empty(), ");
                wf += &format!("{name}::{n} => true, ");
                rt += &format!("{name}::{n} => true, ");
                body_ok += &format!("if t == {c} {{ b.len() == 0 }} else ");
                okrows += &format!("(typ.code() == {c} ==> {name}::body_ok(typ.code(), body) == (body.len() == 0)) && ");
                unk += &format!(" && t != {c}");
            }
            "?" => {
                tcode += &format!("{name}::{n} => {c}, ");
                body += &format!("{name}::{n} => Seq::empty(), ");
                wf += &format!("{name}::{n} => true, ");
                rt += &format!("{name}::{n} => true, ");
                body_ok += &format!("if t == {c} {{ true }} else ");
                okrows += &format!("(typ.code() == {c} ==> {name}::body_ok(typ.code(), body) == (true)) && ");
                unk += &format!(" && (t == {c} ==> b.len() > 0)");
            }
            "*" => {
                tcode += &format!("{name}::{n}(_) => {c}, ");
                body += &format!("{name}::{n}(x) => x@, ");
                wf += &format!("{name}::{n}(_) => true, ");
                rt += &format!("{name}::{n}(_) => true, ");
                body_ok += &format!("if t == {c} {{ true }} else ");
                okrows += &format!("(typ.code() == {c} ==> {name}::body_ok(typ.code(), body) == (true)) && ");
                unk += &format!(" && t != {c}");
            }
            "ticket" => {
                tcode += &format!("{name}::{n}(_) => {c}, ");
                body += &format!("{name}::{n}(x) => match x {{ ClientSessionTicket::Request => Seq::empty(), ClientSessionTicket::Offer(p) => p.enc() }}, ");
                wf += &format!("{name}::{n}(x) => match x {{ ClientSessionTicket::Request => true, ClientSessionTicket::Offer(p) => p.enc().len() > 0 }}, ");
                rt += &format!("{name}::{n}(_) => true, ");
                body_ok += &format!("if t == {c} {{ true }} else ");
                okrows += &format!("(typ.code() == {c} ==> {name}::body_ok(typ.code(), body) == (true)) && ");
                unk += &format!(" && t != {c}");
            }
            _ => {
                tcode += &format!("{name}::{n}(_) => {c}, ");
                body += &format!("{name}::{n}(x) => x.enc(), ");
                let m = min.as_ref().map(|m| format!(" && x.enc().len() > {m}")).unwrap_or_default();
                wf += &format!("{name}::{n}(x) => x.wfv(){m}, ");
                rt += &format!("{name}::{n}(x) => x.rtv(true), ");
                let m = min.as_ref().map(|m| format!(" && b.len() > {m}")).unwrap_or_default();
                let mb = min.as_ref().map(|m| format!(" && body.len() > {m}")).unwrap_or_default();
                body_ok += &format!("if t == {c} {{ {ty}::plen(b) == Some(b.len()){m} }} else ");
                okrows += &format!("(typ.code() == {c} ==> {name}::body_ok(typ.code(), body) == ({ty}::plen(body) == Some(body.len()){mb})) && ");
                unk += &format!(" && t != {c}");
                for h in if ty.starts_with('u') { &[][..] } else { &["plen", "enc", "wfv", "rtv", "decoded"][..] } {
                    let x = format!("hide(<{ty} as Codec>::{h}); ");
                    if !hides.contains(&x) { hides += &x; }
                }
                lem += &format!("if typ.code() == {c} {{ {ty}::lemma_plen(body); assert(body.take(body.len() as int) =~= body); }} ");
                rtp += &format!("{name}::{n}(x) => {{ {ty}::lemma_rt(&x, Seq::empty()); assert(x.enc() + Seq::<u8>::empty() =~= x.enc()); }} ");
            }
        }
    }
    format!(r#"impl {name} {{
    pub open spec fn tcode(&self) -> u16 {{ match *self {{ {tcode} {name}::Unknown(u) => u.typ.code() }} }}
    /// the extension type: an uninterpreted extension keeps the type it was built or read with
    #[verifier::opaque]
    pub open spec fn gt(&self) -> ExtensionType {{ match *self {{ {name}::Unknown(u) => u.typ, _ => ExtensionType::canon(self.tcode()) }} }}
    pub open spec fn body(&self) -> Seq<u8> {{ match *self {{ {body} {name}::Unknown(u) => u.payload.enc() }} }}
    pub open spec fn unknown_ok(t: u16, b: Seq<u8>) -> bool {{ true {unk} }}
    pub open spec fn body_ok(t: u16, b: Seq<u8>) -> bool {{ {body_ok} {{ true }} }}
    pub proof fn lemma_typ(typ: ExtensionType)
        requires typ == ExtensionType::canon(typ.code()),
        ensures {known}
    {{ }}
//@fn {file} {name}::get_type
    ensures r.code() == self.tcode(), r == self.gt(),
//@begin
    proof {{ reveal({name}::gt); }}
//@end
}}
impl Codec for {name} {{
    open spec fn wfv(&self) -> bool {{ self.body().len() <= 0xffff && match *self {{ {wf} {name}::Unknown(u) => {name}::unknown_ok(u.typ.code(), u.payload.enc()) }} }}
    open spec fn decoded(&self) -> bool {{ true }}
    open spec fn rtv(&self, last: bool) -> bool {{ match *self {{ {rt} {name}::Unknown(u) => true }} }}
    open spec fn prog() -> bool {{ true }}
    open spec fn enc(&self) -> Seq<u8> {{ be16(self.tcode()) + be16(self.body().len() as u16) + self.body() }}
    open spec fn plen(s: Seq<u8>) -> Option<nat> {{
        if s.len() < 4 {{ None }} else {{
            let n = nat16(s.subrange(2, 4));
            if s.len() < 4 + n {{ None }} else if {name}::body_ok(nat16(s.take(2)) as u16, s.subrange(4, 4 + n as int)) {{ Some(4 + n) }} else {{ None }}
        }}
    }}
    proof fn lemma_rt(v: &Self, tail: Seq<u8>) {{
        let s = v.enc() + tail;
        lemma_be16(v.tcode()); lemma_be16(v.body().len() as u16);
        assert(s.take(2) =~= be16(v.tcode()));
        assert(s.subrange(2, 4) =~= be16(v.body().len() as u16));
        assert(s.subrange(4, 4 + v.body().len() as int) =~= v.body());
        match *v {{ {rtp} _ => {{}} }}
    }}
    proof fn lemma_plen(s: Seq<u8>) {{ }}
//@fn {file} "Codec for {name}::encode"
//@tail
    proof {{ assert(bytes@ =~= old(bytes)@ + self.enc()); }}
//@end
//@fn {file} "Codec for {name}::read" ret=res
//@begin
    {hides} hide(ExtensionType::canon); hide(ExtensionType::code);
    hide(<{name} as Codec>::plen); hide(<{name} as Codec>::enc); hide(<{name} as Codec>::wfv); hide({name}::body_ok); hide({name}::tcode); hide({name}::body); hide({name}::unknown_ok);
    let ghost s = r.tailv();
    proof {{
        lemma_ext_hdr(s);
        assert(s.len() < 4 ==> {name}::plen(s) is None) by {{ reveal(<{name} as Codec>::plen); }}
        assert(s.len() >= 4 && s.len() < 4 + nat16(s.subrange(2, 4)) ==> {name}::plen(s) is None) by {{ reveal(<{name} as Codec>::plen); }}
    }}
//@after sub
    let ghost body = sub.tailv();
    proof {{
        assert(body =~= s.subrange(4, 4 + nat16(s.subrange(2, 4)) as int));
        lemma_be16(typ.code()); lemma_be16(len as u16); {name}::lemma_typ(typ);
        assert(be16(typ.code()) + be16(len as u16) + body =~= s.take(4 + body.len() as int));
        assert({name}::plen(s) == if {name}::body_ok(typ.code(), body) {{ Some((4 + body.len()) as nat) }} else {{ None }}) by {{ reveal(<{name} as Codec>::plen); }}
        assert(len == body.len() && body.len() <= 0xffff);
        assert({okrows} ({nomatch} true ==> {name}::body_ok(typ.code(), body))) by {{ reveal({name}::body_ok); }}
        {lem}
    }}
//@sub let __r = if => let ghost gext = ext; proof {{ assert(ext.tcode() == typ.code() && ext.body() == body.take(sub.pos() as int)) by {{ reveal({name}::tcode); reveal({name}::body); }} assert((sub.pos() == body.len()) == {name}::body_ok(typ.code(), body)); if sub.pos() == body.len() {{ assert(body.take(body.len() as int) =~= body); }} assert(sub.pos() == body.len() ==> ext.wfv()) by {{ reveal(<{name} as Codec>::wfv); reveal({name}::unknown_ok); reveal({name}::body); }} assert(sub.pos() == body.len() ==> ext.enc() == s.take(4 + body.len() as int)) by {{ reveal(<{name} as Codec>::enc); }} }} let __r = if
//@tail
    proof {{ assert(__r is Some ==> __r->0 == gext); }}
//@end
}}
"#)
}

fn process(ctx: &mut Ctx, dir: &std::path::Path, text: &str, out: &mut String) {
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim();
        i += 1;
        let Some(d) = t.strip_prefix("//@") else {
            // lemmas of an included unit are discharged in that unit's own run
            if ctx.trust && ["proof fn ", "pub proof fn ", "pub broadcast proof fn "].iter().any(|p| t.starts_with(p)) {
                let mut has_body = false;
                for x in lines[i - 1..].iter().map(|x| x.trim()) {
                    if x.starts_with('{') || x.ends_with('{') || x.ends_with('}') {
                        has_body = true;
                        break;
                    }
                    if x.ends_with(';') {
                        break;
                    }
                }
                if has_body {
                    out.push_str("#[verifier::external_body] ");
                }
            }
            out.push_str(l);
            out.push('\n');
            continue;
        };
        let w = words(d);
        match w[0].as_str() {
            "include" => {
                let p = dir.join(&w[1]);
                let t = std::fs::read_to_string(&p).unwrap_or_else(|_| panic!("include {p:?}"));
                let saved = ctx.trust;
                if w.iter().any(|x| x == "trust") {
                    ctx.trust = true;
                }
                process(ctx, dir, &t, out);
                ctx.trust = saved;
            }
            "modules" => ctx.modules.extend(w[1..].iter().cloned()),
            "sub" => {
                let body = t.trim_start_matches("//@sub").trim();
                let (a, b) = body.split_once(" =>> ").or_else(|| body.split_once(" => ")).unwrap();
                let p = (a.trim().to_string(), b.trim().to_string());
                ctx.all_subs.push(format!("{} => {}", p.0, p.1));
                ctx.subs.push(p);
            }
            "unsub" => {
                // the substitutions with this pattern end here
                let re = t.trim_start_matches("//@unsub").trim();
                ctx.subs.retain(|(a, _)| a != re);
            }
            "plain" => ctx.verus = false,
            "enumcodec" => ctx.enum_codec = true,
            "derives" => {
                // FILE TYPE A,B,..: the listed traits must come from `derive` (their meaning is then fixed by the fields)
                let f = ctx.file(&w[1]);
                let mut items = vec![];
                all_items(&f.items, &mut items);
                let mut found: Option<Vec<String>> = None;
                for it in &items {
                    let (n, a) = match it {
                        syn::Item::Struct(x) => (x.ident.to_string(), &x.attrs),
                        syn::Item::Enum(x) => (x.ident.to_string(), &x.attrs),
                        _ => continue,
                    };
                    if n == w[2] {
                        let mut v = vec![];
                        for at in a.iter().filter(|x| x.path().is_ident("derive")) {
                            let _ = at.parse_nested_meta(|m| { v.push(m.path.segments.last().unwrap().ident.to_string()); Ok(()) });
                        }
                        found = Some(v);
                    }
                }
                match found {
                    None => lost(&format!("type {} not found in {}", w[2], w[1])),
                    Some(v) => {
                        for d in w[3].split(',') {
                            if !v.iter().any(|x| x == d) {
                                lost(&format!("{} no longer derives {d}", w[2]));
                            }
                        }
                    }
                }
            }
            "type" => {
                let s = emit_item(ctx, &w[1], &w[2], &w[3]);
                let mut s = s;
                for (re, to) in ctx.subs.iter() {
                    let r = regex::Regex::new(re).unwrap();
                    s = r.replace_all(&s, to.as_str()).to_string();
                }
                out.push_str(&s);
            }
            "static" => {
                // FILE NAME "ensures" "proof": the initialiser is extracted and must satisfy the contract
                let mut s = emit_item(ctx, &w[1], "static", &w[2]);
                for (re, to) in ctx.subs.iter() {
                    let r = regex::Regex::new(re).unwrap();
                    s = r.replace_all(&s, to.as_str()).to_string();
                }
                out.push_str(&s.replace("@ENS@", &w[3]).replace("@PROOF@", w.get(4).map(|x| x.as_str()).unwrap_or("")));
            }
            "enum" => {
                emit_enum_macro(ctx, dir, &w[1], &w[2], out);
            }
            "codecvec" => {
                // FILE Name Item width
                let t = gen_codecvec(&w[1], &w[2], &w[3], &w[4]);
                process(ctx, dir, &t, out);
            }
            "ghostvec" => {
                // Item width: a Codec view of Vec<Item>, its bodies the real vector functions
                let (item, wd) = (&w[1], &w[2]);
                let g = gen_codecvec("-", &format!("Vec<{item}>"), item, wd);
                let call = if wd == "24" { format!("read_vec_u24_limited::<{item}>(r, 0x10000)") } else { format!("read_vec_u{wd}::<{item}>(r)") };
                let cut = g.find("//@fn").unwrap();
                let (e, r) = if ctx.trust { ("unimplemented!()".to_string(), "unimplemented!()".to_string()) } else {
                    (format!("encode_vec_u{wd}(bytes, self);"),
                     format!("let ghost s0 = r.tailv(); proof {{ lemma_nats(s0); }} let __r = {call}; proof {{ if __r is Some {{ lemma_vec_hdr{wd}(s0, enc_all(__r->0@)); }} }} __r")) };
                let eb = if ctx.trust { "#[verifier::external_body] " } else { "" };
                let t = format!("{}{eb}fn encode(&self, bytes: &mut Vec<u8>) {{ {e} }}\n{eb}fn read(r: &mut Reader) -> (res: Option<Self>) {{ {r} }}\n}}\n", &g[..cut]);
                out.push_str(&t);
            }
            "codecpart" => {
                // NAME field:Type ...: a ghost struct with the concatenation contract, no code
                let g = gen_codecstruct("-", &w[1], &w[2..]);
                let cut = g.find("//@fn").unwrap();
                let decl: String = w[2..].iter().filter(|f| !f.starts_with("ok=") && !f.starts_with("wf=") && !f.starts_with("begin=")).map(|f| { let (a, b) = f.split_once(':').unwrap(); format!("pub {a}: {b}, ") }).collect();
                let body = g[..cut].replace(&format!("impl Codec for {}", w[1]), &format!("impl {}", w[1])).replace("open spec fn", "pub open spec fn")
                    .replace("proof fn lemma_rt(v: &Self, tail: Seq<u8>) {", "pub proof fn lemma_rt(v: &Self, tail: Seq<u8>)\n        requires v.wfv(), v.rtv(tail.len() == 0),\n        ensures Self::plen(v.enc() + tail) == Some(v.enc().len()),\n    {")
                    .replace("proof fn lemma_plen(s: Seq<u8>) {", "pub proof fn lemma_plen(s: Seq<u8>)\n        ensures Self::plen(s) is Some ==> Self::plen(s)->0 <= s.len() && (Self::prog() ==> Self::plen(s)->0 > 0),\n    {");
                // everything a reader of the parts in order needs
                let i = g.find("    proof fn lemma_plen").unwrap();
                let wl = g[i..].lines().next().unwrap();
                let wk = wl[wl.find('{').unwrap()..].to_string();
                let fs: Vec<String> = w[2..].iter().filter(|f| f.contains(':') && !f.starts_with("ok=") && !f.starts_with("wf=")).map(|f| { let b = f.split_once(':').unwrap().1; if b.contains('<') { format!("<{b} as Codec>") } else { b.to_string() } }).collect();
                let mut ens = String::new();
                for (i, f) in fs.iter().enumerate() {
                    let sum = |k: usize| if k == 0 { "0".to_string() } else { (0..k).map(|x| format!("n{x}")).collect::<Vec<_>>().join(" + ") };
                    let sk = if i == 0 { "s".to_string() } else { format!("s.skip(({}) as int)", sum(i)) };
                    ens += &format!("match {f}::plen({sk}) {{ None => true, Some(n{i}) => {0} <= s.len() && {1}.skip(n{i} as int) == s.skip(({0}) as int) && s.take(({2}) as int) + {1}.take(n{i} as int) == s.take(({0}) as int) && ", sum(i + 1), sk, sum(i));
                }
                ens += "true ";
                ens += &"}".repeat(fs.len());
                let t = format!("pub struct {} {{ {decl} }}\n{body}    pub proof fn walk(s: Seq<u8>)\n        ensures s.take(0) == Seq::<u8>::empty(), {ens},\n    {wk}\n}}\n", w[1]);
                process(ctx, dir, &t, out);
            }
            "codecstruct" => {
                let t = gen_codecstruct(&w[1], &w[2], &w[3..]);
                process(ctx, dir, &t, out);
            }
            "codecext" => {
                let mut vs = vec![];
                while i < lines.len() && lines[i].trim().starts_with("//@v ") {
                    vs.push(words(lines[i].trim().trim_start_matches("//@v ")));
                    i += 1;
                }
                let t = gen_codecext(ctx, &w[1], &w[2], &vs);
                process(ctx, dir, &t, out);
            }
            "wholeitem" => {
                // plain mode: every item of the file except `use`, test modules; optional skip list
                let f = ctx.file(&w[1]);
                let skip: Vec<&str> = w[2..].iter().map(|s| s.as_str()).collect();
                for it in &f.items {
                    if let syn::Item::Use(_) = it {
                        continue;
                    }
                    let mut it = it.clone();
                    let (attrs, nm): (Vec<syn::Attribute>, String) = match &it {
                        syn::Item::Mod(m) => (m.attrs.clone(), m.ident.to_string()),
                        syn::Item::Fn(m) => (m.attrs.clone(), m.sig.ident.to_string()),
                        syn::Item::Struct(m) => (m.attrs.clone(), m.ident.to_string()),
                        syn::Item::Enum(m) => (m.attrs.clone(), m.ident.to_string()),
                        syn::Item::Impl(m) => {
                            let n = match &m.trait_ {
                                Some((_, p, _)) => format!("{}/{}", p.segments.last().unwrap().ident, type_name(&m.self_ty)),
                                None => format!("/{}", type_name(&m.self_ty)),
                            };
                            (m.attrs.clone(), n)
                        }
                        _ => (vec![], String::new()),
                    };
                    if cfg_false(&attrs) || skip.contains(&nm.as_str()) {
                        continue;
                    }
                    let mut rw = rewrite::Rw { modules: ctx.modules.clone(), verus: false, closures: String::new(), notes: vec![], panics: false };
                    rw.visit_item_mut(&mut it);
                    let mut s = it.to_token_stream().to_string();
                    for (re, to) in ctx.subs.iter() {
                        let r = regex::Regex::new(re).unwrap();
                        s = r.replace_all(&s, to.as_str()).to_string();
                    }
                    out.push_str(&s);
                    out.push('\n');
                }
            }
            "fn" | "fnext" => {
                let mut sp = FnSpec {
                    ret: "r".into(),
                    spec: String::new(),
                    loops: BTreeMap::new(),
                    begin: String::new(),
                    tail: String::new(),
                    afters: vec![],
                    befores: vec![],
                    subs: vec![],
                    subreqs: vec![],
                    closures: "option".into(),
                    panics: false,
                    rename: None,
                    pubvis: true,
                    attrs: String::new(),
                    external_body: w[0] == "fnext" || ctx.trust,
                };
                for o in &w[3..] {
                    if let Some(v) = o.strip_prefix("ret=") {
                        sp.ret = v.into();
                    } else if o == "panics=ok" {
                        sp.panics = true;
                    } else if let Some(v) = o.strip_prefix("closures=") {
                        sp.closures = v.into();
                    } else if let Some(v) = o.strip_prefix("rename=") {
                        sp.rename = Some(v.into());
                    } else if o == "pubfn" {
                        sp.attrs.push_str("pub \u{1}");
                    } else if o == "nopub" {
                        sp.pubvis = false;
                    } else if let Some(v) = o.strip_prefix("attr=") {
                        sp.attrs.push_str(v);
                        sp.attrs.push('\n');
                    } else {
                        panic!("unknown option {o}");
                    }
                }
                enum S { Spec, Loop(usize), LB(usize), LE(usize), Begin, Tail, After(usize), Before(usize) }
                let mut st = S::Spec;
                loop {
                    if i >= lines.len() {
                        panic!("unterminated //@fn {}", w[2]);
                    }
                    let l = lines[i];
                    i += 1;
                    if let Some(d) = l.trim().strip_prefix("//@") {
                        let w = words(d);
                        match w[0].as_str() {
                            "end" => break,
                            "loop" => {
                                let n: usize = w[1].parse().unwrap();
                                let iter = w.get(3).and_then(|x| x.strip_prefix("iter=")).unwrap_or("").to_string();
                                sp.loops.insert(n, (w[2].clone(), iter, String::new(), String::new(), String::new()));
                                st = S::Loop(n);
                            }
                            "loopbegin" => st = S::LB(w[1].parse().unwrap()),
                            "loopend" => st = S::LE(w[1].parse().unwrap()),
                            "begin" => st = S::Begin,
                            "tail" => st = S::Tail,
                            "after" => {
                                sp.afters.push((w[1].clone(), w.get(2).map(|x| x.parse().unwrap()).unwrap_or(0), String::new()));
                                st = S::After(sp.afters.len() - 1);
                            }
                            "before" => {
                                sp.befores.push((w[1].clone(), w.get(2).map(|x| x.parse().unwrap()).unwrap_or(0), String::new()));
                                st = S::Before(sp.befores.len() - 1);
                            }
                            "sub" => {
                                let body = l.trim().trim_start_matches("//@sub").trim();
                                let (a, b) = body.split_once(" =>> ").or_else(|| body.split_once(" => ")).unwrap_or((body.trim_end_matches("=>").trim(), ""));
                                sp.subs.push((a.trim().to_string(), b.trim().to_string()));
                            }
                            "subreq" => {
                                let body = l.trim().trim_start_matches("//@subreq").trim();
                                let (a, b) = body.split_once(" =>> ").or_else(|| body.split_once(" => ")).unwrap();
                                sp.subreqs.push((a.trim().to_string(), b.trim().to_string()));
                            }
                            x => panic!("unknown subdirective {x}"),
                        }
                        continue;
                    }
                    let dst = match st {
                        S::Spec => &mut sp.spec,
                        S::Begin => &mut sp.begin,
                        S::Tail => &mut sp.tail,
                        S::Loop(n) => &mut sp.loops.get_mut(&n).unwrap().2,
                        S::LB(n) => &mut sp.loops.get_mut(&n).unwrap().3,
                        S::LE(n) => &mut sp.loops.get_mut(&n).unwrap().4,
                        S::After(n) => &mut sp.afters[n].2,
                        S::Before(n) => &mut sp.befores[n].2,
                    };
                    dst.push_str(l);
                    dst.push('\n');
                }
                let s = splice_fn(ctx, &w[1], &w[2], sp);
                out.push_str(&s);
            }
            x => panic!("unknown directive //@{x}"),
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 4 {
        eprintln!("usage: vx REPO UNIT OUT");
        std::process::exit(2);
    }
    let text = std::fs::read_to_string(&a[2]).expect("unit");
    let dir = std::path::Path::new(&a[2]).parent().unwrap().to_path_buf();
    let mut ctx = Ctx { repo: a[1].clone(), files: Default::default(), modules: vec![], verus: true, metas: vec![], dropped: vec![], subs: vec![], all_subs: vec![], enum_codec: false, trust: false };
    let mut out = String::new();
    process(&mut ctx, &dir, &text, &mut out);
    std::fs::write(&a[3], &out).unwrap();
    println!("{}", serde_json::json!({"fns": ctx.metas, "dropped": ctx.dropped, "unit_subs": ctx.all_subs}));
}
