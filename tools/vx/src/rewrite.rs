//! The dialect rewrites.  Each one is semantics-preserving for the code it is applied to, and each
//! application is recorded in the run's metadata (see DESIGN.md, "What the extraction changes").
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};

pub fn ident_safe(s: &str) -> String {
    s.chars().map(|c| if c.is_alphanumeric() || c == '_' { c } else { '_' }).collect()
}

/// cfg evaluation for the default feature set (logging, tls12, prf on; test off; 64-bit).
pub fn cfg_true(a: &syn::Attribute) -> bool {
    let s: String = a.meta.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect();
    let inner = s.strip_prefix("cfg(").and_then(|x| x.strip_suffix(')')).unwrap_or("");
    eval(inner)
}
fn eval(s: &str) -> bool {
    if let Some(x) = s.strip_prefix("not(").and_then(|x| x.strip_suffix(')')) {
        return !eval(x);
    }
    if let Some(x) = s.strip_prefix("any(").and_then(|x| x.strip_suffix(')')) {
        return split(x).iter().any(|y| eval(y));
    }
    if let Some(x) = s.strip_prefix("all(").and_then(|x| x.strip_suffix(')')) {
        return split(x).iter().all(|y| eval(y));
    }
    match s {
        "feature=\"logging\"" | "feature=\"tls12\"" | "feature=\"prf\"" | "target_pointer_width=\"64\"" | "feature=\"serde\"" => true,
        _ => false,
    }
}
fn split(s: &str) -> Vec<String> {
    let mut d = 0;
    let mut cur = String::new();
    let mut v = vec![];
    for c in s.chars() {
        match c {
            '(' => d += 1,
            ')' => d -= 1,
            ',' if d == 0 => {
                v.push(std::mem::take(&mut cur));
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

pub struct Rw {
    pub modules: Vec<String>,
    pub verus: bool,
    pub closures: String,
    pub notes: Vec<String>,
    /// assert!/panic! are the specified refusal: the call diverges (no obligation), what follows may assume the condition
    pub panics: bool,
}

const LOGM: &[&str] = &["trace", "debug", "info", "warn", "error", "instrument"];

impl Rw {
    pub fn keep_derives(&mut self, _k: bool) {}
    fn note(&mut self, s: &str) {
        if !self.notes.iter().any(|x| x == s) {
            self.notes.push(s.to_string());
        }
    }
    fn is_log(&self, m: &syn::Macro) -> bool {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let first = m.path.segments.first().unwrap().ident.to_string();
        LOGM.contains(&n.as_str()) && (m.path.segments.len() == 1 || first == "tracing" || first == "log")
    }
    fn path(&mut self, p: &mut syn::Path) {
        loop {
            if p.segments.len() < 2 {
                break;
            }
            let f = p.segments[0].ident.to_string();
            let strip = f == "crate" || f == "super" || f == "self" || self.modules.contains(&f);
            if !strip {
                break;
            }
            let segs: Vec<_> = p.segments.iter().skip(1).cloned().collect();
            p.segments = segs.into_iter().collect();
            p.leading_colon = None;
        }
    }
}

fn single_closure(mc: &syn::ExprMethodCall) -> Option<(Vec<syn::Pat>, syn::Expr)> {
    if mc.args.len() != 1 {
        return None;
    }
    match &mc.args[0] {
        syn::Expr::Closure(c) => Some((c.inputs.iter().cloned().collect(), (*c.body).clone())),
        _ => None,
    }
}

impl VisitMut for Rw {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        self.path(p);
        if self.verus && p.segments.len() >= 2 {
            let l = p.segments.last_mut().unwrap();
            let n = l.ident.to_string();
            if n == "to_be_bytes" || n == "from_be_bytes" {
                l.ident = syn::Ident::new(&format!("vx_{n}"), l.ident.span());
                self.note("{to,from}_be_bytes -> shim with byte-level contract");
            }
        }
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        if self.verus {
            a.clear();
        } else {
            a.retain(|x| x.path().is_ident("derive") || x.path().is_ident("default"));
        }
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        let mut aliases: Vec<(String, syn::Expr, syn::Expr, syn::Expr)> = vec![];
        for mut st in std::mem::take(&mut b.stmts) {
            if self.verus {
                if let Some(al) = array_alias(&st) {
                    self.note("&mut [u8; N] view of a sub-slice -> splice shim on the slice");
                    let (_, base, lo, hi, n) = &al;
                    out.push(syn::parse_quote!(vx_assert(#hi - #lo == #n && #hi <= #base.len());));
                    aliases.push((al.0, al.1, al.2, al.3));
                    continue;
                }
                if let Some(new) = alias_use(&st, &aliases) {
                    let mut new = new;
                    self.visit_stmt_mut(&mut new);
                    out.push(new);
                    continue;
                }
            }
            let attrs: Vec<syn::Attribute> = match &st {
                syn::Stmt::Local(l) => l.attrs.clone(),
                syn::Stmt::Macro(m) => m.attrs.clone(),
                syn::Stmt::Expr(e, _) => match e {
                    syn::Expr::Block(b) => b.attrs.clone(),
                    syn::Expr::If(b) => b.attrs.clone(),
                    syn::Expr::MethodCall(b) => b.attrs.clone(),
                    syn::Expr::Call(b) => b.attrs.clone(),
                    syn::Expr::Macro(b) => b.attrs.clone(),
                    _ => vec![],
                },
                _ => vec![],
            };
            if attrs.iter().any(|a| a.path().is_ident("cfg") && !cfg_true(a)) {
                self.note("statement under a disabled cfg dropped");
                continue;
            }
            if let syn::Stmt::Expr(syn::Expr::Assign(asg), _) = &st {
                if self.verus && matches!(&*asg.left, syn::Expr::Infer(_)) {
                    let r = &asg.right;
                    st = syn::parse_quote!(let _ = #r;);
                }
            }
            if let syn::Stmt::Item(syn::Item::Use(u)) = &st {
                if self.verus {
                    // `use path::Enum::*;` stays (its variants are in scope), other imports resolve globally
                    if let Some(text) = enum_glob(&u.tree, "") {
                        let f: syn::File = syn::parse_str(&format!("use {text};")).unwrap();
                        out.push(syn::Stmt::Item(f.items.into_iter().next().unwrap()));
                    }
                    continue;
                }
            }
            if self.verus && matches!(&st, syn::Stmt::Item(syn::Item::Fn(_))) {
                self.note("function declared inside the body hoisted (extracted on its own)");
                continue;
            }
            if self.verus {
                if let syn::Stmt::Macro(m) = &st {
                    if self.is_log(&m.mac) {
                        self.note("logging macro dropped");
                        continue;
                    }
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n == "debug_assert" || n == "assert" {
                        // first argument only
                        let args = m.mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated);
                        if let Ok(a) = args {
                            let mut e = a[0].clone();
                            self.visit_expr_mut(&mut e);
                            if self.panics {
                                out.push(syn::parse_quote!(if !(#e) { vx_panic(); }));
                                self.note("assert! -> panic call when the condition is false (the refusal is specified)");
                                continue;
                            }
                            out.push(syn::parse_quote!(vx_assert(#e);));
                            self.note("assert!/debug_assert! -> call with a `requires` (stays an obligation)");
                            continue;
                        }
                    }
                    if n == "debug_assert_eq" || n == "assert_eq" {
                        if let Ok(a) = m.mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                            let (mut x, mut y) = (a[0].clone(), a[1].clone());
                            self.visit_expr_mut(&mut x);
                            self.visit_expr_mut(&mut y);
                            if self.panics {
                                out.push(syn::parse_quote!(if !(#x == #y) { vx_panic(); }));
                                self.note("assert_eq! -> panic call when the values differ (the refusal is specified)");
                                continue;
                            }
                            out.push(syn::parse_quote!(vx_assert(#x == #y);));
                            self.note("assert_eq! -> call with a `requires` (stays an obligation)");
                            continue;
                        }
                    }
                }
                // let [a, b, c]: [T; 3] = e;
                if let syn::Stmt::Local(l) = &st {
                    if let (syn::Pat::Type(pt), Some(init)) = (&l.pat, &l.init) {
                        if let (syn::Pat::Slice(ps), syn::Type::Array(_)) = (&*pt.pat, &*pt.ty) {
                            if init.diverge.is_none() && ps.elems.iter().all(|e| matches!(e, syn::Pat::Ident(_))) {
                                let ty = &pt.ty;
                                let mut e = (*init.expr).clone();
                                self.visit_expr_mut(&mut e);
                                out.push(syn::parse_quote!(let __vx_arr: #ty = #e;));
                                for (i, el) in ps.elems.iter().enumerate() {
                                    let i = syn::Index::from(i);
                                    out.push(syn::parse_quote!(let #el = __vx_arr[#i];));
                                }
                                self.note("array pattern -> indexed lets");
                                continue;
                            }
                        }
                    }
                }
            }
            let mut st = st;
            self.visit_stmt_mut(&mut st);
            out.push(st);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if !self.verus {
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        if let syn::Expr::While(w) = e {
            if let (None, syn::Expr::Let(l)) = (&w.label, &*w.cond) {
                let (pat, ex, body) = (&l.pat, &l.expr, &w.body);
                let n: syn::Expr = syn::parse_quote!(loop { match #ex { #pat => #body, _ => break } });
                self.note("while let -> loop with match and break");
                *e = n;
            }
        }
        if let syn::Expr::ForLoop(fl) = e {
            if let syn::Pat::Reference(r) = &*fl.pat {
                if let syn::Pat::Ident(i) = &*r.pat {
                    if i.by_ref.is_none() && i.subpat.is_none() {
                        let (id, m) = (i.ident.clone(), i.mutability);
                        let tmp = quote::format_ident!("__r_{}", id);
                        fl.pat = Box::new(syn::parse_quote!(#tmp));
                        fl.body.stmts.insert(0, syn::parse_quote!(let #m #id = *#tmp;));
                        self.note("for &x in -> for r in with x = *r");
                    }
                }
            }
            if fl.label.is_none() && has_continue(&fl.body) {
                tail_continue(&mut fl.body);
                self.note("`continue` in a for loop -> structured control flow");
            }
            if let (syn::Pat::Ident(id), syn::Expr::MethodCall(mc)) = (&*fl.pat, &*fl.expr) {
                if mc.method == "chunks_mut" && mc.args.len() == 1 {
                    let base = (*mc.receiver).clone();
                    let n = mc.args[0].clone();
                    let mut body = fl.body.clone();
                    let mut cm = ChunkMut { name: id.ident.to_string(), base: base.clone() };
                    cm.visit_block_mut(&mut body);
                    let stmts = &body.stmts;
                    let mut w: syn::Expr = syn::parse_quote!({
                        let mut __pos: usize = 0;
                        while __pos < #base.len() {
                            let __n: usize = if #base.len() - __pos < #n { #base.len() - __pos } else { #n };
                            #(#stmts)*
                            __pos += __n;
                        }
                    });
                    self.note("for c in x.chunks_mut(n) -> index loop writing through the splice shim");
                    visit_mut::visit_expr_mut(self, &mut w);
                    *e = w;
                    return;
                }
            }
        }
        if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) = e {
            let v = b.value();
            self.note("byte-string literal -> array literal of the same bytes");
            *e = syn::parse_quote!(&[#(#v),*]);
            return;
        }
        // `if let P = e && c { b }` without else -> nested ifs
        if let syn::Expr::If(i) = e {
            fn flat(e: &syn::Expr, out: &mut Vec<syn::Expr>) {
                if let syn::Expr::Binary(b) = e {
                    if matches!(b.op, syn::BinOp::And(_)) {
                        flat(&b.left, out);
                        flat(&b.right, out);
                        return;
                    }
                }
                out.push(e.clone());
            }
            let mut v = Vec::new();
            flat(&i.cond, &mut v);
            if v.len() > 1 && i.else_branch.is_none() && v.iter().any(|x| matches!(x, syn::Expr::Let(_))) {
                let b = &i.then_branch;
                let mut acc: syn::Expr = syn::parse_quote!(#b);
                for c in v.iter().rev() {
                    acc = if let syn::Expr::Block(_) = acc { syn::parse_quote!(if #c #acc) } else { syn::parse_quote!(if #c { #acc }) };
                }
                *e = acc;
                self.note("if let .. && c { b } -> nested ifs");
                self.visit_expr_mut(e);
                return;
            }
        }
        // async code: the futures are evaluated where they are awaited (or made)
        if let syn::Expr::Await(a) = e {
            let base = (*a.base).clone();
            *e = if matches!(base, syn::Expr::Path(_)) { syn::parse_quote!(#base.vx_await()) } else { base };
            self.note("x.await -> the value of x (sequential reading of async code)");
            self.visit_expr_mut(e);
            return;
        }
        if let syn::Expr::Async(a) = e {
            let b = &a.block;
            *e = syn::parse_quote!(#b);
            self.note("async block -> block");
            self.visit_expr_mut(e);
            return;
        }
        if let syn::Expr::Call(c) = e {
            if c.args.len() == 1 && c.func.to_token_stream().to_string() == "Box :: pin" {
                *e = c.args[0].clone();
                self.note("Box::pin(x) -> x");
                self.visit_expr_mut(e);
                return;
            }
        }
        if let syn::Expr::MethodCall(mc) = e {
            if (mc.method == "try_join" || mc.method == "try_join3") && mc.args.len() >= 2 {
                let bodies: Vec<syn::Expr> = mc.args.iter().filter_map(|a| if let syn::Expr::Closure(c) = a { Some((*c.body).clone()) } else { None }).collect();
                if bodies.len() == mc.args.len() {
                    *e = syn::parse_quote!(vx_joined((#(#bodies?),*)));
                    self.note("ctx.try_join(|ctx| a, |ctx| b) -> a then b, an error of either is the function's");
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        // macros first
        if let syn::Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if self.is_log(&m.mac) {
                self.note("logging macro dropped");
                *e = syn::parse_quote!(());
                return;
            }
            match n.as_str() {
                "format" => {
                    self.note("format! -> unspecified string");
                    *e = syn::parse_quote!(vx_string());
                    return;
                }
                "unreachable" | "panic" | "todo" | "unimplemented" => {
                    self.note("panic!/unreachable! -> call with `requires false`");
                    if self.panics {
                        *e = syn::parse_quote!(vx_panic());
                        return;
                    }
                    *e = syn::parse_quote!(vx_unreachable());
                    return;
                }
                "matches" => {
                    let s = m.mac.tokens.to_string();
                    let src = format!("match_it({s})");
                    let _ = src;
                    struct M(syn::Expr, syn::Pat, Option<syn::Expr>);
                    impl syn::parse::Parse for M {
                        fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                            let e: syn::Expr = i.parse()?;
                            i.parse::<syn::Token![,]>()?;
                            let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                            let g = if i.peek(syn::Token![if]) {
                                i.parse::<syn::Token![if]>()?;
                                Some(i.parse()?)
                            } else {
                                None
                            };
                            let _ = i.parse::<Option<syn::Token![,]>>();
                            Ok(M(e, p, g))
                        }
                    }
                    if let Ok(M(mut x, mut p, g)) = syn::parse2::<M>(m.mac.tokens.clone()) {
                        self.visit_expr_mut(&mut x);
                        self.visit_pat_mut(&mut p);
                        self.note("matches! expanded");
                        *e = match g {
                            None => syn::parse_quote!(match #x { #p => true, _ => false }),
                            Some(mut g) => {
                                self.visit_expr_mut(&mut g);
                                syn::parse_quote!(match #x { #p if #g => true, _ => false })
                            }
                        };
                        return;
                    }
                }
                _ => {}
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // receivers already rewritten
        if let syn::Expr::MethodCall(mc) = e {
            let name = mc.method.to_string();
            let recv = (*mc.receiver).clone();
            if (name == "to_be_bytes") && mc.args.is_empty() {
                mc.method = syn::Ident::new("vx_to_be_bytes", mc.method.span());
                self.note("{to,from}_be_bytes -> shim with byte-level contract");
                return;
            }
            if name == "try_into" && mc.args.is_empty() {
                mc.method = syn::Ident::new("vx_try_into", mc.method.span());
                self.note("slice.try_into() -> shim");
                return;
            }
            if name == "extend" && mc.args.len() == 1 {
                if let syn::Expr::Reference(_) = &mc.args[0] {
                    mc.method = syn::Ident::new("extend_from_slice", mc.method.span());
                    self.note("Vec::extend(&array) -> extend_from_slice");
                    return;
                }
            }
            if name == "clone_from_slice" && mc.args.len() == 1 && !matches!(recv, syn::Expr::Index(_)) {
                let src = &mc.args[0];
                *e = syn::parse_quote!(#recv.vx_splice_from(0usize, #src));
                self.note("x.clone_from_slice(s) -> shim with splice contract");
                return;
            }
            if (name == "copy_from_slice" || name == "clone_from_slice") && mc.args.len() == 1 {
                if let syn::Expr::Index(ix) = &recv {
                    if let syn::Expr::Range(r) = &*ix.index {
                        if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
                            let base = &ix.expr;
                            let src = &mc.args[0];
                            let lo: syn::Expr = match &r.start {
                                Some(s) => (**s).clone(),
                                None => syn::parse_quote!(0usize),
                            };
                            *e = match &r.end {
                                Some(h) => syn::parse_quote!(#base.vx_splice(#lo, #h, #src)),
                                None => syn::parse_quote!(#base.vx_splice_from(#lo, #src)),
                            };
                            self.note("x[a..b].copy_from_slice(s) -> shim with splice contract");
                            return;
                        }
                    } else {
                        // an index that is a Range value (any other index type does not type-check against the shim)
                        let (base, ix) = (&ix.expr, &ix.index);
                        let src = &mc.args[0];
                        *e = syn::parse_quote!(#base.vx_splice_r(#ix, #src));
                        self.note("x[range].copy_from_slice(s) -> shim with splice contract");
                        return;
                    }
                }
            }
            if name == "fill" && mc.args.len() == 1 {
                if let syn::Expr::Index(ix) = &recv {
                    let (base, i) = (&ix.expr, &ix.index);
                    let v = &mc.args[0];
                    *e = syn::parse_quote!(#base.vx_fill_r(#i, #v));
                    self.note("x[range].fill(v) -> shim");
                    return;
                }
            }
            if name == "fold" && mc.args.len() == 2 {
                if let syn::Expr::Closure(c) = &mc.args[1] {
                    let body = (*c.body).clone();
                    let t = body.to_token_stream().to_string();
                    if let (2, Some(syn::Pat::Ident(acc)), false) = (c.inputs.len(), c.inputs.first(), t.contains('?') || t.contains("return")) {
                        let acc = acc.ident.clone();
                        let x = c.inputs[1].clone();
                        let init = &mc.args[0];
                        let mut stmts: Vec<syn::Stmt> = vec![];
                        let mut done = false;
                        if let syn::Expr::Block(b) = &body {
                            if let Some(syn::Stmt::Expr(syn::Expr::Path(p), None)) = b.block.stmts.last() {
                                if p.path.is_ident(&acc) {
                                    stmts.extend(b.block.stmts[..b.block.stmts.len() - 1].iter().cloned());
                                    done = true;
                                }
                            }
                        }
                        if !done {
                            stmts.push(syn::parse_quote!(#acc = #body;));
                        }
                        *e = syn::parse_quote!({ let mut #acc = #init; for #x in #recv { #(#stmts)* } #acc });
                        self.note("iterator.fold(init, |acc, x| ..) -> for loop");
                        return;
                    }
                }
            }
            if name == "chunks" && mc.args.len() == 1 {
                let a = &mc.args[0];
                *e = syn::parse_quote!(vx_chunks(&#recv, #a));
                self.note("slice.chunks(n) -> list of sub-slices");
                return;
            }
            if name == "copy_within" && mc.args.len() == 2 {
                if let syn::Expr::Range(r) = &mc.args[0] {
                    if let (Some(lo), Some(hi), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                        let d = &mc.args[1];
                        *e = syn::parse_quote!(#recv.vx_copy_within(#lo, #hi, #d));
                        self.note("copy_within(a..b, d) -> shim");
                        return;
                    }
                }
            }
            if name == "map" && mc.args.len() == 1 {
                if let syn::Expr::Path(p) = &mc.args[0] {
                    // a datatype constructor as the mapped function
                    let n = p.path.segments.len();
                    let up = |i: usize| p.path.segments[i].ident.to_string().chars().next().unwrap().is_uppercase();
                    if n >= 1 && up(n - 1) && (n == 1 || up(n - 2)) {
                        let p = p.clone();
                        *e = if self.closures == "result" {
                            syn::parse_quote!(match #recv { Ok(__v) => Ok(#p(__v)), Err(__e) => Err(__e) })
                        } else {
                            syn::parse_quote!(match #recv { Some(__v) => Some(#p(__v)), None => None })
                        };
                        self.note("map(Constructor) -> match");
                        return;
                    }
                }
            }
            if name == "map_err" && mc.args.len() == 1 {
                if let syn::Expr::Path(p) = &mc.args[0] {
                    let p = p.clone();
                    *e = syn::parse_quote!(match #recv { Ok(__v) => Ok(__v), Err(__e) => Err(#p(__e)) });
                    self.note("map_err(path) -> match");
                    return;
                }
            }
            if let Some((pats, body)) = single_closure(mc) {
                let has_q = {
                    let t = body.to_token_stream().to_string();
                    t.contains('?') || t.contains("return")
                };
                if has_q {
                    return;
                }
                if let syn::Expr::MethodCall(r) = &*mc.receiver {
                    // an iterator, not an Option or a Result
                    if ["iter", "into_iter", "iter_mut", "chunks", "windows", "enumerate", "zip", "rev"].contains(&r.method.to_string().as_str()) {
                        return;
                    }
                }
                let kind = self.closures.clone();
                let p0 = pats.first().cloned().map(|p| if let syn::Pat::Type(t) = p { *t.pat } else { p });
                let new: Option<syn::Expr> = match (name.as_str(), kind.as_str()) {
                    ("map", "option") => p0.map(|p| syn::parse_quote!(match #recv { Some(#p) => Some(#body), None => None })),
                    ("map", "result") => p0.map(|p| syn::parse_quote!(match #recv { Ok(#p) => Ok(#body), Err(__e) => Err(__e) })),
                    ("and_then", "option") => p0.map(|p| syn::parse_quote!(match #recv { Some(#p) => #body, None => None })),
                    ("and_then", "result") => p0.map(|p| syn::parse_quote!(match #recv { Ok(#p) => #body, Err(__e) => Err(__e) })),
                    ("ok_or_else", _) => Some(syn::parse_quote!(match #recv { Some(__v) => Ok(__v), None => Err(#body) })),
                    ("map_err", _) => p0.map(|p| syn::parse_quote!(match #recv { Ok(__v) => Ok(__v), Err(#p) => Err(#body) })),
                    ("unwrap_or_else", "option") => Some(syn::parse_quote!(match #recv { Some(__v) => __v, None => #body })),
                    ("filter", "option") => p0.map(|p| syn::parse_quote!(match #recv { Some(__v) => { let __k = { let #p = &__v; #body }; if __k { Some(__v) } else { None } } None => None })),
                    ("is_some_and", _) => p0.map(|p| syn::parse_quote!(match #recv { Some(#p) => #body, None => false })),
                    ("is_none_or", _) => p0.map(|p| syn::parse_quote!(match #recv { Some(#p) => #body, None => true })),
                    _ => None,
                };
                if let Some(n) = new {
                    self.note("Option/Result combinator with closure -> match");
                    *e = n;
                }
            }
        }
    }
}

fn has_continue(b: &syn::Block) -> bool {
    b.to_token_stream().to_string().contains("continue")
}
/// in a loop body: a `continue` in tail position becomes `{}`; `if c { .. continue; } rest` becomes `if c { .. } else { rest }`
fn tail_continue(b: &mut syn::Block) {
    let mut i = 0;
    while i < b.stmts.len() {
        let last = i + 1 == b.stmts.len();
        if !last {
            if let syn::Stmt::Expr(syn::Expr::If(f), _) = &mut b.stmts[i] {
                let ends = matches!(f.then_branch.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Continue(c), _)) if c.label.is_none());
                if ends && f.else_branch.is_none() {
                    let rest: Vec<syn::Stmt> = b.stmts.split_off(i + 1);
                    if let syn::Stmt::Expr(syn::Expr::If(f), _) = &mut b.stmts[i] {
                        f.else_branch = Some((Default::default(), Box::new(syn::parse_quote!({ #(#rest)* }))));
                    }
                    continue;
                }
            }
        } else if let syn::Stmt::Expr(e, _) = &mut b.stmts[i] {
            tail_continue_expr(e);
        }
        i += 1;
    }
}
fn tail_continue_expr(e: &mut syn::Expr) {
    match e {
        syn::Expr::Continue(c) if c.label.is_none() => *e = syn::parse_quote!({}),
        syn::Expr::Block(b) => tail_continue(&mut b.block),
        syn::Expr::If(f) => {
            tail_continue(&mut f.then_branch);
            if let Some((_, x)) = &mut f.else_branch {
                tail_continue_expr(x);
            }
        }
        syn::Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                tail_continue_expr(&mut a.body);
            }
        }
        _ => {}
    }
}
fn enum_glob(t: &syn::UseTree, path: &str) -> Option<String> {
    match t {
        syn::UseTree::Path(p) => {
            let n = p.ident.to_string();
            let keep = n.chars().next().unwrap().is_uppercase() || n == "webpki";
            enum_glob(&p.tree, &if keep { format!("{path}{n}::") } else { path.to_string() })
        }
        syn::UseTree::Glob(_) if !path.is_empty() => Some(format!("{path}*")),
        _ => None,
    }
}

pub struct LoopMark {
    pub next: usize,
    pub kinds: Vec<String>,
}
impl VisitMut for LoopMark {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        let (k, body): (&str, &mut syn::Block) = match e {
            syn::Expr::While(w) => ("while", &mut w.body),
            syn::Expr::Loop(w) => ("loop", &mut w.body),
            syn::Expr::ForLoop(w) => ("for", &mut w.body),
            _ => {
                visit_mut::visit_expr_mut(self, e);
                return;
            }
        };
        let n = self.next;
        self.next += 1;
        self.kinds.push(k.to_string());
        self.visit_block_mut(body);
        let ix = syn::Index::from(n);
        body.stmts.insert(0, syn::parse_quote!(__vx_loop!(#ix);));
        // the last expression of a loop body has type (): make room for a trailing proof
        if let Some(syn::Stmt::Expr(_, semi @ None)) = body.stmts.last_mut() {
            *semi = Some(Default::default());
        }
        body.stmts.push(syn::parse_quote!(__vx_loop_end!(#ix);));
    }
}

/// marks the statement that contains the k-th call of `name`
pub struct CallMark {
    pub name: String,
    pub k: usize,
    pub seen: usize,
    pub done: bool,
    pub after: bool,
}
struct HasCall<'a> {
    name: &'a str,
    n: usize,
}
impl<'ast> syn::visit::Visit<'ast> for HasCall<'_> {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if m.method == self.name {
            self.n += 1;
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let s: String = p.path.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect();
            if s == self.name || p.path.segments.last().unwrap().ident == self.name {
                self.n += 1;
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
}
impl CallMark {
    fn has_nested_block(st: &syn::Stmt) -> bool {
        let mut f = BlockFinder(false);
        syn::visit::Visit::visit_stmt(&mut f, st);
        f.0
    }
}
struct BlockFinder(bool);
impl<'ast> syn::visit::Visit<'ast> for BlockFinder {
    fn visit_block(&mut self, _b: &'ast syn::Block) {
        self.0 = true;
    }
}
impl VisitMut for CallMark {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if self.done {
                return;
            }
            let mut h = HasCall { name: &self.name, n: 0 };
            syn::visit::Visit::visit_stmt(&mut h, &b.stmts[i]);
            let hn = h.n;
            if hn > 0 {
                let nested = Self::has_nested_block(&b.stmts[i]);
                if nested {
                    let before = self.seen;
                    self.visit_stmt_mut(&mut b.stmts[i]);
                    if self.done {
                        return;
                    }
                    if self.seen == before {
                        self.seen += hn;
                    }
                } else {
                    self.seen += hn;
                }
                if self.seen > self.k {
                    let nm = syn::Ident::new(&ident_safe(&self.name), proc_macro2::Span::call_site());
                    let k = syn::Index::from(self.k);
                    if self.after {
                        b.stmts.insert(i + 1, syn::parse_quote!(__vx_after!(#nm, #k);));
                    } else {
                        b.stmts.insert(i, syn::parse_quote!(__vx_before!(#nm, #k);));
                    }
                    self.done = true;
                    return;
                }
            }
            i += 1;
        }
    }
}

/// `let NAME: &mut [u8; N] = (&mut B[lo..hi]).try_into().unwrap();`
fn array_alias(st: &syn::Stmt) -> Option<(String, syn::Expr, syn::Expr, syn::Expr, syn::Expr)> {
    let syn::Stmt::Local(l) = st else { return None };
    let syn::Pat::Type(pt) = &l.pat else { return None };
    let syn::Pat::Ident(id) = &*pt.pat else { return None };
    let syn::Type::Reference(rf) = &*pt.ty else { return None };
    rf.mutability?;
    let syn::Type::Array(arr) = &*rf.elem else { return None };
    let init = &*l.init.as_ref()?.expr;
    let syn::Expr::MethodCall(u) = init else { return None };
    if u.method != "unwrap" {
        return None;
    }
    let syn::Expr::MethodCall(t) = &*u.receiver else { return None };
    if t.method != "try_into" {
        return None;
    }
    let mut r = &*t.receiver;
    while let syn::Expr::Paren(p) = r {
        r = &p.expr;
    }
    let syn::Expr::Reference(rr) = r else { return None };
    let syn::Expr::Index(ix) = &*rr.expr else { return None };
    let syn::Expr::Range(rg) = &*ix.index else { return None };
    if !matches!(rg.limits, syn::RangeLimits::HalfOpen(_)) {
        return None;
    }
    let base = (*ix.expr).clone();
    let lo: syn::Expr = rg.start.as_ref().map(|s| (**s).clone()).unwrap_or(syn::parse_quote!(0usize));
    let hi: syn::Expr = rg.end.as_ref().map(|s| (**s).clone()).unwrap_or(syn::parse_quote!(#base.len()));
    Some((id.ident.to_string(), base, lo, hi, arr.len.clone()))
}

fn alias_use(st: &syn::Stmt, al: &[(String, syn::Expr, syn::Expr, syn::Expr)]) -> Option<syn::Stmt> {
    let syn::Stmt::Expr(e, _) = st else { return None };
    match e {
        syn::Expr::Assign(a) => {
            let syn::Expr::Unary(u) = &*a.left else { return None };
            if !matches!(u.op, syn::UnOp::Deref(_)) {
                return None;
            }
            let n = u.expr.to_token_stream().to_string();
            let (_, b, lo, hi) = al.iter().rev().find(|x| x.0 == n)?;
            let r = &a.right;
            Some(syn::parse_quote!(#b.vx_splice(#lo, #hi, &#r);))
        }
        syn::Expr::MethodCall(m) if m.method == "copy_from_slice" => {
            let n = m.receiver.to_token_stream().to_string();
            let (_, b, lo, hi) = al.iter().rev().find(|x| x.0 == n)?;
            let r = &m.args[0];
            Some(syn::parse_quote!(#b.vx_splice(#lo, #hi, #r);))
        }
        _ => None,
    }
}

struct ChunkMut {
    name: String,
    base: syn::Expr,
}
impl VisitMut for ChunkMut {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::MethodCall(m) = e {
            if m.receiver.to_token_stream().to_string() == self.name {
                if m.method == "len" {
                    *e = syn::parse_quote!(__n);
                    return;
                }
                if m.method == "copy_from_slice" {
                    let mut a = m.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    let b = &self.base;
                    *e = syn::parse_quote!(#b.vx_splice(__pos, __pos + __n, #a));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `self` => `vx_self`
pub struct SelfName;
impl VisitMut for SelfName {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        if p.is_ident("self") {
            p.segments[0].ident = syn::Ident::new("vx_self", p.segments[0].ident.span());
        }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}
