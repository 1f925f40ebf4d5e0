//! The mechanical rewrites.  None of them depends on the contracts.
use crate::text;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Rw {
    bodies: bool,
    pub loops: Vec<Value>,
    pub closures: Vec<Value>,
    pub marks: Vec<String>,
    pub calls: Vec<String>,
    pub unsupported: Vec<String>,
    /// closures around the expression
    depth: usize,
    /// `return`s outside closures
    returns: usize,
}

/// std methods that get their contract from a trait or inherent method of the prelude
const METHODS: &[(&str, &str)] = &[
    ("iter", "v_iter"),
    ("all", "all_"),
    ("any", "any_"),
    ("chunks", "v_chunks"),
    ("chunks_exact", "v_chunks_exact"),
    ("windows", "v_windows"),
    ("into_iter", "v_into_iter"),
    ("to_smallvec", "v_to_vec"),
    ("to_vec", "v_to_vec"),
    ("into", "v_into"),
    ("try_into", "v_try_into"),
    ("as_ref", "v_as_ref"),
    ("get_mut", "v_get_mut"),
    ("get", "v_get"),
    ("clone_from_slice", "v_copy_from_slice"),
    ("copy_from_slice", "v_copy_from_slice"),
    ("extend", "v_extend"),
    ("remove", "v_remove"),
    ("resize", "v_resize"),
    ("truncate", "v_truncate"),
    ("to_le_bytes", "v_to_le_bytes"),
    ("to_be_bytes", "v_to_be_bytes"),
    ("as_slice", "v_as_slice"),
    ("as_le_slice", "v_as_le_slice"),
    ("reserve", "v_reserve"),
    ("cmp", "v_cmp"),
    ("first", "v_first"),
    ("last", "v_last"),
    ("count_ones", "v_count_ones"),
    ("leading_zeros", "v_leading_zeros"),
    ("overflowing_shr", "v_overflowing_shr"),
    ("div_ceil", "v_div_ceil"),
    ("split_at", "v_split_at"),
    ("append", "append"),
    ("extend_from_slice", "v_extend_from_slice"),
    ("len", "len"),
    ("clone", "v_clone"),
    ("push_str", "v_push_str"),
    ("is_empty", "v_is_empty"),
    ("min", "v_min_of"),
    ("max", "v_max_of"),
];

/// function paths, by their last segments
fn func_path(p: &str) -> Option<&'static str> {
    Some(match p {
        "std::cmp::min" | "cmp::min" | "core::cmp::min" => "v_min",
        "std::cmp::max" | "cmp::max" | "core::cmp::max" => "v_max",
        "iter::empty" | "std::iter::empty" | "core::iter::empty" => "v_empty",
        "smallvec::SmallVec::from_elem" => "v_from_elem",
        "alloc::vec::from_elem" | "vec::from_elem" => "v_from_elem",
        "smallvec::SmallVec::new" => "Vec::new",
        "SmallVec::new" => "SVec::new",
        "Vec::with_capacity" => "v_with_capacity",
        "std::default::Default::default" | "Default::default" | "core::default::Default::default" => "v_default",
        "core::panicking::panic" | "core::panicking::panic_fmt" | "core::panicking::unreachable_display" | "core::panicking::assert_failed" => "v_panic",
        "serde::de::Error::custom" | "de::Error::custom" => "DeError::custom",
        "Self::from_iter" => "Self::v_from_iter",
        "Self::from_le_bytes" => "Self::v_from_le_bytes",
        "u16::from_le_bytes" => "u16::v_from_le_bytes",
        "u32::from_le_bytes" => "u32::v_from_le_bytes",
        "u64::from_le_bytes" => "u64::v_from_le_bytes",
        "u128::from_le_bytes" => "u128::v_from_le_bytes",
        "usize::from_le_bytes" => "usize::v_from_le_bytes",
        "u8::from" => "u8::v_widen",
        "u16::from" => "u16::v_widen",
        "u32::from" => "u32::v_widen",
        "u64::from" => "u64::v_widen",
        "u128::from" => "u128::v_widen",
        "usize::from" => "usize::v_widen",
        _ => return None,
    })
}

fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

const ROOTS: &[&str] = &["std", "core", "alloc", "crate", "ssz", "serde", "smallvec", "typenum", "arbitrary", "super", "legacy", "result", "option"];

/// Strip the module prefix of a path: the woven crate is flat.
fn flatten(p: &mut Path) {
    p.leading_colon = None;
    // names the flat crate has twice
    if p.segments.len() > 1 && p.segments[0].ident == "arbitrary" {
        match p.segments[1].ident.to_string().as_str() {
            "Error" => p.segments[1].ident = ident("ArbError"),
            "Result" => p.segments[1].ident = ident("ArbResult"),
            _ => {}
        }
    }
    while p.segments.len() > 1 {
        let f = &p.segments[0];
        let s = f.ident.to_string();
        // the codec modules of `#[ssz(with = ...)]`
        let codec = p.segments.len() > 2 && ["encode", "decode"].contains(&p.segments[1].ident.to_string().as_str());
        let module = !codec && (ROOTS.contains(&s.as_str()) || (s.chars().next().unwrap().is_lowercase() && p.segments.len() > 2 && !["u8", "u16", "u32", "u64", "u128", "usize"].contains(&s.as_str())));
        if !module || !f.arguments.is_none() {
            break;
        }
        p.segments = p.segments.iter().skip(1).cloned().collect();
    }
}

fn rename_trait(p: &mut Path) {
    let n = p.segments.len();
    let last = &mut p.segments[n - 1];
    let new = match last.ident.to_string().as_str() {
        "Default" if n == 1 => "VDefault",
        "From" if n == 1 => "VFrom",
        _ => return,
    };
    last.ident = Ident::new(new, Span::call_site());
}

/// `SmallVec<[T; N]>`: a type of its own for a generic N, a `Vec<T>` for a constant one
fn smallvec(t: &Type) -> Option<Type> {
    if let Type::Path(p) = t {
        let l = p.path.segments.last()?;
        if l.ident != "SmallVec" {
            return None;
        }
        if let PathArguments::AngleBracketed(a) = &l.arguments {
            if let Some(GenericArgument::Type(Type::Array(arr))) = a.args.first() {
                let (e, n) = (&arr.elem, &arr.len);
                let ns = n.to_token_stream().to_string();
                return Some(if ns.len() == 1 && ns.chars().all(|c| c.is_uppercase()) {
                    parse_quote!(SVec<#e, #n>)
                } else {
                    parse_quote!(Vec<#e>)
                });
            }
        }
    }
    None
}

fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

/// Evaluating this cannot panic or have an effect.
fn plain(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Field(f) => plain(&f.base),
        Expr::Paren(p) => plain(&p.expr),
        Expr::Reference(r) => plain(&r.expr),
        Expr::Struct(s) => s.fields.iter().all(|f| plain(&f.expr)),
        Expr::MethodCall(m) => ["len", "to_string", "into"].contains(&m.method.to_string().as_str()) && m.args.is_empty() && plain(&m.receiver),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => {
                let last = p.path.segments.last().unwrap().ident.to_string();
                (last.chars().next().unwrap().is_uppercase() || last == "must_use") && (last == "must_use" || c.args.iter().all(plain))
            }
            _ => false,
        },
        _ => false,
    }
}

pub fn split_tail(b: &Block) -> (TokenStream, Option<TokenStream>) {
    let mut s = TokenStream::new();
    let n = b.stmts.len();
    let mut tail = None;
    for (k, st) in b.stmts.iter().enumerate() {
        match st {
            Stmt::Expr(e, None) if k + 1 == n && !matches!(e, Expr::Verbatim(_)) => {
                tail = Some(e.to_token_stream());
            }
            _ => s.extend(st.to_token_stream()),
        }
    }
    (s, tail)
}

impl Rw {
    pub fn new(bodies: bool) -> Self {
        Rw { bodies, loops: vec![], closures: vec![], marks: vec![], calls: vec![], unsupported: vec![], depth: 0, returns: 0 }
    }

    pub fn body(&mut self, b: &mut Block) {
        self.visit_block_mut(b);
    }

    fn marker(&mut self, kind: &str, k: usize) -> TokenStream {
        let i = format_ident!("__VP_{}_{}__", kind, k);
        quote!(#i)
    }

    fn range_expr(e: &Expr) -> Option<&ExprRange> {
        match e {
            Expr::Range(r) => Some(r),
            Expr::Paren(p) => Self::range_expr(&p.expr),
            _ => None,
        }
    }

    fn range_iter(r: &ExprRange) -> Option<Expr> {
        let (a, b) = (r.start.as_ref()?, r.end.as_ref()?);
        Some(match r.limits {
            RangeLimits::HalfOpen(_) => parse_quote!(v_range(#a, #b)),
            RangeLimits::Closed(_) => parse_quote!(v_range_incl(#a, #b)),
        })
    }

    fn slice_call(base: &Expr, r: &ExprRange, m: &str) -> Expr {
        let closed = matches!(r.limits, RangeLimits::Closed(_)) && r.end.is_some();
        let suffix = match (&r.start, &r.end) {
            (None, None) => "full",
            (Some(_), None) => "from",
            (None, Some(_)) => "to",
            (Some(_), Some(_)) => "range",
        };
        let name = ident(&format!("{m}_{suffix}{}", if closed { "_incl" } else { "" }));
        let a = r.start.iter();
        let b = r.end.iter();
        let args: Vec<_> = a.chain(b).collect();
        parse_quote!(#base.#name(#(#args),*))
    }

    /// `process_results((A..=B).map(|i| BODY), |iter| iter.try_collect())?`: items are decoded one by one until the first
    /// error (returned), then handed to the collection.
    fn process_results(e: &Expr) -> Option<Expr> {
        let Expr::Try(t) = e else { return None };
        let Expr::Call(c) = &*t.expr else { return None };
        let Expr::Path(p) = &*c.func else { return None };
        if p.path.segments.last()?.ident != "process_results" || c.args.len() != 2 {
            return None;
        }
        let Expr::MethodCall(m) = &c.args[0] else { return None };
        if m.method != "map" {
            return None;
        }
        let Expr::Closure(item) = &m.args[0] else { return None };
        let Expr::Closure(fin) = &c.args[1] else { return None };
        let (pat, body) = (&item.inputs[0], &item.body);
        let (fpat, fbody) = (&fin.inputs[0], &fin.body);
        let (mut stmts, tail): (Vec<Stmt>, Expr) = match &**body {
            Expr::Block(b) => {
                let mut s = b.block.stmts.clone();
                match s.pop()? {
                    Stmt::Expr(e, None) => (s, e),
                    _ => return None,
                }
            }
            e => (vec![], e.clone()),
        };
        for s in stmts.iter_mut() {
            // an error returned from the closure is what comes of the whole
            struct NoReturn(bool);
            impl VisitMut for NoReturn {
                fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
                    match r.expr.as_deref() {
                        Some(Expr::Call(c)) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")) => visit_mut::visit_expr_return_mut(self, r),
                        _ => self.0 = true,
                    }
                }
                fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
                    struct Any(bool);
                    impl VisitMut for Any {
                        fn visit_expr_return_mut(&mut self, _: &mut ExprReturn) {
                            self.0 = true
                        }
                    }
                    let mut a = Any(false);
                    a.visit_expr_closure_mut(c);
                    self.0 |= a.0;
                }
            }
            let mut n = NoReturn(false);
            n.visit_stmt_mut(s);
            if n.0 {
                return None;
            }
        }
        let src: Expr = match Self::range_expr(&m.receiver).and_then(Self::range_iter) {
            Some(e) => e,
            None => (*m.receiver).clone(),
        };
        Some(parse_quote!({
            let mut v_items = Vec::new();
            let v_src = v_source(#src);
            let v_hint = v_src.v_upper();
            for #pat in v_src {
                #(#stmts)*
                let v_item = (#tail)?;
                v_items.push(v_item);
            }
            let #fpat = v_results(v_items, v_hint);
            #fbody
        }))
    }

    /// `Option`/`Result` combinators given a closure that neither returns nor uses `?` are the `match` they stand for.
    /// Where the receiver could be something else (`map` on an iterator) its last call must tell; a wrong guess does not
    /// type-check.
    fn combinator(e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let name = m.method.to_string();
        let kind = |e: &Expr| -> &'static str {
            match e {
                Expr::MethodCall(r) => match r.method.to_string().as_str() {
                    "first" | "last" | "get" | "find" | "position" | "copied" | "cloned" | "next" | "pop" | "filter" | "ok" | "as_ref" | "then_some" | "then" => "option",
                    s if s.starts_with("checked_") || s.starts_with("v_get") => "option",
                    "ok_or" | "ok_or_else" | "map_err" | "try_into" | "and_then" | "decode_next" | "ssz_decode" => "result",
                    _ => "",
                },
                Expr::Call(c) => match &*c.func {
                    Expr::Path(p) => match p.path.segments.last().unwrap().ident.to_string().as_str() {
                        "Some" | "new_checked" => "option",
                        "Ok" | "Err" | "from_ssz_bytes" | "read_offset" | "sanitize_offset" | "decode_offset" | "from_bytes" | "try_from" | "with_capacity" | "from_raw_bytes" => "result",
                        _ => "",
                    },
                    _ => "",
                },
                _ => "",
            }
        };
        let r = &m.receiver;
        let mut args: Vec<Expr> = m.args.iter().cloned().collect();
        // a path as the function: |v_x| path(v_x)
        if let Some(Expr::Path(p)) = args.last() {
            if ["map", "map_err", "and_then", "is_some_and", "filter"].contains(&name.as_str()) {
                let p = p.clone();
                *args.last_mut().unwrap() = parse_quote!(|v_x| #p(v_x));
            }
        }
        let Some(Expr::Closure(c)) = args.last() else {
            return match (name.as_str(), args.as_slice()) {
                ("copied" | "cloned", []) if kind(r) == "option" => Some(parse_quote!(match #r { Some(v_x) => Some(*v_x), None => None })),
                // arguments that can only be values need not be evaluated first
                ("ok_or", [a]) if plain(a) => Some(parse_quote!(match #r { Some(v_x) => Ok(v_x), None => Err(#a) })),
                ("ok_or", [a]) => Some(parse_quote!({ let v_o = #r; let v_d = #a; match v_o { Some(v_x) => Ok(v_x), None => Err(v_d) } })),
                ("unwrap_or", [a]) if kind(r) == "option" && plain(a) => Some(parse_quote!(match #r { Some(v_x) => v_x, None => #a })),
                ("unwrap_or", [a]) if kind(r) == "option" => Some(parse_quote!({ let v_o = #r; let v_d = #a; match v_o { Some(v_x) => v_x, None => v_d } })),
                _ => None,
            };
        };
        if name == "map_or" && !plain(&args[0]) {
            return None;
        }
        struct Exits(bool);
        impl VisitMut for Exits {
            fn visit_expr_return_mut(&mut self, _: &mut ExprReturn) {
                self.0 = true
            }
            fn visit_expr_try_mut(&mut self, _: &mut ExprTry) {
                self.0 = true
            }
        }
        let mut x = Exits(false);
        let mut b = (*c.body).clone();
        x.visit_expr_mut(&mut b);
        if x.0 || c.inputs.len() > 1 {
            return None;
        }
        let p = c.inputs.first().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() });
        let one = p.is_some();
        Some(match (name.as_str(), one, args.len()) {
            ("is_some_and", true, 1) => parse_quote!(match #r { Some(#p) => #b, None => false }),
            ("is_none_or", true, 1) => parse_quote!(match #r { Some(#p) => #b, None => true }),
            ("is_ok_and", true, 1) => parse_quote!(match #r { Ok(#p) => #b, Err(_) => false }),
            ("ok_or_else", false, 1) => parse_quote!(match #r { Some(v_x) => Ok(v_x), None => Err(#b) }),
            ("unwrap_or_else", false, 1) => parse_quote!(match #r { Some(v_x) => v_x, None => #b }),
            ("unwrap_or_else", true, 1) => parse_quote!(match #r { Ok(v_x) => v_x, Err(#p) => #b }),
            ("map_err", true, 1) => parse_quote!(match #r { Ok(v_x) => Ok(v_x), Err(#p) => Err(#b) }),
            ("map_or", true, 2) if kind(r) == "option" => { let d = &args[0]; parse_quote!(match #r { Some(#p) => #b, None => #d }) }
            ("map", true, 1) if kind(r) == "option" => parse_quote!(match #r { Some(#p) => Some(#b), None => None }),
            ("map", true, 1) if kind(r) == "result" => parse_quote!(match #r { Ok(#p) => Ok(#b), Err(v_e) => Err(v_e) }),
            ("and_then", true, 1) if kind(r) == "option" => parse_quote!(match #r { Some(#p) => #b, None => None }),
            ("and_then", true, 1) if kind(r) == "result" => parse_quote!(match #r { Ok(#p) => #b, Err(v_e) => Err(v_e) }),
            ("filter", true, 1) if kind(r) == "option" => parse_quote!(match #r { Some(v_x) => { let #p = &v_x; if #b { Some(v_x) } else { None } }, None => None }),
            _ => return None,
        })
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Expr {
        let k = self.loops.len();
        let it = format_ident!("v_it{}", k);
        let mut src = (*f.expr).clone();
        let mut body = f.body.clone();
        let mut pat = (*f.pat).clone();
        let header = text(&src);
        // iteration by mutable reference becomes iteration over the indices
        if let Expr::MethodCall(m) = &src {
            let (inner, en) = match &*m.receiver {
                Expr::MethodCall(i) if m.method == "enumerate" => (i.clone(), true),
                _ => (m.clone(), false),
            };
            if inner.method == "iter_mut" && inner.args.is_empty() {
                let place = &inner.receiver;
                let (ipat, xpat): (Pat, Pat) = match (&pat, en) {
                    (Pat::Tuple(t), true) if t.elems.len() == 2 => (t.elems[0].clone(), t.elems[1].clone()),
                    (p, false) => (parse_quote!(v_idx), p.clone()),
                    _ => {
                        self.unsupported.push("iter_mut".into());
                        (parse_quote!(v_idx), pat.clone())
                    }
                };
                body.stmts.insert(0, parse_quote!(let #xpat = #place.v_index_mut(#ipat);));
                src = parse_quote!(v_range(0, #place.len()));
                pat = ipat;
            }
        }
        if let Some(r) = Self::range_expr(&src) {
            if let Some(e) = Self::range_iter(r) {
                src = e;
            }
        }
        self.loops.push(json!({"kind": "for", "header": header, "iter": it.to_string()}));
        self.visit_expr_mut(&mut src);
        self.visit_block_mut(&mut body);
        let (bf, lp, bd, en, af) = (self.marker("BEFORE", k), self.marker("LOOP", k), self.marker("BODY", k), self.marker("END", k), self.marker("AFTER", k));
        Expr::Verbatim(quote!({
            let mut #it = v_source(#src);
            #bf
            loop #lp {
                #bd
                match #it.next() {
                    Option::None => { break; }
                    Option::Some(#pat) => { #body #en }
                }
            }
            #af
        }))
    }
}

impl VisitMut for Rw {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Some(n) = smallvec(t) {
            *t = n;
        }
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        flatten(p);
        rename_trait(p);
    }

    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        let (lc, n) = (p.path.leading_colon, p.path.segments.len());
        visit_mut::visit_expr_path_mut(self, p);
        let gone = n - p.path.segments.len();
        if let Some(q) = &mut p.qself {
            p.path.leading_colon = lc;
            q.position = q.position.saturating_sub(gone);
        }
    }

    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        let n = p.path.segments.len();
        visit_mut::visit_type_path_mut(self, p);
        let gone = n - p.path.segments.len();
        if let Some(q) = &mut p.qself {
            q.position = q.position.saturating_sub(gone);
        }
    }

    fn visit_signature_mut(&mut self, s: &mut Signature) {
        visit_mut::visit_signature_mut(self, s);
        for (k, i) in s.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = i {
                if matches!(&*t.pat, Pat::Wild(_)) {
                    let n = format_ident!("v_arg{}", k);
                    *t.pat = parse_quote!(#n);
                }
            }
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        if !self.bodies {
            return;
        }
        // `let _ = 0;` does nothing
        b.stmts.retain(|s| !matches!(s, Stmt::Local(Local { pat: Pat::Wild(_), init: Some(i), .. }) if matches!(&*i.expr, Expr::Lit(_))));
        // the message of a failing assert_eq!
        b.stmts.retain(|s| !matches!(s, Stmt::Local(Local { init: Some(i), .. }) if matches!(&*i.expr, Expr::Path(p) if path_str(&p.path).contains("panicking::AssertKind::"))));
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let k = self.marks.len();
            self.marks.push(String::new());
            let m = self.marker("ST", k);
            self.visit_stmt_mut(&mut s);
            self.marks[k] = match &s {
                Stmt::Expr(Expr::Verbatim(v), _) => crate::print::pretty(v.clone()),
                s => text(s),
            };
            out.push(Stmt::Expr(Expr::Verbatim(m), None));
            out.push(s);
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = Self::process_results(e) {
            *e = n;
        }
        if let Some(n) = Self::combinator(e) {
            // the scrutinee of the outermost combinator is visited below with the rest of the match
            *e = n;
        }
        // format!(..)
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let s = path_str(&p.path);
                if s.ends_with("__export::must_use") {
                    *e = parse_quote!(v_fmt());
                    return;
                }
                if func_path(&s) == Some("v_panic") {
                    self.calls.push("v_panic".into());
                    *e = parse_quote!(v_panic());
                    return;
                }
            }
        }
        match e {
            Expr::ForLoop(f) => {
                let n = self.for_loop(&f.clone());
                *e = n;
                return;
            }
            Expr::While(w) => {
                let k = self.loops.len();
                self.loops.push(json!({"kind": "while", "header": text(&w.cond)}));
                let mut w = w.clone();
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let (cond, body) = (&w.cond, &w.body);
                let (bf, lp, bd, en, af) = (self.marker("BEFORE", k), self.marker("LOOP", k), self.marker("BODY", k), self.marker("END", k), self.marker("AFTER", k));
                *e = Expr::Verbatim(quote!({ #bf while #cond #lp { #bd #body #en } #af }));
                return;
            }
            Expr::Loop(w) => {
                let k = self.loops.len();
                self.loops.push(json!({"kind": "loop", "header": ""}));
                let mut w = w.clone();
                self.visit_block_mut(&mut w.body);
                let body = &w.body;
                let (bf, lp, bd, en, af) = (self.marker("BEFORE", k), self.marker("LOOP", k), self.marker("BODY", k), self.marker("END", k), self.marker("AFTER", k));
                *e = Expr::Verbatim(quote!({ #bf loop #lp { #bd #body #en } #af }));
                return;
            }
            Expr::Closure(c) => {
                let mut c = c.clone();
                let k = self.closures.len();
                self.closures.push(Value::Null);
                let mut params = vec![];
                let mut lets: Vec<Stmt> = vec![];
                for (j, p) in c.inputs.iter().enumerate() {
                    match p {
                        Pat::Ident(_) | Pat::Type(_) => params.push(text(p)),
                        Pat::Wild(_) => params.push(format!("v_c{j}")),
                        p => {
                            let n = format_ident!("v_c{}", j);
                            params.push(n.to_string());
                            lets.push(parse_quote!(let #p = #n;));
                        }
                    }
                }
                let orig = text(&c.body);
                self.depth += 1;
                self.visit_expr_mut(&mut c.body);
                self.depth -= 1;
                let body = &c.body;
                let b: TokenStream = quote!(#(#lets)* #body);
                self.closures[k] = json!({"params": params, "body": crate::print::pretty(b), "src": orig});
                let m = self.marker("CLO", k);
                *e = Expr::Verbatim(m);
                return;
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Index(i) = &*r.expr {
                    if let Some(rg) = Self::range_expr(&i.index) {
                        let mut n = Self::slice_call(&i.expr, rg, "v_slice");
                        visit_mut::visit_expr_mut(self, &mut n);
                        *e = n;
                        return;
                    }
                }
            }
            Expr::Index(i) => {
                if let Some(rg) = Self::range_expr(&i.index) {
                    let mut n = Self::slice_call(&i.expr, rg, "v_slice");
                    visit_mut::visit_expr_mut(self, &mut n);
                    *e = parse_quote!((*#n));
                    return;
                }
            }
            Expr::MethodCall(m) => {
                if let Some(r) = Self::range_expr(&m.receiver) {
                    if let Some(n) = Self::range_iter(r) {
                        m.receiver = Box::new(n);
                    }
                }
                if m.args.len() == 1 {
                    if let Some(rg) = Self::range_expr(&m.args[0]) {
                        if m.method == "get" {
                            let mut n = Self::slice_call(&m.receiver, rg, "v_get");
                            visit_mut::visit_expr_mut(self, &mut n);
                            *e = n;
                            return;
                        }
                    }
                    // constructors as function values
                    if let Expr::Path(p) = &m.args[0] {
                        let last = p.path.segments.last().unwrap().ident.to_string();
                        if (last.chars().next().unwrap().is_uppercase() || p.path.segments.len() > 1 || p.qself.is_some())
                            && ["map", "map_err", "and_then", "for_each", "all", "any", "filter", "position", "find"].contains(&m.method.to_string().as_str())
                        {
                            let p = p.clone();
                            m.args[0] = parse_quote!(|v_x| #p(v_x));
                        }
                    }
                }
                // string literals
                if let Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) = &*m.receiver {
                    if ["to_string", "into", "to_owned"].contains(&m.method.to_string().as_str()) {
                        *e = parse_quote!(v_fmt());
                        return;
                    }
                }
                let name = m.method.to_string();
                self.calls.push(format!(".{name}"));
                if let Some((_, n)) = METHODS.iter().find(|(a, _)| *a == name) {
                    m.method = ident(n);
                }
            }
            // narrowing casts wrap
            Expr::Cast(c) if matches!(text(&c.ty).as_str(), "u8" | "u16" | "u32") && !matches!(&*c.expr, Expr::Lit(_)) => {
                let mut c = c.clone();
                visit_mut::visit_expr_cast_mut(self, &mut c);
                *e = Expr::Verbatim(quote!((#[verifier::truncate] (#c))));
                return;
            }
            Expr::Binary(b) => {
                // the bit operators on a reference to an integer are those on the integer
                if matches!(b.op, BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_)) {
                    let by_ref = |e: &Expr| match e {
                        Expr::MethodCall(m) if m.method == "expect" || m.method == "unwrap" => {
                            matches!(&*m.receiver, Expr::MethodCall(r) if ["first", "last", "get"].contains(&r.method.to_string().as_str()))
                        }
                        _ => false,
                    };
                    for x in [&mut b.left, &mut b.right] {
                        if by_ref(x) {
                            let y = x.clone();
                            **x = parse_quote!((*#y));
                        }
                    }
                }
                let op: Option<BinOp> = match b.op {
                    BinOp::BitAndAssign(_) => Some(parse_quote!(&)),
                    BinOp::BitOrAssign(_) => Some(parse_quote!(|)),
                    BinOp::BitXorAssign(_) => Some(parse_quote!(^)),
                    BinOp::ShlAssign(_) => Some(parse_quote!(<<)),
                    BinOp::ShrAssign(_) => Some(parse_quote!(>>)),
                    BinOp::AddAssign(_) if matches!(&*b.left, Expr::Index(_) | Expr::Unary(_)) => Some(parse_quote!(+)),
                    _ => None,
                };
                if let Some(op) = op {
                    let (l, r) = (&b.left, &b.right);
                    let mut n: Expr = parse_quote!(#l = #l #op (#r));
                    visit_mut::visit_expr_mut(self, &mut n);
                    *e = n;
                    return;
                }
            }
            Expr::Path(p) => {
                if p.qself.is_none() {
                    let s = path_str(&p.path);
                    if let Some(n) = func_path(&s) {
                        let args = p.path.segments.last().unwrap().arguments.clone();
                        let mut np: Path = parse_str(n).unwrap();
                        np.segments.last_mut().unwrap().arguments = args;
                        p.path = np;
                        return;
                    }
                } else if let Some(q) = &p.qself {
                    // `<_>::default()`
                    if matches!(&*q.ty, Type::Infer(_)) && p.path.segments.len() == 1 {
                        let last = p.path.segments[0].ident.to_string();
                        if last == "default" {
                            *e = parse_quote!(v_default);
                            return;
                        }
                        if last == "from_ssz_bytes" {
                            *e = parse_quote!(Decode::from_ssz_bytes);
                            return;
                        }
                    }
                }
                self.calls.push(path_str(&p.path));
            }
            Expr::Macro(m) => {
                self.unsupported.push(format!("macro {}", path_str(&m.mac.path)));
            }
            Expr::Unsafe(_) => self.unsupported.push("unsafe".into()),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // where the function is left, for the annotations that belong there
        if let Expr::Return(r) = e {
            if self.depth == 0 {
                let m = format_ident!("__VP_RET_{}__", self.returns);
                self.returns += 1;
                let x = r.expr.take();
                let mut c: ExprCall = parse_quote!(#m());
                c.args.extend(x.map(|x| *x));
                r.expr = Some(Box::new(Expr::Call(c)));
            }
        }
    }
}
