//! Extraction: reads the macro-expanded source of a crate and prints, as JSON, its items with the mechanical rewrites
//! listed in DESIGN.md applied.  It knows nothing about contracts: it leaves placeholders where they may be woven in.
//!   weaver EXPANDED.rs KNOWN.txt > ITEMS.json      (the functions the contracts were written for, one per line)
mod inline;
mod print;
mod rewrite;

use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use syn::visit_mut::VisitMut;
use syn::*;

pub fn text<T: ToTokens>(t: &T) -> String {
    print::pretty(t.to_token_stream())
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg"))
}

/// Impls the compiler derives (Debug, Hash, ...) are left out.
fn derived(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("automatically_derived"))
}

fn sig_text(sig: &Signature) -> Value {
    let mut s = sig.clone();
    s.constness = None;
    rewrite::Rw::new(false).visit_signature_mut(&mut s);
    let ret = match &s.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => text(t),
    };
    let wh = s.generics.where_clause.take();
    let gen = &s.generics;
    let inputs = &s.inputs;
    let ident = &s.ident;
    json!({
        "name": ident.to_string(),
        "generics": text(gen),
        "params": text(inputs),
        "ret": ret,
        "where": wh.map(|w| w.predicates.iter().map(text).collect::<Vec<_>>().join(", ")).unwrap_or_default(),
        "inputs": s.inputs.iter().map(text).collect::<Vec<_>>(),
    })
}

fn func(path: &str, sig: &Signature, block: Option<&Block>, hoisted: &mut Vec<Value>) -> Value {
    let name = sig.ident.to_string();
    let key = if path.is_empty() { name.clone() } else { format!("{path}::{name}") };
    let mut v = json!({"kind": "fn", "key": key, "sig": sig_text(sig)});
    if let Some(b) = block {
        let mut b = b.clone();
        // items declared inside a function move out of it
        let mut inner = vec![];
        b.stmts.retain(|s| match s {
            Stmt::Item(i) => {
                inner.push(i.clone());
                false
            }
            _ => true,
        });
        for i in &inner {
            item(i, "", hoisted);
        }
        let mut rw = rewrite::Rw::new(true);
        rw.body(&mut b);
        let (stmts, tail) = rewrite::split_tail(&b);
        v["stmts"] = json!(print::pretty(stmts));
        v["tail"] = json!(tail.map(|t| print::pretty(t)));
        v["loops"] = json!(rw.loops);
        v["closures"] = json!(rw.closures);
        v["marks"] = json!(rw.marks);
        v["calls"] = json!(rw.calls);
        v["unsupported"] = json!(rw.unsupported);
    }
    v
}

fn strip_lt(s: &str) -> String {
    // 'a , / 'a / '_ inside a printed type
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while it.peek().map(|c| c.is_alphanumeric() || *c == '_').unwrap_or(false) {
                it.next();
            }
            while it.peek() == Some(&' ') {
                it.next();
            }
            if it.peek() == Some(&',') {
                it.next();
            }
            while it.peek() == Some(&' ') {
                it.next();
            }
        } else {
            out.push(c);
        }
    }
    out.replace("<>", "").split_whitespace().collect::<String>()
}

fn generics_json(g: &Generics) -> Value {
    let mut g = g.clone();
    rewrite::Rw::new(false).visit_generics_mut(&mut g);
    let wh = g.where_clause.take();
    json!({
        "params": g.params.iter().map(text).collect::<Vec<_>>(),
        "where": wh.map(|w| w.predicates.iter().map(text).collect::<Vec<_>>()).unwrap_or_default(),
    })
}

fn item(i: &Item, path: &str, out: &mut Vec<Value>) {
    match i {
        Item::Mod(m) if !is_test(&m.attrs) => {
            let mut sub = vec![];
            if let Some((_, items)) = &m.content {
                for i in items {
                    item(i, "", &mut sub);
                }
            }
            out.push(json!({"kind": "mod", "name": m.ident.to_string(), "items": sub}));
        }
        Item::Fn(f) if !is_test(&f.attrs) => {
            let mut h = vec![];
            let v = func(path, &f.sig, Some(&f.block), &mut h);
            out.extend(h);
            out.push(v);
        }
        Item::Impl(im) if !derived(&im.attrs) => {
            let mut self_ty = (*im.self_ty).clone();
            let raw = text(&self_ty);
            rewrite::Rw::new(false).visit_type_mut(&mut self_ty);
            let trait_ = im.trait_.as_ref().map(|(_, p, _)| {
                let mut p = p.clone();
                rewrite::Rw::new(false).visit_path_mut(&mut p);
                p
            });
            let tname = im.trait_.as_ref().map(|(_, p, _)| {
                let mut p = p.clone();
                if p.segments.len() > 1 {
                    p = Path::from(p.segments.last().unwrap().clone());
                }
                strip_lt(&text(&p))
            });
            let key = match &tname {
                Some(t) => format!("{t} for {}", strip_lt(&raw)),
                None => strip_lt(&raw),
            };
            let mut items = vec![];
            let mut assoc = vec![];
            let mut h = vec![];
            for ii in &im.items {
                match ii {
                    ImplItem::Fn(f) => items.push(func(&key, &f.sig, Some(&f.block), &mut h)),
                    ImplItem::Type(t) => {
                        let mut t = t.clone();
                        rewrite::Rw::new(false).visit_impl_item_type_mut(&mut t);
                        t.attrs.clear();
                        assoc.push(text(&t))
                    }
                    _ => {}
                }
            }
            out.extend(h);
            out.push(json!({
                "kind": "impl", "key": key, "trait": trait_.map(|t| text(&t)), "self": text(&self_ty),
                "generics": generics_json(&im.generics), "assoc": assoc, "items": items,
            }));
        }
        Item::Trait(t) => {
            let mut items = vec![];
            let mut h = vec![];
            let mut assoc = vec![];
            for ti in &t.items {
                match ti {
                    TraitItem::Fn(f) => items.push(func(&t.ident.to_string(), &f.sig, f.default.as_ref(), &mut h)),
                    TraitItem::Type(ty) => {
                        let mut ty = ty.clone();
                        ty.attrs.clear();
                        assoc.push(text(&ty))
                    }
                    _ => {}
                }
            }
            let sup = &t.supertraits;
            out.push(json!({
                "kind": "trait", "key": t.ident.to_string(), "super": text(sup), "generics": generics_json(&t.generics),
                "assoc": assoc, "items": items,
            }));
        }
        Item::Struct(s) => {
            let mut s = s.clone();
            s.attrs.clear();
            let name = s.ident.to_string();
            rewrite::Rw::new(false).visit_item_struct_mut(&mut s);
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.vis = parse_quote!(pub);
                f.attrs.clear();
            }
            out.push(json!({"kind": "struct", "key": name, "text": text(&s)}));
        }
        Item::Enum(s) => {
            let mut s = s.clone();
            s.attrs.clear();
            let name = s.ident.to_string();
            let nv = s.variants.len();
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                v.fields.iter_mut().for_each(|f| f.attrs.clear());
            }
            rewrite::Rw::new(false).visit_item_enum_mut(&mut s);
            s.vis = parse_quote!(pub);
            out.push(json!({"kind": "enum", "key": name, "text": text(&s), "variants": nv}));
        }
        Item::Const(c) if c.ident != "_" => {
            let mut c = c.clone();
            c.attrs.clear();
            let name = c.ident.to_string();
            let mut rw = rewrite::Rw::new(true);
            rw.visit_item_const_mut(&mut c);
            let (ty, e) = (&c.ty, &c.expr);
            out.push(json!({"kind": "const", "key": name, "ty": text(ty), "expr": text(e)}));
        }
        Item::Const(c) => {
            // `const _: () = { impls };` produced by some derives
            if let Expr::Block(b) = &*c.expr {
                for s in &b.block.stmts {
                    if let Stmt::Item(i) = s {
                        item(i, path, out);
                    }
                }
            }
        }
        Item::Type(t) => {
            let mut t = t.clone();
            t.attrs.clear();
            let name = t.ident.to_string();
            rewrite::Rw::new(false).visit_item_type_mut(&mut t);
            t.vis = parse_quote!(pub);
            out.push(json!({"kind": "type", "key": name, "text": text(&t)}));
        }
        _ => {}
    }
}

fn main() {
    let src = std::fs::read_to_string(std::env::args().nth(1).expect("file")).expect("read");
    let mut file = parse_file(&src).expect("parse");
    let mut out = vec![];
    let mut fresh = Default::default();
    if let Some(k) = std::env::args().nth(2) {
        let known = std::fs::read_to_string(k).expect("read").lines().map(str::to_string).collect();
        fresh = inline::run(&mut file.items, &known);
    }
    for i in &file.items {
        item(i, "", &mut out);
    }
    out.push(json!({"kind": "fresh", "key": "fresh", "names": fresh}));
    println!("{}", serde_json::to_string_pretty(&json!(out)).unwrap());
    let _ = quote!();
    let _: TokenStream;
}
