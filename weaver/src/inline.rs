//! A function the contracts do not know (a helper somebody extracted) is put back where it is called, where that is a
//! mechanical step: it has no generic parameters, does not call itself, and the call is `f(..)?`, the result of the caller,
//! or `f` has no early exit.
use crate::text;
use quote::format_ident;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Helper {
    sig: Signature,
    block: Block,
}

fn ret_text(sig: &Signature) -> String {
    match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => text(t).split_whitespace().collect(),
    }
}

/// the error type of a `Result`
fn error_of(sig: &Signature) -> Option<String> {
    let ReturnType::Type(_, t) = &sig.output else { return None };
    let Type::Path(p) = &**t else { return None };
    let l = p.path.segments.last()?;
    if l.ident != "Result" {
        return None;
    }
    let PathArguments::AngleBracketed(a) = &l.arguments else { return None };
    if a.args.len() != 2 {
        return None;
    }
    let s: String = text(&a.args[1]).split_whitespace().collect();
    Some(s.rsplit("::").next().unwrap().to_string())
}

#[derive(Default)]
struct Exits {
    ret: bool,
    ret_ok: bool,
    tr: bool,
    label: bool,
}

impl VisitMut for Exits {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut Item) {
        self.label = true
    }
    fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
        self.ret = true;
        let err = match r.expr.as_deref() {
            Some(Expr::Call(c)) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "Err"),
            _ => false,
        };
        if !err {
            self.ret_ok = true
        }
        visit_mut::visit_expr_return_mut(self, r);
    }
    fn visit_expr_try_mut(&mut self, t: &mut ExprTry) {
        self.tr = true;
        visit_mut::visit_expr_try_mut(self, t);
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {
        self.label = true
    }
}

fn exits(b: &Block) -> Exits {
    let mut x = Exits::default();
    x.visit_block_mut(&mut b.clone());
    x
}

struct Inliner<'a> {
    helpers: &'a BTreeMap<String, Helper>,
    owner: String,
    sig: Option<Signature>,
    /// inside a closure `?` and `return` leave the closure
    closures: usize,
    n: usize,
    done: bool,
    used: BTreeSet<String>,
}

impl Inliner<'_> {
    fn target(&self, e: &Expr) -> Option<(String, Helper, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                if p.qself.is_some() || p.path.segments.iter().any(|s| !s.arguments.is_none()) {
                    return None;
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = segs.last()?;
                let key = if segs.len() >= 2 && segs[segs.len() - 2] == "Self" {
                    format!("{}::{last}", self.owner)
                } else if segs.len() == 1 || ["self", "super", "crate", "ssz"].contains(&segs[segs.len() - 2].as_str()) {
                    last.clone()
                } else {
                    return None;
                };
                let h = self.helpers.get(&key)?;
                if h.sig.receiver().is_some() {
                    return None;
                }
                Some((key, h.clone(), c.args.iter().cloned().collect()))
            }
            Expr::MethodCall(m) => {
                let key = format!("{}::{}", self.owner, m.method);
                let h = self.helpers.get(&key)?;
                h.sig.receiver()?;
                if m.turbofish.is_some() {
                    return None;
                }
                // a method of another type may have the same name: the receiver has to be `self`
                match &*m.receiver {
                    Expr::Path(p) if p.path.is_ident("self") => Some((key, h.clone(), m.args.iter().cloned().collect())),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn build(&mut self, key: &str, h: &Helper, args: &[Expr], unwrap: bool) -> Option<Expr> {
        let params: Vec<&PatType> = h.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None }).collect();
        if params.len() != args.len() {
            return None;
        }
        let k = self.n;
        self.n += 1;
        let mut stmts: Vec<Stmt> = vec![];
        let mut second: Vec<Stmt> = vec![];
        for (j, (p, a)) in params.iter().zip(args).enumerate() {
            let v = format_ident!("v_h{}_{}", k, j);
            let (pat, ty) = (&p.pat, &p.ty);
            if matches!(&**ty, Type::ImplTrait(_)) {
                return None;
            }
            if matches!(a, Expr::Path(q) if q.path.get_ident().is_some() && matches!(&**pat, Pat::Ident(i) if Some(&i.ident) == q.path.get_ident() && i.mutability.is_none())) {
                continue;
            }
            stmts.push(parse_quote!(let #v: #ty = #a;));
            second.push(parse_quote!(let #pat = #v;));
        }
        stmts.extend(second);
        let mut body = h.block.stmts.clone();
        if unwrap {
            match body.pop()? {
                Stmt::Expr(e, None) => body.push(Stmt::Expr(unwrap_tail(e)?, None)),
                _ => return None,
            }
        }
        stmts.extend(body);
        self.used.insert(key.to_string());
        self.done = true;
        if stmts.len() == 1 {
            if let Stmt::Expr(e, None) = &stmts[0] {
                let e = e.clone();
                return Some(match e {
                    Expr::Binary(_) | Expr::Cast(_) | Expr::Unary(_) | Expr::Range(_) => parse_quote!((#e)),
                    e => e,
                });
            }
        }
        Some(parse_quote!({ #(#stmts)* }))
    }

    /// `e` is the value the caller returns
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::If(i) => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, b)) = &mut i.else_branch {
                    self.tail(b);
                }
            }
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| self.tail(&mut a.body)),
            Expr::Block(b) => self.tail_block(&mut b.block),
            Expr::Paren(p) => self.tail(&mut p.expr),
            _ => {
                if let Some((key, h, args)) = self.target(e) {
                    if self.closures == 0 && self.sig.as_ref().map(ret_text) == Some(ret_text(&h.sig)) && !exits(&h.block).label {
                        if let Some(n) = self.build(&key, &h, &args, false) {
                            *e = n;
                        }
                    }
                }
            }
        }
    }

    fn tail_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail(e);
        }
    }
}

/// the value of `(e)?` where `e` ends in `Ok(v)`, `Err(v)` or something else
fn unwrap_tail(e: Expr) -> Option<Expr> {
    Some(match e {
        Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) => c.args[0].clone(),
        Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")) => parse_quote!(return #c),
        Expr::If(mut i) => {
            let (_, els) = i.else_branch.as_mut()?;
            **els = unwrap_tail((**els).clone())?;
            i.then_branch = unwrap_block(&i.then_branch)?;
            Expr::If(i)
        }
        Expr::Block(b) if b.label.is_none() => {
            let n = unwrap_block(&b.block)?;
            parse_quote!(#n)
        }
        Expr::Match(mut m) => {
            for a in m.arms.iter_mut() {
                *a.body = unwrap_tail((*a.body).clone())?;
            }
            Expr::Match(m)
        }
        e => parse_quote!((#e)?),
    })
}

fn unwrap_block(b: &Block) -> Option<Block> {
    let mut b = b.clone();
    match b.stmts.pop()? {
        Stmt::Expr(e, None) => b.stmts.push(Stmt::Expr(unwrap_tail(e)?, None)),
        Stmt::Expr(Expr::Return(r), s) => b.stmts.push(Stmt::Expr(Expr::Return(r), s)),
        _ => return None,
    }
    Some(b)
}

impl VisitMut for Inliner<'_> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.closures += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        self.closures -= 1;
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
        if let Some(e) = &mut r.expr {
            if self.closures == 0 {
                self.tail(e);
            }
        }
        visit_mut::visit_expr_return_mut(self, r);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if let Some((key, h, args)) = self.target(&t.expr) {
                let x = exits(&h.block);
                let same = error_of(&h.sig).is_some() && self.sig.as_ref().and_then(error_of) == error_of(&h.sig);
                if !x.label && !x.ret_ok && (self.closures == 0 && same) {
                    if let Some(n) = self.build(&key, &h, &args, true) {
                        *e = n;
                    }
                }
            }
        }
        if let Some((key, h, args)) = self.target(e) {
            let x = exits(&h.block);
            if !x.label && !x.ret && !x.tr {
                if let Some(n) = self.build(&key, &h, &args, false) {
                    *e = n;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn impl_key(im: &ItemImpl) -> Option<String> {
    match im.trait_ {
        None => Some(crate::strip_lt(&text(&*im.self_ty))),
        Some(_) => None,
    }
}

fn owner_of(im: &ItemImpl) -> String {
    crate::strip_lt(&text(&*im.self_ty))
}

fn simple(sig: &Signature) -> bool {
    sig.generics.params.iter().all(|p| matches!(p, GenericParam::Lifetime(_))) && sig.asyncness.is_none() && sig.unsafety.is_none()
}

fn collect(items: &[Item], known: &BTreeSet<String>, out: &mut BTreeMap<String, Helper>, fresh: &mut BTreeSet<String>) {
    for i in items {
        match i {
            Item::Mod(m) if !crate::is_test(&m.attrs) => {
                if let Some((_, l)) = &m.content {
                    collect(l, known, out, fresh)
                }
            }
            Item::Fn(f) if !crate::is_test(&f.attrs) => {
                let k = f.sig.ident.to_string();
                if !known.contains(&k) {
                    fresh.insert(k.clone());
                    if simple(&f.sig) {
                        out.insert(k, Helper { sig: f.sig.clone(), block: (*f.block).clone() });
                    }
                }
            }
            Item::Impl(im) if !crate::derived(&im.attrs) => {
                if let Some(key) = impl_key(im) {
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            let k = format!("{key}::{}", f.sig.ident);
                            if !known.contains(&k) {
                                fresh.insert(k.clone());
                                if simple(&f.sig) {
                                    out.insert(k, Helper { sig: f.sig.clone(), block: f.block.clone() });
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

fn one(owner: String, sig: &Signature, block: &mut Block, helpers: &BTreeMap<String, Helper>, used: &mut BTreeSet<String>) -> bool {
    let mut x = Inliner { helpers, owner, sig: Some(sig.clone()), closures: 0, n: used.len() * 100, done: false, used: BTreeSet::new() };
    x.tail_block(block);
    x.visit_block_mut(block);
    used.extend(x.used);
    x.done
}

fn apply(items: &mut [Item], helpers: &BTreeMap<String, Helper>, used: &mut BTreeSet<String>) -> bool {
    let mut done = false;
    for i in items {
        match i {
            Item::Mod(m) => {
                if let Some((_, l)) = &mut m.content {
                    done |= apply(l, helpers, used)
                }
            }
            Item::Fn(f) => {
                let sig = f.sig.clone();
                done |= one(String::new(), &sig, &mut f.block, helpers, used)
            }
            Item::Impl(im) => {
                let o = owner_of(im);
                for ii in im.items.iter_mut() {
                    if let ImplItem::Fn(f) = ii {
                        let sig = f.sig.clone();
                        done |= one(o.clone(), &sig, &mut f.block, helpers, used)
                    }
                }
            }
            Item::Trait(t) => {
                for ti in t.items.iter_mut() {
                    if let TraitItem::Fn(f) = ti {
                        let sig = f.sig.clone();
                        if let Some(b) = &mut f.default {
                            done |= one(String::new(), &sig, b, helpers, used)
                        }
                    }
                }
            }
            Item::Const(c) => {
                if let Expr::Block(b) = &mut *c.expr {
                    for s in b.block.stmts.iter_mut() {
                        if let Stmt::Item(i) = s {
                            done |= apply(std::slice::from_mut(i), helpers, used);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    done
}

/// Puts the functions that are not `known` back where they are called.
pub fn run(items: &mut [Item], known: &BTreeSet<String>) -> BTreeSet<String> {
    let (mut helpers, mut fresh, mut used) = (BTreeMap::new(), BTreeSet::new(), BTreeSet::new());
    collect(items, known, &mut helpers, &mut fresh);
    for _ in 0..5 {
        if helpers.is_empty() || !apply(items, &helpers, &mut used) {
            break;
        }
    }
    fresh
}
