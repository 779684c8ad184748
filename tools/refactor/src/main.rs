//! Behaviour-keeping rewrites of a Rust source file.
//! refactor list FILE            prints "kind index line" for every site
//! refactor apply FILE KIND:IDX…  prints the rewritten file
use proc_macro2::Span;
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct R {
    want: HashSet<(String, usize)>,
    cnt: HashMap<String, usize>,
    list: bool,
    n: usize,
}

impl R {
    fn site(&mut self, kind: &str, sp: Span) -> bool {
        let c = self.cnt.entry(kind.to_string()).or_insert(0);
        let i = *c;
        *c += 1;
        if self.list {
            println!("{} {} {}", kind, i, sp.start().line);
        }
        self.want.contains(&(kind.to_string(), i))
    }
    fn fresh(&mut self) -> Ident {
        self.n += 1;
        format_ident!("tmp{}", self.n)
    }
}

fn has_let(e: &Expr) -> bool {
    e.to_token_stream().into_iter().any(|t| t.to_string() == "let") || matches!(e, Expr::Let(_))
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.to_token_stream().to_string().replace(' ', "").contains("cfg(test)"))
}

fn plain_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => plain_place(&f.base),
        Expr::Index(i) => plain_place(&i.expr) && plain_place(&i.index),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && plain_place(&u.expr),
        Expr::Lit(_) => true,
        _ => false,
    }
}

fn pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => pure(&f.base),
        Expr::Paren(p) => pure(&p.expr),
        Expr::Reference(r) => r.mutability.is_none() && pure(&r.expr),
        Expr::Unary(u) => pure(&u.expr),
        Expr::Cast(c) => pure(&c.expr),
        Expr::Binary(b) => pure(&b.left) && pure(&b.right),
        Expr::Tuple(t) => t.elems.iter().all(pure),
        Expr::Index(i) => pure(&i.expr) && pure(&i.index),
        Expr::MethodCall(m) => {
            const OK: &[&str] = &["len", "clone", "iter", "abs", "as_ref", "weight", "id", "to_owned", "sqrt", "is_empty", "outgoing", "weights", "as_slice", "borrow", "pt", "is_some", "is_none", "to_string"];
            OK.contains(&m.method.to_string().as_str()) && pure(&m.receiver) && m.args.iter().all(pure)
        }
        _ => false,
    }
}

fn neg(e: &Expr) -> Expr {
    parse_quote!(!(#e))
}

fn mutating_free(e: &Expr) -> bool {
    let s = e.to_token_stream().to_string();
    !s.contains('?') && !s.contains("mut ") && !s.contains("return") && !s.contains("next") && !s.contains("read") && !s.contains("break")
}

fn flip(op: &BinOp) -> Option<BinOp> {
    Some(match op {
        BinOp::Lt(_) => parse_quote!(>),
        BinOp::Gt(_) => parse_quote!(<),
        BinOp::Le(_) => parse_quote!(>=),
        BinOp::Ge(_) => parse_quote!(<=),
        BinOp::Eq(_) => parse_quote!(==),
        BinOp::Ne(_) => parse_quote!(!=),
        _ => return None,
    })
}

fn unassign(op: &BinOp) -> Option<BinOp> {
    Some(match op {
        BinOp::AddAssign(_) => parse_quote!(+),
        BinOp::SubAssign(_) => parse_quote!(-),
        BinOp::MulAssign(_) => parse_quote!(*),
        BinOp::DivAssign(_) => parse_quote!(/),
        _ => return None,
    })
}

impl VisitMut for R {
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if !is_test(&m.attrs) {
            visit_mut::visit_item_mod_mut(self, m);
        }
    }

    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        if !is_test(&f.attrs) {
            visit_mut::visit_item_fn_mut(self, f);
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let sp = e.span();
        let new: Option<Expr> = match e {
            Expr::Binary(b) => {
                if let Some(op) = flip(&b.op) {
                    if mutating_free(&b.left) && mutating_free(&b.right) && self.site("flip", sp) {
                        let (l, r) = (&b.left, &b.right);
                        Some(parse_quote!(((#r) #op (#l))))
                    } else {
                        None
                    }
                } else if matches!(b.op, BinOp::Add(_) | BinOp::Mul(_)) {
                    if mutating_free(&b.left) && mutating_free(&b.right) && self.site("commute", sp) {
                        let (l, r, op) = (&b.left, &b.right, &b.op);
                        Some(parse_quote!(((#r) #op (#l))))
                    } else {
                        None
                    }
                } else if matches!(b.op, BinOp::And(_)) {
                    if !has_let(e_ref(b)) && self.site("andif", sp) {
                        let (l, r) = (&b.left, &b.right);
                        Some(parse_quote!((if #l { #r } else { false })))
                    } else {
                        None
                    }
                } else if matches!(b.op, BinOp::Or(_)) {
                    if self.site("demorgan", sp) {
                        let (l, r) = (&b.left, &b.right);
                        Some(parse_quote!((!(!(#l) && !(#r)))))
                    } else {
                        None
                    }
                } else if let Some(op) = unassign(&b.op) {
                    if plain_place(&b.left) && mutating_free(&b.right) && self.site("opassign", sp) {
                        let (l, r) = (&b.left, &b.right);
                        Some(parse_quote!(#l = #l #op (#r)))
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Expr::If(i) if i.else_branch.is_some() => {
                if let Expr::Let(l) = &*i.cond {
                    if self.site("iflet2match", sp) {
                        let (p, x, t) = (&l.pat, &l.expr, &i.then_branch);
                        let el = &i.else_branch.as_ref().unwrap().1;
                        Some(parse_quote!(match #x { #p => #t, _ => { #el } }))
                    } else {
                        None
                    }
                } else if !has_let(&i.cond) && self.site("ifneg", sp) {
                    let (c, t) = (neg(&i.cond), &i.then_branch);
                    let el = &i.else_branch.as_ref().unwrap().1;
                    Some(match &**el {
                        Expr::Block(b) if b.label.is_none() => parse_quote!(if #c #b else #t),
                        other => parse_quote!(if #c { #other } else #t),
                    })
                } else {
                    None
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &*i.cond {
                    if self.site("iflet2match", sp) {
                        let (p, x, t) = (&l.pat, &l.expr, &i.then_branch);
                        Some(parse_quote!(match #x { #p => #t, _ => {} }))
                    } else {
                        None
                    }
                } else if !has_let(&i.cond) && self.site("ifvar", sp) {
                    let (c, t) = (&i.cond, &i.then_branch);
                    let v = self.fresh();
                    Some(parse_quote!({ let #v = #c; if #v #t }))
                } else {
                    None
                }
            }
            Expr::Try(t) => {
                let x = &t.expr;
                if self.site("try2match", sp) {
                    Some(parse_quote!((match #x { Ok(val) => val, Err(err) => return Err(From::from(err)) })))
                } else if self.site("try2matchopt", sp) {
                    Some(parse_quote!((match #x { Some(val) => val, None => return None })))
                } else if self.site("try2var", sp) {
                    let v = self.fresh();
                    Some(parse_quote!({ let #v = #x; #v? }))
                } else {
                    None
                }
            }
            Expr::ForLoop(f) => {
                let (p, x, b, l) = (&f.pat, &f.expr, &f.body, &f.label);
                if self.site("for2while", sp) {
                    let v = self.fresh();
                    Some(parse_quote!({ let mut #v = IntoIterator::into_iter(#x); #l while let Some(#p) = #v.next() #b }))
                } else if !b.to_token_stream().to_string().contains("continue") && l.is_none()
                    && !has_flow(b) && self.site("for2foreach", sp)
                {
                    Some(parse_quote!(IntoIterator::into_iter(#x).for_each(|#p| #b)))
                } else if self.site("forvar", sp) {
                    let v = self.fresh();
                    Some(parse_quote!({ let #v = #x; #l for #p in #v #b }))
                } else {
                    None
                }
            }
            Expr::While(w) => {
                let (c, b, l) = (&w.cond, &w.body.stmts, &w.label);
                if !has_let(c) && self.site("while2loop", sp) {
                    let n = neg(c);
                    Some(parse_quote!(#l loop { if #n { break; } #(#b)* }))
                } else if let Expr::Let(x) = &**c {
                    if self.site("whilelet2loop", sp) {
                        let (p, x) = (&x.pat, &x.expr);
                        Some(parse_quote!(#l loop { match #x { #p => { #(#b)* } _ => break } }))
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Expr::Closure(c) if !matches!(&*c.body, Expr::Block(_)) => {
                if self.site("closurevar", sp) {
                    let b = &c.body;
                    let v = self.fresh();
                    let mut c2 = c.clone();
                    c2.body = parse_quote!({ let #v = #b; #v });
                    Some(Expr::Closure(c2))
                } else {
                    None
                }
            }
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "unwrap" if m.args.is_empty() && self.site("unwrap2expect", sp) => {
                    let r = &m.receiver;
                    Some(parse_quote!(#r.expect("value")))
                }
                "is_some" | "is_none" | "is_ok" | "is_err" if m.args.is_empty() && self.site("isneg", sp) => {
                    let r = &m.receiver;
                    let o = format_ident!("{}", match m.method.to_string().as_str() {
                        "is_some" => "is_none",
                        "is_none" => "is_some",
                        "is_ok" => "is_err",
                        _ => "is_ok",
                    });
                    Some(parse_quote!((!#r.#o())))
                }
                "is_empty" if m.args.is_empty() && self.site("isempty", sp) => {
                    let r = &m.receiver;
                    Some(parse_quote!((#r.len() == 0)))
                }
                "map_err" | "map" | "filter" | "and_then" | "for_each" | "filter_map" if m.args.len() == 1 && self.site("closurelet", sp) => {
                    let (r, f, a) = (&m.receiver, &m.method, &m.args[0]);
                    let v = self.fresh();
                    Some(parse_quote!({ let #v = #r; #v.#f(#a) }))
                }
                "map" if m.args.len() == 1 && self.site("map2match", sp) => {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    Some(parse_quote!((match #r { Some(val) => Some((#a)(val)), None => None })))
                }
                "unwrap_or_default" if self.site("unwrapdef", sp) => {
                    let r = &m.receiver;
                    Some(parse_quote!((match #r { Some(val) => val, None => Default::default() })))
                }
                "unwrap_or" if self.site("unwrapor", sp) => {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    Some(parse_quote!((match #r { Some(val) => val, None => #a })))
                }
                "unwrap_or_else" if self.site("unwraporelse", sp) => {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    Some(parse_quote!((match #r { Some(val) => val, None => (#a)() })))
                }
                "collect" if self.site("collectvar", sp) => {
                    let r = &m.receiver;
                    let v = self.fresh();
                    let (f, tf) = (&m.method, &m.turbofish);
                    Some(parse_quote!({ let #v = #r; #v.#f #tf () }))
                }
                _ => None,
            },
            Expr::Match(m) => {
                if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) {
                    let names: Vec<_> = m.arms.iter().map(|a| head(&a.pat)).collect();
                    let swap = match (&names[0], &names[1]) {
                        (Some(a), Some(b)) => a != b,
                        _ => false,
                    };
                    if swap && self.site("armswap", sp) {
                        let mut m2 = m.clone();
                        m2.arms.swap(0, 1);
                        for a in m2.arms.iter_mut() {
                            a.comma = Some(Default::default());
                        }
                        Some(Expr::Match(m2))
                    } else if swap && binds_nothing(&m.arms[1].pat) && self.site("match2iflet", sp) {
                        let (x, p, a, b) = (&m.expr, &m.arms[0].pat, &m.arms[0].body, &m.arms[1].body);
                        Some(parse_quote!((if let #p = #x { #a } else { #b })))
                    } else {
                        None
                    }
                } else if m.arms.iter().all(|a| a.guard.is_none()) {
                    let names: Vec<_> = m.arms.iter().map(|a| head(&a.pat)).collect();
                    if names.len() > 2 && names[0].is_some() && names[1].is_some() && names[0] != names[1] && self.site("armswap3", sp) {
                        let mut m2 = m.clone();
                        m2.arms.swap(0, 1);
                        for a in m2.arms.iter_mut() {
                            a.comma = Some(Default::default());
                        }
                        Some(Expr::Match(m2))
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Expr::Struct(s) if s.fields.len() > 1 && s.rest.is_none() => {
                if s.fields.iter().all(|f| pure(&f.expr)) && self.site("fieldorder", sp) {
                    let mut s2 = s.clone();
                    let fs: Vec<_> = s.fields.iter().cloned().rev().collect();
                    s2.fields = fs.into_iter().collect();
                    Some(Expr::Struct(s2))
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        // local through a temporary; statement order
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let sp = s.span();
            match s {
                Stmt::Local(l) => {
                    let simple = matches!(&l.pat, Pat::Ident(_) | Pat::Type(_)) && l.init.as_ref().map_or(false, |i| i.diverge.is_none());
                    if simple && self.site("letvar", sp) {
                        let v = self.fresh();
                        let x = &l.init.as_ref().unwrap().expr;
                        let (p, ty): (Pat, Option<Type>) = match &l.pat {
                            Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                            p => (p.clone(), None),
                        };
                        match ty {
                            Some(t) => out.push(parse_quote!(let #v: #t = #x;)),
                            None => out.push(parse_quote!(let #v = #x;)),
                        }
                        out.push(parse_quote!(let #p = #v;));
                    } else {
                        out.push(Stmt::Local(l));
                    }
                }
                Stmt::Expr(Expr::If(i), None) if false => out.push(Stmt::Expr(Expr::If(i), None)),
                Stmt::Expr(Expr::Return(r), semi) => {
                    if r.expr.is_some() && self.site("retvar", sp) {
                        let v = self.fresh();
                        let x = &r.expr;
                        out.push(parse_quote!(let #v = #x;));
                        out.push(parse_quote!(return #v;));
                    } else {
                        out.push(Stmt::Expr(Expr::Return(r), semi));
                    }
                }
                Stmt::Expr(Expr::MethodCall(m), Some(semi)) => {
                    if m.args.len() == 1 && pure(&m.receiver) && !matches!(m.args[0], Expr::Closure(_)) && self.site("argvar", sp) {
                        let v = self.fresh();
                        let a = m.args[0].clone();
                        let mut m2 = m.clone();
                        m2.args[0] = parse_quote!(#v);
                        out.push(parse_quote!(let #v = #a;));
                        out.push(Stmt::Expr(Expr::MethodCall(m2), Some(semi)));
                    } else {
                        out.push(Stmt::Expr(Expr::MethodCall(m), Some(semi)));
                    }
                }
                Stmt::Expr(x, None) if !matches!(x, Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Unsafe(_) | Expr::Block(_) | Expr::Path(_) | Expr::Lit(_) | Expr::Macro(_)) => {
                    if self.site("tailvar", sp) {
                        let v = self.fresh();
                        out.push(parse_quote!(let #v = #x;));
                        out.push(Stmt::Expr(parse_quote!(#v), None));
                    } else {
                        out.push(Stmt::Expr(x, None));
                    }
                }
                s => out.push(s),
            }
        }
        // `if c { return x; } rest` at the end of a block: into an else branch
        let k = out.iter().position(|s| match s {
            Stmt::Expr(Expr::If(i), _) => i.else_branch.is_none() && !has_let(&i.cond) && matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_) | Expr::Continue(_), _))),
            _ => false,
        });
        if let Some(k) = k {
            if k + 1 < out.len() && self.site("guardelse", out[k].span()) {
                let rest: Vec<Stmt> = out.drain(k + 1..).collect();
                if let Some(Stmt::Expr(Expr::If(i), _)) = out.pop() {
                    let (c, t) = (&i.cond, &i.then_branch);
                    let e: Expr = parse_quote!(if #c #t else { #(#rest)* });
                    out.push(Stmt::Expr(e, None));
                }
            }
        }
        // adjacent lets
        let mut k = 0;
        while k + 1 < out.len() {
            let ok = match (&out[k], &out[k + 1]) {
                (Stmt::Local(a), Stmt::Local(c)) => match (&a.pat, &c.pat, &a.init, &c.init) {
                    (Pat::Ident(p), Pat::Ident(q), Some(x), Some(y)) => {
                        pure(&x.expr) && pure(&y.expr) && p.ident != q.ident
                            && !y.expr.to_token_stream().into_iter().any(|t| t.to_string() == p.ident.to_string() )
                            && !mentions(&y.expr, &p.ident) && !mentions(&x.expr, &q.ident)
                    }
                    _ => false,
                },
                _ => false,
            };
            if ok && self.site("letswap", out[k].span()) {
                out.swap(k, k + 1);
                k += 1;
            }
            k += 1;
        }
        b.stmts = out;
    }

    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        visit_mut::visit_item_impl_mut(self, i);
        if i.trait_.is_some() {
            return;
        }
        let mut extra = vec![];
        for it in i.items.iter_mut() {
            if let ImplItem::Fn(f) = it {
                if f.sig.constness.is_none() && args_plain(&f.sig) && self.site("innermethod", f.sig.span()) {
                    let mut g = f.clone();
                    g.sig.ident = format_ident!("{}_inner", f.sig.ident);
                    g.vis = Visibility::Inherited;
                    g.attrs.clear();
                    let n = &g.sig.ident;
                    let args: Vec<_> = names(&f.sig);
                    let hs = f.sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_)));
                    f.block = if hs { parse_quote!({ self.#n(#(#args),*) }) } else { parse_quote!({ Self::#n(#(#args),*) }) };
                    strip_mut(&mut f.sig);
                    extra.push(ImplItem::Fn(g));
                }
            }
        }
        i.items.extend(extra);
    }

    fn visit_file_mut(&mut self, f: &mut File) {
        visit_mut::visit_file_mut(self, f);
        let mut extra = vec![];
        for it in f.items.iter_mut() {
            if let Item::Fn(f) = it {
                if f.sig.ident != "main" && f.attrs.iter().all(|a| a.path().is_ident("doc")) && args_plain(&f.sig) && f.sig.unsafety.is_none() && f.sig.constness.is_none() && self.site("innerfn", f.sig.span()) {
                    let mut g = f.clone();
                    g.sig.ident = format_ident!("{}_inner", f.sig.ident);
                    g.vis = Visibility::Inherited;
                    let n = &g.sig.ident;
                    let args: Vec<_> = names(&f.sig);
                    f.block = parse_quote!({ #n(#(#args),*) });
                    strip_mut(&mut f.sig);
                    extra.push(Item::Fn(g));
                }
            }
        }
        f.items.extend(extra);
    }
}

fn e_ref(b: &ExprBinary) -> &Expr {
    if has_let(&b.left) { &b.left } else { &b.right }
}

fn has_flow(b: &Block) -> bool {
    let s = b.to_token_stream().to_string();
    s.contains('?') || s.contains("return") || s.contains("break")
}

fn mentions(e: &Expr, i: &Ident) -> bool {
    fn go(ts: proc_macro2::TokenStream, i: &str) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Group(g) => go(g.stream(), i),
            t => t.to_string() == i,
        })
    }
    go(e.to_token_stream(), &i.to_string())
}

fn head(p: &Pat) -> Option<String> {
    match p {
        Pat::TupleStruct(t) => Some(t.path.to_token_stream().to_string()),
        Pat::Struct(t) => Some(t.path.to_token_stream().to_string()),
        Pat::Path(t) => Some(t.path.to_token_stream().to_string()),
        Pat::Ident(i) if i.subpat.is_none() && i.ident.to_string().starts_with(char::is_uppercase) => Some(i.ident.to_string()),
        Pat::Lit(l) => Some(l.to_token_stream().to_string()),
        _ => None,
    }
}

fn binds_nothing(p: &Pat) -> bool {
    match p {
        Pat::Ident(i) => i.ident.to_string().starts_with(char::is_uppercase),
        Pat::Path(_) | Pat::Lit(_) | Pat::Wild(_) => true,
        Pat::TupleStruct(t) => t.elems.iter().all(|e| matches!(e, Pat::Wild(_))),
        _ => false,
    }
}

fn args_plain(s: &Signature) -> bool {
    s.generics.params.is_empty() && s.inputs.iter().all(|a| match a {
        FnArg::Receiver(_) => true,
        FnArg::Typed(t) => matches!(&*t.pat, Pat::Ident(_)) && !t.ty.to_token_stream().to_string().contains("impl "),
    })
}

fn names(s: &Signature) -> Vec<Ident> {
    s.inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => Some(i.ident.clone()),
                _ => None,
            },
            _ => None,
        })
        .collect()
}

fn strip_mut(s: &mut Signature) {
    for a in s.inputs.iter_mut() {
        match a {
            FnArg::Typed(t) => {
                if let Pat::Ident(i) = &mut *t.pat {
                    i.mutability = None;
                }
            }
            FnArg::Receiver(r) => {
                if r.reference.is_none() {
                    r.mutability = None;
                }
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[2]).unwrap();
    let mut f = parse_file(&src).unwrap();
    let want = a[3..]
        .iter()
        .map(|s| {
            let (k, i) = s.split_once(':').unwrap();
            (k.to_string(), i.parse().unwrap())
        })
        .collect();
    let mut r = R { want, cnt: HashMap::new(), list: a[1] == "list", n: 0 };
    r.visit_file_mut(&mut f);
    if a[1] == "apply" {
        let _ = quote!();
        println!("{}", f.to_token_stream());
    }
}
