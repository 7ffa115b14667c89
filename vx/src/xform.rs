use crate::overlay::*;
use crate::printer::{self, Out, Range};
use crate::{Report, Src, SrcFn};
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

// ---------------------------------------------------------------- cfg

#[derive(Default)]
pub struct Cfg {
    pub names: BTreeSet<String>,
    pub kv: BTreeSet<(String, String)>,
}

impl Cfg {
    pub fn enabled(&self, attrs: &[syn::Attribute]) -> bool {
        attrs.iter().all(|a| {
            if a.path().is_ident("cfg") {
                match a.parse_args::<syn::Meta>() {
                    Ok(m) => self.meta(&m),
                    Err(_) => true,
                }
            } else {
                true
            }
        })
    }
    fn meta(&self, m: &syn::Meta) -> bool {
        match m {
            syn::Meta::Path(p) => p.get_ident().map(|i| self.names.contains(&i.to_string())).unwrap_or(false),
            syn::Meta::NameValue(nv) => {
                let k = nv.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value {
                    self.kv.contains(&(k, s.value()))
                } else {
                    false
                }
            }
            syn::Meta::List(l) => {
                let inner = l
                    .parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
                    .unwrap_or_default();
                if l.path.is_ident("any") {
                    inner.iter().any(|m| self.meta(m))
                } else if l.path.is_ident("all") {
                    inner.iter().all(|m| self.meta(m))
                } else if l.path.is_ident("not") {
                    !inner.iter().any(|m| self.meta(m))
                } else {
                    false
                }
            }
        }
    }
}

pub fn item_attrs(i: &syn::Item) -> &[syn::Attribute] {
    use syn::Item::*;
    match i {
        Const(x) => &x.attrs,
        Enum(x) => &x.attrs,
        Fn(x) => &x.attrs,
        Impl(x) => &x.attrs,
        Macro(x) => &x.attrs,
        Mod(x) => &x.attrs,
        Struct(x) => &x.attrs,
        Type(x) => &x.attrs,
        _ => &[],
    }
}

fn expr_attrs(e: &Expr) -> &[syn::Attribute] {
    match e {
        Expr::Return(x) => &x.attrs,
        Expr::Block(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        Expr::Tuple(x) => &x.attrs,
        Expr::Paren(x) => &x.attrs,
        Expr::Unsafe(x) => &x.attrs,
        Expr::ForLoop(x) => &x.attrs,
        Expr::While(x) => &x.attrs,
        Expr::Loop(x) => &x.attrs,
        _ => &[],
    }
}

struct CfgStrip<'a>(&'a Cfg);
impl<'a> VisitMut for CfgStrip<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => self.0.enabled(&l.attrs),
            Stmt::Item(i) => self.0.enabled(item_attrs(i)),
            Stmt::Expr(e, _) => self.0.enabled(expr_attrs(e)),
            Stmt::Macro(m) => self.0.enabled(&m.attrs),
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        m.arms.retain(|a| self.0.enabled(&a.attrs));
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

pub fn parse_bitflags(ts: TokenStream) -> Option<(String, syn::Type, Vec<(String, Expr)>)> {
    use syn::parse::{Parse, ParseStream};
    struct B(String, syn::Type, Vec<(String, Expr)>);
    impl Parse for B {
        fn parse(i: ParseStream) -> syn::Result<Self> {
            let _ = i.call(syn::Attribute::parse_outer)?;
            let _: syn::Visibility = i.parse()?;
            let _: syn::Token![struct] = i.parse()?;
            let n: Ident = i.parse()?;
            let _: syn::Token![:] = i.parse()?;
            let t: syn::Type = i.parse()?;
            let c;
            syn::braced!(c in i);
            let mut v = vec![];
            while !c.is_empty() {
                let _ = c.call(syn::Attribute::parse_outer)?;
                let _: syn::Token![const] = c.parse()?;
                let k: Ident = c.parse()?;
                let _: syn::Token![=] = c.parse()?;
                let e: Expr = c.parse()?;
                let _: syn::Token![;] = c.parse()?;
                v.push((k.to_string(), e));
            }
            Ok(B(n.to_string(), t, v))
        }
    }
    syn::parse2::<B>(ts).ok().map(|b| (b.0, b.1, b.2))
}

// ---------------------------------------------------------------- const evaluation

struct Ev<'a> {
    srcs: &'a BTreeMap<String, Src>,
    first: &'a str,
}
impl<'a> Ev<'a> {
    // the file being read comes first
    fn order(&self) -> impl Iterator<Item = (&'a str, &'a Src)> + use<'a> {
        let (all, first) = (self.srcs, self.first);
        all.get_key_value(first).into_iter().chain(all.iter().filter(move |(k, _)| k.as_str() != first)).map(|(k, v)| (k.as_str(), v))
    }
    // a constant means what it means in the file that defines it
    fn find_const(&self, n: &str) -> Option<(Ev<'a>, &'a syn::ItemConst)> {
        self.order().find_map(|(f, s)| s.consts.get(n).map(|c| (Ev { srcs: self.srcs, first: f }, c)))
    }
    fn ty_size(&self, t: &syn::Type) -> Option<i128> {
        let n = crate::type_name(t);
        match n.as_str() {
            "u8" | "i8" => Some(1),
            "u16" | "i16" => Some(2),
            "u32" | "i32" => Some(4),
            "u64" | "i64" | "usize" => Some(8),
            _ => self.order().find_map(|(_, s)| s.types.get(&n)).and_then(|t| self.ty_size(&t.ty)),
        }
    }
    fn eval(&self, e: &Expr) -> Option<i128> {
        match e {
            Expr::Lit(l) => match &l.lit {
                syn::Lit::Int(i) => i.base10_parse::<i128>().ok(),
                _ => None,
            },
            Expr::Paren(p) => self.eval(&p.expr),
            Expr::Group(p) => self.eval(&p.expr),
            Expr::Cast(c) => {
                let v = self.eval(&c.expr)?;
                let bits = 8 * self.ty_size(&c.ty)?;
                if v < 0 || v >> (bits - 1) != 0 && (v >> bits != 0 || crate::type_name(&c.ty).starts_with('i')) { None } else { Some(v) }
            }
            Expr::Path(p) => {
                let n = p.path.segments.last()?.ident.to_string();
                self.find_const(&n).and_then(|(e, c)| e.eval(&c.expr))
            }
            Expr::Binary(b) => {
                let (l, r) = (self.eval(&b.left)?, self.eval(&b.right)?);
                use syn::BinOp::*;
                Some(match b.op {
                    Add(_) => l.checked_add(r)?,
                    Sub(_) => l.checked_sub(r)?,
                    Mul(_) => l.checked_mul(r)?,
                    Div(_) => l.checked_div(r)?,
                    Rem(_) => l.checked_rem(r)?,
                    Shl(_) => l.checked_shl(r as u32)?,
                    Shr(_) => l.checked_shr(r as u32)?,
                    BitOr(_) => l | r,
                    BitAnd(_) => l & r,
                    BitXor(_) => l ^ r,
                    _ => return None,
                })
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = p.path.segments.last()?;
                    if s.ident == "size_of" {
                        if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                            if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                                return self.ty_size(t);
                            }
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }
    /// fold every constant subexpression of an array literal
    fn fold(&self, e: &Expr) -> Expr {
        if let Some(v) = self.eval(e) {
            let l = syn::LitInt::new(&v.to_string(), Span::call_site());
            return parse_quote!(#l);
        }
        if let Expr::Array(a) = e {
            let v: Vec<Expr> = a.elems.iter().map(|x| self.fold(x)).collect();
            return parse_quote!([#(#v),*]);
        }
        e.clone()
    }
}

// ---------------------------------------------------------------- helpers over function bodies

struct Bound(Vec<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let s = p.ident.to_string();
        // upper-case single idents in patterns are constants / unit variants
        if !s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) && !self.0.contains(&s) {
            self.0.push(s);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}

struct Renamer<'a>(&'a BTreeMap<String, String>);
impl<'a> Renamer<'a> {
    fn map(&self, i: &mut Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
        }
    }
    fn tokens(&self, ts: TokenStream) -> TokenStream {
        // identifiers inside macro arguments; skip after '.' or '::' or before '!'/':' ':'
        let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
        let mut out = vec![];
        let mut prev_dot = false;
        let mut range = false;
        for t in v {
            match t {
                proc_macro2::TokenTree::Ident(mut i) => {
                    if !prev_dot {
                        self.map(&mut i);
                    }
                    prev_dot = false;
                    out.push(proc_macro2::TokenTree::Ident(i));
                }
                proc_macro2::TokenTree::Group(g) => {
                    prev_dot = false;
                    out.push(proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream()))));
                }
                proc_macro2::TokenTree::Punct(p) => {
                    // (`..x` is a range, not a field)
                    prev_dot = p.as_char() == '.' && p.spacing() == proc_macro2::Spacing::Alone && !range || p.as_char() == ':';
                    range = p.as_char() == '.' && p.spacing() == proc_macro2::Spacing::Joint;
                    out.push(proc_macro2::TokenTree::Punct(p));
                }
                x => {
                    prev_dot = false;
                    out.push(x)
                }
            }
        }
        out.into_iter().collect()
    }
}
impl<'a> VisitMut for Renamer<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        self.map(&mut p.ident);
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            self.map(&mut p.path.segments[0].ident);
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            // shorthand  `offset,`  ->  `offset: renamed,`
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}

fn rename_block(b: &mut syn::Block, m: &BTreeMap<String, String>) {
    if !m.is_empty() {
        Renamer(m).visit_block_mut(b);
    }
}

struct SelfSubst(Expr);
impl SelfSubst {
    fn tokens(&self, ts: TokenStream) -> TokenStream {
        ts.into_iter()
            .flat_map(|t| -> TokenStream {
                match t {
                    proc_macro2::TokenTree::Ident(ref i) if i == "self" => self.0.to_token_stream(),
                    proc_macro2::TokenTree::Group(g) => {
                        proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream()))).into()
                    }
                    x => x.into(),
                }
            })
            .collect()
    }
}
impl VisitMut for SelfSubst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}

struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        if m.path.segments.last().map(|s| s.ident == "bail" || s.ident == "ensure").unwrap_or(false) {
            self.0 = true;
        }
    }
}
fn has_return(b: &syn::Block) -> bool {
    let mut h = HasReturn(false);
    h.visit_block(b);
    h.0
}
fn expr_has_return(b: &Expr) -> bool {
    let mut h = HasReturn(false);
    h.visit_expr(b);
    h.0
}

/// Turn `return`s in tail position into tail expressions, restructuring
/// `if c { .. return x; } rest` into `if c { .. x } else { rest }`.
fn structure_returns(b: &mut syn::Block) -> Result<(), String> {
    if !has_return(b) {
        return Ok(());
    }
    for k in 0..b.stmts.len() {
        let s = b.stmts[k].clone();
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                b.stmts.truncate(k);
                if let Some(e) = r.expr {
                    b.stmts.push(Stmt::Expr(*e, None));
                }
                return if has_return(b) { Err("nested return".into()) } else { Ok(()) };
            }
            Stmt::Expr(Expr::If(mut i), semi) if expr_has_return(&Expr::If(i.clone())) => {
                let rest: Vec<Stmt> = b.stmts[k + 1..].to_vec();
                if rest.is_empty() {
                    structure_returns(&mut i.then_branch)?;
                    if let Some((_, e)) = &mut i.else_branch {
                        if let Expr::Block(bb) = &mut **e {
                            structure_returns(&mut bb.block)?;
                        } else {
                            let inner = (**e).clone();
                            let mut nb: syn::Block = parse_quote!({ #inner });
                            structure_returns(&mut nb)?;
                            **e = parse_quote!(#nb);
                        }
                    }
                    b.stmts.truncate(k);
                    b.stmts.push(Stmt::Expr(Expr::If(i), None));
                    let _ = semi;
                    return Ok(());
                }
                let ends = matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
                if !ends || i.else_branch.is_some() {
                    return Err("return in a shape vx cannot inline".into());
                }
                structure_returns(&mut i.then_branch)?;
                let mut eb = syn::Block { brace_token: Default::default(), stmts: rest };
                structure_returns(&mut eb)?;
                i.else_branch = Some((Default::default(), Box::new(parse_quote!(#eb))));
                b.stmts.truncate(k);
                b.stmts.push(Stmt::Expr(Expr::If(i), None));
                return Ok(());
            }
            _ => {}
        }
    }
    // return inside loops etc.
    let mut bb = b.clone();
    if let Some(Stmt::Expr(e, _)) = bb.stmts.pop() {
        if has_return(&bb) || expr_has_return(&e) {
            return Err("return inside a loop or expression".into());
        }
    } else {
        return Err("return inside a statement".into());
    }
    Ok(())
}

struct Inliner<'a> {
    src: &'a Src,
    all: &'a BTreeMap<String, Src>,
    known: &'a BTreeSet<(String, String)>, // (file, key) having a contract
    file: &'a str,
    ty: Option<String>,
    depth: usize,
    n: &'a mut usize,
    log: &'a mut Vec<String>,
    err: Vec<String>,
    cfg: &'a Cfg,
    vars: BTreeMap<String, String>, // parameter -> type name
}

/// `X.as_ptr()` / `X.as_mut_ptr()`
fn ptr_of(e: &Expr) -> Option<(Expr, bool)> {
    match e {
        Expr::MethodCall(m) if m.args.is_empty() && (m.method == "as_ptr" || m.method == "as_mut_ptr") => Some(((*m.receiver).clone(), m.method == "as_mut_ptr")),
        Expr::Paren(p) => ptr_of(&p.expr),
        _ => None,
    }
}
/// `*(X.as_ptr() as *const [*const u8; N])`
fn ptr_array(e: &Expr) -> Option<(Expr, Expr)> {
    let u = match e {
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => &*u.expr,
        _ => return None,
    };
    let u = if let Expr::Paren(p) = u { &*p.expr } else { u };
    if let Expr::Cast(c) = u {
        if let (Some((x, false)), syn::Type::Ptr(t)) = (ptr_of(&c.expr), &*c.ty) {
            if let syn::Type::Array(a) = &*t.elem {
                if matches!(&*a.elem, syn::Type::Ptr(_)) {
                    return Some((x, a.len.clone()));
                }
            }
        }
    }
    None
}

struct Advance {
    x: syn::Ident,
    po: syn::Ident,
    bad: bool,
    found: bool,
}
impl Advance {
    fn is_x(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.is_ident(&self.x),
            Expr::Paren(p) => self.is_x(&p.expr),
            _ => false,
        }
    }
    fn tail(&self) -> Expr {
        let (x, po) = (&self.x, &self.po);
        parse_quote!(vx_tail_mut(&mut #x[..], #po))
    }
}
impl VisitMut for Advance {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Assign(a) = e {
            if self.is_x(&a.left) {
                if let Expr::Reference(r) = &*a.right {
                    if let Expr::Index(ix) = &*r.expr {
                        if let (true, Expr::Range(g)) = (self.is_x(&ix.expr), &*ix.index) {
                            if let (Some(n), None) = (&g.start, &g.end) {
                                let mut n = (**n).clone();
                                self.visit_expr_mut(&mut n);
                                let (x, po) = (self.x.clone(), self.po.clone());
                                *e = parse_quote!(#po = vx_advance(#po, #n, #x.len()));
                                self.found = true;
                                return;
                            }
                        }
                    }
                }
                self.bad = true;
            }
        }
        let rep = match e {
            Expr::MethodCall(m) if m.method == "len" && self.is_x(&m.receiver) => {
                let (x, po) = (&self.x, &self.po);
                Some(parse_quote!((#x.len() - #po)))
            }
            Expr::Reference(r) if r.mutability.is_some() => match &*r.expr {
                Expr::Index(ix) if self.is_x(&ix.expr) && matches!(&*ix.index, Expr::Range(g) if g.start.is_none() && g.end.is_none()) => Some(self.tail()),
                _ => None,
            },
            Expr::Path(_) if self.is_x(e) => Some(self.tail()),
            _ => None,
        };
        match rep {
            Some(r) => *e = r,
            None => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn bare_type(t: &syn::Type) -> String {
    match t {
        syn::Type::Reference(r) => bare_type(&r.elem),
        t => crate::type_name(t),
    }
}

impl<'a> Inliner<'a> {
    /// the nominal type of a place expression, when it is evident
    fn place_ty(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => {
                let i = p.path.get_ident()?.to_string();
                if i == "self" {
                    return self.ty.clone();
                }
                self.vars.get(&i).cloned()
            }
            Expr::Paren(p) => self.place_ty(&p.expr),
            Expr::Field(f) => {
                let b = self.place_ty(&f.base)?;
                let st = self.all.values().find_map(|s| s.structs.get(&b))?;
                let n = f.member.to_token_stream().to_string();
                st.fields.iter().find(|x| x.ident.as_ref().map(|i| *i == n).unwrap_or(false)).map(|x| bare_type(&x.ty))
            }
            _ => None,
        }
    }
    fn find_fn(&self, name: &str) -> Option<&'a SrcFn> {
        if self.known.contains(&(self.file.to_string(), name.to_string())) {
            return None;
        }
        self.src.fns.iter().find(|f| f.ty.is_none() && f.sig.ident == name)
    }
    fn find_method(&self, ty: &str, name: &str) -> Option<&'a SrcFn> {
        let f = self
            .all
            .values()
            .flat_map(|s| s.fns.iter())
            .find(|f| f.trait_.is_none() && f.ty.as_deref() == Some(ty) && f.sig.ident == name && f.sig.receiver().is_some())?;
        if self.known.iter().any(|(_, k)| *k == f.key()) {
            return None;
        }
        Some(f)
    }
    fn expand(&mut self, f: &SrcFn, recv: Option<Expr>, args: Vec<Expr>) -> Result<Expr, String> {
        if self.depth > 6 {
            return Err(format!("inlining {}: too deep (recursive helper?)", f.key()));
        }
        *self.n += 1;
        let id = *self.n;
        let mut block = f.block.clone();
        CfgStrip(self.cfg).visit_block_mut(&mut block);
        structure_returns(&mut block).map_err(|e| format!("inlining {}: {}", f.key(), e))?;
        // rename params and locals apart
        let mut b = Bound(vec![]);
        b.visit_block(&block);
        let mut map = BTreeMap::new();
        for x in b.0 {
            map.insert(x.clone(), format!("{}_i{}", x, id));
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut ai = 0;
        for inp in &f.sig.inputs {
            if let syn::FnArg::Typed(t) = inp {
                if let syn::Pat::Ident(p) = &*t.pat {
                    let nm = p.ident.to_string();
                    let nn = format_ident!("{}_i{}", nm, id);
                    map.insert(nm.clone(), nn.to_string());
                    let a = args.get(ai).ok_or("arity")?.clone();
                    let m = &p.mutability;
                    let ty = &t.ty;
                    let has_impl = ty.to_token_stream().to_string().contains("impl ");
                    let generic = f.sig.generics.type_params().any(|g| ty.to_token_stream().to_string().contains(&g.ident.to_string()));
                    if has_impl || generic || ty.to_token_stream().to_string() == "& str" {
                        lets.push(parse_quote!(let #m #nn = #a;));
                    } else {
                        lets.push(parse_quote!(let #m #nn : #ty = #a;));
                    }
                    ai += 1;
                } else {
                    return Err(format!("inlining {}: pattern parameter", f.key()));
                }
            }
        }
        rename_block(&mut block, &map);
        if let Some(r) = recv {
            SelfSubst(r).visit_block_mut(&mut block);
        }
        self.log.push(f.key());
        self.depth += 1;
        for inp in &f.sig.inputs {
            if let syn::FnArg::Typed(t) = inp {
                if let syn::Pat::Ident(p) = &*t.pat {
                    self.vars.insert(format!("{}_i{}", p.ident, id), bare_type(&t.ty));
                }
            }
        }
        self.visit_block_mut(&mut block);
        self.depth -= 1;
        let stmts = &block.stmts;
        if lets.is_empty() && stmts.len() == 1 {
            if let Stmt::Expr(e, None) = &stmts[0] {
                return Ok(parse_quote!((#e)));
            }
        }
        Ok(parse_quote!({ #(#lets)* #(#stmts)* }))
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    let f = if segs.len() == 1 {
                        self.find_fn(&segs[0])
                    } else if segs.len() == 2 && segs[0] == "crate" {
                        self.find_fn(&segs[1])
                    } else if segs.len() == 2 {
                        let t = if segs[0] == "Self" { self.ty.clone().unwrap_or_default() } else { segs[0].clone() };
                        let key = format!("{}::{}", t, segs[1]);
                        if self.known.iter().any(|(_, k)| *k == key) {
                            None
                        } else {
                            self.src.fns.iter().find(|f| f.trait_.is_none() && f.key() == key && f.sig.receiver().is_none())
                        }
                    } else {
                        None
                    };
                    if let Some(f) = f {
                        match self.expand(f, None, args) {
                            Ok(n) => *e = n,
                            Err(x) => self.err.push(x),
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                // only methods of a receiver whose type is evident are inlined
                if let Some(f) = self.place_ty(&m.receiver).and_then(|t| self.find_method(&t, &name)) {
                    if is_place(&m.receiver) {
                        let args: Vec<Expr> = m.args.iter().cloned().collect();
                        match self.expand(f, Some((*m.receiver).clone()), args) {
                            Ok(n) => *e = n,
                            Err(x) => self.err.push(x),
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- the main rewriting pass

struct Rewrite<'a> {
    ev: &'a Ev<'a>,
    flags: &'a BTreeSet<String>,
    av: BTreeSet<String>,
    ghosts: &'a BTreeMap<String, Vec<(String, String, String)>>,
    self_ty: Option<String>,
    world: &'a BTreeSet<String>,
    notes: Vec<String>,
    errs: Vec<String>,
    nfor: usize,
    exact_iters: BTreeMap<String, (String, String)>, // fused name -> (base iterator, elem len)
}

fn split_args(ts: TokenStream) -> Result<Vec<Expr>, String> {
    use syn::parse::Parser;
    syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated
        .parse2(ts)
        .map(|p| p.into_iter().collect())
        .map_err(|e| e.to_string())
}

fn lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(_))
}

impl<'a> Rewrite<'a> {
    fn is_av(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().map(|i| self.av.contains(&i.to_string())).unwrap_or(false),
            Expr::Field(f) => {
                if let syn::Member::Named(i) = &f.member {
                    self.av.contains(&i.to_string())
                } else {
                    false
                }
            }
            Expr::Paren(p) => self.is_av(&p.expr),
            _ => false,
        }
    }
    /// print!("lit {} lit", args) as a list of pieces, in order
    fn print_mac(&mut self, name: &str, args: &[Expr]) -> Option<Expr> {
        let nl = name.ends_with("ln");
        let err = name.starts_with('e');
        let mut pieces: Vec<Stmt> = vec![];
        let mut text = String::new();
        let mut ai = 1;
        let flush = |t: &mut String, p: &mut Vec<Stmt>| {
            if !t.is_empty() && !err {
                let l = syn::LitStr::new(t, Span::call_site());
                p.push(parse_quote!(vx_print_lit(vx_w, #l);));
            }
            t.clear();
        };
        if let Some(a) = args.first() {
            let f = match a {
                Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
                _ => {
                    self.errs.push(format!("{}! without a literal format", name));
                    return None;
                }
            };
            let mut it = f.chars().peekable();
            while let Some(c) = it.next() {
                if (c == '{' || c == '}') && it.peek() == Some(&c) {
                    it.next();
                    text.push(c);
                } else if c == '{' {
                    let mut inner = String::new();
                    loop {
                        match it.next() {
                            Some('}') => break,
                            Some(x) => inner.push(x),
                            None => {
                                self.errs.push("bad format string".into());
                                return None;
                            }
                        }
                    }
                    let e: Expr = if inner.is_empty() {
                        ai += 1;
                        args.get(ai - 1)?.clone()
                    } else if let Ok(i) = syn::parse_str::<Ident>(&inner) {
                        parse_quote!(#i)
                    } else {
                        self.errs.push(format!("{}! with the format {{{}}}", name, inner));
                        return None;
                    };
                    flush(&mut text, &mut pieces);
                    if err {
                        pieces.push(parse_quote!(vx_eprint(&#e);));
                    } else {
                        pieces.push(parse_quote!(vx_print(vx_w, &#e);));
                    }
                } else {
                    text.push(c);
                }
            }
        }
        if nl {
            text.push('\n');
        }
        flush(&mut text, &mut pieces);
        Some(parse_quote!({ #(#pieces)* }))
    }
    fn mac(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        let args = match split_args(m.tokens.clone()) {
            Ok(a) => a,
            Err(e) => {
                self.errs.push(format!("macro {}!: {}", name, e));
                return None;
            }
        };
        let mut out: Expr = match (name.as_str(), args.len()) {
            ("debug_assert" | "assert", n) if n >= 1 => {
                let c = &args[0];
                parse_quote!(vx_check(#c))
            }
            ("debug_assert_eq" | "assert_eq", n) if n >= 2 => {
                let (a, b) = (&args[0], &args[1]);
                parse_quote!(vx_check((#a) == (#b)))
            }
            ("debug_assert_ne" | "assert_ne", n) if n >= 2 => {
                let (a, b) = (&args[0], &args[1]);
                parse_quote!(vx_check((#a) != (#b)))
            }
            ("unreachable" | "panic" | "unimplemented" | "todo", _) => parse_quote!(vx_unreachable()),
            ("array_ref", 3) => {
                let (a, o, n) = (&args[0], &args[1], &args[2]);
                let n = self.ev.fold(n);
                parse_quote!(vx_array_ref::<{#n}>(&#a[..], #o))
            }
            ("array_mut_ref", 3) => {
                let (a, o, n) = (&args[0], &args[1], &args[2]);
                let n = self.ev.fold(n);
                parse_quote!(vx_array_mut_ref::<{#n}>(&mut #a[..], #o))
            }
            ("array_refs", n) if n >= 2 => {
                let a = &args[0];
                let mut off = 0i128;
                let mut parts: Vec<Expr> = vec![];
                for x in &args[1..] {
                    let v = match self.ev.eval(x) {
                        Some(v) => v,
                        None => {
                            self.errs.push("array_refs! with a non-constant length".into());
                            return None;
                        }
                    };
                    let (vl, ol) = (syn::LitInt::new(&v.to_string(), Span::call_site()), syn::LitInt::new(&off.to_string(), Span::call_site()));
                    parts.push(parse_quote!(vx_array_ref::<{#vl}>(&#a[..], #ol)));
                    off += v;
                }
                let ol = syn::LitInt::new(&off.to_string(), Span::call_site());
                parse_quote!({ vx_check((&#a[..]).len() == #ol); (#(#parts),*) })
            }
            ("mut_array_refs", n) if n >= 3 => {
                let a = &args[0];
                let f = format_ident!("vx_mut_array_refs{}", n - 1);
                let mut ls: Vec<Expr> = vec![];
                for x in &args[1..] {
                    let y = self.ev.fold(x);
                    ls.push(parse_quote!({#y}));
                }
                parse_quote!(#f::<#(#ls),*, _, _>(#a))
            }
            ("print" | "println" | "eprint" | "eprintln", _) if !self.world.is_empty() => self.print_mac(&name, &args)?,
            ("bail", _) if !self.world.is_empty() => parse_quote!(return Err(vx_error())),
            ("ensure", n) if n >= 1 && !self.world.is_empty() => {
                let c = &args[0];
                parse_quote!(if !(#c) { return Err(vx_error()); })
            }
            ("is_x86_feature_detected", 1) => {
                let f = args[0].to_token_stream().to_string().replace('"', "").replace('.', "_");
                let f = format_ident!("vx_detected_{}", f);
                parse_quote!(#f())
            }
            _ => {
                self.errs.push(format!("unsupported macro {}!", name));
                return None;
            }
        };
        self.visit_expr_mut(&mut out);
        Some(out)
    }
}

/// one of the sequences a `for` loop walks in lockstep
enum Stream {
    Iter(Expr),
    IterMut(Expr),
    ChunksMut(Expr, Expr),
    ExactMut(Expr, Expr),
    Other(Expr),
}
struct DerefSubst {
    name: String,
    with: Expr,
    bad: bool,
}
impl VisitMut for DerefSubst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, syn::UnOp::Deref(_)) {
                if let Expr::Path(p) = &*u.expr {
                    if p.path.is_ident(&self.name) {
                        *e = self.with.clone();
                        return;
                    }
                }
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.name) {
                self.bad = true;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn pure_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => pure_place(&f.base),
        Expr::Paren(p) => pure_place(&p.expr),
        _ => false,
    }
}
impl<'a> Rewrite<'a> {
    fn streams(e: &Expr, out: &mut Vec<Stream>) {
        if let Expr::MethodCall(m) = e {
            match (m.method.to_string().as_str(), m.args.len()) {
                ("zip", 1) => {
                    // (A, B) only: nested zips would nest the pattern
                    Self::streams(&m.receiver, out);
                    Self::streams(&m.args[0], out);
                    return;
                }
                ("iter", 0) if pure_place(&m.receiver) => {
                    out.push(Stream::Iter((*m.receiver).clone()));
                    return;
                }
                ("iter_mut", 0) if pure_place(&m.receiver) => {
                    out.push(Stream::IterMut((*m.receiver).clone()));
                    return;
                }
                ("chunks_mut", 1) if pure_place(&m.receiver) => {
                    out.push(Stream::ChunksMut((*m.receiver).clone(), m.args[0].clone()));
                    return;
                }
                ("chunks_exact_mut", 1) if pure_place(&m.receiver) => {
                    out.push(Stream::ExactMut((*m.receiver).clone(), m.args[0].clone()));
                    return;
                }
                _ => {}
            }
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() && pure_place(&r.expr) {
                out.push(Stream::Iter((*r.expr).clone()));
                return;
            }
        }
        out.push(Stream::Other(e.clone()));
    }
    /// `for (p, q) in a.zip(b)`, `for w in x.iter_mut()`, `for c in x.chunks_mut(n)`
    /// read as index loops over the same places
    fn lockstep(&mut self, f: &syn::ExprForLoop) -> Option<Expr> {
        let mut st = vec![];
        Self::streams(&f.expr, &mut st);
        let special = st.len() > 1 || matches!(st[0], Stream::Iter(_) | Stream::IterMut(_) | Stream::ChunksMut(_, _) | Stream::ExactMut(_, _));
        if !special {
            return None;
        }
        let pats: Vec<syn::Pat> = if st.len() == 1 {
            vec![(*f.pat).clone()]
        } else {
            match &*f.pat {
                syn::Pat::Tuple(t) if t.elems.len() == st.len() && st.len() == 2 => t.elems.iter().cloned().collect(),
                _ => {
                    self.errs.push("unsupported pattern over zip".into());
                    return None;
                }
            }
        };
        self.nfor += 1;
        let k = self.nfor;
        let ix = format_ident!("vx_ix{}", k);
        let cur = format_ident!("vx_i{}", k);
        let mut pre: Vec<Stmt> = vec![parse_quote!(let mut #ix: usize = 0;)];
        let mut head: Vec<Stmt> = vec![];
        let mut bind: Vec<Stmt> = vec![];
        let mut body = f.body.clone();
        for (j, (s, p)) in st.into_iter().zip(pats).enumerate() {
            match s {
                Stream::Iter(x) => {
                    head.push(parse_quote!(if #ix >= #x.len() { break; }));
                    // `&name` against `&x[i]` copies the element
                    if let syn::Pat::Reference(r) = p {
                        let q = &r.pat;
                        bind.push(parse_quote!(let #q = #x[#cur];));
                    } else {
                        bind.push(parse_quote!(let #p = &#x[#cur];));
                    }
                }
                Stream::IterMut(x) => {
                    head.push(parse_quote!(if #ix >= #x.len() { break; }));
                    let name = match &p {
                        syn::Pat::Ident(i) => i.ident.to_string(),
                        syn::Pat::Wild(_) => "_".into(),
                        _ => {
                            self.errs.push("unsupported pattern over iter_mut".into());
                            return None;
                        }
                    };
                    let mut d = DerefSubst { name, with: parse_quote!(#x[#cur]), bad: false };
                    d.visit_block_mut(&mut body);
                    if d.bad {
                        self.errs.push("an iter_mut element is used other than through `*`".into());
                        return None;
                    }
                }
                Stream::ChunksMut(x, n) => {
                    let (lo, hi) = (format_ident!("vx_lo{}_{}", k, j), format_ident!("vx_hi{}_{}", k, j));
                    pre.push(parse_quote!(let mut #lo: usize = 0;));
                    head.push(parse_quote!(if #lo >= #x.len() { break; }));
                    bind.push(parse_quote!(let #hi: usize = vx_chunk_end(#lo, #n, #x.len());));
                    bind.push(parse_quote!(let #p = vx_sub_mut(&mut #x[..], #lo, #hi);));
                    bind.push(parse_quote!(#lo = #hi;));
                }
                Stream::ExactMut(x, n) => {
                    let (lo, hi) = (format_ident!("vx_lo{}_{}", k, j), format_ident!("vx_hi{}_{}", k, j));
                    pre.push(parse_quote!(let mut #lo: usize = 0;));
                    head.push(parse_quote!(if #x.len() - #lo < #n { break; }));
                    bind.push(parse_quote!(let #hi: usize = #lo + #n;));
                    bind.push(parse_quote!(let #p = vx_sub_mut(&mut #x[..], #lo, #hi);));
                    bind.push(parse_quote!(#lo = #hi;));
                }
                Stream::Other(x) => {
                    let it = format_ident!("vx_it{}_{}", k, j);
                    pre.push(parse_quote!(let mut #it = #x;));
                    head.push(parse_quote!(let #p = match #it.next() { Some(vx_e) => vx_e, None => { break; } };));
                }
            }
        }
        self.notes.push("for loop over zip / iter_mut / chunks_mut read as an index loop over the same elements".into());
        let lab = &f.label;
        let stmts = &body.stmts;
        Some(parse_quote!({ #(#pre)* #lab loop { #(#head)* let #cur: usize = #ix; #ix += 1; #(#bind)* #(#stmts)* } }))
    }
}

impl<'a> VisitMut for Rewrite<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // record ArrayVec locals and fused chunk iterators first
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                if let (syn::Pat::Ident(p), Some(init)) = (&strip_ty(&l.pat), &l.init) {
                    let t = init.expr.to_token_stream().to_string().replace(' ', "");
                    if t.starts_with("ArrayVec::") {
                        self.av.insert(p.ident.to_string());
                    }
                    // let mut F = X.by_ref().map(|c| array_ref!(c, 0, N)).fuse();
                    if let Some((base, n)) = fused_pattern(&init.expr) {
                        self.exact_iters.insert(p.ident.to_string(), (base, n));
                        self.notes.push(format!("iterator adaptor chain bound to `{}` replaced by its element-wise meaning (vx_extend_chunks)", p.ident));
                        continue;
                    }
                }
            }
            keep.push(s);
        }
        b.stmts = keep;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.mac(&m.mac.clone()) {
                *s = Stmt::Expr(e, Some(Default::default()));
            }
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs.len() >= 2 && segs[segs.len() - 2] == "io" {
                let last = p.path.segments.last().unwrap().clone();
                if last.ident == "Result" {
                    if let syn::PathArguments::AngleBracketed(a) = &last.arguments {
                        let a = &a.args;
                        *t = parse_quote!(Result<#a, IoError>);
                        visit_mut::visit_type_mut(self, t);
                        return;
                    }
                }
            }
        }
        if let syn::Type::Path(p) = t {
            if !self.world.is_empty() && p.path.segments.len() == 1 && p.path.segments[0].ident == "Result" {
                // anyhow::Result<T>
                if let syn::PathArguments::AngleBracketed(a) = &mut p.path.segments[0].arguments {
                    if a.args.len() == 1 {
                        a.args.push(parse_quote!(IoError));
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
        if let syn::Type::Path(p) = t {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs.len() == 1 && self.flags.contains(&segs[0]) {
                *t = parse_quote!(u8);
                return;
            }
        }
        if let syn::Type::Array(a) = t {
            a.len = self.ev.fold(&a.len);
        }
        if let syn::Type::Ptr(p) = t {
            let el = &p.elem;
            *t = if p.mutability.is_some() { parse_quote!(&mut [#el]) } else { parse_quote!(&[#el]) };
        }
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        for s in p.segments.iter_mut() {
            if s.ident == "ArrayVec" {
                if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments {
                    if a.args.len() == 1 {
                        if let Some(syn::GenericArgument::Type(syn::Type::Array(arr))) = a.args.first().cloned() {
                            let (t, n) = (arr.elem, self.ev.fold(&arr.len));
                            a.args.clear();
                            a.args.push(syn::GenericArgument::Type(*t));
                            a.args.push(syn::GenericArgument::Const(parse_quote!({#n})));
                        }
                    }
                }
            }
        }
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() == 2 && self.flags.contains(&segs[0]) {
            let id = format_ident!("VXFLAG_{}_{}", segs[0], segs[1]);
            *p = parse_quote!(#id);
            return;
        }
        if segs.len() >= 2 && segs[0] == "arrayvec" {
            *p = parse_quote!(VxArray<Item = u8>);
            if segs[1] == "Array" {
                *p = parse_quote!(VxArray);
            }
            return;
        }
        if segs.len() >= 2 && segs[0] == "baokeshed" {
            let k = if segs[1] == "copy" && segs.len() > 2 { 2 } else { 1 };
            let l: syn::punctuated::Punctuated<syn::PathSegment, syn::Token![::]> = p.segments.iter().skip(k).cloned().collect();
            p.segments = l;
            visit_mut::visit_path_mut(self, p);
            return;
        }
        if segs.len() == 2 && segs[0] == "crate" {
            let l = p.segments.last().unwrap().clone();
            *p = parse_quote!(#l);
        }
        if segs.len() >= 2 {
            let k = segs.iter().position(|s| s == "io");
            if let Some(k) = k {
                if k + 1 < segs.len() {
                    let rest: Vec<String> = segs[k + 1..].to_vec();
                    let id = format_ident!("Io{}", rest[0]);
                    let tail: Vec<Ident> = rest[1..].iter().map(|s| format_ident!("{}", s)).collect();
                    *p = parse_quote!(#id #(::#tail)*);
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order rewrites
        let mut repl: Option<Expr> = None;
        match e {
            Expr::Macro(m) => {
                if let Some(n) = self.mac(&m.mac.clone()) {
                    *e = n;
                }
                return;
            }
            // raw pointers: the slice from the pointer to the end of its object
            Expr::Reference(r) if r.mutability.is_none() && ptr_array(&r.expr).is_some() => {
                let (x, n) = ptr_array(&r.expr).unwrap();
                let n = self.ev.fold(&n);
                *e = parse_quote!(&vx_input_ptrs::<{#n}, _>(#x));
            }
            Expr::Cast(c) if matches!(&*c.ty, syn::Type::Ptr(_)) => {
                *e = (*c.expr).clone();
                self.visit_expr_mut(e);
                return;
            }
            Expr::MethodCall(m) if m.method == "add" && m.args.len() == 1 => {
                let n = m.args[0].clone();
                *e = match ptr_of(&m.receiver) {
                    Some((x, true)) => parse_quote!(vx_tail_mut(&mut #x[..], #n)),
                    Some((x, false)) => parse_quote!(vx_tail(&#x[..], #n)),
                    None => {
                        let r = &m.receiver;
                        parse_quote!(vx_tail(#r, #n))
                    }
                };
            }
            Expr::MethodCall(m) if (m.method == "as_ptr" || m.method == "as_mut_ptr") && m.args.is_empty() => {
                let x = &m.receiver;
                *e = if m.method == "as_ptr" { parse_quote!(&#x[..]) } else { parse_quote!(&mut #x[..]) };
            }
            // the associated constant of arrayvec::Array
            Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[1].ident == "CAPACITY" => {
                let t = p.path.segments[0].ident.clone();
                *e = parse_quote!(#t::vx_cap());
            }
            Expr::Unsafe(u) => {
                let b = u.block.clone();
                *e = parse_quote!(#b);
            }
            Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map(|s| s.ident == "transmute" && s.arguments.is_empty()).unwrap_or(false)) => {
                let x = &c.args[0];
                *e = parse_quote!(vx_transmute(#x));
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs == ["join"] && c.args.len() == 2 {
                        if let (Expr::Closure(a), Expr::Closure(b)) = (&c.args[0], &c.args[1]) {
                            if a.inputs.is_empty() && b.inputs.is_empty() && !expr_has_return(&a.body) && !expr_has_return(&b.body) {
                                let (x, y) = (&a.body, &b.body);
                                let n: Expr = parse_quote!((#x, #y));
                                self.notes.push("join(|| A, || B) read as the pair (A, B): contract of `join`".into());
                                repl = Some(n);
                            }
                        }
                    }
                    let last = segs.last().cloned().unwrap_or_default();
                    if self.world.contains(&last) {
                        c.args.push(parse_quote!(vx_w));
                    }
                    if !self.world.is_empty() {
                        if last == "stdin" && (segs.len() == 1 || segs[segs.len() - 2] == "io") {
                            repl = Some(parse_quote!(vx_stdin(vx_w)));
                        } else if last == "exit" && segs.len() >= 2 && segs[segs.len() - 2] == "process" {
                            let a = &c.args[0];
                            repl = Some(parse_quote!(vx_exit(#a, vx_w)));
                        }
                    }
                    if last == "from" && segs.len() >= 2 && c.args.len() == 1 && self.ev.srcs.values().any(|s| s.structs.contains_key(&segs[segs.len() - 2])) {
                        let t = format_ident!("{}", segs[segs.len() - 2]);
                        let a = &c.args[0];
                        repl = Some(parse_quote!(VxInto::<#t>::vx_into(#a)));
                    }
                    if segs.len() == 2 && (last == "max_value" || last == "min_value") && c.args.is_empty() {
                        let (t, m) = (format_ident!("{}", segs[0]), format_ident!("{}", if last == "max_value" { "MAX" } else { "MIN" }));
                        repl = Some(parse_quote!(#t::#m));
                    } else if repl.is_some() {
                    } else if (last == "min" || last == "max") && c.args.len() == 2 && segs.len() <= 3 && (segs.len() == 1 || segs[segs.len() - 2] == "cmp") {
                        let f = format_ident!("vx_{}", last);
                        let args = &c.args;
                        repl = Some(parse_quote!(#f(#args)));
                    } else if segs.len() == 2 && segs[1] == "from_le_bytes" {
                        let mut t = segs[0].clone();
                        while let Some(a) = self.ev.order().find_map(|(_, s)| s.types.get(&t)) {
                            t = crate::type_name(&a.ty);
                        }
                        let f = format_ident!("vx_from_le_bytes_{}", t);
                        let args = &c.args;
                        repl = Some(parse_quote!(#f(#args)));
                    } else if segs.len() == 2 && self.flags.contains(&segs[0]) && segs[1] == "empty" {
                        repl = Some(parse_quote!(0u8));
                    } else if let Some(v) = if segs.last().map(|s| s == "size_of").unwrap_or(false) { self.ev.eval(e) } else { None } {
                        let l = syn::LitInt::new(&v.to_string(), Span::call_site());
                        repl = Some(parse_quote!(#l));
                    }
                }
                if let Some(n) = repl {
                    *e = n;
                }
            }
            Expr::Assign(a) => {
                if let Expr::Index(ix) = &*a.left {
                    if self.is_av(&ix.expr) {
                        let (b, i, r) = (&ix.expr, &ix.index, &a.right);
                        *e = parse_quote!(#b.vx_set(#i, #r));
                    }
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Index(ix) = &*r.expr {
                    if self.is_av(&ix.expr) {
                        let (b, i) = (&ix.expr, &ix.index);
                        *e = parse_quote!(#b.vx_at(#i));
                    }
                } else if self.is_av(&r.expr) {
                    let b = &r.expr;
                    *e = parse_quote!(#b.vx_slice());
                }
            }
            Expr::Index(ix) if self.is_av(&ix.expr) => {
                let (b, i) = (&ix.expr, &ix.index);
                *e = parse_quote!((*#b.vx_at(#i)));
            }
            _ => {}
        }
        if let Expr::ForLoop(f) = e {
            if let Some(n) = self.lockstep(f) {
                *e = n;
            }
        }
        if let Expr::ForLoop(f) = e {
            let range = matches!(&*f.expr, Expr::Range(_));
            if !range {
                self.nfor += 1;
                let it = format_ident!("vx_it{}", self.nfor);
                let (pat, ex, body) = (&f.pat, &f.expr, &f.body);
                let lab = &f.label;
                let stmts = &body.stmts;
                // `for p in &mut it` iterates the iterator itself
                let mut ex2: Expr = (**ex).clone();
                let mut pre: Option<Stmt> = None;
                let itx: Expr;
                if let Expr::Reference(r) = &ex2 {
                    if r.mutability.is_some() && is_place(&r.expr) {
                        itx = (*r.expr).clone();
                    } else {
                        pre = Some(parse_quote!(let mut #it = #ex2;));
                        itx = parse_quote!(#it);
                    }
                } else {
                    if let Expr::MethodCall(m) = &mut ex2 {
                        if m.method == "by_ref" {
                            itx = (*m.receiver).clone();
                        } else {
                            pre = Some(parse_quote!(let mut #it = #ex2;));
                            itx = parse_quote!(#it);
                        }
                    } else {
                        pre = Some(parse_quote!(let mut #it = #ex2;));
                        itx = parse_quote!(#it);
                    }
                }
                self.notes.push("for loop over an iterator desugared to loop/match next()".into());
                let lp: Expr = parse_quote!(#lab loop { match #itx.next() { Some(#pat) => { #(#stmts)* } None => { break; } } });
                *e = match pre {
                    Some(p) => parse_quote!({ #p #lp }),
                    None => lp,
                };
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // post-order rewrites
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            match (name.as_str(), m.args.len()) {
                ("bits", 0) => {
                    let r = &m.receiver;
                    *e = parse_quote!((#r));
                }
                ("min" | "max", 1) => {
                    let f = format_ident!("vx_{}", name);
                    let (r, a) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!(#f(#r, #a));
                }
                ("unwrap", 0) => {
                    if let Expr::MethodCall(t) = &*m.receiver {
                        if t.method == "try_into" && t.args.is_empty() {
                            let r = &t.receiver;
                            *e = if matches!(&**r, Expr::Index(_)) { parse_quote!(vx_to_array(&#r)) } else { parse_quote!(vx_to_array(#r)) };
                        }
                    }
                }
                ("into", 0) => m.method = format_ident!("vx_into"),
                ("to_le_bytes", 0) => m.method = format_ident!("vx_to_le_bytes"),
                ("chunks_exact", 1) => m.method = format_ident!("vx_chunks_exact"),
                ("extend", 1) if self.is_av(&m.receiver) => {
                    // A.extend(F.by_ref().take(N))
                    let mut done = None;
                    if let Expr::MethodCall(t) = &m.args[0] {
                        if t.method == "take" {
                            let mut inner = &*t.receiver;
                            if let Expr::MethodCall(b) = inner {
                                if b.method == "by_ref" {
                                    inner = &*b.receiver;
                                }
                            }
                            if let Expr::Path(p) = inner {
                                let id = p.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                                if let Some((base, n)) = self.exact_iters.get(&id) {
                                    let base: Expr = syn::parse_str(base).unwrap();
                                    let n: Expr = self.ev.fold(&syn::parse_str::<Expr>(n).unwrap());
                                    let av = &m.receiver;
                                    let k = &t.args[0];
                                    done = Some(parse_quote!(vx_extend_chunks::<{#n}, _>(&mut #av, &mut #base, #k)));
                                }
                            }
                        }
                    }
                    match done {
                        Some(d) => *e = d,
                        None => self.errs.push("unsupported ArrayVec::extend".into()),
                    }
                }
                _ => {}
            }
        }
        if let Expr::Struct(s) = e {
            let mut n = s.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
            if n == "Self" {
                n = self.self_ty.clone().unwrap_or_default();
            }
            if let Some(g) = self.ghosts.get(&n) {
                if s.rest.is_none() {
                    for (f, _, init) in g {
                        let f = format_ident!("{}", f);
                        let init: Expr = syn::parse_str(init).unwrap();
                        s.fields.push(parse_quote!(#f: #init));
                    }
                }
            }
        }
        let _ = lit;
    }
}

fn strip_ty(p: &syn::Pat) -> syn::Pat {
    if let syn::Pat::Type(t) = p {
        (*t.pat).clone()
    } else {
        p.clone()
    }
}

fn fused_pattern(e: &Expr) -> Option<(String, String)> {
    let mut e = e;
    if let Expr::MethodCall(m) = e {
        if m.method == "fuse" {
            e = &m.receiver;
        }
    }
    if let Expr::MethodCall(m) = e {
        if m.method == "map" {
            if let Expr::Closure(c) = &m.args[0] {
                let body = match &*c.body {
                    Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                        Stmt::Expr(e, None) => e.clone(),
                        Stmt::Macro(m) => Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() }),
                        _ => return None,
                    },
                    x => x.clone(),
                };
                if let Expr::Macro(mm) = &body {
                    if mm.mac.path.is_ident("array_ref") {
                        let a = split_args(mm.mac.tokens.clone()).ok()?;
                        let pn = c.inputs.first()?.to_token_stream().to_string();
                        if a.len() == 3 && a[0].to_token_stream().to_string() == pn && a[1].to_token_stream().to_string() == "0" {
                            let mut base = &*m.receiver;
                            if let Expr::MethodCall(b) = base {
                                if b.method == "by_ref" {
                                    base = &b.receiver;
                                }
                            }
                            return Some((base.to_token_stream().to_string(), a[2].to_token_stream().to_string()));
                        }
                    }
                }
            }
        }
    }
    None
}

// ---------------------------------------------------------------- hint placement

struct CallIn<'a> {
    name: &'a str,
    found: bool,
}
impl<'a, 'b> Visit<'b> for CallIn<'a> {
    fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let full = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            if full == self.name || p.path.segments.last().map(|s| s.ident == self.name).unwrap_or(false) {
                self.found = true;
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'b syn::ExprMethodCall) {
        if c.method == self.name {
            self.found = true;
        }
        syn::visit::visit_expr_method_call(self, c);
    }
    fn visit_block(&mut self, _: &'b syn::Block) {}
}

struct Placer {
    hints: Vec<(Anchor, usize, bool)>, // anchor, hint id, placed
    loops: usize,
    calls: BTreeMap<String, usize>,
    names: Vec<String>,
}

fn hint_stmt(id: usize) -> Stmt {
    let i = format_ident!("__vx_hint_{}", id);
    parse_quote!(#i;)
}

impl Placer {
    fn take(&mut self, a: &Anchor) -> Vec<Stmt> {
        let mut v = vec![];
        for h in self.hints.iter_mut() {
            if &h.0 == a {
                h.2 = true;
                v.push(hint_stmt(h.1));
            }
        }
        v
    }
    fn has(&self, a: &Anchor) -> bool {
        self.hints.iter().any(|h| &h.0 == a)
    }
    fn block(&mut self, b: &mut syn::Block, ret: bool) {
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        let mut out = vec![];
        for (k, mut s) in stmts.into_iter().enumerate() {
            let last = k + 1 == n;
            let mut before = vec![];
            let mut after = vec![];
            for nm in self.names.clone() {
                let mut c = CallIn { name: &nm, found: false };
                c.visit_stmt(&s);
                if c.found {
                    let cnt = self.calls.entry(nm.clone()).or_insert(0);
                    *cnt += 1;
                    let cnt = *cnt;
                    before.extend(self.take(&Anchor::BeforeCall(nm.clone(), cnt)));
                    after.extend(self.take(&Anchor::AfterCall(nm.clone(), cnt)));
                }
            }
            // loops directly at statement level
            let lp = matches!(&s, Stmt::Expr(Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_), _));
            if lp {
                let id = self.loops + 1;
                before.extend(self.take(&Anchor::BeforeLoop(id)));
                after.extend(self.take(&Anchor::AfterLoop(id)));
            }
            self.visit_stmt_mut(&mut s);
            out.extend(before);
            let is_tail = last && matches!(&s, Stmt::Expr(_, None));
            if !after.is_empty() && is_tail && !lp {
                if let Stmt::Expr(e, None) = s {
                    out.push(parse_quote!(let vx_tail = #e;));
                    out.extend(after);
                    out.push(Stmt::Expr(parse_quote!(vx_tail), None));
                }
            } else {
                out.push(s);
                out.extend(after);
            }
        }
        b.stmts = out;
        let _ = ret;
    }
    fn body(&mut self, b: &mut syn::Block) {
        self.loops += 1;
        let id = self.loops;
        self.block(b, false);
        let mut st = vec![];
        if self.has(&Anchor::LoopSpec(id)) {
            self.take(&Anchor::LoopSpec(id));
            let i = format_ident!("__vx_loop_{}", id);
            st.push(parse_quote!(#i;));
        }
        st.extend(self.take(&Anchor::LoopStart(id)));
        st.append(&mut b.stmts);
        let le = self.take(&Anchor::LoopEnd(id));
        if !le.is_empty() {
            if let Some(Stmt::Expr(e, None)) = st.last().cloned() {
                st.pop();
                st.push(Stmt::Expr(e, Some(Default::default())));
            }
        }
        st.extend(le);
        b.stmts = st;
    }
}
impl VisitMut for Placer {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        self.block(b, false);
    }
    fn visit_expr_while_mut(&mut self, e: &mut syn::ExprWhile) {
        self.body(&mut e.body);
    }
    fn visit_expr_loop_mut(&mut self, e: &mut syn::ExprLoop) {
        self.body(&mut e.body);
    }
    fn visit_expr_for_loop_mut(&mut self, e: &mut syn::ExprForLoop) {
        self.body(&mut e.body);
    }
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
    fn visit_expr_return_mut(&mut self, r: &mut syn::ExprReturn) {
        visit_mut::visit_expr_return_mut(self, r);
    }
}

struct ReturnHints(Vec<usize>);
impl VisitMut for ReturnHints {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Expr(Expr::Return(r), _) = &mut s {
                if let Some(e) = &r.expr {
                    out.push(parse_quote!(let vx_ret = #e;));
                    out.extend(self.0.iter().map(|i| hint_stmt(*i)));
                    out.push(parse_quote!(return vx_ret;));
                } else {
                    out.extend(self.0.iter().map(|i| hint_stmt(*i)));
                    out.push(s);
                }
                continue;
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        if let Expr::Return(_) = &*a.body {
            let e = a.body.clone();
            a.body = parse_quote!({ #e; });
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}

// ---------------------------------------------------------------- driver

pub fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

fn sig_types(f: &syn::Signature) -> String {
    let mut s = String::new();
    for i in &f.inputs {
        match i {
            syn::FnArg::Receiver(r) => s.push_str(&format!("self{}{};", r.reference.is_some(), r.mutability.is_some())),
            syn::FnArg::Typed(t) => s.push_str(&format!("{};", t.ty.to_token_stream())),
        }
    }
    s.push_str(&f.output.to_token_stream().to_string());
    s
}

fn similarity(a: &str, b: &str) -> f64 {
    let x: Vec<&str> = a.split_whitespace().collect();
    let y: Vec<&str> = b.split_whitespace().collect();
    let mut m: BTreeMap<&str, i32> = BTreeMap::new();
    for t in &x {
        *m.entry(t).or_insert(0) += 1;
    }
    let mut c = 0;
    for t in &y {
        let e = m.entry(t).or_insert(0);
        if *e > 0 {
            *e -= 1;
            c += 1;
        }
    }
    2.0 * c as f64 / (x.len() + y.len()).max(1) as f64
}

pub fn generate(ov: &Overlay, srcs: &BTreeMap<String, Src>, cfg: &Cfg, o: &mut Out, rep: &mut Report, ovdir: &Path) {
    let ev = Ev { srcs, first: "" };
    // baseline shapes: key -> (params, locals, loops, sigtypes, body)
    let base_path = ovdir.join("baseline.json");
    let mut base: serde_json::Value = std::fs::read_to_string(&base_path)
        .ok()
        .and_then(|t| serde_json::from_str(&t).ok())
        .unwrap_or(serde_json::json!({}));
    let write_base = std::env::var("VX_WRITE_BASELINE").is_ok();

    let mut flagset = BTreeSet::new();
    for s in srcs.values() {
        for k in s.flags.keys() {
            flagset.insert(k.clone());
        }
    }
    let mut ghosts: BTreeMap<String, Vec<(String, String, String)>> = BTreeMap::new();
    // functions of the source that read or write the outside world get it as a last parameter
    let mut world: BTreeSet<String> = BTreeSet::new();
    for e in &ov.entries {
        if let Entry::World(w) = e {
            world.extend(w.iter().cloned());
        }
    }
    for e in &ov.entries {
        if let Entry::GhostField(s, f, t, i) = e {
            ghosts.entry(s.clone()).or_default().push((f.clone(), t.clone(), i.clone()));
        }
    }
    // known functions (with a contract), and renamed ones
    let mut known: BTreeSet<(String, String)> = BTreeSet::new();
    let mut alias: BTreeMap<(String, String), String> = BTreeMap::new(); // overlay key -> source key
    let mut name_back: BTreeMap<String, String> = BTreeMap::new(); // source ident -> overlay ident
    for f in ov.fns() {
        known.insert((f.file.clone(), f.key.clone()));
    }
    for f in ov.fns() {
        let s = &srcs[&f.file];
        if s.fns.iter().any(|x| x.key() == f.key) {
            continue;
        }
        let b = &base[format!("{}#{}", f.file, f.key)];
        let ty = f.key.rsplit_once("::").map(|x| x.0.to_string());
        let mut best: Option<(f64, &SrcFn)> = None;
        for x in &s.fns {
            if x.ty != ty || known.contains(&(f.file.clone(), x.key())) {
                continue;
            }
            if Some(sig_types(&x.sig).as_str()) != b["sig"].as_str() {
                continue;
            }
            let sim = similarity(&x.block.to_token_stream().to_string(), b["body"].as_str().unwrap_or(""));
            if sim > 0.6 && best.as_ref().map(|y| sim > y.0).unwrap_or(true) {
                best = Some((sim, x));
            }
        }
        if let Some((_, x)) = best {
            rep.notes.push(format!("{} taken to be the renamed {}", x.key(), f.key));
            alias.insert((f.file.clone(), f.key.clone()), x.key());
            let on = f.key.rsplit("::").next().unwrap().to_string();
            name_back.insert(x.sig.ident.to_string(), on);
        }
    }
    for ((file, _), v) in &alias {
        known.insert((file.clone(), v.clone()));
    }

    for e in &ov.entries {
        match e {
            Entry::Text(t) => o.push(t),
            Entry::Include(f) => match std::fs::read_to_string(ovdir.join(f)) {
                Ok(t) => {
                    let start = o.line();
                    o.push(&t);
                    let end = o.line();
                    o.ranges.push(Range { name: format!("<{}>", f), file: f.clone(), src_line: 0, start, end, dropped: vec![], loops: 0, shape_changed: false, external: false, hash: String::new() });
                }
                Err(e) => rep.lost.push(format!("include {}: {}", f, e)),
            },
            Entry::GhostField(..) | Entry::World(..) => {}
            Entry::Const(file, n, spec) => match srcs[file].consts.get(n) {
                None => rep.lost.push(format!("const {} in {}", n, file)),
                Some(c) => {
                    let ev = Ev { srcs, first: file };
                    let mut rw = Rewrite { ev: &ev, flags: &flagset, av: Default::default(), ghosts: &ghosts, self_ty: None, world: &world, notes: vec![], errs: vec![], nfor: 0, exact_iters: Default::default() };
                    let mut ty = (*c.ty).clone();
                    rw.visit_type_mut(&mut ty);
                    let v = ev.fold(&c.expr);
                    let id = &c.ident;
                    match spec {
                        None => o.push(&printer::print(quote!(pub const #id: #ty = #v;))),
                        Some(sp) => {
                            o.push(&format!("pub exec const {}: {}\n{}\n{{", id, printer::print(ty.to_token_stream()), sp));
                            let elems = v.to_token_stream();
                            o.push(&printer::print(quote!(let vx_c: #ty = #elems; )));
                            o.push("proof { vx_const_hint(); }\nvx_c\n}");
                        }
                    }
                }
            },
            Entry::Type(file, n) => match srcs[file].types.get(n) {
                None => rep.lost.push(format!("type {} in {}", n, file)),
                Some(c) => {
                    let (id, ty) = (&c.ident, &c.ty);
                    o.push(&printer::print(quote!(pub type #id = #ty;)));
                }
            },
            Entry::Flags(file, n) => match srcs[file].flags.get(n) {
                None => rep.lost.push(format!("bitflags {} in {}", n, file)),
                Some((_, v)) => {
                    for (k, x) in v {
                        match ev.eval(x) {
                            Some(val) => o.push(&format!("pub const VXFLAG_{}_{}: u8 = {};", n, k, val)),
                            None => rep.lost.push(format!("flag value {}", k)),
                        }
                    }
                }
            },
            Entry::Struct(file, n, attrs) => match srcs[file].structs.get(n) {
                None => rep.lost.push(format!("struct {} in {}", n, file)),
                Some(c) => {
                    let mut c = c.clone();
                    let mut rw = Rewrite { ev: &ev, flags: &flagset, av: Default::default(), ghosts: &ghosts, self_ty: None, world: &world, notes: vec![], errs: vec![], nfor: 0, exact_iters: Default::default() };
                    c.attrs.clear();
                    c.vis = parse_quote!(pub);
                    for f in c.fields.iter_mut() {
                        f.attrs.clear();
                        f.vis = parse_quote!(pub);
                        rw.visit_type_mut(&mut f.ty);
                    }
                    if let syn::Fields::Named(nf) = &mut c.fields {
                        for (g, t, _) in ghosts.get(n).into_iter().flatten() {
                            let g = format_ident!("{}", g);
                            let t: syn::Type = syn::parse_str(t).unwrap();
                            nf.named.push(syn::Field { attrs: vec![], vis: parse_quote!(pub), mutability: syn::FieldMutability::None, ident: Some(g), colon_token: Some(Default::default()), ty: t });
                        }
                    }
                    o.push(attrs);
                    o.push(&printer::print(c.to_token_stream()));
                }
            },
            Entry::Enum(file, n, attrs) => match srcs[file].enums.get(n) {
                None => rep.lost.push(format!("enum {} in {}", n, file)),
                Some(c) => {
                    let mut c = c.clone();
                    c.attrs.clear();
                    c.vis = parse_quote!(pub);
                    c.variants = c.variants.into_iter().filter(|v| cfg.enabled(&v.attrs)).map(|mut v| { v.attrs.clear(); v }).collect();
                    o.push(attrs);
                    o.push(&printer::print(c.to_token_stream()));
                }
            },
            Entry::Fn(f) => {
                let skey = alias.get(&(f.file.clone(), f.key.clone())).cloned().unwrap_or(f.key.clone());
                let src = &srcs[&f.file];
                let sf = match src.fns.iter().find(|x| x.key() == skey) {
                    Some(x) => x,
                    None => {
                        rep.lost.push(format!("fn {} in {}", f.key, f.file));
                        continue;
                    }
                };
                let bkey = format!("{}#{}", f.file, f.key);
                emit_fn(f, sf, src, srcs, cfg, &Ev { srcs, first: &f.file }, &flagset, &ghosts, &world, &known, &name_back, &mut base, &bkey, write_base, o, rep);
            }
        }
    }
    if write_base {
        std::fs::write(&base_path, serde_json::to_string_pretty(&base).unwrap()).unwrap();
    }
}

const PROBE: &str = "{ proof { assert(false); } vx_diverge() }\n";

#[allow(clippy::too_many_arguments)]
struct LoopCount<'a> {
    ev: &'a Ev<'a>,
    all: u64,
    constant: u64,
    unroll: bool,
}
impl<'a> LoopCount<'a> {
    fn range(&self, f: &syn::ExprForLoop) -> Option<(Ident, i128, i128)> {
        struct Jumps(bool);
        impl<'b> Visit<'b> for Jumps {
            fn visit_expr_break(&mut self, _: &'b syn::ExprBreak) {
                self.0 = true;
            }
            fn visit_expr_continue(&mut self, _: &'b syn::ExprContinue) {
                self.0 = true;
            }
        }
        let id = match &*f.pat {
            syn::Pat::Ident(p) if p.mutability.is_none() && p.by_ref.is_none() => p.ident.clone(),
            syn::Pat::Wild(_) => format_ident!("_vx_wild"),
            _ => return None,
        };
        let (l, h) = match &*f.expr {
            Expr::Range(r) => match (&r.start, &r.end, &r.limits) {
                (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) => (self.ev.eval(a)?, self.ev.eval(b)?),
                (Some(a), Some(b), _) => (self.ev.eval(a)?, self.ev.eval(b)? + 1),
                _ => return None,
            },
            _ => return None,
        };
        let mut j = Jumps(false);
        j.visit_block(&f.body);
        if j.0 || f.label.is_some() || l < 0 || h - l > 32 { None } else { Some((id, l, h)) }
    }
}
impl<'a> VisitMut for LoopCount<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.unroll {
            if let Expr::ForLoop(f) = e {
                if let Some((id, l, h)) = self.range(f) {
                    let body = &f.body.stmts;
                    let copies = (l..h).map(|k| {
                        let k = syn::LitInt::new(&k.to_string(), Span::call_site());
                        quote!({ let #id = #k; #(#body)* })
                    });
                    *e = syn::parse2(quote!({ #(#copies)* })).unwrap();
                }
            }
            return;
        }
        match e {
            Expr::ForLoop(f) => {
                self.all += 1;
                if self.range(f).is_some() {
                    self.constant += 1;
                }
            }
            Expr::While(_) | Expr::Loop(_) => self.all += 1,
            _ => {}
        }
    }
}

fn emit_fn(
    f: &FnOv, sf: &SrcFn, src: &Src, srcs: &BTreeMap<String, Src>, cfg: &Cfg, ev: &Ev, flagset: &BTreeSet<String>,
    ghosts: &BTreeMap<String, Vec<(String, String, String)>>, world: &BTreeSet<String>, known: &BTreeSet<(String, String)>, name_back: &BTreeMap<String, String>,
    base: &mut serde_json::Value, bkey: &str, write_base: bool, o: &mut Out, rep: &mut Report,
) {
    let mut block = sf.block.clone();
    let mut sig = sf.sig.clone();
    CfgStrip(cfg).visit_block_mut(&mut block);
    let raw_body = block.to_token_stream().to_string();
    // 1. inline helpers without a contract
    let mut n = 0;
    let bare_ty = f.key.rsplit_once("::").map(|x| x.0.split('@').next().unwrap().to_string());
    let mut vars: BTreeMap<String, String> = BTreeMap::new();
    for i in &sig.inputs {
        if let syn::FnArg::Typed(t) = i {
            if let syn::Pat::Ident(p) = &*t.pat {
                vars.insert(p.ident.to_string(), bare_type(&t.ty));
            }
        }
    }
    let mut inl = Inliner { src, all: srcs, known, file: &f.file, ty: bare_ty.clone(), depth: 0, n: &mut n, log: &mut rep.inlined, err: vec![], cfg, vars };
    inl.visit_block_mut(&mut block);
    let mut errs = inl.err;
    // loops the contracts do not know, over a constant range: unrolled
    let mut lc = LoopCount { ev, all: 0, constant: 0, unroll: false };
    lc.visit_block_mut(&mut block);
    if !write_base {
        if let Some(b) = base[bkey]["rawloops"].as_u64() {
            if lc.all > b && lc.constant == lc.all - b {
                lc.unroll = true;
                lc.visit_block_mut(&mut block);
            }
        }
    }
    let rawloops = lc.all;
    // 2. canonical parameter and local names
    let params: Vec<String> = sig
        .inputs
        .iter()
        .filter_map(|i| if let syn::FnArg::Typed(t) = i { if let syn::Pat::Ident(p) = &*t.pat { Some(p.ident.to_string()) } else { None } } else { None })
        .collect();
    let mut bnd = Bound(vec![]);
    bnd.visit_block(&block);
    let locals = bnd.0;
    if write_base {
        base[bkey] = serde_json::json!({"params": params, "locals": locals, "sig": sig_types(&sf.sig), "body": raw_body, "loops": 0, "rawloops": rawloops});
    }
    let strs = |v: &serde_json::Value| -> Vec<String> { v.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default() };
    let (bp, bl) = (strs(&base[bkey]["params"]), strs(&base[bkey]["locals"]));
    let mut ren: BTreeMap<String, String> = BTreeMap::new();
    if bp.len() == params.len() {
        for (a, b) in params.iter().zip(&bp) {
            if a != b {
                ren.insert(a.clone(), b.clone());
            }
        }
    }
    let bonly: Vec<&String> = bl.iter().filter(|x| !locals.contains(x) && !params.contains(x)).collect();
    let conly: Vec<&String> = locals.iter().filter(|x| !bl.contains(x) && !bp.contains(x)).collect();
    if bonly.len() == conly.len() {
        for (a, b) in conly.iter().zip(&bonly) {
            ren.insert((*a).clone(), (*b).clone());
        }
    }
    rename_block(&mut block, &ren);
    for i in sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(t) = i {
            if let syn::Pat::Ident(p) = &mut *t.pat {
                if let Some(n) = ren.get(&p.ident.to_string()) {
                    p.ident = format_ident!("{}", n);
                }
            }
        }
    }
    // renamed functions: call sites use the overlay's name
    if !name_back.is_empty() {
        struct CallBack<'a>(&'a BTreeMap<String, String>);
        impl<'a> VisitMut for CallBack<'a> {
            fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
                visit_mut::visit_expr_call_mut(self, c);
                if let Expr::Path(p) = &mut *c.func {
                    if let Some(s) = p.path.segments.last_mut() {
                        if let Some(n) = self.0.get(&s.ident.to_string()) {
                            s.ident = format_ident!("{}", n);
                        }
                    }
                }
            }
            fn visit_expr_method_call_mut(&mut self, c: &mut syn::ExprMethodCall) {
                visit_mut::visit_expr_method_call_mut(self, c);
                if let Some(n) = self.0.get(&c.method.to_string()) {
                    c.method = format_ident!("{}", n);
                }
            }
        }
        CallBack(name_back).visit_block_mut(&mut block);
        if let Some(n) = name_back.get(&sig.ident.to_string()) {
            sig.ident = format_ident!("{}", n);
        }
    }
    // `mut self` by value: bind it
    if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            SelfSubst(parse_quote!(vx_self)).visit_block_mut(&mut block);
            block.stmts.insert(0, parse_quote!(let mut vx_self = self;));
        }
    }
    // 3. rewriting
    let mut av: BTreeSet<String> = BTreeSet::new();
    for s in srcs.values() {
        av.extend(s.avfields.iter().cloned());
    }
    let mut rw = Rewrite { ev, flags: flagset, av, ghosts, self_ty: bare_ty.clone(), world, notes: vec![], errs: vec![], nfor: 0, exact_iters: Default::default() };
    rw.visit_block_mut(&mut block);
    rw.visit_signature_mut(&mut sig);
    // `mut x: &mut [T]` that only moves forward (`x = &mut x[n..]`): the whole slice and a position in it
    for i in sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(t) = i {
            let sl = matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some() && matches!(&*r.elem, syn::Type::Slice(_)));
            if let (true, syn::Pat::Ident(p)) = (sl, &mut *t.pat) {
                if p.mutability.is_none() {
                    continue;
                }
                let mut a = Advance { x: p.ident.clone(), po: format_ident!("vx_po_{}", p.ident), bad: false, found: false };
                let mut b = block.clone();
                a.visit_block_mut(&mut b);
                if a.found && !a.bad {
                    p.mutability = None;
                    let po = &a.po;
                    b.stmts.insert(0, parse_quote!(let mut #po: usize = 0;));
                    block = b;
                }
            }
        }
    }
    if !f.used && world.contains(&sig.ident.to_string()) {
        sig.inputs.push(parse_quote!(vx_w: &mut World));
    }
    errs.append(&mut rw.errs);
    if f.external {
        errs.clear();
    }
    for x in rw.notes {
        if !rep.notes.contains(&x) {
            rep.notes.push(x)
        }
    }
    // methods of trait impls become inherent; Self is spelled out when renamed to a free function
    let free = f.rename.as_ref().map(|r| r.starts_with("fn:")).unwrap_or(false);
    if let Some(r) = &f.rename {
        sig.ident = format_ident!("{}", r.trim_start_matches("fn:"));
    }
    if free {
        if let Some(t) = &sf.self_ty {
            struct S(syn::Type);
            impl VisitMut for S {
                fn visit_type_mut(&mut self, t: &mut syn::Type) {
                    if t.to_token_stream().to_string() == "Self" {
                        *t = self.0.clone();
                    } else {
                        visit_mut::visit_type_mut(self, t);
                    }
                }
                fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
                    if p.path.is_ident("Self") {
                        if let syn::Type::Path(t) = &self.0 {
                            p.path = t.path.clone();
                        }
                    }
                }
            }
            let mut s = S(t.clone());
            s.visit_block_mut(&mut block);
            s.visit_signature_mut(&mut sig);
            rw = Rewrite { ev, flags: flagset, av: Default::default(), ghosts, self_ty: None, world, notes: vec![], errs: vec![], nfor: 0, exact_iters: Default::default() };
            rw.visit_signature_mut(&mut sig);
        }
    }
    // 4. hints
    let names: Vec<String> = {
        let mut v = vec![];
        for (a, _) in &f.hints {
            if let Anchor::BeforeCall(n, _) | Anchor::AfterCall(n, _) = a {
                if !v.contains(n) {
                    v.push(n.clone())
                }
            }
        }
        v
    };
    let mut pl = Placer { hints: f.hints.iter().enumerate().map(|(i, h)| (h.0.clone(), i, false)).collect(), loops: 0, calls: Default::default(), names };
    pl.visit_block_mut(&mut block);
    let rh: Vec<usize> = pl.hints.iter().filter(|h| h.0 == Anchor::Return).map(|h| h.1).collect();
    let eh: Vec<usize> = pl.hints.iter().filter(|h| h.0 == Anchor::Return || h.0 == Anchor::End).map(|h| h.1).collect();
    if !rh.is_empty() {
        ReturnHints(rh).visit_block_mut(&mut block);
    }
    if !eh.is_empty() {
        match block.stmts.last().cloned() {
            Some(Stmt::Expr(Expr::Loop(_), None)) => {}
            Some(Stmt::Expr(Expr::Return(_), _)) => {}
            Some(Stmt::Expr(e, None)) => {
                block.stmts.pop();
                block.stmts.push(parse_quote!(let vx_ret = #e;));
                block.stmts.extend(eh.iter().map(|i| hint_stmt(*i)));
                block.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
            }
            _ => block.stmts.extend(eh.iter().map(|i| hint_stmt(*i))),
        }
    }
    let sh = pl.take(&Anchor::Start);
    block.stmts.splice(0..0, sh);
    let dropped: Vec<String> = pl
        .hints
        .iter()
        .filter(|h| !h.2 && !matches!(h.0, Anchor::Return | Anchor::End))
        .map(|h| format!("{:?}", h.0))
        .collect();
    if write_base {
        base[bkey]["loops"] = serde_json::json!(pl.loops);
    }
    let mut shape_changed = base[bkey]["loops"].as_u64().map(|l| l as usize != pl.loops).unwrap_or(false) || !dropped.is_empty();
    if f.used {
        shape_changed = false;
    }
    if !errs.is_empty() {
        shape_changed = true;
        rep.lost.push(format!("fn {}: {}", f.key, errs.join("; ")));
    }
    // 5. print
    let mut text = printer::print(block.to_token_stream());
    for (i, h) in f.hints.iter().enumerate() {
        match &h.0 {
            Anchor::LoopSpec(k) => {
                let pat = format!("{{\n__vx_loop_{} ;", k);
                text = text.replace(&pat, &format!("\n{}{{", h.1));
            }
            _ => {
                let pat = format!("__vx_hint_{} ;", i);
                text = text.replace(&pat, &format!("\n{}", h.1));
            }
        }
    }
    for (a, b) in &f.subst {
        if !text.contains(a.as_str()) {
            rep.notes.push(format!("fn {}: subst {:?} not found", f.key, a));
        }
        text = text.replace(a.as_str(), b);
    }
    if o.probe && !f.external {
        // the precondition alone must not prove false
        text = PROBE.to_string();
        o.probes += 1;
    }
    let (id, gen, inputs) = (&sig.ident, &sig.generics, &sig.inputs);
    let wh = printer::print(sig.generics.where_clause.to_token_stream());
    let ret = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => match &f.ret {
            Some(r) => format!("-> ({}: {})", r, printer::print(t.to_token_stream())),
            None => format!("-> {}", printer::print(t.to_token_stream())),
        },
    };
    let (ig, _, _) = gen.split_for_impl();
    let in_impl = bare_ty.is_some() && !free;
    let start = o.line();
    if let Some(m) = &f.mod_ {
        o.push(&format!("pub mod {} {{ use super::*; verus! {{", m));
    }
    if in_impl {
        o.push(&format!("impl {} {{", bare_ty.as_ref().unwrap()));
    }
    if f.external {
        o.push("#[verifier::external_body]");
    }
    if !f.attrs.is_empty() {
        o.push(&f.attrs);
    }
    o.push(&format!("pub fn {}{}({}) {}", id, printer::print(ig.to_token_stream()), printer::print(inputs.to_token_stream()), ret));
    if !wh.trim().is_empty() {
        let w = wh.trim().trim_end_matches(',').to_string();
        o.push(&format!("{},", w));
    }
    o.push(&f.spec);
    o.push(if f.external { "{ unimplemented!() }" } else { &text });
    if in_impl {
        o.push("}");
    }
    if f.mod_.is_some() {
        o.push("} }");
    }
    let end = o.line();
    o.ranges.push(Range { name: if f.used { format!("<used {}>", f.key) } else { f.key.clone() }, file: f.file.clone(), src_line: sf.line, start, end, dropped, loops: pl.loops, shape_changed, external: f.external, hash: fnv(&raw_body) });
}
