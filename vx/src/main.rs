//! vx: mechanical extraction of real Rust functions into a Verus file.
//!
//! usage: vx OVERLAY REPO OUT.rs OUT.json [--cfg k=v | --cfg k]...
//!
//! The overlay names the items to extract (file by file) and carries the
//! contracts, loop invariants and proof hints that are spliced in.  The
//! executable text always comes from REPO's current sources.  What the
//! extraction changes or drops is listed in /verif/DESIGN.md section "vx".
mod overlay;
mod printer;
mod xform;

use overlay::*;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub struct SrcFn {
    pub ty: Option<String>,
    pub trait_: Option<String>,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub impl_generics: syn::Generics,
    pub self_ty: Option<syn::Type>,
    pub trait_path: Option<syn::Path>,
    pub line: usize,
}

impl SrcFn {
    pub fn key(&self) -> String {
        match &self.ty {
            Some(t) => format!("{}::{}", t, self.sig.ident),
            None => self.sig.ident.to_string(),
        }
    }
}

#[derive(Default)]
pub struct Src {
    pub fns: Vec<SrcFn>,
    pub consts: BTreeMap<String, syn::ItemConst>,
    pub types: BTreeMap<String, syn::ItemType>,
    pub structs: BTreeMap<String, syn::ItemStruct>,
    pub enums: BTreeMap<String, syn::ItemEnum>,
    pub flags: BTreeMap<String, (syn::Type, Vec<(String, syn::Expr)>)>,
    pub avfields: BTreeSet<String>,
}

pub struct Report {
    pub lost: Vec<String>,
    pub notes: Vec<String>,
    pub inlined: Vec<String>,
}

fn collect(items: &[syn::Item], cfg: &xform::Cfg, src: &mut Src) {
    for it in items {
        if !cfg.enabled(xform::item_attrs(it)) {
            continue;
        }
        match it {
            syn::Item::Fn(f) => src.fns.push(SrcFn {
                ty: None,
                trait_: None,
                sig: f.sig.clone(),
                block: (*f.block).clone(),
                impl_generics: Default::default(),
                self_ty: None,
                trait_path: None,
                line: f.sig.ident.span().start().line,
            }),
            syn::Item::Const(c) => {
                src.consts.insert(c.ident.to_string(), c.clone());
            }
            syn::Item::Type(c) => {
                src.types.insert(c.ident.to_string(), c.clone());
            }
            syn::Item::Struct(c) => {
                for f in &c.fields {
                    if f.ty.to_token_stream().to_string().starts_with("ArrayVec") {
                        if let Some(i) = &f.ident {
                            src.avfields.insert(i.to_string());
                        }
                    }
                }
                src.structs.insert(c.ident.to_string(), c.clone());
            }
            syn::Item::Enum(c) => {
                src.enums.insert(c.ident.to_string(), c.clone());
            }
            syn::Item::Impl(im) => {
                let ty = type_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|t| t.1.to_token_stream().to_string().replace(' ', ""));
                for ii in &im.items {
                    match ii {
                        syn::ImplItem::Fn(f) if cfg.enabled(&f.attrs) => src.fns.push(SrcFn {
                            ty: Some(match &tr {
                                Some(t) => format!("{}@{}", ty, t),
                                None => ty.clone(),
                            }),
                            trait_: tr.clone(),
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                            impl_generics: im.generics.clone(),
                            self_ty: Some((*im.self_ty).clone()),
                            trait_path: im.trait_.as_ref().map(|t| t.1.clone()),
                            line: f.sig.ident.span().start().line,
                        }),
                        _ => {}
                    }
                }
            }
            syn::Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    collect(its, cfg, src);
                }
            }
            syn::Item::Macro(m) => {
                let name = m.mac.path.to_token_stream().to_string().replace(' ', "");
                if name == "bitflags::bitflags" || name == "bitflags" {
                    if let Some((n, t, v)) = xform::parse_bitflags(m.mac.tokens.clone()) {
                        src.flags.insert(n, (t, v));
                    }
                }
            }
            _ => {}
        }
    }
}

pub fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        t => t.to_token_stream().to_string().replace(' ', ""),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (ovp, repo, out, outj) = (&a[1], &a[2], &a[3], &a[4]);
    let mut cfg = xform::Cfg::default();
    let mut stubs: BTreeSet<String> = BTreeSet::new();
    let mut probe = false;
    let mut i = 5;
    while i < a.len() {
        if a[i] == "--cfg" {
            let v = &a[i + 1];
            match v.split_once('=') {
                Some((k, x)) => {
                    cfg.kv.insert((k.to_string(), x.to_string()));
                }
                None => {
                    cfg.names.insert(v.to_string());
                }
            }
            i += 2;
        } else if a[i] == "--probe" {
            // vacuity guard: assert(false) at every function and loop entry; each one has to fail
            probe = true;
            i += 1;
        } else if a[i] == "--stub" {
            // keep the contract, drop the body: the function is then assumed, and reported as such
            stubs.insert(a[i + 1].clone());
            i += 2;
        } else {
            panic!("bad arg {}", a[i]);
        }
    }
    let mut ov = parse_overlay(Path::new(ovp), &|c: &str| match c.split_once('=') {
        Some((k, x)) => cfg.kv.contains(&(k.to_string(), x.to_string())),
        None => cfg.names.contains(c),
    }).unwrap_or_else(|e| {
        eprintln!("overlay error: {}", e);
        std::process::exit(3)
    });
    for e in ov.entries.iter_mut() {
        if let Entry::Fn(f) = e {
            if stubs.contains(&f.key) {
                f.external = true;
            }
        }
    }
    let mut rep = Report { lost: vec![], notes: vec![], inlined: vec![] };
    let mut srcs: BTreeMap<String, Src> = BTreeMap::new();
    for f in ov.files() {
        let mut s = Src::default();
        match std::fs::read_to_string(Path::new(repo).join(&f)) {
            Err(e) => rep.lost.push(format!("{}: {}", f, e)),
            Ok(text) => match syn::parse_file(&text) {
                Err(e) => rep.lost.push(format!("{}: does not parse: {}", f, e)),
                Ok(ast) => collect(&ast.items, &cfg, &mut s),
            },
        }
        srcs.insert(f, s);
    }
    let mut o = printer::Out::new();
    o.probe = probe;
    xform::generate(&ov, &srcs, &cfg, &mut o, &mut rep, Path::new(ovp).parent().unwrap());
    std::fs::write(out, &o.text).unwrap();
    let fns: Vec<serde_json::Value> = o
        .ranges
        .iter()
        .map(|r| {
            serde_json::json!({"name": r.name, "file": r.file, "src_line": r.src_line, "start": r.start, "end": r.end,
            "dropped_hints": r.dropped, "loops": r.loops, "shape_changed": r.shape_changed, "external": r.external, "hash": r.hash})
        })
        .collect();
    let j = serde_json::json!({"functions": fns, "lost": rep.lost, "probes": o.probes, "notes": rep.notes, "inlined": rep.inlined});
    std::fs::write(outj, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
