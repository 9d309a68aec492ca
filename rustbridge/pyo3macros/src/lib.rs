//! A stand-in for the attribute macros of pyo3 (which is not installed in
//! this sandbox).  It supports what a small extension module needs:
//! #[pyfunction], #[pyo3(signature = (...))], #[pyclass] on structs and
//! field-less enums, #[pymethods] with #[new] / #[getter] / plain methods,
//! #[pymodule] with #[pymodule_export].
use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote};
use std::collections::HashMap;
use syn::*;

fn is_pyo3_attr(a: &Attribute) -> bool {
    ["pyo3", "new", "getter", "setter", "staticmethod", "classattr", "pymodule_export", "pyfunction"]
        .iter()
        .any(|n| a.path().is_ident(n))
}

/// defaults from #[pyo3(signature = (a, b=1))]
fn defaults(attrs: &[Attribute]) -> HashMap<String, Expr> {
    let mut out = HashMap::new();
    for a in attrs {
        if !a.path().is_ident("pyo3") {
            continue;
        }
        let _ = a.parse_nested_meta(|m| {
            let v: Expr = m.value()?.parse()?;
            if m.path.is_ident("signature") {
                let elems: Vec<Expr> = match v {
                    Expr::Tuple(t) => t.elems.into_iter().collect(),
                    Expr::Paren(p) => vec![*p.expr],
                    _ => vec![],
                };
                for e in elems {
                    if let Expr::Assign(asg) = e {
                        if let Expr::Path(p) = &*asg.left {
                            if let Some(id) = p.path.get_ident() {
                                out.insert(id.to_string(), (*asg.right).clone());
                            }
                        }
                    }
                }
            }
            Ok(())
        });
    }
    out
}

struct Sig {
    names: Vec<String>,
    has_default: Vec<bool>,
    lets: Vec<TS>,
    args: Vec<TS>,
}

fn build_sig(inputs: &punctuated::Punctuated<FnArg, Token![,]>, attrs: &[Attribute]) -> Sig {
    let defs = defaults(attrs);
    let mut s = Sig { names: vec![], has_default: vec![], lets: vec![], args: vec![] };
    let mut i = 0usize;
    for inp in inputs {
        let FnArg::Typed(pt) = inp else { continue };
        let name = match &*pt.pat {
            Pat::Ident(p) => p.ident.to_string(),
            _ => format!("arg{i}"),
        };
        let var = format_ident!("__a{}", i);
        let (owned, pass): (TS, TS) = match &*pt.ty {
            Type::Reference(r) => {
                let inner = &r.elem;
                (
                    quote! { <#inner as ::std::borrow::ToOwned>::Owned },
                    quote! { ::core::borrow::Borrow::<#inner>::borrow(&#var) },
                )
            }
            t => (quote! { #t }, quote! { #var }),
        };
        let missing = match defs.get(&name) {
            Some(e) => quote! { { let __d: #owned = #e; __d } },
            None => quote! { return Err(::pyo3::PyErr::new("TypeError", format!("missing argument {}", #name))) },
        };
        s.lets.push(quote! {
            let #var: #owned = match __args.get(#i) {
                Some(::pyo3::Value::Missing) | None => #missing,
                Some(v) => <#owned as ::pyo3::FromVal>::from_val(v)?,
            };
        });
        s.args.push(pass);
        s.has_default.push(defs.contains_key(&name));
        s.names.push(name);
        i += 1;
    }
    s
}

#[proc_macro_attribute]
pub fn pyfunction(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    let sig = build_sig(&f.sig.inputs, &f.attrs);
    f.attrs.retain(|a| !is_pyo3_attr(a));
    let name = f.sig.ident.clone();
    let sname = name.to_string();
    let tramp = format_ident!("__pyo3mini_tramp_{}", name);
    let Sig { names, has_default, lets, args } = sig;
    let vis = &f.vis;
    quote! {
        #f

        #[doc(hidden)]
        #[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery)]
        #vis fn #tramp(__args: &[::pyo3::Value]) -> ::core::result::Result<::pyo3::Value, ::pyo3::PyErr> {
            #(#lets)*
            ::pyo3::IntoRet::into_ret(#name(#(#args),*))
        }

        #[doc(hidden)]
        #[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery)]
        #vis mod #name {
            pub fn __pyo3mini_item() -> ::pyo3::Item {
                ::pyo3::Item::Func(::pyo3::FnDef {
                    name: #sname,
                    kind: "func",
                    params: vec![#((#names, #has_default)),*],
                    call: super::#tramp,
                })
            }
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn pyclass(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let item = parse_macro_input!(item as Item);
    match item {
        Item::Enum(e) => {
            let name = &e.ident;
            let sname = name.to_string();
            let vars: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
            let svars: Vec<_> = vars.iter().map(|v| v.to_string()).collect();
            quote! {
                #e

                #[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery)]
                impl #name {
                    #[doc(hidden)]
                    pub fn __pyo3mini_item() -> ::pyo3::Item {
                        ::pyo3::Item::Enum(#sname, vec![#(#svars),*])
                    }
                }
                #[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery)]
                impl ::pyo3::IntoVal for #name {
                    fn into_val(self) -> ::pyo3::Value {
                        let n = match self { #(#name::#vars => #svars,)* };
                        ::pyo3::Value::Enum(#sname.to_string(), n.to_string())
                    }
                }
                #[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery)]
                impl ::pyo3::FromVal for #name {
                    fn from_val(v: &::pyo3::Value) -> ::core::result::Result<Self, ::pyo3::PyErr> {
                        if let ::pyo3::Value::Enum(c, n) = v {
                            if c == #sname {
                                match n.as_str() { #(#svars => return Ok(#name::#vars),)* _ => {} }
                            }
                        }
                        Err(::pyo3::PyErr::new("TypeError", format!("expected {}", #sname)))
                    }
                }
            }
            .into()
        }
        Item::Struct(s) => {
            let name = &s.ident;
            let sname = name.to_string();
            quote! {
                #s

                #[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery)]
                impl #name {
                    #[doc(hidden)]
                    pub fn __pyo3mini_item() -> ::pyo3::Item {
                        use ::pyo3::DefaultMethods as _;
                        ::pyo3::Item::Class(#sname, #name::__pyo3mini_methods())
                    }
                }
                #[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery)]
                impl ::pyo3::IntoVal for #name {
                    fn into_val(self) -> ::pyo3::Value {
                        ::pyo3::store(#sname, ::std::boxed::Box::new(self))
                    }
                }
            }
            .into()
        }
        other => quote! { #other }.into(),
    }
}

#[proc_macro_attribute]
pub fn pymethods(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut im = parse_macro_input!(item as ItemImpl);
    let ty = im.self_ty.clone();
    let mut tramps = vec![];
    let mut defs = vec![];
    for it in &mut im.items {
        let ImplItem::Fn(f) = it else { continue };
        let kind = if f.attrs.iter().any(|a| a.path().is_ident("new")) {
            "new"
        } else if f.attrs.iter().any(|a| a.path().is_ident("getter")) {
            "getter"
        } else if f.attrs.iter().any(|a| a.path().is_ident("staticmethod")) {
            "static"
        } else {
            "method"
        };
        let Sig { names, has_default, lets, args } = build_sig(&f.sig.inputs, &f.attrs);
        f.attrs.retain(|a| !is_pyo3_attr(a));
        let name = f.sig.ident.clone();
        let sname = name.to_string();
        let tramp = format_ident!("__pyo3mini_tramp_{}", name);
        let has_self = matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_)));
        let body = if has_self {
            quote! {
                let (__h, __args) = ::pyo3::split_self(__args)?;
                #(#lets)*
                ::pyo3::with_obj::<#ty, _>(__h, |__s| ::pyo3::IntoRet::into_ret(__s.#name(#(#args),*)))
            }
        } else {
            quote! {
                #(#lets)*
                ::pyo3::IntoRet::into_ret(<#ty>::#name(#(#args),*))
            }
        };
        tramps.push(quote! {
            #[doc(hidden)]
            fn #tramp(__args: &[::pyo3::Value]) -> ::core::result::Result<::pyo3::Value, ::pyo3::PyErr> { #body }
        });
        defs.push(quote! {
            ::pyo3::FnDef { name: #sname, kind: #kind,
                params: vec![#((#names, #has_default)),*], call: <#ty>::#tramp }
        });
    }
    quote! {
        #im

        #[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery)]
        impl #ty {
            #(#tramps)*
            #[doc(hidden)]
            pub fn __pyo3mini_methods() -> ::std::vec::Vec<::pyo3::FnDef> { vec![#(#defs),*] }
        }
    }
    .into()
}

fn leaves(t: &UseTree, out: &mut Vec<Ident>) {
    match t {
        UseTree::Path(p) => leaves(&p.tree, out),
        UseTree::Name(n) => out.push(n.ident.clone()),
        UseTree::Rename(r) => out.push(r.rename.clone()),
        UseTree::Group(g) => g.items.iter().for_each(|t| leaves(t, out)),
        UseTree::Glob(_) => {}
    }
}

#[proc_macro_attribute]
pub fn pymodule(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut m = parse_macro_input!(item as ItemMod);
    let mut names = vec![];
    if let Some((_, items)) = &mut m.content {
        for it in items.iter_mut() {
            if let Item::Use(u) = it {
                if u.attrs.iter().any(|a| a.path().is_ident("pymodule_export")) {
                    u.attrs.retain(|a| !a.path().is_ident("pymodule_export"));
                    leaves(&u.tree, &mut names);
                }
            } else if let Item::Fn(f) = it {
                if f.attrs.iter().any(|a| a.path().is_ident("pyfunction")) {
                    names.push(f.sig.ident.clone());
                }
            }
        }
    }
    let content = m.content.map(|c| c.1).unwrap_or_default();
    let vis = m.vis;
    let ident = m.ident;
    let attrs = m.attrs;
    let f = |what: &str| format_ident!("bbs_{}_{}", ident, what);
    let (init, describe, call, free) = (f("init"), f("describe"), f("call"), f("free"));
    quote! {
        #(#attrs)*
        #[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery)]
        #vis mod #ident {
            #(#content)*

            fn __items() -> ::std::vec::Vec<::pyo3::Item> {
                vec![#(#names::__pyo3mini_item()),*]
            }

            #[unsafe(no_mangle)]
            pub extern "C" fn #init() { ::pyo3::register(__items()); }
            #[unsafe(no_mangle)]
            pub unsafe extern "C" fn #describe(n: *mut usize) -> *mut u8 { unsafe { ::pyo3::describe(n) } }
            #[unsafe(no_mangle)]
            pub unsafe extern "C" fn #call(p: *const u8, l: usize, n: *mut usize) -> *mut u8 { unsafe { ::pyo3::call(p, l, n) } }
            #[unsafe(no_mangle)]
            pub unsafe extern "C" fn #free(p: *mut u8, l: usize) { unsafe { ::pyo3::free(p, l) } }
        }
    }
    .into()
}
