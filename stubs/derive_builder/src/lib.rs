//! Offline stand-in for `derive_builder`: `#[derive(Builder)]`.
use proc_macro::TokenStream;
use proc_macro2::{Span, TokenStream as TokenStream2};
use quote::{format_ident, quote};
use syn::{
    parse_macro_input, spanned::Spanned, Attribute, Data, DeriveInput, Expr, ExprLit, Fields,
    Ident, Lit, Meta, Path, Token,
};

#[derive(Clone, Copy, PartialEq)]
enum Pattern {
    Owned,
    Mutable,
    Immutable,
}

#[derive(Clone, Default)]
struct SetterCfg {
    skip: bool,
    into: bool,
    strip_option: bool,
    prefix: Option<Ident>,
    name: Option<Ident>,
}

type Metas = syn::punctuated::Punctuated<Meta, Token![,]>;

fn lit_str(e: &Expr) -> Option<syn::LitStr> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.clone()),
        _ => None,
    }
}
fn expr_of(e: &Expr) -> syn::Result<Expr> {
    match lit_str(e) {
        Some(s) => s.parse(),
        None => Ok(e.clone()),
    }
}
fn ident_of(e: &Expr) -> syn::Result<Ident> {
    match lit_str(e) {
        Some(s) => s.parse(),
        None => Err(syn::Error::new(e.span(), "expected a string")),
    }
}
fn path_of(e: &Expr) -> syn::Result<Path> {
    match lit_str(e) {
        Some(s) => s.parse(),
        None => match e {
            Expr::Path(p) => Ok(p.path.clone()),
            _ => Err(syn::Error::new(e.span(), "expected a path")),
        },
    }
}
fn flag(m: &Meta) -> bool {
    match m {
        Meta::Path(_) => true,
        Meta::NameValue(nv) => match &nv.value {
            Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => b.value,
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value() == "true",
            _ => true,
        },
        Meta::List(_) => true,
    }
}

fn parse_setter(m: &Meta, out: &mut SetterCfg) -> syn::Result<()> {
    let Meta::List(l) = m else {
        if let Meta::NameValue(nv) = m {
            if let Some(s) = lit_str(&nv.value) {
                out.name = Some(s.parse()?);
            }
        }
        return Ok(());
    };
    for m in l.parse_args_with(Metas::parse_terminated)? {
        let p = m.path().clone();
        if p.is_ident("custom") || p.is_ident("skip") {
            out.skip = flag(&m);
        } else if p.is_ident("into") {
            out.into = flag(&m);
        } else if p.is_ident("strip_option") {
            out.strip_option = flag(&m);
        } else if let Meta::NameValue(nv) = &m {
            if p.is_ident("prefix") {
                out.prefix = Some(ident_of(&nv.value)?);
            } else if p.is_ident("name") {
                out.name = Some(ident_of(&nv.value)?);
            } else {
                return Err(syn::Error::new(p.span(), "stand-in derive_builder: unknown setter option"));
            }
        } else {
            return Err(syn::Error::new(p.span(), "stand-in derive_builder: unknown setter option"));
        }
    }
    Ok(())
}

fn pattern_of(e: &Expr) -> syn::Result<Pattern> {
    match lit_str(e).map(|s| s.value()).as_deref() {
        Some("owned") => Ok(Pattern::Owned),
        Some("mutable") => Ok(Pattern::Mutable),
        Some("immutable") => Ok(Pattern::Immutable),
        _ => Err(syn::Error::new(e.span(), "unknown pattern")),
    }
}

fn builder_metas(attrs: &[Attribute]) -> syn::Result<Vec<Meta>> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("builder") {
            out.extend(a.parse_args_with(Metas::parse_terminated)?);
        }
    }
    Ok(out)
}

fn inner_of_option(ty: &syn::Type) -> Option<syn::Type> {
    if let syn::Type::Path(p) = ty {
        let last = p.path.segments.last()?;
        if last.ident == "Option" {
            if let syn::PathArguments::AngleBracketed(a) = &last.arguments {
                if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                    return Some(t.clone());
                }
            }
        }
    }
    None
}

#[proc_macro_derive(Builder, attributes(builder, builder_field_attr, builder_setter_attr, builder_struct_attr, builder_impl_attr))]
pub fn derive_builder(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    match imp(input) {
        Ok(t) => t.into(),
        Err(e) => e.to_compile_error().into(),
    }
}

fn imp(input: DeriveInput) -> syn::Result<TokenStream2> {
    let name = &input.ident;
    let mut vis = input.vis.clone();
    let mut builder_name = format_ident!("{}Builder", name);
    let mut pattern = Pattern::Mutable;
    let mut derives: Vec<Path> = vec![];
    let mut validate: Option<Path> = None;
    let mut build_name = Ident::new("build", Span::call_site());
    let mut build_skip = false;
    let mut build_private = false;
    let mut error_ty: Option<Path> = None;
    let mut struct_default: Option<Option<Expr>> = None;
    let mut setter_default = SetterCfg::default();

    for m in builder_metas(&input.attrs)? {
        let p = m.path().clone();
        if p.is_ident("pattern") {
            if let Meta::NameValue(nv) = &m {
                pattern = pattern_of(&nv.value)?;
            }
        } else if p.is_ident("derive") {
            if let Meta::List(l) = &m {
                derives.extend(l.parse_args_with(
                    syn::punctuated::Punctuated::<Path, Token![,]>::parse_terminated,
                )?);
            }
        } else if p.is_ident("name") {
            if let Meta::NameValue(nv) = &m {
                builder_name = ident_of(&nv.value)?;
            }
        } else if p.is_ident("private") {
            vis = syn::Visibility::Inherited;
        } else if p.is_ident("public") {
            vis = syn::parse_quote!(pub);
        } else if p.is_ident("default") {
            struct_default = Some(match &m {
                Meta::NameValue(nv) => Some(expr_of(&nv.value)?),
                _ => None,
            });
        } else if p.is_ident("setter") {
            parse_setter(&m, &mut setter_default)?;
        } else if p.is_ident("build_fn") {
            if let Meta::List(l) = &m {
                for m in l.parse_args_with(Metas::parse_terminated)? {
                    let p = m.path().clone();
                    match &m {
                        Meta::NameValue(nv) if p.is_ident("validate") => {
                            validate = Some(path_of(&nv.value)?)
                        }
                        Meta::NameValue(nv) if p.is_ident("name") => {
                            build_name = ident_of(&nv.value)?
                        }
                        Meta::NameValue(nv) if p.is_ident("error") => {
                            error_ty = Some(path_of(&nv.value)?)
                        }
                        _ if p.is_ident("skip") => build_skip = flag(&m),
                        _ if p.is_ident("private") => build_private = flag(&m),
                        _ => {
                            return Err(syn::Error::new(
                                p.span(),
                                "stand-in derive_builder: unknown build_fn option",
                            ))
                        }
                    }
                }
            }
        } else {
            return Err(syn::Error::new(
                p.span(),
                "stand-in derive_builder: unknown builder option",
            ));
        }
    }

    let Data::Struct(data) = &input.data else {
        return Err(syn::Error::new(name.span(), "Builder supports structs only"));
    };
    let Fields::Named(fields) = &data.fields else {
        return Err(syn::Error::new(name.span(), "Builder needs named fields"));
    };

    let mut f_decl = vec![];
    let mut f_none = vec![];
    let mut f_setter = vec![];
    let mut f_build = vec![];
    for f in &fields.named {
        let id = f.ident.clone().unwrap();
        let ty = &f.ty;
        let docs: Vec<&Attribute> = f
            .attrs
            .iter()
            .filter(|a| a.path().is_ident("doc") || a.path().is_ident("cfg"))
            .collect();
        let mut s = setter_default.clone();
        let mut default: Option<Option<Expr>> = None;
        let mut fpat = pattern;
        let mut fvis = vis.clone();
        for m in builder_metas(&f.attrs)? {
            let p = m.path().clone();
            if p.is_ident("default") {
                default = Some(match &m {
                    Meta::NameValue(nv) => Some(expr_of(&nv.value)?),
                    _ => None,
                });
            } else if p.is_ident("setter") {
                parse_setter(&m, &mut s)?;
            } else if p.is_ident("pattern") {
                if let Meta::NameValue(nv) = &m {
                    fpat = pattern_of(&nv.value)?;
                }
            } else if p.is_ident("private") {
                fvis = syn::Visibility::Inherited;
            } else if p.is_ident("public") {
                fvis = syn::parse_quote!(pub);
            } else {
                return Err(syn::Error::new(
                    p.span(),
                    "stand-in derive_builder: unknown field option",
                ));
            }
        }
        f_decl.push(quote! { #id: ::std::option::Option<#ty>, });
        f_none.push(quote! { #id: ::std::option::Option::None, });
        if !s.skip {
            let sname = s.name.clone().unwrap_or_else(|| match &s.prefix {
                Some(p) => format_ident!("{}_{}", p, id),
                None => id.clone(),
            });
            let (arg_ty, wrap) = match (s.strip_option, inner_of_option(ty)) {
                (true, Some(inner)) => (inner, true),
                _ => (ty.clone(), false),
            };
            let (gen, argt, conv) = if s.into {
                (
                    quote! { <VALUE: ::std::convert::Into<#arg_ty>> },
                    quote! { VALUE },
                    quote! { ::std::convert::Into::into(value) },
                )
            } else {
                (quote! {}, quote! { #arg_ty }, quote! { value })
            };
            let val = if wrap {
                quote! { ::std::option::Option::Some(#conv) }
            } else {
                conv
            };
            f_setter.push(match fpat {
                Pattern::Owned => quote! {
                    #(#docs)*
                    #[allow(unused_mut)]
                    #fvis fn #sname #gen (self, value: #argt) -> Self {
                        let mut new = self;
                        new.#id = ::std::option::Option::Some(#val);
                        new
                    }
                },
                Pattern::Mutable => quote! {
                    #(#docs)*
                    #[allow(unused_mut)]
                    #fvis fn #sname #gen (&mut self, value: #argt) -> &mut Self {
                        let mut new = self;
                        new.#id = ::std::option::Option::Some(#val);
                        new
                    }
                },
                Pattern::Immutable => quote! {
                    #(#docs)*
                    #[allow(unused_mut)]
                    #fvis fn #sname #gen (&self, value: #argt) -> Self {
                        let mut new = ::std::clone::Clone::clone(self);
                        new.#id = ::std::option::Option::Some(#val);
                        new
                    }
                },
            });
        }
        let missing = match (&default, &struct_default) {
            (Some(Some(e)), _) => quote! { { #e } },
            (Some(None), _) => quote! { ::std::default::Default::default() },
            (None, Some(_)) => quote! { __default.#id },
            (None, None) => {
                let lit = id.to_string();
                match &error_ty {
                    None => quote! {
                        return ::std::result::Result::Err(__Err::UninitializedField(#lit))
                    },
                    Some(_) => quote! {
                        return ::std::result::Result::Err(::std::convert::Into::into(
                            ::std::format!("`{}` must be initialized", #lit)))
                    },
                }
            }
        };
        let take = match pattern {
            Pattern::Owned => quote! { self.#id },
            _ => quote! { ::std::clone::Clone::clone(&self.#id) },
        };
        f_build.push(quote! {
            #id: match #take {
                ::std::option::Option::Some(v) => v,
                ::std::option::Option::None => #missing,
            },
        });
    }

    let (ig, tg, wc) = input.generics.split_for_impl();
    let clone_derive = if pattern == Pattern::Owned {
        quote! {}
    } else {
        quote! { #[derive(::std::clone::Clone)] }
    };
    let err_name = format_ident!("{}Error", builder_name);
    let err_def = if error_ty.is_some() || build_skip {
        quote! {}
    } else {
        let disp_doc = format!("Error type for {builder_name}");
        quote! {
            #[doc = #disp_doc]
            #[derive(Debug)]
            #[non_exhaustive]
            #vis enum #err_name {
                /// Uninitialized field
                UninitializedField(&'static str),
                /// Custom validation error
                ValidationError(::std::string::String),
            }
            impl ::std::convert::From<::std::string::String> for #err_name {
                fn from(s: ::std::string::String) -> Self { Self::ValidationError(s) }
            }
            impl ::std::fmt::Display for #err_name {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    match self {
                        Self::UninitializedField(n) => write!(f, "`{}` must be initialized", n),
                        Self::ValidationError(e) => write!(f, "{}", e),
                    }
                }
            }
            impl ::std::error::Error for #err_name {}
        }
    };
    let err_ty = match &error_ty {
        Some(p) => quote! { #p },
        None => quote! { #err_name },
    };
    let err_alias = if error_ty.is_none() {
        quote! { use #err_name as __Err; }
    } else {
        quote! {}
    };
    let self_arg = if pattern == Pattern::Owned {
        quote! { self }
    } else {
        quote! { &self }
    };
    let do_validate = validate.map(|p| quote! { #p(&self)?; });
    let default_stmt = struct_default.map(|d| {
        let e = match d {
            Some(e) => quote! { #e },
            None => quote! { ::std::default::Default::default() },
        };
        quote! { let __default: #name #tg = #e; }
    });
    let build_vis = if build_private {
        syn::Visibility::Inherited
    } else {
        vis.clone()
    };
    let build_fn = if build_skip {
        quote! {}
    } else {
        quote! {
            /// Builds a new value.
            #[allow(unused_imports, clippy::all)]
            #build_vis fn #build_name(#self_arg) -> ::std::result::Result<#name #tg, #err_ty> {
                #err_alias
                #do_validate
                #default_stmt
                ::std::result::Result::Ok(#name { #(#f_build)* })
            }
        }
    };
    let doc = format!("Builder for {name}");
    let generics = &input.generics;
    Ok(quote! {
        #[doc = #doc]
        #clone_derive
        #[derive(#(#derives),*)]
        #vis struct #builder_name #generics #wc { #(#f_decl)* }

        #[allow(dead_code, clippy::all)]
        impl #ig #builder_name #tg #wc {
            #(#f_setter)*
            #build_fn
        }

        impl #ig ::std::default::Default for #builder_name #tg #wc {
            fn default() -> Self { Self { #(#f_none)* } }
        }

        #err_def
    })
}
