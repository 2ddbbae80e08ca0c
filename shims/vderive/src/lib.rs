//! Derives that stand in for protobuf-convert, num_enum and strum (not available offline).
use proc_macro::TokenStream;
use proc_macro2::{Span, TokenStream as T2};
use quote::{format_ident, quote};
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Fields, Ident};

fn str_attr(attrs: &[Attribute], outer: &str, key: &str) -> Option<String> {
    let mut out = None;
    for a in attrs {
        if a.path().is_ident(outer) {
            let _ = a.parse_nested_meta(|m| {
                if m.path.is_ident(key) {
                    let v: syn::LitStr = m.value()?.parse()?;
                    out = Some(v.value());
                } else if m.input.peek(syn::Token![=]) {
                    let _: syn::Expr = m.value()?.parse()?;
                }
                Ok(())
            });
        }
    }
    out
}

fn flag_attr(attrs: &[Attribute], outer: &str, key: &str) -> bool {
    let mut out = false;
    for a in attrs {
        if a.path().is_ident(outer) {
            let _ = a.parse_nested_meta(|m| {
                if m.path.is_ident(key) {
                    out = true;
                }
                if m.input.peek(syn::Token![=]) {
                    let _: syn::Expr = m.value()?.parse()?;
                }
                Ok(())
            });
        }
    }
    out
}

#[proc_macro_derive(ProtobufConvert, attributes(protobuf_convert))]
pub fn protobuf_convert(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let name = &d.ident;
    let src = str_attr(&d.attrs, "protobuf_convert", "source").expect("protobuf_convert(source = ..)");
    let pb: syn::Path = syn::parse_str(&src).unwrap();
    let body: T2 = match &d.data {
        Data::Struct(s) => {
            let mut to = vec![];
            let mut from = vec![];
            for f in &s.fields {
                let id = f.ident.as_ref().expect("named fields");
                if flag_attr(&f.attrs, "protobuf_convert", "skip") {
                    from.push(quote!(#id: Default::default()));
                    continue;
                }
                let set = format_ident!("set_{}", id);
                let get = format_ident!("get_{}", id);
                to.push(quote!(msg.#set(ProtobufConvert::to_pb(&self.#id).into());));
                from.push(quote!(#id: ProtobufConvert::from_pb(pb.#get().to_owned())?));
            }
            quote! {
                fn to_pb(&self) -> Self::ProtoStruct {
                    let mut msg = Self::ProtoStruct::new();
                    #(#to)*
                    msg
                }
                fn from_pb(pb: Self::ProtoStruct) -> ::core::result::Result<Self, ::anyhow::Error> {
                    Ok(Self { #(#from),* })
                }
            }
        }
        Data::Enum(e) => {
            let mut oneof = pb.clone();
            let last = oneof.segments.last_mut().unwrap();
            last.ident = Ident::new(&format!("{}_oneof_kind", last.ident), Span::call_site());
            let mut to = vec![];
            let mut from = vec![];
            for v in &e.variants {
                let id = &v.ident;
                let set = format_ident!("set_{}", id);
                to.push(quote!(#name::#id(x) => msg.#set(ProtobufConvert::to_pb(x).into()),));
                from.push(quote!(Some(#oneof::#id(x)) => Ok(#name::#id(ProtobufConvert::from_pb(x)?)),));
            }
            let msg = format!("Failed to decode {name} from protobuf");
            quote! {
                fn to_pb(&self) -> Self::ProtoStruct {
                    let mut msg = Self::ProtoStruct::new();
                    match self { #(#to)* }
                    msg
                }
                fn from_pb(pb: Self::ProtoStruct) -> ::core::result::Result<Self, ::anyhow::Error> {
                    match pb.kind {
                        #(#from)*
                        None => Err(::anyhow::format_err!(#msg)),
                    }
                }
            }
        }
        _ => panic!("ProtobufConvert: unions are not supported"),
    };
    quote! {
        impl ProtobufConvert for #name {
            type ProtoStruct = #pb;
            #body
        }
    }
    .into()
}

fn repr(d: &DeriveInput) -> Ident {
    for a in &d.attrs {
        if a.path().is_ident("repr") {
            return a.parse_args().unwrap();
        }
    }
    Ident::new("isize", Span::call_site())
}

fn variants(d: &DeriveInput) -> Vec<(Ident, Vec<Attribute>)> {
    match &d.data {
        Data::Enum(e) => e
            .variants
            .iter()
            .map(|v| {
                assert!(matches!(v.fields, Fields::Unit), "unit variants only");
                (v.ident.clone(), v.attrs.clone())
            })
            .collect(),
        _ => panic!("enums only"),
    }
}

#[proc_macro_derive(IntoPrimitive, attributes(num_enum))]
pub fn into_primitive(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (n, r) = (&d.ident, repr(&d));
    quote!(impl ::core::convert::From<#n> for #r { fn from(x: #n) -> #r { x as #r } }).into()
}

#[proc_macro_derive(TryFromPrimitive, attributes(num_enum))]
pub fn try_from_primitive(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (n, r) = (&d.ident, repr(&d));
    let vs = variants(&d);
    let arms = vs.iter().map(|(v, _)| quote!(if number == #n::#v as #r { return Ok(#n::#v); }));
    let s = n.to_string();
    quote! {
        impl ::num_enum::TryFromPrimitive for #n {
            type Primitive = #r;
            const NAME: &'static str = #s;
            fn try_from_primitive(number: #r) -> ::core::result::Result<Self, ::num_enum::TryFromPrimitiveError<Self>> {
                #(#arms)*
                Err(::num_enum::TryFromPrimitiveError { number })
            }
        }
        impl ::core::convert::TryFrom<#r> for #n {
            type Error = ::num_enum::TryFromPrimitiveError<Self>;
            fn try_from(number: #r) -> ::core::result::Result<Self, Self::Error> {
                ::num_enum::TryFromPrimitive::try_from_primitive(number)
            }
        }
    }
    .into()
}

fn snake(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() {
            if i > 0 {
                o.push('_');
            }
            o.extend(c.to_lowercase());
        } else {
            o.push(c);
        }
    }
    o
}

fn names(d: &DeriveInput) -> Vec<(Ident, String)> {
    let all = str_attr(&d.attrs, "strum", "serialize_all");
    variants(d)
        .into_iter()
        .map(|(v, a)| {
            let n = str_attr(&a, "strum", "to_string").or_else(|| str_attr(&a, "strum", "serialize")).unwrap_or_else(|| match all.as_deref() {
                None => v.to_string(),
                Some("snake_case") => snake(&v.to_string()),
                Some("lowercase") => v.to_string().to_lowercase(),
                Some(x) => panic!("strum(serialize_all = {x:?}) is not supported by the stand-in"),
            });
            (v, n)
        })
        .collect()
}

#[proc_macro_derive(Display, attributes(strum))]
pub fn display(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let n = &d.ident;
    let arms = names(&d).into_iter().map(|(v, s)| quote!(#n::#v => f.pad(#s),));
    quote! {
        impl ::core::fmt::Display for #n {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::result::Result<(), ::core::fmt::Error> {
                match *self { #(#arms)* }
            }
        }
    }
    .into()
}

#[proc_macro_derive(IntoStaticStr, attributes(strum))]
pub fn into_static_str(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let n = &d.ident;
    let arms: Vec<_> = names(&d).into_iter().map(|(v, s)| quote!(#n::#v => #s,)).collect();
    quote! {
        impl ::core::convert::From<#n> for &'static str { fn from(x: #n) -> &'static str { match x { #(#arms)* } } }
        impl<'a> ::core::convert::From<&'a #n> for &'static str { fn from(x: &'a #n) -> &'static str { match *x { #(#arms)* } } }
    }
    .into()
}

#[proc_macro_derive(EnumString, attributes(strum))]
pub fn enum_string(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let n = &d.ident;
    let arms = names(&d).into_iter().map(|(v, s)| quote!(#s => Ok(#n::#v),));
    quote! {
        impl ::core::str::FromStr for #n {
            type Err = ::strum::ParseError;
            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
                match s { #(#arms)* _ => Err(::strum::ParseError::VariantNotFound) }
            }
        }
        impl<'a> ::core::convert::TryFrom<&'a str> for #n {
            type Error = ::strum::ParseError;
            fn try_from(s: &'a str) -> ::core::result::Result<Self, Self::Error> { ::core::str::FromStr::from_str(s) }
        }
    }
    .into()
}

#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let n = &d.ident;
    let vs = variants(&d).into_iter().map(|(v, _)| quote!(#n::#v)).collect::<Vec<_>>();
    let k = vs.len();
    quote! {
        impl ::strum::IntoEnumIterator for #n {
            type Iterator = ::std::array::IntoIter<#n, #k>;
            fn iter() -> Self::Iterator { ::core::iter::IntoIterator::into_iter([#(#vs),*]) }
        }
    }
    .into()
}
