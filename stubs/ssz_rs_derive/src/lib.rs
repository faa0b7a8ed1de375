//! Derive macros of the `ssz_rs` stand-in (see ../ssz_rs).
use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields};

fn where_for(input: &DeriveInput, bound: T2) -> (T2, T2, T2) {
    let (i, t, w) = input.generics.split_for_impl();
    let mut preds: Vec<T2> = vec![];
    if let Some(w) = w {
        for p in &w.predicates {
            preds.push(quote!(#p));
        }
    }
    for tp in input.generics.type_params() {
        let id = &tp.ident;
        preds.push(quote!(#id: #bound));
    }
    let w = if preds.is_empty() { quote!() } else { quote!(where #(#preds),*) };
    (quote!(#i), quote!(#t), w)
}

fn fields_of(fields: &Fields) -> (Vec<T2>, Vec<syn::Type>, Vec<String>) {
    let mut acc = vec![];
    let mut tys = vec![];
    let mut names = vec![];
    for (i, f) in fields.iter().enumerate() {
        match &f.ident {
            Some(id) => {
                acc.push(quote!(#id));
                names.push(id.to_string());
            }
            None => {
                let ix = syn::Index::from(i);
                acc.push(quote!(#ix));
                names.push(i.to_string());
            }
        }
        tys.push(f.ty.clone());
    }
    (acc, tys, names)
}

fn is_newtype(input: &DeriveInput) -> bool {
    matches!(&input.data, Data::Struct(s) if matches!(&s.fields, Fields::Unnamed(u) if u.unnamed.len() == 1))
}

fn gen_serializable(input: &DeriveInput) -> T2 {
    let name = &input.ident;
    let (ig, tg, wc) = where_for(input, quote!(::ssz_rs::Serializable));
    let (var, size) = match &input.data {
        Data::Struct(s) => {
            let (_, tys, _) = fields_of(&s.fields);
            (
                quote!(false #(|| <#tys as ::ssz_rs::Serializable>::is_variable_size())*),
                quote!(0usize #(+ <#tys as ::ssz_rs::Serializable>::size_hint())*),
            )
        }
        _ => (quote!(true), quote!(0usize)),
    };
    quote! {
        impl #ig ::ssz_rs::Serializable for #name #tg #wc {
            fn is_variable_size() -> bool { #var }
            fn size_hint() -> usize { if <Self as ::ssz_rs::Serializable>::is_variable_size() { 0 } else { #size } }
        }
    }
}

fn gen_serialize(input: &DeriveInput) -> T2 {
    let name = &input.ident;
    let (ig, tg, wc) = where_for(input, quote!(::ssz_rs::SimpleSerialize));
    let body = match &input.data {
        Data::Struct(s) => {
            let (acc, tys, _) = fields_of(&s.fields);
            if is_newtype(input) {
                quote!(::ssz_rs::Serialize::serialize(&self.0, buffer))
            } else {
                quote! {
                    let mut ser = ::ssz_rs::__internal::ContainerSerializer::new();
                    #( ser.field(&self.#acc, <#tys as ::ssz_rs::Serializable>::is_variable_size())?; )*
                    ser.finish(buffer)
                }
            }
        }
        Data::Enum(e) => {
            let arms = e.variants.iter().enumerate().map(|(_, v)| {
                let id = &v.ident;
                quote!(#name::#id(inner) => ::ssz_rs::Serialize::serialize(inner, buffer))
            });
            quote!(match self { #(#arms),* })
        }
        _ => quote!(unimplemented!()),
    };
    quote! {
        impl #ig ::ssz_rs::Serialize for #name #tg #wc {
            fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::std::result::Result<usize, ::ssz_rs::SerializeError> { #body }
        }
    }
}

fn gen_deserialize(input: &DeriveInput) -> T2 {
    let name = &input.ident;
    let (ig, tg, wc) = where_for(input, quote!(::ssz_rs::SimpleSerialize));
    let body = match &input.data {
        Data::Struct(s) => {
            if is_newtype(input) {
                quote!(Ok(Self(::ssz_rs::Deserialize::deserialize(encoding)?)))
            } else {
                let (acc, tys, _) = fields_of(&s.fields);
                let named = matches!(s.fields, Fields::Named(_));
                let n = acc.len();
                let ids: Vec<_> = (0..n).map(|i| format_ident!("f{}", i)).collect();
                let idx: Vec<usize> = (0..n).collect();
                let ctor = if named {
                    quote!(Self { #(#acc: #ids),* })
                } else {
                    quote!(Self( #(#ids),* ))
                };
                quote! {
                    let layout: [(bool, usize); #n] = [ #( (<#tys as ::ssz_rs::Serializable>::is_variable_size(), <#tys as ::ssz_rs::Serializable>::size_hint()) ),* ];
                    let parts = ::ssz_rs::__internal::split_container(encoding, &layout)?;
                    #( let #ids = <#tys as ::ssz_rs::Deserialize>::deserialize(parts[#idx])?; )*
                    Ok(#ctor)
                }
            }
        }
        _ => quote!(Err(::ssz_rs::DeserializeError::InvalidByte(0))),
    };
    quote! {
        impl #ig ::ssz_rs::Deserialize for #name #tg #wc {
            fn deserialize(encoding: &[u8]) -> ::std::result::Result<Self, ::ssz_rs::DeserializeError> { #body }
        }
    }
}

fn gen_htr(input: &DeriveInput) -> T2 {
    let name = &input.ident;
    let (ig, tg, wc) = where_for(input, quote!(::ssz_rs::HashTreeRoot));
    let (body, comp) = match &input.data {
        Data::Struct(s) => {
            if is_newtype(input) {
                let ty = match &s.fields {
                    Fields::Unnamed(u) => u.unnamed[0].ty.clone(),
                    _ => unreachable!(),
                };
                (
                    quote!(::ssz_rs::HashTreeRoot::hash_tree_root(&self.0)),
                    quote!(<#ty as ::ssz_rs::HashTreeRoot>::is_composite_type()),
                )
            } else {
                let (acc, _, _) = fields_of(&s.fields);
                (
                    quote! {
                        let mut chunks: ::std::vec::Vec<u8> = ::std::vec::Vec::new();
                        #( chunks.extend_from_slice(::ssz_rs::HashTreeRoot::hash_tree_root(&self.#acc)?.as_ref()); )*
                        ::ssz_rs::__internal::merkleize(&chunks, None)
                    },
                    quote!(true),
                )
            }
        }
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let id = &v.ident;
                quote!(#name::#id(inner) => ::ssz_rs::HashTreeRoot::hash_tree_root(inner))
            });
            (quote!(match self { #(#arms),* }), quote!(true))
        }
        _ => (quote!(unimplemented!()), quote!(true)),
    };
    quote! {
        impl #ig ::ssz_rs::HashTreeRoot for #name #tg #wc {
            fn hash_tree_root(&self) -> ::std::result::Result<::ssz_rs::Node, ::ssz_rs::MerkleizationError> { #body }
            fn is_composite_type() -> bool { #comp }
        }
    }
}

fn gen_gindex(input: &DeriveInput) -> T2 {
    let name = &input.ident;
    let (ig, tg, wc) = where_for(input, quote!(::ssz_rs::GeneralizedIndexable));
    let body = match &input.data {
        Data::Struct(s) => {
            let (_, tys, names) = fields_of(&s.fields);
            if is_newtype(input) {
                let ty = &tys[0];
                quote! {
                    fn chunk_count() -> usize { <#ty as ::ssz_rs::GeneralizedIndexable>::chunk_count() }
                    fn compute_generalized_index(parent: usize, path: &[::ssz_rs::PathElement]) -> ::std::result::Result<usize, ::ssz_rs::MerkleizationError> {
                        <#ty as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(parent, path)
                    }
                }
            } else {
                let n = tys.len();
                let idx: Vec<usize> = (0..n).collect();
                quote! {
                    fn chunk_count() -> usize { #n }
                    fn compute_generalized_index(parent: usize, path: &[::ssz_rs::PathElement]) -> ::std::result::Result<usize, ::ssz_rs::MerkleizationError> {
                        if let Some((next, rest)) = path.split_first() {
                            if let ::ssz_rs::PathElement::Field(name) = next {
                                #( if name == #names {
                                    let child = parent * (#n as usize).next_power_of_two() + #idx;
                                    return <#tys as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(child, rest);
                                } )*
                            }
                            Err(::ssz_rs::MerkleizationError::InvalidPathElement)
                        } else {
                            Ok(parent)
                        }
                    }
                }
            }
        }
        _ => quote! {},
    };
    quote! { impl #ig ::ssz_rs::GeneralizedIndexable for #name #tg #wc { #body } }
}

#[proc_macro_derive(Serializable, attributes(ssz))]
pub fn d_serializable(ts: TokenStream) -> TokenStream {
    let i = parse_macro_input!(ts as DeriveInput);
    gen_serializable(&i).into()
}
#[proc_macro_derive(Serialize, attributes(ssz))]
pub fn d_serialize(ts: TokenStream) -> TokenStream {
    let i = parse_macro_input!(ts as DeriveInput);
    gen_serialize(&i).into()
}
#[proc_macro_derive(Deserialize, attributes(ssz))]
pub fn d_deserialize(ts: TokenStream) -> TokenStream {
    let i = parse_macro_input!(ts as DeriveInput);
    gen_deserialize(&i).into()
}
#[proc_macro_derive(HashTreeRoot, attributes(ssz))]
pub fn d_htr(ts: TokenStream) -> TokenStream {
    let i = parse_macro_input!(ts as DeriveInput);
    gen_htr(&i).into()
}
#[proc_macro_derive(SimpleSerialize, attributes(ssz))]
pub fn d_ss(ts: TokenStream) -> TokenStream {
    let i = parse_macro_input!(ts as DeriveInput);
    let name = &i.ident;
    let (ig, tg, wc) = where_for(&i, quote!(::ssz_rs::SimpleSerialize));
    let (a, b, c, d, e) = (gen_serializable(&i), gen_serialize(&i), gen_deserialize(&i), gen_htr(&i), gen_gindex(&i));
    quote!( #a #b #c #d #e
        impl #ig ::ssz_rs::Prove for #name #tg #wc {}
        impl #ig ::ssz_rs::SimpleSerialize for #name #tg #wc {} )
    .into()
}
