//! `#[js_function(N)]` of napi-derive 1: wraps `fn f(ctx: CallContext) -> Result<impl NapiValue>` into a N-API callback.
use proc_macro::{Ident, Span, TokenStream, TokenTree as TT};

#[proc_macro_attribute]
pub fn js_function(attr: TokenStream, item: TokenStream) -> TokenStream {
    let n = if attr.is_empty() { "0".parse().unwrap() } else { attr };
    let mut inner: Vec<TT> = item.into_iter().collect();
    let at = inner.iter().position(|t| matches!(t, TT::Ident(i) if i.to_string() == "fn")).expect("a function");
    let name = match &inner[at + 1] {
        TT::Ident(i) => i.clone(),
        _ => panic!("a function"),
    };
    inner[at + 1] = Ident::new("__js_function_body", Span::call_site()).into();
    let vis: TokenStream = inner.drain(..at).collect();
    let inner: TokenStream = inner.into_iter().collect();
    // the body sees neither of the two arguments
    let body: TokenStream = "{ napi::__js_call(__raw_env, __cb_info, __N, __js_function_body) }".parse().unwrap();
    let head: TokenStream =
        "(__raw_env: napi::sys::napi_env, __cb_info: napi::sys::napi_callback_info) -> napi::sys::napi_value".parse().unwrap();
    let mut out = vis;
    out.extend::<TokenStream>("unsafe extern \"C\" fn".parse().unwrap());
    out.extend([TT::Ident(name)]);
    out.extend(head);
    let mut block: TokenStream = "const __N: usize =".parse().unwrap();
    block.extend(n);
    block.extend::<TokenStream>(";".parse().unwrap());
    block.extend(inner);
    block.extend(match body.into_iter().next().unwrap() {
        TT::Group(g) => g.stream(),
        _ => unreachable!(),
    });
    out.extend([TT::Group(proc_macro::Group::new(proc_macro::Delimiter::Brace, block))]);
    out
}
