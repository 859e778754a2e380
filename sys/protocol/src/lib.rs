//! Stands in for the crate of the same name, which is not available offline.
//! On wasm32 a `wasm_func` is exported to Typst under the plugin protocol; on
//! other targets it stays an ordinary function.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro]
pub fn initiate_protocol(_: TokenStream) -> TokenStream {
    r#"
    #[cfg(target_arch = "wasm32")]
    #[link(wasm_import_module = "typst_env")]
    extern "C" {
        #[link_name = "wasm_minimal_protocol_send_result_to_host"]
        fn __send_result_to_host(ptr: *const u8, len: usize);
        #[link_name = "wasm_minimal_protocol_write_args_to_buffer"]
        fn __write_args_to_buffer(ptr: *mut u8);
    }
    #[cfg(target_arch = "wasm32")]
    trait __ToResult { fn __to_result(self) -> ::core::result::Result<Vec<u8>, String>; }
    #[cfg(target_arch = "wasm32")]
    impl __ToResult for Vec<u8> { fn __to_result(self) -> ::core::result::Result<Vec<u8>, String> { Ok(self) } }
    #[cfg(target_arch = "wasm32")]
    impl<E: ToString> __ToResult for ::core::result::Result<Vec<u8>, E> {
        fn __to_result(self) -> ::core::result::Result<Vec<u8>, String> { self.map_err(|e| e.to_string()) }
    }
    "#
    .parse()
    .unwrap()
}

#[proc_macro_attribute]
pub fn wasm_func(_: TokenStream, item: TokenStream) -> TokenStream {
    let tokens: Vec<TokenTree> = item.clone().into_iter().collect();
    let at = tokens.iter().position(|t| t.to_string() == "fn").expect("a function");
    let name = tokens[at + 1].to_string();
    let args = tokens[at..]
        .iter()
        .find_map(|t| match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => Some(g.stream()),
            _ => None,
        })
        .expect("arguments");
    let n = args.into_iter().filter(|t| t.to_string() == ":").count();
    let params: Vec<String> = (0..n).map(|i| format!("n{i}: usize")).collect();
    let sum: Vec<String> = (0..n).map(|i| format!("n{i}")).collect();
    let split: String = (0..n).map(|i| format!("let (a{i}, rest) = rest.split_at(n{i});")).collect();
    let call: Vec<String> = (0..n).map(|i| format!("a{i}")).collect();
    let wrapper = format!(
        r#"
        #[cfg(target_arch = "wasm32")]
        #[export_name = "{name}"]
        pub extern "C" fn __plugin_{name}({params}) -> i32 {{
            let mut buf = vec![0u8; {sum}];
            unsafe {{ __write_args_to_buffer(buf.as_mut_ptr()) }};
            let rest = &buf[..];
            {split}
            let _ = rest;
            let (code, out) = match {name}({call}).__to_result() {{
                Ok(v) => (0, v),
                Err(e) => (1, e.into_bytes()),
            }};
            unsafe {{ __send_result_to_host(out.as_ptr(), out.len()) }};
            code
        }}"#,
        params = params.join(", "),
        sum = if n == 0 { "0".into() } else { sum.join(" + ") },
        call = call.join(", "),
    );
    let mut out = item;
    out.extend(wrapper.parse::<TokenStream>().unwrap());
    out
}
