//! Stands in for the crate wasm-minimal-protocol, which is not available offline: the same two
//! macros for the same protocol of Typst's plugins.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro]
pub fn initiate_protocol(_: TokenStream) -> TokenStream {
    r#"
    #[cfg(target_arch = "wasm32")]
    #[link(wasm_import_module = "typst_env")]
    extern "C" {
        #[link_name = "wasm_minimal_protocol_send_result_to_host"]
        fn __send_result_to_host(ptr: *const u8, len: usize);
        #[link_name = "wasm_minimal_protocol_write_args_to_buffer"]
        fn __write_args_to_buffer(ptr: *mut u8);
    }
    #[cfg(not(target_arch = "wasm32"))]
    unsafe fn __send_result_to_host(_: *const u8, _: usize) {}
    #[cfg(not(target_arch = "wasm32"))]
    unsafe fn __write_args_to_buffer(_: *mut u8) {}
    trait __Answer { fn answer(self) -> Result<Vec<u8>, String>; }
    impl __Answer for Vec<u8> { fn answer(self) -> Result<Vec<u8>, String> { Ok(self) } }
    impl<T: Into<Vec<u8>>, E: std::string::ToString> __Answer for Result<T, E> {
        fn answer(self) -> Result<Vec<u8>, String> { self.map(Into::into).map_err(|e| e.to_string()) }
    }
    "#
    .parse()
    .unwrap()
}

#[proc_macro_attribute]
pub fn wasm_func(_: TokenStream, item: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = item.clone().into_iter().collect();
    let at = v.iter().position(|t| t.to_string() == "fn").expect("a function");
    let name = v[at + 1].to_string();
    let TokenTree::Group(args) = &v[at + 2] else { panic!("arguments") };
    assert!(args.delimiter() == Delimiter::Parenthesis);
    let n = args.stream().into_iter().filter(|t| t.to_string() == ":").count();
    let params: String = (0..n).map(|i| format!("a{i}: usize,")).collect();
    let sum: String = (0..n).map(|i| format!(" + a{i}")).collect();
    let parts: String = (0..n).map(|i| format!("let (p{i}, rest) = rest.split_at(a{i});")).collect();
    let call: String = (0..n).map(|i| format!("p{i},")).collect();
    let extra = format!(
        "#[allow(unused)]
        #[export_name = \"{name}\"]
        pub extern \"C\" fn __plugin_{name}({params}) -> i32 {{
            let mut all: Vec<u8> = vec![0; 0{sum}];
            unsafe {{ __write_args_to_buffer(all.as_mut_ptr()) }};
            let rest: &[u8] = &all;
            {parts}
            let (out, code) = match __Answer::answer({name}({call})) {{
                Ok(v) => (v, 0),
                Err(e) => (e.into_bytes(), 1),
            }};
            unsafe {{ __send_result_to_host(out.as_ptr(), out.len()) }};
            code
        }}"
    );
    let mut out = item;
    out.extend(extra.parse::<TokenStream>().unwrap());
    out
}
