//! `#[wasm_bindgen]` as far as async_ui uses it: on functions (left alone), and on extern blocks whose
//! statics are exports of an inline_js module. The module's text is registered when the program starts, as
//! a browser would load it; what it does is then decided by running it.
use proc_macro::{Delimiter, TokenStream, TokenTree};

fn inline_js(attr: TokenStream) -> Option<String> {
    let t: Vec<TokenTree> = attr.into_iter().collect();
    for i in 0..t.len() {
        if matches!(&t[i], TokenTree::Ident(x) if x.to_string() == "inline_js") {
            // everything up to the next comma is an expression of type &str
            return Some(t[i + 2..].iter().take_while(|x| !matches!(x, TokenTree::Punct(p) if p.as_char() == ',')).cloned()
                .collect::<TokenStream>().to_string());
        }
    }
    None
}

#[proc_macro_attribute]
pub fn wasm_bindgen(attr: TokenStream, item: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = item.clone().into_iter().collect();
    let block = toks.iter().find_map(|t| match t {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream()),
        _ => None,
    });
    let is_extern = toks.iter().take(3).any(|t| matches!(t, TokenTree::Ident(x) if x.to_string() == "extern"))
        && !toks.iter().any(|t| matches!(t, TokenTree::Ident(x) if x.to_string() == "fn"));
    if !is_extern {
        return item;
    }
    let js = inline_js(attr).unwrap_or_else(|| "\"\"".into());
    let mut out = String::new();
    let mut names = Vec::new();
    let b: Vec<TokenTree> = block.expect("extern block").into_iter().collect();
    for i in 0..b.len() {
        if matches!(&b[i], TokenTree::Ident(x) if x.to_string() == "static") {
            let n = b[i + 1].to_string();
            out += &format!("pub static {n}: ::wasm_bindgen::__inline::Static = ::wasm_bindgen::__inline::Static;\n");
            names.push(n);
        }
    }
    out += &format!(
        "const _: () = {{ extern \"C\" fn reg() {{ ::wasm_bindgen::__inline::register(::core::module_path!(), {js}, &{names:?}) }}
           #[used] #[link_section = \".init_array\"] static REG: extern \"C\" fn() = reg; }};"
    );
    out.parse().expect("generated code")
}
