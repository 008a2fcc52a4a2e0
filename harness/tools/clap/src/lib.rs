//! Stands in for clap when the command line tools are built as libraries: positional arguments come
//! from the harness, and the tool's main gets a name the harness can call.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(Parser, attributes(command, arg, clap))]
pub fn parser(item: TokenStream) -> TokenStream {
    let t: Vec<TokenTree> = item.into_iter().collect();
    let k = t.iter().position(|t| t.to_string() == "struct").expect("a struct");
    let name = t[k + 1].to_string();
    let Some(TokenTree::Group(fields)) = t.iter().find(|t| matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::Brace)) else {
        panic!("named fields")
    };
    let f: Vec<TokenTree> = fields.stream().into_iter().collect();
    let (mut init, mut n, mut deep) = (String::new(), 0, 0);
    for w in f.windows(3) {
        let s = |k: usize| w[k].to_string();
        match s(1).as_str() {
            "<" => deep += 1,
            ">" => deep -= 1,
            ":" if deep == 0 && s(2) != ":" && matches!(w[0], TokenTree::Ident(_)) => {
                let value = if s(2) == "Option" { ".map(Into::into)" } else { ".expect(\"an argument\").into()" };
                init += &format!("{}: unsafe {{ vp_arg({n}) }}{value}, ", s(0));
                n += 1;
            }
            _ => {}
        }
    }
    let pkg = std::env::var("CARGO_PKG_NAME").unwrap();
    format!(
        "impl {name} {{ fn parse() -> Self {{ extern \"Rust\" {{ fn vp_arg(k: usize) -> Option<String>; }} {name} {{ {init} }} }} }}
         #[no_mangle] pub fn {pkg}_main() {{ crate::main(); }}"
    )
    .parse()
    .unwrap()
}
