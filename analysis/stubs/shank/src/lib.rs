// Stand-in for the shank derive macros (the real crate is not available offline).
// It generates what the real `ShankContext` generates: one account struct per variant and
// a `context` constructor that takes the leading accounts in table order.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};

struct Acc { idx: usize, name: String }

#[proc_macro_derive(ShankInstruction, attributes(account, idl_instruction))]
pub fn ix(_i: TokenStream) -> TokenStream { TokenStream::new() }

#[proc_macro_derive(ShankContext, attributes(account))]
pub fn ctx(input: TokenStream) -> TokenStream {
    let mut body = None;
    for t in input { if let TokenTree::Group(g) = &t { if g.delimiter() == Delimiter::Brace { body = Some(g.stream()); } } }
    let body: Vec<TokenTree> = body.expect("enum body").into_iter().collect();
    let mut out = String::from("pub mod accounts { use super::*;\n pub struct Context<'a, T> { pub accounts: T, pub remaining_accounts: &'a [AccountInfo] }\n");
    let mut accs: Vec<Acc> = vec![];
    let mut i = 0;
    while i < body.len() {
        match &body[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let TokenTree::Group(g) = &body[i + 1] {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if inner[0].to_string() == "account" {
                        if let TokenTree::Group(a) = &inner[1] {
                            let toks: Vec<TokenTree> = a.stream().into_iter().collect();
                            let idx: usize = toks[0].to_string().parse().expect("index");
                            let mut name = None;
                            for k in 0..toks.len() {
                                if toks[k].to_string() == "name" { name = Some(toks[k + 2].to_string().trim_matches('"').to_string()); }
                            }
                            accs.push(Acc { idx, name: name.expect("name") });
                        }
                    }
                }
                i += 2; continue;
            }
            TokenTree::Ident(id) => {
                let v = id.to_string();
                out.push_str(&format!("pub struct {v}Accounts<'a> {{ "));
                for a in &accs { out.push_str(&format!("pub {}: &'a AccountInfo, ", a.name)); }
                if accs.is_empty() { out.push_str("pub _p: core::marker::PhantomData<&'a ()>, "); }
                let n = accs.len();
                out.push_str(&format!("}}\n impl<'a> {v}Accounts<'a> {{ pub fn context(accounts: &'a [AccountInfo]) -> Result<Context<'a, {v}Accounts<'a>>, ProgramError> {{ if accounts.len() < {n} {{ return Err(ProgramError::NotEnoughAccountKeys); }} Ok(Context {{ accounts: {v}Accounts {{ "));
                for a in &accs { out.push_str(&format!("{}: &accounts[{}], ", a.name, a.idx)); }
                if accs.is_empty() { out.push_str("_p: core::marker::PhantomData, "); }
                out.push_str(&format!("}}, remaining_accounts: &accounts[{n}..] }}) }} }}\n"));
                accs = vec![];
                i += 1;
                while i < body.len() { if let TokenTree::Punct(p) = &body[i] { if p.as_char() == ',' { break; } } i += 1; }
            }
            _ => {}
        }
        i += 1;
    }
    out.push('}');
    out.parse().unwrap()
}
