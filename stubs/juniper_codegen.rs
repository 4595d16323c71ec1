//! Stand-in for `juniper_codegen`: the derives and the `object` attribute the API uses, written against the stand-in `juniper`.
//@ deps:
//@ proc-macro
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};

fn camel(s: &str) -> String { let mut up = false; s.trim_matches('_').chars().filter_map(|c| if c == '_' { up = true; None } else if up { up = false; Some(c.to_ascii_uppercase()) } else { Some(c) }).collect() }
fn scream(s: &str) -> String { let mut o = String::new(); for (i, c) in s.chars().enumerate() { if c.is_uppercase() && i > 0 { o.push('_'); } o.push(c.to_ascii_uppercase()); } o }
fn ident(t: &TokenTree) -> Option<String> { if let TokenTree::Ident(i) = t { Some(i.to_string()) } else { None } }
fn is(t: &TokenTree, c: char) -> bool { if let TokenTree::Punct(p) = t { p.as_char() == c } else { false } }
/// pieces between top-level commas; commas within `<…>` do not count
fn split(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let (mut out, mut cur, mut deep) = (vec![], vec![], 0i32);
    for t in ts { if is(&t, '<') { deep += 1; } if is(&t, '>') { deep -= 1; } if deep == 0 && is(&t, ',') { out.push(std::mem::replace(&mut cur, vec![])); } else { cur.push(t); } }
    if !cur.is_empty() { out.push(cur); } out
}
/// without leading attributes and visibility; the `name = "…"` of a graphql attribute, if any
fn bare(ts: Vec<TokenTree>) -> (Vec<TokenTree>, Option<String>) {
    let (mut out, mut name, mut it) = (vec![], None, ts.into_iter().peekable());
    loop { match it.peek() {
        Some(t) if is(t, '#') => { it.next(); if let Some(TokenTree::Group(g)) = it.next() { let inner: Vec<_> = g.stream().into_iter().collect(); if inner.first().and_then(ident).map_or(false, |s| s == "graphql") { if let Some(TokenTree::Group(a)) = inner.get(1) { for p in split(a.stream()) { if p.len() == 3 && ident(&p[0]).map_or(false, |s| s == "name") { name = Some(p[2].to_string().trim_matches('"').to_owned()); } } } } } }
        Some(t) if ident(t).map_or(false, |s| s == "pub") => { it.next(); if let Some(TokenTree::Group(g)) = it.peek() { if g.delimiter() == Delimiter::Parenthesis { it.next(); } } }
        _ => break,
    } }
    out.extend(it); (out, name)
}
fn item(ts: TokenStream) -> (String, TokenStream) { let (b, _) = bare(ts.into_iter().collect()); let body = b.iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g.stream()) } else { None }).next().unwrap(); (ident(&b[1]).unwrap(), body) }
fn fields(body: TokenStream) -> Vec<(String, String)> { split(body).into_iter().map(|f| { let (b, n) = bare(f); let i = ident(&b[0]).unwrap(); let n = n.unwrap_or(camel(&i)); (i, n) }).collect() }

#[proc_macro_derive(GraphQLScalarValue, attributes(graphql))]
pub fn scalar(ts: TokenStream) -> TokenStream { let (n, _) = item(ts); format!("impl ::juniper::Input for {n} {{ fn input(v: Option<&::juniper::Value>) -> Result<Self, String> {{ match v {{ Some(::juniper::Value::String(s)) => Ok({n}(s.clone())), _ => Err(\"a string is needed\".to_owned()) }} }} }} impl ::juniper::Output for {n} {{ fn output(&self) -> ::juniper::Value {{ ::juniper::Value::String(self.0.clone()) }} }}", n = n).parse().unwrap() }
#[proc_macro_derive(GraphQLObject, attributes(graphql))]
pub fn object_of(ts: TokenStream) -> TokenStream { let (n, b) = item(ts); let f: String = fields(b).iter().map(|(i, c)| format!("m.insert({:?}.to_owned(), ::juniper::Output::output(&self.{}));", c, i)).collect(); format!("impl ::juniper::Output for {} {{ fn output(&self) -> ::juniper::Value {{ let mut m = ::juniper::Map::new(); {} ::juniper::Value::Object(m) }} }}", n, f).parse().unwrap() }
#[proc_macro_derive(GraphQLInputObject, attributes(graphql))]
pub fn input_of(ts: TokenStream) -> TokenStream { let (n, b) = item(ts); let f: String = fields(b).iter().map(|(i, c)| format!("{}: ::juniper::Input::input(m.get({:?}))?,", i, c)).collect(); format!("impl ::juniper::Input for {n} {{ fn input(v: Option<&::juniper::Value>) -> Result<Self, String> {{ match v {{ Some(::juniper::Value::Object(m)) => Ok({n} {{ {f} }}), _ => Err(\"an object is needed\".to_owned()) }} }} }}", n = n, f = f).parse().unwrap() }
#[proc_macro_derive(GraphQLEnum, attributes(graphql))]
pub fn enum_of(ts: TokenStream) -> TokenStream { let (n, b) = item(ts); let f: String = fields(b).iter().map(|(i, _)| format!("Some(::juniper::Value::String(s)) if s == {:?} => Ok({}::{}),", scream(i), n, i)).collect(); format!("impl ::juniper::Input for {} {{ fn input(v: Option<&::juniper::Value>) -> Result<Self, String> {{ match v {{ {} _ => Err(\"no such value\".to_owned()) }} }} }}", n, f).parse().unwrap() }

/// `#[juniper::object(Context = C)] impl T { fn field(ctx: &C, arg: A) -> FieldResult<R> { … } }`
#[proc_macro_attribute]
pub fn object(attr: TokenStream, ts: TokenStream) -> TokenStream {
    let a: Vec<TokenTree> = attr.into_iter().collect(); let cx = ident(&a[2]).unwrap(); let (b, _) = bare(ts.into_iter().collect()); let ty = ident(&b[1]).unwrap();
    let body: Vec<TokenTree> = if let Some(TokenTree::Group(g)) = b.last() { g.stream().into_iter().collect() } else { panic!("an impl block") };
    let mut arms = String::new(); let mut cur = vec![];
    for t in body {
        let end = if let TokenTree::Group(g) = &t { g.delimiter() == Delimiter::Brace } else { false }; cur.push(t); if !end { continue; }
        let (f, name) = bare(std::mem::replace(&mut cur, vec![])); let id = ident(&f[1]).unwrap(); let name = name.unwrap_or(camel(&id));
        let params = if let TokenTree::Group(g) = &f[2] { split(g.stream()) } else { panic!("parameters") }; let mut args = String::new();
        for p in params { let (p, _) = bare(p); let i = ident(&p[0]).unwrap(); if is(&p[2], '&') { args += "cx,"; } else { args += &format!("match ::juniper::Input::input(args.get({:?})) {{ Ok(x) => x, Err(e) => return Some(Err(::juniper::FieldError::from(e))) }},", camel(&i)); } }
        let src: TokenStream = f.into_iter().collect(); arms += &format!("{:?} => {{ {} let r = {}({}); Some(r.map(|v| ::juniper::Output::output(&v))) }}", name, src, id, args);
    }
    format!("impl ::juniper::Root for {} {{ type Context = {}; fn call(name: &str, cx: &{}, args: &::juniper::Value) -> Option<Result<::juniper::Value, ::juniper::FieldError>> {{ match name {{ {} _ => None }} }} }}", ty, cx, cx, arms).parse().unwrap()
}
