//! Stand-in for `juniper`: a request names one field and gives its arguments as variables.
//@ deps: juniper_codegen serde serde_derive serde_json
pub use juniper_codegen::object;
pub use serde_json::{Map, Value};
use std::fmt::Display;
pub trait Context {}
#[derive(Debug, Clone)] pub struct FieldError(String);
impl<T: Display> From<T> for FieldError { fn from(e: T) -> FieldError { FieldError(e.to_string()) } }
pub type FieldResult<T> = Result<T, FieldError>;
pub trait Input: Sized { fn input(v: Option<&Value>) -> Result<Self, String>; }
pub trait Output { fn output(&self) -> Value; }
impl<T: Input> Input for Option<T> { fn input(v: Option<&Value>) -> Result<Self, String> { match v { None | Some(Value::Null) => Ok(None), v => T::input(v).map(Some) } } }
impl<T: Output> Output for Option<T> { fn output(&self) -> Value { match self { Some(x) => x.output(), None => Value::Null } } }
impl<T: Output> Output for Vec<T> { fn output(&self) -> Value { Value::Array(self.iter().map(Output::output).collect()) } }
pub trait Root { type Context; fn call(name: &str, cx: &Self::Context, args: &Value) -> Option<Result<Value, FieldError>>; }
pub struct RootNode<'a, Q, M>(std::marker::PhantomData<&'a ()>, Q, M);
impl<'a, Q, M> RootNode<'a, Q, M> { pub fn new(q: Q, m: M) -> Self { RootNode(std::marker::PhantomData, q, m) } }
pub mod http {
    use super::*; use serde_derive::{Deserialize, Serialize};
    #[derive(Debug, Deserialize)] pub struct GraphQLRequest { query: String, #[serde(default)] variables: Value }
    #[derive(Debug, Serialize)] pub struct GraphQLResponse { #[serde(skip_serializing_if = "Option::is_none")] data: Option<Value>, #[serde(skip_serializing_if = "Option::is_none")] errors: Option<String> }
    impl GraphQLResponse { pub fn is_ok(&self) -> bool { self.errors.is_none() } }
    impl GraphQLRequest {
        pub fn execute<C, Q: Root<Context = C>, M: Root<Context = C>>(&self, _: &RootNode<'_, Q, M>, cx: &C) -> GraphQLResponse {
            match Q::call(&self.query, cx, &self.variables).or_else(|| M::call(&self.query, cx, &self.variables)) { Some(Ok(v)) => GraphQLResponse { data: Some(v), errors: None }, Some(Err(e)) => GraphQLResponse { data: None, errors: Some(e.0) }, None => GraphQLResponse { data: None, errors: Some("no such field".to_owned()) } }
        }
    }
}
pub mod graphiql { pub fn graphiql_source(url: &str) -> String { format!("graphiql for {}", url) } }
