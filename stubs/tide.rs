//! Stand-in for `tide`: what is served is kept, for a harness to send requests to.
//@ deps: http serde serde_json
pub use http;
use serde_json::Value;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
pub enum Body { Json(Value), Text(String) }
pub type Response = http::Response<Body>;
#[derive(Debug)] pub struct Error(pub http::StatusCode);
pub type EndpointResult<T = Response> = Result<T, Error>;
pub mod error { use super::*; pub trait ResultExt<T>: Sized { fn client_err(self) -> EndpointResult<T>; } impl<T, E> ResultExt<T> for Result<T, E> { fn client_err(self) -> EndpointResult<T> { self.map_err(|_| Error(http::StatusCode::BAD_REQUEST)) } } }
pub mod response { use super::*; pub fn json<T: serde::Serialize>(t: T) -> Response { http::Response::new(Body::Json(serde_json::to_value(t).expect("a response"))) } }
pub trait IntoResponse { fn into_response(self) -> Response; }
impl IntoResponse for Response { fn into_response(self) -> Response { self } }
impl IntoResponse for http::Response<String> { fn into_response(self) -> Response { self.map(Body::Text) } }
impl<T: IntoResponse> IntoResponse for EndpointResult<T> { fn into_response(self) -> Response { match self { Ok(r) => r.into_response(), Err(e) => { let mut r = http::Response::new(Body::Text(String::new())); *r.status_mut() = e.0; r } } } }
pub struct Context<S> { state: Arc<S>, body: Value }
impl<S> Context<S> { pub fn state(&self) -> &S { &self.state } pub async fn body_json<T: serde::de::DeserializeOwned>(&mut self) -> Result<T, std::io::Error> { serde_json::from_value(std::mem::replace(&mut self.body, Value::Null)).map_err(|_| std::io::Error::from(std::io::ErrorKind::InvalidInput)) } }
pub mod middleware { pub struct CorsMiddleware; pub struct CorsOrigin; impl From<&str> for CorsOrigin { fn from(_: &str) -> Self { CorsOrigin } } impl CorsMiddleware { pub fn new() -> Self { CorsMiddleware } pub fn allow_origin(self, _: CorsOrigin) -> Self { self } pub fn allow_methods(self, _: http::header::HeaderValue) -> Self { self } } }
type Endpoint<S> = Box<dyn Fn(Context<S>) -> Pin<Box<dyn Future<Output = Response>>>>;
pub struct App<S> { state: Arc<S>, routes: Vec<(&'static str, String, Endpoint<S>)> }
pub struct Route<'a, S> { app: &'a mut App<S>, path: String }
impl<'a, S: 'static> Route<'a, S> {
    fn add<F: Fn(Context<S>) -> U + 'static, U: Future + 'static>(&mut self, m: &'static str, f: F) -> &mut Self where U::Output: IntoResponse { let e: Endpoint<S> = Box::new(move |cx| { let x = f(cx); Box::pin(async move { x.await.into_response() }) }); self.app.routes.push((m, self.path.clone(), e)); self }
    pub fn post<F: Fn(Context<S>) -> U + 'static, U: Future + 'static>(&mut self, f: F) -> &mut Self where U::Output: IntoResponse { self.add("POST", f) }
    pub fn get<F: Fn(Context<S>) -> U + 'static, U: Future + 'static>(&mut self, f: F) -> &mut Self where U::Output: IntoResponse { self.add("GET", f) }
}
impl<S: 'static> App<S> {
    pub fn with_state(s: S) -> Self { App { state: Arc::new(s), routes: vec![] } }
    pub fn middleware(&mut self, _: middleware::CorsMiddleware) -> &mut Self { self }
    pub fn at<'a>(&'a mut self, path: &str) -> Route<'a, S> { Route { path: path.to_owned(), app: self } }
    pub async fn serve(self, addr: std::net::SocketAddr) -> std::io::Result<()> { sim::put(Server { addr, send: Box::new(move |m, p, body| self.routes.iter().find(|r| r.0 == m && r.1 == p).map(|r| (r.2)(Context { state: self.state.clone(), body }))) }); Ok(()) }
}
pub struct Server { pub addr: std::net::SocketAddr, pub send: Box<dyn Fn(&str, &str, Value) -> Option<Pin<Box<dyn Future<Output = Response>>>>> }
pub mod sim {
    use super::*; struct Any(Server); unsafe impl Send for Any {} static mut SERVED: Option<Mutex<Option<Any>>> = None;
    pub(crate) fn put(s: Server) { unsafe { SERVED = Some(Mutex::new(Some(Any(s)))) } }
    /// what is served now
    pub fn server() -> Option<Server> { unsafe { SERVED.as_ref().and_then(|m| m.lock().unwrap().take()).map(|a| a.0) } }
}
