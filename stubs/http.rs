//! Stand-in for `http`: responses.
//@ deps:
pub mod status { #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct StatusCode(pub u16); impl StatusCode { pub const OK: StatusCode = StatusCode(200); pub const BAD_REQUEST: StatusCode = StatusCode(400); pub fn as_u16(&self) -> u16 { self.0 } } }
pub mod header { #[derive(Debug, Clone)] pub struct HeaderValue(String); impl HeaderValue { pub fn from_static(s: &'static str) -> HeaderValue { HeaderValue(s.to_owned()) } } }
pub use status::StatusCode;
pub struct Response<T> { status: StatusCode, headers: Vec<(String, String)>, body: T }
impl Response<()> { pub fn builder() -> Builder { Builder { status: StatusCode::OK, headers: vec![] } } }
impl<T> Response<T> { pub fn new(body: T) -> Self { Response { status: StatusCode::OK, headers: vec![], body } } pub fn status(&self) -> StatusCode { self.status } pub fn status_mut(&mut self) -> &mut StatusCode { &mut self.status } pub fn body(&self) -> &T { &self.body } pub fn into_body(self) -> T { self.body } pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> Response<U> { Response { status: self.status, headers: self.headers, body: f(self.body) } } }
pub struct Builder { status: StatusCode, headers: Vec<(String, String)> }
impl Builder { pub fn status(&mut self, s: StatusCode) -> &mut Self { self.status = s; self } pub fn header(&mut self, k: &str, v: &str) -> &mut Self { self.headers.push((k.to_owned(), v.to_owned())); self } pub fn body<T>(&mut self, body: T) -> Result<Response<T>, String> { Ok(Response { status: self.status, headers: self.headers.clone(), body }) } }
