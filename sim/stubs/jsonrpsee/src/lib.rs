//! Stand-in for jsonrpsee: error codes, the trait macro and a server that hands the module over instead of listening.
use std::{any::Any, sync::Mutex};
pub use jsonrpsee_macros as proc_macros_impl;
pub mod proc_macros { pub use jsonrpsee_macros::rpc; }
pub use types::ErrorObjectOwned;
pub mod core { pub use async_trait::async_trait; pub type RpcResult<T> = Result<T, crate::types::ErrorObjectOwned>; }
pub mod types {
    pub use error::{ErrorCode, ErrorObject, ErrorObjectOwned};
    pub mod error {
        use std::{borrow::Cow, marker::PhantomData};
        pub const INVALID_PARAMS_CODE: i32 = -32602; pub const INTERNAL_ERROR_CODE: i32 = -32603;
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum ErrorCode { ParseError, OversizedRequest, InvalidRequest, MethodNotFound, ServerIsBusy, InvalidParams, InternalError, ServerError(i32) }
        impl ErrorCode { pub fn message(&self) -> &'static str { match self { Self::ParseError => "Parse error", Self::OversizedRequest => "Request is too big", Self::InvalidRequest => "Invalid request", Self::MethodNotFound => "Method not found", Self::ServerIsBusy => "Server is busy, try again later", Self::InvalidParams => "Invalid params", Self::InternalError => "Internal error", Self::ServerError(_) => "Server error" } } pub const fn code(&self) -> i32 { match self { Self::ParseError => -32700, Self::OversizedRequest => -32007, Self::InvalidRequest => -32600, Self::MethodNotFound => -32601, Self::ServerIsBusy => -32009, Self::InvalidParams => -32602, Self::InternalError => -32603, Self::ServerError(c) => *c } } }
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct ErrorObject<'a> { code: i32, message: String, _p: PhantomData<Cow<'a, str>> }
        pub type ErrorObjectOwned = ErrorObject<'static>;
        impl<'a> ErrorObject<'a> {
            pub fn borrowed(code: i32, message: &'a str, _d: Option<&'a ()>) -> Self { Self { code, message: message.to_string(), _p: PhantomData } }
            pub fn into_owned(self) -> ErrorObjectOwned { ErrorObject { code: self.code, message: self.message, _p: PhantomData } }
            pub fn code(&self) -> i32 { self.code }
            pub fn message(&self) -> &str { &self.message }
            pub fn owned<D>(code: i32, message: impl Into<String>, _d: Option<D>) -> Self { Self { code, message: message.into(), _p: PhantomData } }
        }
        impl<'a> From<ErrorCode> for ErrorObject<'a> { fn from(c: ErrorCode) -> Self { Self { code: c.code(), message: c.message().to_string(), _p: PhantomData } } }
    }
}
/// The methods of a server, ready to be called.
pub struct RpcModule(pub Box<dyn Any + Send>);
impl RpcModule { pub fn new<T: Send + 'static>(t: T) -> Self { Self(Box::new(t)) } }
/// The module that was started last.
pub static STARTED: Mutex<Option<Box<dyn Any + Send>>> = Mutex::new(None);
pub mod server {
    #[derive(Default)]
    pub struct ServerBuilder;
    impl ServerBuilder {
        pub fn set_middleware<M>(self, _m: M) -> Self { self }
        pub fn max_connections(self, _n: u32) -> Self { self }
        pub fn max_request_body_size(self, _n: u32) -> Self { self }
        pub fn max_response_body_size(self, _n: u32) -> Self { self }
        pub fn http_only(self) -> Self { self }
        pub async fn build(self, _addr: impl ToString) -> Result<Server, std::io::Error> { Ok(Server) }
    }
    pub struct Server;
    impl Server { pub fn start(self, m: impl Into<crate::RpcModule>) -> ServerHandle { *crate::STARTED.lock().unwrap() = Some(m.into().0); ServerHandle } }
    #[derive(Clone)]
    pub struct ServerHandle;
    impl ServerHandle { pub async fn stopped(self) {} }
}
