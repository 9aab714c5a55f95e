//! Stand-in for tower-http.
pub mod cors {
    pub struct Any; pub struct CorsLayer;
    impl CorsLayer { pub fn new() -> Self { Self } pub fn max_age(self, _d: std::time::Duration) -> Self { self } pub fn allow_methods<T>(self, _m: T) -> Self { self } pub fn allow_origin(self, _o: Any) -> Self { self } pub fn allow_headers(self, _o: Any) -> Self { self } }
}
