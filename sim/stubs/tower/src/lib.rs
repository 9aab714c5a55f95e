//! Stand-in for tower.
pub struct ServiceBuilder; impl ServiceBuilder { pub fn new() -> Self { Self } pub fn layer<T>(self, _l: T) -> Self { self } }
