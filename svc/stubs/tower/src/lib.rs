//! What `tower` is used for here: a stack of layers.
pub use tower_layer::{Identity, Layer, Stack};
pub use tower_service::Service;
#[derive(Clone, Debug, Default)]
pub struct ServiceBuilder<L>(L);
impl ServiceBuilder<Identity> {
    pub fn new() -> Self {
        ServiceBuilder(Identity)
    }
}
impl<L> ServiceBuilder<L> {
    pub fn layer<T>(self, layer: T) -> ServiceBuilder<Stack<T, L>> {
        ServiceBuilder(Stack(layer, self.0))
    }
}
impl<S, L: Layer<S>> Layer<S> for ServiceBuilder<L> {
    type Service = L::Service;
    fn layer(&self, inner: S) -> L::Service {
        self.0.layer(inner)
    }
}
