//! The trait of `tower-layer`.
pub trait Layer<S> {
    type Service;
    fn layer(&self, inner: S) -> Self::Service;
}
#[derive(Clone, Default, Debug)]
pub struct Identity;
impl<S> Layer<S> for Identity {
    type Service = S;
    fn layer(&self, inner: S) -> S {
        inner
    }
}
#[derive(Clone, Debug)]
pub struct Stack<Inner, Outer>(pub Inner, pub Outer);
impl<S, Inner: Layer<S>, Outer: Layer<Inner::Service>> Layer<S> for Stack<Inner, Outer> {
    type Service = Outer::Service;
    fn layer(&self, service: S) -> Self::Service {
        self.1.layer(self.0.layer(service))
    }
}
