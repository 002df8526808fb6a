//! A stand-in for `tracing-serde`, as far as `tracing-subscriber` needs it.
use serde::ser::{Serialize, SerializeMap, Serializer};
use tracing_core::field::{Field, Visit};
use tracing_core::{Event, Level};

pub struct SerializeLevel<'a>(&'a Level);
impl Serialize for SerializeLevel<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self.0)
    }
}
pub trait AsSerde<'a> {
    type Serializable: Serialize + 'a;
    fn as_serde(&'a self) -> Self::Serializable;
}
impl<'a> AsSerde<'a> for Level {
    type Serializable = SerializeLevel<'a>;
    fn as_serde(&'a self) -> Self::Serializable {
        SerializeLevel(self)
    }
}

pub struct SerdeMapVisitor<S: SerializeMap> {
    serializer: S,
    state: Result<(), S::Error>,
}
impl<S: SerializeMap> SerdeMapVisitor<S> {
    pub fn new(serializer: S) -> Self {
        Self { serializer, state: Ok(()) }
    }
    pub fn finish(self) -> Result<S::Ok, S::Error> {
        self.state?;
        self.serializer.end()
    }
    pub fn take_serializer(self) -> Result<S, S::Error> {
        self.state?;
        Ok(self.serializer)
    }
}
impl<S: SerializeMap> Visit for SerdeMapVisitor<S> {
    fn record_debug(&mut self, field: &Field, value: &dyn std::fmt::Debug) {
        if self.state.is_ok() {
            self.state = self.serializer.serialize_entry(field.name(), &format!("{value:?}"));
        }
    }
    fn record_str(&mut self, field: &Field, value: &str) {
        if self.state.is_ok() {
            self.state = self.serializer.serialize_entry(field.name(), value);
        }
    }
}

pub mod fields {
    use super::*;
    pub struct SerializeFieldMap<'a>(&'a Event<'a>);
    impl Serialize for SerializeFieldMap<'_> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            let mut v = SerdeMapVisitor::new(s.serialize_map(None)?);
            self.0.record(&mut v);
            v.finish()
        }
    }
    pub trait AsMap {
        type Out<'a>
        where
            Self: 'a;
        fn field_map(&self) -> Self::Out<'_>;
    }
    impl AsMap for Event<'_> {
        type Out<'a> = SerializeFieldMap<'a> where Self: 'a;
        fn field_map(&self) -> SerializeFieldMap<'_> {
            // only shortens the lifetime
            SerializeFieldMap(unsafe { std::mem::transmute::<&Event<'_>, &Event<'_>>(self) })
        }
    }
}
