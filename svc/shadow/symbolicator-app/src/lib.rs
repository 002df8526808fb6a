//! The service and the endpoints of the `symbolicator` crate, to be called without a server.
#[path = "/repo/crates/symbolicator/src/endpoints/mod.rs"]
pub mod endpoints;
#[path = "/repo/crates/symbolicator/src/service.rs"]
pub mod service;

pub use symbolicator_service::{config, metric, utils};
