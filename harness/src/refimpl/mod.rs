//! An independent reference for the JSON-LD 1.1 algorithms, written from the
//! specification over plain JSON trees. It shares no code with the crates
//! under test except the error code names (and `iref` for RFC 3987 syntax).
pub mod json;
pub mod ctx;
pub mod grammar;
pub mod expand;
pub mod compact;
pub mod flatten;
pub mod rdf;
pub use json::J;
