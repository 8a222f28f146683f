//! Stand-in for sonic-rs (not available here), by serde_json.
pub use serde_json::*;
