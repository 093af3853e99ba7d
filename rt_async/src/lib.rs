//! tokio, for the asynchronous half of the generated code
pub use tokio;
