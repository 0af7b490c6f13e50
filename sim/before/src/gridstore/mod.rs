mod builder;
mod common;
mod gridstore_format;
mod spatial;
mod store;

pub use builder::GridStoreBuilder;
pub use common::*;
pub use store::GridStore;
