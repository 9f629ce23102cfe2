pub mod element;
pub mod errors;
pub mod fields;
pub mod traits;
