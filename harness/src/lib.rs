pub mod cairo;
pub mod cairoair;
pub mod forge;
pub mod progair;
pub mod proofs;
pub mod refmerkle;
pub mod refstark;
pub mod report;
pub mod rng;
pub mod script;
pub mod shipped;
