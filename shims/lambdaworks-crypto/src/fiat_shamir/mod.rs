pub mod default_transcript;
pub mod log;
pub mod test_transcript;
pub mod transcript;
