//! Offline stand-in for the parts of bincode 2.0.0-rc.2 the prover implements.
pub mod enc {
    pub mod write {
        pub trait Writer {
            fn write(&mut self, bytes: &[u8]) -> Result<(), crate::error::EncodeError>;
        }
    }
}
pub mod error {
    #[derive(Debug)]
    #[non_exhaustive]
    pub enum EncodeError {
        UnexpectedEnd,
        Other(&'static str),
        OtherString(String),
        Io {
            inner: std::io::Error,
            index: usize,
        },
    }
    impl std::fmt::Display for EncodeError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for EncodeError {}
}
