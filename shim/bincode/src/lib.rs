//! Environment model of bincode 2.0.0-rc.2: only the writer trait.
pub mod enc {
    pub mod write {
        pub trait Writer {
            fn write(&mut self, bytes: &[u8]) -> Result<(), crate::error::EncodeError>;
        }
    }
}
pub mod error {
    #[derive(Debug)]
    pub enum EncodeError {
        Io { inner: std::io::Error, index: usize },
        Other(&'static str),
        UnexpectedEnd,
    }
    impl core::fmt::Display for EncodeError {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            write!(f, "{:?}", self)
        }
    }
    impl std::error::Error for EncodeError {}
}
