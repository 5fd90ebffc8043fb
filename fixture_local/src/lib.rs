//! the crate under analysis without the remote feature
