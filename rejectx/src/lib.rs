//! makes cargo build the crates that the generated programs use
