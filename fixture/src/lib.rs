//! Client programs over the public API of mysql-connector.  Never executed:
//! the checks analyse their monomorphised MIR.
#![allow(dead_code)]
pub mod client;
pub mod models;
pub mod pools;
pub mod streams;
