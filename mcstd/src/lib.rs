//! Explorer-controlled replacement for `std::collections`.
//!
//! `HashMap`/`HashSet` behave exactly like the std ones, except that the order in which their
//! entries are visited (the only unspecified part of their contract) is an explicit choice
//! that `explore` enumerates.

pub mod atomic;
pub mod choice;
pub mod collections;
