//! Property-based checks for antlr_syntax.
pub mod canon;
pub mod case;
pub mod driver;
pub mod gen;
pub mod gram;
pub mod heap;
pub mod known;
pub mod model;
pub mod props;
pub mod run;
pub mod shrink;
pub mod sym;
