//! Shared parts of the monitors: workload generator, independent model of formulas, runner and reporting.
pub mod gen;
pub mod model;
pub mod rng;
pub mod runner;

pub use model::*;
pub use rng::Rng;
pub use runner::*;

/// Fail the current case with a message.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($fmt:tt)+) => {
        if !$cond {
            return Err(format!($($fmt)+));
        }
    };
}
