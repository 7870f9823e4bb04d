pub use tsify_macros_stub::Tsify;
