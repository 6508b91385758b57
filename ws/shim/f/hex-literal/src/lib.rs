pub use sub_macros::hex;
