#![allow(unused_imports)]
pub use sub::rt_stubs::std_precompiles::*;
