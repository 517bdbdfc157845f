pub mod maps;
pub mod reads;
pub mod writes;
pub mod conc;
pub mod repl;
pub mod hostile;
pub mod foreign;
pub mod giant;
pub mod tall;
pub mod sizes;
pub mod ffi;
pub mod obs;
pub mod drops;
