pub mod ddir;
