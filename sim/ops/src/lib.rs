pub mod dag;
pub mod drive;
pub mod ext;

pub mod proxy;
pub mod pair;
pub mod col;
pub mod tracing;
