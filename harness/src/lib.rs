pub mod alloc;
pub mod cov;
pub mod dict;
pub mod engine;
pub mod formula;
pub mod gen;
pub mod lang;
pub mod model;
pub mod observe;
pub mod props;
pub mod refparse;
pub mod render;
pub mod tape;
