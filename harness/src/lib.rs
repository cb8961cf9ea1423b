pub mod big;
pub mod dd;
pub mod delaunay;
pub mod diag;
pub mod engine;
pub mod gen;
pub mod oracle;
pub mod props;
pub mod rng;
