#[macro_use]
pub mod ex;
pub mod model;
pub mod pipe;
pub mod run;
pub mod svgx;
pub mod reflang;
pub mod texts;
pub mod geom;
pub mod docs;
