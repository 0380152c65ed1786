pub mod codec;
pub mod gen;
pub mod huge;
pub mod model;
pub mod props;
pub mod refcodec;
pub mod run;
pub mod spec;
pub mod sweep;
