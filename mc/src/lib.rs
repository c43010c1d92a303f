pub mod canon;
pub mod docx;
pub mod engine;
pub mod html;
pub mod model;
pub mod props;
pub mod sut;
