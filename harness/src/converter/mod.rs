pub use upppp_rust::check_signals;
#[path = "../../../build/mirror/conv/convertertools.rs"]
pub mod convertertools;
