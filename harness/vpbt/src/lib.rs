pub mod json;
pub mod run;
pub mod src;
pub mod wire;
pub use run::{Ctx, Part, Prop};
pub use src::Src;
