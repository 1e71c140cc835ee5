// The extracted text under the name and paths of the crate it was extracted from.
pub use claxon_x::lib_::*;
pub use claxon_x::error::*;
pub use claxon_x::frame::Block;
pub mod frame { pub use claxon_x::frame::*; }
pub mod input { pub use claxon_x::input::*; }
pub mod metadata { pub use claxon_x::metadata::*; }
pub mod subframe { pub use claxon_x::subframe::*; }
