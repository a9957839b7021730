pub mod lits;
pub mod raw;
pub mod rawgen;
pub mod cases;
pub mod glue;
pub mod schema;
pub mod val;
