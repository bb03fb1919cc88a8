pub mod catalog;
pub mod common;
pub mod explore;
pub mod refspec;
pub mod rngctl;
pub mod runner;
