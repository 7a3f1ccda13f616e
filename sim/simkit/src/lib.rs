//! Everything of the simulation that does not touch the library under test: the choice source, the
//! class image generator, the fault injector and the reference decoder that serves as the oracle.
pub mod dec;
pub mod fault;
pub mod gen;
pub mod hash;
pub mod optab;
pub mod src;
pub mod tok;
