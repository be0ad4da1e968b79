//! symx: symbolic execution of magnesia's real generic code.
//!
//! The library is generic over its element type.  Instantiated with `Sym`, the compiled library
//! code runs unchanged, every arithmetic operation builds an SMT term over the reals and every
//! comparison (`==`, `<`, ...) becomes a branch whose two outcomes are checked for feasibility by
//! the SMT solver; the path explorer re-executes the code once per feasible path.  Claims
//! (`prove`) are discharged as `path condition and not claim` being unsatisfiable.
//!
//! A satisfiable query yields concrete inputs, with which the same code is run again on concrete
//! exact rationals; only a failure that shows up in that run is reported.
pub mod bounded;
pub mod counted;
pub mod de;
pub mod dyns;
pub mod elem;
pub mod fl;
pub mod llvm;
pub mod nan;
pub mod polys;
pub mod rat;
pub mod run;
pub mod signed;
pub mod solver;
pub mod sym;

pub use de::*;
pub use dyns::*;
pub use elem::*;
pub use fl::Fl;
pub use nan::Nn;
pub use polys::*;
pub use run::{case, main, Case, Tier};
pub use signed::{printed, Sz};
pub use sym::*;
