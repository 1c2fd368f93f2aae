pub mod parse;
pub mod ser;
pub mod num;
pub mod obj;
pub mod val;
pub mod mem;
pub mod thr;
pub mod big;
pub mod pure;
pub mod scale;
pub mod gens;
pub mod unwind;
