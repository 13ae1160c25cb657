use crate::Prop;

pub mod balance;
pub mod budget;
pub mod buffer;
pub mod callall;
pub mod combi;
pub mod hedge;
pub mod layers;
pub mod limit;
pub mod load;
pub mod make;
pub mod mock;
pub mod rng;
pub mod simple;
pub mod stacks;
pub mod trace;
pub mod wrap;

pub fn all() -> Vec<Prop> {
    vec![stacks::C01, stacks::C02, buffer::C03, buffer::C04, buffer::C05, limit::C06, limit::C07, simple::C08, simple::C09, simple::C10, budget::C11, budget::C13, hedge::C14, hedge::C15, balance::C16, balance::C17, balance::C18, load::C19, load::C20, wrap::C21, wrap::C22, wrap::C23, wrap::C24, callall::C25, combi::C26, layers::C27, make::C28, mock::C29, stacks::C30, stacks::C31, stacks::C33, rng::C32, trace::C34]
}
