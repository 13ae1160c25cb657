use crate::Prop;
mod budget;
mod buffer;
mod hedge;
mod limit;
mod load;
mod mock;
pub fn all() -> Vec<Prop> {
    vec![buffer::c03(), buffer::c04(), buffer::c05(), limit::c06(), budget::c12(), hedge::c15(), load::c19(), load::c20(), mock::c29()]
}
