pub mod clouds;
pub mod common;
pub mod conc;
pub mod heap;
pub mod io;
pub mod labels;
pub mod prob;
pub mod rich;
pub mod tree;


pub fn props() -> Vec<pbt::Prop> {
    let mut props = vec![];
    props.extend(tree::props());
    props.extend(labels::props());
    props.extend(clouds::props());
    props.extend(conc::props());
    props.extend(prob::props());
    props.extend(io::props());
    props.extend(heap::props());
    props
}
