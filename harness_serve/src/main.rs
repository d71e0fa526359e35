#[path = "../../harness/src/common.rs"]
#[allow(dead_code)]
mod common;
#[path = "../../harness/src/rich.rs"]
#[allow(dead_code)]
mod rich;
mod serve;

fn main() {
    pbt::main(serve::props())
}
