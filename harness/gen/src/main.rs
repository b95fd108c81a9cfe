mod c16;
mod c20;
mod clash;
mod edits;
mod graph;
mod krate;
mod near;
#[path = "../../schema/src/gen.rs"]
mod gen;
#[path = "../../schema/src/model.rs"]
mod model;
#[path = "../../schema/src/print.rs"]
mod print;
mod types;
mod values;

fn main() {
    vp::main(vec![c16::property(), c20::property()])
}
