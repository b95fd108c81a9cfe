mod bytesgen;
mod c01;
mod c07;
mod c08;
mod c13;
mod c14;
mod conv;
mod msgs;
mod pick;

#[global_allocator]
static ALLOC: vp::alloc::Counting = vp::alloc::Counting;

fn main() {
    vp::main(vec![c01::property(), c07::property(), c08::property(), c13::property(), c14::property()])
}
