mod astx;
mod c17;
mod c18;
mod cli;
mod corpus;
mod deep;
mod front;
mod gen;
mod lexer;
mod model;
mod mutate;
mod print;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).is_some_and(|x| x == "deep") {
        return deep::child(a[2].parse().unwrap());
    }
    vp::main(vec![c17::property(), c18::property()])
}
