#![allow(dead_code)]
mod api;
mod c09;
mod c11;
mod c12;
mod cli;
mod cliops;
mod connect;
mod intro;
mod clients;
mod model;
mod ops;
mod props;
mod sim;
mod tap;
mod world;
#[allow(dead_code)]
#[path = "../../codec/src/bytesgen.rs"]
mod bytesgen;
#[allow(dead_code)]
#[path = "../../codec/src/conv.rs"]
mod conv;
#[allow(dead_code)]
#[path = "../../codec/src/msgs.rs"]
mod msgs;

fn main() {
    let mut all = props::all();
    all.push(c09::property());
    all.push(c11::property());
    all.push(c12::property());
    all.extend(clients::all());
    vp::main(all)
}
