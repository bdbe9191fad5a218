mod corpus;
mod edits;
mod engine;
mod layouts;
mod model;
mod prettys;
mod reads;
mod scalars;
mod scaled;
mod serdes;
mod text;
mod sizes;
mod tys;
mod util;
mod walks;

fn main() {
    let props: Vec<engine::Property> = [text::props(), scalars::props(), edits::props(), prettys::props(), walks::props(), serdes::props(), reads::props()].into_iter().flatten().collect();
    std::process::exit(engine::main(&props));
}
