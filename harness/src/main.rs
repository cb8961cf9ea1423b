fn main() { std::process::exit(vf::engine::cli(vf::props::all())) }
