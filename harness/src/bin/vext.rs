//! C26: the command line program against the library. C27: the Python wrapper against the library.
#[path = "../gen.rs"] mod gen;
#[path = "../train.rs"] mod train;
#[path = "../props_cli.rs"] mod props_cli;
#[path = "../props_python.rs"] mod props_python;

fn main() {
    let mut ps = props_cli::props();
    ps.extend(props_python::props());
    vengine::main_with(&ps)
}
