#[path = "../gen.rs"] mod gen;
#[path = "../train.rs"] mod train;
#[path = "../props_boost.rs"] mod props_boost;
#[path = "../props_tree.rs"] mod props_tree;
#[path = "../props_dataset.rs"] mod props_dataset;
#[path = "../props_state.rs"] mod props_state;
#[path = "../props_misuse.rs"] mod props_misuse;
#[path = "../props_threads.rs"] mod props_threads;

#[global_allocator]
static ALLOCATOR: props_state::Counting = props_state::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "digest" { return props_boost::digest_main(&args[2]); }
    let mut props = vec![];
    props.extend(props_boost::props());
    props.extend(props_tree::props());
    props.extend(props_dataset::props());
    props.extend(props_state::props());
    props.extend(props_misuse::props());
    props.extend(props_threads::props());
    vengine::main_with(&props)
}
