#[path = "../gen.rs"] mod gen;
#[path = "../train.rs"] mod train;
#[path = "../props_objective.rs"] mod props_objective;
#[path = "../props_values.rs"] mod props_values;
#[path = "../props_data.rs"] mod props_data;

fn main() {
    let mut props = vec![];
    props.extend(props_objective::props());
    props.extend(props_values::props());
    props.extend(props_data::props());
    vengine::main_with(&props)
}
