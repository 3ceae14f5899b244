#[path = "../props_bits.rs"] mod props_bits;
#[path = "../props_kernels.rs"] mod props_kernels;

fn main() {
    let mut props = vec![];
    props.extend(props_bits::props());
    props.extend(props_kernels::props());
    vengine::main_with(&props)
}
