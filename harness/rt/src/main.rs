mod drv;
mod props;

fn main() {
    vpbt::run::main(props::all());
}
