mod rolling;
simkit::interpose!();

fn main() {
    simkit::runner::main(vec![rolling::durability(), rolling::policy(), rolling::recovery()]);
}
