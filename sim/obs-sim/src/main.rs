mod collectors;
mod events;
mod logs;
mod metrics;
mod traces;
simkit::interpose!();

fn main() {
    crossbeam_queue::hook::install(simkit::threads::yield_point);
    reqwest012::hook::install(collectors::network);
    simkit::runner::main(vec![events::delivery(), events::timing(), logs::context(), metrics::conservation(), traces::stories(), collectors::destinations()]);
}
