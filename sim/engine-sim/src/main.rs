mod accounts;
mod answers;
mod caching;
mod exec;
mod faults;
mod gateway;
mod gql;
mod known;
mod model;
mod ops;
mod policy;
mod retries;
mod runtime;
simkit::interpose!();

fn main() {
    // Debugging aid for `replay`: the planner's own log on stderr.
    if std::env::var_os("SIM_LOG").is_some() {
        tracing_subscriber::fmt()
            .with_max_level(tracing_subscriber::filter::LevelFilter::DEBUG)
            .with_ansi(false)
            .without_time()
            .with_writer(std::io::stderr)
            .init();
    }
    simkit::runner::main({
        let mut props = vec![answers::answers(), faults::faults()];
        props.extend(retries::props());
        props.push(accounts::prop());
        props.push(caching::prop());
        props.push(policy::prop());
        props
    });
}
