mod conflict;
mod delta;
mod expect;
mod gate;
mod introspect;
mod publish;
mod registry;
mod sdl;
mod supply;
simkit::interpose!();

fn main() {
    simkit::runner::main(vec![registry::replicas(), registry::meaning(), delta::deltas(), gate::gate(), introspect::introspection()]);
}
