//! Executes scripts over the public interface of the library.
use vharness::store::{Contexts, Store};
use vharness::*;

fn main() {
    main_loop(Store::new(Contexts::new()));
}
