// Only exists so that cargo builds the crate under analysis as a dependency.
