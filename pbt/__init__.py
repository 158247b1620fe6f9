"""Property-based checks for mentpy: generators, reference models and the runner."""
