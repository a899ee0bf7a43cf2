NA = {
    "C27": "The compiled backend is a Rust/PyO3 extension whose crates (numpy, ndarray, rayon, pyo3) are not available offline, so neither the extension nor its MIR can be built here; there is no code to execute symbolically next to the Python one.",
}
NOTES = {}
