pub mod prelude {
    pub use wasm_bindgen_noop::wasm_bindgen;
}
pub use wasm_bindgen_noop::wasm_bindgen;
