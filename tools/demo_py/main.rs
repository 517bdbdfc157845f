use hyperbee as _;
fn main() {
    uniffi::uniffi_bindgen_main()
}
