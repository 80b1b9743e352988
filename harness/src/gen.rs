//! Prints the header of the exports of `abi`, for the language named by the argument; with `other`, under options other than the default ones.
use abi::safer_ffi::headers::{builder, Language};
fn main() -> std::io::Result<()> {
    abi::keep();
    let lang = match std::env::args().nth(1).as_deref() {
        Some("csharp") => Language::CSharp,
        Some("python") => Language::Python,
        _ => Language::C,
    };
    let b = builder().with_language(lang);
    let b = match std::env::args().nth(2) {
        Some(_) => b.with_stable_header(false).with_guard("ABI_OTHER_GUARD").with_text_after_guard("#define C_AFTER_GUARD 1").with_banner("/* a banner */"),
        None => b,
    };
    b.to_writer(std::io::stdout()).generate()
}
