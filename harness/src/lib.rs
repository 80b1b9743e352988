#![allow(clippy::all)]
pub mod sx;
pub mod util;
pub mod bytes;
pub mod macros;
pub mod slices;
pub mod vecs;
pub mod strings;
pub mod options;
pub mod layout;
pub mod headers;
// Made by build.py from headers.rs: the same, against the C# and the Python declarations.
#[path = "../../build/gen/headers_csharp.rs"]
pub mod headers_csharp;
#[path = "../../build/gen/headers_python.rs"]
pub mod headers_python;
pub mod exports;
pub mod closures;
pub mod dyns;
pub mod tasks;
pub mod threads;
pub mod unwinding;
