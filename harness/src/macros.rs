//! The C string literal macro: its implementation, compiled as ordinary code, on symbolic literals.
use crate::{harness, sx::*, util::*};
use proc_macro2::{Span, TokenStream as TokenStream2, TokenTree};
use quote::ToTokens;
use syn::{parse2, Lit, LitStr};

/// The literals in the expansion, or that it is an error.
fn literal_in(ts: TokenStream2, found: &mut Vec<Vec<u8>>) -> bool {
    let mut ok = true;
    for t in ts {
        match t {
            TokenTree::Group(g) => ok &= literal_in(g.stream(), found),
            TokenTree::Literal(l) => match parse2::<Lit>(TokenTree::Literal(l).into()) {
                Ok(Lit::ByteStr(l)) => found.push(l.value()),
                Ok(Lit::Str(l)) => found.push(l.value().into_bytes()),
                _ => (),
            },
            TokenTree::Ident(i) => ok &= i != "compile_error",
            _ => (),
        }
    }
    ok
}

/// How the literal is taken: 0 refused, 1 terminated by the macro, 2 by hand.
fn expand(s: &str) -> u8 {
    proc_macro2::fallback::force();
    let nul = s.bytes().position(|b| b == 0);
    let r = pm::c_str(LitStr::new(s, Span::call_site()).into_token_stream());
    let mut found = vec![];
    let ok = literal_in(r, &mut found);
    check(ok == nul.map_or(true, |n| n == s.len() - 1), "a literal is accepted exactly when it has no interior NUL");
    if !ok { return 0; }
    check(found.len() == 1, "the expansion holds one literal");
    let l = &found[0];
    let n = s.len() + nul.is_none() as usize;
    check(l.len() == n, "the text and one terminator");
    check(same(&l[..s.len()], s.as_bytes()) && l[n - 1] == 0, "the literal reads back");
    1 + nul.is_some() as u8
}

//@ prop=M01 bounds="every ASCII literal of up to 2 characters, through the real tokens"
harness!(h_c_literal, {
    let n = any_len("len", 2);
    let b: [u8; 2] = any("text");
    assume(b[0] < 128 && b[1] < 128);
    match expand(core::str::from_utf8(&b[..n]).unwrap()) {
        0 => cover("refused"),
        1 => cover("terminated by the macro"),
        _ => cover("terminated by hand"),
    }
});

//@ prop=M01 tier=thorough time=700 mem=8 bounds="every ASCII literal of 3 characters, through the real tokens"
harness!(h_c_literal3, {
    let b: [u8; 3] = any("text");
    assume(b[0] < 128 && b[1] < 128 && b[2] < 128);
    match expand(core::str::from_utf8(&b).unwrap()) {
        0 => cover("refused"),
        1 => cover("terminated by the macro"),
        _ => cover("terminated by hand"),
    }
});

//@ prop=M01 bounds="every literal of one character beyond ASCII (6 of them, of 2, 3 and 4 bytes, printable or not) and one ASCII character, in either order"
harness!(h_c_literal_unicode, {
    let c = ['\u{e9}', '\u{80}', '\u{301}', '\u{6f22}', '\u{202e}', '\u{1f980}'][any_len("beyond", 5)];
    let a: u8 = any("ascii");
    assume(a < 128);
    let mut s = String::new();
    if any_bool("first") { s.push(a as char); s.push(c); } else { s.push(c); s.push(a as char); }
    match expand(&s) {
        0 => cover("refused"),
        1 => cover("terminated by the macro"),
        _ => cover("terminated by hand"),
    }
});

//@ prop=M01 bounds="four expansions of the macro, and the one without a literal, compiled and read back"
harness!(h_c_literal_compiled, {
    use safer_ffi::c;
    static E: safer_ffi::prelude::char_p::Ref<'static> = c!("");
    let (r, want): (safer_ffi::prelude::char_p::Ref<'static>, &str) = match any_len("which", 4) {
        0 => (c!("h\u{e9}llo \"\\\n"), "h\u{e9}llo \"\\\n"),
        1 => (c!("by hand\0"), "by hand"),
        2 => (E, ""),
        3 => (c!(), ""),
        _ => (c!(r#"raw \0"#), r#"raw \0"#),
    };
    let b = r.to_bytes_with_null();
    check(b.len() == want.len() + 1 && same(&b[..want.len()], want.as_bytes()) && b[want.len()] == 0, "the literal reads back");
    if want.len() == 0 { cover("empty") } else { cover("text") }
});
