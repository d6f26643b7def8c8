//! Printing of tokens, one statement per line.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream, depth: usize) -> String {
    let mut out = String::new();
    go(ts, depth, &mut out);
    out
}

fn nl(out: &mut String, depth: usize) {
    while out.ends_with(' ') { out.pop(); }
    out.push('\n');
    for _ in 0..depth { out.push_str("    "); }
}

fn go(ts: TokenStream, depth: usize, out: &mut String) {
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::None => ("", ""),
                };
                out.push_str(a);
                if g.delimiter() == Delimiter::Brace && !g.stream().is_empty() {
                    nl(out, depth + 1);
                    go(g.stream(), depth + 1, out);
                    nl(out, depth);
                    out.push_str(b);
                    let brk = match it.peek() {
                        Some(TokenTree::Ident(i)) => i != "else",
                        Some(TokenTree::Group(_)) => true,
                        Some(TokenTree::Punct(p)) => !matches!(p.as_char(), '.' | '?' | ',' | ';' | ')'),
                        Some(_) => true,
                        None => false,
                    };
                    if brk { nl(out, depth); } else if it.peek().is_some() { out.push(' '); }
                } else {
                    go(g.stream(), depth, out);
                    while out.ends_with(' ') { out.pop(); }
                    out.push_str(b);
                    out.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                if matches!(p.as_char(), '.' | ',' | ';' | '?') && p.spacing() == Spacing::Alone || (p.as_char() == '.') {
                    while out.ends_with(' ') { out.pop(); }
                }
                out.push(p.as_char());
                if p.as_char() == ';' && it.peek().is_some() { nl(out, depth); }
                else if p.spacing() == Spacing::Alone && !matches!(p.as_char(), '&' | '#' | '!') { out.push(' '); }
            }
            t => { out.push_str(&t.to_string()); out.push(' '); }
        }
    }
}
