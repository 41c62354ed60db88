//! Prints a token stream one statement per line, so that verifier messages map to small lines.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream) -> String {
    let mut out = String::new();
    go(ts, &mut out);
    out
}

fn go(ts: TokenStream, out: &mut String) {
    let mut it = ts.into_iter().peekable();
    while let Some(tt) = it.next() {
        // `<'a` comes out as `< 'a` whatever the source looked like
        let lifetime = matches!(it.peek(), Some(TokenTree::Punct(p)) if p.as_char() == '\'');
        match tt {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    out.push_str("{\n");
                    go(g.stream(), out);
                    if !out.ends_with('\n') {
                        out.push('\n');
                    }
                    out.push_str("}\n");
                }
                Delimiter::Parenthesis => {
                    out.push('(');
                    go(g.stream(), out);
                    out.push_str(") ");
                }
                Delimiter::Bracket => {
                    out.push('[');
                    go(g.stream(), out);
                    out.push_str("] ");
                }
                Delimiter::None => {
                    go(g.stream(), out);
                }
            },
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.as_char() == ';' {
                    out.push('\n');
                } else if p.spacing() == Spacing::Alone || lifetime {
                    out.push(' ');
                }
            }
            other => {
                out.push_str(&other.to_string());
                out.push(' ');
            }
        }
    }
}
