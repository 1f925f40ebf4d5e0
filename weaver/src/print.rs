//! Plain token printer: one statement per line.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn pretty(t: TokenStream) -> String {
    let mut s = String::new();
    go(t, &mut s, 0, false);
    s.trim().to_string()
}

fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    if !s.ends_with('\n') {
        s.push('\n');
    }
    for _ in 0..ind {
        s.push_str("  ");
    }
}

fn go(t: TokenStream, s: &mut String, ind: usize, braces: bool) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    for (k, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    s.push('{');
                    let empty = g.stream().is_empty();
                    if !empty {
                        nl(s, ind + 1);
                        go(g.stream(), s, ind + 1, true);
                        nl(s, ind);
                    }
                    s.push('}');
                    let next = v.get(k + 1);
                    let glue = matches!(next, Some(TokenTree::Punct(p)) if ",.;?)".contains(p.as_char()))
                        || matches!(next, Some(TokenTree::Ident(i)) if i == "else")
                        || next.is_none();
                    if glue {
                        if matches!(next, Some(TokenTree::Ident(_))) {
                            s.push(' ')
                        }
                    } else if braces {
                        nl(s, ind)
                    } else {
                        s.push(' ')
                    }
                }
                Delimiter::Parenthesis => {
                    s.push('(');
                    go(g.stream(), s, ind, false);
                    trim(s);
                    s.push_str(") ");
                }
                Delimiter::Bracket => {
                    s.push('[');
                    go(g.stream(), s, ind, false);
                    trim(s);
                    s.push_str("] ");
                }
                Delimiter::None => go(g.stream(), s, ind, braces),
            },
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if c == '\'' {
                    s.push(c);
                    continue;
                }
                if ",;.?".contains(c) || (c == ':' && p.spacing() == Spacing::Joint) {
                    trim(s);
                }
                s.push(c);
                if c == ';' && braces {
                    nl(s, ind);
                } else if p.spacing() == Spacing::Alone && c != '.' && c != '!' && c != '&' && c != '*' {
                    s.push(' ');
                }
                if c == ',' && braces {
                    nl(s, ind);
                }
                // `::` is glued on both sides
                if c == ':' && s.ends_with(":: ") {
                    s.pop();
                }
            }
            TokenTree::Ident(i) => {
                s.push_str(&i.to_string());
                s.push(' ');
                if let Some(TokenTree::Group(g)) = v.get(k + 1) {
                    if g.delimiter() != Delimiter::Brace && !["in", "return", "match", "if", "mut", "as", "let", "break", "while"].contains(&i.to_string().as_str()) {
                        s.pop();
                    }
                }
                if let Some(TokenTree::Punct(p)) = v.get(k + 1) {
                    if (p.as_char() == '!' && p.spacing() == Spacing::Alone) || p.as_char() == ':' || p.as_char() == '.' {
                        if s.ends_with(' ') && i != "in" && i != "return" {
                            s.pop();
                        }
                    }
                }
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
            }
        }
    }
}

fn trim(s: &mut String) {
    while s.ends_with(' ') {
        s.pop();
    }
}
