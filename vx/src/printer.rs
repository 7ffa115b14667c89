use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Range {
    pub name: String,
    pub file: String,
    pub src_line: usize,
    pub start: usize,
    pub end: usize,
    pub dropped: Vec<String>,
    pub loops: usize,
    pub shape_changed: bool,
    pub external: bool,
    pub hash: String,
}

pub struct Out {
    pub probe: bool,
    pub probes: usize,
    pub text: String,
    pub ranges: Vec<Range>,
}

impl Out {
    pub fn new() -> Self {
        Out { probe: false, probes: 0, text: String::new(), ranges: vec![] }
    }
    pub fn line(&self) -> usize {
        self.text.matches('\n').count() + 1
    }
    pub fn push(&mut self, s: &str) {
        self.text.push_str(s);
        if !s.ends_with('\n') {
            self.text.push('\n');
        }
    }
}

/// Print tokens with newlines after `;`, `{` and `}`.
pub fn print(ts: TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s, false);
    s
}

fn go(ts: TokenStream, s: &mut String, inparen: bool) {
    let mut joint = true;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !joint {
                    s.push(' ');
                }
                s.push_str(a);
                if a == "{" {
                    s.push('\n');
                }
                go(g.stream(), s, a != "{" && a != "");
                s.push_str(b);
                if a == "{" && !inparen {
                    s.push('\n');
                }
                joint = false;
            }
            TokenTree::Punct(p) => {
                if !joint {
                    s.push(' ');
                }
                s.push(p.as_char());
                joint = p.spacing() == Spacing::Joint || p.as_char() == '\'';
                if p.as_char() == ';' && !inparen {
                    s.push('\n');
                }
            }
            x => {
                if !joint {
                    s.push(' ');
                }
                s.push_str(&x.to_string());
                joint = false;
            }
        }
    }
}
