//! Token printer: one statement per line, ghost markers replaced by their text.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// Text inserted for the marker `vp_ghost!{k}` (statement) and `vp_inv!{k}` (first statement of a
/// loop body: printed in front of the brace).
pub struct Printer<'a> {
    pub ghost: &'a [String],
    out: String,
    indent: usize,
    bol: bool,
    glue: bool,
}

fn marker(tts: &[TokenTree], at: usize) -> Option<(String, usize, usize)> {
    // ident ! {k} ;?
    if let (Some(TokenTree::Ident(i)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) =
        (tts.get(at), tts.get(at + 1), tts.get(at + 2))
    {
        let n = i.to_string();
        if (n == "vp_ghost" || n == "vp_inv") && p.as_char() == '!' {
            let k: usize = g.stream().to_string().trim().parse().ok()?;
            let mut used = 3;
            if let Some(TokenTree::Punct(p)) = tts.get(at + 3) {
                if p.as_char() == ';' {
                    used = 4;
                }
            }
            return Some((n, k, used));
        }
    }
    None
}

impl<'a> Printer<'a> {
    pub fn new(ghost: &'a [String]) -> Self {
        Printer { ghost, out: String::new(), indent: 0, bol: true, glue: true }
    }
    pub fn print(mut self, ts: TokenStream, indent: usize) -> String {
        self.indent = indent;
        self.stream(ts);
        self.out
    }
    fn nl(&mut self) {
        if !self.bol {
            while self.out.ends_with(' ') {
                self.out.pop();
            }
            self.out.push('\n');
            self.bol = true;
            self.glue = true;
        }
    }
    fn word(&mut self, s: &str, glue_before: bool, glue_after: bool) {
        if self.bol {
            for _ in 0..self.indent {
                self.out.push_str("    ");
            }
            self.bol = false;
        } else if !self.glue && !glue_before {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.glue = glue_after;
    }
    fn raw(&mut self, s: &str) {
        for l in s.lines() {
            self.nl();
            for _ in 0..self.indent {
                self.out.push_str("    ");
            }
            self.out.push_str(l);
            self.bol = false;
            self.nl();
        }
    }
    fn stream(&mut self, ts: TokenStream) {
        let tts: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < tts.len() {
            if let Some((n, k, used)) = marker(&tts, i) {
                if n == "vp_ghost" {
                    self.nl();
                    let g = self.ghost[k].clone();
                    self.raw(&g);
                }
                i += used;
                continue;
            }
            match &tts[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Parenthesis | Delimiter::Bracket => {
                            let (o, c) = if g.delimiter() == Delimiter::Parenthesis { ("(", ")") } else { ("[", "]") };
                            self.word(o, true, true);
                            self.stream(g.stream());
                            self.word(c, true, false);
                        }
                        Delimiter::None => self.stream(g.stream()),
                        Delimiter::Brace => {
                            if let Some((n, k, _)) = marker(&inner, 0) {
                                if n == "vp_inv" {
                                    self.nl();
                                    self.indent += 1;
                                    let g = self.ghost[k].clone();
                                    self.raw(&g);
                                    self.indent -= 1;
                                }
                            }
                            let blocky = !inner.is_empty();
                            self.word("{", false, false);
                            if blocky {
                                self.nl();
                                self.indent += 1;
                                self.stream(g.stream());
                                self.nl();
                                self.indent -= 1;
                            }
                            self.word("}", false, false);
                            // keep `} else`, `};`, `},`, `}.`, `})` together
                            let stay = matches!(tts.get(i + 1), Some(TokenTree::Punct(_)))
                                || matches!(tts.get(i + 1), Some(TokenTree::Ident(x)) if x == "else");
                            if !stay && i + 1 < tts.len() {
                                self.nl();
                            }
                        }
                    }
                }
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    self.word(&s, false, false);
                }
                TokenTree::Literal(l) => {
                    let s = l.to_string();
                    self.word(&s, false, false);
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    let s = c.to_string();
                    let joint = p.spacing() == Spacing::Joint;
                    match c {
                        ';' => {
                            self.word(&s, true, false);
                            self.nl();
                        }
                        ',' => {
                            self.word(&s, true, false);
                        }
                        '.' => self.word(&s, true, true),
                        '\'' => self.word(&s, false, true),
                        _ => {
                            self.word(&s, false, joint);
                        }
                    }
                }
            }
            i += 1;
        }
    }
}
