//! Program texts taken from the repository's tests and documentation (tools/extract.py), and edits of them.
use crate::choice::Src;

pub fn load(dir: &str, name: &str) -> Vec<String> {
    let t = std::fs::read_to_string(format!("{dir}/corpus/{name}")).unwrap_or_default();
    t.split("\n\x1e\n").filter(|t| !t.is_empty()).map(|t| t.to_string()).collect()
}

/// Splits a text into tokens, roughly: words, numbers, strings, operators, blanks.
pub fn tokens(t: &str) -> Vec<String> {
    let cs: Vec<char> = t.chars().collect();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < cs.len() {
        let s = i;
        let c = cs[i];
        if c.is_whitespace() {
            while i < cs.len() && cs[i].is_whitespace() {
                i += 1;
            }
        } else if c.is_alphanumeric() || c == '_' {
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
        } else if c == '"' {
            i += 1;
            while i < cs.len() && cs[i] != '"' {
                if cs[i] == '\\' {
                    i += 1;
                }
                i += 1;
            }
            i = (i + 1).min(cs.len());
        } else {
            i += 1;
            while i < cs.len() && "=<>!&|.:+-*".contains(c) && "=>|.:&".contains(cs[i]) && i - s < 3 {
                i += 1;
            }
        }
        i = i.min(cs.len());
        out.push(cs[s..i].iter().collect());
    }
    out
}

const VALUES: [&str; 12] = ["0", "1", "2", "3", "5", "10", "7", "4", "6", "100", "-1", "9223372036854775807"];

/// Small edits that usually keep a program well typed: other literals, other operators, other names
/// that occur in it, with a chance of runtime inputs in place of integer literals.
pub fn mutate(s: &mut Src, text: &str, opaque: bool) -> String {
    let mut ts = tokens(text);
    let n = s.len(1, 4);
    for _ in 0..n {
        let at = s.idx(ts.len().max(1));
        // The next token something can be done about.
        for d in 0..ts.len() {
            let i = (at + d) % ts.len();
            let t = ts[i].clone();
            let before = if i > 0 { ts[i - 1].as_str() } else { "" };
            let new = if t.chars().all(|c| c.is_ascii_digit()) && before != "." && !before.ends_with("..") || t.chars().all(|c| c.is_ascii_digit()) && before.ends_with("..") {
                if opaque && s.flip() { format!("host::get({})", s.below(4)) } else { s.pick(&VALUES).to_string() }
            } else if ["+", "-", "*"].contains(&t.as_str()) {
                s.pick(&["+", "-", "*"]).to_string()
            } else if ["<", "<=", ">", ">=", "==", "!="].contains(&t.as_str()) {
                s.pick(&["<", "<=", ">", ">=", "==", "!="]).to_string()
            } else if t == "true" || t == "false" {
                if opaque && s.flip() { format!("(host::get({}) > 1)", s.below(4)) } else { ["true", "false"][s.idx(2)].to_string() }
            } else if t == "and" || t == "or" {
                ["and", "or"][s.idx(2)].to_string()
            } else if t.starts_with('"') && t.len() > 1 && !before.ends_with('f') {
                s.pick(&["\"\"", "\"a\"", "\"hello world\"", "\"é\"", "\"0\""]).to_string()
            } else {
                continue;
            };
            ts[i] = new;
            break;
        }
    }
    ts.concat()
}
