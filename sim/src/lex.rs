//! Tokenizers for the text the tool emits.  Comments are not tokens; they are returned apart.
use crate::plan::Lang;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Lexed {
    pub toks: Vec<String>,
    /// number of tokens in front of the comment, and its text
    pub comments: Vec<(usize, String)>,
}

const OPS: [&str; 30] = [
    ">>>=", "<<=", ">>=", ">>>", "**=", "...", "=>", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<", ">>", "**", "->", ":=", "//", "~~",
];

fn ident_start(c: char) -> bool {
    c.is_alphabetic() || c == '_' || c == '$'
}
fn ident(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '$'
}

/// one way of writing a string literal with the value `s`
pub fn quoted(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\0'..='\u{1f}' | '\u{7f}' => o.push_str(&format!("\\x{:02x}", c as u32)),
            '\u{85}' | '\u{2028}' | '\u{2029}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            _ => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn quoted_bytes(v: &[u8]) -> String {
    match std::str::from_utf8(v) {
        Ok(s) => quoted(s),
        Err(_) => format!("\"{}\"", v.iter().map(|b| format!("\\x{b:02x}")).collect::<String>()),
    }
}
/// the same literal, whatever escapes it was written with
fn canon(lit: &str) -> String {
    let Some(p) = lit.find(['"', '\'']) else { return lit.into() };
    let body: Vec<char> = lit[p + 1..lit.len() - 1].chars().collect();
    let mut v: Vec<u8> = vec![];
    let mut utf = [0u8; 4];
    let mut i = 0;
    while i < body.len() {
        if body[i] != '\\' || i + 1 >= body.len() {
            v.extend(body[i].encode_utf8(&mut utf).bytes());
            i += 1;
            continue;
        }
        let hex = |n: usize| -> Option<char> { body.get(i + 2..i + 2 + n).and_then(|h| u32::from_str_radix(&h.iter().collect::<String>(), 16).ok()).and_then(char::from_u32) };
        match body[i + 1] {
            'n' => v.push(b'\n'),
            't' => v.push(b'\t'),
            'r' => v.push(b'\r'),
            'x' if hex(2).is_some() => {
                v.push(hex(2).unwrap() as u32 as u8);
                i += 2;
            }
            'u' if hex(4).is_some() => {
                v.extend(hex(4).unwrap().encode_utf8(&mut utf).bytes());
                i += 4;
            }
            c => v.extend(c.encode_utf8(&mut utf).bytes()),
        }
        i += 2;
    }
    format!("{}{}", &lit[..p], quoted_bytes(&v))
}
fn string(c: &[char], mut i: usize) -> Result<usize, String> {
    let q = c[i];
    i += 1;
    while i < c.len() {
        if c[i] == '\\' {
            i += 2;
            continue;
        }
        if c[i] == '\n' {
            return Err("newline in string".into());
        }
        if c[i] == q {
            return Ok(i + 1);
        }
        i += 1;
    }
    Err("unterminated string".into())
}
/// Vyper source text has Python's rules: no carriage return and no NUL in a literal
fn vy_string(c: &[char], i: usize) -> Result<usize, String> {
    let e = string(c, i)?;
    match c[i..e].iter().find(|x| matches!(x, '\r' | '\0')) {
        Some(x) => Err(format!("invalid character {x:?} in string")),
        None => Ok(e),
    }
}
/// the value of a documentation string as written
fn unescape_doc(t: &str) -> String {
    let mut o = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('\\') => o.push('\\'),
            Some('"') => o.push('"'),
            Some('\'') => o.push('\''),
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some('\n') => {}
            Some(x) => {
                o.push('\\');
                o.push(x);
            }
            None => o.push('\\'),
        }
    }
    o
}
/// one way of writing the documentation token
pub fn escape_doc(tok: &str) -> String {
    format!("\"\"\"{}\"\"\"", tok[3..tok.len() - 3].replace('\\', "\\\\").replace('"', "\\\""))
}
/// what may stand in a string is narrower in Solidity
fn sol_string(c: &[char], i: usize, unicode: bool) -> Result<usize, String> {
    let e = string(c, i)?;
    let mut k = i + 1;
    while k < e - 1 {
        if c[k] == '\\' {
            let digits = |n: usize| (0..n).all(|d| c.get(k + 2 + d).map_or(false, |h| h.is_ascii_hexdigit()));
            let ok = match c[k + 1] {
                'n' | 't' | 'r' | '\\' | '"' | '\'' => true,
                'x' => digits(2),
                'u' => digits(4),
                _ => false,
            };
            if !ok {
                return Err(format!("invalid escape \\{} in string", c[k + 1]));
            }
            k += 2;
            continue;
        }
        let fine = if unicode { !matches!(c[k], '\n' | '\r' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}') } else { (' '..='~').contains(&c[k]) };
        if !fine {
            return Err(format!("invalid character {:?} in string", c[k]));
        }
        k += 1;
    }
    Ok(e)
}
fn word(c: &[char], mut i: usize) -> usize {
    if c[i].is_ascii_digit() {
        // number: digits, letters, underscores, and a point followed by a digit
        while i < c.len() && (ident(c[i]) || (c[i] == '.' && i + 1 < c.len() && c[i + 1].is_ascii_digit())) {
            i += 1;
        }
    } else {
        while i < c.len() && ident(c[i]) {
            i += 1;
        }
    }
    i
}
fn op(c: &[char], i: usize, skip: &[&str]) -> usize {
    for o in OPS {
        if skip.contains(&o) {
            continue;
        }
        let n = o.len();
        if i + n <= c.len() && o.chars().zip(&c[i..i + n]).all(|(a, b)| a == *b) {
            return i + n;
        }
    }
    i + 1
}

pub fn solidity(text: &str) -> Result<Lexed, String> {
    let c: Vec<char> = text.chars().collect();
    let (mut toks, mut comments) = (vec![], vec![]);
    let mut i = 0;
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() {
            i += 1;
        } else if ch == '/' && i + 1 < c.len() && c[i + 1] == '/' {
            let s = i;
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            comments.push((toks.len(), c[s..i].iter().collect()));
        } else if ch == '/' && i + 1 < c.len() && c[i + 1] == '*' {
            let s = i;
            i += 2;
            loop {
                if i + 1 >= c.len() {
                    return Err("unterminated comment".into());
                }
                if c[i] == '*' && c[i + 1] == '/' {
                    i += 2;
                    break;
                }
                i += 1;
            }
            comments.push((toks.len(), c[s..i].iter().collect()));
        } else {
            let mut text = ch == '"' || ch == '\'';
            let e = if text {
                sol_string(&c, i, false)?
            } else if ident_start(ch) || ch.is_ascii_digit() {
                let e = word(&c, i);
                let w: String = c[i..e].iter().collect();
                // hex"..." and unicode"..." are one token each
                if (w == "hex" || w == "unicode") && e < c.len() && (c[e] == '"' || c[e] == '\'') {
                    text = true;
                    sol_string(&c, e, w == "unicode")?
                } else {
                    e
                }
            } else {
                op(&c, i, &["//", "~~", ">>>", ">>>="])
            };
            let t: String = c[i..e].iter().collect();
            toks.push(if text { canon(&t) } else { t });
            i = e;
        }
    }
    Ok(Lexed { toks, comments })
}

pub const NL: &str = "\u{21b5}";
pub const IND: &str = "\u{21e5}";
pub const DED: &str = "\u{21e4}";

/// documentation strings are compared without regard to white space
pub fn doc(text: &str) -> String {
    format!("\"\"\"{}\"\"\"", text.split_whitespace().collect::<Vec<_>>().join(" "))
}

pub fn vyper(text: &str) -> Result<Lexed, String> {
    let (mut toks, mut comments): (Vec<String>, Vec<(usize, String)>) = (vec![], vec![]);
    let mut ind: Vec<usize> = vec![0];
    let mut depth = 0i32;
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut bol = true;
    let mut line_has = false;
    while i < c.len() {
        if bol && depth == 0 {
            let s = i;
            while i < c.len() && (c[i] == ' ' || c[i] == '\t') {
                i += 1;
            }
            if i >= c.len() {
                break;
            }
            if c[i] == '\n' {
                i += 1;
                continue;
            }
            bol = false;
            if c[i] == '#' {
                line_has = false;
            } else {
                let w = i - s;
                if w > *ind.last().unwrap() {
                    ind.push(w);
                    toks.push(IND.into());
                }
                while w < *ind.last().unwrap() {
                    ind.pop();
                    toks.push(DED.into());
                    if w > *ind.last().unwrap() {
                        return Err("inconsistent dedent".into());
                    }
                }
            }
            continue;
        }
        let ch = c[i];
        if ch == '\n' {
            if depth == 0 {
                if line_has {
                    toks.push(NL.into());
                }
                line_has = false;
                bol = true;
            }
            i += 1;
        } else if ch.is_whitespace() {
            i += 1;
        } else if ch == '#' {
            let s = i;
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            comments.push((toks.len(), c[s..i].iter().collect()));
        } else {
            line_has = true;
            let e = if ch == '"' && i + 2 < c.len() && c[i + 1] == '"' && c[i + 2] == '"' {
                let mut j = i + 3;
                loop {
                    if j + 2 >= c.len() {
                        return Err("unterminated docstring".into());
                    }
                    if c[j] == '\\' {
                        j += 2;
                        continue;
                    }
                    if c[j] == '"' && c[j + 1] == '"' && c[j + 2] == '"' {
                        break j + 3;
                    }
                    j += 1;
                }
            } else if ch == '"' || ch == '\'' {
                vy_string(&c, i)?
            } else if ident_start(ch) || ch.is_ascii_digit() {
                let e = word(&c, i);
                if (e - i == 1 && ch == 'b') && e < c.len() && c[e] == '"' {
                    vy_string(&c, e)?
                } else {
                    e
                }
            } else {
                op(&c, i, &["++", "--", "&&", "||", "=>", ":=", "~~"])
            };
            let mut t: String = c[i..e].iter().collect();
            if t.starts_with("\"\"\"") {
                t = doc(&unescape_doc(&t[3..t.len() - 3]));
            } else if t.ends_with(['"', '\'']) {
                t = canon(&t);
            }
            match t.as_str() {
                "(" | "[" | "{" => depth += 1,
                ")" | "]" | "}" => depth -= 1,
                _ => {}
            }
            if depth < 0 {
                return Err("unbalanced".into());
            }
            toks.push(t);
            i = e;
        }
    }
    if line_has {
        toks.push(NL.into());
    }
    while ind.len() > 1 {
        ind.pop();
        toks.push(DED.into());
    }
    if depth != 0 {
        return Err("unbalanced".into());
    }
    Ok(Lexed { toks, comments })
}

pub fn lex(lang: Lang, text: &str) -> Result<Lexed, String> {
    match lang {
        Lang::Sol => solidity(text),
        Lang::Vy => vyper(text),
    }
}
/// What a compiler's parser would notice at once: nothing there, or brackets that do not match.
pub fn plausible(lang: Lang, text: &str) -> Option<Vec<String>> {
    let l = lex(lang, text).ok()?;
    if l.toks.is_empty() {
        return None;
    }
    let mut st: Vec<&str> = vec![];
    for t in &l.toks {
        match t.as_str() {
            "(" | "[" | "{" => st.push(t),
            ")" => {
                if st.pop() != Some("(") {
                    return None;
                }
            }
            "]" => {
                if st.pop() != Some("[") {
                    return None;
                }
            }
            "}" => {
                if st.pop() != Some("{") {
                    return None;
                }
            }
            _ => {}
        }
    }
    if st.is_empty() {
        Some(l.toks)
    } else {
        None
    }
}
