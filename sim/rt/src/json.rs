//! Just enough JSON.
use std::fmt::Write;
pub fn s(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// Extracts a top-level field of a flat JSON document we wrote ourselves.
pub fn field<'a>(doc: &'a str, name: &str) -> Option<&'a str> {
    let key = format!("\"{name}\":");
    let i = doc.find(&key)? + key.len();
    let rest = doc[i..].trim_start();
    if let Some(r) = rest.strip_prefix('"') {
        let mut esc = false;
        for (j, c) in r.char_indices() {
            match c {
                '\\' if !esc => esc = true,
                '"' if !esc => return Some(&r[..j]),
                _ => esc = false,
            }
        }
        None
    } else if rest.starts_with('[') {
        rest.find(']').map(|j| &rest[..=j])
    } else {
        let j = rest.find([',', '}', '\n']).unwrap_or(rest.len());
        Some(rest[..j].trim())
    }
}
