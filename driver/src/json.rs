use std::fmt::Write;
pub enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    Raw(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
fn st(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0xFFFF => {
                let _ = write!(out, "\\u{:04x}", (c as u32).min(0xFFFF));
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::N(n) => { let _ = write!(out, "{}", n); }
            J::S(s) => st(s, out),
            J::Raw(s) => out.push_str(s),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    st(k, out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
}
