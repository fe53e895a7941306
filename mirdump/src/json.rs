//! The few lines of JSON writing needed (no dependency, nothing to fetch).
pub enum J { N, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
impl J {
    pub fn s<T: Into<String>>(s: T) -> J { J::S(s.into()) }
    pub fn i(i: usize) -> J { J::I(i as i128) }
    pub fn write(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => o.push_str(&i.to_string()),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    J::s(*k).write(o); o.push(':'); x.write(o);
                }
                o.push('}');
            }
        }
    }
}
