//! An independent symbolic-expression tree with its own reader and plain
//! writer; shares no code with the library under check.

#[derive(Clone, Debug, PartialEq)]
pub enum X {
    A(String),
    L(Vec<X>),
}
use X::*;

pub fn a(s: impl Into<String>) -> X {
    A(s.into())
}
pub fn n(f: f64) -> X {
    A(num(f))
}
pub fn i(v: i64) -> X {
    A(v.to_string())
}
pub fn l(name: &str, mut rest: Vec<X>) -> X {
    let mut v = vec![a(name)];
    v.append(&mut rest);
    L(v)
}
pub fn l1(name: &str, x: X) -> X {
    L(vec![a(name), x])
}

/// shortest decimal spelling without exponent
pub fn num(f: f64) -> String {
    format!("{}", f)
}

pub fn needs_quote(s: &str) -> bool {
    s.is_empty() || s.chars().any(|c| "() \t{}%".contains(c))
}
/// quote by the reference tool's rule
pub fn quote(s: &str) -> String {
    if needs_quote(s) {
        format!("\"{}\"", s)
    } else {
        s.to_string()
    }
}

impl X {
    /// one-line text
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.put(&mut o, &quote);
        o
    }
    /// one-line text, every atom quoted that may be
    fn put(&self, o: &mut String, q: &dyn Fn(&str) -> String) {
        match self {
            A(s) => o.push_str(&q(s)),
            L(v) => {
                o.push('(');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(' ')
                    }
                    x.put(o, q)
                }
                o.push(')')
            }
        }
    }
    /// text in an unusual but legal spelling: `style` selects separators and quoting
    pub fn text_style(&self, style: usize) -> String {
        let mut o = String::new();
        self.put_style(style, 0, &mut o);
        o
    }
    fn put_style(&self, style: usize, depth: usize, o: &mut String) {
        match self {
            A(s) => {
                if style & 1 == 1 && depth > 0 {
                    o.push('"');
                    o.push_str(s);
                    o.push('"')
                } else {
                    o.push_str(&quote(s))
                }
            }
            L(v) => {
                o.push('(');
                if style & 4 == 4 {
                    o.push(' ')
                }
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        if style & 2 == 2 {
                            o.push_str("\r\n  ")
                        } else {
                            o.push(' ')
                        }
                    }
                    // the head word is always bare
                    x.put_style(style, if k == 0 { 0 } else { depth + 1 }, o)
                }
                if style & 4 == 4 {
                    o.push_str(" \n")
                }
                o.push(')')
            }
        }
    }
    pub fn head(&self) -> &str {
        match self {
            L(v) => match v.first() {
                Some(A(s)) => s,
                _ => "",
            },
            A(_) => "",
        }
    }
}

/// read one expression; Err(position) when malformed, trailing blanks allowed
pub fn read(s: &str) -> Result<X, String> {
    let c: Vec<char> = s.chars().collect();
    let mut p = 0;
    let x = read_one(&c, &mut p)?;
    while p < c.len() {
        if !c[p].is_ascii_whitespace() {
            return Err(format!("text after the end at {}", p));
        }
        p += 1;
    }
    Ok(x)
}

fn read_one(c: &[char], p: &mut usize) -> Result<X, String> {
    while *p < c.len() && c[*p].is_ascii_whitespace() {
        *p += 1
    }
    if *p >= c.len() {
        return Err("early end".into());
    }
    match c[*p] {
        '(' => {
            *p += 1;
            let mut v = vec![];
            loop {
                while *p < c.len() && c[*p].is_ascii_whitespace() {
                    *p += 1
                }
                if *p >= c.len() {
                    return Err("unclosed list".into());
                }
                if c[*p] == ')' {
                    *p += 1;
                    return Ok(L(v));
                }
                v.push(read_one(c, p)?);
            }
        }
        ')' => Err(format!("stray ) at {}", p)),
        '"' => {
            *p += 1;
            let mut s = String::new();
            while *p < c.len() && c[*p] != '"' {
                s.push(c[*p]);
                *p += 1
            }
            if *p >= c.len() {
                return Err("unclosed string".into());
            }
            *p += 1;
            Ok(A(s))
        }
        _ => {
            let mut s = String::new();
            while *p < c.len() && !c[*p].is_ascii_whitespace() && c[*p] != '(' && c[*p] != ')' {
                s.push(c[*p]);
                *p += 1
            }
            Ok(A(s))
        }
    }
}

/// same content: identical words, or the same number (hexadecimal inside stamps)
pub fn same(x: &X, y: &X) -> Result<(), String> {
    same_in("", x, y)
}
fn same_in(head: &str, x: &X, y: &X) -> Result<(), String> {
    match (x, y) {
        (A(s), A(t)) => {
            if s == t {
                return Ok(());
            }
            let eq = if head == "tstamp" || head == "tedit" {
                match (i64::from_str_radix(s, 16), i64::from_str_radix(t, 16)) {
                    (Ok(a), Ok(b)) => a == b,
                    _ => false,
                }
            } else {
                match (s.parse::<f64>(), t.parse::<f64>()) {
                    (Ok(a), Ok(b)) => a == b,
                    _ => false,
                }
            };
            if eq {
                Ok(())
            } else {
                Err(format!("in ({} ..): '{}' against '{}'", head, s, t))
            }
        }
        (L(v), L(w)) => {
            let h = x.head();
            for (a, b) in v.iter().zip(w.iter()) {
                same_in(h, a, b)?
            }
            if v.len() != w.len() {
                return Err(format!(
                    "in ({} ..): {} parts against {}: {} / {}",
                    h,
                    v.len(),
                    w.len(),
                    x.text(),
                    y.text()
                ));
            }
            Ok(())
        }
        _ => Err(format!("in ({} ..): {} against {}", head, x.text(), y.text())),
    }
}
