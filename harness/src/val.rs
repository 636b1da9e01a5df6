//! Values printed by TLC (`ToString`): integers, booleans, strings, tuples, sets, records.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    I(i64),
    B(bool),
    S(String),
    T(Vec<Val>),
    Set(Vec<Val>),
    R(Vec<(String, Val)>),
}

impl Val {
    pub fn int(&self) -> i64 {
        match self {
            Val::I(i) => *i,
            v => panic!("HARNESS: not an integer: {v:?}"),
        }
    }
    pub fn f(&self) -> f64 {
        self.int() as f64
    }
    pub fn bool(&self) -> bool {
        match self {
            Val::B(b) => *b,
            v => panic!("HARNESS: not a boolean: {v:?}"),
        }
    }
    pub fn items(&self) -> &[Val] {
        match self {
            Val::T(v) | Val::Set(v) => v,
            v => panic!("HARNESS: not a sequence or set: {v:?}"),
        }
    }
    pub fn at(&self, i: usize) -> &Val {
        &self.items()[i]
    }
    pub fn ints(&self) -> Vec<i64> {
        self.items().iter().map(|v| v.int()).collect()
    }
    pub fn pt(&self) -> (f64, f64) {
        (self.at(0).f(), self.at(1).f())
    }
    /// The largest coordinate of the points within: pairs of integers.
    pub fn reach(&self) -> f64 {
        match self {
            Val::T(v) => match &v[..] {
                [Val::I(x), Val::I(y)] => x.abs().max(y.abs()) as f64,
                v => v.iter().map(|v| v.reach()).fold(0.0, f64::max),
            },
            _ => 0.0,
        }
    }
    pub fn ipt(&self) -> (i64, i64) {
        (self.at(0).int(), self.at(1).int())
    }
}

pub fn parse(s: &str) -> Result<Val, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let v = value(b, &mut i)?;
    ws(b, &mut i);
    if i != b.len() {
        return Err(format!("trailing text at {i} in {s}"));
    }
    Ok(v)
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] == b' ' || b[*i] == b'\n') {
        *i += 1;
    }
}

fn seq(b: &[u8], i: &mut usize, close: &[u8]) -> Result<Vec<Val>, String> {
    let mut out = vec![];
    ws(b, i);
    if b[*i..].starts_with(close) {
        *i += close.len();
        return Ok(out);
    }
    loop {
        out.push(value(b, i)?);
        ws(b, i);
        if b[*i..].starts_with(close) {
            *i += close.len();
            return Ok(out);
        }
        if *i < b.len() && b[*i] == b',' {
            *i += 1;
        } else {
            return Err(format!("expected , or close at {i}"));
        }
    }
}

fn value(b: &[u8], i: &mut usize) -> Result<Val, String> {
    ws(b, i);
    if *i >= b.len() {
        return Err("unexpected end".into());
    }
    match b[*i] {
        b'<' => {
            *i += 2;
            Ok(Val::T(seq(b, i, b">>")?))
        }
        b'{' => {
            *i += 1;
            Ok(Val::Set(seq(b, i, b"}")?))
        }
        b'[' => {
            *i += 1;
            let mut f = vec![];
            loop {
                ws(b, i);
                let st = *i;
                while *i < b.len() && (b[*i].is_ascii_alphanumeric() || b[*i] == b'_') {
                    *i += 1;
                }
                let name = String::from_utf8_lossy(&b[st..*i]).to_string();
                ws(b, i);
                if !b[*i..].starts_with(b"|->") {
                    return Err(format!("expected |-> at {i}"));
                }
                *i += 3;
                f.push((name, value(b, i)?));
                ws(b, i);
                match b.get(*i) {
                    Some(b',') => *i += 1,
                    Some(b']') => {
                        *i += 1;
                        return Ok(Val::R(f));
                    }
                    _ => return Err(format!("expected , or ] at {i}")),
                }
            }
        }
        b'"' => {
            *i += 1;
            let st = *i;
            while *i < b.len() && b[*i] != b'"' {
                *i += 1;
            }
            let s = String::from_utf8_lossy(&b[st..*i]).to_string();
            *i += 1;
            Ok(Val::S(s))
        }
        b'T' if b[*i..].starts_with(b"TRUE") => {
            *i += 4;
            Ok(Val::B(true))
        }
        b'F' if b[*i..].starts_with(b"FALSE") => {
            *i += 5;
            Ok(Val::B(false))
        }
        _ => {
            let st = *i;
            if b[*i] == b'-' {
                *i += 1;
            }
            while *i < b.len() && b[*i].is_ascii_digit() {
                *i += 1;
            }
            std::str::from_utf8(&b[st..*i])
                .unwrap()
                .parse::<i64>()
                .map(Val::I)
                .map_err(|e| format!("{e} at {st}"))
        }
    }
}

impl std::fmt::Display for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let list = |f: &mut std::fmt::Formatter<'_>, v: &[Val]| -> std::fmt::Result {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    f.write_str(", ")?;
                }
                write!(f, "{x}")?;
            }
            Ok(())
        };
        match self {
            Val::I(i) => write!(f, "{i}"),
            Val::B(b) => f.write_str(if *b { "TRUE" } else { "FALSE" }),
            Val::S(s) => write!(f, "\"{s}\""),
            Val::T(v) => {
                f.write_str("<<")?;
                list(f, v)?;
                f.write_str(">>")
            }
            Val::Set(v) => {
                f.write_str("{")?;
                list(f, v)?;
                f.write_str("}")
            }
            Val::R(v) => {
                f.write_str("[")?;
                for (i, (k, x)) in v.iter().enumerate() {
                    write!(f, "{}{k} |-> {x}", if i > 0 { ", " } else { "" })?;
                }
                f.write_str("]")
            }
        }
    }
}
