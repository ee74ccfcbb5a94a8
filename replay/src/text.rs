//! Small independent readers for the output formats: JSON, CSV, and the text
//! table layout.

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub type R<T> = Result<T, String>;

pub fn json(s: &str) -> R<J> {
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let v = value(&cs, &mut i, 0)?;
    ws(&cs, &mut i);
    if i != cs.len() {
        return Err(format!("trailing characters at {} in JSON", i));
    }
    Ok(v)
}
fn ws(c: &[char], i: &mut usize) {
    while *i < c.len() && matches!(c[*i], ' ' | '\n' | '\r' | '\t') {
        *i += 1;
    }
}
fn value(c: &[char], i: &mut usize, d: usize) -> R<J> {
    if d > 2000 {
        return Err("JSON nested too deeply".into());
    }
    ws(c, i);
    match c.get(*i) {
        None => Err("unexpected end of JSON".into()),
        Some('{') => {
            *i += 1;
            let mut out = vec![];
            ws(c, i);
            if c.get(*i) == Some(&'}') {
                *i += 1;
                return Ok(J::Obj(out));
            }
            loop {
                ws(c, i);
                let k = string(c, i)?;
                ws(c, i);
                if c.get(*i) != Some(&':') {
                    return Err(format!("expected ':' at {}", i));
                }
                *i += 1;
                let v = value(c, i, d + 1)?;
                if out.iter().any(|(k2, _)| *k2 == k) {
                    return Err(format!("duplicate key {:?}", k));
                }
                out.push((k, v));
                ws(c, i);
                match c.get(*i) {
                    Some(',') => *i += 1,
                    Some('}') => {
                        *i += 1;
                        return Ok(J::Obj(out));
                    }
                    x => return Err(format!("expected ',' or '}}' at {}, found {:?}", i, x)),
                }
            }
        }
        Some('[') => {
            *i += 1;
            let mut out = vec![];
            ws(c, i);
            if c.get(*i) == Some(&']') {
                *i += 1;
                return Ok(J::Arr(out));
            }
            loop {
                out.push(value(c, i, d + 1)?);
                ws(c, i);
                match c.get(*i) {
                    Some(',') => *i += 1,
                    Some(']') => {
                        *i += 1;
                        return Ok(J::Arr(out));
                    }
                    x => return Err(format!("expected ',' or ']' at {}, found {:?}", i, x)),
                }
            }
        }
        Some('"') => Ok(J::Str(string(c, i)?)),
        Some(&x) if x == '-' || x.is_ascii_digit() => {
            let start = *i;
            if c[*i] == '-' {
                *i += 1;
            }
            let digits = |i: &mut usize| {
                let s = *i;
                while *i < c.len() && c[*i].is_ascii_digit() {
                    *i += 1;
                }
                *i - s
            };
            let lead = *i;
            let n = digits(i);
            if n == 0 || (n > 1 && c[lead] == '0') {
                return Err(format!("bad number at {}", start));
            }
            if c.get(*i) == Some(&'.') {
                *i += 1;
                if digits(i) == 0 {
                    return Err(format!("bad number at {}", start));
                }
            }
            if matches!(c.get(*i), Some('e') | Some('E')) {
                *i += 1;
                if matches!(c.get(*i), Some('+') | Some('-')) {
                    *i += 1;
                }
                if digits(i) == 0 {
                    return Err(format!("bad number at {}", start));
                }
            }
            Ok(J::Num(c[start..*i].iter().collect()))
        }
        Some(_) => {
            for (lit, v) in [("null", J::Null), ("true", J::Bool(true)), ("false", J::Bool(false))] {
                let l: Vec<char> = lit.chars().collect();
                if c[*i..].starts_with(&l) {
                    *i += l.len();
                    return Ok(v);
                }
            }
            Err(format!("unexpected character {:?} at {}", c[*i], i))
        }
    }
}
fn string(c: &[char], i: &mut usize) -> R<String> {
    if c.get(*i) != Some(&'"') {
        return Err(format!("expected a string at {}", i));
    }
    *i += 1;
    let mut out = String::new();
    loop {
        let ch = *c.get(*i).ok_or("unterminated string")?;
        *i += 1;
        match ch {
            '"' => return Ok(out),
            '\\' => {
                let e = *c.get(*i).ok_or("unterminated escape")?;
                *i += 1;
                match e {
                    '"' => out.push('"'),
                    '\\' => out.push('\\'),
                    '/' => out.push('/'),
                    'b' => out.push('\u{8}'),
                    'f' => out.push('\u{c}'),
                    'n' => out.push('\n'),
                    'r' => out.push('\r'),
                    't' => out.push('\t'),
                    'u' => {
                        let hex = |i: &mut usize| -> R<u32> {
                            let mut v = 0;
                            for _ in 0..4 {
                                let d = c.get(*i).and_then(|x| x.to_digit(16)).ok_or("bad \\u escape")?;
                                v = v * 16 + d;
                                *i += 1;
                            }
                            Ok(v)
                        };
                        let mut u = hex(i)?;
                        if (0xd800..0xdc00).contains(&u) {
                            if c.get(*i) == Some(&'\\') && c.get(*i + 1) == Some(&'u') {
                                *i += 2;
                                let lo = hex(i)?;
                                if !(0xdc00..0xe000).contains(&lo) {
                                    return Err("bad surrogate pair".into());
                                }
                                u = 0x10000 + ((u - 0xd800) << 10) + (lo - 0xdc00);
                            } else {
                                return Err("lone surrogate".into());
                            }
                        }
                        out.push(char::from_u32(u).ok_or("bad code point")?);
                    }
                    x => return Err(format!("bad escape \\{}", x)),
                }
            }
            x if (x as u32) < 0x20 => return Err(format!("raw control character {:?} in string", x)),
            x => out.push(x),
        }
    }
}

impl J {
    pub fn arr(&self) -> R<&[J]> {
        match self {
            J::Arr(v) => Ok(v),
            x => Err(format!("expected an array, found {:?}", x)),
        }
    }
    pub fn obj(&self) -> R<&[(String, J)]> {
        match self {
            J::Obj(v) => Ok(v),
            x => Err(format!("expected an object, found {:?}", x)),
        }
    }
    pub fn get(&self, k: &str) -> R<&J> {
        self.obj()?
            .iter()
            .find(|(k2, _)| k2 == k)
            .map(|(_, v)| v)
            .ok_or_else(|| format!("missing field {:?} in {:?}", k, self))
    }
    pub fn has(&self, k: &str) -> bool {
        self.obj().map_or(false, |o| o.iter().any(|(k2, _)| k2 == k))
    }
    pub fn str(&self) -> R<&str> {
        match self {
            J::Str(s) => Ok(s),
            x => Err(format!("expected a string, found {:?}", x)),
        }
    }
    pub fn int(&self) -> R<i64> {
        match self {
            J::Num(s) => s
                .parse::<i64>()
                .or_else(|_| s.parse::<f64>().map(|f| f as i64))
                .map_err(|_| format!("not an integer: {}", s)),
            x => Err(format!("expected a number, found {:?}", x)),
        }
    }
    pub fn num(&self) -> R<f64> {
        match self {
            J::Num(s) => s.parse().map_err(|_| format!("not a number: {}", s)),
            x => Err(format!("expected a number, found {:?}", x)),
        }
    }
}

/// Parse CSV (RFC 4180 quoting) into records. A file without data has none.
pub fn csv(s: &str) -> R<Vec<Vec<String>>> {
    let cs: Vec<char> = s.chars().collect();
    let mut recs = vec![];
    let mut rec = vec![];
    let mut i = 0;
    while i < cs.len() {
        let mut field = String::new();
        if cs[i] == '"' {
            i += 1;
            loop {
                match cs.get(i) {
                    None => return Err("unterminated CSV quote".into()),
                    Some('"') if cs.get(i + 1) == Some(&'"') => {
                        field.push('"');
                        i += 2;
                    }
                    Some('"') => {
                        i += 1;
                        break;
                    }
                    Some(&c) => {
                        field.push(c);
                        i += 1;
                    }
                }
            }
        } else {
            while i < cs.len() && cs[i] != ',' && cs[i] != '\n' {
                if cs[i] == '"' {
                    return Err("bare quote in CSV field".into());
                }
                field.push(cs[i]);
                i += 1;
            }
        }
        rec.push(field);
        match cs.get(i) {
            Some(',') => {
                i += 1;
                if i == cs.len() {
                    rec.push(String::new());
                }
            }
            Some('\n') => {
                i += 1;
                recs.push(std::mem::take(&mut rec));
            }
            None => {}
            Some(c) => return Err(format!("unexpected {:?} after a CSV field", c)),
        }
    }
    if !rec.is_empty() {
        return Err("CSV does not end in a newline".into());
    }
    Ok(recs)
}

/// Parse CSV with a header into records of (column, value).
pub fn csv_records(s: &str, columns: &[&str]) -> R<Vec<Vec<String>>> {
    let mut recs = csv(s)?;
    if recs.is_empty() {
        return Ok(vec![]);
    }
    let head = recs.remove(0);
    if head != columns {
        return Err(format!("CSV header {:?}, expected {:?}", head, columns));
    }
    for r in &recs {
        if r.len() != columns.len() {
            return Err(format!("CSV record {:?} has the wrong number of fields", r));
        }
    }
    Ok(recs)
}

#[derive(Clone, Debug)]
pub enum Cell {
    S(String),
    /// A percentage with two decimals.
    Pct(f64),
}
pub fn s<T: ToString>(x: T) -> Cell {
    Cell::S(x.to_string())
}

pub fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (a.abs() + b.abs()).max(1e-9)
}

fn render(header: &[(bool, &str)], rows: &[Vec<String>]) -> String {
    let n = header.len();
    let mut w: Vec<usize> = header.iter().map(|h| h.1.len()).collect();
    for r in rows {
        for (i, c) in r.iter().enumerate() {
            w[i] = w[i].max(c.len());
        }
    }
    let mut out = String::new();
    for (i, (_, h)) in header.iter().enumerate() {
        out += if i == 0 { " " } else { " │ " };
        out += h;
        if i + 1 != n {
            out += &" ".repeat(w[i] - h.len());
        }
    }
    out += "\n";
    for i in 0..n {
        out += if i == 0 { "─" } else { "─┼─" };
        out += &"─".repeat(w[i]);
    }
    out += "\n";
    for r in rows {
        for (i, c) in r.iter().enumerate() {
            out += if i == 0 { " " } else { " ┊ " };
            let pad = " ".repeat(w[i] - c.len());
            let right = header[i].0;
            if right {
                out += &pad;
                out += c;
            } else {
                out += c;
                if i + 1 != n {
                    out += &pad;
                }
            }
        }
        out += "\n";
    }
    out
}

/// Check a text table: header (right aligned?, title) and rows, the layout
/// exact, percentages up to rounding in the last shown decimal.
pub fn check_table(actual: &str, header: &[(bool, &str)], rows: &[Vec<Cell>]) -> R<()> {
    let exact: Vec<Vec<String>> = rows
        .iter()
        .map(|r| {
            r.iter()
                .map(|c| match c {
                    Cell::S(s) => s.clone(),
                    Cell::Pct(p) => format!("{:.2}%", p),
                })
                .collect()
        })
        .collect();
    let want = render(header, &exact);
    if want == actual {
        return Ok(());
    }
    // Tolerate a different rounding of percentages: take the actual text of a
    // percent cell when it denotes the same number up to 0.01.
    let fail = || Err(format!("text output differs\n--- expected\n{}\n--- actual\n{}", want, actual));
    let lines: Vec<&str> = actual.split('\n').collect();
    // (a cell may hold line feeds, so a row may take several lines)
    let breaks: Vec<usize> = exact.iter().map(|r| r.iter().map(|c| c.matches('\n').count()).sum()).collect();
    if lines.len() != rows.len() + 3 + breaks.iter().sum::<usize>() {
        return fail();
    }
    let mut at = 2;
    let mut adj = exact.clone();
    for (ri, r) in rows.iter().enumerate() {
        let text = lines[at..at + 1 + breaks[ri]].join("\n");
        at += 1 + breaks[ri];
        let cells: Vec<&str> = text.splitn(header.len(), " ┊ ").collect();
        if cells.len() != header.len() {
            return fail();
        }
        for (ci, c) in r.iter().enumerate() {
            if let Cell::Pct(p) = c {
                let t = cells[ci].trim();
                let v: f64 = match t.strip_suffix('%').map(|x| x.parse()) {
                    Some(Ok(v)) => v,
                    _ => return fail(),
                };
                let two = t.len() >= 4 && t.as_bytes()[t.len() - 4] == b'.';
                if !two || (v - p).abs() > 0.0101 {
                    return fail();
                }
                adj[ri][ci] = t.to_string();
            }
        }
    }
    if render(header, &adj) == actual {
        Ok(())
    } else {
        fail()
    }
}
