//! Readers for twiggy's CSV and text-table output.

/// RFC 4180 reader. Every record must have as many fields as the header.
pub fn csv(text: &str) -> Result<Vec<Vec<String>>, String> {
    let mut recs: Vec<Vec<String>> = vec![];
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let mut rec = vec![];
        loop {
            let mut f = String::new();
            if i < cs.len() && cs[i] == '"' {
                i += 1;
                loop {
                    match cs.get(i) {
                        None => return Err("unterminated quoted field".into()),
                        Some('"') if cs.get(i + 1) == Some(&'"') => {
                            f.push('"');
                            i += 2;
                        }
                        Some('"') => {
                            i += 1;
                            break;
                        }
                        Some(&c) => {
                            f.push(c);
                            i += 1;
                        }
                    }
                }
                match cs.get(i) {
                    None | Some(',') | Some('\n') => {}
                    Some('\r') if cs.get(i + 1) == Some(&'\n') => {}
                    Some(c) => return Err(format!("text {:?} after a quoted field", c)),
                }
            } else {
                while i < cs.len() && cs[i] != ',' && cs[i] != '\n' && !(cs[i] == '\r' && cs.get(i + 1) == Some(&'\n')) {
                    if cs[i] == '"' {
                        return Err("quote inside an unquoted field".into());
                    }
                    if cs[i] == '\r' {
                        return Err("bare CR in an unquoted field".into());
                    }
                    f.push(cs[i]);
                    i += 1;
                }
            }
            rec.push(f);
            match cs.get(i) {
                Some(',') => {
                    i += 1;
                }
                None => {
                    return Err("last record lacks its line end".into());
                }
                Some('\r') => {
                    i += 2;
                    break;
                }
                Some(_) => {
                    i += 1;
                    break;
                }
            }
        }
        if let Some(h) = recs.first() {
            if h.len() != rec.len() {
                return Err(format!("record {} has {} fields, the header {}", recs.len(), rec.len(), h.len()));
            }
        }
        recs.push(rec);
    }
    Ok(recs)
}

#[derive(Debug, Clone)]
pub struct Table {
    pub header: Vec<String>,
    /// All cells but the last are trimmed; the last is kept verbatim.
    pub rows: Vec<Vec<String>>,
}

/// Reads a text table. Only valid for names without newlines. `cols` is the
/// expected number of columns; the last cell is whatever follows.
pub fn table(text: &str, cols: usize) -> Result<Table, String> {
    if !text.ends_with('\n') {
        return Err("table does not end in a newline".into());
    }
    let mut lines = text[..text.len() - 1].split('\n');
    let h = lines.next().ok_or("no header")?;
    let h = h.strip_prefix(' ').ok_or("header does not start with a space")?;
    let header: Vec<String> = h.split(" │ ").map(|s| s.trim_end().to_string()).collect();
    if header.len() != cols {
        return Err(format!("header has {} columns, expected {}", header.len(), cols));
    }
    let rule = lines.next().ok_or("no rule line")?;
    if rule.chars().any(|c| c != '─' && c != '┼') || rule.chars().filter(|&c| c == '┼').count() != cols - 1 {
        return Err("malformed rule line".into());
    }
    let widths: Vec<usize> = rule.split('┼').map(|s| s.chars().count()).collect();
    let mut rows = vec![];
    for (n, l) in lines.enumerate() {
        let l = l.strip_prefix(' ').ok_or_else(|| format!("row {} does not start with a space", n))?;
        let cells: Vec<&str> = l.splitn(cols, " ┊ ").collect();
        if cells.len() != cols {
            return Err(format!("row {} has {} columns, expected {}: {:?}", n, cells.len(), cols, l));
        }
        for (i, c) in cells[..cols - 1].iter().enumerate() {
            // first cell: rule has one leading dash; others one on each side
            let w = widths[i] - if i == 0 { 2 } else { 2 };
            let w = if i == 0 { w.max(widths[0] - 2) } else { w };
            if c.chars().count() != w {
                return Err(format!("row {} column {} is {} wide, the column {}", n, i, c.chars().count(), w));
            }
        }
        rows.push(cells.iter().enumerate().map(|(i, c)| if i + 1 < cols { c.trim().to_string() } else { c.to_string() }).collect());
    }
    Ok(Table { header, rows })
}
