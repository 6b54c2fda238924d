//! Source-literal dictionary: literals of the current /repo/src that are not (or not as often) in the
//! committed baseline corpus/literals.txt. They only steer the generators; no verdict depends on them.
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    /// literals themselves, then derived values (sums, products, powers of two)
    pub ints: Vec<u64>,
    pub derived: Vec<u64>,
    pub blobs: Vec<Vec<u8>>,
    /// literals that have always been there (tables excepted); used sparingly
    pub old_ints: Vec<u64>,
    pub old_blobs: Vec<Vec<u8>>,
}
impl Dict {
    pub fn is_empty(&self) -> bool {
        self.ints.is_empty() && self.blobs.is_empty()
    }
}

fn strip_tests(src: &str) -> &str {
    let mut cut = src.len();
    for m in ["#[cfg(test)]", "\nmod tests"] {
        if let Some(i) = src.find(m) {
            cut = cut.min(i);
        }
    }
    &src[..cut]
}

/// literals as strings: "i:<decimal>" and "b:<hex>"
pub fn literals(src: &str) -> Vec<String> {
    let s: Vec<char> = strip_tests(src).chars().collect();
    let mut out = vec![];
    let mut i = 0;
    let mut prev_ident = false;
    while i < s.len() {
        let c = s[i];
        if c == '/' && i + 1 < s.len() && s[i + 1] == '/' {
            while i < s.len() && s[i] != '\n' {
                i += 1;
            }
            prev_ident = false;
            continue;
        }
        if c == '"' {
            let mut v = vec![];
            i += 1;
            while i < s.len() && s[i] != '"' {
                if s[i] == '\\' && i + 1 < s.len() {
                    i += 1;
                    match s[i] {
                        'n' => v.push(10),
                        't' => v.push(9),
                        'r' => v.push(13),
                        '0' => v.push(0),
                        'x' if i + 2 < s.len() => {
                            let h: String = s[i + 1..i + 3].iter().collect();
                            v.push(u8::from_str_radix(&h, 16).unwrap_or(0));
                            i += 2;
                        }
                        o => v.push(o as u8),
                    }
                } else {
                    v.extend_from_slice(s[i].to_string().as_bytes());
                }
                i += 1;
            }
            i += 1;
            if !v.is_empty() && v.len() <= 256 {
                out.push(format!("b:{}", hex::encode(&v)));
            }
            prev_ident = false;
            continue;
        }
        if c == '\'' && i + 3 < s.len() && s[i + 1] == '\\' {
            // escaped character or byte
            let mut j = i + 3;
            while j < s.len() && s[j] != '\'' && j < i + 12 {
                j += 1;
            }
            let v = match s[i + 2] {
                'n' => Some(10),
                't' => Some(9),
                'r' => Some(13),
                '0' => Some(0),
                'x' => u32::from_str_radix(&s[i + 3..j].iter().collect::<String>(), 16).ok(),
                'u' => u32::from_str_radix(s[i + 3..j].iter().collect::<String>().trim_matches(|c| c == '{' || c == '}'), 16).ok(),
                o => Some(o as u32),
            };
            if let Some(v) = v {
                out.push(format!("i:{v}"));
            }
            i = j + 1;
            prev_ident = false;
            continue;
        }
        if c == '\'' && i + 2 < s.len() && s[i + 2] == '\'' {
            out.push(format!("i:{}", s[i + 1] as u32));
            i += 3;
            prev_ident = false;
            continue;
        }
        if c.is_ascii_digit() && !prev_ident {
            let st = i;
            while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == '_') {
                i += 1;
            }
            let t: String = s[st..i].iter().filter(|c| **c != '_').collect();
            let strip = |t: &str, hexa: bool| -> String {
                for suf in ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"] {
                    if let Some(x) = t.strip_suffix(suf) {
                        return x.to_string();
                    }
                }
                let _ = hexa;
                t.to_string()
            };
            let v = if let Some(h) = t.strip_prefix("0x") {
                u64::from_str_radix(&strip(h, true), 16).ok()
            } else if let Some(h) = t.strip_prefix("0b") {
                u64::from_str_radix(&strip(h, false), 2).ok()
            } else {
                strip(&t, false).parse().ok()
            };
            if let Some(v) = v {
                out.push(format!("i:{}", v));
            }
            prev_ident = false;
            continue;
        }
        prev_ident = c.is_ascii_alphanumeric() || c == '_';
        i += 1;
    }
    out
}

pub fn scan(dir: &Path) -> BTreeMap<String, usize> {
    scan_where(dir, |_| true)
}
fn scan_where(dir: &Path, want: impl Fn(&str) -> bool) -> BTreeMap<String, usize> {
    fn walk(d: &Path, out: &mut Vec<std::path::PathBuf>) {
        if let Ok(r) = std::fs::read_dir(d) {
            for e in r.flatten() {
                let p = e.path();
                if p.is_dir() {
                    walk(&p, out)
                } else if p.extension().map_or(false, |x| x == "rs") {
                    out.push(p)
                }
            }
        }
    }
    let mut files = vec![];
    walk(dir, &mut files);
    files.sort();
    let mut m = BTreeMap::new();
    for f in files {
        if !want(&f.to_string_lossy()) {
            continue;
        }
        if let Ok(s) = std::fs::read_to_string(&f) {
            for l in literals(&s) {
                *m.entry(l).or_insert(0) += 1;
            }
        }
    }
    m
}

pub fn verif_root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
pub fn repo_root() -> String {
    std::env::var("REPO_ROOT").unwrap_or_else(|_| "/repo".into())
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let now = scan(Path::new(&format!("{}/src", repo_root())));
        let mut base = BTreeMap::new();
        if let Ok(t) = std::fs::read_to_string(format!("{}/corpus/literals.txt", verif_root())) {
            for l in t.lines() {
                if let Some((n, lit)) = l.split_once(' ') {
                    base.insert(lit.to_string(), n.parse::<usize>().unwrap_or(0));
                }
            }
        } else {
            return Dict::default();
        }
        let mut d = Dict::default();
        for (l, n) in now {
            if n > base.get(&l).copied().unwrap_or(0) {
                if let Some(v) = l.strip_prefix("i:") {
                    if let Ok(v) = v.parse() {
                        d.ints.push(v)
                    }
                } else if let Some(v) = l.strip_prefix("b:") {
                    if let Ok(v) = hex::decode(v) {
                        d.blobs.push(v)
                    }
                }
            }
        }
        for (l, _) in scan_where(Path::new(&format!("{}/src", repo_root())), |f| !f.contains("decaf_") && !f.contains("karatsuba")) {
            if let Some(v) = l.strip_prefix("i:") {
                d.old_ints.extend(v.parse::<u64>().ok());
            } else if let Some(v) = l.strip_prefix("b:") {
                d.old_blobs.extend(hex::decode(v).ok());
            }
        }
        // a literal that is an old constant in new clothes (bit count, product) may also matter
        let n = d.ints.len().min(12);
        for i in 0..n {
            let v = d.ints[i];
            if v < 40 {
                d.derived.push(1 << v);
            }
            for j in 0..n {
                let w = d.ints[j];
                if i != j {
                    if let Some(p) = v.checked_mul(w) {
                        if p <= 1 << 22 {
                            d.derived.push(p)
                        }
                    }
                    if let Some(s) = v.checked_add(w) {
                        d.derived.push(s)
                    }
                }
            }
        }
        d.derived.sort();
        d.derived.dedup();
        d.ints.truncate(100);
        d.blobs.truncate(100);
        d
    })
}
