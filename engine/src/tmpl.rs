//! Templates: documents with symbolic positions.
//!
//! A line is `options :: text`.  Options: `w=none,20,5..40`, `r=0,1`.  In the text
//! `\n \t \r \\ \{ \} \xHH \u{..}` are escapes and `{..}` is a hole:
//!   {*} any ASCII byte but VT, FF    {a} any ASCII byte    {p} printable, tab, newline
//!   {l} printable   {w} alphanumeric   {s} blank, tab, newline   {d} digit   {[set]} {[^set]} bytes of / not of a set (ranges a-z)
//!   {U2} {U3} any scalar of 2 / 3 UTF-8 bytes   {n=..} names the hole's symbol   {@n} repeats it
//!   {(a|b|..)} alternatives, which may contain holes   {3:..} three times
use crate::expr::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Item {
    Byte(u8),
    Sym(usize),
}
#[derive(Clone)]
pub struct Instance {
    pub key: String,
    pub line: usize,
    pub items: Vec<Item>,
    pub doms: Vec<Dom>,
    pub widths: Vec<u32>,
    pub flags: Vec<u32>,
    pub wsym: Option<usize>,
    pub fsym: Option<usize>,
}
impl Instance {
    pub fn doc(&self, asg: &[u8]) -> Vec<u8> {
        self.items.iter().map(|i| match i { Item::Byte(b) => *b, Item::Sym(s) => asg[*s] }).collect()
    }
    pub fn width(&self, asg: &[u8]) -> u32 {
        match self.wsym { Some(s) => self.widths[asg[s] as usize], None => self.widths[0] }
    }
    pub fn flag(&self, asg: &[u8]) -> u32 {
        match self.fsym { Some(s) => self.flags[asg[s] as usize], None => self.flags[0] }
    }
}

pub fn box_size(d: &[Dom]) -> u128 {
    d.iter().fold(1u128, |a, x| a.saturating_mul(dom_count(x) as u128))
}

fn dset(f: impl Fn(u8) -> bool) -> Dom {
    let mut d = [0; 4];
    for b in 0..=255u8 {
        if f(b) { d[(b >> 6) as usize] |= 1 << (b & 63) }
    }
    d
}

fn escape(c: &[u8], i: &mut usize, out: &mut Vec<u8>) -> Result<(), String> {
    // c[*i] is the byte after the backslash
    let e = *c.get(*i).ok_or("trailing backslash")?;
    *i += 1;
    match e {
        b'n' => out.push(b'\n'),
        b't' => out.push(b'\t'),
        b'r' => out.push(b'\r'),
        b'x' => {
            let h = std::str::from_utf8(c.get(*i..*i + 2).ok_or("\\x")?).unwrap();
            out.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
            *i += 2;
        }
        b'u' => {
            let end = c[*i..].iter().position(|b| *b == b'}').ok_or("\\u")? + *i;
            let h = std::str::from_utf8(&c[*i + 1..end]).unwrap();
            let ch = char::from_u32(u32::from_str_radix(h, 16).map_err(|e| e.to_string())?).ok_or("\\u")?;
            out.extend_from_slice(ch.to_string().as_bytes());
            *i = end + 1;
        }
        x => out.push(x),
    }
    Ok(())
}

/// Text of a hole up to its closing brace; `i` is after the opening one.
fn hole_text(c: &[u8], i: &mut usize) -> Result<Vec<u8>, String> {
    let st = *i;
    let mut depth = 1;
    while *i < c.len() {
        match c[*i] {
            b'\\' => *i += 1,
            b'{' => depth += 1,
            b'}' => {
                depth -= 1;
                if depth == 0 {
                    let t = c[st..*i].to_vec();
                    *i += 1;
                    return Ok(t);
                }
            }
            _ => {}
        }
        *i += 1;
    }
    Err("unclosed hole".into())
}

/// All expansions of the alternatives and repetitions, as plain template text.
fn expand(c: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut outs: Vec<Vec<u8>> = vec![vec![]];
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            b'\\' => {
                let n = 2.min(c.len() - i);
                outs.iter_mut().for_each(|o| o.extend_from_slice(&c[i..i + n]));
                i += 2;
            }
            b'{' => {
                let st = i;
                i += 1;
                let t = hole_text(c, &mut i)?;
                let mut alts: Vec<Vec<u8>> = vec![];
                if t.first() == Some(&b'(') && t.last() == Some(&b')') {
                    let t = &t[1..t.len() - 1];
                    let mut depth = 0;
                    let (mut s, mut k) = (0, 0);
                    while k <= t.len() {
                        if k == t.len() || (t[k] == b'|' && depth == 0) {
                            alts.extend(expand(&t[s..k])?);
                            s = k + 1;
                        } else if t[k] == b'\\' {
                            k += 1;
                        } else if t[k] == b'{' {
                            depth += 1;
                        } else if t[k] == b'}' {
                            depth -= 1;
                        }
                        k += 1;
                    }
                } else if let Some(p) = t.iter().position(|b| *b == b':').filter(|p| *p > 0 && t[..*p].iter().all(|b| b.is_ascii_digit())) {
                    let n: usize = std::str::from_utf8(&t[..p]).unwrap().parse().unwrap();
                    alts = expand(&t[p + 1..].repeat(n))?;
                } else {
                    alts.push(c[st..i].to_vec());
                }
                let mut no = vec![];
                for o in &outs {
                    for a in &alts {
                        let mut x = o.clone();
                        x.extend_from_slice(a);
                        no.push(x);
                    }
                }
                outs = no;
            }
            b => {
                outs.iter_mut().for_each(|o| o.push(b));
                i += 1;
            }
        }
    }
    Ok(outs)
}

fn class(t: &[u8]) -> Result<Dom, String> {
    Ok(match t {
        b"*" => dset(|b| b < 128 && b != 11 && b != 12),
        b"a" => dset(|b| b < 128),
        b"p" => dset(|b| (32..127).contains(&b) || b == b'\n' || b == b'\t'),
        b"l" => dset(|b| (32..127).contains(&b)),
        b"w" => dset(|b| b.is_ascii_alphanumeric()),
        b"s" => dset(|b| matches!(b, b' ' | b'\n' | b'\t')),
        b"d" => dset(|b| b.is_ascii_digit()),
        b"x" => dset(|b| b.is_ascii_punctuation()),
        _ if t.first() == Some(&b'[') && t.last() == Some(&b']') => {
            let mut t = &t[1..t.len() - 1];
            let neg = t.first() == Some(&b'^');
            if neg {
                t = &t[1..];
            }
            let mut i = 0;
            let mut d = [0u64; 4];
            let mut one = |i: &mut usize| -> Result<u8, String> {
                let mut o = vec![];
                if t[*i] == b'\\' {
                    *i += 1;
                    escape(t, i, &mut o)?;
                } else {
                    o.push(t[*i]);
                    *i += 1;
                }
                if o.len() == 1 { Ok(o[0]) } else { Err("set member".into()) }
            };
            while i < t.len() {
                let a = one(&mut i)?;
                let mut b = a;
                if i + 1 < t.len() && t[i] == b'-' {
                    i += 1;
                    b = one(&mut i)?;
                }
                for x in a..=b {
                    d[(x >> 6) as usize] |= 1 << (x & 63);
                }
            }
            if neg { dset(|b| b < 128 && !dom_has(&d, b as usize)) } else { d }
        }
        _ => return Err(format!("hole {{{}}}", String::from_utf8_lossy(t))),
    })
}

fn numbers(s: &str) -> Result<Vec<u32>, String> {
    let mut v = vec![];
    for p in s.split(',') {
        if p == "none" {
            v.push(u32::MAX);
        } else if let Some((a, b)) = p.split_once("..") {
            let (a, b): (u32, u32) = (a.parse().map_err(|_| p)?, b.parse().map_err(|_| p)?);
            v.extend(a..=b);
        } else {
            v.push(p.parse().map_err(|_| format!("number {}", p))?);
        }
    }
    Ok(v)
}

/// The neighbours of a document: every `every`-th character replaced by a hole (r), a hole
/// inserted before it (i), it and the next replaced by two holes (w), or it left out and the
/// next replaced (d); `t` is itself one of them if no kind is given.
fn mutate(t: Vec<u8>, kinds: &str, hole: &[u8], (every, off): (usize, usize), out: &mut Vec<Vec<u8>>) -> Result<(), String> {
    if kinds.is_empty() {
        out.push(t);
        return Ok(());
    }
    // the elements: characters, escapes and holes
    let mut el: Vec<std::ops::Range<usize>> = vec![];
    let mut i = 0;
    while i < t.len() {
        let st = i;
        match t[i] {
            b'\\' => {
                i += 1;
                let mut o = vec![];
                escape(&t, &mut i, &mut o)?;
            }
            b'{' => {
                i += 1;
                hole_text(&t, &mut i)?;
            }
            b => i += if b < 0x80 { 1 } else if b < 0xe0 { 2 } else if b < 0xf0 { 3 } else { 4 },
        }
        el.push(st..i);
    }
    for (k, r) in el.iter().enumerate() {
        if k % every != off {
            continue;
        }
        let next = el.get(k + 1).map(|n| n.end).unwrap_or(r.end);
        for c in kinds.chars() {
            let (hs, skip) = match c {
                'r' => (1, r.end),
                'i' => (1, r.start),
                'w' => (2, next),
                'd' => (1, next),
                _ => return Err(format!("mutation {}", c)),
            };
            let mut o = t[..r.start].to_vec();
            for _ in 0..hs {
                o.extend_from_slice(hole);
            }
            o.extend_from_slice(&t[skip..]);
            out.push(o);
        }
    }
    Ok(())
}

pub fn parse_line(line: &str, no: usize, out: &mut Vec<Instance>) -> Result<(), String> {
    let (opts, text) = line.split_once(":: ").or_else(|| line.split_once("::")).ok_or("no ::")?;
    let (mut widths, mut flags) = (vec![u32::MAX], vec![0]);
    let (mut muts, mut hole, mut every, mut off) = (String::new(), b"{*}".to_vec(), 1usize, 0usize);
    for o in opts.split_whitespace() {
        match o.split_once('=') {
            Some(("w", v)) => widths = numbers(v)?,
            Some(("r", v)) => flags = numbers(v)?,
            Some(("m", v)) => muts = v.to_string(),
            Some(("h", v)) => hole = format!("{{{}}}", v).into_bytes(),
            Some(("every", v)) => every = v.parse().map_err(|_| v)?,
            Some(("off", v)) => off = v.parse().map_err(|_| v)?,
            _ => return Err(format!("option {}", o)),
        }
    }
    let mut texts = vec![];
    for t in expand(text.as_bytes())? {
        mutate(t, &muts, &hole, (every, off), &mut texts)?;
    }
    for t in texts {
        let mut inst = Instance {
            key: format!("{}:: {}", if opts.trim().is_empty() { String::new() } else { format!("{} ", opts.trim()) }, String::from_utf8_lossy(&t)),
            line: no,
            items: vec![],
            doms: vec![],
            widths: widths.clone(),
            flags: flags.clone(),
            wsym: None,
            fsym: None,
        };
        if widths.len() > 1 {
            inst.wsym = Some(inst.doms.len());
            inst.doms.push(dset(|b| (b as usize) < widths.len()));
        }
        if flags.len() > 1 {
            inst.fsym = Some(inst.doms.len());
            inst.doms.push(dset(|b| (b as usize) < flags.len()));
        }
        let mut names: HashMap<Vec<u8>, usize> = HashMap::new();
        let mut i = 0;
        while i < t.len() {
            match t[i] {
                b'\\' => {
                    i += 1;
                    let mut o = vec![];
                    escape(&t, &mut i, &mut o)?;
                    inst.items.extend(o.into_iter().map(Item::Byte));
                }
                b'{' => {
                    i += 1;
                    let mut h = &hole_text(&t, &mut i)?[..];
                    if h.first() == Some(&b'@') {
                        let s = *names.get(&h[1..]).ok_or("unknown name")?;
                        inst.items.push(Item::Sym(s));
                        continue;
                    }
                    let mut name = None;
                    if let Some(p) = h.iter().position(|b| *b == b'=').filter(|p| *p > 0 && h[..*p].iter().all(|b| b.is_ascii_alphanumeric())) {
                        name = Some(h[..p].to_vec());
                        h = &h[p + 1..];
                    }
                    let ds: Vec<Dom> = match h {
                        b"U2" => vec![dset(|b| (0xc2..=0xdf).contains(&b)), dset(|b| (0x80..=0xbf).contains(&b))],
                        b"U3" => vec![
                            dset(|b| (0xe1..=0xec).contains(&b) || b == 0xee || b == 0xef),
                            dset(|b| (0x80..=0xbf).contains(&b)),
                            dset(|b| (0x80..=0xbf).contains(&b)),
                        ],
                        h => vec![class(h)?],
                    };
                    for d in ds {
                        let s = inst.doms.len();
                        inst.doms.push(d);
                        inst.items.push(Item::Sym(s));
                        if let Some(n) = name.take() {
                            names.insert(n, s);
                        }
                    }
                }
                b => {
                    inst.items.push(Item::Byte(b));
                    i += 1;
                }
            }
        }
        if inst.doms.len() > 60 {
            return Err("too many symbols".into());
        }
        out.push(inst);
    }
    Ok(())
}

pub fn parse_file(path: &str, out: &mut Vec<Instance>) -> Result<(), String> {
    let s = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    for (i, l) in s.lines().enumerate() {
        if l.trim().is_empty() || l.starts_with('#') {
            continue;
        }
        parse_line(l, i + 1, out).map_err(|e| format!("{}:{}: {}", path, i + 1, e))?;
    }
    Ok(())
}
