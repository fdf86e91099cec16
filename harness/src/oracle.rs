//! The properties, as executable checks over one input and configuration.
use crate::{h_emit, h_note};
use markdown_fmt::{CodeBlockContext, FormatBuilder};
use pulldown_cmark::{Alignment, CodeBlockKind, CowStr, Event, HeadingLevel, LinkType, MetadataBlockKind, Options, Parser, Tag, TagEnd};
use std::cell::RefCell;
use std::ops::Range;
use std::rc::Rc;
use unicode_width::UnicodeWidthStr;

pub type W = Option<usize>;
/// The Markdown dialect: CommonMark, tables, footnotes, strikethrough, task lists, heading
/// attributes and metadata blocks. Fixed here so that the oracle does not follow the code.
const OPTIONS: Options = Options::ENABLE_TABLES
    .union(Options::ENABLE_FOOTNOTES)
    .union(Options::ENABLE_STRIKETHROUGH)
    .union(Options::ENABLE_TASKLISTS)
    .union(Options::ENABLE_HEADING_ATTRIBUTES)
    .union(Options::ENABLE_PLUSES_DELIMITED_METADATA_BLOCKS)
    .union(Options::ENABLE_YAML_STYLE_METADATA_BLOCKS);
type Ev<'a> = (Event<'a>, Range<usize>);

fn emit(s: &str) {
    h_emit(s.as_ptr(), s.len())
}
fn builder(w: W, reflow: bool) -> FormatBuilder {
    let mut b = FormatBuilder::default();
    b.max_width(w).reflow_text(reflow);
    b
}
fn fmt(s: &str, w: W, reflow: bool) -> Option<String> {
    markdown_fmt::rewrite_markdown_with_builder(s, builder(w, reflow)).ok()
}
fn events(s: &str) -> Vec<Ev<'_>> {
    let mut v: Vec<Ev> = vec![];
    let mut skip = false;
    let mut quotes = 0;
    for (e, r) in Parser::new_ext(s, OPTIONS).into_offset_iter() {
        // the comments that the formatter writes between a list and an indented code block
        if matches!(e, Event::Start(Tag::HtmlBlock)) && is_separator(&s[r.clone()]) {
            skip = true;
        }
        let e = match e {
            Event::Start(Tag::BlockQuote(_)) => {
                quotes += 1;
                e
            }
            Event::End(TagEnd::BlockQuote(_)) => {
                quotes -= 1;
                e
            }
            // the parser leaves the markers of a quote's lines in inline HTML
            Event::InlineHtml(t) if quotes > 0 && t.contains('\n') => {
                let t: Vec<&str> = t.split('\n').map(|l| l.trim_start_matches([' ', '\t', '>'])).collect();
                Event::InlineHtml(t.join("\n").into())
            }
            e => e,
        };
        if !skip {
            v.push((e, r));
        } else if matches!(e, Event::End(TagEnd::HtmlBlock)) {
            skip = false;
        }
    }
    v
}
fn is_separator(s: &str) -> bool {
    matches!(s.trim(), "<!-- Don't absorb code block into list -->" | "<!-- Consider a fenced code block instead -->")
}

pub fn check(prop: u32, s: &str, w: W, flags: u32) -> u32 {
    let reflow = flags & 1 != 0;
    match prop {
        1 => p_total(s, w, reflow),
        2 => p_idempotent(s, w, reflow),
        3 => with_out(s, w, reflow, |a, b| p_meaning(a, b)),
        4 => with_out(s, w, reflow, |a, b| p_code(a, b)),
        5 => p_protocol(s, w, reflow),
        6 => with_out(s, w, reflow, |a, b| p_links(a, b)),
        7 => match w {
            Some(w) => with_out(s, Some(w), reflow, |_, b| p_width(b, w)),
            None => 1,
        },
        8 => with_out(s, w, reflow, |a, b| p_breaks(a, b, w, reflow)),
        9 => with_out(s, w, reflow, |a, b| p_tables(a, b)),
        10 => p_history(s, w, reflow),
        11 => p_lines(s, w, reflow),
        12 => with_out(s, w, reflow, |a, b| p_lists(a, b)),
        13 => with_out(s, w, reflow, |a, b| p_headings(a, b)),
        14 => with_out(s, w, reflow, |a, b| p_quotes(a, b)),
        15 => with_out(s, w, reflow, |a, b| p_inline(a, b)),
        16 => with_out(s, w, reflow, |a, b| p_raw(a, b)),
        17 => with_out(s, w, reflow, |a, b| p_footnotes(a, b)),
        18 => with_out(s, w, reflow, |a, b| p_spacing(a, b)),
        // the formatted text alone (differential runs of the executor)
        90 => {
            let Some(o) = fmt(s, w, reflow) else { return 2 };
            emit(&o);
            0
        }
        93 => {
            let m = meaning(s);
            h_emit(m.as_ptr(), m.len());
            0
        }
        _ => 1,
    }
}

fn with_out<F: Fn(&str, &str) -> u32>(s: &str, w: W, reflow: bool, f: F) -> u32 {
    let Some(o) = fmt(s, w, reflow) else { return 2 };
    emit(&o);
    if s.contains('\r') {
        // CRLF is a line end like LF; a lone CR is outside these properties' domain
        let t = s.replace("\r\n", "\n");
        return if t.contains('\r') { 1 } else { f(&t, &o) };
    }
    f(s, &o)
}

// ---- C01 ----
fn p_total(s: &str, w: W, reflow: bool) -> u32 {
    let Some(a) = fmt(s, w, reflow) else { return 2 };
    emit(&a);
    if fmt(&a, w, reflow).is_none() {
        return 3;
    }
    0
}
// ---- C02 ----
fn p_idempotent(s: &str, w: W, reflow: bool) -> u32 {
    let Some(a) = fmt(s, w, reflow) else { return 2 };
    emit(&a);
    if s.contains('\r') && s.replace("\r\n", "\n").contains('\r') {
        return 1;
    }
    let Some(b) = fmt(&a, w, reflow) else { return 3 };
    if a == b {
        0
    } else {
        emit("\u{1}");
        emit(&b);
        4
    }
}

// ---- canonical text of inline content ----
/// Collects inline content with the white space at line edges removed and line
/// breaks inside a paragraph equal to a space.
struct Canon {
    o: Vec<u8>,
    space: bool,
    bol: bool,
    depth: u32, // open '[' in the current block of text
    link: u32,
}
impl Canon {
    fn new() -> Self {
        Canon { o: vec![], space: false, bol: true, depth: 0, link: 0 }
    }
    fn byte(&mut self, b: u8) {
        if b == b' ' || b == b'\t' || b == b'\n' || b == b'\r' {
            self.space = true;
            return;
        }
        if self.space && !self.bol && !(b == b']') && !(self.o.last() == Some(&b'[')) {
            self.o.push(b' ');
        }
        self.space = false;
        self.bol = false;
        if b == b'[' {
            self.depth += 1;
        }
        if b == b']' && self.depth > 0 {
            self.depth -= 1;
        }
        self.o.push(b);
    }
    fn text(&mut self, s: &str) {
        if s.is_ascii() {
            for b in s.bytes() {
                self.byte(b);
            }
        } else {
            let mut buf = [0; 4];
            for c in s.chars() {
                if c.is_whitespace() {
                    self.byte(b' ');
                } else {
                    for b in c.encode_utf8(&mut buf).bytes() {
                        self.byte(b);
                    }
                }
            }
        }
    }
    fn raw(&mut self, s: &str) {
        if self.space && !self.bol {
            self.o.push(b' ');
        }
        self.space = false;
        self.bol = false;
        self.o.extend_from_slice(s.as_bytes());
    }
    fn mark(&mut self, s: &str) {
        self.o.extend_from_slice(s.as_bytes());
    }
    fn block(&mut self) {
        self.space = false;
        self.bol = true;
        self.depth = 0;
    }
    /// Content verbatim but with runs of white space equal to one space.
    fn squeezed(&mut self, s: &str) {
        let mut sp = false;
        for b in s.bytes() {
            if b == b' ' || b == b'\n' || b == b'\r' || b == b'\t' {
                sp = true;
            } else {
                if sp {
                    self.o.push(b' ');
                    sp = false;
                }
                self.o.push(b);
            }
        }
        if sp {
            self.o.push(b' ');
        }
    }
    fn inline(&mut self, e: &Event) -> bool {
        match e {
            Event::Text(t) => self.text(t),
            Event::Code(t) => {
                self.raw("\u{2}c");
                self.squeezed(t);
                self.mark("\u{3}");
            }
            Event::InlineHtml(t) => {
                self.raw("\u{2}h");
                self.squeezed(t);
                self.mark("\u{3}");
            }
            Event::SoftBreak => self.space = true,
            Event::HardBreak => {
                if self.link > 0 || self.depth > 0 {
                    self.space = true;
                } else {
                    self.block();
                    self.mark("\u{2}n");
                }
            }
            Event::FootnoteReference(t) => {
                self.raw("\u{2}f");
                self.mark(t);
                self.mark("\u{3}");
            }
            Event::TaskListMarker(b) => {
                self.raw(if *b { "\u{2}X" } else { "\u{2}O" });
                self.space = false;
                self.bol = true;
            }
            Event::Start(Tag::Emphasis) => self.raw("\u{2}e"),
            Event::Start(Tag::Strong) => self.raw("\u{2}s"),
            Event::Start(Tag::Strikethrough) => self.raw("\u{2}k"),
            Event::End(TagEnd::Emphasis | TagEnd::Strong | TagEnd::Strikethrough) => self.mark("\u{3}"),
            Event::Start(Tag::Link { link_type, dest_url, title, .. }) => self.link_open("\u{2}l", *link_type, dest_url, title),
            Event::Start(Tag::Image { link_type, dest_url, title, .. }) => self.link_open("\u{2}i", *link_type, dest_url, title),
            Event::End(TagEnd::Link | TagEnd::Image) => {
                self.link -= 1;
                self.space = false;
                self.mark("\u{3}");
            }
            _ => return false,
        }
        true
    }
    fn link_open(&mut self, m: &str, t: LinkType, d: &str, title: &str) {
        self.raw(m);
        self.o.push(b'0' + link_kind(t));
        self.mark(d);
        self.mark("\u{2}");
        self.squeezed(title.trim());
        self.mark("\u{2}");
        self.link += 1;
        self.bol = true;
    }
}
fn link_kind(t: LinkType) -> u8 {
    match t {
        LinkType::Inline => 0,
        LinkType::Reference => 1,
        LinkType::ReferenceUnknown => 2,
        LinkType::Collapsed => 3,
        LinkType::CollapsedUnknown => 4,
        LinkType::Shortcut => 5,
        LinkType::ShortcutUnknown => 6,
        LinkType::Autolink => 7,
        LinkType::Email => 8,
        _ => 9,
    }
}
/// Is this the source of a setext heading?
fn setext(src: &str) -> bool {
    let src = src.trim();
    src.contains(['\n', '\r']) && src.ends_with(['=', '-'])
}
fn level(l: &HeadingLevel) -> u8 {
    *l as u8
}
fn align(a: &Alignment) -> u8 {
    match a {
        Alignment::None => b'-',
        Alignment::Left => b'<',
        Alignment::Center => b'^',
        Alignment::Right => b'>',
    }
}
/// Text of a literal block with white-space-only lines emptied and trailing blank lines dropped.
fn literal(s: &str, trim_lines: bool) -> String {
    let mut o = String::new();
    for l in s.split('\n') {
        let l = l.strip_suffix('\r').unwrap_or(l);
        if trim_lines {
            o.push_str(l.trim_end());
        } else if !l.trim().is_empty() {
            o.push_str(l);
        }
        o.push('\n');
    }
    while o.ends_with('\n') {
        o.pop();
    }
    o
}
fn is_nested(info: &str) -> bool {
    info.contains("markdown")
}

// ---- C03 ----
fn meaning(s: &str) -> Vec<u8> {
    let mut c = Canon::new();
    let mut lit: Option<(String, u8)> = None;
    let mut empty = 0;
    for (e, r) in events(s) {
        if let Some((t, _)) = &mut lit {
            match &e {
                Event::Text(x) | Event::Html(x) => {
                    t.push_str(x);
                    continue;
                }
                _ => {}
            }
        }
        if c.inline(&e) {
            continue;
        }
        c.block();
        match e {
            Event::Rule => c.mark("\u{2}R\u{3}\n"),
            Event::Start(t) => {
                c.mark("\n\u{2}");
                match t {
                    Tag::Paragraph => c.mark("P"),
                    Tag::Heading { level: l, id, classes, attrs } => {
                        c.mark("H");
                        c.o.push(b'0' + level(&l));
                        if let Some(i) = id {
                            c.mark("#");
                            c.mark(&i);
                        }
                        for k in classes {
                            c.mark(".");
                            c.mark(&k);
                        }
                        for (k, v) in attrs {
                            c.mark(" ");
                            c.mark(&k);
                            if let Some(v) = v {
                                c.mark("=");
                                c.mark(&v);
                            }
                        }
                        c.mark("\u{2}");
                        empty = if setext(&s[r]) { c.o.len() } else { 0 };
                    }
                    Tag::BlockQuote(_) => c.mark("Q"),
                    Tag::CodeBlock(k) => {
                        match &k {
                            CodeBlockKind::Fenced(i) => {
                                c.mark("F");
                                c.mark(i);
                                lit = Some((String::new(), if is_nested(i) { 1 } else { 0 }));
                            }
                            CodeBlockKind::Indented => {
                                c.mark("I");
                                lit = Some((String::new(), 3));
                            }
                        }
                        c.mark("\u{2}");
                    }
                    Tag::List(n) => {
                        c.mark("L");
                        if let Some(n) = n {
                            let mut n = n;
                            if n == 0 {
                                c.mark("0");
                            }
                            while n > 0 {
                                c.o.push(b'0' + (n % 10) as u8);
                                n /= 10;
                            }
                        }
                    }
                    Tag::Item => c.mark("*"),
                    Tag::FootnoteDefinition(l) => {
                        c.mark("D");
                        c.mark(&l);
                        c.mark("\u{2}");
                    }
                    Tag::Table(a) => {
                        c.mark("T");
                        for x in &a {
                            c.o.push(align(x));
                        }
                    }
                    Tag::TableHead => c.mark("h"),
                    Tag::TableRow => c.mark("r"),
                    Tag::TableCell => c.mark("c"),
                    Tag::HtmlBlock => {
                        c.mark("B");
                        lit = Some((String::new(), 2));
                    }
                    Tag::MetadataBlock(k) => {
                        c.mark(if k == MetadataBlockKind::YamlStyle { "M-" } else { "M+" });
                        lit = Some((String::new(), 2));
                    }
                    _ => c.mark("?"),
                }
            }
            Event::End(t) => {
                if matches!(t, TagEnd::Heading(_)) && empty == c.o.len() {
                    // an empty setext heading is written with a backslash
                    c.mark("\\");
                }
                if let Some((t, k)) = lit.take() {
                    if k != 1 {
                        let t = literal(&t, k == 2);
                        // the end of an indented code block is insignificant
                        c.mark(if k == 3 { t.trim_end() } else { &t });
                    }
                }
                c.mark("\u{3}");
            }
            Event::Html(t) => c.mark(&t),
            _ => {}
        }
    }
    c.o
}
/// Paragraph brackets carry no meaning inside list items (tight and loose lists).
fn p_meaning(a: &str, b: &str) -> u32 {
    let x = meaning(a);
    let y = meaning(b);
    if x == y {
        0
    } else {
        2
    }
}

// ---- C04 ----
struct Block {
    fenced: bool,
    marker: String,
    info: String,
    text: String,
    start: usize,
}
fn code_blocks(s: &str) -> Vec<Block> {
    let mut v = vec![];
    let mut cur: Option<Block> = None;
    for (e, r) in events(s) {
        match e {
            Event::Start(Tag::CodeBlock(k)) => {
                let mut b = Block { fenced: false, marker: String::new(), info: String::new(), text: String::new(), start: r.start };
                if let CodeBlockKind::Fenced(i) = k {
                    b.fenced = true;
                    b.info.push_str(&i);
                    let t = &s[r.start..];
                    let c = t.chars().next().unwrap_or('`');
                    let n = t.len() - t.trim_start_matches(c).len();
                    b.marker.push_str(&t[..n]);
                }
                cur = Some(b);
            }
            Event::End(TagEnd::CodeBlock) => {
                if let Some(b) = cur.take() {
                    v.push(b);
                }
            }
            Event::Text(t) => {
                if let Some(b) = &mut cur {
                    b.text.push_str(&t);
                }
            }
            _ => {}
        }
    }
    v
}
fn p_code(a: &str, b: &str) -> u32 {
    let (x, y) = (code_blocks(a), code_blocks(b));
    if x.len() != y.len() {
        return 2;
    }
    if !x.is_empty() {
        h_note(4);
    }
    for (p, q) in x.iter().zip(&y) {
        if p.fenced != q.fenced || p.info != q.info {
            return 3;
        }
        if p.marker != q.marker && !lengthened(&p.marker, &q.marker, &q.text) {
            return 4;
        }
        if !(p.fenced && is_nested(&p.info)) {
            let (mut x, mut y) = (literal(&p.text, false), literal(&q.text, false));
            if !p.fenced {
                // the end of an indented code block is insignificant
                x.truncate(x.trim_end().len());
                y.truncate(y.trim_end().len());
            }
            if x != y {
                return 5;
            }
        }
    }
    0
}

/// The fence became longer because a line of the code would otherwise close it.
fn lengthened(was: &str, is: &str, code: &str) -> bool {
    let m = &is[..1];
    is.starts_with(was)
        && code.split('\n').any(|l| {
            let t = l.trim_start_matches(' ');
            let r = t.trim_start_matches(m);
            l.len() - t.len() <= 3 && r.trim().is_empty() && t.len() - r.len() + 1 == is.len()
        })
}

// ---- C05 ----
#[derive(PartialEq)]
struct Call {
    info: String,
    code: String,
    ind: usize,
    w: W,
}
fn rewrite_code(info: &str, code: &str) -> String {
    // what the test formatter returns: a line naming the block, then the code
    let mut o = String::from("<");
    o.push_str(info);
    o.push_str(">\n");
    o.push_str(code);
    o
}
fn column(s: &str, at: usize) -> usize {
    let from = s[..at].rfind('\n').map(|i| i + 1).unwrap_or(0);
    at - from
}
fn expected_calls(s: &str, w: W, reflow: bool, calls: &mut Vec<Call>, depth: u32) -> u32 {
    // the same rewriting, with nothing recorded
    let mut b = builder(w, reflow);
    b.code_block_formatter(|_, i, c| rewrite_code(i, &c));
    let Ok(out) = b.build().format(s) else { return 2 };
    if s.replace("\r\n", "\n").contains('\r') {
        return 1;
    }
    if depth == 0 {
        emit(&out);
    }
    let x: Vec<Block> = code_blocks(s).into_iter().filter(|b| b.fenced).collect();
    let y: Vec<Block> = code_blocks(&out).into_iter().filter(|b| b.fenced).collect();
    if x.len() != y.len() {
        return 3;
    }
    for (p, q) in x.iter().zip(&y) {
        let ind = column(&out, q.start);
        if is_nested(&p.info) {
            let r = expected_calls(&p.text, w.map(|w| w.saturating_sub(ind)), reflow, calls, depth + 1);
            if r != 0 {
                return r;
            }
        } else {
            h_note(5);
            if literal(&rewrite_code(&p.info, &p.text), false) != literal(&q.text, false) {
                return 4;
            }
            calls.push(Call { info: p.info.clone(), code: p.text.clone(), ind, w });
        }
    }
    0
}
fn p_protocol(s: &str, w: W, reflow: bool) -> u32 {
    let seen: Rc<RefCell<Vec<Call>>> = Rc::new(RefCell::new(vec![]));
    let s2 = seen.clone();
    let mut b = builder(w, reflow);
    b.code_block_formatter(move |c: &CodeBlockContext, i: &str, code: String| {
        let r = rewrite_code(i, &code);
        s2.borrow_mut().push(Call { info: i.to_string(), code, ind: c.indentation(), w: c.max_width() });
        r
    });
    if b.build().format(s).is_err() {
        return 2;
    }
    let mut want = vec![];
    let r = expected_calls(s, w, reflow, &mut want, 0);
    if r != 0 {
        return r;
    }
    let got = seen.borrow();
    if got.len() != want.len() {
        return 5;
    }
    for (g, x) in got.iter().zip(&want) {
        if g.info != x.info || g.code != x.code {
            return 6;
        }
        if g.ind != x.ind {
            return 7;
        }
        if g.w != x.w {
            return 8;
        }
    }
    0
}

// ---- C06 ----
fn links(s: &str) -> Vec<u8> {
    let mut c = Canon::new();
    for (e, r) in events(s) {
        match e {
            Event::Start(Tag::Link { link_type, dest_url, title, .. }) => link(&mut c, b'l', link_type, &dest_url, &title, &s[r]),
            Event::Start(Tag::Image { link_type, dest_url, title, .. }) => link(&mut c, b'i', link_type, &dest_url, &title, &s[r]),
            _ => {}
        }
    }
    let p = Parser::new_ext(s, OPTIONS);
    let mut defs: Vec<Vec<u8>> = vec![];
    for (l, d) in p.reference_definitions().iter() {
        let mut k = Canon::new();
        // what the formatter adds to labels that start with a caret or end with a backslash
        let l = l.trim().trim_end_matches('\\');
        k.squeezed(l.strip_prefix('\\').filter(|r| r.trim_start().starts_with('^')).unwrap_or(l).trim_start());
        k.mark("\u{2}");
        k.mark(&d.dest);
        k.mark("\u{2}");
        if let Some(t) = &d.title {
            k.mark("t");
            k.squeezed(t.trim());
        }
        defs.push(k.o);
    }
    defs.sort();
    for d in defs {
        c.o.push(b'\n');
        c.o.extend_from_slice(&d);
    }
    c.o
}
fn link(c: &mut Canon, k: u8, t: LinkType, d: &CowStr, title: &CowStr, _src: &str) {
    h_note(6);
    c.o.push(k);
    c.o.push(b'0' + link_kind(t));
    c.mark(d);
    c.mark("\u{2}");
    c.squeezed(title.trim());
    c.mark("\u{3}");
}
fn p_links(a: &str, b: &str) -> u32 {
    if links(a) == links(b) {
        0
    } else {
        2
    }
}

// ---- paragraph lines of the output ----
struct Line {
    start: usize,
    end: usize,
    text: usize, // where the paragraph's own text starts
    hard: bool,
    para: u32,
}
/// The lines of `b` that hold paragraph text.
fn paragraph_lines(b: &str) -> Vec<Line> {
    let mut v: Vec<Line> = vec![];
    let mut skip = 0u32;
    let mut para = 0u32;
    for (e, r) in events(b) {
        match e {
            Event::Start(Tag::Heading { .. } | Tag::CodeBlock(_) | Tag::HtmlBlock | Tag::Table(_) | Tag::MetadataBlock(_)) => skip += 1,
            Event::End(TagEnd::Heading(_) | TagEnd::CodeBlock | TagEnd::HtmlBlock | TagEnd::Table | TagEnd::MetadataBlock(_)) => {
                skip -= 1;
                para += 1;
            }
            Event::Start(Tag::Emphasis | Tag::Strong | Tag::Strikethrough | Tag::Link { .. } | Tag::Image { .. })
            | Event::Text(_)
            | Event::Code(_)
            | Event::InlineHtml(_)
            | Event::FootnoteReference(_)
            | Event::TaskListMarker(_) => {
                if skip > 0 {
                    continue;
                }
                let mut at = r.start;
                while at < r.end || at == r.start {
                    let from = b[..at].rfind('\n').map(|i| i + 1).unwrap_or(0);
                    let to = b[at..].find('\n').map(|i| i + at).unwrap_or(b.len());
                    let known = v.iter().rev().take_while(|l| l.para == para).any(|l| l.start == from);
                    if !known && !(at > r.start && b[from..to].trim().is_empty()) {
                        let mut t = at;
                        if at > from && b[..at].ends_with('\\') {
                            t -= 1; // the backslash of an escape isn't part of the event
                        }
                        if at == from && at > r.start {
                            let l = &b[from..to];
                            t = from + (l.len() - l.trim_start_matches([' ', '>']).len());
                        }
                        v.push(Line { start: from, end: to, text: t, hard: false, para });
                    }
                    at = to + 1;
                }
            }
            Event::HardBreak => {
                if skip == 0 {
                    // inline content that spans lines adds all of them at its start
                    if let Some(l) = v.iter_mut().rev().find(|l| l.start <= r.start) {
                        l.hard = true;
                    }
                }
            }
            Event::SoftBreak => {}
            Event::Start(_) | Event::End(TagEnd::Paragraph) | Event::End(TagEnd::Item) => para += 1,
            _ => {}
        }
    }
    v
}

// ---- C07 ----
/// Could `word`, at the start of a line, be taken for the start of another block?
/// (Deliberately wide: breaking before such a word is not demanded.)
fn block_like(word: &str) -> bool {
    let all = |set: &[char]| word.chars().all(|c| set.contains(&c));
    let digits = word.trim_start_matches(|c: char| c.is_ascii_digit());
    all(&['-', '_', '*'])
        || all(&['|', ':', '-'])
        || all(&['#'])
        || all(&['='])
        || word == "+"
        || word.starts_with(['>', '<'])
        || word.starts_with("```")
        || word.starts_with("~~~")
        || word.starts_with("[^")
        || ["\\\"", "\\'", "\\)"].iter().any(|q| word.starts_with(q))
        || marker_text(word)
        || (digits.len() < word.len() && digits.starts_with(['.', ')']))
}
/// Text like a marker right in front of other inline content.
fn marker_text(word: &str) -> bool {
    let Some(m) = word.chars().next().filter(|c| "#=-*_+".contains(*c)) else { return false };
    let rest = word.trim_start_matches(m);
    (!matches!(m, '*' | '_') || word.len() - rest.len() >= 3) && rest.starts_with(|c: char| "*_~<[]`\\&!".contains(c))
}
/// Could `text`, being all of the first line, be taken for an underline, a delimiter row, a rule,
/// or a fence, or is it the start of a task list marker?
fn line_like(text: &str) -> bool {
    let t = text.trim();
    let code = t.trim_start_matches('`');
    text.bytes().all(|b| matches!(b, b' ' | b'\t' | b'|' | b':' | b'-' | b'='))
        || text.bytes().all(|b| matches!(b, b' ' | b'\t' | b'*'))
        || text.bytes().all(|b| matches!(b, b' ' | b'\t' | b'_'))
        || (t.len() - code.len() >= 3 && !code.contains('`'))
        || (t.starts_with('<') && t.ends_with('>'))
        || t == "["
}
/// The pieces of a line between which it can be broken.
fn pieces(own: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut from = 0;
    let mut at = 0;
    let mut dest = false;
    for (k, w) in own.split(' ').enumerate() {
        if k > 0 {
            let before = &own[from..at - 1];
            dest = match before.rfind("](<") {
                Some(i) => !before[i..].contains('>'),
                None => dest && !before.contains('>'),
            };
            let word = w.trim_matches('\t');
            let label = before.rfind("[^").is_some_and(|i| !before[i..].contains(']'));
            // not before a marker, nor after what would turn into a hard break
            if !word.is_empty() && !dest && !label && !block_like(word) && !before.trim().is_empty() && !before.trim_end().ends_with('\\') && !(from == 0 && line_like(before)) {
                v.push(before.trim_end());
                from = at;
            }
        }
        at += w.len() + 1;
    }
    v.push(&own[from..]);
    v
}
fn p_width(b: &str, w: usize) -> u32 {
    for l in paragraph_lines(b) {
        let line = b[l.start..l.end].trim_end();
        if line.width() > w && !line.contains(|c: char| c.is_control()) {
            h_note(7);
            let own = b[l.text.min(l.end)..l.end].trim_matches([' ', '\t']);
            if pieces(own).len() > 1 {
                return 2;
            }
        }
    }
    0
}

// ---- C08 ----
/// Words of the paragraphs with the kind of white space before each: ' ' or '\n'.
fn p_breaks(a: &str, b: &str, w: W, reflow: bool) -> u32 {
    let (x, y) = (flow(a), flow(b));
    if x.len() != y.len() {
        return 2;
    }
    for (p, q) in x.iter().zip(&y) {
        if p == q {
            continue;
        }
        let (sp, sq) = ((*p == b' ' || *p == b'\n'), (*q == b' ' || *q == b'\n'));
        if !(sp && sq) {
            return 3;
        }
        // the white space differs
        if w.is_none() {
            return 4;
        }
        if !reflow && *p == b'\n' {
            // a line break of the author disappeared
            return 5;
        }
    }
    if let (Some(w), true) = (w, reflow) {
        // greedy: the first word of a continuation line did not fit on the line before
        let ls = paragraph_lines(b);
        for k in 1..ls.len() {
            let (p, q) = (&ls[k - 1], &ls[k]);
            if p.para != q.para || p.hard || p.end + 1 != q.start || b[p.start..q.end].contains(|c: char| c.is_control() && c != '\n') {
                continue;
            }
            let own = b[q.text.min(q.end)..q.end].trim_matches([' ', '\t']);
            let word = pieces(own)[0].trim_end();
            if b[p.start..p.end].trim_end_matches([' ', '\t']).width() + 1 + word.width() <= w {
                return 6;
            }
        }
    }
    0
}
/// Open brackets in the text so far: line breaks in (unresolved) link text become spaces.
struct Brackets(u32);
impl Brackets {
    fn text(&mut self, t: &str) {
        for b in t.bytes() {
            if b == b'[' {
                self.0 += 1;
            } else if b == b']' && self.0 > 0 {
                self.0 -= 1;
            }
        }
    }
    fn any(&self) -> bool {
        self.0 > 0
    }
}
struct Flow {
    o: Vec<u8>,
    ws: u8,
    edge: bool, // at the start of link text
}
impl Flow {
    fn put(&mut self, b: u8) {
        if b == b' ' || b == b'\n' || b == b'\t' {
            if !self.edge {
                self.ws = if b == b'\n' || self.ws == b'\n' { b'\n' } else { b' ' };
            }
            return;
        }
        // white space at the edges of link text and labels is insignificant
        if self.ws != 0 && !self.o.is_empty() && b != b']' && (self.ws == b'\n' || self.o.last() != Some(&b'[')) {
            self.o.push(self.ws);
        }
        self.ws = 0;
        self.edge = false;
        self.o.push(b);
    }
    fn line(&mut self, b: u8) {
        self.edge = false;
        self.put(b'\n');
        self.put(b);
        self.put(b'\n');
    }
}
fn flow(s: &str) -> Vec<u8> {
    let mut f = Flow { o: vec![], ws: 0, edge: false };
    let mut skip = 0;
    let mut link = 0;
    let mut open = Brackets(0);
    for (e, _) in events(s) {
        match e {
            Event::Start(Tag::Heading { .. } | Tag::CodeBlock(_) | Tag::HtmlBlock | Tag::Table(_) | Tag::MetadataBlock(_)) => skip += 1,
            Event::End(TagEnd::Heading(_) | TagEnd::CodeBlock | TagEnd::HtmlBlock | TagEnd::Table | TagEnd::MetadataBlock(_)) => skip -= 1,
            _ if skip > 0 => {}
            Event::Start(Tag::Link { .. } | Tag::Image { .. }) => {
                f.put(5);
                link += 1;
                f.edge = true;
            }
            Event::End(TagEnd::Link | TagEnd::Image) => {
                link -= 1;
                f.ws = 0;
                f.edge = false;
                f.put(6);
            }
            Event::Start(Tag::Paragraph | Tag::Item) => {
                open = Brackets(0);
                f.line(1);
            }
            Event::Text(t) => {
                if t.is_ascii() {
                    for b in t.bytes() {
                        f.put(b);
                    }
                } else {
                    let mut buf = [0; 4];
                    for c in t.chars() {
                        if c.is_whitespace() {
                            f.put(b' ');
                        } else {
                            for b in c.encode_utf8(&mut buf).bytes() {
                                f.put(b);
                            }
                        }
                    }
                }
                open.text(&t);
            }
            Event::Code(t) | Event::InlineHtml(t) => {
                f.put(2);
                for b in t.bytes() {
                    f.put(if b == b'\n' { b' ' } else { b });
                }
                f.put(2);
            }
            Event::SoftBreak => f.put(if link > 0 || open.any() { b' ' } else { b'\n' }),
            Event::HardBreak => {
                if link > 0 || open.any() {
                    f.put(b' ')
                } else {
                    f.line(3)
                }
            }
            _ => {}
        }
    }
    f.o
}

// ---- C09 ----
fn tables(s: &str) -> (Vec<u8>, Vec<Range<usize>>) {
    let mut c = Canon::new();
    let mut rs = vec![];
    let mut on = false;
    for (e, r) in events(s) {
        match &e {
            Event::Start(Tag::Table(a)) => {
                on = true;
                rs.push(r);
                c.block();
                c.mark("T");
                for x in a {
                    c.o.push(align(x));
                }
                continue;
            }
            Event::End(TagEnd::Table) => on = false,
            _ => {}
        }
        if !on || c.inline(&e) {
            continue;
        }
        c.block();
        match e {
            Event::Start(Tag::TableHead | Tag::TableRow) => c.mark("\n"),
            Event::Start(Tag::TableCell) => c.mark("|"),
            _ => {}
        }
    }
    (c.o, rs)
}
fn p_tables(a: &str, b: &str) -> u32 {
    let ((x, _), (y, rs)) = (tables(a), tables(b));
    if x != y {
        return 2;
    }
    for r in rs {
        h_note(9);
        let mut width = None;
        let mut bars = None;
        let first = column(b, r.start);
        for (i, l) in b[r.clone()].trim_end().split('\n').enumerate() {
            // continuation lines carry the container's prefix
            let l = if i == 0 {
                l
            } else {
                let Some(k) = l.find('|') else { return 3 };
                if k != first {
                    return 4;
                }
                &l[k..]
            };
            if !l.starts_with("| ") || !l.ends_with(" |") {
                return 5;
            }
            if l.contains(|c: char| c.is_control()) {
                // no display width
                continue;
            }
            let w = l.width();
            if *width.get_or_insert(w) != w {
                return 6;
            }
            let n = l.replace("\\|", "").matches('|').count();
            let _ = bars.get_or_insert(n);
        }
    }
    0
}

// ---- C10 ----
fn p_history(s: &str, w: W, reflow: bool) -> u32 {
    // the text before \x1c and the text after it are formatted by one formatter
    let (a, b) = s.split_once('\u{1c}').unwrap_or((s, s));
    let mut f = FormatBuilder::with_code_block_formatter(|_, _, code| code);
    f.max_width(Some(3)).reflow_text(!reflow);
    f.reflow_text(reflow).max_width(w);
    let f = f.build();
    let Ok(a1) = f.format(a) else { return 2 };
    let Ok(b1) = f.format(b) else { return 2 };
    let Ok(a2) = f.format(a) else { return 2 };
    let Some(bf) = fmt(b, w, reflow) else { return 2 };
    emit(&b1);
    if b1 != bf {
        return 3;
    }
    if a1 != a2 {
        return 4;
    }
    if w.is_none() && !reflow {
        let Ok(d) = markdown_fmt::rewrite_markdown(b) else { return 2 };
        if d != b1 {
            return 5;
        }
    }
    0
}

// ---- C11 ----
fn p_lines(s: &str, w: W, reflow: bool) -> u32 {
    let Some(o) = fmt(s, w, reflow) else { return 2 };
    emit(&o);
    if o.contains('\r') && !(s.contains('\r') && s.replace("\r\n", "\n").contains('\r')) {
        return 3;
    }
    // exactly one trailing newline, and only if the input had one
    let tail = &s[s.trim_end().len()..];
    let want = !s.trim().is_empty() && tail.contains(['\n', '\r']);
    if o.ends_with('\n') != want || o.ends_with("\n\n") {
        return 4;
    }
    if o.starts_with('\n') {
        return 5;
    }
    // no trailing white space, except where it has a meaning
    let lone_cr = s.contains('\r') && s.replace("\r\n", "\n").contains('\r');
    let mut keep: Vec<Range<usize>> = vec![];
    let mut fenced = false;
    for (e, r) in events(&o) {
        match e {
            // the lines of the fences aren't part of the code
            Event::Start(Tag::CodeBlock(CodeBlockKind::Fenced(_)) | Tag::MetadataBlock(_)) => fenced = true,
            Event::End(TagEnd::CodeBlock | TagEnd::MetadataBlock(_)) => fenced = false,
            Event::Text(_) if fenced => keep.push(r),
            Event::Start(Tag::CodeBlock(CodeBlockKind::Indented) | Tag::HtmlBlock) | Event::Code(_) | Event::InlineHtml(_) => keep.push(r),
            Event::HardBreak => keep.push(r.start..r.end + 1),
            // titles keep their white space
            Event::Start(Tag::Link { title, .. } | Tag::Image { title, .. }) if title.contains('\n') => keep.push(r),
            _ => {}
        }
    }
    let mut at = 0;
    for l in o.split('\n') {
        let end = at + l.len();
        if l.ends_with([' ', '\t']) && !lone_cr && !keep.iter().any(|k| k.start <= end && end <= k.end) {
            return 6;
        }
        at = end + 1;
    }
    // the line terminator of the input does not matter
    if !s.contains('\r') {
        let t = s.replace('\n', "\r\n");
        let Some(p) = fmt(&t, w, reflow) else { return 2 };
        if p != o {
            return 7;
        }
    }
    0
}

// ---- C12 ----
struct Items {
    o: Vec<u8>,
    bad: bool,
}
fn marker(s: &str) -> &str {
    let s = s.trim_start_matches(|c: char| c.is_whitespace() || c == '>');
    let n = s.bytes().take_while(|b| b.is_ascii_digit()).count();
    &s[..(n + 1).min(s.len())]
}
fn items(s: &str, out: bool) -> Items {
    let mut v = Items { o: vec![], bad: false };
    let mut depth = 0u8;
    let mut stack: Vec<Option<usize>> = vec![]; // content column of enclosing items
    let mut prev_line = usize::MAX;
    for (e, r) in events(s) {
        match &e {
            Event::Start(Tag::List(_)) => depth += 1,
            Event::End(TagEnd::List(_)) => depth -= 1,
            Event::TaskListMarker(b) => v.o.push(if *b { b'x' } else { b'o' }),
            _ => {}
        }
        if out {
            if let Event::Start(Tag::Paragraph | Tag::Heading { .. } | Tag::BlockQuote(_) | Tag::List(_) | Tag::CodeBlock(CodeBlockKind::Fenced(_))) = &e {
                if let Some(Some(c)) = stack.last() {
                    let lead = s[r.start..].len() - s[r.start..].trim_start_matches(' ').len();
                    let line = s[..r.start].matches('\n').count();
                    if line != prev_line && column(s, r.start + lead) != *c {
                        v.bad = true;
                    }
                }
            }
        }
        match &e {
            Event::Start(Tag::Item) => {
                h_note(12);
                let src = &s[r.start..r.end];
                let m = marker(src);
                v.o.push(b'0' + depth);
                v.o.extend_from_slice(m.as_bytes());
                v.o.push(b' ');
                let at = r.start + src.find(m).unwrap_or(0);
                prev_line = s[..at].matches('\n').count();
                stack.push(Some(column(s, at) + m.len() + 1));
                if out {
                    let rest = &s[at + m.len()..];
                    let rest = rest.split('\n').next().unwrap_or("");
                    // one space, then content (four more only for an indented code block)
                    if !(rest.is_empty() || (rest.starts_with(' ') && !rest[1..].trim().is_empty() && (!rest[1..].starts_with(' ') || rest.starts_with("     ")))) {
                        v.bad = true;
                    }
                }
            }
            Event::Start(Tag::BlockQuote(_) | Tag::FootnoteDefinition(_)) => stack.push(None),
            Event::End(TagEnd::Item | TagEnd::BlockQuote(_) | TagEnd::FootnoteDefinition) => {
                stack.pop();
            }
            _ => {}
        }
    }
    v
}
fn p_lists(a: &str, b: &str) -> u32 {
    let (x, y) = (items(a, false), items(b, true));
    if x.o != y.o {
        return 2;
    }
    if y.bad {
        return 3;
    }
    0
}

// ---- C13 ----
fn headings(s: &str, out: bool) -> Result<Vec<u8>, u32> {
    let mut c = Canon::new();
    let mut on = false;
    let mut empty = 0;
    for (e, r) in events(s) {
        match &e {
            Event::Start(Tag::Heading { level: l, id, classes, attrs }) => {
                h_note(13);
                on = true;
                c.block();
                c.mark("\n");
                c.o.push(b'0' + level(l));
                if let Some(i) = id {
                    c.mark("#");
                    c.mark(i);
                }
                for k in classes {
                    c.mark(".");
                    c.mark(k);
                }
                for (k, v) in attrs {
                    c.mark(" ");
                    c.mark(k);
                    if let Some(v) = v {
                        c.mark("=");
                        c.mark(v);
                    }
                }
                c.mark("\u{2}");
                let src = s[r.clone()].trim();
                if setext(src) {
                    let u = src.rsplit(['\n', '\r']).next().unwrap_or("").trim_start_matches([' ', '>', '\t']).trim();
                    c.mark(u);
                } else if out {
                    // "## text" or "##"
                    let h = src.trim_start_matches('#');
                    if src.len() - h.len() != level(l) as usize || !(h.is_empty() || (h.starts_with(' ') && !h.starts_with("  "))) {
                        return Err(3);
                    }
                }
                c.mark("\u{2}");
                empty = if setext(src) { c.o.len() } else { 0 };
                continue;
            }
            Event::End(TagEnd::Heading(_)) => {
                on = false;
                if empty == c.o.len() {
                    c.mark("\\");
                }
            }
            _ => {}
        }
        if on {
            c.inline(&e);
        }
    }
    Ok(c.o)
}
fn p_headings(a: &str, b: &str) -> u32 {
    match (headings(a, false), headings(b, true)) {
        (Ok(x), Ok(y)) => {
            if x == y {
                0
            } else {
                2
            }
        }
        (Err(e), _) | (_, Err(e)) => e,
    }
}

// ---- C14 ----
/// Container path (block quotes, items, footnotes) of every leaf block.
fn paths(s: &str) -> Vec<u8> {
    let mut o = vec![];
    let mut st: Vec<u8> = vec![];
    let mut verbatim = false;
    for (e, _) in events(s) {
        match e {
            Event::Start(Tag::BlockQuote(_)) => {
                st.push(b'>');
                o.push(b'(');
            }
            Event::Start(Tag::Item) => st.push(b'-'),
            Event::Start(Tag::FootnoteDefinition(_)) => st.push(b'^'),
            Event::End(TagEnd::BlockQuote(_)) => {
                st.pop();
                o.push(b')');
            }
            Event::End(TagEnd::Item | TagEnd::FootnoteDefinition) => {
                st.pop();
            }
            Event::Start(Tag::Heading { .. }) => leaf(&mut o, &st, b'h'),
            Event::Start(Tag::CodeBlock(_)) => {
                leaf(&mut o, &st, b'c');
                verbatim = true;
            }
            Event::Start(Tag::HtmlBlock) => {
                leaf(&mut o, &st, b'b');
                verbatim = true;
            }
            Event::End(TagEnd::CodeBlock | TagEnd::HtmlBlock) => verbatim = false,
            Event::Start(Tag::Table(_)) => leaf(&mut o, &st, b't'),
            Event::Rule => leaf(&mut o, &st, b'r'),
            Event::Text(_) if verbatim => {}
            Event::Text(_) | Event::Code(_) | Event::InlineHtml(_) => leaf(&mut o, &st, b'.'),
            _ => {}
        }
    }
    o
}
fn leaf(o: &mut Vec<u8>, st: &[u8], k: u8) {
    if st.is_empty() {
        return;
    }
    let mut l = st.to_vec();
    l.push(k);
    // consecutive inline pieces of one block count once
    if k == b'.' && o.ends_with(&l) {
        return;
    }
    if !st.contains(&b'>') {
        return;
    }
    o.extend_from_slice(&l);
}
fn p_quotes(a: &str, b: &str) -> u32 {
    if paths(a) != paths(b) {
        return 2;
    }
    let mut open: Vec<usize> = vec![];
    for (e, r) in events(b) {
        match e {
            Event::Start(Tag::BlockQuote(_)) => {
                h_note(14);
                open.push(r.start);
                let d = open.len();
                let mut at = b[..r.start].rfind('\n').map(|i| i + 1).unwrap_or(0);
                let end = r.start + b[r.clone()].trim_end_matches(['\n', ' ']).len();
                while at < end {
                    let l = &b[at..];
                    let l = l.split('\n').next().unwrap_or("");
                    let n = l.bytes().take_while(|c| matches!(c, b' ' | b'>' | b'-' | b'+' | b'*' | b'.' | b')') || c.is_ascii_digit()).filter(|c| *c == b'>').count();
                    if n < d {
                        return 3;
                    }
                    at += l.len() + 1;
                }
            }
            Event::End(TagEnd::BlockQuote(_)) => {
                open.pop();
            }
            _ => {}
        }
    }
    0
}

// ---- C15 ----
fn inline(s: &str, wrap: bool) -> Vec<u8> {
    let mut c = Canon::new();
    let mut link = 0;
    let mut open = Brackets(0);
    for (e, r) in events(s) {
        let src = &s[r];
        match e {
            Event::Start(Tag::Emphasis) => c.mark(&src[..1]),
            Event::Start(Tag::Strong) => c.mark(&src[..2]),
            Event::Start(Tag::Strikethrough) => c.mark(&src[..src.len() - src.trim_start_matches('~').len()]),
            Event::End(TagEnd::Emphasis) => c.mark("/e"),
            Event::End(TagEnd::Strong) => c.mark("/s"),
            Event::End(TagEnd::Strikethrough) => c.mark("/k"),
            Event::Start(Tag::Link { .. } | Tag::Image { .. }) => link += 1,
            Event::End(TagEnd::Link | TagEnd::Image) => link -= 1,
            Event::Code(t) => {
                h_note(15);
                c.mark(&src[..src.len() - src.trim_start_matches('`').len()]);
                c.squeezed(&t);
                c.mark("\u{3}");
            }
            Event::Text(t) => open.text(&t),
            Event::End(TagEnd::Paragraph | TagEnd::Heading(_) | TagEnd::Item) => open = Brackets(0),
            Event::HardBreak if link == 0 && !open.any() => c.mark(if src.starts_with('\\') { "\\" } else { "\u{4}" }),
            _ => {}
        }
        let _ = wrap;
    }
    c.o
}
fn p_inline(a: &str, b: &str) -> u32 {
    if inline(a, false) == inline(b, false) {
        0
    } else {
        2
    }
}

// ---- C16 ----
fn raw(s: &str) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let mut lit: Option<String> = None;
    for (e, r) in events(s) {
        match e {
            Event::Start(Tag::HtmlBlock) => lit = Some(String::from("B")),
            Event::Start(Tag::MetadataBlock(_)) => {
                let mut t = String::from("M");
                t.push_str(s[r].split('\n').next().unwrap_or("").trim_end());
                t.push('\n');
                lit = Some(t);
            }
            Event::End(TagEnd::HtmlBlock | TagEnd::MetadataBlock(_)) => {
                h_note(16);
                if let Some(t) = lit.take() {
                    o.extend_from_slice(literal(&t, true).as_bytes());
                    o.push(3);
                }
            }
            Event::Html(t) | Event::Text(t) => {
                if let Some(l) = &mut lit {
                    l.push_str(&t);
                }
            }
            Event::InlineHtml(t) => {
                o.push(b'h');
                let mut c = Canon::new();
                c.squeezed(&t);
                o.extend_from_slice(&c.o);
                o.push(3);
            }
            Event::Rule => {
                o.push(b'r');
                o.extend_from_slice(s[r].trim().as_bytes());
                o.push(3);
            }
            _ => {}
        }
    }
    o
}
fn p_raw(a: &str, b: &str) -> u32 {
    if raw(a) == raw(b) {
        0
    } else {
        2
    }
}

// ---- C17 ----
fn footnotes(s: &str, out: bool) -> Result<Vec<u8>, u32> {
    let mut c = Canon::new();
    let mut on = 0;
    for (e, r) in events(s) {
        match &e {
            Event::Start(Tag::FootnoteDefinition(l)) => {
                h_note(17);
                on += 1;
                c.block();
                c.mark("\nD");
                c.mark(l);
                c.mark("\u{2}");
                if out {
                    // "[^label]:" alone on its line, the content four columns further in
                    let src = &s[r.clone()];
                    let first = src.split('\n').next().unwrap_or("");
                    if !first.ends_with("]:") || !first.starts_with("[^") {
                        return Err(3);
                    }
                }
                continue;
            }
            Event::End(TagEnd::FootnoteDefinition) => {
                on -= 1;
                c.block();
                c.mark("\u{3}");
                continue;
            }
            Event::FootnoteReference(l) => {
                if on == 0 {
                    c.mark("\nR");
                    c.mark(l);
                    continue;
                }
            }
            _ => {}
        }
        if on > 0 && !c.inline(&e) {
            c.block();
            c.mark("\n");
        }
    }
    Ok(c.o)
}
fn p_footnotes(a: &str, b: &str) -> u32 {
    match (footnotes(a, false), footnotes(b, true)) {
        (Ok(x), Ok(y)) => {
            if x == y {
                0
            } else {
                2
            }
        }
        (Err(e), _) | (_, Err(e)) => e,
    }
}

// ---- C18 ----
/// Number of line breaks between consecutive top-level blocks.
fn gaps(s: &str) -> Vec<u8> {
    let mut o = vec![];
    let mut depth = 0;
    let mut last = 0usize;
    let mut first = true;
    for (e, r) in events(s) {
        let top = depth == 0;
        match &e {
            Event::Start(_) => depth += 1,
            Event::End(_) => depth -= 1,
            _ => {}
        }
        let starts = top && matches!(e, Event::Start(_) | Event::Rule);
        if starts {
            if !first {
                let g = &s[last..r.start.max(last)];
                if g.trim().is_empty() {
                    o.push(b'0' + g.matches('\n').count().clamp(1, 9) as u8);
                } else {
                    o.push(if g.lines().any(is_separator) { b'C' } else { b'?' });
                }
            }
            first = false;
            last = r.start + s[r].trim_end().len();
        }
    }
    o
}
fn p_spacing(a: &str, b: &str) -> u32 {
    // between a list and an indented code block the formatter writes comments
    let (x, y) = (gaps(a), gaps(b));
    if x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| p == q || *q == b'C') {
        0
    } else {
        2
    }
}
