//! A model of a client: the documents as it holds them, and the judgement of what the server publishes.
use std::collections::BTreeMap;

use lsp_server::{Message, Notification, Request, RequestId, Response};
use lsp_types::Diagnostic;
use move_language_server::config::Config;
use paths::AbsPathBuf;
use serde_json::{json, Value};
use syntax::SourceFile;

use super::parsing::bound;
use crate::gen;
use crate::src::Src;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Enc {
    Utf8,
    Utf16,
}

/// What a client may say about encodings, and what follows from it.
pub const OFFERS: &[(Option<&[&str]>, Enc)] = &[
    (None, Enc::Utf16),
    (Some(&["utf-8"]), Enc::Utf8),
    (Some(&["utf-16"]), Enc::Utf16),
    (Some(&["utf-16", "utf-8"]), Enc::Utf8),
    (Some(&["utf-8", "utf-16"]), Enc::Utf8),
    (Some(&[]), Enc::Utf16),
    (Some(&["utf-32", "utf-16"]), Enc::Utf16),
    (Some(&["utf-32", "utf-16", "utf-8"]), Enc::Utf8),
];

pub fn capabilities(offer: Option<&[&str]>) -> Value {
    match offer {
        Some(list) => json!({ "offsetEncoding": list }),
        None => json!({}),
    }
}

pub fn config(capabilities: &Value) -> Config {
    let caps = serde_json::from_value(capabilities.clone()).expect("capabilities");
    Config::new(AbsPathBuf::assert("/w".into()), caps)
}

impl Enc {
    pub fn len(self, s: &str) -> u32 {
        match self {
            Enc::Utf8 => s.len() as u32,
            Enc::Utf16 => s.chars().map(|c| c.len_utf16() as u32).sum(),
        }
    }
}

/// Line and column of a place in the client's text. Lines end with LF or CRLF.
pub fn position(text: &str, offset: usize, enc: Enc) -> (u32, u32) {
    let before = &text[..offset];
    let line = before.matches('\n').count() as u32;
    let start = before.rfind('\n').map_or(0, |it| it + 1);
    (line, enc.len(&before[start..]))
}

pub type Published = Vec<((u32, u32), (u32, u32), String)>;

/// The diagnostics of a document: its syntax errors at their places in the client's text.
pub fn expected(text: &str, enc: Enc) -> Published {
    // The analysed text has LF only; `at[i]` is the place of its byte `i` in the client's text.
    let mut plain = String::new();
    let mut at = Vec::new();
    let mut chars = text.char_indices().peekable();
    while let Some((i, c)) = chars.next() {
        let c = match (c, chars.peek()) {
            ('\r', Some((_, '\n'))) => {
                chars.next();
                '\n'
            }
            _ => c,
        };
        plain.push(c);
        while at.len() < plain.len() {
            at.push(i);
        }
    }
    at.push(text.len());
    let parse = SourceFile::parse(&plain);
    let errors = parse.errors();
    errors
        .iter()
        .take(128)
        .map(|e| {
            let start = at[usize::from(e.range().start())];
            let end = at[usize::from(e.range().end())];
            (position(text, start, enc), position(text, end, enc), format!("Syntax Error: {}", e))
        })
        .collect()
}

pub fn published(diagnostics: &[Diagnostic]) -> Result<Published, String> {
    diagnostics
        .iter()
        .map(|d| {
            if d.severity != Some(lsp_types::DiagnosticSeverity::Error) {
                return Err(format!("the severity of a syntax error is {:?}", d.severity));
            }
            if d.code != Some(lsp_types::NumberOrString::String("syntax-error".into())) {
                return Err(format!("the code of a syntax error is {:?}", d.code));
            }
            let pos = |p: lsp_types::Position| (p.line, p.character);
            Ok((pos(d.range.start), pos(d.range.end), d.message.clone()))
        })
        .collect()
}

/// A text as an editor may hold it: any line ends but no lone CR.
pub fn doc_text(src: &mut Src, fuel: i64) -> String {
    let (mut text, _) = gen::any_text(src, fuel);
    if src.bool() {
        for _ in 0..src.range(1, 4) {
            let at = boundary(src, &text);
            match src.below(4) {
                0 => text.insert_str(at, "b\"\u{e9}\u{4e16}\u{1F600}\""),
                1 => text.insert_str(at, "/* \u{e9} */"),
                _ => text.insert(at, gen::unicode_char(src)),
            }
        }
    }
    line_ends(src, &bound(&text))
}

pub fn line_ends(src: &mut Src, text: &str) -> String {
    let text = text.replace('\r', "");
    match src.weighted(&[3, 2, 2]) {
        0 => text,
        1 => text.replace('\n', "\r\n"),
        _ => {
            let mut out = String::new();
            for c in text.chars() {
                if c == '\n' && src.bool() {
                    out.push('\r');
                }
                out.push(c);
            }
            out
        }
    }
}

/// A place between two characters, and not inside a CRLF.
pub fn boundary(src: &mut Src, text: &str) -> usize {
    let mut at = src.upto(text.len());
    while !text.is_char_boundary(at) || (at > 0 && text[..at].ends_with('\r') && text[at..].starts_with('\n')) {
        at -= 1;
    }
    at
}

/// The bytes of the components of a file URI, `.` and `..` resolved.
pub fn uri_path(uri: &str) -> Option<Vec<Vec<u8>>> {
    let rest = uri.strip_prefix("file://")?;
    let rest = rest.strip_prefix("localhost").unwrap_or(rest);
    let rest = rest.strip_prefix('/')?;
    let mut res: Vec<Vec<u8>> = Vec::new();
    for piece in rest.split('/') {
        let bytes = piece.as_bytes();
        let mut out = Vec::new();
        let mut i = 0;
        while i < bytes.len() {
            if bytes[i] == b'%' {
                out.push(u8::from_str_radix(piece.get(i + 1..i + 3)?, 16).ok()?);
                i += 3;
            } else {
                out.push(bytes[i]);
                i += 1;
            }
        }
        match out.as_slice() {
            b"" | b"." => (),
            b".." => drop(res.pop()),
            _ => res.push(out),
        }
    }
    Some(res)
}

pub struct Doc {
    pub uri: String,
    pub text: String,
    pub version: i32,
    pub open: bool,
    /// The texts since it was opened.
    pub texts: BTreeMap<i32, String>,
    /// The last publication.
    pub last: Option<Published>,
    pub publications: usize,
}

pub struct Client {
    pub enc: Enc,
    pub docs: BTreeMap<Vec<Vec<u8>>, Doc>,
    pub responses: Vec<Response>,
    /// Requests sent by the server.
    pub requests: Vec<Request>,
}

impl Client {
    pub fn new(enc: Enc) -> Client {
        Client { enc, docs: BTreeMap::new(), responses: Vec::new(), requests: Vec::new() }
    }

    pub fn doc(&mut self, uri: &str) -> &mut Doc {
        let key = uri_path(uri).expect("a file URI");
        let uri = uri.to_string();
        self.docs.entry(key).or_insert_with(|| Doc {
            uri,
            text: String::new(),
            version: 0,
            open: false,
            texts: BTreeMap::new(),
            last: None,
            publications: 0,
        })
    }

    pub fn open(&mut self, uri: &str, version: i32, text: String) -> Message {
        let doc = self.doc(uri);
        doc.open = true;
        doc.version = version;
        doc.texts.clear();
        doc.texts.insert(version, text.clone());
        doc.text = text;
        let text = &doc.text;
        notification("textDocument/didOpen", json!({
            "textDocument": { "uri": uri, "languageId": "move", "version": version, "text": text }
        }))
    }

    /// The document's text is now `text`, which `changes` bring about.
    pub fn change(&mut self, uri: &str, version: i32, text: String, changes: Vec<Value>) -> Message {
        let doc = self.doc(uri);
        doc.version = version;
        doc.texts.insert(version, text.clone());
        doc.text = text;
        notification("textDocument/didChange", json!({
            "textDocument": { "uri": uri, "version": version }, "contentChanges": changes
        }))
    }

    pub fn close(&mut self, uri: &str) -> Message {
        self.doc(uri).open = false;
        notification("textDocument/didClose", json!({ "textDocument": { "uri": uri } }))
    }

    pub fn receive(&mut self, message: Message) -> Result<(), String> {
        let not = match message {
            Message::Response(it) => return Ok(self.responses.push(it)),
            Message::Request(it) => return Ok(self.requests.push(it)),
            Message::Notification(it) => it,
        };
        if not.method != "textDocument/publishDiagnostics" {
            return Ok(());
        }
        let uri = not.params["uri"].as_str().ok_or("a publication without URI")?.to_string();
        let params: lsp_types::PublishDiagnosticsParams =
            serde_json::from_value(not.params).map_err(|e| format!("a publication that is none: {}", e))?;
        let key = uri_path(&uri).ok_or_else(|| format!("a publication for {}", uri))?;
        let enc = self.enc;
        let doc = match self.docs.get_mut(&key) {
            Some(doc) => doc,
            None => return Err(format!("a publication for {}, which was never opened", uri)),
        };
        let got = published(&params.diagnostics)?;
        if doc.open {
            let text = match params.version {
                Some(v) => doc
                    .texts
                    .get(&v)
                    .ok_or_else(|| format!("{}: version {} is published, which is none since it was opened", uri, v))?,
                None => return Err(format!("{}: a publication for an open document states no version", uri)),
            };
            let want = expected(text, enc);
            if got != want {
                return Err(format!(
                    "{}: published for version {:?}: {:?}\nexpected for {:?}: {:?}",
                    uri, params.version, got, text, want
                ));
            }
        }
        if doc.last.as_ref() == Some(&got) {
            return Err(format!("{}: {:?} is published twice in a row", uri, got));
        }
        doc.last = Some(got);
        doc.publications += 1;
        Ok(())
    }

    /// Whether the client sees the current errors everywhere.
    pub fn current(&self) -> Result<(), String> {
        for doc in self.docs.values().filter(|it| it.open) {
            let want = expected(&doc.text, self.enc);
            let got = doc.last.clone().unwrap_or_default();
            if got != want {
                return Err(format!(
                    "{}: the server is idle; last published: {:?}\nexpected for {:?}: {:?}",
                    doc.uri, doc.last, doc.text, want
                ));
            }
        }
        Ok(())
    }
}

pub fn notification(method: &str, params: Value) -> Message {
    Message::Notification(Notification { method: method.to_string(), params })
}

pub fn request(id: RequestId, method: &str, params: Value) -> Message {
    Message::Request(Request { id, method: method.to_string(), params })
}

/// One change of a document: how it is written, and what it does to `text`.
pub fn edit(src: &mut Src, text: &mut String, enc: Enc) -> Value {
    if src.chance(1, 5) {
        *text = doc_text(src, 20);
        return json!({ "text": text });
    }
    let (mut a, mut b) = (boundary(src, text), boundary(src, text));
    if src.bool() {
        // A small one.
        b = a;
        for _ in 0..src.upto(3) {
            b += text[b..].chars().next().map_or(0, |c| if text[b..].starts_with("\r\n") { 2 } else { c.len_utf8() });
        }
    }
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    let new = match src.below(6) {
        0 => String::new(),
        1 => gen::unicode(src, 3, 8),
        2 => src.pick(&["\n", "\r\n", "\n\n", "a\nb", "\u{1F600}\n", "\n\u{e9}"]).to_string(),
        3 => src.pick(gen::SOUP).to_string(),
        4 => " ".to_string() + &gen::soup(src, 4, 12),
        _ => src.pick(&["a", " ", "{", "}", ";", "\u{e9}", "\u{4e16}", "\u{1F600}", "// "]).to_string(),
    };
    let new = line_ends(src, &new);
    let (mut start, mut end) = (position(text, a, enc), position(text, b, enc));
    let past = |src: &mut Src, p: &mut (u32, u32)| match src.below(3) {
        0 => p.1 += 1 + src.below(70) as u32,
        1 => *p = (p.0 + 1 + src.below(4) as u32, src.below(50) as u32),
        _ => *p = (p.0 + 1_000_000, 0),
    };
    if b == text.len() && src.chance(1, 4) {
        past(src, &mut end);
        if a == b && src.bool() {
            start = end;
        }
    }
    let length = text[a..b].encode_utf16().count();
    text.replace_range(a..b, &new);
    let mut change = json!({
        "range": {
            "start": { "line": start.0, "character": start.1 },
            "end": { "line": end.0, "character": end.1 },
        },
        "text": new,
    });
    if src.chance(1, 4) {
        // Out of date, but still sent by editors; says nothing the range does not.
        change["rangeLength"] = json!(length);
    }
    change
}
