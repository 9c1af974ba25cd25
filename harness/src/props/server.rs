//! The server, step by step: C09 (positions), C10 (edits), C16 (URIs), C20 (requests), C21 (publications).
use lsp_server::{Message, RequestId, Response};
use move_language_server::vp_hooks::Server;
use paths::AbsPathBuf;
use serde_json::{json, Value};
use vfs::VfsPath;

use super::client::{self, boundary, capabilities, config, doc_text, edit, notification, request, uri_path, Client, Enc, OFFERS};
use super::parsing::quoted;
use crate::engine::{no_panic, Ctx, Prop, Res, PROP};
use crate::src::Src;

struct Session {
    server: Server,
    client: Client,
    /// Wait for the computations after every message, so that the case decides when they are handled.
    steady: bool,
    /// For the reader of a failure.
    log: Vec<String>,
}

impl Session {
    fn new(src: &mut Src, ctx: &mut Ctx, steady: bool) -> Session {
        let (offer, enc) = *src.pick(OFFERS);
        ctx.class(match enc {
            Enc::Utf8 => "UTF-8 negotiated",
            Enc::Utf16 => "UTF-16 negotiated",
        });
        Session {
            server: Server::new(config(&capabilities(offer))),
            client: Client::new(enc),
            steady,
            log: vec![format!("client offers {:?}", offer)],
        }
    }

    fn send(&mut self, message: Message) -> Res {
        self.log.push(match &message {
            Message::Notification(it) => format!("{} {}", it.method, it.params),
            Message::Request(it) => format!("request {:?} {} {}", it.id, it.method, it.params),
            Message::Response(it) => format!("response {:?}", it.id),
        });
        let server = &mut self.server;
        no_panic("message", || server.handle_message(message))?.map_err(|e| format!("message: {}", e))?;
        if self.steady {
            self.server.finish_computations();
        }
        self.receive()
    }

    /// Hands the server one of the results that have arrived.
    fn deliver(&mut self, n: usize) -> Res {
        self.log.push(format!("result {} of {}", n, self.server.n_results()));
        let server = &mut self.server;
        no_panic("result", || server.handle_result(n))?.map_err(|e| format!("result: {}", e))?;
        self.receive()
    }

    /// The same for several in one turn of its loop.
    fn deliver_all(&mut self, order: &[usize]) -> Res {
        self.log.push(format!("results {:?} of {} together", order, self.server.n_results()));
        let server = &mut self.server;
        no_panic("results", || server.handle_results(order[0], &order[1..]))?.map_err(|e| format!("results: {}", e))?;
        self.receive()
    }

    fn receive(&mut self) -> Res {
        for message in self.server.take_sent() {
            if let Message::Notification(it) = &message {
                self.log.push(format!("  <- {} {}", it.method, it.params));
            }
            self.client.receive(message)?;
        }
        Ok(())
    }

    /// Until there is nothing left to do.
    fn idle(&mut self, src: &mut Src) -> Res {
        loop {
            self.server.finish_computations();
            let n = self.server.n_results();
            if n == 0 {
                return self.client.current();
            }
            if n > 1 && src.chance(1, 3) {
                let order = shuffled(src, n);
                self.deliver_all(&order)?;
            } else {
                self.deliver(src.index(n))?;
            }
        }
    }

    fn contents(&self, uri: &str) -> Option<String> {
        use std::os::unix::ffi::OsStringExt;
        let mut path = Vec::new();
        for piece in uri_path(uri).unwrap() {
            path.push(b'/');
            path.extend(piece);
        }
        let path = std::path::PathBuf::from(std::ffi::OsString::from_vec(path));
        let path = VfsPath::from(AbsPathBuf::assert(path));
        self.server.file_contents(&path).map(|it| String::from_utf8_lossy(&it).into_owned())
    }

    fn shown(&self) -> String {
        self.log.join("\n")
    }
}

/// Some of the numbers below `n`, at least two, in any order.
fn shuffled(src: &mut Src, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let k = src.range(2, n);
    (0..k).map(|_| left.remove(src.index(left.len()))).collect()
}

/// The log is shown also when the case fails.
fn with_log(ctx: &mut Ctx, session: &mut Session, res: Res) -> Res {
    let log = session.shown();
    ctx.key(log.as_bytes());
    ctx.show(|| log);
    res
}

/// Trivia that puts what follows far down or far right.
fn filler(src: &mut Src) -> String {
    let n = *src.pick(&[126usize, 255, 256, 1000, 4096, 65_530, 65_535, 65_536, 70_000, 140_000]) + src.upto(4);
    match src.below(4) {
        0 => "\n".repeat(n),
        1 => "\r\n".repeat(n),
        2 => format!("/*{}*/", "\u{e9}x\u{1F600} ".repeat(n / 5)),
        _ => format!("/*{}*/", " ".repeat(n)),
    }
}

// ---------------------------------------------------------------- C09

fn c09_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut session = Session::new(src, ctx, true);
    let mut text = doc_text(src, 25);
    if src.chance(1, 60) {
        text = filler(src) + &text;
        ctx.class("long text");
    }
    if src.chance(1, 60) {
        text = text + src.pick(&["\n", "\r\n", ""]) + &"$ ".repeat(*src.pick(&[30, 126, 127, 128, 300]));
        ctx.class("many errors");
    }
    let res = c09_check(src, ctx, &mut session, text);
    with_log(ctx, &mut session, res)
}

fn c09_check(src: &mut Src, ctx: &mut Ctx, session: &mut Session, text: String) -> Res {
    let uri = "file:///w/a.move";
    let want = client::expected(&text, session.client.enc);
    let other = match session.client.enc {
        Enc::Utf8 => Enc::Utf16,
        Enc::Utf16 => Enc::Utf8,
    };
    ctx.nontrivial(!want.is_empty());
    ctx.class_if(want != client::expected(&text, other), "the encoding matters");
    ctx.class_if(!want.is_empty() && text.contains("\r\n"), "CRLF");
    ctx.class_if(!want.is_empty() && text.contains("\r\n") && text.replace("\r\n", "").contains('\n'), "mixed line ends");
    let message = session.client.open(uri, 1, text);
    session.send(message)?;
    session.idle(src)?;
    // The same after the text came in as a change.
    if src.chance(1, 4) {
        let text = doc_text(src, 15);
        let message = session.client.change(uri, 2, text.clone(), vec![json!({ "text": text })]);
        session.send(message)?;
        session.idle(src)?;
    }
    Ok(())
}

pub static C09: Prop = Prop {
    id: "C09",
    rule: "a case is a document with LF, CRLF or mixed line ends and characters of all widths, opened (and sometimes \
           replaced) by a client with one of 8 offers of encodings; non-trivial: it has a syntax error",
    assumptions: &["no lone CR", "the syntax errors are those the parser reports for the text with LF line ends"],
    cases: (16_000, 800_000),
    case: c09_case,
    ..PROP
};

// ---------------------------------------------------------------- C10, C21

const URIS: &[&str] = &["file:///w/a.move", "file:///w/b.move", "file:///w/sub/a.move", "file:///x.move"];

/// Mostly few.
fn doc_count(src: &mut Src) -> usize {
    match src.chance(1, 60) {
        true => src.range(8, 40),
        false => src.range(1, 3),
    }
}

/// Texts with similar errors: at the same place, or with messages of the same length.
const SIMILAR: &[&str] = &[
    "", "script { fun f() {} }", "$", "$ $", "\n$", "fun", "x\"", "x\"\"", "x\"gg\"", "x\"gg", "b\"abc", "b\"abcd",
    "module", "script", "script {", "script { fun", "script { fun f", "script { fun f(", "script { fun f()",
    "script { fun f() {", "script { fun f() { a. } }", "script { fun f() { a.( } }", "module 0x1::", "module 0x1::M",
    "module 0x1::M {", "module 0x1::M { fun }", "module 0x1::M { struct }", "address", "address 0x1", "/*", "/* a",
];

/// Where different things are expected next.
const STARTS: &[&str] = &[
    "", "script", "script {", "script { fun", "script { fun f(", "script { fun f(a", "script { fun f(a:", "script { fun f() {",
    "script { fun f() { let", "script { fun f() { let a", "script { fun f() { let a =", "script { fun f() { a.",
    "script { fun f() { a(", "script { fun f() { a(b", "script { fun f() { let S {", "script { fun f<", "script { fun f<T",
    "module", "module 0x1::", "module 0x1::M", "module 0x1::M {", "module 0x1::M { struct", "module 0x1::M { struct S",
    "module 0x1::M { struct S {", "module 0x1::M { struct S { a:", "module 0x1::M { fun f(): ", "address 0x1", "address 0x1 {",
];

/// A message about some document, if the client can send one. Versions are increasing, or `any`.
fn doc_message(src: &mut Src, client: &mut Client, n_docs: usize, full_only: bool, any: bool) -> Message {
    const ODD: &[i32] = &[i32::MIN, -70_000, -2, -1, 0, 255, 65_535, 1 << 24, i32::MAX - 100_000];
    let n = src.index(n_docs);
    let uri = URIS.get(n).map_or_else(|| format!("file:///w/m{}.move", n), |it| it.to_string());
    let uri = uri.as_str();
    let doc = client.doc(uri);
    if !doc.open {
        let version = match src.below(8) {
            0 => *src.pick(ODD),
            1 | 2 | 3 => src.below(4) as i32,
            _ => doc.version.saturating_add(1),
        };
        let mut text = match src.below(3) {
            // As it was closed.
            0 => doc.text.clone(),
            _ => doc_text(src, 20),
        };
        if src.chance(1, 100) {
            text = filler(src) + &text;
        }
        return client.open(uri, version, text);
    }
    match src.weighted(&[8, 1]) {
        0 => {
            let mut version = doc.version.saturating_add(1 + if src.chance(1, 4) { src.below(5) as i32 } else { 0 });
            if any && src.chance(1, 10) {
                version = if src.bool() { *src.pick(ODD) } else { doc.version.saturating_sub(src.below(3) as i32) };
            }
            let mut text = doc.text.clone();
            let mut changes = Vec::new();
            let enc = client.enc;
            if full_only {
                text = match src.below(6) {
                    4 if !text.is_empty() => {
                        // Another character somewhere.
                        let at = boundary(src, &text);
                        let mut chars = text[at..].chars();
                        chars.next();
                        text[..at].to_string() + src.pick(&["a", "$", "{", "}", "1", ";", "\""]) + chars.as_str()
                    }
                    5 => {
                        // Many errors, which differ at the end only.
                        "$ ".repeat(*src.pick(&[2, 20, 70, 120, 127, 128, 130])) + src.pick(&["", "$", " $", "{ $", "1", "x\"g\"", "\n$"])
                    }
                    0 => {
                        // The same errors elsewhere, or the same text.
                        let at = boundary(src, &text);
                        text[..at].to_string() + src.pick(&["", " ", "\n", "$ "]) + &text[at..]
                    }
                    1 => src.pick(SIMILAR).to_string(),
                    _ => doc_text(src, 15),
                };
                changes.push(json!({ "text": text }));
            } else {
                for _ in 0..src.range(1, 4) {
                    changes.push(edit(src, &mut text, enc));
                }
            }
            client.change(uri, version, text, changes)
        }
        _ => client.close(uri),
    }
}

fn c10_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut session = Session::new(src, ctx, true);
    let res = c10_check(src, ctx, &mut session);
    with_log(ctx, &mut session, res)
}

fn c10_check(src: &mut Src, ctx: &mut Ctx, session: &mut Session) -> Res {
    let n_docs = doc_count(src);
    ctx.class_if(n_docs > 3, "many documents");
    let mut changes = 0;
    for _ in 0..src.range(1, if n_docs > 3 { 60 } else { 10 }) {
        let message = doc_message(src, &mut session.client, n_docs, false, true);
        if let Message::Notification(it) = &message {
            let list = it.params["contentChanges"].as_array().cloned().unwrap_or_default();
            changes += list.len();
            ctx.class_if(list.len() > 1, "several changes in one notification");
            let ranged = |it: &Value| it.get("range").is_some();
            ctx.class_if(list.iter().any(ranged) && !list.iter().all(ranged), "full and ranged changes together");
            ctx.class_if(it.method == "textDocument/didClose", "close");
        }
        session.send(message)?;
        for doc in session.client.docs.values().filter(|it| it.open) {
            let got = session.contents(&doc.uri);
            if got.as_deref() != Some(doc.text.as_str()) {
                let got = got.map(|it| quoted(&it));
                return Err(format!("{}: the server has {:?}, the client {}", doc.uri, got, quoted(&doc.text)));
            }
        }
        if src.chance(1, 4) && session.server.n_results() > 0 {
            session.deliver(0)?;
        }
    }
    ctx.nontrivial(changes > 0);
    ctx.count("changes", changes as u64);
    session.idle(src)
}

pub static C10: Prop = Prop {
    id: "C10",
    rule: "a case is a history of up to 10 open, change, close and reopen notifications for up to 3 documents, with up \
           to 4 full or ranged changes each, for one of 8 offers of encodings; non-trivial: it changes a document",
    assumptions: &[
        "a position lies between two characters (not inside a CRLF) or past the end of the whole text",
        "no lone CR; a client opens a document once before closing it",
    ],
    cases: (16_000, 800_000),
    case: c10_case,
    ..PROP
};

fn noise(src: &mut Src) -> Message {
    match src.below(5) {
        0 => request((src.below(1000) as i32).into(), "textDocument/hover", json!({ "position": {} })),
        1 => notification("$/setTrace", json!({ "value": "off" })),
        2 => notification("workspace/didChangeConfiguration", json!({ "settings": null })),
        3 => notification("$/cancelRequest", json!({ "id": src.below(10) })),
        _ => notification("textDocument/didSave", json!({ "textDocument": { "uri": URIS[0] } })),
    }
}

fn c21_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let steady = !src.chance(1, 4);
    ctx.class(if steady { "delivery order chosen" } else { "computations running freely" });
    let mut session = Session::new(src, ctx, steady);
    let res = c21_check(src, ctx, &mut session);
    with_log(ctx, &mut session, res)
}

/// Documents which go from one error to another at the same place.
fn same_place(src: &mut Src, ctx: &mut Ctx, session: &mut Session) -> Res {
    let mut version = 0;
    let end = src.pick(&["@", "@", "$", ""]);
    let n_docs = 1 + src.index(2);
    for _ in 0..src.range(3, 16) {
        let text = format!("{:<40}{}", src.pick(STARTS), end);
        let uri = URIS[src.index(n_docs)];
        version += 1;
        let message = if session.client.doc(uri).open {
            session.client.change(uri, version, text.clone(), vec![json!({ "text": text })])
        } else {
            session.client.open(uri, version, text)
        };
        session.send(message)?;
        if src.chance(7, 8) {
            session.idle(src)?;
        }
    }
    session.idle(src)?;
    ctx.class("other errors at the same place");
    let publications: usize = session.client.docs.values().map(|it| it.publications).sum();
    ctx.count("publications", publications as u64);
    ctx.nontrivial(publications > 1);
    Ok(())
}

fn c21_check(src: &mut Src, ctx: &mut Ctx, session: &mut Session) -> Res {
    if src.chance(1, 8) {
        return same_place(src, ctx, session);
    }
    let n_docs = doc_count(src);
    let full_only = src.bool();
    let mut held = 0;
    for _ in 0..src.range(2, if n_docs > 3 { 80 } else { 14 }) {
        match src.weighted(&[6, 4, 1, 1]) {
            1 if session.server.n_results() > 0 => {
                let n = session.server.n_results();
                held = held.max(n);
                if n > 1 && src.bool() {
                    let order = shuffled(src, n);
                    ctx.class("results handled together");
                    session.deliver_all(&order)?;
                } else {
                    session.deliver(src.index(n))?;
                }
            }
            2 => session.send(noise(src))?,
            3 => session.idle(src)?,
            _ => {
                let message = doc_message(src, &mut session.client, n_docs, full_only, false);
                session.send(message)?;
            }
        }
    }
    ctx.class_if(held > 1, "results overtaken by messages");
    session.idle(src)?;
    let publications: usize = session.client.docs.values().map(|it| it.publications).sum();
    ctx.count("publications", publications as u64);
    ctx.nontrivial(publications > 1);
    ctx.class_if(session.client.docs.values().filter(|it| it.open).count() > 1, "several open documents");
    Ok(())
}

pub static C21: Prop = Prop {
    id: "C21",
    rule: "a case is a history of up to 14 document notifications, other messages, and deliveries of background \
           results in a generated order (in a quarter of the cases the computations also run unsynchronised); every \
           publication is judged when it is sent, and the last ones when the server is idle; non-trivial: at least \
           two publications",
    assumptions: &["publications for closed documents are not judged", "documents as in C10"],
    cases: (16_000, 800_000),
    case: c21_case,
    ..PROP
};

// ---------------------------------------------------------------- C16

/// A component of a path and a way of writing it in a URI.
fn component(src: &mut Src, name: &[u8]) -> String {
    let mut out = String::new();
    for &b in name {
        let plain = b.is_ascii_alphanumeric() || b"-_.~".contains(&b);
        let maybe = b"!$&'()*+,;=:@".contains(&b);
        if plain && !src.chance(1, 16) || maybe && src.bool() {
            out.push(b as char);
        } else if src.bool() {
            out.push_str(&format!("%{:02X}", b));
        } else {
            out.push_str(&format!("%{:02x}", b));
        }
    }
    out
}

const NAMES: &[&str] = &[
    "a", "b", "a b", "\u{e9}", "e\u{301}", "\u{4e16}\u{1F600}", "100%", "a%20b", "#1", "what?", "a;b", "a&b=c", "[x]",
    "{y}", "\\", "a\\b", "'q'", "\"", "a:b", "...", ".hidden", "A", "tab\there", "new\nline", "~", "a+b", "^`|", "<>",
    "\u{7f}", "\u{feff}", "@", "sources", "x.move",
];

fn file_uri(src: &mut Src) -> String {
    let mut uri = src.pick(&["file:///", "file:///", "file:///", "file://localhost/"]).to_string();
    let n = src.range(0, 3);
    for i in 0..=n {
        if src.chance(1, 8) {
            uri.push_str(src.pick(&["./", "b/../", "%2e/", "a/%2E%2e/", "../", "/"]));
        }
        let name = match src.weighted(&[8, 1]) {
            0 => src.pick(NAMES).as_bytes().to_vec(),
            _ => b"raw\xff\xc3".to_vec(),
        };
        let mut c = component(src, &name);
        // A drive letter is read as such.
        if c.len() == 2 && (c.ends_with(':') || c.ends_with('|')) {
            c.push('_');
        }
        uri.push_str(&c);
        if i < n {
            uri.push('/');
        } else {
            uri.push_str(src.pick(&[".move", "", "", ".MOVE"]));
        }
    }
    uri
}

/// The URI of a path that is nearly the same.
fn twin(src: &mut Src, uri: &str) -> String {
    let mut path = uri_path(uri).unwrap();
    if path.is_empty() {
        return uri.to_string();
    }
    let i = src.index(path.len());
    let name = &mut path[i];
    match src.below(8) {
        0 => name.push(b' '),
        1 => name.push(b'.'),
        2 => *name = name.to_ascii_uppercase(),
        3 => *name = String::from_utf8_lossy(name).into_owned().into_bytes(),
        4 => name.iter_mut().for_each(|it| *it = match *it { b'+' => b' ', b' ' => b'+', b'\\' => b'_', c => c }),
        5 => name.insert(0, b' '),
        6 => name.extend(b"%20"),
        _ => name.push(0xff),
    }
    if name.len() == 2 && (name.ends_with(b":") || name.ends_with(b"|")) {
        return uri.to_string();
    }
    let path: Vec<String> = path.iter().map(|it| component(src, it)).collect();
    format!("file:///{}", path.join("/"))
}

/// Another way of writing the same path.
fn respell(src: &mut Src, uri: &str) -> String {
    let path = uri_path(uri).unwrap();
    let mut out = src.pick(&["file://", "file://", "file://localhost"]).to_string();
    for piece in &path {
        out.push('/');
        if src.chance(1, 6) {
            out.push_str(src.pick(&["./", "z/../", "/"]));
        }
        out.push_str(&component(src, piece));
    }
    if path.is_empty() {
        out.push('/');
    }
    out
}

const OTHER_URIS: &[&str] = &[
    "untitled:Untitled-1", "git:/w/a.move?ref=HEAD", "http://example.com/a.move", "inmemory://model/1", "https://h/b.move",
    "data:text/plain,x", "untitled:/w/a.move", "FILES:///w/a.move", "file+x:///w/a.move", "vscode-notebook-cell:/w/a.move#1", "file://otherhost/w/a.move", "mailto:a@b", "zip:///w/a.zip/a.move",
];

fn c16_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut session = Session::new(src, ctx, true);
    let res = c16_check(src, ctx, &mut session);
    with_log(ctx, &mut session, res)
}

fn c16_check(src: &mut Src, ctx: &mut Ctx, session: &mut Session) -> Res {
    let mut uris: Vec<String> = Vec::new();
    for _ in 0..src.range(1, 3) {
        let uri = file_uri(src);
        ctx.class_if(uri_path(&uri).map_or(true, |it| it.is_empty()), "the root");
        if src.chance(1, 3) {
            uris.push(twin(src, &uri));
            ctx.class("paths that nearly agree");
        }
        uris.push(uri);
    }
    ctx.class_if(uris.iter().any(|it| it.contains('%')), "percent-encoded");
    ctx.class_if(uris.iter().any(|it| it.contains("..") || it.contains("/./") || it.to_lowercase().contains("%2e")), "dots");
    let mut version = 0;
    let mut texts = 0usize;
    for _ in 0..src.range(1, 8) {
        version += 1;
        // Every text has errors of its own.
        texts += 1;
        let text = format!("{}{}", "\n".repeat(texts % 7), "$ ".repeat(texts));
        if src.chance(1, 5) {
            let uri = *src.pick(OTHER_URIS);
            ctx.class("URI that is no file");
            let message = match src.below(3) {
                0 => notification("textDocument/didOpen", json!({
                    "textDocument": { "uri": uri, "languageId": "move", "version": version, "text": text }
                })),
                1 => notification("textDocument/didChange", json!({
                    "textDocument": { "uri": uri, "version": version }, "contentChanges": [{ "text": text }]
                })),
                _ => notification("textDocument/didClose", json!({ "textDocument": { "uri": uri } })),
            };
            session.send(message)?;
        } else {
            let uri = src.pick(&uris).clone();
            let open = session.client.doc(&uri).open;
            let uri = if open && src.chance(1, 3) {
                ctx.class("another spelling of the same path");
                respell(src, &uri)
            } else {
                uri
            };
            let message = match (open, src.chance(1, 6)) {
                (false, _) => session.client.open(&uri, version, text),
                (true, false) => session.client.change(&uri, version, text.clone(), vec![json!({ "text": text })]),
                (true, true) => session.client.close(&uri),
            };
            session.send(message)?;
        }
        if src.bool() {
            session.idle(src)?;
        }
    }
    session.idle(src)?;
    ctx.nontrivial(session.client.docs.values().any(|it| it.publications > 0));
    Ok(())
}

pub static C16: Prop = Prop {
    id: "C16",
    rule: "a case is a history of up to 8 notifications for up to 3 documents with generated file URIs (also respelled \
           between messages) and for documents of other schemes, each text with its own errors; non-trivial: something \
           is published",
    assumptions: &[
        "a URI denotes the path of its percent-decoded components with dots resolved",
        "no encoded slash or NUL, query, fragment or drive letter",
    ],
    cases: (16_000, 800_000),
    case: c16_case,
    ..PROP
};

// ---------------------------------------------------------------- C20

pub fn any_id(src: &mut Src) -> RequestId {
    match src.below(3) {
        0 => (src.below(6) as i32).into(),
        1 => src.pick(&["0", "1", "", "a", "\u{e9}", "9-x"]).to_string().into(),
        _ => (*src.pick(&[-1, i32::MIN, i32::MAX, 100, 4711])).into(),
    }
}

pub const METHODS: &[&str] = &[
    "textDocument/hover", "textDocument/completion", "workspace/symbol", "nope", "", "initialize", "$/whatever", "exit",
    "Shutdown", "shutdown ", "textDocument/didOpen", "rust-analyzer/analyzerStatus", "completionItem/resolve",
    "textDocument/definition", "shutdown/now",
];

pub fn any_params(src: &mut Src) -> Value {
    match src.below(8) {
        0 => Value::Null,
        1 => json!({}),
        2 => json!([]),
        3 => json!("text"),
        4 => json!(17),
        5 => json!({ "textDocument": { "uri": URIS[0] }, "position": { "line": 0, "character": 0 } }),
        6 => json!([null]),
        _ => json!({ "id": 1, "x": [true, { "y": "\u{e9}" }] }),
    }
}

/// The outcome that a request must have.
#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    Success,
    Code(i32),
}

pub fn expected_outcome(method: &str, params: &Value, down: &mut bool) -> Outcome {
    if *down {
        return Outcome::Code(-32600);
    }
    if method != "shutdown" {
        return Outcome::Code(-32601);
    }
    if !params.is_null() {
        return Outcome::Code(-32602);
    }
    *down = true;
    Outcome::Success
}

pub fn outcome(response: &Response) -> Result<Outcome, String> {
    match (&response.result, &response.error) {
        // On the wire a null result reads as none.
        (Some(Value::Null), None) | (None, None) => Ok(Outcome::Success),
        (None, Some(e)) => Ok(Outcome::Code(e.code)),
        _ => Err(format!("response with {:?} and {:?}", response.result, response.error)),
    }
}

fn c20_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut session = Session::new(src, ctx, true);
    let res = c20_check(src, ctx, &mut session);
    with_log(ctx, &mut session, res)
}

fn c20_check(src: &mut Src, ctx: &mut Ctx, session: &mut Session) -> Res {
    let mut down = false;
    let mut requests = 0;
    let mut all = Vec::new();
    let steps = if src.chance(1, 200) { 300 } else { src.range(1, 20) };
    for _ in 0..steps {
        match src.weighted(&[6, 2, 2, 1, 2]) {
            0 => {
                let id = any_id(src);
                let method = if src.chance(1, 6) { "shutdown" } else { *src.pick(METHODS) };
                let params = if method == "shutdown" && src.bool() { Value::Null } else { any_params(src) };
                let want = expected_outcome(method, &params, &mut down);
                ctx.class(match want {
                    Outcome::Success => "shutdown",
                    Outcome::Code(-32600) => "request after shutdown",
                    Outcome::Code(-32602) => "invalid parameters",
                    Outcome::Code(_) => "unknown method",
                });
                requests += 1;
                all.push((id.clone(), want));
                session.send(request(id, method, params))?;
            }
            1 => {
                // For a request that is answered, or was never made.
                let id = match src.below(3) {
                    0 => json!(src.below(6)),
                    1 => json!(src.pick(&["0", "1", "", "a"])),
                    _ => json!(-1),
                };
                ctx.class("cancellation");
                session.send(notification("$/cancelRequest", json!({ "id": id })))?;
            }
            2 => {
                let message = doc_message(src, &mut session.client, 2, true, false);
                session.send(message)?;
            }
            3 => {
                let method = *src.pick(&["$/unknown", "unknown/thing", "workspace/didChangeWatchedFiles", "hover"]);
                let params = any_params(src);
                session.send(notification(method, params))?;
            }
            _ => {
                if session.server.n_results() > 0 {
                    session.deliver(0)?;
                }
            }
        }
        judge(&session.client, &all)?;
    }
    session.idle(src)?;
    judge(&session.client, &all)?;
    if !session.client.requests.is_empty() {
        return Err("a request from the server".into());
    }
    ctx.nontrivial(requests > 0);
    ctx.count("requests", requests);
    Ok(())
}

/// Requests are answered one by one, so the answers come in their order.
fn judge(client: &Client, all: &[(RequestId, Outcome)]) -> Res {
    let mut left: Vec<&(RequestId, Outcome)> = all.iter().collect();
    for response in &client.responses {
        let got = outcome(response)?;
        match left.iter().position(|it| it.0 == response.id) {
            Some(i) if left[i].1 == got => drop(left.remove(i)),
            Some(i) => return Err(format!("request {:?}: {:?}, expected {:?}", response.id, got, left[i].1)),
            None => return Err(format!("a response for {:?} that nobody waits for: {:?}", response.id, got)),
        }
    }
    // No request of this server needs a computation: all of them are answered by now.
    match left.first() {
        Some(it) => Err(format!("request {:?} is not answered", it.0)),
        None => Ok(()),
    }
}

pub static C20: Prop = Prop {
    id: "C20",
    rule: "a case is a history of up to 20 requests (number and string ids, known and unknown methods, any parameters), \
           cancellations, document and other notifications, and deliveries of results; after every step each request so \
           far has exactly its response; non-trivial: it has a request",
    assumptions: &[
        "notification parameters are well-formed; ids may be used again once they are answered",
        "shutdown's parameters are absent or null",
    ],
    cases: (16_000, 800_000),
    case: c20_case,
    ..PROP
};
