//! C22: whole sessions, over the in-process connection and over standard input and output.
use std::io::BufReader;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::thread::JoinHandle;
use std::time::{Duration, Instant};

use crossbeam_channel::{Receiver, RecvTimeoutError, Sender};
use lsp_server::{Connection, Message, RequestId, Response};
use paths::AbsPathBuf;
use project_model::ProjectManifest;
use serde_json::{json, Map, Value};

use super::client::{edit, notification, request, Client, OFFERS};
use super::client::{doc_text, Enc};
use super::project::Scratch;
use super::server::{any_params, expected_outcome, outcome, Outcome, METHODS};
use crate::engine::{Ctx, Prop, Res, PROP};
use crate::src::Src;

/// Far above anything that a working server needs.
const PATIENCE: Duration = Duration::from_secs(40);

enum Transport {
    Memory { sender: Option<Sender<Message>>, receiver: Receiver<Message>, thread: Option<JoinHandle<Result<(), String>>> },
    Process { child: Child, sender: Option<Sender<Message>>, receiver: Receiver<Message>, writer: Option<JoinHandle<()>> },
}

impl Transport {
    fn memory(capabilities: &Value, root: &Path, folders: &[PathBuf]) -> Transport {
        let (server, client) = Connection::memory();
        let caps = serde_json::from_value(capabilities.clone()).expect("capabilities");
        let mut config = move_language_server::config::Config::new(AbsPathBuf::assert(root.to_path_buf()), caps);
        let folders: Vec<AbsPathBuf> = folders.iter().map(|it| AbsPathBuf::assert(it.clone())).collect();
        config.discovered_projects = Some(ProjectManifest::discover_all(&folders));
        let thread = std::thread::spawn(move || {
            move_language_server::main_loop(config, server).map_err(|e| e.to_string())
        });
        Transport::Memory { sender: Some(client.sender), receiver: client.receiver, thread: Some(thread) }
    }

    fn process(dir: &Path, env: &[(&str, String)]) -> Result<Transport, String> {
        let exe = match std::env::var_os("MLS") {
            Some(it) => PathBuf::from(it),
            None => std::env::current_exe().unwrap().with_file_name("mls"),
        };
        let mut child = Command::new(&exe)
            .current_dir(dir)
            .env_remove("RA_LOG_FILE")
            .env_remove("MOVE_LS_LOG")
            .env_remove("CHALK_DEBUG")
            .envs(env.iter().map(|(k, v)| (k, v)))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("{:?} does not start: {}", exe, e))?;
        let mut stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (sender, outbox) = crossbeam_channel::unbounded::<Message>();
        let writer = std::thread::spawn(move || {
            for message in outbox {
                if message.write(&mut stdin).is_err() {
                    return;
                }
            }
        });
        let (inbox, receiver) = crossbeam_channel::unbounded();
        std::thread::spawn(move || {
            let mut stdout = BufReader::new(stdout);
            while let Ok(Some(message)) = Message::read(&mut stdout) {
                if inbox.send(message).is_err() {
                    return;
                }
            }
        });
        Ok(Transport::Process { child, sender: Some(sender), receiver, writer: Some(writer) })
    }

    fn send(&self, message: Message) {
        match self {
            // A dead server is noticed when answers are missing; an ended one needs no answer from the client.
            Transport::Memory { sender, .. } | Transport::Process { sender, .. } => {
                let _ = sender.as_ref().map(|it| it.send(message));
            }
        }
    }

    fn receiver(&self) -> &Receiver<Message> {
        match self {
            Transport::Memory { receiver, .. } | Transport::Process { receiver, .. } => receiver,
        }
    }

    /// The client sends nothing more.
    fn close_input(&mut self) {
        match self {
            Transport::Memory { sender, .. } => drop(sender.take()),
            Transport::Process { sender, writer, .. } => {
                drop(sender.take());
                if let Some(it) = writer.take() {
                    let _ = it.join();
                }
            }
        }
    }

    /// Whether the server has ended without error; `None` if it does not end.
    fn wait(&mut self) -> Option<Result<(), String>> {
        let start = Instant::now();
        while start.elapsed() < PATIENCE {
            match self {
                Transport::Memory { thread, .. } => {
                    if thread.as_ref().unwrap().is_finished() {
                        return Some(match thread.take().unwrap().join() {
                            Ok(res) => res,
                            Err(_) => Err("it panicked".into()),
                        });
                    }
                }
                Transport::Process { child, .. } => {
                    if let Ok(Some(status)) = child.try_wait() {
                        return Some(if status.success() { Ok(()) } else { Err(status.to_string()) });
                    }
                }
            }
            std::thread::sleep(Duration::from_micros(300));
        }
        None
    }
}

/// Ticks of CPU time (10 ms) that a process has used; `None` once it is gone.
fn ticks(pid: u32) -> Option<u64> {
    let stat = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let fields: Vec<&str> = stat[stat.rfind(')')? + 2..].split(' ').collect();
    Some(fields.get(11)?.parse::<u64>().ok()? + fields.get(12)?.parse::<u64>().ok()?)
}

impl Transport {
    /// A server that has nothing to do does nothing: at least once in 4 s.
    fn rests(&self) -> bool {
        let pid = match self {
            Transport::Memory { .. } => return true,
            Transport::Process { child, .. } => child.id(),
        };
        for _ in 0..40 {
            let before = ticks(pid);
            std::thread::sleep(Duration::from_millis(100));
            match (before, ticks(pid)) {
                (Some(a), Some(b)) if b - a > 1 => (),
                _ => return true,
            }
        }
        false
    }
}

impl Drop for Transport {
    fn drop(&mut self) {
        if let Transport::Process { child, .. } = self {
            let _ = child.kill();
            let _ = child.wait();
        }
    }
}

/// Capabilities of a client, and what follows from them: the encoding, and whether saves are registered.
fn client_capabilities(src: &mut Src) -> (Value, Enc, bool, bool) {
    let mut caps = Map::new();
    let (offer, enc) = *src.pick(OFFERS);
    if let Some(list) = offer {
        caps.insert("offsetEncoding".into(), json!(list));
    }
    let mut register = false;
    match src.below(4) {
        0 => (),
        1 => drop(caps.insert("textDocument".into(), json!({}))),
        _ => {
            let mut sync = Map::new();
            let did_save = *src.pick(&[None, Some(false), Some(true), Some(true)]);
            let dynamic = *src.pick(&[None, Some(false), Some(true), Some(true)]);
            if let Some(it) = did_save {
                sync.insert("didSave".into(), json!(it));
            }
            if let Some(it) = dynamic {
                sync.insert("dynamicRegistration".into(), json!(it));
            }
            if src.bool() {
                sync.insert("willSave".into(), json!(src.bool()));
            }
            register = did_save == Some(true) && dynamic == Some(true);
            caps.insert("textDocument".into(), json!({ "synchronization": sync, "hover": {} }));
        }
    }
    if src.bool() {
        caps.insert("workspace".into(), json!({ "didChangeWatchedFiles": { "dynamicRegistration": src.bool() } }));
    }
    if src.chance(1, 4) {
        caps.insert("experimental".into(), any_params(src));
    }
    (Value::Object(caps), enc, register, offer.is_some())
}

const NOTIFICATIONS: &[&str] = &[
    "workspace/didChangeConfiguration", "textDocument/didSave", "workspace/didChangeWatchedFiles", "$/setTrace",
    "$/progress", "textDocument/willSave", "unknown", "workspace/didChangeWorkspaceFolders", "",
];

struct Run {
    transport: Transport,
    client: Client,
    log: Vec<String>,
    waiting: Vec<(RequestId, Outcome)>,
    register: bool,
    registered: bool,
    answered: bool,
    next_id: i32,
    down: bool,
}

impl Run {
    fn send(&mut self, message: Message) {
        self.log.push(match &message {
            Message::Notification(it) => format!("{} {}", it.method, it.params),
            Message::Request(it) => format!("request {:?} {} {}", it.id, it.method, it.params),
            Message::Response(it) => format!("response {:?} {:?} {:?}", it.id, it.result, it.error),
        });
        self.transport.send(message);
    }

    fn take(&mut self, message: Message) -> Res {
        if let Message::Notification(it) = &message {
            self.log.push(format!("  <- {} {}", it.method, it.params));
        }
        self.client.receive(message)?;
        for response in std::mem::take(&mut self.client.responses) {
            let got = outcome(&response)?;
            match self.waiting.iter().position(|it| it.0 == response.id) {
                Some(i) if self.waiting[i].1 == got => drop(self.waiting.remove(i)),
                Some(i) => {
                    return Err(format!("request {:?}: {:?}, expected {:?}", response.id, got, self.waiting[i].1))
                }
                None => return Err(format!("a response for {:?} that nobody waits for", response.id)),
            }
        }
        Ok(())
    }

    /// What has arrived so far; the model of the client is ahead of the server, so publications may be for any
    /// version since the document was opened.
    fn poll(&mut self) -> Res {
        while let Ok(message) = self.transport.receiver().try_recv() {
            self.take(message)?;
        }
        Ok(())
    }

    fn until(&mut self, what: &str, done: impl Fn(&Run) -> bool) -> Res {
        let start = Instant::now();
        loop {
            self.poll()?;
            if done(self) {
                return Ok(());
            }
            if start.elapsed() > PATIENCE {
                return Err(format!("the server does not come to: {}", what));
            }
            match self.transport.receiver().recv_timeout(Duration::from_millis(200)) {
                Ok(message) => self.take(message)?,
                Err(RecvTimeoutError::Timeout) => (),
                Err(RecvTimeoutError::Disconnected) => {
                    self.poll()?;
                    if done(self) {
                        return Ok(());
                    }
                    return Err(format!("the server is gone before: {}", what));
                }
            }
        }
    }

    fn request(&mut self, src: &mut Src, method: &str, params: Value) {
        self.next_id += 1;
        let id: RequestId = if src.bool() { self.next_id.into() } else { format!("id-{}", self.next_id).into() };
        let want = expected_outcome(method, &params, &mut self.down);
        self.waiting.push((id.clone(), want));
        self.send(request(id, method, params));
    }

    /// The one request of the server itself, which clients that can handle it get.
    fn registration(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        for it in std::mem::take(&mut self.client.requests) {
            if it.method != "client/registerCapability" {
                return Err(format!("the server requests {}", it.method));
            }
            if !self.register {
                return Err("the server registers for saves, which the client does not support".into());
            }
            let list = it.params["registrations"].as_array().cloned().unwrap_or_default();
            if !list.iter().any(|it| it["method"] == "textDocument/didSave") || self.registered {
                return Err(format!("registrations: {:?}", list));
            }
            self.registered = true;
            ctx.class("registers for saves");
            self.answered = true;
            let response = match src.below(4) {
                0 => Response::new_err(it.id, -32603, "not now".into()),
                _ => Response::new_ok(it.id, ()),
            };
            self.send(Message::Response(response));
        }
        Ok(())
    }
}

fn case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new("C22");
    let top = scratch.0.clone();
    // Workspace folders with and without a project.
    let mut folders: Vec<PathBuf> = Vec::new();
    for (i, name) in ["one", "two", "\u{e9} three"].iter().enumerate() {
        let dir = top.join(name);
        if src.chance(1, 6) {
            folders.push(dir);
            continue;
        }
        std::fs::create_dir(&dir).map_err(|e| e.to_string())?;
        match src.below(4) {
            0 => (),
            1 => std::fs::write(dir.join("Dove.toml"), b"[package]\nname = \"p\"\n").map_err(|e| e.to_string())?,
            2 => std::fs::write(dir.join("Dove.toml"), b"broken = \xff").map_err(|e| e.to_string())?,
            _ => {
                std::fs::create_dir(dir.join("sub")).map_err(|e| e.to_string())?;
                std::fs::write(dir.join("sub/Dove.toml"), b"[package]\nname = 1\n").map_err(|e| e.to_string())?;
            }
        }
        if i == 0 || src.bool() {
            folders.push(dir);
        }
    }
    let (caps, enc, register, _) = client_capabilities(src);
    let process = src.chance(1, 3);
    ctx.class(if process { "over standard input and output" } else { "in process" });
    let transport = match process {
        true => {
            let mut env = Vec::new();
            if src.bool() {
                ctx.class("with a log");
                let filter = *src.pick(&["info", "trace", "move_language_server=debug", "warn,salsa=trace", "", "=,="]);
                env.push(("MOVE_LS_LOG", filter.to_string()));
            }
            if src.chance(1, 4) {
                env.push(("RA_LOG_FILE", top.join("logs/deep/server.log").to_str().unwrap().to_string()));
            }
            if src.chance(1, 6) {
                env.push(("CHALK_DEBUG", src.pick(&["debug", "off", "TRACE", "3"]).to_string()));
            }
            Transport::process(&top, &env)?
        }
        false => Transport::memory(&caps, &top, &folders),
    };
    let mut run = Run {
        transport,
        client: Client::new(enc),
        log: vec![format!("capabilities {}", caps)],
        waiting: Vec::new(),
        register,
        registered: false,
        answered: false,
        next_id: 0,
        down: false,
    };
    let res = session(src, ctx, &mut run, process, &caps, &top, &folders);
    ctx.key(run.log.iter().filter(|it| !it.starts_with("  <-")).cloned().collect::<String>().as_bytes());
    let log = run.log.join("\n");
    ctx.show(|| log);
    res
}

fn uri_of(path: &Path) -> String {
    lsp_types::Url::from_file_path(path).unwrap().to_string()
}

fn initialize(src: &mut Src, run: &mut Run, caps: &Value, top: &Path, folders: &[PathBuf]) -> Res {
    let mut params = Map::new();
    params.insert("processId".into(), if src.bool() { json!(std::process::id()) } else { Value::Null });
    let root = match src.below(6) {
        0 => Value::Null,
        1 => json!("untitled:workspace"),
        5 => json!("vscode-vfs://github/x/y"),
        2 => json!(uri_of(&top.join("missing"))),
        _ => json!(uri_of(top)),
    };
    params.insert("rootUri".into(), root);
    params.insert("capabilities".into(), caps.clone());
    match src.below(4) {
        0 => (),
        1 => drop(params.insert("workspaceFolders".into(), Value::Null)),
        2 => {
            let uri = *src.pick(&["git:/x", "untitled:x", "http://example.com/x", "vscode-vfs://github/x/y", "file://host/x"]);
            let mut list = vec![json!({ "uri": uri, "name": "x" })];
            if src.bool() {
                list.push(json!({ "uri": uri_of(top), "name": "f" }));
            }
            params.insert("workspaceFolders".into(), if src.chance(1, 5) { json!([]) } else { json!(list) });
        }
        _ => {
            let list: Vec<Value> = folders.iter().map(|it| json!({ "uri": uri_of(it), "name": "f" })).collect();
            params.insert("workspaceFolders".into(), json!(list));
        }
    }
    if src.bool() {
        let info = match src.below(3) {
            0 => json!({ "name": "pbt" }),
            1 => json!({ "name": "", "version": null }),
            _ => json!({ "name": "pbt", "version": "\u{e9}" }),
        };
        params.insert("clientInfo".into(), info);
    }
    if src.bool() {
        params.insert("initializationOptions".into(), any_params(src));
    }
    let id: RequestId = if src.bool() { 0.into() } else { "init".to_string().into() };
    run.send(request(id.clone(), "initialize", Value::Object(params)));
    let message = match run.transport.receiver().recv_timeout(PATIENCE) {
        Ok(it) => it,
        Err(e) => return Err(format!("initialize is not answered: {}", e)),
    };
    let result = match message {
        Message::Response(Response { id: got, result: Some(result), error: None }) if got == id => result,
        it => return Err(format!("initialize is answered by {:?}", it)),
    };
    let sync = &result["capabilities"]["textDocumentSync"];
    if sync["openClose"] != true || !(sync["change"] == 1 || sync["change"] == 2) {
        return Err(format!("capabilities: {}", result));
    }
    // Nothing stated means UTF-16.
    let utf8 = result["offsetEncoding"] == "utf-8";
    let utf16 = result["offsetEncoding"].is_null() || result["offsetEncoding"] == "utf-16";
    if !(utf8 && run.client.enc == Enc::Utf8 || utf16 && run.client.enc == Enc::Utf16) {
        return Err(format!("encoding {} for {}", result["offsetEncoding"], caps));
    }
    run.send(notification("initialized", json!({})));
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn session(src: &mut Src, ctx: &mut Ctx, run: &mut Run, process: bool, caps: &Value, top: &Path, folders: &[PathBuf]) -> Res {
    if process {
        initialize(src, run, caps, top, folders)?;
    }
    let uris: Vec<String> = ["one/a.move", "one/b.move", "c.move"].iter().map(|it| uri_of(&top.join(it))).collect();
    let mut messages = 0;
    let mut version = 0;
    for _ in 0..src.upto(10) {
        messages += 1;
        match src.weighted(&[6, 3, 2, 1]) {
            0 => {
                // Versions go on, so that a publication can be told from one before the document was closed.
                version += 1;
                let uri = src.pick(&uris).clone();
                let doc = run.client.doc(&uri);
                let message = if !doc.open {
                    if !doc.texts.is_empty() {
                        // What was sent before it was closed may be under way still: wait for an answer to something
                        // behind that.
                        run.request(src, "sync", json!({}));
                        run.until("an answered request", |it| it.waiting.is_empty())?;
                    }
                    let mut text = doc_text(src, 15);
                    if src.chance(1, 30) {
                        // More than pipes hold.
                        text.insert_str(0, &"// \u{e9} filling\n".repeat(*src.pick(&[300, 5000, 12_000])));
                        ctx.class("long text");
                    }
                    run.client.open(&uri, version, text)
                } else if src.chance(1, 6) {
                    run.client.close(&uri)
                } else {
                    let mut text = doc.text.clone();
                    let enc = run.client.enc;
                    let changes = (0..src.range(1, 2)).map(|_| edit(src, &mut text, enc)).collect();
                    run.client.change(&uri, version, text, changes)
                };
                run.send(message);
            }
            1 => {
                let method = *src.pick(METHODS);
                let params = any_params(src);
                // `initialize` is sent only once.
                if method != "initialize" {
                    run.request(src, method, params);
                }
            }
            2 => {
                let method = *src.pick(NOTIFICATIONS);
                let params = any_params(src);
                run.send(notification(method, params));
            }
            _ => {
                let id = if src.bool() { json!(src.below(9)) } else { json!(format!("id-{}", src.below(9))) };
                // Only of what is not pending: a cancelled request has a different answer.
                run.until("answered requests", |it| it.waiting.is_empty())?;
                run.send(notification("$/cancelRequest", json!({ "id": id })));
            }
        }
        if src.chance(1, 3) {
            run.poll()?;
            run.registration(src, ctx)?;
        }
        if src.chance(1, 8) {
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    // It serves until exit.
    let hurry = src.chance(1, 3);
    if !hurry {
        run.until("answers to all requests", |it| it.waiting.is_empty())?;
        run.until("current diagnostics", |it| it.client.current().is_ok()).map_err(|e| {
            format!("{}: {}", e, run.client.current().err().unwrap_or_default())
        })?;
        if run.register {
            run.until("the registration for saves", |it| it.registered || !it.client.requests.is_empty())?;
        }
        run.registration(src, ctx)?;
        if process && src.chance(1, 40) {
            ctx.class("left alone");
            if !run.transport.rests() {
                return Err("with nothing left to do the server keeps a processor busy".into());
            }
        }
    }
    ctx.class_if(hurry, "ended in a hurry");
    ctx.nontrivial(messages > 0);
    let clean = !src.chance(1, 3);
    if clean {
        ctx.class("shutdown and exit");
        run.request(src, "shutdown", Value::Null);
        for _ in 0..src.upto(2) {
            run.request(src, "textDocument/hover", json!({}));
        }
        if !hurry || src.bool() {
            run.until("the answer to shutdown", |it| it.waiting.is_empty())?;
        }
        run.send(notification("exit", Value::Null));
        if src.bool() {
            run.transport.close_input();
        }
    } else {
        ctx.class("stream ended");
        if src.bool() {
            run.request(src, "shutdown", Value::Null);
        }
        run.transport.close_input();
    }
    match run.transport.wait() {
        None => return Err("the server does not end".into()),
        Some(Ok(())) if clean => (),
        Some(Err(e)) if !clean && e != "it panicked" => (),
        Some(Ok(())) => return Err("the stream ended without exit, and the server reports no error".into()),
        Some(Err(e)) => return Err(format!("the server ended with an error: {}", e)),
    }
    // Everything that it has sent.
    loop {
        match run.transport.receiver().recv_timeout(PATIENCE) {
            Ok(message) => run.take(message)?,
            Err(RecvTimeoutError::Disconnected) => break,
            Err(RecvTimeoutError::Timeout) => return Err("the server's stream does not end".into()),
        }
    }
    // A process that ends with an error need not have written everything.
    if process && !clean {
        ctx.class_if(!run.waiting.is_empty(), "an answer lost at the end of the stream");
        return Ok(());
    }
    if let Some(it) = run.waiting.first() {
        return Err(format!("request {:?} is not answered", it.0));
    }
    run.registration(src, ctx)?;
    if run.register != run.registered {
        return Err("no registration for saves, which the client supports".into());
    }
    Ok(())
}

pub static C22: Prop = Prop {
    id: "C22",
    rule: "a case is a whole session of a conforming client (generated capabilities, workspace folders on disk, up to \
           10 document, request, cancellation and other messages, then shutdown and exit or the end of the stream), a \
           third of them with the real binary over standard input and output, the others with the event loop on a \
           thread; non-trivial: at least one message between start and end",
    assumptions: &[
        "a server that has not done something within 40 s never does it",
        "parameters of the notifications that the server handles are well-formed",
    ],
    cases: (9_000, 250_000),
    case,
    case_secs: 60,
    ..PROP
};
