//! C41: where the server's log goes, and how much of it.
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use lsp_server::Message;
use serde_json::{json, Value};

use super::client::{notification, request};
use super::project::Scratch;
use crate::engine::{Ctx, Prop, Res, PROP};
use crate::src::Src;

const LEVELS: &[&str] = &["off", "error", "warn", "info", "debug", "trace"];
const TARGETS: &[&str] = &[
    "mls", "move_language_server", "move_language_server::dispatch", "move_language_server::reload", "lsp_server",
    "lsp_server::msg", "salsa", "move_language_server::main_loop", "m", "x",
];

struct Ended {
    code: Option<i32>,
    stdout: Vec<u8>,
    stderr: String,
}

/// What the client has to say, all of it at once, and then the end of the stream.
fn serve(dir: &Path, env: &[(&str, String)], input: &[u8]) -> Result<Ended, String> {
    let exe = match std::env::var_os("MLS") {
        Some(it) => PathBuf::from(it),
        None => std::env::current_exe().unwrap().with_file_name("mls"),
    };
    let mut child = Command::new(&exe)
        .current_dir(dir)
        .env_remove("RA_LOG_FILE")
        .env_remove("MOVE_LS_LOG")
        .env_remove("CHALK_DEBUG")
        .env_remove("RUST_LOG")
        .envs(env.iter().map(|(k, v)| (k, v)))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("{:?} does not start: {}", exe, e))?;
    let mut stdin = child.stdin.take().unwrap();
    let input = input.to_vec();
    let writer = std::thread::spawn(move || drop(stdin.write_all(&input)));
    fn reader(mut from: impl Read + Send + 'static) -> std::thread::JoinHandle<Vec<u8>> {
        std::thread::spawn(move || {
            let mut bytes = Vec::new();
            let _ = from.read_to_end(&mut bytes);
            bytes
        })
    }
    let stdout = reader(child.stdout.take().unwrap());
    let stderr = reader(child.stderr.take().unwrap());
    let start = Instant::now();
    let status = loop {
        if let Ok(Some(it)) = child.try_wait() {
            break it;
        }
        if start.elapsed() > Duration::from_secs(40) {
            let _ = child.kill();
            let _ = child.wait();
            return Err("the server does not end".into());
        }
        std::thread::sleep(Duration::from_micros(200));
    };
    let _ = writer.join();
    Ok(Ended {
        code: status.code(),
        stdout: stdout.join().unwrap(),
        stderr: String::from_utf8_lossy(&stderr.join().unwrap()).into_owned(),
    })
}

/// Nothing but messages; the last may be cut short when the server was interrupted by the end of the stream.
fn only_messages(mut bytes: &[u8], whole: bool) -> Result<usize, String> {
    let mut n = 0;
    let all = bytes;
    while !bytes.is_empty() {
        let before = bytes;
        let mut input = bytes;
        match Message::read(&mut input) {
            Ok(Some(_)) => n += 1,
            _ if !whole && b"Content-Length: ".iter().zip(before).all(|(a, b)| a == b) => return Ok(n),
            _ => return Err(format!("standard output: {:?}", String::from_utf8_lossy(&before[..before.len().min(200)]))),
        }
        bytes = input;
        let used = &before[..before.len() - bytes.len()];
        // The reader is lenient about headers.
        if !used.starts_with(b"Content-") {
            return Err(format!("standard output: {:?}", String::from_utf8_lossy(&all[..all.len().min(400)])));
        }
    }
    Ok(n)
}

struct Line<'a> {
    level: usize,
    target: &'a str,
    text: &'a str,
}

fn parse_line(line: &str) -> Option<Line> {
    let (head, text) = line.strip_prefix('[')?.split_once("] ")?;
    let (level, target) = head.split_once(' ')?;
    let level = LEVELS.iter().position(|it| it.to_uppercase() == level)?;
    Some(Line { level, target, text })
}

/// Directives: a level for targets that begin with a text; the longest text counts.
struct Filter(Vec<(String, usize)>);

impl Filter {
    fn admits(&self, level: usize, target: &str) -> bool {
        let best = self.0.iter().filter(|it| target.starts_with(it.0.as_str())).max_by_key(|it| it.0.len());
        best.map_or(false, |it| level <= it.1)
    }
}

fn filter(src: &mut Src) -> (Option<String>, Filter) {
    if src.chance(1, 5) {
        return (None, Filter(vec![(String::new(), 1)]));
    }
    let mut parts = Vec::new();
    let mut rules: Vec<(String, usize)> = Vec::new();
    let mut targets: Vec<&str> = TARGETS.to_vec();
    for _ in 0..src.upto(3) {
        if src.chance(1, 8) {
            parts.push(src.pick(&["=", "=info", "mls=loud", "a=b=c"]).to_string());
            continue;
        }
        let level = src.index(LEVELS.len());
        let mut name = LEVELS[level].to_string();
        if src.chance(1, 4) {
            name = name.to_uppercase();
        }
        if src.bool() && !rules.iter().any(|it| it.0.is_empty()) {
            parts.push(name);
            rules.push((String::new(), level));
        } else {
            let target = targets.remove(src.index(targets.len()));
            parts.push(format!("{}={}", target, name));
            rules.push((target.to_string(), level));
        }
    }
    if rules.is_empty() {
        rules.push((String::new(), 1));
    }
    (Some(parts.join(",")), Filter(rules))
}

/// The events that do not depend on timing.
fn steady(line: &Line) -> bool {
    match line.target {
        "mls" | "move_language_server::dispatch" | "move_language_server::reload" => true,
        "lsp_server::msg" => line.text.starts_with('<'),
        "move_language_server::main_loop" => line.level == 1,
        _ => false,
    }
}

fn put(messages: &mut Vec<Message>, it: Message) {
    messages.push(it);
}

fn c41_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new("C41");
    let top = scratch.0.clone();
    let uri = |name: &str| format!("file://{}/{}", top.display(), name);
    // The session, and the words that have to be in some line of an error.
    let mut messages: Vec<Message> = Vec::new();
    let mut wanted: Vec<String> = Vec::new();
    let mut unwanted: Vec<String> = Vec::new();
    let project = src.bool();
    if project {
        std::fs::write(top.join("Dove.toml"), b"[package]\n").map_err(|e| e.to_string())?;
    }
    let begun = !src.chance(1, 10);
    if begun {
        let mut params = json!({ "capabilities": {}, "rootUri": uri(""), "processId": null });
        if src.bool() {
            params["clientInfo"] = json!({ "name": "client \u{e9}", "version": src.pick(&[json!("1.0"), Value::Null]) });
        }
        put(&mut messages, request(1.into(), "initialize", params));
        put(&mut messages, notification("initialized", json!({})));
        for i in 0..src.upto(6) {
            let name = format!("event{}", i);
            let doc = json!({ "uri": uri(&name), "languageId": "move", "version": 1, "text": "module M {" });
            let id = json!({ "uri": uri(&name), "version": 2 });
            match src.below(9) {
                0 | 1 => {
                    let params = json!({ "s": "x".repeat(*src.pick(&[0, 1, 9, 5000])) });
                    put(&mut messages, request((i as i32 + 10).into(), &name, params));
                    wanted.push(name);
                }
                2 => {
                    put(&mut messages, notification("textDocument/didOpen", json!({ "textDocument": doc })));
                    if src.bool() {
                        let params = json!({ "textDocument": id, "contentChanges": [{ "text": "" }] });
                        put(&mut messages, notification("textDocument/didChange", params));
                        put(&mut messages, notification("textDocument/didClose", json!({ "textDocument": id })));
                    }
                    unwanted.push(name);
                }
                6 => {
                    let method = src.pick(&["", "textDocument/", "x/$/"]).to_string() + &name;
                    put(&mut messages, notification(&method, src.pick(&[Value::Null, json!({}), json!([1])]).clone()));
                    wanted.push(name);
                }
                7 => {
                    // To be ignored by servers that do not know them.
                    put(&mut messages, notification(&format!("$/{}", name), json!({})));
                    unwanted.push(name);
                }
                3 => {
                    for _ in 0..2 {
                        put(&mut messages, notification("textDocument/didOpen", json!({ "textDocument": doc })));
                    }
                    wanted.push(name);
                }
                8 => {
                    let (method, key) =
                        *src.pick(&[("window/workDoneProgress/cancel", "token"), ("$/cancelRequest", "id")]);
                    put(&mut messages, notification(method, json!({ key: name })));
                    unwanted.push(name);
                    unwanted.push(method.to_string());
                }
                4 => {
                    let params = json!({ "textDocument": id, "contentChanges": [{ "text": "" }] });
                    put(&mut messages, notification("textDocument/didChange", params));
                    wanted.push(name);
                }
                _ => {
                    let params = json!({ "textDocument": { "uri": uri(&name) } });
                    put(&mut messages, notification("textDocument/didClose", params));
                    wanted.push(name);
                }
            }
        }
    }
    let clean = begun && !src.chance(1, 3);
    if clean {
        put(&mut messages, request("end".to_string().into(), "shutdown", Value::Null));
        put(&mut messages, notification("exit", Value::Null));
    }
    let mut input = Vec::new();
    for it in messages {
        it.write(&mut input).map_err(|e| e.to_string())?;
    }
    // The environment.
    let (directives, filter) = filter(src);
    let mut env: Vec<(&str, String)> = Vec::new();
    if let Some(it) = &directives {
        env.push(("MOVE_LS_LOG", it.clone()));
    }
    let chalk = src.chance(1, 6);
    if chalk {
        env.push(("CHALK_DEBUG", src.pick(&["debug", "off", "TRACE"]).to_string()));
    }
    let name = *src.pick(&["server.log", "logs/server.log", "logs/of/the server", "\u{e9}/\u{4e16}.log"]);
    // 0: standard error, 1: a new file, 2: one that is there already, 3: a place where no file can be.
    let place = src.weighted(&[4, 4, 2, 1]);
    let mut file = top.join(name);
    if place > 0 {
        let relative = src.bool();
        if place > 1 {
            std::fs::create_dir_all(file.parent().unwrap()).map_err(|e| e.to_string())?;
        }
        match place {
            2 => {
                let old = "[ERROR mls] of an earlier run\n".repeat(*src.pick(&[1, 3, 400]));
                std::fs::write(&file, old).map_err(|e| e.to_string())?;
            }
            3 if src.bool() => {
                std::fs::write(&file, b"a file").map_err(|e| e.to_string())?;
                file = file.join("x.log");
            }
            3 => std::fs::create_dir(&file).map_err(|e| e.to_string())?,
            _ => (),
        }
        let text = match relative {
            true => file.strip_prefix(&top).unwrap().to_path_buf(),
            false => file.clone(),
        };
        env.push(("RA_LOG_FILE", text.to_str().unwrap().to_string()));
    }
    ctx.show(|| format!("env {:?}, place {}\n{}", env, place, String::from_utf8_lossy(&input)));
    ctx.key(format!("{:?}", env.iter().map(|it| it.1.replace(top.to_str().unwrap(), "")).collect::<Vec<_>>()).as_bytes());
    ctx.key(String::from_utf8_lossy(&input).replace(top.to_str().unwrap(), "").as_bytes());
    ctx.nontrivial(directives.is_some() && begun && place < 3);
    ctx.class(["log to standard error", "log to a new file", "log to an old file", "no log file possible"][place]);
    ctx.class_if(!clean, "ends with an error");
    ctx.class_if(chalk, "two layers");
    let ended = serve(&top, &env, &input)?;
    let n = only_messages(&ended.stdout, clean)?;
    if place == 3 {
        if ended.code == Some(0) || n != 0 || ended.stderr.trim().is_empty() {
            return Err(format!("no log file can be made, but: exit {:?}, {} messages, {:?}", ended.code, n, ended.stderr));
        }
        return Ok(());
    }
    if (ended.code == Some(0)) != clean {
        return Err(format!("exit {:?}, clean: {}, {:?}", ended.code, clean, ended.stderr));
    }
    // The log, and what else is on standard error.
    let log = match place {
        0 => ended.stderr.clone(),
        _ => std::fs::read_to_string(&file).map_err(|e| format!("log file: {}", e))?,
    };
    let (mut other, mut continued, mut lines) = (Vec::new(), Vec::new(), Vec::new());
    let mut inside = false;
    for line in log.split_terminator('\n') {
        match parse_line(line) {
            Some(it) => {
                inside = it.target.starts_with("salsa");
                lines.push(it);
            }
            // The database's events have several lines.
            None if inside => continued.push(line),
            None => other.push(line),
        }
    }
    if place > 0 {
        if !other.is_empty() || !(log.is_empty() || log.ends_with('\n')) {
            return Err(format!("log file: {:?}", log));
        }
        other = ended.stderr.lines().collect();
        continued.clear();
        if let Some(it) = other.iter().find(|it| parse_line(it).is_some()) {
            return Err(format!("there is a log file, but on standard error: {:?}", it));
        }
    }
    if !clean && other.iter().chain(&continued).all(|it| it.starts_with("ignoring ") || it.trim().is_empty()) {
        return Err("the error that ends the server is not on standard error".into());
    }
    if clean && !chalk && other.iter().any(|it| !it.starts_with("ignoring ")) {
        return Err(format!("on standard error: {:?}", other));
    }
    if let Some(it) = lines.iter().find(|it| !filter.admits(it.level, it.target)) {
        return Err(format!("logged in spite of {:?}: {} {} {}", directives, LEVELS[it.level], it.target, it.text));
    }
    // Everything, from a second run.
    let all = top.join("everything");
    let ended = serve(&top, &[("MOVE_LS_LOG", "trace".into()), ("RA_LOG_FILE", all.to_str().unwrap().into())], &input)?;
    only_messages(&ended.stdout, clean)?;
    let all = std::fs::read_to_string(&all).map_err(|e| format!("log file: {}", e))?;
    let everything: Vec<Line> = all.lines().filter_map(parse_line).collect();
    let text = |it: &Line| format!("{} {} {}", LEVELS[it.level], it.target, it.text);
    let mut want: Vec<String> =
        everything.iter().filter(|it| steady(it) && filter.admits(it.level, it.target)).map(text).collect();
    let mut got: Vec<String> = lines.iter().filter(|it| steady(it)).map(text).collect();
    want.sort();
    got.sort();
    if got != want {
        let missing: Vec<_> = want.iter().filter(|it| !got.contains(it)).collect();
        let extra: Vec<_> = got.iter().filter(|it| !want.contains(it)).collect();
        return Err(format!("log with {:?}: {:?} missing, {:?} too much", directives, missing, extra));
    }
    ctx.class_if(!got.is_empty(), "something is logged");
    // What has to be in a log of everything.
    for word in &wanted {
        let n = everything.iter().filter(|it| it.level == 1 && it.text.contains(word.as_str())).count();
        if n != 1 {
            return Err(format!("{} errors in the log for {:?}", n, word));
        }
    }
    for word in &unwanted {
        if let Some(it) = everything.iter().find(|it| it.level == 1 && it.text.contains(word.as_str())) {
            return Err(format!("an error in the log for {:?}: {}", word, it.text));
        }
    }
    if begun && !everything.iter().any(|it| it.level == 1 && it.target == "mls") && !(clean && project) {
        return Err("neither a missing project nor the error that ended the server is in the log".into());
    }
    if begun && !everything.iter().any(|it| it.level == 3 && it.target == "mls") {
        return Err("the start of the server is not in the log".into());
    }
    Ok(())
}

pub static C41: Prop = Prop {
    id: "C41",
    rule: "a case is a setting of the logging variables (directives, some of them invalid; no log file, a new one, an old \
           one, one that cannot be made) and a session with requests of unknown methods and documents opened twice or \
           changed or closed while not open, and notifications it does not know, run with that setting and again with everything logged; non-trivial: \
           directives are given and the server is initialized",
    assumptions: &[
        "a server that has not ended 40 s after its input never does",
        "events that depend on timing (the database's, publications) are only held to what the directives admit",
    ],
    cases: (2_500, 60_000),
    case: c41_case,
    case_secs: 100,
    ..PROP
};
