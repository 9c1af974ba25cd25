//! C27 (output of child processes), C28 (fixture markup), C31 (general helpers).
use std::cell::{Cell, RefCell};
use std::os::unix::process::ExitStatusExt;
use std::process::Command;

use test_utils::{
    add_cursor, extract_annotations, extract_offset, extract_range, extract_range_or_offset, extract_tags,
    RangeOrOffset,
};

use crate::engine::{no_panic, Ctx, Prop, Res, PROP};
use crate::gen;
use crate::src::{mix, Src};

// ---------------------------------------------------------------- C27

/// What the child does; it gets the list as its argument.
#[derive(Clone, Debug)]
enum Op {
    /// Bytes for standard output (true) or standard error.
    Write(bool, Vec<u8>),
    /// So many bytes with lines of the given length.
    Fill(bool, usize, usize, u8),
    Sleep(u64),
    Close(bool),
    /// Reads standard input to its end.
    ReadInput,
    /// Waits until the callback has had all the lines so far (from the given pipe).
    Await(i32),
    /// Interrupts the given thread of its parent, after a pause in which that has nothing to do.
    Interrupt(i64),
    Exit(i32),
    Kill,
}

fn fill(len: usize, line: usize, salt: u8) -> Vec<u8> {
    (0..len)
        .map(|i| if line > 0 && i % line == line - 1 { b'\n' } else { b'a' + ((i / 7) as u8).wrapping_add(salt) % 26 })
        .collect()
}

fn encode(ops: &[Op]) -> String {
    let side = |out: bool| if out { 'o' } else { 'e' };
    let ops: Vec<String> = ops
        .iter()
        .map(|op| match op {
            Op::Write(out, bytes) => {
                let hex: String = bytes.iter().map(|it| format!("{:02x}", it)).collect();
                format!("w{}{}", side(*out), hex)
            }
            Op::Fill(out, len, line, salt) => format!("f{}{}.{}.{}", side(*out), len, line, salt),
            Op::Sleep(us) => format!("s{}", us),
            Op::Close(out) => format!("c{}", side(*out)),
            Op::ReadInput => "i".to_string(),
            Op::Await(fd) => format!("a{}", fd),
            Op::Interrupt(tid) => format!("g{}", tid),
            Op::Exit(code) => format!("x{}", code),
            Op::Kill => "k".to_string(),
        })
        .collect();
    ops.join(",")
}

/// The child.
pub fn emit(script: &str) -> ! {
    fn write(fd: i32, mut bytes: &[u8]) {
        while !bytes.is_empty() {
            let n = unsafe { libc::write(fd, bytes.as_ptr() as *const libc::c_void, bytes.len()) };
            if n < 0 {
                unsafe { libc::_exit(99) }
            }
            bytes = &bytes[n as usize..];
        }
    }
    for op in script.split(',').filter(|it| !it.is_empty()) {
        let fd = if op.as_bytes().get(1) == Some(&b'o') { 1 } else { 2 };
        match op.as_bytes()[0] {
            b'w' => {
                let hex = &op[2..];
                let bytes: Vec<u8> =
                    (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
                write(fd, &bytes);
            }
            b'f' => {
                let n: Vec<usize> = op[2..].split('.').map(|it| it.parse().unwrap()).collect();
                write(fd, &fill(n[0], n[1], n[2] as u8));
            }
            b's' => std::thread::sleep(std::time::Duration::from_micros(op[1..].parse().unwrap())),
            b'c' => unsafe {
                libc::close(fd);
            },
            b'i' => {
                let mut buf = [0u8; 64];
                while unsafe { libc::read(0, buf.as_mut_ptr() as *mut libc::c_void, 64) } > 0 {}
            }
            b'a' => {
                let fd: i32 = op[1..].parse().unwrap();
                let mut poll = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
                let mut byte = 0u8;
                unsafe {
                    if libc::poll(&mut poll, 1, 6000) != 1 || libc::read(fd, &mut byte as *mut u8 as *mut libc::c_void, 1) != 1 {
                        libc::_exit(98)
                    }
                }
            }
            b'g' => {
                let tid: i64 = op[1..].parse().unwrap();
                std::thread::sleep(std::time::Duration::from_micros(200));
                unsafe {
                    libc::syscall(libc::SYS_tgkill, libc::getppid(), tid, libc::SIGUSR1);
                }
            }
            b'x' => unsafe { libc::_exit(op[1..].parse().unwrap()) },
            b'k' => unsafe {
                libc::kill(libc::getpid(), libc::SIGKILL);
            },
            _ => unreachable!(),
        }
    }
    unsafe { libc::_exit(0) }
}

const SIZES: &[usize] = &[0, 1, 2, 4095, 4096, 4097, 8192, 65_535, 65_536, 65_537, 131_072, 200_000];

fn small_bytes(src: &mut Src) -> Vec<u8> {
    let mut res = Vec::new();
    for _ in 0..src.range(1, 5) {
        let piece: &[u8] = match src.below(9) {
            0 => b"\n",
            1 => b"line",
            2 => b"\r\n",
            3 => b"\xff",
            4 => "\u{e9}".as_bytes(),
            5 => &"\u{4e16}".as_bytes()[..1 + src.index(2)],
            6 => b"\r",
            7 => b"a\nb",
            _ => b" ",
        };
        res.extend_from_slice(piece);
    }
    res
}

/// The process's own standard input becomes one that never ends: a child must not get it.
fn endless_input() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
        libc::dup2(fds[0], 0);
        // A signal that only interrupts.
        extern "C" fn nothing(_: i32) {}
        let mut action: libc::sigaction = std::mem::zeroed();
        action.sa_sigaction = nothing as extern "C" fn(i32) as usize;
        assert_eq!(libc::sigaction(libc::SIGUSR1, &action, std::ptr::null_mut()), 0);
    });
}

/// A pipe whose reading end the child inherits.
struct Acks([i32; 2]);

impl Acks {
    fn new() -> Acks {
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
            libc::fcntl(fds[0], libc::F_SETFD, 0);
        }
        Acks(fds)
    }
    fn send(&self) {
        unsafe { libc::write(self.0[1], b"a".as_ptr() as *const libc::c_void, 1) };
    }
}

impl Drop for Acks {
    fn drop(&mut self) {
        unsafe {
            libc::close(self.0[0]);
            libc::close(self.0[1]);
        }
    }
}

fn c27_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    endless_input();
    let acks = Acks::new();
    // The stream and the number of lines after which the child goes on.
    let mut awaits: Vec<(bool, usize)> = Vec::new();
    let mut ops: Vec<Op> = Vec::new();
    let mut open = [true, true];
    let mut big = 0;
    let tid = unsafe { libc::syscall(libc::SYS_gettid) };
    for _ in 0..src.range(1, 9) {
        let out = !src.bool();
        match src.weighted(&[6, 4, 2, 1, 1, 3, 1]) {
            6 => ops.push(Op::Interrupt(tid)),
            0 if open[out as usize] => {
                let bytes = small_bytes(src);
                if src.bool() || bytes.len() < 2 {
                    ops.push(Op::Write(out, bytes));
                } else {
                    // In two writes, with a pause, so that they arrive one by one.
                    let at = src.range(1, bytes.len() - 1);
                    ops.push(Op::Write(out, bytes[..at].to_vec()));
                    ops.push(Op::Sleep(300));
                    ops.push(Op::Write(out, bytes[at..].to_vec()));
                }
            }
            1 if open[out as usize] && big < 3 => {
                big += 1;
                let line = *src.pick(&[0, 80, 1, 5000, 70_000]);
                ops.push(Op::Fill(out, *src.pick(SIZES), line, src.below(26) as u8));
            }
            2 => ops.push(Op::Sleep(*src.pick(&[100, 300, 1000, 3000]))),
            3 if open[out as usize] => {
                open[out as usize] = false;
                ops.push(Op::Close(out));
            }
            4 => ops.push(Op::ReadInput),
            5 if open[out as usize] && awaits.len() < 4 => {
                // Mostly after a block.
                if src.bool() && big < 3 {
                    big += 1;
                    ops.push(Op::Fill(out, *src.pick(SIZES), *src.pick(&[0, 80, 1, 5000, 70_000]), src.below(26) as u8));
                }
                ops.push(Op::Write(out, b"x\n".to_vec()));
                awaits.push((out, ops.len()));
                ops.push(Op::Await(acks.0[0]));
            }
            _ => (),
        }
    }
    let mut code = Some(0);
    match src.weighted(&[4, 2, 1]) {
        1 => {
            let c = *src.pick(&[1, 2, 101, 255]);
            code = Some(c);
            ops.push(Op::Exit(c));
        }
        2 => {
            code = None;
            ops.push(Op::Kill);
        }
        _ => (),
    }
    let mut expected = [Vec::new(), Vec::new()];
    let mut waiting: Vec<(bool, usize)> = Vec::new();
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Await(_) => {
                let out = awaits.iter().find(|it| it.1 == i).unwrap().0;
                waiting.push((out, String::from_utf8_lossy(&expected[out as usize]).lines().count()));
            }
            Op::Write(out, bytes) => expected[*out as usize].extend_from_slice(bytes),
            Op::Fill(out, len, line, salt) => expected[*out as usize].extend(fill(*len, *line, *salt)),
            _ => (),
        }
    }
    let script = encode(&ops);
    ctx.show(|| script.clone());
    // Without what differs from run to run.
    let plain = ops.iter().map(|it| match it {
        Op::Await(_) => Op::Await(0),
        Op::Interrupt(_) => Op::Interrupt(0),
        it => it.clone(),
    });
    ctx.key(encode(&plain.collect::<Vec<_>>()).as_bytes());
    ctx.class_if(ops.iter().any(|it| matches!(it, Op::Interrupt(_))), "signal while waiting for output");
    ctx.class_if(!waiting.is_empty(), "child waits for its lines to arrive");
    ctx.nontrivial(!expected[0].is_empty() || !expected[1].is_empty());
    ctx.class_if(expected.iter().all(|it| it.len() > 65_536), "both above pipe capacity");
    ctx.class_if(expected.iter().any(|it| it.len() > 65_536), "one above pipe capacity");
    ctx.class_if(expected.iter().any(|it| !it.is_empty() && it.last() != Some(&b'\n')), "unterminated last line");
    ctx.class_if(ops.iter().any(|it| matches!(it, Op::Close(_))), "stream closed early");
    ctx.class_if(code.is_none(), "killed by a signal");
    ctx.class_if(expected.iter().any(|it| std::str::from_utf8(it).is_err()), "invalid UTF-8");

    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("--emit").arg(&script);
    let lines = RefCell::new([Vec::new(), Vec::new()]);
    let acked = Cell::new(0);
    let slow = Cell::new(if src.chance(1, 8) { 3 } else { 0 });
    let on = |out: usize, line: &str| {
        if slow.get() > 0 {
            slow.set(slow.get() - 1);
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        let mut lines = lines.borrow_mut();
        lines[out].push(line.to_string());
        while waiting.get(acked.get()).map_or(false, |it| lines[it.0 as usize].len() >= it.1) {
            acked.set(acked.get() + 1);
            acks.send();
        }
    };
    let output = no_panic("streaming_output", || {
        stdx::process::streaming_output(cmd, &mut |l| on(1, l), &mut |l| on(0, l))
    })?
    .map_err(|e| format!("streaming_output: {}", e))?;
    if output.status.code() == Some(98) {
        return Err("lines that are complete are not passed on while the process runs".into());
    }
    if output.status.code() != code || (code.is_none() && output.status.signal() != Some(libc::SIGKILL)) {
        return Err(format!("exit status {:?}, expected {:?}", output.status, code));
    }
    let lines = lines.into_inner();
    for (i, name, got) in [(1, "stdout", &output.stdout), (0, "stderr", &output.stderr)] {
        if *got != expected[i] {
            return Err(format!(
                "{}: {} bytes captured, {} written, first difference at {:?}",
                name,
                got.len(),
                expected[i].len(),
                got.iter().zip(&expected[i]).position(|(a, b)| a != b)
            ));
        }
        let text = String::from_utf8_lossy(&expected[i]).into_owned();
        let want: Vec<&str> = text.lines().collect();
        if lines[i] != want {
            let at = lines[i].iter().zip(&want).position(|(a, b)| a != b);
            return Err(format!("{}: {} lines streamed, {} written, first difference at {:?}", name, lines[i].len(), want.len(), at));
        }
    }
    Ok(())
}

/// A program that cannot be started is an error.
fn c27_fixed(_: u64, ctx: &mut Ctx) -> Res {
    ctx.show(|| "a program that does not exist".into());
    let cmd = Command::new("/nonexistent/program");
    match no_panic("streaming_output", || stdx::process::streaming_output(cmd, &mut |_| (), &mut |_| ()))? {
        Err(_) => Ok(()),
        Ok(_) => Err("started a program that does not exist".into()),
    }
}

pub static C27: Prop = Prop {
    id: "C27",
    rule: "a case is a script run by a real child process: writes of small pieces (split inside lines, CRLF and \
           UTF-8 sequences) and of blocks around and above the pipe capacity to the two streams in any order, \
           pauses, streams closed early, signals that interrupt the waiting parent, exit codes and a fatal signal; non-trivial: it writes something",
    assumptions: &["64 KiB pipes as on Linux", "lines as those of the lossily decoded stream"],
    cases: (6_000, 400_000),
    case: c27_case,
    fixed: Some((|_| 1, c27_fixed)),
    case_secs: 10,
    ..PROP
};

// ---------------------------------------------------------------- C28

fn boundary(src: &mut Src, text: &str) -> usize {
    let mut at = src.upto(text.len());
    while !text.is_char_boundary(at) {
        at -= 1;
    }
    at
}

fn markup_text(src: &mut Src) -> String {
    let mut text = String::new();
    for _ in 0..src.upto(10) {
        match src.below(5) {
            0 => text.push_str(src.pick(&["$", "0", "<", ">", "/", "<t", "</", "ta", "tag>", "$ 0", "\\", "a>", "<<"])),
            1 => text.push(*src.pick(&['\u{e9}', '\u{4e16}', '\u{1F600}', '\n', '\t'])),
            _ => text.push_str(src.pick(&["let x", " = ", "1", "f(a)", ";\n", "module ", "{", "}"])),
        }
    }
    text
}

/// Now and then, some 200 to 140 000 bytes without markup.
fn padding(src: &mut Src) -> String {
    if !src.chance(1, 400) {
        return String::new();
    }
    let len = *src.pick(&[200usize, 255, 256, 4096, 65_535, 65_536, 70_000, 140_000]);
    let mut res = String::with_capacity(len);
    while res.len() < len {
        res.push_str(["padding \u{e9}", "p", "\n", "    x"][res.len() % 4]);
    }
    res
}

fn marks(src: &mut Src, ctx: &mut Ctx) -> Res {
    let text = padding(src) + &markup_text(src).replace("$0", "");
    ctx.class_if(text.len() > 65_536, "long text");
    if text.contains("$0") {
        return Ok(());
    }
    let (mut a, mut b) = if text.len() > 1000 && src.bool() {
        // Near its end.
        let near = |src: &mut Src| (text.len() - src.upto(3)..=text.len()).find(|it| text.is_char_boundary(*it)).unwrap();
        (near(src), near(src))
    } else {
        (boundary(src, &text), boundary(src, &text))
    };
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    ctx.show(|| format!("cursors at {} and {} in {:?}", a, b, text));
    ctx.key(format!("{}-{}-{}", a, b, text).as_bytes());
    ctx.nontrivial(!text.is_empty());
    ctx.class("cursor markers");
    let one = format!("{}$0{}", &text[..a], &text[a..]);
    let added = no_panic("add_cursor", || add_cursor(&text, (a as u32).into()))?;
    if added != one {
        return Err(format!("add_cursor: {:?}, expected {:?}", added, one));
    }
    let (offset, rest) = no_panic("extract_offset", || extract_offset(&one))?;
    if usize::from(offset) != a || rest != text {
        return Err(format!("extract_offset of {:?}: {:?} {:?}", one, offset, rest));
    }
    let two = format!("{}$0{}$0{}", &text[..a], &text[a..b], &text[b..]);
    let (range, rest) = no_panic("extract_range", || extract_range(&two))?;
    if usize::from(range.start()) != a || usize::from(range.end()) != b || rest != text {
        return Err(format!("extract_range of {:?}: {:?} {:?}", two, range, rest));
    }
    match no_panic("extract_range_or_offset", || extract_range_or_offset(&one))? {
        (RangeOrOffset::Offset(it), rest) if usize::from(it) == a && rest == text => (),
        _ => return Err(format!("extract_range_or_offset of {:?}", one)),
    }
    match no_panic("extract_range_or_offset", || extract_range_or_offset(&two))? {
        (RangeOrOffset::Range(it), rest) if it == range && rest == text => (),
        _ => return Err(format!("extract_range_or_offset of {:?}", two)),
    }
    if no_panic("", || extract_offset(&text)).is_ok() || no_panic("", || extract_range(&one)).is_ok() {
        return Err(format!("a marker was found in {:?} that is not there", text));
    }
    Ok(())
}

fn tag_tree(src: &mut Src, tag: &str, depth: usize, marked: &mut String, plain: &mut String, out: &mut Vec<(usize, usize, Option<String>)>) {
    for _ in 0..src.upto(3) {
        let text = markup_text(src);
        marked.push_str(&text);
        plain.push_str(&text);
        if depth > 0 && src.bool() {
            let attr = match src.below(4) {
                0 => Some(src.pick(&["fn", "a b", "x=\"<\"", "\u{e9}", "/"]).to_string()),
                _ => None,
            };
            match &attr {
                Some(attr) => marked.push_str(&format!("<{} {}>", tag, attr)),
                None => marked.push_str(src.pick(&[format!("<{}>", tag), format!("<{} >", tag)])),
            }
            let from = plain.len();
            tag_tree(src, tag, depth - 1, marked, plain, out);
            marked.push_str(&format!("</{}>", tag));
            out.push((from, plain.len(), attr));
        }
    }
}

fn tags(src: &mut Src, ctx: &mut Ctx) -> Res {
    let tag = *src.pick(&["tag", "t", "selection"]);
    let mut plain = padding(src);
    let (mut marked, mut expected) = (plain.clone(), Vec::new());
    tag_tree(src, tag, 3, &mut marked, &mut plain, &mut expected);
    // The text around the tags must not contain any.
    let count = |text: &str| text.matches(&format!("<{}", tag)).count() + text.matches(&format!("</{}>", tag)).count();
    if count(&plain) != 0 || count(&marked) != 2 * expected.len() {
        return Ok(());
    }
    ctx.show(|| format!("tag {:?} in {:?}", tag, marked));
    ctx.key(marked.as_bytes());
    ctx.nontrivial(!expected.is_empty());
    ctx.class("tags");
    let (got, text) = no_panic("extract_tags", || extract_tags(&marked, tag))?;
    if text != plain {
        return Err(format!("text is {:?}, expected {:?}", text, plain));
    }
    let mut got: Vec<_> = got.into_iter().map(|(r, a)| (usize::from(r.start()), usize::from(r.end()), a)).collect();
    if got.windows(2).any(|w| (w[0].0, w[0].1) > (w[1].0, w[1].1)) {
        return Err(format!("not sorted: {:?}", got));
    }
    got.sort();
    expected.sort();
    if got != expected {
        return Err(format!("tags {:?}, expected {:?}", got, expected));
    }
    Ok(())
}

const CONTENTS: &[&str] = &["def", "error: x", "", "a b", "'st'", "| x", "// y", "1", "type:", "file", "file x", "files"];

fn annotations(src: &mut Src, ctx: &mut Ctx) -> Res {
    // (columns that belong to the line, start of the line)
    let mut lines: Vec<(usize, usize)> = Vec::new();
    let mut text = String::new();
    let mut expected: Vec<(Option<(usize, usize)>, String)> = Vec::new();
    if src.chance(1, 400) {
        for i in 0..*src.pick(&[100, 300, 9000]) {
            lines.push((i % 13, text.len()));
            text.push_str(&"x".repeat(i % 13));
            text.push('\n');
        }
        if src.bool() {
            let long = *src.pick(&[255, 256, 300, 66_000]);
            lines.push((long, text.len()));
            text.push_str(&"y".repeat(long));
            text.push('\n');
        }
    }
    for _ in 0..src.range(1, 8) {
        let start = text.len();
        if lines.is_empty() || src.bool() {
            let code: String = (0..src.upto(6)).map(|_| *src.pick(&["let x", " ", "    ", "= 1;", "f(a)", "/", "{ }"])).collect();
            let code = code.replace("//", "/ ");
            let code = code.trim_end_matches('/').to_string();
            text.push_str(&code);
            if src.chance(1, 6) {
                // An ordinary comment.
                text.push_str("// comment");
            }
            text.push('\n');
            lines.push((code.len(), start));
            continue;
        }
        // A line of annotations.
        let indent = src.upto(12);
        let mut line = " ".repeat(indent) + "//";
        if src.chance(1, 10) {
            line.push_str(" ^file");
            let content = *src.pick(CONTENTS);
            line.push_str(&format!(" {}", content));
            expected.push((None, content.trim().to_string()));
            text.push_str(&line);
            text.push('\n');
            lines.push((indent, start));
            continue;
        }
        let first = expected.len();
        let mut ends = Vec::new();
        for _ in 0..src.range(1, 3) {
            let far = lines.iter().any(|it| it.0 > 250) && src.chance(1, 3);
            let gap = if far { src.pick(&[248usize, 250, 65_528]) + src.upto(8) } else { src.upto(6) };
            let len = src.range(1, 6);
            let (from, to) = (line.len() + gap, line.len() + gap + len);
            // The last line that is long enough; where its line end decides, leave it.
            let last = lines.iter().rposition(|it| it.0 >= to);
            let with_end = lines.iter().rposition(|it| it.0 + 1 >= to);
            let target = match last {
                Some(i) if Some(i) == with_end => lines[i].1,
                _ => break,
            };
            line.push_str(&" ".repeat(gap));
            line.push_str(&"^".repeat(len));
            let content = *src.pick(CONTENTS);
            if content.starts_with("file") || src.bool() {
                line.push(' ');
            }
            line.push_str(&format!("{} ", content));
            expected.push((Some((target + from, target + to)), content.trim().to_string()));
            ends.push((to, expected.len() - 1));
        }
        if expected.len() == first {
            continue;
        }
        if src.bool() {
            line = line.trim_end().to_string();
        }
        text.push_str(&line);
        text.push('\n');
        lines.push((indent, start));
        if src.chance(1, 3) {
            let (end, which) = *src.pick(&ends);
            let indent = src.upto(end - 3);
            let cont = *src.pick(&["i32", "", "a b", "file"]);
            lines.push((indent, text.len()));
            text.push_str(&format!("{}//{}| {}\n", " ".repeat(indent), " ".repeat(end - 1 - indent - 2), cont));
            expected[which].1.push_str(&format!("\n{}\n", cont));
        }
    }
    if src.chance(1, 6) {
        text.pop();
    }
    ctx.show(|| text.clone());
    ctx.key(text.as_bytes());
    ctx.nontrivial(!expected.is_empty());
    ctx.class("annotations");
    ctx.class_if(expected.len() > 1, "several annotations");
    let got = no_panic("extract_annotations", || extract_annotations(&text))?;
    let got: Vec<_> =
        got.into_iter().map(|(r, c)| (usize::from(r.start()), usize::from(r.end()), c)).collect();
    let expected: Vec<_> = expected
        .into_iter()
        .map(|(r, c)| {
            let (a, b) = r.unwrap_or((0, text.len()));
            (a, b, c)
        })
        .collect();
    if got != expected {
        return Err(format!("annotations {:?}, expected {:?}", got, expected));
    }
    Ok(())
}

fn indents(src: &mut Src, ctx: &mut Ctx) -> Res {
    let base = if src.chance(1, 50) { *src.pick(&[63, 64, 127, 128, 255, 256, 300]) } else { src.upto(9) };
    let mut text = String::new();
    if src.bool() {
        text.push('\n');
    }
    let n = if src.chance(1, 1000) { *src.pick(&[100, 300, 9000]) } else { src.upto(6) };
    for _ in 0..n {
        match src.weighted(&[5, 2]) {
            0 => {
                let extra = if src.chance(1, 6) { src.upto(base) } else { base + src.upto(5) };
                text.push_str(&" ".repeat(extra));
                text.push_str(src.pick(&["fn", "}", "let x = 1; ", "\u{e9}", "a  b", "\u{4e16}"]));
            }
            _ => text.push_str(&" ".repeat(src.upto(base + 4))),
        }
        text.push('\n');
    }
    if src.bool() {
        text.pop();
    }
    ctx.show(|| format!("indented {:?}", text));
    ctx.key(text.as_bytes());
    ctx.nontrivial(text.contains("  "));
    ctx.class("indentation");
    let body = text.strip_prefix('\n').unwrap_or(&text);
    let lines: Vec<&str> = body.split('\n').collect();
    let spaces = |line: &str| line.chars().take_while(|it| *it == ' ').count();
    let indent = lines.iter().filter(|it| it.chars().any(|c| c != ' ')).map(|it| spaces(it)).min().unwrap_or(0);
    let want: Vec<&str> = lines.iter().map(|it| &it[indent.min(spaces(it))..]).collect();
    let want = want.join("\n");
    let got = no_panic("trim_indent", || stdx::trim_indent(&text))?;
    if got != want {
        return Err(format!("trim_indent: {:?}, expected {:?}", got, want));
    }
    Ok(())
}

fn c28_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.below(4) {
        0 => marks(src, ctx),
        1 => tags(src, ctx),
        2 => annotations(src, ctx),
        _ => indents(src, ctx),
    }
}

pub static C28: Prop = Prop {
    id: "C28",
    rule: "a case is a text with cursor markers, nested tags with attributes, lines of annotations or common \
           indentation put in at known places; non-trivial: something is marked, or a line is indented",
    assumptions: &[
        "the text itself has no markup, also not after taking the markers out",
        "annotations: ASCII, at most one continuation line, and never decided by the line end of the target line",
        "indentation by spaces, lines ended by line feeds",
    ],
    cases: (3_000_000, 100_000_000),
    case: c28_case,
    ..PROP
};

// ---------------------------------------------------------------- C31

fn ident(src: &mut Src) -> String {
    src.list(6, 20, |src| match src.below(8) {
        0 | 1 => '_',
        2 => *src.pick(&['\u{e9}', '\u{c9}', '\u{4e16}', '1', ' ', '$', '\u{df}']),
        3 | 4 => (b'A' + src.below(26) as u8) as char,
        _ => (b'a' + src.below(26) as u8) as char,
    })
    .into_iter()
    .collect()
}

fn c31_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.weighted(&[12, 6, 12, 8, 8]) {
        0 => {
            let s = ident(src).repeat(if src.chance(1, 60) { *src.pick(&[10, 70, 300]) } else { 1 });
            ctx.show(|| format!("{:?}", s));
            ctx.key(s.as_bytes());
            ctx.nontrivial(s.contains('_') || s.chars().any(|c| c.is_ascii_uppercase()));
            ctx.class("case conversion");
            let pascal: String = s
                .split('_')
                .map(|part| {
                    let mut chars = part.chars();
                    let head: String = chars.next().map(|c| c.to_ascii_uppercase()).into_iter().collect();
                    head + &chars.as_str().to_ascii_lowercase()
                })
                .collect();
            let got = no_panic("to_pascal_case", || stdx::to_pascal_case(&s))?;
            if got != pascal {
                return Err(format!("to_pascal_case({:?}) = {:?}, expected {:?}", s, got, pascal));
            }
            // A boundary before every capital that is neither first nor after an underscore.
            let mut snake = String::new();
            let chars: Vec<char> = s.chars().collect();
            for (i, c) in chars.iter().enumerate() {
                if c.is_ascii_uppercase() && i > 0 && chars[i - 1] != '_' {
                    snake.push('_');
                }
                snake.push(*c);
            }
            let lower = no_panic("to_lower_snake_case", || stdx::to_lower_snake_case(&s))?;
            let upper = no_panic("to_upper_snake_case", || stdx::to_upper_snake_case(&s))?;
            if lower != snake.to_ascii_lowercase() || upper != snake.to_ascii_uppercase() {
                return Err(format!("snake case of {:?}: {:?} {:?}", s, lower, upper));
            }
        }
        1 => {
            let s = gen::unicode(src, 8, 40).repeat(if src.chance(1, 30) { *src.pick(&[10, 70, 300]) } else { 1 });
            let from = if src.bool() && !s.is_empty() {
                let chars: Vec<char> = s.chars().collect();
                *src.pick(&chars)
            } else {
                *src.pick(&['a', '\\', '\u{e9}', '\n'])
            };
            let to = *src.pick(&["", "x", "ab", "\u{4e16}", "a", "\\\\"]);
            ctx.show(|| format!("replace {:?} by {:?} in {:?}", from, to, s));
            ctx.key(format!("{}{}{}", from, to, s).as_bytes());
            ctx.nontrivial(s.contains(from));
            ctx.class("replacement");
            let mut want = String::new();
            for c in s.chars() {
                if c == from {
                    want.push_str(to);
                } else {
                    want.push(c);
                }
            }
            let mut got = s.clone();
            no_panic("replace", || stdx::replace(&mut got, from, to))?;
            if got != want {
                return Err(format!("{:?}, expected {:?}", got, want));
            }
        }
        2 => {
            let mut items: Vec<u64> = src.list(8, 40, |src| src.below(12));
            let times = if src.chance(1, 30) { *src.pick(&[10, 70, 300]) } else { 1 };
            items = items.iter().flat_map(|it| std::iter::repeat(*it).take(times)).collect();
            items.sort();
            let x = src.below(14);
            ctx.show(|| format!("the {}s in {:?}", x, items));
            ctx.key(format!("{:?}{}", items, x).as_bytes());
            ctx.nontrivial(items.len() > 1);
            ctx.class("equal range");
            ctx.class_if(items.iter().filter(|it| **it == x).count() > 1, "equal range of several");
            let before = items.iter().filter(|it| **it < x).count();
            let equal = items.iter().filter(|it| **it == x).count();
            let got = no_panic("equal_range_by", || stdx::equal_range_by(&items, |it| it.cmp(&x)))?;
            if got != (before..before + equal) {
                return Err(format!("{:?}, expected {:?}", got, before..before + equal));
            }
        }
        3 => {
            let mut a: Vec<u64> = src.list(4, 12, |src| src.below(3));
            if src.chance(1, 30) {
                a = a.repeat(*src.pick(&[10, 70, 300]));
            }
            let b = if src.bool() {
                let mut b = a.clone();
                match src.below(4) {
                    0 => drop(b.pop()),
                    1 => b.push(src.below(3)),
                    2 if !b.is_empty() => {
                        let i = src.index(b.len());
                        b[i] = src.below(3);
                    }
                    _ => (),
                }
                b
            } else {
                src.list(4, 12, |src| src.below(3))
            };
            // Any relation: here equality up to a shift.
            let shift = src.below(2);
            ctx.show(|| format!("{:?} and {:?} shifted by {}", a, b, shift));
            ctx.key(format!("{:?}{:?}{}", a, b, shift).as_bytes());
            ctx.nontrivial(!a.is_empty() && !b.is_empty());
            ctx.class("pairwise comparison");
            let want = a.len() == b.len() && (0..a.len()).all(|i| a[i] == b[i] + shift);
            let seen = RefCell::new(Vec::new());
            // Iterators that know their length, and ones that do not.
            let kinds = src.below(4);
            let got = no_panic("iter_eq_by", || {
                let eq = |x: &u64, y: &u64| {
                    seen.borrow_mut().push((*x, *y));
                    *y == *x + shift
                };
                match kinds {
                    0 => stdx::iter_eq_by(b.iter(), a.iter(), eq),
                    1 => stdx::iter_eq_by(b.iter().filter(|_| true), a.iter(), eq),
                    2 => stdx::iter_eq_by(b.iter(), a.iter().filter(|_| true), eq),
                    _ => stdx::iter_eq_by(b.iter().skip_while(|_| false), a.iter().take_while(|_| true), eq),
                }
            })?;
            if got != want {
                return Err(format!("{}, expected {}", got, want));
            }
            for (i, (x, y)) in seen.borrow().iter().enumerate() {
                if b[i] != *x || a[i] != *y {
                    return Err(format!("pair {} compared is {:?}", i, (x, y)));
                }
            }
        }
        _ => {
            // Nested scopes, left normally, early or by a panic.
            let n = if src.chance(1, 100) { *src.pick(&[64, 300, 1000]) } else { src.range(1, 6) };
            let leave = src.upto(n);
            let how = src.below(3);
            ctx.show(|| format!("{} deferred actions, scope left after {} ({})", n, leave, ["end", "return", "panic"][how as usize]));
            ctx.key(format!("{} {} {}", n, leave, how).as_bytes());
            ctx.nontrivial(true);
            ctx.class(["scope left at its end", "scope left by return", "scope left by panic"][how as usize]);
            let log: RefCell<Vec<usize>> = RefCell::new(Vec::new());
            fn level<'a>(i: usize, n: usize, leave: usize, how: u64, log: &'a RefCell<Vec<usize>>) {
                if i == leave && how == 2 {
                    panic!("as planned");
                }
                if i == n || (i == leave && how == 1) {
                    return;
                }
                let _guard = stdx::defer(move || log.borrow_mut().push(i));
                let before = log.borrow().len();
                level(i + 1, n, leave, how, log);
                // The inner ones are done, this one is not.
                assert_eq!(log.borrow().len(), before + if how == 0 { n - i - 1 } else { leave - i - 1 });
            }
            let res = no_panic("", || level(0, n, leave, how, &log));
            if res.is_ok() == (how == 2) {
                return Err(format!("scope: {:?}", res));
            }
            let entered = if how == 0 { n } else { leave };
            let want: Vec<usize> = (0..entered).rev().collect();
            if *log.borrow() != want {
                return Err(format!("actions run: {:?}, expected {:?}", log.borrow(), want));
            }
        }
    }
    Ok(())
}

/// A guarded child process is gone when its guard is.
fn c31_fixed(i: u64, ctx: &mut Ctx) -> Res {
    let script = ["s20000000", "wo61,s20000000", "x0", "s0,x3"][(i % 4) as usize];
    ctx.show(|| format!("guarded child: {}", script));
    ctx.nontrivial(true);
    ctx.class("guarded child");
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("--emit").arg(script).stdout(std::process::Stdio::null());
    let child = stdx::JodChild(cmd.spawn().map_err(|e| e.to_string())?);
    let pid = child.id() as i32;
    std::thread::sleep(std::time::Duration::from_micros(mix(i) % 2000));
    let kept = i % 8 >= 4;
    if kept {
        let mut child = child.into_inner();
        let alive = unsafe { libc::kill(pid, 0) } == 0;
        let _ = child.kill();
        let status = child.wait().map_err(|e| e.to_string())?;
        if !alive {
            return Err("a child that was taken out of its guard is gone".into());
        }
        if script.starts_with('s') && script.len() > 5 && status.signal() != Some(libc::SIGKILL) {
            return Err(format!("a child that was taken out of its guard: {:?}", status));
        }
        return Ok(());
    }
    let start = std::time::Instant::now();
    drop(child);
    if start.elapsed().as_secs() > 5 {
        return Err("dropping the guard waited for the child".into());
    }
    // Ended and waited for: it is no child any more.
    let res = unsafe { libc::waitpid(pid, std::ptr::null_mut(), libc::WNOHANG) };
    if res != -1 {
        unsafe {
            libc::kill(pid, libc::SIGKILL);
            libc::waitpid(pid, std::ptr::null_mut(), 0);
        }
        return Err("the child is still there after its guard was dropped".into());
    }
    Ok(())
}

pub static C31: Prop = Prop {
    id: "C31",
    rule: "a case is a generated string, sorted list, pair of sequences, nest of scopes left in one of three ways, or \
           (fixed cases) a real child process under a guard; non-trivial: the operation has something to change or \
           compare",
    assumptions: &["case conversion concerns ASCII letters only"],
    cases: (3_000_000, 100_000_000),
    case: c31_case,
    fixed: Some((|_| 64, c31_fixed)),
    ..PROP
};

// ---------------------------------------------------------------- C38

/// What a thread does. As text: `(id` ... `)` is the scope of a context, `[` ... `]` catches panics, `!id`
/// panics.
fn c38_program(src: &mut Src, ids: &mut usize, depth: usize, caught: bool, out: &mut String) -> bool {
    for _ in 0..src.range(0, 3) {
        match src.below(8) {
            0..=3 if depth > 0 => {
                // The same context may be open several times.
                if *ids == 0 || src.chance(5, 6) {
                    *ids += 1;
                }
                out.push_str(&format!("({}", ids));
                let panics = c38_program(src, ids, depth - 1, caught, out);
                out.push(')');
                if panics {
                    return true;
                }
            }
            4 | 5 if depth > 0 => {
                out.push('[');
                c38_program(src, ids, depth - 1, true, out);
                out.push(']');
            }
            6 | 7 if caught => {
                *ids += 1;
                out.push_str(&format!("!{}", ids));
                return true;
            }
            _ => (),
        }
    }
    false
}

/// The turns a program takes: the contexts open at each panic, `None` for entering and leaving a context.
fn c38_turns(program: &str) -> Vec<Option<(usize, Vec<usize>)>> {
    let mut turns = Vec::new();
    let mut open: Vec<usize> = Vec::new();
    let mut catches: Vec<usize> = Vec::new();
    let bytes = program.as_bytes();
    let mut i = 0;
    while i < bytes.len() {
        let c = bytes[i];
        i += 1;
        let start = i;
        while i < bytes.len() && bytes[i].is_ascii_digit() {
            i += 1;
        }
        let id = program[start..i].parse().unwrap_or(0);
        match c {
            b'(' => {
                open.push(id);
                turns.push(None);
            }
            b')' => {
                open.pop();
                turns.push(None);
            }
            b'[' => catches.push(open.len()),
            b']' => {
                catches.pop();
            }
            _ => {
                turns.push(Some((id, open.clone())));
                // On to the end of what catches it.
                open.truncate(*catches.last().unwrap());
                let mut level = 1;
                while level > 0 {
                    match bytes[i] {
                        b'[' => level += 1,
                        b']' => level -= 1,
                        _ => (),
                    }
                    i += 1;
                }
                catches.pop();
            }
        }
    }
    turns
}

struct Turns {
    order: Vec<usize>,
    now: std::sync::Mutex<usize>,
    passed: std::sync::Condvar,
}

impl Turns {
    fn wait(&self, thread: usize) {
        let mut now = self.now.lock().unwrap();
        while self.order[*now] != thread {
            now = self.passed.wait(now).unwrap();
        }
    }
    fn pass(&self) {
        *self.now.lock().unwrap() += 1;
        self.passed.notify_all();
    }
}

fn c38_text(id: usize, texts: &[String]) -> String {
    format!("ctx<{}>{}", id, texts[id % texts.len()])
}

/// Runs `program` from `i` to the end of its block.
fn c38_run(program: &str, i: &mut usize, thread: usize, turns: &Turns, texts: &[String]) {
    let bytes = program.as_bytes();
    while *i < bytes.len() {
        let c = bytes[*i];
        *i += 1;
        let start = *i;
        while *i < bytes.len() && bytes[*i].is_ascii_digit() {
            *i += 1;
        }
        let id: usize = program[start..*i].parse().unwrap_or(0);
        match c {
            b'(' => {
                turns.wait(thread);
                let _context = stdx::panic_context::enter(c38_text(id, texts));
                turns.pass();
                c38_run(program, i, thread, turns, texts);
                turns.wait(thread);
                drop(_context);
                turns.pass();
            }
            b'[' => {
                let begin = *i;
                let mut end = begin;
                let mut level = 1;
                while level > 0 {
                    match bytes[end] {
                        b'[' => level += 1,
                        b']' => level -= 1,
                        _ => (),
                    }
                    end += 1;
                }
                let mut inner = begin;
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    c38_run(program, &mut inner, thread, turns, texts)
                }));
                if res.is_err() {
                    turns.pass();
                }
                *i = end;
            }
            b'!' => {
                turns.wait(thread);
                panic!("planned<{}>", id);
            }
            _ => return,
        }
    }
}

/// The child: the order of the turns, the texts (in hexadecimal), the programs.
pub fn contexts(args: &[String]) -> ! {
    let order = args[0].split(',').filter_map(|it| it.parse().ok()).collect();
    let texts: Vec<String> = args[1]
        .split(',')
        .map(|it| {
            let bytes = (0..it.len() / 2).map(|i| u8::from_str_radix(&it[2 * i..2 * i + 2], 16).unwrap()).collect();
            String::from_utf8(bytes).unwrap()
        })
        .collect();
    let turns = Turns { order, now: Default::default(), passed: Default::default() };
    std::thread::scope(|scope| {
        for (thread, program) in args[2..].iter().enumerate() {
            let (turns, texts) = (&turns, &texts);
            scope.spawn(move || c38_run(program, &mut 0, thread, turns, texts));
        }
    });
    unsafe { libc::_exit(0) }
}

fn c38_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut ids = 0;
    let mut programs = Vec::new();
    for _ in 0..src.range(1, 4) {
        let mut program = String::new();
        if src.chance(1, 30) {
            let n = src.range(20, 300) as usize;
            program = (ids + 1..ids + n).map(|id| format!("({}", id)).collect::<String>() + &format!("[!{}]", ids + n);
            program += &")".repeat(n - 1);
            ids += n;
            ctx.class("many contexts");
        }
        for _ in 0..src.range(1, 3) {
            program.push('[');
            c38_program(src, &mut ids, 6, true, &mut program);
            program.push(']');
        }
        programs.push(program);
    }
    let mut texts = Vec::new();
    for _ in 0..src.range(1, 4) {
        texts.push(src.pick(&["", "work", "a\nb", "request: \"x\"", "\u{e9}\u{1F600}", "  ", "> ", "\n\n", "Panic context:", "{}"]).to_string());
    }
    let mut left: Vec<std::collections::VecDeque<_>> = programs.iter().map(|it| c38_turns(it).into()).collect();
    let mut order = Vec::new();
    let mut expected: Vec<(usize, Vec<usize>)> = Vec::new();
    while left.iter().any(|it| !it.is_empty()) {
        let some: Vec<usize> = (0..left.len()).filter(|&i| !left[i].is_empty()).collect();
        let thread = *src.pick(&some);
        order.push(thread.to_string());
        expected.extend(left[thread].pop_front().unwrap());
    }
    ctx.show(|| format!("threads {:?}, turns {}, texts {:?}", programs, order.join(","), texts));
    ctx.key(format!("{:?}{:?}{:?}", programs, order, texts).as_bytes());
    ctx.nontrivial(expected.iter().any(|it| !it.1.is_empty()));
    if programs.len() > 1 {
        ctx.class("several threads");
    }
    if expected.len() > 1 {
        ctx.class("several panics");
    }
    let hex: Vec<String> = texts.iter().map(|it| it.bytes().map(|b| format!("{:02x}", b)).collect()).collect();
    let out = Command::new(std::env::current_exe().unwrap())
        .arg("--contexts")
        .arg(order.join(","))
        .arg(hex.join(","))
        .args(&programs)
        .env("RUST_BACKTRACE", "0")
        .stdin(std::process::Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    let err = String::from_utf8_lossy(&out.stderr);
    if !out.status.success() {
        return Err(format!("the program ends with {:?}: {}", out.status, err));
    }
    let mut rest = &err[..];
    for (id, open) in &expected {
        let mark = format!("planned<{}>", id);
        let at = rest.find(&mark).ok_or_else(|| format!("panic {} is not reported in {:?}", id, err))?;
        let report = &rest[..at];
        rest = &rest[at + mark.len()..];
        let named: Vec<usize> =
            report.split("ctx<").skip(1).filter_map(|it| it.split('>').next().and_then(|it| it.parse().ok())).collect();
        if named != *open {
            return Err(format!("the report of panic {} names {:?}, open were {:?}:\n{}", id, named, open, report));
        }
        for &context in open {
            if !report.contains(&c38_text(context, &texts)) {
                return Err(format!("the report of panic {} does not give the text of context {}:\n{}", id, context, report));
            }
        }
    }
    if rest.contains("ctx<") || rest.contains("planned<") {
        return Err(format!("after the last panic: {:?}", rest));
    }
    Ok(())
}

pub static C38: Prop = Prop {
    id: "C38",
    rule: "a case is programs for 1 to 4 threads that open and close contexts, panic and catch panics, with an order of \
           their turns, run in a child process; non-trivial: a panic with an open context",
    assumptions: &["contexts are closed in the reverse order in which they were opened"],
    cases: (6_000, 400_000),
    case: c38_case,
    ..PROP
};
