//! Programs of the supported grammar, together with the tree they must parse to.
use parser::SyntaxKind::{self, *};

use crate::lex;
use crate::src::Src;
use crate::tree::{leaf, tok, T};

const NAMES: &[&str] = &[
    "a", "b", "x", "y", "foo", "Bar", "S", "T", "u8", "u64", "_", "_a", "mutable", "letter", "x1",
    "module1", "Signer", "vector", "b1", "True", "fun_", "abcdefghijklmnop", "A_B_C", "move_to", "i",
    "address_of", "copy", "acquires", "xb", "e10", "u128", "nat", "struct0", "USE", "ifx", "elsewhere",
];
const NUMS: &[&str] = &[
    "0", "1", "42", "0u8", "255u8", "7u64", "18446744073709551615", "1u128", "0x1", "0xFF", "0xau8",
    "0x10u64", "0xdeadBEEF", "007", "0x0", "0x1u128", "9",
];
const ADDRS: &[&str] = &["0x1", "0x42", "0xABCDEF", "0x0", "std", "Std"];
const STRINGS: &[&str] = &[
    "b\"\"",
    "b\"hello\"",
    "x\"deadbeef\"",
    "x\"\"",
    "b\"a\\\"b\"",
    "b\"// no comment\"",
    "b\"\\\\\"",
    "b\"\u{e9}\u{1F600}{}();\"",
    "b\"let fun\"",
];

pub struct Gen<'a> {
    pub src: &'a mut Src,
    /// Bound on the size of what is still generated.
    pub fuel: i64,
    pub max_depth: u32,
}

type Kids = Vec<T>;

impl Gen<'_> {
    fn spend(&mut self) -> bool {
        self.fuel -= 1;
        self.fuel > 0
    }
    fn list(&mut self, avg: u64) -> usize {
        if self.fuel > 0 && self.src.chance(1, 250) {
            // A long one, of small elements.
            let n = self.src.range(13, 300);
            self.fuel -= n as i64;
            return n as usize;
        }
        let mut n = 0;
        while n < 12 && self.fuel > 0 && self.src.more(avg) {
            n += 1;
            self.fuel -= 1;
        }
        n
    }
    fn ident(&mut self) -> T {
        if self.src.chance(1, 8) {
            // A made-up word.
            let mut s = String::new();
            let alphabet: Vec<char> = "abxumlTZ_019".chars().collect();
            for _ in 0..self.src.range(1, 7) {
                s.push(*self.src.pick(&alphabet));
            }
            if lex::lex(&s) == [(IDENT, s.as_str())] {
                return leaf(IDENT, &s);
            }
        }
        let n = *self.src.pick(NAMES);
        leaf(IDENT, n)
    }
    fn name(&mut self) -> T {
        T::N(NAME, vec![self.ident()])
    }
    fn name_ref(&mut self) -> T {
        T::N(NAME_REF, vec![self.ident()])
    }
    fn address(&mut self) -> T {
        let a = *self.src.pick(ADDRS);
        leaf(if a.starts_with("0x") { DIEM_ADDRESS } else { IDENT }, a)
    }
    /// `item (, item)* [,]`
    fn commas(&mut self, kids: &mut Kids, items: Vec<T>, trailing: bool) {
        let n = items.len();
        for (i, item) in items.into_iter().enumerate() {
            kids.push(item);
            if i + 1 < n || (trailing && self.src.chance(1, 4)) {
                kids.push(tok(","));
            }
        }
    }

    pub fn file(&mut self) -> T {
        let mut kids = Vec::new();
        let n = self.src.upto(4);
        for _ in 0..n {
            kids.push(self.top_level());
        }
        T::N(SOURCE_FILE, kids)
    }
    pub fn top_level(&mut self) -> T {
        match self.src.weighted(&[4, 2, 2]) {
            0 => self.module(true),
            1 => {
                let items = self.item_list();
                T::N(SCRIPT_DEF, vec![tok("script"), items])
            }
            _ => {
                let addr = T::N(ADDRESS_IDENT, vec![self.address()]);
                let mut list = vec![tok("{")];
                for _ in 0..self.src.upto(3) {
                    list.push(self.module(false));
                }
                list.push(tok("}"));
                T::N(ADDRESS_DEF, vec![tok("address"), addr, T::N(ADDRESS_ITEM_LIST, list)])
            }
        }
    }
    fn module(&mut self, may_qualify: bool) -> T {
        let mut kids = vec![tok("module")];
        if may_qualify && !self.src.chance(1, 4) || self.src.chance(1, 10) {
            kids.push(T::N(ADDRESS_IDENT, vec![self.address()]));
            kids.push(tok("::"));
        }
        kids.push(self.name());
        kids.push(self.item_list());
        T::N(MODULE_DEF, kids)
    }
    fn item_list(&mut self) -> T {
        let mut kids = vec![tok("{")];
        for _ in 0..self.list(3) {
            kids.push(self.item());
        }
        kids.push(tok("}"));
        T::N(ITEM_LIST, kids)
    }
    pub fn item(&mut self) -> T {
        if self.src.chance(1, 3) {
            self.struct_()
        } else {
            self.function()
        }
    }
    pub fn struct_(&mut self) -> T {
        let mut kids = vec![tok("struct"), self.name()];
        if self.src.chance(1, 2) {
            let mut list = vec![tok("<")];
            let n = self.list(2);
            let params = (0..n)
                .map(|_| {
                    let mut param = vec![self.name()];
                    if self.src.chance(1, 2) {
                        param.push(tok(":"));
                        let mut bounds = vec![T::N(TYPE_BOUND, vec![self.name()])];
                        for _ in 0..self.src.upto(2) {
                            bounds.push(tok("+"));
                            bounds.push(T::N(TYPE_BOUND, vec![self.name()]));
                        }
                        param.push(T::N(TYPE_BOUND_LIST, bounds));
                    }
                    T::N(TYPE_PARAM, param)
                })
                .collect();
            self.commas(&mut list, params, true);
            list.push(tok(">"));
            kids.push(T::N(GENERIC_PARAM_LIST, list));
        }
        if self.src.chance(1, 5) {
            kids.push(tok(";"));
        } else {
            let mut list = vec![tok("{")];
            let n = self.list(3);
            let fields = (0..n)
                .map(|_| T::N(RECORD_FIELD, vec![self.name(), tok(":"), self.type_(3)]))
                .collect();
            self.commas(&mut list, fields, true);
            list.push(tok("}"));
            kids.push(T::N(RECORD_FIELD_LIST, list));
        }
        T::N(STRUCT, kids)
    }
    pub fn function(&mut self) -> T {
        let mut params = vec![tok("(")];
        let n = self.list(2);
        let list =
            (0..n).map(|_| T::N(PARAM, vec![self.name(), tok(":"), self.type_(3)])).collect();
        self.commas(&mut params, list, true);
        params.push(tok(")"));
        let mut kids = vec![tok("fun"), self.name(), T::N(PARAM_LIST, params)];
        if self.src.chance(1, 3) {
            kids.push(T::N(RET_TYPE, vec![tok(":"), self.type_(3)]));
        }
        let depth = self.max_depth;
        kids.push(self.block(depth));
        T::N(FUNCTION_DEF, kids)
    }
    pub fn type_(&mut self, depth: u32) -> T {
        if depth > 0 && self.src.chance(1, 3) {
            let mut kids = match self.src.weighted(&[3, 2, 1]) {
                0 => vec![tok("&")],
                1 => vec![tok("&mut")],
                // `&` and `mut` apart are a mutable reference as well.
                _ => vec![tok("&"), tok("mut")],
            };
            kids.push(self.type_(depth - 1));
            T::N(REF_TYPE, kids)
        } else {
            T::N(PATH_TYPE, vec![self.path(true)])
        }
    }
    fn path(&mut self, qualified: bool) -> T {
        let mut path = T::N(PATH, vec![T::N(PATH_SEGMENT, vec![self.name_ref()])]);
        if qualified && self.src.chance(1, 3) {
            let most = if self.src.chance(1, 200) { 80 } else { 2 };
            for _ in 0..self.src.range(1, most) {
                let segment = T::N(PATH_SEGMENT, vec![self.name_ref()]);
                path = T::N(PATH, vec![path, tok("::"), segment]);
            }
        }
        path
    }
    pub fn block(&mut self, depth: u32) -> T {
        let mut kids = vec![tok("{")];
        let n = self.list(4);
        for i in 0..n {
            kids.push(self.stmt(depth, i + 1 == n));
        }
        // The semicolon may be missing before `let` and at the end of the block.
        for i in 1..kids.len() {
            let next_is_let = kids.get(i + 1).map_or(true, |it| it.kind() == LET_STMT);
            if next_is_let && self.src.chance(1, 4) {
                if let T::N(_, stmt) = &mut kids[i] {
                    stmt.pop();
                }
            }
        }
        kids.push(tok("}"));
        T::N(BLOCK_EXPR, kids)
    }
    fn stmt(&mut self, depth: u32, _last: bool) -> T {
        if self.src.chance(2, 5) {
            let mut kids = vec![tok("let"), self.pattern(3)];
            if self.src.chance(1, 3) {
                kids.push(tok(":"));
                kids.push(self.type_(3));
            }
            if self.src.chance(3, 4) {
                kids.push(tok("="));
                kids.push(self.expr(depth, 1));
            }
            kids.push(tok(";"));
            T::N(LET_STMT, kids)
        } else {
            T::N(EXPR_STMT, vec![self.expr(depth, 1), tok(";")])
        }
    }
    fn ident_pat(&mut self) -> T {
        let mut kids = Vec::new();
        if self.src.chance(1, 4) {
            kids.push(tok("mut"));
        }
        kids.push(self.name());
        T::N(IDENT_PAT, kids)
    }
    pub fn pattern(&mut self, depth: u32) -> T {
        if depth == 0 || !self.spend() {
            return self.ident_pat();
        }
        match self.src.weighted(&[5, 2, 2]) {
            0 => self.ident_pat(),
            1 => {
                let n = self.list(2);
                let items: Kids = (0..n).map(|_| self.pattern(depth - 1)).collect();
                let mut kids = vec![tok("(")];
                self.commas(&mut kids, items, true);
                let paren = n == 1 && kids.len() == 2;
                kids.push(tok(")"));
                T::N(if paren { PAREN_PAT } else { TUPLE_PAT }, kids)
            }
            _ => {
                let mut list = vec![tok("{")];
                let n = self.list(2);
                let items: Kids = (0..n)
                    .map(|_| {
                        let kids = if self.src.bool() {
                            vec![self.name_ref(), tok(":"), self.pattern(depth - 1)]
                        } else {
                            vec![self.ident_pat()]
                        };
                        T::N(RECORD_PAT_FIELD, kids)
                    })
                    .collect();
                self.commas(&mut list, items, true);
                list.push(tok("}"));
                let path = self.path(false);
                T::N(RECORD_PAT, vec![path, T::N(RECORD_PAT_FIELD_LIST, list)])
            }
        }
    }

    /// An expression whose outermost operator has at least the binding power `min`.
    pub fn expr(&mut self, depth: u32, min: u8) -> T {
        if depth == 0 || !self.spend() {
            return self.atom(0);
        }
        match self.src.weighted(&[5, 6, 2]) {
            1 => {
                let ops: Vec<_> = OPS.iter().filter(|it| it.1 >= min).collect();
                if ops.is_empty() {
                    return self.postfix(depth - 1);
                }
                let (op, bp) = **self.src.pick(&ops);
                // Equal precedence groups to the left.
                let lhs = self.expr(depth - 1, bp);
                let rhs = self.expr(depth - 1, bp + 1);
                T::N(BIN_EXPR, vec![lhs, tok(op), rhs])
            }
            2 => self.prefix(depth),
            _ => self.postfix(depth),
        }
    }
    /// A prefix operator applies to the operand with its postfix operators.
    fn prefix(&mut self, depth: u32) -> T {
        let op = *self.src.pick(&["-", "!", "*"]);
        let operand = if depth > 1 && self.src.chance(1, 3) {
            self.prefix(depth - 1)
        } else {
            self.postfix(depth.saturating_sub(1))
        };
        T::N(PREFIX_EXPR, vec![tok(op), operand])
    }
    fn postfix(&mut self, depth: u32) -> T {
        let mut e = self.atom(depth);
        while depth > 0 && self.src.chance(1, 4) && self.spend() {
            if self.src.bool() {
                let mut args = vec![tok("(")];
                let n = self.list(2);
                let items: Kids = (0..n).map(|_| self.expr(depth - 1, 1)).collect();
                self.commas(&mut args, items, true);
                args.push(tok(")"));
                e = T::N(CALL_EXPR, vec![e, T::N(ARG_LIST, args)]);
            } else {
                e = T::N(DOT_EXPR, vec![e, tok("."), self.name_ref()]);
            }
        }
        e
    }
    fn literal(&mut self) -> T {
        let kid = match self.src.weighted(&[4, 2, 2, 2]) {
            0 => leaf(INTEGER_NUMBER, *self.src.pick(NUMS)),
            1 => tok(*self.src.pick(&["true", "false"])),
            2 => leaf(BYTE_STRING, *self.src.pick(STRINGS)),
            _ => T::N(ADDRESS_LIT, vec![tok("@"), self.address()]),
        };
        T::N(LITERAL, vec![kid])
    }
    fn atom(&mut self, depth: u32) -> T {
        if depth == 0 || !self.spend() {
            return if self.src.bool() {
                T::N(PATH_EXPR, vec![self.path(true)])
            } else {
                self.literal()
            };
        }
        match self.src.weighted(&[4, 5, 2, 2, 1]) {
            0 => self.literal(),
            1 => T::N(PATH_EXPR, vec![self.path(true)]),
            2 => T::N(PAREN_EXPR, vec![tok("("), self.expr(depth - 1, 1), tok(")")]),
            3 => {
                let mut list = vec![tok("{")];
                let n = self.list(2);
                let items: Kids = (0..n)
                    .map(|_| {
                        let kids = if self.src.chance(2, 3) {
                            vec![self.name_ref(), tok(":"), self.expr(depth - 1, 1)]
                        } else {
                            let path = T::N(PATH, vec![T::N(PATH_SEGMENT, vec![self.name_ref()])]);
                            vec![T::N(PATH_EXPR, vec![path])]
                        };
                        T::N(RECORD_EXPR_FIELD, kids)
                    })
                    .collect();
                self.commas(&mut list, items, true);
                list.push(tok("}"));
                let path = self.path(true);
                T::N(RECORD_EXPR, vec![path, T::N(RECORD_EXPR_FIELD_LIST, list)])
            }
            _ => self.block(depth - 1),
        }
    }
}

/// Binary operators and their precedence.
pub const OPS: &[(&str, u8)] = &[
    ("+", 10),
    ("*", 11),
    ("-", 10),
    ("/", 11),
    ("=", 1),
    ("<", 5),
    (">", 5),
    ("|", 6),
    ("^", 7),
    ("&", 8),
    ("%", 11),
];

/// A run of white space and comments that may stand between two tokens.
pub fn trivia(src: &mut Src, must: bool) -> String {
    const PIECES: &[&str] = &[
        " ", "\n", "\t", "  ", "\n\n", "// c\n", "//\n", "/// doc\n", "// \u{e9}\u{4e16}\u{1F600} { ( ; let\n",
        "//x\"\n", " //\r\n", "////\n", "//\u{b} a\u{c}fun\u{85}{\u{2028}(\0\r;\u{2029}let\n", "//* \u{feff}\u{a0}\n", "// \\\n",
    ];
    let mut s = String::new();
    if !must && src.chance(1, 3) {
        return s;
    }
    loop {
        let w: &[u64] = &[24, 8, 4, 4, 2, 4, 2, 2, 2, 2, 2, 2, 1, 1, 1];
        s.push_str(PIECES[src.weighted(w)]);
        if !src.chance(1, 4) {
            return s;
        }
    }
}

/// The tokens laid out with random trivia between them.
pub fn layout(src: &mut Src, tokens: &[String]) -> String {
    let dense = src.chance(1, 4);
    let mut s = String::new();
    if src.chance(1, 4) {
        s.push_str(&trivia(src, false));
    }
    for (i, t) in tokens.iter().enumerate() {
        s.push_str(t);
        let next = match tokens.get(i + 1) {
            Some(it) => it,
            None => break,
        };
        let must = !lex::can_touch(t, next);
        if dense {
            if must {
                s.push(' ');
            }
        } else {
            let trivia = trivia(src, must);
            // `/` must not become the start of a comment.
            if t == "/" && trivia.starts_with('/') {
                s.push(' ');
            }
            s.push_str(&trivia);
        }
    }
    if src.chance(1, 2) {
        s.push_str(&trivia(src, false));
    }
    if src.chance(1, 16) {
        s.push_str("// the end, without a newline");
    }
    s
}

/// A program, the tree it must parse to, and its text.
pub fn program(src: &mut Src, fuel: i64) -> (T, String) {
    let mut g = Gen { src, fuel, max_depth: 4 };
    let tree = g.file();
    let text = layout(src, &tree.tokens());
    (tree, text)
}

pub fn all_kinds() -> Vec<SyntaxKind> {
    (0..SyntaxKind::__LAST as u16).map(SyntaxKind::from).collect()
}

/// Tokens for soups, common ones first.
pub const SOUP: &[&str] = &[
    "{", "}", "(", ")", "a", ";", ",", ":", "::", "let", "fun", "module", "script", "struct", "address",
    "=", "<", ">", "&", "&mut", "mut", "0x1", "1", ".", "+", "-", "*", "!", "..", "@", "true", "false",
    "b\"s\"", "x\"00\"", "move", "return", "if", "while", "use", "as", "const", "else", "break",
    "continue", "[", "]", "/", "%", "^", "|", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "==>",
    "<==>", "#", "$", "?", "\"", "'", "\\", "~", "`", "\u{e9}", "\u{1F600}", "\r", "\0", "b\"open",
    "x\"open\\", "_", "S", "M", "0x", "0u8", "// c\n", "\u{feff}", "\u{a0}", "\u{2028}",
    "\u{85}", "\u{660}", "\u{2019}", "\u{c}",
];

pub fn soup(src: &mut Src, avg: u64, max: usize) -> String {
    let mut s = String::new();
    let core = src.chance(1, 2);
    let mut n = 0;
    while n < max && src.more(avg) {
        let t = if core { *src.pick(&SOUP[..34]) } else { *src.pick(SOUP) };
        s.push_str(t);
        s.push_str(*src.pick(&[" ", "", "\n", " ", " "]));
        n += 1;
    }
    s
}

/// A program with a few token- or character-level edits.
pub fn mutated(src: &mut Src, fuel: i64) -> String {
    let (_, text) = program(src, fuel);
    let n = src.range(1, 3);
    mutate(src, text, n)
}

pub fn mutate(src: &mut Src, text: String, n: usize) -> String {
    let mut tokens: Vec<String> = lex::lex(&text).into_iter().map(|it| it.1.to_string()).collect();
    for _ in 0..n {
        let len = tokens.len();
        match src.below(8) {
            0 if len > 0 => {
                tokens.remove(src.index(len));
            }
            1 => {
                let i = src.upto(len);
                tokens.insert(i, format!(" {} ", src.pick(SOUP)));
            }
            2 if len > 0 => {
                let i = src.index(len);
                tokens[i] = src.pick(SOUP).to_string();
            }
            3 if len > 0 => {
                let i = src.index(len);
                tokens.truncate(i);
            }
            4 if len > 1 => {
                let i = src.index(len - 1);
                tokens.swap(i, i + 1);
            }
            5 if len > 0 => {
                // Remove a run.
                let i = src.index(len);
                let j = (i + src.range(1, 8)).min(len);
                tokens.drain(i..j);
            }
            6 if len > 0 => {
                // Duplicate a run.
                let i = src.index(len);
                let j = (i + src.range(1, 8)).min(len);
                let run: Vec<_> = tokens[i..j].to_vec();
                tokens.splice(i..i, run);
            }
            7 if len > 0 => {
                // Cut inside a token.
                let i = src.index(len);
                let chars: Vec<char> = tokens[i].chars().collect();
                tokens[i] = chars[..src.upto(chars.len())].iter().collect();
            }
            _ => (),
        }
    }
    tokens.concat()
}

/// Characters that text processing tends to treat in its own way.
pub const ODD: &[char] = &[
    '\0', '\u{1}', '\u{b}', '\u{c}', '\u{1b}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{aa}', '\u{ad}', '\u{b2}', '\u{b5}',
    '\u{df}', '\u{ff}', '\u{130}', '\u{131}', '\u{17f}', '\u{301}', '\u{37e}', '\u{660}', '\u{7ff}', '\u{800}', '\u{200b}',
    '\u{200d}', '\u{200f}', '\u{2019}', '\u{201c}', '\u{2028}', '\u{2029}', '\u{212a}', '\u{2160}', '\u{3000}', '\u{d7ff}',
    '\u{e000}', '\u{fb01}', '\u{fe0f}', '\u{feff}', '\u{ff10}', '\u{ff1b}', '\u{ff5b}', '\u{fffd}', '\u{ffff}', '\u{10000}',
    '\u{1d7d8}', '\u{1f1e6}', '\u{e0020}', '\u{10ffff}',
];

/// Random characters of all widths.
pub fn unicode(src: &mut Src, avg: u64, max: usize) -> String {
    let mut s = String::new();
    let mut n = 0;
    while n < max && src.more(avg) {
        n += 1;
        s.push(unicode_char(src));
    }
    s
}

pub fn unicode_char(src: &mut Src) -> char {
    match src.weighted(&[6, 3, 2, 2, 2, 1]) {
        0 => (0x20 + src.below(0x5f) as u8) as char,
        1 => *src.pick(&['\n', '\n', '\t', '\r', ' ']),
        2 => char::from_u32(0x80 + src.below(0x780) as u32).unwrap(),
        3 => char::from_u32(0x800 + src.below(0xf800) as u32).unwrap_or('\u{d7ff}'),
        4 => {
            let planes = if src.bool() { 0x10000 } else { 0x100000 };
            char::from_u32(0x10000 + src.below(planes) as u32).unwrap()
        }
        _ => *src.pick(ODD),
    }
}

/// Source-like text of any kind.
pub fn any_text(src: &mut Src, fuel: i64) -> (String, &'static str) {
    match src.weighted(&[3, 4, 3, 1, 1]) {
        0 => (soup(src, 20, 200), "soup"),
        1 => (mutated(src, fuel), "mutated program"),
        2 => (in_context(src), "soup in context"),
        3 => (unicode(src, 30, 300), "random characters"),
        _ => (program(src, fuel).1, "program"),
    }
}

pub const CONTEXTS: &[(&str, &str)] = &[
    ("", ""),
    ("module 0x1::M {", "}"),
    ("script { fun f() {", "} }"),
    ("module M { struct S {", "} }"),
    ("module M { struct S<", "> {} }"),
    ("module M { fun f(", ") {} }"),
    ("module M { fun f()", " {} }"),
    ("script { fun f() { let x:", "= 1; } }"),
    ("script { fun f() { let ", "= 1; } }"),
    ("script { fun f() { let x = ", "; } }"),
    ("script { fun f() { g(", "); } }"),
    ("script { fun f() { S {", "}; } }"),
    ("script { fun f() { let S {", "} = 1; } }"),
    ("address 0x1 {", "}"),
    ("module", "{}"),
    ("address", "{}"),
];

pub fn in_context(src: &mut Src) -> String {
    let (before, after) = *src.pick(CONTEXTS);
    let inner = soup(src, 6, 40);
    let after = if src.chance(1, 4) { "" } else { after };
    let tail = if src.chance(1, 4) { " module 0x1::Next { fun g() {} }" } else { "" };
    format!("{} {} {}{}", before, inner, after, tail)
}
