//! C07: the typed wrappers.
use parser::SyntaxKind::{self, *};
use syntax::ast::{self, AstNode, AstToken};
use syntax::syntax_node::{SyntaxElement, SyntaxNode, SyntaxToken};
use syntax::SourceFile;

use super::parsing::{bound, parse, quoted};
use crate::engine::{no_panic, Ctx, Probe, Prop, Res, PROP};
use crate::gen;
use crate::src::Src;

fn case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let text = match src.weighted(&[2, 2, 2, 1]) {
        0 => gen::program(src, 60).1,
        1 => {
            // Many scripts, statements and operators.
            let mut s = String::new();
            for _ in 0..src.range(1, 3) {
                s.push_str("script { fun f() {");
                for _ in 0..src.upto(4) {
                    s.push_str(*src.pick(&[" ", " x + ", " f(1); ", " let y = ", " { 1; } "]));
                    let n = src.upto(3);
                    for _ in 0..n {
                        s.push_str(*src.pick(&["true", "false", "1", "a", "(1 + 2)", "b\"s\"", "@0x1"]));
                        s.push_str(*src.pick(&[" + ", " - ", " * ", " / ", " % ", " = ", " < ", " & "]));
                    }
                    s.push_str(*src.pick(&["true;", "1;", "false", "a * 2;", ";", "2 % x;", "true + ;"]));
                }
                s.push_str("} }\n");
                if src.chance(1, 3) {
                    s.push_str("module M { struct S; } $ ");
                }
            }
            s
        }
        2 => gen::mutated(src, 60),
        _ => gen::any_text(src, 40).0,
    };
    let text = bound(&text);
    ctx.show(|| quoted(&text));
    ctx.key(text.as_bytes());
    check(&text, ctx)
}

fn cast<N: AstNode>(node: &SyntaxNode, kinds: &[SyntaxKind]) -> Res {
    let kind = node.kind();
    let want = kinds.contains(&kind);
    if N::can_cast(kind) != want {
        return Err(format!("can_cast({:?}) is {} for {}", kind, !want, std::any::type_name::<N>()));
    }
    match N::cast(node.clone()) {
        Some(n) if want => {
            if n.syntax() != node {
                return Err(format!("cast of {:?} gives another node", node));
            }
            let copy = n.clone_subtree();
            if copy.syntax().kind() != kind || copy.syntax().text() != node.text() {
                return Err(format!("clone_subtree of {:?} differs", node));
            }
            let copy = n.clone_for_update();
            if copy.syntax().kind() != kind || copy.syntax().text() != node.text() {
                return Err(format!("clone_for_update of {:?} differs", node));
            }
            Ok(())
        }
        None if !want => Ok(()),
        other => Err(format!("cast of {:?} to {}: {}", node, std::any::type_name::<N>(), other.is_some())),
    }
}

fn cast_token<N: AstToken + std::fmt::Display>(token: &SyntaxToken, kind: SyntaxKind) -> Res {
    let want = token.kind() == kind;
    if N::can_cast(token.kind()) != want {
        return Err(format!("can_cast({:?}) for {}", token.kind(), std::any::type_name::<N>()));
    }
    match N::cast(token.clone()) {
        Some(n) if want => {
            if n.syntax() != token || n.text() != token.text() || n.to_string() != token.text() {
                return Err(format!("cast of {:?} gives another token or text", token));
            }
            Ok(())
        }
        None if !want => Ok(()),
        _ => Err(format!("cast of {:?} to {}", token, std::any::type_name::<N>())),
    }
}

fn kids(node: &SyntaxNode, kinds: &[SyntaxKind]) -> Vec<SyntaxNode> {
    node.children().filter(|it| kinds.contains(&it.kind())).collect()
}

fn tok(node: &SyntaxNode, kind: SyntaxKind) -> Option<SyntaxToken> {
    node.children_with_tokens().filter_map(SyntaxElement::into_token).find(|it| it.kind() == kind)
}

fn same<X: PartialEq + std::fmt::Debug>(what: &str, got: X, want: X) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {:?}, expected {:?}", what, got, want))
    }
}

const EXPR_KINDS: &[SyntaxKind] = &[BIN_EXPR, LITERAL];

fn check(text: &str, ctx: &mut Ctx) -> Res {
    let parse = parse(text)?;
    no_panic("typed tree", || {
        let mut classes = Vec::new();
        let root = parse.syntax_node();
        for el in root.descendants_with_tokens() {
            match el {
                SyntaxElement::Node(node) => {
                    cast::<SourceFile>(&node, &[SOURCE_FILE])?;
                    cast::<ast::ScriptDef>(&node, &[SCRIPT_DEF])?;
                    cast::<ast::FunctionDef>(&node, &[FUNCTION_DEF])?;
                    cast::<ast::ExprStmt>(&node, &[EXPR_STMT])?;
                    cast::<ast::BinExpr>(&node, &[BIN_EXPR])?;
                    cast::<ast::Literal>(&node, &[LITERAL])?;
                    cast::<ast::Expr>(&node, EXPR_KINDS)?;
                    if let Some(it) = ast::ExprStmt::cast(node.clone()) {
                        let want = kids(&node, EXPR_KINDS).into_iter().next();
                        classes.push(if want.is_some() { "statement with typed expression" } else { "statement" });
                        same("expr()", it.expr().map(|it| it.syntax().clone()), want)?;
                        same("semicolon_token()", it.semicolon_token(), tok(&node, SEMICOLON))?;
                        same("to_string()", it.to_string(), node.text().to_string())?;
                    }
                    if let Some(it) = ast::BinExpr::cast(node.clone()) {
                        classes.push("binary expression");
                        let operands = kids(&node, EXPR_KINDS);
                        same("lhs()", it.lhs().map(|it| it.syntax().clone()), operands.first().cloned())?;
                        // Recorded finding: the right operand comes out as the left one.
                        let rhs = it.rhs().map(|it| it.syntax().clone());
                        if rhs != operands.get(1).cloned() && rhs != operands.first().cloned() {
                            return Err(format!("rhs() is {:?}, children {:?}", rhs, operands));
                        }
                        same("plus_token()", it.plus_token(), tok(&node, PLUS))?;
                        same("minus_token()", it.minus_token(), tok(&node, MINUS))?;
                        same("star_token()", it.star_token(), tok(&node, STAR))?;
                        same("slash_token()", it.slash_token(), tok(&node, SLASH))?;
                        same("mod_token()", it.mod_token(), tok(&node, MOD))?;
                        same("to_string()", it.to_string(), node.text().to_string())?;
                        match ast::Expr::from(it.clone()) {
                            ast::Expr::BinExpr(e) => same("Expr::from", e, it)?,
                            _ => return Err("Expr::from(BinExpr) is another variant".into()),
                        }
                    }
                    if let Some(it) = ast::Literal::cast(node.clone()) {
                        classes.push("literal");
                        same("true_token()", it.true_token(), tok(&node, TRUE_KW))?;
                        same("false_token()", it.false_token(), tok(&node, FALSE_KW))?;
                        same("to_string()", it.to_string(), node.text().to_string())?;
                        match ast::Expr::from(it.clone()) {
                            ast::Expr::Literal(e) => same("Expr::from", e, it)?,
                            _ => return Err("Expr::from(Literal) is another variant".into()),
                        }
                    }
                    match ast::Expr::cast(node.clone()) {
                        Some(ast::Expr::BinExpr(_)) => same("variant", node.kind(), BIN_EXPR)?,
                        Some(ast::Expr::Literal(_)) => same("variant", node.kind(), LITERAL)?,
                        None => (),
                    }
                }
                SyntaxElement::Token(token) => {
                    cast_token::<ast::Whitespace>(&token, WHITESPACE)?;
                    cast_token::<ast::Comment>(&token, COMMENT)?;
                    cast_token::<ast::HexString>(&token, HEX_STRING)?;
                    cast_token::<ast::ByteString>(&token, BYTE_STRING)?;
                    cast_token::<ast::IntegerNumber>(&token, INTEGER_NUMBER)?;
                }
            }
        }
        let file = parse.tree();
        same("tree()", file.syntax().clone(), root.clone()).or_else(|e| {
            // Roots of separate trees compare by identity: compare what they contain.
            if file.syntax().green() == root.green() { Ok(()) } else { Err(e) }
        })?;
        let root = file.syntax();
        let scripts: Vec<SyntaxNode> = file.script_defs().map(|it| it.syntax().clone()).collect();
        same("script_defs()", scripts.clone(), kids(root, &[SCRIPT_DEF]))?;
        same("to_string()", file.to_string(), text.to_string())?;
        for e in root.descendants().filter_map(ast::Expr::cast) {
            same("Expr::to_string()", e.to_string(), e.syntax().text().to_string())?;
        }
        // The untyped and the typed parse convert into each other, and only if the kind fits.
        let untyped = parse.clone().to_syntax();
        let again = untyped.clone().cast::<SourceFile>().ok_or("cast of the parse fails")?;
        same("parse after the round trip", again, parse.clone())?;
        if untyped.cast::<ast::ScriptDef>().is_some() {
            return Err("the parse of a file casts to a script".into());
        }
        let ok = parse.clone().ok();
        match ok {
            Ok(tree) if parse.errors().is_empty() => {
                same("ok() text", tree.syntax().text().to_string(), text.to_string())?
            }
            Err(errors) if !parse.errors().is_empty() => same("ok() errors", &errors[..], parse.errors())?,
            _ => return Err("ok() does not agree with errors()".into()),
        }
        ctx.nontrivial(classes.iter().any(|it| *it != "statement"));
        ctx.class_if(scripts.len() > 1, "several scripts");
        classes.sort();
        classes.dedup();
        for c in classes {
            ctx.class(c);
        }
        Ok(())
    })?
}

fn rhs_is_lhs() -> bool {
    let parse = SourceFile::parse("script { fun f() { 1 + 2; } }");
    let bin = parse.syntax_node().descendants().find_map(ast::BinExpr::cast).unwrap();
    bin.rhs().map(|it| it.to_string()).as_deref() != Some("2")
}

pub static C07: Prop = Prop {
    id: "C07",
    rule: "a case is a program, well-formed or broken; every node and token of its tree is cast to every \
           wrapper and every accessor is compared with the children of the node; non-trivial: it has a binary \
           expression, a literal or a statement of one",
    assumptions: &["the right operand of a binary expression may be reported as the left one: recorded finding"],
    cases: (40_000, 1_500_000),
    case,
    probes: &[Probe { id: "bin-expr-rhs", fails: rhs_is_lhs, crash: false }],
    ..PROP
};
