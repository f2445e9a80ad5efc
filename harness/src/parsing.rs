//! Properties of parsing and lowering: the input is a document.

use crate::compare::*;
use crate::gen;
use crate::oracle::*;
use crate::sym::*;
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3};
use std::str::FromStr;

/// the situations a check has to reach (see driver)
pub mod cov {
    pub const OK: u32 = 1;
    pub const ERR: u32 = 2;
    pub const MULTILINE: u32 = 3;
    pub const FRAGMENT: u32 = 4;
    pub const COMMENT: u32 = 5;
    pub const ENV: u32 = 6;
    pub const MATHS: u32 = 7;
    pub const BREAK: u32 = 8;
    pub const DOCUMENT: u32 = 9;
    pub const CLASS: u32 = 10;
    pub const OPTION: u32 = 11;
    pub const TRAILING: u32 = 12;
    pub const ENVERR: u32 = 13;
    pub const MATHSERR: u32 = 14;
    pub const CLASSERR: u32 = 15;
}

fn observe<T: ToString>(r: &Result<T, latex_ast::Error>) {
    match r {
        Ok(d) => {
            cover(cov::OK);
            out(&d.to_string())
        }
        Err(e) => {
            cover(cov::ERR);
            out(&e.line.to_string())
        }
    }
}

/// C01: stage 1 reproduces the document without its comments, and reading that again gives the same tree
#[no_mangle]
pub extern "C-unwind" fn p_c01() {
    let s = gen::text();
    let r = ast1::Document::from_str(&s);
    observe(&r);
    if let Ok(d) = r {
        let shown = d.to_string();
        check(shown == strip(&s), "C01: stage 1 Display differs from the document");
        match ast1::Document::from_str(&shown) {
            Ok(again) => check(again == d, "C01: reading the displayed document gives another tree"),
            Err(_) => fail("C01: the displayed document is rejected"),
        }
    }
}

fn use_all<T: Validate + Lines>(d: &T) {
    let _ = d.validate();
    let _ = d.lines();
}

/// C02: reading, showing, checking and lowering never panic, at any stage
#[no_mangle]
pub extern "C-unwind" fn p_c02() {
    let s = gen::text();
    let one = ast1::Document::from_str(&s);
    if let Ok(d) = &one {
        use_all(d);
        let _ = d.to_string();
    }
    let two = ast2::Document::from_str(&s);
    if let Ok(d) = &two {
        use_all(d);
        let _ = d.to_string();
        let _ = ast1::Document::from(d.clone());
    }
    let three = ast3::Document::from_str(&s);
    observe(&three);
    if let Ok(d) = &three {
        use_all(d);
        let two = ast2::Document::from(d.clone());
        use_all(&two);
        let _ = two.to_string();
        let _ = ast1::Document::from(two);
    }
}

const STRUCTURE: u8 = 1;
const LINES: u8 = 2;
const ERRORS: u8 = 4;

fn judge(d: Diff, what: u8, structure: &str, lines: &str) {
    match d {
        Diff::Same => {}
        Diff::Lines => {
            if what & LINES != 0 {
                fail(lines)
            }
        }
        Diff::Structure => {
            if what & STRUCTURE != 0 {
                fail(structure)
            }
        }
    }
}

fn judge_error(real: &latex_ast::Error, e: &E, what: u8, structure: &str, lines: &str) {
    if what & ERRORS != 0 {
        judge(error(real, e), what, structure, lines)
    }
}

fn stage1_against(what: u8, structure: &str, lines: &str, accept: &str) {
    let s = gen::text();
    let r = ast1::Document::from_str(&s);
    observe(&r);
    let want = stage1(&lex(&strip(&s)));
    match (&r, &want) {
        (Ok(d), Ok(n)) => judge(tree1(d.chunks(), n, 1), what, structure, lines),
        (Err(a), Err(b)) => judge_error(a, b, what, structure, lines),
        _ => {
            if what & STRUCTURE != 0 {
                fail(accept)
            }
        }
    }
}

/// C03: stage 1 line numbers
#[no_mangle]
pub extern "C-unwind" fn p_c03() {
    stage1_against(LINES | ERRORS, "", "C03: line number of a stage 1 chunk or error", "")
}

/// C04: stage 1 structure and acceptance
#[no_mangle]
pub extern "C-unwind" fn p_c04() {
    stage1_against(
        STRUCTURE | ERRORS,
        "C04: stage 1 tree or error differs from the reference",
        "",
        "C04: stage 1 accepts exactly the documents the reference accepts",
    )
}

/// C05: stage 2 reproduces the document without its comments, and reading that again gives the same tree
#[no_mangle]
pub extern "C-unwind" fn p_c05() {
    let s = gen::text();
    let r = ast2::Document::from_str(&s);
    observe(&r);
    if let Ok(d) = r {
        has_env(d.chunks());
        let shown = d.to_string();
        check(shown == strip(&s), "C05: stage 2 Display differs from the document");
        match ast2::Document::from_str(&shown) {
            Ok(again) => check(again == d, "C05: reading the displayed document gives another tree"),
            Err(_) => fail("C05: the displayed document is rejected"),
        }
    }
}

fn has_env(c: &[ast2::Chunk]) {
    for x in c {
        if let ast2::ChunkVariant::Environment(_) = x.variant() {
            cover(cov::ENV)
        }
    }
}

/// C06: lowering a stage 2 document gives the stage 1 document
#[no_mangle]
pub extern "C-unwind" fn p_c06() {
    let s = gen::text();
    let r = ast2::Document::from_str(&s);
    observe(&r);
    if let Ok(d) = r {
        has_env(d.chunks());
        match ast1::Document::from_str(&s) {
            Ok(one) => check(ast1::Document::from(d) == one, "C06: the lowered document is not the stage 1 document"),
            Err(_) => fail("C06: stage 2 accepts what stage 1 rejects"),
        }
    }
}

fn stage2_against(what: u8, structure: &str, lines: &str, accept: &str) {
    let s = gen::text();
    let r = ast2::Document::from_str(&s);
    observe(&r);
    let want = stage1(&lex(&strip(&s))).and_then(|n| stage2(&n));
    match (&r, &want) {
        (Ok(d), Ok(n)) => {
            has_env(d.chunks());
            judge(tree2(d.chunks(), n, 1), what, structure, lines)
        }
        (Err(a), Err(b)) => {
            if matches!(b.kind, EK::NoEnvironmentLabel | EK::UnexpectedEnd(_) | EK::UnclosedEnvironment(_) | EK::TooManyArgsEnd) {
                cover(cov::ENVERR)
            }
            judge_error(a, b, what, structure, lines)
        }
        _ => {
            if what & STRUCTURE != 0 {
                fail(accept)
            }
        }
    }
}

/// C07: environments are the matching pairs of begin and end
#[no_mangle]
pub extern "C-unwind" fn p_c07() {
    stage2_against(
        STRUCTURE | ERRORS,
        "C07: stage 2 tree or error differs from the reference",
        "",
        "C07: stage 2 accepts exactly the documents the reference accepts",
    )
}

/// C08: stage 2 line numbers
#[no_mangle]
pub extern "C-unwind" fn p_c08() {
    stage2_against(LINES | ERRORS, "", "C08: line number of a stage 2 chunk or error", "")
}

const EMPTY_DOCUMENT: &str = "\\begin{document}\\end{document}";

/// whether the document has a `document` environment at the top level (known finding without one)
fn fragment(s: &str) -> bool {
    match ast2::Document::from_str(s) {
        Ok(d) => !d.chunks().iter().any(|c| match c.variant() {
            ast2::ChunkVariant::Environment(e) => e.label() == "document",
            _ => false,
        }),
        Err(_) => fail("stage 3 accepts what stage 2 rejects"),
    }
}

/// C09: stage 3 reproduces the document without its comments, and reading that again gives the same tree
#[no_mangle]
pub extern "C-unwind" fn p_c09() {
    let s = gen::text();
    let r = ast3::Document::from_str(&s);
    observe(&r);
    if let Ok(d) = r {
        let shown = d.to_string();
        let mut want = strip(&s);
        if fragment(&s) {
            // known finding: an empty document environment is appended
            cover(cov::FRAGMENT);
            want.push_str(EMPTY_DOCUMENT);
            check(shown == want, "C09: stage 3 Display differs from the document (a fragment)");
            return;
        }
        cover(cov::DOCUMENT);
        check(shown == want, "C09: stage 3 Display differs from the document");
        match ast3::Document::from_str(&shown) {
            Ok(again) => check(again == d, "C09: reading the displayed document gives another tree"),
            Err(_) => fail("C09: the displayed document is rejected"),
        }
    }
}

/// adjacent texts merged, at every level
fn merged(c: &[ast2::Chunk]) -> Vec<ast2::Chunk> {
    let scope = |s: &ast2::Scope| ast2::Scope::new_unchecked(merged(s.chunks()), s.variant());
    let args = |a: &[(String, ast2::Scope)]| a.iter().map(|(p, s)| (p.clone(), scope(s))).collect::<Vec<_>>();
    let mut out: Vec<ast2::Chunk> = Vec::with_capacity(c.len());
    for x in c {
        let v = match x.variant() {
            ast2::ChunkVariant::Text(s) => {
                if let Some(ast2::ChunkVariant::Text(t)) = out.last_mut().map(|l| l.variant_mut()) {
                    t.push_str(s);
                    continue;
                }
                ast2::ChunkVariant::Text(s.clone())
            }
            ast2::ChunkVariant::Scope(s) => ast2::ChunkVariant::Scope(scope(s)),
            ast2::ChunkVariant::Command(c) => ast2::ChunkVariant::Command(ast2::Command::new_unchecked(c.label().clone(), args(c.arguments()))),
            ast2::ChunkVariant::Environment(e) => {
                let (l, a, c, b, z) = e.clone().decompose();
                ast2::ChunkVariant::Environment(ast2::Environment::new_unchecked(l, args(&a), merged(&c), b, z))
            }
        };
        out.push(ast2::Chunk::new_unchecked(x.line_no(), v))
    }
    out
}

/// C10: lowering a stage 3 document gives the stage 2 document, and raising that again the stage 3 document
#[no_mangle]
pub extern "C-unwind" fn p_c10() {
    let s = gen::text();
    let r = ast3::Document::from_str(&s);
    observe(&r);
    if let Ok(d) = r {
        let Ok(mut two) = ast2::Document::from_str(&s) else { fail("C10: stage 3 accepts what stage 2 rejects") };
        if fragment(&s) {
            cover(cov::FRAGMENT);
            two.push_unchecked(ast2::ChunkVariant::Environment(ast2::Environment::new_unchecked(
                "document".to_string(),
                Vec::new(),
                Vec::new(),
                String::new(),
                String::new(),
            )))
        } else {
            cover(cov::DOCUMENT)
        }
        let low = ast2::Document::from(d.clone());
        check(low.to_string() == two.to_string(), "C10: the lowered document has another text");
        check(merged(low.chunks()) == *two.chunks(), "C10: the lowered document is not the stage 2 document");
        match ast3::Document::try_from(low) {
            Ok(again) => check(again == d, "C10: raising the lowered document gives another one"),
            Err(_) => fail("C10: the lowered document is rejected"),
        }
    }
}

fn cover3(n: &[N3]) {
    for x in n {
        match &x.x {
            X3::Maths(_, _, c) => {
                cover(cov::MATHS);
                cover3(c)
            }
            X3::Break(_) => cover(cov::BREAK),
            X3::Env(e) => {
                cover(cov::ENV);
                cover3(&e.content)
            }
            X3::Scope(g) => cover3(&g.content),
            X3::Cmd(_, a) => {
                for (_, g) in a {
                    cover3(&g.content)
                }
            }
            X3::Text(_) => {}
        }
    }
}

struct Messages {
    structure: &'static str,
    lines: &'static str,
    accept: &'static str,
    sections: &'static str,
    class: &'static str,
}

const TREE: u8 = 1 | 4;
const CLASS: u8 = 8;
const SECTIONS: u8 = 16;

fn stage3_against(what: u8, m: &Messages) {
    let s = gen::text();
    let r = ast3::Document::from_str(&s);
    observe(&r);
    let want = stage1(&lex(&strip(&s))).and_then(|n| stage2(&n)).and_then(|n| doc3(&n));
    match (&r, &want) {
        (Ok(d), Ok(w)) => {
            cover3(&w.preamble);
            cover3(&w.trailing);
            if let Some(b) = &w.body {
                cover(cov::DOCUMENT);
                cover3(&b.content)
            }
            if !w.trailing.is_empty() {
                cover(cov::TRAILING)
            }
            if w.class.is_some() {
                cover(cov::CLASS)
            }
            if !w.options.is_empty() {
                cover(cov::OPTION)
            }
            let (class, options, preamble, body, args, begin, end, trailing) = d.clone().decompose();
            if what & CLASS != 0 {
                check(class == w.class && options == w.options, m.class)
            }
            if what & (STRUCTURE | LINES | SECTIONS) != 0 {
                judge(tree3(&preamble, &w.preamble, 1), what, m.structure, m.lines);
                judge(tree3(&trailing, &w.trailing, w.trailing_line), what, m.structure, m.lines);
                match &w.body {
                    Some(b) => {
                        judge(tree3(&body, &b.content, b.line), what, m.structure, m.lines);
                        judge(arguments3(&args, &b.args), what, m.structure, m.lines);
                        if what & SECTIONS != 0 {
                            check(begin == b.begin && end == b.end, m.sections)
                        }
                    }
                    None => {
                        if what & SECTIONS != 0 {
                            let empty = body.is_empty() && args.is_empty() && trailing.is_empty();
                            check(empty && begin.is_empty() && end.is_empty(), m.sections)
                        }
                    }
                }
            }
            if what & SECTIONS != 0 {
                let same = *d.chunks_preamable() == preamble && *d.chunks_body() == body && *d.chunks_trailing() == trailing;
                check(same, m.sections)
            }
        }
        (Err(a), Err(b)) => {
            if matches!(b.kind, EK::UnclosedMaths | EK::UnexpectedMathsEnd) {
                cover(cov::MATHSERR)
            }
            let class = matches!(b.kind, EK::TooManyArgsDocumentClass | EK::DoubleDocumentClass);
            if class {
                cover(cov::CLASSERR)
            }
            if what & CLASS == 0 || class {
                judge_error(a, b, what, m.structure, m.lines)
            }
        }
        _ => {
            if what & STRUCTURE != 0 {
                fail(m.accept)
            }
        }
    }
}

/// C11: maths blocks
#[no_mangle]
pub extern "C-unwind" fn p_c11() {
    stage3_against(
        TREE,
        &Messages {
            structure: "C11: maths blocks (or the error about them) differ from the reference",
            lines: "",
            accept: "C11: stage 3 accepts exactly the documents the reference accepts",
            sections: "",
            class: "",
        },
    )
}

/// C12: paragraphs
#[no_mangle]
pub extern "C-unwind" fn p_c12() {
    stage3_against(
        TREE,
        &Messages {
            structure: "C12: paragraphs differ from the reference",
            lines: "",
            accept: "C12: stage 3 accepts exactly the documents the reference accepts",
            sections: "",
            class: "",
        },
    )
}

/// C13: document class and options
#[no_mangle]
pub extern "C-unwind" fn p_c13() {
    stage3_against(
        CLASS | TREE,
        &Messages {
            structure: "C13: preamble or error differs from the reference",
            lines: "",
            accept: "C13: stage 3 accepts exactly the documents the reference accepts",
            sections: "",
            class: "C13: document class or options differ from the reference",
        },
    )
}

/// C17: stage 3 line numbers
#[no_mangle]
pub extern "C-unwind" fn p_c17() {
    stage3_against(
        LINES | ERRORS,
        &Messages { structure: "", lines: "C17: line number of a stage 3 chunk or error", accept: "", sections: "", class: "" },
    )
}

/// C18: sections of the document
#[no_mangle]
pub extern "C-unwind" fn p_c18() {
    stage3_against(
        TREE | SECTIONS,
        &Messages {
            structure: "C18: preamble, body or trailing section differs from the reference",
            lines: "",
            accept: "C18: stage 3 accepts exactly the documents the reference accepts",
            sections: "C18: the parts of the document environment differ from the reference",
            class: "",
        },
    )
}

/// C14: lines() of what is read is the number of lines it displays
#[no_mangle]
pub extern "C-unwind" fn p_c14() {
    let s = gen::text();
    if let Ok(d) = ast1::Document::from_str(&s) {
        check(d.lines() == nl(&d.to_string()) + 1, "C14: lines() of a stage 1 document");
        for c in d.chunks() {
            check(c.lines() == nl(&c.to_string()) + 1, "C14: lines() of a stage 1 chunk")
        }
    }
    if let Ok(d) = ast2::Document::from_str(&s) {
        check(d.lines() == nl(&d.to_string()) + 1, "C14: lines() of a stage 2 document");
        for c in d.chunks() {
            check(c.lines() == nl(&c.to_string()) + 1, "C14: lines() of a stage 2 chunk")
        }
    }
    let r = ast3::Document::from_str(&s);
    observe(&r);
    if let Ok(d) = r {
        let n = nl(&d.to_string()) + 1;
        if n > 1 {
            cover(cov::MULTILINE)
        }
        check(d.lines() == n, "C14: lines() of a stage 3 document");
        for c in d.chunks_preamable().iter().chain(d.chunks_body()).chain(d.chunks_trailing()) {
            check(c.lines() == nl(&c.to_string()) + 1, "C14: lines() of a stage 3 chunk")
        }
    }
}

/// C15 (parsed documents): a document that was read is valid, but for characters it holds as they are
#[no_mangle]
pub extern "C-unwind" fn p_c15_parsed() {
    let s = gen::text();
    let ok = |r: Result<(), latex_ast::InternalError>| match r {
        Ok(()) => true,
        Err(latex_ast::InternalError::UnsanitisedCharInString(_)) => true,
        Err(_) => false,
    };
    if let Ok(d) = ast1::Document::from_str(&s) {
        check(ok(d.validate()), "C15: a stage 1 document that was read is invalid")
    }
    if let Ok(d) = ast2::Document::from_str(&s) {
        check(ok(d.validate()), "C15: a stage 2 document that was read is invalid")
    }
    let r = ast3::Document::from_str(&s);
    observe(&r);
    if let Ok(d) = r {
        check(ok(d.validate()), "C15: a stage 3 document that was read is invalid")
    }
}

/// C19: comments change nothing but the text they hold
#[no_mangle]
pub extern "C-unwind" fn p_c19() {
    let s = gen::text();
    let t = strip(&s);
    if t != s {
        cover(cov::COMMENT)
    }
    check(ast1::Document::from_str(&s) == ast1::Document::from_str(&t), "C19: a comment changes the stage 1 result");
    check(ast2::Document::from_str(&s) == ast2::Document::from_str(&t), "C19: a comment changes the stage 2 result");
    let r = ast3::Document::from_str(&s);
    observe(&r);
    check(r == ast3::Document::from_str(&t), "C19: a comment changes the stage 3 result");
}
