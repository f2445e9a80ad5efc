//! Conversions of trees that a program built: raising documents and parts, lowering parts, grouping maths and paragraphs.

use crate::built::*;
use crate::compare::*;
use crate::oracle::*;
use crate::parsing::cov;
use crate::sym::*;
use latex_ast::ast1::IntoChunks as IntoChunks1;
use latex_ast::ast2::IntoChunks as IntoChunks2;
use latex_ast::{ast1, ast2, ast3};

// ---------------------------------------------------------------- trees that have something to raise

struct Raised {
    b: Builder,
}

impl Raised {
    fn list(&mut self, depth: u8) -> Vec<S> {
        let mut out = Vec::new();
        while self.b.nodes > 0 && choice(2) == 1 {
            self.b.nodes -= 1;
            out.push(if self.b.stage == 1 { self.one1(depth) } else { self.one2(depth) })
        }
        out
    }

    fn sub(&mut self, depth: u8) -> Vec<S> {
        if depth == 0 {
            Vec::new()
        } else {
            self.list(depth - 1)
        }
    }

    fn args(&mut self, depth: u8) -> Vec<Arg> {
        let mut out = Vec::new();
        while self.b.nodes > 0 && depth > 0 && choice(2) == 1 {
            self.b.nodes -= 1;
            let (p, v) = (self.b.prec(), self.b.v());
            out.push((p, v, self.list(depth - 1)))
        }
        out
    }

    /// the arguments of begin and end
    fn labelled(&mut self, depth: u8) -> Vec<Arg> {
        let kind = choice(4);
        if kind == 0 {
            return Vec::new();
        }
        let p = self.b.prec();
        let mut out = match kind {
            1 => vec![(p, V::Square, vec![S::Text("x".to_string())])],
            2 => vec![(p, V::Curly, vec![S::Text("x".to_string())])],
            _ => vec![(p, V::Curly, vec![S::Text(self.b.string(1))])],
        };
        out.extend(self.args(depth));
        out
    }

    fn one1(&mut self, depth: u8) -> S {
        match choice(5) {
            0 => {
                let n = self.b.longest;
                S::Text(self.b.string(n))
            }
            1 => S::Cmd(self.b.string(2), self.args(depth)),
            2 => S::Scope(self.b.v(), self.sub(depth)),
            3 => S::Cmd("begin".to_string(), self.labelled(depth)),
            _ => S::Cmd("end".to_string(), self.labelled(depth)),
        }
    }

    fn one2(&mut self, depth: u8) -> S {
        match choice(6) {
            0 => {
                let n = self.b.longest;
                S::Text(self.b.string(n))
            }
            1 => {
                let l = match choice(5) {
                    0 => "(".to_string(),
                    1 => ")".to_string(),
                    2 => "[".to_string(),
                    3 => "]".to_string(),
                    _ => self.b.string(2),
                };
                S::Cmd(l, self.args(depth))
            }
            2 => S::Scope(self.b.v(), self.sub(depth)),
            3 => S::Cmd("documentclass".to_string(), self.args(depth)),
            k => {
                let label = if k == 4 { "document" } else { "x" }.to_string();
                let begin = self.b.prec();
                let args = self.args(depth);
                let content = self.sub(depth);
                let end = self.b.prec();
                S::Env(Box::new(SEnv { label, args, content, begin, end }))
            }
        }
    }
}

/// No text directly follows another one, and no command that is a symbol has arguments: neither is ever read, and
/// what such a tree displays reads as another tree.
fn normal(n: &[S]) -> bool {
    for w in n.windows(2) {
        if let [S::Text(_), S::Text(_)] = w {
            return false;
        }
    }
    n.iter().all(|x| match x {
        S::Text(_) | S::Break(_) => true,
        S::Maths(_, _, c) | S::Scope(_, c) => normal(c),
        S::Cmd(l, a) => {
            let symbol = matches!(l.as_str(), "(" | ")" | "[" | "]");
            (a.is_empty() || !symbol) && a.iter().all(|(_, _, c)| normal(c))
        }
        S::Env(e) => e.args.iter().all(|(_, _, c)| normal(c)) && normal(&e.content),
    })
}

fn group1(line: &mut u32, v: V, c: &[S]) -> Group<N1> {
    let g = Group { v, line: *line, content: n1(c, *line) };
    *line += nl(&shown(c));
    g
}

fn arguments1(mut line: u32, a: &[Arg]) -> Vec<(String, Group<N1>)> {
    a.iter()
        .map(|(p, v, c)| {
            line += nl(p);
            (p.clone(), group1(&mut line, *v, c))
        })
        .collect()
}

/// a built tree as the reference sees it, with absolute lines
fn n1(n: &[S], mut line: u32) -> Vec<N1> {
    let mut out = Vec::new();
    for x in n {
        let start = line;
        line += nl(&shown(core::slice::from_ref(x)));
        let mut at = start;
        let x = match x {
            S::Text(s) => X1::Text(s.clone()),
            S::Scope(v, c) => X1::Scope(group1(&mut at, *v, c)),
            S::Cmd(l, a) => X1::Cmd(l.clone(), arguments1(start + nl(l), a)),
            _ => unreachable!(),
        };
        out.push(N1 { line: start, x })
    }
    out
}

fn group2(line: &mut u32, v: V, c: &[S]) -> Group<N2> {
    let g = Group { v, line: *line, content: n2(c, *line) };
    *line += nl(&shown(c));
    g
}

fn arguments2(line: &mut u32, a: &[Arg]) -> Vec<(String, Group<N2>)> {
    a.iter()
        .map(|(p, v, c)| {
            *line += nl(p);
            (p.clone(), group2(line, *v, c))
        })
        .collect()
}

fn n2(n: &[S], mut line: u32) -> Vec<N2> {
    let mut out = Vec::new();
    for x in n {
        let start = line;
        line += nl(&shown(core::slice::from_ref(x)));
        let mut at = start;
        let x = match x {
            S::Text(s) => X2::Text(s.clone()),
            S::Scope(v, c) => X2::Scope(group2(&mut at, *v, c)),
            S::Cmd(l, a) => {
                at += nl(l);
                X2::Cmd(l.clone(), arguments2(&mut at, a))
            }
            S::Env(e) => {
                at += nl(&e.begin) + nl(&e.label);
                let args = arguments2(&mut at, &e.args);
                let content = n2(&e.content, at);
                X2::Env(Env { label: e.label.clone(), args, line: at, content, begin: e.begin.clone(), end: e.end.clone() })
            }
            _ => unreachable!(),
        };
        out.push(N2 { line: start, x })
    }
    out
}

fn same(d: Diff, msg: &str) {
    check(matches!(d, Diff::Same), msg)
}

fn same_error(a: &latex_ast::Error, b: &latex_ast::Error) -> bool {
    a == b
}

/// a part raised on its own is what it is in a document of its own
macro_rules! alone {
    ($part:expr, $doc:expr, $pat:path) => {
        match ($part, $doc) {
            (Ok(p), Ok(d)) => {
                let c = d;
                check(c.len() == 1, "C22: a part that raises to several chunks");
                match c.into_iter().next().map(|c| c.variant_owned()) {
                    Some($pat(q)) => check(p == q, "C22: a part raised on its own is another one"),
                    _ => fail("C22: a part raised on its own is of another kind"),
                }
            }
            (Err(a), Err(b)) => check(same_error(&a, &b), "C22: a part raised on its own is rejected otherwise"),
            _ => fail("C22: a part raised on its own is accepted or rejected otherwise"),
        }
    };
}

/// C22: raising what a program built gives what the reference makes of it
#[no_mangle]
pub extern "C-unwind" fn p_c22() {
    let mut b = Raised { b: Builder::new() };
    let depth = b.b.depth;
    let n = crowd(b.b.stage, b.list(depth));
    if !normal(&n) {
        return;
    }
    let text = shown(&n);
    out(&text);
    let accept = "C22: a tree that was built is accepted or rejected wrongly";
    let differs = "C22: a tree that was built raises to another one";
    let shows = "C22: a tree that was raised displays another text";
    let wrong = "C22: a tree that was built is rejected for the wrong reason, or in the wrong line";
    if b.b.stage == 1 {
        match (ast2::Document::try_from(ast1::Document::new_unchecked(r1::chunks(&n))), stage2(&n1(&n, 1))) {
            (Ok(d), Ok(want)) => {
                cover(cov::OK);
                for x in &want {
                    if let X2::Env(_) = x.x {
                        cover(cov::ENV)
                    }
                }
                same(tree2(d.chunks(), &want, 1), differs);
                check(d.to_string() == text, shows)
            }
            (Err(a), Err(b)) => {
                cover(cov::ERR);
                same(error(&a, &b), wrong)
            }
            _ => fail(accept),
        }
        for x in &n {
            let alone = |x: &S| ast2::Document::try_from(ast1::Document::new_unchecked(r1::chunks(core::slice::from_ref(x)))).map(|d| d.chunks_owned());
            match x {
                S::Scope(v, c) => alone!(ast2::Scope::try_from(r1::scope(*v, c)), alone(x), ast2::ChunkVariant::Scope),
                S::Cmd(l, a) if l != "begin" && l != "end" => {
                    alone!(ast2::Command::try_from(r1::command(l, a)), alone(x), ast2::ChunkVariant::Command)
                }
                _ => {}
            }
        }
        return;
    }
    let reference = n2(&n, 1);
    match (ast3::Document::try_from(ast2::Document::new_unchecked(r2::chunks(&n))), doc3(&reference)) {
        (Ok(d), Ok(want)) => {
            cover(cov::OK);
            let shown = d.to_string();
            let (class, options, pre, body, args, begin, end, post) = d.decompose();
            check(class == want.class && options == want.options, differs);
            same(tree3(&pre, &want.preamble, 1), differs);
            same(tree3(&post, &want.trailing, want.trailing_line), differs);
            if let Some(e) = &want.body {
                cover(cov::DOCUMENT);
                same(tree3(&body, &e.content, e.line), differs);
                same(arguments3(&args, &e.args), differs);
                check(begin == e.begin && end == e.end, differs);
                check(shown == text, shows)
            } else {
                check(body.is_empty() && args.is_empty() && post.is_empty() && begin.is_empty() && end.is_empty(), differs)
            }
        }
        (Err(a), Err(b)) => {
            cover(cov::ERR);
            same(error(&a, &b), wrong)
        }
        _ => fail(accept),
    }
    for x in &n {
        let alone = |x: &S| ast3::MathsBlock::from_chunks(r2::chunks(core::slice::from_ref(x)));
        match x {
            S::Scope(v, c) => alone!(ast3::Scope::try_from(r2::scope(*v, c)), alone(x), ast3::ChunkVariant::Scope),
            S::Cmd(l, a) if !matches!(l.as_str(), "(" | ")" | "[" | "]") => {
                alone!(ast3::Command::try_from(r2::command(l, a)), alone(x), ast3::ChunkVariant::Command)
            }
            S::Env(e) => alone!(ast3::Environment::try_from(r2::env(e)), alone(x), ast3::ChunkVariant::Environment),
            _ => {}
        }
    }
}

/// C11 (built trees): maths in chunks a program built
#[no_mangle]
pub extern "C-unwind" fn p_c11_built() {
    let mut b = Raised { b: Builder::new() };
    let depth = b.b.depth;
    let n = crowd(b.b.stage, b.list(depth));
    if !normal(&n) {
        return;
    }
    let text = shown(&n);
    out(&text);
    match (ast3::MathsBlock::from_chunks(r2::chunks(&n)), stage3(&n2(&n, 1))) {
        (Ok(c), Ok(want)) => {
            cover(cov::OK);
            for x in &want {
                if let X3::Maths(..) = x.x {
                    cover(cov::MATHS)
                }
            }
            same(tree3(&c, &want, 1), "C11: maths blocks of chunks that were built differ from the reference");
            let shown: String = c.iter().map(ToString::to_string).collect();
            check(shown == text, "C11: chunks with maths blocks display another text")
        }
        (Err(a), Err(b)) => {
            cover(cov::ERR);
            if matches!(b.kind, EK::UnclosedMaths | EK::UnexpectedMathsEnd) {
                cover(cov::MATHSERR)
            }
            same(error(&a, &b), "C11: chunks that were built are rejected for the wrong reason, or in the wrong line")
        }
        _ => fail("C11: chunks that were built are accepted or rejected wrongly"),
    }
}

/// C12 (built trees): paragraph breaks in chunks a program built
#[no_mangle]
pub extern "C-unwind" fn p_c12_built() {
    let mut b = Builder::new();
    let n = b.top();
    let lines = line_numbers(&n);
    let text = shown(&n);
    out(&text);
    cover(cov::OK);
    let c = r3::chunks(&n);
    let mut want = Vec::new();
    for ((x, l), c) in n.iter().zip(lines).zip(&c) {
        if let S::Text(s) = x {
            let mut p = Vec::new();
            paragraphs(l, &s.chars().collect::<Vec<_>>(), &mut p);
            for x in &p {
                if let X3::Break(_) = x.x {
                    cover(cov::BREAK)
                }
            }
            want.extend(build3(&p, 1))
        } else {
            want.push(c.clone())
        }
    }
    let real = ast3::Paragraph::from_chunks(c);
    check(real == want, "C12: paragraph breaks of chunks that were built differ from the reference");
    check(ast3::Paragraph::from_chunks(real.clone()) == real, "C12: looking for paragraph breaks again finds others")
}

/// C23: parts lowered on their own
#[no_mangle]
pub extern "C-unwind" fn p_c23() {
    let mut b = Builder::new();
    if b.nodes == 0 {
        return;
    }
    b.nodes -= 1;
    let x = b.part();
    if !faults(b.stage, core::slice::from_ref(&x)).is_empty() {
        return;
    }
    let text = shown(core::slice::from_ref(&x));
    out(&text);
    cover(cov::OK);
    let line = if template().len() > 6 { 1 << 20 } else { u32::from_le_bytes([byte(), byte(), byte(), byte()]) };
    assume((line > 0) & (line < 1 << 31));
    let shows = "C23: a part that was lowered displays another text";
    let lined = "C23: line numbers of a part that was lowered";
    let forms = "C23: the ways to lower a part differ";
    if b.stage == 2 {
        let low = ast2::Chunk::new_unchecked(line, r2::variant(&x)).into_chunks();
        let t: String = low.iter().map(ToString::to_string).collect();
        check(t == text, shows);
        check(lined1(&low, line), lined);
        match &x {
            S::Scope(v, c) => {
                let s = ast1::Scope::from(r2::scope(*v, c));
                check(s.to_string() == text, shows);
                check(lined1(s.chunks(), 1), lined);
                check(s == r2::scope(*v, c).to_ast1_scope(), forms);
                check(*low[0].variant() == ast1::ChunkVariant::Scope(s), forms)
            }
            S::Cmd(l, a) => {
                let c = ast1::Command::from(r2::command(l, a));
                check(*low[0].variant() == ast1::ChunkVariant::Command(c), forms)
            }
            _ => {}
        }
        return;
    }
    let low = ast3::Chunk::new_unchecked(line, r3::variant(&x)).into_chunks();
    let t: String = low.iter().map(ToString::to_string).collect();
    check(t == text, shows);
    check(lined2(&low, line), lined);
    match &x {
        S::Scope(v, c) => {
            let s = ast2::Scope::from(r3::scope(*v, c));
            check(s.to_string() == text, shows);
            check(*low[0].variant() == ast2::ChunkVariant::Scope(s), forms)
        }
        S::Cmd(l, a) => {
            let c = ast2::Command::from(r3::command(l, a));
            check(*low[0].variant() == ast2::ChunkVariant::Command(c), forms)
        }
        S::Env(e) => {
            let e = ast2::Environment::from(r3::env(e));
            check(e.to_string() == text, shows);
            check(*low[0].variant() == ast2::ChunkVariant::Environment(e), forms)
        }
        S::Maths(b, d, c) => {
            let low = ast3::MathsBlock::new_unchecked(r3::mv(*b), r3::mt(*d), r3::chunks(c)).into_chunks();
            let t: String = low.iter().map(ToString::to_string).collect();
            check(t == text, shows);
            check(lined2(&low, 1), lined)
        }
        _ => {}
    }
}
