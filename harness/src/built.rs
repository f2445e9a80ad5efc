//! Properties of trees that a program builds: the tree itself is symbolic (its shape, its labels, its texts,
//! its line numbers).

use crate::oracle::{nl, V};
use crate::parsing::cov;
use crate::sym::*;
use crate::{compare, gen};
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3, InternalError};

/// A tree as specified, independent of the crate's types
#[derive(Clone)]
pub enum S {
    Text(String),
    Break(String),
    Maths(bool, bool, Vec<S>),
    Scope(V, Vec<S>),
    Cmd(String, Vec<Arg>),
    Env(Box<SEnv>),
}

pub type Arg = (String, V, Vec<S>);

#[derive(Clone)]
pub struct SEnv {
    pub label: String,
    pub args: Vec<Arg>,
    pub content: Vec<S>,
    pub begin: String,
    pub end: String,
}

fn show(n: &[S], out: &mut String) {
    for x in n {
        match x {
            S::Text(s) | S::Break(s) => out.push_str(s),
            S::Maths(b, d, c) => {
                let (o, z) = match (b, d) {
                    (true, true) => ("\\[", "\\]"),
                    (true, false) => ("\\(", "\\)"),
                    (false, true) => ("$$", "$$"),
                    (false, false) => ("$", "$"),
                };
                out.push_str(o);
                show(c, out);
                out.push_str(z)
            }
            S::Scope(v, c) => {
                out.push(v.open());
                show(c, out);
                out.push(v.close())
            }
            S::Cmd(l, a) => {
                out.push('\\');
                out.push_str(l);
                show_args(a, out)
            }
            S::Env(e) => {
                for (cmd, prec) in [("\\begin", &e.begin), ("\\end", &e.end)] {
                    if cmd == "\\end" {
                        show_args(&e.args, out);
                        show(&e.content, out)
                    }
                    out.push_str(cmd);
                    out.push_str(prec);
                    out.push('{');
                    out.push_str(&e.label);
                    out.push('}')
                }
            }
        }
    }
}

fn show_args(a: &[Arg], out: &mut String) {
    for (p, v, c) in a {
        out.push_str(p);
        out.push(v.open());
        show(c, out);
        out.push(v.close())
    }
}

pub fn shown(n: &[S]) -> String {
    let mut s = String::new();
    show(n, &mut s);
    s
}

/// What is wrong with a tree, at any depth
struct Faults {
    stage: u8,
    all: Vec<InternalError>,
}

impl Faults {
    fn chars(&mut self, s: &str) {
        for c in s.chars() {
            if "\\%{}[]()".contains(c) {
                self.all.push(InternalError::UnsanitisedCharInString(c))
            }
        }
    }

    pub fn args(&mut self, a: &[Arg]) {
        for (_, _, c) in a {
            self.chunks(c)
        }
    }

    fn chunks(&mut self, n: &[S]) {
        for x in n {
            self.chunk(x)
        }
    }

    fn chunk(&mut self, x: &S) {
        match x {
            S::Text(s) => {
                self.chars(s);
                if self.stage == 3 && unbroken(s) {
                    self.all.push(InternalError::UnbrokenParagraph)
                }
            }
            S::Break(s) => {
                if s.chars().any(|c| !c.is_whitespace()) {
                    self.all.push(InternalError::ParagraghBreakNonwhitespace)
                }
                if nl(s) < 2 {
                    self.all.push(InternalError::ParagraphBreakTooShort)
                }
            }
            S::Maths(_, _, c) | S::Scope(_, c) => self.chunks(c),
            S::Cmd(l, a) => {
                if self.stage > 1 {
                    if l == "begin" {
                        self.all.push(InternalError::BeginCommand)
                    }
                    if l == "end" {
                        self.all.push(InternalError::EndCommand)
                    }
                }
                // a label that is one character may be any
                if l.len() != 1 {
                    self.chars(l)
                }
                self.args(a)
            }
            S::Env(e) => {
                self.chars(&e.label);
                self.args(&e.args);
                self.chunks(&e.content)
            }
        }
    }
}

/// a blank line: two newlines with nothing but whitespace in between
fn unbroken(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    for i in 0..c.len() {
        if c[i] == '\n' {
            let mut j = i + 1;
            while j < c.len() && c[j].is_whitespace() {
                if c[j] == '\n' {
                    return true;
                }
                j += 1
            }
        }
    }
    false
}

pub fn faults(stage: u8, n: &[S]) -> Vec<InternalError> {
    let mut f = Faults { stage, all: Vec::new() };
    f.chunks(n);
    f.all
}

/// the line every chunk starts in
pub fn line_numbers(n: &[S]) -> Vec<u32> {
    let mut out = Vec::with_capacity(n.len());
    let mut line = 1;
    for x in n {
        out.push(line);
        line += nl(&shown(core::slice::from_ref(x)))
    }
    out
}

macro_rules! scope_variant {
    ($ast:ident, $v:expr) => {
        match $v {
            V::Curly => $ast::ScopeVariant::Curly,
            V::Round => $ast::ScopeVariant::Round,
            V::Square => $ast::ScopeVariant::Square,
        }
    };
}

macro_rules! common {
    ($ast:ident) => {
        pub fn scope(v: V, c: &[S]) -> $ast::Scope {
            $ast::Scope::new_unchecked(chunks(c), scope_variant!($ast, v))
        }
        pub fn args(a: &[Arg]) -> Vec<(String, $ast::Scope)> {
            a.iter().map(|(p, v, c)| (p.clone(), scope(*v, c))).collect()
        }
        /// chunks numbered from line 1
        pub fn chunks(n: &[S]) -> Vec<$ast::Chunk> {
            n.iter().zip(line_numbers(n)).map(|(x, l)| $ast::Chunk::new_unchecked(l, variant(x))).collect()
        }
        pub fn at(n: &[S], lines: &[u32]) -> Vec<$ast::Chunk> {
            n.iter().zip(lines).map(|(x, l)| $ast::Chunk::new_unchecked(*l, variant(x))).collect()
        }
        pub fn command(l: &str, a: &[Arg]) -> $ast::Command {
            $ast::Command::new_unchecked(l.to_string(), args(a))
        }
    };
}

macro_rules! environment {
    ($ast:ident) => {
        pub fn env(e: &SEnv) -> $ast::Environment {
            $ast::Environment::new_unchecked(e.label.clone(), args(&e.args), chunks(&e.content), e.begin.clone(), e.end.clone())
        }
    };
}

pub mod r1 {
    use super::*;
    common!(ast1);
    pub fn variant(x: &S) -> ast1::ChunkVariant {
        match x {
            S::Text(s) => ast1::ChunkVariant::Text(s.clone()),
            S::Scope(v, c) => ast1::ChunkVariant::Scope(scope(*v, c)),
            S::Cmd(l, a) => ast1::ChunkVariant::Command(command(l, a)),
            _ => unreachable!(),
        }
    }
}

pub mod r2 {
    use super::*;
    common!(ast2);
    environment!(ast2);
    pub fn variant(x: &S) -> ast2::ChunkVariant {
        match x {
            S::Text(s) => ast2::ChunkVariant::Text(s.clone()),
            S::Scope(v, c) => ast2::ChunkVariant::Scope(scope(*v, c)),
            S::Cmd(l, a) => ast2::ChunkVariant::Command(command(l, a)),
            S::Env(e) => ast2::ChunkVariant::Environment(env(e)),
            _ => unreachable!(),
        }
    }
}

pub mod r3 {
    use super::*;
    common!(ast3);
    environment!(ast3);
    pub fn mv(b: bool) -> ast3::MathsVariant {
        if b {
            ast3::MathsVariant::Brackets
        } else {
            ast3::MathsVariant::Dollars
        }
    }
    pub fn mt(d: bool) -> ast3::MathsType {
        if d {
            ast3::MathsType::Outline
        } else {
            ast3::MathsType::Inline
        }
    }
    pub fn variant(x: &S) -> ast3::ChunkVariant {
        match x {
            S::Text(s) => ast3::ChunkVariant::Text(s.clone()),
            S::Break(s) => ast3::ChunkVariant::ParagraphBreak(s.clone()),
            S::Scope(v, c) => ast3::ChunkVariant::Scope(scope(*v, c)),
            S::Cmd(l, a) => ast3::ChunkVariant::Command(command(l, a)),
            S::Env(e) => ast3::ChunkVariant::Environment(env(e)),
            S::Maths(b, d, c) => ast3::ChunkVariant::MathsBlock(ast3::MathsBlock::new_unchecked(mv(*b), mt(*d), chunks(c))),
        }
    }
}

/// Builds symbolic trees, within the budget of the job. The template of the job is
/// stage, nodes, depth, characters, kind of character, longest text, and `x` (see `crowd`) or `l`: 300 letters
/// before what is free of each text and label.
pub struct Builder {
    pub stage: u8,
    pub nodes: u8,
    pub depth: u8,
    chars: u8,
    kind: u8,
    pub longest: u8,
    plain: bool,
}

impl Builder {
    pub fn new() -> Self {
        let t = template();
        Builder { stage: t[0] - b'0', nodes: t[1] - b'0', depth: t[2] - b'0', chars: t[3] - b'0', kind: t[4], longest: t[5] - b'0', plain: false }
    }

    pub fn string(&mut self, longest: u8) -> String {
        let most = longest.min(self.chars);
        let n = choice(most + 1);
        self.chars -= n;
        let mut b = Vec::new();
        if longest > 1 && template().get(6) == Some(&b'l') {
            b.resize(300, b'w')
        }
        for _ in 0..n {
            gen::hole(self.kind, &mut b)
        }
        unsafe { String::from_utf8_unchecked(b) }
    }

    pub fn prec(&mut self) -> String {
        self.string(1)
    }

    fn label(&mut self) -> String {
        if self.plain {
            return "x".to_string();
        }
        match choice(4) {
            0 => "begin".to_string(),
            1 => "end".to_string(),
            2 => "x".to_string(),
            _ => self.string(2),
        }
    }

    pub fn v(&mut self) -> V {
        match choice(3) {
            0 => V::Curly,
            1 => V::Round,
            _ => V::Square,
        }
    }

    pub fn args(&mut self, depth: u8) -> Vec<Arg> {
        let mut out = Vec::new();
        while self.nodes > 0 && depth > 0 && choice(2) == 1 {
            self.nodes -= 1;
            let p = self.prec();
            let v = self.v();
            out.push((p, v, self.list(depth - 1)))
        }
        out
    }

    pub fn one(&mut self, depth: u8) -> S {
        let kinds = match self.stage {
            1 => 3,
            2 => 4,
            _ => 6,
        };
        match choice(kinds) {
            0 => S::Text(self.string(self.longest)),
            1 => {
                let l = self.label();
                S::Cmd(l, self.args(depth))
            }
            2 => {
                let v = self.v();
                S::Scope(v, self.sub(depth))
            }
            3 => {
                let label = if self.plain || choice(2) == 0 { "x".to_string() } else { self.string(2) };
                let begin = self.prec();
                let args = self.args(depth);
                let content = self.sub(depth);
                let end = self.prec();
                S::Env(Box::new(SEnv { label, args, content, begin, end }))
            }
            4 => {
                if self.plain {
                    return S::Break("\n\n".to_string());
                }
                match choice(3) {
                    0 => S::Break(self.string(self.longest)),
                    1 => {
                        let s = self.string(1);
                        S::Break(format!("\n{s}\n"))
                    }
                    _ => S::Break("\n \n".to_string()),
                }
            }
            _ => {
                let (b, d) = (choice(2) == 1, choice(2) == 1);
                S::Maths(b, d, self.sub(depth))
            }
        }
    }

    fn sub(&mut self, depth: u8) -> Vec<S> {
        if depth == 0 {
            Vec::new()
        } else {
            self.list(depth - 1)
        }
    }

    pub fn list(&mut self, depth: u8) -> Vec<S> {
        let mut out = Vec::new();
        while self.nodes > 0 && choice(2) == 1 {
            self.nodes -= 1;
            out.push(self.one(depth))
        }
        out
    }

    pub fn top(&mut self) -> Vec<S> {
        let n = self.list(self.depth);
        crowd(self.stage, n)
    }

    pub fn part(&mut self) -> S {
        let x = self.one(self.depth);
        if template().get(6) != Some(&b'x') {
            return x;
        }
        let mut n = crowd(self.stage, vec![x]);
        if n.len() == 1 {
            return n.remove(0);
        }
        S::Scope(V::Square, n)
    }
}

/// With an `x` after the rest of the template: what was built is the first or the last of many chunks, or deep
/// inside of many scopes, arguments, environments or maths blocks, or one of many arguments.
pub fn crowd(stage: u8, n: Vec<S>) -> Vec<S> {
    if template().get(6) != Some(&b'x') {
        return n;
    }
    let many = |k: usize| -> Vec<S> {
        (0..k)
            .map(|i| match i % 2 {
                0 => S::Cmd("y".to_string(), vec![(String::new(), V::Curly, vec![S::Text("\n".to_string())])]),
                _ => S::Scope(V::Round, vec![S::Text("z".to_string())]),
            })
            .collect()
    };
    let env = |args: Vec<Arg>, content: Vec<S>| {
        S::Env(Box::new(SEnv { label: "y".to_string(), args, content, begin: "\n".to_string(), end: String::new() }))
    };
    match choice(4) {
        0 => {
            let mut out = many(34);
            out.extend(n);
            out
        }
        1 => {
            let mut out = n;
            out.extend(many(34));
            out
        }
        2 => {
            let kinds = [2, 4, 5][stage as usize - 1];
            let kind = choice(kinds);
            let mut n = n;
            for i in 0..18 {
                n = vec![match kind {
                    0 => S::Scope(V::Curly, n),
                    1 => S::Cmd("y".to_string(), vec![("\n".to_string(), V::Square, n)]),
                    2 => env(Vec::new(), n),
                    3 => env(vec![(String::new(), V::Round, n)], Vec::new()),
                    _ => S::Maths(true, i % 2 == 0, n),
                }]
            }
            n
        }
        _ => {
            let at = [0, 5, 11][choice(3) as usize];
            let mut n = Some(n);
            let args = (0..12)
                .map(|i| match i == at {
                    true => (" ".to_string(), V::Curly, n.take().unwrap()),
                    _ => ("\n".to_string(), V::Square, vec![S::Text("z".to_string())]),
                })
                .collect();
            if stage == 1 || choice(2) == 0 {
                vec![S::Cmd("y".to_string(), args)]
            } else {
                vec![env(args, Vec::new())]
            }
        }
    }
}

/// C14 (built trees): lines() is the number of lines a tree displays, Display is its parts in order (C21)
#[no_mangle]
pub extern "C-unwind" fn p_c14_built() {
    let mut b = Builder::new();
    let n = b.top();
    let text = shown(&n);
    let want = nl(&text) + 1;
    if want > 1 {
        cover(cov::MULTILINE)
    }
    out(&text);
    let msg = "C14: lines() of a tree that was built";
    match b.stage {
        1 => {
            check(ast1::Document::new_unchecked(r1::chunks(&n)).lines() == want, msg);
            check(r1::scope(V::Curly, &n).lines() == want, msg)
        }
        2 => {
            check(ast2::Document::new_unchecked(r2::chunks(&n)).lines() == want, msg);
            check(r2::scope(V::Curly, &n).lines() == want, msg)
        }
        _ => {
            check(r3::scope(V::Curly, &n).lines() == want, msg);
            let m = ast3::MathsBlock::new_unchecked(r3::mv(true), r3::mt(true), r3::chunks(&n));
            check(m.lines() == want, msg);
            check(document3(&n, 0).lines() == want, msg);
            check(document3(&n, 1).lines() == want, msg);
            check(document3(&n, 2).lines() == want, msg)
        }
    }
}

/// C14: lines() of a stage 3 document with everything around its body symbolic
#[no_mangle]
pub extern "C-unwind" fn p_c14_document() {
    let mut b = Builder::new();
    let (begin, end) = (b.prec(), b.prec());
    let mut args = b.args(1);
    let mut pre = b.list(1);
    let mut body = b.list(1);
    let mut post = b.list(1);
    if template().len() > 6 {
        match choice(4) {
            0 => pre = crowd(3, pre),
            1 => body = crowd(3, body),
            2 => post = crowd(3, post),
            _ => args.extend((0..20).map(|_| ("\n".to_string(), V::Square, vec![S::Text("\n".to_string())]))),
        }
    }
    let d = ast3::Document::new_unchecked(
        r3::chunks(&pre),
        None,
        Vec::new(),
        r3::chunks(&body),
        r3::args(&args),
        begin.clone(),
        end.clone(),
        r3::chunks(&post),
    );
    let mut text = shown(&pre);
    show(&[S::Env(Box::new(SEnv { label: "document".to_string(), args, content: body, begin, end }))], &mut text);
    show(&post, &mut text);
    out(&text);
    let want = nl(&text) + 1;
    if want > 1 {
        cover(cov::MULTILINE)
    }
    check(d.lines() == want, "C14: lines() of a stage 3 document that was built");
    check(nl(&d.to_string()) + 1 == want, "C14: lines a stage 3 document that was built displays");
}

fn document3(n: &[S], section: u8) -> ast3::Document {
    let mut s = [Vec::new(), Vec::new(), Vec::new()];
    s[section as usize] = r3::chunks(n);
    let [pre, body, post] = s;
    ast3::Document::new_unchecked(pre, None, Vec::new(), body, Vec::new(), String::new(), String::new(), post)
}

/// lines below 2^31, one of them not necessarily the right one
fn some_lines(n: &[S]) -> Vec<u32> {
    let mut lines = line_numbers(n);
    let k = choice(n.len() as u8 + 1) as usize;
    if k < n.len() {
        let x = u32::from_le_bytes([byte(), byte(), byte(), byte()]);
        assume(x < 1 << 31);
        lines[k] = x
    }
    lines
}

/// the complaint about line numbers, as validate() of a document has to make it
fn line_fault(n: &[S], lines: &[u32]) -> Option<InternalError> {
    for (want, got) in line_numbers(n).iter().zip(lines) {
        if want != got {
            return Some(InternalError::IncorrectChunkLineNumber { expected: *want, got: *got });
        }
    }
    None
}

fn verdict(r: Result<(), InternalError>, faults: &[InternalError], msg: &str) {
    match r {
        Ok(()) => {
            cover(cov::OK);
            check(faults.is_empty(), msg)
        }
        Err(e) => {
            cover(cov::ERR);
            let mut known = false;
            for f in faults {
                known |= *f == e
            }
            check(known, msg)
        }
    }
}

/// a checked constructor gives the same as the unchecked one, or a complaint that holds
fn constructed<T: PartialEq>(r: Result<T, InternalError>, plain: T, faults: &[InternalError], msg: &str) {
    match r {
        Ok(x) => {
            check(faults.is_empty(), msg);
            check(x == plain, msg)
        }
        Err(e) => verdict(Err(e), faults, msg),
    }
}

/// C15: validate() of documents
#[no_mangle]
pub extern "C-unwind" fn p_c15() {
    let mut b = Builder::new();
    let n = b.top();
    let lines = some_lines(&n);
    let mut f = faults(b.stage, &n);
    f.extend(line_fault(&n, &lines));
    let msg = "C15: validate() of a document";
    let new = "C15: a checked document constructor";
    match b.stage {
        1 => {
            let c = r1::at(&n, &lines);
            let d = ast1::Document::new_unchecked(c.clone());
            verdict(d.validate(), &f, msg);
            constructed(ast1::Document::new(c), d, &f, new)
        }
        2 => {
            let c = r2::at(&n, &lines);
            let d = ast2::Document::new_unchecked(c.clone());
            verdict(d.validate(), &f, msg);
            constructed(ast2::Document::new(c), d, &f, new)
        }
        _ => {
            // ... in one of the sections, or in an argument of the document environment
            let section = choice(4) as usize;
            let mut s = [Vec::new(), Vec::new(), Vec::new()];
            let mut args = Vec::new();
            if section == 3 {
                f = faults(3, &n);
                args = r3::args(&[("\n".to_string(), V::Square, n)])
            } else {
                s[section] = r3::at(&n, &lines)
            }
            let [pre, body, post] = s;
            let d = ast3::Document::new_unchecked(
                pre.clone(),
                None,
                Vec::new(),
                body.clone(),
                args.clone(),
                String::new(),
                String::new(),
                post.clone(),
            );
            verdict(d.validate(), &f, msg);
            let r = ast3::Document::new(pre, None, Vec::new(), body, args, String::new(), String::new(), post);
            constructed(r, d, &f, new)
        }
    }
}

/// C15: validate() and the checked constructors of everything below documents
#[no_mangle]
pub extern "C-unwind" fn p_c15_parts() {
    let mut b = Builder::new();
    if b.nodes == 0 {
        return;
    }
    b.nodes -= 1;
    let x = b.part();
    let f = faults(b.stage, core::slice::from_ref(&x));
    let msg = "C15: validate() of a part";
    let new = "C15: a checked constructor";
    macro_rules! parts {
        ($ast:ident, $r:ident) => {{
            let v = $r::variant(&x);
            verdict(v.validate(), &f, msg);
            let c = $ast::Chunk::new_unchecked(7, v.clone());
            verdict(c.validate(), &f, msg);
            constructed($ast::Chunk::new(7, v.clone()), c, &f, new);
            match v {
                $ast::ChunkVariant::Command(c) => {
                    verdict(c.validate(), &f, msg);
                    let (l, a) = c.clone().decompose();
                    constructed($ast::Command::new(l, a), c, &f, new)
                }
                $ast::ChunkVariant::Scope(s) => {
                    verdict(s.validate(), &f, msg);
                    let (c, v) = s.clone().decompose();
                    constructed($ast::Scope::new(c, v), s, &f, new)
                }
                _ => {}
            }
        }};
    }
    macro_rules! environments {
        ($ast:ident, $r:ident) => {
            if let $ast::ChunkVariant::Environment(e) = $r::variant(&x) {
                verdict(e.validate(), &f, msg);
                let (l, a, c, b, z) = e.clone().decompose();
                constructed($ast::Environment::new(l, a, c, b, z), e, &f, new)
            }
        };
    }
    match b.stage {
        1 => parts!(ast1, r1),
        2 => {
            parts!(ast2, r2);
            environments!(ast2, r2)
        }
        _ => {
            parts!(ast3, r3);
            environments!(ast3, r3);
            if let (S::Maths(v, d, c), ast3::ChunkVariant::MathsBlock(m)) = (&x, r3::variant(&x)) {
                verdict(m.validate(), &f, msg);
                constructed(ast3::MathsBlock::new(r3::mv(*v), r3::mt(*d), r3::chunks(c)), m, &f, new)
            }
        }
    }
}

/// what a document has to hold after a push: a text is merged into a text before it
fn pushed(n: &[S], lines: &[u32], x: &S, line: u32) -> (Vec<S>, Vec<u32>) {
    let (mut n, mut lines) = (n.to_vec(), lines.to_vec());
    if let (Some(S::Text(t)), S::Text(s)) = (n.last_mut(), x) {
        t.push_str(s);
        return (n, lines);
    }
    n.push(x.clone());
    lines.push(line);
    (n, lines)
}

/// C16: pushing to a document
#[no_mangle]
pub extern "C-unwind" fn p_c16() {
    let mut b = Builder::new();
    b.plain = true;
    let n = b.top();
    // the document may itself start with any line number, but it is consistent
    let lines = line_numbers(&n);
    b.plain = false;
    b.nodes = b.nodes.max(1) - 1;
    let x = b.one(b.depth);
    let next = match n.last() {
        Some(_) => 1 + nl(&shown(&n)),
        None => 1,
    };
    let line = if choice(2) == 0 {
        next
    } else {
        let l = u32::from_le_bytes([byte(), byte(), byte(), byte()]);
        assume(l < 1 << 31);
        l
    };
    let how = choice(4);
    let at = if how < 2 { next } else { line };
    let (m, mlines) = pushed(&n, &lines, &x, at);
    let mut f = Vec::new();
    if how % 2 == 0 {
        // checked pushes are about documents that are valid
        if !faults(b.stage, &n).is_empty() {
            return;
        }
        f = faults(b.stage, core::slice::from_ref(&x));
        if how == 2 && line != next {
            f.push(InternalError::IncorrectChunkLineNumber { expected: next, got: line })
        }
        // a push that is checked must not make a blank line out of two texts
        if let (3, Some(S::Text(_)), S::Text(_)) = (b.stage, n.last(), &x) {
            if let Some(S::Text(t)) = m.last() {
                if unbroken(t) {
                    f.push(InternalError::UnbrokenParagraph)
                }
            }
        }
    }
    let text = shown(&m);
    out(&text);
    let accept = "C16: a push is accepted or refused wrongly";
    let result = "C16: a document after a push";
    let refused = "C16: a refused push changes the document";
    macro_rules! judge {
        ($r:expr, $now:expr, $before:expr, $after:expr) => {{
            let r: Result<(), InternalError> = $r;
            let failed = r.is_err();
            verdict(r, &f, accept);
            if failed {
                check($now == $before, refused)
            } else {
                check($now == $after, result)
            }
        }};
    }
    macro_rules! plain {
        ($ast:ident, $r:ident) => {{
            let before = $ast::Document::new_unchecked($r::at(&n, &lines));
            let after = $ast::Document::new_unchecked($r::at(&m, &mlines));
            let mut d = before.clone();
            let v = $r::variant(&x);
            let c = $ast::Chunk::new_unchecked(line, v.clone());
            let r = match how {
                0 => d.push(v),
                1 => Ok(d.push_unchecked(v)),
                2 => d.push_chunk(c),
                _ => Ok(d.push_chunk_unchecked(c)),
            };
            judge!(r, d, before, after)
        }};
    }
    match b.stage {
        1 => plain!(ast1, r1),
        2 => plain!(ast2, r2),
        _ => {
            let section = choice(3) as usize;
            let make = |c: Vec<ast3::Chunk>| {
                let other = r3::chunks(&[S::Text("o".to_string())]);
                let mut s = [other.clone(), other.clone(), other];
                s[section] = c;
                let [pre, body, post] = s;
                ast3::Document::new_unchecked(pre, None, Vec::new(), body, Vec::new(), String::new(), String::new(), post)
            };
            let before = make(r3::at(&n, &lines));
            let after = make(r3::at(&m, &mlines));
            let mut d = before.clone();
            let v = r3::variant(&x);
            let c = ast3::Chunk::new_unchecked(line, v.clone());
            let r = match (section, how) {
                (0, 0) => d.push_preamable(v),
                (0, 1) => Ok(d.push_preamable_unchecked(v)),
                (0, 2) => d.push_preamable_chunk(c),
                (0, _) => Ok(d.push_preamable_chunk_unchecked(c)),
                (1, 0) => d.push_body(v),
                (1, 1) => Ok(d.push_body_unchecked(v)),
                (1, 2) => d.push_body_chunk(c),
                (1, _) => Ok(d.push_body_chunk_unchecked(c)),
                (_, 0) => d.push_trailing(v),
                (_, 1) => Ok(d.push_trailing_unchecked(v)),
                (_, 2) => d.push_trailing_chunk(c),
                (_, _) => Ok(d.push_trailing_chunk_unchecked(c)),
            };
            judge!(r, d, before, after)
        }
    }
}

/// C16: a document that only ever saw checked pushes is valid, and displays what was pushed
#[no_mangle]
pub extern "C-unwind" fn p_c16_valid() {
    let mut b = Builder::new();
    let mut want = [String::new(), String::new(), String::new()];
    let msg = "C16: checked pushes lead to an invalid document";
    // longer histories of one kind of push only
    let simple = template().len() > 6;
    // pushes to a section, the line of a chunk that is pushed is right, or one too high
    macro_rules! step {
        ($d:ident, $ast:ident, $r:ident, $section:expr, $push:ident, $push_chunk:ident) => {{
            let x = b.one(b.depth);
            let v = $r::variant(&x);
            let done = match if simple { 0 } else { choice(3) } {
                0 => $d.$push(v).is_ok(),
                k => {
                    let line = 1 + nl(&want[$section]) + (k as u32 - 1);
                    $d.$push_chunk($ast::Chunk::new_unchecked(line, v)).is_ok()
                }
            };
            if done {
                show(&[x], &mut want[$section])
            }
        }};
    }
    macro_rules! run {
        ($ast:ident, $r:ident) => {{
            let mut d = $ast::Document::default();
            while b.nodes > 0 {
                b.nodes -= 1;
                step!(d, $ast, $r, 0, push, push_chunk)
            }
            check(d.validate().is_ok(), msg);
            d.to_string()
        }};
    }
    let shows = match b.stage {
        1 => run!(ast1, r1),
        2 => run!(ast2, r2),
        _ => {
            let mut d = ast3::Document::default();
            while b.nodes > 0 {
                b.nodes -= 1;
                match if simple { 1 } else { choice(3) } {
                    0 => step!(d, ast3, r3, 0, push_preamable, push_preamable_chunk),
                    1 => step!(d, ast3, r3, 1, push_body, push_body_chunk),
                    _ => step!(d, ast3, r3, 2, push_trailing, push_trailing_chunk),
                }
            }
            check(d.validate().is_ok(), msg);
            want[1].insert_str(0, "\\begin{document}");
            want[1].push_str("\\end{document}");
            d.to_string()
        }
    };
    let want = want.concat();
    out(&want);
    check(shows == want, "C16: what was pushed is not what is displayed")
}

/// C16: pushing parts of stage 2 to a document of stage 1
#[no_mangle]
pub extern "C-unwind" fn p_c16_into() {
    let mut b = Builder::new();
    let n = b.top();
    if !faults(2, &n).is_empty() {
        return;
    }
    let text = shown(&n);
    out(&text);
    cover(cov::OK);
    let mut d = ast1::Document::default();
    let mut low: Vec<ast1::Chunk> = Vec::new();
    for c in r2::chunks(&n) {
        for x in ast1::IntoChunks::into_chunks(c.clone()) {
            match (low.last_mut().map(|l| l.variant_mut()), x.variant()) {
                (Some(ast1::ChunkVariant::Text(l)), ast1::ChunkVariant::Text(s)) => l.push_str(s),
                _ => low.push(x),
            }
        }
        d.push_into_unchecked(c)
    }
    check(d.to_string() == text, "C16: a document does not display the parts pushed into it");
    check(lined1(d.chunks(), 1), "C16: line numbers of parts pushed into a document");
    check(*d.chunks() == low, "C16: parts pushed into a document are not what they lower to")
}

/// C06 (built trees): lowering a valid stage 2 document keeps its text and numbers its lines rightly
#[no_mangle]
pub extern "C-unwind" fn p_c06_built() {
    let mut b = Builder::new();
    let n = b.top();
    if !faults(2, &n).is_empty() {
        return;
    }
    let d = ast2::Document::new_unchecked(r2::chunks(&n));
    let text = shown(&n);
    out(&text);
    cover(cov::OK);
    let low = ast1::Document::from(d);
    check(low.to_string() == text, "C06: lowering a stage 2 document changes its text");
    check(lined1(low.chunks(), 1), "C06: line numbers of a lowered stage 2 document");
}

pub fn lined1(c: &[ast1::Chunk], start: u32) -> bool {
    let mut line = start;
    let mut ok = true;
    for x in c {
        ok &= x.line_no() == line;
        ok &= match x.variant() {
            ast1::ChunkVariant::Text(_) => true,
            ast1::ChunkVariant::Scope(s) => lined1(s.chunks(), 1),
            ast1::ChunkVariant::Command(c) => c.arguments().iter().all(|(_, s)| lined1(s.chunks(), 1)),
        };
        line += nl(&x.to_string())
    }
    ok
}

pub fn lined2(c: &[ast2::Chunk], start: u32) -> bool {
    let mut line = start;
    let mut ok = true;
    for x in c {
        ok &= x.line_no() == line;
        ok &= match x.variant() {
            ast2::ChunkVariant::Text(_) => true,
            ast2::ChunkVariant::Scope(s) => lined2(s.chunks(), 1),
            ast2::ChunkVariant::Command(c) => c.arguments().iter().all(|(_, s)| lined2(s.chunks(), 1)),
            ast2::ChunkVariant::Environment(e) => {
                let (_, a, c, _, _) = e.clone().decompose();
                a.iter().all(|(_, s)| lined2(s.chunks(), 1)) && lined2(&c, 1)
            }
        };
        line += nl(&x.to_string())
    }
    ok
}

/// C10 (built trees): lowering a valid stage 3 document keeps its text and numbers its lines rightly
#[no_mangle]
pub extern "C-unwind" fn p_c10_built() {
    let mut b = Builder::new();
    let (begin, end) = (b.prec(), b.prec());
    let args = b.args(1);
    let pre = b.list(b.depth);
    let body = b.top();
    let post = b.list(b.depth);
    let mut f = Faults { stage: 3, all: Vec::new() };
    f.chunks(&pre);
    f.chunks(&body);
    f.chunks(&post);
    f.args(&args);
    if !f.all.is_empty() {
        return;
    }
    let d = ast3::Document::new_unchecked(
        r3::chunks(&pre),
        None,
        Vec::new(),
        r3::chunks(&body),
        r3::args(&args),
        begin.clone(),
        end.clone(),
        r3::chunks(&post),
    );
    let mut text = shown(&pre);
    show(&[S::Env(Box::new(SEnv { label: "document".to_string(), args, content: body, begin, end }))], &mut text);
    show(&post, &mut text);
    out(&text);
    cover(cov::OK);
    check(d.to_string() == text, "C10: a stage 3 document that was built displays another text");
    let low = ast2::Document::from(d);
    check(low.to_string() == text, "C10: lowering a stage 3 document changes its text");
    check(lined2(low.chunks(), 1), "C10: line numbers of a lowered stage 3 document");
}

/// C20: brackets and scope variants correspond, for every character
#[no_mangle]
pub extern "C-unwind" fn p_c20() {
    let mut b = Vec::new();
    gen::hole(b'U', &mut b);
    let c = unsafe { String::from_utf8_unchecked(b) }.chars().next().unwrap();
    let open = ['{', '(', '['];
    let close = ['}', ')', ']'];
    check(ast1::ScopeVariant::is_opening(c) == open.contains(&c), "C20: is_opening");
    check(ast1::ScopeVariant::is_closing(c) == close.contains(&c), "C20: is_closing");
    // what an opaque input may be cannot be decided by the compiler instead of the solver
    let mut b = Vec::new();
    gen::hole(if choice(2) == 0 { b'O' } else { b'C' }, &mut b);
    let c = b[0] as char;
    let at = |set: [char; 3]| set.iter().position(|x| *x == c);
    if let Some(i) = at(open) {
        cover(cov::OK);
        let v = ast1::ScopeVariant::from_opening(c);
        check(v.open() == c && v.close() == close[i], "C20: from_opening");
        let v2 = ast2::ScopeVariant::from(v);
        check(v2.open() == c && v2.close() == close[i], "C20: stage 1 to 2");
        let v3 = ast3::ScopeVariant::from(v2);
        check(v3.open() == c && v3.close() == close[i], "C20: stage 2 to 3");
        check(ast2::ScopeVariant::from(v3) == v2, "C20: stage 3 to 2");
        check(ast1::ScopeVariant::from(v2) == v, "C20: stage 2 to 1");
        check(compare::v1(v) == compare::v2(v2) && compare::v2(v2) == compare::v3(v3), "C20: variants differ between stages");
    }
    if let Some(i) = at(close) {
        cover(cov::ERR);
        let v = ast1::ScopeVariant::from_closing(c);
        check(v.close() == c && v.open() == open[i], "C20: from_closing");
        check(v == ast1::ScopeVariant::from_opening(open[i]), "C20: from_closing and from_opening differ")
    }
    // a scope of each kind shows and keeps its brackets, raised and lowered
    let k = at(open).or(at(close)).unwrap_or(0);
    let v = if at(open).is_some() { ast1::ScopeVariant::from_opening(c) } else { ast1::ScopeVariant::from_closing(c) };
    let want: String = [open[k], 'a', close[k]].iter().collect();
    let s1 = ast1::Scope::new_unchecked(vec![ast1::Chunk::new_unchecked(1, ast1::ChunkVariant::Text("a".to_string()))], v);
    check(s1.to_string() == want, "C20: a scope of stage 1 shows other brackets");
    let Ok(s2) = ast2::Scope::try_from(s1.clone()) else { fail("C20: a scope cannot be raised") };
    check(s2.to_string() == want, "C20: a scope of stage 2 shows other brackets");
    let Ok(s3) = ast3::Scope::try_from(s2.clone()) else { fail("C20: a scope cannot be raised") };
    check(s3.to_string() == want, "C20: a scope of stage 3 shows other brackets");
    check(ast2::Scope::from(s3) == s2 && ast1::Scope::from(s2) == s1, "C20: a scope that was lowered has other brackets")
}

/// C21: a tree displays its parts in order, and gives back what it was made of
#[no_mangle]
pub extern "C-unwind" fn p_c21() {
    let mut b = Builder::new();
    let n = b.top();
    let text = shown(&n);
    out(&text);
    cover(cov::OK);
    let msg = "C21: Display of a tree that was built";
    let parts = "C21: a tree gives back other parts than it was made of";
    macro_rules! common {
        ($ast:ident, $r:ident) => {
            for (x, c) in n.iter().zip($r::chunks(&n)) {
                let l = c.line_no();
                check(c.to_string() == shown(core::slice::from_ref(x)), msg);
                check(c.clone().decompose() == (l, $r::variant(x)), parts);
                check(*c.variant() == c.clone().variant_owned(), parts);
                match (x, c.variant()) {
                    (S::Cmd(l, a), $ast::ChunkVariant::Command(c)) => {
                        let a = $r::args(a);
                        check(c.label() == l && *c.arguments() == a, parts);
                        check(c.clone().label_owned() == *l && c.clone().arguments_owned() == a, parts);
                        check(c.clone().decompose() == (l.clone(), a), parts)
                    }
                    (S::Scope(v, s), $ast::ChunkVariant::Scope(c)) => {
                        let (s, v) = ($r::chunks(s), scope_variant!($ast, v));
                        check(*c.chunks() == s && c.variant() == v && c.clone().chunks_owned() == s, parts);
                        check(c.clone().decompose() == (s, v), parts)
                    }
                    _ => {}
                }
            }
        };
    }
    macro_rules! envs {
        ($ast:ident, $r:ident) => {
            for (x, c) in n.iter().zip($r::chunks(&n)) {
                if let (S::Env(e), $ast::ChunkVariant::Environment(r)) = (x, c.variant_owned()) {
                    check(*r.label() == e.label, parts);
                    let want = (e.label.clone(), $r::args(&e.args), $r::chunks(&e.content), e.begin.clone(), e.end.clone());
                    check(r.decompose() == want, parts)
                }
            }
        };
    }
    match b.stage {
        1 => {
            let d = ast1::Document::new_unchecked(r1::chunks(&n));
            check(d.to_string() == text, msg);
            check(*d.chunks() == r1::chunks(&n) && d.chunks_owned() == r1::chunks(&n), parts);
            common!(ast1, r1)
        }
        2 => {
            let d = ast2::Document::new_unchecked(r2::chunks(&n));
            check(d.to_string() == text, msg);
            check(*d.chunks() == r2::chunks(&n) && d.chunks_owned() == r2::chunks(&n), parts);
            common!(ast2, r2);
            envs!(ast2, r2)
        }
        _ => {
            common!(ast3, r3);
            envs!(ast3, r3);
            let class = Some("c".to_string());
            let options = vec![("p".to_string(), "k".to_string(), None, "q".to_string())];
            let (pre, post) = (vec![S::Text("p".to_string())], vec![S::Text("q".to_string())]);
            let args = vec![("r".to_string(), V::Square, vec![S::Text("a".to_string())])];
            let d = ast3::Document::new_unchecked(
                r3::chunks(&pre),
                class.clone(),
                options.clone(),
                r3::chunks(&n),
                r3::args(&args),
                "s".to_string(),
                "t".to_string(),
                r3::chunks(&post),
            );
            check(d.to_string() == format!("p\\begins{{document}}r[a]{text}\\endt{{document}}q"), msg);
            check(*d.chunks_preamable() == r3::chunks(&pre) && *d.chunks_body() == r3::chunks(&n) && *d.chunks_trailing() == r3::chunks(&post), parts);
            let want = (
                class,
                options,
                r3::chunks(&pre),
                r3::chunks(&n),
                r3::args(&args),
                "s".to_string(),
                "t".to_string(),
                r3::chunks(&post),
            );
            check(d.decompose() == want, parts)
        }
    }
}
