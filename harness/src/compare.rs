//! Compares what the crate produced with the reference reading.

use crate::oracle::*;
use latex_ast::ast2::IntoChunks as _;
use latex_ast::{ast1, ast2, ast3, Error, ErrorType};

/// What differs: nothing, line numbers only, or more than that
#[derive(Clone, Copy, PartialEq)]
pub enum Diff {
    Same,
    Lines,
    Structure,
}

impl Diff {
    fn and(self, o: Diff) -> Diff {
        if self == Diff::Structure || o == Diff::Structure {
            Diff::Structure
        } else if self == Diff::Lines || o == Diff::Lines {
            Diff::Lines
        } else {
            Diff::Same
        }
    }
}

fn structure(ok: bool) -> Diff {
    if ok {
        Diff::Same
    } else {
        Diff::Structure
    }
}

fn lines(ok: bool) -> Diff {
    if ok {
        Diff::Same
    } else {
        Diff::Lines
    }
}

pub fn v1(v: ast1::ScopeVariant) -> V {
    match v {
        ast1::ScopeVariant::Curly => V::Curly,
        ast1::ScopeVariant::Round => V::Round,
        ast1::ScopeVariant::Square => V::Square,
    }
}

pub fn v2(v: ast2::ScopeVariant) -> V {
    match v {
        ast2::ScopeVariant::Curly => V::Curly,
        ast2::ScopeVariant::Round => V::Round,
        ast2::ScopeVariant::Square => V::Square,
    }
}

pub fn v3(v: ast3::ScopeVariant) -> V {
    match v {
        ast3::ScopeVariant::Curly => V::Curly,
        ast3::ScopeVariant::Round => V::Round,
        ast3::ScopeVariant::Square => V::Square,
    }
}

pub fn tree1(real: &[ast1::Chunk], exp: &[N1], base: u32) -> Diff {
    if real.len() != exp.len() {
        return Diff::Structure;
    }
    let mut d = Diff::Same;
    for (r, e) in real.iter().zip(exp) {
        d = d.and(lines(r.line_no() == e.line - base + 1));
        d = d.and(match (r.variant(), &e.x) {
            (ast1::ChunkVariant::Text(a), X1::Text(b)) => structure(a == b),
            (ast1::ChunkVariant::Scope(a), X1::Scope(b)) => scope1(a, b),
            (ast1::ChunkVariant::Command(a), X1::Cmd(l, b)) => {
                if a.label() != l || a.arguments().len() != b.len() {
                    return Diff::Structure;
                }
                let mut d = Diff::Same;
                for ((p, s), (q, g)) in a.arguments().iter().zip(b) {
                    d = d.and(structure(p == q)).and(scope1(s, g))
                }
                d
            }
            _ => return Diff::Structure,
        })
    }
    d
}

fn scope1(a: &ast1::Scope, b: &Group<N1>) -> Diff {
    structure(v1(a.variant()) == b.v).and(tree1(a.chunks(), &b.content, b.line))
}

pub fn tree2(real: &[ast2::Chunk], exp: &[N2], base: u32) -> Diff {
    if real.len() != exp.len() {
        return Diff::Structure;
    }
    let mut d = Diff::Same;
    for (r, e) in real.iter().zip(exp) {
        d = d.and(lines(r.line_no() == e.line - base + 1));
        d = d.and(match (r.variant(), &e.x) {
            (ast2::ChunkVariant::Text(a), X2::Text(b)) => structure(a == b),
            (ast2::ChunkVariant::Scope(a), X2::Scope(b)) => scope2(a, b),
            (ast2::ChunkVariant::Command(a), X2::Cmd(l, b)) => structure(a.label() == l).and(arguments2(a.arguments(), b)),
            (ast2::ChunkVariant::Environment(a), X2::Env(b)) => {
                let (label, args, content, begin, end) = a.clone().decompose();
                structure(*a.label() == b.label && label == b.label && begin == b.begin && end == b.end)
                    .and(arguments2(&args, &b.args))
                    .and(tree2(&content, &b.content, b.line))
            }
            _ => return Diff::Structure,
        })
    }
    d
}

fn arguments2(a: &[(String, ast2::Scope)], b: &[(String, Group<N2>)]) -> Diff {
    if a.len() != b.len() {
        return Diff::Structure;
    }
    let mut d = Diff::Same;
    for ((p, s), (q, g)) in a.iter().zip(b) {
        d = d.and(structure(p == q)).and(scope2(s, g))
    }
    d
}

fn scope2(a: &ast2::Scope, b: &Group<N2>) -> Diff {
    structure(v2(a.variant()) == b.v).and(tree2(a.chunks(), &b.content, b.line))
}

pub fn tree3(real: &[ast3::Chunk], exp: &[N3], base: u32) -> Diff {
    if real.len() != exp.len() {
        return Diff::Structure;
    }
    let mut d = Diff::Same;
    for (r, e) in real.iter().zip(exp) {
        d = d.and(lines(r.line_no() == e.line - base + 1));
        d = d.and(match (r.variant(), &e.x) {
            (ast3::ChunkVariant::Text(a), X3::Text(b)) => structure(a == b),
            (ast3::ChunkVariant::ParagraphBreak(a), X3::Break(b)) => structure(a == b),
            (ast3::ChunkVariant::Scope(a), X3::Scope(b)) => scope3(a, b),
            (ast3::ChunkVariant::Command(a), X3::Cmd(l, b)) => structure(a.label() == l).and(arguments3(a.arguments(), b)),
            (ast3::ChunkVariant::Environment(a), X3::Env(b)) => {
                let (label, args, content, begin, end) = a.clone().decompose();
                structure(*a.label() == b.label && label == b.label && begin == b.begin && end == b.end)
                    .and(arguments3(&args, &b.args))
                    .and(tree3(&content, &b.content, b.line))
            }
            (ast3::ChunkVariant::MathsBlock(a), X3::Maths(brackets, display, content)) => {
                // a maths block has no accessors
                let want = maths(*brackets, *display, content, e.line);
                if *a == want {
                    Diff::Same
                } else {
                    let (p, q) = (a.clone().into_chunks(), want.clone().into_chunks());
                    if a.to_string() == want.to_string() && p.len() == q.len() && p != q {
                        let same = p.iter().zip(&q).all(|(x, y)| x.variant().to_string() == y.variant().to_string());
                        if same {
                            Diff::Lines
                        } else {
                            Diff::Structure
                        }
                    } else {
                        Diff::Structure
                    }
                }
            }
            _ => return Diff::Structure,
        })
    }
    d
}

pub fn arguments3(a: &[(String, ast3::Scope)], b: &[(String, Group<N3>)]) -> Diff {
    if a.len() != b.len() {
        return Diff::Structure;
    }
    let mut d = Diff::Same;
    for ((p, s), (q, g)) in a.iter().zip(b) {
        d = d.and(structure(p == q)).and(scope3(s, g))
    }
    d
}

fn scope3(a: &ast3::Scope, b: &Group<N3>) -> Diff {
    structure(v3(a.variant()) == b.v).and(tree3(a.chunks(), &b.content, b.line))
}

fn maths(brackets: bool, display: bool, content: &[N3], base: u32) -> ast3::MathsBlock {
    ast3::MathsBlock::new_unchecked(
        if brackets { ast3::MathsVariant::Brackets } else { ast3::MathsVariant::Dollars },
        if display { ast3::MathsType::Outline } else { ast3::MathsType::Inline },
        build3(content, base),
    )
}

fn group_build3(g: &Group<N3>) -> ast3::Scope {
    ast3::Scope::new_unchecked(
        build3(&g.content, g.line),
        match g.v {
            V::Curly => ast3::ScopeVariant::Curly,
            V::Round => ast3::ScopeVariant::Round,
            V::Square => ast3::ScopeVariant::Square,
        },
    )
}

fn args_build3(a: &[(String, Group<N3>)]) -> Vec<(String, ast3::Scope)> {
    a.iter().map(|(p, g)| (p.clone(), group_build3(g))).collect()
}

pub fn build3(n: &[N3], base: u32) -> Vec<ast3::Chunk> {
    n.iter()
        .map(|e| {
            ast3::Chunk::new_unchecked(
                e.line - base + 1,
                match &e.x {
                    X3::Text(s) => ast3::ChunkVariant::Text(s.clone()),
                    X3::Break(s) => ast3::ChunkVariant::ParagraphBreak(s.clone()),
                    X3::Scope(g) => ast3::ChunkVariant::Scope(group_build3(g)),
                    X3::Cmd(l, a) => ast3::ChunkVariant::Command(ast3::Command::new_unchecked(l.clone(), args_build3(a))),
                    X3::Env(x) => ast3::ChunkVariant::Environment(ast3::Environment::new_unchecked(
                        x.label.clone(),
                        args_build3(&x.args),
                        build3(&x.content, x.line),
                        x.begin.clone(),
                        x.end.clone(),
                    )),
                    X3::Maths(b, d, c) => ast3::ChunkVariant::MathsBlock(maths(*b, *d, c, e.line)),
                },
            )
        })
        .collect()
}

pub fn kind(real: &ErrorType, e: &EK) -> bool {
    match (real, e) {
        (ErrorType::UnexpectedClosing(a), EK::UnexpectedClosing(b)) => v1(*a) == *b,
        (ErrorType::UnclosedArgument(a), EK::UnclosedArgument(b)) => v1(*a) == *b,
        (ErrorType::UnclosedScope(a), EK::UnclosedScope(b)) => v1(*a) == *b,
        (ErrorType::NoEnvironmentLabel, EK::NoEnvironmentLabel) => true,
        (ErrorType::UnexpectedEnd(a), EK::UnexpectedEnd(b)) => a == b,
        (ErrorType::UnclosedEnvironment(a), EK::UnclosedEnvironment(b)) => a == b,
        (ErrorType::TooManyArgsEnd, EK::TooManyArgsEnd) => true,
        (ErrorType::TooManyArgsDocumentClass, EK::TooManyArgsDocumentClass) => true,
        (ErrorType::DoubleDocumentClass, EK::DoubleDocumentClass) => true,
        (ErrorType::UnexpectedMathsEnd, EK::UnexpectedMathsEnd) => true,
        (ErrorType::UnclosedMaths, EK::UnclosedMaths) => true,
        _ => false,
    }
}

pub fn error(real: &Error, e: &E) -> Diff {
    structure(kind(&real.r#type, &e.kind)).and(lines(real.line == e.line))
}
