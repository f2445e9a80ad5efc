//! Reference reading of a document: what the three stages have to produce, written from the documented
//! format alone. It shares no code with the crate: it works on one token list with absolute line numbers,
//! where the crate re-parses strings with relative ones.

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    /// an ordinary character
    Ch,
    /// a character after a backslash
    Esc,
    /// a backslash at the very end
    Bs,
}

#[derive(Clone, Copy)]
pub struct Tok {
    pub c: char,
    pub kind: Kind,
    pub line: u32,
}

/// The document without its comments (a comment runs from an unescaped `%` up to the end of its line).
pub fn strip(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut esc = false;
    let mut comment = false;
    for c in s.chars() {
        if comment {
            if c == '\n' {
                comment = false;
                out.push(c);
            }
        } else if esc {
            esc = false;
            out.push(c);
        } else if c == '%' {
            comment = true;
        } else {
            esc = c == '\\';
            out.push(c);
        }
    }
    out
}

pub fn lex(stripped: &str) -> Vec<Tok> {
    let mut out = Vec::with_capacity(stripped.len());
    let mut line = 1;
    let mut esc = false;
    for c in stripped.chars() {
        if !esc && c == '\\' {
            esc = true;
            continue;
        }
        out.push(Tok { c, kind: if esc { Kind::Esc } else { Kind::Ch }, line });
        esc = false;
        if c == '\n' {
            line += 1
        }
    }
    if esc {
        out.push(Tok { c: '\\', kind: Kind::Bs, line })
    }
    out
}

pub fn nl(s: &str) -> u32 {
    let mut n = 0;
    for b in s.bytes() {
        if b == b'\n' {
            n += 1
        }
    }
    n
}

#[derive(Clone, Copy, PartialEq)]
pub enum V {
    Curly,
    Round,
    Square,
}

impl V {
    pub fn open(self) -> char {
        match self {
            V::Curly => '{',
            V::Round => '(',
            V::Square => '[',
        }
    }
    pub fn close(self) -> char {
        match self {
            V::Curly => '}',
            V::Round => ')',
            V::Square => ']',
        }
    }
}

pub fn opener(t: &Tok) -> Option<V> {
    if t.kind != Kind::Ch {
        return None;
    }
    match t.c {
        '{' => Some(V::Curly),
        '(' => Some(V::Round),
        '[' => Some(V::Square),
        _ => None,
    }
}

pub fn closer(t: &Tok) -> Option<V> {
    if t.kind != Kind::Ch {
        return None;
    }
    match t.c {
        '}' => Some(V::Curly),
        ')' => Some(V::Round),
        ']' => Some(V::Square),
        _ => None,
    }
}

#[derive(Clone, PartialEq)]
pub enum EK {
    UnexpectedClosing(V),
    UnclosedArgument(V),
    UnclosedScope(V),
    NoEnvironmentLabel,
    UnexpectedEnd(String),
    UnclosedEnvironment(String),
    TooManyArgsEnd,
    TooManyArgsDocumentClass,
    DoubleDocumentClass,
    UnexpectedMathsEnd,
    UnclosedMaths,
}

#[derive(Clone)]
pub struct E {
    pub line: u32,
    pub kind: EK,
}

fn err<T>(line: u32, kind: EK) -> Result<T, E> {
    Err(E { line, kind })
}

/// A bracket group: its variant, the line its content starts in, and its content
#[derive(Clone)]
pub struct Group<N> {
    pub v: V,
    pub line: u32,
    pub content: Vec<N>,
}

#[derive(Clone)]
pub struct N1 {
    pub line: u32,
    pub x: X1,
}

#[derive(Clone)]
pub enum X1 {
    Text(String),
    Scope(Group<N1>),
    Cmd(String, Vec<(String, Group<N1>)>),
}

/// index of the bracket that closes the group opened just before `i`
fn find_close(t: &[Tok], mut i: usize, v: V) -> Option<usize> {
    let mut depth = 1;
    while i < t.len() {
        if opener(&t[i]) == Some(v) {
            depth += 1
        } else if closer(&t[i]) == Some(v) {
            depth -= 1;
            if depth == 0 {
                return Some(i);
            }
        }
        i += 1
    }
    None
}

fn is_ws(t: &Tok) -> bool {
    t.kind == Kind::Ch && t.c.is_whitespace()
}

pub fn stage1(t: &[Tok]) -> Result<Vec<N1>, E> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < t.len() {
        if let Some(v) = opener(&t[i]) {
            let Some(j) = find_close(t, i + 1, v) else {
                return err(t[i].line, EK::UnclosedScope(v));
            };
            out.push(N1 {
                line: t[i].line,
                x: X1::Scope(Group { v, line: t[i].line, content: stage1(&t[i + 1..j])? }),
            });
            i = j + 1;
        } else if t[i].kind == Kind::Ch {
            let line = t[i].line;
            let mut text = String::new();
            while i < t.len() && t[i].kind == Kind::Ch && opener(&t[i]).is_none() {
                text.push(t[i].c);
                i += 1
            }
            out.push(N1 { line, x: X1::Text(text) });
        } else {
            let line = t[i].line;
            let mut label = String::new();
            if t[i].kind == Kind::Esc {
                label.push(t[i].c)
            }
            let word = t[i].kind == Kind::Esc && t[i].c.is_ascii_alphabetic();
            i += 1;
            if !word {
                out.push(N1 { line, x: X1::Cmd(label, Vec::new()) });
                continue;
            }
            while i < t.len() && t[i].kind == Kind::Ch && !t[i].c.is_whitespace() && opener(&t[i]).is_none() && closer(&t[i]).is_none() {
                label.push(t[i].c);
                i += 1
            }
            let mut groups: Vec<(String, V, usize, usize)> = Vec::new();
            loop {
                let mut j = i;
                while j < t.len() && is_ws(&t[j]) {
                    j += 1
                }
                let Some(v) = t.get(j).and_then(opener) else {
                    if j == i {
                        if let Some(v) = t.get(i).and_then(closer) {
                            return err(t[i].line, EK::UnexpectedClosing(v));
                        }
                    }
                    break;
                };
                let Some(k) = find_close(t, j + 1, v) else {
                    return err(line, EK::UnclosedArgument(v));
                };
                let mut prec = String::new();
                for x in &t[i..j] {
                    prec.push(x.c)
                }
                groups.push((prec, v, j, k));
                i = k + 1;
            }
            let mut args = Vec::with_capacity(groups.len());
            for (prec, v, j, k) in groups {
                args.push((prec, Group { v, line: t[j].line, content: stage1(&t[j + 1..k])? }))
            }
            out.push(N1 { line, x: X1::Cmd(label, args) });
        }
    }
    Ok(out)
}

pub fn show1(n: &[N1], out: &mut String) {
    for x in n {
        match &x.x {
            X1::Text(s) => out.push_str(s),
            X1::Scope(g) => show_group1(g, out),
            X1::Cmd(l, args) => {
                out.push('\\');
                out.push_str(l);
                for (p, g) in args {
                    out.push_str(p);
                    show_group1(g, out)
                }
            }
        }
    }
}

fn show_group1(g: &Group<N1>, out: &mut String) {
    out.push(g.v.open());
    show1(&g.content, out);
    out.push(g.v.close());
}

fn str1(n: &[N1]) -> String {
    let mut s = String::new();
    show1(n, &mut s);
    s
}

#[derive(Clone)]
pub struct N2 {
    pub line: u32,
    pub x: X2,
}

#[derive(Clone)]
pub struct Env<N> {
    pub label: String,
    pub args: Vec<(String, Group<N>)>,
    /// line the content starts in
    pub line: u32,
    pub content: Vec<N>,
    pub begin: String,
    pub end: String,
}

#[derive(Clone)]
pub enum X2 {
    Text(String),
    Scope(Group<N2>),
    Cmd(String, Vec<(String, Group<N2>)>),
    Env(Env<N2>),
}

fn group2(g: &Group<N1>) -> Result<Group<N2>, E> {
    Ok(Group { v: g.v, line: g.line, content: stage2(&g.content)? })
}

fn args2(a: &[(String, Group<N1>)]) -> Result<Vec<(String, Group<N2>)>, E> {
    let mut out = Vec::with_capacity(a.len());
    for (p, g) in a {
        out.push((p.clone(), group2(g)?))
    }
    Ok(out)
}

enum Delim {
    Begin,
    End,
    No,
}

fn delim(n: &N1) -> Result<(Delim, String), E> {
    let X1::Cmd(label, args) = &n.x else {
        return Ok((Delim::No, String::new()));
    };
    let d = if label == "begin" {
        Delim::Begin
    } else if label == "end" {
        Delim::End
    } else {
        return Ok((Delim::No, String::new()));
    };
    match args.first() {
        Some((_, g)) if g.v == V::Curly => Ok((d, str1(&g.content))),
        _ => err(n.line, EK::NoEnvironmentLabel),
    }
}

pub fn stage2(n: &[N1]) -> Result<Vec<N2>, E> {
    let mut out = Vec::with_capacity(n.len());
    let mut i = 0;
    while i < n.len() {
        let line = n[i].line;
        let (d, label) = delim(&n[i])?;
        match d {
            Delim::No => {
                let x = match &n[i].x {
                    X1::Text(s) => X2::Text(s.clone()),
                    X1::Scope(g) => X2::Scope(group2(g)?),
                    X1::Cmd(l, a) => X2::Cmd(l.clone(), args2(a)?),
                };
                out.push(N2 { line, x });
                i += 1;
            }
            Delim::End => return err(line, EK::UnexpectedEnd(label)),
            Delim::Begin => {
                let mut open = vec![label.clone()];
                let mut j = i + 1;
                loop {
                    if j == n.len() {
                        return err(line, EK::UnclosedEnvironment(label));
                    }
                    let (d, l) = delim(&n[j])?;
                    match d {
                        Delim::No => {}
                        Delim::Begin => open.push(l),
                        Delim::End => {
                            if open.last() != Some(&l) {
                                return err(n[j].line, EK::UnexpectedEnd(l));
                            }
                            if let X1::Cmd(_, a) = &n[j].x {
                                if a.len() > 1 {
                                    return err(n[j].line, EK::TooManyArgsEnd);
                                }
                            }
                            open.pop();
                            if open.is_empty() {
                                break;
                            }
                        }
                    }
                    j += 1
                }
                let (X1::Cmd(_, a), X1::Cmd(_, z)) = (&n[i].x, &n[j].x) else { unreachable!() };
                let args = args2(&a[1..])?;
                let mut content_line = line;
                for (p, g) in a {
                    content_line += nl(p) + nl(&str1(&g.content))
                }
                out.push(N2 {
                    line,
                    x: X2::Env(Env {
                        label,
                        args,
                        line: content_line,
                        content: stage2(&n[i + 1..j])?,
                        begin: a[0].0.clone(),
                        end: z[0].0.clone(),
                    }),
                });
                i = j + 1;
            }
        }
    }
    Ok(out)
}

pub fn show2(n: &[N2], out: &mut String) {
    for x in n {
        match &x.x {
            X2::Text(s) => out.push_str(s),
            X2::Scope(g) => show_group2(g, out),
            X2::Cmd(l, args) => {
                out.push('\\');
                out.push_str(l);
                show_args2(args, out)
            }
            X2::Env(e) => {
                out.push_str("\\begin");
                out.push_str(&e.begin);
                out.push('{');
                out.push_str(&e.label);
                out.push('}');
                show_args2(&e.args, out);
                show2(&e.content, out);
                out.push_str("\\end");
                out.push_str(&e.end);
                out.push('{');
                out.push_str(&e.label);
                out.push('}');
            }
        }
    }
}

fn show_args2(a: &[(String, Group<N2>)], out: &mut String) {
    for (p, g) in a {
        out.push_str(p);
        show_group2(g, out)
    }
}

fn show_group2(g: &Group<N2>, out: &mut String) {
    out.push(g.v.open());
    show2(&g.content, out);
    out.push(g.v.close());
}

#[derive(Clone)]
pub struct N3 {
    pub line: u32,
    pub x: X3,
}

#[derive(Clone)]
pub enum X3 {
    Text(String),
    Break(String),
    /// brackets (or dollars), display (or inline), content
    Maths(bool, bool, Vec<N3>),
    Scope(Group<N3>),
    Cmd(String, Vec<(String, Group<N3>)>),
    Env(Env<N3>),
}

fn group3(g: &Group<N2>) -> Result<Group<N3>, E> {
    Ok(Group { v: g.v, line: g.line, content: stage3(&g.content)? })
}

fn args3(a: &[(String, Group<N2>)]) -> Result<Vec<(String, Group<N3>)>, E> {
    let mut out = Vec::with_capacity(a.len());
    for (p, g) in a {
        out.push((p.clone(), group3(g)?))
    }
    Ok(out)
}

pub fn env3(e: &Env<N2>) -> Result<Env<N3>, E> {
    Ok(Env {
        label: e.label.clone(),
        args: args3(&e.args)?,
        line: e.line,
        content: stage3(&e.content)?,
        begin: e.begin.clone(),
        end: e.end.clone(),
    })
}

/// A text split into its paragraphs: a paragraph break starts at the first newline of a run of whitespace and
/// takes the rest of the run, if that contains two newlines or more.
pub fn paragraphs(mut line: u32, s: &[char], out: &mut Vec<N3>) {
    let mut text = String::new();
    let mut text_line = line;
    let mut i = 0;
    while i < s.len() {
        if s[i] == '\n' {
            let mut j = i;
            let mut n = 0;
            while j < s.len() && s[j].is_whitespace() {
                if s[j] == '\n' {
                    n += 1
                }
                j += 1
            }
            let run: String = s[i..j].iter().collect();
            if n >= 2 {
                if !text.is_empty() {
                    out.push(N3 { line: text_line, x: X3::Text(core::mem::take(&mut text)) })
                }
                out.push(N3 { line, x: X3::Break(run) });
                line += n;
                text_line = line;
            } else {
                text.push_str(&run);
                line += n;
            }
            i = j;
        } else {
            text.push(s[i]);
            i += 1
        }
    }
    if !text.is_empty() {
        out.push(N3 { line: text_line, x: X3::Text(text) })
    }
}

/// One item of a node list in which texts are taken apart into characters
enum Item<'a> {
    /// a character, and whether it is the first of its text
    C(char, u32, bool),
    N(&'a N2),
}

impl Item<'_> {
    fn line(&self) -> u32 {
        match self {
            Item::C(_, l, _) => *l,
            Item::N(n) => n.line,
        }
    }
    fn dollar(&self) -> bool {
        matches!(self, Item::C('$', _, _))
    }
    fn cmd(&self) -> &str {
        match self {
            Item::N(N2 { x: X2::Cmd(l, _), .. }) => l,
            _ => "",
        }
    }
}

pub fn stage3(n: &[N2]) -> Result<Vec<N3>, E> {
    let mut items = Vec::new();
    for x in n {
        match &x.x {
            X2::Text(s) => {
                let mut line = x.line;
                let mut first = true;
                for c in s.chars() {
                    items.push(Item::C(c, line, first));
                    first = false;
                    if c == '\n' {
                        line += 1
                    }
                }
            }
            _ => items.push(Item::N(x)),
        }
    }
    maths(&items)
}

fn maths(t: &[Item]) -> Result<Vec<N3>, E> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < t.len() {
        let line = t[i].line();
        if t[i].dollar() {
            let display = i + 1 < t.len() && t[i + 1].dollar() && !matches!(t[i + 1], Item::C(_, _, true));
            let (a, b, z);
            if display {
                a = i + 2;
                let mut j = a;
                loop {
                    if j + 1 >= t.len() {
                        return err(line, EK::UnclosedMaths);
                    }
                    if t[j].dollar() && t[j + 1].dollar() && !matches!(t[j + 1], Item::C(_, _, true)) {
                        break;
                    }
                    j += 1
                }
                b = j;
                z = j + 2;
            } else {
                a = i + 1;
                let mut j = a;
                loop {
                    if j >= t.len() {
                        return err(line, EK::UnclosedMaths);
                    }
                    if t[j].dollar() {
                        break;
                    }
                    j += 1
                }
                b = j;
                z = j + 1;
            }
            out.push(N3 { line, x: X3::Maths(false, display, maths(&t[a..b])?) });
            i = z;
            continue;
        }
        match &t[i] {
            Item::C(..) => {
                let mut text = Vec::new();
                let mut j = i;
                while j < t.len() {
                    match t[j] {
                        Item::C(c, _, first) if c != '$' && (j == i || !first) => text.push(c),
                        _ => break,
                    }
                    j += 1
                }
                paragraphs(line, &text, &mut out);
                i = j;
            }
            Item::N(n) => {
                let c = t[i].cmd();
                if c == ")" || c == "]" {
                    return err(line, EK::UnexpectedMathsEnd);
                }
                if c == "(" || c == "[" {
                    let (o, z) = if c == "(" { ("(", ")") } else { ("[", "]") };
                    let mut depth = 1;
                    let mut j = i + 1;
                    loop {
                        if j == t.len() {
                            return err(line, EK::UnclosedMaths);
                        }
                        if t[j].cmd() == o {
                            depth += 1
                        } else if t[j].cmd() == z {
                            depth -= 1;
                            if depth == 0 {
                                break;
                            }
                        }
                        j += 1
                    }
                    out.push(N3 { line, x: X3::Maths(true, o == "[", maths(&t[i + 1..j])?) });
                    i = j + 1;
                    continue;
                }
                let x = match &n.x {
                    X2::Scope(g) => X3::Scope(group3(g)?),
                    X2::Cmd(l, a) => X3::Cmd(l.clone(), args3(a)?),
                    X2::Env(e) => X3::Env(env3(e)?),
                    X2::Text(_) => unreachable!(),
                };
                out.push(N3 { line, x });
                i += 1;
            }
        }
    }
    Ok(out)
}

pub type Opt = (String, String, Option<(String, String, String)>, String);

pub struct Doc3 {
    pub class: Option<String>,
    pub options: Vec<Opt>,
    pub preamble: Vec<N3>,
    /// none if there is no `document` environment
    pub body: Option<Env<N3>>,
    pub trailing: Vec<N3>,
    /// line the trailing section starts in
    pub trailing_line: u32,
}

fn split_ws(s: &str) -> (String, String, String) {
    let c: Vec<char> = s.chars().collect();
    let mut a = 0;
    while a < c.len() && c[a].is_whitespace() {
        a += 1
    }
    let mut b = c.len();
    while b > a && c[b - 1].is_whitespace() {
        b -= 1
    }
    (c[..a].iter().collect(), c[a..b].iter().collect(), c[b..].iter().collect())
}

pub fn option(s: &str) -> Opt {
    let (pre, core, post) = split_ws(s);
    if core.is_empty() {
        return (String::new(), core, None, pre);
    }
    let c: Vec<char> = core.chars().collect();
    let mut eq = 0;
    while eq < c.len() && c[eq] != '=' {
        eq += 1
    }
    if eq == c.len() {
        return (pre, core, None, post);
    }
    let k: String = c[..eq].iter().collect();
    let v: String = c[eq + 1..].iter().collect();
    let (_, key, eq_pre) = split_ws(&k);
    let (eq_post, val, _) = split_ws(&v);
    (pre, key, Some((eq_pre, eq_post, val)), post)
}

pub fn doc3(n: &[N2]) -> Result<Doc3, E> {
    let mut class = None;
    let mut options = Vec::new();
    let mut i = 0;
    while i < n.len() {
        match &n[i].x {
            X2::Env(e) if e.label == "document" => break,
            X2::Cmd(l, args) if l == "documentclass" => {
                if class.is_some() {
                    return err(n[i].line, EK::DoubleDocumentClass);
                }
                for (_, g) in args {
                    let mut s = String::new();
                    show2(&g.content, &mut s);
                    if g.v == V::Curly {
                        if class.is_some() {
                            return err(n[i].line, EK::TooManyArgsDocumentClass);
                        }
                        class = Some(s)
                    } else {
                        let mut o = String::new();
                        for c in s.chars() {
                            if c == ',' {
                                options.push(option(&o));
                                o.clear()
                            } else {
                                o.push(c)
                            }
                        }
                        options.push(option(&o))
                    }
                }
            }
            _ => {}
        }
        i += 1
    }
    let mut body = None;
    let mut trailing_line = 1;
    if let Some(N2 { x: X2::Env(e), .. }) = n.get(i) {
        body = Some(env3(e)?);
        let mut s = String::new();
        show2(&e.content, &mut s);
        trailing_line = e.line + nl(&s) + nl(&e.end) + nl(&e.label);
    }
    let preamble = stage3(&n[..i])?;
    let trailing = if i < n.len() { stage3(&n[i + 1..])? } else { Vec::new() };
    Ok(Doc3 { class, options, preamble, body, trailing, trailing_line })
}
