//! Relations between conversions: layout does not matter (C24), parts convert to parts (C26).
use crate::cx::*;
use crate::reflex;
use crate::{doc, latex, soup, tree};
use mitex_lexer::{BraceKind, CommandName as C, Token as T};

fn spec() -> &'static mitex_spec::CommandSpec {
    latex::spec()
}

/// characters that join the ones before them
fn odd(s: &str) -> bool {
    s.chars().any(|c| c.is_ascii_control() && !matches!(c, '\t' | '\n' | '\r') || !c.is_ascii() && !matches!(c, '😀' | '\u{a0}' | '\u{3000}' | 'ﬁ' | '\u{c0}'..='\u{24f}' | '\u{391}'..='\u{3c9}' | '\u{4e00}'..='\u{9fff}'))
}

/// a formula: abstract, mutated, or hostile
pub fn formula(cx: &mut Cx) -> String {
    let r = &mut cx.rng;
    match r.below(5) {
        0 => soup::hostile(r),
        1 | 2 => {
            let mut c = latex::Cfg::full();
            c.depth = 1 + r.below(3);
            c.color = true;
            let v = latex::list(r, c);
            let l = r.below(3);
            let s = latex::tex(r, l, &v);
            if r.chance(1, 2) {
                soup::mutate(r, &s)
            } else {
                s
            }
        }
        3 => math_soup(r),
        _ => {
            let n = 1 + r.below(4);
            soup::token_soup(r, n)
        }
    }
}

/// fragments that are mostly well-formed in formulas
pub fn math_soup(r: &mut crate::rng::Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(10) {
        match r.below(16) {
            0 => s.push_str(r.pick(&["_", "^", "'", "_a", "^2", "_{x}", "^{y}", "''"])),
            1 => s.push_str(r.pick(soup::WORDS)),
            2 => s.push_str(r.pick(&[",", ";", "/", "(", ")", "[", "]", "|", "*", "@", "\"", "~", "#", "."])),
            3 => {
                s.push('{');
                if r.chance(2, 3) {
                    let t = math_soup(r);
                    s.push_str(&t);
                }
                s.push('}');
            }
            4 => s.push_str(r.pick(&["\\frac", "\\sqrt", "\\hat", "\\binom", "\\text", "\\overset", "\\limits", "\\sqrt[3]", "\\operatorname", "\\mathbf", "\\stackrel"])),
            5 => s.push_str(r.pick(&["\\over ", "\\choose ", "\\displaystyle ", "\\bf ", "\\atop ", "\\rm "])),
            6 => {
                let (a, b) = *r.pick(&[("\\left(", "\\right)"), ("\\left.", "\\right|"), ("\\left\\{", "\\right."), ("\\begin{matrix}", "\\end{matrix}"), ("\\begin{cases}", "\\end{cases}"), ("\\begin{aligned}", "\\end{aligned}"), ("\\begin{array}{lc}", "\\end{array}"), ("\\substack{", "}"), ("\\begin{equation}", "\\end{equation}")]);
                s.push_str(a);
                let t = math_soup(r);
                s.push_str(&t);
                if a.starts_with("\\begin") && r.chance(1, 2) {
                    s.push_str(r.pick(&["&", "\\\\", "& &", "\\\\ \\\\"]));
                    let t = math_soup(r);
                    s.push_str(&t);
                }
                s.push_str(b);
            }
            7 => s.push_str(r.pick(&[" ", "\n", "%c\n"])),
            8 => {
                s.push('\\');
                s.push_str(r.pick(&["!", ",", ":", "{", "}", "$", "%", "&", "|", "_", "#", ";", ">"]));
            }
            9 => {
                s.push('\\');
                s.push_str(r.pick(&latex::names().sym_any));
                s.push(' ');
            }
            10 => s.push_str(r.pick(&["\\text{a b}", "\\textbf{x}", "\\mbox{if }", "\\text{$x$}", "\\color{red}", "\\textcolor{red}{x}", "\\label{a}", "\\tag{1}", "\\operatorname{lim}", "\\operatorname*{lim}"])),
            _ => s.push_str(r.pick(soup::WORDS)),
        }
    }
    s
}

/// a document: abstract, mutated, or hostile
pub fn document(cx: &mut Cx) -> String {
    let r = &mut cx.rng;
    match r.below(4) {
        0 => soup::hostile(r),
        1 | 2 => {
            let mut c = doc::DCfg::full();
            c.depth = 1 + r.below(2);
            let v = doc::doc(r, c);
            let l = r.below(3);
            let s = doc::spell(r, l, &v).0;
            if r.chance(1, 2) {
                soup::mutate(r, &s)
            } else {
                s
            }
        }
        _ => {
            let n = 1 + r.below(6);
            soup::token_soup(r, n)
        }
    }
}

/// a text command without braces around its argument
fn bare_text(s: &str, v: &[reflex::Tok]) -> bool {
    let toks: Vec<&reflex::Tok> = v.iter().filter(|t| !t.kind.is_trivia()).collect();
    toks.iter().enumerate().any(|(i, t)| {
        t.kind == T::CommandName(C::Generic)
            && spec().get_cmd(&s[t.start + 1..t.end]).and_then(|c| c.alias.as_deref()).is_some_and(|a| a.starts_with('#'))
            && !toks.get(i + 1).is_some_and(|t| matches!(t.kind, T::Left(BraceKind::Curly | BraceKind::Bracket)))
    })
}

// ---------------------------------------------------------------- C24

/// colour models are taken literally
fn plain_models(s: &str) -> bool {
    ["\\color", "\\textcolor", "\\colorbox"].iter().all(|c| {
        s.match_indices(c).all(|(i, _)| {
            let x = s[i + c.len()..].trim_start_matches(|c: char| c.is_ascii_alphabetic()).trim_start();
            match x.strip_prefix('[') {
                Some(x) => x.split(']').next().is_some_and(|m| m.chars().all(|c| c.is_ascii_alphanumeric())),
                None => true,
            }
        })
    })
}

pub fn layout(cx: &mut Cx) {
    if cx.k == 0 {
        // known: what follows the colour becomes one equation per item, a space included
        let f = |s: &str| math(s).ok().and_then(|o| tree::math_tree(o).ok());
        cx.eval();
        if f("\\color{red}x") != f("\\color{red} x") {
            cx.fail("space after \\color in a formula", "\\color{red}x and \\color{red} x");
        }
    }
    let m = cx.rng.chance(1, 2);
    let s = if m { formula(cx) } else { document(cx) };
    let v = reflex::lex(&s, spec());
    if v.iter().any(|t| matches!(t.kind, T::CommandName(C::If(_) | C::Else | C::EndIf))) || super::c01::has_macro(&s) || s.contains("mitexrec") {
        return;
    }
    // `\` before white space or at the end is a command of its own
    if v.iter().any(|t| t.end - t.start == 1 && s[t.start..].starts_with('\\')) {
        return;
    }
    if v.iter().any(|t| t.kind == T::Dollar) && !reflex::balanced(&s, spec()) {
        return;
    }
    // (what follows \color in a formula becomes one equation per item, the spaces too)
    if m && v.iter().any(|t| &s[t.start..t.end] == "\\color") {
        return;
    }
    if odd(&s) {
        return;
    }
    let solid: Vec<T> = v.iter().map(|t| t.kind).filter(|k| !k.is_trivia()).collect();
    if solid.windows(2).any(|w| matches!(w, [T::Caret | T::Underscore, T::Right(_)])) {
        return;
    }
    if bare_text(&s, &v) {
        return;
    }
    // the arguments of these are taken literally
    if (s.contains("\\label") || s.contains("\\includegraphics") || s.contains("{tabular}")) && !reflex::balanced(&s, spec()) {
        return;
    }
    if !plain_models(&s) {
        return;
    }
    // documents inside formulas
    if m && ["quote", "abstract", "figure", "table", "tabular", "itemize", "enumerate"].iter().any(|n| s.contains(&format!("{{{n}}}"))) {
        return;
    }
    let mut u = String::new();
    let mut changes = 0;
    let mut literal = vec![false; v.len()];
    // the arguments of text commands are not formulas
    let mut text_from: Option<i32> = None;
    let mut depth = 0;
    let mut env_space = false;
    let r = &mut cx.rng;
    for (i, t) in v.iter().enumerate() {
        let x = &s[t.start..t.end];
        let clause = matches!(t.kind, T::CommandName(C::BeginEnvironment | C::EndEnvironment));
        if clause && x.contains(['%', '\n', '\r', ' ']) {
            env_space = true;
        }
        literal[i] = text_from.is_some();
        match t.kind {
            T::LineComment if literal[i] => {}
            T::LineComment if r.chance(1, 2) => {
                u.push_str(r.pick(&["%", "% x", "%} $ \\end{matrix}", "%\\", "%% \\item {"]));
                changes += 1;
                continue;
            }
            T::Whitespace | T::LineBreak if text_from.is_some() => {}
            T::Whitespace if x.is_ascii() && r.chance(1, 2) => {
                u.push_str(r.pick(&[" ", "  ", "\t", " \t "]));
                changes += 1;
                continue;
            }
            T::LineBreak if r.chance(1, 2) => {
                // the same number of line ends
                if m {
                    u.push_str(r.pick(&["\n", "\r\n", "\n\n", "\r"]));
                } else {
                    let n = x.matches('\n').count() + x.matches('\r').count() - x.matches("\r\n").count();
                    let e = *r.pick(&["\n", "\r\n"]);
                    u.push_str(&e.repeat(n));
                }
                changes += 1;
                continue;
            }
            _ => {}
        }
        // between the tokens of a formula anything goes
        let prev = i.checked_sub(1).map(|j| v[j].kind);
        if text_from.is_some_and(|d| depth == d && !t.kind.is_trivia() && !matches!(t.kind, T::Left(BraceKind::Curly | BraceKind::Bracket) | T::Right(BraceKind::Bracket) | T::Word | T::Comma)) {
            // an argument without braces
            return;
        }
        if m && text_from.is_none() && r.chance(1, 4) && prev != Some(T::LineComment) {
            u.push_str(r.pick(&[" ", "\n", "%z { } $ &\n", "%\n ", "\r\n", "\t"]));
            changes += 1;
        }
        u.push_str(x);
        match t.kind {
            T::Left(BraceKind::Curly) => depth += 1,
            T::Right(BraceKind::Curly) => {
                depth -= 1;
                if text_from.is_some_and(|d| depth <= d) {
                    text_from = None;
                }
            }
            T::CommandName(C::BeginEnvironment) if x.contains("{tabular") => text_from = Some(depth),
            T::CommandName(C::Generic) if text_from.is_none() => {
                if matches!(&x[1..], "label" | "includegraphics") || m && spec().get_cmd(&x[1..]).and_then(|c| c.alias.as_deref()).is_some_and(|a| a.starts_with('#')) {
                    text_from = Some(depth);
                }
            }
            _ => {}
        }
    }
    let _ = env_space;
    if changes == 0 {
        return;
    }
    cx.about(false, &format!("{s}\n--\n{u}"));
    let f = |s: &str| if m { math(s) } else { text(s) };
    let (a, b) = (f(&s), f(&u));
    cx.eval();
    cx.add("layout changes", changes);
    cx.distinct(&u);
    match (&a, &b) {
        (Out::Ok(x), Out::Ok(y)) => {
            let tr = |s: &str| if m { tree::math_tree(s) } else { tree::text_tree(s) };
            match (tr(x), tr(y)) {
                (Ok(p), Ok(q)) if p != q => {
                    let i = p.bytes().zip(q.bytes()).take_while(|(a, b)| a == b).count();
                    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(20)..(i + 40).min(s.len())]).into_owned();
                    cx.fail("layout changes the result", format!("math={m} {s:?} => {x:?}\nother layout: {u:?} => {y:?}\nat: {} <> {}", cut(&p), cut(&q)))
                }
                (Ok(_), Ok(_)) => {
                    cx.count("same tree");
                    cx.sample(|| format!("{s:?} ~ {u:?}"));
                }
                (Err(_), Err(_)) => cx.count("code does not parse"),
                (Ok(_), Err(e)) | (Err(e), Ok(_)) => cx.fail(format!("layout changes the result: {e}"), format!("math={m} {s:?} => {x:?}\nother layout: {u:?} => {y:?}")),
            }
        }
        (Out::Err(_), Out::Err(_)) => cx.count("both rejected"),
        _ => cx.fail("layout changes the outcome", format!("math={m} {s:?} => {a:?}\nother layout: {u:?} => {b:?}")),
    }
    // what a comment says does not show
    if let Out::Ok(_) = a {
        let mark = "zqjx";
        let w: String = v
            .iter()
            .enumerate()
            .map(|(i, t)| if t.kind == T::LineComment && !literal[i] { format!("%{mark}\\zqjx{{}}") } else { s[t.start..t.end].to_string() })
            .collect();
        if w != s && !s.contains(mark) && brackets(&v) {
            cx.eval();
            cx.count("comment content");
            match f(&w) {
                Out::Ok(o) if !o.contains(mark) => {}
                o => cx.fail("comment shows", format!("math={m} {w:?} => {o:?}")),
            }
        }
    }
}

fn brackets(v: &[reflex::Tok]) -> bool {
    let mut open = vec![];
    v.iter().all(|t| match t.kind {
        T::Left(b) => {
            open.push(b);
            true
        }
        T::Right(b) => open.pop() == Some(b),
        _ => true,
    }) && open.is_empty()
}

// ---------------------------------------------------------------- C26

/// cell separators and line breaks that belong to an environment around the text, and formulas
fn reaches_out(s: &str) -> bool {
    let mut depth = 0;
    let mut open = vec![];
    let v = reflex::lex(s, spec());
    let toks: Vec<&reflex::Tok> = v.iter().filter(|t| !t.kind.is_trivia()).collect();
    // an environment without the argument that it needs
    for w in toks.windows(2) {
        if w[0].kind == T::CommandName(C::BeginEnvironment)
            && spec().get_env(&s[w[0].text.0..w[0].text.1]).is_some_and(|e| !matches!(e.args, mitex_spec::ArgPattern::None))
            && w[1].kind != T::Left(BraceKind::Curly)
        {
            return true;
        }
    }
    let solid: Vec<T> = toks.iter().map(|t| t.kind).collect();
    if s.contains("\\label") || solid.windows(2).any(|w| matches!(w, [T::Caret | T::Underscore, T::Right(_)])) {
        return true;
    }
    // a script sign in want of its script
    if v.iter().rev().find(|t| !t.kind.is_trivia()).map(|t| matches!(t.kind, T::Caret | T::Underscore)).unwrap_or(false) {
        return true;
    }
    let mut delimiter = false;
    for t in reflex::lex(s, spec()) {
        // the sign of a paired delimiter closes nothing else
        let was = delimiter;
        delimiter = t.kind.is_trivia() && was || matches!(t.kind, T::CommandName(C::Left | C::Right));
        if was && matches!(t.kind, T::Left(BraceKind::Bracket | BraceKind::Paren) | T::Right(BraceKind::Bracket | BraceKind::Paren)) {
            continue;
        }
        match t.kind {
            T::CommandName(C::BeginEnvironment) => depth += 1,
            T::CommandName(C::EndEnvironment) => depth -= 1,
            // (those within braces belong to what the braces hold)
            T::Ampersand | T::NewLine | T::Dollar | T::CommandName(C::BeginMath | C::EndMath) if open.contains(&Some(BraceKind::Curly)) => {}
            T::Ampersand | T::NewLine if depth == 0 => return true,
            T::Dollar | T::CommandName(C::BeginMath | C::EndMath) => return true,
            // (an escape at the end takes what follows)
            T::CommandName(C::Generic) if t.end - t.start == 1 => return true,
            T::CommandName(C::Generic) if &s[t.start..t.end] == "\\item" => return true,
            T::LineComment if t.end == s.len() => return true,
            T::CommandName(C::Left) => open.push(None),
            T::CommandName(C::Right) if open.pop() != Some(None) => return true,
            T::Left(b) => open.push(Some(b)),
            T::Right(b) => {
                if open.pop() != Some(Some(b)) {
                    return true;
                }
            }
            _ => {}
        }
    }
    !open.is_empty()
}

/// signs that are one with the sign in front of them, which need not be a letter
fn joins(s: &str) -> bool {
    let v: Vec<char> = s.chars().collect();
    (0..v.len()).any(|i| !v[i].is_ascii() && (!v[i].is_alphanumeric() || ('\u{600}'..'\u{1200}').contains(&v[i])) && !(i > 0 && v[i - 1].is_alphabetic()))
}

/// a cell separator directly within a group, or a line break in the name of a colour,
/// which LaTeX refuses
fn misplaced(s: &str) -> bool {
    #[derive(PartialEq)]
    enum In {
        Environment,
        Group,
        Colour,
    }
    let mut open = vec![];
    let mut colour = false;
    for t in reflex::lex(s, spec()) {
        match t.kind {
            _ if t.kind.is_trivia() => continue,
            T::CommandName(C::BeginEnvironment) => open.push(In::Environment),
            T::Left(BraceKind::Curly) => open.push(if colour { In::Colour } else { In::Group }),
            T::CommandName(C::EndEnvironment) | T::Right(BraceKind::Curly) => {
                open.pop();
            }
            T::Ampersand if open.last() == Some(&In::Group) => return true,
            T::Ampersand | T::NewLine if colour || open.contains(&In::Colour) => return true,
            _ => {}
        }
        colour = match t.kind {
            T::CommandName(C::Generic) => matches!(&s[t.start..t.end], "\\color" | "\\textcolor" | "\\colorbox"),
            // (the model)
            T::Left(BraceKind::Bracket) | T::Right(BraceKind::Bracket) | T::Word => colour,
            _ => false,
        };
    }
    false
}

pub fn part(cx: &mut Cx) -> Option<(String, Out)> {
    for _ in 0..20 {
        let s = formula(cx);
        if misplaced(&s) || s.contains("\\item") || s.contains("mitexrec") || super::c01::has_macro(&s) || !reflex::balanced(&s, spec()) || reaches_out(&s) || s.len() > 400 || joins(&s) {
            continue;
        }
        cx.about(false, &s);
        let o = math(&s);
        return Some((s, o));
    }
    None
}

pub fn compose(cx: &mut Cx) {
    let Some((s, os)) = part(cx) else { return };
    let Some((t, ot)) = part(cx) else { return };
    let (rs, rt) = (os.clone(), ot.clone());
    let code = |o: &Out| match o {
        Out::Ok(o) if o.trim().is_empty() => "zws ".to_string(),
        Out::Ok(o) => o.clone(),
        _ => String::new(),
    };
    let (a, b) = (code(&rs), code(&rt));
    // the code of a part has to stand on its own
    let whole = |x: &Out, c: &str| match x {
        Out::Ok(_) => tree::math_tree(c).is_ok() && tree::math_tree(&format!("vec({c})")).is_ok(),
        _ => true,
    };
    if !whole(&rs, &a) || !whole(&rt, &b) {
        cx.count("part does not stand alone");
        return;
    }
    let ok = rs.ok().is_some() && rt.ok().is_some();
    let forms: Vec<(&str, bool, String, String)> = vec![
        ("group", true, format!("{{{s}}}{{{t}}}"), format!("{a} {b}")),
        ("frac", true, format!("\\frac{{{s}}}{{{t}}}"), format!("frac({a}, {b})")),
        ("scripts", true, format!("x_{{{s}}}^{{{t}}}"), format!("x _({a})^({b})")),
        ("root", true, format!("\\sqrt{{{s}}}{{{t}}}"), format!("mitexsqrt({a}) {b}")),
        ("pair", true, format!("\\left({{{s}}}\\right]{{{t}}}"), format!("lr(\\( {a} \\] ) {b}")),
        ("cells", true, format!("\\begin{{matrix}}{{{s}}}&{{{t}}}\\\\{{{t}}}\\end{{matrix}}"), format!("matrix({a}zws , {b}zws ; {b})")),
        ("bare cells", true, format!("\\begin{{pmatrix}}{s}&{t}\\end{{pmatrix}}"), format!("pmatrix({a}zws , {b})")),
        ("lines", true, format!("\\begin{{aligned}}{{{s}}}\\\\{t}\\end{{aligned}}"), format!("aligned({a}\\ {b})")),
        ("infix", true, format!("{{{{{s}}}\\over{{{t}}}}}"), format!("frac({a}, {b})")),
        ("inline", false, format!("u ${s}$ v \\({t}\\)"), format!("u #math.equation(block: false, ${a}$); v #math.equation(block: false, ${b}$);")),
        ("display", false, format!("u\n\n$${s}$$\n\n\\[{t}\\]"), format!("u\n\n$ {a} $\n\n$ {b} $")),
        ("styled", false, format!("\\textbf{{${s}$}} w ${t}$"), format!("#strong[#math.equation(block: false, ${a}$);]; w #math.equation(block: false, ${b}$);")),
    ];
    let i = cx.rng.below(forms.len());
    for d in 0..3 {
        let (name, m, l, want) = &forms[(i + d * 5) % forms.len()];
        // bare cells: an empty part is an empty cell
        if (s.trim() != "" && a.starts_with("zws")) || (t.trim() != "" && b.starts_with("zws")) {
            // commands without code
            continue;
        }
        let bare = matches!(*name, "bare cells" | "lines" | "inline" | "display" | "styled");
        if bare && (a.starts_with("zws") || b.starts_with("zws") || s.trim_start().starts_with('[')) {
            continue;
        }
        cx.about(false, l);
        let o = if *m { math(l) } else { text(l) };
        cx.eval();
        cx.count(name);
        cx.distinct(l);
        let tr = |s: &str| if *m { tree::math_tree(s) } else { tree::text_tree(s) };
        match &o {
            Out::Panic(p) => cx.fail(format!("panic {p}"), l.clone()),
            Out::Ok(_) if !ok => {
                let e = [&rs, &rt].into_iter().find(|o| o.ok().is_none()).unwrap();
                cx.fail("error of a part is swallowed", format!("{l:?} => {o:?}; a part alone: {e:?}"))
            }
            Out::Err(_) if !ok => cx.count("error of a part is reported"),
            Out::Err(e) => cx.fail("valid parts are rejected", format!("{l:?}: {e}")),
            Out::Ok(o) => match (tr(o), tr(want)) {
                (Ok(p), Ok(q)) if p == q => {
                    cx.count("same tree");
                    cx.sample(|| format!("{l:?} => {o:?}"));
                }
                (p, Ok(q)) => cx.fail(format!("{name}: parts change"), format!("{l:?} => {o:?}\nexpected {want:?}\ntree {p:?}\nexpected {q:?}")),
                (_, Err(_)) => cx.count("expected code does not parse"),
            },
        }
    }
    let _ = BraceKind::Curly;
}

// ---------------------------------------------------------------- C12

/// code that cannot stand where it is put for reasons listed as limits
fn limits(s: &str, m: bool) -> bool {
    let v = reflex::lex(s, spec());
    let toks: Vec<&reflex::Tok> = v.iter().filter(|t| !t.kind.is_trivia()).collect();
    let txt = |t: &reflex::Tok| &s[t.start..t.end];
    if odd(s) {
        return true;
    }
    if m && ["quote", "abstract", "figure", "table", "tabular", "itemize", "enumerate"].iter().any(|n| s.contains(&format!("{{{n}}}"))) {
        return true;
    }
    let empty = |n: &str| n == "\\label" || n == "\\caption" || n == "\\centering" || n == "\\item" || spec().get_cmd(&n[1..]).is_some_and(|c| c.alias.as_deref() == Some(""));
    for (i, t) in toks.iter().enumerate() {
        if t.kind == T::CommandName(C::Generic) {
            let n = txt(t);
            if latex::FRAGILE.contains(&&n[1..]) || n == "\\*" || n == "\\@ifstar" {
                return true;
            }
            // not for documents, where they would begin a label
            if spec().get_cmd(&n[1..]).and_then(|c| c.alias.as_deref()).is_some_and(|a| a.starts_with('<')) && (!m || s.contains("color") || bare_text(s, &v) || s.contains("\\text")) {
                return true;
            }
            // colours are not formulas
            if matches!(n, "\\textcolor" | "\\colorbox" | "\\color") && toks[i + 1..].iter().take_while(|t| t.kind != T::Right(BraceKind::Curly)).any(|t| matches!(t.kind, T::CommandName(_))) {
                return true;
            }
            if empty(n) {
                // nothing to attach to, or nothing for the argument
                if i > 0 && matches!(toks[i - 1].kind, T::CommandName(C::BeginEnvironment)) {
                    return true;
                }
                let mut j = i + 1;
                if matches!(n, "\\label" | "\\caption") && toks.get(j).is_some_and(|t| t.kind == T::Left(BraceKind::Curly)) {
                    let mut d = 0;
                    while j < toks.len() {
                        match toks[j].kind {
                            T::Left(BraceKind::Curly) => d += 1,
                            T::Right(BraceKind::Curly) => {
                                d -= 1;
                                if d == 0 {
                                    break;
                                }
                            }
                            _ => {}
                        }
                        j += 1;
                    }
                    j += 1;
                } else if n == "\\label" {
                    return true;
                }
                if toks.get(j).is_some_and(|t| matches!(t.kind, T::Caret | T::Underscore | T::Apostrophe)) {
                    return true;
                }
                // as an argument or a script
                if i > 0 && matches!(toks[i - 1].kind, T::Caret | T::Underscore) {
                    return true;
                }
            }
        }
    }
    false
}

/// nothing of the code reaches out of the place it is put in
pub fn contained(o: &str, m: bool) -> Result<(), String> {
    use typst_syntax::SyntaxKind as K;
    let err = |n: &typst_syntax::SyntaxNode| n.errors().first().map(|e| e.message.to_string());
    if m {
        let r = typst_syntax::parse_math(o);
        if let Some(e) = err(&r) {
            return Err(e);
        }
        let r = typst_syntax::parse(&format!("${o}$"));
        if let Some(e) = err(&r) {
            return Err(format!("as an equation: {e}"));
        }
        if r.children().len() != 1 || r.children().next().unwrap().kind() != K::Equation {
            return Err("ends the equation".into());
        }
        let r = typst_syntax::parse_math(&format!("vec({o}) "));
        if let Some(e) = err(&r) {
            return Err(format!("as an argument: {e}"));
        }
        let mut c = r.children().filter(|c| c.kind() != K::Space);
        let (a, b) = (c.next(), c.next());
        let Some(call) = a.filter(|c| c.kind() == K::FuncCall && b.is_none()) else {
            return Err("ends the argument".into());
        };
        let args = call.children().find(|c| c.kind() == K::Args).unwrap();
        if let Some(x) = args.children().find(|c| matches!(c.kind(), K::Comma | K::Array | K::Named | K::Spread)) {
            return Err(format!("more than one argument: {:?}", x.kind()));
        }
    } else {
        let r = typst_syntax::parse(o);
        if let Some(e) = err(&r) {
            return Err(e);
        }
        let r = typst_syntax::parse(&format!("#[{o}\n];"));
        if let Some(e) = err(&r) {
            return Err(format!("as a block: {e}"));
        }
        let kinds: Vec<K> = r.children().map(|c| c.kind()).collect();
        if kinds != [K::Hash, K::ContentBlock, K::Semicolon] {
            return Err(format!("ends the block: {kinds:?}"));
        }
    }
    Ok(())
}

pub fn wellformed(cx: &mut Cx) {
    let m = cx.rng.chance(1, 2);
    let s = if m { formula(cx) } else { document(cx) };
    if super::c01::has_macro(&s) || s.contains("mitexrec") || !reflex::balanced(&s, spec()) {
        return;
    }
    if limits(&s, m) {
        cx.count("outside the promise");
        return;
    }
    let v = reflex::lex(&s, spec());
    if m && bare_text(&s, &v) {
        return;
    }
    let solid: Vec<T> = v.iter().map(|t| t.kind).filter(|k| !k.is_trivia()).collect();
    if solid.windows(2).any(|w| matches!(w, [T::Caret | T::Underscore, T::Right(_)])) || s.contains("\\label") && !brackets(&v) {
        return;
    }
    cx.about(false, &s);
    let o = if m { math(&s) } else { text(&s) };
    cx.eval();
    match o {
        Out::Ok(o) => {
            cx.count(if m { "formulas" } else { "documents" });
            cx.distinct(&o);
            cx.max("code length", o.len() as u64);
            match contained(&o, m) {
                Ok(()) => cx.sample(|| format!("{s:?} => {o:?}")),
                Err(e) => cx.fail(format!("code not well-formed: {e}"), format!("math={m} {s:?} => {o:?}")),
            }
        }
        Out::Err(_) => cx.count("rejected"),
        Out::Panic(p) => cx.fail(format!("panic {p}"), s),
    }
}
