//! Tokenizing, expanding, parsing and converting documents.
use crate::{guard, put, Specs};
use mitex_lexer::{BraceKind, CommandName, IfCommandName, Lexer, MacroEngine, Token, TokenStream};
use mitex_parser::syntax::{SyntaxElement, SyntaxKind, SyntaxNode};
use mitex_spec::CommandSpec;
use serde_json::{json, Map, Value};

/// The name of a token kind in the specification.
pub fn tok_kind(t: Token) -> String {
    use Token::*;
    match t {
        LineBreak => "nl",
        Whitespace => "ws",
        LineComment => "com",
        Left(BraceKind::Curly) => "{",
        Right(BraceKind::Curly) => "}",
        Left(BraceKind::Bracket) => "[",
        Right(BraceKind::Bracket) => "]",
        Left(BraceKind::Paren) => "(",
        Right(BraceKind::Paren) => ")",
        Comma => ",",
        Tilde => "~",
        Slash => "/",
        Ampersand => "&",
        Caret => "^",
        Apostrophe => "'",
        Ditto => "\"",
        Semicolon => ";",
        Hash => "#",
        Asterisk => "*",
        AtSign => "@",
        Underscore => "_",
        Word => "w",
        Dollar => "$",
        NewLine => "newline",
        CommandName(c) => match c {
            self::CommandName::Generic => "cmd",
            self::CommandName::BeginEnvironment => "begin",
            self::CommandName::EndEnvironment => "end",
            self::CommandName::BeginMath => "bmath",
            self::CommandName::EndMath => "emath",
            self::CommandName::ErrorBeginEnvironment => "ebegin",
            self::CommandName::ErrorEndEnvironment => "eend",
            self::CommandName::If(_) => "if",
            self::CommandName::Else => "else",
            self::CommandName::EndIf => "fi",
            self::CommandName::Left => "left",
            self::CommandName::Right => "right",
        },
        Error => "error",
        MacroArg(n) => return format!("m{n}"),
        #[allow(unreachable_patterns)]
        _ => "other",
    }
    .into()
}

/// The literal conditionals are the ones the macro engine evaluates.
pub fn if_class(t: Token) -> &'static str {
    match t {
        Token::CommandName(CommandName::If(IfCommandName::IfTrue)) => "true",
        Token::CommandName(CommandName::If(IfCommandName::IfFalse)) => "false",
        Token::CommandName(CommandName::If(IfCommandName::IfTypst)) => "typst",
        _ => "other",
    }
}

pub fn tok(t: (Token, &str)) -> Value {
    let text = if t.0 == Token::Error { "" } else { t.1 };
    json!([tok_kind(t.0), text])
}

/// All tokens; more than `max` of them count as an endless stream.
pub fn toks<'a, S: TokenStream<'a>>(mut l: Lexer<'a, S>, max: usize) -> Vec<Value> {
    let mut v = vec![];
    while let Some(t) = l.eat() {
        v.push(tok(t));
        if v.len() > max {
            panic!("endless token stream");
        }
    }
    v
}

fn kind_name(k: SyntaxKind, text: Option<&str>) -> String {
    use SyntaxKind::*;
    match k {
        TokenError => "error",
        TokenLineBreak => "nl",
        TokenWhiteSpace => "ws",
        TokenComment => "com",
        TokenLBrace => "{",
        TokenRBrace => "}",
        TokenLBracket => "[",
        TokenRBracket => "]",
        TokenLParen => "(",
        TokenRParen => ")",
        TokenComma => ",",
        TokenTilde => "~",
        TokenSlash => "/",
        TokenWord => "w",
        TokenDollar => "$",
        TokenBeginMath => "bmath",
        TokenEndMath => "emath",
        TokenAmpersand => "&",
        TokenHash => "#",
        TokenAsterisk => "*",
        TokenAtSign => "@",
        TokenUnderscore => "_",
        TokenCaret => "^",
        TokenApostrophe => "'",
        TokenDitto => "\"",
        TokenSemicolon => ";",
        TokenCommandSym => "sym",
        ClauseCommandName => "name",
        ClauseArgument => "arg",
        ClauseLR => "lrc",
        ItemNewLine => "newline",
        ItemText => "text",
        ItemCurly => "curly",
        ItemBracket => "bracket",
        ItemParen => "paren",
        ItemCmd => "cmd",
        ItemEnv => "env",
        ItemLR => "lr",
        ItemBegin => "beginc",
        ItemEnd => "endc",
        ItemBlockComment => "comment",
        ItemTypstCode => "typst",
        ItemAttachComponent => "attach",
        ItemFormula => "formula",
        ScopeRoot => "root",
        #[allow(unreachable_patterns)]
        _ => return format!("{k:?}:{}", text.is_some()),
    }
    .into()
}

fn tree(e: SyntaxElement) -> Value {
    match e {
        SyntaxElement::Token(t) => {
            let k = kind_name(t.kind(), Some(t.text()));
            let text = t.text();
            let known = text.starts_with("\\begin") || text.starts_with("\\end");
            let text = if k == "error" && !known { "" } else { text };
            json!(["T", k, text])
        }
        SyntaxElement::Node(n) => {
            let kids: Vec<Value> = n.children_with_tokens().map(tree).collect();
            json!(["N", kind_name(n.kind(), None), kids])
        }
    }
}

fn node_tree(n: SyntaxNode) -> Value {
    tree(SyntaxElement::Node(n))
}

pub fn conv(doc: &str, mode: &str, spec: Option<CommandSpec>) -> Value {
    let r = if mode == "text" { mitex::convert_text(doc, spec) } else { mitex::convert_math(doc, spec) };
    match r {
        Ok(s) => json!([true, s]),
        Err(e) => json!([false, e]),
    }
}

fn spec_of(job: &Value, specs: &Specs) -> CommandSpec {
    specs[job["spec"].as_str().unwrap_or("default")].clone()
}

/// One document: whatever views of it the job asks for.
pub fn doc(job: &Value, specs: &Specs, out: &mut Map<String, Value>) {
    let doc = job["doc"].as_str().unwrap();
    let spec = spec_of(job, specs);
    let max = 1_000_000;
    for v in job["views"].as_array().unwrap() {
        let v = v.as_str().unwrap();
        match v {
            "lex" => put(out, v, || json!(toks(Lexer::<()>::new(doc, spec.clone()), max))),
            "ifs" => put(out, v, || {
                let mut l = Lexer::<()>::new(doc, spec.clone());
                let mut r = vec![];
                while let Some((t, _)) = l.eat() {
                    if tok_kind(t) == "if" {
                        r.push(if_class(t));
                    }
                }
                json!(r)
            }),
            "exp" => put(out, v, || {
                json!(toks(Lexer::new_with_bumper(doc, spec.clone(), MacroEngine::new(spec.clone())), max))
            }),
            "tree" => put(out, v, || node_tree(mitex_parser::parse_without_macro(doc, spec.clone()))),
            "treem" => put(out, v, || node_tree(mitex_parser::parse(doc, spec.clone()))),
            "text" | "math" => put(out, v, || conv(doc, v, Some(spec.clone()))),
            "nomacro" => put(out, v, || {
                let r = mitex::convert_math_no_macro(doc, Some(spec.clone()));
                match r {
                    Ok(s) => json!([true, s]),
                    Err(e) => json!([false, e]),
                }
            }),
            "dtext" => put(out, v, || conv(doc, "text", None)),
            "dmath" => put(out, v, || conv(doc, "math", None)),
            _ => panic!("unknown view {v}"),
        }
    }
}

/// A reader driven by a script of operations.
/// e: take a token, p: peek, c: peek the first character, 1..9: consume so
/// many bytes of the text (only at a character boundary)
fn script<'a, S: TokenStream<'a>>(mut l: Lexer<'a, S>, ops: &str) -> Vec<Value> {
    let mut v = vec![];
    for o in ops.chars() {
        v.push(match o {
            'e' => l.eat().map_or(json!(["end"]), tok),
            'p' => match (l.peek(), l.peek_text()) {
                (Some(k), Some(t)) => tok((k, t)),
                (None, None) => json!(["end"]),
                _ => json!(["torn"]),
            },
            'c' if l.peek() == Some(Token::Error) => json!(["?"]),
            'c' => l.peek_char().map_or(json!(["end"]), |c| json!([c.to_string()])),
            d => {
                let n = d.to_digit(10).unwrap() as usize;
                // n characters (the whole of an error token, whose text is a message)
                let text = l.peek_text().unwrap_or("");
                let n = if l.peek() == Some(Token::Error) { usize::MAX } else { n };
                let b = text.char_indices().nth(n).map_or(text.len(), |(i, _)| i);
                l.consume_utf8_bytes(b);
                json!([])
            }
        });
    }
    v
}

pub fn read(job: &Value, specs: &Specs, out: &mut Map<String, Value>) {
    let doc = job["doc"].as_str().unwrap();
    let ops = job["ops"].as_str().unwrap();
    let spec = spec_of(job, specs);
    put(out, "obs", || {
        if job["macros"].as_bool().unwrap() {
            json!(script(Lexer::new_with_bumper(doc, spec.clone(), MacroEngine::new(spec.clone())), ops))
        } else {
            json!(script(Lexer::<()>::new(doc, spec.clone()), ops))
        }
    });
}

/// The document is converted where the one before it was, as an editor does
/// it with its buffer.
fn call(c: &Value, specs: &Specs, buf: &mut String) -> Value {
    // c: [doc, mode, spec]
    let spec = match c[2].as_str().unwrap() {
        "none" => None,
        s => Some(specs[s].clone()),
    };
    let mode = c[1].as_str().unwrap();
    buf.clear();
    buf.push_str(c[0].as_str().unwrap());
    match guard(|| conv(buf, mode, spec)) {
        Ok(v) => v,
        Err(m) => json!([false, format!("!panic {m}")]),
    }
}

/// A sequence of conversions in one process.
pub fn session(job: &Value, specs: &Specs, out: &mut Map<String, Value>) {
    let mut buf = String::with_capacity(1 << 16);
    let r: Vec<Value> = job["calls"].as_array().unwrap().iter().map(|c| call(c, specs, &mut buf)).collect();
    out.insert("results".into(), json!(r));
}

/// The same calls from several threads at once, each in its own rotation.
pub fn threads(job: &Value, specs: &Specs, out: &mut Map<String, Value>) {
    let calls = job["calls"].as_array().unwrap();
    let n = job["threads"].as_u64().unwrap() as usize;
    let barrier = std::sync::Barrier::new(n);
    let rounds = job["rounds"].as_u64().unwrap_or(1) as usize;
    // distinct results per call
    let mut seen: Vec<Vec<Value>> = vec![vec![]; calls.len()];
    let all: Vec<Vec<(usize, Value)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let barrier = &barrier;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        barrier.wait();
                        let mut r = vec![];
                        let mut buf = String::with_capacity(1 << 16);
                        for k in 0..rounds * calls.len() {
                            let i = (k + t * 7) % calls.len();
                            r.push((i, call(&calls[i], specs, &mut buf)));
                        }
                        r
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (i, v) in all.into_iter().flatten() {
        if !seen[i].contains(&v) {
            seen[i].push(v);
        }
    }
    out.insert("results".into(), json!(seen));
}
