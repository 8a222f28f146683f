//! L01, L02: what the scanner makes of any short text.
use crate::util::*;
use cairo_m_compiler_parser::lexer::*;
use logos::Logos;

fn alpha(b: u8) -> bool { ((b | 32) >= b'a') & ((b | 32) <= b'z') | (b == b'_') }
fn digit(b: u8) -> bool { b.wrapping_sub(b'0') < 10 }
fn alnum(b: u8) -> bool { alpha(b) | digit(b) }
fn space(b: u8) -> bool { (b == b' ') | (b == b'\t') | (b == b'\n') | (b == b'\r') }
/// class of a token: 1 number, 2 identifier or keyword, 3 operator or punctuation
fn class(t: &TokenType) -> u8 { match t { TokenType::LiteralNumber(_) => 1,
    TokenType::Identifier(_) | TokenType::As | TokenType::Const | TokenType::Else | TokenType::False | TokenType::Function | TokenType::If | TokenType::Let | TokenType::New | TokenType::Return | TokenType::Struct | TokenType::True | TokenType::While | TokenType::Loop | TokenType::For | TokenType::In | TokenType::Break | TokenType::Continue | TokenType::Use => 2,
    _ => 3 } }
const OPS: [(&str, TokenType<'static>); 32] = { use TokenType::*; [("&&", AndAnd), ("||", OrOr), ("==", EqEq), ("!=", Neq), ("<=", LessEqual), (">=", GreaterEqual), ("->", Arrow), ("::", ColonColon),
    ("!", Not), ("&", BitwiseAnd), ("|", BitwiseOr), ("^", BitwiseXor), ("<", Less), (">", Greater), ("+", Plus), ("-", Minus), ("*", Mul), ("/", Div), ("%", Mod), ("=", Eq),
    ("(", LParen), (")", RParen), ("{", LBrace), ("}", RBrace), ("[", LBrack), ("]", RBrack), (",", Comma), (";", Semicolon), (":", Colon), (".", Dot), ("as", As), ("fn", Function)] };
const KW: [(&str, TokenType<'static>); 18] = { use TokenType::*; [("as", As), ("const", Const), ("else", Else), ("false", False), ("fn", Function), ("if", If), ("let", Let), ("new", New), ("return", Return), ("struct", Struct), ("true", True), ("while", While), ("loop", Loop), ("for", For), ("in", In), ("break", Break), ("continue", Continue), ("use", Use)] };

/// end of the token (or skipped stretch) at `i`, and its class (0 = skipped, 9 = no token starts here)
fn next(s: &[u8], i: usize) -> (usize, u8, usize) {
    let mut j = i;
    if space(s[i]) { while j < s.len() && space(s[j]) { j += 1 } return (j, 0, 0); }
    if s[i] == b'/' && i + 1 < s.len() && s[i + 1] == b'/' { while j < s.len() && s[j] != b'\n' { j += 1 } return (j, 0, 0); }
    if digit(s[i]) { while j < s.len() && alnum(s[j]) { j += 1 } return (j, 1, 0); }
    if alpha(s[i]) { while j < s.len() && alnum(s[j]) { j += 1 } return (j, 2, 0); }
    for (k, (o, _)) in OPS[..30].iter().enumerate() { let o = o.as_bytes(); if s.len() - i >= o.len() && &s[i..i + o.len()] == o { return (i + o.len(), 3, k); } }
    (i + 1, 9, 0)
}
/// number text -> Ok(value, has suffix) or Err(too large); None = malformed
pub fn number(s: &[u8]) -> Option<Result<(u64, u8), ()>> {
    let mut base = 10u64; let mut b = 0; let mut e = s.len(); let mut suf = 0;
    if s.len() >= 2 && s[0] == b'0' { match s[1] | 32 { b'x' => { base = 16; b = 2 } b'o' => { base = 8; b = 2 } b'b' => { base = 2; b = 2 } _ => {} } }
    if e - b > 4 && &s[e - 4..] == b"felt" { e -= 4; suf = 1 } else if e - b > 3 && &s[e - 3..] == b"u32" { e -= 3; suf = 2 }
    if b == e { return None; }
    let mut v = 0u64; let mut big = false;
    for c in &s[b..e] {
        let d = if digit(*c) { *c - b'0' } else if (*c | 32) >= b'a' && (*c | 32) <= b'f' && base == 16 { (*c | 32) - b'a' + 10 } else { return None };
        if d as u64 >= base { return None; }
        big |= v > u64::MAX / base; v = v.wrapping_mul(base).wrapping_add(d as u64); big |= v < d as u64;
    }
    Some(if big { Err(()) } else { Ok((v, suf)) })
}
/// the real scanner against the reference above
fn compare(s: &[u8]) {
    let t = text(s.to_vec());
    let mut it = TokenType::lexer(&t).spanned();
    let mut i = 0;
    while i < s.len() {
        let (j, c, k) = next(s, i);
        if c == 0 { i = j; continue; }
        let Some((tok, sp)) = it.next() else { check(false, "every piece of the text that is not blank or comment yields a token or an error"); return };
        check(sp.start == i, "a token starts where the previous one and the blanks after it end");
        match c {
            9 => check(tok.is_err(), "a character outside the language is reported"),
            1 => {
                check(sp.end == j, "a number token is as long as possible");
                match (number(&s[i..j]), &tok) {
                    (Some(Ok((v, suf))), Ok(TokenType::LiteralNumber(n))) => { check(n.value == v, "number token has its written value"); check(match suf { 0 => n.suffix.is_none(), 1 => n.suffix == Some("felt"), _ => n.suffix == Some("u32") }, "number token has its written suffix"); }
                    (Some(Err(())), t) => check(t.is_err(), "a number above u64::MAX is an error"),
                    (None, Ok(TokenType::LiteralNumber(n))) => check(n.suffix.is_some() && n.suffix != Some("felt") && n.suffix != Some("u32"), "a malformed number is not accepted as a valid one"),
                    (None, t) => check(t.is_err(), "a malformed number is an error"),
                    _ => check(false, "a well-formed number yields a number token"),
                }
            }
            2 => {
                check(sp.end == j, "a word is as long as possible");
                match &tok { Ok(t) => {
                    let mut kw = None;
                    for (w, k) in KW { if w.as_bytes() == &s[i..j] { kw = Some(k) } }
                    match kw { Some(k) => check(*t == k, "a keyword yields its own token"), None => check(matches!(t, TokenType::Identifier(x) if x.as_bytes() == &s[i..j]), "any other word is an identifier with its own text") }
                } _ => check(false, "a word is never an error") }
            }
            _ => { check(sp.end == j, "an operator is as long as possible"); check(tok == Ok(OPS[k].1), "an operator yields its own token"); }
        }
        if c == 9 { check(sp.end > i, "an error covers at least a character"); i = sp.end } else { i = j }
    }
    check(it.next().is_none(), "no token comes from nowhere");
    reach("end");
}
pub fn h_lex_any() { compare(&bytes("c", tier(2, 3), ascii)); }
/// operator characters only
pub fn h_lex_ops() { compare(&bytes("c", tier(3, 4), |b| b"&|=!<>-:/ ".contains(&b))); }
/// text of the digits/letters that matter for numbers
pub fn h_lex_num() {
    let mut v = b"0".to_vec();
    v.extend(bytes("c", tier(4, 5), |b| b"01289abefxoltuBX_".contains(&b)));
    compare(&v);
}
/// a valid suffix after any digits in any base
pub fn h_lex_suffix() {
    let p: &str = pick("base", &["", "0x", "0X", "0o", "0O", "0b", "0B"]);
    let mut v = p.as_bytes().to_vec();
    v.extend(bytes("d", tier(2, 4), |b| alnum(b)));
    assume(digit(v[0]));
    let q: &str = pick("suffix", &["", "felt", "u32", "feltx", "u64", "i32", "u322", "bool", "Felt", "feltu32"]);
    v.extend(q.as_bytes());
    compare(&v);
}
/// any letters in the place of a keyword's
pub fn h_lex_words() {
    let (w, _) = pick("kw", &KW);
    let mut v = w.as_bytes().to_vec();
    let i = choose("pos", v.len() + 1);
    let b = u8("b"); assume(ascii(b));
    if bool("insert") { v.insert(i, b) } else if i < v.len() { v[i] = b }
    compare(&v);
}
/// comments end at the line's end and nowhere else
pub fn h_lex_comment() {
    let mut v = b"a//".to_vec(); v.extend(bytes("c", tier(2, 3), ascii)); v.extend(b"\nb");
    compare(&v);
}

// ---- L01: literals through the parser
fn literal(t: &str, want: Option<(u64, u8)>) {
    let o = parse(&format!("const X = {t};"));
    match want {
        Some((v, s)) => {
            check(o.diagnostics.is_empty(), "a well-formed literal that fits is accepted");
            match only_const(&o).map(|e| e.value()) { Some(Expression::Literal(x, q)) => { observe(*x); check(*x == v, "a literal has its written value"); check(match s { 0 => q.is_none(), 1 => q.as_deref() == Some("felt"), _ => q.as_deref() == Some("u32") }, "a literal has its written suffix") } _ => check(false, "a literal is a literal") }
            reach("accepted");
        }
        None => { check(!o.diagnostics.is_empty(), "a literal that is malformed or does not fit is reported, never truncated"); check(o.module.items().is_empty(), "no syntax tree comes out of a rejected text"); reach("rejected"); }
    }
}
fn lit_of(s: Vec<u8>) { let w = match number(&s) { Some(Ok(x)) => Some(x), _ => None }; literal(&text(s), w); }
fn digs(n: usize, base: u8) -> Vec<u8> {
    (0..n).map(|_| match base {
        2 => b'0' + var("d", 1) as u8, 8 => b'0' + var("d", 3) as u8,
        10 => { let d = var("d", 4); assume(d < 10); b'0' + d as u8 }
        _ => { let b = u8("d"); assume(digit(b) | ((b | 32) >= b'a') & ((b | 32) <= b'f')); b }
    }).collect()
}
/// `k` symbolic digits of `base` put into `frame` at any place (replacing what stands there)
fn window(frame: &str, k: usize, base: u8) -> Vec<u8> {
    let mut v = frame.as_bytes().to_vec();
    if v.len() <= k { return digs(v.len(), base); }
    let at = choose("at", v.len() - k + 1);
    for (i, b) in digs(k, base).into_iter().enumerate() { v[at + i] = b; }
    v
}
fn suffixed(mut v: Vec<u8>) { let s: &str = pick("suffix", &["", "felt", "u32"]); v.extend(s.as_bytes()); lit_of(v) }
pub fn h_lit_dec() { let f: &str = pick("frame", &["0", "000000", "429496729500", "1234567890123", "2147483647", "18446744073709551615", "99999999999999999999", "018446744073709551615", "123456789012345678901"]); suffixed(window(f, tier(3, 4), 10)); }
pub fn h_lit_hex() { let f: &str = pick("frame", &["0", "000", "ffffffff", "7fffffff", "ffffffffffffffff", "0ffffffffffffffff", "10000000000000000"]); let mut v = pick("p", &["0x", "0X"]).as_bytes().to_vec(); v.extend(window(f, tier(1, 2), 16)); suffixed(v); }
pub fn h_lit_oct() { let f: &str = pick("frame", &["0", "000", "1777777777777777777777", "2000000000000000000000", "37777777777"]); let mut v = pick("p", &["0o", "0O"]).as_bytes().to_vec(); v.extend(window(f, tier(3, 4), 8)); suffixed(v); }
pub fn h_lit_bin() { let mut f = vec![b'1'; pick("len", &[1usize, 8, 31, 32, 64, 65])]; if bool("lead") { f.insert(0, b'0') } let mut v = pick("p", &["0b", "0B"]).as_bytes().to_vec(); v.extend(window(&text(f), tier(4, 8), 2)); suffixed(v); }
/// suffixes and malformed numbers, as the parser reports them
pub fn h_lit_bad() {
    let mut v = vec![u8("d")]; assume(digit(v[0])); v.extend(bytes("c", tier(2, 3), alnum));
    let s: &str = pick("suffix", &["", "felt", "u32", "u64", "feltt"]); v.extend(s.as_bytes());
    lit_of(v);
}
