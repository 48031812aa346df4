//! C01, C02: the lexer.
use crate::engine::{CaseResult, Prop, Rec, Source};
use crate::gen::*;
use i18n_lexer::{LexerError, LexerIterator, Token, TokenType};
use icu_segmenter::GraphemeClusterSegmenter;

fn grammar_text(s: &mut Source) -> String {
    match s.weighted(&[3, 3, 1]) {
        0 => "{}`#".to_string(),
        1 => {
            let n = 1 + s.below(6);
            (0..n).map(|_| any_char(s)).collect()
        }
        _ => s.pick(&["{", "#", "a", " ", "{}", "[]", "\u{2060}", "é"]).to_string(),
    }
}

fn input(s: &mut Source) -> (String, String) {
    let g = grammar_text(s);
    let long = s.long(400);
    let mut t = text(s, if long { 6000 } else { 30 });
    if long && s.bool() {
        // One long token.
        t.extend(std::iter::repeat(*s.pick(&['a', 'é', ' ', '!', '\u{301}', '\u{1f469}'])).take(70_000));
        t.push_str(&text(s, 20));
    }
    // Use characters of the grammar.
    if s.chance(1, 2) {
        let gc: Vec<char> = g.chars().collect();
        let mut u = String::new();
        for c in t.chars() {
            if s.chance(1, 5) {
                u.push(*s.pick(&gc));
            }
            u.push(c);
        }
        t = u;
    }
    if t.is_empty() && s.chance(7, 8) {
        t.push(any_char(s));
    }
    (t, g)
}

fn tokens(t: &str, g: &str) -> Result<Vec<Token>, String> {
    let it = LexerIterator::try_new(t, g, &icu()).map_err(|e| format!("unexpected error {e:?}"))?;
    let max = t.chars().count() + 2;
    let v: Vec<Token> = it.take(max).collect();
    if v.len() >= max {
        return Err(format!("more tokens than characters in {t:?}"));
    }
    Ok(v)
}

fn c01_case(t: &str, g: &str) -> CaseResult {
    if t.is_empty() || g.is_empty() {
        return match LexerIterator::try_new(t, g, &icu()) {
            Err(LexerError::EmptyString) if t.is_empty() => Ok(()),
            Err(LexerError::NoGrammar) if g.is_empty() => Ok(()),
            Err(e) => Err(format!("wrong error {e:?}")),
            Ok(_) => Err("empty input accepted".to_string()),
        };
    }
    let toks = tokens(t, g)?;
    let joined: String = toks.iter().map(|x| x.string.as_str()).collect();
    if joined != t {
        return Err(format!("tokens concatenate to {joined:?}"));
    }
    let mut chars = 0;
    let seg = GraphemeClusterSegmenter::new();
    let mut graphemes = 0;
    let mut byte = 0;
    for (i, k) in toks.iter().enumerate() {
        let e = |m: String| Err(format!("token {i} {k:?}: {m}"));
        if k.string.is_empty() {
            return e("empty".to_string());
        }
        if k.start_byte != byte || k.length_bytes != k.string.len() || k.end_byte != byte + k.string.len() {
            return e(format!("byte position, expected start {byte}"));
        }
        if t.get(k.start_byte..k.end_byte) != Some(k.string.as_str()) {
            return e("byte range is not its text".to_string());
        }
        let n = k.string.chars().count();
        if k.length_characters != n {
            return e("character length".to_string());
        }
        if k.start_character != chars {
            return e(format!("character position, expected {chars}"));
        }
        chars += n;
        let gl = seg.segment_str(&k.string).count() - 1;
        if k.length_graphemes != gl || k.start_grapheme != graphemes {
            return e(format!("graphemes, expected start {graphemes} length {gl}"));
        }
        graphemes += gl;
        byte += k.string.len();
    }
    Ok(())
}

fn c01(s: &mut Source, r: &mut Rec) -> CaseResult {
    let (t, g) = input(s);
    r.case(format!("string={t:?} grammar={g:?}"));
    let t = if s.chance(1, 40) { String::new() } else { t };
    let g = if s.chance(1, 40) { String::new() } else { g };
    let multi = t.chars().any(|c| c.len_utf8() > 1);
    r.class_if(multi, "multibyte");
    r.class_if(t.is_empty(), "empty string");
    r.class_if(g.is_empty(), "empty grammar");
    let segs = GraphemeClusterSegmenter::new().segment_str(&t).count();
    r.class_if(segs <= t.chars().count() && !t.is_empty(), "clusters of several characters");
    r.nontrivial = multi && t.chars().count() >= 3 && !g.is_empty();
    c01_case(&t, &g)
}

/// Pattern_Syntax, which Unicode guarantees never to change.
const PATTERN_SYNTAX: &[(u32, u32)] = &[
    (0x21, 0x2f),
    (0x3a, 0x40),
    (0x5b, 0x5e),
    (0x60, 0x60),
    (0x7b, 0x7e),
    (0xa1, 0xa7),
    (0xa9, 0xa9),
    (0xab, 0xac),
    (0xae, 0xae),
    (0xb0, 0xb1),
    (0xb6, 0xb6),
    (0xbb, 0xbb),
    (0xbf, 0xbf),
    (0xd7, 0xd7),
    (0xf7, 0xf7),
    (0x2010, 0x2027),
    (0x2030, 0x203e),
    (0x2041, 0x2053),
    (0x2055, 0x205e),
    (0x2190, 0x245f),
    (0x2500, 0x2775),
    (0x2794, 0x2bff),
    (0x2e00, 0x2e7f),
    (0x3001, 0x3003),
    (0x3008, 0x3020),
    (0x3030, 0x3030),
    (0xfd3e, 0xfd3f),
    (0xfe45, 0xfe46),
];

fn syntax(c: char) -> bool {
    let v = c as u32;
    PATTERN_SYNTAX.iter().any(|r| r.0 <= v && v <= r.1)
}

fn type_of(c: char, g: &str) -> TokenType {
    if is_pws(c) {
        TokenType::WhiteSpace
    } else if syntax(c) {
        if g.contains(c) {
            TokenType::Grammar
        } else {
            TokenType::Syntax
        }
    } else {
        TokenType::Identifier
    }
}

fn expected(t: &str, g: &str) -> Vec<(TokenType, String)> {
    let mut v: Vec<(TokenType, String)> = vec![];
    for c in t.chars() {
        let k = type_of(c, g);
        match v.last_mut() {
            Some((k2, x)) if *k2 == k && k != TokenType::Grammar => x.push(c),
            _ => v.push((k, c.to_string())),
        }
    }
    v
}

fn c02_case(t: &str, g: &str) -> CaseResult {
    let a: Vec<(TokenType, String)> = tokens(t, g)?.into_iter().map(|k| (k.token_type, k.string)).collect();
    let e = expected(t, g);
    if a != e {
        return Err(format!("grammar {g:?}: tokens {a:?}, expected {e:?}"));
    }
    Ok(())
}

fn c02(s: &mut Source, r: &mut Rec) -> CaseResult {
    let (mut t, g) = input(s);
    if t.is_empty() {
        t.push('a');
    }
    let mut gv: Vec<char> = g.chars().collect();
    // Same set of syntax characters, other order, repetitions and additions without effect.
    for _ in 0..s.below(4) {
        let c = if s.bool() { *s.pick(&gv) } else { any_char(s) };
        if gv.contains(&c) || !syntax(c) {
            gv.push(c);
        }
    }
    s.shuffle(&mut gv);
    let g2: String = gv.into_iter().collect();
    r.case(format!("string={t:?} grammars={g:?}, {g2:?}"));
    let e = expected(&t, &g);
    for (k, c) in [
        (TokenType::Grammar, "grammar tokens"),
        (TokenType::Syntax, "syntax tokens"),
        (TokenType::WhiteSpace, "white space tokens"),
        (TokenType::Identifier, "identifier tokens"),
    ] {
        r.class_if(e.iter().any(|x| x.0 == k), c);
    }
    r.class_if(g.chars().any(|c| !syntax(c)), "grammar lists a character without Pattern_Syntax");
    r.nontrivial = e.len() >= 3;
    c02_case(&t, &g)?;
    c02_case(&t, &g2)
}

const BLOCK: u32 = 0x400;
fn blocks() -> usize {
    (0x11_0000 / BLOCK) as usize
}
fn c02_block(i: usize, r: &mut Rec) -> CaseResult {
    let lo = i as u32 * BLOCK;
    r.case(format!("all characters from U+{lo:04X} to U+{:04X}", lo + BLOCK - 1));
    r.nontrivial = true;
    r.class("character blocks");
    let mut all = String::new();
    for v in lo..lo + BLOCK {
        if let Some(c) = char::from_u32(v) {
            let one = c.to_string();
            c02_case(&one, "{}`#")?;
            c02_case(&one, &one)?;
            all.push(c);
            if is_ps(c) != syntax(c) {
                return Err(format!("harness: Pattern_Syntax table differs at {c:?}"));
            }
        }
    }
    if !all.is_empty() {
        c02_case(&all, "{}`#")?;
        c02_case(&all, &all)?;
        c01_case(&all, "{}`#")?;
    }
    Ok(())
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        rule: "text of 0-30 units (some of thousands, some with a token of 70 000 characters; letters of many scripts, combining and joining characters, emoji, syntax, white space, grammar and arbitrary characters) with a random grammar; all Unicode characters in blocks of 1024; non-trivial: at least 3 characters, at least one of several bytes, grammar not empty",
        tape: 140,
        quick: 60_000,
        thorough: 1_200_000,
        level: "exploration",
        assumptions: &["grapheme clusters are those of the ICU segmenter for the token's own text"],
        run: c01,
        fixed: Some((blocks, c02_block)),
    },
    Prop {
        id: "C02",
        rule: "as C01, each string with two grammars of the same set of syntax characters; every Unicode character alone, in its block, with and without being listed in the grammar; non-trivial: at least 3 tokens expected",
        tape: 150,
        quick: 60_000,
        thorough: 1_200_000,
        level: "exploration",
        assumptions: &["Pattern_White_Space and Pattern_Syntax are immutable Unicode properties; the expected types come from tables in the harness"],
        run: c02,
        fixed: Some((blocks, c02_block)),
    },
];
