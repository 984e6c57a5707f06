// Included into sql-parse under cfg(sql_parse_verif): access to private items for the harness.
use crate::keywords::Keyword;
use crate::lexer::{Lexer, Token};
use crate::parser::Parser;
use crate::{Issues, ParseOptions, Statement};
use alloc::format;
use alloc::string::String;
use alloc::vec::Vec;
use core::ops::Range;

/// All tokens up to and including Eof
pub fn lex(src: &str) -> Vec<(String, Range<usize>)> {
    let mut l = Lexer::new(src);
    let mut r = Vec::new();
    loop {
        let (t, s) = l.next_token();
        let eof = matches!(t, Token::Eof);
        r.push((format!("{:?}", t), s));
        if eof || r.len() > 4 * src.len() + 16 {
            return r;
        }
    }
}

/// (keyword of the word, its name, whether it is reserved)
pub fn keyword(s: &str) -> (String, &'static str, bool) {
    let k: Keyword = s.into();
    (format!("{:?}", k), k.name(), k.reserved())
}

/// Read n tokens, then inline data, then the rest of the tokens
pub fn stdin(src: &str, n: usize) -> (Option<usize>, String, Range<usize>, Vec<(String, Range<usize>)>) {
    let mut l = Lexer::new(src);
    let mut end = None;
    for _ in 0..n {
        end = Some(l.next_token().1.end);
    }
    let (d, s) = l.read_from_stdin();
    let d = String::from(d);
    let mut r = Vec::new();
    loop {
        let (t, s) = l.next_token();
        let eof = matches!(t, Token::Eof);
        r.push((format!("{:?}", t), s));
        if eof || r.len() > 4 * src.len() + 16 {
            break;
        }
    }
    (end, d, s, r)
}

/// parse_statement, and afterwards (permit_compound_statements, delimiter token, arg counter)
pub fn statement<'a>(
    src: &'a str,
    issues: &mut Issues<'a>,
    options: &ParseOptions,
    permit: bool,
) -> (Option<Option<Statement<'a>>>, bool, String, usize) {
    let mut p = Parser::new(src, issues, options);
    p.permit_compound_statements = permit;
    let r = crate::statement::parse_statement(&mut p).ok();
    let d = format!("{:?}", p.delimiter);
    (r, p.permit_compound_statements, d, p.arg)
}

/// consume_int::<u32/u64/usize>() on the first token
pub fn int(src: &str, bits: u32) -> (Option<(u64, Range<usize>)>, usize) {
    let o = ParseOptions::new();
    let mut issues = Issues::new(src);
    let mut p = Parser::new(src, &mut issues, &o);
    let r = match bits {
        32 => p.consume_int::<u32>().ok().map(|(v, s)| (v as u64, s)),
        _ => p.consume_int::<u64>().ok(),
    };
    let n = issues.get().len();
    (r, n)
}
