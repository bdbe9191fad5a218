//! Small helpers around the code under test
use crate::engine::*;
use std::sync::Arc;
use yaml_subset::yaml::*;

pub struct ParseErr {
    pub text: String,
    pub loc: (usize, usize),
}

pub fn parse(text: &str) -> Result<Document, ParseErr> {
    parse_yaml_file(text).map_err(|e| ParseErr {
        text: format!("{e}"),
        loc: e.location(),
    })
}

/// parse a text that has to be accepted
pub fn must_parse(text: &str, ctx: &mut Ctx) -> Result<Document, Violation> {
    ctx.call(1);
    parse(text).map_err(|e| Violation {
        key: format!("reject {text}"),
        msg: format!("valid document rejected:\n{text}\n{}", e.text),
    })
}

pub fn format(d: &Document) -> String {
    d.format().expect("formatting into a string can't fail")
}

pub fn must_reparse(what: &str, input: &str, text: &str, ctx: &mut Ctx) -> Result<Document, Violation> {
    ctx.call(1);
    parse(text).map_err(|e| Violation {
        key: format!("{what} {input}"),
        msg: format!("{what}: output can't be parsed\ninput:\n{input}\noutput:\n{text}\n{}", e.text),
    })
}

/// all token strings of exactly `k` tokens after a prefix
pub fn token_string(prefix: &str, toks: &[&str], k: usize, i: u64) -> String {
    let mut d = Dec(i);
    let mut s = String::from(prefix);
    let mut parts = Vec::with_capacity(k);
    for _ in 0..k {
        parts.push(*d.of(toks));
    }
    // most significant token first, so that neighbours in the enumeration share a prefix
    for p in parts.iter().rev() {
        s.push_str(p);
    }
    s
}

/// A space per (prefix, length) over a token alphabet
pub fn token_spaces(
    label: &str,
    prefixes: &'static [&'static str],
    toks: &'static [&'static str],
    k: usize,
    run: fn(&str, &mut Ctx) -> Res,
) -> Vec<Space> {
    let mut out = Vec::new();
    for len in 0..=k {
        let per = (toks.len() as u64).pow(len as u32);
        out.push(Space::new(
            format!("{label} len={len}"),
            per * prefixes.len() as u64,
            move |i| {
                token_string(
                    prefixes[(i % prefixes.len() as u64) as usize],
                    toks,
                    len,
                    i / prefixes.len() as u64,
                )
            },
            move |i, ctx| {
                let s = token_string(
                    prefixes[(i % prefixes.len() as u64) as usize],
                    toks,
                    len,
                    i / prefixes.len() as u64,
                );
                run(&s, ctx)
            },
        ));
    }
    out
}

/// one space over an explicit list of texts
pub fn text_space(label: &str, texts: Vec<String>, run: fn(&str, &mut Ctx) -> Res) -> Space {
    let texts = Arc::new(texts);
    let t2 = texts.clone();
    Space::new(
        label,
        texts.len() as u64,
        move |i| t2[i as usize].clone(),
        move |i, ctx| run(&texts[i as usize], ctx),
    )
}
