//! vextract: mechanical extraction of bellman functions into a Verus file.
//!
//!   vextract <template.vt> --repo /repo -o out.rs --map out.map.json [--probe]
//!
//! The template holds specifications only (contracts, invariants, ghost code);
//! every executable statement of an extracted function comes from the source
//! file on this run, after the desugarings listed in DESIGN.md.
mod inline;
mod flatten;
mod lower;
mod printer;
mod source;

use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub params: Option<Vec<String>>,
    pub ret: Option<String>,
    pub opts: Vec<String>,
    pub sig: Option<String>,
    pub srcsig: Option<String>,
    pub spec: String,
    pub attrs: String,
    pub loops: BTreeMap<usize, String>,
    pub at: Vec<(String, String)>,
    pub name: Option<String>,
    pub subst: Vec<(String, String)>,
}
impl FnSpec {
    pub fn opt(&self, o: &str) -> bool {
        self.opts.iter().any(|x| x == o)
    }
    pub fn optval(&self, key: &str) -> Option<String> {
        let p = format!("{}=", key);
        self.opts.iter().find_map(|x| x.strip_prefix(&p).map(|s| s.to_string()))
    }
}

pub struct Ctx {
    repo: String,
    pub out: String,
    pub line: usize,
    pub map: Vec<(usize, String, usize)>, // out line, file, src line
    pub fns: Vec<FnRec>,
    pub items: Vec<String>,
    files: BTreeMap<String, source::SourceFile>,
    probe: bool,
    pub trusted: Vec<String>,
}
pub struct FnRec {
    pub name: String,
    pub file: String,
    pub src_line: usize,
    pub out_start: usize,
    pub out_end: usize,
    pub stub: bool,
}

impl Ctx {
    pub fn emit(&mut self, s: &str) {
        self.out.push_str(s);
        self.line += s.matches('\n').count();
    }
    fn file(&mut self, f: &str) -> Result<&source::SourceFile, String> {
        if !self.files.contains_key(f) {
            let sf = source::SourceFile::load(&self.repo, f)?;
            self.files.insert(f.to_string(), sf);
        }
        Ok(&self.files[f])
    }
}

fn err<T>(s: impl Into<String>) -> Result<T, String> {
    Err(s.into())
}

fn process(ctx: &mut Ctx, path: &str, stubs: bool, seen: &mut Vec<String>) -> Result<(), String> {
    let canon = std::fs::canonicalize(path)
        .map_err(|e| format!("template {}: {}", path, e))?
        .to_string_lossy()
        .to_string();
    if seen.contains(&canon) {
        return Ok(());
    }
    seen.push(canon);
    let text = std::fs::read_to_string(path).map_err(|e| format!("template {}: {}", path, e))?;
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@include ") {
            process(ctx, dir.join(r.trim()).to_str().unwrap(), stubs, seen)?;
        } else if let Some(r) = t.strip_prefix("//@stubs ") {
            process(ctx, dir.join(r.trim()).to_str().unwrap(), true, seen)?;
        } else if let Some(r) = t.strip_prefix("//@item ") {
            let (f, p) = r.split_once("::").ok_or("bad item")?;
            let mut subst = vec![];
            let mut attrs = String::new();
            while i + 1 < lines.len() && lines[i + 1].trim().starts_with("//@|") {
                i += 1;
                let o = lines[i].trim()[4..].trim();
                if let Some(s) = o.strip_prefix("subst ") {
                    let (a, b) = s.split_once("=>").ok_or("bad subst")?;
                    subst.push((a.trim().to_string(), b.trim().to_string()));
                } else if let Some(s) = o.strip_prefix("attr ") {
                    attrs.push_str(s);
                    attrs.push('\n');
                } else {
                    return err(format!("{}:{}: bad item option {}", path, i + 1, o));
                }
            }
            emit_item(ctx, f.trim(), p.trim(), &subst, &attrs)?;
        } else if let Some(r) = t.strip_prefix("//@fn ") {
            let (f, p) = r.split_once(" :: ").ok_or(format!("{}:{}: bad fn", path, i + 1))?;
            let mut fs = FnSpec { file: f.trim().into(), path: p.trim().into(), ..Default::default() };
            // collect sections
            let mut cur: Option<(String, String)> = None;
            let mut sections = vec![];
            loop {
                i += 1;
                if i >= lines.len() {
                    return err(format!("{}: unterminated //@fn {}", path, p));
                }
                let tt = lines[i].trim();
                if tt == "//@end" {
                    break;
                }
                if let Some(h) = tt.strip_prefix("//@ ") {
                    if let Some(c) = cur.take() {
                        sections.push(c);
                    }
                    cur = Some((h.trim().to_string(), String::new()));
                } else if let Some(c) = cur.as_mut() {
                    c.1.push_str(lines[i]);
                    c.1.push('\n');
                } else if !tt.is_empty() {
                    return err(format!("{}:{}: text before first section", path, i + 1));
                }
            }
            if let Some(c) = cur.take() {
                sections.push(c);
            }
            for (h, body) in sections {
                let (k, rest) = h.split_once(' ').unwrap_or((h.as_str(), ""));
                let rest = rest.trim();
                match k {
                    "ret" => fs.ret = Some(rest.into()),
                    "params" => fs.params = Some(rest.split_whitespace().map(|s| s.into()).collect()),
                    "opts" => fs.opts.extend(rest.split_whitespace().map(|s| s.to_string())),
                    "sig" => fs.sig = Some(format!("{}\n{}", rest, body)),
                    "srcsig" => fs.srcsig = Some(format!("{} {}", rest, body)),
                    "spec" => fs.spec = body,
                    "attr" => { fs.attrs.push_str(rest); fs.attrs.push('\n'); }
                    "name" => fs.name = Some(rest.into()),
                    "subst" => {
                        let (a, b) = rest.split_once("=>").ok_or("bad subst")?;
                        fs.subst.push((a.trim().to_string(), b.trim().to_string()));
                    }
                    "loop" => {
                        fs.loops.insert(rest.parse().map_err(|_| "bad loop no".to_string())?, body);
                    }
                    "at" => fs.at.push((rest.into(), body)),
                    _ => return err(format!("{}: bad section {}", path, h)),
                }
            }
            emit_fn(ctx, &fs, stubs)?;
        } else if t.starts_with("//@") {
            return err(format!("{}:{}: unknown directive {}", path, i + 1, t));
        } else {
            ctx.emit(l);
            ctx.emit("\n");
            for w in ["external_body", "assume(", "admit(", "assume_specification", "axiom fn", "external_type_specification"] {
                if t.contains(w) && !t.starts_with("//") {
                    ctx.trusted.push(format!("{}:{}: {}", path, i + 1, t));
                    break;
                }
            }
        }
        i += 1;
    }
    Ok(())
}

fn emit_item(ctx: &mut Ctx, f: &str, p: &str, subst: &[(String, String)], attrs: &str) -> Result<(), String> {
    let (src, line) = {
        let sf = ctx.file(f)?;
        sf.item(p)?
    };
    let mut s = src;
    for (a, b) in subst {
        let n = normalize_ws(a);
        if !s.contains(&n) && !s.contains(a.as_str()) {
            return err(format!("lost anchor: item {} :: {}: `{}` not found in `{}`", f, p, a, s));
        }
        s = s.replace(&n, b).replace(a.as_str(), b);
    }
    ctx.emit(&format!("// @@item {}:{} {}\n{}{}\n", f, line, p, attrs, s));
    ctx.items.push(format!("{}:{} {}", f, line, p));
    Ok(())
}

pub fn normalize_ws(s: &str) -> String {
    match s.parse::<proc_macro2::TokenStream>() {
        Ok(t) => t.to_string(),
        Err(_) => s.split_whitespace().collect::<Vec<_>>().join(" "),
    }
}

fn emit_fn(ctx: &mut Ctx, fs: &FnSpec, stubs: bool) -> Result<(), String> {
    let probe = ctx.probe;
    let mut found = {
        let sf = ctx.file(&fs.file)?;
        sf.function(&fs.path)?
    };
    if let Some(p) = fs.optval("inline") {
        let callee = ctx.file(&fs.file)?.function(&p)?;
        inline::inline(&mut found.block, &p, callee).map_err(|e| format!("extraction of {} ({}): {}", fs.path, fs.file, e))?;
    }
    let src_line = found.line;
    let stub = stubs || fs.opt("stub");
    let lowered = lower::lower_fn(found, fs, stub)
        .map_err(|e| format!("extraction of {} ({}:{}): {}", fs.path, fs.file, src_line, e))?;
    let start = ctx.line;
    ctx.emit(&format!("// @@fn {}:{} {}{}\n", fs.file, src_line, fs.path, if stub { " [contract only]" } else { "" }));
    ctx.emit(&fs.attrs);
    if stub {
        ctx.emit("#[verifier::external_body]\n");
    }
    ctx.emit(&lowered.sig);
    ctx.emit("\n");
    ctx.emit(&fs.spec);
    if stub {
        ctx.emit("{ unimplemented!() }\n");
    } else {
        let mut body = lowered.body.unwrap();
        syn::visit_mut::VisitMut::visit_block_mut(&mut flatten::Flatten, &mut body);
        let mut pr = printer::Printer::new(fs, &lowered.fired);
        // the declared result type, so that hints can talk about the result
        if let Some(i) = lowered.sig.find("-> (") {
            let t = &lowered.sig[i + 4..];
            let mut depth = 0;
            let end = t.char_indices().find(|(_, c)| match c { '(' => { depth += 1; false } ')' => { depth -= 1; depth < 0 } _ => false }).map(|x| x.0);
            if let (Some(c), Some(e)) = (t.find(':'), end) {
                if c < e { if let Ok(ty) = syn::parse_str::<syn::Type>(&t[c + 1..e]) { pr.ret_ty = Some(ty); } }
            }
        }
        pr.block(body, probe);
        let (text, lm, missing) = pr.finish();
        if !missing.is_empty() {
            if std::env::var("VX_DEBUG").is_ok() { eprintln!("{}", text); }
            return err(format!("lost anchor: {} ({}): {}", fs.path, fs.file, missing.join(", ")));
        }
        let base = ctx.line;
        for (ol, sl) in lm {
            ctx.map.push((base + ol, fs.file.clone(), sl));
        }
        ctx.emit(&text);
        ctx.emit("\n");
    }
    let end = ctx.line;
    ctx.fns.push(FnRec { name: fs.path.clone(), file: fs.file.clone(), src_line, out_start: start, out_end: end, stub: stub || (probe && fs.opt("never")) });
    Ok(())
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut template = None;
    let mut repo = "/repo".to_string();
    let mut out = None;
    let mut map = None;
    let mut probe = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--repo" => { i += 1; repo = args[i].clone(); }
            "-o" => { i += 1; out = Some(args[i].clone()); }
            "--map" => { i += 1; map = Some(args[i].clone()); }
            "--probe" => probe = true,
            a => template = Some(a.to_string()),
        }
        i += 1;
    }
    let template = template.expect("template");
    let mut ctx = Ctx {
        repo, out: String::new(), line: 1, map: vec![], fns: vec![], items: vec![],
        files: BTreeMap::new(), probe, trusted: vec![],
    };
    let mut seen = vec![];
    if let Err(e) = process(&mut ctx, &template, false, &mut seen) {
        eprintln!("EXTRACT-ERROR: {}", e);
        std::process::exit(2);
    }
    let out = out.unwrap_or("/dev/stdout".into());
    ctx.out.push_str("fn main() {}\n");
    std::fs::write(&out, &ctx.out).expect("write");
    if let Some(m) = map {
        let mut s = String::from("{\"fns\":[");
        for (k, f) in ctx.fns.iter().enumerate() {
            if k > 0 { s.push(','); }
            let _ = write!(s, "{{\"name\":{},\"file\":{},\"line\":{},\"start\":{},\"end\":{},\"stub\":{}}}",
                json_str(&f.name), json_str(&f.file), f.src_line, f.out_start, f.out_end, f.stub);
        }
        s.push_str("],\"lines\":[");
        for (k, (o, f, l)) in ctx.map.iter().enumerate() {
            if k > 0 { s.push(','); }
            let _ = write!(s, "[{},{},{}]", o, json_str(f), l);
        }
        s.push_str("],\"items\":[");
        for (k, f) in ctx.items.iter().enumerate() {
            if k > 0 { s.push(','); }
            s.push_str(&json_str(f));
        }
        s.push_str("],\"trusted\":[");
        for (k, f) in ctx.trusted.iter().enumerate() {
            if k > 0 { s.push(','); }
            s.push_str(&json_str(f));
        }
        s.push_str("]}");
        std::fs::write(m, s).expect("write map");
    }
}
