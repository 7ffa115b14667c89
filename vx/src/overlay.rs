use std::path::Path;

#[derive(Debug, Clone, PartialEq)]
pub enum Anchor {
    Start,
    End,
    Return,
    LoopSpec(usize),
    LoopStart(usize),
    LoopEnd(usize),
    BeforeLoop(usize),
    AfterLoop(usize),
    BeforeCall(String, usize),
    AfterCall(String, usize),
}

#[derive(Debug, Clone, Default)]
pub struct FnOv {
    pub file: String,
    pub key: String,
    pub ret: Option<String>,
    pub spec: String,
    pub attrs: String,
    pub params: Vec<String>,
    pub locals: Vec<String>,
    pub loops: Option<usize>,
    pub external: bool,
    pub used: bool,
    pub rename: Option<String>,
    pub mod_: Option<String>,
    pub subst: Vec<(String, String)>,
    pub hints: Vec<(Anchor, String)>,
}

#[derive(Debug, Clone)]
pub enum Entry {
    Text(String),
    Include(String),
    Const(String, String, Option<String>),
    Type(String, String),
    Struct(String, String, String),
    Enum(String, String, String),
    Flags(String, String),
    GhostField(String, String, String, String),
    World(Vec<String>),
    Fn(FnOv),
}

pub struct Overlay {
    pub entries: Vec<Entry>,
}

impl Overlay {
    pub fn files(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for e in &self.entries {
            let f = match e {
                Entry::Const(f, _, _) | Entry::Type(f, _) | Entry::Struct(f, _, _) | Entry::Enum(f, _, _) | Entry::Flags(f, _) => f,
                Entry::Fn(f) => &f.file,
                _ => continue,
            };
            if !v.contains(f) {
                v.push(f.clone())
            }
        }
        v
    }
    pub fn fns(&self) -> Vec<&FnOv> {
        self.entries
            .iter()
            .filter_map(|e| if let Entry::Fn(f) = e { Some(f) } else { None })
            .collect()
    }
}

// `#if k=v` / `#if !k=v` ... `#else` ... `#endif`, at column 0
pub fn preprocess(text: &str, on: &dyn Fn(&str) -> bool) -> String {
    let mut st: Vec<bool> = vec![];
    let mut out = String::new();
    for l in text.lines() {
        if let Some(c) = l.strip_prefix("#if ") {
            let c = c.trim();
            st.push(match c.strip_prefix('!') {
                Some(c) => !on(c),
                None => on(c),
            });
            out.push('\n');
            continue;
        }
        if l.starts_with("#else") {
            let x = st.pop().unwrap();
            st.push(!x);
            out.push('\n');
            continue;
        }
        if l.starts_with("#endif") {
            st.pop();
            out.push('\n');
            continue;
        }
        if st.iter().all(|x| *x) {
            out.push_str(l);
        }
        out.push('\n');
    }
    out
}

pub fn parse_overlay(p: &Path, on: &dyn Fn(&str) -> bool) -> Result<Overlay, String> {
    let text = std::fs::read_to_string(p).map_err(|e| format!("{}: {}", p.display(), e))?;
    let text = preprocess(&text, on);
    let mut entries = vec![];
    let mut file = String::new();
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    let block = |i: &mut usize| -> Result<String, String> {
        let mut s = String::new();
        loop {
            *i += 1;
            if *i >= lines.len() {
                return Err("unterminated block".into());
            }
            if lines[*i] == "}" {
                return Ok(s);
            }
            s.push_str(lines[*i]);
            s.push('\n');
        }
    };
    let mut cur: Option<FnOv> = None;
    macro_rules! flush {
        () => {
            if let Some(f) = cur.take() {
                entries.push(Entry::Fn(f));
            }
        };
    }
    while i < lines.len() {
        let l = lines[i].trim_end();
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() || l.starts_with("//") {
            i += 1;
            continue;
        }
        match w[0] {
            "#file" => {
                flush!();
                file = w[1].into()
            }
            "#use" => {
                // another overlay's contracts, without its proofs: they are discharged where it is checked
                flush!();
                let u = parse_overlay(&p.parent().unwrap().join(w[1]), on)?;
                let mut es = u.entries;
                while let Some(Entry::Text(_)) = es.last() {
                    es.pop();
                }
                for e in es.iter_mut() {
                    if let Entry::Fn(f) = e {
                        f.external = true;
                        f.used = true;
                    }
                }
                entries.extend(es)
            }
            "#world" => {
                flush!();
                entries.push(Entry::World(w[1..].iter().map(|s| s.to_string()).collect()))
            }
            "#include" => {
                flush!();
                entries.push(Entry::Include(w[1].into()))
            }
            "#text" => {
                flush!();
                let mut b = String::new();
                loop {
                    i += 1;
                    if i >= lines.len() {
                        return Err("unterminated #text".into());
                    }
                    if lines[i] == "#end" {
                        break;
                    }
                    b.push_str(lines[i]);
                    b.push('\n');
                }
                entries.push(Entry::Text(b))
            }
            "#const" => {
                flush!();
                for x in &w[1..] {
                    entries.push(Entry::Const(file.clone(), x.to_string(), None))
                }
            }
            "#constspec" => {
                flush!();
                let b = block(&mut i)?;
                entries.push(Entry::Const(file.clone(), w[1].to_string(), Some(b)))
            }
            "#type" => {
                flush!();
                entries.push(Entry::Type(file.clone(), w[1].into()))
            }
            "#struct" => {
                flush!();
                entries.push(Entry::Struct(file.clone(), w[1].into(), w[2..].join(" ")))
            }
            "#enum" => {
                flush!();
                entries.push(Entry::Enum(file.clone(), w[1].into(), w[2..].join(" ")))
            }
            "#flags" => {
                flush!();
                entries.push(Entry::Flags(file.clone(), w[1].into()))
            }
            "#ghost" => {
                // #ghost Struct field TYPE = INIT
                flush!();
                let rest = l.splitn(4, ' ').nth(3).ok_or("ghost")?;
                let (t, init) = rest.split_once(" = ").ok_or("ghost =")?;
                entries.push(Entry::GhostField(w[1].into(), w[2].into(), t.into(), init.into()))
            }
            "#fn" => {
                flush!();
                cur = Some(FnOv { file: file.clone(), key: w[1].into(), external: w.contains(&"external"), ..Default::default() });
            }
            _ => {
                let c = cur.as_mut().ok_or_else(|| format!("line {}: stray {:?}", i + 1, l))?;
                let num = |k: usize| -> Result<usize, String> {
                    w.get(k).and_then(|s| s.parse().ok()).ok_or(format!("line {}: number expected", i + 1))
                };
                match w[0] {
                    "ret" => c.ret = Some(w[1].into()),
                    "attr" => {
                        c.attrs.push_str(&w[1..].join(" "));
                        c.attrs.push('\n')
                    }
                    "params" => c.params = w[1..].iter().map(|s| s.to_string()).collect(),
                    "locals" => c.locals = w[1..].iter().map(|s| s.to_string()).collect(),
                    "loops" => c.loops = Some(num(1)?),
                    "rename" => c.rename = Some(w[1].into()),
                    "mod" => c.mod_ = Some(w[1].into()),
                    "subst" => {
                        let (x, y) = l.trim().strip_prefix("subst ").unwrap().split_once(" => ").ok_or("subst")?;
                        c.subst.push((x.into(), y.into()))
                    }
                    "spec" => c.spec = block(&mut i)?,
                    "start" => {
                        let b = block(&mut i)?;
                        c.hints.push((Anchor::Start, b))
                    }
                    "end" => {
                        let b = block(&mut i)?;
                        c.hints.push((Anchor::End, b))
                    }
                    "return" => {
                        let b = block(&mut i)?;
                        c.hints.push((Anchor::Return, b))
                    }
                    "loop" => {
                        let n = num(1)?;
                        let b = block(&mut i)?;
                        c.hints.push((Anchor::LoopSpec(n), b))
                    }
                    "loopstart" => {
                        let n = num(1)?;
                        let b = block(&mut i)?;
                        c.hints.push((Anchor::LoopStart(n), b))
                    }
                    "loopend" => {
                        let n = num(1)?;
                        let b = block(&mut i)?;
                        c.hints.push((Anchor::LoopEnd(n), b))
                    }
                    "beforeloop" => {
                        let n = num(1)?;
                        let b = block(&mut i)?;
                        c.hints.push((Anchor::BeforeLoop(n), b))
                    }
                    "afterloop" => {
                        let n = num(1)?;
                        let b = block(&mut i)?;
                        c.hints.push((Anchor::AfterLoop(n), b))
                    }
                    "before" => {
                        let (nm, n) = (w[1].to_string(), num(2)?);
                        let b = block(&mut i)?;
                        c.hints.push((Anchor::BeforeCall(nm, n), b))
                    }
                    "after" => {
                        let (nm, n) = (w[1].to_string(), num(2)?);
                        let b = block(&mut i)?;
                        c.hints.push((Anchor::AfterCall(nm, n), b))
                    }
                    x => return Err(format!("line {}: unknown directive {}", i + 1, x)),
                }
            }
        }
        i += 1;
    }
    flush!();
    Ok(Overlay { entries })
}
