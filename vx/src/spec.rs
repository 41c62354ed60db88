//! Reader of the contract files in /verif/specs.
use std::collections::{HashMap, HashSet};

#[derive(Debug, Clone, Default)]
pub struct FnSpec {
    pub key: String,
    pub emit_as: Option<String>,
    pub free: bool,
    pub assume: bool,
    pub opts: HashSet<String>,
    pub contract: String,
    pub loops: HashMap<usize, String>,
    pub ats: HashMap<String, String>,
    pub rw: Vec<(String, String)>,
    pub params: Vec<(String, String)>,
    pub ret: Option<String>,
    /// what the conditions on the type parameters become
    pub bounds: Option<String>,
    /// (name, type, calls): a ghost parameter, and the calls in the body it is handed to
    pub ghosts: Vec<(String, String, Vec<String>)>,
    pub attrs: String,
    pub unit: String,
}

#[derive(Debug, Clone)]
pub enum Entry {
    Raw(String),
    Type { name: String, derive: String, rename: Option<String>, unit: String, attrs: String },
    Const { name: String, rename: Option<String> },
    Flags { name: String, ty: String, implicit: bool },
    Impl { key: String, text: String },
    Fn(FnSpec),
}

#[derive(Default)]
pub struct Specs {
    pub entries: Vec<(String, Entry)>,
    pub paths: Vec<(String, String)>,
    /// (unit, from, to): path rules for that unit's functions and types only
    pub lpaths: Vec<(String, String, String)>,
    pub tys: Vec<(String, String)>,
    pub units: Vec<String>,
}

/// `a{x,y:z}b` -> [("axb", ["x"]), ("ayb", ["y","z"])]
fn expand(head: &str) -> Vec<(String, Vec<String>)> {
    if let (Some(a), Some(b)) = (head.find("{{"), head.find("}}")) {
        return head[a + 2..b]
            .split(',')
            .map(|alt| {
                let parts: Vec<String> = alt.split(':').map(|s| s.trim().to_string()).collect();
                (format!("{}{}{}", &head[..a], parts[0], &head[b + 2..]), parts)
            })
            .collect();
    }
    vec![(head.to_string(), vec![])]
}

fn subst(text: &str, parts: &[String]) -> String {
    let mut t = text.to_string();
    for (i, p) in parts.iter().enumerate() {
        t = t.replace(&format!("{{@{}}}", i + 1), p);
    }
    if let Some(p) = parts.first() {
        t = t.replace("{@}", p);
    }
    t
}

impl Specs {
    pub fn load(dir: &str, units: &[String]) -> Result<Self, String> {
        let mut s = Specs::default();
        let mut seen = HashSet::new();
        for u in units {
            s.unit(dir, u, &mut seen)?;
        }
        Ok(s)
    }

    fn unit(&mut self, dir: &str, unit: &str, seen: &mut HashSet<String>) -> Result<(), String> {
        if !seen.insert(unit.to_string()) {
            return Ok(());
        }
        let file = format!("{dir}/{unit}.vs");
        let text = std::fs::read_to_string(&file).map_err(|e| format!("{file}: {e}"))?;
        // first pass: split into directives
        let mut dirs: Vec<(String, String)> = vec![];
        for line in text.lines() {
            if let Some(d) = line.strip_prefix('%') {
                dirs.push((d.trim().to_string(), String::new()));
            } else if let Some(l) = dirs.last_mut() {
                l.1.push_str(line);
                l.1.push('\n');
            }
        }
        let mut i = 0;
        while i < dirs.len() {
            let (d, body) = dirs[i].clone();
            i += 1;
            let (word, rest) = match d.split_once(char::is_whitespace) {
                Some((a, b)) => (a.to_string(), b.trim().to_string()),
                None => (d.clone(), String::new()),
            };
            match word.as_str() {
                "use" => {
                    for u in rest.split_whitespace() {
                        self.unit(dir, u, seen)?;
                    }
                }
                "#" => {}
                "path" => {
                    let (a, b) = rest.split_once("=>").ok_or("path rule")?;
                    self.paths.push((a.trim().into(), b.trim().into()));
                }
                "lpath" => {
                    let (a, b) = rest.split_once("=>").ok_or("path rule")?;
                    self.lpaths.push((unit.into(), a.trim().into(), b.trim().into()));
                }
                "ty" => {
                    let (a, b) = rest.split_once("=>").ok_or("ty rule")?;
                    self.tys.push((a.trim().replace(' ', ""), b.trim().into()));
                }
                "raw" => self.entries.push((unit.into(), Entry::Raw(body))),
                "type" => {
                    for (head, _) in expand(&rest) {
                        let mut w = head.split_whitespace();
                        let name = w.next().unwrap().to_string();
                        let rename = w.clone().find_map(|x| x.strip_prefix("as=")).map(|x| x.to_string());
                        let derive = w
                            .find_map(|x| x.strip_prefix("derive="))
                            .unwrap_or("")
                            .to_string();
                        self.entries.push((
                            unit.into(),
                            Entry::Type { name, derive, rename, unit: unit.into(), attrs: body.clone() },
                        ));
                    }
                }
                "const" => {
                    if let Some((key, n)) = rest.rsplit_once(" as ").filter(|(k, _)| k.starts_with('<')) {
                        self.entries.push((unit.into(), Entry::Const { name: key.trim().into(), rename: Some(n.trim().into()) }));
                    } else {
                        for n in rest.split_whitespace() {
                            self.entries.push((unit.into(), Entry::Const { name: n.into(), rename: None }));
                        }
                    }
                }
                "flags" => {
                    let w: Vec<&str> = rest.split_whitespace().collect();
                    self.entries.push((
                        unit.into(),
                        Entry::Flags { name: w[0].into(), ty: w[1].into(), implicit: w.len() > 2 },
                    ));
                }
                "impl" => {
                    for (head, parts) in expand(&rest) {
                        self.entries.push((
                            unit.into(),
                            Entry::Impl { key: head, text: subst(&body, &parts) },
                        ));
                    }
                }
                "fn" | "assume" => {
                    // gather sub directives
                    let mut subs = vec![];
                    while i < dirs.len() {
                        let w = dirs[i].0.split_whitespace().next().unwrap_or("").to_string();
                        if ["loop", "at", "rw", "param", "ret", "ghost", "attr", "opt", "where"].contains(&w.as_str()) {
                            subs.push(dirs[i].clone());
                            i += 1;
                        } else {
                            break;
                        }
                    }
                    for (head, parts) in expand(&rest) {
                        let mut f = FnSpec { unit: unit.into(), ..Default::default() };
                        let (k, a) = match head.split_once(" as ") {
                            // the key itself may contain " as " inside <..>
                            Some(_) => {
                                let depth_split = split_as(&head);
                                (depth_split.0, depth_split.1)
                            }
                            None => (head.clone(), None),
                        };
                        f.key = k.trim().to_string();
                        if let Some(a) = a {
                            let a = subst(&a, &parts);
                            if let Some(x) = a.trim().strip_prefix("fn ") {
                                f.free = true;
                                f.emit_as = Some(x.trim().to_string());
                            } else {
                                f.emit_as = Some(a.trim().to_string());
                            }
                        }
                        f.assume = word == "assume";
                        f.contract = subst(&body, &parts);
                        for (d, b) in &subs {
                            let (w, r) = match d.split_once(char::is_whitespace) {
                                Some((a, b)) => (a, b.trim().to_string()),
                                None => (d.as_str(), String::new()),
                            };
                            let b = subst(b, &parts);
                            let r = subst(&r, &parts);
                            match w {
                                "loop" => {
                                    f.loops.insert(r.parse().map_err(|_| "loop number")?, b);
                                }
                                "at" => {
                                    f.ats.insert(format!("at {r}"), b);
                                }
                                "rw" => {
                                    let (x, y) = r.split_once("=>").ok_or("rw rule")?;
                                    f.rw.push((x.trim().into(), y.trim().into()));
                                }
                                "param" => {
                                    let (x, y) = r.split_once(':').ok_or("param rule")?;
                                    f.params.push((x.trim().into(), y.trim().into()));
                                }
                                "ret" => f.ret = Some(r),
                                "where" => f.bounds = Some(r),
                                "ghost" => {
                                    let (x, y) = r.split_once(':').ok_or("ghost rule")?;
                                    let (t, c) = y.split_once('|').unwrap_or((y, ""));
                                    f.ghosts.push((x.trim().into(), t.trim().into(), c.split_whitespace().map(|s| s.to_string()).collect()));
                                }
                                "attr" => f.attrs.push_str(&format!("{r}\n")),
                                "opt" => {
                                    for o in r.split_whitespace() {
                                        f.opts.insert(o.into());
                                    }
                                }
                                _ => {}
                            }
                        }
                        self.entries.push((unit.into(), Entry::Fn(f)));
                    }
                }
                other => return Err(format!("{file}: unknown directive %{other}")),
            }
        }
        self.units.push(unit.into());
        Ok(())
    }
}

/// Splits `KEY as NAME` at the ` as ` that is outside of angle brackets.
fn split_as(s: &str) -> (String, Option<String>) {
    let mut depth = 0i32;
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            '<' => depth += 1,
            '>' => depth -= 1,
            ' ' if depth == 0 => {
                let rest: String = b[i..].iter().collect();
                if let Some(n) = rest.strip_prefix(" as ") {
                    return (b[..i].iter().collect(), Some(n.to_string()));
                }
            }
            _ => {}
        }
        i += 1;
    }
    (s.to_string(), None)
}
#[allow(unused)]
pub type Map = HashMap<String, String>;
