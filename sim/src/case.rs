use std::collections::BTreeMap;

/// One simulated run, fully determined: configuration, operations and schedule.
#[derive(Clone, Debug, Default)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    /// preemption probability at atomic operations and at operation boundaries (of 65536)
    pub pa: u32,
    pub po: u32,
    pub cfg: BTreeMap<String, i64>,
    pub ops: Vec<String>,
}

#[derive(Clone, Debug)]
pub enum Sched {
    Random,
    Replay(Vec<u64>),
}

impl Case {
    pub fn c(&self, k: &str) -> i64 { *self.cfg.get(k).unwrap_or(&0) }
    pub fn set(&mut self, k: &str, v: i64) { self.cfg.insert(k.to_string(), v); }
    pub fn op(&mut self, s: impl Into<String>) { self.ops.push(s.into()); }

    pub fn to_text(&self, sched: &Sched, class: &str, msg: &str) -> String {
        let mut s = String::from("hxsim-replay v1\n");
        s += &format!("property {}\nseed {}\npreempt {} {}\nclass {}\nmessage {}\n", self.prop, self.seed, self.pa, self.po, class, msg.replace('\n', " "));
        for (k, v) in &self.cfg { s += &format!("cfg {} {}\n", k, v); }
        for o in &self.ops { s += &format!("op {}\n", o); }
        match sched {
            Sched::Random => s += "sched random\n",
            Sched::Replay(d) => { for i in 0..d.len() / 2 { s += &format!("dec {} {}\n", d[2 * i], d[2 * i + 1]); } }
        }
        s
    }
    pub fn from_text(t: &str) -> Option<(Case, Sched, String)> {
        let mut c = Case::default();
        let mut class = String::new();
        let mut decs = vec![];
        let mut rnd = false;
        let mut it = t.lines();
        if it.next()? != "hxsim-replay v1" { return None; }
        for l in it {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => c.prop = r.to_string(),
                "seed" => c.seed = r.parse().ok()?,
                "preempt" => { let (a, b) = r.split_once(' ')?; c.pa = a.parse().ok()?; c.po = b.parse().ok()?; }
                "class" => class = r.to_string(),
                "cfg" => { let (a, b) = r.split_once(' ')?; c.cfg.insert(a.to_string(), b.parse().ok()?); }
                "op" => c.ops.push(r.to_string()),
                "sched" => rnd = true,
                "dec" => { let (a, b) = r.split_once(' ')?; decs.push(a.parse().ok()?); decs.push(b.parse().ok()?); }
                _ => {}
            }
        }
        Some((c, if rnd { Sched::Random } else { Sched::Replay(decs) }, class))
    }
}

/// Token reader for operation lines.
pub struct Tok<'a>(pub std::str::SplitWhitespace<'a>);
impl<'a> Tok<'a> {
    pub fn new(s: &'a str) -> Self { Tok(s.split_whitespace()) }
    pub fn s(&mut self) -> &'a str { self.0.next().unwrap_or("") }
    pub fn i(&mut self) -> i64 { self.s().parse().unwrap_or(0) }
    pub fn u(&mut self) -> usize { self.i().max(0) as usize }
    pub fn f(&mut self) -> f32 { self.s().parse().unwrap_or(0.0) }
}
