//! A case is one fully explicit simulated run: workload, faults and (once recorded) schedule. Its text is the replay file.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Op { pub t: u8, pub name: String, pub a: [i64; 6] }

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub prop: String,
    pub build: String,
    pub kv: BTreeMap<String, i64>,
    pub ops: Vec<Op>,
    pub sched: Option<Vec<(u64, u8)>>,
    /// expected outcome, for replay
    pub class: String,
    pub detail: String,
}

impl Case {
    pub fn new(prop: &str) -> Case { Case { prop: prop.into(), ..Default::default() } }
    pub fn set(&mut self, k: &str, v: i64) { self.kv.insert(k.into(), v); }
    pub fn get(&self, k: &str) -> i64 { *self.kv.get(k).unwrap_or(&0) }
    pub fn has(&self, k: &str) -> bool { self.kv.contains_key(k) }
    pub fn u(&self, k: &str) -> u64 { self.get(k) as u64 }
    pub fn op(&mut self, t: u8, name: &str, a: [i64; 6]) { self.ops.push(Op { t, name: name.into(), a }); }

    pub fn text(&self) -> String {
        let mut s = String::from("lasim-case 1\n");
        s += &format!("prop {}\nbuild {}\n", self.prop, self.build);
        if !self.class.is_empty() { s += &format!("class {}\n", self.class); }
        for l in self.detail.lines() { s += &format!("# {}\n", l); }
        for (k, v) in &self.kv { s += &format!("kv {} {}\n", k, v); }
        for o in &self.ops {
            s += &format!("op {} {} {} {} {} {} {} {}\n", o.t, o.name, o.a[0], o.a[1], o.a[2], o.a[3], o.a[4], o.a[5]);
        }
        if let Some(sc) = &self.sched {
            for c in sc.chunks(12) {
                s += "sched";
                for (y, t) in c { s += &format!(" {}:{}", y, t); }
                s += "\n";
            }
            s += "sched-end\n";
        }
        s
    }

    pub fn parse(s: &str) -> Option<Case> {
        let mut c = Case::default();
        let mut it = s.lines();
        if it.next()? != "lasim-case 1" { return None; }
        for l in it {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.is_empty() || w[0] == "#" { continue; }
            match w[0] {
                "prop" => c.prop = w[1].into(),
                "build" => c.build = w.get(1).unwrap_or(&"").to_string(),
                "class" => c.class = w[1..].join(" "),
                "kv" => { c.kv.insert(w[1].into(), w[2].parse().ok()?); }
                "op" => {
                    let mut a = [0i64; 6];
                    for i in 0..6 { a[i] = w[3 + i].parse().ok()?; }
                    c.ops.push(Op { t: w[1].parse().ok()?, name: w[2].into(), a });
                }
                "sched" => {
                    let v = c.sched.get_or_insert_with(Vec::new);
                    for p in &w[1..] {
                        let (y, t) = p.split_once(':')?;
                        v.push((y.parse().ok()?, t.parse().ok()?));
                    }
                }
                "sched-end" => { c.sched.get_or_insert_with(Vec::new); }
                _ => return None,
            }
        }
        Some(c)
    }
}
