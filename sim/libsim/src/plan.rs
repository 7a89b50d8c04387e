//! A run is a plan: generated from the seed, written to the replay file as
//! text, executed as a pure function of it.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Item {
    pub id: u64,
    pub kind: String,
    pub name: String,
    pub n: Vec<u64>,
}
/// A decision of the scheduler or fault injector: at (a, b, c) do (act...).
#[derive(Clone, Copy, Debug, Default, PartialEq)]
#[repr(C)]
pub struct Ev {
    pub at: [u64; 3],
    pub act: [u64; 4],
}
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub prop: String,
    pub head: Vec<(String, u64)>,
    pub items: Vec<Item>,
    /// None: decide online from head "eseed"; Some: exactly these.
    pub events: Option<Vec<Ev>>,
}
impl Plan {
    pub fn h(&self, k: &str) -> u64 {
        self.head.iter().find(|x| x.0 == k).map_or(0, |x| x.1)
    }
    pub fn set(&mut self, k: &str, v: u64) {
        for x in self.head.iter_mut() {
            if x.0 == k {
                x.1 = v;
                return;
            }
        }
        self.head.push((k.to_string(), v));
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        s += &format!("prop {}\n", self.prop);
        for (k, v) in &self.head {
            s += &format!("head {} {}\n", k, v);
        }
        for i in &self.items {
            let n: Vec<String> = i.n.iter().map(|x| x.to_string()).collect();
            s += &format!("item {} {} {} : {}\n", i.id, i.kind, i.name.replace(' ', "_"), n.join(" "));
        }
        if let Some(ev) = &self.events {
            s += "events explicit\n";
            for e in ev {
                s += &format!(
                    "ev {} {} {} -> {} {} {} {}\n",
                    e.at[0], e.at[1], e.at[2], e.act[0], e.act[1], e.act[2], e.act[3]
                );
            }
        }
        s
    }
    pub fn from_text(t: &str) -> Option<Plan> {
        let mut p = Plan::default();
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.first().copied() {
                Some("prop") => p.prop = w[1].to_string(),
                Some("head") => p.head.push((w[1].to_string(), w[2].parse().ok()?)),
                Some("item") => p.items.push(Item {
                    id: w[1].parse().ok()?,
                    kind: w[2].to_string(),
                    name: w[3].to_string(),
                    n: w[5..].iter().map(|x| x.parse().unwrap_or(0)).collect(),
                }),
                Some("events") => p.events = Some(vec![]),
                Some("ev") => {
                    let n: Vec<u64> =
                        w[1..].iter().filter(|x| **x != "->").map(|x| x.parse().unwrap_or(0)).collect();
                    if n.len() != 7 {
                        return None;
                    }
                    p.events.as_mut()?.push(Ev { at: [n[0], n[1], n[2]], act: [n[3], n[4], n[5], n[6]] });
                }
                _ => {}
            }
        }
        if p.prop.is_empty() {
            None
        } else {
            Some(p)
        }
    }
}
