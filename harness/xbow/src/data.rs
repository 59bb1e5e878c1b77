//! The data type kept in the store, and its flattened form: a list of (path, integer)
//! entries. Containers carry an entry of their own (length / variant / presence), so that
//! "the part at path p exists" is "some entry starts with p".
use std::collections::HashMap;
use std::rc::Rc;
use vcommon::J;
use x_bow::Trackable;

pub type Ent = (Vec<String>, i64);

#[derive(Trackable, Clone, Debug)]
#[track(deep)]
pub struct Sub {
    pub x: i64,
    pub y: i64,
    pub w: Vec<i64>,
}
#[derive(Trackable, Clone, Debug)]
#[track(deep)]
pub enum En {
    A(i64, i64),
    B { p: Sub, q: i64 },
    C,
    D(Sub),
    /// the same field names as B
    E { p: i64, q: Sub },
    F(i64, i64, i64),
    /// fields without accessors in front of others
    G(#[track(skip)] i64, i64, #[track(shallow)] Sub, i64),
    K(i64, #[track(skip)] i64, i64, #[track(skip)] i64, i64),
    H { #[track(skip)] p: i64, q: i64, #[track] r: Sub, s: i64 },
}
#[derive(Trackable, Clone, Debug)]
#[track(deep)]
pub struct Gen<T> {
    #[track(skip)]
    pub hidden: i64,
    pub g: T,
    #[track(shallow)]
    pub h: Vec<i64>,
    pub k: i64,
}
#[derive(Trackable, Clone, Debug)]
#[track(deep)]
pub struct Tup(pub i64, pub Sub, pub i64);
#[derive(Trackable, Clone, Debug)]
pub struct Mix(#[track(skip)] pub i64, #[track(deep)] pub Sub, #[track(skip)] pub i64, pub i64, #[track(deep)] pub Option<i64>);
#[derive(Trackable, Clone, Debug)]
#[track(deep)]
pub struct Rec {
    pub v: i64,
    pub next: Option<Box<Rec>>,
}
pub type T12 = (i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, Sub, i64);

#[derive(Trackable, Clone, Debug)]
#[track(deep)]
pub struct Root {
    pub a: i64,
    pub b: i64,
    pub s: Sub,
    pub e: En,
    pub v: Vec<Sub>,
    pub m: HashMap<u32, Sub>,
    pub n: HashMap<String, Vec<i64>>,
    pub o: Option<Sub>,
    pub bx: Box<Sub>,
    pub t: (i64, Sub),
    pub rc: Rc<Sub>,
    pub g: Gen<Sub>,
    pub u: Tup,
    pub vv: Vec<Vec<i64>>,
    pub oo: Option<Option<i64>>,
    pub rec: Rec,
    pub tt: T12,
    pub st: String,
    pub mx: Mix,
}

pub trait Val: Clone + 'static {
    fn dump(&self, pre: &mut Vec<String>, out: &mut Vec<Ent>);
    fn load(e: &[Ent]) -> Self;
    fn dumped(&self) -> J {
        let mut out = vec![];
        self.dump(&mut vec![], &mut out);
        ents(&out)
    }
}
pub fn ents(v: &[Ent]) -> J {
    J::arr(v.iter().map(|(p, i)| J::arr([J::arr(p.iter().map(|s| J::s(s))), J::i(*i)])))
}
pub fn parse_ents(j: &J) -> Vec<Ent> {
    j.list().iter().map(|e| (segs(&e.list()[0]), e.list()[1].int())).collect()
}
pub fn segs(j: &J) -> Vec<String> {
    j.list().iter().map(|s| s.str().to_string()).collect()
}
fn child(e: &[Ent], name: &str) -> Vec<Ent> {
    e.iter().filter(|(p, _)| p.first().map(|s| s == name).unwrap_or(false)).map(|(p, i)| (p[1..].to_vec(), *i)).collect()
}
fn own(e: &[Ent]) -> i64 {
    e.iter().find(|(p, _)| p.is_empty()).map(|x| x.1).expect("own entry")
}
fn sub(name: impl ToString, v: &impl Val, pre: &mut Vec<String>, out: &mut Vec<Ent>) {
    pre.push(name.to_string());
    v.dump(pre, out);
    pre.pop();
}
impl Val for i64 {
    fn dump(&self, pre: &mut Vec<String>, out: &mut Vec<Ent>) {
        out.push((pre.clone(), *self));
    }
    fn load(e: &[Ent]) -> Self {
        own(e)
    }
}
macro_rules! structval {
    ($t:ty, $mk:expr, $($name:literal => $f:tt),+) => {
        impl Val for $t {
            fn dump(&self, pre: &mut Vec<String>, out: &mut Vec<Ent>) {
                $( sub($name, &self.$f, pre, out); )+
            }
            fn load(e: &[Ent]) -> Self {
                let c = |n: &str| child(e, n);
                $mk(&c)
            }
        }
    };
}
structval!(Sub, |c: &dyn Fn(&str) -> Vec<Ent>| Sub { x: Val::load(&c("x")), y: Val::load(&c("y")), w: Val::load(&c("w")) }, "x" => x, "y" => y, "w" => w);
structval!(Gen<Sub>, |c: &dyn Fn(&str) -> Vec<Ent>| Gen { hidden: Val::load(&c("hidden")), g: Val::load(&c("g")), h: Val::load(&c("h")), k: Val::load(&c("k")) },
    "hidden" => hidden, "g" => g, "h" => h, "k" => k);
structval!(Tup, |c: &dyn Fn(&str) -> Vec<Ent>| Tup(Val::load(&c("t0")), Val::load(&c("t1")), Val::load(&c("t2"))), "t0" => 0, "t1" => 1, "t2" => 2);
structval!(Mix, |c: &dyn Fn(&str) -> Vec<Ent>| Mix(Val::load(&c("t0")), Val::load(&c("t1")), Val::load(&c("t2")), Val::load(&c("t3")), Val::load(&c("t4"))), "t0" => 0, "t1" => 1, "t2" => 2, "t3" => 3, "t4" => 4);
structval!((i64, Sub), |c: &dyn Fn(&str) -> Vec<Ent>| (Val::load(&c("t0")), Val::load(&c("t1"))), "t0" => 0, "t1" => 1);
structval!(Rec, |c: &dyn Fn(&str) -> Vec<Ent>| Rec { v: Val::load(&c("v")), next: Val::load(&c("next")) }, "v" => v, "next" => next);
structval!(T12, |c: &dyn Fn(&str) -> Vec<Ent>| (Val::load(&c("t0")), Val::load(&c("t1")), Val::load(&c("t2")), Val::load(&c("t3")),
    Val::load(&c("t4")), Val::load(&c("t5")), Val::load(&c("t6")), Val::load(&c("t7")), Val::load(&c("t8")), Val::load(&c("t9")),
    Val::load(&c("t10")), Val::load(&c("t11"))),
    "t0" => 0, "t1" => 1, "t2" => 2, "t3" => 3, "t4" => 4, "t5" => 5, "t6" => 6, "t7" => 7, "t8" => 8, "t9" => 9, "t10" => 10, "t11" => 11);
structval!(Root, |c: &dyn Fn(&str) -> Vec<Ent>| Root {
    a: Val::load(&c("a")), b: Val::load(&c("b")), s: Val::load(&c("s")), e: Val::load(&c("e")), v: Val::load(&c("v")),
    m: Val::load(&c("m")), n: Val::load(&c("n")), o: Val::load(&c("o")), bx: Val::load(&c("bx")), t: Val::load(&c("t")),
    rc: Val::load(&c("rc")), g: Val::load(&c("g")), u: Val::load(&c("u")), vv: Val::load(&c("vv")), oo: Val::load(&c("oo")),
    rec: Val::load(&c("rec")), tt: Val::load(&c("tt")), st: Val::load(&c("st")), mx: Val::load(&c("mx")),
}, "a" => a, "b" => b, "s" => s, "e" => e, "v" => v, "m" => m, "n" => n, "o" => o, "bx" => bx, "t" => t, "rc" => rc, "g" => g, "u" => u, "vv" => vv, "oo" => oo, "rec" => rec, "tt" => tt, "st" => st, "mx" => mx);

impl<T: Val> Val for Vec<T> {
    fn dump(&self, pre: &mut Vec<String>, out: &mut Vec<Ent>) {
        out.push((pre.clone(), self.len() as i64));
        for (i, x) in self.iter().enumerate() {
            sub(i, x, pre, out);
        }
    }
    fn load(e: &[Ent]) -> Self {
        (0..own(e)).map(|i| T::load(&child(e, &i.to_string()))).collect()
    }
}
impl<K: std::hash::Hash + Eq + Clone + ToString + std::str::FromStr + Ord + 'static, T: Val> Val for HashMap<K, T> {
    fn dump(&self, pre: &mut Vec<String>, out: &mut Vec<Ent>) {
        out.push((pre.clone(), self.len() as i64));
        let mut ks: Vec<_> = self.keys().collect();
        ks.sort();
        for k in ks {
            sub(k.to_string(), &self[k], pre, out);
        }
    }
    fn load(e: &[Ent]) -> Self {
        let mut m = HashMap::new();
        for (p, _) in e {
            if let Some(s) = p.first() {
                let k: K = s.parse().ok().expect("key");
                if !m.contains_key(&k) {
                    m.insert(k, T::load(&child(e, s)));
                }
            }
        }
        m
    }
}
impl<T: Val> Val for Option<T> {
    fn dump(&self, pre: &mut Vec<String>, out: &mut Vec<Ent>) {
        out.push((pre.clone(), self.is_some() as i64));
        if let Some(x) = self {
            sub("S", x, pre, out);
        }
    }
    fn load(e: &[Ent]) -> Self {
        (own(e) == 1).then(|| T::load(&child(e, "S")))
    }
}
impl<T: Val> Val for Box<T> {
    fn dump(&self, pre: &mut Vec<String>, out: &mut Vec<Ent>) {
        sub("c", &**self, pre, out);
    }
    fn load(e: &[Ent]) -> Self {
        Box::new(T::load(&child(e, "c")))
    }
}
/// own entry: 1 while some other Rc to the same allocation exists
impl<T: Val> Val for Rc<T> {
    fn dump(&self, pre: &mut Vec<String>, out: &mut Vec<Ent>) {
        out.push((pre.clone(), (Rc::strong_count(self) > 1) as i64));
        sub("c", &**self, pre, out);
    }
    fn load(e: &[Ent]) -> Self {
        Rc::new(T::load(&child(e, "c")))
    }
}
impl Val for En {
    fn dump(&self, pre: &mut Vec<String>, out: &mut Vec<Ent>) {
        let tag = match self {
            En::A(..) => 0,
            En::B { .. } => 1,
            En::C => 2,
            En::D(..) => 3,
            En::E { .. } => 4,
            En::F(..) => 5,
            En::G(..) => 6,
            En::H { .. } => 7,
            En::K(..) => 8,
        };
        out.push((pre.clone(), tag));
        match self {
            En::A(x, y) => {
                sub("A0", x, pre, out);
                sub("A1", y, pre, out);
            }
            En::B { p, q } => {
                sub("Bp", p, pre, out);
                sub("Bq", q, pre, out);
            }
            En::C => {}
            En::D(x) => sub("D0", x, pre, out),
            En::E { p, q } => {
                sub("Ep", p, pre, out);
                sub("Eq", q, pre, out);
            }
            En::F(x, y, z) => {
                sub("F0", x, pre, out);
                sub("F1", y, pre, out);
                sub("F2", z, pre, out);
            }
            En::G(w, x, y, z) => {
                sub("G0", w, pre, out);
                sub("G1", x, pre, out);
                sub("G2", y, pre, out);
                sub("G3", z, pre, out);
            }
            En::K(v, w, x, y, z) => {
                sub("K0", v, pre, out);
                sub("K1", w, pre, out);
                sub("K2", x, pre, out);
                sub("K3", y, pre, out);
                sub("K4", z, pre, out);
            }
            En::H { p, q, r, s } => {
                sub("Hp", p, pre, out);
                sub("Hq", q, pre, out);
                sub("Hr", r, pre, out);
                sub("Hs", s, pre, out);
            }
        }
    }
    fn load(e: &[Ent]) -> Self {
        match own(e) {
            0 => En::A(Val::load(&child(e, "A0")), Val::load(&child(e, "A1"))),
            1 => En::B { p: Val::load(&child(e, "Bp")), q: Val::load(&child(e, "Bq")) },
            2 => En::C,
            4 => En::E { p: Val::load(&child(e, "Ep")), q: Val::load(&child(e, "Eq")) },
            5 => En::F(Val::load(&child(e, "F0")), Val::load(&child(e, "F1")), Val::load(&child(e, "F2"))),
            6 => En::G(Val::load(&child(e, "G0")), Val::load(&child(e, "G1")), Val::load(&child(e, "G2")), Val::load(&child(e, "G3"))),
            7 => En::H { p: Val::load(&child(e, "Hp")), q: Val::load(&child(e, "Hq")), r: Val::load(&child(e, "Hr")), s: Val::load(&child(e, "Hs")) },
            8 => En::K(Val::load(&child(e, "K0")), Val::load(&child(e, "K1")), Val::load(&child(e, "K2")), Val::load(&child(e, "K3")), Val::load(&child(e, "K4"))),
            _ => En::D(Val::load(&child(e, "D0"))),
        }
    }
}

/// a string of four digits; the number is found at its content
impl Val for String {
    fn dump(&self, pre: &mut Vec<String>, out: &mut Vec<Ent>) {
        sub("c", &self.parse::<i64>().unwrap(), pre, out);
    }
    fn load(e: &[Ent]) -> Self {
        format!("{:04}", own(&child(e, "c")))
    }
}
pub fn own_of(e: &[Ent]) -> i64 {
    own(e)
}
