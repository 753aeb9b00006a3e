//! Evaluates emitted parameter code of the plain kind: constructors, literals and vectors, nothing else.
//! Whatever else the code contains is not judged here (`None`): such code goes to the compiler.
use num_bigint::BigUint;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Num(String),
    Str(String),
    P(char),
}
fn tokens(s: &str) -> Option<Vec<Tok>> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1;
        } else if x == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x.is_ascii_digit() {
            let j = i;
            while i < c.len() && c[i].is_ascii_digit() {
                i += 1;
            }
            if i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '.') {
                return None;
            }
            v.push(Tok::Num(c[j..i].iter().collect()));
        } else if x.is_alphabetic() || x == '_' {
            let j = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            v.push(Tok::Id(c[j..i].iter().collect()));
        } else if x == '"' {
            let j = i + 1;
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    return None;
                }
                i += 1;
            }
            if i == c.len() {
                return None;
            }
            v.push(Tok::Str(c[j..i].iter().collect()));
            i += 1;
        } else {
            v.push(Tok::P(x));
            i += 1;
        }
    }
    Some(v)
}
#[derive(Clone, Debug)]
enum Val {
    Num(String),
    Str(String),
    List(Vec<Val>),
    Call(String, Vec<Val>),
    Struct(String, HashMap<String, Val>),
}
struct Reader {
    t: Vec<Tok>,
    i: usize,
}
impl Reader {
    fn peek(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(k, c)| self.t.get(self.i + k) == Some(&Tok::P(c)))
    }
    fn eat(&mut self, s: &str) -> Option<()> {
        if self.peek(s) {
            self.i += s.len();
            Some(())
        } else {
            None
        }
    }
    fn id(&mut self) -> Option<String> {
        match self.t.get(self.i) {
            Some(Tok::Id(s)) => {
                self.i += 1;
                Some(s.clone())
            }
            _ => None,
        }
    }
    fn list(&mut self, end: &str) -> Option<Vec<Val>> {
        let mut v = vec![];
        loop {
            if self.eat(end).is_some() {
                return Some(v);
            }
            v.push(self.expr()?);
            if self.eat(",").is_none() {
                self.eat(end)?;
                return Some(v);
            }
        }
    }
    fn expr(&mut self) -> Option<Val> {
        let mut v = match self.t.get(self.i)?.clone() {
            Tok::Num(n) => {
                self.i += 1;
                Val::Num(n)
            }
            Tok::Str(s) => {
                self.i += 1;
                Val::Str(s)
            }
            Tok::Id(n) => {
                self.i += 1;
                if n == "vec" {
                    self.eat("![")?;
                    Val::List(self.list("]")?)
                } else {
                    let mut path = n;
                    while self.eat("::").is_some() {
                        path = format!("{}::{}", path, self.id()?);
                    }
                    if self.eat("(").is_some() {
                        Val::Call(path, self.list(")")?)
                    } else if self.eat("{").is_some() {
                        let mut m = HashMap::new();
                        while self.eat("}").is_none() {
                            let k = self.id()?;
                            self.eat(":")?;
                            if m.insert(k, self.expr()?).is_some() {
                                return None;
                            }
                            if self.eat(",").is_none() {
                                self.eat("}")?;
                                break;
                            }
                        }
                        Val::Struct(path, m)
                    } else {
                        Val::Call(path, vec![])
                    }
                }
            }
            _ => return None,
        };
        while self.eat(".").is_some() {
            let m = self.id()?;
            match &m[..] {
                "unwrap" => self.eat("()")?,
                "map_err" => self.eat("(|").and_then(|_| self.id()).and_then(|_| self.eat("|())"))?,
                _ => return None,
            }
            // the result of a parse is the only one unwrapped
            match &v {
                Val::Call(f, _) if f == "F::from_str" => v = Val::Call("parsed".into(), vec![v]),
                Val::Call(f, _) if f == "parsed" => {}
                _ => return None,
            }
        }
        Some(v)
    }
}
struct Out<'a> {
    p: &'a BigUint,
    lines: Vec<String>,
}
impl Out<'_> {
    fn num(v: &Val) -> Option<String> {
        match v {
            Val::Num(n) => n.parse::<usize>().ok().map(|x| x.to_string()),
            _ => None,
        }
    }
    fn word(&self, v: &Val) -> Option<String> {
        match v {
            Val::Call(f, a) if f == "parsed" => match &a[..] {
                [Val::Call(_, s)] => match &s[..] {
                    [Val::Str(s)] => {
                        let ok = !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) && (s == "0" || !s.starts_with('0'));
                        let n: BigUint = if ok { s.parse().ok()? } else { return None };
                        Some((n % self.p).to_string())
                    }
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        }
    }
    fn matrix(&self, name: &str, ty: &str, v: Option<&Val>) -> Option<String> {
        match v? {
            Val::Call(f, a) if *f == format!("{}::new", ty) && a.len() == 3 => self.shaped(name, Self::num(&a[0])?.parse().ok()?, Self::num(&a[1])?.parse().ok()?, &a[2]),
            Val::Call(f, a) if *f == format!("{}::from_elements", ty) && ty == "MdsMatrix" && a.len() == 1 => match &a[0] {
                Val::List(l) => {
                    let n = (0..).find(|n| n * n >= l.len())?;
                    self.shaped(name, n, n, &a[0])
                }
                _ => None,
            },
            _ => None,
        }
    }
    fn shaped(&self, name: &str, r: usize, c: usize, l: &Val) -> Option<String> {
        match l {
            Val::List(l) if l.len() == r * c => {
                let e: Option<Vec<String>> = l.iter().map(|x| self.word(x)).collect();
                Some(format!("{} {}x{} {}", name, r, c, e?.join(",")))
            }
            _ => None,
        }
    }
    fn set(&mut self, v: &Val) -> Option<()> {
        let f = match v {
            Val::Struct(n, f) if n == "PoseidonParameters" && f.len() == 8 => f,
            _ => return None,
        };
        let o = match f.get("optimized_mds")? {
            Val::Struct(n, f) if n == "OptimizedMdsMatrices" && f.len() == 11 => f,
            _ => return None,
        };
        let mut l = vec![format!("M {}", Self::num(f.get("M")?)?), format!("t {}", Self::num(f.get("t")?)?)];
        l.push(match f.get("alpha")? {
            Val::Call(n, a) if n == "Alpha::Inverse" && a.is_empty() => "alpha inverse".into(),
            Val::Call(n, a) if n == "Alpha::Exponent" && a.len() == 1 => format!("alpha {}", Self::num(&a[0])?.parse::<u32>().ok()?),
            _ => return None,
        });
        l.push(match f.get("rounds")? {
            Val::Struct(n, f) if n == "RoundNumbers" && f.len() == 2 => format!("rounds {} full {} partial", Self::num(f.get("r_F")?)?, Self::num(f.get("r_P")?)?),
            _ => return None,
        });
        l.push(self.matrix("arc", "ArcMatrix", f.get("arc"))?);
        l.push(self.matrix("mds", "MdsMatrix", f.get("mds"))?);
        l.push(self.matrix("optimized_arc", "OptimizedArcMatrix", f.get("optimized_arc"))?);
        for (n, ty) in [("M_hat", "SquareMatrix"), ("v", "Matrix"), ("w", "Matrix"), ("M_prime", "SquareMatrix"), ("M_doubleprime", "SquareMatrix"), ("M_inverse", "SquareMatrix"), ("M_hat_inverse", "SquareMatrix")].iter() {
            l.push(self.matrix(n, ty, o.get(*n))?);
        }
        l.push(format!("M_00 {}", self.word(o.get("M_00")?)?));
        l.push(self.matrix("M_i", "Matrix", o.get("M_i"))?);
        match (o.get("v_collection")?, o.get("w_hat_collection")?) {
            (Val::List(a), Val::List(b)) => {
                l.push(format!("{} in v_collection, {} in w_hat_collection", a.len(), b.len()));
                for (i, x) in a.iter().enumerate() {
                    l.push(self.matrix(&format!("v_collection[{}]", i), "Matrix", Some(x))?);
                }
                for (i, x) in b.iter().enumerate() {
                    l.push(self.matrix(&format!("w_hat_collection[{}]", i), "Matrix", Some(x))?);
                }
            }
            _ => return None,
        }
        self.lines = l;
        Some(())
    }
}
/// The functions of the emitted code and the lines of what they denote.
pub fn read(text: &str, p: &BigUint) -> Option<Vec<(String, Vec<String>)>> {
    let mut r = Reader { t: tokens(text)?, i: 0 };
    let mut out = vec![];
    while r.i < r.t.len() {
        match &r.id()?[..] {
            "use" => {
                while r.eat(";").is_none() {
                    r.t.get(r.i)?;
                    r.i += 1;
                }
            }
            "pub" => {
                if r.id()? != "fn" {
                    return None;
                }
                let name = r.id()?;
                // <F: PrimeField>() -> PoseidonParameters<F> {
                r.eat("<")?;
                (r.id()? == "F").then(|| ())?;
                r.eat(":")?;
                (r.id()? == "PrimeField").then(|| ())?;
                r.eat(">()->")?;
                (r.id()? == "PoseidonParameters").then(|| ())?;
                r.eat("<")?;
                (r.id()? == "F").then(|| ())?;
                r.eat(">{")?;
                let v = r.expr()?;
                r.eat("}")?;
                let mut o = Out { p, lines: vec![] };
                o.set(&v)?;
                out.push((name, o.lines));
            }
            _ => return None,
        }
    }
    Some(out)
}
