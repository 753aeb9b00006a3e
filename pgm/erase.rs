// The generator's signatures have been moved to matrices sized at compile time while the bodies are still
// written for matrices sized at run time, so no compiler accepts them. Erasing the sizes from the types
// leaves code of one kind. Nothing else is touched:
//   const parameters are dropped from parameter lists and argument lists,
//   Matrix<..sizes..> and its like become Matrix<F>,
//   [T; SIZE] becomes Vec<T>,
//   a size used as a value becomes a call of crate::sizes::SIZE(), which the harness sets,
//   Type::<..sizes..>::identity() gets the size it was given in the type,
//   a product that is not unwrapped is (mat_mul cannot fail where sizes are types, and returns a Result
//   where they are not; the code has some of both).
#[derive(Clone, PartialEq, Debug)]
enum T {
    Id(String),
    P(char),
    /// anything else, verbatim
    Lit(String),
}
fn lex(s: &str) -> Vec<T> {
    let c: Vec<char> = s.chars().collect();
    let (mut v, mut i) = (vec![], 0);
    while i < c.len() {
        let x = c[i];
        let at = |k: usize| c.get(i + k).copied().unwrap_or(' ');
        let j = i;
        if x.is_whitespace() {
            i += 1;
            continue;
        } else if x == '/' && at(1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            continue;
        } else if x == '/' && at(1) == '*' {
            let mut d = 0;
            loop {
                if c[i] == '/' && c.get(i + 1) == Some(&'*') {
                    d += 1;
                    i += 2;
                } else if c[i] == '*' && c.get(i + 1) == Some(&'/') {
                    d -= 1;
                    i += 2;
                    if d == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
            continue;
        } else if x == '"' || (x == 'b' && at(1) == '"') {
            i += if x == 'b' { 2 } else { 1 };
            while c[i] != '"' {
                i += if c[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
        } else if x == 'r' && (at(1) == '"' || at(1) == '#' && (at(2) == '"' || at(2) == '#')) {
            i += 1;
            let mut h = 0;
            while c[i] == '#' {
                h += 1;
                i += 1;
            }
            i += 1;
            while !(c[i] == '"' && (1..=h).all(|k| c.get(i + k) == Some(&'#'))) {
                i += 1;
            }
            i += 1 + h;
        } else if x == '\'' {
            if at(1) == '\\' {
                i += 2;
                while c[i] != '\'' {
                    i += 1;
                }
                i += 1;
            } else if at(2) == '\'' {
                i += 3;
            } else {
                i += 1;
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
            }
        } else if x.is_ascii_digit() {
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || (c[i] == '.' && c.get(i + 1).map_or(false, |y| y.is_ascii_digit()) && !c[j..i].contains(&'.'))) {
                i += 1;
            }
        } else if x.is_alphabetic() || x == '_' {
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            v.push(T::Id(c[j..i].iter().collect()));
            continue;
        } else {
            i += 1;
            v.push(T::P(x));
            continue;
        }
        v.push(T::Lit(c[j..i].iter().collect()));
    }
    v
}
fn print(v: &[T]) -> String {
    let mut s = String::new();
    let mut word = false;
    for t in v {
        match t {
            T::Id(x) | T::Lit(x) => {
                if word {
                    s.push(' ');
                }
                s += x;
                word = true;
            }
            T::P(x) => {
                // keep compound operators together, and everything else apart only where needed
                s.push(*x);
                if ";{}".contains(*x) {
                    s.push('\n');
                }
                word = false;
            }
        }
    }
    s
}
fn id(t: Option<&T>) -> Option<&str> {
    match t {
        Some(T::Id(s)) => Some(s),
        _ => None,
    }
}
fn is(t: Option<&T>, c: char) -> bool {
    t == Some(&T::P(c))
}
/// The position behind the bracket that closes the one at `i`.
fn close(v: &[T], i: usize) -> usize {
    let angle = is(v.get(i), '<');
    let (mut d, mut k) = (0, i);
    while k < v.len() {
        match v[k] {
            T::P('<') if angle => d += 1,
            // not the second half of an arrow
            T::P('>') if angle && !is(v.get(k - 1), '-') && !is(v.get(k - 1), '=') => d -= 1,
            T::P('(') | T::P('[') | T::P('{') if angle => {
                k = close(v, k);
                continue;
            }
            T::P('(') | T::P('[') | T::P('{') => d += 1,
            T::P(')') | T::P(']') | T::P('}') => d -= 1,
            _ => {}
        }
        k += 1;
        if d == 0 {
            return k;
        }
    }
    k
}
/// Split what is between brackets at its commas.
fn split(v: &[T]) -> Vec<Vec<T>> {
    let (mut out, mut cur, mut k) = (vec![], vec![], 0);
    while k < v.len() {
        if is(v.get(k), ',') {
            out.push(std::mem::take(&mut cur));
            k += 1;
        } else if let T::P('(') | T::P('[') | T::P('{') | T::P('<') = v[k] {
            let e = close(v, k);
            cur.extend_from_slice(&v[k..e]);
            k = e;
        } else {
            cur.push(v[k].clone());
            k += 1;
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
const SIZED: &[&str] = &["Matrix", "SquareMatrix", "MdsMatrix", "OptimizedMdsMatrices", "ArcMatrix", "OptimizedArcMatrix", "PoseidonParameters"];
/// Is this argument a size?
fn size(a: &[T], consts: &[String]) -> bool {
    match a {
        [T::Lit(x)] => x.chars().all(|c| c.is_ascii_digit()),
        [T::P('{'), ..] => true,
        [T::Id(x)] => consts.contains(x),
        _ => false,
    }
}
fn erase(v: &[T], consts: &[String]) -> Vec<T> {
    let mut o: Vec<T> = vec![];
    let mut k = 0;
    while k < v.len() {
        let name = id(v.get(k)).unwrap_or("").to_string();
        // `const N: usize` inside a parameter list is dealt with at its `<`
        let turbo = is(v.get(k + 1), ':') && is(v.get(k + 2), ':') && is(v.get(k + 3), '<');
        let plain = !name.is_empty() && is(v.get(k + 1), '<');
        let sized = SIZED.contains(&&name[..]);
        let decl = k > 0 && matches!(id(v.get(k - 1)), Some("fn") | Some("struct") | Some("enum") | Some("trait") | Some("type")) || name == "impl";
        if !name.is_empty() && (turbo || plain && (sized || decl)) {
            let b = if turbo { k + 3 } else { k + 1 };
            let e = close(v, b);
            let args = split(&v[b + 1..e - 1]);
            let sizes: Vec<Vec<T>> = args.iter().filter(|a| size(a, consts)).cloned().collect();
            let rest: Vec<Vec<T>> = args.iter().filter(|a| !size(a, consts) && id(a.get(0)) != Some("const")).cloned().collect();
            o.push(v[k].clone());
            if sized && (!sizes.is_empty()) {
                if turbo {
                    o.extend([T::P(':'), T::P(':')]);
                }
                o.extend([T::P('<'), T::Id("F".into()), T::P('>')]);
            } else if !rest.is_empty() {
                if turbo {
                    o.extend([T::P(':'), T::P(':')]);
                }
                o.push(T::P('<'));
                for (n, a) in rest.iter().enumerate() {
                    if n > 0 {
                        o.push(T::P(','));
                    }
                    o.extend(erase(a, consts));
                }
                o.push(T::P('>'));
            }
            k = e;
            if sized && !sizes.is_empty() && is(v.get(k), ':') && is(v.get(k + 1), ':') && id(v.get(k + 2)) == Some("identity") && is(v.get(k + 3), '(') && is(v.get(k + 4), ')') {
                o.extend_from_slice(&v[k..k + 4]);
                o.extend(erase(&sizes[0], consts));
                o.push(T::P(')'));
                k += 5;
            }
            continue;
        }
        if is(v.get(k), '[') {
            let e = close(v, k);
            let inner = &v[k + 1..e - 1];
            let semi = (0..inner.len()).rev().find(|i| is(inner.get(*i), ';'));
            // in a type: behind `:`, `->`, `(`, `,` or `<`, an element type and a size
            if let Some(s) = semi {
                if size(&inner[s + 1..], consts) && matches!(&inner[s + 1..], [T::Id(_)]) && SIZED.iter().any(|x| id(inner.get(0)) == Some(x)) {
                    o.extend([T::Id("Vec".into()), T::P('<')]);
                    o.extend(erase(&inner[..s], consts));
                    o.push(T::P('>'));
                    k = e;
                    continue;
                }
            }
        }
        if name == "mat_mul" && is(v.get(k + 1), '(') {
            let e = close(v, k + 1);
            o.extend(v[k..k + 2].iter().cloned());
            o.extend(erase(&v[k + 2..e - 1], consts));
            o.push(T::P(')'));
            let result = ["unwrap", "expect", "ok", "map", "map_err", "and_then", "unwrap_or_else", "is_ok", "is_err"];
            if !(is(v.get(e), '.') && id(v.get(e + 1)).map_or(false, |m| result.contains(&m))) && !is(v.get(e), '?') {
                o.extend([T::P('.'), T::Id("unwrap".into()), T::P('('), T::P(')')]);
            }
            k = e;
            continue;
        }
        if consts.contains(&name) {
            for w in ["crate", "sizes"].iter() {
                o.extend([T::Id(w.to_string()), T::P(':'), T::P(':')]);
            }
            o.extend([T::Id(name), T::P('('), T::P(')')]);
            k += 1;
            continue;
        }
        o.push(v[k].clone());
        k += 1;
    }
    o
}
fn without_tests(v: Vec<T>) -> Vec<T> {
    let mut o = vec![];
    let mut k = 0;
    while k < v.len() {
        if is(v.get(k), '#') && is(v.get(k + 1), '[') && id(v.get(k + 2)) == Some("cfg") && id(v.get(k + 4)) == Some("test") {
            k = close(&v, k + 1);
            while is(v.get(k), '#') {
                k = close(&v, k + 1);
            }
            while k < v.len() && !is(v.get(k), '{') && !is(v.get(k), ';') {
                k += 1;
            }
            k = if is(v.get(k), '{') { close(&v, k) } else { k + 1 };
        } else {
            o.push(v[k].clone());
            k += 1;
        }
    }
    o
}
/// The source without sizes.
fn erased(source: &str) -> String {
    let v = without_tests(lex(source));
    let mut consts = vec![];
    for k in 0..v.len() {
        if id(v.get(k)) == Some("const") && is(v.get(k + 2), ':') && !is(v.get(k + 3), ':') && id(v.get(k + 3)) == Some("usize") && (is(v.get(k + 4), ',') || is(v.get(k + 4), '>')) {
            consts.push(id(v.get(k + 1)).unwrap_or("").to_string());
        }
    }
    print(&erase(&v, &consts))
}
