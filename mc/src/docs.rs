//! Documents: token strings over the grammar, their instantiation, and the deviation operators.
use crate::gram::*;
use std::collections::HashMap;
use std::sync::Mutex;

pub type Doc = Vec<&'static str>;

static POOL: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
/// Harness-side token pool.
pub fn ist(s: &str) -> &'static str {
    let mut g = POOL.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.to_string(), l);
    l
}
/// Canonical layout and, per token, its end offset.
pub fn render(d: &[&str]) -> (String, Vec<usize>) {
    let mut s = String::with_capacity(d.len() * 5);
    let mut ends = Vec::with_capacity(d.len());
    for (i, t) in d.iter().enumerate() {
        if i > 0 && d[i - 1] != "(" && *t != ")" {
            s.push(' ');
        }
        s += t;
        ends.push(s.len());
    }
    (s, ends)
}
pub struct Pools {
    names: Vec<&'static str>,
    vars: Vec<&'static str>,
    nums: Vec<&'static str>,
    uints: Vec<&'static str>,
    lits: Vec<&'static str>,
}
impl Pools {
    pub fn new(g: &Grammar) -> Pools {
        Pools {
            names: (0..2500).map(|i| ist(&format!("n{}", i))).collect(),
            vars: (0..2500).map(|i| ist(&format!("?v{}", i))).collect(),
            nums: (0..2500).map(|i| ist(&if i % 2 == 0 { format!("{}", i + 2) } else { format!("{}.25", i) })).collect(),
            uints: (0..2500).map(|i| ist(&format!("{}", i + 3))).collect(),
            lits: g.toks.iter().map(|t| ist(t)).collect(),
        }
    }
    pub fn lit(&self, t: Tk) -> &'static str {
        self.lits[t as usize]
    }
    /// Every leaf gets its own value.
    pub fn distinct(&self, s: &[Tk]) -> Doc {
        let mut c = [0usize; 4];
        s.iter()
            .map(|t| {
                let t = *t as usize;
                if t < 4 {
                    let i = c[t] % 2500;
                    c[t] += 1;
                    [&self.names, &self.vars, &self.nums, &self.uints][t][i]
                } else {
                    self.lits[t]
                }
            })
            .collect()
    }
    /// All leaves of a class share one value.
    pub fn same(&self, s: &[Tk]) -> Doc {
        s.iter()
            .map(|t| match *t {
                NAME => "x",
                VAR => "?x",
                NUM => "1",
                UINT => "7",
                t => self.lits[t as usize],
            })
            .collect()
    }
    /// Names (or variables, for class VAR) filled according to a block assignment; the rest distinct.
    pub fn blocks(&self, s: &[Tk], class: Tk, b: &[usize]) -> Doc {
        let mut d = self.distinct(s);
        let mut k = 0;
        for (i, t) in s.iter().enumerate() {
            if *t == class {
                d[i] = [&self.names, &self.vars, &self.nums, &self.uints][class as usize][b[k]];
                k += 1;
            }
        }
        d
    }
}
/// All set partitions of n items as restricted growth strings.
pub fn partitions(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn rec(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        let m = cur.iter().max().map_or(0, |x| x + 1);
        for v in 0..=m {
            cur.push(v);
            rec(cur, n, out);
            cur.pop();
        }
    }
    rec(&mut vec![], n, &mut out);
    out
}
/// Element spans [b,e) of a balanced abstract sentence, each with the index of its parent span (or MAX).
pub fn spans<X: PartialEq + Copy>(s: &[X], lp: X, rp: X) -> Vec<(usize, usize, usize)> {
    let mut out: Vec<(usize, usize, usize)> = vec![];
    let mut stack: Vec<usize> = vec![];
    for (i, t) in s.iter().enumerate() {
        if *t == lp {
            out.push((i, 0, *stack.last().unwrap_or(&usize::MAX)));
            stack.push(out.len() - 1);
        } else if *t == rp {
            if let Some(p) = stack.pop() {
                out[p].1 = i + 1;
            }
        } else {
            out.push((i, i + 1, *stack.last().unwrap_or(&usize::MAX)));
        }
    }
    out.retain(|x| x.1 > 0);
    out
}
/// Repeat one to three consecutive siblings `k` times in place.
pub fn pumps(s: &[Tk], ks: &[usize], maxlen: usize, f: &mut dyn FnMut(&[Tk])) {
    let sp = spans(s, LP, RP);
    for (i, x) in sp.iter().enumerate() {
        let mut e = x.1;
        let mut last = i;
        for _ in 0..3 {
            for &k in ks {
                let len = s.len() + (e - x.0) * (k - 1);
                if len > maxlen {
                    continue;
                }
                let mut v = Vec::with_capacity(len);
                v.extend_from_slice(&s[..x.0]);
                for _ in 0..k {
                    v.extend_from_slice(&s[x.0..e]);
                }
                v.extend_from_slice(&s[e..]);
                f(&v);
            }
            match (last + 1..sp.len()).find(|j| sp[*j].0 == e && sp[*j].2 == x.2) {
                Some(j) => {
                    e = sp[j].1;
                    last = j;
                }
                None => break,
            }
        }
    }
}
/// Replace an inner element by its own enclosing element, `k` times over.
pub fn nests(s: &[Tk], ks: &[usize], maxlen: usize, f: &mut dyn FnMut(&[Tk])) {
    let sp = spans(s, LP, RP);
    for u in sp.iter().filter(|u| u.1 - u.0 > 1) {
        for v in sp.iter().filter(|v| v.0 > u.0 && v.1 <= u.1 && v.1 > v.0) {
            let pre = &s[u.0..v.0];
            let post = &s[v.1..u.1];
            for &k in ks {
                if s.len() + k * (pre.len() + post.len()) > maxlen {
                    continue;
                }
                let mut o = Vec::new();
                o.extend_from_slice(&s[..v.0]);
                for _ in 0..k {
                    o.extend_from_slice(pre);
                }
                o.extend_from_slice(&s[v.0..v.1]);
                for _ in 0..k {
                    o.extend_from_slice(post);
                }
                o.extend_from_slice(&s[v.1..]);
                f(&o);
            }
        }
    }
}
/// Every single-token edit: truncation, deletion, duplication, substitution, insertion, and
/// every exchange of two adjacent siblings.
pub fn edits(s: &[Tk], alphabet: &[Tk], f: &mut dyn FnMut(&[Tk], &'static str)) {
    let mut v: Vec<Tk> = Vec::with_capacity(s.len() + 1);
    for i in 0..s.len() {
        f(&s[..i], "truncate");
        v.clear();
        v.extend_from_slice(&s[..i]);
        v.extend_from_slice(&s[i + 1..]);
        f(&v, "delete");
        for &t in alphabet {
            if t != s[i] {
                v.clear();
                v.extend_from_slice(s);
                v[i] = t;
                f(&v, "substitute");
            }
        }
    }
    for i in 0..=s.len() {
        for &t in alphabet {
            v.clear();
            v.extend_from_slice(&s[..i]);
            v.push(t);
            v.extend_from_slice(&s[i..]);
            f(&v, "insert");
        }
    }
    swaps(s, &mut |x| f(x, "swap"));
}
/// Exchange any two siblings; drop or double any one element.
pub fn swaps(s: &[Tk], f: &mut dyn FnMut(&[Tk])) {
    let sp = spans(s, LP, RP);
    for (i, x) in sp.iter().enumerate() {
        for y in sp[i + 1..].iter().filter(|y| y.2 == x.2 && y.0 >= x.1) {
            let mut v = Vec::with_capacity(s.len());
            v.extend_from_slice(&s[..x.0]);
            v.extend_from_slice(&s[y.0..y.1]);
            v.extend_from_slice(&s[x.1..y.0]);
            v.extend_from_slice(&s[x.0..x.1]);
            v.extend_from_slice(&s[y.1..]);
            f(&v);
        }
        if x.1 - x.0 > 1 {
            let mut v = s[..x.0].to_vec();
            v.extend_from_slice(&s[x.1..]);
            f(&v);
            let mut v = s[..x.1].to_vec();
            v.extend_from_slice(&s[x.0..]);
            f(&v);
        }
    }
}

/// Tokens of a text in which no token contains a parenthesis or white space.
pub fn tokens(text: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut b = None;
    for (i, c) in text.char_indices() {
        if c == '(' || c == ')' || c.is_ascii_whitespace() {
            if let Some(b) = b.take() {
                v.push(&text[b..i]);
            }
            if !c.is_ascii_whitespace() {
                v.push(&text[i..i + 1]);
            }
        } else if b.is_none() {
            b = Some(i);
        }
    }
    if let Some(b) = b {
        v.push(&text[b..]);
    }
    v
}
/// Hand-written documents that use every construct together: (entry, concrete tokens).
pub fn rich() -> Vec<(&'static str, Doc)> {
    let mut out = vec![];
    for part in include_str!("rich.txt").split('@') {
        if let Some((nt, text)) = part.split_once('\n') {
            out.push((ist(nt.trim()), tokens(text).into_iter().map(ist).collect()));
        }
    }
    out
}
/// The sentence a concrete document instantiates.
pub fn abstracted(g: &Grammar, d: &[&str]) -> Vec<Tk> {
    let mut v: Vec<Tk> = d.iter().map(|t| g.classify(t)).collect();
    for i in 1..v.len() {
        if v[i] == NUM && (d[i - 1] == ":serial" || d[i - 1] == ":parallel") {
            v[i] = UINT;
        }
    }
    v
}
