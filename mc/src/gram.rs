//! The grammar as data, and exhaustive enumeration of its sentences by exact token count.
//! The search walks the configurations of the pushdown generator: (pending nodes with exact lengths,
//! tokens emitted so far).
use std::collections::HashMap;

/// Token ids; the first four are leaf classes instantiated later.
pub type Tk = u8;
pub const NAME: Tk = 0;
pub const VAR: Tk = 1;
pub const NUM: Tk = 2;
pub const UINT: Tk = 3;
pub const LP: Tk = 4;
pub const RP: Tk = 5;

pub enum Node {
    Eps,
    Tok(Tk),
    Cat(usize, usize),
    Alt(Vec<usize>),
}
pub struct Grammar {
    pub toks: Vec<String>,
    pub nodes: Vec<Node>,
    pub nts: HashMap<String, usize>,
    pub order: Vec<String>,
    is_nt: Vec<bool>,
    cnt: std::cell::RefCell<HashMap<(usize, usize), u64>>,
}
#[derive(Default, Clone, Copy)]
pub struct Stat {
    pub configs: u64,
    pub expansions: u64,
}

/// The part of a sentence derived from a nonterminal (by node id).
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Span {
    pub nt: usize,
    pub b: usize,
    pub e: usize,
}
const CLOSE: usize = usize::MAX;
struct Walk {
    work: Vec<(usize, usize)>,
    out: Vec<Tk>,
    open: Vec<(usize, usize)>,
    spans: Vec<Span>,
}

impl Grammar {
    pub fn load(text: &str) -> Grammar {
        let mut g = Grammar {
            toks: ["NAME", "VAR", "NUM", "UINT", "(", ")"].iter().map(|s| s.to_string()).collect(),
            nodes: vec![Node::Eps],
            nts: HashMap::new(),
            order: vec![],
            is_nt: vec![],
            cnt: Default::default(),
        };
        let mut rules = vec![];
        for l in text.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() < 3 || w[1] != "=" {
                continue;
            }
            let id = g.node(Node::Alt(vec![]));
            g.nts.insert(w[0].to_string(), id);
            g.order.push(w[0].to_string());
            rules.push((id, w[2..].iter().map(|s| s.to_string()).collect::<Vec<_>>()));
        }
        for (id, w) in rules {
            let mut i = 0;
            let alts = g.alts(&w, &mut i);
            assert_eq!(i, w.len());
            g.nodes[id] = Node::Alt(alts);
        }
        g.is_nt = vec![false; g.nodes.len()];
        for id in g.nts.values() {
            g.is_nt[*id] = true;
        }
        g
    }
    fn node(&mut self, n: Node) -> usize {
        self.nodes.push(n);
        self.nodes.len() - 1
    }
    pub fn tok(&mut self, s: &str) -> Tk {
        if let Some(p) = self.toks.iter().position(|t| t == s) {
            return p as Tk;
        }
        self.toks.push(s.to_string());
        assert!(self.toks.len() < 256);
        (self.toks.len() - 1) as Tk
    }
    fn alts(&mut self, w: &[String], i: &mut usize) -> Vec<usize> {
        let mut out = vec![];
        loop {
            let mut seq = vec![];
            while *i < w.len() {
                match w[*i].as_str() {
                    "|" | "]" | "}*" | "}+" => break,
                    "[" => {
                        *i += 1;
                        let mut a = self.alts(w, i);
                        *i += 1;
                        a.push(0);
                        seq.push(self.node(Node::Alt(a)));
                    }
                    "{" => {
                        *i += 1;
                        let a = self.alts(w, i);
                        let plus = w[*i] == "}+";
                        *i += 1;
                        let item = self.node(Node::Alt(a));
                        let star = self.node(Node::Alt(vec![]));
                        let more = self.node(Node::Cat(item, star));
                        self.nodes[star] = Node::Alt(vec![0, more]);
                        seq.push(if plus { more } else { star });
                    }
                    t if t.len() > 2 && t.starts_with('<') && t.ends_with('>') => {
                        seq.push(*self.nts.get(&t[1..t.len() - 1]).unwrap_or_else(|| panic!("{}", t)));
                        *i += 1;
                    }
                    t => {
                        let id = self.tok(t);
                        seq.push(self.node(Node::Tok(id)));
                        *i += 1;
                    }
                }
            }
            let mut acc = 0;
            for s in seq.into_iter().rev() {
                acc = if acc == 0 { s } else { self.node(Node::Cat(s, acc)) };
            }
            out.push(acc);
            if *i < w.len() && w[*i] == "|" {
                *i += 1;
            } else {
                return out;
            }
        }
    }
    /// Number of derivations of exactly `len` tokens (saturating).
    pub fn count(&self, node: usize, len: usize) -> u64 {
        if let Some(c) = self.cnt.borrow().get(&(node, len)) {
            return *c;
        }
        let c = match &self.nodes[node] {
            Node::Eps => (len == 0) as u64,
            Node::Tok(_) => (len == 1) as u64,
            Node::Alt(v) => v.iter().fold(0u64, |s, x| s.saturating_add(self.count(*x, len))),
            Node::Cat(x, y) => (0..=len).fold(0u64, |s, k| {
                let cx = self.count(*x, k);
                if cx == 0 {
                    s
                } else {
                    s.saturating_add(cx.saturating_mul(self.count(*y, len - k)))
                }
            }),
        };
        self.cnt.borrow_mut().insert((node, len), c);
        c
    }
    pub fn each(&self, nt: &str, len: usize, st: &mut Stat, f: &mut dyn FnMut(&[Tk], &[Span])) {
        let id = self.nts[nt];
        if self.count(id, len) == 0 {
            return;
        }
        let mut w = Walk { work: vec![(id, len)], out: Vec::with_capacity(len), open: vec![], spans: vec![] };
        self.go(&mut w, st, f);
    }
    fn go(&self, w: &mut Walk, st: &mut Stat, f: &mut dyn FnMut(&[Tk], &[Span])) {
        st.configs += 1;
        let (node, len) = match w.work.pop() {
            None => {
                f(&w.out, &w.spans);
                return;
            }
            Some(x) => x,
        };
        if node == CLOSE {
            let (nt, b) = w.open.pop().unwrap();
            w.spans.push(Span { nt, b, e: w.out.len() });
            self.go(w, st, f);
            w.spans.pop();
            w.open.push((nt, b));
            w.work.push((node, len));
            return;
        }
        match &self.nodes[node] {
            Node::Eps => {
                st.expansions += 1;
                self.go(w, st, f)
            }
            Node::Tok(t) => {
                st.expansions += 1;
                w.out.push(*t);
                self.go(w, st, f);
                w.out.pop();
            }
            Node::Alt(v) => {
                let named = self.is_nt[node];
                if named {
                    w.open.push((node, w.out.len()));
                    w.work.push((CLOSE, 0));
                }
                for x in v {
                    if self.count(*x, len) > 0 {
                        st.expansions += 1;
                        w.work.push((*x, len));
                        self.go(w, st, f);
                        w.work.pop();
                    }
                }
                if named {
                    w.work.pop();
                    w.open.pop();
                }
            }
            Node::Cat(x, y) => {
                for k in 0..=len {
                    if self.count(*x, k) > 0 && self.count(*y, len - k) > 0 {
                        st.expansions += 1;
                        w.work.push((*y, len - k));
                        w.work.push((*x, k));
                        self.go(w, st, f);
                        w.work.pop();
                        w.work.pop();
                    }
                }
            }
        }
        w.work.push((node, len));
    }
    /// Abstracts a concrete token: a literal of the grammar, or a leaf class.
    pub fn classify(&self, t: &str) -> Tk {
        if let Some(p) = self.toks.iter().position(|x| x == t) {
            if p > 3 {
                return p as Tk;
            }
        }
        if t.starts_with('?') {
            VAR
        } else if t.starts_with(|c: char| c.is_ascii_digit()) {
            NUM
        } else {
            NAME
        }
    }
    pub fn nt_name(&self, id: usize) -> &str {
        self.order.iter().find(|n| self.nts[*n] == id).map(|s| s.as_str()).unwrap_or("?")
    }
    /// Tokens reachable from a nonterminal (its own alphabet).
    pub fn alphabet(&self, nt: &str) -> Vec<Tk> {
        let mut seen = vec![false; self.nodes.len()];
        let mut tk = vec![];
        let mut st = vec![self.nts[nt]];
        while let Some(x) = st.pop() {
            if std::mem::replace(&mut seen[x], true) {
                continue;
            }
            match &self.nodes[x] {
                Node::Eps => {}
                Node::Tok(t) => {
                    if !tk.contains(t) {
                        tk.push(*t)
                    }
                }
                Node::Alt(v) => st.extend(v),
                Node::Cat(a, b) => st.extend([*a, *b]),
            }
        }
        tk.sort();
        tk
    }
}
pub fn outline() -> Grammar {
    Grammar::load(include_str!("outline.txt"))
}
pub fn full() -> Grammar {
    Grammar::load(include_str!("grammar.txt"))
}
