//! The neutral term tree both sides of every comparison are brought to: the reference parser
//! produces it from tokens, `lift` produces it from the library's values.
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum T {
    /// An identifier or keyword, verbatim.
    A(String),
    /// A number, by the bits of its `f32` value (with -0 folded to 0).
    F(u32),
    /// An unsigned integer.
    U(u64),
    /// A constructor with its operands in order.
    N(&'static str, Vec<T>),
}

pub fn a<S: AsRef<str>>(s: S) -> T {
    T::A(s.as_ref().to_string())
}
pub fn n(tag: &'static str, kids: Vec<T>) -> T {
    T::N(tag, kids)
}
pub fn f(v: f32) -> T {
    T::F(if v == 0.0 { 0 } else { v.to_bits() })
}
pub fn opt(tag: &'static str, o: Option<T>) -> T {
    T::N(tag, o.into_iter().collect())
}

impl std::fmt::Display for T {
    fn fmt(&self, w: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            T::A(s) => write!(w, "`{}`", s),
            T::F(b) => write!(w, "#{}", f32::from_bits(*b)),
            T::U(u) => write!(w, "u{}", u),
            T::N(t, k) => {
                write!(w, "{}", t)?;
                if !k.is_empty() {
                    write!(w, "[")?;
                    for (i, x) in k.iter().enumerate() {
                        if i > 0 {
                            write!(w, " ")?;
                        }
                        write!(w, "{}", x)?;
                    }
                    write!(w, "]")?;
                }
                Ok(())
            }
        }
    }
}
