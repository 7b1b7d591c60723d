//! Abstract syntax of RFC 9535 queries, for the reference model.

#[derive(Clone, Debug, PartialEq)]
pub struct Query {
    /// starts with `$` (or else with `@`)
    pub abs: bool,
    pub segs: Vec<Seg>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Seg {
    pub desc: bool,
    pub sels: Vec<Sel>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    Name(String),
    Wild,
    Index(i64),
    Slice(Option<i64>, Option<i64>, Option<i64>),
    Filter(Expr),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expr {
    Or(Vec<Expr>),
    And(Vec<Expr>),
    Not(Box<Expr>),
    Cmp(Operand, Op, Operand),
    Exist(Query),
    Func(Call),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Operand {
    Lit(Lit),
    Query(Query),
    Func(Call),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Lit {
    Null,
    Bool(bool),
    Str(String),
    Num(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub name: String,
    pub args: Vec<Arg>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Lit(Lit),
    Query(Query),
    Func(Call),
    Logical(Expr),
}

impl Query {
    pub fn is_singular(&self) -> bool {
        self.segs.iter().all(|s| {
            !s.desc && s.sels.len() == 1 && matches!(s.sels[0], Sel::Name(_) | Sel::Index(_))
        })
    }
}
