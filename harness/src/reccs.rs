//! Recording constraint system used as the independent oracle: it keeps every
//! allocation, constraint and namespace event as requested.
use bellman::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Prove,
    Setup,
}
pub type Terms<F> = Vec<(usize, F)>; // variable number: input i -> 2i, aux i -> 2i+1
#[derive(Clone, Debug, PartialEq)]
pub enum Ev<F> {
    Alloc(String),
    Input(String),
    Enforce(String, Terms<F>, Terms<F>, Terms<F>),
    Push(String),
    Pop,
}
#[derive(Clone)]
pub struct RecCS<F: PrimeField> {
    pub mode: Mode,
    pub inputs: Vec<Option<F>>,
    pub aux: Vec<Option<F>>,
    pub cons: Vec<(Terms<F>, Terms<F>, Terms<F>)>,
    pub con_names: Vec<String>,
    pub events: Vec<Ev<F>>,
    pub depth: i64,
    pub path: Vec<String>,
    pub log: bool,
    /// fail the k-th allocation from now with this kind of error
    pub fail_at: Option<usize>,
}
pub fn vn(v: Variable) -> usize {
    match v.get_unchecked() {
        Index::Input(i) => 2 * i,
        Index::Aux(i) => 2 * i + 1,
    }
}
pub fn var(n: usize) -> Variable {
    Variable::new_unchecked(if n % 2 == 0 { Index::Input(n / 2) } else { Index::Aux(n / 2) })
}
pub fn terms<F: PrimeField>(l: &LinearCombination<F>) -> Terms<F> {
    l.as_ref().iter().map(|(v, c)| (vn(*v), *c)).collect()
}
/// merged, sorted, zero-free form
pub fn canon<F: PrimeField>(t: &Terms<F>) -> Terms<F> {
    let mut m: std::collections::BTreeMap<usize, F> = Default::default();
    for (v, c) in t {
        *m.entry(*v).or_insert(F::ZERO) += *c;
    }
    m.into_iter().filter(|(_, c)| !c.is_zero_vartime()).collect()
}
pub fn evt<F: PrimeField>(t: &Terms<F>, val: &dyn Fn(usize) -> F) -> F {
    t.iter().fold(F::ZERO, |a, (v, c)| a + val(*v) * c)
}
impl<F: PrimeField> RecCS<F> {
    pub fn new(mode: Mode) -> Self {
        RecCS {
            mode,
            inputs: vec![Some(F::ONE)],
            aux: vec![],
            cons: vec![],
            con_names: vec![],
            events: vec![],
            depth: 0,
            path: vec![],
            log: false,
            fail_at: None,
        }
    }
    pub fn val(&self, n: usize) -> F {
        let o = if n % 2 == 0 { self.inputs[n / 2] } else { self.aux[n / 2] };
        o.expect("assigned")
    }
    pub fn get(&self, v: Variable) -> F {
        self.val(vn(v))
    }
    pub fn eval(&self, l: &LinearCombination<F>) -> F {
        evt(&terms(l), &|n| self.val(n))
    }
    pub fn unsatisfied(&self) -> Option<String> {
        for (k, (a, b, c)) in self.cons.iter().enumerate() {
            let f = |n: usize| self.val(n);
            if evt(a, &f) * evt(b, &f) != evt(c, &f) {
                return Some(self.con_names[k].clone());
            }
        }
        None
    }
    /// same variables and same constraints (as polynomials)
    pub fn same_shape(&self, o: &Self) -> bool {
        self.inputs.len() == o.inputs.len()
            && self.aux.len() == o.aux.len()
            && self.cons.len() == o.cons.len()
            && self.cons.iter().zip(&o.cons).all(|(x, y)| canon(&x.0) == canon(&y.0) && canon(&x.1) == canon(&y.1) && canon(&x.2) == canon(&y.2))
    }
    fn name(&self, a: String) -> String {
        let mut s = self.path.join("/");
        s.push('/');
        s.push_str(&a);
        s
    }
    fn failing(&mut self) -> bool {
        if let Some(k) = self.fail_at {
            if k == 0 {
                self.fail_at = None;
                return true;
            }
            self.fail_at = Some(k - 1);
        }
        false
    }
}
impl<F: PrimeField> ConstraintSystem<F> for RecCS<F> {
    type Root = Self;
    fn alloc<FN, A, AR>(&mut self, a: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if self.log {
            let n = a().into();
            self.events.push(Ev::Alloc(n));
        }
        if self.failing() {
            return Err(SynthesisError::DivisionByZero);
        }
        let v = if self.mode == Mode::Prove { Some(f()?) } else { None };
        self.aux.push(v);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<FN, A, AR>(&mut self, a: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if self.log {
            let n = a().into();
            self.events.push(Ev::Input(n));
        }
        if self.failing() {
            return Err(SynthesisError::UnexpectedIdentity);
        }
        let v = if self.mode == Mode::Prove { Some(f()?) } else { None };
        self.inputs.push(v);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, ann: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        let n: String = ann().into();
        let t = (
            terms(&a(LinearCombination::zero())),
            terms(&b(LinearCombination::zero())),
            terms(&c(LinearCombination::zero())),
        );
        if self.log {
            self.events.push(Ev::Enforce(n.clone(), t.0.clone(), t.1.clone(), t.2.clone()));
        }
        let n = self.name(n);
        self.con_names.push(n);
        self.cons.push(t);
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        let n: String = n().into();
        if self.log {
            self.events.push(Ev::Push(n.clone()));
        }
        self.path.push(n);
        self.depth += 1;
    }
    fn pop_namespace(&mut self) {
        if self.log {
            self.events.push(Ev::Pop);
        }
        self.path.pop();
        self.depth -= 1;
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}
