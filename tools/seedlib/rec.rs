//! A constraint system that records everything, so that an assignment can be changed afterwards and re-checked.
#![allow(dead_code)]
use halo::*;

pub struct Rec<F: Field> {
    pub v: Vec<[F; 3]>,
    pub gate: Vec<bool>,
    pub lcs: Vec<Vec<(Variable, F)>>,
    pub inputs: Vec<Variable>,
}

impl<F: Field> Rec<F> {
    pub fn new() -> Self {
        Rec { v: vec![[F::zero(); 3], [F::one(); 3]], gate: vec![false, false], lcs: vec![], inputs: vec![] }
    }
    pub fn get(&self, v: Variable) -> F {
        match v {
            Variable::A(i) => self.v[i][0],
            Variable::B(i) => self.v[i][1],
            Variable::C(i) => self.v[i][2],
        }
    }
    pub fn set(&mut self, v: Variable, x: F) {
        match v {
            Variable::A(i) => self.v[i][0] = x,
            Variable::B(i) => self.v[i][1] = x,
            Variable::C(i) => self.v[i][2] = x,
        }
    }
    pub fn eval(&self, lc: &LinearCombination<F>) -> F {
        lc.as_ref().iter().fold(F::zero(), |a, (v, c)| a + self.get(*v) * c.value())
    }
    pub fn sat(&self) -> bool {
        self.gate.iter().zip(self.v.iter()).all(|(g, v)| !g || v[0] * v[1] == v[2])
            && self.lcs.iter().all(|lc| lc.iter().fold(F::zero(), |a, (v, c)| a + self.get(*v) * *c) == F::zero())
    }
}

impl<FF: Field> ConstraintSystem<FF> for Rec<FF> {
    type Root = Self;
    const ONE: Variable = Variable::A(1);
    fn alloc<F, A, AR>(&mut self, _: A, value: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<FF, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let x = value()?;
        self.v.push([x, FF::zero(), FF::zero()]);
        self.gate.push(false);
        Ok(Variable::A(self.v.len() - 1))
    }
    fn alloc_input<F, A, AR>(&mut self, a: A, value: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<FF, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = self.alloc(a, value)?;
        self.inputs.push(v);
        Ok(v)
    }
    fn enforce_zero(&mut self, lc: LinearCombination<FF>) {
        self.lcs.push(lc.as_ref().iter().map(|(v, c)| (*v, c.value())).collect());
    }
    fn multiply<F, A, AR>(&mut self, _: A, values: F) -> Result<(Variable, Variable, Variable), SynthesisError>
    where
        F: FnOnce() -> Result<(FF, FF, FF), SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let (a, b, c) = values()?;
        self.v.push([a, b, c]);
        self.gate.push(true);
        let i = self.v.len() - 1;
        Ok((Variable::A(i), Variable::B(i), Variable::C(i)))
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self, _: Option<String>) {}
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
}
