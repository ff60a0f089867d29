//! Exhaustive, index-addressable enumeration of the terms of a grammar by size.
use crate::spec::expr::E;

type Make = Box<dyn Fn(Vec<E>) -> E>;

pub struct Gram {
    leaves: Vec<E>,
    nodes: Vec<(usize, Make)>,
    /// count[n]: terms of exactly n nodes
    count: Vec<u64>,
}

impl Gram {
    pub fn new(leaves: Vec<E>) -> Gram {
        Gram { leaves, nodes: vec![], count: vec![] }
    }
    pub fn node(mut self, arity: usize, f: impl Fn(Vec<E>) -> E + 'static) -> Gram {
        self.nodes.push((arity, Box::new(f)));
        self
    }
    /// Ready to enumerate terms of up to `n` nodes.
    pub fn done(mut self, n: usize) -> Gram {
        self.count = vec![0, self.leaves.len() as u64];
        for s in 2..=n {
            let c = self.nodes.iter().map(|(a, _)| self.tuples(*a, s - 1)).sum();
            self.count.push(c);
        }
        self
    }
    pub fn total(&self) -> u64 {
        self.count.iter().sum()
    }
    /// Tuples of `k` terms of `s` nodes together.
    fn tuples(&self, k: usize, s: usize) -> u64 {
        match k {
            0 => (s == 0) as u64,
            1 => self.count.get(s).copied().unwrap_or(0),
            _ => (1..s).map(|a| self.count.get(a).copied().unwrap_or(0) * self.tuples(k - 1, s - a)).sum(),
        }
    }
    pub fn get(&self, mut i: u64) -> E {
        for s in 1..self.count.len() {
            if i < self.count[s] {
                return self.term(s, i);
            }
            i -= self.count[s];
        }
        panic!("no such term")
    }
    fn term(&self, s: usize, mut i: u64) -> E {
        if s == 1 {
            return self.leaves[i as usize].clone();
        }
        for (a, f) in &self.nodes {
            let n = self.tuples(*a, s - 1);
            if i < n {
                return f(self.tuple(*a, s - 1, i));
            }
            i -= n;
        }
        unreachable!()
    }
    fn tuple(&self, k: usize, s: usize, mut i: u64) -> Vec<E> {
        if k == 0 {
            return vec![];
        }
        if k == 1 {
            return vec![self.term(s, i)];
        }
        for a in 1..s {
            let rest = self.tuples(k - 1, s - a);
            let n = self.count[a] * rest;
            if i < n {
                let mut v = vec![self.term(a, i / rest)];
                v.extend(self.tuple(k - 1, s - a, i % rest));
                return v;
            }
            i -= n;
        }
        unreachable!()
    }
}
