//! A max-priority queue with priority updates (linear scans: the graphs here are tiny).
use std::marker::PhantomData;

#[derive(Clone, Debug)]
pub struct PriorityQueue<I, P, H = ()> {
    items: Vec<(I, P)>,
    _h: PhantomData<fn() -> H>,
}
impl<I, P, H> Default for PriorityQueue<I, P, H> {
    fn default() -> Self {
        Self { items: Vec::new(), _h: PhantomData }
    }
}
impl<I: Eq, P: Ord, H> PriorityQueue<I, P, H> {
    pub fn clear(&mut self) {
        self.items.clear()
    }
    pub fn iter(&self) -> impl Iterator<Item = (&I, &P)> {
        self.items.iter().map(|(i, p)| (i, p))
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    fn max(&self) -> Option<usize> {
        let mut best: Option<usize> = None;
        for i in 0..self.items.len() {
            if best.is_none_or(|b| self.items[i].1 > self.items[b].1) {
                best = Some(i)
            }
        }
        best
    }
    pub fn push(&mut self, item: I, priority: P) -> Option<P> {
        if let Some(e) = self.items.iter_mut().find(|e| e.0 == item) {
            return Some(std::mem::replace(&mut e.1, priority));
        }
        self.items.push((item, priority));
        None
    }
    pub fn peek(&self) -> Option<(&I, &P)> {
        self.max().map(|i| (&self.items[i].0, &self.items[i].1))
    }
    pub fn pop(&mut self) -> Option<(I, P)> {
        self.max().map(|i| self.items.remove(i))
    }
    pub fn change_priority_by<F: FnOnce(&mut P)>(&mut self, item: &I, f: F) -> bool {
        match self.items.iter_mut().find(|e| e.0 == *item) {
            Some(e) => {
                f(&mut e.1);
                true
            }
            None => false,
        }
    }
}
