//! Structural oracles over the public view of an index.
use crate::ensure;
use crate::util::*;
use granne::{BuildConfig, Index};
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub nn: usize,
    pub ms: usize,
    pub mult: f32,
    pub reinsert: bool,
    pub expected: Option<usize>,
    pub progress: bool,
}

impl Cfg {
    pub fn random(rng: &mut Rng) -> Cfg {
        Cfg {
            nn: *rng.pick(&[1, 2, 3, 4, 5, 8, 10, 16, 20, 30, 30, 45]),
            ms: *rng.pick(&[1, 2, 3, 5, 10, 20, 50, 100, 200]),
            mult: *rng.pick(&[1.5, 2.0, 3.0, 4.5, 5.0, 10.0, 15.0, 15.0, 40.0]),
            reinsert: rng.chance(0.6),
            expected: None,
            progress: false,
        }
    }
    pub fn build(&self) -> BuildConfig {
        let mut c = BuildConfig::default()
            .num_neighbors(self.nn)
            .max_search(self.ms)
            .layer_multiplier(self.mult)
            .reinsert_elements(self.reinsert)
            .show_progress(self.progress);
        if let Some(e) = self.expected {
            c = c.expected_num_elements(e);
        }
        c
    }
}

/// the whole graph as seen through the public interface
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct View {
    pub layers: Vec<Vec<Vec<usize>>>,
}

pub fn view(ix: &dyn IndexDyn) -> View {
    let layers = (0..ix.num_layers_())
        .map(|l| (0..ix.layer_len_(l)).map(|i| ix.neighbors_(i, l)).collect())
        .collect();
    View { layers }
}

/// same, neighbor lists sorted: what loading from disk must preserve
pub fn set_view(ix: &dyn IndexDyn) -> View {
    let mut v = view(ix);
    for l in &mut v.layers {
        for n in l {
            n.sort_unstable();
        }
    }
    v
}

pub trait IndexDyn {
    fn len_(&self) -> usize;
    fn num_layers_(&self) -> usize;
    fn layer_len_(&self, l: usize) -> usize;
    fn neighbors_(&self, i: usize, l: usize) -> Vec<usize>;
}
impl<T: Index> IndexDyn for T {
    fn len_(&self) -> usize {
        self.len()
    }
    fn num_layers_(&self) -> usize {
        self.num_layers()
    }
    fn layer_len_(&self, l: usize) -> usize {
        self.layer_len(l)
    }
    fn neighbors_(&self, i: usize, l: usize) -> Vec<usize> {
        self.get_neighbors(i, l)
    }
}

pub struct Facts {
    pub edges: usize,
    pub full: usize,
    pub nodes: usize,
}

/// nested layers, last one complete, neighbor lists in range, duplicate free, no self links, bounded
pub fn well_formed(ix: &dyn IndexDyn, expect_len: usize, max_neighbors: usize) -> Result<Facts, String> {
    let nl = ix.num_layers_();
    ensure!(ix.len_() == expect_len, "index covers {} elements, {} were asked for", ix.len_(), expect_len);
    if expect_len > 0 {
        ensure!(nl > 0, "no layers for {} elements", expect_len);
    }
    let mut prev = 0;
    let mut f = Facts { edges: 0, full: 0, nodes: 0 };
    for l in 0..nl {
        let n = ix.layer_len_(l);
        ensure!(n >= prev, "layer {} has {} nodes, the one above {}", l, n, prev);
        ensure!(n > 0, "layer {} is empty", l);
        prev = n;
        for i in 0..n {
            let nb = ix.neighbors_(i, l);
            ensure!(nb.len() <= max_neighbors, "node {} of layer {} has {} neighbors, the maximum is {}", i, l, nb.len(), max_neighbors);
            let mut seen = HashSet::new();
            for &j in &nb {
                ensure!(j < n, "node {} of layer {} ({} nodes) links to {}: {:?}", i, l, n, j, nb);
                ensure!(j != i, "node {} of layer {} links to itself: {:?}", i, l, nb);
                ensure!(seen.insert(j), "node {} of layer {} links twice to {}: {:?}", i, l, j, nb);
            }
            f.edges += nb.len();
            f.full += (nb.len() == max_neighbors) as usize;
            f.nodes += 1;
        }
    }
    ensure!(prev == expect_len || nl == 0, "last layer has {} of {} elements", prev, expect_len);
    Ok(f)
}

pub fn layer_law(ix: &dyn IndexDyn, mult: f32) -> Res {
    let nl = ix.num_layers_();
    if nl == 0 {
        return Ok(());
    }
    let m = mult as f64;
    let first = ix.layer_len_(0);
    ensure!(first as f64 <= m.ceil() + 1.0, "top layer has {} nodes, layer multiplier {}", first, mult);
    for l in 1..nl {
        let (a, b) = (ix.layer_len_(l - 1), ix.layer_len_(l));
        ensure!(b as f64 <= (m * a as f64).ceil() + 1.0, "layer {} has {} nodes after {} with multiplier {}", l, b, a, mult);
    }
    Ok(())
}

/// nodes reachable from `from` in one layer
pub fn reach(layer: &[Vec<usize>], from: usize) -> Vec<bool> {
    let mut seen = vec![false; layer.len()];
    if from >= layer.len() {
        return seen;
    }
    let mut st = vec![from];
    seen[from] = true;
    while let Some(i) = st.pop() {
        for &j in &layer[i] {
            if !seen[j] {
                seen[j] = true;
                st.push(j);
            }
        }
    }
    seen
}

pub fn reach_ids(layer: &[Vec<usize>], from: usize) -> Vec<usize> {
    reach(layer, from).iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect()
}

/// every node reaches every other
pub fn strongly_connected(layer: &[Vec<usize>]) -> bool {
    if layer.is_empty() {
        return true;
    }
    let mut rev = vec![Vec::new(); layer.len()];
    for (i, nb) in layer.iter().enumerate() {
        for &j in nb {
            rev[j].push(i);
        }
    }
    reach(layer, 0).iter().all(|x| *x) && reach(&rev, 0).iter().all(|x| *x)
}
