// ---- assumed contracts: petgraph::stable_graph ------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NodeIndex(pub usize);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct EdgeIndex(pub usize);
impl NodeIndex { pub fn new(i: usize) -> (r: NodeIndex) ensures r == NodeIndex(i) { NodeIndex(i) } }
pub enum Direction { Incoming, Outgoing }
#[verifier::external_body]
#[verifier::accept_recursive_types(N)]
#[verifier::accept_recursive_types(E)]
pub struct StableGraph<N, E> { _k: std::marker::PhantomData<(N, E)> }
pub struct EdgeRef<'a, E> { pub e: EdgeIndex, pub w: &'a E }
impl<'a, E> EdgeRef<'a, E> {
    pub fn id(&self) -> (r: EdgeIndex) ensures r == self.e { self.e }
    pub fn weight(&self) -> (r: &E) ensures *r == *self.w { self.w }
}
pub struct EdgeT<E> { pub from: NodeIndex, pub to: NodeIndex, pub w: E }
pub open spec fn edges_of<E>(es: Map<EdgeIndex, EdgeT<E>>, n: NodeIndex, d: Direction, all: Seq<EdgeRef<E>>) -> bool {
    &&& forall|i: int| 0 <= i < all.len() ==> {
            let x = #[trigger] all[i];
            &&& es.contains_key(x.e)
            &&& *x.w == es[x.e].w
            &&& d is Incoming ==> es[x.e].to == n
            &&& d is Outgoing ==> es[x.e].from == n
        }
    &&& forall|e: EdgeIndex| #![trigger es.contains_key(e)]
            es.contains_key(e) && (if d is Incoming { es[e].to == n } else { es[e].from == n })
            ==> exists|i: int| 0 <= i < all.len() && (#[trigger] all[i]).e == e
}
impl<N, E> StableGraph<N, E> {
    pub uninterp spec fn nodes(&self) -> Map<NodeIndex, N>;
    pub uninterp spec fn edges(&self) -> Map<EdgeIndex, EdgeT<E>>;
    // a graph nothing is ever removed from hands out increasing indices
    // (the unit's side condition: no remove_node / remove_edge in the crate's resolver)
    #[verifier::external_body]
    pub fn add_node(&mut self, n: N) -> (r: NodeIndex)
        ensures
            !old(self).nodes().contains_key(r),
            forall|i: NodeIndex| #[trigger] old(self).nodes().contains_key(i) ==> i.0 < r.0,
            final(self).nodes() == old(self).nodes().insert(r, n),
            final(self).edges() == old(self).edges(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_edge(&mut self, a: NodeIndex, b: NodeIndex, w: E) -> (r: EdgeIndex)
        requires old(self).nodes().contains_key(a), old(self).nodes().contains_key(b),
        ensures
            !old(self).edges().contains_key(r),
            final(self).edges() == old(self).edges().insert(r, EdgeT { from: a, to: b, w }),
            final(self).nodes() == old(self).nodes(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn edges_directed(&self, n: NodeIndex, d: Direction) -> (r: EdgesIter<'_, E>)
        ensures
            r.pos() == 0,
            edges_of(self.edges(), n, d, r.all()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn edge_endpoints(&self, e: EdgeIndex) -> (r: Option<(NodeIndex, NodeIndex)>)
        ensures
            r is Some <==> self.edges().contains_key(e),
            r is Some ==> r->0 == (self.edges()[e].from, self.edges()[e].to),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find_edge(&self, a: NodeIndex, b: NodeIndex) -> (r: Option<EdgeIndex>)
        ensures
            r is Some ==> self.edges().contains_key(r->0) && self.edges()[r->0].from == a && self.edges()[r->0].to == b,
            r is None ==> forall|e: EdgeIndex| #[trigger] self.edges().contains_key(e) ==> !(self.edges()[e].from == a && self.edges()[e].to == b),
    { unimplemented!() }
    pub fn contains_edge(&self, a: NodeIndex, b: NodeIndex) -> (r: bool)
        ensures r <==> exists|e: EdgeIndex| #[trigger] self.edges().contains_key(e) && self.edges()[e].from == a && self.edges()[e].to == b,
    { self.find_edge(a, b).is_some() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(E)]
pub struct EdgesIter<'a, E> { _p: std::marker::PhantomData<&'a E> }
impl<'a, E> EdgesIter<'a, E> {
    pub uninterp spec fn all(&self) -> Seq<EdgeRef<'a, E>>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<EdgeRef<'a, E>>)
        ensures
            final(self).all() == old(self).all(),
            r is Some <==> old(self).pos() < old(self).all().len(),
            r is Some ==> r->0 == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
            r is None ==> final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
impl<N, E> Index<NodeIndex> for StableGraph<N, E> {
    type Output = N;
    #[verifier::external_body]
    fn index(&self, i: NodeIndex) -> (r: &N) ensures *r == self.nodes()[i] { unimplemented!() }
}
impl<N, E> IndexMut<NodeIndex> for StableGraph<N, E> {
    #[verifier::external_body]
    fn index_mut(&mut self, i: NodeIndex) -> (r: &mut N)
        ensures *r == old(self).nodes()[i], final(self).nodes() == old(self).nodes().insert(i, *final(r)), final(self).edges() == old(self).edges()
    { unimplemented!() }
}
impl<N, E> vstd::std_specs::core::IndexSpecImpl<NodeIndex> for StableGraph<N, E> {
    open spec fn index_req(&self, i: &NodeIndex) -> bool { self.nodes().contains_key(*i) }
}
