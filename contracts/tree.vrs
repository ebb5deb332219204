// ---- the tree of packages, as nodes with parents and children by name ------------------------------
pub type Nodes = Map<NodeIndex, Node>;
/// the tree is a tree: parents exist and precede children, parent and child links agree one to one
pub open spec fn wf_tree(ns: Nodes) -> bool {
    &&& forall|i: NodeIndex| #[trigger] ns.contains_key(i) ==> ns[i].idx == i
    &&& forall|i: NodeIndex| #![trigger ns[i].parent] ns.contains_key(i) && ns[i].parent is Some ==> {
            let p = ns[i].parent->0;
            p.0 < i.0 && ns.contains_key(p) && ns[p].children.m().contains_key(ns[i].name.key()) && ns[p].children.m()[ns[i].name.key()] == i
        }
    &&& forall|i: NodeIndex, k: Seq<char>| #![trigger ns[i].children.m().contains_key(k)]
            ns.contains_key(i) && ns[i].children.m().contains_key(k) ==> {
            let c = ns[i].children.m()[k];
            ns.contains_key(c) && ns[c].parent == Some(i) && ns[c].name.key() == k
        }
}
/// the names of the packages it sits under and its own, outermost first
pub open spec fn path_of(ns: Nodes, root: NodeIndex, i: NodeIndex) -> Seq<UniCase<String>>
    decreases i.0
{
    if i == root { Seq::empty() }
    else {
        (match ns[i].parent { Some(p) => if p.0 < i.0 { path_of(ns, root, p) } else { Seq::empty() }, None => Seq::empty() }) + seq![ns[i].name]
    }
}
/// every package sits under the root
#[verifier::opaque]
pub open spec fn rooted(g: Graph) -> bool { forall|i: NodeIndex| #![trigger g.inner.nodes()[i].parent] g.inner.nodes().contains_key(i) && i != g.root ==> g.inner.nodes()[i].parent is Some }
