F1 = "^std::function<void [(]m::SmallBitset[)]>::operator[(][)]"; F2 = "^std::function<void [(]m::SmallBitset, m::SmallBitset[)]>::operator[(][)]"
def opts(root):
    c = [("^m::AdjacencyMatrix::for_each_CSG_undirected[(]m::SmallBitset, m::SmallBitset,", "contract_csg"), ("^m::AdjacencyMatrix::neighbors", "contract_neighbors"), (F2, "contract_pair")]
    if root == "prove_all_sources": c.append((F1, "contract_single"))
    return dict(contracts=c)
PARTS = [dict(only="prove_each_pair_once", tu="G04.cpp", roots=("^prove_", "^contract_"), keep=(F1, F2, "^m::AdjacencyMatrix::for_each_CSG_undirected[(]m::SmallBitset, m::SmallBitset,", "^m::AdjacencyMatrix::neighbors"), opts=opts, native=False)]
REPLAY = "G04.cpp"
FUNCTIONS = ["AdjacencyMatrix::for_each_CSG_pair_undirected"]
TRUSTED = ["std::function invokes the callable it holds"]
ASSUMPTIONS = ["for_each_CSG_undirected is used through its contract (proved by G03), neighbors() through its own (proved by G01)", "the matrix is symmetric", "the outer enumeration is followed for A, B and one arbitrary other member; calls for different members are independent because the callbacks carry no state"]
