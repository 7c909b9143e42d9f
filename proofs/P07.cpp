// Hash joins: every pair of rows with equal keys, none of them NULL, is joined and passed on exactly once.
#define RefCountingHashMap RefCountingHashMap_                // the hash table, by contract (proved in H01)
#include "util/container/RefCountingHashMap.hpp"
#undef RefCountingHashMap
namespace m {
template<typename K, typename V, typename H, typename E> struct RefCountingHashMap {
    uint64_t size_; RefCountingHashMap(std::size_t n, const H&, const E&); std::size_t size() const; void resize(std::size_t); void insert_with_duplicates(K, V); template<typename F> void for_all(const K &key, F f);
};
}
#include "catalog/Type.cpp"
#include "pipe.hpp"
extern "C" {
uint64_t __v_uf_keymask(uint64_t row); uint64_t __v_uf_matches(uint64_t row);       // the NULL mask of the key of a row; how many rows were inserted with that key
uint64_t g_n, g_row, g_hits, g_fresh, g_part, g_slot, g_done, g_copies, g_pending, g_phase, g_size, g_evals, g_resized; Tuple *g_outs; StackMachine *g_load; void *g_entry; Value *g_keycopy, *g_rowcopy; JoinOperator *g_op;
}
#define TABLE(R, N) template<typename K, typename V, typename H, typename E> R RefCountingHashMap<K, V, H, E>::N
namespace m {
TABLE(, RefCountingHashMap)(std::size_t n, const H&, const E&) : size_(0) { __v_assert(n, "a hash table has buckets"); }
TABLE(std::size_t, size)() const { return g_phase ? g_size : size_; }
TABLE(void, resize)(std::size_t) { ++g_resized; __v_assert(size_ == 0 and g_evals == 0, "the table is resized before it is built"); }
TABLE(void, insert_with_duplicates)(K key, V value) { __v_assert(key.values_ == g_keycopy and value.values_ == g_rowcopy, "key and row in their places"); __v_assert(g_pending == 3, "a copy of the key is inserted with a copy of the row"); g_pending = 0; if (g_row == g_k) ++g_hits; }
template<typename K, typename V, typename H, typename E> template<typename F> void RefCountingHashMap<K, V, H, E>::for_all(const K &key, F f) {
    __v_assert(&key == &static_cast<SimpleHashJoinData*>(g_op->data())->key and g_pending == 1, "the key just computed is looked up"); g_pending = 0; if (g_row == g_k) ++g_hits; uint64_t n = __v_uf_matches(g_row);
    for (uint64_t j = 0; j != n; ++j) { g_part = 0; f(*(std::pair<const K, V>*) g_entry); __v_assert(g_part == 3, "a row is made of both rows"); }
    g_part = 3;
}
}
static SimpleHashJoinData * data() { return static_cast<SimpleHashJoinData*>(g_op->data()); }
extern "C" {
Catalog & stub_catalog() { return *(Catalog*) __v_heap(8, 0); }
void stub_emit_load(JoinData *d, const Schema*) { auto &V = d->load_attrs._M_impl; __v_assert(V._M_finish == g_load + (data()->is_probe_phase ? 1 : 0), "loading is compiled once per input"); ++V._M_finish; }
void stub_load_key(SimpleHashJoinData *d, const Schema*) { __v_assert(d == data(), "the key is compiled"); ++g_evals; }
void stub_run(const StackMachine *sm, Tuple **args) {
    auto d = data();
    if (sm == &d->build_key or sm == &d->probe_key) {
        __v_assert((sm == &d->probe_key) == d->is_probe_phase, "the key of this input is computed"); __v_assert(g_evals == 1, "its program is compiled"); uint64_t r = row(args[1]); __v_assert(r < 64 and uint64_t(args[1]) == g_base + r * TS and args[0] == &d->key, "from a row of the block");
        d->key.null_mask_ = SmallBitset(__v_uf_keymask(r)); g_row = r; g_pending = 1; return;
    }
    bool probe = sm == g_load + 1; __v_assert(probe or sm == g_load, "attributes are loaded"); uint64_t s = __v_index(args[0], g_outs, TS); __v_assert(s < 64 and uint64_t(args[0]) == uint64_t(g_outs) + s * TS, "to a tuple of the block"); __v_assert(not ((g_fresh >> s) & 1), "no row is overwritten before it is passed on");
    if (probe) __v_assert(uint64_t(args[1]) == g_base + g_row * TS, "the row probed is joined"); else __v_assert(uint64_t(args[1]) == uint64_t(g_entry) + TS, "the row found is joined");
    if (g_part == 0) g_slot = s; else __v_assert(g_slot == s and g_part == (probe ? 1 : 2), "both rows go to the same tuple"); g_part |= probe ? 2 : 1; if (g_part == 3) g_fresh |= 1UL << s;
}
void stub_clone(Tuple *ret, const Tuple *t, const Schema *S) {
    if (t == &data()->key) { __v_assert((g_pending & 1) and S == &data()->key_schema, "the key is kept"); ret->values_ = g_keycopy; g_copies |= 1; }
    else { __v_assert(uint64_t(t) == g_base + g_row * TS and (g_pending & 1), "the row is kept"); ret->values_ = g_rowcopy; g_copies |= 2; }
    if (g_copies == 3) { g_pending = 3; g_copies = 0; }
}
void stub_no_tuple(Tuple*) { }
}
struct JoinSink : Consumer {
    void accept(OperatorVisitor&) override { }
    void accept(ConstOperatorVisitor &v) const override { auto &p = static_cast<Pipeline&>(v); __v_assert(&p == &static_cast<JoinData*>(g_op->data())->pipeline, "joined rows are passed on"); __v_assert(p.block_.mask_ == g_fresh and (g_part == 0 or g_part == 3), "the rows joined are passed on, and nothing else"); g_fresh = 0; p.block_.mask_ = __v_nondet_u64(); }
};
struct JoinChild : Producer { void accept(OperatorVisitor&) override { } void accept(ConstOperatorVisitor&) const override { } };
static JoinOperator * join(JoinSink &sink, Producer *a, Producer *b) {
    alignas(JoinOperator) static char buf[sizeof(JoinOperator)]; auto op = new (buf) JoinOperator(cnf::CNF()); g_op = op; op->parent(&sink); static Producer *cs[2]; cs[0] = a; cs[1] = b; auto &C = op->children_._M_impl; C._M_start = cs; C._M_finish = C._M_end_of_storage = cs + 2;
    g_hits = g_fresh = g_pending = g_copies = g_phase = g_evals = g_row = g_slot = g_resized = 0; g_part = 3; g_entry = __v_heap(2 * TS, 0); g_keycopy = (Value*) __v_heap(8, 8); g_rowcopy = (Value*) __v_heap(8, 8); g_load = (StackMachine*) __v_heap(2 * sizeof(StackMachine), 0); return op;
}
static void prepare(JoinOperator *op, bool probe) {
    auto d = new SimpleHashJoinData(*op); op->data(d); g_outs = d->pipeline.block_.data_.data(); d->pipeline.block_.mask_ = IN64("oldmask"); d->is_probe_phase = probe; g_n = IN64("n"); __v_assume(g_n and g_n < 64); __v_name(g_n, "n");
    auto &V = d->key_schema.entries_._M_impl; V._M_start = (Schema::entry_type*) __v_heap(g_n * sizeof(Schema::entry_type), 0); V._M_finish = V._M_end_of_storage = V._M_start + g_n; d->key.null_mask_ = SmallBitset(IN64("oldkey")); NUM_VALUES(d->key, g_n);
    bool again = __v_nondet_bool(); auto &L = d->load_attrs._M_impl; L._M_start = g_load; L._M_end_of_storage = g_load + 2; L._M_finish = g_load + (probe ? 1 : 0) + (again ? 1 : 0); g_evals = again;
}
ROOT prove_build() {
    auto p = pipeline(); JoinSink sink; JoinChild c; auto op = join(sink, &c, &c); prepare(op, false); uint64_t m = p->block_.mask_;
    p->Pipeline::operator()((const JoinOperator&) *op);
    bool null = (__v_uf_keymask(g_k) & ((1UL << g_n) - 1)) != 0; __v_assert(g_hits == ((m >> g_k) & 1 and not null), "every row is inserted once with its key, unless that is NULL"); __v_assert(data()->load_attrs.size() == 1 and g_evals == 1, "loading is compiled"); __v_cover("end");
}
ROOT prove_probe() {
    auto p = pipeline(); JoinSink sink; JoinChild c; auto op = join(sink, &c, &c); prepare(op, true); uint64_t m = p->block_.mask_;
    p->Pipeline::operator()((const JoinOperator&) *op);
    bool null = (__v_uf_keymask(g_k) & ((1UL << g_n) - 1)) != 0; __v_assert(g_hits == ((m >> g_k) & 1 and not null), "every row is looked up once with its key, unless that is NULL"); __v_assert(g_fresh == 0, "all rows joined are passed on"); __v_assert(data()->load_attrs.size() == 2 and g_evals == 1, "loading is compiled"); __v_cover("end");
}
/*----- phases ----------------------------------------------------------------------------------------------------------*/
extern "C" {
bool g_hash; uint64_t g_kept;
bool stub_supported(const cnf::CNF *p) { __v_assert(p == &g_op->predicate(), "the predicate of the join decides"); return g_hash; }
}
template<uint64_t I> struct PhaseChild : Producer { void accept(OperatorVisitor&) override { } void accept(ConstOperatorVisitor&) const override {
    __v_assert(g_phase == I, "the left input is produced before the right one, once"); if (I) __v_assert(g_kept, "the right input is not needed if the left one is empty");
    auto d = g_op->data(); __v_assert(d, "the state of the join is made");
    if (g_hash) { auto s = static_cast<SimpleHashJoinData*>(d); __v_assert(s->is_probe_phase == (I == 1), "the left input builds, the right one probes"); g_size = g_kept = __v_nondet_bool() ? IN64("built") : 0; }
    else { auto l = static_cast<NestedLoopsJoinData*>(d); __v_assert(l->active_child == I, "the input now produced"); if (I == 0) { g_kept = __v_nondet_bool(); auto &V = l->buffers[0]._M_impl; V._M_start = V._M_finish = V._M_end_of_storage = (Tuple*) __v_heap(TS, 0); V._M_finish += g_kept; } }
    g_phase = I + 1;
} };
ROOT prove_phases() {
    JoinSink sink; PhaseChild<0> a; PhaseChild<1> b; auto op = join(sink, &a, &b); g_hash = IN64("hash") & 1; g_kept = g_phase = g_size = 0; auto I = (Interpreter*) __v_heap(sizeof(Interpreter), 0); new (I) Interpreter;
    I->Interpreter::operator()((const JoinOperator&) *op);
    __v_assert(g_phase == 2 or (g_phase == 1 and not g_kept), "both inputs are produced, unless the left one is empty"); __v_cover("end");
}
/*----- which predicates, and what is compiled for them -----------------------------------------------------------------*/
extern "C" {
const ast::Expr * __v_expr(uint64_t); void * __v_records(uint64_t n, uint64_t size, const char *kind); void __v_layout(uint64_t off, const char *field); uint64_t __v_uf_exprtype(uint64_t);
bool __v_uf_left(uint64_t clause), __v_uf_negated(uint64_t clause), __v_uf_designator(uint64_t expr); uint64_t __v_uf_clsize(uint64_t clause), __v_uf_tok(uint64_t clause), __v_uf_at(uint64_t attr); bool __v_uf_found(uint64_t attr);  // whether the first operand belongs to the left input
uint64_t g_keys, g_pairs, g_emitted, g_pend, g_stored, g_attr; const Schema *g_left, *g_right, *g_in; cnf::Predicate *g_preds; Schema::entry_type *g_outschema; SimpleHashJoinData *g_data; bool g_probe;
static constexpr uint64_t BINARY = 1UL << 22, PAIRS = 1UL << 21;   // clause i: expression BINARY + i with operands 2 i and 2 i + 1; the i-th pair of operands: PAIRS + 2 i of the left input, and PAIRS + 2 i + 1 of the right one
const ast::Expr * stub_expr(const cnf::Predicate *p) { return __v_expr(BINARY + __v_index(p, g_preds, 8)); }
bool stub_negative(const cnf::Predicate *p) { return __v_uf_negated(__v_index(p, g_preds, 8)); }
static uint64_t side(uint64_t i, bool left) { return 2 * i + (__v_uf_left(i) != left); }
void stub_required(Schema *ret, const ast::Expr *e) { auto &V = ret->entries_._M_impl; V._M_start = V._M_finish = (Schema::entry_type*) e; }
void stub_meet(Schema *ret, const Schema *a, const Schema *b) {
    uint64_t e = __v_index(a->entries_._M_impl._M_start, __v_expr(0), 256); __v_assert(b == g_left or b == g_right, "operands are looked for in the inputs"); bool in = ((e & 1) == 0) == (__v_uf_left(e >> 1) == (b == g_left));
    auto &V = ret->entries_._M_impl; V._M_start = (Schema::entry_type*) __v_heap(sizeof(Schema::entry_type), 0); V._M_finish = V._M_start + in;
}
void stub_pool_string(void *ret) { auto cell = (void**) __v_heap(64, 0); ((uint64_t*) cell)[1] = 1; ((void**) ret)[0] = cell; ((uint64_t*) ret)[1] = (uint64_t) cell; }
void stub_add_key(Schema *S, void *id, const Type *ty) { __v_assert(S == &g_data->key_schema, "the schema of the key"); __v_assert(g_keys < g_n and ty == __v_type(__v_uf_exprtype(2 * g_keys)), "an attribute of the key for every comparison"); ++g_keys; }
std::pair<const ast::Expr*, const ast::Expr*> *g_vec;
void stub_pair(std::vector<std::pair<const ast::Expr*, const ast::Expr*>> *v, const ast::Expr **l, const ast::Expr **r) { __v_assert(g_pairs < g_n and *l == __v_expr(side(g_pairs, true)) and *r == __v_expr(side(g_pairs, false)), "operands are told apart by the input they belong to"); __v_assert(v == &g_data->exprs, "kept in order"); ++g_pairs; v->_M_impl._M_start = g_vec; v->_M_impl._M_finish = g_vec + g_pairs; }
void stub_emit_expr(StackMachine *sm, const ast::Expr *e, const Schema *S, uint64_t tuple) { __v_assert(sm == (g_probe ? &g_data->probe_key : &g_data->build_key) and S == g_in and tuple == 1, "computed from a row of the input"); __v_assert(not g_pend and e == __v_expr(PAIRS + 2 * g_emitted + g_probe), "the operands of this input, in order"); g_pend = 1; }
void stub_emit_st(StackMachine *sm, uint64_t tuple, uint64_t idx, const Type *ty) {
    if (g_preds) { __v_assert(sm == (g_probe ? &g_data->probe_key : &g_data->build_key) and g_pend == 1 and tuple == 0 and idx == g_emitted and ty == __v_type(__v_uf_exprtype(PAIRS + 2 * g_emitted + g_probe)), "and stored to the key"); g_pend = 0; ++g_emitted; }
    else { __v_assert(g_pend == 1 and tuple == 0 and idx == __v_uf_at(g_attr) and ty == __v_type(g_attr + 64), "an attribute is stored where the joined row holds it"); g_pend = 0; if (g_attr == g_k) ++g_stored; }
}
void stub_emit_ld(StackMachine *sm, uint8_t tuple, uint8_t idx) { __v_assert(tuple == 1 and not g_pend, "an attribute of the row is loaded"); g_attr = idx; g_pend = 1; }
const Schema::entry_type * stub_find(const Schema *S, const void *id) { uint64_t i = __v_index(id, g_in->entries_._M_impl._M_start, sizeof(Schema::entry_type)); __v_assert(S == &g_data->pipeline.schema(), "attributes are looked for in the joined row"); if (__v_uf_found(i)) __v_assume(__v_uf_at(i) < uint64_t(S->entries_._M_impl._M_finish - g_outschema)); return __v_uf_found(i) ? g_outschema + __v_uf_at(i) : S->entries_._M_impl._M_finish; }
}
static void layout() { __v_layout(offsetof(ast::Expr, type_), "type"); __v_layout(offsetof(ast::Expr, tok) + offsetof(ast::Token, type), "tok"); __v_layout(offsetof(ast::BinaryExpr, lhs), "lhs"); __v_layout(offsetof(ast::BinaryExpr, rhs), "rhs"); }
static void predicate(JoinOperator *op) {
    layout(); g_n = IN64("n"); __v_assume(g_n < 1UL << 16); __v_name(g_n, "n"); g_preds = (cnf::Predicate*) __v_heap(8UL << 30, 0); __v_role(g_preds, "preds"); __v_name(BINARY, "binary"); __v_name(PAIRS, "pairs"); g_k = IN64("k"); __v_assume(g_k < g_n); __v_name(g_k, "k");
    auto &V = const_cast<cnf::CNF&>(op->predicate())._M_impl; V._M_start = (cnf::Clause*) __v_records(g_n, sizeof(cnf::Clause), "clauses"); V._M_finish = V._M_end_of_storage = V._M_start + g_n; g_keys = g_pairs = g_emitted = g_pend = 0; __v_name(0, "single"); __v_name(TK_EQUAL, "eq"); __v_name(TK_BANG_EQUAL, "ne");
}
ROOT prove_supported() {
    JoinSink sink; JoinChild c; auto op = join(sink, &c, &c); predicate(op);
    if (supports_simple_hash_join(op->predicate())) {
        __v_assert(__v_uf_clsize(g_k) == 1 and __v_uf_tok(g_k) == (__v_uf_negated(g_k) ? TK_BANG_EQUAL : TK_EQUAL), "every clause is one comparison for equality"); __v_assert(__v_uf_designator(2 * g_k) and __v_uf_designator(2 * g_k + 1), "of attributes"); __v_assert(__v_uf_exprtype(2 * g_k) == __v_uf_exprtype(2 * g_k + 1), "of the same type");
        __v_cover("supported");
    }
    __v_cover("end");
}
ROOT prove_decompose() {
    JoinSink sink; JoinChild a, b; auto op = join(sink, &a, &b); predicate(op); __v_name(1, "single"); g_left = &a.schema(); g_right = &b.schema();
    auto d = (SimpleHashJoinData*) __v_heap(sizeof(SimpleHashJoinData), 0); g_data = d; g_vec = (std::pair<const ast::Expr*, const ast::Expr*>*) __v_records(g_n, 16, "sides"); __v_role(g_vec, "vec"); __v_role(d, "data"); __v_name(offsetof(SimpleHashJoinData, exprs), "exprs"); new (d) SimpleHashJoinData(*op); __v_assert(g_keys == g_n and g_pairs == g_n, "all comparisons are taken"); __v_assert(not d->is_probe_phase, "the left input first"); __v_cover("end");
}
static SimpleHashJoinData * compiled() {
    g_preds = (cnf::Predicate*) __v_heap(8, 0); auto d = (SimpleHashJoinData*) __v_heap(sizeof(SimpleHashJoinData), 0); g_data = d; layout(); g_n = IN64("n"); __v_assume(g_n < 1UL << 16); __v_name(g_n, "n"); __v_name(PAIRS, "pairs"); g_emitted = g_pend = 0; g_in = (Schema*) __v_heap(sizeof(Schema), 0);
    auto &V = d->exprs._M_impl; V._M_start = (std::pair<const ast::Expr*, const ast::Expr*>*) __v_records(g_n, 16, "pairs"); V._M_finish = V._M_start + g_n; return d;
}
ROOT prove_build_key() { auto d = compiled(); g_probe = false; d->load_build_key(*g_in); __v_assert(g_emitted == g_n and not g_pend, "the whole key is computed"); __v_cover("end"); }
ROOT prove_probe_key() { auto d = compiled(); g_probe = true; d->load_probe_key(*g_in); __v_assert(g_emitted == g_n and not g_pend, "the whole key is computed"); __v_cover("end"); }
ROOT prove_load_attrs() {
    auto d = compiled(); g_preds = nullptr; auto S = const_cast<Schema*>(g_in); __v_assume(g_n <= 64); auto &V = S->entries_._M_impl; V._M_start = (Schema::entry_type*) __v_records(g_n, sizeof(Schema::entry_type), "attributes"); V._M_finish = V._M_start + g_n; g_k = IN64("k"); __v_assume(g_k < g_n); __v_name(g_k, "k"); g_stored = g_attr = 0;
    uint64_t m = IN64("m"); __v_assume(m <= 64); auto &O = const_cast<Schema&>(d->pipeline.schema()).entries_._M_impl; O._M_start = g_outschema = (Schema::entry_type*) __v_heap(m * sizeof(Schema::entry_type), 0); O._M_finish = O._M_start + m; __v_name(m, "m"); 
    auto &L = d->load_attrs._M_impl; L._M_start = L._M_finish = (StackMachine*) __v_heap(2 * sizeof(StackMachine), 0); L._M_end_of_storage = L._M_start + 2;
    d->emit_load_attrs(*S); __v_assert(g_stored == __v_uf_found(g_k) and not g_pend, "every attribute of the joined row that this input has is copied, once"); __v_assert(d->load_attrs.size() == 1, "one program"); __v_cover("end");
}
