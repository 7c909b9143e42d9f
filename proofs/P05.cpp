// Grouping: every row goes to the group of its key, a group holds its key and what folding the aggregates over its rows
// yields, and every group is passed on exactly once.
#include "agg.hpp"
using Group = std::pair<const Tuple, std::vector<uint64_t>>;
using GroupNode = std::__detail::_Hash_node<Group, true>;
extern "C" {
HashBasedGroupingData *g_data; GroupNode *g_node, *g_other; uint64_t g_base_, g_q, g_set, g_exists, g_row, g_computed;
uint64_t g_keybuf[64], g_otherbuf[64], g_othernums[64], g_newnums[64];
bool __v_uf_keynull(uint64_t row, uint64_t attr); uint64_t __v_uf_key(uint64_t row, uint64_t attr);            // the key of a row
uint64_t g_cur;                                                                                // the current row belongs to the group followed
}
static uint64_t bits(uint64_t n) { return n >= 64 ? ~0UL : (1UL << n) - 1; }
static bool minmax(uint64_t e) { return __v_uf_fnid(e) == Function::FN_MIN or __v_uf_fnid(e) == Function::FN_MAX; }
/** The aggregate followed, in the group followed. */
static AState now() { AState s = current(g_a, g_base_); return not g_exists or (s.null and not minmax(g_a)) ? start(g_a) : s; }
extern "C" {
void stub_run(const StackMachine *sm, Tuple **args) {
    uint64_t r = row(args[1]); __v_assert(r < 64 and uint64_t(args[1]) == g_base + r * TS, "keys and arguments are computed on a tuple of the block");
    if (sm == &g_data->compute_key) {
        Tuple &k = *args[0]; __v_assert(k.values_ == (Value*) g_keybuf, "the tuple for the key has place for a key");
        uint64_t m = __v_nondet_u64(); __v_assume(((m >> g_q) & 1) == __v_uf_keynull(r, g_q)); k.null_mask_ = SmallBitset((k.null_mask_.bits_ & ~bits(g_base_)) | (m & bits(g_base_)));
        g_keybuf[g_q] = __v_uf_key(r, g_q); g_row = r; g_computed = 1; g_cur = (g_set >> r) & 1; return;
    }
    __v_assert(g_computed == 2 and g_row == r, "a tuple is aggregated in the group that was found for it"); 
    uint64_t e = __v_index(sm, g_programs, sizeof(StackMachine)); __v_assert(e < g_n, "the program is one of the operator's"); __v_assert(args[0] == g_args + e, "the arguments of an aggregate go to its own tuple"); wellformed(e);
    if (__v_uf_nargs(e)) { if (__v_uf_argnull(r, e)) args[0]->null(0); else { Value v; v.val_.i = __v_uf_arg(r, e); args[0]->set(0, v); } }
    no_overflow(e, r, g_cur ? g_aggs[g_base_ + e] : g_otherbuf[g_base_ + e]);
    if (e == g_a and g_cur) {
        wellformed(g_a); uint64_t bit = 1UL << r, rows = g_pos & ~(bit - 1); AState s = now(), t = acc(s, rows), u = acc(step(s, g_a, r), rows & (rows - 1));
        __v_assume(t.null == u.null and t.val == u.val and t.num == u.num);
    }
}
static GroupNode * found() { g_computed = 2; return g_cur ? g_node : g_other; }
static void check_key(const Tuple *key) { __v_assert(g_computed >= 1 and key->values_ == (Value*) g_keybuf, "the group is looked up with the key of the tuple"); }
void * stub_find(void*, const Tuple *key) {
    check_key(key); if (g_cur) { if (g_exists) return found(); g_computed = 1; return nullptr; }
    const_cast<Tuple&>(g_other->_M_v().first).null_mask_ = SmallBitset(__v_nondet_u64());          // another group
    if (__v_nondet_u64() & 1) { g_computed = 1; return nullptr; } return found();
}
void stub_counts(std::vector<uint64_t> *v, uint64_t n, const uint64_t *x, const void*) { __v_assert(n == g_n, "a group has a count for each aggregate"); auto &N = v->_M_impl; N._M_start = g_newnums; N._M_finish = N._M_end_of_storage = g_newnums + n; g_newnums[g_a] = *x; }
void * stub_emplace(void*, void *hint, Tuple *key, std::vector<uint64_t> *nums) {
    check_key(key); if (g_cur and g_exists) return found(); uint64_t m = key->null_mask_.bits_; __v_assert(nums->_M_impl._M_start == g_newnums, "a new group has its own counts");
    if (g_cur) {
        g_exists = 1; *g_null = m; g_aggs[g_q] = g_keybuf[g_q]; g_aggs[g_base_ + g_a] = g_keybuf[g_base_ + g_a]; g_nums[g_a] = g_newnums[g_a];
        __v_assert((m >> (g_base_ + g_a)) & 1, "the aggregates of a new group are NULL"); __v_assert(g_nums[g_a] == 0, "a new group has not seen any value");
    } else const_cast<Tuple&>(g_other->_M_v().first).null_mask_ = SmallBitset(m);
    key->values_ = nullptr; auto &N = nums->_M_impl; N._M_start = N._M_finish = N._M_end_of_storage = nullptr; return found();
}
void stub_key_tuple(Tuple *self, const Schema*) { self->values_ = (Value*) g_keybuf; self->null_mask_ = SmallBitset(~0UL); }
void stub_no_tuple(Tuple*) { }
}
template<typename Op> static void group_keys(Op *op) {
    g_base_ = IN64("keys"); g_q = IN64("q"); __v_assume(g_base_ < 63 and g_q < g_base_ and g_base_ + g_n < 63); __v_name(g_base_, "keys"); __v_name(g_q, "q"); using E = std::decay_t<decltype(op->group_by_[0])>;
    auto &V = op->group_by_._M_impl; V._M_start = (E*) __v_elems(g_base_, sizeof(E), 0, 1UL << 21); V._M_finish = V._M_end_of_storage = V._M_start + g_base_;
}
static void node(GroupNode *n, uint64_t *vals, uint64_t nulls, uint64_t *nums) {
    auto &t = const_cast<Tuple&>(n->_M_v().first); t.values_ = (Value*) vals; t.null_mask_ = SmallBitset(nulls); auto &N = n->_M_v().second._M_impl; N._M_start = nums; N._M_finish = N._M_end_of_storage = nums + g_n;
}
struct Child : Producer {
    void accept(OperatorVisitor&) override { }
    void accept(ConstOperatorVisitor&) const override { }
};
static void child(Consumer *op, Producer *c) { static Producer *cs[1]; cs[0] = c; auto &C = op->children_._M_impl; C._M_start = cs; C._M_finish = C._M_end_of_storage = cs + 1; }
static void groups(Function::fnid_t f) {
    auto p = pipeline(); auto op = new GroupingOperator({}, {}); Sink sink; op->parent(&sink); Child c; child(op, &c); auto d = new HashBasedGroupingData((const GroupingOperator&) *op); g_data = d;
    aggregates(op); arguments(d); group_keys(op); wellformed(g_a); __v_assume(__v_uf_fnid(g_a) == f); op->data(d);
    g_node = (GroupNode*) __v_heap(sizeof(GroupNode), 0); g_other = (GroupNode*) __v_heap(sizeof(GroupNode), 0); node(g_node, g_aggs, IN64("nulls"), g_nums); node(g_other, g_otherbuf, IN64("othernulls"), g_othernums);
    g_null = &const_cast<Tuple&>(g_node->_M_v().first).null_mask_.bits_; __v_role(g_node, "data"); __v_name(uint64_t(g_null) - uint64_t(g_node), "nulloff");
    uint64_t m = p->block_.mask_, rest; g_set = IN64("group"); g_pos = m & g_set; g_exists = IN64("exists"); __v_assume(g_exists <= 1); uint64_t was = g_exists; g_computed = 0; __v_name(g_set, "group"); __v_name(minmax(g_a), "nullable");
    __v_assume(not was or minmax(g_a) or not current(g_a, g_base_).null); AState s0 = now(), want = acc(s0, g_pos); uint64_t key0 = g_aggs[g_q]; bool keynull0 = (*g_null >> g_q) & 1; AState st = start(g_a);
    __v_name(minmax(g_a) and is_f32(g_a), "narrow"); __v_name(want.null, "wnull"); __v_name(want.val, "wval"); __v_name(want.num, "wnum"); __v_name(st.null, "startnull"); __v_name(was, "was"); __v_name(key0, "key0"); __v_name(keynull0, "keynull0"); uint64_t first = __builtin_ctzll(g_pos | 1UL << 63); __v_name(first, "first");
    p->Pipeline::operator()((const GroupingOperator&) *op);
    AState s = now(), none = acc(s, 0); __v_assume(none.null == s.null and none.val == s.val and none.num == s.num);
    __v_assert(g_exists == (was or g_pos != 0), "there is a group for a key iff some tuple has it"); __v_assert(same(s, want), "the group accounts for every tuple with its key once, and for no other");
    if (g_exists) __v_assert(minmax(g_a) or not current(g_a, g_base_).null, "the aggregates of a group have values");
    if (g_exists) { bool kn = (*g_null >> g_q) & 1; __v_assert(kn == (was ? keynull0 : __v_uf_keynull(first, g_q)), "the group has the key of its tuples"); if (not kn) __v_assert(g_aggs[g_q] == (was ? key0 : __v_uf_key(first, g_q)), "the group has the key of its tuples"); }
    __v_assert(g_pushes == 0, "nothing is passed on yet"); __v_cover("end");
}
ROOT prove_groups_count() { groups(Function::FN_COUNT); }
ROOT prove_groups_sum() { groups(Function::FN_SUM); }
ROOT prove_groups_avg() { groups(Function::FN_AVG); }
ROOT prove_groups_min() { groups(Function::FN_MIN); }
ROOT prove_groups_max() { groups(Function::FN_MAX); }
/*----- every group is passed on exactly once --------------------------------------------------------------------------*/
extern "C" {
GroupingOperator *g_op; uint64_t g_loaded, g_fresh, g_passed, g_rows, g_children; void *g_nodes; Tuple *g_key;
bool g_made_data;
uint64_t stub_size(const void*) { __v_assert(g_children == 1, "groups are passed on after the whole input"); return g_rows; }
void * stub_begin(void*) { __v_assert(g_loaded == 0, "begins at the first group"); return g_nodes; }
void * stub_next(void **it, int) { char *p = (char*) *it; *it = p + 64; return p; }
void ** stub_next2(void **it) { *it = (char*) *it + 64; return it; }
void stub_extract(decltype(HashBasedGroupingData::groups)::node_type *node, void*, void *it) { uint64_t i = __v_index(it, g_nodes, 64); __v_assert(i == g_loaded and i < g_rows, "the groups are taken out in order"); node->_M_ptr = g_node; node->_M_pkey = g_key; }
void stub_swap(Tuple *a, Tuple *b) {
    if (a != g_key and b != g_key) { __v_assert(g_children == 0, "only groups are moved to the block"); return; }          // the block is being made
    Tuple *t = b == g_key ? a : b; uint64_t r = row(t); __v_assert(r < 64 and uint64_t(t) == g_base + r * TS, "a group is moved to the block");
    __v_assert(not ((g_fresh >> r) & 1), "no group is overwritten before it is passed on"); g_fresh |= 1UL << r; ++g_loaded;
}
}
struct GroupSink : Consumer {
    void accept(OperatorVisitor&) override { }
    void accept(ConstOperatorVisitor &v) const override { auto &p = static_cast<Pipeline&>(v); __v_assert(p.block_.mask_ == g_fresh, "the groups moved to the block are passed on, and nothing else"); g_fresh = 0; g_passed = g_loaded; p.block_.mask_ = __v_nondet_u64(); }
};
struct GroupChild : Producer {
    void accept(OperatorVisitor&) override { }
    void accept(ConstOperatorVisitor&) const override { auto d = static_cast<HashBasedGroupingData*>(g_op->data()); __v_assert(d != nullptr, "there is a table for the groups"); g_tuples = d->pipeline.block_.data_.data(); g_base = uint64_t(g_tuples); ++g_children; }
};
ROOT prove_emit() {
    auto op = new GroupingOperator({}, {}); g_op = op; GroupSink sink; op->parent(&sink); GroupChild c; child(op, &c); g_rows = IN64("rows"); __v_assume(g_rows < 1UL << 47); __v_name(g_rows, "rows"); g_loaded = g_fresh = g_passed = g_children = 0;
    g_nodes = __v_heap(64 * g_rows + 64, 0); g_node = (GroupNode*) __v_heap(sizeof(GroupNode), 0); g_key = const_cast<Tuple*>(&g_node->_M_v().first);
    __v_name(uint64_t(g_nodes), "nodes"); Interpreter I; I.Interpreter::operator()((const GroupingOperator&) *op);
    __v_assert(g_children == 1 and g_loaded == g_rows, "the input is evaluated once, and every group is taken out once"); __v_assert(g_passed == g_rows and g_fresh == 0, "every group taken out is passed on"); __v_cover("end");
}
/*----- the programs for keys and arguments ----------------------------------------------------------------------------*/
ROOT prove_group_frame() {
    auto op = new GroupingOperator({}, {}); Child c; child(op, &c); aggregates(op); group_keys(op); wellformed(g_a); g_keys_made = g_keysm = g_made = g_pending = g_stored = g_filled = g_sized = 0;
    auto d = (HashBasedGroupingData*) __v_heap(sizeof(HashBasedGroupingData), 0); __v_name(uint64_t(&d->compute_key), "keysm"); new (d) HashBasedGroupingData((const GroupingOperator&) *op);
    __v_assert(g_keys_made == g_base_ and (g_base_ == 0 or g_keysm == uint64_t(&d->compute_key)), "the program for the key computes every key"); __v_assert(g_made == g_n and g_pending == 0, "every aggregate has a program"); __v_cover("end");
}
/*----- keys -----------------------------------------------------------------------------------------------------------*/
// Keys of equal value are equal: strings by their characters, all else by value, NULLs are equal to one another. The
// g_q-th attribute is followed; g_alive are the key attributes that are not NULL.
extern "C" {
uint64_t g_alive; bool g_agree; bool __v_uf_streq(uint64_t attr); uint64_t __v_uf_strhash(uint64_t attr), __v_uf_valhash(uint64_t attr);
static constexpr uint64_t KEY_TYPES = 1UL << 30;
static uint64_t string(const char *p, const char *of, bool b) { uint64_t s = __v_index(p, __v_expr(0), 256), i = s / 2; __v_assert(i < g_n and (s & 1) == b and ((g_alive >> i) & 1) and __v_uf_kind(KEY_TYPES + i) == 5, of); return i; }
bool stub_streq(const char *a, const char *b) { uint64_t i = string(a, "a string of the first key is compared", 0), j = string(b, "a string of the second key is compared", 1); __v_assert(i == j, "with that of the same attribute"); if (g_agree) __v_assume(__v_uf_streq(i)); return __v_uf_streq(i); }
uint64_t stub_strhash(const char *a) { return __v_uf_strhash(string(a, "a string of the key is hashed", 0)); }
uint64_t stub_valhash(const void*, uint64_t v) { return __v_nondet_u64(); }
}
struct Keys {
    Tuple *a, *b; Schema *s; uint64_t n, q, types; bool eq;
    static Tuple * key(const char *role, uint64_t n, uint64_t m) { auto t = (Tuple*) __v_heap(sizeof(Tuple), 0); t->values_ = (Value*) __v_heap(n * sizeof(Value), sizeof(Value)); t->null_mask_ = SmallBitset(m); __v_role(t->values_, role); return t; }
    Keys(bool agree) { n = IN64("n"); q = IN64("q"); uint64_t ma = IN64("nulla"), mb = IN64("nullb"), all = IN64("attrs"); __v_assume(n <= all and all <= 64 and q < n); g_agree = agree; g_n = n; g_q = q; g_alive = ~ma & bits(n); if (agree) __v_assume(((ma ^ mb) & bits(n)) == 0);
        a = key("ka", all, ma); b = key("kb", all, mb); s = (Schema*) __v_heap(sizeof(Schema), 0); using E = std::decay_t<decltype(s->entries_[0])>; auto &V = s->entries_._M_impl; V._M_start = (E*) __v_heap(all * sizeof(E), sizeof(E)); __v_role(V._M_start, "entries"); V._M_finish = V._M_end_of_storage = V._M_start + all;
        __v_name(g_alive, "alive"); __v_name(~mb & bits(n), "alive2"); __v_name(q, "q"); __v_name(n, "n"); __v_name(agree, "agree"); bool na = (ma >> q) & 1, nb = (mb >> q) & 1; eq = na == nb and (na or (__v_uf_kind(KEY_TYPES + q) == 5 ? __v_uf_streq(q) : a->values_[q].val_.i == b->values_[q].val_.i)); __v_name(eq, "eq"); }
};
ROOT prove_keys_equal() { Keys k(false); bool r = KeyEqual(*k.s, k.n)(*k.a, *k.b); if (r) __v_assert(k.eq, "keys that are equal have equal attributes"); __v_cover("end"); }
ROOT prove_keys_agree() { Keys k(true); __v_assert(KeyEqual(*k.s, k.n)(*k.a, *k.b), "keys with equal attributes are equal"); __v_cover("end"); }
ROOT prove_keys_hash() { Keys k(true); uint64_t h = KeyHash(*k.s, k.n)(*k.a); __v_name(h, "h"); __v_cover("end"); }
