// The interaction tree.
// SOURCES: projects/dataclasses/private/InteractionTree.cxx projects/dataclasses/private/InteractionRecord.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/ParticleType.cxx projects/dataclasses/private/Particle.cxx projects/utilities/private/StringManipulation.cxx
#include "common.h"
#include "SIREN/dataclasses/InteractionTree.h"
using namespace siren::dataclasses;
typedef std::shared_ptr<InteractionTreeDatum> DP;
static void check_invariants(InteractionTree const & t, int n, int const * parent) {
  vc_assert((int)t.tree.size() == n, "one node per added entry");
  for(int i = 0; i < n; ++i) {
    InteractionTreeDatum const & d = *t.tree[i];
    vc_assert((int)d.node_id == i, "node_id is the position in the tree");
    vc_assert(d.is_root() == (parent[i] < 0), "roots are exactly the entries added without a parent");
    if(parent[i] >= 0) { vc_assert((int)d.parent_index == parent[i], "parent_index is the parent's position"); vc_assert(parent[i] < i, "parents precede daughters"); }
    else vc_assert(d.parent_index == kNoParent, "a root has no parent index");
    unsigned k = 0;
    for(int j = 0; j < n; ++j) if(parent[j] == i) { vc_assert(k < d.daughter_indices.size(), "every child is listed at its parent"); vc_assert((int)d.daughter_indices[k] == j, "daughters are listed in order of addition"); ++k; }
    vc_assert(k == d.daughter_indices.size(), "no other daughters are listed");
    int dep = 0; for(int p = parent[i]; p >= 0; p = parent[p]) ++dep;
    vc_assert(t.depth(i) == dep, "depth is the number of ancestors");
    vc_assert(t.at(i).get() == t.tree[i].get(), "at() is the node of that id");
  }
}
//@ InteractionTree::add_entry (all three forms), at, depth, is_root: any sequence of up to four additions with any parents
VC_HARNESS(add_entries) {
  InteractionTree t; DP h[4]; int parent[4]; double w[4];
  int n = 4;
  for(int i = 0; i < n; ++i) {
    int p = vc_choice("parent", i + 1) - 1; parent[i] = p; w[i] = vc_real("w");
    DP par = p < 0 ? DP() : h[p];
    InteractionRecord r; r.primary_mass = w[i];
    int form = i < 2 ? vc_choice("form", 3) : 0;
    if(form == 0) h[i] = t.add_entry(r, par);
    else if(form == 1) { InteractionTreeDatum d(r); d.daughter_indices.push_back(17); d.parent_index = 12; d.node_id = 99; h[i] = t.add_entry(d, par); vc_assert(d.node_id == 99 && d.parent_index == 12 && d.daughter_indices.size() == 1, "the caller's datum is copied, not changed"); }
    else { DP d = std::make_shared<InteractionTreeDatum>(r); d->daughter_indices.push_back(17); d->parent_index = 12; h[i] = t.add_entry(d, par); vc_assert(h[i].get() == d.get(), "a shared datum is stored itself"); }
    vc_assert(h[i].get() == t.tree.back().get(), "the returned datum is the stored one");
  }
  check_invariants(t, n, parent);
  for(int i = 0; i < n; ++i) vc_eq(t.tree[i]->record.primary_mass, w[i], "each node keeps its own record");
  bool threw = false; try { t.at(n); } catch(std::out_of_range const &) { threw = true; } vc_assert(threw, "an unknown node id is refused");
  vc_cover("added");
}
// ------------------------------------------------------------------ archives: a tape that hands out given values
struct Tape {
  InteractionTree * src; int version_of_datum;
  template<class T> void operator()(cereal::NameValuePair<T> const & v) { get(v.value); }
  template<class... A> void operator()(A &&... a) { int x[] = {0, (get(a), 0)...}; (void)x; }
  template<class T> void get(cereal::NameValuePair<T> const & v) { get(v.value); }
  void get(std::vector<DP> const &) {} void get(InteractionTreeHeader const &) {}
  void get(std::vector<DP> & t) { t = src->tree; }
  void get(InteractionTreeHeader & h) { h = src->header; }
};
static DP node(int n, bool & ok, int i) {
  if(vc_choice("null", 2)) { ok = false; return DP(); }
  DP d = std::make_shared<InteractionTreeDatum>();
  d->node_id = (unsigned)vc_int_in("node_id", 0, 4294967295L); if(!((long)d->node_id == i)) ok = false;
  d->parent_index = (unsigned)vc_int_in("parent_index", 0, 4294967295L); if(!(d->parent_index == kNoParent) && !((long)d->parent_index < n)) ok = false;
  if(vc_choice("daughter", 2)) { d->daughter_indices.push_back((unsigned)vc_int_in("daughter_index", 0, 4294967295L)); if(!((long)d->daughter_indices[0] < n)) ok = false; }
  return d;
}
//@ InteractionTree::load (version 1): an archive whose ids or links are out of range, or that has missing nodes, is refused; a consistent one is accepted unchanged, and then depth of any node ends (with a value or an error)
VC_HARNESS(load_validates) {
  InteractionTree src, t; int n = vc_choice("n", 3); bool ok = true;
  for(int i = 0; i < n; ++i) src.tree.push_back(node(n, ok, i));
  src.header.event_number = 7; Tape tape{&src, 1};
  bool threw = false; try { t.load(tape, 1); } catch(std::runtime_error const &) { threw = true; }
  vc_assert(threw == !ok, "refused exactly when ids or links are inconsistent");
  if(threw) return;
  vc_assert((int)t.tree.size() == n && t.header.event_number == 7, "tree and header are loaded");
  for(int i = 0; i < n; ++i) {
    bool th = false; int d = -1; try { d = t.depth(i); } catch(std::exception const &) { th = true; }
    vc_assert(th || (d >= 0 && d < n), "depth ends with a valid depth or an error");
  }
  vc_cover("accepted");
}
//@ InteractionTree / InteractionTreeDatum save, load: unknown versions are refused
VC_HARNESS(versions) {
  InteractionTree t; Tape tape{&t, 1}; InteractionTreeDatum d; InteractionTreeHeader h;
  long v = vc_int_in("version", 2, 100);
  bool a = false, b = false; try { t.load(tape, v); } catch(std::runtime_error const &) { a = true; } try { t.save(tape, v); } catch(std::runtime_error const &) { b = true; }
  vc_assert(a && b, "the tree refuses unknown versions");
  bool e = false; try { t.save(tape, 0); } catch(std::runtime_error const &) { e = true; } vc_assert(e, "the tree is not written in the legacy layout");
}
//@ InteractionTree::load (version 0, pointer links): node ids, parents and daughters are those of the pointers, and the pointer cycle is broken
VC_HARNESS(load_legacy) {
  InteractionTree src; int n = 3, parent[3];
  for(int i = 0; i < n; ++i) src.tree.push_back(std::make_shared<InteractionTreeDatum>());
  for(int i = 0; i < n; ++i) { int p = vc_choice("parent", i + 1) - 1; parent[i] = p; if(p >= 0) { src.tree[i]->legacy_parent = src.tree[p]; src.tree[p]->legacy_daughters.push_back(src.tree[i]); } src.tree[i]->node_id = 5; }
  InteractionTree t; Tape tape{&src, 0}; t.load(tape, 0);
  check_invariants(t, n, parent);
  for(int i = 0; i < n; ++i) vc_assert(!t.tree[i]->legacy_parent && t.tree[i]->legacy_daughters.empty(), "no pointer links survive");
  vc_cover("legacy");
}
//@ InteractionTreeDatum / InteractionTreeHeader / InteractionTree ==: equal exactly when ids, links, records, and header agree
VC_HARNESS(equality) {
  InteractionTree a, b; 
  int na = vc_choice("na", 3), nb = vc_choice("nb", 3); bool same = na == nb;
  for(int k = 0; k < 2; ++k) for(int i = 0; i < (k ? nb : na); ++i) {
    DP d = std::make_shared<InteractionTreeDatum>(); d->node_id = (unsigned)vc_int_in("id", 0, 1000); d->parent_index = (unsigned)vc_int_in("par", 0, 1000); d->record.primary_mass = vc_real("m"); if(vc_choice("dau", 2)) d->daughter_indices.push_back((unsigned)vc_int_in("di", 0, 1000));
    (k ? b : a).tree.push_back(d);
  }
  a.header.event_number = vc_int_in("ea", 0, 1000); b.header.event_number = vc_int_in("eb", 0, 1000);
  if(vc_choice("wa", 2)) a.header.weights.push_back(vc_real("wa")); if(vc_choice("wb", 2)) b.header.weights.push_back(vc_real("wb"));
  if(same) for(int i = 0; i < na; ++i) {
    InteractionTreeDatum & x = *a.tree[i], & y = *b.tree[i];
    bool e = x.node_id == y.node_id && x.parent_index == y.parent_index && x.record.primary_mass == y.record.primary_mass && x.daughter_indices.size() == y.daughter_indices.size();
    if(e && !x.daughter_indices.empty()) e = x.daughter_indices[0] == y.daughter_indices[0];
    vc_assert((x == y) == e, "data are equal exactly when id, links and record agree");
    same = same && e;
  }
  bool hs = a.header.event_number == b.header.event_number && a.header.weights.size() == b.header.weights.size();
  if(hs && !a.header.weights.empty()) hs = a.header.weights[0] == b.header.weights[0];
  vc_assert((a.header == b.header) == hs, "headers are equal exactly when all parts agree");
  vc_assert((a == b) == (same && hs), "trees are equal exactly when nodes and header agree");
}
