// Instrumented: wrappers for the profiler.
#include <cstdint>
#include <cstring>
#include <new>
#include <string>
#include <vector>

#ifdef RUY_PROFILER
#include "ruy/profiler/instrumentation.h"
#include "ruy/profiler/profiler.h"
#include "ruy/profiler/treeview.h"
#endif
#include "sut.h"

namespace sut {

#ifdef RUY_PROFILER
namespace pf = ruy::profiler;

bool HaveProfiler() { return true; }
size_t ProfileBytes() { return sizeof(pf::ScopeProfile); }
void* ProfileStart(void* mem, bool enable) {
  return enable ? new (mem) pf::ScopeProfile : new (mem) pf::ScopeProfile(false);
}
void ProfileStop(void* p) { static_cast<pf::ScopeProfile*>(p)->~ScopeProfile(); }
void* TreeNew() { return new pf::TreeView; }
void TreeDelete(void* t) { delete static_cast<pf::TreeView*>(t); }
void ProfileSetTree(void* p, void* t) {
  static_cast<pf::ScopeProfile*>(p)->SetUserTreeView(
      static_cast<pf::TreeView*>(t));
}
size_t LabelBytes() { return sizeof(pf::ScopeLabel); }

// F has the texts of E in storage of its own; G and H differ at their ends only.
static char kF[5][32] = {"E0", "E1=%d", "E2=%d,%d", "E3 %d %d %d", "E4 %d %d %d %d"};
#define LONG "A label with quite a long text, number "
static const char* const kFormats[5][8] = {
    {"A0", "B0", "C0", "D0", "E0", kF[0], LONG "G0", LONG "H0"},
    {"A1(%d)", "B1 %x", "C1[%d]", "D1%d", "E1=%d", kF[1], LONG "%d G", LONG "%d H"},
    {"A2(%d,%d)", "B2 %x %d", "C2[%d][%d]", "D2%d-%d", "E2=%d,%d", kF[2],
     LONG "%d %d", LONG "%d %d."},
    {"A3(%d,%d,%d)", "B3 %x %d %d", "C3 %d %d %d", "D3 %d %d %d", "E3 %d %d %d",
     kF[3], LONG "%d %d %d G", LONG "%d %d %d H"},
    {"A4(%d,%d,%d,%d)", "B4 %x %d %d %d", "C4 %d %d %d %d", "D4 %d %d %d %d",
     "E4 %d %d %d %d", kF[4], LONG "%d %d %d %d", LONG "%d %d %d %d "}};
#undef LONG
const char* LabelFormat(int kind, int nargs) { return kFormats[nargs][kind & 7]; }
void* LabelPush(void* mem, int kind, int nargs, const int* a) {
  const char* f = LabelFormat(kind, nargs);
  switch (nargs) {
    case 0:
      return new (mem) pf::ScopeLabel(f);
    case 1:
      return new (mem) pf::ScopeLabel(f, a[0]);
    case 2:
      return new (mem) pf::ScopeLabel(f, a[0], a[1]);
    case 3:
      return new (mem) pf::ScopeLabel(f, a[0], a[1], a[2]);
    default:
      return new (mem) pf::ScopeLabel(f, a[0], a[1], a[2], a[3]);
  }
}
void LabelPop(void* l) { static_cast<pf::ScopeLabel*>(l)->~ScopeLabel(); }

static void Visit(const pf::TreeView::Node& n, uint32_t th, int depth,
                  const TreeVisitor& v) {
  std::string f = n.label.Formatted();
  v.node(v.arg, th, depth, f.c_str(), n.label.format(), n.weight,
         (int)n.children.size());
  for (const auto& c : n.children) Visit(*c, th, depth + 1, v);
}
void TreeVisit(void* t, const TreeVisitor& v) {
  for (const auto& r : static_cast<pf::TreeView*>(t)->thread_roots())
    Visit(*r.second, r.first, 0, v);
}
int TreeDepth(void* t) {
  int d = 0;
  for (const auto& r : static_cast<pf::TreeView*>(t)->thread_roots()) {
    int x = pf::DepthOfTreeBelow(*r.second);
    if (x > d) d = x;
  }
  return d;
}
void* TreeCollapse(void* t, int depth, const char* format, bool formatted) {
  pf::TreeView* out = new pf::TreeView;
  if (formatted)
    pf::CollapseNodesMatchingFormatted(*static_cast<pf::TreeView*>(t), depth,
                                       format, out);
  else
    pf::CollapseNodesMatchingUnformatted(*static_cast<pf::TreeView*>(t), depth,
                                         format, out);
  return out;
}
int TreeWeight(void* t, const char* format, bool formatted) {
  int w = 0;
  for (const auto& r : static_cast<pf::TreeView*>(t)->thread_roots())
    w += formatted ? pf::WeightBelowNodeMatchingFormatted(*r.second, format)
                   : pf::WeightBelowNodeMatchingUnformatted(*r.second, format);
  return w;
}
static void SetLabel(pf::Label* l, int kind, int nargs, const int* a) {
  const char* f = LabelFormat(kind, nargs);
  switch (nargs) {
    case 0:
      l->Set(f);
      break;
    case 1:
      l->Set(f, a[0]);
      break;
    case 2:
      l->Set(f, a[0], a[1]);
      break;
    case 3:
      l->Set(f, a[0], a[1], a[2]);
      break;
    default:
      l->Set(f, a[0], a[1], a[2], a[3]);
  }
}
void TreePopulate(void* t, const SynthSample* s, int n) {
  std::vector<char> buf;
  for (int i = 0; i < n; i++) {
    pf::detail::Stack st;
    st.id = s[i].id;
    st.size = s[i].size;
    for (int j = 0; j < s[i].size; j++)
      SetLabel(&st.labels[j], s[i].kinds[j], s[i].nargs[j], s[i].args[j]);
    size_t o = buf.size();
    buf.resize(o + pf::detail::GetBufferSize(st));
    pf::detail::CopyToBuffer(st, buf.data() + o);
  }
  static_cast<pf::TreeView*>(t)->Populate(buf);
}
void TreePrint(void* t) { pf::Print(*static_cast<pf::TreeView*>(t)); }
#else
bool HaveProfiler() { return false; }
size_t ProfileBytes() { return 0; }
void* ProfileStart(void*, bool) { return nullptr; }
void ProfileStop(void*) {}
void* TreeNew() { return nullptr; }
void TreeDelete(void*) {}
void ProfileSetTree(void*, void*) {}
size_t LabelBytes() { return 0; }
void* LabelPush(void*, int, int, const int*) { return nullptr; }
void LabelPop(void*) {}
const char* LabelFormat(int, int) { return ""; }
void TreeVisit(void*, const TreeVisitor&) {}
int TreeDepth(void*) { return 0; }
void* TreeCollapse(void*, int, const char*, bool) { return nullptr; }
int TreeWeight(void*, const char*, bool) { return 0; }
void TreePopulate(void*, const SynthSample*, int) {}
void TreePrint(void*) {}
#endif

}  // namespace sut
