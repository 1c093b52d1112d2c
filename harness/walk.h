// Tokens as seen by a user, from lookup() or by walking a char_state_machine.
#pragma once
#include "fam.h"
#include <lexertl/state_machine.hpp>
namespace orc {
struct Tok { uint64_t id = 0, uid = 0; long first = 0, second = 0; uint64_t state = 0; bool bol = true, threw = false; size_t depth = 0; uint64_t top1 = 0, top2 = 0; };
template<class M> struct Ex { static void fill(Tok&, const M&) {} };
template<class It, class I> struct Ex<lexertl::recursive_match_results<It, I>> { static void fill(Tok& k, const lexertl::recursive_match_results<It, I>& m) { k.depth = m.stack.size(); if (k.depth) { k.top1 = m.stack.top().first; k.top2 = m.stack.top().second; } } };
template<class M> Tok tok_of(const M& m, const typename M::iter_type& base) { Tok k; k.id = m.id; k.uid = m.user_id; k.first = m.first - base; k.second = m.second - base; k.state = m.state; k.bol = m.bol; Ex<M>::fill(k, m); return k; }
template<class SM, class M> Tok step(const SM& sm, M& m, const typename M::iter_type& base) { bool t = false; try { lexertl::lookup(sm, m); } catch (const lexertl::runtime_error&) { t = true; } if (t) { Tok k; k.threw = true; return k; } return tok_of(m, base); }
inline void same(const Tok& a, const Tok& b, const char* what, bool bol) {
  sym_assert(a.threw == b.threw, what); if (a.threw) return;
  sym_assert(a.id == b.id, what); sym_assert(a.uid == b.uid, what); sym_assert(a.first == b.first, what); sym_assert(a.second == b.second, what); sym_assert(a.state == b.state, what);
  sym_assert(a.depth == b.depth, what); sym_assert(a.top1 == b.top1, what); sym_assert(a.top2 == b.top2, what); if (bol) sym_assert(a.bol == b.bol, what); }
// the documented meaning of a char_state_machine, walked on a text
template<class CSM, class C> struct CWalk {
  typedef typename CSM::id_type I; typedef typename CSM::string_token::index_type X; const CSM& m; const C* t; int L; int pos = 0, first = 0; I state = 0; bool bol = true; bool rec; std::vector<std::pair<I, I>> stk;
  CWalk(const CSM& c, const C* x, int n, bool r) : m(c), t(x), L(n), rec(r) {}
  static bool has(const typename CSM::string_token& s, X c) { for (auto& r : s._ranges) if (c >= r.first && c <= r.second) return true; return false; }
  Tok next() {
    Tok k; int cur;
  skip: cur = pos; first = cur;
  again:
    if (cur == L) { k.id = 0; k.uid = CSM::npos(); goto done; }
    { const auto& d = m._sm_vector[state]; I at = bol && d._bol_index != CSM::npos() ? d._bol_index : 0; bool b = bol; const typename CSM::state* win = nullptr; int wend = 0; bool wbol = false;
      auto end = [&]() { if (d._states[at]._end_state) { win = &d._states[at]; wend = cur; wbol = b; } };
      if (d._states[at]._end_state) end();
      bool stuck = false;
      while (cur < L) {
        const auto& s = d._states[at]; C c = t[cur];
        if (s._eol_index != CSM::npos() && (c == '\n' || c == '\r')) at = s._eol_index;
        else { I to = CSM::npos(); int n = 0; for (auto& tr : s._transitions) if (has(tr.second, (X)c)) { to = tr.first; ++n; }
          sym_assert(n <= 1, "transitions of a state are disjoint"); if (!n) { stuck = true; break; } b = c == '\n'; at = to; ++cur; CHECK(at < d._states.size()); }
        end(); }
      if (!stuck && d._states[at]._eol_index != CSM::npos()) { at = d._states[at]._eol_index; end(); }
      if (!win) { bol = t[pos] == '\n'; first = pos; ++pos; k.id = CSM::npos(); k.uid = CSM::npos(); goto done; }
      bool pop = win->_push_pop_dfa == CSM::state::push_pop_dfa::pop_dfa; I ns = win->_next_dfa;
      bool eoi2 = false;
      if (rec) { if (pop) { if (stk.empty()) { k.threw = true; return k; } ns = stk.back().first; stk.pop_back(); eoi2 = !stk.empty() && stk.back().second == 0; }
        else if (win->_push_pop_dfa == CSM::state::push_pop_dfa::push_dfa) stk.push_back({ win->_push_dfa, win->_id }); }
      state = ns; bol = wbol; pos = wend;
      if (win->_id == CSM::skip()) goto skip;
      if (win->_id == 0 || eoi2) { cur = wend; goto again; }
      k.id = win->_id; k.uid = win->_user_id; }
  done:
    k.first = first; k.second = pos; k.state = state; k.bol = bol; k.depth = stk.size(); if (k.depth) { k.top1 = stk.back().first; k.top2 = stk.back().second; }
    return k; }
};
}
