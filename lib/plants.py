# Planted changes (development only; no check reads this).  See plant.py.
H = r'''
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
#include <lexertl/state_machine.hpp>
#include <cstdio>
#include <string>
#include <vector>
#define REQ(c) do { if (!(c)) { std::printf("FAILED %s\n", #c); return 1; } } while (0)
using namespace lexertl;
'''
PLANTS = [
dict(id='c01_uid', property='C01', edits=[('lookup.hpp', '''                    _uid = *(_ptr + *state_index::user_id);
                    reset_recursive''', '''                    if (*(_ptr + *state_index::user_id) != npos_uid())
                        _uid = *(_ptr + *state_index::user_id);
                    reset_recursive'''), ('lookup.hpp', '''            template<typename iter_type>
            void end_state(''', '''            static id_type npos_uid()
            {
                return static_cast<id_type>(~0);
            }

            template<typename iter_type>
            void end_state(''')],
  needs='a longer match by a rule without user id whose shorter prefix is matched by a rule with a user id', breaks='the reported user id is that of the shorter match',
  demo=H + r'''
int main() { rules r; state_machine sm; r.push("a", 1, 5); r.push("ab", 2); generator::build(r, sm);
  std::string s("ab"); smatch m(s.begin(), s.end()); lookup(sm, m); REQ(m.id == 2); REQ(m.user_id == smatch::npos()); return 0; }'''),
dict(id='c14_stale_push', property='C14', edits=[('lookup.hpp', '''                _recursive_state._push_dfa = *(_ptr + *state_index::push_dfa);
            }''', '''
                if (_recursive_state._pop ||
                    *(_ptr + *state_index::push_dfa) !=
                    static_cast<id_type>(~0))
                {
                    _recursive_state._push_dfa =
                        *(_ptr + *state_index::push_dfa);
                }
            }''')],
  needs='a push rule that matches a prefix of a longer match of a plain rule', breaks='the plain rule also pushes a state',
  demo=H + r'''
int main() { rules r; state_machine sm; r.push_state("S"); r.push("INITIAL", "a", 1, ">S"); r.push("*", "ab", 2, "."); r.push("S", "c", 3, "<"); generator::build(r, sm);
  std::string s("ab"); srmatch m(s.begin(), s.end()); lookup(sm, m); REQ(m.id == 2); REQ(m.stack.empty()); return 0; }'''),
dict(id='c12_bol_nomatch', property='C12', edits=[('lookup.hpp', '''                results_.bol = *results_.second == '\\n';''', '''                results_.bol = *results_.second == '\\r';''')],
  needs='a newline that no rule matches, followed by text for a ^ rule', breaks='^ no longer holds after an unmatched newline',
  demo=H + r'''
int main() { rules r; state_machine sm; r.push("^a", 1); r.push("b", 2); generator::build(r, sm);
  std::string s("b\na"); smatch m(s.begin(), s.end()); lookup(sm, m); REQ(m.id == 2); lookup(sm, m); REQ(m.id == smatch::npos()); lookup(sm, m); REQ(m.id == 1); return 0; }'''),
dict(id='c16_bol_row', property='C16', edits=[('state_machine.hpp', '''                    new_dfa_.front() = lookup_ptr_[bol_index_];''', '''                    new_dfa_.front() = bol_index_;''')],
  needs='minimising a table machine with a ^ rule where the line-start row merges with the ordinary start row', breaks='the line-start row points at another row after minimising',
  demo=H + r'''
int main() { rules r(*regex_flags::allow_suppressed_rules); state_machine sm; r.push("a", 1); r.push("^a", 2); r.push("b", 3); generator::build(r, sm); state_machine mn(sm); mn.minimise();
  std::string s("aabba"); smatch a(s.begin(), s.end()), b(s.begin(), s.end());
  for (int i = 0; i < 7; ++i) { lookup(sm, a); lookup(mn, b); REQ(a.id == b.id); REQ(a.second == b.second); } return 0; }'''),

dict(id='c03_count', property='C03', edits=[('parser/parser.hpp','for (std::size_t i_ = 1; i_ < count_; ++i_)','for (std::size_t i_ = 1; i_ < (count_ > 4 ? count_ - 1 : count_); ++i_)')],
  needs='a repeat whose upper bound is five or more above the lower', breaks='R{1,6} takes five copies of R at most', count=1,
  demo=H + r"""
int main() { rules r; state_machine sm; r.push("a{1,6}b", 1); generator::build(r, sm);
  for (int n = 0; n < 9; ++n) { std::string s = std::string(n, 'a') + "b"; smatch m(s.begin(), s.end()); lookup(sm, m); REQ((m.id == 1 && m.second == s.end()) == (n >= 1 && n <= 6)); } return 0; }"""),
dict(id='c08_group_end', property='C08', edits=[('parser/tokeniser/re_tokeniser.hpp','else if (!state_._flags_stack.empty())','else if (state_._flags_stack.size() == 1)')],
  needs='a plain group two levels below an inline option group', breaks='the scope of an inline ignore-case option ends at the wrong bracket',
  demo=H + r"""
int main() { rules r; state_machine sm; r.push("(?i:x((y)z)w)v", 1); generator::build(r, sm);
  for (const char* c : { "xyzwv", "XYZWv", "xyzWv" }) { std::string s(c); smatch m(s.begin(), s.end()); lookup(sm, m); REQ(m.id == 1); REQ(m.second == s.end()); }
  std::string s("xyzwV"); smatch m(s.begin(), s.end()); lookup(sm, m); REQ(m.id == smatch::npos()); return 0; }"""),
dict(id='c10_greek', property='C10', edits=[('parser/tokeniser/scripts.hpp', '\\\\x375-\\\\x377\\\\x37a-\\\\x37d\\\\x37f', '\\\\x375-\\\\x377\\\\x37a-\\\\x37f')],
  needs='U+037E, the one character between two Greek ranges', breaks='IsGreek holds U+037E (a Common character)',
  demo=H + r"""
int main() { basic_rules<char, char32_t> r; u32state_machine sm; r.push("\\p{IsGreek}", 1); basic_generator<decltype(r), u32state_machine>::build(r, sm);
  std::u32string s; s += (char32_t)0x37e; u32smatch m(s.begin(), s.end()); lookup(sm, m); REQ(m.id == u32smatch::npos()); s[0] = 0x37d; u32smatch n(s.begin(), s.end()); lookup(sm, n); REQ(n.id == 1); return 0; }"""),
dict(id='c11_plane16', property='C11', edits=[('lookup.hpp','sizeof(char_type) : 3;','sizeof(char_type) : (prev_char_ >> 20 ? 2 : 3);')],
  needs='a code point of plane 16', breaks='characters from U+100000 are looked up by two of their three bytes',
  demo=H + r"""
int main() { basic_rules<char, char32_t> r; u32state_machine sm; r.push("[\\x100000-\\x100041]", 1); r.push("a", 2); basic_generator<decltype(r), u32state_machine>::build(r, sm);
  std::u32string s; s += (char32_t)0x100040; u32smatch m(s.begin(), s.end()); lookup(sm, m); REQ(m.id == 1); REQ(m.second == s.end()); return 0; }"""),
dict(id='c13_star_dot', property='C13', edits=[('rules.hpp','_next_dfas[curr_].push_back(dot_ ? curr_ : new_dfa_id_);','_next_dfas[curr_].push_back(dot_ ? next_dfas_.front() : new_dfa_id_);')],
  needs="a rule for several start states that leaves the state unchanged ('.')", breaks="in every state but the first listed, '.' goes to the first listed state",
  demo=H + r"""
int main() { rules r; state_machine sm; r.push_state("A"); r.push("INITIAL", "a", 1, "A"); r.push("A", "b", 2, "."); r.push("*", "c", 3, "."); generator::build(r, sm);
  std::string s("acb"); smatch m(s.begin(), s.end()); lookup(sm, m); REQ(m.id == 1); lookup(sm, m); REQ(m.id == 3); lookup(sm, m); REQ(m.id == 2); return 0; }"""),
dict(id='c15_skip_eoi', property='C15', edits=[('lookup.hpp',"""                    curr_ = end_token_;
                    goto again;""","""                    curr_ = end_token_;
                    if (curr_ == results_.eoi) goto skip;
                    goto again;""")],
  needs='id-less text right at the end of input', breaks='the end of input is reported after the id-less text instead of where it began',
  demo=H + r"""
int main() { rules r; state_machine sm; r.push("INITIAL", "x", "."); r.push("*", "s", rules::skip(), "."); r.push("INITIAL", "a", 1, "."); generator::build(r, sm);
  std::string s("ax"); smatch m(s.begin(), s.end()); lookup(sm, m); REQ(m.id == 1); lookup(sm, m); REQ(m.id == 0); REQ(m.first == s.begin() + 1); REQ(m.second == s.end()); return 0; }"""),
dict(id='c16_eol_row', property='C16', edits=[('state_machine.hpp',"""                    new_ptr_[*state_index::eol] =
                        lookup_ptr_[ptr_[*state_index::eol]];""","""                    new_ptr_[*state_index::eol] =
                        ptr_[*state_index::eol];""")],
  needs="minimising a machine with a '$' rule whose successor row moves", breaks="'$' goes to another row after minimising",
  demo=H + r"""
int main() { rules r; r.push("(ab|cb|db)e", 2); r.push("xy$", 1); state_machine sm; generator::build(r, sm); state_machine mn(sm); mn.minimise();
  for (const char* c : { "xy", "xy\n", "abe", "cbe", "dbexy", "dbxy" }) { std::string s(c); smatch a(s.begin(), s.end()), b(s.begin(), s.end());
    for (int i = 0; i < 7; ++i) { lookup(sm, a); lookup(mn, b); REQ(a.id == b.id); REQ(a.second == b.second); } } return 0; }"""),
dict(id='c17_residue', property='C17', edits=[('serialise.hpp','        internals_.clear();\n','')],
  needs='loading into a machine that already holds a lexer', breaks='the old tables stay in front of the loaded ones',
  demo=H + r"""
#include <lexertl/serialise.hpp>
int main() { rules r, q; state_machine a, b; r.push("a", 1); q.push("b", 2); generator::build(r, a); generator::build(q, b); std::stringstream ss; save(a, ss); load(ss, b);
  std::string s("ab"); smatch m(s.begin(), s.end()); lookup(b, m); REQ(m.id == 1); lookup(b, m); REQ(m.id == smatch::npos()); REQ(b.data()._dfa == a.data()._dfa); return 0; }"""),
dict(id='c18_eol_end', property='C18', edits=[('state_machine.hpp',"""                if (ptr_[*state_index::eol])
                {
                    state_._eol_index""","""                if (ptr_[*state_index::eol] && !state_._end_state)
                {
                    state_._eol_index""")],
  needs="a state that both ends one rule and has a '$' successor of another", breaks="the character machine loses the '$' transition",
  demo=H + r"""
#include <lexertl/sm_to_csm.hpp>
int main() { rules r; state_machine sm; r.push("ab$", 1); r.push("a(b|c)", 2); generator::build(r, sm); char_state_machine c; sm_to_csm(sm, c);
  int n = 0, both = 0; for (auto& st : c._sm_vector[0]._states) { n += st._eol_index != char_state_machine::npos(); both += st._end_state && st._eol_index != char_state_machine::npos(); } REQ(n == 1); REQ(both == 1); return 0; }"""),
dict(id='c20_ffff', property='C20', edits=[('utf_iterators.hpp',"""            if (ch_ < 0x10000)
                return 3;""","""            if (ch_ < 0xffff)
                return 3;""")],
  needs='the code point U+FFFF', breaks='U+FFFF is encoded in four bytes',
  demo=H + r"""
#include <lexertl/utf_iterators.hpp>
int main() { std::u32string s; s += (char32_t)0xffff; typedef basic_utf8_out_iterator<std::u32string::const_iterator> I; I i(s.begin(), s.end()), e(s.end(), s.end()); std::string o; for (; i != e; ++i) o += *i; REQ(o == "\xef\xbf\xbf"); return 0; }"""),
dict(id='c21_end', property='C21', edits=[('iterator.hpp','if (_results.first == _results.eoi)','if (_results.second == _results.eoi && _results.id == 0)')],
  needs='a lexer whose end-of-input id was joined with id-less text', breaks='the iterator becomes the end iterator while a token is still to be seen',
  demo=H + r"""
#include <lexertl/iterator.hpp>
int main() { rules r; state_machine sm; r.push("INITIAL", "x", "."); r.push("INITIAL", "a", 1, "."); generator::build(r, sm); std::string s("ax"); siterator i(s.begin(), s.end(), sm), e; int n = 0; for (; i != e && n < 9; ++i) ++n; REQ(n == 2); return 0; }"""),
dict(id='c22_empty', property='C22', edits=[('replace.hpp',"""            if (iter_ == fmt_.cend())
                out_ = std::copy(results_.first, results_.second, out_);
            else
                out_ =""","""            if (iter_ == fmt_.cend() || iter_->second.empty())
                out_ = std::copy(results_.first, results_.second, out_);
            else
                out_ =""")],
  needs='an empty replacement in the map of ids', breaks='matches that should be deleted stay',
  demo=H + r"""
#include <lexertl/replace.hpp>
#include <iterator>
int main() { rules r; state_machine sm; r.push("a+", 1); r.push("b", 2); generator::build(r, sm); std::string s("xaabx"), o; std::map<uint16_t, std::string> f; f[1] = ""; f[2] = "q";
  replace(std::back_inserter(o), s.cbegin(), s.cend(), sm, f); REQ(o == "xqx"); return 0; }"""),
dict(id='c24_size', property='C24', edits=[('memory_file.hpp',"""                _data = nullptr;
                _size = 0;""","""                _data = nullptr;""")],
  needs='a file that opens, then a file that does not', breaks='size() is that of the file closed before',
  demo=H + r"""
#include <lexertl/memory_file.hpp>
int main() { std::FILE* f = std::fopen("scratch.txt", "wb"); std::fputs("hello", f); std::fclose(f); memory_file m("scratch.txt"); REQ(m.size() == 5); m.open("not/there"); REQ(m.data() == nullptr); REQ(m.size() == 0); return 0; }"""),
dict(id='c27_late_check', property='C27', edits=[('generator.hpp',"""            check_suppressed(rules_, unique_id_, used_ids_);
            // If""","""            // If"""),('generator.hpp',"""            sm_.swap(temp_sm_);""","""            sm_.swap(temp_sm_);
            check_suppressed(rules_, unique_id_, used_ids_);""")],
  needs='a build that fails because a rule is hidden, into a machine in use', breaks='the machine is replaced although the build failed',
  demo=H + r"""
int main() { rules r, q; state_machine sm; r.push("a", 1); generator::build(r, sm); q.push("b", 2); q.push("b", 3); bool t = false; try { generator::build(q, sm); } catch (const runtime_error&) { t = true; } REQ(t);
  std::string s("a"); smatch m(s.begin(), s.end()); lookup(sm, m); REQ(m.id == 1); return 0; }"""),
dict(id='c28_star', property='C28', edits=[('rules.hpp','''                    next_dfas_.push_back(i_);''','''                    if (!_regexes[i_].empty() || i_ == 0)
                        next_dfas_.push_back(i_);''')],
  needs="a rule for '*' added before a start state has rules of its own", breaks="the rule is left out of that state",
  demo=H + r"""
int main() { rules r; state_machine sm; r.push_state("A"); r.push("*", "c", 3, "."); r.push("INITIAL", "a", 1, "A"); r.push("A", "b", 2, "."); generator::build(r, sm);
  std::string s("ac"); smatch m(s.begin(), s.end()); lookup(sm, m); REQ(m.id == 1); lookup(sm, m); REQ(m.id == 3); return 0; }"""),
dict(id='c29_two', property='C29', edits=[('rules.hpp','const bool multiple_ = iter_->second.size() > 3;','const bool multiple_ = iter_->second.size() > 4;')],
  needs='a macro of exactly two tokens under a repeat', breaks='the repeat applies to the last token of the macro only',
  demo=H + r"""
int main() { rules r; state_machine sm; r.insert_macro("AB", "ab"); r.push("{AB}+c", 1); generator::build(r, sm); std::string s("ababc"); smatch m(s.begin(), s.end()); lookup(sm, m); REQ(m.id == 1); REQ(m.second == s.end()); return 0; }"""),
dict(id='c31_nested', property='C31', edits=[('rules.hpp',"""                        stack_.push(iter_);
                        ++iter_;""","""                        stack_.push(stack_.size() < 2 ? iter_ : end_);
                        ++iter_;""")],
  needs='repeated groups nested three deep in a reversed rule', breaks='the repeat of the innermost group is lost',
  demo=H + r"""
int main() { rules r; state_machine sm; r.push("(x(y(ab)+z)*w)+q", 1); r.reverse(); generator::build(r, sm); std::string s("qwzbabayx"); smatch m(s.begin(), s.end()); lookup(sm, m); REQ(m.id == 1); REQ(m.second == s.end()); return 0; }"""),
dict(id='c34_last', property='C34', edits=[('generator.hpp','if (used_ids_.find(id_ + 1) == used_ids_.end())','if (id_ + 1 != unique_id_ && used_ids_.find(id_ + 1) == used_ids_.end())')],
  needs='the rule added last to the last start state is the hidden one', breaks='the hidden rule is not reported',
  demo=H + r"""
int main() { rules r; state_machine sm; r.push("[a-z]+", 1); r.push("if", 2); bool t = false; try { generator::build(r, sm); } catch (const runtime_error&) { t = true; } REQ(t); return 0; }"""),

dict(id='c23_live', property='C23', edits=[('stream_shared_iterator.hpp',"""                _shared->_clients.push_back(this);
                _live = true;""","""                _shared->_clients.push_back(this);
                _live = rhs_._live;""")],
  needs='an iterator copied from one that has not been read yet, then assigned on, and a token longer than the buffer', breaks='copies of copies are not told when the buffer moves',
  demo=H + r"""
#include <lexertl/stream_shared_iterator.hpp>
#include <sstream>
int main() { std::istringstream in("abcdefghijklmnopqrstuvwxyz"); stream_shared_iterator it(in, 4, 4), c(it), d; d = c; ++d; ++d; stream_shared_iterator f(d), e; c = d; e = d; std::string got;
  stream_shared_iterator end; for (; d != end; ++d) got += *d; REQ(got == "cdefghijklmnopqrstuvwxyz"); std::string again; for (; e != end; ++e) again += *e; REQ(again == got); return 0; }"""),
dict(id='c33_comment', property='C33', edits=[('parser/tokeniser/re_tokeniser.hpp',"""                    if (ch_ == '(')
                    {
                        ++paren_count_;
                    }
                    else if""","""                    if""")],
  needs='a regex comment holding brackets of its own', breaks='the comment ends at the first closing bracket',
  demo=H + r"""
int main() { rules r; state_machine sm; r.push("a(?#x(y)(?#z\\))b", 1); generator::build(r, sm); rules q; q.push("(a(?#x(y)z)b)c", 1); generator::build(q, sm); std::string s("abc"); smatch m(s.begin(), s.end()); lookup(sm, m); REQ(m.id == 1); REQ(m.second == s.end()); return 0; }"""),
dict(id='c02_nullable', property='C02', edits=[('parser/tree/sequence_node.hpp',"""            if (_right->nullable())
            {
                _left->append_lastpos""","""            if (_right->nullable() && !_left->nullable())
            {
                _left->append_lastpos""")],
  needs='two neighbours that can both be empty, the second skipped', breaks='a rule cannot end after the first of them',
  demo=H + r"""
int main() { rules r; state_machine sm; r.push("x(a*b*)", 1); generator::build(r, sm); std::string s("xaa"); smatch m(s.begin(), s.end()); lookup(sm, m); REQ(m.id == 1); REQ(m.second == s.end()); return 0; }"""),
dict(id='c25_bol', property='C25', edits=[('generate_cpp.hpp',"""                    os_ << "                end_bol_ = bol_;\\n";
                }

                os_ << "                end_token_""","""                    os_ << "                end_bol_ = true;\\n";
                }

                os_ << "                end_token_""")],
  needs="generated code for a lexer with '^' and '$' rules, a '$' match at the end of input, and the results used again", breaks='the line-start flag is set after the match',
  demo=H + r"""
#include <lexertl/generate_cpp.hpp>
#include <sstream>
#include <fstream>
#include <cstdlib>
int main() { rules r; state_machine sm; r.push("ab$", 1); r.push("^c", 2); r.push("[a-z]", 3); generator::build(r, sm); std::ofstream o("gen.cpp");
  o << "#include <lexertl/match_results.hpp>\n#include <lexertl/runtime_error.hpp>\n#include <string>\n"; table_based_cpp::generate("gl", sm, false, o);
  o << "int main() { std::string s(\"cab\"); lexertl::smatch m(s.begin(), s.end()); gl(m); gl(m); return m.id == 1 && !m.bol ? 0 : 1; }\n"; o.close();
  const char* i = std::getenv("LEXERTL_INC"); REQ(i); REQ(std::system((std::string("g++ -std=c++17 -w -I \"") + i + "\" gen.cpp -o gen && ./gen").c_str()) == 0); return 0; }"""),
dict(id='c37_rows', property='C37', edits=[('generator.hpp',"""            if (dfa_.size() / dfa_alphabet_ >= sm_traits::npos())""","""            if (dfa_.size() / dfa_alphabet_ > sm_traits::npos() + std::size_t(1))""")],
  needs='a rule set whose DFA has exactly as many rows as the id type has values', breaks='the lexer is accepted and its last row cannot be reached',
  demo=H + r"""
int main() { using R = basic_rules<char, char, uint8_t>; using S = basic_state_machine<char, uint8_t>;
  for (int n = 240; n < 262; ++n) { R r; S sm; r.push("a{" + std::to_string(n) + "}", 1); try { basic_generator<R, S>::build(r, sm); } catch (const runtime_error&) { continue; }
    std::string s(n, 'a'); match_results<std::string::iterator, uint8_t> m(s.begin(), s.end()); lookup(sm, m); REQ(m.id == 1); REQ(m.second == s.end()); } return 0; }"""),
dict(id='c37_states', property='C37', edits=[('rules.hpp',"""            if (_next_dfas.size() > npos())""","""            if (_next_dfas.size() - 1 > npos())""")],
  needs='exactly as many start states as the id type has values', breaks='the rules are accepted and the last state cannot be entered',
  demo=H + r"""
int main() { using R = basic_rules<char, char, uint8_t>; using S = basic_state_machine<char, uint8_t>;
  for (int n = 252; n < 260; ++n) { R r; S sm; try { for (int i = 1; i < n; ++i) r.push_state(("S" + std::to_string(i)).c_str());
      for (int i = 0; i < n; ++i) r.push(i ? ("S" + std::to_string(i)).c_str() : "INITIAL", "a", 1 + i % 200, i + 1 < n ? ("S" + std::to_string(i + 1)).c_str() : "INITIAL"); basic_generator<R, S>::build(r, sm); } catch (const runtime_error&) { continue; }
    std::string s(n, 'a'); match_results<std::string::iterator, uint8_t> m(s.begin(), s.end()); for (int i = 0; i < n; ++i) { lookup(sm, m); REQ(m.id == 1 + i % 200); } } return 0; }"""),
]
