// Assumed contract of the YAML library, as the input parser uses it: a node is
// the place a path of keys leads to; a scalar or a list read from a node depends on the
// document and that path only; a node may be absent, and nothing is read from a node that is
// (the library throws, and that is the end of the run).  Used instead of yaml-cpp when the
// input parser is verified; native replays use yaml-cpp itself.
#pragma once
#include <string>
#include <vector>
extern "C" {
int vp_int(const char *name, int lo, int hi);
double vp_fn(const char *fam, int m, int i, int j, int k);
int vp_fnint(const char *fam, int m, int i, int j, int k, int lo, int hi);
int vp_key(int parent, const char *key);
int vp_keys(int parent, const std::string *key);
void vp_text(std::string *out, const char *fam, int id);
void vp_assume(bool c);
}
namespace YAML
{
class Node
{
 public:
  Node() : m_id(0), m_item(-1) {}
  explicit Node(int id, int item = -1) : m_id(id), m_item(item) {}
  int id() const { return m_id; }
  const Node operator[](const char *key) const { return Node(vp_key(m_id, key)); }
  Node operator[](const char *key) { return Node(vp_key(m_id, key)); }
  const Node operator[](const std::string &key) const { return Node(vp_keys(m_id, &key)); }
  Node operator[](const std::string &key) { return Node(vp_keys(m_id, &key)); }
  const Node operator[](int item) const { return Node(m_id, item); }
  Node operator[](int item) { return Node(m_id, item); }
  std::size_t size() const { return length(); }
  int length() const { return vp_fnint("yaml_len", 0, m_id, 0, 0, 0, 1000000); }
  void read() const { vp_assume(IsDefined()); }
  bool IsDefined() const { return vp_fnint("yaml_has", 0, m_id, 0, 0, 0, 1) != 0; }
  explicit operator bool() const { return IsDefined(); }
  bool operator!() const { return !IsDefined(); }
  template <typename T>
  T as() const;

 private:
  int m_id, m_item;
};
template <>
inline double Node::as<double>() const
{
  read();
  return m_item < 0 ? vp_fn("yaml_num", 0, m_id, 0, 0) : vp_fn("yaml_num", 1, m_id, m_item, 0);
}
template <>
inline int Node::as<int>() const
{
  read();
  return m_item < 0 ? vp_fnint("yaml_int", 0, m_id, 0, 0, -2147483647, 2147483647) : vp_fnint("yaml_int", 1, m_id, m_item, 0, -2147483647, 2147483647);
}
template <>
inline std::string Node::as<std::string>() const
{
  read();
  std::string s;
  vp_text(&s, "yaml", m_id);
  return s;
}
template <>
inline std::vector<double> Node::as<std::vector<double>>() const
{
  read();
  const int n = length();
  std::vector<double> v(n);
  for (int i = 0; i < n; ++i) v[i] = vp_fn("yaml_num", 1, m_id, i, 0);
  return v;
}
template <>
inline std::vector<int> Node::as<std::vector<int>>() const
{
  read();
  const int n = length();
  std::vector<int> v(n);
  for (int i = 0; i < n; ++i) v[i] = vp_fnint("yaml_int", 1, m_id, i, 0, -2147483647, 2147483647);
  return v;
}
inline Node LoadFile(const std::string &file) { return Node(vp_keys(0, &file)); }
}  // namespace YAML
