// Stands in for the filesystem library (a submodule that is not there offline), by its assumed contract:
// each operation acts on the path it is given and says whether it succeeded.  fsop records it.
#pragma once
#include <string>
extern "C" int fsop(int op, const std::string *path);
namespace filesystem
{
class path
{
 public:
  path() {}
  path(const std::string &s) : m(s) {}
  path(const char *s) : m(s) {}
  bool exists() const { return fsop(0, &m) != 0; }
  bool remove_file() { return fsop(1, &m) != 0; }
  bool is_file() const { return fsop(5, &m) != 0; }
  bool is_directory() const { return fsop(6, &m) != 0; }
  path &operator=(const std::string &s)
  {
    m = s;
    return *this;
  }
  bool operator==(const path &p) const { return m == p.m; }
  bool operator!=(const path &p) const { return !(m == p.m); }
  const std::string &str() const { return m; }
  std::size_t length() const { return m.size(); }
  bool empty() const { return m.empty(); }

 private:
  std::string m;
};
inline bool create_directories(const path &p) { return fsop(2, &p.str()) != 0; }
inline bool remove_directories(const path &p) { return fsop(3, &p.str()) != 0; }
inline bool create_directory(const path &p) { return fsop(4, &p.str()) != 0; }
}  // namespace filesystem
