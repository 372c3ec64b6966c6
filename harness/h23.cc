// the file utilities act on the path they are given, and on nothing else
#include "gals/utilities/file-utils.h"
#include "vp.h"
static std::string given;   // the path handed to the utility
static int ops, op[4], result[4];
static std::string where[4];
extern "C" int fsop(int o, const std::string *p)
{
  if (o == 0) return *p == given && ops == 0 ? vp_int("existed", 0, 1) : vp_fnint("exists", 1, ops, 0, 0, 0, 1);
  if (o > 4) {  // a file or a directory: only where something exists, and not both
    if (!fsop(0, p)) return 0;
    const int dir = *p == given && ops == 0 ? vp_int("is_dir", 0, 1) : vp_fnint("is_dir", 1, ops, 0, 0, 0, 1);
    return o == 6 ? dir : 1 - dir;
  }
  vp_check("no more operations than needed", ops < 4);
  const int r = vp_fnint("result", o, ops, 0, 0, 0, 1);
  if (ops >= 4) return r;
  op[ops] = o, result[ops] = r, where[ops] = *p;
  ++ops;
  return r;
}
static void start()
{
  ops = 0;
  vp_text(&given, "path", 0);
}
// with a root directory of any name, or without one
static void root(GALS::UTILITIES::FileUtils &u)
{
  if (!vp_int("rooted", 0, 1)) return;
  std::string r;
  vp_text(&r, "root", 0);
  u.setRootDirectory(r);
}
extern "C" void vpC23_exists()
{
  start();
  GALS::UTILITIES::FileUtils u;
  root(u);
  const bool r = u.fileExists(given);
  vp_check("a file exists if the file system says so", r == (vp_int("existed", 0, 1) != 0));
  vp_eqi("asking changes nothing", ops, 0);
  vp_reach("end");
}
static void one(const char *name, int which, bool r)
{
  vp_eqi("one operation", ops, 1);
  vp_eqi(name, op[0], which);
  vp_check("on the path that was given", where[0] == given);
  vp_check("success is reported as it was", r == (result[0] != 0));
}
extern "C" void vpC23_remove_file()
{
  start();
  GALS::UTILITIES::FileUtils u;
  root(u);
  const bool r = u.removeFile(given);
  one("the file is removed", 1, r);
  vp_reach("end");
}
extern "C" void vpC23_create()
{
  start();
  GALS::UTILITIES::FileUtils u;
  root(u);
  const bool r = u.createDirectory(given);
  if (vp_int("existed", 0, 1)) {
    vp_check("a directory that exists is a success", r);
    vp_eqi("and nothing is done", ops, 0);
    vp_reach("existed");
  } else {
    one("the directories of the path are created", 2, r);
    vp_reach("created");
  }
  vp_reach("end");
}
extern "C" void vpC23_remove_directory()
{
  start();
  GALS::UTILITIES::FileUtils u;
  root(u);
  const bool r = u.removeDirectory(given);
  one("the directory is removed", 3, r);
  vp_reach("end");
}
extern "C" void vpC23_root()
{
  start();
  GALS::UTILITIES::FileUtils u, w;
  std::string a, b;
  vp_text(&a, "a", 0);
  vp_text(&b, "b", 0);
  vp_check("no root directory at first", u.getRootDirectory() == std::string());
  u.setRootDirectory(a);
  w.setRootDirectory(b);
  vp_check("the root directory is the one that was set", u.getRootDirectory() == a);
  vp_check("each has its own", w.getRootDirectory() == b);
  u.setRootDirectory(b);
  vp_check("the last one counts", u.getRootDirectory() == b);
  vp_eqi("nothing happens in the file system", ops, 0);
  vp_reach("end");
}
// the same object used again: each call does its own operation, on its own path
extern "C" void vpC23_history()
{
  start();
  GALS::UTILITIES::FileUtils u;
  std::string before;
  vp_text(&before, "before", 0);
  u.removeFile(before);
  u.removeDirectory(before);
  vp_eqi("two operations", ops, 2);
  u.setRootDirectory(before);
  const int which = vp_int("which", 1, 2);
  ops = 0;
  if (which == 1)
    one("the file is removed", 1, u.removeFile(given));
  else
    one("the directory is removed", 3, u.removeDirectory(given));
  ops = 0;
  one("the directory is removed again", 3, u.removeDirectory(given));
  vp_check("the root directory stays", u.getRootDirectory() == before);
  vp_reach("end");
}
extern "C" void vpC23_create_again()
{
  start();
  GALS::UTILITIES::FileUtils u;
  u.createDirectory(given);
  u.removeDirectory(given);
  ops = 0;
  const bool r = u.createDirectory(given);
  if (vp_int("existed", 0, 1)) {
    vp_check("a directory that exists is a success", r);
    vp_eqi("and nothing is done", ops, 0);
  } else
    one("the directories of the path are created again", 2, r);
  vp_reach("end");
}
