// whole directories as values
#ifndef VERIF_FILES_HPP
#define VERIF_FILES_HPP
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include "image.hpp"
namespace fs_ {
using std::string;
inline void wipe(string const& p) {
  struct stat st;
  if (lstat(p.c_str(), &st)) return;
  if (S_ISDIR(st.st_mode)) {
    if (auto* d = opendir(p.c_str())) {
      while (auto* e = readdir(d))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) wipe(p + "/" + e->d_name);
      closedir(d);
    }
    rmdir(p.c_str());
  } else
    unlink(p.c_str());
}
inline void list(string const& d, string const& rel, std::map<string, string>& out) {
  DIR* h = opendir((d + rel).c_str());
  if (!h) return;
  while (auto e = readdir(h)) {
    string n = e->d_name;
    if (n == "." || n == "..") continue;
    string r = rel + "/" + n;
    struct stat st;
    if (lstat((d + r).c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) {
      out[r + "/"] = "";
      list(d, r, out);
    } else
      out[r] = im::slurp(d + r);
  }
  closedir(h);
}
inline std::map<string, string> contents(string const& d) {
  std::map<string, string> m;
  list(d, "", m);
  return m;
}
}  // namespace fs_
#endif
