// helpers shared by several harnesses
#pragma once
#include "vf.hpp"
#include <sys/stat.h>
#include <dirent.h>
#include <fstream>
#include <unistd.h>
inline int64_t disk_size(const std::string& f) { struct stat s; return ::stat(f.c_str(), &s) ? -1 : (int64_t)s.st_size; }
inline std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
inline void spit(const std::string& f, const std::string& d) { std::ofstream o(f, std::ios::binary); o << d; }
inline std::vector<std::string> ls(const std::string& d)
{
    std::vector<std::string> r;
    if (DIR* p = opendir(d.c_str())) { while (auto e = readdir(p)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) r.push_back(e->d_name); closedir(p); }
    std::sort(r.begin(), r.end());
    return r;
}
inline void clean_dir(const std::string& d) { for (auto& f : ls(d)) ::unlink((d + "/" + f).c_str()); }
