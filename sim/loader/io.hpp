// Storage seam: however the loaders open and read the file (streams, stdio, descriptors), the open and read calls come
// here (link-time interposition). The simulated disk holds one file, kept in memory under a path of its own, so that seeking,
// its size and mapping it work as on a real disk; every read is answered as the next step of the trace says.
#pragma once
#include <cstddef>
#include <set>
#include <string>
#include <vector>
namespace io {
struct Step { long long n; int kind; };          // kind 0: at most n bytes, 1: EINTR, 2: EIO from here on
struct Disk {
  std::string path, data; int openErrno = 0;     // openErrno != 0: the file cannot be opened
  std::vector<Step> steps; size_t at = 0, pos = 0; int store = -1; std::set<int> fds;
  long long reads = 0, shortReads = 0, eintr = 0, eio = 0, opens = 0;
};
extern Disk disk;
void store(const std::string& data, int openErrno);   // put the file on the disk
void eject();                                          // take it off
}
