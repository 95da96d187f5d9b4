// An in-memory file system standing in for the real one, with injected faults and stops.
// Used by the encoded code and by the native replay alike.
#ifndef VP_FS_HH
#define VP_FS_HH
#include <string>
#include <cerrno>
#include <cstddef>
namespace vpfs {
  struct node { std::string name, data; bool dir; };
  // what the harness sets up and looks at
  extern int fail_at;        // the n-th operation (from 1) fails; 0: none
  extern int stop_at;        // the process stops in the n-th changing operation (from 1); 0: never
  extern int partial;        // how much of the data the failing or stopping operation still moves: 0 none, 1 half, 2 all
  extern bool cross_device;  // names in different directories are on different devices
  extern bool stopped;       // after the stop nothing changes any more and every operation fails
  extern int ops, changes;   // operations and changing operations so far
  void reset();
  void put(const std::string &name, const std::string &data);
  node *find(const std::string &name);
  // for the stand-ins
  std::string abs(const std::string &name);
  bool step(bool changing, int err);          // false: fails, errno set
  size_t store(const std::string &name, size_t off, const char *p, size_t n);   // into mapped memory: cannot fail, but the process may stop in it
  size_t count(); node *at(size_t i);
  int create(const std::string &name, bool trunc);
  int write(const std::string &name, size_t off, const char *p, size_t n, size_t *done);
  int read_at(const std::string &name, size_t off, char *p, size_t n, size_t *done);
  int remove(const std::string &name, bool *was);
  int rename(const std::string &a, const std::string &b);
  int resize(const std::string &name, size_t n);
  int copy_data(const std::string &a, const std::string &b, bool append_error_if_exists, bool overwrite, bool *copied);
  int lookup(const std::string &name, bool *there, bool *dir, size_t *size);
}
#endif
