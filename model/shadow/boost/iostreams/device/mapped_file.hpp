// Stand-in for a memory-mapped file over the in-memory file system: fixed size, written in place.
#ifndef VP_SHADOW_MAPPED_FILE
#define VP_SHADOW_MAPPED_FILE
#include "vpfs.hh"
#include <ios>
#include <string>
namespace boost { namespace iostreams {
  class mapped_file_base { public: enum mapmode { readonly = 1, readwrite = 2, priv = 4 }; };
  class mapped_file: public mapped_file_base {
  public:
    typedef char char_type; mapped_file() {}
    template <class P> explicit mapped_file(const P &p, mapmode = readwrite, size_t = size_t(-1), long = 0) { open(p); } template <class P> mapped_file(const P &p, std::ios_base::openmode, size_t = size_t(-1), long = 0) { open(p); }
    template <class P> void open(const P &p) { std::string n(p); bool t, d; size_t z; int e = vpfs::lookup(n, &t, &d, &z); if (e || !t || d || !z) throw std::ios_base::failure("failed mapping file"); name_ = vpfs::abs(n); size_ = z; }
    bool is_open() const { return !name_.empty(); } void close() { name_.clear(); } size_t size() const { return size_; } const std::string &vp_name() const { return name_; }
    char *data() const { vpfs::node *p = vpfs::find(name_); return p ? &p->data[0] : 0; } const char *const_data() const { return data(); } char *begin() const { return data(); } char *end() const { return data() + size_; }
  private: std::string name_; size_t size_ = 0;
  };
  typedef mapped_file mapped_file_sink; typedef mapped_file mapped_file_source;
} }
#endif
