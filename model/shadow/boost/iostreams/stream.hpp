// Stand-in for boost::iostreams::stream over a mapped file.
#ifndef VP_SHADOW_BOOST_STREAM
#define VP_SHADOW_BOOST_STREAM
#include "vpfs.hh"
#include <iostream>
#include <streambuf>
namespace boost { namespace iostreams {
  class vp_map_buf: public std::streambuf {
  public:
    void attach(const std::string &n, size_t z) { name_ = n; size_ = z; }
  protected:
    int_type overflow(int_type c) override { if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c); char ch = c; return xsputn(&ch, 1) == 1 ? c : traits_type::eof(); }
    std::streamsize xsputn(const char *s, std::streamsize n) override { size_t room = size_ - pos_, k = (size_t)n < room ? n : room; if (k) vpfs::store(name_, pos_, s, k); pos_ += k; return k; }
    int_type underflow() override { vpfs::node *p = vpfs::find(name_); if (!p || pos_ >= size_) return traits_type::eof(); return traits_type::to_int_type(p->data[pos_]); }
    int_type uflow() override { int_type c = underflow(); if (!traits_type::eq_int_type(c, traits_type::eof())) ++pos_; return c; }
    int sync() override { return 0; }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override { off_type t = d == std::ios_base::beg ? o : d == std::ios_base::cur ? (off_type)pos_ + o : (off_type)size_ + o; if (t < 0 || t > (off_type)size_) return pos_type(off_type(-1)); pos_ = t; return pos_type(t); }
    pos_type seekpos(pos_type t, std::ios_base::openmode m) override { return seekoff(off_type(t), std::ios_base::beg, m); }
  private: std::string name_; size_t size_ = 0, pos_ = 0;
  };
  template <class D> class stream: public std::iostream {
    vp_map_buf b_;
  public:
    stream(): std::iostream(0) { this->init(&b_); } explicit stream(const D &d): std::iostream(0) { this->init(&b_); open(d); } void open(const D &d) { b_.attach(d.vp_name(), d.size()); } void close() { flush(); } bool is_open() const { return true; }
  };
} }
#endif
