/* stands in for the configure-generated header */
#define HAVE_ICONV 1
#define HAVE_LIBZ 1
#define HAVE_STRERROR 1
#define ICONV_CONST
#define PACKAGE "scribbu"
#define PACKAGE_STRING "scribbu"
#define PACKAGE_VERSION "0"
