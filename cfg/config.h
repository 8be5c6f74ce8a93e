/* Stand-in for the generated configuration header, so that checks do not
   depend on /repo/_build. */
#ifndef MARC_CONFIG_H
#define MARC_CONFIG_H
#define FMT_HEADER_ONLY 1
#define HAVE_ARGP 1
#define HAVE_CXX17 1
#define HAVE_DLFCN_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define LT_OBJDIR ".libs/"
#define PACKAGE "marc"
#define PACKAGE_BUGREPORT "https://github.com/ossama-othman/MaRC/issues"
#define PACKAGE_NAME "MaRC"
#define PACKAGE_STRING "MaRC 0.10"
#define PACKAGE_TARNAME "marc"
#define PACKAGE_URL "https://ossama-othman.github.io/MaRC/"
#define PACKAGE_VERSION "0.10"
#define STDC_HEADERS 1
#define VERSION "0.10"
#define YYTEXT_POINTER 1
#endif
