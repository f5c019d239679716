// OutputBuffer, Logger and unique file names.
// cfg: which (0 OutputBuffer, 1 Logger, 2 the log level from the environment, 3 make_unique_filename,
// 4 initialize_io and finalize_io), k, len
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <iostream>
#include <new>
#include <ostream>
#include <string>
#include "../rt/verif.h"
#include "umpire/util/Logger.hpp"
#include "umpire/util/MPI.hpp"
#include "umpire/util/OutputBuffer.hpp"
#include "umpire/util/error.hpp"
#include "umpire/util/io.hpp"
using umpire::util::Logger;
using umpire::util::OutputBuffer;
namespace message = umpire::util::message;
typedef uint64_t u64;

namespace {
// a stream that records what reaches it, and fails when told to
struct Sink : std::streambuf {
  char got[256];
  int n = 0, syncs = 0;
  bool failPut = false, failSync = false;
  int overflow(int c) override
  {
    if (c == EOF) return 0;
    if (failPut) return EOF;
    if (n < 256) got[n] = (char)c;
    ++n;
    return c;
  }
  int sync() override
  {
    ++syncs;
    return failSync ? -1 : 0;
  }
};

void outputBuffer()
{
  const u64 K = sym_config("k", 3);
  Sink s[3];
  std::ostream os0(&s[0]), os1(&s[1]), os2(&s[2]);
  std::ostream* os[3] = {&os0, &os1, &os2};
  char want[3][64];
  int nw[3] = {0, 0, 0}, sy[3] = {0, 0, 0};
  int con = -1, fil = -1;
  {
    // in memory that held something before
    alignas(16) static unsigned char mem[sizeof(OutputBuffer)];
    memset(mem, 0xA5, sizeof mem);
    OutputBuffer& b = *new (mem) OutputBuffer;
    for (u64 k = 0; k < K; ++k) {
      switch (sym_choice(6, "op")) {
        case 0: {
          con = (int)sym_choice(3, "console") - 1;
          b.setConsoleStream(con < 0 ? nullptr : os[con]);
          COVER("console");
          break;
        }
        case 1: {
          fil = (int)sym_choice(3, "file") - 1;
          if (fil >= 0) fil = 2 - fil;  // 2 or 1: may be the console's stream too
          b.setFileStream(fil < 0 ? nullptr : os[fil]);
          COVER("file");
          break;
        }
        case 2: {  // one character
          unsigned char c = sym_u8("char");
          unsigned f = sym_choice(4, "fails");
          for (int i = 0; i < 3; ++i) s[i].failPut = false;
          if (con >= 0 && (f & 1)) s[con].failPut = true;
          if (fil >= 0 && (f & 2)) s[fil].failPut = true;
          bool bad = (con >= 0 && s[con].failPut) || (fil >= 0 && s[fil].failPut);
          int r = b.sputc((char)c);
          ASSERT((r == EOF) == bad, "a character is refused exactly when an attached stream refuses it");
          if (!bad) ASSERT(r == c, "writing a character gives that character");
          if (con >= 0 && !s[con].failPut) want[con][nw[con]++] = (char)c;
          if (fil >= 0 && !s[fil].failPut) want[fil][nw[fil]++] = (char)c;
          if (bad) COVER("refused");
          else
            COVER("char");
          break;
        }
        case 3: {  // several characters
          char t[3];
          for (int i = 0; i < 3; ++i) t[i] = (char)sym_u8("text"), s[i].failPut = false;
          u64 m = sym_choice(4, "length");
          ASSERT((u64)b.sputn(t, (std::streamsize)m) == m, "all characters of a text are written");
          for (u64 i = 0; i < m; ++i) {
            if (con >= 0) want[con][nw[con]++] = t[i];
            if (fil >= 0) want[fil][nw[fil]++] = t[i];
          }
          COVER("text");
          break;
        }
        case 4: {
          unsigned f = sym_choice(4, "fails");
          for (int i = 0; i < 3; ++i) s[i].failSync = false;
          if (con >= 0 && (f & 1)) s[con].failSync = true;
          if (fil >= 0 && (f & 2)) s[fil].failSync = true;
          bool bad = (con >= 0 && s[con].failSync) || (fil >= 0 && s[fil].failSync);
          int r = b.pubsync();
          ASSERT((r == 0) == !bad, "flushing succeeds exactly when every attached stream can be flushed");
          if (con >= 0) ++sy[con];
          if (fil >= 0) ++sy[fil];
          for (int i = 0; i < 3; ++i) ASSERT((s[i].syncs > 0) == (sy[i] > 0), "flushing flushes every attached stream");
          COVER(bad ? "flush-failed" : "flush");
          break;
        }
        default: {
          ASSERT(b.overflow(EOF) != EOF, "end of file is no character to write");
          COVER("eof");
        }
      }
      int ok = 1;
      for (int i = 0; i < 3; ++i) {
        ASSERT(s[i].n == nw[i], "exactly the attached streams get the characters written");
        for (int j = 0; j < nw[i]; ++j) ok = ok & (s[i].got[j] == want[i][j]);
      }
      ASSERT(ok, "every attached stream gets every character, in order");
    }
    for (int i = 0; i < 3; ++i) s[i].syncs = 0;
    b.~OutputBuffer();
  }
  for (int i = 0; i < 3; ++i)
    ASSERT((s[i].syncs > 0) == (i == con || i == fil), "destroying the buffer flushes the attached streams");
  COVER("end");
}

const char* const kLevel[4] = {"ERROR", "WARNING", "INFO", "DEBUG"};
Sink logged;
std::ostream& hookLog()
{
  std::ostream& o = umpire::log();
  o.rdbuf(&logged);
  o.clear();
  return o;
}
void expectLine(int level, const char* file, int line, const char* text)
{
  char w[200];
  int n = 0;
  auto put = [&](const char* t) {
    while (*t) w[n++] = *t++;
  };
  put("[");
  put(kLevel[level]);
  put("][");
  put(file);
  put(":");
  char d[12];
  int i = 12;
  unsigned v = line < 0 ? 0u - (unsigned)line : (unsigned)line;
  do d[--i] = (char)('0' + v % 10), v /= 10;
  while (v);
  if (line < 0) d[--i] = '-';
  for (; i < 12; ++i) w[n++] = d[i];
  put("]:");
  for (int j = 0; text[j]; ++j) w[n++] = text[j];
  put("\n");
  ASSERT(logged.n == n, "a logged message is exactly one line of level, file, line and text");
  int ok = 1;
  for (int j = 0; j < n; ++j) ok = ok & (logged.got[j] == w[j]);
  ASSERT(ok, "a logged message is exactly one line of level, file, line and text");
}
void logger(int level0)
{
  const u64 K = sym_config("k", 2);
  hookLog();
  Logger* l = Logger::getActiveLogger();
  ASSERT(l == Logger::getActiveLogger(), "there is one logger");
  int level = level0;
  static const char* const kFile[4] = {"f", "a/file.cpp", "", "/some/longer/path/of/a/source/file.cpp"};
  static const int kLine[4] = {0, 123456, -5, 7};
  for (u64 k = 0; k < K; ++k) {
    if (sym_choice(2, "op") == 0) {
      level = (int)sym_choice(5, "level");
      l->setLoggingMsgLevel((message::Level)level);
      COVER("set-level");
    } else {
      int m = (int)sym_choice(8, "message-level");
      const bool on = m < 4 && m <= level;
      ASSERT(l->logLevelEnabled((message::Level)m) == on, "a level is enabled exactly when it is not above the configured one");
      logged.n = 0;
      static const int kLen[4] = {3, 0, 20, 1};
      const unsigned t = sym_choice(4, "text");
      char text[24];
      for (int i = 0; i < kLen[t]; ++i) {
        text[i] = (char)sym_u8("char");
        ASSUME(text[i] != 0);
      }
      text[kLen[t]] = 0;
      l->logMessage((message::Level)m, text, kFile[t], kLine[t]);
      if (!on)
        ASSERT(logged.n == 0, "messages above the configured level are not logged");
      else
        expectLine(m, kFile[t], kLine[t], text);
      COVER(on ? "logged" : "not-logged");
    }
  }
  COVER("end");
}
void environment()
{
  const u64 len = sym_config("len", 7);
  static char v[16];
  u64 n = sym_choice((unsigned)len + 1, "length");
  for (u64 i = 0; i < n; ++i) {
    v[i] = (char)sym_u8("env");
    ASSUME(v[i] != 0);
  }
  v[n] = 0;
  int want = 2;
  for (int l = 0; l < 4; ++l) {
    if (strlen(kLevel[l]) != n) continue;
    int same = 1;
    for (u64 i = 0; i < n; ++i) same = same & ((v[i] == kLevel[l][i]) | (v[i] == kLevel[l][i] + 32));
    if (same) want = l, COVER(kLevel[l]);
  }
  setenv("UMPIRE_LOG_LEVEL", v, 1);
  Logger* l = Logger::getActiveLogger();
  int ok = 1;
  for (int i = 0; i < 4; ++i) ok = ok & (l->logLevelEnabled((message::Level)i) == (i <= want));
  ASSERT(ok, "the environment's level is taken without regard to case, anything else leaves the default");
  COVER("end");
}

// files present when a unique name is asked for: natively real ones in a scratch directory
char fileName[24][96];
int nFiles = 0;
void touch(const std::string& n)
{
  strcpy(fileName[nFiles++], n.c_str());
  if (sym_is_native()) {
    FILE* f = fopen(n.c_str(), "w");
    if (f) fclose(f);
  }
}
void uniqueName()
{
  char dir[32] = "/tmp/verif-io-XXXXXX";
  if (sym_is_native()) {
    if (!mkdtemp(dir)) return;
  }
  const std::string base(dir);
  static const int kPid[3] = {1, 4242, 10};
  const int pid = kPid[sym_choice(3, "pid")];
  const unsigned e = sym_choice(2, "ext"), nm = sym_choice(2, "name");
  const std::string ext = e ? "log" : "error", name = nm ? "umpire" : "some_rather_long_base_name";
  // any set of the first few numbers is taken, and perhaps all of the first 10
  const unsigned many = sym_choice(3, "many") * 5, N = 3;
  const unsigned mask = sym_choice(1u << N, "taken");
  auto nth = [&](unsigned i) { return base + "/" + name + "." + std::to_string(pid) + "." + std::to_string(i) + "." + ext; };
  for (unsigned i = 0; i < many; ++i) touch(nth(i));
  for (unsigned i = 0; i < N; ++i)
    if (mask >> i & 1) touch(nth(many + i));
  touch(base + "/" + name + "." + std::to_string(pid) + ".0." + (e ? "error" : "log"));
  unsigned want = many;
  while (want < many + N && (mask >> (want - many) & 1)) ++want;
  const std::string got = umpire::util::make_unique_filename(base, name, pid, ext);
  ASSERT(!umpire::util::file_exists(got), "a unique name is that of no existing file");
  ASSERT(got == nth(want), "a unique name is the first free one of its directory, name, process and extension");
  bool ok = true;
  for (int i = 0; i < nFiles; ++i) ok = ok && umpire::util::file_exists(fileName[i]);
  ASSERT(ok, "an existing file is reported as existing");
  for (int i = 0; i < nFiles; ++i)
    if (sym_is_native()) remove(fileName[i]);
  if (sym_is_native()) remove(dir);
  COVER(want ? "taken" : "free");
  COVER("end");
}

// the output streams are set up: in the engine a directory and the files in it are modelled, natively they are real
struct Dir {
  std::string path;
  int state;  // 0 missing, 1 a directory, 2 a file
} dir;
std::string madeName, made;
int nMade = 0, nMkdir = 0;
std::string slurp(const std::string& n)
{
  if (!sym_is_native()) return n == madeName ? made : "";
  std::string r;
  FILE* f = fopen(n.c_str(), "r");
  for (int c; f && (c = fgetc(f)) != EOF;) r += (char)c;
  if (f) fclose(f);
  return r;
}
void setup()
{
  char scratch[40] = "/tmp/verif-setup-XXXXXX";
  if (sym_is_native() && !mkdtemp(scratch)) return;
  const std::string root(scratch);
  const bool log = sym_choice(2, "log"), mpi = sym_choice(2, "mpi");
  dir.path = root + "/out";
  dir.state = (int)sym_choice(3, "directory");
  const int had = dir.state;
  const unsigned base = sym_choice(3, "base");
  const int taken = dir.state == 1 ? (int)sym_choice(3, "taken") : 0;
  static const char* const kBase[3] = {"umpire", "my-output", "nowhere/x"};  // the last cannot be created
  if (sym_is_native()) {
    if (dir.state == 1 && mkdir(dir.path.c_str(), 0700)) return;
    FILE* f = dir.state == 2 ? fopen(dir.path.c_str(), "w") : nullptr;
    if (f) fclose(f);
  }
  setenv("UMPIRE_OUTPUT_DIR", dir.path.c_str(), 1);
  if (base) setenv("UMPIRE_OUTPUT_BASENAME", kBase[base], 1);
  auto nth = [&](int i) { return dir.path + "/" + kBase[base] + "." + std::to_string((int)getpid()) + "." + std::to_string(i) + ".log"; };
  if (base < 2)
    for (int i = 0; i < taken; ++i) touch(nth(i));
  Sink con, out;
  std::streambuf *c0 = std::cerr.rdbuf(&con), *o0 = std::cout.rdbuf(&out);
  std::cerr.clear();
  std::cout.clear();
  if (mpi) umpire::util::MPI::initialize();
  bool threw = false;
  try {
    umpire::util::initialize_io(log);
  } catch (umpire::runtime_error&) {
    threw = true;
  }
  const bool dirOk = had == 1 || (mpi && had == 0);
  const bool want = !dirOk || (log && base == 2);
  ASSERT(threw == want, "output that cannot go where it was configured is reported, any other is set up");
  if (threw) {
    COVER("refused");
  } else {
    if (had == 0) COVER(log ? "directory-made" : "no-directory");
    const std::string f = nth(base < 2 ? taken : 0);
    if (sym_is_native()) {
      struct stat st;
      const bool there = !stat(f.c_str(), &st);
      ASSERT(there == log, "the log file is made exactly when logging is enabled, with the first free name");
    } else
      ASSERT(nMade == (log ? 1 : 0) && (!log || madeName == f), "the log file is made exactly when logging is enabled, with the first free name");
    if (!sym_is_native() && had == 0) ASSERT(nMkdir == (log ? 1 : 0), "a missing output directory is made exactly when logging is enabled");
    con.n = out.n = 0;
    char t[4] = {(char)sym_u8("char"), 'b', (char)sym_u8("char"), 0};
    ASSUME(((t[0] != 0) & (t[2] != 0)));
    umpire::log() << t << "1";
    ASSERT(con.n == 0 && out.n == 0, "log messages do not go to the console");
    umpire::error() << "E" << t;
    ASSERT(out.n == 0, "error messages go to the standard error stream only");
    const bool viaFlush = sym_choice(2, "flush");
    if (viaFlush) {
      con.syncs = 0;
      umpire::util::flush_files();
      ASSERT(con.syncs > 0, "flushing the output flushes the standard error stream");
      ASSERT(slurp(f) == (log ? std::string(t) + "1" : std::string()), "what was logged is in the log file once flushed");
      umpire::log() << "2";
      COVER("flush");
    }
    con.syncs = 0;
    umpire::util::finalize_io();
    ASSERT(con.syncs > 0, "finishing the output flushes the standard error stream");
    const std::string all = log ? std::string(t) + (viaFlush ? "12" : "1") : std::string();
    ASSERT(slurp(f) == all, "what was logged is in the log file once output is finished");
    int ok = con.n == 4 && con.got[0] == 'E';
    for (int i = 0; i < 3; ++i) ok = ok & (con.got[1 + i] == t[i]);
    ASSERT(ok, "error messages go to the standard error stream");
    umpire::log() << "late" << std::flush;
    umpire::error() << "late" << std::flush;
    ASSERT(con.n == 4 && out.n == 0 && slurp(f) == all, "nothing reaches the streams once output is finished");
    if (sym_is_native()) remove(f.c_str());
    COVER(log ? "logged" : "not-logged");
  }
  std::cerr.rdbuf(c0);
  std::cout.rdbuf(o0);
  if (sym_is_native()) {
    for (int i = 0; i < nFiles; ++i) remove(fileName[i]);
    remove(dir.path.c_str());
    rmdir(scratch);
  }
  COVER("end");
}
}  // namespace
extern "C" {
int verif_stat(const char* n, struct stat* st)
{
  if (sym_is_native()) return stat(n, st);
  memset(st, 0, sizeof *st);
  if (dir.path != n || !dir.state) return -1;
  st->st_mode = dir.state == 1 ? S_IFDIR | 0755 : S_IFREG | 0644;
  return 0;
}
int verif_access(const char* n, int m)
{
  struct stat st;
  return sym_is_native() ? access(n, m) : verif_stat(n, &st);
}
int verif_mkdir(const char* n, mode_t m)
{
  if (sym_is_native()) return mkdir(n, m);
  if (dir.path != n || dir.state) return -1;
  ++nMkdir;
  dir.state = 1;
  return 0;
}
pid_t verif_getpid() { return getpid(); }
int verif_file_create(const char* n)
{
  if (dir.state != 1 || strncmp(n, dir.path.c_str(), dir.path.size()) || n[dir.path.size()] != '/' || strchr(n + dir.path.size() + 1, '/')) return 0;
  ++nMade;
  madeName = n;
  made.clear();
  return 1;
}
void verif_file_write(int, const char* t, long n) { made.append(t, (size_t)n); }
}
extern "C" int verif_file_exists(const char* n)
{
  if (!madeName.empty() && madeName == n) return 1;
  for (int i = 0; i < nFiles; ++i)
    if (!strcmp(n, fileName[i])) return 1;
  return 0;
}

extern "C" void harness_main()
{
  switch (sym_config("which", 0)) {
    case 0: outputBuffer(); break;
    case 1: logger(2); break;
    case 2: environment(); break;
    case 3: uniqueName(); break;
    case 4: setup(); break;
  }
}
