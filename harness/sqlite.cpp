// sqlite_database: what is inserted is read back (store.cpp), over a model of the SQLite calls: one database per file name,
// the statements the store needs (CREATE TABLE, INSERT of text or json(text), SELECT *), run by exec or prepared.
#define STORE_SQLITE 1
#include "sqlite3.h"
#include "store.cpp"

struct sqlite3 {
  std::string file;
  int uses;
  bool table;
  std::vector<std::string> rows;
};
struct sqlite3_stmt {
  sqlite3* db;
  int kind;  // 0 other, 1 insert, 2 select
  std::string text;
  bool bound, param;
  size_t row;
};
namespace {
sqlite3 dbs[4];
int ndb = 0;
struct Sql {
  const char* p;
  bool ok = true;
  void ws()
  {
    while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p;
  }
  static char up(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
  bool word(const char* w)
  {
    ws();
    const char* q = p;
    while (*w && up(*q) == *w) ++q, ++w;
    if (*w) return false;
    p = q;
    return true;
  }
  bool upTo(char c)
  {
    while (*p && *p != c) ++p;
    if (!*p) return false;
    ++p;
    return true;
  }
  bool literal(std::string& out)
  {
    ws();
    if (*p != '\'') return false;
    ++p;
    for (;;) {
      if (!*p) return false;
      if (*p == '\'') {
        if (p[1] != '\'') break;
        ++p;
      }
      out += *p++;
    }
    ++p;
    return true;
  }
  bool end()
  {
    word(";");
    ws();
    return !*p;
  }
};
// SQLITE_OK or SQLITE_ERROR
int parse(sqlite3* db, const char* sql, sqlite3_stmt& s)
{
  Sql q{sql};
  s = sqlite3_stmt{db, 0, "", false, false, 0};
  if (q.word("CREATE") && q.word("TABLE")) {
    const bool ine = q.word("IF") && q.word("NOT") && q.word("EXISTS");
    if (!q.word("EVENTS") || !q.word("(") || !q.upTo(')') || !q.end()) return SQLITE_ERROR;
    if (db->table && !ine) return SQLITE_ERROR;
    db->table = true;
    return SQLITE_OK;
  }
  q.p = sql;
  if (q.word("INSERT")) {
    if (!q.word("INTO") || !q.word("EVENTS")) return SQLITE_ERROR;
    if (q.word("(") && !q.upTo(')')) return SQLITE_ERROR;
    if (!q.word("VALUES") || !q.word("(")) return SQLITE_ERROR;
    const bool js = q.word("JSON") && q.word("(");
    if (q.word("?")) {
      while (*q.p >= '0' && *q.p <= '9') ++q.p;
      s.param = true;
    } else if (!q.literal(s.text))
      return SQLITE_ERROR;
    if (js && !q.word(")")) return SQLITE_ERROR;
    if (!q.word(")") || !q.end() || !db->table) return SQLITE_ERROR;
    s.kind = 1;
    return SQLITE_OK;
  }
  if (q.word("SELECT")) {
    if (!q.word("*") && !q.word("EVENT")) return SQLITE_ERROR;
    if (!q.word("FROM") || !q.word("EVENTS") || !q.end() || !db->table) return SQLITE_ERROR;
    s.kind = 2;
    return SQLITE_OK;
  }
  if (q.word("BEGIN") || q.word("COMMIT") || q.word("PRAGMA")) return SQLITE_OK;
  return SQLITE_ERROR;
}
char msg[] = "error in the statement";
}  // namespace

extern "C" {
int sqlite3_open(const char* f, sqlite3** out)
{
  for (int i = 0; i < ndb; ++i)
    if (dbs[i].file == f) {
      dbs[i].uses++;
      *out = &dbs[i];
      return SQLITE_OK;
    }
  dbs[ndb].file = f;
  dbs[ndb].uses = 1;
  *out = &dbs[ndb++];
  return SQLITE_OK;
}
int sqlite3_open_v2(const char* f, sqlite3** out, int, const char*) { return sqlite3_open(f, out); }
int sqlite3_close(sqlite3* d)
{
  if (d) d->uses--;
  return SQLITE_OK;
}
int sqlite3_close_v2(sqlite3* d) { return sqlite3_close(d); }
const char* sqlite3_errstr(int) { return msg; }
const char* sqlite3_errmsg(sqlite3*) { return msg; }
void sqlite3_free(void*) {}
int sqlite3_exec(sqlite3* d, const char* sql, int (*cb)(void*, int, char**, char**), void* data, char** err)
{
  sqlite3_stmt s;
  if (err) *err = nullptr;
  const int rc = parse(d, sql, s);
  ASSERT(rc == SQLITE_OK && !s.param, "the statements are valid");
  if (rc != SQLITE_OK) {
    if (err) *err = msg;
    return rc;
  }
  if (s.kind == 1) d->rows.push_back(s.text);
  if (s.kind == 2 && cb)
    for (size_t i = 0; i < d->rows.size(); ++i) {
      char col[] = "EVENT";
      char* cols[1] = {col};
      std::string copy = d->rows[i];
      char* vals[1] = {&copy[0]};
      if (cb(data, 1, vals, cols)) return SQLITE_ABORT;
    }
  return SQLITE_OK;
}
int sqlite3_prepare_v2(sqlite3* d, const char* sql, int n, sqlite3_stmt** out, const char** tail)
{
  sqlite3_stmt* s = new sqlite3_stmt;
  const std::string text = n < 0 ? std::string(sql) : std::string(sql, strnlen(sql, (size_t)n));
  const int rc = parse(d, text.c_str(), *s);
  ASSERT(rc == SQLITE_OK, "the statements are valid");
  if (tail) *tail = nullptr;
  *out = s;
  return rc;
}
int sqlite3_bind_text(sqlite3_stmt* s, int i, const char* t, int n, void (*)(void*))
{
  if (i != 1 || !s->param) return SQLITE_RANGE;
  s->text = n < 0 ? std::string(t) : std::string(t, (size_t)n);
  s->bound = true;
  return SQLITE_OK;
}
int sqlite3_step(sqlite3_stmt* s)
{
  if (s->kind == 1) {
    s->db->rows.push_back(s->text);
    return SQLITE_DONE;
  }
  if (s->kind == 2 && s->row < s->db->rows.size()) {
    s->text = s->db->rows[s->row++];
    return SQLITE_ROW;
  }
  return SQLITE_DONE;
}
const unsigned char* sqlite3_column_text(sqlite3_stmt* s, int) { return (const unsigned char*)s->text.c_str(); }
int sqlite3_column_bytes(sqlite3_stmt* s, int) { return (int)s->text.size(); }
int sqlite3_reset(sqlite3_stmt* s)
{
  s->row = 0;
  return SQLITE_OK;
}
int sqlite3_clear_bindings(sqlite3_stmt*) { return SQLITE_OK; }
int sqlite3_finalize(sqlite3_stmt* s)
{
  delete s;
  return SQLITE_OK;
}
}
