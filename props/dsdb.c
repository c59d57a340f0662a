/* Makes, lists and removes the databases of the data server check (C36).
   dsdb KEY build < commands | dsdb KEY list | dsdb KEY drop
   Linked with the library under test; every command line of "build" is
     index COL | rec N followed by N values, one per line:
     n | i INT | d DOUBLE | f INT(1/10000) | s HEX [HEX] | u HEX [HEX] | x HEX HEX | c INT | D INT | T INT | v INT | b HEX | r NR (of an earlier record)
     set NR COL NR2 (makes a field refer to a record)
   It prints the id of every record in the order of creation; "list" prints id and length in the order of scanning. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "dbapi.h"
#include "indexapi.h"
static char buf[200000], a[100000], b[100000];
static int unhex(char *o, const char *s) { int n = 0; unsigned c; while (s[0] && s[1] && s[0] != ' ' && s[0] != '\n' && sscanf(s, "%2x", &c) == 1) { o[n++] = (char)c; s += 2; } o[n] = 0; return n; }
static void *rec[5000]; static int nrec;
int main(int argc, char **argv) {
  void *db; int n, i;
  if (argc < 3) return 2;
  if (!strcmp(argv[2], "drop")) { wg_delete_database(argv[1]); return 0; }
  if (!strcmp(argv[2], "list")) {
    void *r;
    if (!(db = wg_attach_existing_database(argv[1]))) { puts("none"); return 0; }
    printf("size %ld\n", (long)wg_database_size(db));
    for (r = wg_get_first_record(db); r; r = wg_get_next_record(db, r)) printf("%ld %ld\n", (long)wg_encode_record(db, r), (long)wg_get_record_len(db, r));
    return 0;
  }
  if (!(db = wg_attach_database(argv[1], 4000000))) return 3;
  while (fgets(buf, sizeof buf, stdin)) {
    if (sscanf(buf, "index %d", &n) == 1) { if (wg_create_index(db, n, WG_INDEX_TYPE_TTREE, NULL, 0)) return 4; }
    else if (!strncmp(buf, "set ", 4)) { int r, c, t; sscanf(buf, "set %d %d %d", &r, &c, &t); if (wg_set_field(db, rec[r], c, wg_encode_record(db, rec[t]))) return 5; }
    else if (sscanf(buf, "rec %d", &n) == 1) {
      void *r = wg_create_record(db, n);
      if (!r || nrec >= 5000) return 6;
      rec[nrec++] = r;
      for (i = 0; i < n; i++) {
        wg_int e = 0; char *s, *x; long v; int l;
        if (!fgets(buf, sizeof buf, stdin)) return 7;
        s = buf + 2; x = strchr(s, ' '); v = atol(s); l = buf[0] == 'n' ? 0 : unhex(a, s); if (x) unhex(b, x + 1);
        switch (buf[0]) {
        case 'n': e = wg_encode_null(db, NULL); break;
        case 'i': e = wg_encode_int(db, v); break;
        case 'd': e = wg_encode_double(db, strtod(s, NULL)); break;
        case 'f': e = wg_encode_fixpoint(db, v / 10000.0); break;
        case 's': e = wg_encode_str(db, a, x ? b : NULL); break;
        case 'u': e = wg_encode_uri(db, a, x ? b : NULL); break;
        case 'x': e = wg_encode_xmlliteral(db, a, b); break;
        case 'c': e = wg_encode_char(db, (char)v); break;
        case 'D': e = wg_encode_date(db, v); break;
        case 'T': e = wg_encode_time(db, v); break;
        case 'v': e = wg_encode_var(db, v); break;
        case 'b': e = wg_encode_blob(db, a, NULL, l); break;
        case 'r': e = wg_encode_record(db, rec[v]); break;
        default: return 8;
        }
        if (wg_set_field(db, r, i, e)) return 9;
      }
    } else return 10;
  }
  for (i = 0; i < nrec; i++) printf("%ld\n", (long)wg_encode_record(db, rec[i]));
  return 0;
}
