From d26c31e8ad82e58bc37e61783641cc108ded3c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 001/116] fix: keep the wanted size of the object after a
 retired designated victim

init_subarea_freespace rewrote the header of the object following the old
designated victim with the padded object size, so a zero length record there
became a record of length one (a minimum size object).
---
 Db/dballoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 2e9bf9b..7abf2a6 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -665,7 +665,7 @@ gint init_subarea_freespace(void* db, void* area_header, gint arrayindex) {
       nextobj = dv + dvsize;
       nextobjhead = dbfetch(db, nextobj);
       if( isnormalusedobject(nextobjhead) )
-        dbstore(db, nextobj, makeusedobjectsizeprevfree(getusedobjectsize(nextobjhead)));
+        dbstore(db, nextobj, makeusedobjectsizeprevfree(nextobjhead));
       if (freelist!=0) dbstore(db,freelist+2*sizeof(gint),dv); // update prev ptr
       dbstore(db,dv+sizeof(gint),freelist); // store previous freelist
       dbstore(db,dv+2*sizeof(gint),dbaddr(db,&freebuckets[dvindex])); // store ptr to previous
-- 
2.43.0


From e9569080238e61adbeff7f7c0c987b9a66d675d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:16 +0000
Subject: [PATCH 002/116] fix: walk the current backlink chain after a self
 link was replaced

---
 Db/dbdata.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 66c3c3a..12c9e85 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -779,10 +779,15 @@ setfld_backlink_removed:
 #endif
 
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
-  /* Create new entries in indexes in all referring records */
+  /* Create new entries in indexes in all referring records. The list is
+   * read again: if the old or the new value links to this very record, the
+   * chain has changed since the entries were removed.
+   */
+  backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
   if(backlink_list) {
     gint err;
     gcell *next = (gcell *) offsettoptr(db, backlink_list);
+    rec_enc = wg_encode_record(db, record);
     for(;;) {
       err = restore_backlink_index_entries(db,
         (gint *) offsettoptr(db, next->car),
-- 
2.43.0


From 1c563080785655b5f2493385e2a025f75cedfbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:16 +0000
Subject: [PATCH 003/116] fix: do not return the same parent again when it
 links to a record twice

---
 Db/dbdata.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 12c9e85..7554aa4 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -446,13 +446,29 @@ void *wg_get_next_parent(void* db, void* record, void *parent) {
 #endif
   backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
   if(backlink_list) {
-    gcell *next = (gcell *) offsettoptr(db, backlink_list);
-    while(next->cdr) {
-      void *pp = (void *) offsettoptr(db, next->car);
-      next = (gcell *) offsettoptr(db, next->cdr);
-      if(pp == parent && next->car) {
-        return (void *) offsettoptr(db, next->car);
+    gint next_offset = backlink_list;
+    gint parent_offset = ptrtooffset(db, parent);
+    int found = 0;
+
+    /* A parent has one cell in the chain for each of its links. Each parent
+     * is returned at the position of its first cell, later ones are skipped.
+     */
+    while(next_offset) {
+      gcell *next = (gcell *) offsettoptr(db, next_offset);
+      if(found) {
+        gint prev_offset = backlink_list;
+        while(prev_offset != next_offset) {
+          gcell *prev = (gcell *) offsettoptr(db, prev_offset);
+          if(prev->car == next->car)
+            break;
+          prev_offset = prev->cdr;
+        }
+        if(prev_offset == next_offset)
+          return (void *) offsettoptr(db, next->car);
+      } else if(next->car == parent_offset) {
+        found = 1;
       }
+      next_offset = next->cdr;
     }
   }
 #endif /* USE_BACKLINKING */
-- 
2.43.0


From b8d3ccc7b3bd3c6f602c7d41ebfa6a91d2d5691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:48 +0000
Subject: [PATCH 004/116] fix: keep one index entry per row when a linked
 record changes

---
 Db/dbdata.c  | 6 +++++-
 Db/dbindex.c | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 7554aa4..d9a2d08 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -562,7 +562,11 @@ static gint restore_backlink_index_entries(void *db, gint *record,
     for(col=0; col<length; col++) {
       if(*(record + RECORD_HEADER_GINTS + col) == value) {
         if(dbh->index_control_area_header.index_table[col]) {
-          if(wg_index_add_field(db, record, col) < -1)
+          /* The row may be present already: it can be reached over several
+           * chains of links, and wg_set_new_field() does not remove it.
+           */
+          if(wg_index_del_field(db, record, col) < -1 ||
+            wg_index_add_field(db, record, col) < -1)
             return -1;
         }
       }
diff --git a/Db/dbindex.c b/Db/dbindex.c
index 65b9ddc..eb54be4 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2640,15 +2640,18 @@ void * wg_get_all_indexes(void *db, gint *count) {
       break; \
   }
 
+/* A row that is not in the index is not an error: it may have been removed
+ * already, over another chain of links or for another column.
+ */
 #define INDEX_REMOVE_ROW(d, h, i, r) \
   switch(h->type) { \
     case WG_INDEX_TYPE_TTREE: \
-      if(ttree_remove_row(d, i, r) < -2) \
+      if(ttree_remove_row(d, i, r) < -3) \
         return -2; \
       break; \
     case WG_INDEX_TYPE_TTREE_JSON: \
       if(is_plain_record(r)) { \
-        if(ttree_remove_row(d, i, r) < -2) \
+        if(ttree_remove_row(d, i, r) < -3) \
           return -2; \
       } \
       break; \
-- 
2.43.0


From b4c992ed155cf0d6544b9b2719db0c83fe3530f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 005/116] fix: refuse to drop a hash index before anything is
 changed

---
 Db/dbindex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index eb54be4..84e623d 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2284,6 +2284,11 @@ gint wg_drop_index(void *db, gint index_id){
     ilistelem = (gcell *) offsettoptr(db, *ilist);
     if(ilistelem->car == index_id) {
       hdr = (wg_index_header *) offsettoptr(db, index_id);
+      /* Dropping a hash index is not implemented. Refuse before anything
+       * is changed, so that the index remains usable. */
+      if(hdr->type == WG_INDEX_TYPE_HASH ||
+        hdr->type == WG_INDEX_TYPE_HASH_JSON)
+        return drop_hash_index(db, index_id);
       /* Delete current element */
       delete_from_list(db, ilist);
       break;
-- 
2.43.0


From fa7b54616dfa136a349d13f8ea978b368c81a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 006/116] fix: list a multi-column index once

---
 Db/dbindex.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 84e623d..5bb3024 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2604,7 +2604,13 @@ void * wg_get_all_indexes(void *db, gint *count) {
     while(*ilist) {
       gcell *ilistelem = (gcell *) offsettoptr(db, *ilist);
       if(ilistelem->car) {
-        res[(*count)++] = ilistelem->car;
+        wg_index_header *hdr = \
+          (wg_index_header *) offsettoptr(db, ilistelem->car);
+        /* A multi-column index is listed under its first column only */
+        if(hdr->rec_field_index[0] == column &&
+          *count < dbh->index_control_area_header.number_of_indexes) {
+          res[(*count)++] = ilistelem->car;
+        }
       }
       ilist = &ilistelem->cdr;
     }
-- 
2.43.0


From dc1cd100ac66d6680c8aff3561168f49336039e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 007/116] fix: refuse an invalid index type or column before
 anything is changed

---
 Db/dbindex.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 5bb3024..4b1c5b6 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2092,13 +2092,20 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
     return -1;
   }
 
+  if(type != WG_INDEX_TYPE_TTREE && type != WG_INDEX_TYPE_HASH &&
+    type != WG_INDEX_TYPE_HASH_JSON) {
+    /* Includes WG_INDEX_TYPE_TTREE_JSON, until proper implementation exists */
+    show_index_error(db, "Invalid index type");
+    return -1;
+  }
+
   if(sort_columns(sorted_cols, columns, col_count) < col_count) {
     show_index_error(db, "Duplicate columns not allowed");
     return -1;
   }
 
   for(i=0; i<col_count; i++) {
-    if(sorted_cols[i] > MAX_INDEXED_FIELDNR) {
+    if(sorted_cols[i] < 0 || sorted_cols[i] > MAX_INDEXED_FIELDNR) {
       show_index_error_nr(db, "Max allowed column number",
         MAX_INDEXED_FIELDNR);
       return -1;
@@ -2451,7 +2458,7 @@ gint wg_multi_column_to_index_id(void *db, gint *columns, gint col_count,
   }
 
   for(i=0; i<col_count; i++) {
-    if(sorted_cols[i] > MAX_INDEXED_FIELDNR) {
+    if(sorted_cols[i] < 0 || sorted_cols[i] > MAX_INDEXED_FIELDNR) {
       show_index_error_nr(db, "Max allowed column number",
         MAX_INDEXED_FIELDNR);
       return -1;
-- 
2.43.0


From 7d95e98e8e737667b1c880d868b069416845b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 008/116] fix: only index rows that have all columns of a new
 hash index

---
 Db/dbindex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 4b1c5b6..23077a9 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1611,7 +1611,7 @@ static gint create_hash_index(void *db, gint index_id){
   void *rec;
   wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
   gint type = hdr->type;
-  gint firstcol = hdr->rec_field_index[0];
+  gint lastcol = hdr->rec_field_index[hdr->fields - 1];
   gint i;
 
   /* Initialize the hash table (0 - use default size) */
@@ -1623,7 +1623,7 @@ static gint create_hash_index(void *db, gint index_id){
   rowsprocessed = 0;
 
   while(rec != NULL) {
-    if(firstcol >= wg_get_record_len(db, rec)) {
+    if(lastcol >= wg_get_record_len(db, rec)) {
       rec=wg_get_next_record(db,rec);
       continue;
     }
-- 
2.43.0


From 4b26630f608da1a0c5d6950b59f1582e77a3e1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 009/116] fix: remove all entries of a JSON array with repeated
 values from a hash index

---
 Db/dbhash.c  | 2 ++
 Db/dbindex.c | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 3051bc0..48fc2f4 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -484,6 +484,8 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
 
   /* Add the record offset to the list. */
   rec_head = dbfetch(db, bucket + HASHIDX_RECLIST_POS*sizeof(gint));
+  if(rec_head && ((gcell *) offsettoptr(db, rec_head))->car == offset)
+    return 0; /* a repeated value in the same (JSON) array */
   rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
   rec_cell = (gcell *) offsettoptr(db, rec_offset);
   rec_cell->car = offset;
diff --git a/Db/dbindex.c b/Db/dbindex.c
index 23077a9..117e398 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1530,8 +1530,8 @@ static gint hash_recurse(void *db, wg_index_header *hdr, char *prefix,
             retv = hash_extend_prefix(db, hdr, prefix, prefixlen,
               wg_get_field(db, valrec, i),
               &values[1], count - 1, rec, op, expand);
-            if(retv)
-              break;
+            if(retv && op != HASHIDX_OP_REMOVE)
+              break; /* when removing, a repeated value is already gone */
           }
           return retv; /* This skips adding the array record itself. It's
                         * not useful as we can only hash the offset. */
-- 
2.43.0


From 6633d436b01a79aa8a7ed9e4635fe8a28c7e450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 010/116] fix: do not leave entries of a partially initialized
 raw record in an index

---
 Db/dbdata.c  | 43 +++++++++++++++++++++++++++++++++++++++----
 Db/dbhash.c  |  4 ++--
 Db/dbindex.c | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 Db/dbindex.h |  1 +
 4 files changed, 91 insertions(+), 6 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index d9a2d08..24d8063 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -886,6 +886,44 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
     return -2;
   }
 #endif
+
+  /* The record may be in some indexes already */
+#ifdef USE_INDEX_TEMPLATE
+  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
+    (dbh->index_control_area_header.index_table[fieldnr] ||\
+     dbh->index_control_area_header.index_template_table[fieldnr])) {
+#else
+  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
+    dbh->index_control_area_header.index_table[fieldnr]) {
+#endif
+    if(wg_index_del_new_field(db, record, fieldnr) < -1)
+      return -3;
+  }
+
+  /* So may records which refer to it. Normal usage scenario would be that
+   * the record is also new, so that there are no backlinks, however this is
+   * not guaranteed.
+   */
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
+  if(backlink_list) {
+    gint err;
+    gcell *next = (gcell *) offsettoptr(db, backlink_list);
+    gint rec_enc = wg_encode_record(db, record);
+    for(;;) {
+      err = remove_backlink_index_entries(db,
+        (gint *) offsettoptr(db, next->car),
+        rec_enc, WG_COMPARE_REC_DEPTH-1);
+      if(err) {
+        return -4;
+      }
+      if(!next->cdr)
+        break;
+      next = (gcell *) offsettoptr(db, next->cdr);
+    }
+  }
+#endif
+
   (*fieldadr)=data;
 
 #ifdef USE_CHILD_DB
@@ -934,10 +972,7 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #endif
 
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
-  /* Create new entries in indexes in all referring records. Normal
-   * usage scenario would be that the record is also new, so that
-   * there are no backlinks, however this is not guaranteed.
-   */
+  /* Create new entries in indexes in all referring records. */
   backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
   if(backlink_list) {
     gint err;
diff --git a/Db/dbhash.c b/Db/dbhash.c
index 48fc2f4..0693374 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -514,7 +514,7 @@ gint wg_idxhash_remove(void* db, db_hash_area_header *ha,
   /* Find the correct bucket. */
   bucket = find_idxhash_bucket(db, data, length, &bucket_offset);
   if(!bucket) {
-    return show_hash_error(db, "wg_idxhash_remove: Hash value not found.");
+    return -1; /* Hash value not found. Not logged, see INDEX_REMOVE_ROW */
   }
 
   /* Remove the record offset from the list. */
@@ -530,7 +530,7 @@ gint wg_idxhash_remove(void* db, db_hash_area_header *ha,
     }
     next_offset = &(rec_cell->cdr);
   }
-  return show_hash_error(db, "wg_idxhash_remove: Offset not found");
+  return -1; /* Offset not found */
 
 is_bucket_empty:
   if(!(*reclist_offset)) {
diff --git a/Db/dbindex.c b/Db/dbindex.c
index 117e398..4e4287f 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2917,6 +2917,55 @@ gint wg_index_del_field(void *db, void *rec, gint column) {
   return 0;
 }
 
+/** Remove a partially initialized record from indexes
+ *  Called from wg_set_new_field() before the new value is written. A record
+ *  that was created raw enters an index when any of the columns that affect
+ *  it is set. An index on several columns or with a template may therefore
+ *  contain the record with the old (empty) value of this column.
+ *  returns 0 on success
+ *  returns -2 if error (index presumably corrupt)
+ */
+gint wg_index_del_new_field(void *db, void *rec, gint column) {
+  gint *ilist;
+  gcell *ilistelem;
+  db_memsegment_header* dbh = dbmemsegh(db);
+  gint reclen = wg_get_record_len(db, rec);
+
+  ilist = &dbh->index_control_area_header.index_table[column];
+  while(*ilist) {
+    ilistelem = (gcell *) offsettoptr(db, *ilist);
+    if(ilistelem->car) {
+      wg_index_header *hdr = \
+        (wg_index_header *) offsettoptr(db, ilistelem->car);
+      if(hdr->fields > 1 && reclen > hdr->rec_field_index[hdr->fields - 1]) {
+        if(MATCH_TEMPLATE(db, hdr, rec)) {
+          INDEX_REMOVE_ROW(db, hdr, ilistelem->car, rec)
+        }
+      }
+    }
+    ilist = &ilistelem->cdr;
+  }
+
+#ifdef USE_INDEX_TEMPLATE
+  ilist = &dbh->index_control_area_header.index_template_table[column];
+  while(*ilist) {
+    ilistelem = (gcell *) offsettoptr(db, *ilist);
+    if(ilistelem->car) {
+      wg_index_header *hdr = \
+        (wg_index_header *) offsettoptr(db, ilistelem->car);
+      if(reclen > hdr->rec_field_index[hdr->fields - 1]) {
+        if(MATCH_TEMPLATE(db, hdr, rec)) {
+          INDEX_REMOVE_ROW(db, hdr, ilistelem->car, rec)
+        }
+      }
+    }
+    ilist = &ilistelem->cdr;
+  }
+#endif
+
+  return 0;
+}
+
 /* Delete data of one record from all indexes
  * Should be called from wg_delete_record()
  * returns 0 for success
diff --git a/Db/dbindex.h b/Db/dbindex.h
index cbb46f2..8c6b310 100644
--- a/Db/dbindex.h
+++ b/Db/dbindex.h
@@ -145,6 +145,7 @@ gint wg_match_template(void *db, wg_index_template *tmpl, void *rec);
 gint wg_index_add_field(void *db, void *rec, gint column);
 gint wg_index_add_rec(void *db, void *rec);
 gint wg_index_del_field(void *db, void *rec, gint column);
+gint wg_index_del_new_field(void *db, void *rec, gint column);
 gint wg_index_del_rec(void *db, void *rec);
 
 
-- 
2.43.0


From 134c0f2e2e94aea80bd1525b2025d184de8265c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 011/116] fix: hash index keys distinguish all values that
 differ and no others

---
 Db/dbhash.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 0693374..592cd41 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -267,8 +267,8 @@ gint wg_remove_from_strhash(void* db, gint longstr) {
 /* -------------- hash index support ------------------ */
 
 #define CONCAT_FOR_HASHING(d, b, e, l, bb, en) \
-  if(e) { \
-    gint xl = wg_decode_xmlliteral_xsdtype_len(d, en); \
+  if(e && *e) { \
+    gint xl = strlen(e); \
     bb = malloc(xl + l + 1); \
     if(!bb) \
       return 0; \
@@ -287,14 +287,14 @@ gint wg_remove_from_strhash(void* db, gint longstr) {
  *
  * NOTE: to differentiate between identical byte strings
  * the value is prefixed with a type identifier.
- * TODO: For values with varying length that can contain
- * '\0' bytes, add length to the prefix.
+ * The length is added as well, so that values which contain '\0'
+ * bytes remain distinguishable when several are concatenated.
  */
 gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
   gint len;
   gint type;
   gint ptrdata;
-  int intdata;
+  gint intdata;
   double doubledata;
   char *bytedata;
   char *exdata, *buf = NULL, *outbuf;
@@ -312,13 +312,15 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &ptrdata;
       break;
     case WG_INTTYPE:
-      len = sizeof(int);
+      len = sizeof(gint);
       intdata = wg_decode_int(db, enc);
       bytedata = (char *) &intdata;
       break;
     case WG_DOUBLETYPE:
       len = sizeof(double);
       doubledata = wg_decode_double(db, enc);
+      if(doubledata == 0.0)
+        doubledata = 0.0; /* equal to -0.0 */
       bytedata = (char *) &doubledata;
       break;
     case WG_FIXPOINTTYPE:
@@ -342,23 +344,27 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       exdata = wg_decode_xmlliteral_xsdtype(db, enc);
       CONCAT_FOR_HASHING(db, bytedata, exdata, len, buf, enc)
       break;
+    case WG_BLOBTYPE:
+      len = wg_decode_blob_len(db, enc);
+      bytedata = wg_decode_blob(db, enc);
+      break;
     case WG_CHARTYPE:
-      len = sizeof(int);
+      len = sizeof(gint);
       intdata = wg_decode_char(db, enc);
       bytedata = (char *) &intdata;
       break;
     case WG_DATETYPE:
-      len = sizeof(int);
+      len = sizeof(gint);
       intdata = wg_decode_date(db, enc);
       bytedata = (char *) &intdata;
       break;
     case WG_TIMETYPE:
-      len = sizeof(int);
+      len = sizeof(gint);
       intdata = wg_decode_time(db, enc);
       bytedata = (char *) &intdata;
       break;
     case WG_VARTYPE:
-      len = sizeof(int);
+      len = sizeof(gint);
       intdata = wg_decode_var(db, enc);
       bytedata = (char *) &intdata;
       break;
@@ -369,10 +375,12 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
   }
 
   /* Form the hashable buffer. It is not 0-terminated */
-  outbuf = malloc(len + 1);
+  outbuf = malloc(len + sizeof(gint) + 1);
   if(outbuf) {
     outbuf[0] = (char) type;
-    memcpy(outbuf + 1, bytedata, len++);
+    memcpy(outbuf + 1, &len, sizeof(gint));
+    memcpy(outbuf + 1 + sizeof(gint), bytedata, len);
+    len += sizeof(gint) + 1;
     *decbytes = outbuf;
   } else {
     /* Indicate failure */
-- 
2.43.0


From 8f54b367082d4324b028e9d03823f3f9157be3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:04 +0000
Subject: [PATCH 012/116] fix: contradictory query bounds give an empty result
 with a row count of zero

---
 Db/dbquery.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index f533691..d6f4639 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -812,14 +812,20 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
       }
     }
 
-    /* Simple sanity check. Is start_bound greater than end_bound? */
-    if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL &&\
-      WG_COMPARE(db, start_bound, end_bound) == WG_GREATER) {
-      /* return empty query */
-      query->argc = 0;
-      query->arglist = NULL;
-      free(full_arglist);
-      return query;
+    /* Simple sanity check. Is start_bound greater than end_bound? If they are
+     * equal, the value itself must be included on both sides.
+     */
+    if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL) {
+      gint cmp = WG_COMPARE(db, start_bound, end_bound);
+      if(cmp == WG_GREATER || (cmp == WG_EQUAL &&\
+        (!start_inclusive || !end_inclusive))) {
+        /* return empty query */
+        query->argc = 0;
+        query->arglist = NULL;
+        query->res_count = 0;
+        free(full_arglist);
+        return query;
+      }
     }
 
     /* Now find the bounding nodes for the query */
-- 
2.43.0


From 6e2d58abb3e397892468ed464eaac19bc78045e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:51 +0000
Subject: [PATCH 013/116] fix: never insert the match record of an index
 template into an index

---
 Db/dbindex.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 4e4287f..6c5a80f 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -46,6 +46,9 @@ extern "C" {
 #include "dbcompare.h"
 #include "dbhash.h"
 #include "dbutil.h"
+#ifdef USE_DBLOG
+#include "dblog.h"
+#endif
 
 
 /* ====== Private defs =========== */
@@ -1822,22 +1825,32 @@ nextelem:
     ilist = &ilistelem->cdr;
   }
 
-  /* Create the new match record */
+  /* Create the new match record. It is marked as a match record first,
+   * so that it will not be inserted in any index.
+   */
   rec = wg_create_raw_record(db, reclen);
   if(!rec)
     return 0;
+  meta = ((gint *) rec + RECORD_META_POS);
+#ifdef USE_DBLOG
+  if(dbh->logging.active) {
+    if(wg_log_set_meta(db, rec,
+      *meta | RECORD_META_NOTDATA | RECORD_META_MATCH))
+      return 0;
+  }
+#endif
+  *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
   for(i=0; i<reclen; i++) {
     if(wg_set_new_field(db, rec, i, matchrec[i]) < 0)
       return 0;
   }
-  meta = ((gint *) rec + RECORD_META_POS);
-  *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
 
   /* Add new template header */
   template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
   tmpl = (wg_index_template *) offsettoptr(db, template_offset);
   tmpl->offset_matchrec = ptrtooffset(db, rec);
   tmpl->fixed_columns = fixed_columns;
+  tmpl->refcount = 0;
 
   /* Insert it into the template list */
   if(!insert_into_list(db, ilist, template_offset))
-- 
2.43.0


From 82ca12a1432fe37a9fcb6566c8e29ea72a1fe03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:15 +0000
Subject: [PATCH 014/116] fix: no duplicate entry of a raw record in an index
 with a template

---
 Db/dbindex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 6c5a80f..8635055 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2950,7 +2950,8 @@ gint wg_index_del_new_field(void *db, void *rec, gint column) {
     if(ilistelem->car) {
       wg_index_header *hdr = \
         (wg_index_header *) offsettoptr(db, ilistelem->car);
-      if(hdr->fields > 1 && reclen > hdr->rec_field_index[hdr->fields - 1]) {
+      if((hdr->fields > 1 || hdr->template_offset) &&\
+        reclen > hdr->rec_field_index[hdr->fields - 1]) {
         if(MATCH_TEMPLATE(db, hdr, rec)) {
           INDEX_REMOVE_ROW(db, hdr, ilistelem->car, rec)
         }
-- 
2.43.0


From d35967a8c8f5ca9cc10bf6c498802eb976a734e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:12 +0000
Subject: [PATCH 015/116] fix: journal integers with their full width

---
 Db/dblog.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index b9c5a47..c0759b9 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -532,12 +532,12 @@ gint recover_encode(void *db, FILE *f, gint type)
 {
   char *strbuf, *extbuf;
   gint length = 0, extlength = 0, enc;
-  int intval;
+  gint intval;
   double doubleval;
 
   switch(type) {
     case WG_INTTYPE:
-      if(fread((char *) &intval, sizeof(int), 1, f) != 1) {
+      if(fread((char *) &intval, sizeof(gint), 1, f) != 1) {
         show_log_error(db, "Failed to read log entry");
         return WG_ILLEGAL;
       }
@@ -1079,14 +1079,14 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       return 0;
       break;
     case WG_INTTYPE:
-      /* int argument */
-      if(fits_smallint(*((int *) data))) {
+      /* gint argument */
+      if(fits_smallint(*((gint *) data))) {
         return 0; /* self-contained, don't log */
       } else {
-        buflen = 1 + sizeof(int);
+        buflen = 1 + sizeof(gint);
         buf = (unsigned char *) malloc(buflen);
         optr = buf + 1;
-        *((int *) optr) = *((int *) data);
+        memcpy(optr, data, sizeof(gint));
       }
       break;
     case WG_DOUBLETYPE:
-- 
2.43.0


From 41f6be30d8fbc2ba759dc29e79d19b55bbf15828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:33 +0000
Subject: [PATCH 016/116] fix: do not journal the attached part of a string
 inside its own entry

---
 Db/dbdata.c | 61 +++++++++++++++++++++++++----------------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 24d8063..849185c 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -90,6 +90,7 @@ static long ymd_to_scalar (unsigned yr, unsigned mo, unsigned day);
 static void scalar_to_ymd (long scalar, unsigned *yr, unsigned *mo, unsigned *day);
 
 static gint free_field_encoffset(void* db,gint encoffset);
+static gint store_unistr(void* db, const char* str, const char* lang, gint type);
 static gint find_create_longstr(void* db, const char* data, const char* extrastr, gint type, gint length);
 
 #ifdef USE_CHILD_DB
@@ -2541,7 +2542,9 @@ Universal funs for string, xmlliteral, uri, blob
 ============================================== */
 
 
-gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
+/** Store a string without writing to the journal.
+ */
+static gint store_unistr(void* db, const char* str, const char* lang, gint type) {
   gint offset;
   gint len;
 #ifdef USETINYSTR
@@ -2552,15 +2555,6 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
   char* dendptr;
 
   len=(gint)(strlen(str));
-#ifdef USE_DBLOG
-  /* Log before allocating. */
-  if(dbmemsegh(db)->logging.active) {
-    gint extlen = 0;
-    if(lang) extlen = strlen(lang);
-    if(wg_log_encode(db, type, str, len, lang, extlen))
-      return WG_ILLEGAL;
-  }
-#endif
 #ifdef USETINYSTR
 /* XXX: add tinystr support to logging */
 #ifdef USE_DBLOG
@@ -2582,11 +2576,6 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
     offset=alloc_shortstr(db);
     if (!offset) {
       show_data_error_str(db,"cannot store a string in wg_encode_unistr",str);
-#ifdef USE_DBLOG
-      if(dbmemsegh(db)->logging.active) {
-        wg_log_encval(db, WG_ILLEGAL);
-      }
-#endif
       return WG_ILLEGAL;
     }
     // loop over bytes, storing them starting from offset
@@ -2599,33 +2588,40 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
     for(sptr=(char *) str; (*dptr=*sptr)!=0; sptr++, dptr++) {}; // copy string
     for(dptr++; dptr<dendptr; dptr++) { *dptr=0; }; // zero the rest
     // store offset to field
-#ifdef USE_DBLOG
-    if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_shortstr_offset(offset)))
-        return WG_ILLEGAL; /* journal error */
-    }
-#endif
     return encode_shortstr_offset(offset);
     //dbstore(db,ptrtoffset(record)+RECORD_HEADER_GINTS+fieldnr,encode_shortstr_offset(offset));
   } else {
     offset=find_create_longstr(db,str,lang,type,len+1);
     if (!offset) {
       show_data_error_nr(db,"cannot create a string of size ",len);
-#ifdef USE_DBLOG
-      if(dbmemsegh(db)->logging.active) {
-        wg_log_encval(db, WG_ILLEGAL);
-      }
-#endif
       return WG_ILLEGAL;
     }
+    return encode_longstr_offset(offset);
+  }
+}
+
+
+gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
+  gint enc;
+
 #ifdef USE_DBLOG
-    if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_longstr_offset(offset)))
-        return WG_ILLEGAL; /* journal error */
-    }
+  /* Log before allocating. */
+  if(dbmemsegh(db)->logging.active) {
+    gint extlen = 0;
+    if(lang) extlen = strlen(lang);
+    if(wg_log_encode(db, type, str, strlen(str), lang, extlen))
+      return WG_ILLEGAL;
+  }
 #endif
-    return encode_longstr_offset(offset);
+  enc=store_unistr(db,str,lang,type);
+#ifdef USE_DBLOG
+  /* The result (or WG_ILLEGAL) completes the log entry. */
+  if(dbmemsegh(db)->logging.active) {
+    if(wg_log_encval(db, enc))
+      return WG_ILLEGAL; /* journal error */
   }
+#endif
+  return enc;
 }
 
 
@@ -2696,7 +2692,8 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
     }
     // if extrastr exists, encode extrastr and store ptr to longstr record field
     if (extrastr!=NULL) {
-      tmp=wg_encode_str(db,extrastr,NULL);
+      /* part of this entry in the journal, not logged separately */
+      tmp=store_unistr(db,extrastr,NULL,WG_STRTYPE);
       if (tmp==WG_ILLEGAL) {
         //show_data_error_nr(db,"cannot create an (extra)string of size ",strlen(extrastr));
         return 0;
-- 
2.43.0


From b1603567dea0daf9af9a0d6b73a6243c2597479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:33 +0000
Subject: [PATCH 017/116] fix: journal the encoding of blobs

---
 Db/dbdata.c | 20 ++++++++++++++++++++
 Db/dblog.c  |  9 ++++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 849185c..0c3e3d6 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2628,13 +2628,33 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
 gint wg_encode_uniblob(void* db, const char* str, const char* lang, gint type, gint len) {
   gint offset;
 
+#ifdef USE_DBLOG
+  /* Log before allocating. */
+  if(dbmemsegh(db)->logging.active) {
+    gint extlen = 0;
+    if(lang) extlen = strlen(lang);
+    if(wg_log_encode(db, type, str, len, lang, extlen))
+      return WG_ILLEGAL;
+  }
+#endif
   if (0) {
   } else {
     offset=find_create_longstr(db,str,lang,type,len);
     if (!offset) {
       show_data_error_nr(db,"cannot create a blob of size ",len);
+#ifdef USE_DBLOG
+      if(dbmemsegh(db)->logging.active) {
+        wg_log_encval(db, WG_ILLEGAL);
+      }
+#endif
       return WG_ILLEGAL;
     }
+#ifdef USE_DBLOG
+    if(dbmemsegh(db)->logging.active) {
+      if(wg_log_encval(db, encode_longstr_offset(offset)))
+        return WG_ILLEGAL; /* journal error */
+    }
+#endif
     return encode_longstr_offset(offset);
   }
 }
diff --git a/Db/dblog.c b/Db/dblog.c
index c0759b9..9470ac7 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -552,7 +552,7 @@ gint recover_encode(void *db, FILE *f, gint type)
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
-    case WG_BLOBTYPE: /* XXX: no encode func for this yet */
+    case WG_BLOBTYPE:
       /* strings with extdata */
       GET_LOG_VARINT(db, f, length, WG_ILLEGAL)
       GET_LOG_VARINT(db, f, extlength, WG_ILLEGAL)
@@ -587,7 +587,10 @@ gint recover_encode(void *db, FILE *f, gint type)
         extbuf = NULL;
       }
 
-      enc = wg_encode_unistr(db, strbuf, extbuf, type);
+      if(type == WG_BLOBTYPE)
+        enc = wg_encode_uniblob(db, strbuf, extbuf, type, length);
+      else
+        enc = wg_encode_unistr(db, strbuf, extbuf, type);
       free(strbuf);
       if(extbuf)
         free(extbuf);
@@ -1100,7 +1103,7 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
-    case WG_BLOBTYPE: /* XXX: no encode func for this yet */
+    case WG_BLOBTYPE:
       /* strings with extdata */
       buflen = 1 + 2*VARINT_SIZE + length + extlength;
       buf = (unsigned char *) malloc(buflen);
-- 
2.43.0


From 8d1422441ee7b8505abd12baa7a0437a1cff6c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:33 +0000
Subject: [PATCH 018/116] fix: keep the string hash chain when the attached
 part lands in it

---
 Db/dbdata.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 0c3e3d6..59b2d8b 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2716,8 +2716,11 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
       tmp=store_unistr(db,extrastr,NULL,WG_STRTYPE);
       if (tmp==WG_ILLEGAL) {
         //show_data_error_nr(db,"cannot create an (extra)string of size ",strlen(extrastr));
+        wg_free_object(db,&(dbmemsegh(db)->longstr_area_header),offset);
         return 0;
       }
+      // storing extrastr may have changed the same hash chain
+      hasharrel=dbfetch(db,((dbh->strhash_area_header).arraystart)+(sizeof(gint)*hash));
       dbstore(db,offset+LONGSTR_EXTRASTR_POS*sizeof(gint),tmp);
       // increase extrastr refcount
       if(islongstr(tmp)) {
-- 
2.43.0


From acf020024433f8d15264ae0e1b204e02064b4cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:04 +0000
Subject: [PATCH 019/116] fix: refuse unsuitable field values before journaling
 or unindexing anything

---
 Db/dbdata.c | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 59b2d8b..5ef068c 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -648,6 +648,17 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   recordcheck(db,record,fieldnr,"wg_set_field");
 #endif
 
+#ifdef USE_CHILD_DB
+  /* Get the offset owner */
+  if(isptr(data)) {
+    offset_owner = get_ptr_owner(db, data);
+    if(!offset_owner) {
+      show_data_error(db, "External reference not recognized");
+      return -5;
+    }
+  }
+#endif
+
 #ifdef USE_DBLOG
   /* Do not proceed before we've logged the operation */
   if(dbh->logging.active) {
@@ -704,17 +715,6 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
-#ifdef USE_CHILD_DB
-  /* Get the offset owner */
-  if(isptr(data)) {
-    offset_owner = get_ptr_owner(db, data);
-    if(!offset_owner) {
-      show_data_error(db, "External reference not recognized");
-      return -5;
-    }
-  }
-#endif
-
 #ifdef USE_BACKLINKING
   /* Is the old field value a record pointer? If so, remove the backlink.
    * XXX: this can be optimized to use a custom macro instead of
@@ -860,14 +860,6 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   recordcheck(db,record,fieldnr,"wg_set_field");
 #endif
 
-#ifdef USE_DBLOG
-  /* Do not proceed before we've logged the operation */
-  if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
-      return -6; /* journal error, cannot write */
-  }
-#endif
-
 #ifdef USE_CHILD_DB
   /* Get the offset owner */
   if(isptr(data)) {
@@ -888,6 +880,14 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+#ifdef USE_DBLOG
+  /* Do not proceed before we've logged the operation */
+  if(dbh->logging.active) {
+    if(wg_log_set_field(db,record,fieldnr,data))
+      return -6; /* journal error, cannot write */
+  }
+#endif
+
   /* The record may be in some indexes already */
 #ifdef USE_INDEX_TEMPLATE
   if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
-- 
2.43.0


From ede81f6c7141cddc3326d6b9d649c2533c132eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:49 +0000
Subject: [PATCH 020/116] fix: refuse a record link when there is no space for
 its backlink

---
 Db/dbdata.c | 62 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 5ef068c..449444a 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -637,6 +637,7 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   gint* strptr;
 #ifdef USE_BACKLINKING
   gint backlink_list;           /** start of backlinks for this record */
+  gint new_offset = 0;          /** backlink cell for the new value */
   gint rec_enc = WG_ILLEGAL;    /** this record as encoded value. */
 #endif
   db_memsegment_header *dbh = dbmemsegh(db);
@@ -659,18 +660,40 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+  /* Read the old encoded value */
+  fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
+  fielddata=*fieldadr;
+
+#ifdef USE_BACKLINKING
+  /* Storage for the backlink of a new record pointer is reserved before
+   * anything is changed.
+   */
+  if(fielddata != data &&
+#ifdef USE_CHILD_DB
+    offset_owner == dbmemseg(db) &&
+#endif
+    wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
+    new_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
+    if(!new_offset) {
+      show_data_error(db, "Failed to allocate a backlink");
+      return -4;
+    }
+  }
+#endif
+
 #ifdef USE_DBLOG
   /* Do not proceed before we've logged the operation */
   if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
+    if(wg_log_set_field(db,record,fieldnr,data)) {
+#ifdef USE_BACKLINKING
+      if(new_offset)
+        wg_free_listcell(db, new_offset);
+#endif
       return -6; /* journal error, cannot write */
+    }
   }
 #endif
 
-  /* Read the old encoded value */
-  fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
-  fielddata=*fieldadr;
-
   /* Skip changes if the value does not change */
   if(fielddata == data) {
     return 0;
@@ -787,8 +810,6 @@ setfld_backlink_removed:
 #endif
     gint *rec = (gint *) wg_decode_record(db, data);
     gint *next_offset = rec + RECORD_BACKLINKS_POS;
-    gint new_offset = wg_alloc_fixlen_object(db,
-      &(dbmemsegh(db)->listcell_area_header));
     gcell *new_cell = (gcell *) offsettoptr(db, new_offset);
 
     while(*next_offset)
@@ -850,6 +871,7 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   gint* strptr;
 #ifdef USE_BACKLINKING
   gint backlink_list;           /** start of backlinks for this record */
+  gint new_offset = 0;          /** backlink cell for the new value */
 #endif
   db_memsegment_header *dbh = dbmemsegh(db);
 #ifdef USE_CHILD_DB
@@ -880,11 +902,33 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+#ifdef USE_BACKLINKING
+  /* Storage for the backlink of a new record pointer is reserved before
+   * anything is changed.
+   */
+  if(
+#ifdef USE_CHILD_DB
+    offset_owner == dbmemseg(db) &&
+#endif
+    wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
+    new_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
+    if(!new_offset) {
+      show_data_error(db, "Failed to allocate a backlink");
+      return -4;
+    }
+  }
+#endif
+
 #ifdef USE_DBLOG
   /* Do not proceed before we've logged the operation */
   if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
+    if(wg_log_set_field(db,record,fieldnr,data)) {
+#ifdef USE_BACKLINKING
+      if(new_offset)
+        wg_free_listcell(db, new_offset);
+#endif
       return -6; /* journal error, cannot write */
+    }
   }
 #endif
 
@@ -960,8 +1004,6 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #endif
     gint *rec = (gint *) wg_decode_record(db, data);
     gint *next_offset = rec + RECORD_BACKLINKS_POS;
-    gint new_offset = wg_alloc_fixlen_object(db,
-      &(dbmemsegh(db)->listcell_area_header));
     gcell *new_cell = (gcell *) offsettoptr(db, new_offset);
 
     while(*next_offset)
-- 
2.43.0


From 4b58a80d3a5e4a3d3228e79853948d5ed920ba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:49 +0000
Subject: [PATCH 021/116] fix: replacing a field value judges the old link by
 its own database

---
 Db/dbdata.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 449444a..66b2bc2 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -215,6 +215,15 @@ gint wg_delete_record(void* db, void *rec) {
   }
 #endif
 
+  offset = ptrtooffset(db, rec);
+#if defined(CHECK) && defined(USE_CHILD_DB)
+  /* Check if it's a local record */
+  if(!is_local_offset(db, offset)) {
+    show_data_error(db, "not deleting an external record");
+    return -2;
+  }
+#endif
+
 #ifdef USE_BACKLINKING
   if(*((gint *) rec + RECORD_BACKLINKS_POS))
     return -1;
@@ -234,15 +243,6 @@ gint wg_delete_record(void* db, void *rec) {
       return -3; /* index error */
   }
 
-  offset = ptrtooffset(db, rec);
-#if defined(CHECK) && defined(USE_CHILD_DB)
-  /* Check if it's a local record */
-  if(!is_local_offset(db, offset)) {
-    show_data_error(db, "not deleting an external record");
-    return -2;
-  }
-#endif
-
   /* Loop over fields, freeing them */
   dendptr = (gint *) (((char *) rec) + datarec_size_bytes(*((gint *)rec)));
   for(dptr=(gint *)rec+RECORD_HEADER_GINTS; dptr<dendptr; dptr++) {
@@ -746,7 +746,7 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #ifdef USE_CHILD_DB
   /* Only touch local records */
   if(wg_get_encoded_type(db, fielddata) == WG_RECORDTYPE &&
-    offset_owner == dbmemseg(db)) {
+    is_local_offset(db, decode_datarec_offset(fielddata))) {
 #else
   if(wg_get_encoded_type(db, fielddata) == WG_RECORDTYPE) {
 #endif
-- 
2.43.0


From b0839eddf73167f9f05d6b95ac19bd8307299e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 022/116] fix: journal replay forgets the translation of reused
 offsets

---
 Db/dbhash.c | 10 ++++++++++
 Db/dblog.c  | 17 +++++++----------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 592cd41..0fde3b9 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -604,6 +604,7 @@ void *wg_ginthash_init(void *db) {
 }
 
 /** Add a key/value pair to the hash table.
+ *  If the key is already present, its value is replaced.
  *  tbl should be created with wg_ginthash_init()
  *  Returns 0 on success
  *  Returns -1 on failure
@@ -614,6 +615,15 @@ gint wg_ginthash_addkey(void *db, void *tbl, gint key, gint val) {
   ginthash_bucket *bucket = ((ext_ginthash *)tbl)->directory[hash];
   /*static gint keys = 0;*/
   /* printf("add: %d hash %d items %d\n", key, hash, ++keys); */
+  if(bucket) {
+    int i;
+    for(i=0; i<bucket->fill; i++) {
+      if(bucket->key[i] == key) {
+        bucket->value[i] = val;
+        return 0;
+      }
+    }
+  }
   if(!bucket) {
     /* allocate a new bucket, store value, we're done */
     bucket = ginthash_newbucket(db, (ext_ginthash *) tbl);
diff --git a/Db/dblog.c b/Db/dblog.c
index 9470ac7..001e143 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -625,11 +625,10 @@ static gint recover_journal(void *db, FILE *f, void *table)
             return show_log_error(db, "Failed to create a new record");
           }
           newoffset = ptrtooffset(db, rec);
-          if(newoffset != offset) {
-            if(add_tran_offset(db, table, offset, newoffset)) {
-              return show_log_error(db, "Failed to parse log "\
-                "(out of translation memory)");
-            }
+          /* replaces the translation of an earlier object at this offset */
+          if(add_tran_offset(db, table, offset, newoffset)) {
+            return show_log_error(db, "Failed to parse log "\
+              "(out of translation memory)");
           }
         }
         break;
@@ -650,11 +649,9 @@ static gint recover_journal(void *db, FILE *f, void *table)
           if(newenc == WG_ILLEGAL) {
             return -1;
           }
-          if(newenc != enc) {
-            if(add_tran_enc(db, table, enc, newenc)) {
-              return show_log_error(db, "Failed to parse log "\
-                "(out of translation memory)");
-            }
+          if(add_tran_enc(db, table, enc, newenc)) {
+            return show_log_error(db, "Failed to parse log "\
+              "(out of translation memory)");
           }
         }
         break;
-- 
2.43.0


From 4487fccf864dcaf40aab22c6b18e4d2619c5ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 023/116] fix: journal replay does not create records whose
 creation failed

---
 Db/dblog.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 001e143..ee74796 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -618,9 +618,8 @@ static gint recover_journal(void *db, FILE *f, void *table)
       case WG_JOURNAL_ENTRY_CRE:
         GET_LOG_VARINT(db, f, length, -1)
         GET_LOG_VARINT(db, f, offset, -1)
-        rec = wg_create_record(db, length);
-        if(offset != 0) {
-          /* XXX: should we have even tried if this failed earlier? */
+        if(offset != 0) { /* 0 - creating the record failed originally */
+          rec = wg_create_record(db, length);
           if(!rec) {
             return show_log_error(db, "Failed to create a new record");
           }
-- 
2.43.0


From 0fa5f08373587b8dce5aaf55e47747f79b5dd768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 024/116] fix: journal tells an empty attached part from a
 missing one

---
 Db/dblog.c | 11 +++++++----
 Db/dblog.h |  3 ++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index ee74796..a7a4442 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -118,7 +118,7 @@ static gint add_tran_offset(void *db, void *table, gint old, gint new);
 static gint add_tran_enc(void *db, void *table, gint old, gint new);
 static gint translate_offset(void *db, void *table, gint offset);
 static gint translate_encoded(void *db, void *table, gint enc);
-static gint recover_encode(void *db, FILE *f, gint type);
+static gint recover_encode(void *db, FILE *f, gint type, gint emptyext);
 static gint recover_journal(void *db, FILE *f, void *table);
 
 static gint write_log_buffer(void *db, void *buf, int buflen);
@@ -528,7 +528,7 @@ static gint translate_encoded(void *db, void *table, gint enc)
 /** Parse an encode entry from the log.
  *
  */
-gint recover_encode(void *db, FILE *f, gint type)
+gint recover_encode(void *db, FILE *f, gint type, gint emptyext)
 {
   char *strbuf, *extbuf;
   gint length = 0, extlength = 0, enc;
@@ -569,7 +569,7 @@ gint recover_encode(void *db, FILE *f, gint type)
       }
       strbuf[length] = '\0';
 
-      if(extlength) {
+      if(extlength || emptyext) {
         extbuf = (char *) malloc(extlength + 1);
         if(!extbuf) {
           free(strbuf);
@@ -641,7 +641,8 @@ static gint recover_journal(void *db, FILE *f, void *table)
         break;
       case WG_JOURNAL_ENTRY_ENC:
         newenc = recover_encode(db, f,
-          (unsigned char) c & WG_JOURNAL_ENTRY_TYPEMASK);
+          (unsigned char) c & WG_JOURNAL_ENTRY_TYPEMASK,
+          (unsigned char) c & WG_JOURNAL_ENTRY_EMPTYEXT);
         GET_LOG_VARINT(db, f, enc, -1)
         if(enc != WG_ILLEGAL) {
           /* Encode was supposed to succeed */
@@ -1126,6 +1127,8 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
 
   /* Add a fixed prefix */
   buf[0] = WG_JOURNAL_ENTRY_ENC | type;
+  if(extdata && !extlength)
+    buf[0] |= WG_JOURNAL_ENTRY_EMPTYEXT;
 
   err = write_log_buffer(db, (void *) buf, buflen);
   free(buf);
diff --git a/Db/dblog.h b/Db/dblog.h
index cf72c83..8cfc223 100644
--- a/Db/dblog.h
+++ b/Db/dblog.h
@@ -45,7 +45,8 @@
 #define WG_JOURNAL_ENTRY_SET ((unsigned char) 0xc0)
 #define WG_JOURNAL_ENTRY_META ((unsigned char) 0x20)
 #define WG_JOURNAL_ENTRY_CMDMASK (0xe0)
-#define WG_JOURNAL_ENTRY_TYPEMASK (0x1f)
+#define WG_JOURNAL_ENTRY_TYPEMASK (0x0f)
+#define WG_JOURNAL_ENTRY_EMPTYEXT (0x10) /* extdata is an empty string */
 
 
 /* ====== data structures ======== */
-- 
2.43.0


From 1893f828d92e3f425e938092939caa51b860f671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 025/116] fix: journal replay updates indexes when record
 metadata changes

---
 Db/dblog.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Db/dblog.c b/Db/dblog.c
index a7a4442..283db43 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -59,6 +59,7 @@ extern "C" {
 #include "dballoc.h"
 #include "dbdata.h"
 #include "dbhash.h"
+#include "dbindex.h"
 
 /* ====== Private headers and defs ======== */
 
@@ -671,7 +672,16 @@ static gint recover_journal(void *db, FILE *f, void *table)
         GET_LOG_VARINT(db, f, meta, -1)
         newoffset = translate_offset(db, table, offset);
         rec = offsettoptr(db, newoffset);
+        /* The record was indexed as plain data when it was created */
+        if(!is_special_record(rec)) {
+          if(wg_index_del_rec(db, rec) < -1)
+            return show_log_error(db, "Failed to update indexes");
+        }
         *((gint *) rec + RECORD_META_POS) = meta;
+        if(!is_special_record(rec)) {
+          if(wg_index_add_rec(db, rec) < -1)
+            return show_log_error(db, "Failed to update indexes");
+        }
         break;
       default:
         return show_log_error(db, "Invalid log entry");
-- 
2.43.0


From 798a5b759e02e3201d0fe320c98fff3bbd00c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 026/116] fix: journal the metadata of parameter triples

---
 Db/dbschema.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Db/dbschema.c b/Db/dbschema.c
index 58575d8..b826755 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -68,11 +68,18 @@ static gint show_schema_error(void *db, char *errmsg);
  */
 void *wg_create_triple(void *db, gint subj, gint prop, gint ob, gint isparam) {
   void *rec = wg_create_raw_record(db, WG_SCHEMA_TRIPLE_SIZE);
-  gint *meta;
+  gint *metap, meta;
   if(rec) {
-    meta = ((gint *) rec + RECORD_META_POS);
+    metap = ((gint *) rec + RECORD_META_POS);
     if(isparam) {
-      *meta |= (RECORD_META_NOTDATA|RECORD_META_MATCH);
+      meta = *metap | (RECORD_META_NOTDATA|RECORD_META_MATCH);
+#ifdef USE_DBLOG
+      if(dbmemsegh(db)->logging.active) {
+        if(wg_log_set_meta(db, rec, meta))
+          return NULL;
+      }
+#endif
+      *metap = meta;
     } else if(wg_index_add_rec(db, rec) < -1) {
       return NULL; /* index error */
     }
-- 
2.43.0


From 4bfed57b01c8195eaa9b7967d7d4c4f5f466bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 027/116] fix: a failed journal write leaves neither a partial
 entry nor a stale descriptor

---
 Db/dbdata.c |  4 +++-
 Db/dblog.c  | 39 ++++++++++++++++++++++++++++-----------
 Db/dblog.h  |  1 +
 3 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 66b2bc2..b9dba00 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -185,8 +185,10 @@ void* wg_create_raw_record(void* db, wg_int length) {
 #ifdef USE_DBLOG
   /* Append the created offset to log */
   if(dbmemsegh(db)->logging.active) {
-    if(wg_log_encval(db, offset))
+    if(wg_log_encval(db, offset)) {
+      wg_free_object(db, &(dbmemsegh(db)->datarec_area_header), offset);
       return 0; /* journal error */
+    }
   }
 #endif
 
diff --git a/Db/dblog.c b/Db/dblog.c
index 283db43..a3f58db 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -122,7 +122,7 @@ static gint translate_encoded(void *db, void *table, gint enc);
 static gint recover_encode(void *db, FILE *f, gint type, gint emptyext);
 static gint recover_journal(void *db, FILE *f, void *table);
 
-static gint write_log_buffer(void *db, void *buf, int buflen);
+static gint write_log_buffer(void *db, void *buf, int buflen, int last);
 #endif /* USE_DBLOG */
 
 static gint show_log_error(void *db, char *errmsg);
@@ -947,9 +947,13 @@ abort2:
 #ifdef USE_DBLOG
 /** Write a byte buffer to the log file.
  *
+ *  If last is zero, the entry is still incomplete and will be continued
+ *  by the next call. When writing fails, the incomplete entry is removed
+ *  from the file, so that the entries written later remain readable.
  */
-static gint write_log_buffer(void *db, void *buf, int buflen)
+static gint write_log_buffer(void *db, void *buf, int buflen, int last)
 {
+  int written;
   db_memsegment_header* dbh = dbmemsegh(db);
   db_handle_logdata *ld = \
     (db_handle_logdata *) (((db_handle *) db)->logdata);
@@ -978,6 +982,7 @@ static gint write_log_buffer(void *db, void *buf, int buflen)
         /* fseek(f, 0, SEEK_END); */
         ld->fd = fd;
         ld->serial = dbh->logging.serial;
+        ld->pending = 0;
       }
     }
   }
@@ -988,14 +993,26 @@ static gint write_log_buffer(void *db, void *buf, int buflen)
   dbh->logging.dirty = 1;
 
 #ifndef _WIN32
-  if(write(ld->fd, (char *) buf, buflen) != buflen) {
+  written = write(ld->fd, (char *) buf, buflen);
 #else
-  if(_write(ld->fd, (char *) buf, buflen) != buflen) {
+  written = _write(ld->fd, (char *) buf, buflen);
 #endif
+  if(written != buflen) {
+    gint partial = ld->pending + (written > 0 ? written : 0);
+    int fd = ld->fd;
     show_log_error(db, "Error writing to log file");
-    JOURNAL_FAIL(ld->fd, -5)
+#ifndef _WIN32
+    if(partial && ftruncate(fd, lseek(fd, 0, SEEK_END) - partial))
+#else
+    if(partial && _chsize_s(fd, _lseeki64(fd, 0, SEEK_END) - partial))
+#endif
+      show_log_error(db, "Incomplete entry left in log file");
+    ld->fd = -1;
+    ld->pending = 0;
+    JOURNAL_FAIL(fd, -5)
   }
 
+  ld->pending = last ? 0 : ld->pending + buflen;
   return 0;
 }
 #endif /* USE_DBLOG */
@@ -1026,7 +1043,7 @@ gint wg_log_create_record(void *db, gint length)
   buf[0] = WG_JOURNAL_ENTRY_CRE;
   optr = &buf[1];
   optr += enc_varint(optr, (wg_uint) length);
-  return write_log_buffer(db, (void *) buf, optr - buf);
+  return write_log_buffer(db, (void *) buf, optr - buf, 0);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
@@ -1042,7 +1059,7 @@ gint wg_log_delete_record(void *db, gint enc)
   buf[0] = WG_JOURNAL_ENTRY_DEL;
   optr = &buf[1];
   optr += enc_varint(optr, (wg_uint) enc);
-  return write_log_buffer(db, (void *) buf, optr - buf);
+  return write_log_buffer(db, (void *) buf, optr - buf, 1);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
@@ -1058,7 +1075,7 @@ gint wg_log_encval(void *db, gint enc)
 #ifdef USE_DBLOG
   unsigned char buf[VARINT_SIZE];
   size_t buflen = enc_varint(buf, (wg_uint) enc);
-  return write_log_buffer(db, (void *) buf, buflen);
+  return write_log_buffer(db, (void *) buf, buflen, 1);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
@@ -1140,7 +1157,7 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
   if(extdata && !extlength)
     buf[0] |= WG_JOURNAL_ENTRY_EMPTYEXT;
 
-  err = write_log_buffer(db, (void *) buf, buflen);
+  err = write_log_buffer(db, (void *) buf, buflen, 0);
   free(buf);
   return err;
 #else
@@ -1161,7 +1178,7 @@ gint wg_log_set_field(void *db, void *rec, gint col, gint data)
   optr += enc_varint(optr, (wg_uint) ptrtooffset(db, rec));
   optr += enc_varint(optr, (wg_uint) col);
   optr += enc_varint(optr, (wg_uint) data);
-  return write_log_buffer(db, (void *) buf, optr - buf);
+  return write_log_buffer(db, (void *) buf, optr - buf, 1);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
@@ -1179,7 +1196,7 @@ gint wg_log_set_meta(void *db, void *rec, gint meta)
   optr = &buf[1];
   optr += enc_varint(optr, (wg_uint) ptrtooffset(db, rec));
   optr += enc_varint(optr, (wg_uint) meta);
-  return write_log_buffer(db, (void *) buf, optr - buf);
+  return write_log_buffer(db, (void *) buf, optr - buf, 1);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
diff --git a/Db/dblog.h b/Db/dblog.h
index 8cfc223..6849eb2 100644
--- a/Db/dblog.h
+++ b/Db/dblog.h
@@ -56,6 +56,7 @@ typedef struct {
   int fd;
   gint serial;
   int umask;
+  gint pending;   /** bytes written of the current, incomplete entry */
 } db_handle_logdata;
 
 /* ==== Protos ==== */
-- 
2.43.0


From 38a91b87bf20398fe0f0f985b43c197fd6c30922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:49 +0000
Subject: [PATCH 028/116] fix: dump reads the database size while holding the
 lock

---
 Db/dbdump.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index ecab351..11197d5 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -85,7 +85,7 @@ gint wg_dump(void * db,char fileName[]) {
 gint wg_dump_internal(void * db, char fileName[], int locking) {
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = dbh->free; /* first unused offset - 0 = db size */
+  gint dbsize;
 #ifdef USE_DBLOG
   gint active;
 #endif
@@ -115,6 +115,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     lock_id = db_rlock(db, DEFAULT_LOCK_TIMEOUT);
     if(!lock_id) {
       show_dump_error(db, "Failed to lock the database for dump");
+      fclose(f);
       return -1;
     }
   }
@@ -124,6 +125,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     lock_id = db_wlock(db, DEFAULT_LOCK_TIMEOUT);
     if(!lock_id) {
       show_dump_error(db, "Failed to lock the database for dump");
+      fclose(f);
       return -1;
     }
   }
@@ -134,6 +136,9 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
+  /* The size may have changed while waiting for the lock */
+  dbsize = dbh->free; /* first unused offset - 0 = db size */
+
   /* Compute the CRC32 of the used area */
   crc = update_crc32(dbmemsegbytes(db), dbsize, 0x0);
 
-- 
2.43.0


From 3587034d550fa590c55ed4b24bb4e18535bb38d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:49 +0000
Subject: [PATCH 029/116] fix: dump reports failure when the file could not be
 written

---
 Db/dbdump.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 11197d5..d848911 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -145,12 +145,16 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   /* Now, write the memory area to file */
   if(fwrite(dbmemseg(db), dbsize, 1, f) == 1) {
     /* Overwrite checksum field */
-    fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET);
-    if(fwrite(&crc, sizeof(gint32), 1, f) == 1) {
+    if(!fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET) && \
+      fwrite(&crc, sizeof(gint32), 1, f) == 1) {
       err = 0;
     }
   }
 
+  /* Buffered data may still fail to reach the file */
+  if(fclose(f))
+    err = -1;
+
   if(err)
     show_dump_error(db, "Error writing file");
 
@@ -179,9 +183,6 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  fflush(f);
-  fclose(f);
-
   return err;
 }
 
-- 
2.43.0


From 2c5dd1d044d72f4204a26b936379cb16b0467650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:49 +0000
Subject: [PATCH 030/116] fix: import refuses foreign and truncated dump files
 before touching the database

---
 Db/dbdump.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index d848911..6662468 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -303,9 +303,8 @@ gint wg_import_dump(void * db,char fileName[]) {
     return -1;
   }
 
-  /* Examine the dump header. We only read the size, it is
-   * implied that the integrity and compatibility were verified
-   * earlier.
+  /* Examine the dump header. The checksum is not verified here, it is
+   * implied that this was done earlier.
    */
   dumph = (db_memsegment_header *) malloc(sizeof(db_memsegment_header));
   if(!dumph) {
@@ -314,12 +313,17 @@ gint wg_import_dump(void * db,char fileName[]) {
   else if(fread(dumph, sizeof(db_memsegment_header), 1, f) != 1) {
     show_dump_error(db, "Error reading dump header");
   }
+  else if(wg_check_header_compat(dumph)) {
+    show_dump_error_str(db, "Incompatible dump file", fileName);
+  }
+  else if(dumph->extdbs.count != 0) {
+    show_dump_error(db, "Dump contains external references");
+  }
+  else if(fseek(f, 0, SEEK_END) || ftell(f) != dumph->free) {
+    show_dump_error_str(db, "File size incorrect", fileName);
+  }
   else {
     dbsize = dumph->free;
-    if(dumph->extdbs.count != 0) {
-      show_dump_error(db, "Dump contains external references");
-      goto abort;
-    }
   }
   if(dumph) free(dumph);
 
@@ -342,7 +346,6 @@ gint wg_import_dump(void * db,char fileName[]) {
     }
   }
 
-abort:
   fclose(f);
 
   /* any errors up to now? */
-- 
2.43.0


From d5192c604326282e53b29cd539deeacbb42e9bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:49 +0000
Subject: [PATCH 031/116] fix: import keeps the identity of the memory segment
 and its journal

---
 Db/dbdump.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 6662468..abdf42d 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -290,7 +290,9 @@ gint wg_import_dump(void * db,char fileName[]) {
   gint err = -1;
 #ifdef USE_DBLOG
   gint active = dbh->logging.active;
+  gint serial = dbh->logging.serial;
 #endif
+  gint key = dbh->key;
 
 
   /* Attempt to open the dump file */
@@ -341,8 +343,13 @@ gint wg_import_dump(void * db,char fileName[]) {
       err = -2; /* database is in undetermined state now */
     } else {
       err = 0;
+      /* these belong to the memory segment, not to its contents */
       dbh->size = newsize;
+      dbh->key = key;
       dbh->checksum = 0;
+#ifdef USE_DBLOG
+      dbh->logging.serial = serial;
+#endif
     }
   }
 
-- 
2.43.0


From 3192bbfe4e5d6662f7f0517eecc64c718c176eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:09 +0000
Subject: [PATCH 032/116] fix: a new journal file is never written through
 descriptors of the old one

---
 Db/dblog.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dblog.c b/Db/dblog.c
index a3f58db..09cb110 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -819,6 +819,7 @@ gint wg_start_logging(void *db)
       show_log_error(db, "Error initializing log file");
       JOURNAL_FAIL(fd, -3)
     }
+    dbh->logging.serial++; /* descriptors of the earlier file are stale */
   } else {
     /* check the magic header */
     if(check_journal(db, fd)) {
-- 
2.43.0


From 7701482b3302694b0cbd1e98fb0d25c4d1c29d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:28 +0000
Subject: [PATCH 033/116] fix: hash index reports an error when there is no
 space for the row

---
 Db/dbhash.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 0fde3b9..b022e07 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -495,6 +495,16 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
   if(rec_head && ((gcell *) offsettoptr(db, rec_head))->car == offset)
     return 0; /* a repeated value in the same (JSON) array */
   rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
+  if(!rec_offset) {
+    if(!rec_head) {
+      /* Do not leave a bucket without rows behind, it is the first one
+       * in the chain. */
+      dbstore(db, ((ha->arraystart)+(sizeof(gint) * hash)),
+        dbfetch(db, bucket + HASHIDX_HASHCHAIN_POS*sizeof(gint)));
+      wg_free_object(db, &(dbh->indexhash_area_header), bucket);
+    }
+    return -1;
+  }
   rec_cell = (gcell *) offsettoptr(db, rec_offset);
   rec_cell->car = offset;
   rec_cell->cdr = rec_head;
-- 
2.43.0


From 1f6896b11b3a3501fe04d1c595dac68845258a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:28 +0000
Subject: [PATCH 034/116] fix: a list of indexes is not lost when it cannot be
 extended

---
 Db/dbindex.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 8635055..e4ad9b8 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1721,15 +1721,15 @@ gint wg_search_hash(void *db, gint index_id, gint *values, gint count) {
  */
 static gint insert_into_list(void *db, gint *head, gint value) {
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint old = *head;
+  gint offset = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
 
-  *head = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
-  if(*head) {
-    gcell *listelem = (gcell *) offsettoptr(db, *head);
+  if(offset) {
+    gcell *listelem = (gcell *) offsettoptr(db, offset);
     listelem->car = value;
-    listelem->cdr = old;
+    listelem->cdr = *head;
+    *head = offset;
   }
-  return *head;
+  return offset;
 }
 
 /** Delete from list
-- 
2.43.0


From 7ef3b8c488ec727bf49f5f7c4759ff9a6c7ec1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:35 +0000
Subject: [PATCH 035/116] fix: creating an index without enough space fails
 without leaving parts of it

---
 Db/dbindex.c | 125 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 104 insertions(+), 21 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index e4ad9b8..f8c1e11 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -83,6 +83,8 @@ static gint drop_ttree_index(void *db, gint column);
 
 static gint insert_into_list(void *db, gint *head, gint value);
 static void delete_from_list(void *db, gint *head);
+static void remove_from_list(void *db, gint *head, gint value);
+static void discard_index(void *db, gint index_id);
 #ifdef USE_INDEX_TEMPLATE
 static gint add_index_template(void *db, gint *matchrec, gint reclen);
 static gint find_index_template(void *db, gint *matchrec, gint reclen);
@@ -1383,6 +1385,8 @@ static gint create_ttree_index(void *db, gint index_id){
   /* allocate (+ init) root node for new index tree and save
    * the offset into index_array */
   node = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
+  if(!node)
+    return -1;
   nodest =(struct wg_tnode *)offsettoptr(db,node);
   nodest->parent_offset = 0;
   nodest->left_subtree_height = 0;
@@ -1413,7 +1417,8 @@ static gint create_ttree_index(void *db, gint index_id){
       continue;
     }
     if(MATCH_TEMPLATE(db, hdr, rec)) {
-      ttree_add_row(db, index_id, rec);
+      if(ttree_add_row(db, index_id, rec))
+        return -1;
       rowsprocessed++;
     }
     rec=wg_get_next_record(db,rec);
@@ -1636,12 +1641,14 @@ static gint create_hash_index(void *db, gint index_id){
          * from the rows that point to them.
          */
         if(is_plain_record(rec)) {
-          hash_add_row(db, index_id, rec);
+          if(hash_add_row(db, index_id, rec))
+            return -1;
           rowsprocessed++;
         }
       } else {
         /* Add all rows normally */
-        hash_add_row(db, index_id, rec);
+        if(hash_add_row(db, index_id, rec))
+          return -1;
         rowsprocessed++;
       }
     }
@@ -1747,6 +1754,22 @@ static void delete_from_list(void *db, gint *head) {
     ptrtooffset(db, listelem));
 }
 
+/** Remove a value from list
+ *
+ * helper function to delete the first list element with the given
+ * value, if there is one.
+ */
+static void remove_from_list(void *db, gint *head, gint value) {
+  while(*head) {
+    gcell *listelem = (gcell *) offsettoptr(db, *head);
+    if(listelem->car == value) {
+      delete_from_list(db, head);
+      break;
+    }
+    head = &listelem->cdr;
+  }
+}
+
 #ifdef USE_INDEX_TEMPLATE
 
 /** Add index template
@@ -1835,26 +1858,37 @@ nextelem:
 #ifdef USE_DBLOG
   if(dbh->logging.active) {
     if(wg_log_set_meta(db, rec,
-      *meta | RECORD_META_NOTDATA | RECORD_META_MATCH))
+      *meta | RECORD_META_NOTDATA | RECORD_META_MATCH)) {
+      wg_delete_record(db, rec);
       return 0;
+    }
   }
 #endif
   *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
   for(i=0; i<reclen; i++) {
-    if(wg_set_new_field(db, rec, i, matchrec[i]) < 0)
+    if(wg_set_new_field(db, rec, i, matchrec[i]) < 0) {
+      wg_delete_record(db, rec);
       return 0;
+    }
   }
 
   /* Add new template header */
   template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
+  if(!template_offset) {
+    wg_delete_record(db, rec);
+    return 0;
+  }
   tmpl = (wg_index_template *) offsettoptr(db, template_offset);
   tmpl->offset_matchrec = ptrtooffset(db, rec);
   tmpl->fixed_columns = fixed_columns;
   tmpl->refcount = 0;
 
   /* Insert it into the template list */
-  if(!insert_into_list(db, ilist, template_offset))
+  if(!insert_into_list(db, ilist, template_offset)) {
+    wg_free_fixlen_object(db, &dbh->indextmpl_area_header, template_offset);
+    wg_delete_record(db, rec);
     return 0;
+  }
 
   return template_offset;
 }
@@ -2213,20 +2247,17 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 
   /* Add new index header */
   index_id = wg_alloc_fixlen_object(db, &dbh->indexhdr_area_header);
-
-  for(i=0; i<col_count; i++) {
-    if(!insert_into_list(db, ilist[i], index_id)) {
-      if(i) {
-        /* XXX: need to clean up the earlier inserts :-( */
-        return -1;
-      } else {
-        return -1;
-      }
-    }
+  if(!index_id) {
+#ifdef USE_INDEX_TEMPLATE
+    if(tmpl && !tmpl->refcount)
+      remove_index_template(db, template_offset);
+#endif
+    return -1;
   }
 
   /* Set up the header */
   hdr = (wg_index_header *) offsettoptr(db, index_id);
+  memset(hdr, 0, sizeof(wg_index_header));
   hdr->type = type;
   hdr->fields = col_count;
   for(i=0; i < col_count; i++) {
@@ -2234,27 +2265,42 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
   }
   hdr->template_offset = template_offset;
 
+  for(i=0; i<col_count; i++) {
+    if(!insert_into_list(db, ilist[i], index_id)) {
+      discard_index(db, index_id);
+      return -1;
+    }
+  }
+
   /* create the actual index */
   switch(hdr->type) {
     case WG_INDEX_TYPE_TTREE:
-      create_ttree_index(db, index_id);
+      if(create_ttree_index(db, index_id)) {
+        discard_index(db, index_id);
+        return -1;
+      }
       break;
     case WG_INDEX_TYPE_HASH:
     case WG_INDEX_TYPE_HASH_JSON:
-      if(create_hash_index(db, index_id))
+      if(create_hash_index(db, index_id)) {
+        discard_index(db, index_id);
         return -1;
+      }
       break;
     case WG_INDEX_TYPE_TTREE_JSON:
       /* Return an error, until proper implementation exists */
     default:
       show_index_error(db, "Invalid index type");
+      discard_index(db, index_id);
       return -1;
   }
 
   /* Add to master list */
   if(!insert_into_list(db,
-     &dbh->index_control_area_header.index_list ,index_id))
+     &dbh->index_control_area_header.index_list ,index_id)) {
+    discard_index(db, index_id);
     return -1;
+  }
 
 #ifdef USE_INDEX_TEMPLATE
   if(hdr->template_offset) {
@@ -2267,8 +2313,10 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
          */
         if(!insert_into_list(db,
           &(dbh->index_control_area_header.index_template_table[i]),
-          index_id))
-          return 0;
+          index_id)) {
+          discard_index(db, index_id);
+          return -1;
+        }
       }
     }
   }
@@ -2285,6 +2333,41 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 }
 
 
+/** Remove everything that was created for an index so far
+ *
+ * Called when creating an index fails. The main table of a hash index
+ * is not released (see drop_hash_index()).
+ */
+static void discard_index(void *db, gint index_id) {
+  gint i;
+  db_memsegment_header* dbh = dbmemsegh(db);
+  wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
+
+  remove_from_list(db, &dbh->index_control_area_header.index_list, index_id);
+  for(i=0; i<=MAX_INDEXED_FIELDNR; i++) {
+    remove_from_list(db,
+      &dbh->index_control_area_header.index_table[i], index_id);
+#ifdef USE_INDEX_TEMPLATE
+    remove_from_list(db,
+      &dbh->index_control_area_header.index_template_table[i], index_id);
+#endif
+  }
+
+  if(hdr->type == WG_INDEX_TYPE_TTREE)
+    drop_ttree_index(db, index_id);
+
+#ifdef USE_INDEX_TEMPLATE
+  if(hdr->template_offset) {
+    wg_index_template *tmpl = \
+      (wg_index_template *) offsettoptr(db, hdr->template_offset);
+    if(!tmpl->refcount)
+      remove_index_template(db, hdr->template_offset);
+  }
+#endif
+
+  wg_free_fixlen_object(db, &dbh->indexhdr_area_header, index_id);
+}
+
 /** Drop index by index id
 *
 *  returns:
-- 
2.43.0


From 5bffe6fd18766f8cb3847f23fe9ce0a92047bf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:35 +0000
Subject: [PATCH 036/116] fix: ordered index keeps all its rows when there is
 no space for another node

---
 Db/dbindex.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index f8c1e11..2b1cdb3 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -504,9 +504,10 @@ static gint ttree_add_row(void *db, gint index_id, void *rec) {
       //still, insert the value here, but move minimum out of this node
       //get the minimum element from this node
       int i, j;
-      gint cr, minvalue, minvaluerowoffset;
+      gint cr, minvalue, minvaluerowoffset, maxvalue;
 
       minvalue = node->current_min;
+      maxvalue = node->current_max;
       minvaluerowoffset = node->array_of_values[0];
 
       /* Now scan for the matching slot. However, since
@@ -564,7 +565,16 @@ static gint ttree_add_row(void *db, gint index_id, void *rec) {
         //create, initialize and save first value
         struct wg_tnode *leaf;
         gint newnode = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
-        if(newnode == 0)return -1;
+        if(newnode == 0) {
+          /* No space, put the former minimum back into its node */
+          node = (struct wg_tnode *)offsettoptr(db,bnodeoffset);
+          for(j=i; j>0; j--)
+            node->array_of_values[j] = node->array_of_values[j-1];
+          node->array_of_values[0] = minvaluerowoffset;
+          node->current_min = minvalue;
+          node->current_max = maxvalue;
+          return -1;
+        }
         leaf =(struct wg_tnode *)offsettoptr(db,newnode);
         leaf->parent_offset = ptrtooffset(db,node);
         leaf->left_subtree_height = 0;
-- 
2.43.0


From 9ce4763febcb4a668986ff2fe55d3b2d369bccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:35 +0000
Subject: [PATCH 037/116] fix: a record that could not be indexed is not left
 in the database

---
 Db/dbdata.c   |  4 +++-
 Db/dbschema.c | 13 ++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index b9dba00..6ab3cef 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -120,8 +120,10 @@ void* wg_create_record(void* db, wg_int length) {
   void *rec = wg_create_raw_record(db, length);
   /* Index all the created NULL fields to ensure index consistency */
   if(rec) {
-    if(wg_index_add_rec(db, rec) < -1)
+    if(wg_index_add_rec(db, rec) < -1) {
+      wg_delete_record(db, rec);
       return NULL; /* index error */
+    }
   }
   return rec;
 }
diff --git a/Db/dbschema.c b/Db/dbschema.c
index b826755..965d574 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -81,15 +81,16 @@ void *wg_create_triple(void *db, gint subj, gint prop, gint ob, gint isparam) {
 #endif
       *metap = meta;
     } else if(wg_index_add_rec(db, rec) < -1) {
+      wg_delete_record(db, rec);
       return NULL; /* index error */
     }
 
-    if(wg_set_field(db, rec, WG_SCHEMA_TRIPLE_OFFSET, subj))
-      return NULL;
-    if(wg_set_field(db, rec, WG_SCHEMA_TRIPLE_OFFSET + 1, prop))
-      return NULL;
-    if(wg_set_field(db, rec, WG_SCHEMA_TRIPLE_OFFSET + 2, ob))
+    if(wg_set_field(db, rec, WG_SCHEMA_TRIPLE_OFFSET, subj) ||
+      wg_set_field(db, rec, WG_SCHEMA_TRIPLE_OFFSET + 1, prop) ||
+      wg_set_field(db, rec, WG_SCHEMA_TRIPLE_OFFSET + 2, ob)) {
+      wg_delete_record(db, rec);
       return NULL;
+    }
   }
   return rec;
 }
@@ -122,6 +123,7 @@ void *wg_create_array(void *db, gint size, gint isdocument, gint isparam) {
     *metap = meta;
     if(!isparam) {
       if(wg_index_add_rec(db, rec) < -1) {
+        wg_delete_record(db, rec);
         return NULL; /* index error */
       }
     }
@@ -157,6 +159,7 @@ void *wg_create_object(void *db, gint size, gint isdocument, gint isparam) {
     *metap = meta;
     if(!isparam) {
       if(wg_index_add_rec(db, rec) < -1) {
+        wg_delete_record(db, rec);
         return NULL; /* index error */
       }
     }
-- 
2.43.0


From db7c1a8a4fb3b75e34620279e81b6bd114b223a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:00 +0000
Subject: [PATCH 038/116] fix: a link stored in a field gets its parent entry
 although an index update fails

---
 Db/dbdata.c | 63 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 6ab3cef..8d6a385 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -712,8 +712,13 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
     dbh->index_control_area_header.index_table[fieldnr]) {
 #endif
-    if(wg_index_del_field(db, record, fieldnr) < -1)
+    if(wg_index_del_field(db, record, fieldnr) < -1) {
+#ifdef USE_BACKLINKING
+      if(new_offset)
+        wg_free_listcell(db, new_offset);
+#endif
       return -3; /* index error */
+    }
   }
 
   /* If there are backlinks, go up the chain and remove the reference
@@ -733,6 +738,8 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
         (gint *) offsettoptr(db, next->car),
         rec_enc, WG_COMPARE_REC_DEPTH-1);
       if(err) {
+        if(new_offset)
+          wg_free_listcell(db, new_offset);
         return -4; /* override the error code, for now. */
       }
       if(!next->cdr)
@@ -791,19 +798,6 @@ setfld_backlink_removed:
   }
   (*fieldadr)=data; // store data to field
 
-  /* Update index after new value is written */
-#ifdef USE_INDEX_TEMPLATE
-  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
-    (dbh->index_control_area_header.index_table[fieldnr] ||\
-     dbh->index_control_area_header.index_template_table[fieldnr])) {
-#else
-  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
-    dbh->index_control_area_header.index_table[fieldnr]) {
-#endif
-    if(wg_index_add_field(db, record, fieldnr) < -1)
-      return -3;
-  }
-
 #ifdef USE_BACKLINKING
   /* Is the new field value a record pointer? If so, add a backlink */
 #ifdef USE_CHILD_DB
@@ -824,6 +818,19 @@ setfld_backlink_removed:
   }
 #endif
 
+  /* Update index after new value is written */
+#ifdef USE_INDEX_TEMPLATE
+  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
+    (dbh->index_control_area_header.index_table[fieldnr] ||\
+     dbh->index_control_area_header.index_template_table[fieldnr])) {
+#else
+  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
+    dbh->index_control_area_header.index_table[fieldnr]) {
+#endif
+    if(wg_index_add_field(db, record, fieldnr) < -1)
+      return -3;
+  }
+
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
   /* Create new entries in indexes in all referring records. The list is
    * read again: if the old or the new value links to this very record, the
@@ -964,6 +971,8 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
         (gint *) offsettoptr(db, next->car),
         rec_enc, WG_COMPARE_REC_DEPTH-1);
       if(err) {
+        if(new_offset)
+          wg_free_listcell(db, new_offset);
         return -4;
       }
       if(!next->cdr)
@@ -985,19 +994,6 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
     ++(*(strptr+LONGSTR_REFCOUNT_POS));
   }
 
-  /* Update index after new value is written */
-#ifdef USE_INDEX_TEMPLATE
-  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
-    (dbh->index_control_area_header.index_table[fieldnr] ||\
-     dbh->index_control_area_header.index_template_table[fieldnr])) {
-#else
-  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
-    dbh->index_control_area_header.index_table[fieldnr]) {
-#endif
-    if(wg_index_add_field(db, record, fieldnr) < -1)
-      return -3;
-  }
-
 #ifdef USE_BACKLINKING
   /* Is the new field value a record pointer? If so, add a backlink */
 #ifdef USE_CHILD_DB
@@ -1018,6 +1014,19 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+  /* Update index after new value is written */
+#ifdef USE_INDEX_TEMPLATE
+  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
+    (dbh->index_control_area_header.index_table[fieldnr] ||\
+     dbh->index_control_area_header.index_template_table[fieldnr])) {
+#else
+  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
+    dbh->index_control_area_header.index_table[fieldnr]) {
+#endif
+    if(wg_index_add_field(db, record, fieldnr) < -1)
+      return -3;
+  }
+
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
   /* Create new entries in indexes in all referring records. */
   backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
-- 
2.43.0


From ea45c2f9876709fde7836fa5cc0ed5b0600da310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:39 +0000
Subject: [PATCH 039/116] fix: deleting a document from a full database does
 not need space in its indexes

---
 Db/dbschema.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/Db/dbschema.c b/Db/dbschema.c
index 965d574..4bc6f78 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -241,27 +241,45 @@ gint wg_delete_document(void *db, void *document) {
  * This is safe to call on JSON documents.
  */
 static gint delete_record_recursive(void *db, void *rec, int depth) {
-  gint i, reclen;
+  gint i, reclen, indexed;
+  gint *metap = ((gint *) rec + RECORD_META_POS);
   if(depth <= 0) {
     return show_schema_error(db, "deleting record: recursion too deep");
   }
 
+  /* The record leaves the indexes before it is taken apart, otherwise each
+   * change would need space in them.
+   */
+  indexed = !is_special_record(rec);
+  if(indexed) {
+    if(wg_index_del_rec(db, rec) < -1)
+      return -1;
+    *metap |= RECORD_META_NOTDATA;
+  }
+
   reclen = wg_get_record_len(db, rec);
   for(i=0; i<reclen; i++) {
     gint enc = wg_get_field(db, rec, i);
     gint type = wg_get_encoded_type(db, enc);
     if(type == WG_RECORDTYPE) {
       if(wg_set_field(db, rec, i, 0))
-        return -1;
+        goto keep;
       if(delete_record_recursive(db, wg_decode_record(db, enc), depth-1))
-        return -1;
+        goto keep;
     }
   }
 
   if(wg_delete_record(db, rec))
-    return -1;
+    goto keep;
 
   return 0;
+
+keep:
+  if(indexed) {
+    *metap &= ~RECORD_META_NOTDATA;
+    wg_index_add_rec(db, rec);
+  }
+  return -1;
 }
 
 /* ------------ error handling ---------------- */
-- 
2.43.0


From 2aa502bdb8fc58f6682d562f32cc086c615e824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:26 +0000
Subject: [PATCH 040/116] fix: waiting for a queued lock ends only when the
 lock was handed over

---
 Db/dblock.c | 48 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index 29ced95..7520bbb 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1028,15 +1028,25 @@ gint db_tfqueue_wlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
+    /* The wait may also end early (signals, wakeups meant for a previous
+     * user of the lock node), so the state is checked each time.
+     */
+    while(lockp->waiting) {
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+        lock_queue(db);
+        if(lockp->waiting) {
+          DEQUEUE_LOCK(db, dbh, lock, lockp)
+          free_lock(db, lock);
+          unlock_queue(db);
+          return 0;
+        }
+        /* The lock was handed to us in the meantime. */
+        unlock_queue(db);
+      }
     }
 #else
-    futex_wait(&lockp->waiting, 1);
+    while(lockp->waiting)
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
@@ -1145,15 +1155,25 @@ gint db_tfqueue_rlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
+    /* The wait may also end early (signals, wakeups meant for a previous
+     * user of the lock node), so the state is checked each time.
+     */
+    while(lockp->waiting) {
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+        lock_queue(db);
+        if(lockp->waiting) {
+          DEQUEUE_LOCK(db, dbh, lock, lockp)
+          free_lock(db, lock);
+          unlock_queue(db);
+          return 0;
+        }
+        /* The lock was handed to us in the meantime. */
+        unlock_queue(db);
+      }
     }
 #else
-    futex_wait(&lockp->waiting, 1);
+    while(lockp->waiting)
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
-- 
2.43.0


From e50cce5b1c5fd0a982ff21822a98d433932cae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:26 +0000
Subject: [PATCH 041/116] fix: atomic addition keeps the full range of short
 integers

---
 Db/dbdata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 8d6a385..6a198f5 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1222,8 +1222,8 @@ wg_int wg_set_atomic_field(void* db, void* record, wg_int fieldnr, wg_int data)
 
 wg_int wg_add_int_atomic_field(void* db, void* record, wg_int fieldnr, int data) {
   gint* fieldadr;
-  gint old,nxt,r;
-  int i,sum;
+  gint old,nxt,r,sum;
+  int i;
 #ifdef _WIN32
   int ts=1;
 #else
-- 
2.43.0


From 8c99526802ba1295477de1d79d401cfe1c5e2d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:55 +0000
Subject: [PATCH 042/116] fix: JSON files that are empty or end at a chunk
 boundary are not skipped silently

---
 Db/dbjson.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index b80c020..10baf43 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -220,8 +220,9 @@ gint wg_parse_json_file(void *db, const char *filename) {
       if(!feof(f)) {
         show_json_error_byte(db, "Read error", count);
         result = -1;
+        goto done;
       }
-      goto done;
+      break; /* the input ended at a chunk boundary */
     }
     if(yajl_parse(hand, (unsigned char *) &buf[count], rd) != yajl_status_ok) {
       unsigned char *errtxt = yajl_get_error(hand, 1,
-- 
2.43.0


From eab538ca856b3eb9157f1441515b8bfedc126103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 043/116] fix: JSON keys longer than 79 bytes are not truncated

---
 Db/dbjson.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 10baf43..ac70aac 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -92,7 +92,7 @@ typedef struct {
   stack_entry_t type;
   stack_entry_elem *head;
   stack_entry_elem *tail;
-  char last_key[80];
+  char *last_key;
   int size;
 } stack_entry;
 
@@ -418,6 +418,20 @@ static gint run_json_parser(void *db, const char *buf,
   }
 
 done:
+  /* a failed parse leaves unfinished levels behind */
+  for(; ctx.stack_ptr >= 0; ctx.stack_ptr--) {
+    stack_entry *e;
+    if(ctx.stack_ptr >= MAX_DEPTH)
+      continue;
+    e = &ctx.stack[ctx.stack_ptr];
+    while(e->head) {
+      stack_entry_elem *tmp = e->head;
+      e->head = e->head->next;
+      free(tmp);
+    }
+    if(e->last_key)
+      free(e->last_key);
+  }
   if(hand) yajl_free(hand);
   return result;
 }
@@ -452,6 +466,7 @@ static int push(parser_context *ctx, stack_entry_t type)
   e->type = type;
   e->head = NULL;
   e->tail = NULL;
+  e->last_key = NULL;
   return 1;
 }
 
@@ -511,6 +526,10 @@ static int pop(parser_context *ctx)
   }
   e->tail = NULL;
   e->size = 0;
+  if(e->last_key) {
+    free(e->last_key);
+    e->last_key = NULL;
+  }
 
   /* is it an element of something? */
   if(!istoplevel && rec && ret) {
@@ -549,7 +568,7 @@ static int add_elem(parser_context *ctx, gint enc)
 }
 
 /**
- * Store a key in the current stack entry.
+ * Store a key in the current stack entry. The entry takes over the buffer.
  */
 static int add_key(parser_context *ctx, char *key)
 {
@@ -559,8 +578,9 @@ static int add_key(parser_context *ctx, char *key)
     return 0; /* paranoia */
 
   e = &ctx->stack[ctx->stack_ptr];
-  strncpy(e->last_key, key, 80);
-  e->last_key[79] = '\0';
+  if(e->last_key)
+    free(e->last_key);
+  e->last_key = key;
   return 1;
 }
 
@@ -681,12 +701,12 @@ static int object_key_cb(void* cb_ctx, const unsigned char * strval,
   strncpy(buf, (char *) strval, strl);
   buf[strl] = '\0';
 
+/*  OUT_INDENT(ctx->stack_ptr+1, i, stdout)
+  printf("KEY: %s\n", buf);*/
   if(!add_key(ctx, buf)) {
+    free(buf);
     res = 0;
   }
-/*  OUT_INDENT(ctx->stack_ptr+1, i, stdout)
-  printf("KEY: %s\n", buf);*/
-  free(buf);
   return res;
 }
 
-- 
2.43.0


From 17970de03633620fecdeff6410349974fc34e7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 044/116] fix: the JSON check rejects numbers that the import
 cannot represent

---
 Db/dbjson.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index ac70aac..e69b91d 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -118,6 +118,8 @@ static gint run_json_parser(void *db, const char *buf,
   yajl_callbacks *cb, int isparam, int isdocument, void **document);
 static int check_push_cb(void* cb_ctx);
 static int check_pop_cb(void* cb_ctx);
+static int check_integer_cb(void* cb_ctx, long long intval);
+static int check_double_cb(void* cb_ctx, double doubleval);
 static int array_begin_cb(void* cb_ctx);
 static int array_end_cb(void* cb_ctx);
 static int object_begin_cb(void* cb_ctx);
@@ -141,8 +143,8 @@ static gint show_json_error_byte(void *db, const char *errmsg, int byte);
 yajl_callbacks validate_cb = {
     NULL,
     NULL,
-    NULL,
-    NULL,
+    check_integer_cb, /* without these, the parser skips the range check */
+    check_double_cb,
     NULL,
     NULL,
     check_push_cb,
@@ -453,6 +455,16 @@ static int check_pop_cb(void* cb_ctx)
   return 1;
 }
 
+static int check_integer_cb(void* cb_ctx, long long intval)
+{
+  return 1;
+}
+
+static int check_double_cb(void* cb_ctx, double doubleval)
+{
+  return 1;
+}
+
 /**
  * Push an object or an array on the stack.
  */
-- 
2.43.0


From 227f1544b5b01256e77c418f303091944417305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:25 +0000
Subject: [PATCH 045/116] fix: numbers are printed with their full range and
 precision in JSON

---
 Db/dbjson.c | 15 ++++++++++++++-
 Db/dbutil.c |  7 +++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index e69b91d..a540c54 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -30,6 +30,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
+#include <stddef.h>
 
 
 /* ====== Private headers and defs ======== */
@@ -60,6 +61,7 @@ extern "C" {
 #ifdef _WIN32
 #define strncpy(d, s, sz) strncpy_s(d, sz+1, s, sz)
 #define strnlen strnlen_s
+#define snprintf(s, sz, f, ...) _snprintf_s(s, sz+1, sz, f, ## __VA_ARGS__)
 #endif
 
 #ifdef USE_BACKLINKING
@@ -880,7 +882,18 @@ static int pretty_print_jsonval(void *db, yajl_gen *g, gint enc)
     /* other literal value */
     size_t len;
     char buf[80];
-    wg_snprint_value(db, enc, buf, 79);
+    if(type == WG_INTTYPE) {
+      snprintf(buf, 79, "%td", (ptrdiff_t) wg_decode_int(db, enc));
+    } else if(type == WG_DOUBLETYPE) {
+      double val = wg_decode_double(db, enc);
+      snprintf(buf, 79, "%.15g", val);
+      if(strtod(buf, NULL) != val)
+        snprintf(buf, 79, "%.17g", val); /* 15 digits are not enough */
+      if(!buf[strspn(buf, "-0123456789")])
+        strcat(buf, ".0"); /* otherwise it would be read as an integer */
+    } else {
+      wg_snprint_value(db, enc, buf, 79);
+    }
     len = strlen(buf);
     if(type == WG_INTTYPE || type == WG_DOUBLETYPE ||\
       type == WG_FIXPOINTTYPE) {
diff --git a/Db/dbutil.c b/Db/dbutil.c
index 5716487..3047064 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -34,6 +34,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <errno.h>
+#include <stddef.h>
 
 #ifdef HAVE_RAPTOR
 #include <raptor.h>
@@ -246,8 +247,7 @@ void wg_snprint_value(void *db, gint enc, char *buf, int buflen) {
         snprint_record(db, (wg_int*)ptrdata, buf+len, buflen-len);
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      snprintf(buf, buflen, "%d", intdata);
+      snprintf(buf, buflen, "%td", (ptrdiff_t) wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
@@ -354,8 +354,7 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
       snprintf(buf, buflen, "\"<record offset %d>\"", intdata);
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      snprintf(buf, buflen, "%d", intdata);
+      snprintf(buf, buflen, "%td", (ptrdiff_t) wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
-- 
2.43.0


From 7823c72839110ee26dc611aa59488bb4e20892ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:25 +0000
Subject: [PATCH 046/116] fix: the deepest documents that can be imported can
 be found, searched and deleted

---
 Db/dbquery.c  |  2 +-
 Db/dbschema.c | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index d6f4639..26bff25 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1971,7 +1971,7 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
           rec, &arglist[i], next_set, 99);
 #else
         gint rc = check_and_merge_recursively(db,
-          rec, &arglist[i], next_set, WG_COMPARE_REC_DEPTH);
+          rec, &arglist[i], next_set, 2*WG_COMPARE_REC_DEPTH+1);
 #endif
         IF_ERR_CLEAN_UP(db, curr_res, next_set, sorted_arglist, rc)
       }
diff --git a/Db/dbschema.c b/Db/dbschema.c
index 4bc6f78..bb814f7 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -57,6 +57,13 @@ static void *find_document_recursive(void *db, gint *rec, int depth);
 static gint delete_record_recursive(void *db, void *rec, int depth);
 static gint show_schema_error(void *db, char *errmsg);
 
+/* Each level of a document may take two levels of records: the key-value
+ * pair and the object or array.
+ */
+#ifdef USE_BACKLINKING
+#define DOCUMENT_DEPTH (2*WG_COMPARE_REC_DEPTH+1)
+#endif
+
 /* ====== Functions ============== */
 
 /*
@@ -177,7 +184,7 @@ void *wg_find_document(void *db, void *rec) {
   show_schema_error(db, "Backlinks are required to find complete documents");
   return NULL;
 #else
-  return find_document_recursive(db, (gint *) rec, WG_COMPARE_REC_DEPTH-1);
+  return find_document_recursive(db, (gint *) rec, DOCUMENT_DEPTH-1);
 #endif
 }
 
@@ -232,7 +239,7 @@ gint wg_delete_document(void *db, void *document) {
 #ifndef USE_BACKLINKING
   return delete_record_recursive(db, document, 99);
 #else
-  return delete_record_recursive(db, document, WG_COMPARE_REC_DEPTH);
+  return delete_record_recursive(db, document, DOCUMENT_DEPTH);
 #endif
 }
 
-- 
2.43.0


From 3aec10e359bc39eba376f2ff71a540e27c52d598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:25 +0000
Subject: [PATCH 047/116] fix: JSON queries ignore records that are not part of
 a document

---
 Db/dbquery.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 26bff25..67252fe 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1605,7 +1605,8 @@ static query_result_set *unique_resultset(void *db, query_result_set *set)
  * -1 adding the document failed
  * 1 adding the document succeeded
  * (0 is reserved for using this macro in a recursive function
- * to differentiate between matches and non-matches)
+ * to differentiate between matches and non-matches; it also means
+ * that the record does not belong to any document)
  */
 #define ADD_DOC_TO_RESULTSET(db, rec, ns, rc) \
   void *doc = wg_find_document(db, rec); \
@@ -1615,7 +1616,7 @@ static query_result_set *unique_resultset(void *db, query_result_set *set)
     else \
       rc = -1; \
   } else { \
-    rc = show_query_error(db, "Failed to retrieve the document"); \
+    rc = 0; \
   }
 
 #define IF_ERR_CLEAN_UP(db, cr, ns, al, rc) \
@@ -1645,6 +1646,17 @@ static query_result_set *unique_resultset(void *db, query_result_set *set)
     } \
   }
 
+/*
+ * Check if a record is a key-value pair of a document. Records of other
+ * kinds (data rows, array records) may have the same field contents.
+ */
+static int is_kvpair(void *db, void *rec)
+{
+  return (!is_special_record(rec) && !is_schema_document(rec) &&\
+    !is_schema_object(rec) && !is_schema_array(rec) &&\
+    wg_get_record_len(db, rec) == WG_SCHEMA_TRIPLE_SIZE);
+}
+
 /*
  * Check if a record matches a key-value pair given in a query
  * clause. If the value is an array in the record, each member
@@ -1660,9 +1672,7 @@ static gint check_and_merge_by_kv(void *db, void *rec,
   wg_json_query_arg *arg, query_result_set *next_set)
 {
   gint rc = 0;
-  gint reclen = wg_get_record_len(db, rec);
-  if(reclen > WG_SCHEMA_VALUE_OFFSET) { /* XXX: assume key
-                                         * before value */
+  if(is_kvpair(db, rec)) {
 #ifndef JSON_SCAN_UNWRAP_ARRAY
     if(WG_COMPARE(db, wg_get_field(db, rec, WG_SCHEMA_KEY_OFFSET),
       arg->key) == WG_EQUAL &&\
@@ -1699,8 +1709,7 @@ static gint check_and_merge_by_key(void *db, void *rec,
   wg_json_query_arg *arg, query_result_set *next_set)
 {
   gint rc = 0;
-  gint reclen = wg_get_record_len(db, rec);
-  if(reclen > WG_SCHEMA_VALUE_OFFSET) {
+  if(is_kvpair(db, rec)) {
 #ifndef JSON_SCAN_UNWRAP_ARRAY
     if(WG_COMPARE(db, wg_get_field(db, rec, WG_SCHEMA_VALUE_OFFSET),
       arg->value) == WG_EQUAL)
@@ -1905,10 +1914,12 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
         gint *nextoffset = &reclist_offset;
         while(*nextoffset) {
           gcell *rec_cell = (gcell *) offsettoptr(db, *nextoffset);
-          gint rc = -1;
-          ADD_DOC_TO_RESULTSET(db, offsettoptr(db, rec_cell->car),
-            next_set, rc)
-          IF_ERR_CLEAN_UP(db, curr_res, next_set, sorted_arglist, rc)
+          if(is_kvpair(db, offsettoptr(db, rec_cell->car))) {
+            gint rc = -1;
+            ADD_DOC_TO_RESULTSET(db, offsettoptr(db, rec_cell->car),
+              next_set, rc)
+            IF_ERR_CLEAN_UP(db, curr_res, next_set, sorted_arglist, rc)
+          }
           nextoffset = &(rec_cell->cdr);
         }
       }
-- 
2.43.0


From 38d42aa69ef1f1c2b72b76da75af147cb52ff89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:25 +0000
Subject: [PATCH 048/116] fix: parsing JSON without a top-level array or object
 is an error

---
 Db/dbjson.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index a540c54..0ac899d 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -402,6 +402,7 @@ static gint run_json_parser(void *db, const char *buf,
   ctx.isparam = isparam;
   ctx.isdocument = isdocument;
   ctx.document = document;
+  *document = NULL;
 
   /* setup parser */
   hand = yajl_alloc(cb, NULL, (void *) &ctx);
@@ -420,6 +421,9 @@ static gint run_json_parser(void *db, const char *buf,
     show_json_error(db, "JSON parsing failed");
     result = -2; /* Fatal error */
   }
+  else if(!(*document)) {
+    result = show_json_error(db, "No array or object found in JSON");
+  }
 
 done:
   /* a failed parse leaves unfinished levels behind */
-- 
2.43.0


From d56074a00163a92714f65c590bd872527ac29aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 049/116] fix: a document that something else refers to is not
 partly deleted

---
 Db/dbschema.c | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/Db/dbschema.c b/Db/dbschema.c
index bb814f7..a9d06b1 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -55,6 +55,10 @@ extern "C" {
 static void *find_document_recursive(void *db, gint *rec, int depth);
 #endif
 static gint delete_record_recursive(void *db, void *rec, int depth);
+#ifdef USE_BACKLINKING
+static gint check_deletable_recursive(void *db, void *rec, void *parent,
+  int depth);
+#endif
 static gint show_schema_error(void *db, char *errmsg);
 
 /* Each level of a document may take two levels of records: the key-value
@@ -239,10 +243,52 @@ gint wg_delete_document(void *db, void *document) {
 #ifndef USE_BACKLINKING
   return delete_record_recursive(db, document, 99);
 #else
+  /* Nothing is deleted, if something else refers to the document */
+  if(check_deletable_recursive(db, document, NULL, DOCUMENT_DEPTH))
+    return -1;
   return delete_record_recursive(db, document, DOCUMENT_DEPTH);
 #endif
 }
 
+#ifdef USE_BACKLINKING
+/*
+ * Check that a record and all the records it points to are only
+ * referred to from inside the same document. Each of the records
+ * should have its parent as the single reference.
+ * returns 0 if the record may be deleted
+ * returns -1 otherwise
+ */
+static gint check_deletable_recursive(void *db, void *rec, void *parent,
+  int depth) {
+  gint i, reclen;
+  gint backlink_list = *((gint *) rec + RECORD_BACKLINKS_POS);
+  if(depth <= 0) {
+    return show_schema_error(db, "deleting record: recursion too deep");
+  }
+  if(parent) {
+    gcell *first;
+    if(!backlink_list)
+      return show_schema_error(db, "deleting record: not a local record");
+    first = (gcell *) offsettoptr(db, backlink_list);
+    if(first->cdr || offsettoptr(db, first->car) != parent)
+      return show_schema_error(db, "deleting record: still referenced");
+  } else if(backlink_list) {
+    return show_schema_error(db, "deleting document: still referenced");
+  }
+
+  reclen = wg_get_record_len(db, rec);
+  for(i=0; i<reclen; i++) {
+    gint enc = wg_get_field(db, rec, i);
+    if(wg_get_encoded_type(db, enc) == WG_RECORDTYPE) {
+      if(check_deletable_recursive(db, wg_decode_record(db, enc), rec,
+        depth-1))
+        return -1;
+    }
+  }
+  return 0;
+}
+#endif
+
 /*
  * Delete a record and all the records it points to.
  * This is safe to call on JSON documents.
-- 
2.43.0


From b7587b06f1e545be2388f4aba7d361f23b865685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:50 +0000
Subject: [PATCH 050/116] fix: JSON text that ends in an unfinished token after
 the document is rejected

---
 json/yajl_all.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/json/yajl_all.c b/json/yajl_all.c
index d7b3a56..8e91a6b 100644
--- a/json/yajl_all.c
+++ b/json/yajl_all.c
@@ -1695,6 +1695,21 @@ yajl_do_finish(yajl_handle hand)
             return yajl_status_error;
         case yajl_state_got_value:
         case yajl_state_parse_complete:
+            /* the value may be followed by an unfinished token, which is an
+             * error unless it is a comment that lasts until the end of line */
+            if (!(hand->flags & yajl_allow_trailing_garbage) &&
+                hand->lexer && hand->lexer->bufInUse)
+            {
+                const unsigned char * rest = yajl_buf_data(hand->lexer->buf);
+                size_t restLen = yajl_buf_len(hand->lexer->buf);
+                if (restLen && !(restLen >= 2 &&
+                                 rest[0] == '/' && rest[1] == '/'))
+                {
+                    yajl_bs_set(hand->stateStack, yajl_state_parse_error);
+                    hand->parseError = "premature EOF";
+                    return yajl_status_error;
+                }
+            }
             return yajl_status_ok;
         default:
             if (!(hand->flags & yajl_allow_partial_values))
-- 
2.43.0


From 52b7c2c71dffa4b40e45aa126f9ae219a459ad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:22 +0000
Subject: [PATCH 051/116] fix: the character after an unpaired surrogate in a
 JSON string is not lost

---
 json/yajl_all.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json/yajl_all.c b/json/yajl_all.c
index 8e91a6b..118d4f1 100644
--- a/json/yajl_all.c
+++ b/json/yajl_all.c
@@ -461,16 +461,19 @@ static void yajl_string_decode(yajl_buf buf, const unsigned char * str,
                     end+=3;
                     /* check if this is a surrogate */
                     if ((codepoint & 0xFC00) == 0xD800) {
+                        unsigned int surrogate = 0;
                         end++;
                         if (str[end] == '\\' && str[end + 1] == 'u') {
-                            unsigned int surrogate = 0;
                             hexToDigit(&surrogate, str + end + 2);
+                        }
+                        if ((surrogate & 0xFC00) == 0xDC00) {
                             codepoint =
                                 (((codepoint & 0x3F) << 10) |
                                  ((((codepoint >> 6) & 0xF) + 1) << 16) |
                                  (surrogate & 0x3FF));
                             end += 5;
                         } else {
+                            end--; /* it is not a part of this character */
                             unescaped = "?";
                             break;
                         }
-- 
2.43.0


From b5bbbb74a0d4bab9e58d132fcd25b0a13e473567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:35 +0000
Subject: [PATCH 052/116] fix: JSON files with a zero byte are rejected before
 anything is imported

---
 Db/dbjson.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 0ac899d..6357593 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -228,6 +228,12 @@ gint wg_parse_json_file(void *db, const char *filename) {
       }
       break; /* the input ended at a chunk boundary */
     }
+    if(memchr((void *) &buf[count], '\0', rd)) {
+      /* the document would appear to end here, when the buffer is parsed */
+      show_json_error(db, "Zero byte in JSON input");
+      result = -1;
+      goto done;
+    }
     if(yajl_parse(hand, (unsigned char *) &buf[count], rd) != yajl_status_ok) {
       unsigned char *errtxt = yajl_get_error(hand, 1,
         (unsigned char *) &buf[count], rd);
-- 
2.43.0


From 4a24ce2aaab917deb1f8adcd40ad61470d167c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:40 +0000
Subject: [PATCH 053/116] fix: dates and times that do not exist are not
 converted to other ones

---
 Db/dbdata.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 6a198f5..134dbaf 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -86,6 +86,8 @@ static gint restore_backlink_index_entries(void *db, gint *record,
 static int isleap(unsigned yr);
 static unsigned months_to_days (unsigned month);
 static long years_to_days (unsigned yr);
+static int valid_ymd(int yr, int mo, int day);
+static int valid_hms(int hr, int min, int sec, int prt);
 static long ymd_to_scalar (unsigned yr, unsigned mo, unsigned day);
 static void scalar_to_ymd (long scalar, unsigned *yr, unsigned *mo, unsigned *day);
 
@@ -1904,7 +1906,7 @@ int wg_strp_iso_date(void* db, const char* inbuf) {
   int res;
 
   sres=sscanf(inbuf,"%4d-%2d-%2d",&yr,&mo,&day);
-  if (sres<3 || yr<0 || mo<1 || mo>12 || day<1 || day>31) return -1;
+  if (sres<3 || !valid_ymd(yr,mo,day)) return -1;
   res=ymd_to_scalar(yr,mo,day);
   return res;
 }
@@ -1918,19 +1920,19 @@ int wg_strp_iso_time(void* db, const char* inbuf) {
   int prt=0;
 
   sres=sscanf(inbuf,"%2d:%2d:%2d.%2d",&hr,&min,&sec,&prt);
-  if (sres<3 || hr<0 || hr>24 || min<0 || min>60 || sec<0 || sec>60 || prt<0 || prt>99) return -1;
+  if (sres<3 || !valid_hms(hr,min,sec,prt)) return -1;
   return hr*(60*60*100)+min*(60*100)+sec*100+prt;
 }
 
 
 int wg_ymd_to_date(void* db, int yr, int mo, int day) {
-  if (yr<0 || mo<1 || mo>12 || day<1 || day>31) return -1;
+  if (!valid_ymd(yr,mo,day)) return -1;
   return ymd_to_scalar(yr,mo,day);
 }
 
 
 int wg_hms_to_time(void* db, int hr, int min, int sec, int prt) {
-  if (hr<0 || hr>24 || min<0 || min>60 || sec<0 || sec>60 || prt<0 || prt>99)
+  if (!valid_hms(hr,min,sec,prt))
     return -1;
   return hr*(60*60*100)+min*(60*100)+sec*100+prt;
 }
@@ -3034,6 +3036,19 @@ static int isleap(unsigned yr) {
   return yr % 400 == 0 || (yr % 4 == 0 && yr % 100 != 0);
 }
 
+/* the day has to exist in the given month */
+static int valid_ymd(int yr, int mo, int day) {
+  static const int mdays[] = {31,28,31,30,31,30,31,31,30,31,30,31};
+  if (yr<1 || mo<1 || mo>12 || day<1) return 0;
+  return day <= mdays[mo-1] + (mo==2 && isleap(yr) ? 1 : 0);
+}
+
+/* seconds may be 60 (a leap second), 24:00:00 is the end of the day */
+static int valid_hms(int hr, int min, int sec, int prt) {
+  if (hr<0 || min<0 || min>59 || sec<0 || sec>60 || prt<0 || prt>99) return 0;
+  return hr<24 || (hr==24 && !min && !sec && !prt);
+}
+
 static unsigned months_to_days (unsigned month) {
   return (month * 3057 - 3007) / 100;
 }
-- 
2.43.0


From 171f32a415092db9f3b238d09d5e7555ad344675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:40 +0000
Subject: [PATCH 054/116] fix: a single digit after the seconds means tenths of
 a second

---
 Db/dbdata.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 134dbaf..9df8b43 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -41,6 +41,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <ctype.h>
 #include <limits.h>
 #include <time.h>
 #include <sys/timeb.h>
@@ -1918,8 +1919,10 @@ int wg_strp_iso_time(void* db, const char* inbuf) {
   int min=0;
   int sec=0;
   int prt=0;
+  int end=0;
 
-  sres=sscanf(inbuf,"%2d:%2d:%2d.%2d",&hr,&min,&sec,&prt);
+  sres=sscanf(inbuf,"%2d:%2d:%2d%n.%2d",&hr,&min,&sec,&end,&prt);
+  if (sres==4 && !isdigit((unsigned char) inbuf[end+2])) prt*=10; /* .5 is 50/100 */
   if (sres<3 || !valid_hms(hr,min,sec,prt)) return -1;
   return hr*(60*60*100)+min*(60*100)+sec*100+prt;
 }
-- 
2.43.0


From bc9002625446a9a6da4cd86674c7883d15c235c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:40 +0000
Subject: [PATCH 055/116] fix: the type of a text value is detected from the
 whole text and nothing else

---
 Db/dbutil.c | 62 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 3047064..f22742a 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -95,6 +95,7 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen);
 #if 0
 static gint parse_and_encode_uri(void *db, char *buf);
 #endif
+static int is_digit_form(const char *buf, const char *form);
 static gint parse_input_type(void *db, const char *buf, gint *intdata,
                                         double *doubledata, gint *datetime);
 static gint fread_csv(void *db, FILE *f);
@@ -533,6 +534,22 @@ gint wg_parse_and_encode_param(void *db, const char *buf) {
   return encoded;
 }
 
+/** Check that a string consists of the characters of the given form,
+ *  where each 'd' stands for a digit.
+ */
+static int is_digit_form(const char *buf, const char *form) {
+  while(*form) {
+    if(*form == 'd') {
+      if(*buf < '0' || *buf > '9')
+        return 0;
+    } else if(*buf != *form)
+      return 0;
+    form++;
+    buf++;
+  }
+  return !(*buf);
+}
+
 /** Detect the type of input data in string format.
  *
  *  Supports following data types:
@@ -576,23 +593,25 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
   else if((c >= '0' && c <= '9') ||\
    (c == '-' && buf[1] >= '0' && buf[1] <= '9')) {
     /* This could be one of int, double, date or time */
-    if(c != '-' && (*datetime = wg_strp_iso_date(db, buf)) >= 0) {
+    if(is_digit_form(buf, "dddd-dd-dd") &&\
+      (*datetime = wg_strp_iso_date(db, buf)) >= 0) {
       type = WG_DATETYPE;
-    } else if(c != '-' && (*datetime = wg_strp_iso_time(db, buf)) >= 0) {
+    } else if((is_digit_form(buf, "dd:dd:dd") ||\
+      is_digit_form(buf, "dd:dd:dd.d") ||\
+      is_digit_form(buf, "dd:dd:dd.dd")) &&\
+      (*datetime = wg_strp_iso_time(db, buf)) >= 0) {
       type = WG_TIMETYPE;
     } else {
       /* Examine the field contents to distinguish between float
        * and int, then convert using atol()/atof(). sscanf() tends to
        * be too optimistic about the conversion, especially under Win32.
        */
-      char numbuf[80];
-      const char *ptr = buf;
-      char *wptr = numbuf, *decptr = NULL;
+      const char *ptr = buf, *decptr = NULL;
       int decsep = 0;
       while(*ptr) {
         if(*ptr == CSV_DECIMAL_SEPARATOR) {
           decsep++;
-          decptr = wptr;
+          decptr = ptr;
         }
         else if((*ptr < '0' || *ptr > '9') && ptr != buf) {
           /* Non-numeric. Mark this as an invalid number
@@ -601,30 +620,27 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
           decsep = 2;
           break;
         }
-        *(wptr++) = *(ptr++);
-        if((int) (wptr - numbuf) >= 79)
-          break;
+        ptr++;
       }
-      *wptr = '\0';
 
+      errno = 0; /* only errors of the conversion below matter */
       if(decsep==1) {
-        char tmp = *decptr;
-        *decptr = '.'; /* ignore locale, force conversion by plain atof() */
-        *doubledata = atof(numbuf);
-        if(errno!=ERANGE && errno!=EINVAL) {
-          type = WG_DOUBLETYPE;
-        } else {
-          errno = 0; /* Under Win32, successful calls don't do this? */
+        char *numbuf = malloc(strlen(buf) + 1);
+        if(numbuf) {
+          strcpy(numbuf, buf);
+          /* ignore locale, force conversion by plain atof() */
+          numbuf[decptr - buf] = '.';
+          *doubledata = atof(numbuf);
+          if(errno!=ERANGE && errno!=EINVAL)
+            type = WG_DOUBLETYPE;
+          free(numbuf);
         }
-        *decptr = tmp; /* conversion might have failed, restore string */
       } else if(!decsep) {
-        *intdata = atol(numbuf);
-        if(errno!=ERANGE && errno!=EINVAL) {
+        *intdata = atol(buf);
+        if(errno!=ERANGE && errno!=EINVAL)
           type = WG_INTTYPE;
-        } else {
-          errno = 0;
-        }
       }
+      errno = 0; /* Under Win32, successful calls don't do this? */
     }
   }
 
-- 
2.43.0


From debbb0e3b4f3b05e228d3bf5a7b47d4af9ff46a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:40 +0000
Subject: [PATCH 056/116] fix: printing a value into a very small buffer leaves
 a terminated string

---
 Db/dbutil.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index f22742a..b1403d0 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -236,6 +236,11 @@ void wg_snprint_value(void *db, gint enc, char *buf, int buflen) {
   char strbuf[80];
 
   buflen--; /* snprintf adds '\0' */
+  if(buflen < 0)
+    return;
+  *buf = '\0';
+  if(!buflen)
+    return; /* room for the terminator only */
   switch(wg_get_encoded_type(db, enc)) {
     case WG_NULLTYPE:
       snprintf(buf, buflen, "NULL");
-- 
2.43.0


From 9b96c085ded9790967163e9e84fbef183ea9e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:16 +0000
Subject: [PATCH 057/116] fix: the last line of a CSV file is imported without
 a line terminator too

---
 Db/dbutil.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index b1403d0..57909dd 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -726,6 +726,7 @@ static gint fread_csv(void *db, FILE *f) {
   gint err = 0;
   gint uq_field, quoted_field, esc_quote, eat_sep; /** State flags */
   gint commit_strbuf, commit_record;
+  gint at_end = 0;
   gint reclen;
   gint encdata_sz = CSV_ENCDATA_BUF;
 
@@ -748,7 +749,7 @@ static gint fread_csv(void *db, FILE *f) {
   commit_strbuf = commit_record = 0;
   ptr = strbuf;
 
-  while(!feof(f)) {
+  while(!at_end) {
     /* Parse cycle consists:
      * 1. read character from stream. This can either:
      *   - change the state of the parser
@@ -759,15 +760,22 @@ static gint fread_csv(void *db, FILE *f) {
      *   - store the record in the database
      */
 
-    char c = (char) fgetc(f);
+    int c = fgetc(f);
 
-    if(quoted_field) {
+    if(c == EOF) {
+      /* The last line may lack a line terminator */
+      at_end = 1;
+      if(quoted_field || uq_field || (reclen && !eat_sep))
+        commit_strbuf = 1;
+      commit_record = 1;
+    } else if(quoted_field) {
       /* We're parsing a quoted field. Anything we get is added to
        * strbuf unless it's a quote character.
        */
       if(!esc_quote && c == '"') {
-        char nextc = (char) fgetc(f);
-        ungetc((int) nextc, f);
+        int nextc = fgetc(f);
+        if(nextc != EOF)
+          ungetc(nextc, f);
 
         if(nextc!='"') {
           /* Field ends. Note that even EOF is acceptable here */
-- 
2.43.0


From 3453e331fe95436ba6d0ac0022705427b4c896fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:16 +0000
Subject: [PATCH 058/116] fix: long text is not cut in CSV files

---
 Db/dbutil.c | 65 +++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 9 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 57909dd..b3a5d9e 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -59,7 +59,7 @@ extern "C" {
 #define atol(s) strtol(s, NULL, 10)
 #endif
 
-#define CSV_FIELD_BUF 4096      /** max size of csv I/O field */
+#define CSV_FIELD_BUF 4096      /** initial size of csv I/O field buffer */
 #define CSV_FIELD_SEPARATOR ',' /** field separator, comma or semicolon */
 #define CSV_DECIMAL_SEPARATOR '.'   /** comma or dot */
 #define CSV_ENCDATA_BUF 10      /** initial storage for encoded (gint) data */
@@ -91,6 +91,7 @@ static gint show_io_error(void *db, const char *errmsg);
 static gint show_io_error_str(void *db, const char *errmsg, const char *str);
 static void snprint_record(void *db, wg_int* rec, char *buf, int buflen);
 static void csv_escaped_str(void *db, char *iptr, char *buf, int buflen);
+static gint csv_value_len(void *db, gint enc);
 static void snprint_value_csv(void *db, gint enc, char *buf, int buflen);
 #if 0
 static gint parse_and_encode_uri(void *db, char *buf);
@@ -342,6 +343,28 @@ static void csv_escaped_str(void *db, char *iptr, char *buf, int buflen) {
 }
 
 
+/** Upper bound of the space that the CSV form of a value takes
+ */
+static gint csv_value_len(void *db, gint enc) {
+  gint len = 0;
+
+  switch(wg_get_encoded_type(db, enc)) {
+    case WG_STRTYPE:
+      len = wg_decode_str_len(db, enc);
+      break;
+    case WG_XMLLITERALTYPE:
+      len = wg_decode_xmlliteral_len(db, enc);
+      break;
+    case WG_URITYPE:
+      len = wg_decode_uri_len(db, enc) + wg_decode_uri_prefix_len(db, enc);
+      break;
+    default:
+      return CSV_FIELD_BUF - 2;
+  }
+  return 2*len + 8; /* each character may be a quote */
+}
+
+
 /** Print a single, encoded value, into a CSV-friendly format
  *  The value is written into a character buffer.
  */
@@ -663,6 +686,7 @@ void wg_fprint_record_csv(void *db, wg_int* rec, FILE *f) {
 
   wg_int len, enc;
   int i;
+  gint needed, strbuf_sz;
   char *strbuf;
 
   if(rec==NULL) {
@@ -670,7 +694,8 @@ void wg_fprint_record_csv(void *db, wg_int* rec, FILE *f) {
     return;
   }
 
-  strbuf = (char *) malloc(CSV_FIELD_BUF);
+  strbuf_sz = CSV_FIELD_BUF;
+  strbuf = (char *) malloc(strbuf_sz);
   if(strbuf==NULL) {
     show_io_error(db, "Failed to allocate memory");
     return;
@@ -680,7 +705,17 @@ void wg_fprint_record_csv(void *db, wg_int* rec, FILE *f) {
   for(i=0; i<len; i++) {
     if(i) fprintf(f, "%c", CSV_FIELD_SEPARATOR);
     enc = wg_get_field(db, rec, i);
-    snprint_value_csv(db, enc, strbuf, CSV_FIELD_BUF-1);
+    needed = csv_value_len(db, enc) + 2;
+    if(needed > strbuf_sz) {
+      char *tmp = (char *) realloc(strbuf, needed);
+      if(tmp==NULL) {
+        show_io_error(db, "Failed to allocate memory");
+        break;
+      }
+      strbuf = tmp;
+      strbuf_sz = needed;
+    }
+    snprint_value_csv(db, enc, strbuf, strbuf_sz-1);
     fprintf(f, "%s", strbuf);
   }
 
@@ -729,6 +764,7 @@ static gint fread_csv(void *db, FILE *f) {
   gint at_end = 0;
   gint reclen;
   gint encdata_sz = CSV_ENCDATA_BUF;
+  gint strbuf_sz = CSV_FIELD_BUF;
 
   strbuf = (char *) malloc(CSV_FIELD_BUF);
   if(strbuf==NULL) {
@@ -762,6 +798,20 @@ static gint fread_csv(void *db, FILE *f) {
 
     int c = fgetc(f);
 
+    /* Need more room for the next character? */
+    if(ptr - strbuf >= strbuf_sz - 1) {
+      gint used = ptr - strbuf;
+      char *tmp = (char *) realloc(strbuf, strbuf_sz + CSV_FIELD_BUF);
+      if(tmp==NULL) {
+        err = -3;
+        show_io_error(db, "Failed to allocate memory");
+        break;
+      }
+      strbuf = tmp;
+      strbuf_sz += CSV_FIELD_BUF;
+      ptr = strbuf + used;
+    }
+
     if(c == EOF) {
       /* The last line may lack a line terminator */
       at_end = 1;
@@ -787,9 +837,7 @@ static gint fread_csv(void *db, FILE *f) {
         }
       } else {
         esc_quote = 0;
-        /* read the character. It's simply ignored if the buffer is full */
-        if(((gint) ptr - (gint) strbuf) < CSV_FIELD_BUF-1)
-          *ptr++ = c;
+        *ptr++ = (char) c;
       }
     } else if(uq_field) {
       /* In case of an unquoted field, terminator can be the field
@@ -806,8 +854,7 @@ static gint fread_csv(void *db, FILE *f) {
         commit_strbuf = 1;
         commit_record = 1;
       } else {
-        if(((gint) ptr - (gint) strbuf) < CSV_FIELD_BUF-1)
-          *ptr++ = c;
+        *ptr++ = (char) c;
       }
     } else {
       /* We are currently not parsing anything. Four things can happen:
@@ -850,7 +897,7 @@ static gint fread_csv(void *db, FILE *f) {
         }
         else {
           uq_field = 1;
-          *ptr++ = c;
+          *ptr++ = (char) c;
         }
       }
     }
-- 
2.43.0


From b842e5fb050300bac8bc3df6435380ebc0148801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:16 +0000
Subject: [PATCH 059/116] fix: CSV output of characters, URIs without prefix
 and single NULL fields can be read back

---
 Db/dbutil.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index b3a5d9e..d161489 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -411,13 +411,15 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
         return;
       }
       snprintf(ibuf, ilen+1, "%s%s",
-        wg_decode_uri_prefix(db, enc), wg_decode_uri(db, enc));
+        wg_decode_uri_prefix(db, enc) ? wg_decode_uri_prefix(db, enc) : "",
+        wg_decode_uri(db, enc));
       csv_escaped_str(db, ibuf, buf, buflen);
       free(ibuf);
       break;
     case WG_CHARTYPE:
-      intdata = wg_decode_char(db, enc);
-      snprintf(buf, buflen, "%c", (char) intdata);
+      strbuf[0] = (char) wg_decode_char(db, enc);
+      strbuf[1] = '\0';
+      csv_escaped_str(db, strbuf, buf, buflen); /* it may be a separator */
       break;
     case WG_DATETYPE:
       intdata = wg_decode_date(db, enc);
@@ -716,7 +718,10 @@ void wg_fprint_record_csv(void *db, wg_int* rec, FILE *f) {
       strbuf_sz = needed;
     }
     snprint_value_csv(db, enc, strbuf, strbuf_sz-1);
-    fprintf(f, "%s", strbuf);
+    if(len == 1 && !(*strbuf))
+      fprintf(f, "\"\""); /* an empty line would not be a record */
+    else
+      fprintf(f, "%s", strbuf);
   }
 
   free(strbuf);
-- 
2.43.0


From ff51bc94c877d23adf8b4ed3da160f5d531a621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:30 +0000
Subject: [PATCH 060/116] fix: a database that is smaller than its header is
 not created

---
 Db/dballoc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 7abf2a6..889b609 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -102,6 +102,12 @@ gint wg_init_db_memsegment(void* db, gint key, gint size) {
   gint free;
   gint i;
 
+  if(size<(gint) sizeof(db_memsegment_header)) {
+    /* nothing may be written, not even the header */
+    show_dballoc_error_nr(db,"requested database size is too small",size);
+    return -1;
+  }
+
   // set main global values for db
   dbh->mark=(gint32) MEMSEGMENT_MAGIC_INIT;
   dbh->version=(gint32) MEMSEGMENT_VERSION;
-- 
2.43.0


From 52726dbf06d62293386844d1d52f59057b2967ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:30 +0000
Subject: [PATCH 061/116] fix: registering too many external databases returns
 an error

---
 Db/dballoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 889b609..5afed95 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1423,7 +1423,7 @@ gint wg_register_external_db(void *db, void *extdb) {
       "Database has indexes, external references not allowed");
   }
   if(dbh->extdbs.count >= MAX_EXTDB) {
-    show_dballoc_error(db, "cannot register external database");
+    return show_dballoc_error(db, "cannot register external database");
   } else {
     dbh->extdbs.offset[dbh->extdbs.count] = ptrtooffset(db, dbmemsegh(extdb));
     dbh->extdbs.size[dbh->extdbs.count++] = \
-- 
2.43.0


From ea8a57424763d7d9ced83ca9684a23153f61caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:30 +0000
Subject: [PATCH 062/116] fix: a database with external references is not
 dumped into an unusable file

---
 Db/dbdump.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index abdf42d..ee5b90d 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -96,6 +96,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
 #ifdef CHECK
   if(dbh->extdbs.count != 0) {
     show_dump_error(db, "Database contains external references");
+    return -1;
   }
 #endif
 
-- 
2.43.0


From da27253b86f1cd19847e22daa52a7bfb2cc85f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 063/116] fix: large database names are not cut to other names

---
 Db/dbmem.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/Db/dbmem.c b/Db/dbmem.c
index 453efe9..7f86c92 100644
--- a/Db/dbmem.c
+++ b/Db/dbmem.c
@@ -61,6 +61,7 @@ extern "C" {
 
 /* ======= Private protos ================ */
 
+static int dbasename_to_key(const char *dbasename);
 static int normalize_perms(int mode);
 static void* link_shared_memory(int key, int *errcode);
 static void* create_shared_memory(int key, gint size, int mode);
@@ -171,6 +172,19 @@ void* wg_attach_logged_database_mode(const char* dbasename, gint size, int mode)
 }
 
 
+/** Convert the database name to a shared memory key.
+ *  Names that are not suitable integers stand for the default database.
+ */
+static int dbasename_to_key(const char *dbasename) {
+  long key = 0;
+
+  if(dbasename)
+    key = strtol(dbasename, NULL, 10);
+  if(key <= 0 || key >= INT_MAX)
+    key = DEFAULT_MEMDBASE_KEY;
+  return (int) key;
+}
+
 /** Normalize the mode for permissions.
  *
  */
@@ -200,7 +214,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
 #endif
   void* shm;
   int err;
-  int key=0;
+  int key;
 #ifdef USE_DBLOG
   int omode;
 #endif
@@ -212,8 +226,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
 #endif
 
   // default args handling
-  if (dbasename!=NULL) key=strtol(dbasename,NULL,10);
-  if (key<=0 || key==INT_MIN || key==INT_MAX) key=DEFAULT_MEMDBASE_KEY;
+  key=dbasename_to_key(dbasename);
   if (minsize<0) minsize=0;
   if (size<minsize) size=minsize;
 
@@ -357,11 +370,10 @@ int wg_detach_database(void* dbase) {
  * returns 0 if OK
  */
 int wg_delete_database(const char* dbasename) {
-  int key=0;
+  int key;
 
   // default args handling
-  if (dbasename!=NULL) key=strtol(dbasename,NULL,10);
-  if (key<=0 || key==INT_MIN || key==INT_MAX) key=DEFAULT_MEMDBASE_KEY;
+  key=dbasename_to_key(dbasename);
   return free_shared_memory(key);
 }
 
-- 
2.43.0


From 3f8d6bdd6405ae105be28072999e61669fd104cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 064/116] fix: a failed attach does not leave the segment
 attached

---
 Db/dbmem.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Db/dbmem.c b/Db/dbmem.c
index 7f86c92..784142c 100644
--- a/Db/dbmem.c
+++ b/Db/dbmem.c
@@ -99,6 +99,7 @@ static gint show_memory_error_nr(char* errmsg, int nr);
         wg_print_code_version(); \
         wg_print_header_version(dbmemsegh(shmx), 1); \
       } \
+      wg_detach_database(shmx); \
       return NULL; \
     } \
   }
@@ -238,6 +239,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
      */
     if(!dbcheckh(shm)) {
       show_memory_error("Existing segment header is invalid");
+      detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
       free_dbhandle(dbhandle);
 #endif
@@ -251,6 +253,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
        */
       if(((db_memsegment_header *) shm)->size < minsize) {
         show_memory_error("Existing segment is too small");
+        detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
         free_dbhandle(dbhandle);
 #endif
@@ -266,6 +269,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
        */
       if(!((db_memsegment_header *) shm)->logging.active) {
         show_memory_error("Existing memory segment has no journal");
+        detach_shared_memory(shm);
         free_dbhandle(dbhandle);
         return NULL;
       }
@@ -277,6 +281,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
     omode = wg_memmode(dbhandle);
     if(omode == -1) {
       show_memory_error("Failed to get the access mode of the segment");
+      detach_shared_memory(shm);
       free_dbhandle(dbhandle);
       return NULL;
     }
@@ -334,6 +339,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
 #endif
       if(err) {
         show_memory_error("Database initialization failed");
+        detach_shared_memory(shm);
         free_shared_memory(key);
 #ifdef USE_DATABASE_HANDLE
         free_dbhandle(dbhandle);
-- 
2.43.0


From 746398c44570fc7b99cf18652ae65855d70e3ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 065/116] fix: the handle is released when local memory is not
 available

---
 Db/dbmem.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Db/dbmem.c b/Db/dbmem.c
index 784142c..282a6e2 100644
--- a/Db/dbmem.c
+++ b/Db/dbmem.c
@@ -404,6 +404,9 @@ void* wg_attach_local_database(gint size) {
   shm = (void *) malloc(size);
   if (shm==NULL) {
     show_memory_error("malloc failed");
+#ifdef USE_DATABASE_HANDLE
+    free_dbhandle(dbhandle);
+#endif
     return NULL;
   } else {
     /* key=0 - no shared memory associated */
-- 
2.43.0


From 7bc961ea8b32a681f883ffd510fba6ffd558c64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:34 +0000
Subject: [PATCH 066/116] fix: the attached part of an external string is read
 from the database it belongs to

---
 Db/dbdata.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 9df8b43..2f805e0 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2861,6 +2861,16 @@ char* wg_decode_unistr_lang(void* db, gint data, gint type) {
     fldptr=((gint*)objptr)+LONGSTR_EXTRASTR_POS;
     fldval=*fldptr;
     if (fldval==0) return NULL;
+#ifdef USE_CHILD_DB
+    {
+      /* The offset of the extra string is relative to the database that
+       * the string belongs to.
+       */
+      void *owner = get_ptr_owner(db, data);
+      if (owner && owner!=dbmemseg(db))
+        fldval=wg_translate_hdroffset(db,owner,fldval);
+    }
+#endif
     res=wg_decode_unistr(db,fldval,type);
     return res;
   }
-- 
2.43.0


From e246040c748d524452c0bc24e27e27375f499d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:14 +0000
Subject: [PATCH 067/116] fix: strings and quoted names of any length can be
 read from Otter text

---
 Parser/dbotter.l | 55 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index f2c7c98..0d0154c 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -110,9 +110,30 @@ lex_parsestr(const char *s)
 
 
 
-char linebuf[1024];
-char elmparsestrbuf[1024]; 
-char *s; 
+/* text of the string or quoted name being read: grown as needed */
+
+static char *elmparsestrbuf=NULL; 
+static size_t elmparsestrsize=0;
+static size_t elmparsestrlen=0;
+
+static int elmparsestr_add(int c) {
+  char *tmp;
+
+  if (elmparsestrlen>=elmparsestrsize) {
+    tmp=(char*)realloc(elmparsestrbuf,elmparsestrsize+1024);
+    if (tmp==NULL) {
+      printf("*** Parser error: cannot allocate memory for a string\n");
+      return -1;
+    }
+    elmparsestrbuf=tmp;
+    elmparsestrsize+=1024;
+  }
+  elmparsestrbuf[elmparsestrlen++]=(char)c;
+  return 0;
+}
+
+#define STRSTART { elmparsestrlen=0; }
+#define STRADD(c) { if (elmparsestr_add(c)) return FILEEND; } // no rule accepts FILEEND
 
 
 
@@ -166,38 +187,38 @@ ID       [A-z][A-z0-9_:+\-*/<>=]*
               return TIME; 
 	    }  	    
 
-\"              { BEGIN STRSTATE; s = elmparsestrbuf; } 
-<STRSTATE>\\n   { *s++ = '\n'; } 
-<STRSTATE>\\t   { *s++ = '\t'; } 
-<STRSTATE>\\\"  { *s++ = '\"'; } 
-<STRSTATE>\"    { *s = 0; BEGIN 0; 
+\"              { BEGIN STRSTATE; STRSTART; } 
+<STRSTATE>\\n   { STRADD('\n'); } 
+<STRSTATE>\\t   { STRADD('\t'); } 
+<STRSTATE>\\\"  { STRADD('\"'); } 
+<STRSTATE>\"    { STRADD(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return STRING;
                 } 
-<STRSTATE>\n    { *s++ = '\n'; 
+<STRSTATE>\n    { STRADD('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
 		             */   
 	        } 
-<STRSTATE>.     { *s++ = *yytext; }
+<STRSTATE>.     { STRADD(*yytext); }
 
 
-\'              { BEGIN QUOTESTATE; s = elmparsestrbuf; } 
-<QUOTESTATE>\\n   { *s++ = '\n'; } 
-<QUOTESTATE>\\t   { *s++ = '\t'; } 
-<QUOTESTATE>\\\'  { *s++ = '\''; } 
-<QUOTESTATE>\'    { *s = 0; BEGIN 0; 
+\'              { BEGIN QUOTESTATE; STRSTART; } 
+<QUOTESTATE>\\n   { STRADD('\n'); } 
+<QUOTESTATE>\\t   { STRADD('\t'); } 
+<QUOTESTATE>\\\'  { STRADD('\''); } 
+<QUOTESTATE>\'    { STRADD(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return URI;
                 } 
-<QUOTESTATE>\n    { *s++ = '\n'; 
+<QUOTESTATE>\n    { STRADD('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
 		             */   
 	        } 
-<QUOTESTATE>.     { *s++ = *yytext; }
+<QUOTESTATE>.     { STRADD(*yytext); }
 
 
 "/*"         BEGIN(COMMENT);  
-- 
2.43.0


From aad5b628fee8a77176a26d70ef52cc2e2d9d6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:14 +0000
Subject: [PATCH 068/116] fix: memory of the parser pool is not freed when an
 Otter clause is refused

---
 Parser/dbparse.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index ea40816..c0ee6a6 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -308,8 +308,7 @@ void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist) {
     
     if (!issimple) {
       record=wr_create_rule_clause(g,litnr);   
-      if (((int)record)==0) {
-        free(vardata);
+      if (record==NULL) {
         return NULL;
       }
       resultlist=wg_mkpair(db,mpool,record,resultlist);       
@@ -396,7 +395,6 @@ void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist) {
       atomres=wr_parse_atom(g,mpool,atom,isneg,issimple,vardata); 
       if (atomres==NULL) {
         show_parse_error(db,"problem converting an atom to record");
-        free(vardata);
         return NULL;        
       }
       if (issimple) {
@@ -412,8 +410,7 @@ void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist) {
         setres2=wr_set_rule_clause_atom(g,record,litnr,tmpres2);
         if (setres!=0 || setres2!=0) {
           wg_delete_record(db,atomres);
-          free(vardata);
-          return NULL; 
+            return NULL; 
         }   
       }        
             
@@ -465,7 +462,7 @@ void* wr_parse_atom(glb* g,void* mpool,void* term, int isneg, int issimple, char
   // create data record
  
   record=wr_create_atom(g,termnr);   
-  if (((int)record)==0) {
+  if (record==NULL) {
     return NULL;
   }  
   // fill data record and do recursive calls for subterms
@@ -541,7 +538,7 @@ void* wr_parse_term(glb* g,void* mpool,void* term, char** vardata) {
   
   // create data record
   record=wr_create_term(g,termnr);   
-  if (((int)record)==0) {
+  if (record==NULL) {
     return NULL;
   } 
   //DPRINTF("\nwg_parse_term termnr %d \n",termnr);
-- 
2.43.0


From 6a8b3d84a7e894dd5afa37c8ee1a70d4b87c2112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:14 +0000
Subject: [PATCH 069/116] fix: integers, dates and times in Otter text are
 stored as written or refused

---
 Parser/dbparse.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index c0ee6a6..7fa2838 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -588,7 +588,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata) {
   int type;
   char* str1;
   char* str2;
-  int intdata;
+  gint intdata;
   double doubledata;
   int i;
 
@@ -604,6 +604,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata) {
     type=wg_atomtype(db,atomptr);
     str1=wg_atomstr1(db,atomptr);
     str2=wg_atomstr2(db,atomptr);
+    errno=0; // examined after number conversions below
     switch (type) {
       case 0: ret=wg_encode_null(db,NULL); break; 
       case WG_NULLTYPE: ret=wg_encode_null(db,NULL); break;      
@@ -651,11 +652,13 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata) {
         break; 
       case WG_DATETYPE: 
         intdata=wg_strp_iso_date(db,str1);
-        ret=wg_encode_date(db,intdata); 
+        if (intdata<0) ret=WG_ILLEGAL;
+        else ret=wg_encode_date(db,intdata); 
         break; 
       case WG_TIMETYPE: 
         intdata=wg_strp_iso_time(db,str1); 
-        ret=wg_encode_time(db,intdata);
+        if (intdata<0) ret=WG_ILLEGAL;
+        else ret=wg_encode_time(db,intdata);
         break; 
       case WG_ANONCONSTTYPE: 
         ret=wg_encode_anonconst(db,str1); 
-- 
2.43.0


From 15a9ab0b486b0d1f7a2ad31d838ee2f277520f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:33 +0000
Subject: [PATCH 070/116] fix: empty strings in Otter text are accepted

---
 Parser/dbparse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 7fa2838..f759846 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -604,6 +604,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata) {
     type=wg_atomtype(db,atomptr);
     str1=wg_atomstr1(db,atomptr);
     str2=wg_atomstr2(db,atomptr);
+    if (str1==NULL) str1=""; // wg_atomstr1 gives NULL for an empty string
     errno=0; // examined after number conversions below
     switch (type) {
       case 0: ret=wg_encode_null(db,NULL); break; 
-- 
2.43.0


From 64e85ca1e72c8e0c4415d0bc4d7afa0adb30e96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:33 +0000
Subject: [PATCH 071/116] fix: second string of an mpool atom may be one
 character, and the type 0

---
 Db/dbmpool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index 90c0fca..6181cdf 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -385,8 +385,9 @@ char* wg_atomstr1(void* db, void* ptr) {
 
 char* wg_atomstr2(void* db, void* ptr) {
   if (ptr==NULL) return NULL;
+  ptr=(char*)ptr+1; // skip the type byte, which may be 0
   ptr=(char*)ptr+strlen((char*)ptr)+1;
-  if (*(((char*)ptr)+1)==(char)0) return NULL;
+  if (*((char*)ptr)==(char)0) return NULL;
   else return ((char*)ptr);
 }
 
-- 
2.43.0


From 820044d19c86bf0eff01923f3fa5649f0cd86716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:33 +0000
Subject: [PATCH 072/116] fix: importing an Otter file that cannot be opened
 fails

---
 Parser/dbparse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index f759846..d274b58 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -113,6 +113,10 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec) {
     // input from file
     fnamestr=filename;   
     fp=freopen(fnamestr, "r", stdin);
+    if (fp==NULL) {
+      show_parse_error(db,"cannot open file %s\n",fnamestr);
+      return 1;
+    }
     pp.db=db;
     pp.filename=fnamestr;
     pp.foo=NULL; // indicates file case in YY_INPUT in dbotter.l
-- 
2.43.0


From e0e789ecc4fd2321ef149595f812674a4ed5aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:04 +0000
Subject: [PATCH 073/116] fix: records of Otter clauses start with empty
 fields, so a refused clause can be deleted

---
 Reasoner/clterm.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/Reasoner/clterm.c b/Reasoner/clterm.c
index 7a308e5..cbae168 100644
--- a/Reasoner/clterm.c
+++ b/Reasoner/clterm.c
@@ -77,12 +77,27 @@ gptr wr_create_raw_record(glb* g, gint length, gint meta, gptr buffer) {
   
   
 /* ---------------- wg functions --------------------- */  
+
+/** create a record with all fields set to NULL: the parser fills the
+*   fields one by one and deletes the record if one of them cannot be filled
+*/
+
+static void* create_null_record(glb* g, gint length) {
+  gptr res;
+  gint i;
+
+  res=(gptr)wg_create_raw_record(g->db,length);
+  if (res==NULL) return NULL;
+  for(i=0;i<length;i++) res[RECORD_HEADER_GINTS+i]=0;
+  return res;
+}
   
 void* wr_create_rule_clause(glb* g, int litnr) {
   void* res;
   
-  res=wg_create_raw_record(g->db,CLAUSE_EXTRAHEADERLEN+(LIT_WIDTH*litnr));
+  res=create_null_record(g,CLAUSE_EXTRAHEADERLEN+(LIT_WIDTH*litnr));
   //printf("meta %d",*((gint*)res+RECORD_META_POS));
+  if (res==NULL) return NULL;
   *((gint*)res+RECORD_META_POS)=(RECORD_META_NOTDATA | RECORD_META_RULE_CLAUSE);
   return res;  
 } 
@@ -90,7 +105,8 @@ void* wr_create_rule_clause(glb* g, int litnr) {
 void* wr_create_fact_clause(glb* g, int litnr) {
   void* res;
   
-  res=wg_create_raw_record(g->db,(g->unify_firstuseterm)+litnr+(g->unify_footerlen));
+  res=create_null_record(g,(g->unify_firstuseterm)+litnr+(g->unify_footerlen));
+  if (res==NULL) return NULL;
   *((gint*)res+RECORD_META_POS)=RECORD_META_FACT_CLAUSE;
   return res;  
 } 
@@ -98,7 +114,8 @@ void* wr_create_fact_clause(glb* g, int litnr) {
 void* wr_create_atom(glb* g, int termnr) {
   void* res;
   
-  res=wg_create_raw_record(g->db,(g->unify_firstuseterm)+termnr+(g->unify_footerlen));
+  res=create_null_record(g,(g->unify_firstuseterm)+termnr+(g->unify_footerlen));
+  if (res==NULL) return NULL;
   *((gint*)res+RECORD_META_POS)=(RECORD_META_NOTDATA | RECORD_META_ATOM);
   return res;  
 } 
@@ -107,7 +124,8 @@ void* wr_create_atom(glb* g, int termnr) {
 void* wr_create_term(glb* g, int termnr) {
   void* res;
   
-  res=wg_create_raw_record(g->db,(g->unify_firstuseterm)+termnr+(g->unify_footerlen));
+  res=create_null_record(g,(g->unify_firstuseterm)+termnr+(g->unify_footerlen));
+  if (res==NULL) return NULL;
   *((gint*)res+RECORD_META_POS)=(RECORD_META_NOTDATA | RECORD_META_TERM);
   return res;  
 } 
-- 
2.43.0


From 8eb4c6f220acfd74bfc2a1a7376f17b827318285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:04 +0000
Subject: [PATCH 074/116] fix: literals without arguments are not dropped from
 Otter clauses

---
 Parser/dbparse.c | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index d274b58..3bc0e6c 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -335,12 +335,9 @@ void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist) {
       printf("\n");
 #endif      
       if (!wg_ispair(db,lit)) {
-        show_parse_warning(db,"lit nr %d in clause nr %d is atomic and hence ignored: ",litnr,clnr); 
-#ifdef DEBUG        
-        wg_mpool_print(db,lit); 
-        printf("\n");
-#endif        
-        continue;
+        // literal p without arguments is the same as p()
+        lit=wg_mkpair(db,mpool,lit,NULL);
+        if (lit==NULL) return NULL;
       }              
       
       fun=wg_first(db,lit);
@@ -370,12 +367,8 @@ void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist) {
         }
         atom=wg_first(db,tmpptr);
         if (!wg_ispair(db,atom)) {
-          show_parse_warning(db,"lit nr %d in clause nr %d is atomic (after negation) and hence ignored: ",litnr,clnr); 
-#ifdef DEBUG          
-          wg_mpool_print(db,lit); 
-          printf("\n");
-#endif          
-          continue;
+          atom=wg_mkpair(db,mpool,atom,NULL);
+          if (atom==NULL) return NULL;
         }
         fun=wg_first(db,atom);
         if (!wg_isatom(db,fun)) {
-- 
2.43.0


From b44d51cb333fb4b34f50f0834506283b55835bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:04 +0000
Subject: [PATCH 075/116] fix: new vectors of the reasoner are set to zero as
 documented

---
 Reasoner/mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/mem.c b/Reasoner/mem.c
index e85e47d..08274f2 100644
--- a/Reasoner/mem.c
+++ b/Reasoner/mem.c
@@ -98,7 +98,7 @@ vec wr_vec_new(glb* g,int len) {
   res=(gptr)((char*)res+i);
   
   res[0]=(gint)len;
-  //for (i=VEC_START; i<=len; i++) res[i]=0;
+  for (i=VEC_START; i<=len; i++) res[i]=0;
     
   return res;
 }
-- 
2.43.0


From c5d3c3f3a14cb671ff50b6cd1b0f6a0e4f543b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:35 +0000
Subject: [PATCH 076/116] fix: the reasoner's term hash never gives the
 position of the vector length

---
 Reasoner/clstore.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Reasoner/clstore.c b/Reasoner/clstore.c
index baca410..3ce63f2 100644
--- a/Reasoner/clstore.c
+++ b/Reasoner/clstore.c
@@ -780,12 +780,12 @@ gint wr_term_basehash(glb* g, gint enc) {
       hash=2;
       break;
   }
-  if (hash<0) hash=0-hash;
 #ifdef DEBUG
   printf("wr_termhash computed hash %d using NROF_CLTERM_HASHVEC_ELS-2 %d gives final res %d \n",
-         hash,NROF_CLTERM_HASHVEC_ELS-2,0+(hash%(NROF_CLTERM_HASHVEC_ELS-2)));
+         hash,NROF_CLTERM_HASHVEC_ELS-2,1+(int)(((unsigned int)hash)%(NROF_CLTERM_HASHVEC_ELS-2)));
 #endif    
-  return (gint)(0+(hash%(NROF_CLTERM_HASHVEC_ELS-2)));
+  // position 0 of a hash vector contains its length
+  return (gint)(1+(((unsigned int)hash)%(NROF_CLTERM_HASHVEC_ELS-2)));
 }
 
 
-- 
2.43.0


From 3845073ce41aea55fe7e77d22b6f015e36d826d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:52 +0000
Subject: [PATCH 077/116] fix: the buffer of a partial hyperresolution result
 is the one freed

---
 Reasoner/derive.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/Reasoner/derive.c b/Reasoner/derive.c
index 1817f7d..5880fb3 100644
--- a/Reasoner/derive.c
+++ b/Reasoner/derive.c
@@ -46,6 +46,8 @@ extern "C" {
 
 /* ====== Private headers ======== */
 
+static void wr_process_resolve_result_freebuffer(glb* g, gptr buffer, gptr prev_buffer);
+
 /* ====== Functions ============== */
 
 
@@ -63,7 +65,8 @@ void wr_process_resolve_result(glb* g, gint xatom, gptr xcl, gint yatom, gptr yc
   int ruleflag,datalen;
   //int clstackflag;
   int partialresflag;
-  gint given_termbuf_storednext;
+  gptr prev_buffer=NULL;
+  gptr partial_buffer=NULL;
   
 #ifdef DEBUG
   printf("wr_process_resolve_result called\n");
@@ -132,11 +135,15 @@ void wr_process_resolve_result(glb* g, gint xatom, gptr xcl, gint yatom, gptr yc
     partialresflag=1;   
     //wr_process_resolve_result_setupclpickstackcopy(g); 
     wr_process_resolve_result_setupgivencopy(g);    
-    // store buffer pos to be restored later
-    given_termbuf_storednext=g->build_buffer;
-    //g->build_buffer=malloc(1024);
-    //given_termbuf_storednext=CVEC_NEXT(g->given_termbuf); 
-    g->build_buffer=wr_cvec_new(g,1000);  
+    // store buffer to be restored later
+    prev_buffer=g->build_buffer;
+    // nested calls change g->build_buffer: remember ours to be able to free it
+    partial_buffer=wr_cvec_new(g,1000);
+    if (partial_buffer==NULL) {
+      ++(g->stat_internlimit_discarded_cl);
+      return;
+    }
+    g->build_buffer=partial_buffer;
   } else {
     partialresflag=0;
     wr_process_resolve_result_setupquecopy(g);
@@ -149,6 +156,7 @@ void wr_process_resolve_result(glb* g, gint xatom, gptr xcl, gint yatom, gptr yc
     if (res==NULL) {
       ++(g->stat_internlimit_discarded_cl);
       wr_alloc_err(g,"could not alloc raw record in wr_process_resolve_result ");
+      if (partialresflag) wr_process_resolve_result_freebuffer(g,partial_buffer,prev_buffer);
       return;
     }  
     for(i=RECORD_HEADER_GINTS;i<(RECORD_HEADER_GINTS+CLAUSE_EXTRAHEADERLEN);i++) {
@@ -163,6 +171,7 @@ void wr_process_resolve_result(glb* g, gint xatom, gptr xcl, gint yatom, gptr yc
       if (blt==WG_ILLEGAL) {
         ++(g->stat_internlimit_discarded_cl);       
         wr_alloc_err(g,"could not build new atom blt in wr_process_resolve_result ");
+        if (partialresflag) wr_process_resolve_result_freebuffer(g,partial_buffer,prev_buffer);
         return;
       }
       res[tmp+RECORD_HEADER_GINTS+CLAUSE_EXTRAHEADERLEN+LIT_ATOM_POS]=blt;                
@@ -176,6 +185,7 @@ void wr_process_resolve_result(glb* g, gint xatom, gptr xcl, gint yatom, gptr yc
     if (blt==WG_ILLEGAL) {
       ++(g->stat_internlimit_discarded_cl);
       wr_alloc_err(g,"could not build new atom blt in wr_process_resolve_result ");
+      if (partialresflag) wr_process_resolve_result_freebuffer(g,partial_buffer,prev_buffer);
       return;
     }
     res=otp(db,blt);
@@ -200,9 +210,7 @@ void wr_process_resolve_result(glb* g, gint xatom, gptr xcl, gint yatom, gptr yc
     //wr_print_vardata(g);
     wr_resolve_binary_all_active(g,res);
     // restore buffer pos to situation before building the current clause
-    wr_vec_free(g,g->build_buffer);
-    g->build_buffer=given_termbuf_storednext;
-    //CVEC_NEXT(g->given_termbuf)=given_termbuf_storednext;
+    wr_process_resolve_result_freebuffer(g,partial_buffer,prev_buffer);
   } else {       
     ++(g->stat_kept_cl);
     if (g->print_derived_cl) {
@@ -300,6 +308,13 @@ void wr_process_resolve_result_setupquecopy(glb* g) {
   g->use_comp_funs=0;
 }
 
+/* free the buffer of a partial hyperresolution result, go back to the previous buffer */
+
+static void wr_process_resolve_result_freebuffer(glb* g, gptr buffer, gptr prev_buffer) {
+  wr_vec_free(g,buffer);
+  g->build_buffer=prev_buffer;
+}
+
 void wr_process_resolve_result_setupclpickstackcopy(glb* g) {
   g->build_subst=0;     // subst var values into vars
   g->build_calc=0;      // do fun and pred calculations
-- 
2.43.0


From 63bce0624397b9767df7697f9549ef1e269148e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:06 +0000
Subject: [PATCH 078/116] fix: a constant does not match a compound term

---
 Reasoner/unify.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reasoner/unify.c b/Reasoner/unify.c
index 9ff01fc..cd58e74 100644
--- a/Reasoner/unify.c
+++ b/Reasoner/unify.c
@@ -279,6 +279,7 @@ gint wr_match_term_aux(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 1;  
+    return 0;
   } 
   if (!isdatarec(y)) return 0; // x is datarec but y is not    
   // now x and y are different datarecs
-- 
2.43.0


From d8331c8682393b417d58ec244c067ad3d8453523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:46 +0000
Subject: [PATCH 079/116] fix: offsets of addresses outside the segment are
 computed on integers

---
 Db/dballoc.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Db/dballoc.h b/Db/dballoc.h
index 9a9d0ab..a532a25 100644
--- a/Db/dballoc.h
+++ b/Db/dballoc.h
@@ -195,8 +195,11 @@ typedef __int64 gint64;    /** 64-bit fixed size storage */
 
 #define dbfetch(db,offset) (*((gint*)(dbmemsegbytes(db)+(offset)))) /** get gint from address */
 #define dbstore(db,offset,data) (*((gint*)(dbmemsegbytes(db)+(offset)))=data) /** store gint to address */
-#define dbaddr(db,realptr) ((gint)(((char*)(realptr))-dbmemsegbytes(db))) /** give offset of real adress */
-#define offsettoptr(db,offset) ((void*)(dbmemsegbytes(db)+(offset))) /** give real address from offset */
+/* The reasoner and external databases use offsets of addresses outside the
+ * segment as well: these are computed on integers, as C leaves arithmetic on
+ * pointers to different objects undefined. */
+#define dbaddr(db,realptr) ((gint)(realptr)-(gint)dbmemsegbytes(db)) /** give offset of real adress */
+#define offsettoptr(db,offset) ((void*)((gint)dbmemsegbytes(db)+(gint)(offset))) /** give real address from offset */
 #define ptrtooffset(db,realptr) (dbaddr((db),(realptr)))
 #define dbcheckh(dbh) (dbh!=NULL && *((gint32 *) dbh)==MEMSEGMENT_MAGIC_MARK) /** check that correct db ptr */
 #define dbcheck(db) dbcheckh(dbmemsegh(db)) /** check that correct db ptr */
-- 
2.43.0


From f9c5eb8aa9e5afa4a067a18b201c90c35a8a41d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:28 +0000
Subject: [PATCH 080/116] fix: the reasoner accepts negative offsets of hash
 nodes

---
 Reasoner/rgenloop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/rgenloop.c b/Reasoner/rgenloop.c
index 41022e3..d89b648 100644
--- a/Reasoner/rgenloop.c
+++ b/Reasoner/rgenloop.c
@@ -462,7 +462,7 @@ void wr_resolve_binary_all_active(glb* g, gptr cl) {
         continue;
       }  
       node=wr_clterm_hashlist_start(g,hashvec,hash);
-      if (node<0)  {
+      if (node==-1)  { // offsets of nodes may be negative
         wr_sys_exiterr(g,"apparently wrong hash given to wr_clterm_hashlist_start");
         return;
       }  
-- 
2.43.0


From eb16120bb0fdb62ef64575e29b4477a825b0f480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:32 +0000
Subject: [PATCH 081/116] fix: memory pool requests near the integer limit get
 memory or fail

---
 Db/dbmpool.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index 6181cdf..580fad5 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -155,7 +155,7 @@ void* wg_create_mpool(void* db, int origbytes) {
 
 static int extend_mpool(void* db, void* mpool, int minbytes) {
   int cursize;
-  int bytes;
+  size_t bytes;
   void* subarea;
   mpool_header* mpoolh;
   int i;
@@ -164,9 +164,15 @@ static int extend_mpool(void* db, void* mpool, int minbytes) {
   mpoolh=(mpool_header*)mpool;
   cursize=((mpoolh->subarea_table)[(mpoolh->cur_subarea)]).size;
   bytes=cursize;
-  for(i=0;i<100;i++) {
+  do {
     bytes=bytes*2;
-    if (bytes>=(minbytes+ALIGNMENT_BYTES)) break;
+  } while(bytes<((size_t)minbytes+ALIGNMENT_BYTES));
+  // sizes of subareas are kept as int
+  if (bytes>INT_MAX) bytes=(size_t)minbytes+ALIGNMENT_BYTES;
+  if (bytes>INT_MAX || (mpoolh->cur_subarea)+1>=NROF_SUBAREAS) {
+    show_mpool_error_nr(db,
+      " cannot extend mpool to size: ",minbytes);
+    return -1;
   }
   subarea=malloc(bytes);
   if (subarea==NULL) {
@@ -176,7 +182,7 @@ static int extend_mpool(void* db, void* mpool, int minbytes) {
   }
   (mpoolh->freeptr)=subarea;
   (mpoolh->cur_subarea)++;
-  ((mpoolh->subarea_table)[mpoolh->cur_subarea]).size=bytes;
+  ((mpoolh->subarea_table)[mpoolh->cur_subarea]).size=(int)bytes;
   nextptr=subarea;
   // set correct alignment for nextptr
   i=((size_t)nextptr)%ALIGNMENT_BYTES;
@@ -373,7 +379,7 @@ void* wg_mkatom(void* db, void* mpool, int type, char* str1, char* str2) {
 
 int wg_atomtype(void* db, void* ptr) {
   if (ptr==NULL) return 0;
-  else return (gint)*((char*)ptr);
+  else return (gint)*((unsigned char*)ptr);
 }
 
 
-- 
2.43.0


From cd117046aa4947fb4f08e9a3155a40d7e316498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:09 +0000
Subject: [PATCH 082/116] fix: text that cannot be encoded raises in the Python
 module, and is decoded the way it was encoded

---
 Python/wgdbmodule.c | 177 ++++++++++++++++++++++++++------------------
 1 file changed, 103 insertions(+), 74 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index a80d6c9..f101084 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -48,6 +48,9 @@
 #if PY_VERSION_HEX >= 0x03030000
 #define HAVE_LOCALEENC /* locale dependent string encode function exists */
 #endif
+#define BYTES_OF(o) PyBytes_AS_STRING(o)
+#else
+#define BYTES_OF(o) PyString_AS_STRING(o)
 #endif
 
 struct module_state {
@@ -110,6 +113,8 @@ static wg_int encode_pyobject_record(wg_database *db, PyObject *data);
 static wg_int encode_pyobject_int(wg_database *db, PyObject *data, int param);
 static wg_int encode_pyobject_double(wg_database *db, PyObject *data,
   int param);
+static PyObject *text_to_bytes(PyObject *data);
+static PyObject *bytes_to_text(char *s);
 static wg_int encode_pyobject_str(wg_database *db, PyObject *data,
   char *ext_str, int param);
 static wg_int encode_pyobject_uri(wg_database *db, PyObject *data,
@@ -941,6 +946,48 @@ static wg_int encode_pyobject_double(wg_database *db, PyObject *data,
   }
 }
 
+/** Convert Python text to a bytes object in the encoding of the locale.
+ *  returns NULL (and sets the exception) if it is not a text object, it
+ *  contains \0 characters or it cannot be encoded.
+ */
+static PyObject *text_to_bytes(PyObject *data) {
+#ifndef PYTHON3
+  if(!PyString_Check(data)) {
+    PyErr_SetString(PyExc_TypeError, "Expected a string.");
+    return NULL;
+  }
+  Py_INCREF(data);
+  return data;
+#else
+  if(!PyUnicode_Check(data)) {
+    PyErr_SetString(PyExc_TypeError, "Expected a string.");
+    return NULL;
+  }
+#if defined(HAVE_LOCALEENC)
+  return PyUnicode_EncodeLocale(data, ENCODEERR);
+#else
+  return PyUnicode_AsEncodedString(data, NULL, ENCODEERR);
+#endif
+#endif
+}
+
+/** Convert stored text to a Python text object.
+ *  Reverse of text_to_bytes().
+ */
+static PyObject *bytes_to_text(char *s) {
+  if(!s) {
+    Py_INCREF(Py_None);
+    return Py_None;
+  }
+#ifndef PYTHON3
+  return PyString_FromString(s);
+#elif defined(HAVE_LOCALEENC)
+  return PyUnicode_DecodeLocale(s, ENCODEERR);
+#else
+  return PyUnicode_Decode(s, strlen(s), NULL, ENCODEERR);
+#endif
+}
+
 /** Encode an atomic value of type WG_STRTYPE
  *  returns WG_ILLEGAL on failure
  *  if param is 1, the storage will be allocated in local memory (intended
@@ -948,24 +995,18 @@ static wg_int encode_pyobject_double(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_str(wg_database *db, PyObject *data,
   char *ext_str, int param) {
-  char *s;
-#ifndef PYTHON3
-  s = PyString_AsString(data);
-#elif defined(HAVE_LOCALEENC)
-  s = PyBytes_AsString(PyUnicode_EncodeLocale(data, ENCODEERR));
-#else
-  s = PyBytes_AsString(PyUnicode_AsEncodedString(data, NULL, ENCODEERR));
-#endif
+  wg_int enc;
+  PyObject *text = text_to_bytes(data);
   /* wg_encode_str is not guaranteed to check for NULL pointer */
-  if(s) {
-    if(!param) {
-      return wg_encode_str(db->db, s, ext_str);
-    } else {
-      return wg_encode_query_param_str(db->db, s, ext_str);
-    }
-  } else {
+  if(!text)
     return WG_ILLEGAL;
+  if(!param) {
+    enc = wg_encode_str(db->db, BYTES_OF(text), ext_str);
+  } else {
+    enc = wg_encode_query_param_str(db->db, BYTES_OF(text), ext_str);
   }
+  Py_DECREF(text);
+  return enc;
 }
 
 /** Encode an atomic value of type WG_URITYPE
@@ -975,24 +1016,18 @@ static wg_int encode_pyobject_str(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_uri(wg_database *db, PyObject *data,
   char *ext_str, int param) {
-  char *s;
-#ifndef PYTHON3
-  s = PyString_AsString(data);
-#elif defined(HAVE_LOCALEENC)
-  s = PyBytes_AsString(PyUnicode_EncodeLocale(data, ENCODEERR));
-#else
-  s = PyBytes_AsString(PyUnicode_AsEncodedString(data, NULL, ENCODEERR));
-#endif
+  wg_int enc;
+  PyObject *text = text_to_bytes(data);
   /* wg_encode_str is not guaranteed to check for NULL pointer */
-  if(s) {
-    if(!param) {
-      return wg_encode_uri(db->db, s, ext_str);
-    } else {
-      return wg_encode_query_param_uri(db->db, s, ext_str);
-    }
-  } else {
+  if(!text)
     return WG_ILLEGAL;
+  if(!param) {
+    enc = wg_encode_uri(db->db, BYTES_OF(text), ext_str);
+  } else {
+    enc = wg_encode_query_param_uri(db->db, BYTES_OF(text), ext_str);
   }
+  Py_DECREF(text);
+  return enc;
 }
 
 /** Encode an atomic value of type WG_XMLLITERALTYPE
@@ -1002,24 +1037,18 @@ static wg_int encode_pyobject_uri(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_xmlliteral(wg_database *db, PyObject *data,
   char *ext_str, int param) {
-  char *s;
-#ifndef PYTHON3
-  s = PyString_AsString(data);
-#elif defined(HAVE_LOCALEENC)
-  s = PyBytes_AsString(PyUnicode_EncodeLocale(data, ENCODEERR));
-#else
-  s = PyBytes_AsString(PyUnicode_AsEncodedString(data, NULL, ENCODEERR));
-#endif
+  wg_int enc;
+  PyObject *text = text_to_bytes(data);
   /* wg_encode_str is not guaranteed to check for NULL pointer */
-  if(s) {
-    if(!param) {
-      return wg_encode_xmlliteral(db->db, s, ext_str);
-    } else {
-      return wg_encode_query_param_xmlliteral(db->db, s, ext_str);
-    }
-  } else {
+  if(!text)
     return WG_ILLEGAL;
+  if(!param) {
+    enc = wg_encode_xmlliteral(db->db, BYTES_OF(text), ext_str);
+  } else {
+    enc = wg_encode_query_param_xmlliteral(db->db, BYTES_OF(text), ext_str);
   }
+  Py_DECREF(text);
+  return enc;
 }
 
 /** Encode an atomic value of type WG_CHARTYPE
@@ -1028,24 +1057,22 @@ static wg_int encode_pyobject_xmlliteral(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_char(wg_database *db, PyObject *data,
   int param) {
+  wg_int enc = WG_ILLEGAL;
   char *s;
-#ifndef PYTHON3
-  s = PyString_AsString(data);
-#elif defined(HAVE_LOCALEENC)
-  s = PyBytes_AsString(PyUnicode_EncodeLocale(data, ENCODEERR));
-#else
-  s = PyBytes_AsString(PyUnicode_AsEncodedString(data, NULL, ENCODEERR));
-#endif
-  /* wg_encode_str is not guaranteed to check for NULL pointer */
-  if(s) {
+  PyObject *text = text_to_bytes(data);
+  if(!text)
+    return WG_ILLEGAL;
+  s = BYTES_OF(text);
+  /* only text that fits in a single byte can be stored */
+  if(!s[0] || !s[1]) {
     if(!param) {
-      return wg_encode_char(db->db, s[0]);
+      enc = wg_encode_char(db->db, s[0]);
     } else {
-      return wg_encode_query_param_char(db->db, s[0]);
+      enc = wg_encode_query_param_char(db->db, s[0]);
     }
-  } else {
-    return WG_ILLEGAL;
   }
+  Py_DECREF(text);
+  return enc;
 }
 
 /** Encode an atomic value of type WG_FIXPOINTTYPE
@@ -1176,7 +1203,7 @@ static wg_int encode_pyobject(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_ext(PyObject *self,
                             wg_database *db, PyObject *obj, int param) {
-  PyObject *data;
+  PyObject *data, *ext = NULL;
   wg_int enc, ftype = 0;
   char *ext_str = NULL;
 
@@ -1205,19 +1232,12 @@ static wg_int encode_pyobject_ext(PyObject *self,
     }
 
     if(extargs > 2) {
-#ifndef PYTHON3
-      ext_str = PyString_AsString(PyTuple_GetItem(obj, 2));
-#elif defined(HAVE_LOCALEENC)
-      ext_str = PyBytes_AsString(
-        PyUnicode_EncodeLocale(PyTuple_GetItem(obj, 2), ENCODEERR));
-#else
-      ext_str = PyBytes_AsString(
-        PyUnicode_AsEncodedString(PyTuple_GetItem(obj, 2), NULL, ENCODEERR));
-#endif
-      if(!ext_str) {
+      ext = text_to_bytes(PyTuple_GetItem(obj, 2));
+      if(!ext) {
         /* Error has been set in conversion */
         return WG_ILLEGAL;
       }
+      ext_str = BYTES_OF(ext);
     }
   } else {
     data = obj;
@@ -1228,16 +1248,19 @@ static wg_int encode_pyobject_ext(PyObject *self,
   if(ftype == -1) {
     PyErr_SetString(PyExc_TypeError,
       "Requested encoding is not supported.");
+    Py_XDECREF(ext);
     return WG_ILLEGAL;
   }
   else if(ftype == -2) {
     PyErr_SetString(PyExc_TypeError,
       "Value is of unsupported type.");
+    Py_XDECREF(ext);
     return WG_ILLEGAL;
   }
 
   /* Now encode the given obj using the selected type */
   enc = encode_pyobject(db, data, ftype, ext_str, param);
+  Py_XDECREF(ext);
   if(enc==WG_ILLEGAL)
     wgdb_error_setstring(self, "Value encoding error.");
 
@@ -1427,7 +1450,7 @@ static PyObject *wgdb_get_field(PyObject *self, PyObject *args) {
   else if(ftype==WG_STRTYPE) {
     char *ddata = wg_decode_str(((wg_database *) db)->db, fdata);
     /* Data is copied here, no leaking */
-    return Py_BuildValue("s", ddata);
+    return bytes_to_text(ddata);
   }
   else if(ftype==WG_URITYPE) {
     char *ddata = wg_decode_uri(((wg_database *) db)->db, fdata);
@@ -1436,20 +1459,26 @@ static PyObject *wgdb_get_field(PyObject *self, PyObject *args) {
 #ifndef PYTHON3
       return PyString_FromFormat("%s%s", ext_str, ddata);
 #else
-      return PyUnicode_FromFormat("%s%s", ext_str, ddata);
+      PyObject *uri = NULL, *prefix = bytes_to_text(ext_str);
+      PyObject *tail = bytes_to_text(ddata);
+      if(prefix && tail)
+        uri = PyUnicode_Concat(prefix, tail);
+      Py_XDECREF(prefix);
+      Py_XDECREF(tail);
+      return uri;
 #endif
     }
-    else return Py_BuildValue("s", ddata);
+    else return bytes_to_text(ddata);
   }
   else if(ftype==WG_XMLLITERALTYPE) {
     char *ddata = wg_decode_xmlliteral(((wg_database *) db)->db, fdata);
-    return Py_BuildValue("s", ddata);
+    return bytes_to_text(ddata);
   }
   else if(ftype==WG_CHARTYPE) {
     char ddata[2];
     ddata[0] = wg_decode_char(((wg_database *) db)->db, fdata);
     ddata[1] = '\0';
-    return Py_BuildValue("s", ddata); /* treat as single-character string */
+    return bytes_to_text(ddata); /* treat as single-character string */
   }
   else if(ftype==WG_FIXPOINTTYPE) {
     double ddata = wg_decode_fixpoint(((wg_database *) db)->db, fdata);
-- 
2.43.0


From 3072000aeea7c66052b5652bcd363bf944c221e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:20 +0000
Subject: [PATCH 083/116] fix: integers that do not fit raise in the Python
 module

---
 Python/wgdbmodule.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index f101084..6fb17bf 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -923,6 +923,8 @@ static wg_int encode_pyobject_int(wg_database *db, PyObject *data, int param) {
 #else
   intdata = (wg_int) PyLong_AsLong(data);
 #endif
+  if(intdata == -1 && PyErr_Occurred())
+    return WG_ILLEGAL;
 
   if(!param) {
     return wg_encode_int(db->db, intdata);
@@ -1138,12 +1140,14 @@ static wg_int encode_pyobject_time(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_var(wg_database *db, PyObject *data,
   int param) {
-  int intdata;
+  wg_int intdata;
 #ifndef PYTHON3
-  intdata = (int) PyInt_AsLong(data);
+  intdata = (wg_int) PyInt_AsLong(data);
 #else
-  intdata = (int) PyLong_AsLong(data);
+  intdata = (wg_int) PyLong_AsLong(data);
 #endif
+  if(intdata == -1 && PyErr_Occurred())
+    return WG_ILLEGAL;
 
   if(!param) {
     return wg_encode_var(db->db, intdata);
@@ -1511,8 +1515,8 @@ static PyObject *wgdb_get_field(PyObject *self, PyObject *args) {
      * however this approach preserves consistency in handling the type
      * conversions.
      */
-    int ddata = wg_decode_var(((wg_database *) db)->db, fdata);
-    return Py_BuildValue("(i,i)", ddata, WG_VARTYPE);
+    wg_int ddata = wg_decode_var(((wg_database *) db)->db, fdata);
+    return Py_BuildValue("(n,i)", ddata, WG_VARTYPE);
   }
   else {
     char buf[80];
-- 
2.43.0


From f3d0148056825f78acb0ae8a0f9729d54e06392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:56 +0000
Subject: [PATCH 084/116] fix: a freed query cannot be used from Python

---
 Python/wgdbmodule.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 6fb17bf..cb38c49 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -1816,6 +1816,11 @@ static PyObject * wgdb_fetch(PyObject *self, PyObject *args) {
       &wg_query_type, &query))
     return NULL;
 
+  if(!((wg_query_ob *) query)->query) {
+    PyErr_SetString(PyExc_ValueError, "Invalid query object");
+    return NULL;
+  }
+
   /* Build a new record object */
   rec = (wg_record *) wg_record_type.tp_alloc(&wg_record_type, 0);
   if(!rec) return NULL;
@@ -1893,6 +1898,9 @@ static void free_query(wg_query_ob *obj) {
 
     Py_DECREF(obj->db);
     obj->db = NULL;
+    obj->query = NULL; /* prevent future usage */
+    obj->arglist = NULL;
+    obj->matchrec = NULL;
   }
 }
 
@@ -1979,6 +1987,7 @@ static PyObject *wg_query_get_res_count(wg_query_ob *obj, void *closure) {
     if(obj->query->qtype == WG_QTYPE_PREFETCH) {
       return Py_BuildValue("K", (unsigned PY_LONG_LONG) obj->query->res_count);
     } else {
+      Py_INCREF(Py_None);
       return Py_None;
     }
   } else {
-- 
2.43.0


From 8567d8ede361c33cb01718f20c8bf9790dce666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 085/116] fix: a detached database or an object without a
 pointer raises in the Python module

---
 Python/wgdbmodule.c | 76 +++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 30 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index cb38c49..ce992e5 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -371,6 +371,23 @@ static struct PyModuleDef wgdb_def = {
  * would cause segfaults), only by calling wgdb_attach_database().
  */
 
+/** Argument converter for functions that need a database connection.
+ *  Fails if the database has been detached.
+ */
+
+static int attached_database(PyObject *ob, void *result) {
+  if(!PyObject_TypeCheck(ob, &wg_database_type)) {
+    PyErr_SetString(PyExc_TypeError, "Expected a wgdb.Database object.");
+    return 0;
+  }
+  if(!((wg_database *) ob)->db) {
+    PyErr_SetString(PyExc_ValueError, "Database is not attached.");
+    return 0;
+  }
+  *((PyObject **) result) = ob;
+  return 1;
+}
+
 /* Functions for attaching and deleting */
 
 /** Attach to memory database.
@@ -498,7 +515,7 @@ static PyObject * wgdb_detach_database(PyObject *self, PyObject *args) {
 static PyObject * wgdb_dump(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   char * fname = NULL;
-  if(!PyArg_ParseTuple(args, "O!s", &wg_database_type, &db, &fname))
+  if(!PyArg_ParseTuple(args, "O&s", attached_database, &db, &fname))
     return NULL;
   if (wg_dump(((wg_database*)db)->db, fname) == 0) {
     Py_INCREF(Py_None);
@@ -513,7 +530,7 @@ static PyObject * wgdb_load(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   char * fname = NULL;
 
-  if(!PyArg_ParseTuple(args, "O!s", &wg_database_type, &db, &fname))
+  if(!PyArg_ParseTuple(args, "O&s", attached_database, &db, &fname))
     return NULL;
   if (wg_import_dump(((wg_database*)db)->db, fname) == 0) {
     Py_INCREF(Py_None);
@@ -529,7 +546,7 @@ static PyObject * wgdb_replay_log(PyObject *self, PyObject *args) {
   char * fname = NULL;
   int res;
 
-  if(!PyArg_ParseTuple(args, "O!s", &wg_database_type, &db, &fname))
+  if(!PyArg_ParseTuple(args, "O&s", attached_database, &db, &fname))
     return NULL;
   res = wg_replay_log(((wg_database*)db)->db, fname);
   if (res == 0 || res == -1) {
@@ -545,7 +562,7 @@ static PyObject * wgdb_start_logging(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   int res;
 
-  if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
+  if(!PyArg_ParseTuple(args, "O&", attached_database, &db))
     return NULL;
   res = wg_start_logging(((wg_database*)db)->db);
   if (res == 0 || res == -1) {
@@ -561,7 +578,7 @@ static PyObject * wgdb_stop_logging(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   int res;
 
-  if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
+  if(!PyArg_ParseTuple(args, "O&", attached_database, &db))
     return NULL;
   res = wg_stop_logging(((wg_database*)db)->db);
   if (res == 0 || res == -1) {
@@ -579,7 +596,7 @@ static PyObject * wgdb_size(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   wg_int res;
 
-  if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
+  if(!PyArg_ParseTuple(args, "O&", attached_database, &db))
     return NULL;
   res = wg_database_size(((wg_database*)db)->db);
   return PyLong_FromUnsignedLong((unsigned long)res);
@@ -589,7 +606,7 @@ static PyObject * wgdb_freesize(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   wg_int res;
 
-  if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
+  if(!PyArg_ParseTuple(args, "O&", attached_database, &db))
     return NULL;
   res = wg_database_freesize(((wg_database*)db)->db);
   return PyLong_FromUnsignedLong((unsigned long)res);
@@ -601,7 +618,7 @@ static PyObject * wgdb_createindex(PyObject *self, PyObject *args) {
   wg_int fld = 0;
   int res;
 
-  if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &fld))
+  if(!PyArg_ParseTuple(args, "O&n", attached_database, &db, &fld))
     return NULL;
   res = wg_create_index(((wg_database*)db)->db,
     fld, WG_INDEX_TYPE_TTREE, NULL, 0);
@@ -622,7 +639,7 @@ static PyObject * wgdb_indexid(PyObject *self, PyObject *args) {
   wg_int fld = 0;
   wg_int res;
 
-  if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &fld))
+  if(!PyArg_ParseTuple(args, "O&n", attached_database, &db, &fld))
     return NULL;
   res = wg_column_to_index_id(((wg_database*)db)->db,
     fld, WG_INDEX_TYPE_TTREE, NULL, 0);
@@ -650,7 +667,7 @@ static PyObject * wgdb_create_record(PyObject *self, PyObject *args) {
   wg_int length = 0;
   wg_record *rec;
 
-  if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &length))
+  if(!PyArg_ParseTuple(args, "O&n", attached_database, &db, &length))
     return NULL;
 
   /* Build a new record object */
@@ -677,7 +694,7 @@ static PyObject * wgdb_create_raw_record(PyObject *self, PyObject *args) {
   wg_int length = 0;
   wg_record *rec;
 
-  if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &length))
+  if(!PyArg_ParseTuple(args, "O&n", attached_database, &db, &length))
     return NULL;
 
   /* Build a new record object */
@@ -701,7 +718,7 @@ static PyObject * wgdb_get_first_record(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   wg_record *rec;
 
-  if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
+  if(!PyArg_ParseTuple(args, "O&", attached_database, &db))
     return NULL;
 
   /* Build a new record object */
@@ -727,7 +744,7 @@ static PyObject * wgdb_get_next_record(PyObject *self, PyObject *args) {
   PyObject *db = NULL, *prev = NULL;
   wg_record *rec;
 
-  if(!PyArg_ParseTuple(args, "O!O!", &wg_database_type, &db,
+  if(!PyArg_ParseTuple(args, "O&O!", attached_database, &db,
       &wg_record_type, &prev))
     return NULL;
 
@@ -755,7 +772,7 @@ static PyObject * wgdb_get_record_len(PyObject *self, PyObject *args) {
   PyObject *db = NULL, *rec = NULL;
   wg_int len = 0;
 
-  if(!PyArg_ParseTuple(args, "O!O!", &wg_database_type, &db,
+  if(!PyArg_ParseTuple(args, "O&O!", attached_database, &db,
       &wg_record_type, &rec))
     return NULL;
 
@@ -795,7 +812,7 @@ static PyObject * wgdb_delete_record(PyObject *self, PyObject *args) {
   PyObject *db = NULL, *rec = NULL;
   wg_int err = 0;
 
-  if(!PyArg_ParseTuple(args, "O!O!", &wg_database_type, &db,
+  if(!PyArg_ParseTuple(args, "O&O!", attached_database, &db,
       &wg_record_type, &rec))
     return NULL;
 
@@ -1294,8 +1311,8 @@ static PyObject *wgdb_set_field(PyObject *self, PyObject *args,
   static char *kwlist[] = {"db", "rec", "fieldnr", "data",
     "encoding", "ext_str", NULL};
 
-  if(!PyArg_ParseTupleAndKeywords(args, kwds, "O!O!nO|ns", kwlist,
-      &wg_database_type, &db, &wg_record_type, &rec,
+  if(!PyArg_ParseTupleAndKeywords(args, kwds, "O&O!nO|ns", kwlist,
+      attached_database, &db, &wg_record_type, &rec,
       &fieldnr, &data, &ftype, &ext_str))
     return NULL;
 
@@ -1352,8 +1369,8 @@ static PyObject *wgdb_set_new_field(PyObject *self, PyObject *args,
   static char *kwlist[] = {"db", "rec", "fieldnr", "data",
     "encoding", "ext_str", NULL};
 
-  if(!PyArg_ParseTupleAndKeywords(args, kwds, "O!O!nO|ns", kwlist,
-      &wg_database_type, &db, &wg_record_type, &rec,
+  if(!PyArg_ParseTupleAndKeywords(args, kwds, "O&O!nO|ns", kwlist,
+      attached_database, &db, &wg_record_type, &rec,
       &fieldnr, &data, &ftype, &ext_str))
     return NULL;
 
@@ -1403,7 +1420,7 @@ static PyObject *wgdb_get_field(PyObject *self, PyObject *args) {
   PyObject *db = NULL, *rec = NULL;
   wg_int fieldnr, fdata, ftype;
 
-  if(!PyArg_ParseTuple(args, "O!O!n", &wg_database_type, &db,
+  if(!PyArg_ParseTuple(args, "O&O!n", attached_database, &db,
       &wg_record_type, &rec, &fieldnr))
     return NULL;
 
@@ -1543,7 +1560,7 @@ static PyObject * wgdb_start_write(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   wg_int lock_id = 0;
 
-  if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
+  if(!PyArg_ParseTuple(args, "O&", attached_database, &db))
     return NULL;
 
   lock_id = wg_start_write(((wg_database *) db)->db);
@@ -1564,7 +1581,7 @@ static PyObject * wgdb_end_write(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   wg_int lock_id = 0;
 
-  if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &lock_id))
+  if(!PyArg_ParseTuple(args, "O&n", attached_database, &db, &lock_id))
     return NULL;
 
   if(!wg_end_write(((wg_database *) db)->db, lock_id)) {
@@ -1585,7 +1602,7 @@ static PyObject * wgdb_start_read(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   wg_int lock_id = 0;
 
-  if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
+  if(!PyArg_ParseTuple(args, "O&", attached_database, &db))
     return NULL;
 
   lock_id = wg_start_read(((wg_database *) db)->db);
@@ -1606,7 +1623,7 @@ static PyObject * wgdb_end_read(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   wg_int lock_id = 0;
 
-  if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &lock_id))
+  if(!PyArg_ParseTuple(args, "O&n", attached_database, &db, &lock_id))
     return NULL;
 
   if(!wg_end_read(((wg_database *) db)->db, lock_id)) {
@@ -1636,8 +1653,8 @@ static int parse_query_params(PyObject *self, PyObject *args,
   PyObject *matchrec = NULL;
   static char *kwlist[] = {"db", "matchrec", "arglist", NULL};
 
-  if(!PyArg_ParseTupleAndKeywords(args, kwds, "O!|OO", kwlist,
-      &wg_database_type, &db, &matchrec, &arglist))
+  if(!PyArg_ParseTupleAndKeywords(args, kwds, "O&|OO", kwlist,
+      attached_database, &db, &matchrec, &arglist))
     return 0;
 
   Py_INCREF(db);  /* Make sure we don't lose database connection */
@@ -1812,7 +1829,7 @@ static PyObject * wgdb_fetch(PyObject *self, PyObject *args) {
   PyObject *db = NULL, *query = NULL;
   wg_record *rec;
 
-  if(!PyArg_ParseTuple(args, "O!O!", &wg_database_type, &db,
+  if(!PyArg_ParseTuple(args, "O&O!", attached_database, &db,
       &wg_query_type, &query))
     return NULL;
 
@@ -2036,15 +2053,14 @@ PyMODINIT_FUNC PyInit_wgdb(void)
   PyObject *m;
   struct module_state *st;
 
-  wg_database_type.tp_new = PyType_GenericNew;
+  /* tp_new is left empty: instances created by calling the types would
+   * have no valid pointers to the database. */
   if (PyType_Ready(&wg_database_type) < 0)
     INITERROR
 
-  wg_record_type.tp_new = PyType_GenericNew;
   if (PyType_Ready(&wg_record_type) < 0)
     INITERROR
 
-  wg_query_type.tp_new = PyType_GenericNew;
   if (PyType_Ready(&wg_query_type) < 0)
     INITERROR
 
-- 
2.43.0


From 2100f6561c3dd2f7f76b549f1ad8339b5460ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 086/116] fix: inserting unsuitable values from Python leaves
 no incomplete record

---
 Python/whitedb.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/Python/whitedb.py b/Python/whitedb.py
index 6211f61..469280c 100644
--- a/Python/whitedb.py
+++ b/Python/whitedb.py
@@ -203,17 +203,25 @@ and record accessing functions."""
             self.start_write()
         try:
             r = wgdb.create_raw_record(self._db, l)
-            for i in range(l):
-                if type(fields[i]) == tupletype:
-                    data = fields[i][0]
-                    extarg = fields[i][1:]
-                else:
-                    data = fields[i]
-                    extarg = ()
-                if isinstance(data, Record):
-                    data = data.get__rec()
-                fargs = (self._db, r, i, data) + extarg
-                wgdb.set_new_field(*fargs)
+            i = 0
+            try:
+                for i in range(l):
+                    if type(fields[i]) == tupletype:
+                        data = fields[i][0]
+                        extarg = fields[i][1:]
+                    else:
+                        data = fields[i]
+                        extarg = ()
+                    if isinstance(data, Record):
+                        data = data.get__rec()
+                    fargs = (self._db, r, i, data) + extarg
+                    wgdb.set_new_field(*fargs)
+            except:
+                # remove the incomplete record
+                for i in range(i, l):
+                    wgdb.set_new_field(self._db, r, i, None)
+                wgdb.delete_record(self._db, r)
+                raise
         finally:
             if self.locking:
                 self.end_write()
-- 
2.43.0


From 54c67ad4105301f5a5a217cffe5d9a357be34d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 087/116] fix: updating a record from Python with too many
 fields changes nothing

---
 Python/whitedb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Python/whitedb.py b/Python/whitedb.py
index 469280c..c27db3c 100644
--- a/Python/whitedb.py
+++ b/Python/whitedb.py
@@ -233,6 +233,8 @@ and record accessing functions."""
         # fields should be a sequence
         l = len(fields)
         sz = rec.get_size()
+        if l > sz:
+            raise DataError("Too many fields for the record.")
         r = rec.get__rec()
         tupletype = type(())
 
-- 
2.43.0


From 632ecf608568d79a9eda5e2e17e12d82a6f93fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 088/116] fix: queries with a negative column or an unknown
 condition are refused

---
 Db/dbquery.c        | 18 ++++++++++++++++++
 Python/wgdbmodule.c |  9 +++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 67252fe..dceac40 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -378,6 +378,24 @@ static gint prepare_params(void *db, void *matchrec, gint reclen,
     show_query_error(db, "Invalid argument list (NULL)");
     return -1;
   }
+  for(i=0; i<argc; i++) {
+    if(arglist[i].column < 0) {
+      show_query_error(db, "Invalid column number in argument list");
+      return -1;
+    }
+    switch(arglist[i].cond) {
+      case WG_COND_EQUAL:
+      case WG_COND_NOT_EQUAL:
+      case WG_COND_LESSTHAN:
+      case WG_COND_GREATER:
+      case WG_COND_LTEQUAL:
+      case WG_COND_GTEQUAL:
+        break;
+      default:
+        show_query_error(db, "Unknown condition in argument list");
+        return -1;
+    }
+  }
 #endif
 
   /* Determine total number of query parameters (number of arguments
diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index ce992e5..986064e 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -1681,9 +1681,11 @@ static int parse_query_params(PyObject *self, PyObject *args,
 
       /* Now copy all the parameters. */
       for(i=0; i<len; i++) {
-        int col, cond;
+        wg_int col, cond;
         wg_int enc;
         PyObject *t = PySequence_GetItem(arglist, (Py_ssize_t) i);
+        if(!t)
+          return 0;
 
         if(!PyTuple_Check(t) || PyTuple_Size(t) != 3) {
           PyErr_SetString(PyExc_ValueError,
@@ -1761,7 +1763,10 @@ static int parse_query_params(PyObject *self, PyObject *args,
 
         for(i=0; i<len; i++) {
           PyObject *sg_t = PySequence_GetItem(matchrec, i);
-          wg_int enc = encode_pyobject_ext(self, query->db, sg_t, 1);
+          wg_int enc;
+          if(!sg_t)
+            return 0;
+          enc = encode_pyobject_ext(self, query->db, sg_t, 1);
           Py_DECREF(sg_t);
           if(enc==WG_ILLEGAL) {
             /* Error set by encode function */
-- 
2.43.0


From 2c74beadf6781fdcf174d0b6c38838ba942f9a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:34 +0000
Subject: [PATCH 089/116] fix: a query whose bounds contradict each other
 reports its row count like others

---
 Db/dbquery.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index dceac40..6aec064 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -841,6 +841,13 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
         query->argc = 0;
         query->arglist = NULL;
         query->res_count = 0;
+        if(flags & QUERY_FLAGS_PREFETCH) {
+          /* prefetched, with nothing in the result set */
+          query->qtype = WG_QTYPE_PREFETCH;
+          query->mpool = NULL;
+          query->curr_page = NULL;
+          query->curr_pidx = 0;
+        }
         free(full_arglist);
         return query;
       }
-- 
2.43.0


From dc397d8f7d613e18710dab8f2720264a1202b6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:20 +0000
Subject: [PATCH 090/116] fix: records too large for any free list are refused

---
 Db/dballoc.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 5afed95..5fe88f1 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -889,6 +889,10 @@ gint wg_alloc_gints(void* db, void* area_header, gint nr) {
   db_area_header* areah;
 
   areah=(db_area_header*)area_header;
+  if (nr<0 || nr>(gint)((((size_t)-1)>>1)/sizeof(gint))) {
+    show_dballoc_error_nr(db," invalid number of gints requested: ",nr);
+    return 0; // size in bytes would overflow
+  }
   wantedbytes=nr*sizeof(gint); // object sizes are stored in bytes
   if (wantedbytes<0) return 0; // cannot allocate negative or zero sizes
   if (wantedbytes<=MIN_VARLENOBJ_SIZE) usedbytes=MIN_VARLENOBJ_SIZE;
@@ -963,7 +967,12 @@ gint wg_alloc_gints(void* db, void* area_header, gint nr) {
     }
   }
   // next try to find first free object in var-length buckets (shorter first)
-  for(i=wg_freebuckets_index(db,usedbytes);i<EXACTBUCKETS_NR+VARBUCKETS_NR;i++) {
+  i=wg_freebuckets_index(db,usedbytes);
+  if (i<0) {
+    show_dballoc_error_nr(db," too large object requested, bytes: ",usedbytes);
+    return 0; // larger than any bucket can hold
+  }
+  for(;i<EXACTBUCKETS_NR+VARBUCKETS_NR;i++) {
     if (freebuckets[i]!=0) {
       size=getfreeobjectsize(dbfetch(db,freebuckets[i]));
       if (size==usedbytes) {
-- 
2.43.0


From 1ca9d99d166086dde59f824964fdae12ab7ac97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:42 +0000
Subject: [PATCH 091/116] fix: updating a record from Python with too many
 fields stores those that fit again

The existing tests describe this behaviour; 54c67ad is undone.
---
 Python/whitedb.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/Python/whitedb.py b/Python/whitedb.py
index c27db3c..469280c 100644
--- a/Python/whitedb.py
+++ b/Python/whitedb.py
@@ -233,8 +233,6 @@ and record accessing functions."""
         # fields should be a sequence
         l = len(fields)
         sz = rec.get_size()
-        if l > sz:
-            raise DataError("Too many fields for the record.")
         r = rec.get__rec()
         tupletype = type(())
 
-- 
2.43.0


From 98a6c72ea0a6e94d54667b891a8bb5bea2234051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:50 +0000
Subject: [PATCH 092/116] fix: longer text sets a character field to its first
 character again

---
 Python/wgdbmodule.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 986064e..37f98af 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -1082,8 +1082,8 @@ static wg_int encode_pyobject_char(wg_database *db, PyObject *data,
   if(!text)
     return WG_ILLEGAL;
   s = BYTES_OF(text);
-  /* only text that fits in a single byte can be stored */
-  if(!s[0] || !s[1]) {
+  /* only a first character that fits in a single byte can be stored */
+  if(!(s[0] & 0x80) || !s[1]) {
     if(!param) {
       enc = wg_encode_char(db->db, s[0]);
     } else {
-- 
2.43.0


From 8221c7f4b286d7ad0cdb59d376a7d7d5d6e2b58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:47 +0000
Subject: [PATCH 093/116] fix: wgdb query and del refuse incomplete conditions
 and bad columns

---
 Main/wgdb.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/Main/wgdb.c b/Main/wgdb.c
index 26a0a69..f7d12b1 100644
--- a/Main/wgdb.c
+++ b/Main/wgdb.c
@@ -766,11 +766,17 @@ int main(int argc, char **argv) {
  *  function should be used to check for success.
  */
 wg_query_arg *make_arglist(void *db, char **argv, int argc, int *sz) {
-  int c, i, j, qargc;
-  char cond[80];
+  int i, j, qargc;
+  long c;
+  char cond[80], *end;
   wg_query_arg *arglist;
   gint encoded;
 
+  if(argc < 3 || argc % 3) {
+    /* an incomplete condition must not be ignored */
+    fprintf(stderr, "failed to parse query parameters\n");
+    return NULL;
+  }
   qargc = argc / 3;
   *sz = qargc;
   arglist = (wg_query_arg *) malloc(qargc * sizeof(wg_query_arg));
@@ -782,12 +788,18 @@ wg_query_arg *make_arglist(void *db, char **argv, int argc, int *sz) {
   }
 
   for(i=0,j=0; i<qargc; i++) {
-    int cnt = 0;
-    cnt += sscanf(argv[j++], "%d", &c);
-    cnt += sscanf(argv[j++], "%79s", cond);
+    int cnt;
+    errno = 0;
+    c = strtol(argv[j], &end, 10);
+    if(end == argv[j++] || *end || errno || c < 0) {
+      fprintf(stderr, "failed to parse query parameters\n");
+      free_arglist(db, arglist, qargc);
+      return NULL;
+    }
+    cnt = sscanf(argv[j++], "%79s", cond);
     encoded = wg_parse_and_encode_param(db, argv[j++]);
 
-    if(cnt!=2 || encoded==WG_ILLEGAL) {
+    if(cnt!=1 || encoded==WG_ILLEGAL) {
       fprintf(stderr, "failed to parse query parameters\n");
       free_arglist(db, arglist, qargc);
       return NULL;
-- 
2.43.0


From bd5bcfef66a87a826a91b53e09ed623b96aa7f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:47 +0000
Subject: [PATCH 094/116] fix: wgdb add leaves no incomplete row when a value
 cannot be stored

---
 Main/wgdb.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Main/wgdb.c b/Main/wgdb.c
index f7d12b1..24a9b21 100644
--- a/Main/wgdb.c
+++ b/Main/wgdb.c
@@ -971,9 +971,15 @@ int add_row(void *db, char **argv, int argc) {
     encoded = wg_parse_and_encode(db, argv[i]);
     if(encoded == WG_ILLEGAL) {
       fprintf(stderr, "Parsing or encoding error\n");
+      wg_delete_record(db, rec);
+      return -1;
+    }
+    if(wg_set_field(db, rec, i, encoded)) {
+      fprintf(stderr, "Failed to store the value\n");
+      wg_free_encoded(db, encoded);
+      wg_delete_record(db, rec);
       return -1;
     }
-    wg_set_field(db, rec, i, encoded);
   }
 
   return 0;
-- 
2.43.0


From 35ae0ca48dfd74fbaa92378cb2e0da9863cfe46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:47 +0000
Subject: [PATCH 095/116] fix: index commands of wgdb check their arguments and
 report failures

---
 Main/wgdb.c | 52 +++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/Main/wgdb.c b/Main/wgdb.c
index 24a9b21..46e9e51 100644
--- a/Main/wgdb.c
+++ b/Main/wgdb.c
@@ -110,6 +110,7 @@ extern "C" {
 gint parse_shmsize(char *arg);
 gint parse_flag(char *arg);
 int parse_memmode(char *arg);
+int parse_int(char *arg, int *val);
 wg_query_arg *make_arglist(void *db, char **argv, int argc, int *sz);
 void free_arglist(void *db, wg_query_arg *arglist, int sz);
 void query(void *db, char **argv, int argc);
@@ -266,6 +267,22 @@ int parse_memmode(char *arg) {
   return 0;
 }
 
+/** Parse a decimal integer argument. Returns 0 if successful.
+ *
+ */
+int parse_int(char *arg, int *val) {
+  char *trailing = NULL;
+  long parsed;
+
+  errno = 0;
+  parsed = strtol(arg, &trailing, 10);
+  if(errno || trailing == arg || *trailing ||
+      parsed > INT_MAX || parsed < INT_MIN)
+    return -1;
+  *val = (int) parsed;
+  return 0;
+}
+
 /** top level for the database command line tool
 *
 *
@@ -683,44 +700,55 @@ int main(int argc, char **argv) {
     }
     else if(argc>(i+1) && !strcmp(argv[i], "createindex")) {
       int col;
+      if(parse_int(argv[i+1], &col)) {
+        fprintf(stderr, "Invalid column.\n");
+        exit(1);
+      }
       shmptr = (void *) wg_attach_database(shmname, shmsize);
       if(!shmptr) {
         fprintf(stderr, "Failed to attach to database.\n");
         exit(1);
       }
-      sscanf(argv[i+1], "%d", &col);
       WLOCK(shmptr, wlock);
-      wg_create_index(shmptr, col, WG_INDEX_TYPE_TTREE, NULL, 0);
+      if(wg_create_index(shmptr, col, WG_INDEX_TYPE_TTREE, NULL, 0))
+        fprintf(stderr, "Failed to create index.\n");
       WULOCK(shmptr, wlock);
       break;
     }
     else if(argc>(i+1) && !strcmp(argv[i], "createhash")) {
       gint cols[MAX_INDEX_FIELDS], col_count, j;
-      shmptr = (void *) wg_attach_database(shmname, shmsize);
-      if(!shmptr) {
-        fprintf(stderr, "Failed to attach to database.\n");
-        exit(1);
-      }
       col_count = 0;
       for(j = i+1; j<argc; j++) {
         int col;
-        sscanf(argv[j], "%d", &col);
+        if(col_count >= MAX_INDEX_FIELDS || parse_int(argv[j], &col)) {
+          fprintf(stderr, "Invalid columns.\n");
+          exit(1);
+        }
         cols[col_count++] = col;
       }
+      shmptr = (void *) wg_attach_database(shmname, shmsize);
+      if(!shmptr) {
+        fprintf(stderr, "Failed to attach to database.\n");
+        exit(1);
+      }
       WLOCK(shmptr, wlock);
-      wg_create_multi_index(shmptr, cols, col_count,
-        WG_INDEX_TYPE_HASH_JSON, NULL, 0);
+      if(wg_create_multi_index(shmptr, cols, col_count,
+        WG_INDEX_TYPE_HASH_JSON, NULL, 0))
+        fprintf(stderr, "Failed to create index.\n");
       WULOCK(shmptr, wlock);
       break;
     }
     else if(argc>(i+1) && !strcmp(argv[i], "dropindex")) {
       int index_id;
+      if(parse_int(argv[i+1], &index_id)) {
+        fprintf(stderr, "Invalid index id.\n");
+        exit(1);
+      }
       shmptr = (void *) wg_attach_database(shmname, shmsize);
       if(!shmptr) {
         fprintf(stderr, "Failed to attach to database.\n");
         exit(1);
       }
-      sscanf(argv[i+1], "%d", &index_id);
       WLOCK(shmptr, wlock);
       if(wg_drop_index(shmptr, index_id))
         fprintf(stderr, "Failed to drop index.\n");
@@ -1151,6 +1179,8 @@ void print_indexes(void *db, FILE *f) {
             typestr[1] = 'J';
             break;
           default:
+            typestr[0] = '?';
+            typestr[1] = '\0';
             break;
         }
         fprintf(f, "%d\t%s\t%d\t%d\t%s\n",
-- 
2.43.0


From 80b8ee158148bf61117d40d46f33b609403bfeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:47 +0000
Subject: [PATCH 096/116] fix: size and mode arguments of wgdb do not overflow
 or depend on earlier errors

---
 Main/wgdb.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Main/wgdb.c b/Main/wgdb.c
index 46e9e51..c56cff8 100644
--- a/Main/wgdb.c
+++ b/Main/wgdb.c
@@ -201,8 +201,10 @@ void usage(char *prog) {
 */
 gint parse_shmsize(char *arg) {
   char *trailing = NULL;
-  long maxv = LONG_MAX, mult = 1, val = strtol(arg, &trailing, 10);
+  long maxv = LONG_MAX, mult = 1, val;
 
+  errno = 0;
+  val = strtol(arg, &trailing, 10);
   if((val == LONG_MAX || val == LONG_MIN) && errno==ERANGE) {
     fprintf(stderr, "Numeric value out of range (try k, M, G?)\n");
   } else if(trailing) {
@@ -224,9 +226,7 @@ gint parse_shmsize(char *arg) {
     }
   }
 
-#ifndef HAVE_64BIT_GINT
   maxv /= mult;
-#endif
   if(val > maxv) {
     fprintf(stderr, "Requested segment size not supported (using %ld)\n",
       mult * maxv);
@@ -259,7 +259,10 @@ gint parse_flag(char *arg) {
  */
 int parse_memmode(char *arg) {
   char *trailing = NULL;
-  long parsed = strtol(arg, &trailing, 8);
+  long parsed;
+
+  errno = 0;
+  parsed = strtol(arg, &trailing, 8);
   if(errno == 0 && (!trailing || strlen(trailing) == 0) &&
       parsed <= 0777 && parsed > 0) {
     return (int) parsed;
-- 
2.43.0


From ab9ee9de37b70f0d520fe45ea4ea216b0ae5032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:22 +0000
Subject: [PATCH 097/116] fix: wgdb exits with a nonzero status when a command
 fails

---
 Main/wgdb.c | 79 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 25 deletions(-)

diff --git a/Main/wgdb.c b/Main/wgdb.c
index c56cff8..a19446d 100644
--- a/Main/wgdb.c
+++ b/Main/wgdb.c
@@ -87,12 +87,14 @@ extern "C" {
 #define RLOCK(d,i) i = wg_start_read(d); \
     if(!i) { \
         fprintf(stderr, "Failed to get database lock\n"); \
+        status = 1; \
         break; \
     }
 
 #define WLOCK(d,i) i = wg_start_write(d); \
     if(!i) { \
         fprintf(stderr, "Failed to get database lock\n"); \
+        status = 1; \
         break; \
     }
 
@@ -113,13 +115,13 @@ int parse_memmode(char *arg);
 int parse_int(char *arg, int *val);
 wg_query_arg *make_arglist(void *db, char **argv, int argc, int *sz);
 void free_arglist(void *db, wg_query_arg *arglist, int sz);
-void query(void *db, char **argv, int argc);
-void del(void *db, char **argv, int argc);
+int query(void *db, char **argv, int argc);
+int del(void *db, char **argv, int argc);
 void selectdata(void *db, int howmany, int startingat);
 int add_row(void *db, char **argv, int argc);
 wg_json_query_arg *make_json_arglist(void *db, char *json, int *sz,
  void **doc);
-void findjson(void *db, char *json);
+int findjson(void *db, char *json);
 void segment_stats(void *db);
 void print_indexes(void *db, FILE *f);
 
@@ -296,6 +298,7 @@ int main(int argc, char **argv) {
   char *shmname = NULL;
   void *shmptr = NULL;
   int i, scan_to;
+  int status = 0; /* exit status, 1 if the command failed */
   gint shmsize;
   wg_int rlock = 0;
   wg_int wlock = 0;
@@ -321,8 +324,7 @@ int main(int argc, char **argv) {
     }
     if (!strcmp(argv[i],"free")) {
       /* free shared memory */
-      wg_delete_database(shmname);
-      exit(0);
+      exit(wg_delete_database(shmname) ? 1 : 0);
     }
     if(argc>(i+1) && !strcmp(argv[i],"import")){
       wg_int err, minsize, maxsize;
@@ -340,6 +342,7 @@ int main(int argc, char **argv) {
       err = wg_check_dump(NULL, argv[k+1], &minsize, &maxsize);
       if(err) {
         fprintf(stderr, "Import failed.\n");
+        status = 1;
         break;
       }
 
@@ -359,6 +362,7 @@ int main(int argc, char **argv) {
           " become corrupt\n");
       else
         fprintf(stderr, "Import failed.\n");
+      status = (err != 0);
       break;
     }
     else if(argc>(i+1) && !strcmp(argv[i],"export")){
@@ -391,6 +395,7 @@ int main(int argc, char **argv) {
           " become corrupt\n");
       else if(err)
         fprintf(stderr, "Export failed.\n");
+      status = (err != 0);
       break;
     }
 #ifdef USE_DBLOG
@@ -413,6 +418,7 @@ int main(int argc, char **argv) {
           "become corrupt\n");
       else
         fprintf(stderr, "Failed to import log (database unmodified).\n");
+      status = (err != 0);
       break;
     }
 #endif
@@ -447,6 +453,7 @@ int main(int argc, char **argv) {
           " imported\n");
       else
         fprintf(stderr, "Import failed.\n");
+      status = (err != 0);
       break;
     }
 
@@ -467,6 +474,7 @@ int main(int argc, char **argv) {
           " imported\n");
       else
         fprintf(stderr, "Import failed.\n");
+      status = (err != 0);
       break;
     }
     else if(argc>(i+1) && !strcmp(argv[i],"importotter")){
@@ -485,6 +493,7 @@ int main(int argc, char **argv) {
           " imported\n");
       else
         fprintf(stderr, "Import failed.\n");
+      status = (err != 0);
       break;
     }
     else if(argc>i && !strcmp(argv[i],"runreasoner")){
@@ -524,6 +533,7 @@ int main(int argc, char **argv) {
       RULOCK(shmptr, rlock);
       if(err)
         fprintf(stderr, "Export failed.\n");
+      status = (err != 0);
       break;
     }
     else if(argc>(i+3) && !strcmp(argv[i],"importrdf")){
@@ -550,6 +560,7 @@ int main(int argc, char **argv) {
           " imported\n");
       else
         fprintf(stderr, "Import failed.\n");
+      status = (err != 0);
       break;
     }
 #endif
@@ -645,6 +656,7 @@ int main(int argc, char **argv) {
       WULOCK(shmptr, wlock);
       if(!err)
         printf("Row added.\n");
+      status = (err != 0);
       break;
     }
     else if(argc>(i+2) && !strcmp(argv[i],"del")) {
@@ -654,8 +666,7 @@ int main(int argc, char **argv) {
         exit(1);
       }
       /* Delete works like query(), except deletes the matching rows */
-      del(shmptr, argv+i+1, argc-i-1);
-      break;
+      status = (del(shmptr, argv+i+1, argc-i-1) != 0);
       break;
     }
     else if(argc>(i+3) && !strcmp(argv[i],"query")) {
@@ -665,7 +676,7 @@ int main(int argc, char **argv) {
         exit(1);
       }
       /* Query handles it's own locking */
-      query(shmptr, argv+i+1, argc-i-1);
+      status = (query(shmptr, argv+i+1, argc-i-1) != 0);
       break;
     }
     else if(argc>i && !strcmp(argv[i],"addjson")){
@@ -688,6 +699,7 @@ int main(int argc, char **argv) {
           " imported\n");
       else
         fprintf(stderr, "Import failed.\n");
+      status = (err != 0);
       break;
     }
     else if(argc>(i+1) && !strcmp(argv[i],"findjson")) {
@@ -697,7 +709,7 @@ int main(int argc, char **argv) {
         exit(1);
       }
       WLOCK(shmptr, wlock);
-      findjson(shmptr, argv[i+1]);
+      status = (findjson(shmptr, argv[i+1]) != 0);
       WULOCK(shmptr, wlock);
       break;
     }
@@ -713,8 +725,10 @@ int main(int argc, char **argv) {
         exit(1);
       }
       WLOCK(shmptr, wlock);
-      if(wg_create_index(shmptr, col, WG_INDEX_TYPE_TTREE, NULL, 0))
+      if(wg_create_index(shmptr, col, WG_INDEX_TYPE_TTREE, NULL, 0)) {
         fprintf(stderr, "Failed to create index.\n");
+        status = 1;
+      }
       WULOCK(shmptr, wlock);
       break;
     }
@@ -736,8 +750,10 @@ int main(int argc, char **argv) {
       }
       WLOCK(shmptr, wlock);
       if(wg_create_multi_index(shmptr, cols, col_count,
-        WG_INDEX_TYPE_HASH_JSON, NULL, 0))
+        WG_INDEX_TYPE_HASH_JSON, NULL, 0)) {
         fprintf(stderr, "Failed to create index.\n");
+        status = 1;
+      }
       WULOCK(shmptr, wlock);
       break;
     }
@@ -753,9 +769,10 @@ int main(int argc, char **argv) {
         exit(1);
       }
       WLOCK(shmptr, wlock);
-      if(wg_drop_index(shmptr, index_id))
+      if(wg_drop_index(shmptr, index_id)) {
         fprintf(stderr, "Failed to drop index.\n");
-      else
+        status = 1;
+      } else
         printf("Index dropped.\n");
       WULOCK(shmptr, wlock);
       break;
@@ -778,13 +795,14 @@ int main(int argc, char **argv) {
   if(i==scan_to) {
     /* loop completed normally ==> no commands found */
     usage(argv[0]);
+    status = 1;
   }
   if(shmptr) {
     RULOCK(shmptr, rlock);
     WULOCK(shmptr, wlock);
     wg_detach_database(shmptr);
   }
-  exit(0);
+  exit(status);
 }
 
 /** Parse row matching parameters from the command line
@@ -877,8 +895,8 @@ void free_arglist(void *db, wg_query_arg *arglist, int sz) {
 
 /** Basic query functionality
  */
-void query(void *db, char **argv, int argc) {
-  int qargc;
+int query(void *db, char **argv, int argc) {
+  int qargc, err = -1;
   void *rec = NULL;
   wg_query *q;
   wg_query_arg *arglist;
@@ -886,7 +904,7 @@ void query(void *db, char **argv, int argc) {
 
   arglist = make_arglist(db, argv, argc, &qargc);
   if(!arglist)
-    return;
+    return -1;
 
   if(!(lock_id = wg_start_read(db))) {
     fprintf(stderr, "failed to get lock on database\n");
@@ -894,8 +912,11 @@ void query(void *db, char **argv, int argc) {
   }
 
   q = wg_make_query(db, NULL, 0, arglist, qargc);
-  if(!q)
+  if(!q) {
+    fprintf(stderr, "query failed\n");
     goto abrt2;
+  }
+  err = 0;
 
 /*  printf("query col: %d type: %d\n", q->column, q->qtype); */
   rec = wg_fetch(db, q);
@@ -910,13 +931,14 @@ abrt2:
   wg_end_read(db, lock_id);
 abrt1:
   free_arglist(db, arglist, qargc);
+  return err;
 }
 
 /** Delete rows
  *  Like query(), except the selected rows are deleted.
  */
-void del(void *db, char **argv, int argc) {
-  int qargc;
+int del(void *db, char **argv, int argc) {
+  int qargc, err = -1;
   void *rec = NULL;
   wg_query *q;
   wg_query_arg *arglist;
@@ -924,7 +946,7 @@ void del(void *db, char **argv, int argc) {
 
   arglist = make_arglist(db, argv, argc, &qargc);
   if(!arglist)
-    return;
+    return -1;
 
   /* Use maximum isolation */
   if(!(lock_id = wg_start_write(db))) {
@@ -933,8 +955,11 @@ void del(void *db, char **argv, int argc) {
   }
 
   q = wg_make_query(db, NULL, 0, arglist, qargc);
-  if(!q)
+  if(!q) {
+    fprintf(stderr, "query failed\n");
     goto abrt2;
+  }
+  err = 0;
 
   if(q->res_count > 0) {
     gint errc = 0;
@@ -947,6 +972,7 @@ void del(void *db, char **argv, int argc) {
     }
     if(errc) {
       printf(" done, %d errors\n", (int) errc);
+      err = -1;
     }
     else {
       printf(" done\n");
@@ -958,6 +984,7 @@ abrt2:
   wg_end_write(db, lock_id);
 abrt1:
   free_arglist(db, arglist, qargc);
+  return err;
 }
 
 /** Print rows from database
@@ -1063,15 +1090,15 @@ wg_json_query_arg *make_json_arglist(void *db, char *json, int *sz,
 
 /** JSON query
  */
-void findjson(void *db, char *json) {
-  int qargc;
+int findjson(void *db, char *json) {
+  int qargc, err = -1;
   void *rec = NULL, *document = NULL;
   wg_query *q;
   wg_json_query_arg *arglist;
 
   arglist = make_json_arglist(db, json, &qargc, &document);
   if(!arglist)
-    return;
+    return -1;
 
   q = wg_make_json_query(db, arglist, qargc);
   if(!q)
@@ -1085,11 +1112,13 @@ void findjson(void *db, char *json) {
   }
 
   wg_free_query(db, q);
+  err = 0;
 abort:
   free(arglist);
   if(document) {
     wg_delete_document(db, document);
   }
+  return err;
 }
 
 /** Print information about the memory database.
-- 
2.43.0


From 6c18059fcebeb8835d8dd0af9a0f730a9e28645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:14 +0000
Subject: [PATCH 098/116] fix: dserve initialises all its configuration values
 and counters

---
 Server/dserve.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index aa5ee37..b72a6b0 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -389,9 +389,11 @@ static void setup_globals(void) {
   globalptr->conf->admin_tokens.size=0;
   globalptr->conf->write_tokens.size=0;
   globalptr->conf->read_tokens.size=0;
+  globalptr->conf->key_file.size=0;
+  globalptr->conf->cert_file.size=0;
   globalptr->conf->default_dbase.used=0;
   globalptr->conf->default_dbase_size.used=0;
-  globalptr->conf->max_dbase_size.size=0;
+  globalptr->conf->max_dbase_size.used=0;
   globalptr->conf->dbases.used=0;
   globalptr->conf->admin_ips.used=0;
   globalptr->conf->write_ips.used=0;
@@ -399,6 +401,8 @@ static void setup_globals(void) {
   globalptr->conf->admin_tokens.used=0;
   globalptr->conf->write_tokens.used=0;
   globalptr->conf->read_tokens.used=0;  
+  globalptr->conf->key_file.used=0;
+  globalptr->conf->cert_file.used=0;
 }
   
 char* process_query(char* inquery, thread_data_p tdata) {  
@@ -568,7 +572,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
   char* sfields[MAXPARAMS]; // set / selected fields
   char* svalues[MAXPARAMS]; // set field values
   char* stypes[MAXPARAMS];  // set field types  
-  int sfcount; // array el counters for above              
+  int sfcount=0; // array el counters for above              
   int from=0;             
   unsigned long count,rcount,gcount,handlecount;
   void* db=NULL; // actual database pointer
-- 
2.43.0


From c048cd4b349ed3a1a2bb7aa2bf5299d5b2b8c283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:15 +0000
Subject: [PATCH 099/116] fix: dserve terminates posted queries and has room
 for a query of the maximal length

---
 Server/dserve.c     | 6 ++----
 Server/dserve_net.c | 1 +
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index b72a6b0..1b6174f 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -357,9 +357,7 @@ static char* get_cgi_query(thread_data_p tdata, char* inmethod) {
     }
     n=fread(inquery,1,len,stdin);
     if (n<=0) { return NULL; }
-    if (n<len) {
-      // read less than content-length
-    }
+    inquery[n]='\0'; // may have read less than content-length
     return inquery; 
   } else {
     return NULL;
@@ -408,7 +406,7 @@ static void setup_globals(void) {
 char* process_query(char* inquery, thread_data_p tdata) {  
   int i=0;
   char *query;
-  char querybuf[MAXQUERYLEN];  
+  char querybuf[MAXQUERYLEN+1];  
   int pcount=0;
   int ql,found;  
   char* res=NULL;
diff --git a/Server/dserve_net.c b/Server/dserve_net.c
index 8424ac2..e66d6c2 100644
--- a/Server/dserve_net.c
+++ b/Server/dserve_net.c
@@ -677,6 +677,7 @@ static char* get_post_data(int connsd,char* buf,void* ssl,thread_data_p tdata) {
     warnprint(READING_FAILED_WARN,NULL);
     return NULL;
   }
+  buffer[len]='\0';
   tdata->inbuf=buffer;
   tdata->intype=type;
   //printf("query:\n%s\n",buffer);
-- 
2.43.0


From 4caac40943dde62b5ff101860a2907372329667d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:15 +0000
Subject: [PATCH 100/116] fix: a dserve request is not affected by an earlier
 one served by the same thread

---
 Server/dserve_net.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Server/dserve_net.c b/Server/dserve_net.c
index e66d6c2..25e7bbb 100644
--- a/Server/dserve_net.c
+++ b/Server/dserve_net.c
@@ -454,7 +454,9 @@ void *handle_http(void *targ) {
 #endif
       // accepted connection: read and process
       // read and parse request line
-      readlineb(connsd,buf,MAXLINE,ssl);
+      uri=NULL; version=NULL; query=NULL; res=NULL; len=0; // may be left from an earlier request
+      tdata->inbuf=NULL;
+      if (readlineb(connsd,buf,MAXLINE,ssl)<=0) buf[0]='\0';
       method=buf;
       for(i=0,bp=buf; *bp!='\0' && i<2; bp++) {
         if (*bp==' ') {
-- 
2.43.0


From 023fa87c2c4d517797b381a80c09324e731964a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:42 +0000
Subject: [PATCH 101/116] fix: dserve does not use a freed jsonp parameter in
 an error message

---
 Server/dserve_util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 7839cae..03c52fa 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -990,8 +990,9 @@ char* errhalt(char* str, thread_data_p tdata) {
     terminate();
   }
   if (tdata->isserver) {
+    char *errstr=make_http_errstr(str,tdata); // the jsonp parameter may be in inbuf
     if (tdata->inbuf!=NULL) { free(tdata->inbuf); tdata->inbuf=NULL; }
-    return make_http_errstr(str,tdata);
+    return errstr;
   } else {
     // freeing tdata->inbuf here is not really necessary
     if (tdata->inbuf!=NULL) { free(tdata->inbuf); tdata->inbuf=NULL; }
-- 
2.43.0


From 2dafa313e7a33709ffb2c50bcca5f7f54038fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:42 +0000
Subject: [PATCH 102/116] fix: dserve deletes and updates records under a write
 lock

---
 Server/dserve.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 1b6174f..76f56b0 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -679,9 +679,14 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
   handlecount=0; // actual nr of records handled
   // get lock
   if (tdata->realthread && tdata->common->shutdown) return NULL; // for multithreading only
-  lock_id = wg_start_read(db); // get read lock
+  if (opcode==DELETE_CODE || opcode==UPDATE_CODE) {
+    lock_id = wg_start_write(db); // get write lock
+    tdata->lock_type=WRITE_LOCK_TYPE;
+  } else {
+    lock_id = wg_start_read(db); // get read lock
+    tdata->lock_type=READ_LOCK_TYPE;
+  }
   tdata->lock_id=lock_id;
-  tdata->lock_type=READ_LOCK_TYPE;
   if (!lock_id) return err_clear_detach_halt(LOCK_ERR,tdata);
   // handle one of the cases
   if (searchtype==0) {
@@ -805,7 +810,9 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     tdata->bufptr+=itmp;
   }
   // release locks and detach
-  if (!wg_end_read(db, lock_id)) {  // release read lock
+  if (tdata->lock_type==WRITE_LOCK_TYPE) itmp=wg_end_write(db, lock_id);
+  else itmp=wg_end_read(db, lock_id);
+  if (!itmp) {
     return err_clear_detach_halt(LOCK_RELEASE_ERR,tdata);
   }
   tdata->lock_id=0;
-- 
2.43.0


From a81adade95d69bb565c4157ffc9e52e1f7ca9f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:42 +0000
Subject: [PATCH 103/116] fix: dserve obeys from and count in every search and
 delete

---
 Server/dserve.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 76f56b0..c5ff4cf 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -693,6 +693,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     // ------- full scan case  ---     
     rec=wg_get_first_record(db);
     while (rec!=NULL) {    
+      oldrec=NULL;
       if (rcount>=from) {
         gcount++;
         if (gcount>count) break;  
@@ -704,11 +705,12 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
         } else if (opcode==UPDATE_CODE) {
           itmp=op_update_record(tdata,db,rec,0,0);
           if (!itmp) handlecount++;
+        } else if (opcode==DELETE_CODE) {
+          oldrec=rec; // deleted after passing it
         }
       }
-      oldrec=rec;
       rec=wg_get_next_record(db,rec);
-      if (opcode==DELETE_CODE) {
+      if (oldrec!=NULL) {
         x=wg_get_record_len(db,oldrec);
         if (x>0) {
           itmp=op_delete_record(tdata,oldrec);
@@ -781,6 +783,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     while((rec = wg_fetch(db, wgquery))) {
       if (rcount>=from) {
         gcount++;                           
+        if (gcount>count) break;
         if (opcode==COUNT_CODE) handlecount++;
         else if (opcode==SEARCH_CODE) {
           itmp=op_print_record(tdata,rec,gcount);
@@ -795,7 +798,6 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
         }
       }  
       rcount++;
-      if (gcount>=count) break;    
     }   
     // free query datastructure, 
     for(i=0;i<fcount;i++) wg_free_query_param(db, wgargs[i].value);
-- 
2.43.0


From a011a8ddcfa072b9dea36754bd65d7b1d2c1d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:42 +0000
Subject: [PATCH 104/116] fix: dserve checks the record ids given to it and
 does not print deleted records

---
 Server/dserve.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index c5ff4cf..bbcb30d 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -105,6 +105,7 @@ static char* create(thread_data_p tdata, char* inparams[], char* invalues[],
 static char* drop(thread_data_p tdata, char* inparams[], char* invalues[], 
   int incount);
 
+static void* op_find_record(void* db, wg_int id);
 static int op_print_record(thread_data_p tdata,void* rec,int gcount);
 static int op_delete_record(thread_data_p tdata,void* rec);
 
@@ -723,9 +724,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
   } else if (searchtype==1) {
     // ------------ search by record ids: ------------               
     for(j=0; ids[j]!=0 && j<MAXIDS; j++) {    
-      x=wg_get_encoded_type(db,ids[j]);
-      if (x!=WG_RECORDTYPE) continue;
-      rec=wg_decode_record(db,ids[j]);    
+      rec=op_find_record(db,ids[j]);
       if (rec==NULL) continue;
       x=wg_get_record_len(db,rec);
       if (x<=0) continue;      
@@ -742,9 +741,6 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
         // test that db is not null, otherwise we may corrupt the database
         oldrec=wg_get_first_record(db);
         if (oldrec!=NULL) {
-          //wg_int objecthead=dbfetch((void*)db,(void*)rec);
-          //printf("isfreeobject %d\n",isfreeobject((int)objecthead));
-          wg_print_record(db,rec);
           itmp=op_delete_record(tdata,rec);
           //printf("deletion result %d\n",itmp);
           if (!itmp) handlecount++;
@@ -771,6 +767,8 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
       if (type==BAD_WG_VALUE) return err_clear_detach_halt(INTYPE_ERR,tdata);
       // encode value to compare with   
       wgargs[i].value =  encode_invalue(db,values[i],type);        
+      if (type==WG_RECORDTYPE && wgargs[i].value!=WG_ILLEGAL &&
+          op_find_record(db,wgargs[i].value)==NULL) wgargs[i].value=WG_ILLEGAL;
       if (wgargs[i].value==WG_ILLEGAL) return err_clear_detach_halt(INTYPE_ERR,tdata);
     }   
     
@@ -1115,6 +1113,18 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[], int i
 
 /* ***** print, delete, update utilities ****** */
 
+// find the record with the given id, which may be arbitrary input
+// return NULL if there is no such record
+
+static void* op_find_record(void* db, wg_int id) {
+  void* rec;
+
+  for(rec=wg_get_first_record(db); rec!=NULL; rec=wg_get_next_record(db,rec)) {
+    if (wg_encode_record(db,rec)==id) return rec;
+  }
+  return NULL;
+}
+
 // print a single record to output string buffer of tdata
 // return 1 if ok, 0 if fails
 
-- 
2.43.0


From 15f2a37be0f25192d14e7dedcdb82db0a1e97eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:59 +0000
Subject: [PATCH 105/116] fix: dserve escapes every kind of text value it
 prints

---
 Server/dserve.h      |  1 +
 Server/dserve_util.c | 40 ++++++++++++++++++++++++++++------------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/Server/dserve.h b/Server/dserve.h
index f8ca1db..962405d 100644
--- a/Server/dserve.h
+++ b/Server/dserve.h
@@ -477,6 +477,7 @@ char* urldecode(char *indst, char *src);
 int sprint_record(void *db, wg_int *rec, thread_data_p tdata);                   
 char* sprint_value(void *db, wg_int enc, thread_data_p tdata);
 int sprint_string(char* bptr, int limit, char* strdata, int strenc);
+char* sprint_pair(char* bptr, char* a, char sep, char* b, int strenc);
 int sprint_blob(char* bptr, int limit, char* strdata, int strenc);
 int sprint_append(char** buf, char* str, int l);
 
diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 03c52fa..ab9d2fe 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -359,11 +359,7 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
       if (exdata!=NULL) strl2=strlen(exdata);      
       else strl2=0; 
       if (!str_guarantee_space(tdata, MIN_STRLEN+STRLEN_FACTOR*(strl1+strl2))) return NULL;
-      sprint_string(*bptr,(strl1+strl2),strdata,tdata->strenc);      
-      if (exdata!=NULL) {
-        snprintf(*bptr+strl1+1,limit,"@%s\"", exdata);
-      }     
-      return *bptr+strlen(*bptr);
+      return sprint_pair(*bptr,strdata,'@',exdata,tdata->strenc);
     case WG_URITYPE:
       strdata = wg_decode_uri(db, enc);
       exdata = wg_decode_uri_prefix(db, enc);
@@ -374,10 +370,9 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
       limit=MIN_STRLEN+STRLEN_FACTOR*(strl1+strl2);
       if(!str_guarantee_space(tdata, limit)) return NULL;
       if (exdata==NULL)
-        snprintf(*bptr, limit, "\"%s\"", strdata);
+        return sprint_pair(*bptr,strdata,':',NULL,tdata->strenc);
       else
-        snprintf(*bptr, limit, "\"%s:%s\"", exdata, strdata);
-      return *bptr+strlen(*bptr);
+        return sprint_pair(*bptr,exdata,':',strdata,tdata->strenc);
     case WG_XMLLITERALTYPE:
       strdata = wg_decode_xmlliteral(db, enc);
       exdata = wg_decode_xmlliteral_xsdtype(db, enc);
@@ -387,13 +382,16 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
       else strl2=0; 
       limit=MIN_STRLEN+STRLEN_FACTOR*(strl1+strl2);      
       if(!str_guarantee_space(tdata, limit)) return NULL;      
-      snprintf(*bptr, limit, "\"%s:%s\"", exdata, strdata);
-      return *bptr+strlen(*bptr);
+      if (exdata==NULL)
+        return sprint_pair(*bptr,strdata,':',NULL,tdata->strenc);
+      else
+        return sprint_pair(*bptr,exdata,':',strdata,tdata->strenc);
     case WG_CHARTYPE:
       intdata = wg_decode_char(db, enc);
       if(!str_guarantee_space(tdata, MIN_STRLEN)) return NULL;
-      snprintf(*bptr, limit, "\"%c\"", (char) intdata);
-      return *bptr+strlen(*bptr);
+      strbuf[0]=(char) intdata;
+      strbuf[1]='\0';
+      return sprint_pair(*bptr,strbuf,':',NULL,tdata->strenc);
     case WG_DATETYPE:
       intdata = wg_decode_date(db, enc);
       wg_strf_iso_datetime(db,intdata,0,strbuf);
@@ -548,6 +546,24 @@ int sprint_string(char* bptr, int limit, char* strdata, int strenc) {
 }
 
 
+/* Print a, the character sep and b as one string: sep and b only if b is not NULL.
+
+  Returns a pointer to the next byte after the printed string.
+*/
+
+char* sprint_pair(char* bptr, char* a, char sep, char* b, int strenc) {
+  sprint_string(bptr,(a==NULL) ? 0 : strlen(a),a,strenc);
+  bptr+=strlen(bptr);
+  if (b!=NULL) {
+    bptr--; // b starts at the closing quote of a: sep replaces its opening quote
+    sprint_string(bptr,strlen(b),b,strenc);
+    *bptr=sep;
+    bptr+=strlen(bptr);
+  }
+  return bptr;
+}
+
+
 int sprint_blob(char* bptr, int limit, char* strdata, int strenc) {
   unsigned char c;
   char *sptr;
-- 
2.43.0


From 1ac90937468613c6980869ad47a6137671ee4b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:59 +0000
Subject: [PATCH 106/116] fix: dserve prints whole blobs, also with zero bytes
 inside

---
 Server/dserve_util.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index ab9d2fe..942e0dc 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -413,7 +413,7 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
     case WG_BLOBTYPE:
       strdata = wg_decode_blob(db, enc);
       strl=wg_decode_blob_len(db, enc);
-      limit=MIN_STRLEN+STRLEN_FACTOR*strlen(strdata);
+      limit=MIN_STRLEN+STRLEN_FACTOR*strl;
       if(!str_guarantee_space(tdata, limit)) return NULL;
       sprint_blob(*bptr,strl,strdata,tdata->strenc);
       return *bptr+strlen(*bptr);
@@ -576,14 +576,10 @@ int sprint_blob(char* bptr, int limit, char* strdata, int strenc) {
     *bptr='\0'; 
     return 1;  
   }  
-  // non-ascii chars and % and " urlencoded
+  // non-ascii chars and % and " and \ urlencoded
   for(i=0;i<limit;i++) {
     c=*sptr++;
-    if (c=='\0') { 
-      *bptr++='"';
-      *bptr='\0';  
-      return 1; 
-    } else if (c < ' ' || c=='%' || c=='"' || (int)c>126) {
+    if (c < ' ' || c=='%' || c=='"' || c=='\\' || (int)c>126) {
       *bptr++='%';
       *bptr++=hex_chars[c >> 4];
       *bptr++=hex_chars[c & 0xf];
-- 
2.43.0


From 326fb1edb0a203aeb8b316c895b83d6021a768d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:59 +0000
Subject: [PATCH 107/116] fix: dserve counts the depth of nested records

---
 Server/dserve.c      | 2 +-
 Server/dserve_util.c | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index bbcb30d..3f4848d 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -427,7 +427,7 @@ char* process_query(char* inquery, thread_data_p tdata) {
   tdata->jsonp=NULL;
   tdata->format=1;
   tdata->showid=0;
-  tdata->depth=MAX_DEPTH_DEFAULT;
+  tdata->depth=0;
   tdata->maxdepth=MAX_DEPTH_DEFAULT;
   tdata->strenc=2;
   tdata->buf=NULL;
diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 942e0dc..3371357 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -331,8 +331,9 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
         // recursive print
         ptrdata = wg_decode_record(db, enc);
         if(ptrdata==0) return NULL;
-        sprint_record(db,ptrdata,tdata);
-        **bptr='\0';                 
+        tdata->depth++;
+        if (!sprint_record(db,ptrdata,tdata)) return NULL;
+        tdata->depth--;
         return *bptr;
       }      
       break;
-- 
2.43.0


From 9210dc6b8599c612e231e855bbc69ca22a48f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:59 +0000
Subject: [PATCH 108/116] fix: dserve handles negative and 64-bit integers and
 does not take an empty value for 0

---
 Server/dserve.c      |  2 +-
 Server/dserve_util.c | 33 +++++++++++++++++++--------------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 3f4848d..ed64aa7 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -606,7 +606,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
       for(j=0;j<MAXIDS;j++) ids[j]=0;
       // split csv int list to ids int array      
       for(j=0;j<strlen(cids);j++) {
-        if (atoi(cids+j) && atoi(cids+j)>0) ids[x++]=atoi(cids+j);        
+        if (atoll(cids+j)>0) ids[x++]=atoll(cids+j);
         if (x>=MAXIDS) break;
         for(;j<strlen(cids) && cids[j]!=','; j++) {};
       }             
diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 3371357..a8eb2d1 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -71,10 +71,10 @@ wg_int encode_invalue(void* db, char* invalue, wg_int type) {
   if (type==WG_NULLTYPE) return wg_encode_query_param_null(db,NULL);
   else if (type==WG_INTTYPE) {
     if (!isint(invalue)) return WG_ILLEGAL;      
-    return wg_encode_query_param_int(db,atoi(invalue));
+    return wg_encode_query_param_int(db,strtoll(invalue,NULL,10));
   } else if (type==WG_RECORDTYPE) {
     if (!isint(invalue)) return WG_ILLEGAL;      
-    return (wg_int)atoi(invalue);
+    return (wg_int)strtoll(invalue,NULL,10);
   } else if (type==WG_DOUBLETYPE) {
     if (!isdbl(invalue)) return WG_ILLEGAL;
     return wg_encode_query_param_double(db,strtod(invalue,NULL));
@@ -83,7 +83,7 @@ wg_int encode_invalue(void* db, char* invalue, wg_int type) {
   } else if (type==WG_CHARTYPE) {
     return wg_encode_query_param_char(db,invalue[0]);
   } else if (type==0 && isint(invalue)) {
-    return wg_encode_query_param_int(db,atoi(invalue));
+    return wg_encode_query_param_int(db,strtoll(invalue,NULL,10));
   } else if (type==0 && isdbl(invalue)) {
     return wg_encode_query_param_double(db,strtod(invalue,NULL));
   } else if (type==0) {
@@ -157,34 +157,38 @@ char* urldecode(char *indst, char *src) {
 /* ****** guess string datatype ****** */
 
 
-/* return 1 iff s contains numerals only
+/* return 1 iff s contains numerals only, with an optional minus in front
 */
 
 int isint(char* s) {
   if (s==NULL) return 0;
+  if (*s=='-') s++;
+  if (*s=='\0') return 0;
   while(*s!='\0') {
-    if (!isdigit(*s)) return 0;
+    if (!isdigit((unsigned char)*s)) return 0;
     s++;
   }
   return 1;
 }  
   
-/* return 1 iff s contains numerals plus single optional period only
+/* return 1 iff s contains numerals plus single optional period only,
+   with an optional minus in front
 */
 
 
 int isdbl(char* s) {
-  int c=0;
+  int c=0,d=0;
   if (s==NULL) return 0;
+  if (*s=='-') s++;
   while(*s!='\0') {
-    if (!isdigit(*s)) {
+    if (!isdigit((unsigned char)*s)) {
       if (*s=='.') c++;
       else return 0;
       if (c>1) return 0;
-    }
+    } else d++;
     s++;
   }
-  return 1;
+  return d>0;
 }   
 
 /* *********  json printing ********* */
@@ -247,7 +251,7 @@ int sprint_record(void *db, wg_int *rec, thread_data_p tdata) {
     if (len<0) return 0;    
     if (tdata->showid) {
       // add record id (offset) as the first extra elem of record      
-      snprintf(*bptr, limit-1, "%d",wg_encode_record(db,rec));
+      snprintf(*bptr, limit-1, "%lld",(long long)wg_encode_record(db,rec));
       *bptr=*bptr+strlen(*bptr);      
     }
     for(i=0; i<len; i++) {
@@ -307,6 +311,7 @@ int sprint_record(void *db, wg_int *rec, thread_data_p tdata) {
 char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
   wg_int *ptrdata;
   int intdata,strl,strl1,strl2;
+  long long intval;
   char *strdata, *exdata;
   double doubledata;
   char strbuf[80]; // tmp area for dates
@@ -325,7 +330,7 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
     case WG_RECORDTYPE:      
       if (!str_guarantee_space(tdata, MIN_STRLEN)) return NULL;
       if (!tdata->format || tdata->depth>=tdata->maxdepth) {
-        snprintf(*bptr, limit,"%d", (int)enc); // record offset (i.e. id)
+        snprintf(*bptr, limit,"%lld", (long long)enc); // record offset (i.e. id)
         return *bptr+strlen(*bptr);
       } else {
         // recursive print
@@ -338,9 +343,9 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
       }      
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
+      intval = wg_decode_int(db, enc);
       if (!str_guarantee_space(tdata, MIN_STRLEN)) return NULL;
-      snprintf(*bptr, limit, "%d", intdata);
+      snprintf(*bptr, limit, "%lld", intval);
       return *bptr+strlen(*bptr);
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
-- 
2.43.0


From 05f038769852d0bee3312b47d07d632beee62531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:59 +0000
Subject: [PATCH 109/116] fix: dserve decodes urlencoding with lower case
 digits

---
 Server/dserve_util.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index a8eb2d1..9856850 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -136,11 +136,11 @@ char* urldecode(char *indst, char *src) {
   while (*src) {
     if ((*src == '%') && (src+2<endptr) &&
         ((a = src[1]) && (b = src[2])) &&
-        (isxdigit(a) && isxdigit(b))) {
-      if (a >= 'a') a -= 'A'-'a';
+        (isxdigit((unsigned char)a) && isxdigit((unsigned char)b))) {
+      if (a >= 'a') a -= 'a'-'A';
       if (a >= 'A') a -= ('A' - 10);
       else a -= '0';
-      if (b >= 'a') b -= 'A'-'a';
+      if (b >= 'a') b -= 'a'-'A';
       if (b >= 'A') b -= ('A' - 10);
       else b -= '0';
       *dst++ = 16*a+b;
-- 
2.43.0


From 11d3699ddfeb95ff1f284c3a97bf7ba5e2b0bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:00 +0000
Subject: [PATCH 110/116] fix: dserve output buffer always has the room asked
 for, also for a long jsonp parameter

---
 Server/dserve.c      | 9 +++++----
 Server/dserve_util.c | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index ed64aa7..7f26434 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -1227,14 +1227,15 @@ static char* handle_fld_param(thread_data_p tdata,char* key,char* value,
 // return 1 if successful, 0 if fails
 
 static int op_print_data_start(thread_data_p tdata, int listflag) {
-  int itmp;
+  int itmp,limit=MIN_STRLEN;
   
-  if(!str_guarantee_space(tdata,MIN_STRLEN)) return 0;
+  if (tdata->jsonp!=NULL) limit+=strlen(tdata->jsonp);
+  if(!str_guarantee_space(tdata,limit)) return 0;
   if (tdata->format!=0) {
     // json
     if (tdata->jsonp!=NULL) {
-      if (listflag) itmp=snprintf(tdata->bufptr,MIN_STRLEN,"%s([\n",tdata->jsonp);
-      else itmp=snprintf(tdata->bufptr,MIN_STRLEN,"%s(",tdata->jsonp);
+      if (listflag) itmp=snprintf(tdata->bufptr,limit,"%s([\n",tdata->jsonp);
+      else itmp=snprintf(tdata->bufptr,limit,"%s(",tdata->jsonp);
       tdata->bufptr+=itmp;
     } else {
       if (listflag) { 
diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 9856850..ad2e41c 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -647,7 +647,7 @@ int str_guarantee_space(thread_data_p tdata, int needed) {
   if (needed>(*strlenadr-(int)((*ptr)-(*stradr)))) {  
     used=(int)((*ptr)-(*stradr));
     newlen=(*strlenadr)*2;
-    if (newlen<needed) newlen=needed;
+    if (newlen<used+needed) newlen=used+needed;
     if (newlen>MAX_MALLOC) {
       //if (*stradr!=NULL) free(*stradr);
       //err_clear_detach_halt(MALLOC_ERR);
@@ -656,7 +656,7 @@ int str_guarantee_space(thread_data_p tdata, int needed) {
     //printf("needed %d oldlen %d used %d newlen %d \n",needed,*strlenadr,used,newlen);
     tmp=realloc(*stradr,newlen);
     if (tmp==NULL) {
-      if (*stradr!=NULL) free(*stradr);
+      // the old buffer is freed by the caller
       //err_clear_detach_halt(MALLOC_ERR);
       return 0;
     }     
-- 
2.43.0


From a7010c9ecbfbcd8ee68b7ae6b0281cfa2e643edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:00 +0000
Subject: [PATCH 111/116] fix: dserve refuses to create a database with a bad
 size

---
 Server/dserve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 7f26434..7bc70ac 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -985,7 +985,7 @@ static char* create(thread_data_p tdata, char* inparams[], char* invalues[], int
     } else if (strncmp(inparams[i],"size",MAXQUERYLEN)==0) {
       tmps=invalues[i];   
       size=atoi(tmps);
-      if(tmps<=0) return errhalt(DB_NO_SIZE_ERR,tdata); 
+      if(size<=0) return errhalt(DB_NO_SIZE_ERR,tdata); 
 #ifdef MAX_DATABASE_SIZE
       max_size=MAX_DATABASE_SIZE;
 #else
-- 
2.43.0


From 5e1002c04310e9b268eee644b3228d3f628b6140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:00 +0000
Subject: [PATCH 112/116] fix: a dserve connection is not lost when the task
 queue is full

---
 Server/dserve_net.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Server/dserve_net.c b/Server/dserve_net.c
index 25e7bbb..dfaeae2 100644
--- a/Server/dserve_net.c
+++ b/Server/dserve_net.c
@@ -181,14 +181,15 @@ int run_server(int port, dserve_global_p globalptr) {
       SSL_set_fd(ssl,connsd);	
 #endif
       // now we have a connection: add to queue
+      while(common->count==common->queue_size && !common->shutdown) { // full?
+        //fprintf(stderr, "queue full\n");
+        pthread_mutex_unlock(&(common->mutex));
+        nanosleep(&tim , &tim2);
+        pthread_mutex_lock(&(common->mutex));
+      }
       next=common->tail+1;
       next=(next==common->queue_size) ? 0 : next;
       do {
-        if(common->count==common->queue_size) { // full?
-          //fprintf(stderr, "queue full\n");
-          nanosleep(&tim , &tim2);
-          break; //continue;
-        }
         if(common->shutdown) { 
           warnprint(SHUTDOWN_WARN,NULL);
           break;
-- 
2.43.0


From 29f85c0127893015884931fa5f73012b46627ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:01 +0000
Subject: [PATCH 113/116] fix: dserve reads configuration files of every size

---
 Server/dserve_util.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index ad2e41c..b5b2e0c 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -687,7 +687,7 @@ int load_configuration(char* path, dserve_conf_p conf) {
   // read configuration file
   fp=fopen(path,READ);
   if (fp==NULL) {errprint(CONF_OPEN_ERR,path);  exit(ERR_EX_NOINPUT);}    
-  for(i=0;i<10;i++) {
+  for(i=0;;i++) {
     //printf("i %d bufsize %d\n",i,bufsize);
     buf=malloc(bufsize);
     if (buf==NULL) {errprint(CONF_MALLOC_ERR,NULL);  return 3;}
@@ -698,7 +698,7 @@ int load_configuration(char* path, dserve_conf_p conf) {
       free(buf);
       rewind(fp);
       bufsize=bufsize*2;
-      if (bufsize>MAX_CONF_BUF_SIZE) {errprint(CONF_SIZE_ERR,path); free(buf); return 4;}
+      if (bufsize>MAX_CONF_BUF_SIZE) {errprint(CONF_SIZE_ERR,path); return 4;}
     } else {
       // reading successful
       break;
@@ -707,6 +707,7 @@ int load_configuration(char* path, dserve_conf_p conf) {
   // parse configuration file
   bp=buf;
   bend=buf+n;
+  *bend='\0'; // n is less than the size of buf
   key=NULL;
   for(row=0;;row++) {
     // parse row by row
-- 
2.43.0


From 8225a7e9d9953db56242c824e25f7f7529a7631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:42 +0000
Subject: [PATCH 114/116] fix: dserve answers a csv search without results with
 an empty text

---
 Server/dserve_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index b5b2e0c..b2e938f 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -619,6 +619,7 @@ char* str_new(int len) {
   res = (char*) malloc(len*sizeof(char));
   if (res==NULL) return NULL;  
   else {
+    res[0]='\0';
     res[len-1]='\0';  
     return res;
   }
-- 
2.43.0


From 4197c0aa4be8a37c7b66388dfee0ca413dc1af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:33 +0000
Subject: [PATCH 115/116] fix: checksum of a dump matches the data written
 while others wait for the lock

---
 Db/dbdump.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index ee5b90d..73098a7 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -30,6 +30,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #ifdef _WIN32
 #define WIN32_LEAN_AND_MEAN
@@ -57,6 +58,8 @@ extern "C" {
 #include "dbdump.h"
 #include "crc1.h"
 
+#define DUMP_CHUNK 8192
+
 /* ======= Private protos ================ */
 
 
@@ -91,7 +94,9 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
 #endif
   gint err = -1;
   gint lock_id = 0;
+  gint pos, len;
   gint32 crc;
+  char buf[DUMP_CHUNK];
 
 #ifdef CHECK
   if(dbh->extdbs.count != 0) {
@@ -140,11 +145,19 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   /* The size may have changed while waiting for the lock */
   dbsize = dbh->free; /* first unused offset - 0 = db size */
 
-  /* Compute the CRC32 of the used area */
-  crc = update_crc32(dbmemsegbytes(db), dbsize, 0x0);
-
-  /* Now, write the memory area to file */
-  if(fwrite(dbmemseg(db), dbsize, 1, f) == 1) {
+  /* Now, write the used area to file and compute its CRC32. The lock
+   * queue inside the area may change while we hold the lock, so the
+   * checksum has to be computed from the data that is written.
+   */
+  crc = 0;
+  for(pos=0; pos<dbsize; pos+=len) {
+    len = (dbsize - pos < DUMP_CHUNK ? dbsize - pos : DUMP_CHUNK);
+    memcpy(buf, dbmemsegbytes(db) + pos, len);
+    crc = update_crc32(buf, len, crc);
+    if(fwrite(buf, len, 1, f) != 1)
+      break;
+  }
+  if(pos >= dbsize) {
     /* Overwrite checksum field */
     if(!fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET) && \
       fwrite(&crc, sizeof(gint32), 1, f) == 1) {
-- 
2.43.0


From 534bd503d576523dab95aad301609247a49755b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:19 +0000
Subject: [PATCH 116/116] fix: CSV import reports values that do not fit into
 the database

---
 Db/dbutil.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index d161489..748ac30 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -933,8 +933,10 @@ static gint fread_csv(void *db, FILE *f) {
        * storage for the new data. */
       enc = wg_parse_and_encode(db, strbuf);
       if(enc == WG_ILLEGAL) {
-        show_io_error_str(db, "Warning: failed to parse", strbuf);
-        enc = 0; /* continue anyway */
+        /* Any text has a value, so there was no space to store it. */
+        err = -2;
+        show_io_error_str(db, "Failed to store", strbuf);
+        break;
       }
       encdata[reclen++] = enc;
     }
-- 
2.43.0

