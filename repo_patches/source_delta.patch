From 31dc96d8da44d3b85d706e7d50b93f7f8d64a1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 01/40] fix: deleting a table used its entries after they were
 freed

db_entry_handle_softdelete already removes the file of the entry and frees
the entry when it has no users. The number of keys was not reduced either.
---
 src/core/db.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 3a01b23..4942507 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1222,8 +1222,10 @@ void db_table_handle_delete(db_table* table, khiter_t k) {
 		if (kh_exist(table->cache_hash_set, ke)) {
 			cache_entry* ce = kh_val(table->cache_hash_set, ke);
 			if (!ce->deleted) {
+				//Also removes the file of the entry, and frees the entry if nobody is using it
 				db_entry_handle_softdelete(ce, ke);
-				db_entry_cleanup(ce);
+				assert(db.db_keys != 0);
+				db.db_keys--;
 			}
 		}
 	}
-- 
2.43.0


From 35951063b114a706e110f276b8742be2c92aa1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 02/40] fix: tables were leaked, or freed while in use, when
 their last key went away

A deleted table stays usable (and empty) for the connections that have it
open, every one of them gives back its reference, a table without entries
and users is always freed, and freeing a deleted table does not remove
another table that was created under the same name in the meantime.
---
 src/core/db.cpp               | 59 +++++++++++++++++++++--------------
 src/core/http_parse_cache.cpp |  8 ++---
 2 files changed, 38 insertions(+), 29 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 4942507..c522387 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -259,24 +259,27 @@ void db_entry_actually_delete(cache_entry* entry) {
 void db_table_actually_delete(db_table* entry) {
 	DEBUG("[#] Cleaning up table due to refcount == 0\n");
 
-	//Remove table from database
+	//Remove table from database (a deleted table already is, and there may be a new one of the same name)
 	khiter_t k = kh_get(table, db.tables, entry->hash);
-	if (k != kh_end(db.tables)) {
+	if (k != kh_end(db.tables) && kh_value(db.tables, k) == entry) {
 		kh_del(table, db.tables, k);
 	}
 
+	//Free keys hash table
+	kh_destroy(entry, entry->cache_hash_set);
+
 	//Free key
 	free(entry->key);
 	free(entry);
 }
 
-static void db_table_deref(db_table* entry, bool actually_delete = false) {
+static void db_table_deref(db_table* entry) {
 	DEBUG("[#] Decrementing table refcount - was: %d\n", entry->refs);
 	assert(entry->refs > 0);
 	entry->refs--;
 	 
-	//Actually clean up the entry
-	if (entry->refs == 0 && (actually_delete || entry->deleted)) {
+	//Actually clean up the table, there are no entries and no users left
+	if (entry->refs == 0) {
 		//Remove table from hash set
 		db_table_actually_delete(entry);
 	}
@@ -291,15 +294,16 @@ void db_entry_deref(cache_entry* entry, bool table) {
 	DEBUG("[#] Decrementing entry refcount - was: %d\n", entry->refs);
 	entry->refs--;
 
-	//Deref the table
-	if (table && entry->table) {
-		db_table_deref(entry->table);
-	}
-
 	//Actually clean up the entry
+	db_table* entry_table = entry->table;
 	if (entry->refs == 0 && entry->deleted) {
 		db_entry_actually_delete(entry);
 	}
+
+	//Deref the table
+	if (table) {
+		db_table_deref(entry_table);
+	}
 }
 
 void db_entry_incref(cache_entry* entry, bool table = true) {
@@ -641,7 +645,7 @@ static bool db_load_from_save(){
 					continue;
 				}
 				if(table != NULL){
-					db_table_deref(table, true);
+					db_table_deref(table);
 					table = NULL;
 				}
 				table = db_table_get_write(strdup(buffer2), strlen(buffer2));
@@ -694,7 +698,7 @@ static bool db_load_from_save(){
 	}
 
 	if(table != NULL){
-		db_table_deref(table, true);
+		db_table_deref(table);
 		table = NULL;
 	}
 
@@ -1065,12 +1069,19 @@ cache_entry* db_entry_get_write(struct db_table* table, char* key, size_t length
 	//Must be checked before softdelete removes an entry being replaced
 	bool is_first_in_table = kh_size(table->cache_hash_set) == 0;
 
+	//The table was deleted since it has been opened, so this key is deleted too
+	if (table->deleted) {
+		free(key);
+		return NULL;
+	}
+
 	//This is a re-used entry
 	if (entry != NULL)
 	{
 		assert(entry->hash == hash);
 		//If we are currently writing, then it will be mocked
 		if (entry->writing == true) {
+			free(key);
 			return NULL;
 		}
 
@@ -1197,18 +1208,18 @@ bool db_entry_handle_delete(cache_entry* entry) {
 	return db_entry_handle_delete(entry, k);
 }
 
-void db_delete_table_entry(db_table* table, khiter_t k, bool actually_delete = true) {
-	// Clear key hash table
-	kh_destroy(entry, table->cache_hash_set);
+void db_delete_table_entry(db_table* table, khiter_t k, bool had_entries) {
+	// Clear key hash table, which stays usable for connections still having the table open
+	kh_clear(entry, table->cache_hash_set);
 
-	// If not fully de-refed remove now, not later
-	if (table->refs != 0) {
-		assert(k != kh_end(db.tables));
-		kh_del(table, db.tables, k);
-	}
+	// Remove now, not when fully de-refed
+	assert(k != kh_end(db.tables) && kh_value(db.tables, k) == table);
+	kh_del(table, db.tables, k);
 
-	//Remove reference holding table open
-	db_table_deref(table, actually_delete);
+	//Remove reference holding table open (taken by the first entry)
+	if (had_entries) {
+		db_table_deref(table);
+	}
 }
 
 
@@ -1216,6 +1227,7 @@ void db_table_handle_delete(db_table* table, khiter_t k) {
 	//Set deleted
 	assert(!table->deleted);
 	table->deleted = true;
+	bool had_entries = kh_size(table->cache_hash_set) != 0;
 
 	//Delete keys from table
 	for (khiter_t ke = kh_begin(table->cache_hash_set); ke != kh_end(table->cache_hash_set); ++ke) {
@@ -1230,7 +1242,7 @@ void db_table_handle_delete(db_table* table, khiter_t k) {
 		}
 	}
 	
-	db_delete_table_entry(table, k);
+	db_delete_table_entry(table, k, had_entries);
 }
 
 
@@ -1272,7 +1284,6 @@ bool db_entry_handle_delete(cache_entry* entry, khiter_t k) {
 		k = kh_get(table, db.tables, entry->table->hash);
 		assert (k != kh_end(db.tables));
 		db_delete_table_entry(entry->table, k, true);
-		entry->table = NULL;
 		return true;
 	}
 	return false;
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 2edf4be..2dccc7d 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -402,7 +402,8 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 				
 			}
 			if (REQUEST_IS(connection->method, REQUEST_HTTPDELETE)) {
-				if (!connection->cache.target.table.table) {
+				//Not found, or deleted by another connection since it was found
+				if (!connection->cache.target.table.table || connection->cache.target.table.table->deleted) {
 					return http_write_response(connection, HTTPTEMPLATE_FULL404);
 				}
 				db_table_handle_delete(connection->cache.target.table.table);
@@ -546,10 +547,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 				rbuf_copyn(&connection->input, key, length);
 				cache_entry* entry = db_entry_get_delete(connection->cache.target.table.table, key, length);
 				if (entry != NULL) {
-					if (db_entry_handle_delete(entry))
-					{
-						connection->cache.target.table.table = NULL;
-					}
+					db_entry_handle_delete(entry);
 					db_entry_deref(entry, false);
 				}
 			}
-- 
2.43.0


From 0d6e6e8936febd8363faa57fe6277371c9cb2a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 03/40] fix: two overlapping deletes of one key corrupted the
 database

The second one deleted an entry that already was deleted.
---
 src/core/http_parse_cache.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 2dccc7d..89331df 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -376,6 +376,10 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 						return res ? registered_write : close_connection;
 					}
 					if (REQUEST_IS(connection->method, REQUEST_HTTPDELETE)) {
+						//Deleted or replaced by another connection since it was found
+						if (connection->cache.target.key.entry->deleted) {
+							return http_write_response(connection, HTTPTEMPLATE_FULL404);
+						}
 						db_entry_handle_delete(connection->cache.target.key.entry);
 
 						return http_write_response(connection, HTTPTEMPLATE_FULLHTTP200DELETED);
-- 
2.43.0


From 53812702054bec8df1a81158dde7b0572f81b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 04/40] fix: the byte after the url was consumed as well

The leading slash had been consumed before. When the request was received
only up to the end of the url the read position moved past the write position.
The rest of the request line of table requests is now skipped in the same way
as that of key requests, it was parsed as a header.
---
 src/core/http_parse_cache.cpp | 12 ++++++------
 src/core/http_parse_mon.cpp   |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 89331df..ab763e5 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -247,7 +247,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 					//Stats Command
 					DEBUG("[#%d] Request stats\n", connection->client_sock);
 					free(key);
-					RBUF_READMOVE(connection->input, n + 1);
+					RBUF_READMOVE(connection->input, n);
 					return http_stats_after_eol(connection);
 				}
 
@@ -257,10 +257,10 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 				connection->cache.target.table.table = db_table_get_read(key, n - 1);
 				connection->cache.target.table.start = 0;
 				connection->cache.target.table.limit = DEFAULT_LISTING_LIMIT;
-				RBUF_READMOVE(connection->input, n + 1);
+				RBUF_READMOVE(connection->input, n);
 
-				//Else request for table/key
-				CONNECTION_HANDLER(connection, http_cache_handle_headers);
+				//Then the rest of the request line
+				CONNECTION_HANDLER(connection, http_cache_handle_httpversion);
 				connection->state = 0;
 				return needs_more_read;
 			} 
@@ -269,7 +269,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 				DEBUG("[#%d] Request admin url: \"%s\" (%d)\n", connection->client_sock, key, n);
 				if(n == 3 && strncmp(key, "gc", n	) == 0){
 					free(key);
-					RBUF_READMOVE(connection->input, n + 1);
+					RBUF_READMOVE(connection->input, n);
 					
 					//GC
 					db_lru_gc();
@@ -278,7 +278,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 			}
 			
 			free(key);
-			RBUF_READMOVE(connection->input, n + 1);
+			RBUF_READMOVE(connection->input, n);
 			return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 		}
 	}
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 759300f..3276ad9 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -221,7 +221,7 @@ static inline state_action http_mon_read_requeststarturl(scache_connection* conn
 		char* key = (char*)malloc(sizeof(char) * (n + 1));
 		rbuf_copyn(&connection->input, key, n - 1);
 		key[n - 1] = 0;//Null terminate the key
-		RBUF_READMOVE(connection->input, n + 1);
+		RBUF_READMOVE(connection->input, n);
 
 		if(n == 1){ // URL: "/"
 			free(key);
-- 
2.43.0


From e25309ba72d3cc8b680e68e6e647a291c047a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 05/40] fix: statistics were sent before the end of the request

The rest of the request was then answered like another one.
---
 src/core/http_parse_cache.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index ab763e5..3d30168 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -28,7 +28,7 @@
 extern int epfd;
 
 static state_action http_stats_after_eol(scache_connection* connection) {
-	connection->state = 0;
+	connection->state = 2;
 	CONNECTION_HANDLER(connection,  http_cache_handle_eolstats);
 	return needs_more_read;
 }
-- 
2.43.0


From 30e2883aaebb88eea1bad095a1cbee30d4ef7107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 06/40] fix: error answers announced a close that did not
 happen

The rest of the broken request (its remaining headers, or the body of an
upload) was taken for further requests. The answer to a request with a key
and a method that has none was sent at once, and its key was leaked; the
monitoring port answered unknown paths within the request line.
---
 src/core/http_parse.cpp       |  9 +++++++++
 src/core/http_parse.h         |  1 +
 src/core/http_parse_cache.cpp | 35 ++++++++++++++++++++++-------------
 src/core/http_parse_mon.cpp   |  7 ++++---
 src/core/http_respond.h       |  1 +
 5 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/core/http_parse.cpp b/src/core/http_parse.cpp
index c86f097..3435a44 100644
--- a/src/core/http_parse.cpp
+++ b/src/core/http_parse.cpp
@@ -112,6 +112,15 @@ state_action http_handle_eolwritetoend(scache_connection* connection) {
 	return ret;
 }
 
+//For responses announcing that the connection is closed
+state_action http_handle_eolwritetoclose(scache_connection* connection) {
+	state_action ret = http_handle_eolwritetoend(connection);
+	if (ret == registered_write) {
+		CONNECTION_HANDLER(connection, http_respond_close_connection);
+	}
+	return ret;
+}
+
 state_action http_discard_input(scache_connection* connection) {
 	//todo discard from readbuffer
 	connection_register_read(connection);
diff --git a/src/core/http_parse.h b/src/core/http_parse.h
index 62147df..a1ebd8b 100644
--- a/src/core/http_parse.h
+++ b/src/core/http_parse.h
@@ -3,6 +3,7 @@
 /* HTTP methods safe for either */
 state_action http_read_eoltoend(scache_connection* connection, char* buffer, int n, uint32_t& temporary);
 state_action http_handle_eolwritetoend(scache_connection* connection);
+state_action http_handle_eolwritetoclose(scache_connection* connection);
 state_action http_discard_input(scache_connection* connection);
 
 /* Cache Only */
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 3d30168..373df91 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -34,7 +34,8 @@ static state_action http_stats_after_eol(scache_connection* connection) {
 }
 
 static state_action http_write_response_after_eol(scache_connection* connection, int http_template) {
-	CONNECTION_HANDLER(connection, http_handle_eolwritetoend);
+	//All of these announce that the connection is closed
+	CONNECTION_HANDLER(connection, http_handle_eolwritetoclose);
 	connection->output_buffer = http_templates[http_template];
 	connection->output_length = http_templates_length[http_template];
 	connection->state = 1;
@@ -50,6 +51,13 @@ static state_action http_write_response(scache_connection* connection, int http_
 	return res?registered_write:close_connection;
 }
 
+//For responses announcing that the connection is closed
+static state_action http_write_response_close(scache_connection* connection, int http_template) {
+	state_action ret = http_write_response(connection, http_template);
+	CONNECTION_HANDLER(connection, http_respond_close_connection);
+	return ret;
+}
+
 static state_action http_headers_response_after_eol(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection,  http_handle_eolwritetoend);
 	connection->output_buffer = http_templates[http_template];
@@ -58,7 +66,7 @@ static state_action http_headers_response_after_eol(scache_connection* connectio
 	return needs_more_read;
 }
 
-static bool http_key_lookup(scache_connection* connection, int n) {
+static state_action http_key_lookup(scache_connection* connection, int n) {
 	//Key request
 	//Copy the key from the buffer
 	char* key = (char*)malloc(sizeof(char)* (n + 1));
@@ -90,6 +98,7 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 	else
 	{
 		DEBUG("[#%d] Has request key but is not GET, HEAD, PUT or DELETE (binary: %x)\n", connection->client_sock, connection->method);
+		free(key);
 		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 	}
 
@@ -115,7 +124,7 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 		connection->cache.target.key.fd = -1;
 	}
 
-	return true;
+	return needs_more_read;
 }
 
 static inline state_action http_read_requeststartmethod(scache_connection* connection, char* buffer, int n) {
@@ -289,11 +298,11 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 static state_action http_read_requeststarturl2(scache_connection* connection, char* buffer, int n)
 {
 	if (*buffer == ' ') {
-		bool temporary = http_key_lookup(connection, n);
-		RBUF_READMOVE(connection->input, n + 1);
 		connection->state = 0;
+		state_action ret = http_key_lookup(connection, n);
+		RBUF_READMOVE(connection->input, n + 1);
 
-		return temporary ? needs_more_read : registered_write;
+		return ret;
 	}
 
 	return continue_processing;
@@ -359,7 +368,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 				if (REQUEST_IS(connection->method, REQUEST_HTTPPUT)) {
 					if (connection->cache.target.key.entry != NULL && connection->cache.target.key.entry->data_length == 0) {
 						DEBUG("[#%d] No valid content-length provided for PUT request\n", connection->client_sock);
-						return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDCONTENTLENGTH);
+						return http_write_response_close(connection, HTTPTEMPLATE_FULLINVALIDCONTENTLENGTH);
 					}
 
 					CONNECTION_HANDLER(connection,  http_cache_handle_request_body);
@@ -420,7 +429,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 				return http_write_response(connection, HTTPTEMPLATE_BULK_OK);
 			}
 
-			return http_write_response(connection, HTTPTEMPLATE_FULLUNKNOWNREQUEST);
+			return http_write_response_close(connection, HTTPTEMPLATE_FULLUNKNOWNREQUEST);
 		}
 
 		// Needs more data
@@ -457,7 +466,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 
 					//This is an INVALID request
 					RBUF_READMOVE(connection->input, length + temporary);
-					return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
+					return http_write_response_close(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 				}
 
 				//Else: We are writing, initalize fd now
@@ -491,7 +500,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 
 						//This is an INVALID request
 						RBUF_READMOVE(connection->input, length + temporary);
-						return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
+						return http_write_response_close(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 					}
 
 					//Else: We are writing, initalize fd now
@@ -513,7 +522,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 
 					//This is an INVALID request
 					RBUF_READMOVE(connection->input, length + temporary);
-					return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
+					return http_write_response_close(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 				}
 
 				//Else: We are writing, initalize fd now
@@ -533,7 +542,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 
 					//This is an INVALID request
 					RBUF_READMOVE(connection->input, length + temporary);
-					return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
+					return http_write_response_close(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 				}
 
 				//Else: We are writing, initalize fd now
@@ -666,7 +675,7 @@ state_action http_cache_handle_headers(scache_connection* connection) {
 
 	//make sure we dont 100% fill up
 	if (connection->handler == http_cache_handle_headers && rbuf_write_remaining(&connection->input) == 0) {
-		return http_write_response(connection, HTTPTEMPLATE_FULLREQUESTTOOLARGE);
+		return http_write_response_close(connection, HTTPTEMPLATE_FULLREQUESTTOOLARGE);
 	}
 	return ret;
 }
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 3276ad9..23c9080 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -60,10 +60,11 @@ static void enable_keepalive(int sock) {
 
 
 static state_action http_write_response_after_eol(scache_connection* connection, int http_template) {
-	CONNECTION_HANDLER(connection, http_handle_eolwritetoend);
+	//All of these announce that the connection is closed
+	CONNECTION_HANDLER(connection, http_handle_eolwritetoclose);
 	connection->output_buffer = http_templates[http_template];
 	connection->output_length = http_templates_length[http_template];
-	connection->state = 0;
+	connection->state = 1;
 	return needs_more_read;
 }
 
@@ -239,7 +240,7 @@ static inline state_action http_mon_read_requeststarturl(scache_connection* conn
 
 		DEBUG("[#%d] HTTP 404 Not Found for URL \"%s\" of length %d\n", connection->client_sock, key, n);
 		free(key);
-		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULL404_PATHNOTFOUND);
+		return http_headers_response_after_eol(connection, HTTPTEMPLATE_FULL404_PATHNOTFOUND);
 	}
 
 	return continue_processing;
diff --git a/src/core/http_respond.h b/src/core/http_respond.h
index 2896247..b38e0f6 100644
--- a/src/core/http_respond.h
+++ b/src/core/http_respond.h
@@ -7,6 +7,7 @@ state_action http_respond_responseend(scache_connection* connection);
 state_action http_respond_contentbody(scache_connection* connection);
 state_action http_respond_writeonly(scache_connection* connection);
 state_action http_respond_cleanupafterwrite(scache_connection* connection) ;
+state_action http_respond_close_connection(scache_connection* connection);
 state_action http_respond_listing(scache_connection* connection);
 state_action http_respond_listingentries(scache_connection* connection);
 state_action http_respond_stats(scache_connection* connection);
\ No newline at end of file
-- 
2.43.0


From a9afe7b382a4cc253126a6ccaeae1e34a8d3c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 07/40] fix: requests in the receive buffer were not answered
 before more data arrived

Pipelined requests were only handled when the next read got further bytes and
the buffer was not full, and dropped when the client had shut down its sending
side. A client that shut it down right after sending a large upload was
disconnected before all of it had been read.
---
 src/core/connection.cpp   |  6 +-----
 src/core/http.cpp         | 25 ++++++++++++++++---------
 src/core/http_respond.cpp |  5 +++--
 3 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index b4442a5..5a60804 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -645,12 +645,8 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 					}
 
 					if(!do_close && (events[n].events & EPOLLRDHUP)){
+						//What the client has sent before is still to be handled, reading it ends with the close
 						connection->epollrdhup = true;
-						if(connection->epollin){
-							do_close = true;
-						}else{
-							assert(connection->epollout);
-						}
 					}
 
 					if (do_close) {
diff --git a/src/core/http.cpp b/src/core/http.cpp
index d50115a..9d3464d 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -50,30 +50,32 @@ state_action http_read_handle(scache_connection* connection) {
 	}
 
 	//Read from socket
+	bool eof = false;
 	num = rbuf_write_to_end(&connection->input);
 	if (num > 0) {
 		num = read(fd, RBUF_WRITE(connection->input), num);
 		if (num == 0) {
-			return close_connection;
+			//No more will follow, but there may be requests in the buffer
+			eof = true;
 		}
-		if (num < 0) {
+		else if (num < 0) {
 			num = errno;
-			if (num != EAGAIN && num != EWOULDBLOCK) {
+			if (num != EAGAIN && num != EWOULDBLOCK && num != EINTR) {
 				DEBUG("[#%d] A socket error occured while reading: %d\n", fd, num);
 				return close_connection;
 			}
 
+			//Continue with what has been read before
 			DEBUG("[#%d] Needs more bytes, got errno %d\n", fd, num);
-			return needs_more_read;
 		}
-		
-		DEBUG("[#%d] Reading %d bytes from socket (write pos: %d, read pos: %d)\n", fd, num, connection->input.write_position, connection->input.read_position);
+		else {
+			DEBUG("[#%d] Reading %d bytes from socket (write pos: %d, read pos: %d)\n", fd, num, connection->input.write_position, connection->input.read_position);
 
-
-		RBUF_WRITEMOVE(connection->input, (uint16_t)num);
+			RBUF_WRITEMOVE(connection->input, (uint16_t)num);
+		}
 	}
 
-	state_action run;
+	state_action run = needs_more_read;
 	int to_end = -1, to_end_old;
 	do {
 		if(!connection->epollin) break;
@@ -82,6 +84,11 @@ state_action http_read_handle(scache_connection* connection) {
 		to_end = rbuf_read_remaining(&connection->input);
 	} while (run == needs_more_read && to_end != 0 && to_end != to_end_old);
 
+	//Nothing left to answer
+	if (eof && run != registered_write) {
+		return close_connection;
+	}
+
 	//Handle buffer is full, not being processed
 	if (run != registered_write && run != close_connection && run != close_connection && num == 0 && rbuf_write_remaining(&connection->input) == 0) {
 		WARN("Buffer overflowed while handling %s which returned %s (epollin=%d), will disconnect", connection->handler_name, state_action_string[run], connection->epollin);
diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index bd99f9b..3bc8c4e 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -63,8 +63,9 @@ bool http_register_read(scache_connection* connection) {
 
 	bool res = connection_register_read(connection);
 
-	if (!connection_stop_soon() && rbuf_write_remaining(&connection->input)) {
-		http_read_handle(connection);
+	//There may already be another request in the buffer
+	if (res && !connection_stop_soon()) {
+		res = http_read_handle(connection) != close_connection;
 	}
 
 	return res;
-- 
2.43.0


From 4fe9646c8e81e481918de15a317a949b8304457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 08/40] fix: uploads stalled or went wrong when a write failed
 or the buffer wrapped

A failed write moved the positions back by one, and a failed seek answered
in the middle of the body, which was then taken for requests. Body data at
the start of the circular buffer was only written when more data arrived.
---
 src/core/http_parse_cache.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 373df91..0489dfa 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -698,9 +698,13 @@ state_action http_cache_handle_request_body(scache_connection* connection) {
 			// Write data
 			if(lseek64(connection->cache.target.key.fd, connection->cache.target.key.position, SEEK_SET) == -1) {
 				PWARN("[#%d] Failed to seek for PUT", connection->client_sock);
-				return http_write_response(connection, HTTPTEMPLATE_FULL404);				
+				return close_connection;
 			}
 			int read_bytes = write(connection->cache.target.key.fd, RBUF_READ(connection->input), to_write);
+			if (read_bytes <= 0) {
+				PWARN("[#%d] Failed to write for PUT", connection->client_sock);
+				return close_connection;
+			}
 
 			//Handle the bytes written
 			DEBUG("[#%d] %d bytes to fd %d at position %u\n", connection->client_sock, read_bytes, connection->cache.target.key.fd, connection->cache.target.key.position);
@@ -731,7 +735,8 @@ state_action http_cache_handle_request_body(scache_connection* connection) {
 		return http_write_response(connection, HTTPTEMPLATE_FULL200OK);
 	}
 
-	return continue_processing;
+	//There may be more, at the start of the buffer
+	return needs_more_read;
 }
 
 void cache_destroy(scache_connection* connection){
-- 
2.43.0


From 27ad55f75e40dc8db57faeca0b3badf6d9d0a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 09/40] fix: a short write repeated the beginning of the output

The rest was sent from the start of the buffer again, and a full socket
buffer closed the connection.
---
 src/core/http.cpp         | 5 ++++-
 src/core/http_respond.cpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 9d3464d..8c023d7 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -117,9 +117,12 @@ state_action http_write_handle(scache_connection* connection) {
 		//Send data
 		int num = write(connection->client_sock, connection->output_buffer, connection->output_length);
 		if (num < 0) {
-			//TODO: handle error
+			if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR) {
+				return continue_processing;
+			}
 			return close_connection;
 		}
+		connection->output_buffer += num;
 		connection->output_length -= num;
 
 		//Check if done
diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index 3bc8c4e..9390cd0 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -141,7 +141,7 @@ state_action http_respond_contentbody(scache_connection* connection) {
 			DEBUG("[#%d] EOF Reached\r\n", fd);
 			return close_connection;
 		}else if (bytes_sent == -1) {
-			if (errno == EINTR || errno == EWOULDBLOCK) {
+			if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK) {
 				return continue_processing;
 			}
 			PWARN("Error sending bytes with sendfile. Closing connection.");
-- 
2.43.0


From 0b1146cad25129e3ea6e55203ec32fbfef25eaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 10/40] fix: output not yet sent was leaked when its connection
 was closed

---
 src/core/connection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index 5a60804..00f7716 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -304,6 +304,7 @@ bool connection_remove(scache_connection* conn) {
 		WARN("connection not found");
 	}
 
+	free(conn->output_buffer_free);
 	free(conn);
 	close_socket(fd);
 
@@ -713,6 +714,7 @@ void connection_cleanup_http(scache_connection* connection) {
 	}
 
 	connection->epollout = connection->epollin = false;
+	free(connection->output_buffer_free);
 
 	//Free up the connection if dynamically allocated
 	free(connection);
-- 
2.43.0


From b2fddc9df5cdef69ca29e420b5eebd8129d98097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 11/40] fix: read buffer functions failed on wrapped, full or
 unusual contents

A full buffer not starting at offset zero was taken to be contiguous, numbers
crossing the end of the storage were read beyond their last digit, numbers
too large for an int overflowed, and a zero byte ended comparisons.
---
 src/core/http_parse_cache.cpp |  4 +--
 src/core/read_buffer.cpp      | 52 ++++++++++++++++-------------------
 src/core/read_buffer.h        | 10 +++++--
 3 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 0489dfa..f3e75fa 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -312,7 +312,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 	if (*buffer == ':') {
 		int bytes = buffer - RBUF_READ(connection->input);
 		if (bytes < 0) {
-			bytes = rbuf_read_to_end(&connection->input) + (buffer - RBUF_START(connection->input));
+			bytes = rbuf_read_contiguous(&connection->input) + (buffer - RBUF_START(connection->input));
 		}
 		DEBUG("[#%d] Found header of length %d\n", connection->client_sock, bytes);
 
@@ -682,7 +682,7 @@ state_action http_cache_handle_headers(scache_connection* connection) {
 
 state_action http_cache_handle_request_body(scache_connection* connection) {
 	DEBUG("[#%d] Handling STATE_REQUESTBODY\n", connection->client_sock);
-	int max_write = rbuf_read_to_end(&connection->input);
+	int max_write = rbuf_read_contiguous(&connection->input);
 	assert(max_write >= 0);
 	int to_write = connection->cache.target.key.end_position - connection->cache.target.key.position;
 	assert(to_write >= 0);
diff --git a/src/core/read_buffer.cpp b/src/core/read_buffer.cpp
index b381b1e..11886f2 100644
--- a/src/core/read_buffer.cpp
+++ b/src/core/read_buffer.cpp
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <limits.h>
 #include <string.h>
 #include "read_buffer.h"
 #include "debug.h"
@@ -13,7 +14,7 @@ int rbuf_copyn(struct read_buffer* buffer, char* dest, int n) {
 	assert(dest != NULL);
 	rbuf_debug_check(buffer);
 	assert(n <= BUFFER_SIZE);
-	int to_end = rbuf_read_to_end(buffer);
+	int to_end = rbuf_read_contiguous(buffer);
 
 	if (n == 0) {
 		//No bytes to be read
@@ -72,13 +73,13 @@ int rbuf_cmpn(struct read_buffer* buffer, const char* with, int n) {
 	}
 
 	//Read the maximum we can / want
-	to_end = rbuf_read_to_end(buffer);
+	to_end = rbuf_read_contiguous(buffer);
 	if (n < to_end) {
 		to_end = n;
 	}
 
 	//Copy this ammount
-	int result = strncmp(with, RBUF_READPTR(buffer), to_end);
+	int result = memcmp(with, RBUF_READPTR(buffer), to_end);
 	n -= to_end;
 
 	//Do we need more?
@@ -87,7 +88,7 @@ int rbuf_cmpn(struct read_buffer* buffer, const char* with, int n) {
 		return result;
 	}
 
-	return strncmp(with + to_end, RBUF_STARTPTR(buffer), n);
+	return memcmp(with + to_end, RBUF_STARTPTR(buffer), n);
 
 	//Shouldnt happen
 	return result;
@@ -97,44 +98,32 @@ bool rbuf_strntol(struct read_buffer* buffer, int* output, int max)
 {
 	rbuf_debug_check(buffer);
 	int result = 0;
-	int n = rbuf_read_to_end(buffer);
+	int n = rbuf_read_remaining(buffer);
+	int to_end = rbuf_read_contiguous(buffer);
 	if (max != -1 && max < n) {
 		n = max;
-		max -= n;
 	}
 
 	char* buf = RBUF_READPTR(buffer);
 
-	//Handle forward
-	while (n--)
+	for (int i = 0; i < n; i++)
 	{
-		result *= 10;
+		//Roll over
+		if (i == to_end) {
+			buf = RBUF_STARTPTR(buffer);
+		}
+
 		int number = (*buf++) - '0';
 
 		if (number > 9 || number < 0) {
 			DEBUG("Expected number got char %c\n", (unsigned char)(*(buf - 1)));
 			return false;
 		}
-		result += number;
-	}
-
-	if (max != 0) {
-		//How many after roll over?
-		n = rbuf_read_remaining(buffer) - n;
-		buf = RBUF_STARTPTR(buffer);
-
-		//Handle rollover
-		while (n--)
-		{
-			result *= 10;
-			int n = (*buf++) - '0';
-
-			if (n > 9 || n < 0) {
-				DEBUG("Expected number got char %c\n", (unsigned char)(*(buf - 1)));
-				return false;
-			}
-			result += n;
+		if (result > (INT_MAX - number) / 10) {
+			DEBUG("Number is too large\n");
+			return false;
 		}
+		result = result * 10 + number;
 	}
 
 	*output = result;
@@ -159,12 +148,17 @@ int rbuf_read_to_end(struct read_buffer* buffer) {
 
 	uint16_t to_end = (buffer->read_position & (BUFFER_SIZE - 1));
 	if (to_end <= (buffer->write_position & (BUFFER_SIZE - 1))) {
-		return buffer->write_position - buffer->read_position;
+		return RBUF_READLENPTR(buffer);
 	}
 	else{
 		return BUFFER_SIZE - to_end;
 	}
 }
+int rbuf_read_contiguous(struct read_buffer* buffer) {
+	int remaining = rbuf_read_remaining(buffer);
+	int to_end = BUFFER_SIZE - (buffer->read_position & (BUFFER_SIZE - 1));
+	return remaining < to_end ? remaining : to_end;
+}
 int rbuf_write_remaining(struct read_buffer* buffer) {
 	rbuf_debug_check(buffer);
 	return RBUF_WRITELENPTR(buffer);
diff --git a/src/core/read_buffer.h b/src/core/read_buffer.h
index bf9e09c..399281a 100644
--- a/src/core/read_buffer.h
+++ b/src/core/read_buffer.h
@@ -47,10 +47,16 @@ int rbuf_read_remaining(struct read_buffer* buffer);
 
 /*
 Get the number of contiguous bytes remaining to be read
-until the end (highest index)
+until the end (highest index), all bytes of a full buffer
 */
 int rbuf_read_to_end(struct read_buffer* buffer);
 
+/*
+Get the number of bytes that can be read at RBUF_READ
+without continuing at RBUF_START
+*/
+int rbuf_read_contiguous(struct read_buffer* buffer);
+
 /*
 Get the number of bytes that can be written until maximum
 capacity.
@@ -132,7 +138,7 @@ Move the write offset
 Helper to Iterate over circular buffer
 */
 #define RBUF_ITERATE(rb,n,buffer,end,ret,inner) do { \
-	end = rbuf_read_to_end(&rb); \
+	end = rbuf_read_contiguous(&rb); \
 	n = 0; \
 	if (end != 0) { \
 		buffer = RBUF_READ(rb); \
-- 
2.43.0


From d41e2afb4d8bbedabd56a80dbc60797a7c00d816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 12/40] fix: skipping newlines read beyond the end of the
 buffer storage

It did not continue at the start of the circular buffer.
---
 src/core/http_parse.cpp | 29 +++--------------------------
 1 file changed, 3 insertions(+), 26 deletions(-)

diff --git a/src/core/http_parse.cpp b/src/core/http_parse.cpp
index 3435a44..cbeed9e 100644
--- a/src/core/http_parse.cpp
+++ b/src/core/http_parse.cpp
@@ -27,31 +27,9 @@
 
 
 void skip_over_newlines(struct read_buffer* rb) {
-	char* buffer;
-	int end = rbuf_read_to_end(rb);
-
-	//Nothing to skip
-	if (end == 0) {
-		return;
-	}
-
-	//Iterate over buffer until the end of the buffer
-	buffer = RBUF_READPTR(rb);
-	for (int i = 0; i < end; i++) {
-		if (*buffer != '\r' && *buffer != '\n') {
-			return;
-		}
-#ifdef DEBUG_BUILD
-		rbuf_debug_read_check(rb, 1);
-#endif
-		rb->read_position++;
-		rbuf_debug_check(rb);
-		buffer++;
-	}
-
-	//Go over anything from the start
-	end = rbuf_read_remaining(rb) - end;
-	for (int i = 0; i < end; i++) {
+	//Iterate over buffer until there is something else
+	for (int n = rbuf_read_remaining(rb); n > 0; n--) {
+		char* buffer = RBUF_READPTR(rb);
 		if (*buffer != '\r' && *buffer != '\n') {
 			return;
 		}
@@ -60,7 +38,6 @@ void skip_over_newlines(struct read_buffer* rb) {
 #endif
 		rb->read_position++;
 		rbuf_debug_check(rb);
-		buffer++;
 	}
 }
 
-- 
2.43.0


From b9d13844c073bc01baf1d07fe58d7a7a9cbaab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 13/40] fix: header values were read wrongly depending on how
 they arrived

Spaces within a value moved the read position away from what was being
parsed, the length of a value crossing the end of the circular buffer was
wrong, and two bytes were consumed for a line end of which only the first
one may have been received.
---
 src/core/http_parse_cache.cpp | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index f3e75fa..e58cc99 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -442,20 +442,8 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 }
 
 static state_action http_read_header_extraction(scache_connection* connection, char* buffer, int n) {
-	int temporary = 0;
-	if (*buffer == ' ' && !temporary) {
-		RBUF_READMOVE(connection->input, 1);
-	}
-	else if (*buffer == '\n' || *buffer == '\r') {
-		//We are going to have to skip another char if \r\n
-		if (*buffer == '\r') {
-			temporary = 2;
-		}
-		else{
-			temporary = 1;
-		}
-
-		int length = buffer - RBUF_READ(connection->input);
+	if (*buffer == '\n' || *buffer == '\r') {
+		int length = n;
 
 		switch (connection->state) {
 		case HEADER_CONTENTLENGTH:
@@ -465,7 +453,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 					WARN("Invalid Content-Length value provided");
 
 					//This is an INVALID request
-					RBUF_READMOVE(connection->input, length + temporary);
+					RBUF_READMOVE(connection->input, length + 1);
 					return http_write_response_close(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 				}
 
@@ -499,7 +487,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 						WARN("Invalid X-Ttl value provided");
 
 						//This is an INVALID request
-						RBUF_READMOVE(connection->input, length + temporary);
+						RBUF_READMOVE(connection->input, length + 1);
 						return http_write_response_close(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 					}
 
@@ -521,7 +509,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 					WARN("Invalid X-Limit value provided");
 
 					//This is an INVALID request
-					RBUF_READMOVE(connection->input, length + temporary);
+					RBUF_READMOVE(connection->input, length + 1);
 					return http_write_response_close(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 				}
 
@@ -541,7 +529,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 					WARN("Invalid X-Start value provided");
 
 					//This is an INVALID request
-					RBUF_READMOVE(connection->input, length + temporary);
+					RBUF_READMOVE(connection->input, length + 1);
 					return http_write_response_close(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 				}
 
@@ -568,9 +556,10 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 		}
 
 
-		connection->state = 1;
+		//The \n of \r\n has not necessarily been received yet, it counts as line end when it is
+		connection->state = *buffer == '\n' ? 1 : 0;
 		CONNECTION_HANDLER(connection,  http_cache_handle_headers);
-		RBUF_READMOVE(connection->input, length + temporary);
+		RBUF_READMOVE(connection->input, length + 1);
 		return needs_more_read;
 	}
 	
@@ -661,6 +650,12 @@ state_action http_cache_handle_headers_extract(scache_connection* connection) {
 	int end, n;
 	state_action ret = continue_processing;
 	DEBUG("[#%d] Handling HTTP Header extraction\n", connection->client_sock);
+
+	//Skip spaces before the value
+	while (rbuf_cmpn(&connection->input, " ", 1) == 0) {
+		RBUF_READMOVE(connection->input, 1);
+	}
+
 	RBUF_ITERATE(connection->input, n, buffer, end, ret, http_read_header_extraction(connection, buffer, n));
 	return ret;
 }
-- 
2.43.0


From fc1367b2ead8b9e54e770df979e0915e884a1850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 14/40] fix: uploads without a place to store the body wrote to
 the wrong one

When the key was deleted before the Content-Length header, storage was taken
for it that nothing ever gave back; a second Content-Length header did the
same. Uploads that are not stored used positions left over from another
request, and when no file could be created the body was written nowhere and
the file of another entry could be removed.
---
 src/core/db.cpp               | 20 +++++++++++++++++---
 src/core/db.h                 |  2 +-
 src/core/http_parse_cache.cpp | 23 ++++++++++++++++++++---
 3 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index c522387..60dd17d 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -803,9 +803,12 @@ int db_entry_open_create(struct cache_entry* e) {
 		if(fd >= 0) {
 			return fd;
 		}
+		if(errno != EEXIST) {
+			break;
+		}
 		// This will rollover -- and that's expected
 		// it ensures safety after saving
-		e->it++;
+		e->it = nextit++;
 	}
 	
 	return -1;
@@ -1289,7 +1292,7 @@ bool db_entry_handle_delete(cache_entry* entry, khiter_t k) {
 	return false;
 }
 
-void db_target_write_allocate(struct cache_target* target, uint32_t data_length) {
+bool db_target_write_allocate(struct cache_target* target, uint32_t data_length) {
 	cache_entry* entry = target->entry;
 	DEBUG("[#] Allocating space for entry, block is currently: %d and is single file: %s (was: %s)\n", entry->block, (data_length > BLOCK_LENGTH) ? "yes" : "no", (entry->block == -2?-1:(IS_SINGLE_FILE(entry)))? "yes":"no");
 	if (entry->block == -2) {
@@ -1337,7 +1340,16 @@ void db_target_write_allocate(struct cache_target* target, uint32_t data_length)
 	
 	entry->data_length = data_length;
 
-	db_target_open(target, true);
+	if (IS_SINGLE_FILE(entry) || entry->block >= 0) {
+		db_target_open(target, true);
+	}
+
+	if (target->fd < 0) {
+		//Nothing was allocated, and there is no file to be removed
+		db.db_size_bytes -= data_length;
+		entry->data_length = 0;
+		return false;
+	}
 
 	if (IS_SINGLE_FILE(entry)) {
 		//Lengthen file to required size
@@ -1345,6 +1357,8 @@ void db_target_write_allocate(struct cache_target* target, uint32_t data_length)
 			PWARN("File truncation failed (fd: %d, length: %d)", target->fd, data_length);
 		}
 	}
+
+	return true;
 }
 
 static void db_close_table_key_space() {
diff --git a/src/core/db.h b/src/core/db.h
index c0e12e4..8a570fb 100644
--- a/src/core/db.h
+++ b/src/core/db.h
@@ -67,7 +67,7 @@ struct cache_entry* db_entry_get_write(struct db_table* table, char* key, size_t
 struct cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t length);
 
 /* Prepare for write */
-void db_target_write_allocate(struct cache_target* target, uint32_t data_length);
+bool db_target_write_allocate(struct cache_target* target, uint32_t data_length);
 void db_complete_writing(cache_entry* entry);
 
 /* Delete an entry (request) */
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index e58cc99..3ee19d6 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -114,6 +114,8 @@ static state_action http_key_lookup(scache_connection* connection, int n) {
 	assert(!REQUEST_IS(connection->method, REQUEST_CACHE_LEVELTABLE));
 	CONNECTION_HANDLER(connection,  http_cache_handle_httpversion);
 
+	connection->cache.target.key.position = 0;
+	connection->cache.target.key.end_position = 0;
 	if (entry) {
 		connection->cache.target.key.entry = entry;
 		db_target_setup(&connection->cache.target.key, entry, REQUEST_IS(connection->method, REQUEST_HTTPPUT));
@@ -366,7 +368,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 			// Router: Entry / Key level
 			if (REQUEST_IS(connection->method, REQUEST_CACHE_LEVELKEY)) {
 				if (REQUEST_IS(connection->method, REQUEST_HTTPPUT)) {
-					if (connection->cache.target.key.entry != NULL && connection->cache.target.key.entry->data_length == 0) {
+					if (connection->cache.target.key.end_position == 0) {
 						DEBUG("[#%d] No valid content-length provided for PUT request\n", connection->client_sock);
 						return http_write_response_close(connection, HTTPTEMPLATE_FULLINVALIDCONTENTLENGTH);
 					}
@@ -457,11 +459,26 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 					return http_write_response_close(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 				}
 
+				//Only one is possible
+				if (connection->cache.target.key.end_position != 0) {
+					RBUF_READMOVE(connection->input, length + 1);
+					return http_write_response_close(connection, HTTPTEMPLATE_FULLINVALIDCONTENTLENGTH);
+				}
+
+				//Deleted by another connection since the start of the request, nothing to store any more
+				if (connection->cache.target.key.entry != NULL && connection->cache.target.key.entry->deleted) {
+					connection->is_writing = false;
+					connection->cache.target.key.entry->writing = false;
+					db_target_entry_close(&connection->cache.target.key);
+				}
+
 				//Else: We are writing, initalize fd now
 				DEBUG("[#%d] Content-Length of %d found\n", connection->client_sock, content_length);
 
-				if (connection->cache.target.key.entry != NULL) {
-					db_target_write_allocate(&connection->cache.target.key, content_length);
+				if (connection->cache.target.key.entry != NULL && content_length != 0) {
+					if (!db_target_write_allocate(&connection->cache.target.key, content_length)) {
+						return close_connection;
+					}
 
 					if (IS_SINGLE_FILE(connection->cache.target.key.entry)) {
 						connection->cache.target.key.end_position = connection->cache.target.key.entry->data_length;
-- 
2.43.0


From 13d8efea62cbbbedc316828001d68e4e8893a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 15/40] fix: table listings crashed, lost keys, or listed keys
 that are not there

Paging headers could make it read outside of the buckets, the last line end
was missing when paging ended, keys still being uploaded or expired were
listed, and a key deleted while it was being sent was used after it was freed.
---
 src/core/http_respond.cpp | 70 +++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index 9390cd0..0a76856 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -205,46 +205,38 @@ state_action http_respond_close_connection(scache_connection* connection) {
 	return close_connection;
 }
 
+//Is this a bucket with an entry to be listed
+static bool listing_exists(db_table* table, khiter_t k) {
+	if (!kh_exist(table->cache_hash_set, k)) {
+		return false;
+	}
+
+	cache_entry* entry = kh_val(table->cache_hash_set, k);
+	return !entry->writing && (entry->expires == 0 || entry->expires >= current_time.tv_sec);
+}
+
 state_action http_respond_listing(scache_connection* connection) {
 	DEBUG("[#%d] Sending listing response\n", connection->client_sock);
+	db_table* table = connection->cache.target.table.table;
+	uint32_t start = connection->cache.target.table.start;
 
-	if (connection->cache.target.table.start > kh_end(connection->cache.target.table.table->cache_hash_set)) {
-		connection->cache.target.table.start = kh_end(connection->cache.target.table.table->cache_hash_set);
-		connection->cache.target.table.limit = 0;
-	}else if ((connection->cache.target.table.limit + connection->cache.target.table.start) > kh_end(connection->cache.target.table.table->cache_hash_set)) {
-		connection->cache.target.table.limit = kh_end(connection->cache.target.table.table->cache_hash_set) - (connection->cache.target.table.start + 1);
+	//The number of buckets may have changed since the last entry
+	khiter_t buckets = kh_n_buckets(table->cache_hash_set);
+	if (start > buckets) {
+		start = buckets;
+	}
+	if (connection->cache.target.table.limit > buckets - start) {
+		connection->cache.target.table.limit = buckets - start;
 	}
 
-	if (connection->cache.target.table.limit > 0) {
-		cache_entry* entry = NULL;
-		int i = connection->cache.target.table.limit + connection->cache.target.table.start;
-		while (!kh_exist(connection->cache.target.table.table->cache_hash_set, i)) {
-			if (connection->cache.target.table.limit == 0) {
-				return close_connection;
-			}
-			connection->cache.target.table.limit--;
-			i--;
-		}
-		entry = kh_val(connection->cache.target.table.table->cache_hash_set, i);
-
-		bool cleanup = false;
-		if (connection->cache.target.table.limit) {
-			connection->cache.target.table.limit--;
-		}
-		else{
-			cleanup = true;
-		}
-
-		if (entry != NULL) {
-			//Returns the number of chars put into the buffer
-			connection->output_buffer = entry->key;
-			connection->output_length = entry->key_length;
+	while (connection->cache.target.table.limit > 0) {
+		connection->cache.target.table.limit--;
+		khiter_t i = start + connection->cache.target.table.limit;
+		if (listing_exists(table, i)) {
+			//The entry may be deleted before all of its key has been sent
+			cache_entry* entry = kh_val(table->cache_hash_set, i);
+			copy_to_outputbuffer(connection, entry->key, entry->key_length);
 			CONNECTION_HANDLER(connection,  http_respond_listing_separator);
-
-			if (cleanup) {
-				CONNECTION_HANDLER(connection,  http_respond_close_connection);
-			}
-
 			return continue_processing;
 		}
 	}
@@ -272,8 +264,16 @@ state_action http_respond_listingentries(scache_connection* connection) {
 
 	if (REQUEST_IS(connection->method, REQUEST_GETTABLE)) {
 		DEBUG("[#%d] Responding with X-Entries\n", connection->client_sock);
+		db_table* table = connection->cache.target.table.table;
+		int entries = 0;
+		for (khiter_t k = kh_begin(table->cache_hash_set); k != kh_end(table->cache_hash_set); ++k) {
+			if (listing_exists(table, k)) {
+				entries++;
+			}
+		}
+
 		//Returns the number of chars put into the buffer
-		int temp = snprintf(header, sizeof(header), "X-Entries: %d\r\n", kh_size(connection->cache.target.table.table->cache_hash_set));
+		int temp = snprintf(header, sizeof(header), "X-Entries: %d\r\n", entries);
 
 		copy_to_outputbuffer(connection, header, temp);
 	}
-- 
2.43.0


From 2ecd721d27ba8f12af36bcedab75869f7dec67e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 16/40] fix: disconnecting a slow monitoring client closed a
 stranger's descriptor

Its socket was closed twice, the second time possibly after the number had
been given to another connection. Other events of the same batch could still
point to the freed connection.
---
 src/core/connection.cpp     | 9 +++++++--
 src/core/http_parse_mon.cpp | 7 +------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index 00f7716..0f3bad1 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -544,6 +544,7 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 		} while(nfds == 0 && !stop_soon);
 
 		// handle evfds first
+		bool run_monitoring = false;
 		for (int n = 0; n < nfds; n++) {
 			assert(events[n].data.ptr);
 			scache_connection* lc = (scache_connection*)events[n].data.ptr;
@@ -613,9 +614,9 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 					connection_handler(connection);
 				}
 			} else if (lc == &monitoring_connection) {
-				// send out monitoring messages
+				// send out monitoring messages, after the events as this can remove connections
 				res = read(fd, &u, sizeof(u));
-				monitoring_check();
+				run_monitoring = true;
 			}
 		}
 
@@ -682,6 +683,10 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 					
 			}
 		}
+
+		if (run_monitoring) {
+			monitoring_check();
+		}
 	}
 
 	close_fd(epfd, "epoll socket");
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 23c9080..59cacc2 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -457,7 +457,6 @@ bool monitoing_needs_to_run(){
 
 void monitoring_check(){
 	scache_connection* conn;
-	int fd;
 	timeval current_time_copy = *(timeval*)&current_time;
 
 	// Every 5ms we will work down any nodes in mon_head that need to be notified
@@ -475,11 +474,9 @@ void monitoring_check(){
 
 		// If buffer wasnt cleared already, then we will need to disconnect
 		if(conn->output_buffer != NULL){
-			fd = conn->client_sock;
-			DEBUG("Failed to output buffer to monitoring connection, will close fd %d\n", fd);
+			DEBUG("Failed to output buffer to monitoring connection, will close fd %d\n", conn->client_sock);
 			http_cleanup(conn);
 			connection_remove(conn);
-			close_socket(fd);
 			continue;
 		}
 
@@ -514,10 +511,8 @@ void monitoring_check(){
 		conn = mon_pending_tail;
 		if(timercmp(&conn->monitoring.scheduled, &current_time_copy, >)) break;
 
-		fd = conn->client_sock;		
 		http_cleanup(conn);
 		connection_remove(conn);
-		close_socket(fd);
 
 		assert(conn != mon_pending_tail);
 	}
-- 
2.43.0


From a61a14c4122a9f63b46d7919b4e39aa33b14872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 17/40] fix: input of monitoring clients was kept until the
 buffer was full

Then the client was disconnected.
---
 src/core/http_parse.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/http_parse.cpp b/src/core/http_parse.cpp
index cbeed9e..f777dee 100644
--- a/src/core/http_parse.cpp
+++ b/src/core/http_parse.cpp
@@ -99,8 +99,7 @@ state_action http_handle_eolwritetoclose(scache_connection* connection) {
 }
 
 state_action http_discard_input(scache_connection* connection) {
-	//todo discard from readbuffer
+	connection->input.read_position = connection->input.write_position;
 	connection_register_read(connection);
-	rbuf_read_to_end(&connection->input);
 	return continue_processing;
 }
\ No newline at end of file
-- 
2.43.0


From 8f5cad067fe4b6555344a001b81d34d2bcd17c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 18/40] fix: values restored from a save were mixed up, lost or
 never given back

Free blocks are derived from the blocks in use instead of trusting the list,
restored entries no longer hold a reference nobody gives back, file numbers
continue after those of the save, names of any length and content are
restored, and the block file has to be there before its entries are.
---
 src/core/db.cpp | 212 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 137 insertions(+), 75 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 60dd17d..a3b3cb9 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -39,9 +39,7 @@ LRU
 #include "signal_handle.h"
 #include "connection.h"
 
-#ifdef DEBUG_BUILD
 #include <set>
-#endif
 
 #define DEC2ALPH(x) ('A' + (x)%26)
 
@@ -338,7 +336,7 @@ void db_lru_cleanup_percent(int* bytes_to_remove) {
 	DEBUG("[#] LRU attempted to remove %d bytes, %d bytes remaining\n", debug_bytes, *bytes_to_remove);
 }
 
-static void force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
+static bool force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
 	char buffer[8096];
 	//TODO: reflink
 	/*int ret = link(fileThatExists, fileThatDoesNotExist);
@@ -348,7 +346,7 @@ static void force_link(const char* fileThatExists, const char* fileThatDoesNotEx
 		//Really bad! Temporary.
 		snprintf(buffer, sizeof(buffer), "cp %s %s", fileThatExists, fileThatDoesNotExist);
 		printf("Executing %s\n", buffer);
-		system(buffer);
+		return system(buffer) == 0;
 	//}
 }
 
@@ -567,18 +565,76 @@ static void db_load_from_save_insert(db_table* table, cache_entry* entry){
 	}
 	assert(table->refs >= 2 || (table->refs >= 1 && table->deleted)); //If not, it wouldnt be storing
 
-	//Store entry
+	//Store entry, nobody is using it yet
 	int ret;
 	k = kh_put(entry, table->cache_hash_set, entry->hash, &ret);
 	kh_value(table->cache_hash_set, k) = entry;
 
-	//Refs
-	db_entry_incref(entry, false);
-
 	assert(!entry->deleted);
 	db.db_size_bytes += entry->data_length;
 }
 
+//Can the entry be loaded: is its data there, and only its own
+static bool db_load_from_save_valid(db_table* table, cache_entry* entry, char type, std::set<int32_t>& blocks_used){
+	char path[MAX_PATH];
+	struct stat st;
+
+	if(kh_get(entry, table->cache_hash_set, entry->hash) != kh_end(table->cache_hash_set)) {
+		DEBUG("skipping as entry exists already\n");
+		return false;
+	}
+
+	if(IS_SINGLE_FILE(entry) != (type == 'e')) {
+		DEBUG("skipping as length does not match type\n");
+		return false;
+	}
+
+	if(type == 'e'){
+		// Test file existance
+		get_key_path(entry, path);
+
+		if(stat(path, &st) == -1 || st.st_size != entry->data_length) {
+			DEBUG("skipping as file %s does not exist\n", path);
+			return false;
+		}
+	}else{
+		// Test size of blockfile
+		if(entry->block < 0 || (uint32_t)entry->block >= db.blocks_exist){
+			DEBUG("skipping as block %d does not exist\n", entry->block);
+			return false;
+		}
+
+		// A block can only belong to one entry
+		if(!blocks_used.insert(entry->block).second){
+			DEBUG("skipping as block %d is used\n", entry->block);
+			return false;
+		}
+	}
+
+	return true;
+}
+
+//Undo db_index_write_name, the length of the name is returned
+static int db_load_from_save_name(char* name, int length){
+	int out = 0;
+	for(int i = 0; i < length; i++){
+		if(name[i] == '\\' && i + 1 < length && (name[i + 1] == '\\' || name[i + 1] == 'n')){
+			i++;
+			name[out++] = name[i] == 'n' ? '\n' : '\\';
+		}else{
+			name[out++] = name[i];
+		}
+	}
+	return out;
+}
+
+static char* db_load_from_save_copy(const char* name, int length){
+	char* ret = (char*)malloc(length + 1);
+	memcpy(ret, name, length);
+	ret[length] = 0;
+	return ret;
+}
+
 static cache_entry* db_load_from_save_entry(db_table* table, char* key, uint16_t length, int32_t block, uint32_t data_length, time_t expires, uint16_t it){
 	assert(table->refs >= 1); //If not, it wouldnt be existing
 
@@ -596,16 +652,17 @@ static cache_entry* db_load_from_save_entry(db_table* table, char* key, uint16_t
 	return entry;
 }
 
-static bool db_load_from_save(){
-	char buffer[MAX_PATH], buffer2[2048];
+static bool db_load_from_save(std::set<int32_t>& blocks_used){
+	char buffer[MAX_PATH];
 	char *bp = NULL;
-	bool ret = false;
 	size_t len = 0;
-	uint32_t u1, u2, u3, u4;
+	uint32_t data_length, it;
+	long expires;
 	db_table* table = NULL;
 	cache_entry* entry;
-	int d1;
+	int block, name_start, name_length;
 	ssize_t read;
+	struct stat st;
 
 	snprintf(buffer, sizeof(buffer), "%s/index.save", db.path_root);
 	int fd = open(buffer, O_RDONLY | O_LARGEFILE, S_IRUSR | S_IWUSR);
@@ -613,43 +670,41 @@ static bool db_load_from_save(){
 		return false; //it's ok
 	}
 
+	// move over block file (via link to preserve save)
 	snprintf(buffer, sizeof(buffer), "%s/blockfile.db.save", db.path_root);
-	db.fd_blockfile = open(buffer, O_RDWR | O_LARGEFILE , S_IRUSR | S_IWUSR);
-	if(db.fd_blockfile == -1){
-		PWARN("Unable to open saved block file");
-		close_fd(fd, "file descriptor");
-		return ret;
+	unlink(db.path_blockfile);
+	if(!force_link(buffer, db.path_blockfile) || stat(db.path_blockfile, &st) == -1){
+		PWARN("Unable to restore saved block file");
+		close_fd(fd, "file descriptor (cache file)");
+		return false;
 	}
-	off64_t size = lseek64(db.fd_blockfile, 0L, SEEK_END);
-	db.blocks_exist = (uint32_t)(size / BLOCK_LENGTH);
+	db.blocks_exist = (uint32_t)(st.st_size / BLOCK_LENGTH);
 
 	FILE* fp = fdopen(fd, "r");
 	if(fp == NULL){
 		PWARN("Unable to get fd for fh");
-		goto close_fd2;
+		close_fd(fd, "file descriptor (cache file)");
+		return false;
 	}
 
 	while ((read = getline(&bp, &len, fp)) != -1) {
-        if(read <= 2 || bp[1] != ':') continue;
+		if(read <= 2 || bp[1] != ':') continue;
+		if(bp[read - 1] != '\n') {
+			WARN("Incomplete line\n");
+			continue;
+		}
+		bp[--read] = 0;
+
 		switch(bp[0]){
 			case 'f':
-				if(sscanf(bp, "f:%u", &u1) != 1){
-					WARN("Free block parsing error\n");
-					continue;
-				}
-				db_block_free(u1);
+				//The free blocks are those that no entry uses
 			break;
 			case 't':
-				if(sscanf(bp, "t:%s", buffer2) != 1){
-					WARN("Table parsing error\n");
-					continue;
-				}
 				if(table != NULL){
 					db_table_deref(table);
-					table = NULL;
 				}
-				table = db_table_get_write(strdup(buffer2), strlen(buffer2));
-				entry = NULL;
+				name_length = db_load_from_save_name(bp + 2, read - 2);
+				table = db_table_get_write(db_load_from_save_copy(bp + 2, name_length), name_length);
 				break;
 			case 'b':
 			case 'e':
@@ -657,30 +712,24 @@ static bool db_load_from_save(){
 					WARN("File entry must be after table\n");
 					continue;
 				}
-				if(sscanf(bp+1, ":%d:%u:%u:%u:%s", &d1, &u2, &u3, &u4, buffer2) != 5){
+				name_start = 0;
+				if(sscanf(bp+1, ":%d:%u:%ld:%u:%n", &block, &data_length, &expires, &it, &name_start) != 4 || name_start == 0){
 					WARN("Entry parsing error\n");
 					continue;
 				}
-			
-				//>block, ce->data_length, ce->expires, ce->it
-				entry = db_load_from_save_entry(table, strdup(buffer2), strlen(buffer2), d1, u2, u3, u4);
-
-				if(d1 < 0){
-					// Test file existance
-					get_key_path(entry, buffer);
-					
-					if( access( buffer, F_OK ) == -1 ) {
-						DEBUG("skipping as file %s does not exist\n", buffer);
-						free(entry);
-						continue;
-					}
-				}else{
-					// Test size of blockfile
-					if(d1 >= db.blocks_exist){
-						DEBUG("skipping as block %d does not exist\n", d1);
-						free(entry);
-						continue;
-					}
+				name_start++;
+				name_length = db_load_from_save_name(bp + name_start, read - name_start);
+
+				//Names of files that may still be referred to by the save are not to be used again
+				if(nextit <= it){
+					nextit = it + 1;
+				}
+
+				entry = db_load_from_save_entry(table, db_load_from_save_copy(bp + name_start, name_length), name_length, block, data_length, expires, it);
+				if(!db_load_from_save_valid(table, entry, bp[0], blocks_used)){
+					free(entry->key);
+					free(entry);
+					continue;
 				}
 
 				db_load_from_save_insert(table, entry);
@@ -691,7 +740,7 @@ static bool db_load_from_save(){
 				printf("Unknown line type %c\n", bp[0]);
 		}
 
-    }
+	}
 
 	if(bp != NULL){
 		free(bp);
@@ -702,27 +751,13 @@ static bool db_load_from_save(){
 		table = NULL;
 	}
 
-	// move over block file (via link to preserve save)
-	snprintf(buffer, sizeof(buffer), "%s/blockfile.db.save", db.path_root);
-	unlink(db.path_blockfile);
-	force_link(buffer, db.path_blockfile);
-
-	ret = true;
-close_fd:
 	fclose(fp);
-close_fd2:
-	if(fp == NULL) close_fd(fd, "file desriptor (cache file)");
-
-	fd = db.fd_blockfile;
-	db.fd_blockfile = -1;
-	close_fd(fd, "file descriptor (blockfile)");
-
-	
-	return ret;
+	return true;
 }
 
 bool db_open(const char* path) {
 	bool will_black = false;
+	std::set<int32_t> blocks_used;
 
 	//Create paths as char*'s
 	snprintf(db.path_root, SHORT_PATH, "%s/", path);
@@ -738,7 +773,7 @@ bool db_open(const char* path) {
 	//Load from index if available
 	snprintf(db.path_blockfile, SHORT_PATH, "%s/blockfile.db", path);
 	
-	if(!db_load_from_save()){
+	if(!db_load_from_save(blocks_used)){
 		PWARN("Unable to load index from disk, will blank database");
 		will_black = true;
 	}
@@ -782,6 +817,14 @@ bool db_open(const char* path) {
 		}
 		db.blocks_free = db.blocks_exist;
 	}
+	else{
+		// Every block without an entry is free (freeing the last block may remove it)
+		for (int32_t i = 0; i < (int32_t)db.blocks_exist; i++) {
+			if (blocks_used.find(i) == blocks_used.end()) {
+				db_block_free(i);
+			}
+		}
+	}
 
 	return true;
 }
@@ -1413,6 +1456,25 @@ static bool full_write(int fd, const char* buffer, int buffer_length){
 	return true;
 }
 
+//Names can contain any character, and one line is written for each
+static bool db_index_write_name(int fd, const char* name, int length){
+	char buffer[2048];
+	int used = 0;
+	for(int i = 0; i < length; i++){
+		if(used + 2 > (int)sizeof(buffer)){
+			if(!full_write(fd, buffer, used)) return false;
+			used = 0;
+		}
+		if(name[i] == '\\' || name[i] == '\n'){
+			buffer[used++] = '\\';
+			buffer[used++] = name[i] == '\n' ? 'n' : '\\';
+		}else{
+			buffer[used++] = name[i];
+		}
+	}
+	return used == 0 || full_write(fd, buffer, used);
+}
+
 static pid_t db_index_flush(bool copyOnWrite){
 	pid_t pid = 0;
 	char buffer[2048], buffer2[2048], buffer3[2048], buffer4[2048];
@@ -1464,7 +1526,7 @@ static pid_t db_index_flush(bool copyOnWrite){
 			table = kh_val(db.tables, ke);
 			if(table->deleted) continue;
 			if(!full_write(fd, "t:", 2)) goto close_fd;
-			if(!full_write(fd, table->key, table->key_length)) goto close_fd;
+			if(!db_index_write_name(fd, table->key, table->key_length)) goto close_fd;
 			if(!full_write(fd, "\n", 1)) goto close_fd;
 
 			//Iterate entries in table
@@ -1477,7 +1539,7 @@ static pid_t db_index_flush(bool copyOnWrite){
 					temp = snprintf(buffer, sizeof(buffer), "%c:%d:%u:%lu:%u:", ce->block >= 0 ? 'b':'e', ce->block, ce->data_length, ce->expires, ce->it);
 					assert(temp > 0);
 					if(!full_write(fd, buffer, temp)) goto close_fd;
-					if(!full_write(fd, ce->key, ce->key_length)) goto close_fd;
+					if(!db_index_write_name(fd, ce->key, ce->key_length)) goto close_fd;
 					if(!full_write(fd, "\n", 1)) goto close_fd;
 				}
 			}
-- 
2.43.0


From 7f5fb95d3d37d41e371ee9d83c3375add5573a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 19/40] fix: a failed or killed background save stopped all
 later ones or lost the save

Any end of the save process allows the next one, a block file that could not
be copied is not announced as a save, and the block file is in place before
the index that refers to it.
---
 src/core/db.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index a3b3cb9..7245c80 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -420,17 +420,14 @@ bool db_expire_cursor() {
 static bool currently_flushing(int flags){
 	if(current_flush == 0) return false;
 	int status, w;
-	w = waitpid(current_flush, &status, flags);
-	if (w) {
-		if (WIFEXITED(status)) {
-			current_flush = 0;
-			return false;
-		}
-	} else if(w == -1) {
-		current_flush = 0;
-		return false;
-	}
-	return true;
+	do {
+		w = waitpid(current_flush, &status, flags);
+	} while (w == -1 && errno == EINTR);
+
+	//It is running only if there is nothing to report
+	if (w == 0) return true;
+	current_flush = 0;
+	return false;
 }
 
 void db_handle_sigchld(pid_t pid){
@@ -1493,7 +1490,11 @@ static pid_t db_index_flush(bool copyOnWrite){
 	fdatasync(db.fd_blockfile);
 
 	// create a hard link from the currentl block file to ${blockfile}.temp
-	force_link(db.path_blockfile, buffer);
+	if(!force_link(db.path_blockfile, buffer)){
+		PWARN("Unable to flush index, unable to copy block file");
+		unlink(buffer);
+		return 0;
+	}
 
 	//If we are forking we can do so now
 	if(copyOnWrite){
@@ -1562,9 +1563,10 @@ static pid_t db_index_flush(bool copyOnWrite){
 	temp = snprintf(buffer4, sizeof(buffer4), "%s.save", db.path_blockfile);
 	assert(temp > 0);
 
-	// execute the renames of tmp files to actual
-	rename(buffer, buffer2);
-	rename(buffer3, buffer4);
+	// execute the renames of tmp files to actual, an index must never be found with a block file that is older
+	if(rename(buffer3, buffer4) == 0){
+		rename(buffer, buffer2);
+	}
 	unlink(buffer3);
 	unlink(buffer);
 
-- 
2.43.0


From 96ed3aa84d91d093f12402bffd6dbeb8aedd5c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 20/40] fix: signal handlers used the database, and changed
 errno under the server

SIGUSR1 collected garbage and forked in the middle of whatever was
interrupted, now the event loop does it. Handlers keep errno.
---
 src/core/connection.cpp    |  8 +++++++-
 src/core/signal_handle.cpp |  2 ++
 src/core/timer.cpp         | 19 ++++++++++++++++++-
 src/core/timer.h           |  6 +++++-
 4 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index 0f3bad1..8827a42 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -30,6 +30,7 @@
 #include "debug.h"
 #include "http.h"
 #include "settings.h"
+#include "timer.h"
 #ifdef DEBUG_BUILD
 /* For reference counting checks */
 #include "db.h"
@@ -541,7 +542,12 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 				}
 				PFATAL("epoll_wait() failed");
 			}
-		} while(nfds == 0 && !stop_soon);
+		} while(nfds == 0 && !stop_soon && !timer_flush_pending());
+
+		// requested by a signal
+		if (timer_flush_pending()) {
+			timer_flush();
+		}
 
 		// handle evfds first
 		bool run_monitoring = false;
diff --git a/src/core/signal_handle.cpp b/src/core/signal_handle.cpp
index ca98016..2662a78 100644
--- a/src/core/signal_handle.cpp
+++ b/src/core/signal_handle.cpp
@@ -11,8 +11,10 @@ static void abort_handler(int sig) {
 	if (stop_soon) {
 		FATAL("Force exit: A second signal (%s) received", strsignal(sig));
 	}
+	int saved_errno = errno;
 	WARN("Shutting down pid %d due to %s", getpid(), strsignal(sig));
 	stop_soon = 1;
+	errno = saved_errno;
 }
 
 void signal_handler_install() {
diff --git a/src/core/timer.cpp b/src/core/timer.cpp
index 5c833df..d22cbeb 100644
--- a/src/core/timer.cpp
+++ b/src/core/timer.cpp
@@ -13,6 +13,7 @@
 
 volatile struct timeval current_time;
 static int mon_fd;
+static volatile sig_atomic_t flush_requested = 0;
 
 static void timer_store_current_time()
 {
@@ -29,6 +30,7 @@ static void timer_store_current_time()
 static void timer_handler(int signum)
 {
 	uint64_t u = 1;
+	int saved_errno = errno;
 
 	// time accurate to the nearest 5ms
 	timer_store_current_time();
@@ -37,24 +39,39 @@ static void timer_handler(int signum)
 	if(monitoing_needs_to_run()){
 		write(mon_fd, &u, sizeof(u));
 	}	
+	errno = saved_errno;
 }
 
 static void child_handler(int signum)
 {
 	int wstat;
 	pid_t	pid;
+	int saved_errno = errno;
 
 	while (true) {
 		pid = waitpid (-1, &wstat, WNOHANG );
 		if (pid <= 0)
-			return;
+			break;
 			
 		db_handle_sigchld(pid);
 	}
+	errno = saved_errno;
 }
 
 static void flush_handler(int signum)
 {
+	// the database can be in use right now, the event loop does it
+	flush_requested = 1;
+}
+
+bool timer_flush_pending()
+{
+	return flush_requested != 0;
+}
+
+void timer_flush()
+{
+	flush_requested = 0;
 	db_lru_gc();
 }
 
diff --git a/src/core/timer.h b/src/core/timer.h
index 4f720d5..872de4a 100644
--- a/src/core/timer.h
+++ b/src/core/timer.h
@@ -1,4 +1,8 @@
 volatile extern struct timeval current_time;
 
 void timer_setup(int evfd);
-void timer_cleanup();
\ No newline at end of file
+void timer_cleanup();
+
+/* A background save has been requested by a signal, and is to be started */
+bool timer_flush_pending();
+void timer_flush();
\ No newline at end of file
-- 
2.43.0


From f9983c3065abcf7c76110b40411b40a98416a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 21/40] fix: names with equal hashes lost each other's data

Removing a table made colliding ones unreachable, an expired key was removed
by reading a colliding one, and names were compared up to a NUL only.
---
 src/core/db.cpp          | 65 ++++++++++++++++++++++++++--------------
 src/core/db_structures.h |  3 +-
 2 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 7245c80..8146ac3 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -254,13 +254,32 @@ void db_entry_actually_delete(cache_entry* entry) {
 	free(entry);
 }
 
+//Remove a table from the database, tables with colliding names remain reachable
+static void db_table_unlink(khiter_t k) {
+	khiter_t next_k;
+	uint32_t hole = kh_value(db.tables, k)->hash;
+
+	//Open addressing: move up the tables that are placed after the hole because of collisions
+	for (uint32_t next = hole + 1; (next_k = kh_get(table, db.tables, next)) != kh_end(db.tables); next++) {
+		db_table* table = kh_value(db.tables, next_k);
+		if ((uint32_t)(next - table->name_hash) >= (uint32_t)(next - hole)) {
+			kh_value(db.tables, k) = table;
+			table->hash = hole;
+			hole = next;
+			k = next_k;
+		}
+	}
+
+	kh_del(table, db.tables, k);
+}
+
 void db_table_actually_delete(db_table* entry) {
 	DEBUG("[#] Cleaning up table due to refcount == 0\n");
 
 	//Remove table from database (a deleted table already is, and there may be a new one of the same name)
 	khiter_t k = kh_get(table, db.tables, entry->hash);
 	if (k != kh_end(db.tables) && kh_value(db.tables, k) == entry) {
-		kh_del(table, db.tables, k);
+		db_table_unlink(k);
 	}
 
 	//Free keys hash table
@@ -528,7 +547,7 @@ static uint32_t hash_string(const char* str, int length) {
 }
 
 static void get_key_path(cache_entry* e, char* out) {
-	snprintf(out, MAX_PATH, "%s%c%c/%x%x_%d", db.path_single, DEC2ALPH(e->hash), DEC2ALPH(e->hash >> 8), e->table->hash, e->hash, e->it);
+	snprintf(out, MAX_PATH, "%s%c%c/%x%x_%d", db.path_single, DEC2ALPH(e->hash), DEC2ALPH(e->hash >> 8), e->table->name_hash, e->hash, e->it);
 }
 
 
@@ -925,29 +944,16 @@ cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length)
 	}
 	assert(entry->hash == hash);
 
-	if (entry->expires != 0) {
-		DEBUG("[#] Key has ttl: %lu (%d from now)\n", (unsigned long)entry->expires, (int)(entry->expires - current_time.tv_sec));
-	}
-
-	if (entry->expires != 0 && entry->expires < current_time.tv_sec) {
-		DEBUG("[#] Key expired\n");
-		free(key);
-		db_entry_incref(entry, false);
-		db_entry_handle_delete(entry);
-		db_entry_deref(entry, false);
-		return NULL;
-	}
-
 	assert(!entry->deleted);
 
-	if (entry->key_length != length || strncmp(key, entry->key, length) != 0) {
+	if (entry->key_length != length || memcmp(key, entry->key, length) != 0) {
 		DEBUG("[#] Unable to look up key: ");
 
 		if (entry->key_length != length) {
 			DEBUG("DB Key length does not match\n");
 		}
 		else{
-			if (strncmp(key, entry->key, length) != 0) {
+			if (memcmp(key, entry->key, length) != 0) {
 				DEBUG("String Keys dont match\n");
 			}
 		}
@@ -956,6 +962,19 @@ cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length)
 		return NULL;
 	}
 
+	if (entry->expires != 0) {
+		DEBUG("[#] Key has ttl: %lu (%d from now)\n", (unsigned long)entry->expires, (int)(entry->expires - current_time.tv_sec));
+	}
+
+	if (entry->expires != 0 && entry->expires < current_time.tv_sec) {
+		DEBUG("[#] Key expired\n");
+		free(key);
+		db_entry_incref(entry, false);
+		db_entry_handle_delete(entry);
+		db_entry_deref(entry, false);
+		return NULL;
+	}
+
 	//Free key text, not needed.
 	free(key);
 
@@ -1001,7 +1020,7 @@ struct db_table* db_table_get_read(char* name, int length) {
 		assert(table->hash == hash);
 		
 		//Check table key, cache key collision handling
-		while_condition = table->key_length != length || strncmp(table->key, name, length) != 0;
+		while_condition = table->key_length != length || memcmp(table->key, name, length) != 0;
 		if (while_condition)
 		{
 			hash++;
@@ -1024,6 +1043,7 @@ Returns NULL in case of cache collision
 */
 struct db_table* db_table_get_write(char* name, int length) {
 	uint32_t hash = hash_string(name, length);
+	uint32_t name_hash = hash;
 	khiter_t k;
 	db_table* table;
 	int ret;
@@ -1037,6 +1057,7 @@ struct db_table* db_table_get_write(char* name, int length) {
 		if (k == kh_end(db.tables)) {
 			table = (db_table*)malloc(sizeof(db_table));
 			table->hash = hash;
+			table->name_hash = name_hash;
 			table->key = name;
 			table->key_length = length;
 			table->refs = 1;
@@ -1053,7 +1074,7 @@ struct db_table* db_table_get_write(char* name, int length) {
 		assert(table->hash == hash);
 	
 		//Check table key, cache key collision handling
-		while_condition = table->key_length != length || strncmp(table->key, name, length) != 0;
+		while_condition = table->key_length != length || memcmp(table->key, name, length) != 0;
 		if (while_condition)
 		{
 			hash++;
@@ -1179,7 +1200,7 @@ cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t lengt
 	khiter_t k = kh_get(entry, table->cache_hash_set, hash);
 	cache_entry* entry = k == kh_end(table->cache_hash_set) ? NULL : kh_value(table->cache_hash_set, k);
 
-	if (entry == NULL || entry->key_length != length || strncmp(key, entry->key, length) != 0) {
+	if (entry == NULL || entry->key_length != length || memcmp(key, entry->key, length) != 0) {
 		DEBUG("[#] Unable to look up key: ");
 
 		if (entry == NULL) {
@@ -1190,7 +1211,7 @@ cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t lengt
 				DEBUG("DB Key length does not match\n");
 			}
 			else{
-				if (strncmp(key, entry->key, length)) {
+				if (memcmp(key, entry->key, length) != 0) {
 					DEBUG("String Keys dont match\n");
 				}
 			}
@@ -1257,7 +1278,7 @@ void db_delete_table_entry(db_table* table, khiter_t k, bool had_entries) {
 
 	// Remove now, not when fully de-refed
 	assert(k != kh_end(db.tables) && kh_value(db.tables, k) == table);
-	kh_del(table, db.tables, k);
+	db_table_unlink(k);
 
 	//Remove reference holding table open (taken by the first entry)
 	if (had_entries) {
diff --git a/src/core/db_structures.h b/src/core/db_structures.h
index df13efe..f32b23b 100644
--- a/src/core/db_structures.h
+++ b/src/core/db_structures.h
@@ -32,7 +32,8 @@ struct cache_entry
 KHASH_MAP_INIT_INT(entry, struct cache_entry*)
 
 struct db_table {
-	uint32_t hash;
+	uint32_t hash; // place in the tables hash, other than name_hash in case of a collision
+	uint32_t name_hash;
 	char* key;
 	uint16_t key_length;
 
-- 
2.43.0


From abf655f75a931a636bdad542a753dbf43f6b0298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 22/40] fix: bind lists with IPv6, unix sockets or mistakes
 opened other listeners

---
 src/core/settings.cpp | 125 ++++++++++++++++++++----------------------
 1 file changed, 60 insertions(+), 65 deletions(-)

diff --git a/src/core/settings.cpp b/src/core/settings.cpp
index 11263ed..0f13298 100644
--- a/src/core/settings.cpp
+++ b/src/core/settings.cpp
@@ -55,20 +55,39 @@ char* string_allocate(const char* s)
 	return c;
 }
 
-enum bind_parse_state
+//Parse a port, optionally followed by 't' (transparent), a pointer to what follows is returned
+static char* parse_bind_port(char* str, scache_bind* bind)
 {
-	first, ipv4, ipv6, unix_path, port
-};
+	int digits = 0;
+
+	bind->port = 0;
+	for (; str[digits] >= '0' && str[digits] <= '9' && bind->port <= 65535; digits++)
+	{
+		bind->port = bind->port * 10 + (str[digits] - '0');
+	}
+
+	if (digits == 0 || bind->port > 65535) {
+		FATAL("Error parsing bind port");
+	}
+
+	str += digits;
+	if (*str == 't')
+	{
+		bind->transparent = true;
+		str++;
+	}
+	return str;
+}
+
 static void parse_binds(const char* optarg_const, scache_binds* target)
 {
 	char* optarg = strdup(optarg_const);
-	int len = strlen(optarg);
-	bind_parse_state state = bind_parse_state::first;
-	int state_start = 0;
-	int num = 0;
-	for (int i = 0; i <= len; i++)
+	char* str = optarg;
+	char* end;
+	int num = 1;
+	for (int i = 0; optarg[i]; i++)
 	{
-		if (optarg[i] == ',' || optarg[i] == 0)
+		if (optarg[i] == ',')
 		{
 			num++;
 		}	
@@ -81,75 +100,51 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 	memset(current, 0, sizeof(scache_bind) * num);
 
 	// Parse the options string
-	for (int i = 0; i <= len; i++)
+	for (int i = 0; i < num; i++, current++)
 	{
-		char copy = optarg[i];
-		switch (state)
+		if (str[0] == 'u' && str[1] == ':')
 		{
-		case bind_parse_state::first:
-			if (optarg[i] == '[')
-			{
-				current->af = AF_INET6;
-				state = bind_parse_state::ipv6;
-				state_start++;
-				break;
+			str += 2;
+			end = str + strcspn(str, ",");
+
+			current->af = AF_UNIX;
+			if (end == str || end - str >= (int)sizeof(((struct sockaddr_un*)NULL)->sun_path)) {
+				FATAL("Error parsing bind path");
 			}
-			else if (optarg[i] == 'u' && optarg[i+1] == ':')
+			memcpy(current->addr, str, end - str);
+		}
+		else
+		{
+			//[ipv6]:port or ipv4:port
+			if (*str == '[')
 			{
-				current->af = AF_UNIX;
-				state = bind_parse_state::unix_path;
-				state_start+=2;
-				i++;
-				break;
+				str++;
+				end = strchr(str, ']');
+				current->af = AF_INET6;
 			}
 			else
 			{
+				end = strchr(str, ':');
 				current->af = AF_INET;
-				state = bind_parse_state::ipv4;
 			}
-		case bind_parse_state::ipv6:
-		case bind_parse_state::ipv4:
-			if (optarg[i] == ':')
-			{
-				optarg[i] = 0;
-				if (inet_pton(current->af, optarg + state_start, current->addr) < 0) {
-					PFATAL("Error parsing bind address");
-				}
-				state = bind_parse_state::port;
-				state_start = i + 1;
-			}
-			break;
-		case bind_parse_state::unix_path:
-			if (optarg[i] == 0 || optarg[i] == ',')
-			{
-				memcpy(current->addr, optarg + state_start, i - state_start);
-				current->port = 0;
-				if (optarg[i] == ',')
-				{
-					current++;
-					state = bind_parse_state::first;
-					state_start = i + 1;				
-				}
+
+			if (end == NULL) {
+				FATAL("Error parsing bind address");
 			}
-			break;
-		case bind_parse_state::port:
-			if(optarg[i] == 't'){
-				current->transparent = true;
+			*(end++) = 0;
+			if (current->af == AF_INET6 && *(end++) != ':') {
+				FATAL("Error parsing bind address");
 			}
-			else if (optarg[i] == 0 || optarg[i] == ',')
-			{
-				optarg[current->transparent ? (i - 1) : i] = 0;
-				current->port = atoi(optarg + state_start);
-				if (copy == ',')
-				{
-					current++;
-					state = bind_parse_state::first;
-					state_start = i + 1;				
-				}
+			if (inet_pton(current->af, str, current->addr) <= 0) {
+				FATAL("Error parsing bind address");
 			}
-			
-			break;
+			end = parse_bind_port(end, current);
+		}
+
+		if (*end != (i == num - 1 ? 0 : ',')) {
+			FATAL("Error parsing binds");
 		}
+		str = end + 1;
 	}
 		
 	free(optarg);
-- 
2.43.0


From 3570fdb7caddedf411ccbb207aec7fb0f607f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 23/40] fix: accept errors ended the server, skipped other
 connections or leaked

Running out of descriptors is waited out, the next event of a batch is not
skipped after an error, and connections that are not served are closed.
---
 src/core/connection.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index 8827a42..2d21822 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -381,13 +381,14 @@ static void* connection_handle_accept(void *arg)
 					{
 						if(errno == ENOTSOCK){
 							PFATAL("[#] accept() failed on fd %d of type %s", fd, connection_type_string(our_type));
-						} else if(errno == EMFILE){
-							PFATAL("[#] accept() too many open files on fd %d of type %s", fd, connection_type_string(our_type));
+						} else if(errno == EMFILE || errno == ENFILE){
+							// the connection stays queued, try again once other connections had time to end
+							WARN("[#] accept() too many open files on fd %d of type %s", fd, connection_type_string(our_type));
+							usleep(10000);
 						} else {
 							WARN("[#] accept() failed on fd %d of type %s. Error: %s", fd, connection_type_string(our_type), strerror(errno));
 						}
 					}
-					n++;
 					continue;
 				}
 				else {
@@ -401,7 +402,6 @@ static void* connection_handle_accept(void *arg)
 					
 					connections_queued* q = (connections_queued*)malloc(sizeof(connections_queued));
 					if(q == NULL){
-						n++;
 						WARN("[#%d] failed to allocate memory for connection. Abandoning incoming connection.", client_sock);
 						close_fd(client_sock, "socket");
 						continue;
@@ -430,7 +430,7 @@ static void* connection_handle_accept(void *arg)
 					do {
 						res = write(eventfd, &u, sizeof(u));
 						if(res == -1){
-							if(errno == -EAGAIN || errno == -EWOULDBLOCK){
+							if(errno == EAGAIN || errno == EWOULDBLOCK){
 								PWARN("backpressure on accept");
 								break;
 							}
@@ -610,7 +610,7 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 					res = epoll_ctl(epfd, EPOLL_CTL_ADD, client_sock, &ev);
 					if (res != 0) {
 						PWARN("[#%d] epoll_ctl() failed to add %d.", client_sock, errno);
-						close(client_sock);
+						connection_remove(connection);
 						continue;
 					}
 
@@ -748,6 +748,8 @@ void connection_cleanup() {
 	while(cq_head != NULL){
 		temp = (connections_queued*)cq_head;
 		cq_head = cq_head->next;
+		close_fd(temp->client_sock, "socket");
 		free(temp);
 	}
+	cq_tail = NULL;
 }
\ No newline at end of file
-- 
2.43.0


From 42aaebf782be4a7e55e449e1f9e39c8a0c36856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 24/40] fix: a block file beyond 4 GB was truncated to its
 first blocks

---
 src/core/db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 8146ac3..ee4cb8f 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -181,7 +181,7 @@ void db_lru_hit(cache_entry* entry) {
 }
 
 static void db_block_size() {
-	if (ftruncate(db.fd_blockfile, db.blocks_exist*BLOCK_LENGTH) < 0) {
+	if (ftruncate(db.fd_blockfile, ((off64_t)db.blocks_exist)*BLOCK_LENGTH) < 0) {
 		PWARN("File truncation failed (length: %d)", db.blocks_exist);
 	}
 }
-- 
2.43.0


From 3490718010580cc53d1c12d0cd3a4e8c4a2e90e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 25/40] fix: the bytes to evict were miscounted when large or
 negative

---
 src/core/db.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index ee4cb8f..151b217 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -330,8 +330,8 @@ void db_entry_incref(cache_entry* entry, bool table = true) {
 		db_table_incref(entry->table);
 }
 
-void db_lru_cleanup_percent(int* bytes_to_remove) {
-	int debug_bytes = *bytes_to_remove;
+void db_lru_cleanup_percent(int64_t* bytes_to_remove) {
+	int64_t debug_bytes = *bytes_to_remove;
 	while (db.lru_head != NULL && *bytes_to_remove > 0) {
 		cache_entry* l = db.lru_head;
 
@@ -352,7 +352,7 @@ void db_lru_cleanup_percent(int* bytes_to_remove) {
 		}
 	}
 	
-	DEBUG("[#] LRU attempted to remove %d bytes, %d bytes remaining\n", debug_bytes, *bytes_to_remove);
+	DEBUG("[#] LRU attempted to remove %ld bytes, %ld bytes remaining\n", (long)debug_bytes, (long)*bytes_to_remove);
 }
 
 static bool force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
@@ -455,26 +455,29 @@ void db_handle_sigchld(pid_t pid){
 	}
 }
 
+static int64_t db_lru_bytes_to_remove() {
+	return (int64_t)db.db_size_bytes - (int64_t)settings.max_size + (int64_t)(settings.max_size * (double)settings.db_lru_clear);
+}
+
 void db_lru_gc() {
 	bool do_lru = settings.max_size > 0 && settings.max_size < db.db_size_bytes;
 
 	DEBUG("Starting %s\n", do_lru?"LRU GC":"Expiration Cursor");
 	if (do_lru)
 	{
-		int bytes_to_remove;
+		int64_t bytes_to_remove;
 		bool full_cycle;
 		int i = 0;
 		
 		//Do 5 iterations, or one full cycle of expirations
 		do
 		{
-			bytes_to_remove = (db.db_size_bytes - settings.max_size) + (settings.max_size * settings.db_lru_clear);
 			full_cycle = db_expire_cursor();
 			i++;
 		} while (!full_cycle && i < 5);
 		
 		//Apply LRU
-		bytes_to_remove = (db.db_size_bytes - settings.max_size) + (settings.max_size * settings.db_lru_clear);
+		bytes_to_remove = db_lru_bytes_to_remove();
 		if (bytes_to_remove > 0) {
 			db_lru_cleanup_percent(&bytes_to_remove);
 		}
-- 
2.43.0


From 93561c03b7be74d1bc3e6bb196d3274898630ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 26/40] fix: the final line of a monitoring stream could end up
 inside another

---
 src/core/http_parse_mon.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 59cacc2..dcb0bd0 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -563,7 +563,10 @@ void monitoring_close(){
 		// move on
 		close_head = conn->monitoring.next;
 
-		// hard write before close
+		// hard write before close, the current line first if it is not complete
+		if(conn->output_buffer != NULL){
+			write(conn->client_sock, conn->output_buffer, conn->output_length);
+		}
 		write(conn->client_sock, "q\n", 2);
 		shutdown(conn->client_sock, SHUT_WR);
 	}
-- 
2.43.0


From 33e15cdad5bea8e01b677470f43fb1e7c8fc61c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 27/40] fix: a value that expired during its request was
 answered with a negative X-Ttl

---
 src/core/http_respond.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index 0a76856..bf218a7 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -40,7 +40,9 @@ state_action http_respond_expires(scache_connection* connection) {
 		DEBUG("[#%d] Responding with X-Ttl\n", connection->client_sock);
 		//Returns the number of chars put into the buffer
 		__time_t expires = connection->cache.target.key.entry->expires;
-		int temp = snprintf(header, sizeof(header), "X-Ttl: %ld\r\n", (expires == 0) ? expires : (expires - current_time.tv_sec));
+		//The entry may have expired since the request line was read
+		__time_t ttl = (expires > current_time.tv_sec) ? (expires - current_time.tv_sec) : 0;
+		int temp = snprintf(header, sizeof(header), "X-Ttl: %ld\r\n", ttl);
 
 		copy_to_outputbuffer(connection, header, temp);
 	}
-- 
2.43.0


From a7cbcdc8eb392b0fd79bd2e50da063e48abbe15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 28/40] fix: values in an incomplete last block of the block
 file were lost on restart

If extending the block file fails, the value stored in its last block ends
before the block does. The number of blocks was rounded down when the save
was loaded, and the entry dropped. When starting without a save the
incomplete block was put on the free list although it was cut off.
---
 src/core/db.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 151b217..56a7bbd 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -697,7 +697,7 @@ static bool db_load_from_save(std::set<int32_t>& blocks_used){
 		close_fd(fd, "file descriptor (cache file)");
 		return false;
 	}
-	db.blocks_exist = (uint32_t)(st.st_size / BLOCK_LENGTH);
+	db.blocks_exist = (uint32_t)((st.st_size + BLOCK_LENGTH - 1) / BLOCK_LENGTH);
 
 	FILE* fp = fdopen(fd, "r");
 	if(fp == NULL){
@@ -812,6 +812,10 @@ bool db_open(const char* path) {
 			PFATAL("Failed to completely truncate blockfile %s", db.path_blockfile);
 		}
 	}
+	if(!will_black){
+		// The last block is incomplete if the file could not be extended when it was added
+		size += BLOCK_LENGTH - 1;
+	}
 	db.blocks_exist = (uint32_t)(size / BLOCK_LENGTH);
 	lseek64(db.fd_blockfile, 0L, SEEK_SET);
 
@@ -827,7 +831,8 @@ bool db_open(const char* path) {
 		if((size % BLOCK_LENGTH) != 0){
 			WARN("Block file was strange size of %d", size);
 			
-			if(ftruncate(db.fd_blockfile, (size / BLOCK_LENGTH) * BLOCK_LENGTH) == -1){
+			size -= size % BLOCK_LENGTH;
+			if(ftruncate(db.fd_blockfile, size) == -1){
 				PFATAL("Failed to truncate blockfile %s", db.path_blockfile);
 			}
 		}
-- 
2.43.0


From 07df5c481bb8392b1f8fa47d43ea9cc2ce939160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 29/40] fix: a block file of unknown size was truncated under
 the entries of the save

The blocks of the entries that had just been loaded were handed out again.
---
 src/core/db.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 56a7bbd..efcc230 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -806,6 +806,9 @@ bool db_open(const char* path) {
 	// Calculate the number of blocks in the blockfile
 	off64_t size = lseek64(db.fd_blockfile, 0L, SEEK_END);
 	if(size < 0){
+		if(!will_black){
+			PFATAL("Failed to get the size of blockfile %s", db.path_blockfile);
+		}
 		PWARN("seek to end failed");
 		size = 0;
 		if(ftruncate(db.fd_blockfile, size) == -1){
-- 
2.43.0


From 421228f185aae20444d83d881bbfea9822552e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 30/40] fix: no final monitoring line after a line that could
 not be sent whole

---
 src/core/http_parse_mon.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index dcb0bd0..6d5e8b5 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -564,10 +564,9 @@ void monitoring_close(){
 		close_head = conn->monitoring.next;
 
 		// hard write before close, the current line first if it is not complete
-		if(conn->output_buffer != NULL){
-			write(conn->client_sock, conn->output_buffer, conn->output_length);
+		if(conn->output_buffer == NULL || write(conn->client_sock, conn->output_buffer, conn->output_length) == conn->output_length){
+			write(conn->client_sock, "q\n", 2);
 		}
-		write(conn->client_sock, "q\n", 2);
 		shutdown(conn->client_sock, SHUT_WR);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 2919b3f87db365d13bb1174311cb32be7df861fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:22 +0000
Subject: [PATCH 31/40] fix: the pid file of a daemon held 0 instead of its pid

fork_off() returned fork()'s result, which is 0 in the process that serves.
---
 src/server/scache.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/scache.cpp b/src/server/scache.cpp
index 6f1abc8..12dcf1d 100644
--- a/src/server/scache.cpp
+++ b/src/server/scache.cpp
@@ -103,6 +103,9 @@ static __pid_t fork_off() {
 		if (chdir("/")) PFATAL("chdir('/') failed.");
 
 		setsid();
+
+		/* The caller records the process that goes on: this one */
+		npid = getpid();
 	}
 	else {
 
-- 
2.43.0


From da76a2e6142c802a8b1ec453ddae81475238a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:22 +0000
Subject: [PATCH 32/40] fix: a second server with the same pid file was not
 refused

flock() was given F_WRLCK, which is LOCK_SH: any number of servers got the
lock, and each truncated the pid file. Take an exclusive lock without waiting,
and only count it when the file locked is still the one of that name.
---
 src/server/scache.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/server/scache.cpp b/src/server/scache.cpp
index 12dcf1d..476d356 100644
--- a/src/server/scache.cpp
+++ b/src/server/scache.cpp
@@ -31,17 +31,28 @@
 int write_pid(char* pidFile, __pid_t pid) {
 	int fd, size;
 	char buf[16];
+	struct stat locked, named;
+
+	for (;;) {
+		fd = open(pidFile, O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);
+		if (fd == -1)
+			PFATAL("Could not open PID file %s", pidFile);
+
+		if (flock(fd, LOCK_EX | LOCK_NB) == -1) {
+			if (errno == EAGAIN || errno == EACCES)
+				PFATAL("PID file '%s' is locked; probably "
+				"scache is already running", pidFile);
+			else
+				PFATAL("Unable to lock PID file '%s'", pidFile);
+		}
 
-	fd = open(pidFile, O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);
-	if (fd == -1)
-		PFATAL("Could not open PID file %s", pidFile);
+		/* The server that held the lock until now may have removed the file
+		after we opened it: only a lock on the file of that name counts. */
+		if (fstat(fd, &locked) == 0 && stat(pidFile, &named) == 0 &&
+			locked.st_dev == named.st_dev && locked.st_ino == named.st_ino)
+			break;
 
-	if (flock(fd, F_WRLCK) == -1) {
-		if (errno == EAGAIN || errno == EACCES)
-			PFATAL("PID file '%s' is locked; probably "
-			"scache is already running", pidFile);
-		else
-			PFATAL("Unable to lock PID file '%s'", pidFile);
+		close(fd);
 	}
 
 	if (ftruncate(fd, 0) == -1)
-- 
2.43.0


From 58391f4db778b7431ed2c21487f67001914547d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:22 +0000
Subject: [PATCH 33/40] fix: a server that ends could remove the pid file of
 its successor

The lock was released before the file was removed.
---
 src/server/scache.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/scache.cpp b/src/server/scache.cpp
index 476d356..ba460ec 100644
--- a/src/server/scache.cpp
+++ b/src/server/scache.cpp
@@ -182,9 +182,10 @@ int main(int argc, char** argv)
 
 	//PID file cleanup
 	if (settings.pidfile) {
-		close(pidfd);
+		//Removed while still locked, it might be another server's afterwards
 		if(!settings.leavepidfile){
 			unlink(settings.pidfile);
 		}
+		close(pidfd);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 454251ab797ee47246dabd86849ff66a2f67ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 34/40] fix: nothing was saved or restored if the path of the
 database has a space or a quote

The block file is copied by a shell command the path was pasted into.
---
 src/core/db.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index efcc230..1d6cfb5 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -355,15 +355,35 @@ void db_lru_cleanup_percent(int64_t* bytes_to_remove) {
 	DEBUG("[#] LRU attempted to remove %ld bytes, %ld bytes remaining\n", (long)debug_bytes, (long)*bytes_to_remove);
 }
 
+//Append a file name to a shell command, as one word
+static void append_quoted(char* command, const char* name){
+	char* out = command + strlen(command);
+
+	*out++ = ' ';
+	*out++ = '\'';
+	for(; *name; name++){
+		if(*name == '\''){
+			//Close the quotes, an escaped quote, open them again
+			memcpy(out, "'\\'", 3);
+			out += 3;
+		}
+		*out++ = *name;
+	}
+	*out++ = '\'';
+	*out = 0;
+}
+
 static bool force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
-	char buffer[8096];
+	char buffer[8096]; //enough for two names of MAX_PATH, with every character quoted
 	//TODO: reflink
 	/*int ret = link(fileThatExists, fileThatDoesNotExist);
 	char buffer[8096];
 	if(ret != 0){
 		PWARN("Unable to hard link");*/
 		//Really bad! Temporary.
-		snprintf(buffer, sizeof(buffer), "cp %s %s", fileThatExists, fileThatDoesNotExist);
+		strcpy(buffer, "cp --");
+		append_quoted(buffer, fileThatExists);
+		append_quoted(buffer, fileThatDoesNotExist);
 		printf("Executing %s\n", buffer);
 		return system(buffer) == 0;
 	//}
-- 
2.43.0


From 78893612d1d2c1c18d6ba799d2f17956d668b508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 35/40] fix: a database path that is too long was cut

The data went to another place and was not found again after a restart.
---
 src/core/db.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 1d6cfb5..c48408a 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -798,6 +798,12 @@ bool db_open(const char* path) {
 	bool will_black = false;
 	std::set<int32_t> blocks_used;
 
+	//The names of the files must fit as well
+	if(strlen(path) + strlen("/blockfile.db") >= SHORT_PATH){
+		errno = ENAMETOOLONG;
+		PFATAL("Unable to use database path %s", path);
+	}
+
 	//Create paths as char*'s
 	snprintf(db.path_root, SHORT_PATH, "%s/", path);
 	snprintf(db.path_single, SHORT_PATH, "%s/files/", path);
-- 
2.43.0


From 2c043aca97bbd3ecbf3ae149d8272a0cc8c5434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:07 +0000
Subject: [PATCH 36/40] fix: a second server on the same addresses replaced the
 block file of the first before it failed

The first server then saved the replaced file with its own index.
---
 src/server/scache.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/scache.cpp b/src/server/scache.cpp
index ba460ec..effd978 100644
--- a/src/server/scache.cpp
+++ b/src/server/scache.cpp
@@ -163,9 +163,9 @@ int main(int argc, char** argv)
 	timer_setup(monitoring_fd);
 	monitoring_init();
 
-	//Setup
-	db_open(settings.db_file_path);
+	//Setup, the database only if its addresses are not those of a server that works on it
 	connection_setup(settings.bind_cache, settings.bind_monitor);
+	db_open(settings.db_file_path);
 	signal_handler_install();
 
 	//Connection handling
-- 
2.43.0


From 736459136b0bdf00af1448d26b6b39c2a8b00540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:31 +0000
Subject: [PATCH 37/40] fix: count references with more than 15 or 16 bits

32768 requests in progress on one table made its reference counter wrap, and
the table was freed while in use.
---
 src/core/db_structures.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/db_structures.h b/src/core/db_structures.h
index f32b23b..ea05f82 100644
--- a/src/core/db_structures.h
+++ b/src/core/db_structures.h
@@ -16,7 +16,7 @@ struct cache_entry
 	uint16_t key_length : 14;
 	bool writing : 1;
 	bool deleted : 1;
-	uint16_t refs;
+	uint32_t refs;
 	uint32_t data_length;
 	int32_t block;
 	__time_t expires;
@@ -38,7 +38,7 @@ struct db_table {
 	uint16_t key_length;
 
 	khash_t(entry) *cache_hash_set;
-	uint16_t refs: 15;
+	uint32_t refs: 31;
 	bool deleted : 1;
 };
 
-- 
2.43.0


From 4bad794efc638d8720490f668f0788bad840edfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:31 +0000
Subject: [PATCH 38/40] fix: do not use the number of a saved file again after
 65536 stores

A value stored under the file name that the last save knows for an older value
of the key was taken for that one after a kill, complete or not.
---
 src/core/db.cpp          | 6 +++---
 src/core/db_structures.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index c48408a..270f6ce 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -69,7 +69,7 @@ static pid_t db_index_flush(bool copyOnWrite = true);
 
 //Buffers
 static char filename_buffer[MAX_PATH];
-static uint16_t nextit = 0;
+static uint32_t nextit = 0;
 
 db_details* db_get_details() {
 	return &db;
@@ -570,7 +570,7 @@ static uint32_t hash_string(const char* str, int length) {
 }
 
 static void get_key_path(cache_entry* e, char* out) {
-	snprintf(out, MAX_PATH, "%s%c%c/%x%x_%d", db.path_single, DEC2ALPH(e->hash), DEC2ALPH(e->hash >> 8), e->table->name_hash, e->hash, e->it);
+	snprintf(out, MAX_PATH, "%s%c%c/%x%x_%u", db.path_single, DEC2ALPH(e->hash), DEC2ALPH(e->hash >> 8), e->table->name_hash, e->hash, e->it);
 }
 
 
@@ -674,7 +674,7 @@ static char* db_load_from_save_copy(const char* name, int length){
 	return ret;
 }
 
-static cache_entry* db_load_from_save_entry(db_table* table, char* key, uint16_t length, int32_t block, uint32_t data_length, time_t expires, uint16_t it){
+static cache_entry* db_load_from_save_entry(db_table* table, char* key, uint16_t length, int32_t block, uint32_t data_length, time_t expires, uint32_t it){
 	assert(table->refs >= 1); //If not, it wouldnt be existing
 
 	uint32_t hash = hash_string(key, length);
diff --git a/src/core/db_structures.h b/src/core/db_structures.h
index ea05f82..33897ba 100644
--- a/src/core/db_structures.h
+++ b/src/core/db_structures.h
@@ -22,7 +22,7 @@ struct cache_entry
 	__time_t expires;
 	struct cache_entry* lru_next;
 	struct cache_entry* lru_prev;
-	uint16_t it;
+	uint32_t it;
 #ifdef DEBUG_BUILD
 	bool lru_found : 1;
 	bool lru_removed : 1;
-- 
2.43.0


From 4e2a9a24235d9d520c72ccae342f5a3420a32f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:46 +0000
Subject: [PATCH 39/40] fix: a DELETE given up while its value was being
 uploaded removed the file of the upload

---
 src/core/db.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 270f6ce..a024a16 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -951,10 +951,6 @@ void db_target_entry_close(cache_target* target) {
 		if (target->fd != db.fd_blockfile && target->fd >= 0) {
 			assert(target->fd > 0 || (settings.daemon_mode && target->fd >= 0));
 			close_fd(target->fd, "file descriptor (cache file)");
-
-			if(target->entry->writing){
-				db_entry_delete(target->entry);
-			}
 		}
 
 		target->fd = -1;
-- 
2.43.0


From 085fdca4eb61f48277b022ff646b930f1f5caaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:46 +0000
Subject: [PATCH 40/40] fix: an upload was lost if the last key of its table
 was deleted while its url arrived

---
 src/core/db.cpp               | 23 +++++++++++++++++------
 src/core/db.h                 |  1 +
 src/core/http_parse_cache.cpp |  3 +++
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index a024a16..24493bd 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1120,6 +1120,23 @@ struct db_table* db_table_get_write(char* name, int length) {
 	return table;
 }
 
+/**
+Get the table to write to, for one that was opened before. If it was deleted since then that is another of the same name.
+*/
+struct db_table* db_table_get_current(struct db_table* table) {
+	if (!table->deleted) {
+		return table;
+	}
+
+	char* name = (char*)malloc(table->key_length + 1);
+	memcpy(name, table->key, table->key_length);
+	name[table->key_length] = 0;
+
+	db_table* current = db_table_get_write(name, table->key_length);
+	db_table_close(table);
+	return current;
+}
+
 void db_entry_handle_softdelete(cache_entry* entry, khiter_t k) {
 	//It is possible when over-writing for this to be called twice.
 	if(entry->deleted) return;
@@ -1166,12 +1183,6 @@ cache_entry* db_entry_get_write(struct db_table* table, char* key, size_t length
 	//Must be checked before softdelete removes an entry being replaced
 	bool is_first_in_table = kh_size(table->cache_hash_set) == 0;
 
-	//The table was deleted since it has been opened, so this key is deleted too
-	if (table->deleted) {
-		free(key);
-		return NULL;
-	}
-
 	//This is a re-used entry
 	if (entry != NULL)
 	{
diff --git a/src/core/db.h b/src/core/db.h
index 8a570fb..b815bd2 100644
--- a/src/core/db.h
+++ b/src/core/db.h
@@ -60,6 +60,7 @@ void db_close();
 /* Lookup Table in Database */
 struct db_table* db_table_get_read(char* name, int length);
 struct db_table* db_table_get_write(char* name, int length);
+struct db_table* db_table_get_current(struct db_table* table);
 
 /* Lookup Cache Entry in Table */
 struct cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length);
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 3ee19d6..27a2870 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -82,6 +82,9 @@ static state_action http_key_lookup(scache_connection* connection, int n) {
 		entry = db_entry_get_read(connection->cache.target.table.table, key, n);
 	}
 	else if (REQUEST_IS(connection->method, REQUEST_HTTPPUT)) {
+		//The table may have been deleted (with its last key) since the url began
+		connection->cache.target.table.table = db_table_get_current(connection->cache.target.table.table);
+
 		//It is the responsibility of db_entry_get_write to free key if necessary
 		entry = db_entry_get_write(connection->cache.target.table.table, key, n);
 		if (entry) {
-- 
2.43.0

