From 6b168391acc18e35388ae4bc9d8038db5df2e13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:09 +0000
Subject: [PATCH 01/40] fix: GEODIFF_changesCount returns -1 on a malformed
 changeset instead of letting the exception escape

---
 geodiff/src/geodiff.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index ff4da8d..a902506 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -268,12 +268,20 @@ int GEODIFF_changesCount( const char *changeset )
     return -1;
   }
 
-  int changesCount = 0;
-  ChangesetEntry entry;
-  while ( reader.nextEntry( entry ) )
-    ++changesCount;
+  try
+  {
+    int changesCount = 0;
+    ChangesetEntry entry;
+    while ( reader.nextEntry( entry ) )
+      ++changesCount;
 
-  return changesCount;
+    return changesCount;
+  }
+  catch ( GeoDiffException exc )
+  {
+    Logger::instance().error( exc );
+    return -1;
+  }
 }
 
 static int listChangesJSON( const char *changeset, const char *jsonfile, bool onlySummary )
-- 
2.43.0


From 2eeb523b8c39e9c06b9cbb26ae703aae3d1b985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 02/40] fix: ChangesetReader rejects truncated and malformed
 changesets instead of reading past the end of the buffer

---
 geodiff/src/changesetreader.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index 27ca43c..607cf1e 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -50,7 +50,9 @@ bool ChangesetReader::nextEntry( ChangesetEntry &entry )
     }
     else if ( type == ChangesetEntry::OpInsert || type == ChangesetEntry::OpUpdate || type == ChangesetEntry::OpDelete )
     {
-      int indirect = readByte();
+      if ( mCurrentTable.columnCount() == 0 )
+        throwReaderError( "nextEntry: entry without a table record" );
+      readByte();  // "indirect" flag - ignored
       if ( type != ChangesetEntry::OpInsert )
         readRowValues( entry.oldValues );
       if ( type != ChangesetEntry::OpDelete )
@@ -60,6 +62,10 @@ bool ChangesetReader::nextEntry( ChangesetEntry &entry )
       entry.table = &mCurrentTable;
       return true;  // we're done!
     }
+    else
+    {
+      throwReaderError( "nextEntry: unexpected record type" );
+    }
   }
   return false;
 }
@@ -86,8 +92,16 @@ char ChangesetReader::readByte()
 
 int ChangesetReader::readVarint()
 {
-  u32 value;
+  // make sure that the whole varint (up to 9 bytes) is within the buffer
   const unsigned char *ptr = ( const unsigned char * )mBuffer->c_buf() + mOffset;
+  int available = mBuffer->size() - mOffset;
+  int length = 0;
+  while ( length < available && length < 8 && ( ptr[length] & 0x80 ) )
+    ++length;
+  if ( length >= available )
+    throwReaderError( "readVarint: at the end of buffer" );
+
+  u32 value;
   int nBytes = getVarint32( ptr, value );
   mOffset += nBytes;
   return value;
@@ -123,6 +137,8 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
       // 64-bit int (big endian)
       int64_t v;
       uint64_t x;
+      if ( mBuffer->size() - mOffset < 8 )
+        throwReaderError( "readRowValues: int/double: at the end of buffer" );
       memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
       mOffset += 8;
       x = be64toh( x ); // convert big endian to host
@@ -134,6 +150,8 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
       // 64-bit double (big endian)
       double v;
       uint64_t x;
+      if ( mBuffer->size() - mOffset < 8 )
+        throwReaderError( "readRowValues: int/double: at the end of buffer" );
       memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
       mOffset += 8;
       x = be64toh( x ); // convert big endian to host
@@ -143,7 +161,7 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
     else if ( type == Value::TypeText || type == Value::TypeBlob ) // 0x03 or 0x04
     {
       int len = readVarint();
-      if ( mOffset + len > mBuffer->size() )
+      if ( len < 0 || len > mBuffer->size() - mOffset )
         throwReaderError( "readRowValues: text/blob: at the end of buffer" );
       values[i].setString( type == Value::TypeText ? Value::TypeText : Value::TypeBlob, mBuffer->c_buf() + mOffset, len );
       mOffset += len;
-- 
2.43.0


From eef6faf51540d8863b400fdf285de86a11dd8e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 03/40] fix: rebase with an empty input changeset writes the
 output instead of overwriting the input

---
 geodiff/src/geodiffrebase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 1bc459b..c3728a1 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -579,7 +579,7 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   if ( reader_BASE_THEIRS.isEmpty() )
   {
     Logger::instance().info( " -- no rebase needed! (empty base2theirs) --\n" );
-    filecopy( changeset_BASE_MODIFIED, changeset_THEIRS_MODIFIED );
+    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );
     return GEODIFF_SUCCESS;
   }
 
@@ -592,7 +592,7 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   if ( reader_BASE_MODIFIED.isEmpty() )
   {
     Logger::instance().info( " -- no rebase needed! (empty base2modified) --\n" );
-    filecopy( changeset_BASE_THEIRS, changeset_THEIRS_MODIFIED );
+    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );  // nothing to rebase: empty output
     return GEODIFF_SUCCESS;
   }
 
-- 
2.43.0


From 3b862646f8295abd1a8ac99633bd7dee4193533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 04/40] fix: rebase does not report a conflict for a column
 changed only by theirs

---
 geodiff/src/geodiffrebase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index c3728a1..371f684 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -468,7 +468,7 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
   {
     // if the value was patched in the previous commit, use that one as base
     Value patchedVal = patchedVals[i];
-    if ( patchedVal.type() != Value::TypeUndefined )
+    if ( patchedVal.type() != Value::TypeUndefined && entry.newValues[i].type() != Value::TypeUndefined )
     {
       outEntry.oldValues[i] = patchedVal;
       // conflict for this value
-- 
2.43.0


From cf24c4a85bdd32a43b0643d76a8a661862d55e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 05/40] fix: rebased changeset does not contain headers of
 tables without any change

---
 geodiff/src/geodiffrebase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 371f684..c3c7bba 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -546,11 +546,11 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
 
   for ( auto it : tableDefinitions )
   {
-    writer.beginTable( it.second );
-
     auto chit = tableChanges.find( it.first );
     if ( chit != tableChanges.end() )
     {
+      writer.beginTable( it.second );
+
       const std::vector<ChangesetEntry> &changes = chit->second;
       for ( const ChangesetEntry &entry : changes )
       {
-- 
2.43.0


From eb0281606cd778ed61e81ae9ce6a35cf26dc9024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:14 +0000
Subject: [PATCH 06/40] fix: rebase keeps all 64 bits of integer primary keys

---
 geodiff/src/geodiffrebase.cpp | 68 +++++++++++++++++------------------
 geodiff/src/geodiffutils.cpp  |  9 +++--
 geodiff/src/geodiffutils.hpp  |  8 ++---
 3 files changed, 42 insertions(+), 43 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index c3c7bba..391b619 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -35,11 +35,11 @@
  */
 struct TableRebaseInfo
 {
-  std::set<int> inserted;           //!< pkeys that were inserted
-  std::set<int> deleted;            //!< pkeys that were deleted
-  std::map<int, std::vector<Value> > updated;  //!< new column values for each recorded row (identified by pkey)
+  std::set<int64_t> inserted;           //!< pkeys that were inserted
+  std::set<int64_t> deleted;            //!< pkeys that were deleted
+  std::map<int64_t, std::vector<Value> > updated;  //!< new column values for each recorded row (identified by pkey)
 
-  void dump_set( const std::set<int> &data, std::ostringstream &ret )
+  void dump_set( const std::set<int64_t> &data, std::ostringstream &ret )
   {
     if ( data.empty() )
       ret << "--none --";
@@ -60,7 +60,7 @@ struct TableRebaseInfo
     ret << "  deleted  ";
     dump_set( deleted, ret );
     ret << "  updated  ";
-    std::set<int> updatedPkeys;
+    std::set<int64_t> updatedPkeys;
     for ( auto pk : updated )
       updatedPkeys.insert( pk.first );
     dump_set( updatedPkeys, ret );
@@ -98,35 +98,35 @@ struct RebaseMapping
 {
 
   // table name -> old fid --> new fid
-  std::map<std::string, std::map < int, int > > mapIds;
+  std::map<std::string, std::map < int64_t, int64_t > > mapIds;
 
   // table name -> set of fids of inserts that have been untouched
   // (this is important because our mapping could cause FID conflicts
   // with FIDs that weren't previously in conflict, e.g. if 4,5,6
   // get mapped 4->6, 5->7 then the original 6 will need to be remapped
   // too: 6->8)
-  std::map<std::string, std::set<int> > unmappedInsertIds;
+  std::map<std::string, std::set<int64_t> > unmappedInsertIds;
 
   // special pkey value for deleted rows
-  static const int INVALID_FID = -1;
+  static const int64_t INVALID_FID = -1;
 
-  void addPkeyMapping( const std::string &table, int id, int id2 )
+  void addPkeyMapping( const std::string &table, int64_t id, int64_t id2 )
   {
     auto ids = mapIds.find( table );
     if ( ids == mapIds.end() )
     {
-      std::map < int, int  > newSet;
-      newSet.insert( std::pair<int, int>( id, id2 ) );
+      std::map < int64_t, int64_t  > newSet;
+      newSet.insert( std::pair<int64_t, int64_t>( id, id2 ) );
       mapIds[table] = newSet;
     }
     else
     {
-      std::map < int, int  > &oldSet = ids->second;
-      oldSet.insert( std::pair<int, int>( id, id2 ) );
+      std::map < int64_t, int64_t  > &oldSet = ids->second;
+      oldSet.insert( std::pair<int64_t, int64_t>( id, id2 ) );
     }
   }
 
-  bool hasOldPkey( const std::string &table, int id ) const
+  bool hasOldPkey( const std::string &table, int64_t id ) const
   {
     auto mapId = mapIds.find( table );
     if ( mapId == mapIds.end() )
@@ -135,13 +135,13 @@ struct RebaseMapping
     }
     else
     {
-      const std::map < int, int  > &ids = mapId->second;
+      const std::map < int64_t, int64_t  > &ids = mapId->second;
       auto fid =  ids.find( id );
       return fid != ids.end();
     }
   }
 
-  int getNewPkey( const std::string &table, int id ) const
+  int64_t getNewPkey( const std::string &table, int64_t id ) const
   {
     auto ids = mapIds.find( table );
     if ( ids == mapIds.end() )
@@ -150,7 +150,7 @@ struct RebaseMapping
     }
     else
     {
-      const std::map < int, int  > &oldSet = ids->second;
+      const std::map < int64_t, int64_t  > &oldSet = ids->second;
       auto a = oldSet.find( id );
       if ( a == oldSet.end() )
         throw GeoDiffException( "internal error: _get_new MappingIds" );
@@ -192,9 +192,9 @@ struct RebaseMapping
 ///////////////////////////////////////
 
 
-int _get_primary_key( const ChangesetEntry &entry )
+int64_t _get_primary_key( const ChangesetEntry &entry )
 {
-  int fid;
+  int64_t fid;
   int nFidColumn;
   get_primary_key( entry, fid, nFidColumn );
   return fid;
@@ -206,7 +206,7 @@ int _parse_old_changeset( ChangesetReader &reader_BASE_THEIRS, DatabaseRebaseInf
   ChangesetEntry entry;
   while ( reader_BASE_THEIRS.nextEntry( entry ) )
   {
-    int pk = _get_primary_key( entry );
+    int64_t pk = _get_primary_key( entry );
 
     TableRebaseInfo &tableInfo = dbInfo.tables[entry.table->name];
 
@@ -234,10 +234,10 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
 {
   // figure out first free primary key value when rebasing for each table
   // TODO: should we consider all rows in the table instead of just the inserts? (maybe not needed - those were available in the other source too)
-  std::map<std::string, int> freeIndices;
+  std::map<std::string, int64_t> freeIndices;
   for ( auto mapId : dbInfo.tables )
   {
-    const std::set < int > &oldSet = mapId.second.inserted;
+    const std::set < int64_t > &oldSet = mapId.second.inserted;
     if ( oldSet.empty() )
       continue;  // TODO: or set 0 to free indices??
 
@@ -256,7 +256,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
 
     if ( entry.op == ChangesetEntry::OpInsert )
     {
-      int pk = _get_primary_key( entry );
+      int64_t pk = _get_primary_key( entry );
 
       if ( tableInfo.inserted.find( pk ) != tableInfo.inserted.end() )
       {
@@ -278,7 +278,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     }
     else if ( entry.op == ChangesetEntry::OpUpdate )
     {
-      int pk = _get_primary_key( entry );
+      int64_t pk = _get_primary_key( entry );
 
       if ( tableInfo.deleted.find( pk ) != tableInfo.deleted.end() )
       {
@@ -288,7 +288,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     }
     else if ( entry.op == ChangesetEntry::OpDelete )
     {
-      int pk = _get_primary_key( entry );
+      int64_t pk = _get_primary_key( entry );
 
       if ( tableInfo.deleted.find( pk ) != tableInfo.deleted.end() )
       {
@@ -305,12 +305,12 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     std::string tableName = pair.first;
 
     // make a set of all new pkeys
-    std::set<int> usedNewPkeys;
+    std::set<int64_t> usedNewPkeys;
     for ( auto oldNewPair : mapping.mapIds[tableName] )
       usedNewPkeys.insert( oldNewPair.second );
 
-    std::set<int> pkeys = pair.second;
-    for ( int pk : pkeys )
+    std::set<int64_t> pkeys = pair.second;
+    for ( int64_t pk : pkeys )
     {
       if ( usedNewPkeys.find( pk ) != usedNewPkeys.end() )
       {
@@ -343,8 +343,8 @@ bool _handle_insert( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.newValues.resize( numColumns );
 
   // resolve primary key and patched primary key
-  int pk = _get_primary_key( entry );
-  int newPk = pk;
+  int64_t pk = _get_primary_key( entry );
+  int64_t newPk = pk;
 
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
@@ -375,8 +375,8 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.oldValues.resize( numColumns );
 
   // resolve primary key and patched primary key
-  int pk = _get_primary_key( entry );
-  int newPk = pk;
+  int64_t pk = _get_primary_key( entry );
+  int64_t newPk = pk;
 
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
@@ -446,10 +446,10 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.newValues.resize( numColumns );
 
   // get values from patched (new) master
-  int pk = _get_primary_key( entry );
+  int64_t pk = _get_primary_key( entry );
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
-    int newPk = mapping.getNewPkey( entry.table->name, pk );
+    int64_t newPk = mapping.getNewPkey( entry.table->name, pk );
     if ( newPk == RebaseMapping::INVALID_FID )
       return false;
   }
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 15368b9..b77be97 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -376,7 +376,7 @@ bool isLayerTable( const std::string &tableName )
 
 ////
 
-void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn )
+void get_primary_key( const ChangesetEntry &entry, int64_t &fid, int &nColumn )
 {
   const std::vector<bool> &tablePkeys = entry.table->primaryKeys;
 
@@ -416,8 +416,7 @@ void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn )
 
   if ( pkeyValue.type() == Value::TypeInt )
   {
-    int val = pkeyValue.getInt();
-    fid = val;
+    fid = pkeyValue.getInt();
     return;
   }
   else if ( pkeyValue.type() == Value::TypeText )
@@ -529,7 +528,7 @@ const char *TmpFile::c_path() const
   return mPath.c_str();
 }
 
-ConflictFeature::ConflictFeature( int pk,
+ConflictFeature::ConflictFeature( int64_t pk,
                                   const std::string &tableName )
   : mPk( pk )
   , mTableName( tableName )
@@ -551,7 +550,7 @@ std::string ConflictFeature::tableName() const
   return mTableName;
 }
 
-int ConflictFeature::pk() const
+int64_t ConflictFeature::pk() const
 {
   return mPk;
 }
diff --git a/geodiff/src/geodiffutils.hpp b/geodiff/src/geodiffutils.hpp
index bd396fb..6d18599 100644
--- a/geodiff/src/geodiffutils.hpp
+++ b/geodiff/src/geodiffutils.hpp
@@ -105,7 +105,7 @@ int indexOf( const std::vector<std::string> &arr, const std::string &val );
 std::string concatNames( const std::vector<std::string> &names );
 
 
-void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn );
+void get_primary_key( const ChangesetEntry &entry, int64_t &fid, int &nColumn );
 
 
 
@@ -167,15 +167,15 @@ class ConflictItem
 class ConflictFeature
 {
   public:
-    ConflictFeature( int pk,
+    ConflictFeature( int64_t pk,
                      const std::string &tableName );
     bool isValid() const;
     void addItem( const ConflictItem &item );
     std::string tableName() const;
-    int pk() const;
+    int64_t pk() const;
     std::vector<ConflictItem> items() const;
   private:
-    int mPk;
+    int64_t mPk;
     std::string mTableName;
     std::vector<ConflictItem> mItems;
 };
-- 
2.43.0


From 4fe05a4d7e7fba531cd35f3d0c56b1f3d9983d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:13 +0000
Subject: [PATCH 07/40] fix: rebase keeps the original primary key of entries
 that are not renumbered (text keys)

---
 geodiff/src/geodiffrebase.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 391b619..d3e2a8e 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -354,7 +354,7 @@ bool _handle_insert( const ChangesetEntry &entry, const RebaseMapping &mapping,
 
   for ( size_t i = 0; i < numColumns; i++ )
   {
-    if ( entry.table->primaryKeys[i] )
+    if ( entry.table->primaryKeys[i] && newPk != pk )
     {
       outEntry.newValues[i].setInt( newPk );
     }
@@ -374,17 +374,12 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.op = ChangesetEntry::OpDelete;
   outEntry.oldValues.resize( numColumns );
 
-  // resolve primary key and patched primary key
   int64_t pk = _get_primary_key( entry );
-  int64_t newPk = pk;
 
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
-    // conflict 2 concurrent updates...
-    newPk = mapping.getNewPkey( entry.table->name, pk );
-
     // conflict 2 concurrent deletes...
-    if ( newPk == RebaseMapping::INVALID_FID )
+    if ( mapping.getNewPkey( entry.table->name, pk ) == RebaseMapping::INVALID_FID )
       return false;
   }
 
@@ -400,7 +395,7 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
   {
     if ( entry.table->primaryKeys[i] )
     {
-      outEntry.oldValues[i].setInt( newPk );
+      outEntry.oldValues[i] = entry.oldValues[i];  // deletes never get a new key
     }
     else
     {
-- 
2.43.0


From 3498bd44b9494326bf931d184aa000b365099445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:13 +0000
Subject: [PATCH 08/40] fix: rebase does not mix up rows whose text primary
 keys have the same hash

---
 geodiff/src/geodiffutils.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index b77be97..230d4ff 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -422,14 +422,13 @@ void get_primary_key( const ChangesetEntry &entry, int64_t &fid, int &nColumn )
   else if ( pkeyValue.type() == Value::TypeText )
   {
     std::string str = pkeyValue.getString();
-    const char *strData = str.data();
-    int hash = 0;
-    int len = str.size();
-    for ( int i = 0; i < len; i++ )
+    // 64-bit FNV-1a hash: different keys must not end up with the same fid
+    uint64_t hash = 14695981039346656037ULL;
+    for ( char c : str )
     {
-      hash = 33 * hash + ( unsigned char )strData[i];
+      hash = ( hash ^ ( unsigned char )c ) * 1099511628211ULL;
     }
-    fid = hash;
+    fid = static_cast<int64_t>( hash );
   }
   else
   {
-- 
2.43.0


From d2cd728c3ebbd99048f7cea6064a942b2a4af98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 09/40] fix: createChangeset works for tables with all columns
 in the primary key

---
 geodiff/src/drivers/sqlitedriver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index fd237ab..a9f135f 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -387,6 +387,9 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
     }
   }
 
+  if ( exprOther.empty() )
+    exprOther = "0";  // all columns are in the primary key - there can't be any updates
+
   std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
                                   "main", tableName.c_str(), "aux", tableName.c_str(), exprPk.c_str(), exprOther.c_str() );
   return sql;
-- 
2.43.0


From 7a1e370f54c3f4023256cb326856151a2f09de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 10/40] fix: text values with embedded NUL characters are
 compared and applied completely

---
 geodiff/src/drivers/sqlitedriver.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index a9f135f..5b4df09 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -411,7 +411,12 @@ static bool valuesEqual( sqlite3_value *v1, sqlite3_value *v2 )
     return sqlite3_value_double( v1 ) == sqlite3_value_double( v2 );
   else if ( type1 == SQLITE_TEXT )
   {
-    return strcmp( ( const char * ) sqlite3_value_text( v1 ), ( const char * ) sqlite3_value_text( v2 ) ) == 0;
+    // compare all bytes (strings may contain embedded NUL characters)
+    const char *text1 = ( const char * ) sqlite3_value_text( v1 );
+    const char *text2 = ( const char * ) sqlite3_value_text( v2 );
+    int len1 = sqlite3_value_bytes( v1 );
+    int len2 = sqlite3_value_bytes( v2 );
+    return len1 == len2 && memcmp( text1, text2, len1 ) == 0;
   }
   else if ( type1 == SQLITE_BLOB )
   {
@@ -658,7 +663,7 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
   else if ( v.type() == Value::TypeNull )
     rc = sqlite3_bind_null( stmt, index );
   else if ( v.type() == Value::TypeText )
-    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), -1, SQLITE_TRANSIENT );
+    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
   else if ( v.type() == Value::TypeBlob )
     rc = sqlite3_bind_blob( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
   else
-- 
2.43.0


From ab50b56581121b1bc5ab0c4a80b7a49512966320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 11/40] fix: applyChangeset quotes names of triggers it drops

---
 geodiff/src/drivers/sqlitedriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 5b4df09..e7f4c58 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -699,7 +699,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   Sqlite3Stmt statament;
   for ( std::string name : triggerNames )
   {
-    statament.prepare( mDb, "drop trigger %s", name.c_str() );
+    statament.prepare( mDb, "drop trigger \"%w\"", name.c_str() );
     sqlite3_step( statament.get() );
     statament.close();
   }
-- 
2.43.0


From 14b1f84733749d0bc87e275e7abf033a00047a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 12/40] fix: JSON output escapes backslashes, control
 characters and table names

---
 geodiff/src/changesetutils.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 2d9b5dd..9c1fb52 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -78,12 +78,22 @@ void invertChangeset( ChangesetReader &reader, ChangesetWriter &writer )
 
 std::string escapeJSONString( std::string val )
 {
-  //val = replace( val, "\\", "\\\\" );  // TODO: escaping of backslashes?
+  val = replace( val, "\\", "\\\\" );
   val = replace( val, "\n", "\\n" );
   val = replace( val, "\r", "\\r" );
   val = replace( val, "\t", "\\t" );
   val = replace( val, "\"", "\\\"" );
-  return "\"" + val + "\"";
+
+  // other control characters are not allowed in JSON strings
+  std::string res;
+  for ( char c : val )
+  {
+    if ( ( unsigned char ) c < 0x20 )
+      res += std::string( "\\u00" ) + ( c < 0x10 ? '0' : '1' ) + "0123456789abcdef"[c & 0xf];
+    else
+      res += c;
+  }
+  return "\"" + res + "\"";
 }
 
 std::string valueToJSON( const Value &value )
@@ -122,7 +132,7 @@ std::string changesetEntryToJSON( const ChangesetEntry &entry )
     status = "delete";
 
   std::string res = "      {\n";
-  res += "        \"table\": \"" + entry.table->name + "\",\n";
+  res += "        \"table\": " + escapeJSONString( entry.table->name ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
   res += "        \"changes\": [";
   bool first = true;
@@ -224,7 +234,7 @@ std::string changesetToJSONSummary( ChangesetReader &reader )
   {
     std::string tableJson;
     tableJson += "      {\n";
-    tableJson += "         \"table\": \"" + kv.first + "\",\n";
+    tableJson += "         \"table\": " + escapeJSONString( kv.first ) + ",\n";
     tableJson += "         \"insert\": " + std::to_string( kv.second.inserts ) + ",\n";
     tableJson += "         \"update\": " + std::to_string( kv.second.updates ) + ",\n";
     tableJson += "         \"delete\": " + std::to_string( kv.second.deletes ) + "\n";
@@ -252,7 +262,7 @@ std::string conflictToJSON( const ConflictFeature &conflict )
   std::string status = "conflict";
 
   std::string res = "      {\n";
-  res += "        \"table\": \"" + std::string( conflict.tableName() ) + "\",\n";
+  res += "        \"table\": " + escapeJSONString( conflict.tableName() ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
   res += "        \"fid\": \"" + std::to_string( conflict.pk() ) + "\",\n";
   res += "        \"changes\": [";
-- 
2.43.0


From 0f03f255bc1af819f80bfc68b1d572c7f7984a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 13/40] fix: default logger level is 1 as documented and info
 messages are printed

---
 geodiff/src/geodifflogger.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodifflogger.cpp b/geodiff/src/geodifflogger.cpp
index 8350f4d..d421e33 100644
--- a/geodiff/src/geodifflogger.cpp
+++ b/geodiff/src/geodifflogger.cpp
@@ -15,7 +15,7 @@ int _envInt( const char *key )
   {
     return atoi( val );
   }
-  return 0;
+  return GEODIFF_LoggerLevel::LevelError;
 }
 
 void StdoutLogger( GEODIFF_LoggerLevel level, const char *msg )
@@ -28,6 +28,9 @@ void StdoutLogger( GEODIFF_LoggerLevel level, const char *msg )
     case LevelWarning:
       std::cout << "Warn: " << msg << std::endl;
       break;
+    case LevelInfo:
+      std::cout << "Info: " << msg << std::endl;
+      break;
     case LevelDebug:
       std::cout << "Debug: " << msg << std::endl;
       break;
-- 
2.43.0


From 82aabc7d1b936095415c143bd1535f4c256eea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 14/40] fix: names of temporary files differ between concurrent
 processes

---
 geodiff/src/geodiff.cpp      | 2 +-
 geodiff/src/geodiffutils.cpp | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index a902506..07f81a5 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -509,7 +509,7 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     return GEODIFF_ERROR;
   }
 
-  TmpFile tmpFileChangeset( tmpdir() + "geodiff_changeset" + std::to_string( rand() ) );
+  TmpFile tmpFileChangeset( tmpdir() + "geodiff_changeset" + randomString( 6 ) );
 
   try
   {
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 230d4ff..8baba43 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -24,6 +24,7 @@
 #include <cctype>
 #include <gpkg.h>
 #include <locale>
+#include <random>
 #include <codecvt>
 
 #ifdef _WIN32
@@ -622,6 +623,8 @@ std::string lowercaseString( const std::string &str )
 // from https://stackoverflow.com/questions/440133/how-do-i-create-a-random-alpha-numeric-string-in-c
 std::string randomString( size_t length )
 {
+  // seeded from the system: concurrent processes must not generate the same names of temporary files
+  static std::random_device randomDevice;
   auto randchar = []() -> char
   {
     const char charset[] =
@@ -629,7 +632,7 @@ std::string randomString( size_t length )
     "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
     "abcdefghijklmnopqrstuvwxyz";
     const size_t max_index = ( sizeof( charset ) - 1 );
-    return charset[ rand() % max_index ];
+    return charset[ randomDevice() % max_index ];
   };
   std::string str( length, 0 );
   std::generate_n( str.begin(), length, randchar );
-- 
2.43.0


From 4ebca58ac2779e4e12d73a225affcc3941a5585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 15/40] fix: tmpdir() includes the trailing slash also when
 TMPDIR does not

---
 geodiff/src/geodiffutils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 8baba43..36c7c46 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -465,7 +465,10 @@ std::string tmpdir()
 
   return wstringToString( tempDirPath );
 #else
-  return getEnvVar( "TMPDIR", "/tmp/" );
+  std::string dir = getEnvVar( "TMPDIR", "/tmp/" );
+  if ( !dir.empty() && dir.back() != '/' )
+    dir += '/';
+  return dir;
 #endif
 }
 
-- 
2.43.0


From 2c6544b7ffdc244d19f8f8c90709c0a187572c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:13 +0000
Subject: [PATCH 16/40] fix: failures to write output files are reported
 instead of returning success

---
 geodiff/src/changesetwriter.cpp |  7 +++++++
 geodiff/src/changesetwriter.h   |  3 +++
 geodiff/src/geodiff.cpp         | 16 ++++++++++++----
 geodiff/src/geodiffrebase.cpp   |  1 +
 geodiff/src/geodiffutils.cpp    | 15 ++++++++++++---
 5 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/geodiff/src/changesetwriter.cpp b/geodiff/src/changesetwriter.cpp
index 3b7b6fe..63adbd7 100644
--- a/geodiff/src/changesetwriter.cpp
+++ b/geodiff/src/changesetwriter.cpp
@@ -52,6 +52,13 @@ void ChangesetWriter::writeEntry( const ChangesetEntry &entry )
     writeRowValues( entry.newValues );
 }
 
+void ChangesetWriter::close()
+{
+  mFile.close();
+  if ( mFile.fail() )
+    throw GeoDiffException( "failed to write changeset file" );
+}
+
 void ChangesetWriter::writeByte( char c )
 {
   mFile.write( &c, 1 );
diff --git a/geodiff/src/changesetwriter.h b/geodiff/src/changesetwriter.h
index 81a40b8..7df1c75 100644
--- a/geodiff/src/changesetwriter.h
+++ b/geodiff/src/changesetwriter.h
@@ -33,6 +33,9 @@ class ChangesetWriter
     //! writes table change entry
     void writeEntry( const ChangesetEntry &entry );
 
+    //! closes the file, throws an exception if anything could not be written (e.g. disk full)
+    void close();
+
   private:
 
     void writeByte( char c );
diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 07f81a5..627cc68 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -95,6 +95,7 @@ int GEODIFF_createChangesetEx( const char *driverName, const char *driverExtraIn
     if ( !writer.open( changeset ) )
       throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->createChangeset( writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
@@ -306,13 +307,14 @@ static int listChangesJSON( const char *changeset, const char *jsonfile, bool on
       res = changesetToJSONSummary( reader );
     else
       res = changesetToJSON( reader );
+
+    flushString( jsonfile, res );
   }
   catch ( GeoDiffException exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
   }
-  flushString( jsonfile, res );
   return GEODIFF_SUCCESS;
 }
 
@@ -357,6 +359,7 @@ int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
   try
   {
     invertChangeset( reader, writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
@@ -533,8 +536,10 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     // get source data
     {
       ChangesetWriter writer;
-      writer.open( tmpFileChangeset.c_path() );
+      if ( !writer.open( tmpFileChangeset.c_path() ) )
+        throw GeoDiffException( "Unable to open changeset file for writing: " + tmpFileChangeset.path() );
       driverSrc->dumpData( writer );
+      writer.close();
     }
 
     // create destination
@@ -550,7 +555,8 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     // insert data to destination
     {
       ChangesetReader reader;
-      reader.open( tmpFileChangeset.c_path() );
+      if ( !reader.open( tmpFileChangeset.c_path() ) )
+        throw GeoDiffException( "Unable to open changeset file for reading: " + tmpFileChangeset.path() );
       driverDst->applyChangeset( reader );
     }
   }
@@ -592,8 +598,10 @@ int GEODIFF_dumpData( const char *driverName, const char *driverExtraInfo, const
 
     // get source data
     ChangesetWriter writer;
-    writer.open( changeset );
+    if ( !writer.open( changeset ) )
+      throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->dumpData( writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index d3e2a8e..524e2c2 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -553,6 +553,7 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
       }
     }
   }
+  writer.close();
 
   return GEODIFF_SUCCESS;
 }
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 36c7c46..14fa3dd 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -189,8 +189,11 @@ void Buffer::write( const std::string &filename )
   {
     throw GeoDiffException( "Unable to open " + filename + " for writing" );
   }
-  fwrite( mZ, mAlloc, 1, f );
-  fclose( f );
+  bool ok = fwrite( mZ, 1, mAlloc, f ) == mAlloc;
+  if ( fclose( f ) != 0 || !ok )
+  {
+    throw GeoDiffException( "Unable to write " + filename );
+  }
 }
 
 const char *Buffer::c_buf() const
@@ -289,7 +292,11 @@ void filecopy( const std::string &to, const std::string &from )
   std::ifstream  src( from, std::ios::binary );
   std::ofstream  dst( to,   std::ios::binary );
 
-  dst << src.rdbuf();
+  if ( src.is_open() && src.peek() != std::ifstream::traits_type::eof() )
+    dst << src.rdbuf();
+  dst.close();
+  if ( !src.is_open() || src.bad() || dst.fail() )
+    throw GeoDiffException( "Unable to copy " + from + " to " + to );
 #endif
 }
 
@@ -443,6 +450,8 @@ void flushString( const std::string &filename, const std::string &str )
   std::ofstream out( filename );
   out << str;
   out.close();
+  if ( out.fail() )
+    throw GeoDiffException( "Unable to write " + filename );
 }
 
 std::string getEnvVar( std::string const &key, const std::string &defaultVal )
-- 
2.43.0


From 07dca2a41c12bc4bb4a9071b6f00a813b9b08670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 17/40] fix: errors while reading rows of a database are
 reported instead of producing an incomplete changeset

---
 geodiff/src/drivers/sqlitedriver.cpp | 10 +++++-----
 geodiff/src/drivers/sqliteutils.cpp  | 20 ++++++++++++++------
 geodiff/src/drivers/sqliteutils.h    |  2 ++
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index e7f4c58..f02e6a5 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -178,7 +178,7 @@ std::vector<std::string> SqliteDriver::listTables( bool useModified )
                                " ORDER BY name";
   Sqlite3Stmt statement;
   statement.prepare( mDb, "%s", all_tables_sql.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.nextRow() )
   {
     const char *name = ( const char * )sqlite3_column_text( statement.get(), 0 );
     if ( !name )
@@ -237,7 +237,7 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
 
   Sqlite3Stmt statement;
   statement.prepare( mDb, "PRAGMA '%q'.table_info('%q')", dbName.c_str(), tableName.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.nextRow() )
   {
     const unsigned char *zName = sqlite3_column_text( statement.get(), 1 );
     if ( zName == nullptr )
@@ -457,7 +457,7 @@ static void handleInserted( const std::string &tableName, const TableSchema &tbl
   std::string sqlInserted = sqlFindInserted( tableName, tbl, reverse );
   Sqlite3Stmt statementI;
   statementI.prepare( db, "%s", sqlInserted.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
+  while ( statementI.nextRow() )
   {
     if ( first )
     {
@@ -489,7 +489,7 @@ static void handleUpdated( const std::string &tableName, const TableSchema &tbl,
 
   Sqlite3Stmt statement;
   statement.prepare( db, "%s", sqlModified.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.nextRow() )
   {
     if ( first )
     {
@@ -955,7 +955,7 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
     bool first = true;
     Sqlite3Stmt statementI;
     statementI.prepare( mDb, "SELECT * FROM \"%w\".\"%w\"", dbName.c_str(), tableName.c_str() );
-    while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
+    while ( statementI.nextRow() )
     {
       if ( first )
       {
diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index b6c1ba6..7548c3c 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -126,6 +126,14 @@ sqlite3_stmt *Sqlite3Stmt::get()
   return mStmt;
 }
 
+bool Sqlite3Stmt::nextRow()
+{
+  int rc = sqlite3_step( mStmt );
+  if ( rc != SQLITE_ROW && rc != SQLITE_DONE )
+    throw GeoDiffException( "Failed to read rows: " + std::string( sqlite3_errmsg( sqlite3_db_handle( mStmt ) ) ) );
+  return rc == SQLITE_ROW;
+}
+
 void Sqlite3Stmt::close()
 {
   if ( mStmt )
@@ -233,7 +241,7 @@ void sqliteTriggers( std::shared_ptr<Sqlite3Db> db, std::vector<std::string> &tr
 
   Sqlite3Stmt statament;
   statament.prepare( db, "%s", "select name, sql from sqlite_master where type = 'trigger'" );
-  while ( SQLITE_ROW == sqlite3_step( statament.get() ) )
+  while ( statament.nextRow() )
   {
     const char *name = ( char * ) sqlite3_column_text( statament.get(), 0 );
     const char *sql = ( char * ) sqlite3_column_text( statament.get(), 1 );
@@ -300,7 +308,7 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
     {
       Sqlite3Stmt pStmt;     /* SQL statement being run */
       pStmt.prepare( db, "SELECT * FROM %s.pragma_foreign_key_list(%Q)", dbName.c_str(), fromTableName.c_str() );
-      while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+      while ( pStmt.nextRow() )
       {
         const char *fk_to_table = ( const char * )sqlite3_column_text( pStmt.get(), 2 );
         const char *fk_from = ( const char * )sqlite3_column_text( pStmt.get(), 3 );
@@ -344,7 +352,7 @@ void sqliteTables( std::shared_ptr<Sqlite3Db> db,
                                " ORDER BY name";
   Sqlite3Stmt statament;
   statament.prepare( db, "%s", all_tables_sql.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statament.get() ) )
+  while ( statament.nextRow() )
   {
     const char *name = ( const char * )sqlite3_column_text( statament.get(), 0 );
     if ( !name )
@@ -409,7 +417,7 @@ std::vector<std::string> sqliteColumnNames(
   */
   const char *zTab = tableName.c_str();
   pStmt.prepare( db, "PRAGMA %s.index_list=%Q", zDb.c_str(), zTab );
-  while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+  while ( pStmt.nextRow() )
   {
     if ( sqlite3_stricmp( ( const char * )sqlite3_column_text( pStmt.get(), 3 ), "pk" ) == 0 )
     {
@@ -425,7 +433,7 @@ std::vector<std::string> sqliteColumnNames(
     int nCol = 0;
     truePk = 0;
     pStmt.prepare( db, "PRAGMA %s.index_xinfo=%Q", zDb.c_str(), zPkIdxName.c_str() );
-    while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+    while ( pStmt.nextRow() )
     {
       nCol++;
       if ( sqlite3_column_int( pStmt.get(), 5 ) ) { nKey++; continue; }
@@ -451,7 +459,7 @@ std::vector<std::string> sqliteColumnNames(
 
   naz = nPK;
   az.resize( naz );
-  while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+  while ( pStmt.nextRow() )
   {
     int iPKey;
     std::string name = ( char * )sqlite3_column_text( pStmt.get(), 1 );
diff --git a/geodiff/src/drivers/sqliteutils.h b/geodiff/src/drivers/sqliteutils.h
index b6038f1..293062b 100644
--- a/geodiff/src/drivers/sqliteutils.h
+++ b/geodiff/src/drivers/sqliteutils.h
@@ -43,6 +43,8 @@ class Sqlite3Stmt
     void prepare( std::shared_ptr<Sqlite3Db> db, const char *zFormat, ... );
     sqlite3_stmt *get();
     void close();
+    //! Moves to the next row of the result: returns false when there are no more rows, throws an exception on error
+    bool nextRow();
     //! Returns SQL statement with bound parameters expanded
     std::string expandedSql() const;
   private:
-- 
2.43.0


From 09dfce0d6474b99a4d968cca28d9c762c7ae6078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 18/40] fix: NULL arguments of rebase and invert functions are
 reported as errors

---
 geodiff/src/geodiff.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 627cc68..df5a4e3 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -155,7 +155,7 @@ int GEODIFF_createRebasedChangeset( const char *base,
                                     const char *conflictfile
                                   )
 {
-  if ( !conflictfile )
+  if ( !base || !modified || !changeset_their || !changeset || !conflictfile )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_createRebasedChangeset" );
     return GEODIFF_ERROR;
@@ -330,7 +330,7 @@ int GEODIFF_listChangesSummary( const char *changeset, const char *jsonfile )
 
 int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
 {
-  if ( !changeset )
+  if ( !changeset || !changeset_inv )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_invertChangeset" );
     return GEODIFF_ERROR;
@@ -409,9 +409,9 @@ int GEODIFF_rebaseEx( const char *driverName,
                       const char *base2their,
                       const char *conflictfile )
 {
-  if ( !base || !modified || !modified || !conflictfile )
+  if ( !driverName || !base || !modified || !base2their || !conflictfile )
   {
-    Logger::instance().error( "NULL arguments to GEODIFF_rebase" );
+    Logger::instance().error( "NULL arguments to GEODIFF_rebaseEx" );
     return GEODIFF_ERROR;
   }
 
-- 
2.43.0


From 87b0e96d279bc17448564cc41b59caab759bcca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 19/40] fix: changesets with inconsistent column counts of a
 table are rejected instead of accessing values out of bounds

---
 geodiff/src/changesetutils.cpp       | 2 +-
 geodiff/src/drivers/sqlitedriver.cpp | 4 +++-
 geodiff/src/geodiffrebase.cpp        | 6 ++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 9c1fb52..8bbad04 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -29,7 +29,7 @@ void invertChangeset( ChangesetReader &reader, ChangesetWriter &writer )
   while ( reader.nextEntry( entry ) )
   {
     assert( entry.table );
-    if ( entry.table->name != currentTableName )
+    if ( entry.table->name != currentTableName || entry.table->primaryKeys != currentPkeys )
     {
       writer.beginTable( *entry.table );
       currentTableName = entry.table->name;
diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index f02e6a5..3c7653f 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -677,6 +677,7 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
 void SqliteDriver::applyChangeset( ChangesetReader &reader )
 {
   std::string lastTableName;
+  std::vector<bool> lastTablePkeys;
   std::unique_ptr<Sqlite3Stmt> stmtInsert, stmtUpdate, stmtDelete;
   TableSchema tbl;
 
@@ -708,10 +709,11 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   ChangesetEntry entry;
   while ( reader.nextEntry( entry ) )
   {
-    if ( entry.table->name != lastTableName )
+    if ( entry.table->name != lastTableName || entry.table->primaryKeys != lastTablePkeys )
     {
       std::string tableName = entry.table->name;
       lastTableName = tableName;
+      lastTablePkeys = entry.table->primaryKeys;
       tbl = tableSchema( tableName );
 
       if ( tbl.columns.size() == 0 )
diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 524e2c2..7e92791 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -391,6 +391,9 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
   else
     patchedVals = a->second;
 
+  if ( patchedVals.size() != numColumns )
+    throw GeoDiffException( "Number of columns does not match between changesets for table: " + entry.table->name );
+
   for ( size_t i = 0; i < numColumns; i++ )
   {
     if ( entry.table->primaryKeys[i] )
@@ -457,6 +460,9 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
   else
     patchedVals = a->second;
 
+  if ( patchedVals.size() != numColumns )
+    throw GeoDiffException( "Number of columns does not match between changesets for table: " + entry.table->name );
+
   ConflictFeature conflictFeature( pk, entry.table->name );
 
   for ( size_t i = 0; i < numColumns; i++ )
-- 
2.43.0


From cd25b70ed734b77a45a1d7d6c68aeac60a5b0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 20/40] fix: applyChangeset does not use old values of the
 previous update entry when the current one lacks them

---
 geodiff/src/drivers/sqlitedriver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 3c7653f..063bc49 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -780,6 +780,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
         ++conflictCount;
       }
       sqlite3_reset( stmtUpdate->get() );
+      sqlite3_clear_bindings( stmtUpdate->get() );  // do not use values of this entry in the next one
     }
     else if ( entry.op == SQLITE_DELETE )
     {
-- 
2.43.0


From 4a9198eadc7aa32b1f9a969523c35eade941af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 21/40] fix: comparison of two NULL values

---
 geodiff/src/changeset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/changeset.h b/geodiff/src/changeset.h
index 89ee970..533f69a 100644
--- a/geodiff/src/changeset.h
+++ b/geodiff/src/changeset.h
@@ -52,7 +52,7 @@ struct Value
     {
       if ( mType != other.mType )
         return false;
-      if ( mType == TypeUndefined || mType == TypeUndefined )
+      if ( mType == TypeUndefined || mType == TypeNull )
         return true;
       if ( mType == TypeInt )
         return getInt() == other.getInt();
-- 
2.43.0


From 4ed93b9ce416a960e3e55b49e2c3ed0d715063ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:39 +0000
Subject: [PATCH 22/40] fix: changes of values equal only under the collation
 of their column are not missed

---
 geodiff/src/drivers/sqlitedriver.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 063bc49..f42afa8 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -382,7 +382,8 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
     {
       if ( !exprOther.empty() )
         exprOther += " OR ";
-      exprOther += sqlitePrintf( "\"%w\".\"%w\".\"%w\" IS NOT \"%w\".\"%w\".\"%w\"",
+      // binary comparison: e.g. change of letter case in a NOCASE column is a change too
+      exprOther += sqlitePrintf( "\"%w\".\"%w\".\"%w\" IS NOT \"%w\".\"%w\".\"%w\" COLLATE BINARY",
                                  "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
     }
   }
@@ -625,7 +626,7 @@ static std::string sqlForUpdate( const std::string &tableName, const TableSchema
     if ( tbl.columns[i].isPrimaryKey )
       sql += sqlitePrintf( " \"%w\" = ?%d ", tbl.columns[i].name.c_str(), i * 3 + 1 );
     else
-      sql += sqlitePrintf( " ( ?%d = 0 OR \"%w\" IS ?%d ) ", i * 3 + 2, tbl.columns[i].name.c_str(), i * 3 + 1 );
+      sql += sqlitePrintf( " ( ?%d = 0 OR \"%w\" IS ?%d COLLATE BINARY ) ", i * 3 + 2, tbl.columns[i].name.c_str(), i * 3 + 1 );
   }
 
   return sql;
@@ -648,7 +649,7 @@ static std::string sqlForDelete( const std::string &tableName, const TableSchema
     if ( tbl.columns[i].isPrimaryKey )
       sql += sqlitePrintf( "\"%w\" = ?", tbl.columns[i].name.c_str() );
     else
-      sql += sqlitePrintf( "\"%w\" IS ?", tbl.columns[i].name.c_str() );
+      sql += sqlitePrintf( "\"%w\" IS ? COLLATE BINARY", tbl.columns[i].name.c_str() );
   }
   return sql;
 }
-- 
2.43.0


From 29b2c916e83d65ab6ec5560492ce9010c81a8e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:02 +0000
Subject: [PATCH 23/40] fix: foreign keys without explicit parent column or
 with different letter case are recognized

---
 geodiff/src/drivers/sqliteutils.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index 7548c3c..b0c3cda 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -295,6 +295,18 @@ void sqliteTriggers( std::shared_ptr<Sqlite3Db> db, std::vector<std::string> &tr
 }
 
 
+//! Returns index of a column with the name (column names are not case sensitive), -1 if there is no such column
+static int indexOfColumn( const std::vector<std::string> &columnNames, const char *name )
+{
+  for ( size_t i = 0; i < columnNames.size(); ++i )
+  {
+    if ( sqlite3_stricmp( columnNames[i].c_str(), name ) == 0 )
+      return static_cast<int>( i );
+  }
+  return -1;
+}
+
+
 ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string &dbName )
 {
   std::vector<std::string> fromTableNames;
@@ -314,18 +326,19 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
         const char *fk_from = ( const char * )sqlite3_column_text( pStmt.get(), 3 );
         const char *fk_to = ( const char * )sqlite3_column_text( pStmt.get(), 4 );
 
-        if ( fk_to_table && fk_from && fk_to )
+        if ( fk_to_table && fk_from )
         {
           // TODO: this part is not speed-optimized and could be slower for databases with a lot of
           // columns and/or foreign keys. For each entry we grab column names again
           // and we search for index of value in plain std::vector array...
           std::vector<std::string> fromColumnNames = sqliteColumnNames( db, dbName, fromTableName );
-          int fk_from_id = indexOf( fromColumnNames, fk_from );
+          int fk_from_id = indexOfColumn( fromColumnNames, fk_from );
           if ( fk_from_id < 0 )
             continue;
 
           std::vector<std::string> toColumnNames = sqliteColumnNames( db, dbName, fk_to_table );
-          int fk_to_id = indexOf( toColumnNames, fk_to );
+          // parent column is NULL when the foreign key refers to the primary key of the parent table (listed first)
+          int fk_to_id = fk_to ? indexOfColumn( toColumnNames, fk_to ) : sqlite3_column_int( pStmt.get(), 1 );
           if ( fk_to_id < 0 )
             continue;
 
-- 
2.43.0


From 567fc563976f4440aa34d2bdfc5084fefee685e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 24/40] fix: an inserted row with key -1 does not clash with
 the mark of deleted rows in rebase

---
 geodiff/src/geodiffrebase.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 7e92791..082c7f3 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -303,11 +303,16 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
   for ( auto pair : mapping.unmappedInsertIds )
   {
     std::string tableName = pair.first;
+    const TableRebaseInfo &tableInfo = dbInfo.tables.at( tableName );
 
     // make a set of all new pkeys
     std::set<int64_t> usedNewPkeys;
     for ( auto oldNewPair : mapping.mapIds[tableName] )
-      usedNewPkeys.insert( oldNewPair.second );
+    {
+      // deleted rows are no new keys (INVALID_FID is a valid key of an inserted row)
+      if ( tableInfo.deleted.find( oldNewPair.first ) == tableInfo.deleted.end() )
+        usedNewPkeys.insert( oldNewPair.second );
+    }
 
     std::set<int64_t> pkeys = pair.second;
     for ( int64_t pk : pkeys )
-- 
2.43.0


From 3a7035ee0f4acab2046c17d158568c6b86905835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 25/40] fix: a conflict file of an earlier call is removed by
 all rebase functions

---
 geodiff/src/geodiff.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index df5a4e3..755a541 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -203,6 +203,7 @@ int GEODIFF_createRebasedChangesetEx( const char *driverName,
     Logger::instance().error( "NULL arguments to GEODIFF_createRebasedChangesetEx" );
     return GEODIFF_ERROR;
   }
+  fileremove( conflictfile );
 
   // TODO: use driverName + driverExtraInfo + base when creating rebased
   // changeset (e.g. to check whether a newly created ID is actually free)
@@ -414,6 +415,7 @@ int GEODIFF_rebaseEx( const char *driverName,
     Logger::instance().error( "NULL arguments to GEODIFF_rebaseEx" );
     return GEODIFF_ERROR;
   }
+  fileremove( conflictfile );
 
   try
   {
-- 
2.43.0


From 46dc10618e633f1383e52fc07c25ae8a3dd539f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:53 +0000
Subject: [PATCH 26/40] fix: conflict file names the text primary key of a row
 instead of its hash

---
 geodiff/src/changesetutils.cpp | 5 ++++-
 geodiff/src/geodiffrebase.cpp  | 4 +++-
 geodiff/src/geodiffutils.cpp   | 4 ++--
 geodiff/src/geodiffutils.hpp   | 6 +++---
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 8bbad04..9c22d0c 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -264,7 +264,10 @@ std::string conflictToJSON( const ConflictFeature &conflict )
   std::string res = "      {\n";
   res += "        \"table\": " + escapeJSONString( conflict.tableName() ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
-  res += "        \"fid\": \"" + std::to_string( conflict.pk() ) + "\",\n";
+  if ( conflict.pk().type() == Value::TypeText )
+    res += "        \"fid\": " + escapeJSONString( conflict.pk().getString() ) + ",\n";
+  else
+    res += "        \"fid\": \"" + valueToJSON( conflict.pk() ) + "\",\n";
   res += "        \"changes\": [";
   bool first = true;
 
diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 082c7f3..8d6e6d4 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -468,7 +468,9 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
   if ( patchedVals.size() != numColumns )
     throw GeoDiffException( "Number of columns does not match between changesets for table: " + entry.table->name );
 
-  ConflictFeature conflictFeature( pk, entry.table->name );
+  int nPkeyColumn;
+  get_primary_key( entry, pk, nPkeyColumn );
+  ConflictFeature conflictFeature( entry.oldValues[nPkeyColumn], entry.table->name );
 
   for ( size_t i = 0; i < numColumns; i++ )
   {
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 14fa3dd..be4534c 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -540,7 +540,7 @@ const char *TmpFile::c_path() const
   return mPath.c_str();
 }
 
-ConflictFeature::ConflictFeature( int64_t pk,
+ConflictFeature::ConflictFeature( const Value &pk,
                                   const std::string &tableName )
   : mPk( pk )
   , mTableName( tableName )
@@ -562,7 +562,7 @@ std::string ConflictFeature::tableName() const
   return mTableName;
 }
 
-int64_t ConflictFeature::pk() const
+const Value &ConflictFeature::pk() const
 {
   return mPk;
 }
diff --git a/geodiff/src/geodiffutils.hpp b/geodiff/src/geodiffutils.hpp
index 6d18599..02b56ee 100644
--- a/geodiff/src/geodiffutils.hpp
+++ b/geodiff/src/geodiffutils.hpp
@@ -167,15 +167,15 @@ class ConflictItem
 class ConflictFeature
 {
   public:
-    ConflictFeature( int64_t pk,
+    ConflictFeature( const Value &pk,
                      const std::string &tableName );
     bool isValid() const;
     void addItem( const ConflictItem &item );
     std::string tableName() const;
-    int64_t pk() const;
+    const Value &pk() const;
     std::vector<ConflictItem> items() const;
   private:
-    int64_t mPk;
+    Value mPk;
     std::string mTableName;
     std::vector<ConflictItem> mItems;
 };
-- 
2.43.0


From df02a863de82070c56ddaf6ba9ed1e0bfe0c2463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:46 +0000
Subject: [PATCH 27/40] fix: rebase logs an error when the output file cannot
 be written

---
 geodiff/src/geodiffrebase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 8d6e6d4..92a332b 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -548,7 +548,7 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
   ChangesetWriter writer;
   if ( !writer.open( changesetNew ) )
   {
-    std::cout << "unable to open file for writing " << changesetNew << std::endl;
+    Logger::instance().error( "Unable to open changeset file for writing: " + changesetNew );
     return GEODIFF_ERROR;
   }
 
-- 
2.43.0


From bf038f0d59d1f6bb3a0521a76e6247e43cf98170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 28/40] fix: rebaseEx and createRebasedChangesetEx report an
 unknown driver also when it is not needed

---
 geodiff/src/geodiff.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 755a541..1e6e28b 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -212,6 +212,9 @@ int GEODIFF_createRebasedChangesetEx( const char *driverName,
 
   try
   {
+    if ( !Driver::createDriver( std::string( driverName ) ) )
+      throw GeoDiffException( "Unable to use driver: " + std::string( driverName ) );
+
     std::vector<ConflictFeature> conflicts;
     int rc = rebase( base2their, rebased, base2modified, conflicts );
     if ( rc == GEODIFF_SUCCESS )
@@ -419,6 +422,9 @@ int GEODIFF_rebaseEx( const char *driverName,
 
   try
   {
+    if ( !Driver::createDriver( std::string( driverName ) ) )
+      throw GeoDiffException( "Unable to use driver: " + std::string( driverName ) );
+
     std::string root = tmpdir() + "geodiff_" + randomString( 6 );
 
     // situation 1: base2theirs is null, so we do not need rebase. modified is already fine
-- 
2.43.0


From a35ebc274cb066bdf44cb4b6962cda6f69b50d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:51 +0000
Subject: [PATCH 29/40] fix: applyChangeset stops when SQLite rolled back its
 transaction, and when triggers cannot be dropped or recreated

---
 geodiff/src/drivers/sqlitedriver.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index f42afa8..7755570 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -675,6 +675,16 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
 }
 
 
+/**
+ * Some errors (e.g. I/O error, disk full) make SQLite roll back the whole transaction:
+ * further changes would not be part of it anymore, and so they must not be done.
+ */
+static void checkInTransaction( std::shared_ptr<Sqlite3Db> db )
+{
+  if ( sqlite3_get_autocommit( db->get() ) )
+    throw GeoDiffException( "Changes were rolled back because of an error: " + std::string( sqlite3_errmsg( db->get() ) ) );
+}
+
 void SqliteDriver::applyChangeset( ChangesetReader &reader )
 {
   std::string lastTableName;
@@ -702,7 +712,8 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   for ( std::string name : triggerNames )
   {
     statament.prepare( mDb, "drop trigger \"%w\"", name.c_str() );
-    sqlite3_step( statament.get() );
+    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
+      throw GeoDiffException( "Failed to drop trigger " + name + ": " + std::string( sqlite3_errmsg( mDb->get() ) ) );
     statament.close();
   }
 
@@ -737,6 +748,8 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
 
       stmtDelete.reset( new Sqlite3Stmt );
       stmtDelete->prepare( mDb, sqlForDelete( tableName, tbl ) );
+
+      checkInTransaction( mDb );
     }
 
     if ( entry.op == SQLITE_INSERT )
@@ -806,13 +819,16 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
     }
     else
       throw GeoDiffException( "Unexpected operation" );
+
+    checkInTransaction( mDb );
   }
 
   // recreate triggers
   for ( std::string cmd : triggerCmds )
   {
     statament.prepare( mDb, "%s", cmd.c_str() );
-    sqlite3_step( statament.get() );
+    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
+      throw GeoDiffException( "Failed to recreate trigger: " + std::string( sqlite3_errmsg( mDb->get() ) ) );
     statament.close();
   }
 
-- 
2.43.0


From 20425e70e8c8d305c453f02309cf88c2039bf53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 30/40] fix: changes between an integer and a real number of
 the same value are not missed

---
 geodiff/src/drivers/sqlitedriver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 7755570..3334c7d 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -382,8 +382,10 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
     {
       if ( !exprOther.empty() )
         exprOther += " OR ";
-      // binary comparison: e.g. change of letter case in a NOCASE column is a change too
-      exprOther += sqlitePrintf( "\"%w\".\"%w\".\"%w\" IS NOT \"%w\".\"%w\".\"%w\" COLLATE BINARY",
+      // binary comparison: e.g. change of letter case in a NOCASE column is a change too,
+      // and so is the change between an integer and a real number of the same value
+      exprOther += sqlitePrintf( "(\"%w\".\"%w\".\"%w\" IS NOT \"%w\".\"%w\".\"%w\" COLLATE BINARY OR typeof(\"%w\".\"%w\".\"%w\") <> typeof(\"%w\".\"%w\".\"%w\"))",
+                                 "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str(),
                                  "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
     }
   }
-- 
2.43.0


From 2ab01a654a33568dc225e37f0134aabe8a4d0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 31/40] fix: foreign keys to a table or column that does not
 exist are noticed too

---
 geodiff/src/drivers/sqliteutils.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index b0c3cda..fa07017 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -338,9 +338,8 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
 
           std::vector<std::string> toColumnNames = sqliteColumnNames( db, dbName, fk_to_table );
           // parent column is NULL when the foreign key refers to the primary key of the parent table (listed first)
+          // (a parent table or column that does not exist gives -1, it is a foreign key nevertheless)
           int fk_to_id = fk_to ? indexOfColumn( toColumnNames, fk_to ) : sqlite3_column_int( pStmt.get(), 1 );
-          if ( fk_to_id < 0 )
-            continue;
 
           TableColumn from( fromTableName, fk_from_id );
           TableColumn to( fk_to_table, fk_to_id );
-- 
2.43.0


From cf712681fe21c4959c5aba821085e597e70c51ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 32/40] fix: generated columns do not mix up the values of the
 other columns

---
 geodiff/src/drivers/sqlitedriver.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 3334c7d..2efaf59 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -343,6 +343,19 @@ static std::string sqlitePrintf( const char *zFormat, ... )
   return res;
 }
 
+//! Constructs comma separated list of the columns of the schema (which "*" may not give: there can be generated columns too)
+static std::string sqlColumns( const std::string &dbName, const std::string &tableName, const TableSchema &tbl )
+{
+  std::string sql;
+  for ( const TableColumnInfo &c : tbl.columns )
+  {
+    if ( !sql.empty() )
+      sql += ", ";
+    sql += sqlitePrintf( "\"%w\".\"%w\".\"%w\"", dbName.c_str(), tableName.c_str(), c.name.c_str() );
+  }
+  return sql;
+}
+
 //! Constructs SQL query to get all rows that do not exist in the other table (used for insert and delete)
 static std::string sqlFindInserted( const std::string &tableName, const TableSchema &tbl, bool reverse )
 {
@@ -358,7 +371,8 @@ static std::string sqlFindInserted( const std::string &tableName, const TableSch
     }
   }
 
-  std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s)",
+  std::string sql = sqlitePrintf( "SELECT %s FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s)",
+                                  sqlColumns( reverse ? "aux" : "main", tableName, tbl ).c_str(),
                                   reverse ? "aux" : "main", tableName.c_str(),
                                   reverse ? "main" : "aux", tableName.c_str(), exprPk.c_str() );
   return sql;
@@ -393,7 +407,8 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
   if ( exprOther.empty() )
     exprOther = "0";  // all columns are in the primary key - there can't be any updates
 
-  std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
+  std::string sql = sqlitePrintf( "SELECT %s, %s FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
+                                  sqlColumns( "main", tableName, tbl ).c_str(), sqlColumns( "aux", tableName, tbl ).c_str(),
                                   "main", tableName.c_str(), "aux", tableName.c_str(), exprPk.c_str(), exprOther.c_str() );
   return sql;
 }
@@ -976,7 +991,7 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
 
     bool first = true;
     Sqlite3Stmt statementI;
-    statementI.prepare( mDb, "SELECT * FROM \"%w\".\"%w\"", dbName.c_str(), tableName.c_str() );
+    statementI.prepare( mDb, "SELECT %s FROM \"%w\".\"%w\"", sqlColumns( dbName, tableName, tbl ).c_str(), dbName.c_str(), tableName.c_str() );
     while ( statementI.nextRow() )
     {
       if ( first )
-- 
2.43.0


From 51444835dae3af613dc9d5a993dd9113c2652c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 33/40] fix: rows with NULL in the primary key do not make
 changesets of equal databases, or ones that cannot be applied

---
 geodiff/src/drivers/sqlitedriver.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 2efaf59..ca779b6 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -356,6 +356,21 @@ static std::string sqlColumns( const std::string &dbName, const std::string &tab
   return sql;
 }
 
+//! Constructs SQL condition that leaves out rows with NULL in the primary key: they can't be identified (sqlite3session ignores them too)
+static std::string sqlHasKey( const std::string &dbName, const std::string &tableName, const TableSchema &tbl )
+{
+  std::string sql;
+  for ( const TableColumnInfo &c : tbl.columns )
+  {
+    if ( !c.isPrimaryKey )
+      continue;
+    if ( !sql.empty() )
+      sql += " AND ";
+    sql += sqlitePrintf( "\"%w\".\"%w\".\"%w\" IS NOT NULL", dbName.c_str(), tableName.c_str(), c.name.c_str() );
+  }
+  return sql;
+}
+
 //! Constructs SQL query to get all rows that do not exist in the other table (used for insert and delete)
 static std::string sqlFindInserted( const std::string &tableName, const TableSchema &tbl, bool reverse )
 {
@@ -371,10 +386,11 @@ static std::string sqlFindInserted( const std::string &tableName, const TableSch
     }
   }
 
-  std::string sql = sqlitePrintf( "SELECT %s FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s)",
+  std::string sql = sqlitePrintf( "SELECT %s FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s) AND %s",
                                   sqlColumns( reverse ? "aux" : "main", tableName, tbl ).c_str(),
                                   reverse ? "aux" : "main", tableName.c_str(),
-                                  reverse ? "main" : "aux", tableName.c_str(), exprPk.c_str() );
+                                  reverse ? "main" : "aux", tableName.c_str(), exprPk.c_str(),
+                                  sqlHasKey( reverse ? "aux" : "main", tableName, tbl ).c_str() );
   return sql;
 }
 
@@ -991,7 +1007,8 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
 
     bool first = true;
     Sqlite3Stmt statementI;
-    statementI.prepare( mDb, "SELECT %s FROM \"%w\".\"%w\"", sqlColumns( dbName, tableName, tbl ).c_str(), dbName.c_str(), tableName.c_str() );
+    statementI.prepare( mDb, "SELECT %s FROM \"%w\".\"%w\" WHERE %s", sqlColumns( dbName, tableName, tbl ).c_str(), dbName.c_str(), tableName.c_str(),
+                        sqlHasKey( dbName, tableName, tbl ).c_str() );
     while ( statementI.nextRow() )
     {
       if ( first )
-- 
2.43.0


From 4d465dde55e14fe16fbfa7ac07aa55732f5c4eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 34/40] fix: refuse a conflicting row when applying, whatever
 ON CONFLICT clauses the table has

INSERT and UPDATE statements of applyChangeset followed the ON CONFLICT
clauses of the table's constraints, so that with REPLACE a conflicting
entry silently deleted or overwrote other rows instead of being reported.
---
 geodiff/src/drivers/sqlitedriver.cpp | 31 ++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index ca779b6..b5416c9 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -594,7 +594,24 @@ void SqliteDriver::createChangeset( ChangesetWriter &writer )
 
 }
 
-static std::string sqlForInsert( const std::string &tableName, const TableSchema &tbl )
+/**
+ * Returns conflict clause for INSERT and UPDATE statements: a conflicting row has to be reported, even if a constraint
+ * of the table has ON CONFLICT clause that would quietly replace other rows or ignore the new one.
+ *
+ * SQLite would use the clause also for statements within triggers. That must not happen: triggers of GeoPackage
+ * spatial index rely on INSERT OR REPLACE. So there is no clause for tables with triggers.
+ */
+static std::string conflictClause( std::shared_ptr<Sqlite3Db> db, const std::string &tableName )
+{
+  Sqlite3Stmt stmt;
+  stmt.prepare( db, "SELECT 1 FROM sqlite_master WHERE type = 'trigger' AND tbl_name = '%q' COLLATE NOCASE", tableName.c_str() );
+  int rc = sqlite3_step( stmt.get() );
+  if ( rc != SQLITE_ROW && rc != SQLITE_DONE )
+    throw GeoDiffException( "Failed to look for triggers of table " + tableName + ": " + std::string( sqlite3_errmsg( db->get() ) ) );
+  return rc == SQLITE_ROW ? "" : " OR ABORT";
+}
+
+static std::string sqlForInsert( const std::string &tableName, const TableSchema &tbl, const std::string &conflictClause )
 {
   /*
    * For a table defined like this: CREATE TABLE x(a, b, c, d, PRIMARY KEY(a, c));
@@ -603,7 +620,7 @@ static std::string sqlForInsert( const std::string &tableName, const TableSchema
    */
 
   std::string sql;
-  sql += sqlitePrintf( "INSERT INTO \"%w\" (", tableName.c_str() );
+  sql += sqlitePrintf( "INSERT%s INTO \"%w\" (", conflictClause.c_str(), tableName.c_str() );
   for ( size_t i = 0; i < tbl.columns.size(); ++i )
   {
     if ( i > 0 )
@@ -621,7 +638,7 @@ static std::string sqlForInsert( const std::string &tableName, const TableSchema
   return sql;
 }
 
-static std::string sqlForUpdate( const std::string &tableName, const TableSchema &tbl )
+static std::string sqlForUpdate( const std::string &tableName, const TableSchema &tbl, const std::string &conflictClause )
 {
   /*
   ** For a table defined like this: CREATE TABLE x(a, b, c, d, PRIMARY KEY(a, c));
@@ -643,7 +660,7 @@ static std::string sqlForUpdate( const std::string &tableName, const TableSchema
   */
 
   std::string sql;
-  sql += sqlitePrintf( "UPDATE \"%w\" SET ", tableName.c_str() );
+  sql += sqlitePrintf( "UPDATE%s \"%w\" SET ", conflictClause.c_str(), tableName.c_str() );
 
   for ( size_t i = 0; i < tbl.columns.size(); ++i )
   {
@@ -773,11 +790,13 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
           throw GeoDiffException( "Mismatch of primary keys in table: " + tableName );
       }
 
+      const std::string onConflict = conflictClause( mDb, tableName );
+
       stmtInsert.reset( new Sqlite3Stmt );
-      stmtInsert->prepare( mDb, sqlForInsert( tableName, tbl ) );
+      stmtInsert->prepare( mDb, sqlForInsert( tableName, tbl, onConflict ) );
 
       stmtUpdate.reset( new Sqlite3Stmt );
-      stmtUpdate->prepare( mDb, sqlForUpdate( tableName, tbl ) );
+      stmtUpdate->prepare( mDb, sqlForUpdate( tableName, tbl, onConflict ) );
 
       stmtDelete.reset( new Sqlite3Stmt );
       stmtDelete->prepare( mDb, sqlForDelete( tableName, tbl ) );
-- 
2.43.0


From c6b15d1244756e9713960327adc174f574c6b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 35/40] fix: real numbers in JSON do not depend on the locale

---
 geodiff/src/changesetutils.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 9c22d0c..9fe414c 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -11,6 +11,9 @@
 #include "changesetwriter.h"
 #include "tableschema.h"
 
+#include <locale>
+#include <sstream>
+
 
 ChangesetTable schemaToChangesetTable( const std::string &tableName, const TableSchema &tbl )
 {
@@ -105,7 +108,13 @@ std::string valueToJSON( const Value &value )
     case Value::TypeInt:
       return std::to_string( value.getInt() );
     case Value::TypeDouble:
-      return std::to_string( value.getDouble() );
+    {
+      // std::to_string() would use the decimal point of the current locale
+      std::ostringstream stream;
+      stream.imbue( std::locale::classic() );
+      stream << std::fixed << value.getDouble();
+      return stream.str();
+    }
     case Value::TypeText:
       return escapeJSONString( value.getString() );
     case Value::TypeBlob:
-- 
2.43.0


From 9428d969676948fb984b1ab5f69d4c962af9afd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 36/40] fix: copying a changeset reported success when it could
 only be written in part

---
 geodiff/src/geodiffutils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index be4534c..cff1b64 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -292,10 +292,12 @@ void filecopy( const std::string &to, const std::string &from )
   std::ifstream  src( from, std::ios::binary );
   std::ofstream  dst( to,   std::ios::binary );
 
+  // after a failed write there is something left to read
   if ( src.is_open() && src.peek() != std::ifstream::traits_type::eof() )
     dst << src.rdbuf();
+  bool complete = src.is_open() && src.peek() == std::ifstream::traits_type::eof();
   dst.close();
-  if ( !src.is_open() || src.bad() || dst.fail() )
+  if ( !complete || src.bad() || dst.fail() )
     throw GeoDiffException( "Unable to copy " + from + " to " + to );
 #endif
 }
-- 
2.43.0


From bf183b3034d227341b07c166745a16935e246647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 37/40] fix: rows with text primary keys do not get the key
 that an earlier rebase has given to a row

---
 geodiff/src/geodiffrebase.cpp | 41 +++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 92a332b..69626fb 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -18,6 +18,7 @@
 #include <ctype.h>
 #include <string.h>
 #include <algorithm>
+#include <limits>
 #include <functional>
 #include <iostream>
 #include <string>
@@ -36,6 +37,7 @@
 struct TableRebaseInfo
 {
   std::set<int64_t> inserted;           //!< pkeys that were inserted
+  std::set<int64_t> notFree;            //!< pkeys that were inserted, and numbers that text pkeys look like
   std::set<int64_t> deleted;            //!< pkeys that were deleted
   std::map<int64_t, std::vector<Value> > updated;  //!< new column values for each recorded row (identified by pkey)
 
@@ -100,12 +102,12 @@ struct RebaseMapping
   // table name -> old fid --> new fid
   std::map<std::string, std::map < int64_t, int64_t > > mapIds;
 
-  // table name -> set of fids of inserts that have been untouched
+  // table name -> set of fids of inserts that have been untouched (after the number that the key looks like)
   // (this is important because our mapping could cause FID conflicts
   // with FIDs that weren't previously in conflict, e.g. if 4,5,6
   // get mapped 4->6, 5->7 then the original 6 will need to be remapped
   // too: 6->8)
-  std::map<std::string, std::set<int64_t> > unmappedInsertIds;
+  std::map<std::string, std::set<std::pair<int64_t, int64_t> > > unmappedInsertIds;
 
   // special pkey value for deleted rows
   static const int64_t INVALID_FID = -1;
@@ -201,6 +203,29 @@ int64_t _get_primary_key( const ChangesetEntry &entry )
 }
 
 
+/**
+ * Returns the number that the primary key of an inserted row would clash with. Text keys are identified
+ * by a hash, but a row that got a new key in an earlier rebase has a number as its key, in a column of
+ * type TEXT written as text.
+ */
+int64_t _get_primary_key_number( const ChangesetEntry &entry )
+{
+  int64_t fid;
+  int nFidColumn;
+  get_primary_key( entry, fid, nFidColumn );
+
+  const Value &value = entry.newValues[nFidColumn];
+  if ( value.type() == Value::TypeText )
+  {
+    std::string str = value.getString();
+    int64_t number = strtoll( str.c_str(), nullptr, 10 );
+    if ( number < std::numeric_limits<int64_t>::max() && std::to_string( number ) == str )
+      return number;
+  }
+  return fid;
+}
+
+
 int _parse_old_changeset( ChangesetReader &reader_BASE_THEIRS, DatabaseRebaseInfo &dbInfo )
 {
   ChangesetEntry entry;
@@ -213,6 +238,8 @@ int _parse_old_changeset( ChangesetReader &reader_BASE_THEIRS, DatabaseRebaseInf
     if ( entry.op == ChangesetEntry::OpInsert )
     {
       tableInfo.inserted.insert( pk );
+      tableInfo.notFree.insert( pk );
+      tableInfo.notFree.insert( _get_primary_key_number( entry ) );
     }
     if ( entry.op == ChangesetEntry::OpDelete )
     {
@@ -237,7 +264,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
   std::map<std::string, int64_t> freeIndices;
   for ( auto mapId : dbInfo.tables )
   {
-    const std::set < int64_t > &oldSet = mapId.second.inserted;
+    const std::set < int64_t > &oldSet = mapId.second.notFree;
     if ( oldSet.empty() )
       continue;  // TODO: or set 0 to free indices??
 
@@ -273,7 +300,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
       else
       {
         // keep IDs of inserts later - we may need to remap them too
-        mapping.unmappedInsertIds[tableName].insert( pk );
+        mapping.unmappedInsertIds[tableName].insert( { _get_primary_key_number( entry ), pk } );
       }
     }
     else if ( entry.op == ChangesetEntry::OpUpdate )
@@ -314,10 +341,10 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
         usedNewPkeys.insert( oldNewPair.second );
     }
 
-    std::set<int64_t> pkeys = pair.second;
-    for ( int64_t pk : pkeys )
+    for ( auto numberPkey : pair.second )
     {
-      if ( usedNewPkeys.find( pk ) != usedNewPkeys.end() )
+      int64_t pk = numberPkey.second;
+      if ( usedNewPkeys.find( numberPkey.first ) != usedNewPkeys.end() )
       {
         // our mapping has previously introduced a new conflict in IDs -> remap this old pkey as well
 
-- 
2.43.0


From 6e86362c5bbf9a0d8539b4e0c6c7b865cba922d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:19 +0000
Subject: [PATCH 38/40] fix: infinite real numbers make JSON listings and
 conflict files invalid

---
 geodiff/src/changesetutils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 9fe414c..c3e00fb 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -11,6 +11,7 @@
 #include "changesetwriter.h"
 #include "tableschema.h"
 
+#include <cmath>
 #include <locale>
 #include <sstream>
 
@@ -109,6 +110,12 @@ std::string valueToJSON( const Value &value )
       return std::to_string( value.getInt() );
     case Value::TypeDouble:
     {
+      // there is no infinity or NaN in JSON (a number out of range is read as infinity)
+      if ( std::isnan( value.getDouble() ) )
+        return "null";
+      if ( std::isinf( value.getDouble() ) )
+        return value.getDouble() > 0 ? "9e999" : "-9e999";
+
       // std::to_string() would use the decimal point of the current locale
       std::ostringstream stream;
       stream.imbue( std::locale::classic() );
-- 
2.43.0


From 4df7c7b23148e563642939c6ed3dea1eeff582c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:32 +0000
Subject: [PATCH 39/40] fix: rebase does not use names of files of the user for
 its temporary files

createRebasedChangeset overwrote and deleted <changeset>_BASE_MODIFIED, rebase
<modified>_base2theirs.bin. Use unique names in the temporary directory like
the other calls.
---
 geodiff/src/geodiff.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 1e6e28b..e964b09 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -176,7 +176,7 @@ int GEODIFF_createRebasedChangeset( const char *base,
       driver->checkCompatibleForRebase();  // will throw GeoDiffException in case of problems
     }
 
-    TmpFile changeset_BASE_MODIFIED( std::string( changeset ) + "_BASE_MODIFIED" );
+    TmpFile changeset_BASE_MODIFIED( tmpdir() + "geodiff_" + randomString( 6 ) + "_BASE_MODIFIED" );
     int rc = GEODIFF_createChangeset( base, modified, changeset_BASE_MODIFIED.c_path() );
     if ( rc != GEODIFF_SUCCESS )
       return rc;
@@ -393,7 +393,7 @@ int GEODIFF_rebase( const char *base,
     return GEODIFF_ERROR;
   }
 
-  std::string root = std::string( modified );
+  std::string root = tmpdir() + "geodiff_" + randomString( 6 );
 
   TmpFile base2theirs( root + "_base2theirs.bin" );
   if ( GEODIFF_createChangeset( base, modified_their, base2theirs.c_path() ) != GEODIFF_SUCCESS )
-- 
2.43.0


From 2076aa6eb365351010df7ae8c4f31efcddf7a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:32 +0000
Subject: [PATCH 40/40] fix: internal tables of SQLite (e.g. statistics of
 ANALYZE) are not compared

createChangeset failed when only one of the databases had them.
---
 geodiff/src/drivers/sqlitedriver.cpp | 4 ++--
 geodiff/src/drivers/sqliteutils.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index b5416c9..084274b 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -206,8 +206,8 @@ std::vector<std::string> SqliteDriver::listTables( bool useModified )
     // table handled by triggers rtree_*_geometry_*
     if ( startsWith( tableName, "rtree_" ) )
       continue;
-    // internal table for AUTOINCREMENT
-    if ( tableName == "sqlite_sequence" )
+    // internal tables of SQLite (e.g. for AUTOINCREMENT or statistics of ANALYZE)
+    if ( startsWith( tableName, "sqlite_" ) )
       continue;
 
     tableNames.push_back( tableName );
diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index fa07017..45ed932 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -392,8 +392,8 @@ void sqliteTables( std::shared_ptr<Sqlite3Db> db,
     // table handled by triggers rtree_*_geometry_*
     if ( startsWith( tableName, "rtree_" ) )
       continue;
-    // internal table for AUTOINCREMENT
-    if ( tableName == "sqlite_sequence" )
+    // internal tables of SQLite (e.g. for AUTOINCREMENT or statistics of ANALYZE)
+    if ( startsWith( tableName, "sqlite_" ) )
       continue;
 
     tableNames.push_back( tableName );
-- 
2.43.0

