From df2c590f9c79201217b3668b1e18dd7712928585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 1/4] fix: undo a failed node announcement by dropping exactly
 the added node

Context::add_node_graph() rolled back by name, which removed the first node with
that name and namespace (and its endpoints) when one already existed.
---
 rmw_dds_common/src/context.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rmw_dds_common/src/context.cpp b/rmw_dds_common/src/context.cpp
index a6f8b16..96f4e94 100644
--- a/rmw_dds_common/src/context.cpp
+++ b/rmw_dds_common/src/context.cpp
@@ -45,7 +45,10 @@ rmw_ret_t Context::add_node_graph(
     graph_cache.add_node(gid, name, namespace_);
 
   if (!call_publish_callback(pub, publish_callback, msg)) {
-    graph_cache.remove_node(gid, name, namespace_);
+    // Drop the node that was just appended. Removing it by name could remove an already
+    // existing node with the same name and namespace, including its endpoints.
+    msg.node_entities_info_seq.pop_back();
+    graph_cache.update_participant_entities(msg);
     return RMW_RET_ERROR;
   }
 
-- 
2.43.0


From 0ad6b56cd459cb87adbdffd72e969ab9f7adaa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 2/4] fix: do not keep attributes of a previous lookup in the
 security files result

A successful lookup of an enclave without a CRL left the CRL (or any other
entry) of an earlier lookup in a reused result map.
---
 rmw_dds_common/src/security.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmw_dds_common/src/security.cpp b/rmw_dds_common/src/security.cpp
index c480d1a..31fbc29 100644
--- a/rmw_dds_common/src/security.cpp
+++ b/rmw_dds_common/src/security.cpp
@@ -116,6 +116,9 @@ bool get_security_files(
     {"CRL", "crl.pem"},
   };
 
+  // Do not mix in attributes found by a previous lookup
+  result.clear();
+
   for (const std::pair<const std::string,
     std::vector<std::pair<std::string, security_file_processor>>> & el : required_files)
   {
-- 
2.43.0


From 90f0f6bc35ad5d43d480314628d0d39ebdf25e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 3/4] fix: report inaccessible security files as missing
 instead of throwing

std::filesystem::is_regular_file() without an error code throws for instance on
a link loop, an over-long path or a directory that must not be searched.
---
 rmw_dds_common/src/security.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rmw_dds_common/src/security.cpp b/rmw_dds_common/src/security.cpp
index 31fbc29..c32f774 100644
--- a/rmw_dds_common/src/security.cpp
+++ b/rmw_dds_common/src/security.cpp
@@ -16,6 +16,7 @@
 #include <fstream>
 #include <functional>
 #include <string>
+#include <system_error>
 #include <utility>
 #include <unordered_map>
 #include <vector>
@@ -32,7 +33,9 @@ static bool process_file_uri_security_file(
   const std::filesystem::path & full_path,
   std::string & result)
 {
-  if (!std::filesystem::is_regular_file(full_path)) {
+  // The error code overload reports any failure to access the file as "not a regular file"
+  std::error_code ec;
+  if (!std::filesystem::is_regular_file(full_path, ec)) {
     return false;
   }
   result = prefix + full_path.generic_string();
@@ -142,7 +145,8 @@ bool get_security_files(
   for (const std::pair<const std::string, std::string> & el : optional_files) {
     std::filesystem::path full_path(secure_root);
     full_path /= el.second;
-    if (std::filesystem::is_regular_file(full_path)) {
+    std::error_code ec;
+    if (std::filesystem::is_regular_file(full_path, ec)) {
       result[el.first] = prefix + full_path.generic_string();
     }
   }
-- 
2.43.0


From 131ada81a234986d7ba8b1409dc26feea3179df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 4/4] fix: do not open a .p11 entry that is not a regular file
 (a pipe blocks the lookup)

---
 rmw_dds_common/src/security.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rmw_dds_common/src/security.cpp b/rmw_dds_common/src/security.cpp
index c32f774..502b3cc 100644
--- a/rmw_dds_common/src/security.cpp
+++ b/rmw_dds_common/src/security.cpp
@@ -55,6 +55,12 @@ static bool process_pkcs_uri_security_file(
 
   const std::string p11_prefix("pkcs11:");
 
+  // Opening anything but a regular file may block (a pipe) or never end (a device)
+  std::error_code ec;
+  if (!std::filesystem::is_regular_file(full_path, ec)) {
+    return false;
+  }
+
   std::ifstream ifs(full_path);
   if (!ifs.is_open()) {
     return false;
-- 
2.43.0

