From 8eba1f0c44092ccd8fb14f0ace977a79aab7de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:27 +0000
Subject: [PATCH 01/19] fix: html_parser: initialise attribute length and quote
 for attributes without a value

---
 src/html_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index 95db7c7..142d7f7 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -113,6 +113,8 @@ int mp::HTMLParser::Rep::skipAttribute(HTMLParserEvent &event,
     int i = skipName(cp);
     *attr_len = i;
     *value = NULL;
+    *val_len = 0;
+    *tr = 0;
     if (!i)
         return skipSpace(cp);
     i += skipSpace(cp + i);
-- 
2.43.0


From 403f2d194e990f0d2bcb6c2ad2ba022b463c429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:27 +0000
Subject: [PATCH 02/19] fix: html_parser: do not drop a '/' that does not end a
 tag

---
 src/html_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index 142d7f7..89e9025 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -192,7 +192,7 @@ int mp::HTMLParser::Rep::tagEnd(HTMLParserEvent &event,
             printf("------ text %.*s\n", i, cp);
         event.text(cp, i);
     }
-    if (cp[i] == '/')
+    if (cp[i] == '/' && cp[i+1] == '>')
     {
         close_it = 1;
         i++;
-- 
2.43.0


From a516e517c60bf5a3fe49fade72e056cd2c65ba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:27 +0000
Subject: [PATCH 03/19] fix: html_parser: do not drop an unterminated comment

---
 src/html_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index 89e9025..2dee4b3 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -238,9 +238,9 @@ void mp::HTMLParser::Rep::parse_str(HTMLParserEvent &event, const char *cp)
                     if (cp[i] == '-' && cp[i+1] == '-' && cp[i+2] == '>')
                     {
                         i+= 2;
-                        event.openTagStart(cp, i);
                         break;
                     }
+                event.openTagStart(cp, i);
             }
             else
             {
-- 
2.43.0


From f5753fe78865d4f54f54004f0bd1bf59d6014958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:27 +0000
Subject: [PATCH 04/19] fix: html_parser: reset script state when a new
 document is parsed

---
 src/html_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index 2dee4b3..87f108f 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -223,6 +223,7 @@ void mp::HTMLParser::Rep::tagText(HTMLParserEvent &event,
 void mp::HTMLParser::Rep::parse_str(HTMLParserEvent &event, const char *cp)
 {
     const char *text_start = cp;
+    nest = true; // script state must not leak from a previous document
     while (*cp)
     {
         if (*cp++ != '<')
-- 
2.43.0


From 90a45f2f15043ccfe9c4260cc4569abdaf517101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:04 +0000
Subject: [PATCH 05/19] fix: url_recipe: strip the md- prefix only from
 variables that have it

---
 src/url_recipe.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/url_recipe.cpp b/src/url_recipe.cpp
index 3386d8f..9db10cf 100644
--- a/src/url_recipe.cpp
+++ b/src/url_recipe.cpp
@@ -110,8 +110,7 @@ std::string mp_xml::url_recipe_handle(xmlDoc *doc, std::string recipe)
         {
             std::string text;
             size_t offset = 0;
-            size_t md_pos = variable.find_first_of("md-");
-            if (md_pos == 0)
+            if (variable.compare(0, 3, "md-") == 0)
                 offset = 3;
             const xmlNode *ptr = ptr1;
             for (; ptr; ptr = ptr->next)
-- 
2.43.0


From 47c43f33eeaf0c1498bba89b086ee3318424bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:04 +0000
Subject: [PATCH 06/19] fix: router_flexml: keep the position valid when a
 route does not exist

---
 src/router_flexml.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/router_flexml.cpp b/src/router_flexml.cpp
index dad380d..ad5fdcb 100644
--- a/src/router_flexml.cpp
+++ b/src/router_flexml.cpp
@@ -454,12 +454,14 @@ const mp::filter::Base *mp::RouterFleXML::Pos::move(const char *route)
 {
     if (route && *route)
     {
-        m_route_it = m_p->m_routes.find(route);
-        if (m_route_it == m_p->m_routes.end())
+        std::map<std::string, RouterFleXML::Route>::iterator it =
+            m_p->m_routes.find(route);
+        if (it == m_p->m_routes.end())
         {
             yaz_log(YLOG_FATAL, "no such route %s", route);
             return 0;
         }
+        m_route_it = it;
         m_filter_it = m_route_it->second.m_list.begin();
     }
     if (m_filter_it == m_route_it->second.m_list.end())
-- 
2.43.0


From 50a1a28964c264f3343080274d866b3034d0543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:04 +0000
Subject: [PATCH 07/19] fix: router_flexml: reject, not ignore, other elements
 among the routes

---
 src/router_flexml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/router_flexml.cpp b/src/router_flexml.cpp
index ad5fdcb..50a265f 100644
--- a/src/router_flexml.cpp
+++ b/src/router_flexml.cpp
@@ -225,7 +225,7 @@ void mp::RouterFleXML::Rep::parse_xml_routes(xmlDocPtr doc,
     mp::xml::check_element_mp(node, "route");
 
     unsigned int route_nr = 0;
-    while (mp::xml::is_element_mp(node, "route"))
+    while (node && mp::xml::check_element_mp(node, "route"))
     {
         route_nr++;
 
-- 
2.43.0


From 422e3d2b7c961df7b77d579939028dadec3ccaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:04 +0000
Subject: [PATCH 08/19] fix: xmlutil: is_attribute must cope with a missing
 attribute

---
 src/xmlutil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xmlutil.cpp b/src/xmlutil.cpp
index 2e0442f..5315bd4 100644
--- a/src/xmlutil.cpp
+++ b/src/xmlutil.cpp
@@ -97,7 +97,7 @@ bool mp_xml::is_attribute(const _xmlAttr *ptr,
                           const std::string &ns,
                           const std::string &name)
 {
-    if (0 != xmlStrcmp(BAD_CAST name.c_str(), ptr->name))
+    if (!ptr || 0 != xmlStrcmp(BAD_CAST name.c_str(), ptr->name))
         return false;
 
     if (ns.size()
-- 
2.43.0


From c025daa4c4bd680f26040cc54460dfa4df38529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:04 +0000
Subject: [PATCH 09/19] fix: session_map: take the lock in exist()

---
 include/metaproxy/session.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/metaproxy/session.hpp b/include/metaproxy/session.hpp
index 93951eb..a713321 100644
--- a/include/metaproxy/session.hpp
+++ b/include/metaproxy/session.hpp
@@ -108,6 +108,7 @@ namespace metaproxy_1 {
         };
 #endif
         bool exist(const metaproxy_1::Session &s) {
+            boost::mutex::scoped_lock lock(m_map_mutex);
             typename std::map<metaproxy_1::Session,SessionItem>::const_iterator it;
             it = m_map.find(s);
             return it == m_map.end() ? false : true;
-- 
2.43.0


From e19b384a19b43ab8c2c66f8ea710841414d0783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:02 +0000
Subject: [PATCH 10/19] fix: origin: keep the full connection number

set_tcpip_address takes an unsigned long, but only its low 32 bits were kept.
---
 include/metaproxy/origin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/metaproxy/origin.hpp b/include/metaproxy/origin.hpp
index 658872a..d23356c 100644
--- a/include/metaproxy/origin.hpp
+++ b/include/metaproxy/origin.hpp
@@ -57,7 +57,7 @@ namespace metaproxy_1 {
         std::operator<<(std::ostream& os, const metaproxy_1::Origin& o);
 
         std::string m_address;
-        unsigned int m_origin_id;
+        unsigned long m_origin_id;
         int m_max_sockets;
         std::string m_custom_session;
         std::string get_forward_address() const;
-- 
2.43.0


From 19c733d34d3476ba17d75eb6db3d709f1fcffe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 11/19] fix: HTTP response body is copied in full

http_response used strncpy, which stops at the first zero byte and fills
the rest of the announced length with zeros.
---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index de57265..42fa934 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -122,8 +122,8 @@ void mp_util::http_response(metaproxy_1::Package &package,
     zgdu_res->u.HTTP_Response->content_buf
         = (char*) odr_malloc(odr, zgdu_res->u.HTTP_Response->content_len);
 
-    strncpy(zgdu_res->u.HTTP_Response->content_buf,
-            content.c_str(),  zgdu_res->u.HTTP_Response->content_len);
+    memcpy(zgdu_res->u.HTTP_Response->content_buf,
+           content.c_str(),  zgdu_res->u.HTTP_Response->content_len);
 
     //z_HTTP_header_add(odr, &hres->headers,
     //                  "Content-Type", content_type.c_str());
-- 
2.43.0


From 72dac1bc3c2e27fb089413349502dcb27367ade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 12/19] fix: present_chunk: keep to the records asked for

The list of records was allocated for the number the client asked for
(also when that is negative or huge) and filled with however many
records the target returned.
---
 src/filter_present_chunk.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/filter_present_chunk.cpp b/src/filter_present_chunk.cpp
index b67290c..8c52c2c 100644
--- a/src/filter_present_chunk.cpp
+++ b/src/filter_present_chunk.cpp
@@ -98,11 +98,7 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
     Odr_int total = *pr->numberOfRecordsRequested;
     Odr_int start = *pr->resultSetStartPoint;
     Odr_int offset = 0;
-    Z_NamePlusRecordList *npl = (Z_NamePlusRecordList *)
-        odr_malloc(odr, sizeof(*npl));
-    npl->num_records = total;
-    npl->records = (Z_NamePlusRecord **)
-        odr_malloc(odr, sizeof(*npl->records) * total);
+    std::vector<Z_NamePlusRecord *> records;
     while (offset < total)
     {
         Odr_int left = total - offset;
@@ -136,13 +132,13 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
                 Z_NamePlusRecordList *nprl =
                     pres->records->u.databaseOrSurDiagnostics;
                 int i;
-                for (i = 0; i < nprl->num_records; i++)
+                for (i = 0; i < nprl->num_records && offset < total; i++)
                 {
                     ODR o = odr;
-                    npl->records[offset+i] = yaz_clone_z_NamePlusRecord(
-                        nprl->records[i], o->mem);
+                    records.push_back(yaz_clone_z_NamePlusRecord(
+                                          nprl->records[i], o->mem));
+                    offset++;
                 }
-                offset += nprl->num_records;
             }
             else
             {
@@ -159,13 +155,20 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
 
     yaz_log(YLOG_LOG, "building response . %lld", offset);
 
+    Z_NamePlusRecordList *npl = (Z_NamePlusRecordList *)
+        odr_malloc(odr, sizeof(*npl));
+    npl->num_records = offset;
+    npl->records = (Z_NamePlusRecord **)
+        odr_malloc(odr, sizeof(*npl->records) * offset);
+    for (Odr_int j = 0; j < offset; j++)
+        npl->records[j] = records[j];
+
     Z_APDU *a = zget_APDU(odr, Z_APDU_presentResponse);
     Z_PresentResponse *pres = a->u.presentResponse;
     pres->records = (Z_Records *)
         odr_malloc(odr, sizeof(Z_Records));
     pres->records->which = Z_Records_DBOSD;
     pres->records->u.databaseOrSurDiagnostics = npl;
-    npl->num_records = offset;
     *pres->numberOfRecordsReturned = offset;
 
     package.response() = a;
-- 
2.43.0


From b83e6d249794e0be3ccecd6174fc55fdf4b6701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 13/19] fix: present_chunk: stop when the target has no more
 records

An empty list of records made it ask for the same records forever.
---
 src/filter_present_chunk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_present_chunk.cpp b/src/filter_present_chunk.cpp
index 8c52c2c..b361173 100644
--- a/src/filter_present_chunk.cpp
+++ b/src/filter_present_chunk.cpp
@@ -132,6 +132,8 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
                 Z_NamePlusRecordList *nprl =
                     pres->records->u.databaseOrSurDiagnostics;
                 int i;
+                if (nprl->num_records == 0)
+                    break;
                 for (i = 0; i < nprl->num_records && offset < total; i++)
                 {
                     ODR o = odr;
-- 
2.43.0


From 4c750d4f9142bf0ea05303a9a4715a76f4375536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 14/19] fix: present_chunk: keep the reference id of the
 request

---
 src/filter_present_chunk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_present_chunk.cpp b/src/filter_present_chunk.cpp
index b361173..7ec7ef2 100644
--- a/src/filter_present_chunk.cpp
+++ b/src/filter_present_chunk.cpp
@@ -165,7 +165,7 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
     for (Odr_int j = 0; j < offset; j++)
         npl->records[j] = records[j];
 
-    Z_APDU *a = zget_APDU(odr, Z_APDU_presentResponse);
+    Z_APDU *a = odr.create_APDU(Z_APDU_presentResponse, apdu);
     Z_PresentResponse *pres = a->u.presentResponse;
     pres->records = (Z_Records *)
         odr_malloc(odr, sizeof(Z_Records));
-- 
2.43.0


From ec58854393a0b6ee6ec572af17e3b487cac9fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:53 +0000
Subject: [PATCH 15/19] fix: package: copy_route copes with a package without
 position and with itself

---
 src/package.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/package.cpp b/src/package.cpp
index bd8bf7a..31fa83c 100644
--- a/src/package.cpp
+++ b/src/package.cpp
@@ -57,8 +57,9 @@ mp::Package & mp::Package::copy_filter(const Package &p)
 
 void mp::Package::copy_route(const Package &p)
 {
+    RoutePos *pos = p.m_route_pos ? p.m_route_pos->clone() : 0;
     delete m_route_pos;
-    m_route_pos = p.m_route_pos->clone();
+    m_route_pos = pos;
 }
 
 void mp::Package::move()
-- 
2.43.0


From cf153cf2b66199eb481d50f559a326d2aa7061cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:53 +0000
Subject: [PATCH 16/19] fix: package: router() gives up the position it
 replaces

---
 src/package.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/package.cpp b/src/package.cpp
index 31fa83c..8be716e 100644
--- a/src/package.cpp
+++ b/src/package.cpp
@@ -101,7 +101,9 @@ mp::Origin & mp::Package::origin()
 
 mp::Package & mp::Package::router(const mp::Router &router)
 {
-    m_route_pos = router.createpos();
+    RoutePos *pos = router.createpos();
+    delete m_route_pos;
+    m_route_pos = pos;
     return *this;
 }
 
-- 
2.43.0


From c685cf5e88c863e523a0355b3daa7dcf665dcb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:57 +0000
Subject: [PATCH 17/19] fix: auth_simple: read the users of sessions under
 their lock

---
 src/filter_auth_simple.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 2948e33..3036acc 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -314,12 +314,19 @@ void yf::AuthSimple::process_search(mp::Package &package) const
     Z_SearchRequest *req =
         package.request().get()->u.z3950->u.searchRequest;
 
-    if (m_p->userBySession.count(package.session()) == 0) {
+    std::string user;
+    {
+        boost::mutex::scoped_lock lock(m_p->mutex);
+        std::map<mp::Session, std::string>::const_iterator it =
+            m_p->userBySession.find(package.session());
+        if (it != m_p->userBySession.end())
+            user = it->second;
+    }
+    if (user.length() == 0) {
         // It's a non-authenticated session, so just accept the operation
         return package.move();
     }
 
-    std::string user = m_p->userBySession[package.session()];
     yf::AuthSimple::Rep::PasswordAndDBs pdb = m_p->userRegister[user];
     for (int i = 0; i < req->num_databaseNames; i++) {
         if (!contains(pdb.dbs, req->databaseNames[i]) &&
@@ -346,12 +353,19 @@ void yf::AuthSimple::process_scan(mp::Package &package) const
     Z_ScanRequest *req =
         package.request().get()->u.z3950->u.scanRequest;
 
-    if (m_p->userBySession.count(package.session()) == 0) {
+    std::string user;
+    {
+        boost::mutex::scoped_lock lock(m_p->mutex);
+        std::map<mp::Session, std::string>::const_iterator it =
+            m_p->userBySession.find(package.session());
+        if (it != m_p->userBySession.end())
+            user = it->second;
+    }
+    if (user.length() == 0) {
         // It's a non-authenticated session, so just accept the operation
         return package.move();
     }
 
-    std::string user = m_p->userBySession[package.session()];
     yf::AuthSimple::Rep::PasswordAndDBs pdb = m_p->userRegister[user];
     for (int i = 0; i < req->num_databaseNames; i++) {
         if (!contains(pdb.dbs, req->databaseNames[i]) &&
-- 
2.43.0


From 82ea61555f85ed7b10dd5a0c51d5335adf4592b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:57 +0000
Subject: [PATCH 18/19] fix: auth_simple: do not add unknown users to the
 target register

---
 src/filter_auth_simple.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 3036acc..9a44c31 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -405,7 +405,11 @@ void yf::AuthSimple::check_targets(mp::Package & package) const
 
     std::string password;
     std::string user = get_user(initReq, password);
-    std::list<std::string> authorisedTargets = m_p->targetsByUser[user];
+    std::list<std::string> authorisedTargets;
+    std::map<std::string, std::list<std::string> >::const_iterator it =
+        m_p->targetsByUser.find(user);
+    if (it != m_p->targetsByUser.end())
+        authorisedTargets = it->second;
 
     std::list<std::string> targets;
     Z_OtherInformation **otherInfo = &initReq->otherInfo;
-- 
2.43.0


From 671ec3659082272f8aa532107255f098e5f2fb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:57 +0000
Subject: [PATCH 19/19] fix: auth_simple: refuse registers with overlong lines
 instead of looping

---
 src/filter_auth_simple.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 9a44c31..bc1e114 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -164,6 +164,8 @@ void mp::filter::AuthSimple::config_userRegister(std::string filename,
     {
         char buf[1000];
         fp.getline(buf, sizeof buf);
+        if (fp.fail() && !fp.eof())
+            die("auth_simple user-register '" + filename + "': line too long");
         if (*buf == '\0' || *buf == '#')
             continue;
         char *passwdp = strchr(buf, ':');
@@ -207,6 +209,8 @@ void mp::filter::AuthSimple::config_targetRegister(std::string filename,
     while (!fp.eof()) {
         char buf[1000];
         fp.getline(buf, sizeof buf);
+        if (fp.fail() && !fp.eof())
+            die("auth_simple target-register '" + filename + "': line too long");
         if (*buf == '\0' || *buf == '#')
             continue;
         char *targetsp = strchr(buf, ':');
-- 
2.43.0

