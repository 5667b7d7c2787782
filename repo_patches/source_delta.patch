From 0623df156ffccaf1c8a683662ad8176eae56ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:21 +0000
Subject: [PATCH 01/52] fix: a scheduler user that registers during a shutdown
 gets a running scheduler

add_active_user() looked at m_is_running before it took the lock, so that a
shutdown could stop the scheduler between the check and the registration; the
user was then registered with a scheduler that runs nothing.
---
 src/scheduler.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index ee35f84..0139ef0 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -87,9 +87,15 @@ void scheduler::keep_running(boost::asio::io_service& my_service,
 
 void scheduler::add_active_user(void)
 {
-    if (!m_is_running) startup();
-    boost::mutex::scoped_lock scheduler_lock(m_mutex);
-    ++m_active_users;
+    // register first, so that a shutdown that runs concurrently either waits
+    // for this user or has already finished when the scheduler is started again
+    bool needs_startup;
+    {
+        boost::mutex::scoped_lock scheduler_lock(m_mutex);
+        ++m_active_users;
+        needs_startup = !m_is_running;
+    }
+    if (needs_startup) startup();
 }
 
 void scheduler::remove_active_user(void)
-- 
2.43.0


From 06c08725538d472a4f1adb46b023ae55e201c505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:21 +0000
Subject: [PATCH 02/52] fix: no busy loop after a scheduler is restarted

The keep_running timer wait pending from before the shutdown is cancelled by the
restart; its handler ignored that and renewed the wait, cancelling the current
one, whose handler did the same, for ever.
---
 include/pion/scheduler.hpp |  5 +++++
 src/scheduler.cpp          | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/pion/scheduler.hpp b/include/pion/scheduler.hpp
index bc2369b..baafd33 100644
--- a/include/pion/scheduler.hpp
+++ b/include/pion/scheduler.hpp
@@ -144,6 +144,11 @@ protected:
     static boost::system_time get_wakeup_time(boost::uint32_t sleep_sec,
         boost::uint32_t sleep_nsec);
 
+    /// called when the timer used to keep an IO service running expires or is cancelled
+    void handle_keep_running(boost::asio::io_service& my_service,
+                             boost::asio::deadline_timer& my_timer,
+                             const boost::system::error_code& ec);
+
     /// stops all services used to schedule work
     virtual void stop_services(void) {}
     
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 0139ef0..b51538b 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -80,11 +80,21 @@ void scheduler::keep_running(boost::asio::io_service& my_service,
     if (m_is_running) {
         // schedule this again to make sure the service doesn't complete
         my_timer.expires_from_now(boost::posix_time::seconds(KEEP_RUNNING_TIMER_SECONDS));
-        my_timer.async_wait(boost::bind(&scheduler::keep_running, this,
-                                        boost::ref(my_service), boost::ref(my_timer)));
+        my_timer.async_wait(boost::bind(&scheduler::handle_keep_running, this,
+                                        boost::ref(my_service), boost::ref(my_timer), _1));
     }
 }
 
+void scheduler::handle_keep_running(boost::asio::io_service& my_service,
+                                    boost::asio::deadline_timer& my_timer,
+                                    const boost::system::error_code& ec)
+{
+    // a wait that was replaced by another one (the scheduler was restarted) must
+    // not be renewed; otherwise the two would keep on cancelling each other
+    if (ec != boost::asio::error::operation_aborted)
+        keep_running(my_service, my_timer);
+}
+
 void scheduler::add_active_user(void)
 {
     // register first, so that a shutdown that runs concurrently either waits
-- 
2.43.0


From bfd264c34e9cdea22128ec76b10e941ec73db84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:54 +0000
Subject: [PATCH 03/52] fix: scheduling work from a handler during shutdown
 does not deadlock

shutdown() of a one_to_one_scheduler holds the scheduler's mutex while it waits
for the worker threads; get_io_service(), called by post(), took the same mutex,
so a handler that scheduled more work at that time blocked for ever.  The pool of
services now has a mutex of its own.
---
 include/pion/scheduler.hpp | 16 ++++++++++++++--
 src/scheduler.cpp          |  2 ++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/pion/scheduler.hpp b/include/pion/scheduler.hpp
index baafd33..1afbc6d 100644
--- a/include/pion/scheduler.hpp
+++ b/include/pion/scheduler.hpp
@@ -303,7 +303,9 @@ public:
     
     /// returns an async I/O service used to schedule work
     virtual boost::asio::io_service& get_io_service(void) {
-        boost::mutex::scoped_lock scheduler_lock(m_mutex);
+        // note: m_mutex is held by shutdown() while it waits for the worker threads,
+        // which may be executing a handler that schedules more work
+        boost::mutex::scoped_lock pool_lock(m_pool_mutex);
         while (m_service_pool.size() < m_num_threads) {
             boost::shared_ptr<service_pair_type>  service_ptr(new service_pair_type());
             m_service_pool.push_back(service_ptr);
@@ -334,13 +336,20 @@ protected:
     
     /// stops all services used to schedule work
     virtual void stop_services(void) {
+        boost::mutex::scoped_lock pool_lock(m_pool_mutex);
         for (service_pool_type::iterator i = m_service_pool.begin(); i != m_service_pool.end(); ++i) {
             (*i)->first.stop();
         }
     }
         
     /// finishes all services used to schedule work
-    virtual void finish_services(void) { m_service_pool.clear(); }
+    virtual void finish_services(void) {
+        // handlers that are still queued are destroyed after releasing the lock
+        service_pool_type old_pool;
+        boost::mutex::scoped_lock pool_lock(m_pool_mutex);
+        old_pool.swap(m_service_pool);
+        pool_lock.unlock();
+    }
     
 
     /// typedef for a pair object where first is an IO service and second is a deadline timer
@@ -354,6 +363,9 @@ protected:
     typedef std::vector<boost::shared_ptr<service_pair_type> >        service_pool_type;
 
     
+    /// mutex used to protect the pool of IO services
+    boost::mutex        m_pool_mutex;
+
     /// pool of IO services used to schedule work
     service_pool_type   m_service_pool;
 
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index b51538b..cceef6d 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -170,6 +170,8 @@ void one_to_one_scheduler::startup(void)
         PION_LOG_INFO(m_logger, "Starting thread scheduler");
         m_is_running = true;
         
+        boost::mutex::scoped_lock pool_lock(m_pool_mutex);
+
         // make sure there are enough services initialized
         while (m_service_pool.size() < m_num_threads) {
             boost::shared_ptr<service_pair_type>  service_ptr(new service_pair_type());
-- 
2.43.0


From ff76d3593850cb63a641384f2ed43560c3e0241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:16 +0000
Subject: [PATCH 04/52] fix: administrator rights are given back to users with
 large ids

The saved effective user id was kept in 16 bits, so that a user with an id above
32767 was given another (or no) identity when the rights were released.
---
 include/pion/admin_rights.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pion/admin_rights.hpp b/include/pion/admin_rights.hpp
index 52a7260..eefe62d 100644
--- a/include/pion/admin_rights.hpp
+++ b/include/pion/admin_rights.hpp
@@ -72,7 +72,7 @@ private:
     boost::unique_lock<boost::mutex>    m_lock;
 
     /// saved user identifier before upgrading to administrator
-    boost::int16_t                      m_user_id;
+    long                                m_user_id;
 
     /// true if the class currently holds administrative rights
     bool                                m_has_rights;
-- 
2.43.0


From f43164cd585ad5b2c39ae7c4cb943ced673167fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:53 +0000
Subject: [PATCH 05/52] fix: opening a plug-in with a handle that is already
 open does not deadlock

plugin::open() released the previous library, which locks the plug-in mutex,
while it was holding that mutex.
---
 src/plugin.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/plugin.cpp b/src/plugin.cpp
index ab18041..949b420 100644
--- a/src/plugin.cpp
+++ b/src/plugin.cpp
@@ -84,13 +84,17 @@ void plugin::reset_plugin_directories(void)
 
 void plugin::open(const std::string& plugin_name)
 {
+    // takes over what we may be pointing to already, and releases it at the
+    // end (this must not happen while the plugin mutex is locked)
+    plugin old_plugin;
+
     // check first if name matches an existing plugin name
     {
         config_type& cfg = get_plugin_config();
         boost::mutex::scoped_lock plugin_lock(cfg.m_plugin_mutex);
         map_type::iterator itr = cfg.m_plugin_map.find(plugin_name);
         if (itr != cfg.m_plugin_map.end()) {
-            release_data();  // make sure we're not already pointing to something
+            old_plugin.m_plugin_data = m_plugin_data;
             m_plugin_data = itr->second;
             ++ m_plugin_data->m_references;
             return;
-- 
2.43.0


From c9dedbbc330f3a2e3b6e3e50d369b140932663b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:53 +0000
Subject: [PATCH 06/52] fix: assigning a plug-in handle to itself does not
 close it

---
 src/plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plugin.cpp b/src/plugin.cpp
index 949b420..dc9b08c 100644
--- a/src/plugin.cpp
+++ b/src/plugin.cpp
@@ -171,6 +171,7 @@ void plugin::release_data(void)
 
 void plugin::grab_data(const plugin& p)
 {
+    if (this == &p) return;     // nothing to do for self-assignment
     release_data();  // make sure we're not already pointing to something
     config_type& cfg = get_plugin_config();
     boost::mutex::scoped_lock plugin_lock(cfg.m_plugin_mutex);
-- 
2.43.0


From 962e5d2bde31a4a114afa6f2b8088434a81649d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:21 +0000
Subject: [PATCH 07/52] fix: a plug-in identifier used twice is refused without
 leaking an object

plugin_manager::load() looked the identifier up without the lock, and both load()
and add() ignored that the insertion failed because another thread had used the
identifier: the new object was leaked and the caller told that it is managed.
---
 include/pion/plugin_manager.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/pion/plugin_manager.hpp b/include/pion/plugin_manager.hpp
index 80ee545..6a1b82c 100644
--- a/include/pion/plugin_manager.hpp
+++ b/include/pion/plugin_manager.hpp
@@ -190,8 +190,9 @@ inline void plugin_manager<PluginType>::add(const std::string& plugin_id,
 {
     plugin_ptr<PluginType> plugin_ptr;
     boost::mutex::scoped_lock plugins_lock(m_plugin_mutex);
-    m_plugin_map.insert(std::make_pair(plugin_id,
-                                       std::make_pair(plugin_object_ptr, plugin_ptr)));
+    if (! m_plugin_map.insert(std::make_pair(plugin_id,
+                                       std::make_pair(plugin_object_ptr, plugin_ptr))).second)
+        BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
 }
 
 template <typename PluginType>
@@ -239,9 +240,11 @@ template <typename PluginType>
 inline PluginType *plugin_manager<PluginType>::load(const std::string& plugin_id,
                                                      const std::string& plugin_type)
 {
-    // search for the plug-in file using the configured paths
+    // make sure that the identifier is not in use
+    boost::mutex::scoped_lock plugins_lock(m_plugin_mutex);
     if (m_plugin_map.find(plugin_id) != m_plugin_map.end())
         BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
+    plugins_lock.unlock();
     
     // open up the plug-in's shared object library
     plugin_ptr<PluginType> plugin_ptr;
@@ -251,9 +254,15 @@ inline PluginType *plugin_manager<PluginType>::load(const std::string& plugin_id
     PluginType *plugin_object_ptr(plugin_ptr.create());
     
     // add the new plug-in object to our map
-    boost::mutex::scoped_lock plugins_lock(m_plugin_mutex);
-    m_plugin_map.insert(std::make_pair(plugin_id,
-                                       std::make_pair(plugin_object_ptr, plugin_ptr)));
+    plugins_lock.lock();
+    if (! m_plugin_map.insert(std::make_pair(plugin_id,
+                                       std::make_pair(plugin_object_ptr, plugin_ptr))).second)
+    {
+        // another thread used the same identifier in the meantime
+        plugins_lock.unlock();
+        plugin_ptr.destroy(plugin_object_ptr);
+        BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
+    }
 
     return plugin_object_ptr;
 }
-- 
2.43.0


From 1dcbd5b361357c746869840d289de72c7c2ed641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:42 +0000
Subject: [PATCH 08/52] fix: plugin_instance_ptr does not destroy its instance
 twice

reset() left the pointer to the destroyed instance in place, and so did create()
when the new plug-in could not be opened.
---
 include/pion/plugin.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/pion/plugin.hpp b/include/pion/plugin.hpp
index 8efd424..c86eab7 100644
--- a/include/pion/plugin.hpp
+++ b/include/pion/plugin.hpp
@@ -366,7 +366,9 @@ public:
     /// reset the instance pointer
     inline void reset(void) { 
         if (m_instance_ptr) {
-            m_plugin_ptr.destroy(m_instance_ptr);
+            InterfaceClassType *old_ptr = m_instance_ptr;
+            m_instance_ptr = NULL;
+            m_plugin_ptr.destroy(old_ptr);
         }
     }
     
-- 
2.43.0


From 8d262cea6ba38ad9ec0a7dedbf75dd3ea4ba0d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:13 +0000
Subject: [PATCH 09/52] fix: a plug-in object is not removed while run() or
 get_statistic() use it

Both looked the object up and released the lock before calling the function.
---
 include/pion/plugin_manager.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/pion/plugin_manager.hpp b/include/pion/plugin_manager.hpp
index 6a1b82c..91e905e 100644
--- a/include/pion/plugin_manager.hpp
+++ b/include/pion/plugin_manager.hpp
@@ -357,11 +357,12 @@ template <typename PluginType>
 inline void plugin_manager<PluginType>::run(const std::string& plugin_id,
                                             PluginRunFunction run_func)
 {
-    // no need to lock (handled by plugin_manager::get())
-    PluginType *plugin_object_ptr = get(plugin_id);
-    if (plugin_object_ptr == NULL)
+    // keep the lock so that the object is not removed while it is being used
+    boost::mutex::scoped_lock plugins_lock(m_plugin_mutex);
+    typename pion::plugin_manager<PluginType>::map_type::iterator i = m_plugin_map.find(plugin_id);
+    if (i == m_plugin_map.end())
         BOOST_THROW_EXCEPTION( error::plugin_not_found() << error::errinfo_plugin_name(plugin_id) );
-    run_func(plugin_object_ptr);
+    run_func(i->second.first);
 }
 
 template <typename PluginType>
@@ -381,11 +382,12 @@ template <typename PluginType>
 inline boost::uint64_t plugin_manager<PluginType>::get_statistic(const std::string& plugin_id,
                                                                 PluginStatFunction stat_func) const
 {
-    // no need to lock (handled by plugin_manager::get())
-    const PluginType *plugin_object_ptr = const_cast<plugin_manager<PluginType>*>(this)->get(plugin_id);
-    if (plugin_object_ptr == NULL)
+    // keep the lock so that the object is not removed while it is being used
+    boost::mutex::scoped_lock plugins_lock(m_plugin_mutex);
+    typename pion::plugin_manager<PluginType>::map_type::const_iterator i = m_plugin_map.find(plugin_id);
+    if (i == m_plugin_map.end())
         BOOST_THROW_EXCEPTION( error::plugin_not_found() << error::errinfo_plugin_name(plugin_id) );
-    return stat_func(plugin_object_ptr);
+    return stat_func(i->second.first);
 }
 
 
-- 
2.43.0


From 526cd8cd1fed0c15a4a22105b00579eaed2ad79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:32 +0000
Subject: [PATCH 10/52] fix: plugin_manager::find() does not give up before the
 matching plug-in

The search stopped at an identifier that does not match if the next one is not
shorter, so that with /a, /a-x and /a.y registered nothing was found for /a/b.
---
 include/pion/plugin_manager.hpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/include/pion/plugin_manager.hpp b/include/pion/plugin_manager.hpp
index 91e905e..1e65ac3 100644
--- a/include/pion/plugin_manager.hpp
+++ b/include/pion/plugin_manager.hpp
@@ -317,19 +317,10 @@ inline PluginType *plugin_manager<PluginType>::find(const std::string& resource)
     while (i != m_plugin_map.begin()) {
         --i;
         
-        // keep checking while the first part of the strings match
-        if (resource.compare(0, i->first.size(), i->first) != 0) {
-            // the first part no longer matches
-            if (i != m_plugin_map.begin()) {
-                // continue to next plug-in in list if its size is < this one
-                typename pion::plugin_manager<PluginType>::map_type::iterator j=i;
-                --j;
-                if (j->first.size() < i->first.size())
-                    continue;
-            }
-            // otherwise we've reached the end; stop looking for a match
-            break;
-        }
+        // only if the first part of the strings match (other identifiers may
+        // be sorted between the resource and the one that matches it)
+        if (resource.compare(0, i->first.size(), i->first) != 0)
+            continue;
         
         // only if the resource matches the plug-in's identifier
         // or if resource is followed first with a '/' character
-- 
2.43.0


From 47f88412b835324dedb73c7c8eeae990b0551c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:26 +0000
Subject: [PATCH 11/52] fix: a response that cannot have content ends with its
 headers even if marked chunked

---
 src/http_parser.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 9a796b5..5d8c97e 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -759,7 +759,13 @@ boost::tribool parser::finish_header_parsing(http::message& http_msg,
     http_msg.update_transfer_encoding_using_header();
     update_message_with_header_data(http_msg);
 
-    if (http_msg.is_chunked()) {
+    if (http_msg.is_content_length_implied()) {
+
+        // content length is implied to be zero (whatever the headers say)
+        m_message_parse_state = PARSE_END;
+        rc = true;
+
+    } else if (http_msg.is_chunked()) {
 
         // content is encoded using chunks
         m_message_parse_state = PARSE_CHUNKS;
@@ -768,12 +774,6 @@ boost::tribool parser::finish_header_parsing(http::message& http_msg,
         if (m_parse_headers_only)
             rc = true;
 
-    } else if (http_msg.is_content_length_implied()) {
-
-        // content length is implied to be zero
-        m_message_parse_state = PARSE_END;
-        rc = true;
-
     } else {
         // content length should be specified in the headers
 
-- 
2.43.0


From 9b088d7dd3cde207417598ef155c85389ff171d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:26 +0000
Subject: [PATCH 12/52] fix: trailers of a chunked message are consumed when a
 payload handler is used

---
 src/http_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 5d8c97e..530eb0b 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -89,8 +89,9 @@ boost::tribool parser::parse(http::message& http_msg,
                 rc = parse_chunks(http_msg.get_chunk_cache(), ec);
                 total_bytes_parsed += m_bytes_last_read;
                 // check if we have finished parsing all chunks
-                if (rc == true && !m_payload_handler) {
-                    http_msg.concatenate_chunks();
+                if (rc == true) {
+                    if (!m_payload_handler)
+                        http_msg.concatenate_chunks();
                     
                     // Handle footers if present
                     rc = ((m_message_parse_state == PARSE_FOOTERS) ?
-- 
2.43.0


From 496b9835cde1aa52260dca4af979e1ed36ee45de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:26 +0000
Subject: [PATCH 13/52] fix: the end of a chunked message larger than the
 maximum is found

---
 src/http_parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 530eb0b..ef5fd7e 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1446,8 +1446,10 @@ boost::tribool parser::parse_chunks(http::message::chunk_cache_t& chunks,
                     m_payload_handler(m_read_ptr, len);
                     m_bytes_read_in_current_chunk += len;
                     if (len > 1) m_read_ptr += (len - 1);
-                } else if (chunks.size() < m_max_content_length) {
-                    chunks.push_back(*m_read_ptr);
+                } else {
+                    // NOTE: we can read more than we store
+                    if (chunks.size() < m_max_content_length)
+                        chunks.push_back(*m_read_ptr);
                     m_bytes_read_in_current_chunk++;
                 }
             }
-- 
2.43.0


From 70b7d7cb17ac1f044b262c9dee8eab3415d6c8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:02 +0000
Subject: [PATCH 14/52] fix: a form field that ends right after its headers is
 empty

---
 src/http_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index ef5fd7e..69a77b9 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1209,7 +1209,7 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                 if (next_ptr) {
                     // don't include CRLF before next boundary
                     const char *temp_ptr = next_ptr - 2;
-                    if (temp_ptr[0] == '\r' && temp_ptr[1] == '\n')
+                    if (temp_ptr >= ptr && temp_ptr[0] == '\r' && temp_ptr[1] == '\n')
                         field_end_ptr = temp_ptr;
                     else field_end_ptr = next_ptr;
                 }
-- 
2.43.0


From a2dd890bea46472a3ada082f2dbc6de8cf831ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:33 +0000
Subject: [PATCH 15/52] fix: a gap that reaches beyond the maximum content
 leaves no uninitialised bytes

---
 src/http_parser.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 69a77b9..6c708ac 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -197,14 +197,13 @@ boost::tribool parser::parse_missing_data(http::message& http_msg,
                 if (m_payload_handler) {
                     for (std::size_t n = 0; n < len; ++n)
                         m_payload_handler(&MISSING_DATA_CHAR, 1);
-                } else if ( (m_bytes_content_read+len) <= m_max_content_length) {
-                    // use dummy content for missing data
-                    for (std::size_t n = 0; n < len; ++n)
-                        http_msg.get_content()[m_bytes_content_read++] = MISSING_DATA_CHAR;
                 } else {
-                    m_bytes_content_read += len;
+                    // use dummy content for missing data (as far as it is stored)
+                    for (std::size_t n = 0; n < len && m_bytes_content_read + n < m_max_content_length; ++n)
+                        http_msg.get_content()[m_bytes_content_read + n] = MISSING_DATA_CHAR;
                 }
 
+                m_bytes_content_read += len;
                 m_bytes_content_remaining -= len;
                 m_bytes_total_read += len;
                 m_bytes_last_read = len;
-- 
2.43.0


From ba0e12f653e6b6fd62c628548a7e06b6ec5d0f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:47 +0000
Subject: [PATCH 16/52] fix: an impossible content length is refused instead of
 corrupting memory or throwing

---
 include/pion/http/message.hpp | 8 +++++++-
 src/http_parser.cpp           | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 0df5977..466799d 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -10,6 +10,7 @@
 #ifndef __PION_HTTP_MESSAGE_HEADER__
 #define __PION_HTTP_MESSAGE_HEADER__
 
+#include <new>
 #include <iosfwd>
 #include <vector>
 #include <cstring>
@@ -321,6 +322,9 @@ public:
         } else {
             std::string trimmed_length(i->second);
             boost::algorithm::trim(trimmed_length);
+            // (lexical_cast would turn a negative number into a huge one)
+            if (!trimmed_length.empty() && trimmed_length[0] == '-')
+                throw boost::bad_lexical_cast();
             m_content_length = boost::lexical_cast<size_t>(trimmed_length);
         }
     }
@@ -541,15 +545,17 @@ protected:
         
         /// changes the size of the content buffer
         inline void resize(std::size_t len) {
-            m_len = len;
             if (len == 0) {
                 m_buf.reset();
                 m_ptr = &m_empty;
             } else {
+                if (len + 1 == 0)
+                    throw std::bad_alloc();
                 m_buf.reset(new char[len+1]);
                 m_buf[len] = '\0';
                 m_ptr = m_buf.get();
             }
+            m_len = len;
         }
         
         /// clears the content buffer
diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 6c708ac..06042a2 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -805,7 +805,14 @@ boost::tribool parser::finish_header_parsing(http::message& http_msg,
                     rc = true;
                 } else {
                     // allocate a buffer for payload content (may be zero-size)
-                    http_msg.create_content_buffer();
+                    try {
+                        http_msg.create_content_buffer();
+                    } catch (std::bad_alloc&) {
+                        PION_LOG_ERROR(m_logger, "Unable to allocate content buffer");
+                        http_msg.set_content_length(0);
+                        set_error(ec, ERROR_INVALID_CONTENT_LENGTH);
+                        return false;
+                    }
                 }
             }
 
-- 
2.43.0


From 51316e03fdeaa8e4a70d43b0d47d2dd1e67cc037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:47 +0000
Subject: [PATCH 17/52] fix: the SPDY parser does not read outside its packet
 and header block

---
 include/pion/spdy/decompressor.hpp |  7 +++-
 include/pion/spdy/types.hpp        |  2 +
 src/spdy_decompressor.cpp          |  3 +-
 src/spdy_parser.cpp                | 61 +++++++++++++++++++++++++++---
 4 files changed, 65 insertions(+), 8 deletions(-)

diff --git a/include/pion/spdy/decompressor.hpp b/include/pion/spdy/decompressor.hpp
index eb88a6d..97ac7f6 100644
--- a/include/pion/spdy/decompressor.hpp
+++ b/include/pion/spdy/decompressor.hpp
@@ -52,7 +52,9 @@ public:
                      const spdy_control_frame_info& frame,
                      boost::uint32_t header_block_length);
 
-    
+    /// returns the number of bytes produced by the last successful decompress()
+    inline boost::uint32_t get_uncompressed_length(void) const { return m_uncompressed_length; }
+
 protected:
 
     /**
@@ -77,6 +79,9 @@ private:
     /// dictionary identifier
     boost::uint32_t                     m_dictionary_id;
     
+    /// number of bytes in use in m_uncompressed_header
+    boost::uint32_t                     m_uncompressed_length;
+
     /// Used for decompressing spdy headers
     boost::uint8_t                      m_uncompressed_header[MAX_UNCOMPRESSED_DATA_BUF_SIZE];
 
diff --git a/include/pion/spdy/types.hpp b/include/pion/spdy/types.hpp
index b4c50d1..0a8895d 100644
--- a/include/pion/spdy/types.hpp
+++ b/include/pion/spdy/types.hpp
@@ -37,6 +37,8 @@ namespace spdy {    // begin namespace spdy
 #define SPDY_FLAG_UNIDIRECTIONAL    0x02
     
 #define SIZE_OF_BYTE                8
+
+#define SPDY_FRAME_HEADER_SIZE      8
     
 #define NON_SPDY                    0
 #define HTTP_REQUEST                1
diff --git a/src/spdy_decompressor.cpp b/src/spdy_decompressor.cpp
index d1b4152..7d90f1c 100644
--- a/src/spdy_decompressor.cpp
+++ b/src/spdy_decompressor.cpp
@@ -40,7 +40,7 @@ const char decompressor::SPDY_ZLIB_DICTIONARY[] =
 // decompressor member functions
 
 decompressor::decompressor()
-    : m_request_zstream(NULL), m_response_zstream(NULL)
+    : m_request_zstream(NULL), m_response_zstream(NULL), m_uncompressed_length(0)
 {
     m_request_zstream = (z_streamp)malloc(sizeof(z_stream));
     BOOST_ASSERT(m_request_zstream);
@@ -125,6 +125,7 @@ char* decompressor::decompress(const char *compressed_data_ptr,
         // No need to call SetError()
         return NULL;
     }
+    m_uncompressed_length = uncomp_length;
     return reinterpret_cast<char*>(m_uncompressed_header);
 }
 
diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index 172c83c..9bbce0f 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -150,6 +150,10 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
     // Verify that this is a spdy frame
     
     BOOST_ASSERT(m_read_ptr);
+    if (length_packet == 0) {
+        // There is nothing to parse
+        return boost::indeterminate;
+    }
     boost::uint8_t first_byte = (boost::uint8_t)*m_read_ptr;
     if (first_byte != 0x80 && first_byte != 0x0) {
         // This is not a SPDY frame, throw an error
@@ -164,6 +168,13 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
     
     ec.clear();
 
+    // The packet may end within the frame header (an invalid type is refused at once)
+    if (length_packet < SPDY_FRAME_HEADER_SIZE
+        && (first_byte == 0x0 || length_packet < 4 || algorithm::to_uint16(m_read_ptr + 2) < SPDY_INVALID))
+    {
+        return boost::indeterminate;
+    }
+
     // Populate the frame
     bool populate_frame_result = populate_frame(ec, frame, length_packet, stream_id, http_info);
     
@@ -172,10 +183,11 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
         return false;
     }
     
-    BOOST_ASSERT(stream_id != 0);
-    
     control_bit = (boost::uint8_t)frame.control_bit;
     
+    // Number of bytes of the frame that are in this packet
+    const boost::uint32_t bytes_available = (length_packet < frame.length ? length_packet : frame.length);
+
     // There is a possibility that there are more than one SPDY frames in one TCP frame
     if(length_packet > frame.length){
         m_current_data_chunk_ptr = m_read_ptr + frame.length;
@@ -209,11 +221,18 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
         case SPDY_SYN_STREAM:
         case SPDY_SYN_REPLY:
         case SPDY_HEADERS:
+            if (bytes_available < frame.length) {
+                // The header block is not complete
+                PION_LOG_ERROR(m_logger, "Incomplete SPDY header block");
+                set_error(ec, ERROR_MISSING_HEADER_DATA);
+                break;
+            }
             parse_header_payload(ec, decompressor, frame, http_info, current_stream_count);
             break;
             
         case SPDY_RST_STREAM:
-            parse_spdy_rst_stream(ec, frame);
+            if (bytes_available == frame.length)
+                parse_spdy_rst_stream(ec, frame);
             http_info.http_type = SPDY_CONTROL;
             break;
             
@@ -223,12 +242,14 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
             break;
             
         case SPDY_PING:
-            parse_spdy_ping_frame(ec, frame);
+            if (bytes_available == frame.length)
+                parse_spdy_ping_frame(ec, frame);
             http_info.http_type = SPDY_CONTROL;
             break;
             
         case SPDY_GOAWAY:
-            parse_spdy_goaway_frame(ec, frame);
+            if (bytes_available == frame.length)
+                parse_spdy_goaway_frame(ec, frame);
             http_info.http_type = SPDY_CONTROL;
             break;
             
@@ -337,7 +358,7 @@ bool parser::populate_frame(boost::system::error_code& ec,
     
     http_info.data_size = frame.length;
     
-    if(control_bit){
+    if(control_bit && length_packet >= 4){
         four_bytes = algorithm::to_uint32(m_read_ptr);
         stream_id = four_bytes & 0x7FFFFFFF;
     }
@@ -354,6 +375,13 @@ void parser::parse_header_payload(boost::system::error_code &ec,
     boost::uint32_t stream_id = 0;
     boost::uint32_t header_block_length = frame.length;
     
+    if (frame.length < (frame.type == SPDY_SYN_STREAM ? 10U : 6U)) {
+        // There is no room for a header block
+        PION_LOG_ERROR(m_logger, "Incomplete SPDY header block");
+        set_error(ec, ERROR_MISSING_HEADER_DATA);
+        return;
+    }
+    
     // Get the 31 bit stream id
     
     boost::uint32_t four_bytes = algorithm::to_uint32(m_read_ptr);
@@ -417,6 +445,11 @@ void parser::parse_header_payload(boost::system::error_code &ec,
     // and it is 32 bit in SPDYv3
     
     // TBD : Add support for SPDYv3
+    const char * const uncompressed_end_ptr = m_uncompressed_ptr + decompressor->get_uncompressed_length();
+    if (uncompressed_end_ptr - m_uncompressed_ptr < 2) {
+        set_error(ec, ERROR_MISSING_HEADER_DATA);
+        return;
+    }
     boost::uint16_t num_name_val_pairs = algorithm::to_uint16(m_uncompressed_ptr);
     
     m_uncompressed_ptr += 2;
@@ -428,11 +461,19 @@ void parser::parse_header_payload(boost::system::error_code &ec,
         
         
         // Get the length of the name
+        if (uncompressed_end_ptr - m_uncompressed_ptr < 2) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         boost::uint16_t length_name = algorithm::to_uint16(m_uncompressed_ptr);
         std::string name = "";
         
         m_uncompressed_ptr += 2;
         
+        if (uncompressed_end_ptr - m_uncompressed_ptr < length_name) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         {
             for(boost::uint16_t count = 0; count < length_name; ++count){
                 name.push_back(*(m_uncompressed_ptr+count));
@@ -441,11 +482,19 @@ void parser::parse_header_payload(boost::system::error_code &ec,
         }
         
         // Get the length of the value
+        if (uncompressed_end_ptr - m_uncompressed_ptr < 2) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         boost::uint16_t length_value = algorithm::to_uint16(m_uncompressed_ptr);
         std::string value = "";
         
         m_uncompressed_ptr += 2;
         
+        if (uncompressed_end_ptr - m_uncompressed_ptr < length_value) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         {
             for(boost::uint16_t count = 0; count < length_value; ++count){
                 value.push_back(*(m_uncompressed_ptr+count));
-- 
2.43.0


From 4cee8027ec0323788394bc967e119e3902278f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:23 +0000
Subject: [PATCH 18/52] fix: a SPDY/2 GOAWAY frame does not take the next frame
 for its status

---
 src/spdy_parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index 9bbce0f..93ed524 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -575,8 +575,8 @@ void parser::parse_spdy_goaway_frame(boost::system::error_code &ec,
                                      const spdy_control_frame_info& frame)
 {
     // First complete the check for size
-    // The length should be 4 always
-    if(frame.length != 4){
+    // The length should be 4 for SPDYv2 and 8 for SPDYv3
+    if(frame.length != 4 && frame.length != 8){
         return;
     }
     
@@ -585,6 +585,11 @@ void parser::parse_spdy_goaway_frame(boost::system::error_code &ec,
     // Ignore the 31 bit stream id
     m_read_ptr += 4;
     
+    // There is no status code in SPDYv2 (what follows is the next frame)
+    if(frame.length == 4){
+        return;
+    }
+    
     // Get the status code
     
     status_code = algorithm::to_uint32(m_read_ptr);
-- 
2.43.0


From d5ccfdd81eba4f39bbd273d6991372b8773ab028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:11 +0000
Subject: [PATCH 19/52] fix: the server does not hold its lock while handling a
 kept-alive connection

A handler that finished the connection (or asked the server anything) before
returning locked the server's mutex a second time and hung the server.
---
 src/tcp_server.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 483b629..5d2131f 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -249,7 +249,9 @@ void server::finish_connection(const tcp::connection_ptr& tcp_conn)
     boost::mutex::scoped_lock server_lock(m_mutex);
     if (m_is_listening && tcp_conn->get_keep_alive()) {
         
-        // keep the connection alive
+        // keep the connection alive; release the lock first, since the handler
+        // may finish the connection again or use other server functions
+        server_lock.unlock();
         handle_connection(tcp_conn);
 
     } else {
-- 
2.43.0


From d73ba4edf5afc1c535d1a8edcd74cfe39553f9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:11 +0000
Subject: [PATCH 20/52] fix: a server whose start failed can be started again

The acceptor was left open when bind() or listen() failed, so every later
start() failed with 'already open'.
---
 src/tcp_server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 5d2131f..88bea38 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -96,6 +96,9 @@ void server::start(void)
             m_tcp_acceptor.listen();
         } catch (std::exception& e) {
             PION_LOG_ERROR(m_logger, "Unable to bind to port " << get_port() << ": " << e.what());
+            // leave the acceptor closed, so that the server can be started again
+            boost::system::error_code ec;
+            m_tcp_acceptor.close(ec);
             throw;
         }
 
-- 
2.43.0


From 4cfd85a5540d90c0afae8c6de2ecbab47cb66bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:11 +0000
Subject: [PATCH 21/52] fix: start() waits for a stop() that is still in
 progress

A start() while stop() was waiting for connections put the new pending accept
into the pool stop() was waiting on, so that stop() never returned.
---
 include/pion/tcp/server.hpp |  3 +++
 src/tcp_server.cpp          | 15 +++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/pion/tcp/server.hpp b/include/pion/tcp/server.hpp
index ad0c85c..0274ff2 100644
--- a/include/pion/tcp/server.hpp
+++ b/include/pion/tcp/server.hpp
@@ -231,6 +231,9 @@ private:
     /// set to true when the server is listening for new connections
     bool                                    m_is_listening;
 
+    /// set to true while stop() is waiting for open connections to finish
+    bool                                    m_is_stopping;
+
     /// mutex to make class thread-safe
     mutable boost::mutex                    m_mutex;
 };
diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 88bea38..a799714 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -29,7 +29,7 @@ server::server(scheduler& sched, const unsigned int tcp_port)
 #else
     m_ssl_context(0),
 #endif
-    m_endpoint(boost::asio::ip::tcp::v4(), tcp_port), m_ssl_flag(false), m_is_listening(false)
+    m_endpoint(boost::asio::ip::tcp::v4(), tcp_port), m_ssl_flag(false), m_is_listening(false), m_is_stopping(false)
 {}
     
 server::server(scheduler& sched, const boost::asio::ip::tcp::endpoint& endpoint)
@@ -41,7 +41,7 @@ server::server(scheduler& sched, const boost::asio::ip::tcp::endpoint& endpoint)
 #else
     m_ssl_context(0),
 #endif
-    m_endpoint(endpoint), m_ssl_flag(false), m_is_listening(false)
+    m_endpoint(endpoint), m_ssl_flag(false), m_is_listening(false), m_is_stopping(false)
 {}
 
 server::server(const unsigned int tcp_port)
@@ -53,7 +53,7 @@ server::server(const unsigned int tcp_port)
 #else
     m_ssl_context(0),
 #endif
-    m_endpoint(boost::asio::ip::tcp::v4(), tcp_port), m_ssl_flag(false), m_is_listening(false)
+    m_endpoint(boost::asio::ip::tcp::v4(), tcp_port), m_ssl_flag(false), m_is_listening(false), m_is_stopping(false)
 {}
 
 server::server(const boost::asio::ip::tcp::endpoint& endpoint)
@@ -65,7 +65,7 @@ server::server(const boost::asio::ip::tcp::endpoint& endpoint)
 #else
     m_ssl_context(0),
 #endif
-    m_endpoint(endpoint), m_ssl_flag(false), m_is_listening(false)
+    m_endpoint(endpoint), m_ssl_flag(false), m_is_listening(false), m_is_stopping(false)
 {}
     
 void server::start(void)
@@ -73,6 +73,10 @@ void server::start(void)
     // lock mutex for thread safety
     boost::mutex::scoped_lock server_lock(m_mutex);
 
+    // if the server is being stopped then let that complete first
+    while (m_is_stopping)
+        m_server_has_stopped.wait(server_lock);
+
     if (! m_is_listening) {
         PION_LOG_INFO(m_logger, "Starting server on port " << get_port());
         
@@ -122,6 +126,7 @@ void server::stop(bool wait_until_finished)
         PION_LOG_INFO(m_logger, "Shutting down server on port " << get_port());
     
         m_is_listening = false;
+        m_is_stopping = true;
 
         // this terminates any connections waiting to be accepted
         m_tcp_acceptor.close();
@@ -142,6 +147,8 @@ void server::stop(bool wait_until_finished)
             scheduler::sleep(m_no_more_connections, server_lock, 0, 250000000);
         }
         
+        m_is_stopping = false;
+
         // notify the thread scheduler that we no longer need it
         m_active_scheduler.remove_active_user();
         
-- 
2.43.0


From df91bdf28aa6b40ed681d0552ce4d313e886e295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:11 +0000
Subject: [PATCH 22/52] fix: start() schedules the first accept before it
 releases the lock

In between, get_connections() returned (size_t)-1, and a stop() could remove
the server from the scheduler's users before it had been added.
---
 include/pion/tcp/server.hpp |  3 +++
 src/tcp_server.cpp          | 16 +++++++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/pion/tcp/server.hpp b/include/pion/tcp/server.hpp
index 0274ff2..9cc2b39 100644
--- a/include/pion/tcp/server.hpp
+++ b/include/pion/tcp/server.hpp
@@ -168,6 +168,9 @@ private:
     /// listens for a new connection
     void listen(void);
 
+    /// schedules acceptance of a new connection; assumes that the server mutex is locked
+    void accept_next(void);
+
     /**
      * handles new connections (checks if there was an accept error)
      *
diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index a799714..7944cee 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -108,11 +108,12 @@ void server::start(void)
 
         m_is_listening = true;
 
-        // unlock the mutex since listen() requires its own lock
-        server_lock.unlock();
-        listen();
+        // start accepting before the lock is released, so that nobody sees a
+        // listening server that has not scheduled its first connection yet
+        accept_next();
         
-        // notify the thread scheduler that we need it now
+        // notify the thread scheduler that we need it now (also before the lock
+        // is released, so that stop() cannot remove us before we are added)
         m_active_scheduler.add_active_user();
     }
 }
@@ -184,7 +185,12 @@ void server::listen(void)
 {
     // lock mutex for thread safety
     boost::mutex::scoped_lock server_lock(m_mutex);
-    
+    accept_next();
+}
+
+void server::accept_next(void)
+{
+    // assumes that a server lock has already been acquired
     if (m_is_listening) {
         // create a new TCP connection object
         tcp::connection_ptr new_connection(connection::create(get_io_service(),
-- 
2.43.0


From 629a187905cb71b778cc8ea58d475377700c3025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:58 +0000
Subject: [PATCH 23/52] fix: a TCP stream waits for its operation to complete,
 not for any wakeup

A spurious wakeup of the condition made a read return bytes that had not
arrived and a write reuse (and overrun) a buffer that was still being sent.
---
 include/pion/tcp/stream.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/pion/tcp/stream.hpp b/include/pion/tcp/stream.hpp
index 606600d..2bdb1a5 100644
--- a/include/pion/tcp/stream.hpp
+++ b/include/pion/tcp/stream.hpp
@@ -54,7 +54,7 @@ public:
      * @param conn_ptr pointer to the TCP connection to use for reading & writing
      */
     explicit stream_buffer(const tcp::connection_ptr& conn_ptr)
-        : m_conn_ptr(conn_ptr), m_bytes_transferred(0), m_read_buf(m_conn_ptr->get_read_buffer().c_array())
+        : m_conn_ptr(conn_ptr), m_bytes_transferred(0), m_async_pending(false), m_read_buf(m_conn_ptr->get_read_buffer().c_array())
     {
         setup_buffers();
     }
@@ -68,7 +68,7 @@ public:
     explicit stream_buffer(boost::asio::io_service& io_service,
                              const bool ssl_flag = false)
         : m_conn_ptr(new connection(io_service, ssl_flag)),
-        m_read_buf(m_conn_ptr->get_read_buffer().c_array())
+        m_bytes_transferred(0), m_async_pending(false), m_read_buf(m_conn_ptr->get_read_buffer().c_array())
     {
         setup_buffers();
     }
@@ -82,7 +82,7 @@ public:
     stream_buffer(boost::asio::io_service& io_service,
                     connection::ssl_context_type& ssl_context)
         : m_conn_ptr(new connection(io_service, ssl_context)),
-        m_read_buf(m_conn_ptr->get_read_buffer().c_array())
+        m_bytes_transferred(0), m_async_pending(false), m_read_buf(m_conn_ptr->get_read_buffer().c_array())
     {
         setup_buffers();
     }
@@ -118,11 +118,12 @@ protected:
         if (bytes_to_send > 0) {
             boost::mutex::scoped_lock async_lock(m_async_mutex);
             m_bytes_transferred = 0;
+            m_async_pending = true;
             m_conn_ptr->async_write(boost::asio::buffer(pbase(), bytes_to_send),
                                     boost::bind(&stream_buffer::operation_finished, this,
                                                 boost::asio::placeholders::error,
                                                 boost::asio::placeholders::bytes_transferred));
-            m_async_done.wait(async_lock);
+            while (m_async_pending) m_async_done.wait(async_lock);
             bytes_sent = m_bytes_transferred;
             pbump(-bytes_sent);
             if (m_async_error)
@@ -155,12 +156,13 @@ protected:
         // be cancelled by other threads and will block forever (such as during shutdown)
         boost::mutex::scoped_lock async_lock(m_async_mutex);
         m_bytes_transferred = 0;
+        m_async_pending = true;
         m_conn_ptr->async_read_some(boost::asio::buffer(m_read_buf+PUT_BACK_MAX,
                                                         connection::READ_BUFFER_SIZE-PUT_BACK_MAX),
                                     boost::bind(&stream_buffer::operation_finished, this,
                                                 boost::asio::placeholders::error,
                                                 boost::asio::placeholders::bytes_transferred));
-        m_async_done.wait(async_lock);
+        while (m_async_pending) m_async_done.wait(async_lock);
         if (m_async_error)
             return traits_type::eof();
         
@@ -223,12 +225,13 @@ protected:
                 // send it all now rather than buffering
                 boost::mutex::scoped_lock async_lock(m_async_mutex);
                 m_bytes_transferred = 0;
+                m_async_pending = true;
                 m_conn_ptr->async_write(boost::asio::buffer(s+bytes_available,
                                                             n-bytes_available),
                                         boost::bind(&stream_buffer::operation_finished, this,
                                                     boost::asio::placeholders::error,
                                                     boost::asio::placeholders::bytes_transferred));
-                m_async_done.wait(async_lock);
+                while (m_async_pending) m_async_done.wait(async_lock);
                 bytes_sent = bytes_available + m_bytes_transferred;
             } else {
                 // the buffer is larger than the remaining data
@@ -290,6 +293,7 @@ private:
         boost::mutex::scoped_lock async_lock(m_async_mutex);
         m_async_error = error_code;
         m_bytes_transferred = bytes_transferred;
+        m_async_pending = false;
         m_async_done.notify_one();
     }
     
@@ -309,6 +313,9 @@ private:
     /// the number of bytes transferred by the last asynchronous operation
     std::size_t                 m_bytes_transferred;
     
+    /// true while an asynchronous operation has not completed yet
+    bool                        m_async_pending;
+    
     /// pointer to the start of the TCP connection's read buffer
     char_type *                 m_read_buf;
              
-- 
2.43.0


From 22c7c04fcb795d42c9e95abc308b91134dbd7bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:15 +0000
Subject: [PATCH 24/52] fix: a TCP stream keeps exact account of its output
 when a write fails

After a failed or cancelled write the unsent rest was sent from the wrong
position, a character beyond the end of the buffer was kept, and bytes taken
into the buffer were reported as not written.
---
 include/pion/tcp/stream.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/pion/tcp/stream.hpp b/include/pion/tcp/stream.hpp
index 2bdb1a5..390a0ff 100644
--- a/include/pion/tcp/stream.hpp
+++ b/include/pion/tcp/stream.hpp
@@ -125,6 +125,9 @@ protected:
                                                 boost::asio::placeholders::bytes_transferred));
             while (m_async_pending) m_async_done.wait(async_lock);
             bytes_sent = m_bytes_transferred;
+            // if only a part was sent, then keep the rest for the next attempt
+            if (bytes_sent > 0 && bytes_sent < bytes_to_send)
+                memmove(pbase(), pbase()+bytes_sent, bytes_to_send-bytes_sent);
             pbump(-bytes_sent);
             if (m_async_error)
                 bytes_sent = traits_type::eof();
@@ -190,8 +193,14 @@ protected:
             pbump(1);
         }
         // flush data in the write buffer by sending it to the TCP connection
-        return ((flush_output() == traits_type::eof())
-                ? traits_type::eof() : traits_type::not_eof(c));
+        if (flush_output() == traits_type::eof()) {
+            // report that the character was not written, and do not keep it
+            // (it may occupy the one extra position at the end of the buffer)
+            if (! traits_type::eq_int_type(c, traits_type::eof()) && pptr() > pbase())
+                pbump(-1);
+            return traits_type::eof();
+        }
+        return traits_type::not_eof(c);
     }
 
     /**
@@ -219,7 +228,7 @@ protected:
             }
             // flush data in the write buffer by sending it to the TCP connection
             if (flush_output() == traits_type::eof()) 
-                return 0;
+                return bytes_available; // taken into the buffer above
             if ((n-bytes_available) >= (WRITE_BUFFER_SIZE-1)) {
                 // the remaining data to send is larger than the buffer available
                 // send it all now rather than buffering
-- 
2.43.0


From 1f7dbb4ab8f79ab93c73e5b2e0780c06a562c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:43 +0000
Subject: [PATCH 25/52] fix: bytes put back after a failed TCP stream read are
 the ones that were read

---
 include/pion/tcp/stream.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pion/tcp/stream.hpp b/include/pion/tcp/stream.hpp
index 390a0ff..80d5d34 100644
--- a/include/pion/tcp/stream.hpp
+++ b/include/pion/tcp/stream.hpp
@@ -154,6 +154,9 @@ protected:
         if (put_back_num > 0)
             memmove(m_read_buf+(PUT_BACK_MAX-put_back_num), gptr()-put_back_num, put_back_num);
         
+        // point at the moved bytes before reading, in case the read fails
+        setg(m_read_buf+(PUT_BACK_MAX-put_back_num), m_read_buf+PUT_BACK_MAX, m_read_buf+PUT_BACK_MAX);
+        
         // read data from the TCP connection
         // note that this has to be an ansynchronous call; otherwise, it cannot
         // be cancelled by other threads and will block forever (such as during shutdown)
-- 
2.43.0


From 900ded64150f0da3ed2bc17ffefbc3d7a8e70868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:40 +0000
Subject: [PATCH 26/52] fix: responses to HEAD requests are sent without
 content

---
 include/pion/http/response_writer.hpp | 6 ++++++
 include/pion/http/writer.hpp          | 3 +++
 src/http_writer.cpp                   | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/include/pion/http/response_writer.hpp b/include/pion/http/response_writer.hpp
index d24af9d..a0b58be 100644
--- a/include/pion/http/response_writer.hpp
+++ b/include/pion/http/response_writer.hpp
@@ -131,6 +131,12 @@ protected:
                                                sending_chunked_message());
     }   
 
+    /// returns true if the response must not carry any payload content
+    /// (it answers a HEAD request or its status code does not allow it)
+    virtual bool content_is_forbidden(void) const {
+        return m_http_response->is_content_length_implied();
+    }
+
     /// returns a function bound to http::writer::handle_write()
     virtual write_handler_t bind_to_write_handler(void) {
         return boost::bind(&response_writer::handle_write, shared_from_this(),
diff --git a/include/pion/http/writer.hpp b/include/pion/http/writer.hpp
index e245ff3..b84a3b4 100644
--- a/include/pion/http/writer.hpp
+++ b/include/pion/http/writer.hpp
@@ -73,6 +73,9 @@ protected:
      */
     virtual void prepare_buffers_for_send(http::message::write_buffers_t& write_buffers) = 0;
                                       
+    /// returns true if the message must not carry any payload content
+    virtual bool content_is_forbidden(void) const { return false; }
+
     /// returns a function bound to writer::handle_write()
     virtual write_handler_t bind_to_write_handler(void) = 0;
     
diff --git a/src/http_writer.cpp b/src/http_writer.cpp
index 690b033..b9eef74 100644
--- a/src/http_writer.cpp
+++ b/src/http_writer.cpp
@@ -30,6 +30,10 @@ void writer::prepare_write_buffers(http::message::write_buffers_t& write_buffers
         m_sent_headers = true;
     }
 
+    // never send content which the recipient would take for the next message
+    if (content_is_forbidden())
+        return;
+
     // combine I/O write buffers (headers and content) so that everything
     // can be sent together; otherwise, we would have to send headers
     // and content separately, which would not be as efficient
-- 
2.43.0


From a538ee043be48817e6d4ad89e8598b9909d556dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:19 +0000
Subject: [PATCH 27/52] fix: a request handler that throws something unusual is
 answered with 500

---
 src/http_server.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/http_server.cpp b/src/http_server.cpp
index ccfac53..85b3091 100644
--- a/src/http_server.cpp
+++ b/src/http_server.cpp
@@ -117,6 +117,10 @@ void server::handle_request(const http::request_ptr& http_request_ptr,
             // recover gracefully from boost exceptions thrown by request handlers
             PION_LOG_ERROR(m_logger, "HTTP request handler: " << pion::diagnostic_information(e));
             m_server_error_handler(http_request_ptr, tcp_conn, pion::diagnostic_information(e));
+        } catch (...) {
+            // recover gracefully from anything else thrown by request handlers
+            PION_LOG_ERROR(m_logger, "HTTP request handler: unrecognized exception");
+            m_server_error_handler(http_request_ptr, tcp_conn, "unrecognized exception");
         }
         
     } else {
-- 
2.43.0


From 8cb2ca09e50d9bf0207aaa94544e8867878ab338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:42 +0000
Subject: [PATCH 28/52] fix: redirects are looked up under the resource lock

---
 src/http_server.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/http_server.cpp b/src/http_server.cpp
index 85b3091..e65dafe 100644
--- a/src/http_server.cpp
+++ b/src/http_server.cpp
@@ -67,17 +67,20 @@ void server::handle_request(const http::request_ptr& http_request_ptr,
     std::string resource_requested(strip_trailing_slash(http_request_ptr->get_resource()));
 
     // apply any redirection
-    redirect_map_t::const_iterator it = m_redirects.find(resource_requested);
     unsigned int num_redirects = 0;
-    while (it != m_redirects.end()) {
-        if (++num_redirects > MAX_REDIRECTS) {
-            PION_LOG_ERROR(m_logger, "Maximum number of redirects (server::MAX_REDIRECTS) exceeded for requested resource: " << http_request_ptr->get_original_resource());
-            m_server_error_handler(http_request_ptr, tcp_conn, "Maximum number of redirects (server::MAX_REDIRECTS) exceeded for requested resource");
-            return;
+    {
+        boost::mutex::scoped_lock resource_lock(m_resource_mutex);
+        redirect_map_t::const_iterator it = m_redirects.find(resource_requested);
+        while (it != m_redirects.end() && ++num_redirects <= MAX_REDIRECTS) {
+            resource_requested = it->second;
+            http_request_ptr->change_resource(resource_requested);
+            it = m_redirects.find(resource_requested);
         }
-        resource_requested = it->second;
-        http_request_ptr->change_resource(resource_requested);
-        it = m_redirects.find(resource_requested);
+    }
+    if (num_redirects > MAX_REDIRECTS) {
+        PION_LOG_ERROR(m_logger, "Maximum number of redirects (server::MAX_REDIRECTS) exceeded for requested resource: " << http_request_ptr->get_original_resource());
+        m_server_error_handler(http_request_ptr, tcp_conn, "Maximum number of redirects (server::MAX_REDIRECTS) exceeded for requested resource");
+        return;
     }
 
     // if authentication activated, check current request
-- 
2.43.0


From dc0f6566667de594bb2e2f7dd547720f709a59c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:00 +0000
Subject: [PATCH 29/52] fix: a request sent in chunks says so in its headers

---
 include/pion/http/request_writer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pion/http/request_writer.hpp b/include/pion/http/request_writer.hpp
index a8a06e1..e0f7164 100644
--- a/include/pion/http/request_writer.hpp
+++ b/include/pion/http/request_writer.hpp
@@ -118,6 +118,9 @@ protected:
     virtual void prepare_buffers_for_send(http::message::write_buffers_t& write_buffers) {
         if (get_content_length() > 0)
             m_http_request->set_content_length(get_content_length());
+        // make sure the headers announce the chunks that will be sent
+        if (sending_chunked_message())
+            m_http_request->set_chunks_supported(supports_chunked_messages());
         m_http_request->prepare_buffers_for_send(write_buffers,
                                               get_connection()->get_keep_alive(),
                                               sending_chunked_message());
-- 
2.43.0


From adb500cf15afc4780d8014d6ad8ef1d6016cce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:00 +0000
Subject: [PATCH 30/52] fix: message content that begins with a zero byte is
 sent

---
 include/pion/http/request_writer.hpp  | 3 +--
 include/pion/http/response_writer.hpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/pion/http/request_writer.hpp b/include/pion/http/request_writer.hpp
index e0f7164..f36b620 100644
--- a/include/pion/http/request_writer.hpp
+++ b/include/pion/http/request_writer.hpp
@@ -101,8 +101,7 @@ protected:
         // check if we should initialize the payload content using
         // the request's content buffer
         if (m_http_request->get_content_length() > 0
-            && m_http_request->get_content() != NULL
-            && m_http_request->get_content()[0] != '\0')
+            && m_http_request->is_content_buffer_allocated())
         {
             write_no_copy(m_http_request->get_content(),
                         m_http_request->get_content_length());
diff --git a/include/pion/http/response_writer.hpp b/include/pion/http/response_writer.hpp
index a0b58be..2c54ffe 100644
--- a/include/pion/http/response_writer.hpp
+++ b/include/pion/http/response_writer.hpp
@@ -94,8 +94,7 @@ protected:
         // check if we should initialize the payload content using
         // the response's content buffer
         if (m_http_response->get_content_length() > 0
-            && m_http_response->get_content() != NULL
-            && m_http_response->get_content()[0] != '\0')
+            && m_http_response->is_content_buffer_allocated())
         {
             write_no_copy(m_http_response->get_content(), m_http_response->get_content_length());
         }
-- 
2.43.0


From 20f46b71ae649cf499e34d7f03f44fed9a76db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:24 +0000
Subject: [PATCH 31/52] fix: receiving the response to a HEAD request does not
 wait for content

---
 include/pion/http/response.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pion/http/response.hpp b/include/pion/http/response.hpp
index f1d0bcf..6f010fc 100644
--- a/include/pion/http/response.hpp
+++ b/include/pion/http/response.hpp
@@ -69,12 +69,12 @@ public:
     /// virtual destructor
     virtual ~response() {}
 
-    /// clears all response data
+    /// clears all response data; the request method is kept because it is not
+    /// part of the response, and influences how a new one is received
     virtual void clear(void) {
         http::message::clear();
         m_status_code = RESPONSE_CODE_OK;
         m_status_message = RESPONSE_MESSAGE_OK;
-        m_request_method.clear();
     }
 
     /// the content length may be implied for certain types of responses
-- 
2.43.0


From a09732fc109fa760ae91be50c09161d71077a18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:24 +0000
Subject: [PATCH 32/52] fix: sending a response that must not have content does
 not send any

---
 src/http_message.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/http_message.cpp b/src/http_message.cpp
index eabf212..7e57645 100644
--- a/src/http_message.cpp
+++ b/src/http_message.cpp
@@ -37,8 +37,10 @@ std::size_t message::send(tcp::connection& tcp_conn,
     write_buffers_t write_buffers;
     prepare_buffers_for_send(write_buffers, tcp_conn.get_keep_alive(), false);
 
-    // append payload content to write buffers (if there is any)
-    if (!headers_only && get_content_length() > 0 && get_content() != NULL)
+    // append payload content to write buffers (if there is any,
+    // and if the recipient will not take it for the next message)
+    if (!headers_only && get_content_length() > 0 && get_content() != NULL
+        && !is_content_length_implied())
         write_buffers.push_back(boost::asio::buffer(get_content(), get_content_length()));
 
     // send the message and return the result
@@ -161,8 +163,10 @@ std::size_t message::write(std::ostream& out,
     write_buffers_t write_buffers;
     prepare_buffers_for_send(write_buffers, true, false);
 
-    // append payload content to write buffers (if there is any)
-    if (!headers_only && get_content_length() > 0 && get_content() != NULL)
+    // append payload content to write buffers (if there is any,
+    // and if the recipient will not take it for the next message)
+    if (!headers_only && get_content_length() > 0 && get_content() != NULL
+        && !is_content_length_implied())
         write_buffers.push_back(boost::asio::buffer(get_content(), get_content_length()));
 
     // write message to the output stream
-- 
2.43.0


From 0d2b915d6554d164f281c98b6071a7a22b6f91a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:24 +0000
Subject: [PATCH 33/52] fix: a reset or timeout is not taken for the end of a
 message's content

---
 src/http_message.cpp | 5 ++++-
 src/http_reader.cpp  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/http_message.cpp b/src/http_message.cpp
index 7e57645..77e48ab 100644
--- a/src/http_message.cpp
+++ b/src/http_message.cpp
@@ -82,7 +82,10 @@ std::size_t message::receive(tcp::connection& tcp_conn,
         // read more bytes from the connection
         last_bytes_read = tcp_conn.read_some(ec);
         if (ec || last_bytes_read == 0) {
-            if (http_parser.check_premature_eof(*this)) {
+            // (a system error, i.e. a reset, is never the end of the content)
+            if ((ec && ec.category() == boost::asio::error::get_system_category())
+                || http_parser.check_premature_eof(*this))
+            {
                 // premature EOF encountered
                 if (! ec)
                     ec = make_error_code(boost::system::errc::io_error);
diff --git a/src/http_reader.cpp b/src/http_reader.cpp
index ad5433f..be00102 100644
--- a/src/http_reader.cpp
+++ b/src/http_reader.cpp
@@ -141,7 +141,10 @@ void reader::handle_read_error(const boost::system::error_code& read_error)
     m_tcp_conn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);   // make sure it will get closed
 
     // check if this is just a message with unknown content length
-    if (! check_premature_eof(get_message())) {
+    // (a system error, i.e. a reset or timeout, is never the end of its content)
+    if (read_error.category() != boost::asio::error::get_system_category()
+        && ! check_premature_eof(get_message()))
+    {
         boost::system::error_code ec;   // clear error code
         finished_reading(ec);
         return;
-- 
2.43.0


From 3887f170336bb96943675c69a3e047698ba3dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:50 +0000
Subject: [PATCH 34/52] fix: concurrent cookie logins do not share the random
 generator unlocked

---
 src/http_cookie_auth.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index 06f3b38..b099ba7 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -129,18 +129,18 @@ bool cookie_auth::process_login(const http::request_ptr& http_request_ptr, const
         }
         // ok we have a new user session, create  a new cookie, add to cache
 
-        // create random cookie
-        std::string rand_binary;
-        rand_binary.reserve(RANDOM_COOKIE_BYTES);
-        for (unsigned int i=0; i<RANDOM_COOKIE_BYTES ; i++) {
-            rand_binary += static_cast<unsigned char>(m_random_die());
-        }
-        algorithm::base64_encode(rand_binary, new_cookie);
-
-        // add new session to cache
-        boost::posix_time::ptime time_now(boost::posix_time::second_clock::universal_time());
+        // create random cookie (the generator is shared by all threads, so hold on to the
+        // mutex while it is used) and add new session to cache
         boost::mutex::scoped_lock cache_lock(m_cache_mutex);
-        m_user_cache.insert(std::make_pair(new_cookie,std::make_pair(time_now,user)));
+        boost::posix_time::ptime time_now(boost::posix_time::second_clock::universal_time());
+        do {
+            std::string rand_binary;
+            rand_binary.reserve(RANDOM_COOKIE_BYTES);
+            for (unsigned int i=0; i<RANDOM_COOKIE_BYTES ; i++) {
+                rand_binary += static_cast<unsigned char>(m_random_die());
+            }
+            algorithm::base64_encode(rand_binary, new_cookie);
+        } while (! m_user_cache.insert(std::make_pair(new_cookie,std::make_pair(time_now,user))).second);
     } else {
         // process logout sequence
         // if auth cookie presented - clean cache out
-- 
2.43.0


From af4427b7b2f3d5b944eebfe2fdd27f2bc5ae5b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:25 +0000
Subject: [PATCH 35/52] fix: revoked basic-auth credentials do not stay valid
 by being used

---
 src/http_basic_auth.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http_basic_auth.cpp b/src/http_basic_auth.cpp
index cb26648..0646fc4 100644
--- a/src/http_basic_auth.cpp
+++ b/src/http_basic_auth.cpp
@@ -66,8 +66,9 @@ bool basic_auth::handle_request(const http::request_ptr& http_request_ptr, const
             if (user_cache_ptr!=m_user_cache.end()) {
                 // we found the credentials in our cache...
                 // we can approve authorization now!
+                // (note: this must not extend the lifetime of the cache entry, because otherwise
+                // credentials that are used often would remain valid after they were revoked)
                 http_request_ptr->set_user(user_cache_ptr->second.second);
-                user_cache_ptr->second.first = time_now;
                 return true;
             }
     
-- 
2.43.0


From b5cfb8591ca08add5e235cb191b64df5c468e8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:22 +0000
Subject: [PATCH 36/52] fix: base64 decoding does not read outside its table
 for bytes above 127

---
 src/algorithm.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 00ea0b6..15c5904 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -60,12 +60,12 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
         char base64code2 = 0;   // initialized to 0 to suppress warnings
         char base64code3;
 
-        base64code0 = decoding_data[static_cast<int>(input_ptr[i])];
+        base64code0 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
         if(base64code0==nop)            // non base64 character
             return false;
         if(!(++i<input_length)) // we need at least two input bytes for first byte output
             return false;
-        base64code1 = decoding_data[static_cast<int>(input_ptr[i])];
+        base64code1 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
         if(base64code1==nop)            // non base64 character
             return false;
 
@@ -77,7 +77,7 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
                 BOOST_ASSERT( (base64code1 & 0x0f)==0);
                 return true;
             }
-            base64code2 = decoding_data[static_cast<int>(input_ptr[i])];
+            base64code2 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code2==nop)            // non base64 character
                 return false;
 
@@ -90,7 +90,7 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
                 BOOST_ASSERT( (base64code2 & 0x03)==0);
                 return true;
             }
-            base64code3 = decoding_data[static_cast<int>(input_ptr[i])];
+            base64code3 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code3==nop)            // non base64 character
                 return false;
 
-- 
2.43.0


From 6798965d8b8a14b7b69111961f7cf9168f3e2788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:53 +0000
Subject: [PATCH 37/52] fix: the time of the last auth cache cleanup is read
 and written under the lock

---
 src/http_basic_auth.cpp  | 24 +++++++++++++-----------
 src/http_cookie_auth.cpp |  2 +-
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/http_basic_auth.cpp b/src/http_basic_auth.cpp
index 0646fc4..e030d1f 100644
--- a/src/http_basic_auth.cpp
+++ b/src/http_basic_auth.cpp
@@ -39,20 +39,22 @@ bool basic_auth::handle_request(const http::request_ptr& http_request_ptr, const
     }
     
     boost::posix_time::ptime time_now(boost::posix_time::second_clock::universal_time());
-    if (time_now > m_cache_cleanup_time + boost::posix_time::seconds(CACHE_EXPIRATION)) {
-        // expire cache
+    {
+        // expire cache (note: the mutex also protects m_cache_cleanup_time)
         boost::mutex::scoped_lock cache_lock(m_cache_mutex);
-        user_cache_type::iterator i;
-        user_cache_type::iterator next=m_user_cache.begin();
-        while (next!=m_user_cache.end()) {
-            i=next;
-            ++next;
-            if (time_now > i->second.first + boost::posix_time::seconds(CACHE_EXPIRATION)) {
-                // ok - this is an old record.. expire it now
-                m_user_cache.erase(i);
+        if (time_now > m_cache_cleanup_time + boost::posix_time::seconds(CACHE_EXPIRATION)) {
+            user_cache_type::iterator i;
+            user_cache_type::iterator next=m_user_cache.begin();
+            while (next!=m_user_cache.end()) {
+                i=next;
+                ++next;
+                if (time_now > i->second.first + boost::posix_time::seconds(CACHE_EXPIRATION)) {
+                    // ok - this is an old record.. expire it now
+                    m_user_cache.erase(i);
+                }
             }
+            m_cache_cleanup_time = time_now;
         }
-        m_cache_cleanup_time = time_now;
     }
     
     // if we are here, we need to check if access authorized...
diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index b099ba7..0ea8f72 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -260,9 +260,9 @@ void cookie_auth::handle_ok(const http::request_ptr& http_request_ptr,
 
 void cookie_auth::expire_cache(const boost::posix_time::ptime &time_now)
 {
+    boost::mutex::scoped_lock cache_lock(m_cache_mutex);    // (also protects m_cache_cleanup_time)
     if (time_now > m_cache_cleanup_time + boost::posix_time::seconds(CACHE_EXPIRATION)) {
         // expire cache
-        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         user_cache_type::iterator i;
         user_cache_type::iterator next=m_user_cache.begin();
         while (next!=m_user_cache.end()) {
-- 
2.43.0


From 90d1764fc649b22904d01ba4ae75ca8e4f1027f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:38 +0000
Subject: [PATCH 38/52] fix: the file service served files of directories whose
 name starts like its own

The request path was compared with the configured directory as text, so that
/srv/www-private/x was taken to be within /srv/www and could be read, and on
a writable service changed or deleted, with a request such as
/files/../www-private/x. Compare whole path elements.
The single file the service is configured with needs no such check: it was
refused where it is spelled differently from the directory.
---
 services/FileService.cpp | 30 +++++++++++++++++++++++-------
 services/FileService.hpp |  7 +++++++
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 342bc87..2e0d3ca 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -148,14 +148,9 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
     }
 
     // make sure that the requested file is within the configured directory
+    // (the single file that may be configured needs no check)
     file_path.normalize();
-# if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
-    std::string file_string = file_path.string();
-    if (file_string.find(m_directory.string()) != 0) {
-#else
-    std::string file_string = file_path.file_string();
-    if (file_string.find(m_directory.directory_string()) != 0) {
-#endif
+    if (! relative_path.empty() && ! isWithinDirectory(file_path)) {
         PION_LOG_WARN(m_logger, "Request for file outside of directory ("
                       << get_resource() << "): " << relative_path);
         static const std::string FORBIDDEN_HTML_START =
@@ -565,6 +560,27 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
     }
 }
 
+bool FileService::isWithinDirectory(const boost::filesystem::path& file_path) const
+{
+    if (file_path.has_root_directory() != m_directory.has_root_directory())
+        return false;
+
+    // compare whole path elements, so that "/www-private" is not within "/www"
+    boost::filesystem::path::iterator file_itr = file_path.begin();
+    for (boost::filesystem::path::iterator dir_itr = m_directory.begin();
+         dir_itr != m_directory.end(); ++dir_itr)
+    {
+        if (*dir_itr == ".")
+            continue;   // from a trailing slash, or the current directory
+        if (file_itr == file_path.end() || *file_itr != *dir_itr)
+            return false;
+        ++file_itr;
+    }
+
+    // the remainder must not lead out of the directory again
+    return (file_itr == file_path.end() || *file_itr != "..");
+}
+
 void FileService::sendNotFoundResponse(const http::request_ptr& http_request_ptr,
                                        const tcp::connection_ptr& tcp_conn)
 {
diff --git a/services/FileService.hpp b/services/FileService.hpp
index a93dbfa..c8bccbe 100644
--- a/services/FileService.hpp
+++ b/services/FileService.hpp
@@ -308,6 +308,13 @@ protected:
      */
     static std::string findMIMEType(const std::string& file_name);
 
+    /**
+     * checks if a file is within the configured directory
+     *
+     * @param file_path normalized path of the file
+     */
+    bool isWithinDirectory(const boost::filesystem::path& file_path) const;
+
     void sendNotFoundResponse(const pion::http::request_ptr& http_request_ptr,
                               const pion::tcp::connection_ptr& tcp_conn);
 
-- 
2.43.0


From b259c5c5a7a69417a9ecb3146ea3cf74949a8e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:10 +0000
Subject: [PATCH 39/52] fix: the file service left requests without an answer,
 or served wrong bytes, when a file could not be read

DiskFileSender gave up without a word when the file could not be opened or
read: the client never got an answer. Now the server responds with an error,
or, when a part of the response has been sent, the connection is closed.
A failing read left uninitialised memory, and a failing re-read the old bytes
under the new size, in the cache, to be served as a success to later requests.
A file replaced by a larger one between looking up its size and opening it was
served cut to the old size. The size now is that of the file opened.
---
 services/FileService.cpp | 120 ++++++++++++++++++++++++++-------------
 services/FileService.hpp |  13 +++++
 2 files changed, 92 insertions(+), 41 deletions(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 2e0d3ca..8a1abc4 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -774,51 +774,70 @@ void FileService::createMIMETypes(void) {
 
 void DiskFile::update(void)
 {
+    // get current values (may throw, so nothing is changed until all are known)
+    const std::streamsize cur_size = boost::numeric_cast<std::streamsize>(boost::filesystem::file_size( m_file_path ));
+    const time_t cur_modified = boost::filesystem::last_write_time( m_file_path );
+
     // set file_size and last_modified
-    m_file_size = boost::numeric_cast<std::streamsize>(boost::filesystem::file_size( m_file_path ));
-    m_last_modified = boost::filesystem::last_write_time( m_file_path );
-    m_last_modified_string = http::types::get_date_string( m_last_modified );
+    m_last_modified_string = http::types::get_date_string( cur_modified );
+    m_last_modified = cur_modified;
+    m_file_size = cur_size;
 }
 
 void DiskFile::read(void)
 {
-    // re-allocate storage buffer for the file's content
-    m_file_content.reset(new char[m_file_size]);
-
-    // open the file for reading
     boost::filesystem::ifstream file_stream;
-    file_stream.open(m_file_path, std::ios::in | std::ios::binary);
+    if (open(file_stream)) {
+        // allocate a storage buffer for the file's content
+        boost::shared_array<char> file_content(new char[m_file_size]);
+
+        // read the file into memory
+        if (file_stream.read(file_content.get(), m_file_size)) {
+            m_file_content = file_content;
+            return;
+        }
+    }
 
-    // read the file into memory
-    if (!file_stream.is_open() || !file_stream.read(m_file_content.get(), m_file_size)) {
 # if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
-        const std::string file_name = m_file_path.string();
+    const std::string file_name = m_file_path.string();
 #else
-        const std::string file_name = m_file_path.file_string();
+    const std::string file_name = m_file_path.file_string();
 #endif
-        BOOST_THROW_EXCEPTION( error::read_file() << error::errinfo_file_name(file_name) );
+    BOOST_THROW_EXCEPTION( error::read_file() << error::errinfo_file_name(file_name) );
+}
+
+bool DiskFile::open(boost::filesystem::ifstream& file_stream)
+{
+    // open the file for reading
+    file_stream.open(m_file_path, std::ios::in | std::ios::binary);
+    if (! file_stream.is_open())
+        return false;
+
+    // the file may have been replaced since its size was determined:
+    // use the size of the file that we have got
+    const std::streamoff cur_size = file_stream.seekg(0, std::ios::end).tellg();
+    if (cur_size < 0 || ! file_stream.seekg(0, std::ios::beg)) {
+        file_stream.close();
+        return false;
     }
+    m_file_size = boost::numeric_cast<std::streamsize>(cur_size);
+    return true;
 }
 
 bool DiskFile::checkUpdated(void)
 {
     // get current values
-    std::streamsize cur_size = boost::numeric_cast<std::streamsize>(boost::filesystem::file_size( m_file_path ));
-    time_t cur_modified = boost::filesystem::last_write_time( m_file_path );
+    DiskFile cur_file(*this);
+    cur_file.update();
 
     // check if file has not been updated
-    if (cur_modified == m_last_modified && cur_size == m_file_size)
+    if (cur_file.m_last_modified == m_last_modified && cur_file.m_file_size == m_file_size)
         return false;
 
-    // file has been updated
-
-    // update file_size and last_modified timestamp
-    m_file_size = cur_size;
-    m_last_modified = cur_modified;
-    m_last_modified_string = http::types::get_date_string( m_last_modified );
-
-    // read new contents
-    read();
+    // file has been updated: read new contents (may throw, in which case
+    // the file will be found to be updated again by the next check)
+    cur_file.read();
+    *this = cur_file;
 
     return true;
 }
@@ -857,6 +876,22 @@ DiskFileSender::DiskFileSender(DiskFile& file, const pion::http::request_ptr& ht
 
 void DiskFileSender::send(void)
 {
+    // check if the file needs to be opened (the entire file may be cached in memory)
+    if (! m_disk_file.hasFileContent() && ! m_file_stream.is_open()) {
+        // open the file for reading (this may update the size of the file)
+        if (! m_disk_file.open(m_file_stream)) {
+# if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
+            PION_LOG_ERROR(m_logger, "Unable to open file: "
+                           << m_disk_file.getFilePath().string());
+#else
+            PION_LOG_ERROR(m_logger, "Unable to open file: "
+                           << m_disk_file.getFilePath().file_string());
+#endif
+            handle_read_error();
+            return;
+        }
+    }
+
     // check if we have nothing to send (send 0 byte response content)
     if (m_disk_file.getFileSize() <= m_bytes_sent) {
         m_writer->send();
@@ -879,22 +914,6 @@ void DiskFileSender::send(void)
     } else {
         // the file is not cached in memory
 
-        // check if the file has been opened yet
-        if (! m_file_stream.is_open()) {
-            // open the file for reading
-            m_file_stream.open(m_disk_file.getFilePath(), std::ios::in | std::ios::binary);
-            if (! m_file_stream.is_open()) {
-# if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
-                PION_LOG_ERROR(m_logger, "Unable to open file: "
-                               << m_disk_file.getFilePath().string());
-#else
-                PION_LOG_ERROR(m_logger, "Unable to open file: "
-                               << m_disk_file.getFilePath().file_string());
-#endif
-                return;
-            }
-        }
-
         // check if the content buffer was initialized yet
         if (! m_content_buf) {
             // allocate memory for the new content buffer
@@ -921,6 +940,7 @@ void DiskFileSender::send(void)
                                << m_disk_file.getFilePath().file_string());
 #endif
             }
+            handle_read_error();
             return;
         }
     }
@@ -952,6 +972,24 @@ void DiskFileSender::send(void)
     }
 }
 
+void DiskFileSender::handle_read_error(void)
+{
+    if (m_bytes_sent == 0) {
+        // nothing has been sent yet: let the server respond with an error
+# if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
+        const std::string file_name = m_disk_file.getFilePath().string();
+#else
+        const std::string file_name = m_disk_file.getFilePath().file_string();
+#endif
+        BOOST_THROW_EXCEPTION( error::read_file() << error::errinfo_file_name(file_name) );
+    }
+
+    // the rest of the file cannot be sent: the client can only be told by
+    // closing the connection before the response is complete
+    m_writer->get_connection()->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE); // make sure it will get closed
+    m_writer->get_connection()->finish();
+}
+
 void DiskFileSender::handle_write(const boost::system::error_code& write_error,
                                  std::size_t /* bytes_written */)
 {
diff --git a/services/FileService.hpp b/services/FileService.hpp
index c8bccbe..72b4550 100644
--- a/services/FileService.hpp
+++ b/services/FileService.hpp
@@ -13,6 +13,7 @@
 #include <boost/shared_ptr.hpp>
 #include <boost/functional/hash.hpp>
 #include <boost/filesystem/path.hpp>
+#include <boost/filesystem/fstream.hpp>
 #include <boost/thread/once.hpp>
 #include <boost/thread/mutex.hpp>
 #include <boost/shared_array.hpp>
@@ -61,6 +62,14 @@ public:
     /// reads content from disk into file_content buffer (may throw)
     void read(void);
 
+    /**
+     * opens the file for reading and sets file_size to the size of what was opened
+     *
+     * @param file_stream the stream used to read the file
+     * @return true if the file was opened
+     */
+    bool open(boost::filesystem::ifstream& file_stream);
+
     /**
      * checks if the file has been updated and updates vars if it has (may throw)
      *
@@ -193,6 +202,10 @@ protected:
                      std::size_t bytes_written);
 
 
+    /// called if the file cannot be read (throws if nothing has been sent yet)
+    void handle_read_error(void);
+
+
     /// primary logging interface used by this class
     logger                              m_logger;
 
-- 
2.43.0


From c32eba74bf620e31d1d1cfe38d6ee5670adba83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:06 +0000
Subject: [PATCH 40/52] fix: the file service reported success for uploads that
 failed, and served old content after uploads

Errors while writing a file were ignored: PUT and POST answered 201 or 204
when the disk was full. Two concurrent uploads of a file could leave a mix of
both. A cached copy of a file stayed in use after PUT or POST where size and
second of modification were unchanged (or always, with cache=2).
---
 services/FileService.cpp | 23 +++++++++++++++++++++--
 services/FileService.hpp | 14 ++++++++++++++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 8a1abc4..b112001 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -354,6 +354,9 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
             } else {
                 response_type = RESPONSE_OK;
                 if (m_cache_setting != 0) {
+                    // other requests may not change the file until the entry has been added
+                    boost::mutex::scoped_lock cache_lock(m_cache_mutex);
+                    response_file.update();
                     if (m_max_cache_size==0 || response_file.getFileSize() <= m_max_cache_size) {
                         // read the file (may throw exception)
                         response_file.read();
@@ -361,7 +364,6 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                     // add new entry to the cache
                     PION_LOG_DEBUG(m_logger, "Adding cache entry for request ("
                                    << get_resource() << "): " << relative_path);
-                    boost::mutex::scoped_lock cache_lock(m_cache_mutex);
                     m_cache_map.insert( std::make_pair(relative_path, response_file) );
                 }
             }
@@ -436,6 +438,11 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
         } else {
             http::response_writer_ptr writer(http::response_writer::create(tcp_conn, *http_request_ptr,
                                          boost::bind(&tcp::connection::finish, tcp_conn)));
+
+            // change files one request at a time, and not while they are being cached
+            boost::mutex::scoped_lock cache_lock(m_cache_mutex);
+            invalidateCacheEntries(file_path);
+
             if (http_request_ptr->get_method() == http::types::REQUEST_METHOD_POST
                 || http_request_ptr->get_method() == http::types::REQUEST_METHOD_PUT)
             {
@@ -484,7 +491,10 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                 boost::filesystem::ofstream file_stream(file_path, mode);
                 file_stream.write(http_request_ptr->get_content(), http_request_ptr->get_content_length());
                 file_stream.close();
-                if (!boost::filesystem::exists(file_path)) {
+                if (!file_stream || !boost::filesystem::exists(file_path)) {
+                    // discard the response prepared for success
+                    writer->clear();
+                    writer->get_response().delete_header(http::types::HEADER_LOCATION);
                     static const std::string PUT_FAILED_HTML_START =
                         "<html><head>\n"
                         "<title>500 Server Error</title>\n"
@@ -560,6 +570,15 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
     }
 }
 
+void FileService::invalidateCacheEntries(const boost::filesystem::path& file_path)
+{
+    const boost::filesystem::path changed_path(boost::filesystem::absolute(file_path).normalize());
+    for (CacheMap::iterator i = m_cache_map.begin(); i != m_cache_map.end(); ++i) {
+        if (boost::filesystem::absolute(i->second.getFilePath()).normalize() == changed_path)
+            i->second.invalidate();
+    }
+}
+
 bool FileService::isWithinDirectory(const boost::filesystem::path& file_path) const
 {
     if (file_path.has_root_directory() != m_directory.has_root_directory())
diff --git a/services/FileService.hpp b/services/FileService.hpp
index 72b4550..15d24ff 100644
--- a/services/FileService.hpp
+++ b/services/FileService.hpp
@@ -77,6 +77,12 @@ public:
      */
     bool checkUpdated(void);
 
+    /// forgets what is known about the file, so that it will be read again
+    inline void invalidate(void) {
+        m_last_modified = 0;
+        m_file_content.reset();
+    }
+
     /// return path to the cached file
     inline const boost::filesystem::path& getFilePath(void) const { return m_file_path; }
 
@@ -321,6 +327,14 @@ protected:
      */
     static std::string findMIMEType(const std::string& file_name);
 
+    /**
+     * makes sure that a file that is about to be changed will be read again
+     * (m_cache_mutex must be locked)
+     *
+     * @param file_path path of the file
+     */
+    void invalidateCacheEntries(const boost::filesystem::path& file_path);
+
     /**
      * checks if a file is within the configured directory
      *
-- 
2.43.0


From 48106e198d459627fb4037294f62a5b458ca668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:25 +0000
Subject: [PATCH 41/52] fix: the last line of a service configuration was
 ignored without a newline, and a read error was taken for the end of the file

---
 src/http_plugin_server.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/http_plugin_server.cpp b/src/http_plugin_server.cpp
index be729b0..d265de5 100644
--- a/src/http_plugin_server.cpp
+++ b/src/http_plugin_server.cpp
@@ -75,8 +75,18 @@ void plugin_server::load_service_config(const std::string& config_name)
     std::string option_name_string;
     std::string option_value_string;
     int c = config_stream.get();    // read the first character
+    bool end_of_file = false;
     
-    while (config_stream) {
+    while (! end_of_file) {
+        if (! config_stream) {
+            // make sure that the whole file has been read
+            if (config_stream.bad() || ! config_stream.eof())
+                BOOST_THROW_EXCEPTION( error::read_file() << error::errinfo_file_name(config_name) );
+            // the last line may not be terminated
+            end_of_file = true;
+            c = '\n';
+        }
+
         switch(parse_state) {
         case PARSE_NEWLINE:
             // parsing command portion (or beginning of line)
-- 
2.43.0


From 56e7dd49660c0c02db432df7dbdf956368c605e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:28 +0000
Subject: [PATCH 42/52] fix: web services were left started when the server
 could not be started, and started again by the next attempt

---
 include/pion/http/plugin_server.hpp | 26 +++++++++++++++++++++++++-
 src/tcp_server.cpp                  |  2 ++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/plugin_server.hpp b/include/pion/http/plugin_server.hpp
index 786af3e..6336d7c 100644
--- a/include/pion/http/plugin_server.hpp
+++ b/include/pion/http/plugin_server.hpp
@@ -10,9 +10,11 @@
 #ifndef __PION_PLUGIN_SERVER_HEADER__
 #define __PION_PLUGIN_SERVER_HEADER__
 
+#include <set>
 #include <string>
 #include <boost/asio.hpp>
 #include <boost/bind.hpp>
+#include <boost/ref.hpp>
 #include <boost/shared_ptr.hpp>
 #include <pion/config.hpp>
 #include <pion/plugin.hpp>
@@ -137,7 +139,14 @@ protected:
     /// called before the TCP server starts listening for new connections
     virtual void before_starting(void) {
         // call the start() method for each web service associated with this server
-        m_services.run(boost::bind(&http::plugin_service::start, _1));
+        std::set<http::plugin_service*> started;
+        try {
+            m_services.run(boost::bind(&plugin_server::start_service, _1, boost::ref(started)));
+        } catch (...) {
+            // do not leave some of them started when the server does not start
+            m_services.run(boost::bind(&plugin_server::stop_service, _1, boost::cref(started)));
+            throw;
+        }
     }
     
     /// called after the TCP server has stopped listening for new connections
@@ -152,6 +161,21 @@ private:
     /// data type for a collection of web services
     typedef plugin_manager<http::plugin_service>   service_manager_t;
     
+    /// starts a web service and remembers that it has been started
+    static void start_service(http::plugin_service *service_ptr,
+                              std::set<http::plugin_service*>& started)
+    {
+        service_ptr->start();
+        started.insert(service_ptr);
+    }
+    
+    /// stops a web service if it has been started
+    static void stop_service(http::plugin_service *service_ptr,
+                             const std::set<http::plugin_service*>& started)
+    {
+        if (started.count(service_ptr)) service_ptr->stop();
+    }
+    
     
     /// Web services associated with this server
     service_manager_t       m_services;
diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 7944cee..5243d82 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -103,6 +103,8 @@ void server::start(void)
             // leave the acceptor closed, so that the server can be started again
             boost::system::error_code ec;
             m_tcp_acceptor.close(ec);
+            // undo what has been done before starting
+            after_stopping();
             throw;
         }
 
-- 
2.43.0


From 88ba85fa48d43cf5c452f44ef57b5e6fe9f1f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:12 +0000
Subject: [PATCH 43/52] fix: a web service loaded into a running server could
 get requests before it knew its resource

---
 src/http_plugin_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http_plugin_server.cpp b/src/http_plugin_server.cpp
index d265de5..90dbeed 100644
--- a/src/http_plugin_server.cpp
+++ b/src/http_plugin_server.cpp
@@ -37,8 +37,8 @@ void plugin_server::load_service(const std::string& resource, const std::string&
     const std::string clean_resource(strip_trailing_slash(resource));
     http::plugin_service *service_ptr;
     service_ptr = m_services.load(clean_resource, service_name);
-    http::server::add_resource(clean_resource, boost::ref(*service_ptr));
     service_ptr->set_resource(clean_resource);
+    http::server::add_resource(clean_resource, boost::ref(*service_ptr));
     PION_LOG_INFO(m_logger, "Loaded web service plug-in for resource (" << clean_resource << "): " << service_name);
 }
 
-- 
2.43.0


From 6767bbaa273ee6236338911bd5065baf692a918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 44/52] fix: the cookie service put request text into its page
 without escaping it

---
 services/CookieService.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/services/CookieService.cpp b/services/CookieService.cpp
index 7f8327a..5710fc3 100644
--- a/services/CookieService.cpp
+++ b/services/CookieService.cpp
@@ -43,7 +43,8 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
             } else {
                 writer->get_response().set_cookie(cookie_name, cookie_value);
                 writer << "\n<p>[Added cookie "
-                    << cookie_name << '=' << cookie_value << "]</p>\n\n";
+                    << algorithm::xml_encode(cookie_name) << '='
+                    << algorithm::xml_encode(cookie_value) << "]</p>\n\n";
             }
         } else if (http_request_ptr->get_query("action") == "delete") {
             const std::string cookie_name(http_request_ptr->get_query("cookie_name"));
@@ -51,7 +52,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
                 writer << "\n<p>[Error: You must specify a name to delete a cookie]</p>\n\n";
             } else {
                 writer->get_response().delete_cookie(cookie_name);
-                writer << "\n<p>[Deleted cookie " << cookie_name << "]</p>\n\n";
+                writer << "\n<p>[Deleted cookie " << algorithm::xml_encode(cookie_name) << "]</p>\n\n";
             }
         } else {
             writer << "\n<p>[Error: Unrecognized action]</p>\n\n";
@@ -67,7 +68,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
              header_iterator != http_request_ptr->get_headers().end()
              && header_iterator != header_pair.second; ++header_iterator)
         {
-            writer << "<li>Cookie: " << header_iterator->second << "\n";
+            writer << "<li>Cookie: " << algorithm::xml_encode(header_iterator->second) << "\n";
         }
         writer << "</ul>\n\n";
     } else {
@@ -81,9 +82,9 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
         for (ihash_multimap::const_iterator i = cookie_params.begin();
              i != cookie_params.end(); ++i)
         {
-            writer << "<li>" << i->first << ": " << i->second
-                << " <a href=\"" << http_request_ptr->get_resource()
-                << "?action=delete&cookie_name=" << i->first
+            writer << "<li>" << algorithm::xml_encode(i->first) << ": " << algorithm::xml_encode(i->second)
+                << " <a href=\"" << algorithm::xml_encode(http_request_ptr->get_resource())
+                << "?action=delete&cookie_name=" << algorithm::xml_encode(i->first)
                 << "\">[Delete]</a>\n";
         }
         writer << "</ul>\n\n";
@@ -93,7 +94,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
 
     // display form to add a cookie
     writer << "\n<h2>Add Cookie</h2>\n"
-        "<p><form action=\"" << http_request_ptr->get_resource() << "\" method=\"POST\">\n"
+        "<p><form action=\"" << algorithm::xml_encode(http_request_ptr->get_resource()) << "\" method=\"POST\">\n"
         "Name: <input type=\"text\" name=\"cookie_name\"><br />\n"
         "Value: <input type=\"text\" name=\"cookie_value\"><br />\n"
         "<input type=\"submit\" name=\"action\" value=\"Add Cookie\"></p>\n"
-- 
2.43.0


From 17671a3e475cde5ec9a2e6184184a2a61b2f1bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 45/52] fix: line breaks in header values (such as the url of a
 login) let clients forge response headers and whole responses

---
 include/pion/http/message.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 466799d..6ddf6bd 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -593,7 +593,15 @@ protected:
      */
     inline void append_headers(write_buffers_t& write_buffers) {
         // add HTTP headers
-        for (ihash_multimap::const_iterator i = m_headers.begin(); i != m_headers.end(); ++i) {
+        for (ihash_multimap::iterator i = m_headers.begin(); i != m_headers.end(); ++i) {
+            // a line break would end the header, and let the rest of it pass for another one
+            if (i->first.find_first_of("\r\n") != std::string::npos)
+                continue;
+            for (std::string::size_type pos = i->second.find_first_of("\r\n"); pos != std::string::npos;
+                 pos = i->second.find_first_of("\r\n", pos))
+            {
+                i->second[pos] = ' ';
+            }
             write_buffers.push_back(boost::asio::buffer(i->first));
             write_buffers.push_back(boost::asio::buffer(HEADER_NAME_VALUE_DELIMITER));
             write_buffers.push_back(boost::asio::buffer(i->second));
-- 
2.43.0


From f6430378fee6cf8d9f54668b2781b06c01d5ea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 46/52] fix: the file service put file names into an error page
 without escaping them

---
 services/FileService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index b112001..4154970 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -535,7 +535,7 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                         writer->write_no_copy(DELETE_FAILED_HTML_START);
                         writer << algorithm::xml_encode(http_request_ptr->get_resource())
                             << ".</p><p>"
-                            << boost::diagnostic_information(e);
+                            << algorithm::xml_encode(boost::diagnostic_information(e));
                         writer->write_no_copy(DELETE_FAILED_HTML_FINISH);
                         writer->send();
                     }
-- 
2.43.0


From 1c368c354795dcae34c97a699c39ba2139c9ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:48 +0000
Subject: [PATCH 47/52] fix: reading a message from a stream that had already
 ended was reported as a success

---
 src/http_message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http_message.cpp b/src/http_message.cpp
index 77e48ab..efc2ae0 100644
--- a/src/http_message.cpp
+++ b/src/http_message.cpp
@@ -199,7 +199,7 @@ std::size_t message::read(std::istream& in,
     // parse data from file one byte at a time
     boost::tribool parse_result;
     char c;
-    while (in) {
+    while (true) {
         in.read(&c, 1);
         if ( ! in ) {
             ec = make_error_code(boost::system::errc::io_error);
-- 
2.43.0


From 7ac6b16ac648366f89eea6f7879524f8c65bfe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:28 +0000
Subject: [PATCH 48/52] fix: a message received in chunks announced chunks when
 sent or written in one piece, so that nobody could read it

---
 src/http_message.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/http_message.cpp b/src/http_message.cpp
index efc2ae0..42fa855 100644
--- a/src/http_message.cpp
+++ b/src/http_message.cpp
@@ -33,6 +33,10 @@ const boost::regex  message::REGEX_ICASE_CHUNKED(".*chunked.*", boost::regex::ic
 std::size_t message::send(tcp::connection& tcp_conn,
                           boost::system::error_code& ec, bool headers_only)
 {
+    // the content is sent in one piece, even if it has been received in chunks
+    if (!headers_only && is_chunked())
+        delete_header(HEADER_TRANSFER_ENCODING);
+
     // initialize write buffers for send operation using HTTP headers
     write_buffers_t write_buffers;
     prepare_buffers_for_send(write_buffers, tcp_conn.get_keep_alive(), false);
@@ -162,6 +166,10 @@ std::size_t message::write(std::ostream& out,
     // reset error_code
     ec.clear();
 
+    // the content is sent in one piece, even if it has been received in chunks
+    if (!headers_only && is_chunked())
+        delete_header(HEADER_TRANSFER_ENCODING);
+
     // initialize write buffers for send operation using HTTP headers
     write_buffers_t write_buffers;
     prepare_buffers_for_send(write_buffers, true, false);
-- 
2.43.0


From 0369be8fad7b126eca944552739350f5d22c8626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:02 +0000
Subject: [PATCH 49/52] fix: cookie values with separators in them were sent
 unquoted, so that they were received as other cookies

---
 include/pion/http/request.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/request.hpp b/include/pion/http/request.hpp
index 65b67cd..12cc32a 100644
--- a/include/pion/http/request.hpp
+++ b/include/pion/http/request.hpp
@@ -185,7 +185,15 @@ protected:
             std::string cookie_header;
             cookie_header = i->first;
             cookie_header += COOKIE_NAME_VALUE_DELIMITER;
-            cookie_header += i->second;
+            if (i->second.find_first_of(" ,;\"'") == std::string::npos) {
+                cookie_header += i->second;
+            } else {
+                // quote the value because it would otherwise end too early
+                const char quote = (i->second.find('"') == std::string::npos ? '"' : '\'');
+                cookie_header += quote;
+                cookie_header += i->second;
+                cookie_header += quote;
+            }
             add_header(HEADER_COOKIE, cookie_header);
         }
     }
-- 
2.43.0


From 5e43b819e0dc807cbc87379f8745f3f138209610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 50/52] fix: a read error in the middle of content without a
 length was taken for its end when reading a message from a stream

---
 src/http_message.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http_message.cpp b/src/http_message.cpp
index 42fa855..735f0eb 100644
--- a/src/http_message.cpp
+++ b/src/http_message.cpp
@@ -219,7 +219,8 @@ std::size_t message::read(std::istream& in,
     }
 
     if (boost::indeterminate(parse_result)) {
-        if (http_parser.check_premature_eof(*this)) {
+        // (a failure of the stream's device is never the end of the content)
+        if (in.bad() || http_parser.check_premature_eof(*this)) {
             // premature EOF encountered
             if (! ec)
                 ec = make_error_code(boost::system::errc::io_error);
-- 
2.43.0


From f15348017d7d4ac6919550551e67de372421deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:45 +0000
Subject: [PATCH 51/52] fix: a user or group whose password field is empty was
 given the identity of the next field

---
 src/admin_rights.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/admin_rights.cpp b/src/admin_rights.cpp
index 5d28618..5a16a68 100644
--- a/src/admin_rights.cpp
+++ b/src/admin_rights.cpp
@@ -132,7 +132,8 @@ long admin_rights::find_system_id(const std::string& name,
 
     // find id in system file
     typedef boost::tokenizer<boost::char_separator<char> > Tok;
-    boost::char_separator<char> sep(":");
+    // fields (such as the password) may be empty
+    boost::char_separator<char> sep(":", "", boost::keep_empty_tokens);
     std::string line;
     boost::int32_t system_id = -1;
 
-- 
2.43.0


From 0a3001085306212a2906e834da27a10f601268b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:45 +0000
Subject: [PATCH 52/52] fix: user and group ids above 2147483647 could not be
 used

---
 src/admin_rights.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/admin_rights.cpp b/src/admin_rights.cpp
index 5a16a68..3f9cf3f 100644
--- a/src/admin_rights.cpp
+++ b/src/admin_rights.cpp
@@ -121,7 +121,7 @@ long admin_rights::find_system_id(const std::string& name,
     // check if name is the system id
     const boost::regex just_numbers("\\d+");
     if (boost::regex_match(name, just_numbers)) {
-        return boost::lexical_cast<boost::int32_t>(name);
+        return boost::lexical_cast<boost::uint32_t>(name);
     }
 
     // open system file
@@ -135,7 +135,7 @@ long admin_rights::find_system_id(const std::string& name,
     // fields (such as the password) may be empty
     boost::char_separator<char> sep(":", "", boost::keep_empty_tokens);
     std::string line;
-    boost::int32_t system_id = -1;
+    long system_id = -1;
 
     while (std::getline(system_file, line, '\n')) {
         Tok tokens(line, sep);
@@ -146,7 +146,7 @@ long admin_rights::find_system_id(const std::string& name,
                 && boost::regex_match(*token_it, just_numbers))
             {
                 // found id as third parameter
-                system_id = boost::lexical_cast<boost::int32_t>(*token_it);
+                system_id = boost::lexical_cast<boost::uint32_t>(*token_it);
             }
             break;
         }
-- 
2.43.0

