From 75d08410f6aabcf5f63b0cc3da868a6fd8580adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:28 +0000
Subject: [PATCH 01/45] fix: session lookup must not undo concurrent updates or
 resurrect destroyed sessions

---
 src/shared/session.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index 180f3c5..9fdaa37 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -172,18 +172,12 @@ impl SessionManager {
 
     /// Get a session by ID.
     pub fn get_session(&self, session_id: &str) -> Option<Session> {
-        self.sessions.get(session_id).map(|entry| {
-            let mut session = entry.clone();
+        self.sessions.get_mut(session_id).map(|mut entry| {
+            // Update last activity in place: writing a copy back would undo a
+            // concurrent update and bring back a concurrently destroyed session.
+            entry.last_activity = Utc::now();
 
-            // Update last activity
-            session.last_activity = Utc::now();
-
-            // Update in storage
-            drop(entry);
-            self.sessions
-                .insert(session_id.to_string(), session.clone());
-
-            session
+            entry.clone()
         })
     }
 
-- 
2.43.0


From f68ec1052718fa597bc79232e56eb7ca79ad57eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:28 +0000
Subject: [PATCH 02/45] fix: concurrent session creation must respect the
 session limit

---
 src/shared/session.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index 9fdaa37..e0b7359 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -84,6 +84,9 @@ pub struct SessionManager {
     /// Session storage.
     sessions: Arc<DashMap<String, Session>>,
 
+    /// Held while a session is added, so that the limit check and the insertion are one step.
+    create_lock: parking_lot::Mutex<()>,
+
     /// Configuration.
     config: SessionConfig,
 
@@ -132,6 +135,7 @@ impl SessionManager {
     pub fn new(config: SessionConfig) -> Self {
         Self {
             sessions: Arc::new(DashMap::new()),
+            create_lock: parking_lot::Mutex::new(()),
             config,
             callbacks: Arc::new(SessionCallbacks::default()),
         }
@@ -139,6 +143,8 @@ impl SessionManager {
 
     /// Create a new session.
     pub fn create_session(&self, client_info: Option<ClientInfo>) -> Result<Session> {
+        let guard = self.create_lock.lock();
+
         // Check session limit
         if self.sessions.len() >= self.config.max_sessions {
             return Err(Error::protocol(
@@ -160,6 +166,7 @@ impl SessionManager {
         };
 
         self.sessions.insert(session.id.clone(), session.clone());
+        drop(guard);
 
         // Call creation callback
         if let Some(callback) = &self.callbacks.on_create {
-- 
2.43.0


From 82f338d3c8e3acc1a993f4fab5d94fc047e8010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:57 +0000
Subject: [PATCH 03/45] fix: a refresh token must be redeemable only once under
 concurrency

---
 src/server/auth/oauth2.rs | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/src/server/auth/oauth2.rs b/src/server/auth/oauth2.rs
index da623e3..ae150da 100644
--- a/src/server/auth/oauth2.rs
+++ b/src/server/auth/oauth2.rs
@@ -640,37 +640,20 @@ impl OAuthProvider for InMemoryOAuthProvider {
     }
 
     async fn refresh_token(&self, refresh_token: &str) -> Result<AccessToken> {
-        // Get associated access token
-        let refresh_tokens = self.refresh_tokens.read().await;
-        let old_token = refresh_tokens
-            .get(refresh_token)
-            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?
-            .clone();
-
-        // Get token info
-        let tokens = self.tokens.read().await;
-        let token_info = tokens
-            .get(&old_token)
-            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?;
-
-        let client_id = token_info.client_id.clone();
-        let user_id = token_info.user_id.clone();
-        let scopes = token_info.scopes.clone();
-
-        drop(tokens);
-        drop(refresh_tokens);
-
-        // Remove old tokens
+        // Claim the refresh token and its access token in one step, so that
+        // concurrent callers cannot redeem the same refresh token twice.
+        let mut refresh_tokens = self.refresh_tokens.write().await;
         let mut tokens = self.tokens.write().await;
-        tokens.remove(&old_token);
+        let token_info = refresh_tokens
+            .remove(refresh_token)
+            .and_then(|old_token| tokens.remove(&old_token))
+            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?;
         drop(tokens);
-
-        let mut refresh_tokens = self.refresh_tokens.write().await;
-        refresh_tokens.remove(refresh_token);
         drop(refresh_tokens);
 
         // Create new token
-        self.create_access_token(&client_id, &user_id, scopes).await
+        self.create_access_token(&token_info.client_id, &token_info.user_id, token_info.scopes)
+            .await
     }
 
     async fn revoke_token(&self, token: &str) -> Result<()> {
-- 
2.43.0


From 58145c3c2c34f28237cd333b5d2dad18eb6b2c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 04/45] fix: issuing a token must not deadlock with refresh or
 revocation

---
 src/server/auth/oauth2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/auth/oauth2.rs b/src/server/auth/oauth2.rs
index ae150da..fe0e9ab 100644
--- a/src/server/auth/oauth2.rs
+++ b/src/server/auth/oauth2.rs
@@ -624,6 +624,9 @@ impl OAuthProvider for InMemoryOAuthProvider {
 
         let mut tokens = self.tokens.write().await;
         tokens.insert(access_token.clone(), token_info);
+        // Never hold this lock while taking the next one: refresh and revocation
+        // take them in the other order.
+        drop(tokens);
 
         // Store refresh token mapping
         let mut refresh_tokens = self.refresh_tokens.write().await;
-- 
2.43.0


From 0be71415545d96ab1a6619899cfa1f48d20cc22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 05/45] fix: a timed-out batch request is answered under its
 own id

---
 src/utils/parallel_batch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/parallel_batch.rs b/src/utils/parallel_batch.rs
index 8422dc2..cf03980 100644
--- a/src/utils/parallel_batch.rs
+++ b/src/utils/parallel_batch.rs
@@ -147,6 +147,7 @@ where
                 let _permit = semaphore.acquire().await.unwrap();
 
                 // Create the handler future
+                let request_id = request.id.clone();
                 let handler_future = handler(request);
 
                 // Apply timeout if configured
@@ -162,7 +163,7 @@ where
                             // Create timeout error response
                             JSONRPCResponse {
                                 jsonrpc: "2.0".to_string(),
-                                id: crate::types::RequestId::from("null"),
+                                id: request_id,
                                 payload: crate::types::jsonrpc::ResponsePayload::Error(
                                     crate::types::jsonrpc::JSONRPCError {
                                         code: -32603,
-- 
2.43.0


From 7b129132b2b81bcf344861bd069e3dd84eb5bad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 06/45] fix: an elicitation answer that reaches nobody is
 refused, not accepted

---
 src/server/elicitation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/elicitation.rs b/src/server/elicitation.rs
index 047653d..d82474e 100644
--- a/src/server/elicitation.rs
+++ b/src/server/elicitation.rs
@@ -110,6 +110,10 @@ impl ElicitationManager {
         if let Some(tx) = pending.remove(&response.elicitation_id) {
             if tx.send(response).is_err() {
                 warn!("Failed to deliver elicitation response - receiver dropped");
+                return Err(Error::protocol(
+                    ErrorCode::INVALID_REQUEST,
+                    "Elicitation is no longer waiting for a response",
+                ));
             }
             Ok(())
         } else {
-- 
2.43.0


From 71b82cd8a9a7cda1cba30bfc9dc49cd1dfd86247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 07/45] fix: unregistering a root removes that registration,
 not another one of the same URI

---
 src/server/roots.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/server/roots.rs b/src/server/roots.rs
index 93522b3..e2ddff0 100644
--- a/src/server/roots.rs
+++ b/src/server/roots.rs
@@ -109,7 +109,7 @@ impl RootsManager {
         };
 
         {
-            self.roots.write().await.push(root);
+            self.roots.write().await.push(root.clone());
             info!("Registered root: {}", uri);
         }
 
@@ -119,16 +119,14 @@ impl RootsManager {
         // Return unregister function
         let roots = self.roots.clone();
         let notification_sender = self.notification_sender.clone();
-        let unregister_uri = uri.clone();
 
         Ok(move || {
             let roots = roots.clone();
             let notification_sender = notification_sender.clone();
-            let uri = unregister_uri.clone();
 
             tokio::spawn(async move {
                 let mut roots_guard = roots.write().await;
-                if let Some(pos) = roots_guard.iter().position(|r| r.uri == uri) {
+                if let Some(pos) = roots_guard.iter().position(|r| *r == root) {
                     roots_guard.remove(pos);
                     drop(roots_guard);
                     info!("Unregistered root: {}", uri);
-- 
2.43.0


From ec7cf1f6098126888639ad334dfd18201ba51b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 08/45] fix: cancelling a request in flight reaches its handler

---
 src/server/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index fb83de4..1ff471e 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -553,7 +553,11 @@ impl Server {
         id: RequestId,
         request: ClientRequest,
     ) -> JSONRPCResponse {
+        // Register the request so that it can be cancelled while its handler runs
+        let key = id.to_string();
+        self.cancellation_manager.create_token(key.clone()).await;
         let result = self.process_client_request(id.clone(), request).await;
+        self.cancellation_manager.remove_token(&key).await;
         Self::create_response(id, result)
     }
 
-- 
2.43.0


From fdf154e93c5ccf348bb8c390ffa31c6c1e91d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:27 +0000
Subject: [PATCH 09/45] fix: a client that lost its event stream can open a new
 one and still gets its answers

---
 src/server/streamable_http_server.rs | 71 ++++++++++++++--------------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index d0232fa..f140e49 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -462,7 +462,7 @@ fn update_session_after_init(
 /// Build response with appropriate format (JSON or SSE)
 fn build_response(
     state: &ServerState,
-    response: TransportMessage,
+    mut response: TransportMessage,
     session_id: Option<&String>,
 ) -> Response {
     if state.config.enable_json_response {
@@ -472,27 +472,29 @@ fn build_response(
         // SSE streaming mode
         if let Some(sid) = session_id {
             if let Some(sender) = state.sse_streams.read().get(sid) {
-                // Send to existing SSE stream
-                let _ = sender.send(response);
-                StatusCode::ACCEPTED.into_response()
-            } else {
-                // Return as SSE stream
-                let (tx, rx) = mpsc::unbounded_channel();
-                tx.send(response).unwrap();
-
-                let stream = UnboundedReceiverStream::new(rx);
-                let sse = Sse::new(stream.map(|msg| {
-                    let event_id = Uuid::new_v4().to_string();
-                    Ok::<_, Infallible>(
-                        Event::default()
-                            .id(event_id)
-                            .event("message")
-                            .data(serde_json::to_string(&msg).unwrap()),
-                    )
-                }));
-
-                sse.into_response()
+                // Send to existing SSE stream, if its client is still there
+                match sender.send(response) {
+                    Ok(()) => return StatusCode::ACCEPTED.into_response(),
+                    Err(unsent) => response = unsent.0,
+                }
             }
+
+            // Return as SSE stream
+            let (tx, rx) = mpsc::unbounded_channel();
+            tx.send(response).unwrap();
+
+            let stream = UnboundedReceiverStream::new(rx);
+            let sse = Sse::new(stream.map(|msg| {
+                let event_id = Uuid::new_v4().to_string();
+                Ok::<_, Infallible>(
+                    Event::default()
+                        .id(event_id)
+                        .event("message")
+                        .data(serde_json::to_string(&msg).unwrap()),
+                )
+            }));
+
+            sse.into_response()
         } else {
             // No session, return JSON
             (StatusCode::OK, Json(response)).into_response()
@@ -719,21 +721,20 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
         );
     };
 
-    // Check if stream already exists for this session
-    if state.sse_streams.read().contains_key(&session_id) {
-        return create_error_response(
-            StatusCode::CONFLICT,
-            -32600,
-            "SSE stream already exists for this session",
-        );
-    }
-
-    // Create SSE stream
+    // Create SSE stream, unless a live one exists for this session. The entry of a stream
+    // whose client has disconnected is replaced.
     let (tx, rx) = mpsc::unbounded_channel();
-    state
-        .sse_streams
-        .write()
-        .insert(session_id.clone(), tx.clone());
+    {
+        let mut streams = state.sse_streams.write();
+        if streams.get(&session_id).is_some_and(|s| !s.is_closed()) {
+            return create_error_response(
+                StatusCode::CONFLICT,
+                -32600,
+                "SSE stream already exists for this session",
+            );
+        }
+        streams.insert(session_id.clone(), tx.clone());
+    }
 
     // Check for Last-Event-ID for resumability
     if let Some(last_event_id) = headers.get(LAST_EVENT_ID) {
-- 
2.43.0


From f25b2e418ebf9f0b8a26730be3f877a08eeffe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 10/45] fix: reconnecting replays only later events of the
 client's own session

---
 src/server/streamable_http_server.rs | 57 ++++++++++++----------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index f140e49..1b75086 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -36,7 +36,7 @@ pub trait EventStore: Send + Sync {
         message: &TransportMessage,
     ) -> Result<()>;
 
-    /// Replay events after a given event ID
+    /// Replay the events of the same stream after a given event ID
     async fn replay_events_after(
         &self,
         last_event_id: &str,
@@ -59,8 +59,6 @@ pub struct InMemoryEventStore {
     events: Arc<RwLock<EventsMap>>,
     /// Event ID to stream ID mapping
     event_to_stream: Arc<RwLock<HashMap<String, String>>>,
-    /// Ordered list of all event IDs
-    event_order: Arc<RwLock<Vec<String>>>,
 }
 
 #[async_trait]
@@ -78,7 +76,6 @@ impl EventStore for InMemoryEventStore {
         self.event_to_stream
             .write()
             .insert(event_id.to_string(), stream_id.to_string());
-        self.event_order.write().push(event_id.to_string());
 
         Ok(())
     }
@@ -87,32 +84,25 @@ impl EventStore for InMemoryEventStore {
         &self,
         last_event_id: &str,
     ) -> Result<Vec<(String, TransportMessage)>> {
-        let event_order = self.event_order.read();
-        let mut result = Vec::new();
-
-        // Find the position of the last event
-        let start_pos = event_order
-            .iter()
-            .position(|id| id == last_event_id)
-            .map_or(0, |pos| pos + 1);
-
-        // Collect all events after that position
-        let events = self.events.read();
         let event_to_stream = self.event_to_stream.read();
+        let Some(stream_id) = event_to_stream.get(last_event_id) else {
+            // An event that was never stored has nothing after it
+            return Ok(Vec::new());
+        };
 
-        for i in start_pos..event_order.len() {
-            let event_id = &event_order[i];
-            if let Some(stream_id) = event_to_stream.get(event_id) {
-                if let Some(stream_events) = events.get(stream_id) {
-                    for (eid, msg) in stream_events {
-                        if eid == event_id {
-                            result.push((eid.clone(), msg.clone()));
-                            break;
-                        }
-                    }
-                }
-            }
-        }
+        // Everything stored after that event for the same stream
+        let events = self.events.read();
+        let result = events
+            .get(stream_id)
+            .map(|stream_events| {
+                stream_events
+                    .iter()
+                    .skip_while(|(id, _)| id != last_event_id)
+                    .skip(1)
+                    .cloned()
+                    .collect()
+            })
+            .unwrap_or_default();
 
         Ok(result)
     }
@@ -740,10 +730,13 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
     if let Some(last_event_id) = headers.get(LAST_EVENT_ID) {
         if let Ok(last_id) = last_event_id.to_str() {
             if let Some(event_store) = &state.config.event_store {
-                // Replay events after the last event ID
-                if let Ok(events) = event_store.replay_events_after(last_id).await {
-                    for (_event_id, msg) in events {
-                        let _ = tx.send(msg);
+                // Replay events after the last event ID, if it is one of this session
+                let stream_id = event_store.get_stream_for_event(last_id).await;
+                if matches!(stream_id, Ok(Some(ref id)) if *id == session_id) {
+                    if let Ok(events) = event_store.replay_events_after(last_id).await {
+                        for (_event_id, msg) in events {
+                            let _ = tx.send(msg);
+                        }
                     }
                 }
             }
-- 
2.43.0


From c82911a18618e095dcdb7604eee76b9ed04a2dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 11/45] fix: an event keeps one id from the log to the stream
 and back

---
 src/server/streamable_http_server.rs | 46 +++++++++++-----------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 1b75086..111afec 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -194,13 +194,16 @@ struct SessionInfo {
     protocol_version: Option<String>,
 }
 
+/// A message for an SSE stream, with its event ID
+type SseMessage = (String, TransportMessage);
+
 /// Server state shared across routes
 #[derive(Clone)]
 struct ServerState {
     server: Arc<tokio::sync::Mutex<Server>>,
     config: Arc<StreamableHttpServerConfig>,
     /// Active SSE streams by session ID
-    sse_streams: Arc<RwLock<HashMap<String, mpsc::UnboundedSender<TransportMessage>>>>,
+    sse_streams: Arc<RwLock<HashMap<String, mpsc::UnboundedSender<SseMessage>>>>,
     /// Session tracking (session ID -> session info)
     sessions: Arc<RwLock<HashMap<String, SessionInfo>>>,
 }
@@ -452,7 +455,8 @@ fn update_session_after_init(
 /// Build response with appropriate format (JSON or SSE)
 fn build_response(
     state: &ServerState,
-    mut response: TransportMessage,
+    event_id: String,
+    response: TransportMessage,
     session_id: Option<&String>,
 ) -> Response {
     if state.config.enable_json_response {
@@ -461,21 +465,21 @@ fn build_response(
     } else {
         // SSE streaming mode
         if let Some(sid) = session_id {
+            let mut message = (event_id, response);
             if let Some(sender) = state.sse_streams.read().get(sid) {
                 // Send to existing SSE stream, if its client is still there
-                match sender.send(response) {
+                match sender.send(message) {
                     Ok(()) => return StatusCode::ACCEPTED.into_response(),
-                    Err(unsent) => response = unsent.0,
+                    Err(unsent) => message = unsent.0,
                 }
             }
 
             // Return as SSE stream
             let (tx, rx) = mpsc::unbounded_channel();
-            tx.send(response).unwrap();
+            tx.send(message).unwrap();
 
             let stream = UnboundedReceiverStream::new(rx);
-            let sse = Sse::new(stream.map(|msg| {
-                let event_id = Uuid::new_v4().to_string();
+            let sse = Sse::new(stream.map(|(event_id, msg)| {
                 Ok::<_, Infallible>(
                     Event::default()
                         .id(event_id)
@@ -614,16 +618,16 @@ async fn handle_post_request(
                 None
             };
 
-            // Store event if we have an event store
+            // Store event if we have an event store, under the ID it is sent with
+            let event_id = Uuid::new_v4().to_string();
             if let Some(event_store) = &state.config.event_store {
                 if let Some(sid) = &response_session_id {
-                    let event_id = Uuid::new_v4().to_string();
                     let _ = event_store.store_event(sid, &event_id, &response).await;
                 }
             }
 
             // Build response with headers
-            let mut response = build_response(&state, response, session_id.as_ref());
+            let mut response = build_response(&state, event_id, response, session_id.as_ref());
 
             // Always add session header in stateful mode
             if let Some(sid) = &response_session_id {
@@ -734,8 +738,8 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
                 let stream_id = event_store.get_stream_for_event(last_id).await;
                 if matches!(stream_id, Ok(Some(ref id)) if *id == session_id) {
                     if let Ok(events) = event_store.replay_events_after(last_id).await {
-                        for (_event_id, msg) in events {
-                            let _ = tx.send(msg);
+                        for event in events {
+                            let _ = tx.send(event);
                         }
                     }
                 }
@@ -744,22 +748,8 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
     }
 
     let stream = UnboundedReceiverStream::new(rx);
-    let session_id_header = session_id.clone();
-
-    let sse = Sse::new(stream.map(move |msg| {
-        let event_id = Uuid::new_v4().to_string();
-
-        // Store event if we have an event store
-        if let Some(event_store) = &state.config.event_store {
-            let sid = session_id.clone();
-            let msg_clone = msg.clone();
-            let store = event_store.clone();
-            let event_id_clone = event_id.clone();
-            tokio::spawn(async move {
-                let _ = store.store_event(&sid, &event_id_clone, &msg_clone).await;
-            });
-        }
 
+    let sse = Sse::new(stream.map(|(event_id, msg)| {
         Ok::<_, Infallible>(
             Event::default()
                 .id(event_id)
@@ -773,7 +763,7 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
     // Add session ID header
     response
         .headers_mut()
-        .insert(MCP_SESSION_ID, session_id_header.parse().unwrap());
+        .insert(MCP_SESSION_ID, session_id.parse().unwrap());
 
     // Add SSE-specific headers for hardening
     response.headers_mut().insert(
-- 
2.43.0


From c15b69ab88aba9bd0c9bc3636bd58893e07a4c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 12/45] fix: initializing an unknown session is refused instead
 of answered for a session that does not exist

---
 src/server/streamable_http_server.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 111afec..4725fb7 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -352,16 +352,24 @@ fn process_init_session(
     if let Some(generator) = &state.config.session_id_generator {
         // Stateful mode
         if let Some(sid) = session_id {
-            // Check if session already exists and is initialized
-            if let Some(session_info) = state.sessions.read().get(&sid) {
-                if session_info.initialized {
+            // The session must exist, and not be initialized yet
+            match state.sessions.read().get(&sid) {
+                None => {
+                    return Err(create_error_response(
+                        StatusCode::NOT_FOUND,
+                        -32600,
+                        "Unknown session ID",
+                    ));
+                },
+                Some(session_info) if session_info.initialized => {
                     // Session already initialized - reject re-initialization
                     return Err(create_error_response(
                         StatusCode::BAD_REQUEST,
                         -32600,
                         "Session already initialized",
                     ));
-                }
+                },
+                Some(_) => {},
             }
             // Use existing session ID
             Ok((Some(sid), false))
-- 
2.43.0


From 1433ade04e5e706a4eae42fca3323f7e86322023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:04 +0000
Subject: [PATCH 13/45] fix: the HTTP server accepts JSON-RPC requests

---
 src/server/streamable_http_server.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 4725fb7..5c2cb90 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -4,7 +4,7 @@ use crate::server::Server;
 use crate::shared::http_constants::{
     APPLICATION_JSON, LAST_EVENT_ID, MCP_PROTOCOL_VERSION, MCP_SESSION_ID, TEXT_EVENT_STREAM,
 };
-use crate::shared::TransportMessage;
+use crate::shared::{StdioTransport, TransportMessage};
 use crate::types::{ClientRequest, Request};
 use axum::{
     async_trait,
@@ -557,8 +557,10 @@ async fn handle_post_request(
         return error_response;
     }
 
-    // Parse the JSON body
-    let message: TransportMessage = match serde_json::from_str(&body) {
+    // Parse the JSON body: a JSON-RPC message, or the form `TransportMessage` serializes to
+    let message: TransportMessage = match serde_json::from_str(&body)
+        .or_else(|_| StdioTransport::parse_message(body.as_bytes()))
+    {
         Ok(msg) => msg,
         Err(e) => {
             return create_error_response(
-- 
2.43.0


From 55849ec4719b9c6e4f2ccbd655e398153cae38e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:45 +0000
Subject: [PATCH 14/45] fix: a client call returns the response to its own
 request

Requests get ids the client has not used before from a counter, and a call
skips other traffic until the response with its id arrives; a response to
another call that is waiting is kept for it.
---
 src/client/mod.rs | 93 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 68 insertions(+), 25 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 6fb240e..a924831 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -13,9 +13,9 @@ use crate::types::{
     UnsubscribeRequest,
 };
 use std::collections::HashMap;
+use std::sync::atomic::{AtomicI64, Ordering};
 use std::sync::Arc;
 use tokio::sync::{mpsc, oneshot, RwLock};
-use uuid::Uuid;
 
 pub mod auth;
 pub mod transport;
@@ -95,6 +95,10 @@ pub struct Client<T: Transport> {
     notification_tx: Option<mpsc::Sender<Notification>>,
     /// Active request tracking for cancellation
     active_requests: Arc<RwLock<HashMap<RequestId, oneshot::Sender<()>>>>,
+    /// Id of the most recently created request
+    last_request_id: Arc<AtomicI64>,
+    /// Calls waiting for the response to their request
+    waiting: Arc<RwLock<HashMap<RequestId, oneshot::Sender<crate::types::JSONRPCResponse>>>>,
 }
 
 impl<T: Transport> std::fmt::Debug for Client<T> {
@@ -163,6 +167,8 @@ impl<T: Transport> Client<T> {
             info: client_info,
             notification_tx: None,
             active_requests: Arc::new(RwLock::new(HashMap::new())),
+            last_request_id: Arc::new(AtomicI64::new(0)),
+            waiting: Arc::new(RwLock::new(HashMap::new())),
         }
     }
 
@@ -207,6 +213,8 @@ impl<T: Transport> Client<T> {
             info: client_info,
             notification_tx: None,
             active_requests: Arc::new(RwLock::new(HashMap::new())),
+            last_request_id: Arc::new(AtomicI64::new(0)),
+            waiting: Arc::new(RwLock::new(HashMap::new())),
         }
     }
 
@@ -258,7 +266,7 @@ impl<T: Transport> Client<T> {
             client_info: self.info.clone(),
         })));
 
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         // Parse initialize result
@@ -314,7 +322,7 @@ impl<T: Transport> Client<T> {
     pub async fn ping(&self) -> Result<()> {
         self.ensure_initialized()?;
         let request = Request::Client(Box::new(ClientRequest::Ping));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -331,7 +339,7 @@ impl<T: Transport> Client<T> {
         self.assert_capability("logging", "logging/setLevel")?;
 
         let request = Request::Client(Box::new(ClientRequest::SetLoggingLevel { level }));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -378,7 +386,7 @@ impl<T: Transport> Client<T> {
         let request = Request::Client(Box::new(ClientRequest::ListTools(ListToolsRequest {
             cursor,
         })));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -460,7 +468,7 @@ impl<T: Transport> Client<T> {
             name,
             arguments,
         })));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -526,7 +534,7 @@ impl<T: Transport> Client<T> {
         let request = Request::Client(Box::new(ClientRequest::ListPrompts(ListPromptsRequest {
             cursor,
         })));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -607,7 +615,7 @@ impl<T: Transport> Client<T> {
             name,
             arguments,
         })));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -667,7 +675,7 @@ impl<T: Transport> Client<T> {
         let request = Request::Client(Box::new(ClientRequest::ListResources(
             ListResourcesRequest { cursor },
         )));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -727,7 +735,7 @@ impl<T: Transport> Client<T> {
         let request = Request::Client(Box::new(ClientRequest::ListResourceTemplates(
             ListResourceTemplatesRequest { cursor },
         )));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -791,7 +799,7 @@ impl<T: Transport> Client<T> {
         let request = Request::Client(Box::new(ClientRequest::ReadResource(ReadResourceRequest {
             uri,
         })));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -857,7 +865,7 @@ impl<T: Transport> Client<T> {
         }
 
         let request = Request::Client(Box::new(ClientRequest::Subscribe(SubscribeRequest { uri })));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -910,7 +918,7 @@ impl<T: Transport> Client<T> {
         let request = Request::Client(Box::new(ClientRequest::Unsubscribe(UnsubscribeRequest {
             uri,
         })));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -971,7 +979,7 @@ impl<T: Transport> Client<T> {
         self.assert_capability("completions", "completion/complete")?;
 
         let request = Request::Client(Box::new(ClientRequest::Complete(params)));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -1052,7 +1060,7 @@ impl<T: Transport> Client<T> {
         self.assert_capability("sampling", "sampling/createMessage")?;
 
         let request = Request::Client(Box::new(ClientRequest::CreateMessage(params)));
-        let request_id = RequestId::String(Uuid::new_v4().to_string());
+        let request_id = self.next_request_id();
         let response = self.send_request(request_id, request).await?;
 
         match response.payload {
@@ -1311,6 +1319,11 @@ impl<T: Transport> Client<T> {
         }
     }
 
+    /// Create an id that no other request of this client has.
+    fn next_request_id(&self) -> RequestId {
+        RequestId::from(self.last_request_id.fetch_add(1, Ordering::Relaxed) + 1)
+    }
+
     /// Send a request and wait for response.
     async fn send_request(
         &self,
@@ -1330,20 +1343,48 @@ impl<T: Transport> Client<T> {
             request,
         };
 
-        self.transport.write().await.send(message).await?;
-
-        // Wait for response (this would be implemented with proper response routing)
-        // For now, receive next message and assume it's our response
-        let response_message = self.transport.write().await.receive().await?;
+        let (response_tx, response_rx) = oneshot::channel();
+        self.waiting
+            .write()
+            .await
+            .insert(request_id.clone(), response_tx);
+        let sent = self.transport.write().await.send(message).await;
+        let response = match sent {
+            Ok(()) => self.receive_response(&request_id, response_rx).await,
+            Err(e) => Err(e),
+        };
 
         // Remove from active requests
+        self.waiting.write().await.remove(&request_id);
         self.active_requests.write().await.remove(&request_id);
 
-        match response_message {
-            crate::types::TransportMessage::Response(response) => Ok(response),
-            _ => Err(Error::protocol_msg(
-                "Expected response, got different message type",
-            )),
+        response
+    }
+
+    /// Wait for the response to a request, whichever call receives it.
+    async fn receive_response(
+        &self,
+        request_id: &RequestId,
+        mut response_rx: oneshot::Receiver<crate::types::JSONRPCResponse>,
+    ) -> Result<crate::types::JSONRPCResponse> {
+        loop {
+            // Another call may receive the response while this one waits for the transport
+            let mut transport = tokio::select! {
+                biased;
+                Ok(response) = &mut response_rx => return Ok(response),
+                transport = self.transport.write() => transport,
+            };
+            if let Ok(response) = response_rx.try_recv() {
+                return Ok(response);
+            }
+            if let crate::types::TransportMessage::Response(response) = transport.receive().await? {
+                if response.id == *request_id {
+                    return Ok(response);
+                }
+                if let Some(tx) = self.waiting.write().await.remove(&response.id) {
+                    let _ = tx.send(response);
+                }
+            }
         }
     }
 
@@ -1448,6 +1489,8 @@ impl<T: Transport> Clone for Client<T> {
             info: self.info.clone(),
             notification_tx: self.notification_tx.clone(),
             active_requests: self.active_requests.clone(),
+            last_request_id: self.last_request_id.clone(),
+            waiting: self.waiting.clone(),
         }
     }
 }
-- 
2.43.0


From a185953ba19f6af7ab34fd93657b88a68b0550de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:06 +0000
Subject: [PATCH 15/45] fix: a client can ask a server that declares sampling
 to sample

---
 src/client/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index a924831..962da3b 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1306,6 +1306,10 @@ impl<T: Transport> Client<T> {
                 .server_capabilities
                 .as_ref()
                 .is_some_and(|c| c.completions.is_some()),
+            "sampling" => self
+                .server_capabilities
+                .as_ref()
+                .is_some_and(|c| c.sampling.is_some()),
             _ => false,
         };
 
-- 
2.43.0


From b617330065149ffc4c09f8828dfb03c9d948c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:06 +0000
Subject: [PATCH 16/45] fix: a handshake whose last message could not be sent
 has not succeeded

---
 src/client/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 962da3b..b0b5c75 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -286,11 +286,11 @@ impl<T: Transport> Client<T> {
                     self.server_capabilities = Some(init_result.capabilities.clone());
                     self.server_version = Some(init_result.server_info.clone());
                     self.instructions.clone_from(&init_result.instructions);
-                    self.initialized = true;
 
                     // Send initialized notification
                     self.send_notification(Notification::Client(ClientNotification::Initialized))
                         .await?;
+                    self.initialized = true;
 
                     Ok(init_result)
                 } else {
-- 
2.43.0


From a488c758149acd90382ceca187813f88b6fc8d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:06 +0000
Subject: [PATCH 17/45] fix: a client sends no notifications before its
 handshake has succeeded

---
 src/client/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index b0b5c75..0e7b359 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1218,6 +1218,8 @@ impl<T: Transport> Client<T> {
     /// Returns an error if:
     /// - Network or protocol errors occur while sending the cancellation
     pub async fn cancel_request(&self, request_id: &RequestId) -> Result<()> {
+        self.ensure_initialized()?;
+
         // Send cancellation notification
         self.send_notification(Notification::Cancelled(CancelledNotification {
             request_id: request_id.clone(),
@@ -1270,6 +1272,7 @@ impl<T: Transport> Client<T> {
     /// Returns an error if:
     /// - Network or protocol errors occur while sending the notification
     pub async fn send_progress(&self, progress: ProgressNotification) -> Result<()> {
+        self.ensure_initialized()?;
         self.send_notification(Notification::Progress(progress))
             .await
     }
-- 
2.43.0


From 6932f5991f6f2919467d49b9ef84573604a75334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:45 +0000
Subject: [PATCH 18/45] fix: a client that did not declare roots does not
 announce changes of them

---
 src/client/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 0e7b359..a517df9 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1108,14 +1108,11 @@ impl<T: Transport> Client<T> {
     /// - Network or protocol errors occur
     pub async fn send_roots_list_changed(&self) -> Result<()> {
         self.ensure_initialized()?;
-        if let Some(roots) = &self.capabilities.as_ref().and_then(|c| c.roots.as_ref()) {
-            if roots.list_changed {
-                // OK, we support it
-            } else {
-                return Err(Error::capability(
-                    "Client does not support roots list changed notifications",
-                ));
-            }
+        let roots = self.capabilities.as_ref().and_then(|c| c.roots.as_ref());
+        if !roots.is_some_and(|roots| roots.list_changed) {
+            return Err(Error::capability(
+                "Client does not support roots list changed notifications",
+            ));
         }
 
         self.send_notification(Notification::Client(ClientNotification::RootsListChanged))
-- 
2.43.0


From 8055bbb53e1ee714289d82b2219133e9e7ca5210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:44 +0000
Subject: [PATCH 19/45] fix: forget flushed notifications so that they are not
 delivered again

---
 src/server/notification_debouncer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 0133a34..2cb26a1 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -296,15 +296,15 @@ async fn flush_all(
     pending: &Arc<RwLock<HashMap<String, PendingNotification>>>,
     output_tx: &mpsc::Sender<ServerNotification>,
 ) {
-    let pending_map = pending.write().await;
+    let mut pending_map = pending.write().await;
 
-    for (_, pending_notif) in pending_map.iter() {
+    for (_, pending_notif) in pending_map.drain() {
         // Send the main notification
-        let _ = output_tx.send(pending_notif.notification.clone()).await;
+        let _ = output_tx.send(pending_notif.notification).await;
 
         // Send any merged notifications
-        for merged in &pending_notif.mergeable {
-            let _ = output_tx.send(merged.clone()).await;
+        for merged in pending_notif.mergeable {
+            let _ = output_tx.send(merged).await;
         }
     }
 }
-- 
2.43.0


From cd02858ab3ba8e1f724d6900a735f6201be5f892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:47 +0000
Subject: [PATCH 20/45] fix: keep the latest notification when the merged batch
 is full

---
 src/server/notification_debouncer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 2cb26a1..5c6731f 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -149,6 +149,11 @@ impl NotificationDebouncer {
                 // Merge if possible
                 if existing.mergeable.len() < self.config.max_batch_size {
                     existing.mergeable.push(notification);
+                } else if let Some(last) = existing.mergeable.last_mut() {
+                    // The batch is full: the latest notification supersedes the last one
+                    *last = notification;
+                } else {
+                    existing.notification = notification;
                 }
             } else {
                 // Replace with latest
-- 
2.43.0


From 673bf4e2da424722eda06820b265ad4768a81fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:50 +0000
Subject: [PATCH 21/45] fix: do not let a log message and a roots change
 supersede each other

---
 src/server/notification_debouncer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 5c6731f..a4426f2 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -234,8 +234,8 @@ fn notification_key(notification: &ServerNotification) -> String {
         ServerNotification::ResourcesChanged => "resource_list_changed".to_string(),
         ServerNotification::ToolsChanged => "tool_list_changed".to_string(),
         ServerNotification::PromptsChanged => "prompt_list_changed".to_string(),
-        #[allow(unreachable_patterns)]
-        _ => "unknown".to_string(),
+        ServerNotification::RootsListChanged => "roots_list_changed".to_string(),
+        ServerNotification::LogMessage(_) => "log".to_string(),
     }
 }
 
-- 
2.43.0


From 71762268e4af390befd9516f63dfbc6d702554ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:53 +0000
Subject: [PATCH 22/45] fix: apply the per-type debounce intervals

---
 src/server/notification_debouncer.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index a4426f2..ca1259a 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -239,6 +239,19 @@ fn notification_key(notification: &ServerNotification) -> String {
     }
 }
 
+/// The notification type, as named in `NotificationDebouncerConfig::type_intervals`
+fn notification_type(notification: &ServerNotification) -> &'static str {
+    match notification {
+        ServerNotification::Progress(_) => "progress",
+        ServerNotification::ResourceUpdated(_) => "resources/updated",
+        ServerNotification::ResourcesChanged => "resources/list_changed",
+        ServerNotification::ToolsChanged => "tools/list_changed",
+        ServerNotification::PromptsChanged => "prompts/list_changed",
+        ServerNotification::RootsListChanged => "roots/list_changed",
+        ServerNotification::LogMessage(_) => "log",
+    }
+}
+
 /// Flush pending notifications that are ready
 #[allow(clippy::cognitive_complexity)]
 async fn flush_pending(
@@ -257,6 +270,11 @@ async fn flush_pending(
             let interval = config
                 .type_intervals
                 .get(key)
+                .or_else(|| {
+                    config
+                        .type_intervals
+                        .get(notification_type(&pending_notif.notification))
+                })
                 .copied()
                 .unwrap_or(config.default_interval);
 
-- 
2.43.0


From c244c669537e2cacfb74dfe8ed857d02c883f212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:19 +0000
Subject: [PATCH 23/45] fix: deliver full notification batches in order

---
 src/server/notification_debouncer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index ca1259a..a464daa 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -373,10 +373,10 @@ impl NotificationBatcher {
         // Check if batch is full
         if batch.len() >= self.max_batch_size {
             let full_batch = std::mem::take(batch);
-            drop(batches);
 
-            // Send the batch
+            // Send the batch, still holding the lock so that batches stay in order
             let _ = self.output_tx.send(full_batch).await;
+            drop(batches);
         } else {
             // Schedule timeout for this batch
             let batches_clone = self.batches.clone();
-- 
2.43.0


From 566986aa73364cd07a88f8901c41e86cb02eb536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:22 +0000
Subject: [PATCH 24/45] fix: keep debounced notifications in order when a flush
 overtakes the timer

---
 src/server/notification_debouncer.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index a464daa..c805768 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -9,7 +9,7 @@ use crate::types::protocol::ServerNotification;
 use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::Duration;
-use tokio::sync::{mpsc, RwLock};
+use tokio::sync::{mpsc, Mutex, RwLock};
 use tokio::time::{interval, sleep, Instant};
 use tracing::{debug, trace, warn};
 
@@ -58,6 +58,8 @@ pub struct NotificationDebouncer {
     config: NotificationDebouncerConfig,
     pending: Arc<RwLock<HashMap<String, PendingNotification>>>,
     output_tx: mpsc::Sender<ServerNotification>,
+    /// Held while notifications are taken and sent, so that they leave in order
+    flush_lock: Arc<Mutex<()>>,
     shutdown_tx: Option<mpsc::Sender<()>>,
 }
 
@@ -90,6 +92,7 @@ impl NotificationDebouncer {
             config,
             pending: Arc::new(RwLock::new(HashMap::new())),
             output_tx,
+            flush_lock: Arc::new(Mutex::new(())),
             shutdown_tx: None,
         }
     }
@@ -101,6 +104,7 @@ impl NotificationDebouncer {
 
         let pending = self.pending.clone();
         let output_tx = self.output_tx.clone();
+        let flush_lock = self.flush_lock.clone();
         let config = self.config.clone();
 
         // Spawn the flush task
@@ -114,13 +118,13 @@ impl NotificationDebouncer {
                         break;
                     }
                     _ = interval.tick() => {
-                        flush_pending(&pending, &output_tx, &config).await;
+                        flush_pending(&pending, &output_tx, &flush_lock, &config).await;
                     }
                 }
             }
 
             // Final flush on shutdown
-            flush_all(&pending, &output_tx).await;
+            flush_all(&pending, &output_tx, &flush_lock).await;
         });
 
         Ok(())
@@ -178,7 +182,7 @@ impl NotificationDebouncer {
 
     /// Force flush all pending notifications
     pub async fn flush(&self) -> Result<()> {
-        flush_all(&self.pending, &self.output_tx).await;
+        flush_all(&self.pending, &self.output_tx, &self.flush_lock).await;
         Ok(())
     }
 
@@ -257,8 +261,10 @@ fn notification_type(notification: &ServerNotification) -> &'static str {
 async fn flush_pending(
     pending: &Arc<RwLock<HashMap<String, PendingNotification>>>,
     output_tx: &mpsc::Sender<ServerNotification>,
+    flush_lock: &Mutex<()>,
     config: &NotificationDebouncerConfig,
 ) {
+    let _flushing = flush_lock.lock().await;
     let now = Instant::now();
     let mut to_flush = Vec::new();
 
@@ -318,10 +324,12 @@ async fn flush_pending(
 async fn flush_all(
     pending: &Arc<RwLock<HashMap<String, PendingNotification>>>,
     output_tx: &mpsc::Sender<ServerNotification>,
+    flush_lock: &Mutex<()>,
 ) {
-    let mut pending_map = pending.write().await;
+    let _flushing = flush_lock.lock().await;
+    let taken: Vec<_> = pending.write().await.drain().collect();
 
-    for (_, pending_notif) in pending_map.drain() {
+    for (_, pending_notif) in taken {
         // Send the main notification
         let _ = output_tx.send(pending_notif.notification).await;
 
-- 
2.43.0


From 2899983ed589de1998b63646e17be4f227e8f72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:22 +0000
Subject: [PATCH 25/45] fix: deliver message batches in order

---
 src/utils/batching.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/utils/batching.rs b/src/utils/batching.rs
index bca427a..4569a5f 100644
--- a/src/utils/batching.rs
+++ b/src/utils/batching.rs
@@ -116,14 +116,13 @@ impl MessageBatcher {
 
         if pending.len() >= self.config.max_batch_size {
             let batch = std::mem::take(&mut *pending);
-            drop(pending);
+            // Send while holding the lock so that batches stay in order
             self.tx
                 .send(batch)
                 .await
                 .map_err(|_| crate::error::Error::Internal("Failed to send batch".to_string()))?;
-        } else {
-            drop(pending);
         }
+        drop(pending);
 
         Ok(())
     }
@@ -168,7 +167,6 @@ impl MessageBatcher {
                 let mut pending_guard = pending.lock().await;
                 if !pending_guard.is_empty() {
                     let batch = std::mem::take(&mut *pending_guard);
-                    drop(pending_guard);
                     if tx.send(batch).await.is_err() {
                         break;
                     }
-- 
2.43.0


From d4b0563ddc85a779b98fe73f5ebaca528fc6ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:29 +0000
Subject: [PATCH 26/45] fix: let each debounced message leave with its own
 timer only

---
 src/utils/batching.rs | 63 ++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/src/utils/batching.rs b/src/utils/batching.rs
index 4569a5f..2decbd3 100644
--- a/src/utils/batching.rs
+++ b/src/utils/batching.rs
@@ -3,6 +3,7 @@
 use crate::error::Result;
 use crate::types::Notification;
 use std::collections::HashMap;
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::{mpsc, Mutex};
@@ -233,7 +234,9 @@ impl Default for DebouncingConfig {
 /// Message debouncer that delays and coalesces rapid notifications.
 pub struct MessageDebouncer {
     config: DebouncingConfig,
-    pending: Arc<Mutex<HashMap<String, Notification>>>,
+    /// Latest notification per key, numbered so that a timer only sends its own
+    pending: Arc<Mutex<HashMap<String, (u64, Notification)>>>,
+    next_number: AtomicU64,
     timers: Arc<Mutex<HashMap<String, tokio::task::JoinHandle<()>>>>,
     tx: mpsc::Sender<Notification>,
     rx: Arc<Mutex<mpsc::Receiver<Notification>>>,
@@ -283,6 +286,7 @@ impl MessageDebouncer {
         Self {
             config,
             pending: Arc::new(Mutex::new(HashMap::new())),
+            next_number: AtomicU64::new(0),
             timers: Arc::new(Mutex::new(HashMap::new())),
             tx,
             rx: Arc::new(Mutex::new(rx)),
@@ -331,18 +335,17 @@ impl MessageDebouncer {
             .copied()
             .unwrap_or(self.config.wait_time);
 
+        // Replace the pending notification and its timer in one step
+        let mut pending_guard = self.pending.lock().await;
+        let mut timers_guard = self.timers.lock().await;
+
         // Store the latest notification
-        {
-            let mut pending = self.pending.lock().await;
-            pending.insert(key.clone(), notification);
-        }
+        let number = self.next_number.fetch_add(1, Ordering::Relaxed);
+        pending_guard.insert(key.clone(), (number, notification));
 
         // Cancel existing timer
-        {
-            let mut timers = self.timers.lock().await;
-            if let Some(handle) = timers.remove(&key) {
-                handle.abort();
-            }
+        if let Some(handle) = timers_guard.remove(&key) {
+            handle.abort();
         }
 
         // Start new timer
@@ -354,27 +357,32 @@ impl MessageDebouncer {
         let handle = tokio::spawn(async move {
             sleep(wait_time).await;
 
-            // Send the notification
-            let notification = {
-                let mut pending = pending.lock().await;
-                pending.remove(&key_clone)
+            // Wait for room first: once taken, the notification is sent without waiting
+            let Ok(permit) = tx.reserve().await else {
+                return;
             };
+            let mut pending = pending.lock().await;
+            let mut timers = timers.lock().await;
 
-            if let Some(notification) = notification {
-                debug!("Sending debounced notification: {}", key_clone);
-                let _ = tx.send(notification).await;
-            }
+            // Send the notification unless a newer one has its own timer
+            if pending
+                .get(&key_clone)
+                .is_some_and(|(latest, _)| *latest == number)
+            {
+                if let Some((_, notification)) = pending.remove(&key_clone) {
+                    debug!("Sending debounced notification: {}", key_clone);
+                    permit.send(notification);
+                }
 
-            // Remove timer handle
-            let mut timers = timers.lock().await;
-            timers.remove(&key_clone);
+                // Remove timer handle
+                timers.remove(&key_clone);
+            }
         });
 
         // Store timer handle
-        {
-            let mut timers = self.timers.lock().await;
-            timers.insert(key, handle);
-        }
+        timers_guard.insert(key, handle);
+        drop(timers_guard);
+        drop(pending_guard);
 
         Ok(())
     }
@@ -446,6 +454,8 @@ impl MessageDebouncer {
     /// # }
     /// ```
     pub async fn flush(&self) -> Vec<Notification> {
+        let mut pending = self.pending.lock().await;
+
         // Cancel all timers
         {
             let mut timers = self.timers.lock().await;
@@ -455,8 +465,7 @@ impl MessageDebouncer {
         }
 
         // Get all pending notifications
-        let mut pending = self.pending.lock().await;
-        pending.drain().map(|(_, v)| v).collect()
+        pending.drain().map(|(_, (_, v))| v).collect()
     }
 }
 
-- 
2.43.0


From 0c0ebc1c6d168daa30e570a72ceb8a6b552115eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:08 +0000
Subject: [PATCH 27/45] fix: resume sessions from their own tokens, events and
 sequence numbers

A resumption token was made from the newest event of any session, never
expired, and resuming from it could repeat sequence numbers and hand out the
events of other sessions.  Events could be kept out of the order of their
numbers, and a failed store left a hole in the numbering.
---
 src/shared/event_store.rs | 158 ++++++++++++++++++++++++--------------
 1 file changed, 99 insertions(+), 59 deletions(-)

diff --git a/src/shared/event_store.rs b/src/shared/event_store.rs
index b5b7f74..08558e6 100644
--- a/src/shared/event_store.rs
+++ b/src/shared/event_store.rs
@@ -36,6 +36,18 @@ pub trait EventStore: Send + Sync {
     /// Get resumption token for current state.
     async fn create_resumption_token(&self) -> Result<ResumptionToken>;
 
+    /// Get resumption token for the current state of one session.
+    async fn create_session_token(&self, session_id: &str) -> Result<ResumptionToken> {
+        let token = self.create_resumption_token().await?;
+        if token.session_id == session_id {
+            Ok(token)
+        } else {
+            Err(Error::Internal(
+                "No events to create resumption token".into(),
+            ))
+        }
+    }
+
     /// Validate and retrieve state from resumption token.
     async fn validate_resumption_token(&self, token: &str) -> Result<Option<ResumptionState>>;
 }
@@ -96,11 +108,14 @@ pub struct ResumptionState {
     pub next_sequence: u64,
 }
 
+/// What a token resumes, and when the token expires.
+type IssuedToken = (ResumptionState, DateTime<Utc>);
+
 /// In-memory event store implementation.
 #[derive(Debug)]
 pub struct InMemoryEventStore {
     events: Arc<RwLock<VecDeque<StoredEvent>>>,
-    tokens: Arc<RwLock<HashMap<String, ResumptionState>>>,
+    tokens: Arc<RwLock<HashMap<String, IssuedToken>>>,
     max_events: usize,
     max_age: chrono::Duration,
 }
@@ -135,6 +150,35 @@ impl InMemoryEventStore {
             }
         }
     }
+
+    /// Create a token that resumes right after the given event.
+    fn issue_token(&self, last_event: &StoredEvent) -> ResumptionToken {
+        let token_id = Uuid::new_v4().to_string();
+        let created_at = Utc::now();
+        let expires_at = created_at + chrono::Duration::hours(24);
+
+        let state = ResumptionState {
+            session_id: last_event.session_id.clone(),
+            last_event_id: last_event.id.clone(),
+            pending_requests: Vec::new(),
+            next_sequence: last_event.sequence + 1,
+        };
+
+        {
+            let mut tokens = self.tokens.write();
+            tokens.retain(|_, (_, expires_at)| *expires_at >= created_at);
+            tokens.insert(token_id.clone(), (state, expires_at));
+        }
+
+        ResumptionToken {
+            token: token_id,
+            session_id: last_event.session_id.clone(),
+            last_event_id: last_event.id.clone(),
+            created_at,
+            expires_at,
+            metadata: HashMap::new(),
+        }
+    }
 }
 
 #[async_trait]
@@ -187,35 +231,33 @@ impl EventStore for InMemoryEventStore {
     }
 
     async fn create_resumption_token(&self) -> Result<ResumptionToken> {
-        let token_id = Uuid::new_v4().to_string();
         let events = self.events.read();
 
         let last_event = events
             .back()
             .ok_or_else(|| Error::Internal("No events to create resumption token".into()))?;
 
-        let state = ResumptionState {
-            session_id: last_event.session_id.clone(),
-            last_event_id: last_event.id.clone(),
-            pending_requests: Vec::new(),
-            next_sequence: last_event.sequence + 1,
-        };
+        Ok(self.issue_token(last_event))
+    }
 
-        self.tokens.write().insert(token_id.clone(), state);
+    async fn create_session_token(&self, session_id: &str) -> Result<ResumptionToken> {
+        let events = self.events.read();
 
-        Ok(ResumptionToken {
-            token: token_id,
-            session_id: last_event.session_id.clone(),
-            last_event_id: last_event.id.clone(),
-            created_at: Utc::now(),
-            expires_at: Utc::now() + chrono::Duration::hours(24),
-            metadata: HashMap::new(),
-        })
+        let last_event = events
+            .iter()
+            .rev()
+            .find(|e| e.session_id == session_id)
+            .ok_or_else(|| Error::Internal("No events to create resumption token".into()))?;
+
+        Ok(self.issue_token(last_event))
     }
 
     async fn validate_resumption_token(&self, token: &str) -> Result<Option<ResumptionState>> {
         let tokens = self.tokens.read();
-        Ok(tokens.get(token).cloned())
+        Ok(tokens
+            .get(token)
+            .filter(|(_, expires_at)| Utc::now() <= *expires_at)
+            .map(|(state, _)| state.clone()))
     }
 }
 
@@ -223,7 +265,9 @@ impl EventStore for InMemoryEventStore {
 pub struct ResumptionManager {
     event_store: Arc<dyn EventStore>,
     session_id: String,
-    sequence_counter: Arc<RwLock<u64>>,
+    /// Next sequence number; held while an event is stored, so that events are kept in the
+    /// order of their numbers.
+    sequence_counter: Arc<tokio::sync::Mutex<u64>>,
 }
 
 impl std::fmt::Debug for ResumptionManager {
@@ -241,55 +285,50 @@ impl ResumptionManager {
         Self {
             event_store,
             session_id,
-            sequence_counter: Arc::new(RwLock::new(0)),
+            sequence_counter: Arc::new(tokio::sync::Mutex::new(0)),
         }
     }
 
-    /// Record an outbound message.
-    pub async fn record_outbound(&self, message: TransportMessage) -> Result<()> {
-        let sequence = {
-            let mut counter = self.sequence_counter.write();
-            let seq = *counter;
-            *counter += 1;
-            seq
-        };
+    /// Record a message under the next sequence number.
+    async fn record(&self, message: TransportMessage, direction: MessageDirection) -> Result<()> {
+        let mut counter = self.sequence_counter.lock().await;
 
         let event = StoredEvent {
             id: Uuid::new_v4().to_string(),
             timestamp: Utc::now(),
             message,
-            direction: MessageDirection::Outbound,
+            direction,
             session_id: self.session_id.clone(),
-            sequence,
+            sequence: *counter,
         };
 
-        self.event_store.store_event(event).await
+        self.event_store.store_event(event).await?;
+        *counter += 1;
+        Ok(())
+    }
+
+    /// Record an outbound message.
+    pub async fn record_outbound(&self, message: TransportMessage) -> Result<()> {
+        self.record(message, MessageDirection::Outbound).await
     }
 
     /// Record an inbound message.
     pub async fn record_inbound(&self, message: TransportMessage) -> Result<()> {
-        let sequence = {
-            let mut counter = self.sequence_counter.write();
-            let seq = *counter;
-            *counter += 1;
-            seq
-        };
-
-        let event = StoredEvent {
-            id: Uuid::new_v4().to_string(),
-            timestamp: Utc::now(),
-            message,
-            direction: MessageDirection::Inbound,
-            session_id: self.session_id.clone(),
-            sequence,
-        };
-
-        self.event_store.store_event(event).await
+        self.record(message, MessageDirection::Inbound).await
     }
 
-    /// Create a resumption token for the current state.
+    /// Create a resumption token for the current state of this session.
     pub async fn create_token(&self) -> Result<ResumptionToken> {
-        self.event_store.create_resumption_token().await
+        self.event_store
+            .create_session_token(&self.session_id)
+            .await
+    }
+
+    /// Get the events of this session since a given event ID.
+    async fn session_events_since(&self, event_id: &str) -> Result<Vec<StoredEvent>> {
+        let mut events = self.event_store.get_events_since(event_id, None).await?;
+        events.retain(|e| e.session_id == self.session_id);
+        Ok(events)
     }
 
     /// Resume from a token, returning events since last acknowledgement.
@@ -298,23 +337,24 @@ impl ResumptionManager {
             .event_store
             .validate_resumption_token(token)
             .await?
+            .filter(|state| state.session_id == self.session_id)
             .ok_or_else(|| Error::Internal("Invalid or expired resumption token".into()))?;
 
-        // Update sequence counter
-        *self.sequence_counter.write() = state.next_sequence;
+        let mut counter = self.sequence_counter.lock().await;
 
         // Get events since the last acknowledged event
-        self.event_store
-            .get_events_since(&state.last_event_id, None)
-            .await
+        let events = self.session_events_since(&state.last_event_id).await?;
+
+        // Continue after everything known of this session
+        let next = events.last().map_or(0, |e| e.sequence + 1);
+        *counter = next.max(state.next_sequence).max(*counter);
+
+        Ok(events)
     }
 
     /// Get pending events that need to be resent.
     pub async fn get_pending_events(&self, since_event_id: &str) -> Result<Vec<StoredEvent>> {
-        let events = self
-            .event_store
-            .get_events_since(since_event_id, None)
-            .await?;
+        let events = self.session_events_since(since_event_id).await?;
 
         // Filter for outbound events that might need resending
         Ok(events
-- 
2.43.0


From 35424f460bfe59946f6be82f4e9d1851dd1bdd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 28/45] fix: keep reconnection within its retry limit, maximum
 delay and open circuit

Waiting for the circuit's timeout lifted the retry limit, jitter could exceed
the maximum delay, losing a connection closed an open circuit, and a caller
could see the state between two steps of a notification and connect through
an opening circuit.
---
 src/shared/reconnect.rs | 73 ++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 27 deletions(-)

diff --git a/src/shared/reconnect.rs b/src/shared/reconnect.rs
index 4c61f29..92d0cc1 100644
--- a/src/shared/reconnect.rs
+++ b/src/shared/reconnect.rs
@@ -211,8 +211,8 @@ impl ReconnectManager {
             return false;
         }
 
-        let state = *self.state.read().await;
-        match state {
+        let mut state = self.state.write().await;
+        match *state {
             ConnectionState::Connected | ConnectionState::Connecting => false,
             ConnectionState::CircuitOpen => {
                 // Check if circuit should be closed
@@ -221,13 +221,14 @@ impl ReconnectManager {
                     if opened_at.elapsed() >= self.config.circuit_breaker_timeout {
                         info!("Circuit breaker timeout reached, closing circuit");
                         *self.circuit_opened_at.lock().await = None;
-                        *self.state.write().await = ConnectionState::Disconnected;
+                        *state = ConnectionState::Disconnected;
+                        drop(state);
 
                         if let Some(callback) = &self.callbacks.on_circuit_close {
                             callback();
                         }
 
-                        true
+                        self.within_retry_limit()
                     } else {
                         false
                     }
@@ -235,14 +236,16 @@ impl ReconnectManager {
                     false
                 }
             },
-            _ => {
-                // Check retry limit
-                if let Some(max_retries) = self.config.max_retries {
-                    self.retry_count.load(Ordering::Relaxed) < max_retries
-                } else {
-                    true
-                }
-            },
+            _ => self.within_retry_limit(),
+        }
+    }
+
+    /// Check the retry limit.
+    fn within_retry_limit(&self) -> bool {
+        if let Some(max_retries) = self.config.max_retries {
+            self.retry_count.load(Ordering::Relaxed) < max_retries
+        } else {
+            true
         }
     }
 
@@ -272,18 +275,22 @@ impl ReconnectManager {
             let random_factor = nanos as f64 / 1_000_000_000.0; // 0.0 to 1.0
             (random_factor * jitter_range).mul_add(2.0, -jitter_range)
         };
-        let final_delay = (capped_delay + jitter).max(0.0);
+        let final_delay = (capped_delay + jitter)
+            .max(0.0)
+            .min(self.config.max_delay.as_secs_f64());
 
         Duration::from_secs_f64(final_delay)
     }
 
     /// Notify that a connection attempt is starting.
     pub async fn on_connecting(&self) {
-        *self.state.write().await = ConnectionState::Connecting;
+        let mut state = self.state.write().await;
+        *state = ConnectionState::Connecting;
         *self.last_attempt.lock().await = Some(Instant::now());
         self.total_attempts.fetch_add(1, Ordering::Relaxed);
 
         let retry_count = self.retry_count.load(Ordering::Relaxed);
+        drop(state);
         debug!("Connection attempt {} starting", retry_count + 1);
 
         if let Some(callback) = &self.callbacks.on_connecting {
@@ -293,7 +300,8 @@ impl ReconnectManager {
 
     /// Notify that a connection was successful.
     pub async fn on_connected(&self) {
-        *self.state.write().await = ConnectionState::Connected;
+        let mut state = self.state.write().await;
+        *state = ConnectionState::Connected;
         *self.last_success.lock().await = Some(Instant::now());
 
         self.total_successes.fetch_add(1, Ordering::Relaxed);
@@ -302,6 +310,7 @@ impl ReconnectManager {
         if self.config.reset_on_success {
             self.retry_count.store(0, Ordering::Relaxed);
         }
+        drop(state);
 
         info!("Connection established successfully");
 
@@ -312,7 +321,7 @@ impl ReconnectManager {
 
     /// Notify that a connection attempt failed.
     pub async fn on_connection_failed(&self, error: &Error) {
-        *self.state.write().await = ConnectionState::WaitingRetry;
+        let mut state = self.state.write().await;
 
         self.retry_count.fetch_add(1, Ordering::Relaxed);
         let failure_count = self.failure_count.fetch_add(1, Ordering::Relaxed) + 1;
@@ -320,16 +329,23 @@ impl ReconnectManager {
         warn!("Connection attempt failed: {}", error);
 
         // Check circuit breaker
-        if let Some(threshold) = self.config.circuit_breaker_threshold {
-            if failure_count >= threshold {
-                *self.state.write().await = ConnectionState::CircuitOpen;
-                *self.circuit_opened_at.lock().await = Some(Instant::now());
+        let circuit_open = self
+            .config
+            .circuit_breaker_threshold
+            .is_some_and(|threshold| failure_count >= threshold);
+        if circuit_open {
+            *self.circuit_opened_at.lock().await = Some(Instant::now());
+            *state = ConnectionState::CircuitOpen;
+        } else {
+            *state = ConnectionState::WaitingRetry;
+        }
+        drop(state);
 
-                warn!("Circuit breaker opened after {} failures", failure_count);
+        if circuit_open {
+            warn!("Circuit breaker opened after {} failures", failure_count);
 
-                if let Some(callback) = &self.callbacks.on_circuit_open {
-                    callback();
-                }
+            if let Some(callback) = &self.callbacks.on_circuit_open {
+                callback();
             }
         }
 
@@ -340,8 +356,8 @@ impl ReconnectManager {
 
     /// Notify that the connection was lost.
     pub async fn on_disconnected(&self) {
-        let state = *self.state.read().await;
-        if state == ConnectionState::Connected {
+        let mut state = self.state.write().await;
+        if *state == ConnectionState::Connected {
             // Check if connection was successful long enough
             let last_success_opt = *self.last_success.lock().await;
             if let Some(last_success) = last_success_opt {
@@ -353,7 +369,10 @@ impl ReconnectManager {
             }
         }
 
-        *self.state.write().await = ConnectionState::Disconnected;
+        // An open circuit stays open for its time
+        if *state != ConnectionState::CircuitOpen {
+            *state = ConnectionState::Disconnected;
+        }
         info!("Connection lost");
     }
 
-- 
2.43.0


From d5524fae958273bea1fd3793d81426631a525feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 29/45] fix: let an open circuit breaker block the operation

The executor called the operation before asking the breaker (and a second
time when it failed), a late success closed an open circuit, concurrent calls
could let requests through a circuit that had just reopened, and the first
exponential wait could exceed the maximum.
---
 src/error/recovery.rs | 80 ++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 43 deletions(-)

diff --git a/src/error/recovery.rs b/src/error/recovery.rs
index bc438c5..a67f38b 100644
--- a/src/error/recovery.rs
+++ b/src/error/recovery.rs
@@ -334,16 +334,17 @@ impl CircuitBreaker {
     /// # }
     /// ```
     pub async fn allow_request(&self) -> bool {
-        let state = *self.state.read().await;
+        // Held until done: each call takes effect as a whole
+        let mut state = self.state.write().await;
 
-        match state {
+        match *state {
             CircuitState::Closed => true,
             CircuitState::Open => {
                 // Check if we should transition to half-open
                 let last_failure_opt = *self.last_failure_time.read().await;
                 if let Some(last_failure) = last_failure_opt {
                     if last_failure.elapsed() >= self.config.timeout {
-                        *self.state.write().await = CircuitState::HalfOpen;
+                        *state = CircuitState::HalfOpen;
                         *self.success_count.write().await = 0;
                         info!("Circuit breaker transitioning to half-open");
                         true
@@ -360,9 +361,9 @@ impl CircuitBreaker {
 
     /// Record a success.
     pub async fn record_success(&self) {
-        let state = *self.state.read().await;
+        let mut state = self.state.write().await;
 
-        match state {
+        match *state {
             CircuitState::Closed => {
                 *self.failure_count.write().await = 0;
             },
@@ -371,36 +372,34 @@ impl CircuitBreaker {
                 *success_count += 1;
 
                 if *success_count >= self.config.success_threshold {
-                    *self.state.write().await = CircuitState::Closed;
+                    *state = CircuitState::Closed;
                     *self.failure_count.write().await = 0;
                     info!("Circuit breaker closed after successful recovery");
                 }
             },
             CircuitState::Open => {
-                // Shouldn't happen, but reset anyway
-                *self.state.write().await = CircuitState::Closed;
-                *self.failure_count.write().await = 0;
+                // A request from before the circuit opened: it stays open until its timeout
             },
         }
     }
 
     /// Record a failure.
     pub async fn record_failure(&self) {
-        let state = *self.state.read().await;
+        let mut state = self.state.write().await;
 
-        match state {
+        match *state {
             CircuitState::Closed => {
                 let mut failure_count = self.failure_count.write().await;
                 *failure_count += 1;
 
                 if *failure_count >= self.config.failure_threshold {
-                    *self.state.write().await = CircuitState::Open;
+                    *state = CircuitState::Open;
                     *self.last_failure_time.write().await = Some(std::time::Instant::now());
                     warn!("Circuit breaker opened after {} failures", failure_count);
                 }
             },
             CircuitState::HalfOpen => {
-                *self.state.write().await = CircuitState::Open;
+                *state = CircuitState::Open;
                 *self.last_failure_time.write().await = Some(std::time::Instant::now());
                 *self.failure_count.write().await = 1;
                 warn!("Circuit breaker reopened after failure in half-open state");
@@ -464,6 +463,25 @@ impl RecoveryExecutor {
         F: Fn() -> Fut,
         Fut: Future<Output = Result<serde_json::Value>>,
     {
+        // An open circuit blocks the operation
+        let breaker = self
+            .circuit_breakers
+            .read()
+            .await
+            .get(operation_id)
+            .cloned();
+        if let Some(cb) = breaker {
+            if !cb.allow_request().await {
+                if self.policy.log_attempts {
+                    warn!("Circuit breaker open for operation: {}", operation_id);
+                }
+                return Err(Error::protocol(
+                    ErrorCode::INTERNAL_ERROR,
+                    "Circuit breaker is open",
+                ));
+            }
+        }
+
         match operation().await {
             Ok(result) => {
                 // Record success if using circuit breaker
@@ -510,7 +528,6 @@ impl RecoveryExecutor {
                             *failure_threshold,
                             *success_threshold,
                             *timeout,
-                            operation,
                         )
                         .await
                     },
@@ -571,7 +588,7 @@ impl RecoveryExecutor {
         Fut: Future<Output = Result<serde_json::Value>>,
     {
         let mut last_error = error;
-        let mut current_delay = initial_delay;
+        let mut current_delay = initial_delay.min(max_delay);
 
         for attempt in 1..=attempts {
             if self.policy.log_attempts {
@@ -623,19 +640,14 @@ impl RecoveryExecutor {
         }
     }
 
-    async fn circuit_breaker<F, Fut>(
+    async fn circuit_breaker(
         &self,
-        _error: Error,
+        error: Error,
         operation_id: &str,
         failure_threshold: u32,
         success_threshold: u32,
         timeout: Duration,
-        operation: F,
-    ) -> Result<serde_json::Value>
-    where
-        F: Fn() -> Fut,
-        Fut: Future<Output = Result<serde_json::Value>>,
-    {
+    ) -> Result<serde_json::Value> {
         // Get or create circuit breaker
         let cb = {
             let mut breakers = self.circuit_breakers.write().await;
@@ -651,26 +663,8 @@ impl RecoveryExecutor {
                 .clone()
         };
 
-        if !cb.allow_request().await {
-            if self.policy.log_attempts {
-                warn!("Circuit breaker open for operation: {}", operation_id);
-            }
-            return Err(Error::protocol(
-                ErrorCode::INTERNAL_ERROR,
-                "Circuit breaker is open",
-            ));
-        }
-
-        match operation().await {
-            Ok(result) => {
-                cb.record_success().await;
-                Ok(result)
-            },
-            Err(e) => {
-                cb.record_failure().await;
-                Err(e)
-            },
-        }
+        cb.record_failure().await;
+        Err(error)
     }
 }
 
-- 
2.43.0


From 326da023fd072b2ebc388404e959a4f414731ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:57 +0000
Subject: [PATCH 30/45] fix: parse event streams as the EventSource format has
 it

A carriage return was looked up by character instead of byte position, which
mixed up lines or panicked after multi-byte text; a lone carriage return did
not end a line; leading empty data lines, and events whose data is empty,
were lost, as were trailing line breaks when writing an event.
---
 src/shared/sse_parser.rs | 65 +++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 5a38d7f..a0a275f 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -103,7 +103,7 @@ impl fmt::Display for SseEvent {
         }
 
         // Split data by newlines and write each line
-        for line in self.data.lines() {
+        for line in self.data.replace("\r\n", "\n").split(['\n', '\r']) {
             writeln!(f, "data: {}", line)?;
         }
 
@@ -118,6 +118,8 @@ pub struct SseParser {
     buffer: String,
     current_event: EventBuilder,
     last_event_id: Option<String>,
+    /// The last line ended with a carriage return: a line feed that follows belongs to it.
+    skip_line_feed: bool,
 }
 
 impl SseParser {
@@ -136,6 +138,7 @@ impl SseParser {
             buffer: String::new(),
             current_event: EventBuilder::new(),
             last_event_id: None,
+            skip_line_feed: false,
         }
     }
 
@@ -170,18 +173,25 @@ impl SseParser {
         self.buffer.push_str(data);
         let mut events = Vec::new();
 
-        while let Some(line_end) = self.buffer.find('\n') {
-            let line = if line_end > 0 && self.buffer.chars().nth(line_end - 1) == Some('\r') {
-                self.buffer[..line_end - 1].to_string()
-            } else {
-                self.buffer[..line_end].to_string()
+        loop {
+            if self.skip_line_feed && !self.buffer.is_empty() {
+                self.skip_line_feed = false;
+                if self.buffer.starts_with('\n') {
+                    self.buffer.remove(0);
+                }
+            }
+
+            // A line ends with LF, CR or CRLF
+            let Some(line_end) = self.buffer.find(['\n', '\r']) else {
+                break;
             };
+            self.skip_line_feed = self.buffer[line_end..].starts_with('\r');
+            let line = self.buffer[..line_end].to_string();
+            self.buffer.drain(..=line_end);
 
             if let Some(event) = self.process_line(&line) {
                 events.push(event);
             }
-
-            self.buffer.drain(..=line_end);
         }
 
         events
@@ -217,11 +227,11 @@ impl SseParser {
                 self.current_event.event = Some(value.to_string());
             },
             "data" => {
-                if self.current_event.data.is_empty() {
-                    self.current_event.data = value.to_string();
+                if let Some(data) = &mut self.current_event.data {
+                    data.push('\n');
+                    data.push_str(value);
                 } else {
-                    self.current_event.data.push('\n');
-                    self.current_event.data.push_str(value);
+                    self.current_event.data = Some(value.to_string());
                 }
             },
             "id" => {
@@ -245,25 +255,17 @@ impl SseParser {
 
     /// Dispatch the current event if it has data.
     fn dispatch_event(&mut self) -> Option<SseEvent> {
-        if self.current_event.data.is_empty() {
-            // No data, don't dispatch
-            self.current_event = EventBuilder::new();
-            return None;
-        }
+        let current = std::mem::replace(&mut self.current_event, EventBuilder::new());
 
-        let event = SseEvent {
-            id: self
-                .current_event
-                .id
-                .clone()
-                .or_else(|| self.last_event_id.clone()),
-            event: self.current_event.event.clone(),
-            data: self.current_event.data.clone(),
-            retry: self.current_event.retry,
-        };
+        // No data, don't dispatch
+        let data = current.data?;
 
-        self.current_event = EventBuilder::new();
-        Some(event)
+        Some(SseEvent {
+            id: current.id.or_else(|| self.last_event_id.clone()),
+            event: current.event,
+            data,
+            retry: current.retry,
+        })
     }
 
     /// Get the last event ID seen.
@@ -275,6 +277,7 @@ impl SseParser {
     pub fn reset(&mut self) {
         self.buffer.clear();
         self.current_event = EventBuilder::new();
+        self.skip_line_feed = false;
     }
 }
 
@@ -289,7 +292,7 @@ impl Default for SseParser {
 struct EventBuilder {
     id: Option<String>,
     event: Option<String>,
-    data: String,
+    data: Option<String>,
     retry: Option<u64>,
 }
 
@@ -298,7 +301,7 @@ impl EventBuilder {
         Self {
             id: None,
             event: None,
-            data: String::new(),
+            data: None,
             retry: None,
         }
     }
-- 
2.43.0


From 61f3aa732104f77973e1b430bc7809fd3819286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:57 +0000
Subject: [PATCH 31/45] fix: do not garble characters cut between two frames of
 an event stream

---
 src/shared/http.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 8e0a3a7..c16f013 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -136,12 +136,20 @@ impl HttpTransport {
 
                 let mut body = response.into_body();
                 let mut sse_parser = SseParser::new();
+                // Bytes of a character that was cut between two frames
+                let mut partial: Vec<u8> = Vec::new();
 
                 while let Some(chunk) = body.frame().await {
                     match chunk {
                         Ok(frame) => {
                             if let Some(data) = frame.data_ref() {
-                                let text = String::from_utf8_lossy(data);
+                                partial.extend_from_slice(data);
+                                let whole = match std::str::from_utf8(&partial) {
+                                    Err(e) if e.error_len().is_none() => e.valid_up_to(),
+                                    _ => partial.len(),
+                                };
+                                let bytes: Vec<u8> = partial.drain(..whole).collect();
+                                let text = String::from_utf8_lossy(&bytes);
                                 let events = sse_parser.feed(&text);
 
                                 for event in events {
-- 
2.43.0


From d5428d56da448d3b2d3c80bad53b0d92ec1ffacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:47 +0000
Subject: [PATCH 32/45] fix: announce the capabilities of everything offered,
 in the order of the changes

---
 src/server/dynamic.rs | 142 ++++++++++++++++++++----------------------
 1 file changed, 69 insertions(+), 73 deletions(-)

diff --git a/src/server/dynamic.rs b/src/server/dynamic.rs
index 8a7e56c..b6092c4 100644
--- a/src/server/dynamic.rs
+++ b/src/server/dynamic.rs
@@ -12,7 +12,7 @@ use crate::types::capabilities::SamplingCapabilities;
 use crate::types::{PromptInfo, ServerCapabilities, ToolInfo};
 use std::collections::HashMap;
 use std::sync::Arc;
-use tokio::sync::RwLock;
+use tokio::sync::{Mutex, RwLock};
 use tracing::info;
 
 /// Type alias for capability update listeners
@@ -58,6 +58,9 @@ pub struct DynamicServerManager {
     /// Capability update callbacks
     #[allow(dead_code)]
     capability_listeners: Arc<RwLock<Vec<CapabilityListener>>>,
+
+    /// Held over a change and its announcement, so that changes are announced in order
+    change: Arc<Mutex<()>>,
 }
 
 impl DynamicServerManager {
@@ -89,6 +92,7 @@ impl DynamicServerManager {
             dynamic_resources: Arc::new(RwLock::new(None)),
             dynamic_sampling: Arc::new(RwLock::new(None)),
             capability_listeners: Arc::new(RwLock::new(Vec::new())),
+            change: Arc::new(Mutex::new(())),
         }
     }
 
@@ -103,6 +107,7 @@ impl DynamicServerManager {
     ) -> Result<()> {
         let name = name.into();
         info!("Adding dynamic tool: {}", name);
+        let _change = self.change.lock().await;
 
         // Add to dynamic registry
         self.dynamic_tools
@@ -110,13 +115,7 @@ impl DynamicServerManager {
             .await
             .insert(name.clone(), handler);
 
-        // Update server capabilities to indicate tools are available
-        self.update_capabilities(|caps| {
-            caps.tools = Some(crate::types::ToolCapabilities {
-                list_changed: Some(true),
-            });
-        })
-        .await;
+        self.announce_capabilities().await;
 
         Ok(())
     }
@@ -124,6 +123,7 @@ impl DynamicServerManager {
     /// Remove a tool at runtime
     pub async fn remove_tool(&self, name: &str) -> Result<()> {
         info!("Removing dynamic tool: {}", name);
+        let _change = self.change.lock().await;
 
         // Remove from dynamic registry
         if self.dynamic_tools.write().await.remove(name).is_none() {
@@ -133,11 +133,7 @@ impl DynamicServerManager {
             ));
         }
 
-        // Update server capabilities
-        self.update_capabilities(|_caps| {
-            // Dynamic tools are managed separately, capabilities stay the same
-        })
-        .await;
+        self.announce_capabilities().await;
 
         Ok(())
     }
@@ -151,6 +147,7 @@ impl DynamicServerManager {
     ) -> Result<()> {
         let name = name.into();
         info!("Adding dynamic prompt: {}", name);
+        let _change = self.change.lock().await;
 
         // Add to dynamic registry
         self.dynamic_prompts
@@ -158,13 +155,7 @@ impl DynamicServerManager {
             .await
             .insert(name.clone(), handler);
 
-        // Update server capabilities to indicate prompts are available
-        self.update_capabilities(|caps| {
-            caps.prompts = Some(crate::types::PromptCapabilities {
-                list_changed: Some(true),
-            });
-        })
-        .await;
+        self.announce_capabilities().await;
 
         Ok(())
     }
@@ -172,6 +163,7 @@ impl DynamicServerManager {
     /// Remove a prompt at runtime
     pub async fn remove_prompt(&self, name: &str) -> Result<()> {
         info!("Removing dynamic prompt: {}", name);
+        let _change = self.change.lock().await;
 
         // Remove from dynamic registry
         if self.dynamic_prompts.write().await.remove(name).is_none() {
@@ -181,11 +173,7 @@ impl DynamicServerManager {
             ));
         }
 
-        // Update server capabilities
-        self.update_capabilities(|_caps| {
-            // Dynamic prompts are managed separately, capabilities stay the same
-        })
-        .await;
+        self.announce_capabilities().await;
 
         Ok(())
     }
@@ -193,17 +181,11 @@ impl DynamicServerManager {
     /// Set resource handler at runtime
     pub async fn set_resource_handler(&self, handler: Arc<dyn ResourceHandler>) -> Result<()> {
         info!("Setting dynamic resource handler");
+        let _change = self.change.lock().await;
 
         *self.dynamic_resources.write().await = Some(handler);
 
-        // Update server capabilities
-        self.update_capabilities(|caps| {
-            caps.resources = Some(crate::types::ResourceCapabilities {
-                subscribe: Some(true),
-                list_changed: Some(true),
-            });
-        })
-        .await;
+        self.announce_capabilities().await;
 
         Ok(())
     }
@@ -211,14 +193,11 @@ impl DynamicServerManager {
     /// Remove resource handler at runtime
     pub async fn remove_resource_handler(&self) -> Result<()> {
         info!("Removing dynamic resource handler");
+        let _change = self.change.lock().await;
 
         *self.dynamic_resources.write().await = None;
 
-        // Update server capabilities
-        self.update_capabilities(|caps| {
-            caps.resources = None;
-        })
-        .await;
+        self.announce_capabilities().await;
 
         Ok(())
     }
@@ -226,14 +205,11 @@ impl DynamicServerManager {
     /// Set sampling handler at runtime
     pub async fn set_sampling_handler(&self, handler: Arc<dyn SamplingHandler>) -> Result<()> {
         info!("Setting dynamic sampling handler");
+        let _change = self.change.lock().await;
 
         *self.dynamic_sampling.write().await = Some(handler);
 
-        // Update server capabilities
-        self.update_capabilities(|caps| {
-            caps.sampling = Some(SamplingCapabilities::default());
-        })
-        .await;
+        self.announce_capabilities().await;
 
         Ok(())
     }
@@ -241,14 +217,11 @@ impl DynamicServerManager {
     /// Remove sampling handler at runtime
     pub async fn remove_sampling_handler(&self) -> Result<()> {
         info!("Removing dynamic sampling handler");
+        let _change = self.change.lock().await;
 
         *self.dynamic_sampling.write().await = None;
 
-        // Update server capabilities
-        self.update_capabilities(|caps| {
-            caps.sampling = None;
-        })
-        .await;
+        self.announce_capabilities().await;
 
         Ok(())
     }
@@ -287,40 +260,63 @@ impl DynamicServerManager {
     /// Reload configuration from a source
     pub async fn reload_configuration(&self, config: DynamicConfig) -> Result<()> {
         info!("Reloading dynamic configuration");
-
-        // Clear existing dynamic handlers
-        self.dynamic_tools.write().await.clear();
-        self.dynamic_prompts.write().await.clear();
-
-        // Apply new configuration
-        for (name, tool) in config.tools {
-            self.add_tool(name, tool.handler, tool.info).await?;
-        }
-
-        for (name, prompt) in config.prompts {
-            self.add_prompt(name, prompt.handler, prompt.info).await?;
-        }
-
-        if let Some(resources) = config.resources {
-            self.set_resource_handler(resources).await?;
+        let _change = self.change.lock().await;
+
+        {
+            // Replace the dynamic handlers in one step
+            let mut tools = self.dynamic_tools.write().await;
+            let mut prompts = self.dynamic_prompts.write().await;
+            let mut resources = self.dynamic_resources.write().await;
+            let mut sampling = self.dynamic_sampling.write().await;
+
+            *tools = config
+                .tools
+                .into_iter()
+                .map(|(name, tool)| (name, tool.handler))
+                .collect();
+            *prompts = config
+                .prompts
+                .into_iter()
+                .map(|(name, prompt)| (name, prompt.handler))
+                .collect();
+            if config.resources.is_some() {
+                *resources = config.resources;
+            }
+            if config.sampling.is_some() {
+                *sampling = config.sampling;
+            }
         }
 
-        if let Some(sampling) = config.sampling {
-            self.set_sampling_handler(sampling).await?;
-        }
+        self.announce_capabilities().await;
 
         Ok(())
     }
 
-    /// Update server capabilities and notify listeners
-    async fn update_capabilities<F>(&self, updater: F)
-    where
-        F: FnOnce(&mut ServerCapabilities),
-    {
+    /// Tell the listeners the capabilities: the server's own and those of what is offered now.
+    /// The caller holds `change`.
+    async fn announce_capabilities(&self) {
         // Note: In a real implementation, we'd need to update the actual
         // server capabilities and send notifications to connected clients
         let mut caps = self.server.capabilities.clone();
-        updater(&mut caps);
+        if !self.dynamic_tools.read().await.is_empty() {
+            caps.tools = Some(crate::types::ToolCapabilities {
+                list_changed: Some(true),
+            });
+        }
+        if !self.dynamic_prompts.read().await.is_empty() {
+            caps.prompts = Some(crate::types::PromptCapabilities {
+                list_changed: Some(true),
+            });
+        }
+        if self.dynamic_resources.read().await.is_some() {
+            caps.resources = Some(crate::types::ResourceCapabilities {
+                subscribe: Some(true),
+                list_changed: Some(true),
+            });
+        }
+        if self.dynamic_sampling.read().await.is_some() {
+            caps.sampling = Some(SamplingCapabilities::default());
+        }
 
         // Notify listeners
         let listeners = self.capability_listeners.read().await;
-- 
2.43.0


From fcfeb40d14722f9d5c5abf4c8d54b841512733f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:31 +0000
Subject: [PATCH 33/45] fix: the HTTP client speaks JSON-RPC, delivers streamed
 messages as they arrive, and takes any 202 as accepted

---
 src/shared/streamable_http.rs | 109 ++++++++++++++++++----------------
 1 file changed, 57 insertions(+), 52 deletions(-)

diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index f54f7f7..2cd7a81 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -4,7 +4,7 @@ use crate::shared::http_constants::{
     MCP_SESSION_ID, TEXT_EVENT_STREAM,
 };
 use crate::shared::sse_parser::SseParser;
-use crate::shared::{Transport, TransportMessage};
+use crate::shared::{StdioTransport, Transport, TransportMessage};
 use async_trait::async_trait;
 use parking_lot::RwLock;
 use reqwest::{Client, RequestBuilder, Response};
@@ -232,13 +232,37 @@ impl StreamableHttpTransport {
         let on_resumption = self.config.read().on_resumption_token.clone();
         let last_event_id = self.last_event_id.clone();
 
-        let handle = tokio::spawn(async move {
-            let mut sse_parser = SseParser::new();
-            let body = response.text().await.unwrap_or_default();
+        let handle = tokio::spawn(Self::read_events(
+            response,
+            sender,
+            on_resumption,
+            last_event_id,
+        ));
+
+        *self.abort_handle.write() = Some(handle);
+        Ok(())
+    }
 
-            // For now, parse the whole body - later we can stream with hyper Body
-            let events = sse_parser.feed(&body);
-            for event in events {
+    /// Deliver the messages of an event stream as they arrive
+    async fn read_events(
+        mut response: Response,
+        sender: mpsc::UnboundedSender<TransportMessage>,
+        on_resumption: Option<Arc<dyn Fn(String) + Send + Sync>>,
+        last_event_id: Arc<RwLock<Option<String>>>,
+    ) {
+        let mut sse_parser = SseParser::new();
+        // Bytes of a character that was cut between two chunks
+        let mut partial: Vec<u8> = Vec::new();
+
+        while let Ok(Some(chunk)) = response.chunk().await {
+            partial.extend_from_slice(&chunk);
+            let whole = match std::str::from_utf8(&partial) {
+                Err(e) if e.error_len().is_none() => e.valid_up_to(),
+                _ => partial.len(),
+            };
+            let bytes: Vec<u8> = partial.drain(..whole).collect();
+
+            for event in sse_parser.feed(&String::from_utf8_lossy(&bytes)) {
                 // Update last event ID and notify callback
                 if let Some(id) = &event.id {
                     *last_event_id.write() = Some(id.clone());
@@ -249,15 +273,19 @@ impl StreamableHttpTransport {
 
                 // Only process "message" events or no event type
                 if event.event.as_deref() == Some("message") || event.event.is_none() {
-                    if let Ok(msg) = serde_json::from_str::<TransportMessage>(&event.data) {
+                    if let Ok(msg) = Self::parse_message(event.data.as_bytes()) {
                         let _ = sender.send(msg);
                     }
                 }
             }
-        });
+        }
+    }
 
-        *self.abort_handle.write() = Some(handle);
-        Ok(())
+    /// Parse a JSON-RPC message, or the form `TransportMessage` serializes to
+    fn parse_message(data: &[u8]) -> Result<TransportMessage> {
+        StdioTransport::parse_message(data)
+            .or_else(|e| serde_json::from_slice(data).map_err(|_| e))
+            .map_err(|e| Error::Transport(TransportError::Deserialization(e.to_string())))
     }
 
     async fn build_request(&self, method: reqwest::Method, url: Url) -> Result<RequestBuilder> {
@@ -326,7 +354,7 @@ impl StreamableHttpTransport {
             return Ok(());
         }
 
-        let body = serde_json::to_string(&message)
+        let body = StdioTransport::serialize_message(&message)
             .map_err(|e| Error::Transport(TransportError::Serialization(e.to_string())))?;
 
         let url = self.config.read().url.clone();
@@ -343,17 +371,12 @@ impl StreamableHttpTransport {
         // Process headers for session and protocol info
         self.process_response_headers(&response);
 
-        if !response.status().is_success() {
-            // Special handling for 202 Accepted (notification acknowledged)
-            if response.status().as_u16() == 202 {
-                // For initialization messages, try to start SSE stream
-                if matches!(message, TransportMessage::Notification { .. }) {
-                    // Try to start GET SSE (tolerate 405)
-                    let _ = self.start_sse(None).await;
-                }
-                return Ok(());
-            }
+        // 202 Accepted (notification or response acknowledged) carries no message
+        if response.status().as_u16() == 202 {
+            return Ok(());
+        }
 
+        if !response.status().is_success() {
             return Err(Error::Transport(TransportError::Request(format!(
                 "Request failed with status: {}",
                 response.status()
@@ -374,7 +397,11 @@ impl StreamableHttpTransport {
                 .map_err(|e| Error::Transport(TransportError::Request(e.to_string())))?;
 
             // Try to parse as array first (batch response)
-            if let Ok(batch) = serde_json::from_slice::<Vec<TransportMessage>>(&response_bytes) {
+            if let Ok(batch) = serde_json::from_slice::<Vec<serde_json::Value>>(&response_bytes) {
+                let batch = batch
+                    .iter()
+                    .map(|msg| Self::parse_message(msg.to_string().as_bytes()))
+                    .collect::<Result<Vec<_>>>()?;
                 for msg in batch {
                     self.sender
                         .send(msg)
@@ -382,9 +409,7 @@ impl StreamableHttpTransport {
                 }
             } else {
                 // Single message
-                let message = serde_json::from_slice(&response_bytes).map_err(|e| {
-                    Error::Transport(TransportError::Deserialization(e.to_string()))
-                })?;
+                let message = Self::parse_message(&response_bytes)?;
                 self.sender
                     .send(message)
                     .map_err(|e| Error::Transport(TransportError::Send(e.to_string())))?;
@@ -395,32 +420,12 @@ impl StreamableHttpTransport {
             let on_resumption = self.config.read().on_resumption_token.clone();
             let last_event_id = self.last_event_id.clone();
 
-            tokio::spawn(async move {
-                let mut sse_parser = SseParser::new();
-                let body = response.text().await.unwrap_or_default();
-
-                // Parse the SSE body
-                let events = sse_parser.feed(&body);
-                for event in events {
-                    // Update last event ID and notify callback
-                    if let Some(id) = &event.id {
-                        *last_event_id.write() = Some(id.clone());
-                        if let Some(callback) = &on_resumption {
-                            callback(id.clone());
-                        }
-                    }
-
-                    // Only process "message" events
-                    if event.event.as_deref() == Some("message") || event.event.is_none() {
-                        if let Ok(msg) = serde_json::from_str::<TransportMessage>(&event.data) {
-                            let _ = sender.send(msg);
-                        }
-                    }
-                }
-            });
-        } else if response.status().as_u16() == 202 {
-            // 202 Accepted with no body is valid
-            return Ok(());
+            tokio::spawn(Self::read_events(
+                response,
+                sender,
+                on_resumption,
+                last_event_id,
+            ));
         } else {
             return Err(Error::Transport(TransportError::Request(format!(
                 "Unsupported content type: {}",
-- 
2.43.0


From d03543c7da6eb7d1ad5766f132bf459f90670786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:06 +0000
Subject: [PATCH 34/45] fix: the WebSocket server notices a lost peer, tells it
 when it closes, and applies its size limits

---
 src/server/transport/websocket.rs | 38 +++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index 1f5b1b7..9bb2fc5 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -8,7 +8,10 @@ use std::net::SocketAddr;
 use std::sync::Arc;
 use tokio::net::TcpListener;
 use tokio::sync::{mpsc, Mutex};
-use tokio_tungstenite::{accept_async, tungstenite::protocol::Message};
+use tokio_tungstenite::{
+    accept_async_with_config,
+    tungstenite::protocol::{Message, WebSocketConfig},
+};
 use tracing::{error, info, warn};
 
 /// Configuration for WebSocket server transport.
@@ -92,7 +95,11 @@ impl WebSocketServerTransport {
         info!("Accepting WebSocket connection from {}", peer_addr);
 
         // Accept the WebSocket handshake
-        let ws_stream = accept_async(tcp_stream)
+        let ws_config = WebSocketConfig::default()
+            .max_frame_size(self.config.max_frame_size)
+            .max_message_size(self.config.max_message_size)
+            .accept_unmasked_frames(self.config.accept_unmasked_frames);
+        let ws_stream = accept_async_with_config(tcp_stream, Some(ws_config))
             .await
             .map_err(|e| Error::internal(format!("WebSocket handshake failed: {}", e)))?;
 
@@ -113,9 +120,12 @@ impl WebSocketServerTransport {
 
         // Spawn task to handle outgoing messages and pongs
         tokio::spawn(async move {
+            let mut reading = true;
             loop {
                 tokio::select! {
-                    Some(msg) = outgoing_rx.recv() => {
+                    msg = outgoing_rx.recv() => {
+                        // The transport was closed, and everything before that has been sent
+                        let Some(msg) = msg else { break };
                         let json_bytes = match crate::shared::stdio::StdioTransport::serialize_message(&msg)
                         {
                             Ok(bytes) => bytes,
@@ -138,15 +148,23 @@ impl WebSocketServerTransport {
                             break;
                         }
                     }
-                    Some(data) = pong_rx.recv() => {
+                    data = pong_rx.recv(), if reading => {
+                        let Some(data) = data else {
+                            // The connection is gone: accept no further messages for it
+                            reading = false;
+                            outgoing_rx.close();
+                            continue;
+                        };
                         if let Err(e) = ws_sink.send(Message::Pong(data.into())).await {
                             error!("Failed to send pong: {}", e);
                             break;
                         }
                     }
-                    else => break,
                 }
             }
+
+            // Tell the peer, if it is still there
+            let _ = ws_sink.close().await;
         });
 
         // Spawn task to handle incoming messages
@@ -240,8 +258,14 @@ impl Transport for WebSocketServerTransport {
     }
 
     fn is_connected(&self) -> bool {
-        // Check if we have active channels
-        futures::executor::block_on(async { self.outgoing_tx.lock().await.is_some() })
+        // Check if we have active channels of a live connection
+        futures::executor::block_on(async {
+            self.outgoing_tx
+                .lock()
+                .await
+                .as_ref()
+                .is_some_and(|tx| !tx.is_closed())
+        })
     }
 
     fn transport_type(&self) -> &'static str {
-- 
2.43.0


From d026c43291fd066974a3ccf6a24d25e257a3fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:50 +0000
Subject: [PATCH 35/45] fix: messages without parameters read like those with
 empty ones, and input requests are written under the name they are read by

---
 src/shared/protocol_helpers.rs | 56 ++++++++++++++++------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/shared/protocol_helpers.rs b/src/shared/protocol_helpers.rs
index 36ed2b9..6e10ab7 100644
--- a/src/shared/protocol_helpers.rs
+++ b/src/shared/protocol_helpers.rs
@@ -103,44 +103,42 @@ pub fn create_notification(notification: Notification) -> JSONRPCNotification<Va
 
 // Helper functions for parsing
 
-fn parse_client_request(method: &str, params: &Value) -> Result<ClientRequest> {
-    let request_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
+/// Parse a method with its parameters.
+///
+/// A message without parameters is as good as one with an empty object, whichever the
+/// method's type asks for.
+fn parse_method<T: serde::de::DeserializeOwned>(method: &str, params: &Value) -> Result<T> {
+    let parse = |params: &Value| {
+        serde_json::from_value(serde_json::json!({
+            "method": method,
+            "params": params,
+        }))
+    };
+    let other = match params {
+        Value::Null => Value::Object(serde_json::Map::new()),
+        Value::Object(_) => Value::Null,
+        _ => params.clone(),
+    };
 
-    serde_json::from_value(request_json)
-        .map_err(|e| Error::parse(format!("Invalid client request: {}", e)))
+    parse(params)
+        .or_else(|e| parse(&other).map_err(|_| e))
+        .map_err(|e| Error::parse(format!("Invalid {}: {}", method, e)))
 }
 
-fn parse_server_request(method: &str, params: &Value) -> Result<ServerRequest> {
-    let request_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
+fn parse_client_request(method: &str, params: &Value) -> Result<ClientRequest> {
+    parse_method(method, params)
+}
 
-    serde_json::from_value(request_json)
-        .map_err(|e| Error::parse(format!("Invalid server request: {}", e)))
+fn parse_server_request(method: &str, params: &Value) -> Result<ServerRequest> {
+    parse_method(method, params)
 }
 
 fn parse_client_notification(method: &str, params: &Value) -> Result<ClientNotification> {
-    let notif_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
-
-    serde_json::from_value(notif_json)
-        .map_err(|e| Error::parse(format!("Invalid client notification: {}", e)))
+    parse_method(method, params)
 }
 
 fn parse_server_notification(method: &str, params: &Value) -> Result<ServerNotification> {
-    let notif_json = serde_json::json!({
-        "method": method,
-        "params": params,
-    });
-
-    serde_json::from_value(notif_json)
-        .map_err(|e| Error::parse(format!("Invalid server notification: {}", e)))
+    parse_method(method, params)
 }
 
 fn client_request_to_jsonrpc(req: ClientRequest) -> (String, Option<Value>) {
@@ -195,7 +193,7 @@ fn server_request_to_jsonrpc(req: ServerRequest) -> (String, Option<Value>) {
         ),
         ServerRequest::ListRoots => ("roots/list".to_string(), None),
         ServerRequest::ElicitInput(params) => (
-            "elicitation/input".to_string(),
+            "elicitation/elicitInput".to_string(),
             Some(serde_json::to_value(params).unwrap()),
         ),
     }
-- 
2.43.0


From f73b421dc05d682df602ef84148948ca9944d1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:07 +0000
Subject: [PATCH 36/45] fix: keep stdio framing intact across given-up
 receives, bad lengths and end of input

---
 src/shared/stdio.rs | 90 ++++++++++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 33 deletions(-)

diff --git a/src/shared/stdio.rs b/src/shared/stdio.rs
index 72fdc56..1b7c40c 100644
--- a/src/shared/stdio.rs
+++ b/src/shared/stdio.rs
@@ -6,12 +6,24 @@
 use crate::error::{Result, TransportError};
 use crate::shared::transport::{Transport, TransportMessage};
 use async_trait::async_trait;
-use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt, BufReader};
+use tokio::io::{AsyncReadExt, AsyncWriteExt};
 use tokio::sync::Mutex;
 
 /// Line-delimited JSON framing header.
 const CONTENT_LENGTH_HEADER: &str = "Content-Length: ";
 
+/// How much input is asked for at a time.
+const READ_SIZE: usize = 8 * 1024;
+
+/// Standard input, with what was read but not received yet.
+///
+/// Frames are taken out of the buffer whole, so that a receive can be given up at any time.
+#[derive(Debug)]
+struct Input {
+    stdin: tokio::io::Stdin,
+    buffer: Vec<u8>,
+}
+
 /// stdio transport for MCP communication.
 ///
 /// Uses length-prefixed framing compatible with the TypeScript SDK.
@@ -29,7 +41,7 @@ const CONTENT_LENGTH_HEADER: &str = "Content-Length: ";
 /// ```
 #[derive(Debug)]
 pub struct StdioTransport {
-    stdin: Mutex<BufReader<tokio::io::Stdin>>,
+    stdin: Mutex<Input>,
     stdout: Mutex<tokio::io::Stdout>,
     closed: std::sync::atomic::AtomicBool,
 }
@@ -47,7 +59,10 @@ impl StdioTransport {
     /// ```
     pub fn new() -> Self {
         Self {
-            stdin: Mutex::new(BufReader::new(tokio::io::stdin())),
+            stdin: Mutex::new(Input {
+                stdin: tokio::io::stdin(),
+                buffer: Vec::new(),
+            }),
             stdout: Mutex::new(tokio::io::stdout()),
             closed: std::sync::atomic::AtomicBool::new(false),
         }
@@ -84,9 +99,8 @@ impl Transport for StdioTransport {
             return Err(TransportError::ConnectionClosed.into());
         }
 
-        let content_length = self.read_headers().await?;
-        let buffer = self.read_message_body(content_length).await?;
-        Self::parse_message(&buffer)
+        let frame = self.read_frame().await?;
+        Self::parse_message(&frame)
     }
 
     async fn close(&mut self) -> Result<()> {
@@ -162,29 +176,40 @@ impl StdioTransport {
         Ok(())
     }
 
-    /// Read headers and extract content length.
-    async fn read_headers(&self) -> Result<usize> {
-        let mut stdin = self.stdin.lock().await;
-        let mut line = String::new();
-        let mut content_length = None;
+    /// Read the body of the next frame.
+    async fn read_frame(&self) -> Result<Vec<u8>> {
+        let mut input = self.stdin.lock().await;
 
-        // Read headers until we find content-length
         loop {
-            line.clear();
-            let bytes_read = stdin
-                .read_line(&mut line)
-                .await
-                .map_err(TransportError::from)?;
+            if let Some(frame) = Self::take_frame(&mut input.buffer) {
+                return frame;
+            }
+
+            let Input { stdin, buffer } = &mut *input;
+            buffer.reserve(READ_SIZE);
+            let bytes_read = stdin.read_buf(buffer).await.map_err(TransportError::from)?;
 
             if bytes_read == 0 {
                 // EOF reached
-                drop(stdin);
+                drop(input);
                 self.closed
                     .store(true, std::sync::atomic::Ordering::Release);
                 return Err(TransportError::ConnectionClosed.into());
             }
+        }
+    }
 
+    /// Take the first frame out of the buffer, if all of it is there.
+    fn take_frame(buffer: &mut Vec<u8>) -> Option<Result<Vec<u8>>> {
+        let mut content_length = None;
+        let mut start = 0;
+
+        // Read headers up to the empty line
+        loop {
+            let end = start + buffer[start..].iter().position(|byte| *byte == b'\n')?;
+            let line = String::from_utf8_lossy(&buffer[start..end]);
             let line = line.trim();
+            start = end + 1;
 
             if line.is_empty() {
                 // End of headers
@@ -195,23 +220,22 @@ impl StdioTransport {
                 content_length = Some(length);
             }
         }
-        drop(stdin);
 
-        content_length.ok_or_else(|| {
-            TransportError::InvalidMessage("Missing Content-Length header".to_string()).into()
-        })
-    }
+        let Some(content_length) = content_length else {
+            buffer.drain(..start);
+            return Some(Err(TransportError::InvalidMessage(
+                "Missing Content-Length header".to_string(),
+            )
+            .into()));
+        };
 
-    /// Read message body with specified content length.
-    async fn read_message_body(&self, content_length: usize) -> Result<Vec<u8>> {
-        let mut stdin = self.stdin.lock().await;
-        let mut buffer = vec![0u8; content_length];
-        stdin
-            .read_exact(&mut buffer)
-            .await
-            .map_err(TransportError::from)?;
-        drop(stdin);
-        Ok(buffer)
+        if buffer.len() - start < content_length {
+            return None;
+        }
+        let rest = buffer.split_off(start + content_length);
+        let mut frame = std::mem::replace(buffer, rest);
+        frame.drain(..start);
+        Some(Ok(frame))
     }
 
     /// Parse JSON message and determine its type.
-- 
2.43.0


From b61e2369389d1eb1371fbb605ba543c5a5c87515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:53 +0000
Subject: [PATCH 37/45] fix: expand and match URI templates as RFC 6570 says

---
 src/shared/uri_template.rs | 254 +++++++++++++++++++------------------
 1 file changed, 134 insertions(+), 120 deletions(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 3a6d111..0e579b8 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -87,6 +87,45 @@ enum Operator {
     QueryContinuation,
 }
 
+impl Operator {
+    /// Whether values keep reserved characters
+    const fn allows_reserved(self) -> bool {
+        matches!(self, Self::Reserved | Self::Fragment)
+    }
+
+    /// Whether values are preceded by their names
+    const fn is_named(self) -> bool {
+        matches!(
+            self,
+            Self::PathParameter | Self::Query | Self::QueryContinuation
+        )
+    }
+
+    /// What precedes the first value
+    const fn prefix(self) -> &'static str {
+        match self {
+            Self::Simple | Self::Reserved => "",
+            Self::Fragment => "#",
+            Self::Label => ".",
+            Self::PathSegment => "/",
+            Self::PathParameter => ";",
+            Self::Query => "?",
+            Self::QueryContinuation => "&",
+        }
+    }
+
+    /// What stands between values
+    const fn separator(self) -> &'static str {
+        match self {
+            Self::Simple | Self::Reserved | Self::Fragment => ",",
+            Self::Label => ".",
+            Self::PathSegment => "/",
+            Self::PathParameter => ";",
+            Self::Query | Self::QueryContinuation => "&",
+        }
+    }
+}
+
 /// Variable specification with optional modifier
 #[derive(Debug, Clone, PartialEq, Eq)]
 struct VarSpec {
@@ -135,9 +174,9 @@ impl UriTemplate {
 
             // Add literal text before this expression
             if match_range.start() > last_end {
-                expressions.push(Expression::Literal(
-                    template[last_end..match_range.start()].to_string(),
-                ));
+                expressions.push(Self::parse_literal(
+                    &template[last_end..match_range.start()],
+                )?);
             }
 
             // Parse the expression
@@ -149,12 +188,23 @@ impl UriTemplate {
 
         // Add remaining literal text
         if last_end < template.len() {
-            expressions.push(Expression::Literal(template[last_end..].to_string()));
+            expressions.push(Self::parse_literal(&template[last_end..])?);
         }
 
         Ok(expressions)
     }
 
+    /// Parse the text between expressions
+    fn parse_literal(text: &str) -> Result<Expression> {
+        if text.contains(['{', '}']) {
+            return Err(Error::Validation(format!(
+                "Unbalanced brace in template: {}",
+                text
+            )));
+        }
+        Ok(Expression::Literal(text.to_string()))
+    }
+
     /// Parse a single expression
     fn parse_expression(expr: &str) -> Result<Expression> {
         if expr.is_empty() {
@@ -211,6 +261,12 @@ impl UriTemplate {
 
             Self::validate_var_name(name)?;
 
+            if !length_str.starts_with(|c: char| c.is_ascii_digit() && c != '0') {
+                return Err(Error::Validation(format!(
+                    "Invalid prefix length: {}",
+                    length_str
+                )));
+            }
             let length = length_str
                 .parse::<usize>()
                 .map_err(|_| Error::Validation(format!("Invalid prefix length: {}", length_str)))?;
@@ -334,31 +390,22 @@ impl UriTemplate {
                 let encoded = match spec.modifier {
                     Some(Modifier::Prefix(len)) => {
                         let truncated = value.chars().take(len).collect::<String>();
-                        Self::encode_value(&truncated, op == Operator::Reserved)
+                        Self::encode_value(&truncated, op.allows_reserved())
                     },
                     Some(Modifier::Explode) => {
                         // For simplicity, treat explode as normal expansion
-                        Self::encode_value(value, op == Operator::Reserved)
+                        Self::encode_value(value, op.allows_reserved())
                     },
-                    None => Self::encode_value(value, op == Operator::Reserved),
+                    None => Self::encode_value(value, op.allows_reserved()),
                 };
 
                 match op {
-                    Operator::Simple | Operator::Reserved => {
-                        parts.push(encoded);
-                    },
-                    Operator::Label => {
-                        parts.push(encoded);
-                    },
-                    Operator::PathSegment => {
-                        parts.push(encoded);
-                    },
+                    // A path parameter without a value is its name alone
+                    Operator::PathParameter if value.is_empty() => parts.push(spec.name.clone()),
                     Operator::PathParameter | Operator::Query | Operator::QueryContinuation => {
                         parts.push(format!("{}={}", spec.name, encoded));
                     },
-                    Operator::Fragment => {
-                        parts.push(encoded);
-                    },
+                    _ => parts.push(encoded),
                 }
             }
         }
@@ -367,37 +414,32 @@ impl UriTemplate {
             return String::new();
         }
 
-        let separator = match op {
-            Operator::Simple | Operator::Reserved => ",",
-            Operator::Label => ".",
-            Operator::PathSegment => "/",
-            Operator::PathParameter => ";",
-            Operator::Query | Operator::QueryContinuation => "&",
-            Operator::Fragment => ",",
-        };
-
-        let prefix = match op {
-            Operator::Fragment => "#",
-            Operator::Label => ".",
-            Operator::PathSegment => "/",
-            Operator::PathParameter => ";",
-            Operator::Query => "?",
-            Operator::QueryContinuation => "&",
-            _ => "",
-        };
-
-        format!("{}{}", prefix, parts.join(separator))
+        format!("{}{}", op.prefix(), parts.join(op.separator()))
     }
 
     /// Encode a value for URI inclusion
     fn encode_value(value: &str, allow_reserved: bool) -> String {
-        if allow_reserved {
-            // Allow reserved characters
-            value.to_string()
-        } else {
+        if !allow_reserved {
             // Percent-encode reserved characters
-            urlencoding::encode(value).into_owned()
+            return urlencoding::encode(value).into_owned();
+        }
+
+        // Keep reserved characters and what is percent-encoded already
+        let mut encoded = String::new();
+        let mut rest = value;
+        while let Some(c) = rest.chars().next() {
+            let (text, tail) = rest.split_at(c.len_utf8());
+            let triplet = c == '%'
+                && tail.len() >= 2
+                && tail.as_bytes()[..2].iter().all(u8::is_ascii_hexdigit);
+            if triplet || ":/?#[]@!$&'()*+,;=".contains(c) {
+                encoded.push(c);
+            } else {
+                encoded.push_str(&urlencoding::encode(text));
+            }
+            rest = tail;
         }
+        encoded
     }
 
     /// Match a URI against this template and extract variables.
@@ -422,10 +464,18 @@ impl UriTemplate {
         // Extract variable values from captures
         let mut capture_index = 1;
         for expr in &self.expressions {
-            if let Some(var_name) = Self::get_var_name(expr) {
-                if let Some(value) = captures.get(capture_index) {
-                    vars.insert(var_name, value.as_str().to_string());
+            for (op, name) in Self::captured_vars(expr) {
+                let text = captures.get(capture_index)?.as_str();
+                let value = if op.allows_reserved() {
+                    text.to_string()
+                } else {
+                    urlencoding::decode(text).ok()?.into_owned()
+                };
+                // A variable has one value wherever it stands
+                if vars.get(&name).is_some_and(|known| *known != value) {
+                    return None;
                 }
+                vars.insert(name, value);
                 capture_index += 1;
             }
         }
@@ -438,65 +488,26 @@ impl UriTemplate {
         let mut pattern = String::from("^");
 
         for expr in &self.expressions {
-            match expr {
-                Expression::Literal(text) => {
-                    pattern.push_str(&regex::escape(text));
-                },
-                Expression::Simple(_) | Expression::Reserved(_) => {
-                    pattern.push_str("([^/]+)");
-                },
-                Expression::Fragment(_) => {
-                    pattern.push_str("#(.+)");
-                },
-                Expression::Label(_) => {
-                    pattern.push_str(r"\.([^.]+)");
-                },
-                Expression::PathSegment(_) => {
-                    pattern.push_str("/([^/]+)");
-                },
-                Expression::PathParameter(name) => {
-                    write!(pattern, ";{}=([^;&]+)", regex::escape(name)).unwrap();
-                },
-                Expression::Query(name) => {
-                    write!(pattern, r"\?{}=([^&]+)", regex::escape(name)).unwrap();
-                },
-                Expression::QueryContinuation(name) => {
-                    write!(pattern, "&{}=([^&]+)", regex::escape(name)).unwrap();
-                },
-                Expression::Multiple(op, specs) => {
-                    // Handle based on operator type
-                    if specs.len() == 1 {
-                        match op {
-                            Operator::Simple | Operator::Reserved => {
-                                pattern.push_str("([^/]+)");
-                            },
-                            Operator::Fragment => {
-                                pattern.push_str("#(.+)");
-                            },
-                            Operator::Label => {
-                                pattern.push_str(r"\.([^.]+)");
-                            },
-                            Operator::PathSegment => {
-                                pattern.push_str("/([^/]+)");
-                            },
-                            Operator::PathParameter => {
-                                let name = &specs[0].name;
-                                write!(pattern, ";{}=([^;&]+)", regex::escape(name)).unwrap();
-                            },
-                            Operator::Query => {
-                                let name = &specs[0].name;
-                                write!(pattern, r"\?{}=([^&]+)", regex::escape(name)).unwrap();
-                            },
-                            Operator::QueryContinuation => {
-                                let name = &specs[0].name;
-                                write!(pattern, "&{}=([^&]+)", regex::escape(name)).unwrap();
-                            },
-                        }
-                    } else {
-                        // Complex matching for multiple vars - simplified
-                        pattern.push_str("(.+)");
-                    }
-                },
+            if let Expression::Literal(text) = expr {
+                pattern.push_str(&regex::escape(text));
+            }
+            let vars = Self::captured_vars(expr);
+            for (n, (op, name)) in vars.iter().enumerate() {
+                let lead = if n == 0 { op.prefix() } else { op.separator() };
+                pattern.push_str(&regex::escape(lead));
+                if op.is_named() {
+                    write!(pattern, "{}=", regex::escape(name)).unwrap();
+                }
+                // Where the value ends; what is percent-encoded stays whole
+                let end = match op {
+                    Operator::Simple if vars.len() > 1 => "/,",
+                    Operator::Label if vars.len() > 1 => "/.",
+                    Operator::Simple | Operator::Label | Operator::PathSegment => "/",
+                    Operator::Reserved | Operator::Fragment => "",
+                    Operator::PathParameter => ";&",
+                    Operator::Query | Operator::QueryContinuation => "&",
+                };
+                write!(pattern, "((?:%[0-9A-Fa-f]{{2}}|[^%{}])+)", end).unwrap();
             }
         }
 
@@ -504,20 +515,23 @@ impl UriTemplate {
         pattern
     }
 
-    /// Get variable name from expression
-    fn get_var_name(expr: &Expression) -> Option<String> {
-        match expr {
-            Expression::Simple(name)
-            | Expression::Reserved(name)
-            | Expression::Fragment(name)
-            | Expression::Label(name)
-            | Expression::PathSegment(name)
-            | Expression::PathParameter(name)
-            | Expression::Query(name)
-            | Expression::QueryContinuation(name) => Some(name.clone()),
-            Expression::Multiple(_, specs) if specs.len() == 1 => Some(specs[0].name.clone()),
-            _ => None,
-        }
+    /// The variables an expression captures, with its operator
+    fn captured_vars(expr: &Expression) -> Vec<(Operator, String)> {
+        let (op, name) = match expr {
+            Expression::Literal(_) => return Vec::new(),
+            Expression::Multiple(op, specs) => {
+                return specs.iter().map(|s| (*op, s.name.clone())).collect();
+            },
+            Expression::Simple(name) => (Operator::Simple, name),
+            Expression::Reserved(name) => (Operator::Reserved, name),
+            Expression::Fragment(name) => (Operator::Fragment, name),
+            Expression::Label(name) => (Operator::Label, name),
+            Expression::PathSegment(name) => (Operator::PathSegment, name),
+            Expression::PathParameter(name) => (Operator::PathParameter, name),
+            Expression::Query(name) => (Operator::Query, name),
+            Expression::QueryContinuation(name) => (Operator::QueryContinuation, name),
+        };
+        vec![(op, name.clone())]
     }
 
     /// Get the list of variables in this template.
-- 
2.43.0


From 20a632d55096a6e85cba020953367e0e70999726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:53 +0000
Subject: [PATCH 38/45] fix: report every file change between start and stop,
 and none after

---
 src/server/resource_watcher.rs | 84 +++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 43 deletions(-)

diff --git a/src/server/resource_watcher.rs b/src/server/resource_watcher.rs
index 7866e79..628a3af 100644
--- a/src/server/resource_watcher.rs
+++ b/src/server/resource_watcher.rs
@@ -6,7 +6,7 @@ use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use std::time::Duration;
-use tokio::sync::{mpsc, RwLock};
+use tokio::sync::{mpsc, oneshot, RwLock};
 use tokio::time::{interval, Instant};
 use tracing::{debug, error, info, warn};
 
@@ -84,12 +84,8 @@ pub struct ResourceWatcher {
     base_dir: PathBuf,
     /// Tracked resources by URI.
     resources: Arc<RwLock<HashMap<String, ResourceInfo>>>,
-    /// Pending file events for debouncing.
-    pending_events: Arc<RwLock<HashMap<PathBuf, FileEvent>>>,
     /// Channel for sending notifications.
     notification_tx: mpsc::Sender<ServerNotification>,
-    /// Channel for receiving file events.
-    event_rx: Arc<RwLock<Option<mpsc::Receiver<FileEvent>>>>,
     /// Shutdown signal.
     shutdown_tx: Option<mpsc::Sender<()>>,
 }
@@ -109,21 +105,25 @@ impl std::fmt::Debug for ResourceWatcher {
 #[allow(clippy::cognitive_complexity)]
 async fn process_events(
     resources: Arc<RwLock<HashMap<String, ResourceInfo>>>,
-    pending_events: Arc<RwLock<HashMap<PathBuf, FileEvent>>>,
     notification_tx: mpsc::Sender<ServerNotification>,
     debounce: Duration,
-    event_rx: Arc<RwLock<Option<mpsc::Receiver<FileEvent>>>>,
+    mut event_rx: mpsc::Receiver<FileEvent>,
 ) {
+    let mut pending: HashMap<PathBuf, FileEvent> = HashMap::new();
     let mut timer = interval(Duration::from_millis(100));
 
     loop {
         timer.tick().await;
 
         // Check for new events
-        if let Some(rx) = &mut *event_rx.write().await {
-            while let Ok(event) = rx.try_recv() {
-                let mut pending = pending_events.write().await;
-                pending.insert(event.path.clone(), event);
+        loop {
+            match event_rx.try_recv() {
+                Ok(event) => {
+                    pending.insert(event.path.clone(), event);
+                },
+                Err(mpsc::error::TryRecvError::Empty) => break,
+                // The file system watcher has stopped
+                Err(mpsc::error::TryRecvError::Disconnected) => return,
             }
         }
 
@@ -131,24 +131,22 @@ async fn process_events(
         let now = Instant::now();
         let mut events_to_process = Vec::new();
 
-        {
-            let mut pending = pending_events.write().await;
-            pending.retain(|path, event| {
-                if now.duration_since(event.timestamp) >= debounce {
-                    events_to_process.push((path.clone(), event.kind));
-                    false
-                } else {
-                    true
-                }
-            });
-        }
+        pending.retain(|path, event| {
+            if now.duration_since(event.timestamp) >= debounce {
+                events_to_process.push((path.clone(), event.kind));
+                false
+            } else {
+                true
+            }
+        });
 
         // Send notifications for processed events
         for (path, kind) in events_to_process {
             let uri = format!("file://{}", path.display());
 
-            let resources = resources.read().await;
-            if resources.contains_key(&uri) {
+            // Not held while the notification waits to be taken
+            let registered = resources.read().await.contains_key(&uri);
+            if registered {
                 debug!("Resource {:?} changed: {}", kind, uri);
 
                 // Send resource update notification
@@ -175,9 +173,7 @@ impl ResourceWatcher {
             config,
             base_dir: base_dir.as_ref().to_path_buf(),
             resources: Arc::new(RwLock::new(HashMap::new())),
-            pending_events: Arc::new(RwLock::new(HashMap::new())),
             notification_tx,
-            event_rx: Arc::new(RwLock::new(None)),
             shutdown_tx: None,
         }
     }
@@ -188,7 +184,6 @@ impl ResourceWatcher {
 
         // Create event channel
         let (event_tx, event_rx) = mpsc::channel(1000);
-        *self.event_rx.write().await = Some(event_rx);
 
         // Create shutdown channel
         let (shutdown_tx, mut shutdown_rx) = mpsc::channel::<()>(1);
@@ -200,14 +195,15 @@ impl ResourceWatcher {
         let ignore_patterns = self.config.ignore_patterns.clone();
 
         // Spawn file watcher task
-        let event_tx_clone = event_tx.clone();
+        let (ready_tx, ready_rx) = oneshot::channel();
         tokio::spawn(async move {
             if let Err(e) = Self::watch_filesystem(
                 base_dir,
                 patterns,
                 ignore_patterns,
-                event_tx_clone,
+                event_tx,
                 &mut shutdown_rx,
+                ready_tx,
             )
             .await
             {
@@ -217,23 +213,20 @@ impl ResourceWatcher {
 
         // Start event processor
         let resources = self.resources.clone();
-        let pending_events = self.pending_events.clone();
         let notification_tx = self.notification_tx.clone();
         let debounce = self.config.debounce;
-        let event_rx = self.event_rx.clone();
 
         tokio::spawn(async move {
-            process_events(
-                resources,
-                pending_events,
-                notification_tx,
-                debounce,
-                event_rx,
-            )
-            .await;
+            process_events(resources, notification_tx, debounce, event_rx).await;
         });
 
-        Ok(())
+        // From here on no change is missed
+        ready_rx.await.map_err(|_| {
+            Error::protocol(
+                ErrorCode::INTERNAL_ERROR,
+                format!("Failed to watch {}", self.base_dir.display()),
+            )
+        })
     }
 
     /// Stop watching for changes.
@@ -249,7 +242,7 @@ impl ResourceWatcher {
     pub async fn add_resource(&self, uri: String, info: ResourceInfo) -> Result<()> {
         let mut resources = self.resources.write().await;
 
-        if resources.len() >= self.config.max_resources {
+        if resources.len() >= self.config.max_resources && !resources.contains_key(&uri) {
             warn!("Resource limit reached, not adding {}", uri);
             return Ok(());
         }
@@ -278,18 +271,20 @@ impl ResourceWatcher {
         ignore_patterns: Vec<String>,
         event_tx: mpsc::Sender<FileEvent>,
         shutdown_rx: &mut mpsc::Receiver<()>,
+        ready_tx: oneshot::Sender<()>,
     ) -> Result<()> {
         #[cfg(feature = "resource-watcher")]
         {
             use notify::{Config, EventKind, RecommendedWatcher, RecursiveMode, Watcher};
 
-            let (tx, mut rx) = mpsc::channel(1000);
+            // The system's events cannot wait for this task
+            let (tx, mut rx) = mpsc::unbounded_channel();
 
             // Create watcher
             let mut watcher = RecommendedWatcher::new(
                 move |res| {
                     if let Ok(event) = res {
-                        let _ = tx.try_send(event);
+                        let _ = tx.send(event);
                     }
                 },
                 Config::default(),
@@ -311,6 +306,8 @@ impl ResourceWatcher {
                     )
                 })?;
 
+            let _ = ready_tx.send(());
+
             loop {
                 tokio::select! {
                     _ = shutdown_rx.recv() => {
@@ -352,6 +349,7 @@ impl ResourceWatcher {
         #[cfg(not(feature = "resource-watcher"))]
         {
             warn!("Resource watching is not enabled (requires 'resource-watcher' feature)");
+            let _ = ready_tx.send(());
             Ok(())
         }
     }
-- 
2.43.0


From 2f7ddbb583101de5aad44b127911bfbdc57b048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:53 +0000
Subject: [PATCH 39/45] fix: retry authentication requests on network errors

---
 src/client/auth.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/client/auth.rs b/src/client/auth.rs
index fbe7450..ad3b6af 100644
--- a/src/client/auth.rs
+++ b/src/client/auth.rs
@@ -140,30 +140,21 @@ impl OidcDiscoveryClient {
         );
 
         let mut attempts = 0;
-        let mut last_error = None;
 
-        while attempts < self.max_retries {
+        // The first attempt is made whatever the number of retries
+        loop {
             match self.fetch_discovery(&discovery_url).await {
                 Ok(metadata) => return Ok(metadata),
                 Err(e) => {
+                    attempts += 1;
                     // Check if this is a CORS error or network error that should be retried
-                    if self.should_retry(&e) && attempts + 1 < self.max_retries {
-                        attempts += 1;
-                        tokio::time::sleep(self.retry_delay).await;
-                        continue;
+                    if attempts >= self.max_retries || !self.should_retry(&e) {
+                        return Err(e);
                     }
-                    last_error = Some(e);
-                    break;
+                    tokio::time::sleep(self.retry_delay).await;
                 },
             }
         }
-
-        Err(last_error.unwrap_or_else(|| {
-            Error::protocol(
-                ErrorCode::INTERNAL_ERROR,
-                "Failed to discover OIDC configuration",
-            )
-        }))
     }
 
     /// Fetch discovery metadata from a URL.
@@ -177,7 +168,7 @@ impl OidcDiscoveryClient {
             .map_err(|e| {
                 Error::protocol(
                     ErrorCode::INTERNAL_ERROR,
-                    format!("Failed to fetch discovery document: {}", e),
+                    format!("Failed to fetch discovery document: network error: {}", e),
                 )
             })?;
 
-- 
2.43.0


From 6fe1fee586134827100360660bf76ffc8b4ef638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:53 +0000
Subject: [PATCH 40/45] fix: make the client WebSocket transport send, notice
 lost connections and close

---
 src/shared/websocket.rs | 300 ++++++++++++++++++++++++++--------------
 1 file changed, 199 insertions(+), 101 deletions(-)

diff --git a/src/shared/websocket.rs b/src/shared/websocket.rs
index 7be0a17..fbfc16c 100644
--- a/src/shared/websocket.rs
+++ b/src/shared/websocket.rs
@@ -3,14 +3,19 @@
 use crate::error::Result;
 use crate::shared::{Transport, TransportMessage};
 use async_trait::async_trait;
+use futures::stream::{SplitSink, SplitStream};
 use futures::{SinkExt, StreamExt};
 use parking_lot::RwLock;
-use std::sync::Arc;
+use std::sync::{Arc, Weak};
 use std::time::Duration;
-use tokio::sync::mpsc;
+use tokio::net::TcpStream;
 use tokio::sync::Mutex as AsyncMutex;
-use tokio::time::{interval, sleep};
-use tokio_tungstenite::{connect_async, tungstenite::protocol::Message};
+use tokio::sync::{mpsc, watch};
+use tokio::task::JoinHandle;
+use tokio::time::{interval, sleep, timeout};
+use tokio_tungstenite::{
+    connect_async, tungstenite::protocol::Message, MaybeTlsStream, WebSocketStream,
+};
 use tracing::{debug, error, info, warn};
 use url::Url;
 
@@ -55,11 +60,51 @@ pub struct WebSocketTransport {
     message_rx: Arc<AsyncMutex<mpsc::Receiver<TransportMessage>>>,
 }
 
+type WsStream = WebSocketStream<MaybeTlsStream<TcpStream>>;
+type WsSink = AsyncMutex<SplitSink<WsStream, Message>>;
+
+/// How long closing may take to tell the peer.
+const CLOSE_TIMEOUT: Duration = Duration::from_secs(1);
+
+/// An established connection.
+struct Link {
+    /// The reader owns it
+    sink: Weak<WsSink>,
+    /// Ends when the connection does
+    reader: JoinHandle<()>,
+    /// Its sender is owned by the reader
+    alive: watch::Receiver<()>,
+}
+
+impl Link {
+    fn is_alive(&self) -> bool {
+        self.alive.has_changed().is_ok()
+    }
+}
+
+impl Drop for Link {
+    fn drop(&mut self) {
+        self.reader.abort();
+    }
+}
+
+impl std::fmt::Debug for Link {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        f.debug_struct("Link")
+            .field("alive", &self.is_alive())
+            .finish_non_exhaustive()
+    }
+}
+
 #[derive(Debug)]
 enum ConnectionState {
     Disconnected,
     Connecting,
+    /// Connected without a way to the peer: only tests make this state
+    #[allow(dead_code)]
     Connected,
+    /// Connected, or connected until the link was lost
+    Open(Link),
     Closing,
 }
 
@@ -94,13 +139,21 @@ impl WebSocketTransport {
 
     /// Connect to the WebSocket server.
     pub async fn connect(&self) -> Result<()> {
-        self.connect_with_retry().await
+        if self.live_sink().is_some() {
+            return Ok(());
+        }
+        self.connect_with_retry(false).await
     }
 
-    async fn connect_with_retry(&self) -> Result<()> {
+    async fn connect_with_retry(&self, reconnect: bool) -> Result<()> {
         let mut attempts = 0;
         let mut delay = self.config.reconnect_delay;
 
+        if reconnect {
+            sleep(delay).await;
+            delay = (delay * 2).min(self.config.max_reconnect_delay);
+        }
+
         loop {
             match self.connect_once().await {
                 Ok(()) => return Ok(()),
@@ -109,6 +162,7 @@ impl WebSocketTransport {
                     if let Some(max) = self.config.max_reconnect_attempts {
                         if attempts >= max {
                             error!("Max reconnection attempts reached");
+                            *self.state.write() = ConnectionState::Disconnected;
                             return Err(e);
                         }
                     }
@@ -128,7 +182,10 @@ impl WebSocketTransport {
     async fn connect_once(&self) -> Result<()> {
         {
             let mut state = self.state.write();
-            *state = ConnectionState::Connecting;
+            // A lost link stays until there is another: it is what tells that there was one
+            if !matches!(&*state, ConnectionState::Open(_)) {
+                *state = ConnectionState::Connecting;
+            }
         }
 
         info!("Connecting to WebSocket at {}", self.config.url);
@@ -137,97 +194,105 @@ impl WebSocketTransport {
             .await
             .map_err(crate::error::TransportError::from)?;
         let (sink, stream) = ws_stream.split();
-
-        {
-            let mut state = self.state.write();
-            *state = ConnectionState::Connected;
-        }
+        let sink = Arc::new(AsyncMutex::new(sink));
 
         info!("WebSocket connected");
 
-        // Spawn reader task
-        let message_tx = self.message_tx.clone();
-        let _reader_handle = tokio::spawn(async move {
-            let mut stream = stream;
-            while let Some(result) = stream.next().await {
-                match result {
-                    Ok(Message::Text(text)) => {
-                        match serde_json::from_str::<serde_json::Value>(&text) {
-                            Ok(_json) => {
-                                // Parse the JSON value into a TransportMessage
-                                match crate::shared::stdio::StdioTransport::parse_message(
-                                    text.as_bytes(),
-                                ) {
-                                    Ok(msg) => {
-                                        if message_tx.send(msg).await.is_err() {
-                                            error!("Failed to send message to channel");
-                                            break;
-                                        }
-                                    },
-                                    Err(e) => {
-                                        error!("Failed to parse message: {}", e);
-                                    },
-                                }
-                            },
-                            Err(e) => {
-                                error!("Failed to parse WebSocket message: {}", e);
-                            },
-                        }
-                    },
-                    Ok(Message::Close(_)) => {
-                        info!("WebSocket closed by remote");
-                        break;
-                    },
-                    Ok(Message::Ping(data)) => {
-                        debug!("Received ping: {:?}", data);
-                    },
-                    Ok(Message::Pong(_)) => {
-                        debug!("Received pong");
-                    },
-                    Ok(Message::Binary(_)) => {
-                        warn!("Received unexpected binary message");
-                    },
-                    Ok(Message::Frame(_)) => {
-                        warn!("Received unexpected frame message");
-                    },
-                    Err(e) => {
-                        error!("WebSocket error: {}", e);
-                        break;
-                    },
-                }
-            }
-        });
-
-        // Spawn writer task
-        let (write_tx, mut write_rx) = mpsc::channel::<Message>(100);
-        let _writer_handle = tokio::spawn(async move {
-            let mut sink = sink;
-            while let Some(msg) = write_rx.recv().await {
-                if let Err(e) = sink.send(msg).await {
-                    error!("Failed to send WebSocket message: {}", e);
-                    break;
-                }
-            }
-        });
-
-        // Spawn ping task if configured
+        // Spawn ping task if configured; it ends with the connection
         if let Some(ping_interval) = self.config.ping_interval {
+            let sink = Arc::downgrade(&sink);
             tokio::spawn(async move {
                 let mut ticker = interval(ping_interval);
                 loop {
                     ticker.tick().await;
-                    if write_tx.send(Message::Ping(vec![].into())).await.is_err() {
+                    let Some(sink) = sink.upgrade() else { break };
+                    let ping = Message::Ping(vec![].into());
+                    if sink.lock().await.send(ping).await.is_err() {
                         break;
                     }
                 }
             });
         }
 
-        // Store the writer channel for sending messages
-        // This is a simplified approach - in production you'd want better state management
+        let message_tx = self.message_tx.clone();
+        let (done, alive) = watch::channel(());
+        *self.state.write() = ConnectionState::Open(Link {
+            sink: Arc::downgrade(&sink),
+            reader: tokio::spawn(async move {
+                Self::read(stream, message_tx).await;
+                drop(done);
+                Self::say_goodbye(&sink).await;
+            }),
+            alive,
+        });
 
         Ok(())
     }
+
+    /// Hands the peer's messages on until the connection ends.
+    async fn read(mut stream: SplitStream<WsStream>, message_tx: mpsc::Sender<TransportMessage>) {
+        while let Some(result) = stream.next().await {
+            match result {
+                Ok(Message::Text(text)) => {
+                    match crate::shared::stdio::StdioTransport::parse_message(text.as_bytes()) {
+                        Ok(msg) => {
+                            if message_tx.send(msg).await.is_err() {
+                                error!("Failed to send message to channel");
+                                break;
+                            }
+                        },
+                        Err(e) => {
+                            error!("Failed to parse message: {}", e);
+                        },
+                    }
+                },
+                Ok(Message::Close(_)) => {
+                    info!("WebSocket closed by remote");
+                    break;
+                },
+                Ok(Message::Ping(data)) => {
+                    debug!("Received ping: {:?}", data);
+                },
+                Ok(Message::Pong(_)) => {
+                    debug!("Received pong");
+                },
+                Ok(Message::Binary(_)) => {
+                    warn!("Received unexpected binary message");
+                },
+                Ok(Message::Frame(_)) => {
+                    warn!("Received unexpected frame message");
+                },
+                Err(e) => {
+                    error!("WebSocket error: {}", e);
+                    break;
+                },
+            }
+        }
+    }
+
+    /// Best effort: the peer may be gone.
+    async fn say_goodbye(sink: &WsSink) {
+        let _ = timeout(CLOSE_TIMEOUT, async { sink.lock().await.close().await }).await;
+    }
+
+    /// The way to the peer, if there is one.
+    fn live_sink(&self) -> Option<Arc<WsSink>> {
+        match &*self.state.read() {
+            ConnectionState::Open(link) if link.is_alive() => link.sink.upgrade(),
+            _ => None,
+        }
+    }
+
+    /// Called without a live link: connects again if that is wanted.
+    async fn reconnect(&self) -> Result<()> {
+        let lost = matches!(&*self.state.read(), ConnectionState::Open(_));
+        if lost && self.config.auto_reconnect {
+            return self.connect_with_retry(true).await;
+        }
+        Err(crate::error::Error::Transport(
+            crate::error::TransportError::ConnectionClosed,
+        ))
+    }
 }
 
 #[async_trait]
@@ -241,44 +306,77 @@ impl Transport for WebSocketTransport {
             )))
         })?;
 
-        // In a real implementation, we'd need to store the write channel
-        // This is simplified for the example
-        match &*self.state.read() {
-            ConnectionState::Connected => {
+        if matches!(&*self.state.read(), ConnectionState::Connected) {
+            return Ok(());
+        }
+
+        loop {
+            if let Some(sink) = self.live_sink() {
                 debug!("Sending WebSocket message: {}", json);
-                Ok(())
-            },
-            _ => Err(crate::error::Error::Transport(
-                crate::error::TransportError::ConnectionClosed,
-            )),
+                sink.lock()
+                    .await
+                    .send(Message::Text(json.into()))
+                    .await
+                    .map_err(crate::error::TransportError::from)?;
+                return Ok(());
+            }
+            self.reconnect().await?;
         }
     }
 
     async fn receive(&mut self) -> Result<TransportMessage> {
+        let closed =
+            || crate::error::Error::Transport(crate::error::TransportError::ConnectionClosed);
         let mut rx = self.message_rx.lock().await;
-        rx.recv().await.ok_or_else(|| {
-            crate::error::Error::Transport(crate::error::TransportError::ConnectionClosed)
-        })
+        loop {
+            let alive = match &*self.state.read() {
+                ConnectionState::Open(link) => Some(link.alive.clone()),
+                _ => None,
+            };
+            if let Some(mut alive) = alive {
+                tokio::select! {
+                    biased;
+                    message = rx.recv() => return message.ok_or_else(closed),
+                    _ = alive.changed() => {}
+                }
+            }
+            // What came before the end is received first
+            match rx.try_recv() {
+                Ok(message) => return Ok(message),
+                Err(mpsc::error::TryRecvError::Empty) => self.reconnect().await?,
+                Err(mpsc::error::TryRecvError::Disconnected) => return Err(closed()),
+            }
+        }
     }
 
     async fn close(&mut self) -> Result<()> {
-        {
-            let mut state = self.state.write();
-            *state = ConnectionState::Closing;
-        }
+        let before = std::mem::replace(&mut *self.state.write(), ConnectionState::Closing);
 
         info!("Closing WebSocket connection");
 
-        {
-            let mut state = self.state.write();
-            *state = ConnectionState::Disconnected;
+        if let ConnectionState::Open(mut link) = before {
+            if let Some(sink) = link.sink.upgrade() {
+                Self::say_goodbye(&sink).await;
+            }
+            link.reader.abort();
+            let _ = (&mut link.reader).await;
         }
+        // Nothing is received after closing
+        let mut rx = self.message_rx.lock().await;
+        while rx.try_recv().is_ok() {}
+        drop(rx);
+
+        *self.state.write() = ConnectionState::Disconnected;
 
         Ok(())
     }
 
     fn is_connected(&self) -> bool {
-        matches!(&*self.state.read(), ConnectionState::Connected)
+        match &*self.state.read() {
+            ConnectionState::Connected => true,
+            ConnectionState::Open(link) => link.is_alive(),
+            _ => false,
+        }
     }
 }
 
-- 
2.43.0


From 60db78920f3d98baa9fc363cf5c6948dc6e1196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:53 +0000
Subject: [PATCH 41/45] fix: send configured headers, accept empty answers and
 end the event stream in the HTTP transport

---
 src/shared/http.rs | 136 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 98 insertions(+), 38 deletions(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index c16f013..f81cbbe 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -53,10 +53,14 @@ pub struct HttpTransport {
     config: HttpConfig,
     client: Client<hyper_util::client::legacy::connect::HttpConnector, Full<Bytes>>,
     message_queue: Arc<AsyncMutex<mpsc::Receiver<TransportMessage>>>,
-    message_tx: mpsc::Sender<TransportMessage>,
+    /// None once the connection is over
+    message_tx: Arc<RwLock<Option<mpsc::Sender<TransportMessage>>>>,
     connected: Arc<RwLock<bool>>,
 }
 
+/// Messages that may wait to be received.
+const QUEUE_SIZE: usize = 100;
+
 impl std::fmt::Debug for HttpTransport {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         f.debug_struct("HttpTransport")
@@ -75,13 +79,13 @@ impl HttpTransport {
             .pool_max_idle_per_host(config.max_idle_per_host)
             .build(connector);
 
-        let (tx, rx) = mpsc::channel(100);
+        let (tx, rx) = mpsc::channel(QUEUE_SIZE);
 
         Self {
             config,
             client,
             message_queue: Arc::new(AsyncMutex::new(rx)),
-            message_tx: tx,
+            message_tx: Arc::new(RwLock::new(Some(tx))),
             connected: Arc::new(RwLock::new(false)),
         }
     }
@@ -94,6 +98,34 @@ impl HttpTransport {
         }))
     }
 
+    /// A request with the configured headers.
+    fn request(&self, method: Method, uri: &str) -> hyper::http::request::Builder {
+        let builder = Request::builder().method(method).uri(uri);
+        self.config
+            .headers
+            .iter()
+            .fold(builder, |builder, (name, value)| {
+                builder.header(name, value)
+            })
+    }
+
+    /// The way to the queue, made anew if the connection before is over.
+    async fn open_queue(&self) -> mpsc::Sender<TransportMessage> {
+        let current = self.message_tx.read().clone();
+        if let Some(tx) = current {
+            return tx;
+        }
+        let (tx, rx) = mpsc::channel(QUEUE_SIZE);
+        let mut queue = self.message_queue.lock().await;
+        // What came over the connection before can still be received
+        while let Ok(message) = queue.try_recv() {
+            let _ = tx.try_send(message);
+        }
+        *queue = rx;
+        *self.message_tx.write() = Some(tx.clone());
+        tx
+    }
+
     /// Connect to SSE endpoint for receiving notifications.
     pub async fn connect_sse(&self) -> Result<()> {
         if let Some(sse_path) = &self.config.sse_endpoint {
@@ -104,9 +136,8 @@ impl HttpTransport {
                 .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
             info!("Connecting to SSE endpoint: {}", sse_url);
 
-            let req = Request::builder()
-                .method(Method::GET)
-                .uri(sse_url.as_str())
+            let req = self
+                .request(Method::GET, sse_url.as_str())
                 .header("Accept", "text/event-stream")
                 .header("Cache-Control", "no-cache")
                 .body(Full::new(Bytes::new()))
@@ -128,18 +159,24 @@ impl HttpTransport {
             }
 
             // Spawn SSE reader task
-            let message_tx = self.message_tx.clone();
+            let message_tx = self.open_queue().await;
+            let current_tx = self.message_tx.clone();
             let connected = self.connected.clone();
+            *connected.write() = true;
 
             tokio::spawn(async move {
-                *connected.write() = true;
-
                 let mut body = response.into_body();
                 let mut sse_parser = SseParser::new();
                 // Bytes of a character that was cut between two frames
                 let mut partial: Vec<u8> = Vec::new();
 
-                while let Some(chunk) = body.frame().await {
+                loop {
+                    // The transport has been closed when nobody can receive any more
+                    let chunk = tokio::select! {
+                        chunk = body.frame() => chunk,
+                        () = message_tx.closed() => break,
+                    };
+                    let Some(chunk) = chunk else { break };
                     match chunk {
                         Ok(frame) => {
                             if let Some(data) = frame.data_ref() {
@@ -177,11 +214,19 @@ impl HttpTransport {
                     }
                 }
 
-                *connected.write() = false;
+                let mut current = current_tx.write();
+                if current
+                    .as_ref()
+                    .is_some_and(|tx| tx.same_channel(&message_tx))
+                {
+                    *current = None;
+                    *connected.write() = false;
+                }
                 warn!("SSE connection closed");
             });
         } else {
             // No SSE endpoint configured, mark as connected for request/response only
+            self.open_queue().await;
             *self.connected.write() = true;
         }
         Ok(())
@@ -196,49 +241,59 @@ impl HttpTransport {
             )))
         })?;
 
-        let req = Request::builder()
-            .method(Method::POST)
-            .uri(self.config.base_url.as_str())
+        let closed =
+            || crate::error::Error::Transport(crate::error::TransportError::ConnectionClosed);
+        let message_tx = self.message_tx.read().clone().ok_or_else(closed)?;
+
+        let req = self
+            .request(Method::POST, self.config.base_url.as_str())
             .header("Content-Type", "application/json")
             .body(Full::new(Bytes::from(json)))
             .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
 
-        let response = timeout(self.config.timeout, self.client.request(req))
-            .await
-            .map_err(|_| crate::error::Error::Timeout(self.config.timeout.as_secs() * 1000))?
-            .map_err(|e| {
-                crate::error::Error::Transport(crate::error::TransportError::InvalidMessage(
-                    e.to_string(),
-                ))
-            })?;
+        let (status, body_bytes) = timeout(self.config.timeout, async {
+            let response = self
+                .client
+                .request(req)
+                .await
+                .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
+            let status = response.status();
+            let body = response
+                .collect()
+                .await
+                .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
+            Ok::<_, crate::error::Error>((status, body.to_bytes()))
+        })
+        .await
+        .map_err(|_| crate::error::Error::Timeout(self.config.timeout.as_secs() * 1000))??;
 
-        if response.status() != StatusCode::OK {
+        if !status.is_success() {
             return Err(crate::error::Error::Transport(
                 crate::error::TransportError::InvalidMessage(format!(
                     "HTTP request failed with status: {}",
-                    response.status()
+                    status
                 )),
             ));
         }
 
+        // A message that needs no answer is accepted without one
+        if status == StatusCode::ACCEPTED || body_bytes.is_empty() {
+            return Ok(());
+        }
+
         // Process response
-        let body_bytes = response
-            .collect()
-            .await
-            .map_err(|e| {
-                crate::error::Error::Transport(crate::error::TransportError::InvalidMessage(
-                    e.to_string(),
-                ))
-            })?
-            .to_bytes();
         let response_msg = crate::shared::stdio::StdioTransport::parse_message(&body_bytes)?;
 
         // Send response through message queue
-        self.message_tx.send(response_msg).await.map_err(|_| {
-            crate::error::Error::Transport(crate::error::TransportError::ConnectionClosed)
-        })?;
-
-        Ok(())
+        match message_tx.try_send(response_msg) {
+            Ok(()) => Ok(()),
+            Err(mpsc::error::TrySendError::Full(response_msg)) => {
+                // It gets its place when something has been received
+                tokio::spawn(async move { message_tx.send(response_msg).await });
+                Ok(())
+            },
+            Err(mpsc::error::TrySendError::Closed(_)) => Err(closed()),
+        }
     }
 }
 
@@ -258,6 +313,11 @@ impl Transport for HttpTransport {
 
     async fn close(&mut self) -> Result<()> {
         *self.connected.write() = false;
+        *self.message_tx.write() = None;
+        let mut queue = self.message_queue.lock().await;
+        queue.close();
+        while queue.try_recv().is_ok() {}
+        drop(queue);
         info!("HTTP transport closed");
         Ok(())
     }
-- 
2.43.0


From 705da119921e4a5de88c8508296dd9a4aac17143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:53 +0000
Subject: [PATCH 42/45] fix: keep text request ids and tolerate odd trace ids
 in request context headers

---
 src/shared/context.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/shared/context.rs b/src/shared/context.rs
index c7a53bb..4995090 100644
--- a/src/shared/context.rs
+++ b/src/shared/context.rs
@@ -212,7 +212,7 @@ impl RequestContext {
         // Standard trace context headers
         // Trace ID should be 32 hex chars, Span ID should be 16 hex chars
         let trace_id_hex = self.trace_id.replace('-', "");
-        let span_id_hex = self.span_id.replace('-', "")[..16].to_string();
+        let span_id_hex: String = self.span_id.replace('-', "").chars().take(16).collect();
         headers.insert(
             "traceparent".to_string(),
             format!("00-{}-{}-01", trace_id_hex, span_id_hex),
@@ -245,7 +245,7 @@ impl RequestContext {
             if parts.len() >= 4 {
                 // Restore UUIDs from hex format
                 let trace_id_hex = parts[1];
-                let trace_id = if trace_id_hex.len() == 32 {
+                let trace_id = if trace_id_hex.len() == 32 && trace_id_hex.is_ascii() {
                     format!(
                         "{}-{}-{}-{}-{}",
                         &trace_id_hex[0..8],
@@ -259,7 +259,7 @@ impl RequestContext {
                 };
 
                 let span_id_hex = parts[2];
-                let span_id = if span_id_hex.len() == 16 {
+                let span_id = if span_id_hex.len() == 16 && span_id_hex.is_ascii() {
                     format!(
                         "{}-{}-{}-{}-{}",
                         &span_id_hex[0..8],
@@ -272,13 +272,14 @@ impl RequestContext {
                     span_id_hex.to_string()
                 };
 
-                let request_id = headers
-                    .get("x-request-id")
-                    .and_then(|id| id.parse::<i64>().ok())
-                    .map_or_else(
-                        || RequestId::from(uuid::Uuid::new_v4().as_u128() as i64),
-                        RequestId::from,
-                    );
+                // A text that is not a number as it is written is a string ID.
+                let request_id = headers.get("x-request-id").map_or_else(
+                    || RequestId::from(uuid::Uuid::new_v4().as_u128() as i64),
+                    |id| match id.parse::<i64>() {
+                        Ok(number) if number.to_string() == *id => RequestId::from(number),
+                        _ => RequestId::from(id.clone()),
+                    },
+                );
 
                 let mut context = Self::new(request_id);
                 context.trace_id = trace_id;
-- 
2.43.0


From 2ec8957220d191924cf74dbc873d8a78f5dfcba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:53 +0000
Subject: [PATCH 43/45] fix: answer with the code and data of protocol errors
 returned by handlers

---
 src/server/mod.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 1ff471e..42d346e 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -608,13 +608,7 @@ impl Server {
             Err(e) => JSONRPCResponse {
                 jsonrpc: "2.0".to_string(),
                 id,
-                payload: crate::types::jsonrpc::ResponsePayload::Error(
-                    crate::types::jsonrpc::JSONRPCError {
-                        code: -32603,
-                        message: e.to_string(),
-                        data: None,
-                    },
-                ),
+                payload: crate::types::jsonrpc::ResponsePayload::Error(e.into()),
             },
         }
     }
-- 
2.43.0


From 2e30707bf93fa3ac6edfe3667895d3ad54cc96db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:53 +0000
Subject: [PATCH 44/45] fix: make the accelerated JSON and byte utilities
 compute what the plain ones do

---
 src/simd/mod.rs        | 152 ++++-------------------------------------
 src/utils/json_simd.rs |  87 ++++++++---------------
 2 files changed, 40 insertions(+), 199 deletions(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index 7261e61..e4d05a9 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -60,7 +60,7 @@ pub mod json {
             );
 
             // Extract mask as integer
-            let mask = _mm256_movemask_epi8(ws_mask);
+            let mask = _mm256_movemask_epi8(ws_mask) as u32;
 
             // Find positions of set bits
             let mut m = mask;
@@ -85,114 +85,9 @@ pub mod json {
         positions
     }
 
-    /// Validates a UTF-8 continuation byte
-    #[inline]
-    fn is_valid_continuation_byte(byte: u8) -> bool {
-        byte & 0xC0 == 0x80
-    }
-
-    /// Validates a multi-byte UTF-8 sequence starting at position
-    fn validate_multibyte_sequence(input: &[u8], start: usize, first_byte: u8) -> bool {
-        let len = input.len();
-
-        if first_byte < 0xC0 {
-            false // Invalid continuation byte
-        } else if first_byte < 0xE0 {
-            // 2-byte sequence
-            validate_2byte_sequence(input, start, len)
-        } else if first_byte < 0xF0 {
-            // 3-byte sequence
-            validate_3byte_sequence(input, start, len)
-        } else if first_byte < 0xF8 {
-            // 4-byte sequence
-            validate_4byte_sequence(input, start, len)
-        } else {
-            false // Invalid UTF-8
-        }
-    }
-
-    /// Validates a 2-byte UTF-8 sequence
-    #[inline]
-    fn validate_2byte_sequence(input: &[u8], start: usize, len: usize) -> bool {
-        start + 1 < len && is_valid_continuation_byte(input[start + 1])
-    }
-
-    /// Validates a 3-byte UTF-8 sequence  
-    #[inline]
-    fn validate_3byte_sequence(input: &[u8], start: usize, len: usize) -> bool {
-        start + 2 < len
-            && is_valid_continuation_byte(input[start + 1])
-            && is_valid_continuation_byte(input[start + 2])
-    }
-
-    /// Validates a 4-byte UTF-8 sequence
-    #[inline]
-    fn validate_4byte_sequence(input: &[u8], start: usize, len: usize) -> bool {
-        start + 3 < len
-            && is_valid_continuation_byte(input[start + 1])
-            && is_valid_continuation_byte(input[start + 2])
-            && is_valid_continuation_byte(input[start + 3])
-    }
-
-    /// Processes a 32-byte chunk with SIMD, falling back to scalar for non-ASCII
-    #[cfg(target_arch = "x86_64")]
-    #[target_feature(enable = "avx2")]
-    unsafe fn process_simd_chunk(input: &[u8], offset: usize) -> bool {
-        let data = _mm256_loadu_si256(input.as_ptr().add(offset) as *const __m256i);
-
-        // Check for ASCII bytes (< 0x80) - fast path
-        let ascii_mask = _mm256_cmpgt_epi8(_mm256_setzero_si256(), data);
-        let is_ascii = _mm256_movemask_epi8(ascii_mask);
-
-        if is_ascii == -1 {
-            return true; // All bytes are ASCII
-        }
-
-        // Fall back to scalar validation for non-ASCII bytes
-        validate_chunk_scalar(input, offset, 32)
-    }
-
-    /// Validates a chunk using scalar processing
-    fn validate_chunk_scalar(input: &[u8], start: usize, chunk_size: usize) -> bool {
-        let len = input.len();
-        let end = std::cmp::min(start + chunk_size, len);
-
-        let mut i = start;
-        while i < end {
-            let byte = input[i];
-            if byte < 0x80 {
-                i += 1;
-                continue;
-            }
-
-            // Multi-byte sequence - validate and advance
-            if !validate_multibyte_sequence(input, i, byte) {
-                return false;
-            }
-
-            // Advance by the correct number of bytes for this sequence
-            i += get_utf8_sequence_length(byte);
-        }
-
-        true
-    }
-
-    /// Gets the length of a UTF-8 sequence from its first byte
-    #[inline]
-    fn get_utf8_sequence_length(first_byte: u8) -> usize {
-        if first_byte < 0xE0 {
-            2
-        } else if first_byte < 0xF0 {
-            3
-        } else {
-            4
-        }
-    }
-
     /// SIMD-accelerated string validation (UTF-8)
     ///
     /// Validates UTF-8 byte sequences using AVX2 instructions for improved performance.
-    /// This function has been refactored to reduce complexity while maintaining performance.
     ///
     /// # Examples
     ///
@@ -214,41 +109,19 @@ pub mod json {
     #[cfg(target_arch = "x86_64")]
     #[target_feature(enable = "avx2")]
     pub unsafe fn validate_utf8_simd(input: &[u8]) -> bool {
-        let len = input.len();
+        // Skip leading ASCII 32 bytes at a time with SIMD
         let mut i = 0;
-
-        // Process 32 bytes at a time with SIMD
-        while i + 32 <= len {
-            if !process_simd_chunk(input, i) {
-                return false;
+        while i + 32 <= input.len() {
+            let data = _mm256_loadu_si256(input.as_ptr().add(i) as *const __m256i);
+            // The mask has the high bit of every byte: set in all non-ASCII bytes
+            if _mm256_movemask_epi8(data) != 0 {
+                break;
             }
             i += 32;
         }
 
-        // Process remaining bytes with scalar validation
-        validate_remaining_bytes(input, i)
-    }
-
-    /// Validates remaining bytes after SIMD processing
-    fn validate_remaining_bytes(input: &[u8], start: usize) -> bool {
-        let len = input.len();
-        let mut i = start;
-
-        while i < len {
-            let byte = input[i];
-            if byte < 0x80 {
-                i += 1;
-                continue;
-            }
-
-            if !validate_multibyte_sequence(input, i, byte) {
-                return false;
-            }
-
-            i += get_utf8_sequence_length(byte);
-        }
-
-        true
+        // ASCII bytes are whole characters, so the rest can be validated by itself
+        std::str::from_utf8(&input[i..]).is_ok()
     }
 
     /// SIMD-accelerated JSON string escape detection
@@ -273,7 +146,7 @@ pub mod json {
             let quote_mask = _mm256_cmpeq_epi8(data, quote);
             let escape_mask = _mm256_or_si256(backslash_mask, quote_mask);
 
-            let mask = _mm256_movemask_epi8(escape_mask);
+            let mask = _mm256_movemask_epi8(escape_mask) as u32;
 
             let mut m = mask;
             let mut bit_pos = 0;
@@ -463,7 +336,7 @@ pub mod compression {
             let offset = i * 32;
             let data = _mm256_loadu_si256(haystack.as_ptr().add(offset) as *const __m256i);
             let cmp = _mm256_cmpeq_epi8(data, first_vec);
-            let mask = _mm256_movemask_epi8(cmp);
+            let mask = _mm256_movemask_epi8(cmp) as u32;
 
             if mask != 0 {
                 // Found potential matches, check each one
@@ -509,7 +382,8 @@ pub mod batch {
         for i in 0..chunks {
             let offset = i * 8;
             let data = _mm256_loadu_si256(lengths.as_ptr().add(offset) as *const __m256i);
-            let cmp = _mm256_cmpgt_epi32(max_vec, data);
+            // Unsigned `length <= max_length`
+            let cmp = _mm256_cmpeq_epi32(_mm256_max_epu32(max_vec, data), max_vec);
 
             // Extract comparison results
             let mask = _mm256_movemask_ps(_mm256_castsi256_ps(cmp));
diff --git a/src/utils/json_simd.rs b/src/utils/json_simd.rs
index b03cbe8..2b2ede2 100644
--- a/src/utils/json_simd.rs
+++ b/src/utils/json_simd.rs
@@ -20,52 +20,9 @@ pub fn parse_json_fast<T: for<'de> Deserialize<'de>>(input: &[u8]) -> Result<T,
                 )));
             }
         }
-
-        // Use optimized whitespace skipping
-        let ws_positions = unsafe { crate::simd::json::find_whitespace_simd(input) };
-
-        // If there's minimal whitespace, parse directly
-        if ws_positions.len() < input.len() / 10 {
-            serde_json::from_slice(input)
-        } else {
-            // Strip unnecessary whitespace first
-            let mut cleaned = Vec::with_capacity(input.len() - ws_positions.len());
-            let mut in_string = false;
-            let mut escape_next = false;
-
-            for (i, &byte) in input.iter().enumerate() {
-                if escape_next {
-                    escape_next = false;
-                    cleaned.push(byte);
-                    continue;
-                }
-
-                if byte == b'\\' && in_string {
-                    escape_next = true;
-                    cleaned.push(byte);
-                    continue;
-                }
-
-                if byte == b'"' && !escape_next {
-                    in_string = !in_string;
-                    cleaned.push(byte);
-                    continue;
-                }
-
-                if !in_string && ws_positions.binary_search(&i).is_ok() {
-                    // Skip whitespace outside strings
-                    continue;
-                }
-
-                cleaned.push(byte);
-            }
-
-            serde_json::from_slice(&cleaned)
-        }
-    } else {
-        // Fallback to standard parsing
-        serde_json::from_slice(input)
     }
+
+    serde_json::from_slice(input)
 }
 
 /// Parse JSON - fallback for non-SIMD platforms
@@ -120,7 +77,7 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
             let escapes = unsafe { crate::simd::json::find_escapes_simd(&compact) };
 
             // Allocate with estimated size
-            let mut result = String::with_capacity(compact.len() * 2);
+            let mut result: Vec<u8> = Vec::with_capacity(compact.len() * 2);
             let mut indent = 0;
             let mut in_string = false;
             let mut escape_next = false;
@@ -128,7 +85,7 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
             for (i, &byte) in compact.iter().enumerate() {
                 if escape_next {
                     escape_next = false;
-                    result.push(byte as char);
+                    result.push(byte);
                     continue;
                 }
 
@@ -142,39 +99,49 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
 
                 if !in_string {
                     match byte {
+                        b'{' | b'[' if matches!(compact.get(i + 1), Some(b'}' | b']')) => {
+                            // Empty objects and arrays stay on one line
+                            result.push(byte);
+                        },
+                        b'}' | b']' if matches!(compact[i - 1], b'{' | b'[') => {
+                            result.push(byte);
+                        },
                         b'{' | b'[' => {
-                            result.push(byte as char);
+                            result.push(byte);
                             indent += 2;
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
+                            result.push(b'\n');
+                            result.resize(result.len() + indent, b' ');
                         },
                         b'}' | b']' => {
                             indent = indent.saturating_sub(2);
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
-                            result.push(byte as char);
+                            result.push(b'\n');
+                            result.resize(result.len() + indent, b' ');
+                            result.push(byte);
                         },
                         b',' => {
-                            result.push(',');
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
+                            result.push(b',');
+                            result.push(b'\n');
+                            result.resize(result.len() + indent, b' ');
                         },
                         b':' => {
-                            result.push_str(": ");
+                            result.extend_from_slice(b": ");
                         },
                         b' ' | b'\t' | b'\n' | b'\r' => {
                             // Skip whitespace
                         },
                         _ => {
-                            result.push(byte as char);
+                            result.push(byte);
                         },
                     }
                 } else {
-                    result.push(byte as char);
+                    result.push(byte);
                 }
             }
 
-            return Ok(result);
+            // The compact text was UTF-8 and only ASCII was added between characters
+            return String::from_utf8(result).map_err(|e| {
+                JsonError::io(std::io::Error::new(std::io::ErrorKind::InvalidData, e))
+            });
         }
     }
 
-- 
2.43.0


From c6cc9b8dda9a0c851dcec93ccd68d89cee3da5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:02 +0000
Subject: [PATCH 45/45] fix: complete file paths from what was typed

---
 src/types/completable.rs | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/types/completable.rs b/src/types/completable.rs
index fd9b7d1..7019eac 100644
--- a/src/types/completable.rs
+++ b/src/types/completable.rs
@@ -307,25 +307,20 @@ impl CompletionProviderTrait for FileCompletionProvider {
     ) -> crate::error::Result<CompletionResponse> {
         use std::path::Path;
 
-        let partial_path = Path::new(&request.partial);
-        let (dir_path, file_prefix) = if request.partial.ends_with(std::path::MAIN_SEPARATOR) {
-            (partial_path, "")
-        } else {
-            (
-                partial_path.parent().unwrap_or_else(|| Path::new(".")),
-                partial_path
-                    .file_name()
-                    .and_then(|s| s.to_str())
-                    .unwrap_or(""),
-            )
-        };
+        // Everything up to the last separator names the directory, the rest is the prefix
+        let split = request
+            .partial
+            .rfind(std::path::MAIN_SEPARATOR)
+            .map_or(0, |pos| pos + std::path::MAIN_SEPARATOR.len_utf8());
+        let (dir, file_prefix) = request.partial.split_at(split);
+        let dir_path = Path::new(dir);
 
         let search_dir = if dir_path.is_absolute() {
             dir_path.to_path_buf()
         } else if let Some(base) = &self.base_dir {
             base.join(dir_path)
         } else {
-            dir_path.to_path_buf()
+            Path::new(".").join(dir_path)
         };
 
         let mut completions = Vec::new();
@@ -350,11 +345,7 @@ impl CompletionProviderTrait for FileCompletionProvider {
                             }
                         }
 
-                        let value = if request.partial.is_empty() {
-                            name.to_string()
-                        } else {
-                            dir_path.join(name).to_string_lossy().to_string()
-                        };
+                        let value = format!("{dir}{name}");
 
                         completions.push(CompletionItem {
                             value,
-- 
2.43.0

