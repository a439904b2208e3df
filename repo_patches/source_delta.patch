From f7f64e49acb2256d28908b0b86a17dfd44bfcf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:07 +0000
Subject: [PATCH 01/26] fix: reject a tunneling request whose length field does
 not fit its content

A length below 10 underflowed (panic in debug builds, a huge allocation in
release builds); a length beyond the datagram was filled up with zeros.
---
 src/packets/tunneling.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index 7b2ca92..02b6c98 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -73,8 +73,9 @@ impl TunnelingRequest {
             Err(e) => whatever!("Unable to read padding {:?}", e),
         };
 
+        ensure_whatever!(size >= 10, "Packet size should be at least 10 instead of {}", size);
         let mut cemi = vec![0; size as usize - 10];
-        if let Err(e) = packet_reader.read(&mut cemi) {
+        if let Err(e) = packet_reader.read_exact(&mut cemi) {
             whatever!("Unable to read cemi part {:?}", e);
         }
 
-- 
2.43.0


From b79c45a44d105ca6cff759f533133680dd3b7b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:08 +0000
Subject: [PATCH 02/26] fix: do not overflow on the additional information of a
 cEMI

A block of 254 or 255 bytes overflowed the position counter (panic in debug
builds, misparsed telegram in release builds); truncated blocks were
accepted.
---
 src/packets/emi.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index e606324..1d35650 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -199,7 +199,7 @@ impl CEMI {
         };
 
         let additional_infos_size = match packet_reader.read_u8() {
-            Ok(size) => size,
+            Ok(size) => size as usize,
             Err(e) => whatever!("Unable to read addition infos size {:?}", e),
         };
 
@@ -219,7 +219,7 @@ impl CEMI {
             };
 
             let mut additional_info = vec![0; additional_info_size as usize];
-            if let Err(e) = packet_reader.read(&mut additional_info) {
+            if let Err(e) = packet_reader.read_exact(&mut additional_info) {
                 whatever!("Unable to read additional info {:?}", e);
             }
 
@@ -227,7 +227,10 @@ impl CEMI {
                 info_type: additional_info_type,
                 value: additional_info,
             });
-            position += additional_info_size + 2;
+            position += additional_info_size as usize + 2;
+        }
+        if position != additional_infos_size {
+            whatever!("Additional infos take {} bytes instead of {}", position, additional_infos_size);
         }
 
         let mut service_info = Vec::new();
-- 
2.43.0


From cb2b4825c1e8f041a5facbf0e5a133644d3fb538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:09 +0000
Subject: [PATCH 03/26] fix: reject an indication that is shorter than its data
 length

The missing bytes were reported to the caller as zeros.
---
 src/packets/emi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index 1d35650..ef1e108 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -114,7 +114,7 @@ impl LDataInd {
 
         let mut value = vec![0; length as usize];
         if length > 0 {
-            if let Err(e) = reader.read(&mut value) {
+            if let Err(e) = reader.read_exact(&mut value) {
                 whatever!("Unable to read value of length {}, {:?}", length, e);
             }
         } else {
-- 
2.43.0


From b11597099f1ec73cbf63d5bf88692e7db65f8516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:55 +0000
Subject: [PATCH 04/26] fix: parse the header of a disconnect request

The header was not skipped, so every disconnect request of a gateway failed
to parse: it was never answered.
---
 src/packets/core.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 92a0169..45c4cfc 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -476,13 +476,12 @@ impl DisconnectRequest {
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>) -> Result<Self, Whatever> {
-        let header_size = match packet_reader.read_u8() {
-            Ok(header_size) => {
-                ensure_whatever!(header_size >= 8, "Header size should be at least 8 instead of {}", header_size);
-                header_size
-            }
-            Err(e) => whatever!("Unable to read header size {:?}", e),
-        };
+        let header = KnxNetIpHeader::from_packet(packet_reader)?;
+        ensure_whatever!(
+            header.service_type_identifier == 0x0209,
+            "Disconnect request should be 0x0209 instead of {:2X}",
+            header.service_type_identifier
+        );
 
         let communication_channel_id = match packet_reader.read_u8() {
             Ok(communication_channel_id) => communication_channel_id,
-- 
2.43.0


From cfe52e3caad80ad7246df36934de537ea2d3ca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:56 +0000
Subject: [PATCH 05/26] fix: reconnect after the gateway closes the tunnel

A disconnect request of the gateway ended the background task for good, as
if the application had asked for it.
---
 src/transport/udp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 9142dea..e6b2e80 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -460,7 +460,7 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                     if let Err(e) = socket.send(&disconnect_resp.packet()).await {
                         warn!("Unable to send disconnect response to knxip target {:?}", e);
                     }
-                    break Ok("KNX device requested disconnection".into());
+                    whatever!("KNX device requested disconnection");
                 }
             }
         }
-- 
2.43.0


From 37b529aad94fb6bdeed47e3c0f51131ad326d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:58 +0000
Subject: [PATCH 06/26] fix: a datagram that cannot be parsed does not cost the
 tunnel

Any unknown, malformed or late datagram made the client drop a working
tunnel and connect again. Frames longer than 100 bytes were cut, and the
unused rest of the buffer was parsed as if it had been received.
---
 src/transport/udp.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index e6b2e80..8e96a13 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -23,6 +23,9 @@ use crate::packets::{
     tunneling::{TunnelingAck, TunnelingRequest},
 };
 
+/// Room for the longest KNXnet/IP frame: an extended cEMI with additional information
+const MAX_DATAGRAM_SIZE: usize = 1024;
+
 struct ConnectionData {
     communication_channel_id: u8,
     control_endpoint: HPAI,
@@ -406,11 +409,18 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
 
 pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>) -> TransportResult<String> {
     loop {
-        let mut data = vec![0; 100];
+        let mut data = vec![0; MAX_DATAGRAM_SIZE];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
 
         if count > 0 {
-            let resp = parse_response(data)?;
+            data.truncate(count);
+            let resp = match parse_response(data) {
+                Ok(resp) => resp,
+                Err(e) => {
+                    warn!("Ignore unexpected datagram {:?}", e);
+                    continue;
+                }
+            };
 
             match resp {
                 TunnelingResponse::TunnelingRequest(req) => {
-- 
2.43.0


From eab1c114ae4c2e950d78a4cd6c7ed939d47f77d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:59 +0000
Subject: [PATCH 07/26] fix: wait for the connect response, not for any
 datagram

A late telegram of the former tunnel made the connection attempt fail and
left the tunnel the gateway had just opened unused.
---
 src/transport/udp.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 8e96a13..0f301ba 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -5,7 +5,7 @@ use std::sync::Arc;
 use std::time::Duration;
 use std::{io::Cursor, net::SocketAddr};
 use tokio::sync::mpsc::Sender;
-use tokio::time::{interval, sleep, timeout};
+use tokio::time::{interval, sleep, timeout, timeout_at, Instant};
 use tokio::{io, select};
 
 use log::{debug, info, trace, warn};
@@ -391,10 +391,21 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
         whatever!("Unable to send connection request {:?}", e);
     }
 
-    let mut resp = vec![0; 100];
-    if let Err(e) = timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
-        whatever!("Target device does not respond {:?}", e);
-    }
+    let deadline = Instant::now() + Duration::from_secs(30);
+    let resp = loop {
+        let mut resp = vec![0; MAX_DATAGRAM_SIZE];
+        let count = match timeout_at(deadline, socket.recv(&mut resp)).await {
+            Ok(Ok(count)) => count,
+            Ok(Err(e)) => whatever!("Unable to receive connection response {:?}", e),
+            Err(e) => whatever!("Target device does not respond {:?}", e),
+        };
+        resp.truncate(count);
+        // Whatever is left of a former connection is not the answer
+        //
+        if resp.get(2..4) == Some(&[0x02, 0x06]) {
+            break resp;
+        }
+    };
     debug!("Connection response {:0x?}", resp);
 
     let mut resp_cursor = Cursor::new(resp.as_slice());
-- 
2.43.0


From a1595b3bdcbd7cafd4d9f910ed57cd0e5b9fab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:27 +0000
Subject: [PATCH 08/26] fix: give our own endpoint in heartbeats and disconnect
 requests

They carried the gateway's endpoint where the client's belongs, so a gateway
that follows the specification answers to itself.
---
 src/transport/udp.rs         | 3 ++-
 src/transport/udp_monitor.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 0f301ba..8cf699a 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -37,7 +37,8 @@ impl ConnectionData {
         Self {
             sequence_nr: 0,
             communication_channel_id: connection.get_communication_channel_id(),
-            control_endpoint: connection.get_data_endpoint(),
+            // Answers go back to where the request came from, as in the connection request
+            control_endpoint: HPAI::udp(),
         }
     }
 }
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 573c883..29aa32d 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -46,7 +46,8 @@ impl ConnectionData {
         Self {
             sequence_nr: 1,
             communication_channel_id: connection.get_communication_channel_id(),
-            control_endpoint: connection.get_data_endpoint(),
+            // Answers go back to where the request came from, as in the connection request
+            control_endpoint: HPAI::udp(),
         }
     }
 }
-- 
2.43.0


From a98b6d78c4f454f863e9c38bbf7b7740de1373a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:28 +0000
Subject: [PATCH 09/26] fix: a heartbeat does not interrupt the handling of a
 telegram

The receiver was started anew at each heartbeat: a telegram that was already
acknowledged but not yet handed over was lost.
---
 src/transport/udp.rs         | 8 +++++++-
 src/transport/udp_monitor.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 8cf699a..d1e5571 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -153,9 +153,15 @@ impl UdpTransport {
                         *connection_data = Some(ConnectionData::from_connection_response(connection));
                     }
 
+                    // One receiver for the whole life of the tunnel: a heart beat must not
+                    // interrupt it between two steps
+                    //
+                    let receiver = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    tokio::pin!(receiver);
+
                     'recv: loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {
+                            resp = &mut receiver => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     debug!("Exit from reconnection loop");
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 29aa32d..f9232f6 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -120,9 +120,15 @@ impl UdpMonitorTransport {
                         *on_connection = active_on_connection;
                     }
 
+                    // One receiver for the whole life of the tunnel: a heart beat must not
+                    // interrupt it between two steps
+                    //
+                    let receiver = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    tokio::pin!(receiver);
+
                     loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {
+                            resp = &mut receiver => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     break 'main;
-- 
2.43.0


From a922c10ea4c9124c917cc24093441e561c8232ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:06 +0000
Subject: [PATCH 10/26] fix: accept only what is in sequence on our own channel

A repeated telegram was handed out twice, telegrams out of sequence and of
other channels were acknowledged and handed out, and a disconnect request,
disconnect response or state response of another channel ended the tunnel.
---
 src/packets/core.rs          |  4 +++
 src/transport/udp.rs         | 61 ++++++++++++++++++++++++++++++++++--
 src/transport/udp_monitor.rs |  6 +++-
 3 files changed, 68 insertions(+), 3 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 45c4cfc..fda7f69 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -462,6 +462,10 @@ pub struct DisconnectRequest {
 }
 
 impl DisconnectRequest {
+    pub fn get_communication_channel_id(&self) -> u8 {
+        self.communication_channel_id
+    }
+
     pub fn new(communication_channel_id: u8, control_endpoint: HPAI) -> Self {
         Self {
             communication_channel_id,
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index d1e5571..37dcbed 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -101,6 +101,28 @@ pub enum TunnelingResponse {
     DisconnectRequest(DisconnectRequest),
 }
 
+impl TunnelingResponse {
+    fn communication_channel_id(&self) -> u8 {
+        match self {
+            Self::TunnelingRequest(req) => req.communication_channel_id,
+            Self::TunnelingAck(ack) => ack.communication_channel_id,
+            Self::FeatureResponse(resp) => resp.communication_channel_id,
+            Self::ConnectionstateResponse(resp) => resp.communication_channel_id,
+            Self::DisconnectResponse(resp) => resp.communication_channel_id,
+            Self::DisconnectRequest(req) => req.get_communication_channel_id(),
+        }
+    }
+
+    /// Sequence number of the messages the KNXIP device numbers
+    fn sequence_nr(&self) -> Option<u8> {
+        match self {
+            Self::TunnelingRequest(req) => Some(req.sequence_nr),
+            Self::FeatureResponse(resp) => Some(resp.sequence_nr),
+            _ => None,
+        }
+    }
+}
+
 struct UdpTransport {
     socket: Arc<MyUdpSocket>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
@@ -156,7 +178,11 @@ impl UdpTransport {
                     // One receiver for the whole life of the tunnel: a heart beat must not
                     // interrupt it between two steps
                     //
-                    let receiver = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    let communication_channel_id = match connection_data.lock().await.as_ref() {
+                        Some(data) => data.communication_channel_id,
+                        None => continue,
+                    };
+                    let receiver = handle_recv_from_knx_device(socket.clone(), communication_channel_id, from_knx_tx.clone());
                     tokio::pin!(receiver);
 
                     'recv: loop {
@@ -425,7 +451,16 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
     Ok(connection)
 }
 
-pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>) -> TransportResult<String> {
+pub(crate) async fn handle_recv_from_knx_device(
+    socket: Arc<MyUdpSocket>,
+    communication_channel_id: u8,
+    from_knx_tx: Sender<CEMI>,
+) -> TransportResult<String> {
+    // Sequence number of the next request of the KNXIP device
+    // 03_08_04 Tunneling section 2.6
+    //
+    let mut expected_sequence_nr = 0u8;
+
     loop {
         let mut data = vec![0; MAX_DATAGRAM_SIZE];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
@@ -440,12 +475,33 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                 }
             };
 
+            if resp.communication_channel_id() != communication_channel_id {
+                warn!("Ignore datagram for channel {}, ours is {}", resp.communication_channel_id(), communication_channel_id);
+                continue;
+            }
+
+            if let Some(sequence_nr) = resp.sequence_nr() {
+                if sequence_nr == expected_sequence_nr.wrapping_sub(1) {
+                    debug!("Request {} was repeated, acknowledge it again", sequence_nr);
+                    let ack = TunnelingAck::new(communication_channel_id, sequence_nr, 0);
+                    if let Err(e) = socket.send(&ack.packet()).await {
+                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
+                    }
+                    continue;
+                }
+                if sequence_nr != expected_sequence_nr {
+                    warn!("Ignore request {} where {} is due", sequence_nr, expected_sequence_nr);
+                    continue;
+                }
+            }
+
             match resp {
                 TunnelingResponse::TunnelingRequest(req) => {
                     let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                     if let Err(e) = socket.send(&ack.packet()).await {
                         whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                     }
+                    expected_sequence_nr = expected_sequence_nr.wrapping_add(1);
 
                     let mut cemi = Cursor::new(req.get_cemi().as_slice());
 
@@ -468,6 +524,7 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                     if let Err(e) = socket.send(&ack.packet()).await {
                         whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                     }
+                    expected_sequence_nr = expected_sequence_nr.wrapping_add(1);
                 }
                 TunnelingResponse::ConnectionstateResponse(resp) => {
                     if resp.status != 0 {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index f9232f6..3fcae16 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -123,7 +123,11 @@ impl UdpMonitorTransport {
                     // One receiver for the whole life of the tunnel: a heart beat must not
                     // interrupt it between two steps
                     //
-                    let receiver = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    let communication_channel_id = match connection_data.lock().await.as_ref() {
+                        Some(data) => data.communication_channel_id,
+                        None => continue,
+                    };
+                    let receiver = handle_recv_from_knx_device(socket.clone(), communication_channel_id, from_knx_tx.clone());
                     tokio::pin!(receiver);
 
                     loop {
-- 
2.43.0


From b6ba0de56127c7a0d9ef11237b2a57f9aa6cecee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:39 +0000
Subject: [PATCH 11/26] fix: acknowledge feature info messages

The monitor asks for them (info service enable) and never acknowledged one,
so the gateway closes the tunnel after the first.
---
 src/packets/tunneling.rs | 47 ++++++++++++++++++++++++++++++++++++++++
 src/transport/udp.rs     | 19 +++++++++++++++-
 2 files changed, 65 insertions(+), 1 deletion(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index 02b6c98..7d71cc7 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -276,6 +276,53 @@ impl FeatureResp {
     }
 }
 
+// Tunneling feature info, sent by the KNXIP device when the value of a feature changes
+// 03.08.04 Tunneling section 4.4.11
+//
+#[derive(Debug)]
+pub struct FeatureInfo {
+    pub communication_channel_id: u8,
+    pub sequence_nr: u8,
+    pub feature: u8,
+    pub value: Vec<u8>,
+}
+
+impl FeatureInfo {
+    pub fn from_packet(packet_reader: &mut Cursor<&[u8]>) -> Result<Self, Whatever> {
+        verify_header(packet_reader)?;
+
+        match packet_reader.read_u16::<BigEndian>() {
+            Ok(code) => ensure_whatever!(code == 0x0425, "Code should be 0x0425 instead of {:0x?}", code),
+            Err(e) => whatever!("Unable to read code {:?}", e),
+        }
+
+        let size = match packet_reader.read_u16::<BigEndian>() {
+            Ok(size) => size,
+            Err(e) => whatever!("Unable to read packet size {:?}", e),
+        };
+        ensure_whatever!(size >= 12, "Packet size should be at least 12 instead of {}", size);
+
+        let mut header = [0; 6];
+        if let Err(e) = packet_reader.read_exact(&mut header) {
+            whatever!("Unable to read connection header {:?}", e);
+        }
+        let [struct_size, communication_channel_id, sequence_nr, _, feature, _] = header;
+        ensure_whatever!(struct_size == 0x04, "Structure size should be 0x04 instead of {:0x?}", struct_size);
+
+        let mut value = vec![0; size as usize - 12];
+        if let Err(e) = packet_reader.read_exact(&mut value) {
+            whatever!("Unable to read value {:?}", e);
+        }
+
+        Ok(Self {
+            communication_channel_id,
+            sequence_nr,
+            feature,
+            value,
+        })
+    }
+}
+
 fn verify_header(packet_reader: &mut Cursor<&[u8]>) -> Result<(), Whatever> {
     match packet_reader.read_u8() {
         Ok(size) => ensure_whatever!(size == 6, "Header size should be 6 instead of {}", size),
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 37dcbed..97d5095 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -1,5 +1,5 @@
 use crate::packets::core::{SearchRequest, SearchResponse, DISCOVERY_ENDPOINT_PORT, SYSTEM_MULTICAST_ADDRESS};
-use crate::packets::tunneling::{FeatureResp, FeatureSet};
+use crate::packets::tunneling::{FeatureInfo, FeatureResp, FeatureSet};
 use crate::transport;
 use std::sync::Arc;
 use std::time::Duration;
@@ -96,6 +96,7 @@ pub enum TunnelingResponse {
     TunnelingRequest(TunnelingRequest),
     TunnelingAck(TunnelingAck),
     FeatureResponse(FeatureResp),
+    FeatureInfo(FeatureInfo),
     ConnectionstateResponse(ConnectionstateResponse),
     DisconnectResponse(DisconnectResponse),
     DisconnectRequest(DisconnectRequest),
@@ -107,6 +108,7 @@ impl TunnelingResponse {
             Self::TunnelingRequest(req) => req.communication_channel_id,
             Self::TunnelingAck(ack) => ack.communication_channel_id,
             Self::FeatureResponse(resp) => resp.communication_channel_id,
+            Self::FeatureInfo(info) => info.communication_channel_id,
             Self::ConnectionstateResponse(resp) => resp.communication_channel_id,
             Self::DisconnectResponse(resp) => resp.communication_channel_id,
             Self::DisconnectRequest(req) => req.get_communication_channel_id(),
@@ -118,6 +120,7 @@ impl TunnelingResponse {
         match self {
             Self::TunnelingRequest(req) => Some(req.sequence_nr),
             Self::FeatureResponse(resp) => Some(resp.sequence_nr),
+            Self::FeatureInfo(info) => Some(info.sequence_nr),
             _ => None,
         }
     }
@@ -377,6 +380,12 @@ pub fn parse_response(resp: Vec<u8>) -> Result<TunnelingResponse, Whatever> {
             let resp = FeatureResp::from_packet(&mut resp_cursor)?;
             debug!("Parsed feature response {:?}", resp);
             Ok(TunnelingResponse::FeatureResponse(resp))
+        } else if response_code == Some(&[0x04, 0x25]) {
+            debug!("Received feature info");
+            let mut resp_cursor = Cursor::new(resp.as_slice());
+            let resp = FeatureInfo::from_packet(&mut resp_cursor)?;
+            debug!("Parsed feature info {:?}", resp);
+            Ok(TunnelingResponse::FeatureInfo(resp))
         } else if response_code == Some(&[0x02, 0x0a]) {
             debug!("Received disconnection response");
             let mut resp_cursor = Cursor::new(resp.as_slice());
@@ -526,6 +535,14 @@ pub(crate) async fn handle_recv_from_knx_device(
                     }
                     expected_sequence_nr = expected_sequence_nr.wrapping_add(1);
                 }
+                TunnelingResponse::FeatureInfo(info) => {
+                    let ack = TunnelingAck::new(info.communication_channel_id, info.sequence_nr, 0);
+
+                    if let Err(e) = socket.send(&ack.packet()).await {
+                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
+                    }
+                    expected_sequence_nr = expected_sequence_nr.wrapping_add(1);
+                }
                 TunnelingResponse::ConnectionstateResponse(resp) => {
                     if resp.status != 0 {
                         warn!("Connection state response with error {}", resp.status);
-- 
2.43.0


From 1c15b87f3d076745fb505466861411d38a9c0dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:13 +0000
Subject: [PATCH 12/26] fix: acknowledge a negative feature response

A gateway without the info service answers without a value; the response was
not acknowledged, so the gateway closes the tunnel and the monitor can never
keep one.
---
 src/packets/tunneling.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index 7d71cc7..94f0599 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -226,10 +226,13 @@ impl FeatureResp {
             Err(e) => whatever!("Unable to read response code {:?}", e),
         }
 
-        match packet_reader.read_u16::<BigEndian>() {
-            Ok(size) => ensure_whatever!(size == 0x0d, "Packet size should be 0x0d instead of {:0x?}", size),
+        let size = match packet_reader.read_u16::<BigEndian>() {
+            Ok(size) => {
+                ensure_whatever!(size == 0x0c || size == 0x0d, "Packet size should be 0x0c or 0x0d instead of {:0x?}", size);
+                size
+            }
             Err(e) => whatever!("Unable to read packet size {:?}", e),
-        }
+        };
 
         match packet_reader.read_u8() {
             Ok(struct_size) => ensure_whatever!(struct_size == 0x04, "Structure size should be 0x04 instead of {:0x?}", struct_size),
@@ -261,8 +264,11 @@ impl FeatureResp {
             Err(e) => whatever!("Unable to read status {:?}", e),
         };
 
+        // A negative response has no value
+        //
         let value = match packet_reader.read_u8() {
             Ok(value) => value,
+            Err(_) if size == 0x0c => 0,
             Err(e) => whatever!("Unable to read value {:?}", e),
         };
 
-- 
2.43.0


From c13a94140905f21e74178de085d74670ede353e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:13 +0000
Subject: [PATCH 13/26] fix: a read returns the value of the group address,
 nothing else

Telegrams received before the request, read requests of other devices and
telegrams to the individual address with the same number were returned as
the value. One malformed telegram failed the read. The timeout started anew
with each telegram, so on a busy bus a read could wait forever.
---
 src/packets/emi.rs   | 13 +++++++++++++
 src/transport/udp.rs | 18 ++++++++++++++----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index ef1e108..49282e6 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -136,6 +136,19 @@ impl LDataInd {
             value,
         })
     }
+
+    /// Carries the value of a group address: a group value response or a group value write
+    /// 03_03_07 Application Layer chapter 2
+    pub fn is_group_value(&self) -> bool {
+        let is_group = self.cemi.service_info.get(1).map_or(false, |control2| control2 & 0x80 != 0);
+        // Without a length there is no APCI
+        //
+        let apci = match self.cemi.service_info.get(6..9) {
+            Some(octets) if octets[0] > 0 => (octets[1] & 0x03) << 2 | octets[2] >> 6,
+            _ => return false,
+        };
+        is_group && (apci == 1 || apci == 2)
+    }
 }
 
 // L_Data request message
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 97d5095..399be62 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -612,18 +612,28 @@ impl UdpClient {
         debug!("LDataReq {:?}", req);
 
         let transport = self.transport.lock().await;
-        transport.tunnel_req(req.packet()).await?;
         let mut rx = transport.rx.lock().await;
+        // What arrived before the request cannot be the answer
+        //
+        while rx.try_recv().is_ok() {}
+        transport.tunnel_req(req.packet()).await?;
+        let deadline = Instant::now() + self.get_read_timeout();
         loop {
-            match timeout(self.get_read_timeout(), rx.recv()).await {
+            match timeout_at(deadline, rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                     let data_con = LDataCon::from_cemi(cemi);
                     debug!("Parsed confirmation cEMI {:?}", data_con);
                 }
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {
-                    let data_ind = LDataInd::from_cemi(cemi)?;
+                    let data_ind = match LDataInd::from_cemi(cemi) {
+                        Ok(data_ind) => data_ind,
+                        Err(e) => {
+                            warn!("Ignore malformed indication {:?}", e);
+                            continue;
+                        }
+                    };
                     debug!("Parsed indication cEMI {:?}", data_ind);
-                    if data_ind.l_data.dest == expected_addr {
+                    if data_ind.l_data.dest == expected_addr && data_ind.is_group_value() {
                         return Ok(data_ind.value);
                     }
                 }
-- 
2.43.0


From 7aaca1179959434fd34b859c0c9964a07a08530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:14 +0000
Subject: [PATCH 14/26] fix: a write succeeds when the bus confirms it, and
 only then

Any confirmation counted, negative ones and those of other requests too; any
other telegram on the bus made the write fail.
---
 src/transport/udp.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 399be62..ee9ac68 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -656,17 +656,35 @@ impl UdpClient {
         debug!("LDataReq {:?}", req);
 
         let transport = self.transport.lock().await;
-        transport.tunnel_req(req.packet()).await?;
-        debug!("Write request sent to bus");
         let mut rx = transport.rx.lock().await;
+        // What arrived before the request cannot be its confirmation
+        //
+        while rx.try_recv().is_ok() {}
+        let packet = req.packet();
+        transport.tunnel_req(packet.clone()).await?;
+        debug!("Write request sent to bus");
+        let deadline = Instant::now() + self.get_write_timeout();
         loop {
-            match timeout(self.get_write_timeout(), rx.recv()).await {
+            match timeout_at(deadline, rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
-                    let data_con = LDataCon::from_cemi(cemi);
+                    let data_con = match LDataCon::from_cemi(cemi) {
+                        Ok(data_con) => data_con,
+                        Err(e) => {
+                            warn!("Ignore malformed confirmation {:?}", e);
+                            continue;
+                        }
+                    };
                     debug!("Parsed confirmation cEMI {:?}", data_con);
+                    // The confirmation repeats the request: destination, length and TPDU
+                    //
+                    if data_con.cemi.service_info.get(4..) != packet.get(6..) {
+                        debug!("Confirmation of another request");
+                        continue;
+                    }
+                    ensure_whatever!(data_con.confirm, "Write request was not confirmed by the bus");
                     return Ok(());
                 }
-                Ok(Some(cemi)) => whatever!("Unknown cEMI message code {:?}", cemi.msg_code),
+                Ok(Some(cemi)) => debug!("Not a confirmation, cEMI message code {:?}", cemi.msg_code),
                 Ok(None) => whatever!("No more data will be received from client"),
                 Err(_) => whatever!("Write request timed out"),
             }
-- 
2.43.0


From 6a7d799bed96dbcf97d006b109c4bb6e3c70bc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:15 +0000
Subject: [PATCH 15/26] fix: number requests without gaps and repeat what is
 not acknowledged

A lost request or a lost acknowledgement put the sequence numbers of the
two ends out of step for good: every later request was discarded by the
device. Requests go out one at a time, wait for their acknowledgement, are
repeated once and then the connection is replaced (03_08_04 section 2.6).
The monitor numbers its requests from 0 like the client.
---
 src/transport/udp.rs         | 155 ++++++++++++++++++++++++++---------
 src/transport/udp_monitor.rs | 124 ++++++++++++++--------------
 2 files changed, 178 insertions(+), 101 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index ee9ac68..66553f4 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -26,21 +26,35 @@ use crate::packets::{
 /// Room for the longest KNXnet/IP frame: an extended cEMI with additional information
 const MAX_DATAGRAM_SIZE: usize = 1024;
 
-struct ConnectionData {
-    communication_channel_id: u8,
-    control_endpoint: HPAI,
+/// How long the KNXIP device has to acknowledge a request
+/// 03_08_04 Tunneling section 2.6
+const ACK_TIMEOUT: Duration = Duration::from_secs(1);
+
+pub(crate) struct ConnectionData {
+    pub(crate) communication_channel_id: u8,
+    pub(crate) control_endpoint: HPAI,
     sequence_nr: u8,
+    pub(crate) acks_tx: mpsc::Sender<TunnelingAck>,
+    acks: Arc<Mutex<mpsc::Receiver<TunnelingAck>>>,
 }
 
 impl ConnectionData {
     pub fn from_connection_response(connection: ConnectionResponse) -> Self {
+        let (acks_tx, acks) = mpsc::channel(10);
         Self {
+            acks_tx,
+            acks: Arc::new(Mutex::new(acks)),
             sequence_nr: 0,
             communication_channel_id: connection.get_communication_channel_id(),
             // Answers go back to where the request came from, as in the connection request
             control_endpoint: HPAI::udp(),
         }
     }
+
+    /// It is still the connection these acknowledgements come from
+    fn is_acknowledged_by(&self, acks: &Arc<Mutex<mpsc::Receiver<TunnelingAck>>>) -> bool {
+        Arc::ptr_eq(&self.acks, acks)
+    }
 }
 
 #[derive(Debug, Snafu)]
@@ -181,11 +195,11 @@ impl UdpTransport {
                     // One receiver for the whole life of the tunnel: a heart beat must not
                     // interrupt it between two steps
                     //
-                    let communication_channel_id = match connection_data.lock().await.as_ref() {
-                        Some(data) => data.communication_channel_id,
+                    let (communication_channel_id, acks_tx) = match connection_data.lock().await.as_ref() {
+                        Some(data) => (data.communication_channel_id, data.acks_tx.clone()),
                         None => continue,
                     };
-                    let receiver = handle_recv_from_knx_device(socket.clone(), communication_channel_id, from_knx_tx.clone());
+                    let receiver = handle_recv_from_knx_device(socket.clone(), communication_channel_id, acks_tx.clone(), from_knx_tx.clone());
                     tokio::pin!(receiver);
 
                     'recv: loop {
@@ -199,6 +213,10 @@ impl UdpTransport {
                                     break 'recv;
                                 }
                             },
+                            _ = acks_tx.closed() => {
+                                info!("KNXIP device does not acknowledge our requests");
+                                break 'recv;
+                            },
                             _ = heart_beat.tick() => {
                                 info!("Send connection heart beat");
                                 match connection_data.lock().await.as_ref() {
@@ -232,17 +250,6 @@ impl UdpTransport {
         })
     }
 
-    async fn get_next_sequence_nr(&self) -> Result<u8, Whatever> {
-        match self.connection_data.lock().await.as_mut() {
-            Some(data) => {
-                let num = data.sequence_nr;
-                data.sequence_nr = data.sequence_nr.wrapping_add(1);
-                Ok(num)
-            }
-            None => whatever!("Disconnected from knx device, NR"),
-        }
-    }
-
     async fn get_communication_channel_id(&self) -> Result<u8, Whatever> {
         match self.connection_data.lock().await.as_ref() {
             Some(data) => Ok(data.communication_channel_id),
@@ -273,29 +280,27 @@ impl UdpTransport {
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(self.get_communication_channel_id().await?, sequence_nr, req);
-        debug!("TunnelingRequest {:?}", tunneled_req);
-        let req = tunneled_req.packet();
-        debug!("======================");
-        debug!("[OUT] Raw tunnel request: {:02x?}", req);
-        debug!("======================");
-        if let Err(e) = self.socket.send(&req).await {
-            whatever!("Unable to send request {:?}", e);
-        }
-        Ok(())
+        send_numbered(&self.socket, &self.connection_data, |communication_channel_id, sequence_nr| {
+            let tunneled_req = TunnelingRequest::new(communication_channel_id, sequence_nr, req.clone());
+            debug!("TunnelingRequest {:?}", tunneled_req);
+            let req = tunneled_req.packet();
+            debug!("======================");
+            debug!("[OUT] Raw tunnel request: {:02x?}", req);
+            debug!("======================");
+            req
+        })
+        .await
     }
 
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let req = FeatureSet::new(self.get_communication_channel_id().await?, sequence_nr, feature, value);
-        debug!("FeatureSet request {:?}", req);
-        let req = req.packet();
-        debug!("Raw tunnel request: {:02x?}", req);
-        if let Err(e) = self.socket.send(&req).await {
-            whatever!("Unable to send request {:?}", e);
-        }
-        Ok(())
+        send_numbered(&self.socket, &self.connection_data, |communication_channel_id, sequence_nr| {
+            let req = FeatureSet::new(communication_channel_id, sequence_nr, feature, value);
+            debug!("FeatureSet request {:?}", req);
+            let req = req.packet();
+            debug!("Raw tunnel request: {:02x?}", req);
+            req
+        })
+        .await
     }
 
     pub async fn disconnect(&self) -> Result<(), Whatever> {
@@ -460,9 +465,79 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
     Ok(connection)
 }
 
+/// Sends a request that the KNXIP device has to acknowledge: it is repeated once, after that
+/// the connection is given up
+/// 03_08_04 Tunneling section 2.6
+pub(crate) async fn send_numbered(
+    socket: &MyUdpSocket,
+    connection_data: &Mutex<Option<ConnectionData>>,
+    packet: impl Fn(u8, u8) -> Vec<u8>,
+) -> Result<(), Whatever> {
+    let acks = match connection_data.lock().await.as_ref() {
+        Some(data) => data.acks.clone(),
+        None => whatever!("Disconnected from knx device"),
+    };
+    // One request at a time, the next one has to wait for the acknowledgement of this one
+    //
+    let mut received_acks = acks.lock().await;
+
+    let (sequence_nr, req, disconnect_req) = match connection_data.lock().await.as_mut() {
+        Some(data) if data.is_acknowledged_by(&acks) => {
+            while received_acks.try_recv().is_ok() {}
+            let sequence_nr = data.sequence_nr;
+            let req = packet(data.communication_channel_id, sequence_nr);
+            if let Err(e) = socket.send(&req).await {
+                whatever!("Unable to send request {:?}", e);
+            }
+            data.sequence_nr = data.sequence_nr.wrapping_add(1);
+            (sequence_nr, req, DisconnectRequest::new(data.communication_channel_id, data.control_endpoint.clone()))
+        }
+        _ => whatever!("Disconnected from knx device"),
+    };
+    if is_acknowledged(&mut received_acks, sequence_nr).await? {
+        return Ok(());
+    }
+
+    warn!("Request {} was not acknowledged, repeat it", sequence_nr);
+    match connection_data.lock().await.as_ref() {
+        Some(data) if data.is_acknowledged_by(&acks) => {
+            if let Err(e) = socket.send(&req).await {
+                warn!("Unable to repeat request {:?}", e);
+            }
+        }
+        _ => whatever!("Connection closed before the acknowledgement of request {}", sequence_nr),
+    }
+    if is_acknowledged(&mut received_acks, sequence_nr).await? {
+        return Ok(());
+    }
+
+    if let Err(e) = socket.send(&disconnect_req.packet()).await {
+        warn!("Unable to send disconnect request {:?}", e);
+    }
+    let mut connection_data = connection_data.lock().await;
+    if matches!(connection_data.as_ref(), Some(data) if data.is_acknowledged_by(&acks)) {
+        *connection_data = None;
+    }
+    received_acks.close();
+    whatever!("Request {} was not acknowledged", sequence_nr)
+}
+
+async fn is_acknowledged(acks: &mut mpsc::Receiver<TunnelingAck>, sequence_nr: u8) -> Result<bool, Whatever> {
+    let deadline = Instant::now() + ACK_TIMEOUT;
+    loop {
+        match timeout_at(deadline, acks.recv()).await {
+            Ok(Some(ack)) if ack.sequence_nr == sequence_nr && ack.status == 0 => return Ok(true),
+            Ok(Some(ack)) => warn!("Ignore {:?}, request {} is due", ack, sequence_nr),
+            Ok(None) => whatever!("Connection closed before the acknowledgement of request {}", sequence_nr),
+            Err(_) => return Ok(false),
+        }
+    }
+}
+
 pub(crate) async fn handle_recv_from_knx_device(
     socket: Arc<MyUdpSocket>,
     communication_channel_id: u8,
+    acks_tx: Sender<TunnelingAck>,
     from_knx_tx: Sender<CEMI>,
 ) -> TransportResult<String> {
     // Sequence number of the next request of the KNXIP device
@@ -526,7 +601,11 @@ pub(crate) async fn handle_recv_from_knx_device(
                         Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
                     };
                 }
-                TunnelingResponse::TunnelingAck(_) => {}
+                TunnelingResponse::TunnelingAck(ack) => {
+                    if let Err(e) = acks_tx.try_send(ack) {
+                        warn!("Ignore tunneling ack {:?}", e);
+                    }
+                }
                 TunnelingResponse::FeatureResponse(resp) => {
                     let ack = TunnelingAck::new(resp.communication_channel_id, resp.sequence_nr, 0);
 
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 3fcae16..ba85280 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -1,7 +1,6 @@
 use super::udp::TransportResult;
 use crate::packets::addresses::KnxAddress;
 use crate::packets::apdu::APDU;
-use crate::packets::core::ConnectionResponse;
 use crate::packets::core::ConnectionstateRequest;
 use crate::packets::core::DisconnectRequest;
 use crate::packets::core::DisconnectResponse;
@@ -17,6 +16,8 @@ use crate::packets::tunneling::KnxIpFeature;
 use crate::packets::tunneling::TunnelingRequest;
 use crate::transport::udp::connect;
 use crate::transport::udp::handle_recv_from_knx_device;
+use crate::transport::udp::send_numbered;
+use crate::transport::udp::ConnectionData;
 use crate::transport::udp::MyUdpSocket;
 use log::debug;
 use log::info;
@@ -35,23 +36,6 @@ use tokio::sync::{mpsc, Mutex};
 use tokio::time::interval;
 use tracing::instrument;
 
-struct ConnectionData {
-    communication_channel_id: u8,
-    control_endpoint: HPAI,
-    sequence_nr: u8,
-}
-
-impl ConnectionData {
-    pub fn from_connection_response(connection: ConnectionResponse) -> Self {
-        Self {
-            sequence_nr: 1,
-            communication_channel_id: connection.get_communication_channel_id(),
-            // Answers go back to where the request came from, as in the connection request
-            control_endpoint: HPAI::udp(),
-        }
-    }
-}
-
 struct UdpMonitorTransport {
     socket: Arc<MyUdpSocket>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
@@ -93,6 +77,10 @@ impl UdpMonitorTransport {
                 //
                 heart_beat.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);
 
+                // Older devices do not know the feature service and leave the request unanswered
+                //
+                let mut has_feature_service = true;
+
                 'main: loop {
                     // If connection data is none we don't have a valid connection
                     // with KNXIP device
@@ -102,10 +90,6 @@ impl UdpMonitorTransport {
                         let connection = connect(socket.clone()).await;
                         let communication_channel_id = connection.get_communication_channel_id();
 
-                        if enable_busmonitor(&socket, communication_channel_id).await.is_err() {
-                            continue;
-                        }
-
                         info!("Created communication channel ID {:?}", communication_channel_id);
                         let mut connection_data = connection_data.lock().await;
                         *connection_data = Some(ConnectionData::from_connection_response(connection));
@@ -123,15 +107,39 @@ impl UdpMonitorTransport {
                     // One receiver for the whole life of the tunnel: a heart beat must not
                     // interrupt it between two steps
                     //
-                    let communication_channel_id = match connection_data.lock().await.as_ref() {
-                        Some(data) => data.communication_channel_id,
+                    let (communication_channel_id, acks_tx) = match connection_data.lock().await.as_ref() {
+                        Some(data) => (data.communication_channel_id, data.acks_tx.clone()),
                         None => continue,
                     };
-                    let receiver = handle_recv_from_knx_device(socket.clone(), communication_channel_id, from_knx_tx.clone());
+                    let receiver = handle_recv_from_knx_device(socket.clone(), communication_channel_id, acks_tx.clone(), from_knx_tx.clone());
                     tokio::pin!(receiver);
 
+                    let mut to_enable = std::mem::replace(&mut has_feature_service, true);
+                    let mut busmonitor = tokio::spawn({
+                        let socket = socket.clone();
+                        let connection_data = connection_data.clone();
+                        async move {
+                            if to_enable {
+                                enable_busmonitor(&socket, &connection_data).await?;
+                            }
+                            TransportResult::Ok(())
+                        }
+                    });
+
                     loop {
                         tokio::select! {
+                            resp = &mut busmonitor, if to_enable => {
+                                to_enable = false;
+                                if !matches!(resp, Ok(Ok(()))) {
+                                    warn!("Unable to enable the info service {:?}", resp);
+                                    has_feature_service = false;
+                                    break;
+                                }
+                            }
+                            _ = acks_tx.closed() => {
+                                info!("KNXIP device does not acknowledge our requests");
+                                break;
+                            }
                             resp = &mut receiver => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
@@ -195,45 +203,32 @@ impl UdpMonitorTransport {
         }
     }
 
-    async fn get_next_sequence_nr(&self) -> Result<u8, Whatever> {
-        match self.connection_data.lock().await.as_mut() {
-            Some(data) => {
-                let num = data.sequence_nr;
-                data.sequence_nr = data.sequence_nr.wrapping_add(1);
-                Ok(num)
-            }
-            None => whatever!("Disconnected from knx device, NR"),
-        }
-    }
-
     pub async fn is_connected(&self) -> bool {
         self.connection_data.lock().await.is_some()
     }
 
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let req = FeatureSet::new(self.communication_channel_id().await?, sequence_nr, feature, value);
-        debug!("FeatureSet request {:?}", req);
-        let req = req.packet();
-        debug!("Raw tunnel request: {:02x?}", req);
-        if let Err(e) = self.socket.send(&req).await {
-            whatever!("Unable to send request {:?}", e);
-        }
-        Ok(())
+        send_numbered(&self.socket, &self.connection_data, |communication_channel_id, sequence_nr| {
+            let req = FeatureSet::new(communication_channel_id, sequence_nr, feature, value);
+            debug!("FeatureSet request {:?}", req);
+            let req = req.packet();
+            debug!("Raw tunnel request: {:02x?}", req);
+            req
+        })
+        .await
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(self.communication_channel_id().await?, sequence_nr, req);
-        debug!("TunnelingRequest {:?}", tunneled_req);
-        let req = tunneled_req.packet();
-        debug!("======================");
-        debug!("[OUT] Raw tunnel request: {:02x?}", req);
-        debug!("======================");
-        if let Err(e) = self.socket.send(&req).await {
-            whatever!("Unable to send request {:?}", e);
-        }
-        Ok(())
+        send_numbered(&self.socket, &self.connection_data, |communication_channel_id, sequence_nr| {
+            let tunneled_req = TunnelingRequest::new(communication_channel_id, sequence_nr, req.clone());
+            debug!("TunnelingRequest {:?}", tunneled_req);
+            let req = tunneled_req.packet();
+            debug!("======================");
+            debug!("[OUT] Raw tunnel request: {:02x?}", req);
+            debug!("======================");
+            req
+        })
+        .await
     }
 
     pub async fn disconnect(&self) -> Result<u8, Whatever> {
@@ -256,13 +251,16 @@ impl UdpMonitorTransport {
     }
 }
 
-async fn enable_busmonitor(socket: &Arc<MyUdpSocket>, communication_channel_id: u8) -> Result<usize, Whatever> {
-    let sequence_nr = 0;
-    let req = FeatureSet::new(communication_channel_id, sequence_nr, KnxIpFeature::InfoServiceEnable, 1);
-    debug!("FeatureSet request {:?}", req);
-    let req = req.packet();
-    debug!("Raw tunnel request: {:02x?}", req);
-    socket.send(&req).await.with_whatever_context(|e| format!("Unable to send request {:?}", e))
+async fn enable_busmonitor(socket: &MyUdpSocket, connection_data: &Mutex<Option<ConnectionData>>) -> TransportResult<()> {
+    send_numbered(socket, connection_data, |communication_channel_id, sequence_nr| {
+        let req = FeatureSet::new(communication_channel_id, sequence_nr, KnxIpFeature::InfoServiceEnable, 1);
+        debug!("FeatureSet request {:?}", req);
+        let req = req.packet();
+        debug!("Raw tunnel request: {:02x?}", req);
+        req
+    })
+    .await?;
+    Ok(())
 }
 
 pub struct UdpMonitor {
-- 
2.43.0


From d10889241345766fd31c32efd6b155276dc461bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:08 +0000
Subject: [PATCH 16/26] fix: reject a description block that is shorter than
 its header

---
 src/packets/core.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index fda7f69..4dcbc37 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1075,6 +1075,7 @@ impl SupportedServiceFamiliesDIB {
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
+        ensure_whatever!(structure_length >= 2, "Structure length should be at least 2 instead of {}", structure_length);
         let mut service_families = Vec::new();
         for _ in 0..(structure_length - 2) / 2 {
             // -2 because of length and type
@@ -1236,6 +1237,7 @@ impl KNXAddressesDIB {
             .read_exact(&mut knx_individual_address)
             .whatever_context("Unable to read knx individual address")?;
 
+        ensure_whatever!(structure_length >= 4, "Structure length should be at least 4 instead of {}", structure_length);
         let mut additional_individual_addresses = Vec::new();
 
         for _ in 0..(structure_length - 4) / 2 {
-- 
2.43.0


From e70a67d32ac39aeab833e46e6ee332a033256666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:09 +0000
Subject: [PATCH 17/26] fix: medium code of a powerline device

PL110 is 0x04 (03_08_02 Core section 7.5.4.2), 0x03 is not assigned: the
search refused the answers of powerline devices.
---
 src/packets/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 4dcbc37..767cde2 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -901,7 +901,7 @@ impl DIB {
 #[non_exhaustive]
 pub enum KnxMedium {
     TP1 = 0x02,
-    PL110 = 0x03,
+    PL110 = 0x04,
     RF = 0x10,
     IP = 0x20,
 }
@@ -912,7 +912,7 @@ impl TryFrom<u8> for KnxMedium {
     fn try_from(value: u8) -> Result<Self, Self::Error> {
         match value {
             0x02 => Ok(Self::TP1),
-            0x03 => Ok(Self::PL110),
+            0x04 => Ok(Self::PL110),
             0x10 => Ok(Self::RF),
             0x20 => Ok(Self::IP),
             _ => whatever!("Unknown KnxMedium {}", value),
-- 
2.43.0


From 8ef6f97fc05816411383c50798e086fa450af276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:10 +0000
Subject: [PATCH 18/26] fix: main group of a two level address has five bits

1/5 was sent to 0/1/5 instead of group 1 (03_03_02 section 1.4).
---
 src/packets/addresses.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/addresses.rs b/src/packets/addresses.rs
index 6676108..c7762cb 100644
--- a/src/packets/addresses.rs
+++ b/src/packets/addresses.rs
@@ -219,7 +219,7 @@ impl fmt::Debug for Group2LevelAddress {
 impl Group2LevelAddress {
     pub fn to_u16(&self) -> u16 {
         let mut addr = 0u16;
-        addr |= (self.main as u16) << 8_u16;
+        addr |= (self.main as u16) << 11_u16;
         addr |= (self.sub) as u16;
 
         addr
-- 
2.43.0


From 9aa9d6849db9bba09bdd7e4dd529c54e697b1ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:31 +0000
Subject: [PATCH 19/26] fix: a search returns every device that answers in time

Any other datagram made it fail, every answer prolonged it, answers longer
than 100 bytes were cut and a failing send was a panic.
---
 src/transport/udp.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 66553f4..256f29d 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -330,31 +330,38 @@ impl UdpTransport {
 
         let req = SearchRequest::udp_unicast(local_addr).packet();
         debug!("Sending search request {:0x?}", req);
-        socket
-            .send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT))
-            .await
-            .expect("Unable to send request");
+        if let Err(e) = socket.send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT)).await {
+            whatever!("Unable to send request {:?}", e);
+        }
 
-        let mut buffer = vec![0; 100];
+        let mut buffer = vec![0; MAX_DATAGRAM_SIZE];
         let mut responses = Vec::new();
+        // One timeout for the whole search, not a new one after each response
+        //
+        let end_of_search = sleep(timeout);
+        tokio::pin!(end_of_search);
 
         loop {
             select! {
                 n_bytes = socket.recv(&mut buffer) => {
                     match n_bytes {
-                        Ok(_n_bytes) => {
-                            debug!("Search response {:0x?}", buffer);
-                            let mut cursor = Cursor::new(buffer.as_slice());
-                            let resp = SearchResponse::from_packet(&mut cursor)?;
-                            debug!("Parsed search response {:0x?}", resp);
-                            responses.push(resp);
+                        Ok(n_bytes) => {
+                            debug!("Search response {:0x?}", &buffer[..n_bytes]);
+                            let mut cursor = Cursor::new(&buffer[..n_bytes]);
+                            match SearchResponse::from_packet(&mut cursor) {
+                                Ok(resp) => {
+                                    debug!("Parsed search response {:0x?}", resp);
+                                    responses.push(resp);
+                                }
+                                Err(e) => warn!("Ignore unexpected datagram {:?}", e),
+                            }
                         },
                         Err(e) => {
                             whatever!("Unable to get response {:?}", e);
                         }
                     }
                 },
-                _ = tokio::time::sleep(timeout) => {
+                _ = &mut end_of_search => {
                      debug!("Search timeout received {} responses", responses.len());
                      break;
                 }
-- 
2.43.0


From 296fb03b1ffff05329914c7e0bae880e68ceca44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:31 +0000
Subject: [PATCH 20/26] fix: disconnect and connection status get the answer of
 the device

Both read the socket, or the queue of telegrams, next to the receive task:
they took whatever came first for the answer, stole datagrams from the
receive task or never ended. The receive task hands the answers over. After
a disconnect there is no connection any more.
---
 src/transport/udp.rs         | 119 ++++++++++++++++++++++++++++-------
 src/transport/udp_monitor.rs |  20 +++---
 2 files changed, 107 insertions(+), 32 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 256f29d..d712bd1 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -1,6 +1,7 @@
 use crate::packets::core::{SearchRequest, SearchResponse, DISCOVERY_ENDPOINT_PORT, SYSTEM_MULTICAST_ADDRESS};
 use crate::packets::tunneling::{FeatureInfo, FeatureResp, FeatureSet};
 use crate::transport;
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 use std::time::Duration;
 use std::{io::Cursor, net::SocketAddr};
@@ -30,6 +31,78 @@ const MAX_DATAGRAM_SIZE: usize = 1024;
 /// 03_08_04 Tunneling section 2.6
 const ACK_TIMEOUT: Duration = Duration::from_secs(1);
 
+/// How long the KNXIP device has to answer a connection state or a disconnect request
+/// 03_08_02 Core section 5.4 and 5.5
+const CONTROL_TIMEOUT: Duration = Duration::from_secs(10);
+
+/// Hands the answers to connection state and disconnect requests over to the caller
+pub(crate) struct Control {
+    answers_tx: mpsc::Sender<TunnelingResponse>,
+    answers: Mutex<mpsc::Receiver<TunnelingResponse>>,
+    disconnecting: AtomicBool,
+}
+
+impl Control {
+    pub(crate) fn new() -> Self {
+        let (answers_tx, answers) = mpsc::channel(10);
+        Self {
+            answers_tx,
+            answers: Mutex::new(answers),
+            disconnecting: AtomicBool::new(false),
+        }
+    }
+
+    fn answered(&self, answer: TunnelingResponse) {
+        // Nobody waits for the answer to a heart beat
+        //
+        let _ = self.answers_tx.try_send(answer);
+    }
+
+    async fn request<T>(&self, socket: &MyUdpSocket, req: Vec<u8>, pick: impl Fn(TunnelingResponse) -> Option<T>) -> Result<T, Whatever> {
+        let mut answers = self.answers.lock().await;
+        while answers.try_recv().is_ok() {}
+        if let Err(e) = socket.send(&req).await {
+            whatever!("Unable to send request {:?}", e);
+        }
+        let deadline = Instant::now() + CONTROL_TIMEOUT;
+        loop {
+            match timeout_at(deadline, answers.recv()).await {
+                Ok(Some(answer)) => {
+                    if let Some(answer) = pick(answer) {
+                        return Ok(answer);
+                    }
+                }
+                Ok(None) => whatever!("Transport closed before the answer"),
+                Err(_) => whatever!("KNX device did not answer"),
+            }
+        }
+    }
+
+    pub(crate) async fn connectionstate(&self, socket: &MyUdpSocket, req: ConnectionstateRequest) -> Result<ConnectionstateResponse, Whatever> {
+        let communication_channel_id = req.communication_channel_id;
+        self.request(socket, req.packet(), |answer| match answer {
+            TunnelingResponse::ConnectionstateResponse(resp) if resp.communication_channel_id == communication_channel_id => Some(resp),
+            _ => None,
+        })
+        .await
+    }
+
+    pub(crate) async fn disconnect(&self, socket: &MyUdpSocket, req: DisconnectRequest) -> Result<DisconnectResponse, Whatever> {
+        let communication_channel_id = req.get_communication_channel_id();
+        self.disconnecting.store(true, Ordering::SeqCst);
+        let resp = self
+            .request(socket, req.packet(), |answer| match answer {
+                TunnelingResponse::DisconnectResponse(resp) if resp.communication_channel_id == communication_channel_id => Some(resp),
+                _ => None,
+            })
+            .await;
+        if resp.is_err() {
+            self.disconnecting.store(false, Ordering::SeqCst);
+        }
+        resp
+    }
+}
+
 pub(crate) struct ConnectionData {
     pub(crate) communication_channel_id: u8,
     pub(crate) control_endpoint: HPAI,
@@ -142,6 +215,7 @@ impl TunnelingResponse {
 
 struct UdpTransport {
     socket: Arc<MyUdpSocket>,
+    control: Arc<Control>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
     rx: Arc<Mutex<mpsc::Receiver<CEMI>>>,
 }
@@ -164,9 +238,11 @@ impl UdpTransport {
         let connection_data: Arc<Mutex<Option<ConnectionData>>> = Arc::new(Mutex::new(None));
 
         let (from_knx_tx, rx) = mpsc::channel(100);
+        let control = Arc::new(Control::new());
 
         tokio::spawn({
             let socket = socket.clone();
+            let control = control.clone();
             let connection_data = connection_data.clone();
 
             async move {
@@ -199,7 +275,7 @@ impl UdpTransport {
                         Some(data) => (data.communication_channel_id, data.acks_tx.clone()),
                         None => continue,
                     };
-                    let receiver = handle_recv_from_knx_device(socket.clone(), communication_channel_id, acks_tx.clone(), from_knx_tx.clone());
+                    let receiver = handle_recv_from_knx_device(socket.clone(), communication_channel_id, acks_tx.clone(), control.clone(), from_knx_tx.clone());
                     tokio::pin!(receiver);
 
                     'recv: loop {
@@ -239,12 +315,14 @@ impl UdpTransport {
                     let mut data = connection_data.lock().await;
                     *data = None;
                 }
+                *connection_data.lock().await = None;
                 debug!("UpdTransport receive task exited");
             }
         });
 
         Ok(Self {
             socket,
+            control,
             connection_data,
             rx: Arc::new(Mutex::new(rx)),
         })
@@ -266,17 +344,9 @@ impl UdpTransport {
 
     pub async fn get_connectionstate(&self) -> TransportResult<ConnectionstateResponse> {
         let req = ConnectionstateRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?);
-        if let Err(e) = self.socket.send(&req.packet()).await {
-            whatever!("Unable to send connection state request {:?}", e);
-        };
-
-        let mut resp = vec![0; 100];
-        if let Err(e) = self.socket.recv(&mut resp).await {
-            whatever!("Connectionstate not responded {:?}", e);
-        }
+        let resp = self.control.connectionstate(&self.socket, req).await?;
         debug!("Connectiostate response {:0x?}", resp);
-        let mut cursor = Cursor::new(resp.as_slice());
-        Ok(ConnectionstateResponse::from_packet(&mut cursor)?)
+        Ok(resp)
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
@@ -304,15 +374,12 @@ impl UdpTransport {
     }
 
     pub async fn disconnect(&self) -> Result<(), Whatever> {
-        let req = DisconnectRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?).packet();
-        debug!("Request disconnect for connection {}", self.get_communication_channel_id().await?);
-        self.socket.send(&req).await.expect("Unable to send request");
-
-        let mut rx = self.rx.lock().await;
-        match rx.recv().await {
-            Some(_resp) => Ok(()),
-            None => whatever!("Transport closed before disconnection response"),
-        }
+        let req = DisconnectRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?);
+        debug!("Request disconnect for connection {}", req.get_communication_channel_id());
+        let resp = self.control.disconnect(&self.socket, req).await?;
+        debug!("Disconnect response {:?}", resp);
+        *self.connection_data.lock().await = None;
+        Ok(())
     }
 
     pub async fn search(timeout: Duration) -> Result<Vec<SearchResponse>, Whatever> {
@@ -545,6 +612,7 @@ pub(crate) async fn handle_recv_from_knx_device(
     socket: Arc<MyUdpSocket>,
     communication_channel_id: u8,
     acks_tx: Sender<TunnelingAck>,
+    control: Arc<Control>,
     from_knx_tx: Sender<CEMI>,
 ) -> TransportResult<String> {
     // Sequence number of the next request of the KNXIP device
@@ -630,17 +698,24 @@ pub(crate) async fn handle_recv_from_knx_device(
                     expected_sequence_nr = expected_sequence_nr.wrapping_add(1);
                 }
                 TunnelingResponse::ConnectionstateResponse(resp) => {
-                    if resp.status != 0 {
-                        warn!("Connection state response with error {}", resp.status);
+                    let status = resp.status;
+                    control.answered(TunnelingResponse::ConnectionstateResponse(resp));
+                    if status != 0 {
+                        warn!("Connection state response with error {}", status);
                         whatever!("KNX device signaled a connection state error");
                     }
                 }
                 TunnelingResponse::DisconnectResponse(resp) => {
+                    if !control.disconnecting.load(Ordering::SeqCst) {
+                        warn!("Ignore a disconnect response nobody asked for {:?}", resp);
+                        continue;
+                    }
                     if resp.status == 0 {
                         info!("Successfully disconnected");
                     } else {
                         warn!("Unable to disconnect, status code {:?}", resp);
                     }
+                    control.answered(TunnelingResponse::DisconnectResponse(resp));
                     break Ok("KNX device disconnected by our will".into());
                 }
                 TunnelingResponse::DisconnectRequest(req) => {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index ba85280..a0a079d 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -3,7 +3,6 @@ use crate::packets::addresses::KnxAddress;
 use crate::packets::apdu::APDU;
 use crate::packets::core::ConnectionstateRequest;
 use crate::packets::core::DisconnectRequest;
-use crate::packets::core::DisconnectResponse;
 use crate::packets::core::HPAI;
 use crate::packets::emi::CEMIMessageCode;
 use crate::packets::emi::LDataCon;
@@ -18,6 +17,7 @@ use crate::transport::udp::connect;
 use crate::transport::udp::handle_recv_from_knx_device;
 use crate::transport::udp::send_numbered;
 use crate::transport::udp::ConnectionData;
+use crate::transport::udp::Control;
 use crate::transport::udp::MyUdpSocket;
 use log::debug;
 use log::info;
@@ -26,7 +26,6 @@ use snafu::whatever;
 use snafu::ResultExt;
 use snafu::Whatever;
 use std::fmt::Debug;
-use std::io::Cursor;
 use std::net::SocketAddr;
 use std::sync::Arc;
 use std::time::Duration;
@@ -40,6 +39,7 @@ struct UdpMonitorTransport {
     socket: Arc<MyUdpSocket>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
     rx: Arc<Mutex<mpsc::Receiver<CEMI>>>,
+    control: Arc<Control>,
     on_connection: Arc<Mutex<Vec<mpsc::Sender<()>>>>,
 }
 
@@ -61,10 +61,12 @@ impl UdpMonitorTransport {
         let connection_data: Arc<Mutex<Option<ConnectionData>>> = Arc::new(Mutex::new(None));
 
         let (from_knx_tx, rx) = mpsc::channel(100);
+        let control = Arc::new(Control::new());
         let on_connection = Arc::new(Mutex::new(Vec::<mpsc::Sender<()>>::new()));
 
         tokio::spawn({
             let socket = socket.clone();
+            let control = control.clone();
             let connection_data = connection_data.clone();
             let on_connection = on_connection.clone();
 
@@ -111,7 +113,7 @@ impl UdpMonitorTransport {
                         Some(data) => (data.communication_channel_id, data.acks_tx.clone()),
                         None => continue,
                     };
-                    let receiver = handle_recv_from_knx_device(socket.clone(), communication_channel_id, acks_tx.clone(), from_knx_tx.clone());
+                    let receiver = handle_recv_from_knx_device(socket.clone(), communication_channel_id, acks_tx.clone(), control.clone(), from_knx_tx.clone());
                     tokio::pin!(receiver);
 
                     let mut to_enable = std::mem::replace(&mut has_feature_service, true);
@@ -173,6 +175,7 @@ impl UdpMonitorTransport {
                     let mut data = connection_data.lock().await;
                     *data = None;
                 }
+                *connection_data.lock().await = None;
                 debug!("UpdTransport receive task ended");
             }
         });
@@ -181,6 +184,7 @@ impl UdpMonitorTransport {
             socket,
             connection_data,
             rx: Arc::new(Mutex::new(rx)),
+            control,
             on_connection,
         })
     }
@@ -233,17 +237,13 @@ impl UdpMonitorTransport {
 
     pub async fn disconnect(&self) -> Result<u8, Whatever> {
         let communication_channel_id = self.communication_channel_id().await?;
-        let req = DisconnectRequest::new(communication_channel_id, self.control_endpoint().await?).packet();
+        let req = DisconnectRequest::new(communication_channel_id, self.control_endpoint().await?);
         debug!("Request disconnect for connection {}", communication_channel_id);
-        self.socket.send(&req).await.expect("Unable to send request");
 
-        let mut resp = vec![0; 100];
-        self.socket.recv(&mut resp).await.expect("Unable to get response");
-        let mut resp_cursor = Cursor::new(resp.as_slice());
-
-        match DisconnectResponse::from_packet(&mut resp_cursor) {
+        match self.control.disconnect(&self.socket, req).await {
             Ok(resp) => {
                 debug!("Disconnect response status {}", resp.status);
+                *self.connection_data.lock().await = None;
                 Ok(resp.status)
             }
             Err(e) => whatever!("Unable to request disconnection for id {}, {:?}", communication_channel_id, e),
-- 
2.43.0


From da047b1eef169a370acb88ac378263312958c075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:10 +0000
Subject: [PATCH 21/26] fix: unread telegrams do not block the receive task

With 100 telegrams unread the receive task waited for the application: no
acknowledgement, no answer and no disconnect of the device got through. A
client, which looks at telegrams only during a call, drops them; a monitor
leaves them unacknowledged for the device to repeat.
---
 src/transport/udp.rs         | 26 +++++++++++++++++++++-----
 src/transport/udp_monitor.rs |  2 +-
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index d712bd1..40bab2a 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -5,6 +5,7 @@ use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 use std::time::Duration;
 use std::{io::Cursor, net::SocketAddr};
+use tokio::sync::mpsc::error::TrySendError;
 use tokio::sync::mpsc::Sender;
 use tokio::time::{interval, sleep, timeout, timeout_at, Instant};
 use tokio::{io, select};
@@ -275,7 +276,7 @@ impl UdpTransport {
                         Some(data) => (data.communication_channel_id, data.acks_tx.clone()),
                         None => continue,
                     };
-                    let receiver = handle_recv_from_knx_device(socket.clone(), communication_channel_id, acks_tx.clone(), control.clone(), from_knx_tx.clone());
+                    let receiver = handle_recv_from_knx_device(socket.clone(), communication_channel_id, acks_tx.clone(), control.clone(), from_knx_tx.clone(), false);
                     tokio::pin!(receiver);
 
                     'recv: loop {
@@ -614,6 +615,7 @@ pub(crate) async fn handle_recv_from_knx_device(
     acks_tx: Sender<TunnelingAck>,
     control: Arc<Control>,
     from_knx_tx: Sender<CEMI>,
+    keep_unread: bool,
 ) -> TransportResult<String> {
     // Sequence number of the next request of the KNXIP device
     // 03_08_04 Tunneling section 2.6
@@ -656,6 +658,21 @@ pub(crate) async fn handle_recv_from_knx_device(
 
             match resp {
                 TunnelingResponse::TunnelingRequest(req) => {
+                    // Nothing else would be received while waiting for the telegrams to be read
+                    //
+                    let permit = match from_knx_tx.try_reserve() {
+                        Ok(permit) => Some(permit),
+                        Err(TrySendError::Full(())) if keep_unread => {
+                            warn!("Too many unread telegrams, leave request {} to be repeated", req.sequence_nr);
+                            continue;
+                        }
+                        Err(TrySendError::Full(())) => {
+                            debug!("Too many unread telegrams, drop request {}", req.sequence_nr);
+                            None
+                        }
+                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
+                    };
+
                     let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                     if let Err(e) = socket.send(&ack.packet()).await {
                         whatever!("Unable to send tunneling ack to knxip target {:?}", e);
@@ -671,10 +688,9 @@ pub(crate) async fn handle_recv_from_knx_device(
                             continue;
                         }
                     };
-                    match from_knx_tx.send(cemi).await {
-                        Ok(_) => (),
-                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
-                    };
+                    if let Some(permit) = permit {
+                        permit.send(cemi);
+                    }
                 }
                 TunnelingResponse::TunnelingAck(ack) => {
                     if let Err(e) = acks_tx.try_send(ack) {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index a0a079d..af083ef 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -113,7 +113,7 @@ impl UdpMonitorTransport {
                         Some(data) => (data.communication_channel_id, data.acks_tx.clone()),
                         None => continue,
                     };
-                    let receiver = handle_recv_from_knx_device(socket.clone(), communication_channel_id, acks_tx.clone(), control.clone(), from_knx_tx.clone());
+                    let receiver = handle_recv_from_knx_device(socket.clone(), communication_channel_id, acks_tx.clone(), control.clone(), from_knx_tx.clone(), true);
                     tokio::pin!(receiver);
 
                     let mut to_enable = std::mem::replace(&mut has_feature_service, true);
-- 
2.43.0


From c14960745109fabe61ff4d442d3bad14a736970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:21 +0000
Subject: [PATCH 22/26] fix: a slow connection listener does not stop the
 monitor

---
 src/transport/udp_monitor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index af083ef..4461504 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -31,6 +31,7 @@ use std::sync::Arc;
 use std::time::Duration;
 use tokio::net::ToSocketAddrs;
 use tokio::net::UdpSocket;
+use tokio::sync::mpsc::error::TrySendError;
 use tokio::sync::{mpsc, Mutex};
 use tokio::time::interval;
 use tracing::instrument;
@@ -96,10 +97,12 @@ impl UdpMonitorTransport {
                         let mut connection_data = connection_data.lock().await;
                         *connection_data = Some(ConnectionData::from_connection_response(connection));
 
+                        // A listener that does not keep up must not stop the connection
+                        //
                         let mut active_on_connection = Vec::new();
                         let mut on_connection = on_connection.lock().await;
                         for tx in on_connection.iter() {
-                            if tx.send(()).await.is_ok() {
+                            if !matches!(tx.try_send(()), Err(TrySendError::Closed(()))) {
                                 active_on_connection.push(tx.clone());
                             }
                         }
-- 
2.43.0


From 44ae9473d8fe8e103ac924c026fd5d0ac146677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:52 +0000
Subject: [PATCH 23/26] fix: a dropped client or monitor gives its connection
 back

The background task went on for ever: it kept the socket, the tunnel of the
device and its heart beats.
---
 src/transport/udp.rs         | 17 ++++++++++++++++-
 src/transport/udp_monitor.rs | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 40bab2a..d7130d3 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -261,7 +261,10 @@ impl UdpTransport {
                     //
                     if connection_data.lock().await.is_none() {
                         info!("No valid connection with KNXIP device, create it");
-                        let connection = connect(socket.clone()).await;
+                        let connection = tokio::select! {
+                            connection = connect(socket.clone()) => connection,
+                            _ = from_knx_tx.closed() => break 'main,
+                        };
                         let communication_channel_id = connection.get_communication_channel_id();
 
                         info!("Created communication channel ID {:?}", communication_channel_id);
@@ -290,6 +293,7 @@ impl UdpTransport {
                                     break 'recv;
                                 }
                             },
+                            _ = from_knx_tx.closed() => break 'recv,
                             _ = acks_tx.closed() => {
                                 info!("KNXIP device does not acknowledge our requests");
                                 break 'recv;
@@ -314,6 +318,17 @@ impl UdpTransport {
                     }
 
                     let mut data = connection_data.lock().await;
+                    if from_knx_tx.is_closed() {
+                        // Nobody uses this transport any more, give the connection back
+                        //
+                        if let Some(data) = data.take() {
+                            let req = DisconnectRequest::new(data.communication_channel_id, data.control_endpoint);
+                            if let Err(e) = socket.send(&req.packet()).await {
+                                warn!("Unable to send disconnect request {:?}", e);
+                            }
+                        }
+                        break 'main;
+                    }
                     *data = None;
                 }
                 *connection_data.lock().await = None;
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 4461504..c08e1d9 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -90,7 +90,10 @@ impl UdpMonitorTransport {
                     //
                     if connection_data.lock().await.is_none() {
                         info!("No valid connection with KNXIP device, create it");
-                        let connection = connect(socket.clone()).await;
+                        let connection = tokio::select! {
+                            connection = connect(socket.clone()) => connection,
+                            _ = from_knx_tx.closed() => break 'main,
+                        };
                         let communication_channel_id = connection.get_communication_channel_id();
 
                         info!("Created communication channel ID {:?}", communication_channel_id);
@@ -141,6 +144,7 @@ impl UdpMonitorTransport {
                                     break;
                                 }
                             }
+                            _ = from_knx_tx.closed() => break,
                             _ = acks_tx.closed() => {
                                 info!("KNXIP device does not acknowledge our requests");
                                 break;
@@ -176,6 +180,17 @@ impl UdpMonitorTransport {
                     }
 
                     let mut data = connection_data.lock().await;
+                    if from_knx_tx.is_closed() {
+                        // Nobody uses this transport any more, give the connection back
+                        //
+                        if let Some(data) = data.take() {
+                            let req = DisconnectRequest::new(data.communication_channel_id, data.control_endpoint);
+                            if let Err(e) = socket.send(&req.packet()).await {
+                                warn!("Unable to send disconnect request {:?}", e);
+                            }
+                        }
+                        break 'main;
+                    }
                     *data = None;
                 }
                 *connection_data.lock().await = None;
-- 
2.43.0


From 4c418696402f37cef79a9e7b336a94a2d72e5d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:30 +0000
Subject: [PATCH 24/26] fix: refuse to write a value that cannot be encoded

An empty small value was a panic, a value of more than 253 bytes went out
with a wrong length.
---
 src/transport/udp.rs         | 12 ++++++++++++
 src/transport/udp_monitor.rs |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index d7130d3..52cab31 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -507,6 +507,17 @@ pub fn parse_response(resp: Vec<u8>) -> Result<TunnelingResponse, Whatever> {
     }
 }
 
+/// The length of a value has one byte and counts one byte of APCI
+/// 03_06_03 EMI IMI section 4.1.5.3.3
+pub(crate) fn verify_value(value: &[u8], small: bool) -> Result<(), Whatever> {
+    if small {
+        ensure_whatever!(!value.is_empty(), "A small value should have one byte");
+    } else {
+        ensure_whatever!(value.len() <= 253, "A value should have at most 253 bytes instead of {}", value.len());
+    }
+    Ok(())
+}
+
 // Connects to KNXIP device
 //
 pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {
@@ -842,6 +853,7 @@ impl UdpClient {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        verify_value(&value, small)?;
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
         let req = LDataReqMessage::new(addr, tpdu);
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index c08e1d9..3b08d62 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -16,6 +16,7 @@ use crate::packets::tunneling::TunnelingRequest;
 use crate::transport::udp::connect;
 use crate::transport::udp::handle_recv_from_knx_device;
 use crate::transport::udp::send_numbered;
+use crate::transport::udp::verify_value;
 use crate::transport::udp::ConnectionData;
 use crate::transport::udp::Control;
 use crate::transport::udp::MyUdpSocket;
@@ -364,6 +365,7 @@ impl UdpMonitor {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        verify_value(&value, small)?;
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
         let req = LDataReqMessage::new(addr, tpdu);
-- 
2.43.0


From d67dd27238ef04c8f2923a04a015519ad7eef5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:41 +0000
Subject: [PATCH 25/26] fix: send a long value in an extended frame

A standard frame carries at most 15 octets (03_02_02 section 2.2.4).
---
 src/packets/emi.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index 49282e6..3446b17 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -174,8 +174,12 @@ impl LDataReqMessage {
     }
 
     pub fn packet(&self) -> Vec<u8> {
+        let mut tpdu_packet = self.tpdu.packet();
+
         let mut control = 0u8;
-        control |= 1 << 7; // Frame type standard
+        if tpdu_packet.len() <= 16 {
+            control |= 1 << 7; // Frame type standard, extended for more than 15 octets
+        }
         control |= 1 << 5; // No repetition on error
         control |= 1 << 4; // Domain broadcast
         control |= (self.priority & 0x3) << 2;
@@ -186,7 +190,6 @@ impl LDataReqMessage {
         // packet.write_u16::<BigEndian>(0).unwrap();
         packet.write_u16::<BigEndian>(self.dest_address.to_u16()).unwrap();
 
-        let mut tpdu_packet = self.tpdu.packet();
         packet.write_u8(tpdu_packet.len() as u8 - 1).unwrap(); // Count of APCI values
         packet.append(&mut tpdu_packet);
 
-- 
2.43.0


From 5235127c8efd52fed785e033a29f64dcf570b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:51 +0000
Subject: [PATCH 26/26] fix: a disconnect answer ends the transport only if it
 is for the channel that was asked to disconnect

---
 src/transport/udp.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 52cab31..a4c02f9 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -1,7 +1,6 @@
 use crate::packets::core::{SearchRequest, SearchResponse, DISCOVERY_ENDPOINT_PORT, SYSTEM_MULTICAST_ADDRESS};
 use crate::packets::tunneling::{FeatureInfo, FeatureResp, FeatureSet};
 use crate::transport;
-use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 use std::time::Duration;
 use std::{io::Cursor, net::SocketAddr};
@@ -40,7 +39,8 @@ const CONTROL_TIMEOUT: Duration = Duration::from_secs(10);
 pub(crate) struct Control {
     answers_tx: mpsc::Sender<TunnelingResponse>,
     answers: Mutex<mpsc::Receiver<TunnelingResponse>>,
-    disconnecting: AtomicBool,
+    /// Channel of the disconnect request that waits for its answer
+    disconnecting: std::sync::Mutex<Option<u8>>,
 }
 
 impl Control {
@@ -49,10 +49,18 @@ impl Control {
         Self {
             answers_tx,
             answers: Mutex::new(answers),
-            disconnecting: AtomicBool::new(false),
+            disconnecting: std::sync::Mutex::new(None),
         }
     }
 
+    fn set_disconnecting(&self, communication_channel_id: Option<u8>) {
+        *self.disconnecting.lock().unwrap() = communication_channel_id;
+    }
+
+    fn is_disconnecting(&self, communication_channel_id: u8) -> bool {
+        *self.disconnecting.lock().unwrap() == Some(communication_channel_id)
+    }
+
     fn answered(&self, answer: TunnelingResponse) {
         // Nobody waits for the answer to a heart beat
         //
@@ -90,7 +98,7 @@ impl Control {
 
     pub(crate) async fn disconnect(&self, socket: &MyUdpSocket, req: DisconnectRequest) -> Result<DisconnectResponse, Whatever> {
         let communication_channel_id = req.get_communication_channel_id();
-        self.disconnecting.store(true, Ordering::SeqCst);
+        self.set_disconnecting(Some(communication_channel_id));
         let resp = self
             .request(socket, req.packet(), |answer| match answer {
                 TunnelingResponse::DisconnectResponse(resp) if resp.communication_channel_id == communication_channel_id => Some(resp),
@@ -98,7 +106,7 @@ impl Control {
             })
             .await;
         if resp.is_err() {
-            self.disconnecting.store(false, Ordering::SeqCst);
+            self.set_disconnecting(None);
         }
         resp
     }
@@ -748,7 +756,7 @@ pub(crate) async fn handle_recv_from_knx_device(
                     }
                 }
                 TunnelingResponse::DisconnectResponse(resp) => {
-                    if !control.disconnecting.load(Ordering::SeqCst) {
+                    if !control.is_disconnecting(resp.communication_channel_id) {
                         warn!("Ignore a disconnect response nobody asked for {:?}", resp);
                         continue;
                     }
-- 
2.43.0

