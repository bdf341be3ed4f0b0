From bde1f0eec559c40c88aa3da35b99c2cbb96798ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 01/23] fix: stop at the last whole frame of a truncated demo

The size of a frame was compared with the size of the whole demo, not with
what is left after the start of the frame. A demo that ends inside a frame
(the server or the disk went away while recording) made every function that
walks frames slice out of range and panic.
---
 src/qw/frame.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qw/frame.rs b/src/qw/frame.rs
index 8dab71e..2477b13 100644
--- a/src/qw/frame.rs
+++ b/src/qw/frame.rs
@@ -24,7 +24,10 @@ pub struct Info {
 
 impl Info {
     pub fn from_data_and_index(data: &[u8], index: usize) -> Result<Self> {
-        let mut cur = Cursor::new(&data[index..]);
+        let Some(frame_data) = data.get(index..) else {
+            return Err(e!("Frame starts beyond end of data"));
+        };
+        let mut cur = Cursor::new(frame_data);
 
         let duration = cur.read_byte()? as u32;
 
@@ -48,7 +51,7 @@ impl Info {
         let header_size = cur.position() as usize;
         let size = header_size + body_size;
 
-        if data.len() < size {
+        if frame_data.len() < size {
             return Err(e!("Frame is smaller than expected size"));
         }
 
-- 
2.43.0


From eb9f8e8698f4f68a74fdbe7c7a0879f708e1a453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 02/23] fix: do not panic on serverinfo of demos shorter than
 1280 bytes

---
 src/serverinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serverinfo.rs b/src/serverinfo.rs
index 2e29027..8fe3655 100644
--- a/src/serverinfo.rs
+++ b/src/serverinfo.rs
@@ -11,7 +11,7 @@ pub fn serverinfo_string(data: &[u8]) -> Result<String> {
     const MAX_OFFSET: usize = 256;
     const MAX_SIZE: usize = 1024;
     let Some((from, to)) = bytesextra::offsets_between(
-        &data[..MAX_OFFSET + MAX_SIZE],
+        &data[..data.len().min(MAX_OFFSET + MAX_SIZE)],
         br#"fullserverinfo ""#,
         &[b'"'],
     ) else {
-- 
2.43.0


From 78596f7ede981d5ce2467b6d6cd8d8eabe2b2f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 03/23] fix: do not panic when a demo ends inside the
 clientinfo lookahead window

---
 src/clientinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index cfd775e..a204d25 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -24,7 +24,7 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
 
     let mut result: Vec<String> = vec![];
 
-    while let Some(name_offset) = data[offset..offset + MAX_LOOKAHEAD]
+    while let Some(name_offset) = data[offset..data.len().min(offset + MAX_LOOKAHEAD)]
         .find(br#"\name\"#)
         .map(|o| offset + o)
     {
-- 
2.43.0


From 090bb3f5348d9f62a6bca4daa2d3f17adbc0a495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 04/23] fix: report torn ktxstats as an error

A demo that ends inside the ktxstats blocks, a damaged block size, or a
"{"version": " within the first bytes made ktxstats_string panic, and a missing
last block made it return the first part of the document as if it were whole.
---
 src/ktxstats.rs | 23 +++++++++++++++++------
 src/qw/block.rs |  6 +++++-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/ktxstats.rs b/src/ktxstats.rs
index 50f839c..338b264 100644
--- a/src/ktxstats.rs
+++ b/src/ktxstats.rs
@@ -15,20 +15,31 @@ pub fn ktxstats_v3(data: &[u8]) -> Result<KtxstatsV3> {
 pub fn ktxstats_string(data: &[u8]) -> Result<String> {
     const TOTAL_HEADER_SIZE: usize = frame::MULTI_HEADER_SIZE + block::HEADER_SIZE;
 
-    let Some(mut offset) = data.rfind(br#"{"version": "#) else {
+    let Some(mut offset) = data
+        .rfind(br#"{"version": "#)
+        .and_then(|o| o.checked_sub(TOTAL_HEADER_SIZE))
+    else {
         return Err(e!("ktxstats not found"));
     };
-    offset -= TOTAL_HEADER_SIZE;
     let mut content = Vec::new();
 
-    // read blocks
-    while let Ok(info) = block::Info::try_from(&data[offset + frame::MULTI_HEADER_SIZE..]) {
+    // read blocks, number 0 is the last one
+    loop {
+        let Some(header) = data.get(offset + frame::MULTI_HEADER_SIZE..) else {
+            return Err(e!("ktxstats is incomplete"));
+        };
+        let info = block::Info::try_from(header)?;
+
         if info.hidden_message != HiddenMessage::Demoinfo {
-            break;
+            return Err(e!("ktxstats is incomplete"));
         }
 
         offset += TOTAL_HEADER_SIZE;
-        content.extend_from_slice(&data[offset..offset + info.body_size]);
+
+        let Some(body) = data.get(offset..offset + info.body_size) else {
+            return Err(e!("ktxstats is incomplete"));
+        };
+        content.extend_from_slice(body);
 
         if info.number == 0 {
             break;
diff --git a/src/qw/block.rs b/src/qw/block.rs
index db73330..63a7145 100644
--- a/src/qw/block.rs
+++ b/src/qw/block.rs
@@ -1,5 +1,7 @@
 use std::io::Cursor;
 
+use anyhow::anyhow as e;
+
 use crate::qw::primitives::{numsize, ReadPrimitives};
 use crate::qw::prot::HiddenMessage;
 
@@ -19,7 +21,9 @@ impl TryFrom<&[u8]> for Info {
     fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
         let mut cur = Cursor::new(value);
         // exclude block number bytes from size
-        let body_size = cur.read_u32()? as usize - numsize::SHORT;
+        let Some(body_size) = (cur.read_u32()? as usize).checked_sub(numsize::SHORT) else {
+            return Err(e!("Block is smaller than its block number"));
+        };
 
         Ok(Info {
             body_size,
-- 
2.43.0


From ba664a78dbbb97f904d09ab31b48124dd2a11f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 05/23] fix: do not panic on a damaged match duration

A negative or non-finite duration in ktxstats, or a demo in which the last
standby status precedes the matchdate, made match_duration panic.
---
 src/duration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index 9e876ac..d417ee7 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -43,7 +43,7 @@ pub fn match_duration(data: &[u8]) -> Result<Duration> {
 pub fn match_duration_from_seeking(data: &[u8]) -> Result<Duration> {
     let end = demo_duration(data)?;
     let begin = countdown_duration(data).unwrap_or(Duration::ZERO);
-    Ok(end - begin)
+    Ok(end.saturating_sub(begin))
 }
 
 pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
@@ -54,7 +54,7 @@ pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
         return Err(e!("Duration not found in ktxstats"));
     };
     let duration_f: f64 = ktxstats_s[from..to].parse()?;
-    Ok(Duration::from_secs_f64(duration_f))
+    Ok(Duration::try_from_secs_f64(duration_f)?)
 }
 
 fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
-- 
2.43.0


From b33d7b59b1f17f868f56005f00a15589f1fd597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 06/23] fix: add up durations without overflow or rounding

The sum of frame durations was kept in 32 bits (overflow on long or damaged
demos) and went through a 24 bit mantissa, which is off by milliseconds for
recordings of a few hours.
---
 src/duration.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index d417ee7..dfaf37c 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -59,18 +59,18 @@ pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
 
 fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
     let mut index = 0;
-    let mut total_ms: u32 = 0;
+    let mut total_ms: u64 = 0;
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
         if index >= target_offset {
             break;
         }
 
-        total_ms += frame_info.duration;
+        total_ms += u64::from(frame_info.duration);
         index += frame_info.size;
     }
 
-    Duration::from_secs_f32(total_ms as f32 / 1000.0)
+    Duration::from_millis(total_ms)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 25ed9529f5c978b32b5f5d969a67d156eb06873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 07/23] fix: do not panic on a matchdate with multi-byte
 characters

---
 src/matchdate.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/matchdate.rs b/src/matchdate.rs
index 7cd32dd..4ee39cb 100644
--- a/src/matchdate.rs
+++ b/src/matchdate.rs
@@ -18,11 +18,16 @@ pub fn matchdate(data: &[u8]) -> Result<DateTime<Utc>> {
 }
 
 fn replace_tz_abbr_with_offset(timestamp: &str) -> Result<String> {
-    let tz_abbr = &timestamp[DATETIME_LEN + 1..];
+    let (Some(datetime), Some(tz_abbr)) = (
+        timestamp.get(..DATETIME_LEN),
+        timestamp.get(DATETIME_LEN + 1..),
+    ) else {
+        return Err(e!("Invalid matchdate"));
+    };
     let Some(tz_offset) = timezone::utc_offset(tz_abbr) else {
         return Err(e!("Invalid timezone abbreviation"));
     };
-    Ok(format!("{}{}", &timestamp[..DATETIME_LEN], tz_offset))
+    Ok(format!("{}{}", datetime, tz_offset))
 }
 
 pub fn matchdate_string(data: &[u8]) -> Result<String> {
-- 
2.43.0


From 5da357e96d3f4882f143866dfee39bc5847e8d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 08/23] fix: add up pings without overflow

---
 src/ping.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ping.rs b/src/ping.rs
index 2d0fc13..faed447 100644
--- a/src/ping.rs
+++ b/src/ping.rs
@@ -51,7 +51,7 @@ pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
     let mut average_ping: HashMap<u8, u32> = HashMap::new();
 
     for (pnum, pings) in total_pings.iter() {
-        let pings_sum = pings.iter().sum::<u16>();
+        let pings_sum = pings.iter().map(|p| u64::from(*p)).sum::<u64>();
         let avg_ping = (pings_sum as f32 / pings.len() as f32) as u32;
         average_ping.insert(*pnum, avg_ping);
     }
-- 
2.43.0


From aacc83a249bd8ea55c8dd436912fef81050caad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 09/23] fix: do not overflow team totals on extreme player
 stats

A negative ping in ktxstats became a ping of four billion, and two of those, or
two players with damaged frag counts, overflowed the sum of the team. The colour
count overflowed at 256 players.
---
 src/player.rs | 2 +-
 src/team.rs   | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/player.rs b/src/player.rs
index a89465b..67c3fc2 100644
--- a/src/player.rs
+++ b/src/player.rs
@@ -26,7 +26,7 @@ impl From<&ktxstats::v3::Player> for Player {
             team: player.team.clone(),
             color: [player.top_color as u8, player.bottom_color as u8],
             frags: player.stats.frags,
-            ping: player.ping as u32,
+            ping: player.ping.max(0) as u32,
             is_bot: player.bot.is_some() || player.ping == BOT_PING,
             auth_username,
             auth_cc: None,
diff --git a/src/team.rs b/src/team.rs
index dbb4d18..c3654d3 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -24,14 +24,15 @@ impl From<&[Player]> for Team {
             ping: 0,
             color: [0, 0],
         };
+        let mut total_ping: u64 = 0;
 
         for player in players.iter() {
             team.players.push(player.clone());
-            team.frags += player.frags;
-            team.ping += player.ping;
+            team.frags = team.frags.saturating_add(player.frags);
+            total_ping += u64::from(player.ping);
         }
 
-        team.ping = (team.ping as f32 / team.players.len() as f32).round() as u32;
+        team.ping = (total_ping as f32 / team.players.len() as f32).round() as u32;
         let player_colors: Vec<[u8; 2]> = team.players.iter().map(|p| p.color).collect();
         team.color = majority_color(&player_colors).unwrap_or(players[0].color);
 
@@ -64,7 +65,7 @@ fn majority_color(colors: &[[u8; 2]]) -> Option<[u8; 2]> {
         _ => {}
     };
 
-    let mut color_count: HashMap<[u8; 2], u8> = HashMap::new();
+    let mut color_count: HashMap<[u8; 2], usize> = HashMap::new();
     for color in colors.iter() {
         let count = color_count.entry(*color).or_insert(0);
         *count += 1;
-- 
2.43.0


From 83efa94e294fb31062ad5e543027fdbe3442f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 10/23] fix: do not let hash order decide team colors and the
 order of equals

The color of a team with two equally common colors, the order of teams whose
names differ in case only, and the order of players with the same name and frags
came from the iteration order of a HashMap, so they changed from call to call.
---
 src/players.rs |  4 ++--
 src/team.rs    | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/players.rs b/src/players.rs
index 0214868..c48d0b9 100644
--- a/src/players.rs
+++ b/src/players.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use anyhow::Result;
 use ktxstats::v3::KtxstatsV3;
@@ -28,7 +28,7 @@ pub fn players_from_parsing(data: &[u8]) -> Result<Vec<Player>> {
     let clients = clients(data)?;
     let pings = ping_per_player_number(data)?;
     let frags = frags_per_player_name(data);
-    let mut pmap: HashMap<u8, Player> = HashMap::new();
+    let mut pmap: BTreeMap<u8, Player> = BTreeMap::new();
 
     for c in clients.iter().filter(|c| !c.is_spectator) {
         let player = Player {
diff --git a/src/team.rs b/src/team.rs
index c3654d3..0f37088 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -53,7 +53,9 @@ pub fn teams_from_players(players: &[Player]) -> Vec<Team> {
         teams.push(Team::from(teamplayers.as_slice()))
     }
 
-    teams.sort_by(|a, b| a.name.to_lowercase().cmp(&b.name.to_lowercase()));
+    teams.sort_by(|a, b| {
+        (a.name.to_lowercase().cmp(&b.name.to_lowercase())).then_with(|| a.name.cmp(&b.name))
+    });
 
     teams
 }
@@ -73,10 +75,12 @@ fn majority_color(colors: &[[u8; 2]]) -> Option<[u8; 2]> {
 
     let mut max_color = None;
     let mut max_count = 0;
-    for (color, count) in color_count.iter() {
-        if *count > max_count {
+    // in player order, for a stable pick among equally common colors
+    for color in colors.iter() {
+        let count = color_count[color];
+        if count > max_count {
             max_color = Some(*color);
-            max_count = *count;
+            max_count = count;
         }
     }
 
-- 
2.43.0


From 274deeefd8624214dd530e03ddbdc1aef21c69e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 11/23] fix: list each team name once

The sort ignores case, so a name that differs in case only could end up between
two equal names and keep dedup from seeing them next to each other.
---
 src/clients.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/clients.rs b/src/clients.rs
index 48710fd..05c6c29 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -70,9 +70,9 @@ pub fn team_names(data: &[u8]) -> Result<Vec<String>> {
         .map(|c| c.team.clone())
         .collect();
 
-    names = unicode::sort(&names);
+    names.sort();
     names.dedup();
-    Ok(names)
+    Ok(unicode::sort(&names))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9cfc4fb44e5dfdb0ad0a8dbd102f236211d665ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 12/23] fix: number clients by their slot on the server

Pings and frag updates name the slot of a player. Clients were counted instead,
so every client after an empty slot got the ping (and the team kills) of another
one, as in tests/files/4on4_-s-_vs_pol[dm2]20241118-2135.mvd, where slot 3 is
empty.
---
 src/clientinfo.rs | 25 +++++++++++++++++++++++--
 src/clients.rs    |  9 ++++-----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index a204d25..e744a28 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -2,6 +2,9 @@ use anyhow::{anyhow as e, Result};
 use bstr::ByteSlice;
 pub use quake_clientinfo::Clientinfo;
 
+use crate::qw::primitives::numsize;
+use crate::qw::prot::MessageType;
+
 pub fn clientinfo(data: &[u8]) -> Result<Vec<Clientinfo>> {
     let info: Vec<Clientinfo> = clientinfo_strings(data)?
         .iter()
@@ -11,6 +14,15 @@ pub fn clientinfo(data: &[u8]) -> Result<Vec<Clientinfo>> {
 }
 
 pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
+    let strings = numbered_clientinfo_strings(data)?
+        .into_iter()
+        .map(|(_, s)| s)
+        .collect();
+    Ok(strings)
+}
+
+/// Client number (the slot on the server) and clientinfo string of each client.
+pub(crate) fn numbered_clientinfo_strings(data: &[u8]) -> Result<Vec<(u8, String)>> {
     const CMD_SPAWN: [u8; 0x0A] = [0x09, 0x63, 0x6D, 0x64, 0x20, 0x73, 0x70, 0x61, 0x77, 0x6E];
 
     let Some(mut offset) = data.find(CMD_SPAWN) else {
@@ -22,7 +34,10 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
     const MIN_LEN: usize = r#"\name\ "#.len();
     const MAX_LEN: usize = 256;
 
-    let mut result: Vec<String> = vec![];
+    const UPDATE_USERINFO: u8 = MessageType::UpdateUserinfo as u8;
+    const UPDATE_USERINFO_HEADER_SIZE: usize = 2 + numsize::LONG; // type, slot, user id
+
+    let mut result: Vec<(u8, String)> = vec![];
 
     while let Some(name_offset) = data[offset..data.len().min(offset + MAX_LOOKAHEAD)]
         .find(br#"\name\"#)
@@ -40,7 +55,13 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
             break;
         }
 
-        result.push(quake_text::bytestr::to_unicode(&data[from..to]));
+        // slots can be empty, so prefer the slot over the number of preceding clients
+        let number = match data[from.saturating_sub(UPDATE_USERINFO_HEADER_SIZE)..from] {
+            [UPDATE_USERINFO, slot, ..] => slot,
+            _ => result.len() as u8,
+        };
+
+        result.push((number, quake_text::bytestr::to_unicode(&data[from..to])));
         offset = to;
 
         if offset >= max_offset {
diff --git a/src/clients.rs b/src/clients.rs
index 05c6c29..2ab69cc 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -3,15 +3,14 @@ use bstr::ByteSlice;
 use quake_text::unicode;
 
 use crate::client::Client;
-use crate::clientinfo;
+use crate::clientinfo::{self, Clientinfo};
 
 pub fn clients(data: &[u8]) -> Result<Vec<Client>> {
-    let clients: Vec<Client> = clientinfo::clientinfo(data)?
+    let clients: Vec<Client> = clientinfo::numbered_clientinfo_strings(data)?
         .iter()
-        .enumerate()
         .map(|(number, info)| {
-            let mut client = Client::from(info);
-            client.number = number as u8;
+            let mut client = Client::from(&Clientinfo::from(info.as_str()));
+            client.number = *number;
             client
         })
         .collect();
-- 
2.43.0


From 7ee43b4717fe00ab2e58db6923ae9ef1ef196e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 13/23] fix: count every flag event of a frame

---
 src/flags.rs | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index 9caeeb8..c8a626d 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -4,7 +4,6 @@ use std::io::Cursor;
 use bstr::ByteSlice;
 
 use crate::qw::flagevent::FlagEvent;
-use crate::qw::flagprint;
 use crate::qw::frame;
 use crate::qw::message::message_type::ReadMessageType;
 use crate::qw::message::print::ReadPrint;
@@ -40,15 +39,10 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
             if mt == MessageType::Print {
                 if let Ok(p) = body.read_print() {
                     if p.id == PrintId::High && !p.content.is_empty() {
-                        if current_print.is_empty() {
-                            current_print.extend_from_slice(&p.content);
-                        } else {
-                            if is_message_suffix(&p.content) {
-                                current_print.extend_from_slice(&p.content);
-                            }
-
-                            prints.push(current_print.clone());
-                            current_print = vec![];
+                        current_print.extend_from_slice(&p.content);
+
+                        if current_print.ends_with(b"\n") {
+                            prints.push(std::mem::take(&mut current_print));
                         }
                     }
                 }
@@ -107,17 +101,6 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
     player_flag_events
 }
 
-fn is_message_suffix(print: &[u8]) -> bool {
-    [
-        flagprint::X_RETURNED_FLAG.to_vec(),
-        flagprint::X_GOT_FLAG.to_vec(),
-        flagprint::X_CAPTURED_FLAG.to_vec(),
-    ]
-    .iter()
-    .flatten()
-    .any(|n| quake_text::bytestr::to_unicode(print).ends_with(n))
-}
-
 #[cfg(test)]
 mod tests {
     use std::fs::read;
-- 
2.43.0


From dd445a6a8da0f228f33cf53e6827077f86e14443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 14/23] fix: do not overflow flag event counters

---
 src/flags.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index c8a626d..12df482 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -11,13 +11,13 @@ use crate::qw::prot::{MessageType, PrintId};
 
 #[derive(Debug, Default, PartialEq, Eq)]
 pub struct PlayerFlagEvents {
-    captures: u8,
-    pickups: u8,
-    returns: u8,
-    carrier_frags: u8,
-    defends: u8,
-    carrier_defends: u8,
-    carrier_defends_vs_aggressive: u8,
+    captures: u32,
+    pickups: u32,
+    returns: u32,
+    carrier_frags: u32,
+    defends: u32,
+    carrier_defends: u32,
+    carrier_defends_vs_aggressive: u32,
 }
 
 pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEvents> {
-- 
2.43.0


From 3eac6f0bff4002f9a3e3f116e9f8a949951e3fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 15/23] fix: credit frags to names ending with a colored space

---
 src/frags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frags.rs b/src/frags.rs
index dcd8d0a..4814fb8 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -43,7 +43,7 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
     for (print, frame_info) in print_frames {
         let content_u = quake_text::bytestr::to_unicode(&print.content);
 
-        match FragEvent::try_from(content_u.trim_end()) {
+        match FragEvent::try_from(content_u.trim_end_matches('\n')) {
             Ok(event) => match event {
                 FragEvent::Frag { killer, .. } => {
                     let killer = frags.entry(killer).or_insert(0);
-- 
2.43.0


From f8c6a95a03db713cb314e22b1be9244e96447363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 16/23] fix: report out of sequence ktxstats blocks as an error

---
 src/ktxstats.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ktxstats.rs b/src/ktxstats.rs
index 338b264..2c3f7a3 100644
--- a/src/ktxstats.rs
+++ b/src/ktxstats.rs
@@ -22,15 +22,18 @@ pub fn ktxstats_string(data: &[u8]) -> Result<String> {
         return Err(e!("ktxstats not found"));
     };
     let mut content = Vec::new();
+    let mut expected_number: usize = 1;
 
-    // read blocks, number 0 is the last one
+    // read blocks, numbered from 1 and up, number 0 is the last one
     loop {
         let Some(header) = data.get(offset + frame::MULTI_HEADER_SIZE..) else {
             return Err(e!("ktxstats is incomplete"));
         };
         let info = block::Info::try_from(header)?;
 
-        if info.hidden_message != HiddenMessage::Demoinfo {
+        if info.hidden_message != HiddenMessage::Demoinfo
+            || ![0, expected_number].contains(&info.number)
+        {
             return Err(e!("ktxstats is incomplete"));
         }
 
@@ -46,6 +49,7 @@ pub fn ktxstats_string(data: &[u8]) -> Result<String> {
         }
 
         offset += info.body_size;
+        expected_number += 1;
     }
 
     Ok(from_utf8(&content)?.to_string())
-- 
2.43.0


From 75cd010ba8fe40ee71cb892ddaccd1c9c88cd912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 17/23] fix: keep names that end with a colored space intact

---
 src/clientinfo.rs | 8 +++++++-
 src/clients.rs    | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index e744a28..d05a641 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -8,11 +8,17 @@ use crate::qw::prot::MessageType;
 pub fn clientinfo(data: &[u8]) -> Result<Vec<Clientinfo>> {
     let info: Vec<Clientinfo> = clientinfo_strings(data)?
         .iter()
-        .map(|s| Clientinfo::from(s.as_str()))
+        .map(|s| from_string(s))
         .collect();
     Ok(info)
 }
 
+/// The closing delimiter guards the end of the last value, which could be a (colored) space
+/// or the name "n", from being taken for a line break.
+pub(crate) fn from_string(info: &str) -> Clientinfo {
+    Clientinfo::from(format!("{}\\", info).as_str())
+}
+
 pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
     let strings = numbered_clientinfo_strings(data)?
         .into_iter()
diff --git a/src/clients.rs b/src/clients.rs
index 2ab69cc..82aec8e 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -3,13 +3,13 @@ use bstr::ByteSlice;
 use quake_text::unicode;
 
 use crate::client::Client;
-use crate::clientinfo::{self, Clientinfo};
+use crate::clientinfo;
 
 pub fn clients(data: &[u8]) -> Result<Vec<Client>> {
     let clients: Vec<Client> = clientinfo::numbered_clientinfo_strings(data)?
         .iter()
         .map(|(number, info)| {
-            let mut client = Client::from(&Clientinfo::from(info.as_str()));
+            let mut client = Client::from(&clientinfo::from_string(info));
             client.number = *number;
             client
         })
-- 
2.43.0


From 15df3a8beeef1ded951dd39e987d385da7ae1d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 18/23] fix: do not read hidden messages as messages to clients

---
 src/flags.rs    | 4 +++-
 src/frags.rs    | 9 +++++----
 src/ping.rs     | 2 +-
 src/prints.rs   | 2 +-
 src/qw/frame.rs | 9 +++++++++
 5 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index 12df482..679f960 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -26,7 +26,9 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
     let mut prints: Vec<Vec<u8>> = vec![];
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
-        if frame_info.body_size == 0 || data[frame_info.clone().body_range].find(b"flag").is_none()
+        if frame_info.body_size == 0
+            || frame_info.is_hidden(data)
+            || data[frame_info.clone().body_range].find(b"flag").is_none()
         {
             index += frame_info.size;
             continue;
diff --git a/src/frags.rs b/src/frags.rs
index 4814fb8..78a9821 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -17,7 +17,7 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
     let mut print_frames: Vec<(Print, frame::Info)> = vec![];
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
-        if frame_info.body_size == 0 {
+        if frame_info.body_size == 0 || frame_info.is_hidden(data) {
             index += frame_info.size;
             continue;
         }
@@ -101,9 +101,10 @@ fn find_team_killer(data: &[u8], index: usize, victim_name: &str) -> Result<Stri
             body.read_print().ok();
         }
 
-        if body
-            .read_message_type()
-            .is_ok_and(|t| t == MessageType::UpdateFrags)
+        if !info.is_hidden(data)
+            && body
+                .read_message_type()
+                .is_ok_and(|t| t == MessageType::UpdateFrags)
         {
             if let Ok(u) = body.read_update_frags() {
                 frag_update_player_numbers.push(u.player_number);
diff --git a/src/ping.rs b/src/ping.rs
index faed447..b12246e 100644
--- a/src/ping.rs
+++ b/src/ping.rs
@@ -15,7 +15,7 @@ pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
     let mut total_pings: HashMap<u8, Vec<u16>> = HashMap::new();
 
     while let Ok(info) = frame::Info::from_data_and_index(data, index) {
-        if info.body_size > 0 {
+        if info.body_size > 0 && !info.is_hidden(data) {
             let mut body = Cursor::new(&data[info.body_range.clone()]);
             let mut did_ping_update = false;
 
diff --git a/src/prints.rs b/src/prints.rs
index da62734..29e729a 100644
--- a/src/prints.rs
+++ b/src/prints.rs
@@ -11,7 +11,7 @@ pub fn prints(data: &[u8]) -> Vec<Print> {
     let mut prints: Vec<Print> = Vec::new();
 
     while let Ok(info) = frame::Info::from_data_and_index(data, index) {
-        if info.body_size > 0 {
+        if info.body_size > 0 && !info.is_hidden(data) {
             let mut body = Cursor::new(&data[info.body_range]);
 
             while body
diff --git a/src/qw/frame.rs b/src/qw/frame.rs
index 2477b13..420c0b2 100644
--- a/src/qw/frame.rs
+++ b/src/qw/frame.rs
@@ -67,6 +67,15 @@ impl Info {
             body_range: index + header_size..index + size,
         })
     }
+
+    /// Frames for multiple targets without any target hold hidden messages (e.g. ktxstats),
+    /// whose bodies are not made of regular messages.
+    pub fn is_hidden(&self, data: &[u8]) -> bool {
+        const TARGETS_OFFSET: usize = numsize::SHORT;
+        self.target == Target::Multiple
+            && data[self.header_range.clone()][TARGETS_OFFSET..][..numsize::LONG]
+                == [0; numsize::LONG]
+    }
 }
 
 #[derive(Clone, Debug, PartialEq)]
-- 
2.43.0


From 1ce90fac012700295df7d2bd44c6894a23556c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 19/23] fix: ignore marks in a truncated frame when measuring
 durations

---
 src/duration.rs |  4 +++-
 src/qw/frame.rs | 11 +++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/duration.rs b/src/duration.rs
index dfaf37c..67956bc 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -11,7 +11,7 @@ pub fn countdown_duration(data: &[u8]) -> Result<Duration> {
         return Ok(Duration::ZERO);
     }
 
-    let Some(offset) = data.find(matchdate::MATCHDATE_NEEDLE) else {
+    let Some(offset) = frame::complete_frames(data).find(matchdate::MATCHDATE_NEEDLE) else {
         return Err(e!("Countdown not found"));
     };
     Ok(duration_until_offset(data, offset))
@@ -26,6 +26,8 @@ pub fn demo_duration(data: &[u8]) -> Result<Duration> {
         0x34, 0x73, 0x74, 0x61, 0x74, 0x75, 0x73, 0x00, 0x53, 0x74, 0x61, 0x6E, 0x64, 0x62, 0x79,
         0x00, // "[serverinfo] [status] Standby"
     ];
+    // a mark in a frame that was cut off is not reached
+    let data = frame::complete_frames(data);
     let offset = data
         .rfind(NEEDLE_MATCH_OVER)
         .unwrap_or_else(|| data.rfind(NEEDLE_STANDBY).unwrap_or(data.len()));
diff --git a/src/qw/frame.rs b/src/qw/frame.rs
index 420c0b2..96a809b 100644
--- a/src/qw/frame.rs
+++ b/src/qw/frame.rs
@@ -78,6 +78,17 @@ impl Info {
     }
 }
 
+/// The part of the data made of complete frames.
+pub fn complete_frames(data: &[u8]) -> &[u8] {
+    let mut index = 0;
+
+    while let Ok(info) = Info::from_data_and_index(data, index) {
+        index += info.size;
+    }
+
+    &data[..index]
+}
+
 #[derive(Clone, Debug, PartialEq)]
 pub struct SliceInfo {
     pub size: usize,
-- 
2.43.0


From 70bcb13e65cbc0eb0380181d2209faec2348693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 20/23] fix: look for bots in the statistics dump as a whole

The bytes of the recording were searched: a dump split into blocks in
the middle of the key lost its bots, and a chat message with that text
invented them.
---
 src/clients.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/clients.rs b/src/clients.rs
index 82aec8e..5980d74 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -1,9 +1,9 @@
 use anyhow::Result;
-use bstr::ByteSlice;
 use quake_text::unicode;
 
 use crate::client::Client;
 use crate::clientinfo;
+use crate::ktxstats::ktxstats_string;
 
 pub fn clients(data: &[u8]) -> Result<Vec<Client>> {
     let clients: Vec<Client> = clientinfo::numbered_clientinfo_strings(data)?
@@ -22,7 +22,7 @@ pub fn has_bot_players(data: &[u8]) -> Result<bool> {
         return Ok(true);
     }
 
-    Ok(data.rfind(br#""bot": {"#).is_some())
+    Ok(ktxstats_string(data).is_ok_and(|stats| stats.contains(r#""bot": {"#)))
 }
 
 pub fn has_human_players(data: &[u8]) -> Result<bool> {
-- 
2.43.0


From 87bcce2ff7e2870d4705d665133c413c0916698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 21/23] fix: read the clients once when looking for team
 killers

A recording with many obituaries that do not name the team killer took
time in proportion to the square of its size when the list of clients is
late or missing, because it was looked for once per obituary.
---
 src/frags.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/frags.rs b/src/frags.rs
index 78a9821..8df3db7 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -3,6 +3,7 @@ use std::io::Cursor;
 
 use anyhow::{anyhow as e, Result};
 
+use crate::client::Client;
 use crate::clients;
 use crate::qw::fragevent::FragEvent;
 use crate::qw::frame;
@@ -39,6 +40,7 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
     }
 
     let mut frags: HashMap<String, i32> = HashMap::new();
+    let mut clients: Option<Vec<Client>> = None;
 
     for (print, frame_info) in print_frames {
         let content_u = quake_text::bytestr::to_unicode(&print.content);
@@ -66,7 +68,10 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
                     *killer -= 1;
                 }
                 FragEvent::TeamkillByUnknown { victim } => {
-                    if let Ok(name) = find_team_killer(data, frame_info.index, &victim) {
+                    let clients =
+                        clients.get_or_insert_with(|| clients::clients(data).unwrap_or_default());
+
+                    if let Ok(name) = find_team_killer(data, frame_info.index, &victim, clients) {
                         let killer = frags.entry(name).or_insert(0);
                         *killer -= 1;
                     }
@@ -81,7 +86,12 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
     frags
 }
 
-fn find_team_killer(data: &[u8], index: usize, victim_name: &str) -> Result<String> {
+fn find_team_killer(
+    data: &[u8],
+    index: usize,
+    victim_name: &str,
+    clients: &[Client],
+) -> Result<String> {
     let mut index = index;
     let mut frame_count: usize = 1;
     let mut frag_update_player_numbers: Vec<u8> = vec![];
@@ -119,7 +129,6 @@ fn find_team_killer(data: &[u8], index: usize, victim_name: &str) -> Result<Stri
         return Err(e!("Unable to find nearby frag updates"));
     }
 
-    let clients = clients::clients(data)?;
     let Some(victim_client) = clients.iter().find(|c| c.name == *victim_name) else {
         return Err(e!("Unable to find victim"));
     };
-- 
2.43.0


From b51e200edc0163c8585d7feeccfadec18397d28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 22/23] fix: server info quoted in a chat message was read as
 the server's

---
 src/serverinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serverinfo.rs b/src/serverinfo.rs
index 8fe3655..cffb33b 100644
--- a/src/serverinfo.rs
+++ b/src/serverinfo.rs
@@ -12,7 +12,7 @@ pub fn serverinfo_string(data: &[u8]) -> Result<String> {
     const MAX_SIZE: usize = 1024;
     let Some((from, to)) = bytesextra::offsets_between(
         &data[..data.len().min(MAX_OFFSET + MAX_SIZE)],
-        br#"fullserverinfo ""#,
+        b"\x09fullserverinfo \"", // [stufftext] fullserverinfo "
         &[b'"'],
     ) else {
         return Err(e!("Serverinfo not found"));
-- 
2.43.0


From a245091a3f4f5a1d3ef60cb7c09ef40e5236424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 23/23] fix: keep a last server setting that ends with a
 colored space intact

---
 src/serverinfo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serverinfo.rs b/src/serverinfo.rs
index cffb33b..2ddccfb 100644
--- a/src/serverinfo.rs
+++ b/src/serverinfo.rs
@@ -4,7 +4,8 @@ pub use quake_serverinfo::Settings;
 use crate::bytesextra;
 
 pub fn serverinfo(data: &[u8]) -> Result<Settings> {
-    serverinfo_string(data).map(|str| Settings::from(str.as_str()))
+    // the closing delimiter guards a (colored) space at the end of the last value
+    serverinfo_string(data).map(|str| Settings::from(format!("{str}\\").as_str()))
 }
 
 pub fn serverinfo_string(data: &[u8]) -> Result<String> {
-- 
2.43.0

