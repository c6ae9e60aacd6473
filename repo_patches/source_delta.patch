From 226b14c3f6bb3c68d81aef9f8589d4513c4bacbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 01/38] fix: echo the request id in error responses when the
 beanfile fails to parse

---
 rust/src/api/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index 5cacd71..824cdf6 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -215,7 +215,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
@@ -241,7 +241,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
@@ -259,7 +259,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
-- 
2.43.0


From 93f9da2e5e9d6beeefa6639b54322874161c922a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 02/38] fix: report unused pad directives in a deterministic
 order

---
 rust/src/api/booking/accumulator.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 7158802..67bf201 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -59,11 +59,17 @@ impl<'a, 't> Accumulator<'a, 't> {
         } = self;
 
         // check for unused pad directives
-        for account in accounts.values() {
-            if let Some((_, pad)) = &account.pad {
-                errors.push(pad.report("unused, no balance directive"))
-            }
-        }
+        // in directive order, since iteration order over the accounts is arbitrary
+        let mut unused_pads = accounts
+            .values()
+            .filter_map(|account| account.pad.map(|(_, pad)| pad))
+            .collect::<Vec<_>>();
+        unused_pads.sort_by_key(|pad| pad.directive);
+        errors.extend(
+            unused_pads
+                .into_iter()
+                .map(|pad| pad.report("unused, no balance directive")),
+        );
 
         if errors.is_empty() {
             Ok(BookingSuccess {
-- 
2.43.0


From df180ffaa0b0478ee0b6c85dd83863d38346ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 03/38] fix: rejected reopening of a closed account no longer
 leaves it open

---
 rust/src/api/booking/accumulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 67bf201..58cee9c 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -582,12 +582,12 @@ impl<'a, 't> Accumulator<'a, 't> {
                     .related_to(*open_entry.get()));
             }
             Vacant(open_entry) => {
-                open_entry.insert(element);
-
                 // cannot reopen a closed account
                 if let Some(closed) = self.closed_accounts.get(open.acc) {
                     return Err(element.report("account was closed").related_to(*closed));
                 } else {
+                    open_entry.insert(element);
+
                     let mut booking = open
                         .booking
                         .map(|booking| booking.into())
-- 
2.43.0


From a504e6565c83801dadd97873f5d93a9406b31de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 04/38] fix: validate the source account of a pad directive

---
 rust/src/api/booking/accumulator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 58cee9c..b09f142 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -667,6 +667,10 @@ impl<'a, 't> Accumulator<'a, 't> {
         ),
         IndexedReport,
     > {
+        self.validate_account(pad.acc, element)?;
+        // the source must be valid too, since a balance adjustment will be posted there
+        self.validate_account(pad.source, element)?;
+
         let account = self.get_mut_valid_account(pad.acc, element)?;
 
         let unused_pad = account.pad.take();
-- 
2.43.0


From 3b65104f5997280e00f9bc859b3ab5cfea7a25cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 05/38] fix: reject a pad from the padded account or one of its
 subaccounts

---
 rust/src/api/booking/accumulator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index b09f142..813b7a6 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -670,6 +670,12 @@ impl<'a, 't> Accumulator<'a, 't> {
         self.validate_account(pad.acc, element)?;
         // the source must be valid too, since a balance adjustment will be posted there
         self.validate_account(pad.source, element)?;
+        // padding from within cannot change the balance of the padded account
+        if is_nonstrict_subaccount(pad.acc, pad.source) {
+            return Err(
+                element.report("pad source is the padded account or one of its subaccounts")
+            );
+        }
 
         let account = self.get_mut_valid_account(pad.acc, element)?;
 
-- 
2.43.0


From acc9ee5d4efa560db774a8c08f0dc4996bab0121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 06/38] fix: respect the currency constraint of a pad source
 account

---
 rust/src/api/booking/accumulator.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 813b7a6..704dfe9 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -415,6 +415,21 @@ impl<'a, 't> Accumulator<'a, 't> {
         let account = self.get_mut_valid_account(balance.acc, element)?;
         account.validate_currency(balance.cur, element)?;
 
+        // pad can't last beyond balance
+        let pad = account.pad.take();
+
+        // if we're going to pad, the source account must be able to hold the currency too
+        if margin.is_some()
+            && let Some((booked_pad_idx, pad_element)) = pad
+            && let booked::DirectiveVariant::Pad(pad) = &booked_directives[booked_pad_idx].variant
+        {
+            self.accounts
+                .get(pad.source)
+                .unwrap()
+                .validate_currency(balance.cur, pad_element)?;
+        }
+
+        let account = self.get_mut_valid_account(balance.acc, element)?;
         let new_window_end = booked_directives.len();
         let new_window = match account.balance_window.take() {
             Some(old_window) => old_window.end..new_window_end,
@@ -422,9 +437,6 @@ impl<'a, 't> Accumulator<'a, 't> {
         };
         account.balance_window = Some(new_window);
 
-        // pad can't last beyond balance
-        let pad = account.pad.take();
-
         if margin.is_none() {
             // if there was a pad directive, we ought to have used it, so:
             let unused_pad = pad.map(|(_, pad_idx)| pad_idx);
-- 
2.43.0


From 61b3d5510d212ea669327f1860f69bbae1d406de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 07/38] fix: restrict balance failure diagnostics to the
 currency of the balance

---
 rust/src/api/booking/accumulator.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 704dfe9..2e4193f 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -431,11 +431,11 @@ impl<'a, 't> Accumulator<'a, 't> {
 
         let account = self.get_mut_valid_account(balance.acc, element)?;
         let new_window_end = booked_directives.len();
-        let new_window = match account.balance_window.take() {
+        let new_window = match account.balance_windows.get(balance.cur) {
             Some(old_window) => old_window.end..new_window_end,
             None => 0..new_window_end,
         };
-        account.balance_window = Some(new_window);
+        account.balance_windows.insert(balance.cur, new_window);
 
         if margin.is_none() {
             // if there was a pad directive, we ought to have used it, so:
@@ -505,7 +505,7 @@ impl<'a, 't> Accumulator<'a, 't> {
         booked_directives: &[booked::Directive<'a>],
     ) -> IndexedReport {
         let base_account = self.accounts.get(base_account_name).unwrap();
-        let balance_window = base_account.balance_window.as_ref().unwrap();
+        let balance_window = base_account.balance_windows.get(cur).unwrap();
 
         let mut diagnostics = Vec::default();
         let mut accounts = HashSet::<&str>::default();
@@ -514,7 +514,7 @@ impl<'a, 't> Accumulator<'a, 't> {
             && let booked::DirectiveVariant::Balance(bal) =
                 &booked_directives[balance_window.start].variant
         {
-            if bal.raw.cur == cur {
+            if bal.raw.acc == base_account_name && bal.raw.cur == cur {
                 // let bal_date = booked_directives[balance_window.start].date;
                 // diagnostics.push((bal_date, None, bal.raw.units));
 
@@ -530,7 +530,7 @@ impl<'a, 't> Accumulator<'a, 't> {
         for dct in &booked_directives[balance_window.clone()] {
             if let booked::DirectiveVariant::Transaction(txn) = &dct.variant {
                 for pst in &txn.postings {
-                    if is_nonstrict_subaccount(base_account_name, pst.acc) {
+                    if pst.cur == cur && is_nonstrict_subaccount(base_account_name, pst.acc) {
                         total += pst.units;
                         let description = txn.payee.or(txn.narration);
 
@@ -797,7 +797,8 @@ struct AccountBuilder<'a> {
     positions: Positions<'a>,
     opened: ElementIdx,
     pad: Option<(usize, ElementIdx)>,
-    balance_window: Option<Range<usize>>,
+    // by currency, the directives since the last balance in that currency
+    balance_windows: HashMap<&'a str, Range<usize>>,
     booking: Booking,
 }
 
@@ -811,7 +812,7 @@ impl<'a> AccountBuilder<'a> {
             positions: Positions::default(),
             opened,
             pad: None,
-            balance_window: None,
+            balance_windows: HashMap::default(),
             booking,
         }
     }
-- 
2.43.0


From 74a024ad73c6b688d5c309a24a3b6b3978e7cb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 08/38] fix: accept and echo string and number request ids
 exactly

---
 rust/src/api/json_rpc.rs | 7 +++----
 rust/src/api/server.rs   | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/rust/src/api/json_rpc.rs b/rust/src/api/json_rpc.rs
index 1b0dbfe..0f5898e 100644
--- a/rust/src/api/json_rpc.rs
+++ b/rust/src/api/json_rpc.rs
@@ -145,12 +145,11 @@ where
     data: Option<T>,
 }
 
-#[derive(Serialize, Deserialize, Copy, Clone, Debug)]
+#[derive(Serialize, Deserialize, Clone, Debug)]
 #[serde(untagged)]
 pub(crate) enum Id<'a> {
-    String(&'a str),
-    Int(i32),
-    Float(f64),
+    String(#[serde(borrow)] Cow<'a, str>),
+    Number(serde_json::Number),
 }
 
 pub(crate) const JSONRPC_VERSION: &str = "2.0";
diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index 824cdf6..e48644c 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -416,7 +416,7 @@ where
                 ))
             } else {
                 write_error::<Report, W>(
-                    response.id,
+                    response.id.clone(),
                     ERROR_INTERNAL,
                     Cow::Owned(e.to_string()),
                     None,
-- 
2.43.0


From 42f5873bf43412d1a780cb9b411d9d30d519bc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 09/38] fix: roll up subaccount balances in a deterministic
 order

---
 rust/src/api/booking/accumulator.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 2e4193f..1486e34 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -7,7 +7,7 @@ use limabean_booking::{
 use rust_decimal::Decimal;
 use std::{
     borrow::Cow,
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashMap, HashSet},
     fmt::Debug,
     ops::Range,
 };
@@ -21,7 +21,8 @@ pub(crate) struct Accumulator<'a, 't> {
     // hashbrown HashMaps are used here for their Entry API, which is still unstable in std::collections::HashMap
     open_accounts: hashbrown::HashMap<&'a str, ElementIdx>,
     closed_accounts: hashbrown::HashMap<&'a str, ElementIdx>,
-    accounts: HashMap<&'a str, AccountBuilder<'a>>,
+    // ordered, so that rolling up is deterministic, including the scale of the total
+    accounts: BTreeMap<&'a str, AccountBuilder<'a>>,
     default_booking: Booking,
     tolerance: &'t LimaTolerance<'a>,
     warnings: Vec<IndexedReport>,
@@ -41,7 +42,7 @@ impl<'a, 't> Accumulator<'a, 't> {
         Self {
             open_accounts: hashbrown::HashMap::default(),
             closed_accounts: hashbrown::HashMap::default(),
-            accounts: HashMap::default(),
+            accounts: BTreeMap::default(),
             default_booking,
             tolerance,
             warnings: Vec::default(),
-- 
2.43.0


From f17375d368e08f6ece2d01024c3de0eacddf9495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 10/38] fix: report parse errors in source order, whatever
 order included files are visited

---
 rust/src/api/types/parser_type_conversions.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/src/api/types/parser_type_conversions.rs b/rust/src/api/types/parser_type_conversions.rs
index 1af9841..b1100d2 100644
--- a/rust/src/api/types/parser_type_conversions.rs
+++ b/rust/src/api/types/parser_type_conversions.rs
@@ -485,10 +485,14 @@ pub(crate) fn create_reports_from_parser_errors<'a, K>(
 where
     K: parser::ErrorOrWarningKind,
 {
-    errors_or_warnings
+    let mut reports = errors_or_warnings
         .iter()
         .map(|eow| from_error_or_warning(eow, None))
-        .collect::<Vec<_>>()
+        .collect::<Vec<_>>();
+
+    // in source order, since the order in which the parser visits included files is arbitrary
+    reports.sort_by_key(|report| (report.span.source, report.span.start, report.span.end));
+    reports
 }
 
 /// Resolve indexed errors using the spans in their indexed element.
-- 
2.43.0


From 93eb851a7de53095cabeb81c9cb460b0b90959fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:50 +0000
Subject: [PATCH 11/38] fix: a clojure which fails is not healthy

---
 rust/src/bin/limabean/health.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rust/src/bin/limabean/health.rs b/rust/src/bin/limabean/health.rs
index a8fc172..e994606 100644
--- a/rust/src/bin/limabean/health.rs
+++ b/rust/src/bin/limabean/health.rs
@@ -36,12 +36,20 @@ fn check_clojure(verbose: bool) {
 }
 
 fn clojure_health() -> Health {
-    match Command::new("clojure")
-        .arg("--version")
-        .output()
-        .map(|op| String::from_utf8_lossy(op.stdout.as_slice()).replace("\n", "; "))
-    {
-        Ok(description) => Health::Good(format!("clojure: {}", description)),
+    match Command::new("clojure").arg("--version").output() {
+        Ok(output) => {
+            if output.status.success() {
+                Health::Good(format!(
+                    "clojure: {}",
+                    String::from_utf8_lossy(output.stdout.as_slice()).replace("\n", "; ")
+                ))
+            } else {
+                Health::Bad(format!(
+                    "clojure: {}",
+                    String::from_utf8_lossy(output.stderr.as_slice()).replace("\n", "; ")
+                ))
+            }
+        }
         Err(e) => Health::Bad(format!("can't find clojure: {}", &e)),
     }
 }
-- 
2.43.0


From 007f01a4f392c27bbe132bfe86e36beab1dc74e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 12/38] fix: launcher passes arguments which are not Unicode
 through unchanged

---
 rust/src/bin/limabean/main.rs |  4 ++--
 rust/src/bin/limabean/run.rs  | 15 +++++++--------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/rust/src/bin/limabean/main.rs b/rust/src/bin/limabean/main.rs
index 121fbd8..2b432ed 100644
--- a/rust/src/bin/limabean/main.rs
+++ b/rust/src/bin/limabean/main.rs
@@ -7,9 +7,9 @@ fn main() {
     tracing::subscriber::set_global_default(subscriber).unwrap();
 
     let runtime = Runtime::from_env();
-    let args = std::env::args().collect::<Vec<_>>();
+    let args = std::env::args_os().collect::<Vec<_>>();
 
-    if let Some("health") = args.get(1).map(String::as_str) {
+    if args.get(1).is_some_and(|arg| arg == "health") {
         health::check(&runtime, true);
     } else {
         run::run(&runtime, &args[1..]);
diff --git a/rust/src/bin/limabean/run.rs b/rust/src/bin/limabean/run.rs
index 1b5eea9..f42398d 100644
--- a/rust/src/bin/limabean/run.rs
+++ b/rust/src/bin/limabean/run.rs
@@ -1,4 +1,7 @@
-use std::{ffi::OsStr, process::Command};
+use std::{
+    ffi::{OsStr, OsString},
+    process::Command,
+};
 
 pub(crate) enum Runtime {
     Java(String),
@@ -65,7 +68,7 @@ impl Runtime {
 
     fn command<S>(&self, args: &[S]) -> Command
     where
-        S: AsRef<str>,
+        S: AsRef<OsStr>,
     {
         use Runtime::*;
 
@@ -88,11 +91,7 @@ impl Runtime {
             }
         };
 
-        cmd.args(
-            args.iter()
-                .map(|s| OsStr::new(s.as_ref()))
-                .collect::<Vec<_>>(),
-        );
+        cmd.args(args);
 
         cmd
     }
@@ -112,7 +111,7 @@ fn run_or_fail(mut cmd: Command) {
     std::process::exit(1);
 }
 
-pub(crate) fn run(runtime: &Runtime, args: &[String]) {
+pub(crate) fn run(runtime: &Runtime, args: &[OsString]) {
     let verbose = args.iter().any(|arg| arg == "-v" || arg == "--verbose");
     let version = args.iter().any(|arg| arg == "--version");
 
-- 
2.43.0


From e88b4790b2ec217ac305066a2ecc0c9dd0a0edb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:02 +0000
Subject: [PATCH 13/38] fix: a log which cannot be opened does not stop the
 service

---
 rust/src/bin/limabean-pod/main.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/rust/src/bin/limabean-pod/main.rs b/rust/src/bin/limabean-pod/main.rs
index 4b75bcf..db05571 100644
--- a/rust/src/bin/limabean-pod/main.rs
+++ b/rust/src/bin/limabean-pod/main.rs
@@ -39,16 +39,27 @@ fn main() {
 
         if let Some(log_file_name) = log_path.file_name() {
             let log_dir = log_path.parent().unwrap_or(Path::new("."));
-            let appender = tracing_appender::rolling::never(log_dir, log_file_name);
-            let env_filter = EnvFilter::builder()
-                .with_default_directive(LevelFilter::DEBUG.into())
-                .with_env_var(LIMABEAN_POD_LOG_LEVEL)
-                .from_env_lossy();
-            let subscriber = tracing_subscriber::fmt()
-                .with_env_filter(env_filter)
-                .with_writer(appender);
+            let appender = tracing_appender::rolling::Builder::new()
+                .filename_prefix(log_file_name.to_string_lossy())
+                .build(log_dir);
+            match appender {
+                Ok(appender) => {
+                    let env_filter = EnvFilter::builder()
+                        .with_default_directive(LevelFilter::DEBUG.into())
+                        .with_env_var(LIMABEAN_POD_LOG_LEVEL)
+                        .from_env_lossy();
+                    let subscriber = tracing_subscriber::fmt()
+                        .with_env_filter(env_filter)
+                        .with_writer(appender);
 
-            tracing::subscriber::set_global_default(subscriber.finish()).unwrap();
+                    tracing::subscriber::set_global_default(subscriber.finish()).unwrap();
+                }
+                Err(e) => eprintln!(
+                    "limabean-pod can't log to {}: {}",
+                    log_path.to_string_lossy(),
+                    &e
+                ),
+            }
         }
     }
 
-- 
2.43.0


From 0d2fef49eceb3cd388575f86d9bd68b5feebdf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:02 +0000
Subject: [PATCH 14/38] fix: a local root with a quote or backslash in its path

---
 rust/src/bin/limabean/run.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/bin/limabean/run.rs b/rust/src/bin/limabean/run.rs
index f42398d..11c5e18 100644
--- a/rust/src/bin/limabean/run.rs
+++ b/rust/src/bin/limabean/run.rs
@@ -44,7 +44,7 @@ impl Runtime {
         if let Ok(local_root) = std::env::var(LIMABEAN_CLJ_LOCAL_ROOT) {
             Runtime::clojure(format!(
                 r###"{{:local/root "{}"}}{}"###,
-                &local_root,
+                local_root.replace('\\', r"\\").replace('"', r#"\""#),
                 extra_deps.unwrap_or("".to_string())
             ))
         } else if let Ok(uberjar) = std::env::var(LIMABEAN_UBERJAR) {
-- 
2.43.0


From 219034ff06ebc21b180a54a39b995a90c4389244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 15/38] fix: a jar or local root whose path is not Unicode is
 not passed over

---
 rust/src/bin/limabean/health.rs | 13 +++++++------
 rust/src/bin/limabean/run.rs    | 18 ++++++++++--------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/rust/src/bin/limabean/health.rs b/rust/src/bin/limabean/health.rs
index e994606..f6cb0ce 100644
--- a/rust/src/bin/limabean/health.rs
+++ b/rust/src/bin/limabean/health.rs
@@ -1,4 +1,4 @@
-use std::{path::Path, process::Command};
+use std::{ffi::OsStr, path::Path, process::Command};
 
 use super::run::Runtime;
 
@@ -54,25 +54,26 @@ fn clojure_health() -> Health {
     }
 }
 
-fn check_java(uberjar: &str, verbose: bool) {
+fn check_java(uberjar: &OsStr, verbose: bool) {
+    let uberjar = Path::new(uberjar);
     match java_health() {
         Health::Good(description) => {
             if verbose {
                 eprintln!("{}", description);
             }
 
-            match Path::new(uberjar).try_exists() {
+            match uberjar.try_exists() {
                 Ok(false) => {
-                    eprintln!("uberjar {} not found", uberjar);
+                    eprintln!("uberjar {} not found", uberjar.display());
                     std::process::exit(1);
                 }
                 Ok(true) => {
                     if verbose {
-                        eprintln!("uberjar {}", uberjar);
+                        eprintln!("uberjar {}", uberjar.display());
                     }
                 }
                 Err(e) => {
-                    eprintln!("uberjar {} not found: {}", uberjar, &e);
+                    eprintln!("uberjar {} not found: {}", uberjar.display(), &e);
                     std::process::exit(1);
                 }
             }
diff --git a/rust/src/bin/limabean/run.rs b/rust/src/bin/limabean/run.rs
index 11c5e18..275f3b0 100644
--- a/rust/src/bin/limabean/run.rs
+++ b/rust/src/bin/limabean/run.rs
@@ -4,7 +4,7 @@ use std::{
 };
 
 pub(crate) enum Runtime {
-    Java(String),
+    Java(OsString),
     Clojure(String),
 }
 
@@ -34,29 +34,31 @@ impl Runtime {
         ))
     }
 
-    fn java(uberjar: String) -> Self {
+    fn java(uberjar: OsString) -> Self {
         Runtime::Java(uberjar)
     }
 
     pub(crate) fn from_env() -> Self {
-        let extra_deps = std::env::var(LIMABEAN_CLJ_DEPS).map(|s| format!(" {}", s));
+        // these are embedded in text, where what is not Unicode has no place
+        let var_lossy = |key| std::env::var_os(key).map(|s| s.to_string_lossy().into_owned());
+        let extra_deps = var_lossy(LIMABEAN_CLJ_DEPS).map(|s| format!(" {}", s));
 
-        if let Ok(local_root) = std::env::var(LIMABEAN_CLJ_LOCAL_ROOT) {
+        if let Some(local_root) = var_lossy(LIMABEAN_CLJ_LOCAL_ROOT) {
             Runtime::clojure(format!(
                 r###"{{:local/root "{}"}}{}"###,
                 local_root.replace('\\', r"\\").replace('"', r#"\""#),
                 extra_deps.unwrap_or("".to_string())
             ))
-        } else if let Ok(uberjar) = std::env::var(LIMABEAN_UBERJAR) {
-            if extra_deps.is_ok() {
+        } else if let Some(uberjar) = std::env::var_os(LIMABEAN_UBERJAR) {
+            if extra_deps.is_some() {
                 warn_uberjar_extra_deps_ignored();
             }
             Runtime::java(uberjar)
         } else if let Some(uberjar) = LIMABEAN_UBERJAR_BUILDTIME {
-            if extra_deps.is_ok() {
+            if extra_deps.is_some() {
                 warn_uberjar_extra_deps_ignored();
             }
-            Runtime::java(uberjar.to_string())
+            Runtime::java(uberjar.into())
         } else {
             Runtime::clojure(format!(
                 r###"{{:mvn/version "{}"}}{}"###,
-- 
2.43.0


From f4e6ba0a3b8c92974a379f221ef0d46642456f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 16/38] fix: the registry takes the default booking method from
 the options

---
 clj/src/limabean/core/registry.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/registry.clj b/clj/src/limabean/core/registry.clj
index 4d9c67e..03cba7e 100644
--- a/clj/src/limabean/core/registry.clj
+++ b/clj/src/limabean/core/registry.clj
@@ -6,7 +6,7 @@
 (defn build
   "Build the registry for given `directives` and `options`."
   [directives options]
-  (let [default-booking (get options :booking :strict)
+  (let [default-booking (keyword (get options :booking-method :strict))
         init (transient {:acc-booking (transient {}), :cur-freq (transient {})})
         result (reduce (fn [result dct]
                          (case (:dct dct)
-- 
2.43.0


From d142aaeccef5631e72926a54ff88616c4c1d0131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 17/38] fix: metadata under the keys dct and booking keeps its
 values

---
 clj/src/limabean/adapter/pod.clj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/adapter/pod.clj b/clj/src/limabean/adapter/pod.clj
index 04623b9..040441b 100644
--- a/clj/src/limabean/adapter/pod.clj
+++ b/clj/src/limabean/adapter/pod.clj
@@ -37,8 +37,8 @@
     (fn [x]
       (cond-> x
         (and (map? x) (string? (:date x))) (update :date jt/local-date)
-        (and (map? x) (contains? x :dct)) (update :dct keyword)
-        (and (map? x) (contains? x :booking)) (update :booking keyword)))
+        (and (map? x) (string? (:dct x))) (update :dct keyword)
+        (and (map? x) (string? (:booking x))) (update :booking keyword)))
     data))
 
 (defn- coerce-arrays
-- 
2.43.0


From e73a4e123837f4a61d88f7430c7a5906a38e7c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 18/38] fix: lots whose cost is the same number written
 differently are one lot

---
 clj/src/limabean/core/inventory.clj | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/inventory.clj b/clj/src/limabean/core/inventory.clj
index be17ac4..faa1b1f 100644
--- a/clj/src/limabean/core/inventory.clj
+++ b/clj/src/limabean/core/inventory.clj
@@ -70,7 +70,11 @@
   [pos]
   (let [cost (:cost pos)]
     (if cost
-      [(:date cost) (:cur cost) (:per-unit cost) (:label cost) (:merge cost)]
+      ;; the same cost may be written with more or fewer decimal places
+      [(:date cost) (:cur cost)
+       (some-> (:per-unit cost)
+               bigdec
+               .stripTrailingZeros) (:label cost) (:merge cost)]
       [])))
 
 (defn- update-or-set
-- 
2.43.0


From 2170040ac9cf3f31d04082398cf5bb6c38d25a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 19/38] fix: postings and what is made of them print as the
 maps they are

---
 clj/src/limabean/core/xf.clj | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/xf.clj b/clj/src/limabean/core/xf.clj
index 79644d5..e9a30c0 100644
--- a/clj/src/limabean/core/xf.clj
+++ b/clj/src/limabean/core/xf.clj
@@ -10,5 +10,11 @@
   []
   (comp (filter #(= :txn (:dct %)))
         (mapcat #(map (fn [pst]
-                        (merge (select-keys % [:date :payee :narration]) pst))
+                        ;; without the metadata of the directive, so that
+                        ;; the posting is not taken for one
+                        (merge (with-meta (select-keys %
+                                                       [:date :payee
+                                                        :narration])
+                                          nil)
+                               pst))
                    (:postings %)))))
-- 
2.43.0


From 2e9c73c3fc889fa07e5cef78d037c514f99aaec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 20/38] fix: the rollup of an empty inventory is empty

---
 clj/src/limabean.clj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean.clj b/clj/src/limabean.clj
index eb10097..5dba8fa 100644
--- a/clj/src/limabean.clj
+++ b/clj/src/limabean.clj
@@ -31,7 +31,8 @@
   ```
   "
   [inv]
-  (let [primary-cur (first (apply max-key val (inventory/cur-freq inv)))]
+  (let [freq (inventory/cur-freq inv)
+        primary-cur (when (seq freq) (first (apply max-key val freq)))]
     (rollup/build inv primary-cur)))
 
 (defn balances
-- 
2.43.0


From d6815c5d68be8a5e4a50a54433a5ae3c9274560c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 21/38] fix: directives with whole tolerances or huge whole
 numbers satisfy the spec

---
 clj/src/limabean/spec.clj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/spec.clj b/clj/src/limabean/spec.clj
index 2645447..ccd0acd 100644
--- a/clj/src/limabean/spec.clj
+++ b/clj/src/limabean/spec.clj
@@ -9,7 +9,7 @@
 (s/def ::acc string?)
 (s/def ::number
   (s/or :decimal decimal?
-        :int int?))
+        :int integer?))
 (s/def ::units ::number)
 (s/def ::cur string?)
 (s/def ::amount
@@ -41,7 +41,7 @@
 (s/def ::narration string?)
 
 ;; balance fields
-(s/def ::tolerance decimal?)
+(s/def ::tolerance ::number)
 
 ;; open fields
 (s/def ::currencies (s/coll-of ::cur :kind set?))
-- 
2.43.0


From 61d748304115f4f8ae110a8e450f07beecb6d05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 22/38] fix: the messages of an exception thrown by a plugin or
 booking are printed

---
 clj/src/limabean/adapter/error.clj  | 2 +-
 clj/src/limabean/adapter/loader.clj | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/adapter/error.clj b/clj/src/limabean/adapter/error.clj
index 5af1bfb..0f787fc 100644
--- a/clj/src/limabean/adapter/error.clj
+++ b/clj/src/limabean/adapter/error.clj
@@ -36,7 +36,7 @@
         spanned-reports' (or spanned-reports (dct-errors->reports dct-errors))]
     (when message (println message))
     (when spanned-reports' (println (pod/format-errors pod spanned-reports')))
-    (when exception (println (:message exception)))))
+    (when exception (run! println (keep :message (:via exception))))))
 
 (defn print-errors
   "Print errors if any."
diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index 2403984..9fe190f 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -86,7 +86,7 @@
                                 " plugin, all "
                                 kind-name
                                 " plugins ignored")),
-                :exception e}))))))
+                :exception (Throwable->map e)}))))))
 
 (defn- merge-span-and-provenance
   [booked raw]
-- 
2.43.0


From 525835326d53ea34fdd0e8b9918e6eb424211d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 23/38] fix: an error in a directive modified by a plugin shows
 its source

---
 clj/src/limabean/adapter/error.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/error.clj b/clj/src/limabean/adapter/error.clj
index 0f787fc..cdbef15 100644
--- a/clj/src/limabean/adapter/error.clj
+++ b/clj/src/limabean/adapter/error.clj
@@ -25,7 +25,7 @@
                         (cond-> {:message (:plugin err),
                                  :reason (:message err),
                                  :span (or (:span-p dct) (:span dct))}
-                          (and (:span dct) (:span-p :dct))
+                          (and (:span dct) (:span-p dct))
                             (assoc :related [["source" (:span dct)]])))
                    (:err dct)))
          dct-errors)))
-- 
2.43.0


From ae1679bc82ca195e64763e7d530e7e0d8f524e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 24/38] fix: sums of huge whole units do not overflow

---
 clj/src/limabean/core/inventory.clj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/core/inventory.clj b/clj/src/limabean/core/inventory.clj
index faa1b1f..68ff224 100644
--- a/clj/src/limabean/core/inventory.clj
+++ b/clj/src/limabean/core/inventory.clj
@@ -91,7 +91,7 @@
                                 positions
                                 k
                                 (fn [p0]
-                                  (assoc p0 :units (+ (:units p0) (:units p1))))
+                                  (assoc p0 :units (+' (:units p0) (:units p1))))
                                 p1))),
             :reduce-f (fn [rf result positions]
                         (let [cost-keys (sort compare-cost-keys
@@ -106,7 +106,7 @@
                    (assoc positions :at-cost (conj (:at-cost positions) p1))
                    (assoc positions
                      :simple (if-let [p0 (:simple positions)]
-                               (assoc p0 :units (+ (:units p0) (:units p1)))
+                               (assoc p0 :units (+' (:units p0) (:units p1)))
                                p1)))),
              :reduce-f (fn [rf result positions]
                          (let [result1 (if-let [simple (:simple positions)]
-- 
2.43.0


From b2f88a9f8282b060ba270b43930763acf3b530db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 25/38] fix: the provenance of a directive has its phase once,
 however many plugins touched it

---
 clj/src/limabean/adapter/plugins.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/plugins.clj b/clj/src/limabean/adapter/plugins.clj
index 7c32262..15127f2 100644
--- a/clj/src/limabean/adapter/plugins.clj
+++ b/clj/src/limabean/adapter/plugins.clj
@@ -77,7 +77,7 @@
             :provenance
             #(let [existing (or % [])]
                (cond-> existing
-                 (and phase (not (contains? existing phase))) (conj phase)
+                 (and phase (not (some #{phase} existing))) (conj phase)
                  true (conj provenance))))))
 
 (defn- compose-and-wrap-resolved-plugins
-- 
2.43.0


From a35d4c5fd1b50d589e86f76e52869f6023938c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 26/38] fix: an error in a directive inserted by a plugin has a
 span and is reported

---
 clj/src/limabean/adapter/plugins.clj | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/adapter/plugins.clj b/clj/src/limabean/adapter/plugins.clj
index 15127f2..0c13373 100644
--- a/clj/src/limabean/adapter/plugins.clj
+++ b/clj/src/limabean/adapter/plugins.clj
@@ -59,13 +59,19 @@
       ([result] (rf result))
       ;; step
       ([result d]
-       (if (and (not (:err d))
+       (if (and (or (not (:err d))
+                    ;; an error in a directive inserted by a plugin needs
+                    ;; provenance for its span
+                    (not (or (:span d) (:provenance d))))
                 (not (contains? @known-directives (System/identityHashCode d))))
          (let [tagged-d (tagf d)]
            (vreset! known-directives
                     (conj! @known-directives
                            (System/identityHashCode tagged-d)))
-           (rf result (if spec (s/assert spec tagged-d) tagged-d)))
+           (rf result
+               (if (and spec (not (:err d)))
+                 (s/assert spec tagged-d)
+                 tagged-d)))
          ;; otherwise emit the original directive, whatever it was
          (rf result d))))))
 
-- 
2.43.0


From f45df302a63db395ad9468dff2982ec596576edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 27/38] fix: quotes and backslashes in strings are printed so
 that they can be read again

---
 clj/src/limabean/core/format.clj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index d4cee09..2e7e1f0 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -13,7 +13,8 @@
 (defn- double-quote
   "Double quote a string, otherwise nil"
   [s]
-  (and (string? s) (format "\"%s\"" s)))
+  (and (string? s)
+       (format "\"%s\"" (str/escape s {\" "\\\"", \\ "\\\\"}))))
 
 (defn- prefix
   "Prefix a string, otherwise nil"
-- 
2.43.0


From ffe7ab70da00bb4d66e5285aa760a994831d2d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 28/38] fix: tiny and huge decimals are printed without an
 exponent

---
 clj/src/limabean/core/format.clj | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index 2e7e1f0..8b08965 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -21,6 +21,11 @@
   [s prefix]
   (and (string? s) (format "%s%s" prefix s)))
 
+(defn- number->str
+  "Convert number to string, without an exponent, which has no place in Beancount"
+  [n]
+  (if (decimal? n) (.toPlainString ^java.math.BigDecimal n) (str n)))
+
 (defn- booking->str
   [booking]
   (and (keyword? booking)
@@ -41,11 +46,11 @@
   (cond (nil? v) ""
         (contains? v :acc) (get v :acc)
         (and (contains? v :units) (contains? v :cur))
-          (format "%s %s" (str (get v :units)) (get v :cur))
+          (format "%s %s" (number->str (get v :units)) (get v :cur))
         (contains? v :string) (double-quote (get v :string))
         (contains? v :bool) (str/upper-case (str (get v :bool)))
         (contains? v :cur) (get v :cur)
-        (contains? v :number) (str (get v :number))
+        (contains? v :number) (number->str (get v :number))
         (contains? v :tag) (prefix (get v :tag) "#")
         (contains? v :link) (prefix (get v :link) "^")
         (contains? v :date) (str (get v :date))))
@@ -67,8 +72,8 @@
           (with-out-str
             ;; print at most one of per-unit and total, preferring per-unit
             (if-let [per-unit (:per-unit cost)]
-              (print (str per-unit))
-              (when-let [total (:total cost)] (print "#" (str total))))
+              (print (number->str per-unit))
+              (when-let [total (:total cost)] (print "#" (number->str total))))
             (when-let [cur (:cur cost)] (print "" cur))
             (when-let [date (:date cost)] (print "," (str date)))
             (when-let [label (double-quote (:label cost))] (print "," label))
@@ -82,8 +87,8 @@
                 ;; print at most one of per-unit and total, preferring
                 ;; per-unit
                 (if-let [per-unit (:per-unit price)]
-                  (print "" (str per-unit))
-                  (when-let [total (:total price)] (print " #" (str total))))
+                  (print "" (number->str per-unit))
+                  (when-let [total (:total price)] (print " #" (number->str total))))
                 (when-let [cur (:cur price)] (print "" cur))))
 
 (defn- print-posting
@@ -91,7 +96,7 @@
   (print " ")
   (when-let [flag (:flag pst)] (print "" flag))
   (print "" (:acc pst))
-  (when-let [units (:units pst)] (print "" (str units)))
+  (when-let [units (:units pst)] (print "" (number->str units)))
   (when-let [cur (:cur pst)] (print "" cur))
   (when-let [cost (or (:cost pst) (:cost-spec pst))]
     (print "" (cost->str cost)))
@@ -130,9 +135,9 @@
     (case (:dct dct)
       :txn (print-txn-specific-header-fields dct)
       :price (let [price (:price dct)]
-               (print "" (:cur dct) (str (:per-unit price)) (:cur price)))
-      :balance (do (print "" (:acc dct) (str (:units dct)) (:cur dct))
-                   (when-let [tol (:tolerance dct)] (print " ~" (str tol))))
+               (print "" (:cur dct) (number->str (:per-unit price)) (:cur price)))
+      :balance (do (print "" (:acc dct) (number->str (:units dct)) (:cur dct))
+                   (when-let [tol (:tolerance dct)] (print " ~" (number->str tol))))
       :open (do (print "" (:acc dct))
                 (when-let [currencies (:currencies dct)]
                   (print "" (str/join "," (sort currencies))))
-- 
2.43.0


From ff706cf37ff8f23ad9c5939f95f60e3515c0c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 29/38] fix: a price given as a total is printed as one

---
 clj/src/limabean/core/format.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index 8b08965..120846f 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -88,7 +88,7 @@
                 ;; per-unit
                 (if-let [per-unit (:per-unit price)]
                   (print "" (number->str per-unit))
-                  (when-let [total (:total price)] (print " #" (number->str total))))
+                  (when-let [total (:total price)] (print "@" (number->str total))))
                 (when-let [cur (:cur price)] (print "" cur))))
 
 (defn- print-posting
-- 
2.43.0


From 7fbcb5006f6bfec2830fe4b2fea887b736956e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 30/38] fix: a null among the values of a custom directive is
 printed

---
 clj/src/limabean/core/format.clj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index 120846f..8a5dc54 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -152,7 +152,8 @@
         (print "" (double-quote (:type dct)) (double-quote (:description dct)))
       :query (print "" (double-quote (:name dct)) (double-quote (:content dct)))
       :custom (do (print "" (double-quote (:type dct)))
-                  (doseq [v (:values dct)] (print "" (meta-value->str v))))
+                  (doseq [v (:values dct)]
+                   (print "" (if (nil? v) "NULL" (meta-value->str v)))))
       nil)
     (when-not (= (:dct dct) :custom)
       (print-tags-and-links-inline (:tags dct) (:links dct)))
-- 
2.43.0


From 69732bfbbe0e8334e08e076ed5f42880e0f61186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 31/38] fix: what plugins produce is dumped, not what they were
 given

---
 clj/src/limabean/adapter/loader.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index 9fe190f..acc5819 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -74,7 +74,7 @@
                                    (:pod m)))
                  dct-errors (filterv :err xf-directives)]
              (cond-> (assoc m (:xf-directives key) xf-directives)
-               (debug/dump-configured?) (dump (:directives key))
+               (debug/dump-configured?) (dump (:xf-directives key))
                (seq dct-errors) (assoc-in [:error (:plugins key) :dct-errors]
                                   dct-errors)))
            (catch Exception e
-- 
2.43.0


From 3dcf29dfb091cf62f574f7dab97986b511ad66d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 32/38] fix: the errors of booking are shown when there are no
 raw plugins

---
 clj/src/limabean/adapter/loader.clj | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index acc5819..76a0521 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -170,10 +170,16 @@
                     :booked-directives (type/directives resolved-directives))
             (debug/dump-configured?) (dump :booked-directives)
             (seq warnings) (assoc :booked-warnings warnings)))
-        (let [indexed-reports (:indexed-reports err)
-              spanned-reports (resolve-reports-from-raw indexed-reports
-                                                        raw-directives)]
-          (assoc-in m [:error :booking] {:spanned-reports spanned-reports}))))
+        (let [{:keys [indexed-reports]} err]
+          ;; reports are already spanned when it is the directives as parsed
+          ;; which were booked, or there is only a message in case of
+          ;; failure of the booking itself
+          (assoc-in m
+            [:error :booking]
+            (cond-> (select-keys err [:spanned-reports :message])
+              indexed-reports (assoc :spanned-reports
+                                (resolve-reports-from-raw indexed-reports
+                                                          raw-directives)))))))
     (catch Exception e
       (assoc-in m [:error :booking] {:exception (Throwable->map e)}))))
 
-- 
2.43.0


From 0de5b1fdd9d811b0da0d725c0150cb70e31ee5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 33/38] fix: an error in a posting shows its transaction

---
 clj/src/limabean/adapter/loader.clj | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index 76a0521..3bc95e1 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -127,7 +127,7 @@
       (and (:provenance dct) (or (:span pst) (:span dct)))
         (update :description
                 #(str % ", modified by " (str/join " " (:provenance dct))))
-      pst (assoc :context ["txn" dct-span]))))
+      pst (assoc :contexts [[(dct-name dct) dct-span]]))))
 
 (defn- resolve-report-related
   "Return a function to resolve the related field in a report"
@@ -139,12 +139,12 @@
 (defn- resolve-report-from-raw
   "Resolve idx to span in indexed report"
   [report raw-directives]
-  (let [{:keys [description span context]} (resolve-report-idx (:idx report)
-                                                               raw-directives)]
+  (let [{:keys [description span contexts]} (resolve-report-idx (:idx report)
+                                                                raw-directives)]
     (cond-> (assoc (select-keys report [:reason :annotation])
               :message (str "invalid " description)
               :span span)
-      context (assoc :context context)
+      contexts (assoc :contexts contexts)
       (:related report) (assoc :related
                           (mapv (resolve-report-related raw-directives)
                             (:related report))))))
-- 
2.43.0


From 23d2be81300d3253cb5120341357944e9d69b6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 34/38] fix: a plugin's changes are known by identity, not by
 identity hash code

---
 clj/src/limabean/adapter/plugins.clj | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/clj/src/limabean/adapter/plugins.clj b/clj/src/limabean/adapter/plugins.clj
index 0c13373..5f43ec2 100644
--- a/clj/src/limabean/adapter/plugins.clj
+++ b/clj/src/limabean/adapter/plugins.clj
@@ -50,7 +50,7 @@
 
 (defn- tag-and-validate-unseen
   "Transducer to tag non-error directives which haven't been seen before, and if spec is non-nil, validate"
-  [known-directives tagf spec]
+  [^java.util.IdentityHashMap known-directives tagf spec]
   (fn [rf]
     (fn
       ;; init
@@ -63,11 +63,9 @@
                     ;; an error in a directive inserted by a plugin needs
                     ;; provenance for its span
                     (not (or (:span d) (:provenance d))))
-                (not (contains? @known-directives (System/identityHashCode d))))
+                (not (.containsKey known-directives d)))
          (let [tagged-d (tagf d)]
-           (vreset! known-directives
-                    (conj! @known-directives
-                           (System/identityHashCode tagged-d)))
+           (.put known-directives tagged-d true)
            (rf result
                (if (and spec (not (:err d)))
                  (s/assert spec tagged-d)
@@ -109,7 +107,8 @@
 (defn run-plugins-of-kind
   "Run the non-error plugins selected by `sel`, one of `:raw-xf,` `:booked-xf`"
   [directives resolved-plugins sel directive-spec]
-  (let [known-directives (volatile! (transient #{}))
+  ;; by identity, since identity hash codes are not unique
+  (let [known-directives (java.util.IdentityHashMap.)
         xf-directives (into []
                             (compose-and-wrap-resolved-plugins resolved-plugins
                                                                sel
-- 
2.43.0


From 43f9f23d7c6b63955846c3699e2b8ddce1622257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:28 +0000
Subject: [PATCH 35/38] fix: a beanfile whose name begins with a hyphen is not
 taken for an option

---
 clj/src/limabean/adapter/pod.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/pod.clj b/clj/src/limabean/adapter/pod.clj
index 040441b..11ca844 100644
--- a/clj/src/limabean/adapter/pod.clj
+++ b/clj/src/limabean/adapter/pod.clj
@@ -135,7 +135,7 @@
   "Run limabean-pod serve and remain attached"
   [beancount-path]
   (let [pod-process
-          (process/start {:err :inherit} "limabean-pod" "serve" beancount-path)
+          (process/start {:err :inherit} "limabean-pod" "serve" "--" beancount-path)
         pod {:process pod-process,
              :in (-> (process/stdin pod-process)
                      OutputStreamWriter.
-- 
2.43.0


From 4efbb8e56d6f4aa44c958f43e647ecb3d59eb8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:28 +0000
Subject: [PATCH 36/38] fix: a pod which has died is not taken for an empty
 beanfile

---
 clj/src/limabean/adapter/pod.clj | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/pod.clj b/clj/src/limabean/adapter/pod.clj
index 11ca844..42168e3 100644
--- a/clj/src/limabean/adapter/pod.clj
+++ b/clj/src/limabean/adapter/pod.clj
@@ -20,7 +20,9 @@
 (defn- read-to-eol
   "Read a single line message from the pod"
   [pod]
-  (.readLine (:out pod)))
+  (or (.readLine (:out pod))
+      (throw (let [msg "limabean-pod ended without answering"]
+               (ex-info msg {:user-error msg})))))
 
 (defn- write-msg
   "Write a message map with fields [:method :params] to the pod, adding `id` and `jsonrpc` fields"
-- 
2.43.0


From 9c7ef050488f36d4cf61114773fd4a9f2e23d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:17 +0000
Subject: [PATCH 37/38] fix: a beanfile whose booking ended the pod can be
 looked at as far as it was loaded

---
 clj/src/limabean/adapter/error.clj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/error.clj b/clj/src/limabean/adapter/error.clj
index cdbef15..55ab8d0 100644
--- a/clj/src/limabean/adapter/error.clj
+++ b/clj/src/limabean/adapter/error.clj
@@ -35,7 +35,8 @@
   (let [{:keys [spanned-reports dct-errors message exception]} error
         spanned-reports' (or spanned-reports (dct-errors->reports dct-errors))]
     (when message (println message))
-    (when spanned-reports' (println (pod/format-errors pod spanned-reports')))
+    (when (seq spanned-reports')
+      (println (pod/format-errors pod spanned-reports')))
     (when exception (run! println (keep :message (:via exception))))))
 
 (defn print-errors
-- 
2.43.0


From 2e1f9ab4f35e077f046aa2e71115e1e82b04522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:40 +0000
Subject: [PATCH 38/38] fix: a log which cannot be had is not passed over in
 silence

---
 rust/src/bin/limabean-pod/main.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rust/src/bin/limabean-pod/main.rs b/rust/src/bin/limabean-pod/main.rs
index db05571..9072e6d 100644
--- a/rust/src/bin/limabean-pod/main.rs
+++ b/rust/src/bin/limabean-pod/main.rs
@@ -34,13 +34,14 @@ const LIMABEAN_POD_LOG_LEVEL: &str = "LIMABEAN_POD_LOG_LEVEL";
 fn main() {
     // enable logging only if environment variable LIMABEAN_POD_LOG defined
     // log level set via environment variable LIMABEAN_POD_LOG_LEVEL, or default
-    if let Ok(log_path) = std::env::var(LIMABEAN_POD_LOG) {
+    if let Some(log_path) = std::env::var_os(LIMABEAN_POD_LOG).filter(|path| !path.is_empty()) {
         let log_path: PathBuf = log_path.into();
 
-        if let Some(log_file_name) = log_path.file_name() {
+        // the appender wants the name of the log as a string
+        if let Some(log_file_name) = log_path.file_name().and_then(|name| name.to_str()) {
             let log_dir = log_path.parent().unwrap_or(Path::new("."));
             let appender = tracing_appender::rolling::Builder::new()
-                .filename_prefix(log_file_name.to_string_lossy())
+                .filename_prefix(log_file_name)
                 .build(log_dir);
             match appender {
                 Ok(appender) => {
@@ -60,6 +61,11 @@ fn main() {
                     &e
                 ),
             }
+        } else {
+            eprintln!(
+                "limabean-pod can't log to {}: no file name, or one which is not Unicode",
+                log_path.to_string_lossy()
+            );
         }
     }
 
-- 
2.43.0

