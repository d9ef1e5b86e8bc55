From 952d99cc35d63fde100c467ae759e174bdc95495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 01/29] fix: a refused reopening leaves the account closed

---
 rust/src/api/booking/accumulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 7158802..ba984b5 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -576,12 +576,12 @@ impl<'a, 't> Accumulator<'a, 't> {
                     .related_to(*open_entry.get()));
             }
             Vacant(open_entry) => {
-                open_entry.insert(element);
-
                 // cannot reopen a closed account
                 if let Some(closed) = self.closed_accounts.get(open.acc) {
                     return Err(element.report("account was closed").related_to(*closed));
                 } else {
+                    open_entry.insert(element);
+
                     let mut booking = open
                         .booking
                         .map(|booking| booking.into())
-- 
2.43.0


From 2565b9d341bb7e3aa2f4dddc5557bdeb6b180a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 02/29] fix: closing a closed account says so and refers to the
 close

---
 rust/src/api/booking/accumulator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index ba984b5..806d62f 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -641,6 +641,12 @@ impl<'a, 't> Accumulator<'a, 't> {
                 }
             }
             Vacant(_) => {
+                // cannot reclose a closed account
+                if let Some(closed) = self.closed_accounts.get(close.acc) {
+                    return Err(element
+                        .report("account was already closed")
+                        .related_to(*closed));
+                }
                 return Err(element.report("account not open"));
             }
         }
-- 
2.43.0


From 372127e327e8dc5fb3b4909f1ed4204d7f042b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 03/29] fix: a pad from an account that is not open is an
 error, not a panic

---
 rust/src/api/booking/accumulator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 806d62f..6bbbf89 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -667,6 +667,8 @@ impl<'a, 't> Accumulator<'a, 't> {
         ),
         IndexedReport,
     > {
+        self.validate_account(pad.acc, element)?;
+        self.validate_account(pad.source, element)?;
         let account = self.get_mut_valid_account(pad.acc, element)?;
 
         let unused_pad = account.pad.take();
-- 
2.43.0


From c8ad99de0040e8f64067d67be4c28b9bbda9039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 04/29] fix: report unused pads in the order of the directives

---
 rust/src/api/booking/accumulator.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 6bbbf89..23ae898 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -59,10 +59,14 @@ impl<'a, 't> Accumulator<'a, 't> {
         } = self;
 
         // check for unused pad directives
-        for account in accounts.values() {
-            if let Some((_, pad)) = &account.pad {
-                errors.push(pad.report("unused, no balance directive"))
-            }
+        let mut unused_pads = accounts
+            .values()
+            .filter_map(|account| account.pad)
+            .collect::<Vec<_>>();
+        // in directive order, not that of the hash map
+        unused_pads.sort_by_key(|(booked_idx, _)| *booked_idx);
+        for (_, pad) in unused_pads {
+            errors.push(pad.report("unused, no balance directive"))
         }
 
         if errors.is_empty() {
-- 
2.43.0


From 364de2899c2e4183583d627d13ce6e55eef34586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 05/29] fix: balance diagnostics look at the asserted currency
 only

---
 rust/src/api/booking/accumulator.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 23ae898..6397409 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -414,11 +414,11 @@ impl<'a, 't> Accumulator<'a, 't> {
         account.validate_currency(balance.cur, element)?;
 
         let new_window_end = booked_directives.len();
-        let new_window = match account.balance_window.take() {
+        let new_window = match account.balance_windows.get(balance.cur) {
             Some(old_window) => old_window.end..new_window_end,
             None => 0..new_window_end,
         };
-        account.balance_window = Some(new_window);
+        account.balance_windows.insert(balance.cur, new_window);
 
         // pad can't last beyond balance
         let pad = account.pad.take();
@@ -491,7 +491,7 @@ impl<'a, 't> Accumulator<'a, 't> {
         booked_directives: &[booked::Directive<'a>],
     ) -> IndexedReport {
         let base_account = self.accounts.get(base_account_name).unwrap();
-        let balance_window = base_account.balance_window.as_ref().unwrap();
+        let balance_window = base_account.balance_windows.get(cur).unwrap();
 
         let mut diagnostics = Vec::default();
         let mut accounts = HashSet::<&str>::default();
@@ -516,7 +516,7 @@ impl<'a, 't> Accumulator<'a, 't> {
         for dct in &booked_directives[balance_window.clone()] {
             if let booked::DirectiveVariant::Transaction(txn) = &dct.variant {
                 for pst in &txn.postings {
-                    if is_nonstrict_subaccount(base_account_name, pst.acc) {
+                    if pst.cur == cur && is_nonstrict_subaccount(base_account_name, pst.acc) {
                         total += pst.units;
                         let description = txn.payee.or(txn.narration);
 
@@ -781,7 +781,7 @@ struct AccountBuilder<'a> {
     positions: Positions<'a>,
     opened: ElementIdx,
     pad: Option<(usize, ElementIdx)>,
-    balance_window: Option<Range<usize>>,
+    balance_windows: HashMap<&'a str, Range<usize>>,
     booking: Booking,
 }
 
@@ -795,7 +795,7 @@ impl<'a> AccountBuilder<'a> {
             positions: Positions::default(),
             opened,
             pad: None,
-            balance_window: None,
+            balance_windows: HashMap::default(),
             booking,
         }
     }
-- 
2.43.0


From 2c1f2c7095c8f1fa6b495ac30fdcf8a1d504778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 06/29] fix: parse error responses carry the id of the request

---
 rust/src/api/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index 5cacd71..824cdf6 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -215,7 +215,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
@@ -241,7 +241,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
@@ -259,7 +259,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
-- 
2.43.0


From ce864507041c62d39150c94ac1890e64686d3ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 07/29] fix: health reports a clojure that does not run

---
 rust/src/bin/limabean/health.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rust/src/bin/limabean/health.rs b/rust/src/bin/limabean/health.rs
index a8fc172..e994606 100644
--- a/rust/src/bin/limabean/health.rs
+++ b/rust/src/bin/limabean/health.rs
@@ -36,12 +36,20 @@ fn check_clojure(verbose: bool) {
 }
 
 fn clojure_health() -> Health {
-    match Command::new("clojure")
-        .arg("--version")
-        .output()
-        .map(|op| String::from_utf8_lossy(op.stdout.as_slice()).replace("\n", "; "))
-    {
-        Ok(description) => Health::Good(format!("clojure: {}", description)),
+    match Command::new("clojure").arg("--version").output() {
+        Ok(output) => {
+            if output.status.success() {
+                Health::Good(format!(
+                    "clojure: {}",
+                    String::from_utf8_lossy(output.stdout.as_slice()).replace("\n", "; ")
+                ))
+            } else {
+                Health::Bad(format!(
+                    "clojure: {}",
+                    String::from_utf8_lossy(output.stderr.as_slice()).replace("\n", "; ")
+                ))
+            }
+        }
         Err(e) => Health::Bad(format!("can't find clojure: {}", &e)),
     }
 }
-- 
2.43.0


From 2b4df4b86343d04137bc26740f740c6c68be22d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 08/29] fix: a line that is not UTF-8 gets an error response

---
 rust/src/api/server.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index 824cdf6..c56c879 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -105,6 +105,12 @@ impl<'a> Server<'a> {
                     }
                 }
 
+                // the offending line has been read: answer it and carry on with the next
+                Err(e) if e.kind() == io::ErrorKind::InvalidData => {
+                    tracing::error!("<- {}", &e);
+                    write_other_error(None, ERROR_PARSE, Cow::Owned(e.to_string()), w).unwrap();
+                }
+
                 Err(e) => {
                     tracing::error!("<- {}", &e);
                     std::process::exit(1);
-- 
2.43.0


From c466d6d87b91536aa159ef3802146e50d60bcfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 09/29] fix: integer ids beyond 32 bits come back unchanged

---
 rust/src/api/json_rpc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/api/json_rpc.rs b/rust/src/api/json_rpc.rs
index 1b0dbfe..53e47d4 100644
--- a/rust/src/api/json_rpc.rs
+++ b/rust/src/api/json_rpc.rs
@@ -149,7 +149,7 @@ where
 #[serde(untagged)]
 pub(crate) enum Id<'a> {
     String(&'a str),
-    Int(i32),
+    Int(i64),
     Float(f64),
 }
 
-- 
2.43.0


From 3f08902de86c0972413e75d120e205354d57a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 10/29] fix: rolled up balances are added in a fixed order

---
 rust/src/api/booking/accumulator.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 6397409..fc4e991 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -371,7 +371,14 @@ impl<'a, 't> Accumulator<'a, 't> {
 
     // get the total units for given currency in an account and all its subaccounts
     fn total_rollup_units_for_currency(&self, base_account_name: &str, currency: &str) -> Decimal {
-        self.account_and_subaccounts(base_account_name)
+        // in the order of opening, not that of the hash map, since the order of addition
+        // may determine the scale of the result
+        let mut accounts = self
+            .account_and_subaccounts(base_account_name)
+            .collect::<Vec<_>>();
+        accounts.sort_by_key(|account| account.opened.directive);
+        accounts
+            .into_iter()
             .map(|account| {
                 account
                     .positions
-- 
2.43.0


From da657be8ffe507cee58a9afd003f07074850ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 11/29] fix: fractional, large and escaped ids come back
 unchanged

---
 rust/src/api/json_rpc.rs | 8 ++++----
 rust/src/api/server.rs   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rust/src/api/json_rpc.rs b/rust/src/api/json_rpc.rs
index 53e47d4..9d16463 100644
--- a/rust/src/api/json_rpc.rs
+++ b/rust/src/api/json_rpc.rs
@@ -145,12 +145,12 @@ where
     data: Option<T>,
 }
 
-#[derive(Serialize, Deserialize, Copy, Clone, Debug)]
+#[derive(Serialize, Deserialize, Clone, Debug)]
 #[serde(untagged)]
 pub(crate) enum Id<'a> {
-    String(&'a str),
-    Int(i64),
-    Float(f64),
+    #[serde(borrow)]
+    String(Cow<'a, str>),
+    Number(serde_json::Number),
 }
 
 pub(crate) const JSONRPC_VERSION: &str = "2.0";
diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index c56c879..e87bf89 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -422,7 +422,7 @@ where
                 ))
             } else {
                 write_error::<Report, W>(
-                    response.id,
+                    response.id.clone(),
                     ERROR_INTERNAL,
                     Cow::Owned(e.to_string()),
                     None,
-- 
2.43.0


From e34a7e5fa865debd877a128ed53399f59b593348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 12/29] fix: arguments that are not UTF-8 are passed on
 unchanged

---
 rust/src/bin/limabean/main.rs |  4 ++--
 rust/src/bin/limabean/run.rs  | 15 +++++++--------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/rust/src/bin/limabean/main.rs b/rust/src/bin/limabean/main.rs
index 121fbd8..2b432ed 100644
--- a/rust/src/bin/limabean/main.rs
+++ b/rust/src/bin/limabean/main.rs
@@ -7,9 +7,9 @@ fn main() {
     tracing::subscriber::set_global_default(subscriber).unwrap();
 
     let runtime = Runtime::from_env();
-    let args = std::env::args().collect::<Vec<_>>();
+    let args = std::env::args_os().collect::<Vec<_>>();
 
-    if let Some("health") = args.get(1).map(String::as_str) {
+    if args.get(1).is_some_and(|arg| arg == "health") {
         health::check(&runtime, true);
     } else {
         run::run(&runtime, &args[1..]);
diff --git a/rust/src/bin/limabean/run.rs b/rust/src/bin/limabean/run.rs
index 1b5eea9..f42398d 100644
--- a/rust/src/bin/limabean/run.rs
+++ b/rust/src/bin/limabean/run.rs
@@ -1,4 +1,7 @@
-use std::{ffi::OsStr, process::Command};
+use std::{
+    ffi::{OsStr, OsString},
+    process::Command,
+};
 
 pub(crate) enum Runtime {
     Java(String),
@@ -65,7 +68,7 @@ impl Runtime {
 
     fn command<S>(&self, args: &[S]) -> Command
     where
-        S: AsRef<str>,
+        S: AsRef<OsStr>,
     {
         use Runtime::*;
 
@@ -88,11 +91,7 @@ impl Runtime {
             }
         };
 
-        cmd.args(
-            args.iter()
-                .map(|s| OsStr::new(s.as_ref()))
-                .collect::<Vec<_>>(),
-        );
+        cmd.args(args);
 
         cmd
     }
@@ -112,7 +111,7 @@ fn run_or_fail(mut cmd: Command) {
     std::process::exit(1);
 }
 
-pub(crate) fn run(runtime: &Runtime, args: &[String]) {
+pub(crate) fn run(runtime: &Runtime, args: &[OsString]) {
     let verbose = args.iter().any(|arg| arg == "-v" || arg == "--verbose");
     let version = args.iter().any(|arg| arg == "--version");
 
-- 
2.43.0


From 19544846ecd03f4525b3174458838dc0a92982c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 13/29] fix: quotes and backslashes in the local root are
 escaped

---
 rust/src/bin/limabean/run.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/bin/limabean/run.rs b/rust/src/bin/limabean/run.rs
index f42398d..11c5e18 100644
--- a/rust/src/bin/limabean/run.rs
+++ b/rust/src/bin/limabean/run.rs
@@ -44,7 +44,7 @@ impl Runtime {
         if let Ok(local_root) = std::env::var(LIMABEAN_CLJ_LOCAL_ROOT) {
             Runtime::clojure(format!(
                 r###"{{:local/root "{}"}}{}"###,
-                &local_root,
+                local_root.replace('\\', r"\\").replace('"', r#"\""#),
                 extra_deps.unwrap_or("".to_string())
             ))
         } else if let Ok(uberjar) = std::env::var(LIMABEAN_UBERJAR) {
-- 
2.43.0


From ab881c993132e85b9644d96f18e586954c27ac52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 14/29] fix: the default booking method comes from the
 booking_method option

---
 clj/src/limabean/core/registry.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/registry.clj b/clj/src/limabean/core/registry.clj
index 4d9c67e..1109849 100644
--- a/clj/src/limabean/core/registry.clj
+++ b/clj/src/limabean/core/registry.clj
@@ -6,7 +6,7 @@
 (defn build
   "Build the registry for given `directives` and `options`."
   [directives options]
-  (let [default-booking (get options :booking :strict)
+  (let [default-booking (or (keyword (:booking-method options)) :strict)
         init (transient {:acc-booking (transient {}), :cur-freq (transient {})})
         result (reduce (fn [result dct]
                          (case (:dct dct)
-- 
2.43.0


From 4fc349c2bfe7ef1ec4b52ff7625bcda5cdc0f715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 15/29] fix: the rollup of an empty inventory is empty

---
 clj/src/limabean.clj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean.clj b/clj/src/limabean.clj
index eb10097..86ff65a 100644
--- a/clj/src/limabean.clj
+++ b/clj/src/limabean.clj
@@ -31,7 +31,8 @@
   ```
   "
   [inv]
-  (let [primary-cur (first (apply max-key val (inventory/cur-freq inv)))]
+  (let [cur-freq (inventory/cur-freq inv)
+        primary-cur (when (seq cur-freq) (first (apply max-key val cur-freq)))]
     (rollup/build inv primary-cur)))
 
 (defn balances
-- 
2.43.0


From 2d3039a28ca6597dd733f0cd2f85900dd68b1bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 16/29] fix: lots whose costs differ only in scale are one
 position

---
 clj/src/limabean/core/inventory.clj | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/core/inventory.clj b/clj/src/limabean/core/inventory.clj
index be17ac4..059f855 100644
--- a/clj/src/limabean/core/inventory.clj
+++ b/clj/src/limabean/core/inventory.clj
@@ -66,11 +66,14 @@
         (= method :none) :append
         :else (throw (Exception. (str "unsupported booking method " method)))))
 (defn- position-key
-  "Return a key for a position which separates out by cost."
+  "Return a key for a position which separates out by cost.
+
+  Costs which differ only in scale have the same key, including integers."
   [pos]
   (let [cost (:cost pos)]
     (if cost
-      [(:date cost) (:cur cost) (:per-unit cost) (:label cost) (:merge cost)]
+      [(:date cost) (:cur cost) (some-> (:per-unit cost)
+                                        bigdec) (:label cost) (:merge cost)]
       [])))
 
 (defn- update-or-set
-- 
2.43.0


From dd8bcf07d15ef41efdf2785adaf508c795ca91d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 17/29] fix: booking errors are reported in the absence of raw
 plugins

---
 clj/src/limabean/adapter/loader.clj | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index 2403984..0579898 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -170,9 +170,11 @@
                     :booked-directives (type/directives resolved-directives))
             (debug/dump-configured?) (dump :booked-directives)
             (seq warnings) (assoc :booked-warnings warnings)))
-        (let [indexed-reports (:indexed-reports err)
-              spanned-reports (resolve-reports-from-raw indexed-reports
-                                                        raw-directives)]
+        (let [{:keys [spanned-reports indexed-reports]} err
+              ;; without raw plugins, reports are already in terms of spans
+              spanned-reports (or spanned-reports
+                                  (resolve-reports-from-raw indexed-reports
+                                                            raw-directives))]
           (assoc-in m [:error :booking] {:spanned-reports spanned-reports}))))
     (catch Exception e
       (assoc-in m [:error :booking] {:exception (Throwable->map e)}))))
-- 
2.43.0


From 238a2ad8252eec97056e9925744e7ec477f1fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 18/29] fix: a booking error in a posting is shown in its
 transaction after raw plugins

---
 clj/src/limabean/adapter/loader.clj | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index 0579898..bbf0093 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -127,7 +127,7 @@
       (and (:provenance dct) (or (:span pst) (:span dct)))
         (update :description
                 #(str % ", modified by " (str/join " " (:provenance dct))))
-      pst (assoc :context ["txn" dct-span]))))
+      pst (assoc :contexts [["transaction" dct-span]]))))
 
 (defn- resolve-report-related
   "Return a function to resolve the related field in a report"
@@ -139,12 +139,12 @@
 (defn- resolve-report-from-raw
   "Resolve idx to span in indexed report"
   [report raw-directives]
-  (let [{:keys [description span context]} (resolve-report-idx (:idx report)
-                                                               raw-directives)]
+  (let [{:keys [description span contexts]} (resolve-report-idx (:idx report)
+                                                                raw-directives)]
     (cond-> (assoc (select-keys report [:reason :annotation])
               :message (str "invalid " description)
               :span span)
-      context (assoc :context context)
+      contexts (assoc :contexts contexts)
       (:related report) (assoc :related
                           (mapv (resolve-report-related raw-directives)
                             (:related report))))))
-- 
2.43.0


From 23b8f97c4ff49fa72e3d3bb2cb339aee9b22bce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 19/29] fix: the source of a modified directive is shown with
 its plugin error

---
 clj/src/limabean/adapter/error.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/error.clj b/clj/src/limabean/adapter/error.clj
index 5af1bfb..3b3999a 100644
--- a/clj/src/limabean/adapter/error.clj
+++ b/clj/src/limabean/adapter/error.clj
@@ -25,7 +25,7 @@
                         (cond-> {:message (:plugin err),
                                  :reason (:message err),
                                  :span (or (:span-p dct) (:span dct))}
-                          (and (:span dct) (:span-p :dct))
+                          (and (:span dct) (:span-p dct))
                             (assoc :related [["source" (:span dct)]])))
                    (:err dct)))
          dct-errors)))
-- 
2.43.0


From 8a634b3a84f0b27035c224f2687a524bcd9f0af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 20/29] fix: quotes and backslashes are escaped in printed
 directives

---
 clj/src/limabean/core/format.clj | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index d4cee09..a1436e9 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -11,9 +11,10 @@
           :else "nil")))
 
 (defn- double-quote
-  "Double quote a string, otherwise nil"
+  "Double quote a string, escaping as required, otherwise nil"
   [s]
-  (and (string? s) (format "\"%s\"" s)))
+  (and (string? s)
+       (format "\"%s\"" (str/escape s {\" "\\\"", \\ "\\\\"}))))
 
 (defn- prefix
   "Prefix a string, otherwise nil"
-- 
2.43.0


From 20baa81a3a77107157056bc0790fd59bc33540f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 21/29] fix: the tolerance of a printed balance is before its
 currency

---
 clj/src/limabean/core/format.clj | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index a1436e9..19fa2db 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -131,8 +131,9 @@
       :txn (print-txn-specific-header-fields dct)
       :price (let [price (:price dct)]
                (print "" (:cur dct) (str (:per-unit price)) (:cur price)))
-      :balance (do (print "" (:acc dct) (str (:units dct)) (:cur dct))
-                   (when-let [tol (:tolerance dct)] (print " ~" (str tol))))
+      :balance (do (print "" (:acc dct) (str (:units dct)))
+                   (when-let [tol (:tolerance dct)] (print " ~" (str tol)))
+                   (print "" (:cur dct)))
       :open (do (print "" (:acc dct))
                 (when-let [currencies (:currencies dct)]
                   (print "" (str/join "," (sort currencies))))
-- 
2.43.0


From b811728a7e5b6ef20aa957c2ed33c7c9a50f0a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 22/29] fix: a total price is printed with @@

---
 clj/src/limabean/core/format.clj | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index 19fa2db..23ca486 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -78,12 +78,14 @@
 (defn- price->str
   "Convert price or price-spec to string"
   [price]
-  (with-out-str (print "@")
+  (with-out-str
                 ;; print at most one of per-unit and total, preferring
                 ;; per-unit
                 (if-let [per-unit (:per-unit price)]
-                  (print "" (str per-unit))
-                  (when-let [total (:total price)] (print " #" (str total))))
+                  (print "@" (str per-unit))
+                  (if-let [total (:total price)]
+                    (print "@@" (str total))
+                    (print "@")))
                 (when-let [cur (:cur price)] (print "" cur))))
 
 (defn- print-posting
-- 
2.43.0


From af38a07c9ee219add6497c547b2dad03a55f6263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 23/29] fix: small numbers in printed directives are readable
 as Beancount

---
 clj/src/limabean/core/format.clj | 36 ++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index 23ca486..e1504ee 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -16,6 +16,11 @@
   (and (string? s)
        (format "\"%s\"" (str/escape s {\" "\\\"", \\ "\\\\"}))))
 
+(defn- number->str
+  "Convert a number to string, never in scientific notation"
+  [n]
+  (if (decimal? n) (.toPlainString ^java.math.BigDecimal n) (str n)))
+
 (defn- prefix
   "Prefix a string, otherwise nil"
   [s prefix]
@@ -41,11 +46,11 @@
   (cond (nil? v) ""
         (contains? v :acc) (get v :acc)
         (and (contains? v :units) (contains? v :cur))
-          (format "%s %s" (str (get v :units)) (get v :cur))
+          (format "%s %s" (number->str (get v :units)) (get v :cur))
         (contains? v :string) (double-quote (get v :string))
         (contains? v :bool) (str/upper-case (str (get v :bool)))
         (contains? v :cur) (get v :cur)
-        (contains? v :number) (str (get v :number))
+        (contains? v :number) (number->str (get v :number))
         (contains? v :tag) (prefix (get v :tag) "#")
         (contains? v :link) (prefix (get v :link) "^")
         (contains? v :date) (str (get v :date))))
@@ -67,8 +72,8 @@
           (with-out-str
             ;; print at most one of per-unit and total, preferring per-unit
             (if-let [per-unit (:per-unit cost)]
-              (print (str per-unit))
-              (when-let [total (:total cost)] (print "#" (str total))))
+              (print (number->str per-unit))
+              (when-let [total (:total cost)] (print "#" (number->str total))))
             (when-let [cur (:cur cost)] (print "" cur))
             (when-let [date (:date cost)] (print "," (str date)))
             (when-let [label (double-quote (:label cost))] (print "," label))
@@ -79,21 +84,20 @@
   "Convert price or price-spec to string"
   [price]
   (with-out-str
-                ;; print at most one of per-unit and total, preferring
-                ;; per-unit
-                (if-let [per-unit (:per-unit price)]
-                  (print "@" (str per-unit))
-                  (if-let [total (:total price)]
-                    (print "@@" (str total))
-                    (print "@")))
-                (when-let [cur (:cur price)] (print "" cur))))
+    ;; print at most one of per-unit and total, preferring per-unit
+    (if-let [per-unit (:per-unit price)]
+      (print "@" (number->str per-unit))
+      (if-let [total (:total price)]
+        (print "@@" (number->str total))
+        (print "@")))
+    (when-let [cur (:cur price)] (print "" cur))))
 
 (defn- print-posting
   [pst]
   (print " ")
   (when-let [flag (:flag pst)] (print "" flag))
   (print "" (:acc pst))
-  (when-let [units (:units pst)] (print "" (str units)))
+  (when-let [units (:units pst)] (print "" (number->str units)))
   (when-let [cur (:cur pst)] (print "" cur))
   (when-let [cost (or (:cost pst) (:cost-spec pst))]
     (print "" (cost->str cost)))
@@ -132,9 +136,9 @@
     (case (:dct dct)
       :txn (print-txn-specific-header-fields dct)
       :price (let [price (:price dct)]
-               (print "" (:cur dct) (str (:per-unit price)) (:cur price)))
-      :balance (do (print "" (:acc dct) (str (:units dct)))
-                   (when-let [tol (:tolerance dct)] (print " ~" (str tol)))
+               (print "" (:cur dct) (number->str (:per-unit price)) (:cur price)))
+      :balance (do (print "" (:acc dct) (number->str (:units dct)))
+                   (when-let [tol (:tolerance dct)] (print " ~" (number->str tol)))
                    (print "" (:cur dct)))
       :open (do (print "" (:acc dct))
                 (when-let [currencies (:currencies dct)]
-- 
2.43.0


From c123b90e0be5bfc8d59da37c2482166fbaa85676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 24/29] fix: the phase is in the provenance of a booked
 directive once

---
 clj/src/limabean/adapter/plugins.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/plugins.clj b/clj/src/limabean/adapter/plugins.clj
index 7c32262..89ce743 100644
--- a/clj/src/limabean/adapter/plugins.clj
+++ b/clj/src/limabean/adapter/plugins.clj
@@ -77,7 +77,7 @@
             :provenance
             #(let [existing (or % [])]
                (cond-> existing
-                 (and phase (not (contains? existing phase))) (conj phase)
+                 (and phase (not-any? #{phase} existing)) (conj phase)
                  true (conj provenance))))))
 
 (defn- compose-and-wrap-resolved-plugins
-- 
2.43.0


From 9a55ce023228b2efa4d508a4c79b9a316ede2cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 25/29] fix: a balance with an integer tolerance is valid for
 plugins

---
 clj/src/limabean/spec.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/spec.clj b/clj/src/limabean/spec.clj
index 2645447..cb7a9b4 100644
--- a/clj/src/limabean/spec.clj
+++ b/clj/src/limabean/spec.clj
@@ -41,7 +41,7 @@
 (s/def ::narration string?)
 
 ;; balance fields
-(s/def ::tolerance decimal?)
+(s/def ::tolerance ::number)
 
 ;; open fields
 (s/def ::currencies (s/coll-of ::cur :kind set?))
-- 
2.43.0


From 128c955428ce7472dd162c33ac1066fdd3b3739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 26/29] fix: the message of an exception thrown by a plugin or
 booking is printed

---
 clj/src/limabean/adapter/error.clj  | 2 +-
 clj/src/limabean/adapter/loader.clj | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/adapter/error.clj b/clj/src/limabean/adapter/error.clj
index 3b3999a..1f6969c 100644
--- a/clj/src/limabean/adapter/error.clj
+++ b/clj/src/limabean/adapter/error.clj
@@ -36,7 +36,7 @@
         spanned-reports' (or spanned-reports (dct-errors->reports dct-errors))]
     (when message (println message))
     (when spanned-reports' (println (pod/format-errors pod spanned-reports')))
-    (when exception (println (:message exception)))))
+    (when exception (println (:cause exception)))))
 
 (defn print-errors
   "Print errors if any."
diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index bbf0093..b67ed0c 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -86,7 +86,7 @@
                                 " plugin, all "
                                 kind-name
                                 " plugins ignored")),
-                :exception e}))))))
+                :exception (Throwable->map e)}))))))
 
 (defn- merge-span-and-provenance
   [booked raw]
-- 
2.43.0


From e9adb5eb0c5992b2843dac0eca305ce03e126ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 27/29] fix: dump the directives after plugins, not those
 before again

---
 clj/src/limabean/adapter/loader.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index b67ed0c..7b42d9e 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -74,7 +74,7 @@
                                    (:pod m)))
                  dct-errors (filterv :err xf-directives)]
              (cond-> (assoc m (:xf-directives key) xf-directives)
-               (debug/dump-configured?) (dump (:directives key))
+               (debug/dump-configured?) (dump (:xf-directives key))
                (seq dct-errors) (assoc-in [:error (:plugins key) :dct-errors]
                                   dct-errors)))
            (catch Exception e
-- 
2.43.0


From 7f738d9edab25a8741fce5202eeb39044a4e0863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 28/29] fix: null values of printed custom directives are not
 lost

---
 clj/src/limabean/core/format.clj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index e1504ee..9a7357a 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -154,7 +154,8 @@
         (print "" (double-quote (:type dct)) (double-quote (:description dct)))
       :query (print "" (double-quote (:name dct)) (double-quote (:content dct)))
       :custom (do (print "" (double-quote (:type dct)))
-                  (doseq [v (:values dct)] (print "" (meta-value->str v))))
+                  (doseq [v (:values dct)]
+                    (print "" (if (nil? v) "NULL" (meta-value->str v)))))
       nil)
     (when-not (= (:dct dct) :custom)
       (print-tags-and-links-inline (:tags dct) (:links dct)))
-- 
2.43.0


From 2157cac26c7a2da5755cc7229dd76a992b413d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:53 +0000
Subject: [PATCH 29/29] fix: an error of a directive made by a plugin is shown
 at its synthetic source

---
 clj/src/limabean/adapter/plugins.clj | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/clj/src/limabean/adapter/plugins.clj b/clj/src/limabean/adapter/plugins.clj
index 89ce743..83db63e 100644
--- a/clj/src/limabean/adapter/plugins.clj
+++ b/clj/src/limabean/adapter/plugins.clj
@@ -49,7 +49,10 @@
   (mapv (resolve-xfs-with-config options) plugins))
 
 (defn- tag-and-validate-unseen
-  "Transducer to tag non-error directives which haven't been seen before, and if spec is non-nil, validate"
+  "Transducer to tag directives which haven't been seen before, and if spec is non-nil, validate.
+
+  Error directives are neither tagged nor validated, except that one without a source span
+  is tagged, as it needs a synthetic span for its error to be reported."
   [known-directives tagf spec]
   (fn [rf]
     (fn
@@ -59,13 +62,16 @@
       ([result] (rf result))
       ;; step
       ([result d]
-       (if (and (not (:err d))
+       (if (and (not (and (:err d) (or (:span d) (:provenance d))))
                 (not (contains? @known-directives (System/identityHashCode d))))
          (let [tagged-d (tagf d)]
            (vreset! known-directives
                     (conj! @known-directives
                            (System/identityHashCode tagged-d)))
-           (rf result (if spec (s/assert spec tagged-d) tagged-d)))
+           (rf result
+               (if (and spec (not (:err d)))
+                 (s/assert spec tagged-d)
+                 tagged-d)))
          ;; otherwise emit the original directive, whatever it was
          (rf result d))))))
 
-- 
2.43.0

