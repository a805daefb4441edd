From 2c1c00ad5dc0171ce8674c2a56ef7eecbb8fe2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:13 +0000
Subject: [PATCH 01/64] fix: read and write rect_delta next to the size of a
 pad

A trapezoid pad carries a size and a rect_delta. Only one of them was read,
so such pads were refused, including those written by this library.
---
 src/footprint/de.rs  | 2 +-
 src/footprint/ser.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 45d7328..406b9a1 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -246,7 +246,7 @@ impl FromSexp for Pad {
         if let Some(at) = i.maybe_t::<At>() {
             pad.at = at;
         }
-        if let Some(xy) = i.maybe_t::<Xy>() {
+        while let Some(xy) = i.maybe_t::<Xy>() {
             if xy.t == XyType::Size {
                 pad.size = xy;
             } else if xy.t == XyType::RectDelta {
diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index a986475..bc13b88 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -200,12 +200,12 @@ impl IntoSexp for Pad {
         v.push(self.shape.into_sexp());
         v.push(self.at.into_sexp());
         v.push(self.size.into_sexp());
-        if let Some(ref drill) = self.drill {
-            v.push(drill.into_sexp());
-        }
         if let Some(ref rect_delta) = self.rect_delta {
             v.push(rect_delta.into_sexp());
         }
+        if let Some(ref drill) = self.drill {
+            v.push(drill.into_sexp());
+        }
         v.push(self.layers.into_sexp());
         if let Some(ref net) = self.net {
             v.push(net.into_sexp());
-- 
2.43.0


From 5c4550ec9618097ba7e818f67c0fa16a1f67c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:13 +0000
Subject: [PATCH 02/64] fix: read a drill that has only an offset

KiCad writes (drill (offset x y)) for pads without a hole, and the writer
leaves out a zero width as well.
---
 src/footprint/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 406b9a1..87739f7 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -184,7 +184,7 @@ impl FromSexp for Drill {
         let mut i = IterAtom::new(s, "drill")?;
         let mut drill = Drill::default();
         drill.shape = i.maybe_literal_s("oval");
-        drill.width = i.f("width")?;
+        drill.width = i.maybe_f().unwrap_or(0.0);
         drill.height = i.maybe_f().unwrap_or(drill.width);
         let offset: Offset = i.maybe_t().unwrap_or(Offset(0.0, 0.0));
         drill.offset_x = offset.0;
-- 
2.43.0


From e7295887318f8cb5eb9a1890f791b4980879cbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:09 +0000
Subject: [PATCH 03/64] fix: report an error when a schematic ends too early

Reading a truncated schematic panicked on the first missing line.
---
 src/schematic.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 86d3170..9fd38f4 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -249,7 +249,7 @@ impl ParseState {
     }
 
     fn here(&self) -> String {
-        (self.v[self.i]).clone()
+        self.v.get(self.i).cloned().unwrap_or_default()
     }
 
     fn next(&mut self) {
@@ -1279,6 +1279,9 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
     let mut d = Component::default();
     p.next();
     loop {
+        if p.eof() {
+            return str_error("end of file reached in a component".to_string());
+        }
         let s = p.here();
         if s == "$EndComp" {
             break;
@@ -1374,6 +1377,9 @@ fn parse_sheet(p: &mut ParseState) -> Result<Sheet, KicadError> {
     let mut s = Sheet::default();
     p.next();
     loop {
+        if p.eof() {
+            return str_error("end of file reached in a sheet".to_string());
+        }
         let st = p.here();
         if st == "$EndSheet" {
             break;
@@ -1483,6 +1489,9 @@ fn parse_text(p: &mut ParseState) -> Result<Text, KicadError> {
     };
     let thickness = i64_from_string(p, &String::from(v[index + 1]))?;
     p.next();
+    if p.eof() {
+        return str_error("end of file reached in a text".to_string());
+    }
     let text = p.here();
     Ok(Text {
         t: t,
-- 
2.43.0


From 30dcc6056d90606a0442617fdb7719f88bf5cfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:09 +0000
Subject: [PATCH 04/64] fix: report an error for a label line without its last
 value

A global or hierarchical label with 8 instead of 9 values panicked.
---
 src/schematic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/schematic.rs b/src/schematic.rs
index 9fd38f4..2210967 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1483,6 +1483,9 @@ fn parse_text(p: &mut ParseState) -> Result<Text, KicadError> {
     } else {
         None
     };
+    if v.len() < index + 2 {
+        return str_error(format!("expecting 9 elements in {}", s));
+    }
     let italic = match v[index] {
         "Italic" => true,
         _ => false,
-- 
2.43.0


From 167e766d1f3c34fb96a543f81a9e5a2138b7edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:09 +0000
Subject: [PATCH 05/64] fix: accept blank lines in a schematic

A blank line between the elements panicked, keep it like other lines.
---
 src/schematic.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 2210967..330d6b8 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1564,8 +1564,7 @@ pub fn parse(filename: Option<PathBuf>, s: &str) -> Result<Schematic, KicadError
                     let w = parse_text(p)?;
                     sch.append_text(w)
                 }
-                Some(_) => sch.append_other(p.here()),
-                None => unreachable!(),
+                Some(_) | None => sch.append_other(p.here()),
             }
         }
         p.next()
-- 
2.43.0


From 1474ccf7c17cd69f593197c8ada5898702e1e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:09 +0000
Subject: [PATCH 06/64] fix: report an error for a component field with a short
 value

A field with missing style characters panicked.
---
 src/schematic.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 330d6b8..f76d1f4 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1127,8 +1127,7 @@ impl fmt::Display for Text {
 }
 
 fn char_at(s: &str, p: usize) -> char {
-    let v: Vec<char> = s.chars().collect();
-    v[..][p]
+    s.chars().nth(p).unwrap_or('\0')
 }
 
 
-- 
2.43.0


From 76c7b9dd05af878fdf420c50b5487c5f78b63923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:24 +0000
Subject: [PATCH 07/64] fix: read and write components that are not the first
 unit

The position line starts with the unit number. Any unit from 2 on made
the reader lose the orientation or refuse the schematic, and the writer
always claimed unit 1.
---
 src/schematic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index f76d1f4..aa3af0e 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -596,7 +596,7 @@ impl fmt::Display for Component {
         writeln!(
             f,
             "\t{:4} {:4} {:4}",
-            "1",
+            self.u.split_whitespace().nth(1).unwrap_or("1"),
             format!("{}", self.x),
             (format!("{}", self.y))
         )?;
@@ -1290,8 +1290,8 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
             Some("U") => parse_component_u(p, &mut d)?,
             Some("P") => parse_component_p(p, &mut d)?,
             Some("F") => parse_component_f(p, &mut d)?,
-            Some("1") | Some("0") => parse_component_rotation(p, &mut d)?,
             Some("AR") => parse_component_ar(p, &mut d)?,
+            Some(x) if x.parse::<i64>().is_ok() => parse_component_rotation(p, &mut d)?,
             _ => println!("skipping unknown component line {}", s),
         }
         p.next()
-- 
2.43.0


From d088367e9fb7281659231d8fa1a6f02aaec5e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:24 +0000
Subject: [PATCH 08/64] fix: write the name of a component field when it has
 its own

The name of the first four fields was dropped even when it was not the
default one, so a field added to a component with few fields lost its name.
---
 src/schematic.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index aa3af0e..e1a374a 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -735,12 +735,9 @@ impl ComponentField {
         let name = if v.len() == 11 {
             v[10].clone()
         } else {
-            match i {
-                0 => String::from("Reference"),
-                1 => String::from("Value"),
-                2 => String::from("Footprint"),
-                3 => String::from("UserDocLink"),
-                _ => return str_error("expecting name for componentfield > 3".to_string()),
+            match ComponentField::default_name(i) {
+                Some(name) => String::from(name),
+                None => return str_error("expecting name for componentfield > 3".to_string()),
             }
         };
         let c = ComponentField {
@@ -760,6 +757,17 @@ impl ComponentField {
         Ok(c)
     }
 
+    /// name of the fields that are normally written without one
+    fn default_name(i: i64) -> Option<&'static str> {
+        match i {
+            0 => Some("Reference"),
+            1 => Some("Value"),
+            2 => Some("Footprint"),
+            3 => Some("UserDocLink"),
+            _ => None,
+        }
+    }
+
     /// create a component field
     pub fn new_from(i: i64, name: String, value: String, x: f64, y: f64) -> ComponentField {
         ComponentField {
@@ -793,7 +801,7 @@ impl fmt::Display for ComponentField {
         write!(f, "{} {}", self.hjustify, self.vjustify)?;
         write!(f, "{}", if self.italic { 'I' } else { 'N' })?;
         write!(f, "{}", if self.bold { 'B' } else { 'N' })?;
-        if self.i > 3 {
+        if ComponentField::default_name(self.i) != Some(&self.name[..]) {
             write!(f, " \"{}\"", self.name)?
         };
         Ok(())
-- 
2.43.0


From 09091026bd37882488a20328b46d51f4d975e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:33 +0000
Subject: [PATCH 09/64] fix: give a schematic without page description a usable
 one

The empty default page was written as a line that can not be read again.
---
 src/schematic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index e1a374a..e1aa24e 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -307,9 +307,9 @@ pub struct Description {
 impl Default for Description {
     fn default() -> Description {
         Description {
-            size: String::from(""),
-            dimx: 0,
-            dimy: 0,
+            size: String::from("A4"),
+            dimx: 11693,
+            dimy: 8268,
             title: String::from("Normal"),
             date: String::from("Tue 19 May 2015"),
             rev: String::from(""),
-- 
2.43.0


From 6afbff0da5bdf4c122e728db2104a34bd97e8f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:33 +0000
Subject: [PATCH 10/64] fix: do not end a quoted string at an escaped quote

A schematic or symbol field with \" in its value was cut into pieces.
---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4c7f9c2..2962925 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,6 +29,8 @@ fn parse_split_quote_aware_int(n_opt: Option<usize>, s: &str) -> Result<Vec<Stri
     // if we are inside our outside a quoted string
     let mut inside_quotation = false;
     let mut quotation_seen = false;
+    // if the previous character was a \ in a quoted string
+    let mut escaped = false;
     let mut s2: String = "".into();
     for c in s.chars() {
         if let Some(n) = n_opt {
@@ -38,6 +40,11 @@ fn parse_split_quote_aware_int(n_opt: Option<usize>, s: &str) -> Result<Vec<Stri
                 continue;
             }
         }
+        if inside_quotation && (escaped || c == '\\') {
+            escaped = !escaped;
+            s2.push(c);
+            continue;
+        }
         // detection of starting "
         if !inside_quotation && c == '\"' {
             inside_quotation = true;
-- 
2.43.0


From 06bf7d9eea850a00d17f1835074f2c7c1d41fa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:55 +0000
Subject: [PATCH 11/64] fix: keep the portrait orientation of a schematic page

The portrait word at the end of the page line was dropped.
---
 src/schematic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index e1aa24e..ffa330b 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -282,6 +282,8 @@ pub struct Description {
     pub dimx: i64,
     /// dimension in Y
     pub dimy: i64,
+    /// if the page is in portrait orientation
+    pub portrait: bool,
     /// title
     pub title: String,
     /// date
@@ -310,6 +312,7 @@ impl Default for Description {
             size: String::from("A4"),
             dimx: 11693,
             dimy: 8268,
+            portrait: false,
             title: String::from("Normal"),
             date: String::from("Tue 19 May 2015"),
             rev: String::from(""),
@@ -326,7 +329,8 @@ impl Default for Description {
 
 impl fmt::Display for Description {
     fn fmt(&self, f: &mut fmt::Formatter) -> Result<(), fmt::Error> {
-        writeln!(f, "$Descr {} {} {}", self.size, self.dimx, self.dimy)?;
+        write!(f, "$Descr {} {} {}", self.size, self.dimx, self.dimy)?;
+        writeln!(f, "{}", if self.portrait { " portrait" } else { "" })?;
         writeln!(f, "encoding utf-8")?;
         writeln!(f, "Sheet {} {}", self.sheet, self.sheet_count)?;
         writeln!(f, "Title \"{}\"", self.title)?;
@@ -1197,6 +1201,7 @@ fn parse_description(p: &mut ParseState) -> Result<Description, KicadError> {
     d.size = v[1].clone();
     d.dimx = i64_from_string(p, &v[2])?;
     d.dimy = i64_from_string(p, &v[3])?;
+    d.portrait = v.get(4).map_or(false, |x| x.trim() == "portrait");
     p.next(); // $Descr
     p.next(); // encoding
     let v = parse_split_quote_aware_n(3, &p.here())?;
-- 
2.43.0


From cafdd08e9b2acb3308ba2b5b39bfb4de7a370c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:56 +0000
Subject: [PATCH 12/64] fix: write bold symbol fields as bold

Bold was written with the letter for italic, which can not be read again.
---
 src/symbol_lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index f815958..35a59a5 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -400,7 +400,7 @@ impl fmt::Display for Field {
             self.hjustify,
             self.vjustify,
             if self.italic { "I" } else { "N" },
-            if self.bold { "I" } else { "N" },
+            if self.bold { "B" } else { "N" },
         )?;
         if self.i > 3 {
             write!(f, " \"{}\"", self.name)?
-- 
2.43.0


From 4e3b4a2fbb821f559ab98526aa373d0d4d71b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:56 +0000
Subject: [PATCH 13/64] fix: report an error when a symbol library ends too
 early

Reading a truncated symbol library panicked on the first missing line.
---
 src/symbol_lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 35a59a5..4be698a 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -609,7 +609,7 @@ impl ParseState {
     }
 
     fn here(&self) -> String {
-        (self.v[self.i]).clone()
+        self.v.get(self.i).cloned().unwrap_or_default()
     }
 
     fn next(&mut self) {
-- 
2.43.0


From c12fdc35f5850f913837fb8de02351ec4068a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:56 +0000
Subject: [PATCH 14/64] fix: report an error for empty lines and short values
 in a symbol

An empty line or missing style characters in a field panicked.
---
 src/symbol_lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 4be698a..afb4b10 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -653,8 +653,7 @@ fn bool_from_string(s: &str, t: &'static str, f: &'static str) -> Result<bool, K
 }
 
 fn char_at(s: &str, p: usize) -> char {
-    let v: Vec<char> = s.chars().collect();
-    v[..][p]
+    s.chars().nth(p).unwrap_or('\0')
 }
 
 fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
-- 
2.43.0


From c791644d439f036f1957e750aedb7edac2929ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:56 +0000
Subject: [PATCH 15/64] fix: allow symbols without a value field

A symbol with less than two fields could be read but panicked when it was
written or renamed.
---
 src/symbol_lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index afb4b10..e96e1b2 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -295,8 +295,9 @@ impl Symbol {
         } else {
             self.name = name.to_string()
         }
-        let field = &mut self.fields[1];
-        field.value = name.to_string()
+        if let Some(field) = self.fields.get_mut(1) {
+            field.value = name.to_string()
+        }
     }
 
     /// get the list of pins on the symbol
@@ -331,7 +332,7 @@ impl Symbol {
 
 impl fmt::Display for Symbol {
     fn fmt(&self, f: &mut fmt::Formatter) -> result::Result<(), fmt::Error> {
-        writeln!(f, "# {}", &&self.fields[1].value)?;
+        writeln!(f, "# {}", self.fields.get(1).map_or(&self.name, |f| &f.value))?;
         writeln!(f, "#")?;
         writeln!(
             f,
-- 
2.43.0


From 6bd425e1538090790cc42eedf9e22d3c43920dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:56 +0000
Subject: [PATCH 16/64] fix: open symbol libraries with any file name

A file name that is not valid UTF-8 panicked.
---
 src/symbol_lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index e96e1b2..5cfb9cb 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -842,8 +842,7 @@ pub fn parse_str(s: &str) -> Result<SymbolLib, KicadError> {
 
 /// parse a file to a symbol lib
 pub fn parse_file(filename: &PathBuf) -> Result<SymbolLib, KicadError> {
-    let name = filename.to_str().unwrap();
-    let s = read_file(name)?;
+    let s = read_file(filename)?;
     parse(&s[..])
 }
 
-- 
2.43.0


From 47d487aa715be05a308b15a757efdd03dd8d88c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:56 +0000
Subject: [PATCH 17/64] fix: keep the footprint filters of a symbol

The filter list was dropped, and a symbol with aliases in front of it, as
KiCad writes them, could not be read at all.
---
 src/symbol_lib.rs | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 5cfb9cb..4804215 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -47,6 +47,8 @@ pub struct Symbol {
     pub fields: Vec<Field>,
     /// aliases
     pub aliases: Vec<String>,
+    /// footprint filter lines are transparently copied
+    pub footprint_filters: Vec<String>,
     /// draw
     pub draw: Vec<Draw>,
 }
@@ -284,6 +286,7 @@ impl Symbol {
             is_power: false,
             fields: vec![],
             aliases: vec![],
+            footprint_filters: vec![],
             draw: vec![],
         }
     }
@@ -357,6 +360,13 @@ impl fmt::Display for Symbol {
             }
             writeln!(f, "")?;
         }
+        if !self.footprint_filters.is_empty() {
+            writeln!(f, "$FPLIST")?;
+            for filter in &self.footprint_filters {
+                writeln!(f, "{}", filter)?
+            }
+            writeln!(f, "$ENDFPLIST")?;
+        }
         writeln!(f, "DRAW")?;
         for draw in &self.draw {
             writeln!(f, "{}", draw)?
@@ -657,6 +667,21 @@ fn char_at(s: &str, p: usize) -> char {
     s.chars().nth(p).unwrap_or('\0')
 }
 
+// the footprint filters can be before or after the aliases
+fn parse_fplist(p: &mut ParseState, s: &mut Symbol) {
+    if &p.here() == "$FPLIST" {
+        p.next();
+        while !p.eof() {
+            if &p.here() == "$ENDFPLIST" {
+                p.next();
+                break;
+            }
+            s.footprint_filters.push(p.here());
+            p.next()
+        }
+    }
+}
+
 fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
     p.next(); // skip line like # name
     assume_line!(p, "#");
@@ -684,17 +709,7 @@ fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
             break;
         }
     }
-    if &p.here() == "$FPLIST" {
-        p.next();
-        // skip FPLIST for now
-        while !p.eof() {
-            if &p.here() == "$ENDFPLIST" {
-                p.next();
-                break;
-            }
-            p.next()
-        }
-    }
+    parse_fplist(p, &mut s);
     if p.here().starts_with("ALIAS") {
         let v = parse_split_quote_aware(&p.here())?;
         for alias in v.into_iter().skip(1) {
@@ -702,6 +717,7 @@ fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
         }
         p.next();
     }
+    parse_fplist(p, &mut s);
     // TODO draw
     assume_line!(p, "DRAW");
     while !p.eof() {
-- 
2.43.0


From 6a6e02cac3686246b0cf4ef860e40d845156bd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:56 +0000
Subject: [PATCH 18/64] fix: write the name of a symbol field when it has its
 own

The name of the first four fields was dropped even when it was not the
default one.
---
 src/schematic.rs  | 2 +-
 src/symbol_lib.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index ffa330b..a2a76bc 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -762,7 +762,7 @@ impl ComponentField {
     }
 
     /// name of the fields that are normally written without one
-    fn default_name(i: i64) -> Option<&'static str> {
+    pub(crate) fn default_name(i: i64) -> Option<&'static str> {
         match i {
             0 => Some("Reference"),
             1 => Some("Value"),
diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 4804215..6d3b31a 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -413,7 +413,7 @@ impl fmt::Display for Field {
             if self.italic { "I" } else { "N" },
             if self.bold { "B" } else { "N" },
         )?;
-        if self.i > 3 {
+        if schematic::ComponentField::default_name(self.i) != Some(&self.name[..]) {
             write!(f, " \"{}\"", self.name)?
         };
         Ok(())
-- 
2.43.0


From a02f7f77c3e4eb8bece405691265e74c32b8d861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:24 +0000
Subject: [PATCH 19/64] fix: refuse unknown parts of a library table entry

They were read over silently and lost when the table was written.
---
 src/fp_lib_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp_lib_table.rs b/src/fp_lib_table.rs
index 308b23d..e017ddc 100644
--- a/src/fp_lib_table.rs
+++ b/src/fp_lib_table.rs
@@ -78,7 +78,7 @@ impl FromSexp for Lib {
         let uri = i.s_in_list("uri")?;
         let options = i.s_in_list("options")?;
         let descr = i.s_in_list("descr")?;
-        Ok(Lib {
+        i.close(Lib {
             name: name,
             type_: type_,
             uri: uri,
-- 
2.43.0


From bd13362e1ba62f75f5ae13e9edbc0fedaa91c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:13 +0000
Subject: [PATCH 20/64] fix: report an error for an empty list

An empty list where a named one is expected panicked.
---
 src/footprint/de.rs | 13 +++++++------
 src/layout/de.rs    |  7 ++++---
 src/lib.rs          |  8 ++++++++
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 87739f7..33ba817 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -3,6 +3,7 @@
 use Sexp;
 use footprint;
 use footprint::data::*;
+use list_name;
 use wrap;
 use symbolic_expressions::iteratom::*;
 use symbolic_expressions::SexpError;
@@ -130,7 +131,7 @@ where
 
 impl FromSexp for Xy {
     fn from_sexp(s: &Sexp) -> Result<Xy, SexpError> {
-        let name: &str = &s.list_name()?[..];
+        let name: &str = &list_name(s)?[..];
         let t: Result<XyType, SexpError> = match name {
             "xy" => Ok(XyType::Xy),
             "start" => Ok(XyType::Start),
@@ -195,7 +196,7 @@ impl FromSexp for Drill {
 
 impl FromSexp for Part {
     fn from_sexp(s: &Sexp) -> Result<Part, SexpError> {
-        let name = &(s.list_name()?)[..];
+        let name = &(list_name(s)?)[..];
         match name {
             "thickness" => parse_part_float(s, Part::Thickness),
             "net" => wrap(s, from_sexp, Part::Net),
@@ -385,19 +386,19 @@ impl FromSexp for Model {
 }
 
 fn parse_string_element(s: &Sexp) -> Result<String, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     Ok(i.s("element")?)
 }
 
 fn parse_float_element(s: &Sexp) -> Result<f64, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     Ok(i.f("element")?)
 }
 
 fn parse_stamp_element(s: &Sexp) -> Result<i64, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let s = i.s("element")?;
     let i = i64::from_str_radix(&s, 16)?;
@@ -412,7 +413,7 @@ impl FromSexp for Element {
                 _ => Err(format!("unknown element in module: {}", s).into()),
             },
             Sexp::List(_) => {
-                let name = s.list_name()?;
+                let name = list_name(s)?;
                 match &name[..] {
                     "solder_mask_margin" => wrap(s, parse_float_element, Element::SolderMaskMargin),
                     "layer" => wrap(s, from_sexp, Element::Layer),
diff --git a/src/layout/de.rs b/src/layout/de.rs
index eaca0e1..d389012 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -5,6 +5,7 @@
 
 // from parent
 use footprint;
+use list_name;
 use wrap;
 use Sexp;
 use symbolic_expressions::iteratom::*;
@@ -190,7 +191,7 @@ impl FromSexp for NetClass {
         let mut diff_pair_width = None;
         let mut nets = vec![];
         for x in i.iter {
-            let list_name = x.list_name()?;
+            let list_name = list_name(x)?;
             let xn = &list_name[..];
             match xn {
                 "add_net" => {
@@ -231,7 +232,7 @@ impl FromSexp for Setup {
         let mut pcbplotparams = vec![];
         let i = IterAtom::new(s, "setup")?;
         for v in i.iter {
-            let n = v.list_name()?;
+            let n = list_name(v)?;
             if n == "pcbplotparams" {
                 let i2 = IterAtom::new(v, "pcbplotparams")?;
                 for y in i2.iter {
@@ -465,7 +466,7 @@ impl FromSexp for Layout {
         let mut layout = Layout::default();
         // TODO: read in order instead of matching on iter
         for e in i.iter {
-            match (e.list_name()?).as_str() {
+            match (list_name(e)?).as_str() {
                 "version" => layout.version = Version::from_sexp(e)?.0,
                 "host" => layout.host = from_sexp(e)?,
                 "general" => layout.general = from_sexp(e)?,
diff --git a/src/lib.rs b/src/lib.rs
index 2962925..8d9a2ea 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -243,6 +243,14 @@ pub fn read_fp_lib_table(name: &Path) -> Result<fp_lib_table::FpLibTable, KicadE
     }
 }
 
+/// name of a list, that can be empty
+fn list_name(s: &Sexp) -> result::Result<&String, SexpError> {
+    if s.list()?.is_empty() {
+        return Err("unexpected empty list".into());
+    }
+    s.list_name()
+}
+
 fn wrap<X, Y, F, G>(s: &Sexp, make: F, wrapper: G) -> result::Result<Y,SexpError>
 where
     F: Fn(&Sexp) -> result::Result<X,SexpError>,
-- 
2.43.0


From 1280d7c520460aa0ab60877800f8aa7b07e91780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:58 +0000
Subject: [PATCH 21/64] fix: refuse lists that are nested too deep

Reading them recursed until the stack was exhausted, which can not be caught.
---
 src/footprint/mod.rs |  3 ++-
 src/fp_lib_table.rs  |  3 ++-
 src/layout/mod.rs    |  3 ++-
 src/lib.rs           | 33 +++++++++++++++++++++++++++++++++
 4 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/footprint/mod.rs b/src/footprint/mod.rs
index 771a7e6..f809286 100644
--- a/src/footprint/mod.rs
+++ b/src/footprint/mod.rs
@@ -11,6 +11,7 @@ use symbolic_expressions;
 use symbolic_expressions::IntoSexp;
 use formatter::KicadFormatter;
 use KicadError;
+use parse_sexp;
 
 // pub use footprint;
 pub use footprint::data::*;
@@ -55,7 +56,7 @@ impl fmt::Display for Layer {
 
 /// parse a &str to a Kicad Module
 pub fn parse(s: &str) -> Result<Module, KicadError> {
-    let t = symbolic_expressions::parser::parse_str(s)?;
+    let t = parse_sexp(s)?;
     let s = symbolic_expressions::from_sexp(&t)?;
     Ok(s)
 }
diff --git a/src/fp_lib_table.rs b/src/fp_lib_table.rs
index e017ddc..9252896 100644
--- a/src/fp_lib_table.rs
+++ b/src/fp_lib_table.rs
@@ -9,6 +9,7 @@ use formatter::KicadFormatter;
 use symbolic_expressions::iteratom::*;
 use shellexpand;
 use error::KicadError;
+use parse_sexp;
 
 /// a fp-lib-table
 #[derive(Debug, Clone)]
@@ -90,7 +91,7 @@ impl FromSexp for Lib {
 
 /// parse a &str to an `FpLibTable`
 pub fn parse(s: &str) -> Result<FpLibTable, SexpError> {
-    let t = symbolic_expressions::parser::parse_str(s)?;
+    let t = parse_sexp(s)?;
     let s = symbolic_expressions::from_sexp(&t)?;
     Ok(s)
 }
diff --git a/src/layout/mod.rs b/src/layout/mod.rs
index f407554..e53c532 100644
--- a/src/layout/mod.rs
+++ b/src/layout/mod.rs
@@ -11,6 +11,7 @@ use formatter::KicadFormatter;
 pub use layout::data::*;
 
 use {Adjust, Bound, BoundingBox, KicadError};
+use parse_sexp;
 
 /// convert a Kicad layout to a String
 pub fn layout_to_string(layout: &Layout, indent_level: i64) -> Result<String, KicadError> {
@@ -23,7 +24,7 @@ pub fn layout_to_string(layout: &Layout, indent_level: i64) -> Result<String, Ki
 
 /// parse a &str to a Kicad layout
 pub fn parse(s: &str) -> Result<Layout, KicadError> {
-    let x = match symbolic_expressions::parser::parse_str(s) {
+    let x = match parse_sexp(s) {
         Ok(s) => symbolic_expressions::from_sexp(&s),
         Err(x) => Err(format!("ParseError: {:?}", x).into()),
     };
diff --git a/src/lib.rs b/src/lib.rs
index 8d9a2ea..2b25eec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -251,6 +251,39 @@ fn list_name(s: &Sexp) -> result::Result<&String, SexpError> {
     s.list_name()
 }
 
+// no Kicad file comes near this
+const MAX_NESTING: i64 = 256;
+
+/// parse symbolic-expressions, refusing a nesting that would exhaust the stack
+fn parse_sexp(s: &str) -> result::Result<Sexp, SexpError> {
+    let mut depth = 0;
+    let mut bare = false;
+    let mut quoted = false;
+    let mut escaped = false;
+    for c in s.chars() {
+        if quoted {
+            quoted = c != '"' || escaped;
+            escaped = c == '\\';
+            continue;
+        }
+        match c {
+            '(' => depth += 1,
+            ')' => depth -= 1,
+            '"' if !bare => quoted = true,
+            _ => (),
+        }
+        if depth > MAX_NESTING {
+            return Err("lists are nested too deep".into());
+        }
+        bare = match c {
+            '(' | ')' | ' ' | '\r' | '\n' => false,
+            '\t' => bare,
+            _ => !quoted,
+        };
+    }
+    symbolic_expressions::parser::parse_str(s)
+}
+
 fn wrap<X, Y, F, G>(s: &Sexp, make: F, wrapper: G) -> result::Result<Y,SexpError>
 where
     F: Fn(&Sexp) -> result::Result<X,SexpError>,
-- 
2.43.0


From 0ea995771afb59b43c26249ba4d3e06a8f50dd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:58 +0000
Subject: [PATCH 22/64] fix: refuse stray values in the margin and connection
 parts of a pad

They were read over silently and lost when the footprint was written.
---
 src/footprint/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 33ba817..b2cba84 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -110,8 +110,8 @@ where
     F: Fn(f64) -> Part,
 {
     let v = e.list()?;
-    if v.len() < 2 {
-        return Err(format!("not enough elements in {}", e).into());
+    if v.len() != 2 {
+        return Err(format!("expecting 2 elements in {}", e).into());
     }
     let f = v[1].f()?;
     Ok(make(f))
@@ -122,8 +122,8 @@ where
     F: Fn(i64) -> Part,
 {
     let v = e.list()?;
-    if v.len() < 2 {
-        return Err(format!("not enough elements in {}", e).into());
+    if v.len() != 2 {
+        return Err(format!("expecting 2 elements in {}", e).into());
     }
     let i = v[1].i()?;
     Ok(make(i))
-- 
2.43.0


From 47d47bcf8c44aa499a8854f306ff09f345849c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:58 +0000
Subject: [PATCH 23/64] fix: refuse stray values in the simple parts of a
 footprint

They were read over silently and lost when the footprint was written.
---
 src/footprint/de.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index b2cba84..cdc14a4 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -388,21 +388,22 @@ impl FromSexp for Model {
 fn parse_string_element(s: &Sexp) -> Result<String, SexpError> {
     let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
-    Ok(i.s("element")?)
+    let s = i.s("element")?;
+    i.close(s)
 }
 
 fn parse_float_element(s: &Sexp) -> Result<f64, SexpError> {
     let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
-    Ok(i.f("element")?)
+    let f = i.f("element")?;
+    i.close(f)
 }
 
 fn parse_stamp_element(s: &Sexp) -> Result<i64, SexpError> {
     let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let s = i.s("element")?;
-    let i = i64::from_str_radix(&s, 16)?;
-    Ok(i)
+    i.close(i64::from_str_radix(&s, 16)?)
 }
 
 impl FromSexp for Element {
-- 
2.43.0


From 9bff7c575aa3ce1b4ee24137ce82b31f4061331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:58 +0000
Subject: [PATCH 24/64] fix: refuse a justification with more than one word

Only the first word was kept, so mirrored text lost its mirroring.
---
 src/footprint/de.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index cdc14a4..cc5ceba 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -64,12 +64,13 @@ impl FromSexp for Justify {
     fn from_sexp(s: &Sexp) -> Result<Justify, SexpError> {
         let mut i = IterAtom::new(s, "justify")?;
         let s = i.s("mirror")?;
-        match &s[..] {
-            "mirror" => Ok(Justify::Mirror),
-            "left" => Ok(Justify::Left),
-            "right" => Ok(Justify::Right),
-            _ => Err(format!("unknown justify: {}", s).into()),
-        }
+        let justify = match &s[..] {
+            "mirror" => Justify::Mirror,
+            "left" => Justify::Left,
+            "right" => Justify::Right,
+            _ => return Err(format!("unknown justify: {}", s).into()),
+        };
+        i.close(justify)
     }
 }
 
-- 
2.43.0


From d876f6d3f67275169bdae9f46089374369c15533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:59 +0000
Subject: [PATCH 25/64] fix: refuse points of the wrong kind in pads, lines,
 circles and arcs

They were dropped silently and a default position was used instead.
---
 src/footprint/de.rs | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index cc5ceba..235c35c 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -150,6 +150,17 @@ impl FromSexp for Xy {
     }
 }
 
+impl Xy {
+    /// only accept a point of the given type
+    fn expect(self, t: XyType) -> Result<Xy, SexpError> {
+        if self.t == t {
+            Ok(self)
+        } else {
+            Err(format!("expecting {:?}, got {:?}", t, self.t).into())
+        }
+    }
+}
+
 impl FromSexp for Pts {
     fn from_sexp(s: &Sexp) -> Result<Pts, SexpError> {
         let mut i = IterAtom::new(s, "pts")?;
@@ -253,8 +264,9 @@ impl FromSexp for Pad {
                 pad.size = xy;
             } else if xy.t == XyType::RectDelta {
                 pad.rect_delta = Some(xy);
+            } else {
+                return Err("unexpected point in pad".into());
             }
-            // else ignore
         }
         pad.drill = i.maybe_t::<Drill>();
         if let Some(layers) = i.maybe_t::<Layers>() {
@@ -300,14 +312,10 @@ impl FromSexp for FpLine {
         let mut i = IterAtom::new(s, "fp_line")?;
         let mut fp_line = FpLine::default();
         if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::Start {
-                fp_line.start = xy;
-            }
+            fp_line.start = xy.expect(XyType::Start)?;
         }
         if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::End {
-                fp_line.end = xy;
-            }
+            fp_line.end = xy.expect(XyType::End)?;
         }
         if let Some(layer) = i.maybe_t::<Layer>() {
             fp_line.layer = layer;
@@ -325,14 +333,10 @@ impl FromSexp for FpCircle {
         let mut i = IterAtom::new(s, "fp_circle")?;
         let mut fp_circle = FpCircle::default();
         if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::Center {
-                fp_circle.center = xy;
-            }
+            fp_circle.center = xy.expect(XyType::Center)?;
         }
         if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::End {
-                fp_circle.end = xy;
-            }
+            fp_circle.end = xy.expect(XyType::End)?;
         }
         if let Some(layer) = i.maybe_t::<Layer>() {
             fp_circle.layer = layer;
@@ -350,14 +354,10 @@ impl FromSexp for FpArc {
         let mut i = IterAtom::new(s, "fp_arc")?;
         let mut fp_arc = FpArc::default();
         if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::Start {
-                fp_arc.start = xy;
-            }
+            fp_arc.start = xy.expect(XyType::Start)?;
         }
         if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::End {
-                fp_arc.end = xy;
-            }
+            fp_arc.end = xy.expect(XyType::End)?;
         }
         if let Some(angle) = i.maybe_f_in_list("angle") {
             fp_arc.angle = angle;
-- 
2.43.0


From e059dff92bdda252bda14c0afe58d801e7afd13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:59 +0000
Subject: [PATCH 26/64] fix: keep layer names with more than one dot

Only the text before the first dot was kept.
---
 src/footprint/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index a701e10..bb37b0e 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -950,7 +950,7 @@ impl Layer {
             };
             sp[1]
         } else {
-            sp[0]
+            s
         };
 
         let t = match s_t {
-- 
2.43.0


From 540126918b10b899b3a970e073d04b11540cc995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:59 +0000
Subject: [PATCH 27/64] fix: refuse unknown words in a layer definition

Any word was taken for hide.
---
 src/layout/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index d389012..37d744e 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -135,7 +135,7 @@ impl FromSexp for Layer {
         let num = i.i("num")?;
         let layer = footprint::Layer::from_string(&i.s("layer")?)?;
         let layer_type = i.t("layer_type")?;
-        let hide = i.maybe_s().is_some();
+        let hide = i.maybe_literal_s("hide").is_some();
         i.close(Layer {
             num: num,
             layer: layer,
-- 
2.43.0


From 06b27abbbf52cab826a4f506a2df937b1ad7c34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:59 +0000
Subject: [PATCH 28/64] fix: do not take the polygon fill mode for segment mode

Any fill mode was read and written back as segment mode.
---
 src/layout/de.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index 37d744e..d159292 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -418,7 +418,11 @@ impl FromSexp for Fill {
         let mut fill = Fill::default();
         let mut i = IterAtom::new(s, "fill")?;
         fill.filled = i.maybe_literal_s("yes").is_some();
-        fill.segment = i.maybe_s_in_list("mode").is_some();
+        fill.segment = match i.maybe_s_in_list("mode") {
+            Some(ref s) if s == "segment" => true,
+            Some(ref s) if s != "polygon" => return Err(format!("unknown fill mode {}", s).into()),
+            _ => false,
+        };
         fill.arc_segments = i.i_in_list("arc_segments")?;
         fill.thermal_gap = i.f_in_list("thermal_gap")?;
         fill.thermal_bridge_width = i.f_in_list("thermal_bridge_width")?;
-- 
2.43.0


From d655fafd782e0b733b5ab0ee5ba5b2978bc0a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:00 +0000
Subject: [PATCH 29/64] fix: refuse unknown words in a keepout area

Anything that did not start with not was taken for allowed.
---
 src/layout/de.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index d159292..f2956ef 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -401,13 +401,22 @@ impl FromSexp for ConnectPads {
         i.close(connect_pads)
     }
 }
+
+fn allowed(s: &str) -> Result<bool, SexpError> {
+    match s {
+        "allowed" => Ok(true),
+        "not_allowed" => Ok(false),
+        _ => Err(format!("expecting allowed or not_allowed, got {}", s).into()),
+    }
+}
+
 impl FromSexp for Keepout {
     fn from_sexp(s: &Sexp) -> Result<Keepout, SexpError> {
         let mut keepout = Keepout::default();
         let mut i = IterAtom::new(s, "keepout")?;
-        keepout.tracks = !i.s_in_list("tracks")?.starts_with("not");
-        keepout.vias = !i.s_in_list("vias")?.starts_with("not");
-        keepout.copperpour = !i.s_in_list("copperpour")?.starts_with("not");
+        keepout.tracks = allowed(&i.s_in_list("tracks")?)?;
+        keepout.vias = allowed(&i.s_in_list("vias")?)?;
+        keepout.copperpour = allowed(&i.s_in_list("copperpour")?)?;
         i.close(keepout)
     }
 }
-- 
2.43.0


From cc486e525d1c2024e87e282bd33a7574d1853e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:00 +0000
Subject: [PATCH 30/64] fix: refuse unknown kinds of wires in a schematic

They were read and written back as plain wires.
---
 src/schematic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index a2a76bc..424aadb 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1422,7 +1422,8 @@ fn parse_wire(p: &mut ParseState) -> Result<Wire, KicadError> {
     let t = match v[1] {
         "Notes" => WireType::Notes,
         "Bus" => WireType::Bus,
-        _ => WireType::Wire,
+        "Wire" => WireType::Wire,
+        x => return str_error(format!("unknown wire type {} in {}", x, t)),
     };
     p.next();
     let s = p.here();
-- 
2.43.0


From c242ee7fbb182d703a22663a83e45a94ea30f8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:48 +0000
Subject: [PATCH 31/64] fix: refuse a font with a point that is not its size

Any point was taken for the size of the font.
---
 src/footprint/de.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 235c35c..bfb21f0 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -80,6 +80,7 @@ impl FromSexp for Font {
         let mut i = IterAtom::new(s, "font")?;
         let mut font = Font::default();
         if let Some(xy) = i.maybe_t::<Xy>() {
+            let xy = xy.expect(XyType::Size)?;
             font.size.x = xy.x;
             font.size.y = xy.y;
         }
-- 
2.43.0


From 8beb63f20ac1dc0cdab4fedc18b3ccc394fb65e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:09 +0000
Subject: [PATCH 32/64] fix: order the corners of a footprint line's bounding
 box

A line drawn towards smaller coordinates had its lower and upper bounds
exchanged, and was left out of the box of its footprint.
---
 src/footprint/data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index bb37b0e..f78d481 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1218,7 +1218,9 @@ impl Default for FpLine {
 
 impl BoundingBox for FpLine {
     fn bounding_box(&self) -> Bound {
-        Bound::new(self.start.x, self.start.y, self.end.x, self.end.y)
+        let mut b = Bound::new(self.start.x, self.start.y, self.end.x, self.end.y);
+        b.swap_if_needed();
+        b
     }
 }
 
-- 
2.43.0


From 6819dbc0783dd565ed0897a2a3405888c934a3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:09 +0000
Subject: [PATCH 33/64] fix: order the corners of a footprint arc's bounding
 box

An arc drawn towards smaller coordinates had its lower and upper bounds
exchanged.
---
 src/footprint/data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index f78d481..e3c7011 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1320,7 +1320,9 @@ impl Flip for FpArc {
 impl BoundingBox for FpArc {
     fn bounding_box(&self) -> Bound {
         // perhaps not correct
-        Bound::new(self.start.x, self.start.y, self.end.x, self.end.y)
+        let mut b = Bound::new(self.start.x, self.start.y, self.end.x, self.end.y);
+        b.swap_if_needed();
+        b
     }
 }
 
-- 
2.43.0


From 6816818bdf4636bfc67e29e47c59bb47da9d74d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:09 +0000
Subject: [PATCH 34/64] fix: use the radius of a via for its bounding box

The size is the diameter, so the box was twice as big as the via.
---
 src/layout/data.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/layout/data.rs b/src/layout/data.rs
index 8a7b6ce..914bb34 100644
--- a/src/layout/data.rs
+++ b/src/layout/data.rs
@@ -591,10 +591,12 @@ impl Adjust for Via {
 
 impl BoundingBox for Via {
     fn bounding_box(&self) -> Bound {
-        let x1 = self.at.x - self.size;
-        let y1 = self.at.y - self.size;
-        let x2 = self.at.x + self.size;
-        let y2 = self.at.y + self.size;
+        // size is the diameter
+        let r = self.size / 2.0;
+        let x1 = self.at.x - r;
+        let y1 = self.at.y - r;
+        let x2 = self.at.x + r;
+        let y2 = self.at.y + r;
         Bound::new(x1, y1, x2, y2)
     }
 }
-- 
2.43.0


From 7cfc89bc30fd0eadbe96b3eafc084c457b36c0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:09 +0000
Subject: [PATCH 35/64] fix: bounding box of a schematic component

Its left side was set to the vertical position.
---
 src/schematic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 424aadb..a15141a 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -437,7 +437,7 @@ impl Default for Component {
 impl BoundingBox for Component {
     fn bounding_box(&self) -> Bound {
         debug!("Component bound calculation is poor");
-        Bound::new_from_i64(self.y, self.y, self.x, self.y)
+        Bound::new_from_i64(self.x, self.y, self.x, self.y)
     }
 }
 
-- 
2.43.0


From 8ecb368bb7cc6a95f722e45ab18542f3c7140de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:09 +0000
Subject: [PATCH 36/64] fix: name unknown files with any file name

A file name that is not valid UTF-8 panicked.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2b25eec..602ab6e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -128,7 +128,7 @@ pub enum Expected {
 impl fmt::Display for KicadFile {
     fn fmt(&self, f: &mut fmt::Formatter) -> std::result::Result<(), fmt::Error> {
         match *self {
-            KicadFile::Unknown(ref x) => write!(f, "unknown: {}", x.to_str().unwrap()),
+            KicadFile::Unknown(ref x) => write!(f, "unknown: {}", x.display()),
             KicadFile::Module(_) => write!(f, "module"),
             KicadFile::Schematic(_) => write!(f, "schematic"),
             KicadFile::Layout(_) => write!(f, "layout"),
-- 
2.43.0


From 58c2f492098cc6c58ad79cd07a72a850115cce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:09 +0000
Subject: [PATCH 37/64] fix: give an empty reference a sort key

It panicked.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 602ab6e..4970df9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -395,7 +395,7 @@ pub trait Adjust {
 /// ordering used for ordering by component reference
 /// to e.g. avoid U1 U101 U2 and get U1 U2 U101
 pub fn reference_ord(r: &str) -> (char, i64) {
-    let c = r.chars().nth(0).unwrap();
+    let c = r.chars().nth(0).unwrap_or('\0');
     let mut s = String::new();
     for c in r.chars() {
         if c >= '0' && c <= '9' {
-- 
2.43.0


From c487256cbebd90a74d208de610f324d2d0c52f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:18 +0000
Subject: [PATCH 38/64] fix: report sheets that contain themselves

Listing or looking up the components of such a schematic recursed until the
stack was exhausted.
---
 src/schematic.rs | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index a15141a..f8661b4 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -151,6 +151,10 @@ impl Schematic {
 
     /// return all components including from sub-sheets
     pub fn all_components(&self) -> Result<Vec<Component>, KicadError> {
+        self.all_components_below(&mut self.own_path())
+    }
+
+    fn all_components_below(&self, parents: &mut Vec<PathBuf>) -> Result<Vec<Component>, KicadError> {
         let mut v = vec![];
         for x in &self.elements {
             match *x {
@@ -163,15 +167,43 @@ impl Schematic {
             }
         }
         for sheet in &self.sheets {
-            let schematic = parse_file_for_sheet(self, sheet)?;
-            let mut v2 = schematic.all_components()?;
+            let schematic = self.enter_sheet(sheet, parents)?;
+            let mut v2 = schematic.all_components_below(parents)?;
+            parents.pop();
             v.append(&mut v2)
         }
         Ok(v)
     }
 
+    /// the file of the schematic, as start of the list of files a sheet is in
+    fn own_path(&self) -> Vec<PathBuf> {
+        match self.filename {
+            Some(ref path) => path.canonicalize().into_iter().collect(),
+            None => vec![],
+        }
+    }
+
+    /// parse the file of a sheet, that can't be one of the files it is in
+    fn enter_sheet(&self, sheet: &Sheet, parents: &mut Vec<PathBuf>) -> Result<Schematic, KicadError> {
+        let path = filename_for_sheet(self, sheet)?.canonicalize()?;
+        if parents.contains(&path) {
+            return str_error(format!("sheet {} contains itself", path.display()));
+        }
+        let schematic = parse_file_for_sheet(self, sheet)?;
+        parents.push(path);
+        Ok(schematic)
+    }
+
     /// get a component by reference
     pub fn component_by_reference(&self, reference: &str) -> Result<Component, KicadError> {
+        self.component_by_reference_below(reference, &mut self.own_path())
+    }
+
+    fn component_by_reference_below(
+        &self,
+        reference: &str,
+        parents: &mut Vec<PathBuf>,
+    ) -> Result<Component, KicadError> {
         for x in &self.elements {
             match *x {
                 Element::Component(ref c) => if c.reference == *reference {
@@ -185,8 +217,10 @@ impl Schematic {
             }
         }
         for sheet in &self.sheets {
-            let schematic = parse_file_for_sheet(self, sheet)?;
-            if let Ok(c) = schematic.component_by_reference(reference) {
+            let schematic = self.enter_sheet(sheet, parents)?;
+            let found = schematic.component_by_reference_below(reference, parents);
+            parents.pop();
+            if let Ok(c) = found {
                 return Ok(c);
             }
         }
-- 
2.43.0


From 043bb38cb071e744dea42e8a1316e2a2dd23855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:28 +0000
Subject: [PATCH 39/64] fix: check symbol pins against the 100 mil and 50 mil
 grid

Positions are in mil, so pins were only checked against 10 and 5 mil.
---
 src/symbol_lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 6d3b31a..b54d14f 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -957,7 +957,7 @@ impl CheckFix for Pin {
         let mut v = vec![];
         let name = format!("{}:{}", self.name, self.number);
         // 4.1 Using a 100mil grid, pin origin must lie on grid nodes (IEC-60617)
-        if (self.x % 10) != 0 {
+        if (self.x % 100) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
@@ -965,7 +965,7 @@ impl CheckFix for Pin {
                 "pin x not on 100mil grid",
             ));
         }
-        if (self.y % 10) != 0 {
+        if (self.y % 100) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
@@ -974,7 +974,7 @@ impl CheckFix for Pin {
             ));
         }
         // 4.1 Pin length can be incremented in steps of 50mils (1.27mm) if required e.g. for long pin numbers
-        if (self.len % 5) != 0 {
+        if (self.len % 50) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
-- 
2.43.0


From 230f3a57ab2b5e9cff6ebc1531f8a9d5c644fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:59 +0000
Subject: [PATCH 40/64] fix: recognise only whole automatic net names

A name that only starts like one, such as "Net-(R1-Pad2)x", was taken for
automatic as well, and lost the rest when it got another reference.
---
 src/layout/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/data.rs b/src/layout/data.rs
index 914bb34..f0ae4f7 100644
--- a/src/layout/data.rs
+++ b/src/layout/data.rs
@@ -906,7 +906,7 @@ impl NetName {
     pub fn is_unnamed_net(&self) -> Option<(String, String)> {
         if self.0.starts_with("Net-(") {
             let v: Vec<&str> = self.0.split(|c| c == '-' || c == '(' || c == ')').collect();
-            if v.len() != 5 {
+            if v.len() != 5 || self.0 != format!("Net-({}-{})", v[2], v[3]) {
                 None
             } else {
                 Some((v[2].into(), v[3].into()))
-- 
2.43.0


From 5c2d252189ea81bb85e4f351bb7ba4f896af2ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:59 +0000
Subject: [PATCH 41/64] fix: replace adjacent blocks of a net name

Of two blocks of the same name behind each other only the first was
replaced.
---
 src/layout/data.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/layout/data.rs b/src/layout/data.rs
index f0ae4f7..c27cee8 100644
--- a/src/layout/data.rs
+++ b/src/layout/data.rs
@@ -284,8 +284,15 @@ impl NetName {
     /// replace the block_name in a net name
     pub fn replace_block(&mut self, from: &str, to: &str) {
         let from_pat = format!("/{}/", from);
-        let to_pat = format!("/{}/", to);
-        let n = self.0.replace(&from_pat, &to_pat);
+        let mut n = String::new();
+        let mut rest = &self.0.clone()[..];
+        // the slash behind a block is also the one in front of the next
+        while let Some(i) = rest.find(&from_pat[..]) {
+            n.push_str(&rest[..i + 1]);
+            n.push_str(to);
+            rest = &rest[i + from_pat.len() - 1..];
+        }
+        n.push_str(rest);
         self.0 = n;
     }
 
-- 
2.43.0


From 3e2d607032e6b778beb2262efe51c8c51ada97ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:27 +0000
Subject: [PATCH 42/64] fix: keep every rotated angle below a full turn

Only one full turn was taken off, so rotating by more than that, or
rotating a negative angle further down, left the range.
---
 src/footprint/data.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index e3c7011..52dab14 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -610,10 +610,7 @@ impl At {
 
 impl Rotate for At {
     fn rotate(&mut self, rot: f64) {
-        self.rot += rot;
-        if self.rot >= 360.0 {
-            self.rot -= 360.0
-        }
+        self.rot = (self.rot + rot) % 360.0;
         if self.rot < 0.0 {
             self.rot += 360.0
         }
-- 
2.43.0


From 0a2a1c5a37c84a349b464f25b577e2d84f31f9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:27 +0000
Subject: [PATCH 43/64] fix: keep the justification of flipped texts

Flipping a text justified to the left or right lost that, and flipping it
back gave a mirrored text.
---
 src/footprint/data.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index 52dab14..f8a72d6 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -641,7 +641,8 @@ impl Flip for Effects {
     fn flip(&mut self) {
         self.justify = match self.justify {
             None => Some(Justify::Mirror),
-            Some(_) => None,
+            Some(Justify::Mirror) => None,
+            Some(ref x) => Some(x.clone()),
         }
     }
 }
-- 
2.43.0


From b844d0bbc12f978f36c937e01a3775a5b0a43f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:27 +0000
Subject: [PATCH 44/64] fix: mirror the drill offset of a flipped pad

The hole stayed on the same side of the pad.
---
 src/footprint/data.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index f8a72d6..756eee5 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1026,6 +1026,9 @@ pub struct Pad {
 impl Flip for Pad {
     fn flip(&mut self) {
         self.at.flip();
+        if let Some(ref mut drill) = self.drill {
+            drill.offset_y = -drill.offset_y
+        }
         self.layers.flip();
     }
 }
-- 
2.43.0


From c6ce108f1c2ac6bd0d0f153374029a54932536ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:27 +0000
Subject: [PATCH 45/64] fix: mirror the shape of a flipped trapezoid pad

Its narrow side stayed where it was.
---
 src/footprint/data.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index 756eee5..712544a 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1029,6 +1029,9 @@ impl Flip for Pad {
         if let Some(ref mut drill) = self.drill {
             drill.offset_y = -drill.offset_y
         }
+        if let Some(ref mut delta) = self.rect_delta {
+            delta.flip()
+        }
         self.layers.flip();
     }
 }
-- 
2.43.0


From 88618ccb2e0352031497f137b87c293647936f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:27 +0000
Subject: [PATCH 46/64] fix: reverse the sweep of a flipped arc

The mirrored arc was drawn in the direction of the original one, so it
bent to the other side.
---
 src/footprint/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index 712544a..691dee6 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1317,6 +1317,7 @@ impl Flip for FpArc {
     fn flip(&mut self) {
         self.start.flip();
         self.end.flip();
+        self.angle = -self.angle;
         self.layer.flip()
     }
 }
-- 
2.43.0


From 9007101a4f70e80529ce9d22ac4420ed815bd714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:10 +0000
Subject: [PATCH 47/64] fix: report value and second reference text sizes under
 rule 7.4

They belong to the fabrication layer rule, but were reported under the
silkscreen rule 7.3.
---
 src/footprint/data.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index 691dee6..04d3f3d 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1502,7 +1502,7 @@ impl CheckFix for Module {
             if (value.effects.font.size.y - font_size).abs() > EPSILON {
                 v.push(CheckFixData::info(
                     7,
-                    3,
+                    4,
                     name.clone(),
                     format!("value label should have height {}", font_size),
                 ));
@@ -1512,7 +1512,7 @@ impl CheckFix for Module {
             if (value.effects.font.size.x - font_size).abs() > EPSILON {
                 v.push(CheckFixData::info(
                     7,
-                    3,
+                    4,
                     name.clone(),
                     format!("value label should have width {}", font_size),
                 ));
@@ -1521,7 +1521,7 @@ impl CheckFix for Module {
             if (value.effects.font.thickness - font_thickness).abs() > EPSILON {
                 v.push(CheckFixData::info(
                     7,
-                    3,
+                    4,
                     name.clone(),
                     format!("value label thickness should be {}", font_thickness),
                 ))
@@ -1565,7 +1565,7 @@ impl CheckFix for Module {
             if (reference.effects.font.size.y - font_size).abs() > EPSILON {
                 v.push(CheckFixData::info(
                     7,
-                    3,
+                    4,
                     name.clone(),
                     format!("reference 2 label should have height {}", font_size),
                 ));
@@ -1575,7 +1575,7 @@ impl CheckFix for Module {
             if (reference.effects.font.size.x - font_size).abs() > EPSILON {
                 v.push(CheckFixData::info(
                     7,
-                    3,
+                    4,
                     name.clone(),
                     format!("reference 2 label should have width {}", font_size),
                 ));
@@ -1584,7 +1584,7 @@ impl CheckFix for Module {
             if (reference.effects.font.thickness - font_thickness).abs() > EPSILON {
                 v.push(CheckFixData::info(
                     7,
-                    3,
+                    4,
                     name.clone(),
                     format!("reference 2 label thickness should be {}", font_thickness),
                 ))
-- 
2.43.0


From dab8f2637ea4f49d601d9044f0cb48688801f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:10 +0000
Subject: [PATCH 48/64] fix: report a hidden second reference

Fixing a footprint shows the second reference, but a hidden one was not
reported by the check.
---
 src/footprint/data.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index 04d3f3d..d3a1a31 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1551,6 +1551,15 @@ impl CheckFix for Module {
                     "reference 2 should be on Fab layertype",
                 ));
             }
+            // 7.4 reference 2 should not be hidden
+            if reference.hide {
+                v.push(CheckFixData::new(
+                    7,
+                    4,
+                    name.clone(),
+                    "reference 2 should not be hidden",
+                ));
+            }
             // 7.4 aspect ratio should be 1:1
             if (reference.effects.font.size.x - reference.effects.font.size.y).abs() > EPSILON {
                 v.push(CheckFixData::new(
-- 
2.43.0


From 259b9592f89fab5394008b754eb83954fbc82616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:45 +0000
Subject: [PATCH 49/64] fix: move texts to an existing layer when fixing a
 footprint

Only the type of the layer was changed, so a text on Dwgs.User ended up
on Dwgs.SilkS, which does not exist.
---
 src/footprint/data.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index d3a1a31..a907daa 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -928,6 +928,16 @@ impl PartialEq for Layer {
 }
 
 impl Layer {
+    /// move to a layer of another type, on the front unless it is on the back
+    fn move_to(&mut self, t: LayerType) {
+        if self.t != t {
+            if self.side != LayerSide::Back {
+                self.side = LayerSide::Front;
+            }
+            self.t = t;
+        }
+    }
+
     /// create a layer from a String
     pub fn from_string(s: &str) -> Result<Layer, SexpError> {
         let sp: Vec<&str> = s.split('.').collect();
@@ -1669,7 +1679,7 @@ impl CheckFix for Module {
         if let Some(reference) = self.get_reference_text_mut() {
             reference.value.clear();
             reference.value.push_str("REF**");
-            reference.layer.t = LayerType::SilkS;
+            reference.layer.move_to(LayerType::SilkS);
             reference.hide = false;
             reference.effects.font.size.x = config.m.font_size;
             reference.effects.font.size.y = config.m.font_size;
@@ -1681,7 +1691,7 @@ impl CheckFix for Module {
         if let Some(value) = self.get_value_text_mut() {
             value.value.clear();
             value.value.push_str(&name);
-            value.layer.t = LayerType::Fab;
+            value.layer.move_to(LayerType::Fab);
             value.hide = false;
             value.effects.font.size.x = config.m.font_size;
             value.effects.font.size.y = config.m.font_size;
@@ -1715,7 +1725,7 @@ impl CheckFix for Module {
             let ref2 = self.get_reference2_text_mut().unwrap();
             ref2.value.clear();
             ref2.value.push_str("%R");
-            ref2.layer.t = LayerType::Fab;
+            ref2.layer.move_to(LayerType::Fab);
             ref2.hide = false;
             ref2.effects.font.size.x = config.m.font_size;
             ref2.effects.font.size.y = config.m.font_size;
-- 
2.43.0


From 414cd652f2a07bb6d3b1a3fa046937a1516c9400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:10 +0000
Subject: [PATCH 50/64] fix: report skipped schematic lines on standard error

They were printed on standard output, in between the results of the tools.
---
 src/schematic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index f8661b4..0cef1e7 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1339,7 +1339,7 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
             Some("F") => parse_component_f(p, &mut d)?,
             Some("AR") => parse_component_ar(p, &mut d)?,
             Some(x) if x.parse::<i64>().is_ok() => parse_component_rotation(p, &mut d)?,
-            _ => println!("skipping unknown component line {}", s),
+            _ => eprintln!("skipping unknown component line {}", s),
         }
         p.next()
     }
@@ -1436,9 +1436,9 @@ fn parse_sheet(p: &mut ParseState) -> Result<Sheet, KicadError> {
             Some(x) => if x.starts_with('F') {
                 parse_sheet_f(p, &mut s, x)?
             } else {
-                println!("skipping unknown sheet line {}", st)
+                eprintln!("skipping unknown sheet line {}", st)
             },
-            _ => println!("skipping unknown sheet line {}", st),
+            _ => eprintln!("skipping unknown sheet line {}", st),
         }
         p.next();
     }
-- 
2.43.0


From 7e88342a9cdbbd87a0db29e3365e71df55aa7b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:28 +0000
Subject: [PATCH 51/64] fix: write footprint arcs, tags and clearances on their
 own lines

KiCad starts a new line for them, but they were appended to the line of
the element in front of them.
---
 src/formatter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 4a1cefb..8dfb578 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -120,7 +120,8 @@ impl KicadFormatter {
         indent.before();
         if self.parent_is("module") {
             match ele {
-                "at" | "descr" | "fp_line" | "fp_poly" | "pad" | "path" | "fp_circle" | "attr" => {
+                "at" | "descr" | "fp_line" | "fp_poly" | "pad" | "path" | "fp_circle" | "attr" |
+                "fp_arc" | "tags" | "solder_mask_margin" | "clearance" => {
                     return Some(indent)
                 }
                 "model" | "fp_text" | "gr_text" => {
-- 
2.43.0


From 8bcd72aaf03d13b1443d3a06d71e4b886765e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:28 +0000
Subject: [PATCH 52/64] fix: write the options of a pad in KiCad's order and
 line layout

The margins, clearance and connection of a pad without a net stayed on the
first line, and the connection was written in front of the margins.
---
 src/footprint/ser.rs | 10 +++++-----
 src/formatter.rs     | 24 ++++++++++++++++++++----
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index bc13b88..faa8046 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -210,18 +210,18 @@ impl IntoSexp for Pad {
         if let Some(ref net) = self.net {
             v.push(net.into_sexp());
         }
-        if let Some(ref zc) = self.zone_connect {
-            v.push(("zone_connect", zc));
+        if let Some(ref spm) = self.solder_mask_margin {
+            v.push(("solder_mask_margin", spm));
         }
         if let Some(ref spm) = self.solder_paste_margin {
             v.push(("solder_paste_margin", spm));
         }
-        if let Some(ref spm) = self.solder_mask_margin {
-            v.push(("solder_mask_margin", spm));
-        }
         if let Some(ref spm) = self.clearance {
             v.push(("clearance", spm));
         }
+        if let Some(ref zc) = self.zone_connect {
+            v.push(("zone_connect", zc));
+        }
         if let Some(ref spm) = self.thermal_gap {
             v.push(("thermal_gap", spm));
         }
diff --git a/src/formatter.rs b/src/formatter.rs
index 8dfb578..15f9414 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -50,6 +50,16 @@ pub struct KicadFormatter {
     pts_xy_count: i64,
     seen_module: bool,
     seen_segment: bool,
+    seen_pad_option: bool,
+}
+
+// parts of a pad that are on a second line
+fn is_pad_option(ele: &str) -> bool {
+    match ele {
+        "net" | "solder_mask_margin" | "solder_paste_margin" | "clearance" | "zone_connect" |
+        "thermal_gap" => true,
+        _ => false,
+    }
 }
 
 impl KicadFormatter {
@@ -61,6 +71,7 @@ impl KicadFormatter {
             pts_xy_count: 0,
             seen_module: false,
             seen_segment: false,
+            seen_pad_option: false,
         }
     }
 
@@ -160,10 +171,8 @@ impl KicadFormatter {
                 _ => (),
             }
         }
-        if self.parent_is("pad") {
-            if let "net" = ele {
-                return Some(indent);
-            }
+        if self.parent_is("pad") && !self.seen_pad_option && is_pad_option(ele) {
+            return Some(indent);
         }
         None
     }
@@ -316,6 +325,13 @@ impl Formatter for KicadFormatter {
             }
         }
 
+        // only the first option of a pad starts a line
+        if let "pad" = &ele[..] {
+            self.seen_pad_option = false;
+        } else if self.parent_is("pad") && is_pad_option(&ele) {
+            self.seen_pad_option = true;
+        }
+
         // special handling for breaking of xy elements
         if let "pts" = &ele[..] {
             self.pts_xy_count = 0;
-- 
2.43.0


From d6639a21618ebaa3870e8bb0c2610f04faba7773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:28 +0000
Subject: [PATCH 53/64] fix: write one empty line after each group of board
 elements

The line was missing behind the tracks, in front of vias without a segment
and behind a net class without modules, and there were two between modules
and tracks.
---
 src/formatter.rs | 54 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 15f9414..6df539a 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -48,11 +48,32 @@ pub struct KicadFormatter {
     stack: Vec<Option<(String, Option<Indent>)>>,
     ind: Vec<u8>,
     pts_xy_count: i64,
-    seen_module: bool,
-    seen_segment: bool,
+    group: Group,
     seen_pad_option: bool,
 }
 
+// elements of a board that are kept together, with an empty line behind them
+#[derive(Clone, Copy, PartialEq)]
+enum Group {
+    NetClasses,
+    Modules,
+    Drawings,
+    Tracks,
+    Other,
+}
+
+impl Group {
+    fn of(ele: &str) -> Group {
+        match ele {
+            "net_class" => Group::NetClasses,
+            "module" => Group::Modules,
+            "gr_text" | "gr_line" | "gr_arc" | "gr_circle" | "dimension" => Group::Drawings,
+            "segment" | "via" => Group::Tracks,
+            _ => Group::Other,
+        }
+    }
+}
+
 // parts of a pad that are on a second line
 fn is_pad_option(ele: &str) -> bool {
     match ele {
@@ -69,8 +90,7 @@ impl KicadFormatter {
             stack: vec![],
             ind: vec![b' ', b' '], // two spaces
             pts_xy_count: 0,
-            seen_module: false,
-            seen_segment: false,
+            group: Group::Other,
             seen_pad_option: false,
         }
     }
@@ -299,21 +319,16 @@ impl Formatter for KicadFormatter {
             }
         }
 
-        // special handling: ugly :(
-        // write an extra newline before the first element after the last module
-        if let "module" = &ele[..] {
-            self.seen_module = true;
-        } else if self.parent_is("kicad_pcb") && self.seen_module {
-            self.seen_module = false;
-            self.indent(writer, 1)?;
-        }
-
-        // write an extra newline before the first segment
-        if !self.seen_segment {
-            if let "segment" = &ele[..] {
-                self.seen_segment = true;
-                self.indent(writer, 1)?;
+        // write an extra newline after the last element of a group
+        if self.parent_is("kicad_pcb") {
+            let group = Group::of(&ele);
+            // net classes and modules always have one in front of them
+            if self.group != Group::Other && self.group != group && group != Group::NetClasses
+                && group != Group::Modules
+            {
+                writer.write_all(b"\n")?;
             }
+            self.group = group;
         }
 
         let exp = Sexp::String(ele.clone());
@@ -389,6 +404,9 @@ impl Formatter for KicadFormatter {
             } else if self.stack.is_empty()
                 && (&s == "module" || &s == "kicad_pcb" || &s == "fp_lib_table")
             {
+                if &s == "kicad_pcb" && self.group != Group::Other {
+                    writer.write_all(b"\n")?;
+                }
                 writer.write_all(b"\n")?;
             }
         }
-- 
2.43.0


From e772d457a3a51f5f026685a68a6e2bc3e7aaaed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:28 +0000
Subject: [PATCH 54/64] fix: indent the end of a nested footprint

Its closing parenthesis was written at the start of the line.
---
 src/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 6df539a..bab6118 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -407,7 +407,7 @@ impl Formatter for KicadFormatter {
                 if &s == "kicad_pcb" && self.group != Group::Other {
                     writer.write_all(b"\n")?;
                 }
-                writer.write_all(b"\n")?;
+                self.indent(writer, 1)?;
             }
         }
         writer.write_all(b")")?;
-- 
2.43.0


From 8781957f9f836dc82c1d8835a537b0e5ccf1c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:34 +0000
Subject: [PATCH 55/64] fix: accept the timestamp of a board text where KiCad
 writes it

KiCad writes the timestamp of a text in front of its effects. Such a
board was refused. The text is now written in that order too.
---
 src/layout/de.rs  | 5 ++++-
 src/layout/ser.rs | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index f2956ef..cc133ea 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -264,8 +264,11 @@ impl FromSexp for GrText {
         t.value = i.s("value")?;
         t.at = i.t("at")?;
         t.layer = i.t("layer")?;
-        t.effects = i.t("effects")?;
         t.tstamp = i.maybe_s_in_list("tstamp");
+        t.effects = i.t("effects")?;
+        if t.tstamp.is_none() {
+            t.tstamp = i.maybe_s_in_list("tstamp");
+        }
         i.close(t)
     }
 }
diff --git a/src/layout/ser.rs b/src/layout/ser.rs
index 4d17e10..3045d4b 100644
--- a/src/layout/ser.rs
+++ b/src/layout/ser.rs
@@ -273,10 +273,10 @@ impl IntoSexp for GrText {
         v.push(&self.value);
         v.push(self.at.into_sexp());
         v.push(("layer", &self.layer));
-        v.push(self.effects.into_sexp());
         if let Some(ref tstamp) = self.tstamp {
             v.push(("tstamp", tstamp));
         }
+        v.push(self.effects.into_sexp());
         v
     }
 }
-- 
2.43.0


From d97aa07fb611f0a2d9ce7f6a4e6acdd5b32fca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:57 +0000
Subject: [PATCH 56/64] fix: rename the value field of a symbol, not its second
 field

---
 src/symbol_lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index b54d14f..7bb2a48 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -298,7 +298,7 @@ impl Symbol {
         } else {
             self.name = name.to_string()
         }
-        if let Some(field) = self.fields.get_mut(1) {
+        if let Some(field) = self.fields.iter_mut().find(|f| f.i == 1) {
             field.value = name.to_string()
         }
     }
-- 
2.43.0


From c2e74525ed3a69a1bdd7962f5a096ec7df760527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:27 +0000
Subject: [PATCH 57/64] fix: refuse a negative zone priority instead of
 wrapping it

---
 src/layout/de.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index cc133ea..211d8d3 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -346,6 +346,9 @@ impl FromSexp for Zone {
         let tstamp = i.s_in_list("tstamp")?;
         let hatch = i.t("hatch")?;
         let priority = i.maybe_i_in_list("priority").unwrap_or(0) as u64;
+        if priority > ::std::i64::MAX as u64 {
+            return Err(format!("negative priority {} in zone", priority as i64).into());
+        }
         let connect_pads = i.t("connect_pads")?;
         let min_thickness = i.f_in_list("min_thickness")?;
         let keepout = i.maybe_t();
-- 
2.43.0


From db047dd3bab0bafcd4f4de795342ab0a7eeca5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:47 +0000
Subject: [PATCH 58/64] fix: refuse a negative time stamp, which could not be
 written

---
 src/footprint/de.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index bfb21f0..20d3cc2 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -405,7 +405,11 @@ fn parse_stamp_element(s: &Sexp) -> Result<i64, SexpError> {
     let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let s = i.s("element")?;
-    i.close(i64::from_str_radix(&s, 16)?)
+    let stamp = i64::from_str_radix(&s, 16)?;
+    if stamp < 0 {
+        return Err(format!("negative stamp {}", s).into());
+    }
+    i.close(stamp)
 }
 
 impl FromSexp for Element {
-- 
2.43.0


From a9cb9df2001666ec6cc7457e7633dff357ac2d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:07 +0000
Subject: [PATCH 59/64] fix: write a font size below zero instead of leaving it
 out

---
 src/footprint/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index faa8046..25323ab 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -71,7 +71,7 @@ impl IntoSexp for At {
 impl IntoSexp for Font {
     fn into_sexp(&self) -> Sexp {
         let mut v = Sexp::start("font");
-        if self.size.x > 0.0 || self.size.y > 0.0 {
+        if self.size.x != 0.0 || self.size.y != 0.0 {
             let mut v1 = Sexp::start("size");
             v1.push(self.size.x);
             v1.push(self.size.y);
-- 
2.43.0


From 1465681c27209b350cfa428a94a0b0960fc363cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:17 +0000
Subject: [PATCH 60/64] fix: write a drill width of zero or below when a height
 follows it

---
 src/footprint/ser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index 25323ab..334f0da 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -3,7 +3,6 @@
 use Sexp;
 use symbolic_expressions::IntoSexp;
 use footprint::data::*;
-use std::f64;
 
 impl IntoSexp for Module {
     fn into_sexp(&self) -> Sexp {
@@ -139,10 +138,10 @@ impl IntoSexp for Drill {
         if let Some(ref s) = self.shape {
             v.push(s)
         }
-        if self.width > 0.0 {
+        if self.width != 0.0 || self.height != 0.0 {
             v.push(self.width);
         }
-        if self.height > 0.0 && (self.height - self.width).abs() > f64::EPSILON {
+        if self.height != self.width {
             v.push(self.height);
         }
         if self.offset_x != 0.0 || self.offset_y != 0.0 {
-- 
2.43.0


From b8a7e6bf7e67543b57d8a4b195e2495272ee1a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:36:48 +0000
Subject: [PATCH 61/64] fix: refuse a section a board has twice instead of
 dropping the first

---
 src/layout/de.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index 211d8d3..d061ac5 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -483,8 +483,19 @@ impl FromSexp for Layout {
     fn from_sexp(s: &Sexp) -> Result<Layout, SexpError> {
         let i = IterAtom::new(s, "kicad_pcb")?;
         let mut layout = Layout::default();
+        let mut sections = vec![];
         // TODO: read in order instead of matching on iter
         for e in i.iter {
+            match (list_name(e)?).as_str() {
+                x @ "version" | x @ "host" | x @ "general" | x @ "page" | x @ "layers"
+                | x @ "setup" => {
+                    if sections.contains(&x) {
+                        return Err(format!("second {} in layout", x).into());
+                    }
+                    sections.push(x)
+                }
+                _ => (),
+            }
             match (list_name(e)?).as_str() {
                 "version" => layout.version = Version::from_sexp(e)?.0,
                 "host" => layout.host = from_sexp(e)?,
-- 
2.43.0


From fd1fbc0cd683af176fc5b831ea99e89b7338547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:36:48 +0000
Subject: [PATCH 62/64] fix: refuse a value a net class has twice instead of
 dropping the first

---
 src/layout/de.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index d061ac5..bf6a52f 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -190,9 +190,16 @@ impl FromSexp for NetClass {
         let mut diff_pair_gap = None;
         let mut diff_pair_width = None;
         let mut nets = vec![];
+        let mut fields = vec![];
         for x in i.iter {
             let list_name = list_name(x)?;
             let xn = &list_name[..];
+            if xn != "add_net" {
+                if fields.contains(&xn) {
+                    return Err(format!("second {} in net_class", xn).into());
+                }
+                fields.push(xn);
+            }
             match xn {
                 "add_net" => {
                     let l1 = x.named_value_s("add_net")?;
-- 
2.43.0


From eb7dc23aa9e5c83d2b35a0f22a587f1da5baceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:36:48 +0000
Subject: [PATCH 63/64] fix: refuse a second list of fill segments in a zone
 instead of dropping the first

---
 src/layout/de.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index bf6a52f..f75f7f2 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -370,6 +370,9 @@ impl FromSexp for Zone {
             } else if let Ok(p) = FilledPolygon::from_sexp(x) {
                 filled_polygons.push(p.0)
             } else if let Ok(p) = FillSegments::from_sexp(x) {
+                if fill_segments.is_some() {
+                    return Err("second fill_segments in zone".into());
+                }
                 fill_segments = Some(p.0);
             } else {
                 others.push(x.clone());
-- 
2.43.0


From 705ed5bc3a5153218ae5be151357fbb3d67bfef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:37:06 +0000
Subject: [PATCH 64/64] fix: refuse a part a pad has twice instead of dropping
 the first

---
 src/footprint/de.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 20d3cc2..c7811c5 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -250,6 +250,16 @@ impl FromSexp for FpText {
 impl FromSexp for Pad {
     fn from_sexp(s: &Sexp) -> Result<Pad, SexpError> {
         let mut i = IterAtom::new(s, "pad")?;
+        let mut names = vec![];
+        for x in s.list()? {
+            if let Sexp::List(_) = *x {
+                let name = list_name(x)?;
+                if names.contains(&name) {
+                    return Err(format!("second {} in pad", name).into());
+                }
+                names.push(name)
+            }
+        }
         let name = i.s("name")?;
         let t = i.s("type")?;
         let t = PadType::from_string(&t)?;
-- 
2.43.0

